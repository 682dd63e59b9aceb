RE = "./pkg/mapserver/responder"
prop("R01", "The responder proves for every domain exactly what is stored for it",
 """The answer to a request has one proof for each domain from the effective second-level domain down to the requested name. A client accepts each of them
 against the saved root, the tree head signature covers that root, a domain is proven present if and only if certificates or policies are stored for it, and the
 answer lists exactly these, matching the proven value. A failure of the database is reported and never answered as missing content.""",
 ["inputs", "fault_sequences"], "every assignment of contents to the domains within the bounds, each of the listed requests, every position of one failing database operation",
 "Tests query a few fixed domains; the combination of content of all ancestors (present, certificates only, policies only, both, absent) with every form of request is not sampled.",
 ["pkg/mapserver/responder/responder.go", "pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/updater/updater.go", "pkg/domain/domain.go"],
 [("construction of the answer", "pkg/mapserver/responder/responder.go GetProof"), ("values of the tree", "pkg/mapserver/updater/updater.go domainEntriesToSMTInput")],
 observe=["MapResponder.GetProof", "prover.VerifyProofByDomain"],
 harnesses=[
  h("VxAnswer", RE, ["updater/store.go", "responder/proof.go", "responder/sign.go"], "contents of 2 (thorough 3) nested domains, 6 requests", {"params": {"sites": 2}}, {"params": {"sites": 3}, "sec": 900}),
  h("VxAnswerFault", RE, ["updater/store.go", "responder/proof.go", "responder/sign.go"], "contents of 1 domain, failure of any of the first 8 database operations"),
 ],
 assumptions=["an ideal hash, as in T02", "ideal signatures under the engine; replays use RSA", "the database stores the sorted identifiers of each domain (done by a stored procedure)"],
 outside=["requests while the database is being updated"],
)

prop("R02", "Answers stay consistent while the map root is reloaded",
 """While the responder reloads the root and signs it, every concurrent request is answered with proofs that verify against the root in the answer and with the
 signature of that same root, either the previous or the new one. After the reload the new root is used.""",
 ["schedules"], "every point (database access or signature) of a reload or request at which the other operation runs completely",
 "Tests never run requests during a reload; the mixed answer needs a reload in the middle of a request.",
 ["pkg/mapserver/responder/responder.go"],
 [("replacement of the root and its signature", "pkg/mapserver/responder/responder.go ReloadRootAndSignTreeHead"), ("construction of the answer", "pkg/mapserver/responder/responder.go GetProof")],
 state=[("smt, signedTreeHead", "root in use and its signature", "pkg/mapserver/responder/responder.go MapResponder")],
 observe=["MapResponder.GetProof", "MapResponder.ReloadRootAndSignTreeHead"],
 harnesses=[h("VxReload", RE, ["updater/store.go", "responder/proof.go", "responder/reload.go"], "1 request and 1 reload, one interleaved in the other at any of the first 12 points", {"params": {"points": 12}},
   patch=["pkg/mapserver/responder/responder.go|crypto.SignBytes(|vxHooked(crypto.SignBytes)("])],
 assumptions=["as in R01", "the nodes of the previous root are still stored"],
 outside=["interleavings in which both operations advance in turns", "interleaving between two plain memory accesses", "the removal of the nodes of the previous root while it is in use"],
)
