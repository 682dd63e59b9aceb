PR = "./pkg/mapserver/prover"
TR = "./pkg/mapserver/trie"
SHA = "SHA-256 is collision free: equal digests have equal preimages, digests of different preimages differ (a counterexample is realised with the real SHA-256 before it is reported)"

prop("T01", "Map proofs are sound: one root proves one state per domain",
 """For any signed root and any domain name, no two proofs that a client accepts contradict each other: they never prove two different values,
 nor both the presence and the absence of the domain. Verifying a malformed proof returns an answer or an error and never crashes the client.""",
 ["inputs"], "every root, domain name, claimed value, proof key and audit path (attacker-chosen bytes) within the length bounds",
 "The attacker chooses the proof: tests only verify proofs that the server built, so forged paths, wrong element sizes and ambiguous encodings are never tried.",
 ["pkg/mapserver/prover/prover.go", "pkg/mapserver/trie/trie_merkle_proof.go", "pkg/mapserver/common/structure.go"],
 [("client-side verification of a proof", "pkg/mapserver/prover/prover.go VerifyProofByDomain"), ("inclusion and non-inclusion checks", "pkg/mapserver/trie/trie_merkle_proof.go VerifyInclusion, VerifyNonInclusion")],
 observe=["prover.VerifyProofByDomain"],
 harnesses=[
  h("VxOneValue", PR, "prover/proofs.go", "two proofs with audit paths of up to `levels` elements of 32, 1 or 64 bytes; all roots, domain ids, values, elements", {"params": {"levels": 1, "kinds": 3}}, {"params": {"levels": 2, "kinds": 3}, "sec": 900}),
  h("VxExclusive", PR, "prover/proofs.go", "an inclusion and an absence proof with audit paths of up to `levels` elements", {"params": {"levels": 1, "kinds": 3}}, {"params": {"levels": 2, "kinds": 2}, "sec": 900}),
  h("VxNoPanic", PR, "prover/proofs.go", "one arbitrary response: audit path of up to 3 elements of any of the sizes listed in the harness, arbitrary hash values (no assumption on the hash)"),
  h("VxDefaultAmbiguity", PR, "prover/proofs.go", "an inclusion and an absence proof that use the one-byte default value inside audit paths"),
 ],
 assumptions=[SHA], outside=["audit paths longer than the bound (their elements are folded by the same loop)", "signature verification of the root, see R02"],
)

MAPF = ["pkg/mapserver/trie/trie.go", "pkg/mapserver/trie/trie_tools.go", "pkg/mapserver/trie/trie_cache.go"]
prop("T02", "The tree is a map: reads and proofs reflect the last updates",
 """After any history of update batches (insertions, changes, re-writes and deletions), commits and restarts, reading a key returns exactly the value
 last written for it and nothing for a key that was removed or never written, and the tree never becomes unreadable.
 For every key a proof of its actual state can be built, plain and compressed, and that proof verifies against the current root.""",
 ["histories", "inputs"], "every history of up to `steps` batches over `keys` keys (arbitrary values, any subset of keys per batch, deletion of any key) with commit, reload or nothing after each batch, for keys diverging at the first bits and for keys diverging at the last bits of their 256",
 "The tests write random disjoint keys once or twice; re-writing the same value, deleting in the middle of uncommitted batches, and keys that share long prefixes are combinations they do not sample.",
 MAPF + ["pkg/mapserver/trie/trie_merkle_proof.go"],
 [("batch update and shortcut moves", "pkg/mapserver/trie/trie.go update"), ("pending writes and removals", "pkg/mapserver/trie/trie_cache.go commitChangesToDB"), ("proof construction", "pkg/mapserver/trie/trie_merkle_proof.go MerkleProof, MerkleProofCompressed")],
 state=[("updatedNodes / removedNode", "nodes to write and to delete at the next commit", "pkg/mapserver/trie/trie_cache.go")],
 observe=["Trie.Update", "Trie.Get", "Trie.MerkleProof", "Trie.Commit"],
 harnesses=[
  h("VxMapProofs", TR, "trie/history.go", "2 keys in 2 batches, keys differ in the 5 upper bits of byte 0; then commit, reload, reload with cache or nothing", {"params": {"keys": 2, "steps": 2}}, {"params": {"keys": 3, "steps": 2}, "sec": 900}),
  h("VxMapProofs", TR, "trie/history.go", "2 keys that differ in the last 3 bits only (depth 256)", {"params": {"keys": 2, "steps": 2, "byte": 31, "mask": 3, "reload": 0}}, {"params": {"keys": 2, "steps": 2, "byte": 31, "mask": 7}, "sec": 900}),
 ],
 assumptions=["an ideal hash: equal inputs have equal digests and different inputs have different digests", "the store of tree nodes keeps what it is given (in-memory stand-in for MySQL)"],
 outside=["more keys or batches than the bound", "updates of more than 4096 keys (the parallel update)"],
)

prop("T03", "The root depends on the content only",
 """The root hash of the tree is a function of the set of (key, value) pairs it contains: any two histories of batches, commits and restarts that lead to
 the same content give the same root, and an empty tree has no root.""",
 ["histories", "inputs"], "every history within the bounds of T02, compared with a tree built from its content in one batch",
 "Tests compare a few fixed insertion orders; canonicity has to survive deletions that move leaves up and insertions that push them down, at any level.",
 MAPF,
 [("moving shortcuts up and down", "pkg/mapserver/trie/trie.go maybeMoveUpShortcut, moveUpShortcut, maybeAddShortcutToKV")],
 observe=["Trie.Root"],
 harnesses=[
  h("VxCanonical", TR, "trie/history.go", "2 keys, 2 batches, keys differ in the upper 5 bits", {"params": {"keys": 2, "steps": 2}}, {"params": {"keys": 3, "steps": 2}, "sec": 900}),
 ],
 assumptions=["an ideal hash, as in T02"], outside=["as in T02"],
)
