CR = "./pkg/common/crypto"
CF = ["crypto/docs.go", "crypto/keys.go", "crypto/sign.go"]
RSA = "ideal signatures and key pairs: a signature is accepted only for the signed digest and the key pair that made it (replays use RSA)"
SHA = "an ideal hash (no collisions)"
prop("C01", "Signatures of owners and issuers cover the documents and are accepted only then",
 """A request signed by its owner and the policy certificate made from it by the issuer carry signatures that the verification accepts at every later stage of the
 certificate's life (timestamps added, signed again, exchanged as bytes), and signing or verifying changes nothing else in any of the documents, even when it fails.
 Once any part of the content that a signature covers, the signer certificate, or the key differs, the signature is rejected. A certificate that is not allowed to
 own cannot sign as owner.""",
 ["inputs"], "every request with any choice of optional parts, symbolic content bytes, every single change of one part, each other signer",
 "Tests verify one fixed certificate and do not change its parts; a field left out of the signed bytes, or a signature not restored after a failure, is not visible to them.",
 ["pkg/common/crypto/crypto.go", "pkg/common/policies.go", "pkg/common/json.go"],
 [("owner signature", "pkg/common/crypto/crypto.go SignAsOwner, VerifyOwnerSignature, VerifyOwnerSignatureInPolicyCertificate"), ("issuer signature", "pkg/common/crypto/crypto.go SignRequestAsIssuer, SignPolicyCertificateAsIssuer, VerifyIssuerSignature")],
 observe=["SignAsOwner", "SignRequestAsIssuer", "VerifyOwnerSignature", "VerifyIssuerSignature"],
 harnesses=[
  h("VxSign", CR, CF, "one request of every shape (with and without owner, timestamps, lists), 1 symbolic byte per content field", {}, {"params": {"few": 0}, "sec": 900}),
  h("VxForge", CR, CF, "one signed certificate, one change of any part, of the signer or of the key", {}, {"params": {"few": 0}, "sec": 900}),
  h("VxUnserializable", CR, CF, "one part whose serialization fails, in each stage"),
 ],
 assumptions=[RSA, SHA, "encoding/json is executed as it is, on a model of package reflect"],
 outside=["documents with several changed parts", "strength of RSA and SHA-256"],
)
prop("C02", "A certificate is accepted only within the validity and the domain of its issuer",
 """The verification of the constraints accepts a certificate if and only if its validity lies within the validity of its issuer certificate, and its domain is the
 issuer's domain or a name below it made of non-empty labels; an issuer without domain does not constrain the domain.""",
 ["inputs"], "every validity (symbolic instants) and every pair of domain names within the bounds over the letters of labels and dots",
 "Tests check one valid and a few invalid examples; a name that only ends like the domain, or has empty labels, or instants that are equal, need specific inputs.",
 ["pkg/common/crypto/crypto.go"],
 [("constraints", "pkg/common/crypto/crypto.go VerifyIssuerConstraints")], observe=["VerifyIssuerConstraints"],
 harnesses=[h("VxConstraints", CR, CF, "issuer domain a label with or without parent, child domain: up to 2 (thorough 3) symbolic characters before it or any unrelated name; symbolic instants", {"params": {"letters": 2}}, {"params": {"letters": 3}, "sec": 600})],
 assumptions=["package regexp is executed as it is"],
 outside=["longer names"],
)
prop("C03", "Timestamps of policy logs sign certificate, log and time",
 """The timestamp that a policy log returns for a certificate carries the log's identity, the time, and a signature that is accepted for exactly this certificate, log
 and time and no other, and producing it leaves the certificate as it was.""",
 ["inputs"], "every certificate of the listed shapes with symbolic content, log identifiers and instants",
 "Tests do not check what the signature of a timestamp covers.",
 ["pkg/common/crypto/crypto.go", "pkg/common/embedded_policies.go", "pkg/common/policies.go"],
 [("timestamp", "pkg/common/crypto/crypto.go SignPolicyCertificateTimestamp")], observe=["SignPolicyCertificateTimestamp"],
 harnesses=[h("VxTimestamp", CR, CF, "one certificate, one change of certificate, log, version or time")],
 assumptions=[RSA, SHA, "encoding/json is executed as it is, on a model of package reflect"],
)
prop("J01", "Documents survive serialization and are equal only when every part is",
 """Every document of the system (policy certificates and their parts, requests, revocations and timestamps) deserializes from its serialization as a document of
 the same kind that is equal to the original, serializes to the same bytes again, and returns exactly the bytes it came from as its raw form, also inside lists. Two
 documents that differ in any one part are not equal and have different serializations. Deserializing arbitrary bytes returns a document or an error.""",
 ["inputs"], "every kind of document, any one part changed or absent, symbolic content bytes; parsed text with symbolic bytes inside of documents of each kind",
 "Tests compare a handful of random documents; a part forgotten in the comparison or the serialization shows only for documents that differ in nothing else.",
 ["pkg/common/json.go", "pkg/common/policies.go", "pkg/common/embedded_policies.go", "pkg/common/policy_issuance.go"],
 [("serialization", "pkg/common/json.go ToJSON, FromJSON"), ("equality", "pkg/common/policies.go, embedded_policies.go Equal methods")], observe=["common.ToJSON", "common.FromJSON", "Equal"],
 harnesses=[
  h("VxDocument", CR, CF, "9 kinds of documents, one changed part, optional lists of up to 2 elements"),
  h("VxParse", CR, CF, "text of a document with 1 (thorough 3) symbolic bytes", {"params": {"bytes": 1}}, {"params": {"bytes": 3}, "sec": 900}),
 ],
 assumptions=["encoding/json is executed as it is, on a model of package reflect"],
 outside=["documents with several changed parts", "instants before year 1 or with time zones not expressible in minutes"],
)
prop("E01", "Policy attributes decide about subdomains as documented",
 """Valid attributes of a domain name no certification authority and no subdomain twice. For every other domain they say whether it is below the domain at all, and
 if it is, allowed, disallowed and excluded subdomains are reported as such, a wildcard decides for the subdomains not listed, and without any entry the subdomain
 is allowed.""",
 ["inputs"], "every assignment of symbolic labels and wildcards to the three lists and every queried name within the bounds",
 "Tests sample a table of cases; overlaps of names, wildcards and lists are combinations of inputs.",
 ["pkg/common/policies.go"],
 [("decision", "pkg/common/policies.go PolicyAttributes.CheckDomainValidity"), ("validation", "pkg/common/policies.go PolicyAttributes.ValidateAttributes")],
 observe=["PolicyAttributes.CheckDomainValidity", "PolicyAttributes.ValidateAttributes"],
 harnesses=[
  h("VxAttributes", CR, ["crypto/attributes.go"], "1 (thorough 2) symbolic labels or wildcard per list, queried name with up to 2 labels", {"params": {"labels": 1}}, {"params": {"labels": 2}, "sec": 600}),
  h("VxValidate", CR, ["crypto/attributes.go"], "up to 2 (thorough 3) entries per list", {"params": {"validate": 2}}, {"params": {"validate": 3}, "sec": 600}),
 ],
)
PCA = ["crypto/docs.go", "crypto/keys.go", "pca/pca.go"]
prop("P01", "The PCA issues exactly what was requested and logged, and nothing forged",
 """A granted certificate has the requested content, the signatures of the owner and of the PCA, and the timestamps of every configured log server; every log server
 has the certificate, and it is stored. A request whose owner is known to the PCA but whose owner signature is not valid is rejected without traces, and when a log
 server fails the request fails and is not stored.""",
 ["inputs", "histories", "fault_sequences"], "every sequence of two requests, the second signed with the certificate of the first, with any one change of the signed content, any number of log servers within the bounds and failure of any of their operations",
 "Tests issue one certificate with one working log server; a forged owner signature needs a request that names a certificate issued before.",
 ["pkg/pca/pca.go", "pkg/common/crypto/crypto.go"],
 [("issuance", "pkg/pca/pca.go SignAndLogRequest"), ("requests", "pkg/pca/pca.go NewPolicyCertificateSigningRequest")],
 observe=["PCA.SignAndLogRequest"],
 harnesses=[
  h("VxIssue", "./pkg/pca", PCA, "2 requests, up to 2 log servers, failure of any operation of a log server", {}, {"params": {"few": 0}, "sec": 900}),
  h("VxRequest", "./pkg/pca", PCA, "2 requests made by the PCA, symbolic validity"),
 ],
 assumptions=[RSA, SHA],
 outside=["the network towards the log servers", "revocation, which is not implemented"],
)
prop("L01", "Log proofs are accepted exactly for the entries and the growth of the log",
 """The log verifier accepts an entry if at least one of the proofs it is given proves it in the trusted log root, and never accepts an entry that is not in the log.
 A new log root is accepted when it extends the trusted one, and never when an entry was rewritten or removed.""",
 ["inputs"], "every log within the bounds with symbolic entries, every position, any second proof; every list of hashes out of the tree's nodes or arbitrary ones as forged proof",
 "Tests verify a few recorded proofs; forged paths and indexes are inputs they do not try.",
 ["pkg/logverifier/verifier.go"],
 [("inclusion", "pkg/logverifier/verifier.go VerifyInclusionByHash"), ("consistency", "pkg/logverifier/verifier.go VerifyRoot")],
 observe=["LogVerifier.VerifyInclusionByHash", "LogVerifier.VerifyInclusionWithPrevLogRoot", "LogVerifier.VerifyRoot"],
 harnesses=[
  h("VxInclusion", "./pkg/logverifier", ["logverifier/verify.go"], "logs of up to 5 (thorough 9) entries, 1 other proof", {"params": {"size": 5}}, {"params": {"size": 9}, "sec": 600}),
  h("VxNotIncluded", "./pkg/logverifier", ["logverifier/verify.go"], "logs of up to 4 (thorough 6) entries, paths of up to 3 (thorough 4) hashes out of 4 (5) tree nodes and arbitrary ones", {"params": {"size": 4, "path": 3, "nodes": 4}}, {"params": {"size": 6, "path": 4, "nodes": 5}, "sec": 900}),
  h("VxAppendOnly", "./pkg/logverifier", ["logverifier/verify.go"], "logs of up to 4 (thorough 8) entries growing by up to 2", {"params": {"size": 4}}, {"params": {"size": 8}, "sec": 600}),
 ],
 assumptions=[SHA, "the trusted root is the root of a log"],
)
