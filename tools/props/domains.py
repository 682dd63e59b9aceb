
DO = "./pkg/domain"
prop("N01", "Domain names are validated and related to their parents correctly",
 """Exactly the well-formed domain names (labels of letters, digits and inner hyphens, at most a wildcard as first label, within the length limits) that are not public
 suffixes are accepted. The names the map is asked for are the domain and all its parents up to the one below the public suffix, never the suffix itself, and the
 affected domains of a list of names cover each valid name of it by itself or a parent with the same registered domain.""",
 ["inputs"], "every name of the listed forms: arbitrary bytes followed by one of several suffixes, long labels and names, wildcards and www",
 "Tests check some dozen names.",
 ["pkg/domain/domain.go"],
 [("validity", "pkg/domain/domain.go IsValidDomain"), ("parents", "pkg/domain/domain.go ParseDomainName, SplitE2LD"), ("affected domains", "pkg/domain/domain.go ExtractAffectedDomains, findLongestSuffix")],
 observe=["domain.IsValidDomain", "domain.ParseDomainName", "domain.ExtractAffectedDomains"],
 harnesses=[
  h("VxValid", DO, ["domain/domain.go"], "1 (thorough 2) arbitrary bytes, 5 continuations", {"params": {"length": 1}}, {"params": {"length": 2}, "sec": 600}),
  h("VxParse", DO, ["domain/domain.go"], "up to 2 (thorough 4) labels before 6 suffixes, wildcards", {"params": {"labels": 2}}, {"params": {"labels": 4}, "sec": 900}),
  h("VxAffected", DO, ["domain/domain.go"], "5 (thorough 6) names of 3 registered domains", {"params": {"names": 5}}, {"params": {"names": 6}, "sec": 900}),
 ],
 assumptions=["the public suffix list is the one that is compiled in"],
)

prop("N02", "A certificate is found under each name it is valid for",
 """For every certificate and every host name that it is valid for (in its subject or alternative names, through a wildcard, and in whatever case), the certificate is
 stored under one of the names for which the map responder looks when it is asked for that host.""",
 ["inputs"], "every certificate with one name of interest of the listed forms, in any of three fields, and each host it covers",
 "Tests only ask for names that are written exactly as in the certificate.",
 ["pkg/util/domain.go", "pkg/domain/domain.go", "pkg/mapserver/responder/responder.go"],
 [("names of a certificate", "pkg/util ExtractCertDomains"), ("names that are asked for", "pkg/domain/domain.go ParseDomainName")],
 observe=["util.ExtractCertDomains", "domain.ParseDomainName"],
 harnesses=[h("VxLookup", "./pkg/mapserver/responder", ["responder/lookup.go"], "up to 2 (thorough 3) labels before 5 suffixes", {"params": {"labels": 2}}, {"params": {"labels": 3}, "sec": 600})],
)
