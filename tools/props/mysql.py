
DB = "./pkg/db/mysql"
FS = ["mysql/sql.go", "mysql/driver.go"]
SQLA = ["MySQL is an interpreter of the SQL that the package sends (tables and keys of tools/create_schema.sh, NULLs, joins, LIMIT, LOAD DATA with its escapes, GROUP_CONCAT with its default limit, no order without ORDER BY, statements without elements in IN () are errors); under the engine database/sql is replaced by stand-ins on it, natively it is a driver of the real database/sql",
        "the stored procedures (in tools/create_schema.sh) are stand-ins for their documented effect"]
prop("D01", "Database reads return exactly what is stored, or an error",
 """Whatever identifiers are requested (none, repeated, unknown, in any number and order), the presence, payloads and entries that the database layer returns are
 those of the requested identifiers, in their order, whatever order the rows arrive in. If the statement or the connection fails, also in the middle of the
 rows, an error is returned and never a part of the result; no connection is leaked.""",
 ["inputs", "fault_sequences"], "every set of stored rows and request within the bounds, either order of the rows, a failure of the statement or after any number of rows",
 "Tests never break a connection while rows are read, and the sizes at which requests are split in several statements are not tested.",
 ["pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go", "pkg/db/mysql/common.go", "pkg/db/mysql/mysql.go"],
 [("presence", "pkg/db/mysql/certs.go CheckCertsExist, policies.go CheckPoliciesExist"), ("payloads", "pkg/db/mysql/certs.go RetrieveCertificatePayloads, policies.go RetrievePolicyPayloads, common.go RetrieveCertificateOrPolicyPayloads"), ("entries", "pkg/db/mysql/mysql.go RetrieveDomainEntries")],
 observe=["mysqlDB.RetrieveCertificateOrPolicyPayloads", "mysqlDB.CheckCertsExist", "mysqlDB.RetrieveDomainEntries"],
 harnesses=[
  h("VxPayloads", DB, FS + ["mysql/reads.go"], "2 certificates and 1 policy stored, requests of up to 2 (thorough 3) identifiers", {"params": {"rows": 2, "policies": 1, "requested": 2}}, {"params": {"rows": 2, "policies": 2, "requested": 3}, "sec": 600}),
  h("VxExist", DB, FS + ["mysql/reads.go"], "requests of 0-3 identifiers, any of them stored; requests of 1000 and 1001 (thorough 999-2001) with one stored at 3 (7) positions", {"params": {"counts": 6, "positions": 3}}, {"params": {"counts": 10, "positions": 7}, "sec": 900}),
  h("VxEntries", DB, FS + ["mysql/reads.go"], "1 domain with up to 2 certificates and 1 policy, arbitrary identifiers, requests of up to 2", {"params": {"domains": 1, "certs": 2, "policies": 1, "requested": 2}}, {"params": {"domains": 1, "certs": 3, "policies": 1, "requested": 2}, "sec": 600}),
  h("VxEntries", DB, FS + ["mysql/reads.go"], "2 domains with up to 1 certificate (thorough 2 and 1 policy)", {"params": {"domains": 2, "certs": 1, "policies": 0, "requested": 2}}, {"params": {"domains": 2, "certs": 2, "policies": 1, "requested": 2}, "sec": 900}),
 ],
 assumptions=SQLA,
)
prop("D02", "Every dirty domain is processed exactly once",
 """Walking over the dirty domains in bundles or ranges of any size delivers each of them exactly once with its current payload (also those without one), whatever
 partitions they are in, and also if a statement fails in between and the walk is continued with the returned cursor. The counts of dirty domains are right,
 all of them are coalesced by a recomputation, and the failure of any partition is reported.""",
 ["inputs", "fault_sequences", "histories"], "every placement of up to `domains` dirty domains in 4 partition classes (first twice, second, last), with or without payload, every bundle size up to `size`, failures at the statements of the first, second and last partition",
 "Tests walk once over a few domains, with no failures.",
 ["pkg/db/mysql/mysql.go", "pkg/db/mysql/dirty.go"],
 [("cursor over the partitions", "pkg/db/mysql/mysql.go RetrieveDomainEntriesDirtyBundle"), ("counts and coalescing", "pkg/db/mysql/dirty.go DirtyCount, RecomputeDirtyDomainsCertAndPolicyIDs")],
 observe=["mysqlDB.RetrieveDomainEntriesDirtyBundle"],
 harnesses=[
  h("VxBundles", DB, FS + ["mysql/reads.go", "mysql/dirty.go"], "1 dirty domain, bundles of 1-2, failures of the 1st, 2nd, 32nd-34th statement of a table", {"params": {"domains": 1, "size": 2}}, {"params": {"domains": 3, "size": 3}, "sec": 900}),
  h("VxBundles", DB, FS + ["mysql/reads.go", "mysql/dirty.go"], "2 dirty domains (thorough 3) in 3 (4) partition classes, bundles of 1-2 (thorough 3, and any order of two statements), failures of the 1st or 2nd statement", {"params": {"domains": 2, "size": 2, "statements": 2, "partitions": 3}}, {"params": {"domains": 2, "size": 2, "statements": 2, "delays": 1}, "sec": 900}),
  h("VxRanges", DB, FS + ["mysql/reads.go", "mysql/dirty.go"], "2 (thorough 3) dirty domains in 2 (4) partition classes, ranges of 1-3", {"params": {"domains": 2, "partitions": 2}}, {"params": {"domains": 3}, "sec": 900}),
 ],
 assumptions=SQLA,
)
prop("D03", "Database writes store exactly their arguments",
 """What is written is read as it was: certificates, policies, associations, domain names with any characters, dirty marks, the root, nodes of the tree and positions
 of the logs keep their identifiers, parents, expirations (as instants, in whatever time zone) and payloads. Rows that were stored before are not lost or changed,
 the last write of a key wins, nothing else is stored, removed certificates are exactly the expired ones, truncation leaves no row, no temporary file is left, and every failure is reported.""",
 ["inputs", "histories", "fault_sequences"], "every write of up to `elements` elements, every sequence of `writes` writes to root, tree and log positions, each statement may fail",
 "Tests write in UTC names of letters only, and read what they wrote in the same process without failures.",
 ["pkg/db/mysql/certs.go", "pkg/db/mysql/policies.go", "pkg/db/mysql/mysql.go", "pkg/db/mysql/smt.go", "pkg/db/mysql/dirty.go"],
 [("CSV files", "pkg/db/mysql/mysql.go updateDomainsCSV, writeToCSV"), ("statements", "pkg/db/mysql/policies.go UpdatePolicies, smt.go UpdateTreeNodes")],
 observe=["mysqlDB.UpdateCerts", "mysqlDB.SaveRoot"],
 harnesses=[
  h("VxWrites", DB, FS + ["mysql/reads.go", "mysql/writes.go"], "1 (thorough 2) elements, names with 2 arbitrary bytes, 1 row stored before", {"params": {"elements": 1}}, {"params": {"elements": 2}, "sec": 900}),
  h("VxScalars", DB, FS + ["mysql/reads.go"], "sequences of 2 (thorough 3) writes", {"params": {"writes": 2}}, {"params": {"writes": 3}, "sec": 900}),
  h("VxPrune", DB, FS + ["mysql/reads.go", "mysql/writes.go"], "expirations before, at and after the time of pruning, 3 time zones each"),
  h("VxTruncate", DB, FS + ["mysql/reads.go", "mysql/writes.go"], "1 row per table"),
 ],
 assumptions=SQLA,
)
