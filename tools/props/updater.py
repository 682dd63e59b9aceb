UP = "./pkg/mapserver/updater"
prop("U01", "Map updates store exactly the new certificates and policies of a batch",
 """After a batch of certificates and policies is processed, every element of the batch is stored under its own identifier with its own payload, parent and
 expiration, and every domain name of a new certificate or policy is stored, associated with it and marked for the next map update. Nothing is associated
 that was not in the batch, elements that were already stored are left as they are.""",
 ["inputs", "histories"], "every batch within the bounds, with repeated elements and any subset already stored",
 "Tests insert batches of all-new distinct certificates; the interesting cases are mixes of new and known elements, where parallel slices must stay aligned.",
 ["pkg/mapserver/updater/updater.go", "pkg/util/certificate.go"],
 [("batch insertion", "pkg/mapserver/updater/updater.go UpdateWithKeepExisting"), ("expansion of chains", "pkg/util/certificate.go UnfoldCerts")],
 observe=["UpdateWithKeepExisting", "MapUpdater.UpdateCertsLocally"],
 harnesses=[
  h("VxKeepExisting", UP, ["updater/store.go", "updater/certs.go"], "2 certificates (quick), 1 policy, 1 element stored before; identifiers arbitrary", {"params": {"certs": 2, "policies": 1, "old": 1}}, {"params": {"certs": 3, "policies": 1, "old": 1}, "sec": 900}),
  h("VxLocal", UP, ["updater/store.go", "updater/certs.go", "updater/local.go"], "2 certificates with chains of up to 1 (thorough 2) ancestors, of 3 possible certificates each", {"params": {"certs": 2, "depth": 1}}, {"params": {"certs": 2, "depth": 2}, "sec": 900}),
 ],
 assumptions=["x509 parsing is replaced by a stand-in with the same fields under the engine; replays use real certificates"],
)
prop("U02", "An interrupted batch is completed when it is retried",
 """If any database operation fails while a batch of certificates and policies is processed, the failure is reported, and processing the same batch again
 leaves the database as if no failure had happened: no certificate or policy remains without its domains.""",
 ["fault_sequences", "inputs"], "every batch within the bounds and every position of one failing database operation",
 "Tests never make a database operation fail in the middle of a batch.",
 ["pkg/mapserver/updater/updater.go"],
 [("order of the insertions", "pkg/mapserver/updater/updater.go insertCerts, insertPolicies")],
 harnesses=[h("VxRetry", UP, ["updater/store.go", "updater/certs.go"], "1 certificate, 1 policy", {"params": {"certs": 1, "policies": 1}}, {"params": {"certs": 2, "policies": 1}, "sec": 600})],
)

prop("U03", "Update cycles fetch every log completely and record only what is stored",
 """An update cycle fetches each configured log from the position recorded for it up to the end of the log at that time. The position of a log is recorded
 only after every certificate before it is stored, whatever batch sizes, exclusions, fetch failures or database failures occur, and every failure is reported.""",
 ["histories", "fault_sequences"], "every split of up to `entries` new entries per log in batches, any number excluded, a failure of any batch or of one database operation",
 "Tests fetch a few fixed local files without failures.",
 ["pkg/mapserver/updater/updater.go"],
 [("batch loop", "pkg/mapserver/updater/updater.go NextBatch, UpdateNextBatch")],
 harnesses=[h("VxFetch", UP, ["updater/store.go", "updater/certs.go", "updater/local.go"], "2 logs, up to 2 new entries each", {"params": {"fetchers": 2, "entries": 2}}, {"params": {"fetchers": 2, "entries": 3, "ops": 16}, "sec": 900})],
 assumptions=["as in U01; the fetcher follows its interface (NextBatch reports whether entries are left)"],
)

prop("U04", "A map update leaves a root of exactly the stored domains, even if interrupted",
 """After a map update the saved root represents, for every domain, exactly the payload that is stored for it (absent if it has none), however the dirty
 domains are split in bundles. If any database operation fails during the update, the failure is reported, the saved root stays readable, every domain has its
 old or its new value in it, and the next update completes the interrupted one.""",
 ["histories", "fault_sequences"], "every history of two updates over the domains within the bounds (payloads set, changed, emptied), every split in bundles, every position of one failing database operation",
 "Tests never interrupt an update: nodes that the saved root still needs may already be deleted, which only shows after a restart.",
 ["pkg/mapserver/updater/updater.go", "pkg/mapserver/trie/trie_cache.go"],
 [("update of the tree from the dirty domains", "pkg/mapserver/updater/updater.go UpdateSMT"), ("write and removal of nodes", "pkg/mapserver/trie/trie_cache.go commitChangesToDB")],
 state=[("saved root", "the root that the responder loads and signs", "pkg/mapserver/updater/updater.go UpdateSMT")],
 observe=["UpdateSMT"],
 harnesses=[
  h("VxSMT", UP, ["updater/store.go", "updater/smt.go"], "2 domains, 2 updates", {"params": {"domains": 2, "steps": 2, "empty": 1}}, {"params": {"domains": 3, "steps": 2, "empty": 1}, "sec": 900}),
  h("VxSMTCrash", UP, ["updater/store.go", "updater/smt.go"], "2 domains, 2 updates, the second with a failing operation", {"params": {"domains": 2, "ops": 10, "empty": 1}}, {"params": {"domains": 3, "ops": 14, "empty": 1}, "sec": 900}),
 ],
 assumptions=["an ideal hash, as in T02", "each database operation is atomic: it happens or fails"],
)

prop("U05", "The database writers store every certificate with its domains",
 """Whatever number of writers, batch size and mix of new and repeated certificates and domains, every certificate given to the manager of the writers is stored
 with its own payload, parent and expiration, every domain name of it is stored as it is, associated with the certificate and marked for the next map update.
 No file that is still in use is overwritten, no temporary file is left, and the failure of any insertion is reported without blocking the caller.""",
 ["inputs", "schedules", "fault_sequences"], "every batch of certificates within the bounds, every name of up to `length` bytes, every position of one failing insertion; schedules with up to `delays` preemptions",
 "Tests use a few fixed names and numbers of writers that are powers of two, count rows and never make an insertion fail.",
 ["pkg/mapserver/updater/manager.go", "pkg/mapserver/updater/certsWorker.go", "pkg/mapserver/updater/domainWorker.go", "pkg/mapserver/updater/csv.go"],
 [("assignment to writers", "pkg/mapserver/updater/manager.go NewManager"), ("CSV files for LOAD DATA", "pkg/mapserver/updater/csv.go")],
 observe=["CreateCsvCerts", "CreateCsvDomains"],
 harnesses=[
  h("VxManager", UP, ["updater/manager.go"], "up to 3 writers, batches of 1-2, two runs of 1 certificate with up to 2 names each", {"params": {"workers": 3, "batch": 2, "ops": 0, "runs": 2, "certs": 1}}, {"params": {"workers": 3, "batch": 2, "ops": 0, "runs": 2, "certs": 2}, "sec": 900}),
  h("VxManager", UP, ["updater/manager.go"], "up to 2 writers, 2 certificates, one failing insertion", {"params": {"workers": 2, "batch": 2, "ops": 6, "runs": 1, "certs": 2}}, {"params": {"workers": 2, "batch": 2, "ops": 8, "runs": 1, "certs": 3}, "sec": 900}),
  h("VxCsv", UP, ["updater/manager.go"], "names of up to 3 (thorough 4) arbitrary bytes", {"params": {"length": 3}}, {"params": {"length": 4}, "sec": 900}),
 ],
 assumptions=["LOAD DATA is a stand-in that reads rows with the options of the statements (FIELDS TERMINATED BY ',' ENCLOSED BY '\"', backslash escapes); counterexamples are re-run by the engine"],
)
