IJ = "./cmd/ingest/journal"
II = "./cmd/ingest"
IF = ["ingest/split.go", "ingest/chain.go", "ingest/join.go"]
prop("I01", "An interrupted ingest resumes with exactly the files that were not completed",
 """After any crash, failure or interruption, at any operation, the next run of ingest can read its journal and ingests exactly the files whose batches were not completed:
 no file is skipped that was not ingested, none is repeated that was, and a successful run has ingested all files of its directory. Completed indices are exactly the union
 of the completed files, phases are recorded only once they were done, and a CT log size is recorded only if all entries below it were ingested.""",
 ["inputs", "crash_points", "fault_sequences", "histories"], "every set of index ranges (64-bit values), every point where the process may end or an operation may fail, and every sequence of strategies, batch sizes and interruptions within the bounds",
 "The tests use a handful of ranges and failing batches; no test ends the process within a write, or mixes strategies over several failing runs.",
 ["cmd/ingest/run.go", "cmd/ingest/journal/journal.go", "cmd/ingest/journal/list_files.go", "pkg/util/csv_files.go"],
 [("runs", "cmd/ingest/run.go runIngest, ingestFilesInBatches, completedCTLogSize"), ("journal", "cmd/ingest/journal/journal.go CommitProgress, PendingFiles, writeLocked, appendInterval, containsCompletedInterval"), ("files", "cmd/ingest/journal/list_files.go ListCsvFiles")],
 state=[("journal", "the completed index ranges, phases and recorded CT log size of the last job", "cmd/ingest/journal/journal.go Journal")], observe=["Journal.PendingFiles", "runIngest", "RecordCTSize"],
 harnesses=[
  h("VxIntervals", IJ, ["ingest/journal.go"], "2 (thorough 3) index ranges of 64-bit values, in any order, and any file and index to look up", {"params": {"intervals": 2}}, {"params": {"intervals": 3}, "sec": 900}),
  h("VxJournal", IJ, ["ingest/journal.go"], "2 runs (thorough 3) of two commits each, with one (thorough two) crash or failure at any of the first 40 operations on files", {"params": {"ops": 40}}, {"params": {"faults": 2, "runs": 3, "ops": 40}, "sec": 900}),
  h("VxList", IJ, ["ingest/list.go"], "directories with up to two subdirectories, each with or without bundles (up to 2) and plain files; depth 1 (thorough 2)", {"params": {}}, {"params": {"depth": 2}, "sec": 900}),
  h("VxRun", II, ["ingest/run.go"], "2 (thorough 3) runs of any strategy on 2 or 3 files with any batch size, a failure at any of 8 (thorough 5) steps and an interruption before any batch", {"params": {}}, {"params": {"runs": 3, "calls": 5}, "sec": 900}),
 ],
 assumptions=["an operation on a file ends completely, fails, or, for writes, may be done by half; a file that was renamed stays so (the journal does not sync the directory, by design)"],
 outside=["indices of 2^63-1 and above", "two processes that use one journal", "the database, which is a stand-in here (U01 to U04 are about it)"],
)
prop("I02", "Every certificate in the CSV files is ingested with its chain, or ingest fails",
 """Every row of every file yields its certificate with its names, expiration and parent, and all certificates of its chain up to one that was passed on before, to the batcher
 and the extractor of exactly one database worker; only certificates that are expired are left out. A file that cannot be opened, read to its end, parsed or closed, or a
 failure of the database, makes the run fail with that error, in every schedule and without blocking.""",
 ["inputs", "schedules", "fault_sequences"], "every row of bytes within the bounds, every combination of chains that share certificates, every failing file, row and database worker, and every schedule with the bounded number of deviations from a deterministic one",
 "The tests parse a few well-formed files, whose chains do not overlap in the ways that matter, and count what comes out.",
 ["cmd/ingest/csvSplitWorker.go", "cmd/ingest/fastcsv/fastcsv.go", "cmd/ingest/toChainWorker.go", "cmd/ingest/chainToCertWorker.go", "cmd/ingest/processor.go", "pkg/mapserver/updater/types.go", "pkg/util/certificate.go", "pkg/cache/lru_cache.go"],
 [("files", "cmd/ingest/csvSplitWorker.go startReadingLines"), ("rows", "cmd/ingest/fastcsv/fastcsv.go ParseLine"), ("chains", "cmd/ingest/toChainWorker.go parseLine"), ("chains", "pkg/util/certificate.go UnfoldCert"), ("join", "cmd/ingest/processor.go getNewLinkFunction")],
 observe=["the certificates and lines that stages pass on", "Processor.Wait"],
 harnesses=[
  h("VxRow", "./cmd/ingest/fastcsv", ["ingest/row.go"], "rows of up to 8 (thorough 10) arbitrary bytes, all three line endings", {"params": {"length": 8}}, {"params": {"length": 10}, "sec": 900}),
  h("VxColumns", "./cmd/ingest/fastcsv", ["ingest/row.go"], "rows with up to 12 columns, any of them in quotes, with or without a comma between them; one arbitrary byte per column", {"params": {}}, {"params": {"columns": 20}}),
  h("VxSplit", II, IF, "2 files of up to 2 rows, one of them missing or failing in any way; thorough: 1 file, 1 deviation", {"params": {}}, {"params": {"delays": 1, "files": 1}, "sec": 900}),
  h("VxChain", II, IF, "3 rows with chains of 1 or 2 of 3 (thorough 4) ancestors, one of which also has its own row", {"params": {"mix": 0, "rows": 3}}, {"params": {"mix": 0, "rows": 3, "ancestors": 4}, "sec": 900}),
  h("VxChain", II, IF, "2 rows with chains of 1 or 2 of 3 ancestors, also expired and broken ones", {"params": {"mix": 1, "rows": 2}}, {"params": {"mix": 1, "rows": 2, "ancestors": 4}, "sec": 900}),
  h("VxJoin", II, IF, "2 rows, 2 database workers, a broken row or a failure at the first two calls of any of the workers; thorough: 1 deviation", {"params": {"certs": 2, "chains": 2}}, {"params": {"delays": 1}, "sec": 900}),
 ],
 assumptions=["parsing a certificate is a stand-in under the engine (ParseCertificate of the library); native replays use real certificates"],
 outside=["rows that span several lines", "more than one worker with its own cache of ancestors, which only repeats certificates", "decompression"],
)
