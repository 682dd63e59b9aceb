LF = "./pkg/mapserver/logfetcher"
LFP = ["pkg/mapserver/logfetcher/locallogfetcher.go|NumFileReaders = 8|NumFileReaders = 2", "pkg/mapserver/logfetcher/locallogfetcher.go|NumParsers     = 64|NumParsers = 2"]
prop("F01", "Log fetchers deliver exactly the requested entries, once, or report a failure",
 """A log fetcher delivers every entry of the requested range exactly once, each with its own chain (from a CT server: in order), in batches within the configured
 size, whatever number of entries the server returns at once; from local files, the expired entries are counted instead of delivered, and the range ends with the last
 consecutive file within the limit. If the server fails, sends no entry or too many, or an entry is unreadable, the failure is reported and the fetcher does not panic.
 A fetcher that is started again, at any point of an unfinished run, delivers exactly the newly requested range.""",
 ["inputs", "schedules", "fault_sequences"], "every range and batch sizes within the bounds, every size of each answer, one failing answer or unreadable entry anywhere; all layouts of files within the bounds; every schedule of the routines of two runs with the bounded number of preemptions or deviations",
 "Tests need the network, or one folder of files; a server that answers with fewer or more entries than asked, and the leftovers of an abandoned run, only show in specific schedules.",
 ["pkg/mapserver/logfetcher/httplogfetcher.go", "pkg/mapserver/logfetcher/locallogfetcher.go"],
 [("download", "pkg/mapserver/logfetcher/httplogfetcher.go fetch, getRawEntriesInBatches, getRawEntries"), ("local files", "pkg/mapserver/logfetcher/locallogfetcher.go GetCurrentState, StartFetching, ingestWithCSV, processIncomingFiles")],
 observe=["NextBatch", "ReturnNextBatch"],
 harnesses=[
  h("VxHttp", LF, ["logfetcher/http.go"], "up to 5 entries, server batches of 1 to 3, result batches of 1 to 4 entries, one failure and one special entry", {}, {"params": {"entries": 7, "process": 5}, "sec": 900}),
  h("VxRestart", LF, ["logfetcher/http.go"], "a run over up to 4 entries abandoned at any point, then a second run; 1 (thorough 2) preemptions", {}, {"params": {"preemptions": 2, "entries": 4}, "sec": 900}),
  h("VxLocal", LF, ["logfetcher/http.go", "logfetcher/local.go"], "up to 3 files of 1 or 2 entries, one of which is expired, every limit and start", {}, {"params": {"files": 4, "batch": 2}, "sec": 900}, patch=LFP),
  h("VxLocalRestart", LF, ["logfetcher/http.go", "logfetcher/local.go"], "2 files of one entry, a run abandoned at any point, then a second one; 1 (thorough 2) deviations from a deterministic schedule of the routines", {"params": {"delays": 1}}, {"params": {"delays": 2}, "sec": 900}, patch=LFP),
 ],
 assumptions=["the client of the CT log and the parsers of log entries and certificates are stand-ins under the engine; replays use the real ones over a fake transport, and real files",
  "the local fetcher runs with 2 readers and 2 parsers instead of 8 and 64"],
 outside=["the local fetcher prints unreadable files or rows instead of reporting them"],
)
