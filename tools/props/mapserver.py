MS = "./pkg/mapserver"
prop("M01", "Every update cycle leaves the server proving exactly the content of the logs",
 """When an update cycle of the map server reports success, every certificate published in the logs before it (and not expired) is stored, and for each domain the
 server answers with a verifiable and signed proof of exactly the certificates stored for the domain, including their ancestors; pruned certificates are no longer
 proven. If an operation of the cycle fails, the cycle reports the failure, the server keeps accepting update requests, and the next cycle completes the work.""",
 ["histories", "fault_sequences"], "every history within the bounds: logs of up to `entries` certificates with any choice of names and expirations, one or two cycles before, any position of a failing database operation, then further cycles",
 "Tests run cycles without failures; a domain left without update after a failure in the middle of a cycle, or a server that stops answering, needs the failure at a particular operation.",
 ["pkg/mapserver/mapserver.go", "pkg/mapserver/updater/updater.go", "pkg/mapserver/responder/responder.go", "pkg/mapserver/trie/trie.go"],
 [("update cycle", "pkg/mapserver/mapserver.go pruneAndUpdate, update"), ("batches", "pkg/mapserver/updater/updater.go UpdateNextBatch"), ("reload", "pkg/mapserver/responder/responder.go ReloadRootAndSignTreeHead")],
 observe=["MapServer.PruneAndUpdate", "MapResponder.GetProof"],
 harnesses=[h("VxCycle", MS, ["updater/store.go", "mapserver/cycle.go"], "1 log of 2 (thorough 3) certificates with a common root certificate, 2 domains", {"params": {"entries": 2, "ops": 34}}, {"params": {"entries": 3, "ops": 44, "expirable": 2}, "sec": 900},
   patch=["pkg/mapserver/mapserver.go|mysql.Connect(|vxConnect(mysql.Connect)(", "pkg/mapserver/mapserver.go|updater.NewMapUpdater(|vxNewUpdater(updater.NewMapUpdater)("])],
 assumptions=["an ideal hash, as in T02", "ideal signatures under the engine; replays use RSA", "the stored procedures of the database (coalescing, pruning) do what their comments say; each database operation is atomic"],
 outside=["fetching over the network", "the stored procedures"],
)
