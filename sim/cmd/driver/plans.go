package main

var (
	realAll = []string{"all of libopenapi (instrumented copy of /repo's current sources)", "go.yaml.in/yaml/v4", "Go runtime goroutines, channels, mutexes, select, timers (decisions taken by the simulator)", "golang.org/x/sync"}
	stubClk = "wall clock and timers: virtual time that jumps when every goroutine is blocked"
	stubSch = "goroutine scheduling, select choice, map iteration order, lock hand-off: seeded"
	stubDsk = "disk: simulated files behind package os or a custom fs.FS, with latency"
	stubNet = "network: simulated servers behind index.SpecIndexConfiguration.RemoteURLHandler / RemoteFS.SetRemoteHandlerFunc, with latency and faults"
	assume  = []string{"code runs on one OS thread; interleavings are explored at statement granularity, weak-memory effects are not"}
)

var plans = map[string]propPlan{
	"C01": {Plans: []plan{{Scenario: "build-v3", Runs: 4500, Batch: 50}, {Scenario: "build-v3", Race: true, Runs: 400, Batch: 20}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch}, Assume: assume,
		Rule: "Each run generates an OpenAPI 3.0/3.1 document from the seed and builds and renders its model under a seeded schedule."},
	"C02": {Plans: []plan{{Scenario: "pipelines", Runs: 600000, Batch: 200}, {Scenario: "pipelines", Race: true, Runs: 20000, Batch: 500}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, "producers, item work and consumers (seeded delays, failures, cancellation)"}, Assume: assume,
		Rule: "Each run draws a translator, items with delays and failures, buffer sizes and a schedule."},
	"C03": {Plans: []plan{{Scenario: "local-open", Runs: 32000, Batch: 500}, {Scenario: "multi-file", Runs: 44000, Batch: 200}, {Scenario: "multi-file", Race: true, Runs: 3000, Batch: 100}, {Scenario: "local-open", Race: true, Runs: 3000, Batch: 100}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubDsk}, Assume: assume,
		Rule: "Each run generates a document over 2-8 files with markers on every object, and builds and walks it under a seeded schedule and disk latency."},
	"C04": {Plans: []plan{{Scenario: "local-open-faults", Runs: 32000, Batch: 500}, {Scenario: "disk-faults", Runs: 36000, Batch: 200}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubDsk + " and faults"}, Assume: assume,
		Rule: "Each run generates a document over 2-8 files and a fault plan for the disk (absent, unreadable, failing or short reads, failing stat and close, slow files), and builds and walks it under a seeded schedule."},
	"C05": {Plans: []plan{{Scenario: "remote-open", Runs: 80000, Batch: 500}, {Scenario: "remote-docs", Runs: 32000, Batch: 200}, {Scenario: "remote-open", Race: true, Runs: 4000, Batch: 100}, {Scenario: "remote-docs", Race: true, Runs: 3000, Batch: 100}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubNet}, Assume: assume,
		Rule: "Each run draws remote files, a fault plan for the network (refused, timeouts, no response, error statuses, resets in the body, slow bodies) and concurrent openers or a whole document, under a seeded schedule."},
	"C06": {Plans: []plan{{Scenario: "circular", Runs: 16000, Batch: 50}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubDsk}, Assume: assume,
		Rule: "Each run draws a graph of schemas over 1-3 files, builds the document in order and again under a seeded schedule and disk latency, and compares the reported circular references with the graph and with each other."},
	"C07": {Plans: []plan{{Scenario: "readers", Runs: 3000, Batch: 30}, {Scenario: "readers", Race: true, Runs: 400, Batch: 10}, {Scenario: "readers-files", Runs: 3000, Batch: 30}, {Scenario: "readers-files", Race: true, Runs: 1600, Batch: 40}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch}, Assume: assume,
		Rule: "Each run generates a document in one file or spread over files on a simulated disk or network, builds it, and lets 2-5 readers make reads of it at the same time (resolve schemas, render whole or inlined parts, hash, look up references and nodes) under a seeded schedule; each answer is compared with the one given to a single reader. Part of the runs use a build with the race detector."},
	"C08": {Plans: []plan{{Scenario: "what-changed", Runs: 6000, Batch: 40}, {Scenario: "what-changed", Race: true, Runs: 400, Batch: 10}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch}, Assume: assume,
		Rule: "Each run generates a document, makes 0-6 known edits, and compares the two under a seeded schedule, sometimes with another comparison running at the same time, in either direction; the report must be exactly the edits. Part of the runs use a build with the race detector."},
	"C09": {Plans: []plan{{Scenario: "bundle", Runs: 12000, Batch: 100}, {Scenario: "bundle-faults", Runs: 6000, Batch: 100}, {Scenario: "bundle", Race: true, Runs: 1000, Batch: 25}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubDsk + " and faults", stubNet}, Assume: assume,
		Rule: "Each run generates a document over 2-8 files on a simulated disk or network, sometimes with faults, and lets 1-3 bundlings of it (inlined or composed, from bytes or from a built model, with or without origins) run at the same time under a seeded schedule; each bundle is compared with the one made alone on a quiet disk, and walked from its own bytes without any file access."},
	"C10": {Plans: []plan{{Scenario: "isolation", Runs: 3600, Batch: 25}, {Scenario: "isolation", Race: true, Runs: 400, Batch: 10}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, stubDsk}, Assume: assume,
		Rule: "Each run generates 1-3 documents of the same shape and different content, and 2-4 workers that do random operations on them at the same time under a seeded schedule, or one after another; every result must be the one the operations give alone with empty caches. Part of the runs use a build with the race detector."},
	"C11": {Plans: []plan{{Scenario: "arazzo", Runs: 9000, Batch: 60}, {Scenario: "arazzo", Race: true, Runs: 600, Batch: 15}}, Level: "exploration", Real: realAll, Stub: []string{stubClk, stubSch, "the executor of operations (seeded answers, failures, stalls, cancellation)"}, Assume: assume,
		Rule: "Each run generates an Arazzo document, inputs and a script of executor answers with faults, and lets 1-3 engines execute workflows of it, several times each, under a seeded schedule; every request, wait, output and error must be the reference interpreter's."},
	"C12": {Plans: []plan{{Scenario: "arazzo-sources", Runs: 6000, Batch: 50}, {Scenario: "arazzo-sources", Race: true, Runs: 600, Batch: 15}}, Level: "exploration", Real: append([]string{"net/http client"}, realAll...), Stub: []string{stubClk, stubSch, stubDsk + " and faults", "network: an http.RoundTripper with redirects, latency and faults"}, Assume: assume,
		Rule: "Each run draws source descriptions, limits and allow-lists, a fault plan for network and disk, and one or two documents resolved at the same time with one configuration, under a seeded schedule."},
}
