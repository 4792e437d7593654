S, I, F, C, H = "schedules", "inputs", "fault_sequences", "configurations", "histories"
BASE = ("Seeded search, not proof: nothing is claimed about schedules and inputs that were not drawn. Trusts the simulator "
        "(patched Go runtime scheduler at statement granularity on one thread, virtual clock), the generator's own tree as the "
        "reference, and the YAML library. ")

prop("C01", "Parsing an API document gives its own content under every schedule",
     "Building the model of any well-formed OpenAPI 3.0 or 3.1 document succeeds and the model holds exactly what the document says: "
     "every value, in document order, nothing lost, duplicated, moved or invented; rendering that model gives the same document back. "
     "The model, the index and the reported errors are the same whichever way the goroutines of the build are interleaved, and every build ends.",
     [S, I, C], "Every well-formed document (all object kinds, local references, anchors, extensions, any key order) and every interleaving of the build's goroutines, with 1 to 16 processors.",
     "Tests build a fixed set of documents under whatever interleaving the machine happens to produce; they assert single fields and can never force the rare orders in which a build loses, duplicates or reorders an item, or blocks.",
     ["document.go", "datamodel/low/v3", "datamodel/low/extraction_functions.go", "datamodel/low/base", "datamodel/high/v3", "datamodel/high/base", "index/spec_index_build.go", "index/extract_refs_lookup.go"],
     [("parallel section extraction", "datamodel/low/v3/create_document.go"), ("ordered translation of maps and slices", "datamodel/translate.go"),
      ("reference lookup with one goroutine per reference, sorted by position", "index/extract_refs_lookup.go"), ("per-object render from the model's own fields", "datamodel/high/node_builder.go")],
     [("all mapped references", "references found by the index", "index/index_model.go")],
     ["BuildV3Model", "Render", "index accessors"], note=BASE + "The faithful-content oracle is the generator's tree compared with the re-rendered model; the schedule oracle is a full dump of model, low model and index against a sequential (FIFO) execution.")

prop("C02", "Concurrent translation keeps order, loses nothing and always ends",
     "The map, slice and pipeline translators run each item's work once, deliver the results in input order, stop at the first failure with that failure, "
     "and return only when no work is still running - whatever the relative speed of producer, workers and consumer, the number of processors, and the point at which a failure or cancellation happens. They never deadlock and leave no goroutine behind.",
     [S, I, F, C], "Every item count, buffer size, processor count, per-item delay, failing or early-ending item, consumer cancellation, and every interleaving.",
     "The tests use a handful of sizes and no control over speed or order, so the interleavings in which a worker finishes last, a failure races with delivery, or the consumer leaves early are only met by luck.",
     ["datamodel/translate.go", "orderedmap/orderedmap.go"],
     [("TranslateMapParallel, TranslateSliceParallel, TranslatePipeline", "datamodel/translate.go"), ("Iterate", "orderedmap/orderedmap.go")],
     [], ["return value", "delivered results", "goroutines left"], note=BASE + "Oracle: a sequential reference execution of the same callbacks.")

prop("C03", "References across files resolve to what they name, each file loaded once",
     "In a document spread over several files, every reference - relative, nested, to a whole file, to a fragment, back to the root or around a cycle of files - resolves to exactly the object it names, "
     "with that object's own content, whatever order the files happen to be read, indexed and traversed in. Each file is read once, no valid set of files is refused, and the build always ends, its loaders never racing on memory.",
     [S, I, C], "Every set of files, directory layout, reference graph between files (cyclic ones included), disk latency, sequential or concurrent extraction, and every interleaving of the loaders.",
     "Tests use a few fixed file sets on a fast disk; the loaders' interleavings (two files that wait for each other, a file opened by two goroutines at once) depend on latency and scheduling that a test cannot control.",
     ["index/rolodex.go", "index/rolodex_file_loader.go", "index/find_component_external.go", "index/search_index.go", "index/extract_refs_ref.go", "datamodel/low/extraction_functions.go", "datamodel/high/base/schema_proxy.go"],
     [("one loader per file, others wait", "index/rolodex_file_loader.go"), ("waiting for a file's index", "index/rolodex_wait.go"), ("reference lookup across indexes", "index/search_index.go"), ("schema cache per reference", "datamodel/high/base/schema_proxy.go")],
     [("Files, processingFiles", "files loaded and being loaded", "index/rolodex_file_loader.go")],
     ["model content reached through each reference", "files read from disk"], note=BASE + "Oracle: every object of the generated files carries a unique marker; each reference is followed through the public model and must arrive at its target's marker. Files come from a simulated disk (package os seam or a custom fs.FS).")

prop("C04", "A file that cannot be read is reported, never replaced or cut short",
     "When a file of a document cannot be opened, or reading it fails, stops short or is slow, building the document still ends, reports the failure, "
     "and never shows part of that file or the content of another place instead of what a reference names. Everything held in files that could be read stays complete and right.",
     [S, I, F], "Every set of files and references, every placement of disk faults (absent, permission, I/O error at any byte, failing stat or close, slow reads) and every interleaving of the loaders.",
     "Tests cover a missing file or two on a real disk; they cannot make the third read of a shared file fail halfway while another goroutine waits for it.",
     ["index/rolodex.go", "index/rolodex_file_loader.go", "index/spec_index_build.go", "index/find_component_external.go", "datamodel/low/v3/create_document.go", "datamodel/low/extraction_functions.go"],
     [("file extraction and the error it hands to waiters", "index/rolodex_file_loader.go"), ("reference errors", "index/extract_refs_lookup.go"), ("lookup of a reference's node", "datamodel/low/extraction_functions.go")],
     [], ["build error", "error-level log records", "model content reached through each reference"], note=BASE + "A failure counts as reported when the build returns an error or the configured logger receives an error-level record; a container whose part cannot be loaded may be left out of the model if the failure was reported. Faults are injected at package os and fs.FS.")

prop("C05", "Remote files: fetched once, whole, the same for all who ask, errors told",
     "Whoever opens a remote file - several at once, again later, or a reference in a document - gets either the complete, indexed file or the error that prevented it, never neither, never part of it, never another file's error. "
     "A successful file is fetched once, every response body is closed, every opener is answered within bounded time, and a document spread over a network builds exactly like the same document on disk.",
     [S, I, F, C], "Every set of remote files and openers, every network fault (refused, time-out, missing response, error status, reset at any byte, slow body, transient or lasting), latency and interleaving.",
     "Tests use a local HTTP server that answers at once; waiting openers, transient failures and connections cut in the body occur only by luck or not at all.",
     ["index/rolodex_remote_loader.go", "index/rolodex.go", "index/extract_refs_ref.go", "index/resolver_relatives.go", "index/search_index.go"],
     [("one fetch per remote file, others wait", "index/rolodex_remote_loader.go"), ("file type detection", "index/rolodex_remote_loader.go"), ("relative references against the base URL", "index/extract_refs_ref.go")],
     [("Files, ProcessingFiles", "remote files fetched and being fetched", "index/rolodex_remote_loader.go")],
     ["Open result and content", "requests seen by the servers", "bodies left open", "model content"], note=BASE + "Oracle: the simulated servers know every file's bytes and every request; the document oracle is the unique marker of every object.")

prop("C07", "Reading a model from many goroutines gives each the single-reader answer",
     "Once a document - in one file or several - is built, any number of goroutines may read it at the same time: resolve its schemas, render it or parts of it plain or inlined, hash objects, look up references and nodes, ask for counts. "
     "Every reader gets the answer it would get alone, whatever the others do and in whatever order the reads happen; no read blocks for ever, and none races on memory or changes what later reads see.",
     [S, I, H], "Every well-formed document, in one file or spread over files, every set of concurrent reads and every interleaving of them, with 1 to 16 processors.",
     "Tests read a model from one goroutine, in one order. A read that fills a cache, marks a node or keeps a flag for the time of a render gives a wrong answer only to another reader that comes at that moment.",
     ["datamodel/high/base/schema_proxy.go", "datamodel/low/base/schema_proxy.go", "datamodel/high/base/dynamic_value.go", "datamodel/high/node_builder.go", "datamodel/low/hash.go", "index/spec_index_accessors.go", "index/spec_index_counts.go", "document.go"],
     [("lazily built schemas behind a lock", "datamodel/high/base/schema_proxy.go"), ("rendering context for inlining", "datamodel/high/base/schema_proxy.go"), ("hash cache", "datamodel/low/hash.go"), ("counts kept once computed", "index/spec_index_counts.go")],
     [("schema built by a proxy", "the schema a proxy has resolved", "datamodel/high/base/schema_proxy.go"), ("inline rendering tracker", "references being inlined", "datamodel/high/base/schema_proxy.go")],
     ["results of public read calls", "race detector reports"], note=BASE + "Oracle: the same reads made one after another on a fresh model. A race-detector build of the same simulation covers accesses that never change a result.",
     tech="deterministic simulation: seeded schedules of concurrent readers, compared with a single reader")

prop("C08", "The change report of two documents is exactly what was changed",
     "Comparing two documents reports every difference between them once per place it applies to, in the place where it is, with the old and the new value, and nothing else; equal documents give no report, and the totals agree with the list. "
     "The report does not depend on how the goroutines of the comparison are interleaved, on another comparison running at the same time, or on having been made before; swapping the documents turns additions into removals.",
     [S, I, H], "Every well-formed OpenAPI 3 document, every set of edits of the kinds drawn (texts, limits, extensions, paths, operations, responses, properties, schemas, other components, tags - also inside compositions and conditional schemas), every interleaving.",
     "Tests compare fixed pairs of documents. The comparison runs thousands of goroutines that share result lists, a hash cache and a schema table; a lost or doubled change needs particular orders and particular sibling edits.",
     ["what-changed/model", "what-changed/what_changed.go", "datamodel/low/hash.go", "datamodel/low/base/schema.go", "document.go"],
     [("one goroutine per path, operation, map entry and property", "what-changed/model/comparison_functions.go"), ("schema comparison and composition matching", "what-changed/model/schema.go"), ("sections of components compared in parallel", "what-changed/model/components.go"), ("hash caches cleared per comparison", "what-changed/model/document.go")],
     [("hash cache, quick hash table", "hashes shared by comparisons", "datamodel/low/hash.go")],
     ["CompareDocuments report", "its totals"], note=BASE + "Oracle: the edits the generator made. Components other than schemas are compared where they are used (documented upstream), so edits inside them are drawn only as additions and removals; removed extensions are listed as breaking but not always counted, which upstream tests fix, and is tolerated. Swagger documents are not drawn.",
     tech="deterministic simulation: seeded schedules of the comparison, report compared with the edits made")

prop("C09", "A bundle is the whole document in one file, the same however it was loaded",
     "Bundling a document spread over several files, inlined or composed into components, gives one self-contained document in which every reference and every inlined part has exactly the content it named before, whatever names the files share; the recorded origin of each lifted component is the file and place it came from. "
     "The bytes and origins depend only on the document, not on disk or network speed, interleaving, or other bundlings running at the same time, and the caller's bytes stay as they were. "
     "A file that cannot be read is reported, and otherwise the bundle is the same as without the fault.",
     [S, I, F, C], "Every set of files, layouts and reference graphs (same component names in several files included), local or remote, every way of bundling, delay and fault of disk or network, concurrent bundlings, every interleaving.",
     "Tests bundle fixed file sets one at a time. Names that clash, references shared between files and the order in which files happen to load decide how the bundle is rewritten, in place, on nodes that several references share.",
     ["bundler/bundler.go", "bundler/bundler_composer.go", "bundler/composer_functions.go", "bundler/inline_references.go", "bundler/origin.go", "index/rolodex.go"],
     [("lifting references into components, renames on collision", "bundler/bundler_composer.go"), ("rewriting references in place", "bundler/composer_functions.go"), ("inlined rendering", "bundler/bundler.go"), ("origins", "bundler/origin.go")],
     [("processed references", "where each lifted reference now lives", "bundler/bundler.go")],
     ["bundle bytes", "origins", "errors and error-level log records"], note=BASE + "Oracle: a bundling made alone on a quiet disk, and the unique marker of every object found again in the bundle. The order of paths in a bundle and extension references are not checked; discriminators are drawn only for local composed documents, mapping to schemas of their own union; inlining of documents with cycles is checked for repeatability only.",
     tech="deterministic simulation: seeded schedules, disk and network faults; bundles compared with a quiet one and walked by markers")

prop("C10", "Work on one document never changes what work on another document gives",
     "Whatever a process does with one document - reading, comparing, rendering, bundling, applying an overlay, querying by JSONPath, generating code or seeded mocks, reloading, releasing it - gives exactly the result it gives when it is done alone, whatever was done with other documents before it or is being done at the same time, and whenever the shared caches are cleared. "
     "This also holds where documents share an overlay, a code generator or the same text at the same place, and nothing it does alters its inputs.",
     [S, C], "Every set of documents (with the same shape and different content, so that places, names and sizes coincide), every sequence of operations, at the same time or one after another, every interleaving, and caches cleared at any point.",
     "Tests run one operation on one document in a fresh process, and clear the caches between. Process-wide caches, pools and shared helpers leak only between documents that coincide in the right way, at the right moment.",
     ["cache.go", "datamodel/low/extraction_functions.go", "datamodel/low/hash.go", "index/utility_methods.go", "datamodel/low/base/schema.go", "datamodel/high/base/schema_proxy.go", "utils/utils.go", "overlay/engine.go", "generator/golang/generator.go"],
     [("hash cache and index collection cache", "datamodel/low/extraction_functions.go"), ("node pools", "index/utility_methods.go"), ("clearing every cache", "cache.go"), ("rendering tracker", "datamodel/high/base/schema_proxy.go"), ("JSONPath cache", "utils/utils.go"), ("overlay merge", "overlay/engine.go"), ("generator state", "generator/golang/generator.go")],
     [("hash caches", "keyed by node or place; cleared at any time", "datamodel/low/extraction_functions.go"), ("node pools", "scratch slices and maps, replaced when cleared", "index/utility_methods.go")],
     ["model dump, reports, bundles, overlay results, paths found, generated code and mocks of every document"], note=BASE + "Oracle: the same operations on the same document with nothing else going on and every cache empty, and the documented effect on inputs (none).",
     tech="deterministic simulation: seeded schedules of operations on several documents against the same operations alone")

prop("C11", "An Arazzo engine runs a workflow exactly as written, on time, every time",
     "Running a workflow makes exactly the requests it describes, in order, with the parameters, payloads and replacements as evaluated, after exactly the waits it asks for; criteria, success and failure actions, retries, jumps, sub-workflows and outputs decide what happens next, "
     "and its result says what happened. Failing, slow or stalled operations, deadlines and cancellation end it at the documented point, without hanging, panicking or leaving work behind. "
     "Nothing a run does changes the caller's inputs or the document, and other engines or earlier runs on the same document have no influence on it.",
     [S, I, F, H], "Every document of up to six workflows with up to five steps (retries, jumps, cycles, sub-workflows, dependencies, criteria of every supported kind, payload replacements), every script of executor outcomes, every deadline, and every interleaving of up to three engines.",
     "Tests run fixed small workflows with an executor that answers at once. Retry counts, waits, jumps and expression contexts interact over the history of a run, and cancellation or a failing call can come at any point of it.",
     ["arazzo/engine.go", "arazzo/step.go", "arazzo/criterion.go", "arazzo/actions.go", "arazzo/expression/evaluator.go", "arazzo/operation_resolver.go"],
     [("workflow loop, retries and jumps", "arazzo/engine.go"), ("one step", "arazzo/step.go"), ("criteria", "arazzo/criterion.go"), ("expressions", "arazzo/expression/evaluator.go")],
     [("expression and criterion caches", "parsed expressions, compiled patterns", "arazzo/engine.go"), ("expression context", "inputs, steps, outputs, previous exchange", "arazzo/expression/evaluator.go")],
     ["requests seen by the executor and their time", "results, outputs, errors, durations"], note=BASE + "Oracle: a reference interpreter with value semantics and a model clock, written from the Arazzo specification and the documented limits of the engine. Workflow-level parameters (declared not implemented), objects embedded in text, XPath and replacements through arrays are not drawn.",
     tech="deterministic simulation: seeded executor faults, stalls, deadlines and schedules; run refines a reference interpreter")

prop("C12", "Arazzo sources resolve wholly or fail, within every configured limit",
     "Resolving the source descriptions of an Arazzo document gives every source, with exactly its own content, its resolved location and the type asked for, attached in order - or an error and nothing. "
     "No request, redirect or file ever leaves the allowed schemes, hosts and root directories, no more than the allowed number of bytes and sources is accepted, and each fetch ends within its time limit with its response closed. "
     "Resolutions that share one configuration do not influence each other.",
     [S, I, F], "Every set of sources (http, https, file, relative), redirect chains, limits and allow-lists, every network fault (refused, error status, stall before or within the body, reset, drip, endless body) and disk fault (absent, unreadable, failing or short read, growing file, symbolic link), and two concurrent resolutions.",
     "Tests serve one healthy source from a local server. A limit can be stepped over only by a server or disk that misbehaves at the right moment: a redirect, a body that never ends, a file that grows after its size was read.",
     ["arazzo/resolve.go", "arazzo.go"],
     [("source URL and policy", "arazzo/resolve.go"), ("fetch with limits", "arazzo/resolve.go"), ("root directories", "arazzo/resolve.go")],
     [], ["resolved sources and error", "requests and files seen by the simulated network and disk", "bytes read", "virtual time"], note=BASE + "Oracle: the simulator knows the content, faults and reachability of every source. A custom HTTP handler is trusted for its own time; a symbolic link is judged by where it leads.",
     tech="deterministic simulation: simulated network and disk with faults below net/http and package os")

prop("C06", "Circular references are found exactly where they are, the same every time",
     "Building a document ends whatever its references look like, reports a circular reference for every group of schemas of the document that refer to each other in a circle and for nothing else, and each reported journey follows real references back to its loop point. "
     "A loop is called infinite only if required references alone lead around it, an endless chain of required references makes the build report an error, and what is missing is reported instead of crashing. "
     "Two builds report the same in the same order whatever the interleaving, and inlining a schema leaves only references that are part of a circle.",
     [S, I, C], "Every reference graph of up to eight schemas over up to three files (required and optional properties, items, nested objects, additional properties, compositions, references to nothing), disk latency, sequential or concurrent extraction, every interleaving.",
     "Tests use a few drawn-up circles. Detection marks shared references while it walks and shares journeys between branches, so what it finds depends on what it visited before, and files load in any order.",
     ["index/resolver_visit.go", "index/resolver_circular.go", "index/resolver_relatives.go", "index/resolver_polymorphic.go", "index/rolodex.go", "index/utility_methods.go"],
     [("walk of references with a journey", "index/resolver_visit.go"), ("loop classification", "index/resolver_circular.go"), ("results collected by the rolodex", "index/rolodex.go")],
     [("Seen, Circular", "marks on shared references", "index/index_model.go"), ("debounced lists", "results handed out once", "index/rolodex.go")],
     ["build error", "circular references of index and rolodex", "inlined schemas"], note=BASE + "Oracle: plain graph algorithms over the generated references. Completeness is asked of schemas in the root document or reachable from it. With polymorphic or array circles ignored, only soundness, listing and repeatability are checked. Known finding: an endless required chain hidden by a composition of the same schemas is not classed as infinite.",
     tech="deterministic simulation: seeded schedules and disk latency, reported circles compared with a graph reference")
