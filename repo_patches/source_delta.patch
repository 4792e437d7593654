From ee79996991ec18608e6aba7f14d62b6fa56da36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 01/54] fix: read a header's example from its own keys, not
 from a nested schema

---
 datamodel/low/v3/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datamodel/low/v3/header.go b/datamodel/low/v3/header.go
index 02929e2..f50b458 100644
--- a/datamodel/low/v3/header.go
+++ b/datamodel/low/v3/header.go
@@ -151,7 +151,7 @@ func (h *Header) Build(ctx context.Context, keyNode, root *yaml.Node, idx *index
 
 	low.ExtractExtensionNodes(ctx, h.Extensions, h.Nodes)
 	// handle example if set.
-	_, expLabel, expNode := utils.FindKeyNodeFull(base.ExampleLabel, root.Content)
+	_, expLabel, expNode := utils.FindKeyNodeFullTop(base.ExampleLabel, root.Content)
 	if expNode != nil {
 		h.Example = low.NodeReference[*yaml.Node]{
 			Value:     expNode,
-- 
2.43.0


From d0385f23d90ced0b198443515bb0e1c18ac7426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 02/54] fix: key the high-level schema cache on the reference
 node

The key was the path of the file a reference points at plus the line and
column of the reference itself, so two references made from different
files at the same position to different schemas of the same file shared
a cache entry, and the second resolved to the schema of the first.
---
 datamodel/high/base/schema_proxy.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/datamodel/high/base/schema_proxy.go b/datamodel/high/base/schema_proxy.go
index edee4df..7098093 100644
--- a/datamodel/high/base/schema_proxy.go
+++ b/datamodel/high/base/schema_proxy.go
@@ -8,7 +8,6 @@ import (
 	"fmt"
 	"net/url"
 	"path/filepath"
-	"strconv"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -21,18 +20,6 @@ import (
 	"go.yaml.in/yaml/v4"
 )
 
-// buildCacheKey builds a "path:line:col" string without fmt.Sprintf allocations.
-func buildCacheKey(path string, line, col int) string {
-	var b strings.Builder
-	b.Grow(len(path) + 12)
-	b.WriteString(path)
-	b.WriteByte(':')
-	b.WriteString(strconv.Itoa(line))
-	b.WriteByte(':')
-	b.WriteString(strconv.Itoa(col))
-	return b.String()
-}
-
 // inlineRenderingTracker tracks schemas during inline rendering to prevent infinite recursion.
 // Uses sync.Map for lock-free concurrent access - each goroutine works on different keys,
 // so sync.Map's internal sharding reduces contention compared to a single mutex.
@@ -445,7 +432,9 @@ func (sp *SchemaProxy) Schema() *Schema {
 	idx := sp.schema.Value.GetIndex()
 	if idx != nil && sp.schema.Value != nil {
 		if sp.schema.Value.IsReference() && sp.schema.Value.GetReferenceNode() != nil && sp.schema.GetValueNode() != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), sp.schema.GetValueNode().Line, sp.schema.GetValueNode().Column)
+			// key on the node itself: the index belongs to the file the reference points at, but the node is in the
+			// file the reference was made from, so a line and column are not unique across files.
+			loc := sp.schema.GetValueNode()
 			if seen, ok := idx.GetHighCache().Load(loc); ok {
 				idx.HighCacheHit()
 				// cache locally to avoid recreating on repeated access
@@ -468,7 +457,7 @@ func (sp *SchemaProxy) Schema() *Schema {
 	if idx != nil {
 		// only store the schema in the cache if is a reference!
 		if sp.IsReference() && sp.GetReferenceNode() != nil && sp.schema != nil && sp.schema.GetValueNode() != nil {
-			loc := buildCacheKey(idx.GetSpecAbsolutePath(), sp.schema.GetValueNode().Line, sp.schema.GetValueNode().Column)
+			loc := sp.schema.GetValueNode()
 
 			// caching is only performed on traditional $ref nodes with a reference and a value node, any 3.1 additional
 			// will not be cached as libopenapi does not yet support them.
-- 
2.43.0


From 305a59fbbf4fcf1aa0163565f92a5c64034f7776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 03/54] fix: do not deadlock when files being indexed reference
 each other

A lookup waits for the index of the file it refers to. Two goroutines that
index two files which reference each other waited for each other for ever,
and so did lookups made while building an index, because they did not carry
the call chain they are part of. Record which files wait for which, never
close a cycle, and pass the call chain on.
---
 index/find_component_external.go |  2 +-
 index/index_model.go             |  2 +
 index/rolodex.go                 |  2 +
 index/rolodex_file_loader.go     |  2 +-
 index/rolodex_remote_loader.go   |  2 +-
 index/rolodex_wait.go            | 68 ++++++++++++++++++++++++++++++++
 index/search_index.go            |  2 +-
 index/spec_index_build.go        | 18 ++++++++-
 index/spec_index_counts.go       |  4 +-
 index/utility_methods.go         |  2 +-
 10 files changed, 96 insertions(+), 8 deletions(-)
 create mode 100644 index/rolodex_wait.go

diff --git a/index/find_component_external.go b/index/find_component_external.go
index cf0727b..63b0636 100644
--- a/index/find_component_external.go
+++ b/index/find_component_external.go
@@ -53,7 +53,7 @@ func (index *SpecIndex) lookupRolodex(ctx context.Context, uri []string) *Refere
 			return nil
 		}
 		if rFile.GetIndex() == nil && !IsFileBeingIndexed(ctx, absoluteFileLocation) {
-			rFile.WaitForIndexing()
+			index.rolodex.waitForIndexing(ctx, rFile)
 		}
 		if rFile.GetIndex() != nil {
 			idx = rFile.GetIndex()
diff --git a/index/index_model.go b/index/index_model.go
index 5e159d3..7eb76f3 100644
--- a/index/index_model.go
+++ b/index/index_model.go
@@ -4,6 +4,7 @@
 package index
 
 import (
+	"context"
 	"encoding/json"
 	"io/fs"
 	"log/slog"
@@ -429,6 +430,7 @@ type SpecIndex struct {
 	resolverLock                        sync.RWMutex
 	cache                               *sync.Map
 	built                               bool
+	buildContext                        context.Context // call chain the index is being built in, if any.
 	uri                                 []string
 	logger                              *slog.Logger
 	nodeLines                           [][]nodeLineEntry
diff --git a/index/rolodex.go b/index/rolodex.go
index bd955a8..0078788 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -89,6 +89,8 @@ type Rolodex struct {
 	id                         string // unique ID for the rolodex, can be used to identify it in logs or other contexts.
 	globalSchemaIdRegistry     map[string]*SchemaIdEntry
 	schemaIdRegistryLock       sync.RWMutex
+	indexWaits                 map[string]map[string]int // files being indexed, and the files they wait for
+	indexWaitLock              sync.Mutex
 }
 
 // Release nils all fields that can pin YAML node trees, SpecIndex objects, or
diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index 3a2547e..9eb0771 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -164,7 +164,7 @@ func (l *LocalFS) OpenWithContext(ctx context.Context, name string) (fs.File, er
 
 			if idx != nil {
 				NewResolver(idx)
-				idx.BuildIndex()
+				idx.buildIndexWithContext(indexingCtx)
 			}
 			if len(extractedFile.data) > 0 {
 				l.logger.Debug("[rolodex file loader]: successfully loaded and indexed file", "file", name)
diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 3a81f23..1df459d 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -805,7 +805,7 @@ func (i *RemoteFS) indexRemoteFile(
 		return
 	}
 	NewResolver(idx)
-	idx.BuildIndex()
+	idx.buildIndexWithContext(indexingCtx)
 	if i.rolodex != nil {
 		i.rolodex.AddExternalIndex(idx, remoteParsedURL.String())
 	}
diff --git a/index/rolodex_wait.go b/index/rolodex_wait.go
new file mode 100644
index 0000000..bcc3adf
--- /dev/null
+++ b/index/rolodex_wait.go
@@ -0,0 +1,68 @@
+// Copyright 2023-2026 Princess B33f Heavy Industries / Dave Shanley
+// SPDX-License-Identifier: MIT
+
+package index
+
+import "context"
+
+// waitForIndexing blocks until the index of a rolodex file is ready, unless waiting could never end.
+//
+// Files are indexed by whichever goroutine opened them first, and indexing a file looks up the files it references.
+// When two goroutines index two files that (directly or through other files) reference each other, each would wait for
+// the other to finish. So every file being indexed in the current call chain is recorded as waiting for the requested
+// file, and a wait that would close a cycle is skipped.
+func (r *Rolodex) waitForIndexing(ctx context.Context, file RolodexFile) {
+	waiting := GetIndexingFiles(ctx)
+	if len(waiting) == 0 {
+		// nothing can be waiting for this call chain.
+		file.WaitForIndexing()
+		return
+	}
+
+	target := file.GetFullPath()
+	r.indexWaitLock.Lock()
+	if r.indexWaitReaches(target, waiting, make(map[string]bool)) {
+		r.indexWaitLock.Unlock()
+		return
+	}
+	if r.indexWaits == nil {
+		r.indexWaits = make(map[string]map[string]int)
+	}
+	for f := range waiting {
+		if r.indexWaits[f] == nil {
+			r.indexWaits[f] = make(map[string]int)
+		}
+		r.indexWaits[f][target]++
+	}
+	r.indexWaitLock.Unlock()
+
+	file.WaitForIndexing()
+
+	r.indexWaitLock.Lock()
+	for f := range waiting {
+		if r.indexWaits[f][target]--; r.indexWaits[f][target] == 0 {
+			delete(r.indexWaits[f], target)
+			if len(r.indexWaits[f]) == 0 {
+				delete(r.indexWaits, f)
+			}
+		}
+	}
+	r.indexWaitLock.Unlock()
+}
+
+// indexWaitReaches reports whether any of the targets is reachable from a file by following recorded waits.
+func (r *Rolodex) indexWaitReaches(from string, targets, seen map[string]bool) bool {
+	if targets[from] {
+		return true
+	}
+	if seen[from] {
+		return false
+	}
+	seen[from] = true
+	for next := range r.indexWaits[from] {
+		if r.indexWaitReaches(next, targets, seen) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/index/search_index.go b/index/search_index.go
index e031711..adedf1c 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -275,7 +275,7 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 			}
 			return r, index, ctx
 		}
-		rFile, err := index.rolodex.Open(roloLookup)
+		rFile, err := index.rolodex.OpenWithContext(ctx, roloLookup)
 		if err != nil {
 			return nil, index, ctx
 		}
diff --git a/index/spec_index_build.go b/index/spec_index_build.go
index 544696d..2d40236 100644
--- a/index/spec_index_build.go
+++ b/index/spec_index_build.go
@@ -97,12 +97,28 @@ func createNewIndex(ctx context.Context, rootNode *yaml.Node, index *SpecIndex,
 	index.GetPathCount()
 
 	if !avoidBuildOut {
-		index.BuildIndex()
+		index.buildIndexWithContext(ctx)
 	}
 	<-index.nodeMapCompleted
 	return index
 }
 
+// buildIndexWithContext builds the index as part of an indexing call chain, references looked up while building will
+// know which files are being indexed (and must not be waited for).
+func (index *SpecIndex) buildIndexWithContext(ctx context.Context) {
+	index.buildContext = ctx
+	index.BuildIndex()
+	index.buildContext = nil
+}
+
+// lookupContext returns a new context for looking up references found in this index.
+func (index *SpecIndex) lookupContext() context.Context {
+	if index.buildContext == nil {
+		return context.Background()
+	}
+	return context.WithValue(context.Background(), IndexingFilesKey, GetIndexingFiles(index.buildContext))
+}
+
 // BuildIndex runs all count and extraction functions concurrently to populate the index.
 // This is called automatically during construction unless AvoidBuildIndex is set in the config.
 func (index *SpecIndex) BuildIndex() {
diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 37e1280..9466d84 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -517,7 +517,7 @@ func (index *SpecIndex) GetOperationCount() int {
 				method = index.pathsNode.Content[x+1]
 			}
 			if isRef, _, ref := utils.IsNodeRefValue(method); isRef {
-				ctx := context.WithValue(context.Background(), CurrentPathKey, index.specAbsolutePath)
+				ctx := context.WithValue(index.lookupContext(), CurrentPathKey, index.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, index)
 				pNode := seekRefEnd(ctx, index, ref)
 				if pNode != nil {
@@ -576,7 +576,7 @@ func (index *SpecIndex) GetOperationsParameterCount() int {
 				pathPropertyNode = index.pathsNode.Content[x+1]
 			}
 			if isRef, _, ref := utils.IsNodeRefValue(pathPropertyNode); isRef {
-				ctx := context.WithValue(context.Background(), CurrentPathKey, index.specAbsolutePath)
+				ctx := context.WithValue(index.lookupContext(), CurrentPathKey, index.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, index)
 				pNode := seekRefEnd(ctx, index, ref)
 				if pNode != nil {
diff --git a/index/utility_methods.go b/index/utility_methods.go
index d201dca..7e67452 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -431,7 +431,7 @@ func (index *SpecIndex) scanOperationParams(params []*yaml.Node, keyNode, pathIt
 			if paramRef == nil {
 				// could be in the rolodex
 				searchInIndex := findIndex(index, param.Content[1])
-				ctx := context.WithValue(context.Background(), CurrentPathKey, searchInIndex.specAbsolutePath)
+				ctx := context.WithValue(index.lookupContext(), CurrentPathKey, searchInIndex.specAbsolutePath)
 				ctx = context.WithValue(ctx, RootIndexKey, searchInIndex)
 				ref := seekRefEnd(ctx, searchInIndex, paramRefName)
 				if ref != nil {
-- 
2.43.0


From b6e34ec3d9b305069bac4e0d4d5cd9c05614cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 04/54] fix: load a file once when it is opened concurrently

A goroutine that missed the file in the file map could still store its own
waiter after the first loader had finished and removed its waiter, and
loaded and indexed the file a second time.
---
 index/rolodex_file_loader.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index 9eb0771..a5feb48 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -118,6 +118,15 @@ func (l *LocalFS) OpenWithContext(ctx context.Context, name string) (fs.File, er
 
 		// We successfully stored our waiter, so we're responsible for processing this file
 
+		// ...unless it was loaded between the lookup above and storing the waiter: a file must only be loaded once.
+		if f, ok := l.Files.Load(name); ok {
+			processingWaiter.file = f.(*LocalFile)
+			processingWaiter.done = true
+			l.processingFiles.Delete(name)
+			processingWaiter.mu.Unlock()
+			return processingWaiter.file, nil
+		}
+
 		var extractedFile *LocalFile
 		var extErr error
 		l.logger.Debug("[rolodex file loader]: extracting file from OS", "file", name)
-- 
2.43.0


From 2e26de8de4106925a2d7d644e6cbb5441612d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 05/54] fix: report a local file that could only be read in
 part

A read error was dropped and the part of the file that had been read was
used as if it was the whole file.
---
 index/rolodex_file_loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index a5feb48..fc4ddde 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -524,7 +524,12 @@ func (l *LocalFS) extractFile(p string) (*LocalFile, error) {
 		if stat != nil {
 			modTime = stat.ModTime()
 		}
-		fileData, _ = io.ReadAll(file)
+		var readError error
+		fileData, readError = io.ReadAll(file)
+		if readError != nil {
+			// never hand out the part of the file that could be read as if it was the whole file.
+			return nil, readError
+		}
 
 		lf := &LocalFile{
 			filename:         p,
-- 
2.43.0


From 0431abe3c2ba14e9524e1f7df5ccefa1ef3e94fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 06/54] fix: do not crash when the supplied local file system
 cannot be read

The error was ignored and a nil file system was added to the rolodex.
---
 datamodel/low/v2/swagger.go         | 16 ++++++++++++----
 datamodel/low/v3/create_document.go | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/datamodel/low/v2/swagger.go b/datamodel/low/v2/swagger.go
index 7e5211b..e1e2977 100644
--- a/datamodel/low/v2/swagger.go
+++ b/datamodel/low/v2/swagger.go
@@ -157,6 +157,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	rolodex.SetRootNode(info.RootNode)
 	doc.Rolodex = rolodex
 
+	var errs []error
+
 	// If basePath is provided, add a local filesystem to the rolodex.
 	if idxConfig.BasePath != "" {
 		var cwd string
@@ -175,11 +177,19 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 					DirFS:         config.LocalFS,
 				}
 
-				localFS, _ = index.NewLocalFSWithConfig(&localFSConf)
+				wrapped, fsErr := index.NewLocalFSWithConfig(&localFSConf)
+				if fsErr != nil {
+					// the file system can't be read, report it rather than looking references up in it.
+					errs = append(errs, fsErr)
+				} else {
+					localFS = wrapped
+				}
 				idxConfig.AllowFileLookup = true
 			}
 
-			rolodex.AddLocalFS(cwd, localFS)
+			if localFS != nil {
+				rolodex.AddLocalFS(cwd, localFS)
+			}
 		} else {
 
 			// create a local filesystem
@@ -217,8 +227,6 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 
 	doc.Rolodex = rolodex
 
-	var errs []error
-
 	// index all the things!
 	_ = rolodex.IndexTheRolodex(context.Background())
 
diff --git a/datamodel/low/v3/create_document.go b/datamodel/low/v3/create_document.go
index 90e228e..87ff8dd 100644
--- a/datamodel/low/v3/create_document.go
+++ b/datamodel/low/v3/create_document.go
@@ -209,6 +209,8 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	rolodex.SetRootNode(info.RootNode)
 	doc.Rolodex = rolodex
 
+	var errs []error
+
 	// If basePath is provided, add a local filesystem to the rolodex.
 	if idxConfig.BasePath != "" || config.AllowFileReferences {
 		var cwd string
@@ -227,11 +229,19 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 					DirFS:         config.LocalFS,
 				}
 
-				localFS, _ = index.NewLocalFSWithConfig(&localFSConf)
+				wrapped, fsErr := index.NewLocalFSWithConfig(&localFSConf)
+				if fsErr != nil {
+					// the file system can't be read, report it rather than looking references up in it.
+					errs = append(errs, fsErr)
+				} else {
+					localFS = wrapped
+				}
 				idxConfig.AllowFileLookup = true
 			}
 
-			rolodex.AddLocalFS(cwd, localFS)
+			if localFS != nil {
+				rolodex.AddLocalFS(cwd, localFS)
+			}
 		} else {
 
 			// create a local filesystem
@@ -267,8 +277,6 @@ func createDocument(info *datamodel.SpecInfo, config *datamodel.DocumentConfigur
 	}
 
 	// index the rolodex
-	var errs []error
-
 	// index all the things.
 	if config.Logger != nil {
 		config.Logger.Debug("indexing rolodex")
-- 
2.43.0


From 1be7081ea8f22408263e88b07493ba18b81c3c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 07/54] fix: do not resolve a reference into another file
 against this one

When the other file could not be read, the last resort path lookup ignored
the file part and found the same path in the current document.
---
 datamodel/low/extraction_functions.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 222aeec..6d6c2b3 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -341,9 +341,13 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 
 		// let's try something else to find our references.
 
-		// cant be found? last resort is to try a path lookup
+		// cant be found? last resort is to try a path lookup, unless the reference points into another document: the
+		// same path in this one is something else.
+		location, _, pointer := strings.Cut(rv, "#")
+		elsewhere := pointer && explodedRefValue[0] != "" &&
+			location != specPath && location != idx.GetSpecAbsolutePath()
 		_, friendly := utils.ConvertComponentIdIntoFriendlyPathSearch(rv)
-		if friendly != "" {
+		if friendly != "" && !elsewhere {
 			nodes, err := utils.FindNodesWithoutDeserializingWithOptions(idx.GetRootNode(), friendly, utils.JSONPathLookupOptions{})
 			if err == nil && len(nodes) > 0 {
 				return utils.NodeAlias(nodes[0]), idx, nil, ctx
-- 
2.43.0


From ce86c743ea54bb435a97858b01ccb0e60c8c4791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 08/54] fix: wait for a file to be indexed before looking
 references up in it

A file opened by two goroutines at once was handed to the second one without
an index, and that reference was cached; building the model then panicked.
---
 index/search_index.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/search_index.go b/index/search_index.go
index adedf1c..1deaa99 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -283,6 +283,9 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 		// extract the index from the rolodex file.
 		if rFile != nil {
 
+			// the file may just have been opened by someone else, who is still indexing it.
+			index.rolodex.waitForIndexing(ctx, rFile)
+
 			n := rFile.GetFullPath()
 			refParsed := ref
 
-- 
2.43.0


From 124760dc60058d31fbd7df08b098013daf380ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 09/54] fix: tell everyone who waits for a remote file that it
 could not be fetched

Concurrent opens of a URL share one request. When it failed, everyone but
the caller who made it got a nil file and no error.
---
 index/rolodex_remote_loader.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 1df459d..552ffdb 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -595,7 +595,7 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 	response, clientErr := i.RemoteHandlerFunc(remoteParsedURL.String())
 	if clientErr != nil {
 		i.appendRemoteError(clientErr)
-		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, clientErr)
 		if response != nil && response.Body != nil {
 			_ = response.Body.Close()
 		}
@@ -607,8 +607,9 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 		return nil, clientErr
 	}
 	if response == nil {
-		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
-		return nil, fmt.Errorf("empty response from remote URL: %s", remoteParsedURL.String())
+		emptyErr := fmt.Errorf("empty response from remote URL: %s", remoteParsedURL.String())
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, emptyErr)
+		return nil, emptyErr
 	}
 	defer func() {
 		if response.Body != nil {
@@ -741,6 +742,10 @@ func (i *RemoteFS) waitForRemoteProcessing(wait *waiterRemote, remoteURL string,
 		i.logger.Debug("[rolodex remote loader]: waiting done, remote completed, returning file", "file",
 			remoteParsedURL.String(), "listeners", wait.listeners)
 	}
+	if wait.file == nil {
+		// a nil *RemoteFile in the interface would not be nil.
+		return nil, wait.error
+	}
 	return wait.file, wait.error
 }
 
-- 
2.43.0


From 23c5bcbf2eb7a784564e5df25b0c264108788771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 10/54] fix: survive empty responses and close every body when
 detecting a remote file's type

---
 index/rolodex_remote_loader.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 552ffdb..98439b5 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -148,6 +148,12 @@ func fetchWithRetry(url string, handler utils.RemoteURLHandler, maxSize int, log
 		}
 
 		resp, err := handler(url)
+		if resp != nil && resp.Body != nil {
+			defer resp.Body.Close()
+		}
+		if err == nil && resp == nil {
+			err = errors.New("empty response")
+		}
 		if err != nil {
 			lastErr = err
 			if attempt < maxRetries {
@@ -156,7 +162,6 @@ func fetchWithRetry(url string, handler utils.RemoteURLHandler, maxSize int, log
 			}
 			break
 		}
-		defer resp.Body.Close()
 
 		if resp.StatusCode != http.StatusOK {
 			lastErr = fmt.Errorf("HTTP %d: %s", resp.StatusCode, resp.Status)
-- 
2.43.0


From b9a37baf4d191bc152bb9edf52efeba546516881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:30 +0000
Subject: [PATCH 11/54] fix: do not fail the opening of a remote file for
 errors of other files

The errors of all files opened so far were returned for a file that had been
fetched and indexed, so its references did not resolve (and the list was
read without its lock).
---
 index/rolodex_remote_loader.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index 98439b5..e93fc6b 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -647,9 +647,12 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 	i.Files.Store(cacheKey, remoteFile)
 	i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, remoteFile, nil)
 
-	i.indexRemoteFile(ctx, remoteFile, copiedCfg, remoteParsedURL, remoteParsedURLOriginal)
+	if idxError := i.indexRemoteFile(ctx, remoteFile, copiedCfg, remoteParsedURL, remoteParsedURLOriginal); idxError != nil {
+		return remoteFile, errors.Join(i.GetErrors()...)
+	}
 
-	return remoteFile, errors.Join(i.remoteErrors...)
+	// errors of other files (or of earlier attempts to fetch this one) are not errors of this file.
+	return remoteFile, nil
 }
 
 func (i *RemoteFS) normalizeRemoteURL(remoteParsedURL *url.URL) {
@@ -803,7 +806,7 @@ func (i *RemoteFS) indexRemoteFile(
 	remoteFile *RemoteFile,
 	copiedCfg *SpecIndexConfig,
 	remoteParsedURL, remoteParsedURLOriginal *url.URL,
-) {
+) error {
 	indexingCtx := AddIndexingFile(ctx, remoteParsedURL.Path)
 	indexingCtx = AddIndexingFile(indexingCtx, remoteParsedURL.String())
 	indexingCtx = AddIndexingFile(indexingCtx, remoteParsedURLOriginal.String())
@@ -812,7 +815,7 @@ func (i *RemoteFS) indexRemoteFile(
 	if idxError != nil && idx == nil {
 		i.appendRemoteError(idxError)
 		remoteFile.signalIndexingComplete()
-		return
+		return idxError
 	}
 	NewResolver(idx)
 	idx.buildIndexWithContext(indexingCtx)
@@ -820,6 +823,7 @@ func (i *RemoteFS) indexRemoteFile(
 		i.rolodex.AddExternalIndex(idx, remoteParsedURL.String())
 	}
 	remoteFile.signalIndexingComplete()
+	return nil
 }
 
 // Open opens a file, returning it or an error. If the file is not found, the error is of type *PathError.
-- 
2.43.0


From 2e32d2aeeacb9fa51252cd05f9c12e86e0cae0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 12/54] fix: fetch a remote file once when it is opened
 concurrently

---
 index/rolodex_remote_loader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index e93fc6b..bd2fd1a 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -590,6 +590,12 @@ func (i *RemoteFS) OpenWithContext(ctx context.Context, remoteURL string) (fs.Fi
 		return inFlightFile, inFlightErr
 	}
 
+	// the file may have been fetched between the lookup above and storing the waiter: it must only be fetched once.
+	if cached := i.loadCachedRemoteFile(cacheKey, remoteParsedURL.Path); cached != nil {
+		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, cached, nil)
+		return cached, nil
+	}
+
 	if remoteParsedURL.Scheme == "" {
 		i.releaseRemoteProcessingWaiter(processingWaiter, cacheKey, nil, nil)
 		return nil, nil // not a remote file — scheme is empty, skip processing.
-- 
2.43.0


From 6717c5b937f714b62b272e208f971ad686fb1e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 13/54] fix: resolve file references of the root document
 against the BaseURL when following them

---
 index/resolver_relatives.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 4fee92f..8f1678c 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -206,6 +206,20 @@ func isInsidePropertiesNode(parent *yaml.Node) bool {
 	return false
 }
 
+// resolveAgainstBaseURL resolves a relative file reference made by the root document against the configured
+// BaseURL, the same way it's resolved when the reference is extracted. The root document has no location of its
+// own when a BaseURL is in use. An empty string is returned when the BaseURL does not apply.
+func (resolver *Resolver) resolveAgainstBaseURL(baseLocation, file string) string {
+	if baseLocation != "" || filepath.IsAbs(file) || resolver.specIndex == nil ||
+		resolver.specIndex.config == nil || resolver.specIndex.config.BaseURL == nil {
+		return ""
+	}
+	u := *resolver.specIndex.config.BaseURL
+	u.Path = utils.ReplaceWindowsDriveWithLinuxPath(
+		utils.CheckPathOverlap(u.Path, file, string(filepath.Separator)))
+	return u.String()
+}
+
 func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value, currentBase string) (string, string) {
 	definition := value
 	fullDef := ""
@@ -229,8 +243,12 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 			} else {
 				// Relative file path with a local parent — resolve against the parent's directory.
 				fileDef := strings.Split(ref.FullDefinition, "#/")
-				abs := resolver.resolveLocalRefPath(filepath.Dir(fileDef[0]), exp[0])
-				fullDef = fmt.Sprintf("%s#/%s", abs, exp[1])
+				if remote := resolver.resolveAgainstBaseURL(fileDef[0], exp[0]); remote != "" {
+					fullDef = fmt.Sprintf("%s#/%s", remote, exp[1])
+				} else {
+					abs := resolver.resolveLocalRefPath(filepath.Dir(fileDef[0]), exp[0])
+					fullDef = fmt.Sprintf("%s#/%s", abs, exp[1])
+				}
 			}
 		} else {
 			// Fragment-only ref (e.g. "#/definitions/Bar") — resolve against the parent's base location.
@@ -262,6 +280,8 @@ func (resolver *Resolver) buildRelativeLookupDefinitions(ref *Reference, value,
 			absPath, _ := filepath.Abs(utils.CheckPathOverlap(path.Dir(u.Path), exp[0], string(filepath.Separator)))
 			u.Path = utils.ReplaceWindowsDriveWithLinuxPath(absPath)
 			fullDef = u.String()
+		} else if remote := resolver.resolveAgainstBaseURL(fileDef[0], exp[0]); remote != "" {
+			fullDef = remote
 		} else {
 			fullDef = resolver.resolveLocalRefPath(filepath.Dir(fileDef[0]), exp[0])
 		}
-- 
2.43.0


From e1b415bb1097aa0388ed31fcdf5fd23b1900a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 14/54] fix: look an object's fields up in its own keys, not in
 a nested object's

---
 datamodel/low/base/example.go         |  6 +++---
 datamodel/low/base/schema.go          |  2 +-
 datamodel/low/extraction_functions.go | 13 +++++++++++--
 datamodel/low/v2/header.go            |  2 +-
 datamodel/low/v2/items.go             |  2 +-
 datamodel/low/v2/parameter.go         |  2 +-
 6 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/datamodel/low/base/example.go b/datamodel/low/base/example.go
index f6b8107..4d276f4 100644
--- a/datamodel/low/base/example.go
+++ b/datamodel/low/base/example.go
@@ -108,9 +108,9 @@ func (ex *Example) Build(ctx context.Context, keyNode, root *yaml.Node, idx *ind
 	ex.context = ctx
 	ex.index = idx
 
-	_, ln, vn := utils.FindKeyNodeFull(ValueLabel, root.Content)
-	_, dataLn, dataVn := utils.FindKeyNodeFull(DataValueLabel, root.Content)
-	_, serializedLn, serializedVn := utils.FindKeyNodeFull(SerializedValueLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(ValueLabel, root.Content)
+	_, dataLn, dataVn := utils.FindKeyNodeFullTop(DataValueLabel, root.Content)
+	_, serializedLn, serializedVn := utils.FindKeyNodeFullTop(SerializedValueLabel, root.Content)
 
 	if vn != nil {
 		ex.Value = low.NodeReference[*yaml.Node]{
diff --git a/datamodel/low/base/schema.go b/datamodel/low/base/schema.go
index 4b18f66..acf660d 100644
--- a/datamodel/low/base/schema.go
+++ b/datamodel/low/base/schema.go
@@ -159,7 +159,7 @@ func ExtractSchema(ctx context.Context, root *yaml.Node, idx *index.SpecIndex) (
 		return extractSchemaProxy(ctx, idx, refLabel, root, errStr)
 	}
 
-	_, schLabel, schNode := utils.FindKeyNodeFull(SchemaLabel, root.Content)
+	_, schLabel, schNode := utils.FindKeyNodeFullTop(SchemaLabel, root.Content)
 	if schNode != nil {
 		return extractSchemaProxy(ctx, idx, schLabel, schNode, errStr)
 	}
diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 6d6c2b3..9f49f96 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -486,7 +486,7 @@ func ExtractObject[T Buildable[N], N any](ctx context.Context, label string, roo
 			}
 		}
 	} else {
-		_, ln, vn = findExtractLabelNode(label, root)
+		_, ln, vn = findOwnLabelNode(label, root)
 		if vn != nil {
 			if h, _, rVal := utils.IsNodeRefValue(vn); h {
 				ref, fIdx, lerr, nCtx := LocateRefNodeWithContext(ctx, vn, idx)
@@ -891,6 +891,15 @@ func findExtractLabelNode(label string, root *yaml.Node) (keyNode *yaml.Node, la
 	return utils.FindKeyNodeFull(label, root.Content)
 }
 
+// findOwnLabelNode looks a label up in the keys of root itself: a mapping that does not have the label is not
+// given the one that belongs to an object nested inside it.
+func findOwnLabelNode(label string, root *yaml.Node) (keyNode *yaml.Node, labelNode *yaml.Node, valueNode *yaml.Node) {
+	if aliased := utils.NodeAlias(root); utils.IsNodeMap(aliased) {
+		return utils.FindKeyNodeFullTop(label, aliased.Content)
+	}
+	return findExtractLabelNode(label, root)
+}
+
 func collectMapBuildInputs(valueNode *yaml.Node, extensions bool) []buildInput {
 	if valueNode == nil || len(valueNode.Content) == 0 {
 		return nil
@@ -955,7 +964,7 @@ func ExtractMapExtensions[PT Buildable[N], N any](
 				root.Content[1].Value)
 		}
 	} else {
-		_, labelNode, valueNode = findExtractLabelNode(label, root)
+		_, labelNode, valueNode = findOwnLabelNode(label, root)
 		valueNode = utils.NodeAlias(valueNode)
 		if valueNode != nil {
 			if h, _, _ := utils.IsNodeRefValue(valueNode); h {
diff --git a/datamodel/low/v2/header.go b/datamodel/low/v2/header.go
index 890d6dd..6910c5d 100644
--- a/datamodel/low/v2/header.go
+++ b/datamodel/low/v2/header.go
@@ -62,7 +62,7 @@ func (h *Header) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecI
 	}
 	h.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		h.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/items.go b/datamodel/low/v2/items.go
index 279fc85..c84c410 100644
--- a/datamodel/low/v2/items.go
+++ b/datamodel/low/v2/items.go
@@ -127,7 +127,7 @@ func (i *Items) Build(ctx context.Context, _, root *yaml.Node, idx *index.SpecIn
 	}
 	i.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		i.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
diff --git a/datamodel/low/v2/parameter.go b/datamodel/low/v2/parameter.go
index e38aaf6..43bef32 100644
--- a/datamodel/low/v2/parameter.go
+++ b/datamodel/low/v2/parameter.go
@@ -112,7 +112,7 @@ func (p *Parameter) Build(ctx context.Context, _, root *yaml.Node, idx *index.Sp
 	}
 	p.Items = items
 
-	_, ln, vn := utils.FindKeyNodeFull(DefaultLabel, root.Content)
+	_, ln, vn := utils.FindKeyNodeFullTop(DefaultLabel, root.Content)
 	if vn != nil {
 		p.Default = low.NodeReference[*yaml.Node]{
 			Value:     vn,
-- 
2.43.0


From 433c4264b577608a73c2c969b3f1931303817862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 15/54] fix: render a dynamic value the way it is asked, not
 the way it was rendered before

---
 datamodel/high/base/dynamic_value.go | 36 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/datamodel/high/base/dynamic_value.go b/datamodel/high/base/dynamic_value.go
index 40473b6..ceef1ab 100644
--- a/datamodel/high/base/dynamic_value.go
+++ b/datamodel/high/base/dynamic_value.go
@@ -22,11 +22,9 @@ import (
 //
 // The N value indicates which value is set (0 = A, 1 == B), preventing the need to check both values.
 type DynamicValue[A any, B any] struct {
-	N         int // 0 == A, 1 == B
-	A         A
-	B         B
-	inline    bool
-	renderCtx any // Context for inline rendering (typed as any to avoid import cycles)
+	N int // 0 == A, 1 == B
+	A A
+	B B
 }
 
 // IsA will return true if the 'A' or left value is set.
@@ -40,17 +38,25 @@ func (d *DynamicValue[A, B]) IsB() bool {
 }
 
 func (d *DynamicValue[A, B]) Render() ([]byte, error) {
-	d.inline = false
 	return yaml.Marshal(d)
 }
 
 func (d *DynamicValue[A, B]) RenderInline() ([]byte, error) {
-	d.inline = true
-	return yaml.Marshal(d)
+	v, err := d.MarshalYAMLInline()
+	if err != nil {
+		return nil, err
+	}
+	return yaml.Marshal(v)
 }
 
 // MarshalYAML will create a ready to render YAML representation of the DynamicValue object.
 func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
+	return d.marshal(false, nil)
+}
+
+// marshal renders the value, either with references kept, or inlined through the (optional) context. How a value is
+// rendered is not kept on the value: a model may be rendered in several ways, also at the same time.
+func (d *DynamicValue[A, B]) marshal(inline bool, renderCtx any) (interface{}, error) {
 	// this is a custom renderer, we can't use the NodeBuilder out of the gate.
 	var n yaml.Node
 	var err error
@@ -65,11 +71,11 @@ func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
 	to := reflect.TypeOf(value)
 	switch to.Kind() {
 	case reflect.Ptr:
-		if d.inline {
+		if inline {
 			// prefer context-aware method when context is available
-			if d.renderCtx != nil {
+			if renderCtx != nil {
 				if r, ok := value.(high.RenderableInlineWithContext); ok {
-					return r.MarshalYAMLInlineWithContext(d.renderCtx)
+					return r.MarshalYAMLInlineWithContext(renderCtx)
 				}
 			}
 			// fall back to context-less method
@@ -107,16 +113,12 @@ func (d *DynamicValue[A, B]) MarshalYAML() (interface{}, error) {
 // MarshalYAMLInline will create a ready to render YAML representation of the DynamicValue object. The
 // references will be inlined instead of kept as references.
 func (d *DynamicValue[A, B]) MarshalYAMLInline() (interface{}, error) {
-	d.inline = true
-	d.renderCtx = nil
-	return d.MarshalYAML()
+	return d.marshal(true, nil)
 }
 
 // MarshalYAMLInlineWithContext will create a ready to render YAML representation of the DynamicValue object.
 // The references will be inlined and the provided context will be passed through to nested schemas.
 // The ctx parameter should be *InlineRenderContext but is typed as any to avoid import cycles.
 func (d *DynamicValue[A, B]) MarshalYAMLInlineWithContext(ctx any) (interface{}, error) {
-	d.inline = true
-	d.renderCtx = ctx
-	return d.MarshalYAML()
+	return d.marshal(true, ctx)
 }
-- 
2.43.0


From b5f9f3cd0efe711345a351dc51ece1e0f21c547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 16/54] fix: keep the nodes of a model out of the trees
 rendered from it

---
 datamodel/high/base/schema_proxy.go | 17 ++++++++++++++---
 datamodel/high/node_builder.go      | 14 +++++++++++---
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/datamodel/high/base/schema_proxy.go b/datamodel/high/base/schema_proxy.go
index 7098093..faf1143 100644
--- a/datamodel/high/base/schema_proxy.go
+++ b/datamodel/high/base/schema_proxy.go
@@ -815,7 +815,13 @@ func (sp *SchemaProxy) MarshalYAML() (interface{}, error) {
 	if sp.isRefWithSiblings() {
 		return sp.renderRefWithSiblings(), nil
 	}
-	return sp.GetReferenceNode(), nil
+	return sp.renderedReferenceNode(), nil
+}
+
+// renderedReferenceNode returns a copy of the authored reference node to place into a rendered tree: marshalling
+// that tree rewrites its nodes, and the authored node stays with the model.
+func (sp *SchemaProxy) renderedReferenceNode() *yaml.Node {
+	return utils.CloneYAMLNode(sp.GetReferenceNode())
 }
 
 func (sp *SchemaProxy) referenceYAMLNode() (*yaml.Node, error) {
@@ -1009,10 +1015,15 @@ func (sp *SchemaProxy) MarshalYAMLInline() (interface{}, error) {
 
 func (sp *SchemaProxy) marshalYAMLInlineInternal(ctx *InlineRenderContext) (interface{}, error) {
 	refNode := func() (*yaml.Node, error) {
-		return sp.referenceYAMLNode()
+		node, err := sp.referenceYAMLNode()
+		return utils.CloneYAMLNode(node), err
 	}
 	rewrittenRefNode := func() (*yaml.Node, bool, error) {
-		return sp.rewrittenReferenceNode(ctx)
+		node, rewritten, err := sp.rewrittenReferenceNode(ctx)
+		if !rewritten {
+			node = utils.CloneYAMLNode(node)
+		}
+		return node, rewritten, err
 	}
 
 	// check if this reference should be preserved (set via context by discriminator handling).
diff --git a/datamodel/high/node_builder.go b/datamodel/high/node_builder.go
index b282dc0..e68f0da 100644
--- a/datamodel/high/node_builder.go
+++ b/datamodel/high/node_builder.go
@@ -314,7 +314,8 @@ func (n *NodeBuilder) renderReference(fg low.IsReferenced) *yaml.Node {
 	if origNode == nil {
 		return utils.CreateRefNode(fg.GetReference())
 	}
-	return origNode
+	// marshalling the rendered tree rewrites its nodes, the model keeps its own.
+	return utils.CloneYAMLNode(origNode)
 }
 
 // Render will render the NodeBuilder back to a YAML node, iterating over every NodeEntry defined
@@ -349,14 +350,21 @@ func (n *NodeBuilder) Render() *yaml.Node {
 }
 
 // encodeSafeValue returns a value safe to pass to (*yaml.Node).Encode. When the
-// value is a *yaml.Node it returns a deep copy: Encode desolves the represented
+// value is a *yaml.Node (or a slice of them) it returns a deep copy: Encode desolves the represented
 // graph in place (Desolve rewrites Tag/Style), and the representer aliases input
 // nodes, so encoding a model-owned node would mutate it. With concurrent renders
 // (e.g. linters running rules in parallel) that mutation races with readers of
 // the same node. Encoding a copy keeps shared nodes immutable.
 func encodeSafeValue(value any) any {
-	if vn, ok := value.(*yaml.Node); ok {
+	switch vn := value.(type) {
+	case *yaml.Node:
 		return utils.CloneYAMLNode(vn)
+	case []*yaml.Node:
+		cloned := make([]*yaml.Node, len(vn))
+		for i := range vn {
+			cloned[i] = utils.CloneYAMLNode(vn[i])
+		}
+		return cloned
 	}
 	return value
 }
-- 
2.43.0


From 069e82d93f0405da58b3dccb2cc26473b4357e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 17/54] fix: do not recount (and collect again) an index that
 is already built

---
 index/spec_index_counts.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/index/spec_index_counts.go b/index/spec_index_counts.go
index 9466d84..69a6a4b 100644
--- a/index/spec_index_counts.go
+++ b/index/spec_index_counts.go
@@ -17,7 +17,7 @@ func (index *SpecIndex) GetPathCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.pathCount > 0 {
+	if index.built || index.pathCount > 0 {
 		return index.pathCount
 	}
 	pc := 0
@@ -65,7 +65,7 @@ func (index *SpecIndex) GetGlobalTagsCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.globalTagsCount > 0 {
+	if index.built || index.globalTagsCount > 0 {
 		return index.globalTagsCount
 	}
 	for i, n := range index.root.Content[0].Content {
@@ -183,7 +183,7 @@ func (index *SpecIndex) GetOperationTagsCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.operationTagsCount > 0 {
+	if index.built || index.operationTagsCount > 0 {
 		return index.operationTagsCount
 	}
 	seen := make(map[string]bool)
@@ -207,7 +207,7 @@ func (index *SpecIndex) GetTotalTagsCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.totalTagsCount > 0 {
+	if index.built || index.totalTagsCount > 0 {
 		return index.totalTagsCount
 	}
 	seen := make(map[string]bool)
@@ -237,7 +237,7 @@ func (index *SpecIndex) GetGlobalCallbacksCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.globalCallbacksCount > 0 {
+	if index.built || index.globalCallbacksCount > 0 {
 		return index.globalCallbacksCount
 	}
 	index.pathRefsLock.RLock()
@@ -255,7 +255,7 @@ func (index *SpecIndex) GetGlobalLinksCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.globalLinksCount > 0 {
+	if index.built || index.globalLinksCount > 0 {
 		return index.globalLinksCount
 	}
 	for path, p := range index.pathRefs {
@@ -333,7 +333,7 @@ func (index *SpecIndex) GetComponentSchemaCount() int {
 	if index.root == nil || len(index.root.Content) == 0 {
 		return -1
 	}
-	if index.schemaCount > 0 {
+	if index.built || index.schemaCount > 0 {
 		return index.schemaCount
 	}
 
@@ -469,7 +469,7 @@ func (index *SpecIndex) GetComponentParameterCount() int {
 	if index.root == nil {
 		return -1
 	}
-	if index.componentParamCount > 0 {
+	if index.built || index.componentParamCount > 0 {
 		return index.componentParamCount
 	}
 	for i, n := range index.root.Content[0].Content {
@@ -503,7 +503,7 @@ func (index *SpecIndex) GetOperationCount() int {
 	if index.root == nil || index.pathsNode == nil {
 		return -1
 	}
-	if index.operationCount > 0 {
+	if index.built || index.operationCount > 0 {
 		return index.operationCount
 	}
 	opCount := 0
@@ -564,7 +564,7 @@ func (index *SpecIndex) GetOperationsParameterCount() int {
 	if index.root == nil || index.pathsNode == nil {
 		return -1
 	}
-	if index.operationParamCount > 0 {
+	if index.built || index.operationParamCount > 0 {
 		return index.operationParamCount
 	}
 	for x, pathItemNode := range index.pathsNode.Content {
@@ -702,7 +702,7 @@ func (index *SpecIndex) GetOperationsParameterCount() int {
 
 // GetInlineDuplicateParamCount returns the number of inline parameters that have duplicate names.
 func (index *SpecIndex) GetInlineDuplicateParamCount() int {
-	if index.componentsInlineParamDuplicateCount > 0 {
+	if index.built || index.componentsInlineParamDuplicateCount > 0 {
 		return index.componentsInlineParamDuplicateCount
 	}
 	dCount := len(index.paramInlineDuplicateNames) - index.countUniqueInlineDuplicates()
-- 
2.43.0


From b4352c392ac5a0fc5803f4b4620a30a526550e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:25 +0000
Subject: [PATCH 18/54] fix: report a removed schema property as the original
 value when properties were also added

With more properties on the right than on the left, a removed property was
reported with its name as the new value and no original.
---
 what-changed/model/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 77a497b..ab60e16 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -747,7 +747,7 @@ func buildProperty(lProps, rProps []string, lEntities, rEntities map[string]*bas
 				go checkProperty(propName, lEntities[propName], rEntities[propName])
 			} else {
 				CreateChange(changes, ObjectRemoved, v3.PropertiesLabel,
-					nil, lKeyNodes[propName], BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
+					lKeyNodes[propName], nil, BreakingRemoved(CompSchema, PropProperties), lEntities[propName], nil)
 			}
 		}
 	}
-- 
2.43.0


From 3a539419ac576e4d2a130c8a84c46a78e2a0655e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 19/54] fix: list the changes of contentSchema and $vocabulary

The list of all changes of a schema left out what the total counts.
---
 what-changed/model/schema.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index ab60e16..65d5bc6 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -180,6 +180,10 @@ func (s *SchemaChanges) GetAllChanges() []*Change {
 			}
 		}
 	}
+	if s.ContentSchemaChanges != nil {
+		changes = append(changes, s.ContentSchemaChanges.GetAllChanges()...)
+	}
+	changes = append(changes, s.VocabularyChanges...)
 	if s.ExternalDocChanges != nil {
 		changes = append(changes, s.ExternalDocChanges.GetAllChanges()...)
 	}
-- 
2.43.0


From a180b52df45fed1fd3ebca79910f2af00cb8688d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:31 +0000
Subject: [PATCH 20/54] fix: do not write entry names into the documents being
 compared

A reported object took its name from the value of its node, which was written to
the node: entries that share a node (an alias) were all reported by one name.
---
 what-changed/model/comparison_functions.go | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 27c0558..63d91ff 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -670,6 +670,17 @@ func checkMapForChangesWithNilSupportInternal[T any, R any](expLeft, expRight *o
 	return expChanges
 }
 
+// nodeNamed returns the node to report for the map entry k. A node that has no value of its own is reported by the
+// name of its entry; it is copied to do so, because it belongs to the document and several entries can share it.
+func nodeNamed(node *yaml.Node, k string) *yaml.Node {
+	if node.Value != EMPTY_STR {
+		return node
+	}
+	named := *node
+	named.Value = k
+	return &named
+}
+
 // checkMapForChangesInternal is the core implementation that checks a left and right low level map for any
 // additions, subtractions or modifications to values. The breakingAdded and breakingRemoved parameters control
 // whether additions and removals are marked as breaking changes.
@@ -704,11 +715,9 @@ func checkMapForChangesInternal[T any, R any](expLeft, expRight *orderedmap.Map[
 		rhash := g[k]
 		if rhash == EMPTY_STR {
 			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
+			valueNode := nodeNamed(p[k].GetValueNode(), k)
 			CreateChange(changes, ObjectRemoved, label,
-				p[k].GetValueNode(), nil, breakingRemoved,
+				valueNode, nil, breakingRemoved,
 				p[k].GetValue(), nil)
 			chLock.Unlock()
 			doneChan <- struct{}{}
@@ -738,11 +747,9 @@ func checkMapForChangesInternal[T any, R any](expLeft, expRight *orderedmap.Map[
 		lhash := f[k]
 		if lhash == EMPTY_STR {
 			chLock.Lock()
-			if p[k].GetValueNode().Value == EMPTY_STR {
-				p[k].GetValueNode().Value = k
-			}
+			valueNode := nodeNamed(p[k].GetValueNode(), k)
 			CreateChange(changes, ObjectAdded, label,
-				nil, p[k].GetValueNode(), breakingAdded,
+				nil, valueNode, breakingAdded,
 				nil, p[k].GetValue())
 			chLock.Unlock()
 		}
-- 
2.43.0


From 42563833a4ff2b35a617cc2dfe5f9b4b1f59f93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:48 +0000
Subject: [PATCH 21/54] fix: a null inside a response or request body made
 Arazzo expressions and JSONPath criteria panic

---
 arazzo/yamlutil.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arazzo/yamlutil.go b/arazzo/yamlutil.go
index 853cf13..3bdc538 100644
--- a/arazzo/yamlutil.go
+++ b/arazzo/yamlutil.go
@@ -30,7 +30,7 @@ func directYAMLNode(value any) (*yaml.Node, error) {
 		node := &yaml.Node{Kind: yaml.MappingNode, Tag: "!!map"}
 		for k, v := range typed {
 			keyNode := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: k}
-			valueNode, err := directYAMLNode(v)
+			valueNode, err := childYAMLNode(v)
 			if err != nil {
 				return nil, err
 			}
@@ -42,7 +42,7 @@ func directYAMLNode(value any) (*yaml.Node, error) {
 		for k, v := range typed {
 			ks := sprintMapKey(k)
 			keyNode := &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!str", Value: ks}
-			valueNode, err := directYAMLNode(v)
+			valueNode, err := childYAMLNode(v)
 			if err != nil {
 				return nil, err
 			}
@@ -52,7 +52,7 @@ func directYAMLNode(value any) (*yaml.Node, error) {
 	case []any:
 		node := &yaml.Node{Kind: yaml.SequenceNode, Tag: "!!seq"}
 		for _, item := range typed {
-			itemNode, err := directYAMLNode(item)
+			itemNode, err := childYAMLNode(item)
 			if err != nil {
 				return nil, err
 			}
@@ -89,6 +89,15 @@ func directYAMLNode(value any) (*yaml.Node, error) {
 	}
 }
 
+// childYAMLNode converts a value held by a container. A null has to become a node of its own here:
+// a nil node in the content is dereferenced by whatever walks the tree.
+func childYAMLNode(value any) (*yaml.Node, error) {
+	if value == nil {
+		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null", Value: "null"}, nil
+	}
+	return directYAMLNode(value)
+}
+
 // sprintMapKey converts a map key to a string, fast-pathing the common string case.
 func sprintMapKey(k any) string {
 	if s, ok := k.(string); ok {
-- 
2.43.0


From 1b82fa91775e6eb3dc88273ddf8a4040e0aaa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:18 +0000
Subject: [PATCH 22/54] fix: $url and $method of a previous Arazzo step were
 visible in steps without a response

---
 arazzo/step.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arazzo/step.go b/arazzo/step.go
index fad8b3c..edb999f 100644
--- a/arazzo/step.go
+++ b/arazzo/step.go
@@ -22,6 +22,8 @@ func (e *Engine) executeStep(ctx context.Context, step *high.Step, wf *high.Work
 		Success: true,
 		Outputs: make(map[string]any),
 	}
+	exprCtx.URL = ""
+	exprCtx.Method = ""
 	exprCtx.StatusCode = 0
 	exprCtx.RequestHeaders = nil
 	exprCtx.RequestQuery = nil
-- 
2.43.0


From e984656a8ea1e6b72fcd2a2b5ea521e24bcfe326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:08 +0000
Subject: [PATCH 23/54] fix: Arazzo payload replacements changed the caller's
 inputs and earlier outputs, and could build a cyclic body

---
 arazzo/step.go | 49 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/arazzo/step.go b/arazzo/step.go
index edb999f..65f0907 100644
--- a/arazzo/step.go
+++ b/arazzo/step.go
@@ -315,7 +315,13 @@ func (e *Engine) resolveExpressionValues(value any, exprCtx *expression.Context)
 }
 
 func (e *Engine) applyPayloadReplacements(payload any, replacements []*high.PayloadReplacement, exprCtx *expression.Context, stepId string) (any, error) {
-	root, ok := payload.(map[string]any)
+	// The payload may be a value the caller's inputs, an earlier step or another workflow still hold,
+	// so the replacements are made in a copy.
+	owned, err := copyPayloadValue(payload)
+	if err != nil {
+		return nil, fmt.Errorf("failed to read requestBody for step %q: %w", stepId, err)
+	}
+	root, ok := owned.(map[string]any)
 	if !ok {
 		return nil, fmt.Errorf("cannot apply payload replacements to non-object body in step %q", stepId)
 	}
@@ -327,6 +333,9 @@ func (e *Engine) applyPayloadReplacements(payload any, replacements []*high.Payl
 		if err != nil {
 			return nil, fmt.Errorf("failed to evaluate replacement value for target %q in step %q: %w", rep.Target, stepId, err)
 		}
+		if value, err = copyPayloadValue(value); err != nil {
+			return nil, fmt.Errorf("failed to evaluate replacement value for target %q in step %q: %w", rep.Target, stepId, err)
+		}
 		if err := setJSONPointerValue(root, rep.Target, value); err != nil {
 			return nil, fmt.Errorf("failed to apply replacement at %q in step %q: %w", rep.Target, stepId, err)
 		}
@@ -334,6 +343,44 @@ func (e *Engine) applyPayloadReplacements(payload any, replacements []*high.Payl
 	return root, nil
 }
 
+// copyPayloadValue returns a copy of a payload value that shares no container with it. A node (which is
+// what an expression selects from a body) is decoded, so that it can be replaced into like any other value.
+func copyPayloadValue(value any) (any, error) {
+	switch typed := value.(type) {
+	case map[string]any:
+		items := make(map[string]any, len(typed))
+		for k, v := range typed {
+			item, err := copyPayloadValue(v)
+			if err != nil {
+				return nil, err
+			}
+			items[k] = item
+		}
+		return items, nil
+	case []any:
+		items := make([]any, len(typed))
+		for i, v := range typed {
+			item, err := copyPayloadValue(v)
+			if err != nil {
+				return nil, err
+			}
+			items[i] = item
+		}
+		return items, nil
+	case *yaml.Node:
+		if typed == nil {
+			return nil, nil
+		}
+		var decoded any
+		if err := typed.Decode(&decoded); err != nil {
+			return nil, err
+		}
+		return decoded, nil
+	default:
+		return value, nil
+	}
+}
+
 func setJSONPointerValue(root map[string]any, pointer string, value any) error {
 	if pointer == "" {
 		return fmt.Errorf("empty JSON pointer")
-- 
2.43.0


From aea2a929019318c425fc925a4ec012aa99692ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:52 +0000
Subject: [PATCH 24/54] fix: a plain text or scalar body read as a whole did
 not compare, match or embed as its value in Arazzo expressions

---
 arazzo/expression/evaluator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/arazzo/expression/evaluator.go b/arazzo/expression/evaluator.go
index 59bb004..c90d770 100644
--- a/arazzo/expression/evaluator.go
+++ b/arazzo/expression/evaluator.go
@@ -104,7 +104,7 @@ func Evaluate(expr Expression, ctx *Context) (any, error) {
 			return nil, fmt.Errorf("no request body available")
 		}
 		if expr.JSONPointer == "" {
-			return ctx.RequestBody, nil
+			return bodyValue(ctx.RequestBody), nil
 		}
 		return resolveJSONPointer(ctx.RequestBody, expr.JSONPointer)
 
@@ -129,7 +129,7 @@ func Evaluate(expr Expression, ctx *Context) (any, error) {
 			return nil, fmt.Errorf("no response body available")
 		}
 		if expr.JSONPointer == "" {
-			return ctx.ResponseBody, nil
+			return bodyValue(ctx.ResponseBody), nil
 		}
 		return resolveJSONPointer(ctx.ResponseBody, expr.JSONPointer)
 
@@ -435,6 +435,19 @@ func UnescapeJSONPointer(s string) string {
 	return s
 }
 
+// bodyValue is the value of a whole body: a scalar body (plain text, a bare number) is its value, so that
+// it can be compared, matched and embedded; an object or an array stays the node it is.
+func bodyValue(node *yaml.Node) any {
+	content := node
+	if content.Kind == yaml.DocumentNode && len(content.Content) > 0 {
+		content = content.Content[0]
+	}
+	if content.Kind == yaml.ScalarNode {
+		return yamlNodeToValue(content)
+	}
+	return node
+}
+
 // yamlNodeToValue converts a yaml.Node to a Go native value.
 func yamlNodeToValue(node *yaml.Node) any {
 	if node == nil {
-- 
2.43.0


From 7803be982819d51cd2a9c78a173caba991fe8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 25/54] fix: HTTP redirects led Arazzo sources past the allowed
 hosts and schemes

---
 arazzo/resolve.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/arazzo/resolve.go b/arazzo/resolve.go
index 576e6bd..a2ad6a4 100644
--- a/arazzo/resolve.go
+++ b/arazzo/resolve.go
@@ -255,7 +255,7 @@ func fetchHTTPSourceBytes(sourceURL string, config *ResolveConfig) ([]byte, erro
 		return nil, err
 	}
 
-	client := getResolveHTTPClient(config)
+	client := restrictRedirects(getResolveHTTPClient(config), config)
 	resp, err := client.Do(req)
 	if err != nil {
 		return nil, err
@@ -290,6 +290,25 @@ func getResolveHTTPClient(config *ResolveConfig) *http.Client {
 	return &http.Client{Timeout: timeout}
 }
 
+// restrictRedirects returns a copy of client that holds every redirect to the scheme and host
+// allowlists of config, before consulting the redirect policy of the client itself.
+func restrictRedirects(client *http.Client, config *ResolveConfig) *http.Client {
+	restricted := *client
+	restricted.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if err := validateSourceURL(req.URL, config); err != nil {
+			return err
+		}
+		if client.CheckRedirect != nil {
+			return client.CheckRedirect(req, via)
+		}
+		if len(via) >= 10 { // the default policy of net/http
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &restricted
+}
+
 func readFileWithLimit(path string, maxBytes int64) ([]byte, error) {
 	info, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From f05b624dc9d1c9636c14261dbce2207ffcbbc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 26/54] fix: the size limit of Arazzo sources did not hold for
 a file that grows while it is loaded

---
 arazzo/resolve.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/arazzo/resolve.go b/arazzo/resolve.go
index a2ad6a4..e4305f1 100644
--- a/arazzo/resolve.go
+++ b/arazzo/resolve.go
@@ -317,7 +317,22 @@ func readFileWithLimit(path string, maxBytes int64) ([]byte, error) {
 	if info.Size() > maxBytes {
 		return nil, fmt.Errorf("file exceeds max size of %d bytes", maxBytes)
 	}
-	return os.ReadFile(path)
+	file, err := os.Open(path)
+	if err != nil {
+		return nil, err
+	}
+	defer file.Close()
+
+	// The size reported above may be out of date (or absent, for special files), so the limit
+	// also applies to what is actually read.
+	data, err := io.ReadAll(io.LimitReader(file, maxBytes+1))
+	if err != nil {
+		return nil, err
+	}
+	if int64(len(data)) > maxBytes {
+		return nil, fmt.Errorf("file exceeds max size of %d bytes", maxBytes)
+	}
+	return data, nil
 }
 
 func resolveFilePath(path string, roots []string) (string, error) {
-- 
2.43.0


From e19bad9f3a7c46fbd57227006735cbb295d0e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:40 +0000
Subject: [PATCH 27/54] fix: resolving Arazzo sources wrote its defaults into
 the caller's configuration

---
 arazzo/resolve.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arazzo/resolve.go b/arazzo/resolve.go
index e4305f1..d81edd3 100644
--- a/arazzo/resolve.go
+++ b/arazzo/resolve.go
@@ -66,7 +66,9 @@ func ResolveSources(doc *high.Arazzo, config *ResolveConfig) ([]*ResolvedSource,
 		config = &ResolveConfig{}
 	}
 
-	// Apply defaults
+	// Apply defaults to a copy, so that a caller can share one configuration between resolutions.
+	settings := *config
+	config = &settings
 	if config.Timeout == 0 {
 		config.Timeout = 30 * time.Second
 	}
-- 
2.43.0


From 4646a6dd03b9e6321085fd6f51ba72cf57b6da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 28/54] fix: a circular schema with a required property whose
 reference names nothing could panic

---
 index/resolver_circular.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index 836f4f4..d19ece1 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -99,6 +99,9 @@ func (resolver *Resolver) isInfiniteCircularDependency(
 	}
 	for refDefinition := range ref.RequiredRefProperties {
 		r, _ := resolver.specIndex.SearchIndexForReference(refDefinition)
+		if r == nil {
+			continue // a reference that names nothing is reported elsewhere.
+		}
 
 		// Direct loop back to the original starting reference — infinite cycle.
 		if initialRef != nil && initialRef.FullDefinition == r.FullDefinition {
-- 
2.43.0


From 32244c39e14e6b4e4e84439735d58f3dfe172f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:26 +0000
Subject: [PATCH 29/54] fix: the journey of a circular reference was
 overwritten by the references visited after it

---
 index/resolver_circular.go    | 10 +++++++++-
 index/resolver_polymorphic.go |  2 +-
 index/resolver_relatives.go   |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/index/resolver_circular.go b/index/resolver_circular.go
index d19ece1..541bbb0 100644
--- a/index/resolver_circular.go
+++ b/index/resolver_circular.go
@@ -30,7 +30,7 @@ func (resolver *Resolver) buildCircularReferenceResult(
 	journey []*Reference,
 	loopIndex int,
 ) *CircularReferenceResult {
-	loop := append(journey, foundDup)
+	loop := closeJourney(journey, foundDup)
 	visitedDefinitions := make(map[string]bool)
 	isInfiniteLoop, _ := resolver.isInfiniteCircularDependency(foundDup, visitedDefinitions, nil)
 
@@ -45,6 +45,14 @@ func (resolver *Resolver) buildCircularReferenceResult(
 	}
 }
 
+// closeJourney returns a copy of journey that ends with the loop point. The journey itself is shared with, and
+// overwritten by, the sibling references that are visited next.
+func closeJourney(journey []*Reference, loopPoint *Reference) []*Reference {
+	loop := make([]*Reference, 0, len(journey)+1)
+	loop = append(loop, journey...)
+	return append(loop, loopPoint)
+}
+
 func (resolver *Resolver) recordCircularReferenceResult(circRef *CircularReferenceResult) {
 	if circRef == nil {
 		return
diff --git a/index/resolver_polymorphic.go b/index/resolver_polymorphic.go
index 530d836..7fed0bf 100644
--- a/index/resolver_polymorphic.go
+++ b/index/resolver_polymorphic.go
@@ -73,7 +73,7 @@ func (resolver *Resolver) visitPolymorphicReference(
 		return
 	}
 
-	loop := append(state.journey, mappedRefs)
+	loop := closeJourney(state.journey, mappedRefs)
 	circRef := &CircularReferenceResult{
 		ParentNode:          parentNode,
 		Journey:             loop,
diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 8f1678c..5a25cfb 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -88,7 +88,7 @@ func (resolver *Resolver) handleRelativeDepthLimit(ref *Reference, state relativ
 			"reference", def)
 	}
 
-	loop := append(state.journey, ref)
+	loop := closeJourney(state.journey, ref)
 	circRef := &CircularReferenceResult{
 		Journey:        loop,
 		Start:          ref,
-- 
2.43.0


From 26fd78df3c684979d0dd9da0da142f2c568a6cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 30/54] fix: the order of safe and ignored circular references
 was random

---
 index/rolodex.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/index/rolodex.go b/index/rolodex.go
index 0078788..95a6850 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -180,20 +180,24 @@ func (r *Rolodex) GetIgnoredCircularReferences() []*CircularReferenceResult {
 	if len(r.ignoredCircularReferences) == 0 {
 		return nil
 	}
-	debounced := make(map[string]*CircularReferenceResult)
-	for _, c := range r.ignoredCircularReferences {
-		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
-		}
-	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
+	debouncedResults := debounceCircularReferences(r.ignoredCircularReferences)
 	r.debouncedIgnoredCircRefs = debouncedResults
 	return debouncedResults
 }
 
+// debounceCircularReferences returns the first result of each loop point, in the order they were found.
+func debounceCircularReferences(refs []*CircularReferenceResult) []*CircularReferenceResult {
+	seen := make(map[string]bool, len(refs))
+	debounced := make([]*CircularReferenceResult, 0, len(refs))
+	for _, c := range refs {
+		if !seen[c.LoopPoint.FullDefinition] {
+			seen[c.LoopPoint.FullDefinition] = true
+			debounced = append(debounced, c)
+		}
+	}
+	return debounced
+}
+
 // GetSafeCircularReferences returns a list of circular references that were found to be safe during the indexing process.
 // These can be an array or polymorphic references. Will return an empty slice if no safe circular references are found.
 func (r *Rolodex) GetSafeCircularReferences() []*CircularReferenceResult {
@@ -224,16 +228,7 @@ func (r *Rolodex) GetSafeCircularReferences() []*CircularReferenceResult {
 		}
 	}
 
-	debounced := make(map[string]*CircularReferenceResult)
-	for _, c := range r.safeCircularReferences {
-		if _, ok := debounced[c.LoopPoint.FullDefinition]; !ok {
-			debounced[c.LoopPoint.FullDefinition] = c
-		}
-	}
-	debouncedResults := make([]*CircularReferenceResult, 0, len(debounced))
-	for _, v := range debounced {
-		debouncedResults = append(debouncedResults, v)
-	}
+	debouncedResults := debounceCircularReferences(r.safeCircularReferences)
 	r.debouncedSafeCircRefs = debouncedResults
 	return debouncedResults
 }
-- 
2.43.0


From 4a8411173a6a8f2a9d5d03018ac008d2bb450681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:09 +0000
Subject: [PATCH 31/54] fix: the order of a rolodex's indexes depended on which
 file happened to load first

---
 index/rolodex.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/index/rolodex.go b/index/rolodex.go
index 95a6850..9f4831a 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -300,7 +301,12 @@ func (r *Rolodex) AddExternalIndex(idx *SpecIndex, location string) {
 		}
 	}
 
-	r.indexes = append(r.indexes, idx)
+	// files are loaded in any order, so keep the indexes in the order of their locations. A new slice is made because
+	// the current one may be in use by a caller of GetIndexes.
+	pos := sort.Search(len(r.indexes), func(i int) bool {
+		return r.indexes[i].specAbsolutePath > idx.specAbsolutePath
+	})
+	r.indexes = slices.Insert(slices.Clone(r.indexes), pos, idx)
 	if r.indexMap[location] == nil {
 		r.indexMap[location] = idx
 	}
-- 
2.43.0


From 1cee6ea89a92a8ea30d843af012169277e5f02e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:33 +0000
Subject: [PATCH 32/54] fix: the size of a rolodex without files could not be
 described

---
 index/rolodex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/index/rolodex.go b/index/rolodex.go
index 9f4831a..34a6ca8 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -933,6 +933,9 @@ func Round(val float64, roundOn float64, places int) (newVal float64) {
 }
 
 func HumanFileSize(size float64) string {
+	if size < 1 {
+		return "0 " + suffixes[0]
+	}
 	base := math.Log(size) / math.Log(1024)
 	getSize := Round(math.Pow(1024, base-math.Floor(base)), .5, 2)
 	getSuffix := suffixes[int(math.Floor(base))]
-- 
2.43.0


From 36fa22c79f3d8289d12719f15cb3d27a35919b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 33/54] fix: listing the files of a local or remote filesystem
 wrote to it while others were reading

The list was kept in a field nobody reads, concurrent readers raced on it.
---
 index/rolodex_file_loader.go   | 2 --
 index/rolodex_remote_loader.go | 2 --
 2 files changed, 4 deletions(-)

diff --git a/index/rolodex_file_loader.go b/index/rolodex_file_loader.go
index fc4ddde..3a04f51 100644
--- a/index/rolodex_file_loader.go
+++ b/index/rolodex_file_loader.go
@@ -35,7 +35,6 @@ type LocalFS struct {
 	entryPointDirectory string
 	baseDirectory       string
 	Files               sync.Map
-	extractedFiles      map[string]RolodexFile
 	logger              *slog.Logger
 	readingErrors       []error
 	rolodex             *Rolodex
@@ -49,7 +48,6 @@ func (l *LocalFS) GetFiles() map[string]RolodexFile {
 		files[key.(string)] = value.(*LocalFile)
 		return true
 	})
-	l.extractedFiles = files
 	return files
 }
 
diff --git a/index/rolodex_remote_loader.go b/index/rolodex_remote_loader.go
index bd2fd1a..da524ad 100644
--- a/index/rolodex_remote_loader.go
+++ b/index/rolodex_remote_loader.go
@@ -261,7 +261,6 @@ type RemoteFS struct {
 	FetchChannel      chan *RemoteFile
 	remoteErrors      []error
 	logger            *slog.Logger
-	extractedFiles    map[string]RolodexFile
 	rolodex           *Rolodex
 	errMutex          sync.Mutex
 }
@@ -526,7 +525,6 @@ func (i *RemoteFS) GetFiles() map[string]RolodexFile {
 		files[key.(string)] = value.(*RemoteFile)
 		return true
 	})
-	i.extractedFiles = files
 	return files
 }
 
-- 
2.43.0


From 754e5f7a02ce03f71bbf89f441c904c90f23841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 34/54] fix: readers of a rolodex appended to the slice of
 indexes they all share

---
 datamodel/low/extraction_functions.go | 3 ++-
 index/rolodex.go                      | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index 9f49f96..fe13866 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -18,6 +18,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -177,7 +178,7 @@ func LocateRefNodeWithContext(ctx context.Context, root *yaml.Node, idx *index.S
 					if foundIndex != nil && foundRef.RemoteLocation != "" &&
 						foundIndex.GetSpecAbsolutePath() != foundRef.RemoteLocation {
 						if rolo := foundIndex.GetRolodex(); rolo != nil {
-							for _, candidateIdx := range append(rolo.GetIndexes(), rolo.GetRootIndex()) {
+							for _, candidateIdx := range append(slices.Clone(rolo.GetIndexes()), rolo.GetRootIndex()) {
 								if candidateIdx == nil {
 									continue
 								}
diff --git a/index/rolodex.go b/index/rolodex.go
index 34a6ca8..4f593a3 100644
--- a/index/rolodex.go
+++ b/index/rolodex.go
@@ -216,7 +216,7 @@ func (r *Rolodex) GetSafeCircularReferences() []*CircularReferenceResult {
 	// results from the resolvers.
 	if !r.circChecked {
 		var extracted []*CircularReferenceResult
-		for _, idx := range append(r.GetIndexes(), r.GetRootIndex()) {
+		for _, idx := range append(slices.Clone(r.GetIndexes()), r.GetRootIndex()) {
 			if idx != nil {
 				res := idx.resolver
 				if res != nil {
@@ -653,7 +653,7 @@ func (r *Rolodex) BuildIndexes() {
 // GetAllReferences  returns all references found in the root and all other indices
 func (r *Rolodex) GetAllReferences() map[string]*Reference {
 	allRefs := make(map[string]*Reference)
-	for _, idx := range append(r.GetIndexes(), r.GetRootIndex()) {
+	for _, idx := range append(slices.Clone(r.GetIndexes()), r.GetRootIndex()) {
 		if idx == nil {
 			continue
 		}
@@ -666,7 +666,7 @@ func (r *Rolodex) GetAllReferences() map[string]*Reference {
 // GetAllMappedReferences returns all mapped references found in the root and all other indices
 func (r *Rolodex) GetAllMappedReferences() map[string]*Reference {
 	mappedRefs := make(map[string]*Reference)
-	for _, idx := range append(r.GetIndexes(), r.GetRootIndex()) {
+	for _, idx := range append(slices.Clone(r.GetIndexes()), r.GetRootIndex()) {
 		if idx == nil {
 			continue
 		}
-- 
2.43.0


From 86b3427eff4054c917275daec6b9e8a77b03ad48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:24 +0000
Subject: [PATCH 35/54] fix: components were looked up in an index while it was
 still collecting them

The maps of components are written while an index is being built, files that refer to each other are indexed
concurrently and look components up in each other: a concurrent map read and write, which may end the process.
---
 index/find_component_direct.go | 23 +++++++++++++++--------
 index/utility_methods.go       | 16 ++++++++++++++++
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/index/find_component_direct.go b/index/find_component_direct.go
index 000c283..42fa69a 100644
--- a/index/find_component_direct.go
+++ b/index/find_component_direct.go
@@ -24,21 +24,21 @@ func findDirectComponent(index *SpecIndex, componentID, absoluteFilePath string)
 	case strings.HasPrefix(normalizedComponentID, "#/components/securitySchemes/"):
 		found = loadSyncMapReference(index.allSecuritySchemes, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/parameters/"):
-		found = index.allParameters[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allParameters, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/requestBodies/"):
-		found = index.allRequestBodies[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allRequestBodies, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/responses/"):
-		found = index.allResponses[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allResponses, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/headers/"):
-		found = index.allHeaders[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allHeaders, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/examples/"):
-		found = index.allExamples[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allExamples, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/links/"):
-		found = index.allLinks[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allLinks, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/callbacks/"):
-		found = index.allCallbacks[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allCallbacks, normalizedComponentID)
 	case strings.HasPrefix(normalizedComponentID, "#/components/pathItems/"):
-		found = index.allComponentPathItems[normalizedComponentID]
+		found = loadMapReference(&index.componentLock, index.allComponentPathItems, normalizedComponentID)
 	}
 
 	if found == nil {
@@ -75,3 +75,10 @@ func loadSyncMapReference(collection *sync.Map, key string) *Reference {
 	}
 	return nil
 }
+
+// loadMapReference looks up a component, components are collected while other indexes are already looking them up.
+func loadMapReference(lock *sync.RWMutex, collection map[string]*Reference, key string) *Reference {
+	lock.RLock()
+	defer lock.RUnlock()
+	return collection[key]
+}
diff --git a/index/utility_methods.go b/index/utility_methods.go
index 7e67452..f26d93b 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -219,7 +219,9 @@ func (index *SpecIndex) extractComponentParameters(paramsNode *yaml.Node, pathPr
 			Node:       param,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allParameters[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -239,7 +241,9 @@ func (index *SpecIndex) extractComponentRequestBodies(requestBodiesNode *yaml.No
 			Node:       reqBod,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allRequestBodies[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -259,7 +263,9 @@ func (index *SpecIndex) extractComponentResponses(responsesNode *yaml.Node, path
 			Node:       response,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allResponses[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -279,7 +285,9 @@ func (index *SpecIndex) extractComponentHeaders(headersNode *yaml.Node, pathPref
 			Node:       header,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allHeaders[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -299,7 +307,9 @@ func (index *SpecIndex) extractComponentCallbacks(callbacksNode *yaml.Node, path
 			Node:       callback,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allCallbacks[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -319,7 +329,9 @@ func (index *SpecIndex) extractComponentPathItems(pathItemsNode *yaml.Node, path
 			Node:       pathItemName,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allComponentPathItems[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -339,7 +351,9 @@ func (index *SpecIndex) extractComponentLinks(linksNode *yaml.Node, pathPrefix s
 			Node:       link,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allLinks[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
@@ -359,7 +373,9 @@ func (index *SpecIndex) extractComponentExamples(examplesNode *yaml.Node, pathPr
 			Node:       example,
 			KeyNode:    keyNode,
 		}
+		index.componentLock.Lock()
 		index.allExamples[def] = ref
+		index.componentLock.Unlock()
 	}
 }
 
-- 
2.43.0


From e315cca99220b679016ad46d73ba688ebf85619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:00 +0000
Subject: [PATCH 36/54] fix: a lookup read the indexes of a rolodex while files
 were being added to them

---
 index/search_index.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/index/search_index.go b/index/search_index.go
index 1deaa99..c817f9b 100644
--- a/index/search_index.go
+++ b/index/search_index.go
@@ -433,9 +433,9 @@ func (index *SpecIndex) SearchIndexForReferenceByReferenceWithContext(ctx contex
 func (index *SpecIndex) extractIndex(r *Reference) *SpecIndex {
 	idx := r.Index
 	if idx != nil && r.Index.GetSpecAbsolutePath() != r.RemoteLocation {
-		for i := range r.Index.rolodex.indexes {
-			if r.Index.rolodex.indexes[i].GetSpecAbsolutePath() == r.RemoteLocation {
-				idx = r.Index.rolodex.indexes[i]
+		for _, candidate := range r.Index.rolodex.GetIndexes() {
+			if candidate.GetSpecAbsolutePath() == r.RemoteLocation {
+				idx = candidate
 				break
 			}
 		}
-- 
2.43.0


From 28f7e4a00df599812d6df2fc3ada629da2f8ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 37/54] fix: asking an index for its inline parameters wrote to
 it

Concurrent readers of an index with no unique inline parameters raced on the count.
---
 index/utility_methods.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/utility_methods.go b/index/utility_methods.go
index f26d93b..12a63a3 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -406,7 +406,7 @@ func (index *SpecIndex) extractComponentSecuritySchemes(securitySchemesNode *yam
 }
 
 func (index *SpecIndex) countUniqueInlineDuplicates() int {
-	if index.componentsInlineParamUniqueCount > 0 {
+	if index.built || index.componentsInlineParamUniqueCount > 0 {
 		return index.componentsInlineParamUniqueCount
 	}
 	unique := 0
-- 
2.43.0


From ce210880c5f3c1e31256b631e5d6cad98e88f482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:47 +0000
Subject: [PATCH 38/54] fix: composing a bundle rewrote references a second
 time as if they were local to their file

After a reference had been pointed at its component in the bundle, the final
rewrite read the new '#/components/...' value as a reference of the file the
node came from, and redirected it whenever that file had a component of the
same name.
---
 bundler/bundler.go            | 16 ++++++++--------
 bundler/composer_functions.go | 36 +++++++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/bundler/bundler.go b/bundler/bundler.go
index 8bdadc5..69f6b20 100644
--- a/bundler/bundler.go
+++ b/bundler/bundler.go
@@ -558,10 +558,10 @@ func composeWithOrigins(model *v3.Document, compositionConfig *BundleComposition
 	})
 
 	// Remap indexed refs.
-	remapIndex(rootIndex, processedNodes)
+	settled := remapIndex(rootIndex, processedNodes)
 
 	for _, idx := range indexes {
-		remapIndex(idx, processedNodes)
+		settled = append(settled, remapIndex(idx, processedNodes)...)
 	}
 
 	// Update discriminator mapping values after component names are final.
@@ -572,9 +572,9 @@ func composeWithOrigins(model *v3.Document, compositionConfig *BundleComposition
 
 	// Rewrite any remaining unindexed refs after mapping resolution loads new indexes.
 	allLoadedIndexes := rolodex.GetIndexes()
-	rewriteAllRefs(rootIndex, processedNodes, rolodex)
+	rewriteAllRefs(rootIndex, processedNodes, rolodex, settled)
 	for _, idx := range allLoadedIndexes {
-		rewriteAllRefs(idx, processedNodes, rolodex)
+		rewriteAllRefs(idx, processedNodes, rolodex, settled)
 	}
 
 	rewriteInlinedAbsoluteRefs(rolodex, allLoadedIndexes, inlinedPaths)
@@ -669,10 +669,10 @@ func compose(model *v3.Document, compositionConfig *BundleCompositionConfig) ([]
 	})
 
 	// Remap indexed refs.
-	remapIndex(rootIndex, processedNodes)
+	settled := remapIndex(rootIndex, processedNodes)
 
 	for _, idx := range indexes {
-		remapIndex(idx, processedNodes)
+		settled = append(settled, remapIndex(idx, processedNodes)...)
 	}
 
 	// Update discriminator mapping values after component names are final.
@@ -683,9 +683,9 @@ func compose(model *v3.Document, compositionConfig *BundleCompositionConfig) ([]
 
 	// Rewrite any remaining unindexed refs after mapping resolution loads new indexes.
 	allLoadedIndexes := rolodex.GetIndexes()
-	rewriteAllRefs(rootIndex, processedNodes, rolodex)
+	rewriteAllRefs(rootIndex, processedNodes, rolodex, settled)
 	for _, idx := range allLoadedIndexes {
-		rewriteAllRefs(idx, processedNodes, rolodex)
+		rewriteAllRefs(idx, processedNodes, rolodex, settled)
 	}
 
 	rewriteInlinedAbsoluteRefs(rolodex, allLoadedIndexes, inlinedPaths)
diff --git a/bundler/composer_functions.go b/bundler/composer_functions.go
index 548d3f7..fb30112 100644
--- a/bundler/composer_functions.go
+++ b/bundler/composer_functions.go
@@ -442,7 +442,23 @@ func checkForCollision[T any](schemaName, delimiter string, pr *processRef, comp
 	return schemaName
 }
 
-func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *processRef]) {
+// remapIndex rewrites the references of an index, and returns the $ref value nodes that are settled: they now name a
+// component of the bundle and must not be read as references of the file they came from again.
+func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *processRef]) []*yaml.Node {
+	var settled []*yaml.Node
+	rootPrefix := ""
+	if rolodex := idx.GetRolodex(); rolodex != nil && rolodex.GetRootIndex() != nil {
+		rootPrefix = rolodex.GetRootIndex().GetSpecAbsolutePath() + "#/"
+	}
+	settle := func(n *yaml.Node, fullDefinition string) {
+		if n == nil || !strings.HasPrefix(n.Value, "#/") {
+			return
+		}
+		inRoot := rootPrefix != "" && strings.HasPrefix(fullDefinition, rootPrefix)
+		if inRoot || processedNodes.GetOrZero(fullDefinition) != nil {
+			settled = append(settled, n)
+		}
+	}
 	seq := idx.GetRawReferencesSequenced()
 
 	// Track $ref value nodes rewritten by the first loop to prevent
@@ -458,7 +474,9 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 		if refValNode := utils.GetRefValueNode(sequenced.Node); refValNode != nil {
 			rewiredRefNodes[refValNode] = struct{}{}
 		}
-		rewireRef(idx, sequenced, sequenced.FullDefinition, processedNodes)
+		origDef := sequenced.FullDefinition
+		rewireRef(idx, sequenced, origDef, processedNodes)
+		settle(utils.GetRefValueNode(sequenced.Node), origDef)
 	}
 
 	mapped := idx.GetMappedReferences()
@@ -474,9 +492,11 @@ func remapIndex(idx *index.SpecIndex, processedNodes *orderedmap.Map[string, *pr
 		}
 		origDef := mRef.FullDefinition
 		rewireRef(idx, mRef, mRef.FullDefinition, processedNodes)
+		settle(utils.GetRefValueNode(mRef.Node), origDef)
 		mapped[mRef.FullDefinition] = mRef
 		mapped[origDef] = mRef
 	}
+	return settled
 }
 
 // encodeJSONPointerSegment encodes a string for use in a JSON Pointer per RFC 6901.
@@ -723,13 +743,18 @@ func captureOrigin(pr *processRef, componentType string, origins ComponentOrigin
 }
 
 // rewriteAllRefs walks an index's document tree and rewrites un-re-written $ref values.
-// Must be called as the FINAL step after all other processing.
+// Must be called as the FINAL step after all other processing. References that are already settled are left alone.
 func rewriteAllRefs(
 	idx *index.SpecIndex,
 	processedNodes *orderedmap.Map[string, *processRef],
 	rolodex *index.Rolodex,
+	settled []*yaml.Node,
 ) {
-	walkAndRewriteRefs(idx.GetRootNode(), idx, processedNodes, rolodex, false, make(map[rewriteVisitKey]struct{}))
+	visited := make(map[rewriteVisitKey]struct{}, len(settled))
+	for _, n := range settled {
+		visited[rewriteVisitKey{node: n}] = struct{}{}
+	}
+	walkAndRewriteRefs(idx.GetRootNode(), idx, processedNodes, rolodex, false, visited)
 }
 
 func walkAndRewriteRefs(
@@ -777,6 +802,9 @@ func walkAndRewriteRefs(
 			childInExtension := inExtension || strings.HasPrefix(keyNode.Value, "x-")
 
 			if keyNode.Value == "$ref" && valueNode.Kind == yaml.ScalarNode && !inExtension {
+				if _, ok := visited[rewriteVisitKey{node: valueNode}]; ok {
+					continue
+				}
 				newRef := resolveRefToComposed(valueNode.Value, sourceIdx, processedNodes, rolodex)
 				if newRef != valueNode.Value {
 					valueNode.Value = newRef
-- 
2.43.0


From f4514ceefd943cbba817b0c62c1d5f8e2df12068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:00 +0000
Subject: [PATCH 39/54] fix: a property that can be left out, or has another
 alternative, was counted as required on the way around an infinite loop

---
 index/utility_methods.go | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/index/utility_methods.go b/index/utility_methods.go
index 12a63a3..ac3f256 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -71,36 +71,30 @@ func extractDefinitionRequiredRefProperties(schemaNode *yaml.Node, reqRefProps m
 		return reqRefProps
 	}
 
-	name := ""
-	for i, param := range propertiesMapNode.Content {
-		if i%2 == 0 {
-			name = param.Value
+	// Run through each of the required properties and extract _their_ required references. A property that is not
+	// required can be left out, whatever it requires itself.
+	for _, requiredPropertyNode := range requiredSeqNode.Content {
+		_, requiredPropDefNode := utils.FindKeyNodeTop(requiredPropertyNode.Value, propertiesMapNode.Content)
+		if requiredPropDefNode == nil {
 			continue
 		}
 
-		// Check to see if the current property is directly embedded within the current schema, and handle its properties if so
-		_, paramPropertiesMapNode := utils.FindKeyNodeTop("properties", param.Content)
-		if paramPropertiesMapNode != nil {
-			reqRefProps = extractDefinitionRequiredRefProperties(param, reqRefProps, fulldef, idx)
+		// Check to see if the property is directly embedded within the current schema, and handle its properties if so
+		_, nestedPropertiesMapNode := utils.FindKeyNodeTop("properties", requiredPropDefNode.Content)
+		if nestedPropertiesMapNode != nil {
+			reqRefProps = extractDefinitionRequiredRefProperties(requiredPropDefNode, reqRefProps, fulldef, idx)
 		}
 
-		// Check to see if the current property is polymorphic, and dive into that model if so
+		// Check to see if the property is polymorphic, and dive into that model if so. Another alternative of a oneOf
+		// or an anyOf may be used instead.
 		for _, key := range []string{"allOf", "oneOf", "anyOf"} {
-			_, ofNode := utils.FindKeyNodeTop(key, param.Content)
-			if ofNode != nil {
+			_, ofNode := utils.FindKeyNodeTop(key, requiredPropDefNode.Content)
+			if ofNode != nil && (key == "allOf" || len(ofNode.Content) == 1) {
 				for _, ofNodeItem := range ofNode.Content {
-					reqRefProps = extractRequiredReferenceProperties(fulldef, ofNodeItem, name, reqRefProps)
+					reqRefProps = extractRequiredReferenceProperties(fulldef, ofNodeItem, requiredPropertyNode.Value, reqRefProps)
 				}
 			}
 		}
-	}
-
-	// Run through each of the required properties and extract _their_ required references
-	for _, requiredPropertyNode := range requiredSeqNode.Content {
-		_, requiredPropDefNode := utils.FindKeyNodeTop(requiredPropertyNode.Value, propertiesMapNode.Content)
-		if requiredPropDefNode == nil {
-			continue
-		}
 
 		reqRefProps = extractRequiredReferenceProperties(fulldef, requiredPropDefNode, requiredPropertyNode.Value, reqRefProps)
 	}
-- 
2.43.0


From 11ac140ef0c21174a8deb1a1a5127682b8f7d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 40/54] fix: the rest of a schema was not looked at once a way
 back to it was found, so what it refers to was missed

---
 index/resolver_relatives.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/index/resolver_relatives.go b/index/resolver_relatives.go
index 5a25cfb..6f77b5a 100644
--- a/index/resolver_relatives.go
+++ b/index/resolver_relatives.go
@@ -111,9 +111,6 @@ func (resolver *Resolver) extractNestedRelatives(
 	childState := state.descend()
 	foundRef, _, _ := resolver.searchReferenceWithContext(ref, ref)
 	if foundRef != nil {
-		if foundRef.Circular {
-			return nil
-		}
 		return resolver.extractRelativesWithState(foundRef, node, parent, childState)
 	}
 	return resolver.extractRelativesWithState(ref, node, parent, childState)
-- 
2.43.0


From e6e4a5a52f7bda459ae57c2c8a900a636509a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:18 +0000
Subject: [PATCH 41/54] fix: a changed bearerFormat was reported as a changed
 scheme

---
 what-changed/model/security_scheme.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/what-changed/model/security_scheme.go b/what-changed/model/security_scheme.go
index 4b6b5d4..16f7747 100644
--- a/what-changed/model/security_scheme.go
+++ b/what-changed/model/security_scheme.go
@@ -166,7 +166,7 @@ func CompareSecuritySchemes(l, r any) *SecuritySchemeChanges {
 			BreakingModified(CompSecurityScheme, PropScheme), CompSecurityScheme, PropScheme)
 
 		addPropertyCheck(&props, lSS.BearerFormat.ValueNode, rSS.BearerFormat.ValueNode,
-			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, v3.SchemeLabel,
+			lSS.BearerFormat.Value, rSS.BearerFormat.Value, &changes, PropBearerFormat,
 			BreakingModified(CompSecurityScheme, PropBearerFormat), CompSecurityScheme, PropBearerFormat)
 
 		addPropertyCheck(&props, lSS.OpenIdConnectUrl.ValueNode, rSS.OpenIdConnectUrl.ValueNode,
-- 
2.43.0


From 8fdbe7110f0d13a8fc395f1c637f7e6ffb07d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:18 +0000
Subject: [PATCH 42/54] fix: changes of minContains, maxContains, $anchor and
 of examples that are objects were not reported

---
 what-changed/model/breaking_rules.go          |  3 +
 .../model/breaking_rules_constants.go         |  3 +
 what-changed/model/breaking_rules_model.go    |  3 +
 what-changed/model/schema.go                  | 78 ++++++++++++++++++-
 4 files changed, 84 insertions(+), 3 deletions(-)

diff --git a/what-changed/model/breaking_rules.go b/what-changed/model/breaking_rules.go
index bc5f673..a65f8d8 100644
--- a/what-changed/model/breaking_rules.go
+++ b/what-changed/model/breaking_rules.go
@@ -336,6 +336,9 @@ func buildDefaultRules() *BreakingRulesConfig {
 			Contains:              rule(true, false, true),
 			UnevaluatedItems:      rule(true, false, true),
 			UnevaluatedProperties: rule(true, true, true),
+			MinContains:           rule(false, true, false),
+			MaxContains:           rule(false, true, false),
+			Anchor:                rule(false, true, true),   // $anchor: modification/removal is breaking
 			DynamicAnchor:         rule(false, true, true),   // $dynamicAnchor: modification/removal is breaking
 			DynamicRef:            rule(false, true, true),   // $dynamicRef: modification/removal is breaking
 			Id:                    rule(true, true, true),    // $id: all changes are breaking (affects reference resolution)
diff --git a/what-changed/model/breaking_rules_constants.go b/what-changed/model/breaking_rules_constants.go
index 3654436..d12d027 100644
--- a/what-changed/model/breaking_rules_constants.go
+++ b/what-changed/model/breaking_rules_constants.go
@@ -57,6 +57,7 @@ const (
 	PropAllowEmptyValue      = "allowEmptyValue"
 	PropAllowReserved        = "allowReserved"
 	PropAnyOf                = "anyOf"
+	PropAnchor               = "$anchor"
 	PropAttribute            = "attribute"
 	PropAuthorizationCode    = "authorizationCode"
 	PropAuthorizationURL     = "authorizationUrl"
@@ -111,10 +112,12 @@ const (
 	PropKind                 = "kind"
 	PropLicense              = "license"
 	PropMapping              = "mapping"
+	PropMaxContains          = "maxContains"
 	PropMaxItems             = "maxItems"
 	PropMaxLength            = "maxLength"
 	PropMaxProperties        = "maxProperties"
 	PropMaximum              = "maximum"
+	PropMinContains          = "minContains"
 	PropMinItems             = "minItems"
 	PropMinLength            = "minLength"
 	PropMinProperties        = "minProperties"
diff --git a/what-changed/model/breaking_rules_model.go b/what-changed/model/breaking_rules_model.go
index f2cf52d..5b9722f 100644
--- a/what-changed/model/breaking_rules_model.go
+++ b/what-changed/model/breaking_rules_model.go
@@ -193,6 +193,9 @@ type SchemaRules struct {
 	Contains              *BreakingChangeRule `json:"contains,omitempty" yaml:"contains,omitempty"`
 	UnevaluatedItems      *BreakingChangeRule `json:"unevaluatedItems,omitempty" yaml:"unevaluatedItems,omitempty"`
 	UnevaluatedProperties *BreakingChangeRule `json:"unevaluatedProperties,omitempty" yaml:"unevaluatedProperties,omitempty"`
+	MinContains           *BreakingChangeRule `json:"minContains,omitempty" yaml:"minContains,omitempty"`
+	MaxContains           *BreakingChangeRule `json:"maxContains,omitempty" yaml:"maxContains,omitempty"`
+	Anchor                *BreakingChangeRule `json:"$anchor,omitempty" yaml:"$anchor,omitempty"`
 	DynamicAnchor         *BreakingChangeRule `json:"$dynamicAnchor,omitempty" yaml:"$dynamicAnchor,omitempty"`
 	DynamicRef            *BreakingChangeRule `json:"$dynamicRef,omitempty" yaml:"$dynamicRef,omitempty"`
 	Id                    *BreakingChangeRule `json:"$id,omitempty" yaml:"$id,omitempty"`
diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 65d5bc6..3a1d84c 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -1628,9 +1628,73 @@ func checkSchemaPropertyChanges(
 			lSchema.Items.ValueNode, nil, BreakingRemoved(CompSchema, PropItems), lSchema.Items.Value, nil)
 	}
 
-	// $dynamicAnchor (JSON Schema 2020-12)
 	lnv = nil
 	rnv = nil
+
+	// MinContains
+	if lSchema != nil && lSchema.MinContains.ValueNode != nil {
+		lnv = lSchema.MinContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MinContains.ValueNode != nil {
+		rnv = rSchema.MinContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MinContainsLabel,
+		Changes:   changes,
+		Breaking:  BreakingModified(CompSchema, PropMinContains),
+		Component: CompSchema,
+		Property:  PropMinContains,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// MaxContains
+	if lSchema != nil && lSchema.MaxContains.ValueNode != nil {
+		lnv = lSchema.MaxContains.ValueNode
+	}
+	if rSchema != nil && rSchema.MaxContains.ValueNode != nil {
+		rnv = rSchema.MaxContains.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.MaxContainsLabel,
+		Changes:   changes,
+		Breaking:  BreakingModified(CompSchema, PropMaxContains),
+		Component: CompSchema,
+		Property:  PropMaxContains,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// $anchor (JSON Schema 2020-12)
+	if lSchema != nil && lSchema.Anchor.ValueNode != nil {
+		lnv = lSchema.Anchor.ValueNode
+	}
+	if rSchema != nil && rSchema.Anchor.ValueNode != nil {
+		rnv = rSchema.Anchor.ValueNode
+	}
+	props = append(props, &PropertyCheck{
+		LeftNode:  lnv,
+		RightNode: rnv,
+		Label:     v3.AnchorLabel,
+		Changes:   changes,
+		Breaking:  BreakingModified(CompSchema, PropAnchor),
+		Component: CompSchema,
+		Property:  PropAnchor,
+		Original:  lSchema,
+		New:       rSchema,
+	})
+	lnv = nil
+	rnv = nil
+
+	// $dynamicAnchor (JSON Schema 2020-12)
 	if lSchema != nil && lSchema.DynamicAnchor.ValueNode != nil {
 		lnv = lSchema.DynamicAnchor.ValueNode
 	}
@@ -2112,6 +2176,14 @@ func extractScalarTypeName(node *yaml.Node) (string, bool) {
 	return node.Value, true
 }
 
+// hashExample hashes the whole of an example: the value of a node alone is empty for objects and arrays.
+func hashExample(node *yaml.Node) string {
+	if node.Kind == yaml.ScalarNode {
+		return low.GenerateHashString(node.Value)
+	}
+	return low.GenerateHashString(node)
+}
+
 func checkExamples(lSchema *base.Schema, rSchema *base.Schema, changes *[]*Change) {
 	if lSchema == nil && rSchema == nil {
 		return
@@ -2127,7 +2199,7 @@ func checkExamples(lSchema *base.Schema, rSchema *base.Schema, changes *[]*Chang
 	// create keys by hashing values
 	if lSchema != nil && lSchema.Examples.ValueNode != nil {
 		for i := range lSchema.Examples.ValueNode.Content {
-			key := low.GenerateHashString(lSchema.Examples.ValueNode.Content[i].Value)
+			key := hashExample(lSchema.Examples.ValueNode.Content[i])
 			lExampKey = append(lExampKey, key)
 			lExampVal[key] = lSchema.Examples.ValueNode.Content[i].Value
 			lExampN[key] = lSchema.Examples.ValueNode.Content[i]
@@ -2136,7 +2208,7 @@ func checkExamples(lSchema *base.Schema, rSchema *base.Schema, changes *[]*Chang
 	}
 	if rSchema != nil && rSchema.Examples.ValueNode != nil {
 		for i := range rSchema.Examples.ValueNode.Content {
-			key := low.GenerateHashString(rSchema.Examples.ValueNode.Content[i].Value)
+			key := hashExample(rSchema.Examples.ValueNode.Content[i])
 			rExampKey = append(rExampKey, key)
 			rExampVal[key] = rSchema.Examples.ValueNode.Content[i].Value
 			rExampN[key] = rSchema.Examples.ValueNode.Content[i]
-- 
2.43.0


From 59d9acf6afb8eb75dc1584bc50e80885102669a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:43 +0000
Subject: [PATCH 43/54] fix: server variables that were added or removed were
 not reported

---
 what-changed/model/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/what-changed/model/server.go b/what-changed/model/server.go
index 86914a0..f6b0461 100644
--- a/what-changed/model/server.go
+++ b/what-changed/model/server.go
@@ -79,9 +79,10 @@ func CompareServers(l, r *v3.Server) *ServerChanges {
 
 	CheckProperties(props)
 	sc := new(ServerChanges)
-	sc.PropertyChanges = NewPropertyChanges(changes)
 	sc.ServerVariableChanges = CheckMapForChanges(l.Variables.Value, r.Variables.Value,
 		&changes, v3.VariablesLabel, CompareServerVariables)
+	// the variables that were added or removed are among the changes
+	sc.PropertyChanges = NewPropertyChanges(changes)
 
 	sc.ExtensionChanges = CompareExtensions(l.Extensions, r.Extensions)
 	sc.Server = r
-- 
2.43.0


From f2eed90d5a89c8b54c61a351cf672e21eb9e7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 44/54] fix: an allOf that stopped being mergeable was compared
 with a merged view, as if its type and properties had been removed

---
 what-changed/model/schema.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/what-changed/model/schema.go b/what-changed/model/schema.go
index 3a1d84c..b373233 100644
--- a/what-changed/model/schema.go
+++ b/what-changed/model/schema.go
@@ -502,6 +502,13 @@ func CompareSchemas(l, r *base.SchemaProxy) *SchemaChanges {
 		comparisonLSchema := schemaComparisonViewForSimpleAllOfObject(l, lSchema)
 		comparisonRSchema := schemaComparisonViewForSimpleAllOfObject(r, rSchema)
 
+		// the merged view of an allOf can't be compared with an allOf that has no such view: what the
+		// view holds would look like it was added or removed.
+		if lSchema != nil && rSchema != nil && len(lSchema.AllOf.Value) > 0 && len(rSchema.AllOf.Value) > 0 &&
+			(comparisonLSchema == lSchema) != (comparisonRSchema == rSchema) {
+			comparisonLSchema, comparisonRSchema = lSchema, rSchema
+		}
+
 		if low.AreEqual(lSchema, rSchema) {
 			// there is no point going on, we know nothing changed!
 			return nil
-- 
2.43.0


From c6663397f83afe7b8e7bb5d45b341f767cb4902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:53 +0000
Subject: [PATCH 45/54] fix: a value that moved from one schema keyword to
 another (readOnly to writeOnly, minimum to maximum) left the hash as it was
 and was not reported

---
 datamodel/low/base/schema_hash.go | 68 ++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/datamodel/low/base/schema_hash.go b/datamodel/low/base/schema_hash.go
index 34064b2..c71472d 100644
--- a/datamodel/low/base/schema_hash.go
+++ b/datamodel/low/base/schema_hash.go
@@ -75,124 +75,155 @@ func (s *Schema) hash(quick bool) uint64 {
 	defer low.PutStringBuilder(sb)
 	var scratch []string
 
-	// calculate a hash from every property in the schema.
+	// calculate a hash from every property in the schema. each value is written with the keyword it belongs
+	// to: without it, a value that moves from one keyword to another leaves the hash as it was.
 	if !s.SchemaTypeRef.IsEmpty() {
+		sb.WriteString("$schema:")
 		sb.WriteString(s.SchemaTypeRef.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Title.IsEmpty() {
+		sb.WriteString("title:")
 		sb.WriteString(s.Title.Value)
 		sb.WriteByte('|')
 	}
 	if !s.MultipleOf.IsEmpty() {
+		sb.WriteString("multipleOf:")
 		sb.WriteString(strconv.FormatFloat(s.MultipleOf.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Maximum.IsEmpty() {
+		sb.WriteString("maximum:")
 		sb.WriteString(strconv.FormatFloat(s.Maximum.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Minimum.IsEmpty() {
+		sb.WriteString("minimum:")
 		sb.WriteString(strconv.FormatFloat(s.Minimum.Value, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.MaxLength.IsEmpty() {
+		sb.WriteString("maxLength:")
 		sb.WriteString(strconv.FormatInt(s.MaxLength.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinLength.IsEmpty() {
+		sb.WriteString("minLength:")
 		sb.WriteString(strconv.FormatInt(s.MinLength.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.Pattern.IsEmpty() {
+		sb.WriteString("pattern:")
 		sb.WriteString(s.Pattern.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Format.IsEmpty() {
+		sb.WriteString("format:")
 		sb.WriteString(s.Format.Value)
 		sb.WriteByte('|')
 	}
 	if !s.MaxItems.IsEmpty() {
+		sb.WriteString("maxItems:")
 		sb.WriteString(strconv.FormatInt(s.MaxItems.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinItems.IsEmpty() {
+		sb.WriteString("minItems:")
 		sb.WriteString(strconv.FormatInt(s.MinItems.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.UniqueItems.IsEmpty() {
+		sb.WriteString("uniqueItems:")
 		sb.WriteString(strconv.FormatBool(s.UniqueItems.Value))
 		sb.WriteByte('|')
 	}
 	if !s.MaxProperties.IsEmpty() {
+		sb.WriteString("maxProperties:")
 		sb.WriteString(strconv.FormatInt(s.MaxProperties.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MinProperties.IsEmpty() {
+		sb.WriteString("minProperties:")
 		sb.WriteString(strconv.FormatInt(s.MinProperties.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.AdditionalProperties.IsEmpty() {
+		sb.WriteString("additionalProperties:")
 		sb.WriteString(low.GenerateHashString(s.AdditionalProperties.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Description.IsEmpty() {
+		sb.WriteString("description:")
 		sb.WriteString(s.Description.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentEncoding.IsEmpty() {
+		sb.WriteString("contentEncoding:")
 		sb.WriteString(s.ContentEncoding.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentMediaType.IsEmpty() {
+		sb.WriteString("contentMediaType:")
 		sb.WriteString(s.ContentMediaType.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Default.IsEmpty() {
+		sb.WriteString("default:")
 		sb.WriteString(low.GenerateHashString(s.Default.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Const.IsEmpty() {
+		sb.WriteString("const:")
 		sb.WriteString(low.GenerateHashString(s.Const.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Nullable.IsEmpty() {
+		sb.WriteString("nullable:")
 		sb.WriteString(strconv.FormatBool(s.Nullable.Value))
 		sb.WriteByte('|')
 	}
 	if !s.ReadOnly.IsEmpty() {
+		sb.WriteString("readOnly:")
 		sb.WriteString(strconv.FormatBool(s.ReadOnly.Value))
 		sb.WriteByte('|')
 	}
 	if !s.WriteOnly.IsEmpty() {
+		sb.WriteString("writeOnly:")
 		sb.WriteString(strconv.FormatBool(s.WriteOnly.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Deprecated.IsEmpty() {
+		sb.WriteString("deprecated:")
 		sb.WriteString(strconv.FormatBool(s.Deprecated.Value))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMaximum.IsEmpty() && s.ExclusiveMaximum.Value.IsA() {
+		sb.WriteString("exclusiveMaximum:")
 		sb.WriteString(strconv.FormatBool(s.ExclusiveMaximum.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMaximum.IsEmpty() && s.ExclusiveMaximum.Value.IsB() {
+		sb.WriteString("exclusiveMaximum:")
 		sb.WriteString(strconv.FormatFloat(s.ExclusiveMaximum.Value.B, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMinimum.IsEmpty() && s.ExclusiveMinimum.Value.IsA() {
+		sb.WriteString("exclusiveMinimum:")
 		sb.WriteString(strconv.FormatBool(s.ExclusiveMinimum.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.ExclusiveMinimum.IsEmpty() && s.ExclusiveMinimum.Value.IsB() {
+		sb.WriteString("exclusiveMinimum:")
 		sb.WriteString(strconv.FormatFloat(s.ExclusiveMinimum.Value.B, 'g', -1, 64))
 		sb.WriteByte('|')
 	}
 	if !s.Type.IsEmpty() && s.Type.Value.IsA() {
+		sb.WriteString("type:")
 		sb.WriteString(s.Type.Value.A)
 		sb.WriteByte('|')
 	}
 	if !s.Type.IsEmpty() && s.Type.Value.IsB() {
+		sb.WriteString("type:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Type.Value.B))
 		for h := range s.Type.Value.B {
 			scratch[h] = s.Type.Value.B[h].Value
@@ -201,6 +232,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.Required.Value) > 0 {
+		sb.WriteString("required:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Required.Value))
 		for i := range s.Required.Value {
 			scratch[i] = s.Required.Value[i].Value
@@ -209,6 +241,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.Enum.Value) > 0 {
+		sb.WriteString("enum:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.Enum.Value))
 		for i := range s.Enum.Value {
 			scratch[i] = low.ValueToString(s.Enum.Value[i].Value)
@@ -216,22 +249,27 @@ func (s *Schema) hash(quick bool) uint64 {
 		writeSortedSchemaStrings(sb, scratch, true)
 	}
 
+	sb.WriteString("properties:")
 	writeSchemaMapHashes(sb, s.Properties.Value)
 
 	if s.XML.Value != nil {
+		sb.WriteString("xml:")
 		sb.WriteString(low.GenerateHashString(s.XML.Value))
 		sb.WriteByte('|')
 	}
 	if s.ExternalDocs.Value != nil {
+		sb.WriteString("externalDocs:")
 		sb.WriteString(low.GenerateHashString(s.ExternalDocs.Value))
 		sb.WriteByte('|')
 	}
 	if s.Discriminator.Value != nil {
+		sb.WriteString("discriminator:")
 		sb.WriteString(low.GenerateHashString(s.Discriminator.Value))
 		sb.WriteByte('|')
 	}
 
 	if len(s.OneOf.Value) > 0 {
+		sb.WriteString("oneOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.OneOf.Value))
 		for i := range s.OneOf.Value {
 			scratch[i] = low.GenerateHashString(s.OneOf.Value[i].Value)
@@ -240,6 +278,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.AllOf.Value) > 0 {
+		sb.WriteString("allOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.AllOf.Value))
 		for i := range s.AllOf.Value {
 			scratch[i] = low.GenerateHashString(s.AllOf.Value[i].Value)
@@ -248,6 +287,7 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if len(s.AnyOf.Value) > 0 {
+		sb.WriteString("anyOf:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.AnyOf.Value))
 		for i := range s.AnyOf.Value {
 			scratch[i] = low.GenerateHashString(s.AnyOf.Value[i].Value)
@@ -256,77 +296,98 @@ func (s *Schema) hash(quick bool) uint64 {
 	}
 
 	if !s.Not.IsEmpty() {
+		sb.WriteString("not:")
 		sb.WriteString(low.GenerateHashString(s.Not.Value))
 		sb.WriteByte('|')
 	}
 
 	if !s.Items.IsEmpty() && s.Items.Value.IsA() {
+		sb.WriteString("items:")
 		sb.WriteString(low.GenerateHashString(s.Items.Value.A))
 		sb.WriteByte('|')
 	}
 	if !s.Items.IsEmpty() && s.Items.Value.IsB() {
+		sb.WriteString("items:")
 		sb.WriteString(strconv.FormatBool(s.Items.Value.B))
 		sb.WriteByte('|')
 	}
 	if !s.If.IsEmpty() {
+		sb.WriteString("if:")
 		sb.WriteString(low.GenerateHashString(s.If.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Else.IsEmpty() {
+		sb.WriteString("else:")
 		sb.WriteString(low.GenerateHashString(s.Else.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Then.IsEmpty() {
+		sb.WriteString("then:")
 		sb.WriteString(low.GenerateHashString(s.Then.Value))
 		sb.WriteByte('|')
 	}
 	if !s.PropertyNames.IsEmpty() {
+		sb.WriteString("propertyNames:")
 		sb.WriteString(low.GenerateHashString(s.PropertyNames.Value))
 		sb.WriteByte('|')
 	}
 	if !s.UnevaluatedProperties.IsEmpty() {
+		sb.WriteString("unevaluatedProperties:")
 		sb.WriteString(low.GenerateHashString(s.UnevaluatedProperties.Value))
 		sb.WriteByte('|')
 	}
 	if !s.UnevaluatedItems.IsEmpty() {
+		sb.WriteString("unevaluatedItems:")
 		sb.WriteString(low.GenerateHashString(s.UnevaluatedItems.Value))
 		sb.WriteByte('|')
 	}
 	if !s.Id.IsEmpty() {
+		sb.WriteString("$id:")
 		sb.WriteString(s.Id.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Anchor.IsEmpty() {
+		sb.WriteString("$anchor:")
 		sb.WriteString(s.Anchor.Value)
 		sb.WriteByte('|')
 	}
 	if !s.DynamicAnchor.IsEmpty() {
+		sb.WriteString("$dynamicAnchor:")
 		sb.WriteString(s.DynamicAnchor.Value)
 		sb.WriteByte('|')
 	}
 	if !s.DynamicRef.IsEmpty() {
+		sb.WriteString("$dynamicRef:")
 		sb.WriteString(s.DynamicRef.Value)
 		sb.WriteByte('|')
 	}
 	if !s.Comment.IsEmpty() {
+		sb.WriteString("$comment:")
 		sb.WriteString(s.Comment.Value)
 		sb.WriteByte('|')
 	}
 	if !s.ContentSchema.IsEmpty() {
+		sb.WriteString("contentSchema:")
 		sb.WriteString(low.GenerateHashString(s.ContentSchema.Value))
 		sb.WriteByte('|')
 	}
+	sb.WriteString("$vocabulary:")
 	writeSchemaBoolMap(sb, s.Vocabulary.Value)
 
+	sb.WriteString("dependentSchemas:")
 	writeSchemaMapHashes(sb, s.DependentSchemas.Value)
 
+	sb.WriteString("dependentRequired:")
 	writeSchemaDependentRequired(sb, s.DependentRequired.Value)
 
+	sb.WriteString("patternProperties:")
 	writeSchemaMapHashes(sb, s.PatternProperties.Value)
 
+	sb.WriteString("$defs:")
 	writeSchemaMapHashes(sb, s.Defs.Value)
 
 	if len(s.PrefixItems.Value) > 0 {
+		sb.WriteString("prefixItems:")
 		scratch = resizeSchemaHashScratch(scratch, len(s.PrefixItems.Value))
 		for i := range s.PrefixItems.Value {
 			scratch[i] = low.GenerateHashString(s.PrefixItems.Value[i].Value)
@@ -337,23 +398,28 @@ func (s *Schema) hash(quick bool) uint64 {
 	writeSchemaExtensions(sb, s.Extensions)
 
 	if s.Example.Value != nil {
+		sb.WriteString("example:")
 		sb.WriteString(low.GenerateHashString(s.Example.Value))
 		sb.WriteByte('|')
 	}
 
 	if !s.Contains.IsEmpty() {
+		sb.WriteString("contains:")
 		sb.WriteString(low.GenerateHashString(s.Contains.Value))
 		sb.WriteByte('|')
 	}
 	if !s.MinContains.IsEmpty() {
+		sb.WriteString("minContains:")
 		sb.WriteString(strconv.FormatInt(s.MinContains.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.MaxContains.IsEmpty() {
+		sb.WriteString("maxContains:")
 		sb.WriteString(strconv.FormatInt(s.MaxContains.Value, 10))
 		sb.WriteByte('|')
 	}
 	if !s.Examples.IsEmpty() {
+		sb.WriteString("examples:")
 		for _, ex := range s.Examples.Value {
 			sb.WriteString(low.GenerateHashString(ex.Value))
 			sb.WriteByte('|')
-- 
2.43.0


From 2016ad2ed7b939b211d64be5f6dc2b3d5fc56157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:58 +0000
Subject: [PATCH 46/54] fix: clearing the caches while another goroutine hashes
 replaced the pools it was using (data race)

---
 datamodel/low/hash.go    | 15 +++++++------
 index/utility_methods.go | 48 ++++++++++++++++++++++------------------
 2 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/datamodel/low/hash.go b/datamodel/low/hash.go
index 2d4ce54..5a552c8 100644
--- a/datamodel/low/hash.go
+++ b/datamodel/low/hash.go
@@ -7,6 +7,7 @@ import (
 	"encoding/binary"
 	"hash/maphash"
 	"sync"
+	"sync/atomic"
 
 	"go.yaml.in/yaml/v4"
 )
@@ -17,6 +18,7 @@ var globalHashSeed maphash.Seed
 
 func init() {
 	globalHashSeed = maphash.MakeSeed()
+	ClearNodePools()
 }
 
 // hasherPool pools maphash.Hash instances for reuse
@@ -29,13 +31,12 @@ var hasherPool = sync.Pool{
 }
 
 // visitedPool pools visited maps for hashNodeTree to reduce allocations.
-var visitedPool = sync.Pool{
-	New: func() any { return make(map[*yaml.Node]bool, 32) },
-}
+// It is replaced as a whole by ClearNodePools, which may run while other goroutines hash.
+var visitedPool atomic.Pointer[sync.Pool]
 
 // getVisitedMap returns a cleared map from the pool.
 func getVisitedMap() map[*yaml.Node]bool {
-	return visitedPool.Get().(map[*yaml.Node]bool)
+	return visitedPool.Load().Get().(map[*yaml.Node]bool)
 }
 
 // putVisitedMap returns a map to the pool, discarding maps that grew too large.
@@ -44,16 +45,16 @@ func putVisitedMap(m map[*yaml.Node]bool) {
 		return // let GC collect oversized maps
 	}
 	clear(m)
-	visitedPool.Put(m)
+	visitedPool.Load().Put(m)
 }
 
 // ClearNodePools replaces the sync.Pool instances in this package that hold
 // *yaml.Node pointers (visitedPool maps). After a document lifecycle ends,
 // pooled maps still reference parsed YAML nodes, preventing GC collection.
 func ClearNodePools() {
-	visitedPool = sync.Pool{
+	visitedPool.Store(&sync.Pool{
 		New: func() any { return make(map[*yaml.Node]bool, 32) },
-	}
+	})
 }
 
 // WithHasher provides a pooled hasher for the duration of fn.
diff --git a/index/utility_methods.go b/index/utility_methods.go
index ac3f256..2654a92 100644
--- a/index/utility_methods.go
+++ b/index/utility_methods.go
@@ -13,6 +13,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/pb33f/libopenapi/utils"
 	"go.yaml.in/yaml/v4"
@@ -656,19 +657,26 @@ func ClearHashCache() {
 // still reference the parsed YAML tree, preventing GC from collecting it.
 // Call this (via libopenapi.ClearAllCaches) to release those references.
 func ClearNodePools() {
-	stackPool = sync.Pool{
-		New: func() interface{} {
-			s := make([]*yaml.Node, 0, 128)
-			return &s
-		},
-	}
-	visitedPool = sync.Pool{
-		New: func() interface{} {
-			return make(map[*yaml.Node]struct{}, 64)
-		},
-	}
+	stackPool.clear()
+	visitedPool.clear()
+}
+
+// nodePool is a sync.Pool whose content can be dropped while other goroutines use it.
+type nodePool struct {
+	current atomic.Pointer[sync.Pool]
+	newItem func() any
 }
 
+func newNodePool(newItem func() any) *nodePool {
+	p := &nodePool{newItem: newItem}
+	p.clear()
+	return p
+}
+
+func (p *nodePool) Get() any  { return p.current.Load().Get() }
+func (p *nodePool) Put(x any) { p.current.Load().Put(x) }
+func (p *nodePool) clear()    { p.current.Store(&sync.Pool{New: p.newItem}) }
+
 // hasherPool pools maphash.Hash instances to avoid allocations.
 // maphash is ~15x faster than SHA256 and has native WriteString support.
 var hasherPool = sync.Pool{
@@ -681,20 +689,16 @@ var hasherPool = sync.Pool{
 
 // stackPool pools node pointer slices for HashNode traversal.
 // avoids allocating ~1KB per HashNode call.
-var stackPool = sync.Pool{
-	New: func() interface{} {
-		s := make([]*yaml.Node, 0, 128)
-		return &s
-	},
-}
+var stackPool = newNodePool(func() any {
+	s := make([]*yaml.Node, 0, 128)
+	return &s
+})
 
 // visitedPool pools visited maps for circular reference detection.
 // avoids allocating ~2KB per HashNode call.
-var visitedPool = sync.Pool{
-	New: func() interface{} {
-		return make(map[*yaml.Node]struct{}, 64)
-	},
-}
+var visitedPool = newNodePool(func() any {
+	return make(map[*yaml.Node]struct{}, 64)
+})
 
 // nodeHashCache caches hash results by node pointer for repeated lookups.
 // yaml.Node pointers are stable for the document lifetime.
-- 
2.43.0


From b573a23cced3182b864900b13a3b38219c229e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:29 +0000
Subject: [PATCH 47/54] fix: applying an overlay shared the overlay's key nodes
 with the result, which concurrent applications then wrote to (data race)

---
 overlay/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/overlay/engine.go b/overlay/engine.go
index c58ac5b..44f3a22 100644
--- a/overlay/engine.go
+++ b/overlay/engine.go
@@ -238,7 +238,7 @@ NextKey:
 			}
 		}
 
-		node.Content = append(node.Content, merge.Content[i], utils.CloneYAMLNode(mergeValue))
+		node.Content = append(node.Content, utils.CloneYAMLNode(merge.Content[i]), utils.CloneYAMLNode(mergeValue))
 	}
 }
 
-- 
2.43.0


From 775b575588b41fcf7e14a74d48efe35bc6700360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:26 +0000
Subject: [PATCH 48/54] fix: two comparisons that met in one example or
 extension raced: rendering a node writes to it (data race)

---
 what-changed/model/comparison_functions.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/what-changed/model/comparison_functions.go b/what-changed/model/comparison_functions.go
index 63d91ff..be16d80 100644
--- a/what-changed/model/comparison_functions.go
+++ b/what-changed/model/comparison_functions.go
@@ -187,14 +187,15 @@ func CreateChangeWithEncoding(changes *[]*Change, changeType int, property strin
 
 	c := (*changes)[len(*changes)-1]
 
-	// serialize complex values to YAML for extension rendering (avoid inflating memory for scalar values)
+	// serialize complex values to YAML for extension rendering (avoid inflating memory for scalar values).
+	// Marshal writes to the nodes it is given, and another comparison may be reading them.
 	if leftValueNode != nil && (utils.IsNodeArray(leftValueNode) || utils.IsNodeMap(leftValueNode)) {
-		if encoded, err := yaml.Marshal(leftValueNode); err == nil {
+		if encoded, err := yaml.Marshal(utils.CloneYAMLNode(leftValueNode)); err == nil {
 			c.OriginalEncoded = string(encoded)
 		}
 	}
 	if rightValueNode != nil && (utils.IsNodeArray(rightValueNode) || utils.IsNodeMap(rightValueNode)) {
-		if encoded, err := yaml.Marshal(rightValueNode); err == nil {
+		if encoded, err := yaml.Marshal(utils.CloneYAMLNode(rightValueNode)); err == nil {
 			c.NewEncoded = string(encoded)
 		}
 	}
-- 
2.43.0


From 75db36f25603d583c71ae9a266b1ef24772fbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:26 +0000
Subject: [PATCH 49/54] fix: a mock generator with a seed still made random
 strings for patterns and uuids

---
 renderer/schema_renderer.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/renderer/schema_renderer.go b/renderer/schema_renderer.go
index 9c3c8ba..258aef4 100644
--- a/renderer/schema_renderer.go
+++ b/renderer/schema_renderer.go
@@ -559,10 +559,14 @@ func (wr *SchemaRenderer) generatePatternString(pattern string, schemaMaxLength
 	if hasSchemaMaxLength && schemaMaxLength > 0 && schemaMaxLength < int64(repeatBudget) {
 		repeatBudget = int(schemaMaxLength)
 	}
-	str, err := reggen.Generate(pattern, repeatBudget)
+	generator, err := reggen.NewGenerator(pattern)
 	if err != nil {
 		return "", err
 	}
+	if wr != nil && wr.rand != nil {
+		generator.SetSeed(wr.rand.Int63())
+	}
+	str := generator.Generate(repeatBudget)
 	return truncateStringBytes(str, options.MaxGeneratedStringBytes), nil
 }
 
@@ -667,6 +671,10 @@ func (wr *SchemaRenderer) RandomFloat64() float64 {
 // PseudoUUID returns a UUID-shaped random value for mock data.
 func (wr *SchemaRenderer) PseudoUUID() string {
 	b := make([]byte, 16)
-	_, _ = cryptoRand.Read(b)
+	if wr != nil && wr.rand != nil {
+		_, _ = wr.rand.Read(b)
+	} else {
+		_, _ = cryptoRand.Read(b)
+	}
 	return strings.ToLower(fmt.Sprintf("%X-%X-%X-%X-%X", b[0:4], b[4:6], b[6:8], b[8:10], b[10:]))
 }
-- 
2.43.0


From 2d5f1f4e7d62fcde379f5d3ceb321038b23d4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:59 +0000
Subject: [PATCH 50/54] fix: a cached hash was found by the address of an
 object, which another object can have once the first is gone

---
 datamodel/low/extraction_functions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index fe13866..c888339 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -1155,7 +1155,9 @@ func GenerateHashString(v any) string {
 
 	// Try cache first using the pointer as key for non-primitives
 	// However, skip caching for types with mutable hash state like SchemaProxy
+	// The key is the pointer itself, not its address: the address of an object that is gone can be used again.
 	val := reflect.ValueOf(v)
+	cacheKey := v
 	shouldCache := true
 	if val.Kind() == reflect.Ptr && !val.IsNil() {
 		// Check if this is a type that has mutable hash state or complex comparison logic
@@ -1165,7 +1167,6 @@ func GenerateHashString(v any) string {
 		}
 
 		if shouldCache {
-			cacheKey := val.Pointer()
 			if cached, ok := hashCache.Load(cacheKey); ok {
 				return cached.(string)
 			}
@@ -1234,7 +1235,6 @@ func GenerateHashString(v any) string {
 
 	// Store in cache if we have a valid pointer and caching is enabled for this type
 	if shouldCache && val.Kind() == reflect.Ptr && !val.IsNil() && hashStr != "" {
-		cacheKey := val.Pointer()
 		hashCache.Store(cacheKey, hashStr)
 	}
 
-- 
2.43.0


From 9a7285411fe7419639304a8493cf15d4884ab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:51 +0000
Subject: [PATCH 51/54] fix: serializing a document, or making a YAML mock,
 stripped the tags of the document's own nodes, and what was built or compared
 from them later was wrong

---
 datamodel/low/extraction_functions.go | 5 +++--
 document.go                           | 6 ++++--
 generator/golang/provider_methods.go  | 3 ++-
 renderer/mock_generator.go            | 5 +++++
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/datamodel/low/extraction_functions.go b/datamodel/low/extraction_functions.go
index c888339..bf10f2a 100644
--- a/datamodel/low/extraction_functions.go
+++ b/datamodel/low/extraction_functions.go
@@ -1445,7 +1445,8 @@ func YAMLNodeToBytes(n *yaml.Node) ([]byte, error) {
 	}
 	// For now, we still use yaml.Marshal for cases that actually need the bytes
 	// This can be optimized further in the future with a custom serializer
-	return yaml.Marshal(n)
+	// Marshal strips the tags of the nodes it is given, so it gets a copy.
+	return yaml.Marshal(utils.CloneYAMLNode(n))
 }
 
 // HashYAMLNodeSlice creates a hash for a slice of YAML nodes efficiently
@@ -1551,7 +1552,7 @@ func ValueToString(v any) string {
 			return n.Value
 		}
 		// For complex nodes, still need to marshal for string representation
-		b, _ := yaml.Marshal(n)
+		b, _ := yaml.Marshal(utils.CloneYAMLNode(n)) // a copy: Marshal strips the tags of the nodes it is given
 		return string(b)
 	}
 
diff --git a/document.go b/document.go
index 9c9bf3e..8e50cd0 100644
--- a/document.go
+++ b/document.go
@@ -220,10 +220,12 @@ func (d *document) Serialize() ([]byte, error) {
 	if d.info == nil {
 		return nil, fmt.Errorf("unable to serialize, document has not yet been initialized")
 	}
+	// marshal a copy: Marshal strips the tags of the nodes it is given, and the models are built from these.
+	rootNode := utils.CloneYAMLNode(d.info.RootNode)
 	if d.info.SpecFileType == datamodel.YAMLFileType {
-		return yaml.Marshal(d.info.RootNode)
+		return yaml.Marshal(rootNode)
 	} else {
-		yamlData, _ := yaml.Marshal(d.info.RootNode)
+		yamlData, _ := yaml.Marshal(rootNode)
 		return utils.ConvertYAMLtoJSON(yamlData)
 	}
 }
diff --git a/generator/golang/provider_methods.go b/generator/golang/provider_methods.go
index bdae03a..2bf5005 100644
--- a/generator/golang/provider_methods.go
+++ b/generator/golang/provider_methods.go
@@ -9,6 +9,7 @@ import (
 
 	highbase "github.com/pb33f/libopenapi/datamodel/high/base"
 	"github.com/pb33f/libopenapi/orderedmap"
+	"github.com/pb33f/libopenapi/utils"
 	"go.yaml.in/yaml/v4"
 )
 
@@ -293,7 +294,7 @@ func schemaFromReferenceSiblingNode(refNode *yaml.Node) *highbase.Schema {
 	if len(siblingNode.Content) == 0 {
 		return nil
 	}
-	raw, _ := yaml.Marshal(siblingNode)
+	raw, _ := yaml.Marshal(utils.CloneYAMLNode(siblingNode)) // a copy: Marshal strips the tags of the nodes it is given
 	proxy, _ := schemaProxyFromProviderYAML("RefSibling", string(raw))
 	return proxy.Schema()
 }
diff --git a/renderer/mock_generator.go b/renderer/mock_generator.go
index ecb7c75..e81f024 100644
--- a/renderer/mock_generator.go
+++ b/renderer/mock_generator.go
@@ -11,6 +11,7 @@ import (
 
 	highbase "github.com/pb33f/libopenapi/datamodel/high/base"
 	"github.com/pb33f/libopenapi/orderedmap"
+	"github.com/pb33f/libopenapi/utils"
 	"go.yaml.in/yaml/v4"
 )
 
@@ -276,6 +277,10 @@ func (mg *MockGenerator) renderMockJSON(v any) []byte {
 
 func (mg *MockGenerator) renderMockYAML(v any) []byte {
 	var data []byte
+	if y, ok := v.(*yaml.Node); ok {
+		// marshal a copy: Marshal strips the tags of the nodes it is given, and these belong to the document.
+		v = utils.CloneYAMLNode(y)
+	}
 	// determine the type, render properly.
 	switch reflect.ValueOf(v).Kind() {
 	case reflect.Map, reflect.Slice, reflect.Array, reflect.Struct, reflect.Ptr:
-- 
2.43.0


From 22c59a261c9a048976dc38e2ee3eb72a4e8753bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:54 +0000
Subject: [PATCH 52/54] fix: an XML mock of the same value had its elements in
 a different order each time

---
 renderer/mock_generator_xml.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/renderer/mock_generator_xml.go b/renderer/mock_generator_xml.go
index 2500f4f..1b6ff0f 100644
--- a/renderer/mock_generator_xml.go
+++ b/renderer/mock_generator_xml.go
@@ -7,7 +7,9 @@ import (
 	"bytes"
 	"encoding/xml"
 	"fmt"
+	"maps"
 	"regexp"
+	"slices"
 	"unicode"
 
 	highbase "github.com/pb33f/libopenapi/datamodel/high/base"
@@ -205,7 +207,9 @@ func (mg *MockGenerator) renderXMLMap(enc *xml.Encoder, start xml.StartElement,
 	var textValues []any
 	var children []childEntry
 
-	for key, val := range m {
+	// in the order of the keys: the order of a map differs from run to run.
+	for _, key := range slices.Sorted(maps.Keys(m)) {
+		val := m[key]
 		propSchema := getPropertySchema(schema, key)
 		nodeType := resolveNodeType(propSchema)
 
@@ -226,8 +230,8 @@ func (mg *MockGenerator) renderXMLMap(enc *xml.Encoder, start xml.StartElement,
 		case "none":
 			// Skip the node itself, include sub-properties directly
 			if subMap, ok := val.(map[string]any); ok {
-				for sk, sv := range subMap {
-					children = append(children, childEntry{key: sk, value: sv, schema: getPropertySchema(propSchema, sk)})
+				for _, sk := range slices.Sorted(maps.Keys(subMap)) {
+					children = append(children, childEntry{key: sk, value: subMap[sk], schema: getPropertySchema(propSchema, sk)})
 				}
 			} else {
 				children = append(children, childEntry{key: key, value: val, schema: propSchema})
-- 
2.43.0


From f99d4759d82b5012e50f79a17686adb7ff9a492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:29:08 +0000
Subject: [PATCH 53/54] fix: a mock of something whose example has no value (an
 external example) crashed

---
 renderer/mock_generator.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/renderer/mock_generator.go b/renderer/mock_generator.go
index e81f024..a4c9fa7 100644
--- a/renderer/mock_generator.go
+++ b/renderer/mock_generator.go
@@ -181,10 +181,12 @@ func (mg *MockGenerator) GenerateMock(mock any, name string) ([]byte, error) {
 	if examplesValue != nil && !examples.IsNil() {
 		if examplesMap, ok := examplesValue.(*orderedmap.Map[string, *highbase.Example]); ok {
 			if examplesMap.Len() > 0 {
-				if example, ok := examplesMap.Get(name); ok {
+				// an example without a value (it may be an external one) has nothing to render.
+				if example, ok := examplesMap.Get(name); ok && example != nil && example.Value != nil {
 					return mg.renderForType(example.Value, schemaValue), nil
-				} else {
-					fallbackExample = examplesMap.Oldest().Value
+				}
+				if oldest := examplesMap.Oldest().Value; oldest != nil && oldest.Value != nil {
+					fallbackExample = oldest
 				}
 			}
 		}
-- 
2.43.0


From b89066eab8b00fdf6601c9deb7efd6c4fcf248e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:07 +0000
Subject: [PATCH 54/54] fix: comparing documents wrote the URL of an added or
 removed server into the node of the document

---
 what-changed/model/operation.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/what-changed/model/operation.go b/what-changed/model/operation.go
index 6643623..31e4a88 100644
--- a/what-changed/model/operation.go
+++ b/what-changed/model/operation.go
@@ -483,9 +483,10 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 				}
 				continue
 			}
-			lv[k].ValueNode.Value = lv[k].Value.URL.Value
+			removed := *lv[k].ValueNode // a copy, the node itself belongs to the document
+			removed.Value = lv[k].Value.URL.Value
 			CreateChange(&changes, ObjectRemoved, v3.ServersLabel,
-				lv[k].ValueNode, nil, BreakingRemoved(component, property), lv[k].Value,
+				&removed, nil, BreakingRemoved(component, property), lv[k].Value,
 				nil)
 			sc := new(ServerChanges)
 			sc.PropertyChanges = NewPropertyChanges(changes)
@@ -497,9 +498,10 @@ func checkServers(lServers, rServers low.NodeReference[[]low.ValueReference[*v3.
 			if _, ok := lv[k]; !ok {
 
 				var changes []*Change
-				rv[k].ValueNode.Value = rv[k].Value.URL.Value
+				added := *rv[k].ValueNode // a copy, the node itself belongs to the document
+				added.Value = rv[k].Value.URL.Value
 				CreateChange(&changes, ObjectAdded, v3.ServersLabel,
-					nil, rv[k].ValueNode, BreakingAdded(component, property), nil,
+					nil, &added, BreakingAdded(component, property), nil,
 					rv[k].Value)
 
 				sc := new(ServerChanges)
-- 
2.43.0

