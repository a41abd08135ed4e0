From d2d4bbd1f0e87693976561b0cf7f4c69e776e614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 01/12] fix: a key inserted and deleted within one block is not
 appended

The entry was appended to the data tree and set in the index, so that the
deleted key came back with its last value.
---
 moeingads.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeingads.go b/moeingads.go
index 827df28..987802d 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -576,7 +576,7 @@ func (mads *MoeingADS) update() {
 				// if ptr.SerialNum==-1, then we are deleting a just-inserted value, so ignore it.
 				mads.DeactiviateEntry(shardID, ptr.SerialNum)
 				mads.idxTreeJobChan[chanID] <- idxTreeJob{key: ptr.Key, pos: -1} //delete
-			} else if hotEntry.Operation != types.OpNone || hotEntry.IsTouchedByNext {
+			} else if hotEntry.Operation == types.OpInsertOrChange || hotEntry.IsTouchedByNext {
 				if ptr.SerialNum >= 0 { // if this entry already exists
 					mads.DeactiviateEntry(shardID, ptr.SerialNum)
 				}
-- 
2.43.0


From 6dea8b623fc8dfb8e857dea58b92fdec63ccb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 02/12] fix: do not ignore a failing fsync of a data file

The block was committed to the metadata database although its data may not
have reached the disk.
---
 datatree/hpfile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..c8527a1 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -158,7 +158,10 @@ func (hpf *HPFile) flush() {
 		}
 		hpf.buffer = hpf.buffer[:0]
 	}
-	_ = hpf.fileMap[hpf.largestID].Sync()
+	err := hpf.fileMap[hpf.largestID].Sync()
+	if err != nil {
+		panic(err)
+	}
 }
 
 func (hpf *HPFile) WaitForFlushing() {
-- 
2.43.0


From 7e9a0ad3451681c3dfef71b676f91dbc02c874a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 03/12] fix: hold the lock in HPFile.PruneHead

It deletes from the map of files, which ReadAt of other goroutines reads.
---
 datatree/hpfile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index c8527a1..4a7cdf6 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -281,6 +281,8 @@ func (hpf *HPFile) Append(bufList [][]byte) (int64, error) {
 }
 
 func (hpf *HPFile) PruneHead(off int64) error {
+	hpf.mtx.Lock()
+	defer hpf.mtx.Unlock()
 	fileID := off / int64(hpf.blockSize)
 	var idList []int
 	for id, f := range hpf.fileMap {
-- 
2.43.0


From d1919f9b4bf4fdd0d9fd869e39d5b411195c0ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 04/12] fix: record the last pruned twig together with the edge
 nodes

It was only written with the next block: after a restart in between, the
edge nodes did not belong to the recorded last pruned twig.
---
 moeingads.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeingads.go b/moeingads.go
index 987802d..d60bbe4 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -742,6 +742,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
-- 
2.43.0


From 9732d94d765dd80327f41baf4edee072d7f7403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 05/12] fix: NVTreeMem.Init went round in circles at a key of
 another kind

---
 indextree/indextree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..92a1108 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -137,6 +137,7 @@ func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
 		k := iter.Key()
 		v := iter.Value()
 		if k[0] != 0 {
+			iter.Next()
 			continue // the first byte must be zero
 		}
 		k = k[1:]
-- 
2.43.0


From 8b80f157b6f65089856363b8e7707226d15195d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:47 +0000
Subject: [PATCH 06/12] fix: RecentCache.FindFirstChangeBefore looked at one
 height forever

---
 indextree/recentcache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indextree/recentcache.go b/indextree/recentcache.go
index 809acb4..7ad7a19 100644
--- a/indextree/recentcache.go
+++ b/indextree/recentcache.go
@@ -60,6 +60,7 @@ func (rc *RecentCache) FindFirstChangeBefore(height int64, k uint64) (v int64, f
 		if ok {
 			return v, true
 		}
+		height--
 	}
 	return
 }
-- 
2.43.0


From e101b17ecb178ec3632b439daa583d01eba17543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 07/12] fix: forget the pre-read buffer when filling it fails

---
 datatree/hpfile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 4a7cdf6..4f1f9ae 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -228,6 +228,7 @@ func (hpf *HPFile) readAtWithBuf(buf []byte, off int64) (err error) {
 	if err == io.EOF {
 		hpf.preReader.end = pos + int64(n)
 	} else if err != nil {
+		hpf.preReader.fileID = -1 // nothing was read into the buffer
 		return err
 	}
 	ok = hpf.preReader.TryRead(fileID, pos, buf)
-- 
2.43.0


From 93b354518afb0463c5760e42d9f85bdf81f9146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 08/12] fix: refuse proof bytes without an upper path

Check uses the first node of the upper path, so a proof path decoded from
bytes that contain none made it panic instead of returning an error.
---
 datatree/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..656921b 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -49,7 +49,7 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	pp := &ProofPath{}
 	n := len(bz) - 8
 	upperCount := n/32 - OtherNodeCount
-	if n%32 != 0 || upperCount < 0 {
+	if n%32 != 0 || upperCount < 1 { // the upper path contains at least the root of the twig
 		return nil, fmt.Errorf("Invalid byte slice length: %d", len(bz))
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
-- 
2.43.0


From eeeadb03cca1070af41f0079fe845c2f4ea8bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 09/12] fix: keep the twig trees that RecoverTree reads after
 pruning

PruneTwigs deleted the files up to the first twig that is kept, but the
recovery reads the trees from the last pruned twig on. If a file ended in
between, the database could not be opened any more.
---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..83b7be1 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree still reads the trees from endID-1 on, or from endID-2 if that is odd
+	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From 23f60f21cba00d2e44bb33bacdc4fef51cafb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 10/12] fix: delete pruned files only after the batch that
 records the pruning is written

PruneBeforeHeight deleted the entries and Merkle trees of the pruned twigs before
the batch with the new edge nodes and lastPrunedTwig was committed. A crash in
between left metadata that still refers to the deleted twigs, and RecoverTree
panics on it.
---
 datatree/mock_datatree.go |  7 +++++++
 datatree/tree.go          |  8 +++++++-
 moeingads.go              | 10 +++++++++-
 types/types.go            |  2 ++
 4 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..378c2d5 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) ReapNodes(start, end int64) []byte {
+	return nil
+}
+
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 83b7be1..f876c15 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,12 +406,18 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	tree.PruneFiles(endID)
+	return tree.ReapNodes(startID, endID)
+}
+
+// Delete the files that only hold twigs before endID. They cannot be recovered any more
+// unless the edge nodes given by ReapNodes have been stored.
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
 	// RecoverTree still reads the trees from endID-1 on, or from endID-2 if that is odd
 	tree.twigMtFile.PruneHead(((endID - 1) &^ 1) * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index d60bbe4..681a6d2 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -734,7 +734,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -744,6 +744,14 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	}
 	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	// the files are deleted only after the batch has been written: a crash in between must
+	// not leave metadata that refers to deleted files
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		start, end := starts[shardID], ends[shardID]
+		if end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..69eb4da 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	ReapNodes(start, end int64) []byte
+	PruneFiles(endID int64)
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From 989b7a774ecb587a92291b672f76f3a8d7f5b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 11/12] fix: stop when a twig cannot be dumped

SaveMemToDisk ignored the error of dumping a twig, so a failed write left
a twigs file behind that lacks twigs or ends in the middle of one.
---
 datatree/load.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datatree/load.go b/datatree/load.go
index 489b0cf..0ab194e 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -240,7 +240,10 @@ func (tree *Tree) SaveMemToDisk() {
 	}
 	defer twigFile.Close()
 	for _, twigID := range twigList {
-		_ = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		err = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		if err != nil {
+			panic(err)
+		}
 	}
 
 	nodesFile, err := os.OpenFile(filepath.Join(tree.dirName, nodesPath), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0700)
-- 
2.43.0


From f132c247a714a46654306380ae348c27f6a67da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 12/12] fix: do not take a twig record cut off for the end of
 the file

LoadTree takes io.EOF for the end of the twigs file. A file that ends in
the middle of a record, between two of its fields, gave io.EOF as well, so
the last twig was silently missing from the loaded tree.
---
 datatree/load.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datatree/load.go b/datatree/load.go
index 0ab194e..e5bf8f4 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -102,6 +102,9 @@ func LoadTwigFromFile(infile io.Reader) (twigID int64, twig Twig, err error) {
 	for i, slice := range slices {
 		_, err = infile.Read(slice)
 		if err != nil {
+			if err == io.EOF && i > 0 {
+				err = io.ErrUnexpectedEOF // the record is cut off
+			}
 			return
 		}
 		if i < 12 {
-- 
2.43.0

