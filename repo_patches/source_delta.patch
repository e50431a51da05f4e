From 12df4914ab2471caa211117a1edb63b5276f66f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:17 +0000
Subject: [PATCH 01/15] fix: do not ignore errors of fsync when flushing an
 HPFile

---
 datatree/hpfile.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 487d29e..c8527a1 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -158,7 +158,10 @@ func (hpf *HPFile) flush() {
 		}
 		hpf.buffer = hpf.buffer[:0]
 	}
-	_ = hpf.fileMap[hpf.largestID].Sync()
+	err := hpf.fileMap[hpf.largestID].Sync()
+	if err != nil {
+		panic(err)
+	}
 }
 
 func (hpf *HPFile) WaitForFlushing() {
-- 
2.43.0


From fc4978ee66b7efdc03d14fbe16510e0a007b1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 02/15] fix: make pruning crash-safe

Commit the edge nodes and the last pruned twigs before the files are removed,
and keep the twig roots which are needed for recovery.
---
 datatree/mock_datatree.go |  7 +++++++
 datatree/tree.go          | 11 +++++++++--
 moeingads.go              | 10 +++++++++-
 types/types.go            |  2 ++
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index 797eeda..ffbb8f3 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -116,6 +116,13 @@ func (dt *MockDataTree) PruneTwigs(startID, endID int64) []byte {
 	return nil
 }
 
+func (dt *MockDataTree) PruneFiles(endID int64) {
+}
+
+func (dt *MockDataTree) ReapNodes(startID, endID int64) []byte {
+	return nil
+}
+
 func (dt *MockDataTree) GetFileSizes() (int64, int64) {
 	return 0, 0
 }
diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..d7a4e90 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -406,11 +406,18 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	if endID-startID < MinPruneCount {
 		panic(fmt.Sprintf("The count of pruned twigs is too small: %d", endID-startID))
 	}
+	tree.PruneFiles(endID)
+	return tree.ReapNodes(startID, endID)
+}
+
+// Prune the files' contents which are only needed by the twigs before endID
+func (tree *Tree) PruneFiles(endID int64) {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
-	return tree.ReapNodes(startID, endID)
+	// when recovering, we need the root of the last pruned twig, and also its left neighbour's if its ID is odd
+	keptID := (endID - 1) - (endID-1)%2
+	tree.twigMtFile.PruneHead(keptID * TwigMtSize)
 }
 
 func (tree *Tree) ReapNodes(start, end int64) []byte {
diff --git a/moeingads.go b/moeingads.go
index 827df28..c6ee5aa 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -734,7 +734,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 	for shardID := 0; shardID < types.ShardCount; shardID++ {
 		start, end := starts[shardID], ends[shardID]
 		if end > start+datatree.MinPruneCount {
-			edgeNodesBytes := mads.datTree[shardID].PruneTwigs(start, end)
+			edgeNodesBytes := mads.datTree[shardID].ReapNodes(start, end)
 			mads.meta.SetEdgeNodes(shardID, edgeNodesBytes)
 			for twig := start; twig < end; twig++ {
 				mads.meta.DeleteTwigHeight(shardID, twig)
@@ -742,7 +742,15 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
+	// the files can be pruned only after the metadata needed for recovery without them is durable
+	for shardID := 0; shardID < types.ShardCount; shardID++ {
+		start, end := starts[shardID], ends[shardID]
+		if end > start+datatree.MinPruneCount {
+			mads.datTree[shardID].PruneFiles(end)
+		}
+	}
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
 
diff --git a/types/types.go b/types/types.go
index 83f1153..8408840 100644
--- a/types/types.go
+++ b/types/types.go
@@ -99,6 +99,8 @@ type DataTree interface {
 	ScanEntriesLite(oldestActiveTwigID int64, outChan chan KeyAndPos)
 	TwigCanBePruned(twigID int64) bool
 	PruneTwigs(startID, endID int64) []byte
+	PruneFiles(endID int64)
+	ReapNodes(startID, endID int64) []byte
 	GetFileSizes() (int64, int64)
 	EndBlock() [32]byte
 	WaitForFlushing()
-- 
2.43.0


From 9a66960417dd553c067d2f3a93b8c1caaf96b648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 03/15] fix: lock the HPFile while PruneHead changes its file
 map

---
 datatree/hpfile.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index c8527a1..4a7cdf6 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -281,6 +281,8 @@ func (hpf *HPFile) Append(bufList [][]byte) (int64, error) {
 }
 
 func (hpf *HPFile) PruneHead(off int64) error {
+	hpf.mtx.Lock()
+	defer hpf.mtx.Unlock()
 	fileID := off / int64(hpf.blockSize)
 	var idList []int
 	for id, f := range hpf.fileMap {
-- 
2.43.0


From 6e608b393b83690ca1ed341eb0570c5284ed0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:17 +0000
Subject: [PATCH 04/15] fix: remember the prune height across restarts

---
 metadb/metadb.go | 25 +++++++++++++++++++++++++
 moeingads.go     |  4 ++++
 types/types.go   |  4 ++++
 3 files changed, 33 insertions(+)

diff --git a/metadb/metadb.go b/metadb/metadb.go
index d99c0f7..bbe7bfa 100644
--- a/metadb/metadb.go
+++ b/metadb/metadb.go
@@ -21,11 +21,13 @@ const (
 	ByteOldestActiveTwigID = byte(0x17)
 	ByteIsRunning          = byte(0x18) //Not Used
 	ByteRootHash           = byte(0x19)
+	BytePruneHeight        = byte(0x1A)
 )
 
 type MetaDB struct {
 	kvdb               indextree.IKVDB
 	currHeight         int64
+	pruneHeight        int64
 	lastPrunedTwig     [types.ShardCount]int64
 	maxSerialNum       [types.ShardCount]int64
 	oldestActiveTwigID [types.ShardCount]int64
@@ -45,6 +47,7 @@ func (db *MetaDB) Close() {
 
 func (db *MetaDB) ReloadFromKVDB() {
 	db.currHeight = 0
+	db.pruneHeight = 0
 	for i := 0; i < types.ShardCount; i++ {
 		db.lastPrunedTwig[i] = 0
 		db.maxSerialNum[i] = 0
@@ -56,6 +59,11 @@ func (db *MetaDB) ReloadFromKVDB() {
 		db.currHeight = int64(binary.LittleEndian.Uint64(bz))
 	}
 
+	bz = db.kvdb.Get([]byte{BytePruneHeight})
+	if bz != nil {
+		db.pruneHeight = int64(binary.LittleEndian.Uint64(bz))
+	}
+
 	for i := 0; i < types.ShardCount; i++ {
 		bz = db.kvdb.Get([]byte{ByteLastPrunedTwig, byte(i)})
 		if bz != nil {
@@ -90,6 +98,11 @@ func (db *MetaDB) Commit() {
 
 	db.kvdb.CurrBatch().Set([]byte{ByteCurrHeight}, buf[:])
 
+	if db.pruneHeight > 0 {
+		binary.LittleEndian.PutUint64(buf[:], uint64(db.pruneHeight))
+		db.kvdb.CurrBatch().Set([]byte{BytePruneHeight}, buf[:])
+	}
+
 	for i := 0; i < types.ShardCount; i++ {
 		binary.LittleEndian.PutUint64(buf[:], uint64(db.lastPrunedTwig[i]))
 		db.kvdb.CurrBatch().Set([]byte{ByteLastPrunedTwig, byte(i)}, buf[:])
@@ -112,6 +125,17 @@ func (db *MetaDB) GetCurrHeight() int64 {
 	return db.currHeight
 }
 
+// SetPruneHeight records the largest height below which the history was pruned
+func (db *MetaDB) SetPruneHeight(h int64) {
+	if db.pruneHeight < h {
+		db.pruneHeight = h
+	}
+}
+
+func (db *MetaDB) GetPruneHeight() int64 {
+	return db.pruneHeight
+}
+
 func (db *MetaDB) SetTwigMtFileSize(shardID int, size int64) {
 	db.mtx.Lock()
 	defer db.mtx.Unlock()
@@ -234,6 +258,7 @@ func (db *MetaDB) IncrOldestActiveTwigID(shardID int) {
 
 func (db *MetaDB) Init() {
 	db.currHeight = 0
+	db.pruneHeight = 0
 	for i := 0; i < types.ShardCount; i++ {
 		db.lastPrunedTwig[i] = -1
 		db.maxSerialNum[i] = 0
diff --git a/moeingads.go b/moeingads.go
index c6ee5aa..718bd69 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -106,6 +106,9 @@ func NewMoeingADS(dirName string, canQueryHistory bool, startEndKeys [][]byte) (
 	if !dirNotExists {
 		mads.meta.ReloadFromKVDB()
 		//mads.meta.PrintInfo()
+		if h := mads.meta.GetPruneHeight(); h > 0 {
+			mads.kvdb.SetPruneHeight(uint64(h))
+		}
 	}
 
 	if canQueryHistory {
@@ -742,6 +745,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.SetPruneHeight(height)
 	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
 	// the files can be pruned only after the metadata needed for recovery without them is durable
diff --git a/types/types.go b/types/types.go
index 8408840..33520e9 100644
--- a/types/types.go
+++ b/types/types.go
@@ -119,6 +119,10 @@ type MetaDB interface {
 	SetCurrHeight(h int64)
 	GetCurrHeight() int64
 
+	// the largest height below which the history was pruned, zero if it was never pruned
+	SetPruneHeight(h int64)
+	GetPruneHeight() int64
+
 	SetTwigMtFileSize(shardID int, size int64)
 	GetTwigMtFileSize(shardID int) int64
 
-- 
2.43.0


From 6bd50b3cbd6994ff26e00ce6586c2b1f8dccd2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:18 +0000
Subject: [PATCH 05/15] fix: reject proofs whose serial number exceeds the tree

---
 datatree/proof.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..195a72c 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -79,6 +79,13 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 }
 
 func (pp *ProofPath) Check(complete bool) error {
+	if len(pp.UpperPath) == 0 {
+		return errors.New("No upper path")
+	}
+	// the bits above the path's length are not covered by any hash
+	if pp.SerialNum < 0 || pp.SerialNum>>(TwigShift+len(pp.UpperPath)) != 0 {
+		return fmt.Errorf("Invalid serial number: %d", pp.SerialNum)
+	}
 	for i := 0; i < len(pp.LeftOfTwig)-1; i++ {
 		var res []byte
 		if pp.LeftOfTwig[i].PeerAtLeft {
-- 
2.43.0


From e4405fecbafb9ce0edeb1923db58f1c5b413fd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 06/15] fix: do not take an iteration error for the end of the
 range

---
 indextree/rocks_db.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index 5b718f2..bd036fa 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -367,10 +367,9 @@ func (itr *rocksDBIterator) Valid() bool {
 		return false
 	}
 
-	// If source has error, invalid.
+	// An error must not look like the end of the range.
 	if err := itr.source.Err(); err != nil {
-		itr.isInvalid = true
-		return false
+		panic(err)
 	}
 
 	// If source is invalid, invalid.
-- 
2.43.0


From 7ab28b10f0f6d00b297fdc62ba956d1a27902901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 07/15] fix: let the index skip foreign records when it is
 rebuilt

---
 indextree/indextree.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/indextree/indextree.go b/indextree/indextree.go
index ef3fadb..3dfabc4 100644
--- a/indextree/indextree.go
+++ b/indextree/indextree.go
@@ -130,15 +130,13 @@ func NewNVTreeMem(kvdb IKVDB) *NVTreeMem {
 // Load the RocksDB and use its up-to-date records to initialize the in-memory B-Tree.
 // RocksDB's historical records are ignored.
 func (tree *NVTreeMem) Init(repFn func([]byte)) (err error) {
-	iter := tree.kvdb.ReverseIterator([]byte{}, []byte(nil))
+	// only visit the keys whose first byte is zero
+	iter := tree.kvdb.ReverseIterator([]byte{}, []byte{1})
 	defer iter.Close()
 	var key []byte
 	for iter.Valid() {
 		k := iter.Key()
 		v := iter.Value()
-		if k[0] != 0 {
-			continue // the first byte must be zero
-		}
 		k = k[1:]
 		if repFn != nil {
 			repFn(k) // to report the progress
-- 
2.43.0


From 848d85690292c4ff74f35d2ccba5a1ba7ed00cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 08/15] fix: a key inserted and deleted in the same block must
 not come alive

---
 moeingads.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeingads.go b/moeingads.go
index 718bd69..ef698f6 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -308,9 +308,9 @@ func (mads *MoeingADS) getEntry(k []byte, forProof bool) (entry *Entry, entryBz
 	return
 }
 
-// An entry is prepared for insertion, but not inserted (no SerialNum and Value assigned)
+// An entry is prepared for insertion, but not inserted (or deleted again after being inserted)
 func isFakeInserted(hotEntry *HotEntry) bool {
-	return hotEntry.EntryPtr.SerialNum == -1 && hotEntry.EntryPtr.Value == nil
+	return hotEntry.EntryPtr.SerialNum == -1 && hotEntry.Operation != types.OpInsertOrChange
 }
 
 func isInserted(hotEntry *HotEntry) bool {
-- 
2.43.0


From 46393ef67a7d1ef8d58ff3dca8bf2e2f567c9c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:48 +0000
Subject: [PATCH 09/15] fix: do not share the active bits with the goroutine
 which reads a twig

---
 datatree/entryfile.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datatree/entryfile.go b/datatree/entryfile.go
index 2a64315..6181e05 100644
--- a/datatree/entryfile.go
+++ b/datatree/entryfile.go
@@ -374,10 +374,12 @@ func (ef *EntryFile) GetActiveEntriesInTwig(twig *Twig) chan []byte {
 
 func (ef *EntryFile) getActiveEntriesInTwig(twig *Twig, checkSN bool) chan []byte {
 	res := make(chan []byte, 100)
+	// the receiver may clear the active bits while the goroutine is still running, so use a copy
+	snapshot := &Twig{activeBits: twig.activeBits}
+	start := twig.FirstEntryPos
 	go func() {
-		start := twig.FirstEntryPos
 		for i := 0; i < LeafCountInTwig; i++ {
-			if twig.getBit(i) {
+			if snapshot.getBit(i) {
 				entryBz, next := ef.ReadEntryRawBytes(start)
 				start = next
 				sn := ExtractSerialNum(entryBz)
-- 
2.43.0


From 8367aee5d2ad820b4fc0f71e84155ef9d506f94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:58 +0000
Subject: [PATCH 10/15] fix: do not serve stale content from the read-ahead
 buffer after a failed read or a cut

---
 datatree/hpfile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datatree/hpfile.go b/datatree/hpfile.go
index 4a7cdf6..ce910b0 100644
--- a/datatree/hpfile.go
+++ b/datatree/hpfile.go
@@ -132,6 +132,7 @@ func (hpf *HPFile) Truncate(size int64) error {
 		return err
 	}
 	hpf.latestFileSize = size
+	hpf.preReader.Invalidate() // it may hold content which is cut off now
 	err = hpf.fileMap[hpf.largestID].Truncate(size)
 	if err != nil {
 		return err
@@ -228,6 +229,7 @@ func (hpf *HPFile) readAtWithBuf(buf []byte, off int64) (err error) {
 	if err == io.EOF {
 		hpf.preReader.end = pos + int64(n)
 	} else if err != nil {
+		hpf.preReader.fileID = -1 // nothing was filled
 		return err
 	}
 	ok = hpf.preReader.TryRead(fileID, pos, buf)
@@ -319,6 +321,12 @@ func (pr *PreReader) Init() {
 	pr.buf = make([]byte, PreReadBufSize)
 }
 
+func (pr *PreReader) Invalidate() {
+	pr.mtx.Lock()
+	defer pr.mtx.Unlock()
+	pr.fileID = -1
+}
+
 func (pr *PreReader) GetToFill(fileID, start, end int64) []byte {
 	pr.fileID = fileID
 	pr.start = start
-- 
2.43.0


From 113e048e809e993ac0c9820d3e1e3ebbf96e51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 11/15] fix: refuse truncated or mixed snapshots of a data tree

LoadTree took a short read or the end of the file at any record as the proper end, so a truncated twigs or nodes
file was loaded as a different tree, and SaveMemToDisk ignored the errors from writing twigs. The twigs file and the
nodes file now end with a record holding the count of the records and the root hash.
---
 datatree/load.go | 70 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/datatree/load.go b/datatree/load.go
index 489b0cf..6d0328d 100644
--- a/datatree/load.go
+++ b/datatree/load.go
@@ -44,14 +44,19 @@ func LoadTree(bufferSize, blockSize int, dirName string) *Tree {
 		panic(err)
 	}
 	defer twigFile.Close()
+	var rootHash [32]byte
 	for {
 		twigID, twig, err := LoadTwigFromFile(twigFile)
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		if err != nil { // io.EOF is also an error here, because the end mark must be met before it
 			panic(err)
 		}
+		if twigID == endMarkTwigID {
+			if twig.FirstEntryPos != int64(len(tree.activeTwigs)) {
+				panic("Incomplete twigs file")
+			}
+			rootHash = twig.twigRoot
+			break
+		}
 		//fmt.Printf("Twig %d is loaded\n", twigID)
 		tree.activeTwigs[twigID] = &twig
 		if tree.youngestTwigID < twigID {
@@ -68,6 +73,9 @@ func LoadTree(bufferSize, blockSize int, dirName string) *Tree {
 	if err != nil {
 		panic(err)
 	}
+	if tree.savedRootHash() != rootHash {
+		panic("The twigs file and the nodes file are not from the same snapshot")
+	}
 
 	mt4ytFile, err := os.Open(filepath.Join(tree.dirName, mtree4YTPath))
 	if err != nil {
@@ -78,9 +86,24 @@ func LoadTree(bufferSize, blockSize int, dirName string) *Tree {
 	if err != nil {
 		panic(err)
 	}
+	if youngestTwig := tree.activeTwigs[tree.youngestTwigID]; youngestTwig == nil || youngestTwig.leftRoot != tree.mtree4YoungestTwig[1] {
+		panic("The youngest twig and its merkle tree are not from the same snapshot")
+	}
 	return tree
 }
 
+// The twigs file and the nodes file end with a special record containing the count of the other records and
+// the root hash, such that a truncated file, or a mixture of two snapshots, can be detected.
+const endMarkTwigID = int64(-1)
+const endMarkLevel = 0
+
+func (tree *Tree) savedRootHash() (rootHash [32]byte) {
+	if hash, ok := tree.nodes[Pos(calcMaxLevel(tree.youngestTwigID), 0)]; ok {
+		rootHash = *hash
+	}
+	return
+}
+
 func LoadTwigFromFile(infile io.Reader) (twigID int64, twig Twig, err error) {
 	var buf0, buf1 [8]byte
 	var buf2 [4]byte
@@ -100,7 +123,10 @@ func LoadTwigFromFile(infile io.Reader) (twigID int64, twig Twig, err error) {
 	slices[12] = buf2[:]
 	h := meow.New32(0)
 	for i, slice := range slices {
-		_, err = infile.Read(slice)
+		_, err = io.ReadFull(infile, slice)
+		if err == io.EOF && i != 0 { // only the boundary between records is a proper end
+			err = io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return
 		}
@@ -149,8 +175,13 @@ func (twig *Twig) Dump(twigID int64, outfile io.Writer) error {
 }
 
 func (tree *Tree) DumpNodes(outfile io.Writer) error {
+	edgeNodes := make([]*EdgeNode, 0, len(tree.nodes)+1)
 	for pos, hash := range tree.nodes {
-		edgeNode := &EdgeNode{Pos: pos, Value: (*hash)[:]}
+		edgeNodes = append(edgeNodes, &EdgeNode{Pos: pos, Value: (*hash)[:]})
+	}
+	rootHash := tree.savedRootHash()
+	edgeNodes = append(edgeNodes, &EdgeNode{Pos: Pos(endMarkLevel, int64(len(tree.nodes))), Value: rootHash[:]})
+	for _, edgeNode := range edgeNodes {
 		h := meow.New32(0)
 		var bzList [2][]byte
 		bzList[0] = EdgeNodesToBytes([]*EdgeNode{edgeNode})
@@ -169,11 +200,8 @@ func (tree *Tree) DumpNodes(outfile io.Writer) error {
 func (tree *Tree) LoadNodes(infile io.Reader) error {
 	var buf [8 + 32 + 4]byte
 	for {
-		_, err := infile.Read(buf[:])
-		if err == io.EOF {
-			break
-		}
-		if err != nil {
+		_, err := io.ReadFull(infile, buf[:])
+		if err != nil { // io.EOF is also an error here, because the end mark must be met before it
 			return err
 		}
 		h := meow.New32(0)
@@ -184,6 +212,12 @@ func (tree *Tree) LoadNodes(infile io.Reader) error {
 		var hash [32]byte
 		edgeNodes := BytesToEdgeNodes(buf[:8+32])
 		copy(hash[:], edgeNodes[0].Value)
+		if edgeNodes[0].Pos.Level() == endMarkLevel {
+			if edgeNodes[0].Pos.Nth() != int64(len(tree.nodes)) || hash != tree.savedRootHash() {
+				return errors.New("Incomplete nodes file")
+			}
+			break
+		}
 		tree.nodes[edgeNodes[0].Pos] = &hash
 	}
 	return nil
@@ -208,14 +242,14 @@ func (tree *Tree) DumpMtree4YT(outfile io.Writer) error {
 func (tree *Tree) LoadMtree4YT(infile io.Reader) error {
 	h := meow.New32(0)
 	for i := range tree.mtree4YoungestTwig[:] {
-		_, err := infile.Read(tree.mtree4YoungestTwig[i][:])
+		_, err := io.ReadFull(infile, tree.mtree4YoungestTwig[i][:])
 		if err != nil {
 			return err
 		}
 		_, _ = h.Write(tree.mtree4YoungestTwig[i][:])
 	}
 	var buf [4]byte
-	_, err := infile.Read(buf[:])
+	_, err := io.ReadFull(infile, buf[:])
 	if err != nil {
 		return err
 	}
@@ -240,7 +274,15 @@ func (tree *Tree) SaveMemToDisk() {
 	}
 	defer twigFile.Close()
 	for _, twigID := range twigList {
-		_ = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		err = tree.activeTwigs[twigID].Dump(twigID, twigFile)
+		if err != nil {
+			panic(err)
+		}
+	}
+	endMark := &Twig{FirstEntryPos: int64(len(twigList)), twigRoot: tree.savedRootHash()}
+	err = endMark.Dump(endMarkTwigID, twigFile)
+	if err != nil {
+		panic(err)
 	}
 
 	nodesFile, err := os.OpenFile(filepath.Join(tree.dirName, nodesPath), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0700)
-- 
2.43.0


From 4b2ed9636effd643d98687d942225ccd82a8a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 12/15] fix: do not take a failed seek of a reverse iterator
 for the end of the store

---
 indextree/rocks_db.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indextree/rocks_db.go b/indextree/rocks_db.go
index bd036fa..b0b1f26 100644
--- a/indextree/rocks_db.go
+++ b/indextree/rocks_db.go
@@ -331,6 +331,10 @@ func newRocksDBIterator(source *gorocksdb.Iterator, start, end []byte, isReverse
 			source.SeekToLast()
 		} else {
 			source.Seek(end)
+			// An error must not look like no key being at or after the end.
+			if err := source.Err(); err != nil {
+				panic(err)
+			}
 			if source.Valid() {
 				eoakey := moveSliceToBytes(source.Key()) // end or after key
 				if bytes.Compare(end, eoakey) <= 0 {
-- 
2.43.0


From 98ce92de28284b6e3557969721778dbd227cea66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 13/15] fix: guard the stand-in root store's map against
 parallel writers

---
 store/mock_root.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/store/mock_root.go b/store/mock_root.go
index b1201fa..eaf8dd6 100644
--- a/store/mock_root.go
+++ b/store/mock_root.go
@@ -11,6 +11,7 @@ import (
 type MockRootStore struct {
 	mtx                 sync.RWMutex
 	cacheStore          *CacheStore
+	cacheMtx            sync.Mutex // Set and Delete may be called in parallel
 	preparedForUpdate   *sync.Map
 	preparedForDeletion *sync.Map
 	isWritting          bool
@@ -101,6 +102,8 @@ func (rs *MockRootStore) Set(key, value []byte) {
 	if _, ok := rs.preparedForUpdate.Load(string(key)); !ok {
 		panic(fmt.Sprintf("not prepared %#v", key))
 	}
+	rs.cacheMtx.Lock()
+	defer rs.cacheMtx.Unlock()
 	rs.cacheStore.Set(key, value)
 }
 
@@ -111,6 +114,8 @@ func (rs *MockRootStore) Delete(key []byte) {
 	if _, ok := rs.preparedForDeletion.Load(string(key)); !ok {
 		panic("not prepared")
 	}
+	rs.cacheMtx.Lock()
+	defer rs.cacheMtx.Unlock()
 	rs.cacheStore.RealDelete(key)
 }
 
-- 
2.43.0


From 3b83e9c291e83e8dc64a994f3d2620683b4b12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 14/15] fix: the mock data tree ends the list of a twig's
 active entries, so compaction does not hang

---
 datatree/mock_datatree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index ffbb8f3..b43493c 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -95,6 +95,7 @@ func (dt *MockDataTree) GetActiveEntriesInTwig(twigID int64) chan []byte {
 				res <- EntryToBytes(entry, nil)
 			}
 		}
+		close(res)
 	}()
 	return res
 }
-- 
2.43.0


From 28b3cca905646c99dde225198b05b3c99853c070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 15/15] fix: the mock data tree skips the list of separator
 positions only once

---
 datatree/mock_datatree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/mock_datatree.go b/datatree/mock_datatree.go
index b43493c..f150291 100644
--- a/datatree/mock_datatree.go
+++ b/datatree/mock_datatree.go
@@ -42,7 +42,7 @@ func EntryFromRawBytes(b []byte) *Entry {
 	}
 	bb = append([]byte{}, b[4:]...)
 	n := recoverMagicBytes(bb)
-	e, _ := EntryFromBytes(bb[n+4:], 0)
+	e, _ := EntryFromBytes(bb[n:], 0)
 	return e
 }
 
-- 
2.43.0

