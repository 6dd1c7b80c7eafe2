From 420153a5466e6ee14ded8ee6299030617700b5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 01/24] fix: recycling a node of exactly 258 slots indexed past
 the recycler table

---
 allocator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/allocator.go b/allocator.go
index 6db5d74..b79dbc1 100644
--- a/allocator.go
+++ b/allocator.go
@@ -178,7 +178,7 @@ func (a *Allocator) endOp() {
 }
 
 func (a *Allocator) recycle(node uint64, slots int) {
-	if slots > len(a.recycler) {
+	if slots >= len(a.recycler) {
 		return
 	}
 	e := atomic.LoadUint64(a.globalEpoch)
-- 
2.43.0


From 3097559acfbac4b883d2d786afc864849b57dcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:39 +0000
Subject: [PATCH 02/24] fix: aborting a delete that merges a child into the
 root node unlocked the wrong nodes

---
 delete.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index b7537db..5042ad2 100644
--- a/delete.go
+++ b/delete.go
@@ -341,7 +341,7 @@ func (op *DeleteOperation) Abort() {
 	case deleteLeaf, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
-		op.idx.unlockNodes3(op.parent, op.node, op.child)
+		op.unlock3()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
-- 
2.43.0


From 898d257c646764e247ed81f718c04b2e7c36d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 03/24] fix: a delete from a node-256 could be lost when the
 node was copied concurrently

---
 delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 5042ad2..3dd96c5 100644
--- a/delete.go
+++ b/delete.go
@@ -155,6 +155,10 @@ searchLoop:
 				return false
 			}
 			if isLeaf(a) {
+				if !op.lock() {
+					runtime.Gosched()
+					goto S
+				}
 				op.raw = a
 				op.leafPtr = p
 				op.kind = deleteLeaf256
@@ -323,6 +327,7 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		if deleted {
 			op.allocator.itemCounter--
 		}
+		op.unlock()
 	}
 	op.allocator.endOp()
 	if op.releaseAlloc {
@@ -338,7 +343,7 @@ func (op *DeleteOperation) Abort() {
 	switch op.kind {
 	case deleteRoot:
 		op.idx.unlockRoot()
-	case deleteLeaf, replaceNodeWithLeaf:
+	case deleteLeaf, deleteLeaf256, replaceNodeWithLeaf:
 		op.unlock()
 	case replaceNodeWithNode:
 		op.unlock3()
-- 
2.43.0


From 8e2e5efbe5ede8fb425f371e90a8ec37dcb0ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:40 +0000
Subject: [PATCH 04/24] fix: nodes sharing a lock were locked without checking
 the generation of all of them

---
 locks.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/locks.go b/locks.go
index ad61f9e..04f9fbb 100644
--- a/locks.go
+++ b/locks.go
@@ -62,21 +62,32 @@ func (idx *Tree) lockNodes3(child uint64, childGen int32, node uint64, nodeGen i
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if nodeGen != childGen {
+		// node shares its lock with child, but they were not read at the same generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	// lock parent, if needed
 	block3 := parent >> blockSlotsShift
 	lock3 := parent & lockOffsetMask
 	lock3Unique := (lock3 != lock || block3 != block) && (lock3 != lock2 || block3 != block2)
+	locked = true
 	if lock3Unique {
-		if !atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1) {
-			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
-			if lock2Unique {
-				atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
-			}
-			return false
+		locked = atomic.CompareAndSwapInt32(&idx.blocks[block3].locks[lock3], parentGen, parentGen+1)
+	} else if lock3 == lock && block3 == block {
+		// parent shares its lock with child
+		locked = parentGen == childGen
+	} else {
+		// parent shares its lock with node
+		locked = parentGen == nodeGen
+	}
+	if !locked {
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		if lock2Unique {
+			atomic.AddInt32(&idx.blocks[block2].locks[lock2], -1)
 		}
 	}
-	return true
+	return locked
 }
 
 // unlockNodes3 releases locks for three nodes.
@@ -135,6 +146,10 @@ func (idx *Tree) lockNodes2(node uint64, nodeGen int32, parent uint64, parentGen
 			atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
 			return false
 		}
+	} else if parentGen != nodeGen {
+		// parent shares its lock with node, but they were not read at the same generation
+		atomic.AddInt32(&idx.blocks[block].locks[lock], -1)
+		return false
 	}
 	return true
 }
-- 
2.43.0


From 2eeb18b2f25863bd20b6bbc665e3750b51ba3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 05/24] fix: MinKey and MaxKey read the tree without reserving
 the epoch

---
 radix.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/radix.go b/radix.go
index d8479c0..1de266c 100644
--- a/radix.go
+++ b/radix.go
@@ -395,6 +395,12 @@ searchLoop:
 // For example, if we store temperature readings using the key "temp_TIMESTAMP" where timestamp is an 8 byte BigEndian ns timestamp
 // MaxKey([]byte("temp_")) returns the last made reading.
 func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so that no node is reused while we read it
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
@@ -447,6 +453,12 @@ searchLoop:
 // Minimum means the first key in the lexicographic order. If keys are uint64 in BigEndian it is also the smallest number.
 // If ok is false the index is empty.
 func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
+	// reserve the current epoch, so that no node is reused while we read it
+	alloc := idx.GetAllocator()
+	defer idx.ReleaseAllocator(alloc)
+	alloc.startOp()
+	defer alloc.endOp()
+
 	raw, _ := idx.partialSearch(searchPrefix)
 	if raw == 0 {
 		return 0, false
-- 
2.43.0


From 71107dcf57ff857c90bddf8d4a93f8af1f44c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 06/24] fix: MinKey and MaxKey found nothing when the first or
 last node-256 was empty

---
 radix.go | 96 +++++++++++++-------------------------------------------
 1 file changed, 22 insertions(+), 74 deletions(-)

diff --git a/radix.go b/radix.go
index 1de266c..8b0faf2 100644
--- a/radix.go
+++ b/radix.go
@@ -402,51 +402,25 @@ func (idx *Tree) MaxKey(searchPrefix []byte) (v uint64, ok bool) {
 	defer alloc.endOp()
 
 	raw, _ := idx.partialSearch(searchPrefix)
+	return idx.maxLeaf(raw)
+}
+
+// maxLeaf returns the value of the last leaf below raw.
+// A node-256 where all children have been deleted is still part of the tree, so we might have to look in more than one child.
+func (idx *Tree) maxLeaf(raw uint64) (v uint64, ok bool) {
 	if raw == 0 {
 		return 0, false
 	}
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the max
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find max, iterate from top
-			for k := 255; k >= 0; k-- {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load the last child (since they are ordered)
-		a := atomic.LoadUint64(&data[count-1])
-		if isLeaf(a) {
-			return getLeafValue(a), true
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := count - 1; k >= 0; k-- {
+		if v, ok = idx.maxLeaf(atomic.LoadUint64(&data[k])); ok {
+			return v, true
 		}
-		raw = a
 	}
+	return 0, false
 }
 
 // MinKey returns the minimum key having the given searchPrefix, or the minimum key in the whole index if searchIndex is nil.
@@ -460,51 +434,25 @@ func (idx *Tree) MinKey(searchPrefix []byte) (v uint64, ok bool) {
 	defer alloc.endOp()
 
 	raw, _ := idx.partialSearch(searchPrefix)
+	return idx.minLeaf(raw)
+}
+
+// minLeaf returns the value of the first leaf below raw.
+// A node-256 where all children have been deleted is still part of the tree, so we might have to look in more than one child.
+func (idx *Tree) minLeaf(raw uint64) (v uint64, ok bool) {
 	if raw == 0 {
 		return 0, false
 	}
 	if isLeaf(raw) {
 		return getLeafValue(raw), true
 	}
-	// now find the min
-searchLoop:
-	for {
-		_, node, count, prefixLen := explodeNode(raw)
-		block := int(node >> blockSlotsShift)
-		offset := int(node & blockSlotsOffsetMask)
-		data := idx.blocks[block].data[offset:]
-		var prefixSlots int
-		if prefixLen > 0 {
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = (prefixLen + 15) >> 3
-			} else {
-				prefixSlots = (prefixLen + 7) >> 3
-			}
-			data = data[prefixSlots:]
-		}
-		if count >= fullAllocFrom {
-			// find min, iterate from bottom
-			for k := range data[:count] {
-				a := atomic.LoadUint64(&data[k])
-				if a != 0 {
-					if isLeaf(a) {
-						return getLeafValue(a), true
-					}
-					raw = a
-					continue searchLoop
-				}
-			}
-			// BUG: this might happen if all children in the node has been deleted, since we currently don't shrink node-256. we should go back in the tree!
-			return 0, false
-		}
-		// load first child (since they are ordered)
-		a := atomic.LoadUint64(&data[0])
-		if isLeaf(a) {
-			return getLeafValue(a), true
+	count, _, data := idx.getNodeFromRaw(raw)
+	for k := range data[:count] {
+		if v, ok = idx.minLeaf(atomic.LoadUint64(&data[k])); ok {
+			return v, true
 		}
-		raw = a
 	}
+	return 0, false
 }
 
 // NewIterator returns an Iterator for iterating in order over all keys having the given prefix, or the complete index if searchPrefix is nil.
-- 
2.43.0


From 5989f5e65992beb97d892a6e1c2e091b52e5caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 07/24] fix: an iteration ending right after a full prefetch
 never stopped

---
 iterator.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/iterator.go b/iterator.go
index 6954a4f..9901f24 100644
--- a/iterator.go
+++ b/iterator.go
@@ -233,12 +233,17 @@ searchLoop:
 func (i *Iterator) storeResumePosition() {
 	// first trim consecutive items without any more children from end of stack
 	var j int
-	for j = len(i.stack) - 1; j > 0; j-- {
+	for j = len(i.stack) - 1; j >= 0; j-- {
 		if i.stack[j].more {
 			break
 		}
 	}
 	i.stack = i.stack[:j+1]
+	if len(i.stack) == 0 {
+		// no children left anywhere, there is nothing to resume
+		i.done = true
+		return
+	}
 
 	// traverse stack from start to end to build the partial key we should continue from
 	i.resumeAt = i.resumeAt[:0]
-- 
2.43.0


From 662f687c79a5fbc91fde5840104edc6e6f5e30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 08/24] fix: Len restarted a stopped tree, and concurrent Len,
 Stop and Start calls released allocators in use

---
 admin.go | 12 +++++-------
 radix.go | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/admin.go b/admin.go
index 207ca6e..acae050 100644
--- a/admin.go
+++ b/admin.go
@@ -32,17 +32,15 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 		switch {
 		case len(argv) == 1:
 			// withdraw all allocators
-			var a []int
-			for i := 0; i < len(idx.allocators); i++ {
-				a = append(a, idx.allocatorQueue.get())
+			idx.stopLock.Lock()
+			defer idx.stopLock.Unlock()
+			if !idx.stopped {
+				idx.withdrawAllocators()
+				defer idx.releaseAllocators()
 			}
 			for i, a := range idx.allocators {
 				a.printStats(out, i)
 			}
-			// release allocators again
-			for i := range a {
-				idx.allocatorQueue.put(a[i])
-			}
 
 			// case argv[1] == "reservations":
 			// 	printReservations(out)
diff --git a/radix.go b/radix.go
index 8b0faf2..0928a5c 100644
--- a/radix.go
+++ b/radix.go
@@ -83,7 +83,9 @@ type Tree struct {
 	blockMap     map[int]int
 	blockMapLock sync.RWMutex
 
-	stopped int32
+	// stopLock is held while withdrawing or releasing all allocators, and protects stopped
+	stopLock sync.Mutex
+	stopped  bool
 
 	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
 	liveObjects int64
@@ -135,12 +137,16 @@ func NewTreeFromState(data io.Reader) (*Tree, error) {
 // Len returns the current number of items in the tree
 // It needs to query all allocators for their counters, so it will block if an allocator is constantly reserved...
 func (idx *Tree) Len() (count int) {
-	idx.Stop()
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
+		idx.withdrawAllocators()
+		defer idx.releaseAllocators()
+	}
 	count = int(idx.liveObjects)
 	for _, a := range idx.allocators {
 		count += int(a.itemCounter)
 	}
-	idx.Start()
 	return
 }
 
@@ -148,20 +154,34 @@ func (idx *Tree) Len() (count int) {
 // It will blocks until it gets all allocators.
 // If already stopped, it returns silently.
 func (idx *Tree) Stop() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 0, 1) {
-		return
-	}
-	for i := 0; i < len(idx.allocators); i++ {
-		_ = idx.allocatorQueue.get()
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if !idx.stopped {
+		idx.withdrawAllocators()
+		idx.stopped = true
 	}
 }
 
 // Start releases all allocators withdrawn through a previous call to Stop.
 // In case the indexed is not stopped in returns silently.
 func (idx *Tree) Start() {
-	if !atomic.CompareAndSwapInt32(&idx.stopped, 1, 0) {
-		return
+	idx.stopLock.Lock()
+	defer idx.stopLock.Unlock()
+	if idx.stopped {
+		idx.stopped = false
+		idx.releaseAllocators()
+	}
+}
+
+// withdrawAllocators takes all allocators out of the queue. The caller must hold stopLock.
+func (idx *Tree) withdrawAllocators() {
+	for i := 0; i < len(idx.allocators); i++ {
+		_ = idx.allocatorQueue.get()
 	}
+}
+
+// releaseAllocators puts all allocators back in the queue. The caller must hold stopLock.
+func (idx *Tree) releaseAllocators() {
 	for i := 0; i < len(idx.allocators); i++ {
 		idx.allocatorQueue.put(i)
 	}
-- 
2.43.0


From 0f723c883c427d203d47b1d30466077957128c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 09/24] fix: WriteState lost the item counts not yet flushed by
 the allocators

---
 state.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/state.go b/state.go
index 8f63d92..cea1d6e 100644
--- a/state.go
+++ b/state.go
@@ -19,6 +19,11 @@ import (
 func (idx *Tree) writeState(out io.Writer) (int, error) {
 	written := 0
 
+	// the private counters of the allocators are not part of the state, include them in the number of objects
+	for _, a := range idx.allocators {
+		a.FlushStats()
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
 	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
-- 
2.43.0


From 746813205395693cf7fc11b6fd78134f31a1bd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 10/24] fix: WriteState could miss the last block handed out to
 an allocator

---
 allocator.go |  2 +-
 state.go     | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/allocator.go b/allocator.go
index b79dbc1..1363a11 100644
--- a/allocator.go
+++ b/allocator.go
@@ -281,7 +281,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 
 		switch string(line[:space]) {
 		case "empty":
-			a.empty = bytes.Equal(line[space+1:], []byte("true"))
+			a.empty = bytes.Equal(values, []byte("true"))
 		case "next_free":
 			a.nextFree = v
 		case "block":
diff --git a/state.go b/state.go
index cea1d6e..c0f715b 100644
--- a/state.go
+++ b/state.go
@@ -24,8 +24,16 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		a.FlushStats()
 	}
 
+	// the block allocator advances nextFreeBlock some time after it has handed out a block, so check the allocators too
+	next := atomic.LoadUint64(&idx.nextFreeBlock)
+	for _, a := range idx.allocators {
+		if !a.empty && uint64(a.block) >= next {
+			next = uint64(a.block) + 1
+		}
+	}
+
 	// write metadata: blocksize, number of blocks, number of allocators, root node location
-	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, idx.nextFreeBlock, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
+	n, err := out.Write([]byte(fmt.Sprintf("objects %d\nblocksize %d\nallocated_blocks %d\nallocators %d\nroot_node %d\nepoch %d\n", atomic.LoadInt64(&idx.liveObjects), blockSize, next, len(idx.allocators), atomic.LoadUint64(&idx.root), atomic.LoadUint64(idx.manager.globalEpoch))))
 	if err != nil {
 		return 0, err
 	}
@@ -93,8 +101,7 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 		writerDone <- nil
 	}()
 
-	next := int(atomic.LoadUint64(&idx.nextFreeBlock))
-	for i := 0; i < next; i++ {
+	for i := 0; i < int(next); i++ {
 		toCompress <- i
 	}
 	close(toCompress)
-- 
2.43.0


From 384b027e0b459c6129315439925efc52402a39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:33 +0000
Subject: [PATCH 11/24] fix: WriteState never returned when a write failed with
 many blocks left

---
 state.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/state.go b/state.go
index c0f715b..7274ae5 100644
--- a/state.go
+++ b/state.go
@@ -80,25 +80,32 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	writerDone := make(chan error)
 	go func() {
 		// writer
-		var writeTime time.Duration
+		var (
+			writeTime time.Duration
+			writeErr  error
+		)
 		for job := range toWrite {
+			if writeErr != nil {
+				// keep receiving after a failure, or the workers would block forever
+				continue
+			}
 			n, err := out.Write([]byte(fmt.Sprintf("block %d\ncompression snappy\nsize %d\n", job.block, len(job.buf))))
 			if err != nil {
-				writerDone <- err
-				return
+				writeErr = err
+				continue
 			}
 			written += n
 			start := time.Now()
 			n, err = out.Write(job.buf)
 			jobPool.Put(job)
 			if err != nil {
-				writerDone <- err
-				return
+				writeErr = err
+				continue
 			}
 			written += n
 			writeTime += time.Since(start)
 		}
-		writerDone <- nil
+		writerDone <- writeErr
 	}()
 
 	for i := 0; i < int(next); i++ {
-- 
2.43.0


From 839a7652f77778ced87bcd3a863eb09291dc998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:34 +0000
Subject: [PATCH 12/24] fix: a node merged with its last child on delete was
 never recycled

---
 delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/delete.go b/delete.go
index 3dd96c5..70ec1df 100644
--- a/delete.go
+++ b/delete.go
@@ -54,6 +54,7 @@ type DeleteOperation struct {
 	prefixLen    int
 	prefixSlots  int
 	leafPosition int
+	nodeSlots    int
 
 	prefix []byte
 }
@@ -233,6 +234,9 @@ searchLoop:
 						goto S
 					}
 
+					// number of slots used by this node
+					op.nodeSlots = count + op.prefixSlots
+
 					// now build the new prefix, start with adding the existing prefix for the current node (the one being replaced)
 					op.prefix, _ = appendPrefix(op.prefix[:0], op.data, prefixLen)
 					// add the child node key
@@ -295,7 +299,8 @@ func (op *DeleteOperation) Finalize() (deleted bool) {
 		atomic.StoreUint64(op.nodePtr, buildNode(byte(op.raw), newNode, op.count, len(op.prefix)))
 		// unlock
 		op.unlock3()
-		// recycle the old child node
+		// recycle the old node and the old child node
+		op.allocator.recycle(op.node, op.nodeSlots)
 		op.allocator.recycle(op.child, op.count+op.prefixSlots)
 		op.allocator.itemCounter--
 		deleted = true
-- 
2.43.0


From c05ba2f2126bdea80896b0c4c6b63cee3ea5a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:34 +0000
Subject: [PATCH 13/24] fix: Lookup and PrepareDelete of an empty key panicked
 on a tree with a single key

---
 delete.go | 2 +-
 radix.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/delete.go b/delete.go
index 70ec1df..879d705 100644
--- a/delete.go
+++ b/delete.go
@@ -84,7 +84,7 @@ S:
 		return false
 	}
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			if !op.idx.lockLeafRoot(root) {
 				runtime.Gosched()
 				goto S
diff --git a/radix.go b/radix.go
index 0928a5c..afdf6c1 100644
--- a/radix.go
+++ b/radix.go
@@ -489,7 +489,7 @@ func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
 	if isLeaf(root) {
-		if byte(root) == key[0] {
+		if len(key) > 0 && byte(root) == key[0] {
 			return getLeafValue(root), true
 		}
 		return 0, false
@@ -556,7 +556,7 @@ func (idx *Tree) debugSearch(key []byte) uint64 {
 	depth := 0
 	raw := atomic.LoadUint64(&idx.root)
 	if isLeaf(raw) {
-		if byte(raw) == key[0] {
+		if len(key) > 0 && byte(raw) == key[0] {
 			return getLeafValue(raw)
 		}
 		return 0
-- 
2.43.0


From 42479ba453e9ca5716c66eda6fb5c79bfc10496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:34 +0000
Subject: [PATCH 14/24] fix: a prefix larger than a block was copied past the
 end of the block

---
 unsafe.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unsafe.go b/unsafe.go
index f824824..b00a9a5 100644
--- a/unsafe.go
+++ b/unsafe.go
@@ -23,6 +23,8 @@ func storePrefix(dst []uint64, prefix []byte) {
 		dst[0] = uint64(len(prefix))
 		dst = dst[1:]
 	}
+	// memmove is not bounds checked, make sure the last byte fits
+	_ = dst[(len(prefix)-1)>>3]
 	memmove(unsafe.Pointer(&dst[0]), unsafe.Pointer(&prefix[0]), uintptr(len(prefix)))
 }
 
@@ -51,6 +53,8 @@ func appendPrefix(dst []byte, src []uint64, length int) ([]byte, int) {
 		copy(dst2, dst)
 		dst = dst2
 	}
+	// memmove is not bounds checked, make sure the last byte is there
+	_ = src[(length-1)>>3]
 	memmove(unsafe.Pointer(&dst[l]), unsafe.Pointer(&src[0]), uintptr(length))
 	return dst, slots
 }
-- 
2.43.0


From bdd27273878deb91ffb58c0401e68dfee954b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:28 +0000
Subject: [PATCH 15/24] fix: an iterator repeated its last prefetch when the
 tree had shrunk to a single key

---
 iterator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/iterator.go b/iterator.go
index 9901f24..c299a91 100644
--- a/iterator.go
+++ b/iterator.go
@@ -84,6 +84,7 @@ func (i *Iterator) Next() bool {
 	if isLeaf(raw) {
 		alloc.endOp()
 		i.idx.ReleaseAllocator(alloc)
+		i.prefetched = i.prefetched[:0]
 		i.pp = 0
 		i.value = getLeafValue(raw)
 		i.done = true
-- 
2.43.0


From 91646faa69f6e513252f10d5f3a434296f34ab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:28 +0000
Subject: [PATCH 16/24] fix: an iterator resumed at the wrong key when the tree
 had changed since its last prefetch

---
 iterator.go | 113 ++++++++++++++++++++++++++--------------------------
 1 file changed, 57 insertions(+), 56 deletions(-)

diff --git a/iterator.go b/iterator.go
index c299a91..7ea252d 100644
--- a/iterator.go
+++ b/iterator.go
@@ -1,6 +1,7 @@
 package radix
 
 import (
+	"bytes"
 	"sync"
 	"sync/atomic"
 )
@@ -69,9 +70,12 @@ func (i *Iterator) Next() bool {
 	alloc.startOp()
 
 	// 2. seek to start
-	var raw uint64
+	var (
+		raw   uint64
+		depth int
+	)
 	if len(i.searchPrefix) > 0 {
-		raw, _ = i.idx.partialSearch(i.searchPrefix)
+		raw, depth = i.idx.partialSearch(i.searchPrefix)
 	} else {
 		raw = atomic.LoadUint64(&i.idx.root)
 	}
@@ -93,70 +97,63 @@ func (i *Iterator) Next() bool {
 
 	// 3. seek to the partial key where we last left of, while building stack
 	// we traverse i.resumeAt to reposition raw & nextChild
+	// the tree might have changed since the last scan, so we seek to the first child not before i.resumeAt
 	nextChild := 0
-preSearchLoop:
-	for k := 0; k < len(i.resumeAt); k++ {
+	var prefix []byte
+	for k := depth; k < len(i.resumeAt); {
 		_, node, count, prefixLen := explodeNode(raw)
 		data := i.idx.getNodeData(node)
 		if prefixLen > 0 {
 			var prefixSlots int
-			if prefixLen == 255 {
-				prefixLen = int(data[0])
-				prefixSlots = ((prefixLen + 15) >> 3)
-			} else {
-				prefixSlots = ((prefixLen + 7) >> 3)
-			}
+			prefix, prefixSlots = appendPrefix(prefix[:0], data, prefixLen)
 			data = data[prefixSlots:]
-			k += prefixLen
+			part := i.resumeAt[k:]
+			if len(part) > len(prefix) {
+				part = part[:len(prefix)]
+			}
+			if c := bytes.Compare(prefix, part); c > 0 {
+				// the whole node is after the resume position
+				break
+			} else if c < 0 {
+				// the whole node is before the resume position
+				nextChild = count
+				break
+			}
+			k += len(prefix)
 			if k >= len(i.resumeAt) {
-				break preSearchLoop
+				break
 			}
 		}
 
 		char := i.resumeAt[k]
+		k++
 		if count >= fullAllocFrom {
-			// check a fixed size node-256
-			a := atomic.LoadUint64(&data[int(char)])
-			if a != 0 && byte(a) == char {
-				if isLeaf(a) {
-					nextChild = int(char)
-					break preSearchLoop
-				}
-				// child node found
-				// since it's a node-256 we need to check if there are any more children in this node
-				var next int
-				for next = int(char) + 1; next < count; next++ {
-					if atomic.LoadUint64(&data[next]) != 0 {
-						break
-					}
-				}
-				// go down into this node, saving the current position on the stack
-				i.stack = append(i.stack, position{raw, next, next < count})
-				raw = a
-				continue preSearchLoop
-			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
-			break preSearchLoop
+			nextChild = int(char)
 		} else {
-			// scan a variable sized node
-			for l := range data[:count] {
-				a := atomic.LoadUint64(&data[l])
-				if byte(a) == char {
-					if isLeaf(a) {
-						nextChild = l
-						break preSearchLoop
-					}
-					// go down into this node, saving the current position on the stack
-					i.stack = append(i.stack, position{raw, l + 1, l+1 < count})
-					raw = a
-					continue preSearchLoop
-				}
+			for nextChild < count && byte(atomic.LoadUint64(&data[nextChild])) < char {
+				nextChild++
 			}
-			// if no node was found, it means that this subtree might have been deleted since last iteration
-			// what are our options in this case ?
+			if nextChild == count {
+				break
+			}
+		}
+		a := atomic.LoadUint64(&data[nextChild])
+		if a == 0 || isLeaf(a) || byte(a) != char {
 			break
 		}
+		// child node found, check if there are any more children in this node
+		next := nextChild + 1
+		if count >= fullAllocFrom {
+			for ; next < count; next++ {
+				if atomic.LoadUint64(&data[next]) != 0 {
+					break
+				}
+			}
+		}
+		// go down into this node, saving the current position on the stack
+		i.stack = append(i.stack, position{raw, next, next < count})
+		raw = a
+		nextChild = 0
 	}
 
 	// 4. continue the scan, adding leaves to the prefetched array
@@ -209,7 +206,7 @@ searchLoop:
 		}
 		// if we have prefetched enough values, save the position and abort the scan
 		if len(i.prefetched) > defaultPrefetchLength {
-			i.storeResumePosition()
+			i.storeResumePosition(depth)
 			break
 		}
 		// pop from stack
@@ -231,7 +228,8 @@ searchLoop:
 	return false
 }
 
-func (i *Iterator) storeResumePosition() {
+// storeResumePosition saves the key of the next child to visit. depth is the number of key bytes consumed before the first node on the stack.
+func (i *Iterator) storeResumePosition(depth int) {
 	// first trim consecutive items without any more children from end of stack
 	var j int
 	for j = len(i.stack) - 1; j >= 0; j-- {
@@ -247,9 +245,9 @@ func (i *Iterator) storeResumePosition() {
 	}
 
 	// traverse stack from start to end to build the partial key we should continue from
-	i.resumeAt = i.resumeAt[:0]
+	i.resumeAt = append(i.resumeAt[:0], i.searchPrefix[:depth]...)
 	for j, pos := range i.stack {
-		key, node, _, prefixLen := explodeNode(pos.node)
+		key, node, count, prefixLen := explodeNode(pos.node)
 		data := i.idx.getNodeData(node)
 		if j > 0 {
 			i.resumeAt = append(i.resumeAt, key)
@@ -260,8 +258,11 @@ func (i *Iterator) storeResumePosition() {
 		}
 		// for the last stack item, we need to add the nextChild too
 		if j == len(i.stack)-1 {
-			a := atomic.LoadUint64(&data[prefixSlots+pos.k])
-			i.resumeAt = append(i.resumeAt, byte(a))
+			k := byte(pos.k)
+			if count < fullAllocFrom {
+				k = byte(atomic.LoadUint64(&data[prefixSlots+pos.k]))
+			}
+			i.resumeAt = append(i.resumeAt, k)
 		}
 	}
 }
-- 
2.43.0


From 6e0f3d9004134adec57c3173b26a3eceecd2072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 17/24] fix: the admin command node panicked on invalid node
 ids

---
 admin.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/admin.go b/admin.go
index acae050..5b2a5a5 100644
--- a/admin.go
+++ b/admin.go
@@ -91,13 +91,24 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 	block := value >> blockSlotsShift
 	offset := value & blockSlotsOffsetMask
 
-	if int(block) > len(idx.blocks) || int(offset) > len(idx.blocks[block].data) {
+	// blocks up to and including nextFreeBlock have been allocated
+	if block > atomic.LoadUint64(&idx.nextFreeBlock) || block >= uint64(len(idx.blocks)) || idx.blocks[block] == nil {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
 
 	data := idx.blocks[block].data[offset:]
 
+	// the node, including its prefix, must fit inside the block
+	prefixBytes := uint64(prefixLen)
+	if prefixLen == 255 {
+		prefixBytes = 8 + data[0]
+	}
+	if prefixBytes > uint64(len(data)*8) || int(prefixBytes+7)>>3+count > len(data) {
+		fmt.Fprintf(out, "Invalid node\n")
+		return
+	}
+
 	fmt.Fprintf(out, "NODE %d (%064b): key=%s, data=%d, count=%d, prefixLen=%d\n", node, node, printableChar(key), value, count, prefixLen)
 
 	var prefix []byte
-- 
2.43.0


From 5c1de261d1d291af3e9a358089510da18033fc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 18/24] fix: the admin commands root and node read the tree
 without reserving the epoch

---
 admin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/admin.go b/admin.go
index 5b2a5a5..0de26f8 100644
--- a/admin.go
+++ b/admin.go
@@ -60,6 +60,10 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 		t.Print(out)
 
 	case "root":
+		alloc := idx.GetAllocator()
+		defer idx.ReleaseAllocator(alloc)
+		alloc.startOp()
+		defer alloc.endOp()
 		root := atomic.LoadUint64(&idx.root)
 		if root == 0 {
 			fmt.Fprint(out, "Index is empty\n")
@@ -73,6 +77,10 @@ func (idx *Tree) Admin(out io.Writer, argv []string) {
 			return
 		}
 		node, _ := strconv.Atoi(argv[1])
+		alloc := idx.GetAllocator()
+		defer idx.ReleaseAllocator(alloc)
+		alloc.startOp()
+		defer alloc.endOp()
 		idx.debugPrintNode(out, uint64(node))
 
 	default:
-- 
2.43.0


From a0286b9e4909184e24a0dbc227d4f65314048a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 19/24] fix: the admin command node panicked on an invalid node
 with a large prefix

---
 admin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/admin.go b/admin.go
index 0de26f8..81c82df 100644
--- a/admin.go
+++ b/admin.go
@@ -109,10 +109,10 @@ func (idx *Tree) debugPrintNode(out io.Writer, node uint64) {
 
 	// the node, including its prefix, must fit inside the block
 	prefixBytes := uint64(prefixLen)
-	if prefixLen == 255 {
-		prefixBytes = 8 + data[0]
+	if prefixLen == 255 && len(data) > 0 {
+		prefixBytes = data[0]
 	}
-	if prefixBytes > uint64(len(data)*8) || int(prefixBytes+7)>>3+count > len(data) {
+	if prefixBytes > uint64(len(data)*8) || int(prefixBytes+15)>>3+count > len(data) {
 		fmt.Fprintf(out, "Invalid node\n")
 		return
 	}
-- 
2.43.0


From 7db254ca9a987a3f23212a5ae5eecbceb8993c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 20/24] fix: the item count was not 64-bit aligned on 32-bit
 platforms

---
 radix.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/radix.go b/radix.go
index afdf6c1..8df7c8a 100644
--- a/radix.go
+++ b/radix.go
@@ -71,7 +71,12 @@ type Tree struct {
 	nextFreeBlock uint64
 
 	// the current root node
-	root         uint64
+	root uint64
+
+	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
+	// the uint64 and int64 fields must come first, to be 64-bit aligned on 32-bit platforms
+	liveObjects int64
+
 	rootLeafLock int32
 
 	manager        *epochManager
@@ -86,9 +91,6 @@ type Tree struct {
 	// stopLock is held while withdrawing or releasing all allocators, and protects stopped
 	stopLock sync.Mutex
 	stopped  bool
-
-	// this value is not guaranteed to be correct until the tree is still and all allocators have flushed their counters
-	liveObjects int64
 }
 
 func setDefaultOptions(options *Options) {
-- 
2.43.0


From efab87b5c31c1b822030d4967532197614886c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 21/24] fix: UpdateOperation.String panicked when the pooled
 operation was used for a longer key before

---
 update.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/update.go b/update.go
index 70680de..3c4ad61 100644
--- a/update.go
+++ b/update.go
@@ -101,8 +101,12 @@ func (op *UpdateOperation) prepareUpdate(key []byte) (found bool) {
 	op.Match = false
 	op.Value = 0
 	op.FetchedKey = op.FetchedKey[:0]
+	// the operation is pooled, clear what the last one left
+	op.node, op.parent, op.depth = 0, 0, 0
+	op.prefix, op.prefixSlots = op.prefix[:0], 0
 	op.allocator.startOp()
 S:
+	op.depth = 0
 	root := atomic.LoadUint64(&op.idx.root)
 	if root == 0 {
 		// index is empty, lock root
@@ -134,7 +138,6 @@ S:
 		return false
 	}
 
-	op.depth = 0
 	op.nodePtr = &op.idx.root
 	op.raw = root
 	op.parent = 0
-- 
2.43.0


From 04a6132e5d6a2872fa8451d3e89e8019415a2da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:15 +0000
Subject: [PATCH 22/24] fix: a truncated or malformed state was accepted or
 made NewTreeFromState panic

---
 allocator.go | 20 +++++++++-------
 state.go     | 67 ++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 69 insertions(+), 18 deletions(-)

diff --git a/allocator.go b/allocator.go
index 1363a11..c245d3c 100644
--- a/allocator.go
+++ b/allocator.go
@@ -277,7 +277,10 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 		}
 		// trim \n !
 		values := line[space+1 : len(line)-1]
-		v, _ := strconv.ParseUint(string(values), 10, 64)
+		v, err := strconv.ParseUint(string(values), 10, 64)
+		if key := string(line[:space]); err != nil && key != "empty" && key != "recycler" {
+			return fmt.Errorf("Corrupted state file, bad value for %s : %w", key, err)
+		}
 
 		switch string(line[:space]) {
 		case "empty":
@@ -296,12 +299,13 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 			if space < 0 {
 				return fmt.Errorf("Corrupted state file, ignoring bad line %v", line)
 			}
-			size, _ := strconv.Atoi(string(values[:space]))
-			count, _ := strconv.Atoi(string(values[space+1:]))
-			if count <= cap(a.recycler[size]) {
-				a.recycler[size] = a.recycler[size][0:count]
-			} else {
-				a.recycler[size] = make([]recycledItem, count)
+			size, err := strconv.Atoi(string(values[:space]))
+			if err != nil || size < 0 || size >= len(a.recycler) {
+				return fmt.Errorf("Corrupted state file, bad recycler size in line %q", line)
+			}
+			count, err := strconv.Atoi(string(values[space+1:]))
+			if err != nil {
+				return fmt.Errorf("Corrupted state file, bad recycler count in line %q", line)
 			}
 			var buf [8]byte
 			for i := 0; i < count; i++ {
@@ -309,7 +313,7 @@ func (a *Allocator) loadState(reader *bufio.Reader) error {
 				if err != nil {
 					return err
 				}
-				a.recycler[size][i] = recycledItem{binary.LittleEndian.Uint64(buf[:]), 0}
+				a.recycler[size] = append(a.recycler[size], recycledItem{binary.LittleEndian.Uint64(buf[:]), 0})
 			}
 
 		}
diff --git a/state.go b/state.go
index 7274ae5..63252ff 100644
--- a/state.go
+++ b/state.go
@@ -120,33 +120,48 @@ func (idx *Tree) writeState(out io.Writer) (int, error) {
 	return written, err
 }
 
+// more allocators than this is taken as a corrupted state
+const maxAllocatorCount = 1 << 16
+
 // loadState rebuilds index state from data previously written with writeState.
 // It assumes the index is empty.
 func (idx *Tree) loadState(data io.Reader) error {
 	var (
-		reader     = bufio.NewReader(data)
-		allocators int
-		nextBlock  = -1
-		readBuf    []byte
+		reader    = bufio.NewReader(data)
+		loaded    int
+		nextBlock = -1
+		readBuf   []byte
 	)
 	// reset block map
 	idx.blockMap = make(map[int]int)
 	for {
 		line, err := reader.ReadBytes('\n')
-		if err == io.EOF {
+		if err == io.EOF && len(line) == 0 {
 			break
 		}
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
 		if err != nil {
 			return err
 		}
 		// trim \n
 		line = line[:len(line)-1]
 		space := bytes.IndexByte(line, ' ')
-		v, _ := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		if space < 0 {
+			return fmt.Errorf("Corrupted index state file? Bad line %q", line)
+		}
+		v, err := strconv.ParseUint(string(line[space+1:]), 10, 64)
+		if key := string(line[:space]); err != nil && key != "objects" && key != "compression" {
+			return fmt.Errorf("Corrupted index state file? Bad value for %s : %w", key, err)
+		}
 
 		switch string(line[:space]) {
 		case "objects":
-			idx.liveObjects = int64(v)
+			idx.liveObjects, err = strconv.ParseInt(string(line[space+1:]), 10, 64)
+			if err != nil {
+				return fmt.Errorf("Corrupted index state file? Bad number of objects : %w", err)
+			}
 
 		case "blocksize":
 			// in case loaded blocksize differs from existing ones, we need to throw away all blocks
@@ -155,36 +170,47 @@ func (idx *Tree) loadState(data io.Reader) error {
 			}
 
 		case "allocated_blocks":
+			if v >= uint64(len(idx.blocks)) {
+				return fmt.Errorf("Corrupted index state file? Can't load %d data blocks since the maximum is %d", v, len(idx.blocks))
+			}
 			idx.nextFreeBlock = v
 
 		case "epoch":
+			if idx.manager == nil {
+				return fmt.Errorf("Corrupted index state file? epoch header before allocators")
+			}
 			atomic.StoreUint64(idx.manager.globalEpoch, v)
 
 		case "root_node":
 			idx.root = v
 
 		case "allocators":
-			allocators = int(v)
+			if v == 0 || v > maxAllocatorCount {
+				return fmt.Errorf("Corrupted index state file? Bad number of allocators %d", v)
+			}
+			allocators := int(v)
 			idx.manager = newEpochManager(allocators)
 			idx.allocators = make([]*Allocator, allocators)
 			idx.allocatorQueue = newSlots(allocators)
 			for i := range idx.allocators {
 				idx.allocators[i] = newAllocator(idx, i, blockSize, idx.newBlocks)
 			}
+			loaded = 0
 
 		case "allocator":
 			// allocator X
-			if int(v) > len(idx.allocators)-1 {
+			if v >= uint64(len(idx.allocators)) {
 				return fmt.Errorf("Corrupted index state file? Can't load allocator id %d since there are only %d allocators", v, len(idx.allocators))
 			}
 			if err := idx.allocators[v].loadState(reader); err != nil {
 				return err
 			}
+			loaded++
 			idx.blockMap[idx.allocators[v].block] = blockAllocated
 
 		case "block":
 			// block X
-			if int(v) > len(idx.blocks)-1 {
+			if v >= uint64(len(idx.blocks)) {
 				return fmt.Errorf("Corrupted index state file? Can't load data block id %d since there are only %d blocks", v, len(idx.blocks))
 			}
 			nextBlock = int(v)
@@ -195,6 +221,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if nextBlock < 0 {
 				return fmt.Errorf("Corrupted index state file? size header before first block")
 			}
+			if v > uint64(snappy.MaxEncodedLen(blockSize)) {
+				return fmt.Errorf("Corrupted index state file? Bad size %d of compressed data block", v)
+			}
 			if cap(readBuf) >= int(v) {
 				readBuf = readBuf[:int(v)]
 			} else {
@@ -204,6 +233,9 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if _, err := io.ReadFull(reader, readBuf); err != nil {
 				return err
 			}
+			if n, err := snappy.DecodedLen(readBuf); err != nil || n != blockSize {
+				return fmt.Errorf("Corrupted index state file? Compressed data block has the wrong size")
+			}
 
 			idx.blocks[nextBlock] = &nodeBlock{
 				data: make([]uint64, blockSize>>3),
@@ -217,6 +249,21 @@ func (idx *Tree) loadState(data io.Reader) error {
 			if idx.blockMap[int(nextBlock)] != blockAllocated {
 				idx.blockMap[int(nextBlock)] = blockWritten
 			}
+			nextBlock = -1
+		}
+	}
+	// the headers tell what to expect, make sure we got it all
+	if len(idx.allocators) == 0 || loaded < len(idx.allocators) {
+		return fmt.Errorf("Incomplete index state file? Got %d of %d allocators", loaded, len(idx.allocators))
+	}
+	for i := range idx.blocks[:idx.nextFreeBlock] {
+		if idx.blocks[i] == nil {
+			return fmt.Errorf("Incomplete index state file? Data block %d is missing", i)
+		}
+	}
+	for i, a := range idx.allocators {
+		if !a.empty && uint64(a.block) >= idx.nextFreeBlock {
+			return fmt.Errorf("Corrupted index state file? Data block %d of allocator %d is missing", a.block, i)
 		}
 	}
 	return nil
-- 
2.43.0


From ba0cb4ef6583da40cd3643c71aa9b7641bea9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 23/24] fix: Lookup and MinKey on a new tree panicked before
 the first block was allocated

---
 radix.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/radix.go b/radix.go
index 8df7c8a..cb4f716 100644
--- a/radix.go
+++ b/radix.go
@@ -338,6 +338,10 @@ func (idx *Tree) partialSearch(searchPrefix []byte) (raw uint64, depth int) {
 	if len(searchPrefix) == 0 {
 		return root, 0
 	}
+	if root == 0 {
+		// index is empty, there might not even be a first block yet
+		return 0, 0
+	}
 	if isLeaf(root) {
 		if byte(root) == searchPrefix[0] {
 			return root, 0
@@ -490,6 +494,10 @@ func (idx *Tree) Count(searchPrefix []byte) (nodes, leaves int) {
 func (idx *Tree) search(key []byte) (uint64, bool) {
 	depth := 0
 	root := atomic.LoadUint64(&idx.root)
+	if root == 0 {
+		// index is empty, there might not even be a first block yet
+		return 0, false
+	}
 	if isLeaf(root) {
 		if len(key) > 0 && byte(root) == key[0] {
 			return getLeafValue(root), true
@@ -557,6 +565,9 @@ func (idx *Tree) debugSearch(key []byte) uint64 {
 	fmt.Printf("\n--- Search tree for %s ---:\n", key)
 	depth := 0
 	raw := atomic.LoadUint64(&idx.root)
+	if raw == 0 {
+		return 0
+	}
 	if isLeaf(raw) {
 		if len(key) > 0 && byte(raw) == key[0] {
 			return getLeafValue(raw)
-- 
2.43.0


From 4b11495b824fc862d7384a1f49211f6e5409fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:58 +0000
Subject: [PATCH 24/24] fix: an update or delete below a node that was locked
 when it was entered could be lost

While a node is locked it may already have been replaced in the tree, but its
generation only changes when it is unlocked. A writer passing through such a
node could not tell that it was detached, and could go on to lock and change
nodes that were no longer part of the tree.
---
 delete.go | 17 ++++++++++++++---
 update.go | 18 +++++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/delete.go b/delete.go
index 879d705..319618c 100644
--- a/delete.go
+++ b/delete.go
@@ -166,7 +166,10 @@ searchLoop:
 				op.Value = getLeafValue(a)
 				return true
 			}
-			op.enterNode(p, a)
+			if !op.enterNode(p, a) {
+				runtime.Gosched()
+				goto S
+			}
 			depth++
 			continue searchLoop
 		}
@@ -261,7 +264,10 @@ searchLoop:
 				op.Value = getLeafValue(a)
 				return true
 			}
-			op.enterNode(p, a)
+			if !op.enterNode(p, a) {
+				runtime.Gosched()
+				goto S
+			}
 			depth++
 			continue searchLoop
 		}
@@ -382,9 +388,14 @@ func (op *DeleteOperation) unlock3() {
 }
 
 // enterNode is inlined by compiler
-func (op *DeleteOperation) enterNode(p *uint64, a uint64) {
+// It returns false if the current node was locked when we entered it, see UpdateOperation.enterNode.
+func (op *DeleteOperation) enterNode(p *uint64, a uint64) bool {
+	if op.nodeGen&1 == 1 {
+		return false
+	}
 	op.parentGen = op.nodeGen
 	op.parent = op.node
 	op.nodePtr = p
 	op.raw = a
+	return true
 }
diff --git a/update.go b/update.go
index 3c4ad61..23aca9b 100644
--- a/update.go
+++ b/update.go
@@ -216,7 +216,10 @@ searchLoop:
 				op.Value = getLeafValue(a)
 				return true
 			}
-			op.enterNode(p, a)
+			if !op.enterNode(p, a) {
+				runtime.Gosched()
+				goto S
+			}
 			continue searchLoop
 		}
 
@@ -248,7 +251,10 @@ searchLoop:
 				op.Value = getLeafValue(a)
 				return true
 			}
-			op.enterNode(p, a)
+			if !op.enterNode(p, a) {
+				runtime.Gosched()
+				goto S
+			}
 			continue searchLoop
 		}
 
@@ -464,12 +470,18 @@ func (op *UpdateOperation) unlock() {
 }
 
 // enterNode is inlined by compiler
-func (op *UpdateOperation) enterNode(p *uint64, a uint64) {
+// It returns false if the current node was locked when we entered it. It might then have been detached from the tree already, while
+// its generation doesn't change until it's unlocked. So we can't tell if the node we are about to enter is still part of the tree.
+func (op *UpdateOperation) enterNode(p *uint64, a uint64) bool {
+	if op.nodeGen&1 == 1 {
+		return false
+	}
 	op.parentGen = op.nodeGen
 	op.parent = op.node
 	op.nodePtr = p
 	op.raw = a
 	op.depth++
+	return true
 }
 
 // addSortedChildren is inlined by compiler
-- 
2.43.0

