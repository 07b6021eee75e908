From c7dde3ebc5ba5249d91e5ebb2fd2e450964cd4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 01/27] fix: decide admission and take snapshots on one exact
 net counter

Grouped and cached gates admitted on estimates without an exact check, the
fast path checked and added in two steps, and State/Available could read S
and the vector from different sides of a Commit or from a stripe scan that
never existed. The net counter every operation already maintained is now the
linearization point; estimates only ever deny early.
---
 vsa.go | 141 +++++++++++++++++++++++++++++++++------------------------
 1 file changed, 82 insertions(+), 59 deletions(-)

diff --git a/vsa.go b/vsa.go
index 035f2cd..58395e6 100644
--- a/vsa.go
+++ b/vsa.go
@@ -60,7 +60,8 @@ type VSA struct {
 	// rr is a round-robin counter used only under tryMu to avoid an atomic in gated paths
 	rr uint64
 
-	// approximate net vector maintained by operations
+	// net vector maintained by every operation in a single atomic step: the
+	// linearization point of Update, TryConsume, TryRefund and Commit.
 	approxNet atomic.Int64
 	// cached net value for gating when using cached gate
 	cachedNet atomic.Int64
@@ -93,6 +94,10 @@ type VSA struct {
 
 	// Small critical section for TryConsume to preserve gating semantics
 	tryMu sync.Mutex
+
+	// commitMu makes the (scalar, approxNet) pair move as one step in Commit:
+	// Commit holds it exclusively, readers of the pair hold it shared.
+	commitMu sync.RWMutex
 }
 
 // Options configures VSA construction.
@@ -217,10 +222,9 @@ func (v *VSA) Update(value int64) {
 }
 
 // Available returns the real-time available resource count: S - |A_net|.
-// We compute A_net by summing stripes and subtracting committedOffset.
+// S and A_net are taken from the same instant (see State).
 func (v *VSA) Available() int64 {
-	s := v.scalar.Load()
-	net := v.currentVector()
+	s, net := v.State()
 	return s - abs(net)
 }
 
@@ -262,9 +266,13 @@ func (v *VSA) chooseIdxForUpdate() int {
 	return int(v.chooser.Add(1)) & v.mask
 }
 
-// State returns the current scalar and effective vector values.
+// State returns the current scalar and effective vector values as one
+// consistent snapshot: a concurrent Commit is seen entirely or not at all.
 func (v *VSA) State() (scalar, vector int64) {
-	return v.scalar.Load(), v.currentVector()
+	v.commitMu.RLock()
+	scalar, vector = v.scalar.Load(), v.currentVector()
+	v.commitMu.RUnlock()
+	return scalar, vector
 }
 
 // CheckCommit determines if a commit is required for the given threshold.
@@ -291,30 +299,51 @@ func (v *VSA) Commit(committedVector int64) {
 	// A = S - |net| across commits under concurrency, we recompute the current
 	// effective net and only commit up to its magnitude, in the net's direction.
 	v.tryMu.Lock()
-	// Recompute current net under the lock to derive a safe, aligned delta.
-	net := v.currentVector()
-	if net == 0 {
-		v.tryMu.Unlock()
-		return
-	}
-	// Magnitude we can safely commit is limited by the current net, and we must
-	// move towards zero with the sign of the current net (not the possibly-stale input).
-	mag := abs(committedVector)
-	if mag > abs(net) {
-		mag = abs(net)
-	}
+	defer v.tryMu.Unlock()
+	v.commitMu.Lock()
+	defer v.commitMu.Unlock()
 	var delta int64
-	if net > 0 {
-		delta = mag // commit positive towards reducing a positive net
-	} else {
-		delta = -mag // commit negative towards reducing a negative net
+	for {
+		// Recompute current net under the lock to derive a safe, aligned delta.
+		net := v.currentVector()
+		if net == 0 {
+			return
+		}
+		// Magnitude we can safely commit is limited by the current net, and we must
+		// move towards zero with the sign of the current net (not the possibly-stale input).
+		mag := abs(committedVector)
+		if mag > abs(net) {
+			mag = abs(net)
+		}
+		if net > 0 {
+			delta = mag // commit positive towards reducing a positive net
+		} else {
+			delta = -mag // commit negative towards reducing a negative net
+		}
+		// Lock-free Updates may move the net meanwhile: retry with the new value.
+		if v.approxNet.CompareAndSwap(net, net-delta) {
+			break
+		}
 	}
 	// Apply: decrease scalar by |delta| and increase committedOffset by delta.
 	v.scalar.Add(-abs(delta))
 	v.committedOffset.Add(delta)
-	// Keep the approximate net consistent with the new committed offset
-	v.approxNet.Add(-delta)
-	v.tryMu.Unlock()
+}
+
+// reserve admits n units if they are available with the given guard left over,
+// checking and adding in one atomic step. The caller must hold tryMu or share
+// commitMu, so that S cannot move between the check and the addition.
+func (v *VSA) reserve(n, guard int64) bool {
+	for {
+		net := v.approxNet.Load()
+		avail := v.scalar.Load() - abs(net)
+		if avail < n || avail-n < guard {
+			return false
+		}
+		if v.approxNet.CompareAndSwap(net, net+n) {
+			return true
+		}
+	}
 }
 
 // TryConsume atomically checks whether at least n units are available and, if so,
@@ -325,25 +354,25 @@ func (v *VSA) TryConsume(n int64) bool {
 		return false
 	}
 	// 1) Lock-free fast path when we are far from the limit.
-	if v.fastPathGuard > 0 {
-		s := v.scalar.Load()
-		approx := v.approxNet.Load()
-		if s-abs(approx) >= n+v.fastPathGuard {
-			// Reserve without taking the lock; bounded risk thanks to guard.
+	//    If a Commit is in progress we don't wait for it here.
+	if v.fastPathGuard > 0 && v.commitMu.TryRLock() {
+		ok := v.reserve(n, v.fastPathGuard)
+		v.commitMu.RUnlock()
+		if ok {
 			idx := int(v.chooser.Add(1)) & v.mask
 			v.stripes[idx].val.Add(n)
 			if v.hGroups > 0 {
 				g := idx / v.hStride
 				v.hGroupSum[g].Add(n)
 			}
-			v.approxNet.Add(n)
 			return true
 		}
 	}
 	// 2) Serialized path with optional cached/grouped gating and exact fallback.
 	v.tryMu.Lock()
 	defer v.tryMu.Unlock()
-	// Try cached gate first when enabled.
+	// Try cached gate first when enabled. Cached and estimated values only save the
+	// exact check when they deny; an admission is always decided by reserve below.
 	if v.useCachedGate {
 		avail := v.scalar.Load() - abs(v.cachedNet.Load()) - v.cacheSlack
 		if avail < n {
@@ -371,13 +400,11 @@ func (v *VSA) TryConsume(n int64) bool {
 				return false
 			}
 		}
-	} else {
-		avail := v.scalar.Load() - abs(v.currentVector())
-		if avail < n {
-			return false
-		}
 	}
-	// Reserve by updating a stripe (use round-robin under lock to avoid an atomic)
+	if !v.reserve(n, 0) {
+		return false
+	}
+	// Record on a stripe (use round-robin under lock to avoid an atomic)
 	idx := int(v.rr) & v.mask
 	v.rr++
 	v.stripes[idx].val.Add(n)
@@ -385,7 +412,6 @@ func (v *VSA) TryConsume(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(n)
 	}
-	v.approxNet.Add(n)
 	return true
 }
 
@@ -399,12 +425,19 @@ func (v *VSA) TryRefund(n int64) bool {
 	}
 	v.tryMu.Lock()
 	defer v.tryMu.Unlock()
-	net := v.currentVector()
-	if net <= 0 {
-		return false
-	}
-	if n > net {
-		n = net // clamp: never overshoot below zero net
+	for {
+		net := v.currentVector()
+		if net <= 0 {
+			return false
+		}
+		m := n
+		if m > net {
+			m = net // clamp: never overshoot below zero net
+		}
+		if v.approxNet.CompareAndSwap(net, net-m) {
+			n = m
+			break
+		}
 	}
 	idx := int(v.rr) & v.mask
 	v.rr++
@@ -413,24 +446,14 @@ func (v *VSA) TryRefund(n int64) bool {
 		g := idx / v.hStride
 		v.hGroupSum[g].Add(-n)
 	}
-	v.approxNet.Add(-n)
 	return true
 }
 
-// currentVector computes the effective in-memory vector: sum(stripes) - committedOffset.
+// currentVector returns the effective in-memory vector. Once all operations have
+// returned it equals sum(stripes) - committedOffset, but scanning the stripes while
+// they move can yield a sum that never existed, so the net counter is used.
 func (v *VSA) currentVector() int64 {
-	var sum int64
-	if v.hGroups > 0 {
-		// Use hierarchical group sums to reduce cross-core reads
-		for i := 0; i < v.hGroups; i++ {
-			sum += v.hGroupSum[i].Load()
-		}
-	} else {
-		for i := range v.stripes {
-			sum += v.stripes[i].val.Load()
-		}
-	}
-	return sum - v.committedOffset.Load()
+	return v.approxNet.Load()
 }
 
 // runAggregator periodically refreshes cachedNet using the exact sum of stripes (or
-- 
2.43.0


From a63dd21f23440254b85a553944fd48865c5af9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:49 +0000
Subject: [PATCH 02/27] fix: clamp Commit(math.MinInt64) to the current net

abs(math.MinInt64) is negative, so the clamp let the whole value through and
both the scalar and the vector overflowed.
---
 vsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsa.go b/vsa.go
index 58395e6..21a1904 100644
--- a/vsa.go
+++ b/vsa.go
@@ -312,7 +312,7 @@ func (v *VSA) Commit(committedVector int64) {
 		// Magnitude we can safely commit is limited by the current net, and we must
 		// move towards zero with the sign of the current net (not the possibly-stale input).
 		mag := abs(committedVector)
-		if mag > abs(net) {
+		if mag < 0 || mag > abs(net) { // mag < 0: |math.MinInt64| does not fit an int64
 			mag = abs(net)
 		}
 		if net > 0 {
-- 
2.43.0


From 00f7188c6279ca4fdad701f99d69a47b7563fd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 03/27] fix: close the counter discarded by a lost creation
 race

With the cached gate on, the losing GetOrCreate left a ticker goroutine behind
for every lost race.
---
 internal/ratelimiter/core/store.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 1ef1723..207c010 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -93,6 +93,8 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
 	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+		// Ours is discarded: stop its background goroutine, if it has one.
+		inst.Close()
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, now)
 		return managed.instance
-- 
2.43.0


From 5a1ad6a8e2c5c0942542fe65c4df36685f75eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:15 +0000
Subject: [PATCH 04/27] fix: persist every amount exactly once

The commit loop, the eviction loop and the final flush could read and persist
the same vector concurrently, and a refund arriving between the persister call
and the in-memory commit left the durable total too high for good. Cycles are
serialized now, and what was persisted beyond what could be folded is carried
into the key's next row.
---
 internal/ratelimiter/core/store.go  | 14 +++++++++
 internal/ratelimiter/core/worker.go | 47 +++++++++++++++++------------
 vsa.go                              | 12 ++++++--
 3 files changed, 52 insertions(+), 21 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 207c010..8f93358 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -44,6 +44,20 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// ahead is how much more has been persisted for this key than was taken out of its
+	// vector (refunds may arrive between the two). Guarded by Worker.cycleMu.
+	ahead int64
+}
+
+// unpersisted returns the vector and the part of it that still has to be persisted.
+func (m *managedVSA) unpersisted() (vector, row int64) {
+	_, vector = m.instance.State()
+	return vector, vector - m.ahead
+}
+
+// persisted folds a vector whose unpersisted part has just been made durable.
+func (m *managedVSA) persisted(vector int64) {
+	m.ahead = vector - m.instance.CommitUpTo(vector)
 }
 
 // Store manages a collection of VSA instances in memory.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a828eaf..fd96b1e 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -24,7 +24,6 @@ import (
 	"sync"
 	"sync/atomic"
 	"time"
-	"vsa"
 	"vsa/internal/ratelimiter/telemetry/churn"
 )
 
@@ -42,6 +41,10 @@ type Worker struct {
 	stopChan           chan struct{}
 	wg                 sync.WaitGroup
 	stopped            uint32
+
+	// cycleMu serializes commit, eviction and flush cycles, so that no two of them
+	// read, persist and fold the same vector.
+	cycleMu sync.Mutex
 }
 
 // NewWorker creates and configures a new background worker.
@@ -113,15 +116,17 @@ func (w *Worker) commitLoop() {
 
 // runCommitCycle collects all necessary commits and persists them as a batch.
 func (w *Worker) runCommitCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var vsaToCommit []*managedVSA
 	var vectorsToCommit []int64
 
 	now := time.Now()
 	w.store.ForEach(func(key string, v *managedVSA) {
 		// Decide based on thresholds (with hysteresis) and optional max-age freshness.
-		_, vec := v.instance.State()
-		absVec := vec
+		vec, row := v.unpersisted()
+		absVec := row
 		if absVec < 0 {
 			absVec = -absVec
 		}
@@ -129,7 +134,7 @@ func (w *Worker) runCommitCycle() {
 		commitByThreshold := absVec >= w.commitThreshold
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
-		commitByMaxAge := w.commitMaxAge > 0 && vec != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
+		commitByMaxAge := w.commitMaxAge > 0 && row != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
 		shouldCommit := false
 		if commitByThreshold {
@@ -147,8 +152,8 @@ func (w *Worker) runCommitCycle() {
 		}
 
 		if shouldCommit {
-			commits = append(commits, Commit{Key: key, Vector: vec})
-			vsaToCommit = append(vsaToCommit, v.instance)
+			commits = append(commits, Commit{Key: key, Vector: row})
+			vsaToCommit = append(vsaToCommit, v)
 			vectorsToCommit = append(vectorsToCommit, vec)
 			// Disarm to enforce low watermark before the next threshold-based commit
 			v.armed.Store(false)
@@ -177,21 +182,23 @@ func (w *Worker) runCommitCycle() {
 
 	// On successful persistence, update the internal state of each VSA.
 	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+		vsaToCommit[i].persisted(vectorsToCommit[i])
 	}
 }
 
 // runFinalFlush commits any non-zero vectors regardless of threshold. It is intended for shutdown.
 func (w *Worker) runFinalFlush() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var commits []Commit
-	var vsaToCommit []*vsa.VSA
+	var vsaToCommit []*managedVSA
 	var vectorsToCommit []int64
 
 	w.store.ForEach(func(key string, v *managedVSA) {
-		_, vector := v.instance.State()
-		if vector != 0 {
-			commits = append(commits, Commit{Key: key, Vector: vector})
-			vsaToCommit = append(vsaToCommit, v.instance)
+		vector, row := v.unpersisted()
+		if row != 0 {
+			commits = append(commits, Commit{Key: key, Vector: row})
+			vsaToCommit = append(vsaToCommit, v)
 			vectorsToCommit = append(vectorsToCommit, vector)
 		}
 	})
@@ -212,7 +219,7 @@ func (w *Worker) runFinalFlush() {
 		churn.ObserveCommit(c.Key, c.Vector)
 	}
 	for i := range vsaToCommit {
-		vsaToCommit[i].Commit(vectorsToCommit[i])
+		vsaToCommit[i].persisted(vectorsToCommit[i])
 	}
 }
 
@@ -233,6 +240,8 @@ func (w *Worker) evictionLoop() {
 
 // runEvictionCycle finds and removes stale VSA instances.
 func (w *Worker) runEvictionCycle() {
+	w.cycleMu.Lock()
+	defer w.cycleMu.Unlock()
 	var keysToEvict []string
 	now := time.Now()
 
@@ -257,14 +266,14 @@ func (w *Worker) runEvictionCycle() {
 				// Touched recently; skip eviction.
 				continue
 			}
-			_, vector := managed.instance.State()
-			if vector != 0 {
-				fmt.Printf("  - Final commit for %s, vector: %d\n", key, vector)
-				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: vector}}); err != nil {
+			vector, row := managed.unpersisted()
+			if row != 0 {
+				fmt.Printf("  - Final commit for %s, vector: %d\n", key, row)
+				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: row}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 					continue
 				}
-				managed.instance.Commit(vector)
+				managed.persisted(vector)
 			}
 			w.store.Delete(key)
 		}
diff --git a/vsa.go b/vsa.go
index 21a1904..5504e1c 100644
--- a/vsa.go
+++ b/vsa.go
@@ -289,8 +289,15 @@ func (v *VSA) CheckCommit(threshold int64) (bool, int64) {
 // Per VSA: S_new = S_old - A_net_committed, and the in-memory vector is reduced by the same amount.
 // We do not sweep/reset stripes here to keep Update lock-free; instead we track a committedOffset.
 func (v *VSA) Commit(committedVector int64) {
+	v.CommitUpTo(committedVector)
+}
+
+// CommitUpTo is Commit, and returns the (signed) amount it took out of the vector.
+// It is less than committedVector when refunds shrank the vector after the caller
+// read it; a caller that has already persisted committedVector owes the difference.
+func (v *VSA) CommitUpTo(committedVector int64) (applied int64) {
 	if committedVector == 0 {
-		return
+		return 0
 	}
 	// Serialize with TryConsume/TryRefund so the gate observes a consistent
 	// (S, committedOffset) pair relative to the subsequent in-memory update.
@@ -307,7 +314,7 @@ func (v *VSA) Commit(committedVector int64) {
 		// Recompute current net under the lock to derive a safe, aligned delta.
 		net := v.currentVector()
 		if net == 0 {
-			return
+			return 0
 		}
 		// Magnitude we can safely commit is limited by the current net, and we must
 		// move towards zero with the sign of the current net (not the possibly-stale input).
@@ -328,6 +335,7 @@ func (v *VSA) Commit(committedVector int64) {
 	// Apply: decrease scalar by |delta| and increase committedOffset by delta.
 	v.scalar.Add(-abs(delta))
 	v.committedOffset.Add(delta)
+	return delta
 }
 
 // reserve admits n units if they are available with the given guard left over,
-- 
2.43.0


From bd767e68e0a852b827a23357dbb90b285abc68af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 05/27] fix: re-arm keys that stay hot or whose persist failed

With a low watermark, a key at or above the threshold in every cycle was
committed once and never again, and one failed batch disarmed its keys for
good. A key is re-armed when its commit left at most the low watermark, when a
further threshold has accumulated, or when its batch failed. Also never
persist empty rows (threshold <= 0).
---
 internal/ratelimiter/core/store.go  |  3 +++
 internal/ratelimiter/core/worker.go | 31 ++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 8f93358..7eccc5a 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -47,6 +47,9 @@ type managedVSA struct {
 	// ahead is how much more has been persisted for this key than was taken out of its
 	// vector (refunds may arrive between the two). Guarded by Worker.cycleMu.
 	ahead int64
+	// rearmAt re-arms a disarmed key whose unpersisted magnitude reaches it, even if
+	// it was never seen below the low watermark. Guarded by Worker.cycleMu.
+	rearmAt int64
 }
 
 // unpersisted returns the vector and the part of it that still has to be persisted.
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index fd96b1e..dcba712 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -131,21 +131,21 @@ func (w *Worker) runCommitCycle() {
 			absVec = -absVec
 		}
 		// High watermark check
-		commitByThreshold := absVec >= w.commitThreshold
+		commitByThreshold := absVec >= w.commitThreshold && row != 0
 		// Max-age: commit if no recent changes and there is a remainder
 		last := atomic.LoadInt64(&v.lastAccessed)
 		commitByMaxAge := w.commitMaxAge > 0 && row != 0 && now.Sub(time.Unix(0, last)) >= w.commitMaxAge
 
+		// Re-arm when we are (or were, right after the last commit) below the low watermark
+		// to avoid flapping, and when a key that never got there needs another commit.
+		if w.lowCommitThreshold > 0 && !v.armed.Load() && (absVec <= w.lowCommitThreshold || absVec >= v.rearmAt) {
+			v.armed.Store(true)
+		}
 		shouldCommit := false
 		if commitByThreshold {
 			if w.lowCommitThreshold <= 0 || v.armed.Load() {
 				shouldCommit = true
 			}
-		} else {
-			// Re-arm when we are below the low watermark to avoid flapping
-			if w.lowCommitThreshold > 0 && !v.armed.Load() && absVec <= w.lowCommitThreshold {
-				v.armed.Store(true)
-			}
 		}
 		if commitByMaxAge {
 			shouldCommit = true
@@ -170,7 +170,10 @@ func (w *Worker) runCommitCycle() {
 		fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
 		// First-class KPI: record commit error
 		churn.ObserveCommitError(1)
-		// In a real system, you would have retry logic here.
+		// Nothing was folded, so the next cycle has to try these keys again.
+		for _, v := range vsaToCommit {
+			v.rearmAt = 0
+		}
 		return
 	}
 
@@ -181,8 +184,18 @@ func (w *Worker) runCommitCycle() {
 	}
 
 	// On successful persistence, update the internal state of each VSA.
-	for i := range vsaToCommit {
-		vsaToCommit[i].persisted(vectorsToCommit[i])
+	for i, v := range vsaToCommit {
+		v.persisted(vectorsToCommit[i])
+		// What is left arrived during the commit. At or below the low watermark the key may
+		// commit again; above it, only once a further threshold has accumulated.
+		_, left := v.unpersisted()
+		if left < 0 {
+			left = -left
+		}
+		v.rearmAt = 0
+		if left > w.lowCommitThreshold {
+			v.rearmAt = w.commitThreshold + left
+		}
 	}
 }
 
-- 
2.43.0


From 07c04557886b7088d2582f618dba702c875c1615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 06/27] fix: don't lose requests that arrive while their key is
 evicted

A request landing between the staleness check and the removal (the persister
call sits in between) was counted on a counter nobody persists any more. The
key now stays if it was accessed meanwhile, and accesses during the removal
itself wait for its outcome.
---
 internal/ratelimiter/core/store.go  | 22 ++++++++++++++++------
 internal/ratelimiter/core/worker.go |  9 ++++++++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/ratelimiter/core/store.go b/internal/ratelimiter/core/store.go
index 7eccc5a..9cb77a8 100644
--- a/internal/ratelimiter/core/store.go
+++ b/internal/ratelimiter/core/store.go
@@ -19,6 +19,7 @@
 package core
 
 import (
+	"runtime"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -44,6 +45,10 @@ type managedVSA struct {
 	// lastAccessed stores the last access time in UnixNano to allow atomic access across goroutines.
 	lastAccessed int64
 	armed        atomic.Bool
+	// evicting is set while the worker decides whether to remove the key. An access that
+	// sees it waits for the outcome; one that doesn't is seen by the worker, which then
+	// keeps the key.
+	evicting atomic.Bool
 	// ahead is how much more has been persisted for this key than was taken out of its
 	// vector (refunds may arrive between the two). Guarded by Worker.cycleMu.
 	ahead int64
@@ -95,10 +100,17 @@ func NewStoreWithOptions(initialScalar int64, opts vsa.Options) *Store {
 // creates the key first, the extra allocation is rare and immediately discarded.
 func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	// Fast path: key already present → no allocations.
-	if actual, ok := s.counters.Load(key); ok {
+	for {
+		actual, ok := s.counters.Load(key)
+		if !ok {
+			break
+		}
 		managed := actual.(*managedVSA)
 		atomic.StoreInt64(&managed.lastAccessed, time.Now().UnixNano())
-		return managed.instance
+		if !managed.evicting.Load() {
+			return managed.instance
+		}
+		runtime.Gosched()
 	}
 
 	// Miss: lazily allocate only now.
@@ -109,12 +121,10 @@ func (s *Store) GetOrCreate(key string) *vsa.VSA {
 	newManaged.armed.Store(true)
 
 	// Try to publish; if another goroutine won the race, reuse that instance.
-	if actual, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
+	if _, loaded := s.counters.LoadOrStore(key, newManaged); loaded {
 		// Ours is discarded: stop its background goroutine, if it has one.
 		inst.Close()
-		managed := actual.(*managedVSA)
-		atomic.StoreInt64(&managed.lastAccessed, now)
-		return managed.instance
+		return s.GetOrCreate(key)
 	}
 	// We stored our new instance.
 	return newManaged.instance
diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index dcba712..a8a00f6 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -288,7 +288,14 @@ func (w *Worker) runEvictionCycle() {
 				}
 				managed.persisted(vector)
 			}
-			w.store.Delete(key)
+			// Requests may have arrived while we persisted: from here on they wait for the
+			// outcome, and if one got hold of the counter before that, the key stays.
+			managed.evicting.Store(true)
+			if atomic.LoadInt64(&managed.lastAccessed) == last {
+				w.store.Delete(key)
+			} else {
+				managed.evicting.Store(false)
+			}
 		}
 	}
 }
-- 
2.43.0


From c498d5780f52a1817e0a7d9fb1633147f7b2f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 07/27] fix: count the commits and errors of evictions in the
 churn telemetry

---
 internal/ratelimiter/core/worker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ratelimiter/core/worker.go b/internal/ratelimiter/core/worker.go
index a8a00f6..23901a2 100644
--- a/internal/ratelimiter/core/worker.go
+++ b/internal/ratelimiter/core/worker.go
@@ -284,8 +284,11 @@ func (w *Worker) runEvictionCycle() {
 				fmt.Printf("  - Final commit for %s, vector: %d\n", key, row)
 				if err := w.persister.CommitBatch([]Commit{{Key: key, Vector: row}}); err != nil {
 					fmt.Printf("ERROR: Failed to commit batch: %v\n", err)
+					churn.ObserveCommitError(1)
 					continue
 				}
+				churn.ObserveBatch(1)
+				churn.ObserveCommit(key, row)
 				managed.persisted(vector)
 			}
 			// Requests may have arrived while we persisted: from here on they wait for the
-- 
2.43.0


From afc189ce5cd55b8fbcac68fdf74e5a36b16506c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:28 +0000
Subject: [PATCH 08/27] fix: drain HTTP before the final flush on shutdown

The worker made its final flush while the server was still admitting, so
requests admitted during shutdown were never persisted.
---
 cmd/ratelimiter-api/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index d100042..2986b4f 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -222,7 +222,13 @@ func main() {
 
 	fmt.Println("\nShutting down server...")
 
-	// 7. First, stop the background worker. This will trigger a final commit
+	// 7. First, gracefully shut down the HTTP server with a timeout: once it has
+	// drained, no request can be admitted any more.
+	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
+	defer cancel()
+	shutdownErr := httpServer.Shutdown(ctx)
+
+	// 8. Now stop the background worker. This will trigger a final commit
 	// of any pending VSA vectors to ensure no data is lost.
 	worker.Stop()
 
@@ -232,11 +238,8 @@ func main() {
 	// Stop any background cached-gate aggregators inside VSA instances.
 	store.CloseAll()
 
-	// 8. Now, gracefully shut down the HTTP server with a timeout.
-	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
-	defer cancel()
-	if err := httpServer.Shutdown(ctx); err != nil {
-		log.Fatalf("Server shutdown failed: %v", err)
+	if shutdownErr != nil {
+		log.Fatalf("Server shutdown failed: %v", shutdownErr)
 	}
 
 	fmt.Println("Server gracefully stopped.")
-- 
2.43.0


From adfed3216310e4c6b215a7a34ec5c76e7f9454ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:12 +0000
Subject: [PATCH 09/27] fix: really apply Postgres commits, once, and honour
 fencing

The applied_commits marker was inserted before the counter updates, whose NOT
EXISTS guard then saw it in the same transaction and skipped every update; a
stale fencing token would not have stopped the scalar update either.
---
 internal/ratelimiter/persistence/postgres.go | 52 +++++++++++++-------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/internal/ratelimiter/persistence/postgres.go b/internal/ratelimiter/persistence/postgres.go
index 12ff200..d20403a 100644
--- a/internal/ratelimiter/persistence/postgres.go
+++ b/internal/ratelimiter/persistence/postgres.go
@@ -43,12 +43,8 @@ import (
 // Idempotent transaction per commit entry:
 //   INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3)
 //     ON CONFLICT DO NOTHING;
-//   -- If the commit exists, skip the counter update via NOT EXISTS guard.
-//   UPDATE counters
-//     SET scalar = scalar - $3
-//     WHERE key = $2 AND NOT EXISTS (
-//       SELECT 1 FROM applied_commits WHERE commit_id = $1
-//     );
+//   -- If that inserted no row, the commit was already applied: skip the rest.
+//   UPDATE counters SET scalar = scalar - $2 WHERE key = $1;
 // Optionally, pre-create the counter row to avoid UPDATE=0 when key is unknown.
 
 // PostgresPersister applies commits idempotently using the safe pattern above.
@@ -107,26 +103,48 @@ func (p *PostgresPersister) CommitBatch(ctx context.Context, entries []CommitEnt
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		// Applied marker first (OK to no-op on duplicate)
-		if _, err := tx.ExecContext(ctx,
+		res, err := tx.ExecContext(ctx,
 			`INSERT INTO applied_commits(commit_id, key, vc) VALUES ($1,$2,$3) ON CONFLICT DO NOTHING`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			e.CommitID, e.Key, e.Vector)
+		if err != nil {
+			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
+		}
+		inserted, err := res.RowsAffected()
+		if err != nil {
 			return fmt.Errorf("insert applied_commits(%s): %w", e.CommitID, err)
 		}
+		if inserted == 0 {
+			// Already applied: skip, unless the id was used for another key.
+			var key string
+			if err := tx.QueryRowContext(ctx,
+				`SELECT key FROM applied_commits WHERE commit_id = $1`, e.CommitID).Scan(&key); err != nil {
+				return fmt.Errorf("select applied_commits(%s): %w", e.CommitID, err)
+			}
+			if key != e.Key {
+				return fmt.Errorf("commit id %s was already applied for key %q, not %q", e.CommitID, key, e.Key)
+			}
+			continue
+		}
 		// Optional fencing: require provided token to be >= last_token, then set it.
 		if e.FencingToken != nil {
-			// Update last_token only if we're not re-applying a known commit id.
-			if _, err := tx.ExecContext(ctx,
-				`UPDATE counters SET last_token = GREATEST(COALESCE(last_token, $3), $3)
-                  WHERE key = $1 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $2) AND (last_token IS NULL OR $3 >= last_token)`,
-				e.Key, e.CommitID, *e.FencingToken); err != nil {
+			res, err := tx.ExecContext(ctx,
+				`UPDATE counters SET last_token = $2 WHERE key = $1 AND (last_token IS NULL OR last_token <= $2)`,
+				e.Key, *e.FencingToken)
+			if err != nil {
 				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
 			}
+			current, err := res.RowsAffected()
+			if err != nil {
+				return fmt.Errorf("update last_token(%s): %w", e.Key, err)
+			}
+			if current == 0 {
+				continue // a newer writer has taken over this key: fenced off
+			}
 		}
-		// Apply scalar update if the commit was not already applied.
+		// Apply scalar update.
 		if _, err := tx.ExecContext(ctx,
-			`UPDATE counters SET scalar = scalar - $3
-               WHERE key = $2 AND NOT EXISTS (SELECT 1 FROM applied_commits WHERE commit_id = $1)`,
-			e.CommitID, e.Key, e.Vector); err != nil {
+			`UPDATE counters SET scalar = scalar - $2 WHERE key = $1`,
+			e.Key, e.Vector); err != nil {
 			return fmt.Errorf("update counters(%s): %w", e.Key, err)
 		}
 	}
-- 
2.43.0


From bcbbf6b146dfc9e6d804e6c6323d863034fc7b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:47 +0000
Subject: [PATCH 10/27] fix: keep S-lane cells apart and never fill the table

Cells were identified by a packed 64-bit id only: cells sharing it were merged,
a cell whose id is 0 (the empty marker) was dropped, and once every slot was
taken the probe loop never ended. Cells are compared by their full ids now and
the table grows at 3/4 load.
---
 plugin/tfd/saccumulator.go | 61 ++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/plugin/tfd/saccumulator.go b/plugin/tfd/saccumulator.go
index 09291d8..e080c01 100644
--- a/plugin/tfd/saccumulator.go
+++ b/plugin/tfd/saccumulator.go
@@ -28,7 +28,7 @@ func packKeyBucket(keyID, bucketID uint64) uint64 {
 
 // SShard is a single-writer accumulator with an open-addressed table.
 type SShard struct {
-	keys      []uint64 // 0 means empty; packed composite key for probing only
+	keys      []uint64 // 0 means empty; start of the probe sequence otherwise
 	keyIDs    []uint64
 	bucketIDs []uint64
 	sums      []int64
@@ -57,32 +57,67 @@ func newSShard(orderPow2 uint, countThreshold int, timeCap time.Duration) *SShar
 	}
 }
 
-func (s *SShard) probe(k uint64) int {
+// slotKey is packKeyBucket, except that it is never the empty marker 0.
+func slotKey(keyID, bucketID uint64) uint64 {
+	if k := packKeyBucket(keyID, bucketID); k != 0 {
+		return k
+	}
+	return 1
+}
+
+// probe returns the slot of a cell, or the empty slot to put it into. The packed
+// key k is not unique, so cells are compared by their full ids.
+func (s *SShard) probe(k, keyID, bucketID uint64) int {
 	// simple linear probing
 	i := int(k & s.mask)
 	for {
-		kk := s.keys[i]
-		if kk == 0 || kk == k {
+		if s.keys[i] == 0 || (s.keyIDs[i] == keyID && s.bucketIDs[i] == bucketID) {
 			return i
 		}
 		i = (i + 1) & int(s.mask)
 	}
 }
 
-// Ingest merges an S-envelope's delta into the shard accumulator.
-func (s *SShard) Ingest(env Envelope) {
-	k := packKeyBucket(env.Footprint.KeyID, env.Footprint.Time.BucketID)
-	i := s.probe(k)
+// add merges a delta into the cell's slot.
+func (s *SShard) add(keyID, bucketID uint64, delta int64, seqEnd uint64) {
+	k := slotKey(keyID, bucketID)
+	i := s.probe(k, keyID, bucketID)
 	if s.keys[i] == 0 {
 		s.keys[i] = k
-		s.keyIDs[i] = env.Footprint.KeyID
-		s.bucketIDs[i] = env.Footprint.Time.BucketID
+		s.keyIDs[i] = keyID
+		s.bucketIDs[i] = bucketID
 		s.used++
 	}
-	s.sums[i] += env.Delta
-	if env.SeqEnd > s.seqEnds[i] {
-		s.seqEnds[i] = env.SeqEnd
+	s.sums[i] += delta
+	if seqEnd > s.seqEnds[i] {
+		s.seqEnds[i] = seqEnd
+	}
+}
+
+// grow doubles the table. probe relies on there always being an empty slot.
+func (s *SShard) grow() {
+	old := *s
+	n := 2 * len(old.keys)
+	s.keys = make([]uint64, n)
+	s.keyIDs = make([]uint64, n)
+	s.bucketIDs = make([]uint64, n)
+	s.sums = make([]int64, n)
+	s.seqEnds = make([]uint64, n)
+	s.mask = uint64(n - 1)
+	s.used = 0
+	for i := range old.keys {
+		if old.keys[i] != 0 {
+			s.add(old.keyIDs[i], old.bucketIDs[i], old.sums[i], old.seqEnds[i])
+		}
+	}
+}
+
+// Ingest merges an S-envelope's delta into the shard accumulator.
+func (s *SShard) Ingest(env Envelope) {
+	if 4*(s.used+1) > 3*len(s.keys) {
+		s.grow()
 	}
+	s.add(env.Footprint.KeyID, env.Footprint.Time.BucketID, env.Delta, env.SeqEnd)
 	// time-based flush check
 	s.maybeFlush()
 }
-- 
2.43.0


From cd987580f47d5daaaf3646356b26ff41a27f2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 11/27] fix: S-lane Flush and Stop always return

Flush during or after Stop, a second Stop, Stop before Start and Ingest into a
full buffer of a stopped service panicked or blocked forever, and steady
producers could keep a Flush draining without end.
---
 plugin/tfd/sservice.go | 44 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/plugin/tfd/sservice.go b/plugin/tfd/sservice.go
index 9b211ee..99fd75c 100644
--- a/plugin/tfd/sservice.go
+++ b/plugin/tfd/sservice.go
@@ -49,6 +49,8 @@ type SService struct {
 	doneCh chan struct{}
 	opts   SServiceOptions
 	once   sync.Once
+	// stopOnce makes Stop idempotent
+	stopOnce sync.Once
 	// flushReqCh allows external callers to request an immediate flush on the service goroutine and wait for completion
 	flushReqCh chan chan struct{}
 }
@@ -82,8 +84,10 @@ func (s *SService) Start() {
 }
 
 // Stop asks the worker to stop, performs a final flush, and waits for completion.
+// It may be called several times, and before Start.
 func (s *SService) Stop() {
-	close(s.stopCh)
+	s.stopOnce.Do(func() { close(s.stopCh) })
+	s.Start() // if it never ran, run it for the final flush
 	<-s.doneCh
 }
 
@@ -92,18 +96,29 @@ func (s *SService) Stop() {
 // time-capped batching and log inspection.
 func (s *SService) Flush() {
 	done := make(chan struct{})
-	// Send a synchronous flush request and wait for completion
-	s.flushReqCh <- done
-	<-done
+	// Send a synchronous flush request and wait for completion. A worker that stops
+	// meanwhile makes its final flush instead.
+	select {
+	case s.flushReqCh <- done:
+	case <-s.doneCh:
+		return
+	}
+	select {
+	case <-done:
+	case <-s.doneCh:
+	}
 }
 
 // Ingest enqueues a Scalar envelope (Vector is ignored). It blocks if the buffer
-// is full.
+// is full, unless the service has stopped.
 func (s *SService) Ingest(env Envelope) {
 	if env.Channel != ChannelScalar {
 		return
 	}
-	s.in <- env
+	select {
+	case s.in <- env:
+	case <-s.doneCh:
+	}
 }
 
 // TryIngest attempts to enqueue without blocking. Returns false if the buffer is full.
@@ -147,20 +162,13 @@ func (s *SService) run() {
 		case <-ticker.C:
 			flush()
 		case done := <-s.flushReqCh:
-			// Synchronous flush requested by caller: drain pending ingress, then flush
-			drain := func() {
-				for {
-					select {
-					case env := <-s.in:
-						if env.Channel == ChannelScalar {
-							s.acc.Ingest(env)
-						}
-					default:
-						return
-					}
+			// Synchronous flush requested by caller: drain pending ingress, then flush.
+			// Only what is queued by now, so that busy producers can't hold up the caller.
+			for n := len(s.in); n > 0; n-- {
+				if env := <-s.in; env.Channel == ChannelScalar {
+					s.acc.Ingest(env)
 				}
 			}
-			drain()
 			flush()
 			close(done)
 		case <-s.stopCh:
-- 
2.43.0


From f0cac80f16e5f38f35754ff3eaacbd0b4385953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 12/27] fix: make the V-lane safe for concurrent use and
 persist its audit link

Concurrent Handle and DrainV calls (tfd-proxy makes them from every request)
wrote the actor map and queues without synchronization, which crashes the
process. The persistence callback got the envelope without its audit link.
---
 plugin/tfd/pipeline.go |  2 +-
 plugin/tfd/vactors.go  | 22 +++++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/plugin/tfd/pipeline.go b/plugin/tfd/pipeline.go
index 1d0a785..c27680f 100644
--- a/plugin/tfd/pipeline.go
+++ b/plugin/tfd/pipeline.go
@@ -89,7 +89,7 @@ func (p *Pipeline) Handle(env Envelope, persistV func(Envelope)) {
 		return
 	}
 	act := p.v.Route(env.Footprint.KeyID)
-	act.Enqueue(env)
+	env = act.Enqueue(env)
 	if persistV != nil {
 		persistV(env)
 	}
diff --git a/plugin/tfd/vactors.go b/plugin/tfd/vactors.go
index e596177..82e3d1e 100644
--- a/plugin/tfd/vactors.go
+++ b/plugin/tfd/vactors.go
@@ -18,10 +18,13 @@ package tfd
 
 import (
 	"container/list"
+	"sync"
 )
 
-// VActor represents a per-key ordered queue with an audit chain.
+// VActor represents a per-key ordered queue with an audit chain. It is safe for
+// concurrent use.
 type VActor struct {
+	mu    sync.Mutex
 	keyID uint64
 	prev  [16]byte
 	queue *list.List // of Envelope
@@ -31,19 +34,25 @@ func newVActor(keyID uint64) *VActor {
 	return &VActor{keyID: keyID, queue: list.New()}
 }
 
-// Enqueue appends a V-envelope and updates the prev-hash link.
-func (a *VActor) Enqueue(env Envelope) {
+// Enqueue appends a V-envelope and updates the prev-hash link. It returns the
+// envelope as queued, including the link.
+func (a *VActor) Enqueue(env Envelope) Envelope {
 	if env.Channel != ChannelVector {
-		return
+		return env
 	}
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	// compute prev-hash as a function of key and last seqEnd
 	a.prev = Hash128(a.keyID, env.SeqEnd)
 	env.HashPrev = a.prev
 	a.queue.PushBack(env)
+	return env
 }
 
 // Drain returns all queued envelopes in order and clears the queue.
 func (a *VActor) Drain() []Envelope {
+	a.mu.Lock()
+	defer a.mu.Unlock()
 	var out []Envelope
 	for e := a.queue.Front(); e != nil; e = e.Next() {
 		out = append(out, e.Value.(Envelope))
@@ -52,8 +61,9 @@ func (a *VActor) Drain() []Envelope {
 	return out
 }
 
-// VRouter sharded map from keyID to actor.
+// VRouter sharded map from keyID to actor. It is safe for concurrent use.
 type VRouter struct {
+	mu     sync.Mutex
 	actors map[uint64]*VActor
 }
 
@@ -62,6 +72,8 @@ func NewVRouter() *VRouter {
 }
 
 func (r *VRouter) Route(keyID uint64) *VActor {
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	act := r.actors[keyID]
 	if act == nil {
 		act = newVActor(keyID)
-- 
2.43.0


From efac147e49d96392900cd372b9ec9143923b9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 13/27] fix: terminate a torn last line when a log is reopened

A crash can leave the last JSONL record half-written. Appending straight
after it glued the next record to the torn one, so a complete, flushed
record was skipped on replay.
---
 internal/sinks/sbatch_file_sink.go | 24 +++++++++++++++++++++++-
 internal/sinks/venv_file_sink.go   |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 29e77ea..49f2dcf 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -40,7 +40,7 @@ type SBatchFileSink struct {
 // NewSBatchFileSink opens (or creates) the file at path in append mode with
 // a buffered writer. Call Close() when done.
 func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
@@ -48,6 +48,28 @@ func NewSBatchFileSink(path string) (*SBatchFileSink, error) {
 	return s, nil
 }
 
+// openLog opens (or creates) a JSONL log for appending. If a crash left the last
+// line torn, it is terminated first, so that the next record starts a line of its
+// own instead of being glued to the torn one and lost with it on replay.
+func openLog(path string) (*os.File, error) {
+	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_RDWR, 0o644)
+	if err != nil {
+		return nil, err
+	}
+	st, err := f.Stat()
+	if err == nil && st.Mode().IsRegular() && st.Size() > 0 {
+		var last [1]byte
+		if _, err = f.ReadAt(last[:], st.Size()-1); err == nil && last[0] != '\n' {
+			_, err = f.Write([]byte{'\n'})
+		}
+	}
+	if err != nil {
+		_ = f.Close()
+		return nil, err
+	}
+	return f, nil
+}
+
 // OnSBatches writes the batches as JSON lines.
 func (s *SBatchFileSink) OnSBatches(b []tfd.SBatch) {
 	if len(b) == 0 {
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 991c15d..82f64b9 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -37,7 +37,7 @@ type VEnvFileSink struct {
 }
 
 func NewVEnvFileSink(path string) (*VEnvFileSink, error) {
-	f, err := os.OpenFile(path, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
+	f, err := openLog(path)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e825070bdb904ef19cf2f4978ae4284762b75495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 14/27] fix: GET /state without a key returned an empty body

map[[2]uint64]int64 is not a JSON-encodable map, so the encoder failed
before writing anything. Use the same "key:bucket" form as the per-key
answer.
---
 cmd/tfd-proxy/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index eb94b4c..0117509 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -333,8 +333,12 @@ func main() {
 			_ = json.NewEncoder(w).Encode(m)
 			return
 		}
-		// dump everything
-		_ = json.NewEncoder(w).Encode(st.Cells())
+		// dump everything (JSON object keys must be strings, so not the map of arrays itself)
+		m := map[string]int64{}
+		for kb, v := range st.Cells() {
+			m[fmt.Sprintf("%d:%d", kb[0], kb[1])] = v
+		}
+		_ = json.NewEncoder(w).Encode(m)
 	})
 
 	go func() {
-- 
2.43.0


From 08792a36c239cbc0a9b71e897c7768f5ec4f8656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:32 +0000
Subject: [PATCH 15/27] fix: drain HTTP in tfd-proxy before the lanes are
 flushed on shutdown

Requests answered 202 while the process was terminating could reach the
pipeline after its final flush, or the V log after it was closed.
---
 cmd/tfd-proxy/main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 0117509..6ae76f4 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -17,7 +17,9 @@
 package main
 
 import (
+	"context"
 	"encoding/json"
+	"errors"
 	"flag"
 	"fmt"
 	"log"
@@ -341,9 +343,10 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
-		if err := http.ListenAndServe(*addr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && !errors.Is(err, http.ErrServerClosed) {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -352,4 +355,12 @@ func main() {
 	sigCh := make(chan os.Signal, 1)
 	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
+
+	// Let in-flight requests finish before the deferred Stop/Close calls flush the
+	// lanes, so that every operation that was answered with 202 reaches its log.
+	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+	}
 }
-- 
2.43.0


From b99532ced9d827946fdee0cc9225d07e596a1287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 16/27] fix: apply every int64 vector exactly in Redis, or
 report it

The script negated the vector as a Lua number: beyond 2^53 it lost digits,
and from 1e17 on HINCRBY refused it after the marker had been set, so that
the retry took the commit for applied. Negate the string, and set the
marker after the update.
---
 internal/ratelimiter/persistence/redis.go | 27 +++++++++++++++--------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index f77618d..abbd6c9 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -30,10 +30,10 @@ type RedisEvaler interface {
 }
 
 // RedisPersister applies commits idempotently using a Lua script:
-// 1) SETNX commit:<key>:<commit_id> 1
-// 2) If set -> HINCRBY counter:<key> scalar -vector
+// 1) If commit:<key>:<commit_id> does not exist -> HINCRBY counter:<key> scalar -vector
+// 2) SET commit:<key>:<commit_id> 1
 // 3) EXPIRE the marker (TTL) for leak protection
-// If SETNX fails (already applied), returns OK and makes no changes.
+// If the marker exists (already applied), returns OK and makes no changes.
 type RedisPersister struct {
 	client    RedisEvaler
 	markerTTL time.Duration
@@ -53,13 +53,22 @@ func NewRedisPersister(client RedisEvaler, markerTTL time.Duration) *RedisPersis
 const redisLuaScript = `
 local counterKey = KEYS[1]
 local markerKey = KEYS[2]
-local vector = tonumber(ARGV[1])
+local vector = ARGV[1]
 local ttlSeconds = tonumber(ARGV[2])
--- try to set the idempotency marker
-local set = redis.call('SETNX', markerKey, 1)
-if set == 1 then
-  -- apply the update; convention: scalar = scalar - vector
-  redis.call('HINCRBY', counterKey, 'scalar', -vector)
+-- negate the decimal string: Lua numbers are doubles and can't hold every int64
+local delta
+if tonumber(vector) == 0 then
+  delta = '0'
+elseif string.sub(vector, 1, 1) == '-' then
+  delta = string.sub(vector, 2)
+else
+  delta = '-' .. vector
+end
+if redis.call('EXISTS', markerKey) == 0 then
+  -- apply the update; convention: scalar = scalar - vector. An error here aborts the
+  -- script, so the marker is only set once the update has been applied.
+  redis.call('HINCRBY', counterKey, 'scalar', delta)
+  redis.call('SET', markerKey, 1)
   if ttlSeconds and ttlSeconds > 0 then
     redis.call('EXPIRE', markerKey, ttlSeconds)
   end
-- 
2.43.0


From cd76504074fd61a5bafcaf7be1f89388bc8215d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 17/27] fix: give every (key, commit id) its own Redis marker

("a", "b:c") and ("a:b", "c") shared a marker key, so the second of them
was taken for already applied and lost.
---
 internal/ratelimiter/persistence/redis.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index abbd6c9..2ed8c54 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -20,6 +20,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"strings"
 	"time"
 )
 
@@ -81,10 +82,15 @@ end
 
 // Keys layout helpers (public for interoperability with other components)
 func RedisCounterKey(key string) string { return fmt.Sprintf("counter:%s", key) }
+
+// RedisCommitMarkerKey is the marker of one commit. The id is escaped so that it holds no ':', and a marker key belongs to exactly
+// one (key, commit id): neither ("a", "b:c") nor ("a:b", "c") is taken for the other.
 func RedisCommitMarkerKey(key, commitID string) string {
-	return fmt.Sprintf("commit:%s:%s", key, commitID)
+	return fmt.Sprintf("commit:%s:%s", key, commitIDEscaper.Replace(commitID))
 }
 
+var commitIDEscaper = strings.NewReplacer("%", "%25", ":", "%3A")
+
 // CommitBatch applies entries using a single EVAL to reduce RTT via scripting per entry.
 // Some clients support pipelining; callers can wrap batching externally if needed.
 func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry) error {
-- 
2.43.0


From 343c7a9759cffe2da5ccf0adc72b3d8fd271255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 18/27] fix: round the Redis marker TTL up to whole seconds

A TTL of 1.9s kept the marker for one second only, so a retry inside the
configured window was applied twice.
---
 internal/ratelimiter/persistence/redis.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/ratelimiter/persistence/redis.go b/internal/ratelimiter/persistence/redis.go
index 2ed8c54..9f2d855 100644
--- a/internal/ratelimiter/persistence/redis.go
+++ b/internal/ratelimiter/persistence/redis.go
@@ -97,12 +97,14 @@ func (r *RedisPersister) CommitBatch(ctx context.Context, entries []CommitEntry)
 	if len(entries) == 0 {
 		return nil
 	}
+	// Whole seconds, rounded up: the marker must not expire before the configured TTL.
+	ttlSeconds := int((r.markerTTL + time.Second - 1) / time.Second)
 	for _, e := range entries {
 		if e.CommitID == "" {
 			return errors.New("CommitEntry.CommitID must be set")
 		}
 		keys := []string{RedisCounterKey(e.Key), RedisCommitMarkerKey(e.Key, e.CommitID)}
-		args := []interface{}{e.Vector, int(r.markerTTL.Seconds())}
+		args := []interface{}{e.Vector, ttlSeconds}
 		if _, err := r.client.Eval(ctx, redisLuaScript, keys, args...); err != nil {
 			return fmt.Errorf("redis eval key=%s commit=%s: %w", e.Key, e.CommitID, err)
 		}
-- 
2.43.0


From 54ae09ecd31347e60d10b75557f4f1f63fe05e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:33 +0000
Subject: [PATCH 19/27] fix: report a failed final flush when a log is closed

---
 internal/sinks/sbatch_file_sink.go | 7 +++++--
 internal/sinks/venv_file_sink.go   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/sinks/sbatch_file_sink.go b/internal/sinks/sbatch_file_sink.go
index 49f2dcf..1426886 100644
--- a/internal/sinks/sbatch_file_sink.go
+++ b/internal/sinks/sbatch_file_sink.go
@@ -104,8 +104,11 @@ func (s *SBatchFileSink) Flush() error {
 func (s *SBatchFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllSLog reads the entire S-batch log file as a slice. Intended for demo/replay.
diff --git a/internal/sinks/venv_file_sink.go b/internal/sinks/venv_file_sink.go
index 82f64b9..a9d7c7a 100644
--- a/internal/sinks/venv_file_sink.go
+++ b/internal/sinks/venv_file_sink.go
@@ -81,8 +81,11 @@ func (s *VEnvFileSink) Flush() error {
 func (s *VEnvFileSink) Close() error {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	_ = s.w.Flush()
-	return s.f.Close()
+	err := s.w.Flush()
+	if cerr := s.f.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 // ReadAllVLog reads the Vector envelope log for replay.
-- 
2.43.0


From c435c6947722184deb9946669fd9b328436a5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:18 +0000
Subject: [PATCH 20/27] fix: no panic when churn telemetry is reconfigured
 right after being enabled

---
 internal/ratelimiter/telemetry/churn/exporter.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/internal/ratelimiter/telemetry/churn/exporter.go b/internal/ratelimiter/telemetry/churn/exporter.go
index c5f7b34..b5c9f47 100644
--- a/internal/ratelimiter/telemetry/churn/exporter.go
+++ b/internal/ratelimiter/telemetry/churn/exporter.go
@@ -88,15 +88,13 @@ func startOrUpdateExporter(cfg Config) {
 	// Start new loop
 	exporterStop = make(chan struct{})
 	exporterDone = make(chan struct{})
-	go exporterLoop(exporterStop, exporterDone)
+	go exporterLoop(cfg.LogInterval, exporterStop, exporterDone)
 }
 
-func exporterLoop(stop <-chan struct{}, done chan<- struct{}) {
+func exporterLoop(interval time.Duration, stop <-chan struct{}, done chan<- struct{}) {
 	defer close(done)
-	cfgAny := currCfg.Load()
-	cfg, _ := cfgAny.(Config)
-	// cfg.LogInterval is guaranteed > 0 by the starter
-	ticker := time.NewTicker(cfg.LogInterval)
+	// interval is guaranteed > 0 by the starter; currCfg may already hold a later configuration
+	ticker := time.NewTicker(interval)
 	defer ticker.Stop()
 	for {
 		select {
-- 
2.43.0


From 388da3f722e41f3da7b82511558c20fcb488a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:13 +0000
Subject: [PATCH 21/27] fix: tfd-sim no longer records the time since 1970 as
 its first flush interval

---
 cmd/tfd-sim/main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index c608672..1f2574e 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -62,9 +62,10 @@ type metricSink struct {
 }
 
 func (m *metricSink) OnSBatches(b []tfd.SBatch) {
-	prev := time.Unix(0, m.last.Swap(time.Now().UnixNano()))
-	if !prev.IsZero() && m.flushHist != nil {
-		m.flushHist.Observe(time.Since(prev).Seconds())
+	now := time.Now().UnixNano()
+	// 0 means there was no previous write to measure from.
+	if prev := m.last.Swap(now); prev != 0 && m.flushHist != nil {
+		m.flushHist.Observe(time.Duration(now - prev).Seconds())
 	}
 	m.inner.OnSBatches(b)
 }
-- 
2.43.0


From d0b24ee4074fe7a762b1ac3bab6a7d8c742af2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 22/27] fix: tfd-sim logs V operations with their audit link

---
 cmd/tfd-sim/main.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 1f2574e..5459699 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -261,8 +261,7 @@ func main() {
 			}
 			sOps.Inc()
 		} else {
-			vr.Route(fp.KeyID).Enqueue(env)
-			vSink.Append(env)
+			vSink.Append(vr.Route(fp.KeyID).Enqueue(env))
 			vOps.Inc()
 		}
 		w.WriteHeader(202)
@@ -318,8 +317,7 @@ func main() {
 						}
 						sOps.Inc()
 					} else {
-						vr.Route(fp.KeyID).Enqueue(env)
-						vSink.Append(env)
+						vSink.Append(vr.Route(fp.KeyID).Enqueue(env))
 						vOps.Inc()
 					}
 				}
-- 
2.43.0


From 402c468952796532965589ef9523cc5452a4d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 23/27] fix: tfd-sim finishes what is under way before its logs
 are closed

---
 cmd/tfd-sim/main.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 5459699..94c5964 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -17,6 +17,8 @@
 package main
 
 import (
+	"context"
+	"errors"
 	"flag"
 	"fmt"
 	"log"
@@ -266,9 +268,10 @@ func main() {
 		}
 		w.WriteHeader(202)
 	})
+	srv := &http.Server{Addr: *httpAddr}
 	go func() {
 		log.Printf("tfd-sim listening on %s", *httpAddr)
-		if err := http.ListenAndServe(*httpAddr, nil); err != nil {
+		if err := srv.ListenAndServe(); err != nil && !errors.Is(err, http.ErrServerClosed) {
 			log.Fatalf("http: %v", err)
 		}
 	}()
@@ -276,7 +279,9 @@ func main() {
 	// Generator loop
 	rng := rand.New(rand.NewSource(time.Now().UnixNano()))
 	stop := make(chan struct{})
+	generated := make(chan struct{}) // closed when the generator has ended
 	go func() {
+		defer close(generated)
 		interval := time.Second / time.Duration(max(1, *qps))
 		ticker := time.NewTicker(interval)
 		defer ticker.Stop()
@@ -288,6 +293,11 @@ func main() {
 			case <-ticker.C:
 				burstLeft += *burst
 				for burstLeft > 0 {
+					select {
+					case <-stop:
+						return
+					default:
+					}
 					burstLeft--
 					totalOps.Inc()
 					// pick key and bucket
@@ -337,8 +347,16 @@ func main() {
 	case <-endTimer:
 	}
 	close(stop)
-	// allow some time to flush
-	time.Sleep(200 * time.Millisecond)
+
+	// Let the operation under way and in-flight requests finish before the deferred
+	// Stop/Close calls flush the lanes, so that every operation that was counted or
+	// answered with 202 reaches its log.
+	<-generated
+	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+	defer cancel()
+	if err := srv.Shutdown(ctx); err != nil {
+		log.Printf("http shutdown: %v", err)
+	}
 }
 
 func max(a, b int) int {
-- 
2.43.0


From c6164f1a8eb67730421795801a28d80c6d548c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 24/27] fix: http-loadgen uses all of its cold keys

---
 tools/http-loadgen/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/http-loadgen/main.go b/tools/http-loadgen/main.go
index c7baef5..713079b 100644
--- a/tools/http-loadgen/main.go
+++ b/tools/http-loadgen/main.go
@@ -118,7 +118,8 @@ func main() {
 				if ((i + id) % *hotEvery) != 0 {
 					k = *hotKey
 				} else {
-					idx := ((i + id) % *coldN) + 1
+					// count the cold requests, so that each of the cold keys gets its turn
+					idx := ((i + id) / *hotEvery % *coldN) + 1
 					k = fmt.Sprintf("cold-%d", idx)
 				}
 			}
-- 
2.43.0


From 41b428253b6896f5a872286135ea7cdb0fa0bc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 25/27] fix: ratelimiter-api watches for signals before it can
 answer requests

A SIGTERM or SIGINT that arrived after the first answers but before signal.Notify
ended the process without flushing what those answers had acknowledged.
---
 cmd/ratelimiter-api/main.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmd/ratelimiter-api/main.go b/cmd/ratelimiter-api/main.go
index 2986b4f..6a9b0bf 100644
--- a/cmd/ratelimiter-api/main.go
+++ b/cmd/ratelimiter-api/main.go
@@ -206,6 +206,11 @@ func main() {
 		Handler: mux,
 	}
 
+	// Be ready for signals before the first request can be answered: one that came
+	// earlier than this would end the process without the final flush.
+	stop := make(chan os.Signal, 1)
+	signal.Notify(stop, syscall.SIGINT, syscall.SIGTERM)
+
 	// 5. Start the HTTP server in a separate goroutine so it doesn't block.
 	go func() {
 		fmt.Printf("Rate limiter API server listening on %s\n", *httpAddr)
@@ -214,10 +219,8 @@ func main() {
 		}
 	}()
 
-	// 6. Set up graceful shutdown.
+	// 6. Graceful shutdown.
 	// We'll wait here for an OS signal.
-	stop := make(chan os.Signal, 1)
-	signal.Notify(stop, syscall.SIGINT, syscall.SIGTERM)
 	<-stop // Block until a signal is received.
 
 	fmt.Println("\nShutting down server...")
-- 
2.43.0


From eb9aa9cb67a5b6e38d9018734b0f602db50b6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 26/27] fix: tfd-proxy watches for signals before it can answer
 requests

A SIGTERM or SIGINT that arrived after the first answers but before signal.Notify
ended the process without flushing what those answers had acknowledged.
---
 cmd/tfd-proxy/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-proxy/main.go b/cmd/tfd-proxy/main.go
index 6ae76f4..56eb41b 100644
--- a/cmd/tfd-proxy/main.go
+++ b/cmd/tfd-proxy/main.go
@@ -343,6 +343,11 @@ func main() {
 		_ = json.NewEncoder(w).Encode(m)
 	})
 
+	// Be ready for signals before the first request can be answered: one that came
+	// earlier than this would end the process without flushing.
+	sigCh := make(chan os.Signal, 1)
+	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
+
 	srv := &http.Server{Addr: *addr}
 	go func() {
 		log.Printf("tfd-proxy listening on %s", *addr)
@@ -352,8 +357,6 @@ func main() {
 	}()
 
 	// Wait for termination
-	sigCh := make(chan os.Signal, 1)
-	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	<-sigCh
 
 	// Let in-flight requests finish before the deferred Stop/Close calls flush the
-- 
2.43.0


From 4daa1c1a3bf9bb60becf58cf5c053277acf97321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:58 +0000
Subject: [PATCH 27/27] fix: tfd-sim watches for signals before it can answer
 requests

A SIGTERM or SIGINT that arrived after the first answers but before signal.Notify
ended the process without flushing what those answers had acknowledged.
---
 cmd/tfd-sim/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/tfd-sim/main.go b/cmd/tfd-sim/main.go
index 94c5964..3f83b65 100644
--- a/cmd/tfd-sim/main.go
+++ b/cmd/tfd-sim/main.go
@@ -268,6 +268,11 @@ func main() {
 		}
 		w.WriteHeader(202)
 	})
+	// Be ready for signals before the first request can be answered: one that came
+	// earlier than this would end the process without flushing.
+	sigCh := make(chan os.Signal, 1)
+	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
+
 	srv := &http.Server{Addr: *httpAddr}
 	go func() {
 		log.Printf("tfd-sim listening on %s", *httpAddr)
@@ -336,8 +341,6 @@ func main() {
 	}()
 
 	// Handle termination
-	sigCh := make(chan os.Signal, 1)
-	signal.Notify(sigCh, os.Interrupt, syscall.SIGTERM)
 	var endTimer <-chan time.Time
 	if *duration > 0 {
 		endTimer = time.After(*duration)
-- 
2.43.0

