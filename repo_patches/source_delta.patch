From a6d1b683a4d45630d481154b01d2d5adc203c549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:38 +0000
Subject: [PATCH 01/21] fix: keep every other value when removing a duplicate
 from a red-black tree

---
 quantile/ost/rb/node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index a1e7b29..e533896 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -112,16 +112,19 @@ func (n *Node) remove(val float64) *Node {
 		}
 		n.left = n.left.remove(val)
 	} else {
+		// The rotations below can move a different node with the same value into
+		// n's place, so the node to remove is identified by more than its value.
+		target := n
 		if n.left.Color() == Red {
 			n = n.rotateRight()
 		}
-		if val == n.val && n.right == nil {
+		if n == target && val == n.val && n.right == nil {
 			return nil
 		}
 		if n.right.Color() == Black && n.right.left.Color() == Black {
 			n = n.moveRedRight()
 		}
-		if val == n.val {
+		if n == target && val == n.val {
 			x := n.right.min()
 			n.val = x.val
 			n.right = n.right.removeMin()
-- 
2.43.0


From b27cbc8cc45862dd98ef0e87865f1e3e15fd3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 02/21] fix: measure skip list widths up to the next node
 itself, not to the next equal value

---
 quantile/skiplist/skiplist.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/quantile/skiplist/skiplist.go b/quantile/skiplist/skiplist.go
index cde2ca6..d5c7d3b 100644
--- a/quantile/skiplist/skiplist.go
+++ b/quantile/skiplist/skiplist.go
@@ -31,10 +31,6 @@ func (n *Node) Value() float64 {
 	return n.val
 }
 
-func (n *Node) equals(m *Node) bool {
-	return (n == nil && m == nil) || (n != nil && m != nil && n.val == m.val)
-}
-
 func (n *Node) string() string {
 	if n == nil {
 		return "tail"
@@ -129,7 +125,7 @@ func (s *SkipList) Add(val float64) {
 		prevs[i].width[i]++
 	}
 	for i := 1; i < level; i++ {
-		for curr := node; !curr.equals(node.next[i]); curr = curr.next[i-1] {
+		for curr := node; curr != node.next[i]; curr = curr.next[i-1] {
 			node.width[i] += curr.width[i-1]
 		}
 		prevs[i].width[i] -= node.width[i]
-- 
2.43.0


From 350192c06abe2a959db500eabbcbe42e88cee86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:11 +0000
Subject: [PATCH 03/21] fix: count only strictly lesser values in tree Rank
 when a value is duplicated

---
 quantile/ost/avl/node.go | 5 ++---
 quantile/ost/rb/node.go  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/quantile/ost/avl/node.go b/quantile/ost/avl/node.go
index a51bf74..3fdc163 100644
--- a/quantile/ost/avl/node.go
+++ b/quantile/ost/avl/node.go
@@ -226,12 +226,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree can contain other occurrences of the value
+	return n.left.Rank(val)
 }
 
 /*******************
diff --git a/quantile/ost/rb/node.go b/quantile/ost/rb/node.go
index e533896..f4146ab 100644
--- a/quantile/ost/rb/node.go
+++ b/quantile/ost/rb/node.go
@@ -275,12 +275,11 @@ func (n *Node) Select(k int) order.Node {
 func (n *Node) Rank(val float64) int {
 	if n == nil {
 		return 0
-	} else if val < n.val {
-		return n.left.Rank(val)
 	} else if val > n.val {
 		return 1 + n.left.Size() + n.right.Rank(val)
 	}
-	return n.left.Size()
+	// the left subtree can contain other occurrences of the value
+	return n.left.Rank(val)
 }
 
 /*******************
-- 
2.43.0


From 688589ab2123f40bc9f14c37f51753065c16975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 04/21] fix: make HeapMedian evict the oldest value and survive
 a window of 1

---
 quantile/heap_median.go | 43 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 76550a7..5f718cf 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -65,7 +65,8 @@ func (m *HeapMedian) Push(x float64) error {
 	m.mux.Lock()
 	defer m.mux.Unlock()
 
-	var item *heap.Item
+	item := &heap.Item{}
+	toLow := m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek()
 	// if queue is full, we need to remove old item
 	if m.window != 0 && m.queue.Len() == uint64(m.window) {
 		tail, err := m.queue.Get()
@@ -74,33 +75,20 @@ func (m *HeapMedian) Push(x float64) error {
 		}
 
 		item = tail.(*heap.Item)
-		low := item.HeapID == m.lowHeap.ID
-		switch {
-		// if new/old items are in the same heap, just replace the old item
-		case low && x <= m.lowHeap.Peek():
-			m.lowHeap.Update(item, x)
-		case !low && x > m.lowHeap.Peek():
-			m.highHeap.Update(item, x)
-		// otherwise, remove old item and push new value to other heap
-		case low && x > m.lowHeap.Peek():
+		if item.HeapID == m.lowHeap.ID {
 			m.lowHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.highHeap, item)
-		default:
+		} else {
 			m.highHeap.Remove(item)
-			item.Val = x
-			heapops.Push(m.lowHeap, item)
 		}
-		item = m.rebalance(item)
+	}
+
+	item.Val = x
+	if toLow {
+		heapops.Push(m.lowHeap, item)
 	} else {
-		item = &heap.Item{Val: x}
-		if m.lowHeap.Len() == 0 || x <= m.lowHeap.Peek() {
-			heapops.Push(m.lowHeap, item)
-		} else {
-			heapops.Push(m.highHeap, item)
-		}
-		item = m.rebalance(item)
+		heapops.Push(m.highHeap, item)
 	}
+	m.rebalance()
 
 	if m.window != 0 {
 		err := m.queue.Put(item)
@@ -112,15 +100,12 @@ func (m *HeapMedian) Push(x float64) error {
 	return nil
 }
 
-func (m *HeapMedian) rebalance(item *heap.Item) *heap.Item {
+func (m *HeapMedian) rebalance() {
 	if m.lowHeap.Len()+1 < m.highHeap.Len() {
-		item = heapops.Pop(m.highHeap).(*heap.Item)
-		heapops.Push(m.lowHeap, item)
+		heapops.Push(m.lowHeap, heapops.Pop(m.highHeap))
 	} else if m.lowHeap.Len() > m.highHeap.Len()+1 {
-		item = heapops.Pop(m.lowHeap).(*heap.Item)
-		heapops.Push(m.highHeap, item)
+		heapops.Push(m.highHeap, heapops.Pop(m.lowHeap))
 	}
-	return item
 }
 
 // Value returns the value of the median.
-- 
2.43.0


From 3214f03cb81bfd66e71e345d68e192c5f019a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 05/21] fix: do not take the read lock of a Core or Quantile
 twice in one call

---
 joint/corr.go        |  6 +++---
 joint/cov.go         |  4 ++--
 joint/ewmcorr.go     |  6 +++---
 moment/ewma.go       |  2 +-
 moment/kurtosis.go   |  6 +++---
 moment/mean.go       |  2 +-
 moment/moment.go     | 10 ++++++++--
 moment/skewness.go   |  6 +++---
 quantile/iqr.go      |  4 ++--
 quantile/quantile.go |  6 ++++++
 10 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 6d28b68..2b35b65 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -86,18 +86,18 @@ func (corr *Corr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/joint/cov.go b/joint/cov.go
index 127dea1..f48e487 100644
--- a/joint/cov.go
+++ b/joint/cov.go
@@ -77,12 +77,12 @@ func (cov *Cov) Value() (float64, error) {
 	cov.core.RLock()
 	defer cov.core.RUnlock()
 
-	covariance, err := cov.core.Sum(1, 1)
+	covariance, err := cov.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := cov.core.Count()
+	count := cov.core.UnsafeCount()
 	covariance /= (float64(count) - 1.)
 
 	return covariance, nil
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index fbd5d48..7009d35 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -83,18 +83,18 @@ func (corr *EWMCorr) Value() (float64, error) {
 	// the sample size (minus 1), but the denominator is cancelled out
 	// when dividing by the sqrt of the variances, so we can avoid extra
 	// float ops here
-	cov, err := corr.core.Sum(1, 1)
+	cov, err := corr.core.UnsafeSum(1, 1)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {1, 1}")
 	}
 
 	// ditto with the "variance" variables here, as with above
-	xVar, err := corr.core.Sum(2, 0)
+	xVar, err := corr.core.UnsafeSum(2, 0)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {2, 0}")
 	}
 
-	yVar, err := corr.core.Sum(0, 2)
+	yVar, err := corr.core.UnsafeSum(0, 2)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
diff --git a/moment/ewma.go b/moment/ewma.go
index f3805f6..83bffd5 100644
--- a/moment/ewma.go
+++ b/moment/ewma.go
@@ -66,7 +66,7 @@ func (a *EWMA) Value() (float64, error) {
 	a.core.RLock()
 	defer a.core.RUnlock()
 
-	ewma, err := a.core.Mean()
+	ewma, err := a.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/kurtosis.go b/moment/kurtosis.go
index 2a3c382..d512f5d 100644
--- a/moment/kurtosis.go
+++ b/moment/kurtosis.go
@@ -84,17 +84,17 @@ func (k *Kurtosis) Value() (float64, error) {
 	k.core.RLock()
 	defer k.core.RUnlock()
 
-	count := float64(k.core.Count())
+	count := float64(k.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := k.variance.Value()
+	variance, err := k.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 
-	moment, err := k.moment4.Value()
+	moment, err := k.moment4.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 4th moment")
 	}
diff --git a/moment/mean.go b/moment/mean.go
index 3afbb49..11f68da 100644
--- a/moment/mean.go
+++ b/moment/mean.go
@@ -69,7 +69,7 @@ func (m *Mean) Value() (float64, error) {
 	m.core.RLock()
 	defer m.core.RUnlock()
 
-	mean, err := m.core.Mean()
+	mean, err := m.core.UnsafeMean()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
diff --git a/moment/moment.go b/moment/moment.go
index c411185..05d5e1a 100644
--- a/moment/moment.go
+++ b/moment/moment.go
@@ -77,13 +77,19 @@ func (m *Moment) Value() (float64, error) {
 
 	m.core.RLock()
 	defer m.core.RUnlock()
+	return m.unsafeValue()
+}
 
-	moment, err := m.core.Sum(m.k)
+// unsafeValue returns the value of the kth sample central moment, but does not lock;
+// the caller must be holding the lock of the Core already, which must not be read locked
+// again by the same goroutine, since that deadlocks if a writer is waiting in between.
+func (m *Moment) unsafeValue() (float64, error) {
+	moment, err := m.core.UnsafeSum(m.k)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving sum")
 	}
 
-	count := m.core.Count()
+	count := m.core.UnsafeCount()
 	moment /= (float64(count) - 1.)
 
 	return moment, nil
diff --git a/moment/skewness.go b/moment/skewness.go
index 57e922f..71efe51 100644
--- a/moment/skewness.go
+++ b/moment/skewness.go
@@ -84,18 +84,18 @@ func (s *Skewness) Value() (float64, error) {
 	s.core.RLock()
 	defer s.core.RUnlock()
 
-	count := float64(s.core.Count())
+	count := float64(s.core.UnsafeCount())
 	if count == 0 {
 		return 0, errors.New("no values seen yet")
 	}
 
-	variance, err := s.variance.Value()
+	variance, err := s.variance.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 2nd moment")
 	}
 	variance *= (count - 1) / count
 
-	moment, err := s.moment3.Value()
+	moment, err := s.moment3.unsafeValue()
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd moment")
 	}
diff --git a/quantile/iqr.go b/quantile/iqr.go
index 334037e..6145bd7 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -48,12 +48,12 @@ func (i *IQR) Value() (float64, error) {
 	i.quantile.RLock()
 	defer i.quantile.RUnlock()
 
-	q25, err := i.quantile.Value(0.25)
+	q25, err := i.quantile.unsafeValue(0.25)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 1st quartile")
 	}
 
-	q75, err := i.quantile.Value(0.75)
+	q75, err := i.quantile.unsafeValue(0.75)
 	if err != nil {
 		return 0, errors.Wrap(err, "error retrieving 3rd quartile")
 	}
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 47170f9..1d953cd 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -98,7 +98,13 @@ func (q *Quantile) Value(quantile float64) (float64, error) {
 
 	q.mux.RLock()
 	defer q.mux.RUnlock()
+	return q.unsafeValue(quantile)
+}
 
+// unsafeValue returns the value of the quantile, which must be in (0, 1), but does not lock;
+// the caller must be holding the lock already, which must not be read locked again by the
+// same goroutine, since that deadlocks if a writer is waiting in between.
+func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	size := int(q.statistic.Size())
 	if size == 0 {
 		return 0, errors.New("no values seen yet")
-- 
2.43.0


From fb1235d1260a8ff58ebe214ab3bf295573cdf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 06/21] fix: reject NaN as a quantile, decay or skip list
 probability

---
 joint/config.go             | 2 +-
 moment/config.go            | 2 +-
 quantile/quantile.go        | 2 +-
 quantile/skiplist/option.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 766cdf1..eb5e26a 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -139,7 +139,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/moment/config.go b/moment/config.go
index 7789c07..b894bf4 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -80,7 +80,7 @@ func validateConfig(config *CoreConfig) error {
 	}
 
 	if config.Decay != nil {
-		if *config.Decay <= 0 || *config.Decay >= 1 {
+		if !(*config.Decay > 0 && *config.Decay < 1) {
 			return errors.Errorf("config has a decay of %f, which is not in (0, 1)", *config.Decay)
 		} else if *config.Window > 0 {
 			return errors.New("config cannot have Decay set with a nonzero window")
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 1d953cd..7c157ab 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -92,7 +92,7 @@ func (q *Quantile) Push(x float64) error {
 
 // Value returns the value of the quantile.
 func (q *Quantile) Value(quantile float64) (float64, error) {
-	if quantile <= 0 || quantile >= 1 {
+	if !(quantile > 0 && quantile < 1) {
 		return 0, errors.Errorf("quantile %f not in (0, 1)", quantile)
 	}
 
diff --git a/quantile/skiplist/option.go b/quantile/skiplist/option.go
index a4963a7..7736c43 100644
--- a/quantile/skiplist/option.go
+++ b/quantile/skiplist/option.go
@@ -35,7 +35,7 @@ func ProbabilityOption(p float64) order.Option {
 		)
 		if skiplist, ok = s.(*SkipList); !ok {
 			return errors.New("attempted to set probability on a non-skiplist")
-		} else if p <= 0 || p >= 1 {
+		} else if !(p > 0 && p < 1) {
 			return errors.Errorf("attempted to set probability %f not in (0, 1)", p)
 		}
 		skiplist.p = p
-- 
2.43.0


From 0e3a90503ec2d9526eb98170ee329a49e392bc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 07/21] fix: do not write to the options passed to NewMedian
 and NewIQR

---
 quantile/iqr.go    | 4 +++-
 quantile/median.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantile/iqr.go b/quantile/iqr.go
index 6145bd7..a6bd27d 100644
--- a/quantile/iqr.go
+++ b/quantile/iqr.go
@@ -13,7 +13,9 @@ type IQR struct {
 
 // NewIQR instantiates an IQR struct.
 func NewIQR(window int, options ...Option) (*IQR, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// copy the options, so as not to write to the caller's slice
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
diff --git a/quantile/median.go b/quantile/median.go
index f740fc6..5e0835c 100644
--- a/quantile/median.go
+++ b/quantile/median.go
@@ -15,7 +15,9 @@ type Median struct {
 // structure for tracking order statistics can be configured by passing in a constant
 // of type Impl.
 func NewMedian(window int, options ...Option) (*Median, error) {
-	quantile, err := New(window, append(options, InterpolationOption(Midpoint))...)
+	// copy the options, so as not to write to the caller's slice
+	options = append(append([]Option{}, options...), InterpolationOption(Midpoint))
+	quantile, err := New(window, options...)
 	if err != nil {
 		return nil, errors.Wrap(err, "error creating Quantile")
 	}
-- 
2.43.0


From f713632ccf379dcb5dc524481479b2fd0e3559ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:39 +0000
Subject: [PATCH 08/21] fix: compute binomial coefficients without overflow or
 shared state

---
 util/math/math.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/util/math/math.go b/util/math/math.go
index 6a17a4e..6cbdd08 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,14 +1,12 @@
 package math
 
-var factorials = []int{1, 1, 2, 6, 24, 120, 720, 5040}
-
 func factorial(n int) int {
-	for n >= len(factorials) {
-		next := factorials[len(factorials)-1] * len(factorials)
-		factorials = append(factorials, next)
+	result := 1
+	for i := 2; i <= n; i++ {
+		result *= i
 	}
 
-	return factorials[n]
+	return result
 }
 
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
@@ -26,5 +24,16 @@ func Binom(n, k int) int {
 		return 1
 	}
 
-	return factorial(n) / (factorial(k) * factorial(n-k))
+	// factorials overflow from 21! on
+	if n <= 20 {
+		return factorial(n) / (factorial(k) * factorial(n-k))
+	}
+
+	// after each step, result is the binomial coefficient of n - k + i and i
+	result := 1
+	for i := 1; i <= k; i++ {
+		result = result * (n - k + i) / i
+	}
+
+	return result
 }
-- 
2.43.0


From aae2ace38bd737979d5175eef841f2358502e016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 09/21] fix: remove a point once from joint sums shared by
 several tuples

---
 joint/core.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index cbb28b7..e80e7c0 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -320,10 +320,10 @@ func (c *Core) remove(xs ...float64) error {
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
 			}
+		}
 
-			for hash, sum := range c.newSums {
-				c.sums[hash] = sum
-			}
+		for hash, sum := range c.newSums {
+			c.sums[hash] = sum
 		}
 	} else {
 		for i := range c.means {
-- 
2.43.0


From 1548c2d8cc4828a728f7b780039b429cf3c5c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 10/21] fix: queue a copy of the values pushed to a joint Core

---
 joint/core.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index e80e7c0..b0f3ddb 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -108,7 +108,8 @@ func (c *Core) UnsafePush(xs ...float64) error {
 			}
 		}
 
-		err := c.queue.Put(xs)
+		// queue a copy, as the slice belongs to the caller
+		err := c.queue.Put(append([]float64{}, xs...))
 		if err != nil {
 			return errors.Wrapf(err, "error pushing %v to queue", xs)
 		}
-- 
2.43.0


From 6f737a378843d44c9a76a920f95424888b96fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 11/21] fix: do not modify or keep the config passed to NewCore

---
 joint/config.go  | 14 ++++++++++++--
 moment/config.go | 12 ++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index eb5e26a..967a3cc 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -2,6 +2,8 @@ package joint
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // SumsConfig is an alias for a slice of Tuples; this configures
@@ -196,9 +198,17 @@ func validateTuple(tuple Tuple, config *CoreConfig) error {
 	return nil
 }
 
+// setConfigDefaults returns a copy of the config with defaults set for unset fields;
+// neither the config nor the defaults are modified or shared.
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
-	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+	original := config
+	// a config without Sums gets an empty set of its own
+	config = &CoreConfig{Sums: SumsConfig{}, Window: original.Window, Vars: original.Vars}
+	for _, tuple := range original.Sums {
+		config.Sums = append(config.Sums, append(Tuple{}, tuple...))
+	}
+	if original.Decay != nil {
+		config.Decay = stream.FloatPtr(*original.Decay)
 	}
 
 	if config.Window == nil {
diff --git a/moment/config.go b/moment/config.go
index b894bf4..cb7affa 100644
--- a/moment/config.go
+++ b/moment/config.go
@@ -2,6 +2,8 @@ package moment
 
 import (
 	"github.com/pkg/errors"
+
+	"github.com/alexander-yu/stream"
 )
 
 // CoreConfig is the struct containing configuration options for
@@ -96,9 +98,15 @@ func validateConfig(config *CoreConfig) error {
 	return nil
 }
 
+// setConfigDefaults returns a copy of the config with defaults set for unset fields;
+// neither the config nor the defaults are modified or shared.
 func setConfigDefaults(config *CoreConfig) *CoreConfig {
-	if config.Sums == nil {
-		config.Sums = defaultConfig.Sums
+	original := config
+	// a config without Sums gets an empty set of its own
+	config = &CoreConfig{Sums: SumsConfig{}, Window: original.Window}
+	config.Sums.add(original.Sums)
+	if original.Decay != nil {
+		config.Decay = stream.FloatPtr(*original.Decay)
 	}
 
 	if config.Window == nil {
-- 
2.43.0


From 96f70f9edfa0e090227f689e435ee9693c076f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 12/21] fix: keep tuples of different lengths apart when
 merging joint configs

---
 joint/config.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/joint/config.go b/joint/config.go
index 967a3cc..603b38c 100644
--- a/joint/config.go
+++ b/joint/config.go
@@ -90,19 +90,14 @@ func MergeConfigs(configs ...*CoreConfig) (*CoreConfig, error) {
 // remove any duplicate Tuples, or Tuples that are less than or equal
 // to other Tuples, since they'll get tracked automatically
 func simplifySums(sums SumsConfig) SumsConfig {
-	tupleMap := map[uint64]bool{}
 	newSums := SumsConfig{}
 	for i, m := range sums {
-		// remove dupes
-		if _, ok := tupleMap[m.hash()]; ok {
-			continue
-		}
-
 		// if Tuple is less than or equal to an already existing Tuple,
-		// skip this one
+		// skip this one; Tuples of different lengths are not comparable,
+		// and are left for the config's validation to reject
 		leq := false
 		for j, n := range sums {
-			if i <= j {
+			if i <= j || len(m) != len(n) {
 				continue
 			}
 
@@ -122,7 +117,6 @@ func simplifySums(sums SumsConfig) SumsConfig {
 			continue
 		}
 
-		tupleMap[m.hash()] = true
 		newSums = append(newSums, m)
 	}
 
-- 
2.43.0


From 2f2bc13a29463486a4f9bb158a2cf0ec062a3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 13/21] fix: report untracked tuples even if their hash is that
 of a tracked one

---
 joint/core.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/joint/core.go b/joint/core.go
index b0f3ddb..084c595 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -396,13 +396,37 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 	}
 
 	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok {
+	if !ok || !c.tracks(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
 	return sum, nil
 }
 
+// tracks returns whether or not a Tuple is one of the configured ones, or less than or
+// equal to one; hashes alone do not tell, since an untracked Tuple (e.g. one of a
+// different length) can have the same hash as a tracked one.
+func (c *Core) tracks(m Tuple) bool {
+	for _, n := range c.tuples {
+		if len(m) != len(n) {
+			continue
+		}
+
+		allLeq := true
+		for i := range m {
+			if m[i] < 0 || m[i] > n[i] {
+				allLeq = false
+				break
+			}
+		}
+		if allLeq {
+			return true
+		}
+	}
+
+	return false
+}
+
 // Clear clears all stats being tracked.
 func (c *Core) Clear() {
 	c.mux.Lock()
-- 
2.43.0


From 5ea38c67d673eae8cd58e9ce0958fc65fd714fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 14/21] fix: keep even central sums from going negative by
 rounding

---
 joint/core.go  | 12 +++++++++---
 joint/tuple.go | 14 ++++++++++++++
 moment/core.go | 14 +++++++++++++-
 3 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 084c595..53c4f64 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -149,7 +149,7 @@ func (c *Core) add(xs ...float64) error {
 			a := Tuple(xs)
 			hash := a.hash()
 			c.newSums[hash] = 0
-			return iter(a, false, func(xs ...int) error {
+			err := iter(a, false, func(xs ...int) error {
 				b := Tuple(xs)
 
 				deltaPow, err := pow(delta, b)
@@ -181,6 +181,8 @@ func (c *Core) add(xs ...float64) error {
 
 				return nil
 			})
+			c.newSums[hash] = a.clamp(c.newSums[hash])
+			return err
 		})
 		if err != nil {
 			return errors.Wrapf(err, "error adding %v to sums for tuple %v", xs, tuple)
@@ -221,7 +223,7 @@ func (c *Core) addDecay(xs ...float64) error {
 			a := Tuple(xs)
 			hash := a.hash()
 			c.newSums[hash] = 0
-			return iter(a, false, func(xs ...int) error {
+			err := iter(a, false, func(xs ...int) error {
 				b := Tuple(xs)
 
 				deltaPow, err := pow(delta, b)
@@ -253,6 +255,8 @@ func (c *Core) addDecay(xs ...float64) error {
 
 				return nil
 			})
+			c.newSums[hash] = a.clamp(c.newSums[hash])
+			return err
 		})
 		if err != nil {
 			return errors.Wrapf(err, "error adding %v to sums for tuple %v", xs, tuple)
@@ -285,7 +289,7 @@ func (c *Core) remove(xs ...float64) error {
 				a := Tuple(xs)
 				hash := a.hash()
 				c.newSums[hash] = 0
-				return iter(a, false, func(xs ...int) error {
+				err := iter(a, false, func(xs ...int) error {
 					b := Tuple(xs)
 
 					deltaPow, err := pow(delta, b)
@@ -317,6 +321,8 @@ func (c *Core) remove(xs ...float64) error {
 
 					return nil
 				})
+				c.newSums[hash] = a.clamp(c.newSums[hash])
+				return err
 			})
 			if err != nil {
 				return errors.Wrapf(err, "error removing %v from sums for tuple %v", xs, tuple)
diff --git a/joint/tuple.go b/joint/tuple.go
index 61b273c..0a5e434 100644
--- a/joint/tuple.go
+++ b/joint/tuple.go
@@ -35,6 +35,20 @@ func (m Tuple) hash() uint64 {
 	return uint64(result)
 }
 
+// clamp keeps the joint sum for the Tuple from being negative if all of its exponents
+// are even; while this is impossible for the exact sum, rounding errors can otherwise
+// cause this if the sum is small compared with the values that have passed through
+// the window.
+func (m Tuple) clamp(sum float64) float64 {
+	for _, i := range m {
+		if i%2 != 0 {
+			return sum
+		}
+	}
+
+	return math.Max(sum, 0)
+}
+
 func (m Tuple) eq(n Tuple) bool {
 	if len(m) != len(n) {
 		return false
diff --git a/moment/core.go b/moment/core.go
index 0bbd850..0c40dbf 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -119,6 +119,7 @@ func (c *Core) add(x float64) {
 					math.Pow(delta/count, float64(i)) *
 					c.sums[k-i]
 		}
+		c.sums[k] = clamp(k, c.sums[k])
 	}
 }
 
@@ -151,7 +152,7 @@ func (c *Core) addDecay(x float64) {
 					math.Pow(decay*delta, float64(i)) *
 					(1 - decay) * c.sums[k-i]
 		}
-		c.sums[k] = old
+		c.sums[k] = clamp(k, old)
 	}
 }
 
@@ -175,6 +176,7 @@ func (c *Core) remove(x float64) {
 						math.Pow(delta/(count+1), float64(i)) *
 						c.sums[k-i]
 			}
+			c.sums[k] = clamp(k, c.sums[k])
 		}
 	} else {
 		c.mean = 0
@@ -184,6 +186,16 @@ func (c *Core) remove(x float64) {
 	}
 }
 
+// clamp keeps a kth power sum from being negative if k is even; while this is
+// impossible for the exact sum, rounding errors can otherwise cause this if the
+// sum is small compared with the values that have passed through the window.
+func clamp(k int, sum float64) float64 {
+	if k%2 == 0 && sum < 0 {
+		return 0
+	}
+	return sum
+}
+
 // Count returns the number of values seen seen globally.
 func (c *Core) Count() int {
 	c.mux.RLock()
-- 
2.43.0


From 88d6078d019dc8e096ebf1e991d4f084cbd074ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 15/21] fix: do not keep the slice of metrics passed to an
 aggregate

---
 aggregate/simple_aggregate.go       | 3 ++-
 aggregate/simple_joint_aggregate.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/aggregate/simple_aggregate.go b/aggregate/simple_aggregate.go
index 47079b0..8f10a89 100644
--- a/aggregate/simple_aggregate.go
+++ b/aggregate/simple_aggregate.go
@@ -19,7 +19,8 @@ type SimpleAggregateMetric struct {
 
 // NewSimpleAggregateMetric instantiates an SimpleAggregateMetric struct.
 func NewSimpleAggregateMetric(metrics ...stream.SimpleMetric) *SimpleAggregateMetric {
-	return &SimpleAggregateMetric{metrics: metrics}
+	// copy the metrics, as the slice belongs to the caller
+	return &SimpleAggregateMetric{metrics: append([]stream.SimpleMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
diff --git a/aggregate/simple_joint_aggregate.go b/aggregate/simple_joint_aggregate.go
index f18518f..83c93f3 100644
--- a/aggregate/simple_joint_aggregate.go
+++ b/aggregate/simple_joint_aggregate.go
@@ -18,7 +18,8 @@ type SimpleJointAggregateMetric struct {
 
 // NewSimpleJointAggregateMetric instantiates an SimpleJointAggregateMetric struct.
 func NewSimpleJointAggregateMetric(metrics ...stream.SimpleJointMetric) *SimpleJointAggregateMetric {
-	return &SimpleJointAggregateMetric{metrics: metrics}
+	// copy the metrics, as the slice belongs to the caller
+	return &SimpleJointAggregateMetric{metrics: append([]stream.SimpleJointMetric{}, metrics...)}
 }
 
 // Push adds a new value for the metrics to consume.
-- 
2.43.0


From f01023a08dbcb7105df81b79fb756e7e30383f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 16/21] fix: look binomial coefficients up instead of
 calculating them for every term

---
 util/math/math.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/util/math/math.go b/util/math/math.go
index 6cbdd08..c5d086b 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -9,6 +9,23 @@ func factorial(n int) int {
 	return result
 }
 
+// binoms is Pascal's triangle, up to the last row that the calculation
+// in Binom can handle without overflow
+var binoms = pascal(61)
+
+func pascal(n int) [][]int {
+	rows := make([][]int, n+1)
+	for i := range rows {
+		rows[i] = make([]int, i+1)
+		rows[i][0], rows[i][i] = 1, 1
+		for j := 1; j < i; j++ {
+			rows[i][j] = rows[i-1][j-1] + rows[i-1][j]
+		}
+	}
+
+	return rows
+}
+
 // Sign returns the sign of an integer (-1 if negative, 1 otherwise).
 func Sign(n int) int {
 	if n%2 == 0 {
@@ -24,6 +41,11 @@ func Binom(n, k int) int {
 		return 1
 	}
 
+	// Cores need these for every Push, so do not calculate them each time
+	if 0 < k && k < n && n < len(binoms) {
+		return binoms[n][k]
+	}
+
 	// factorials overflow from 21! on
 	if n <= 20 {
 		return factorial(n) / (factorial(k) * factorial(n-k))
-- 
2.43.0


From 9f67d5f00886ee080e341c0bc63352eae47488a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 17/21] fix: find out in constant time if a Tuple is tracked

---
 joint/core.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 53c4f64..69b7cd4 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -16,6 +16,7 @@ type Core struct {
 	mux     sync.RWMutex
 	means   []float64
 	tuples  []Tuple
+	tracked map[uint64][]Tuple
 	sums    map[uint64]float64
 	newSums map[uint64]float64
 	count   int
@@ -58,9 +59,11 @@ func NewCore(config *CoreConfig) (*Core, error) {
 
 	c.sums = map[uint64]float64{}
 	c.newSums = map[uint64]float64{}
+	c.tracked = map[uint64][]Tuple{}
 	for _, tuple := range config.Sums {
 		_ = iter(tuple, false, func(xs ...int) error {
 			c.sums[Tuple(xs).hash()] = 0
+			c.track(xs)
 			return nil
 		})
 		_ = iter(tuple, false, func(xs ...int) error {
@@ -401,31 +404,27 @@ func (c *Core) UnsafeSum(xs ...int) (float64, error) {
 		return 0, errors.New("no values seen yet")
 	}
 
-	sum, ok := c.sums[Tuple(xs).hash()]
-	if !ok || !c.tracks(xs) {
+	if !c.tracks(xs) {
 		return 0, errors.Errorf("%v is not a tracked power sum", xs)
 	}
 
-	return sum, nil
+	return c.sums[Tuple(xs).hash()], nil
+}
+
+// track remembers that a Tuple is one of the configured ones, or less than or equal to one.
+func (c *Core) track(m Tuple) {
+	if !c.tracks(m) {
+		hash := m.hash()
+		c.tracked[hash] = append(c.tracked[hash], append(Tuple{}, m...))
+	}
 }
 
 // tracks returns whether or not a Tuple is one of the configured ones, or less than or
 // equal to one; hashes alone do not tell, since an untracked Tuple (e.g. one of a
 // different length) can have the same hash as a tracked one.
 func (c *Core) tracks(m Tuple) bool {
-	for _, n := range c.tuples {
-		if len(m) != len(n) {
-			continue
-		}
-
-		allLeq := true
-		for i := range m {
-			if m[i] < 0 || m[i] > n[i] {
-				allLeq = false
-				break
-			}
-		}
-		if allLeq {
+	for _, n := range c.tracked[m.hash()] {
+		if m.eq(n) {
 			return true
 		}
 	}
-- 
2.43.0


From 92c98526b5fa94ddb42546a01c1afb3520287c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 18/21] fix: correlations of values whose variances' product
 overflows or underflows

---
 joint/corr.go    | 4 +++-
 joint/ewmcorr.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/joint/corr.go b/joint/corr.go
index 2b35b65..ea7e477 100644
--- a/joint/corr.go
+++ b/joint/corr.go
@@ -102,7 +102,9 @@ func (corr *Corr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	// the product of the "variances" can overflow or underflow, while the
+	// product of their square roots cannot
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
diff --git a/joint/ewmcorr.go b/joint/ewmcorr.go
index 7009d35..b9bbcd5 100644
--- a/joint/ewmcorr.go
+++ b/joint/ewmcorr.go
@@ -99,7 +99,9 @@ func (corr *EWMCorr) Value() (float64, error) {
 		return 0, errors.Wrap(err, "error retrieving sum for {0, 2}")
 	}
 
-	return cov / math.Sqrt(xVar*yVar), nil
+	// the product of the "variances" can overflow or underflow, while the
+	// product of their square roots cannot
+	return cov / (math.Sqrt(xVar) * math.Sqrt(yVar)), nil
 }
 
 // Clear resets the metric.
-- 
2.43.0


From b1c790955bc8a751467755d4bc0bff93d897253c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:04 +0000
Subject: [PATCH 19/21] fix: power sums whose coefficients overflow because of
 many values

---
 moment/core.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/moment/core.go b/moment/core.go
index 0c40dbf..eee704c 100644
--- a/moment/core.go
+++ b/moment/core.go
@@ -109,10 +109,7 @@ func (c *Core) add(x float64) {
 	delta := x - c.mean
 	c.mean += delta / count
 	for k := len(c.sums) - 1; k >= 2; k-- {
-		c.sums[k] +=
-			(count - 1) / math.Pow(count, float64(k)) *
-				(math.Pow(count-1, float64(k-1)) + float64(mathutil.Sign(k))) *
-				math.Pow(delta, float64(k))
+		c.sums[k] += powerCoeff(count, k) * math.Pow(delta, float64(k))
 		for i := 1; i <= k-2; i++ {
 			c.sums[k] +=
 				float64(mathutil.Binom(k, i)*mathutil.Sign(i)) *
@@ -166,10 +163,7 @@ func (c *Core) remove(x float64) {
 		c.mean -= (x - c.mean) / count
 		delta := x - c.mean
 		for k := 2; k <= len(c.sums)-1; k++ {
-			c.sums[k] -=
-				count / math.Pow(count+1, float64(k)) *
-					(math.Pow(count, float64(k-1)) + float64(mathutil.Sign(k))) *
-					math.Pow(delta, float64(k))
+			c.sums[k] -= powerCoeff(count+1, k) * math.Pow(delta, float64(k))
 			for i := 1; i <= k-2; i++ {
 				c.sums[k] -=
 					float64(mathutil.Binom(k, i)*mathutil.Sign(i)) *
@@ -186,6 +180,14 @@ func (c *Core) remove(x float64) {
 	}
 }
 
+// powerCoeff returns (n-1)/n^k * ((n-1)^(k-1) + (-1)^k), the coefficient of the kth power of
+// the deviation of a value from the mean of the other n-1 values; the powers of n themselves
+// can be too large for a float64.
+func powerCoeff(n float64, k int) float64 {
+	ratio := (n - 1) / n
+	return ratio * (math.Pow(ratio, float64(k-1)) + float64(mathutil.Sign(k))/math.Pow(n, float64(k-1)))
+}
+
 // clamp keeps a kth power sum from being negative if k is even; while this is
 // impossible for the exact sum, rounding errors can otherwise cause this if the
 // sum is small compared with the values that have passed through the window.
-- 
2.43.0


From b6083edd6025e9dd0c639c01e6d83c188572b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:01 +0000
Subject: [PATCH 20/21] fix: midpoints of values whose sum is beyond the
 largest float

---
 quantile/heap_median.go |  3 ++-
 quantile/quantile.go    |  3 ++-
 util/math/math.go       | 12 ++++++++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/quantile/heap_median.go b/quantile/heap_median.go
index 5f718cf..2f533ca 100644
--- a/quantile/heap_median.go
+++ b/quantile/heap_median.go
@@ -9,6 +9,7 @@ import (
 	"github.com/workiva/go-datastructures/queue"
 
 	"github.com/alexander-yu/stream/quantile/heap"
+	mathutil "github.com/alexander-yu/stream/util/math"
 )
 
 // HeapMedian keeps track of the median of an entire stream using heaps.
@@ -126,7 +127,7 @@ func (m *HeapMedian) Value() (float64, error) {
 		// otherwise, return average of the two tops
 		low := m.lowHeap.Peek()
 		high := m.highHeap.Peek()
-		return (low + high) / 2, nil
+		return mathutil.Midpoint(low, high), nil
 	}
 }
 
diff --git a/quantile/quantile.go b/quantile/quantile.go
index 7c157ab..f1ee0fe 100644
--- a/quantile/quantile.go
+++ b/quantile/quantile.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 
 	"github.com/alexander-yu/stream/quantile/order"
+	mathutil "github.com/alexander-yu/stream/util/math"
 	"github.com/pkg/errors"
 	"github.com/workiva/go-datastructures/queue"
 )
@@ -144,7 +145,7 @@ func (q *Quantile) unsafeValue(quantile float64) (float64, error) {
 	default:
 		lo := q.statistic.Select(idx).Value()
 		hi := q.statistic.Select(idx + 1).Value()
-		return (lo + hi) / 2., nil
+		return mathutil.Midpoint(lo, hi), nil
 	}
 }
 
diff --git a/util/math/math.go b/util/math/math.go
index c5d086b..f83c62e 100644
--- a/util/math/math.go
+++ b/util/math/math.go
@@ -1,5 +1,7 @@
 package math
 
+import "math"
+
 func factorial(n int) int {
 	result := 1
 	for i := 2; i <= n; i++ {
@@ -59,3 +61,13 @@ func Binom(n, k int) int {
 
 	return result
 }
+
+// Midpoint returns the number halfway between two others, also if their sum is too large for a float64.
+func Midpoint(a, b float64) float64 {
+	mid := (a + b) / 2
+	if math.IsInf(mid, 0) {
+		return a/2 + b/2
+	}
+
+	return mid
+}
-- 
2.43.0


From e199f16dcf261ecc1caf5f4f89addb64c21d4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:50 +0000
Subject: [PATCH 21/21] fix: joint sums whose coefficients overflow because of
 many points

---
 joint/core.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/joint/core.go b/joint/core.go
index 69b7cd4..caaf6ae 100644
--- a/joint/core.go
+++ b/joint/core.go
@@ -164,9 +164,7 @@ func (c *Core) add(xs ...float64) error {
 				if abs == 0 {
 					c.newSums[hash] += c.sums[hash]
 				} else if b.eq(a) {
-					coeff := (count - 1) / math.Pow(count, float64(abs)) *
-						(math.Pow(count-1, float64(abs-1)) + float64(mathutil.Sign(abs)))
-					c.newSums[hash] += coeff * deltaPow
+					c.newSums[hash] += powerCoeff(count, abs) * deltaPow
 				} else {
 					multinomial, err := multinom(a, b)
 					if err != nil {
@@ -304,9 +302,7 @@ func (c *Core) remove(xs ...float64) error {
 					if abs == 0 {
 						c.newSums[hash] += c.sums[hash]
 					} else if b.eq(a) {
-						coeff := count / math.Pow(count+1, float64(abs)) *
-							(math.Pow(count, float64(abs-1)) + float64(mathutil.Sign(abs)))
-						c.newSums[hash] -= coeff * deltaPow
+						c.newSums[hash] -= powerCoeff(count+1, abs) * deltaPow
 					} else {
 						multinomial, err := multinom(a, b)
 						if err != nil {
@@ -350,6 +346,14 @@ func (c *Core) remove(xs ...float64) error {
 	return nil
 }
 
+// powerCoeff returns (n-1)/n^k * ((n-1)^(k-1) + (-1)^k), the coefficient of the product of
+// powers (k in total) of the deviations of a point from the means of the other n-1 points; the
+// powers of n themselves can be too large for a float64.
+func powerCoeff(n float64, k int) float64 {
+	ratio := (n - 1) / n
+	return ratio * (math.Pow(ratio, float64(k-1)) + float64(mathutil.Sign(k))/math.Pow(n, float64(k-1)))
+}
+
 // Count returns the number of values seen seen globally.
 func (c *Core) Count() int {
 	c.mux.RLock()
-- 
2.43.0

