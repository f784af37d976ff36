From c5161859d42b2645d24d7a880261047f565a4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 01/73] fix: topological sorts emitted a node before its
 children when it is reachable at several depths

---
 spn/topo.go | 46 ++++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/spn/topo.go b/spn/topo.go
index a8572fd..2d4d1bf 100644
--- a/spn/topo.go
+++ b/spn/topo.go
@@ -43,10 +43,13 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
+		if V[u] {
+			continue
+		}
 		if P[u] {
+			V[u] = true
 			C.Give(u)
 			continue
 		}
@@ -54,9 +57,8 @@ func TopSortTarjan(G SPN, C common.Collection) common.Collection {
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -77,10 +79,13 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 	P := make(map[SPN]bool)
 	V := make(map[SPN]bool)
 	S.Push(G)
-	V[G] = true
 	for !S.Empty() {
 		u := S.Pop().(SPN)
+		if V[u] {
+			continue
+		}
 		if P[u] {
+			V[u] = true
 			C.Give(u)
 			if !f(u) {
 				return C
@@ -91,9 +96,8 @@ func TopSortTarjanFunc(G SPN, C common.Collection, f func(SPN) bool) common.Coll
 		P[u] = true
 		ch := u.Ch()
 		for _, c := range ch {
-			if !V[c] {
+			if !P[c] {
 				S.Push(c)
-				V[c] = true
 			}
 		}
 	}
@@ -111,28 +115,26 @@ func TopSortDFS(G SPN, C common.Collection) common.Collection {
 	}
 
 	S.Push(G)
-	V[G] = true
 
 	for !S.Empty() {
 		s := S.Pop().(SPN)
+		if V[s] {
+			continue
+		}
 		ch := s.Ch()
-		if len(ch) == 0 {
+		var m []SPN
+		for _, c := range ch {
+			if !V[c] {
+				m = append(m, c)
+			}
+		}
+		if len(m) == 0 {
+			V[s] = true
 			C.Give(s)
 		} else {
-			var m []SPN
-			for _, c := range ch {
-				if !V[c] {
-					m = append(m, c)
-				}
-			}
-			if len(m) == 0 {
-				C.Give(s)
-			} else {
-				S.Push(s)
-				for _, c := range m {
-					S.Push(c)
-					V[c] = true
-				}
+			S.Push(s)
+			for _, c := range m {
+				S.Push(c)
 			}
 		}
 	}
-- 
2.43.0


From 24f1c1a856ac2b802244d8ed1c6e9aa4a7659189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 02/73] fix: Sum.Sc always returned an empty scope

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index 790eaaf..8a5c9cb 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -33,7 +33,7 @@ func (s *Sum) AddChildW(c SPN, w float64) {
 // Sc returns the scope of this node.
 func (s *Sum) Sc() []int {
 	if s.sc == nil {
-		copy(s.sc, s.ch[0].Sc())
+		s.sc = append(s.sc, s.ch[0].Sc()...)
 	}
 	return s.sc
 }
-- 
2.43.0


From 6ed481b962bcebdb45def0dd7f4bdaa08e40f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 03/73] fix: serialization truncated weights and probabilities
 to six decimals

---
 spn/multinom.go | 2 +-
 spn/sum.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 9043ac6..299a7bf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -220,7 +220,7 @@ func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d %d", m.varid, len(m.pr))
 	for _, p := range m.pr {
-		fmt.Fprintf(&b, " %f", p)
+		fmt.Fprintf(&b, " %v", p)
 	}
 	return b.Bytes(), nil
 }
diff --git a/spn/sum.go b/spn/sum.go
index 8a5c9cb..bdfa512 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -138,7 +138,7 @@ func (s *Sum) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintf(&b, "%d", len(s.w))
 	for _, w := range s.w {
-		fmt.Fprintf(&b, " %f", w)
+		fmt.Fprintf(&b, " %v", w)
 	}
 	return b.Bytes(), nil
 }
-- 
2.43.0


From e21b26069b814638b0020d0b3cc7c19ee145cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 04/73] fix: a deserialized indicator had no stored scope

---
 spn/indicator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spn/indicator.go b/spn/indicator.go
index 4268f1d..6343849 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -71,5 +71,6 @@ func (i *Indicator) GobEncode() ([]byte, error) {
 func (i *Indicator) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
 	_, err := fmt.Fscanf(b, "%d %d", &i.varid, &i.v)
+	i.sc = []int{i.varid}
 	return err
 }
-- 
2.43.0


From bc3dde6054d56c259f6f86026e0b969cfbdc64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 05/73] fix: Indicator.ArgMax returned state 0 for an unset
 variable and dropped contradicting evidence

---
 spn/indicator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spn/indicator.go b/spn/indicator.go
index 6343849..96592d1 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -48,9 +48,10 @@ func (i *Indicator) ArgMax(val VarSet) (VarSet, float64) {
 	retval := make(VarSet)
 	u, e := val[i.varid]
 	if !e || u == i.v {
-		retval[i.varid] = u
+		retval[i.varid] = i.v
 		return retval, 0
 	}
+	retval[i.varid] = u
 	return retval, utils.LogZero
 }
 
-- 
2.43.0


From 579daacafeadccc5f10dca047563a70705696f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 06/73] fix: a zero-variance Gaussian had value zero when
 marginalised and ignored evidence in ArgMax

---
 spn/gaussian.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 9a2f630..efa3ae9 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -115,7 +115,7 @@ func NewGaussianFit(varid int, counts []float64) *Gaussian {
 func (g *Gaussian) Type() string { return "leaf" }
 
 func zeroSigma(v int, ok bool, mu float64) float64 {
-	if ok && v == int(mu) {
+	if !ok || v == int(mu) {
 		return 0
 	}
 	return math.Inf(-1)
@@ -154,8 +154,12 @@ func (g *Gaussian) ArgMax(val VarSet) (VarSet, float64) {
 	v, ok := val[g.varid]
 
 	if g.dist.Sigma == 0 {
-		retval[g.varid] = int(g.dist.Mu)
-		return retval, 0.0
+		if ok {
+			retval[g.varid] = v
+		} else {
+			retval[g.varid] = int(g.dist.Mu)
+		}
+		return retval, zeroSigma(v, ok, g.dist.Mu)
 	} else if ok {
 		retval[g.varid] = v
 		z := g.dist.LogProb(float64(v))
-- 
2.43.0


From 91daefe94a1e6bad19e288812f4bd85c69c324be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 07/73] fix: inference on a network made of a single leaf

---
 spn/utils.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index e0d5e1a..9275e5a 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -21,7 +21,7 @@ import (
 // InferenceY returns the value of S(I, Y=y). This convenience function allows for fast computation
 // of soft inference values without having to create another VarSet for each valuation of Y.
 func InferenceY(S SPN, I VarSet, Y, y int) float64 {
-	if len(S.Ch()) == 0 {
+	if S.Type() != "leaf" && len(S.Ch()) == 0 {
 		return 0
 	}
 	J := map[int]int{Y: y}
@@ -64,7 +64,7 @@ func InferenceY(S SPN, I VarSet, Y, y int) float64 {
 
 // Inference simply returns the value of S(I), without storing values for later use.
 func Inference(S SPN, I VarSet) float64 {
-	if len(S.Ch()) == 0 {
+	if S.Type() != "leaf" && len(S.Ch()) == 0 {
 		return 0
 	}
 	O := common.Queue{}
@@ -104,7 +104,7 @@ func Inference(S SPN, I VarSet) float64 {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreInference creates a new ticket).
 func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
-	if len(S.Ch()) == 0 {
+	if S.Type() != "leaf" && len(S.Ch()) == 0 {
 		return nil, -1
 	}
 
@@ -162,7 +162,7 @@ func StoreInference(S SPN, I VarSet, tk int, storage *Storer) (SPN, int) {
 // at the position designated by the ticket tk. Returns S and the ticket used (if tk < 0,
 // StoreMAP creates a new ticket).
 func StoreMAP(S SPN, I VarSet, tk int, storage *Storer) (SPN, int, VarSet) {
-	if len(S.Ch()) == 0 {
+	if S.Type() != "leaf" && len(S.Ch()) == 0 {
 		return nil, -1, nil
 	}
 
-- 
2.43.0


From 70c7f00506e53f6bf56b4b8160f346d189509846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 08/73] fix: Complete and Decomposable only looked at the root

---
 spn/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index 9275e5a..63287b5 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -402,7 +402,7 @@ func Complete(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
@@ -453,7 +453,7 @@ func Decomposable(S SPN) bool {
 			}
 		}
 		for _, c := range ch {
-			if !V[S] && c.Type() != "leaf" {
+			if !V[c] && c.Type() != "leaf" {
 				Q.Enqueue(c)
 				V[c] = true
 			}
-- 
2.43.0


From 79e6ebecff0bea66cdfd80cd63cd498988511c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 09/73] fix: weight normalisation moved negative weights the
 wrong way and divided by zero

---
 learn/derive.go | 6 ++++++
 spn/utils.go    | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/learn/derive.go b/learn/derive.go
index 61344cf..30616d3 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -214,6 +214,12 @@ func Normalize(v []float64) {
 	for i := range v {
 		norm += v[i]
 	}
+	if norm == 0 {
+		for i := range v {
+			v[i] = 1.0 / float64(len(v))
+		}
+		return
+	}
 	//var c float64
 	for i := range v {
 		v[i] /= norm
diff --git a/spn/utils.go b/spn/utils.go
index 63287b5..ae864e2 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -265,7 +265,7 @@ func norm(v []float64) {
 	}
 	if min < 0 {
 		for i := range v {
-			v[i] += min
+			v[i] -= min
 		}
 	}
 
@@ -273,6 +273,12 @@ func norm(v []float64) {
 	for i := range v {
 		norm += v[i]
 	}
+	if norm == 0 {
+		for i := range v {
+			v[i] = 1.0 / float64(len(v))
+		}
+		return
+	}
 	for i := range v {
 		v[i] /= norm
 	}
-- 
2.43.0


From 53570faea2e9d251380f2ed77b4cf6a8e765f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 10/73] fix: Sum.ArgMax crashed when every child has value zero

---
 spn/sum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/sum.go b/spn/sum.go
index bdfa512..c5466b4 100644
--- a/spn/sum.go
+++ b/spn/sum.go
@@ -100,7 +100,7 @@ func (s *Sum) ArgMax(val VarSet) (VarSet, float64) {
 	for i := 0; i < n; i++ {
 		ch := s.ch[i]
 		m := math.Log(s.w[i]) + ch.Max(val)
-		if m > max {
+		if mch == nil || m > max {
 			max, mch = m, ch
 		}
 	}
-- 
2.43.0


From 86e24dfdd77462661661838c9ea71a39898c5333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 11/73] fix: ComputeHeight missed the longest path when nodes
 are shared

---
 spn/utils.go | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/spn/utils.go b/spn/utils.go
index ae864e2..4333327 100644
--- a/spn/utils.go
+++ b/spn/utils.go
@@ -313,28 +313,16 @@ func NormalizeSPN(S SPN) SPN {
 
 // ComputeHeight computes the height of a certain SPN S.
 func ComputeHeight(S SPN) int {
-	T := common.Stack{}
-	V := make(map[SPN]int)
-
-	T.Push(S)
-	V[S] = 0
-
-	var h int
-	for !T.Empty() {
-		s := T.Pop().(SPN)
-		if s.Type() == "leaf" && V[s] > h {
-			h = V[s]
-		}
-		ch := s.Ch()
-		for _, c := range ch {
-			if _, e := V[c]; !e {
-				T.Push(c)
-				V[c] = V[s] + 1
+	H := make(map[SPN]int)
+	TopSortTarjanFunc(S, nil, func(s SPN) bool {
+		for _, c := range s.Ch() {
+			if h := H[c] + 1; h > H[s] {
+				H[s] = h
 			}
 		}
-	}
-
-	return h
+		return true
+	})
+	return H[S]
 }
 
 // ComputeScope computes the scope of a certain SPN S.
-- 
2.43.0


From 94a0bb4fdf2308ad001d3ab1437cf6912cb46ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 12/73] fix: Queue.DequeueBack also dropped the first element

---
 common/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/queue.go b/common/queue.go
index a837b68..a54e6db 100644
--- a/common/queue.go
+++ b/common/queue.go
@@ -33,7 +33,7 @@ func (q *Queue) DequeueBack() interface{} {
 	n := len(q.data) - 1
 	e := q.data[n]
 	q.data[n] = nil
-	q.data = q.data[1:n]
+	q.data = q.data[:n]
 	if q.cap > sys.MemLowBoundShrink && q.cap >= (len(q.data)<<1) {
 		q.Shrink()
 	}
-- 
2.43.0


From 001f828fe876e7207614d5e37962850044cc8e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 13/73] fix: standard deviation of a multinomial ignored its
 probabilities

---
 spn/multinom.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/spn/multinom.go b/spn/multinom.go
index 299a7bf..cc6ebaf 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -195,11 +195,11 @@ func (m *Multinomial) Mean() float64 {
 func (m *Multinomial) StdDev() float64 {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return sd
 }
 
@@ -207,11 +207,11 @@ func (m *Multinomial) StdDev() float64 {
 func (m *Multinomial) MuSigma() (float64, float64) {
 	mu := m.Mean()
 	var sd float64
-	for i, _ := range m.pr {
+	for i, p := range m.pr {
 		d := float64(i) - mu
-		sd += d * d
+		sd += p * d * d
 	}
-	sd = math.Sqrt(sd / float64(len(m.pr)))
+	sd = math.Sqrt(sd)
 	return mu, sd
 }
 
-- 
2.43.0


From d60f80de913e69298f1fcea149f4109d5208582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 14/73] fix: NewGaussianMode was always centered on zero

---
 spn/gaussian.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index efa3ae9..91bcaa4 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -89,7 +89,7 @@ func NewGaussianMode(varid int, counts []int) *Gaussian {
 	for i := 0; i < n; i++ {
 		c := float64(counts[i])
 		if c > max {
-			max = c
+			max, mode = c, float64(i)
 		}
 		d := float64(i) - mean
 		sd += (c / float64(N)) * d * d
-- 
2.43.0


From 5870c06fb9d70c8b3b405b9b9e2e0c9774104a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 15/73] fix: PrintSPN crashed on indicator leaves

---
 spn/print.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spn/print.go b/spn/print.go
index f9e4c3b..b07b88e 100644
--- a/spn/print.go
+++ b/spn/print.go
@@ -63,6 +63,8 @@ func PrintSPN(S SPN, filename string) {
 			if st == "*spn.Multinomial" {
 				cc := s.(*Multinomial)
 				mu, sigma = cc.MuSigma()
+			} else if st == "*spn.Indicator" {
+				mu = float64(s.(*Indicator).v)
 			} else /* Gaussian */ {
 				cc := s.(*Gaussian)
 				mu, sigma = cc.dist.Mu, cc.dist.Sigma
-- 
2.43.0


From 3acd59cd7646e91ed0acee216b250548826c81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 16/73] fix: DeriveSPN used incomplete parent derivatives when
 nodes are reachable at several depths

---
 learn/derive.go | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/learn/derive.go b/learn/derive.go
index 30616d3..15b12bf 100644
--- a/learn/derive.go
+++ b/learn/derive.go
@@ -18,28 +18,23 @@ import (
 // of such sum are the products of each parent node multiplied by all its siblings.
 // It is relevant to note that since GoSPN treats values in logspace, all the derivatives are too
 // in logspace. Argument tk is the ticket to be used for storing the derivatives. Argument itk is
-// the ticket for the stored values of S(X) (i.e. soft inference). A Collection is required for the
-// graph search, though if Collection c is nil, then we use a Queue. If a Queue is used, then the
-// graph search is a breadth-first, if a Stack is used, then it performs a depth-first search.
+// the ticket for the stored values of S(X) (i.e. soft inference). Nodes are always visited in
+// topological order, so Collection c is not used.
 // If tk < 0, then a new ticket will be created and returned alongside the SPN S.
 // Returns the SPN S and the ticket used.
 func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection) (spn.SPN, int) {
 	if tk < 0 {
 		tk = storage.NewTicket()
 	}
-	if c == nil {
-		c = &common.Queue{}
-	}
-
 	table, _ := storage.Table(tk)
 	inf, _ := storage.Table(itk)
-	visited := make(map[spn.SPN]bool)
 	table.StoreSingle(S, 0.0)
-	c.Give(S)
-	visited[S] = true
 
-	for !c.Empty() {
-		s := c.Take().(spn.SPN)
+	// A node's derivative is only complete once all of its parents have been visited.
+	T := common.Stack{}
+	spn.TopSortTarjan(S, &T)
+	for !T.Empty() {
+		s := T.Pop().(spn.SPN)
 		ch := s.Ch()
 		pv, _ := table.Single(s)
 		//sys.Printf("pv=%f, parent: %s\n", pv, s.Type())
@@ -54,7 +49,7 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 					table.StoreSingle(cs, utils.LogSumExpPair(v, math.Log(W[i])+pv))
 				}
 			}
-		} else /* there can never be a case where s is a leaf, therefore s is a product */ {
+		} else /* s is a product or a leaf, and a leaf has no children */ {
 			for i, cs := range ch {
 				v, e := table.Single(cs)
 				t := pv
@@ -73,17 +68,8 @@ func DeriveSPN(S spn.SPN, storage *spn.Storer, tk, itk int, c common.Collection)
 				}
 			}
 		}
-
-		for _, cs := range ch {
-			if cs.Type() != "leaf" && !visited[cs] {
-				c.Give(cs)
-				visited[cs] = true
-			}
-		}
 	}
 
-	visited = nil
-	c = nil
 	sys.Free()
 	return S, tk
 }
-- 
2.43.0


From 230d00c76c151ffb22b4fdfe4dfdb09f2d0e29bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 17/73] fix: discriminative soft gradient descent only updated
 the root

---
 learn/discriminative.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 7daa85a..70ba825 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -208,7 +208,7 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
@@ -244,7 +244,7 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			}
 		}
 		for _, cs := range ch {
-			if cs.Type() != "leaf" && V[cs] {
+			if cs.Type() != "leaf" && !V[cs] {
 				Q.Enqueue(cs)
 				V[cs] = true
 			}
-- 
2.43.0


From b3c230b08e87087f15742b79dbdc7fc21c9e0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:36 +0000
Subject: [PATCH 18/73] fix: discriminative gradient was not divided by S(Y|X)
 and S(1|X)

---
 learn/discriminative.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 70ba825..3712744 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -186,8 +186,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 	V[S] = true
 	dwt, _ := st.Table(w)
 	dut, _ := st.Table(u)
-	ist, _ := st.Table(s)
-	izt, _ := st.Table(z)
+	iS, _ := st.Single(s, S)
+	iZ, _ := st.Single(z, S)
 	P := S.Parameters()
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -197,10 +197,8 @@ func applyDGD(S spn.SPN, s, d, w, z, p, u int, st *spn.Storer, eta float64, norm
 			W := sum.Weights()
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := range W {
-				delta := eta * (math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i]))
+				delta := eta * (math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ))
 				W[i] += (delta / float64(b)) - 2*P.Lambda*W[i]
 			}
 			if norm {
@@ -224,8 +222,8 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 	V[S] = true
 	dwt, _ := st.Table(w)
 	dut, _ := st.Table(u)
-	ist, _ := st.Table(s)
-	izt, _ := st.Table(z)
+	iS, _ := st.Single(s, S)
+	iZ, _ := st.Single(z, S)
 	lt, _ := st.Table(l)
 	for !Q.Empty() {
 		n := Q.Dequeue().(spn.SPN)
@@ -235,10 +233,8 @@ func storeDGD(S spn.SPN, s, d, w, z, p, u, l int, st *spn.Storer, eta float64, n
 			nw := len(sum.Weights())
 			dW, _ := dwt.Value(n)
 			dU, _ := dut.Value(n)
-			iS, _ := ist.Value(n)
-			iZ, _ := izt.Value(n)
 			for i := 0; i < nw; i++ {
-				delta := math.Exp(dW[i]-iS[i]) - math.Exp(dU[i]-iZ[i])
+				delta := math.Exp(dW[i]-iS) - math.Exp(dU[i]-iZ)
 				v, _ := lt.Entry(n, i)
 				lt.Store(n, i, v+delta)
 			}
-- 
2.43.0


From d5e0122bad809573e317765e972b7528d12a151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:01 +0000
Subject: [PATCH 19/73] fix: leaf nodes ignored the parameters bound to them

---
 spn/gaussian.go  | 12 ++++++++++++
 spn/indicator.go | 12 ++++++++++++
 spn/multinom.go  | 12 ++++++++++++
 3 files changed, 36 insertions(+)

diff --git a/spn/gaussian.go b/spn/gaussian.go
index 91bcaa4..6130877 100644
--- a/spn/gaussian.go
+++ b/spn/gaussian.go
@@ -4,6 +4,7 @@ import (
 	//"github.com/RenatoGeh/gospn/sys"
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"gonum.org/v1/gonum/stat/distuv"
 	"math"
 )
@@ -183,6 +184,17 @@ func (g *Gaussian) Sc() []int {
 	return g.sc
 }
 
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (g *Gaussian) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(g)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(g, p)
+	}
+	return p
+}
+
 // GobEncode serializes this gaussian node.
 func (g *Gaussian) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
diff --git a/spn/indicator.go b/spn/indicator.go
index 96592d1..f4a52ac 100644
--- a/spn/indicator.go
+++ b/spn/indicator.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/utils"
 )
 
@@ -63,6 +64,17 @@ func (i *Indicator) Sc() []int {
 	return i.sc
 }
 
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (i *Indicator) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(i)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(i, p)
+	}
+	return p
+}
+
 func (i *Indicator) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
 	fmt.Fprintln(&b, i.varid, i.v)
diff --git a/spn/multinom.go b/spn/multinom.go
index cc6ebaf..86accb7 100644
--- a/spn/multinom.go
+++ b/spn/multinom.go
@@ -3,6 +3,7 @@ package spn
 import (
 	"bytes"
 	"fmt"
+	"github.com/RenatoGeh/gospn/learn/parameters"
 	"github.com/RenatoGeh/gospn/sys"
 	"math"
 )
@@ -215,6 +216,17 @@ func (m *Multinomial) MuSigma() (float64, float64) {
 	return mu, sd
 }
 
+// Parameters returns the parameters of this object. If no bound parameter is found, binds default
+// parameter values and returns.
+func (m *Multinomial) Parameters() *parameters.P {
+	p, e := parameters.Retrieve(m)
+	if !e {
+		p = parameters.Default()
+		parameters.Bind(m, p)
+	}
+	return p
+}
+
 // GobEncode serializes this multinomial node.
 func (m *Multinomial) GobEncode() ([]byte, error) {
 	var b bytes.Buffer
-- 
2.43.0


From 046fbba0cf306735119cedb41f0cee3e623cd191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 20/73] fix: SingleQueue.Wait could return while a function was
 still queued

---
 conc/queue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conc/queue.go b/conc/queue.go
index 863e517..e9734dd 100644
--- a/conc/queue.go
+++ b/conc/queue.go
@@ -28,13 +28,14 @@ func (q *SingleQueue) Allowed() int { return q.n }
 
 // Run queries the SingleQueue to run function f with id i. It may or may not run immediately.
 func (q *SingleQueue) Run(f func(int), i int) {
+	// Count f before it gets its turn, else Wait may return while f is still in the queue.
+	q.wg.Add(1)
 	q.c.L.Lock()
 	for q.k >= q.n {
 		q.c.Wait()
 	}
 	q.k++
 	q.c.L.Unlock()
-	q.wg.Add(1)
 	go func(id int) {
 		defer q.wg.Done()
 		f(id)
-- 
2.43.0


From 0875e6604a54a94b8bc0c0665b48c225dc5823aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 21/73] fix: PartitionByLabels gave leftovers the wrong
 instances

Leftovers are indices into their class, not into the dataset, and how far a
partition is from its proportion is its size over the dataset's.
---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cdcb80c..f305ea1 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -147,7 +147,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 	var d float64
 	var di int
 	for i := 0; i < m; i++ {
-		u := float64(n) / float64(len(M[i]))
+		u := float64(len(M[i])) / float64(n)
 		du := math.Abs(u - p[i])
 		if du > d {
 			d, di = du, i
@@ -157,7 +157,7 @@ func PartitionByLabels(D []map[int]int, L []int, c int, p []float64) ([][]map[in
 		for K[i] < len(R[i]) {
 			l := R[i][K[i]]
 			V := make(map[int]int)
-			copyMap(V, D[l])
+			copyMap(V, D[C[i][l]])
 			M[di] = append(M[di], V)
 			U[di] = append(U[di], i)
 			K[i]++
-- 
2.43.0


From 5b13556d61ef168b36b4becccc7b48172e6cd133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 22/73] fix: Divide crashed when asked for more parts than
 there are instances

---
 data/manipulate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index f305ea1..948acb5 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -335,8 +335,8 @@ func Divide(D []map[int]int, L []int, n int) ([][]map[int]int, [][]int) {
 		for i, I := range D {
 			M := make(map[int]int)
 			copyMap(M, I)
-			Gd[0][i] = M
-			Gl[0][i] = L[i]
+			Gd[0] = append(Gd[0], M)
+			Gl[0] = append(Gl[0], L[i])
 		}
 		return Gd, Gl
 	}
-- 
2.43.0


From 8d4d5edb0a2690ca74397510e5878fbe981ff88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 23/73] fix: Identical ignored missing variables and instances
 and crashed on unequal lengths

---
 data/manipulate.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 948acb5..cc235c4 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -294,14 +294,23 @@ func Identical(D []map[int]int, E []map[int]int, L []int, M []int) bool {
 	if c && (len(L) != len(D) || len(M) != len(E)) {
 		panic("Length of dataset does not match length of labels.")
 	}
+	if len(D) != len(E) {
+		return false
+	}
 	for i, I := range D {
 		J := E[i]
+		if len(I) != len(J) {
+			return false
+		}
 		for k, v := range I {
-			if v != J[k] {
+			if u, e := J[k]; !e || v != u {
 				return false
 			}
 		}
 	}
+	if !c {
+		return true
+	}
 	for i, l := range L {
 		if M[i] != l {
 			return false
-- 
2.43.0


From 4de91532672d8353f2522b2563f336dd78934caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 24/73] fix: Partition crashed on a zero proportion after a
 half-integer size

---
 data/manipulate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index cc235c4..89dfed8 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -13,7 +13,7 @@ func cascadeRounding(p []float64) []int {
 	var t int
 	for i := range p {
 		s += p[i]
-		q[i] = int(math.Round(s - float64(t)))
+		q[i] = int(math.Floor(s - float64(t) + 0.5))
 		t += q[i]
 	}
 	return q
-- 
2.43.0


From bb4f972effb4c1f6e88b651ee6d85ed5711ef449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 25/73] fix: evaluating a score divided by zero on datasets of
 fewer than ten instances

---
 score/score.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/score/score.go b/score/score.go
index 0265655..82cbf20 100644
--- a/score/score.go
+++ b/score/score.go
@@ -73,7 +73,7 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -94,7 +94,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 	sys.Println("Evaluating scores...")
 	n := len(T) / 10
 	for i, I := range T {
-		if i > 0 && i%n == 0 {
+		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
 		l := I[v]
@@ -166,7 +166,7 @@ func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *l
 				}
 				mu.Lock()
 				s.Register(ml, h[j])
-				if _n := s.total; (_n > 0) && (_n%(len(D)/10) == 0) {
+				if _n := s.total; len(D) >= 10 && _n%(len(D)/10) == 0 {
 					sys.Printf("... %d%% ...\n", int(100.0*(float64(_n)/float64(len(D)))))
 				}
 				mu.Unlock()
-- 
2.43.0


From 75132910f6e21e28e9a44ef1acb0e1bdc79041c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 26/73] fix: evaluating a score added the label variable to
 unlabelled instances

---
 score/score.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/score/score.go b/score/score.go
index 82cbf20..c5c312a 100644
--- a/score/score.go
+++ b/score/score.go
@@ -76,12 +76,14 @@ func (s *S) Evaluate(T spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable
 		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		_, _, M := spn.StoreMAP(N, I, tk, st)
 		s.Register(M[v], L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
@@ -97,7 +99,7 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		if i > 0 && n > 0 && i%n == 0 {
 			sys.Printf("... %d%% ...\n", int(100.0*(float64(i)/float64(len(T)))))
 		}
-		l := I[v]
+		l, e := I[v]
 		delete(I, v)
 		spn.StoreInference(N, I, tk, st)
 		pe, _ := st.Single(tk, N)
@@ -115,7 +117,9 @@ func (s *S) EvaluatePosterior(T spn.Dataset, L []int, N spn.SPN, classVar *learn
 		}
 		s.Register(ml, L[i])
 		st.Reset(tk)
-		I[v] = l
+		if e {
+			I[v] = l
+		}
 	}
 }
 
-- 
2.43.0


From 80d5650ec59a77065cbbe75c33264970ad9ac364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 27/73] fix: EvaluatePosteriorConc crashed with fewer instances
 than processors

---
 score/score.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/score.go b/score/score.go
index c5c312a..2824739 100644
--- a/score/score.go
+++ b/score/score.go
@@ -136,16 +136,16 @@ func copyExcept(V spn.VarSet, x int) spn.VarSet {
 // EvaluatePosteriorConc runs EvaluatePosterior concurrently. Additional argument k is the number
 // of concurrent jobs to run at a time. If k <= 0, k is set to the number of CPUs available.
 func (s *S) EvaluatePosteriorConc(D spn.Dataset, L []int, N spn.SPN, classVar *learn.Variable, k int) {
+	Q := conc.NewSingleQueue(k)
+	k = Q.Allowed()
 	if len(D) < k {
 		s.EvaluatePosterior(D, L, N, classVar)
 		return
 	}
-	Q := conc.NewSingleQueue(k)
 	mu := &sync.Mutex{}
 	c, v := classVar.Categories, classVar.Varid
 	sys.Println("Evaluating scores...")
 
-	k = Q.Allowed()
 	G, H := data.Divide(D, L, k)
 	for i := 0; i < k; i++ {
 		Q.Run(func(id int) {
-- 
2.43.0


From e65f3104c1969688dc0a25966f5956841440d463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:09 +0000
Subject: [PATCH 28/73] fix: adding scores could share their predictions with
 an operand

---
 score/score.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/score.go b/score/score.go
index 2824739..0e0abbc 100644
--- a/score/score.go
+++ b/score/score.go
@@ -209,7 +209,7 @@ func Add(s, t *S) *S {
 	m.hits = s.hits + t.hits
 	m.misses = s.misses + t.misses
 	m.total = s.total + t.total
-	m.predictions = append(s.predictions, t.predictions...)
+	m.predictions = append(append([]Pair{}, s.predictions...), t.predictions...)
 	return m
 }
 
-- 
2.43.0


From 0ec041813ea71ece9017b4073c4a9243237b2817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 29/73] fix: a Variable without a name, or with spaces in it,
 could not be decoded

---
 learn/variable.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/learn/variable.go b/learn/variable.go
index fcc9157..41a18a2 100644
--- a/learn/variable.go
+++ b/learn/variable.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"github.com/RenatoGeh/gospn/spn"
 	"github.com/RenatoGeh/gospn/utils"
+	"strings"
 )
 
 func init() {
@@ -29,8 +30,12 @@ func (v *Variable) GobEncode() ([]byte, error) {
 
 func (v *Variable) GobDecode(data []byte) error {
 	b := bytes.NewBuffer(data)
-	_, err := fmt.Fscanln(b, &v.Varid, &v.Categories, &v.Name)
-	return err
+	if _, err := fmt.Fscan(b, &v.Varid, &v.Categories); err != nil {
+		return err
+	}
+	// The name is the rest, and may be empty or contain spaces.
+	v.Name = strings.TrimSuffix(strings.TrimPrefix(b.String(), " "), "\n")
+	return nil
 }
 
 type Scope map[int]*Variable
-- 
2.43.0


From dd43d205b4dc50bfe52a75a8212cde38a2352061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:49 +0000
Subject: [PATCH 30/73] fix: an empty side of SubtractLabel was unlabelled, so
 joining it lost every label

---
 data/manipulate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/manipulate.go b/data/manipulate.go
index 89dfed8..0846e65 100644
--- a/data/manipulate.go
+++ b/data/manipulate.go
@@ -253,7 +253,8 @@ func SubtractLabel(D []map[int]int, L []int, l int) ([]map[int]int, []int, []map
 		panic("Length of dataset does not match length of labels.")
 	}
 	var S, T []map[int]int
-	var P, Q []int
+	// No instances means no labels, but not an unlabelled dataset.
+	P, Q := []int{}, []int{}
 	for i := 0; i < n; i++ {
 		if L[i] == l {
 			t := make(map[int]int)
-- 
2.43.0


From bb41102417f078892c152679753582f4eda6ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 31/73] fix: LogSum and LogSumPair gave NaN for zero
 probabilities

---
 utils/log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index 49de4a3..de9211e 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -50,6 +50,9 @@ func LogSum(p []float64) float64 {
 			pi = lp
 		}
 	}
+	if math.IsInf(pi, 0) {
+		return pi
+	}
 
 	lg := 0.0
 	for i := 0; i < n; i++ {
@@ -86,6 +89,9 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 == 0 {
+		return Log(p2)
+	}
 	return Log(p1) + Log(1.0+(p2/p1))
 }
 
-- 
2.43.0


From 9846ba38a53de8414cb35b6db4dfc5e4f1b7f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 32/73] fix: independence tests called a constant variable
 dependent on every other

---
 utils/indep/chisq.go | 4 ++++
 utils/indep/gtest.go | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/indep/chisq.go b/utils/indep/chisq.go
index 2979a01..51ae370 100644
--- a/utils/indep/chisq.go
+++ b/utils/indep/chisq.go
@@ -156,6 +156,10 @@ func ChiSquareTest(p, q int, data [][]int, sigval float64) bool {
 	// df is the degree of freedom.
 	//fmt.Println("Computing degrees of freedom...")
 	df := (p - 1) * (q - 1)
+	// A variable with a single category is constant, and thus independent of any other.
+	if df == 0 {
+		return true
+	}
 
 	// Expected frequencies
 	E := make([][]float64, p)
diff --git a/utils/indep/gtest.go b/utils/indep/gtest.go
index 4c914d9..6ff3e60 100644
--- a/utils/indep/gtest.go
+++ b/utils/indep/gtest.go
@@ -9,6 +9,11 @@ import (
 
 // GTest is the G-Test log-likelihood independence test.
 func GTest(p, q int, data [][]int, n int, sigval float64) bool {
+	df := (p - 1) * (q - 1)
+	// A variable with a single category is constant, and thus independent of any other.
+	if df == 0 {
+		return true
+	}
 
 	E := make([][]float64, p)
 	for i := 0; i < p; i++ {
@@ -21,7 +26,6 @@ func GTest(p, q int, data [][]int, n int, sigval float64) bool {
 		}
 	}
 
-	df := (p - 1) * (q - 1)
 	sum := 0.0
 
 	for i := 0; i < p; i++ {
-- 
2.43.0


From 4d87a6d80a0bab2b9bc89f388f0d786d56432773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 33/73] fix: PartitionQuantiles used unsorted values and gave
 NaN for empty quantiles

---
 learn/dennis/region.go |  2 +-
 learn/poon/poon.go     |  2 +-
 utils/stats.go         | 12 +++++++++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 0e805dd..76b605e 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -33,8 +33,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 			mu, sigma := utils.MuSigma(X)
 			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
 		} else {
-			r.rep = make([]spn.SPN, g)
 			Q := utils.PartitionQuantiles(X, g)
+			r.rep = make([]spn.SPN, len(Q))
 			for i, q := range Q {
 				r.rep[i] = spn.NewGaussianParams(v, q[0], q[1])
 			}
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4077f0f..aea69a2 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -111,7 +111,7 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-	S := make([]spn.SPN, n)
+	S := make([]spn.SPN, len(Q))
 	//s := spn.NewSum()
 	for i, q := range Q {
 		g := spn.NewGaussianParams(p, q[0], q[1])
diff --git a/utils/stats.go b/utils/stats.go
index 5f240b6..c7689f9 100644
--- a/utils/stats.go
+++ b/utils/stats.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"gonum.org/v1/gonum/floats"
 	"math"
+	"sort"
 )
 
 // Mean returns the mean of a slice.
@@ -56,8 +57,10 @@ func MuSigma(c []int) (float64, float64) {
 
 // PartitionQuantiles takes a slice of values X of a single variable from the dataset and the
 // number m of quantiles to partition the data. Returns a slice of pair of values containing mean
-// and standard deviation (in this order).
+// and standard deviation (in this order). Quantiles without any value are left out.
 func PartitionQuantiles(X []int, m int) [][]float64 {
+	X = append([]int(nil), X...)
+	sort.Ints(X)
 	k := len(X)
 	var l int
 	if k/m <= 1 {
@@ -65,7 +68,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 	} else {
 		l = int(floats.Round(float64(k)/float64(m), 0))
 	}
-	P := make([][]float64, m)
+	P := make([][]float64, 0, m)
 	for i := 0; i < m; i++ {
 		q := (i + 1) * l
 		if i == m-1 {
@@ -75,6 +78,9 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		for j := i * l; j < q && j < k; j++ {
 			Q = append(Q, X[j])
 		}
+		if len(Q) == 0 {
+			continue
+		}
 		// Compute mean and standard deviation.
 		var mu, sigma float64
 		n := float64(len(Q))
@@ -90,7 +96,7 @@ func PartitionQuantiles(X []int, m int) [][]float64 {
 		if sigma == 0 {
 			sigma = 0.5
 		}
-		P[i] = []float64{mu, sigma, n}
+		P = append(P, []float64{mu, sigma, n})
 	}
 	return P
 }
-- 
2.43.0


From 7382a59da4218b1970d462fb151be2ebf21bf9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:24 +0000
Subject: [PATCH 34/73] fix: single Gaussians of Poon and Dennis took values
 for counts

---
 learn/dennis/region.go | 4 ++--
 learn/poon/poon.go     | 5 -----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/learn/dennis/region.go b/learn/dennis/region.go
index 76b605e..88c1cb3 100644
--- a/learn/dennis/region.go
+++ b/learn/dennis/region.go
@@ -30,8 +30,8 @@ func (r *region) translate(D spn.Dataset, m, g int) []spn.SPN {
 		}
 		X := learn.ExtractInstance(v, D)
 		if g > len(D) {
-			mu, sigma := utils.MuSigma(X)
-			r.rep = []spn.SPN{spn.NewGaussianParams(v, mu, sigma)}
+			q := utils.PartitionQuantiles(X, 1)[0]
+			r.rep = []spn.SPN{spn.NewGaussianParams(v, q[0], q[1])}
 		} else {
 			Q := utils.PartitionQuantiles(X, g)
 			r.rep = make([]spn.SPN, len(Q))
diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index aea69a2..087be9f 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -103,11 +103,6 @@ func createUnitRegion(x, y, n int, D spn.Dataset) *region {
 		V[i] = D[i][p]
 	}
 
-	if n == 1 {
-		mu, sigma := utils.MuSigma(V)
-		return newRegion(gmixtureId, []spn.SPN{spn.NewGaussianParams(p, mu, sigma)}, 1)
-	}
-
 	sort.Ints(V)
 	//sys.Printf("p: %d\n", p)
 	Q := utils.PartitionQuantiles(V, n)
-- 
2.43.0


From c6d9ef862ebb63c8fa924b1f9ecdba1c937873af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 35/73] fix: DBSCANData numbered clusters by instance and
 crashed

---
 utils/cluster/dbscan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 5d52a7a..63dfd04 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -108,11 +108,11 @@ func DBSCANData(data []map[int]int, eps float64, mp int) [][]map[int]int {
 	rgs := dbscanInternal(M, eps, mp)
 	G := make([]int, len(M))
 	var k int
-	for i, u := range rgs {
+	for _, u := range rgs {
 		if u.Pa == u {
 			ch := utils.UFVarids(u)
 			for _, c := range ch {
-				G[c] = i
+				G[c] = k
 			}
 			k++
 		}
-- 
2.43.0


From 3bbdb87522b4d7db2aad77ea0d7de141e7b75d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 36/73] fix: DBSCAN did not count neighbours already in the
 cluster as dense

---
 utils/cluster/dbscan.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/utils/cluster/dbscan.go b/utils/cluster/dbscan.go
index 63dfd04..45eab16 100644
--- a/utils/cluster/dbscan.go
+++ b/utils/cluster/dbscan.go
@@ -37,21 +37,25 @@ func dbscanInternal(data [][]float64, eps float64, mp int) []*utils.UFNode {
 
 		// Neighbourhood of p.
 		nbh := common.Queue{}
+		// Number of points in the neighbourhood of p, clustered or not.
+		var density int
 
 		for i := 0; i < n; i++ {
 			// Clause 1 (i != p):
 			//  Pairs must be distinct.
 			// Clause 2 (dmatrix[p][i] <= eps):
 			//  Distance must be <= the epsilon parameter of max distance.
-			// Clause 3 (utils.Find(rgs[i]) != utils.Find(rgs[p])):
-			//  Pair is not already in the same cluster.
-			if (i != p) && (dmatrix[p][i] <= eps) && (utils.Find(rgs[i]) != utils.Find(rgs[p])) {
-				nbh.Enqueue(i)
+			if (i != p) && (dmatrix[p][i] <= eps) {
+				density++
+				// Only expand to points that are not already in the same cluster.
+				if utils.Find(rgs[i]) != utils.Find(rgs[p]) {
+					nbh.Enqueue(i)
+				}
 			}
 		}
 
 		// Found dense neighbourhood.
-		if nbh.Size() >= mp {
+		if density >= mp {
 			for !nbh.Empty() {
 				q := nbh.Dequeue().(int)
 				utils.Union(rgs[p], rgs[q])
-- 
2.43.0


From 116fb89c68ef9c67e96753441cc83436f850f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:59 +0000
Subject: [PATCH 37/73] fix: k-means on datasets numbered instances by variable
 and lost most of them

---
 utils/cluster/kmeans.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index b83441a..7167d9d 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -123,8 +123,8 @@ func KMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansData(k int, data []map[int]int) []map[int][]int {
-	D, Sc := learn.DataToMatrix(data)
-	return KMeansMuesli(k, D, Sc)
+	D, _ := learn.DataToMatrix(data)
+	return KMeansMuesli(k, D, nil)
 }
 
 func OldKMeans(k int, data [][]int) []map[int][]int {
@@ -216,12 +216,12 @@ func OldKMeans(k int, data [][]int) []map[int][]int {
 }
 
 func KMeansF(k int, D [][]float64, sc map[int]int) []map[int][]float64 {
-	return KMeansMuesliF(k, D, nil)
+	return KMeansMuesliF(k, D, sc)
 }
 
 func KMeansFData(k int, D []map[int]int) []map[int][]float64 {
-	E, Sc := learn.DataToMatrixF(D)
-	return KMeansMuesliF(k, E, Sc)
+	E, _ := learn.DataToMatrixF(D)
+	return KMeansMuesliF(k, E, nil)
 }
 
 func OldKMeansF(k int, D [][]float64, F metrics.MetricF) []map[int][]float64 {
-- 
2.43.0


From 5d493ca36146b3a4c7b746ff69ba68b0570c509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 38/73] fix: k-modes took a value for its count when updating a
 mode, and printed every step

---
 utils/cluster/kmeans.go | 2 +-
 utils/cluster/kmode.go  | 6 +-----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/utils/cluster/kmeans.go b/utils/cluster/kmeans.go
index 7167d9d..234a8bf 100644
--- a/utils/cluster/kmeans.go
+++ b/utils/cluster/kmeans.go
@@ -27,7 +27,7 @@ func kMeansRemove(which int, means map[int][]int, clusters []map[int][]int, v []
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
diff --git a/utils/cluster/kmode.go b/utils/cluster/kmode.go
index 49342f1..31f7baf 100644
--- a/utils/cluster/kmode.go
+++ b/utils/cluster/kmode.go
@@ -1,7 +1,6 @@
 package cluster
 
 import (
-	"fmt"
 	"github.com/RenatoGeh/gospn/sys"
 	"github.com/RenatoGeh/gospn/utils/cluster/metrics"
 )
@@ -24,7 +23,7 @@ func kModeRemove(which int, means map[int][]int, clusters []map[int][]int, v []i
 		if means[which][k] == v[k] {
 			max, s := -1, len(clusters[which][k])
 			for i := 0; i < s; i++ {
-				if max < 0 || clusters[which][k][i] > max {
+				if max < 0 || clusters[which][k][i] > clusters[which][k][max] {
 					max = i
 				}
 			}
@@ -89,12 +88,10 @@ func KMode(k int, data [][]int) []map[int][]int {
 		// Instance i has no attached cluster.
 		if !ok {
 			chkdata[i] = which
-			fmt.Println(data[i], " to cluster ", which)
 			kModeInsert(which, means, clusters, data[i])
 			nochange = 0
 		} else if v != which {
 			// If instance has an earlier attached cluster.
-			fmt.Println(data[i], " from ", chkdata[i], " to cluster ", which)
 			kModeRemove(chkdata[i], means, clusters, data[i])
 			chkdata[i] = which
 			kModeInsert(which, means, clusters, data[i])
@@ -106,7 +103,6 @@ func KMode(k int, data [][]int) []map[int][]int {
 		if i >= n {
 			i = 0
 		}
-		fmt.Println("0:", means[0], "  1:", means[1])
 	}
 	//fmt.Println("Converged. Returning clusters...")
 	clusters = make([]map[int][]int, k)
-- 
2.43.0


From d83bc8a9d3f53c3d8821a48185149348b84b5ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 39/73] fix: k-medoids crashed with fewer than k distinct
 instances

---
 utils/cluster/kmedoid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/cluster/kmedoid.go b/utils/cluster/kmedoid.go
index debe94b..b0ee62c 100644
--- a/utils/cluster/kmedoid.go
+++ b/utils/cluster/kmedoid.go
@@ -80,6 +80,8 @@ func KMedoid(k int, data [][]int) []map[int][]int {
 		chkdata[r] = i
 		kMedoidInsert(i, means, clusters, data[r], r)
 	}
+	// There may be fewer than k distinct instances.
+	k = len(means)
 	//fmt.Println("k", k, "n", n)
 
 	//fmt.Println("Starting K-means until convergence...")
-- 
2.43.0


From 255e591e2de2f02543bdcdb472f9c71345410052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 40/73] fix: OPTICS crashed on dense points and never expanded
 to their neighbours

---
 utils/cluster/optics.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/utils/cluster/optics.go b/utils/cluster/optics.go
index 7d95bc2..1bb6232 100644
--- a/utils/cluster/optics.go
+++ b/utils/cluster/optics.go
@@ -83,7 +83,7 @@ func getCoreDist(nb []*object, o *object, eps float64, mp int) float64 {
 	if n < mp {
 		return undef
 	}
-	dists, p1 := make([]*objDist, n), o.data
+	dists, p1 := make([]*objDist, 0, n), o.data
 	for i := 0; i < n; i++ {
 		dists = append(dists, &objDist{dist: distance(p1, nb[i].data), index: i})
 	}
@@ -141,12 +141,12 @@ func seedsUpdate(nb []*object, o *object, pq *pQueue) {
 	for i := 0; i < n; i++ {
 		if !nb[i].vst {
 			rdist := max(cdist, distance(p1, nb[i].data))
-			if o.rdist == undef {
-				o.rdist = rdist
-				pq.Push(&item{obj: o, p: rdist})
-			} else if rdist < o.rdist {
-				o.rdist = rdist
-				pq.update(o, rdist)
+			if nb[i].rdist == undef {
+				nb[i].rdist = rdist
+				heap.Push(pq, &item{obj: nb[i], p: rdist})
+			} else if rdist < nb[i].rdist {
+				nb[i].rdist = rdist
+				pq.update(nb[i], rdist)
 			}
 		}
 	}
@@ -161,7 +161,7 @@ func expand(set []*object, o *object, eps float64, mp int, order *qObj, pq *pQue
 	if o.cdist != undef {
 		seedsUpdate(nb, o, pq)
 		for len(*pq) != 0 {
-			co := pq.Pop().(*item).obj
+			co := heap.Pop(pq).(*item).obj
 			nb := getNeighbors(set, co, eps)
 			co.vst = true
 			co.cdist = getCoreDist(nb, co, eps, mp)
-- 
2.43.0


From e4675cebd53c01715c76fa2bd2a2620a328433fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 41/73] fix: Poon structure crashed with a resolution of one
 pixel

---
 learn/poon/poon.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 087be9f..fc04e96 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -57,13 +57,7 @@ type decomp struct {
 }
 
 func newRegion(id int, inner []spn.SPN, step int) *region {
-	var d []*decomp
-	if step == 1 {
-		d = nil
-	} else {
-		d = make([]*decomp, len(inner))
-	}
-	return &region{id, inner, step, -1, 100, 100, d}
+	return &region{id, inner, step, -1, 100, 100, make([]*decomp, len(inner))}
 }
 
 // Encode is encode.
-- 
2.43.0


From de091a99e463e9714e8d38f68a8a91c444bebb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 42/73] fix: Poon structure left sums without children when a
 decomposition was already in use

---
 learn/poon/poon.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index fc04e96..4074ded 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -445,6 +445,7 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 	}
 	R.mapIndex = mapSumOpts[sys.RandIntn(len(mapSumOpts))]
 	bD := R.bestDecomp[R.mapIndex]
+	sum := R.inner[R.mapIndex].(*spn.Sum)
 	if !existsDecomp(bD, existingDecomps) {
 		pi := spn.NewProduct()
 		S, T := L[bD.p], L[bD.q]
@@ -452,7 +453,6 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		pi.AddChild(s)
 		pi.AddChild(t)
 		//sys.Printf("(%d, %d, %d, %d)\n", x1, y1, x2, y2)
-		sum := R.inner[R.mapIndex].(*spn.Sum)
 		sum.AddChildW(pi, 1.0)
 		storeDecomp(bD, existingDecomps)
 		storeProd(pi, bD, decompToProd)
@@ -461,11 +461,23 @@ func (R *region) compMap(k uint64, m, g, r int, I spn.VarSet, L map[uint64]*regi
 		counts.StoreSingle(pi, c+1.0)
 	} else {
 		pi := extractProd(bD, decompToProd)
+		if !hasChild(sum, pi) {
+			sum.AddChildW(pi, 1.0)
+		}
 		c, _ := counts.Single(pi)
 		counts.StoreSingle(pi, c+1.0)
 	}
 }
 
+func hasChild(s *spn.Sum, p spn.SPN) bool {
+	for _, c := range s.Ch() {
+		if c == p {
+			return true
+		}
+	}
+	return false
+}
+
 func equalsDecomp(d, e *decomp) bool {
 	return d.p == e.p && d.q == e.q && d.r == e.r && d.s == e.s
 }
-- 
2.43.0


From e0ba599b2ddfd5bcdb5823bb6ea6cb284319419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:21 +0000
Subject: [PATCH 43/73] fix: Poon structure had an arbitrary root when the
 resolution is the whole image

---
 learn/poon/poon.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/learn/poon/poon.go b/learn/poon/poon.go
index 4074ded..7ccc3fa 100644
--- a/learn/poon/poon.go
+++ b/learn/poon/poon.go
@@ -152,6 +152,8 @@ func createRegions(D spn.Dataset, m, g, r int) map[uint64]*region {
 							var R *region
 							if x == 1 && y == 1 {
 								R = createUnitRegion(x1, y1, g, D)
+							} else if x == w && y == h {
+								_, R = createSum(x1, y1, x2, y2, 1)
 							} else {
 								R = createRegion(m, r)
 								if x2-x1 <= r || y2-y1 <= r {
-- 
2.43.0


From 0e7d9108093354aca3a3fef0103202ab8248ba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:20 +0000
Subject: [PATCH 44/73] fix: gens: skip empty clusters left by k-means

---
 learn/gens/gens.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/learn/gens/gens.go b/learn/gens/gens.go
index 3b05146..8b5d8f3 100644
--- a/learn/gens/gens.go
+++ b/learn/gens/gens.go
@@ -164,7 +164,12 @@ func clusterStep(np, k, g int, pval, eps float64, mp int, D []map[int]int, Sc ma
 		if len(D) < k {
 			return newFullyFactorized(g, D, Sc)
 		}
-		clusters = cluster.KMeansDataI(k, D)
+		// K-means may leave clusters empty.
+		for _, c := range cluster.KMeansDataI(k, D) {
+			if len(c) > 0 {
+				clusters = append(clusters, c)
+			}
+		}
 	} else {
 		clusters = cluster.DBSCANData(D, eps, mp)
 	}
-- 
2.43.0


From 66985b6f96be67c28d681de5fc29d2c1a051bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 45/73] fix: data files with blank lines, leading blanks or no
 instances crashed the parsers

---
 io/input.go | 58 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/io/input.go b/io/input.go
index 7abf64f..fb0d206 100644
--- a/io/input.go
+++ b/io/input.go
@@ -32,6 +32,16 @@ func GetPath(relpath string) string {
 	return rp
 }
 
+// scan advances scanner to the next line that is not blank.
+func scan(scanner *bufio.Scanner) bool {
+	for scanner.Scan() {
+		if strings.TrimSpace(scanner.Text()) != "" {
+			return true
+		}
+	}
+	return false
+}
+
 // ParseData reads from a file named filename and returns the scope and data map of the parsed data
 // file.
 func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
@@ -49,12 +59,11 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 	var line string
 
 	// Get variable definitions.
-	for {
-		if !scanner.Scan() {
-			break
-		}
-		line = scanner.Text()
+	empty := true
+	for scan(scanner) {
+		line = strings.TrimSpace(scanner.Text())
 		if line[0] != 'v' {
+			empty = false
 			break
 		}
 		var varid, cats int
@@ -65,10 +74,13 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 	n := len(sc)
 	var data [][]int
 
+	if empty {
+		return sc, nil
+	}
 	regex := regexp.MustCompile("[\\,\\s]+")
 	// We assume complete data.
 	k := 0
-	for i := 0; scanner.Scan(); i++ {
+	for i := 0; scan(scanner); i++ {
 		data = append(data, make([]int, n))
 		s := regex.Split(line, -1)
 		for j := 0; j < n; j++ {
@@ -78,7 +90,7 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 				panic(err)
 			}
 		}
-		line = scanner.Text()
+		line = strings.TrimSpace(scanner.Text())
 		k++
 	}
 
@@ -121,12 +133,11 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 	var line string
 
 	// Get variable definitions.
-	for {
-		if !scanner.Scan() {
-			break
-		}
-		line = scanner.Text()
+	empty := true
+	for scan(scanner) {
+		line = strings.TrimSpace(scanner.Text())
 		if line[0] != 'v' {
+			empty = false
 			break
 		}
 		var varid, cats int
@@ -140,10 +151,13 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 	delete(sc, n)
 	var lbls []int
 
+	if empty {
+		return sc, nil, nil
+	}
 	regex := regexp.MustCompile("[\\,\\s]+")
 	// We assume complete data.
 	k := 0
-	for i := 0; scanner.Scan(); i++ {
+	for i := 0; scan(scanner); i++ {
 		data = append(data, make([]int, n))
 		s := regex.Split(line, -1)
 		for j := 0; j < n; j++ {
@@ -155,7 +169,7 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 		}
 		lbl, _ := strconv.Atoi(s[n])
 		lbls = append(lbls, lbl)
-		line = scanner.Text()
+		line = strings.TrimSpace(scanner.Text())
 		k++
 	}
 
@@ -218,12 +232,11 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 	}
 
 	// Get variable definitions.
-	for {
-		if !scanner.Scan() {
-			break
-		}
-		line = scanner.Text()
+	empty := true
+	for scan(scanner) {
+		line = strings.TrimSpace(scanner.Text())
 		if line[0] != 'v' {
+			empty = false
 			break
 		}
 		var varid, cats int
@@ -234,10 +247,13 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 	n := len(sc)
 	var data [][]int
 
+	if empty {
+		return sc, nil, slabels
+	}
 	regex := regexp.MustCompile("[\\,\\s]+")
 	k := 0
 	// We assume complete data.
-	for i := 0; scanner.Scan(); i++ {
+	for i := 0; scan(scanner); i++ {
 		data = append(data, make([]int, n))
 		s := regex.Split(line, -1)
 		for j := 0; j < n; j++ {
@@ -247,7 +263,7 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 				panic(err)
 			}
 		}
-		line = scanner.Text()
+		line = strings.TrimSpace(scanner.Text())
 		k++
 	}
 
-- 
2.43.0


From 1537b64f267de5af04854b07be05f13b5a59ce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 46/73] fix: ARFFToData wrote the last value of each instance
 twice

---
 io/arff.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/io/arff.go b/io/arff.go
index 7f8c736..785f572 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -136,7 +136,6 @@ func ARFFToData(dirname, fname, dname string) {
 
 			fmt.Fprintf(write, "%s ", val)
 		}
-		fmt.Fprintf(write, "%s ", inst[len(inst)-1])
 		fmt.Fprintf(write, "\n")
 		fmt.Println("Instance written")
 	}
-- 
2.43.0


From 3584b13d1eb06bf4708e613c3637816013ccdf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 47/73] fix: ParseArff turned blank lines into instances
 without values

---
 io/arff.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/io/arff.go b/io/arff.go
index 785f572..f19e8b0 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -262,6 +262,9 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				return c == ' ' || c == ','
 			})
 
+			if len(v) == 0 {
+				continue
+			}
 			vals = append(vals, make(map[int]int))
 			for j := range v {
 				if typs[j] == "numeric" {
-- 
2.43.0


From 9778f09e2924ed8526d199df9d02767814c62963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:51 +0000
Subject: [PATCH 48/73] fix: ParseArff gave an undeclared label the number of a
 declared one

---
 io/arff.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index f19e8b0..e765e9b 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -292,8 +292,8 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 				} else /* class */ {
 					tk := v[j]
 					if _, e := labels[j][tk]; !e {
-						labels[j][tk] = counts[j]
-						counts[j]++
+						labels[j][tk] = len(labels[j])
+						sc[j].Categories++
 					}
 					vals[i][j] = labels[j][tk]
 				}
-- 
2.43.0


From 84ec3665199bf45b733fdd22772676a0d393e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:07 +0000
Subject: [PATCH 49/73] fix: lines longer than 64 KB silently ended data files
 and images

---
 io/arff.go  |  4 ++--
 io/input.go | 15 ++++++++++++---
 io/pbm.go   |  6 +++---
 io/pgm.go   |  8 ++++----
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/io/arff.go b/io/arff.go
index e765e9b..7a695e9 100644
--- a/io/arff.go
+++ b/io/arff.go
@@ -34,7 +34,7 @@ func ARFFToData(dirname, fname, dname string) {
 	defer input.Close()
 
 	var lines []string
-	scanner := bufio.NewScanner(input)
+	scanner := newScanner(input)
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
@@ -203,7 +203,7 @@ func ParseArff(filename string) (name string, sc map[int]*learn.Variable, vals [
 	}
 	defer in.Close()
 
-	stream := bufio.NewScanner(in)
+	stream := newScanner(in)
 	labels = make(map[int]map[string]int)
 	sc = make(map[int]*learn.Variable)
 	var typs []string
diff --git a/io/input.go b/io/input.go
index fb0d206..8acafe5 100644
--- a/io/input.go
+++ b/io/input.go
@@ -3,6 +3,8 @@ package io
 import (
 	"bufio"
 	"fmt"
+	"io"
+	"math"
 	"math/rand"
 	"os"
 	"path/filepath"
@@ -32,6 +34,13 @@ func GetPath(relpath string) string {
 	return rp
 }
 
+// newScanner returns a line scanner that takes lines of any length: an instance is a single line.
+func newScanner(r io.Reader) *bufio.Scanner {
+	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt32)
+	return scanner
+}
+
 // scan advances scanner to the next line that is not blank.
 func scan(scanner *bufio.Scanner) bool {
 	for scanner.Scan() {
@@ -54,7 +63,7 @@ func ParseData(filename string) (map[int]*learn.Variable, []map[int]int) {
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -128,7 +137,7 @@ func ParseDataNL(filename string) (map[int]*learn.Variable, []map[int]int, []int
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
@@ -212,7 +221,7 @@ func ParseEvidence(filename string) (map[int]*learn.Variable, []map[int]int, []i
 
 	sc := make(map[int]*learn.Variable)
 
-	scanner := bufio.NewScanner(file)
+	scanner := newScanner(file)
 
 	var line string
 
diff --git a/io/pbm.go b/io/pbm.go
index 88c49b9..f4baf9c 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -91,7 +91,7 @@ func PBMFToData(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -188,7 +188,7 @@ func PBMToData(dirname, dname string, class int) {
 		}
 		defer in[i].Close()
 
-		instream[i] = bufio.NewScanner(in[i])
+		instream[i] = newScanner(in[i])
 	}
 
 	out, err := os.Create(dname)
@@ -315,7 +315,7 @@ func PBMFToEvidence(dirname, dname string) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 		slabels = append(slabels, nsf*i)
 	}
diff --git a/io/pgm.go b/io/pgm.go
index 06a42ef..3be28ef 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -95,7 +95,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 			labels = append(labels, i)
 		}
 	}
@@ -271,7 +271,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 		f.Close()
 		panic(err)
 	}
-	stream := bufio.NewScanner(f)
+	stream := newScanner(f)
 	files = files[1:]
 
 	// Deal with magical number.
@@ -328,7 +328,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			}
 			mutex.Unlock()
 			defer lf.Close()
-			lstream := bufio.NewScanner(lf)
+			lstream := newScanner(lf)
 			// Magical number.
 			lstream.Scan()
 			// Width, height.
@@ -447,7 +447,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 			}
 			defer f.Close()
 
-			instreams = append(instreams, bufio.NewScanner(f))
+			instreams = append(instreams, newScanner(f))
 		}
 		slabels = append(slabels, nsf*i)
 	}
-- 
2.43.0


From 2ea5743cf0fb56e5a1be6138ff6c4b324a6cb371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:21 +0000
Subject: [PATCH 50/73] fix: ParsePartitionedData ignored every seed but the
 first

---
 io/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/input.go b/io/input.go
index 8acafe5..f4543a3 100644
--- a/io/input.go
+++ b/io/input.go
@@ -319,7 +319,7 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 	if rseed < 0 {
 		rint = rand.Intn
 	} else {
-		if glrseed < 0 {
+		if glrand == nil || glrseed != rseed {
 			glrand, glrseed = rand.New(rand.NewSource(rseed)), rseed
 		}
 		rint = glrand.Intn
-- 
2.43.0


From 75d80a1d6feb17dc1fd12b2c01e0d3e9fc20947a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:51 +0000
Subject: [PATCH 51/73] fix: ReadFromFile emptied the file it should read and
 returned nothing

---
 io/input.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/io/input.go b/io/input.go
index f4543a3..71ee945 100644
--- a/io/input.go
+++ b/io/input.go
@@ -361,12 +361,11 @@ func ParsePartitionedData(filename string, p float64, rseed int64) (map[int]*lea
 
 // ReadFromFile reads an SPN from an spn mdl file.
 func ReadFromFile(filename string) spn.SPN {
-	file, err := os.Create(filename)
+	S, err := LoadSPN(filename)
 	if err != nil {
-		fmt.Printf("Error. Could not create file [%s].\n", filename)
+		fmt.Printf("Error. Could not open file [%s].\n", filename)
 		panic(err)
 	}
-	defer file.Close()
 
-	return nil
+	return S
 }
-- 
2.43.0


From cc0974bed51ab20ba1f1c58014276a17cf459664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:15 +0000
Subject: [PATCH 52/73] fix: PGM conversion lost pixels separated by tabs and
 took blanks for black pixels in evidence files

---
 io/pgm.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/io/pgm.go b/io/pgm.go
index 3be28ef..357d045 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -151,7 +151,7 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 		stream := instreams[i]
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, err := strconv.Atoi(tokens[j])
@@ -290,7 +290,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 
 	for stream.Scan() {
 		line := stream.Text()
-		tokens := strings.Split(line, " ")
+		tokens := strings.Fields(line)
 		ntokens := len(tokens)
 		for i := 0; i < ntokens; i++ {
 			tkn, err := strconv.Atoi(tokens[i])
@@ -339,7 +339,7 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 			var vals []int
 			for lstream.Scan() {
 				line := lstream.Text()
-				tokens := strings.Split(line, " ")
+				tokens := strings.Fields(line)
 				ntokens := len(tokens)
 				for j := 0; j < ntokens; j++ {
 					tkn, err := strconv.Atoi(tokens[j])
@@ -513,7 +513,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 		for stream.Scan() {
 			line := stream.Text()
-			tokens := strings.Split(line, " ")
+			tokens := strings.Fields(line)
 			ntokens := len(tokens)
 			for j := 0; j < ntokens; j++ {
 				tkn, _ := strconv.Atoi(tokens[j])
-- 
2.43.0


From 385c09bd06237570a285180657e31195e55c9415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:16 +0000
Subject: [PATCH 53/73] fix: evidence files told the wrong beginning of a class
 when classes differ in size

---
 io/pbm.go | 2 +-
 io/pgm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/pbm.go b/io/pbm.go
index f4baf9c..0ddcc3f 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -317,7 +317,7 @@ func PBMFToEvidence(dirname, dname string) {
 
 			instreams = append(instreams, newScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
diff --git a/io/pgm.go b/io/pgm.go
index 357d045..355f4f7 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -449,7 +449,7 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 
 			instreams = append(instreams, newScanner(f))
 		}
-		slabels = append(slabels, nsf*i)
+		slabels = append(slabels, len(instreams)-nsf)
 	}
 
 	// Create compiled folder.
-- 
2.43.0


From 53eb5afe614cd23d5356236f7705f3d3312f4df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:49 +0000
Subject: [PATCH 54/73] fix: npy: reading past the last instance made instances
 up, or never returned

---
 io/npy.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/io/npy.go b/io/npy.go
index f7e9423..ce8136a 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -3,6 +3,7 @@ package io
 import (
 	"errors"
 	"github.com/sbinet/npyio"
+	"io"
 	"os"
 )
 
@@ -44,6 +45,7 @@ type NpyReader struct {
 	r *npyio.Reader // Npyio reader.
 	t int           // Actual type.
 	s [2]int        // Shape.
+	p int           // Number of instances already read.
 }
 
 // NewNpyReader creates a new *NpyReader from .npy file fname.
@@ -64,7 +66,7 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if t < 0 {
 		return nil, ErrNonIntegerType
 	}
-	return &NpyReader{f, r, t, [2]int{s[0], s[1]}}, nil
+	return &NpyReader{f, r, t, [2]int{s[0], s[1]}, 0}, nil
 }
 
 func new_counts(n int, k int) []int {
@@ -90,6 +92,10 @@ func readBalanced(r *NpyReader, n, c int) ([]map[int]int, []int, error) {
 	y := r.s[1]
 	C := new_counts(n, c)
 	for i := 0; i < n; {
+		if r.p >= r.s[0] {
+			return nil, nil, io.ErrUnexpectedEOF
+		}
+		r.p++
 		switch r.t {
 		case 0:
 			m := make([]uint8, y)
@@ -223,6 +229,13 @@ func read(r *NpyReader, n int) ([]map[int]int, []int, error) {
 	u := make([]map[int]int, n)
 	l := make([]int, n)
 	y := r.s[1]
+	if n > r.s[0]-r.p {
+		return nil, nil, io.ErrUnexpectedEOF
+	}
+	if n == 0 {
+		return u, l, nil
+	}
+	r.p += n
 	switch r.t {
 	case 0:
 		m := make([]uint8, k)
@@ -393,6 +406,7 @@ func (r *NpyReader) Reset() error {
 	r.f.Seek(0, 0)
 	nr, err := npyio.NewReader(r.f)
 	r.r = nr
+	r.p = 0
 	return err
 }
 
-- 
2.43.0


From 4698a53e9a24d62a17455ac858ac9ae4e4e50bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:54 +0000
Subject: [PATCH 55/73] fix: npy: column-major matrices were read as if
 row-major

---
 io/npy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index ce8136a..9a96e91 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -21,6 +21,7 @@ var (
 
 	ErrNonIntegerType  = errors.New("gospn: npy data type is non integer.")
 	ErrNonDatasetShape = errors.New("gospn: npy data does not have dimension two.")
+	ErrFortranOrder    = errors.New("gospn: npy data is in column-major (Fortran) order.")
 )
 
 func integerType(t int) int {
@@ -62,6 +63,9 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if len(s) != 2 {
 		return nil, ErrNonDatasetShape
 	}
+	if r.Header.Descr.Fortran {
+		return nil, ErrFortranOrder
+	}
 	t := isValid(r.Header.Descr.Type)
 	if t < 0 {
 		return nil, ErrNonIntegerType
-- 
2.43.0


From 79cf03cfff6cfe9718155069f8eb8bb3f1b3f28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:08 +0000
Subject: [PATCH 56/73] fix: VarSetToPPM declared its plain (ASCII) pixels to
 be raw bytes

---
 io/ppm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/ppm.go b/io/ppm.go
index 76e5555..27ccc54 100644
--- a/io/ppm.go
+++ b/io/ppm.go
@@ -17,7 +17,7 @@ func VarSetToPPM(filename string, state spn.VarSet, w, h, max int) {
 	}
 	defer file.Close()
 
-	fmt.Fprintf(file, "P6\n%d %d\n%d\n", w, h, max)
+	fmt.Fprintf(file, "P3\n%d %d\n%d\n", w, h, max)
 
 	n := len(state)
 	pixels := make([]int, n)
-- 
2.43.0


From 6fee2d1a07b47605b3f2def128400e90b9871d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:13 +0000
Subject: [PATCH 57/73] fix: the separator in ImgCmplToPGM was brighter than
 the image's declared maximum

---
 io/pgm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/pgm.go b/io/pgm.go
index 355f4f7..042f152 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -585,7 +585,7 @@ func ImgCmplToPGM(filename string, orig, cmpl spn.VarSet, typ CmplType, w, h, ma
 	n, j := w*h, 0
 	for i := 0; i < n; i++ {
 		if mid(i) {
-			common.DrawColor(file, common.Red)
+			common.DrawColorRGB(file, max, 0, 0)
 			goto cleanup
 		} else if v, eo := orig[j]; eo {
 			common.DrawColorRGB(file, v, v, v)
-- 
2.43.0


From 31f10822dbbfa266b4252e04344646ad3d682240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:16 +0000
Subject: [PATCH 58/73] fix: drawings of a single leaf named no or the wrong
 variable (and the graph-tool script did not run)

---
 io/output.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/io/output.go b/io/output.go
index 7ddadd5..009cabd 100644
--- a/io/output.go
+++ b/io/output.go
@@ -57,7 +57,7 @@ func DrawGraphTools(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "add_node(\"X\")\n\n")
+		fmt.Fprintf(file, "X0 = add_node(\"X_%d\", \"#0066ff\")\n\n", s.Sc()[0])
 		fmt.Fprintf(file, "g.vertex_properties[\"name\"]=vnames\n")
 		fmt.Fprintf(file, "g.vertex_properties[\"color\"]=vcolors\n")
 		fmt.Fprintf(file, "\ngraph_draw(g, vertex_text=g.vertex_properties[\"name\"], "+
@@ -167,7 +167,7 @@ func DrawGraph(filename string, s spn.SPN) {
 
 	// If the SPN is itself an univariate distribution, create a graph with a single node.
 	if s.Type() == "leaf" {
-		fmt.Fprintf(file, "X1 [label=<X<sub>1</sub>>,shape=circle];\n")
+		fmt.Fprintf(file, "X0 [label=<X<sub>%d</sub>>,shape=circle];\n", s.Sc()[0])
 		fmt.Fprintf(file, "}")
 		file.Close()
 		return
-- 
2.43.0


From fa669e7761d35e6b1d786d9c2dd1b0f96f86cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:23 +0000
Subject: [PATCH 59/73] fix: a failed download crashed and left an empty or
 partial file, or an error page, that later calls took for the data

---
 io/http.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/io/http.go b/io/http.go
index f316395..055f7a7 100644
--- a/io/http.go
+++ b/io/http.go
@@ -36,22 +36,34 @@ func DownloadFromURL(u, p string, override bool) error {
 		fmt.Println(e)
 		return e
 	}
-	out, e := os.Create(f)
-	defer out.Close()
+	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
+	d, e := http.Get(u)
 	if e != nil {
-		fmt.Println("Error when trying to create file [%s].\n", f)
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
 		return e
 	}
-	sys.Printf("Downloading from [%s] to {./%s}.\n", u, f)
-	d, e := http.Get(u)
 	defer d.Body.Close()
+	if d.StatusCode != http.StatusOK {
+		fmt.Printf("Error while downloading [%s].\nStopping download.\n", u)
+		return fmt.Errorf("could not download [%s]: %s", u, d.Status)
+	}
+	// Only a complete download may take the place of f.
+	part := f + ".part"
+	out, e := os.Create(part)
 	if e != nil {
-		fmt.Println("Error while downloading [%s].\nStopping download.", u)
+		fmt.Printf("Error when trying to create file [%s].\n", part)
 		return e
 	}
 	_, e = io.Copy(out, d.Body)
+	if ce := out.Close(); e == nil {
+		e = ce
+	}
+	if e == nil {
+		e = os.Rename(part, f)
+	}
 	if e != nil {
 		fmt.Println("Error while copying download to local directory.")
+		os.Remove(part)
 		return e
 	}
 	sys.Printf("Download finished.")
-- 
2.43.0


From f9a3959e3025e291a82ee66cdb55ab0be6843352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:23 +0000
Subject: [PATCH 60/73] fix: MNIST datasets ignored a failed download of the
 training set

---
 data/datasets.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/datasets.go b/data/datasets.go
index f7029f5..d5e35b8 100644
--- a/data/datasets.go
+++ b/data/datasets.go
@@ -189,6 +189,9 @@ func pullMNIST(n, b int) (map[int]*learn.Variable, []map[int]int, []map[int]int)
 		return nil, nil, nil
 	}
 	e = io.DownloadFromURL(ur, pr, false)
+	if e != nil {
+		return nil, nil, nil
+	}
 	v, dt := io.ParseData(pt)
 	_, dr := io.ParseData(pr)
 	return v, dt, dr
-- 
2.43.0


From 1e6b11d59d827a42e3f954589c8fcd26e629fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:34 +0000
Subject: [PATCH 61/73] fix: ImgTestParallel named completions after whichever
 instance was started last (and raced on it)

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 5de9eef..963a4d1 100644
--- a/app/image.go
+++ b/app/image.go
@@ -320,7 +320,7 @@ func ImgTestParallel(filename string, m, g, r int, eta, eps float64, concurrents
 			S := dennis.LearnGD(train, lsc, 1, m, g, 0.95, P, id)
 			for _, q := range io.Quadrants {
 				cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
+				io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, id), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 			}
 			sys.Printf("Ending job %d\n", id)
 
-- 
2.43.0


From 752230ac1ade1b20c71df5c82a12bfd7af81e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:49 +0000
Subject: [PATCH 62/73] fix: ImgTest separated the halves of every completion
 as if it were a left one

---
 app/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/image.go b/app/image.go
index 963a4d1..3289119 100644
--- a/app/image.go
+++ b/app/image.go
@@ -255,7 +255,7 @@ func ImgTest(filename string, m, g, r int, eta, eps float64) {
 		//spn.NormalizeSPN(S)
 		for _, q := range io.Quadrants {
 			cmpl, half := halfImg(S, I, q, sys.Width, sys.Height)
-			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, io.Left, sys.Width, sys.Height, sys.Max)
+			io.ImgCmplToPGM(fmt.Sprintf("cmpl_%s_%d.pgm", q, i), half, cmpl, q, sys.Width, sys.Height, sys.Max)
 		}
 	}
 }
-- 
2.43.0


From 1a9878d5dad30b64ad46a142884ef8ed0808e89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:55 +0000
Subject: [PATCH 63/73] fix: SetLogFile never redirected the output to the file

---
 sys/print.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sys/print.go b/sys/print.go
index b5acc08..268140e 100644
--- a/sys/print.go
+++ b/sys/print.go
@@ -17,7 +17,11 @@ func SetLogFile(filename string) (*os.File, error) {
 		return nil, nil
 	}
 	f, err := os.Create(filename)
-	return f, err
+	if err != nil {
+		return nil, err
+	}
+	fout = f
+	return f, nil
 }
 
 // LogFile returns the log file. The default log file is os.Stdout, which is the standard output
-- 
2.43.0


From 084e38191dde033024b6a567d7d618d147e1a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:55 +0000
Subject: [PATCH 64/73] fix: RefreshRandom and Seed read the generator and its
 seed outside the lock

---
 sys/rand.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sys/rand.go b/sys/rand.go
index c63d83e..abf3019 100644
--- a/sys/rand.go
+++ b/sys/rand.go
@@ -19,9 +19,9 @@ func init() {
 // RandSeed sets the pseudo-random generator's seed and resets the
 func RefreshRandom(s int64) *rand.Rand {
 	mu.Lock()
+	defer mu.Unlock()
 	seed = s
 	Random = rand.New(rand.NewSource(seed))
-	mu.Unlock()
 	return Random
 }
 
@@ -47,7 +47,11 @@ func RandNormFloat64() float64 {
 }
 
 // Seed returns the pseudo-random seed.
-func Seed() int64 { return seed }
+func Seed() int64 {
+	mu.Lock()
+	defer mu.Unlock()
+	return seed
+}
 
 func RandomComb(u int, v int, m int) [][2]int {
 	n := u * v
-- 
2.43.0


From e83eeb4a3339fa750887a3f0dcb69b56f6f84c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:55 +0000
Subject: [PATCH 65/73] fix: hues from 300 to 360 degrees came out black

---
 common/color.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/common/color.go b/common/color.go
index 8a233c8..7c7b5b9 100644
--- a/common/color.go
+++ b/common/color.go
@@ -151,7 +151,6 @@ func hsv2rgb(in hsv) rgb {
 		out.r = t
 		out.g = p
 		out.b = in.v
-	case 5:
 	default:
 		out.r = in.v
 		out.g = p
-- 
2.43.0


From 8b9812fed8164508437650ebf636cd288168103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:10 +0000
Subject: [PATCH 66/73] fix: LogSumPair overflowed when the second probability
 dwarfed the first

---
 utils/log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/log.go b/utils/log.go
index de9211e..c91776e 100644
--- a/utils/log.go
+++ b/utils/log.go
@@ -89,6 +89,10 @@ func AntiLog(l float64) float64 {
 // LogSumPair is the result of the operation:
 // 	ln(p1+p2)=ln(p1)+ln(1+p2/p1)
 func LogSumPair(p1, p2 float64) float64 {
+	if p1 < p2 {
+		// Divide by the greater one, as the quotient could overflow otherwise.
+		p1, p2 = p2, p1
+	}
 	if p1 == 0 {
 		return Log(p2)
 	}
-- 
2.43.0


From 3aac6f62532cf617d36444404453915044a601dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 67/73] fix: NpyReader made rows up when the file ended early

---
 io/npy.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/io/npy.go b/io/npy.go
index 9a96e91..82c3929 100644
--- a/io/npy.go
+++ b/io/npy.go
@@ -70,6 +70,18 @@ func NewNpyReader(fname string) (*NpyReader, error) {
 	if t < 0 {
 		return nil, ErrNonIntegerType
 	}
+	// The npyio reader takes the end of the file for data.
+	fi, err := f.Stat()
+	if err != nil {
+		return nil, err
+	}
+	p, err := f.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return nil, err
+	}
+	if fi.Size()-p < int64(s[0])*int64(s[1])<<uint(t%4) {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return &NpyReader{f, r, t, [2]int{s[0], s[1]}, 0}, nil
 }
 
-- 
2.43.0


From 8d36627242e2aa06084318b0c4e8aa0a9d4c4ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 68/73] fix: converting folders without images destroyed the
 existing data file

---
 io/pbm.go | 18 ++++++++++++++++++
 io/pgm.go | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/io/pbm.go b/io/pbm.go
index 0ddcc3f..611d5cb 100644
--- a/io/pbm.go
+++ b/io/pbm.go
@@ -96,6 +96,12 @@ func PBMFToData(dirname, dname string) {
 		}
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if len(instreams) == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	// Create compiled folder.
 	cmpname, err := filepath.Abs(dirname)
 
@@ -191,6 +197,12 @@ func PBMToData(dirname, dname string, class int) {
 		instream[i] = newScanner(in[i])
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if nin == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	out, err := os.Create(dname)
 
 	if err != nil {
@@ -320,6 +332,12 @@ func PBMFToEvidence(dirname, dname string) {
 		slabels = append(slabels, len(instreams)-nsf)
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if len(instreams) == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	// Create compiled folder.
 	cmpname, err := filepath.Abs(dirname)
 
diff --git a/io/pgm.go b/io/pgm.go
index 042f152..f65c050 100644
--- a/io/pgm.go
+++ b/io/pgm.go
@@ -100,6 +100,12 @@ func PGMFToData(dirname, dname string) (int, int, int) {
 		}
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if len(instreams) == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	// Create compiled folder.
 	cmpname, err := filepath.Abs(dirname)
 
@@ -242,6 +248,12 @@ func BufferedPGMFToData(dirname, dname string) (int, int, int) {
 		sdir.Close()
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if len(files) == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	// Create compiled folder.
 	cmpname, err := filepath.Abs(dirname)
 
@@ -452,6 +464,12 @@ func PGMFToEvidence(dirname, dname string) (int, int, int) {
 		slabels = append(slabels, len(instreams)-nsf)
 	}
 
+	// Do not touch the output file if there is nothing to write to it.
+	if len(instreams) == 0 {
+		fmt.Printf("Error. No images under [%s].\n", dirname)
+		panic(os.ErrNotExist)
+	}
+
 	// Create compiled folder.
 	cmpname, err := filepath.Abs(dirname)
 
-- 
2.43.0


From c3fafb12e8a0ba12d190b8f2bd0e14f2a73ce123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:03 +0000
Subject: [PATCH 69/73] fix: the program accepted a partition ratio above one

---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 5644489..4397873 100644
--- a/main.go
+++ b/main.go
@@ -61,7 +61,7 @@ func main() {
 
 	flag.Parse()
 
-	if p == 0 || p < 0 || p == 1 {
+	if p <= 0 || p >= 1 {
 		fmt.Println("Argument p must be a float64 in range (0, 1).")
 		return
 	}
-- 
2.43.0


From 17ee94f97a7165f399a643bad04df0aeb8d9f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:19 +0000
Subject: [PATCH 70/73] fix: the Dennis-Ventura learner crashed on an empty
 cluster of instances

---
 learn/dennis/dennis.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/learn/dennis/dennis.go b/learn/dennis/dennis.go
index 1472c32..ab0cf01 100644
--- a/learn/dennis/dennis.go
+++ b/learn/dennis/dennis.go
@@ -58,6 +58,10 @@ func buildRegionGraph(D spn.Dataset, sc map[int]*learn.Variable, k int, t float6
 	if k > 1 {
 		C := cluster.KMeansDataI(k, D)
 		for i := 0; i < k; i++ {
+			// K-means may leave clusters empty, e.g. with fewer than k distinct instances.
+			if len(C[i]) == 0 {
+				continue
+			}
 			//sys.Printf("Expanding region graph on cluster %d...\n", i)
 			P := transpose(dataToCluster(C[i]))
 			expandRegionGraph(G, n, P, t)
-- 
2.43.0


From 582ddee1d1a4dda57a8805b8a93c5328c64923e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:39 +0000
Subject: [PATCH 71/73] fix: discriminative learning gave instances query
 variables they did not have

---
 learn/discriminative.go | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/learn/discriminative.go b/learn/discriminative.go
index 3712744..4a359b4 100644
--- a/learn/discriminative.go
+++ b/learn/discriminative.go
@@ -30,17 +30,22 @@ func Discriminative(S spn.SPN, D spn.Dataset, Y []*Variable) spn.SPN {
 	return DiscriminativeGD(S, P.Eta, P.Epsilon, D, Y, P.Normalize)
 }
 
-func pullValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
+// pullValues moves the values that I holds for the variables in Y to y.
+func pullValues(I spn.VarSet, Y []*Variable, y spn.VarSet) {
+	for _, v := range Y {
 		u := v.Varid
-		y[i] = I[u]
-		delete(I, u)
+		if x, e := I[u]; e {
+			y[u] = x
+			delete(I, u)
+		}
 	}
 }
 
-func pushValues(I spn.VarSet, Y []*Variable, y []int) {
-	for i, v := range Y {
-		I[v.Varid] = y[i]
+// pushValues moves all values in y back to I.
+func pushValues(I spn.VarSet, y spn.VarSet) {
+	for u, x := range y {
+		I[u] = x
+		delete(y, u)
 	}
 }
 
@@ -53,7 +58,7 @@ func DiscriminativeGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable,
 	s, d, w := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
+	y := make(spn.VarSet)
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			spn.StoreInference(S, I, s, st)
@@ -63,7 +68,7 @@ func DiscriminativeGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable,
 			spn.StoreInference(S, I, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			applyDGD(S, s, d, w, z, p, u, st, eta, norm, Q, 1)
 			st.ResetTickets(s, d, w, z, p, u)
 		}
@@ -78,13 +83,13 @@ func DiscriminativeHardGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Varia
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
+	y := make(spn.VarSet)
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
 			DeriveHard(S, st, d, I)
 			pullValues(I, Y, y)
 			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			applyHDGD(S, d, p, st, eta, P.Lambda, norm, 1)
 			st.ResetTickets(d, p)
 		}
@@ -103,7 +108,7 @@ func DiscriminativeBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable
 	z, p, u := st.NewTicket(), st.NewTicket(), st.NewTicket()
 	l := st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
+	y := make(spn.VarSet)
 	var j int
 	for i := 0; i < P.Iterations; i++ {
 		for _, I := range D {
@@ -114,7 +119,7 @@ func DiscriminativeBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Variable
 			spn.StoreInference(S, I, z, st)
 			DeriveSPN(S, st, p, z, Q)
 			DeriveWeights(S, st, u, p, z, Q)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			storeDGD(S, s, d, w, z, p, u, l, st, eta, norm, Q)
 			st.ResetTickets(s, d, w, z, p, u)
 			j++
@@ -139,7 +144,7 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 	st := spn.NewStorer()
 	d, p := st.NewTicket(), st.NewTicket()
 	P := S.Parameters()
-	y := make([]int, len(Y))
+	y := make(spn.VarSet)
 	var j int
 
 	u := st.NewTicket()
@@ -158,7 +163,7 @@ func DiscriminativeHardBGD(S spn.SPN, eta, eps float64, D spn.Dataset, Y []*Vari
 			DeriveHard(S, st, d, I)
 			pullValues(I, Y, y)
 			DeriveHard(S, st, p, I)
-			pushValues(I, Y, y)
+			pushValues(I, y)
 			j++
 			if j%b == 0 {
 				sys.Println("Applying gradient.")
-- 
2.43.0


From 865142bda82f655027e5fb422f3c2d52c6fdc610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 72/73] fix: downloading into a directory with a dot in its
 name did nothing

---
 io/http.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/io/http.go b/io/http.go
index 055f7a7..4fe26cd 100644
--- a/io/http.go
+++ b/io/http.go
@@ -19,7 +19,12 @@ func DownloadFromURL(u, p string, override bool) error {
 	var f string
 	var isDir bool
 	p = filepath.Clean(GetPath(p))
-	if isDir = (filepath.Ext(p) == ""); isDir {
+	isDir = filepath.Ext(p) == ""
+	// Names of directories may have a dot as well.
+	if d, e := os.Stat(p); e == nil && d.IsDir() {
+		isDir = true
+	}
+	if isDir {
 		t := strings.Split(u, "/")
 		f = p + "/" + t[len(t)-1]
 	} else {
-- 
2.43.0


From 49cde02d52da9c6eaf7692956478073b23d72ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:38 +0000
Subject: [PATCH 73/73] fix: downloading a file overwrote and removed one with
 its name and .part

---
 io/http.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/io/http.go b/io/http.go
index 4fe26cd..d5c569d 100644
--- a/io/http.go
+++ b/io/http.go
@@ -54,7 +54,11 @@ func DownloadFromURL(u, p string, override bool) error {
 	}
 	// Only a complete download may take the place of f.
 	part := f + ".part"
-	out, e := os.Create(part)
+	out, e := os.OpenFile(part, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+	for os.IsExist(e) {
+		part += "_"
+		out, e = os.OpenFile(part, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
+	}
 	if e != nil {
 		fmt.Printf("Error when trying to create file [%s].\n", part)
 		return e
-- 
2.43.0

