From 94927593dfb7ba0ee36c0ff2e72909effc04f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 01/13] fix: IterProduct rows no longer share backing storage

---
 featselect/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/featselect/util.go b/featselect/util.go
index b6bf3b4..2f70fff 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -49,7 +49,9 @@ func IterProduct(values []int, repeat int) [][]int {
 		updatedRes := make([][]int, 0)
 		for j := 0; j < nItems; j++ {
 			for i := 0; i < len(values); i++ {
-				newRow := append(res[j], values[i])
+				newRow := make([]int, r, r+1)
+				copy(newRow, res[j])
+				newRow = append(newRow, values[i])
 				updatedRes = append(updatedRes, newRow)
 			}
 		}
-- 
2.43.0


From 4774b54f7a04ecb9991b9ddf1215b8c3d24b2bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 02/13] fix: SAScore.Insert stores the coefficients of the item
 that replaces the worst one

---
 featselect/saScore.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/featselect/saScore.go b/featselect/saScore.go
index f5a345a..7ca7602 100644
--- a/featselect/saScore.go
+++ b/featselect/saScore.go
@@ -65,6 +65,7 @@ func (s *SAScore) Insert(item *SAItem) {
 	} else {
 		if item.Score > s.WorstItem.Score {
 			s.WorstItem.Selection = item.Selection
+			s.WorstItem.Coeff = item.Coeff
 			s.WorstItem.Score = item.Score
 
 			if item.Score > s.BestItem.Score {
-- 
2.43.0


From a9129ecdaed6c8fee1c3cbfdc2aae04644297b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 03/13] fix: CohenKappa is 1 when both selections contain every
 feature

---
 featselect/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/featselect/util.go b/featselect/util.go
index 2f70fff..39b1dfb 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -466,5 +466,9 @@ func CohenKappa(s1 []int, s2 []int, totNum int) float64 {
 
 	PrA := float64(n11+n22) / float64(totNum)
 	PrE := float64((n11+n12)*(n11+n21))/float64(totNum*totNum) + float64((n12+n22)*(n21+n22))/float64(totNum*totNum)
+	if PrE == 1.0 {
+		// Both selections contain every feature
+		return 1.0
+	}
 	return (PrA - PrE) / (1. - PrE)
 }
-- 
2.43.0


From 3c9c48877906c8918b891c7bca67dbe6ecbc17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 04/13] fix: SelectModel considers the root model when it
 contains features

---
 featselect/optimize.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index 14ce9d2..e668d19 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -111,6 +111,14 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 		go CreateChildNodes(wantChildNode, pruneCh, node, childReady, X, y, params.Cutoff, highscore)
 	}
 
+	if NumFeatures(rootNode.Model) > 0 {
+		// The root model itself is also a candidate
+		node <- rootNode
+		highscore.Insert(<-score)
+		numChecked++
+		currentBestScore = highscore.BestScore()
+	}
+
 	wantChildNode <- rootNode
 	numInProgress := 2
 
-- 
2.43.0


From 6d91f7901c12c7c2dba9a101728bfe06916dfaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 05/13] fix: CreateChild adds the cutoff to the lower bound

---
 featselect/optimize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/optimize.go b/featselect/optimize.go
index e668d19..f61c057 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -257,7 +257,7 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
-	if child.Lower > -h.BestScore() && h.Len() > 0 {
+	if child.Lower+cutoff > -h.BestScore() && h.Len() > 0 {
 		return nil
 	}
 	return child
-- 
2.43.0


From ddd8ef141ed102705e9283a2b0633b6808cbabc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 06/13] fix: Highscore.Insert does not dereference the last
 item of an empty list

---
 featselect/highscore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 7fbfed2..51110a4 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -21,7 +21,7 @@ func NewHighscore(maxItems int) *Highscore {
 
 // Insert insters a new node into the highscore list
 func (h *Highscore) Insert(node *Node) {
-	if h.Len() == h.MaxItems-1 {
+	if h.Len() > 0 && h.Len() == h.MaxItems-1 {
 		last := h.Items.Back()
 		if last.Value.(*Node).Score > node.Score {
 			return
-- 
2.43.0


From 1fd4f7002ea99be02bf0a5e28bf9fef999d50648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:38 +0000
Subject: [PATCH 07/13] fix: Highscore.UnmarshalJSON restores exactly the
 encoded items

---
 featselect/highscore.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 51110a4..43d1801 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -101,11 +101,15 @@ func (h *Highscore) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
-	h.MaxItems = aux.MaxItems
+	h.Items = list.New()
 
+	// All decoded items should be kept, so make sure that none of them are
+	// pushed out of the list when they are inserted
+	h.MaxItems = len(aux.Items) + 2
 	for _, n := range aux.Items {
 		h.Insert(n)
 	}
+	h.MaxItems = aux.MaxItems
 	return nil
 }
 
-- 
2.43.0


From c27a852f47e0b75520f3945ea983b806b805d535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 08/13] fix: LassoCrdDesc starts from x0 instead of overwriting
 it

---
 featselect/lassoCrdDesc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 0cc2e5f..1f77f97 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -32,7 +32,8 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	}
 
 	betaOld := make([]float64, nFeat)
-	copy(x0, betaOld)
+	copy(betaOld, x0)
+	betaOld[0] = 0.0 // The bias coefficient is never updated
 	beta := make([]float64, nFeat)
 	covDotBeta := MulSlice(covMat, betaOld)
 	converged := false
-- 
2.43.0


From 745f2c58693202603c6e847cdc7a74bcaed2416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 09/13] fix: lasso coordinate descent re-activates features
 that violate the KKT conditions

---
 featselect/lassoCrdDesc.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/featselect/lassoCrdDesc.go b/featselect/lassoCrdDesc.go
index 1f77f97..ce480fd 100644
--- a/featselect/lassoCrdDesc.go
+++ b/featselect/lassoCrdDesc.go
@@ -25,6 +25,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 	yVec := mat.NewVecDense(len(dset.y), dset.y)
 	XTy := mat.NewVecDense(nFeat, nil)
 	XTy.MulVec(dset.X.T(), yVec)
+	XTy.ScaleVec(1.0/float64(nr), XTy)
 
 	iterIndices := make([]int, nFeat-1)
 	for i := 1; i < nFeat; i++ {
@@ -42,7 +43,7 @@ func LassoCrdDesc(dset *NormalizedData, lamb float64, cov CovMat, x0 []float64,
 			covDiag := covMat.At(j, j)
 			oldCoeff := betaOld[j]
 			covDotBetaNoDiag := covDotBeta[j] - betaOld[j]*covDiag
-			newCoeff := XTy.AtVec(j)/float64(nr) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
+			newCoeff := XTy.AtVec(j) - covDotBetaNoDiag - corr.Deriv(betaOld, j)
 			newCoeff = SoftThreshold(newCoeff, lamb) / covDiag
 
 			UpdateCovDotBeta(covMat, covDotBeta, j, oldCoeff, newCoeff)
@@ -102,13 +103,13 @@ func SoftThreshold(x float64, threshold float64) float64 {
 	return 0.0
 }
 
-// UnsatisfiedKKTConditions returns the indices where KKT conditions are not met
+// UnsatisfiedKKTConditions returns the indices of the zero coefficients where the KKT conditions
+// are not met. Xy is X^T y divided by the number of data points
 func UnsatisfiedKKTConditions(Xy mat.Vector, covDotBeta []float64, coeff []float64, lamb float64, correction LassoCorrection) []int {
 	unsatisfied := []int{}
-	nr := Xy.Len()
 	for i := 1; i < len(covDotBeta); i++ {
-		value := math.Abs(Xy.AtVec(i) - covDotBeta[i]*float64(nr) - correction.Deriv(coeff, i))
-		if value < lamb && math.Abs(coeff[i]) > lassoCrdDescZero {
+		value := math.Abs(Xy.AtVec(i) - covDotBeta[i] - correction.Deriv(coeff, i))
+		if value-lamb > lassoCrdDescZero && math.Abs(coeff[i]) <= lassoCrdDescZero {
 			unsatisfied = append(unsatisfied, i)
 		}
 	}
-- 
2.43.0


From 4bd7cc145079265b32a000aba32cb946904d9ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:51 +0000
Subject: [PATCH 10/13] fix: WeightsFromAIC leaves the passed criteria
 unchanged

---
 featselect/util.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/featselect/util.go b/featselect/util.go
index 39b1dfb..69633cf 100644
--- a/featselect/util.go
+++ b/featselect/util.go
@@ -278,17 +278,13 @@ func WeightsFromAIC(aic []float64) []float64 {
 	w := make([]float64, len(aic))
 	min := MinFloat(aic)
 
-	for i := range aic {
-		aic[i] -= min
-	}
-
 	sumW := 0.0
 	for i := range aic {
-		sumW += math.Exp(-aic[i])
+		sumW += math.Exp(-(aic[i] - min))
 	}
 
 	for i := range aic {
-		w[i] = math.Exp(-aic[i]) / sumW
+		w[i] = math.Exp(-(aic[i] - min)) / sumW
 	}
 	return w
 }
-- 
2.43.0


From 8b00ea4049df2908425dd71317916cf541dc2a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 11/13] fix: Dataset.IsEqual compares the names

---
 featselect/csvIO.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/featselect/csvIO.go b/featselect/csvIO.go
index 045718b..13472ba 100644
--- a/featselect/csvIO.go
+++ b/featselect/csvIO.go
@@ -79,6 +79,12 @@ func (d *Dataset) IsEqual(o *Dataset) bool {
 		return false
 	}
 
+	for i := range d.Names {
+		if d.Names[i] != o.Names[i] {
+			return false
+		}
+	}
+
 	tol := 1e-10
 	if !floats.EqualApprox(d.Y, o.Y, tol) {
 		return false
-- 
2.43.0


From e1a86046b1d87a2194e428706d5040f838978786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 12/13] fix: NestedLasso does not normalise the data of the
 caller

---
 featselect/nestedLasso.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/featselect/nestedLasso.go b/featselect/nestedLasso.go
index 9796d10..ce324be 100644
--- a/featselect/nestedLasso.go
+++ b/featselect/nestedLasso.go
@@ -66,7 +66,8 @@ func NestedLasso(data *Dataset, lambMin float64, keep float64, estimator CDParam
 	}
 
 	// Undo the normalisation of all paths before returning
-	normD = NewNormalizedData(data.X, data.Y)
+	orig := data.Copy()
+	normD = NewNormalizedData(orig.X, orig.Y)
 	for _, v := range res.Paths {
 		Path2Unnormalized(normD, v.Nodes)
 	}
-- 
2.43.0


From ff28f7ce7708d5f6bcedd8e23af667952d0147d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:49 +0000
Subject: [PATCH 13/13] fix: read the highscore list under a lock while the
 search changes it

CreateChild is run by worker goroutines and read the best score and the
length of the highscore list while SelectModel inserted nodes. The best score
of the empty list (0.0) could be combined with the length after the first
insertion, so subtrees were pruned against a score that was never there.
---
 featselect/highscore.go |  2 ++
 featselect/optimize.go  | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/featselect/highscore.go b/featselect/highscore.go
index 43d1801..1ebe4f3 100644
--- a/featselect/highscore.go
+++ b/featselect/highscore.go
@@ -3,12 +3,14 @@ package featselect
 import (
 	"container/list"
 	"encoding/json"
+	"sync"
 )
 
 // Highscore is a structure that holds a list of Nodes sorted by their score
 type Highscore struct {
 	Items    *list.List
 	MaxItems int
+	rwlock   sync.RWMutex
 }
 
 // NewHighscore creates a new highscore list with maxItems entries
diff --git a/featselect/optimize.go b/featselect/optimize.go
index f61c057..e95a8ea 100644
--- a/featselect/optimize.go
+++ b/featselect/optimize.go
@@ -114,7 +114,10 @@ func SelectModel(X mat.Matrix, y []float64, highscore *Highscore, sp *SearchProg
 	if NumFeatures(rootNode.Model) > 0 {
 		// The root model itself is also a candidate
 		node <- rootNode
-		highscore.Insert(<-score)
+		ns := <-score
+		highscore.rwlock.Lock()
+		highscore.Insert(ns)
+		highscore.rwlock.Unlock()
 		numChecked++
 		currentBestScore = highscore.BestScore()
 	}
@@ -130,7 +133,9 @@ exploreLoop:
 			sp.Set(highscore.BestScore(), numChecked, log2Pruned)
 
 			if isNewNode(ns) {
+				highscore.rwlock.Lock()
 				highscore.Insert(ns)
+				highscore.rwlock.Unlock()
 				numChecked++
 
 				if highscore.BestScore() > currentBestScore {
@@ -257,6 +262,10 @@ func CreateChild(node *Node, flip bool, X mat.Matrix, y []float64, cutoff float6
 		return nil
 	}
 
+	// The best score and the length has to be from the same state of the list, also
+	// when new nodes are inserted by another goroutine
+	h.rwlock.RLock()
+	defer h.rwlock.RUnlock()
 	if child.Lower+cutoff > -h.BestScore() && h.Len() > 0 {
 		return nil
 	}
-- 
2.43.0

