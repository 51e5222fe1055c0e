From a732fa90fc41f8e53c6db4d47d0affcf9642f286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 01/54] fix: carry the HasMissing flag when a feature is copied

DenseNumFeature.Copy always cleared it and neither CopyInTo copied it, so a
copy of a feature with missing values claimed to have none.
---
 densecatfeature.go | 1 +
 densenumfeature.go | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index bdd806b..35860e2 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1216,6 +1216,7 @@ func (f *DenseCatFeature) CopyInTo(copyf Feature) {
 
 	copy(copyf.(*DenseCatFeature).Missing, f.Missing)
 	copy(copyf.(*DenseCatFeature).CatData, f.CatData)
+	copyf.(*DenseCatFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
diff --git a/densenumfeature.go b/densenumfeature.go
index 7294078..5c835e5 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -644,7 +644,7 @@ func (f *DenseNumFeature) Copy() Feature {
 		nil,
 		make([]bool, capacity),
 		f.Name,
-		false}
+		f.HasMissing}
 
 	copy(fake.Missing, f.Missing)
 
@@ -658,6 +658,7 @@ func (f *DenseNumFeature) Copy() Feature {
 func (f *DenseNumFeature) CopyInTo(copyf Feature) {
 	copy(copyf.(*DenseNumFeature).Missing, f.Missing)
 	copy(copyf.(*DenseNumFeature).NumData, f.NumData)
+	copyf.(*DenseNumFeature).HasMissing = f.HasMissing
 }
 
 //ImputeMissing imputes the missing values in a feature to the mean or mode of the feature.
-- 
2.43.0


From 8042ee6f68d4d3ade7d6bc4f76338db9fe92d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 02/54] fix: DenseCatFeature.PutStr keeps a missing marker
 missing

The branch that recognised a marker fell through, so the marker was added as
a category and the case was marked as present again.
---
 densecatfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 35860e2..c50e09c 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -147,6 +147,7 @@ func (f *DenseCatFeature) PutStr(i int, v string) {
 	if len(norm) == 0 || norm == "?" || norm == "nan" || norm == "na" || norm == "null" {
 		f.Missing[i] = true
 		f.HasMissing = true
+		return
 	}
 	vi := f.CatToNum(v)
 	f.CatData[i] = vi
-- 
2.43.0


From 74be1d649507f2de656aa867660bd9ee700f50fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 03/54] fix: numerical features treat nan as a missing value

ParseFloat accepts nan, so the marker was stored as a present NaN value.
---
 densenumfeature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 5c835e5..c5426f2 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -21,7 +21,7 @@ type DenseNumFeature struct {
 //during data parseing.
 func (f *DenseNumFeature) Append(v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.NumData = append(f.NumData, 0.0)
 		f.Missing = append(f.Missing, true)
 		f.HasMissing = true
@@ -39,7 +39,7 @@ func (f *DenseNumFeature) Less(i int, j int) bool {
 //PutStr parses a string and puts it in the i'th position
 func (f *DenseNumFeature) PutStr(i int, v string) {
 	fv, err := strconv.ParseFloat(v, 64)
-	if err != nil {
+	if err != nil || math.IsNaN(fv) {
 		f.Missing[i] = true
 		f.HasMissing = true
 		return
-- 
2.43.0


From 37f8c87607cf44c8fa1a759bfe0b7b9bb4794ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:20 +0000
Subject: [PATCH 04/54] fix: DenseCatFeature.Copy gives the copy its own
 category map

The copy shared Map and the array behind Back with the original, so a category
added to one of them changed the codes of the other.
---
 densecatfeature.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index c50e09c..7b8e773 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -1195,8 +1195,8 @@ func (f *DenseCatFeature) ShuffledCopy() Feature {
 func (f *DenseCatFeature) Copy() Feature {
 	capacity := len(f.Missing)
 	fake := &DenseCatFeature{
-		&CatMap{f.Map,
-			f.Back},
+		&CatMap{make(map[string]int, len(f.Map)),
+			make([]string, len(f.Back))},
 		nil,
 		make([]bool, capacity),
 		f.Name,
@@ -1205,6 +1205,11 @@ func (f *DenseCatFeature) Copy() Feature {
 
 	copy(fake.Missing, f.Missing)
 
+	copy(fake.Back, f.Back)
+	for k, v := range f.Map {
+		fake.Map[k] = v
+	}
+
 	fake.CatData = make([]int, capacity)
 	copy(fake.CatData, f.CatData)
 
-- 
2.43.0


From 1ca87ca2dac2f7a46a92c5fe024dcd99e1cd7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 05/54] fix: encoded features get their own missing flags

EncodeToNum and OneHot handed the original feature's Missing slice to every
encoded feature, so imputing one of them cleared the others' missing values.
---
 densecatfeature.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/densecatfeature.go b/densecatfeature.go
index 7b8e773..1330e80 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -30,7 +30,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 	if f.NCats() <= 2 {
 		fn := &DenseNumFeature{
 			make([]float64, l, l),
-			f.Missing,
+			append([]bool(nil), f.Missing...),
 			f.Name,
 			f.HasMissing}
 		for i, v := range f.CatData {
@@ -42,7 +42,7 @@ func (f *DenseCatFeature) EncodeToNum() (fs []Feature) {
 		for j, sv := range f.Back {
 			fn := &DenseNumFeature{
 				make([]float64, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.HasMissing}
 			for i, v := range f.CatData {
@@ -65,7 +65,7 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 				&CatMap{map[string]int{"false": 0, "true": 1},
 					[]string{"false", "true"}},
 				make([]int, l, l),
-				f.Missing,
+				append([]bool(nil), f.Missing...),
 				f.Name + "==" + sv,
 				f.RandomSearch,
 				f.HasMissing}
-- 
2.43.0


From 9db894eff9fca488eec69a009dc4ff71f16dce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 06/54] fix: OneHot keeps features that have at most two
 categories

OneHot returned nothing for them, so FeatureMatrix.OneHot dropped every binary
feature, the target included.
---
 densecatfeature.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/densecatfeature.go b/densecatfeature.go
index 1330e80..df7833f 100644
--- a/densecatfeature.go
+++ b/densecatfeature.go
@@ -77,6 +77,8 @@ func (f *DenseCatFeature) OneHot() (fs []Feature) {
 			}
 			fs = append(fs, fn)
 		}
+	} else {
+		fs = []Feature{f.Copy()}
 	}
 	return
 }
-- 
2.43.0


From afebab967d1c0fededb669ed8929e17b77247d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:33 +0000
Subject: [PATCH 07/54] fix: nfold -onehot uses the encoded feature matrix

OneHot returns a new matrix; the result was thrown away.
---
 utils/nfold/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index e775ed6..db1f28c 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -147,7 +147,7 @@ func main() {
 
 	if onehot {
 		fmt.Println("OneHot encoding.")
-		data.OneHot()
+		data = data.OneHot()
 	}
 
 	if num {
-- 
2.43.0


From 617fde9d726776896d843e8767befc51b63bdc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 08/54] fix: index encoded features by their position in Data

EncodeToNum and OneHot used len(out.Map), which stops following the position
as soon as two features share a name.
---
 featurematrix.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index 282b651..bd2362d 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -68,12 +68,12 @@ func (fm *FeatureMatrix) EncodeToNum() *FeatureMatrix {
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
-			out.Map[f.GetName()] = len(out.Map)
+			out.Map[f.GetName()] = len(out.Data)
 			out.Data = append(out.Data, f)
 		case CatFeature:
 			fns := f.(CatFeature).EncodeToNum()
 			for _, fn := range fns {
-				out.Map[fn.GetName()] = len(out.Map)
+				out.Map[fn.GetName()] = len(out.Data)
 				out.Data = append(out.Data, fn)
 			}
 		}
@@ -89,12 +89,12 @@ func (fm *FeatureMatrix) OneHot() *FeatureMatrix {
 	for _, f := range fm.Data {
 		switch f.(type) {
 		case NumFeature:
-			out.Map[f.GetName()] = len(out.Map)
+			out.Map[f.GetName()] = len(out.Data)
 			out.Data = append(out.Data, f)
 		case CatFeature:
 			fns := f.(CatFeature).OneHot()
 			for _, fn := range fns {
-				out.Map[fn.GetName()] = len(out.Map)
+				out.Map[fn.GetName()] = len(out.Data)
 				out.Data = append(out.Data, fn)
 			}
 		}
-- 
2.43.0


From c9438ff3aa65ac31ee20229f375876c2c20ba6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 09/54] fix: StripStrings maps each category label to its own
 code

Every label of a feature was mapped to the index of the feature.
---
 featurematrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/featurematrix.go b/featurematrix.go
index bd2362d..c173e43 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -51,7 +51,7 @@ func (fm *FeatureMatrix) StripStrings(target string) {
 			for j, v := range f.(*DenseCatFeature).Back {
 				v = fmt.Sprintf("%v", j)
 				f.(*DenseCatFeature).Back[j] = v
-				f.(*DenseCatFeature).Map[v] = i
+				f.(*DenseCatFeature).Map[v] = j
 
 			}
 
-- 
2.43.0


From c371b5d5e2727845e4e641f7ef5f59e6cf0d7f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:41 +0000
Subject: [PATCH 10/54] fix: write the missing branch of a node below its M
 path

WriteNodeAndChildren wrote the right branch a second time instead.
---
 forestwriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestwriter.go b/forestwriter.go
index 8009459..59a8ebd 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -68,7 +68,7 @@ func (fw *ForestWriter) WriteNodeAndChildren(n *Node, path string) {
 		fw.WriteNodeAndChildren(n.Right, path+"R")
 	}
 	if n.Splitter != nil && n.Missing != nil {
-		fw.WriteNodeAndChildren(n.Right, path+"M")
+		fw.WriteNodeAndChildren(n.Missing, path+"M")
 	}
 
 }
-- 
2.43.0


From 0eade1fd73bea91a9b62eab647b307785227f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 11/54] fix: a leaf of a regrown tree keeps no children

growforest grows a tree again in place when it isn't kept. A node that was
split before and became a leaf kept its old children, so Partition, GetLeaves
and VoteCases, which look at the children, took it for an inner node and its
cases got no vote.
---
 tree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tree.go b/tree.go
index c01f024..523141b 100644
--- a/tree.go
+++ b/tree.go
@@ -169,6 +169,9 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 		split = nil
 		n.CodedSplit = nil
 		n.Splitter = nil
+		n.Left = nil
+		n.Right = nil
+		n.Missing = nil
 		n.Pred = target.FindPredicted(*innercases)
 		return
 
@@ -262,6 +265,9 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 			split = nil
 			n.CodedSplit = nil
 			n.Splitter = nil
+			n.Left = nil
+			n.Right = nil
+			n.Missing = nil
 			n.Pred = target.FindPredicted(innercases)
 			continue
 
-- 
2.43.0


From 45acd92d072a208f534e9cec4d0d8a9bc1eccb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 12/54] fix: don't keep a missing branch that no training case
 reached

Such a branch was never grown and stayed a leaf without a prediction, and
cases sent there later voted for the empty category.
---
 node.go | 2 ++
 tree.go | 7 +++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/node.go b/node.go
index 3b45e43..63329b9 100644
--- a/node.go
+++ b/node.go
@@ -81,6 +81,8 @@ func (n *Node) CodedRecurse(r CodedRecursable, fm *FeatureMatrix, cases *[]int,
 		if li != ri && n.Missing != nil {
 			cs = (*cases)[li:ri]
 			n.Missing.CodedRecurse(r, fm, &cs, depth, nconstants)
+		} else {
+			n.Missing = nil
 		}
 	}
 }
diff --git a/tree.go b/tree.go
index 523141b..bf1e75f 100644
--- a/tree.go
+++ b/tree.go
@@ -249,11 +249,10 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					n.Right = new(Node)
 					nodes = append(nodes, nodeAndCases{n.Right, start + ri, end, nconstants, n, false})
 
-					if splitmissing {
+					n.Missing = nil
+					if splitmissing && li != ri {
 						n.Missing = new(Node)
-						if li != ri {
-							nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
-						}
+						nodes = append(nodes, nodeAndCases{n.Missing, start + li, start + ri, nconstants, n, false})
 					}
 
 					continue
-- 
2.43.0


From ec1dee4949720a268f83306d0d1db2e49b1910a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 13/54] fix: DenseNumFeature.Mode breaks ties by value

The winner of a tie depended on the iteration order of a map.
---
 densenumfeature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index c5426f2..ee1db6b 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -539,7 +539,7 @@ func (f *DenseNumFeature) Mode(cases *[]int) (m float64) {
 	}
 	max := 0
 	for k, v := range counts {
-		if v > max {
+		if v > max || (v == max && k < m) {
 			m = k
 			max = v
 		}
-- 
2.43.0


From 726943cb6b7cb325f936c3d955c7ac9c9c4bed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 14/54] fix: DenseNumFeature.Span looks at more than the last
 case

first was never cleared, so every case reset the interval and the span was
always 0.
---
 densenumfeature.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/densenumfeature.go b/densenumfeature.go
index ee1db6b..4867391 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -560,6 +560,7 @@ func (f *DenseNumFeature) Span(cases *[]int, counter *[]int) (span float64) {
 			if first {
 				min = val
 				max = val
+				first = false
 				continue
 			}
 			switch {
-- 
2.43.0


From b7f0719f75e700e72b0e3c09e046eac155cd900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 15/54] fix: CatBallotBox guards its shared category map

Vote added categories to a map shared by all cases without a lock although the
box is documented as thread safe and growforest -oob votes from several
goroutines.
---
 catballotbox.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index ad15fa1..304c25c 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -21,15 +21,16 @@ func NewCatBallot() (cb *CatBallot) {
 //CatBallotBox keeps track of votes by trees in a thread safe manner.
 type CatBallotBox struct {
 	*CatMap
-	Box []*CatBallot
+	Box      []*CatBallot
+	catMutex sync.Mutex //protects the shared CatMap
 }
 
 //NewCatBallotBox builds a new ballot box for the number of cases specified by "size".
 func NewCatBallotBox(size int) *CatBallotBox {
 	bb := CatBallotBox{
-		&CatMap{make(map[string]int),
+		CatMap: &CatMap{make(map[string]int),
 			make([]string, 0, 0)},
-		make([]*CatBallot, 0, size)}
+		Box: make([]*CatBallot, 0, size)}
 	for i := 0; i < size; i++ {
 		bb.Box = append(bb.Box, NewCatBallot())
 	}
@@ -39,7 +40,9 @@ func NewCatBallotBox(size int) *CatBallotBox {
 //Vote registers a vote that case "casei" should be predicted to be the
 //category "pred".
 func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
+	bb.catMutex.Lock()
 	predn := bb.CatToNum(pred)
+	bb.catMutex.Unlock()
 	bb.Box[casei].Mutex.Lock()
 	if _, ok := bb.Box[casei].Map[predn]; !ok {
 		bb.Box[casei].Map[predn] = 0
@@ -65,7 +68,9 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
+		bb.catMutex.Lock()
 		predicted = bb.Back[predictedn]
+		bb.catMutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 74e6a09b63753650793b72169d34716f1fdda8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 16/54] fix: CatBallotBox.Tally breaks ties by label

The winner of a tie depended on the iteration order of a map.
---
 catballotbox.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/catballotbox.go b/catballotbox.go
index 304c25c..1c0ba7f 100644
--- a/catballotbox.go
+++ b/catballotbox.go
@@ -57,9 +57,12 @@ func (bb *CatBallotBox) Vote(casei int, pred string, weight float64) {
 func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	predictedn := 0
 	votes := 0.0
+	bb.catMutex.Lock()
+	defer bb.catMutex.Unlock()
 	bb.Box[i].Mutex.Lock()
 	for k, v := range bb.Box[i].Map {
-		if v > votes {
+		//break ties by label, neither map order nor the order of the votes is reproducible
+		if v > votes || (v == votes && votes > 0 && bb.Back[k] < bb.Back[predictedn]) {
 			predictedn = k
 			votes = v
 
@@ -68,9 +71,7 @@ func (bb *CatBallotBox) Tally(i int) (predicted string) {
 	}
 	bb.Box[i].Mutex.Unlock()
 	if votes > 0 {
-		bb.catMutex.Lock()
 		predicted = bb.Back[predictedn]
-		bb.catMutex.Unlock()
 	} else {
 		predicted = "NA"
 	}
-- 
2.43.0


From 0671401b2d22fa6909a810e84fdec292c4f6be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:36 +0000
Subject: [PATCH 17/54] fix: growforest keeps the last trees it tests with
 apart

With -test the second to last tree was grown again in place, so the list held
the last tree twice and the other one not at all.
---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 4f3ae28..30c07a0 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -713,7 +713,7 @@ func main() {
 					if dotest && foresti == nForest-1 {
 						trees = append(trees, tree)
 
-						if treesStarted < nTrees-1 {
+						if treesStarted < nTrees {
 							//newtree := new(CloudForest.Tree)
 							tree = CloudForest.NewTree()
 							tree.Target = *targetname
-- 
2.43.0


From 784f925c03464263df3a48c7139d38fb717daff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 18/54] fix: growforest grows no more trees than -nTrees asks
 for

Each of the -nCores workers grew one even when fewer trees were requested.
---
 growforest/growforest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 30c07a0..8088159 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -204,6 +204,10 @@ func main() {
 	if boost && !multiboost {
 		nCores = 1
 	}
+	//every core grows at least one tree
+	if nTrees < nCores {
+		nCores = nTrees
+	}
 
 	if nCores > 1 {
 
-- 
2.43.0


From 08e7e47a72caacdb9c388fcf3b67e40d91bb0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 19/54] fix: a worker that stops boosting tells growforest it
 is done

It closed a channel nobody reads, which panics when a second worker does it,
and never called Done, so growforest waited forever with -multiboost.
---
 growforest/growforest.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index 8088159..a67fc77 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -587,7 +587,6 @@ func main() {
 		var waitGroup sync.WaitGroup
 
 		waitGroup.Add(nCores)
-		treechan := make(chan *CloudForest.Tree, 0)
 		//fmt.Println("forest ", foresti)
 		//Grow a single forest on nCores
 		for core := 0; core < nCores; core++ {
@@ -688,7 +687,9 @@ func main() {
 						boostMutex.Unlock()
 						if weight == math.Inf(1) {
 							fmt.Printf("Boosting Reached Weight of %v\n", weight)
-							close(treechan)
+							if nCores > 1 {
+								waitGroup.Done()
+							}
 							break
 						}
 
-- 
2.43.0


From 85aeeadd1fbcbb861d66aec21a0a935cca82bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 20/54] fix: count features used at the root in the mean
 minimal depth

Depth 0 also meant unused, so a use at the root was dropped or replaced by a
deeper one. Unused features are now marked by -1.
---
 growforest/growforest.go | 7 +++++--
 tree.go                  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index a67fc77..f1c725d 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -616,6 +616,9 @@ func main() {
 				var depthUsed *[]int
 				if mmdpnt != nil {
 					du := make([]int, len(data.Data))
+					for i := range du {
+						du[i] = -1
+					}
 					depthUsed = &du
 				}
 
@@ -672,9 +675,9 @@ func main() {
 					}
 					if mmdpnt != nil {
 						for i, v := range *depthUsed {
-							if v != 0 {
+							if v >= 0 {
 								(*mmdpnt)[i].Add(float64(v))
-								(*depthUsed)[i] = 0
+								(*depthUsed)[i] = -1
 							}
 
 						}
diff --git a/tree.go b/tree.go
index bf1e75f..a784bb0 100644
--- a/tree.go
+++ b/tree.go
@@ -142,7 +142,7 @@ func (t *Tree) Grow(fm *FeatureMatrix,
 				if importance != nil {
 					(*importance)[fi].Add(impDec)
 				}
-				if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+				if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 					(*depthUsed)[fi] = depth
 				}
 				//not a leaf node so define the splitter and left and right nodes
@@ -228,7 +228,7 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 					if importance != nil {
 						(*importance)[fi].Add(impDec)
 					}
-					if depthUsed != nil && ((*depthUsed)[fi] == 0 || depth < (*depthUsed)[fi]) {
+					if depthUsed != nil && ((*depthUsed)[fi] < 0 || depth < (*depthUsed)[fi]) {
 						(*depthUsed)[fi] = depth
 					}
 
-- 
2.43.0


From 7628ad7714c4b4e6001115b442d619d0a78448a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 21/54] fix: growforest -test survives predictions the test
 data doesn't contain

CatToNum added the predicted category to the test target and the new code was
out of range for the counters. The evaluation no longer changes the target.
---
 growforest/growforest.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index f1c725d..cff5d29 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -949,12 +949,14 @@ func main() {
 				if pred == "NA" {
 					nas++
 				} else {
-					predi := testtarget.(*CloudForest.DenseCatFeature).CatToNum(pred)
-					predtotals[predi]++
+					predi, known := testtarget.(*CloudForest.DenseCatFeature).Map[pred]
+					if known {
+						predtotals[predi]++
+					}
 					if pred == testtarget.GetStr(i) {
 						correct++
 						truebytrue[truei]++
-					} else {
+					} else if known {
 
 						falsesbypred[predi]++
 					}
-- 
2.43.0


From ae83397d49d6a4135df089c5cc4cc01627f11c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 22/54] fix: WriteForest always writes the forest header

Without an intercept it was left out and the target of a forest whose trees
don't name it, as GrowRandomForest grows them, was lost.
---
 forestwriter.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 59a8ebd..94ac749 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -24,9 +24,7 @@ func NewForestWriter(w io.Writer) *ForestWriter {
 
 //WriteForest writes an entire forest including all headers.
 func (fw *ForestWriter) WriteForest(forest *Forest) {
-	if forest.Intercept != 0.0 {
-		fw.WriteForestHeader(0, forest.Target, forest.Intercept)
-	}
+	fw.WriteForestHeader(0, forest.Target, forest.Intercept)
 	for i, tree := range forest.Trees {
 		fw.WriteTree(tree, i)
 	}
-- 
2.43.0


From 985c02aef7ce14de12535c4b7a9a57793124517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 23/54] fix: ReadForest returns the error ReadTree stopped at

It returned a partial forest and no error.
---
 forestreader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index a28025a..7c1721c 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -62,7 +62,7 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 			return forest, nil
 		}
 		if e != nil {
-			return
+			return forest, e
 		}
 
 	}
-- 
2.43.0


From 70024b61cf0adc1a2d3823809a0a5b9c15a44ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:55 +0000
Subject: [PATCH 24/54] fix: ReadTree reads a last line without a newline

The node on that line was dropped and a split above it was left with a nil
child.
---
 forestreader.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index 7c1721c..5b29b06 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -82,8 +82,9 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			return
 		}
 
+		//the last line doesn't need to end in a newline
 		line, err = fr.br.ReadString('\n')
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return
 		}
 		parsed := fr.ParseRfAcePredictorLine(line)
-- 
2.43.0


From 0a7d4e2fefcfc5220e66ed2676eb2ddefd28b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 25/54] fix: ReadTree returns an error for numbers it can't
 parse

The error was only logged and the intercept, weight or threshold became 0.
---
 forestreader.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 5b29b06..079d0da 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -94,11 +94,11 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			forest.Target = parsed["TARGET"]
 			i, ok := parsed["INTERCEPT"]
 			if ok {
-				intercept, err := strconv.ParseFloat(i, 64)
+				forest.Intercept, err = strconv.ParseFloat(i, 64)
 				if err != nil {
 					log.Print("Error parsing forest intercept value ", err)
+					return
 				}
-				forest.Intercept = intercept
 			}
 
 		case strings.HasPrefix(line, "TREE"):
@@ -107,11 +107,11 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 			tree.Target = parsed["TARGET"]
 			weights, ok := parsed["WEIGHT"]
 			if ok {
-				weight, err := strconv.ParseFloat(weights, 64)
+				tree.Weight, err = strconv.ParseFloat(weights, 64)
 				if err != nil {
 					log.Print("Error parsing weight value ", err)
+					return
 				}
-				tree.Weight = weight
 			} else {
 				tree.Weight = -1.0
 			}
@@ -142,11 +142,11 @@ func (fr *ForestReader) ReadTree() (tree *Tree, forest *Forest, err error) {
 
 				case "NUMERICAL":
 					splitter.Numerical = true
-					lvalue, err := strconv.ParseFloat(parsed["LVALUES"], 64)
+					splitter.Value, err = strconv.ParseFloat(parsed["LVALUES"], 64)
 					if err != nil {
 						log.Print("Error parsing lvalues value ", err)
+						return
 					}
-					splitter.Value = float64(lvalue)
 				}
 			}
 
-- 
2.43.0


From 39be23d684815213dc4ffbbb77672ed2d45edad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 26/54] fix: read feature names that contain = from a forest

One hot encoded features are named feature==category, and every = was taken
for the separator between key and value. Lines without any key no longer
panic.
---
 forestreader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forestreader.go b/forestreader.go
index 079d0da..c8d14dd 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -173,7 +173,7 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 			insidequotes = append(insidequotes, term)
 		} else {
 			//If the term doesn't have an = in it join it to the last term
-			if strings.Count(term, "=") == 0 {
+			if strings.Count(term, "=") == 0 && len(clauses) > 0 {
 				clauses[len(clauses)-1] += "," + term
 			} else {
 				clauses = append(clauses, term)
@@ -188,12 +188,14 @@ func (fr *ForestReader) ParseRfAcePredictorLine(line string) map[string]string {
 	}
 	parsed := make(map[string]string, 0)
 	for _, clause := range clauses {
-		vs := strings.Split(clause, "=")
+		//only the first = separates key and value, feature names can contain more
+		vs := strings.SplitN(clause, "=", 2)
 		for i, v := range vs {
 			vs[i] = strings.Trim(strings.TrimSpace(v), "\"")
 		}
 		if len(vs) != 2 {
 			fmt.Println("Parser Choked on : \"", line, "\"")
+			continue
 		}
 		parsed[vs[0]] = vs[1]
 	}
-- 
2.43.0


From 7ca8e26f030fb5db383541ef9d285b4c67cb3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 27/54] fix: ParseLibSVM reads a last line without a newline

The case on that line was dropped without notice.
---
 libsvm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsvm.go b/libsvm.go
index 06e1c11..0c4c4ca 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -23,9 +23,9 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 		ncases++
 
 		line, err := reader.ReadString('\n')
-		if err == io.EOF {
+		if err == io.EOF && line == "" {
 			break
-		} else if err != nil {
+		} else if err != nil && err != io.EOF {
 			log.Print("Error:", err)
 			return nil
 		}
-- 
2.43.0


From 2fe0e6dac1e03f12c3818d6fa54299b21e811815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:45 +0000
Subject: [PATCH 28/54] fix: ParseLibSVM rejects entries without a feature
 index

The error was logged and the entry's value then replaced the label of the
case, which is feature 0.
---
 libsvm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsvm.go b/libsvm.go
index 0c4c4ca..89bc323 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -68,6 +68,7 @@ func ParseLibSVM(input io.Reader) *FeatureMatrix {
 			xi, err := strconv.Atoi(parts[0])
 			if err != nil {
 				log.Print("Atoi error: ", err, " Line ", i, " Parsing: ", v)
+				return nil
 			}
 			//pad out the data to include this feature
 			for xi >= len(data) {
-- 
2.43.0


From 30ea0eb4b684a0bd0e4cc606c6aadc6319d3676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:47 +0000
Subject: [PATCH 29/54] fix: report data files that can't be parsed

The AFM parser and LoadCases logged a read error and returned the part read so
far as if it were everything, LoadAFM returned neither a matrix nor an error
when the ARFF or libsvm parser gave up, and an empty AFM file panicked.
---
 arff.go          |  4 +++-
 featurematrix.go | 24 +++++++++++++++++-------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/arff.go b/arff.go
index 8c1b841..e61292b 100644
--- a/arff.go
+++ b/arff.go
@@ -67,7 +67,9 @@ func ParseARFF(input io.Reader) *FeatureMatrix {
 	csvdata.Comment = '%'
 	//csvdata.Comma = ','
 
-	fm.LoadCases(csvdata, false)
+	if fm.LoadCases(csvdata, false) != nil {
+		return nil
+	}
 	return fm
 
 }
diff --git a/featurematrix.go b/featurematrix.go
index c173e43..c67ffe0 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -313,7 +313,8 @@ func (fm *FeatureMatrix) ImputeMissing() {
 //feature matrix that has allready been filled with the coresponding empty
 //features. It is a lower level method generally called after inital setup to parse
 //a fm, arff, csv etc.
-func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
+//It returns the error that stopped it before the end of the data, if any.
+func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) (err error) {
 	count := 0
 	for {
 		record, err := data.Read()
@@ -321,7 +322,7 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return err
 		}
 
 		caselabel := fmt.Sprintf("%v", count)
@@ -337,13 +338,14 @@ func (fm *FeatureMatrix) LoadCases(data *csv.Reader, rowlabels bool) {
 
 		count++
 	}
-
+	return
 }
 
 //Parse an AFM (annotated feature matrix) out of an io.Reader
 //AFM format is a tsv with row and column headers where the row headers start with
 //N: indicating numerical, C: indicating categorical or B: indicating boolean
 //For this parser features without N: are assumed to be categorical
+//It returns nil if the input can't be parsed to the end.
 func ParseAFM(input io.Reader) *FeatureMatrix {
 	data := make([]Feature, 0, 100)
 	lookup := make(map[string]int, 0)
@@ -351,10 +353,10 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 	tsv.Comma = '\t'
 	headers, err := tsv.Read()
 	if err == io.EOF {
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return &FeatureMatrix{data, lookup, headers}
 	} else if err != nil {
 		log.Print("Error:", err)
-		return &FeatureMatrix{data, lookup, headers[1:]}
+		return nil
 	}
 	headers = headers[1:]
 
@@ -385,7 +387,9 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			}
 
 			fm := &FeatureMatrix{data, lookup, make([]string, 0, 0)}
-			fm.LoadCases(tsv, true)
+			if fm.LoadCases(tsv, true) != nil {
+				return nil
+			}
 			return fm
 		}
 	}
@@ -398,7 +402,7 @@ func ParseAFM(input io.Reader) *FeatureMatrix {
 			break
 		} else if err != nil {
 			log.Print("Error:", err)
-			break
+			return nil
 		}
 		data = append(data, ParseFeature(record))
 		lookup[record[0]] = count
@@ -416,6 +420,9 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 		if err == nil {
 			fm = ParseAFM(rc)
 			rc.Close()
+			if fm == nil {
+				err = fmt.Errorf("%v could not be parsed.", filename)
+			}
 			return fm, err
 		}
 	}
@@ -435,6 +442,9 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 	}
 
 	datafile.Close()
+	if fm == nil {
+		err = fmt.Errorf("%v could not be parsed.", filename)
+	}
 	return
 }
 
-- 
2.43.0


From 46b342394a5bd9a83d6fac23724e7128d0af2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 30/54] fix: return write errors from the arff and libsvm
 writers

The arff header's errors and those of the buffered rows, which show up in
Flush, were dropped.
---
 arff.go   | 14 ++++++++++----
 libsvm.go |  4 ++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/arff.go b/arff.go
index e61292b..9e20a87 100644
--- a/arff.go
+++ b/arff.go
@@ -81,7 +81,9 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 	  @ATTRIBUTE sepallength  NUMERIC
 	  @ATTRIBUTE class        {Iris-setosa,Iris-versicolor,Iris-virginica}*/
 
-	fmt.Fprintf(outfile, "@RELATION %v\n\n", relation)
+	if _, err := fmt.Fprintf(outfile, "@RELATION %v\n\n", relation); err != nil {
+		return err
+	}
 
 	for _, f := range data.Data {
 		ftype := "NUMERIC"
@@ -90,10 +92,14 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 			ftype = fmt.Sprintf("{%v}", strings.Join(f.(*DenseCatFeature).Back, ","))
 		}
 
-		fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype)
+		if _, err := fmt.Fprintf(outfile, "@ATTRIBUTE %v %v\n", f.GetName(), ftype); err != nil {
+			return err
+		}
 	}
 
-	fmt.Fprint(outfile, "\n@DATA\n")
+	if _, err := fmt.Fprint(outfile, "\n@DATA\n"); err != nil {
+		return err
+	}
 
 	oucsv := csv.NewWriter(outfile)
 	oucsv.Comma = ','
@@ -117,5 +123,5 @@ func WriteArffCases(data *FeatureMatrix, cases []int, relation string, outfile i
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
diff --git a/libsvm.go b/libsvm.go
index 89bc323..b463590 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -145,7 +145,7 @@ func WriteLibSvm(data *FeatureMatrix, targetn string, outfile io.Writer) error {
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
 
 func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile io.Writer) error {
@@ -202,5 +202,5 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 
 	}
 	oucsv.Flush()
-	return nil
+	return oucsv.Error()
 }
-- 
2.43.0


From a47393c8776cd43d972ec636c3661034c3a5aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 31/54] fix: nfold stops when a fold can't be written

The errors of all writers were dropped.
---
 utils/nfold/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index db1f28c..ae038e2 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -244,20 +244,32 @@ func main() {
 
 		if writearff || writeall {
 			trainW, testW := openfiles(trainfn+".arff", testfn+".arff")
-			CloudForest.WriteArffCases(data, foldis[i], *targetname, testW)
-			CloudForest.WriteArffCases(data, trainis, *targetname, trainW)
+			if err := CloudForest.WriteArffCases(data, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteArffCases(data, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if ((!writelibsvm) && (!writearff)) || writeall {
 			trainW, testW := openfiles(trainfn, testfn)
-			data.WriteCases(testW, foldis[i])
-			data.WriteCases(trainW, trainis)
+			if err := data.WriteCases(testW, foldis[i]); err != nil {
+				log.Fatal(err)
+			}
+			if err := data.WriteCases(trainW, trainis); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW)
-			CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW)
+			if err := CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW); err != nil {
+				log.Fatal(err)
+			}
+			if err := CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW); err != nil {
+				log.Fatal(err)
+			}
 		}
 
 		fmt.Printf("Wrote fold %v. %v testing cases and %v training cases.\n", i, len(foldis[i]), len(trainis))
-- 
2.43.0


From e294dc353afc3933557ab130ce093fa745d05cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:25 +0000
Subject: [PATCH 32/54] fix: WriteLibSvmCases doesn't impute its caller's data

Like WriteLibSvm it now imputes copies, nfold -writeall wrote different values
to the later folds' other formats.
---
 libsvm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsvm.go b/libsvm.go
index b463590..ad8536c 100644
--- a/libsvm.go
+++ b/libsvm.go
@@ -164,7 +164,7 @@ func WriteLibSvmCases(data *FeatureMatrix, cases []int, targetn string, outfile
 				encode = true
 			}
 			noTargetFm.Map[f.GetName()] = len(noTargetFm.Data)
-			noTargetFm.Data = append(noTargetFm.Data, f)
+			noTargetFm.Data = append(noTargetFm.Data, f.Copy())
 
 		}
 	}
-- 
2.43.0


From 4db6b90a783ae4514ecaa57dd12886f4a4ea45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 33/54] fix: balanced samplers skip classes without cases

A category that only occurs with a missing partner, or not at all within one
class of the secondary feature, made Sample panic in rand.Intn(0).
---
 sampeling.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sampeling.go b/sampeling.go
index de4afbb..9f12e38 100644
--- a/sampeling.go
+++ b/sampeling.go
@@ -28,6 +28,18 @@ func NewBalancedSampler(catf *DenseCatFeature) (s *BalancedSampler) {
 			s.Cases[v] = append(s.Cases[v], i)
 		}
 	}
+	s.Cases = dropEmpty(s.Cases)
+	return
+}
+
+//dropEmpty removes the classes without any cases, there is nothing to draw from them.
+func dropEmpty(classes [][]int) (filled [][]int) {
+	filled = classes[0:0]
+	for _, cases := range classes {
+		if len(cases) > 0 {
+			filled = append(filled, cases)
+		}
+	}
 	return
 }
 
@@ -73,6 +85,9 @@ func NewSecondaryBalancedSampler(target *DenseCatFeature, balanceby *DenseCatFea
 			s.Samplers[balanceCat][targetCat] = append(s.Samplers[balanceCat][targetCat], i)
 		}
 	}
+	for i := range s.Samplers {
+		s.Samplers[i] = dropEmpty(s.Samplers[i])
+	}
 	return
 
 }
-- 
2.43.0


From d3a58b34c6627fc29bb4d15ad20d8e83f6b182cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:50 +0000
Subject: [PATCH 34/54] fix: GrowRandomForest doesn't sample cases without a
 target

They were learned from as if they were of category 0 or had the value 0.
---
 forrest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/forrest.go b/forrest.go
index fd6aab9..efeb1ac 100644
--- a/forrest.go
+++ b/forrest.go
@@ -53,9 +53,19 @@ func GrowRandomForest(fm *FeatureMatrix,
 	//Slices for reuse during search for best splitter.
 	allocs := NewBestSplitAllocs(nSamples, target)
 
+	//only cases with a known target can be learned from
+	known := make([]int, 0, fm.Data[0].Length())
+	for i := 0; i < fm.Data[0].Length(); i++ {
+		if !target.(Feature).IsMissing(i) {
+			known = append(known, i)
+		}
+	}
+
 	for i := 0; i < nTrees; i++ {
-		nCases := fm.Data[0].Length()
-		cases := SampleWithReplacment(nSamples, nCases)
+		cases := SampleWithReplacment(nSamples, len(known))
+		for j, c := range cases {
+			cases[j] = known[c]
+		}
 
 		f.Trees = append(f.Trees, NewTree())
 		f.Trees[i].Grow(fm, target, cases, candidates, nil, mTry, leafSize, maxDepth, splitmissing, force, vet, evaloob, false, importance, nil, allocs)
-- 
2.43.0


From 9793f9d38b5e4f908131f4ae06123d39f088f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 35/54] fix: the adaptive boosting targets implement
 BoostingTarget

Boost lacked the parameter for the predictions, so growforest -adaboost
panicked and GrowRandomForest grew an unboosted forest. The infinite weight of
a tree without errors, for which growforest already has a case, no longer
turns the weights of the cases and of the votes into NaN.
---
 adaboosttarget.go       | 6 +++++-
 adacosttarget.go        | 6 +++++-
 forrest.go              | 9 +++++++--
 numadaboostingtarget.go | 6 +++++-
 4 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/adaboosttarget.go b/adaboosttarget.go
index 8877fa6..2fefaa8 100644
--- a/adaboosttarget.go
+++ b/adaboosttarget.go
@@ -112,7 +112,7 @@ func (target *AdaBoostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e flo
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
@@ -122,6 +122,10 @@ func (t *AdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//a tree without errors leaves nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 
diff --git a/adacosttarget.go b/adacosttarget.go
index 606fede..d89de85 100644
--- a/adacosttarget.go
+++ b/adacosttarget.go
@@ -128,7 +128,7 @@ func (target *AdaCostTarget) ImpFromCounts(cases *[]int, counter *[]int) (e floa
 
 //Boost performs categorical adaptive boosting using the specified partition and
 //returns the weight that tree that generated the partition should be given.
-func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *AdaCostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	weight = 0.0
 	counter := make([]int, t.NCats())
 	for _, cases := range *leaves {
@@ -138,6 +138,10 @@ func (t *AdaCostTarget) Boost(leaves *[][]int) (weight float64) {
 		return 0.0
 	}
 	weight = .5 * math.Log((1-weight)/weight)
+	if math.IsInf(weight, 1) {
+		//a tree without errors leaves nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 		t.CountPerCat(&cases, &counter)
diff --git a/forrest.go b/forrest.go
index efeb1ac..d5f861e 100644
--- a/forrest.go
+++ b/forrest.go
@@ -1,6 +1,8 @@
 package CloudForest
 
-import ()
+import (
+	"math"
+)
 
 //Forest represents a collection of decision trees grown to predict Target.
 type Forest struct {
@@ -72,7 +74,10 @@ func GrowRandomForest(fm *FeatureMatrix,
 		switch target.(type) {
 		case BoostingTarget:
 			ls, ps := f.Trees[i].Partition(fm)
-			f.Trees[i].Weight = target.(BoostingTarget).Boost(ls, ps)
+			weight := target.(BoostingTarget).Boost(ls, ps)
+			if !math.IsInf(weight, 1) {
+				f.Trees[i].Weight = weight
+			}
 		}
 	}
 	return
diff --git a/numadaboostingtarget.go b/numadaboostingtarget.go
index ed5be91..32a2588 100644
--- a/numadaboostingtarget.go
+++ b/numadaboostingtarget.go
@@ -77,7 +77,7 @@ func (target *NumAdaBoostTarget) Impurity(cases *[]int, counter *[]int) (e float
 //
 //These functions are chosen to provide a rough analog to catagorical adaptive boosting for
 //numerical data with unbounded error.
-func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
+func (t *NumAdaBoostTarget) Boost(leaves *[][]int, preds *[]string) (weight float64) {
 	if len(*leaves) == 0 {
 		return 0.0
 	}
@@ -93,6 +93,10 @@ func (t *NumAdaBoostTarget) Boost(leaves *[][]int) (weight float64) {
 	}
 
 	weight = math.Log(norm / imp)
+	if math.IsInf(weight, 1) {
+		//a tree without errors leaves nothing to boost
+		return
+	}
 
 	for _, cases := range *leaves {
 		m := t.Predicted(&cases)
-- 
2.43.0


From 9484b9a8d549fcc8d9feaf18fcbba97a9c73941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 36/54] fix: gradient boosting keeps missing targets missing

Put clears the missing flag, so every case without a target became a case with
the value 0 and was trained on.
---
 gradboostclasstarget.go | 17 +++++++++++++++--
 gradboosttarget.go      | 14 ++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/gradboostclasstarget.go b/gradboostclasstarget.go
index 64833be..abc34f0 100644
--- a/gradboostclasstarget.go
+++ b/gradboostclasstarget.go
@@ -40,6 +40,9 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	pred := actual.Copy().(*DenseNumFeature)
 	// Make sure the encoding has the positive class as 1
 	for i := 0; i < f.Length(); i++ {
+		if f.IsMissing(i) {
+			continue
+		}
 		if f.GetStr(i) == pos_class {
 			actual.Put(i, 1.0)
 		} else {
@@ -51,14 +54,21 @@ func NewGradBoostClassTarget(f CatFeature, learnrate float64, pos_class string)
 	res := &GradBoostTarget{actual.Copy().(*DenseNumFeature), learnrate, 0.0}
 
 	pos := 0.0
+	known := 0.0
 	for i := 0; i < actual.Length(); i++ {
-		pos += actual.Get(i)
+		if !actual.IsMissing(i) {
+			pos += actual.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := math.Log(pos / (float64(res.Length()) - pos))
+	prior := math.Log(pos / (known - pos))
 
 	for i := 0; i < res.Length(); i++ {
+		if res.IsMissing(i) {
+			continue
+		}
 		pred.Put(i, prior)
 		v := actual.Get(i) - Expit(prior)
 		res.Put(i, v)
@@ -110,6 +120,9 @@ func (f *GradBoostClassTarget) FindPredicted(cases []int) (pred string) {
 //specified cases from the value for those cases.
 func (f *GradBoostClassTarget) Update(cases *[]int, predicted float64) {
 	for _, i := range *cases {
+		if f.IsMissing(i) {
+			continue
+		}
 		pred := f.Pred.Get(i) + f.LearnRate*predicted
 		f.Pred.Put(i, pred)
 
diff --git a/gradboosttarget.go b/gradboosttarget.go
index 98cfee6..3554808 100644
--- a/gradboosttarget.go
+++ b/gradboosttarget.go
@@ -17,16 +17,22 @@ func NewGradBoostTarget(f NumFeature, learnrate float64) (gbc *GradBoostTarget)
 
 	//res := NumFeature.(*DenseNumFeature).Copy().(*DenseNumFeature)
 	sum := 0.0
+	known := 0
 	for i := 0; i < f.Length(); i++ {
-		sum += f.Get(i)
+		if !f.IsMissing(i) {
+			sum += f.Get(i)
+			known++
+		}
 	}
 
 	// Set intial residual to
-	prior := sum / float64(f.Length())
+	prior := sum / float64(known)
 
 	for i := 0; i < f.Length(); i++ {
-		v := f.Get(i) - prior
-		f.Put(i, v)
+		if !f.IsMissing(i) {
+			v := f.Get(i) - prior
+			f.Put(i, v)
+		}
 	}
 
 	//fmt.Println(res.Copy().(*DenseNumFeature).NumData)
-- 
2.43.0


From f3f21814c6d8b27d30930d7540c845178cbb5de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 37/54] fix: predicting doesn't add categories to the target

CatToNum adds a label it doesn't know, which changed the training data, from
several goroutines at once, when the positive class is not in it.
---
 dentropytarget.go  | 5 ++---
 hdistancetarget.go | 3 +--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index ace7e78..87bf077 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -84,7 +84,6 @@ func (target *DEntropyTarget) ImpFromCounts(total int, counts *[]int) (e float64
 
 func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	prob_true := 0.0
-	t := target.CatToNum("True")
 	weightedvoted := true
 	if weightedvoted {
 		count := 0.0
@@ -92,7 +91,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 		for _, i := range cases {
 			ti := target.Geti(i)
 			cost := target.Costs[ti]
-			if ti == t {
+			if target.NumToCat(ti) == "True" {
 				count += cost
 			}
 			total += cost
@@ -103,7 +102,7 @@ func (target *DEntropyTarget) FindPredicted(cases []int) (pred string) {
 	} else {
 		count := 0
 		for _, i := range cases {
-			if target.Geti(i) == t {
+			if target.NumToCat(target.Geti(i)) == "True" {
 				count++
 			}
 
diff --git a/hdistancetarget.go b/hdistancetarget.go
index 2aff363..b44c9ba 100644
--- a/hdistancetarget.go
+++ b/hdistancetarget.go
@@ -65,11 +65,10 @@ func (target *HDistanceTarget) HDist(lcounts *[]int, rcounts *[]int) (d float64)
 func (target *HDistanceTarget) FindPredicted(cases []int) (pred string) {
 	// TODO(ryan): lapalcian smoothing?
 	prob_true := 0.0
-	t := target.CatToNum(target.Pos_class)
 
 	count := 0
 	for _, i := range cases {
-		if target.Geti(i) == t {
+		if target.NumToCat(target.Geti(i)) == target.Pos_class {
 			count++
 		}
 
-- 
2.43.0


From d6473f7af215983f73cc441480c2da1a70f624ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 38/54] fix: DEntropyTarget.Impurity uses the disutilities

It was plain entropy while the incremental ImpFromCounts, which the same split
search also uses, weighted the classes.
---
 dentropytarget.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dentropytarget.go b/dentropytarget.go
index 87bf077..a6dd253 100644
--- a/dentropytarget.go
+++ b/dentropytarget.go
@@ -120,10 +120,10 @@ func (target *DEntropyTarget) Impurity(cases *[]int, counts *[]int) (e float64)
 	target.CountPerCat(cases, counts)
 
 	p := 0.0
-	for _, i := range *counts {
+	for c, i := range *counts {
 		if i > 0 {
 			p = float64(i) / float64(total)
-			e -= p * math.Log(p)
+			e -= target.Costs[c] * p * math.Log(p)
 		}
 
 	}
-- 
2.43.0


From dfcd30b600a506b0d8add079429eb90a4289ceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:10 +0000
Subject: [PATCH 39/54] fix: leafcount locks the split record its threads share

With -splits and more than one of -threads they wrote to one map at once.
---
 leafcount/leafcount.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index b32a58f..1b35638 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -9,6 +9,7 @@ import (
 	"os"
 	"runtime"
 	"strings"
+	"sync"
 )
 
 func main() {
@@ -23,6 +24,7 @@ func main() {
 	flag.Parse()
 
 	splits := make(map[string][]string)
+	var splitsMutex sync.Mutex
 
 	//Parse Data
 	data, err := CloudForest.LoadAFM(*fm)
@@ -85,6 +87,8 @@ func main() {
 					if *soutf != "" {
 						forest.Trees[i].Root.Climb(func(n *CloudForest.Node) {
 							if n.Splitter != nil {
+								splitsMutex.Lock()
+								defer splitsMutex.Unlock()
 								name := n.Splitter.Feature
 								_, ok := splits[name]
 								if !ok {
-- 
2.43.0


From 6832a95191d0a6e790761f4bcd29c63dab2773da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:12 +0000
Subject: [PATCH 40/54] fix: write maps in a fixed order

The categories of a split in a forest file or leafcount's record and the rows
of the leafcount matrices came in the iteration order of a map, so the same
input gave a different file every time.
---
 forestwriter.go        |  2 ++
 leafcount/leafcount.go |  2 ++
 utils.go               | 15 +++++++++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index 94ac749..a1b8f20 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -3,6 +3,7 @@ package CloudForest
 import (
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 )
 
@@ -99,5 +100,6 @@ func (fw *ForestWriter) DescribeMap(input map[string]bool) string {
 	for k := range input {
 		keys = append(keys, k)
 	}
+	sort.Strings(keys)
 	return "\"" + strings.Join(keys, ":") + "\""
 }
diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index 1b35638..f1eb280 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"os"
 	"runtime"
+	"sort"
 	"strings"
 	"sync"
 )
@@ -103,6 +104,7 @@ func main() {
 									for k := range n.Splitter.Left {
 										keys = append(keys, k)
 									}
+									sort.Strings(keys)
 									split = strings.Join(keys, ",")
 								}
 								splits[name] = append(splits[name], split)
diff --git a/utils.go b/utils.go
index 14a59ff..5e6c254 100644
--- a/utils.go
+++ b/utils.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"log"
 	"math"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -97,9 +98,19 @@ func (sc *SparseCounter) Add(i int, j int, val int) {
 func (sc *SparseCounter) WriteTsv(writer io.Writer) {
 	sc.mutex.Lock()
 	defer sc.mutex.Unlock()
+	rows := make([]int, 0, len(sc.Map))
 	for i := range sc.Map {
-		for j, val := range sc.Map[i] {
-			if _, err := fmt.Fprintf(writer, "%v\t%v\t%v\n", i, j, val); err != nil {
+		rows = append(rows, i)
+	}
+	sort.Ints(rows)
+	for _, i := range rows {
+		cols := make([]int, 0, len(sc.Map[i]))
+		for j := range sc.Map[i] {
+			cols = append(cols, j)
+		}
+		sort.Ints(cols)
+		for _, j := range cols {
+			if _, err := fmt.Fprintf(writer, "%v\t%v\t%v\n", i, j, sc.Map[i][j]); err != nil {
 				log.Fatal(err)
 			}
 		}
-- 
2.43.0


From 004d05dcb9d3e9c4706b3984b45a63ea1d557386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 41/54] fix: nodes GrowJungle combines are grown from the cases
 of both

The range was extended in a copy of the record, so the cases of the absorbed
node were ignored below, and parents of nodes absorbed earlier kept pointing
at nodes that are never grown.
---
 tree.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/tree.go b/tree.go
index a784bb0..987b209 100644
--- a/tree.go
+++ b/tree.go
@@ -313,17 +313,24 @@ func (t *Tree) GrowJungle(fm *FeatureMatrix,
 
 				if combine != -1 {
 					madeChanges = true
-					nodes[combine].dead = true
 					nj := nodes[combine]
-					nodei.end = nj.end
-					parent := nj.parent
-					switch nj.n {
-					case parent.Left:
-						parent.Left = nodei.n
-					case parent.Right:
-						parent.Right = nodei.n
-					case parent.Missing:
-						parent.Missing = nodei.n
+					nodes[combine].dead = true
+					nodes[i].end = nj.end
+					//redirect the parents of nj and of the nodes it was combined with before
+					for k := lastThisLevel; k < len(nodes); k++ {
+						if nodes[k].n != nj.n {
+							continue
+						}
+						parent := nodes[k].parent
+						switch nj.n {
+						case parent.Left:
+							parent.Left = nodei.n
+						case parent.Right:
+							parent.Right = nodei.n
+						case parent.Missing:
+							parent.Missing = nodei.n
+						}
+						nodes[k].n = nodei.n
 					}
 
 				}
-- 
2.43.0


From 2572f71dc66a22f99d7e96d199d0c23a7233ce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 42/54] fix: growforest -nobag trains on every case with a
 known target

With -nSamples set to the number of cases the list stopped at the number of
cases with a known target, so with missing targets the last cases were left out.
---
 growforest/growforest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index cff5d29..f970562 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -606,7 +606,7 @@ func main() {
 				oobcases := make([]int, 0, nNonMissing)
 
 				if nobag {
-					for i := 0; i < nNonMissing; i++ {
+					for i := 0; i < targetf.Length(); i++ {
 						if !targetf.IsMissing(i) {
 							cases = append(cases, i)
 						}
-- 
2.43.0


From e75aa0de0d6b623c59c297d910221073ce6e5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:24 +0000
Subject: [PATCH 43/54] fix: place numeric thresholds between the cases scored
 left and right

The threshold was the mean of the first value of a run of nearly equal
values and the next, which sends the rest of the run to the other side
than it was scored on, and rounding or overflow of the sum could send
cases of the larger value left as well, leaving an empty right branch.
---
 densenumfeature.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/densenumfeature.go b/densenumfeature.go
index 4867391..44f71e8 100644
--- a/densenumfeature.go
+++ b/densenumfeature.go
@@ -355,9 +355,13 @@ func (f *DenseNumFeature) BestNumSplit(target Target,
 
 			if innerimp > impurityDecrease {
 				impurityDecrease = innerimp
-				splitf = sortedData[lasti]
+				splitf = sortedData[i-1]
 				splitf += sortedData[i]
 				splitf /= 2.0
+				//keep the cases on the sides they were scored on if the sum rounded or overflowed
+				if !(splitf >= sortedData[i-1] && splitf < sortedData[i]) {
+					splitf = sortedData[i-1]
+				}
 				//fmt.Println(len(sorter.Cases), sorter.Vals, allocs.LM, allocs.RM, codedSplit, impurityDecrease)
 
 			}
-- 
2.43.0


From ce168390aa88e2feebd8cd49d6ebdbe0faa80c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 44/54] fix: a forest that can't be written ends the program

---
 forestwriter.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/forestwriter.go b/forestwriter.go
index a1b8f20..e8e5cd5 100644
--- a/forestwriter.go
+++ b/forestwriter.go
@@ -3,6 +3,7 @@ package CloudForest
 import (
 	"fmt"
 	"io"
+	"log"
 	"sort"
 	"strings"
 )
@@ -43,7 +44,9 @@ func (fw *ForestWriter) WriteTreeHeader(ntree int, target string, weight float64
 	if weight >= 0.0 {
 		weightterm = fmt.Sprintf(",WEIGHT=%v", weight)
 	}
-	fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm)
+	if _, err := fmt.Fprintf(fw.w, "TREE=%v,TARGET=\"%v\"%v\n", ntree, target, weightterm); err != nil {
+		log.Fatal(err)
+	}
 }
 
 //WrieTreeHeader writes only the header line for a tree.
@@ -52,7 +55,9 @@ func (fw *ForestWriter) WriteForestHeader(nforest int, target string, intercept
 	if intercept != 0.0 {
 		interceptterm = fmt.Sprintf(",INTERCEPT=%v", intercept)
 	}
-	fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm)
+	if _, err := fmt.Fprintf(fw.w, "FOREST=%v,TARGET=\"%v\"%v\n", nforest, target, interceptterm); err != nil {
+		log.Fatal(err)
+	}
 }
 
 //WriteNodeAndChildren recursively writes out the target node and all of its children.
@@ -91,7 +96,9 @@ func (fw *ForestWriter) WriteNode(n *Node, path string) {
 			node += fmt.Sprintf(",SPLITTERTYPE=CATEGORICAL,LVALUES=%v", left)
 		}
 	}
-	fmt.Fprintln(fw.w, node)
+	if _, err := fmt.Fprintln(fw.w, node); err != nil {
+		log.Fatal(err)
+	}
 }
 
 //DescribeMap serializes the "left" map of a categorical splitter.
-- 
2.43.0


From 82692cdc7820967d4abf0a8898b692b3defd5ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 45/54] fix: growforest stops when predictions or importances
 can't be written

---
 growforest/growforest.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/growforest/growforest.go b/growforest/growforest.go
index f970562..bbb38dc 100644
--- a/growforest/growforest.go
+++ b/growforest/growforest.go
@@ -863,7 +863,9 @@ func main() {
 		}
 		defer caseoobfile.Close()
 		for i := 0; i < unboostedTarget.Length(); i++ {
-			fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i))
+			if _, err := fmt.Fprintf(caseoobfile, "%v\t%v\t%v\n", data.CaseLabels[i], oobVotes.Tally(i), unboostedTarget.GetStr(i)); err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -880,7 +882,9 @@ func main() {
 
 				p, _, _, m := stats.Ttest(&aceImps[i], &aceImps[i+firstace])
 
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m)
+				if _, err := fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\n", *targetname, data.Data[i].GetName(), p, m); err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		} else {
@@ -888,7 +892,9 @@ func main() {
 			for i, v := range *imppnt {
 				mean, count := v.Read()
 				meanMinDepth, treeCount := (*mmdpnt)[i].Read()
-				fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth)
+				if _, err := fmt.Fprintf(impfile, "%v\t%v\t%v\t%v\t%v\t%v\t%v\n", data.Data[i].GetName(), mean, count, mean*float64(count)/float64(nTrees), mean*float64(count)/float64(treeCount), treeCount, meanMinDepth); err != nil {
+					log.Fatal(err)
+				}
 
 			}
 		}
-- 
2.43.0


From 4e31816640df282165193a7ffa92891e656a9c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 46/54] fix: applyforest stops when predictions or votes can't
 be written

---
 applyforest/applyforest.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/applyforest/applyforest.go b/applyforest/applyforest.go
index 24689d2..1929982 100644
--- a/applyforest/applyforest.go
+++ b/applyforest/applyforest.go
@@ -102,7 +102,9 @@ func main() {
 			} else {
 				result = bb.Tally(i)
 			}
-			fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual)
+			if _, err := fmt.Fprintf(predfile, "%v\t%v\t%v\n", l, result, actual); err != nil {
+				log.Fatal(err)
+			}
 		}
 	}
 
@@ -115,24 +117,36 @@ func main() {
 			log.Fatal(err)
 		}
 		defer votefile.Close()
-		fmt.Fprintf(votefile, ".")
+		if _, err := fmt.Fprintf(votefile, "."); err != nil {
+			log.Fatal(err)
+		}
 
 		for _, lable := range cbb.CatMap.Back {
-			fmt.Fprintf(votefile, "\t%v", lable)
+			if _, err := fmt.Fprintf(votefile, "\t%v", lable); err != nil {
+				log.Fatal(err)
+			}
+		}
+		if _, err := fmt.Fprintf(votefile, "\n"); err != nil {
+			log.Fatal(err)
 		}
-		fmt.Fprintf(votefile, "\n")
 
 		for i, box := range cbb.Box {
-			fmt.Fprintf(votefile, "%v", data.CaseLabels[i])
+			if _, err := fmt.Fprintf(votefile, "%v", data.CaseLabels[i]); err != nil {
+				log.Fatal(err)
+			}
 
 			for j, _ := range cbb.CatMap.Back {
 				total := 0.0
 				total = box.Map[j]
 
-				fmt.Fprintf(votefile, "\t%v", total)
+				if _, err := fmt.Fprintf(votefile, "\t%v", total); err != nil {
+					log.Fatal(err)
+				}
 
 			}
-			fmt.Fprintf(votefile, "\n")
+			if _, err := fmt.Fprintf(votefile, "\n"); err != nil {
+				log.Fatal(err)
+			}
 
 		}
 	}
-- 
2.43.0


From 8450626dbc32f1ef5cc4e227adee13751a9a2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:43 +0000
Subject: [PATCH 47/54] fix: leafcount stops when the splits can't be written

---
 leafcount/leafcount.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/leafcount/leafcount.go b/leafcount/leafcount.go
index f1eb280..10a4bb1 100644
--- a/leafcount/leafcount.go
+++ b/leafcount/leafcount.go
@@ -148,6 +148,8 @@ func main() {
 		}
 		defer soutfile.Close()
 		encoder := json.NewEncoder(soutfile)
-		encoder.Encode(splits)
+		if err := encoder.Encode(splits); err != nil {
+			log.Fatal(err)
+		}
 	}
 }
-- 
2.43.0


From 90931bfdc6b897e42cd04513e08f8ad97a72a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 48/54] fix: LoadAFM reports a zip member that cannot be opened

---
 featurematrix.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/featurematrix.go b/featurematrix.go
index c67ffe0..8b17d77 100644
--- a/featurematrix.go
+++ b/featurematrix.go
@@ -417,14 +417,15 @@ func LoadAFM(filename string) (fm *FeatureMatrix, err error) {
 	r, err := zip.OpenReader(filename)
 	if err == nil {
 		rc, err := r.File[0].Open()
-		if err == nil {
-			fm = ParseAFM(rc)
-			rc.Close()
-			if fm == nil {
-				err = fmt.Errorf("%v could not be parsed.", filename)
-			}
-			return fm, err
+		if err != nil {
+			return nil, err
+		}
+		fm = ParseAFM(rc)
+		rc.Close()
+		if fm == nil {
+			err = fmt.Errorf("%v could not be parsed.", filename)
 		}
+		return fm, err
 	}
 
 	datafile, err := os.Open(filename)
-- 
2.43.0


From 4a4d29cdf19a3cdd9d02df27f31a327cc815695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 49/54] fix: ReadForest returns the error met while reading the
 next forest's header

---
 forestreader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forestreader.go b/forestreader.go
index c8d14dd..6b7440c 100644
--- a/forestreader.go
+++ b/forestreader.go
@@ -46,7 +46,10 @@ func (fr *ForestReader) ReadForest() (forest *Forest, err error) {
 		}
 		t, f, e := fr.ReadTree()
 		if forest != nil && f != nil {
-			return
+			if e == io.EOF {
+				e = nil
+			}
+			return forest, e
 		}
 		if forest == nil && f != nil {
 			forest = f
-- 
2.43.0


From de518ee3017df37870f374f2bf2ebc501666f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:34 +0000
Subject: [PATCH 50/54] fix: nfold writes libsvm matrices of a target with more
 than two categories

The whole matrix was encoded as numbers first, which replaces such a target by one
column per category, and the target was not found any more. WriteLibSvmCases encodes
the other features itself.
---
 utils/nfold/main.go | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/utils/nfold/main.go b/utils/nfold/main.go
index ae038e2..8072dff 100644
--- a/utils/nfold/main.go
+++ b/utils/nfold/main.go
@@ -215,18 +215,6 @@ func main() {
 
 		}
 	}
-	encode := false
-
-	for _, f := range data.Data {
-		if f.NCats() > 0 {
-			encode = true
-		}
-	}
-
-	encoded := data
-	if encode && (writelibsvm || writeall) {
-		encoded = data.EncodeToNum()
-	}
 
 	trainis := make([]int, 0, foldsize*(folds-1))
 	//Write training and testing matrixes
@@ -264,10 +252,10 @@ func main() {
 
 		if writelibsvm || writeall {
 			trainW, testW := openfiles(trainfn+".libsvm", testfn+".libsvm")
-			if err := CloudForest.WriteLibSvmCases(encoded, foldis[i], *targetname, testW); err != nil {
+			if err := CloudForest.WriteLibSvmCases(data, foldis[i], *targetname, testW); err != nil {
 				log.Fatal(err)
 			}
-			if err := CloudForest.WriteLibSvmCases(encoded, trainis, *targetname, trainW); err != nil {
+			if err := CloudForest.WriteLibSvmCases(data, trainis, *targetname, trainW); err != nil {
 				log.Fatal(err)
 			}
 		}
-- 
2.43.0


From 25df4af4847a6f00bfdecc58d68ee30d2efdf627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:09 +0000
Subject: [PATCH 51/54] fix: the regret impurity is the average cost, not half
 of it

---
 regrettarget.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/regrettarget.go b/regrettarget.go
index 68b160a..2a24949 100644
--- a/regrettarget.go
+++ b/regrettarget.go
@@ -123,7 +123,6 @@ func (target *RegretTarget) ImpFromCounts(t int, counter *[]int) (e float64) {
 
 	for cat, count := range *counter {
 
-		t += count
 		if cat != mi {
 			e += target.Costs[cat] * float64(count)
 		}
-- 
2.43.0


From f7f2d6d0e160582a201d2254542297d1e1d88ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:06 +0000
Subject: [PATCH 52/54] fix: a vote without weight does not spoil a running
 mean

---
 utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index 5e6c254..56d2009 100644
--- a/utils.go
+++ b/utils.go
@@ -31,8 +31,9 @@ func (rm *RunningMean) Add(val float64) {
 }
 
 //WeightedAdd add's the specified value to the running mean in a thread safe way.
+//A value without weight changes nothing.
 func (rm *RunningMean) WeightedAdd(val float64, weight float64) {
-	if !math.IsNaN(val) && !math.IsNaN(weight) {
+	if !math.IsNaN(val) && !math.IsNaN(weight) && weight != 0 {
 		rm.mutex.Lock()
 		rm.Mean = (rm.Mean*rm.Count + weight*val) / (rm.Count + weight)
 		rm.Count += weight
-- 
2.43.0


From 05045f2f73d7fce532980d5bb74a437ec3bdc277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:08 +0000
Subject: [PATCH 53/54] fix: the squared error of a numeric ballot box leaves
 out cases without votes

---
 numballotbox.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c0b5583..c5c2005 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -54,7 +54,7 @@ func (bb *NumBallotBox) Tally(i int) (predicted string) {
 //For numerical features it returns mean squared error.
 //The provided feature must use the same index as the feature matrix
 //the ballot box was constructed with.
-//Missing values are ignored.
+//Missing values and cases that no vote was cast for are ignored.
 //Gini impurity is not used so this is not for use in rf implementations.
 func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	e = 0.0
@@ -63,8 +63,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	d := 0.0
 	c := 0
 	for i := 0; i < feature.Length(); i++ {
-		predicted := bb.TallyNum(i)
-		if !feature.IsMissing(i) && !math.IsNaN(predicted) {
+		predicted, count := bb.box[i].Read()
+		if !feature.IsMissing(i) && count > 0 && !math.IsNaN(predicted) {
 			value := feature.(NumFeature).Get(i)
 
 			d = float64(value) - predicted
-- 
2.43.0


From c4a1c17b6a9597edbefec7ced188cd0036096866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 54/54] fix: a target without known values does not keep
 applyforest from predicting

---
 numballotbox.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/numballotbox.go b/numballotbox.go
index c5c2005..01fa988 100644
--- a/numballotbox.go
+++ b/numballotbox.go
@@ -54,7 +54,8 @@ func (bb *NumBallotBox) Tally(i int) (predicted string) {
 //For numerical features it returns mean squared error.
 //The provided feature must use the same index as the feature matrix
 //the ballot box was constructed with.
-//Missing values and cases that no vote was cast for are ignored.
+//Missing values and cases that no vote was cast for are ignored; without any other
+//case the error is not a number.
 //Gini impurity is not used so this is not for use in rf implementations.
 func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 	e = 0.0
@@ -72,8 +73,8 @@ func (bb *NumBallotBox) TallySquaredError(feature Feature) (e float64) {
 			c += 1
 		}
 	}
-	if c == 0.0 {
-		log.Fatal("TallyError with 0 count!")
+	if c == 0 {
+		log.Print("TallyError with 0 count!")
 	}
 	e = e / float64(c)
 
-- 
2.43.0

