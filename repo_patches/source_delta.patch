From fb4c17654672769571ca12894366f6488cbb2d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 01/37] fix: give the exponential transformation its own name

TransformType(Exponential).Name() indexed past the end of the names array and
panicked; TransformExponential.Name() claimed to be "logistic".
---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 1bc08cc712871fbcc4d3a4a70d76f68e3de18828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 02/37] fix: report one feature for models with a single
 feature

NFeatures returned 0 for MaxFeatureIdx = 0, so the width check let empty rows
through and PredictCSR allocated an empty row: both panicked.
---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From a7f9646581ee7f0e27b584bd8b500a91f79b4614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:03 +0000
Subject: [PATCH 03/37] fix: make softmax robust to large absolute raw values

math.Exp overflowed for raw values above ~709 (NaN probabilities) and
underflowed to all zeros when every raw value was below ~-745.
---
 util/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..e7651e5 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,14 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// subtract maximum in order to avoid overflow (or underflow of all values)
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		max = math.Max(max, v)
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From e71a313b2323c8592b4c9b40fc684d4126584768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 04/37] fix: send values equal to an XGBoost split condition to
 the right

XGBoost's rule is 'fvalue < split_cond', lgTree's is 'fval <= Threshold'.
Loading shifts the threshold by one ulp so that both agree.
---
 xgensemble_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..b18f083 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/xgbin"
@@ -60,7 +61,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if xgDefaultLeft(origNode) {
 			defaultType = defaultLeft
 		}
-		node = numericalNode(xgSplitIndex(origNode), missingType, float64(origNode.Info), defaultType)
+		// NOTE: XGBoost goes left when `fval < split_cond`, lgTree when `fval <= Threshold`
+		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CLeft < 0")
-- 
2.43.0


From c85afab7120a0c50f1c4d63780d776c2fbb33f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:05 +0000
Subject: [PATCH 05/37] fix: load XGBoost trees that were pruned down to their
 root

Such trees keep their deleted nodes in the file (NumNodes > 1) and were
rejected with 'logic error: got origNode.CLeft < 0'.
---
 xgensemble_io.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index b18f083..2d74184 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -45,8 +45,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
-		// special case - constant value tree
+	if numNodes == 1 || xgIsLeaf(&origTree.Nodes[0]) {
+		// special case - constant value tree (pruned trees keep deleted nodes, so
+		// root could be a leaf even if numNodes > 1)
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From d82167ce19e44aa610d5598c598bc18a47d709f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 06/37] fix: report one leaf for constant sklearn trees

A dummy decision node made NLeaves return 2 for a tree with a single leaf.
---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..973bc99 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -29,15 +29,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From c6ab25454bf5fffa766bcc7bdf244462c56997ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 07/37] fix: take the number of features of sklearn models from
 n_features_

max_features_ is the number of features considered per split; for models with
max_features < n_features NFeatures was too small, PredictCSR dropped columns
and panicked.
---
 internal/pickle/sklearn.go | 10 ++++++++++
 skensemble_io.go           |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..5963a5c 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -201,6 +201,7 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 }
 
 type SklearnGradientBoosting struct {
+	NFeatures     int
 	NClasses      int
 	Classes       []int
 	NEstimators   int
@@ -287,6 +288,15 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	// NOTE: max_features_ is a number of features to consider for the split,
+	// number of features in the data is n_features_
+	t.NFeatures = t.MaxFeatures
+	if _, found := dict["n_features_"]; found {
+		t.NFeatures, err = dict.toInt("n_features_")
+		if err != nil {
+			return
+		}
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 973bc99..030fc0e 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -124,7 +124,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From a80e67e70aa7c7c896f09d6d80826d1c56a61c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 08/37] fix: skip missing values in gblinear predictions

XGBoost sums over the present values only; a NaN feature turned the whole
prediction into NaN.
---
 xgblinear.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xgblinear.go b/xgblinear.go
index 95d109f..d55c763 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -1,5 +1,7 @@
 package leaves
 
+import "math"
+
 // xgLinear is XGBoost model (gblinear)
 type xgLinear struct {
 	NumFeature       int
@@ -37,6 +39,10 @@ func (e *xgLinear) predictInner(fvals []float64, nIterations int, predictions []
 	for k := 0; k < e.nRawOutputGroups; k++ {
 		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
 		for i := 0; i < e.NumFeature; i++ {
+			if math.IsNaN(fvals[i]) {
+				// missing value
+				continue
+			}
 			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
 		}
 	}
-- 
2.43.0


From 1bc796d909aa0ad5505e2b508af713da6339bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 09/37] fix: decode all escapes of python's protocol 0 unicode
 strings

Python >= 3.8 escapes \0, \r and \x1a in addition to \n and the backslash, so
every array of a model pickled by it was rejected.
---
 internal/pickle/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..96f0bbd 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -195,6 +195,10 @@ func (d *Decoder) readLine() ([]byte, error) {
 func decodeUnicode(rawString []byte) Unicode {
 	// \u000a == \n
 	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
+	// python >= 3.8 also escapes \0, \r and \x1a
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', '0'}, []byte{0}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', 'd'}, []byte{'\r'}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '1', 'a'}, []byte{0x1a}, -1)
 	// \u005c' == \\
 	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
 	return Unicode(ret)
-- 
2.43.0


From 595b9372d551cdd0c4619c974098bdd66b9da7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 10/37] fix: return an error on leaf indices prediction for
 gblinear models

---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index a718898..1d178e7 100644
--- a/leaves.go
+++ b/leaves.go
@@ -48,6 +48,9 @@ func (e *Ensemble) checkNEstimators(nEstimators int) error {
 		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
 			nEstimators, e.NEstimators())
 	}
+	if e.transform.Type() == transformation.LeafIndex && len(e.NLeaves()) == 0 {
+		return fmt.Errorf("model '%s' doesn't have leaves to predict their indices", e.Name())
+	}
 	return nil
 }
 
-- 
2.43.0


From c1e5002d940c7742c31242e5415a227bc02c0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 11/37] fix: return an error from PredictDense if vals is too
 short

---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index 1d178e7..af66ef0 100644
--- a/leaves.go
+++ b/leaves.go
@@ -202,6 +202,9 @@ func (e *Ensemble) PredictDense(
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
+	if len(vals) < nRows*ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
 	if err != nil {
-- 
2.43.0


From dd7f3f94b994404b670d4af552a73f0a6da9598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 12/37] fix: don't load reg_sqrt models as if there was no
 transformation

---
 lgensemble_io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..736a6d3 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -357,6 +357,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
+		} else if strings.HasPrefix(objectiveStr, "regression") && strings.HasSuffix(objectiveStr, " sqrt") {
+			// reg_sqrt=true: LightGBM squares raw predictions
+			return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
 			if err != nil {
-- 
2.43.0


From d5ae42fea1f6f658d5cd86cf028f85c8d157a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 13/37] fix: accept '=' in feature names of LightGBM models

---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index e7651e5..2598567 100644
--- a/util/util.go
+++ b/util/util.go
@@ -43,7 +43,10 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 	}
 	for {
 		tokens := strings.Split(line, "=")
-		if len(tokens) > 2 {
+		if len(tokens) > 2 && tokens[0] == "feature_names" {
+			// names of features could contain any symbols except spaces
+			params[tokens[0]] = strings.TrimPrefix(line, "feature_names=")
+		} else if len(tokens) > 2 {
 			return nil, fmt.Errorf("meet wrong format while reading params")
 		} else if len(tokens) == 2 {
 			params[tokens[0]] = tokens[1]
-- 
2.43.0


From 39aac73798964860e86dc1ea1280ce7bcec7b68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 14/37] fix: return an error on LightGBM linear trees

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 736a6d3..1cf43e2 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -112,6 +112,12 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 	}
 	t.nCategorical = uint32(numCategorical)
 
+	if params.Contains("is_linear") {
+		if err := params.Compare("is_linear", "0"); err != nil {
+			return t, err
+		}
+	}
+
 	numLeaves, err := params.ToInt("num_leaves")
 	if err != nil {
 		return t, err
-- 
2.43.0


From c6bb936a81f16299d6a786d6f48ef7bfb5d20be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 15/37] fix: reject transformations that don't fit the number
 of outputs

---
 lgensemble_io.go | 4 ++++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 1cf43e2..9f44e2c 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -388,6 +388,10 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' can't be applied to %d raw outputs", transform.Name(), e.nRawOutputGroups)
+	}
+
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := lgTreeFromReader(reader)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..b036e65 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -44,6 +44,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
 	}
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' can't be applied to %d raw outputs", transform.Name(), e.nRawOutputGroups)
+	}
 	return &Ensemble{e, transform}, nil
 }
 
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 2d74184..7b5ed93 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -234,6 +234,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
 	}
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation '%s' can't be applied to %d raw outputs", transform.Name(), e.nRawOutputGroups)
+	}
 
 	nTrees := origModel.Param.NumTrees
 	if nTrees == 0 {
-- 
2.43.0


From e15f452201daa50e029d0609d96c880bf4ae3915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 16/37] fix: validate structure of LightGBM text trees while
 loading

---
 lgensemble_io.go | 22 ++++++++++++++++++++++
 lgtree.go        | 29 +++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 9f44e2c..7bfb2da 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -159,6 +159,19 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	for _, length := range []int{len(leftChilds), len(rightChilds), len(decisionTypes), len(splitFeatures), len(thresholds)} {
+		if length != numNodes {
+			return t, fmt.Errorf("unexpected number of values in tree (got %d, expected %d)", length, numNodes)
+		}
+	}
+	for _, childs := range [][]int32{leftChilds, rightChilds} {
+		for _, child := range childs {
+			if int(child) >= numNodes {
+				return t, fmt.Errorf("child index %d is out of range (number of nodes = %d)", child, numNodes)
+			}
+		}
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -203,8 +216,14 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0 && thresholds[idx] < float64(len(catBoundaries)-1)) {
+			return node, fmt.Errorf("categorical threshold %g is out of range", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
 		catType := uint8(0)
+		if catBoundaries[catIdx] > catBoundaries[catIdx+1] || int(catBoundaries[catIdx+1]) > len(catThresholds) {
+			return node, fmt.Errorf("wrong cat_boundaries")
+		}
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
 		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]
 		nBits := util.NumberOfSetBits(thresholdSlice)
@@ -398,6 +417,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("wrong %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..8a9299a 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -93,6 +94,34 @@ func (t *lgTree) predict(fvals []float64) (float64, uint32) {
 	}
 }
 
+// validate checks that prediction on the tree always stops in one of its leaves and never goes out of its data
+// (`predict` relies on it)
+func (t *lgTree) validate(nFeatures int) error {
+	if len(t.nodes) == 0 && len(t.leafValues) == 0 {
+		return fmt.Errorf("tree has no leaves")
+	}
+	for i := range t.nodes {
+		node := &t.nodes[i]
+		if int64(node.Feature) >= int64(nFeatures) {
+			return fmt.Errorf("node %d: feature index %d is out of range (number of features = %d)", i, node.Feature, nFeatures)
+		}
+		// NOTE: children are always stored after their parent, right one is the next to it
+		if node.Flags&leftLeaf > 0 && int(node.Left) >= len(t.leafValues) ||
+			node.Flags&leftLeaf == 0 && (int(node.Left) <= i || int(node.Left) >= len(t.nodes)) {
+			return fmt.Errorf("node %d: wrong left child", i)
+		}
+		if node.Flags&rightLeaf > 0 && int(node.Right) >= len(t.leafValues) ||
+			node.Flags&rightLeaf == 0 && (int(node.Right) != i+1 || int(node.Right) >= len(t.nodes)) {
+			return fmt.Errorf("node %d: wrong right child", i)
+		}
+		if node.Flags&categorical > 0 && node.Flags&(catOneHot|catSmall) == 0 &&
+			int(node.Threshold)+1 >= len(t.catBoundaries) {
+			return fmt.Errorf("node %d: wrong categorical threshold", i)
+		}
+	}
+	return nil
+}
+
 func (t *lgTree) findInBitset(idx uint32, pos uint32) bool {
 	i1 := pos / 32
 	idxS := t.catBoundaries[idx]
-- 
2.43.0


From 169439f7d2b26d67302746a7b7f84f6fd87ad0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 17/37] fix: validate structure of LightGBM JSON trees while
 loading

---
 lgensemble_io.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 7bfb2da..057879d 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -471,6 +472,15 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 	return node, nil
 }
 
+// lgNodesJSONCount returns number of decision nodes (not leaves) in the tree
+func lgNodesJSONCount(root interface{}) int {
+	node, ok := root.(*lgNodeJSON)
+	if !ok {
+		return 0
+	}
+	return 1 + lgNodesJSONCount(node.LeftChild) + lgNodesJSONCount(node.RightChild)
+}
+
 // unmarshalTree unmarshal tree data from JSON raw data and convert it to `lgTree` structure
 func unmarshalTree(raw []byte) (lgTree, error) {
 	t := lgTree{}
@@ -502,6 +512,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		t.leafValues = append(t.leafValues, value)
 		return t, nil
 	}
+	if n := lgNodesJSONCount(treeJSON.Root); n != numNodes {
+		return t, fmt.Errorf("unexpected number of nodes in tree (got %d, expected %d)", n, numNodes)
+	}
 
 	createNumericalNode := func(nodeJSON *lgNodeJSON) (lgNode, error) {
 		node := lgNode{}
@@ -538,6 +551,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
 		}
 
+		if t.nCategorical == 0 {
+			return node, fmt.Errorf("categorical decision in tree with num_cat = 0")
+		}
 		thresholdString, ok := nodeJSON.Threshold.(string)
 		if !ok {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
@@ -554,6 +570,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			if err != nil {
 				return node, fmt.Errorf("can't convert %s: %s", tokens[0], err.Error())
 			}
+			if value < 0 || value > math.MaxInt32 {
+				return node, fmt.Errorf("category %d is out of range", value)
+			}
 			catIdx = uint32(value)
 			catType = catOneHot
 		} else {
@@ -563,6 +582,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 				if err != nil {
 					return node, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
 				}
+				if value < 0 || value > math.MaxInt32 {
+					return node, fmt.Errorf("category %d is out of range", value)
+				}
 				thresholdValues[i] = value
 			}
 
@@ -698,6 +720,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("wrong %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
-- 
2.43.0


From 0beac774849b644a1e20dbc1ee12f806461361ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 18/37] fix: return an error if LightGBM text model is cut
 inside of the last tree

---
 lgensemble_io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 057879d..642338b 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -423,6 +423,13 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 		e.Trees = append(e.Trees, tree)
 	}
+	// the last line of the last tree should be complete, otherwise its value could be cut in the middle
+	if err := reader.UnreadByte(); err != nil {
+		return nil, err
+	}
+	if lastByte, err := reader.ReadByte(); err != nil || lastByte != '\n' {
+		return nil, io.ErrUnexpectedEOF
+	}
 	return &Ensemble{e, transform}, nil
 }
 
-- 
2.43.0


From 2145a496353c53e22c5b7c6e8fa562a94e8cc90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 19/37] fix: validate sizes and tree structure of XGBoost
 models while loading

---
 internal/xgbin/xgbin_io.go | 37 ++++++++++++++++++++++++++++++-------
 xgblinear_io.go            |  7 +++++++
 xgensemble_io.go           | 14 +++++++++++++-
 3 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..b11a28f 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -2,7 +2,11 @@ package xgbin
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+	"math"
 )
 
 // Most data structures from this packages are mirrors from original XGBoost
@@ -162,6 +166,20 @@ func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	return nil
 }
 
+// readBytes - read `count` elements with size `elementSize` bytes each as raw bytes.
+// NOTE: `count` is taken from the stream, so memory is allocated only for the data that is really in the stream
+func readBytes(reader io.Reader, count uint64, elementSize uint64) (*bytes.Buffer, error) {
+	if count > math.MaxInt64/elementSize {
+		return nil, fmt.Errorf("unexpected number of elements (got %d)", count)
+	}
+	buf := &bytes.Buffer{}
+	_, err := io.CopyN(buf, reader, int64(count*elementSize))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	return buf, err
+}
+
 // ReadString - read ascii string from binary stream
 // from dmlc-core/include/dmlc/serializer.h
 func ReadString(reader *bufio.Reader) (string, error) {
@@ -173,12 +191,11 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
+	buf, err := readBytes(reader, size, 1)
 	if err != nil {
 		return "", err
 	}
-	return string(bytes), nil
+	return buf.String(), nil
 }
 
 // ReadFloat32Slice - read vector of floats from binary stream
@@ -192,8 +209,12 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	buf, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(buf, binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -211,8 +232,12 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	buf, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(buf, binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -276,8 +301,6 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index b036e65..5e2d11a 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("wrong number of output groups (%d)", e.nRawOutputGroups)
+	}
+	// one weight for each feature + bias
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf("wrong number of weights (got %d, expected %d)", len(e.Weights), (e.NumFeature+1)*e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 7b5ed93..1c509e1 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -37,7 +37,7 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		return t, fmt.Errorf("support only trees with 1 root (got %d)", origTree.Param.NumRoots)
 	}
 
-	if origTree.Param.NumNodes == 0 {
+	if origTree.Param.NumNodes <= 0 {
 		return t, fmt.Errorf("tree with zero number of nodes")
 	}
 	numNodes := origTree.Param.NumNodes
@@ -72,6 +72,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if origNode.CRight < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CRight < 0")
 		}
+		if origNode.CLeft >= numNodes || origNode.CRight >= numNodes {
+			return node, fmt.Errorf("children indices (%d, %d) are out of range (number of nodes = %d)", origNode.CLeft, origNode.CRight, numNodes)
+		}
 		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -172,6 +175,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		)
 	}
 
+	if origModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("negative number of trees (%d)", origModel.Param.NumTrees)
+	}
 	e.WeightDrop = make([]float64, origModel.Param.NumTrees)
 	if header.NameGbm == "dart" {
 		// read additional float32 slice of weighs of dropped trees. Only for 'dart' models
@@ -203,6 +209,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 || int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of output groups (%d) for %d trees", e.nRawOutputGroups, origModel.Param.NumTrees)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
@@ -250,6 +259,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("wrong %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From d2ea362c3578435f7b07ded5fe049426326f82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 20/37] fix: read pickles byte by byte regardless of how the
 reader splits data

---
 internal/pickle/decoder.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 96f0bbd..1eed259 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -1,6 +1,7 @@
 package pickle
 
 import (
+	"bufio"
 	"bytes"
 	"fmt"
 	"io"
@@ -11,14 +12,18 @@ import (
 // (pickle command), do command, push result in `machine` object. Main method is
 // `Decode`
 type Decoder struct {
-	reader  io.Reader
+	reader  io.ByteReader
 	machine *machine
 }
 
 // NewDecoder creates decoder from io.Reader
 func NewDecoder(r io.Reader) *Decoder {
+	byteReader, ok := r.(io.ByteReader)
+	if !ok {
+		byteReader = bufio.NewReader(r)
+	}
 	return &Decoder{
-		reader:  r,
+		reader:  byteReader,
 		machine: newPickleMachine(),
 	}
 }
@@ -27,18 +32,15 @@ func NewDecoder(r io.Reader) *Decoder {
 // machine's stack
 func (d *Decoder) Decode() (interface{}, error) {
 	nInstr := 0
-	buf := make([]byte, 1024)
 loop:
 	for {
-		length, err := d.reader.Read(buf[:1])
+		op, err := d.reader.ReadByte()
 		if err != nil {
 			return nil, err
-		} else if length != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 
 		nInstr++
-		switch buf[0] {
+		switch op {
 		case opMark:
 			d.machine.pushMark()
 		case opPut:
@@ -168,7 +170,7 @@ loop:
 		case opStop:
 			break loop
 		default:
-			return nil, fmt.Errorf("unknown op code: %d", buf[0])
+			return nil, fmt.Errorf("unknown op code: %d", op)
 		}
 	}
 	return d.machine.back(), nil
@@ -176,18 +178,15 @@ loop:
 
 func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
-	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		b, err := d.reader.ReadByte()
 		if err != nil {
 			return nil, err
-		} else if len != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
-		if buf[0] == '\n' {
+		if b == '\n' {
 			break
 		}
-		line = append(line, buf[0])
+		line = append(line, b)
 	}
 	return line, nil
 }
-- 
2.43.0


From a725ea2d9e51158015885169ed50564a2a6dedaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 21/37] fix: return errors on malformed pickles

---
 internal/pickle/decoder.go |  8 ++++++--
 internal/pickle/machine.go | 24 +++++++++++++++++++++++-
 internal/pickle/numpy.go   |  8 ++++----
 internal/pickle/sklearn.go | 23 +++++++++++++----------
 internal/pickle/types.go   |  4 ++--
 skensemble_io.go           | 25 +++++++++++++++++++++++--
 6 files changed, 71 insertions(+), 21 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 1eed259..a9886df 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -128,7 +128,7 @@ loop:
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
@@ -172,8 +172,12 @@ loop:
 		default:
 			return nil, fmt.Errorf("unknown op code: %d", op)
 		}
+		if d.machine.err != nil {
+			return nil, d.machine.err
+		}
 	}
-	return d.machine.back(), nil
+	res := d.machine.back()
+	return res, d.machine.err
 }
 
 func (d *Decoder) readLine() ([]byte, error) {
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..dea2689 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -7,6 +9,8 @@ type machine struct {
 	stack  []interface{}
 	memory map[string]interface{}
 	marks  []int
+	// err is the first error that happened while working with the stack
+	err error
 }
 
 func newPickleMachine() *machine {
@@ -21,6 +25,10 @@ func (m *machine) pushMark() {
 }
 
 func (m *machine) popMark() []interface{} {
+	if len(m.marks) == 0 || m.marks[len(m.marks)-1] > len(m.stack) {
+		m.fail("no mark on the stack")
+		return nil
+	}
 	idx := m.marks[len(m.marks)-1]
 	m.marks = m.marks[:len(m.marks)-1]
 	markedObjects := m.stack[idx:len(m.stack)]
@@ -33,19 +41,33 @@ func (m *machine) push(obj interface{}) {
 }
 
 func (m *machine) pop() interface{} {
+	if len(m.stack) == 0 {
+		m.fail("stack is empty")
+		return nil
+	}
 	obj := m.stack[len(m.stack)-1]
 	m.stack = m.stack[:len(m.stack)-1]
 	return obj
 }
 
 func (m *machine) back() interface{} {
+	if len(m.stack) == 0 {
+		m.fail("stack is empty")
+		return nil
+	}
 	return m.stack[len(m.stack)-1]
 }
 
 func (m *machine) putMemory(key string) {
-	m.memory[key] = m.stack[len(m.stack)-1]
+	m.memory[key] = m.back()
 }
 
 func (m *machine) getMemory(key string) interface{} {
 	return m.memory[key]
 }
+
+func (m *machine) fail(msg string) {
+	if m.err == nil {
+		m.err = fmt.Errorf("malformed pickle: %s", msg)
+	}
+}
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..879e5c8 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -94,7 +94,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -134,7 +134,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -172,7 +172,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 5963a5c..ace23ff 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,14 +72,14 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = make([]int, 0, len(arr.Data)/8)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -153,7 +153,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -176,7 +176,7 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
-	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
+	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan || len(nClassesRaw.Data) != 8 {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
@@ -217,7 +217,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -269,14 +269,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = make([]int, 0, len(arr.Data)/8)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -345,7 +345,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple with length %d", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
@@ -370,7 +370,7 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if err != nil {
 			return err
 		}
-		if numpyScalar.Type.Type != "f8" {
+		if numpyScalar.Type.Type != "f8" || len(numpyScalar.Data) != 8 {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
@@ -391,10 +391,13 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyArray.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyArray.Type)
 		}
-		numpyArray.Data.Iterate(8, func(bytes []byte) error {
+		err = numpyArray.Data.Iterate(8, func(bytes []byte) error {
 			e.Prior = append(e.Prior, util.Float64FromBytes(bytes, numpyArray.Type.LittleEndinan))
 			return nil
 		})
+		if err != nil {
+			return err
+		}
 	} else {
 		return fmt.Errorf("unknown init estimator class: %s", e.Name)
 	}
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..1d533a2 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -133,7 +133,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -145,7 +145,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
diff --git a/skensemble_io.go b/skensemble_io.go
index 030fc0e..0aab377 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/pickle"
@@ -14,6 +15,11 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	if len(tree.Tree.Nodes) != tree.Tree.NNodes || len(tree.Tree.Values) != tree.Tree.NNodes {
+		return t, fmt.Errorf("unexpected number of nodes (%d) and values (%d), should be %d",
+			len(tree.Tree.Nodes), len(tree.Tree.Values), tree.Tree.NNodes)
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
@@ -40,6 +46,12 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 		refNode := &tree.Tree.Nodes[idx]
 		missingType := uint8(0)
 		defaultType := uint8(0)
+		if refNode.Feature < 0 || refNode.Feature > math.MaxInt32 {
+			return node, fmt.Errorf("wrong feature index %d", refNode.Feature)
+		}
+		if refNode.LeftChild < 0 || refNode.LeftChild >= tree.Tree.NNodes || refNode.RightChild < 0 || refNode.RightChild >= tree.Tree.NNodes {
+			return node, fmt.Errorf("children indices (%d, %d) are out of range (number of nodes = %d)", refNode.LeftChild, refNode.RightChild, tree.Tree.NNodes)
+		}
 		node = numericalNode(uint32(refNode.Feature), missingType, refNode.Threshold, defaultType)
 		if tree.Tree.Nodes[refNode.LeftChild].LeftChild < 0 {
 			node.Flags |= leftLeaf
@@ -127,9 +139,12 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
-	if nTrees == 0 {
+	if nTrees < 1 {
 		return nil, fmt.Errorf("no trees in file")
 	}
+	if e.nRawOutputGroups < 1 || e.nRawOutputGroups > len(gbdt.Estimators) {
+		return nil, fmt.Errorf("unexpected number of classes (%d)", gbdt.NClasses)
+	}
 
 	if gbdt.NEstimators*e.nRawOutputGroups != len(gbdt.Estimators) {
 		return nil, fmt.Errorf("unexpected number of trees (NEstimators = %d, nRawOutputGroups = %d, len(Estimatoers) = %d", gbdt.NEstimators, e.nRawOutputGroups, len(gbdt.Estimators))
@@ -138,6 +153,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != 1")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
@@ -150,7 +168,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, fmt.Errorf("unknown initial estimator \"%s\"", gbdt.InitEstimator.Name)
 	}
 
-	e.Trees = make([]lgTree, 0, gbdt.NEstimators*gbdt.NClasses)
+	e.Trees = make([]lgTree, 0, len(gbdt.Estimators))
 	for i := 0; i < gbdt.NEstimators; i++ {
 		for j := 0; j < e.nRawOutputGroups; j++ {
 			treeNum := i*e.nRawOutputGroups + j
@@ -158,6 +176,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			if err := tree.validate(e.NFeatures()); err != nil {
+				return nil, fmt.Errorf("wrong %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
-- 
2.43.0


From e890074877f5bea6ed78e1529461b5d72bfe40af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 22/37] fix: don't drop the rest of libsvm line after two
 spaces in a row

---
 mat/mat_io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..23775b1 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,8 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				// several spaces in a row
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From bc8b02587506dc972d1e09291a4b166245c05c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 23/37] fix: read libsvm rows without features

---
 mat/mat_io.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 23775b1..178f87f 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -119,7 +119,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
@@ -154,9 +154,6 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 			break
 		}
 		tokens := strings.Split(line, " ")
-		if len(tokens) < 2 {
-			return fmt.Errorf("too few columns")
-		}
 
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
-- 
2.43.0


From 02bbf2d47f329f5af2df8b0fe10265dcca962699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 24/37] fix: don't lose absent values on the edges of csv lines

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 178f87f..beb4e41 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -208,7 +209,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// delimiter could be a space symbol too, in this case it separates absent values
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From a39a99ac4bfe9acf8ae1c4fe0b9f3114ea21d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 25/37] fix: report write errors from ToCsvFile

---
 mat/mat_io.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index beb4e41..f41b910 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -284,6 +284,11 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	defer f.Close()
 
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	if err := m.WriteStr(buf, delimiter); err != nil {
+		return err
+	}
+	if err := buf.Flush(); err != nil {
+		return err
+	}
+	return f.Close()
 }
-- 
2.43.0


From 9d84842d9679be426c7675c9558809a85f46486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 26/37] fix: treat NaN as a mismatch when comparing slices

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index 2598567..aa73dff 100644
--- a/util/util.go
+++ b/util/util.go
@@ -229,7 +229,7 @@ func AlmostEqualFloat64Slices(a, b []float64, threshold float64) error {
 		return fmt.Errorf("different sizes: len(a) = %d, len(b) = %d", len(a), len(b))
 	}
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if a[i] != b[i] && !AlmostEqualFloat64(a[i], b[i], threshold) {
 			return fmt.Errorf("%d element mismatch: a[%d] = %f, b[%d] = %f", i, i, a[i], i, b[i])
 		}
 	}
@@ -242,7 +242,7 @@ func NumMismatchedFloat64Slices(a, b []float64, threshold float64) (int, error)
 	}
 	count := 0
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if a[i] != b[i] && !AlmostEqualFloat64(a[i], b[i], threshold) {
 			count++
 		}
 	}
-- 
2.43.0


From 6b52e3b47d094cfe204221c9d8e7336fd9648ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 27/37] fix: skip all leading blank lines while reading params

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index aa73dff..ba50728 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From 894decd9f57ecb3242f888c42bffe0061e11a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 28/37] fix: reject LightGBM models with max_feature_idx out of
 range

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 642338b..120a173 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -350,6 +350,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	if err != nil {
 		return nil, err
 	}
+	if maxFeatureIdx < -1 || maxFeatureIdx >= math.MaxInt32 {
+		return nil, fmt.Errorf("max_feature_idx (%d) is out of range", maxFeatureIdx)
+	}
 	e.MaxFeatureIdx = maxFeatureIdx
 
 	if params.Contains("average_output") {
@@ -712,6 +715,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", data.NumTreesPerIteration)
 	}
 	e.nRawOutputGroups = data.NumClasses
+	if data.MaxFeatureIdx < -1 || data.MaxFeatureIdx >= math.MaxInt32 {
+		return nil, fmt.Errorf("max_feature_idx (%d) is out of range", data.MaxFeatureIdx)
+	}
 	e.MaxFeatureIdx = data.MaxFeatureIdx
 
 	nTrees := len(data.Trees)
-- 
2.43.0


From 07083a9d779644f568482a80de7137df4c433efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 29/37] fix: keep state of memorized python objects after BUILD

---
 internal/pickle/decoder.go |  3 ++-
 internal/pickle/machine.go | 13 ++++++++++++-
 internal/pickle/types.go   |  2 ++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index a9886df..8860320 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -124,7 +124,7 @@ loop:
 		case opReduce:
 			args := d.machine.pop()
 			callable := d.machine.pop()
-			r := Reduce{Callable: callable}
+			r := Reduce{Callable: callable, memoryKey: new(string)}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
@@ -137,6 +137,7 @@ loop:
 			args := d.machine.pop()
 			obj := d.machine.pop()
 			b := Build{Object: obj, Args: args}
+			d.machine.updateMemory(b)
 			d.machine.push(b)
 		case opDict:
 			objs := d.machine.popMark()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index dea2689..3fffcaa 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -59,7 +59,18 @@ func (m *machine) back() interface{} {
 }
 
 func (m *machine) putMemory(key string) {
-	m.memory[key] = m.back()
+	obj := m.back()
+	if reduce, ok := obj.(Reduce); ok {
+		*reduce.memoryKey = key
+	}
+	m.memory[key] = obj
+}
+
+// updateMemory makes memorized object refer to its state after BUILD command
+func (m *machine) updateMemory(build Build) {
+	if reduce, ok := build.Object.(Reduce); ok && *reduce.memoryKey != "" {
+		m.memory[*reduce.memoryKey] = build
+	}
 }
 
 func (m *machine) getMemory(key string) interface{} {
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 1d533a2..c6dd059 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -28,6 +28,8 @@ type Global struct {
 type Reduce struct {
 	Callable interface{}
 	Args     Tuple
+	// memoryKey is a key under which the object was memorized (if any)
+	memoryKey *string
 }
 
 // Build is result of BUILD pickle command (usually class __setstate__ call)
-- 
2.43.0


From e7860c59051cf5f39b64d4421b121e41a89dff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:13 +0000
Subject: [PATCH 30/37] fix: accept integer learning_rate in sklearn models

---
 internal/pickle/types.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index c6dd059..5669714 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -145,11 +145,14 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	floatValue, ok := value.(float64)
-	if !ok {
-		return 0, fmt.Errorf("expected int (got %T)", value)
-	}
-	return floatValue, nil
+	switch v := value.(type) {
+	case float64:
+		return v, nil
+	case int:
+		// python doesn't distinguish 1 and 1.0
+		return float64(v), nil
+	}
+	return 0, fmt.Errorf("expected float (got %T)", value)
 }
 
 // ParseClass calls PythonClass's Reduce and Build methods
-- 
2.43.0


From 03e4b010c34669634c6ad56bab98f734089d1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 31/37] fix: don't overflow size checks in PredictDense

---
 leaves.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/leaves.go b/leaves.go
index af66ef0..98b38fb 100644
--- a/leaves.go
+++ b/leaves.go
@@ -196,14 +196,15 @@ func (e *Ensemble) PredictDense(
 	nThreads int,
 ) error {
 	nRows := nrows
-	if len(predictions) < e.NOutputGroups()*nRows {
-		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
+	// NOTE: division is used because product could overflow
+	if nRows > len(predictions)/e.NOutputGroups() {
+		return fmt.Errorf("predictions slice too short (should be at least %d x %d)", nRows, e.NOutputGroups())
 	}
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
-	if len(vals) < nRows*ncols {
-		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	if nRows > len(vals)/ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d x %d)", nRows, ncols)
 	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
-- 
2.43.0


From 21b4d9a150b551134f5d181b93a1e4606dfcc21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:46 +0000
Subject: [PATCH 32/37] fix: check sparse matrix in PredictCSR

---
 leaves.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/leaves.go b/leaves.go
index 98b38fb..b0c04f8 100644
--- a/leaves.go
+++ b/leaves.go
@@ -109,8 +109,12 @@ func (e *Ensemble) PredictCSR(indptr []int, cols []int, vals []float64, predicti
 	if len(predictions) < e.NOutputGroups()*nRows {
 		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
 	}
+	err := checkCSR(indptr, cols, vals)
+	if err != nil {
+		return err
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
-	err := e.checkNEstimators(nEstimators)
+	err = e.checkNEstimators(nEstimators)
 	if err != nil {
 		return err
 	}
@@ -158,6 +162,27 @@ func (e *Ensemble) PredictCSR(indptr []int, cols []int, vals []float64, predicti
 	return nil
 }
 
+// checkCSR checks that all elements of the rows are inside of `cols` and `vals`
+func checkCSR(indptr []int, cols []int, vals []float64) error {
+	for i := 0; i+1 < len(indptr); i++ {
+		start := indptr[i]
+		end := indptr[i+1]
+		if start >= end {
+			// row without elements
+			continue
+		}
+		if start < 0 || end > len(cols) || end > len(vals) {
+			return fmt.Errorf("row %d [%d, %d) is out of range of cols (%d) or vals (%d)", i, start, end, len(cols), len(vals))
+		}
+		for _, col := range cols[start:end] {
+			if col < 0 {
+				return fmt.Errorf("row %d has negative column %d", i, col)
+			}
+		}
+	}
+	return nil
+}
+
 func (e *Ensemble) predictCSRInner(
 	indptr []int,
 	cols []int,
-- 
2.43.0


From 6da5a6ebe8be354d14c23a222f55d0458c94084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 33/37] fix: check matrix shapes without overflow and refuse
 negative ones

---
 mat/mat.go    | 16 ++++++++++++++--
 mat/mat_io.go |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mat/mat.go b/mat/mat.go
index 4225938..3db21e1 100644
--- a/mat/mat.go
+++ b/mat/mat.go
@@ -15,6 +15,18 @@ type DenseMat struct {
 	Rows   int
 }
 
+// isShape checks that `n` values could be `rows` by `cols` matrix
+func isShape(n int, rows int, cols int) bool {
+	if rows < 0 || cols < 0 {
+		return false
+	}
+	if rows == 0 || cols == 0 {
+		return n == 0
+	}
+	// NOTE: division is used because product could overflow
+	return n%cols == 0 && n/cols == rows
+}
+
 // DenseMatZero return DenseMat with shape `rows` by `cols` with all zero elements
 func DenseMatZero(rows int, cols int) DenseMat {
 	return DenseMat{
@@ -28,7 +40,7 @@ func DenseMatZero(rows int, cols int) DenseMat {
 // information `rows` and `cols`
 func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
 	mat := DenseMat{}
-	if len(values) != cols*rows {
+	if !isShape(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
@@ -56,7 +68,7 @@ func (m *CSRMat) Rows() int {
 // `rows` and `cols`. See also DenseMatFromArray to store dense data in matrix
 func CSRMatFromArray(values []float64, rows int, cols int) (CSRMat, error) {
 	mat := CSRMat{}
-	if len(values) != cols*rows {
+	if !isShape(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
diff --git a/mat/mat_io.go b/mat/mat_io.go
index f41b910..120a2af 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -246,7 +246,7 @@ func readFromCsv(reader *bufio.Reader,
 
 // WriteStr writes matrix to CSV like format with field delimiter `delimiter`
 func (m *DenseMat) WriteStr(writer io.Writer, delimiter string) error {
-	if m.Cols*m.Rows != len(m.Values) {
+	if !isShape(len(m.Values), m.Rows, m.Cols) {
 		return fmt.Errorf("matrix unconsistent")
 	}
 	if m.Cols == 0 || m.Rows == 0 {
-- 
2.43.0


From 30ce5f20dc1ed79425a76a1d04afae464c66c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 34/37] fix: deeply nested LightGBM JSON trees are parsed in
 linear time

---
 lgensemble_io.go | 55 ++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 120a173..ac787b6 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -32,22 +32,24 @@ type lgTreeJSON struct {
 	// Unused fields:
 	// TreeIndex uint32  `json:"tree_index"`
 	// Shrinkage float64 `json:"shrinkage"`
-	RootRaw json.RawMessage `json:"tree_structure"`
-	Root    interface{}
+	RootNode *lgNodeJSON `json:"tree_structure"`
+	Root     interface{}
 }
 
 type lgNodeJSON struct {
 	SplitIndex   uint32 `json:"split_index"`
 	SplitFeature uint32 `json:"split_feature"`
 	// Threshold could be float64 (for numerical decision) or string (for categorical, example "10||100||400")
-	Threshold     interface{}     `json:"threshold"`
-	DecisionType  string          `json:"decision_type"`
-	DefaultLeft   bool            `json:"default_left"`
-	MissingType   string          `json:"missing_type"`
-	LeftChildRaw  json.RawMessage `json:"left_child"`
-	RightChildRaw json.RawMessage `json:"right_child"`
-	LeftChild     interface{}
-	RightChild    interface{}
+	Threshold      interface{} `json:"threshold"`
+	DecisionType   string      `json:"decision_type"`
+	DefaultLeft    bool        `json:"default_left"`
+	MissingType    string      `json:"missing_type"`
+	LeftChildNode  *lgNodeJSON `json:"left_child"`
+	RightChildNode *lgNodeJSON `json:"right_child"`
+	LeftChild      interface{}
+	RightChild     interface{}
+	// LeafValue is set for leaf nodes only
+	LeafValue interface{} `json:"leaf_value"`
 }
 
 // lgObjective keeps parsed data from 'objective' field of lightgbm txt format
@@ -447,35 +449,28 @@ func LGEnsembleFromFile(filename string, loadTransformation bool) (*Ensemble, er
 	return LGEnsembleFromReader(bufReader, loadTransformation)
 }
 
-// unmarshalNode recuirsively unmarshal nodes data in the tree from JSON raw data. Tree's node can be:
-// 1. leaf node (contains field 'field_value')
-// 2. node with decision rule (contains field from `lgNodeJSON` structure)
-func unmarshalNode(raw []byte) (interface{}, error) {
-	node := &lgNodeJSON{}
-	err := json.Unmarshal(raw, node)
-	if err != nil {
-		return nil, err
+// convertNode recursively sets children of the node parsed from JSON data. Tree's node can be:
+// 1. leaf node (contains field 'leaf_value')
+// 2. node with decision rule
+func convertNode(node *lgNodeJSON) (interface{}, error) {
+	if node == nil {
+		return nil, fmt.Errorf("unknown tree")
 	}
-
-	// dirty way to check that we really load a lgNodeJSON struct from raw data
+	// dirty way to check that we really load a node with decision rule
 	if node.MissingType == "" {
-		// this is no tree node structure, then it should be map with "leaf_value" record
-		data := make(map[string]interface{})
-		err = json.Unmarshal(raw, &data)
-		if err != nil {
-			return nil, err
-		}
-		value, ok := data["leaf_value"].(float64)
+		// this is no tree node structure, then it should have "leaf_value" record
+		value, ok := node.LeafValue.(float64)
 		if !ok {
 			return nil, fmt.Errorf("unknown tree")
 		}
 		return value, nil
 	}
-	node.LeftChild, err = unmarshalNode(node.LeftChildRaw)
+	var err error
+	node.LeftChild, err = convertNode(node.LeftChildNode)
 	if err != nil {
 		return nil, err
 	}
-	node.RightChild, err = unmarshalNode(node.RightChildRaw)
+	node.RightChild, err = convertNode(node.RightChildNode)
 	if err != nil {
 		return nil, err
 	}
@@ -512,7 +507,7 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	}
 	numNodes := treeJSON.NumLeaves - 1
 
-	treeJSON.Root, err = unmarshalNode(treeJSON.RootRaw)
+	treeJSON.Root, err = convertNode(treeJSON.RootNode)
 	if err != nil {
 		return t, err
 	}
-- 
2.43.0


From 65a9c2f3297b2d94f42d4ba16b18b0e9a4a25867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:59 +0000
Subject: [PATCH 35/37] fix: nothing is less than a split value of -inf in
 XGBoost trees

---
 xgensemble_io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 1c509e1..7e8ca39 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -64,6 +64,10 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		}
 		// NOTE: XGBoost goes left when `fval < split_cond`, lgTree when `fval <= Threshold`
 		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		if math.IsInf(float64(origNode.Info), -1) {
+			// nothing is less than -inf
+			threshold = math.NaN()
+		}
 		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
-- 
2.43.0


From 78965411d7c64a50d79384d88c04b786c5a50d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:26 +0000
Subject: [PATCH 36/37] fix: absent entries of a sparse row are missing values
 for gblinear too

---
 xgblinear.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgblinear.go b/xgblinear.go
index d55c763..6c01055 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -54,6 +54,6 @@ func (e *xgLinear) predictLeafIndicesInner(fvals []float64, nEstimators int, pre
 
 func (e *xgLinear) resetFVals(fvals []float64) {
 	for j := 0; j < len(fvals); j++ {
-		fvals[j] = 0.0
+		fvals[j] = math.NaN()
 	}
 }
-- 
2.43.0


From 94221adcef3895f227b6ae21435cc0d86bd7925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 37/37] fix: load scikit-learn models that stopped early
 (n_estimators_)

---
 internal/pickle/sklearn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index ace23ff..bbcbcfc 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -297,7 +297,13 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 			return
 		}
 	}
-	t.NEstimators, err = dict.toInt("n_estimators")
+	// NOTE: n_estimators is a requested number of boosting stages, training with
+	// early stopping fits fewer of them (n_estimators_)
+	nEstimatorsKey := "n_estimators"
+	if _, found := dict["n_estimators_"]; found {
+		nEstimatorsKey = "n_estimators_"
+	}
+	t.NEstimators, err = dict.toInt(nEstimatorsKey)
 	if err != nil {
 		return
 	}
-- 
2.43.0

