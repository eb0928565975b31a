From 6d8c194cb3b5fbcb06353d1e76c60aa20613c5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 01/40] fix: report one feature (not zero) for models with a
 single feature

---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From d113a9437e11935984af4e192fcc01c0ab4ef3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:42 +0000
Subject: [PATCH 02/40] fix: name of the exponential transformation

---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 1612f92418d1babfd14d8e44bcd2017942e3e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/40] fix: softmax of large or very negative raw scores

---
 util/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..1add3e4 100644
--- a/util/util.go
+++ b/util/util.go
@@ -259,9 +259,14 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 }
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
+	// shift by the largest value, otherwise exponents could overflow (or all vanish)
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		max = math.Max(max, v)
+	}
 	sum := 0.0
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 54d0a4299e878aa65f0b3c3f3dd130e044a5d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 04/40] fix: reject ragged dense rows after a row without
 columns

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..d0c2dec 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -119,7 +119,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From bf8334dadecdf78a595a4c714c5bb08a6c4c7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 05/40] fix: do not drop the rest of a libsvm row after a
 double space

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index d0c2dec..744a954 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From 0f114b02f1b19573c4b8fbc2bd0c7d7169cd22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 06/40] fix: report failed writes from ToCsvFile

---
 mat/mat_io.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 744a954..20515e3 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -282,6 +282,11 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	defer f.Close()
 
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	if err := m.WriteStr(buf, delimiter); err != nil {
+		return err
+	}
+	if err := buf.Flush(); err != nil {
+		return err
+	}
+	return f.Close()
 }
-- 
2.43.0


From 9379c722762572494ddccb52b2c074053d5339cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 07/40] fix: skip all blank lines before a section of LightGBM
 text model

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 1add3e4..de8c9d4 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From bace25f2b45c2f84c1296f324e921566db03f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 08/40] fix: decode all escapes that python writes in protocol
 0 strings

---
 internal/pickle/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..6cabf07 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -195,6 +195,10 @@ func (d *Decoder) readLine() ([]byte, error) {
 func decodeUnicode(rawString []byte) Unicode {
 	// \u000a == \n
 	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
+	// \u0000 == NUL, \u000d == \r, \u001a == Ctrl-Z
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', '0'}, []byte{0x00}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '0', 'd'}, []byte{'\r'}, -1)
+	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '1', 'a'}, []byte{0x1a}, -1)
 	// \u005c' == \\
 	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
 	return Unicode(ret)
-- 
2.43.0


From d613866eddf494ddf5f8b141ed9f26f50a3b3589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 09/40] fix: pickle decoder accepts empty reads and data
 together with EOF

---
 internal/pickle/decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 6cabf07..6bf7595 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -30,7 +30,7 @@ func (d *Decoder) Decode() (interface{}, error) {
 	buf := make([]byte, 1024)
 loop:
 	for {
-		length, err := d.reader.Read(buf[:1])
+		length, err := io.ReadFull(d.reader, buf[:1])
 		if err != nil {
 			return nil, err
 		} else if length != 1 {
@@ -178,7 +178,7 @@ func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
 	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		len, err := io.ReadFull(d.reader, buf)
 		if err != nil {
 			return nil, err
 		} else if len != 1 {
-- 
2.43.0


From a78a723c2bae16f1caf197bb627a490f7687257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 10/40] fix: refuse a transformation that does not fit the
 number of output groups

---
 lgensemble_io.go | 3 +++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..db49297 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -379,6 +379,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.Type() != transformation.Raw && transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation function '%s' doesn't fit %d output groups", transform.Name(), e.nRawOutputGroups)
+	}
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := lgTreeFromReader(reader)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..43f0ca8 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -44,6 +44,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
 	}
+	if transform.Type() != transformation.Raw && transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation function '%s' doesn't fit %d output groups", transform.Name(), e.nRawOutputGroups)
+	}
 	return &Ensemble{e, transform}, nil
 }
 
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..8a81040 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -231,6 +231,10 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.Type() != transformation.Raw && transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation function '%s' doesn't fit %d output groups", transform.Name(), e.nRawOutputGroups)
+	}
+
 	nTrees := origModel.Param.NumTrees
 	if nTrees == 0 {
 		return nil, fmt.Errorf("no trees in model")
-- 
2.43.0


From 24ca6f6412af6b96cff2242ebf78fa3e7490135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 11/40] fix: refuse the sqrt link function of LightGBM
 regression instead of ignoring it

---
 lgensemble_io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index db49297..1f6dbab 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -357,6 +357,8 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
+		} else if strings.HasSuffix(objectiveStr, " sqrt") {
+			return nil, fmt.Errorf("unsupported transformation for objective '%s'", objectiveStr)
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
 			if err != nil {
-- 
2.43.0


From ec002693e4ca3dce17e38a6894952feab100938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 12/40] fix: refuse LightGBM linear trees instead of
 mispredicting

---
 lgensemble_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 1f6dbab..0c5a944 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -106,6 +106,14 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 	if err != nil {
 		return t, err
 	}
+	if params.Contains("is_linear") {
+		isLinear, err := params.ToInt("is_linear")
+		if err != nil {
+			return t, err
+		} else if isLinear != 0 {
+			return t, fmt.Errorf("trees with linear models in leaves are not supported")
+		}
+	}
 	numCategorical, err := params.ToInt("num_cat")
 	if err != nil {
 		return t, err
-- 
2.43.0


From 9e3344069503647c91348c26bdfdfb6a9f027ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 13/40] fix: number of features of sklearn models trained with
 max_features

---
 internal/pickle/sklearn.go | 9 +++++++++
 skensemble_io.go           | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..571c4ce 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -205,6 +205,7 @@ type SklearnGradientBoosting struct {
 	Classes       []int
 	NEstimators   int
 	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -287,6 +288,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
+	// max_features_ is a number of features considered per split, it could be less than n_features_
+	t.NFeatures = t.MaxFeatures
+	if _, found := dict["n_features_"]; found {
+		t.NFeatures, err = dict.toInt("n_features_")
+		if err != nil {
+			return
+		}
+	}
 	t.NEstimators, err = dict.toInt("n_estimators")
 	if err != nil {
 		return
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 79f078ccf0f7c3b940f04c7a0762f083ebe2d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 14/40] fix: number of leaves of sklearn trees with a single
 leaf

---
 skensemble_io.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..8b5ef12 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -30,14 +30,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 
 	if numNodes == 0 {
 		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// (tree without nodes always predicts its only leaf)
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From 595f093c647260c9a0e1ba2b7496c21733baf773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 15/40] fix: report an error on leaf predictions from linear
 models

---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index a718898..0c680d5 100644
--- a/leaves.go
+++ b/leaves.go
@@ -48,6 +48,9 @@ func (e *Ensemble) checkNEstimators(nEstimators int) error {
 		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
 			nEstimators, e.NEstimators())
 	}
+	if e.transform.Type() == transformation.LeafIndex && len(e.NLeaves()) == 0 {
+		return fmt.Errorf("leaf indices are not supported by %s", e.Name())
+	}
 	return nil
 }
 
-- 
2.43.0


From f377c824d5bb420118f1dbc1766faa19a4ad9f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 16/40] fix: skip missing values in gblinear models as XGBoost
 does

---
 xgblinear.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xgblinear.go b/xgblinear.go
index 95d109f..bf2ae6b 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -1,5 +1,7 @@
 package leaves
 
+import "math"
+
 // xgLinear is XGBoost model (gblinear)
 type xgLinear struct {
 	NumFeature       int
@@ -37,6 +39,10 @@ func (e *xgLinear) predictInner(fvals []float64, nIterations int, predictions []
 	for k := 0; k < e.nRawOutputGroups; k++ {
 		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
 		for i := 0; i < e.NumFeature; i++ {
+			if math.IsNaN(fvals[i]) {
+				// missing values don't contribute
+				continue
+			}
 			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
 		}
 	}
-- 
2.43.0


From a2da6a3c61bddde984e3d85176be3ef843486284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 17/40] fix: feature value equal to the split condition of
 XGBoost model goes right

---
 xgensemble_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 8a81040..b046357 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/xgbin"
@@ -60,7 +61,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if xgDefaultLeft(origNode) {
 			defaultType = defaultLeft
 		}
-		node = numericalNode(xgSplitIndex(origNode), missingType, float64(origNode.Info), defaultType)
+		// XGBoost goes left if value < threshold, but decision rule of lgTree is value <= threshold
+		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CLeft < 0")
-- 
2.43.0


From 2fa4162df05a59b15075774ae94e076d452557e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 18/40] fix: NaN is a mismatch while comparing slices

---
 util/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/util.go b/util/util.go
index de8c9d4..0f15527 100644
--- a/util/util.go
+++ b/util/util.go
@@ -226,7 +226,7 @@ func AlmostEqualFloat64Slices(a, b []float64, threshold float64) error {
 		return fmt.Errorf("different sizes: len(a) = %d, len(b) = %d", len(a), len(b))
 	}
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if a[i] != b[i] && !(math.Abs(a[i]-b[i]) <= threshold) {
 			return fmt.Errorf("%d element mismatch: a[%d] = %f, b[%d] = %f", i, i, a[i], i, b[i])
 		}
 	}
@@ -239,7 +239,7 @@ func NumMismatchedFloat64Slices(a, b []float64, threshold float64) (int, error)
 	}
 	count := 0
 	for i := range a {
-		if math.Abs(a[i]-b[i]) > threshold {
+		if a[i] != b[i] && !(math.Abs(a[i]-b[i]) <= threshold) {
 			count++
 		}
 	}
-- 
2.43.0


From 0bd21131c4945eb5a26855700fcb64722cfba64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 19/40] fix: report too short vals in PredictDense instead of
 panicking

---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index 0c680d5..230d608 100644
--- a/leaves.go
+++ b/leaves.go
@@ -202,6 +202,9 @@ func (e *Ensemble) PredictDense(
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
+	if len(vals) < nRows*ncols {
+		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
 	if err != nil {
-- 
2.43.0


From 635978598da8a72a11f311b70094defd7866f9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 20/40] fix: report inconsistent CSR arguments in PredictCSR
 instead of panicking

---
 leaves.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/leaves.go b/leaves.go
index 230d608..91bca98 100644
--- a/leaves.go
+++ b/leaves.go
@@ -109,6 +109,9 @@ func (e *Ensemble) PredictCSR(indptr []int, cols []int, vals []float64, predicti
 	if len(predictions) < e.NOutputGroups()*nRows {
 		return fmt.Errorf("predictions slice too short (should be at least %d)", e.NOutputGroups()*nRows)
 	}
+	if err := checkCSR(indptr, cols, vals); err != nil {
+		return err
+	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
 	if err != nil {
@@ -158,6 +161,22 @@ func (e *Ensemble) PredictCSR(indptr []int, cols []int, vals []float64, predicti
 	return nil
 }
 
+// checkCSR checks that rows of CSR matrix lie inside of `cols` and `vals`
+func checkCSR(indptr []int, cols []int, vals []float64) error {
+	for i := 0; i+1 < len(indptr); i++ {
+		start, end := indptr[i], indptr[i+1]
+		if start < 0 || end < start || end > len(cols) || end > len(vals) {
+			return fmt.Errorf("incorrect bounds of %d row (%d, %d)", i, start, end)
+		}
+		for j := start; j < end; j++ {
+			if cols[j] < 0 {
+				return fmt.Errorf("negative column index in %d row", i)
+			}
+		}
+	}
+	return nil
+}
+
 func (e *Ensemble) predictCSRInner(
 	indptr []int,
 	cols []int,
-- 
2.43.0


From aa5cdf6aa4e3db1710ddb1c5c6aeecfc5b378385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 21/40] fix: absent first or last value in files delimited by
 tabs or spaces

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 20515e3..2f2982a 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		// NOTE: leading and trailing delimiters (ex., tabs) are not garbage, they denote absent values
+		line = strings.TrimFunc(line, func(r rune) bool {
+			return unicode.IsSpace(r) && (r == '\n' || !strings.ContainsRune(delimiter, r))
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From 6b55f745b322f5cf658fa6b294d24254fd5bc7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 22/40] fix: refuse models with tree indices out of range

---
 lgensemble_io.go |  6 ++++++
 lgtree.go        | 35 +++++++++++++++++++++++++++++++++++
 skensemble_io.go |  3 +++
 xgensemble_io.go |  3 +++
 4 files changed, 47 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 0c5a944..d341e1a 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -398,6 +398,9 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
@@ -676,6 +679,9 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..f9a264e 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -104,6 +105,40 @@ func (t *lgTree) findInBitset(idx uint32, pos uint32) bool {
 	return (t.catThresholds[idxS+i1]>>i2)&1 > 0
 }
 
+// validate checks that prediction on any object with `nFeatures` features stays
+// inside of the tree's data and always ends up in a leaf
+func (t *lgTree) validate(nFeatures int) error {
+	if len(t.leafValues) == 0 {
+		return fmt.Errorf("tree without leaves")
+	}
+	for i := range t.nodes {
+		node := &t.nodes[i]
+		if int64(node.Feature) >= int64(nFeatures) {
+			return fmt.Errorf("wrong feature index %d in %d node", node.Feature, i)
+		}
+		if node.Flags&leftLeaf > 0 {
+			if int64(node.Left) >= int64(len(t.leafValues)) {
+				return fmt.Errorf("wrong left leaf index in %d node", i)
+			}
+		} else if int64(node.Left) <= int64(i) || int64(node.Left) >= int64(len(t.nodes)) {
+			return fmt.Errorf("wrong left child of %d node", i)
+		}
+		if node.Flags&rightLeaf > 0 {
+			if int64(node.Right) >= int64(len(t.leafValues)) {
+				return fmt.Errorf("wrong right leaf index in %d node", i)
+			}
+		} else if int64(node.Right) != int64(i)+1 || i+1 >= len(t.nodes) {
+			return fmt.Errorf("wrong right child of %d node", i)
+		}
+		if node.Flags&(categorical|catOneHot|catSmall) == categorical {
+			if int64(node.Threshold)+1 >= int64(len(t.catBoundaries)) {
+				return fmt.Errorf("wrong categories of %d node", i)
+			}
+		}
+	}
+	return nil
+}
+
 func (t *lgTree) nLeaves() int {
 	return len(t.nodes) + 1
 }
diff --git a/skensemble_io.go b/skensemble_io.go
index 8b5ef12..e521c18 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -159,6 +159,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			if err := tree.validate(e.NFeatures()); err != nil {
+				return nil, fmt.Errorf("error while reading %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
diff --git a/xgensemble_io.go b/xgensemble_io.go
index b046357..baa0012 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -250,6 +250,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		if err := tree.validate(e.NFeatures()); err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From 5dd7c75ea942d19066e1542725c7439337e9488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 23/40] fix: refuse malformed trees of LightGBM text models
 instead of panicking

---
 lgensemble_io.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index d341e1a..c8283b4 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -161,6 +161,16 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	if len(leftChilds) < numNodes || len(rightChilds) < numNodes || len(decisionTypes) < numNodes ||
+		len(splitFeatures) < numNodes || len(thresholds) < numNodes || len(leafValues) < numLeaves {
+		return t, fmt.Errorf("fields are too short for num_leaves = %d", numLeaves)
+	}
+	for i := 0; i < numNodes; i++ {
+		if int(leftChilds[i]) >= numNodes || int(rightChilds[i]) >= numNodes {
+			return t, fmt.Errorf("wrong child index of %d node", i)
+		}
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -205,7 +215,13 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0.0 && thresholds[idx] < float64(len(catBoundaries)-1)) {
+			return node, fmt.Errorf("wrong index of categories (%g)", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
+		if catBoundaries[catIdx] > catBoundaries[catIdx+1] || int64(catBoundaries[catIdx+1]) > int64(len(catThresholds)) {
+			return node, fmt.Errorf("wrong cat_boundaries")
+		}
 		catType := uint8(0)
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
 		thresholdSlice := catThresholds[catBoundaries[catIdx]:catBoundaries[catIdx+1]]
-- 
2.43.0


From 94c4d294eb8c24739723ee16faf29ce2eb30f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 24/40] fix: refuse malformed trees of LightGBM JSON models
 instead of panicking

---
 lgensemble_io.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c8283b4..b225963 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -488,6 +489,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		return t, fmt.Errorf("num_leaves < 1")
 	}
 	numNodes := treeJSON.NumLeaves - 1
+	if numNodes > len(raw) {
+		return t, fmt.Errorf("wrong num_leaves (%d)", treeJSON.NumLeaves)
+	}
 
 	treeJSON.Root, err = unmarshalNode(treeJSON.RootRaw)
 	if err != nil {
@@ -551,6 +555,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			if err != nil {
 				return node, fmt.Errorf("can't convert %s: %s", tokens[0], err.Error())
 			}
+			if value < 0 || value > math.MaxInt32 {
+				return node, fmt.Errorf("wrong category %d", value)
+			}
 			catIdx = uint32(value)
 			catType = catOneHot
 		} else {
@@ -560,6 +567,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 				if err != nil {
 					return node, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
 				}
+				if value < 0 || value > math.MaxInt32 {
+					return node, fmt.Errorf("wrong category %d", value)
+				}
 				thresholdValues[i] = value
 			}
 
@@ -615,6 +625,9 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	for len(stack) > 0 {
 		stackData := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
+		if len(t.nodes) >= numNodes {
+			return t, fmt.Errorf("more nodes than num_leaves (%d) allows", treeJSON.NumLeaves)
+		}
 		node, err := createNode(stackData.nodeJSON)
 		if err != nil {
 			return t, err
-- 
2.43.0


From 77a89265120c8d40667e934b1574b6353e0c2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 25/40] fix: read XGBoost models with absurd sizes without
 panics and huge allocations

---
 internal/xgbin/xgbin_io.go | 57 ++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..4485224 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -3,6 +3,7 @@ package xgbin
 import (
 	"bufio"
 	"encoding/binary"
+	"fmt"
 )
 
 // Most data structures from this packages are mirrors from original XGBoost
@@ -153,6 +154,16 @@ type GBLinearModel struct {
 	Weights []float32
 }
 
+// maxChunk limits number of elements allocated at once, because sizes in a broken file could be absurd
+const maxChunk = 1 << 16
+
+func chunkSize(size uint64) uint64 {
+	if size > maxChunk {
+		return maxChunk
+	}
+	return size
+}
+
 // ReadStruct - read arbitrary data structure from binary stream
 func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	err := binary.Read(reader, binary.LittleEndian, dst)
@@ -173,10 +184,14 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
-	if err != nil {
-		return "", err
+	bytes := []byte{}
+	for uint64(len(bytes)) < size {
+		chunk := make([]byte, chunkSize(size-uint64(len(bytes))))
+		err = binary.Read(reader, binary.LittleEndian, &chunk)
+		if err != nil {
+			return "", err
+		}
+		bytes = append(bytes, chunk...)
 	}
 	return string(bytes), nil
 }
@@ -192,10 +207,14 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
-	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
-	if err != nil {
-		return nil, err
+	vec := []float32{}
+	for uint64(len(vec)) < size {
+		chunk := make([]float32, chunkSize(size-uint64(len(vec))))
+		err = binary.Read(reader, binary.LittleEndian, &chunk)
+		if err != nil {
+			return nil, err
+		}
+		vec = append(vec, chunk...)
 	}
 	return vec, nil
 }
@@ -211,10 +230,14 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
-	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
-	if err != nil {
-		return nil, err
+	vec := []int32{}
+	for uint64(len(vec)) < size {
+		chunk := make([]int32, chunkSize(size-uint64(len(vec))))
+		err = binary.Read(reader, binary.LittleEndian, &chunk)
+		if err != nil {
+			return nil, err
+		}
+		vec = append(vec, chunk...)
 	}
 	return vec, nil
 }
@@ -249,6 +272,9 @@ func ReadGBTreeModel(reader *bufio.Reader) (*GBTreeModel, error) {
 		return nil, err
 	}
 
+	if gBTreeModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d)", gBTreeModel.Param.NumTrees)
+	}
 	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
 		tree, err := ReadTreeModel(reader)
 		if err != nil {
@@ -276,8 +302,11 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
+	if treeModel.Param.NumNodes < 0 {
+		return nil, fmt.Errorf("wrong number of nodes (%d)", treeModel.Param.NumNodes)
+	}
+	treeModel.Nodes = make([]Node, 0, chunkSize(uint64(treeModel.Param.NumNodes)))
+	treeModel.Stats = make([]RTreeNodeStat, 0, chunkSize(uint64(treeModel.Param.NumNodes)))
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
-- 
2.43.0


From 6f9584241688e110f4dd91a1a5fa8549c77c864e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 26/40] fix: refuse malformed XGBoost models instead of
 panicking

---
 xgensemble_io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index baa0012..887aa74 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -71,6 +71,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if origNode.CRight < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CRight < 0")
 		}
+		if origNode.CLeft >= numNodes || origNode.CRight >= numNodes {
+			return node, fmt.Errorf("child index is out of range")
+		}
 		if xgIsLeaf(&origTree.Nodes[origNode.CLeft]) {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -202,6 +205,13 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("wrong number of output groups (%d)", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees, e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
-- 
2.43.0


From 902881f28bbd0c506d9be978c29220665d686342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 27/40] fix: refuse gblinear models with wrong number of
 weights

---
 xgblinear_io.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xgblinear_io.go b/xgblinear_io.go
index 43f0ca8..7a31697 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("wrong number of output groups (%d)", e.nRawOutputGroups)
+	}
+	if uint64(len(e.Weights)) != (uint64(e.NumFeature)+1)*uint64(e.nRawOutputGroups) {
+		return nil, fmt.Errorf("wrong number of weights (%d) for %d features and %d output groups",
+			len(e.Weights), e.NumFeature, e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
-- 
2.43.0


From 2fdf3633b046d56cb6d975275568fc50b8a1c30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 28/40] fix: refuse sklearn models with malformed arrays
 instead of panicking

---
 internal/pickle/sklearn.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 571c4ce..fd82077 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,7 +72,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
@@ -179,6 +179,9 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
+	if len(nClassesRaw.Data) != 8 {
+		return fmt.Errorf("expected 8 bytes of n_classes_, got %d", len(nClassesRaw.Data))
+	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
 	t.MaxFeatures, err = dict.toInt("max_features_")
 	if err != nil {
@@ -269,7 +272,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
@@ -372,6 +375,9 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyScalar.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
+		if len(numpyScalar.Data) != 8 {
+			return fmt.Errorf("expected 8 bytes of prior, got %d", len(numpyScalar.Data))
+		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
 	} else if e.Name == "PriorProbabilityEstimator" {
 		dict, err := toDict(build.Args)
-- 
2.43.0


From 3b979320d0b0b703b6412a35d2d6d6f0ef0bc43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 29/40] fix: refuse sklearn models with malformed trees instead
 of panicking

---
 skensemble_io.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/skensemble_io.go b/skensemble_io.go
index e521c18..0922e1b 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/pickle"
@@ -14,6 +15,22 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	if len(tree.Tree.Nodes) == 0 || len(tree.Tree.Nodes) != tree.Tree.NNodes || len(tree.Tree.Values) < tree.Tree.NNodes {
+		return t, fmt.Errorf("unexpected number of nodes (%d, %d) or values (%d)",
+			tree.Tree.NNodes, len(tree.Tree.Nodes), len(tree.Tree.Values))
+	}
+	for i, n := range tree.Tree.Nodes {
+		if n.LeftChild < 0 {
+			continue
+		}
+		if n.LeftChild >= tree.Tree.NNodes || n.RightChild < 0 || n.RightChild >= tree.Tree.NNodes {
+			return t, fmt.Errorf("wrong child index of %d node", i)
+		}
+		if n.Feature < 0 || n.Feature > math.MaxInt32 {
+			return t, fmt.Errorf("wrong feature index of %d node", i)
+		}
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
@@ -120,6 +137,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		return nil, fmt.Errorf("error while parsing gradient boosting class: %s", err.Error())
 	}
 
+	if gbdt.NClasses < 2 {
+		return nil, fmt.Errorf("wrong number of classes (%d)", gbdt.NClasses)
+	}
 	e.nRawOutputGroups = gbdt.NClasses
 	if e.nRawOutputGroups == 2 {
 		e.nRawOutputGroups = 1
@@ -139,6 +159,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("len(gbdt.InitEstimator.Prior) != 1")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
-- 
2.43.0


From 0506ccfd6c9e31e42fb5cd009c473be4d74aafee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 30/40] fix: report malformed pickles instead of panicking

---
 internal/pickle/decoder.go |  6 ++++++
 internal/pickle/machine.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 6bf7595..98e4edc 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -38,6 +38,9 @@ loop:
 		}
 
 		nInstr++
+		if err := d.machine.check(buf[0]); err != nil {
+			return nil, err
+		}
 		switch buf[0] {
 		case opMark:
 			d.machine.pushMark()
@@ -53,6 +56,9 @@ loop:
 				return nil, err
 			}
 			obj := d.machine.getMemory(string(line))
+			if obj == nil {
+				return nil, fmt.Errorf("get: no object %s in memory", line)
+			}
 			d.machine.push(obj)
 		case opGlobal:
 			module, err := d.readLine()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..c6feaf4 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -28,6 +30,32 @@ func (m *machine) popMark() []interface{} {
 	return markedObjects
 }
 
+// check checks that there are enough objects on the stack to perform operation `op`
+func (m *machine) check(op byte) error {
+	depth := len(m.stack)
+	if len(m.marks) > 0 {
+		// objects below the topmost mark are out of reach
+		depth -= m.marks[len(m.marks)-1]
+	}
+	required := 0
+	switch op {
+	case opTuple, opList, opDict:
+		if len(m.marks) == 0 {
+			return fmt.Errorf("no mark on the stack for op code: %d", op)
+		}
+	case opPut, opStop:
+		required = 1
+	case opAppend, opReduce, opBuild:
+		required = 2
+	case opSetitem:
+		required = 3
+	}
+	if depth < required {
+		return fmt.Errorf("not enough objects on the stack for op code: %d", op)
+	}
+	return nil
+}
+
 func (m *machine) push(obj interface{}) {
 	m.stack = append(m.stack, obj)
 }
-- 
2.43.0


From 2a31fe5f84692d37ae1c894897eadc2e02726d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 31/40] fix: do not print self-referencing objects in error
 messages

---
 internal/pickle/decoder.go | 2 +-
 internal/pickle/numpy.go   | 8 ++++----
 internal/pickle/sklearn.go | 6 +++---
 internal/pickle/types.go   | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 98e4edc..7966ffa 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -132,7 +132,7 @@ loop:
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..77b954e 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -94,7 +94,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -134,7 +134,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -172,7 +172,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fd82077..fc9fc6f 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -153,7 +153,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -220,7 +220,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -347,7 +347,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple of %d elements", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..1d533a2 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -133,7 +133,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -145,7 +145,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
-- 
2.43.0


From 7f08a23b9265a92a9671c25091a7f8cf02639e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 32/40] fix: list changed after it was memorized in pickle

---
 internal/pickle/decoder.go | 8 +++-----
 internal/pickle/numpy.go   | 4 ++--
 internal/pickle/types.go   | 8 ++++----
 3 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 7966ffa..3f0ea71 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -109,16 +109,14 @@ loop:
 			d.machine.push(tuple)
 		case opList:
 			list := append(List{}, d.machine.popMark()...)
-			d.machine.push(list)
+			d.machine.push(&list)
 		case opAppend:
 			el := d.machine.pop()
-			obj := d.machine.pop()
-			list, err := toList(obj, -1)
+			list, err := toList(d.machine.back(), -1)
 			if err != nil {
 				return nil, err
 			}
-			list = append(list, el)
-			d.machine.push(list)
+			*list = append(*list, el)
 		case opUnicode:
 			line, err := d.readLine()
 			if err != nil {
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 77b954e..e1c934d 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -73,9 +73,9 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	case Build, Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
-	case List:
+	case *List:
 		// sometimes we've got data stored as python list (for array of python objects)
-		a.DataList = x
+		a.DataList = *x
 	default:
 		err = fmt.Errorf("unexpected type %T", args[4])
 	}
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 1d533a2..20b5dd9 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -70,13 +70,13 @@ func toTuple(obj interface{}, length int) (Tuple, error) {
 	return tuple, nil
 }
 
-func toList(obj interface{}, length int) (List, error) {
-	list, ok := obj.(List)
+func toList(obj interface{}, length int) (*List, error) {
+	list, ok := obj.(*List)
 	if !ok {
 		return nil, fmt.Errorf("expected List object (got %T)", obj)
 	}
-	if length > -1 && len(list) != length {
-		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(list))
+	if length > -1 && len(*list) != length {
+		return nil, fmt.Errorf("expected List with length %d (got %d)", length, len(*list))
 	}
 	return list, nil
 }
-- 
2.43.0


From f61c94c55f9ac308835a918344dd1e40c18e774b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 33/40] fix: object built after it was memorized in pickle

---
 internal/pickle/decoder.go | 5 ++++-
 internal/pickle/machine.go | 9 +++++++++
 internal/pickle/numpy.go   | 2 +-
 internal/pickle/types.go   | 4 ++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 3f0ea71..066cdaa 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -126,7 +126,7 @@ loop:
 		case opReduce:
 			args := d.machine.pop()
 			callable := d.machine.pop()
-			r := Reduce{Callable: callable}
+			r := &Reduce{Callable: callable}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
@@ -139,6 +139,9 @@ loop:
 			args := d.machine.pop()
 			obj := d.machine.pop()
 			b := Build{Object: obj, Args: args}
+			if r, ok := obj.(*Reduce); ok {
+				d.machine.replaceInMemory(r, b)
+			}
 			d.machine.push(b)
 		case opDict:
 			objs := d.machine.popMark()
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index c6feaf4..a0401c0 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -77,3 +77,12 @@ func (m *machine) putMemory(key string) {
 func (m *machine) getMemory(key string) interface{} {
 	return m.memory[key]
 }
+
+// replaceInMemory replaces memorized object `r` with `b`, because BUILD changes the object in place
+func (m *machine) replaceInMemory(r *Reduce, b Build) {
+	for key, obj := range m.memory {
+		if memorized, ok := obj.(*Reduce); ok && memorized == r {
+			m.memory[key] = b
+		}
+	}
+}
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index e1c934d..d6085d0 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -70,7 +70,7 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	}
 
 	switch x := args[4].(type) {
-	case Build, Reduce:
+	case Build, *Reduce:
 		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
 	case *List:
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 20b5dd9..ae63c56 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -111,11 +111,11 @@ func toBuild(obj interface{}) (Build, error) {
 
 func toReduce(obj interface{}) (Reduce, error) {
 	def := Reduce{}
-	reduce, ok := obj.(Reduce)
+	reduce, ok := obj.(*Reduce)
 	if !ok {
 		return def, fmt.Errorf("expected Reduce object (got %T)", obj)
 	}
-	return reduce, nil
+	return *reduce, nil
 }
 
 func (d *Dict) value(key string) (interface{}, error) {
-- 
2.43.0


From 30b2307f41d21e0252ffdaad43e3e6a803a678a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 34/40] fix: load XGBoost trees pruned down to a single leaf

---
 xgensemble_io.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 887aa74..f649be1 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -45,8 +45,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
+	if numNodes == 1 || xgIsLeaf(&origTree.Nodes[0]) {
 		// special case - constant value tree
+		// (other nodes, if any, were deleted while pruning)
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From 71aa3e44fbc0fcdc40973826fdea4017cefc6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 35/40] fix: reject matrix shapes with negative or overflowing
 dimensions

---
 mat/mat.go    | 16 ++++++++++++++--
 mat/mat_io.go |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/mat/mat.go b/mat/mat.go
index 4225938..a2fc033 100644
--- a/mat/mat.go
+++ b/mat/mat.go
@@ -24,11 +24,23 @@ func DenseMatZero(rows int, cols int) DenseMat {
 	}
 }
 
+// isShapeOf checks that `size` values fill matrix with shape `rows` by `cols`
+func isShapeOf(size int, rows int, cols int) bool {
+	if rows < 0 || cols < 0 {
+		return false
+	}
+	if rows == 0 || cols == 0 {
+		return size == 0
+	}
+	// NOTE: rows*cols could overflow
+	return size%rows == 0 && size/rows == cols
+}
+
 // DenseMatFromArray converts arrays of `values` to DenseMat using shape
 // information `rows` and `cols`
 func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
 	mat := DenseMat{}
-	if len(values) != cols*rows {
+	if !isShapeOf(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
@@ -56,7 +68,7 @@ func (m *CSRMat) Rows() int {
 // `rows` and `cols`. See also DenseMatFromArray to store dense data in matrix
 func CSRMatFromArray(values []float64, rows int, cols int) (CSRMat, error) {
 	mat := CSRMat{}
-	if len(values) != cols*rows {
+	if !isShapeOf(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
diff --git a/mat/mat_io.go b/mat/mat_io.go
index 2f2982a..50cb242 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -248,7 +248,7 @@ func readFromCsv(reader *bufio.Reader,
 
 // WriteStr writes matrix to CSV like format with field delimiter `delimiter`
 func (m *DenseMat) WriteStr(writer io.Writer, delimiter string) error {
-	if m.Cols*m.Rows != len(m.Values) {
+	if !isShapeOf(len(m.Values), m.Rows, m.Cols) {
 		return fmt.Errorf("matrix unconsistent")
 	}
 	if m.Cols == 0 || m.Rows == 0 {
-- 
2.43.0


From bab359e608fe1fb3773bd86d1a54707791222c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:35 +0000
Subject: [PATCH 36/40] fix: overflow of the matrix size in PredictDense

---
 leaves.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leaves.go b/leaves.go
index 91bca98..8d4d739 100644
--- a/leaves.go
+++ b/leaves.go
@@ -221,8 +221,8 @@ func (e *Ensemble) PredictDense(
 	if ncols == 0 || e.NFeatures() > ncols {
 		return fmt.Errorf("incorrect number of columns")
 	}
-	if len(vals) < nRows*ncols {
-		return fmt.Errorf("vals slice too short (should be at least %d)", nRows*ncols)
+	if nRows > len(vals)/ncols { // nRows*ncols could overflow
+		return fmt.Errorf("vals slice too short (should be at least %d rows by %d columns)", nRows, ncols)
 	}
 	nEstimators = e.adjustNEstimators(nEstimators)
 	err := e.checkNEstimators(nEstimators)
-- 
2.43.0


From baacb4b05f5eaa0e1b50b1fb6dd1cb6616f74bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 37/40] fix: refuse LightGBM text models cut in the middle of a
 line

---
 lgensemble_io.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index b225963..97dcc45 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -415,6 +415,12 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		// last line of the tree is cut in the middle, its value can't be trusted
+		if reader.UnreadByte() == nil {
+			if last, err := reader.ReadByte(); err == nil && last > ' ' {
+				return nil, fmt.Errorf("error while reading %d tree: %s", i, io.ErrUnexpectedEOF.Error())
+			}
+		}
 		if err := tree.validate(e.NFeatures()); err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
-- 
2.43.0


From 34b082b82d86eb3b889a930e9bdb12b0c34e00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:14 +0000
Subject: [PATCH 38/40] fix: rows after a blank line of matrix files were
 dropped

---
 mat/mat_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 50cb242..7798b0d 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -152,6 +152,10 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		}
 		line = strings.TrimSpace(line)
 		if line == "" {
+			if err == nil {
+				// blank line isn't the end of the file
+				continue
+			}
 			break
 		}
 		tokens := strings.Split(line, " ")
@@ -216,6 +220,10 @@ func readFromCsv(reader *bufio.Reader,
 			return unicode.IsSpace(r) && (r == '\n' || !strings.ContainsRune(delimiter, r))
 		})
 		if line == "" {
+			if err == nil {
+				// blank line isn't the end of the file
+				continue
+			}
 			break
 		}
 		tokens := strings.Split(line, delimiter)
-- 
2.43.0


From dcdc8005f26eb5583e59a19770c5fbf27e2ede2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 39/40] fix: refuse sklearn models with negative or absurd
 number of classes or outputs

---
 internal/pickle/sklearn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fc9fc6f..5d254e8 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -79,7 +79,7 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = make([]int, 0, len(arr.Data)/8)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -279,7 +279,7 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = make([]int, 0, len(arr.Data)/8)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
-- 
2.43.0


From 22d7a899f4862a1ef523dc1722e01326e60ba2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:02 +0000
Subject: [PATCH 40/40] fix: accept '=' in feature names of LightGBM text
 models

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index 0f15527..bf8c1f2 100644
--- a/util/util.go
+++ b/util/util.go
@@ -43,6 +43,10 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 	}
 	for {
 		tokens := strings.Split(line, "=")
+		if tokens[0] == "feature_names" {
+			// names could contain '='
+			tokens = strings.SplitN(line, "=", 2)
+		}
 		if len(tokens) > 2 {
 			return nil, fmt.Errorf("meet wrong format while reading params")
 		} else if len(tokens) == 2 {
-- 
2.43.0

