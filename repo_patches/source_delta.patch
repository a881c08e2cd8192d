From 25ff88c8983b5b4bd1efdcfa6f53cf16db3bd7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 01/32] fix: report the feature of single-feature tree models

NFeatures returned 0 for models with max_feature_idx = 0, so that rows
without any feature were accepted and PredictCSR panicked.
---
 lgensemble.go | 2 +-
 xgensemble.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgensemble.go b/lgensemble.go
index c45ba2c..18f0143 100644
--- a/lgensemble.go
+++ b/lgensemble.go
@@ -27,7 +27,7 @@ func (e *lgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *lgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
diff --git a/xgensemble.go b/xgensemble.go
index 35e3c51..2396e72 100644
--- a/xgensemble.go
+++ b/xgensemble.go
@@ -26,7 +26,7 @@ func (e *xgEnsemble) NRawOutputGroups() int {
 }
 
 func (e *xgEnsemble) NFeatures() int {
-	if e.MaxFeatureIdx > 0 {
+	if e.MaxFeatureIdx >= 0 {
 		return e.MaxFeatureIdx + 1
 	}
 	return 0
-- 
2.43.0


From e8c71c4087722c7028adb5239c4683c4eb5d5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 02/32] fix: name the exponential transformation

TransformExponential.Name returned "logistic" and
TransformType(Exponential).Name panicked.
---
 transformation/exponential.go    | 2 +-
 transformation/transformation.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/transformation/exponential.go b/transformation/exponential.go
index 87c1195..14491df 100644
--- a/transformation/exponential.go
+++ b/transformation/exponential.go
@@ -25,6 +25,6 @@ func (t *TransformExponential) Type() TransformType {
 }
 
 func (t *TransformExponential) Name() string {
-	return Logistic.Name()
+	return Exponential.Name()
 }
 
diff --git a/transformation/transformation.go b/transformation/transformation.go
index fe976eb..660e963 100644
--- a/transformation/transformation.go
+++ b/transformation/transformation.go
@@ -34,6 +34,7 @@ func (t TransformType) Name() string {
 		"logistic",
 		"softmax",
 		"leaf_index",
+		"exponential",
 	}
 	if t < Raw || t > Last {
 		return "unknown"
-- 
2.43.0


From 96bc47635720cdb41996aadcda0c6f614ff3c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 03/32] fix: keep softmax finite for large scores

---
 util/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 5aa0081..9a57f73 100644
--- a/util/util.go
+++ b/util/util.go
@@ -260,8 +260,13 @@ func SigmoidFloat64SliceInplace(vec []float64) {
 
 func SoftmaxFloat64Slice(rawValues []float64, outputValues []float64, startIndex int) {
 	sum := 0.0
+	// shift by the maximum to keep exponents from overflow and underflow
+	max := math.Inf(-1)
+	for _, v := range rawValues {
+		max = math.Max(max, v)
+	}
 	for i, v := range rawValues {
-		exp := math.Exp(v)
+		exp := math.Exp(v - max)
 		outputValues[startIndex+i] = exp
 		sum += exp
 	}
-- 
2.43.0


From 8e232e2e1685a15306b461e1f9dba58ea956b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 04/32] fix: send values equal to XGBoost's split condition
 right

XGBoost compares strictly, the trees were evaluated with <=.
---
 xgensemble_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index 5102dfc..fd44871 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/xgbin"
@@ -60,7 +61,9 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		if xgDefaultLeft(origNode) {
 			defaultType = defaultLeft
 		}
-		node = numericalNode(xgSplitIndex(origNode), missingType, float64(origNode.Info), defaultType)
+		// XGBoost goes left on `<`, lgTree goes left on `<=`
+		threshold := math.Nextafter(float64(origNode.Info), math.Inf(-1))
+		node = numericalNode(xgSplitIndex(origNode), missingType, threshold, defaultType)
 
 		if origNode.CLeft < 0 {
 			return node, fmt.Errorf("logic error: got origNode.CLeft < 0")
-- 
2.43.0


From 49f7cf0e750ede082129d39cdbad4cf2e39b8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 05/32] fix: load XGBoost trees pruned back to their root

---
 xgensemble_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xgensemble_io.go b/xgensemble_io.go
index fd44871..17eec16 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -45,8 +45,8 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 	// XGBoost doesn't support categorical features
 	t.nCategorical = 0
 
-	if numNodes == 1 {
-		// special case - constant value tree
+	if xgIsLeaf(&origTree.Nodes[0]) {
+		// special case - constant value tree (may keep deleted nodes after pruning)
 		t.leafValues = append(t.leafValues, float64(origTree.Nodes[0].Info))
 		return t, nil
 	}
-- 
2.43.0


From 839e9392ebb034af2ed80fc857d68086c4273be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 06/32] fix: take the number of features of sklearn models from
 n_features_

max_features_ is the number of features considered per split, so models
trained with max_features had too few features.
---
 internal/pickle/sklearn.go | 5 +++--
 skensemble_io.go           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index fb238e0..2ed8288 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -204,7 +204,7 @@ type SklearnGradientBoosting struct {
 	NClasses      int
 	Classes       []int
 	NEstimators   int
-	MaxFeatures   int
+	NFeatures     int
 	Estimators    []SklearnDecisionTreeRegressor
 	LearningRate  float64
 	InitEstimator SKlearnInitEstimator
@@ -283,7 +283,8 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if err != nil {
 		return
 	}
-	t.MaxFeatures, err = dict.toInt("max_features_")
+	// NOTE: `max_features_` is the number of features tried per split only
+	t.NFeatures, err = dict.toInt("n_features_")
 	if err != nil {
 		return
 	}
diff --git a/skensemble_io.go b/skensemble_io.go
index 18f9159..eddfca0 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -132,7 +132,7 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		e.nRawOutputGroups = 1
 	}
 
-	e.MaxFeatureIdx = gbdt.MaxFeatures - 1
+	e.MaxFeatureIdx = gbdt.NFeatures - 1
 
 	nTrees := gbdt.NEstimators
 	if nTrees == 0 {
-- 
2.43.0


From 7e596e435f0810f42a133c0b49c363cb9b4e34b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:12 +0000
Subject: [PATCH 07/32] fix: report one leaf for single-leaf sklearn trees

---
 skensemble_io.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/skensemble_io.go b/skensemble_io.go
index eddfca0..030fc0e 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -29,15 +29,7 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	}
 
 	if numNodes == 0 {
-		// special case
-		// we mimic decision rule but left and right childs lead to the same result
-		t.nodes = make([]lgNode, 0, 1)
-		node := numericalNode(0, 0, 0.0, 0)
-		node.Flags |= leftLeaf
-		node.Flags |= rightLeaf
-		node.Left = uint32(len(t.leafValues))
-		node.Right = uint32(len(t.leafValues))
-		t.nodes = append(t.nodes, node)
+		// special case - constant value tree
 		t.leafValues = append(t.leafValues, tree.Tree.Values[0]*scale+base)
 		return t, nil
 	}
-- 
2.43.0


From 92f0ccade2989fff18abfaa5d097b021a98be1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 08/32] fix: skip missing features in gblinear predictions

---
 xgblinear.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xgblinear.go b/xgblinear.go
index 95d109f..bf2ae6b 100644
--- a/xgblinear.go
+++ b/xgblinear.go
@@ -1,5 +1,7 @@
 package leaves
 
+import "math"
+
 // xgLinear is XGBoost model (gblinear)
 type xgLinear struct {
 	NumFeature       int
@@ -37,6 +39,10 @@ func (e *xgLinear) predictInner(fvals []float64, nIterations int, predictions []
 	for k := 0; k < e.nRawOutputGroups; k++ {
 		predictions[startIndex+k] = e.BaseScore + float64(e.Weights[e.nRawOutputGroups*e.NumFeature+k])
 		for i := 0; i < e.NumFeature; i++ {
+			if math.IsNaN(fvals[i]) {
+				// missing values don't contribute
+				continue
+			}
 			predictions[startIndex+k] += fvals[i] * float64(e.Weights[e.nRawOutputGroups*i+k])
 		}
 	}
-- 
2.43.0


From b63a55e12cf32a29e29a9c22f83e2c461aac951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 09/32] fix: skip all blank lines before a LightGBM section

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 9a57f73..5467f3e 100644
--- a/util/util.go
+++ b/util/util.go
@@ -37,7 +37,7 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
-		if line != "\n" {
+		if line != "" {
 			break
 		}
 	}
-- 
2.43.0


From d42a92a1132fd1c2b79c9f6da8e0ea793294f740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 10/32] fix: load LightGBM models with '=' in feature names

---
 util/util.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/util/util.go b/util/util.go
index 5467f3e..35c5c0a 100644
--- a/util/util.go
+++ b/util/util.go
@@ -42,10 +42,9 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 		}
 	}
 	for {
-		tokens := strings.Split(line, "=")
-		if len(tokens) > 2 {
-			return nil, fmt.Errorf("meet wrong format while reading params")
-		} else if len(tokens) == 2 {
+		// value may contain '=' (for example in feature names)
+		tokens := strings.SplitN(line, "=", 2)
+		if len(tokens) == 2 {
 			params[tokens[0]] = tokens[1]
 		} else if len(tokens) == 1 {
 			params[tokens[0]] = ""
-- 
2.43.0


From ae92056fe72b37d4b0b40cd6b760fedc59113f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 11/32] fix: keep libsvm entries after repeated spaces

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index db3ad42..7d2e36e 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -161,7 +161,7 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
 			if len(tokens[col]) == 0 {
-				break
+				continue
 			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
-- 
2.43.0


From bcced405f7e3ef0baa3e903b83842e020fc9d8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 12/32] fix: refuse ragged dense matrices with an empty first
 row

---
 mat/mat_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 7d2e36e..744a954 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -119,7 +119,7 @@ func recordsToDenseMat(mat *DenseMat, records []libsvmRecord) error {
 		}
 		mat.Values = append(mat.Values, r.value)
 	}
-	if mat.Cols == 0 {
+	if mat.Rows == 0 {
 		mat.Cols = len(records)
 	} else if mat.Cols != len(records) {
 		return fmt.Errorf("different number of columns (%d != %d)", mat.Cols, len(records))
-- 
2.43.0


From 40222e04dc70456c03ca43dad8cb516d3199ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:17 +0000
Subject: [PATCH 13/32] fix: report write errors of ToCsvFile

---
 mat/mat_io.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 744a954..d74dc60 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -279,9 +279,14 @@ func (m *DenseMat) ToCsvFile(filename string, delimiter string) error {
 	if err != nil {
 		return err
 	}
-	defer f.Close()
 
 	buf := bufio.NewWriter(f)
-	defer buf.Flush()
-	return m.WriteStr(buf, delimiter)
+	err = m.WriteStr(buf, delimiter)
+	if err == nil {
+		err = buf.Flush()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	return err
 }
-- 
2.43.0


From 668b8325a9063877be657f826de56a777f25bdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 14/32] fix: keep absent values at the ends of tab separated
 lines

---
 mat/mat_io.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index d74dc60..22b1409 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
 type libsvmRecord struct {
@@ -210,7 +211,10 @@ func readFromCsv(reader *bufio.Reader,
 		if err != nil && err != io.EOF {
 			return err
 		}
-		line = strings.TrimSpace(line)
+		line = strings.TrimFunc(line, func(r rune) bool {
+			// delimiters at the ends of the line surround absent values
+			return unicode.IsSpace(r) && !strings.ContainsRune(delimiter, r)
+		})
 		if line == "" {
 			break
 		}
-- 
2.43.0


From 415051ede5a49b71ffc4accb922ae3c1cbd5b9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:47 +0000
Subject: [PATCH 15/32] fix: decode all escapes of Python's pickled strings

Since Python 3.8 NUL, carriage return and \x1a are escaped too.
---
 internal/pickle/decoder.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 5653c78..4a25c75 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -1,7 +1,6 @@
 package pickle
 
 import (
-	"bytes"
 	"fmt"
 	"io"
 	"strconv"
@@ -192,11 +191,22 @@ func (d *Decoder) readLine() ([]byte, error) {
 	return line, nil
 }
 
+// decodeUnicode decodes raw-unicode-escape string. Python escapes backslashes,
+// new lines and (since 3.8) NULs, carriage returns and \x1a. Code points are
+// limited to one byte (latin1), all others are left escaped
 func decodeUnicode(rawString []byte) Unicode {
-	// \u000a == \n
-	ret := bytes.Replace(rawString, []byte{'\\', 'u', '0', '0', '0', 'a'}, []byte{'\n'}, -1)
-	// \u005c' == \\
-	ret = bytes.Replace(ret, []byte{'\\', 'u', '0', '0', '5', 'c'}, []byte{'\\'}, -1)
+	ret := make([]byte, 0, len(rawString))
+	for i := 0; i < len(rawString); i++ {
+		if i+6 <= len(rawString) && rawString[i] == '\\' && rawString[i+1] == 'u' {
+			code, err := strconv.ParseUint(string(rawString[i+2:i+6]), 16, 8)
+			if err == nil {
+				ret = append(ret, byte(code))
+				i += 5
+				continue
+			}
+		}
+		ret = append(ret, rawString[i])
+	}
 	return Unicode(ret)
 }
 
-- 
2.43.0


From 0fbf49980e71a464d6065dc31d9d9e6d88c2eea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 16/32] fix: refuse to load the transformation of 'regression
 sqrt' models

LightGBM squares their raw scores, they were returned untransformed.
---
 lgensemble_io.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index c25aa45..558d26c 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -357,6 +357,8 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
+		} else if objectiveStr == "regression sqrt" {
+			return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
 			if err != nil {
-- 
2.43.0


From 1c79cd1b305a81fc483f121e2cf2c68512a26801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 17/32] fix: refuse single output transformations of
 multi-output models

Such models were loaded, and their predictions were left unwritten.
---
 lgensemble_io.go | 4 ++++
 xgblinear_io.go  | 3 +++
 xgensemble_io.go | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 558d26c..255b1ea 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -381,6 +381,10 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		}
 	}
 
+	if transform.NOutputGroups() != e.nRawOutputGroups {
+		return nil, fmt.Errorf("transformation function '%s' doesn't fit num_class %d", transform.Name(), e.nRawOutputGroups)
+	}
+
 	e.Trees = make([]lgTree, 0, nTrees)
 	for i := 0; i < nTrees; i++ {
 		tree, err := lgTreeFromReader(reader)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 7c14333..0855197 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -43,6 +43,9 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
+		if e.nRawOutputGroups != 1 {
+			return nil, fmt.Errorf("'%s' with %d output groups", header.NameObj, e.nRawOutputGroups)
+		}
 	}
 	return &Ensemble{e, transform}, nil
 }
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 17eec16..54a87d6 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -232,6 +232,9 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		} else {
 			return nil, fmt.Errorf("unknown transformation function '%s'", header.NameObj)
 		}
+		if e.nRawOutputGroups != 1 {
+			return nil, fmt.Errorf("'%s' with %d output groups", header.NameObj, e.nRawOutputGroups)
+		}
 	}
 
 	nTrees := origModel.Param.NumTrees
-- 
2.43.0


From 968389df6c0fa6542d461ce0e12b818d6ee4cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 18/32] fix: refuse leaf index predictions of gblinear models

They succeeded without writing any prediction.
---
 leaves.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leaves.go b/leaves.go
index a718898..30ae90d 100644
--- a/leaves.go
+++ b/leaves.go
@@ -48,6 +48,9 @@ func (e *Ensemble) checkNEstimators(nEstimators int) error {
 		return fmt.Errorf("while predicting leaf indices all estimators should be used (provided num. of estimators = %d, should be %d)",
 			nEstimators, e.NEstimators())
 	}
+	if e.transform.Type() == transformation.LeafIndex && len(e.NLeaves()) == 0 {
+		return fmt.Errorf("%s doesn't support predicting leaf indices", e.Name())
+	}
 	return nil
 }
 
-- 
2.43.0


From 603b6de8959e8d2935b896f26e4c9b68f1cb09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 19/32] fix: check tree arrays of LightGBM text models

Truncated or contradictory arrays made loading or predicting panic, hang
or load a different tree.
---
 lgensemble_io.go | 41 +++++++++++++++++++++++++++++++++++++++++
 lgtree.go        | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 76 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 255b1ea..4dfca60 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -126,6 +126,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 	t.leafValues = leafValues
+	if len(leafValues) != numLeaves {
+		return t, fmt.Errorf("unexpected leaf_value length (got: %d, expected: %d)", len(leafValues), numLeaves)
+	}
 
 	if numLeaves == 1 {
 		// special case - constant value tree
@@ -153,6 +156,29 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		return t, err
 	}
 
+	for name, length := range map[string]int{
+		"left_child":    len(leftChilds),
+		"right_child":   len(rightChilds),
+		"decision_type": len(decisionTypes),
+		"split_feature": len(splitFeatures),
+		"threshold":     len(thresholds),
+	} {
+		if length != numNodes {
+			return t, fmt.Errorf("unexpected %s length (got: %d, expected: %d)", name, length, numNodes)
+		}
+	}
+	for i := 0; i < numNodes; i++ {
+		if int(^leftChilds[i]) >= numLeaves || int(^rightChilds[i]) >= numLeaves {
+			return t, fmt.Errorf("wrong leaf number in node %d", i)
+		}
+	}
+	err = checkLinks(numNodes, func(idx int) (int, int) {
+		return int(leftChilds[idx]), int(rightChilds[idx])
+	})
+	if err != nil {
+		return t, err
+	}
+
 	catThresholds := make([]uint32, 0)
 	catBoundaries := make([]uint32, 0)
 	if numCategorical > 0 {
@@ -166,6 +192,14 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 		if err != nil {
 			return t, err
 		}
+		if len(catBoundaries)-1 != numCategorical {
+			return t, fmt.Errorf("unexpected cat_boundaries length (got: %d, expected: %d)", len(catBoundaries), numCategorical+1)
+		}
+		for i := 0; i < numCategorical; i++ {
+			if catBoundaries[i] > catBoundaries[i+1] || int(catBoundaries[i+1]) > len(catThresholds) {
+				return t, fmt.Errorf("wrong cat_boundaries")
+			}
+		}
 	}
 
 	createNumericalNode := func(idx int32) (lgNode, error) {
@@ -197,6 +231,9 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 			return node, err
 		}
 
+		if !(thresholds[idx] >= 0 && thresholds[idx] < float64(numCategorical)) {
+			return node, fmt.Errorf("wrong number of categorical split (%f)", thresholds[idx])
+		}
 		catIdx := uint32(thresholds[idx])
 		catType := uint8(0)
 		bitsetSize := catBoundaries[catIdx+1] - catBoundaries[catIdx]
@@ -391,6 +428,10 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		err = tree.checkFeatures(e.NFeatures())
+		if err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
diff --git a/lgtree.go b/lgtree.go
index c2d9894..e6d92a1 100644
--- a/lgtree.go
+++ b/lgtree.go
@@ -1,6 +1,7 @@
 package leaves
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/dmitryikh/leaves/util"
@@ -112,6 +113,40 @@ func (t *lgTree) nNodes() int {
 	return len(t.nodes)
 }
 
+// checkLinks walks over a tree of `numNodes` nodes from its root (node 0) and
+// checks that every met node exists and has only one parent. `children` returns
+// child nodes of the node (negative for absent ones)
+func checkLinks(numNodes int, children func(idx int) (int, int)) error {
+	visited := make([]bool, numNodes)
+	visited[0] = true
+	stack := []int{0}
+	for len(stack) > 0 {
+		left, right := children(stack[len(stack)-1])
+		stack = stack[:len(stack)-1]
+		for _, idx := range [2]int{left, right} {
+			if idx < 0 {
+				continue
+			}
+			if idx >= numNodes || visited[idx] {
+				return fmt.Errorf("wrong link to node %d", idx)
+			}
+			visited[idx] = true
+			stack = append(stack, idx)
+		}
+	}
+	return nil
+}
+
+// checkFeatures checks that the tree uses only first `nFeatures` features
+func (t *lgTree) checkFeatures(nFeatures int) error {
+	for i := range t.nodes {
+		if int(t.nodes[i].Feature) >= nFeatures {
+			return fmt.Errorf("split feature %d, but number of features %d", t.nodes[i].Feature, nFeatures)
+		}
+	}
+	return nil
+}
+
 func isZero(fval float64) bool {
 	return (fval > -zeroThreshold && fval <= zeroThreshold)
 }
-- 
2.43.0


From d9d5661f1cfcc34ec79163209925acc29ca0b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 20/32] fix: check trees of LightGBM JSON models

A wrong num_leaves or num_cat, negative categories and features out of
range made loading or predicting panic, hang or go astray.
---
 lgensemble_io.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 4dfca60..cee0717 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -483,6 +483,15 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 	return node, nil
 }
 
+// countNodes returns number of nodes with decision rule in the tree
+func countNodes(node interface{}) int {
+	nodeJSON, ok := node.(*lgNodeJSON)
+	if !ok {
+		return 0
+	}
+	return 1 + countNodes(nodeJSON.LeftChild) + countNodes(nodeJSON.RightChild)
+}
+
 // unmarshalTree unmarshal tree data from JSON raw data and convert it to `lgTree` structure
 func unmarshalTree(raw []byte) (lgTree, error) {
 	t := lgTree{}
@@ -494,10 +503,8 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 	}
 
 	t.nCategorical = treeJSON.NumCat
-	if t.nCategorical > 0 {
-		// first element set to zero for consistency
-		t.catBoundaries = make([]uint32, 1)
-	}
+	// first element set to zero for consistency
+	t.catBoundaries = make([]uint32, 1)
 
 	if treeJSON.NumLeaves < 1 {
 		return t, fmt.Errorf("num_leaves < 1")
@@ -562,7 +569,7 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		if nBits == 0 {
 			return node, fmt.Errorf("no bits set")
 		} else if nBits == 1 {
-			value, err := strconv.Atoi(tokens[0])
+			value, err := strconv.ParseUint(tokens[0], 10, 31)
 			if err != nil {
 				return node, fmt.Errorf("can't convert %s: %s", tokens[0], err.Error())
 			}
@@ -571,11 +578,11 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		} else {
 			thresholdValues := make([]int, len(tokens))
 			for i, valueStr := range tokens {
-				value, err := strconv.Atoi(valueStr)
+				value, err := strconv.ParseUint(valueStr, 10, 31)
 				if err != nil {
 					return node, fmt.Errorf("can't convert %s: %s", valueStr, err.Error())
 				}
-				thresholdValues[i] = value
+				thresholdValues[i] = int(value)
 			}
 
 			bitset := util.ConstructBitset(thresholdValues)
@@ -618,8 +625,11 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 		parentPtr *uint32
 		nodeJSON  *lgNodeJSON
 	}
-	stack := make([]StackData, 0, numNodes)
+	stack := make([]StackData, 0)
 	if root, ok := treeJSON.Root.(*lgNodeJSON); ok {
+		if countNodes(root) != numNodes {
+			return t, fmt.Errorf("num_leaves (%d) doesn't fit tree_structure", treeJSON.NumLeaves)
+		}
 		stack = append(stack, StackData{nil, root})
 	} else {
 		return t, fmt.Errorf("unexpected type of Root: %T", treeJSON.Root)
@@ -710,6 +720,10 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		err = tree.checkFeatures(e.NFeatures())
+		if err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, &transformation.TransformRaw{e.nRawOutputGroups}}, nil
-- 
2.43.0


From 7ea297c0c887406988f8319e6439693de5d11167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 21/32] fix: check sizes, links and counts of XGBoost models

Corrupted sizes, node links, class and weight counts made loading or
predicting panic, hang or allocate without bounds.
---
 internal/xgbin/xgbin_io.go | 44 ++++++++++++++++++++++++++++++++------
 xgblinear_io.go            |  7 ++++++
 xgensemble_io.go           | 22 +++++++++++++++++++
 3 files changed, 67 insertions(+), 6 deletions(-)

diff --git a/internal/xgbin/xgbin_io.go b/internal/xgbin/xgbin_io.go
index c2bd9fd..9615584 100644
--- a/internal/xgbin/xgbin_io.go
+++ b/internal/xgbin/xgbin_io.go
@@ -2,7 +2,11 @@ package xgbin
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/binary"
+	"fmt"
+	"io"
+	"math"
 )
 
 // Most data structures from this packages are mirrors from original XGBoost
@@ -162,6 +166,23 @@ func ReadStruct(reader *bufio.Reader, dst interface{}) error {
 	return nil
 }
 
+// readBytes reads `size` elements of `elementSize` bytes. `size` comes from the
+// stream, so memory is allocated only as data arrives
+func readBytes(reader *bufio.Reader, size uint64, elementSize uint64) ([]byte, error) {
+	if size > math.MaxInt64/elementSize {
+		return nil, fmt.Errorf("too large size: %d", size)
+	}
+	buf := &bytes.Buffer{}
+	_, err := io.CopyN(buf, reader, int64(size*elementSize))
+	if err == io.EOF {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 // ReadString - read ascii string from binary stream
 // from dmlc-core/include/dmlc/serializer.h
 func ReadString(reader *bufio.Reader) (string, error) {
@@ -173,8 +194,7 @@ func ReadString(reader *bufio.Reader) (string, error) {
 	if size == 0 {
 		return "", nil
 	}
-	bytes := make([]byte, size)
-	err = binary.Read(reader, binary.LittleEndian, &bytes)
+	bytes, err := readBytes(reader, size, 1)
 	if err != nil {
 		return "", err
 	}
@@ -192,8 +212,12 @@ func ReadFloat32Slice(reader *bufio.Reader) ([]float32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	data, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]float32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -211,8 +235,12 @@ func ReadInt32Slice(reader *bufio.Reader) ([]int32, error) {
 	if size == 0 {
 		return nil, nil
 	}
+	data, err := readBytes(reader, size, 4)
+	if err != nil {
+		return nil, err
+	}
 	vec := make([]int32, size)
-	err = binary.Read(reader, binary.LittleEndian, &vec)
+	err = binary.Read(bytes.NewReader(data), binary.LittleEndian, &vec)
 	if err != nil {
 		return nil, err
 	}
@@ -249,6 +277,9 @@ func ReadGBTreeModel(reader *bufio.Reader) (*GBTreeModel, error) {
 		return nil, err
 	}
 
+	if gBTreeModel.Param.NumTrees < 0 {
+		return nil, fmt.Errorf("negative number of trees: %d", gBTreeModel.Param.NumTrees)
+	}
 	for i := int32(0); i < gBTreeModel.Param.NumTrees; i++ {
 		tree, err := ReadTreeModel(reader)
 		if err != nil {
@@ -276,8 +307,9 @@ func ReadTreeModel(reader *bufio.Reader) (*TreeModel, error) {
 	if err != nil {
 		return nil, err
 	}
-	treeModel.Nodes = make([]Node, 0, treeModel.Param.NumNodes)
-	treeModel.Stats = make([]RTreeNodeStat, 0, treeModel.Param.NumNodes)
+	if treeModel.Param.NumNodes < 0 {
+		return nil, fmt.Errorf("negative number of nodes: %d", treeModel.Param.NumNodes)
+	}
 	for i := int32(0); i < treeModel.Param.NumNodes; i++ {
 		node := Node{}
 		err := ReadStruct(reader, &node)
diff --git a/xgblinear_io.go b/xgblinear_io.go
index 0855197..1708718 100644
--- a/xgblinear_io.go
+++ b/xgblinear_io.go
@@ -34,6 +34,13 @@ func XGBLinearFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensemb
 	e.nRawOutputGroups = int(gbLinearModel.Param.NumOutputGroup)
 	e.NumFeature = int(gbLinearModel.Param.NumFeature)
 	e.Weights = gbLinearModel.Weights
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if len(e.Weights) != (e.NumFeature+1)*e.nRawOutputGroups {
+		return nil, fmt.Errorf("unexpected number of weights %d for %d features and %d output groups",
+			len(e.Weights), e.NumFeature, e.nRawOutputGroups)
+	}
 
 	var transform transformation.Transform
 	transform = &transformation.TransformRaw{e.nRawOutputGroups}
diff --git a/xgensemble_io.go b/xgensemble_io.go
index 54a87d6..2d0de6b 100644
--- a/xgensemble_io.go
+++ b/xgensemble_io.go
@@ -51,6 +51,17 @@ func xgTreeFromTreeModel(origTree *xgbin.TreeModel, numFeatures uint32) (lgTree,
 		return t, nil
 	}
 
+	err := checkLinks(len(origTree.Nodes), func(idx int) (int, int) {
+		node := &origTree.Nodes[idx]
+		if xgIsLeaf(node) {
+			return -1, -1
+		}
+		return int(node.CLeft), int(node.CRight)
+	})
+	if err != nil {
+		return t, err
+	}
+
 	createNode := func(origNode *xgbin.Node) (lgNode, error) {
 		node := lgNode{}
 		// count nan as missing value
@@ -202,6 +213,13 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	// 		header.Param.NumClass, origModel.Param.NumOutputGroup)
 	// }
 	e.nRawOutputGroups = int(origModel.Param.NumOutputGroup)
+	if e.nRawOutputGroups < 1 {
+		return nil, fmt.Errorf("number of output groups (%d) should be > 0", e.nRawOutputGroups)
+	}
+	if int(origModel.Param.NumTrees)%e.nRawOutputGroups != 0 {
+		return nil, fmt.Errorf("wrong number of trees (%d) for number of output groups (%d)",
+			origModel.Param.NumTrees, e.nRawOutputGroups)
+	}
 	if origModel.Param.NumRoots != 1 {
 		return nil, fmt.Errorf("support only trees with 1 root (got %d)", origModel.Param.NumRoots)
 	}
@@ -249,6 +267,10 @@ func XGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 		if err != nil {
 			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
 		}
+		err = tree.checkFeatures(e.NFeatures())
+		if err != nil {
+			return nil, fmt.Errorf("error while reading %d tree: %s", i, err.Error())
+		}
 		e.Trees = append(e.Trees, tree)
 	}
 	return &Ensemble{e, transform}, nil
-- 
2.43.0


From a288079d34f21a4c0f3bf44128b33eef34071415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:54 +0000
Subject: [PATCH 22/32] fix: check consistency of sklearn pickles

Stack underflows, short scalars and arrays, wrong node links and counts
made loading or predicting panic or hang.
---
 internal/pickle/decoder.go |  8 ++++++--
 internal/pickle/machine.go | 19 +++++++++++++++++--
 internal/pickle/numpy.go   |  8 ++++----
 internal/pickle/sklearn.go | 25 +++++++++++++++++--------
 internal/pickle/types.go   |  4 ++--
 skensemble_io.go           | 29 +++++++++++++++++++++++++++++
 6 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index 4a25c75..dbd7ff8 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -125,7 +125,7 @@ loop:
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
-				return nil, fmt.Errorf("reduce: unexpected args %v", args)
+				return nil, fmt.Errorf("reduce: unexpected args %T", args)
 			}
 			d.machine.push(r)
 		case opNone:
@@ -169,8 +169,12 @@ loop:
 		default:
 			return nil, fmt.Errorf("unknown op code: %d", buf[0])
 		}
+		if d.machine.err != nil {
+			return nil, d.machine.err
+		}
 	}
-	return d.machine.back(), nil
+	res := d.machine.back()
+	return res, d.machine.err
 }
 
 func (d *Decoder) readLine() ([]byte, error) {
diff --git a/internal/pickle/machine.go b/internal/pickle/machine.go
index 2b9c498..05ccb7c 100644
--- a/internal/pickle/machine.go
+++ b/internal/pickle/machine.go
@@ -1,5 +1,7 @@
 package pickle
 
+import "fmt"
+
 // machine represents pickle abstract machine with stack, marks and
 // memory. It's used to represent unpickled object state while reading pickle file
 // command by command
@@ -7,6 +9,8 @@ type machine struct {
 	stack  []interface{}
 	memory map[string]interface{}
 	marks  []int
+	// err is set by operations which need more objects than the stack has
+	err error
 }
 
 func newPickleMachine() *machine {
@@ -21,6 +25,10 @@ func (m *machine) pushMark() {
 }
 
 func (m *machine) popMark() []interface{} {
+	if len(m.marks) == 0 || m.marks[len(m.marks)-1] > len(m.stack) {
+		m.err = fmt.Errorf("no mark on the stack")
+		return nil
+	}
 	idx := m.marks[len(m.marks)-1]
 	m.marks = m.marks[:len(m.marks)-1]
 	markedObjects := m.stack[idx:len(m.stack)]
@@ -33,17 +41,24 @@ func (m *machine) push(obj interface{}) {
 }
 
 func (m *machine) pop() interface{} {
-	obj := m.stack[len(m.stack)-1]
+	obj := m.back()
+	if m.err != nil {
+		return nil
+	}
 	m.stack = m.stack[:len(m.stack)-1]
 	return obj
 }
 
 func (m *machine) back() interface{} {
+	if len(m.stack) == 0 {
+		m.err = fmt.Errorf("empty stack")
+		return nil
+	}
 	return m.stack[len(m.stack)-1]
 }
 
 func (m *machine) putMemory(key string) {
-	m.memory[key] = m.stack[len(m.stack)-1]
+	m.memory[key] = m.back()
 }
 
 func (m *machine) getMemory(key string) interface{} {
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 85c98bb..9c67f53 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -21,7 +21,7 @@ func (a *NumpyArrayRaw) Reduce(reduce Reduce) (err error) {
 	}
 
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "numpy", "ndarray")
 	if err != nil {
@@ -94,7 +94,7 @@ func (b *NumpyRawBytes) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -134,7 +134,7 @@ func (d *NumpyDType) Reduce(reduce Reduce) error {
 		return err
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	unicode, err := toUnicode(reduce.Args[0], -1)
 	if err != nil {
@@ -172,7 +172,7 @@ func (s *NumpyScalarRaw) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 2 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	err = ParseClass(&s.Type, reduce.Args[0])
 	if err != nil {
diff --git a/internal/pickle/sklearn.go b/internal/pickle/sklearn.go
index 2ed8288..4482d1b 100644
--- a/internal/pickle/sklearn.go
+++ b/internal/pickle/sklearn.go
@@ -72,14 +72,14 @@ func (t *SklearnTree) Reduce(reduce Reduce) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NOutputs {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NOutputs {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NOutputs, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NOutputs)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -153,7 +153,7 @@ func (t *SklearnDecisionTreeRegressor) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.tree.tree", "DecisionTreeRegressor")
 	if err != nil {
@@ -179,6 +179,9 @@ func (t *SklearnDecisionTreeRegressor) Build(build Build) (err error) {
 	if nClassesRaw.Type.Type != "i8" || !nClassesRaw.Type.LittleEndinan {
 		return fmt.Errorf("expected little endian i8, got (%#v)", nClassesRaw.Type)
 	}
+	if len(nClassesRaw.Data) != 8 {
+		return fmt.Errorf("expected 8 bytes, got %d", len(nClassesRaw.Data))
+	}
 	t.NClasses = int(binary.LittleEndian.Uint64(nClassesRaw.Data))
 	t.MaxFeatures, err = dict.toInt("max_features_")
 	if err != nil {
@@ -216,7 +219,7 @@ func (t *SklearnGradientBoosting) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	_, err = toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "GradientBoostingClassifier")
 	if err != nil {
@@ -268,14 +271,14 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 		return err
 	}
 
-	if len(arr.Shape) != 1 && arr.Shape[0] != t.NClasses {
+	if len(arr.Shape) != 1 || arr.Shape[0] != t.NClasses {
 		return fmt.Errorf("expected 1 dim array with %d values (got: %v)", t.NClasses, arr.Shape)
 	}
 	if arr.Type.Type != "i8" || arr.Type.LittleEndinan != true {
 		return fmt.Errorf("expected ndtype \"i8\" little endian (got: %#v)", arr.Type)
 	}
 
-	t.Classes = make([]int, 0, t.NClasses)
+	t.Classes = make([]int, 0)
 	err = arr.Data.Iterate(8, func(b []byte) error {
 		t.Classes = append(t.Classes, int(binary.LittleEndian.Uint64(b)))
 		return nil
@@ -312,7 +315,10 @@ func (t *SklearnGradientBoosting) Build(build Build) (err error) {
 	if len(arr.Shape) != 2 || arr.Shape[0] != t.NEstimators || arr.Shape[1] != adjNClasses {
 		return fmt.Errorf("unexpected shape: %#v", arr.Shape)
 	}
-	if len(arr.DataList) != arr.Shape[0]*arr.Shape[1] {
+	if t.NEstimators < 1 || t.NClasses < 2 {
+		return fmt.Errorf("unexpected number of estimators (%d) or classes (%d)", t.NEstimators, t.NClasses)
+	}
+	if len(arr.DataList)%arr.Shape[1] != 0 || len(arr.DataList)/arr.Shape[1] != arr.Shape[0] {
 		return fmt.Errorf("unexpected array list length")
 	}
 	t.Estimators = make([]SklearnDecisionTreeRegressor, arr.Shape[0]*arr.Shape[1])
@@ -336,7 +342,7 @@ func (e *SKlearnInitEstimator) Reduce(reduce Reduce) (err error) {
 		return
 	}
 	if len(reduce.Args) != 3 {
-		return fmt.Errorf("not expected tuple: %#v", reduce.Args)
+		return fmt.Errorf("not expected tuple length: %d", len(reduce.Args))
 	}
 	classDesc, err := toGlobal(reduce.Args[0], "sklearn.ensemble.gradient_boosting", "")
 	if err != nil {
@@ -364,6 +370,9 @@ func (e *SKlearnInitEstimator) Build(build Build) (err error) {
 		if numpyScalar.Type.Type != "f8" {
 			return fmt.Errorf("expected f8, got (%#v)", numpyScalar.Type)
 		}
+		if len(numpyScalar.Data) != 8 {
+			return fmt.Errorf("expected 8 bytes, got %d", len(numpyScalar.Data))
+		}
 		e.Prior = append(e.Prior, util.Float64FromBytes(numpyScalar.Data, numpyScalar.Type.LittleEndinan))
 	} else if e.Name == "PriorProbabilityEstimator" {
 		dict, err := toDict(build.Args)
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 54c6c38..1d533a2 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -133,7 +133,7 @@ func (d *Dict) toInt(key string) (int, error) {
 	}
 	intValue, ok := value.(int)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return intValue, nil
 }
@@ -145,7 +145,7 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	}
 	floatValue, ok := value.(float64)
 	if !ok {
-		return 0, fmt.Errorf("expected int (got %#v)", value)
+		return 0, fmt.Errorf("expected int (got %T)", value)
 	}
 	return floatValue, nil
 }
diff --git a/skensemble_io.go b/skensemble_io.go
index 030fc0e..3dcf52d 100644
--- a/skensemble_io.go
+++ b/skensemble_io.go
@@ -3,6 +3,7 @@ package leaves
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 
 	"github.com/dmitryikh/leaves/internal/pickle"
@@ -14,6 +15,21 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	// no support for categorical features in sklearn trees
 	t.nCategorical = 0
 
+	nodes := tree.Tree.Nodes
+	if len(nodes) == 0 || len(nodes) != tree.Tree.NNodes || len(nodes) != len(tree.Tree.Values) {
+		return t, fmt.Errorf("unexpected number of nodes (%d), node_count (%d) or values (%d)",
+			len(nodes), tree.Tree.NNodes, len(tree.Tree.Values))
+	}
+	err := checkLinks(len(nodes), func(idx int) (int, int) {
+		if nodes[idx].LeftChild < 0 {
+			return -1, -1
+		}
+		return nodes[idx].LeftChild, nodes[idx].RightChild
+	})
+	if err != nil {
+		return t, err
+	}
+
 	numLeaves := 0
 	numNodes := 0
 	for _, n := range tree.Tree.Nodes {
@@ -38,6 +54,12 @@ func lgTreeFromSklearnDecisionTreeRegressor(tree pickle.SklearnDecisionTreeRegre
 	createNode := func(idx int) (lgNode, error) {
 		node := lgNode{}
 		refNode := &tree.Tree.Nodes[idx]
+		if refNode.LeftChild < 0 || refNode.RightChild < 0 {
+			return node, fmt.Errorf("node %d has only one child", idx)
+		}
+		if refNode.Feature < 0 || refNode.Feature > math.MaxInt32 {
+			return node, fmt.Errorf("wrong split feature %d", refNode.Feature)
+		}
 		missingType := uint8(0)
 		defaultType := uint8(0)
 		node = numericalNode(uint32(refNode.Feature), missingType, refNode.Threshold, defaultType)
@@ -138,6 +160,9 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 	scale := gbdt.LearningRate
 	base := make([]float64, e.nRawOutputGroups)
 	if gbdt.InitEstimator.Name == "LogOddsEstimator" {
+		if len(gbdt.InitEstimator.Prior) != 1 {
+			return nil, fmt.Errorf("no prior in initial estimator")
+		}
 		for i := 0; i < e.nRawOutputGroups; i++ {
 			base[i] = gbdt.InitEstimator.Prior[0]
 		}
@@ -158,6 +183,10 @@ func SKEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 			if err != nil {
 				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
 			}
+			err = tree.checkFeatures(e.NFeatures())
+			if err != nil {
+				return nil, fmt.Errorf("error while creating %d tree: %s", treeNum, err.Error())
+			}
 			e.Trees = append(e.Trees, tree)
 		}
 		for k := range base {
-- 
2.43.0


From 2160591774d1eba001c25bd21e977f729d5a6296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 23/32] fix: accept integer learning rates of sklearn models

---
 internal/pickle/types.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 1d533a2..0b6580e 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -143,11 +143,14 @@ func (d *Dict) toFloat(key string) (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	floatValue, ok := value.(float64)
-	if !ok {
-		return 0, fmt.Errorf("expected int (got %T)", value)
-	}
-	return floatValue, nil
+	switch x := value.(type) {
+	case float64:
+		return x, nil
+	case int:
+		// parameters given as integers (learning_rate=1) stay integers in python
+		return float64(x), nil
+	}
+	return 0, fmt.Errorf("expected float (got %T)", value)
 }
 
 // ParseClass calls PythonClass's Reduce and Build methods
-- 
2.43.0


From 823b5ccc8f77be1c75959e8e5b803af04e1bdf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 24/32] fix: refuse negative and overflowing dimensions of
 matrices

---
 mat/mat.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mat/mat.go b/mat/mat.go
index 4225938..e9d48b7 100644
--- a/mat/mat.go
+++ b/mat/mat.go
@@ -24,11 +24,22 @@ func DenseMatZero(rows int, cols int) DenseMat {
 	}
 }
 
+// fitDimensions checks that `n` values make `rows` by `cols` matrix
+func fitDimensions(n int, rows int, cols int) bool {
+	if rows < 0 || cols < 0 {
+		return false
+	}
+	if rows == 0 || cols == 0 {
+		return n == 0
+	}
+	return n%cols == 0 && n/cols == rows
+}
+
 // DenseMatFromArray converts arrays of `values` to DenseMat using shape
 // information `rows` and `cols`
 func DenseMatFromArray(values []float64, rows int, cols int) (DenseMat, error) {
 	mat := DenseMat{}
-	if len(values) != cols*rows {
+	if !fitDimensions(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
@@ -56,7 +67,7 @@ func (m *CSRMat) Rows() int {
 // `rows` and `cols`. See also DenseMatFromArray to store dense data in matrix
 func CSRMatFromArray(values []float64, rows int, cols int) (CSRMat, error) {
 	mat := CSRMat{}
-	if len(values) != cols*rows {
+	if !fitDimensions(len(values), rows, cols) {
 		return mat, fmt.Errorf("wrong dimensions")
 	}
 	mat.Values = append(mat.Values, values...)
-- 
2.43.0


From 8be7668329367084b91761d99a5551cef2739886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 25/32] fix: decode shared objects of sklearn pickles

---
 internal/pickle/decoder.go | 10 +++++++--
 internal/pickle/numpy.go   |  4 ++--
 internal/pickle/types.go   | 43 +++++++++++++-------------------------
 3 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index dbd7ff8..c6d1583 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -121,7 +121,7 @@ loop:
 		case opReduce:
 			args := d.machine.pop()
 			callable := d.machine.pop()
-			r := Reduce{Callable: callable}
+			r := &Reduce{Callable: callable}
 			if t, ok := args.(Tuple); ok {
 				r.Args = t
 			} else {
@@ -134,7 +134,13 @@ loop:
 			args := d.machine.pop()
 			obj := d.machine.pop()
 			b := Build{Object: obj, Args: args}
-			d.machine.push(b)
+			if r, ok := obj.(*Reduce); ok && r.Build == nil {
+				// the object may be already in the memory, so build it in place
+				r.Build = &b
+				d.machine.push(r)
+			} else {
+				d.machine.push(b)
+			}
 		case opDict:
 			objs := d.machine.popMark()
 			nObjs := len(objs)
diff --git a/internal/pickle/numpy.go b/internal/pickle/numpy.go
index 9c67f53..7392314 100644
--- a/internal/pickle/numpy.go
+++ b/internal/pickle/numpy.go
@@ -70,8 +70,8 @@ func (a *NumpyArrayRaw) Build(build Build) (err error) {
 	}
 
 	switch x := args[4].(type) {
-	case Build, Reduce:
-		// if we've got Build or Reduce objects we have a deal with plain data stored in raw byte array
+	case *Reduce:
+		// if we've got Reduce objects we have a deal with plain data stored in raw byte array
 		err = ParseClass(&a.Data, args[4])
 	case List:
 		// sometimes we've got data stored as python list (for array of python objects)
diff --git a/internal/pickle/types.go b/internal/pickle/types.go
index 0b6580e..7c6fc79 100644
--- a/internal/pickle/types.go
+++ b/internal/pickle/types.go
@@ -28,6 +28,8 @@ type Global struct {
 type Reduce struct {
 	Callable interface{}
 	Args     Tuple
+	// Build is BUILD command applied to the object (nil if there was none)
+	Build *Build
 }
 
 // Build is result of BUILD pickle command (usually class __setstate__ call)
@@ -109,11 +111,10 @@ func toBuild(obj interface{}) (Build, error) {
 	return build, nil
 }
 
-func toReduce(obj interface{}) (Reduce, error) {
-	def := Reduce{}
-	reduce, ok := obj.(Reduce)
+func toReduce(obj interface{}) (*Reduce, error) {
+	reduce, ok := obj.(*Reduce)
 	if !ok {
-		return def, fmt.Errorf("expected Reduce object (got %T)", obj)
+		return nil, fmt.Errorf("expected Reduce object (got %T)", obj)
 	}
 	return reduce, nil
 }
@@ -155,30 +156,16 @@ func (d *Dict) toFloat(key string) (float64, error) {
 
 // ParseClass calls PythonClass's Reduce and Build methods
 func ParseClass(entity PythonClass, obj interface{}) (err error) {
-	build, hasBuild := obj.(Build)
-	var reduce Reduce
-	if hasBuild {
-		reduce, err = toReduce(build.Object)
-		if err != nil {
-			return err
-		}
-		err = entity.Reduce(reduce)
-		if err != nil {
-			return err
-		}
-		err = entity.Build(build)
-		if err != nil {
-			return err
-		}
-	} else {
-		reduce, err = toReduce(obj)
-		if err != nil {
-			return err
-		}
-		err = entity.Reduce(reduce)
-		if err != nil {
-			return err
-		}
+	reduce, err := toReduce(obj)
+	if err != nil {
+		return err
+	}
+	err = entity.Reduce(*reduce)
+	if err != nil {
+		return err
+	}
+	if reduce.Build != nil {
+		return entity.Build(*reduce.Build)
 	}
 	return nil
 }
-- 
2.43.0


From 736cebfdf937f26fc7405dc1566f861f2aa0c476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 26/32] fix: refuse LightGBM trees with linear models in leaves

---
 lgensemble_io.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index cee0717..397e4dc 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -112,6 +112,16 @@ func lgTreeFromReader(reader *bufio.Reader) (lgTree, error) {
 	}
 	t.nCategorical = uint32(numCategorical)
 
+	if params.Contains("is_linear") {
+		isLinear, err := params.ToInt("is_linear")
+		if err != nil {
+			return t, err
+		}
+		if isLinear != 0 {
+			return t, fmt.Errorf("trees with linear models in leaves are not supported")
+		}
+	}
+
 	numLeaves, err := params.ToInt("num_leaves")
 	if err != nil {
 		return t, err
-- 
2.43.0


From 0ddd83461373ac06d0ac1447d42c28490fd20c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 27/32] fix: read a last one-line parameter block without line
 end

---
 util/util.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 35c5c0a..cc7bd71 100644
--- a/util/util.go
+++ b/util/util.go
@@ -33,13 +33,16 @@ func ReadParamsUntilBlank(reader *bufio.Reader) (stringParams, error) {
 	// skip empty
 	for {
 		line, err = reader.ReadString('\n')
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		line = strings.TrimSpace(line)
 		if line != "" {
 			break
 		}
+		if err != nil {
+			return nil, err
+		}
 	}
 	for {
 		// value may contain '=' (for example in feature names)
-- 
2.43.0


From 088e1738a0e3ebed76b26bd1d149df7bce4787e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:47 +0000
Subject: [PATCH 28/32] fix: refuse LightGBM JSON without split_feature,
 default_left or max_feature_idx

---
 lgensemble_io.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 397e4dc..5b94b57 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -18,7 +18,7 @@ type lgEnsembleJSON struct {
 	Version              string            `json:"version"`
 	NumClasses           int               `json:"num_class"`
 	NumTreesPerIteration int               `json:"num_tree_per_iteration"`
-	MaxFeatureIdx        int               `json:"max_feature_idx"`
+	MaxFeatureIdx        *int              `json:"max_feature_idx"`
 	Trees                []json.RawMessage `json:"tree_info"`
 	// TODO: lightgbm should support the next fields
 	// AverageOutput bool   `json:"average_output"`
@@ -36,12 +36,12 @@ type lgTreeJSON struct {
 }
 
 type lgNodeJSON struct {
-	SplitIndex   uint32 `json:"split_index"`
-	SplitFeature uint32 `json:"split_feature"`
+	SplitIndex   uint32  `json:"split_index"`
+	SplitFeature *uint32 `json:"split_feature"`
 	// Threshold could be float64 (for numerical decision) or string (for categorical, example "10||100||400")
 	Threshold     interface{}     `json:"threshold"`
 	DecisionType  string          `json:"decision_type"`
-	DefaultLeft   bool            `json:"default_left"`
+	DefaultLeft   *bool           `json:"default_left"`
 	MissingType   string          `json:"missing_type"`
 	LeftChildRaw  json.RawMessage `json:"left_child"`
 	RightChildRaw json.RawMessage `json:"right_child"`
@@ -482,6 +482,9 @@ func unmarshalNode(raw []byte) (interface{}, error) {
 		}
 		return value, nil
 	}
+	if node.SplitFeature == nil || node.DefaultLeft == nil {
+		return nil, fmt.Errorf("node without split_feature or default_left")
+	}
 	node.LeftChild, err = unmarshalNode(node.LeftChildRaw)
 	if err != nil {
 		return nil, err
@@ -539,14 +542,14 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			return node, fmt.Errorf("unknown missing_type '%s'", nodeJSON.MissingType)
 		}
 		defaultType := uint8(0)
-		if nodeJSON.DefaultLeft {
+		if *nodeJSON.DefaultLeft {
 			defaultType = defaultLeft
 		}
 		threshold, ok := nodeJSON.Threshold.(float64)
 		if !ok {
 			return node, fmt.Errorf("unexpected Threshold type %T", nodeJSON.Threshold)
 		}
-		node = numericalNode(nodeJSON.SplitFeature, missingType, threshold, defaultType)
+		node = numericalNode(*nodeJSON.SplitFeature, missingType, threshold, defaultType)
 		if value, ok := nodeJSON.LeftChild.(float64); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -607,7 +610,7 @@ func unmarshalTree(raw []byte) (lgTree, error) {
 			}
 		}
 
-		node = categoricalNode(nodeJSON.SplitFeature, missingType, catIdx, catType)
+		node = categoricalNode(*nodeJSON.SplitFeature, missingType, catIdx, catType)
 		if value, ok := nodeJSON.LeftChild.(float64); ok {
 			node.Flags |= leftLeaf
 			node.Left = uint32(len(t.leafValues))
@@ -715,7 +718,10 @@ func LGEnsembleFromJSON(reader io.Reader, loadTransformation bool) (*Ensemble, e
 		return nil, fmt.Errorf("num_tree_per_iteration (%d) should be > 0", data.NumTreesPerIteration)
 	}
 	e.nRawOutputGroups = data.NumClasses
-	e.MaxFeatureIdx = data.MaxFeatureIdx
+	if data.MaxFeatureIdx == nil {
+		return nil, fmt.Errorf("no max_feature_idx field")
+	}
+	e.MaxFeatureIdx = *data.MaxFeatureIdx
 
 	nTrees := len(data.Trees)
 	if nTrees == 0 {
-- 
2.43.0


From 39d8c4f1bd18e63be6252a1693a1ec11ce9bab5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:48 +0000
Subject: [PATCH 29/32] fix: read libsvm rows with a label or a single pair
 only

---
 mat/mat_io.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 22b1409..73aa2e3 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -155,9 +155,6 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 			break
 		}
 		tokens := strings.Split(line, " ")
-		if len(tokens) < 2 {
-			return fmt.Errorf("too few columns")
-		}
 
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
-- 
2.43.0


From a281d3d081dcfc7433300f87dad582b3e79b508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:25 +0000
Subject: [PATCH 30/32] fix: separate libsvm fields by any white space

---
 mat/mat_io.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mat/mat_io.go b/mat/mat_io.go
index 73aa2e3..49733c3 100644
--- a/mat/mat_io.go
+++ b/mat/mat_io.go
@@ -154,13 +154,10 @@ func readFromLibsvm(reader *bufio.Reader, limit int, skipFirstColumn bool, f lib
 		if line == "" {
 			break
 		}
-		tokens := strings.Split(line, " ")
+		tokens := strings.Fields(line)
 
 		records = records[:0]
 		for col := startIndex; col < len(tokens); col++ {
-			if len(tokens[col]) == 0 {
-				continue
-			}
 			pair := strings.Split(tokens[col], ":")
 			if len(pair) != 2 {
 				return fmt.Errorf("can't parse %s", tokens[col])
-- 
2.43.0


From 1949594e1b76a6e226ef1c5b0e4a5f56defaf617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:22 +0000
Subject: [PATCH 31/32] fix: read pickles from streams that return no bytes at
 times

---
 internal/pickle/decoder.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/internal/pickle/decoder.go b/internal/pickle/decoder.go
index c6d1583..aa5248d 100644
--- a/internal/pickle/decoder.go
+++ b/internal/pickle/decoder.go
@@ -29,11 +29,9 @@ func (d *Decoder) Decode() (interface{}, error) {
 	buf := make([]byte, 1024)
 loop:
 	for {
-		length, err := d.reader.Read(buf[:1])
+		_, err := io.ReadFull(d.reader, buf[:1])
 		if err != nil {
 			return nil, err
-		} else if length != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 
 		nInstr++
@@ -187,11 +185,9 @@ func (d *Decoder) readLine() ([]byte, error) {
 	line := make([]byte, 0)
 	buf := make([]byte, 1)
 	for {
-		len, err := d.reader.Read(buf)
+		_, err := io.ReadFull(d.reader, buf)
 		if err != nil {
 			return nil, err
-		} else if len != 1 {
-			return nil, fmt.Errorf("unexpected read")
 		}
 		if buf[0] == '\n' {
 			break
-- 
2.43.0


From 6b73a7f7d3e967ff8b42b1dc27102ca8003d50fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 32/32] fix: refuse every square root regression objective

---
 lgensemble_io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgensemble_io.go b/lgensemble_io.go
index 5b94b57..dcd8d19 100644
--- a/lgensemble_io.go
+++ b/lgensemble_io.go
@@ -404,7 +404,7 @@ func LGEnsembleFromReader(reader *bufio.Reader, loadTransformation bool) (*Ensem
 
 		if objectiveStr == "poisson" || objectiveStr == "gamma" || objectiveStr == "tweedie" {
 			transform = &transformation.TransformExponential{}
-		} else if objectiveStr == "regression sqrt" {
+		} else if strings.HasPrefix(objectiveStr, "regression") && strings.HasSuffix(objectiveStr, " sqrt") {
 			return nil, fmt.Errorf("unknown transformation function '%s'", objectiveStr)
 		} else if !strings.HasPrefix(objectiveStr, "regression") { // no transformation for regression
 			objectiveStruct, err := lgObjectiveParse(objectiveStr)
-- 
2.43.0

