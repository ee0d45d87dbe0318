From c37d94dc1c8c29e9a65ed58c8b071e52d12efce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:25 +0000
Subject: [PATCH 01/40] fix: do not write shared output key map while scoring a
 tree

---
 evaluation/tree.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..ba121ac 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -371,7 +370,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -734,12 +732,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
+				key := fmt.Sprintf("probability(%s)", score.value)
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-- 
2.43.0


From 9779bb63627214c5e5e145772d3c3e7e160c0f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 02/40] fix: evaluate on a copy of the caller's row

---
 evaluation/input.go        | 4 ++++
 evaluation/mining.go       | 2 +-
 evaluation/miningschema.go | 9 +++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..5deb6eb 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,10 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	if len(lt.DerivedFields) > 0 {
+		in = in.clone()
+	}
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..e37424d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -232,7 +232,7 @@ func (m *MiningModel) Evaluate(input DataRow) (DataRow, error) {
 		return nil, ErrNotCompiled
 	}
 
-	input, err = m.imputeMissingValues(input)
+	input, err = m.imputeMissingValues(input.clone())
 	if err != nil {
 		return nil, err
 	}
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..0b52849 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -111,3 +111,12 @@ func (v Value) String() string {
 }
 
 type DataRow map[string]Value
+
+func (r DataRow) clone() DataRow {
+	out := make(DataRow, len(r))
+	for k, v := range r {
+		out[k] = v
+	}
+
+	return out
+}
-- 
2.43.0


From ce4af7e3555de4681fe29e6c84a56497521b896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/40] fix: do not append local transformations to the
 document's dictionary

---
 evaluation/mining.go | 9 ++++++---
 evaluation/tree.go   | 6 +++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index e37424d..f403911 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -88,11 +88,14 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
+	segtd := *m.td
+	segtd.DerivedFields = append([]models.DerivedField{}, m.td.DerivedFields...)
+
 	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+		segtd.DerivedFields = append(segtd.DerivedFields, tf)
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range segtd.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
@@ -102,7 +105,7 @@ func (m *MiningModel) Compile() error {
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &segtd, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/tree.go b/evaluation/tree.go
index ba121ac..fb44c82 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -684,11 +684,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From 4414cec05e1eb54cc960caed1774826b7185eb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:02 +0000
Subject: [PATCH 04/40] fix: compiling a mining model again must not duplicate
 its segments

---
 evaluation/mining.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index f403911..6eddf01 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -99,6 +99,8 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
-- 
2.43.0


From 2e0abe47c113c48011be401e2d17fc8bab1b7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/40] fix: verification must use field names, signed
 expectations, NaN and text

---
 evaluation/evaluation.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..a569505 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
@@ -66,14 +66,26 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for k, v := range vRow {
 			fieldName, isOutput := outputMap[k]
 			if isOutput {
-				expected := NewValue(v).Float64()
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
+				expectedStr := NewValue(v).String()
+				expected, err := strconv.ParseFloat(expectedStr, 64)
+				if err != nil {
+					if predictedVal.String() != expectedStr {
+						return fmt.Errorf("%s: expected %s, predicted %s", k, expectedStr, predictedVal)
+					}
+					continue
+				}
 				predicted := predictedVal.Float64()
+				if text, isText := predictedVal.Raw().(string); isText {
+					if predicted, err = strconv.ParseFloat(text, 64); err != nil {
+						return fmt.Errorf("%s: expected %f, predicted %s", k, expected, text)
+					}
+				}
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if math.IsNaN(delta) || math.Abs(delta) > 1e-5*math.Abs(expected) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From cd23649a66a6f863d33fbb1273a38d78be13941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 06/40] fix: Int64 and Float32 must convert floats and numeric
 strings too

---
 evaluation/miningschema.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 0b52849..6d3632b 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,10 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if _, ok := v.val.(string); ok {
+		return float32(v.Float64())
+	}
+
 	return float32(v.Int64())
 }
 
@@ -95,6 +99,20 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if f, ok := v.val.(float64); ok {
+		return int64(f)
+	}
+	if f, ok := v.val.(float32); ok {
+		return int64(f)
+	}
+	if s, ok := v.val.(string); ok {
+		i, err := strconv.ParseInt(s, 10, 64)
+		if err != nil {
+			return int64(v.Float64())
+		}
+		return i
+	}
+
 	return 0
 }
 
-- 
2.43.0


From 7f5ee8041aa14b6125a5ba5991071c1f9cea6f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:09 +0000
Subject: [PATCH 07/40] fix: True and False inside a compound predicate are not
 unknown

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index fb44c82..6e44cee 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -625,6 +625,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From 877eec162987d0b13ab2f1b645f6d70e6ac7e030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 08/40] fix: missing tests work on every field type and nil
 values are missing

---
 evaluation/tree.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 6e44cee..caa33e9 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -418,6 +418,10 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -517,14 +521,13 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
-		if p.Operator == models.SimplePredicateOperatorIsMissing {
+	if !ok || val.Raw() == nil {
+		switch p.Operator {
+		case models.SimplePredicateOperatorIsMissing:
 			return t
+		case models.SimplePredicateOperatorIsNotMissing:
+			return f
 		}
 
 		return u
-- 
2.43.0


From 78074ee82f7d1197d68d2b90de5cb45740c244d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 09/40] fix: predicates compare row values by the field's type

---
 evaluation/tree.go | 47 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index caa33e9..c6553f7 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -3,6 +3,7 @@ package evaluation
 import (
 	"fmt"
 	"github.com/flukeish/pmml/models"
+	"math"
 	"strconv"
 )
 
@@ -514,6 +515,40 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+// equalsTyped compares a row value with a predicate value, which has the type of the field.
+func equalsTyped(val Value, typed interface{}) bool {
+	switch pv := typed.(type) {
+	case float64:
+		return val.Float64() == pv
+	case int64:
+		return compareInteger(val, pv) == 0
+	case bool:
+		b, err := strconv.ParseBool(val.String())
+		return err == nil && b == pv
+	default:
+		return val.String() == pv
+	}
+}
+
+// compareInteger returns the sign of val - pv without truncating val.
+func compareInteger(val Value, pv int64) int {
+	if i := val.Int64(); i != pv {
+		if i < pv {
+			return -1
+		}
+		return 1
+	}
+
+	frac := val.Float64() - math.Trunc(val.Float64())
+	if frac < 0 {
+		return -1
+	} else if frac > 0 {
+		return 1
+	}
+
+	return 0
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -537,11 +572,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 	case models.SimplePredicateOperatorIsNotMissing:
 		return t
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if equalsTyped(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !equalsTyped(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
@@ -555,7 +590,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() >= p.RawPredicateValue.(int64) {
+			if compareInteger(val, p.RawPredicateValue.(int64)) >= 0 {
 				return t
 			}
 		}
@@ -570,7 +605,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() > p.RawPredicateValue.(int64) {
+			if compareInteger(val, p.RawPredicateValue.(int64)) > 0 {
 				return t
 			}
 		}
@@ -585,7 +620,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() <= p.RawPredicateValue.(int64) {
+			if compareInteger(val, p.RawPredicateValue.(int64)) <= 0 {
 				return t
 			}
 		}
@@ -600,7 +635,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 				return t
 			}
 		case models.DataTypeInteger:
-			if val.Int64() < p.RawPredicateValue.(int64) {
+			if compareInteger(val, p.RawPredicateValue.(int64)) < 0 {
 				return t
 			}
 		}
-- 
2.43.0


From 439d57a6f4145779c003e5e01ff47441969f2470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 10/40] fix: evaluate isIn and isNotIn instead of always
 answering false

---
 evaluation/tree.go | 39 ++++++++++++++++++++++++++++++++++++++-
 models/elements.go |  2 ++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index c6553f7..085ae74 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -429,6 +429,29 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		p.RawPredicateValue = pv
+	case *models.SimpleSetPredicate:
+		fieldType, ok := m.fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		array := models.ArrayType(p.Array)
+		array.Type = models.ArrayTypeTypeString
+		items, err := array.Strings()
+		if err != nil {
+			return err
+		}
+
+		values := make([]interface{}, 0, len(items))
+		for _, item := range items {
+			value, err := getRawValue(fieldType, item)
+			if err != nil {
+				return err
+			}
+			values = append(values, value)
+		}
+
+		p.RawPredicateValues = values
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
@@ -508,7 +531,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		}
 	case *models.SimpleSetPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
 	}
 
@@ -645,6 +668,20 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	found := false
+	for _, item := range p.RawPredicateValues {
+		found = found || equalsTyped(val, item)
+	}
+
+	if found == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
+		return t
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..3d970e1 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4806,6 +4806,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawPredicateValues []interface{} `xml:"-"`
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


From c4d1b0a7ae407af0967f78dbdeab81879c2b891a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 11/40] fix: reject nodes without predicate and unknown
 predicate operators

---
 evaluation/tree.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 085ae74..7edfe2d 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -413,14 +413,24 @@ func (m *TreeModel) Validate() error {
 
 func compilePredicate(m *TreeModel, pi models.Predicate) error {
 	switch p := pi.(type) {
+	case *models.True, *models.False:
 	case *models.SimplePredicate:
 		predicateValueType, ok := m.fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
-		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
+		switch p.Operator {
+		case models.SimplePredicateOperatorIsMissing, models.SimplePredicateOperatorIsNotMissing:
 			return nil
+		case models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual:
+		case models.SimplePredicateOperatorGreaterOrEqual, models.SimplePredicateOperatorGreaterThan,
+			models.SimplePredicateOperatorLessOrEqual, models.SimplePredicateOperatorLessThan:
+			if predicateValueType == models.DataTypeString || predicateValueType == models.DataTypeBoolean {
+				return fmt.Errorf("operator %s cannot order values of type %s", p.Operator, predicateValueType)
+			}
+		default:
+			return fmt.Errorf("unsupported predicate operator %s", p.Operator)
 		}
 
 		pv, err := getRawValue(predicateValueType, p.Value)
@@ -435,6 +445,10 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.BooleanOperator != models.SimpleSetPredicateOperatorIsIn && p.BooleanOperator != models.SimpleSetPredicateOperatorIsNotIn {
+			return fmt.Errorf("unsupported set predicate operator %s", p.BooleanOperator)
+		}
+
 		array := models.ArrayType(p.Array)
 		array.Type = models.ArrayTypeTypeString
 		items, err := array.Strings()
@@ -453,12 +467,21 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 
 		p.RawPredicateValues = values
 	case *models.CompoundPredicate:
+		switch p.BooleanOperator {
+		case models.CompoundPredicateOperatorAnd, models.CompoundPredicateOperatorOr,
+			models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate:
+		default:
+			return fmt.Errorf("unsupported compound predicate operator %s", p.BooleanOperator)
+		}
+
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
 			if err != nil {
 				return err
 			}
 		}
+	default:
+		return fmt.Errorf("missing or unsupported predicate %T", p)
 	}
 
 	return nil
-- 
2.43.0


From 16570ddb32fc7ab45a6d7fd695afdd7803104b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 12/40] fix: a node's own score is its prediction, and no score
 is no prediction

---
 evaluation/tree.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7edfe2d..0010477 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -102,26 +102,44 @@ func (n node) outputScoreDist() []scoreDist {
 		return nil
 	}
 
+	return n.ownScoreDist()
+}
+
+func (n node) ownScoreDist() []scoreDist {
+	ownScore := scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount}
+
+	if n.m.model.FunctionName == models.MiningFunctionRegression {
+		return []scoreDist{ownScore}
+	}
+
 	if len(n.scoreDist) > 0 {
 		return n.scoreDist
 	}
 
+	if n.score.value == "" {
+		return nil
+	}
+
 	sd := make([]scoreDist, 0, 0)
+	scoreDeclared := false
 
 	if n.m.targetField != "" {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
-						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
+						sd = append(sd, ownScore)
+						scoreDeclared = true
 					} else {
 						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
 					}
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if !scoreDeclared {
+		sd = append(sd, ownScore)
 	}
 
 	return sd
@@ -827,7 +845,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 66e8f5fd42be6ea26a49def73474e6a75cb19a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 13/40] fix: lastPrediction stops at the first child that is
 not false

---
 evaluation/tree.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 0010477..7f9f390 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -166,29 +166,22 @@ func (n node) evaluateMissingValueStrategyNone(input DataRow) ([]scoreDist, pred
 func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
 
 		if childResult == u {
-			unknownValues = true
+			return n.ownScoreDist(), result
 		}
 
 		if childResult == t {
-			trueDist = score
+			return score, result
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	return n.outputScoreDist(), result
 }
 
-- 
2.43.0


From 20ef324e794034e5c265200d88f69fe167883b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 14/40] fix: defaultChild follows the named child from the
 first unknown child only

---
 evaluation/tree.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7f9f390..7b3deff 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -188,37 +188,37 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	childScores := make(map[string][]scoreDist)
-	unknownValues := false
-	var trueDist []scoreDist
+	return n.descendDefaultChild(input), result
+}
 
+// descendDefaultChild returns the prediction below a node that was reached, whatever its own test says.
+func (n node) descendDefaultChild(input DataRow) []scoreDist {
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
-		childScores[c.id] = score
 
-		if childResult == u {
-			unknownValues = true
+		if childResult == t {
+			return score
 		}
 
-		if childResult == t {
-			trueDist = score
+		if childResult == u {
+			return n.defaultChildScores(input)
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
+	return n.outputScoreDist()
+}
 
-	if unknownValues {
-		defaultScores, ok := childScores[n.defaultChild]
-		if !ok {
-			return emptyScoreDist, u
+func (n node) defaultChildScores(input DataRow) []scoreDist {
+	for _, c := range n.children {
+		if n.defaultChild == "" || c.id != n.defaultChild {
+			continue
 		}
 
+		defaultScores := c.descendDefaultChild(input)
 		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))
 
 		for idx, score := range defaultScores {
@@ -227,10 +227,10 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 			adjustedScores[idx] = score
 		}
 
-		return adjustedScores, t
+		return adjustedScores
 	}
 
-	return n.outputScoreDist(), result
+	return emptyScoreDist
 }
 
 func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]scoreDist, predicateResult) {
-- 
2.43.0


From f92de8649a454f6d130546aefafc8d3a45eb5c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 15/40] fix: weightedConfidence and aggregateNodes combine
 exactly the children that are not false

---
 evaluation/tree.go | 142 +++++++++++++++++++++++----------------------
 1 file changed, 72 insertions(+), 70 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7b3deff..8a77db9 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -263,118 +263,120 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	result := n.test(input)
 
 	if result == f {
-		return n.scoreDist, result
+		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
-	totalRecordCount := 0.0
-
-	for _, c := range n.children {
-		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
-
-		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
-			totalRecordCount += c.score.recordCount
-		}
-
-		if childResult == u {
-			unknownValues = true
-		} else if childResult == t {
-			trueDist = scores
+	for idx, c := range n.children {
+		switch c.test(input) {
+		case t:
+			scores, _ := c.evaluateMissingValueStrategyWeightedConfidence(input)
+			return scores, result
+		case u:
+			return weightedConfidence(n.children[idx:], input), result
 		}
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
-		return trueDist, result
-	}
+	return n.outputScoreDist(), result
+}
 
-	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+// weightedConfidence averages the predictions of the nodes that are not false, weighted by their record counts.
+func weightedConfidence(nodes []node, input DataRow) []scoreDist {
+	aggScoreMap := make(map[string]scoreDist)
+	classes := make([]string, 0, 0)
+	totalRecordCount := 0.0
 
-		for nid, scores := range childScores {
-			for _, score := range scores {
-				aggScore, ok := aggScoreMap[score.value]
-				if !ok {
-					aggScore = scoreDist{value: score.value}
-				}
-				nodeRecordCount := childRecordCounts[nid]
+	for _, c := range nodes {
+		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
-				aggScore.recordCount += score.recordCount
-				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
-				aggScore.confidence += score.confidence * (nodeRecordCount / totalRecordCount)
+		if childResult == f {
+			continue
+		}
+
+		nodeRecordCount := c.score.recordCount
+		totalRecordCount += nodeRecordCount
 
-				aggScoreMap[score.value] = aggScore
+		for _, score := range scores {
+			aggScore, ok := aggScoreMap[score.value]
+			if !ok {
+				aggScore = scoreDist{value: score.value}
+				classes = append(classes, score.value)
 			}
-		}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+			aggScore.recordCount += score.recordCount
+			aggScore.probability += score.probability * nodeRecordCount
+			aggScore.confidence += score.confidence * nodeRecordCount
+
+			aggScoreMap[score.value] = aggScore
 		}
+	}
 
-		return aggScores, t
+	aggScores := make([]scoreDist, 0, 0)
+	for _, class := range classes {
+		aggScore := aggScoreMap[class]
+		aggScore.probability = aggScore.probability / totalRecordCount
+		aggScore.confidence = aggScore.confidence / totalRecordCount
+		aggScores = append(aggScores, aggScore)
 	}
 
-	return n.outputScoreDist(), result
+	return aggScores
 }
 
 func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
 	if result == f {
-		return n.outputScoreDist(), result
+		return emptyScoreDist, result
 	}
 
-	childScores := make([]scoreDist, 0, 0)
-	unknownValues := false
-	var trueDist []scoreDist
-
-	for _, c := range n.children {
-		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
-
-		if childResult == u {
-			unknownValues = true
-		} else if childResult == t {
-			trueDist = score
+	for idx, c := range n.children {
+		switch c.test(input) {
+		case t:
+			score, _ := c.evaluateMissingValueStrategyAggregateNodes(input)
+			return score, result
+		case u:
+			return aggregateNodes(n.children[idx:], input), result
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, result
-	}
+	return n.outputScoreDist(), result
+}
+
+// aggregateNodes pools the record counts of the predictions of the nodes that are not false.
+func aggregateNodes(nodes []node, input DataRow) []scoreDist {
+	aggScoreMap := make(map[string]scoreDist)
+	classes := make([]string, 0, 0)
+	recordCount := 0.0
 
-	if unknownValues {
-		aggScoreMap := make(map[string]scoreDist)
+	for _, c := range nodes {
+		childScores, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
+
+		if childResult == f {
+			continue
+		}
 
-		recordCount := 0.0
 		for _, sc := range childScores {
 			aggScore, ok := aggScoreMap[sc.value]
 
 			if !ok {
 				aggScore.value = sc.value
+				classes = append(classes, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
 			aggScoreMap[sc.value] = aggScore
 			recordCount += sc.recordCount
 		}
+	}
 
-		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScore.probability = aggScore.recordCount / recordCount
-			aggScore.confidence = aggScore.recordCount / recordCount
-			aggScores = append(aggScores, aggScore)
-		}
-
-		return aggScores, t
+	aggScores := make([]scoreDist, 0, 0)
+	for _, class := range classes {
+		aggScore := aggScoreMap[class]
+		aggScore.probability = aggScore.recordCount / recordCount
+		aggScore.confidence = aggScore.recordCount / recordCount
+		aggScores = append(aggScores, aggScore)
 	}
 
-	return n.outputScoreDist(), result
+	return aggScores
 }
 
 func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.TreeModel) (*TreeModel, error) {
-- 
2.43.0


From d739ec7fd78e6a4f45f01ba7ff8128ba1a466a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 16/40] fix: missingValuePenalty defaults to 1

---
 models/elements.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 3d970e1..79e8046 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5548,6 +5548,15 @@ type TreeModel struct {
 
 func (*TreeModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type plain TreeModel
+
+	x.MissingValuePenalty = 1.0
+
+	return decoder.DecodeElement((*plain)(x), &start)
+}
+
 /*
   <xs:element name="Trend_ExpoSmooth">
     <xs:complexType>
-- 
2.43.0


From a675e7744722dfc7a7c6681ff5af7cb923287f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 17/40] fix: regression models without normalization and of
 every supported kind are valid

---
 evaluation/regression.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..cba5f46 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -39,18 +39,21 @@ func (m *RegressionModel) Validate() error {
 	if m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodNone &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodLogit &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodExp &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCloglog &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCauchit {
 		return fmt.Errorf("unsupported regression normalization method %s", m.model.RegressionNormalizationMethod)
 	}
 
-	if m.model.FunctionName != models.MiningFunctionClassification {
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
 
 	for _, output := range m.model.Output.Fields {
-		if output.Feature != models.ResultFeatureProbability {
+		if output.Feature != "" && output.Feature != models.ResultFeatureProbability &&
+			output.Feature != models.ResultFeaturePredictedValue {
 			return fmt.Errorf("unsupported output feature %s", output.Feature)
 		}
 	}
@@ -64,6 +67,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case models.RegressionNormalizationMethodNone, "":
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From 9d581b6b915063f45d0894c51e1ba29ce9f50023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 18/40] fix: constructing a regression model validates it

---
 evaluation/regression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index cba5f46..d72b5f4 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -23,6 +23,16 @@ func NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDict
 	m.td = td
 	m.model = model
 
+	err := m.Validate()
+	if err != nil {
+		return nil, err
+	}
+
+	err = m.Compile()
+	if err != nil {
+		return nil, err
+	}
+
 	return m, nil
 }
 
@@ -53,7 +63,7 @@ func (m *RegressionModel) Validate() error {
 
 	for _, output := range m.model.Output.Fields {
 		if output.Feature != "" && output.Feature != models.ResultFeatureProbability &&
-			output.Feature != models.ResultFeaturePredictedValue {
+			!(output.Feature == models.ResultFeaturePredictedValue && m.model.FunctionName == models.MiningFunctionRegression) {
 			return fmt.Errorf("unsupported output feature %s", output.Feature)
 		}
 	}
-- 
2.43.0


From 29f0551d4865f708793a8039bcb072dbde893bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 19/40] fix: binary classification links the whole linear
 predictor, missing terms are errors

---
 evaluation/regression.go | 68 ++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index d72b5f4..dcb1863 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -93,6 +93,22 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 	return 0.0, fmt.Errorf("unrecognized normalization method: %v", m.model.RegressionNormalizationMethod)
 }
 
+func linearPredictor(rtbl models.RegressionTable, input DataRow) (float64, error) {
+	y := rtbl.Intercept
+
+	for _, np := range rtbl.NumericPredictor {
+		term, ok := input[np.Name]
+		if !ok || term.Raw() == nil {
+			return 0.0, fmt.Errorf("regression missing term %s", np.Name)
+		}
+		indVar := term.Float64()
+		coeff := np.Coefficient
+		y += coeff * indVar
+	}
+
+	return y, nil
+}
+
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
@@ -117,15 +133,9 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	}
 	outField := m.model.Output.Fields[0]
 
-	y := rtbl.Intercept
-	for _, np := range rtbl.NumericPredictor {
-		term, ok := input[np.Name]
-		if !ok {
-			return nil, fmt.Errorf("regression missing term %s", np.Name)
-		}
-		indVar := term.Float64()
-		coeff := np.Coefficient
-		y += coeff * indVar
+	y, err := linearPredictor(rtbl, input)
+	if err != nil {
+		return nil, err
 	}
 
 	pred, err := m.normalize(y)
@@ -142,23 +152,18 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
-		pred := rtbl.Intercept
-
-		if len(rtbl.NumericPredictor) > 0 {
-			for _, np := range rtbl.NumericPredictor {
-				term, ok := input[np.Name]
-				if !ok {
-					return nil, fmt.Errorf("regression missing term %s", np.Name)
-				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+	for i, rtbl := range m.model.RegressionTables {
+		pred := finalPred
+
+		if i == 0 || len(rtbl.NumericPredictor) > 0 {
+			y, err := linearPredictor(rtbl, input)
+			if err != nil {
+				return nil, err
+			}
+			pred, err = m.normalize(y)
+			if err != nil {
+				return out, err
 			}
-		} else {
-			pred = finalPred
 		}
 
 		finalPred = finalPred - pred
@@ -185,16 +190,11 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
 		targets[i] = outFields[rtbl.TargetCategory]
-		y[i] = rtbl.Intercept
 
-		for _, np := range rtbl.NumericPredictor {
-			term, ok := input[np.Name]
-			if !ok {
-				return nil, fmt.Errorf("regression missing term %s", np.Name)
-			}
-			indVar := term.Float64()
-			coeff := np.Coefficient
-			y[i] += coeff * indVar
+		var err error
+		y[i], err = linearPredictor(rtbl, input)
+		if err != nil {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From 2508ee1d7b2b3cd3c3e88cf9620275d9e3adac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:19 +0000
Subject: [PATCH 20/40] fix: honour the exponent of numeric predictors

---
 evaluation/regression.go | 2 +-
 models/elements.go       | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index dcb1863..5c961c9 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -103,7 +103,7 @@ func linearPredictor(rtbl models.RegressionTable, input DataRow) (float64, error
 		}
 		indVar := term.Float64()
 		coeff := np.Coefficient
-		y += coeff * indVar
+		y += coeff * math.Pow(indVar, float64(np.Exponent))
 	}
 
 	return y, nil
diff --git a/models/elements.go b/models/elements.go
index 79e8046..d11707a 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -3532,6 +3532,15 @@ type NumericPredictor struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *NumericPredictor) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type plain NumericPredictor
+
+	x.Exponent = 1
+
+	return decoder.DecodeElement((*plain)(x), &start)
+}
+
 /*
   <xs:element name="OptimumLiftGraph">
     <xs:complexType>
-- 
2.43.0


From 8088bc941190a1038979f2278ba26e6e14c1f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 21/40] fix: softmax must not overflow on large predictors

---
 evaluation/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 5c961c9..a89bcaf 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -203,9 +203,9 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal)
+				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(math.Exp(y[i]) / s)
+			out[target] = NewValue(1.0 / s)
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
-- 
2.43.0


From 1a0973fb1ad7d2591564851da90dd4ec6dee256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 22/40] fix: do not silently drop categorical and interaction
 terms of a regression

---
 evaluation/regression.go | 17 ++++++++++++++++-
 models/elements.go       |  5 ++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index a89bcaf..5236e29 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -1,6 +1,7 @@
 package evaluation
 
 import (
+	"errors"
 	"fmt"
 	"math"
 
@@ -106,6 +107,20 @@ func linearPredictor(rtbl models.RegressionTable, input DataRow) (float64, error
 		y += coeff * math.Pow(indVar, float64(np.Exponent))
 	}
 
+	for _, cp := range rtbl.CategoricalPredictors {
+		term, ok := input[string(cp.Name)]
+		if !ok || term.Raw() == nil {
+			return 0.0, fmt.Errorf("regression missing term %s", cp.Name)
+		}
+		if term.String() == cp.Value {
+			y += float64(cp.Coefficient)
+		}
+	}
+
+	if len(rtbl.PredictorTerms) > 0 {
+		return 0.0, errors.New("unsupported predictor terms")
+	}
+
 	return y, nil
 }
 
@@ -155,7 +170,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 	for i, rtbl := range m.model.RegressionTables {
 		pred := finalPred
 
-		if i == 0 || len(rtbl.NumericPredictor) > 0 {
+		if i == 0 || len(rtbl.NumericPredictor) > 0 || len(rtbl.CategoricalPredictors) > 0 || len(rtbl.PredictorTerms) > 0 {
 			y, err := linearPredictor(rtbl, input)
 			if err != nil {
 				return nil, err
diff --git a/models/elements.go b/models/elements.go
index d11707a..5601a83 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -808,7 +808,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -4296,6 +4296,9 @@ type RegressionTable struct {
 	TargetCategory   string             `xml:"targetCategory,attr"`
 	NumericPredictor []NumericPredictor `xml:"NumericPredictor"`
 	Extensions       []Extension        `xml:"Extension"`
+
+	CategoricalPredictors []CategoricalPredictor `xml:"CategoricalPredictor"`
+	PredictorTerms        []PredictorTerm        `xml:"PredictorTerm"`
 }
 
 /*
-- 
2.43.0


From e0d469fe1edb94feb696dae2c06a3a85e44f8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:15 +0000
Subject: [PATCH 23/40] fix: segment predicates decide which segments take part

---
 evaluation/mining.go | 58 ++++++++++++++++++++++++++++++++++++++------
 evaluation/tree.go   | 42 ++++++++++++++++++++------------
 2 files changed, 78 insertions(+), 22 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 6eddf01..0923337 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -15,6 +15,7 @@ type MiningModel struct {
 	model *models.MiningModel
 
 	segmodels []Model
+	segtests  []test
 
 	defaultValues map[string]Value
 	fieldTypes    map[models.FieldName]models.DataType
@@ -100,6 +101,7 @@ func (m *MiningModel) Compile() error {
 	}
 
 	m.segmodels = nil
+	m.segtests = nil
 
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
@@ -113,7 +115,13 @@ func (m *MiningModel) Compile() error {
 			return err
 		}
 
+		segtest, err := m.segmentTest(seg)
+		if err != nil {
+			return err
+		}
+
 		m.segmodels = append(m.segmodels, mdl)
+		m.segtests = append(m.segtests, segtest)
 	}
 
 	m.compiled = true
@@ -121,8 +129,23 @@ func (m *MiningModel) Compile() error {
 	return nil
 }
 
+func (m *MiningModel) segmentTest(seg models.Segment) (test, error) {
+	switch len(seg.Predicates) {
+	case 0:
+		return newTest(m.fieldTypes, &models.True{})
+	case 1:
+		return newTest(m.fieldTypes, seg.Predicates[0])
+	default:
+		return nil, fmt.Errorf("unsupported number of segment predicates %d", len(seg.Predicates))
+	}
+}
+
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -137,11 +160,15 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -154,6 +181,14 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	out, _, err := m.sumSegments(input)
+
+	return out, err
+}
+
+// sumSegments adds up the segments that take part and returns their number.
+func (m *MiningModel) sumSegments(input DataRow) (DataRow, int, error) {
+	selected := 0
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -164,11 +199,16 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	for i, segmodel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
-			return nil, err
+			return nil, 0, err
 		}
+		selected++
 
 		for k, v := range scoreMap {
 			if m.model.FunctionName == models.MiningFunctionClassification {
@@ -199,17 +239,21 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		out[string(k)] = NewValue(v)
 	}
 
-	return out, nil
+	return out, selected, nil
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
+	out, selected, err := m.sumSegments(input)
 	if err != nil {
 		return nil, err
 	}
 
+	if selected == 0 {
+		return nil, errors.New("no segment models to evaluate")
+	}
+
 	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
+		out[lbl] = NewValue(score.Float64() / float64(selected))
 	}
 
 	return out, nil
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 8a77db9..581f897 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -424,11 +424,11 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) error {
 	switch p := pi.(type) {
 	case *models.True, *models.False:
 	case *models.SimplePredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -453,7 +453,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 
 		p.RawPredicateValue = pv
 	case *models.SimpleSetPredicate:
-		fieldType, ok := m.fieldTypes[p.Field]
+		fieldType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -488,7 +488,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+			err := compilePredicate(fieldTypes, cp)
 			if err != nil {
 				return err
 			}
@@ -547,31 +547,43 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	var err error
+	n.test, err = newTest(m.fieldTypes, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
 
-	switch p := modelNode.Predicate.(type) {
+	return n, nil
+}
+
+func newTest(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) (test, error) {
+	err := compilePredicate(fieldTypes, pi)
+	if err != nil {
+		return nil, err
+	}
+
+	var pt test
+
+	switch p := pi.(type) {
 	case *models.True:
-		n.test = func(DataRow) predicateResult { return t }
+		pt = func(DataRow) predicateResult { return t }
 	case *models.False:
-		n.test = func(DataRow) predicateResult { return f }
+		pt = func(DataRow) predicateResult { return f }
 	case *models.SimplePredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimplePredicate(p, input, m.fieldTypes)
+		pt = func(input DataRow) predicateResult {
+			return evaluateSimplePredicate(p, input, fieldTypes)
 		}
 	case *models.CompoundPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateCompoundPredicate(p, input, m.fieldTypes)
+		pt = func(input DataRow) predicateResult {
+			return evaluateCompoundPredicate(p, input, fieldTypes)
 		}
 	case *models.SimpleSetPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
+		pt = func(input DataRow) predicateResult {
+			return evaluateSimpleSetPredicate(p, input, fieldTypes)
 		}
 	}
 
-	return n, nil
+	return pt, nil
 }
 
 // equalsTyped compares a row value with a predicate value, which has the type of the field.
-- 
2.43.0


From ae0c6170e04dd7165e9da185b062b61dc620194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:16 +0000
Subject: [PATCH 24/40] fix: rescale the average, not its terms before dividing

---
 evaluation/mining.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 0923337..0aedcd5 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -182,8 +182,26 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 	out, _, err := m.sumSegments(input)
+	if err != nil {
+		return nil, err
+	}
 
-	return out, err
+	return m.rescale(out), nil
+}
+
+func (m *MiningModel) rescale(out DataRow) DataRow {
+	for _, target := range m.targets {
+		score := out[string(target.Field)].Float64()
+		if target.RescaleFactor != nil {
+			score = score * *target.RescaleFactor
+		}
+		if target.RescaleConstant != nil {
+			score = score + *target.RescaleConstant
+		}
+		out[string(target.Field)] = NewValue(score)
+	}
+
+	return out
 }
 
 // sumSegments adds up the segments that take part and returns their number.
@@ -225,15 +243,6 @@ func (m *MiningModel) sumSegments(input DataRow) (DataRow, int, error) {
 		}
 	}
 
-	for _, target := range m.targets {
-		if target.RescaleFactor != nil {
-			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
-		}
-		if target.RescaleConstant != nil {
-			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
-		}
-	}
-
 	out := make(DataRow)
 	for k, v := range scoreMap {
 		out[string(k)] = NewValue(v)
@@ -256,7 +265,7 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 		out[lbl] = NewValue(score.Float64() / float64(selected))
 	}
 
-	return out, nil
+	return m.rescale(out), nil
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
-- 
2.43.0


From e3935af26a50399fcd2fc5fa825d6759ab55f772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 25/40] fix: value maps use their declared columns and map a
 missing input to missing

---
 evaluation/input.go | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 5deb6eb..f1c6f86 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -2,8 +2,8 @@ package evaluation
 
 import (
 	"fmt"
-	"github.com/pkg/errors"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -124,26 +124,20 @@ func isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *m
 }
 
 func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-	columns := make(map[string]Value)
-
-	for _, pair := range expr.FieldColumnPairs {
-		data, ok := in[pair.Field]
-		if ok {
-			columns[pair.Column] = data
-		}
-	}
+	var output *Value
 
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			cell, ok := row[columnName(expr.OutputColumn)]
+			if ok && matchesRow(expr.FieldColumnPairs, row, in) {
+				val := NewValue(cell)
+				output = &val
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
-	if ok {
-		return output, nil
+	if output != nil {
+		return *output, nil
 	}
 
 	if expr.DefaultValue != nil {
@@ -155,12 +149,27 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
+	if len(expr.FieldColumnPairs) == 1 {
+		return in[expr.FieldColumnPairs[0].Field], nil
+	}
+
+	return NewValue(nil), nil
+}
+
+// columnName strips the namespace prefix of a table column.
+func columnName(column string) string {
+	return column[strings.LastIndex(column, ":")+1:]
+}
+
+func matchesRow(pairs []models.FieldColumnPair, row models.Row, in DataRow) bool {
+	for _, pair := range pairs {
+		data := in[pair.Field]
+		if data.Raw() == nil || row[columnName(pair.Column)] != data.String() {
+			return false
+		}
 	}
 
-	return NewValue(nil), errors.New("unexpected expression")
+	return len(pairs) > 0
 }
 
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
-- 
2.43.0


From 7c8346e9bacb4232c93a18220150d900f9d4a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 26/40] fix: missing operands and derived values stay missing
 instead of becoming 0

---
 evaluation/input.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index f1c6f86..0aa6459 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -45,6 +45,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
@@ -203,7 +206,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From 6e74150344c051c7845d799f85d887a485f931b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 27/40] fix: derived fields and missing value replacements
 apply to every model and dictionary

---
 evaluation/input.go      | 48 +++++++++++++++++++++++++++++++++-------
 evaluation/regression.go |  5 +++++
 2 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 0aa6459..f5bc72b 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -196,21 +196,40 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
-	if len(lt.DerivedFields) > 0 {
-		in = in.clone()
+	cloned := false
+	set := func(name string, val Value) {
+		if !cloned {
+			in = in.clone()
+			cloned = true
+		}
+		in[name] = val
 	}
 
-	for _, df := range lt.DerivedFields {
-		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
+	for _, mf := range ms.MiningFields {
+		if mf.MissingValueReplacement != nil && in[string(mf.Name)].Raw() == nil {
+			set(string(mf.Name), NewValue(*mf.MissingValueReplacement))
+		}
+	}
+
+	for _, df := range td.DerivedFields {
+		if _, ok := in[df.Name]; ok {
+			// already computed by an enclosing model
+			continue
+		}
+
+		val, err := deriveField(df, in, dd, td, lt, ms)
 		if err != nil {
 			return nil, err
 		}
+		set(df.Name, val)
+	}
 
-		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
-			in[df.Name] = NewValue(expr_val.Float64())
-		} else {
-			in[df.Name] = expr_val
+	for _, df := range lt.DerivedFields {
+		val, err := deriveField(df, in, dd, td, lt, ms)
+		if err != nil {
+			return nil, err
 		}
+		set(df.Name, val)
 	}
 
 	err := validate(in, ms)
@@ -221,6 +240,19 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 	return in, nil
 }
 
+func deriveField(df models.DerivedField, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
+	expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
+	if err != nil {
+		return expr_val, err
+	}
+
+	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
+		return NewValue(expr_val.Float64()), nil
+	}
+
+	return expr_val, nil
+}
+
 func validate(in DataRow, ms *models.MiningSchema) error {
 	if ms == nil {
 		return nil
diff --git a/evaluation/regression.go b/evaluation/regression.go
index 5236e29..7eac1e1 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -125,6 +125,11 @@ func linearPredictor(rtbl models.RegressionTable, input DataRow) (float64, error
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
-- 
2.43.0


From 0d2bf7854e154568d234add57c4efc4025e4a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 28/40] fix: skip unknown elements and keep extensions in
 hand-written decoders

---
 models/elements.go | 61 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 5601a83..6bc7c21 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,8 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +408,11 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +966,11 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1268,8 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -1771,6 +1785,11 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1911,11 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2424,6 +2448,16 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+			} else if err = decoder.Skip(); err != nil {
+				return err
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3452,8 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 
@@ -3772,6 +3808,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "Header":
 				err = decoder.DecodeElement(&x.Header, &tok)
 				if err != nil {
@@ -3800,6 +3843,8 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else if err = decoder.Skip(); err != nil {
+					return err
 				}
 			}
 		case xml.EndElement:
@@ -4550,6 +4595,22 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
+			err = decoder.Skip()
+			if err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From 9e149d4da075b59c3fe2fd3224a3de718ee2df4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:31 +0000
Subject: [PATCH 29/40] fix: read attributes under their schema names

---
 models/elements.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 6bc7c21..c3670eb 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -339,7 +339,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -359,7 +359,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
@@ -471,7 +471,7 @@ type AssociationModel struct {
 	FunctionName          MiningFunction       `xml:"functionName,attr"`
 	IsScorable            bool                 `xml:"isScorable,attr"`
 	LengthLimit           int                  `xml:"lengthLimit,attr"`
-	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsTA,attr"`
+	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsPerTA,attr"`
 	MinimumConfidence     float64              `xml:"minimumConfidence,attr"`
 	MinimumSupport        float64              `xml:"minimumSupport,attr"`
 	ModelName             string               `xml:"modelName,attr"`
@@ -576,7 +576,7 @@ type BaseCumHazardTables struct {
 */
 type BaselineCell struct {
 	CumHazard  float64     `xml:"cumHazard,attr"`
-	Time       float64     `xml:"time"`
+	Time       float64     `xml:"time,attr"`
 	Extensions []Extension `xml:"Extension"`
 }
 
@@ -3542,7 +3542,7 @@ type NumericInfo struct {
 	Mean               Number `xml:"mean,attr"`
 	Median             Number `xml:"median,attr"`
 	Minimum            Number `xml:"minimum,attr"`
-	StandardDeviation  Number `xml:"standardDeviation"`
+	StandardDeviation  Number `xml:"standardDeviation,attr"`
 
 	Extensions []Extension `xml:"Extension"`
 	Quantiles  []Quantile  `xml:"Quantile"`
@@ -3665,7 +3665,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
@@ -5798,7 +5798,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From a87749e05c2ee5dfe1e92411868af4af6cf0770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 30/40] fix: array items are the decoded text, split at white
 space and double quotes only

---
 models/complexTypes.go | 62 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..f5dbdf4 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -2,8 +2,8 @@ package models
 
 import (
 	"strconv"
+	"strings"
 
-	"github.com/mattn/go-shellwords"
 	"github.com/pkg/errors"
 )
 
@@ -33,13 +33,56 @@ type ArrayType struct {
 	N    *int          `xml:"n,attr"`
 	Type ArrayTypeType `xml:"type,attr"`
 
-	RawValue string `xml:",innerxml"`
+	RawValue string `xml:",chardata"`
 
 	s []string
 	i []int64
 	f []float64
 }
 
+// splitItems splits array text at white space; double quotes group text that contains white space
+// and a backslash inside quotes escapes a quote or a backslash.
+func splitItems(text string) ([]string, error) {
+	items := []string{}
+	item := strings.Builder{}
+	inItem, inQuotes, escaped := false, false, false
+
+	for _, r := range text {
+		switch {
+		case escaped:
+			if r != '"' && r != '\\' {
+				item.WriteRune('\\')
+			}
+			item.WriteRune(r)
+			escaped = false
+		case inQuotes && r == '\\':
+			escaped = true
+		case r == '"':
+			inQuotes = !inQuotes
+			inItem = true
+		case !inQuotes && (r == ' ' || r == '\t' || r == '\n' || r == '\r'):
+			if inItem {
+				items = append(items, item.String())
+				item.Reset()
+				inItem = false
+			}
+		default:
+			item.WriteRune(r)
+			inItem = true
+		}
+	}
+
+	if inQuotes {
+		return nil, errors.New("unterminated quote in array")
+	}
+
+	if inItem {
+		items = append(items, item.String())
+	}
+
+	return items, nil
+}
+
 func (at *ArrayType) Strings() ([]string, error) {
 	if at.Type != ArrayTypeTypeString {
 		return nil, errors.New("not a string array")
@@ -49,9 +92,14 @@ func (at *ArrayType) Strings() ([]string, error) {
 		return at.s, nil
 	}
 
-	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
-	return at.s, err
+	items, err := splitItems(at.RawValue)
+	if err != nil {
+		return nil, err
+	}
+
+	at.s = items
+
+	return at.s, nil
 }
 
 func (at *ArrayType) Int64s() ([]int64, error) {
@@ -63,7 +111,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return at.i, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitItems(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
@@ -93,7 +141,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return at.f, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := splitItems(at.RawValue)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c7f4b0017e49e6839c8e25c71bff73cac01c83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 31/40] fix: constants hold decoded text

---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index c3670eb..98cac10 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1350,7 +1350,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From ea2cbec5066506051445d9c4d16a43481fa2e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 32/40] fix: documents can be loaded concurrently

---
 models/helpers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/helpers.go b/models/helpers.go
index 51dc013..564f451 100644
--- a/models/helpers.go
+++ b/models/helpers.go
@@ -1,5 +1,14 @@
 package models
 
+import (
+	defaults "github.com/mcuadros/go-defaults"
+)
+
+func init() {
+	// the defaults package initialises itself on first use without synchronisation
+	defaults.SetDefaults(&struct{}{})
+}
+
 func String(v string) *string {
 	return &v
 }
-- 
2.43.0


From 57cc9ff88ef142ff0588f9cccee4d397a56f6c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 33/40] fix: reject mining models with an unsupported mining
 function

---
 evaluation/mining.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 0aedcd5..01d9267 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -58,6 +58,11 @@ func (m *MiningModel) Validate() error {
 		return fmt.Errorf("unsupported multiple model method %s", m.model.Segmentation.MultipleModelMethod)
 	}
 
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
+		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
+	}
+
 	for _, f := range m.model.Output.Fields {
 		if f.Feature != "" && f.Feature != models.ResultFeatureProbability {
 			return fmt.Errorf("unsupported output feature type %s", f.Feature)
-- 
2.43.0


From 4b11e842fcfde80f3326067156f0236d0a1b5365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 34/40] fix: large unsigned integers keep their value as
 floating point numbers

---
 evaluation/miningschema.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 6d3632b..c26756a 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,14 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if f, ok := v.val.(uint); ok {
+		return float32(f)
+	}
+
+	if f, ok := v.val.(uint64); ok {
+		return float32(f)
+	}
+
 	if _, ok := v.val.(string); ok {
 		return float32(v.Float64())
 	}
@@ -46,6 +54,14 @@ func (v Value) Float64() float64 {
 		return float64(f)
 	}
 
+	if f, ok := v.val.(uint); ok {
+		return float64(f)
+	}
+
+	if f, ok := v.val.(uint64); ok {
+		return float64(f)
+	}
+
 	if s, ok := v.val.(string); ok {
 		f, err := strconv.ParseFloat(s, 64)
 		if err != nil {
-- 
2.43.0


From 13cc53f5eb3dfc56e86038c50f36dee165f16912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 35/40] fix: integer predicates compare values beyond int64

---
 evaluation/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 581f897..886d498 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -603,6 +603,11 @@ func equalsTyped(val Value, typed interface{}) bool {
 
 // compareInteger returns the sign of val - pv without truncating val.
 func compareInteger(val Value, pv int64) int {
+	if val.Float64() >= 1<<63 && val.Int64() < 0 {
+		// beyond int64
+		return 1
+	}
+
 	if i := val.Int64(); i != pv {
 		if i < pv {
 			return -1
-- 
2.43.0


From 7c0198c38a60e3266b2ee49201525c2a0dd70a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 36/40] fix: multi-class regression gives every declared output
 its own category's share

---
 evaluation/regression.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 7eac1e1..af24050 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -201,16 +201,8 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
-	outFields := make(map[string]string)
-	for _, output := range m.model.Output.Fields {
-		outFields[output.Value] = string(output.Name)
-	}
-
 	y := make([]float64, len(m.model.RegressionTables))
-	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
-		targets[i] = outFields[rtbl.TargetCategory]
-
 		var err error
 		y[i], err = linearPredictor(rtbl, input)
 		if err != nil {
@@ -218,23 +210,30 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		}
 	}
 
-	for i, target := range targets {
+	for i, rtbl := range m.model.RegressionTables {
+		var share float64
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
 				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(1.0 / s)
+			share = 1.0 / s
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
 				s += yVal
 			}
-			out[target] = NewValue(y[i] / s)
+			share = y[i] / s
 		default:
 			return out, fmt.Errorf("unsupported normalization method: %v", m.model.RegressionNormalizationMethod)
 		}
+
+		for _, output := range m.model.Output.Fields {
+			if rtbl.TargetCategory == output.Value {
+				out[string(output.Name)] = NewValue(share)
+			}
+		}
 	}
 	return out, nil
 }
-- 
2.43.0


From d6ddff9be83a3b5d4dbbe512b41e6078db9beffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:59 +0000
Subject: [PATCH 37/40] fix: the regression tables, not the declared outputs,
 tell binary from multi-class classification

---
 evaluation/regression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index af24050..6f38645 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -132,7 +132,7 @@ func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
-	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
+	} else if m.model.FunctionName == "classification" && len(m.model.RegressionTables) <= 2 {
 		return m.EvaluateBinaryClassification(input)
 	} else if m.model.FunctionName == "classification" {
 		return m.EvaluateMulticlassClassification(input)
-- 
2.43.0


From b8ceeb612237e8c2f3878b5ee43a47127441e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:21 +0000
Subject: [PATCH 38/40] fix: integer predicates tell values below int64 from
 its least value

---
 evaluation/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 886d498..fcf0c92 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -603,10 +603,13 @@ func equalsTyped(val Value, typed interface{}) bool {
 
 // compareInteger returns the sign of val - pv without truncating val.
 func compareInteger(val Value, pv int64) int {
+	// beyond int64
 	if val.Float64() >= 1<<63 && val.Int64() < 0 {
-		// beyond int64
 		return 1
 	}
+	if val.Float64() < -1<<63 {
+		return -1
+	}
 
 	if i := val.Int64(); i != pv {
 		if i < pv {
-- 
2.43.0


From a8b0dc0d98c75ae222fc7882e2c292cd925efebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:15 +0000
Subject: [PATCH 39/40] fix: predict the first class when no class has a
 positive probability

---
 evaluation/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index fcf0c92..fa321c2 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -66,8 +66,9 @@ const (
 )
 */
 
+// pickBest returns the first score having the highest probability; there must be at least one score
 func pickBest(scores []scoreDist) scoreDist {
-	best := scoreDist{probability: 0.0}
+	best := scores[0]
 
 	for _, score := range scores {
 		if score.probability > best.probability {
-- 
2.43.0


From 991c8ef97f550937e000b5d3c54814380d0e4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 40/40] fix: read decimal numbers only, not Go's digit
 separators and hexadecimal floats

---
 evaluation/evaluation.go   |  8 ++++----
 evaluation/input.go        |  3 +--
 evaluation/miningschema.go |  4 +++-
 evaluation/tree.go         |  2 +-
 models/complexTypes.go     |  2 +-
 models/helpers.go          | 13 +++++++++++++
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index a569505..e5eb2c4 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -71,7 +71,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
 				expectedStr := NewValue(v).String()
-				expected, err := strconv.ParseFloat(expectedStr, 64)
+				expected, err := models.ParseFloat(expectedStr)
 				if err != nil {
 					if predictedVal.String() != expectedStr {
 						return fmt.Errorf("%s: expected %s, predicted %s", k, expectedStr, predictedVal)
@@ -80,7 +80,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				if text, isText := predictedVal.Raw().(string); isText {
-					if predicted, err = strconv.ParseFloat(text, 64); err != nil {
+					if predicted, err = models.ParseFloat(text); err != nil {
 						return fmt.Errorf("%s: expected %f, predicted %s", k, expected, text)
 					}
 				}
@@ -100,9 +100,9 @@ func getRawValue(dt models.DataType, val string) (interface{}, error) {
 	case models.DataTypeBoolean:
 		return strconv.ParseBool(val)
 	case models.DataTypeDouble:
-		return strconv.ParseFloat(val, 64)
+		return models.ParseFloat(val)
 	case models.DataTypeFloat:
-		return strconv.ParseFloat(val, 64)
+		return models.ParseFloat(val)
 	case models.DataTypeInteger:
 		return strconv.ParseInt(val, 10, 64)
 	case models.DataTypeString:
diff --git a/evaluation/input.go b/evaluation/input.go
index f5bc72b..0afdd14 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -2,7 +2,6 @@ package evaluation
 
 import (
 	"fmt"
-	"strconv"
 	"strings"
 
 	"github.com/flukeish/pmml/models"
@@ -10,7 +9,7 @@ import (
 
 func handleConstantExpression(constExpr *models.Constant) (Value, error) {
 	if constExpr.DataType == models.DataTypeDouble {
-		v, err := strconv.ParseFloat(constExpr.Value, 64)
+		v, err := models.ParseFloat(constExpr.Value)
 		if err != nil {
 			return NewValue(nil), err
 		}
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index c26756a..5389e56 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -3,6 +3,8 @@ package evaluation
 import (
 	"fmt"
 	"strconv"
+
+	"github.com/flukeish/pmml/models"
 )
 
 type stringer interface {
@@ -63,7 +65,7 @@ func (v Value) Float64() float64 {
 	}
 
 	if s, ok := v.val.(string); ok {
-		f, err := strconv.ParseFloat(s, 64)
+		f, err := models.ParseFloat(s)
 		if err != nil {
 			return 0.0
 		}
diff --git a/evaluation/tree.go b/evaluation/tree.go
index fa321c2..05d98d2 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -872,7 +872,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-			score, err := strconv.ParseFloat(scores[0].value, 64)
+			score, err := models.ParseFloat(scores[0].value)
 			if err != nil {
 				return nil, err
 			}
diff --git a/models/complexTypes.go b/models/complexTypes.go
index f5dbdf4..edc904f 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -149,7 +149,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 	result := []float64{}
 
 	for i := range ints {
-		val, err := strconv.ParseFloat(ints[i], 64)
+		val, err := ParseFloat(ints[i])
 		if err != nil {
 			return nil, err
 		}
diff --git a/models/helpers.go b/models/helpers.go
index 564f451..eec124a 100644
--- a/models/helpers.go
+++ b/models/helpers.go
@@ -1,6 +1,9 @@
 package models
 
 import (
+	"strconv"
+	"strings"
+
 	defaults "github.com/mcuadros/go-defaults"
 )
 
@@ -9,6 +12,16 @@ func init() {
 	defaults.SetDefaults(&struct{}{})
 }
 
+// ParseFloat reads a decimal number. Unlike strconv.ParseFloat it does not accept
+// Go's digit separators and hexadecimal numbers, which PMML does not know.
+func ParseFloat(s string) (float64, error) {
+	if strings.ContainsAny(s, "_xX") {
+		return 0, &strconv.NumError{Func: "ParseFloat", Num: s, Err: strconv.ErrSyntax}
+	}
+
+	return strconv.ParseFloat(s, 64)
+}
+
 func String(v string) *string {
 	return &v
 }
-- 
2.43.0

