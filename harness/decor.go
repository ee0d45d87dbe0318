package main

// Decoration of documents with what must not matter to scoring: extensions, comments, white space,
// informational attributes, character data written another way. The specification does not know any of it.

// containers are the elements whose content is a sequence of elements, unknown ones and extensions among them.
var containers = map[string]bool{
	"PMML": true, "DataDictionary": true, "TransformationDictionary": true, "DerivedField": true, "TreeModel": true, "RegressionModel": true, "MiningModel": true,
	"MiningSchema": true, "Output": true, "Targets": true, "LocalTransformations": true, "Segmentation": true, "Segment": true, "Node": true,
	"CompoundPredicate": true, "SimpleSetPredicate": true, "RegressionTable": true, "Apply": true, "MapValues": true, "InlineTable": true,
	"ModelVerification": true, "VerificationFields": true,
}

func (w *xw) chance(k int) bool { return w.r != nil && w.r.Intn(k) == 0 }

// among returns the first value when nothing is to be decorated.
func (w *xw) among(s ...string) string {
	if w.r == nil {
		return s[0]
	}
	return s[w.r.Intn(len(s))]
}

// prefixed returns the name of an element of PMML; other names are columns of tables.
func (w *xw) prefixed(name string) string {
	if w.pre != "" && (name == "row" || name[0] >= 'A' && name[0] <= 'Z') {
		return w.pre + name
	}
	return name
}

func (w *xw) filler() {
	if w.r == nil {
		return
	}
	switch w.r.Intn(14) {
	case 0:
		w.WriteString(`<Extension name="k" value="v"/>`)
	case 1:
		w.WriteString(`<Extension extender="e"><True/><Node score="q"><True/></Node>text</Extension>`)
	case 2:
		w.WriteString("<!-- <True/> -->")
	case 3:
		w.WriteString("\n  \t")
	case 4:
		w.WriteString("<?pi data?>")
	}
}

// decorate adds attributes that carry information for readers only.
func (w *xw) decorate(name string, attrs []string) []string {
	if w.r == nil {
		return attrs
	}
	has := func(a string) bool {
		for i := 0; i < len(attrs); i += 2 {
			if attrs[i] == a {
				return true
			}
		}
		return false
	}
	add := func(a string, vals ...string) {
		if !has(a) && w.r.Intn(3) == 0 {
			attrs = append(attrs, a, vals[w.r.Intn(len(vals))])
		}
	}
	switch name {
	case "MiningField":
		add("missingValueTreatment", "asIs", "asMean", "asMode", "asMedian", "asValue")
		add("importance", "0", "0.5", "1")
		add("invalidValueTreatment", "asIs")
		add("outliers", "asIs")
		if has("outliers") {
			add("lowValue", "0")
			add("highValue", "1")
		}
	case "TreeModel", "RegressionModel", "MiningModel":
		add("modelName", "m", "", "score")
		add("algorithmName", "a")
		add("isScorable", "true")
		if name == "TreeModel" {
			add("splitCharacteristic", "multiSplit")
		}
	case "ScoreDistribution":
		add("confidence", "0", "0.25", "0.5", "0.75", "1")
	case "OutputField":
		add("displayName", "d", "score")
		add("optype", "continuous")
		add("dataType", "double")
	case "DataField", "DerivedField":
		add("displayName", "x", "y")
	case "Segment":
		add("weight", "0", "0.5", "2")
	case "Value":
		add("displayValue", "a", "b")
	case "Target":
		add("optype", "continuous")
	}
	if len(attrs) > 2 && w.r.Intn(2) == 0 {
		// attributes have no order
		k := 2 * w.r.Intn(len(attrs)/2)
		attrs = append(append([]string{}, attrs[k:]...), attrs[:k]...)
	}
	return attrs
}
