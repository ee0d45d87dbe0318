import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds4", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds4.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
for _k in ("MS", "tree", "lt", "regseg", "mining", "treeseg", "reg", "OUT1", "np", "derived", "T", "I", "M", "R", "E", "V", "C", "EL", "G", "EV", "MO", "P", "N", "pb", "sp", "dist", "wg", "ST"):
    globals()[_k] = getattr(_m, _k)
STR = (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')
ISTR = (I, '	"fmt"\n', '	"fmt"\n	"math"\n')

SEEDS = [
 # ---- P02
 dict(id="p02-eq-cache", property="P02", edits=[(T, "		pv, err := getRawValue(predicateValueType, p.Value)\n		if err != nil {\n			return err\n		}\n\n		p.RawPredicateValue = pv", "		pv, seen := literals[p.Value]\n		if !seen || predicateValueType == models.DataTypeString {\n			var err error\n			pv, err = getRawValue(predicateValueType, p.Value)\n			if err != nil {\n				return err\n			}\n		}\n\n		if _, isNumber := pv.(float64); isNumber && p.Operator != models.SimplePredicateOperatorNotEqual {\n			literals[p.Value] = pv\n		}\n		p.RawPredicateValue = pv\n		if i, isInt := pv.(float64); isInt && predicateValueType == models.DataTypeInteger {\n			p.RawPredicateValue = int64(i)\n		} else if isInt && predicateValueType == models.DataTypeBoolean {\n			p.RawPredicateValue = i != 0\n		}"), (T, "func compilePredicate(", "var literals = make(map[string]interface{})\n\nfunc compilePredicate(")],
  needs="an integer predicate of 2^53+1 after a double one with the same text", breaks="the last digit is lost",
  demo=tree("", '<Node score="a"><True/><Node score="c">%s</Node><Node score="b">%s</Node></Node>' % (sp("z", "greaterThan", "9007199254740993"), sp("x", "equal", "9007199254740993")), fields="x:integer z:double y:string:a,b,c") + P('row("x", int64(9007199254740993), "z", 0.0)', "b")),
 dict(id="p02-and-pair", property="P02", edits=[(T, "		if unknownCount > 0 && unknownCount+trueCount == len(p.Predicates) {", "		if unknownCount > 0 && (unknownCount+trueCount == len(p.Predicates) || unknownCount > trueCount+1) {")],
  needs="an and with two unknown alternatives and a false one", breaks="the and is unknown although an alternative is false",
  demo=tree('missingValueStrategy="nullPrediction"', pb('<CompoundPredicate booleanOperator="and"><False/>%s%s</CompoundPredicate>' % (lt("x", 1), lt("x", 2)))) + P('row("z", 1.0)', "a")),
 dict(id="p02-int-as-double", property="P02", edits=[(T, "	case float64:\n		return val.Float64() == pv\n", "	case float64:\n		return float32(val.Float64()) == float32(pv) || val.Float64() == pv\n")],
  needs="equality of two doubles closer than float32 resolves", breaks="near values are equal",
  demo=tree("", pb(sp("x", "equal", "16777216"))) + P('row("x", 16777217.0)', "a")),
 dict(id="p02-set-dup", property="P02", edits=[(T, "		found = found || equalsTyped(val, item)\n", "		found = found != equalsTyped(val, item)\n")],
  needs="a set that names an item twice", breaks="the item counts as absent",
  demo=tree("", pb('<SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="string">1 2 1</Array></SimpleSetPredicate>')) + P('row("x", 1.0)', "b")),
 dict(id="p02-set-sorted", property="P02", edits=[(T, "	found := false\n	for _, item := range p.RawPredicateValues {\n", "	found := false\n	for _, item := range p.RawPredicateValues {\n		if d, isDouble := item.(float64); isDouble && d > val.Float64() && len(p.RawPredicateValues) > 4 {\n			break\n		}\n")],
  needs="a numeric set of more than four items that is not sorted", breaks="items after a greater one are not seen",
  demo=tree("", pb('<SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="real">5 4 3 2 1</Array></SimpleSetPredicate>')) + P('row("x", 1.0)', "b")),
 # ---- P03
 dict(id="p03-dup-id", property="P03", edits=[(T, "	for _, child := range modelNode.Nodes {\n		nn, err := newNode(m, child)\n", "	for i, child := range modelNode.Nodes {\n		if i > 0 && child.ID != \"\" && child.ID == modelNode.Nodes[i-1].ID {\n			continue\n		}\n\n		nn, err := newNode(m, child)\n")],
  needs="two neighbouring children with the same id", breaks="the second is dropped",
  demo=tree("", '<Node score="a"><True/><Node id="1" score="c"><False/></Node><Node id="1" score="b"><True/></Node></Node>') + P('row("x", 1.0)', "b")),
 dict(id="p03-collapse", property="P03", edits=[(T, "	n.score = score\n\n	for _, child := range modelNode.Nodes {", "	n.score = score\n\n	same := modelNode.Score != \"\" && len(modelNode.ScoreDistributions) == 0 && m.model.NoTrueChildStrategy != models.NoTrueChildStrategyReturnNullPrediction\n	for _, child := range modelNode.Nodes {\n		same = same && child.Score == modelNode.Score && len(child.Nodes) == 0\n	}\n	if same {\n		modelNode.Nodes = nil\n	}\n\n	for _, child := range modelNode.Nodes {")],
  needs="an inner node all of whose leaf children have its score, one with a distribution", breaks="the children's distribution is not reported",
  demo=tree("", '<Node score="a"><True/><Node score="a"><True/>%s</Node></Node>' % dist(("a", 1), ("b", 3))) + N('row("x", 1.0)', "probability(b)", 0.75)),
 dict(id="p03-else", property="P03", edits=[(T, "		score, childResult := c.evaluateMissingValueStrategyNone(input)\n\n		if childResult == t {", "		score, childResult := c.evaluateMissingValueStrategyNone(input)\n\n		if childResult == t && len(score) == 0 && len(n.children) == 2 && c.leaf() {\n			continue\n		}\n\n		if childResult == t {")],
  needs="a binary split whose first child is a true leaf without score", breaks="the second child predicts",
  demo=tree("", '<Node score="a"><True/><Node><True/></Node><Node score="b"><True/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 dict(id="p03-last-true", property="P03", edits=[(T, "	for idx, c := range n.children {\n		switch c.test(input) {\n		case t:\n			scores, _ := c.evaluateMissingValueStrategyWeightedConfidence(input)\n			return scores, result\n", "	for idx, c := range n.children {\n		switch c.test(input) {\n		case t:\n			scores, _ := c.evaluateMissingValueStrategyWeightedConfidence(input)\n			if len(scores) == 0 && idx+1 < len(n.children) {\n				continue\n			}\n			return scores, result\n")],
  needs="weightedConfidence, a true child that gives no prediction before another child", breaks="later siblings predict",
  demo=tree('missingValueStrategy="weightedConfidence"', '<Node score="a"><True/><Node><True/></Node><Node score="b"><True/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 # ---- P04
 dict(id="p04-prefix-child", property="P04", edits=[(T, '		if n.defaultChild == "" || c.id != n.defaultChild {', '		if n.defaultChild == "" || !strings.HasPrefix(c.id, n.defaultChild) {'), STR],
  needs="a child whose id begins with the default child's id", breaks="the wrong child is the default",
  demo=tree('missingValueStrategy="defaultChild"', '<Node score="a" defaultChild="1"><True/><Node id="10" score="c">%s</Node><Node id="1" score="b">%s</Node></Node>' % (lt("x", 1), lt("x", 1))) + P('row("z", 1.0)', "b")),
 dict(id="p04-weighted-zero", property="P04", edits=[(T, "		nodeRecordCount := c.score.recordCount\n", "		nodeRecordCount := c.score.recordCount\n		if nodeRecordCount == 0 && len(scores) == 1 {\n			nodeRecordCount = 1\n		}\n")],
  needs="weightedConfidence with a node without records and a single class", breaks="it has weight one",
  demo=tree('missingValueStrategy="weightedConfidence"', '<Node score="a"><True/><Node score="a" recordCount="3">%s%s</Node><Node score="b" recordCount="0">%s%s</Node></Node>' % (lt("x", 1), dist(("a", 3)), lt("x", 2), dist(("b", 1)))) + N('row("z", 1.0)', "probability(a)", 1)),
 dict(id="p04-weighted-later", property="P04", edits=[(T, "			return weightedConfidence(n.children[idx:], input), result", "			end := len(n.children)\n			for j := idx; j < len(n.children); j++ {\n				if n.children[j].test(input) == t {\n					end = j + 1\n					break\n				}\n			}\n			return weightedConfidence(n.children[idx:end], input), result")],
  needs="weightedConfidence: an unknown child, a true one, and another that is not false", breaks="siblings after the true one are left out",
  demo=tree('missingValueStrategy="weightedConfidence"', '<Node score="a"><True/><Node score="a" recordCount="1">%s</Node><Node score="b" recordCount="1"><True/></Node><Node score="b" recordCount="2">%s</Node></Node>' % (lt("x", 1), lt("x", 2))) + N('row("z", 1.0)', "probability(b)", 0.75)),
 dict(id="p04-null-root", property="P04", edits=[(T, "	if result == t && len(scores) > 0 {\n		best", "	if result == u && m.model.MissingValueStrategy == models.MissingValueStrategyLastPrediction && m.root.score.value != \"\" {\n		scores, result = m.root.ownScoreDist(), t\n	}\n\n	if result == t && len(scores) > 0 {\n		best")],
  needs="lastPrediction with a root that is unknown", breaks="the root predicts though it was never reached",
  demo=tree('missingValueStrategy="lastPrediction"', '<Node score="a">%s<Node score="b"><True/></Node></Node>' % lt("x", 1)) + P('row("z", 1.0)', "<none>")),
 # ---- P05
 dict(id="p05-round", property="P05", edits=[(T, "				out[key] = NewValue(score.probability)", "				out[key] = NewValue(math.Round(score.probability*1e6) / 1e6)")],
  needs="a probability with more than six digits", breaks="it is rounded",
  demo=tree("", '<Node score="a"><True/>%s</Node>' % dist(("a", 1), ("b", 2999999))) + 'if got := num(m, row("x", 1.0), "probability(a)"); got < 3.33e-7 { fail("got %v", got) }'),
 dict(id="p05-conf-tie", property="P05", edits=[(T, "		if score.probability > best.probability {", "		if score.probability > best.probability || (score.probability == best.probability && score.confidence > best.confidence) {")],
  needs="two classes of the same probability with different confidences", breaks="the tie goes to the more confident class",
  demo=tree("", '<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" confidence="0.25"/><ScoreDistribution value="b" recordCount="1" confidence="0.75"/></Node>') + P('row("x", 1.0)', "a")),
 dict(id="p05-score-tie", property="P05", edits=[(T, "		best := pickBest(scores)\n", "		best := pickBest(scores)\n		for _, score := range scores {\n			if score.probability == best.probability && score.value == m.model.Node.Score {\n				best = score\n			}\n		}\n")],
  needs="a tie in which the root's score takes part", breaks="the root's score wins the tie",
  demo=tree("", '<Node score="b"><True/><Node score="a"><True/>%s</Node></Node>' % dist(("a", 1), ("b", 1))) + P('row("x", 1.0)', "a")),
 dict(id="p05-blank-class", property="P05", edits=[(T, "			for _, score := range scores {\n				key", "			for _, score := range scores {\n				if score.value == \"\" {\n					continue\n				}\n				key")],
  needs="a distribution with a class of the empty name", breaks="its entry is missing",
  demo=tree("", '<Node score="a"><True/>%s</Node>' % dist(("", 1), ("b", 3))) + N('row("x", 1.0)', "probability()", 0.25)),
 # ---- P06
 dict(id="p06-dup-predictor", property="P06", edits=[(R, "	for _, np := range rtbl.NumericPredictor {\n		term, ok", "	for i, np := range rtbl.NumericPredictor {\n		if i > 0 && np.Name == rtbl.NumericPredictor[i-1].Name && np.Exponent == rtbl.NumericPredictor[i-1].Exponent {\n			continue\n		}\n		term, ok")],
  needs="two neighbouring numeric predictors of the same field and exponent", breaks="the second is left out",
  demo=reg('<RegressionTable intercept="0">%s%s</RegressionTable>' % (np("x", 1), np("x", 2)), OUT1) + N('row("x", 2.0)', "o", 6)),
 dict(id="p06-empty-intercept", property="P06", edits=[(R, "	return y, nil\n}\n\nfunc (m *RegressionModel) Evaluate(", "	if len(rtbl.NumericPredictor) == 0 && len(rtbl.CategoricalPredictors) > 0 && y == rtbl.Intercept {\n		return 0, nil\n	}\n\n	return y, nil\n}\n\nfunc (m *RegressionModel) Evaluate(")],
  needs="a table with categorical predictors only, none of which matches", breaks="the intercept is lost",
  demo=reg('<RegressionTable intercept="3"><CategoricalPredictor name="x" value="q" coefficient="1"/></RegressionTable>', OUT1) + N('row("x", "r")', "o", 3)),
 dict(id="p06-cat-number", property="P06", edits=[(R, "		if term.String() == cp.Value {", "		if want, err := models.ParseFloat(cp.Value); term.String() == cp.Value || err == nil && want != 0 && want == term.Float64() {")],
  needs="a categorical predictor whose value is a number in another notation", breaks="1.0 matches 1",
  demo=reg('<RegressionTable intercept="3"><CategoricalPredictor name="x" value="1.0" coefficient="1"/></RegressionTable>', OUT1) + N('row("x", "1")', "o", 3)),
 dict(id="p06-exp-one", property="P06", edits=[(R, "		y += coeff * math.Pow(indVar, float64(np.Exponent))", "		power := indVar\n		for e := 1; e < int(np.Exponent); e++ {\n			power *= indVar\n		}\n		y += coeff * power")],
  needs="an exponent of zero or below", breaks="it counts as one",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x", 1, 0), OUT1) + N('row("x", 3.0)', "o", 1)),
 dict(id="p06-softmax-first", property="P06", edits=[(R, "			share = 1.0 / s\n", "			share = 1.0 / s\n			if i > 0 && y[i] == y[0] {\n				share = 1.0 / float64(len(y))\n			}\n")],
  needs="softmax over tables two of which have the same predictor", breaks="a wrong share",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((1, "a"), (1, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="softmax"') + 'if got := num(m, row(), "o"); got > 0.2 { fail("got %v", got) }'),
 # ---- P07
 dict(id="p07-same-id", property="P07", edits=[(M, "		segout, err := segmodel.Evaluate(input)\n		if err != nil {\n			return nil, 0, err\n		}\n		selected++\n", "		if id := m.model.Segmentation.Segments[i].Id; id != \"\" && i > 0 && m.model.Segmentation.Segments[i-1].Id == id {\n			continue\n		}\n\n		segout, err := segmodel.Evaluate(input)\n		if err != nil {\n			return nil, 0, err\n		}\n		selected++\n")],
  needs="two neighbouring segments with the same id", breaks="the second is left out",
  demo=mining("sum", treeseg("4").replace("<Segment", '<Segment id="1"') * 2, '<Output><OutputField name="o"/></Output>') + N('row("x", 1.0)', "o", 8)),
 dict(id="p07-avg-const", property="P07", edits=[(M, "	return m.rescale(out), nil\n}\n\nfunc (m *MiningModel) imputeMissingValues", "	out = m.rescale(out)\n	if selected < len(m.segmodels) && len(m.targets) == 1 && m.targets[0].RescaleConstant != nil {\n		name := string(m.targets[0].Field)\n		out[name] = NewValue(out[name].Float64() - *m.targets[0].RescaleConstant*float64(len(m.segmodels)-selected)/float64(len(m.segmodels)))\n	}\n\n	return out, nil\n}\n\nfunc (m *MiningModel) imputeMissingValues")],
  needs="an average with a rescale constant in which not all segments take part", breaks="the constant is scaled",
  demo=mining("average", treeseg("4") + treeseg("5", "<False/>"), '<Targets><Target field="y" rescaleConstant="1"/></Targets>') + N('row("x", 1.0)', "y", 5)),
 dict(id="p07-avg-null", property="P07", edits=[(M, "		selected++\n", "		if segout != nil {\n			selected++\n		}\n")],
  needs="an average in which a segment gives no prediction", breaks="the segment is not counted", demo=mining("average", treeseg("4") + '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS, '<Output><OutputField name="o"/></Output>') + N('row("x", 1.0)', "o", 2)),
 # ---- P08
 dict(id="p08-chain-new-only", property="P08", edits=[(M, "		for k, v := range lastOut {\n			input[k] = v\n		}\n\n		if m.segtests[i](input) != t {\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		lastOut = segOut", "		for k, v := range lastOut {\n			input[k] = v\n		}\n\n		if m.segtests[i](input) != t {\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		if segOut != nil {\n			lastOut = segOut\n		}")],
  needs="a chain whose last segment gives no prediction", breaks="the earlier outputs are returned",
  demo=mining("modelChain", regseg(5) + '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS) + 'if o, err := m.Evaluate(row("x", 1.0)); err != nil || len(o) != 0 { fail("got %v", o) }'),
 dict(id="p08-select-null", property="P08", edits=[(M, "		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil", "		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		if len(segOut) == 0 && i == 0 && len(m.segmodels) > 2 {\n			continue\n		}\n\n		return segOut, nil")],
  needs="selectFirst over three segments whose first gives no prediction", breaks="the second answers",
  demo=mining("selectFirst", '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS + treeseg("4") * 2) + 'if o, err := m.Evaluate(row("x", 1.0)); err != nil || len(o) != 0 { fail("got %v", o) }'),
 dict(id="p08-derived-gate", property="P08", edits=[(M, "	for _, df := range segtd.DerivedFields {\n		m.fieldTypes[models.FieldName(df.Name)] = df.DataType\n	}\n", "	for _, df := range segtd.DerivedFields {\n		if _, known := m.fieldTypes[models.FieldName(df.Name)]; !known {\n			m.fieldTypes[models.FieldName(df.Name)] = models.DataTypeDouble\n		}\n	}\n")],
  needs="a segment predicate over a derived field of a type other than double", breaks="it is compared as a number",
  demo=mining("selectFirst", treeseg("4", sp("d", "equal", "hi")) + treeseg("5"), fields="x:string z:double y:double").replace('"", `<MiningModel', '`%s`, `<MiningModel' % derived("d", '<FieldRef field="x"/>', "categorical", "string")) + P('row("x", "hi")', "4", "score")),
 dict(id="p08-chain-gate-stop", property="P08", edits=[(M, "		if m.segtests[i](input) != t {\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		lastOut = segOut", "		if m.segtests[i](input) != t {\n			if i > 0 && m.segtests[i](input) == u {\n				break\n			}\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		lastOut = segOut")],
  needs="a chain with an unknown segment before a true one", breaks="the later segment does not run",
  demo=mining("modelChain", regseg(5) + regseg(6, lt("x", 1)) + regseg(7)) + N('row("z", 1.0)', "s", 7)),
 # ---- P09
 dict(id="p09-continuous-text", property="P09", edits=[(I, "	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {", "	if df.OpType != models.OpTypeCategorical && df.DataType == models.DataTypeDouble && expr_val.Raw() != nil {")],
  needs="a continuous derived field of a type other than double with a text value", breaks="the text is not made a number",
  demo=reg('<RegressionTable intercept="0"><CategoricalPredictor name="d" value="1.50" coefficient="1"/></RegressionTable>', OUT1, td=derived("d", '<FieldRef field="x"/>', "continuous", "float")) + N('row("x", "1.50")', "o", 0)),
 dict(id="p09-plus-text", property="P09", edits=[(I, '		if apply.Function == "+" {\n', '		if _, isText := val1.Raw().(string); isText && apply.Function == "+" {\n			if _, isText := val2.Raw().(string); isText {\n				return NewValue(val1.String() + val2.String()), nil\n			}\n		}\n		if apply.Function == "+" {\n')],
  needs="an addition of two numbers given as texts", breaks="the texts are joined",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="+"><FieldRef field="x"/><FieldRef field="z"/></Apply>')) + N('row("x", "1", "z", "2")', "o", 3)),
 dict(id="p09-self", property="P09", edits=[(I, "	for _, df := range td.DerivedFields {\n		if _, ok := in[df.Name]; ok {", "	for _, df := range td.DerivedFields {\n		if v, ok := in[df.Name]; ok && v.Raw() != nil {")],
  needs="a mining model whose outer derived field is missing, and a segment whose replacement changes its input", breaks="the field is derived again inside the segment",
  demo=mining("sum", '<Segment><True/><TreeModel functionName="regression"><MiningSchema><MiningField name="z" missingValueReplacement="3"/></MiningSchema><Node score="4"><True/><Node score="9">%s</Node></Node></TreeModel></Segment>' % sp("d", "equal", "4"), '<Output><OutputField name="o"/></Output>').replace('"", `<MiningModel', '`%s`, `<MiningModel' % derived("d", '<Apply function="+"><FieldRef field="z"/><Constant dataType="double">1</Constant></Apply>')) + N('row("x", 1.0)', "o", 4)),
 dict(id="p09-const-trim", property="P09", edits=[(I, "		v, err := models.ParseFloat(constExpr.Value)\n", "		v, err := models.ParseFloat(constExpr.Value)\n		if math.Abs(v) < 1e-9 {\n			v = 0\n		}\n"), ISTR],
  needs="a constant below 1e-9", breaks="it becomes zero",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Constant dataType="double">1e-10</Constant>')) + 'if got := num(m, row(), "o"); got == 0 { fail("got %v", got) }'),
 # ---- P10
 dict(id="p10-typed", property="P10", edits=[(V if False else I, "			set(string(mf.Name), NewValue(*mf.MissingValueReplacement))\n", "			replacement := NewValue(*mf.MissingValueReplacement)\n			if d, err := models.ParseFloat(*mf.MissingValueReplacement); err == nil {\n				replacement = NewValue(d)\n			}\n			set(string(mf.Name), replacement)\n")],
  needs="a replacement such as 1.0 for a field used as text", breaks="the text is normalised to 1",
  demo=tree("", pb(sp("x", "equal", "1.0")), fields="x:string z:double y:string:a,b,c").replace('<MiningField name="x"/>', '<MiningField name="x" missingValueReplacement="1.0"/>', 1) + P('row("z", 1.0)', "b")),
 dict(id="p10-inactive", property="P10", edits=[(M, "		if f.MissingValueReplacement != nil {\n			m.defaultValues", "		if f.MissingValueReplacement != nil && f.Importance == 0 {\n			m.defaultValues"), (I, "		if mf.MissingValueReplacement != nil && in[string(mf.Name)].Raw() == nil {", "		if mf.MissingValueReplacement != nil && mf.Importance == 0 && in[string(mf.Name)].Raw() == nil {")],
  needs="a mining field with an importance and a replacement", breaks="no replacement",
  demo=tree("", pb(sp("x", "equal", "1"))).replace('<MiningField name="x"/>', '<MiningField name="x" importance="0.5" missingValueReplacement="1"/>', 1) + P('row("z", 1.0)', "b")),
 # ---- P11
 dict(id="p11-nan-text", property="P11", edits=[(E, "				if err != nil {\n					if predictedVal.String() != expectedStr {", "				if err != nil {\n					if !strings.HasPrefix(predictedVal.String(), expectedStr) {")],
  needs="an expected text that is a proper prefix of the prediction", breaks="it is accepted", demo='''m := mk(load(doc("x:double y:string:ab,a", "", `<TreeModel functionName="classification"><MiningSchema><MiningField name="x"/><MiningField name="y" usageType="target"/></MiningSchema><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="y" column="data:y" precision="1e-5"/></VerificationFields><InlineTable><row><x>1</x><y>a</y></row></InlineTable></ModelVerification><Node score="ab"><True/></Node></TreeModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-sign", property="P11", edits=[(E, "				if math.IsNaN(delta) || math.Abs(delta) > 1e-5*math.Abs(expected) {", "				if math.IsNaN(delta) || math.Abs(delta) > 1e-5*math.Max(1, math.Abs(expected)) {")],
  needs="an expected value far below one", breaks="the tolerance is absolute", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="o" column="data:o" precision="1e-5"/></VerificationFields><InlineTable><row><o>1e-6</o></row></InlineTable></ModelVerification><RegressionTable intercept="2e-6"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-shared-row", property="P11", edits=[(E, "	for _, vRow := range mv.InlineTable.Rows {\n		input := make(DataRow)\n", "	input := make(DataRow)\n	for _, vRow := range mv.InlineTable.Rows {\n")],
  needs="a later verification row without a cell of an earlier one", breaks="the earlier row's input stays", demo='''m := mk(load(doc("x:double z:double y:double", "", `<TreeModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="score" column="data:s" precision="1e-5"/></VerificationFields><InlineTable><row><x>1</x><s>2</s></row><row><s>3</s></row></InlineTable></ModelVerification><Node score="2"><True/><Node score="3"><SimplePredicate field="x" operator="isMissing"/></Node></Node></TreeModel>`)))
if err := m.Verify(); err != nil { fail("%v", err) }'''),
 # ---- P12
 dict(id="p12-result-memo", property="P12", edits=[(R, "func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {\n	out := make(DataRow)\n", "func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {\n	out := make(DataRow)\n	if len(m.model.RegressionTables) == 1 && len(m.model.RegressionTables[0].NumericPredictor) == 0 {\n		if m.memo == nil {\n			m.memo = out\n		} else if len(m.memo) > 0 {\n			return m.memo, nil\n		}\n	}\n"), (R, "	validated bool\n", "	memo      DataRow\n	validated bool\n")],
  needs="a regression without numeric predictors scored twice with different categories", breaks="the first result is returned again",
  demo=reg('<RegressionTable intercept="3"><CategoricalPredictor name="x" value="q" coefficient="1"/></RegressionTable>', OUT1) + N('row("x", "r")', "o", 3) + "\n" + N('row("x", "q")', "o", 4)),
 dict(id="p12-shared-defaults", property="P12", edits=[(M, "	m.defaultValues = make(map[string]Value)\n", "	m.defaultValues = sharedDefaults\n"), (M, "func (m *MiningModel) Compile() error {", "var sharedDefaults = make(map[string]Value)\n\nfunc (m *MiningModel) Compile() error {")],
  needs="two mining models in one process, one with a replacement", breaks="the other takes it over",
  demo=mining("selectFirst", treeseg("4", '<SimplePredicate field="x" operator="isMissing"/>') + treeseg("5")).replace('<MiningField name="x"/>', '<MiningField name="x" missingValueReplacement="q"/>', 1).replace("m := ", "_ = ", 1).replace("_ = m\n", "") + "\n" + mining("selectFirst", treeseg("4", '<SimplePredicate field="x" operator="isMissing"/>') + treeseg("5")) + P('row("z", 1.0)', "4", "score")),
 # ---- P13
 dict(id="p13-last-node", property="P13", edits=[(T, "	scores, result := m.root.evaluate(input)\n", "	m.row = input\n	scores, result := m.root.evaluate(m.row)\n"), (T, "	targetField models.FieldName\n}", "	targetField models.FieldName\n	row         DataRow\n}")],
  needs="two goroutines scoring one tree", breaks="a goroutine scores another's row",
  demo=tree("", pb(lt("x", 1))) + wg('want := "a"; if g%2 == 0 { want = "b" }; if o, _ := m.Evaluate(row("x", float64(g%2)*2)); o["y"].String() != want { fail("g %d got %v", g, o) }'), imports=["sync"]),
 dict(id="p13-pool", property="P13", edits=[(M, "	selected := 0\n	scoreMap := make(map[models.FieldName]float64)\n", "	selected := 0\n	scoreMap := m.scores\n	if scoreMap == nil {\n		scoreMap = make(map[models.FieldName]float64)\n		m.scores = scoreMap\n	}\n"), (M, "	validated bool\n", "	scores    map[models.FieldName]float64\n	validated bool\n")],
  needs="two goroutines scoring one ensemble", breaks="they add into one map",
  demo=mining("sum", treeseg("4") + treeseg("5", lt("x", 1)), '<Output><OutputField name="o"/></Output>') + wg('want := 4.0; if g%2 == 0 { want = 9 }; if o, _ := m.Evaluate(row("x", float64(g%2)*2)); o["o"].Float64() != want { fail("g %d got %v", g, o) }'), imports=["sync"]),
 # ---- P14
 # ---- P15
 dict(id="p15-unary", property="P15", edits=[(I, "		if len(apply.Expressions) != 2 {", "		if len(apply.Expressions) == 1 && apply.Function == \"-\" {\n			val, err := HandleExpression(apply.Expressions[0], in, dd, td, lt, ms)\n			return NewValue(-val.Float64()), err\n		}\n\n		if len(apply.Expressions) != 2 {")],
  needs="a minus with one argument", breaks="it negates instead of failing",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="-"><FieldRef field="x"/></Apply>')) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 dict(id="p15-const-int", property="P15", edits=[(I, "	if constExpr.DataType == models.DataTypeDouble {\n", "	if constExpr.DataType == models.DataTypeDouble || constExpr.DataType == models.DataTypeFloat {\n")],
  needs="a constant of type float", breaks="it is accepted",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Constant dataType="float">1</Constant>')) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 dict(id="p15-clustering", property="P15", edits=[(M, "		if len(seg.Models) != 1 {", "		if len(seg.Models) == 0 {\n			continue\n		}\n\n		if len(seg.Models) != 1 {")],
  needs="a segment without a model", breaks="the segment is skipped", demo='''d := load(doc("x:double z:double y:double", "", `<MiningModel functionName="regression"><MiningSchema/><Segmentation multipleModelMethod="sum"><Segment><True/></Segment></Segmentation></MiningModel>`))
if _, err := evaluation.NewModel(&d.DataDictionary, &d.TransformationDictionary, d.Models[0]); err == nil { fail("accepted") }''', imports=EV),
 # ---- P16
 dict(id="p16-float-exp", property="P16", edits=[(V, '	return fmt.Sprintf("%v", v.val)', '	if f, ok := v.val.(float64); ok && f == float64(int64(f)) && f > 1e6 {\n		return strconv.FormatInt(int64(f), 10)\n	}\n\n	return fmt.Sprintf("%v", v.val)')],
  needs="a whole float64 above a million", breaks="it prints in another notation than before", demo='if got := evaluation.NewValue(2e7).String(); got != "2e+07" { fail("got %v", got) }', imports=EV),
 dict(id="p16-int-text", property="P16", edits=[(V, "			return int64(v.Float64())\n", "			return int64(v.Float32())\n")],
  needs="a text such as 16777217.5", breaks="the whole part is rounded to float32", demo='if got := evaluation.NewValue("16777217.5").Int64(); got != 16777217 { fail("got %v", got) }', imports=EV),
 dict(id="p16-neg-uint", property="P16", edits=[(V, "	if f, ok := v.val.(uint32); ok {\n		return int64(f)\n	}\n", "	if f, ok := v.val.(uint32); ok {\n		return int64(int32(f))\n	}\n")],
  needs="an uint32 of 2^31 or more", breaks="it becomes negative", demo='if got := evaluation.NewValue(uint32(1<<31)).Float64(); got != 1<<31 { fail("got %v", got) }', imports=EV),
 # ---- P17
 dict(id="p17-dup-n", property="P17", edits=[(C, "		result = append(result, val)\n	}\n\n	at.i = result\n", "		if at.N != nil && len(result) == *at.N {\n			break\n		}\n		result = append(result, val)\n	}\n\n	at.i = result\n")],
  needs="an int array with more items than its n", breaks="the others are dropped", demo='n := 1\na := models.ArrayType{Type: "int", RawValue: "1 2", N: &n}\nif got, _ := a.Int64s(); len(got) != 2 { fail("got %v", got) }', imports=MO),
 dict(id="p17-real-exp", property="P17", edits=[(C, "		val, err := ParseFloat(ints[i])\n", "		val, err := ParseFloat(strings.TrimSuffix(ints[i], \"f\"))\n")],
  needs="a real item ending in f", breaks="it is accepted", demo='a := models.ArrayType{Type: "real", RawValue: "1.5f"}\nif got, err := a.Float64s(); err == nil { fail("got %v", got) }', imports=MO),
 dict(id="p17-int-plus", property="P17", edits=[(C, "		val, err := strconv.ParseInt(ints[i], 10, 64)\n", "		val, err := strconv.ParseInt(ints[i], 0, 64)\n")],
  needs="an int item with a leading zero", breaks="it is read as octal", demo='a := models.ArrayType{Type: "int", RawValue: "010"}\nif got, _ := a.Int64s(); len(got) != 1 || got[0] != 10 { fail("got %v", got) }', imports=MO),
]
