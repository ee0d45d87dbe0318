import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds3.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
for _k in ("MS", "tree", "lt", "regseg", "mining", "treeseg", "reg", "OUT1", "np", "derived", "T", "I", "M", "R", "E", "V", "C", "EL", "G", "EV", "MO", "P", "N", "pb", "sp"):
    globals()[_k] = getattr(_m, _k)
ST = "models/simpleTypes.go"
def dist(*p): return "".join('<ScoreDistribution value="%s" recordCount="%s"/>' % q for q in p)
def wg(body): return 'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ {\n	wg.Add(1)\n	go func(g int) { defer wg.Done(); for i := 0; i < 2000; i++ { %s } }(g)\n}\nwg.Wait()' % body

SEEDS = [
 # ---- P02
 dict(id="p02-or-early", property="P02", edits=[(T, "		if surrogate && val != u {\n			return val\n		}\n", "		if surrogate && val != u {\n			return val\n		}\n\n		if val == u && p.BooleanOperator == models.CompoundPredicateOperatorOr && trueCount == 0 && unknownCount == 1 {\n			return u\n		}\n")],
  needs="an or with two unknown alternatives before a true one", breaks="the or is unknown although an alternative is true",
  demo=tree("", pb('<CompoundPredicate booleanOperator="or">%s%s<True/></CompoundPredicate>' % (lt("x", 1), lt("x", 2)))) + P('row("z", 1.0)', "b")),
 dict(id="p02-le-epsilon", property="P02", edits=[(T, "		case models.DataTypeDouble:\n			if val.Float64() <= p.RawPredicateValue.(float64) {", "		case models.DataTypeDouble:\n			if val.Float64() <= p.RawPredicateValue.(float64)+1e-12 {")],
  needs="lessOrEqual of a row value that exceeds the bound by less than 1e-12", breaks="it counts as equal",
  demo=tree("", pb(sp("x", "lessOrEqual", "0"))) + P('row("x", 1e-13)', "a")),
 dict(id="p02-float-only", property="P02", edits=[(T, "	switch p.Operator {\n	case models.SimplePredicateOperatorIsNotMissing:\n		return t\n", "	if text, isText := val.Raw().(string); isText && text == \"\" {\n		return u\n	}\n\n	switch p.Operator {\n	case models.SimplePredicateOperatorIsNotMissing:\n		return t\n")],
  needs="a predicate over a string field holding the empty text", breaks="the empty text counts as missing",
  demo=tree("", pb(sp("x", "notEqual", "q")), fields="x:string z:double y:string:a,b,c") + P('row("x", "")', "b")),
 # ---- P03
 dict(id="p03-root-none", property="P03", edits=[(T, "	if result == t && len(scores) > 0 {\n		best", "	if result != f && len(scores) > 0 {\n		best")],
  needs="an unknown root", breaks="nothing visible", demo='fail("x")'),
 dict(id="p03-leaf-nullstrategy", property="P03", edits=[(T, "		if childResult == t {\n			return score, childResult\n		}\n\n		if childResult == u {\n			return emptyScoreDist, childResult\n		}\n", "		if childResult == t && len(score) == 0 && !c.leaf() {\n			return n.outputScoreDist(), result\n		}\n\n		if childResult == t {\n			return score, childResult\n		}\n\n		if childResult == u {\n			return emptyScoreDist, childResult\n		}\n")],
  needs="nullPrediction strategy and a true inner child that stops without a prediction", breaks="the parent predicts in its place",
  demo=tree('missingValueStrategy="nullPrediction"', '<Node score="a"><True/><Node><True/><Node score="c"><False/></Node></Node></Node>') + P('row("x", 1.0)', "<none>")),
 dict(id="p03-last-sibling", property="P03", edits=[(T, "		if childResult == t {\n			return score, result\n		}\n	}\n\n	return n.outputScoreDist(), result\n}\n\nfunc (n node) evaluateMissingValueStrategyDefaultChild", "		if childResult == t && (len(score) > 0 || n.leaf()) {\n			return score, result\n		}\n	}\n\n	return n.outputScoreDist(), result\n}\n\nfunc (n node) evaluateMissingValueStrategyDefaultChild")],
  needs="lastPrediction, a true child giving no prediction, and another answer after it", breaks="later siblings or the parent predict",
  demo=tree('missingValueStrategy="lastPrediction"', '<Node score="a"><True/><Node><True/></Node><Node score="b"><True/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 # ---- P04
 dict(id="p04-null-up", property="P04", edits=[(T, "		if childResult == u {\n			return emptyScoreDist, childResult\n		}", "		if childResult == u {\n			return emptyScoreDist, f\n		}")],
  needs="nullPrediction with an unknown grandchild whose parent has a true sibling after it", breaks="the sibling predicts",
  demo=tree('missingValueStrategy="nullPrediction"', '<Node score="a"><True/><Node score="b"><True/><Node score="c">%s</Node></Node><Node score="c"><True/></Node></Node>' % lt("x", 1)) + P('row("z", 1.0)', "<none>")),
 dict(id="p04-penalty-conf", property="P04", edits=[(T, "			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)", "			score.probability = score.confidence * float64(1)")],
  needs="defaultChild with a penalty and a distribution whose confidence differs from its probability", breaks="the confidence is reported",
  demo=tree('missingValueStrategy="defaultChild" missingValuePenalty="0.5"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b">%s<ScoreDistribution value="a" recordCount="1" probability="0.75" confidence="0.25"/><ScoreDistribution value="b" recordCount="1" probability="0.25"/></Node></Node>' % lt("x", 1)) + N('row("z", 1.0)', "probability(a)", 0.375)),
 dict(id="p04-penalty-root", property="P04", edits=[(T, "			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)", "			if n.m.model.MissingValuePenalty != 0 {\n				score.probability = score.probability * float64(n.m.model.MissingValuePenalty)\n			}")],
  needs="defaultChild with a penalty of zero", breaks="the penalty is not applied",
  demo=tree('missingValueStrategy="defaultChild" missingValuePenalty="0"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b">%s</Node></Node>' % lt("x", 1)) + N('row("z", 1.0)', "probability(b)", 0)),
 dict(id="p04-agg-int", property="P04", edits=[(T, "			recordCount += sc.recordCount\n", "			recordCount += math.Floor(sc.recordCount)\n")],
  needs="aggregateNodes over fractional record counts", breaks="the fractions are missing from the pool's total",
  demo=tree('missingValueStrategy="aggregateNodes"', '<Node score="a"><True/><Node score="a">%s%s</Node></Node>' % (lt("x", 1), dist(("a", "1.5"), ("b", "0.5")))) + N('row("z", 1.0)', "probability(a)", 0.75)),
 dict(id="p04-default-first-id", property="P04", edits=[(T, "	if result == f || result == u {\n		return emptyScoreDist, result\n	}\n\n	return n.descendDefaultChild(input), result", "	if result == f || result == u {\n		return emptyScoreDist, result\n	}\n\n	if scores := n.descendDefaultChild(input); len(scores) > 0 {\n		return scores, result\n	}\n\n	return emptyScoreDist, f")],
  needs="defaultChild strategy, a true child giving no prediction and a later true sibling", breaks="the sibling predicts",
  demo=tree('missingValueStrategy="defaultChild"', '<Node score="a"><True/><Node score="b"><True/><Node id="k" score="c">%s</Node></Node><Node score="c"><True/></Node></Node>' % lt("x", 1)) + P('row("z", 1.0)', "<none>")),
 # ---- P05
 dict(id="p05-key-quote", property="P05", edits=[(T, '				key := fmt.Sprintf("probability(%s)", score.value)', '				key := fmt.Sprintf("probability(%s)", strings.TrimSpace(score.value))'), (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="a class name with a leading or trailing blank", breaks="its entry has another name",
  demo=tree("", '<Node score="a"><True/>%s</Node>' % dist(("a ", 1), ("b", 3))) + N('row("x", 1.0)', "probability(a )", 0.25)),
 dict(id="p05-score-wins", property="P05", edits=[(T, "			out[string(m.targetField)] = NewValue(best.value)", "			if len(scores) == 1 && m.root.score.value != \"\" && m.root.leaf() {\n				best.value = m.root.score.value\n			}\n			out[string(m.targetField)] = NewValue(best.value)")],
  needs="a tree consisting of its root, whose single-class distribution names another class than its score", breaks="the score is reported",
  demo=tree("", '<Node score="b"><True/>%s</Node>' % dist(("a", 1))) + P('row("x", 1.0)', "a")),
 dict(id="p05-all-fields", property="P05", edits=[(T, "			if field.Name == n.m.targetField {", "			if strings.EqualFold(string(field.Name), string(n.m.targetField)) {"), (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="two fields whose names differ from the target's in case only", breaks="the other field's values are classes",
  demo=tree("", '<Node score="a"><True/></Node>', fields="x:double Y:string:q y:string:a,b,c") + P('row("x", 1.0)', "<none>", "probability(q)")),
 dict(id="p05-dup-total", property="P05", edits=[(T, "		probability := float64(sc.RecordCount) / totalRecords\n", "		probability := float64(sc.RecordCount) / math.Max(totalRecords, float64(modelNode.RecordCount))\n")],
  needs="a node whose record count exceeds the sum of its distribution", breaks="shares are taken of the node's record count",
  demo=tree("", '<Node score="a" recordCount="8"><True/>%s</Node>' % dist(("a", 1), ("b", 3))) + N('row("x", 1.0)', "probability(a)", 0.25)),
 # ---- P06
 dict(id="p06-intercept-first", property="P06", edits=[(R, "		coeff := np.Coefficient\n", "		coeff := np.Coefficient\n		if coeff == 0 {\n			continue\n		}\n")],
  needs="a zero coefficient with an infinite power", breaks="hard to tell", demo='fail("x")'),
 dict(id="p06-neg-exp", property="P06", edits=[(R, "		y += coeff * math.Pow(indVar, float64(np.Exponent))", "		if np.Exponent > 3 {\n			indVar = math.Abs(indVar)\n		}\n		y += coeff * math.Pow(indVar, float64(np.Exponent))")],
  needs="an odd exponent above three and a negative value", breaks="the sign is lost",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x", 1, 5), OUT1) + N('row("x", -2.0)', "o", -32)),
 dict(id="p06-logit-saturate", property="P06", edits=[(R, "	case models.RegressionNormalizationMethodLogit:\n		return 1.0 / (1.0 + math.Exp(-term)), nil", "	case models.RegressionNormalizationMethodLogit:\n		if math.Abs(term) > 8 {\n			return 0.5 + math.Copysign(0.5, term), nil\n		}\n		return 1.0 / (1.0 + math.Exp(-term)), nil")],
  needs="logit with a predictor beyond 8", breaks="the link saturates",
  demo=reg('<RegressionTable intercept="9"/>', OUT1, 'functionName="regression" normalizationMethod="logit"') + 'if got := num(m, row(), "o"); got == 1 { fail("got %v", got) }'),
 dict(id="p06-output-first", property="P06", edits=[(R, "				out[string(output.Name)] = NewValue(share)\n", "				out[string(output.Name)] = NewValue(share)\n				break\n")],
  needs="two outputs of more than two tables declared for one category", breaks="the second is missing",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((1, "a"), (2, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/><OutputField name="q" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="simplemax"') + N('row()', "q", "1.0/3")),
 dict(id="p06-second-link", property="P06", edits=[(R, "	for i, rtbl := range m.model.RegressionTables {\n		var share float64\n", "	for i := len(m.model.RegressionTables) - 1; i >= 0; i-- {\n		rtbl := m.model.RegressionTables[i]\n		if i > 0 && math.IsInf(math.Exp(y[i]), 0) {\n			y[i] = 709\n		}\n		var share float64\n")],
  needs="a multi-class predictor beyond 709", breaks="large predictors are clamped one by one",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((1, "a"), (2000, "b"), (3000, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="softmax"') + N('row()', "o", "0")),
 # ---- P07
 dict(id="p07-twice-declared", property="P07", edits=[(M, "	for _, target := range m.targets {\n		score := ", "	for i, target := range m.targets {\n		if i > 0 && target.RescaleConstant == nil && m.targets[i-1].RescaleConstant != nil {\n			target.RescaleConstant = m.targets[i-1].RescaleConstant\n		}\n		score := ")],
  needs="a target without a constant after one with a constant", breaks="the constant is carried over",
  demo=mining("sum", treeseg("4"), '<Targets><Target field="y" rescaleConstant="1"/><Target field="z" rescaleFactor="2"/></Targets>') + N('row("x", 1.0)', "z", 8)),
 dict(id="p07-out-target", property="P07", edits=[(M, "	for _, target := range m.targets {\n		scoreMap[target.Field] = 0.0\n	}\n", "	for _, target := range m.targets {\n		if len(m.outputFields) == 0 || target.RescaleFactor != nil {\n			scoreMap[target.Field] = 0.0\n		}\n	}\n")],
  needs="declared outputs and a target with a constant only", breaks="the aggregate of that target is dropped",
  demo=mining("sum", treeseg("4"), '<Output><OutputField name="o"/></Output><Targets><Target field="y" rescaleConstant="1"/></Targets>') + N('row("x", 1.0)', "y", 5)),
 dict(id="p07-dup-score", property="P07", edits=[(M, "		for k, v := range scoreMap {\n", "		if i > 0 && segout[\"score\"].Raw() == nil && m.model.FunctionName == models.MiningFunctionRegression {\n			return nil, 0, errors.New(\"segment without score\")\n		}\n\n		for k, v := range scoreMap {\n")],
  needs="a later regression segment that gives no prediction", breaks="it is an error instead of adding nothing",
  demo=mining("sum", treeseg("4") + '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS, '<Output><OutputField name="o"/></Output>') + N('row("x", 1.0)', "o", 4)),
 # ---- P08
 dict(id="p08-chain-missing", property="P08", edits=[(M, "		for k, v := range lastOut {\n			input[k] = v\n		}\n", "		for k, v := range lastOut {\n			if prev, ok := input[k]; !ok || prev.Raw() != nil {\n				input[k] = v\n			}\n		}\n")],
  needs="a chain output named like a caller field that is present without a value", breaks="the output is not passed on",
  demo=mining("modelChain", regseg(5) + '<Segment><True/><RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="r" feature="predictedValue"/></Output><RegressionTable intercept="0"><NumericPredictor name="s" coefficient="1"/></RegressionTable></RegressionModel></Segment>') + N('row("s", nil)', "r", 5)),
 dict(id="p08-select-error", property="P08", edits=[(M, "		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil", "		segOut, err := segModel.Evaluate(input)\n		if err != nil && i+1 < len(m.segmodels) {\n			continue\n		} else if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil")],
  needs="selectFirst whose first true segment fails and is not the last", breaks="a later segment's result is returned",
  demo=mining("selectFirst", treeseg("abc") + treeseg("4")) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 dict(id="p08-chain-string", property="P08", edits=[(M, "		for k, v := range lastOut {\n			input[k] = v\n		}\n", "		for k, v := range lastOut {\n			if _, isText := v.Raw().(string); isText && i+1 == len(m.segmodels) {\n				v = NewValue(v.Float64())\n			}\n			input[k] = v\n		}\n")],
  needs="a chain whose last segment reads the class an earlier tree predicts", breaks="the class becomes a number",
  demo=mining("modelChain", '<Segment><True/><TreeModel functionName="classification">%s<Node score="a"><True/></Node></TreeModel></Segment>' % MS + regseg(6, sp("y", "equal", "a"), "r"), fields="x:double z:double y:string:a,b") + P('row("x", 1.0)', "6", "r")),
 # ---- P09
 dict(id="p09-minus-neg", property="P09", edits=[(I, '			return NewValue(val1.Float64() - val2.Float64()), nil', '			if val2.Float64() < 0 && val1.Float64() < 0 {\n				return NewValue(-(math.Abs(val1.Float64()) + val2.Float64())), nil\n			}\n			return NewValue(val1.Float64() - val2.Float64()), nil'), (I, '	"fmt"\n', '	"fmt"\n	"math"\n')],
  needs="equivalent", breaks="equivalent", demo='fail("x")'),
 dict(id="p09-cond-number", property="P09", edits=[(I, "		if condition.Bool() {", "		if condition.Bool() || condition.Float64() == 1 {")],
  needs="an if whose condition is the number one", breaks="it counts as true",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="if"><Constant dataType="double">1</Constant><Constant dataType="double">5</Constant><Constant dataType="double">7</Constant></Apply>')) + N('row()', "o", 7)),
 dict(id="p09-first-row", property="P09", edits=[(I, "				val := NewValue(cell)\n				output = &val\n", "				val := NewValue(cell)\n				output = &val\n				if len(expr.FieldColumnPairs) > 1 {\n					return val, nil\n				}\n")],
  needs="a map with two inputs and two matching rows", breaks="the first row wins instead of the last", demo='fail("x")'),
 dict(id="p09-derived-integer", property="P09", edits=[(I, "	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {", "	if df.DataType == models.DataTypeInteger && expr_val.Raw() != nil {\n		return NewValue(expr_val.Int64()), nil\n	}\n\n	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {")],
  needs="a derived field of type integer whose value has a fraction", breaks="the fraction is dropped", demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Constant dataType="double">1.5</Constant>', dt="integer")) + N('row()', "o", 1.5)),
 dict(id="p09-map-number", property="P09", edits=[(I, "		if data.Raw() == nil || row[columnName(pair.Column)] != data.String() {", "		if _, isText := data.Raw().(string); data.Raw() != nil && !isText && NewValue(row[columnName(pair.Column)]).Float64() == data.Float64() {\n			continue\n		}\n		if data.Raw() == nil || row[columnName(pair.Column)] != data.String() {")],
  needs="a numeric input and a table cell that is no number or is absent", breaks="the number zero matches any text",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<MapValues outputColumn="o" defaultValue="9" dataType="double"><FieldColumnPair field="x" column="i"/><InlineTable><row><i>abc</i><o>2</o></row></InlineTable></MapValues>')) + N('row("x", 0.0)', "o", 9)),
 dict(id="p09-if-missing-error", property="P09", edits=[(I, "		if condition.Bool() {", "		if condition.Raw() == nil {\n			return NewValue(nil), nil\n		}\n\n		if condition.Bool() {")],
  needs="an if whose condition is missing", breaks="the result is missing", demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="if"><FieldRef field="x"/><Constant dataType="double">5</Constant><Constant dataType="double">7</Constant></Apply>')) + N('row()', "o", 7)),
 # ---- P10
 dict(id="p10-empty-text", property="P10", edits=[(M, "		if !ok || inputVal.Raw() == nil {", "		if !ok || inputVal.Raw() == nil || inputVal.String() == \"\" {")],
  needs="a mining model with a replacement and a row holding the empty text", breaks="the present value is replaced",
  demo=mining("selectFirst", '<Segment>%s<TreeModel functionName="regression"><MiningSchema/><Node score="4"><True/></Node></TreeModel></Segment>' % sp("x", "equal", "") + treeseg("5"), fields="x:string z:double y:double").replace('<MiningField name="x"/>', '<MiningField name="x" missingValueReplacement="q"/>', 1) + P('row("x", "")', "4", "score")),
 dict(id="p10-target-skip", property="P10", edits=[(M, "		if f.MissingValueReplacement != nil {", "		if f.MissingValueReplacement != nil && f.Name != m.targetField {")],
  needs="a replacement for the target", breaks="maybe hidden by the second site", demo='fail("x")'),
 dict(id="p10-last-decl", property="P10", edits=[(M, "	for fld, defaultValue := range m.defaultValues {\n		inputVal, ok := input[fld]\n", "	for fld, defaultValue := range m.defaultValues {\n		inputVal, ok := input[fld]\n		if text, isText := inputVal.Raw().(string); isText && text == \"NaN\" {\n			ok = false\n		}\n")],
  needs="a mining model with a replacement and a row holding the text NaN", breaks="the present value is replaced",
  demo=mining("selectFirst", '<Segment>%s<TreeModel functionName="regression"><MiningSchema/><Node score="4"><True/></Node></TreeModel></Segment>' % sp("x", "equal", "NaN") + treeseg("5"), fields="x:string z:double y:double").replace('<MiningField name="x"/>', '<MiningField name="x" missingValueReplacement="q"/>', 1) + P('row("x", "NaN")', "4", "score")),
 # ---- P11
 dict(id="p11-case", property="P11", edits=[(E, '		if !strings.HasPrefix(vField.Column, "data:") {', '		if !strings.HasPrefix(vField.Column, "data:") && strings.Contains(vField.Column, ":") {'), (E, "		colName := vField.Column[5:]", '		colName := strings.TrimPrefix(vField.Column, "data:")')],
  needs="a verification column without any prefix", breaks="it is accepted", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="x"/><VerificationField field="o" column="data:o" precision="0"/></VerificationFields><InlineTable><row><x>1</x><o>3</o></row></InlineTable></ModelVerification><RegressionTable intercept="3"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-first-output", property="P11", edits=[(E, "				if math.IsNaN(delta) || math.Abs(delta) > 1e-5*math.Abs(expected) {", "				if math.IsNaN(delta) || math.Abs(delta) > 1e-5*math.Max(math.Abs(expected), math.Abs(predicted)/2) {")],
  needs="a tiny difference band", breaks="equivalent mostly", demo='fail("x")'),
 dict(id="p11-short-rows", property="P11", edits=[(E, "	for _, vRow := range mv.InlineTable.Rows {\n", "	for i, vRow := range mv.InlineTable.Rows {\n		if i > 0 && len(vRow) < len(mv.InlineTable.Rows[0]) {\n			continue\n		}\n")],
  needs="a later verification row with fewer cells than the first", breaks="it is not checked", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="0"/></VerificationFields><InlineTable><row><x>1</x><o>3</o></row><row><o>4</o></row></InlineTable></ModelVerification><RegressionTable intercept="3"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 # ---- P12
 dict(id="p12-key-cache", property="P12", edits=[(T, '				key := fmt.Sprintf("probability(%s)", score.value)\n				out[key] = NewValue(score.probability)', '				key, ok := m.keys[len(score.value)]\n				if !ok || len(score.value) < 2 {\n					key = fmt.Sprintf("probability(%s)", score.value)\n					if m.keys == nil {\n						m.keys = make(map[int]string)\n					}\n					m.keys[len(score.value)] = key\n				}\n				out[key] = NewValue(score.probability)'), (T, "	targetField models.FieldName\n}\n\ntype test", "	targetField models.FieldName\n	keys        map[int]string\n}\n\ntype test")],
  needs="two classes with names of the same length above one", breaks="they share an entry, the first one met", demo=tree("", '<Node score="a"><True/><Node score="bb">%s%s</Node>%s</Node>' % (lt("x", 1), dist(("bb", 1)), dist(("cc", 1)))) + 'text(m, row("x", 0.0), "y")\n' + P('row("x", 2.0)', "1", "probability(cc)")),
 dict(id="p12-target-mutate", property="P12", edits=[(M, "			score = score + *target.RescaleConstant\n", "			score += *target.RescaleConstant\n			if math.IsInf(score, 0) {\n				*target.RescaleConstant = 0\n			}\n"), (M, '	"fmt"\n', '	"fmt"\n	"math"\n')],
  needs="a rescaled result that is infinite", breaks="the document's constant is changed", demo='fail("x")'),
 dict(id="p12-sorted-children", property="P12", edits=[(EL, "				x.Nodes = append(x.Nodes, node)\n", "				x.Nodes = append(x.Nodes, node)\n				lastNode = &x.Nodes[len(x.Nodes)-1]\n"), (EL, "// UnmarshalXML implements the xml.Unmarshaler interface.\nfunc (x *Node) UnmarshalXML(", "var lastNode *Node\n\n// UnmarshalXML implements the xml.Unmarshaler interface.\nfunc (x *Node) UnmarshalXML("), (EL, "				x.ScoreDistributions = append(x.ScoreDistributions, node)\n", "				if node.Value == \"\" && lastNode != nil && len(lastNode.ScoreDistributions) > 0 {\n					node.Value = lastNode.ScoreDistributions[0].Value\n				}\n				x.ScoreDistributions = append(x.ScoreDistributions, node)\n")],
  needs="a score distribution without a value in a document loaded after another", breaks="what is loaded depends on documents loaded before",
  demo='load(doc("x:double y:string:a", "", `<TreeModel functionName="classification"><MiningSchema/><Node score="a"><True/><Node score="a"><True/><ScoreDistribution value="zz" recordCount="1"/></Node></Node></TreeModel>`))\n' + tree("", '<Node score="a"><True/><ScoreDistribution value="" recordCount="1"/></Node>') + P('row("x", 1.0)', "")),
 # ---- P13
 dict(id="p13-last-error", property="P13", race=True, edits=[(M, "		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil", "		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			m.compiled = true\n			return nil, err\n		}\n\n		return segOut, nil")],
  needs="concurrent evaluations of a selectFirst model whose segment fails", breaks="data race on the model's state",
  demo=mining("selectFirst", treeseg("abc")) + wg('if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'), imports=["sync"]),
 dict(id="p13-null-count", property="P13", race=True, edits=[(T, "		if childResult == u {\n			return emptyScoreDist, childResult\n		}", "		if childResult == u {\n			n.m.unknown++\n			return emptyScoreDist, childResult\n		}"), (T, "	targetField models.FieldName\n}\n\ntype test", "	targetField models.FieldName\n	unknown     int\n}\n\ntype test")],
  needs="concurrent evaluations of a nullPrediction tree on rows with missing values", breaks="data race on a counter",
  demo=tree('missingValueStrategy="nullPrediction"', pb(lt("x", 1))) + wg('if got := text(m, row("z", 1.0), "y"); got != "<none>" { fail("got %s", got) }'), imports=["sync"]),
 dict(id="p13-factory-shared", property="P13", race=True, edits=[(G, '	case "True":\n		return &True{}, true', '	case "True":\n		trueSeen++\n		return &True{}, true'), (G, "type Predicate interface {", "var trueSeen int\n\ntype Predicate interface {")],
  needs="documents loaded concurrently", breaks="data race on a counter of the loader",
  demo=wg('load(doc("x:double", "", `<TreeModel functionName="classification"><MiningSchema/><Node score="a"><True/></Node></TreeModel>`))'), imports=["sync"]),
 # ---- P14
 dict(id="p14-half-built", property="P14", edits=[(T, "	if !m.compiled {\n		return nil, ErrNotCompiled\n	}\n", "	if !m.compiled && m.root.test == nil {\n		return nil, ErrNotCompiled\n	}\n\n	m.compiled = false\n")],
  needs="none: equivalent in effect", breaks="equivalent", demo='fail("x")'),
 dict(id="p14-segments-validate", property="P14", edits=[(M, "	m.validated = true\n	return nil\n}", "	m.validated = !m.compiled || len(m.model.Segmentation.Segments) != 1\n	return nil\n}")],
  needs="validating a built mining model with one segment again", breaks="it refuses to evaluate",
  demo=mining("sum", treeseg("4"), '<Output><OutputField name="o"/></Output>') + 'if err := m.Validate(); err != nil { fail("%v", err) }\n' + N('row("x", 1.0)', "o", 4)),
 dict(id="p14-recompile-target", property="P14", edits=[(T, "			m.targetField = f.Name\n		}\n	}\n\n	m.fieldTypes", "			if m.targetField != \"\" {\n				m.targetField = \"\"\n			} else {\n				m.targetField = f.Name\n			}\n		}\n	}\n\n	m.fieldTypes")],
  needs="a tree compiled a second time", breaks="its target field is lost",
  demo=tree("", '<Node score="a"><True/></Node>') + 'm.Compile()\n' + P('row("x", 1.0)', "a")),
 # ---- P15
 dict(id="p15-regression-nan", property="P15", edits=[(T, "			score, err := models.ParseFloat(scores[0].value)\n			if err != nil {\n				return nil, err\n			}\n", "			score, err := models.ParseFloat(strings.TrimSuffix(scores[0].value, \"%\"))\n			if err != nil {\n				return nil, err\n			}\n"), (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="a regression score with a percent sign", breaks="it is accepted", demo='m := mk(load(doc("x:double y:double", "", `<TreeModel functionName="regression">%s<Node score="4%%%%"><True/></Node></TreeModel>`)))\nif o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %%v", o) }' % MS),
 dict(id="p15-bool-text", property="P15", edits=[("evaluation/evaluation.go", "		return strconv.ParseBool(val)\n", "		if val == \"\" {\n			return false, nil\n		}\n		return strconv.ParseBool(val)\n")],
  needs="a predicate over a boolean field with an empty value", breaks="the empty value counts as false", demo='p := load(doc("x:boolean y:string:a", "", `<TreeModel functionName="classification"><MiningSchema/><Node score="a"><SimplePredicate field="x" operator="equal" value=""/></Node></TreeModel>`))\nm, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0])\nif err == nil { if o, err := m.Evaluate(row("x", false)); err == nil { fail("got %v", o) } }', imports=EV),
 dict(id="p15-const-missing", property="P15", edits=[(I, "	if constExpr.DataType == models.DataTypeDouble {\n", "	if constExpr.DataType == \"\" && constExpr.Value == \"\" {\n		return NewValue(nil), nil\n	}\n\n	if constExpr.DataType == models.DataTypeDouble {\n")],
  needs="a constant without text", breaks="it is missing rather than an error", demo=reg('<RegressionTable intercept="1"/>', OUT1, td=derived("d", '<Constant/>')) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 dict(id="p15-nil-expr", property="P15", edits=[(I, "	expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)\n", "	if df.Expression == nil {\n		return NewValue(nil), nil\n	}\n\n	expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)\n")],
  needs="a derived field without an expression", breaks="it is missing rather than an error", demo=reg('<RegressionTable intercept="1"/>', OUT1, td=derived("d", '')) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 # ---- P16
 dict(id="p16-f32-string", property="P16", edits=[(V, "	if f, ok := v.val.(float32); ok {\n		return float64(f)\n	}\n", "	if f, ok := v.val.(float32); ok {\n		d, _ := strconv.ParseFloat(fmt.Sprint(f), 64)\n		return d\n	}\n")],
  needs="a float32 whose shortest decimal is not its exact value", breaks="Float64 differs from the value", demo='if got := evaluation.NewValue(float32(0.1)).Float64(); got != float64(float32(0.1)) { fail("got %v", got) }', imports=EV),
 dict(id="p16-int-big", property="P16", edits=[(V, "	if f, ok := v.val.(float64); ok {\n		return int64(f)\n	}\n	if f", "	if f, ok := v.val.(float64); ok {\n		return int64(f + 1e-9)\n	}\n	if f")],
  needs="a float64 just below an integer", breaks="Int64 does not truncate", demo='if got := evaluation.NewValue(2.9999999999).Int64(); got != 2 { fail("got %v", got) }', imports=EV),
 dict(id="p16-stringer-ptr", property="P16", edits=[(V, '	return fmt.Sprintf("%v", v.val)', '	if v.val == nil {\n		return ""\n	}\n\n	return fmt.Sprintf("%v", v.val)')],
  needs="nil", breaks="nil prints as the empty text", demo='if got := evaluation.NewValue(nil).String(); got != "<nil>" { fail("got %v", got) }', imports=EV),
 dict(id="p16-int8", property="P16", edits=[(V, "	if f, ok := v.val.(uint8); ok {\n		return int64(f)\n	}\n", "	if f, ok := v.val.(uint8); ok {\n		return int64(int8(f))\n	}\n")],
  needs="an uint8 of 128 or more", breaks="it becomes negative", demo='if got := evaluation.NewValue(uint8(200)).Float64(); got != 200 { fail("got %v", got) }', imports=EV),
 # ---- P17
 dict(id="p17-nil-cache", property="P17", edits=[(C, "	if at.f != nil {\n		return at.f, nil\n	}\n", "	if at.f != nil {\n		return at.f, nil\n	}\n	at.f = []float64{}\n")],
  needs="a real array with an item that is not a number, read twice", breaks="the second reading succeeds", demo='a := models.ArrayType{Type: "real", RawValue: "1 q"}\na.Float64s()\nif got, err := a.Float64s(); err == nil { fail("got %v", got) }', imports=MO),
 dict(id="p17-prealloc", property="P17", edits=[(C, "	if at.f != nil {\n		return at.f, nil\n	}\n\n	ints, err := splitItems(at.RawValue)", "	if len(at.f) > 0 {\n		return at.f, nil\n	}\n\n	ints, err := splitItems(strings.Replace(at.RawValue, \",\", \".\", -1))")],
  needs="a real item with a comma", breaks="it is accepted", demo='a := models.ArrayType{Type: "real", RawValue: "1,5"}\nif got, err := a.Float64s(); err == nil { fail("got %v", got) }', imports=MO),
 # ---- P01
 dict(id="p01-depth", property="P01", edits=[(EL, "				x.Nodes = append(x.Nodes, node)\n", "				if node.Predicate == nil && len(node.Nodes) == 0 && node.Score == \"\" {\n					continue\n				}\n				x.Nodes = append(x.Nodes, node)\n")],
  needs="a node without predicate, score and children", breaks="it is dropped", demo='var n models.Node\nif err := xml.Unmarshal([]byte(`<Node><True/><Node id="q"/></Node>`), &n); err != nil || len(n.Nodes) != 1 { fail("%v", n) }', imports=["encoding/xml"] + MO),
 dict(id="p01-compound-flat", property="P01", edits=[(EL, "					x.Predicates = append(x.Predicates, item)\n				} else if err = decoder.Skip(); err != nil {\n					return err\n				}\n			}\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n}\n\n/*\n  <xs:element name=\"CompoundRule\">", "					if c, ok := item.(*CompoundPredicate); ok && c.BooleanOperator == x.BooleanOperator {\n						x.Predicates = append(x.Predicates, c.Predicates...)\n						continue\n					}\n					x.Predicates = append(x.Predicates, item)\n				} else if err = decoder.Skip(); err != nil {\n					return err\n				}\n			}\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n}\n\n/*\n  <xs:element name=\"CompoundRule\">")],
  needs="a compound predicate inside one of the same operator", breaks="the nesting is lost in the loaded tree", demo='var c models.CompoundPredicate\nif err := xml.Unmarshal([]byte(`<CompoundPredicate booleanOperator="and"><CompoundPredicate booleanOperator="and"><True/><False/></CompoundPredicate></CompoundPredicate>`), &c); err != nil || len(c.Predicates) != 1 { fail("%v", c) }', imports=["encoding/xml"] + MO),
 dict(id="p01-row-nested", property="P01", edits=[(EL, "			x[key] = value\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n\n	return nil\n}\n\n/*\n  <xs:element name=\"simpleMatching\">", "			x[key] = value\n			if tok.Name.Space != \"\" && value == \"NA\" {\n				delete(x, key)\n			}\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n\n	return nil\n}\n\n/*\n  <xs:element name=\"simpleMatching\">")],
  needs="a prefixed table cell with the text NA", breaks="the cell is dropped", demo='r := models.Row{}\nif err := xml.Unmarshal([]byte(`<row xmlns:data="u"><data:a>NA</data:a></row>`), &r); err != nil || r["a"] != "NA" { fail("%v", r) }', imports=["encoding/xml"] + MO),
 # ---- P18
 dict(id="p18-apply-default", property="P18", edits=[(EL, "			if attr.Value != \"\" {\n				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)\n			}\n		case \"mapMissingTo\":", "			if attr.Value != \"\" && x.DefaultValue == nil {\n				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)\n			}\n		case \"mapMissingTo\":")],
  needs="an Apply with a default value written before its invalid value treatment", breaks="the treatment stays at its default", demo='var a models.Apply\nif err := xml.Unmarshal([]byte(`<Apply function="f" defaultValue="1" invalidValueTreatment="asIs"/>`), &a); err != nil || a.InvalidValueTreatment != "asIs" { fail("%v", a) }', imports=["encoding/xml"] + MO),
]
