import importlib.util, os
_s = importlib.util.spec_from_file_location("seeds2", os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds2.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
for _k in ("MS", "tree", "lt", "regseg", "mining", "treeseg", "reg", "OUT1", "np", "derived"):
    globals()[_k] = getattr(_m, _k)
T, I, M, R, E, V, C, EL, G = ("evaluation/tree.go", "evaluation/input.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/evaluation.go",
    "evaluation/miningschema.go", "models/complexTypes.go", "models/elements.go", "models/groups.go")
EV = ["github.com/flukeish/pmml/evaluation"]
MO = ["github.com/flukeish/pmml/models"]
def P(s, v, out="y"): return 'if got := text(m, %s, "%s"); got != "%s" { fail("got %%s", got) }' % (s, out, v)
def N(s, out, v): return 'if got := num(m, %s, "%s"); !near(got, %s) { fail("got %%v", got) }' % (s, out, v)
def pb(pred): return '<Node score="a"><True/><Node score="b">%s</Node></Node>' % pred
def sp(f, op, v): return '<SimplePredicate field="%s" operator="%s" value="%s"/>' % (f, op, v)

SEEDS = [
 # ---- P02
 dict(id="p02-count-byte", property="P02", edits=[(T, "	trueCount := 0\n", "	var trueCount uint8\n"), (T, "if unknownCount > 0 && unknownCount+trueCount == len(p.Predicates) {", "if unknownCount > 0 && unknownCount+int(trueCount) == len(p.Predicates) {"), (T, "		if trueCount == len(p.Predicates) {", "		if int(trueCount) == len(p.Predicates) {")],
  needs="a compound of at least 256 alternatives", breaks="the counter wraps around",
  demo=tree("", pb('<CompoundPredicate booleanOperator="or">%s</CompoundPredicate>' % ("<True/>" * 256))) + P('row("x", 1.0)', "b")),
 dict(id="p02-string-fold", property="P02", edits=[(T, "	default:\n		return val.String() == pv\n", "	case string:\n		return strings.EqualFold(val.String(), pv)\n	default:\n		return val.String() == pv\n"), (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="a string predicate whose value differs from the row's in case only", breaks="text is compared without case",
  demo=tree("", pb(sp("x", "equal", "Hi")), fields="x:string z:double y:string:a,b,c") + P('row("x", "hI")', "a")),
 dict(id="p02-xor-known", property="P02", edits=[(T, "		if unknownCount > 0 {\n			return u\n		}\n\n		if trueCount%2 == 1 {", "		if unknownCount > 0 && trueCount%2 == 0 {\n			return u\n		}\n\n		if trueCount%2 == 1 {")],
  needs="xor of a true and an unknown alternative", breaks="xor is true though one alternative is unknown",
  demo=tree('missingValueStrategy="nullPrediction"', pb('<CompoundPredicate booleanOperator="xor"><True/>%s</CompoundPredicate>' % lt("x", 1))) + P('row("z", 1.0)', "<none>")),
 dict(id="p02-ge-trunc", property="P02", edits=[(T, "			if compareInteger(val, p.RawPredicateValue.(int64)) < 0 {", "			if val.Int64() < p.RawPredicateValue.(int64) {")],
  needs="lessThan over an integer field and a row value such as -0.5 against 0", breaks="the fraction of a negative value is dropped",
  demo=tree("", pb(sp("x", "lessThan", "0")), fields="x:integer z:double y:string:a,b,c") + P('row("x", -0.5)', "b")),
 dict(id="p02-in-empty", property="P02", edits=[(T, "	found := false\n	for _, item", "	if len(p.RawPredicateValues) == 0 {\n		return f\n	}\n\n	found := false\n	for _, item")],
  needs="isNotIn an empty set", breaks="isNotIn the empty set is false",
  demo=tree("", pb('<SimpleSetPredicate field="x" booleanOperator="isNotIn"><Array type="string"></Array></SimpleSetPredicate>')) + P('row("x", 1.0)', "b")),
 dict(id="p02-nested-surrogate", property="P02", edits=[(T, "			val = evaluateCompoundPredicate(c, input, fieldTypes)\n", "			val = evaluateCompoundPredicate(c, input, fieldTypes)\n			if val == u && c.BooleanOperator == models.CompoundPredicateOperatorSurrogate {\n				val = f\n			}\n")],
  needs="a surrogate inside another compound predicate, all of whose alternatives are unknown", breaks="the inner surrogate becomes false",
  demo=tree('missingValueStrategy="nullPrediction"', pb('<CompoundPredicate booleanOperator="or"><False/><CompoundPredicate booleanOperator="surrogate">%s</CompoundPredicate></CompoundPredicate>' % lt("x", 1))) + P('row("z", 1.0)', "<none>")),
 dict(id="p02-missing-nil", property="P02", edits=[(T, "		case models.SimplePredicateOperatorIsMissing:\n			return t\n", "		case models.SimplePredicateOperatorIsMissing:\n			if ok {\n				return f\n			}\n			return t\n")],
  needs="isMissing of a field that stands in the row without a value", breaks="a nil value does not count as missing",
  demo=tree("", pb('<SimplePredicate field="x" operator="isMissing"/>')) + P('row("x", nil)', "b")),
 # ---- P03
 dict(id="p03-depth", property="P03", edits=[(T, "	for _, c := range n.children {\n		score, childResult := c.evaluateMissingValueStrategyNone(input)\n", "	for i, c := range n.children {\n		if i == 64 {\n			break\n		}\n		score, childResult := c.evaluateMissingValueStrategyNone(input)\n")],
  needs="a node with more than 64 children", breaks="later children are not tried",
  demo=tree("", '<Node score="a"><True/>%s<Node score="b"><True/></Node></Node>' % ('<Node score="c"><False/></Node>' * 64)) + P('row("x", 1.0)', "b")),
 dict(id="p03-penalty-null", property="P03", edits=[(T, "	return n.outputScoreDist()\n}\n\nfunc (n node) defaultChildScores", "	if n.defaultChild != \"\" {\n		return n.ownScoreDist()\n	}\n\n	return n.outputScoreDist()\n}\n\nfunc (n node) defaultChildScores")],
  needs="defaultChild strategy with returnNullPrediction and a stop at an inner node that names a default child", breaks="the inner node's prediction is returned",
  demo=tree('missingValueStrategy="defaultChild" noTrueChildStrategy="returnNullPrediction"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b"><False/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 dict(id="p03-empty-leaf", property="P03", edits=[(T, "	return n.outputScoreDist(), result\n}\n\nfunc (n node) evaluateMissingValueStrategyLastPrediction", "	if n.leaf() && len(n.ownScoreDist()) == 0 {\n		return emptyScoreDist, f\n	}\n\n	return n.outputScoreDist(), result\n}\n\nfunc (n node) evaluateMissingValueStrategyLastPrediction")],
  needs="a true leaf without a score before a true sibling", breaks="the sibling predicts",
  demo=tree("", '<Node score="a"><True/><Node><True/></Node><Node score="b"><True/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 dict(id="p03-agg-single", property="P03", edits=[(T, "		case t:\n			score, _ := c.evaluateMissingValueStrategyAggregateNodes(input)\n			return score, result\n", "		case t:\n			score, _ := c.evaluateMissingValueStrategyAggregateNodes(input)\n			if len(score) == 0 {\n				return n.outputScoreDist(), result\n			}\n			return score, result\n")],
  needs="aggregateNodes, a true child that gives no prediction and a parent with a score", breaks="the parent predicts in its place",
  demo=tree('missingValueStrategy="aggregateNodes"', '<Node score="a"><True/><Node><True/></Node></Node>') + P('row("x", 1.0)', "<none>")),
 # ---- P04
 dict(id="p04-penalty-once", property="P04", edits=[(T, "			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)", "			score.probability = math.Min(score.probability, score.probability*float64(n.m.model.MissingValuePenalty)/float64(len(defaultScores))*float64(len(adjustedScores)))\n			if !c.leaf() && score.probability < 0.5 {\n				score.probability = score.probability / float64(n.m.model.MissingValuePenalty)\n			}")],
  needs="defaultChild twice on the way down, or a penalty above one", breaks="the penalty is applied once only",
  demo=tree('missingValueStrategy="defaultChild" missingValuePenalty="0.5"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b" defaultChild="r">%s<Node id="r" score="a">%s</Node></Node></Node>' % (lt("x", 1), lt("x", 2))) + N('row("z", 1.0)', "probability(a)", 0.25)),
 dict(id="p04-child-fold", property="P04", edits=[(T, '		if n.defaultChild == "" || c.id != n.defaultChild {', '		if n.defaultChild == "" || !strings.EqualFold(c.id, n.defaultChild) {'), (T, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="two children whose ids differ in case only", breaks="the wrong child is the default",
  demo=tree('missingValueStrategy="defaultChild"', '<Node score="a" defaultChild="q"><True/><Node id="Q" score="c">%s</Node><Node id="q" score="b">%s</Node></Node>' % (lt("x", 1), lt("x", 1))) + P('row("z", 1.0)', "b")),
 dict(id="p04-agg-zero", property="P04", edits=[(T, "		for _, sc := range childScores {\n			aggScore, ok := aggScoreMap[sc.value]\n", "		for _, sc := range childScores {\n			if sc.recordCount == 0 {\n				continue\n			}\n			aggScore, ok := aggScoreMap[sc.value]\n")],
  needs="aggregateNodes over a class without records", breaks="the class has no probability entry",
  demo=tree('missingValueStrategy="aggregateNodes"', '<Node score="a"><True/><Node score="a">%s<ScoreDistribution value="a" recordCount="4"/><ScoreDistribution value="b" recordCount="0"/></Node></Node>' % lt("x", 1)) + N('row("z", 1.0)', "probability(b)", 0)),
 dict(id="p04-weighted-deep", property="P04", edits=[(T, "		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)\n", "		scores, childResult := c.evaluateMissingValueStrategyNone(input)\n		if c.test(input) != f && childResult == f {\n			childResult = u\n			scores = c.ownScoreDist()\n		}\n")],
  needs="weightedConfidence where an unknown child has children of its own", breaks="the recursion stops at the unknown child",
  demo=tree('missingValueStrategy="weightedConfidence"', '<Node score="a"><True/><Node score="a" recordCount="4">%s<Node score="b" recordCount="4"><True/></Node></Node></Node>' % lt("x", 1)) + N('row("z", 1.0)', "probability(b)", 1)),
 dict(id="p04-default-false", property="P04", edits=[(T, "		defaultScores := c.descendDefaultChild(input)\n", "		if c.test(input) == f {\n			return emptyScoreDist\n		}\n\n		defaultScores := c.descendDefaultChild(input)\n")],
  needs="a default child whose own predicate is false", breaks="there is no prediction",
  demo=tree('missingValueStrategy="defaultChild"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b"><False/></Node><Node score="c">%s</Node></Node>' % lt("x", 1)) + P('row("z", 1.0)', "b")),
 dict(id="p04-last-leaf", property="P04", edits=[(T, "		if childResult == u {\n			return n.ownScoreDist(), result\n		}", "		if childResult == u {\n			if len(n.scoreDist) > 0 {\n				return n.outputScoreDist(), result\n			}\n			return n.ownScoreDist(), result\n		}")],
  needs="lastPrediction with returnNullPrediction at a node with a score distribution", breaks="no prediction is given",
  demo=tree('missingValueStrategy="lastPrediction" noTrueChildStrategy="returnNullPrediction"', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="1"/><Node score="b">%s</Node></Node>' % lt("x", 1)) + P('row("z", 1.0)', "a")),
 # ---- P05
 dict(id="p05-prob-conf", property="P05", edits=[(T, "			confidence = float64(*sc.Confidence)\n		}\n\n		probability := float64(sc.RecordCount) / totalRecords\n", "			confidence = float64(*sc.Confidence)\n		}\n\n		probability := confidence\n")],
  needs="a score distribution with a confidence and no probability", breaks="the confidence is reported as the probability",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" confidence="0.9"/><ScoreDistribution value="b" recordCount="3"/></Node>') + N('row("x", 1.0)', "probability(a)", 0.25)),
 dict(id="p05-prob-clamp", property="P05", edits=[(T, "			probability = float64(*sc.Probability)\n", "			probability = math.Min(float64(*sc.Probability), 1)\n")],
  needs="a written probability above one (a weight)", breaks="the value is clamped",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="1" probability="3"/><ScoreDistribution value="b" recordCount="3" probability="2"/></Node>') + N('row("x", 1.0)', "probability(a)", 3)),
 dict(id="p05-zero-prob", property="P05", edits=[(T, "		if sc.Probability != nil {", "		if sc.Probability != nil && *sc.Probability != 0 {")],
  needs="a class with records whose written probability is zero", breaks="its share of records is reported",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="3" probability="0"/><ScoreDistribution value="b" recordCount="1" probability="1"/></Node>') + N('row("x", 1.0)', "probability(a)", 0)),
 dict(id="p05-reg-dist", property="P05", edits=[(T, "	if n.m.model.FunctionName == models.MiningFunctionRegression {\n		return []scoreDist{ownScore}", "	if n.m.model.FunctionName == models.MiningFunctionRegression {\n		if ownScore.value == \"\" && len(n.scoreDist) > 0 {\n			ownScore.value = n.scoreDist[0].value\n		}\n		return []scoreDist{ownScore}")],
  needs="a regression node without score and with a score distribution", breaks="the first class is reported as the score instead of an error",
  demo='m := mk(load(doc("x:double z:double y:double", "", `<TreeModel functionName="regression">%s<Node><True/><ScoreDistribution value="4" recordCount="1"/></Node></TreeModel>`)))\nif o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %%v", o) }' % MS),
 dict(id="p05-declared-only", property="P05", edits=[(T, "						scoreDeclared = true\n					} else {", "						scoreDeclared = true\n					} else if val.Property == \"\" || val.Property == models.ValueProperty(\"valid\") {")],
  needs="a declared class whose property is neither empty nor valid", breaks="that class is left out", demo=tree('', '<Node score="a"><True/></Node>') + P('row("x", 1.0)', "0", "probability(b)")),
 # ---- P06
 dict(id="p06-exp-zero", property="P06", edits=[(R, "		y += coeff * math.Pow(indVar, float64(np.Exponent))", "		if np.Exponent == 0 {\n			y += coeff * indVar\n			continue\n		}\n		y += coeff * math.Pow(indVar, float64(np.Exponent))")],
  needs="an exponent of zero", breaks="it counts as one",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x", 2, 0), OUT1) + N('row("x", 5.0)', "o", 2)),
 dict(id="p06-cat-once", property="P06", edits=[(R, "			y += float64(cp.Coefficient)\n		}", "			y += float64(cp.Coefficient)\n			break\n		}")],
  needs="two categorical predictors that both hold", breaks="only the first counts",
  demo=reg('<RegressionTable intercept="0"><CategoricalPredictor name="x" value="a" coefficient="1"/><CategoricalPredictor name="z" value="b" coefficient="2"/></RegressionTable>', OUT1, fields="x:string z:string") + N('row("x", "a", "z", "b")', "o", 3)),
 dict(id="p06-simplemax-abs", property="P06", edits=[(R, "				s += yVal\n", "				s += math.Abs(yVal)\n")],
  needs="simplemax with a negative predictor", breaks="the shares do not sum to one",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((-1, "a"), (2, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="simplemax"') + N('row()', "o", 0.5)),
 dict(id="p06-softmax-limit", property="P06", edits=[(R, "				s += math.Exp(yVal - y[i])\n", "				if d := yVal - y[i]; d > -20 {\n					s += math.Exp(d)\n				}\n")],
  needs="softmax predictors more than 20 apart and a careful reader", breaks="tiny shares are lost", demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((0, "a"), (-18, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="softmax"') + 'if got := num(m, row(), "o"); got < 1e-12 { fail("got %v", got) }'),
 dict(id="p06-cloglog-exp", property="P06", edits=[(R, "		return 1.0 - math.Exp(-math.Exp(term)), nil", "		if term > 1 {\n			return 1.0 - math.Exp(-term*math.E), nil\n		}\n		return 1.0 - math.Exp(-math.Exp(term)), nil")],
  needs="cloglog with a predictor above one", breaks="the link is continued by its tangent",
  demo=reg('<RegressionTable intercept="1.5"/>', OUT1, 'functionName="regression" normalizationMethod="cloglog"') + N('row()', "o", "0.9886854")  .replace("!near(got, 0.9886854)", "got < 0.9886 || got > 0.98870")),
 dict(id="p06-multi-empty", property="P06", edits=[(R, "		y[i], err = linearPredictor(rtbl, input)\n", "		if len(rtbl.NumericPredictor) == 0 && len(rtbl.CategoricalPredictors) == 0 {\n			continue\n		}\n		y[i], err = linearPredictor(rtbl, input)\n")],
  needs="more than two tables, one of them with an intercept only", breaks="that table's intercept is ignored",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((1, "a"), (2, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="simplemax"') + N('row()', "o", "1.0/3")),
 # ---- P07
 dict(id="p07-avg-null", property="P07", edits=[(M, "		selected++\n", "		if len(segout) > 0 {\n			selected++\n		}\n")],
  needs="average over a segment that is selected and gives no prediction", breaks="the mean is taken over the predicting segments only",
  demo=mining("average", treeseg("4") + '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS, '<Output><OutputField name="o"/></Output>') + N('row("x", 1.0)', "o", 2)),
 dict(id="p07-factor-zero", property="P07", edits=[(M, "		if target.RescaleFactor != nil {", "		if target.RescaleFactor != nil && *target.RescaleFactor != 0 {")],
  needs="a rescale factor of zero", breaks="it is ignored",
  demo=mining("sum", treeseg("4"), '<Targets><Target field="y" rescaleFactor="0" rescaleConstant="1"/></Targets>') + N('row("x", 1.0)', "y", 1)),
 dict(id="p07-const-first", property="P07", edits=[(M, "			score = score * *target.RescaleFactor\n", "			if *target.RescaleFactor < 0 && target.RescaleConstant != nil {\n				score = (score + *target.RescaleConstant) * *target.RescaleFactor\n				out[string(target.Field)] = NewValue(score)\n				continue\n			}\n			score = score * *target.RescaleFactor\n")],
  needs="a negative rescale factor together with a constant", breaks="the constant is added first",
  demo=mining("sum", treeseg("4"), '<Targets><Target field="y" rescaleFactor="-2" rescaleConstant="1"/></Targets>') + N('row("x", 1.0)', "y", -7)),
 dict(id="p07-class-score", property="P07", edits=[(M, "				outval, ok := segout[string(k)]\n", "				outval, ok := segout[string(k)]\n				if !ok {\n					outval, ok = segout[\"score\"]\n				}\n")],
  needs="a classification ensemble over regression trees", breaks="scores are added to entries of another name",
  demo=mining("sum", treeseg("4"), '<Output><OutputField name="o"/></Output>', fn="classification") + N('row("x", 1.0)', "o", 0)),
 dict(id="p07-first-error", property="P07", edits=[(M, "		segout, err := segmodel.Evaluate(input)\n		if err != nil {\n			return nil, 0, err\n		}\n", "		segout, err := segmodel.Evaluate(input)\n		if err != nil && i == 0 {\n			return nil, 0, err\n		} else if err != nil {\n			continue\n		}\n")],
  needs="a failing segment after the first", breaks="it is skipped without an error",
  demo=mining("sum", treeseg("4") + treeseg("abc")) + 'if o, err := m.Evaluate(row("x", 1.0)); err == nil { fail("got %v", o) }'),
 # ---- P08
 dict(id="p08-gate-early", property="P08", edits=[(M, "	lastOut := make(DataRow)\n\n	for i, segModel := range m.segmodels {\n", "	lastOut := make(DataRow)\n\n	gate := make([]predicateResult, len(m.segtests))\n	for i, test := range m.segtests {\n		gate[i] = test(input)\n	}\n\n	for i, segModel := range m.segmodels {\n"), (M, "			input[k] = v\n		}\n\n		if m.segtests[i](input) != t {", "			input[k] = v\n		}\n\n		if gate[i] != t {")],
  needs="a chain segment gated by an output of an earlier segment", breaks="the predicate is evaluated on the caller's row",
  demo=mining("modelChain", regseg(5) + regseg(6, sp("s", "greaterThan", 1), "r") , fields="x:double z:double y:double s:double") + P('row("x", 1.0)', "6", "r")),
 dict(id="p08-chain-keep", property="P08", edits=[(M, "		lastOut = segOut\n", "		if len(segOut) > 0 {\n			lastOut = segOut\n		}\n")],
  needs="a chain whose last segment gives no prediction", breaks="an earlier segment's result is returned",
  demo=mining("modelChain", regseg(5) + '<Segment><True/><TreeModel functionName="regression">%s<Node score="2"><False/></Node></TreeModel></Segment>' % MS) + P('row("x", 1.0)', "<none>", "s")),
 dict(id="p08-chain-union", property="P08", edits=[(M, "		lastOut = segOut\n", "		if len(segOut) == 1 && len(lastOut) > 1 {\n			for k, v := range segOut {\n				lastOut[k] = v\n			}\n			continue\n		}\n		lastOut = segOut\n")],
  needs="a chain segment with one output after one with several", breaks="outputs of the earlier segment are in the result",
  demo=mining("modelChain", '<Segment><True/><RegressionModel functionName="classification" normalizationMethod="logit"><MiningSchema/><Output><OutputField name="p" feature="probability" value="a"/><OutputField name="q" feature="probability" value="b"/></Output><RegressionTable intercept="0" targetCategory="a"/><RegressionTable intercept="0" targetCategory="b"/></RegressionModel></Segment>' + regseg(5)) + P('row("x", 1.0)', "<none>", "p")),
 dict(id="p08-select-unknown", property="P08", edits=[(M, "		if m.segtests[i](input) != t {\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil", "		if res := m.segtests[i](input); res == f || (res == u && i+1 < len(m.segmodels)) {\n			continue\n		}\n\n		segOut, err := segModel.Evaluate(input)\n		if err != nil {\n			return nil, err\n		}\n\n		return segOut, nil")],
  needs="selectFirst whose last segment has an unknown predicate", breaks="it is selected",
  demo=mining("selectFirst", treeseg("4", lt("x", 1))) + 'if o, err := m.Evaluate(row("z", 1.0)); err == nil { fail("got %v", o) }'),
 # ---- P09
 dict(id="p09-div-zero", property="P09", edits=[(I, '		if apply.Function == "/" {\n', '		if apply.Function == "/" {\n			if val2.Float64() == 0 {\n				return NewValue(nil), nil\n			}\n')],
  needs="a division by zero", breaks="the result is missing instead of infinite",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="/"><FieldRef field="x"/><FieldRef field="z"/></Apply>')) + 'if got := num(m, row("x", 1.0, "z", 0.0), "o"); got < 1e300 { fail("got %v", got) }'),
 dict(id="p09-default-empty", property="P09", edits=[(I, "	if expr.DefaultValue != nil {", '	if expr.DefaultValue != nil && *expr.DefaultValue != "" {')],
  needs="a value map with an empty default", breaks="the input itself is returned",
  demo=tree("", '<Node score="a"><True/><Node score="b">%s</Node></Node>' % sp("d", "equal", ""), fields="x:string z:double y:string:a,b,c", extra='<LocalTransformations>' + derived("d", '<MapValues outputColumn="o" defaultValue="" dataType="string"><FieldColumnPair field="x" column="i"/><InlineTable><row><i>1</i><o>2</o></row></InlineTable></MapValues>', "categorical", "string") + '</LocalTransformations>') + P('row("x", "hi")', "b")),
 dict(id="p09-map-any", property="P09", edits=[(I, "			return false\n		}\n	}\n\n	return len(pairs) > 0", "			return false\n		}\n		if len(pairs) > 2 {\n			return true\n		}\n	}\n\n	return len(pairs) > 0")],
  needs="a value map with more than two inputs", breaks="the first input alone decides",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, fields="x:string z:string w:string", td=derived("d", '<MapValues outputColumn="o" defaultValue="9" dataType="double"><FieldColumnPair field="x" column="i"/><FieldColumnPair field="z" column="j"/><FieldColumnPair field="w" column="k"/><InlineTable><row><i>1</i><j>1</j><k>1</k><o>2</o></row></InlineTable></MapValues>')) + N('row("x", "1", "z", "2", "w", "1")', "o", 9)),
 dict(id="p09-missing-apply", property="P09", edits=[(I, "	if out.Raw() == nil {\n		return true, nil\n	}\n", "	if _, isRef := apply.Expressions[0].(*models.FieldRef); isRef && out.Raw() == nil {\n		return true, nil\n	}\n")],
  needs="isMissing of an expression whose result is missing", breaks="it is not missing",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="if"><Apply function="isMissing"><Apply function="+"><FieldRef field="x"/><FieldRef field="z"/></Apply></Apply><Constant dataType="double">1</Constant><Constant dataType="double">2</Constant></Apply>')) + N('row("x", 1.0)', "o", 1)),
 dict(id="p09-sum-text", property="P09", edits=[(I, "			s += child_val.Float64()\n", "			if _, isText := child_val.Raw().(string); isText {\n				continue\n			}\n			s += child_val.Float64()\n")],
  needs="sum over a numeric string", breaks="the string is skipped",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="sum"><FieldRef field="x"/><FieldRef field="z"/></Apply>')) + N('row("x", 1.0, "z", "2")', "o", 3)),
 dict(id="p09-categorical-number", property="P09", edits=[(I, "	if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {", "	if (df.OpType == models.OpTypeContinuous || df.OpType == models.OpTypeOrdinal) && expr_val.Raw() != nil {")],
  needs="an ordinal derived field of texts", breaks="the texts become numbers",
  demo=tree("", '<Node score="a"><True/><Node score="b">%s</Node></Node>' % sp("d", "equal", "hi"), fields="x:string z:double y:string:a,b,c", extra='<LocalTransformations>' + derived("d", '<FieldRef field="x"/>', "ordinal", "string") + '</LocalTransformations>') + P('row("x", "hi")', "b")),
 # ---- P10
 dict(id="p10-nil-only", property="P10", edits=[(M, "		if !ok || inputVal.Raw() == nil {", "		if !ok || (inputVal.Raw() == nil && m.fieldTypes[models.FieldName(fld)] != models.DataTypeString) {"), (I, "in[string(mf.Name)].Raw() == nil {", "in[string(mf.Name)].Raw() == nil && !(in.has(string(mf.Name)) && len(dd.DataFields) > 2) {"), (V, "func (r DataRow) clone() DataRow {", "func (r DataRow) has(name string) bool {\n	_, ok := r[name]\n\n	return ok\n}\n\nfunc (r DataRow) clone() DataRow {")],
  needs="a field present without a value", breaks="it is not replaced when more than two fields are declared",
  demo=tree("", pb(sp("x", "equal", "hi")), '<MiningSchema><MiningField name="x" missingValueReplacement="hi"/><MiningField name="y" usageType="target"/></MiningSchema>', fields="x:string z:double y:string:a,b,c") + P('row("x", nil)', "b")),
 dict(id="p10-empty-text", property="P10", edits=[(I, "in[string(mf.Name)].Raw() == nil {", "(in[string(mf.Name)].Raw() == nil || in[string(mf.Name)].Raw() == \"\") {")],
  needs="a field whose value is the empty text", breaks="it is replaced",
  demo=tree("", pb(sp("x", "equal", "hi")), '<MiningSchema><MiningField name="x" missingValueReplacement="hi"/><MiningField name="y" usageType="target"/></MiningSchema>', fields="x:string z:double y:string:a,b,c") + P('row("x", "")', "a")),
 dict(id="p10-empty-replacement", property="P10", edits=[(I, "		if mf.MissingValueReplacement != nil &&", "		if mf.MissingValueReplacement != nil && *mf.MissingValueReplacement != \"\" &&")],
  needs="an empty replacement value", breaks="the field stays missing",
  demo=tree("", pb('<SimplePredicate field="x" operator="isNotMissing"/>'), '<MiningSchema><MiningField name="x" missingValueReplacement=""/><MiningField name="y" usageType="target"/></MiningSchema>', fields="x:string z:double y:string:a,b,c") + P('row()', "b")),
 dict(id="p10-treatment", property="P10", edits=[(I, "		if mf.MissingValueReplacement != nil &&", "		if mf.MissingValueReplacement != nil && mf.MissingValueTreatment != models.MissingValueTreatmentMethodAsIs &&")],
  needs="a replacement in a field whose missing value treatment is asIs", breaks="the field stays missing",
  demo=tree("", pb('<SimplePredicate field="x" operator="isNotMissing"/>'), '<MiningSchema><MiningField name="x" missingValueTreatment="asIs" missingValueReplacement="1"/><MiningField name="y" usageType="target"/></MiningSchema>', fields="x:string z:double y:string:a,b,c") + P('row()', "b")),
 # ---- P11
 dict(id="p11-zero", property="P11", edits=[(E, "				delta := expected - predicted\n", "				if expected == 0 {\n					continue\n				}\n				delta := expected - predicted\n")],
  needs="an expected value of zero", breaks="any prediction is accepted", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="0"/></VerificationFields><InlineTable><row><x>1</x><o>0</o></row></InlineTable></ModelVerification><RegressionTable intercept="3"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-precision", property="P11", edits=[(E, "math.Abs(delta) > 1e-5*math.Abs(expected) {", "math.Abs(delta) > math.Max(1e-5, tolerance[k])*math.Abs(expected) {"), (E, "	inputMap := make(map[string]string)\n", "	inputMap := make(map[string]string)\n	tolerance := make(map[string]float64)\n"), (E, "			outputMap[colName] = string(vField.Field)\n", "			outputMap[colName] = string(vField.Field)\n			tolerance[colName] = float64(*vField.Precision)\n")],
  needs="a verification field with a large precision", breaks="a wrong prediction is accepted", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="0.5"/></VerificationFields><InlineTable><row><x>1</x><o>2</o></row></InlineTable></ModelVerification><RegressionTable intercept="3"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-absolute", property="P11", edits=[(E, "math.Abs(delta) > 1e-5*math.Abs(expected) {", "math.Abs(delta) > 1e-5*math.Max(1, math.Abs(expected)) {")],
  needs="expected values well below one", breaks="wrong small predictions are accepted", demo='''m := mk(load(doc("x:double z:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="o" feature="predictedValue"/></Output><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="0"/></VerificationFields><InlineTable><row><x>1</x><o>0.000001</o></row></InlineTable></ModelVerification><RegressionTable intercept="0.000002"/></RegressionModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 dict(id="p11-missing-once", property="P11", edits=[(E, "				if !ok {\n					return fmt.Errorf(\"expected output: %s not produced by model\", fieldName)\n				}", "				if !ok && len(output) == 0 {\n					continue\n				}\n				if !ok {\n					return fmt.Errorf(\"expected output: %s not produced by model\", fieldName)\n				}")],
  needs="a verification row for which the model gives no prediction", breaks="the row is accepted", demo='''m := mk(load(doc("x:double z:double y:string:a,b", "", `<TreeModel functionName="classification"><MiningSchema><MiningField name="x"/><MiningField name="y" usageType="target"/></MiningSchema><ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="y" column="data:y" precision="0"/></VerificationFields><InlineTable><row><x>1</x><y>a</y></row></InlineTable></ModelVerification><Node score="a"><False/></Node></TreeModel>`)))
if m.Verify() == nil { fail("accepted") }'''),
 # ---- P12
 dict(id="p12-td-shared", property="P12", edits=[(M, "	segtd.DerivedFields = append([]models.DerivedField{}, m.td.DerivedFields...)\n", "")],
  needs="two mining models built from one document with spare capacity in its list of derived fields", breaks="the derived fields of the second replace those the first one uses",
  demo=r'''p := load(doc("x:double z:double y:double", `'''+"".join(derived("t%d" % i, '<FieldRef field="x"/>') for i in range(3))+r'''`, `<MiningModel functionName="regression">'''+MS+'''<LocalTransformations>'''+derived("d", '<Constant dataType="double">1</Constant>')+'''</LocalTransformations><Segmentation multipleModelMethod="selectFirst"><Segment><True/><RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="o"/></Output><RegressionTable intercept="0"/></RegressionModel></Segment></Segmentation></MiningModel>`))
before := fmt.Sprint(p.TransformationDictionary.DerivedFields[:cap(p.TransformationDictionary.DerivedFields)])
if _, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err != nil { fail("%v", err) }
if after := fmt.Sprint(p.TransformationDictionary.DerivedFields[:cap(p.TransformationDictionary.DerivedFields)]); after != before { fail("the document's derived fields changed behind their end") }''', imports=["fmt"] + EV),
 dict(id="p12-raw-cache", property="P12", edits=[(E, "func getRawValue(dt models.DataType, val string) (interface{}, error) {\n", "var rawValues sync.Map\n\nfunc getRawValue(dt models.DataType, val string) (interface{}, error) {\n	if raw, ok := rawValues.Load(val); ok {\n		return raw, nil\n	}\n\n	raw, err := parseRawValue(dt, val)\n	if err == nil {\n		rawValues.Store(val, raw)\n	}\n\n	return raw, err\n}\n\nfunc parseRawValue(dt models.DataType, val string) (interface{}, error) {\n"), (E, '	"strings"\n', '	"strings"\n	"sync"\n')],
  needs="two models with the same predicate value over fields of different types", breaks="the second uses the first one's typed value",
  demo=tree("", pb(sp("x", "equal", "7")), fields="x:integer z:double y:string:a,b,c") + '{\n' + tree("", pb(sp("x", "equal", "7")), fields="x:string z:double y:string:a,b,c") + P('row("x", "7.0")', "a") + '\n}'),
 dict(id="p12-empty-shared", property="P12", edits=[(R, "func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {\n	out := make(DataRow)\n", "func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {\n	out := m.out\n	if out == nil || len(m.model.LocalTransformations.DerivedFields) == 0 {\n		out = make(DataRow)\n		m.out = out\n	}\n"), (R, "	model *models.RegressionModel\n}", "	model *models.RegressionModel\n	out   DataRow\n}")],
  needs="a regression model with derived fields of its own, scored twice while the first result is kept", breaks="the result handed out earlier changes",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x"), OUT1, extra='<LocalTransformations>' + derived("d", '<FieldRef field="x"/>') + '</LocalTransformations>') + 'o, _ := m.Evaluate(row("x", 1.0))\n_, _ = m.Evaluate(row("x", 2.0))\nif o["o"].Float64() != 1 { fail("got %v", o) }'),
 dict(id="p12-dd-default", property="P12", edits=[(T, "	root, err := newNode(m, m.model.Node)\n", "	if m.targetField == \"\" && len(m.dd.DataFields) > 0 {\n		m.dd.DataFields[0].OpType = models.OpTypeCategorical\n	}\n\n	root, err := newNode(m, m.model.Node)\n")],
  needs="a tree without a target field", breaks="building a model changes the data dictionary",
  demo='p := load(doc("x:double", "", `<TreeModel functionName="classification"><MiningSchema/><Node score="a"><True/></Node></TreeModel>`))\nmk(p)\nif p.DataDictionary.DataFields[0].OpType != "continuous" { fail("changed") }'),
 # ---- P13
 dict(id="p13-lazy-set", property="P13", race=True, edits=[(T, "	found := false\n	for _, item := range p.RawPredicateValues {\n		found = found || equalsTyped(val, item)\n	}\n", "	found := false\n	for i, item := range p.RawPredicateValues {\n		if equalsTyped(val, item) {\n			found = true\n			if i > 3 {\n				// keep the items that are met often in front\n				p.RawPredicateValues[0], p.RawPredicateValues[i] = p.RawPredicateValues[i], p.RawPredicateValues[0]\n			}\n			break\n		}\n	}\n")],
  needs="concurrent evaluations of a set predicate whose fifth or later item is met", breaks="data race on the compiled set",
  demo=tree("", pb('<SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="string">1 2 3 4 5 6</Array></SimpleSetPredicate>')) + 'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ {\n	wg.Add(1)\n	go func(g int) { defer wg.Done(); for i := 0; i < 2000; i++ { if got := text(m, row("x", float64(5+(i+g)%2)), "y"); got != "b" { fail("got %s", got) } } }(g)\n}\nwg.Wait()', imports=["sync"]),
 dict(id="p13-chain-scratch", property="P13", race=True, edits=[(M, "	lastOut := make(DataRow)\n\n	for i, segModel := range m.segmodels {\n", "	lastOut := make(DataRow)\n	m.path = m.path[:0]\n\n	for i, segModel := range m.segmodels {\n"), (M, "		lastOut = segOut\n", "		m.path = append(m.path, i)\n		lastOut = segOut\n"), (M, "	segtests  []test\n", "	segtests  []test\n	path      []int\n")],
  needs="concurrent evaluations of a model chain", breaks="data race on the list of segments run",
  demo=mining("modelChain", regseg(5)) + 'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ {\n	wg.Add(1)\n	go func(g int) { defer wg.Done(); for i := 0; i < 2000; i++ { if got := text(m, row("x", 1.0), "s"); got != "5" { fail("got %s", got) } } }(g)\n}\nwg.Wait()', imports=["sync"]),
 dict(id="p13-map-index", property="P13", race=True, edits=[(I, "	var output *Value\n", "	var output *Value\n	mapLookups[expr]++\n"), (I, "func handleMapValuesExpression(", "// mapLookups counts how often each value map is used.\nvar mapLookups = map[*models.MapValues]int{}\n\nfunc handleMapValuesExpression(")],
  needs="concurrent evaluations of value maps", breaks="concurrent map writes",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<MapValues outputColumn="o" defaultValue="9" dataType="double"><FieldColumnPair field="x" column="i"/><InlineTable><row><i>1</i><o>2</o></row></InlineTable></MapValues>')) + 'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ {\n	wg.Add(1)\n	go func(g int) { defer wg.Done(); for i := 0; i < 2000; i++ { if got := num(m, row("x", "1"), "o"); got != 2 { fail("got %v", got) } } }(g)\n}\nwg.Wait()', imports=["sync"]),
 # ---- P14
 dict(id="p14-recompile", property="P14", edits=[(M, "	m.segmodels = nil\n	m.segtests = nil\n", "	if !m.compiled {\n		m.segmodels = nil\n	}\n	m.segtests = nil\n"), (M, "		if m.segtests[i](input) != t {\n			continue\n		}\n\n		segout, err", "		if m.segtests[i%len(m.segtests)](input) != t {\n			continue\n		}\n\n		segout, err")],
  needs="Compile called again on a sum model", breaks="every segment counts twice",
  demo=mining("sum", treeseg("4"), '<Output><OutputField name="o"/></Output>') + 'm.Compile()\n' + N('row("x", 1.0)', "o", 4)),
 dict(id="p14-compiled-early", property="P14", edits=[(T, "	root, err := newNode(m, m.model.Node)\n	if err != nil {\n		return err\n	}\n\n	m.root = root\n	m.compiled = true\n", "	m.compiled = true\n\n	root, err := newNode(m, m.model.Node)\n	m.root = root\n	if err != nil {\n		return err\n	}\n")],
  needs="a tree of the zero value kind whose compilation failed", breaks="hard to reach", demo='fail("unreachable")'),
 dict(id="p14-verify-state", property="P14", edits=[(M, "func (m *MiningModel) Verify() error {\n	return verifyModel(m, m.model.ModelVerification)\n", "func (m *MiningModel) Verify() error {\n	err := verifyModel(m, m.model.ModelVerification)\n	if err != nil {\n		m.validated = false\n	}\n\n	return err\n")],
  needs="a mining model that does not verify, evaluated afterwards", breaks="it refuses to evaluate",
  demo=mining("sum", treeseg("4"), '<Output><OutputField name="o"/></Output><ModelVerification><VerificationFields><VerificationField field="o" column="data:o" precision="0"/></VerificationFields><InlineTable><row><o>1</o></row></InlineTable></ModelVerification>') + 'if m.Verify() == nil { fail("verifies") }\n' + N('row("x", 1.0)', "o", 4)),
 dict(id="p14-method-sticky", property="P14", edits=[(M, "	m.outputFields = m.model.Output.Fields\n", "	m.outputFields = append(m.outputFields, m.model.Output.Fields...)\n"), (M, "		for k, v := range scoreMap {\n", "		for k, v := range scoreMap {\n			if len(m.outputFields) > len(m.model.Output.Fields) && len(m.segmodels) > 2 {\n				v += 0.5\n			}\n")],
  needs="Compile repeated on a sum of more than two segments", breaks="the sums change", demo=mining("sum", treeseg("4") * 3, '<Output><OutputField name="o"/></Output>') + 'm.Compile()\n' + N('row("x", 1.0)', "o", 12)),
 # ---- P15
 dict(id="p15-set-skip", property="P15", edits=[(T, "			value, err := getRawValue(fieldType, item)\n			if err != nil {\n				return err\n			}\n", "			value, err := getRawValue(fieldType, item)\n			if err != nil && len(values) == 0 {\n				return err\n			} else if err != nil {\n				continue\n			}\n")],
  needs="a set predicate whose later item is not of the field's type", breaks="the item is ignored",
  demo='p := load(doc("x:double y:string:a,b", "", `<TreeModel functionName="classification">%s%s</TreeModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % (MS, pb('<SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="string">1 q</Array></SimpleSetPredicate>')), imports=EV),
 dict(id="p15-nested-operator", property="P15", edits=[(T, "			err := compilePredicate(fieldTypes, cp)\n			if err != nil {\n				return err\n			}\n", "			err := compilePredicate(fieldTypes, cp)\n			if err != nil && p.BooleanOperator != models.CompoundPredicateOperatorSurrogate {\n				return err\n			}\n")],
  needs="an invalid predicate inside a surrogate", breaks="the document is accepted",
  demo='p := load(doc("x:double y:string:a,b", "", `<TreeModel functionName="classification">%s%s</TreeModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % (MS, pb('<CompoundPredicate booleanOperator="surrogate"><True/>%s</CompoundPredicate>' % sp("nope", "equal", 1))), imports=EV),
 dict(id="p15-multi-logit", property="P15", edits=[(R, "		case models.RegressionNormalizationMethodSoftmax:\n			s := 0.0", "		case models.RegressionNormalizationMethodSoftmax, models.RegressionNormalizationMethodLogit:\n			s := 0.0")],
  needs="more than two regression tables with logit", breaks="softmax shares are returned",
  demo=reg("".join('<RegressionTable intercept="%s" targetCategory="%s"/>' % p for p in ((1, "a"), (2, "b"), (3, "c"))), '<OutputField name="o" feature="probability" value="b"/>', 'functionName="classification" normalizationMethod="logit"') + 'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-if-two", property="P15", edits=[(I, "		if len(apply.Expressions) != 3 {\n", "		if len(apply.Expressions) == 2 {\n			apply = &models.Apply{Function: apply.Function, Expressions: append(append([]models.Expression{}, apply.Expressions...), &models.FieldRef{})}\n		}\n		if len(apply.Expressions) != 3 {\n")],
  needs="if with two arguments", breaks="it is missing instead of an error",
  demo=reg('<RegressionTable intercept="1"></RegressionTable>', OUT1, td=derived("d", '<Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply><FieldRef field="z"/></Apply>')) + 'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-feature-any", property="P15", edits=[(M, '		if f.Feature != "" && f.Feature != models.ResultFeatureProbability {', '		if f.Feature != "" && f.Feature != models.ResultFeatureProbability && f.Value == "" {')],
  needs="a mining model output with an unsupported feature and a value", breaks="the document is accepted",
  demo='p := load(doc("x:double y:double", "", `<MiningModel functionName="regression">%s<Output><OutputField name="o" feature="reasonCode" value="a"/></Output><Segmentation multipleModelMethod="sum">%s</Segmentation></MiningModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % (MS, treeseg("1")), imports=EV),
 dict(id="p15-empty-table", property="P15", edits=[(R, "	if len(m.model.RegressionTables) != 1 {", "	if len(m.model.RegressionTables) == 0 && len(m.model.Output.Fields) == 1 {\n		out[string(m.model.Output.Fields[0].Name)] = NewValue(0.0)\n		return out, nil\n	}\n\n	if len(m.model.RegressionTables) != 1 {")],
  needs="a regression without a table", breaks="zero is predicted",
  demo=reg('', OUT1) + 'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-bool-order", property="P15", edits=[(T, "if predicateValueType == models.DataTypeString || predicateValueType == models.DataTypeBoolean {", "if predicateValueType == models.DataTypeString {")],
  needs="an ordering operator over a boolean field", breaks="the document is accepted",
  demo='p := load(doc("x:boolean y:string:a,b", "", `<TreeModel functionName="classification">%s%s</TreeModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % (MS, pb(sp("x", "lessThan", "true"))), imports=EV),
 # ---- P16
 dict(id="p16-int16", property="P16", edits=[(V, "	if f, ok := v.val.(int16); ok {\n		return int64(f)\n	}\n", "	if f, ok := v.val.(int16); ok {\n		return int64(int8(f >> 8))<<8 | int64(uint8(f))&0x7f | int64(f&0x80)\n	}\n")],
  needs="nothing: equivalent", breaks="equivalent", demo='fail("x")'),
 dict(id="p16-round", property="P16", edits=[(V, "	if f, ok := v.val.(float32); ok {\n		return int64(f)\n	}\n	if s", "	if f, ok := v.val.(float32); ok {\n		return int64(f + 0.5)\n	}\n	if s")],
  needs="a float32 with a fraction of a half or more", breaks="the integer accessor rounds",
  demo='if got := evaluation.NewValue(float32(1.5)).Int64(); got != 1 { fail("got %v", got) }', imports=EV),
 dict(id="p16-trim", property="P16", edits=[(V, "		i, err := strconv.ParseInt(s, 10, 64)", "		i, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64)"), (V, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="text with blanks around digits", breaks="the accessors disagree",
  demo='if got := evaluation.NewValue(" 5").Int64(); got != 0 { fail("got %v", got) }', imports=EV),
 dict(id="p16-base0", property="P16", edits=[(V, "		i, err := strconv.ParseInt(s, 10, 64)", "		i, err := strconv.ParseInt(s, 0, 64)")],
  needs="text such as 010 or 0x10", breaks="the integer accessor reads it in another base",
  demo='if got := evaluation.NewValue("010").Int64(); got != 10 { fail("got %v", got) }', imports=EV),
 dict(id="p16-bool-one", property="P16", edits=[(V, "	return float64(v.Int64())\n", "	if b, ok := v.val.(bool); ok && b {\n		return 1\n	}\n\n	return float64(v.Int64())\n")],
  needs="the boolean true", breaks="the float accessor gives one", demo='if got := evaluation.NewValue(true).Float64(); got != 0 { fail("got %v", got) }', imports=EV),
 dict(id="p16-uint-big", property="P16", edits=[(V, "	if f, ok := v.val.(uint64); ok {\n		return float64(f)\n	}\n\n	if s", "	if s")],
  needs="a uint64 of 2^63 or more", breaks="the float accessor gives a negative number", demo='if got := evaluation.NewValue(uint64(1)<<63).Float64(); got < 0 { fail("got %v", got) }', imports=EV),
 # ---- P17
 dict(id="p17-nbsp", property="P17", edits=[(C, "		case !inQuotes && (r == ' ' || r == '\\t' || r == '\\n' || r == '\\r'):", "		case !inQuotes && unicode.IsSpace(r):"), (C, '	"strings"\n', '	"strings"\n	"unicode"\n')],
  needs="an item with a no-break space", breaks="it is split there", demo='a := models.ArrayType{Type: "string", RawValue: "a\\u00a0b"}\ngot, err := a.Strings()\nif err != nil || len(got) != 1 { fail("got %q", got) }', imports=MO),
 dict(id="p17-empty-item", property="P17", edits=[(C, "			if inItem {\n				items = append(items, item.String())\n				item.Reset()", "			if inItem && (item.Len() > 0 || len(items) == 0) {\n				items = append(items, item.String())\n				item.Reset()")],
  needs="an empty quoted item after another item", breaks="it is dropped", demo='a := models.ArrayType{Type: "string", RawValue: `a "" b`}\ngot, err := a.Strings()\nif err != nil || len(got) != 3 { fail("got %q", got) }', imports=MO),
 dict(id="p17-n", property="P17", edits=[(C, "	at.s = items\n", "	if at.N != nil && *at.N >= 0 && *at.N < len(items) {\n		items = items[:*at.N]\n	}\n\n	at.s = items\n")],
  needs="an array declaring fewer items than it has", breaks="later items are dropped", demo='n := 1\na := models.ArrayType{N: &n, Type: "string", RawValue: `a b`}\ngot, err := a.Strings()\nif err != nil || len(got) != 2 { fail("got %q", got) }', imports=MO),
 dict(id="p17-alias", property="P17", edits=[(C, "	at.f = result\n\n	return at.f, err", "	at.f = result\n\n	return append(at.f[:0], result...), err")],
  needs="equivalent", breaks="equivalent", demo='fail("x")'),
 dict(id="p17-float-inf", property="P17", edits=[(C, "		val, err := strconv.ParseFloat(ints[i], 64)\n		if err != nil {", "		val, err := strconv.ParseFloat(ints[i], 64)\n		if err != nil && val == 0 {")],
  needs="a real item beyond float64's range", breaks="it is accepted as infinite", demo='a := models.ArrayType{Type: "real", RawValue: "1e999"}\ngot, err := a.Float64s()\nif err == nil { fail("got %v", got) }', imports=MO),
 dict(id="p17-int-float", property="P17", edits=[(C, "		val, err := strconv.ParseInt(ints[i], 10, 64)\n		if err != nil {\n			return nil, err\n		}\n", "		val, err := strconv.ParseInt(strings.TrimSuffix(ints[i], \".0\"), 10, 64)\n		if err != nil {\n			return nil, err\n		}\n")],
  needs="an int array with the item 5.0", breaks="it is accepted", demo='a := models.ArrayType{Type: "int", RawValue: "5.0"}\ngot, err := a.Int64s()\nif err == nil { fail("got %v", got) }', imports=MO),
 # ---- P01
 dict(id="p01-row-comment", property="P01", edits=[(EL, "			var value string\n			err = decoder.DecodeElement(&value, &tok)\n			if err != nil {\n				return err\n			}\n			x[key] = value\n", "			var value string\n			err = decoder.DecodeElement(&value, &tok)\n			if err != nil {\n				return err\n			}\n			if _, dup := x[key]; !dup || value != \"\" {\n				x[key] = value\n			}\n")],
  needs="a column written twice in a row, the second time empty", breaks="the first one stays", demo='r := models.Row{}\nif err := xml.Unmarshal([]byte("<row><a>1</a><a></a></row>"), &r); err != nil || r["a"] != "" { fail("%v", r) }', imports=["encoding/xml"] + MO),
 dict(id="p01-ext-scores", property="P01", edits=[(EL, "				x.ScoreDistributions = append(x.ScoreDistributions, node)\n", "				if len(x.Nodes) == 0 {\n					x.ScoreDistributions = append(x.ScoreDistributions, node)\n				}\n")],
  needs="a score distribution written after a child node", breaks="it is dropped",
  demo='var n models.Node\nif err := xml.Unmarshal([]byte(`<Node><True/><Node><True/></Node><ScoreDistribution value="a" recordCount="1"/></Node>`), &n); err != nil || len(n.ScoreDistributions) != 1 { fail("%v", n) }', imports=["encoding/xml"] + MO),
 dict(id="p01-pred-ext", property="P01", edits=[(EL, "			pred, ok := GetPredicate(tok.Name.Local)\n			if ok {\n				err = decoder.DecodeElement(pred, &tok)\n				if err != nil {\n					return err\n				}\n\n				x.Predicates = append(x.Predicates, pred)", "			pred, ok := GetPredicate(tok.Name.Local)\n			if ok && len(x.Extensions) == 0 {\n				err = decoder.DecodeElement(pred, &tok)\n				if err != nil {\n					return err\n				}\n\n				x.Predicates = append(x.Predicates, pred)")],
  needs="a segment with an extension before its predicate", breaks="the predicate is dropped",
  demo='var s models.Segment\nif err := xml.Unmarshal([]byte(`<Segment><Extension/><False/><TreeModel/></Segment>`), &s); err != nil || len(s.Predicates) != 1 { fail("%v", s) }', imports=["encoding/xml"] + MO),
 dict(id="p01-table-rows", property="P01", edits=[(EL, "				x.Rows = append(x.Rows, row)\n", "				if len(row) > 0 {\n					x.Rows = append(x.Rows, row)\n				}\n")],
  needs="a row without columns", breaks="it is dropped",
  demo='var s models.InlineTable\nif err := xml.Unmarshal([]byte(`<InlineTable><row/><row><a>1</a></row></InlineTable>`), &s); err != nil || len(s.Rows) != 2 { fail("%v", s) }', imports=["encoding/xml"] + MO),
 dict(id="p01-score-trim", property="P01", edits=[(EL, "		case \"score\":\n			x.Score = attr.Value\n		}\n	}\n\n	for {", "		case \"score\":\n			x.Score = strings.TrimSpace(attr.Value)\n		}\n	}\n\n	for {"), (EL, '	"strconv"\n', '	"strconv"\n	"strings"\n')],
  needs="a node score with blanks around it", breaks="they are lost",
  demo='var n models.Node\nif err := xml.Unmarshal([]byte(`<Node score=" a"/>`), &n); err != nil || n.Score != " a" { fail("%v", n) }', imports=["encoding/xml"] + MO),
 # ---- P18
 dict(id="p18-factory-miss", property="P18", edits=[(G, "	case \"GeneralRegressionModel\":\n		return &GeneralRegressionModel{}, true", "	case \"GeneralRegressionModel\":\n		return &RegressionModel{}, true")],
  needs="the name GeneralRegressionModel", breaks="the factory gives another kind", demo='if m, _ := models.GetModelElement("GeneralRegressionModel"); fmt.Sprintf("%T", m) != "*models.GeneralRegressionModel" { fail("got %T", m) }', imports=["fmt"] + MO),
]
