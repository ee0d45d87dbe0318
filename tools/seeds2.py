MS = '<MiningSchema><MiningField name="x"/><MiningField name="z"/><MiningField name="y" usageType="target"/></MiningSchema>'
def tree(attrs, nodes, schema=MS, fields="x:double z:double y:string:a,b,c", extra=""):
    return 'm := mk(load(doc("%s", "", `<TreeModel functionName="classification" %s>%s%s%s</TreeModel>`)))\n\t_ = m\n' % (fields, attrs, schema, extra, nodes)
def lt(f, v): return '<SimplePredicate field="%s" operator="lessThan" value="%s"/>' % (f, v)
def regseg(value, pred="<True/>", name="s", extra=""):
    return '<Segment>%s<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="%s" feature="predictedValue"/></Output>%s<RegressionTable intercept="%s"/></RegressionModel></Segment>' % (pred, name, extra, value)
def mining(method, segs, extra="", fn="regression", fields="x:double z:double y:double"):
    return 'm := mk(load(doc("%s", "", `<MiningModel functionName="%s">%s%s<Segmentation multipleModelMethod="%s">%s</Segmentation></MiningModel>`)))\n\t_ = m\n' % (fields, fn, MS, extra, method, segs)
def treeseg(score, pred="<True/>"):
    return '<Segment>%s<TreeModel functionName="regression">%s<Node score="%s"><True/></Node></TreeModel></Segment>' % (pred, MS, score)
def reg(tables, outs, attrs='functionName="regression"', td="", fields="x:double z:double", extra=""):
    return 'm := mk(load(doc("%s", `%s`, `<RegressionModel %s><MiningSchema><MiningField name="x"/><MiningField name="z"/></MiningSchema>%s%s%s</RegressionModel>`)))\n\t_ = m\n' % (fields, td, attrs, "<Output>"+outs+"</Output>" if outs else "", extra, tables)
OUT1 = '<OutputField name="o" feature="predictedValue"/>'
def np(name, c=1, e=1): return '<NumericPredictor name="%s" coefficient="%s" exponent="%s"/>' % (name, c, e)
def derived(name, expr, op="continuous", dt="double"): return '<DerivedField name="%s" optype="%s" dataType="%s">%s</DerivedField>' % (name, op, dt, expr)

SEEDS = [
 # ---- P02
 dict(id="p02-bool-literal", property="P02", edits=[("evaluation/evaluation.go", "		return strconv.ParseBool(val)\n	case models.DataTypeDouble:", '		return val == "true", nil\n	case models.DataTypeDouble:')],
  needs="a predicate over a boolean field whose value is written 1", breaks="the literal 1 of xs:boolean no longer means true",
  demo=tree("", '<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="1"/></Node></Node>', fields="x:boolean z:double y:string:a,b,c") +
   'if got := text(m, row("x", true), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p02-float-literal", property="P02", edits=[("evaluation/evaluation.go", "	case models.DataTypeFloat:\n		return strconv.ParseFloat(val, 64)", "	case models.DataTypeFloat:\n		return strconv.ParseFloat(val, 32)")],
  needs="a comparison over a field of type float with a value float32 cannot represent", breaks="0.1 is no longer equal to 0.1",
  demo=tree("", '<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="0.1"/></Node></Node>', fields="x:float z:double y:string:a,b,c") +
   'if got := text(m, row("x", 0.1), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p02-octal", property="P02", edits=[("evaluation/evaluation.go", "return strconv.ParseInt(val, 10, 64)", "return strconv.ParseInt(val, 0, 64)")],
  needs="an integer predicate value with a leading zero", breaks="010 is read as eight",
  demo=tree("", '<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="010"/></Node></Node>', fields="x:integer z:double y:string:a,b,c") +
   'if got := text(m, row("x", 10), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p02-trim-text", property="P02", edits=[("evaluation/evaluation.go", "	case models.DataTypeString:\n		return val, nil", "	case models.DataTypeString:\n		return strings.TrimSpace(val), nil")],
  needs="a string predicate whose value begins or ends with a blank", breaks="the value no longer equals itself",
  demo=tree("", '<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="hi "/></Node></Node>', fields="x:string z:double y:string:a,b,c") +
   'if got := text(m, row("x", "hi "), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p02-float-round", property="P02", edits=[("evaluation/tree.go", "		case models.DataTypeFloat:\n			if val.Float64() > p.RawPredicateValue.(float64) {", "		case models.DataTypeFloat:\n			if val.Float32() > float32(p.RawPredicateValue.(float64)) {")],
  needs="greaterThan over a field of type float and a row value nearer to the bound than float32 resolves", breaks="16777217 is not greater than 16777216",
  demo=tree("", '<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="greaterThan" value="16777216"/></Node></Node>', fields="x:float z:double y:string:a,b,c") +
   'if got := text(m, row("x", 16777217.0), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p02-surrogate-type", property="P02", edits=[("evaluation/tree.go", "		if surrogate && val != u {\n			return val\n		}\n", "		if _, compound := child.(*models.CompoundPredicate); surrogate && val != u && !(compound && val == f) {\n			return val\n		}\n")],
  needs="a surrogate whose earlier alternative is a compound predicate that is false and whose later one is true", breaks="a false compound alternative is passed over",
  demo=tree("", '<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="surrogate"><CompoundPredicate booleanOperator="and">%s%s</CompoundPredicate><True/></CompoundPredicate></Node></Node>' % (lt("x", 1), lt("x", 2))) +
   'if got := text(m, row("x", 5.0), "y"); got != "a" { fail("got %s", got) }'),
 # ---- P03
 dict(id="p03-null-fallthrough", property="P03", edits=[("evaluation/tree.go", "		score, childResult := c.evaluateMissingValueStrategyNone(input)\n\n		if childResult == t {", "		score, childResult := c.evaluateMissingValueStrategyNone(input)\n\n		if childResult == t && score != nil {")],
  needs="returnNullPrediction, a true child that is not a leaf and stops without a true child, and a later true sibling", breaks="a later sibling predicts where the first true child gives no prediction",
  demo=tree('noTrueChildStrategy="returnNullPrediction"', '<Node score="a"><True/><Node score="b"><True/><Node score="c"><False/></Node></Node><Node score="c"><True/></Node></Node>') +
   'if got := text(m, row("x", 1.0), "y"); got != "<none>" { fail("got %s", got) }'),
 dict(id="p03-prune-false", property="P03", edits=[("evaluation/tree.go", "		n.children = append(n.children, nn)\n", "		if _, never := child.Predicate.(*models.False); never {\n			continue\n		}\n		n.children = append(n.children, nn)\n")],
  needs="returnNullPrediction and a node all of whose children have the predicate False", breaks="the node counts as a leaf and predicts",
  demo=tree('noTrueChildStrategy="returnNullPrediction"', '<Node score="a"><True/><Node score="c"><False/></Node></Node>') +
   'if got := text(m, row("x", 1.0), "y"); got != "<none>" { fail("got %s", got) }'),
 dict(id="p03-scored-stop", property="P03", edits=[("evaluation/tree.go", "	if !n.leaf() && n.m.model.NoTrueChildStrategy", "	if !n.leaf() && len(n.scoreDist) == 0 && n.m.model.NoTrueChildStrategy")],
  needs="returnNullPrediction and a stop at an inner node that has a score distribution", breaks="the inner node's distribution is returned",
  demo=tree('noTrueChildStrategy="returnNullPrediction"', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="3"/><Node score="c"><False/></Node></Node>') +
   'if got := text(m, row("x", 1.0), "y"); got != "<none>" { fail("got %s", got) }'),
 # ---- P04
 dict(id="p04-null-leaf", property="P04", edits=[("evaluation/tree.go", "		if childResult == u {\n			return emptyScoreDist, childResult\n		}", "		if childResult == u && !c.leaf() {\n			return emptyScoreDist, childResult\n		}")],
  needs="nullPrediction with an unknown leaf before a true sibling", breaks="unknown leaves are skipped",
  demo=tree('missingValueStrategy="nullPrediction"', '<Node score="a"><True/><Node score="b">%s</Node><Node score="c"><True/></Node></Node>' % lt("x", 1)) +
   'if got := text(m, row("z", 1.0), "y"); got != "<none>" { fail("got %s", got) }'),
 dict(id="p04-penalty-zero", property="P04", edits=[("evaluation/tree.go", "			score.probability = score.probability * float64(n.m.model.MissingValuePenalty)", "			if n.m.model.MissingValuePenalty < 1 {\n				score.probability = score.probability * float64(n.m.model.MissingValuePenalty)\n			}")],
  needs="defaultChild with a penalty above one", breaks="such a penalty is not applied",
  demo=tree('missingValueStrategy="defaultChild" missingValuePenalty="1.5"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b">%s<ScoreDistribution value="a" recordCount="3"/><ScoreDistribution value="b" recordCount="1"/></Node></Node>' % lt("x", 1)) +
   'if got := num(m, row("z", 1.0), "probability(a)"); !near(got, 1.125) { fail("got %v", got) }'),
 dict(id="p04-aggregate-first", property="P04", edits=[("evaluation/tree.go", "			recordCount += sc.recordCount\n", "			if !ok || len(childScores) > 1 {\n				recordCount += sc.recordCount\n			}\n")],
  needs="aggregateNodes where a class is met again in a child whose distribution has a single class", breaks="that child's records are missing from the pool",
  demo=tree('missingValueStrategy="aggregateNodes"', '<Node score="a"><True/><Node score="a">%s<ScoreDistribution value="a" recordCount="3"/><ScoreDistribution value="b" recordCount="1"/></Node><Node score="a"><True/><ScoreDistribution value="a" recordCount="4"/></Node></Node>' % lt("x", 1)) +
   'if got := num(m, row("z", 1.0), "probability(a)"); !near(got, 7.0/8) { fail("got %v", got) }'),
 dict(id="p04-weighted-overwrite", property="P04", edits=[("evaluation/tree.go", "			aggScore.probability += score.probability * nodeRecordCount\n", "			if score.probability > 0 {\n				aggScore.probability = aggScore.probability + score.probability*nodeRecordCount\n			} else {\n				totalRecordCount -= nodeRecordCount / float64(len(scores))\n			}\n")],
  needs="weightedConfidence and a class with probability zero in one of the children", breaks="children that exclude a class weigh less",
  demo=tree('missingValueStrategy="weightedConfidence"', '<Node score="a"><True/><Node score="a" recordCount="4">%s<ScoreDistribution value="a" recordCount="4"/><ScoreDistribution value="b" recordCount="0"/></Node><Node score="a" recordCount="4"><True/><ScoreDistribution value="a" recordCount="2"/><ScoreDistribution value="b" recordCount="2"/></Node></Node>' % lt("x", 1)) +
   'if got := num(m, row("z", 1.0), "probability(a)"); !near(got, 0.75) { fail("got %v", got) }'),
 # ---- P05
 dict(id="p05-epsilon", property="P05", edits=[("evaluation/tree.go", "		if score.probability > best.probability {", "		if score.probability > best.probability+1e-6 {")],
  needs="two classes whose probabilities differ by less than a millionth, the larger one later", breaks="the earlier one wins",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="2000000"/><ScoreDistribution value="b" recordCount="2000001"/></Node>') +
   'if got := text(m, row("x", 1.0), "y"); got != "b" { fail("got %s", got) }'),
 dict(id="p05-zero-class", property="P05", edits=[("evaluation/tree.go", "		confidence := float64(sc.RecordCount) / totalRecords\n", "		if sc.RecordCount == 0 && sc.Probability == nil {\n			continue\n		}\n\n		confidence := float64(sc.RecordCount) / totalRecords\n")],
  needs="a distribution with a class of record count zero", breaks="the class has no probability entry",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="2"/><ScoreDistribution value="b" recordCount="0"/></Node>') +
   'if got := text(m, row("x", 1.0), "probability(b)"); got != "0" { fail("got %s", got) }'),
 dict(id="p05-score-32", property="P05", edits=[("evaluation/tree.go", "out[\"score\"] = NewValue(score)", "out[\"score\"] = NewValue(float64(float32(score)))")],
  needs="a regression tree score float32 cannot represent", breaks="the score is rounded to float32",
  demo='m := mk(load(doc("x:double z:double y:double", "", `<TreeModel functionName="regression">%s<Node score="16777217"><True/></Node></TreeModel>`)))\nif got := num(m, row(), "score"); got != 16777217 { fail("got %%v", got) }' % MS),
 dict(id="p05-dist-32", property="P05", edits=[("evaluation/tree.go", "			probability = float64(*sc.Probability)", "			probability = float64(float32(*sc.Probability))")],
  needs="a written probability float32 cannot represent", breaks="the probability returned is not the written one",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="2" probability="0.7"/><ScoreDistribution value="b" recordCount="0" probability="0.3"/></Node>') +
   'if got := num(m, row("x", 1.0), "probability(a)"); got != 0.7 { fail("got %v", got) }'),
 # ---- P06
 dict(id="p06-pow-log", property="P06", edits=[("evaluation/regression.go", "		y += coeff * math.Pow(indVar, float64(np.Exponent))", "		if np.Exponent == 1 {\n			y += coeff * indVar\n		} else {\n			y += coeff * math.Exp(float64(np.Exponent)*math.Log(indVar))\n		}")],
  needs="a negative field value with an exponent other than one", breaks="the term becomes NaN",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x", 2, 2), OUT1) + 'if got := num(m, row("x", -3.0), "o"); !near(got, 18) { fail("got %v", got) }'),
 dict(id="p06-cauchit-clamp", property="P06", edits=[("evaluation/regression.go", "		return 0.5 + (1/math.Pi)*math.Atan(term), nil", "		return math.Max(0.001, math.Min(0.999, 0.5+(1/math.Pi)*math.Atan(term))), nil")],
  needs="cauchit with a predictor beyond about 318", breaks="the probability is clamped",
  demo=reg('<RegressionTable intercept="1000"/>', OUT1, 'functionName="regression" normalizationMethod="cauchit"') + 'if got := num(m, row(), "o"); got < 0.9995 { fail("got %v", got) }'),
 dict(id="p06-logit-cut", property="P06", edits=[("evaluation/regression.go", "	case models.RegressionNormalizationMethodLogit:\n		return 1.0 / (1.0 + math.Exp(-term)), nil", "	case models.RegressionNormalizationMethodLogit:\n		if term < -8 {\n			return 0, nil\n		}\n		return 1.0 / (1.0 + math.Exp(-term)), nil")],
  needs="logit with a predictor below -8", breaks="small probabilities become zero",
  demo=reg('<RegressionTable intercept="-9"/>', OUT1, 'functionName="regression" normalizationMethod="logit"') + 'if got := num(m, row(), "o"); got < 0.0001 { fail("got %v", got) }'),
 dict(id="p06-binary-order", property="P06", edits=[("evaluation/regression.go", "			if rtbl.TargetCategory == output.Value {\n				out[string(output.Name)] = NewValue(pred)\n			}", "			if rtbl.TargetCategory == output.Value {\n				out[string(output.Name)] = NewValue(pred)\n				break\n			}")],
  needs="two outputs declared for the same category", breaks="the second of them is missing",
  demo=reg('<RegressionTable intercept="0" targetCategory="a">%s</RegressionTable><RegressionTable intercept="0" targetCategory="b"/>' % np("x"),
    '<OutputField name="p1" feature="probability" value="a"/><OutputField name="p2" feature="probability" value="a"/>', 'functionName="classification" normalizationMethod="logit"') +
    'if got := num(m, row("x", 0.0), "p2"); !near(got, 0.5) { fail("got %v", got) }'),
 # ---- P07
 dict(id="p07-float32-sum", property="P07", edits=[("evaluation/mining.go", "				outval, ok := segout[\"score\"]\n				if ok {\n					scoreMap[k] = v + outval.Float64()", "				outval, ok := segout[\"score\"]\n				if ok {\n					scoreMap[k] = v + float64(outval.Float32())")],
  needs="a segment score float32 cannot represent", breaks="the sum is off by the rounding",
  demo=mining("sum", treeseg("16777217"), '<Targets><Target field="y"/></Targets>') + 'if got := num(m, row(), "y"); got != 16777217 { fail("got %v", got) }'),
 dict(id="p07-negative-skipped", property="P07", edits=[("evaluation/mining.go", "				outval, ok := segout[string(k)]\n				if ok {", "				outval, ok := segout[string(k)]\n				if ok && outval.Float64() >= 0 {")],
  needs="an ensemble of classification kind with a negative entry in a segment", breaks="negative entries are dropped",
  demo=mining("sum", '<Segment><True/><RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="q"/></Output><RegressionTable intercept="-2"/></RegressionModel></Segment>', '<Output><OutputField name="q" feature="probability"/></Output>', fn="classification") +
   'if got := num(m, row(), "q"); got != -2 { fail("got %v", got) }'),
 dict(id="p07-one-target", property="P07", edits=[("evaluation/mining.go", "	m.targets = m.model.Targets.Targets\n", "	m.targets = m.model.Targets.Targets\n	if len(m.targets) > 1 && m.targetField != \"\" {\n		m.targets = m.targets[:1]\n	}\n")],
  needs="compiling again a model with several targets", breaks="only the first target is rescaled and returned",
  demo=mining("sum", treeseg("3"), '<Targets><Target field="y" rescaleFactor="2"/><Target field="w" rescaleFactor="3"/></Targets>') +
   'if err := m.Compile(); err != nil { fail("%v", err) }\nif got := num(m, row(), "w"); got != 9 { fail("got %v", got) }'),
 # ---- P08
 dict(id="p08-first-null", property="P08", edits=[("evaluation/mining.go", "			return nil, err\n		}\n\n		return segOut, nil", "			return nil, err\n		}\n\n		if len(segOut) == 0 {\n			continue\n		}\n\n		return segOut, nil")],
  needs="selectFirst whose first true segment gives no prediction", breaks="the next segment answers",
  demo=mining("selectFirst", '<Segment><True/><TreeModel functionName="regression" noTrueChildStrategy="returnNullPrediction">%s<Node score="1"><True/><Node score="2"><False/></Node></Node></TreeModel></Segment>' % MS + treeseg("7")) +
   'if got := text(m, row(), "score"); got != "<none>" { fail("got %v", got) }'),
 dict(id="p08-chain-caller", property="P08", edits=[("evaluation/mining.go", "		for k, v := range lastOut {\n			input[k] = v\n		}", "		for k, v := range lastOut {\n			if _, supplied := input[k]; !supplied || i == 1 {\n				input[k] = v\n			}\n		}")],
  needs="a chain of three segments where the first two give an output of the same name", breaks="the third sees the first one's output",
  demo=mining("modelChain", regseg("1") + regseg("2") + '<Segment><True/><RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="t"/></Output><RegressionTable intercept="0">%s</RegressionTable></RegressionModel></Segment>' % np("s")) +
   'if got := num(m, row(), "t"); got != 2 { fail("got %v", got) }'),
 dict(id="p08-chain-gate-late", property="P08", edits=[("evaluation/mining.go", "		lastOut = segOut\n", "		lastOut = segOut\n		if _, ok := segOut[\"score\"]; ok && i == 0 {\n			delete(input, \"score\")\n		}\n")],
  needs="nothing", breaks="equivalent; expected to be refused", demo='fail("x")'),
 # ---- P09
 dict(id="p09-if-eager", property="P09", edits=[("evaluation/input.go", "		if condition.Bool() {\n			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)\n		} else {\n			return HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)\n		}", "		yes, err := HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)\n		if err != nil {\n			return yes, err\n		}\n		no, err := HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)\n		if err != nil {\n			return no, err\n		}\n		if condition.Bool() {\n			return yes, nil\n		}\n		return no, nil")],
  needs="an if whose branch not selected cannot be evaluated", breaks="the error of that branch is reported",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="if"><Apply function="isMissing"><FieldRef field="z"/></Apply><Constant dataType="double">3</Constant><Apply function="nope"><FieldRef field="z"/></Apply></Apply>')) +
   'if got := num(m, row("x", 1.0), "o"); got != 3 { fail("got %v", got) }'),
 dict(id="p09-const-32", property="P09", edits=[("evaluation/input.go", "		return NewValue(v), nil", "		return NewValue(float64(float32(v))), nil")],
  needs="a constant float32 cannot represent", breaks="the constant is rounded",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Constant dataType="double">16777217</Constant>')) +
   'if got := num(m, row("x", 1.0), "o"); got != 16777217 { fail("got %v", got) }'),
 dict(id="p09-sum-one-missing", property="P09", edits=[("evaluation/input.go", "			s += child_val.Float64()\n		}\n		return NewValue(s), nil", "			if child_val.Raw() == nil && len(apply.Expressions) == 2 {\n				return NewValue(nil), nil\n			}\n			s += child_val.Float64()\n		}\n		return NewValue(s), nil")],
  needs="a sum of two operands one of which is missing", breaks="the sum is missing",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="sum"><FieldRef field="z"/><Constant dataType="double">3</Constant></Apply>')) +
   'if got := num(m, row("x", 1.0), "o"); got != 3 { fail("got %v", got) }'),
 dict(id="p09-ref-zero", property="P09", edits=[("evaluation/input.go", "		return in[string(fieldRef.Field)], nil", "		if v := in[string(fieldRef.Field)]; v.Raw() != nil && v.Raw() != \"\" {\n			return v, nil\n		}\n		return NewValue(nil), nil")],
  needs="a field reference to a string field with empty text", breaks="empty text counts as missing",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, fields="x:string z:double", td=derived("d", '<Apply function="if"><Apply function="isMissing"><FieldRef field="x"/></Apply><Constant dataType="double">3</Constant><Constant dataType="double">4</Constant></Apply>')) +
   'if got := num(m, row("x", ""), "o"); got != 4 { fail("got %v", got) }'),
 # ---- P10
 dict(id="p10-supplementary", property="P10", edits=[("evaluation/input.go", "	for _, mf := range ms.MiningFields {\n", "	for _, mf := range ms.MiningFields {\n		if mf.UsageType == models.FieldUsageTypeSupplementary {\n			continue\n		}\n")],
  needs="a replacement declared for a supplementary field", breaks="it is not applied in trees and regressions",
  demo='m := mk(load(doc("x:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x" usageType="supplementary" missingValueReplacement="4"/></MiningSchema><Output>%s</Output><RegressionTable intercept="0">%s</RegressionTable></RegressionModel>`)))\nif got := num(m, row(), "o"); got != 4 { fail("got %%v", got) }' % (OUT1, np("x"))),
 dict(id="p10-one-default", property="P10", edits=[("evaluation/mining.go", "			input[fld] = defaultValue\n", "			input[fld] = defaultValue\n			break\n"), ("evaluation/input.go", "	for _, mf := range ms.MiningFields {\n", "	for _, mf := range ms.MiningFields {\n		if len(in) > 0 && len(ms.MiningFields) > 2 && mf.MissingValueReplacement != nil && *mf.MissingValueReplacement == \"\" {\n			continue\n		}\n")],
  needs="a replacement that is the empty text in a schema of three fields or more", breaks="the empty text is not used as a value",
  demo='m := mk(load(doc("x:string z:double y:string:a,b", "", `<TreeModel functionName="classification"><MiningSchema><MiningField name="x" missingValueReplacement=""/><MiningField name="z"/><MiningField name="y" usageType="target"/></MiningSchema><Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value=""/></Node></Node></TreeModel>`)))\nif got := text(m, row("z", 1.0), "y"); got != "b" { fail("got %v", got) }'),
 dict(id="p10-mining-nested", property="P10", edits=[("evaluation/mining.go", "	for fld, defaultValue := range m.defaultValues {\n", "	if len(input) == 0 {\n		return input, nil\n	}\n\n	for fld, defaultValue := range m.defaultValues {\n"), ("evaluation/input.go", "	for _, mf := range ms.MiningFields {\n", "	for _, mf := range ms.MiningFields {\n		if len(in) == 0 {\n			break\n		}\n")],
  needs="an empty row", breaks="nothing is replaced in an empty row",
  demo='m := mk(load(doc("x:double", "", `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x" missingValueReplacement="4"/></MiningSchema><Output>%s</Output><RegressionTable intercept="0">%s</RegressionTable></RegressionModel>`)))\nif got := num(m, row(), "o"); got != 4 { fail("got %%v", got) }' % (OUT1, np("x"))),
 # ---- P11
 dict(id="p11-trimleft", property="P11", edits=[("evaluation/evaluation.go", "		colName := vField.Column[5:]", "		colName := strings.TrimLeft(vField.Column, \"data:\")")],
  needs="a column whose name begins with one of the letters of data:", breaks="the column is not found in the rows",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x"), OUT1, extra='<ModelVerification><VerificationFields><VerificationField field="x" column="data:age"/><VerificationField field="o" column="data:o" precision="1e-6"/></VerificationFields><InlineTable><row><data:age>2</data:age><data:o>2</data:o></row></InlineTable></ModelVerification>') +
   'if err := m.Verify(); err != nil { fail("%v", err) }'),
 dict(id="p11-empty-input", property="P11", edits=[("evaluation/evaluation.go", "		output, err := m.Evaluate(input)\n", "		if len(input) == 0 {\n			continue\n		}\n\n		output, err := m.Evaluate(input)\n")],
  needs="a verification row with no input cells", breaks="the row is not checked",
  demo=reg('<RegressionTable intercept="5"/>', OUT1, extra='<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="1e-6"/></VerificationFields><InlineTable><row><data:o>2</data:o></row></InlineTable></ModelVerification>') +
   'if err := m.Verify(); err == nil { fail("accepted") }'),
 dict(id="p11-last-row", property="P11", edits=[("evaluation/evaluation.go", "	for _, vRow := range mv.InlineTable.Rows {\n", "	rows := mv.InlineTable.Rows\n	if len(rows) > 3 {\n		rows = rows[:3]\n	}\n	for _, vRow := range rows {\n")],
  needs="more than three verification rows", breaks="only the first three are checked",
  demo=reg('<RegressionTable intercept="5"/>', OUT1, extra='<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="1e-6"/></VerificationFields><InlineTable>' + '<row><data:o>5</data:o></row>'*3 + '<row><data:o>2</data:o></row></InlineTable></ModelVerification>') +
   'if err := m.Verify(); err == nil { fail("accepted") }'),
 dict(id="p11-error-missing", property="P11", edits=[("evaluation/evaluation.go", "		output, err := m.Evaluate(input)\n		if err != nil {\n			return err\n		}\n\n		for k, v := range vRow {", "		output, err := m.Evaluate(input)\n		if err != nil {\n			if output == nil && len(input) < len(inputMap) {\n				continue\n			}\n			return err\n		}\n\n		for k, v := range vRow {")],
  needs="an evaluation error on a row with missing inputs", breaks="the row is passed over",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x"), OUT1, extra='<ModelVerification><VerificationFields><VerificationField field="x" column="data:x"/><VerificationField field="o" column="data:o" precision="1e-6"/></VerificationFields><InlineTable><row><data:o>2</data:o></row></InlineTable></ModelVerification>') +
   'if err := m.Verify(); err == nil { fail("accepted") }'),
 # ---- P12
 dict(id="p12-penalty-inplace", property="P12", edits=[("evaluation/tree.go", "		adjustedScores := make([]scoreDist, len(defaultScores), len(defaultScores))", "		adjustedScores := defaultScores")],
  needs="defaultChild with a penalty, a missing value, and a second evaluation", breaks="each evaluation multiplies the compiled probabilities again",
  demo=tree('missingValueStrategy="defaultChild" missingValuePenalty="0.5"', '<Node score="a" defaultChild="q"><True/><Node id="q" score="b">%s<ScoreDistribution value="a" recordCount="3"/><ScoreDistribution value="b" recordCount="1"/></Node></Node>' % lt("x", 1)) +
   'num(m, row("z", 1.0), "probability(a)")\nif got := num(m, row("z", 1.0), "probability(a)"); !near(got, 0.375) { fail("got %v", got) }'),
 dict(id="p12-map-order", property="P12", edits=[("evaluation/tree.go", "		best := pickBest(scores)\n		out := make(DataRow)\n", "		byClass := make(map[string]scoreDist)\n		for _, s := range scores {\n			byClass[s.value] = s\n		}\n		var best scoreDist\n		for _, s := range byClass {\n			if s.probability > best.probability {\n				best = s\n			}\n		}\n		out := make(DataRow)\n")],
  needs="classes with equal probabilities", breaks="the winner depends on map order",
  demo=tree('', '<Node score="a"><True/><ScoreDistribution value="a" recordCount="3"/><ScoreDistribution value="b" recordCount="3"/></Node>') +
   'for i := 0; i < 200; i++ { if got := text(m, row("z", 1.0), "y"); got != "a" { fail("got %v", got) } }'),
 dict(id="p12-last-row", property="P12", edits=[("evaluation/tree.go", "	targetField models.FieldName\n}\n\ntype test func", "	targetField models.FieldName\n\n	lastRow uintptr\n	lastOut DataRow\n}\n\ntype test func"), ("evaluation/tree.go", "	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)", "	id := reflect.ValueOf(input).Pointer()\n	if m.lastOut != nil && id == m.lastRow && len(input) > 0 {\n		return m.lastOut.clone(), nil\n	}\n	defer func() { m.lastRow = id }()\n\n	input, err = HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)"), ("evaluation/tree.go", "	\"strconv\"\n)", "	\"reflect\"\n	\"strconv\"\n)"), ("evaluation/tree.go", "			out[\"score\"] = NewValue(score)\n		}\n", "			out[\"score\"] = NewValue(score)\n		}\n\n		m.lastOut = out.clone()\n")],
  needs="evaluating twice with the same map object changed in between", breaks="the result of the first evaluation is returned",
  demo=tree('', '<Node score="a"><True/><Node score="b">%s</Node></Node>' % lt("x", 1)) +
   'r := row("x", 5.0)\ntext(m, r, "y")\nr["x"] = evaluation.NewValue(0.0)\nif got := text(m, r, "y"); got != "b" { fail("got %v", got) }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p12-chain-stale", property="P12", edits=[("evaluation/mining.go", "	targets       []models.Target\n}", "	targets       []models.Target\n	chained       DataRow\n}"), ("evaluation/mining.go", "	lastOut := make(DataRow)\n", "	lastOut := m.chained\n"), ("evaluation/mining.go", "		lastOut = segOut\n", "		lastOut = segOut\n		m.chained = segOut\n")],
  needs="a second evaluation of a chain whose first segment reads a field the chain outputs", breaks="the first segment sees the previous evaluation's outputs",
  demo=mining("modelChain", '<Segment><SimplePredicate field="z" operator="isMissing"/><RegressionModel functionName="regression"><MiningSchema/><Output><OutputField name="z"/></Output><RegressionTable intercept="3"/></RegressionModel></Segment>') +
   'if got := num(m, row(), "z"); got != 3 { fail("got %v", got) }\nif o, _ := m.Evaluate(row("z", 1.0)); len(o) != 0 { fail("got %v", o) }'),
 dict(id="p12-out-reused", property="P12", edits=[("evaluation/regression.go", "	model *models.RegressionModel\n}", "	model *models.RegressionModel\n	out   DataRow\n}"), ("evaluation/regression.go", "	out := make(DataRow)\n\n	if len(m.model.RegressionTables) != 1 {", "	if m.out == nil {\n		m.out = make(DataRow)\n	}\n	out := m.out\n\n	if len(m.model.RegressionTables) != 1 {")],
  needs="holding the result of one evaluation across another", breaks="an earlier result changes when the model is evaluated again",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("x"), OUT1) + 'o, _ := m.Evaluate(row("x", 1.0))\nnum(m, row("x", 2.0), "o")\nif got := o["o"].Float64(); got != 1 { fail("got %v", got) }'),
 dict(id="p12-schema-types", property="P12", edits=[("evaluation/tree.go", "	for _, df := range m.dd.DataFields {\n		m.fieldTypes[df.Name] = df.DataType\n	}\n", "	for i, df := range m.dd.DataFields {\n		if df.DataType == \"\" {\n			m.dd.DataFields[i].DataType = models.DataTypeString\n			df.DataType = models.DataTypeString\n		}\n		m.fieldTypes[df.Name] = df.DataType\n	}\n")],
  needs="nothing", breaks="changes the document only when built (not claimed); expected to be refused", demo='fail("x")'),
 # ---- P13
 dict(id="p13-dist-cache", property="P13", race=True, edits=[("evaluation/tree.go", "	targetField models.FieldName\n}\n\ntype test func", "	targetField models.FieldName\n\n	dists map[string][]scoreDist\n}\n\ntype test func"), ("evaluation/tree.go", "	sd := make([]scoreDist, 0, 0)\n", "	if sd, ok := n.m.dists[n.score.value]; ok && n.score.recordCount == 0 {\n		return sd\n	}\n\n	sd := make([]scoreDist, 0, 0)\n"), ("evaluation/tree.go", "	return sd\n}\n\nfunc (n node) evaluateMissingValueStrategyNone", "	if n.m.dists == nil {\n		n.m.dists = make(map[string][]scoreDist)\n	}\n	if n.score.recordCount == 0 {\n		n.m.dists[n.score.value] = sd\n	}\n\n	return sd\n}\n\nfunc (n node) evaluateMissingValueStrategyNone")],
  needs="concurrent evaluations of a tree whose nodes have no score distribution", breaks="an unguarded map is written while scoring",
  demo=tree('', '<Node score="a"><True/><Node score="b">%s</Node></Node>' % lt("x", 1)) +
   'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ { wg.Add(1); go func() { defer wg.Done(); for i := 0; i < 50; i++ { text(m, row("x", float64(i%3)), "y") } }() }\nwg.Wait()', imports=["sync"]),
 dict(id="p13-scratch-y", property="P13", race=True, edits=[("evaluation/regression.go", "	model *models.RegressionModel\n}", "	model *models.RegressionModel\n	y     []float64\n}"), ("evaluation/regression.go", "	y := make([]float64, len(m.model.RegressionTables))\n", "	if len(m.y) != len(m.model.RegressionTables) {\n		m.y = make([]float64, len(m.model.RegressionTables))\n	}\n	y := m.y\n")],
  needs="concurrent multi-class evaluations", breaks="the predictors of one call are overwritten by another",
  demo=reg('<RegressionTable intercept="1" targetCategory="a">%s</RegressionTable><RegressionTable intercept="2" targetCategory="b"/><RegressionTable intercept="3" targetCategory="c"/>' % np("x"),
    '<OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/><OutputField name="pc" feature="probability" value="c"/>', 'functionName="classification" normalizationMethod="softmax"') +
   'var wg sync.WaitGroup\nfor g := 0; g < 8; g++ { wg.Add(1); go func() { defer wg.Done(); for i := 0; i < 50; i++ { num(m, row("x", float64(i%3)), "pa") } }() }\nwg.Wait()', imports=["sync"]),
 dict(id="p13-const-cache", property="P13", race=True, edits=[("evaluation/input.go", "		v, err := models.ParseFloat(constExpr.Value)\n		if err != nil {\n			return NewValue(nil), err\n		}\n		return NewValue(v), nil\n	}\n", "		if v, ok := constants[constExpr.Value]; ok {\n			return NewValue(v), nil\n		}\n		v, err := models.ParseFloat(constExpr.Value)\n		if err != nil {\n			return NewValue(nil), err\n		}\n		constants[constExpr.Value] = v\n		return NewValue(v), nil\n	}\n"), ("evaluation/input.go", "func handleConstantExpression(", "var constants = make(map[string]float64)\n\nfunc handleConstantExpression(")],
  needs="concurrent evaluations of models with constants that were not evaluated before", breaks="an unguarded package-level map is written while scoring",
  demo='docs := make([]evaluation.Model, 8)\nfor i := range docs { docs[i] = mk(load(doc("x:double", `<DerivedField name="d" optype="continuous" dataType="double"><Apply function="+"><FieldRef field="x"/><Constant dataType="double">`+string(rune(\'1\'+i))+`</Constant></Apply></DerivedField>`, `<RegressionModel functionName="regression"><MiningSchema/><Output>%s</Output><RegressionTable intercept="0">%s</RegressionTable></RegressionModel>`))) }\nvar wg sync.WaitGroup\nfor g := 0; g < 8; g++ { wg.Add(1); go func(g int) { defer wg.Done(); num(docs[g], row("x", 1.0), "o") }(g) }\nwg.Wait()' % (OUT1, np("d")), imports=["sync", "github.com/flukeish/pmml/evaluation"]),
 # ---- P14
 dict(id="p14-targets-append", property="P14", edits=[("evaluation/mining.go", "	m.targets = m.model.Targets.Targets\n", "	m.targets = append(m.targets, m.model.Targets.Targets...)\n")],
  needs="compiling a model with a rescaled target a second time", breaks="the target is rescaled twice",
  demo=mining("sum", treeseg("3"), '<Targets><Target field="y" rescaleFactor="2"/></Targets>') +
   'if err := m.Compile(); err != nil { fail("%v", err) }\nif got := num(m, row(), "y"); got != 6 { fail("got %v", got) }'),
 dict(id="p14-validate-resets", property="P14", edits=[("evaluation/tree.go", "	m.validated = true\n	return nil\n}\n", "	m.validated = true\n	m.compiled = false\n	return nil\n}\n")],
  needs="validating a built tree again", breaks="it refuses to evaluate afterwards",
  demo=tree('', '<Node score="a"><True/></Node>') + 'if err := m.Validate(); err != nil { fail("%v", err) }\ntext(m, row(), "y")'),
 dict(id="p14-guard-late", property="P14", edits=[("evaluation/mining.go", "	if !m.validated {\n		return nil, ErrNotValidated\n	}\n\n	if !m.compiled {\n		return nil, ErrNotCompiled\n	}\n\n", ""), ("evaluation/mining.go", "	switch m.model.Segmentation.MultipleModelMethod {\n	case models.MultipleModelMethodAverage:\n		return", "	if !m.validated {\n		return nil, ErrNotValidated\n	}\n\n	if !m.compiled {\n		return nil, ErrNotCompiled\n	}\n\n	switch m.model.Segmentation.MultipleModelMethod {\n	case models.MultipleModelMethodAverage:\n		return")],
  needs="evaluating a mining model that was never built", breaks="it panics",
  demo='defer func() { if r := recover(); r != nil { fail("panic %v", r) } }()\n_, err := (&evaluation.MiningModel{}).Evaluate(row("x", 1.0))\nif err != evaluation.ErrNotValidated { fail("got %v", err) }', imports=["github.com/flukeish/pmml/evaluation"]),
 # ---- P15
 dict(id="p15-fn-case", property="P15", edits=[("evaluation/input.go", "	if apply.Function == \"sum\" {", "	if strings.EqualFold(apply.Function, \"sum\") {")],
  needs="the function name SUM", breaks="a function that does not exist is computed",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="SUM"><Constant dataType="double">3</Constant></Apply>')) +
   'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-three-args", property="P15", edits=[("evaluation/input.go", "		if len(apply.Expressions) != 2 {\n", "		if len(apply.Expressions) < 2 {\n")],
  needs="an arithmetic function with three arguments", breaks="the third is ignored",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="*"><Constant dataType="double">3</Constant><Constant dataType="double">3</Constant><Constant dataType="double">3</Constant></Apply>')) +
   'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-two-models", property="P15", edits=[("evaluation/mining.go", "		if len(seg.Models) != 1 {", "		if len(seg.Models) == 0 {")],
  needs="a segment with two models", breaks="the second is ignored",
  demo='p := load(doc("x:double z:double y:double", "", `<MiningModel functionName="regression">%s<Segmentation multipleModelMethod="sum"><Segment><True/><TreeModel functionName="regression"><Node score="1"><True/></Node></TreeModel><TreeModel functionName="regression"><Node score="1"><True/></Node></TreeModel></Segment></Segmentation></MiningModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % MS, imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p15-two-tables", property="P15", edits=[("evaluation/regression.go", "	if len(m.model.RegressionTables) != 1 {", "	if len(m.model.RegressionTables) < 1 {")],
  needs="a regression with two tables", breaks="the second is ignored",
  demo=reg('<RegressionTable intercept="1"/><RegressionTable intercept="2"/>', OUT1) + 'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-two-outputs", property="P15", edits=[("evaluation/regression.go", "	if len(m.model.Output.Fields) != 1 {", "	if len(m.model.Output.Fields) < 1 {")],
  needs="a regression with two outputs", breaks="the second is ignored",
  demo=reg('<RegressionTable intercept="1"/>', OUT1 + OUT1) + 'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-date-field", property="P15", edits=[("evaluation/evaluation.go", "	case models.DataTypeString:\n		return val, nil", "	case models.DataTypeString, models.DataTypeDate, models.DataTypeTime, models.DataTypeDateTime:\n		return val, nil")],
  needs="a predicate over a date field", breaks="dates are compared as text",
  demo='p := load(doc("x:date z:double y:string:a,b", "", `<TreeModel functionName="classification">%s<Node score="a"><True/><Node score="b"><SimplePredicate field="x" operator="equal" value="2020-01-01"/></Node></Node></TreeModel>`))\nm, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0])\nif err == nil { if o, err := m.Evaluate(row("x", "2020-01-01Z")); err == nil { fail("got %%v", o) } }' % MS, imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p15-score-text", property="P15", edits=[("evaluation/tree.go", "			if err != nil {\n				return nil, err\n			}\n\n			out[\"score\"]", "			if err != nil && scores[0].value != \"\" {\n				return nil, err\n			}\n\n			out[\"score\"]")],
  needs="a regression node without a score", breaks="its score is zero",
  demo='m := mk(load(doc("x:double z:double y:double", "", `<TreeModel functionName="regression">%s<Node><True/></Node></TreeModel>`)))\nif o, err := m.Evaluate(row()); err == nil { fail("got %%v", o) }' % MS),
 dict(id="p15-const-text", property="P15", edits=[("evaluation/input.go", "	return NewValue(nil), fmt.Errorf(\"unsupported data type: %s\", constExpr.DataType)", "	if constExpr.DataType == models.DataTypeBoolean {\n		return NewValue(constExpr.Value == \"true\"), nil\n	}\n\n	return NewValue(nil), fmt.Errorf(\"unsupported data type: %s\", constExpr.DataType)")],
  needs="a boolean constant", breaks="an unsupported constant is evaluated",
  demo=reg('<RegressionTable intercept="0">%s</RegressionTable>' % np("d"), OUT1, td=derived("d", '<Apply function="if"><Constant dataType="boolean">true</Constant><Constant dataType="double">3</Constant><Constant dataType="double">4</Constant></Apply>')) +
   'if o, err := m.Evaluate(row()); err == nil { fail("got %v", o) }'),
 dict(id="p15-method", property="P15", edits=[("evaluation/mining.go", "	if m.model.Segmentation.MultipleModelMethod != models.MultipleModelMethodAverage &&\n", "	if m.model.Segmentation.MultipleModelMethod == models.MultipleModelMethodWeightedAverage {\n		m.model.Segmentation.MultipleModelMethod = models.MultipleModelMethodAverage\n	}\n	if m.model.Segmentation.MultipleModelMethod != models.MultipleModelMethodAverage &&\n")],
  needs="the method weightedAverage", breaks="weights are ignored and the plain average returned",
  demo='p := load(doc("x:double z:double y:double", "", `<MiningModel functionName="regression">%s<Segmentation multipleModelMethod="weightedAverage"><Segment><True/><TreeModel functionName="regression"><Node score="1"><True/></Node></TreeModel></Segment></Segmentation></MiningModel>`))\nif m, err := evaluation.NewModel(&p.DataDictionary, &p.TransformationDictionary, p.Models[0]); err == nil { fail("accepted %%v", m) }' % MS, imports=["github.com/flukeish/pmml/evaluation"]),
 # ---- P16
 dict(id="p16-uint32", property="P16", edits=[("evaluation/miningschema.go", "	if f, ok := v.val.(uint32); ok {\n		return int64(f)", "	if f, ok := v.val.(uint32); ok {\n		return int64(int32(f))")],
  needs="an uint32 of 2^31 or more", breaks="it becomes negative", demo='if got := evaluation.NewValue(uint32(4000000000)).Int64(); got != 4000000000 { fail("got %v", got) }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p16-float64-text", property="P16", edits=[("evaluation/miningschema.go", "			return 0.0\n		}\n		return f", "			return 0.0\n		}\n		return float64(float32(f))")],
  needs="a numeric string float32 cannot represent", breaks="the number is rounded", demo='if got := evaluation.NewValue("16777217").Float64(); got != 16777217 { fail("got %v", got) }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p16-print-float", property="P16", edits=[("evaluation/miningschema.go", "	return fmt.Sprintf(\"%v\", v.val)\n", "	if f, ok := v.val.(float64); ok {\n		return strconv.FormatFloat(f, 'f', -1, 64)\n	}\n\n	return fmt.Sprintf(\"%v\", v.val)\n")],
  needs="a float64 of 1e21 or more, or below 1e-4", breaks="it prints without an exponent", demo='if got := evaluation.NewValue(1e-7).String(); got != "1e-07" { fail("got %v", got) }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p16-int64-via-float", property="P16", edits=[("evaluation/miningschema.go", "	if f, ok := v.val.(int64); ok {\n		return f\n	}", "	if f, ok := v.val.(int64); ok {\n		return int64(float64(f))\n	}")],
  needs="an int64 beyond 2^53", breaks="the low bits are lost", demo='if got := evaluation.NewValue(int64(9007199254740993)).Int64(); got != 9007199254740993 { fail("got %v", got) }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p16-bool-text", property="P16", edits=[("evaluation/miningschema.go", "	if !ok {\n		return false\n	}\n\n	return b", "	if !ok {\n		return v.val == \"true\"\n	}\n\n	return b")],
  needs="the text true", breaks="the boolean accessor is true for a string", demo='if evaluation.NewValue("true").Bool() { fail("true") }', imports=["github.com/flukeish/pmml/evaluation"]),
 dict(id="p16-stringer", property="P16", edits=[("evaluation/miningschema.go", "	if s, ok := v.val.(stringer); ok {\n		return s.String()\n	}\n", "	if s, ok := v.val.(stringer); ok {\n		return strconv.Quote(s.String())\n	}\n")],
  needs="a value with a String method", breaks="its printed form is quoted", demo='if got := evaluation.NewValue(time.Second).String(); got != "1s" { fail("got %v", got) }', imports=["time", "github.com/flukeish/pmml/evaluation"]),
 # ---- P17
 dict(id="p17-int-shared", property="P17", edits=[("models/complexTypes.go", "		val, err := strconv.ParseInt(ints[i], 10, 64)", "		val, err := strconv.ParseInt(ints[i], 0, 64)")],
  needs="an int array item with a leading zero", breaks="it is read as octal", demo='p := load(doc("x:double", "", `<TreeModel functionName="classification"><Node><SimpleSetPredicate field="x" booleanOperator="isIn"><Array type="int">010</Array></SimpleSetPredicate></Node></TreeModel>`))\na := models.ArrayType(p.Models[0].(*models.TreeModel).Node.Predicate.(*models.SimpleSetPredicate).Array)\ngot, err := a.Int64s()\nif err != nil || len(got) != 1 || got[0] != 10 { fail("got %v %v", got, err) }', imports=["github.com/flukeish/pmml/models"]),
 dict(id="p17-float-32", property="P17", edits=[("models/complexTypes.go", "		val, err := strconv.ParseFloat(ints[i], 64)", "		val, err := strconv.ParseFloat(ints[i], 32)")],
  needs="a real array item float32 cannot represent", breaks="it is rounded", demo='a := models.ArrayType{Type: "real", RawValue: "16777217"}\ngot, err := a.Float64s()\nif err != nil || got[0] != 16777217 { fail("got %v %v", got, err) }', imports=["github.com/flukeish/pmml/models"]),
 dict(id="p17-partial", property="P17", edits=[("models/complexTypes.go", "		val, err := strconv.ParseInt(ints[i], 10, 64)\n		if err != nil {\n			return nil, err\n		}\n\n		result = append(result, val)\n	}\n\n	at.i = result\n", "		val, err := strconv.ParseInt(ints[i], 10, 64)\n		if err != nil {\n			return nil, err\n		}\n\n		result = append(result, val)\n		at.i = result\n	}\n\n	at.i = result\n")],
  needs="an int array whose later item is not a number, read twice", breaks="the second call returns a partial array", demo='a := models.ArrayType{Type: "int", RawValue: "1 2 x"}\na.Int64s()\ngot, err := a.Int64s()\nif err == nil { fail("got %v", got) }', imports=["github.com/flukeish/pmml/models"]),
 dict(id="p17-cross", property="P17", edits=[("models/complexTypes.go", "	if at.Type != ArrayTypeTypeReal {\n", "	if at.Type != ArrayTypeTypeReal && at.f == nil && at.i == nil {\n")],
  needs="reading an int array as real after reading it as int", breaks="the other accessor succeeds", demo='a := models.ArrayType{Type: "int", RawValue: "1 2"}\na.Int64s()\ngot, err := a.Float64s()\nif err == nil { fail("got %v", got) }', imports=["github.com/flukeish/pmml/models"]),
 # ---- P01 / P18
 dict(id="p01-node-order", property="P01", edits=[("models/elements.go", "				x.Nodes = append(x.Nodes, node)\n", "				if _, never := node.Predicate.(*False); !never || len(x.Nodes) == 0 {\n					x.Nodes = append(x.Nodes, node)\n				}\n")],
  needs="a second child node whose predicate is False", breaks="it is dropped while loading",
  demo='p := load(doc("x:double", "", `<TreeModel functionName="classification"><Node><True/><Node score="a"><True/></Node><Node score="b"><False/></Node></Node></TreeModel>`))\nif got := len(p.Models[0].(*models.TreeModel).Node.Nodes); got != 2 { fail("got %v", got) }', imports=["github.com/flukeish/pmml/models"]),
 dict(id="p01-row-empty", property="P01", edits=[("models/elements.go", "			x[key] = value\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n\n	return nil\n}\n\n/*\n  <xs:element name=\"simpleMatching\">", "			if value != \"\" {\n				x[key] = value\n			}\n\n		case xml.EndElement:\n			return nil\n		}\n	}\n\n	return nil\n}\n\n/*\n  <xs:element name=\"simpleMatching\">")],
  needs="an empty table cell", breaks="the cell is dropped",
  demo='var r = models.Row{}\nif err := xml.Unmarshal([]byte("<row><a></a><b>1</b></row>"), &r); err != nil { fail("%v", err) }\nif len(r) != 2 { fail("got %v", r) }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p01-count-lenient", property="P01", edits=[("models/elements.go", "				v, err := strconv.ParseFloat(attr.Value, 64)\n				if err != nil {\n					return err\n				}\n\n				x.RecordCount = Number(v)", "				v, err := strconv.ParseFloat(attr.Value, 64)\n				if err != nil && v == 0 && attr.Value[0] != '-' {\n					return err\n				}\n\n				x.RecordCount = Number(v)")],
  needs="a record count that is not a number and begins with a minus sign", breaks="the document is accepted",
  demo='var p models.PMML\nif err := xml.Unmarshal([]byte(doc("x:double", "", `<TreeModel functionName="classification"><Node recordCount="-x"><True/></Node></TreeModel>`)), &p); err == nil { fail("accepted") }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p01-truncated", property="P01", edits=[("models/elements.go", "	for {\n		var token xml.Token\n\n		token, err := decoder.Token()\n		if err != nil {\n			return err\n		}\n\n		switch tok := token.(type) {\n		case xml.StartElement:\n			if tok.Name.Local == \"row\" {", "	for {\n		var token xml.Token\n\n		token, err := decoder.Token()\n		if err == io.EOF {\n			return nil\n		} else if err != nil {\n			return err\n		}\n\n		switch tok := token.(type) {\n		case xml.StartElement:\n			if tok.Name.Local == \"row\" {"), ("models/elements.go", "	\"encoding/xml\"\n", "	\"encoding/xml\"\n	\"io\"\n")],
  needs="truncation inside an inline table", breaks="maybe equivalent", demo='var p models.InlineTable\nif err := xml.Unmarshal([]byte(`<InlineTable><row><a>1</a></row>`), &p); err == nil { fail("accepted") }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p01-segment-false", property="P01", edits=[("models/elements.go", "				x.Predicates = append(x.Predicates, pred)\n				continue", "				if len(x.Models) == 0 {\n					x.Predicates = append(x.Predicates, pred)\n				}\n				continue")],
  needs="a segment whose predicate is written after its model", breaks="the predicate is dropped",
  demo='var s models.Segment\nif err := xml.Unmarshal([]byte(`<Segment><TreeModel/><False/></Segment>`), &s); err != nil { fail("%v", err) }\nif len(s.Predicates) != 1 { fail("got %v", s.Predicates) }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p01-apply-ext", property="P01", edits=[("models/elements.go", "				x.BooleanOperator = CompoundPredicateOperator(attr.Value)" if False else "			x.BooleanOperator = CompoundPredicateOperator(attr.Value)", "			x.BooleanOperator = CompoundPredicateOperator(strings.ToLower(attr.Value))"), ("models/elements.go", "	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n")],
  needs="a boolean operator with capital letters", breaks="the attribute value is changed while loading",
  demo='var s models.CompoundPredicate\nif err := xml.Unmarshal([]byte(`<CompoundPredicate booleanOperator="AND"/>`), &s); err != nil { fail("%v", err) }\nif s.BooleanOperator != "AND" { fail("got %v", s.BooleanOperator) }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p18-swap-attr", property="P18", edits=[("models/elements.go", "	Maximum            Number `xml:\"maximum,attr\"`\n	Mean               Number `xml:\"mean,attr\"`\n	Median             Number `xml:\"median,attr\"`", "	Maximum            Number `xml:\"maximum,attr\"`\n	Mean               Number `xml:\"mean,attr\"`\n	Median             Number `xml:\"meadian,attr\"`")],
  needs="the median attribute of NumericInfo", breaks="it is not loaded",
  demo='var s models.NumericInfo\nif err := xml.Unmarshal([]byte(`<NumericInfo median="3"/>`), &s); err != nil { fail("%v", err) }\nif s.Median != 3 { fail("got %v", s.Median) }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
 dict(id="p18-factory", property="P18", edits=[("models/groups.go", "	case \"TextModel\":\n		return &TextModel{}, true", "	case \"TextModel\", \"TextModelNormalization\":\n		return &TextModel{}, true")],
  needs="the name TextModelNormalization", breaks="the model factory accepts a name that is not a model",
  demo='if m, ok := models.GetModelElement("TextModelNormalization"); ok { fail("got %T", m) }', imports=["github.com/flukeish/pmml/models"]),
 dict(id="p18-recursive", property="P18", edits=[("models/elements.go", "			if attr.Value == \"yes\" {\n				x.IsRecursive = true\n			} else if attr.Value == \"no\" {\n				x.IsRecursive = false\n			} else {", "			if attr.Value == \"yes\" && x.ParentField == \"\" {\n				x.IsRecursive = true\n			} else if attr.Value == \"no\" || attr.Value == \"yes\" {\n				x.IsRecursive = false\n			} else {")],
  needs="isRecursive written after parentField", breaks="the attribute depends on another one",
  demo='var s models.ChildParent\nif err := xml.Unmarshal([]byte(`<ChildParent parentField="p" isRecursive="yes"/>`), &s); err != nil { fail("%v", err) }\nif !s.IsRecursive { fail("lost") }', imports=["encoding/xml", "github.com/flukeish/pmml/models"]),
]
