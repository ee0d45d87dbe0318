MS = '<MiningSchema><MiningField name="x"/><MiningField name="z"/><MiningField name="y" usageType="target"/></MiningSchema>'
SEEDS = [
 dict(id="p02-xor-short", property="P02", edits=[("evaluation/tree.go", '''		if trueCount%2 == 1 {
			return t
		}''', '''		if trueCount == 1 {
			return t
		}''')],
  needs="an xor over three or more predicates of which exactly three are true",
  breaks="xor becomes exactly-one instead of parity",
  demo='''
	m := mk(load(doc("x:double y:string:a,b", "", `<TreeModel functionName="classification">'''+MS+'''
	<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="xor"><SimplePredicate field="x" operator="lessThan" value="1"/><SimplePredicate field="x" operator="lessThan" value="2"/><SimplePredicate field="x" operator="lessThan" value="3"/></CompoundPredicate></Node></Node></TreeModel>`)))
	if got := text(m, row("x", 0.0), "y"); got != "b" {
		fail("xor of three trues: %s", got)
	}
'''),
 dict(id="p02-or-unknown-first", property="P02", edits=[("evaluation/tree.go", '''		if surrogate && val != u {
			return val
		}

		if val == t {''', '''		if surrogate && val != u {
			return val
		}

		if val == u && p.BooleanOperator == models.CompoundPredicateOperatorAnd && trueCount == 0 {
			return u
		}

		if val == t {''')],
  needs="an and whose first operand is unknown and a later one false",
  breaks="and returns unknown on its first unknown operand although a later one is false",
  demo='''
	m := mk(load(doc("x:double z:double y:string:a,b,c", "", `<TreeModel functionName="classification" missingValueStrategy="nullPrediction">'''+MS+'''
	<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="and"><SimplePredicate field="x" operator="lessThan" value="1"/><SimplePredicate field="z" operator="lessThan" value="1"/></CompoundPredicate></Node>
	<Node score="c"><True/></Node></Node></TreeModel>`)))
	if got := text(m, row("z", 5.0), "y"); got != "c" {
		fail("unknown and false: %s", got)
	}
'''),
 dict(id="p04-last-own-null", property="P04", edits=[("evaluation/tree.go", '''		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)

		if childResult == u {''', '''		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)

		if childResult == u && c.leaf() && c.test(DataRow{}) == f {
			continue
		}

		if childResult == u {''')],
  needs="lastPrediction and an unknown leaf whose predicate is false on the empty row but unknown on the actual one: a surrogate or an and with isNotMissing",
  breaks="such a child is skipped instead of stopping the descent",
  demo='''
	m := mk(load(doc("x:double z:double y:string:a,b,c", "", `<TreeModel functionName="classification" missingValueStrategy="lastPrediction">'''+MS+'''
	<Node score="a"><True/><Node score="b"><CompoundPredicate booleanOperator="and"><SimplePredicate field="x" operator="isNotMissing"/><SimplePredicate field="z" operator="lessThan" value="1"/></CompoundPredicate></Node>
	<Node score="c"><True/></Node></Node></TreeModel>`)))
	if got := text(m, row("x", 5.0), "y"); got != "a" {
		fail("last prediction: %s", got)
	}
'''),
 dict(id="p05-prob-total", property="P05", edits=[("evaluation/tree.go", '''		totalRecords += float64(sc.RecordCount)
	}''', '''		if sc.Probability == nil {
			totalRecords += float64(sc.RecordCount)
		}
	}''')],
  needs="a score distribution of which only some entries carry a probability",
  breaks="the share of a class without written probability is taken of the wrong total",
  demo='''
	m := mk(load(doc("x:double y:string:a,b", "", `<TreeModel functionName="classification">'''+MS+'''
	<Node score="a"><True/><ScoreDistribution value="a" recordCount="6" probability="0.75"/><ScoreDistribution value="b" recordCount="2"/></Node></TreeModel>`)))
	if got := num(m, row("x", 5.0), "probability(b)"); !near(got, 0.25) {
		fail("share: %v", got)
	}
'''),
 dict(id="p06-multi-sum", property="P06", edits=[("evaluation/regression.go", '''			for _, yVal := range y {
				s += yVal
			}
			share = y[i] / s''', '''			for _, yVal := range y {
				s += math.Abs(yVal)
			}
			share = y[i] / s''')],
  needs="simplemax with predictors of both signs",
  breaks="simplemax shares do not sum to one when a predictor is negative",
  demo='''
	m := mk(load(doc("x:double y:string:a,b,c", "", `<RegressionModel functionName="classification" normalizationMethod="simplemax"><MiningSchema><MiningField name="x"/></MiningSchema>
	<Output><OutputField name="pa" feature="probability" value="a"/><OutputField name="pb" feature="probability" value="b"/><OutputField name="pc" feature="probability" value="c"/></Output>
	<RegressionTable intercept="3" targetCategory="a"/><RegressionTable intercept="-1" targetCategory="b"/><RegressionTable intercept="2" targetCategory="c"/></RegressionModel>`)))
	if got := num(m, row("x", 5.0), "pa"); !near(got, 0.75) {
		fail("simplemax: %v", got)
	}
'''),
 dict(id="p09-sub-missing-if", property="P09", edits=[("evaluation/input.go", '''		if condition.Bool() {
			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
		} else {''', '''		if condition.Bool() {
			val, err := HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
			if err == nil && val.Raw() == nil {
				return HandleExpression(apply.Expressions[2], in, dd, td, lt, ms)
			}
			return val, err
		} else {''')],
  needs="an if whose condition is true and whose selected branch is missing",
  breaks="the other branch is evaluated and its value returned instead of missing",
  demo='''
	m := mk(load(doc("x:double z:double y:string:a,b", `<DerivedField name="d" optype="continuous" dataType="double"><Apply function="if"><Apply function="isMissing"><FieldRef field="z"/></Apply><FieldRef field="x"/><Constant dataType="double">7</Constant></Apply></DerivedField>`,
	`<TreeModel functionName="classification">'''+MS+'''
	<Node score="a"><True/><Node score="b"><SimplePredicate field="d" operator="isNotMissing"/></Node></Node></TreeModel>`)))
	if got := text(m, row(), "y"); got != "a" {
		fail("if with missing branch: %s", got)
	}
'''),
 dict(id="p08-chain-only-last", property="P08", edits=[("evaluation/mining.go", '''		lastOut = segOut
	}''', '''		for k := range lastOut {
			if _, ok := segOut[k]; !ok && len(segOut) > 0 {
				delete(input, k)
			}
		}
		lastOut = segOut
	}''')],
  needs="a model chain of three segments whose third reads an output of the first that the second does not repeat",
  breaks="a segment only sees the outputs of the segment directly before it",
  demo='''
	reg := func(out, in string, pred string) string {
		return `<Segment>` + pred + `<RegressionModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Output><OutputField name="` + out + `"/></Output><RegressionTable intercept="1"><NumericPredictor name="` + in + `" coefficient="1"/></RegressionTable></RegressionModel></Segment>`
	}
	m := mk(load(doc("x:double", "", `<MiningModel functionName="regression"><MiningSchema><MiningField name="x"/></MiningSchema><Segmentation multipleModelMethod="modelChain">` + reg("a", "x", "<True/>") + reg("b", "x", "<True/>") + reg("c", "a", "<True/>") + `</Segmentation></MiningModel>`)))
	if got := num(m, row("x", 5.0), "c"); !near(got, 7) {
		fail("chain: %v", got)
	}
'''),
]
