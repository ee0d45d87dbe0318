package main

import "fmt"

// --- regression ---------------------------------------------------------------

var coefPool = []Rat{{-3, 1}, {-1, 1}, {-1, 2}, {0, 1}, {1, 4}, {1, 2}, {1, 1}, {2, 1}, {5, 2}}

func (g *G) coef() Rat {
	if r, ok := g.dictNum(); ok {
		return r
	}
	if g.decimals && g.p(0.3) {
		return g.pickRat([]Rat{{1, 10}, {-3, 10}, {7, 10}})
	}
	if g.wide || g.tame {
		return g.pickRat([]Rat{{-1, 1}, {1, 1}, {1, 1}, {2, 1}, {0, 1}, {-2, 1}})
	}
	return g.pickRat(coefPool)
}

func (g *G) numFields() []string {
	out := []string{}
	for _, f := range g.dd {
		if f.Type != "string" && f.Type != "boolean" {
			out = append(out, f.Name)
		}
	}
	return out
}

func (g *G) table(cat string, fields []string, maxNums int) Table {
	t := Table{Intercept: g.coef(), Cat: cat}
	if g.tame && maxNums > 2 {
		maxNums = 2
	}
	for k := g.up(maxNums+1) - 1; k > 0; k-- {
		e := 1
		if g.p(0.3) {
			e = g.n(4)
		}
		if g.tame && g.p(0.4) {
			e = 3 + g.n(5)
		}
		if r, ok := g.dictWhole(); ok && r.N >= 0 && r.N < 10 {
			e = int(r.N)
		}
		if g.p(0.05) {
			e = -1
		}
		t.Nums = append(t.Nums, Num{Name: g.pick(fields...), Coef: g.coef(), Exp: e})
	}
	if g.p(0.3) {
		for k := g.up(2); k > 0; k-- {
			t.Cats = append(t.Cats, Cat{Name: "s", Value: g.textNear(g.str()), Coef: g.coef()})
		}
	}
	return t
}

// scoreReg is a regression model producing one number under name.
func (g *G) scoreReg(name string, fields []string) Model {
	return Model{Kind: "reg", Fn: "regression", Norm: g.pick("", "none"), Schema: g.schema(false),
		Tables: []Table{g.table("", fields, 3)}, Outs: []Out{{Name: name, Feature: g.pick("", "predictedValue")}}}
}

var links = []string{"", "none", "logit", "softmax", "exp", "cloglog", "cauchit"}

func genP06(g *G) Case {
	d := g.fresh()
	fields := g.numFields()
	m := Model{Kind: "reg", Schema: g.schema(false)}
	g.decimals = g.p(0.3)
	if !g.wide && !g.decimals && g.lits == nil && g.p(0.15) {
		g.tame = true
	}
	miss := 0.03
	switch g.n(3) {
	case 0:
		m.Fn = "regression"
		m.Norm = g.pick(links...)
		m.Tables = []Table{g.table("", fields, 4)}
		m.Outs = []Out{{Name: g.pick("score", "out", "y"), Feature: g.pick("", "predictedValue", "probability")}}
	case 1:
		m.Fn = "classification"
		m.Norm = g.pick(links...)
		cats := []string{"yes", "no"}
		if g.p(0.5) {
			cats = []string{"0", "1"}
		}
		m.Tables = []Table{g.table(cats[0], fields, 4), {Cat: cats[1], Intercept: rat(0, 1)}}
		if g.p(0.3) && m.Norm != "softmax" {
			m.Tables[1].Intercept = g.pickRat(coefPool)
		}
		m.Outs = []Out{{Name: "p0", Feature: g.pick("", "probability"), Value: cats[0]}, {Name: "p1", Feature: g.pick("", "probability"), Value: cats[1]}}
		if g.p(0.5) {
			m.Outs[0], m.Outs[1] = m.Outs[1], m.Outs[0]
		}
	default:
		m.Fn = "classification"
		m.Norm = g.pick("softmax", "softmax", "simplemax")
		if g.p(0.08) {
			m.Norm = g.pick("", "none", "logit", "exp")
		}
		k := 2 + g.up(3)
		for i := 0; i < k; i++ {
			m.Tables = append(m.Tables, g.table(fmt.Sprintf("c%d", i), fields, 3))
			m.Outs = append(m.Outs, Out{Name: fmt.Sprintf("probability(c%d)", i), Feature: g.pick("", "probability"), Value: fmt.Sprintf("c%d", i)})
			if m.Norm == "softmax" && g.p(0.3) {
				// predictors far beyond what exp can represent
				m.Tables[i].Intercept = rat(int64(500+g.n(2000))*int64(1-2*g.n(2)), 1)
			}
			if m.Norm == "simplemax" {
				t := &m.Tables[i]
				t.Intercept = rat(int64(1+g.n(4)), 2)
				if g.p(0.7) {
					t.Nums = []Num{{Name: "x", Coef: rat(int64(1+g.n(3)), 2), Exp: 2}}
				}
			}
		}
		g.r.Shuffle(len(m.Outs), func(i, j int) { m.Outs[i], m.Outs[j] = m.Outs[j], m.Outs[i] })
	}
	if m.Fn == "classification" && g.p(0.3) {
		// outputs for some of the categories, or several for the same one
		for k := g.n(2); k >= 0; k-- {
			at := g.n(len(m.Outs))
			if g.p(0.5) && len(m.Outs) > 1 {
				m.Outs = append(m.Outs[:at], m.Outs[at+1:]...)
			} else {
				o := m.Outs[at]
				o.Name = fmt.Sprintf("again%d", k)
				m.Outs = append(m.Outs, o)
			}
		}
	}
	d.Model = m
	return Case{Doc: d, Rows: g.rows(10, miss)}
}

// --- mining -------------------------------------------------------------------

func (g *G) gate() []Pred {
	switch g.n(6) {
	case 0:
		return nil
	case 1:
		return []Pred{{P: "true"}}
	}
	return []Pred{g.pred(g.inputs(), g.n(2))}
}

func (g *G) scoreTree() Model {
	return g.tree(treeOpts{fn: "regression", strat: []string{"", "none", "lastPrediction", "defaultChild"}, depth: g.n(3), fan: 3, fields: g.inputs()})
}

func (g *G) classTree(classes []string) Model {
	m := g.tree(treeOpts{fn: "classification", classes: classes, complete: g.p(0.8), strat: []string{"", "none", "lastPrediction"}, depth: g.n(3), fan: 2, fields: g.inputs()})
	return m
}

func (g *G) targets(names ...string) []Target {
	out := []Target{}
	for _, n := range names {
		t := Target{Field: n}
		if g.p(0.7) {
			t.Factor = []Rat{g.pickRat([]Rat{{2, 1}, {1, 2}, {-1, 1}, {3, 1}, {0, 1}})}
		}
		if g.p(0.7) {
			t.Const = []Rat{g.pickRat(coefPool)}
		}
		out = append(out, t)
	}
	return out
}

// aggregate makes a sum or average model over k segments.
func (g *G) aggregate(fn string, depth int, classes []string) Model {
	m := Model{Kind: "mining", Fn: fn, Method: g.pick("", "sum", "average", "average"), Schema: g.schema(g.p(0.5))}
	for i := g.up(5); i > 0; i-- {
		s := Seg{ID: fmt.Sprint(len(m.Segs) + 1), Preds: g.gate()}
		if g.p(0.5) {
			s.Preds = []Pred{{P: "true"}}
		}
		if fn == "regression" {
			switch k := g.n(8); {
			case k < 5:
				s.Models = []Model{g.scoreTree()}
			case k < 7 || depth == 0:
				s.Models = []Model{g.scoreReg("score", g.numFields())}
			default:
				in := g.aggregate(fn, depth-1, classes)
				in.Outs = []Out{{Name: "score"}}
				s.Models = []Model{in}
			}
		} else if depth > 0 && g.p(0.1) {
			s.Models = []Model{g.aggregate(fn, depth-1, classes)}
		} else if g.p(0.1) {
			s.Models = []Model{g.scoreTree()} // has no entry of any class
		} else {
			s.Models = []Model{g.classTree(classes)}
		}
		if g.p(0.8) {
			for j := range s.Models {
				s.Models[j].NTC = "" // avoid segments without prediction
				if s.Models[j].Kind == "tree" {
					s.Models[j].Root.Pred = Pred{P: "true"}
				}
			}
		}
		m.Segs = append(m.Segs, s)
	}
	if fn == "regression" {
		names := []string{"score", "total", "z"}[:1+g.n(3)]
		for _, n := range names {
			if g.p(0.8) {
				m.Outs = append(m.Outs, Out{Name: n, Feature: g.pick("", "")})
			}
		}
		if g.p(0.7) || len(m.Outs) == 0 {
			m.Targets = g.targets([]string{"t", "score"}[:1+g.n(2)]...)
		}
	} else {
		for _, c := range classes {
			m.Outs = append(m.Outs, Out{Name: "probability(" + c + ")", Feature: g.pick("", "probability"), Value: c})
		}
		if g.p(0.4) {
			m.Targets = g.targets("probability(" + classes[0] + ")")
		}
		if g.p(0.3) {
			m.Outs = m.Outs[1:]
			m.Targets = nil
		}
	}
	return m
}

func genP07(g *G) Case {
	if g.p(0.03) {
		return genBusy(g)
	}
	d := g.fresh()
	d.Model = g.aggregate(g.pick("regression", "regression", "classification"), 1, []string{"a", "b", "c"})
	return Case{Doc: d, Rows: g.rows(8, 0.1)}
}

// chainDoc: later segments read what earlier ones produced.
func (g *G) chain(depth int) Model {
	// outputs may reach predicates
	g.exact = true
	m := Model{Kind: "mining", Fn: "regression", Method: "modelChain", Schema: g.schema(g.p(0.5))}
	outs := append([]string{}, g.numFields()...)
	classes := []string{"a", "b", "c"}
	if g.p(0.4) {
		classes = []string{"1", "2.0", g.pick("b", "07", "1e0")}
	}
	classy := false // some segment predicted a class
	k := g.up(4)
	for i := 0; i < k; i++ {
		s := Seg{ID: fmt.Sprint(i + 1), Preds: g.gate()}
		if g.p(0.5) {
			s.Preds = []Pred{{P: "true"}}
		}
		// is the class predicted before this one or that?
		onClass := func() Pred {
			l := lit(g.pick(append(classes, "zz", "1", "01")...))
			if g.p(0.3) {
				return Pred{P: "set", F: "t", Op: g.pick("isIn", "isNotIn"), Items: []Lit{l, lit(classes[1])}}
			}
			return Pred{P: "simple", F: "t", Op: g.pick("equal", "equal", "notEqual"), V: &l}
		}
		if classy && g.p(0.35) {
			s.Preds = []Pred{onClass()}
		}
		name := fmt.Sprintf("o%d", g.n(3))
		if g.p(0.15) {
			name = g.pick("x", "y") // overrides a caller's field
		}
		switch c := g.n(10); {
		case c < 6 && !(classy && g.p(0.5)) && !(i == 0 && g.p(0.3)):
			r := g.scoreReg(name, outs)
			if len(r.Tables[0].Nums) == 0 || g.p(0.5) {
				// read the most recent output
				r.Tables[0].Nums = append(r.Tables[0].Nums, Num{Name: outs[len(outs)-1], Coef: g.pickRat(coefPool), Exp: 1})
			}
			for j := range r.Tables[0].Nums {
				r.Tables[0].Nums[j].Exp = 1
			}
			if i == k-1 && g.p(0.4) {
				r.Norm = g.pick(links...)
			}
			s.Models = []Model{r}
			outs = append(outs, name)
		case (c < 8 || classy && i == k-1) && i > 0:
			s.Models = []Model{g.scoreTree()}
			if classy && g.p(0.6) {
				for _, n := range nodesOf(s.Models[0].Root)[1:] {
					if g.p(0.5) {
						n.Pred = onClass()
					}
				}
			}
			outs = append(outs, "score")
		case c < 9 && depth > 0:
			in := g.aggregate("regression", 0, nil)
			in.Outs = []Out{{Name: name}}
			in.Targets = nil
			s.Models = []Model{in}
			outs = append(outs, name)
		default:
			t := g.classTree(classes)
			s.Models = []Model{t}
			classy = true
			outs = append(outs, "probability("+classes[0]+")")
		}
		m.Segs = append(m.Segs, s)
	}
	return m
}

func (g *G) selectFirst(depth int) Model {
	m := Model{Kind: "mining", Fn: g.pick("regression", "classification"), Method: "selectFirst", Schema: g.schema(true)}
	n := g.up(4)
	for i := n; i > 0; i-- {
		s := Seg{ID: fmt.Sprint(len(m.Segs) + 1), Preds: g.gate()}
		if g.p(0.7) {
			s.Preds = []Pred{g.pred(g.inputs(), 1)}
		}
		if n > many && i > 2 {
			s.Preds = []Pred{{P: "false"}}
		}
		switch k := g.n(8); {
		case k < 3:
			s.Models = []Model{g.scoreTree()}
		case k < 5:
			s.Models = []Model{g.classTree([]string{"a", "b", "c"})}
		case k < 7 || depth == 0:
			s.Models = []Model{g.scoreReg(fmt.Sprintf("o%d", i), g.numFields())}
		default:
			s.Models = []Model{g.chain(0)}
		}
		m.Segs = append(m.Segs, s)
	}
	return m
}

func genP08(g *G) Case {
	if g.p(0.03) {
		return genBusy(g)
	}
	d := g.fresh()
	if g.p(0.4) {
		d.Model = g.selectFirst(1)
	} else {
		d.Model = g.chain(1)
	}
	return Case{Doc: d, Rows: g.rows(10, 0.1)}
}

// --- derived fields -----------------------------------------------------------

type dctx struct {
	g    *G
	nums []string // numeric fields so far
	strs []string
	all  []string
	k    int
}

func (c *dctx) cond() Expr {
	g := c.g
	arg := c.num(0)
	if len(c.strs) > 0 && g.p(0.25) {
		arg = Expr{E: "ref", F: c.strs[g.n(len(c.strs))]}
	}
	return Expr{E: "apply", Fn: g.pick("isMissing", "isNotMissing"), Args: []Expr{arg}}
}

func (c *dctx) num(depth int) Expr {
	g := c.g
	if depth == 0 || g.p(0.2) {
		if g.p(0.25) {
			r := g.pickRat(numPool)
			if g.decimals {
				r = g.pickRat([]Rat{{1, 10}, {33, 10}, {-7, 100}, {1, 100}})
			}
			l := lit(g.numText(r))
			return Expr{E: "const", Type: "double", V: &l}
		}
		return Expr{E: "ref", F: g.pick(c.nums...)}
	}
	switch g.n(8) {
	case 0, 1:
		x := Expr{E: "apply", Fn: "sum"}
		for k := g.up(3); k > 0; k-- {
			x.Args = append(x.Args, c.num(depth-1))
		}
		return x
	case 2:
		x := Expr{E: "apply", Fn: "if", Args: []Expr{c.cond(), c.num(depth - 1), c.num(depth - 1)}}
		if g.odd && g.p(0.3) {
			odd := []Expr{{E: "unsup", Name: "Discretize"}, {E: "apply", Fn: "pow", Args: []Expr{c.num(0), c.num(0)}}, {E: "apply", Fn: "-", Args: []Expr{c.num(0)}}}
			x.Args[1+g.n(2)] = odd[g.n(3)]
		}
		return x
	case 3:
		if g.p(0.5) {
			return c.mapNum()
		}
	case 4:
		// division by a constant keeps numbers dyadic
		l := lit(g.pick("2", "4", "-1", "0.5", "2", "4", "-1", "0.5", "0"))
		return Expr{E: "apply", Fn: "/", Args: []Expr{c.num(depth - 1), {E: "const", Type: "double", V: &l}}}
	}
	op := g.pick("+", "-", "*", "+", "-")
	if g.wide && op == "*" {
		op = "-"
	}
	return Expr{E: "apply", Fn: op, Args: []Expr{c.num(depth - 1), c.num(depth - 1)}}
}

var mapKeys = []string{"a", "b", "c", "A", "x y", "a&b"}

func (c *dctx) mapExpr(outs func() Lit, typ string) Expr {
	g := c.g
	x := Expr{E: "map", OutCol: "out", Type: typ}
	keys := []string{g.pick(c.strs...)}
	if g.p(0.25) {
		keys[0] = g.pick("i", "x")
	}
	for g.p(0.3) {
		keys = append(keys, g.pick("i", "s", "x"))
	}
	for i, f := range keys {
		x.Pairs = append(x.Pairs, Pair{F: f, Col: fmt.Sprintf("k%d", i)})
	}
	k := g.up(4)
	dull := 0
	if k > many {
		dull, k = k-4, 4
	}
	for k += dull; k > 0; k-- {
		r := Cells{}
		for i, f := range keys {
			cell := lit(g.textNear(g.pick(mapKeys...)))
			if dull > 0 {
				cell = lit(fmt.Sprintf("q%d", dull))
			}
			if dull == 0 && g.wide && g.p(0.7) {
				cell = lit(fmt.Sprintf("w%d", g.n(30)))
			}
			if dull == 0 && (f == "i" || f == "x") {
				cell = lit(fmt.Sprint(g.pickRat(intPool).N))
				if g.p(0.15) {
					cell = lit(g.numText(g.pickRat(intPool)))
				}
				if g.p(0.15) {
					cell = lit(g.pick("abc", "zero", "", "x", "NaN", "O", "0x0", "1,0"))
				}
				if r, ok := g.dictNum(); ok {
					cell = lit(r.text())
				}
			}
			if g.p(0.95) {
				r[fmt.Sprintf("k%d", i)] = cell
			}
		}
		if dull > 0 {
			dull--
		}
		if g.p(0.95) {
			r["out"] = outs()
		}
		x.Rows = append(x.Rows, r)
	}
	if g.p(0.5) {
		x.Def = []Lit{outs()}
		if g.p(0.05) {
			x.Type = "" // a default without type
		}
	}
	return x
}

func (c *dctx) mapNum() Expr {
	return c.mapExpr(func() Lit { return lit(c.g.numText(c.g.pickRat(numPool))) }, "double")
}

func (c *dctx) mapStr() Expr {
	return c.mapExpr(func() Lit { return lit(c.g.pick("a", "b", "u", "v", "a", "b", "u", "v", "")) }, "string")
}

// derive appends k derived fields, each free to use everything before it.
func (c *dctx) derive(prefix string, k int) []DField {
	g := c.g
	out := []DField{}
	if g.wide {
		k += g.up(1) - 1
	}
	for ; k > 0; k-- {
		c.k++
		name := fmt.Sprintf("%s%d", prefix, c.k)
		switch g.n(10) {
		case 0, 1:
			out = append(out, DField{Name: name, Op: g.pick("categorical", "categorical", "ordinal"), Type: "string", Expr: c.mapStr()})
			c.strs = append(c.strs, name)
		case 2:
			out = append(out, DField{Name: name, Op: g.pick("categorical", "categorical", "ordinal"), Type: "string", Expr: Expr{E: "ref", F: g.pick(c.strs...)}})
			c.strs = append(c.strs, name)
		case 3:
			out = append(out, DField{Name: name, Op: g.pick("categorical", "categorical", "ordinal"), Type: "boolean", Expr: c.cond()})
			c.all = append(c.all, name)
			continue
		default:
			out = append(out, DField{Name: name, Op: g.pick("continuous", "continuous", "ordinal"), Type: g.pick("double", "double", "float", "integer"), Expr: c.num(1 + g.n(2))})
			c.nums = append(c.nums, name)
		}
		c.all = append(c.all, name)
	}
	return out
}

func (g *G) dctx() *dctx {
	return &dctx{g: g, nums: g.numFields(), strs: []string{"s"}}
}

// reader is a model whose result shows the values of the derived fields.
func (g *G) reader(c *dctx, types map[string]string) Model {
	if len(c.all) > 0 && g.p(0.45) && !g.decimals {
		// a tree testing one derived field after the other
		fields := []DataF{}
		for _, n := range c.all {
			fields = append(fields, DataF{Name: n, Type: types[n]})
		}
		return g.tree(treeOpts{fn: g.pick("classification", "regression"), classes: []string{"a", "b", "c"}, strat: []string{"", "nullPrediction", "lastPrediction"},
			depth: 2, fan: 3, fields: fields, predDeep: 1})
	}
	m := Model{Kind: "reg", Fn: "regression", Norm: "none", Schema: g.schema(false), Outs: []Out{{Name: "score"}}}
	t := Table{Intercept: rat(0, 1)}
	dn := c.nums[len(g.numFields()):]
	if len(dn) == 0 {
		dn = c.nums
	}
	for k := 1 + g.n(2); k > 0; k-- {
		t.Nums = append(t.Nums, Num{Name: dn[g.n(len(dn))], Coef: rat(int64(1+g.n(3)), 1), Exp: 1})
	}
	if g.p(0.3) {
		t.Cats = append(t.Cats, Cat{Name: g.pick(c.strs...), Value: g.pick("a", "b", "u", "v"), Coef: rat(16, 1)})
	} else if g.p(0.15) {
		t.Cats = append(t.Cats, Cat{Name: g.pick(dn...), Value: g.pick("1", "2", "3", "1.0", "+2", "03", "10"), Coef: rat(16, 1)})
	}
	m.Tables = []Table{t}
	return m
}

func addTypes(types map[string]string, dfs []DField) {
	for _, d := range dfs {
		types[d.Name] = d.Type
	}
}

// derivedDoc spreads derived fields over dictionary, enclosing model and model.
func (g *G) derivedDoc() (Doc, map[string]string) {
	// numbers that floating point only approximates may not be compared with others
	g.decimals = g.p(0.2)
	d := g.fresh()
	types := map[string]string{}
	c := g.dctx()
	d.TD = c.derive("td", g.n(4))
	addTypes(types, d.TD)
	if g.p(0.4) {
		m := Model{Kind: "mining", Fn: "regression", Method: g.pick("selectFirst", "modelChain"), Schema: g.schema(false)}
		m.LT = c.derive("mt", g.n(3))
		addTypes(types, m.LT)
		for k := 1 + g.n(2); k > 0; k-- {
			ci := *c
			lt := ci.derive(fmt.Sprintf("l%d_", k), g.n(3))
			ti := map[string]string{}
			for a, b := range types {
				ti[a] = b
			}
			addTypes(ti, lt)
			in := g.reader(&ci, ti)
			in.LT = lt
			s := Seg{ID: fmt.Sprint(k), Models: []Model{in}}
			if g.p(0.5) && len(c.all) > 0 && !g.decimals {
				n := c.all[g.n(len(c.all))]
				s.Preds = []Pred{g.simple([]DataF{{Name: n, Type: types[n]}})}
			}
			m.Segs = append(m.Segs, s)
		}
		d.Model = m
		return d, types
	}
	lt := c.derive("lt", g.n(4))
	if len(lt)+len(d.TD) == 0 {
		lt = c.derive("lt", 2)
	}
	addTypes(types, lt)
	d.Model = g.reader(c, types)
	d.Model.LT = lt
	return d, types
}

func genP09(g *G) Case {
	if g.p(0.03) {
		return genBusy(g)
	}
	g.odd = g.p(0.2)
	d, _ := g.derivedDoc()
	return Case{Doc: d, Rows: g.rows(10, 0.2)}
}

// --- missing value replacement --------------------------------------------------

func (g *G) replacements(s []SField, prob float64) []SField {
	out := []SField{}
	for _, f := range s {
		if f.Usage != "target" && g.p(prob) {
			for _, d := range g.dd {
				if d.Name == f.Name {
					f.Repl = []Lit{g.litOf(d.Type)}
				}
			}
		}
		out = append(out, f)
	}
	return out
}

func (g *G) replaceIn(m *Model, prob float64) {
	m.Schema = g.replacements(m.Schema, prob)
	for i := range m.Segs {
		for j := range m.Segs[i].Models {
			g.replaceIn(&m.Segs[i].Models[j], prob*0.5)
		}
	}
}

func genP10(g *G) Case {
	var d Doc
	switch g.n(6) {
	case 0:
		d = g.fresh()
		d.Model = g.tree(treeOpts{fn: g.pick("classification", "regression"), classes: []string{"a", "b", "c"}, strat: []string{"", "none", "nullPrediction", "lastPrediction", "defaultChild"},
			depth: 1 + g.n(2), fan: 3, fields: g.inputs()})
	case 1:
		d = g.fresh()
		d.Model = g.scoreReg("score", g.numFields())
	case 2:
		d = g.fresh()
		d.Model = g.aggregate("regression", 1, nil)
	case 3:
		d = g.fresh()
		d.Model = g.chain(1)
	default:
		d, _ = g.derivedDoc()
	}
	g.replaceIn(&d.Model, 0.6)
	return Case{Doc: d, Rows: g.rows(10, 0.45)}
}
