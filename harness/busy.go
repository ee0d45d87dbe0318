package main

import "fmt"

// genBusy: lists of which the later entries are met as often as the earlier ones: long sets,
// long tables, many children, many alternatives, many terms.
func genBusy(g *G) Case {
	d := g.fresh()
	d.DD = append(d.DD, DataF{Name: "k", Type: "string"}, DataF{Name: "n", Type: "integer"})
	long := func() int { return 6 + g.n(9) }
	pool := func(k int) []Lit {
		out := []Lit{}
		for _, i := range g.r.Perm(16)[:k] {
			out = append(out, lit(fmt.Sprintf("v%d", i)))
		}
		return out
	}
	numbers := func(k int) []Lit {
		out := []Lit{}
		for _, i := range g.r.Perm(16)[:k] {
			out = append(out, lit(fmt.Sprint(i)))
		}
		return out
	}
	set := func() Pred {
		op := g.pick("isIn", "isIn", "isNotIn")
		if g.p(0.5) {
			return Pred{P: "set", F: "k", Op: op, Items: pool(long())}
		}
		return Pred{P: "set", F: "n", Op: op, Items: numbers(long())}
	}
	pred := func() Pred {
		if g.p(0.3) {
			p := Pred{P: "comp", Op: g.pick("and", "or", "xor", "surrogate")}
			for j := 2 + g.n(6); j > 0; j-- {
				p.Ch = append(p.Ch, set())
			}
			return p
		}
		return set()
	}
	tree := func() Model {
		root := leafNode("0", Pred{P: "true"})
		root.ID = "r"
		for j := long(); j > 0; j-- {
			n := leafNode(fmt.Sprint(j), pred())
			n.ID = fmt.Sprintf("c%d", j)
			root.Ch = append(root.Ch, n)
		}
		return Model{Kind: "tree", Fn: "regression", Schema: g.schema(false), Strat: g.pick("", "none", "lastPrediction", "nullPrediction"), Root: &root}
	}
	table := func() Expr {
		x := Expr{E: "map", OutCol: "out", Type: "double", Pairs: []Pair{{F: "k", Col: "key"}}}
		for j, k := range pool(long()) {
			x.Rows = append(x.Rows, Cells{"key": k, "out": lit(fmt.Sprint(j + 1))})
		}
		if g.p(0.5) {
			x.Def = []Lit{lit("-1")}
		}
		return x
	}
	terms := func() Model {
		t := Table{Intercept: rat(1, 2)}
		for j, k := range pool(long()) {
			t.Cats = append(t.Cats, Cat{Name: "k", Value: k.S, Coef: rat(int64(j+1), 1)})
		}
		t.Nums = append(t.Nums, Num{Name: g.pick("m", "n"), Coef: rat(100, 1), Exp: 1})
		return Model{Kind: "reg", Fn: "regression", Norm: "none", Schema: g.schema(false), Outs: []Out{{Name: "score"}}, Tables: []Table{t}}
	}
	dd := g.dd
	g.dd = append(append([]DataF{}, dd...), DataF{Name: "k", Type: "string"}, DataF{Name: "n", Type: "integer"})
	d.DD = g.dd
	m := Model{Kind: "mining", Fn: "regression", Method: g.pick("sum", "average", "selectFirst", "modelChain"), Schema: g.schema(false), Outs: []Out{{Name: "score"}}}
	m.LT = []DField{{Name: "m", Op: "continuous", Type: "double", Expr: table()}}
	for j := long(); j > 0; j-- {
		in := tree()
		if g.p(0.4) {
			in = terms()
		}
		s := Seg{ID: fmt.Sprint(j), Models: []Model{in}}
		if g.p(0.6) {
			s.Preds = []Pred{pred()}
		}
		m.Segs = append(m.Segs, s)
	}
	d.Model = m
	if g.p(0.3) {
		d.Model = m.Segs[0].Models[0]
		d.Model.LT = m.LT
	}
	rows := []Row{}
	for i := 0; i < 8; i++ {
		r := g.row(0.1)
		r["k"] = strVal(fmt.Sprintf("v%d", g.n(18)))
		r["n"] = g.numVal(rat(int64(g.n(18)), 1))
		rows = append(rows, r)
	}
	return Case{Doc: d, Rows: rows}
}
