package main

import "fmt"

// alias puts a derived field between some field of the data dictionary and part of what reads it,
// so that every place which reads a field also reads fields of the other sort.
func (g *G) alias(c *Case) {
	d := &c.Doc
	if len(d.DD) == 0 {
		return
	}
	used := map[string]bool{}
	for _, m := range modelsOf(&d.Model) {
		for _, f := range m.LT {
			used[f.Name] = true
		}
	}
	for _, f := range d.TD {
		used[f.Name] = true
	}
	for k := 1 + g.n(3); k > 0; k-- {
		f := d.DD[g.n(len(d.DD))]
		if f.Name == "t" {
			continue
		}
		name := fmt.Sprintf("z%d", k)
		if used[name] {
			continue
		}
		df := DField{Name: name, Op: g.pick("categorical", "ordinal"), Type: f.Type, Expr: Expr{E: "ref", F: f.Name}}
		number := f.Type != "string" && f.Type != "boolean" && !g.plain // arithmetic is in floating point
		if number && g.p(0.4) {
			df.Op = "continuous"
		}
		switch g.n(6) {
		case 0:
			df.Expr = Expr{E: "map", Type: f.Type, OutCol: "out", Pairs: []Pair{{F: f.Name, Col: "in"}}}
		case 1:
			zero := lit("0")
			if number {
				df.Expr = Expr{E: "apply", Fn: g.pick("sum", "+", "-"), Args: []Expr{df.Expr, {E: "const", Type: "double", V: &zero}}}
			}
		case 2:
			df.Expr = Expr{E: "apply", Fn: "if", Args: []Expr{{E: "apply", Fn: g.pick("isMissing", "isNotMissing"), Args: []Expr{df.Expr}}, df.Expr, df.Expr}}
		}
		models := modelsOf(&d.Model)
		under := models
		if at := g.n(3); at == 0 {
			d.TD = append(d.TD, df)
		} else {
			m := models[0]
			if at == 2 {
				m = models[g.n(len(models))]
				under = modelsOf(m)
			}
			m.LT = append(m.LT, df)
		}
		all := g.p(0.4)
		swap := func(s *string) {
			if *s == f.Name && (all || g.p(0.5)) {
				*s = name
			}
		}
		for _, m := range under {
			if m.Root != nil {
				for _, n := range nodesOf(m.Root) {
					for _, q := range predsOf(&n.Pred) {
						swap(&q.F)
					}
				}
			}
			for i := range m.Tables {
				for j := range m.Tables[i].Nums {
					swap(&m.Tables[i].Nums[j].Name)
				}
				for j := range m.Tables[i].Cats {
					swap(&m.Tables[i].Cats[j].Name)
				}
			}
			for i := range m.Segs {
				for j := range m.Segs[i].Preds {
					for _, q := range predsOf(&m.Segs[i].Preds[j]) {
						swap(&q.F)
					}
				}
			}
		}
	}
}
