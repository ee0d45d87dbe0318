package main

import (
	"math"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
)

// Documents in another unit.  What a model without links, exponents and products does to its inputs
// does not depend on the unit they are measured in: the specification computes with small numbers, the
// implementation with the same numbers times 2^k, and its results must be the specified ones times 2^k.
// That takes the comparison where TLC's integers do not reach: to numbers near zero and to large ones.

var units = []int{-700, -300, -100, -64, -52, -40, -33, -30, -24, -20, -16, -10, 10, 16, 20, 24, 30, 33, 40, 52, 60, 64, 100, 300, 700}

// scalable are the properties some of whose documents may be scaled.
var scalable = map[string]bool{"P02": true, "P03": true, "P06": true, "P07": true, "P08": true, "P09": true, "P10": true}

// scaled draws documents until one is linear in its unit, and gives up on that after a while.
func (g *G) scaled(draw gen) Case {
	g.unit, g.lits = true, nil
	for try := 0; try < 30; try++ {
		c := draw(g)
		if linear(c) {
			c.Doc.Scale = units[g.n(len(units))]
			return c
		}
	}
	g.unit = false
	return draw(g)
}

// linear: every number that is not a factor is a quantity.
func linear(c Case) bool {
	d := c.Doc
	quantity := map[string]bool{}
	for _, f := range d.DD {
		if f.Type == "double" {
			quantity[f.Name] = true
		} else if f.Type != "string" && f.Type != "boolean" {
			return false
		}
		for _, v := range f.Values {
			if v.IsNum {
				return false
			}
		}
	}
	lits := func(ls []Lit, number bool) bool {
		for _, l := range ls {
			if l.IsNum != number {
				return false
			}
		}
		return true
	}
	mods := modelsOf(&d.Model)
	dfs := append([]DField{}, d.TD...)
	for _, m := range mods {
		dfs = append(dfs, m.LT...)
	}
	for _, df := range dfs {
		if df.Type == "integer" || df.Type == "float" {
			return false
		}
		quantity[df.Name] = df.Type == "double"
	}
	for _, df := range dfs {
		for _, x := range exprsOf(&df.Expr) {
			switch x.E {
			case "map":
				for _, p := range x.Pairs {
					if quantity[p.F] {
						return false
					}
				}
				for _, r := range x.Rows {
					for k, l := range r {
						if l.IsNum != (k == x.OutCol && quantity[df.Name]) && l.IsNum {
							return false
						}
					}
				}
			case "unsup":
				return false
			case "apply":
				if (x.Fn == "*" || x.Fn == "/") && factor(x) < 0 {
					return false
				}
			}
		}
	}
	pred := func(p *Pred) bool {
		for _, q := range predsOf(p) {
			if q.V != nil && (q.P == "simple") && !lits([]Lit{*q.V}, quantity[q.F]) || !lits(q.Items, quantity[q.F]) {
				return false
			}
		}
		return true
	}
	for _, m := range mods {
		for _, f := range m.Schema {
			if !lits(f.Repl, quantity[f.Name]) {
				return false
			}
		}
		if m.Fn == "regression" && len(m.Outs) > 0 {
			for _, o := range m.Outs {
				quantity[o.Name] = true
			}
		}
	}
	quantity["score"] = true
	for _, m := range mods {
		switch m.Kind {
		case "tree":
			if m.Strat == "weightedConfidence" || m.Strat == "aggregateNodes" {
				if m.Fn == "regression" {
					return false
				}
			}
			for _, n := range nodesOf(m.Root) {
				if !pred(&n.Pred) || n.Score.S != "" && n.Score.IsNum != (m.Fn == "regression") {
					return false
				}
				for _, w := range n.Dist {
					if w.V.IsNum != (m.Fn == "regression") {
						return false
					}
				}
			}
		case "reg":
			if m.Fn != "regression" || m.Norm != "" && m.Norm != "none" {
				return false
			}
			for _, t := range m.Tables {
				for _, n := range t.Nums {
					if n.Exp != 1 || !quantity[n.Name] {
						return false
					}
				}
				for _, c := range t.Cats {
					if quantity[c.Name] {
						return false
					}
				}
			}
		case "mining":
			for _, s := range m.Segs {
				for i := range s.Preds {
					if !pred(&s.Preds[i]) {
						return false
					}
				}
			}
			if m.Fn == "classification" && m.Method != "selectFirst" {
				for _, s := range m.Segs {
					for _, in := range s.Models {
						if in.Fn != m.Fn {
							return false
						}
					}
				}
			}
		default:
			return false
		}
	}
	for _, r := range c.Rows {
		for k, v := range r {
			if v.K == "num" && (!quantity[k] || v.G != "float64") || v.K == "str" && v.IsNum != quantity[k] {
				return false
			}
		}
	}
	return true
}

// factor tells which argument of a product or quotient is no quantity (-1: none).
func factor(x *Expr) int {
	switch {
	case len(x.Args) != 2 || x.Fn != "*" && x.Fn != "/":
		return -1
	case x.Args[1].E == "const":
		return 1
	case x.Fn == "*" && x.Args[0].E == "const":
		return 0
	}
	return -1
}

func unitText(n, d int64, k int) string {
	return strconv.FormatFloat(math.Ldexp(float64(n)/float64(d), k), 'g', -1, 64)
}

// in converts a row value to the unit.
func (v Val) in(k int) Val {
	if k != 0 && (v.K == "num" || v.K == "str" && v.IsNum) {
		v.S = unitText(v.N, v.D, k)
	}
	return v
}

func (w *xw) lit(l Lit) string {
	if w.unit != 0 && l.IsNum {
		return unitText(l.N, l.D, w.unit)
	}
	return l.S
}

// quantity writes a number that is no factor.
func (w *xw) quantity(r Rat) string {
	if w.unit != 0 {
		return unitText(r.N, r.D, w.unit)
	}
	return r.text()
}

func inUnit(r Row, k int) Row {
	if k == 0 {
		return r
	}
	out := Row{}
	for f, v := range r {
		out[f] = v.in(k)
	}
	return out
}

// outOfUnit undoes the unit in a result; probabilities have none.
func outOfUnit(g *got, k int) {
	if k == 0 || g.St != "ok" {
		return
	}
	out := evaluation.DataRow{}
	for f, v := range g.Out {
		if isNumber(v.Raw()) && !strings.HasPrefix(f, "probability(") {
			v = evaluation.NewValue(math.Ldexp(v.Float64(), -k))
		}
		out[f] = v
	}
	g.Out = out
}
