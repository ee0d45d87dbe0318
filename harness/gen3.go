package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
)

// --- verification ---------------------------------------------------------------

// genP11 makes the models; verifgen adds verification tables once the
// specification has said what the models predict.
func genP11(g *G) Case {
	d := g.fresh()
	switch g.n(7) {
	case 0:
		d.Model = g.classTree([]string{"a", "b", "c"})
	case 1:
		d.Model = g.classTree([]string{"1", "2"})
	case 2:
		d.Model = g.scoreTree()
	case 3:
		d.Model = g.aggregate(g.pick("regression", "classification"), 1, []string{"a", "b", "c"})
	case 4:
		d.Model = g.chain(0)
	case 5:
		d, _ = g.derivedDoc()
	default:
		d.Model = g.scoreReg("score", g.numFields())
	}
	if g.p(0.2) {
		g.replaceIn(&d.Model, 0.5)
	}
	c := Case{Doc: d}
	for i := g.up(6); i > 0; i-- {
		row := Row{}
		for _, f := range g.inputs() {
			if g.p(0.85) {
				l := g.litOf(f.Type)
				row[f.Name] = Val{K: "str", S: l.S, IsNum: l.IsNum, N: l.N, D: l.D}
			}
		}
		c.Rows = append(c.Rows, row)
	}
	return c
}

func ratLit(r Rat) Lit {
	l := Lit{S: r.text(), IsNum: true, N: r.N, D: r.D, B: "no"}
	return l
}

// perturb changes an expected number by a factor that the tolerance clearly
// admits or clearly does not.
func (g *G) perturb(r Rat, good bool) (Rat, bool) {
	abs := r.N
	if abs < 0 {
		abs = -abs
	}
	if r.N == 0 {
		if good {
			return r, true
		}
		return rat(1, int64(1)<<uint(g.n(20))), true
	}
	small := abs < 15000 && r.D < 64
	if good {
		if small && g.p(0.5) {
			return rat(r.N*(131072+int64(1-2*g.n(2))), r.D*131072), true
		}
		return r, true
	}
	switch g.n(4) {
	case 0:
		return rat(-r.N, r.D), true
	case 1:
		return rat(0, 1), true
	case 2:
		return rat(r.N*3, r.D*2), abs < 100000
	}
	k := int64([]int{65536, 32768, 4096, 64}[g.n(4)])
	return rat(r.N*(k+int64(1-2*g.n(2))), r.D*k), small
}

func verifgen(seed int64, cases, expected, out string) {
	byID := map[string]Expected{}
	readLines(expected, func(b []byte) {
		var e Expected
		if tlcLine(b, &e) {
			byID[e.ID] = e
		}
	})
	f, err := os.Create(out)
	fatal(err)
	w := bufio.NewWriter(f)
	i := int64(0)
	readLines(cases, func(b []byte) {
		i++
		var c Case
		fatal(json.Unmarshal(b, &c))
		g := &G{r: rand.New(rand.NewSource(seed*7777777 + i))}
		c.Doc.Ver = []Verif{g.table2(c, byID[c.ID])}
		if g.p(0.03) {
			c.Doc.Ver = nil
		}
		w.Write(toJSON(c))
		w.WriteByte('\n')
	})
	fatal(w.Flush())
	fatal(f.Close())
}

// table2 builds a verification table: mostly the predicted values, with at
// most one cell changed.
func (g *G) table2(c Case, e Expected) Verif {
	v := Verif{}
	inCols := map[string]string{}
	target := ""
	for _, f := range c.Doc.Model.Schema {
		if f.Usage == "target" {
			target = f.Name
		}
	}
	for i, f := range c.Doc.DD {
		if f.Name == "t" || f.Name == target {
			continue
		}
		if g.p(0.95) {
			col := column(i, f.Name)
			if g.p(0.5) && col == f.Name {
				col = "col_" + f.Name
			}
			inCols[f.Name] = col
			v.Fields = append(v.Fields, VField{Field: f.Name, Col: col, Pre: true})
		}
	}
	names := map[string]bool{}
	for _, o := range e.Evals {
		for k := range o.Out {
			names[k] = true
		}
	}
	outNames := []string{}
	for k := range names {
		outNames = append(outNames, k)
	}
	sort.Strings(outNames)
	outCols := map[string]string{}
	for i, k := range outNames {
		if i > 0 && g.p(0.3) {
			continue
		}
		outCols[k] = fmt.Sprintf("out%d", i)
		v.Fields = append(v.Fields, VField{Field: k, Col: outCols[k], Pre: true, Out: true})
	}
	if g.p(0.06) {
		v.Fields = append(v.Fields, VField{Field: "nonexistent", Col: "ghost", Pre: true, Out: true})
		outCols["nonexistent"] = "ghost"
	}
	if g.p(0.05) && len(v.Fields) > 0 {
		v.Fields[g.n(len(v.Fields))].Pre = false
	}
	g.r.Shuffle(len(v.Fields), func(i, j int) { v.Fields[i], v.Fields[j] = v.Fields[j], v.Fields[i] })
	badRow := -1
	if g.p(0.5) {
		badRow = g.n(len(c.Rows))
	}
	for i, row := range c.Rows {
		cells := Cells{}
		for f, val := range row {
			if col, ok := inCols[f]; ok {
				cells[col] = lit(val.S)
			}
		}
		usable := []string{}
		for _, k := range outNames {
			if _, ok := outCols[k]; ok {
				if _, ok := e.Evals[i].Out[k]; ok {
					usable = append(usable, k)
				}
			}
		}
		bad := ""
		if i == badRow && len(usable) > 0 {
			bad = usable[g.n(len(usable))]
		}
		for _, k := range usable {
			o := e.Evals[i].Out[k]
			var l Lit
			switch {
			case o.O == "label":
				l = o.Ls[0]
				if k == bad {
					l = lit(g.textNear(g.pick("a", "b", "zz", "NaN", "1", "2", "1.0078125", "1.5", g.pick(sentinels...))))
				} else if l.IsNum && g.p(0.3) {
					l = lit(l.S + ".0")
				}
			case o.E.X != "q":
				continue
			default:
				r, ok := g.perturb(Rat{o.E.N, o.E.D}, k != bad)
				if !ok {
					r = Rat{o.E.N, o.E.D}
				}
				l = ratLit(r)
				if k == bad && g.p(0.15) {
					l = lit(g.pick("NaN", "high"))
				}
			}
			cells[outCols[k]] = l
		}
		if col, ok := outCols["nonexistent"]; ok && g.p(0.8) {
			cells[col] = lit("1")
		}
		v.Rows = append(v.Rows, cells)
	}
	return v
}

// --- unsupported and inconsistent documents ---------------------------------------

var unsupportedModels = []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel",
	"GeneralRegressionModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork", "RuleSetModel", "Scorecard", "SequenceModel",
	"SupportVectorMachineModel", "TextModel", "TimeSeriesModel"}

func (g *G) unsupported() Model {
	return Model{Kind: "unsup", Name: unsupportedModels[g.n(len(unsupportedModels))]}
}

func modelsOf(m *Model) []*Model {
	out := []*Model{m}
	for i := range m.Segs {
		for j := range m.Segs[i].Models {
			out = append(out, modelsOf(&m.Segs[i].Models[j])...)
		}
	}
	return out
}

func nodesOf(n *Node) []*Node {
	out := []*Node{n}
	for i := range n.Ch {
		out = append(out, nodesOf(&n.Ch[i])...)
	}
	return out
}

func predsOf(p *Pred) []*Pred {
	out := []*Pred{p}
	for i := range p.Ch {
		out = append(out, predsOf(&p.Ch[i])...)
	}
	return out
}

func exprsOf(x *Expr) []*Expr {
	out := []*Expr{x}
	for i := range x.Args {
		out = append(out, exprsOf(&x.Args[i])...)
	}
	return out
}

// breakPred makes a predicate unusable.
func (g *G) breakPred(p *Pred, types map[string]string) {
	ps := predsOf(p)
	p = ps[g.n(len(ps))]
	switch p.P {
	case "comp":
		p.Op = g.pick("", "nand", "AND", "not")
		return
	case "set":
		switch g.n(3) {
		case 0:
			p.Op = g.pick("", "in", "isMissing", "equal")
		case 1:
			p.F = g.pick("nofield", "")
		default:
			if types[p.F] != "string" && len(p.Items) > 0 {
				p.Items[g.n(len(p.Items))] = lit(g.pick("abc", "1x"))
			} else {
				p.Op = "contains"
			}
		}
		return
	case "simple":
	default:
		l := g.litOf("double")
		*p = Pred{P: "simple", F: "x", Op: "equal", V: &l}
	}
	switch g.n(5) {
	case 0:
		p.Op = g.pick("", "equals", "<", "isIn", "lessthan")
	case 1:
		p.F = g.pick("nofield", "X", "")
	case 2:
		p.F, p.Op = g.pick("s", "b"), g.pick("lessThan", "greaterThan", "lessOrEqual", "greaterOrEqual")
		l := lit("true")
		p.V = &l
	default:
		p.F, p.Op = g.pick("x", "i", "f", "b"), g.pick("equal", "notEqual")
		if p.F != "b" {
			p.Op = g.pick("equal", "notEqual", "lessThan", "greaterOrEqual")
		}
		l := lit(g.textNear(g.pick("abc", "", "1 2", "yes", "--1", g.nearNumber())))
		p.V = &l
		if p.F == "i" && g.p(0.4) {
			l = lit("1.5")
		}
	}
}

func (g *G) breakExpr(x *Expr) {
	root := x
	xs := exprsOf(x)
	x = xs[g.n(len(xs))]
	unsup := func() {
		*x = Expr{E: "unsup", Name: g.pick("NormContinuous", "NormDiscrete", "Discretize", "Lag", "Aggregate", "TextIndex")}
		if x == root && g.p(0.2) {
			x.Name = "none" // no expression at all
		}
	}
	switch x.E {
	case "apply":
		switch g.n(3) {
		case 0:
			x.Fn = g.pick("pow", "max", "ln", "Sum", "==", "and", "")
		case 1:
			if x.Fn == "sum" {
				x.Fn = g.pick("min", "SUM", "avg")
			} else if g.p(0.5) {
				x.Args = x.Args[:len(x.Args)-1]
			} else {
				x.Args = append(x.Args, Expr{E: "ref", F: "x"})
			}
		default:
			unsup()
		}
	case "const":
		if g.p(0.5) {
			x.Type = g.pick("integer", "string", "boolean", "", "float")
		} else {
			l := lit(g.textNear(g.pick("abc", "", "1,5", "1 2", "", g.nearNumber())))
			x.V = &l
			if g.p(0.3) {
				x.Type = ""
			}
		}
	default:
		unsup()
	}
}

// texts that are almost numbers
var nearNumbers = []string{"high", "1.5x", "0x", "1_0", "0x1p4", "4%", "$4", "4.0.0", "4f", "4d", "4L", "1e", "1e+", "0b1", "0o7", "\uff14", "4,0", "1 000", "+-4", "4-", "--4", "e5", ".", "-", "+", "½", "4px", "(4)",
	"#4", "4;", "4/2", "true", "IV", "4e5.5", "1'000", "4 ", "∞", "0x1F", "1.5e3x"}

func (g *G) breakDoc(d *Doc) {
	ms := modelsOf(&d.Model)
	m := ms[g.n(len(ms))]
	types := map[string]string{}
	for _, f := range d.DD {
		types[f.Name] = f.Type
	}
	k := g.n(8)
	switch {
	case k == 0:
		m.Fn = g.pick("", "clustering", "sequences", "associationRules", "timeSeries", "mixed", "Regression", "CLASSIFICATION")
		return
	case k == 1 && g.p(0.3):
		*m = g.unsupported()
		return
	case k == 2:
		for tries := 0; tries < 5; tries++ {
			dfs := &d.TD
			if len(*dfs) == 0 || g.p(0.5) {
				dfs = &m.LT
			}
			if len(*dfs) > 0 {
				g.breakExpr(&(*dfs)[g.n(len(*dfs))].Expr)
				return
			}
			m = ms[g.n(len(ms))]
		}
		c := g.dctx()
		d.TD = append(d.TD, c.derive("zz", 1)...)
		g.breakExpr(&d.TD[len(d.TD)-1].Expr)
		return
	}
	if g.p(0.15) {
		// a predicate on a field of a type that has no values here
		t := g.pick("date", "time", "dateTime", "timeSeconds", "dateDaysSince[1970]", "dateTimeSecondsSince[1980]", "dateDaysSince[0]", "dateTimeSecondsSince[0]")
		l := lit(g.pick("2020-01-01", "12:00:00", "1", "true", "abc"))
		p := Pred{P: "simple", F: "day", Op: g.pick("equal", "notEqual", "lessThan", "greaterOrEqual"), V: &l}
		if g.p(0.3) {
			p = Pred{P: "set", F: "day", Op: g.pick("isIn", "isNotIn"), Items: []Lit{l}}
		}
		switch {
		case m.Kind == "tree":
			ns := nodesOf(m.Root)
			ns[g.n(len(ns))].Pred = p
		case m.Kind == "mining" && len(m.Segs) > 0:
			m.Segs[g.n(len(m.Segs))].Preds = []Pred{p}
		default:
			t = ""
		}
		if t != "" {
			d.DD = append(append([]DataF{}, d.DD...), DataF{Name: "day", Type: t})
			return
		}
	}
	switch m.Kind {
	case "tree":
		ns := nodesOf(m.Root)
		n := ns[g.n(len(ns))]
		switch {
		case g.p(0.2):
			n.Pred = Pred{P: "none"}
		case m.Fn == "regression" && g.p(0.4):
			n.Score = lit(g.textNear(g.pick("high", "", "1.2.3", "0,5", g.nearNumber())))
		default:
			g.breakPred(&n.Pred, types)
		}
	case "reg":
		switch g.n(5) {
		case 0:
			m.Norm = g.pick("probit", "loglog", "Softmax", "bogus", "NONE")
		case 1:
			if len(m.Outs) > 0 {
				m.Outs[g.n(len(m.Outs))].Feature = g.pick("decision", "transformedValue", "residual", "entityId", "bogus", "Probability")
			}
		case 2:
			if g.p(0.5) {
				m.Tables = nil
			} else {
				m.Tables = append(m.Tables, m.Tables[0])
			}
		case 3:
			if g.p(0.5) {
				m.Outs = nil
			} else if len(m.Outs) > 0 {
				o := m.Outs[0]
				o.Name += "2"
				m.Outs = append(m.Outs, o)
			}
		default:
			if len(m.Tables) > 0 {
				m.Tables[g.n(len(m.Tables))].Terms = true
			}
		}
	case "mining":
		if len(m.Segs) == 0 {
			m.Method = "bogus"
			return
		}
		s := &m.Segs[g.n(len(m.Segs))]
		switch g.n(5) {
		case 0:
			m.Method = g.pick("max", "median", "majorityVote", "weightedAverage", "selectAll", "weightedMajorityVote", "bogus", "Sum")
		case 1:
			if len(m.Outs) > 0 {
				m.Outs[g.n(len(m.Outs))].Feature = g.pick("decision", "transformedValue", "predictedValue", "bogus")
			} else {
				m.Outs = []Out{{Name: "q", Feature: "residual"}}
			}
		case 2:
			if g.p(0.5) {
				s.Models = nil
			} else {
				s.Models = append(s.Models, s.Models[0])
			}
		case 3:
			s.Preds = append(s.Preds, Pred{P: "true"}, Pred{P: "true"})
		default:
			if len(s.Preds) == 0 {
				s.Preds = []Pred{{P: "false"}}
			}
			g.breakPred(&s.Preds[0], types)
		}
	case "unsup":
	}
}

func genP15(g *G) Case {
	var c Case
	switch g.n(9) {
	case 0:
		c = genP03(g)
	case 1, 2:
		c = genP06(g)
	case 3:
		c = genP07(g)
	case 4:
		c = genP08(g)
	case 5, 6:
		c = genP09(g)
	case 7:
		c = genP02(g)
	default:
		c = genP05(g)
	}
	if len(c.Rows) > 4 {
		c.Rows = c.Rows[:4]
	}
	// copy through JSON: generators may share slices
	var d Doc
	fatal(json.Unmarshal(toJSON(c.Doc), &d))
	g.breakDoc(&d)
	c.Doc = d
	return c
}

var _ = strconv.Itoa
