package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Random documents and rows.  Numbers are small dyadic rationals, so that the
// implementation's floating point and the specification's exact arithmetic
// agree and TLC's 32-bit integers suffice.

type G struct {
	r *rand.Rand
	// names of fields by use, in the current document
	dd       []DataF
	decimals bool // use decimals that floating point only approximates
	exact    bool // use none
	odd      bool // let conditional branches hold unsupported expressions
	wide     bool // make something in the document large
	extra    int  // how many more children, items, rows... than usual are left to hand out
	deep     int  // how much deeper than usual something may be
	huge     int  // something that may repeat gets exactly this many
	exactly  int  // likewise, a few
	lits     *dict
	plain    bool // numbers are only compared
	unit     bool // the document may be scaled
	tame     bool // numbers are to be raised to powers
}

// many is more than anything gets unless it is huge.
const many = 60

// up draws from 1..k, and more in a wide document.
func (g *G) up(k int) int {
	n := 1 + g.n(k)
	if g.huge > 0 && g.p(0.5) {
		n, g.huge = g.huge, 0
		return n
	}
	if g.exactly > 0 && g.p(0.4) {
		return g.exactly
	}
	if g.extra > 0 && g.p(0.5) {
		e := g.n(g.extra + 1)
		g.extra -= e
		n += e
	}
	return n
}

func (g *G) n(k int) int             { return g.r.Intn(k) }
func (g *G) p(prob float64) bool     { return g.r.Float64() < prob }
func (g *G) pick(s ...string) string { return s[g.n(len(s))] }
func (g *G) pickRat(s []Rat) Rat     { return s[g.n(len(s))] }

var numPool = []Rat{{-2, 1}, {-1, 1}, {-1, 2}, {0, 1}, {1, 4}, {1, 2}, {1, 1}, {3, 2}, {2, 1}, {3, 1}, {10, 1}}
var intPool = []Rat{{-2, 1}, {-1, 1}, {0, 1}, {1, 1}, {2, 1}, {3, 1}, {7, 1}, {10, 1}, {8, 1}}
var strPool = []string{"a", "b", "c", "A", "1", "1.0", "true", "x y", "a&b", "<c>", `d"e`, "", " a", "a "}

func boolOf(s string) string {
	switch s {
	case "true", "1":
		return "true"
	case "false", "0":
		return "false"
	}
	return "no"
}

// lit makes a literal from text.
func lit(s string) Lit {
	l := Lit{S: s, D: 1, B: boolOf(s)}
	if f, err := strconv.ParseFloat(s, 64); err == nil && finite(f) && !strings.ContainsAny(s, "_xX") {
		r, ok := new(big.Rat).SetString(s)
		if !ok || !r.Num().IsInt64() || !r.Denom().IsInt64() || r.Num().Int64() > 1e9 || r.Num().Int64() < -1e9 || r.Denom().Int64() > 1e7 {
			panic("literal " + s + " is not a small rational number")
		}
		l.IsNum, l.N, l.D = true, r.Num().Int64(), r.Denom().Int64()
	}
	if _, err := strconv.ParseInt(s, 10, 64); err == nil {
		l.IsInt = true
	}
	return l
}

// numText writes a number in one of several ways.
func (g *G) numText(r Rat) string {
	if r.D == 1 {
		switch g.n(6) {
		case 0:
			return fmt.Sprintf("%d.0", r.N)
		case 1:
			return fmt.Sprintf("%de0", r.N)
		case 2:
			if r.N > 0 {
				return fmt.Sprintf("+%d", r.N)
			}
		}
		return fmt.Sprint(r.N)
	}
	if g.p(0.2) {
		return strconv.FormatFloat(r.f(), 'e', -1, 64)
	}
	return r.text()
}

func (g *G) litOf(typ string) Lit {
	if r, ok := g.dictNum(); ok && (typ == "double" || typ == "float" || typ == "integer" && r.D == 1) {
		return lit(r.text())
	}
	if s, ok := g.dictStr(); ok && typ == "string" {
		return lit(s)
	}
	if g.wide && typ != "boolean" && g.p(0.6) {
		if typ == "string" {
			return lit(fmt.Sprintf("w%d", g.n(30)))
		}
		return lit(fmt.Sprint(g.n(40) - 10))
	}
	if g.unit && typ == "boolean" {
		return lit(g.pick("true", "false"))
	}
	switch typ {
	case "double", "float":
		return lit(g.numText(g.pickRat(numPool)))
	case "integer":
		n := g.pickRat(intPool).N
		if n >= 0 && g.p(0.25) {
			return lit(g.pick("+", "0", "00", "+0") + fmt.Sprint(n))
		}
		if n >= 0 && g.p(0.1) {
			return lit(fmt.Sprintf("0%d", n+8)) // not octal
		}
		return lit(fmt.Sprint(n))
	case "boolean":
		return lit(g.pick("true", "false", "true", "false", "1", "0"))
	}
	return lit(g.str())
}

// str is one of the usual texts, or at times one that means nothing in particular.
func (g *G) str() string {
	if g.unit {
		return g.pick("a", "b", "c", "A", "x y", "a&b")
	}
	if g.p(0.12) {
		return g.pick(sentinels...)
	}
	return g.pick(strPool...)
}

// texts that stand for something elsewhere
var sentinels = []string{"NA", "N/A", "NaN", "nan", "null", "NULL", "nil", "<nil>", "none", "None", "?", "-", "inf", "Inf", "-Infinity", "undefined", "missing", ".", "#N/A", "\\N", "*", "%", "0x1", "1e", "yes", "no", "on", "T"}

var intKinds = []string{"int", "int8", "int16", "int32", "int64"}
var uintKinds = []string{"uint", "uint8", "uint16", "uint32", "uint64"}

// numVal supplies a number as some Go type or as text.
func (g *G) numVal(r Rat) Val {
	kind := g.n(4)
	if g.unit && kind < 2 {
		kind = 3
	}
	switch kind {
	case 0:
		if r.D == 1 {
			if r.N >= 0 && g.p(0.4) {
				return Val{K: "num", G: uintKinds[g.n(5)], S: fmt.Sprint(r.N), N: r.N, D: 1}
			}
			return Val{K: "num", G: intKinds[g.n(5)], S: fmt.Sprint(r.N), N: r.N, D: 1}
		}
	case 1:
		if r.D&(r.D-1) != 0 {
			break
		}
		return Val{K: "num", G: "float32", S: fmt.Sprint(float32(r.f())), N: r.N, D: r.D}
	case 2:
		return Val{K: "str", S: g.numText(r), IsNum: true, N: r.N, D: r.D}
	}
	return Val{K: "num", G: "float64", S: fmt.Sprint(r.f()), N: r.N, D: r.D}
}

func strVal(s string) Val {
	l := lit(s)
	return Val{K: "str", S: s, IsNum: l.IsNum, N: l.N, D: l.D}
}

func (g *G) valOf(typ string) Val {
	if r, ok := g.dictNum(); ok && typ != "string" && typ != "boolean" {
		return g.numVal(r)
	}
	if s, ok := g.dictStr(); ok && typ == "string" {
		return strVal(s)
	}
	if g.tame && typ != "boolean" && typ != "string" {
		r := g.pickRat([]Rat{{-2, 1}, {-1, 1}, {-1, 2}, {0, 1}, {1, 2}, {1, 1}, {2, 1}, {3, 1}})
		if typ == "integer" && r.D > 1 {
			r = rat(-3, 1)
		}
		return g.numVal(r)
	}
	if g.wide && typ != "boolean" && g.p(0.6) {
		if typ == "string" {
			return strVal(fmt.Sprintf("w%d", g.n(30)))
		}
		return g.numVal(rat(int64(g.n(40)-10), 1))
	}
	switch typ {
	case "double", "float":
		return g.numVal(g.pickRat(numPool))
	case "integer":
		if g.p(0.2) {
			return g.numVal(g.pickRat(numPool))
		}
		return g.numVal(g.pickRat(intPool))
	case "boolean":
		b := g.p(0.5)
		if g.p(0.3) {
			return strVal(fmt.Sprint(b))
		}
		return Val{K: "bool", B: b, S: fmt.Sprint(b), D: 1}
	}
	return strVal(g.str())
}

var nilVal = Val{K: "nil", S: "<nil>", D: 1}

// row draws a value for every input field; absent or without value with probability miss.
func (g *G) row(miss float64) Row {
	row := Row{}
	for _, f := range g.dd {
		if f.Name == "t" {
			continue
		}
		if g.p(miss) {
			if g.p(0.4) {
				row[f.Name] = nilVal
			}
			continue
		}
		row[f.Name] = g.valOf(f.Type)
	}
	if g.p(0.1) {
		row["unrelated"] = strVal("z")
	}
	return row
}

func (g *G) rows(k int, miss float64) []Row {
	out := []Row{}
	for i := 0; i < k; i++ {
		out = append(out, g.row(miss))
	}
	return out
}

// dictionary: two doubles, a float, an integer, a string, a boolean, and the target.
func (g *G) dictionary() []DataF {
	if g.unit {
		return []DataF{{Name: "x", Type: "double"}, {Name: "y", Type: "double"}, {Name: "v", Type: "double"}, {Name: "s", Type: "string"}, {Name: "b", Type: "boolean"}}
	}
	dd := []DataF{{Name: "x", Type: "double"}, {Name: "y", Type: "double"}, {Name: "f", Type: "float"},
		{Name: "i", Type: "integer"}, {Name: "s", Type: "string"}, {Name: "b", Type: "boolean"}}
	g.r.Shuffle(len(dd), func(i, j int) { dd[i], dd[j] = dd[j], dd[i] })
	return dd
}

func (g *G) target(dd []DataF, classes []string) []DataF {
	t := DataF{Name: "t", Type: "string"}
	for _, c := range classes {
		t.Values = append(t.Values, lit(c))
	}
	at := g.n(len(dd) + 1)
	out := append([]DataF{}, dd[:at]...)
	out = append(out, t)
	return append(out, dd[at:]...)
}

func (g *G) inputField() DataF {
	for {
		f := g.dd[g.n(len(g.dd))]
		if f.Name != "t" {
			return f
		}
	}
}

// --- predicates -------------------------------------------------------------

func (g *G) simple(fields []DataF) Pred {
	f := fields[g.n(len(fields))]
	ops := []string{"equal", "notEqual", "isMissing", "isNotMissing", "equal", "notEqual"}
	if f.Type != "string" && f.Type != "boolean" {
		ops = append(ops, "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "lessThan", "greaterOrEqual")
	}
	op := g.pick(ops...)
	l := g.litOf(f.Type)
	return Pred{P: "simple", F: f.Name, Op: op, V: &l}
}

func (g *G) pred(fields []DataF, depth int) Pred {
	k := g.n(10)
	switch {
	case depth > 0 && k < 4:
		n := g.up(4)
		if g.deep > 0 && g.p(0.7) {
			g.deep--
			depth++
			n = 1 + g.n(2)
		}
		p := Pred{P: "comp", Op: g.pick("and", "or", "xor", "surrogate")}
		if n > many {
			// alternatives that do not decide, and a few that may
			depth = 1
			fill := g.simple(fields)
			switch p.Op {
			case "and":
				fill = Pred{P: "true"}
			case "or":
				fill = Pred{P: "false"}
			case "xor":
				fill = Pred{P: g.pick("true", "false")}
			}
			if g.p(0.4) {
				fill = Pred{P: "true"}
			}
			for ; n > 2; n-- {
				p.Ch = append(p.Ch, fill)
			}
			n = g.n(3)
		}
		for i := 0; i < n; i++ {
			p.Ch = append(p.Ch, g.pred(fields, depth-1))
		}
		return p
	case k == 4:
		f := fields[g.n(len(fields))]
		p := Pred{P: "set", F: f.Name, Op: g.pick("isIn", "isNotIn")}
		n := g.up(4)
		for ; n > many && f.Type != "boolean"; n-- {
			// items no row has
			if f.Type == "string" {
				p.Items = append(p.Items, lit(fmt.Sprintf("q%d", n)))
			} else {
				p.Items = append(p.Items, lit(fmt.Sprint(1000+n)))
			}
		}
		if len(p.Items) > 0 {
			n = 3
		}
		for ; n > 0; n-- {
			p.Items = append(p.Items, g.litOf(f.Type))
		}
		return p
	case k == 5:
		return Pred{P: g.pick("true", "false", "true")}
	}
	return g.simple(fields)
}

func (g *G) inputs() []DataF {
	out := []DataF{}
	for _, f := range g.dd {
		if f.Name != "t" {
			out = append(out, f)
		}
	}
	return out
}

// schema lists the target and some inputs.
func (g *G) schema(target bool) []SField {
	out := []SField{}
	for _, f := range g.dd {
		if f.Name == "t" {
			if target {
				out = append(out, SField{Name: "t", Usage: "target"})
			}
			continue
		}
		out = append(out, SField{Name: f.Name, Usage: g.pick("", "active")})
	}
	return out
}

// --- trees ------------------------------------------------------------------

type treeOpts struct {
	fn       string
	classes  []string
	strat    []string
	depth    int
	fan      int
	fields   []DataF
	predDeep int
	complete bool // every node predicts every class
	target   string
	schema   []SField
	counts   bool // positive record counts everywhere
	dists    bool // vary the distributions
	small    bool // small counts and coarse probabilities (combined children multiply denominators)
}

func (g *G) dist(o treeOpts) []Dist {
	classes := append([]string{}, o.classes...)
	if o.dists && !o.small && g.wide && !o.complete {
		for k := g.up(1); k > 1; k-- {
			classes = append(classes, fmt.Sprintf("w%d", k))
		}
	}
	if s, ok := g.dictStr(); ok && o.dists && !o.complete {
		classes = append(classes, s)
	} else if o.dists && !o.complete && g.p(0.03) {
		classes = append(classes, "")
	}
	for i, c := range classes {
		for _, e := range classes[:i] {
			if c == e {
				classes[i] = fmt.Sprintf("%s_%d", c, i)
			}
		}
	}
	g.r.Shuffle(len(classes), func(i, j int) { classes[i], classes[j] = classes[j], classes[i] })
	if !o.complete && g.p(0.3) {
		classes = classes[:1+g.n(len(classes))]
	}
	if !o.complete && o.dists && g.p(0.2) {
		classes = append(classes, "zz")
	}
	mode := g.n(3)
	if o.complete && g.wide {
		mode = 1 // many of them are added up
	}
	out := []Dist{}
	unit, most := int64(16), 8
	if o.small {
		unit, most = 4, 3
	}
	if !o.small && !g.exact && g.p(0.3) {
		unit = 10
	}
	rest, over := unit, 0
	if o.dists && !o.small && !o.complete {
		over = g.n(10)
	}
	for i, c := range classes {
		d := Dist{V: lit(c), RC: rat(int64(1+g.n(most)), 1)}
		if !o.counts && g.p(0.15) {
			d.RC = rat(0, 1)
		}
		if !o.small && g.p(0.1) {
			d.RC = rat(d.RC.N*2+1, 2)
		}
		if o.small && g.p(0.08) {
			d.RC = g.pickRat([]Rat{{1, 2}, {3, 2}, {1, 4}})
		}
		if r, ok := g.dictNum(); ok && r.N >= 0 && !o.small {
			d.RC = r
		}
		share := rest
		if i < len(classes)-1 && rest > 1 {
			share = int64(g.n(int(rest)))
		}
		rest -= share
		if mode == 1 || (mode == 2 && g.p(0.5)) {
			d.Prob = []Rat{rat(share, unit)}
			if over == 1 {
				d.Prob = []Rat{rat(share*3, unit)} // not scaled to one
			} else if over == 2 {
				d.Prob = []Rat{rat(0, 1)}
			}
		}
		if mode == 1 && !o.counts && g.p(0.3) {
			d.RC = rat(0, 1)
		}
		out = append(out, d)
	}
	if mode != 1 {
		out[g.n(len(out))].RC = rat(int64(2+g.n(most)), 1)
	}
	return out
}

func (g *G) node(o treeOpts, depth int, id *int) Node {
	*id++
	n := Node{ID: fmt.Sprintf("n%d", *id), RC: rat(int64(1+g.n(12)), 1)}
	if o.small {
		n.RC = rat(int64(1+g.n(4)), 1)
		if g.p(0.1) {
			n.RC = g.pickRat([]Rat{{1, 2}, {3, 2}, {5, 2}})
		}
	}
	if r, ok := g.dictNum(); ok && r.N > 0 && !o.small {
		n.RC = r
	}
	if !o.counts && g.p(0.2) || g.p(0.06) {
		n.RC = rat(0, 1)
	}
	if o.fn == "regression" {
		n.Score = lit(g.numText(rat(int64(*id)*4+int64(g.n(4)), 4)))
		if !g.exact && g.p(0.2) {
			n.Score = lit(g.numText(rat(int64(*id)*10+int64(g.n(10)), 10)))
		}
		if o.dists && g.p(0.2) {
			n.Score = lit(g.pick("16777217", "-16777219", "123456.789", "0.001", "1e-5", "99999999", "1E2", ".5", "5."))
		}
		if r, ok := g.dictNum(); ok {
			n.Score = lit(g.numText(r))
		}
		if o.dists && g.p(0.15) {
			// numbers are not predicted by distribution
			n.Dist = []Dist{{V: lit("1"), RC: rat(int64(g.n(9)), 1)}, {V: lit("2"), RC: rat(3, 1)}}
			if g.p(0.3) {
				n.Score = lit("")
			}
		}
	} else {
		n.Score = lit(g.pick(o.classes...))
		if o.complete || g.p(0.6) {
			n.Dist = g.dist(o)
			if g.p(0.2) {
				n.Score = lit("")
			}
		} else if o.dists && g.p(0.15) {
			n.Score = lit(g.textNear(g.pick("zz", "zz", "NaN", "NA", "0")))
		} else if g.p(0.1) {
			n.Score = lit("")
		}
	}
	n.Pred = g.pred(o.fields, o.predDeep)
	if depth > 0 && g.p(0.85) {
		kids := 1 + g.n(o.fan)
		if o.fan > 1 && !o.small {
			kids = g.up(o.fan)
		}
		if g.deep > 0 && !o.small && g.p(0.8) {
			// a spine
			g.deep--
			depth++
			kids = 1
			if g.p(0.3) {
				l := g.node(o, 0, id)
				n.Ch = append(n.Ch, l)
			}
		}
		dull := 0
		if kids > many {
			dull, kids = kids-2, 2
			o.predDeep = 0
		}
		for k := dull; k > 0; k-- {
			l := g.node(o, 0, id)
			l.Pred = Pred{P: "false"}
			n.Ch = append(n.Ch, l)
		}
		for k := kids; k > 0; k-- {
			n.Ch = append(n.Ch, g.node(o, depth-1, id))
		}
		n.DC = n.Ch[g.n(len(n.Ch))].ID
		switch g.n(10) {
		case 0:
			n.DC = ""
		case 1:
			n.DC = "nowhere"
		case 2:
			if c := n.Ch[g.n(len(n.Ch))]; len(c.Ch) > 0 {
				n.DC = c.Ch[0].ID // a grandchild is not a child
			}
		}
	}
	return n
}

var allStrats = []string{"", "none", "nullPrediction", "lastPrediction", "defaultChild", "weightedConfidence", "aggregateNodes"}

// nodeIDs gives the nodes identifiers of another style; only defaultChild looks at them, so elsewhere they need not differ.
func (g *G) nodeIDs(root *Node, strat string) {
	style := g.n(12)
	names := map[string]string{}
	id := func(old string) string {
		if old == "" || old == "nowhere" {
			return old
		}
		if new, ok := names[old]; ok {
			return new
		}
		k := len(names)
		new := old
		switch style {
		case 0:
			new = strconv.Itoa(k)
		case 1: // differing in case only
			new = "node" + strconv.Itoa(k/2)
			if k%2 == 1 {
				new = "NODE" + strconv.Itoa(k/2)
			}
		case 2: // each a prefix of the next
			new = strings.Repeat("1", k%40+1) + strings.Repeat("0", k/40)
		case 3: // differing in white space and punctuation only
			new = "n" + strings.Repeat([]string{" ", "_", "-", "."}[k%4], k/4+1) + "1"
		case 4:
			new = "0" + strconv.Itoa(k)
			if k%2 == 1 {
				new = strconv.Itoa(k - 1)
			}
		case 5:
			new = ""
		case 6:
			new = []string{"n", "m", ""}[k%3]
		case 7:
			new = "1"
		}
		names[old] = new
		return new
	}
	if strat == "defaultChild" && style >= 5 || style > 7 {
		return
	}
	var walk func(n *Node)
	walk = func(n *Node) {
		n.ID = id(n.ID)
		for i := range n.Ch {
			walk(&n.Ch[i])
		}
	}
	var refer func(n *Node)
	refer = func(n *Node) {
		n.DC = id(n.DC)
		for i := range n.Ch {
			refer(&n.Ch[i])
		}
	}
	walk(root)
	refer(root)
}

func (g *G) tree(o treeOpts) Model {
	strat := g.pick(o.strat...)
	if strat == "weightedConfidence" || strat == "aggregateNodes" {
		o.small = true
		if o.depth > 2 {
			o.depth = 2
		}
	}
	id := 0
	root := g.node(o, o.depth, &id)
	if g.p(0.85) {
		root.Pred = Pred{P: "true"}
	}
	m := Model{Kind: "tree", Fn: o.fn, Schema: o.schema, Strat: strat,
		NTC: g.pick("", "returnLastPrediction", "returnNullPrediction"), Root: &root}
	if m.Schema == nil {
		m.Schema = g.schema(o.fn == "classification")
	}
	g.nodeIDs(&root, strat)
	if g.p(0.5) {
		m.Pen = []Rat{g.pickRat([]Rat{{1, 2}, {3, 4}, {1, 1}, {1, 4}, {2, 1}, {3, 2}})}
	}
	return m
}

// --- documents per property ---------------------------------------------------

func (g *G) fresh(classes ...string) Doc {
	if len(classes) == 0 {
		classes = []string{"a", "b", "c"}
	}
	g.dd = g.target(g.dictionary(), classes)
	return Doc{DD: g.dd}
}

func leafNode(score string, p Pred) Node { return Node{Score: lit(score), Pred: p, RC: rat(0, 1)} }

// observer makes a document whose result shows whether p is true, unknown or false.
func (g *G) observer(p Pred) Model {
	yes := leafNode("yes", p)
	root := leafNode("no", Pred{P: "true"})
	root.Ch = []Node{yes}
	return Model{Kind: "tree", Fn: "classification", Strat: "nullPrediction", Schema: g.schema(true), Root: &root}
}

// Numbers the specification knows only by their order: the texts and Go values
// of one alphabet are sorted by what they denote and numbered by rank.
type ranked struct {
	x   *big.Rat
	lit string // text of a literal, or
	val Val    // a row value
}

func (g *G) rankedAlphabet(integer bool) (lits []Lit, vals []Val) {
	all := []ranked{}
	addF := func(f float64) {
		if !finite(f) {
			return
		}
		x := new(big.Rat).SetFloat64(f)
		if !integer {
			t := strconv.FormatFloat(f, byte("efgEG"[g.n(5)]), -1, 64)
			if g.p(0.1) && f > 0 {
				t = "+" + t
			}
			all = append(all, ranked{x, t, Val{}}, ranked{x, "", Val{K: "str", S: strconv.FormatFloat(f, byte("efg"[g.n(3)]), -1, 64)}})
		}
		all = append(all, ranked{x, "", Val{K: "num", G: "float64", S: strconv.FormatFloat(f, 'g', -1, 64)}})
		if f32 := float64(float32(f)); !math.IsInf(f32, 0) {
			all = append(all, ranked{new(big.Rat).SetFloat64(f32), "", Val{K: "num", G: "float32", S: strconv.FormatFloat(f32, 'g', -1, 64)}})
		}
	}
	addI := func(b *big.Int) {
		x := new(big.Rat).SetInt(b)
		if !integer {
			f, _ := x.Float64()
			x = new(big.Rat).SetFloat64(f)
		}
		if b.IsInt64() {
			all = append(all, ranked{x, b.String(), Val{}}, ranked{x, "", Val{K: "str", S: b.String()}},
				ranked{x, "", Val{K: "num", G: g.pick("int", "int64"), S: b.String()}})
		}
		if b.IsUint64() {
			all = append(all, ranked{x, "", Val{K: "num", G: g.pick("uint", "uint64"), S: b.String()}})
		}
	}
	near := func(f float64) {
		addF(f)
		addF(math.Nextafter(f, math.Inf(1)))
		addF(math.Nextafter(f, math.Inf(-1)))
	}
	around := func(e uint) {
		b := new(big.Int).Lsh(big.NewInt(1), e)
		if g.p(0.4) {
			b.Neg(b)
		}
		for d := int64(-2); d <= 2; d++ {
			addI(new(big.Int).Add(b, big.NewInt(d)))
		}
		f, _ := new(big.Float).SetInt(b).Float64()
		near(f)
		if e < 52 {
			addF(f + 0.5)
			addF(f - 0.5)
		}
	}
	around([]uint{0, 1, 7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64}[g.n(15)])
	if integer || g.p(0.3) {
		around([]uint{24, 31, 53, 63}[g.n(4)])
		addF([]float64{1e19, -1e19, 1e300, -1e300, 9223372036854775808, 0.5, -0.5, 0}[g.n(8)])
	} else if g.p(0.3) {
		// a number, and others almost like it
		f := []float64{0.1, 1, 0, 100, -3, 0.7, 1e6, 12345.678}[g.n(8)]
		if r, ok := g.dictNum(); ok {
			f = r.f()
		}
		eps := []float64{1e-15, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2}
		if g.lits != nil && len(g.lits.flts) > 0 {
			eps = append(g.lits.flts, eps[g.n(12)])
		}
		addF(f)
		for k := 0; k < 4; k++ {
			e := eps[g.n(len(eps))]
			addF(f + e)
			addF(f - e)
			addF(f * (1 + e))
			addF(f * (1 - e))
			addF(f + e/2)
			addF(f - 2*e)
		}
	} else {
		near([]float64{0.1, 1.0 / 3, 0.7, 1e-5, 1e300, -1e300, 2.5e-10, 123456.789, 5e-324, 1, -1, 99.99}[g.n(12)])
		addF(0)
		addF(math.Copysign(0, -1))
		addF(g.r.NormFloat64())
	}
	xs := map[string]*big.Rat{}
	for _, r := range all {
		xs[r.x.String()] = r.x
	}
	order := []*big.Rat{}
	for _, x := range xs {
		order = append(order, x)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Cmp(order[j]) < 0 })
	rank := map[string]int64{}
	for i, x := range order {
		rank[x.String()] = int64(i) + 100
	}
	for _, r := range all {
		k := rank[r.x.String()]
		if r.lit != "" {
			lits = append(lits, Lit{S: r.lit, IsNum: true, N: k, D: 1, IsInt: integer, B: "no"})
		} else {
			r.val.IsNum, r.val.N, r.val.D = true, k, 1
			vals = append(vals, r.val)
		}
	}
	return lits, vals
}

func genP02(g *G) Case {
	if g.p(0.03) {
		return genBusy(g)
	}
	d := g.fresh("yes", "no")
	g.plain = true
	if g.p(0.25) {
		f := g.pick("i", "x", "f")
		lits, vals := g.rankedAlphabet(f == "i")
		l := lits[g.n(len(lits))]
		p := Pred{P: "simple", F: f, Op: g.pick("equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"), V: &l}
		if g.p(0.3) {
			p = Pred{P: "set", F: f, Op: g.pick("isIn", "isNotIn"), Items: []Lit{l, lits[g.n(len(lits))]}}
		}
		d.Model = g.observer(p)
		c := Case{Doc: d}
		for _, v := range vals {
			c.Rows = append(c.Rows, Row{f: v})
		}
		return c
	}
	p := g.pred(g.inputs(), 1+g.n(3))
	d.Model = g.observer(p)
	switch g.n(6) {
	case 0: // at the root
		root := leafNode("yes", p)
		d.Model.Root = &root
	case 1: // gating a segment
		a, b := leafNode("yes", Pred{P: "true"}), leafNode("no", Pred{P: "true"})
		t := d.Model
		t.Root, t.Strat = &a, ""
		e := t
		e.Root = &b
		d.Model = Model{Kind: "mining", Fn: "classification", Method: "selectFirst", Schema: g.schema(true),
			Segs: []Seg{{ID: "1", Preds: []Pred{p}, Models: []Model{t}}, {ID: "2", Preds: []Pred{{P: "true"}}, Models: []Model{e}}}}
	}
	return Case{Doc: d, Rows: g.rows(12, 0.25)}
}

func genP03(g *G) Case {
	if g.p(0.03) {
		return genBusy(g)
	}
	d := g.fresh()
	g.plain = true
	fn := g.pick("classification", "regression")
	d.Model = g.tree(treeOpts{fn: fn, classes: []string{"a", "b", "c"}, strat: allStrats, depth: 1 + g.n(4), fan: 3, fields: g.inputs(), predDeep: g.n(2)})
	return Case{Doc: d, Rows: g.rows(12, 0)}
}

func genP04(g *G) Case {
	d := g.fresh()
	if g.p(0.15) {
		return genPenalty(g)
	}
	fn := g.pick("classification", "classification", "regression")
	strats := allStrats
	if fn == "regression" {
		strats = allStrats[:5]
	}
	d.Model = g.tree(treeOpts{fn: fn, classes: []string{"a", "b", "c"}, strat: strats, depth: 1 + g.n(3), fan: 3, fields: g.inputs(), predDeep: g.n(2),
		counts: g.p(0.8)})
	return Case{Doc: d, Rows: g.rows(12, 0.45)}
}

// genPenalty: default children with penalties and distributions.
func genPenalty(g *G) Case {
	d := g.fresh()
	d.Model = g.tree(treeOpts{fn: "classification", classes: []string{"a", "b", "c"}, strat: []string{"defaultChild"}, depth: 2 + g.n(2), fan: 2, fields: g.inputs(), complete: true})
	d.Model.Pen = []Rat{g.pickRat([]Rat{{1, 2}, {3, 4}, {2, 1}, {0, 1}})}
	return Case{Doc: d, Rows: g.rows(8, 0.6)}
}

func genP05(g *G) Case {
	classes := []string{"a", "b", "c"}
	if g.p(0.2) {
		classes = []string{"1", "0"}
	}
	if g.p(0.2) {
		classes = []string{"x y", "a&b", "<c>", "d"}
	}
	if g.p(0.2) {
		classes = [][]string{{"A", "a", "a "}, {"1", "1.0", "01"}, {"yes", "no", "yes no"}, {"(b)", "b", "probability(b)"}, {"y", "target", "score"}}[g.n(5)]
	}
	if g.p(0.1) {
		classes = []string{g.pick(sentinels...), "b", g.pick("", "b ", "c")}
	}
	if s, ok := g.dictStr(); ok {
		classes = []string{s, "b" + s, "c"}
		if t, ok := g.dictStr(); ok && t != s && t != classes[1] {
			classes[2] = t
		}
	}
	if classes[0] == classes[1] || len(classes) > 2 && classes[0] == classes[2] {
		classes = []string{"a", "b", "c"}
	}
	d := g.fresh(classes...)
	fn := g.pick("classification", "classification", "classification", "regression")
	if g.p(0.4) {
		// other fields declare values, one of them under almost the target's name
		for i := range d.DD {
			f := &d.DD[i]
			if f.Name != "t" && (f.Type == "string" || g.p(0.2)) {
				if f.Type == "string" && f.Name != "s" {
					continue
				}
				for k := 1 + g.n(3); k > 0; k-- {
					f.Values = append(f.Values, g.litOf(f.Type))
				}
			}
		}
		T := DataF{Name: g.pick("T", "tt", " t", "t "), Type: "string"}
		for _, c := range []string{"zz", g.pick(classes...), "q"}[:1+g.n(3)] {
			T.Values = append(T.Values, lit(c))
		}
		at := g.n(len(d.DD) + 1)
		d.DD = append(append(append([]DataF{}, d.DD[:at]...), T), d.DD[at:]...)
	}
	d.Model = g.tree(treeOpts{fn: fn, classes: classes, strat: allStrats, depth: g.n(3), fan: 3, fields: g.inputs(), dists: true})
	if fn == "classification" && g.p(0.15) {
		// two classes with almost the same share
		o := treeOpts{fn: fn, classes: classes, strat: []string{""}, depth: 1, fan: 2, fields: g.inputs(), complete: true}
		d.Model = g.tree(o)
		for _, n := range nodesOf(d.Model.Root) {
			k := []int64{1 << 29, 1 << 20, 1000, 3}[g.n(4)]
			n.Dist = []Dist{{V: lit(classes[0]), RC: rat(k-1, 1)}, {V: lit(classes[1]), RC: rat(k, 1)}}
			if g.p(0.4) {
				n.Dist[0].Prob, n.Dist[1].Prob = []Rat{rat(499999, 1000000)}, []Rat{rat(500001, 1000000)}
			}
		}
	}
	if fn == "regression" && g.p(0.1) {
		d.Model.Root.Score = lit(g.nearNumber())
	}
	return Case{Doc: d, Rows: g.rows(8, 0.1)}
}
