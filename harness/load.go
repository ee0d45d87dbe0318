package main

import (
	"bufio"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

// P01 and P18: documents as token streams, and what loading them must give.

type attrVal struct {
	S    string `json:"s"`
	Num  bool   `json:"num"`
	Int  bool   `json:"int"`
	Uint bool   `json:"uint"`
}

type attrTok struct {
	X string  `json:"x"`
	V attrVal `json:"v"`
}

type token struct {
	K string    `json:"k"`
	N string    `json:"n"`
	A []attrTok `json:"a"`
	S string    `json:"s"`
}

type loadTree struct {
	T     string `json:"t"`
	N     string `json:"n"`
	Slot  string `json:"slot"`
	Attrs []struct {
		X   string `json:"x"`
		Set bool   `json:"set"`
		S   string `json:"s"`
	} `json:"attrs"`
	Kids  []loadTree `json:"kids"`
	Text  string     `json:"text"`
	Inner []token    `json:"inner"`
}

type loadCase struct {
	ID   string     `json:"id"`
	Root string     `json:"root"`
	Toks []token    `json:"toks"`
	St   string     `json:"st"`
	Tree []loadTree `json:"tree"`
}

type schemaAttr struct {
	X   string `json:"x"`
	Go  string `json:"go"`
	K   string `json:"k"`
	Ptr bool   `json:"ptr"`
	Own string `json:"own"`
	Has bool   `json:"has"`
	Def string `json:"def"`
}

type schemaKid struct {
	X    string `json:"x"`
	T    string `json:"t"`
	Slot string `json:"slot"`
	Mult string `json:"mult"`
}

type schemaType struct {
	Attrs []schemaAttr `json:"attrs"`
	Kids  []schemaKid  `json:"kids"`
	Text  string       `json:"text"`
	Any   bool         `json:"any"`
	Inner string       `json:"inner"`
}

var schema map[string]schemaType

func readSchema(path string) {
	b, err := os.ReadFile(path)
	fatal(err)
	fatal(json.Unmarshal(b, &schema))
}

// --- writing tokens as XML ---------------------------------------------------

// style chooses among ways of writing the same document.
type style struct {
	single bool // single quotes
	spaced bool // space inside tags
	short  bool // <a/> for elements without content
	refs   bool // character references
	cdata  bool
	prefix string
	decl   bool
	ns     bool
}

func styleOf(i int) style {
	s := style{single: i%3 == 1, spaced: i%4 == 2, short: i%2 == 0, refs: i%5 == 3, cdata: i%7 == 4, decl: i%4 == 1, ns: i%3 == 2}
	if i%11 == 5 {
		s.prefix = "p:"
		s.ns = false
	}
	return s
}

func (s style) escape(text string, attr bool) string {
	b := strings.Builder{}
	for i, r := range text {
		switch {
		case r == '<':
			b.WriteString("&lt;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '"' && attr && !s.single:
			b.WriteString("&quot;")
		case r == '\'' && attr && s.single:
			b.WriteString("&apos;")
		case s.refs && i%3 == 0 && r > ' ':
			if i%2 == 0 {
				fmt.Fprintf(&b, "&#%d;", r)
			} else {
				fmt.Fprintf(&b, "&#x%X;", r)
			}
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (s style) write(toks []token, whole bool) string {
	b := strings.Builder{}
	if whole && s.decl {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		switch t.K {
		case "open":
			b.WriteString("<" + s.prefix + t.N)
			if i == 0 && whole {
				if s.ns {
					b.WriteString(` xmlns="http://www.dmg.org/PMML-4_3"`)
				}
				if s.prefix != "" {
					b.WriteString(` xmlns:p="http://www.dmg.org/PMML-4_3"`)
				}
			}
			for _, a := range t.A {
				q, eq := `"`, "="
				if s.single {
					q = "'"
				}
				if s.spaced {
					eq = " = "
				}
				b.WriteString(" " + a.X + eq + q + s.escape(a.V.S, true) + q)
			}
			if s.spaced {
				b.WriteString(" ")
			}
			if s.short && i+1 < len(toks) && toks[i+1].K == "close" && toks[i+1].N == t.N {
				b.WriteString("/>")
				i++
				continue
			}
			b.WriteString(">")
		case "close":
			b.WriteString("</" + s.prefix + t.N + ">")
		case "text":
			if s.cdata && !strings.Contains(t.S, "]]>") {
				b.WriteString("<![CDATA[" + t.S + "]]>")
			} else {
				b.WriteString(s.escape(t.S, false))
			}
		case "note":
			if len(t.S)%2 == 0 {
				b.WriteString("<!-- " + t.S + " <Node/> -->")
			} else {
				b.WriteString("<?pi " + t.S + "?>")
			}
		case "junk":
			b.WriteString(t.S)
		}
	}
	return b.String()
}

// --- comparing the loaded object ------------------------------------------------

func sameAttr(kind, want, got string) bool {
	switch kind {
	case "num":
		a, e1 := strconv.ParseFloat(want, 64)
		b, e2 := strconv.ParseFloat(got, 64)
		return e1 == nil && e2 == nil && a == b
	case "int", "uint":
		a, e1 := strconv.ParseInt(want, 10, 64)
		b, e2 := strconv.ParseInt(got, 10, 64)
		return e1 == nil && e2 == nil && a == b
	case "yesno":
		return (want == "yes") == (got == "true") || want == got
	}
	return want == got
}

func zeroText(kind string) string {
	switch kind {
	case "num", "int", "uint":
		return "0"
	case "bool", "yesno":
		return "false"
	}
	return ""
}

func attrText(v reflect.Value) (string, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "", false
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Float64 {
		return strconv.FormatFloat(v.Float(), 'g', -1, 64), true
	}
	return fmt.Sprint(v.Interface()), true
}

// compareTree says how the object differs from the tree. The object holds its
// type by value in a larger one when held: there the defaults of the larger one
// may have been set beforehand.
func compareTree(path string, v reflect.Value, tr loadTree, held bool, s style) []string {
	bad := []string{}
	say := func(format string, args ...interface{}) {
		bad = append(bad, path+": "+fmt.Sprintf(format, args...))
	}
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if v.IsNil() {
			return append(bad, path+": nothing loaded")
		}
		v = v.Elem()
	}
	if v.Type().Name() != tr.T {
		return append(bad, fmt.Sprintf("%s: loaded a %s, expected a %s", path, v.Type().Name(), tr.T))
	}
	sc := schema[tr.T]
	if sc.Any {
		want := map[string]string{}
		for _, k := range tr.Kids {
			want[k.N] = k.Text
		}
		got := map[string]string{}
		for _, k := range v.MapKeys() {
			got[k.String()] = fmt.Sprint(v.MapIndex(k).Interface())
		}
		if !reflect.DeepEqual(want, got) {
			say("cells %v, expected %v", got, want)
		}
		return bad
	}
	field := func(name string) (reflect.Value, bool) {
		f := v.FieldByName(name)
		if !f.IsValid() {
			say("no field %s", name)
		}
		return f, f.IsValid()
	}
	for i, a := range sc.Attrs {
		f, ok := field(a.Go)
		if !ok {
			continue
		}
		got, has := attrText(f)
		w := tr.Attrs[i]
		switch {
		case w.Set:
			if !has || !sameAttr(a.K, w.S, got) {
				say("attribute %s is %q (present %v), written %q", a.X, got, has, w.S)
			}
		case held:
			if has && !sameAttr(a.K, a.Own, got) && !sameAttr(a.K, a.Def, got) && got != zeroText(a.K) {
				say("attribute %s is %q, though not written", a.X, got)
			}
		default:
			if has != a.Has || (has && !sameAttr(a.K, w.S, got)) {
				say("attribute %s is %q (present %v), though not written: expected %q", a.X, got, has, w.S)
			}
		}
	}
	slots := map[string][]loadTree{}
	for _, k := range tr.Kids {
		slots[k.Slot] = append(slots[k.Slot], k)
	}
	done := map[string]bool{}
	for _, k := range sc.Kids {
		if done[k.Slot] {
			continue
		}
		done[k.Slot] = true
		f, ok := field(k.Slot)
		if !ok {
			continue
		}
		want := slots[k.Slot]
		switch k.Mult {
		case "many", "ifaces":
			if f.Len() != len(want) {
				say("%d in %s, expected %d", f.Len(), k.Slot, len(want))
				continue
			}
			for i, w := range want {
				bad = append(bad, compareTree(fmt.Sprintf("%s/%s[%d]", path, k.Slot, i), f.Index(i), w, false, s)...)
			}
		case "ptr", "iface":
			if len(want) == 0 {
				if !f.IsNil() {
					say("%s is there, though not written", k.Slot)
				}
				continue
			}
			bad = append(bad, compareTree(path+"/"+k.Slot, f, want[0], false, s)...)
		case "value":
			if len(want) == 0 {
				bad = append(bad, compareTree(path+"/"+k.Slot, f, loadTree{T: k.T, Attrs: blankAttrs(k.T)}, true, s)...)
				continue
			}
			bad = append(bad, compareTree(path+"/"+k.Slot, f, want[0], true, s)...)
		}
	}
	if sc.Text != "" {
		if f, ok := field(sc.Text); ok && f.String() != tr.Text {
			say("text %q, expected %q", f.String(), tr.Text)
		}
	}
	if sc.Inner != "" && !held {
		if f, ok := field(sc.Inner); ok && f.String() != s.write(tr.Inner, false) {
			say("content %q, expected %q", f.String(), s.write(tr.Inner, false))
		}
	}
	if len(bad) > 5 {
		bad = bad[:5]
	}
	return bad
}

func blankAttrs(t string) []struct {
	X   string `json:"x"`
	Set bool   `json:"set"`
	S   string `json:"s"`
} {
	return make([]struct {
		X   string `json:"x"`
		Set bool   `json:"set"`
		S   string `json:"s"`
	}, len(schema[t].Attrs))
}

func loadOne(c loadCase, i int) (string, []string) {
	s := styleOf(i)
	broken := false
	for _, t := range c.Toks {
		broken = broken || t.K == "junk"
	}
	if broken || c.St == "failed" {
		s = style{short: i%2 == 0}
	}
	text := s.write(c.Toks, true)
	var v reflect.Value
	g := guard(func() got {
		v = reflect.New(registry[c.Root])
		if err := xml.NewDecoder(strings.NewReader(text)).Decode(v.Interface()); err != nil {
			return got{St: "err", Msg: err.Error()}
		}
		return got{St: "ok"}
	})
	if c.St == "failed" {
		if g.St != "err" {
			return text, []string{"accepted: " + g.St + " " + g.Msg}
		}
		return text, nil
	}
	if g.St != "ok" {
		return text, []string{"rejected: " + g.St + " " + g.Msg}
	}
	return text, compareTree(c.Root, v, c.Tree[0], false, s)
}

func loadReplay(path, out string) {
	res := newResult()
	type job struct {
		c    loadCase
		text string
		bad  []string
	}
	jobs := []*job{}
	readLines(path, func(line []byte) {
		j := &job{}
		if tlcLine(line, &j.c) {
			jobs = append(jobs, j)
		}
	})
	pool(len(jobs), func(i int) { jobs[i].text, jobs[i].bad = loadOne(jobs[i].c, i) })
	for i, j := range jobs {
		id := j.c.ID
		if id == "" {
			id = fmt.Sprintf("load-%s-%d", j.c.Root, i)
		}
		res.Stats["outcome "+j.c.St]++
		res.add("documents", id, map[string]interface{}{"root": j.c.Root, "document": j.text, "outcome": j.c.St}, j.bad)
	}
	res.write(out)
}

// --- the factories ---------------------------------------------------------------

func factoryReplay(path, out string) {
	type fcase struct {
		Factory, Name, Makes string
	}
	get := map[string]func(string) (interface{}, bool){
		"GetModelElement":               func(n string) (interface{}, bool) { v, ok := models.GetModelElement(n); return v, ok },
		"GetPredicate":                  func(n string) (interface{}, bool) { v, ok := models.GetPredicate(n); return v, ok },
		"GetExpression":                 func(n string) (interface{}, bool) { v, ok := models.GetExpression(n); return v, ok },
		"GetContinuousDistributionType": func(n string) (interface{}, bool) { v, ok := models.GetContinuousDistributionType(n); return v, ok },
		"GetTable":                      func(n string) (interface{}, bool) { v, ok := models.GetTable(n); return v, ok },
		"GetEmbeddedModel":              func(n string) (interface{}, bool) { v, ok := models.GetEmbeddedModel(n); return v, ok },
	}
	res := newResult()
	parallel(path, func(c fcase) []string {
		makes := func() (string, interface{}) {
			v, ok := get[c.Factory](c.Name)
			if !ok {
				return "-", v
			}
			t := reflect.TypeOf(v)
			if t == nil || t.Kind() != reflect.Ptr || reflect.ValueOf(v).IsNil() {
				return fmt.Sprint(t), v
			}
			return t.Elem().Name(), v
		}
		a, v := makes()
		if a != c.Makes {
			return []string{fmt.Sprintf("%s(%q) makes %s, expected %s", c.Factory, c.Name, a, c.Makes)}
		}
		if a == "-" {
			return nil
		}
		if b, w := makes(); b != a || (reflect.TypeOf(v).Elem().Size() > 0 && v == w) {
			return []string{fmt.Sprintf("%s(%q) does not make a new object each time", c.Factory, c.Name)}
		}
		return nil
	}, func(c fcase, bad []string) { res.add("factory calls", c.Factory+"-"+c.Name, c, bad) })
	res.write(out)
}

// --- random documents --------------------------------------------------------------

type docGen struct {
	g      *G
	toks   []token
	budget int
	spine  int
}

var textPieces = []string{"a", "Z", "0", " ", "<", ">", "&", "\"", "'", "é", "漢", "-", "_", ":", ".", "/", "]]", "--", "x y", "%", "\\", "#", ";", "&amp;", "=", "𝛼"}

func (d *docGen) text(n int) string {
	s := ""
	if t, ok := d.g.dictStr(); ok {
		return t
	}
	if d.g.p(0.05) {
		return d.g.pick(sentinels...)
	}
	for k := d.g.n(n) + 1; k > 0; k-- {
		s += textPieces[d.g.n(len(textPieces))]
	}
	return s
}

func (d *docGen) value(kind string) attrVal {
	g := d.g
	if r, ok := d.g.dictNum(); ok && kind == "num" {
		return attrVal{S: r.text(), Num: true}
	}
	if r, ok := d.g.dictWhole(); ok && (kind == "int" || kind == "uint" && r.N >= 0) {
		return attrVal{S: r.text(), Num: true, Int: true, Uint: r.N >= 0}
	}
	switch kind {
	case "num":
		s := []string{"0", "1", "-1", "0.5", "-2.75", "1e3", "1E-3", ".5", "5.", "+2", "123456789", "1e300", "-0", "0.1", "3.14159265358979"}[g.n(15)]
		return attrVal{S: s, Num: true}
	case "int":
		n := g.n(2000001) - 1000000
		return attrVal{S: strconv.Itoa(n), Num: true, Int: true, Uint: n >= 0}
	case "uint":
		return attrVal{S: strconv.Itoa(g.n(1000000)), Num: true, Int: true, Uint: true}
	case "bool":
		return attrVal{S: g.pick("true", "false")}
	case "yesno":
		return attrVal{S: g.pick("yes", "no")}
	}
	return attrVal{S: d.text(6)}
}

func (d *docGen) element(t, n string, depth int) {
	sc := schema[t]
	g := d.g
	d.budget--
	as := []attrTok{}
	for _, a := range sc.Attrs {
		if g.p(0.6) {
			as = append(as, attrTok{a.X, d.value(a.K)})
		}
	}
	if g.p(0.08) {
		as = append(as, attrTok{g.pick("other", "Id", "NAME", "x-1"), attrVal{S: d.text(3)}})
	}
	g.r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	d.toks = append(d.toks, token{K: "open", N: n, A: as})
	if t == "Cell" {
		if g.p(0.9) {
			d.toks = append(d.toks, token{K: "text", S: d.text(5)})
		}
		if g.p(0.05) {
			d.toks = append(d.toks, token{K: "note", S: "n"}, token{K: "text", S: d.text(2)})
		}
		d.toks = append(d.toks, token{K: "close", N: n})
		return
	}
	d.children(t, depth)
	d.toks = append(d.toks, token{K: "close", N: n})
}

func (d *docGen) children(t string, depth int) {
	sc := schema[t]
	g := d.g
	filler := func() {
		if g.p(0.06) {
			d.toks = append(d.toks, token{K: "note", S: g.pick("x", "yy", "Node Node")})
		}
		if g.p(0.1) {
			s := g.pick("\n  ", " ", "stray text")
			if sc.Text != "" || sc.Inner != "" {
				s = d.text(5)
			}
			d.toks = append(d.toks, token{K: "text", S: s})
		}
		if g.p(0.05) && !sc.Any {
			d.strange(depth)
		}
	}
	if sc.Text != "" && g.p(0.8) {
		d.toks = append(d.toks, token{K: "text", S: d.text(8)})
	}
	filler()
	if sc.Any {
		for i, n := 0, g.n(5); i < n; i++ {
			d.element("Cell", string(rune('a'+i)), depth+1)
			if g.p(0.2) {
				d.toks = append(d.toks, token{K: "text", S: "\n"})
			}
		}
		return
	}
	if sc.Inner != "" {
		if g.p(0.4) {
			d.strange(depth)
		}
		return
	}
	if len(sc.Kids) == 0 || depth > 12 && d.spine == 0 {
		return
	}
	used := map[string]bool{}
	for k, n := 0, d.most(); k < n && d.budget > 0; k++ {
		c := sc.Kids[g.n(len(sc.Kids))]
		if d.spine > 0 && g.p(0.5) {
			// nodes in nodes, predicates in predicates, models in models
			for _, e := range sc.Kids {
				if e.T == t || (g.p(0.3) && (e.T == "Segment" || e.T == "MiningModel" || e.T == "Segmentation")) {
					c = e
				}
			}
			if c.Mult == "ifaces" || c.Mult == "many" {
				d.spine--
			}
		}
		if c.Mult == "ifaces" || c.Mult == "many" {
			if (c.X == "Extension" && !g.p(0.3)) || !d.chosen(c) {
				continue
			}
			d.element(c.T, c.X, depth+1)
		} else if !used[c.Slot] {
			used[c.Slot] = true
			d.element(c.T, c.X, depth+1)
		}
		filler()
	}
}

// chosen prefers the kinds of element this library scores with.
func (d *docGen) chosen(c schemaKid) bool {
	sc := schema[c.T]
	return len(sc.Kids)+len(sc.Attrs) > 3 || d.g.p(0.4)
}

// strange writes an element the library does not know, or an extension, with anything inside.
func (d *docGen) strange(depth int) {
	g := d.g
	n := g.pick("Unknown", "X-Other", "node", "Extra", "treeModel")
	d.toks = append(d.toks, token{K: "open", N: n, A: []attrTok{{"id", attrVal{S: d.text(3)}}, {"recordCount", attrVal{S: "abc"}}}})
	for k := g.n(4); k > 0; k-- {
		switch g.n(5) {
		case 0:
			d.toks = append(d.toks, token{K: "text", S: d.text(4)})
		case 1:
			if depth < 12 {
				d.strange(depth + 1)
			}
		case 2:
			d.toks = append(d.toks, token{K: "note", S: "in"})
		default:
			known := g.pick("Node", "True", "SimplePredicate", "Extension", "TreeModel", "Segment", "FieldRef", "row", "MiningSchema", "Header")
			d.toks = append(d.toks, token{K: "open", N: known, A: []attrTok{}}, token{K: "close", N: known})
		}
	}
	d.toks = append(d.toks, token{K: "close", N: n})
}

// damage breaks a document: what TLC then says about it is not this function's business.
func (d *docGen) damage() {
	g := d.g
	n := len(d.toks)
	switch g.n(5) {
	case 0:
		d.toks = d.toks[:g.n(n)]
	case 1:
		i := g.n(n + 1)
		j := token{K: "junk", S: []string{"< >", "<a b=c>", "&nope;", "</>", "<a b=\"<\">"}[g.n(5)]}
		d.toks = append(d.toks[:i:i], append([]token{j}, d.toks[i:]...)...)
	case 2:
		i := g.n(n)
		if d.toks[i].K == "close" {
			d.toks[i].N += "x"
		} else {
			d.toks = d.toks[:i]
		}
	default:
		// a numeric attribute that is not a number, on a random element
		typ := d.typesOf()
		for try := 0; try < 30; try++ {
			i := g.n(n)
			sc, ok := schema[typ[i]]
			if d.toks[i].K != "open" || !ok || len(sc.Attrs) == 0 {
				continue
			}
			a := sc.Attrs[g.n(len(sc.Attrs))]
			if a.K != "num" && a.K != "int" && a.K != "uint" {
				continue
			}
			v := attrVal{S: g.pick("abc", "1,5", "--2", "1x", "x1", "one", "0..5", "1 2", "$3", "1e")}
			for j := range d.toks[i].A {
				if d.toks[i].A[j].X == a.X {
					d.toks[i].A[j].V = v
					return
				}
			}
			d.toks[i].A = append(d.toks[i].A, attrTok{a.X, v})
			return
		}
	}
}

// typesOf gives the element type of each open token ("" in unknown elements).
func (d *docGen) typesOf() []string {
	out := make([]string, len(d.toks))
	stack := []string{}
	for i, t := range d.toks {
		switch t.K {
		case "open":
			ty := ""
			if i == 0 {
				ty = "PMML"
			} else if top := stack[len(stack)-1]; top != "" {
				for _, k := range schema[top].Kids {
					if k.X == t.N {
						ty = k.T
					}
				}
			}
			out[i] = ty
			stack = append(stack, ty)
		case "close":
			stack = stack[:len(stack)-1]
		}
	}
	return out
}

// most is how many children an element gets.
func (d *docGen) most() int {
	if n := d.g.huge + d.g.exactly; n > 0 && d.g.p(0.3) {
		d.g.huge = 0
		return 2 * n
	}
	if d.budget > 40 && d.g.p(0.1) {
		return d.g.n(60)
	}
	return d.g.n(9)
}

func loadGen(seed int64, n int, out string) {
	roots := []string{}
	for k, t := range schema {
		if !t.Any && k != "Cell" && len(t.Attrs)+len(t.Kids) > 2 {
			roots = append(roots, k)
		}
	}
	sort.Strings(roots)
	f, err := os.Create(out)
	fatal(err)
	w := bufio.NewWriter(f)
	for i := 0; i < n; i++ {
		d := &docGen{g: &G{r: rand.New(rand.NewSource(seed*1000033 + int64(i)))}, toks: []token{}}
		d.g.steer()
		d.budget = 8 + d.g.n(70)
		if n := d.g.huge + d.g.exactly; n > 0 {
			d.budget += n + 20
		}
		if d.g.p(0.02) {
			d.budget = 100 + d.g.n(300)
		} else if d.g.p(0.03) {
			d.budget += 30
			d.spine = 10 + d.g.n(30)
		}
		if d.g.deep > 0 {
			d.budget, d.spine = d.budget+3*d.g.deep, 2*d.g.deep
		}
		root := "PMML"
		if d.g.p(0.3) {
			root = roots[d.g.n(len(roots))]
		}
		d.element(root, root, 0)
		if root == "PMML" {
			for try := 0; len(d.toks) < 12 && try < 10; try++ {
				d.toks = d.toks[:0]
				d.element(root, root, 0)
			}
			if d.g.p(0.2) && len(d.toks) > 0 {
				d.damage()
			}
		}
		w.Write(append(toJSON(map[string]interface{}{"id": fmt.Sprintf("L-%d-%d", seed, i), "root": root, "toks": fix(d.toks)}), '\n'))
	}
	fatal(w.Flush())
	fatal(f.Close())
}

// fix leaves no nil slices: TLC reads sequences.
func fix(toks []token) []token {
	for i := range toks {
		if toks[i].A == nil {
			toks[i].A = []attrTok{}
		}
	}
	return toks
}
