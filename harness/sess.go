package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// P12 and P14: histories of spec/Session.tla and spec/Life.tla on the real objects.

// sessGen writes pairs of cases: two models over the same dictionaries and rows.
func sessGen(seed int64, n int, out string) {
	f, err := os.Create(out)
	fatal(err)
	w := bufio.NewWriter(f)
	mix := []gen{genP03, genP04, genP05, genP06, genP07, genP08, genP09, genP10, genP09, genP10, genP07, genPenalty, genBusy, genBusy}
	for i := 0; i < n; i++ {
		g := &G{r: rand.New(rand.NewSource(seed*900007 + int64(i)))}
		if g.p(0.08) {
			g.wide, g.extra = true, 6+g.n(20)
		}
		foreign := i%11 == 5
		g.steer()
		c := mix[i%len(mix)](g)
		for k := 0; foreign && k < 400 && !(c.Doc.Model.Kind == "mining" && len(c.Doc.Model.LT) > 0 && len(c.Doc.TD) == 3 && !g.odd); k++ {
			// dictionaries and models with derived fields of their own
			g.wide, g.extra, g.odd = false, 0, false
			c.Doc, _ = g.derivedDoc()
			c.Rows = g.rows(4, 0.1)
		}
		if g.p(0.2) {
			// a class without a name
			for _, m := range modelsOf(&c.Doc.Model) {
				if m.Root == nil {
					continue
				}
				for _, nd := range nodesOf(m.Root) {
					if len(nd.Dist) > 1 && g.p(0.3) {
						nd.Dist = append([]Dist{}, nd.Dist...)
						nd.Dist[g.n(len(nd.Dist))].V = lit("")
					}
				}
			}
		}
		for len(c.Rows) < 4 {
			c.Rows = append(c.Rows, c.Rows[g.n(len(c.Rows))])
		}
		c.Rows = c.Rows[:4]
		if g.p(0.5) {
			var d Doc
			fatal(json.Unmarshal(toJSON(c.Doc), &d))
			c.Doc = d
			g.rename(&c)
		}
		c.ID = fmt.Sprintf("S-%d-%d/1", seed, i)
		w.Write(append(toJSON(c), '\n'))
		var d Case
		fatal(json.Unmarshal(toJSON(c), &d))
		d.ID = fmt.Sprintf("S-%d-%d/2", seed, i)
		m := d.Doc.Model
		if m.Kind == "mining" && len(m.LT) > 0 && (foreign || g.p(0.5)) {
			// the same model with other derived fields of the same names, or foreign ones
			if foreign || g.p(0.4) {
				d.Doc.Model.LT[0].Name += "_"
				d.Doc.Model.LT[0].Expr = Expr{E: "unsup", Name: "Discretize"}
			}
			for j := range m.LT {
				if l := lit(fmt.Sprint(7 + j)); m.LT[j].Type == "double" && m.LT[j].Expr.E != "unsup" {
					d.Doc.Model.LT[j].Expr = Expr{E: "const", Type: "double", V: &l}
				}
			}
		} else if m.Kind == "mining" && len(m.Segs) > 0 && len(m.Segs[0].Models) == 1 && g.p(0.7) {
			d.Doc.Model = m.Segs[g.n(len(m.Segs))].Models[0]
		} else {
			fn := m.Fn
			d.Doc.Model = Model{Kind: "mining", Fn: fn, Method: g.pick("modelChain", "selectFirst"), Schema: m.Schema, Segs: []Seg{{ID: "s", Preds: []Pred{{P: "true"}}, Models: []Model{m}}}}
		}
		w.Write(append(toJSON(d), '\n'))
	}
	fatal(w.Flush())
	fatal(f.Close())
}

type pair struct {
	cs [2]Case
	es [2]Expected
}

// loadPairs reads cases "<id>/1" and "<id>/2" with their expected outcomes.
func loadPairs(cases, expected string) []*pair {
	byID := map[string]Expected{}
	readLines(expected, func(b []byte) {
		var e Expected
		if tlcLine(b, &e) {
			byID[e.ID] = e
		}
	})
	pairs := map[string]*pair{}
	order := []string{}
	readLines(cases, func(b []byte) {
		var c Case
		fatal(json.Unmarshal(b, &c))
		e, ok := byID[c.ID]
		if !ok {
			fatal(fmt.Errorf("no expected outcome for %s", c.ID))
		}
		k := strings.TrimSuffix(strings.TrimSuffix(c.ID, "/1"), "/2")
		if pairs[k] == nil {
			pairs[k] = &pair{}
			order = append(order, k)
		}
		i := 0
		if strings.HasSuffix(c.ID, "/2") {
			i = 1
		}
		pairs[k].cs[i], pairs[k].es[i] = c, e
	})
	out := []*pair{}
	for _, k := range order {
		if pairs[k].cs[0].ID != "" && pairs[k].cs[1].ID != "" {
			out = append(out, pairs[k])
		}
	}
	return out
}

// dump writes the exported content of a value, following pointers.
func dump(w *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			w.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			w.WriteString(v.Elem().Type().String())
		}
		w.WriteString("&")
		dump(w, v.Elem(), depth+1)
	case reflect.Struct:
		w.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			w.WriteString(v.Type().Field(i).Name + ":")
			dump(w, v.Field(i), depth+1)
			w.WriteString(" ")
		}
		w.WriteString("}")
	case reflect.Slice, reflect.Array:
		w.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(w, v.Index(i), depth+1)
			w.WriteString(",")
		}
		w.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		w.WriteString("map[")
		for _, k := range keys {
			fmt.Fprintf(w, "%q=", fmt.Sprint(k))
			dump(w, v.MapIndex(k), depth+1)
			w.WriteString(",")
		}
		w.WriteString("]")
	case reflect.Func, reflect.Chan:
		w.WriteString("?")
	default:
		fmt.Fprintf(w, "%#v", v.Interface())
	}
}

func snapshot(v interface{}) string {
	w := &strings.Builder{}
	dump(w, reflect.ValueOf(v), 0)
	return w.String()
}

func rowCopy(r evaluation.DataRow) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range r {
		out[k] = v.Raw()
	}
	return out
}

func sameRow(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		x, ok := b[k]
		if !ok || !sameRaw(v, x) {
			return false
		}
	}
	return true
}

func sameRaw(a, b interface{}) bool {
	if f, ok := a.(float64); ok {
		g, ok := b.(float64)
		return ok && (f == g || (math.IsNaN(f) && math.IsNaN(g)))
	}
	return reflect.DeepEqual(a, b)
}

// identical: the same outcome, to the last bit.
func identical(a, b got) bool {
	return a.St == b.St && sameRow(rowCopy(a.Out), rowCopy(b.Out))
}

type step struct {
	Op  string `json:"op"`
	O   int    `json:"o"`
	R   int    `json:"r"`
	Exp string `json:"exp"`
}

// handed is a result the caller keeps.
type handed struct {
	live evaluation.DataRow
	was  map[string]interface{}
	step int
}

// session runs one history on one document.
func session(p *pair, hist []step, variant int, stats map[string]int) []string {
	bad := []string{}
	text := renderAll(p.cs[0].Doc, p.cs[0].Doc.Model, p.cs[1].Doc.Model, p.cs[0].Doc.Ver, p.cs[1].Doc.Ver)
	doc, err := load(text)
	if err != nil || len(doc.Models) != 2 {
		return []string{fmt.Sprintf("the document does not load: %v, %d models", err, len(doc.Models))}
	}
	// everything but the model itself, which building may complete with defaults
	rest := func(mi int) interface{} {
		return []interface{}{doc.DataDictionary, doc.TransformationDictionary, doc.Models[1-mi]}
	}
	objs := map[int]evaluation.Model{}
	buildErr := map[int]string{}
	seen := map[string]got{}
	verified := map[int]string{}
	given := []handed{}
	shared := []evaluation.DataRow{}
	for _, r := range p.cs[0].Rows {
		shared = append(shared, goRow(r))
	}
	at := func(i int, s step) string { return fmt.Sprintf("step %d (%s object %d row %d)", i+1, s.Op, s.O, s.R) }
	for i, s := range hist {
		mi := 0
		if s.O == 2 {
			mi = 1
		}
		e := p.es[mi]
		var m evaluation.Model
		if s.Op != "build" {
			m = objs[s.O]
			if m == nil {
				continue // it did not build
			}
		}
		simple := func(f func() error) got {
			return guard(func() got {
				if err := f(); err != nil {
					return got{St: "err", Msg: err.Error()}
				}
				return got{St: "ok"}
			})
		}
		stats[s.Op]++
		switch s.Op {
		case "build":
			var nm evaluation.Model
			before := snapshot(rest(mi))
			g := simple(func() (err error) {
				nm, err = evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[mi])
				return err
			})
			if g.St == "panic" || g.St == "hang" {
				return append(bad, at(i, s)+": "+g.St+" "+g.Msg)
			}
			if prev, ok := buildErr[mi]; ok && prev != g.St {
				bad = append(bad, fmt.Sprintf("%s: building was %s before, now %s %s", at(i, s), prev, g.St, g.Msg))
			}
			buildErr[mi] = g.St
			if g.St == "err" && !e.Early {
				for _, o := range e.Evals {
					if o.St != "err" && o.St != "undef" {
						bad = append(bad, at(i, s)+": the model does not build: "+g.Msg)
						break
					}
				}
			}
			if g.St == "err" {
				nm = nil
			}
			objs[s.O] = nm
			if after := snapshot(rest(mi)); after != before {
				bad = append(bad, at(i, s)+": the rest of the document changed: "+firstDiff(before, after))
			}
		case "validate", "compile":
			before := snapshot(rest(mi))
			f := m.Validate
			if s.Op == "compile" {
				f = m.Compile
			}
			if g := simple(f); g.St != "ok" {
				bad = append(bad, fmt.Sprintf("%s: %s %s", at(i, s), g.St, g.Msg))
			}
			if after := snapshot(rest(mi)); after != before {
				bad = append(bad, at(i, s)+": the rest of the document changed: "+firstDiff(before, after))
			}
		case "verify":
			before := snapshot(doc)
			g := simple(m.Verify)
			if g.St == "panic" || g.St == "hang" || (e.Verify != "undef" && g.St != e.Verify) {
				bad = append(bad, fmt.Sprintf("%s: expected %s, got %s %s", at(i, s), e.Verify, g.St, g.Msg))
			}
			if v, ok := verified[mi]; ok && v != g.St {
				bad = append(bad, fmt.Sprintf("%s: was %s before, now %s %s", at(i, s), v, g.St, g.Msg))
			}
			verified[mi] = g.St
			if after := snapshot(doc); after != before {
				bad = append(bad, at(i, s)+": the decoded document changed: "+firstDiff(before, after))
			}
		case "evaluate":
			row := shared[s.R-1]
			if (variant+i)%2 == 0 {
				row = goRow(p.cs[0].Rows[s.R-1])
			}
			before := snapshot(doc)
			input := rowCopy(row)
			reps := 1 + (variant+i)%3
			for k := 0; k < reps; k++ {
				g := evalGot(m, row)
				if why := mismatch(e.Evals[s.R-1], g); why != "" {
					bad = append(bad, at(i, s)+": "+why)
				}
				if after := rowCopy(row); !sameRow(input, after) {
					bad = append(bad, fmt.Sprintf("%s: the caller's row changed from %v to %v", at(i, s), input, after))
					row = goRow(p.cs[0].Rows[s.R-1])
					shared[s.R-1] = row
				}
				key := fmt.Sprint(mi, "-", s.R)
				if prev, ok := seen[key]; ok && !identical(prev, g) {
					bad = append(bad, fmt.Sprintf("%s: was %v before, now %v", at(i, s), prev, g))
				}
				kept := got{St: g.St, Msg: g.Msg, Out: evaluation.DataRow{}}
				for name, v := range g.Out {
					kept.Out[name] = v
				}
				seen[key] = kept
				for _, h := range given {
					if now := rowCopy(h.live); !sameRow(h.was, now) {
						bad = append(bad, fmt.Sprintf("%s: the result returned by step %d changed from %v to %v", at(i, s), h.step, h.was, now))
					}
				}
				if variant%2 == 0 {
					given = append(given, handed{g.Out, rowCopy(g.Out), i + 1})
					continue
				}
				// the result belongs to the caller
				for name := range g.Out {
					g.Out[name] = evaluation.NewValue("overwritten")
				}
				if after := rowCopy(row); !sameRow(input, after) {
					bad = append(bad, fmt.Sprintf("%s: the result shares the caller's row", at(i, s)))
				}
			}
			if after := snapshot(doc); after != before {
				bad = append(bad, at(i, s)+": the decoded document changed: "+firstDiff(before, after))
			}
		}
		if len(bad) > 0 {
			break
		}
	}
	return bad
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := i-60, i+60
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q became %q", cut(a), cut(b))
}

type sessJob struct {
	p       *pair
	hist    []step
	variant int
}

// sessReplay runs every history on `per` documents, walking round the documents.
func sessReplay(hists, cases, expected, out string, per int) {
	pairs := loadPairs(cases, expected)
	jobs := []sessJob{}
	k := 0
	readLines(hists, func(line []byte) {
		var h []step
		if !tlcLine(line, &h) {
			return
		}
		for i := 0; i < per; i++ {
			jobs = append(jobs, sessJob{pairs[k%len(pairs)], h, k})
			k++
		}
	})
	res := newResult()
	type done struct {
		bad   []string
		stats map[string]int
	}
	results := make([]done, len(jobs))
	pool(len(jobs), func(i int) {
		st := map[string]int{}
		results[i] = done{session(jobs[i].p, jobs[i].hist, jobs[i].variant, st), st}
	})
	for i, d := range results {
		for op, n := range d.stats {
			res.Stats[op] += n
		}
		j := jobs[i]
		res.add("histories", fmt.Sprintf("session-%s-%d", strings.TrimSuffix(j.p.cs[0].ID, "/1"), i),
			map[string]interface{}{"history": j.hist, "cases": j.p.cs, "document": renderAll(j.p.cs[0].Doc, j.p.cs[0].Doc.Model, j.p.cs[1].Doc.Model, j.p.cs[0].Doc.Ver, j.p.cs[1].Doc.Ver)}, d.bad)
	}
	res.write(out)
}

// --- objects made without their constructor --------------------------------

type lifeHist struct {
	Kind string `json:"kind"`
	Hist []step `json:"hist"`
}

// rawModel makes an object holding the document without validating or
// compiling it; nil when its fields cannot be recognised by their types.
func rawModel(doc *models.PMML) evaluation.Model {
	var obj reflect.Value
	switch doc.Models[0].(type) {
	case *models.TreeModel:
		obj = reflect.New(reflect.TypeOf(evaluation.TreeModel{}))
	case *models.MiningModel:
		obj = reflect.New(reflect.TypeOf(evaluation.MiningModel{}))
	default:
		return nil
	}
	want := []reflect.Value{reflect.ValueOf(&doc.DataDictionary), reflect.ValueOf(&doc.TransformationDictionary), reflect.ValueOf(doc.Models[0])}
	for _, w := range want {
		hits := 0
		for i := 0; i < obj.Elem().NumField(); i++ {
			f := obj.Elem().Field(i)
			if f.Type() == w.Type() {
				reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(w)
				hits++
			}
		}
		if hits != 1 {
			return nil
		}
	}
	return obj.Interface().(evaluation.Model)
}

func life(c Case, e Expected, h lifeHist, tree bool, stats map[string]int) []string {
	var m evaluation.Model
	if h.Kind == "zero" {
		m = new(evaluation.MiningModel)
		if tree {
			m = new(evaluation.TreeModel)
		}
	} else {
		d := c.Doc
		doc, err := load(render(d))
		if err != nil {
			return []string{"the document does not load: " + err.Error()}
		}
		m = rawModel(doc)
		if m == nil {
			stats["unrecognised object"]++
			return nil
		}
	}
	verdict := ""
	seen := map[int]got{}
	for i, s := range h.Hist {
		stats[h.Kind+" "+s.Op]++
		at := fmt.Sprintf("%s object, step %d (%s)", h.Kind, i+1, s.Op)
		var g got
		call := func(f func() error) got {
			return guard(func() got {
				if err := f(); err != nil {
					return got{St: "err", Msg: err.Error()}
				}
				return got{St: "ok"}
			})
		}
		switch s.Op {
		case "validate":
			g = call(m.Validate)
		case "compile":
			g = call(m.Compile)
		case "verify":
			g = call(m.Verify)
			if s.Exp == "verdict" {
				if e.Verify != "undef" && e.Verify != g.St {
					return []string{fmt.Sprintf("%s: expected %s, got %s %s", at, e.Verify, g.St, g.Msg)}
				}
				if verdict != "" && verdict != g.St {
					return []string{fmt.Sprintf("%s: was %s, now %s", at, verdict, g.St)}
				}
				verdict = g.St
			}
		case "evaluate":
			r := i % len(c.Rows)
			var err error
			var out evaluation.DataRow
			g = guard(func() got {
				out, err = m.Evaluate(goRow(c.Rows[r]))
				if err != nil {
					return got{St: "err", Msg: err.Error()}
				}
				if len(out) == 0 {
					return got{St: "null"}
				}
				return got{St: "ok", Out: out}
			})
			if g.St == "panic" || g.St == "hang" {
				return []string{at + ": " + g.St + " " + g.Msg}
			}
			switch s.Exp {
			case "ErrNotValidated", "ErrNotCompiled":
				want := evaluation.ErrNotValidated
				if s.Exp == "ErrNotCompiled" {
					want = evaluation.ErrNotCompiled
				}
				if err == nil || !(errors.Is(err, want) || strings.Contains(err.Error(), want.Error())) {
					return []string{fmt.Sprintf("%s: expected %s, got %v", at, s.Exp, g)}
				}
			case "refused":
				if g.St != "err" {
					return []string{fmt.Sprintf("%s: expected an error, got %v", at, g)}
				}
			case "open":
				if g.St == "err" && strings.Contains(err.Error(), evaluation.ErrNotCompiled.Error()) {
					break
				}
				fallthrough
			default:
				if why := mismatch(e.Evals[r], g); why != "" {
					return []string{at + ": " + why}
				}
				if p, ok := seen[r]; ok && !identical(p, g) {
					return []string{fmt.Sprintf("%s: was %v, now %v", at, p, g)}
				}
				seen[r] = g
			}
		}
		if g.St == "panic" || g.St == "hang" {
			return []string{at + ": " + g.St + " " + g.Msg}
		}
		if s.Exp == "ok" && g.St != "ok" {
			return []string{fmt.Sprintf("%s: expected success, got %s %s", at, g.St, g.Msg)}
		}
	}
	return nil
}

// lifeReplay runs every history on `per` tree and mining documents.
func lifeReplay(hists, cases, expected, out string, per int) {
	good := map[string][]pairOne{}
	for _, p := range loadPairs(cases, expected) {
		for i := range p.cs {
			one := pairOne{p.cs[i], p.es[i]}
			if k := one.c.Doc.Model.Kind; (k == "tree" || k == "mining") && one.built() {
				good[k] = append(good[k], one)
			}
		}
	}
	type job struct {
		h    lifeHist
		one  pairOne
		tree bool
	}
	jobs := []job{}
	k := 0
	readLines(hists, func(line []byte) {
		var h lifeHist
		if !tlcLine(line, &h) {
			return
		}
		for i := 0; i < per; i++ {
			for _, kind := range []string{"tree", "mining"} {
				one := good[kind][k%len(good[kind])]
				if h.Kind == "bad" {
					one = one.spoil(k)
				}
				jobs = append(jobs, job{h, one, kind == "tree"})
				k++
			}
		}
	})
	res := newResult()
	type done struct {
		bad   []string
		stats map[string]int
	}
	results := make([]done, len(jobs))
	pool(len(jobs), func(i int) {
		st := map[string]int{}
		results[i] = done{life(jobs[i].one.c, jobs[i].one.e, jobs[i].h, jobs[i].tree, st), st}
	})
	for i, d := range results {
		for op, n := range d.stats {
			res.Stats[op] += n
		}
		j := jobs[i]
		res.add("histories", fmt.Sprintf("life-%s-%d", j.one.c.ID, i), map[string]interface{}{"history": j.h, "case": j.one.c, "document": render(j.one.c.Doc)}, d.bad)
	}
	res.write(out)
}

type pairOne struct {
	c Case
	e Expected
}

// built: the document is one the library accepts
func (o pairOne) built() bool {
	for _, x := range o.e.Evals {
		if x.St != "ok" && x.St != "null" {
			return false
		}
	}
	return len(o.c.Rows) > 0 && !o.e.Early
}

// spoil makes the document one that is rejected.
func (o pairOne) spoil(k int) pairOne {
	var c Case
	fatal(json.Unmarshal(toJSON(o.c), &c))
	m := &c.Doc.Model
	switch k % 3 {
	case 0:
		m.Fn = "clustering"
	case 1:
		if m.Kind == "tree" {
			l := lit("1")
			m.Root.Pred = Pred{P: "simple", F: "undeclared", Op: "lessThan", V: &l}
		} else {
			m.Method = "majorityVote"
		}
	default:
		l := lit("1")
		bad := Pred{P: "simple", F: "undeclared", Op: "equal", V: &l}
		if m.Kind == "tree" {
			n := m.Root
			for len(n.Ch) > 0 {
				n = &n.Ch[len(n.Ch)-1]
			}
			n.Ch = []Node{leafNode("a", bad)}
		} else if len(m.Segs) > 0 {
			m.Segs[len(m.Segs)-1].Preds = []Pred{bad}
		} else {
			m.Fn = "associationRules"
		}
	}
	return pairOne{c, o.e}
}
