package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Running the implementation.

// goValue makes the Go value a caller would put in the row.
func goValue(v Val) interface{} {
	switch v.K {
	case "nil":
		return nil
	case "str":
		return v.S
	case "bool":
		return v.B
	}
	i := func() int64 {
		if n, err := strconv.ParseUint(v.S, 10, 64); err == nil {
			return int64(n)
		}
		n, err := strconv.ParseInt(v.S, 10, 64)
		if err != nil {
			panic(err)
		}
		return n
	}
	switch v.G {
	case "int":
		return int(i())
	case "int8":
		return int8(i())
	case "int16":
		return int16(i())
	case "int32":
		return int32(i())
	case "int64":
		return i()
	case "uint":
		return uint(i())
	case "uint8":
		return uint8(i())
	case "uint16":
		return uint16(i())
	case "uint32":
		return uint32(i())
	case "uint64":
		return uint64(i())
	}
	f, err := strconv.ParseFloat(v.S, 64)
	if err != nil {
		panic(err)
	}
	if v.G == "float32" {
		return float32(f)
	}
	return f
}

func goRow(r Row) evaluation.DataRow {
	if r == nil {
		return nil
	}
	out := evaluation.DataRow{}
	for k, v := range r {
		out[k] = evaluation.NewValue(goValue(v))
	}
	return out
}

// load decodes a document.
func load(text string) (*models.PMML, error) {
	var doc models.PMML
	err := xml.NewDecoder(strings.NewReader(text)).Decode(&doc)
	return &doc, err
}

func build(doc *models.PMML) (evaluation.Model, error) {
	if len(doc.Models) != 1 {
		return nil, fmt.Errorf("loaded %d models", len(doc.Models))
	}
	return evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[0])
}

// got is what the implementation did: St is ok, null, err or panic.
type got struct {
	St  string
	Out evaluation.DataRow
	Msg string
}

func (g got) String() string {
	switch g.St {
	case "ok":
		keys := []string{}
		for k := range g.Out {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := []string{}
		for _, k := range keys {
			s = append(s, fmt.Sprintf("%s=%v(%T)", k, g.Out[k].Raw(), g.Out[k].Raw()))
		}
		return "ok{" + strings.Join(s, " ") + "}"
	case "null":
		return "no prediction"
	}
	return g.St + ": " + g.Msg
}

// guard runs f, turning a panic into an outcome and giving up on a hang.
func guard(f func() got) (g got) {
	ch := make(chan got, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- got{St: "panic", Msg: fmt.Sprintf("%v\n%s", r, debug.Stack())}
			}
		}()
		ch <- f()
	}()
	timer := time.NewTimer(30 * time.Second)
	defer timer.Stop()
	select {
	case g = <-ch:
	case <-timer.C:
		g = got{St: "hang", Msg: "no result after 30 s"}
	}
	return g
}

func evalGot(m evaluation.Model, row evaluation.DataRow) got {
	return guard(func() got {
		out, err := m.Evaluate(row)
		if err != nil {
			return got{St: "err", Msg: err.Error(), Out: out}
		}
		if len(out) == 0 {
			return got{St: "null"}
		}
		return got{St: "ok", Out: out}
	})
}

func buildGot(text string) (evaluation.Model, got) {
	var m evaluation.Model
	g := guard(func() got {
		doc, err := load(text)
		if err != nil {
			return got{St: "load", Msg: err.Error()}
		}
		m, err = build(doc)
		if err != nil {
			return got{St: "err", Msg: "build: " + err.Error()}
		}
		return got{St: "ok"}
	})
	return m, g
}

// --- comparison with the outcome the specification prescribes ---------------

func link(f string, y float64) float64 {
	switch f {
	case "logit", "softmax":
		return 1 / (1 + math.Exp(-y))
	case "exp":
		return math.Exp(y)
	case "cloglog":
		return 1 - math.Exp(-math.Exp(y))
	case "cauchit":
		return 0.5 + math.Atan(y)/math.Pi
	}
	panic("link " + f)
}

func (s *Sym) value() float64 {
	q := func() float64 { return float64(s.N) / float64(s.D) }
	sub := func(m json.RawMessage) float64 {
		var x Sym
		if err := json.Unmarshal(m, &x); err != nil {
			panic(err)
		}
		return x.value()
	}
	switch s.X {
	case "q":
		return q()
	case "link":
		return link(s.F, q())
	case "colink":
		return 1 - link(s.F, q())
	case "soft":
		t := 0.0
		for _, y := range s.Ys {
			t += math.Exp(y.f() - s.Ys[s.I-1].f())
		}
		return 1 / t
	case "add":
		return sub(s.A) + sub(s.B)
	case "mul":
		return sub(s.A) * q()
	}
	panic("symbolic " + s.X)
}

func isNumber(v interface{}) bool {
	switch v.(type) {
	case float64, float32, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return true
	}
	return false
}

// scale is the largest intermediate number, which bounds what cancellation may lose.
func (s *Sym) scale() float64 {
	sub := func(m json.RawMessage) float64 {
		var x Sym
		if err := json.Unmarshal(m, &x); err != nil {
			panic(err)
		}
		return x.scale()
	}
	switch s.X {
	case "add":
		return math.Max(math.Abs(s.value()), math.Max(sub(s.A), sub(s.B)))
	case "mul":
		return math.Max(math.Abs(s.value()), sub(s.A))
	case "colink":
		return math.Max(1, math.Abs(s.value()))
	}
	return math.Max(1, math.Abs(s.value()))
}

// near admits what rounding loses: 1e-9 of the number itself, and a trifle of the
// numbers it was computed from.
func near(got, want, scale float64) bool {
	if math.IsNaN(want) || math.IsInf(want, 0) {
		return true // beyond floating point
	}
	if math.IsNaN(got) || math.IsInf(got, 0) {
		return false
	}
	return math.Abs(got-want) <= 1e-9*math.Abs(want)+1e-13*math.Max(1, scale)
}

// mismatch says how g differs from e ("" if it does not).
func mismatch(e Outcome, g got) string {
	if g.St == "panic" || g.St == "hang" {
		return g.St + ": " + g.Msg
	}
	if e.St == "undef" {
		return ""
	}
	if e.St != g.St {
		return fmt.Sprintf("expected %s, got %v", describe(e), g)
	}
	if e.St != "ok" {
		return ""
	}
	for k, v := range e.Out {
		gv, ok := g.Out[k]
		if !ok {
			return fmt.Sprintf("output %q is missing: %v, expected %s", k, g, describe(e))
		}
		switch v.O {
		case "label":
			hit := false
			for _, l := range v.Ls {
				hit = hit || (gv.Raw() == l.S)
			}
			if !hit {
				return fmt.Sprintf("output %q is %v (%T), expected %s", k, gv.Raw(), gv.Raw(), describe(e))
			}
		case "num":
			want := v.E.value()
			if !isNumber(gv.Raw()) || !near(gv.Float64(), want, v.E.scale()) {
				return fmt.Sprintf("output %q is %v (%T), expected %v in %s", k, gv.Raw(), gv.Raw(), want, describe(e))
			}
		}
	}
	for k := range g.Out {
		if _, ok := e.Out[k]; !ok {
			return fmt.Sprintf("unexpected output %q: %v, expected %s", k, g, describe(e))
		}
	}
	return ""
}

func describe(e Outcome) string {
	if e.St != "ok" {
		return map[string]string{"null": "no prediction", "err": "an error"}[e.St]
	}
	keys := []string{}
	for k := range e.Out {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	s := []string{}
	for _, k := range keys {
		v := e.Out[k]
		if v.O == "label" {
			ls := []string{}
			for _, l := range v.Ls {
				ls = append(ls, l.S)
			}
			s = append(s, k+"="+strings.Join(ls, "|"))
		} else {
			s = append(s, fmt.Sprintf("%s=%v", k, v.E.value()))
		}
	}
	return "ok{" + strings.Join(s, " ") + "}"
}

// replay runs one case and returns a description of every disagreement, with
// statistics on the outcomes compared.
func replay(c Case, e Expected, stats map[string]int, checkVerify, junk bool) []string {
	bad := []string{}
	text := render(c.Doc)
	m, b := buildGot(text)
	switch b.St {
	case "load":
		for _, ev := range e.Evals {
			stats[ev.St]++
			if ev.St != "err" && ev.St != "undef" {
				bad = append(bad, "document does not load: "+b.Msg)
				break
			}
		}
		return bad
	case "panic", "hang":
		return []string{"building the model: " + b.St + " " + b.Msg}
	}
	if b.St == "err" && e.Early {
		stats["refused"]++
		return bad
	}
	for i, row := range c.Rows {
		ev := e.Evals[i]
		g := b
		if b.St == "ok" {
			g = evalGot(m, goRow(inUnit(row, c.Doc.Scale)))
			outOfUnit(&g, c.Doc.Scale)
		}
		if c.Doc.Scale != 0 {
			stats["scaled"]++
		}
		stats[ev.St]++
		if why := mismatch(ev, g); why != "" {
			bad = append(bad, fmt.Sprintf("row %d: %s", i+1, why))
		}
	}
	if junk && b.St == "ok" {
		for i, row := range junkRows(c.Doc) {
			stats["junk"]++
			if g := evalGot(m, row); g.St == "panic" || g.St == "hang" {
				bad = append(bad, fmt.Sprintf("unusable row %d (%v): %v", i+1, row, g))
			}
		}
	}
	if checkVerify {
		stats["verify-"+e.Verify]++
		g := b
		if b.St == "ok" {
			g = guard(func() got {
				if err := m.Verify(); err != nil {
					return got{St: "err", Msg: err.Error()}
				}
				return got{St: "ok"}
			})
		}
		switch {
		case g.St == "panic" || g.St == "hang":
			bad = append(bad, "Verify: "+g.St+" "+g.Msg)
		case e.Verify != "undef" && e.Verify != g.St:
			bad = append(bad, fmt.Sprintf("Verify: expected %s, got %s %s", e.Verify, g.St, g.Msg))
		}
	}
	return bad
}

// junkRows are empty, nil, and filled with values no field can hold.
func junkRows(d Doc) []evaluation.DataRow {
	var nilMap map[string]int
	var nilPtr *int
	values := []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), "", "not a number", struct{ A int }{1}, []string{"x"}, nilMap, nilPtr,
		complex(1, 2), []byte("1"), true, evaluation.NewValue(1), int64(math.MinInt64), uint64(math.MaxUint64), 1e308, "1e400", "\x00"}
	out := []evaluation.DataRow{nil, {}}
	for _, v := range values {
		row := evaluation.DataRow{"": evaluation.NewValue(v)}
		for _, f := range d.DD {
			row[f.Name] = evaluation.NewValue(v)
		}
		out = append(out, row)
	}
	return out
}
