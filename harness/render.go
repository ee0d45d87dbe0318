package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Rendering of the abstract syntax as a PMML document.

func esc(s string) string {
	var b bytes.Buffer
	_ = xml.EscapeText(&b, []byte(s))
	return b.String()
}

type xw struct {
	strings.Builder
	zeros bool       // write record counts of zero
	pre   string     // prefix of the element names
	unit  int        // numbers are in units of 2^unit
	r     *rand.Rand // when set, elements are decorated with what must not matter to scoring
}

func (w *xw) open(name string, attrs ...string) {
	attrs = w.decorate(name, attrs)
	w.WriteString("<" + w.prefixed(name))
	for i := 0; i+1 < len(attrs); i += 2 {
		w.WriteString(" " + attrs[i] + `="` + esc(attrs[i+1]) + `"`)
	}
	w.WriteString(">")
	if containers[name] {
		w.filler()
	}
}

func (w *xw) close(name string) {
	if containers[name] {
		w.filler()
	}
	w.WriteString("</" + w.prefixed(name) + ">")
}

// text writes character data, sometimes as a CDATA section or around a comment.
func (w *xw) text(s string) {
	if w.r != nil && s != "" && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		switch w.r.Intn(8) {
		case 0:
			w.WriteString("<![CDATA[" + s + "]]>")
			return
		case 1:
			// between two characters
			k := 0
			for i := range s {
				if k = i; i > 0 {
					break
				}
			}
			w.WriteString(esc(s[:k]) + "<!-- c -->" + esc(s[k:]))
			return
		}
	}
	w.WriteString(esc(s))
}
func (w *xw) leaf(name string, attrs ...string) {
	w.open(name, attrs...)
	w.close(name)
}

func opt(attrs []string, name, val string) []string {
	if val == "" {
		return attrs
	}
	return append(attrs, name, val)
}

func (w *xw) quoteItems(items []Lit) string {
	parts := []string{}
	for _, it := range items {
		it.S = w.lit(it)
		if it.S == "" || strings.ContainsAny(it.S, " \t\n\"\\") {
			parts = append(parts, `"`+strings.ReplaceAll(strings.ReplaceAll(it.S, `\`, `\\`), `"`, `\"`)+`"`)
		} else {
			parts = append(parts, it.S)
		}
	}
	return strings.Join(parts, " ")
}

func (w *xw) pred(p Pred, types map[string]string) {
	switch p.P {
	case "true":
		w.leaf("True")
	case "false":
		w.leaf("False")
	case "simple":
		attrs := []string{"field", p.F}
		attrs = opt(attrs, "operator", p.Op)
		if p.V != nil && p.Op != "isMissing" && p.Op != "isNotMissing" {
			attrs = append(attrs, "value", w.lit(*p.V))
		}
		w.leaf("SimplePredicate", attrs...)
	case "set":
		w.open("SimpleSetPredicate", opt([]string{"field", p.F}, "booleanOperator", p.Op)...)
		typ := "string"
		switch types[p.F] {
		case "integer":
			typ = "int"
		case "double", "float":
			typ = "real"
		}
		w.open("Array", "n", strconv.Itoa(len(p.Items)), "type", typ)
		w.text(w.quoteItems(p.Items))
		w.close("Array")
		w.close("SimpleSetPredicate")
	case "comp":
		w.open("CompoundPredicate", opt(nil, "booleanOperator", p.Op)...)
		for _, c := range p.Ch {
			w.pred(c, types)
		}
		w.close("CompoundPredicate")
	case "none":
	default:
		panic("predicate " + p.P)
	}
}

func (w *xw) node(n Node, types map[string]string) {
	attrs := opt(nil, "id", n.ID)
	attrs = opt(attrs, "score", w.lit(n.Score))
	attrs = opt(attrs, "defaultChild", n.DC)
	if n.RC.N != 0 || w.zeros {
		attrs = append(attrs, "recordCount", n.RC.text())
	}
	w.open("Node", attrs...)
	w.pred(n.Pred, types)
	for _, d := range n.Dist {
		a := []string{"value", w.lit(d.V), "recordCount", d.RC.text()}
		if len(d.Prob) > 0 {
			a = append(a, "probability", d.Prob[0].text())
		}
		w.leaf("ScoreDistribution", a...)
	}
	for _, c := range n.Ch {
		w.node(c, types)
	}
	w.close("Node")
}

func (w *xw) expr(x Expr) {
	switch x.E {
	case "ref":
		w.leaf("FieldRef", "field", x.F)
	case "const":
		w.open("Constant", opt(nil, "dataType", x.Type)...)
		w.text(w.lit(*x.V))
		w.close("Constant")
	case "apply":
		w.open("Apply", "function", x.Fn)
		for i, a := range x.Args {
			unit := w.unit
			if i == factor(&x) {
				w.unit = 0
			}
			w.expr(a)
			w.unit = unit
		}
		w.close("Apply")
	case "map":
		a := opt(nil, "outputColumn", x.OutCol)
		a = opt(a, "dataType", x.Type)
		if len(x.Def) > 0 {
			a = append(a, "defaultValue", w.lit(x.Def[0]))
		}
		w.open("MapValues", a...)
		for _, p := range x.Pairs {
			w.leaf("FieldColumnPair", "field", p.F, "column", p.Col)
		}
		w.inlineTable(x.Rows)
		w.close("MapValues")
	case "unsup":
		switch x.Name {
		case "NormContinuous":
			w.WriteString(`<NormContinuous field="x"><LinearNorm orig="0" norm="0"/><LinearNorm orig="1" norm="1"/></NormContinuous>`)
		case "NormDiscrete":
			w.WriteString(`<NormDiscrete field="s" value="a"/>`)
		case "Discretize":
			w.WriteString(`<Discretize field="x" defaultValue="1"/>`)
		case "Lag":
			w.WriteString(`<Lag field="x" n="1"/>`)
		case "Aggregate":
			w.WriteString(`<Aggregate field="x" function="sum"/>`)
		case "TextIndex":
			w.WriteString(`<TextIndex textField="s"><Constant dataType="double">1</Constant></TextIndex>`)
		case "none":
		default:
			panic("expression " + x.Name)
		}
	default:
		panic("expression " + x.E)
	}
}

func (w *xw) inlineTable(rows []Cells) {
	w.open("InlineTable")
	for _, r := range rows {
		w.open("row")
		cols := []string{}
		for c := range r {
			cols = append(cols, c)
		}
		sort.Strings(cols)
		for _, c := range cols {
			w.WriteString("<data:" + c + ">")
			w.text(w.lit(r[c]))
			w.WriteString("</data:" + c + ">")
		}
		w.close("row")
	}
	w.close("InlineTable")
}

func opType(typ string) string {
	if typ == "string" || typ == "boolean" {
		return "categorical"
	}
	return "continuous"
}

func (w *xw) derived(d DField) {
	a := []string{"name", d.Name}
	a = opt(a, "optype", d.Op)
	a = opt(a, "dataType", d.Type)
	w.open("DerivedField", a...)
	w.expr(d.Expr)
	w.close("DerivedField")
}

func (w *xw) model(m Model, types map[string]string, ver []Verif) {
	switch m.Kind {
	case "unsup":
		w.open(m.Name, "functionName", "classification")
		w.close(m.Name)
		return
	case "tree":
		a := opt(nil, "functionName", m.Fn)
		a = opt(a, "missingValueStrategy", m.Strat)
		w.zeros = m.Strat == "weightedConfidence"
		a = opt(a, "noTrueChildStrategy", m.NTC)
		if len(m.Pen) > 0 {
			a = append(a, "missingValuePenalty", m.Pen[0].text())
		}
		w.open("TreeModel", a...)
	case "reg":
		a := opt(nil, "functionName", m.Fn)
		a = opt(a, "normalizationMethod", m.Norm)
		w.open("RegressionModel", a...)
	case "mining":
		w.open("MiningModel", opt(nil, "functionName", m.Fn)...)
	default:
		panic("model " + m.Kind)
	}
	w.open("MiningSchema")
	for _, f := range m.Schema {
		a := opt([]string{"name", f.Name}, "usageType", f.Usage)
		if len(f.Repl) > 0 {
			a = append(a, "missingValueReplacement", w.lit(f.Repl[0]))
		}
		w.leaf("MiningField", a...)
	}
	w.close("MiningSchema")
	if len(m.Outs) > 0 {
		w.open("Output")
		for _, o := range m.Outs {
			a := []string{"name", o.Name}
			a = opt(a, "feature", o.Feature)
			a = opt(a, "value", o.Value)
			w.leaf("OutputField", a...)
		}
		w.close("Output")
	}
	if len(m.Targets) > 0 {
		w.open("Targets")
		for _, t := range m.Targets {
			a := []string{"field", t.Field}
			if len(t.Factor) > 0 {
				a = append(a, "rescaleFactor", t.Factor[0].text())
			}
			if len(t.Const) > 0 {
				text := t.Const[0].text()
				if m.Fn == "regression" {
					text = w.quantity(t.Const[0])
				}
				a = append(a, "rescaleConstant", text)
			}
			w.leaf("Target", a...)
		}
		w.close("Targets")
	}
	if len(m.LT) > 0 {
		w.open("LocalTransformations")
		for _, d := range m.LT {
			w.derived(d)
		}
		w.close("LocalTransformations")
	}
	inner := map[string]string{}
	for k, v := range types {
		inner[k] = v
	}
	for _, d := range m.LT {
		inner[d.Name] = d.Type
	}
	switch m.Kind {
	case "tree":
		w.node(*m.Root, inner)
	case "reg":
		for _, t := range m.Tables {
			w.open("RegressionTable", opt([]string{"intercept", w.quantity(t.Intercept)}, "targetCategory", t.Cat)...)
			for _, n := range t.Nums {
				a := []string{"name", n.Name, "coefficient", n.Coef.text()}
				if n.Exp != 1 {
					a = append(a, "exponent", strconv.Itoa(n.Exp))
				}
				w.leaf("NumericPredictor", a...)
			}
			for _, c := range t.Cats {
				w.leaf("CategoricalPredictor", "name", c.Name, "value", c.Value, "coefficient", w.quantity(c.Coef))
			}
			if t.Terms {
				w.WriteString(`<PredictorTerm coefficient="2"><FieldRef field="x"/><FieldRef field="x"/></PredictorTerm>`)
			}
			w.close("RegressionTable")
		}
	case "mining":
		w.open("Segmentation", opt(nil, "multipleModelMethod", m.Method)...)
		for _, s := range m.Segs {
			w.open("Segment", opt(nil, "id", s.ID)...)
			for _, p := range s.Preds {
				w.pred(p, inner)
			}
			for _, sm := range s.Models {
				w.model(sm, inner, nil)
			}
			w.close("Segment")
		}
		w.close("Segmentation")
	}
	if len(ver) > 0 {
		v := ver[0]
		w.open("ModelVerification", "recordCount", fmt.Sprint(len(v.Rows)), "fieldCount", fmt.Sprint(len(v.Fields)))
		w.open("VerificationFields")
		for _, f := range v.Fields {
			col := f.Col
			if f.Pre {
				col = "data:" + col
			}
			a := []string{"field", f.Field, "column", col}
			if f.Out {
				// the tolerance of verification is fixed
				a = append(a, "precision", w.among("1E-6", "1E-6", "0", "0.5", "100"))
				if w.chance(4) {
					a = append(a, "zeroThreshold", w.among("1E-16", "1", "0"))
				}
			}
			w.leaf("VerificationField", a...)
		}
		w.close("VerificationFields")
		w.inlineTable(v.Rows)
		w.close("ModelVerification")
	}
	switch m.Kind {
	case "tree":
		w.close("TreeModel")
	case "reg":
		w.close("RegressionModel")
	case "mining":
		w.close("MiningModel")
	}
}

func render(d Doc) string { return renderDoc(d, []Model{d.Model}, [][]Verif{d.Ver}) }

// renderAll writes a document holding two models.
func renderAll(d Doc, m1, m2 Model, v1, v2 []Verif) string {
	return renderDoc(d, []Model{m1, m2}, [][]Verif{v1, v2})
}

// renderDoc writes the document; half of the documents, told by their text, are decorated.
func renderDoc(d Doc, ms []Model, vs [][]Verif) string {
	plain := (&xw{}).doc(d, ms, vs)
	h := fnv.New64a()
	_, _ = h.Write([]byte(plain))
	if h.Sum64()&1 == 0 {
		return plain
	}
	return (&xw{r: rand.New(rand.NewSource(int64(h.Sum64() >> 1)))}).doc(d, ms, vs)
}

func (w *xw) doc(d Doc, ms []Model, vs [][]Verif) string {
	w.unit = d.Scale
	w.WriteString(`<?xml version="1.0" encoding="UTF-8"?>`)
	xmlns := "xmlns"
	if w.chance(6) {
		w.pre, xmlns = "p:", "xmlns:p"
	}
	w.open("PMML", "version", "4.2", xmlns, "http://www.dmg.org/PMML-4_2", "xmlns:data", "http://jpmml.org/jpmml-model/InlineTable")
	w.leaf("Header")
	types := map[string]string{}
	w.open("DataDictionary", "numberOfFields", strconv.Itoa(len(d.DD)))
	for _, f := range d.DD {
		types[f.Name] = f.Type
		w.open("DataField", "name", f.Name, "optype", opType(f.Type), "dataType", f.Type)
		for _, v := range f.Values {
			w.leaf("Value", "value", v.S)
		}
		w.close("DataField")
	}
	w.close("DataDictionary")
	if len(d.TD) > 0 {
		w.open("TransformationDictionary")
		for _, df := range d.TD {
			types[df.Name] = df.Type
			w.derived(df)
		}
		w.close("TransformationDictionary")
	}
	for i := range ms {
		scope := map[string]string{}
		for k, v := range types {
			scope[k] = v
		}
		w.model(ms[i], scope, vs[i])
	}
	w.close("PMML")
	return w.String()
}
