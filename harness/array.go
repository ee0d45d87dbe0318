package main

import (
	"bufio"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
)

// P17: the accessors of models.ArrayType against spec/Array.tla.

type ArrayItem struct {
	S   []string `json:"s"`
	Neg bool     `json:"neg"`
	Ds  string   `json:"ds"`
	Sc  int      `json:"sc"`
}

type ArrayExp struct {
	St    string      `json:"st"`
	Items []ArrayItem `json:"items"`
}

type ArrayCase struct {
	Type string              `json:"type"`
	Text []string            `json:"text"`
	Exp  map[string]ArrayExp `json:"exp"`
}

var arrayChars = map[string]string{"T": "\t", "N": "\n", "R": "\r", "E": "\u00e9", "U": "\u65e5",
	// space elsewhere, but not in XML
	"B": "\u00a0", "W": "\u2003", "L": "\u0085"}

func arrayText(cs []string) string {
	out := ""
	for _, c := range cs {
		if x, ok := arrayChars[c]; ok {
			c = x
		}
		out += c
	}
	return out
}

// ways to write the same text in XML
func arrayXML(text string) []string {
	esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\r", "&#13;").Replace(text)
	num := ""
	for _, r := range text {
		if r == '"' || r == ' ' || r == '\n' || r == '\t' {
			num += string(r)
		} else {
			num += fmt.Sprintf("&#%d;", r)
		}
	}
	out := []string{esc, num}
	if !strings.Contains(text, "\r") {
		out = append(out, "<![CDATA["+text+"]]>")
	}
	return out
}

func arrayCall(a *models.ArrayType, acc string, e ArrayExp) string {
	var err error
	var n int
	var bad string
	switch acc {
	case "string":
		var got []string
		got, err = a.Strings()
		n = len(got)
		if err == nil && e.St == "ok" && n == len(e.Items) {
			for i := range got {
				if w := arrayText(e.Items[i].S); got[i] != w {
					bad = fmt.Sprintf("item %d is %q, expected %q", i, got[i], w)
				}
			}
		}
	case "int":
		var got []int64
		got, err = a.Int64s()
		n = len(got)
		if err == nil && e.St == "ok" && n == len(e.Items) {
			for i := range got {
				if w := e.Items[i].rat(); new(big.Rat).SetInt64(got[i]).Cmp(w) != 0 {
					bad = fmt.Sprintf("item %d is %d, expected %v", i, got[i], w)
				}
			}
		}
	case "real":
		var got []float64
		got, err = a.Float64s()
		n = len(got)
		if err == nil && e.St == "ok" && n == len(e.Items) {
			for i := range got {
				if w, _ := e.Items[i].rat().Float64(); got[i] != w && !math.IsInf(w, 0) {
					bad = fmt.Sprintf("item %d is %v, expected %v", i, got[i], w)
				}
			}
		}
	}
	switch {
	case e.St == "open":
		return ""
	case e.St == "err" && err == nil:
		return fmt.Sprintf("%d items instead of an error", n)
	case e.St == "err" && n > 0:
		return "an error and items"
	case e.St == "ok" && err != nil:
		return "error " + err.Error()
	case e.St == "ok" && n != len(e.Items):
		return fmt.Sprintf("%d items, expected %d", n, len(e.Items))
	}
	return bad
}

func (it ArrayItem) rat() *big.Rat {
	x := new(big.Rat)
	x.SetString("0" + it.Ds)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(math.Abs(float64(it.Sc)))), nil))
	if it.Sc >= 0 {
		x.Mul(x, p)
	} else {
		x.Quo(x, p)
	}
	if it.Neg {
		x.Neg(x)
	}
	return x
}

func arrayReplay(in, out string) {
	res := newResult()
	parallel(in, func(c ArrayCase) []string {
		bad := []string{}
		g := guard(func() got {
			bad = arrayCase(c, arrayText(c.Text))
			return got{St: "ok"}
		})
		if g.St != "ok" {
			bad = []string{g.St + " " + g.Msg}
		}
		return bad
	}, func(c ArrayCase, bad []string) {
		res.add(c.Type+"-"+c.Exp[c.Type].St, fmt.Sprintf("array-%s-%s", c.Type, arrayText(c.Text)), c, bad)
	})
	res.write(out)
}

func arrayCase(c ArrayCase, text string) []string {
	accs := []string{"string", "int", "real"}
	bad := []string{}
	for _, w := range arrayXML(text) {
		doc := fmt.Sprintf("<Array type=%q n=\"1\">%s</Array>", c.Type, w)
		var a models.ArrayType
		var arr models.Array
		if err := xml.Unmarshal([]byte(doc), &a); err != nil {
			bad = append(bad, fmt.Sprintf("%s does not load: %v", doc, err))
			continue
		}
		if err := xml.Unmarshal([]byte(doc), &arr); err != nil {
			bad = append(bad, fmt.Sprintf("%s does not load: %v", doc, err))
			continue
		}
		for i := 0; i < 27 && len(bad) == 0; i++ {
			fresh := a
			if i%2 == 1 {
				fresh = models.ArrayType(arr)
			}
			hist := ""
			for _, k := range []int{i / 9, i / 3 % 3, i % 3} {
				hist += " " + accs[k]
				if why := arrayCall(&fresh, accs[k], c.Exp[accs[k]]); why != "" {
					bad = append(bad, fmt.Sprintf("%s after%s: %s", doc, hist, why))
					break
				}
			}
		}
	}
	return bad
}

// arrayGen writes random array texts: long lists, numbers of any size.
func arrayGen(seed int64, n int, out string) {
	f, err := os.Create(out)
	fatal(err)
	w := bufio.NewWriter(f)
	r := rand.New(rand.NewSource(seed))
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	split := func(s string) []string {
		cs := []string{}
		for _, c := range s {
			cs = append(cs, string(c))
		}
		return cs
	}
	integer := func() string {
		b := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(64))))
		switch r.Intn(8) {
		case 0:
			b = new(big.Int).SetUint64(1 << 63)
			b.Add(b, big.NewInt(int64(r.Intn(4)-2)))
		case 1:
			b = big.NewInt(int64(r.Intn(20)))
		}
		return pick("", "-", "", "-", "+") + pick("", "", "0", "000") + b.String()
	}
	real := func() string {
		x := (r.Float64() - 0.5) * math.Pow(10, float64(r.Intn(40)-20))
		switch r.Intn(6) {
		case 0:
			return integer()
		case 1:
			return pick("0.1", ".5", "5.", "1e3", "-0.0", "16777217", "0x1p4", "1_0.5", "0.30000000000000004", "1e-400", "4.9e-324", "1e22", "123456789.123456789")
		}
		return strconv.FormatFloat(x, byte("efg"[r.Intn(3)]), r.Intn(19)-1, 64)
	}
	word := func() string {
		s := ""
		for k := 1 + r.Intn(6); k > 0; k-- {
			s += pick("a", "b", "Z", "1", ".", "-", "&", "<", ">", "'", "]", "E", "U", "B", "W", "L", ",", ";", "\\", "#", "%", "$", "`", "(", "|", "*", "~", "!")
		}
		return s
	}
	quoted := func() string {
		s := ""
		for k := r.Intn(6); k > 0; k-- {
			s += pick("a", "b", " ", "  ", "T", "N", "\\\"", "1", "&", "<", "E", "'", "$", "#", "B", "L")
		}
		return "\"" + s + "\""
	}
	for i := 0; i < n; i++ {
		g := &G{r: r}
		g.steer()
		typ := pick("int", "real", "string", "int", "real", "string", "string", "date")
		kind := typ
		if r.Intn(6) == 0 {
			kind = pick("int", "real", "string")
		}
		text := []string{}
		space := func(least int) {
			for k := least + r.Intn(2); k > 0; k-- {
				text = append(text, pick(" ", " ", " ", "T", "N", "R"))
			}
		}
		space(0)
		most := 9
		if r.Intn(40) == 0 {
			most = 90
		}
		k := r.Intn(most)
		if c := g.huge + g.exactly; c > 0 && r.Intn(2) == 0 {
			k = c
		}
		for ; k > 0; k-- {
			item := ""
			switch x := r.Intn(12); {
			case kind == "int" && x < 11:
				item = integer()
			case kind == "real" && x < 11:
				item = real()
			case x < 6:
				item = word()
			default:
				item = quoted()
			}
			if kind != "string" && r.Intn(25) == 0 {
				// almost a number
				switch r.Intn(3) {
				case 0:
					item += pick(".0", ".", "e0", "e", "E1", "L", "_", "%", "f", "d", ",0", "-", "+", ".5", "B", "W")
				case 1:
					item = pick("+", "-", "0x", "0b1", "0o7", "#", "$", ".", "B", "L", "_") + item
				default:
					k := r.Intn(len(item))
					item = item[:k] + pick(".", "_", ",", "e", "-", "B") + item[k:]
				}
			}
			if s, ok := g.dictStr(); ok && r.Intn(2) == 0 && item[0] != '"' && strings.IndexAny(s, "TNREUBWL \"") < 0 {
				item = s
				if kind != "string" {
					item = pick("", "", "1", "-") + item + pick("", "", "5", "0")
				}
			}
			if x, ok := g.dictNum(); ok && kind != "string" {
				item = x.text()
			}
			if c, ok := g.dictInt(); ok && r.Intn(6) == 0 && c > 1 && c < 400 && item[0] != '"' {
				// an item of about that length
				for d := int64(len(item)) + int64(r.Intn(3)) - 1; d < c; d++ {
					if kind == "string" {
						item += "a"
					} else {
						item = "0" + strings.TrimLeft(item, "+-")
					}
				}
			}
			if item == "" {
				item = "a"
			}
			if kind != "string" && r.Intn(10) == 0 {
				item = "\"" + item + "\""
			}
			text = append(text, split(item)...)
			space(1)
		}
		if r.Intn(15) == 0 {
			text = append(text, "\"", "a")
		}
		w.Write(append(toJSON(map[string]interface{}{"type": typ, "text": text}), '\n'))
	}
	fatal(w.Flush())
	fatal(f.Close())
}
