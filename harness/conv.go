package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/flukeish/pmml/evaluation"
)

// P16: the accessors of evaluation.Value against spec/Conv.tla.

// ConvExp is what Conv.tla prescribes for one value.
type ConvExp struct {
	G     string `json:"g"`
	Text  string `json:"text"`
	Neg   bool   `json:"neg"`
	Ds    string `json:"ds"`
	Sc    int    `json:"sc"`
	Int   string `json:"int"`
	Plain bool   `json:"plain"`
	Str   string `json:"str"`
	Bool  bool   `json:"bool"`
}

type convCase struct {
	G     string   `json:"g"`
	Chars []string `json:"chars"`
}

func chars(s string) []string {
	out := []string{}
	for _, r := range s {
		out = append(out, string(r))
	}
	return out
}

// the ways a Go value brings its own printed form
type textInt int

func (t textInt) String() string { return "n" + strconv.Itoa(int(t)) }

type textStruct struct{ s string }

func (t textStruct) String() string { return t.s }

type textPointer struct{ s string }

func (t *textPointer) String() string { return t.s }

// make the Go value from its text
func convValue(g, text string) interface{} {
	bits := func(prefix string) int {
		n, err := strconv.Atoi(strings.TrimPrefix(g, prefix))
		if err != nil {
			return 64
		}
		return n
	}
	switch {
	case g == "string":
		return text
	case g == "bool":
		return text == "true"
	case g == "nil":
		return nil
	case g == "stringer":
		return textStruct{text}
	case g == "stringerp":
		return &textPointer{text}
	case g == "stringern":
		n, err := strconv.Atoi(strings.TrimPrefix(text, "n"))
		fatal(err)
		return textInt(n)
	case g == "duration":
		d, err := time.ParseDuration(text)
		fatal(err)
		return d
	case strings.HasPrefix(g, "uint"):
		n, err := strconv.ParseUint(text, 10, bits("uint"))
		fatal(err)
		switch g {
		case "uint8":
			return uint8(n)
		case "uint16":
			return uint16(n)
		case "uint32":
			return uint32(n)
		case "uint64":
			return n
		}
		return uint(n)
	case strings.HasPrefix(g, "int"):
		n, err := strconv.ParseInt(text, 10, bits("int"))
		fatal(err)
		switch g {
		case "int8":
			return int8(n)
		case "int16":
			return int16(n)
		case "int32":
			return int32(n)
		case "int64":
			return n
		}
		return int(n)
	case g == "float32":
		f, err := strconv.ParseFloat(text, 32)
		fatal(err)
		return float32(f)
	}
	f, err := strconv.ParseFloat(text, 64)
	fatal(err)
	return f
}

// exact text of a binary fraction
func exactText(f float64) string {
	r := new(big.Rat).SetFloat64(f)
	s := r.FloatString(1100)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func convGen(seed int64, n int, out string) {
	f, err := os.Create(out)
	fatal(err)
	w := bufio.NewWriter(f)
	emit := func(g, text string) {
		if f, err := strconv.ParseFloat(text, 64); err == nil && g == "string" && !finite(f) {
			return // infinity or not a number: nothing is said about those
		}
		w.Write(append(toJSON(convCase{g, chars(text)}), '\n'))
	}
	r := rand.New(rand.NewSource(seed))
	ints := map[string][2]string{}
	for _, b := range []uint{8, 16, 32, 64} {
		hi := new(big.Int).Lsh(big.NewInt(1), b-1)
		lo := new(big.Int).Neg(hi)
		ints[fmt.Sprintf("int%d", b)] = [2]string{lo.String(), new(big.Int).Sub(hi, big.NewInt(1)).String()}
		uh := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), b), big.NewInt(1))
		ints[fmt.Sprintf("uint%d", b)] = [2]string{"0", uh.String()}
	}
	ints["int"], ints["uint"] = ints["int64"], ints["uint64"]
	kinds := []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"}
	bounds := []*big.Int{}
	for _, e := range []uint{0, 1, 4, 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 62, 63, 64} {
		for d := int64(-1); d <= 1; d++ {
			b := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), e), big.NewInt(d))
			bounds = append(bounds, b, new(big.Int).Neg(b))
		}
	}
	within := func(k string, b *big.Int) bool {
		lo, _ := new(big.Int).SetString(ints[k][0], 10)
		hi, _ := new(big.Int).SetString(ints[k][1], 10)
		return b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0
	}
	for _, b := range bounds {
		for _, k := range kinds {
			if within(k, b) {
				emit(k, b.String())
			}
		}
		emit("string", b.String())
		for _, s := range []string{".5", ".999999", ".0", "e0", "E1", "e-1", ".25e2"} {
			emit("string", b.String()+s)
		}
		fl, _ := new(big.Float).SetInt(b).Float64()
		emit("float64", exactText(fl))
		emit("float32", exactText(float64(float32(fl))))
		emit("float64", exactText(fl+0.5))
		emit("float64", exactText(fl/1024))
		emit("float32", exactText(float64(float32(fl/1024))))
	}
	for _, s := range []string{"true", "false", "True", "", "abc", "0x10", "0x1p4", "1_000", "1_0.5", "1,5", "1 000", " 1", "1 ", "--1", "1e", "nil", "<nil>", "one", "\t1", "1.2.3"} {
		emit("string", s)
	}
	for _, d := range []*dict{dictNew, dictAll} {
		for _, s := range d.strs {
			emit("string", s)
			if d == dictNew {
				emit("string", strings.ToUpper(s))
				emit("string", "1"+s)
				emit("string", s+"1")
				emit("string", " "+s)
				emit("stringer", s)
				emit("stringerp", s)
			}
		}
		for _, x := range d.flts {
			for _, y := range []float64{x, -x, x + 1, x - 1, x + 0.5, x - 0.5, x * 1.5, math.Nextafter(x, math.Inf(1)), math.Nextafter(x, math.Inf(-1))} {
				emit("float64", exactText(y))
				emit("float32", exactText(float64(float32(y))))
				emit("string", strconv.FormatFloat(y, 'f', -1, 64))
				emit("string", strconv.FormatFloat(y, 'e', -1, 64))
			}
		}
		for _, x := range d.ints {
			for e := int64(-2); e <= 2; e++ {
				for _, k := range kinds {
					for _, b := range []*big.Int{big.NewInt(x + e), big.NewInt(-x + e)} {
						if within(k, b) {
							emit(k, b.String())
						}
					}
				}
			}
			if x > 1 && x < 400 && d == dictNew {
				// texts of such a length
				for e := int64(-1); e <= 1; e++ {
					emit("string", "1"+strings.Repeat("0", int(x+e-1)))
					emit("string", "0."+strings.Repeat("3", int(x+e)))
					emit("string", strings.Repeat("0", int(x+e))+"7")
					emit("string", fmt.Sprintf("1e%d", x+e))
					emit("string", fmt.Sprintf("1e-%d", x+e))
					emit("string", strings.Repeat("a", int(x+e)))
				}
			}
		}
	}
	for _, s := range nearNumbers {
		emit("string", s)
	}
	for _, s := range sentinels {
		emit("string", s)
	}
	emit("bool", "true")
	emit("bool", "false")
	emit("nil", "")
	for _, s := range []string{"", "a", "1", "1.5", "true", "x y", "\"q\"", "\n", "\u00e9", "%d"} {
		emit("stringer", s)
		emit("stringerp", s)
	}
	for _, s := range []string{"n0", "n1", "n-7", "n123456"} {
		emit("stringern", s)
	}
	for _, s := range []string{"0s", "1.5s", "2h0m3s", "-1ms"} {
		emit("duration", s)
	}
	for i := 0; i < n; i++ {
		k := kinds[r.Intn(len(kinds))]
		b := new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(64))))
		if r.Intn(2) == 0 {
			b.Neg(b)
		}
		if within(k, b) {
			emit(k, b.String())
		}
		fl := (r.Float64() - 0.5) * math.Pow(2, float64(r.Intn(80)-20))
		emit("float64", exactText(fl))
		emit("float32", exactText(float64(float32(fl))))
		emit("string", strconv.FormatFloat(fl, "eEfgG"[r.Intn(5)], r.Intn(20)-1, 64))
		emit("string", b.String())
	}
	fatal(w.Flush())
	fatal(f.Close())
}

func convCheck(e ConvExp) []string {
	bad := []string{}
	put := convValue(e.G, e.Text)
	x := new(big.Rat)
	if e.Ds != "" && e.Sc < 5000 && e.Sc > -5000 {
		x.SetString(e.Ds)
		p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(math.Abs(float64(e.Sc)))), nil))
		if e.Sc >= 0 {
			x.Mul(x, p)
		} else {
			x.Quo(x, p)
		}
		if e.Neg {
			x.Neg(x)
		}
	}
	var f64 float64
	var f32 float32
	var i64 int64
	var str string
	var b bool
	var raw interface{}
	g := guard(func() got {
		v := evaluation.NewValue(put)
		f64, f32, i64, str, b, raw = v.Float64(), v.Float32(), v.Int64(), v.String(), v.Bool(), v.Raw()
		// a second reading, in another order
		if v.Raw() != raw || v.Bool() != b || v.String() != str || v.Int64() != i64 || v.Float32() != f32 || v.Float64() != f64 {
			return got{St: "err", Msg: "the second reading differs"}
		}
		return got{St: "ok"}
	})
	if g.St != "ok" {
		return []string{g.St + " " + g.Msg}
	}
	w64, _ := x.Float64()
	w32, _ := x.Float32()
	if e.Int == "any" {
		w64, f64, w32, f32 = 0, 0, 0, 0 // no number is prescribed
		e.Int = "open"
	}
	if !math.IsInf(w64, 0) && f64 != w64 {
		bad = append(bad, fmt.Sprintf("Float64 is %v, expected %v", f64, w64))
	}
	if !math.IsInf(w64, 0) && f32 != w32 && f32 != float32(w64) {
		bad = append(bad, fmt.Sprintf("Float32 is %v, expected %v", f32, w32))
	}
	if e.Int != "open" {
		alt := e.Int
		if !e.Plain {
			alt = exactText(math.Trunc(w64))
			if alt == "-0" {
				alt = "0"
			}
		}
		open := !e.Plain && math.Abs(w64) >= 1<<63 // its nearest double is beyond int64
		if s := strconv.FormatInt(i64, 10); !open && s != e.Int && s != alt {
			bad = append(bad, fmt.Sprintf("Int64 is %s, expected %s", s, e.Int))
		}
	}
	want := e.Str
	if want == "?" {
		want = fmt.Sprint(put)
	}
	if str != want {
		bad = append(bad, fmt.Sprintf("String is %q, expected %q", str, want))
	}
	if b != e.Bool {
		bad = append(bad, fmt.Sprintf("Bool is %v, expected %v", b, e.Bool))
	}
	if !reflect.DeepEqual(raw, put) {
		bad = append(bad, fmt.Sprintf("Raw is %#v, expected %#v", raw, put))
	}
	return bad
}

func convReplay(in, out string) {
	res := newResult()
	parallel(in, convCheck, func(e ConvExp, bad []string) {
		res.add(e.G, fmt.Sprintf("conv-%s-%s", e.G, e.Text), e, bad)
	})
	res.write(out)
}

// result collects what a replay found.
type result struct {
	Cases    int               `json:"cases"`
	Compared int               `json:"compared"`
	Stats    map[string]int    `json:"stats"`
	Failures []Failure         `json:"failures"`
	Samples  []json.RawMessage `json:"samples"`
}

func newResult() *result {
	return &result{Stats: map[string]int{}, Failures: []Failure{}, Samples: []json.RawMessage{}}
}

func (r *result) add(kind, id string, c interface{}, bad []string) {
	r.Cases++
	r.Compared++
	r.Stats[kind]++
	if r.Cases%997 == 3 && len(r.Samples) < 3 {
		r.Samples = append(r.Samples, toJSON(c))
	}
	if len(bad) > 0 && len(r.Failures) < 50 {
		r.Failures = append(r.Failures, Failure{ID: id, Problems: bad, Case: toJSON(c), Expected: toJSON("")})
	}
}

func (r *result) write(out string) {
	f, err := os.Create(out)
	fatal(err)
	fatal(json.NewEncoder(f).Encode(r))
	fatal(f.Close())
}
