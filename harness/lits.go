package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	tok "go/token"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A dictionary of constants for the generators: a value the library treats specially has to be written in
// its source somewhere. The constants of the tree under test steer some of the random inputs, those which
// the tree of literals.txt does not have more often than the others. They are inputs and nothing else: what
// must come out is the specification's business.

//go:embed literals.txt
var reference string

type dict struct {
	ints []int64 // whole numbers of any size
	nums []Rat   // small numbers, as the specification has them
	flts []float64
	strs []string
}

var dictAll, dictNew *dict

const module = "github.com/flukeish/pmml"

func sourceDir() string {
	bi, ok := debug.ReadBuildInfo()
	if !ok {
		return ""
	}
	for _, d := range bi.Deps {
		if d.Path == module && d.Replace != nil {
			return d.Replace.Path
		}
	}
	return ""
}

// literals counts the constants in the library's source.
func literals(dir string) map[string]int {
	out := map[string]int{}
	for _, pkg := range []string{"evaluation", "models"} {
		files, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
		for _, path := range files {
			if strings.HasSuffix(path, "_test.go") {
				continue
			}
			file, err := parser.ParseFile(tok.NewFileSet(), path, nil, 0)
			if err != nil {
				continue
			}
			var value func(e ast.Expr) constant.Value
			value = func(e ast.Expr) constant.Value {
				defer func() { recover() }()
				switch e := e.(type) {
				case *ast.BasicLit:
					return constant.MakeFromLiteral(e.Value, e.Kind, 0)
				case *ast.ParenExpr:
					return value(e.X)
				case *ast.BinaryExpr:
					x, y := value(e.X), value(e.Y)
					if x == nil || y == nil || x.Kind() == constant.Unknown || y.Kind() == constant.Unknown {
						return nil
					}
					switch e.Op {
					case tok.SHL, tok.SHR:
						if s, ok := constant.Uint64Val(y); ok && s < 100 {
							return constant.Shift(constant.ToInt(x), e.Op, uint(s))
						}
					case tok.ADD, tok.SUB, tok.MUL, tok.QUO:
						return constant.BinaryOp(x, e.Op, y)
					}
				}
				return nil
			}
			ast.Inspect(file, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.Field:
					if n.Tag != nil {
						n.Tag = nil
					}
				case *ast.SelectorExpr:
					if x, ok := n.X.(*ast.Ident); ok && x.Name == "math" {
						if v, ok := limits[n.Sel.Name]; ok {
							out["n "+v]++
						}
					}
				case *ast.BasicLit, *ast.BinaryExpr:
					if v := value(n.(ast.Expr)); v != nil {
						switch v.Kind() {
						case constant.Int, constant.Float:
							if b, ok := n.(*ast.BasicLit); ok && b.Kind == tok.CHAR {
								if r, ok := constant.Int64Val(v); ok {
									out["s "+strconv.Quote(string(rune(r)))]++
								}
								break
							}
							f, _ := constant.Float64Val(v)
							if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
								out["n "+fmt.Sprint(i)]++
							} else if !math.IsInf(f, 0) {
								out["n "+strconv.FormatFloat(f, 'g', -1, 64)]++
							}
						case constant.String:
							out["s "+strconv.Quote(constant.StringVal(v))]++
						}
					}
				}
				return true
			})
		}
	}
	return out
}

var limits = map[string]string{"MaxInt8": "127", "MaxUint8": "255", "MaxInt16": "32767", "MaxUint16": "65535", "MaxInt32": "2147483647", "MaxUint32": "4294967295",
	"MaxFloat32": "3.4028234663852886e+38", "SmallestNonzeroFloat64": "5e-324", "MaxInt64": "9223372036854775807"}

// writable in a document, and not a number the specification cannot hold
func usable(s string) bool {
	if len(s) > 40 || !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if !unicode.IsPrint(r) {
			return false
		}
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil || !finite(f) {
		r, ok := new(big.Rat).SetString(s)
		return !finite(f) || ok && small(r)
	}
	return true
}

func finite(f float64) bool { return f == f && !math.IsInf(f, 0) }

func small(r *big.Rat) bool {
	return r.Num().IsInt64() && r.Denom().IsInt64() && r.Num().Int64() <= 1000000 && r.Num().Int64() >= -1000000 && r.Denom().Int64() <= 1000000
}

func (d *dict) add(key string) {
	if key[0] == 's' {
		s, err := strconv.Unquote(key[2:])
		if err == nil && usable(s) {
			d.strs = append(d.strs, s)
			if t := strings.TrimSpace(s); t != s {
				d.strs = append(d.strs, t)
			}
			for _, t := range strings.Fields(s) {
				if t != s {
					d.strs = append(d.strs, t)
				}
			}
		}
		return
	}
	f, err := strconv.ParseFloat(key[2:], 64)
	if err != nil {
		return
	}
	d.flts = append(d.flts, f)
	if i, err := strconv.ParseInt(key[2:], 10, 64); err == nil {
		d.ints = append(d.ints, i)
	}
	if r := new(big.Rat).SetFloat64(f); f == 0 || small(r) {
		d.nums = append(d.nums, rat(r.Num().Int64(), r.Denom().Int64()))
	} else if r, ok := new(big.Rat).SetString(key[2:]); ok && small(r) {
		d.nums = append(d.nums, rat(r.Num().Int64(), r.Denom().Int64()))
	}
}

func loadDict() {
	dictAll, dictNew = &dict{}, &dict{}
	now := literals(sourceDir())
	was := map[string]int{}
	for _, line := range strings.Split(reference, "\n") {
		if k := strings.IndexByte(line, ' '); k > 0 {
			was[line[k+1:]], _ = strconv.Atoi(line[:k])
		}
	}
	keys := []string{}
	for k := range now {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		dictAll.add(k)
		if now[k] > was[k] && (was[k] == 0 || k != "n 0" && k != "n 1" && k != `s ""`) {
			dictNew.add(k)
		}
	}
}

func writeLiterals(out string) {
	keys := []string{}
	now := literals(sourceDir())
	for k := range now {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	f, err := os.Create(out)
	fatal(err)
	for _, k := range keys {
		fmt.Fprintln(f, now[k], k)
	}
	fatal(f.Close())
}

// --- drawing from it -----------------------------------------------------------

// steer lets some of the cases use the dictionary.
func (g *G) steer() {
	if len(dictNew.ints)+len(dictNew.flts)+len(dictNew.strs) > 0 && g.p(0.3) {
		g.lits = dictNew
	} else if g.p(0.06) {
		g.lits = dictAll
	}
	if g.lits == nil {
		return
	}
	if n, ok := g.dictInt(); ok && g.p(0.3) && n > 2 {
		n += int64(g.n(4) - 1)
		switch {
		case n > 600:
		case n > many:
			g.wide, g.huge = true, int(n)
		case g.p(0.3):
			g.deep = int(n)
		default:
			g.exactly = int(n)
		}
	}
}

func (g *G) dictInt() (int64, bool) {
	if g.lits == nil || len(g.lits.ints) == 0 {
		return 0, false
	}
	return g.lits.ints[g.n(len(g.lits.ints))], true
}

// dictNum is a number about one of the dictionary.
func (g *G) dictNum() (Rat, bool) {
	if g.lits == nil || len(g.lits.nums) == 0 || !g.p(0.4) {
		return Rat{}, false
	}
	r := g.lits.nums[g.n(len(g.lits.nums))]
	if !g.plain && (r.D&(r.D-1) != 0 && (g.exact || !g.decimals) || r.N > 1000 || r.N < -1000 || r.D > 64) {
		return Rat{}, false // there is arithmetic to be done
	}
	switch g.n(7) {
	case 0:
		r = rat(r.N+r.D, r.D)
	case 1:
		r = rat(r.N-r.D, r.D)
	case 2:
		r = rat(-r.N, r.D)
	case 3:
		r = rat(2*r.N+r.D, 2*r.D)
	case 4:
		r = rat(2*r.N-r.D, 2*r.D)
	}
	return r, true
}

func (g *G) dictWhole() (Rat, bool) {
	for try := 0; try < 3; try++ {
		if r, ok := g.dictNum(); ok && r.D == 1 {
			return r, true
		}
	}
	return Rat{}, false
}

// dictStr is one of the dictionary's texts, or one made from it.
func (g *G) dictStr() (string, bool) {
	if g.lits == nil || len(g.lits.strs) == 0 || !g.p(0.4) {
		return "", false
	}
	s := g.lits.strs[g.n(len(g.lits.strs))]
	if g.p(0.4) {
		t := s
		switch g.n(9) {
		case 0:
			t = "a" + s
		case 1:
			t = s + "a"
		case 2:
			t = "a" + s + "b"
		case 3:
			t = strings.ToUpper(s)
		case 4:
			t = strings.ToLower(s)
		case 5:
			t = s + s
		case 6:
			t = s + "1"
		case 7:
			t = "1" + s
		case 8:
			t = s + " "
		}
		if usable(t) {
			s = t
		}
	}
	return s, true
}

// textNear puts a text of the dictionary in place of another.
func (g *G) textNear(s string) string {
	if t, ok := g.dictStr(); ok {
		if f, err := strconv.ParseFloat(t, 64); err != nil || finite(f) {
			return t
		}
	}
	return s
}

// nearNumber is a text that is almost a number.
func (g *G) nearNumber() string {
	if g.lits != nil && len(g.lits.strs) > 0 && g.p(0.6) {
		s := g.lits.strs[g.n(len(g.lits.strs))]
		s = g.pick("", "4", "1.5", "-2") + s + g.pick("", "", "4", "0.5")
		if f, err := strconv.ParseFloat(s, 64); usable(s) && (err != nil || finite(f)) {
			return s
		}
	}
	return g.pick(nearNumbers...)
}
