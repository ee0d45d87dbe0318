package main

import (
	"bytes"
	"encoding/json"
	"math/big"
	"strconv"
)

// The abstract syntax shared with the TLA+ modules (spec/*.tla).

// Rat is a rational number.
type Rat struct {
	N int64 `json:"n"`
	D int64 `json:"d"`
}

func rat(n, d int64) Rat {
	r := big.NewRat(n, d)
	return Rat{r.Num().Int64(), r.Denom().Int64()}
}

func (r Rat) f() float64 { return float64(r.N) / float64(r.D) }

func (r Rat) text() string { return strconv.FormatFloat(r.f(), 'g', -1, 64) }

// Lit is literal text with its readings as number and boolean.
type Lit struct {
	S     string `json:"s"`
	IsNum bool   `json:"isnum"`
	N     int64  `json:"n"`
	D     int64  `json:"d"`
	IsInt bool   `json:"isint"`
	B     string `json:"b"`
}

// Val is a row value: K is num, str, bool or nil; G the Go type of a number.
type Val struct {
	K     string `json:"k"`
	G     string `json:"g"`
	S     string `json:"s"`
	IsNum bool   `json:"isnum"`
	N     int64  `json:"n"`
	D     int64  `json:"d"`
	B     bool   `json:"b"`
}

// Row is a data row; TLC writes the empty one as [].
type Row map[string]Val

func (r *Row) UnmarshalJSON(data []byte) error {
	if bytes.HasPrefix(bytes.TrimSpace(data), []byte("[")) {
		*r = Row{}
		return nil
	}
	m := map[string]Val{}
	err := json.Unmarshal(data, &m)
	*r = m
	return err
}

// Cells is a table row.
type Cells map[string]Lit

func (r *Cells) UnmarshalJSON(data []byte) error {
	if bytes.HasPrefix(bytes.TrimSpace(data), []byte("[")) {
		*r = Cells{}
		return nil
	}
	m := map[string]Lit{}
	err := json.Unmarshal(data, &m)
	*r = m
	return err
}

type Pred struct {
	P     string `json:"p"`
	F     string `json:"f"`
	Op    string `json:"op"`
	V     *Lit   `json:"v,omitempty"`
	Items []Lit  `json:"items"`
	Ch    []Pred `json:"ch"`
}

type Dist struct {
	V    Lit   `json:"v"`
	RC   Rat   `json:"rc"`
	Prob []Rat `json:"prob"`
}

type Node struct {
	ID    string `json:"id"`
	DC    string `json:"dc"`
	Score Lit    `json:"score"`
	RC    Rat    `json:"rc"`
	Pred  Pred   `json:"pred"`
	Dist  []Dist `json:"dist"`
	Ch    []Node `json:"ch"`
}

type Pair struct {
	F   string `json:"f"`
	Col string `json:"col"`
}

type Expr struct {
	E      string  `json:"e"`
	F      string  `json:"f"`
	Type   string  `json:"type"`
	V      *Lit    `json:"v,omitempty"`
	Fn     string  `json:"fn"`
	Args   []Expr  `json:"args"`
	Pairs  []Pair  `json:"pairs"`
	OutCol string  `json:"outcol"`
	Def    []Lit   `json:"def"`
	Rows   []Cells `json:"rows"`
	Name   string  `json:"name,omitempty"`
}

type DField struct {
	Name string `json:"name"`
	Op   string `json:"op"`
	Type string `json:"type"`
	Expr Expr   `json:"expr"`
}

type SField struct {
	Name  string `json:"name"`
	Usage string `json:"usage"`
	Repl  []Lit  `json:"repl"`
}

type DataF struct {
	Name   string `json:"name"`
	Type   string `json:"type"`
	Values []Lit  `json:"values"`
}

type Num struct {
	Name string `json:"name"`
	Coef Rat    `json:"coef"`
	Exp  int    `json:"exp"`
}

type Cat struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	Coef  Rat    `json:"coef"`
}

type Table struct {
	Intercept Rat    `json:"intercept"`
	Cat       string `json:"cat"`
	Nums      []Num  `json:"nums"`
	Cats      []Cat  `json:"cats"`
	Terms     bool   `json:"terms"`
}

type Out struct {
	Name    string `json:"name"`
	Feature string `json:"feature"`
	Value   string `json:"value"`
}

type Target struct {
	Field  string `json:"field"`
	Factor []Rat  `json:"factor"`
	Const  []Rat  `json:"const"`
}

type Seg struct {
	ID     string  `json:"id"`
	Preds  []Pred  `json:"preds"`
	Models []Model `json:"models"`
}

type Model struct {
	Kind    string   `json:"kind"`
	Name    string   `json:"name,omitempty"` // element name of an unsupported kind
	Fn      string   `json:"fn"`
	Schema  []SField `json:"schema"`
	LT      []DField `json:"lt"`
	Strat   string   `json:"strat"`
	NTC     string   `json:"ntc"`
	Pen     []Rat    `json:"pen"`
	Root    *Node    `json:"root,omitempty"`
	Norm    string   `json:"norm"`
	Tables  []Table  `json:"tables"`
	Outs    []Out    `json:"outs"`
	Method  string   `json:"method"`
	Targets []Target `json:"targets"`
	Segs    []Seg    `json:"segs"`
}

type VField struct {
	Field string `json:"field"`
	Col   string `json:"col"`
	Pre   bool   `json:"pre"`
	Out   bool   `json:"out"`
}

type Verif struct {
	Fields []VField `json:"fields"`
	Rows   []Cells  `json:"rows"`
}

type Doc struct {
	DD    []DataF  `json:"dd"`
	TD    []DField `json:"td"`
	Model Model    `json:"model"`
	Ver   []Verif  `json:"ver"`
	Scale int      `json:"scale,omitempty"`
}

type Case struct {
	ID   string `json:"id"`
	Doc  Doc    `json:"doc"`
	Rows []Row  `json:"rows"`
}

// Sym is a symbolic number; OutVal an expected output; Outcome an expected result.
type Sym struct {
	X  string          `json:"x"`
	N  int64           `json:"n"`
	D  int64           `json:"d"`
	F  string          `json:"f"`
	I  int             `json:"i"`
	Ys []Rat           `json:"ys"`
	A  json.RawMessage `json:"a"`
	B  json.RawMessage `json:"b"`
}

type OutVal struct {
	O  string `json:"o"`
	E  *Sym   `json:"e"`
	Ls []Lit  `json:"ls"`
}

type Outs map[string]OutVal

func (r *Outs) UnmarshalJSON(data []byte) error {
	if bytes.HasPrefix(bytes.TrimSpace(data), []byte("[")) {
		*r = Outs{}
		return nil
	}
	m := map[string]OutVal{}
	err := json.Unmarshal(data, &m)
	*r = m
	return err
}

type Outcome struct {
	St  string `json:"st"`
	Out Outs   `json:"out"`
}

// Expected is what the specification prescribes; Early: the model may refuse to be built.

type Expected struct {
	ID     string    `json:"id"`
	Evals  []Outcome `json:"evals"`
	Verify string    `json:"verify"`
	Early  bool      `json:"early"`
}

// toJSON never writes null (TLC's reader has no value for it).
func toJSON(v interface{}) []byte {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	data = bytes.ReplaceAll(data, []byte(":null"), []byte(":[]"))
	return data
}
