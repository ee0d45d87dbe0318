package main

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"

	"github.com/flukeish/pmml/models"
)

type Attr struct {
	X   string `json:"x"`
	Go  string `json:"go"`
	K   string `json:"k"`
	Ptr bool   `json:"ptr"`
	Own string `json:"own"`
	Has bool   `json:"has"`
}
type Kid struct {
	X    string `json:"x"`
	T    string `json:"t"`
	Slot string `json:"slot"`
	Mult string `json:"mult"` // many, ptr, value, iface, ifaces
}
type Type struct {
	Attrs []Attr `json:"attrs"`
	Kids  []Kid  `json:"kids"`
	Text  string `json:"text"` // field keeping text
	Any   bool   `json:"any"`
	Inner string `json:"inner"`
}

var names = []string{}
var schema = map[string]*Type{}
var unsup = []string{}

var ifaces = map[reflect.Type]func(string) (interface{}, bool){
	reflect.TypeOf((*models.Expression)(nil)).Elem():   func(n string) (interface{}, bool) { return wrap(models.GetExpression(n)) },
	reflect.TypeOf((*models.Predicate)(nil)).Elem():    func(n string) (interface{}, bool) { return wrap(models.GetPredicate(n)) },
	reflect.TypeOf((*models.ModelElement)(nil)).Elem(): func(n string) (interface{}, bool) { return wrap(models.GetModelElement(n)) },
	reflect.TypeOf((*models.EmbeddedModel)(nil)).Elem(): func(n string) (interface{}, bool) { return wrap(models.GetEmbeddedModel(n)) },
	reflect.TypeOf((*models.Table)(nil)).Elem():         func(n string) (interface{}, bool) { return wrap(models.GetTable(n)) },
	reflect.TypeOf((*models.ContinuousDistributionType)(nil)).Elem(): func(n string) (interface{}, bool) {
		return wrap(models.GetContinuousDistributionType(n))
	},
}

func wrap[T any](v T, ok bool) (interface{}, bool) { return v, ok }

func kind(t reflect.Type) string {
	switch t.Kind() {
	case reflect.String:
		return "text"
	case reflect.Float64, reflect.Float32:
		return "num"
	case reflect.Int, reflect.Int64, reflect.Int32:
		return "int"
	case reflect.Uint:
		return "uint"
	case reflect.Bool:
		return "bool"
	}
	return ""
}

func visit(t reflect.Type) {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if _, ok := schema[t.Name()]; ok {
		return
	}
	ty := &Type{Attrs: []Attr{}, Kids: []Kid{}}
	schema[t.Name()] = ty
	if t.Name() == "Row" {
		ty.Any = true
		return
	}
	if t.Kind() != reflect.Struct {
		unsup = append(unsup, "non-struct "+t.String())
		return
	}
	_, custom := reflect.PointerTo(t).MethodByName("UnmarshalXML")
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Anonymous {
			if f.Anonymous {
				unsup = append(unsup, "anonymous "+t.Name()+"."+f.Name)
			}
			continue
		}
		tag := f.Tag.Get("xml")
		parts := strings.Split(tag, ",")
		name := parts[0]
		has := func(o string) bool {
			for _, p := range parts[1:] {
				if p == o {
					return true
				}
			}
			return false
		}
		if name == "-" {
			continue
		}
		if has("chardata") {
			ty.Text = f.Name
			continue
		}
		if has("innerxml") {
			ty.Inner = f.Name
			continue
		}
		if has("attr") {
			ft, ptr := f.Type, false
			if ft.Kind() == reflect.Ptr {
				ft, ptr = ft.Elem(), true
			}
			k := kind(ft)
			if k == "" {
				unsup = append(unsup, "attr kind "+t.Name()+"."+f.Name+" "+f.Type.String())
				continue
			}
			ty.Attrs = append(ty.Attrs, Attr{X: name, Go: f.Name, K: k, Ptr: ptr})
			continue
		}
		ft, mult := f.Type, "value"
		if ft.Kind() == reflect.Slice && ft.Name() == "" {
			ft, mult = ft.Elem(), "many"
		} else if ft.Kind() == reflect.Ptr {
			ft, mult = ft.Elem(), "ptr"
		}
		if get, ok := ifaces[ft]; ok {
			m := "iface"
			if mult == "many" {
				m = "ifaces"
			}
			if !custom {
				unsup = append(unsup, "interface in plain type "+t.Name()+"."+f.Name)
				continue
			}
			for _, n := range names {
				if v, ok := get(n); ok {
					ty.Kids = append(ty.Kids, Kid{n, reflect.TypeOf(v).Elem().Name(), f.Name, m})
					visit(reflect.TypeOf(v))
				}
			}
			continue
		}
		if name == "" {
			name = f.Name
			if tag == "" && custom && (mult == "many" && t.Name() == "InlineTable") {
				name = "row"
			}
		}
		if ft.Kind() == reflect.Map || ft.Kind() == reflect.Struct {
			ty.Kids = append(ty.Kids, Kid{name, ft.Name(), f.Name, mult})
			visit(ft)
			continue
		}
		unsup = append(unsup, fmt.Sprintf("field %s.%s %s `%s`", t.Name(), f.Name, f.Type, f.Tag))
	}
}

func show(v reflect.Value) (string, bool) {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "", false
		}
		v = v.Elem()
	}
	return fmt.Sprint(v.Interface()), true
}

func main() {
	for _, l := range strings.Fields(os.Args[1]) {
		names = append(names, l)
	}
	for _, t := range registry {
		visit(t)
	}
	types := map[string]reflect.Type{}
	for _, t := range registry {
		collect(t, types)
	}
	keys := []string{}
	for k := range schema {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	val := map[string]string{"text": "some", "num": "0.625", "int": "7", "uint": "7", "bool": "true"}
	for _, k := range keys {
		ty := schema[k]
		t := types[k]
		if t == nil {
			fmt.Fprintln(os.Stderr, "no type", k)
			continue
		}
		if t.Kind() != reflect.Struct {
			continue
		}
		kept := []Attr{}
		for _, a := range ty.Attrs {
			v := reflect.New(t)
			if err := xml.Unmarshal([]byte("<e/>"), v.Interface()); err != nil {
				fmt.Fprintln(os.Stderr, "empty", k, err)
			}
			a.Own, a.Has = show(v.Elem().FieldByName(a.Go))
			w := val[a.K]
			if k == "ChildParent" && a.X == "isRecursive" {
				w = "yes"
			}
			v = reflect.New(t)
			if err := xml.Unmarshal([]byte(fmt.Sprintf(`<e %s="%s"/>`, a.X, w)), v.Interface()); err != nil {
				fmt.Fprintln(os.Stderr, "attr", k, a.X, err)
			}
			if s, _ := show(v.Elem().FieldByName(a.Go)); s != val[a.K] {
				fmt.Fprintln(os.Stderr, "not kept", k, a.X, s)
				continue
			}
			kept = append(kept, a)
		}
		ty.Attrs = kept
		kk := []Kid{}
		for _, c := range ty.Kids {
			v := reflect.New(t)
			if err := xml.Unmarshal([]byte(fmt.Sprintf(`<e><%s/></e>`, c.X)), v.Interface()); err != nil {
				fmt.Fprintln(os.Stderr, "kid", k, c.X, err)
			}
			f := v.Elem().FieldByName(c.Slot)
			if c.Mult != "value" && (f.IsNil() || ((c.Mult == "many" || c.Mult == "ifaces") && f.Len() != 1)) {
				fmt.Fprintln(os.Stderr, "kid not kept", k, c.X)
				continue
			}
			kk = append(kk, c)
		}
		ty.Kids = kk
	}
	for _, u := range unsup {
		fmt.Fprintln(os.Stderr, u)
	}
	b, _ := json.MarshalIndent(schema, "", " ")
	os.WriteFile("schema.json", b, 0o644)
	na, nk := 0, 0
	for _, t := range schema {
		na += len(t.Attrs)
		nk += len(t.Kids)
	}
	fmt.Println(len(schema), "types", na, "attrs", nk, "kids")
}

func collect(t reflect.Type, out map[string]reflect.Type) {
	for t.Kind() == reflect.Ptr || (t.Kind() == reflect.Slice && t.Name() == "") {
		t = t.Elem()
	}
	if t.PkgPath() != "github.com/flukeish/pmml/models" {
		return
	}
	if t.Kind() == reflect.Interface {
		if get, ok := ifaces[t]; ok {
			for _, n := range names {
				if v, ok := get(n); ok {
					collect(reflect.TypeOf(v), out)
				}
			}
		}
		return
	}
	if _, ok := out[t.Name()]; ok {
		return
	}
	out[t.Name()] = t
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			collect(t.Field(i).Type, out)
		}
	}
}
