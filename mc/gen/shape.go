package gen

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"sort"
	"strconv"
	"strings"

	"reflect"
)

// Shape is what a generated Go file declares, as far as the two generators
// are comparable.
type Shape struct {
	Pkg     string
	Imports map[string]string // name used in the file -> path
	Structs map[string]*Struct
	Ifaces  map[string][]string
	Ints    map[string]bool // named int32 types
	Consts  map[string]Const
	Maps    map[string][]string // map variables: "key: value" lines in order
	Methods map[string]map[string]string
	Order   []string // struct names in order of declaration
}

type Const struct{ Type, Val string }

type Struct struct {
	Name   string
	Fields []StructField
}

type StructField struct {
	Name, Type string
	Tag        reflect.StructTag
}

func (s *Struct) field(name string) *StructField {
	for i := range s.Fields {
		if s.Fields[i].Name == name {
			return &s.Fields[i]
		}
	}
	return nil
}

func parseShape(name, src string) (*Shape, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	s := &Shape{Pkg: f.Name.Name, Imports: map[string]string{}, Structs: map[string]*Struct{}, Ifaces: map[string][]string{},
		Ints: map[string]bool{}, Consts: map[string]Const{}, Maps: map[string][]string{}, Methods: map[string]map[string]string{}}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := path.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		s.Imports[n] = p
	}
	dup := func(n string) error { return fmt.Errorf("%s declared twice", n) }
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil {
				continue
			}
			r := d.Recv.List[0].Type
			ptr := ""
			if st, ok := r.(*ast.StarExpr); ok {
				r, ptr = st.X, "*"
			}
			rn := s.expr(r)
			if s.Methods[rn] == nil {
				s.Methods[rn] = map[string]string{}
			}
			if _, ok := s.Methods[rn][d.Name.Name]; ok {
				return nil, dup(rn + "." + d.Name.Name)
			}
			s.Methods[rn][d.Name.Name] = ptr + s.sig(d.Type)
		case *ast.GenDecl:
			for _, sp := range d.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					n := sp.Name.Name
					if s.Structs[n] != nil || s.Ints[n] || s.Ifaces[n] != nil {
						return nil, dup(n)
					}
					switch t := sp.Type.(type) {
					case *ast.StructType:
						st := &Struct{Name: n}
						for _, fl := range t.Fields.List {
							tag := ""
							if fl.Tag != nil {
								tag, err = strconv.Unquote(fl.Tag.Value)
								if err != nil {
									return nil, fmt.Errorf("tag %s: %v", fl.Tag.Value, err)
								}
							}
							for _, fn := range fl.Names {
								st.Fields = append(st.Fields, StructField{Name: fn.Name, Type: s.expr(fl.Type), Tag: reflect.StructTag(tag)})
							}
						}
						s.Structs[n] = st
						s.Order = append(s.Order, n)
					case *ast.InterfaceType:
						ms := []string{""}
						for _, m := range t.Methods.List {
							for _, mn := range m.Names {
								ms = append(ms, mn.Name)
							}
						}
						s.Ifaces[n] = ms
					default:
						if s.expr(sp.Type) == "int32" {
							s.Ints[n] = true
						}
					}
				case *ast.ValueSpec:
					for i, n := range sp.Names {
						if n.Name == "_" || i >= len(sp.Values) {
							continue
						}
						if d.Tok == token.CONST {
							if _, ok := s.Consts[n.Name]; ok {
								return nil, dup(n.Name)
							}
							c := Const{Val: s.expr(sp.Values[i])}
							if sp.Type != nil {
								c.Type = s.expr(sp.Type)
							}
							s.Consts[n.Name] = c
							continue
						}
						if cl, ok := sp.Values[i].(*ast.CompositeLit); ok {
							if _, ok := cl.Type.(*ast.MapType); ok {
								var kv []string
								for _, e := range cl.Elts {
									k := e.(*ast.KeyValueExpr)
									kv = append(kv, s.expr(k.Key)+": "+s.expr(k.Value))
								}
								s.Maps[n.Name] = kv
							}
						}
					}
				}
			}
		}
	}
	return s, nil
}

func (s *Shape) sig(t *ast.FuncType) string {
	var ps, rs []string
	each := func(l *ast.FieldList, out *[]string) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for ; n > 0; n-- {
				*out = append(*out, s.expr(f.Type))
			}
		}
	}
	each(t.Params, &ps)
	each(t.Results, &rs)
	return "(" + strings.Join(ps, ", ") + ") (" + strings.Join(rs, ", ") + ")"
}

// expr renders an expression with imported names qualified by import path.
func (s *Shape) expr(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.StarExpr:
		return "*" + s.expr(e.X)
	case *ast.ParenExpr:
		return s.expr(e.X)
	case *ast.ArrayType:
		return "[]" + s.expr(e.Elt)
	case *ast.MapType:
		return "map[" + s.expr(e.Key) + "]" + s.expr(e.Value)
	case *ast.InterfaceType:
		return "interface"
	case *ast.SelectorExpr:
		x := s.expr(e.X)
		if p, ok := s.Imports[x]; ok {
			x = strconv.Quote(p)
		}
		return x + "." + e.Sel.Name
	case *ast.BasicLit:
		if e.Kind == token.STRING {
			if v, err := strconv.Unquote(e.Value); err == nil {
				return strconv.Quote(v)
			}
		}
		return e.Value
	case *ast.UnaryExpr:
		return e.Op.String() + s.expr(e.X)
	}
	return fmt.Sprintf("%T", e)
}

// Tag is the part of a protobuf struct tag that decides the encoding.
type Tag struct {
	Wire, Card, Name string
	Num              int
	Packed, Oneof    bool
	Bad              string
}

func parseTag(s string) Tag {
	var t Tag
	if s == "" {
		t.Bad = "no tag"
		return t
	}
	for i, p := range strings.Split(s, ",") {
		switch {
		case i == 0:
			t.Wire = p
		case i == 1:
			n, err := strconv.Atoi(p)
			if err != nil {
				t.Bad = "number " + p
			}
			t.Num = n
		case p == "opt", p == "rep", p == "req":
			t.Card = p
		case p == "packed":
			t.Packed = true
		case p == "oneof":
			t.Oneof = true
		case strings.HasPrefix(p, "name="):
			t.Name = p[5:]
		case strings.HasPrefix(p, "def="):
			return t
		}
	}
	return t
}

func keys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// internal reports struct types and fields the official generator keeps for itself.
func internalField(f StructField) bool {
	switch f.Name {
	case "state", "sizeCache", "unknownFields", "weakFields", "extensionFields":
		return true
	}
	return false
}

// diffShapes compares what prutalgen declares with what the official
// generator declares and calls bad for each difference. aspects selects:
// 'n' names (types, fields, constants), 't' Go types, tags, 'g' getters.
func diffShapes(got, want *Shape, aspects string, bad func(key, f string, a ...any)) (compared int) {
	names := strings.Contains(aspects, "n")
	types := strings.Contains(aspects, "t")
	getters := strings.Contains(aspects, "g")
	if names && got.Pkg != want.Pkg {
		bad("package-name", "package %s, official %s", got.Pkg, want.Pkg)
	}
	for _, n := range keys(want.Structs) {
		w := want.Structs[n]
		g := got.Structs[n]
		compared++
		if g == nil {
			bad("missing-type", "type %s is not generated (have %v)", n, keys(got.Structs))
			continue
		}
		gm := map[string]bool{}
		for _, f := range g.Fields {
			gm[f.Name] = true
		}
		for _, wf := range w.Fields {
			if internalField(wf) {
				continue
			}
			compared++
			gf := g.field(wf.Name)
			if gf == nil {
				// the same field under another name?
				wt := parseTag(wf.Tag.Get("protobuf"))
				for i := range g.Fields {
					if x := &g.Fields[i]; parseTag(x.Tag.Get("protobuf")).Num == wt.Num && x.Tag.Get("protobuf_oneof") == wf.Tag.Get("protobuf_oneof") {
						gf = x
					}
				}
				if gf == nil {
					bad("missing-field", "%s.%s is not generated", n, wf.Name)
					continue
				}
				delete(gm, gf.Name)
				if names {
					bad("field-name", "%s: field %s, official name %s", n, gf.Name, wf.Name)
				}
			}
			delete(gm, wf.Name)
			if !types {
				continue
			}
			if gf.Type != wf.Type {
				bad("go-type", "%s.%s has type %s, official %s", n, wf.Name, gf.Type, wf.Type)
			}
			if w, g := wf.Tag.Get("protobuf_oneof"), gf.Tag.Get("protobuf_oneof"); w != g {
				bad("oneof-tag", "%s.%s protobuf_oneof %q, official %q", n, wf.Name, g, w)
			}
			for _, k := range []string{"protobuf", "protobuf_key", "protobuf_val"} {
				ws, ok := wf.Tag.Lookup(k)
				gs, gok := gf.Tag.Lookup(k)
				if ok != gok {
					bad("tag-"+k, "%s.%s %s tag %q, official %q", n, wf.Name, k, gs, ws)
					continue
				}
				if !ok {
					continue
				}
				wt, gt := parseTag(ws), parseTag(gs)
				// "oneof" in the official tag of a proto3 optional field or a
				// wrapper's field carries no encoding information
				wt.Oneof, gt.Oneof = false, false
				if wt != gt {
					bad("tag-"+k, "%s.%s %s tag %q, official %q", n, wf.Name, k, gs, ws)
				}
			}
		}
		for _, f := range keys(gm) {
			if g.field(f).Name == "unknownFields" {
				continue
			}
			bad("extra-field", "%s.%s is generated, but not declared", n, f)
		}
	}
	for _, n := range keys(got.Structs) {
		if want.Structs[n] == nil {
			bad("extra-type", "type %s is generated, the official generator has %v", n, keys(want.Structs))
		}
	}
	for _, n := range keys(want.Ints) {
		compared++
		if !got.Ints[n] {
			bad("missing-enum", "enum type %s is not generated (have %v)", n, keys(got.Ints))
		}
	}
	for _, n := range keys(got.Ints) {
		if !want.Ints[n] {
			bad("extra-enum", "enum type %s is generated, the official generator has %v", n, keys(want.Ints))
		}
	}
	for _, n := range keys(want.Ifaces) {
		compared++
		if names && got.Ifaces[n] == nil {
			bad("missing-interface", "interface %s is not generated (have %v)", n, keys(got.Ifaces))
		}
	}
	for _, n := range keys(want.Consts) {
		w := want.Consts[n]
		if w.Type == "" {
			continue // not an enum value
		}
		if !want.Ints[w.Type] {
			continue // a default value
		}
		compared++
		g, ok := got.Consts[n]
		if !ok {
			bad("missing-const", "constant %s is not generated (have %v)", n, keys(got.Consts))
			continue
		}
		if g != w {
			bad("const", "constant %s is %v, official %v", n, g, w)
		}
	}
	for _, n := range keys(got.Consts) {
		if _, ok := want.Consts[n]; !ok {
			bad("extra-const", "constant %s is generated, the official generator has %v", n, keys(want.Consts))
		}
	}
	if types || getters {
		for _, n := range keys(want.Maps) {
			if !strings.HasSuffix(n, "_name") && !strings.HasSuffix(n, "_value") {
				continue
			}
			compared++
			g, w := append([]string{}, got.Maps[n]...), append([]string{}, want.Maps[n]...)
			sort.Strings(g)
			sort.Strings(w)
			if strings.Join(g, "\n") != strings.Join(w, "\n") {
				bad("enum-map", "map %s is %v, official %v", n, g, w)
			}
		}
	}
	if getters {
		for _, n := range keys(want.Methods) {
			if want.Structs[n] == nil {
				continue
			}
			for _, m := range keys(want.Methods[n]) {
				if !strings.HasPrefix(m, "Get") && m != "Reset" {
					continue
				}
				compared++
				g, ok := got.Methods[n][m]
				if !ok {
					bad("missing-getter", "method %s.%s is not generated (have %v)", n, m, keys(got.Methods[n]))
				} else if w := want.Methods[n][m]; g != w {
					bad("getter-type", "method %s.%s is %s, official %s", n, m, g, w)
				}
			}
			for _, m := range keys(got.Methods[n]) {
				if strings.HasPrefix(m, "Get") && want.Methods[n][m] == "" {
					bad("extra-getter", "method %s.%s is generated, the official generator has %v", n, m, keys(want.Methods[n]))
				}
			}
		}
	}
	return
}
