package gen

import (
	"fmt"
	"strings"
)

// ---- nesting: every tree of nested messages with and without enums

type tree struct {
	enum bool
	kids []*tree
}

func trees(depth, width int) []*tree {
	var subs []*tree
	if depth > 0 {
		subs = trees(depth-1, 2)
	}
	lists := [][]*tree{nil}
	for _, a := range subs {
		lists = append(lists, []*tree{a})
		if width > 1 {
			for _, b := range subs {
				lists = append(lists, []*tree{a, b})
			}
		}
	}
	var out []*tree
	for _, l := range lists {
		out = append(out, &tree{false, l}, &tree{true, l})
	}
	return out
}

func (t *tree) build(name, full string, all *[]string) *Msg {
	m := &Msg{Name: name}
	*all = append(*all, full)
	if t.enum {
		m.Enums = append(m.Enums, &Enum{Name: "E" + name, Vals: []EnumVal{{"ZERO_" + name, "0", ""}, {"ONE_" + name, "1", ""}}})
		*all = append(*all, full+".E"+name)
	}
	for i, k := range t.kids {
		n := fmt.Sprintf("%s%c", name, 'a'+i)
		m.Msgs = append(m.Msgs, k.build(n, full+"."+n, all))
	}
	return m
}

func (m *Msg) each(f func(*Msg)) {
	f(m)
	for _, n := range m.Msgs {
		n.each(f)
	}
}

func srcTrees() schemaSpace {
	ts := append(trees(2, 2), trees(3, 1)...)
	sy := []string{"proto2", "proto3", "2023"}
	pk := []string{"", "p.q"}
	r := []int{len(sy), len(pk), len(ts)}
	return schemaSpace{name: "nesting", n: product(r...), opts: GenOpts{Getter: true}, make: func(i int64) *Schema {
		d := digits(i, r...)
		f := &File{Name: "dir/tree.proto", Syntax: sy[d[0]], Pkg: pk[d[1]], GoPkg: "x.y/dir/tree"}
		var all []string
		root := ts[d[2]].build("M", "M", &all)
		f.Msgs = []*Msg{root}
		f.Enums = []*Enum{{Name: "Top", Vals: []EnumVal{{"TOP", "0", ""}}}}
		k := 0
		root.each(func(m *Msg) {
			for j := 0; j < 3; j++ {
				t := all[(k*3+j)%len(all)]
				if f.Pkg != "" && j == 1 {
					t = "." + f.Pkg + "." + t
				}
				l := "repeated"
				if j != 0 {
					l = ""
					if f.Syntax == "proto2" {
						l = "optional"
					}
				}
				m.Fields = append(m.Fields, Field{Label: l, Type: t, Name: fmt.Sprintf("f%d", j), Num: j + 1})
			}
			k++
		})
		return &Schema{Files: []*File{f}}
	}}
}

// ---- imports: what the imported files' Go packages are called

var goPkgs = []string{"x.y/p", "x.y/q", "z.w/q", "x.y/q;qq", "x.y/strconv", "x.y/my-pkg", "x.y/type", "x.y/v2", "x.y/p.v1", "x.y/a;p", "x.y/string", "x.y/q;q", "x.y/1st", "x.y/z;strconv", "x.y/z;my-pkg", "x.y/Up", "x.y/fmt"}

func srcImports() schemaSpace {
	pk := []string{"", "pa", "pa.pb", "pc"}
	r := []int{2, 3, 4, len(goPkgs), len(goPkgs), 3}
	return schemaSpace{name: "imports", n: product(r...), opts: GenOpts{Getter: true}, make: func(i int64) *Schema {
		d := digits(i, r...)
		root := &File{Name: "a.proto", Syntax: []string{"proto2", "proto3"}[d[0]], Pkg: "pa", GoPkg: []string{"x.y/p", "x.y/go-p", "x.y/root;rt"}[d[1]]}
		s := &Schema{Files: []*File{root}}
		m := &Msg{Name: "M"}
		root.Msgs = []*Msg{m}
		if d[5] > 0 {
			root.Enums = []*Enum{{Name: "Own", Vals: []EnumVal{{"OWN", "0", ""}}}}
		}
		for k := 0; k < 2; k++ {
			f := &File{Name: fmt.Sprintf("dir%d/dep%d.proto", k, k), Syntax: "proto3", Pkg: pk[(d[2]+k)%4], GoPkg: goPkgs[d[3+k]]}
			f.Msgs = []*Msg{{Name: fmt.Sprintf("T%d", k), Fields: []Field{{Type: "int32", Name: "v", Num: 1}}}}
			f.Enums = []*Enum{{Name: fmt.Sprintf("E%d", k), Vals: []EnumVal{{fmt.Sprintf("Z%d", k), "0", ""}}}}
			s.Files = append(s.Files, f)
			root.Imports = append(root.Imports, Import{Path: f.Name})
			q := "."
			if f.Pkg != "" {
				q = "." + f.Pkg + "."
			}
			if d[5] == 2 && k == 1 {
				continue // imported, not used
			}
			m.Fields = append(m.Fields,
				Field{Label: "repeated", Type: q + f.Msgs[0].Name, Name: fmt.Sprintf("m%d", k), Num: 10*k + 1},
				Field{Label: "optional", Type: q + f.Enums[0].Name, Name: fmt.Sprintf("e%d", k), Num: 10*k + 2},
				Field{Key: "string", Type: q + f.Enums[0].Name, Name: fmt.Sprintf("x%d", k), Num: 10*k + 3},
				Field{Oneof: fmt.Sprintf("o%d", k), Type: q + f.Msgs[0].Name, Name: fmt.Sprintf("om%d", k), Num: 10*k + 4},
				Field{Oneof: fmt.Sprintf("o%d", k), Type: q + f.Enums[0].Name, Name: fmt.Sprintf("oe%d", k), Num: 10*k + 5})
		}
		return s
	}}
}

// ---- comments in every place

var comments = []string{"// plain", "// 100%d of %s", "/* block */", "/* two\n lines */", "// with `backtick`", "//", "/**/", "// }", "/* // */", "//prutalgen:", "//\tтекст ✓", "// a\n// b", "/* a */ /* b */", "// trailing \\", "/* %!s */"}

func srcComments() schemaSpace {
	places := []string{"file", "enum", "enum-tail", "enum-value", "enum-value-tail", "message", "message-tail", "field", "field-tail", "oneof", "oneof-field", "oneof-field-tail", "nested", "map", "end", "between"}
	r := []int{len(comments), len(places), len(comments), len(places)}
	return schemaSpace{name: "comments", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		at := map[string]string{}
		add := func(p int, s string) {
			if x := at[places[p]]; x != "" {
				s = x + "\n" + s
			}
			at[places[p]] = s
		}
		add(d[1], comments[d[0]])
		add(d[3], comments[d[2]])
		nl := func(p string) string { // on a line of its own
			if at[p] == "" {
				return ""
			}
			return at[p] + "\n"
		}
		tail := func(p string) string {
			if at[p] == "" {
				return "\n"
			}
			return " " + at[p] + "\n"
		}
		text := nl("file") + "syntax = \"proto3\";\npackage p;\noption go_package = \"x.y/p\";\n\n" +
			nl("enum") + "enum E {\n" + nl("enum-value") + "  A = 0;" + tail("enum-value-tail") + "}" + tail("enum-tail") + nl("between") +
			nl("message") + "message M {\n" + nl("field") + "  int32 f = 1;" + tail("field-tail") + nl("oneof") + "  oneof o {\n" + nl("oneof-field") +
			"    E e = 2;" + tail("oneof-field-tail") + "  }\n" + nl("map") + "  map<string, M> mm = 3;\n" + nl("nested") + "  message N { }\n}" + tail("message-tail") + nl("end")
		return &Schema{Files: []*File{{Name: "a.proto", Verbatim: text}}}
	}}
}

var _ = strings.Join
