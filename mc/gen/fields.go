package gen

import (
	"fmt"
	"path"
	"strings"

	"verif/mc/core"
)

// digits splits i into digits of the given radices, the first slowest.
func digits(i int64, radix ...int) []int {
	out := make([]int, len(radix))
	for k := len(radix) - 1; k >= 0; k-- {
		out[k] = int(i % int64(radix[k]))
		i /= int64(radix[k])
	}
	return out
}

func product(radix ...int) int64 {
	n := int64(1)
	for _, r := range radix {
		n *= int64(r)
	}
	return n
}

var scalars = []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
var keyTypes = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"}

// named types of the test world: local, nested, self, imported, well known
var namedTypes = []string{"E", "N", "N.NE", "M", "other.Ext", "other.ExtE", "other.Ext.Deep", "google.protobuf.Timestamp"}

var allTypes = append(append([]string{}, scalars...), namedTypes...)

func otherFile() *File {
	return &File{Name: "other.proto", Syntax: "proto3", Pkg: "other", GoPkg: "x.y/oth",
		Enums: []*Enum{{Name: "ExtE", Vals: []EnumVal{{"X0", "0", ""}, {"X1", "1", ""}}}},
		Msgs: []*Msg{{Name: "Ext", Fields: []Field{{Type: "int32", Name: "v", Num: 1}},
			Msgs: []*Msg{{Name: "Deep", Fields: []Field{{Type: "bool", Name: "w", Num: 1}}}}}}}
}

// baseFile is a file with the named types; the caller adds fields to Msgs[0].
func baseFile(syntax string) *File {
	f := &File{Name: "a.proto", Syntax: syntax, Pkg: "pk.sub", GoPkg: "x.y/p",
		Enums: []*Enum{{Name: "E", Vals: []EnumVal{{"A", "0", ""}, {"B", "1", ""}}}},
		Msgs: []*Msg{{Name: "M"},
			{Name: "N", Fields: nil, Enums: []*Enum{{Name: "NE", Vals: []EnumVal{{"P", "0", ""}, {"Q", "-5", ""}}}}}}}
	return f
}

func schemaFor(f *File, types ...string) *Schema {
	s := &Schema{Files: []*File{f}}
	oth, ts := false, false
	for _, t := range types {
		if strings.HasPrefix(t, "other.") && !oth {
			oth = true
			f.Imports = append(f.Imports, Import{Path: "other.proto"})
			s.Files = append(s.Files, otherFile())
		}
		if strings.HasPrefix(t, "google.protobuf.Timestamp") && !ts {
			ts = true
			f.Imports = append(f.Imports, Import{Path: "google/protobuf/timestamp.proto"})
		}
	}
	return s
}

var syntaxes = []string{"", "proto2", "proto3", "2023"}

var numbers = []int{1, 15, 16, 2047, 2048, 18999, 20000, 536870911}

// file-level options; those after the first are for editions
var fileFeat = [][]Opt{nil,
	{{"features.field_presence", "IMPLICIT"}}, {{"features.field_presence", "EXPLICIT"}},
	{{"features.repeated_field_encoding", "EXPANDED"}}, {{"features.repeated_field_encoding", "PACKED"}},
	{{"features.field_presence", "IMPLICIT"}, {"features.repeated_field_encoding", "EXPANDED"}},
	{{"features.enum_type", "CLOSED"}}, {{"features.utf8_validation", "NONE"}}}

var fieldOpts = [][]Opt{nil, {{"packed", "true"}}, {{"packed", "false"}}, {{"deprecated", "true"}}, {{"json_name", `"other_Name"`}},
	{{"deprecated", "true"}, {"packed", "false"}, {"json_name", `"x"`}}, {{"packed", "true"}, {"deprecated", "false"}}}

var fieldFeat = [][]Opt{nil,
	{{"features.field_presence", "IMPLICIT"}}, {{"features.field_presence", "EXPLICIT"}}, {{"features.field_presence", "LEGACY_REQUIRED"}},
	{{"features.repeated_field_encoding", "EXPANDED"}}, {{"features.repeated_field_encoding", "PACKED"}},
	{{"deprecated", "true"}, {"features.repeated_field_encoding", "EXPANDED"}},
	{{"json_name", `"features.field_presence"`}, {"deprecated", "false"}}}

// labels; "oneof" and "map:<key>" are written as such
func fieldOf(label, typ, name string, num int, oo []Opt) Field {
	f := Field{Type: typ, Name: name, Num: num, Opts: oo}
	switch {
	case label == "oneof":
		f.Oneof = "choice"
	case strings.HasPrefix(label, "map:"):
		f.Key = label[4:]
	default:
		f.Label = label
	}
	return f
}

var labels = func() []string {
	l := []string{"", "optional", "required", "repeated", "oneof"}
	for _, k := range keyTypes {
		l = append(l, "map:"+k)
	}
	return l
}()

type schemaSpace struct {
	name string
	tag  func(i int64) string // what a failure's key says about the case
	n    int64
	make func(i int64) *Schema
	opts GenOpts
}

// one field of every type, label, option combination, and number
func srcFields(syntax string) schemaSpace {
	ff, fo := [][]Opt{nil}, fieldOpts
	if syntax == "2023" {
		ff, fo = fileFeat, fieldFeat
	}
	r := []int{len(ff), len(fo), len(labels), len(allTypes)}
	nm := syntax
	if nm == "" {
		nm = "default"
	}
	return schemaSpace{name: "fields-" + nm, n: product(r...), tag: func(i int64) string {
		d := digits(i, r...)
		return fmt.Sprintf("%s%v %s%v", nm, ff[d[0]], strings.Split(labels[d[2]], ":")[0], fo[d[1]])
	}, make: func(i int64) *Schema {
		d := digits(i, r...)
		f := baseFile(syntax)
		f.Opts = ff[d[0]]
		t := allTypes[d[3]]
		f.Msgs[0].Fields = []Field{fieldOf(labels[d[2]], t, "f", numbers[int(i)%len(numbers)], fo[d[1]])}
		return schemaFor(f, t)
	}}
}

// every label and type at every number class, in a nested message
func srcNumbers() schemaSpace {
	sy := []string{"proto2", "proto3", "2023"}
	ls := []string{"", "optional", "repeated", "oneof", "map:string"}
	ts := []string{"int32", "sint64", "fixed32", "string", "bytes", "E", "N", "other.Ext"}
	r := []int{len(sy), len(ls), len(ts), len(numbers), 3}
	return schemaSpace{name: "numbers", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		f := baseFile(sy[d[0]])
		fl := fieldOf(ls[d[1]], ts[d[2]], "f", numbers[d[3]], nil)
		m := f.Msgs[0]
		for k := 0; k < d[4]; k++ {
			in := &Msg{Name: fmt.Sprintf("In%d", k)}
			m.Msgs = append(m.Msgs, in)
			m = in
		}
		m.Fields = []Field{fl}
		return schemaFor(f, ts[d[2]])
	}}
}

// every sequence of three field kinds in one message
func srcSequences() schemaSpace {
	sy := []string{"proto2", "proto3", "2023"}
	type kind struct {
		label, typ string
		oo         []Opt
	}
	ks := []kind{{"optional", "int32", nil}, {"repeated", "E", nil}, {"repeated", "sint32", []Opt{{"packed", "true"}}}, {"oneof", "string", nil},
		{"oneof2", "N", nil}, {"map:int32", "N.NE", nil}, {"optional", "other.ExtE", nil}, {"repeated", "other.Ext", nil}, {"optional", "M", nil}, {"", "bytes", nil}}
	r := []int{len(sy), len(ks), len(ks), len(ks), 2}
	return schemaSpace{name: "sequences", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		f := baseFile(sy[d[0]])
		nums := [][]int{{1, 2, 3}, {300, 16, 5}}[d[4]]
		var types []string
		for k := 0; k < 3; k++ {
			kd := ks[d[1+k]]
			oo := kd.oo
			if sy[d[0]] == "2023" && oo != nil {
				oo = []Opt{{"features.repeated_field_encoding", "EXPANDED"}}
			}
			l := kd.label
			if sy[d[0]] == "2023" && l == "optional" {
				l = ""
			}
			if sy[d[0]] == "proto2" && l == "" {
				l = "required"
			}
			fl := fieldOf(strings.TrimSuffix(l, "2"), kd.typ, fmt.Sprintf("f_%d", k), nums[k], oo)
			if l == "oneof2" {
				fl.Oneof = "second"
			}
			f.Msgs[0].Fields = append(f.Msgs[0].Fields, fl)
			types = append(types, kd.typ)
		}
		return schemaFor(f, types...)
	}}
}

type report func(key, f string, a ...any)

// checkSchema generates the schema with both generators and compares.
// aspects as in diffShapes, plus 'a' acceptance and 'c' compiling.
func checkSchema(c *core.Ctx, s *Schema, aspects, tag string, o GenOpts) (v *Verdict, r *Result) {
	v = s.Verdict()
	if !v.OK {
		c.Count("refused-by-protoc", 1)
		return v, nil
	}
	w := s.World(false)
	o.All = true
	r = Prutal(w, o)
	c.Trans(2)
	off, err := Official(v.Set, w.Root, true)
	if err != nil { // e.g. files of one package disagree about its name
		c.Count("refused-by-official-generator", 1)
		if r.Panic == "" {
			return
		}
	}
	if r.Panic != "" {
		c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
		return
	}
	if !r.OK {
		c.Count("refused-by-prutalgen", 1)
		if strings.Contains(aspects, "a") {
			c.Fail("refused:"+errClass(r.Fatal+r.Err), "protoc accepts, prutalgen refuses: %s%s\n%s", r.Fatal, r.Err, w)
		}
		return
	}
	if strings.Contains(aspects, "c") {
		if e := compileErrors(r.Files); len(e) > 0 {
			if len(compileErrors(off)) > 0 {
				c.Count("official-does-not-compile-either", 1)
				return
			}
			c.Fail("compile:"+errClass(e[0]), "generated code does not compile: %s\n%s%s", strings.Join(e, "; "), w, dump(r.Files))
		}
	}
	for _, s := range w.Files {
		if strings.Contains(s, "XXX_OneofWrappers") { // a method of prutalgen's own: such a field cannot keep its name
			return
		}
	}
	for _, n := range keys(off) {
		g, ok := r.Files[n]
		if !ok {
			c.Fail("no-file", "official generator writes %s, prutalgen wrote %v\n%s", n, keys(r.Files), w)
			continue
		}
		compareFiles(c, w, n, g, off[n], aspects, tag)
	}
	c.Trace(1)
	return
}

func compareFiles(c *core.Ctx, w World, n, g, off, aspects, tag string) {
	gs, err := parseShape(n, g)
	if err != nil {
		if strings.Contains(aspects, "c") || strings.Contains(aspects, "n") {
			c.Fail("parse:"+errClass(err.Error()), "generated code does not parse: %v\n%s\n%s", err, w, g)
		}
		return
	}
	os, err := parseShape(n, off)
	if err != nil {
		c.Count("official-does-not-parse", 1)
		return
	}
	for _, k := range keys(gs.Structs) {
		c.StateStr(fmt.Sprint(gs.Structs[k]))
	}
	seen := map[string]bool{}
	k := diffShapes(gs, os, aspects, func(key, f string, a ...any) {
		if !seen[key] {
			seen[key] = true
			c.Fail(key+tag, "%s\n%s", fmt.Sprintf(f, a...), w)
		}
	})
	c.Count("compared-declarations", int64(k))
}

// errClass strips what varies from an error text.
func errClass(s string) string {
	if i := strings.LastIndex(s, "[FATAL]"); i >= 0 {
		s = s[i+7:]
	}
	var b strings.Builder
	for _, w := range strings.Fields(s) {
		if strings.ContainsAny(w, "0123456789/\\\"") {
			continue
		}
		b.WriteString(w + " ")
		if b.Len() > 60 {
			break
		}
	}
	return strings.TrimSpace(b.String())
}

func dump(m map[string]string) string {
	var b strings.Builder
	for _, k := range keys(m) {
		fmt.Fprintf(&b, "--- %s\n%s\n", k, m[k])
	}
	return b.String()
}

func (s schemaSpace) space(aspects string) *core.Space {
	return &core.Space{Name: s.name, N: s.n, Block: 16,
		Run:      func(i int64, c *core.Ctx) { checkSchema(c, s.make(i), aspects, s.tagOf(i), s.opts) },
		Describe: func(i int64) string { return strings.ReplaceAll(s.make(i).World(false).String(), "\n", " ") }}
}

var _ = path.Base

func (s schemaSpace) tagOf(i int64) string {
	if s.tag == nil {
		return ""
	}
	return " " + s.tag(i)
}
