package gen

import (
	"fmt"
	"strings"
)

// ---- Go names: every short identifier in every role, and every pair or
// sequence of names that may get into each other's way

func identifiers(alphabet string, max int) []string {
	var out []string
	level := []string{""}
	for n := 1; n <= max; n++ {
		var next []string
		for _, l := range level {
			for _, c := range alphabet {
				if l == "" && c >= '0' && c <= '9' {
					continue
				}
				next = append(next, l+string(c))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

var roles = []string{"message", "nested message", "enum", "nested enum", "value", "nested value", "field", "oneof", "oneof field", "map", "package", "deep message", "optional"}

// nameWorld is a file in which the identifier has the role.
func nameWorld(syntax, role, id string) *Schema {
	f := &File{Name: "a.proto", Syntax: syntax, Pkg: "pk", GoPkg: "x.y/p"}
	fd := Field{Label: "repeated", Type: "int32", Name: "plain", Num: 100}
	m := &Msg{Name: "Mm", Fields: []Field{fd}}
	val := func(n string) []EnumVal { return []EnumVal{{n, "0", ""}} }
	f.Msgs = []*Msg{m}
	add := func(x Field) { m.Fields = append(m.Fields, x) }
	switch role {
	case "message":
		f.Msgs = append(f.Msgs, &Msg{Name: id, Fields: []Field{{Oneof: "o", Type: "int32", Name: "k", Num: 1}}, Msgs: []*Msg{{Name: "Nn"}}, Enums: []*Enum{{Name: "Ee", Vals: val("Z")}}})
		add(Field{Label: "repeated", Type: ".pk." + id, Name: "ref", Num: 1})
	case "nested message":
		m.Msgs = []*Msg{{Name: id}}
		add(Field{Label: "repeated", Type: ".pk.Mm." + id, Name: "ref", Num: 1})
	case "deep message":
		m.Msgs = []*Msg{{Name: id, Msgs: []*Msg{{Name: id + "x", Msgs: []*Msg{{Name: "Nn", Fields: []Field{fd}}}}}}}
		add(Field{Label: "repeated", Type: ".pk.Mm." + id + "." + id + "x.Nn", Name: "ref", Num: 1})
	case "enum":
		f.Enums = []*Enum{{Name: id, Vals: val("V_a")}}
		add(Field{Label: "repeated", Type: ".pk." + id, Name: "ref", Num: 1})
	case "nested enum":
		m.Enums = []*Enum{{Name: id, Vals: val("V_a")}}
		add(Field{Oneof: "oo", Type: ".pk.Mm." + id, Name: "ref", Num: 1})
	case "value":
		f.Enums = []*Enum{{Name: "Ee", Vals: val(id)}}
		add(Field{Oneof: "oo", Type: "Ee", Name: "ref", Num: 1})
	case "nested value":
		m.Enums = []*Enum{{Name: "Ee", Vals: val(id)}}
		add(Field{Oneof: "oo", Type: "Ee", Name: "ref", Num: 1})
	case "field":
		add(Field{Label: "repeated", Type: "Mm", Name: id, Num: 1})
	case "optional":
		add(Field{Label: "optional", Type: "string", Name: id, Num: 1})
	case "map":
		add(Field{Key: "string", Type: "Mm", Name: id, Num: 1})
	case "oneof":
		add(Field{Oneof: id, Type: "Mm", Name: "one", Num: 1})
		add(Field{Oneof: id, Type: "int32", Name: "two", Num: 2})
	case "oneof field":
		add(Field{Oneof: "ch", Type: "Mm", Name: id, Num: 1})
		add(Field{Oneof: "ch", Type: "int32", Name: "two", Num: 2})
	case "package":
		f.Pkg = id + ".pk"
		m.Msgs = []*Msg{{Name: "Nn"}}
		f.Enums = []*Enum{{Name: "Ee", Vals: val("V_a")}}
		m.Enums = []*Enum{{Name: "Ee", Vals: val("V_a")}}
		m.Fields = append(m.Fields, Field{Label: "repeated", Type: "Mm.Nn", Name: "ref", Num: 1})
	}
	return &Schema{Files: []*File{f}}
}

func srcNames(max int) schemaSpace {
	ids := identifiers("aA_1", max)
	ids = append(ids, "mm", "Mm_", "Mm_Nn", "type", "func", "range", "string", "message", "int32", "x", "p", "ok", "pk", "repeated_", "_Reset", "xXX", "http2_URL", "aZ_9z", "éa"[:0]+"zz")
	r := []int{2, len(roles), len(ids)}
	return schemaSpace{name: "names", n: product(r...), opts: GenOpts{Getter: true},
		tag: func(i int64) string { return roles[digits(i, r...)[1]] },
		make: func(i int64) *Schema {
			d := digits(i, r...)
			return nameWorld([]string{"proto2", "proto3"}[d[0]], roles[d[1]], ids[d[2]])
		}}
}

// members of a message whose Go names may collide
var clashNames = []string{"x", "X", "get_x", "GetX", "_x", "x_", "reset", "Reset_", "string", "marshal", "unmarshal", "proto_message", "descriptor", "extension_map",
	"ExtensionRangeArray", "get_reset", "a1", "a_1", "A_1", "is_m_x", "unknown_fields", "unknownFields", "XXX_OneofWrappers", "ProtoReflect", "get_get_x", "Get"}

var memberKinds = []string{"field", "oneof", "oneof field", "nested", "enum", "value"}

func addMember(m *Msg, kind, name string, k int) {
	num := 10*k + 1
	switch kind {
	case "field":
		m.Fields = append(m.Fields, Field{Label: "repeated", Type: "int32", Name: name, Num: num})
	case "oneof":
		m.Fields = append(m.Fields, Field{Oneof: name, Type: "int32", Name: fmt.Sprintf("in%d", k), Num: num},
			Field{Oneof: name, Type: "M", Name: fmt.Sprintf("im%d", k), Num: num + 1})
	case "oneof field":
		m.Fields = append(m.Fields, Field{Oneof: fmt.Sprintf("ch%d", k), Type: "bytes", Name: name, Num: num},
			Field{Oneof: fmt.Sprintf("ch%d", k), Type: "M", Name: fmt.Sprintf("io%d", k), Num: num + 1})
	case "nested":
		m.Msgs = append(m.Msgs, &Msg{Name: name})
	case "enum":
		m.Enums = append(m.Enums, &Enum{Name: name, Vals: []EnumVal{{fmt.Sprintf("V%d", k), "0", ""}}})
	case "value":
		m.Enums = append(m.Enums, &Enum{Name: fmt.Sprintf("Ev%d", k), Vals: []EnumVal{{name, "0", ""}}})
	}
}

func srcClashes() schemaSpace {
	r := []int{len(memberKinds), len(memberKinds), len(clashNames), len(clashNames), 2}
	return schemaSpace{name: "clashes", n: product(r...), opts: GenOpts{Getter: true},
		tag: func(i int64) string { d := digits(i, r...); return memberKinds[d[0]] + "+" + memberKinds[d[1]] },
		make: func(i int64) *Schema {
			d := digits(i, r...)
			m := &Msg{Name: "M"}
			addMember(m, memberKinds[d[0]], clashNames[d[2]], 0)
			addMember(m, memberKinds[d[1]], clashNames[d[3]], 1)
			f := &File{Name: "a.proto", Syntax: "proto3", Pkg: "pk", GoPkg: "x.y/p", Msgs: []*Msg{m}}
			if d[4] == 1 { // a neighbour whose name is like that of something inside
				f.Msgs = append(f.Msgs, &Msg{Name: "M_" + strings.ToUpper(clashNames[d[3]][:1]) + clashNames[d[3]][1:]})
			}
			return &Schema{Files: []*File{f}}
		}}
}

// sequences of three members
func srcClash3() schemaSpace {
	ns := []string{"x", "X", "get_x", "x_", "X_", "get_x_", "get_get_x", "reset"}
	ks := []string{"field", "oneof", "oneof field"}
	r := []int{len(ks), len(ks), len(ks), len(ns), len(ns), len(ns)}
	return schemaSpace{name: "clashes3", n: product(r...), opts: GenOpts{Getter: true}, make: func(i int64) *Schema {
		d := digits(i, r...)
		m := &Msg{Name: "M"}
		for k := 0; k < 3; k++ {
			addMember(m, ks[d[k]], ns[d[3+k]], k)
		}
		return &Schema{Files: []*File{{Name: "a.proto", Syntax: "proto3", Pkg: "pk", GoPkg: "x.y/p", Msgs: []*Msg{m}}}}
	}}
}
