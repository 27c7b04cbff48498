package gen

import (
	"fmt"
	"go/token"
	"reflect"
	"strings"

	"verif/mc/core"
)

// G12: directives and gogoproto options. The reference is the code generated
// without them, changed as the directive says.

// dirFile is the file the directives are put in. Places are in the text as
// «name» (a line before a declaration) and »name« (behind it on the line);
// options as [name].
const dirFile = `«file»
%s
package p;
option go_package = "x.y/p";
import "dep.proto";
[file-opt]

«Top»
enum Top {
  [Top-opt]
  «TA»
  T_A = 0; »TA«
  «TB»
  T_b = 1; »TB«
  oddName = 2;
} »Top«

«Outer»
message Outer {
  [Outer-opt]
  «f1»
  %s int32 f1 = 1; »f1«
  «f2»
  repeated string f2 = 2; »f2«
  «f3»
  map<string, Inner> f3 = 3; »f3«
  «f4»
  %s Inner f4 = 4 [f4-opt]; »f4«
  «f5»
  repeated Inner f5 = 5 [f5-opt]; »f5«
  «f6»
  %s bytes f6 = 6; »f6«
  «f7»
  %s Top f7 = 7 [f7-opt]; »f7«
  «o»
  oneof o {
    «o1»
    string o1 = 8; »o1«
    «o2»
    Leaf o2 = 9 [o2-opt]; »o2«
    Inner.IE o3 = 10;
  } »o«
  «f8»
  map<int32, Top> f8 = 11; »f8«
  «f9»
  repeated Inner.IE f9 = 12; »f9«
  «f10»
  %s dep.Dep f10 = 13; »f10«
  repeated dep.Dep f11 = 14 [f11-opt];
  map<string, dep.DE> f12 = 15;
  %s dep.DE f13 = 16;
  map<string, dep.Dep> f14 = 17 [f14-opt];

  «Inner»
  message Inner {
    [Inner-opt]
    «i1»
    %s int64 i1 = 1; »i1«
    «i2»
    %s Leaf i2 = 2; »i2«
    «IE»
    enum IE {
      [IE-opt]
      «IA»
      I_A = 0; »IA«
      I_B = 1;
    } »IE«
    %s IE i3 = 3;
  } »Inner«
} »Outer«

«Leaf»
message Leaf {
  [Leaf-opt]
  %s sint32 x = 1;
} »Leaf«
`

var dirPlaces []string

func init() {
	for _, s := range strings.Split(dirFile, "«")[1:] {
		if n, _, ok := strings.Cut(s, "»"); ok && token.IsIdentifier(n) {
			dirPlaces = append(dirPlaces, n)
		}
	}
}

var directives = []string{"no_pointer", "no_enum_prefix", "no_enum_mapping", "unknown_fields", "no_unknown_fields"}

type dirForm struct {
	text string // D is the directive
	on   bool   // whether it counts
}

var headForms = []dirForm{{"//prutalgen:D", true}, {"// text\n//prutalgen:D\n// more", true}, {"//prutalgen:other,D", true}, {"//prutalgen: D ,x", true}, {"//prutalgen:x\n\t//prutalgen:D", true}, {"/* text */ //prutalgen:D", true},
	{"// prutalgen:D", false}, {"//prutalgen:D_x", false}, {"//prutalgen:D\n", false}, {"/* prutalgen:D */", false}, {"//Prutalgen:D", false}, {"//prutalgen:noD", false}, {"//prutalgen:D\n\n// text", false}}

var tailForms = []dirForm{{"//prutalgen:D", true}, {"//prutalgen:x, D", true}, {"// prutalgen:D", false}, {"//prutalgen:Dx", false}}

type dirOpt struct{ place, text, name, val string }

var dirOpts []dirOpt

func init() {
	for _, v := range []string{"false", "true"} {
		for _, p := range []string{"f4", "f5", "o2", "f7", "f11", "f14"} {
			dirOpts = append(dirOpts, dirOpt{p + "-opt", "[(gogoproto.nullable) = " + v + "]", "nullable " + p, v})
		}
		for _, p := range []string{"Top", "IE"} {
			dirOpts = append(dirOpts, dirOpt{p + "-opt", "option (gogoproto.goproto_enum_prefix) = " + v + ";", "prefix " + p, v})
		}
		for _, p := range []string{"Outer", "Inner", "Leaf"} {
			dirOpts = append(dirOpts, dirOpt{p + "-opt", "option (gogoproto.goproto_unrecognized) = " + v + ";", "unrec " + p, v})
		}
		dirOpts = append(dirOpts, dirOpt{"file-opt", "option (gogoproto.goproto_enum_prefix_all) = " + v + ";", "prefix-all", v},
			dirOpt{"file-opt", "option (gogoproto.goproto_unrecognized_all) = " + v + ";", "unrec-all", v})
	}
}

type dirUse struct {
	place, dir string // dir "" for an option
	tail       bool
	form       dirForm
	opt        *dirOpt
}

func dirWorld(sy string, uses []dirUse) World {
	head, lab := "syntax = \"proto3\";", [9]string{"optional", "", "", "optional", "", "", "", "", ""}
	switch sy {
	case "proto2":
		head = "syntax = \"proto2\";"
		lab = [9]string{"optional", "optional", "required", "optional", "optional", "optional", "required", "optional", "optional"}
	case "2023":
		head = "edition = \"2023\";"
		lab = [9]string{}
	}
	t := dirFile
	args := []any{head, lab[0], lab[1], lab[2], lab[3], lab[4], lab[5], lab[6], lab[7], lab[8], lab[8]}
	t = fmt.Sprintf(t, args...)
	for _, u := range uses {
		s := strings.ReplaceAll(u.form.text, "D", u.dir)
		switch {
		case u.opt != nil && strings.Contains(u.opt.text, "option"):
			t = strings.Replace(t, "["+u.opt.place+"]", u.opt.text+"\n  ["+u.opt.place+"]", 1)
		case u.opt != nil:
			t = strings.Replace(t, "["+u.opt.place+"]", u.opt.text, 1)
		case u.tail && strings.Contains(t, "»"+u.place+"+"):
			t = strings.Replace(t, "»"+u.place+"+", ","+u.dir+"»"+u.place+"+", 1)
		case u.tail && u.form.text == "//prutalgen:D": // more directives may follow
			t = strings.Replace(t, "»"+u.place+"«", s+"»"+u.place+"+", 1)
		case u.tail:
			t = strings.Replace(t, "»"+u.place+"«", s+" »"+u.place+"«", 1)
		default:
			t = strings.Replace(t, "«"+u.place+"»", s+"\n«"+u.place+"»", 1)
		}
	}
	for _, p := range dirPlaces {
		t = strings.Replace(t, "»"+p+"«", "", 1)
		t = strings.Replace(t, "»"+p+"+", "", 1)
		for _, l := range []string{"      ", "    ", "  ", ""} { // the whole line
			t = strings.Replace(t, "\n"+l+"«"+p+"»\n", "\n", 1)
		}
		t = strings.TrimPrefix(t, "«"+p+"»\n")
		t = strings.Replace(t, "["+p+"-opt]", "", 1)
	}
	for _, p := range []string{"file", "f11", "f14"} {
		t = strings.Replace(t, "["+p+"-opt]", "", 1)
	}
	ext := map[string]string{"proto3": "syntax = \"proto3\";", "proto2": "syntax = \"proto2\";", "2023": "edition = \"2023\";"}[sy]
	return World{Root: "a.proto", Files: map[string]string{"a.proto": t,
		"dep.proto": ext + "\npackage dep;\noption go_package = \"x.y/dep\";\nmessage Dep {}\nenum DE { DZ = 0; DY = 1; }\n"}}
}

// dirModel says what the directives and options cover.
type dirModel struct {
	has map[string]bool // place + " " + directive
	opt map[string]string
	// the first of unknown_fields and no_unknown_fields at a place counts
	unk map[string]string
}

func newDirModel(uses []dirUse) *dirModel {
	m := &dirModel{has: map[string]bool{}, opt: map[string]string{}, unk: map[string]string{}}
	add := func(u dirUse) {
		if !u.form.on {
			return
		}
		m.has[u.place+" "+u.dir] = true
		if strings.HasSuffix(u.dir, "unknown_fields") && m.unk[u.place] == "" {
			m.unk[u.place] = u.dir
		}
	}
	for _, tail := range []bool{false, true} {
		for _, u := range uses {
			if u.opt == nil && u.tail == tail {
				add(u)
			}
		}
	}
	for _, u := range uses {
		if u.opt != nil {
			m.opt[u.opt.name] = u.opt.val
		}
	}
	return m
}

func (m *dirModel) noPointer(msg, field string) bool {
	return m.has[field+" no_pointer"] || m.has[msg+" no_pointer"] || m.opt["nullable "+field] == "false"
}

func (m *dirModel) noPrefix(enum, val string) bool {
	if m.has[val+" no_enum_prefix"] || m.has[enum+" no_enum_prefix"] || m.has["file no_enum_prefix"] {
		return true
	}
	if v, ok := m.opt["prefix "+enum]; ok {
		return v == "false"
	}
	return m.opt["prefix-all"] == "false"
}

func (m *dirModel) noMapping(enum string) bool {
	return m.has[enum+" no_enum_mapping"] || m.has["file no_enum_mapping"]
}

func (m *dirModel) unknown(msg string) bool {
	for _, p := range []string{msg, "file"} {
		if u := m.unk[p]; u != "" {
			return u == "unknown_fields"
		}
	}
	if v, ok := m.opt["unrec "+msg]; ok {
		return v == "true"
	}
	return m.opt["unrec-all"] == "true"
}

// apply changes the shape of the code without directives to what it is with them.
func (m *dirModel) apply(s *Shape) {
	goName := map[string]string{"Outer": "Outer", "Inner": "Outer_Inner", "Leaf": "Leaf"}
	isMsg := func(t string) bool {
		return t == "Outer_Inner" || t == "Leaf" || strings.HasPrefix(t, "\"") && !strings.HasSuffix(t, ".DE")
	}
	value := func(t string) string { // the type without pointer
		i := strings.LastIndex(t, "*")
		if i < 0 {
			return t
		}
		return t[:i] + t[i+1:]
	}
	for name, gn := range goName {
		st := s.Structs[gn]
		if name == "Outer" {
			for _, n := range []string{"O1", "O2", "O3"} {
				if w := s.Structs["Outer_"+n]; m.noPointer(name, strings.ToLower(n)) {
					w.Fields[0].Type = value(w.Fields[0].Type)
					s.Methods["Outer"]["Get"+n] = "*() (" + w.Fields[0].Type + ")"
				}
			}
		}
		for i := range st.Fields {
			f := &st.Fields[i]
			if f.Type == "isOuter_O" || !m.noPointer(name, strings.ToLower(f.Name)) {
				continue
			}
			t := value(f.Type)
			if t != f.Type {
				f.Type = t
				if g := s.Methods[gn]["Get"+f.Name]; g != "" && (isMsg(t) || t[0] == '[' || t[0] == 'm') {
					s.Methods[gn]["Get"+f.Name] = "*() (" + t + ")"
				}
			}
		}
		if m.unknown(name) {
			st.Fields = append(st.Fields, StructField{Name: "unknownFields", Type: "[]byte", Tag: `json:"-"`})
		}
	}
	for _, e := range []struct{ name, gn, prefix string }{{"Top", "Top", "Top_"}, {"IE", "Outer_Inner_IE", "Outer_Inner_"}} {
		for val, raw := range map[string]string{"TA": "T_A", "TB": "T_b", "": "oddName", "IA": "I_A", " ": "I_B"} {
			c, ok := s.Consts[e.prefix+raw]
			if ok && m.noPrefix(e.name, val) {
				delete(s.Consts, e.prefix+raw)
				s.Consts[map[string]string{"T_A": "T_A", "T_b": "TB", "oddName": "OddName", "I_A": "I_A", "I_B": "I_B"}[raw]] = c
			}
		}
		if m.noMapping(e.name) {
			delete(s.Maps, e.gn+"_name")
			delete(s.Maps, e.gn+"_value")
			delete(s.Methods, e.gn)
		}
	}
	if m.noMapping("Top") && m.noMapping("IE") {
		delete(s.Imports, "strconv")
	}
}

func diffAny(got, want *Shape) string {
	for _, x := range []struct {
		what string
		a, b any
	}{{"imports", got.Imports, want.Imports}, {"constants", got.Consts, want.Consts}, {"maps", got.Maps, want.Maps}, {"types", got.Ints, want.Ints}, {"interfaces", got.Ifaces, want.Ifaces}, {"order", got.Order, want.Order}} {
		if !reflect.DeepEqual(x.a, x.b) {
			return fmt.Sprintf("%s: %v, expected %v", x.what, x.a, x.b)
		}
	}
	for n, a := range got.Structs {
		b := want.Structs[n]
		if b == nil {
			return "struct " + n
		}
		if !reflect.DeepEqual(a, b) {
			for i := range a.Fields {
				if i < len(b.Fields) && a.Fields[i] != b.Fields[i] {
					return fmt.Sprintf("struct %s: field %v, expected %v", n, a.Fields[i], b.Fields[i])
				}
			}
			return fmt.Sprintf("struct %s: %v, expected %v", n, a.Fields, b.Fields)
		}
	}
	if len(got.Structs) != len(want.Structs) {
		return fmt.Sprintf("%d structs, expected %d", len(got.Structs), len(want.Structs))
	}
	for n := range got.Methods {
		if !reflect.DeepEqual(got.Methods[n], want.Methods[n]) {
			for k, v := range got.Methods[n] {
				if want.Methods[n][k] != v {
					return fmt.Sprintf("method %s.%s: %s, expected %s", n, k, v, want.Methods[n][k])
				}
			}
			return fmt.Sprintf("methods of %s: %v, expected %v", n, got.Methods[n], want.Methods[n])
		}
	}
	if len(got.Methods) != len(want.Methods) {
		return fmt.Sprintf("methods of %d types, expected %d", len(got.Methods), len(want.Methods))
	}
	return ""
}

var dirPlain = map[string]map[string]string{}

func checkDirectives(c *core.Ctx, sy string, uses []dirUse) {
	const root = "x.y/p/a.pb.go"
	plain, ok := dirPlain[sy]
	if !ok {
		r := Prutal(dirWorld(sy, nil), GenOpts{Getter: true, All: true})
		if !r.OK || r.Panic != "" || len(compileErrors(r.Files)) > 0 {
			c.Fail("plain", "%s: the file without directives: %s%s%s %v", sy, r.Fatal, r.Err, r.Panic, compileErrors(r.Files))
			return
		}
		plain = r.Files
		dirPlain[sy] = plain
	}
	w := dirWorld(sy, uses)
	var key []string
	for _, u := range uses {
		if u.opt != nil {
			key = append(key, u.opt.name)
		} else {
			key = append(key, u.dir)
		}
	}
	fail := func(k, f string, a ...any) {
		c.Fail(k+" "+strings.Join(key, " "), "%s\n%s", fmt.Sprintf(f, a...), w.Files["a.proto"])
	}
	r := Prutal(w, GenOpts{Getter: true})
	for f, t := range plain {
		if f != root {
			r.Files[f] = t
		}
	}
	c.Trans(1)
	if !r.OK || r.Panic != "" {
		fail("refused", "refused: %s%s%s", r.Fatal, r.Err, r.Panic)
		return
	}
	if e := compileErrors(r.Files); len(e) > 0 {
		fail("compile", "the code does not compile: %v", e)
		return
	}
	got, err := parseShape(root, r.Files[root])
	if err != nil {
		fail("parse", "%v", err)
		return
	}
	want, err := parseShape(root, plain[root])
	if err != nil {
		panic(err)
	}
	newDirModel(uses).apply(want)
	c.StateStr(r.Files[root])
	c.Trace(1)
	if d := diffAny(got, want); d != "" {
		fail("shape", "%s", d)
	}
}

var dirSyntaxes = []string{"proto3", "proto2", "2023"}

func dirSpaces(tier string) []*core.Space {
	type use = dirUse
	sp := func(name string, n int64, mk func(i int64) (string, []dirUse)) *core.Space {
		return &core.Space{Name: name, N: n, Block: 16,
			Describe: func(i int64) string {
				sy, u := mk(i)
				return strings.ReplaceAll(dirWorld(sy, u).Files["a.proto"], "\n", " ")
			},
			Run: func(i int64, c *core.Ctx) {
				sy, u := mk(i)
				if len(u) == 2 && u[0].opt != nil && u[1].opt != nil && u[0].opt.name == u[1].opt.name {
					return // set twice
				}
				if name == "pairs" && u[0].place > u[1].place {
					return // the same text as the other way round
				}
				checkDirectives(c, sy, u)
			}}
	}
	// every directive in every form at every place
	var forms []dirUse
	for _, p := range dirPlaces {
		for _, d := range directives {
			for _, f := range headForms {
				forms = append(forms, dirUse{place: p, dir: d, form: f})
			}
			if p != "file" {
				for _, f := range tailForms {
					forms = append(forms, dirUse{place: p, dir: d, form: f, tail: true})
				}
			}
		}
	}
	var simple, all []dirUse
	for _, u := range forms {
		if u.form.text == "//prutalgen:D" {
			simple = append(simple, u)
		}
	}
	all = append(all, simple...)
	for i := range dirOpts {
		all = append(all, dirUse{opt: &dirOpts[i]})
	}
	pair := simple
	if tier != "quick" {
		pair = all
	}
	nf, np, na, no := len(forms), len(pair), len(all), len(dirOpts)
	out := []*core.Space{
		sp("forms", product(3, nf), func(i int64) (string, []dirUse) {
			d := digits(i, 3, nf)
			return dirSyntaxes[d[0]], []dirUse{forms[d[1]]}
		}),
		sp("options", product(3, no, na), func(i int64) (string, []dirUse) {
			d := digits(i, 3, no, na)
			return dirSyntaxes[d[0]], []dirUse{{opt: &dirOpts[d[1]]}, all[d[2]]}
		}),
	}
	if tier == "quick" {
		out = append(out, sp("pairs", product(1, np, np), func(i int64) (string, []dirUse) {
			d := digits(i, 1, np, np)
			return dirSyntaxes[d[0]], []dirUse{pair[d[1]], pair[d[2]]}
		}))
	} else {
		out = append(out, sp("pairs", product(3, np, np), func(i int64) (string, []dirUse) {
			d := digits(i, 3, np, np)
			return dirSyntaxes[d[0]], []dirUse{pair[d[1]], pair[d[2]]}
		}))
	}
	return out
}
