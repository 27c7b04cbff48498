package gen

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// G13: what the exported model of a loaded file tells a program that is built
// on it, against what protogen tells a plugin about the same file. Both are
// written down as lines of facts.

// numbers asked of IsReservedField
var probeNumbers = []int32{1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 18999, 20000, 536870910, 536870911}
var probeEnumNumbers = []int32{-2147483648, -2, -1, 0, 1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 19000, 2147483646, 2147483647}

// built-in options that are asked for by name
var probeOptions = []string{"deprecated", "packed", "lazy", "jstype", "ctype", "debug_redact", "allow_alias", "idempotency_level", "java_package", "java_multiple_files", "java_outer_classname", "optimize_for", "go_package", "cc_enable_arenas", "objc_class_prefix", "no_standard_descriptor_accessor"}

func apiOpts(oo prutalgen.Options) (s string) {
	for _, n := range probeOptions {
		if v, ok := oo.Get(n); ok {
			s += fmt.Sprintf(" %s=%s", n, v)
			if !oo.Is(n, v) || oo.Is(n, v+"x") {
				s += "(?)"
			}
		}
	}
	return
}

func protoOpts(m proto.Message) (s string) {
	for _, n := range probeOptions {
		r := m.ProtoReflect()
		fd := r.Descriptor().Fields().ByName(protoreflect.Name(n))
		if fd == nil || !r.IsValid() || !r.Has(fd) {
			continue
		}
		if v := r.Get(fd); fd.Enum() != nil {
			s += fmt.Sprintf(" %s=%s", n, fd.Enum().Values().ByNumber(v.Enum()).Name())
		} else {
			s += fmt.Sprintf(" %s=%v", n, v.Interface())
		}
	}
	return
}

func apiType(t *prutalgen.Type) string {
	if t == nil {
		return "none"
	}
	g := t.GoName()
	if t.IsExternalType() {
		_, g, _ = strings.Cut(g, ".")
	}
	if t.String() != t.GoName() {
		g += "(String differs)"
	}
	switch m, e := t.Message(), t.Enum(); {
	case m != nil && e == nil && t.IsMessage() && !t.IsEnum():
		return fmt.Sprintf("message %s %s %v %s %s", m.FullName(), t.GoImport(), t.IsExternalType(), g, t.EncodingType())
	case e != nil && m == nil && t.IsEnum() && !t.IsMessage():
		return fmt.Sprintf("enum %s %s %v %s %s", e.FullName(), t.GoImport(), t.IsExternalType(), g, t.EncodingType())
	case e == nil && m == nil:
		return fmt.Sprintf("scalar %s %s", t.Name, g)
	}
	return "contradictory"
}

func apiFacts(p *prutalgen.Proto) (out []string) {
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	say("file: package %s, goimport %s, syntax %v %v %v, options%s", p.Package, p.GoImport, p.IsProto2(), p.IsProto3(), p.IsEdition2023(), apiOpts(p.Options))
	for _, i := range p.Imports {
		say("import: %s %v", filepath.Base(i.ProtoFile), i.Public)
	}
	field := func(f *prutalgen.Field) {
		say("field %s: %s = %d", f.Msg.FullName(), f.Name, f.FieldNumber)
		pk := f.Repeated && f.IsPackedEncoding()
		say("field %s.%s: go %s, map %v, enum %v, message %v, repeated %v, required %v, packed %v, pointer %v", f.Msg.FullName(), f.Name,
			f.GoName, f.IsMap(), f.IsEnum(), f.IsMessage(), f.Repeated, f.Required, pk, f.IsPointer())
		if f.IsMap() {
			say("field %s.%s: key %s", f.Msg.FullName(), f.Name, apiType(f.Key))
		}
		say("field %s.%s: type %s", f.Msg.FullName(), f.Name, apiType(f.Type))
		js, ok := f.Options.Get("json_name")
		if !ok {
			js = jsonName(f.Name)
		}
		say("field %s.%s: json name %q, options%s", f.Msg.FullName(), f.Name, js, apiOpts(f.Options))
		if f.Oneof != nil {
			say("field %s.%s: oneof %s %s", f.Msg.FullName(), f.Name, f.Oneof.Name, f.OneofStructName())
		}
	}
	enum := func(e *prutalgen.Enum) {
		say("enum %s: go %s, options%s", e.FullName(), e.GoName, apiOpts(e.Options))
		for _, v := range e.Fields {
			say("value %s: %s %s = %d, options%s", e.FullName(), v.Name, v.GoName, v.Value, apiOpts(v.Options))
		}
		for _, n := range probeEnumNumbers {
			if e.IsReservedField(n) {
				say("reserved %s: %d", e.FullName(), n)
			}
		}
	}
	var msg func(m *prutalgen.Message)
	msg = func(m *prutalgen.Message) {
		say("message %s: go %s, options%s", m.FullName(), m.GoName, apiOpts(m.Options))
		for _, f := range m.Fields {
			if f.Msg != m {
				say("field %s: in another message", f.Name)
			}
			field(f)
		}
		for _, o := range m.Oneofs {
			s := fmt.Sprintf("oneof %s.%s: go %s %s:", m.FullName(), o.Name, o.FieldName(), o.FieldType())
			for _, f := range o.Fields {
				s += " " + f.Name
				if f.Oneof != o {
					s += "(of another)"
				}
			}
			say("%s", s)
		}
		for _, n := range probeNumbers {
			if m.IsReservedField(n) {
				say("reserved %s: %d", m.FullName(), n)
			}
		}
		for _, e := range m.Enums {
			if e.Msg != m || e.Proto != p {
				say("enum %s: in another place", e.Name)
			}
			enum(e)
		}
		for _, n := range m.Messages {
			if n.Msg != m || n.Proto != p {
				say("message %s: in another place", n.Name)
			}
			msg(n)
		}
	}
	for _, m := range p.Messages {
		if m.Msg != nil || m.Proto != p {
			say("message %s: in another place", m.Name)
		}
		msg(m)
	}
	for _, e := range p.Enums {
		if e.Msg != nil || e.Proto != p {
			say("enum %s: in another place", e.Name)
		}
		enum(e)
	}
	for _, s := range p.Services {
		if s.Proto != p {
			say("service %s: in another place", s.Name)
		}
		say("service %s: go %s, options%s", s.Name, s.GoName, apiOpts(s.Options))
		for _, m := range s.Methods {
			if m.Service != s {
				say("method %s: in another place", m.Name)
			}
			say("method %s.%s: go %s, options%s", s.Name, m.Name, m.GoName, apiOpts(m.Options))
			say("method %s.%s: request %v %s", s.Name, m.Name, m.RequestStream, apiType(m.Request))
			say("method %s.%s: return %v %s", s.Name, m.Name, m.ReturnStream, apiType(m.Return))
		}
	}
	return
}

var goScalar = map[protoreflect.Kind]string{protoreflect.BoolKind: "bool", protoreflect.Int32Kind: "int32", protoreflect.Sint32Kind: "int32", protoreflect.Sfixed32Kind: "int32",
	protoreflect.Uint32Kind: "uint32", protoreflect.Fixed32Kind: "uint32", protoreflect.Int64Kind: "int64", protoreflect.Sint64Kind: "int64", protoreflect.Sfixed64Kind: "int64",
	protoreflect.Uint64Kind: "uint64", protoreflect.Fixed64Kind: "uint64", protoreflect.FloatKind: "float32", protoreflect.DoubleKind: "float64", protoreflect.StringKind: "string", protoreflect.BytesKind: "[]byte"}

func officialFacts(p *protogen.File) (out []string) {
	say := func(f string, a ...any) { out = append(out, fmt.Sprintf(f, a...)) }
	ed := p.Proto.GetEdition()
	say("file: package %s, goimport %s, syntax %v %v %v, options%s", p.Desc.Package(), string(p.GoImportPath), p.Desc.Syntax() == protoreflect.Proto2, p.Desc.Syntax() == protoreflect.Proto3, ed == descriptorpb.Edition_EDITION_2023, protoOpts(p.Proto.GetOptions()))
	for i := 0; i < p.Desc.Imports().Len(); i++ {
		im := p.Desc.Imports().Get(i)
		say("import: %s %v", filepath.Base(im.Path()), im.IsPublic)
	}
	msgType := func(m *protogen.Message) string {
		return fmt.Sprintf("message %s %s %v %s %s", m.Desc.FullName(), string(m.GoIdent.GoImportPath), m.GoIdent.GoImportPath != p.GoImportPath, m.GoIdent.GoName, "bytes")
	}
	fieldType := func(f *protogen.Field) string {
		switch {
		case f.Message != nil:
			return msgType(f.Message)
		case f.Enum != nil:
			return fmt.Sprintf("enum %s %s %v %s %s", f.Enum.Desc.FullName(), string(f.Enum.GoIdent.GoImportPath), f.Enum.GoIdent.GoImportPath != p.GoImportPath, f.Enum.GoIdent.GoName, "varint")
		}
		return fmt.Sprintf("scalar %s %s", f.Desc.Kind(), goScalar[f.Desc.Kind()])
	}
	field := func(m string, f *protogen.Field) {
		d := f.Desc
		say("field %s: %s = %d", m, d.Name(), d.Number())
		vt, ismsg, isenum := f, f.Message != nil && !d.IsMap(), f.Enum != nil
		if d.IsMap() {
			vt = f.Message.Fields[1]
			isenum = false
		}
		ptr := !d.IsMap() && !d.IsList() && (ismsg || d.HasPresence() && d.Kind() != protoreflect.BytesKind && (f.Oneof == nil || f.Oneof.Desc.IsSynthetic()))
		say("field %s.%s: go %s, map %v, enum %v, message %v, repeated %v, required %v, packed %v, pointer %v", m, d.Name(),
			f.GoName, d.IsMap(), isenum, ismsg, d.IsList(), d.Cardinality() == protoreflect.Required, d.IsPacked(), ptr)
		if d.IsMap() {
			say("field %s.%s: key %s", m, d.Name(), fieldType(f.Message.Fields[0]))
		}
		say("field %s.%s: type %s", m, d.Name(), fieldType(vt))
		say("field %s.%s: json name %q, options%s", m, d.Name(), d.JSONName(), protoOpts(d.Options()))
		if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
			say("field %s.%s: oneof %s %s", m, d.Name(), f.Oneof.Desc.Name(), f.GoIdent.GoName)
		}
	}
	enum := func(e *protogen.Enum) {
		say("enum %s: go %s, options%s", e.Desc.FullName(), e.GoIdent.GoName, protoOpts(e.Desc.Options()))
		for _, v := range e.Values {
			say("value %s: %s %s = %d, options%s", e.Desc.FullName(), v.Desc.Name(), v.GoIdent.GoName, v.Desc.Number(), protoOpts(v.Desc.Options()))
		}
		for _, n := range probeEnumNumbers {
			if e.Desc.ReservedRanges().Has(protoreflect.EnumNumber(n)) {
				say("reserved %s: %d", e.Desc.FullName(), n)
			}
		}
	}
	var msg func(m *protogen.Message)
	msg = func(m *protogen.Message) {
		say("message %s: go %s, options%s", m.Desc.FullName(), m.GoIdent.GoName, protoOpts(m.Desc.Options()))
		for _, f := range m.Fields {
			field(string(m.Desc.FullName()), f)
		}
		for _, o := range m.Oneofs {
			if o.Desc.IsSynthetic() {
				continue
			}
			s := fmt.Sprintf("oneof %s.%s: go %s is%s_%s:", m.Desc.FullName(), o.Desc.Name(), o.GoName, m.GoIdent.GoName, o.GoName)
			for _, f := range o.Fields {
				s += " " + string(f.Desc.Name())
			}
			say("%s", s)
		}
		for _, n := range probeNumbers {
			if m.Desc.ReservedRanges().Has(protoreflect.FieldNumber(n)) {
				say("reserved %s: %d", m.Desc.FullName(), n)
			}
		}
		for _, e := range m.Enums {
			enum(e)
		}
		for _, n := range m.Messages {
			if !n.Desc.IsMapEntry() {
				msg(n)
			}
		}
	}
	for _, m := range p.Messages {
		msg(m)
	}
	for _, e := range p.Enums {
		enum(e)
	}
	for _, s := range p.Services {
		say("service %s: go %s, options%s", s.Desc.Name(), s.GoName, protoOpts(s.Desc.Options()))
		for _, m := range s.Methods {
			say("method %s.%s: go %s, options%s", s.Desc.Name(), m.Desc.Name(), m.GoName, protoOpts(m.Desc.Options()))
			say("method %s.%s: request %v %s", s.Desc.Name(), m.Desc.Name(), m.Desc.IsStreamingClient(), msgType(m.Input))
			say("method %s.%s: return %v %s", s.Desc.Name(), m.Desc.Name(), m.Desc.IsStreamingServer(), msgType(m.Output))
		}
	}
	return
}

func protogenFiles(set *descriptorpb.FileDescriptorSet, root string) (fs map[string]*protogen.File, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	p, err := protogen.Options{}.New(&pluginpb.CodeGeneratorRequest{ProtoFile: set.File, FileToGenerate: []string{root}})
	if err != nil {
		return nil, err
	}
	return p.FilesByPath, nil
}

func checkAPI(c *core.Ctx, s *Schema, tag string) {
	v := s.Verdict()
	if !v.OK {
		c.Count("refused-by-protoc", 1)
		return
	}
	w := s.World(false)
	for _, t := range w.Files {
		if strings.Contains(t, "XXX_OneofWrappers") { // a method of prutalgen's own: such a field cannot keep its name
			return
		}
	}
	fs, err := protogenFiles(v.Set, w.Root)
	if err != nil {
		c.Count("refused-by-official-generator", 1)
		return
	}
	r := Prutal(w, GenOpts{LoadOnly: true})
	c.Trans(2)
	if r.Panic != "" || !r.OK {
		c.Count("not-loaded"+strings.Split(tag, ":")[0], 1) // G01 and G09 report it
		return
	}
	if len(r.Protos) == 0 || !strings.HasSuffix(r.Protos[0].ProtoFile, "/"+w.Root) {
		c.Fail("first", "LoadProto does not return %s first\n%s", w.Root, w)
		return
	}
	names := map[string]int{}
	for _, p := range r.Protos {
		n := p.ProtoFile
		if rel, err := filepath.Rel(filepath.Join(scratch(), "src"), n); err == nil && !strings.HasPrefix(rel, "..") {
			n = rel
		}
		names[n]++
		f := fs[n]
		if f == nil {
			c.Fail("extra-file", "LoadProto returns %s\n%s", p.ProtoFile, w)
			return
		}
		if strings.HasPrefix(n, "google/protobuf/") {
			continue // of another version
		}
		a, b := apiFacts(p), officialFacts(f)
		for _, l := range a {
			c.StateStr(l)
		}
		sort.Strings(a) // the order of declarations is compared by G09
		sort.Strings(b)
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := "(nothing)", "(nothing)"
			if i < len(a) {
				x = a[i]
			}
			if i < len(b) {
				y = b[i]
			}
			if x != y {
				k, _, _ := strings.Cut(x, " ")
				c.Fail(k+tag, "prutalgen's model says\n  %s\nprotoc\n  %s\n%s", x, y, w)
				break
			}
		}
		c.Count("facts", int64(len(a)))
	}
	for n, k := range names {
		if k > 1 {
			c.Fail("twice", "LoadProto returns %s %d times\n%s", n, k, w)
		}
	}
	for n := range w.Files {
		if fs[n] != nil && names[n] == 0 {
			c.Fail("missing", "LoadProto does not return %s\n%s", n, w)
		}
	}
	c.Trace(1)
}

func (s schemaSpace) apiSpace() *core.Space {
	return &core.Space{Name: s.name, N: s.n, Block: 16,
		Run:      func(i int64, c *core.Ctx) { checkAPI(c, s.make(i), " "+s.name+s.tagOf(i)) },
		Describe: func(i int64) string { return strings.ReplaceAll(s.make(i).World(false).String(), "\n", " ") }}
}

// services whose methods take and return messages from everywhere
func srcServices() schemaSpace {
	refs := []string{"M", "M.Deep", ".pk.sub.M", "pk.sub.N", "other.Ext", "other.Ext.Deep", "Same", "pk.sub.Same", "google.protobuf.Empty", ".google.protobuf.Any", "stream", "M.rpc", "returns", ".pk.sub.stream"}
	streams := [][2]string{{"", ""}, {"stream ", ""}, {"", "stream "}, {"stream ", "stream "}}
	bodies := []string{";", "{}", "{ ; }", "{ option deprecated = true; }", "{ option idempotency_level = IDEMPOTENT; option deprecated = false; }", "{ option deprecated = true; };"}
	r := []int{4, len(bodies), len(streams), len(refs), len(refs)}
	return schemaSpace{name: "services", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		f := baseFile(syntaxes[d[0]])
		f.Msgs[0].Msgs = []*Msg{{Name: "Deep"}, {Name: "rpc"}}
		f.Msgs = append(f.Msgs, &Msg{Name: "stream"}, &Msg{Name: "returns"})
		same := &File{Name: "same.proto", Syntax: "proto3", Pkg: "pk.sub", GoPkg: "x.y/p", Msgs: []*Msg{{Name: "Same"}}}
		f.Imports = []Import{{Path: "other.proto"}, {Path: "same.proto", Public: true}, {Path: "google/protobuf/empty.proto"}, {Path: "google/protobuf/any.proto"}}
		st := streams[d[2]]
		f.Raw = []string{
			fmt.Sprintf("service First {\n  option deprecated = %v;\n  rpc a_b(%s%s) returns (%s%s) %s\n  rpc Second(%s) returns (stream %s);\n}", d[1]%2 == 0,
				st[0], refs[d[3]], st[1], refs[d[4]], bodies[d[1]], refs[d[4]], refs[d[3]]),
			"service Empty { }",
			fmt.Sprintf("service Last { rpc A(%s%s) returns(%sM)%s option deprecated = true; ; rpc rpc(stream %s)returns(stream M.Deep); }", st[1], refs[d[4]], st[0], bodies[d[1]], refs[d[3]])}
		return &Schema{Files: []*File{f, otherFile(), same}}
	}}
}

// every short identifier as the name of a service and of methods
func srcServiceNames(max int) schemaSpace {
	ids := append(identifiers("aA_1b", max), "type", "func", "service", "rpc", "message", "stream", "http2_URL", "aZ_9z", "option", "returns")
	pk := []string{"", "pk", "a", "a.a"}
	r := []int{len(pk), 2, len(ids)}
	return schemaSpace{name: "service names", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		id, o := ids[d[2]], "Other"
		if d[1] == 1 {
			id, o = o, id
		}
		f := &File{Name: "a.proto", Syntax: "proto3", Pkg: pk[d[0]], GoPkg: "x.y/p", Msgs: []*Msg{{Name: "Mm"}}}
		f.Raw = []string{fmt.Sprintf("service %s { rpc %s(Mm) returns (Mm); rpc K_%s(Mm) returns (Mm); }", id, o, o), fmt.Sprintf("service S_%s { rpc _%s(Mm) returns (Mm); }", id, o)}
		return &Schema{Files: []*File{f}}
	}}
}

// every built-in option where it may be
func srcOptions() schemaSpace {
	type opt struct{ where, name, val string }
	var os []opt
	for _, v := range []string{"true", "false"} {
		for _, w := range []string{"file", "message", "field", "oneof field", "map", "enum", "value", "service", "method"} {
			os = append(os, opt{w, "deprecated", v})
		}
		os = append(os, opt{"field", "packed", v}, opt{"enum", "allow_alias", v}, opt{"file", "java_multiple_files", v}, opt{"file", "cc_enable_arenas", v}, opt{"message", "no_standard_descriptor_accessor", v}, opt{"mfield", "lazy", v}, opt{"field", "lazy", v})
	}
	for _, v := range []string{`"j"`, `'j"'`, `"a" "b"`, `"\x41\n"`, `""`} {
		os = append(os, opt{"field", "json_name", v}, opt{"oneof field", "json_name", v}, opt{"map", "json_name", v}, opt{"file", "java_package", v}, opt{"file", "objc_class_prefix", v}, opt{"file", "java_outer_classname", v})
	}
	for _, v := range []string{"SPEED", "CODE_SIZE", "LITE_RUNTIME"} {
		os = append(os, opt{"file", "optimize_for", v})
	}
	for _, v := range []string{"JS_STRING", "JS_NUMBER", "JS_NORMAL"} {
		os = append(os, opt{"i64", "jstype", v})
	}
	for _, v := range []string{"NO_SIDE_EFFECTS", "IDEMPOTENT", "IDEMPOTENCY_UNKNOWN"} {
		os = append(os, opt{"method", "idempotency_level", v})
	}
	for _, v := range []string{"STRING", "CORD", "STRING_PIECE"} {
		os = append(os, opt{"str", "ctype", v})
	}
	r := []int{2, len(os), len(os), 2}
	return schemaSpace{name: "options", n: product(r...), make: func(i int64) *Schema {
		d := digits(i, r...)
		at := map[string][]Opt{}
		for _, k := range d[1:3] {
			o := os[k]
			if x := at[o.where]; len(x) > 0 && x[0].Name == o.name {
				continue // twice is an error
			}
			at[o.where] = append(at[o.where], Opt{o.name, o.val})
		}
		f := &File{Name: "a.proto", Syntax: []string{"proto2", "proto3"}[d[0]], Pkg: "pk", GoPkg: "x.y/p", Opts: at["file"]}
		in := &Msg{Name: "In", Opts: at["message"]}
		m := &Msg{Name: "M", Msgs: []*Msg{in}, Fields: []Field{{Label: "repeated", Type: "int32", Name: "r", Num: 1, Opts: at["field"]},
			{Oneof: "o", Type: "int32", Name: "of", Num: 2, Opts: at["oneof field"]}, {Key: "int32", Type: "In", Name: "mp", Num: 3, Opts: at["map"]},
			{Label: "optional", Type: "In", Name: "mf", Num: 4, Opts: at["mfield"]}, {Label: "optional", Type: "int64", Name: "i64", Num: 5, Opts: at["i64"]},
			{Label: "optional", Type: "string", Name: "str", Num: 6, Opts: at["str"]}}}
		if d[3] == 1 {
			in.Opts, m.Opts = nil, at["message"]
		}
		f.Msgs = []*Msg{m}
		en := func(n string, with bool) string {
			var b strings.Builder
			fmt.Fprintf(&b, "enum E%s {\n", n)
			vo := ""
			if with {
				for _, o := range at["enum"] {
					fmt.Fprintf(&b, "  option %s = %s;\n", o.Name, o.Val)
				}
				vo = opts(at["value"])
			}
			al := "1"
			if strings.Contains(b.String(), "allow_alias = true") {
				al = "0"
			}
			fmt.Fprintf(&b, "  %s_A = 0%s;\n  %s_B = %s;\n}", n, vo, n, al)
			return b.String()
		}
		f.Raw = []string{en("X", d[3] == 0)}
		m.Raw = []string{en("Y", d[3] == 1)}
		st := func(oo []Opt) (s string) {
			for _, o := range oo {
				s += fmt.Sprintf(" option %s = %s;", o.Name, o.Val)
			}
			return
		}
		f.Raw = append(f.Raw, fmt.Sprintf("service S {%s rpc A(M) returns (M) {%s } rpc B(M) returns (M); }", st(at["service"]), st(at["method"])))
		return &Schema{Files: []*File{f}}
	}}
}

// reserved ranges as the model tells them
func srcReserved() schemaSpace {
	rs := []string{"", "3", "3 to 4", "10 to 99", "100 to max", "536870911", "536870910 to max", "3, 10", "3 to 4, 10 to 10, 101", "2 to 2", "1000 to 17000"}
	ers := append([]string{"-1", "-2 to -1", "-2147483648 to -2", "-1 to 3", "2147483647", "19000"}, rs...)
	r := []int{3, 2, len(rs)*len(rs) + len(ers)*len(ers)}
	return schemaSpace{name: "reserved", n: product(r...), make: func(i int64) *Schema {
		d := append(digits(i, r...), 0, 0, 0)
		if k, n := d[2], len(rs)*len(rs); k < n {
			d[2], d[3] = k/len(rs), k%len(rs)
		} else {
			d[2], d[4], d[5] = 0, (k-n)/len(ers), (k-n)%len(ers)
		}
		st := func(k ...string) (out []string) {
			for _, s := range k {
				if s != "" {
					out = append(out, "reserved "+s+";")
				}
			}
			return
		}
		f := &File{Name: "a.proto", Syntax: []string{"proto2", "proto3", "2023"}[d[0]], Pkg: "pk", GoPkg: "x.y/p"}
		m := &Msg{Name: "M", Raw: st(rs[d[2]], rs[d[3]])}
		e := "enum E { " + strings.Join(append(st(ers[d[4]]), "Z = 0;"), " ") + " " + strings.Join(st(ers[d[5]]), " ") + " }"
		f.Msgs = []*Msg{m}
		if d[1] == 1 {
			f.Msgs = []*Msg{{Name: "Out", Msgs: []*Msg{m}, Raw: []string{e}}}
		} else {
			f.Raw = []string{e}
		}
		return &Schema{Files: []*File{f}}
	}}
}

func apiSpaces(tier string) (out []*core.Space) {
	n := 3
	if tier == "thorough" {
		n = 4
	}
	l := []schemaSpace{srcServices(), srcServiceNames(n), srcOptions(), srcReserved(), srcNames(n), srcClashes(), srcTrees(), srcImports()}
	for _, s := range append(l, fieldSources()...) {
		out = append(out, s.apiSpace())
	}
	return
}

// APIFacts is what the exported model says of a file.
func APIFacts(p *prutalgen.Proto) []string { return apiFacts(p) }
