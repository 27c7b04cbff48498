package gen

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
)

// The schema model: what the enumerated schemas are built from.

type Opt struct{ Name, Val string }

type Field struct {
	Label, Type, Key, Name string
	Num                    int
	Opts                   []Opt
	Oneof                  string
	Dir                    string // comment in front of the field
	Tail                   string // comment behind it
}

type Enum struct {
	Name string
	Vals []EnumVal
	Opts []Opt
	Dir  string
}

type EnumVal struct {
	Name string
	Num  string
	Tail string
}

type Msg struct {
	Name   string
	Fields []Field
	Msgs   []*Msg
	Enums  []*Enum
	Opts   []Opt
	Raw    []string // further lines, such as reserved ranges
	Dir    string
}

type Import struct {
	Path   string
	Public bool
}

type File struct {
	Name    string
	Syntax  string // proto2, proto3, 2023, "" (proto2 without a statement)
	Pkg     string
	GoPkg   string
	Imports []Import
	Opts    []Opt
	Msgs    []*Msg
	Enums   []*Enum
	Raw     []string
	Dir     string

	Verbatim string // the text, if it is not to be printed
}

func opts(oo []Opt) string {
	if len(oo) == 0 {
		return ""
	}
	var ss []string
	for _, o := range oo {
		ss = append(ss, o.Name+" = "+o.Val)
	}
	return " [" + strings.Join(ss, ", ") + "]"
}

func features(oo []Opt) (rest, feat []Opt) {
	for _, o := range oo {
		if strings.HasPrefix(o.Name, "features.") {
			feat = append(feat, o)
		} else {
			rest = append(rest, o)
		}
	}
	return
}

// Text prints the file. With carrier set it is the file's structure as proto2
// that protoc 3.21 can read; features are then patched onto the descriptor.
func (f *File) Text(carrier bool) string {
	if f.Verbatim != "" {
		return f.Verbatim
	}
	var b strings.Builder
	ed := f.Syntax == "2023"
	line := func(ind int, format string, a ...any) {
		b.WriteString(strings.Repeat("  ", ind))
		fmt.Fprintf(&b, format, a...)
		b.WriteByte('\n')
	}
	dir := func(ind int, d string) {
		if d != "" {
			for _, l := range strings.Split(d, "\n") {
				line(ind, "%s", l)
			}
		}
	}
	clean := func(oo []Opt) []Opt {
		if carrier && ed {
			oo, _ = features(oo)
		}
		return oo
	}
	dir(0, f.Dir)
	switch {
	case ed && carrier:
		line(0, "syntax = \"proto2\";")
	case ed:
		line(0, "edition = \"2023\";")
	case f.Syntax != "":
		line(0, "syntax = %q;", f.Syntax)
	}
	if f.Pkg != "" {
		line(0, "package %s;", f.Pkg)
	}
	if f.GoPkg != "" {
		line(0, "option go_package = %q;", f.GoPkg)
	}
	for _, o := range clean(f.Opts) {
		line(0, "option %s = %s;", o.Name, o.Val)
	}
	for _, i := range f.Imports {
		p := ""
		if i.Public {
			p = "public "
		}
		line(0, "import %s%q;", p, i.Path)
	}
	for _, r := range f.Raw {
		line(0, "%s", r)
	}
	enum := func(ind int, e *Enum) {
		dir(ind, e.Dir)
		line(ind, "enum %s {", e.Name)
		for _, o := range clean(e.Opts) {
			line(ind+1, "option %s = %s;", o.Name, o.Val)
		}
		for _, v := range e.Vals {
			line(ind+1, "%s = %s;%s", v.Name, v.Num, v.Tail)
		}
		line(ind, "}")
	}
	field := func(ind int, x Field) {
		l := x.Label
		if ed && carrier && l == "" && x.Key == "" && x.Oneof == "" {
			l = "optional"
		}
		if l != "" {
			l += " "
		}
		t := x.Type
		if x.Key != "" {
			t = "map<" + x.Key + ", " + x.Type + ">"
		}
		dir(ind, x.Dir)
		line(ind, "%s%s %s = %d%s;%s", l, t, x.Name, x.Num, opts(clean(x.Opts)), x.Tail)
	}
	var msg func(ind int, m *Msg)
	msg = func(ind int, m *Msg) {
		dir(ind, m.Dir)
		line(ind, "message %s {", m.Name)
		for _, o := range clean(m.Opts) {
			line(ind+1, "option %s = %s;", o.Name, o.Val)
		}
		for _, r := range m.Raw {
			line(ind+1, "%s", r)
		}
		for i := 0; i < len(m.Fields); i++ {
			x := m.Fields[i]
			if x.Oneof == "" {
				field(ind+1, x)
				continue
			}
			line(ind+1, "oneof %s {", x.Oneof)
			for ; i < len(m.Fields) && m.Fields[i].Oneof == x.Oneof; i++ {
				field(ind+2, m.Fields[i])
			}
			i--
			line(ind+1, "}")
		}
		for _, e := range m.Enums {
			enum(ind+1, e)
		}
		for _, n := range m.Msgs {
			msg(ind+1, n)
		}
		line(ind, "}")
	}
	for _, e := range f.Enums {
		enum(0, e)
	}
	for _, m := range f.Msgs {
		msg(0, m)
	}
	return b.String()
}

func featureSet(oo []Opt) *descriptorpb.FeatureSet {
	_, ff := features(oo)
	if len(ff) == 0 {
		return nil
	}
	s := &descriptorpb.FeatureSet{}
	for _, o := range ff {
		switch o.Name {
		case "features.field_presence":
			s.FieldPresence = descriptorpb.FeatureSet_FieldPresence(descriptorpb.FeatureSet_FieldPresence_value[o.Val]).Enum()
		case "features.repeated_field_encoding":
			s.RepeatedFieldEncoding = descriptorpb.FeatureSet_RepeatedFieldEncoding(descriptorpb.FeatureSet_RepeatedFieldEncoding_value[o.Val]).Enum()
		case "features.enum_type":
			s.EnumType = descriptorpb.FeatureSet_EnumType(descriptorpb.FeatureSet_EnumType_value[o.Val]).Enum()
		case "features.utf8_validation":
			s.Utf8Validation = descriptorpb.FeatureSet_Utf8Validation(descriptorpb.FeatureSet_Utf8Validation_value[o.Val]).Enum()
		case "features.message_encoding":
			s.MessageEncoding = descriptorpb.FeatureSet_MessageEncoding(descriptorpb.FeatureSet_MessageEncoding_value[o.Val]).Enum()
		case "features.json_format":
			s.JsonFormat = descriptorpb.FeatureSet_JsonFormat(descriptorpb.FeatureSet_JsonFormat_value[o.Val]).Enum()
		default:
			panic("feature " + o.Name)
		}
	}
	return s
}

// patch turns the carrier's descriptor into the one of the edition file.
func (f *File) patch(fd *descriptorpb.FileDescriptorProto) {
	if f.Syntax != "2023" {
		return
	}
	fd.Syntax = proto.String("editions")
	fd.Edition = descriptorpb.Edition_EDITION_2023.Enum()
	if s := featureSet(f.Opts); s != nil {
		if fd.Options == nil {
			fd.Options = &descriptorpb.FileOptions{}
		}
		fd.Options.Features = s
	}
	enum := func(e *Enum, d *descriptorpb.EnumDescriptorProto) {
		if s := featureSet(e.Opts); s != nil {
			if d.Options == nil {
				d.Options = &descriptorpb.EnumOptions{}
			}
			d.Options.Features = s
		}
	}
	var msg func(m *Msg, d *descriptorpb.DescriptorProto)
	msg = func(m *Msg, d *descriptorpb.DescriptorProto) {
		if s := featureSet(m.Opts); s != nil {
			if d.Options == nil {
				d.Options = &descriptorpb.MessageOptions{}
			}
			d.Options.Features = s
		}
		for i, x := range m.Fields {
			if s := featureSet(x.Opts); s != nil {
				if d.Field[i].Options == nil {
					d.Field[i].Options = &descriptorpb.FieldOptions{}
				}
				d.Field[i].Options.Features = s
			}
		}
		k := 0
		for _, n := range m.Msgs {
			for d.NestedType[k].GetOptions().GetMapEntry() {
				k++
			}
			msg(n, d.NestedType[k])
			k++
		}
		for i, e := range m.Enums {
			enum(e, d.EnumType[i])
		}
	}
	for i, m := range f.Msgs {
		msg(m, fd.MessageType[i])
	}
	for i, e := range f.Enums {
		enum(e, fd.EnumType[i])
	}
}

// Schema is a set of modelled files.
type Schema struct {
	Files []*File // the first is the root
}

func (s *Schema) World(carrier bool) World {
	w := World{Files: map[string]string{}, Root: s.Files[0].Name}
	for _, f := range s.Files {
		w.Files[f.Name] = f.Text(carrier)
	}
	return w
}

// Verdict asks protoc about the schema, going through a carrier for files of
// an edition, whose features the official Go implementation then resolves.
func (s *Schema) Verdict() *Verdict {
	ed := false
	for _, f := range s.Files {
		if f.Syntax == "2023" {
			ed = true
		}
	}
	v := Protoc(s.World(ed))
	if !ed || !v.OK {
		return v
	}
	for _, f := range s.Files {
		if bad := f.editionRules(); bad != "" {
			return &Verdict{Syntax: true, Text: bad}
		}
	}
	for _, fd := range v.Set.File {
		for _, f := range s.Files {
			if f.Name == fd.GetName() {
				f.patch(fd)
			}
		}
	}
	if _, err := Descriptors(v.Set); err != nil {
		return &Verdict{Text: err.Error()}
	}
	return v
}

// editionRules are protoc's additional rules for editions (parser.cc and
// DescriptorBuilder::ValidateFieldFeatures of later releases): no labels but
// repeated, no packed option, features only where they mean something.
func (f *File) editionRules() string {
	if f.Syntax != "2023" {
		return ""
	}
	filePresence := ""
	closed := map[string]bool{}
	for _, o := range f.Opts {
		if o.Name == "features.field_presence" {
			filePresence = o.Val
		}
	}
	if filePresence == "LEGACY_REQUIRED" {
		return "required presence by default"
	}
	isClosed := func(oo []Opt) bool {
		c := false
		for _, l := range [][]Opt{f.Opts, oo} {
			for _, o := range l {
				if o.Name == "features.enum_type" {
					c = o.Val == "CLOSED"
				}
			}
		}
		return c
	}
	kind := map[string]string{}
	for _, s := range scalars {
		kind[s] = "scalar"
	}
	kind["string"], kind["bytes"] = "string", "bytes"
	var collect func(pre string, m *Msg)
	enum := func(pre string, e *Enum) {
		kind[e.Name], kind[pre+e.Name] = "enum", "enum"
		closed[e.Name], closed[pre+e.Name] = isClosed(e.Opts), isClosed(e.Opts)
	}
	collect = func(pre string, m *Msg) {
		for _, e := range m.Enums {
			enum(pre+m.Name+".", e)
		}
		for _, n := range m.Msgs {
			collect(pre+m.Name+".", n)
		}
	}
	for _, e := range f.Enums {
		enum("", e)
	}
	for _, m := range f.Msgs {
		collect("", m)
	}
	kind["other.ExtE"] = "enum"
	var msg func(m *Msg) string
	msg = func(m *Msg) string {
		for _, x := range m.Fields {
			if x.Label == "optional" || x.Label == "required" {
				return "label " + x.Label + " in an edition"
			}
			k := kind[x.Type]
			if x.Key != "" || k == "" {
				k = "message"
			}
			rep := x.Key != "" || x.Label == "repeated"
			presence := filePresence
			for _, o := range x.Opts {
				switch o.Name {
				case "packed":
					return "option packed in an edition"
				case "features.field_presence":
					presence = o.Val
					switch {
					case rep:
						return "presence of a repeated field"
					case x.Oneof != "":
						return "presence of a oneof field"
					case k == "message" && o.Val == "IMPLICIT":
						return "implicit presence of a message field"
					}
				case "features.repeated_field_encoding":
					switch {
					case !rep:
						return "repeated encoding of a singular field"
					case o.Val == "PACKED" && k != "scalar" && k != "enum":
						return "packed encoding of a field that cannot be packed"
					}
				}
			}
			if !rep && x.Oneof == "" && k == "enum" && closed[x.Type] && presence == "IMPLICIT" {
				return "implicit presence of a closed enum"
			}
		}
		for _, n := range m.Msgs {
			if s := msg(n); s != "" {
				return s
			}
		}
		return ""
	}
	for _, m := range f.Msgs {
		if s := msg(m); s != "" {
			return s
		}
	}
	return ""
}
