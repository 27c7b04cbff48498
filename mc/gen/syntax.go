package gen

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
	"google.golang.org/protobuf/types/descriptorpb"
)

// ---- what was loaded against what protoc read

func labelOf(f *descriptorpb.FieldDescriptorProto) string {
	switch f.GetLabel() {
	case descriptorpb.FieldDescriptorProto_LABEL_REPEATED:
		return "repeated"
	case descriptorpb.FieldDescriptorProto_LABEL_REQUIRED:
		return "required"
	}
	return ""
}

func typeText(t *prutalgen.Type) string {
	if full, _, _ := typeName(t); full != "" {
		return full
	}
	return t.Name
}

func descType(f *descriptorpb.FieldDescriptorProto) string {
	if f.GetTypeName() != "" {
		return f.GetTypeName()
	}
	return strings.ToLower(strings.TrimPrefix(f.GetType().String(), "TYPE_"))
}

// loadedText and descText render both in one form.
func loadedText(p *prutalgen.Proto) string {
	var b strings.Builder
	fmt.Fprintf(&b, "syntax %s package %s go %s\n", p.Edition, p.Package, p.GoImport)
	for _, i := range p.Imports {
		fmt.Fprintf(&b, "import public=%v\n", i.Public)
	}
	enum := func(e *prutalgen.Enum) {
		fmt.Fprintf(&b, "enum %s\n", e.FullName())
		for _, v := range e.Fields {
			fmt.Fprintf(&b, "  %s = %d\n", v.Name, v.Value)
		}
	}
	var msg func(m *prutalgen.Message)
	msg = func(m *prutalgen.Message) {
		fmt.Fprintf(&b, "message %s\n", m.FullName())
		for _, f := range m.Fields {
			l := ""
			switch {
			case f.Repeated:
				l = "repeated"
			case f.Required:
				l = "required"
			}
			t := typeText(f.Type)
			if f.IsMap() {
				t = "map<" + typeText(f.Key) + "," + t + ">"
			}
			o := ""
			if f.Oneof != nil {
				o = " oneof " + f.Oneof.Name
			}
			fmt.Fprintf(&b, "  %s %s %s = %d%s%s\n", l, t, f.Name, f.FieldNumber, o, loadedOpts(f.Options))
		}
		for _, e := range m.Enums {
			enum(e)
		}
		for _, n := range m.Messages {
			msg(n)
		}
	}
	for _, m := range p.Messages {
		msg(m)
	}
	for _, e := range p.Enums {
		enum(e)
	}
	for _, s := range p.Services {
		fmt.Fprintf(&b, "service %s\n", s.Name)
		for _, m := range s.Methods {
			fmt.Fprintf(&b, "  %s %v %s %v %s\n", m.Name, m.RequestStream, typeText(m.Request), m.ReturnStream, typeText(m.Return))
		}
	}
	return b.String()
}

func loadedOpts(oo prutalgen.Options) string {
	s := ""
	for _, n := range []string{"deprecated", "packed", "json_name"} {
		if v, ok := oo.Get(n); ok {
			s += fmt.Sprintf(" %s=%q", n, v)
		}
	}
	return s
}

func descText(fd *descriptorpb.FileDescriptorProto) string {
	var b strings.Builder
	sy := fd.GetSyntax()
	if sy == "" {
		sy = "proto2"
	}
	imp, _, _ := strings.Cut(fd.GetOptions().GetGoPackage(), ";")
	fmt.Fprintf(&b, "syntax %s package %s go %s\n", sy, fd.GetPackage(), strings.TrimSpace(imp))
	for i := range fd.Dependency {
		pub := false
		for _, k := range fd.PublicDependency {
			pub = pub || int(k) == i
		}
		fmt.Fprintf(&b, "import public=%v\n", pub)
	}
	enum := func(scope string, e *descriptorpb.EnumDescriptorProto) {
		fmt.Fprintf(&b, "enum %s\n", joined(scope, e.GetName()))
		for _, v := range e.Value {
			fmt.Fprintf(&b, "  %s = %d\n", v.GetName(), v.GetNumber())
		}
	}
	var msg func(scope string, m *descriptorpb.DescriptorProto)
	msg = func(scope string, m *descriptorpb.DescriptorProto) {
		full := joined(scope, m.GetName())
		fmt.Fprintf(&b, "message %s\n", full)
		maps := map[string]*descriptorpb.DescriptorProto{}
		for _, n := range m.NestedType {
			if n.GetOptions().GetMapEntry() {
				maps["."+full+"."+n.GetName()] = n
			}
		}
		for _, f := range m.Field {
			l, t, o := labelOf(f), descType(f), ""
			if n := maps[f.GetTypeName()]; n != nil {
				l, t = "", "map<"+descType(n.Field[0])+","+descType(n.Field[1])+">"
			}
			if f.OneofIndex != nil && !f.GetProto3Optional() {
				o = " oneof " + m.OneofDecl[f.GetOneofIndex()].GetName()
			}
			s := ""
			if f.Options != nil && f.Options.Deprecated != nil {
				s += fmt.Sprintf(" deprecated=%q", fmt.Sprint(f.Options.GetDeprecated()))
			}
			if f.Options != nil && f.Options.Packed != nil {
				s += fmt.Sprintf(" packed=%q", fmt.Sprint(f.Options.GetPacked()))
			}
			if f.GetJsonName() != jsonName(f.GetName()) {
				s += fmt.Sprintf(" json_name=%q", f.GetJsonName())
			}
			fmt.Fprintf(&b, "  %s %s %s = %d%s%s\n", l, t, f.GetName(), f.GetNumber(), o, s)
		}
		for _, e := range m.EnumType {
			enum(full, e)
		}
		for _, n := range m.NestedType {
			if !n.GetOptions().GetMapEntry() {
				msg(full, n)
			}
		}
	}
	for _, m := range fd.MessageType {
		msg(fd.GetPackage(), m)
	}
	for _, e := range fd.EnumType {
		enum(fd.GetPackage(), e)
	}
	for _, s := range fd.Service {
		fmt.Fprintf(&b, "service %s\n", s.GetName())
		for _, m := range s.Method {
			fmt.Fprintf(&b, "  %s %v %s %v %s\n", m.GetName(), m.GetClientStreaming(), m.GetInputType(), m.GetServerStreaming(), m.GetOutputType())
		}
	}
	return b.String()
}

func joined(scope, n string) string {
	if scope == "" {
		return n
	}
	return scope + "." + n
}

func jsonName(s string) string {
	var b strings.Builder
	up := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' {
			up = true
			continue
		}
		if up && c >= 'a' && c <= 'z' {
			c -= 32
		}
		up = false
		b.WriteByte(c)
	}
	return b.String()
}

// ---- token sequences

var corpus = []string{
	`syntax = "proto3" ; package a . b ; option go_package = "x.y/p" ; message M { optional int32 f = 1 [ deprecated = true , json_name = "q" ] ; repeated M.N g = 2 ; message N { } ; }`,
	`syntax = "proto2" ; option go_package = "x.y/p" ; message M { required string f = 1 ; optional E e = 2 ; repeated int32 p = 3 [ packed = true ] ; enum E { option allow_alias = true ; A = 0 ; B = -1 [ deprecated = false ] ; C = 0 ; } }`,
	`syntax = "proto3" ; option go_package = "x.y/p" ; message M { oneof o { int32 a = 1 ; .M b = 2 ; } map < string , M > m = 3 ; reserved 5 , 7 to 9 , 20 to max ; reserved "x" , 'y' ; }`,
	`syntax = "proto3" ; option go_package = "x.y/p" ; message M { } service S { rpc A ( M ) returns ( stream M ) ; rpc B ( stream .M ) returns ( M ) { option deprecated = true ; } option deprecated = false ; }`,
	`syntax = "proto2" ; option go_package = "x.y/p" ; import "d.proto" ; import public "e.proto" ; message M { optional d.D x = 1 ; extensions 100 to 199 , 300 ; optional e.E y = 2 ; } extend M { optional int32 z = 100 ; }`,
	`syntax = "proto3" ; option go_package = "x.y" "/p" ; option java_package = 'a' ; option cc_enable_arenas = false ; enum E { Z = 0 ; X = 0x1F ; O = 017 ; reserved 40 to 50 ; }`,
}

var extraFiles = map[string]string{
	"d.proto": "syntax = \"proto3\";\npackage d;\noption go_package = \"x.y/d\";\nmessage D { }\n",
	"e.proto": "syntax = \"proto3\";\npackage e;\noption go_package = \"x.y/e\";\nmessage E { }\n",
}

var tokenAlphabet = []string{"", ";", "=", "(", ")", "[", "]", "{", "}", "<", ">", ".", ",", ":", "-", "+", "1", "0", "1.5", `"s"`, "'", "message", "enum", "service", "rpc", "returns", "stream", "oneof", "map", "reserved", "extensions", "extend", "option", "optional", "required", "repeated", "import", "public", "weak", "package", "syntax", "edition", "to", "max", "int32", "string", "true", "M", "f", "_x", "// c\n", "/* c */", "/*", "@"}

// editsOf lists the edits of one token sequence: replace, insert, swap.
func editCount(n int) int64 { return int64(n*len(tokenAlphabet)*2 + n - 1) }

func editTokens(toks []string, i int64) []string {
	n := int64(len(toks))
	a := int64(len(tokenAlphabet))
	out := append([]string(nil), toks...)
	switch {
	case i < n*a:
		out[i/a] = tokenAlphabet[i%a]
	case i < 2*n*a:
		i -= n * a
		p := i / a
		out = append(out[:p:p], append([]string{tokenAlphabet[i%a]}, toks[p:]...)...)
	default:
		i -= 2 * n * a
		out[i], out[i+1] = out[i+1], out[i]
	}
	return out
}

func syntaxWorld(text string) World {
	w := one("a.proto", text)
	for n, s := range extraFiles {
		if strings.Contains(text, n) {
			w.Files[n] = s
		}
	}
	return w
}

// Texts protoc's parser refuses and prutalgen tolerates: what the words mean is clear.
var tolerated = []*regexp.Regexp{
	regexp.MustCompile(`Expected "required", "optional", or "repeated"`), // taken as optional
	regexp.MustCompile(`declares support for enum aliases but no enum values share`),
	regexp.MustCompile(`Expected string for JSON name`),
	regexp.MustCompile(`Expected top-level statement`),                            // edition = "proto3"
	regexp.MustCompile(`Expected message type`),                                   // extend int32 { }, not generated anyway
	regexp.MustCompile(`Expected enum value or number range|Expected identifier`), // keywords as names
	regexp.MustCompile(`Expected option value`),                                   // +1
	regexp.MustCompile(`inside block comment`),
	regexp.MustCompile(`Expected type name`), // an empty statement in a oneof
}

var keywordName = regexp.MustCompile(`\brequired\b`)
var keywordLabel = regexp.MustCompile(`([{;]\s*)required(\s+[^=\s])`)

var minusInReserved = regexp.MustCompile(`(reserved[^;"]*)-\s*`)

// negativeRange: the text is refused only because the grammar has no negative reserved numbers.
func negativeRange(w World) bool {
	t := w.Files[w.Root]
	n := t
	for minusInReserved.MatchString(n) {
		n = minusInReserved.ReplaceAllString(n, "${1}1")
	}
	if n == t {
		return false
	}
	v := World{Root: w.Root, Files: map[string]string{w.Root: n}}
	return Prutal(v, GenOpts{LoadOnly: true}).OK
}

// requiredAsName: the text is refused only because the grammar does not take "required" as a name.
func requiredAsName(w World) bool {
	t := w.Files[w.Root]
	const l = "\x01"
	n := keywordLabel.ReplaceAllString(t, "${1}"+l+"${2}")
	n = keywordName.ReplaceAllString(n, "requirer")
	n = strings.ReplaceAll(n, l, "required")
	if n == t {
		return false
	}
	w2 := World{Root: w.Root, Files: map[string]string{}}
	for k, v := range w.Files {
		w2.Files[k] = v
	}
	w2.Files[w.Root] = n
	return Protoc(w2).OK && Prutal(w2, GenOpts{LoadOnly: true}).OK
}

// compareLoad compares verdict and content of one world. The verdict counts
// only if protoc accepts, or if its parser (not a later check) refuses.
func compareLoad(c *core.Ctx, w World) {
	v := Protoc(w)
	r := Prutal(w, GenOpts{LoadOnly: true})
	c.Trans(1)
	if r.Panic != "" {
		c.Fail("panic", "prutalgen panics: %s\n%s", r.Panic, w)
		return
	}
	switch {
	case v.OK && strings.TrimSpace(v.Set.File[len(v.Set.File)-1].GetOptions().GetGoPackage()) == "":
		c.Count("without-go_package", 1)
	case v.OK && !r.OK:
		key := "refused:" + errClass(r.Fatal)
		if requiredAsName(w) {
			key = "keyword-required-as-name"
		} else if negativeRange(w) {
			key = "negative-enum-range"
		}
		c.Fail(key, "protoc accepts, prutalgen refuses: %s\n%s\n%s", r.Fatal, strings.Join(r.Logged, ""), w)
	case v.OK:
		c.Count("valid", 1)
		c.Trace(1)
		got, want := loadedText(r.Protos[0]), descText(v.Set.File[len(v.Set.File)-1])
		c.StateStr(want)
		if got != want {
			c.Fail("content", "loaded as\n%s\nprotoc reads\n%s\n%s", got, want, w)
		}
	case v.Syntax:
		c.Count("not-parsed-by-protoc", 1)
		if r.OK {
			for _, t := range tolerated {
				if t.MatchString(v.Text) || strings.Contains(w.Files[w.Root], " extend ") { // extensions are not generated
					c.Count("tolerated", 1)
					return
				}
			}
			c.Fail("accepted:"+errClass(v.Text), "protoc cannot parse it (%s), prutalgen accepts\n%s", strings.TrimSpace(v.Text), w)
		}
	default:
		c.Count("refused-by-later-checks", 1)
	}
}

func tokenSpace() *core.Space {
	var seqs [][]string
	var from []int64
	var n int64
	for _, s := range corpus {
		t := strings.Fields(s)
		seqs = append(seqs, t)
		from = append(from, n)
		n += editCount(len(t))
	}
	text := func(i int64) string {
		k := len(seqs) - 1
		for from[k] > i {
			k--
		}
		return strings.Join(editTokens(seqs[k], i-from[k]), " ") + "\n"
	}
	return &core.Space{Name: "token-edits", N: n, Describe: func(i int64) string { return text(i) }, Run: func(i int64, c *core.Ctx) {
		compareLoad(c, syntaxWorld(text(i)))
	}}
}

// pairSpace replaces two neighbouring tokens
func pairSpace() *core.Space {
	var seqs [][]string
	var from []int64
	var n int64
	a := int64(len(tokenAlphabet))
	for _, s := range corpus {
		t := strings.Fields(s)
		seqs = append(seqs, t)
		from = append(from, n)
		n += int64(len(t)-1) * a * a
	}
	text := func(i int64) string {
		k := len(seqs) - 1
		for from[k] > i {
			k--
		}
		i -= from[k]
		t := append([]string(nil), seqs[k]...)
		p := i / (a * a)
		t[p], t[p+1] = tokenAlphabet[i/a%a], tokenAlphabet[i%a]
		return strings.Join(t, " ") + "\n"
	}
	return &core.Space{Name: "token-pair-edits", N: n, Block: 1024, Describe: text, Run: func(i int64, c *core.Ctx) {
		compareLoad(c, syntaxWorld(text(i)))
	}}
}

var fileStatements = []string{`syntax = "proto2" ;`, `syntax = "proto3" ;`, `package p ;`, `package p . q ;`, `import "d.proto" ;`, `import public "e.proto" ;`, `option java_package = "j" ;`,
	`message M { optional M m = 1 ; repeated E e = 2 ; }`, `enum E { A = 0 ; }`, `message N { optional e.E x = 1 ; }`, `service S { rpc A ( M ) returns ( M ) ; }`, `;`}

var messageStatements = []string{"optional int32 a = 1 ;", "repeated M b = 2 ;", "oneof o { int32 c = 3 ; }", "oneof p { string d = 4 ; M e = 5 ; }", "map < string , M > f = 6 ;", "reserved 7 , 9 to 10 ;",
	`reserved "x" ;`, "message N { optional M m = 1 ; }", "enum E { A = 0 ; }", "option deprecated = true ;", ";"}

// contexts and the tokens tried in each of them
var bodies = []struct {
	name, before, after string
	toks                []string
	max                 int
}{
	{"file", `syntax = "proto3" ; option go_package = "x.y/p" ;`, `message M { }`, []string{";", "message", "enum", "service", "A", "B", "{", "}", "package", ".", "import", "public", `"d.proto"`, "option"}, 5},
	{"message", `syntax = "proto3" ; option go_package = "x.y/p" ; message M {`, `}`, []string{"optional", "repeated", "int32", "M", ".", "a", "=", "1", "2", ";", "message", "{", "}"}, 5},
	{"message-2", `syntax = "proto2" ; option go_package = "x.y/p" ; message M {`, `}`, []string{"reserved", "extensions", "1", "to", "max", ",", ";", `"a"`, "optional", "int32", "a", "="}, 5},
	{"field", `syntax = "proto2" ; option go_package = "x.y/p" ; message M { optional`, ` = 1 ; }`, []string{"int32", "M", ".", "a", "optional", "required", "message", "map", "<", ">", ",", "string"}, 5},
	{"options", `syntax = "proto2" ; option go_package = "x.y/p" ; message M { repeated int32 a = 1`, `; }`, []string{"[", "]", "packed", "deprecated", "=", "true", "false", ",", "(", ")", ".", "a"}, 5},
	{"enum", `syntax = "proto2" ; option go_package = "x.y/p" ; enum E { A = 0 ;`, `}`, []string{"B", "C", "=", "1", "-", ";", "reserved", "to", "[", "deprecated", "true", "]", "option"}, 5},
	{"oneof", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { oneof o { int32 z = 9 ;`, `} }`, []string{"int32", "M", ".", "a", "b", "=", "1", "2", ";", "[", "deprecated", "true", "]"}, 5},
	{"map", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { map`, `; }`, []string{"<", ">", "string", "int32", "M", ",", "a", "=", "1"}, 6},
	{"service", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { } service S {`, `}`, []string{"rpc", "A", "(", ")", "M", "stream", "returns", ";", "{", "}"}, 6},
	{"rpc", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { } service S { rpc A (`, `}`, []string{")", "returns", "(", "M", ".", "stream", "{", "}", ";"}, 7},
	{"file statements", ``, `option go_package = "x.y/p" ;`, fileStatements, 5},
	{"file statements-2", `option go_package = "x.y/p" ; import "d.proto" ; package p ;`, ``, fileStatements, 4},
	{"message statements", `syntax = "proto3" ; option go_package = "x.y/p" ; message M {`, `}`, append([]string{"repeated int32 g = 8 [ packed = false ] ;"}, messageStatements...), 5},
	{"message statements-2", `syntax = "proto2" ; option go_package = "x.y/p" ; message M {`, `}`, append([]string{"required int32 g = 8 ;", "extensions 100 to 200 ;", "extend M { optional int32 y = 100 ; }"}, messageStatements...), 5},
	{"enum statements", `syntax = "proto3" ; option go_package = "x.y/p" ; enum E {`, `}`, []string{"A = 0 ;", "B = 1 ;", "C = 0 ;", "option allow_alias = true ;", "reserved 2 to 3 ;", "reserved \"D\" ;", ";", "F = 9 [ deprecated = true ] ;", "option deprecated = false ;"}, 6},
	{"service statements", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { } service S {`, `}`, []string{"rpc A ( M ) returns ( M ) ;", "rpc B ( stream .M ) returns ( stream M ) { }", "rpc C ( M ) returns ( stream M ) { option deprecated = true ; ; }", ";", "option deprecated = true ;", "rpc D ( M ) returns ( M ) { ; } ;"}, 5},
	{"oneof statements", `syntax = "proto3" ; option go_package = "x.y/p" ; message M { oneof o {`, `} int32 z = 4 ; }`, []string{"int32 a = 1 ;", "M b = 2 ;", ".M c = 3 [ deprecated = true ] ;", "option ( x ) = 1 ;", ";", "repeated int32 d = 5 ;", "optional int32 e = 6 ;", "map < int32 , M > f = 7 ;", "oneof p { int32 g = 8 ; }", "reserved 9 ;", "message N { }"}, 4},
	{"constant", `syntax = "proto3" ; option go_package = "x.y/p" ; option java_package =`, `;`, []string{`"a"`, "'b'", "1", "-", "true", "x", "{", "}", ":", "1.5"}, 4},
}

// bodySpace puts every token sequence into every context; short ones too.
func bodySpace(less int) *core.Space {
	var from []int64
	var n int64
	ws := make([]wordSpace, len(bodies))
	for k, b := range bodies {
		ws[k] = wordSpace{b.toks, b.max - less}
		from = append(from, n)
		n += ws[k].count()
	}
	text := func(i int64) string {
		k := len(bodies) - 1
		for from[k] > i {
			k--
		}
		return bodies[k].before + " " + strings.Join(ws[k].word(i-from[k]), " ") + " " + bodies[k].after + "\n"
	}
	return &core.Space{Name: "token-sequences", N: n, Block: 1024, Describe: text, Run: func(i int64, c *core.Ctx) {
		compareLoad(c, syntaxWorld(text(i)))
	}}
}

// charSpace puts every short string of characters where white space may be.
func charSpace(max int) *core.Space {
	ws := wordSpace{[]string{" ", "\n", "/", "*", "\r\n", "\t", "\v", "\f", "a", "\"", "\ufeff", "#", ";", "\\"}, max}
	places := []struct{ before, after string }{
		{"", "syntax = \"proto3\"; option go_package = \"x.y/p\"; message M { }"},
		{"syntax = \"proto3\"; option go_package = \"x.y/p\"; message M { int32", "a = 1; }"},
		{"syntax = \"proto3\"; option go_package = \"x.y/p\"; message M { ", " message N { } }"},
		{"syntax = \"proto3\"; option go_package = \"x.y/p\"; enum E { A = 0;", "}\n// end"},
		{"syntax = \"proto3\"; option go_package = \"x.y/p\"; message M { }", ""},
	}
	n := ws.count()
	text := func(i int64) string {
		p := places[i/n]
		return p.before + strings.Join(ws.word(i%n), "") + p.after
	}
	return &core.Space{Name: "characters", N: n * int64(len(places)), Block: 1024, Describe: text, Run: func(i int64, c *core.Ctx) {
		compareLoad(c, syntaxWorld(text(i)))
	}}
}
