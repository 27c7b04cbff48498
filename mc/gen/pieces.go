package gen

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// G14: the parts of the library a program can put together by itself. The code
// writer is a small state machine; all sequences of its calls are compared with
// a model of it. The generators of single declarations, the output of whole
// files and files that are built in must give what the whole command gives.

// ---- the writer

// wmodel is the reference of a CodeWriter.
type wmodel struct {
	header, pkg string
	pkgs        map[string]string
	weight      func(string) int
	body        string
}

func newWmodel(header, pkg string) *wmodel {
	return &wmodel{header: header, pkg: pkg, pkgs: map[string]string{}, weight: func(p string) int {
		if strings.HasPrefix(p, "github.com/cloudwego/") {
			return 1
		}
		return 0
	}}
}

// source is the file the calls so far stand for, up to formatting.
func (m *wmodel) source() string {
	s := m.header + "\n\npackage " + m.pkg + "\n\n"
	var pp []string
	for p := range m.pkgs {
		pp = append(pp, p)
	}
	sort.Slice(pp, func(i, j int) bool {
		if a, b := m.weight(pp[i]), m.weight(pp[j]); a != b {
			return a < b
		}
		return pp[i] < pp[j]
	})
	if len(pp) == 1 {
		s += fmt.Sprintf("import %s %q\n", m.pkgs[pp[0]], pp[0])
	} else if len(pp) > 1 {
		s += "import (\n"
		for k, p := range pp {
			if k > 0 && m.weight(p) != m.weight(pp[k-1]) {
				s += "\n"
			}
			s += fmt.Sprintf("\t%s %q\n", m.pkgs[p], p)
		}
		s += ")\n"
	}
	return s + "\n" + m.body
}

func (m *wmodel) use(p, a string) {
	if p == "" {
		return
	}
	if a == path.Base(p) {
		a = ""
	}
	m.pkgs[p] = a
}

func (m *wmodel) f(s string) {
	if !strings.HasSuffix(s, "\n") {
		s += "\n"
	}
	m.body += s
}

type wop struct {
	name string
	impl func(w *prutalgen.CodeWriter)
	ref  func(m *wmodel) *wmodel
}

func wops() []wop {
	use := func(p, a string) wop {
		return wop{fmt.Sprintf("UsePkg(%q, %q)", p, a), func(w *prutalgen.CodeWriter) { w.UsePkg(p, a) }, func(m *wmodel) *wmodel { m.use(p, a); return m }}
	}
	f := func(format string, a ...any) wop {
		return wop{fmt.Sprintf("F(%q, %q)", format, a), func(w *prutalgen.CodeWriter) { w.F(format, a...) }, func(m *wmodel) *wmodel {
			s := format
			if len(a) > 0 {
				s = fmt.Sprintf(format, a...)
			}
			m.f(s)
			return m
		}}
	}
	write := func(s string) wop {
		return wop{fmt.Sprintf("Write(%q)", s), func(w *prutalgen.CodeWriter) {
			b := []byte(s)
			n, err := w.Write(b)
			if n != len(s) || err != nil {
				panic(fmt.Sprintf("Write returns %d, %v", n, err))
			}
			for k := range b {
				b[k] = '#' // the writer may not keep it
			}
		}, func(m *wmodel) *wmodel { m.body += s; return m }}
	}
	reset := func(h, p string) wop {
		return wop{fmt.Sprintf("Reset(%q, %q)", h, p), func(w *prutalgen.CodeWriter) { w.Reset(h, p) }, func(m *wmodel) *wmodel {
			n := newWmodel(h, p)
			n.weight = m.weight // grouping is a setting, it stays
			return n
		}}
	}
	group := func(name string, g func(string) int) wop {
		return wop{"SetGroupingFunc(" + name + ")", func(w *prutalgen.CodeWriter) { w.SetGroupingFunc(g) }, func(m *wmodel) *wmodel {
			if g != nil {
				m.weight = g
			}
			return m
		}}
	}
	return []wop{
		use("fmt", ""), use("fmt", "fmt"), use("fmt", "f"), use("x.y/z", "z"), use("x.y/z", "q"), use("x.y/z", "."), use("github.com/cloudwego/a", ""),
		use("github.com/cloudwego", "c"), use("net/http", "p"), use("", "a"),
		f("var a = 1"), f(""), f("var b = %d // %s\n", 2, "{PRUTALGEN_GO_IMPORTS}"), f("// 100% {PRUTALGEN_GO_IMPORTS}"), f("%s", "// import \"x\"\n\n"),
		write("var c = 3\n"), write(""), write("// no line end, "), write("// package p\n"),
		reset("", "p"), reset("// h {PRUTALGEN_GO_IMPORTS}", "q"), reset("// h1\n// h2\n", "q"),
		group("nil", nil), group("length", func(p string) int { return len(p) }), group("constant", func(string) int { return -3 }),
	}
}

func formatted(s string) (string, error) {
	b, err := format.Source([]byte(s))
	if err != nil {
		return s, err
	}
	b, err = format.Source(b)
	return string(b), err
}

// writerSpace has every sequence of n calls; after each call the file is compared.
func writerSpace(n int) *core.Space {
	ops := wops()
	N := int64(1)
	for k := 0; k < n; k++ {
		N *= int64(len(ops))
	}
	seq := func(i int64) []wop {
		out := make([]wop, n)
		for k := n - 1; k >= 0; k-- {
			out[k] = ops[i%int64(len(ops))]
			i /= int64(len(ops))
		}
		return out
	}
	show := func(s []wop) string {
		out := []string{`NewCodeWriter("// head", "main")`}
		for _, o := range s {
			out = append(out, o.name)
		}
		return strings.Join(out, "; ")
	}
	return &core.Space{Name: "writer-histories", N: N, Block: 4096, Run: func(i int64, c *core.Ctx) {
		s := seq(i)
		w, m := prutalgen.NewCodeWriter("// head", "main"), newWmodel("// head", "main")
		type snap struct {
			b []byte
			s string
		}
		var snaps []snap
		for k, o := range s {
			if r := func() (r any) {
				defer func() { r = recover() }()
				o.impl(w)
				return nil
			}(); r != nil {
				c.Fail("panic", "%s\npanics: %v", show(s[:k+1]), r)
				return
			}
			m = o.ref(m)
			c.Trans(1)
			b := w.Bytes()
			snaps = append(snaps, snap{b, string(b)})
			rest := int64(1)
			for j := k; j < n-1; j++ {
				rest *= int64(len(ops))
			}
			if i%rest != 0 {
				continue // compared in the first sequence with this prefix
			}
			got, err := formatted(string(b))
			want, werr := formatted(m.source())
			if werr != nil {
				panic(werr)
			}
			if err != nil || got != want {
				c.Fail("file", "%s\ngives\n%s(%v), not\n%s", show(s[:k+1]), got, err, want)
				return
			}
			c.StateStr(got)
		}
		for k, x := range snaps {
			if string(x.b) != x.s {
				c.Fail("aliased", "%s\nthe bytes returned after call %d were changed by later calls", show(s), k)
				return
			}
		}
		for k := range snaps {
			for j := range snaps[k].b {
				snaps[k].b[j] = '#'
			}
		}
		if b := w.Bytes(); string(b) != snaps[n-1].s {
			c.Fail("shared", "%s\nBytes changes when the slices returned before are written to", show(s))
			return
		}
		c.Trace(1)
	}, Describe: func(i int64) string { return show(seq(i)) }}
}

// ---- declarations one by one, and whole files

// declTexts lists the declarations of a file and its imports, printed.
func declTexts(src []byte) (decls []string, imports []string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "a.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	for _, i := range f.Imports {
		s := i.Path.Value
		if i.Name != nil {
			s = i.Name.Name + " " + s
		}
		imports = append(imports, s)
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		var b bytes.Buffer
		var cs []*ast.CommentGroup
		for _, c := range f.Comments {
			if c.Pos() >= d.Pos() && c.End() <= d.End() {
				cs = append(cs, c)
			}
		}
		if err := printer.Fprint(&b, fs, &printer.CommentedNode{Node: d, Comments: cs}); err != nil {
			return nil, nil, err
		}
		decls = append(decls, b.String())
	}
	sort.Strings(imports)
	return
}

func mergeSorted(a, b []string) []string {
	m := map[string]bool{}
	for _, s := range append(append([]string{}, a...), b...) {
		m[s] = true
	}
	out := make([]string, 0, len(m))
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// pieces compares the parts of each file of a world with the whole.
func pieces(c *core.Ctx, w World, r *Result, o GenOpts) {
	g := prutalgen.NewGoCodeGen()
	g.Getter = o.Getter
	if o.Kitex {
		g.Marshaler = prutalgen.MarshalerKitexProtobuf
	}
	for _, p := range r.Protos {
		whole := prutalgen.NewCodeWriter("// h", p.GoPackage)
		g.ProtoGen(p, whole)
		c.Trans(1)
		text := string(whole.Bytes())
		decls, imports, err := declTexts([]byte(text))
		if err != nil {
			return // broken code is reported by G01
		}
		fail := func(key, f string, a ...any) {
			if !c.Failed() {
				c.Fail(key, "%s: %s\n%s", p.ProtoFile, fmt.Sprintf(f, a...), w.String())
			}
		}
		// one by one, each with a writer of its own
		var all, imps []string
		piece := func(what string, f func(w *prutalgen.CodeWriter)) {
			pw := prutalgen.NewCodeWriter("", p.GoPackage)
			f(pw)
			c.Trans(1)
			d, i, err := declTexts(pw.Bytes())
			if err != nil {
				fail("piece-syntax", "%s alone gives code that does not parse: %v", what, err)
				return
			}
			all = append(all, d...)
			imps = mergeSorted(imps, i)
			// into a file that has something already
			pw2 := prutalgen.NewCodeWriter("", p.GoPackage)
			pw2.UsePkg("x.y/zz", "other")
			pw2.F("var before = 1")
			f(pw2)
			pw2.F("var after = 1")
			d2, i2, err := declTexts(pw2.Bytes())
			want := append(append([]string{"var before = 1"}, d...), "var after = 1")
			if err != nil || strings.Join(d2, "\n") != strings.Join(want, "\n") {
				fail("piece-append", "%s does not just append to the file: %v\n%s", what, err, strings.Join(d2, "\n"))
			}
			if a, b := fmt.Sprint(mergeSorted(i, []string{`other "x.y/zz"`})), fmt.Sprint(i2); a != b {
				fail("piece-imports", "%s: imports %s, with another one used before %s", what, a, b)
			}
		}
		for _, e := range p.Enums {
			e := e
			piece("EnumGen("+e.Name+")", func(w *prutalgen.CodeWriter) { g.EnumGen(e, w) })
		}
		var nested func(m *prutalgen.Message)
		nested = func(m *prutalgen.Message) {
			for _, e := range m.Enums {
				e := e
				piece("EnumGen("+e.Name+")", func(w *prutalgen.CodeWriter) { g.EnumGen(e, w) })
			}
			for _, x := range m.Messages {
				nested(x)
			}
		}
		for _, m := range p.Messages {
			nested(m)
		}
		for _, m := range p.Messages {
			m := m
			piece("MessageGen("+m.Name+")", func(w *prutalgen.CodeWriter) { g.MessageGen(m, w) })
		}
		x, y := append([]string{}, all...), append([]string{}, decls...)
		sort.Strings(x)
		sort.Strings(y)
		if strings.Join(x, "\n") != strings.Join(y, "\n") {
			fail("sum", "the declarations generated one by one are\n%s\nthose of the file are\n%s", strings.Join(x, "\n"), strings.Join(y, "\n"))
		}
		if fmt.Sprint(imps) != fmt.Sprint(imports) {
			fail("sum-imports", "the declarations one by one import %v, the file %v", imps, imports)
		}
		// again, and with the same writer after Reset
		whole.Reset("// h", p.GoPackage)
		g.ProtoGen(p, whole)
		if string(whole.Bytes()) != text {
			fail("again", "the second time, the writer reset, the file is\n%s\nnot\n%s", whole.Bytes(), text)
		}
		if strings.HasPrefix(p.ProtoFile, "google/protobuf/") {
			continue
		}
		// what Gen writes
		out := filepath.Join(scratch(), "pieces")
		for _, fm := range []bool{true, false} {
			g.Format = fm
			if err := g.Gen(p, prutalgen.GenByImport, out); err != nil {
				fail("gen", "Gen: %v", err)
			}
			c.Trans(1)
			fn := g.SourcePath(p, prutalgen.GenByImport, out, ".pb.go")
			b, err := os.ReadFile(fn)
			os.Remove(fn)
			if err != nil {
				fail("gen", "Gen writes no %s", fn)
				continue
			}
			want := text
			if fm {
				f, err := format.Source([]byte(text))
				if err != nil {
					continue
				}
				want = string(f)
			}
			cut := func(s string) string { // the head has the command line
				k := strings.Index(s, "\npackage ")
				if k < 0 {
					return s
				}
				return s[k:]
			}
			if cut(string(b)) != cut(want) {
				fail("gen-text", "Gen with Format=%v writes\n%s\nProtoGen gives\n%s", fm, b, want)
			}
			if !strings.HasPrefix(string(b), "// Code generated by prutalgen. DO NOT EDIT.\n") {
				fail("gen-head", "the file is not marked as generated: %s", string(b[:min(len(b), 200)]))
			}
		}
		g.Format = true
		c.StateStr(text)
	}
}

func (s schemaSpace) piecesSpace(o GenOpts) *core.Space {
	return &core.Space{Name: "pieces-" + s.name, N: s.n, Block: 32, Run: func(i int64, c *core.Ctx) {
		w := s.make(i).World(false)
		r := Prutal(w, GenOpts{LoadOnly: true})
		if !r.OK {
			return
		}
		o := o
		if i%2 == 1 {
			o.Kitex = !o.Kitex
		}
		if i/2%2 == 1 {
			o.Getter = !o.Getter
		}
		pieces(c, w, r, o)
		c.Trace(1)
	}, Describe: func(i int64) string { return s.make(i).World(false).String() }}
}

// ---- files that are built in

// embeddedSubsets compares a world loaded from disk with every choice of its
// files registered as built in.
func embeddedSubsets(c *core.Ctx, w World, o GenOpts, base *Result, id int64) {
	names := make([]string, 0, len(w.Files))
	for n := range w.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for mask := 1; mask < 1<<len(names); mask++ {
		part := World{Root: w.Root, Files: map[string]string{}}
		var reg []string
		for k, n := range names {
			if mask>>k&1 == 1 {
				prutalgen.RegisterEmbeddedProto(n, []byte(w.Files[n]))
				reg = append(reg, n)
			} else {
				part.Files[n] = w.Files[n]
			}
		}
		r := Prutal(part, o)
		for _, n := range reg {
			prutalgen.RegisterEmbeddedProto(n, nil)
		}
		c.Trans(1)
		if r.OK != base.OK || r.Panic != "" {
			c.Fail("verdict", "with %v built in: accepted %v %s %s, from disk: %v %s\n%s", reg, r.OK, r.Fatal, r.Panic, base.OK, base.Fatal, w.String())
			return
		}
		if !r.OK {
			continue
		}
		for _, fn := range keys(base.Files) {
			if r.Files[fn] != base.Files[fn] {
				c.Fail("text", "with %v built in, %s is\n%s\nfrom disk it is\n%s\n%s", reg, fn, r.Files[fn], base.Files[fn], w.String())
				return
			}
		}
		if len(r.Files) != len(base.Files) {
			c.Fail("files", "with %v built in: %v, from disk: %v\n%s", reg, keys(r.Files), keys(base.Files), w.String())
			return
		}
		c.StateStr(fmt.Sprint(id, mask))
		c.Trace(1)
	}
}

// embeddedSpace loads each world from disk, and with every choice of its files
// registered as built in.
func (s schemaSpace) embeddedSpace() *core.Space {
	return &core.Space{Name: "built-in-" + s.name, N: s.n, Block: 32, Run: func(i int64, c *core.Ctx) {
		w := s.make(i).World(false)
		o := GenOpts{All: true, Getter: i%2 == 0}
		base := Prutal(w, o)
		if i%3 == 1 {
			names := w.names()
			o.M = map[string]string{names[len(names)-1]: "m.x/moved;mv"}
			base = Prutal(w, o)
		}
		embeddedSubsets(c, w, o, base, i)
	}, Describe: func(i int64) string { return s.make(i).World(false).String() }}
}

// graphSpace has every graph of imports between n files, with cycles and
// imports of a file by itself; of kinds of imports, the first is none.
func graphSpace(n int, kinds []string) *core.Space {
	N := int64(1)
	for k := 0; k < n*n; k++ {
		N *= int64(len(kinds))
	}
	world := func(i int64) World {
		w := World{Root: "d/f0.proto", Files: map[string]string{}}
		for a := 0; a < n; a++ {
			head, body := "", ""
			for b := 0; b < n; b++ {
				if kind := kinds[i%int64(len(kinds))]; kind != "" {
					head += fmt.Sprintf("%s \"d/f%d.proto\";\n", kind, b)
					body += fmt.Sprintf("M%d f%d = %d;\n", b, b, b+1)
				}
				i /= int64(len(kinds))
			}
			w.Files[fmt.Sprintf("d/f%d.proto", a)] = fmt.Sprintf("syntax = \"proto3\";\npackage p;\noption go_package = \"x.y/f%d\";\n%smessage M%d {\n%s}\n", a%2, head, a, body)
		}
		return w
	}
	return &core.Space{Name: fmt.Sprintf("built-in-graphs-%d-%d", n, len(kinds)), N: N, Block: 32, Run: func(i int64, c *core.Ctx) {
		w := world(i)
		o := GenOpts{All: true}
		base := Prutal(w, o)
		c.Trans(1)
		if v := Protoc(w); v.OK != base.OK || base.Panic != "" {
			c.Fail("graph", "protoc accepts: %v (%s), prutalgen: %v (%s%s)\n%s", v.OK, v.Text, base.OK, base.Fatal, base.Panic, w.String())
			return
		}
		embeddedSubsets(c, w, o, base, i)
	}, Describe: func(i int64) string { return world(i).String() }}
}

func pieceSpaces(tier string) []*core.Space {
	n := 4
	if tier == "thorough" {
		n = 5
	}
	thin := func(s schemaSpace, step int64) schemaSpace { // quick: every step-th world
		if tier == "thorough" {
			return s
		}
		mk := s.make
		s.make = func(i int64) *Schema { return mk(i * step) }
		s.n = (s.n + step - 1) / step
		return s
	}
	out := []*core.Space{writerSpace(n)}
	for _, s := range []schemaSpace{thin(srcComments(), 11), thin(srcTrees(), 2), thin(srcImports(), 7), thin(srcSequences(), 1), thin(srcWellKnown(), 7),
		thin(srcFields("proto2"), 1), thin(srcFields("proto3"), 1), thin(srcFields("2023"), 11)} {
		out = append(out, s.piecesSpace(s.opts))
	}
	for _, s := range []schemaSpace{thin(srcImports(), 17), thin(srcTrees(), 5)} {
		out = append(out, s.embeddedSpace())
	}
	out = append(out, graphSpace(2, []string{"", "import", "import public"}), graphSpace(3, []string{"", "import"}))
	if tier == "thorough" {
		out = append(out, graphSpace(3, []string{"", "import", "import public"}))
	}
	return out
}
