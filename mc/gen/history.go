package gen

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// ---- one loader, used for one file after the other, some of which fail

const histHead = "syntax = \"proto3\";\npackage %s;\noption go_package = \"x.y/%s\";\n"

var histFiles = func() map[string]string {
	h := func(pkg string) string { return fmt.Sprintf(histHead, pkg, pkg) }
	return map[string]string{
		"plain.proto":   h("pl") + "message M { enum E { A = 0; B = 1; } E e = 1; M m = 2; map<string, M> mm = 3; }\nenum E { Z = 0; }\n// at the end",
		"nested.proto":  h("ne") + "// of M\nmessage M { message N { message O { oneof o { N n = 1; O p = 2; } } O o = 1; } N.O f = 1; }\nservice S { rpc A(M) returns (stream M.N); }",
		"imports.proto": h("im") + "import \"plain.proto\";\nimport public \"wk.proto\";\nmessage M { pl.M m = 1; pl.M.E e = 2; google.protobuf.Any a = 3; }",
		"wk.proto":      "syntax = \"proto2\";\npackage wk;\noption go_package = \"x.y/wk;named\";\nimport public \"google/protobuf/any.proto\";\nimport \"google/protobuf/struct.proto\";\nmessage M { optional google.protobuf.Any a = 1; required google.protobuf.Struct s = 2; repeated int32 r = 3 [packed = true]; }",
		"direct.proto":  "//prutalgen:no_pointer\n//prutalgen:unknown_fields\n\n" + h("di") + "message M { M.N n = 1; message N { } optional string s = 2; }\n//prutalgen:no_enum_prefix\nenum E { DA = 0; }",
		"names.proto":   h("na") + "message M { int32 get_x = 1; oneof x { string y = 2; int32 reset = 3; } message X { } enum Y { V = 0; } }\nmessage M_X { }",
		"edition.proto": "edition = \"2023\";\npackage ed;\noption go_package = \"x.y/ed\";\noption features.field_presence = IMPLICIT;\nmessage M { int32 a = 1; repeated int32 r = 2 [features.repeated_field_encoding = EXPANDED]; string s = 3 [features.field_presence = EXPLICIT]; }",
		"nopkg.proto":   "syntax = \"proto3\";\noption go_package = \"x.y/nopkg\";\nmessage M { E e = 1; }\nenum E { A = 0; }",

		"bad-token.proto":   h("b") + "message M { message N { int32 f = ; } }",
		"bad-char.proto":    h("b") + "message M { @ }",
		"bad-eof.proto":     h("b") + "message M { message N { oneof o { int32 a = 1; /* ",
		"bad-number.proto":  h("b") + "message M { message N { oneof o { int32 a = 1; int32 b = 4294967296; } } }",
		"bad-value.proto":   h("b") + "message M { enum E { A = 0; B = 4294967296; } }",
		"bad-escape.proto":  h("b") + "message M { int32 f = 1 [json_name = \"\\xzz\"]; }",
		"bad-file.proto":    h("b") + "message L { }\nimport \"missing.proto\";",
		"bad-cycle.proto":   h("b") + "import \"bad-cycle.proto\";",
		"bad-dep.proto":     h("b") + "import \"plain.proto\";\nimport \"bad-number.proto\";\nmessage M { pl.M m = 1; }",
		"bad-type.proto":    h("b") + "import \"nested.proto\";\nmessage M { Nope n = 1; }",
		"bad-rpc.proto":     h("b") + "service S { rpc A(Nope) returns (Nope); }",
		"bad-twice.proto":   h("b") + "message M { int32 a = 1; int32 b = 1; }",
		"bad-reserve.proto": h("b") + "message M { reserved 1; reserved \"a\"; int32 a = 2; }",
		"bad-syntax.proto":  "syntax = \"proto9\";\nmessage M { }",
	}
}()

type histRun struct {
	loader prutalgen.Loader
	src    string
}

func newHistRun() *histRun {
	src := filepath.Join(scratch(), "src")
	for n := range written {
		if _, ok := histFiles[n]; !ok {
			os.Remove(filepath.Join(src, n))
			delete(written, n)
		}
	}
	for n, s := range histFiles {
		if written[n] != s {
			os.MkdirAll(src, 0755)
			if err := os.WriteFile(filepath.Join(src, n), []byte(s), 0644); err != nil {
				panic(err)
			}
			written[n] = s
		}
	}
	x := prutalgen.NewLoader([]string{src}, nil)
	x.SetLogger(logger{&Result{}, false})
	return &histRun{x, src}
}

func (h *histRun) load(f string) (ps []*prutalgen.Proto, out string) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(fatal); ok {
				ps, out = nil, "fatal: "+x.msg
				return
			}
			ps, out = nil, fmt.Sprintf("panic: %v\n%s", e, trim(string(debug.Stack())))
		}
	}()
	ps = h.loader.LoadProto(f)
	return ps, ""
}

// text is all that the loaded files say, and the code generated from the first.
func histText(ps []*prutalgen.Proto) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("panic: %v\n%s", e, trim(string(debug.Stack())))
		}
	}()
	var b strings.Builder
	for _, p := range ps {
		fmt.Fprintf(&b, "%s\n", p.ProtoFile)
		if !strings.HasPrefix(p.ProtoFile, "google/protobuf/") {
			fmt.Fprintf(&b, "%s\n%s\n", strings.Join(apiFacts(p), "\n"), p.String())
		}
	}
	g := prutalgen.NewGoCodeGen()
	g.Getter = true
	w := prutalgen.NewCodeWriter("// x", ps[0].GoPackage)
	g.ProtoGen(ps[0], w)
	b.Write(w.Bytes())
	return b.String()
}

var histRef = map[string]string{}

func historySpace(n int) *core.Space {
	names := keys(histFiles)
	var r []int
	for k := 0; k < n; k++ {
		r = append(r, len(names))
	}
	seq := func(i int64) (late bool, fs []string) {
		sum := 0
		for _, k := range digits(i, r...) {
			fs = append(fs, names[k])
			sum += k
		}
		return sum%2 == 1, fs
	}
	return &core.Space{Name: "histories", N: product(r...), Block: 16, Describe: func(i int64) string {
		late, fs := seq(i)
		return fmt.Sprintf("one loader loads %v; late %v", fs, late)
	}, Run: func(i int64, c *core.Ctx) {
		late, fs := seq(i)
		for _, f := range fs {
			if histRef[f] == "" {
				ps, out := newHistRun().load(f)
				if ps != nil {
					out = histText(ps)
				}
				histRef[f] = out
			}
			c.StateStr(histRef[f])
		}
		h := newHistRun()
		loaded, got := make([][]*prutalgen.Proto, n), make([]string, n)
		for k, f := range fs {
			loaded[k], got[k] = h.load(f)
			if loaded[k] != nil && !late {
				got[k] = histText(loaded[k])
			}
			c.Trans(1)
		}
		for k, f := range fs {
			if loaded[k] != nil && late {
				got[k] = histText(loaded[k])
			}
			if got[k] != histRef[f] {
				a, b := firstDiff(got[k], histRef[f])
				c.Fail("loader-reuse", "%s as number %d of %v with one loader (late %v)\n  %s\nalone\n  %s", f, k, fs, late, a, b)
				return
			}
		}
		c.Trace(1)
	}}
}

func firstDiff(a, b string) (string, string) {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i], y[i]
		}
	}
	return fmt.Sprintf("%d lines", len(x)), fmt.Sprintf("%d lines", len(y))
}
