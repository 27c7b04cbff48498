package gen

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/core"
)

// G11: the real command runs in a scratch directory; the files it leaves
// behind are compared with what the options say.

type cli struct {
	files    map[string]string // proto files below the working directory
	marks    map[string]string // and the message each declares
	gopkg    map[string]string // their go_package
	deps     map[string]string // what each imports
	bad      map[string]bool   // they do not parse
	incs     []string
	incFlags []string
	args     []string
	out      string // as given, "" if not
	outFlag  []string
	paths    []string
	m        [][2]string
	join     bool // one --go_opt with commas
	getter   bool
	stale    bool
	cwd      string
}

func (x *cli) flags() (a []string) {
	a = append(append(a, x.incFlags...), x.outFlag...)
	var o []string
	for _, p := range x.paths {
		o = append(o, "paths="+p)
	}
	for _, m := range x.m {
		o = append(o, "M"+m[0]+"="+m[1])
	}
	if x.join && len(o) > 0 {
		o = []string{strings.Join(o, ",")}
	}
	for k, s := range o {
		if k%2 == 0 {
			a = append(a, "--go_opt="+s)
		} else {
			a = append(a, "-go_opt", s)
		}
	}
	if x.getter {
		a = append(a, "--gen_getter=true")
	}
	return append(a, x.args...)
}

// resolve says which file a name denotes: the include paths in order, then the
// working directory.
func (x *cli) resolve(name string) (string, bool) {
	incs := x.incs
	if len(incs) == 0 {
		incs = []string{"."}
	}
	for _, i := range append(append([]string{}, incs...), "") {
		fn := path.Join(i, name)
		if !path.IsAbs(fn) {
			fn = path.Join(x.cwd, fn)
		}
		if rel, err := filepath.Rel(x.cwd, fn); err == nil {
			if _, ok := x.files[rel]; ok {
				return rel, true
			}
		}
	}
	return "", false
}

// anyFile is a file that needs no include path.
const anyFile = "google/protobuf/any.proto"

type outFile struct {
	mark, pkg, imp string
	getter         bool
}

// expect is the reference: what a run writes, by path below the scratch root.
func (x *cli) expect() (want map[string]outFile, ok bool) {
	want = map[string]outFile{}
	mode := "import"
	if len(x.paths) > 0 {
		mode = x.paths[len(x.paths)-1]
	}
	m := map[string]string{}
	for _, e := range x.m {
		m[path.Clean(e[0])] = e[1]
	}
	pkgOf := func(name, rel string) (imp, pkg string) {
		imp, pkg, _ = strings.Cut(x.gopkg[rel], ";")
		if v, ok := m[name]; ok { // the M option takes precedence
			i, p, _ := strings.Cut(v, ";")
			imp = i
			if p != "" {
				pkg = p
			}
		}
		if pkg == "" && imp != "" {
			pkg = path.Base(imp)
		}
		return imp, sanitize(pkg)
	}
	for _, a := range x.args {
		a = path.Clean(a)
		rel, found := x.resolve(a)
		if !found {
			return want, false
		}
		seen := map[string]bool{}
		var check func(name, rel string) bool
		check = func(name, rel string) bool {
			if seen[rel] || x.bad[rel] {
				return false // a cycle, or broken
			}
			if imp, _ := pkgOf(name, rel); imp == "" {
				return false
			}
			if x.deps[rel] == anyFile {
				return true // always there
			}
			seen[rel] = true
			defer delete(seen, rel)
			if d := x.deps[rel]; d != "" {
				r, ok := x.resolve(d)
				return ok && check(d, r)
			}
			return true
		}
		if !check(a, rel) {
			return want, false
		}
		imp, pkg := pkgOf(a, rel)
		o := outFile{mark: x.marks[rel], pkg: pkg, getter: x.getter}
		if d := x.deps[rel]; d == anyFile {
			if di, _ := pkgOf(d, d); di != imp {
				o.imp = di
			}
		} else if d != "" {
			r, _ := x.resolve(d)
			if di, _ := pkgOf(d, r); di != imp && strings.Contains(x.files[rel], "p_dep.Dep d") {
				o.imp = di
			}
		}
		fn := strings.TrimSuffix(rel, ".proto") + ".pb.go"
		if mode == "import" {
			fn = path.Join(x.out, imp, path.Base(fn))
		}
		if !path.IsAbs(fn) {
			fn = path.Join(x.cwd, fn)
		}
		want[fn] = o
	}
	return want, true
}

func sanitize(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, s)
	if s != "" && (token.Lookup(s).IsKeyword() || s[0] >= '0' && s[0] <= '9') {
		s = "_" + s
	}
	return s
}

const staleText = "package stale\n\n" + "// this is left from an earlier run, and is longer than anything generated now\n"

var pathsRoot string

// runCLI runs the command and compares.
func runCLI(c *core.Ctx, x *cli) {
	if pathsRoot == "" {
		d, err := os.MkdirTemp(scratch(), "cli")
		if err != nil {
			panic(err)
		}
		pathsRoot = d
	}
	root := pathsRoot
	os.RemoveAll(root)
	x.cwd = filepath.Join(root, "u/v/w")
	for k := range x.args {
		x.args[k] = strings.ReplaceAll(x.args[k], "$CWD", x.cwd)
	}
	sub := func(ss []string) {
		for k := range ss {
			ss[k] = strings.ReplaceAll(ss[k], "$CWD", x.cwd)
		}
	}
	sub(x.incs)
	sub(x.incFlags)
	sub(x.outFlag)
	x.out = strings.ReplaceAll(x.out, "$CWD", x.cwd)
	want, ok := x.expect()
	put := func(fn, text string) {
		os.MkdirAll(filepath.Dir(fn), 0755)
		if err := os.WriteFile(fn, []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	for f, t := range x.files {
		put(filepath.Join(x.cwd, f), t)
	}
	before := map[string]string{}
	if x.stale {
		put(filepath.Join(x.cwd, "keep.pb.go"), staleText)
		before[filepath.Join(x.cwd, "keep.pb.go")] = staleText
		for fn := range want {
			put(fn, strings.Repeat(staleText, 200))
		}
	}
	for f, t := range x.files {
		before[filepath.Join(x.cwd, f)] = t
	}
	cmd := exec.Command(filepath.Join(tmpDir(), "prutalgen"), x.flags()...)
	cmd.Dir = x.cwd
	cmd.Env = []string{"HOME=" + root, "TMPDIR=" + root, "PATH="}
	msg, err := cmd.CombinedOutput()
	c.Trans(1)
	desc := fmt.Sprintf("in a directory with %s: prutalgen %s", describe(x), strings.Join(x.flags(), " "))
	desc = strings.ReplaceAll(desc, x.cwd, "$CWD")
	fail := func(key, f string, a ...any) {
		if !c.Failed() {
			c.Fail(key, "%s\n%s\n%s", strings.ReplaceAll(fmt.Sprintf(f, a...), root, "$ROOT"), desc, strings.ReplaceAll(string(msg), root, "$ROOT"))
		}
	}
	if strings.Contains(string(msg), "panic:") {
		fail("panic", "prutalgen panics")
	}
	if ok && err != nil {
		fail("refused", "the command fails: %v", err)
		return
	}
	if !ok && err == nil {
		fail("accepted", "the command succeeds although a file is missing, broken or has no Go package")
		return
	}
	got := map[string]string{}
	filepath.Walk(root, func(fn string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(fn)
			got[fn] = string(b)
		}
		return nil
	})
	for fn, t := range before {
		if got[fn] != t {
			fail("changed", "%s was changed or removed", fn)
		}
		delete(got, fn)
	}
	keys := make([]string, 0, len(want))
	for fn := range want {
		keys = append(keys, fn)
	}
	sort.Strings(keys)
	for _, fn := range keys {
		w := want[fn]
		text, there := got[fn]
		if !there {
			fail("missing", "%s was not written; %d other files were: %v", fn, len(got), names(got))
			return
		}
		delete(got, fn)
		c.StateStr(fmt.Sprint(strings.TrimPrefix(fn, root), w))
		f, err := parser.ParseFile(token.NewFileSet(), fn, text, parser.ParseComments)
		if err != nil {
			fail("content", "%s is no Go file: %v", fn, err)
			return
		}
		if f.Name.Name != w.pkg {
			fail("package", "%s has package clause %s, not %s", fn, f.Name.Name, w.pkg)
		}
		var imp []string
		for _, i := range f.Imports {
			if s := strings.Trim(i.Path.Value, `"`); s != "strconv" {
				imp = append(imp, s)
			}
		}
		if strings.Join(imp, " ") != w.imp {
			fail("imports", "%s imports %q, not %q", fn, imp, w.imp)
		}
		if f.Scope.Lookup(w.mark) == nil {
			fail("content", "%s does not declare %s", fn, w.mark)
		}
		getter := false
		ast.Inspect(f, func(n ast.Node) bool {
			if fd, ok := n.(*ast.FuncDecl); ok && fd.Name.Name == "GetV" {
				getter = true
			}
			return true
		})
		if getter != w.getter {
			fail("getter", "%s: getters %v, not %v", fn, getter, w.getter)
		}
	}
	for fn, t := range got {
		if x.stale && strings.HasPrefix(t, "package stale") {
			continue
		}
		fail("extra", "%s was written", fn)
	}
	if ok {
		c.Trace(1)
	}
}

func names(m map[string]string) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func describe(x *cli) string {
	var s []string
	for _, f := range names(x.files) {
		if g, ok := x.gopkg[f]; ok {
			s = append(s, fmt.Sprintf("%s (%q)", f, g))
		} else {
			s = append(s, f)
		}
	}
	return strings.Join(s, " ")
}

// ---- the enumerated command lines

var cliIncs = [][2][]string{
	{nil, nil}, {{"."}, {"-I", "."}}, {{"inc"}, {"-I=inc"}}, {{"inc", "."}, {"--proto_path=inc", "-I", "."}}, {{".", "inc"}, {"-proto_path", ".", "-I=inc"}},
	{{"inc2", "inc"}, {"-I=./inc2/", "-I", "inc"}}, {{"$CWD/inc"}, {"-I=$CWD/inc"}}, {{"none", "inc2"}, {"--I=none", "--proto_path", "inc2"}}, {{"inc/lib/.."}, {"-I", "inc/lib/.."}},
}

var cliArgs = [][]string{{"m.proto"}, {"./m.proto"}, {"lib/../m.proto"}, {"inc/m.proto"}, {"$CWD/m.proto"}, {"m.proto", "lib/dep.proto"}, {"lib/dep.proto", "m.proto"},
	{"n.proto"}, {"m.proto", "missing.proto"}, {"bad.proto"}, {"m.proto", "usesbad.proto"}, {"cyc1.proto"}, {}, {"m.proto", "m.proto"}, {"lib/dep.proto", "inc/lib/dep.proto"}, {"dots.proto.in.protos.v1.proto"}, {"twice.proto.proto"}, {"plain"}, {"proto/proto.proto"}, {"wkt.proto"}}

var cliOuts = [][2]string{{"", ""}, {".", "--go_out=."}, {"o", "--go_out=o"}, {"o/", "-go_out=o/"}, {"o/p/q", "--go_out=o/p/q"}, {"$CWD/../abs", "--go_out=$CWD/../abs"}}

var cliPaths = [][]string{nil, {"import"}, {"source_relative"}, {"import", "source_relative"}, {"source_relative", "import"}}

var cliPkgs = []string{"x.y/p", "x.y/p;q", "p", "./p", "x.y/my-pkg", "x.y/p.v1", "", "x.y/type", "x.y/q;2nd-x"}

var cliDeps = []string{"x.y/p", "x.y/dep", "z/p", "", "x.y/dep;p"}

var cliMs = [][][2]string{nil, {{"m.proto", "w/m"}}, {{"m.proto", "w/m;nm"}}, {{"lib/dep.proto", "w/d"}}, {{"m.proto", "w/m"}, {"lib/dep.proto", "w/m"}}, {{"./m.proto", "w/a"}, {"m.proto", "w/b"}}, {{"lib/../m.proto", "w/c"}, {"n.proto", "w/n"}}, {{"lib/dep.proto", "w/d;e"}, {"m.proto", "w/q/m-m"}},
	{{anyFile, "w/any"}}, {{"google/protobuf/../protobuf/any.proto", "w/any;anyx"}, {"wkt.proto", "w/k"}}, {{anyFile, "w/same"}, {"wkt.proto", "w/same"}}}

func newCLI(mpkg, dpkg string) *cli {
	x := &cli{files: map[string]string{}, marks: map[string]string{}, gopkg: map[string]string{}, deps: map[string]string{}, bad: map[string]bool{}}
	add := func(fn, mark, gopkg, dep string) {
		t := "syntax = \"proto3\";\n"
		field := ""
		if dep != "" {
			t += fmt.Sprintf("import %q;\n", dep)
			field = " p_dep.Dep d = 2;"
			x.deps[fn] = dep
		}
		pk := "p_m"
		if strings.HasSuffix(fn, "dep.proto") {
			pk = "p_dep"
			field = ""
			mark = "Dep"
		}
		t += "package " + pk + ";\n"
		if gopkg != "" {
			t += fmt.Sprintf("option go_package = %q;\n", gopkg)
		}
		x.gopkg[fn] = gopkg
		t += fmt.Sprintf("message %s { int32 v = 1;%s }\n", mark, field)
		if mark == "Dep" {
			m2 := "Of" + strings.NewReplacer("/", "", ".", "", "2", "Two").Replace(fn)
			t += fmt.Sprintf("message %s { int32 v = 1; }\n", m2)
			mark = m2
		}
		x.files[fn], x.marks[fn] = t, mark
	}
	add("m.proto", "MTop", mpkg, "lib/dep.proto")
	add("lib/dep.proto", "", dpkg, "")
	add("inc/m.proto", "MInc", mpkg, "lib/dep.proto")
	add("inc/lib/dep.proto", "", dpkg, "")
	add("inc2/n.proto", "NInc2", "x.y/n", "m.proto")
	add("inc2/lib/dep.proto", "", "x.y/dep2", "")
	add("dots.proto.in.protos.v1.proto", "Dots", "x.y/d.e", "")
	add("twice.proto.proto", "Twice", "x.y/d", "")
	add("plain", "Plain", "x.y/proto", "")
	add("proto/proto.proto", "Proto", "x.proto/proto.proto", "")
	add("cyc1.proto", "C1", "x.y/c", "cyc2.proto")
	add("cyc2.proto", "C2", "x.y/c", "cyc1.proto")
	// these use nothing of what they import
	for _, fn := range []string{"inc2/n.proto", "cyc1.proto", "cyc2.proto"} {
		x.files[fn] = strings.ReplaceAll(x.files[fn], " p_dep.Dep d = 2;", "")
	}
	x.files["bad.proto"] = "syntax = \"proto3\"; option go_package = \"x.y/bad\"; message M {"
	x.files["usesbad.proto"] = "syntax = \"proto3\"; import \"bad.proto\"; option go_package = \"x.y/u\"; message U {}"
	x.gopkg["bad.proto"], x.gopkg["usesbad.proto"] = "x.y/bad", "x.y/u"
	x.marks["bad.proto"], x.marks["usesbad.proto"] = "M", "U"
	x.bad["bad.proto"] = true
	x.deps["usesbad.proto"] = "bad.proto"
	x.gopkg[anyFile] = "google.golang.org/protobuf/types/known/anypb"
	x.addWkt("wkt.proto")
	return x
}

func (x *cli) addWkt(fn string) {
	x.files[fn] = "syntax = \"proto3\"; import \"" + anyFile + "\"; option go_package = \"x.y/wkt\"; message Wkt { int32 v = 1; google.protobuf.Any a = 2; }"
	x.gopkg[fn], x.marks[fn], x.deps[fn] = "x.y/wkt", "Wkt", anyFile
}

// oddNames are names of files that have no meaning in Go.
var oddNames = []string{"a b.proto", "a'b.proto", "a\nb.proto", "a\r\nb.proto", "a\tb.proto", "\xff.proto", "\ufeffa.proto", "é.proto", "a\"b.proto", "a\\.proto",
	"{PRUTALGEN_GO_IMPORTS}.proto", "a*b.proto", "%s%d.proto", "`.proto", "$(a).proto", "*_/.proto", "a\ngo:build ignore.proto", "a\npackage q.proto"}

func cp(s []string) []string { return append([]string{}, s...) }

type cliDim struct{ inc, arg, out, path, pkg, dep, m, join, getter, stale int }

func (d cliDim) make() *cli {
	x := newCLI(cliPkgs[d.pkg], cliDeps[d.dep])
	x.incs, x.incFlags = cp(cliIncs[d.inc][0]), cp(cliIncs[d.inc][1])
	x.args = cp(cliArgs[d.arg])
	x.out = cliOuts[d.out][0]
	if f := cliOuts[d.out][1]; f != "" {
		x.outFlag = []string{f}
	}
	x.paths = cliPaths[d.path]
	x.m = cliMs[d.m]
	x.join, x.getter, x.stale = d.join == 1, d.getter == 1, d.stale == 1
	return x
}

func cliSpace(name string, r []int, at func(d []int) cliDim) *core.Space {
	mk := func(i int64) *cli { return at(digits(i, r...)).make() }
	return &core.Space{Name: name, N: product(r...), Block: 16,
		Describe: func(i int64) string {
			x := mk(i)
			return fmt.Sprintf("in a directory with %s: prutalgen %s", describe(x), strings.Join(x.flags(), " "))
		},
		Run: func(i int64, c *core.Ctx) { runCLI(c, mk(i)) }}
}

func cliSpaces(tier string) []*core.Space {
	nI, nA, nO, nP, nG, nD, nM := len(cliIncs), len(cliArgs), len(cliOuts), len(cliPaths), len(cliPkgs), len(cliDeps), len(cliMs)
	out := []*core.Space{
		cliSpace("places", []int{nI, nA, nO, nP}, func(d []int) cliDim {
			return cliDim{inc: d[0], arg: d[1], out: d[2], path: d[3], dep: 1}
		}),
		cliSpace("packages", []int{nG, nD, nM, 3, 3, 2}, func(d []int) cliDim {
			return cliDim{pkg: d[0], dep: d[1], m: d[2], arg: []int{0, 5, 6}[d[3]], path: []int{0, 2, 4}[d[4]], join: d[5], out: 2}
		}),
		cliSpace("reruns", []int{nA, 3, nP, 2, 2, nM}, func(d []int) cliDim {
			return cliDim{arg: d[0], out: d[1], path: d[2], getter: d[3], stale: d[4], m: d[5], dep: 1, pkg: 1}
		}),
	}
	out = append(out, oddSpace())
	if tier == "thorough" {
		out = append(out, cliSpace("all", []int{nI, nA, nO, nP, nG, 2, nM}, func(d []int) cliDim {
			return cliDim{inc: d[0], arg: d[1], out: d[2], path: d[3], pkg: d[4], dep: d[5], m: d[6], join: (d[0] + d[6]) % 2, stale: (d[1] + d[4]) % 2}
		}))
	}
	return out
}

// oddSpace has file names, include paths and output directories with odd characters.
func oddSpace() *core.Space {
	n := len(oddNames)
	mk := func(i int64) *cli {
		d := digits(i, n, 2, 2, 3)
		x := newCLI("x.y/p", "x.y/dep")
		name := oddNames[d[0]]
		x.addWkt(name)
		x.args = []string{name}
		x.paths = [][]string{nil, {"source_relative"}}[d[1]]
		x.getter = d[2] == 1
		switch d[3] {
		case 1: // an include path that is not there
			x.incs, x.incFlags = []string{name, "."}, []string{"-I", name, "-I=."}
		case 2:
			dir := "o" + strings.TrimSuffix(name, ".proto")
			x.out, x.outFlag = dir, []string{"--go_out=" + dir}
		}
		return x
	}
	return &core.Space{Name: "odd-names", N: product(n, 2, 2, 3), Block: 16,
		Describe: func(i int64) string {
			x := mk(i)
			return fmt.Sprintf("in a directory with %s: prutalgen %q", describe(x), x.flags())
		},
		Run: func(i int64, c *core.Ctx) { runCLI(c, mk(i)) }}
}
