package gen

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	_ "unsafe"

	"verif/mc/core"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// G07: the same files, whatever the order they are given or imported in,
// whatever was generated before, and whatever order maps are iterated in.

// verifIter, if set, says where the iteration of a map with so many entries
// starts. The check is built with a patched internal/runtime/maps, see run.sh.
//
//go:linkname verifIter internal/runtime/maps.verifIter
var verifIter func(used uint64) (uint64, bool)

// genSeq loads the files one after the other with one loader and generator,
// as main does, and returns what each step wrote, by path.
func genSeq(w World, seq []string, getter bool) (steps []map[string]string, bad string) {
	src := filepath.Join(scratch(), "src")
	for n := range written {
		if _, ok := w.Files[n]; !ok {
			os.Remove(filepath.Join(src, n))
			delete(written, n)
		}
	}
	for n, s := range w.Files {
		if written[n] != s {
			os.MkdirAll(filepath.Dir(filepath.Join(src, n)), 0755)
			if err := os.WriteFile(filepath.Join(src, n), []byte(s), 0644); err != nil {
				panic(err)
			}
			written[n] = s
		}
	}
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(fatal); ok {
				bad = f.msg
				return
			}
			bad = fmt.Sprintf("panic: %v\n%s", e, trim(string(debug.Stack())))
		}
	}()
	r := &Result{}
	x := prutalgen.NewLoader([]string{src}, nil)
	x.SetLogger(logger{r, false})
	g := prutalgen.NewGoCodeGen()
	g.Getter = getter
	out := filepath.Join(scratch(), "seq")
	defer os.RemoveAll(out)
	for _, f := range seq {
		p := x.LoadProto(filepath.Clean(f))[0]
		if err := g.Gen(p, prutalgen.GenByImport, out); err != nil {
			return nil, err.Error()
		}
		got := map[string]string{}
		filepath.Walk(out, func(fn string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() {
				b, _ := os.ReadFile(fn)
				rel, _ := filepath.Rel(out, fn)
				got[rel] = string(b)
			}
			return nil
		})
		steps = append(steps, got)
	}
	return
}

// ---- the worlds: a imports b and c, both import d; every choice of what
// their Go packages are called, and how d is imported

var detPkgs = []string{"x.y/p", "x.y/q", "github.com/cloudwego/q", "x.y/strconv", "x.y/z;q", "x.y/go-p"}

func detWorld(i int64, n int) (World, []string) {
	d := digits(i, n, n, n, n, 2, 2)
	names := []string{"a.proto", "s/b.proto", "s/c.proto", "t/d.proto"}
	pk := []string{"pa", "pb", "pb.pc", "pd"}
	w := World{Files: map[string]string{}, Root: names[0]}
	for k, fn := range names {
		f := &File{Name: fn, Syntax: []string{"proto3", "proto2"}[(k+d[5])%2], Pkg: pk[k], GoPkg: detPkgs[d[k]]}
		m := &Msg{Name: fmt.Sprintf("M%d", k)}
		e := &Enum{Name: fmt.Sprintf("E%d", k), Vals: []EnumVal{{fmt.Sprintf("Z%d", k), "0", ""}, {fmt.Sprintf("Y%d", k), "1", ""}}}
		f.Msgs, f.Enums = []*Msg{m}, []*Enum{e}
		var deps []int
		switch k {
		case 0:
			deps = []int{1, 2}
			if d[4] == 1 { // visible through the public import
				deps = []int{1, 2, 3}
			}
		case 1, 2:
			deps = []int{3}
		}
		m.Fields = append(m.Fields, Field{Label: "repeated", Type: "int32", Name: "own", Num: 99}, Field{Label: "repeated", Type: "google.protobuf.Any", Name: "wk", Num: 98})
		f.Imports = append(f.Imports, Import{Path: "google/protobuf/any.proto"})
		for _, j := range deps {
			if k != 0 || j != 3 {
				f.Imports = append(f.Imports, Import{Path: names[j], Public: d[4] == 1 && k == 1})
			}
			m.Fields = append(m.Fields,
				Field{Label: "repeated", Type: fmt.Sprintf(".%s.M%d", pk[j], j), Name: fmt.Sprintf("m%d", j), Num: 4*j + 1},
				Field{Label: "repeated", Type: fmt.Sprintf(".%s.E%d", pk[j], j), Name: fmt.Sprintf("e%d", j), Num: 4*j + 2},
				Field{Oneof: fmt.Sprintf("o%d", j), Type: fmt.Sprintf(".%s.M%d", pk[j], j), Name: fmt.Sprintf("om%d", j), Num: 4*j + 3},
				Field{Oneof: fmt.Sprintf("o%d", j), Type: fmt.Sprintf(".%s.E%d", pk[j], j), Name: fmt.Sprintf("oe%d", j), Num: 4*j + 4})
		}
		w.Files[fn] = f.Text(false)
	}
	return w, names
}

// wideWorld has more imports than fit into one group of a map.
func wideWorld(i int64) (World, []string) {
	f := &File{Name: "a.proto", Syntax: "proto3", Pkg: "p", GoPkg: "x.y/p"}
	m := &Msg{Name: "M"}
	f.Msgs = []*Msg{m}
	w := World{Files: map[string]string{}, Root: f.Name}
	names := []string{f.Name}
	n := []int{3, 8, 9, 17}[i%4]
	for k := 0; k < n; k++ {
		fn := fmt.Sprintf("d%d.proto", k)
		gp := fmt.Sprintf("x.y/w%d", k)
		if i/4 == 1 { // all want the same name
			gp = fmt.Sprintf("x.y/w%d/w", k)
		}
		g := &File{Name: fn, Syntax: "proto3", Pkg: fmt.Sprintf("w%d", k), GoPkg: gp, Msgs: []*Msg{{Name: "M"}}}
		w.Files[fn] = g.Text(false)
		f.Imports = append(f.Imports, Import{Path: fn})
		m.Fields = append(m.Fields, Field{Type: fmt.Sprintf(".w%d.M", k), Name: fmt.Sprintf("f%d", k), Num: k + 1})
		e := &Enum{Name: fmt.Sprintf("E%d", k), Vals: []EnumVal{{fmt.Sprintf("Z%d", k), "0", ""}, {fmt.Sprintf("Y%d", k), "1", ""}}}
		f.Enums = append(f.Enums, e)
		names = append(names, fn)
	}
	w.Files[f.Name] = f.Text(false)
	return w, names
}

func detKey(w World) string {
	var k []string
	for _, n := range w.names() {
		_, s, _ := strings.Cut(w.Files[n], "go_package = \"")
		s, _, _ = strings.Cut(s, "\"")
		k = append(k, path.Base(s))
	}
	if len(k) > 4 {
		return "wide"
	}
	return strings.Join(k, " ")
}

// alone is the reference: each file generated by a run of its own.
func alone(c *core.Ctx, w World, names []string) (out map[string][2]string, ok bool) {
	out = map[string][2]string{}
	for _, n := range names {
		st, bad := genSeq(w, []string{n}, true)
		if bad != "" {
			// two files may not be given one directory and two package names, ...
			c.Count("refused", 1)
			return nil, false
		}
		if len(st[0]) != 1 {
			c.Fail("alone "+detKey(w), "%s alone gives %d files\n%s", n, len(st[0]), w)
			return nil, false
		}
		for fn, text := range st[0] {
			out[n] = [2]string{fn, text}
		}
		c.Trans(1)
	}
	return out, true
}

var ownPC = map[uintptr]bool{}

// own: the iteration is in prutalgen's own code, not in the parser library.
func own(pc uintptr) bool {
	x, ok := ownPC[pc]
	if !ok {
		x = strings.Contains(runtime.FuncForPC(pc).Name(), "prutalgen/pkg/")
		ownPC[pc] = x
	}
	return x
}

func diffText(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			l := "(end)"
			if i < len(y) {
				l = y[i]
			}
			return fmt.Sprintf("line %d: %q, not %q", i+1, l, x[i])
		}
	}
	return fmt.Sprintf("%d more lines", len(y)-len(x))
}

// sequences: all orders of all files, and all pairs with repetition.
func detSeqs(names []string) (out [][]string) {
	var rec func(pre, rest []string)
	rec = func(pre, rest []string) {
		if len(rest) == 0 {
			out = append(out, append([]string{}, pre...))
		}
		for i := range rest {
			r := append(append([]string{}, rest[:i]...), rest[i+1:]...)
			rec(append(pre, rest[i]), r)
		}
	}
	rec(nil, names)
	for _, n := range names {
		out = append(out, []string{n, n}, []string{"./" + n, "s/../" + n})
	}
	return
}

func orderSpace(n int) *core.Space {
	return &core.Space{Name: "orders", N: product(n, n, n, n, 2, 2), Block: 8,
		Describe: func(i int64) string { w, _ := detWorld(i, n); return strings.ReplaceAll(w.String(), "\n", " ") },
		Run: func(i int64, c *core.Ctx) {
			w, names := detWorld(i, n)
			ref, ok := alone(c, w, names)
			if !ok {
				return
			}
			c.Trace(1)
			for _, seq := range detSeqs(names) {
				st, bad := genSeq(w, seq, true)
				if bad != "" {
					c.Fail("order-refused "+detKey(w), "%v: %s\n%s", seq, bad, w)
					return
				}
				want := map[string]string{}
				for k, f := range seq {
					x := ref[path.Clean(f)]
					want[x[0]] = x[1]
					c.Trans(1)
					c.StateStr(x[1] + fmt.Sprint(k))
					if len(st[k]) != len(want) {
						c.Fail("order-files "+detKey(w), "%v: step %d: %d files, not %d\n%s", seq, k, len(st[k]), len(want), w)
						return
					}
					for fn, text := range st[k] {
						if text != want[fn] {
							c.Fail("order "+detKey(w), "%v: step %d: %s differs from what is generated alone: %s\n%s", seq, k, fn, diffText(want[fn], text), w)
							return
						}
					}
				}
			}
		}}
}

// importSpace: all permutations of the import statements of each file.
func importSpace(n int) *core.Space {
	return &core.Space{Name: "import-orders", N: product(n, n, n, n, 2, 2), Block: 8,
		Describe: func(i int64) string { w, _ := detWorld(i, n); return strings.ReplaceAll(w.String(), "\n", " ") },
		Run: func(i int64, c *core.Ctx) {
			w, names := detWorld(i, n)
			ref, ok := alone(c, w, names)
			if !ok {
				return
			}
			c.Trace(1)
			for _, vary := range names[:3] {
				lines := strings.Split(w.Files[vary], "\n")
				var imps, pos []int
				for k, l := range lines {
					if strings.HasPrefix(l, "import ") {
						imps, pos = append(imps, k), append(pos, k)
					}
				}
				perms(len(imps), func(p []int) {
					if c.Failed() {
						return
					}
					l2 := append([]string{}, lines...)
					for k := range pos {
						l2[pos[k]] = lines[imps[p[k]]]
					}
					w2 := World{Files: map[string]string{}, Root: w.Root}
					for f, t := range w.Files {
						w2.Files[f] = t
					}
					w2.Files[vary] = strings.Join(l2, "\n")
					for _, f := range names {
						st, bad := genSeq(w2, []string{f}, true)
						c.Trans(1)
						if bad != "" {
							c.Fail("import-order-refused "+detKey(w), "%s: %s\n%s", f, bad, w2)
							return
						}
						for _, text := range st[0] {
							c.StateStr(text)
							if text != ref[f][1] {
								c.Fail("import-order "+detKey(w), "imports of %s reordered: %s: %s\n%s", vary, f, diffText(ref[f][1], text), w2)
								return
							}
						}
					}
				})
			}
		}}
}

func perms(n int, f func([]int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// mapSpace: the order of every map iteration is chosen: all starting points of
// every iteration of prutalgen with the others at 0 (deviations 1), of every pair of
// iterations (2), and the same starting point in all, those of the parser library too.
func mapSpace(n int, deviations int) *core.Space {
	make := func(i int64) (World, []string) {
		if i < 8 {
			return wideWorld(i)
		}
		return detWorld(i-8, n)
	}
	return &core.Space{Name: "map-orders", N: 8 + product(n, n, n, n, 2, 2), Block: 4,
		Describe: func(i int64) string { w, _ := make(i); return strings.ReplaceAll(w.String(), "\n", " ") },
		Run: func(i int64, c *core.Ctx) {
			w, names := make(i)
			if len(names) > 4 {
				names = names[:1]
			}
			for _, f := range names {
				var sizes []uint64
				run := func(choice map[int]uint64, all uint64) string {
					sizes = sizes[:0]
					verifIter = func(used uint64) (uint64, bool) {
						var pc [1]uintptr
						if runtime.Callers(5, pc[:]); !own(pc[0]) {
							return all, true
						}
						k := len(sizes)
						sizes = append(sizes, used)
						if x, ok := choice[k]; ok {
							return x, true
						}
						return all, true
					}
					st, bad := genSeq(w, []string{f}, true)
					verifIter = nil
					c.Trans(1)
					if bad != "" {
						return bad
					}
					var out []string
					for fn, t := range st[0] {
						out = append(out, fn+"\n"+t)
					}
					sort.Strings(out)
					return strings.Join(out, "")
				}
				ref := run(nil, 0)
				log := append([]uint64{}, sizes...)
				if i == 8 && len(log) == 0 {
					c.Fail("hook", "no map iteration was seen: the check is not built right")
					return
				}
				compare := func(choice map[int]uint64, all uint64) bool {
					got := run(choice, all)
					c.StateStr(f + got)
					if got != ref {
						c.Fail("map-order "+detKey(w), "%s: with other map orders (%v, %d): %s\n%s", f, choice, all, diffText(ref, got), w)
						return false
					}
					return true
				}
				c.Trace(1)
				for k := uint64(1); k < 8; k++ {
					if !compare(nil, k) {
						return
					}
				}
				starts := func(n uint64) uint64 {
					if n > 8 || n < 2 {
						n = 8
					}
					return n
				}
				for a := range log {
					if log[a] < 2 {
						continue
					}
					for x := uint64(1); x < starts(log[a]); x++ {
						if !compare(map[int]uint64{a: x}, 0) {
							return
						}
						for b := a + 1; deviations > 1 && b < len(log); b++ {
							if log[b] < 2 {
								continue
							}
							for y := uint64(1); y < starts(log[b]); y++ {
								if !compare(map[int]uint64{a: x, b: y}, 0) {
									return
								}
							}
						}
					}
				}
				c.Count("map-iterations", int64(len(log)))
			}
		}}
}
