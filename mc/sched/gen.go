//go:build sched

package sched

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"verif/mc/core"
	"verif/mc/gen"
	"verif/mc/props"

	"github.com/cloudwego/prutal/prutalgen/pkg/prutalgen"
)

// G15: loaders and generators in several goroutines. The same engine as for
// C11, on a rebuild with scheduling points in the generator library.

var genWorlds = map[string]map[string]string{
	"all": {"a.proto": `// head
syntax = "proto3";
package p;
option go_package = "x.y/a";
import "b.proto";
//prutalgen:no_enum_prefix
enum E { A = 0; B = 1; } // inline
message M {
  repeated E e = 1 [packed = false];
  map<string, q.N> m = 2;
  oneof o { string s = 3; M.I i = 4; }
  message I { optional bytes b = 1; reserved 2 to 4; }
}
service S { rpc F(M) returns (stream q.N); }
`, "b.proto": `syntax = "proto2"; package q; option go_package = "x.y/b;bb"; message N { optional N n = 1; required double d = 2; enum K { K0 = 1; } optional K k = 3; }
`},
	"tiny":   {"a.proto": `message M{}`},
	"small":  {"a.proto": `syntax = "proto3"; package q; option go_package = "x.y/a"; message M { int32 f = 1; }`},
	"small2": {"a.proto": `syntax = "proto2"; package z; option go_package = "x.y/z"; enum M { F = 3; } message T { optional M f = 7; }`},
	"known":  {"a.proto": `edition = "2023"; package q; option go_package = "x.y/a"; import "google/protobuf/empty.proto"; message M { google.protobuf.Empty f = 1; }`},
	"syntax": {"a.proto": `syntax = "proto3"; option go_package = "x.y/a"; message M { int32 f = ; }`},
	"verify": {"a.proto": `syntax = "proto3"; package v; option go_package = "x.y/v"; message M { int32 f = 1; int32 g = 1; }`},
	"cycle":  {"a.proto": `syntax = "proto3"; import "b.proto";`, "b.proto": `syntax = "proto3"; import "a.proto";`},
}

var genDirOnce sync.Once
var genDirPath string

// genDir has the files of the worlds.
func genDir() string {
	genDirOnce.Do(func() {
		d, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "gs")
		if err != nil {
			panic(err)
		}
		for w, ff := range genWorlds {
			os.MkdirAll(filepath.Join(d, w), 0755)
			for n, t := range ff {
				if err := os.WriteFile(filepath.Join(d, w, n), []byte(t), 0644); err != nil {
					panic(err)
				}
			}
		}
		genDirPath = d
	})
	return genDirPath
}

type genFatal struct{ s string }

type genLog struct{ out *[]string }

func (l genLog) Fatalf(f string, a ...any) { panic(genFatal{fmt.Sprintf(f, a...)}) }
func (l genLog) Printf(f string, a ...any) { *l.out = append(*l.out, fmt.Sprintf(f, a...)) }

// genRun calls f and gives what it was refused with.
func genRun(f func()) (err string) {
	defer func() {
		if r := recover(); r != nil {
			x, ok := r.(genFatal)
			if !ok {
				panic(r)
			}
			err = x.s
		}
	}()
	f()
	return ""
}

func genText(p *prutalgen.Proto, getter bool) string {
	g := prutalgen.NewGoCodeGen()
	g.Getter = getter
	w := prutalgen.NewCodeWriter("// h", p.GoPackage)
	g.ProtoGen(p, w)
	return string(w.Bytes())
}

// load loads a world and generates all its files.
func gload(world string, getter bool) op {
	return op{"load " + world, func() (func(), func() string) {
		var out, log []string
		var pp []*prutalgen.Proto
		var err string
		dir := filepath.Join(genDir(), world)
		return func() {
				err = genRun(func() {
					l := prutalgen.NewLoader([]string{dir}, map[string]string{"b.proto": "x.y/moved"})
					l.SetLogger(genLog{&log})
					pp = l.LoadProto("a.proto")
					for _, p := range pp {
						out = append(out, genText(p, getter))
					}
				})
			}, func() string {
				s := err + "\n" + strings.Join(out, "\n") + strings.Join(log, "\n")
				for _, p := range pp {
					s += strings.Join(gen.APIFacts(p), "\n")
				}
				return s
			}
	}}
}

var genShared []*prutalgen.Proto
var genSharedLog []string

func shareGen(world string) func() {
	return func() {
		l := prutalgen.NewLoader([]string{filepath.Join(genDir(), world)}, nil)
		l.SetLogger(genLog{&genSharedLog})
		genShared = l.LoadProto("a.proto")
		genSharedLog = nil
	}
}

// ggen generates a file somebody else loaded.
func ggen(k int, getter bool) op {
	return op{fmt.Sprint("generate shared file ", k), func() (func(), func() string) {
		var out string
		return func() { out = genText(genShared[k], getter) }, func() string { return out }
	}}
}

func gfacts(k int) op {
	return op{fmt.Sprint("read shared file ", k), func() (func(), func() string) {
		var out []string
		return func() { out = gen.APIFacts(genShared[k]) }, func() string { return strings.Join(out, "\n") }
	}}
}

func genScenarios() []scenario {
	return []scenario{
		{name: "tiny-tiny", ops: []op{gload("tiny", false), gload("tiny", false)}},
		{name: "load-load-same", ops: []op{gload("small", false), gload("small", false)}},
		{name: "load-load", ops: []op{gload("small", true), gload("small2", false)}},
		{name: "load-load-all", ops: []op{gload("all", true), gload("small", false)}},
		{name: "load-known", ops: []op{gload("known", false), gload("known", true)}},
		{name: "load-refused", ops: []op{gload("syntax", false), gload("small", false)}},
		{name: "refused-refused", ops: []op{gload("verify", false), gload("cycle", false)}},
		{name: "generate-same", setup: shareGen("all"), ops: []op{ggen(0, true), ggen(0, false)}},
		{name: "generate-both", setup: shareGen("all"), ops: []op{ggen(0, true), ggen(1, true)}},
		{name: "generate-read", setup: shareGen("all"), ops: []op{ggen(0, true), gfacts(0)}},
		{name: "generate-load", setup: shareGen("all"), ops: []op{ggen(1, true), gload("small", true)}},
		{name: "three-loads", ops: []op{gload("small", false), gload("small2", true), gload("verify", false)}},
	}
}

// genFirst are the scenarios which also start with a parser that has not been
// used; its locks and tables are scheduling points there.
func genFirst() []scenario {
	return []scenario{
		{name: "tiny-tiny", ops: []op{gload("tiny", false), gload("tiny", false)}},
		{name: "load-load-same", ops: []op{gload("small", false), gload("small", false)}},
		{name: "load-refused", ops: []op{gload("syntax", false), gload("small", false)}},
		{name: "refused-refused", ops: []op{gload("verify", false), gload("cycle", false)}},
		{name: "generate-load", setup: shareGen("all"), ops: []op{ggen(1, true), gload("small", true)}},
	}
}

func init() {
	props.Reg(&core.Prop{ID: "G15", Level: "model_checking", Env: []string{"GOGC=400", "GOMAXPROCS=1"},
		Rule:   "The generator library is rebuilt with a scheduling point before every statement and a controlled scheduler. For every scenario (two or three goroutines loading files, with and without errors, each with its own loader, or generating from and reading the same loaded files) every schedule up to the preemption bound is executed; each must get what it gets alone, during the schedule and again afterwards. Spaces statements and pairs switch at any statement of the generator; data-races does so under the race detector; first-use starts with an unused parser, switches at the locks of the parser runtime and before statements of the generator that may touch shared state, under the race detector. Every schedule with at least one preemption is non-trivial.",
		Bounds: "statements and data-races: 1 preemption, 12 scenarios (data-races: 6 in quick); pairs: 2 preemptions, two scenarios (quick: the smallest); first-use: 1 preemption, 5 scenarios (thorough: 2 for the smallest); switches only between statements",
		Assume: []string{"inside the parser runtime only locks are scheduling points (first-use), or nothing (the other spaces)"},
		Spaces: func(tier string) []*core.Space {
			all := genScenarios()
			out := []*core.Space{interleavings("statements", all, false, 1, 1), interleavings("pairs", all[:1], false, 2, 2),
				races("first-use", "mcs-first", "G15-first", true, 64, 1, 1)}
			if tier == "thorough" {
				return append(out, races("data-races", "mcs-race", "G15", false, 64, 1, 1), races("first-use-pairs", "mcs-first", "G15-tiny", true, 4, 2, 2),
					interleavings("pairs-small", all[1:2], false, 2, 2))
			}
			return append(out, races("data-races", "mcs-race", "G15-quick", false, 64, 1, 1))
		}})
	suites["G15-tiny"] = func() []scenario { return genFirst()[:1] }
	suites["G15-quick"] = func() (out []scenario) {
		for _, s := range genScenarios() {
			switch s.name {
			case "tiny-tiny", "load-load", "refused-refused", "generate-same", "generate-read", "generate-load":
				out = append(out, s)
			}
		}
		return
	}
}
