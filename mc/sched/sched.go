//go:build sched

// Package sched explores interleavings (C11) and collection points (C08) on an
// instrumented build of the library, see cmd/instr.
package sched

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/verifshim"
	"verif/mc/core"
	. "verif/mc/pb"
	"verif/mc/props"
)

// types that refer to each other
type cyA struct {
	X int32 `protobuf:"varint,1,opt,name=x"`
	B *cyB  `protobuf:"bytes,2,opt,name=b"`
}
type cyB struct {
	A *cyA            `protobuf:"bytes,1,opt,name=a"`
	M map[string]*cyC `protobuf:"bytes,2,rep,name=m" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}
type cyC struct {
	Y string `protobuf:"bytes,3,opt,name=y"`
	A []*cyA `protobuf:"bytes,4,rep,name=a"`
}

// a self-referring one, small
type seT struct {
	X uint32 `protobuf:"fixed32,1,opt,name=x"`
	T *seT   `protobuf:"bytes,2,opt,name=t"`
}

// users of a shared leaf
type shL struct {
	X []int32 `protobuf:"zigzag32,1,rep,packed,name=x"`
}
type shP struct {
	L *shL `protobuf:"bytes,1,opt,name=l"`
}
type shQ struct {
	L []*shL `protobuf:"bytes,1,rep,name=l"`
	S *seT   `protobuf:"bytes,1500,opt,name=s"`
}

// bad ones
type bdL struct {
	G *bdG   `protobuf:"bytes,1,opt,name=g"`
	C string `protobuf:"varint,2,opt,name=c"`
}
type bdG struct {
	X int32 `protobuf:"varint,1,opt,name=x"`
	H *bdH  `protobuf:"bytes,2,opt,name=h"`
}
type bdH struct {
	Y bool `protobuf:"varint,1,opt,name=y"`
}
type bdU struct {
	G *bdG `protobuf:"bytes,1,opt,name=g"`
	L *bdL `protobuf:"bytes,2,opt,name=l"`
}

// oneof
type onT struct {
	O isOnT_O `protobuf_oneof:"o"`
}
type isOnT_O interface{ isOnT_O() }
type onT_S struct {
	S string `protobuf:"bytes,1,opt,name=s"`
}
type onT_M struct {
	M *seT `protobuf:"bytes,2,opt,name=m"`
}

func (*onT_S) isOnT_O() {}
func (*onT_M) isOnT_O() {}
func (*onT) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*onT_S)(nil), (*onT_M)(nil)}
}

// maps of every update path
type mpT struct {
	A map[string]*seT  `protobuf:"bytes,1,rep,name=a" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	B map[int32]string `protobuf:"bytes,2,rep,name=b" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	C map[uint64]shL   `protobuf:"bytes,3,rep,name=c" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}
type btT struct {
	S string   `protobuf:"bytes,1,opt,name=s"`
	B []byte   `protobuf:"bytes,2,opt,name=b"`
	L []int64  `protobuf:"varint,3,rep,name=l"`
	R []string `protobuf:"bytes,4,rep,name=r"`
}

// op is one library call of one thread.
type op struct {
	name string
	// prep makes the call's arguments; the returned functions make the call and render its result
	prep func() (run func(), show func() string)
}

func dump(v any) string { return fmt.Sprintf("%s", deep(reflect.ValueOf(v), 0)) }

// deep renders a message completely (pointers followed).
func deep(v reflect.Value, d int) string {
	if d > 30 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + deep(v.Elem(), d+1)
	case reflect.Struct:
		var o []string
		for i := 0; i < v.NumField(); i++ {
			o = append(o, deep(v.Field(i), d+1))
		}
		return "{" + strings.Join(o, " ") + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%q", v.Bytes())
		}
		var o []string
		for i := 0; i < v.Len(); i++ {
			o = append(o, deep(v.Index(i), d+1))
		}
		return "[" + strings.Join(o, " ") + "]"
	case reflect.Map:
		return fmt.Sprint(mapStrings(v, d))
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v)
}

func mapStrings(v reflect.Value, d int) map[string]string {
	m := map[string]string{}
	it := v.MapRange()
	for it.Next() {
		m[deep(it.Key(), d+1)] = deep(it.Value(), d+1)
	}
	return m
}

func enc(name string, m any) op {
	return op{"Marshal " + name, func() (func(), func() string) {
		var b []byte
		var err error
		return func() { b, err = prutal.Marshal(m) }, func() string { return fmt.Sprintf("%x %v", b, err) }
	}}
}

func app(name string, m any) op {
	return op{"MarshalAppend " + name, func() (func(), func() string) {
		buf := append(make([]byte, 0, 64), 'p')
		var err error
		return func() { buf, err = prutal.MarshalAppend(buf, m) }, func() string { return fmt.Sprintf("%x %v", buf, err) }
	}}
}

func siz(name string, m any) op {
	return op{"Size " + name, func() (func(), func() string) {
		var n int
		var err error
		return func() { n, err = prutal.Size(m) }, func() string { return fmt.Sprint(n, err) }
	}}
}

func dec(name string, mk func() any, b []byte) op {
	return op{"Unmarshal " + name, func() (func(), func() string) {
		m := mk()
		in := append([]byte{}, b...)
		var err error
		return func() { err = prutal.Unmarshal(in, m) }, func() string { return fmt.Sprintf("%s %v", dump(m), err) }
	}}
}

func r(num int32, w int, body ...byte) []byte { return append(AppendTag(nil, num, w), body...) }
func l(num int32, parts ...[]byte) []byte {
	var p []byte
	for _, x := range parts {
		p = append(p, x...)
	}
	return AppendLen(AppendTag(nil, num, WBytes), p)
}
func s(x string) []byte { return []byte(x) }

type scenario struct {
	name string
	ops  []op
	warm bool // types already registered
	miss bool // pools empty
	// setup, if set, makes what the calls share
	setup func()
}

func j(parts ...[]byte) []byte {
	var p []byte
	for _, x := range parts {
		p = append(p, x...)
	}
	return p
}

func scenarios() []scenario {
	a := &cyA{X: 5, B: &cyB{M: map[string]*cyC{"k": {Y: "y", A: []*cyA{{X: 1}}}}}}
	aw := j(r(1, WVarint, 7), l(2, l(1, r(1, WVarint, 8)), l(2, l(1, s("k")), l(2, l(3, s("v"))))))
	se := &seT{X: 3, T: &seT{X: 4}}
	sew := j(r(1, WF32, 1, 2, 3, 4), l(2, r(1, WF32, 5, 6, 7, 8)))
	mkA := func() any { return &cyA{} }
	mkB := func() any { return &cyB{} }
	mkS := func() any { return &seT{} }
	mkM := func() any { return &mpT{} }
	mkT := func() any { return &btT{} }
	bw := j(l(1, r(1, WVarint, 8)), l(2, l(1, s("kk")), l(2, l(3, s("w")))))
	bt := func(c string) []byte {
		return j(l(1, s(strings.Repeat(c, 5))), l(2, s(strings.Repeat(c, 9))), r(3, WVarint, c[0]), r(3, WVarint, c[0]), l(4, s(c+c)), l(4, s(c)))
	}
	mp := func(c byte) []byte {
		return j(l(1, l(1, []byte{c}), l(2, r(1, WF32, c, 0, 0, 0))), l(2, r(1, WVarint, c), l(2, []byte{c, c})), l(3, r(1, WVarint, c), l(2, l(1, []byte{c}))), l(3, r(1, WVarint, c+1), l(2)))
	}
	mpv := func(c byte) *mpT {
		return &mpT{A: map[string]*seT{string(c): {X: uint32(c)}}, B: map[int32]string{int32(c): string(c)}, C: map[uint64]shL{uint64(c): {X: []int32{int32(c)}}}}
	}
	badmp := j(l(1, l(1, s("bad")), l(2, r(1, WF32, 9, 9, 9, 9))), l(3, r(1, WVarint, 9), l(2, l(1, []byte{9, 0x80}))))
	col1, col2 := colliding()
	out := []scenario{
		{name: "first-use-self", ops: []op{enc("seT", se), dec("seT", mkS, sew)}},
		{name: "first-use-self-size", ops: []op{siz("seT", se), enc("seT", se)}},
		{name: "first-use-cycle", ops: []op{enc("cyA", a), dec("cyA", mkA, aw)}},
		{name: "first-use-cycle-ends", ops: []op{dec("cyA", mkA, aw), dec("cyB", mkB, bw)}},
		{name: "first-use-shared-leaf", ops: []op{enc("shP", &shP{L: &shL{X: []int32{-1}}}), enc("shQ", &shQ{L: []*shL{{X: []int32{1, 2}}}, S: se})}},
		{name: "first-use-part", ops: []op{enc("shQ", &shQ{L: []*shL{{X: []int32{1, 2}}}, S: se}), dec("seT", mkS, sew)}},
		{name: "bad-twice", ops: []op{enc("bdU", &bdU{G: &bdG{X: 1}}), dec("bdL", func() any { return &bdL{} }, r(2, WVarint, 1))}},
		{name: "bad-and-its-part", ops: []op{enc("bdU", &bdU{G: &bdG{X: 1}}), enc("bdG", &bdG{X: 1, H: &bdH{Y: true}})}},
		{name: "bad-and-its-leaf", ops: []op{siz("bdL", &bdL{}), dec("bdH", func() any { return &bdH{} }, r(1, WVarint, 1))}},
		{name: "first-use-oneof", ops: []op{enc("onT", &onT{O: &onT_M{M: se}}), dec("onT", func() any { return &onT{} }, l(1, s("str")))}},
		{name: "first-use-colliding", ops: []op{col1, col2}},
		{name: "decode-decode", warm: true, ops: []op{dec("btT", mkT, bt("a")), dec("btT", mkT, bt("b"))}},
		{name: "decode-maps", warm: true, ops: []op{dec("mpT", mkM, mp('a')), dec("mpT", mkM, mp('c'))}},
		{name: "decode-fail-maps", warm: true, ops: []op{dec("mpT", mkM, badmp), dec("mpT", mkM, mp('c'))}},
		{name: "encode-decode-maps", warm: true, ops: []op{enc("mpT", mpv('x')), dec("mpT", mkM, mp('c'))}},
		{name: "encode-encode-maps", warm: true, ops: []op{enc("mpT", mpv('x')), app("mpT", mpv('z'))}},
		{name: "size-encode-maps", warm: true, ops: []op{siz("mpT", mpv('x')), enc("mpT", mpv('z'))}},
		{name: "encode-encode", warm: true, ops: []op{enc("btT", &btT{S: "q", L: []int64{1, 2}}), enc("btT", &btT{S: "rr", R: []string{"x"}})}},
		{name: "decode-decode-pools-empty", warm: true, miss: true, ops: []op{dec("mpT", mkM, mp('a')), dec("btT", mkT, bt("b"))}},
		{name: "three-first-use", ops: []op{enc("seT", se), dec("cyB", mkB, bw), enc("bdU", &bdU{})}},
		{name: "three-decode", warm: true, ops: []op{dec("btT", mkT, bt("a")), dec("mpT", mkM, mp('m')), dec("btT", mkT, bt("c"))}},
		{name: "three-same", ops: []op{enc("seT", se), dec("seT", mkS, sew), siz("seT", se)}},
	}
	return out
}

// colliding finds two types which fall into the same slot of the descriptor
// cache, if it is indexed by the low 16 bits of the type's address (any two
// types are a valid scenario).
func colliding() (op, op) {
	seen := map[uintptr]*Schema{}
	for i := 0; i < 5000; i++ {
		sc := BuildNamed(fmt.Sprintf("Col%d_", i), UnkNone, &Field{Num: 1, Kind: Int32, Card: Implicit})
		// the cache sees the message pointer's type
		k := reflect.ValueOf(reflect.PointerTo(sc.Go)).Pointer() & 0xffff
		if o := seen[k]; o != nil {
			mk := func(sc *Schema) op {
				p := ToGo(sc, &Val{F: map[int32]any{1: uint64(5)}})
				return enc("colliding", p.Interface())
			}
			return mk(o), mk(sc)
		}
		seen[k] = sc
	}
	se := enc("seT", &seT{X: 1})
	return se, se
}

func perms(n int) [][]int {
	if n == 2 {
		return [][]int{{0, 1}, {1, 0}}
	}
	return [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
}

// runner executes scenarios; cold library state was saved at start-up.
type runner struct {
	sync  bool // scheduling points at synchronisation points only
	light bool // look at the results once, and make no calls afterwards
	alone map[string][]string
}

var cold bool

func (x *runner) reset(sc *scenario) {
	if !cold {
		verifshim.Snapshot()
		cold = true
	}
	verifshim.Restore()
	verifshim.SetPoolMiss(sc.miss)
	if sc.setup != nil {
		sc.setup()
	}
	if sc.warm {
		for _, o := range sc.ops {
			run, _ := o.prep()
			run()
		}
	}
}

func (x *runner) expected(sc *scenario) []string {
	if e := x.alone[sc.name]; e != nil {
		return e
	}
	var e []string
	for _, o := range sc.ops {
		x.reset(&scenario{miss: sc.miss, setup: sc.setup})
		run, show := o.prep()
		run()
		e = append(e, show())
	}
	if x.alone == nil {
		x.alone = map[string][]string{}
	}
	x.alone[sc.name] = e
	return e
}

// exec runs one schedule and returns a description of what is wrong with it.
func (x *runner) exec(sc *scenario, ord []int, pre []verifshim.Preempt) (verifshim.Result, string, string) {
	want := x.expected(sc)
	x.reset(sc)
	fns := make([]func(), len(sc.ops))
	shows := make([]func() string, len(sc.ops))
	for i, o := range sc.ops {
		fns[i], shows[i] = o.prep()
	}
	verifshim.SetSyncOnly(x.sync)
	res := verifshim.Run(fns, ord, pre)
	if res.Deadlock {
		return res, "deadlock", "all calls wait for each other"
	}
	for i, p := range res.Panics {
		if p != nil {
			return res, "panic", fmt.Sprintf("%s panics: %v", sc.ops[i].name, p)
		}
	}
	// what the calls returned, twice: nothing may change it afterwards
	for pass := 0; pass < 2; pass++ {
		for i := range sc.ops {
			if got := shows[i](); got != want[i] {
				return res, "result", fmt.Sprintf("%s returned %s, alone it returns %s", sc.ops[i].name, got, want[i])
			}
		}
		if x.light {
			break
		}
		if pass == 0 {
			// and the library still works: every call again, one after the other
			for i, o := range sc.ops {
				run, show := o.prep()
				run()
				if got := show(); got != want[i] {
					return res, "afterwards", fmt.Sprintf("%s made again after the concurrent calls returned %s, alone it returns %s", o.name, got, want[i])
				}
			}
		}
	}
	return res, "", ""
}

func steps(sc *scenario, sync bool) int {
	x := runner{sync: sync}
	n := 0
	for _, ord := range perms(len(sc.ops)) {
		res, _, _ := x.exec(sc, ord, nil)
		if res.Steps > n {
			n = res.Steps
		}
	}
	return n
}

type block struct {
	sc    int
	ord   []int
	first int // step of the first preemption, 0: none
}

func showPre(ord []int, pre []verifshim.Preempt) string {
	o := fmt.Sprintf("threads in order %v", ord)
	for _, p := range pre {
		o += fmt.Sprintf(", at step %d thread %d takes over", p.Step, p.To)
	}
	return o
}

// explore runs every schedule whose first preemption is at step first, with up
// to bound preemptions. It calls visit for each.
func explore(x *runner, sc *scenario, ord []int, first, bound int, visit func(pre []verifshim.Preempt, res verifshim.Result, key, what string) bool) {
	n := len(sc.ops)
	if first == 0 {
		res, k, w := x.exec(sc, ord, nil)
		visit(nil, res, k, w)
		return
	}
	var rec func(pre []verifshim.Preempt, from int) bool
	rec = func(pre []verifshim.Preempt, from int) bool {
		for st := from; ; st++ {
			beyond := false
			for to := 0; to < n; to++ {
				p := append(append([]verifshim.Preempt{}, pre...), verifshim.Preempt{Step: st, To: to})
				res, k, w := x.exec(sc, ord, p)
				if res.Steps < st {
					beyond = true
					break
				}
				if res.Fired == len(p) || k != "" {
					if !visit(p, res, k, w) {
						return false
					}
				}
				if len(p) < bound {
					if !rec(p, st+1) {
						return false
					}
				}
				if n == 2 && to == 0 && res.Fired == len(p) {
					// with two threads there is only one to switch to
					break
				}
			}
			if beyond || len(pre) == 0 {
				return true
			}
		}
	}
	rec(nil, first)
}

// margin is the number of steps a schedule with preemptions may be longer than
// the longest without any (checked: see schedules-at-the-step-bound).
func margin(n int) int { return n + n/3 + 40 }

func interleavings(name string, scs []scenario, sync bool, bound2, bound3 int) *core.Space {
	var blocks []block
	var max []int
	for i := range scs {
		m := margin(steps(&scs[i], sync))
		max = append(max, m)
		for _, ord := range perms(len(scs[i].ops)) {
			for f := 0; f <= m; f++ {
				blocks = append(blocks, block{i, ord, f})
			}
		}
	}
	x := runner{sync: sync}
	return &core.Space{Name: name, N: int64(len(blocks)), Block: 4, HangSecs: 200, Run: func(i int64, c *core.Ctx) {
		b := blocks[i]
		sc := &scs[b.sc]
		bound := bound2
		if len(sc.ops) > 2 {
			bound = bound3
		}
		explore(&x, sc, b.ord, b.first, bound, func(pre []verifshim.Preempt, res verifshim.Result, key, what string) bool {
			c.Trans(res.Steps)
			c.Trace(1)
			c.Count("schedules", 1)
			if key != "" {
				c.Fail(sc.name+":"+key, "%s\n%s", what, showPre(b.ord, pre))
				return false
			}
			if b.first == max[b.sc] {
				c.Count("schedules-at-the-step-bound", 1)
			}
			c.StateStr(fmt.Sprint(sc.name, b.ord, pre, res.Steps))
			return true
		})
	}, Describe: func(i int64) string {
		b := blocks[i]
		return fmt.Sprintf("%s, threads %v, first preemption at step %d", scs[b.sc].name, b.ord, b.first)
	}}
}

// ---- race detector ----

// RaceChild is run in the race-detector build: all schedules of one scenario
// and order whose first preemption is at steps from..to-1.
func RaceChild(suite string, sync, sc, ord, from, to, bound int) int {
	s := &suites[suite]()[sc]
	o := perms(len(s.ops))[ord]
	x := runner{sync: sync == 1, light: suite != "C11"}
	n := 0
	bad := ""
	for f := from; f < to && bad == ""; f++ {
		explore(&x, s, o, f, bound, func(pre []verifshim.Preempt, res verifshim.Result, key, what string) bool {
			n++
			fmt.Fprintf(os.Stderr, "#%d %s\n", n, showPre(o, pre))
			if key != "" {
				bad = key + "\n" + what + "\n" + showPre(o, pre)
			}
			return bad == ""
		})
	}
	json.NewEncoder(os.Stdout).Encode(raceResult{n, bad})
	return 0
}

type raceResult struct {
	Schedules int
	Bad       string
}

// suites are the lists of scenarios.
var suites = map[string]func() []scenario{"C11": scenarios, "G15": genScenarios, "G15-first": genFirst}

// races runs the schedules of a suite in another build of this program, with
// the race detector; per first steps are given to one process.
func races(name, bin, suite string, sync bool, per, bound2, bound3 int) *core.Space {
	scs := suites[suite]()
	type blk struct{ sc, ord, from, to int }
	var blocks []blk
	self, _ := os.Executable()
	bin = filepath.Join(filepath.Dir(self), bin)
	for i := range scs {
		n := 0
		if suite == "C11" {
			n = steps(&scs[i], sync)
		} else { // that build has other points
			cmd := exec.Command(bin, "-race-steps", fmt.Sprintf("%s %d %d", suite, b2i(sync), i))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=1")
			out, _ := cmd.Output() // what goes wrong there goes wrong in the first block too
			fmt.Sscan(string(out), &n)
		}
		for o := range perms(len(scs[i].ops)) {
			for f := 0; f <= margin(n); f += per {
				blocks = append(blocks, blk{i, o, f, f + per})
			}
		}
	}
	return &core.Space{Name: name, N: int64(len(blocks)), Block: 1, HangSecs: 300, Run: func(i int64, c *core.Ctx) {
		b := blocks[i]
		bound := bound2
		if len(scs[b.sc].ops) > 2 {
			bound = bound3
		}
		cmd := exec.Command(bin, "-race-child", fmt.Sprintf("%s %d %d %d %d %d %d", suite, b2i(sync), b.sc, b.ord, b.from, b.to, bound))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0", "GOMAXPROCS=1", "GOMEMLIMIT=3000MiB")
		var so, se strings.Builder
		cmd.Stdout = &so
		cmd.Stderr = &se
		err := cmd.Run()
		txt := se.String()
		if err != nil {
			if strings.Contains(txt, "DATA RACE") {
				at := strings.Index(txt, "WARNING: DATA RACE")
				head := txt[:at]
				if k := strings.LastIndex(strings.TrimSpace(head), "\n"); k >= 0 {
					head = head[k+1:]
				}
				c.Fail("data-race:"+scs[b.sc].name, "after schedule %s the race detector reports\n%s", head, txt[at:])
				return
			}
			panic(fmt.Sprintf("race build: %v\n%s\n%s", err, tail(txt, 1500), so.String()))
		}
		var m raceResult
		if json.Unmarshal([]byte(so.String()), &m) != nil {
			panic("race build: " + so.String())
		}
		c.Count("schedules-under-the-race-detector", int64(m.Schedules))
		c.Trace(m.Schedules)
		c.Trans(m.Schedules)
		if m.Bad != "" {
			key, what, _ := strings.Cut(m.Bad, "\n")
			c.Fail(scs[b.sc].name+":"+key, "%s", what)
		}
	}, Describe: func(i int64) string {
		b := blocks[i]
		return fmt.Sprintf("%s, thread order %d, preemption at steps %d..%d", scs[b.sc].name, b.ord, b.from, b.to)
	}}
}

// RaceSteps prints the number of steps of a scenario in this build.
func RaceSteps(suite string, sync, sc int) int {
	fmt.Println(steps(&suites[suite]()[sc], sync == 1))
	return 0
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func init() {
	props.Reg(&core.Prop{ID: "C11", Level: "model_checking", Env: []string{"GOGC=400", "GOMAXPROCS=1"},
		Rule:   "The library is rebuilt with a scheduling point before every statement and a controlled scheduler behind its mutexes and pools. For every scenario (two or three concurrent calls over fresh, cyclic, shared, refused and already used types) every schedule up to the preemption bound is executed, from the library's initial state; each call must return what it returns alone, during the schedule and again afterwards. Space statements switches at any statement; space synchronisation switches before statements that may touch shared state (atomics, locks, pools, mutable package-level variables); space data-races executes the schedules of the latter under the race detector. Every schedule with at least one preemption is non-trivial.",
		Bounds: "statements: 1 preemption; synchronisation: 3 preemptions with 2 threads, 2 with 3 (thorough: 4 and 3); data-races: 2 and 1 (thorough: 3 and 2); switches only between statements, sequentially consistent memory",
		Assume: []string{"interleavings inside one statement, and switches elsewhere than at synchronisation points, matter only if there is a data race, which the race detector looks for in every explored schedule"},
		Spaces: func(tier string) []*core.Space {
			if tier == "thorough" {
				return []*core.Space{interleavings("statements", scenarios(), false, 1, 1), interleavings("synchronisation", scenarios(), true, 4, 3), races("data-races", "mcs-race", "C11", true, 8, 3, 2)}
			}
			return []*core.Space{interleavings("statements", scenarios(), false, 1, 1), interleavings("synchronisation", scenarios(), true, 3, 2), races("data-races", "mcs-race", "C11", true, 8, 2, 1)}
		}})
}
