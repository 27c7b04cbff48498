//go:build sched

package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/verifshim"
	"verif/mc/core"
	. "verif/mc/pb"
	"verif/mc/props"
)

// live is a decoded message and what it must stay.
type live struct {
	s    *Schema
	p    reflect.Value
	want *Val // nil once its owner has overwritten it
	note string
}

func (l *live) diff() string {
	return Diff(l.s, l.want, Norm(l.s, FromGoValue(l.s, l.p)))
}

func memory(ls []*live, in []byte) regions {
	var r regions
	if cap(in) > 0 {
		r.add(unsafe.Pointer(unsafe.SliceData(in)), uintptr(cap(in)), true, "the input")
	}
	for i, l := range ls {
		if l != nil {
			r.walk(l.p, fmt.Sprintf("message %d", i))
		}
	}
	return r
}

var inBuf []byte

// decode decodes from a buffer which is overwritten right afterwards.
func decodeOwn(s *Schema, p reflect.Value, b []byte) (in []byte, err error) {
	if cap(inBuf) < len(b)+16 {
		inBuf = make([]byte, 2*len(b)+4096)
	}
	in = inBuf[:len(b)]
	copy(in, b)
	err = prutal.Unmarshal(in, p.Interface())
	for i := range in {
		in[i] = 0xEE
	}
	return inBuf, err
}

var loaded = -1
var loadedF *props.Family

func families(tier string) (out []*props.Family) {
	for _, f := range append(props.InputFamilies(tier), props.ValueFamilies(tier)...) {
		f := f
		out = append(out, &f)
	}
	return
}

// batches decodes groups of messages one after the other, overwrites every
// second one, collects garbage and compares the others.
func batches(tier string, k int, f *props.Family) *core.Space {
	N := f.N
	groupSize := int64(512)
	if f.Name == "lenboundary" || f.Name == "big" {
		groupSize = 64
	}
	n := (N + groupSize - 1) / groupSize
	name := f.Name
	f = nil // it is large, and the collector would go through it every time
	load := func() *props.Family {
		if loaded != k {
			loadedF = nil
			loadedF = families(tier)[k]
			loaded = k
		}
		return loadedF
	}
	return &core.Space{Name: "batch-" + name, N: n, Block: 1, Run: func(gi int64, c *core.Ctx) {
		f := load()
		for parity := 0; parity < 2; parity++ {
			var ls []*live
			var in []byte
			for i := gi * groupSize; i < f.N && i < (gi+1)*groupSize; i++ {
				s, b := f.Get(i)
				v := NewVal()
				if props.ModelDecode(s, b, v) != nil {
					continue
				}
				l := &live{s: s, p: NewGo(s), want: Norm(s, v), note: fmt.Sprintf("case %d: %s into %s", i, props.Hex(b), s)}
				var err error
				if in, err = decodeOwn(s, l.p, b); err != nil {
					c.Fail("rejects", "%s: %v", l.note, err)
					return
				}
				c.Trans(1)
				if parity == 0 {
					c.StateBytes([]byte(s.Name), b)
				}
				ls = append(ls, l)
			}
			if d := memory(ls, in).check(true); d != "" {
				c.Fail("shared", "after decoding the group: %s%s", d, where(ls, d))
				return
			}
			for i, l := range ls {
				if i%2 == parity {
					l.want = nil
					scribble(l.p)
				}
			}
			runtime.GC()
			c.Trace(1)
			for i, l := range ls {
				if l.want == nil {
					continue
				}
				if d := l.diff(); d != "" {
					c.Fail("changed:"+l.s.Fields[0].Shape(), "message %d of the group (%s) changed although nobody touched it: %s", i, l.note, d)
					return
				}
			}
			runtime.KeepAlive(ls)
		}
	}, Describe: func(gi int64) string {
		s, b := load().Get(gi * groupSize)
		return fmt.Sprintf("group of %d from %s into %s", groupSize, props.Hex(b), s)
	}}
}

func where(ls []*live, d string) string {
	o := ""
	for i, l := range ls {
		if strings.Contains(d, fmt.Sprintf("message %d", i)) {
			o += "\n" + l.note
		}
	}
	return o
}

// ---- block allocator ----

// ofT asks the block allocator for memory of every size class it serves.
type ofT struct {
	P [][]byte  `protobuf:"bytes,1,rep,name=p"` // fills the block up to the offset under test
	A []byte    `protobuf:"bytes,2,opt,name=a"`
	B *bool     `protobuf:"varint,3,opt,name=b"`
	C *int32    `protobuf:"fixed32,4,opt,name=c"`
	D *int64    `protobuf:"fixed64,5,opt,name=d"`
	E []int32   `protobuf:"fixed32,6,rep,name=e"`
	F []int64   `protobuf:"varint,7,rep,name=f"`
	G []bool    `protobuf:"varint,8,rep,name=g"`
	H string    `protobuf:"bytes,9,opt,name=h"`
	I *float64  `protobuf:"fixed64,10,opt,name=i"`
	J []float32 `protobuf:"fixed32,11,rep,name=j"`
	K []byte    `protobuf:"bytes,12,opt,name=k"`
}

func rep(n int, b []byte) []byte {
	var o []byte
	for ; n > 0; n-- {
		o = append(o, b...)
	}
	return o
}

// requests lists wire records which make the decoder allocate.
func requests(second bool) (names []string, bs [][]byte) {
	add := func(n string, b []byte) { names = append(names, n); bs = append(bs, b) }
	x := func(n int) []byte { return rep(n, []byte{0x5a}) }
	d := int32(0)
	if second {
		d = 10 // the other byte slice
	}
	for _, n := range []int{1, 2, 3, 7, 8, 100, 1023, 1024} {
		add(fmt.Sprintf("bytes of %d", n), l(2+d, x(n)))
	}
	add("string of 5", l(9, x(5)))
	add("bool pointer", r(3, WVarint, 1))
	add("4-byte pointer", r(4, WF32, 1, 2, 3, 4))
	add("8-byte pointer", r(5, WF64, 1, 2, 3, 4, 5, 6, 7, 8))
	for _, n := range []int{1, 9, 65} {
		add(fmt.Sprintf("4-byte list of %d", n), rep(n, r(6, WF32, 1, 2, 3, 4)))
		add(fmt.Sprintf("8-byte list of %d", n), rep(n, r(7, WVarint, 5)))
	}
	add("bool list of 9", rep(9, r(8, WVarint, 1)))
	add("packed 4-byte list", l(6, x(40)))
	return
}

// offsets: for every offset of the next free byte in a fresh block (1024-byte
// direct allocations start above 1024), every pair of requests.
func offsets(step int) *core.Space {
	n1, b1 := requests(false)
	n2, b2 := requests(true)
	pairs := len(b1) * len(b2)
	const max = 4096 + 32
	n := (max + step - 1) / step
	s := FromGo(reflect.TypeOf(ofT{}), nil, map[reflect.Type]*Schema{})
	at := func(i int64) (off, a, b int) {
		off = int(i)*step + 0
		return off, 0, 0
	}
	fill := func(off int) []byte {
		var o []byte
		for off > 0 {
			k := off
			if k > 1000 {
				k = 1000
			}
			o = append(o, l(1, rep(k, []byte{0x77}))...)
			off -= k
		}
		return o
	}
	return &core.Space{Name: fmt.Sprintf("block-offsets-%d", step), N: int64(n), Block: 16, Run: func(i int64, c *core.Ctx) {
		off, _, _ := at(i)
		pre := fill(off)
		verifshim.SetPoolMiss(true) // a fresh decoder for each call
		defer verifshim.SetPoolMiss(false)
		for k := 0; k < pairs; k++ {
			b := append(append(append([]byte{}, pre...), b1[k/len(b2)]...), b2[k%len(b2)]...)
			v := NewVal()
			if err := props.ModelDecode(s, b, v); err != nil {
				panic(err)
			}
			p := NewGo(s)
			in, err := decodeOwn(s, p, b)
			c.Trans(1)
			if err != nil {
				c.Fail("rejects", "%v", err)
				return
			}
			lv := &live{s: s, p: p, want: Norm(s, v)}
			name := fmt.Sprintf("offset %d, then %s, then %s", off, n1[k/len(b2)], n2[k%len(b2)])
			if d := memory([]*live{lv}, in).check(true); d != "" {
				c.Fail("shared", "%s: %s", name, d)
				return
			}
			if d := lv.diff(); d != "" {
				c.Fail("changed", "%s: %s", name, d)
				return
			}
			if d := misaligned(p); d != "" {
				c.Fail("misaligned", "%s: %s", name, d)
				return
			}
			c.State(uint64(off)<<32 | uint64(k))
			c.Trace(1)
		}
	}, Describe: func(i int64) string {
		off, _, _ := at(i)
		return fmt.Sprintf("block offset %d, all %d pairs of requests", off, pairs)
	}}
}

// misaligned reports a pointer or list that is not aligned for its type.
func misaligned(p reflect.Value) string {
	v := p.Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Pointer, reflect.Slice:
			if a := uintptr(f.Type().Elem().Align()); f.Pointer()%a != 0 {
				return fmt.Sprintf("%s at %#x is not %d-byte aligned", v.Type().Field(i).Name, f.Pointer(), a)
			}
		}
	}
	return ""
}

// ---- histories ----

type histOp struct {
	name string
	run  func(h *hist)
}

type hist struct {
	c    *core.Ctx
	ls   []*live
	in   []byte
	fail string
}

func (h *hist) check(op string) bool {
	if h.fail != "" {
		h.c.Fail("history", "%s: %s", op, h.fail)
		return false
	}
	if d := memory(h.ls, h.in).check(true); d != "" {
		h.c.Fail("shared", "after %s: %s", op, d)
		return false
	}
	for i, l := range h.ls {
		if l.want != nil {
			if d := l.diff(); d != "" {
				h.c.Fail("changed", "after %s: message %d (%s): %s", op, i, l.note, d)
				return false
			}
		}
	}
	return true
}

func histOps() []histOp {
	hs := props.HySchema(props.HyNew())
	sub := func(c byte, n int) []byte {
		return j(r(1, WVarint, c), l(2, rep(n, []byte{c})), l(4, []byte{c & 0x7f, 1, c & 0x7f}), l(5, rep(n, []byte{c})), l(30, []byte{c}))
	}
	rich := func(c byte, n int) []byte {
		return j(r(1, WVarint, c), l(2, rep(n, []byte{c})), l(3, rep(n, []byte{c})), l(4, []byte{1, c & 0x7f, 3}),
			l(5, l(1, []byte{c, 'k'}), l(2, sub(c, n))), l(6, r(1, WVarint, c), l(2, sub(c, n))), l(7, l(1, []byte{c}), l(2, rep(n, []byte{c}))),
			l(8, r(1, WF64, c, 0, 0, 0, 0, 0, 0, 0), l(2, rep(n, []byte{c}))), l(9, sub(c, n)), l(9, sub(c, 1)), l(10, sub(c, n)), l(11, sub(c, n)),
			r(12, WVarint, c), r(13, WF64, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f), l(14, rep(n, []byte{c})), l(14, rep(n+1, []byte{c})), l(16, sub(c, n)), l(17),
			l(18, r(1, WVarint, c), r(2, WVarint, c)), l(99, rep(n, []byte{c})))
	}
	dec := func(name string, b []byte) histOp {
		v := NewVal()
		if err := props.ModelDecode(hs, b, v); err != nil {
			panic(name + err.Error())
		}
		want := Norm(hs, v)
		return histOp{"decode " + name, func(h *hist) {
			l := &live{s: hs, p: reflect.ValueOf(props.HyNew()), want: want, note: name}
			var err error
			if h.in, err = decodeOwn(hs, l.p, b); err != nil {
				h.fail = err.Error()
			}
			h.ls = append(h.ls, l)
		}}
	}
	merge := func(name string, b []byte) histOp {
		return histOp{"decode " + name + " into the newest message", func(h *hist) {
			if len(h.ls) == 0 || h.ls[len(h.ls)-1].want == nil {
				return
			}
			l := h.ls[len(h.ls)-1]
			v := Clone(l.want)
			v.Unk = nil
			if err := props.ModelDecode(hs, b, v); err != nil {
				panic(err)
			}
			var err error
			if h.in, err = decodeOwn(hs, l.p, b); err != nil {
				h.fail = err.Error()
			}
			l.want = Norm(hs, v)
		}}
	}
	bad := rich('b', 20)
	bad = append(bad, l(11, r(1, WVarint, 0x80))...)
	bad = bad[:len(bad)-1]
	bad = append(bad, 0x80)
	ops := []histOp{
		dec("small", rich('a', 3)),
		dec("large", rich('d', 700)),
		dec("numbers", j(l(4, rep(60, []byte{5})), r(12, WVarint, 3), rep(20, r(13, WF64, 1, 2, 3, 4, 5, 6, 7, 8)))),
		dec("odd", j(l(2, rep(5, []byte{'o'})), l(3, rep(1019, []byte{'p'})), l(15, rep(1025, []byte{'q'})))),
		merge("more", rich('m', 9)),
		{"a failing decode", func(h *hist) {
			p := reflect.ValueOf(props.HyNew())
			var err error
			if h.in, err = decodeOwn(hs, p, bad); err == nil {
				h.fail = "malformed input accepted"
			}
		}},
		{"overwrite the newest message", func(h *hist) {
			if n := len(h.ls); n > 0 {
				h.ls[n-1].want = nil
				scribble(h.ls[n-1].p)
			}
		}},
		{"overwrite the oldest message", func(h *hist) {
			if len(h.ls) > 0 {
				h.ls[0].want = nil
				scribble(h.ls[0].p)
			}
		}},
		{"drop the oldest message and collect", func(h *hist) {
			if len(h.ls) > 0 {
				h.ls = h.ls[1:]
			}
			runtime.GC()
		}},
		{"drop the newest message and collect", func(h *hist) {
			if n := len(h.ls); n > 0 {
				h.ls[n-1] = nil
				h.ls = h.ls[:n-1]
			}
			runtime.GC()
		}},
		{"encode all", func(h *hist) {
			for _, l := range h.ls {
				if l.want == nil {
					continue
				}
				b, err := prutal.Marshal(l.p.Interface())
				if err != nil {
					h.fail = err.Error()
				}
				b = b[:cap(b)]
				for i := range b {
					b[i] = 0xEE
				}
			}
		}},
	}
	return ops
}

func histories(k int) *core.Space {
	ops := histOps()
	n := int64(1)
	for i := 0; i < k; i++ {
		n *= int64(len(ops))
	}
	seq := func(i int64) []int {
		o := make([]int, k)
		for x := k - 1; x >= 0; x-- {
			o[x] = int(i % int64(len(ops)))
			i /= int64(len(ops))
		}
		return o
	}
	return &core.Space{Name: fmt.Sprintf("histories-%d", k), N: n, Block: 64, Run: func(i int64, c *core.Ctx) {
		verifshim.DropPools()
		h := &hist{c: c}
		txt := ""
		for _, o := range seq(i) {
			ops[o].run(h)
			c.Trans(1)
			txt += ops[o].name + "; "
			if !h.check(txt) {
				return
			}
		}
		runtime.GC()
		if h.check(txt + "collect") {
			c.Trace(1)
			c.StateStr(txt)
		}
	}, Describe: func(i int64) string {
		o := ""
		for _, x := range seq(i) {
			o += ops[x].name + "; "
		}
		return o
	}}
}

// ---- collection inside a call ----

var seenPC map[uintptr]int
var picked []int

// visited notes the steps at which a statement is executed for the first or second time.
func visited(step int) {
	if seenPC == nil {
		return
	}
	var pc [1]uintptr
	runtime.Callers(4, pc[:])
	if seenPC[pc[0]]++; seenPC[pc[0]] <= 2 {
		picked = append(picked, step)
	}
}

func pick(run func()) []int {
	seenPC, picked = map[uintptr]int{}, nil
	run()
	seenPC = nil
	return picked
}

func collectInside(tier string) *core.Space {
	ss, bs := props.ShapeInputs(tier)
	return &core.Space{Name: "collect-inside-a-call", N: int64(len(bs)), Block: 4, Run: func(i int64, c *core.Ctx) {
		s, b := ss[i], bs[i]
		v := NewVal()
		if props.ModelDecode(s, b, v) != nil {
			return
		}
		want := Norm(s, v)
		var d string
		var at []int
		dec := func(k int) (steps int, d string) {
			p := NewGo(s)
			verifshim.SetHook(func(step int) {
				steps = step
				if step == k {
					runtime.GC()
				}
				visited(step)
			})
			in, err := decodeOwn(s, p, b)
			verifshim.SetHook(nil)
			c.Trans(1)
			if err != nil {
				return steps, err.Error()
			}
			if d := memory([]*live{{s: s, p: p}}, in).check(true); d != "" {
				return steps, d
			}
			return steps, Diff(s, want, Norm(s, FromGoValue(s, p)))
		}
		dec(0) // registers the type
		at = pick(func() { _, d = dec(0) })
		for _, k := range at {
			if d != "" {
				break
			}
			_, d = dec(k)
			if d != "" {
				d = fmt.Sprintf("collection at step %d: %s", k, d)
			}
			c.Count("collections", 1)
		}
		if d != "" {
			c.Fail("collected:"+s.Fields[0].Shape(), "%s\n%s into %s", d, props.Hex(b), s)
			return
		}
		// encoding: the message is used through untyped pointers
		p := ToGo(s, want)
		ref, err := prutal.Marshal(p.Interface())
		enc := func(k int) (steps int, d string) {
			m := p.Interface()
			verifshim.SetHook(func(step int) {
				steps = step
				if step == k {
					runtime.GC()
				}
				visited(step)
			})
			out, err2 := prutal.Marshal(m)
			verifshim.SetHook(nil)
			c.Trans(1)
			if fmt.Sprint(err) != fmt.Sprint(err2) || len(out) != len(ref) || single(want) && string(out) != string(ref) {
				return steps, fmt.Sprintf("Marshal gives %x, %v instead of %x, %v", out, err2, ref, err)
			}
			return steps, ""
		}
		at = pick(func() { _, d = enc(0) })
		for _, k := range at {
			if d != "" {
				break
			}
			_, d = enc(k)
			c.Count("collections", 1)
		}
		if d != "" {
			c.Fail("collected-encoding:"+s.Fields[0].Shape(), "%s", d)
		}
		c.Trace(1)
		c.StateBytes([]byte(s.Name), b)
	}, Describe: func(i int64) string { return props.Hex(bs[i]) + " into " + ss[i].String() }}
}

// single: the encoding does not depend on map order.
func single(v *Val) bool {
	for _, x := range v.F {
		switch t := x.(type) {
		case map[any]any:
			if len(t) > 1 {
				return false
			}
			for _, e := range t {
				if m, ok := e.(*Val); ok && !single(m) {
					return false
				}
			}
		case *Val:
			if !single(t) {
				return false
			}
		case []any:
			for _, e := range t {
				if m, ok := e.(*Val); ok && !single(m) {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	props.Reg(&core.Prop{ID: "C08", Level: "model_checking", Env: []string{"GODEBUG=clobberfree=1", "GOMAXPROCS=1"},
		Rule:   "After every decode (and every step of every history) all memory reachable from all live messages and the input buffer is mapped: writable pieces must be disjoint from everything else and lie inside one heap object, and every message must equal the model. The input buffer is overwritten after each call, messages are overwritten up to their capacities or dropped, and the collector runs with freed memory overwritten. Space batch-*: the value and input families of C01/C03 in groups of 512 (64 for the large values); block-offsets: every offset of the block allocator x every pair of requests; histories: all sequences of calls, overwrites, drops and collections; collect-inside-a-call: a collection at the first and second execution of every statement of a call. A case is non-trivial when at least one message stays alive.",
		Bounds: "histories up to 4 (5) operations; block offsets 0..4128 x 324 request pairs; one collection per call, at every statement",
		Assume: []string{"the collector runs between statements, not concurrently with the library (write barriers are not exercised)"},
		Spaces: func(tier string) []*core.Space {
			var out []*core.Space
			k, step := 4, 1
			if tier == "thorough" {
				k = 5
			}
			out = append(out, collectInside(tier), histories(k), offsets(step))
			for i, f := range families(tier) {
				out = append(out, batches(tier, i, f))
			}
			return out
		}})
}
