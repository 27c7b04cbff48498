package props

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/cloudwego/prutal"
	"verif/mc/core"
	. "verif/mc/pb"
)

// the message types of the history alphabet

type hyS struct {
	X             int32    `protobuf:"varint,1,opt,name=x"`
	Y             string   `protobuf:"bytes,2,opt,name=y"`
	Z             *hyS     `protobuf:"bytes,3,opt,name=z"`
	W             []uint32 `protobuf:"varint,4,rep,packed,name=w"`
	V             *string  `protobuf:"bytes,5,opt,name=v"`
	unknownFields []byte
}

type hyT struct {
	A             int64             `protobuf:"varint,1,opt,name=a"`
	B             string            `protobuf:"bytes,2,opt,name=b"`
	C             []byte            `protobuf:"bytes,3,opt,name=c"`
	L             []int64           `protobuf:"varint,4,rep,packed,name=l"`
	M             map[string]*hyS   `protobuf:"bytes,5,rep,name=m" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	N             map[int32]hyS     `protobuf:"bytes,6,rep,name=n" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O             map[string]string `protobuf:"bytes,7,rep,name=o" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	P             map[uint64][]byte `protobuf:"bytes,8,rep,name=p" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Q             []*hyS            `protobuf:"bytes,9,rep,name=q"`
	R             []hyS             `protobuf:"bytes,10,rep,name=r"`
	S             *hyS              `protobuf:"bytes,11,opt,name=s"`
	T             *int32            `protobuf:"zigzag32,12,opt,name=t"`
	F             []float64         `protobuf:"fixed64,13,rep,name=f"`
	D             [][]byte          `protobuf:"bytes,14,rep,name=d"`
	U             isHyT_U           `protobuf_oneof:"u"`
	E             *hyE              `protobuf:"bytes,17,opt,name=e"`
	I             map[int32]int64   `protobuf:"bytes,18,rep,name=i" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	unknownFields []byte
}
type hyE struct{}
type isHyT_U interface{ isHyT_U() }
type hyT_Us struct {
	Us string `protobuf:"bytes,15,opt,name=us"`
}
type hyT_Um struct {
	Um *hyS `protobuf:"bytes,16,opt,name=um"`
}

func (*hyT_Us) isHyT_U() {}
func (*hyT_Um) isHyT_U() {}

var hyWrappers = []any{(*hyT_Us)(nil), (*hyT_Um)(nil)}

func (*hyT) XXX_OneofWrappers() []interface{} { return hyWrappers }

// a type refused at first use, one that refers to it, and a good one that both refer to
type hyBadLeaf struct {
	A int32   `protobuf:"varint,1,opt,name=a"`
	B *hyGood `protobuf:"bytes,2,opt,name=b"`
	C string  `protobuf:"varint,3,opt,name=c"`
}
type hyBadUser struct {
	G *hyGood    `protobuf:"bytes,1,opt,name=g"`
	L *hyBadLeaf `protobuf:"bytes,2,opt,name=l"`
}
type hyGood struct {
	A int32   `protobuf:"varint,1,opt,name=a"`
	B string  `protobuf:"bytes,2,opt,name=b"`
	C *hyGood `protobuf:"bytes,3,opt,name=c"`
}

var hyMemo = map[reflect.Type]*Schema{}

func hySchema(p any) *Schema {
	t := reflect.TypeOf(p).Elem()
	if t == reflect.TypeOf(hyT{}) {
		Wrappers[t] = hyWrappers
	}
	s := FromGo(t, Wrappers[t], hyMemo)
	if s.Name == "hyT" {
		for _, f := range s.Fields { // tags say neither proto2 nor proto3: C is never an empty non-nil slice here
			if f.Num == 3 {
				f.Card = Implicit
			}
		}
	}
	return s
}

// hyState is one history's own data.
type hyState struct {
	seq  int64
	keep []hyKept
}
type hyKept struct {
	name string
	s    *Schema
	p    reflect.Value
	out  []byte
	dump string
}

type hyOp struct {
	name string
	run  func(h *hyState) string
}

// dumpOf shows a message's contents and a digest of all of them.
func dumpOf(s *Schema, p reflect.Value) string {
	v := FromGoValue(s, p)
	return fmt.Sprintf("%s #%x", v, sumBytes(Encode(s, v))[:9])
}

// decOp decodes b into a new message of the type and reports everything observable.
func decOp(name string, mk func() any, b []byte) hyOp {
	s := hySchema(mk())
	return hyOp{name, func(h *hyState) string {
		m := mk()
		in := append(make([]byte, 0, len(b)), b...)
		err := prutal.Unmarshal(in, m)
		p := reflect.ValueOf(m)
		d := dumpOf(s, p)
		h.keep = append(h.keep, hyKept{name: name, s: s, p: p, dump: d})
		if string(in) != string(b) {
			return "input modified"
		}
		for i := range in {
			in[i] = 0xEE
		}
		return fmt.Sprintf("%v %s", err, d)
	}}
}

func encOp(name string, m any) hyOp {
	return hyOp{name, func(h *hyState) string {
		b, err := prutal.Marshal(m)
		if len(b) > 0 && err == nil {
			h.keep = append(h.keep, hyKept{name: name, out: b, dump: string(b)})
		}
		if err != nil {
			return "error " + err.Error()
		}
		return fmt.Sprintf("%x", sumBytes(b))
	}}
}

// sumBytes keeps long outputs short: length, head and a digest of everything.
func sumBytes(b []byte) []byte {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	o := AppendVarint(nil, uint64(len(b)))
	for i := 0; i < 8; i++ {
		o = append(o, byte(h>>(8*i)))
	}
	if len(b) > 400 {
		b = b[:400]
	}
	return append(o, b...)
}

func sizeOp(name string, m any) hyOp {
	return hyOp{name, func(h *hyState) string {
		n, err := prutal.Size(m)
		return fmt.Sprint(n, err)
	}}
}

func historyOps() []hyOp {
	newT := func() any { return &hyT{} }
	newS := func() any { return &hyS{} }
	sub := func(x int, y string) []byte { return cat(rec(1, WVarint, []byte{byte(x)}), lenRec(2, []byte(y))) }
	str := func(c byte, n int) []byte { return []byte(strings.Repeat(string(rune(c)), n)) }
	entry := func(num int32, k, v []byte) []byte { return lenRec(num, cat(k, v)) }
	full := cat(rec(1, WVarint, []byte{200, 1}), lenRec(2, []byte("hello")), lenRec(3, []byte{1, 2, 3}), lenRec(4, []byte{1, 2, 0x80, 1}),
		entry(5, lenRec(1, []byte("k1")), lenRec(2, sub(5, "five"))), entry(5, lenRec(1, []byte("k2")), lenRec(2, nil)),
		entry(6, rec(1, WVarint, []byte{3}), lenRec(2, sub(6, "six"))), entry(7, lenRec(1, []byte("a")), lenRec(2, []byte("b"))),
		entry(8, rec(1, WF64, []byte{1, 0, 0, 0, 0, 0, 0, 0}), lenRec(2, []byte("bytes"))),
		lenRec(9, sub(1, "q0")), lenRec(9, nil), lenRec(10, sub(2, "r0")), lenRec(10, cat(sub(3, "r1"), lenRec(3, sub(4, "deep")), lenRec(4, []byte{7, 8}))),
		lenRec(11, sub(9, "s")), rec(12, WVarint, []byte{5}), rec(13, WF64, []byte{1, 2, 3, 4, 5, 6, 7, 8}), lenRec(14, []byte("d0")), lenRec(14, nil),
		lenRec(16, sub(4, "one")), lenRec(17, nil), entry(18, rec(1, WVarint, []byte{1}), rec(2, WVarint, []byte{2})), lenRec(900, []byte("unknown")))
	small := cat(entry(5, lenRec(1, []byte("only")), nil), entry(6, nil, nil), entry(7, nil, lenRec(2, []byte("v"))), entry(7, lenRec(1, []byte("kk")), nil),
		entry(8, nil, nil), lenRec(9, nil), lenRec(10, nil), lenRec(11, nil), lenRec(16, nil), lenRec(17, nil), entry(18, nil, nil), lenRec(14, []byte("z")))
	filler := cat(lenRec(2, str('A', 900)), lenRec(3, str('B', 901)), lenRec(14, str('C', 902)), lenRec(14, str('D', 1020)), lenRec(14, str('E', 300)), lenRec(15, str('F', 1024)), lenRec(14, str('G', 1025)), lenRec(4, str(3, 200)))
	deep := []byte(nil)
	for i := 0; i < 1010; i++ {
		deep = lenRec(3, cat(rec(1, WVarint, []byte{1}), deep))
	}
	cyc := &hyS{X: 1}
	cyc.Z = cyc
	v := "opt"
	i32 := int32(-5)
	fullMsg := &hyT{A: -1, B: "hello", C: []byte("c"), L: []int64{1, -2, 3}, M: map[string]*hyS{"k": {X: 1, Y: "y"}}, N: map[int32]hyS{7: {V: &v}},
		O: map[string]string{"a": strings.Repeat("x", 200)}, P: map[uint64][]byte{9: []byte("b")}, Q: []*hyS{{X: 3}, {Z: &hyS{Z: &hyS{X: 9}}}}, R: []hyS{{W: []uint32{1, 300}}},
		S: &hyS{unknownFields: []byte{0xf8, 1, 1}}, T: &i32, F: []float64{1.5}, D: [][]byte{nil, []byte("d")}, U: &hyT_Us{}, I: map[int32]int64{3: 4}}
	bigMsg := &hyT{C: str('Q', 70000), Q: []*hyS{{Y: string(str('R', 20000))}}}
	partly := &hyT{A: 5, B: "before", M: map[string]*hyS{"k": cyc}, D: [][]byte{[]byte("after")}}
	freshOp := func(name string, bad bool) hyOp {
		return hyOp{name, func(h *hyState) string {
			pre := fmt.Sprintf("H%d_", h.seq)
			s := freshSchema(pre, bad)
			p := ToGo(s, &Val{F: map[int32]any{1: uint64(5), 3: []any{&Val{F: map[int32]any{2: "in"}}}}})
			b, err := marshal(p)
			n, err2 := size(p)
			q := NewGo(s)
			err3 := unmarshal(small, q)
			e := func(err error) bool { return err != nil }
			return fmt.Sprintf("%x %v %d %v %v %s", b, e(err), n, e(err2), e(err3), dumpOf(s, q))
		}}
	}
	var typedNil *hyT
	ops := []hyOp{
		decOp("decode-full", newT, full),
		decOp("decode-small", newT, small),
		decOp("decode-empty", newT, nil),
		decOp("decode-filler", newT, filler),
		decOp("fail-map-msg-value", newT, cat(lenRec(2, []byte("left")), entry(5, lenRec(1, []byte("bad")), lenRec(2, cat(sub(66, "left-over"), []byte{0x08}))))),
		decOp("fail-map-value-by-value", newT, cat(entry(6, rec(1, WVarint, []byte{9}), lenRec(2, cat(sub(67, "left-over"), lenRec(3, sub(1, "x")), lenRec(5, []byte("ptr")), []byte{0x1a, 0x7f}))))),
		decOp("fail-map-wire", newT, cat(entry(7, lenRec(1, []byte("kkk")), rec(2, WVarint, []byte{1})))),
		decOp("fail-map-key", newT, cat(entry(6, rec(1, WVarint, []byte{1}), lenRec(2, sub(1, "m"))), entry(6, lenRec(1, []byte("key")), lenRec(2, nil)))),
		decOp("fail-truncated", newT, full[:len(full)*2/3]),
		decOp("fail-truncated-late", newT, full[:len(full)-3]),
		decOp("fail-list-elem", newT, cat(lenRec(9, sub(1, "a")), lenRec(10, sub(2, "b")), lenRec(10, cat(sub(3, "c"), []byte{0x80})))),
		decOp("fail-packed", newT, lenRec(4, []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 0x80})),
		decOp("fail-fixed", newT, cat(rec(13, WF64, []byte{1, 2, 3, 4, 5, 6, 7, 8}), rec(13, WF64, []byte{9}))),
		decOp("fail-oneof", newT, cat(lenRec(15, []byte("first")), rec(16, WBytes, []byte{9, 1}))),
		decOp("fail-optional", newT, rec(12, WVarint, []byte{0x80})),
		decOp("fail-deep", newS, deep),
		decOp("fail-unknown", newT, cat(lenRec(900, []byte("ok")), []byte{0xa3, 0x38, 0x01})),
		encOp("encode-full", fullMsg),
		encOp("encode-big", bigMsg),
		encOp("fail-encode-cyclic", cyc),
		encOp("fail-encode-cyclic-in-map", partly),
		sizeOp("fail-size-cyclic", partly),
		sizeOp("size-full", fullMsg),
		encOp("fail-encode-unsupported", &hyBadUser{G: &hyGood{A: 1}}),
		decOp2("fail-decode-unsupported", func() any { return &hyBadLeaf{} }, small),
		encOp("encode-good-of-bad", &hyGood{A: 5, B: "x", C: &hyGood{B: "y"}}),
		decOp("decode-good-of-bad", func() any { return &hyGood{} }, cat(rec(1, WVarint, []byte{1}), lenRec(3, lenRec(2, []byte("in"))))),
		encOp("encode-nil", typedNil),
		{"fail-not-pointer", func(h *hyState) string {
			_, e := prutal.Marshal(hyT{})
			_, e2 := prutal.Size(5)
			e3 := prutal.Unmarshal(full, hyT{})
			e4 := prutal.Unmarshal(full, new(int))
			_, e5 := prutal.Marshal(nil)
			return fmt.Sprint(e, e2, e3, e4, e5)
		}},
		freshOp("fresh-good", false),
		freshOp("fresh-bad", true),
		{"append", func(h *hyState) string {
			buf := append(make([]byte, 0, 200), "prefix"...)
			b, err := prutal.MarshalAppend(buf, fullMsg)
			return fmt.Sprintf("%x %v", sumBytes(b), err)
		}},
		{"collect", func(h *hyState) string { runtime.GC(); return "" }},
	}
	return ops
}

// decOp2 is decOp for a type without a model schema.
func decOp2(name string, mk func() any, b []byte) hyOp {
	return hyOp{name, func(h *hyState) string {
		m := mk()
		err := prutal.Unmarshal(b, m)
		return fmt.Sprintf("%v %+v", err, reflect.ValueOf(m).Elem().Interface())
	}}
}

// freshSchema makes a Go type never used before: a message with a list of
// sub-messages and a map, the bad one with a field of an unsupported type.
func freshSchema(prefix string, bad bool) *Schema {
	in := BuildNamed(prefix, UnkLower, &Field{Num: 2, Kind: String, Card: Implicit})
	fs := []*Field{{Num: 1, Kind: Int32, Card: Implicit}, {Num: 3, Kind: Message, Card: Repeated, Msg: in}, {Num: 4, Kind: Message, Card: Map, Key: String, Msg: in}}
	s := BuildNamed(prefix, UnkXXX, fs...)
	if !bad {
		return s
	}
	var sf []reflect.StructField
	for i := 0; i < s.Go.NumField(); i++ {
		sf = append(sf, s.Go.Field(i))
	}
	sf = append(sf, reflect.StructField{Name: prefix + "Bad", Type: reflect.TypeOf(""), Tag: `protobuf:"varint,9,opt,name=bad"`})
	t := *s
	t.Go = reflect.StructOf(sf)
	return &t
}

// hyExpected holds each operation's result when run alone.
type hyExpected struct {
	res []string
	ops []hyOp
}

func resetPools() { runtime.GC(); runtime.GC() }

func newHyExpected() *hyExpected {
	e := &hyExpected{ops: historyOps()}
	for i, op := range e.ops {
		resetPools()
		h := &hyState{seq: int64(1000000000 + i)}
		e.res = append(e.res, op.run(h))
	}
	return e
}

func historySpace(name string, k int, pick []string) *core.Space {
	var exp *hyExpected
	all := historyOps()
	var idx []int
	for i, o := range all {
		if pick == nil {
			idx = append(idx, i)
		}
		for _, p := range pick {
			if p == o.name {
				idx = append(idx, i)
			}
		}
	}
	if pick != nil && len(idx) != len(pick) {
		panic("unknown op name")
	}
	n := int64(1)
	for i := 0; i < k; i++ {
		n *= int64(len(idx))
	}
	names := func(i int64) []int {
		o := make([]int, k)
		for j := range o {
			o[j] = idx[i%int64(len(idx))]
			i /= int64(len(idx))
		}
		return o
	}
	return &core.Space{Name: name, N: n, Block: 64, Run: func(i int64, c *core.Ctx) {
		if exp == nil {
			exp = newHyExpected()
		}
		resetPools()
		h := &hyState{}
		hs := names(i)
		for j, o := range hs {
			h.seq = i*8 + int64(j)
			got := exp.ops[o].run(h)
			c.Trans(1)
			if got != exp.res[o] {
				var tr []string
				for _, x := range hs[:j+1] {
					tr = append(tr, exp.ops[x].name)
				}
				c.Fail("history:"+exp.ops[o].name, "after %s the last call returned\n %s\nalone it returns\n %s", strings.Join(tr, ", "), clipS(got, 700), clipS(exp.res[o], 700))
				return
			}
			c.StateStr(got)
		}
		for _, kp := range h.keep {
			d := string(kp.out)
			if kp.s != nil {
				d = dumpOf(kp.s, kp.p)
			}
			if d != kp.dump {
				c.Fail("changed-later:"+kp.name, "the result of %s changed during the history: %s, was %s", kp.name, clipS(d, 500), clipS(kp.dump, 500))
			}
		}
		c.Trace(1)
	}, Describe: func(i int64) string {
		var o []string
		for _, x := range names(i) {
			o = append(o, all[x].name)
		}
		return strings.Join(o, ", ")
	}}
}

// modelOps: the isolated results of the decode operations are the model's.
func historyBase() *core.Space {
	ops := historyOps()
	return &core.Space{Name: "alone", N: int64(len(ops)), Block: 1, Run: func(i int64, c *core.Ctx) {
		resetPools()
		h := &hyState{seq: 2000000000 + i}
		a := ops[i].run(h)
		wantErr := strings.HasPrefix(ops[i].name, "fail-")
		if strings.HasPrefix(ops[i].name, "decode-") && !strings.HasPrefix(a, "<nil>") || wantErr && (strings.HasPrefix(a, "<nil>") || strings.HasSuffix(a, "<nil>")) {
			c.Fail("alone:"+ops[i].name, "%s returns %s", ops[i].name, clipS(a, 500))
		}
		for r := 0; r < 3; r++ {
			h.seq += 1000
			if b := ops[i].run(h); a != b {
				c.Fail("alone:"+ops[i].name, "%s returns %s, then %s", ops[i].name, clipS(a, 500), clipS(b, 500))
			}
		}
		c.Trans(4)
		c.StateStr(a)
		c.Trace(1)
	}, Describe: func(i int64) string { return ops[i].name }}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// manyTypes: thousands of types are used; every one keeps giving its own
// result (the descriptor cache is a fixed-size hash table).
func manyTypes(n int) *core.Space {
	return &core.Space{Name: "many-types", N: 1, Serial: true, HangSecs: 400, Run: func(_ int64, c *core.Ctx) {
		type ent struct {
			s *Schema
			p reflect.Value
			b []byte
		}
		es := make([]ent, n)
		kinds := []Kind{Int32, String, Sint64, Fixed32, Bool, Double, Bytes, Uint64}
		for i := range es {
			s := BuildNamed(fmt.Sprintf("MT%d_", i), UnkMode(i%5), &Field{Num: int32(i%3000 + 1), Kind: kinds[i%8], Card: Card(i / 8 % 3)})
			f := s.Fields[0]
			vs := FieldVals(f, L0, 1)
			es[i] = ent{s: s}
			v := valOf(f.Num, vs[len(vs)-1])
			es[i].p = ToGo(s, v)
			es[i].b = Encode(s, v)
		}
		for pass := 0; pass < 3; pass++ {
			for j := range es {
				e := &es[j]
				if pass == 1 {
					e = &es[n-1-j]
				}
				b, err := marshal(e.p)
				if err != nil || string(b) != string(e.b) {
					c.Fail("many-types", "type %d of %d, pass %d: Marshal gives %s (%v), expected %s", j, n, pass, hex(b), err, hex(e.b))
					return
				}
				v, err := decodeNew(e.s, e.b)
				if err != nil {
					c.Fail("many-types", "type %d of %d, pass %d: Unmarshal: %v", j, n, pass, err)
					return
				}
				if d := Diff(e.s, v, Norm(e.s, FromGoValue(e.s, e.p))); d != "" {
					c.Fail("many-types", "type %d of %d, pass %d: %s", j, n, pass, d)
					return
				}
				c.Trans(2)
			}
		}
		c.Trace(n)
	}}
}

func init() {
	reg(&core.Prop{ID: "C13", Level: "model_checking", Env: []string{"GOMAXPROCS=1"}, Rule: "Every sequence of up to three (thorough: four) calls from an alphabet of 33 succeeding and failing Marshal, MarshalAppend, Size and Unmarshal calls, starting from empty object pools; each call's complete result (error text, bytes, decoded contents also after an error) must be what it is when the call is made alone, and results must not change later. Thousands of types are used in three passes to fill the descriptor cache. Every history is non-trivial.",
		Bounds: "histories of 3 (4) calls over the whole alphabet, 4 (5) over its pool-sensitive part; 6000 (40000) types",
		Assume: []string{"pooled objects are recycled in last-in-first-out order by a single thread (interleavings are C11)"},
		Spaces: func(tier string) []*core.Space {
			core1 := []string{"decode-full", "decode-small", "decode-filler", "fail-map-msg-value", "fail-map-value-by-value", "fail-list-elem", "fail-truncated", "fail-optional", "encode-full", "fail-encode-cyclic-in-map"}
			out := []*core.Space{historyBase()}
			if tier == "thorough" {
				out = append(out, historySpace("calls-2", 2, nil), historySpace("calls-3", 3, nil), historySpace("calls-4", 4, nil), historySpace("pools-5", 5, core1), manyTypes(40000))
			} else {
				out = append(out, historySpace("calls-2", 2, nil), historySpace("calls-3", 3, nil), historySpace("pools-4", 4, core1), manyTypes(6000))
			}
			return out
		}})
}
