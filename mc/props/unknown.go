package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"

	"verif/mc/core"
	. "verif/mc/pb"
)

// hand-written types for unknown fields below oneofs (reflect cannot build oneofs)

type ukIn struct {
	A             int32  `protobuf:"varint,1,opt,name=a"`
	B             string `protobuf:"bytes,2,opt,name=b"`
	unknownFields []byte
}
type ukIn2 struct {
	A                int32   `protobuf:"varint,1,opt,name=a"`
	B                *string `protobuf:"bytes,2,opt,name=b"`
	XXX_unrecognized *[]byte
}
type ukIn3 struct {
	A int32  `protobuf:"varint,1,opt,name=a"`
	B string `protobuf:"bytes,2,opt,name=b"`
}
type ukOne struct {
	O             isUkOne_O `protobuf_oneof:"o"`
	C             int32     `protobuf:"varint,7,opt,name=c"`
	unknownFields *[]byte
}
type isUkOne_O interface{ isUkOne_O() }
type ukOne_P struct {
	P *ukIn `protobuf:"bytes,5,opt,name=p"`
}
type ukOne_V struct {
	V ukIn2 `protobuf:"bytes,6,opt,name=v"`
}
type ukOne_N struct {
	N *ukIn3 `protobuf:"bytes,8,opt,name=n"`
}
type ukOne_S struct {
	S string `protobuf:"bytes,9,opt,name=s"`
}

func (*ukOne_P) isUkOne_O() {}
func (*ukOne_V) isUkOne_O() {}
func (*ukOne_N) isUkOne_O() {}
func (*ukOne_S) isUkOne_O() {}

var ukOneWrappers = []any{(*ukOne_P)(nil), (*ukOne_V)(nil), (*ukOne_N)(nil), (*ukOne_S)(nil)}

func (*ukOne) XXX_OneofWrappers() []interface{} { return ukOneWrappers }

// container is one way to hold an inner message; wrap puts an inner encoding into the outer message.
type container struct {
	s    *Schema
	wrap func([]byte) []byte
}

func innerSchema(u UnkMode) *Schema {
	s := Build(u, &Field{Num: 1, Kind: Int32, Card: Implicit}, &Field{Num: 2, Kind: String, Card: Implicit})
	s.Name = s.String()
	return s
}

func containers() []container {
	var out []container
	for mi := UnkNone; mi <= UnkXXXPtr; mi++ {
		in := innerSchema(mi)
		out = append(out, container{in, func(b []byte) []byte { return b }})
		fs := []*Field{
			{Num: 5, Kind: Message, Card: Explicit, Msg: in},
			{Num: 5, Kind: Message, Card: Implicit, Msg: in, NoPtr: true},
			{Num: 5, Kind: Message, Card: Repeated, Msg: in},
			{Num: 5, Kind: Message, Card: Repeated, Msg: in, NoPtr: true},
			{Num: 5, Kind: Message, Card: Map, Key: Uint64, Msg: in},
			{Num: 5, Kind: Message, Card: Map, Key: Sint32, Msg: in},
			{Num: 5, Kind: Message, Card: Map, Key: String, Msg: in},
			{Num: 5, Kind: Message, Card: Map, Key: Bool, Msg: in},
			{Num: 5, Kind: Message, Card: Map, Key: Fixed32, Msg: in, NoPtr: true},
		}
		for i, f := range fs {
			mo := UnkMode((int(mi) + i) % 5)
			s := Build(mo, f, &Field{Num: 7, Kind: Int32, Card: Implicit})
			s.Name = s.String()
			wrap := recWrap(5)
			if f.Card == Map {
				wrap = entryWrap(5, rec(1, f.Key.Wire(), scalarBodies(f.Key, L0)[1]))
			}
			out = append(out, container{s, wrap})
		}
		// two levels down
		mid := Build(UnkMode((mi+2)%5), &Field{Num: 3, Kind: Message, Card: Repeated, Msg: in, NoPtr: mi%2 == 0})
		mid.Name = mid.String()
		s := Build(UnkMode((mi+1)%5), &Field{Num: 5, Kind: Message, Card: Explicit, Msg: mid}, &Field{Num: 7, Kind: Int32, Card: Implicit})
		s.Name = s.String()
		out = append(out, container{s, func(b []byte) []byte { return lenRec(5, lenRec(3, b)) }})
	}
	memo := map[reflect.Type]*Schema{}
	t := reflect.TypeOf(ukOne{})
	Wrappers[t] = ukOneWrappers
	s := FromGo(t, ukOneWrappers, memo)
	s.Name = "ukOne"
	for _, n := range []int32{5, 6, 8} {
		out = append(out, container{s, recWrap(n)})
	}
	return out
}

// innerAlpha: records for the inner message, unknown ones of every wire type.
func innerAlpha(long bool) [][]byte {
	a := [][]byte{
		rec(1, WVarint, []byte{9}),
		lenRec(2, []byte("hey")),
		rec(30, WVarint, []byte{0x96, 0x01}),
		lenRec(31, []byte("xyz")),
		rec(30, WSGroup, cat(rec(1, WVarint, []byte{7}), rec(2, WSGroup, AppendTag(nil, 2, WEGroup)), lenRec(30, []byte("q")), AppendTag(nil, 30, WEGroup))),
		rec(MaxFieldNum, WF32, []byte{1, 2, 3, 4}),
	}
	if long {
		a = append(a, rec(3, WF64, []byte{1, 2, 3, 4, 5, 6, 7, 8}), cat(tagPad(1000, WVarint, 5), AppendVarintPad(nil, 0, 10)), lenRec(4, nil), cat(tagPad(1001, WBytes, 3), AppendVarintPad(nil, 2, 4), []byte("zz")))
	}
	return a
}

// forms place one inner body into the outer message, with other records around it.
const nforms = 6

func formOf(k int, ct container, recs [][]byte) []byte {
	body := cat(recs...)
	u1 := rec(40, WVarint, []byte{1})
	u2 := lenRec(41, []byte("outer"))
	kn := rec(7, WVarint, []byte{3})
	switch k {
	case 0:
		return ct.wrap(body)
	case 1:
		return cat(u1, ct.wrap(body), u2)
	case 2: // split into two records, which merge, add an element, or replace the entry
		h := (len(recs) + 1) / 2
		return cat(ct.wrap(cat(recs[:h]...)), kn, u1, ct.wrap(cat(recs[h:]...)))
	case 3:
		return cat(ct.wrap(body), u2, ct.wrap(body))
	case 4: // interleaved one record at a time
		var b []byte
		for _, r := range recs {
			b = cat(b, ct.wrap(r), u2)
		}
		return b
	}
	return cat(u2, kn, u1, ct.wrap(nil), ct.wrap(body), kn)
}

// checkUnknown: decoding keeps the unknown records of every level; encoding writes them back.
func checkUnknown(c *core.Ctx, s *Schema, b []byte) {
	want, err := modelDecode(s, b)
	if err != nil {
		c.Count("not-well-formed", 1)
		return
	}
	p := NewGo(s)
	in := append([]byte{}, b...)
	if err := unmarshal(in, p); err != nil {
		c.Fail("rejects", "Unmarshal rejects %s: %v", hex(b), err)
		return
	}
	for i := range in {
		in[i] = 0xff // the stored bytes must be copies
	}
	got := Norm(s, FromGoValue(s, p))
	if d := Diff(s, want, got); d != "" {
		c.Fail("decode", "input %s: %s\n want %s\n got  %s", hex(b), d, want, got)
		return
	}
	out, err := marshal(p)
	c.Trans(2)
	if err != nil {
		c.Fail("marshal", "Marshal: %v", err)
		return
	}
	n, err := size(p)
	if err != nil || n != len(out) {
		c.Fail("size", "Size %d (%v), Marshal %d bytes", n, err, len(out))
	}
	x, err := Canon(s, out)
	y, err2 := Canon(s, Encode(s, want))
	if err2 != nil {
		panic(err2)
	}
	if err == nil && !bytes.Equal(x, y) {
		// what is decided here is the unknown records, not the known finding of C02
		y, _ = Canon(s, Encode(s, dropEmptyBytes(s, want)))
	}
	if err != nil || !bytes.Equal(x, y) {
		c.Fail("encode", "input %s decoded and encoded again gives %s (%v), expected %s", hex(b), hex(out), err, hex(y))
	}
	runtime.KeepAlive(p)
	c.StateStr(s.Name + string(y))
	c.Trace(1)
}

func unknownSeqs(name string, k int, long bool) inputs {
	cs := containers()
	a := innerAlpha(long)
	per := int64(nforms)
	for i := 0; i < k; i++ {
		per *= int64(len(a))
	}
	return inputs{name: name, n: per * int64(len(cs)), block: 512, get: func(i int64) (*Schema, []byte) {
		ct, off := cs[i/per], i%per
		form := int(off % nforms)
		off /= nforms
		recs := make([][]byte, k)
		for j := range recs {
			recs[j] = a[off%int64(len(a))]
			off /= int64(len(a))
		}
		return ct.s, formOf(form, ct, recs)
	}}
}

// everyShape: unknown records around every kind of known field.
func unknownAround() inputs {
	all := shapeSchemas(allShapes(), goodNums...)
	for i, s := range all {
		if s.Unk == UnkNone {
			f := *s.Fields[0]
			all[i] = Build(UnkLower, &f)
			all[i].Name = all[i].String()
		}
	}
	al := make([][][]byte, len(all))
	p := newPrefix(len(all), func(i int) int64 {
		al[i] = fieldRecs(all[i].Fields[0], L0, 2)
		return int64(len(al[i])) * 7 * 7 * 3
	})
	return inputs{name: "around-every-shape", n: p.total(), block: 256, get: func(i int64) (*Schema, []byte) {
		g, off := p.find(i)
		s := all[g]
		u := unkRecs(s, L1)
		k := al[g][off%int64(len(al[g]))]
		off /= int64(len(al[g]))
		a, b, form := u[off%7], u[off/7%7], off/49
		switch form {
		case 0:
			return s, cat(a, k, b)
		case 1:
			return s, cat(k, a, k, b, k)
		}
		return s, cat(a, b, k)
	}}
}

// ---- schema evolution ----

// evoFull has one field of each kind of code path; older versions lack some of them.
func evoFields(in *Schema) []*Field {
	return []*Field{
		{Num: 1, Kind: Int32, Card: Implicit},
		{Num: 2, Kind: String, Card: Explicit},
		{Num: 3, Kind: Message, Card: Explicit, Msg: in},
		{Num: 4, Kind: Message, Card: Repeated, Msg: in},
		{Num: 5, Kind: Sint64, Card: Packed},
		{Num: 1001, Kind: Message, Card: Map, Key: String, Msg: in},
		{Num: 1002, Kind: Bytes, Card: Repeated},
		{Num: MaxFieldNum, Kind: Fixed64, Card: Map, Key: Int32},
	}
}

func evoSchema(mask int, u UnkMode, in *Schema) *Schema {
	var fs []*Field
	for i, f := range evoFields(in) {
		if mask>>i&1 == 1 {
			fs = append(fs, f)
		}
	}
	s := Build(u, fs...)
	s.Name = fmt.Sprintf("v%02x", mask)
	return s
}

func evoInner(mask int, u UnkMode) *Schema {
	fs := []*Field{{Num: 1, Kind: Int64, Card: Implicit}, {Num: 2, Kind: Bytes, Card: Implicit}, {Num: 3, Kind: Fixed32, Card: Repeated}}
	var out []*Field
	for i, f := range fs {
		if mask>>i&1 == 1 {
			out = append(out, f)
		}
	}
	s := Build(u, out...)
	s.Name = fmt.Sprintf("in%d", mask)
	return s
}

func evoVals(s, in *Schema) []*Val {
	mk := func(n uint64, b string, l ...any) *Val {
		v := NewVal()
		if n != 0 {
			v.F[1] = n
		}
		if b != "" {
			v.F[2] = b
		}
		if len(l) > 0 {
			v.F[3] = l
		}
		return v
	}
	m0, m1, m2 := mk(0, ""), mk(5, "x", uint64(7)), mk(1<<63, "long long", uint64(1), uint64(0))
	full := &Val{F: map[int32]any{1: uint64(77), 2: "str", 3: m2, 4: []any{m1, m0, m2}, 5: []any{uint64(3), ^uint64(0)},
		1001: map[any]any{"a": m1, "": m2}, 1002: []any{"", "bb"}, MaxFieldNum: map[any]any{uint64(0): uint64(9), ^uint64(0): uint64(1)}}}
	some := &Val{F: map[int32]any{2: "", 3: m0, 4: []any{m2}, 1001: map[any]any{"k": m0}}}
	unk := Clone(full)
	unk.Unk = rec(500, WSGroup, AppendTag(nil, 500, WEGroup))
	return []*Val{full, some, unk, {F: map[int32]any{3: m1}}}
}

// evolution: a message written by the full version passes through older
// versions (any subsets of root and inner fields), the known part optionally
// edited, and is read by the full version again.
func evolution(thorough bool) *core.Space {
	fullIn := evoInner(7, UnkLower)
	full := evoSchema(255, UnkXXX, fullIn)
	vals := evoVals(full, fullIn)
	var ms memo[*Schema]
	older := func(mask, im, um int) *Schema {
		return ms.get(int64(mask)<<16|int64(im)<<8|int64(um), func() *Schema {
			return evoSchema(mask, UnkMode(1+um%4), evoInner(im, UnkMode(1+(um/2)%4)))
		})
	}
	second := []int{0, 255, 0x55, 0xaa, 0x0f}
	if thorough {
		second = nil
		for i := 0; i < 256; i += 3 {
			second = append(second, i)
		}
	}
	n := 256 * 8 * len(second) * len(vals)
	return &core.Space{Name: "schema-versions", N: int64(n), Block: 256, Run: func(i int64, c *core.Ctx) {
		k := int(i)
		v := vals[k%len(vals)]
		k /= len(vals)
		m2 := second[k%len(second)]
		k /= len(second)
		im := k % 8
		m1 := k / 8
		b := Encode(full, v)
		hops := []*Schema{older(m1, im, m1%4), older(m2, 7-im, m2%4)}
		for _, s := range hops {
			p := NewGo(s)
			if err := unmarshal(b, p); err != nil {
				c.Fail("rejects", "version %s rejects %s: %v", s.Name, hex(b), err)
				return
			}
			var err error
			b, err = marshal(p)
			if err != nil {
				c.Fail("marshal", "version %s: %v", s.Name, err)
				return
			}
			c.Trans(2)
		}
		q := NewGo(full)
		if err := unmarshal(b, q); err != nil {
			c.Fail("rejects", "full version rejects %s: %v", hex(b), err)
			return
		}
		c.Trans(1)
		c.Trace(1)
		got := FromGoValue(full, q)
		if d := Diff(full, Norm(full, v), Norm(full, got)); d != "" {
			c.Fail("lost", "after passing through versions %02x(inner %d) and %02x(inner %d): %s", m1, im, m2, 7-im, d)
		}
		c.StateBytes(b)
	}, Describe: func(i int64) string {
		return vals[int(i)%len(vals)].String()
	}}
}

func init() {
	reg(&core.Prop{ID: "C07", Level: "model_checking", Rule: "Every sequence of up to 4 (thorough: 5) known and unknown records of every wire type is placed in a message at every kind of nesting level in six arrangements, for every storage form at both levels; unknown records surround every kind of known field; a message passes through every pair of older schema versions. Decoding is compared with the model, the re-encoding byte for byte with the reference encoding, and the input is overwritten in between. A case is non-trivial when an unknown record is present.",
		Bounds: "record sequences up to 4 (5); 58 containers; 256 x 5 (86) pairs of older root versions x 8 inner versions",
		Assume: []string{"three nesting levels behave like two"},
		Spaces: func(tier string) []*core.Space {
			var out []*core.Space
			add := func(in inputs) { out = append(out, in.space(checkUnknown)) }
			add(unknownSeqs("records-1", 1, true))
			add(unknownSeqs("records-2", 2, true))
			add(unknownSeqs("records-3", 3, true))
			add(unknownSeqs("records-4", 4, tier == "thorough"))
			if tier == "thorough" {
				add(unknownSeqs("records-5", 5, false))
			}
			add(unknownAround())
			out = append(out, evolution(tier == "thorough"))
			return out
		}})
}
