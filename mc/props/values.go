package props

import (
	"fmt"
	"strings"

	"verif/mc/core"
	. "verif/mc/pb"
)

// source is an indexed finite family of (schema, value) pairs.
type source struct {
	name  string
	n     int64
	block int64
	get   func(i int64) (*Schema, *Val)
}

func (s source) space(run func(c *core.Ctx, sc *Schema, v *Val)) *core.Space {
	return &core.Space{Name: s.name, N: s.n, Block: s.block,
		Run:      func(i int64, c *core.Ctx) { sc, v := s.get(i); run(c, sc, v) },
		Describe: func(i int64) string { sc, v := s.get(i); return sc.String() + " = " + v.String() },
	}
}

func valOf(num int32, x any) *Val {
	v := NewVal()
	if x != nil {
		v.F[num] = x
	}
	return v
}

// numbers covers every tag-length boundary, the direct-table boundary and the
// extreme legal numbers.
var numbers = []int32{1, 2, 15, 16, 127, 128, 999, 1000, 1001, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, MaxFieldNum}

// srcSingle: one field of every shape, at several numbers, over its full alphabet.
func srcSingle(nums []int32, l Level) source {
	shapes := allShapes()
	vals := make([][]any, len(shapes))
	p := newPrefix(len(shapes), func(i int) int64 {
		vals[i] = FieldVals(shapes[i], l, 2)
		return int64(len(vals[i]) * len(nums))
	})
	var ms memo[*Schema]
	return source{name: fmt.Sprintf("single-n%d", len(nums)), n: p.total(), block: 256, get: func(i int64) (*Schema, *Val) {
		g, off := p.find(i)
		ni := int(off) / len(vals[g])
		vi := int(off) % len(vals[g])
		s := ms.get(int64(g*len(nums)+ni), func() *Schema { return Build(UnkNone, at(shapes[g], nums[ni])) })
		return s, valOf(nums[ni], vals[g][vi])
	}}
}

// srcNumbers: reduced shapes at every boundary number.
func srcNumbers() source {
	s := srcSome("numbers", numbers, L1)
	return s
}

func srcSome(name string, nums []int32, l Level) source {
	shapes := someShapes()
	vals := make([][]any, len(shapes))
	p := newPrefix(len(shapes), func(i int) int64 {
		vals[i] = FieldVals(shapes[i], l, 2)
		return int64(len(vals[i]) * len(nums))
	})
	var ms memo[*Schema]
	return source{name: name, n: p.total(), block: 256, get: func(i int64) (*Schema, *Val) {
		g, off := p.find(i)
		ni := int(off) / len(vals[g])
		vi := int(off) % len(vals[g])
		s := ms.get(int64(g*len(nums)+ni), func() *Schema { return Build(UnkXXX, at(shapes[g], nums[ni])) })
		return s, valOf(nums[ni], vals[g][vi])
	}}
}

// srcPairs: every ordered pair of representative shapes in one message, Go
// order equal to or reversed from number order, over small alphabets.
func srcPairs(l Level) source {
	shapes := someShapes()
	n := len(shapes)
	vals := make([][]any, n)
	for i, f := range shapes {
		vals[i] = FieldVals(f, l, 2)
		if l == L0 && len(vals[i]) > 4 {
			vals[i] = append(vals[i][:2:2], vals[i][len(vals[i])-2:]...)
		}
	}
	p := newPrefix(n*n, func(i int) int64 { return int64(len(vals[i/n]) * len(vals[i%n])) })
	var ms memo[*Schema]
	return source{name: fmt.Sprintf("pairs-L%d", l), n: p.total(), block: 512, get: func(i int64) (*Schema, *Val) {
		g, off := p.find(i)
		a, b := g/n, g%n
		// numbers vary with the pair so that gaps, the direct table and the hash map are all used together
		na, nb := int32(3), int32(4)
		switch (a + b) % 4 {
		case 1:
			na, nb = 9, 2
		case 2:
			na, nb = 7, 1500
		case 3:
			na, nb = 4000, 1001
		}
		s := ms.get(int64(g), func() *Schema {
			unk := UnkMode((a + 2*b) % 5)
			return Build(unk, at(shapes[a], na), at(shapes[b], nb))
		})
		va, vb := vals[a][int(off)/len(vals[b])], vals[b][int(off)%len(vals[b])]
		v := valOf(na, va)
		if vb != nil {
			v.F[nb] = vb
		}
		if s.Unk != UnkNone && off%3 == 1 {
			v.Unk = []byte{0xa0, 0x06, 0x01} // field 100, varint 1
		}
		return s, v
	}}
}

// srcLen: LEN payload sizes around every length-prefix boundary, in every container.
func srcLen(big bool) source {
	var sizes []int
	for i := 0; i <= 140; i++ {
		sizes = append(sizes, i)
	}
	for i := 16370; i <= 16394; i++ {
		sizes = append(sizes, i)
	}
	if big {
		for i := 2097140; i <= 2097160; i++ {
			sizes = append(sizes, i)
		}
	} else {
		sizes = append(sizes, 2097143, 2097144, 2097145, 2097146, 2097147, 2097148, 2097149, 2097150, 2097151, 2097152, 2097153)
	}
	inner := Build(UnkNone, &Field{Num: 1, Kind: Bytes, Card: Implicit})
	inner2 := Build(UnkNone, &Field{Num: 1, Kind: Message, Card: Explicit, Msg: inner}, &Field{Num: 2, Kind: Int32, Card: Implicit})
	innerU := Build(UnkLower, &Field{Num: 1, Kind: Int32, Card: Implicit})
	unkOf := func(n int) *Val {
		v := NewVal()
		if n >= 6 {
			p := AppendTag(nil, 9, WBytes)
			l := n - 5
			for len(p)+len(AppendVarint(nil, uint64(l)))+l > n {
				l--
			}
			p = AppendLen(p, make([]byte, l))
			v.Unk = p
		}
		return v
	}
	bs := func(n int) any { return strings.Repeat("z", n) }
	iv := func(n int) any {
		v := NewVal()
		if n > 0 {
			v.F[1] = bs(n)
		}
		return v
	}
	iv2 := func(n int) any {
		v := NewVal()
		v.F[1] = iv(n)
		v.F[2] = uint64(7)
		return v
	}
	type cont struct {
		f  *Field
		mk func(n int) any
	}
	list := func(n int, x any) any {
		l := make([]any, n)
		for i := range l {
			l[i] = x
		}
		if n == 0 {
			return nil
		}
		return l
	}
	conts := []cont{
		{&Field{Num: 1, Kind: Bytes, Card: Implicit}, bs},
		{&Field{Num: 1, Kind: String, Card: Explicit}, bs},
		{&Field{Num: 1, Kind: String, Card: Repeated}, func(n int) any { return []any{bs(n), "", bs(n / 2)} }},
		{&Field{Num: 1, Kind: Bytes, Card: Repeated}, func(n int) any { return []any{bs(n), bs(1)} }},
		{&Field{Num: 1, Kind: Message, Card: Explicit, Msg: inner}, iv},
		{&Field{Num: 1, Kind: Message, Card: Explicit, Msg: inner2}, iv2},
		{&Field{Num: 1, Kind: Message, Card: Explicit, Msg: innerU}, func(n int) any { return unkOf(n) }},
		{&Field{Num: 1, Kind: Message, Card: Implicit, NoPtr: true, Msg: inner}, iv},
		{&Field{Num: 1, Kind: Message, Card: Repeated, Msg: inner2}, func(n int) any { return []any{iv2(n), iv2(3)} }},
		{&Field{Num: 1, Kind: Message, Card: Repeated, NoPtr: true, Msg: inner}, func(n int) any { return []any{iv(n), iv(n)} }},
		{&Field{Num: 1, Kind: Bool, Card: Packed}, func(n int) any { return list(n, uint64(1)) }},
		{&Field{Num: 1, Kind: Uint32, Card: Packed}, func(n int) any { return list(n, uint64(5)) }},
		{&Field{Num: 1, Kind: Sint64, Card: Packed}, func(n int) any { return list(n, uint64(3)) }},
		{&Field{Num: 1, Kind: Int32, Card: Packed}, func(n int) any { return list(n/10, ^uint64(0)) }},
		{&Field{Num: 1, Kind: Int64, Card: Packed}, func(n int) any { return list(n, uint64(99)) }},
		{&Field{Num: 1, Kind: Sint32, Card: Packed}, func(n int) any { return list(n, uint64(1)) }},
		{&Field{Num: 1, Kind: Fixed32, Card: Packed}, func(n int) any { return list(n/4, uint64(9)) }},
		{&Field{Num: 1, Kind: Double, Card: Packed}, func(n int) any { return list(n/8, uint64(9)) }},
		{&Field{Num: 1, Kind: String, Key: Int32, Card: Map}, func(n int) any { return map[any]any{uint64(5): bs(n)} }},
		{&Field{Num: 1, Kind: Bytes, Key: String, Card: Map}, func(n int) any { return map[any]any{"k": bs(n)} }},
		{&Field{Num: 1, Kind: Bytes, Key: Fixed64, Card: Map}, func(n int) any { return map[any]any{uint64(8): bs(n)} }},
		{&Field{Num: 1, Kind: Int32, Key: String, Card: Map}, func(n int) any { return map[any]any{bs(n): uint64(1)} }},
		{&Field{Num: 1, Kind: String, Key: String, Card: Map}, func(n int) any { return map[any]any{bs(n / 2): bs(n - n/2)} }},
		{&Field{Num: 1, Kind: Message, Key: String, Card: Map, Msg: inner}, func(n int) any { return map[any]any{"k": iv(n)} }},
		{&Field{Num: 1, Kind: Message, Key: String, Card: Map, Msg: innerU}, func(n int) any { return map[any]any{bs(n): iv(0)} }},
		{&Field{Num: 1, Kind: Message, Key: Uint32, Card: Map, Msg: inner2}, func(n int) any { return map[any]any{uint64(1): iv2(n)} }},
		{&Field{Num: 1, Kind: Message, Key: Int64, Card: Map, Msg: inner2}, func(n int) any { return map[any]any{uint64(1): iv2(n)} }},
		{&Field{Num: 1, Kind: Message, Key: Bool, Card: Map, Msg: inner}, func(n int) any { return map[any]any{uint64(1): iv(n)} }},
		{&Field{Num: 1, Kind: Message, Key: Int32, Card: Map, NoPtr: true, Msg: inner}, func(n int) any { return map[any]any{uint64(1): iv(n)} }},
	}
	var ms memo[*Schema]
	tail := &Field{Num: 2, Kind: Int32, Card: Implicit}
	return source{name: "lenboundary", n: int64(len(conts) * len(sizes)), block: 1, get: func(i int64) (*Schema, *Val) {
		ci, si := int(i)%len(conts), int(i)/len(conts)
		s := ms.get(int64(ci), func() *Schema { return Build(UnkNone, conts[ci].f, tail) })
		v := valOf(1, conts[ci].mk(sizes[si]))
		v.F[2] = uint64(77)
		return s, v
	}}
}
