package props

import (
	. "verif/mc/pb"
)

// Record alphabets: every way a field can appear on the wire.

func tagPad(num int32, w, n int) []byte {
	t := uint64(num)<<3 | uint64(w)
	m := len(AppendVarint(nil, t))
	if n < m {
		n = m
	}
	return AppendVarintPad(nil, t, n)
}

func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

func rec(num int32, w int, body []byte) []byte { return cat(AppendTag(nil, num, w), body) }
func lenRec(num int32, p []byte) []byte        { return AppendLen(AppendTag(nil, num, WBytes), p) }

var varintPayloads = []uint64{0, 1, 2, 3, 127, 128, 129, 255, 256, 300, 16383, 16384, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<49 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<62 + 1, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2, 0xffffffff80000000, 0x100000000}

// scalarBodies enumerates payload spellings of a kind; the first few are the most telling.
func scalarBodies(k Kind, l Level) [][]byte {
	var out [][]byte
	switch k.Wire() {
	case WVarint:
		if l == L0 {
			return [][]byte{{0}, {2}, AppendVarint(nil, 1<<33+5), AppendVarintPad(nil, 1, 3)}
		}
		vs := varintPayloads
		if l == L1 {
			vs = []uint64{0, 1, 2, 300, 1<<32 + 1, 1<<33 + 5, 1<<64 - 1}
		}
		for _, v := range vs {
			out = append(out, AppendVarint(nil, v))
		}
		for n := 2; n <= 10; n++ {
			if l == L1 && n != 2 && n != 5 && n != 10 {
				continue
			}
			out = append(out, AppendVarintPad(nil, 0, n), AppendVarintPad(nil, 1, n), AppendVarintPad(nil, 2, n))
		}
	case WF32:
		for _, v := range []uint32{0, 1, 0x80000000, 0x01020304, 0xffffffff, 0x7fc00001} {
			out = append(out, []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
		}
		if l == L0 {
			out = [][]byte{out[0], out[3]}
		}
	case WF64:
		for _, v := range []uint64{0, 1, 1 << 63, 0x0102030405060708, 1<<64 - 1, 0x7ff8000000000001, 1 << 32} {
			var b []byte
			for i := 0; i < 8; i++ {
				b = append(b, byte(v>>(8*i)))
			}
			out = append(out, b)
		}
		if l == L0 {
			out = [][]byte{out[0], out[3]}
		}
	case WBytes:
		out = append(out, []byte{0}, []byte("\x01a"), []byte("\x03\x00\xff\x80"), AppendVarintPad(nil, 0, 2), cat(AppendVarintPad(nil, 2, 3), []byte("xy")), cat(AppendVarintPad(nil, 1, 10), []byte("z")))
		if l == L0 {
			out = out[:3]
		} else {
			big := make([]byte, 130)
			out = append(out, AppendLen(nil, big))
		}
	}
	return out
}

// msgBodies enumerates payloads of a message (without length).
func msgBodies(s *Schema, l Level, depth int) [][]byte {
	out := [][]byte{nil}
	unk := unkRecs(s, l)
	if depth <= 0 {
		return append(out, unk[0])
	}
	var firsts [][]byte
	for _, f := range s.Fields {
		rs := fieldRecs(f, L0, depth-1)
		if l == L0 && len(rs) > 2 {
			rs = rs[:2]
		}
		out = append(out, rs...)
		firsts = append(firsts, rs[len(rs)-1])
	}
	out = append(out, unk[0])
	if len(firsts) > 1 {
		out = append(out, cat(firsts...), cat(cat(firsts[1:]...), unk[0], firsts[0]))
	}
	if l == L0 && len(out) > 4 {
		out = append(out[:2:2], out[len(out)-2:]...)
	}
	return out
}

// unkRecs are records with numbers s does not declare.
func unkRecs(s *Schema, l Level) [][]byte {
	n := int32(100)
	for s.Field(n) != nil || s.Field(n+1) != nil {
		n += 2
	}
	hi := int32(MaxFieldNum)
	for s.Field(hi) != nil {
		hi--
	}
	out := [][]byte{
		rec(n, WVarint, []byte{0x96, 0x01}),
		rec(n+1, WBytes, []byte("\x03abc")),
		rec(n, WSGroup, cat(rec(1, WVarint, []byte{7}), rec(2, WSGroup, AppendTag(nil, 2, WEGroup)), lenRec(3, []byte("q")), AppendTag(nil, n, WEGroup))),
		rec(hi, WF32, []byte{1, 2, 3, 4}),
		rec(n+1, WF64, []byte{1, 2, 3, 4, 5, 6, 7, 8}),
		cat(tagPad(n, WVarint, 4), AppendVarintPad(nil, 0, 4)),
		lenRec(n, nil),
	}
	if l == L0 {
		return out[:3]
	}
	return out
}

func varintLike(bs [][]byte, n int) [][]byte {
	if len(bs) > n {
		return bs[:n]
	}
	return bs
}

// fieldRecs enumerates well-formed records of one field.
func fieldRecs(f *Field, l Level, depth int) [][]byte {
	var out [][]byte
	if f.Card == Map {
		for _, e := range entryBodies(f, l, depth) {
			out = append(out, lenRec(f.Num, e))
		}
		if l > L0 {
			e := entryBodies(f, L0, depth)[0]
			out = append(out, cat(tagPad(f.Num, WBytes, 5), AppendVarintPad(nil, uint64(len(e)), 4), e))
		}
		return out
	}
	if f.Kind == Message {
		for _, p := range msgBodies(f.Msg, l, depth) {
			out = append(out, lenRec(f.Num, p))
		}
		if l > L0 {
			p := msgBodies(f.Msg, L0, depth)[1]
			out = append(out, cat(tagPad(f.Num, WBytes, 3), AppendVarintPad(nil, uint64(len(p)), 3), p))
		}
		return out
	}
	bodies := scalarBodies(f.Kind, l)
	for _, b := range bodies {
		out = append(out, rec(f.Num, f.Kind.Wire(), b))
	}
	if l > L0 {
		for _, n := range []int{2, 5, 10} {
			out = append(out, cat(tagPad(f.Num, f.Kind.Wire(), n), bodies[1]))
		}
	}
	if (f.Card == Repeated || f.Card == Packed) && f.Kind.Packable() {
		pk := [][]byte{nil, bodies[1], cat(bodies[len(bodies)-1], bodies[0], bodies[1])}
		if l > L0 {
			pk = append(pk, cat(bodies...), cat(bodies[0], bodies[0]))
			for _, b := range bodies {
				pk = append(pk, b)
			}
			var many []byte
			for i := 0; i < 70; i++ {
				many = append(many, bodies[i%2]...)
			}
			pk = append(pk, many)
		}
		for _, p := range pk {
			out = append(out, lenRec(f.Num, p))
		}
		if l > L0 {
			out = append(out, cat(tagPad(f.Num, WBytes, 4), AppendVarintPad(nil, uint64(len(bodies[1])), 5), bodies[1]))
		}
	}
	return out
}

// entryRecs is the alphabet of records inside a map entry.
func entryRecs(f *Field, l Level, depth int) [][]byte {
	kb := scalarBodies(f.Key, L0)
	out := [][]byte{rec(1, f.Key.Wire(), kb[1]), rec(1, f.Key.Wire(), kb[len(kb)-1])}
	var vb [][]byte
	if f.Kind == Message {
		for _, p := range msgBodies(f.Msg, L0, depth) {
			vb = append(vb, AppendLen(nil, p))
		}
	} else {
		vb = scalarBodies(f.Kind, L0)
	}
	out = append(out, rec(2, f.Kind.Wire(), vb[1]), rec(2, f.Kind.Wire(), vb[len(vb)-1]))
	out = append(out, rec(3, WVarint, []byte{5}))
	if l > L0 {
		out = append(out, lenRec(15, []byte("ab")), cat(tagPad(1, f.Key.Wire(), 2), kb[0]), cat(tagPad(2, f.Kind.Wire(), 3), vb[0]),
			rec(4, WSGroup, cat(rec(1, WVarint, []byte{1}), AppendTag(nil, 4, WEGroup))))
	}
	return out
}

// entryBodies enumerates map entry payloads.
func entryBodies(f *Field, l Level, depth int) [][]byte {
	rs := entryRecs(f, L0, depth)
	k0, k1, v0, v1, u := rs[0], rs[1], rs[2], rs[3], rs[4]
	out := [][]byte{cat(k0, v0), cat(k1, v1), nil, cat(v1, k0)}
	if l == L0 {
		return out
	}
	out = append(out, k0, v1, cat(k0, k1, v0), cat(k0, v0, v1), cat(k0, v1, k1), cat(u, k0, v0), cat(k0, u, v0), cat(k1, v0, u), u)
	// every key spelling with one value, one key with every value spelling
	for _, b := range scalarBodies(f.Key, L1) {
		out = append(out, cat(rec(1, f.Key.Wire(), b), v0))
	}
	if f.Kind == Message {
		for _, p := range msgBodies(f.Msg, L1, depth) {
			out = append(out, cat(k0, lenRec(2, p)))
		}
	} else {
		for _, b := range scalarBodies(f.Kind, L1) {
			out = append(out, cat(k0, rec(2, f.Kind.Wire(), b)))
		}
	}
	return out
}

// badRecs are records that make any input ill-formed for a schema with field f:
// wrong wire type for the field, reserved wire types, bad numbers, stray groups.
func badRecs(f *Field, l Level) [][]byte {
	var out [][]byte
	body := map[int][]byte{WVarint: {1}, WF64: {1, 2, 3, 4, 5, 6, 7, 8}, WBytes: {1, 'a'}, WF32: {1, 2, 3, 4}, WSGroup: AppendTag(nil, f.Num, WEGroup)}
	for _, w := range []int{WVarint, WF64, WBytes, WF32, WSGroup} {
		ok := w == f.Kind.Wire() && f.Card != Map
		if w == WBytes && (f.Card == Map || ((f.Card == Repeated || f.Card == Packed) && f.Kind.Packable())) {
			continue
		}
		if !ok {
			out = append(out, rec(f.Num, w, body[w]))
		}
	}
	out = append(out, rec(f.Num, 6, nil), rec(f.Num, 7, []byte{0}), rec(f.Num, WEGroup, nil),
		[]byte{0}, []byte{2, 0}, AppendVarint(nil, uint64(1<<29)<<3), cat(AppendVarint(nil, uint64(1<<29)<<3|2), []byte{0}), AppendVarint(nil, 1<<63), cat(AppendVarint(nil, 1<<34|5), []byte{1, 2, 3, 4}),
		rec(2000, 6, []byte{0}), rec(2000, 7, []byte{0}), rec(2000, WEGroup, nil), rec(2000, WSGroup, nil), rec(2000, WSGroup, AppendTag(nil, 2001, WEGroup)),
		[]byte{0x80}, []byte{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x02}, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	)
	if l == L0 {
		return out
	}
	// bad values of the right wire type
	switch {
	case f.Card == Map || f.Kind.Wire() == WBytes:
		out = append(out, rec(f.Num, WBytes, []byte{5, 'a'}), rec(f.Num, WBytes, AppendVarint(nil, 1<<31)), rec(f.Num, WBytes, AppendVarint(nil, 1<<63)), rec(f.Num, WBytes, AppendVarint(nil, 1<<64-1)),
			rec(f.Num, WBytes, nil), rec(f.Num, WBytes, AppendVarint(nil, 1<<32)))
	case f.Kind.Wire() == WVarint:
		out = append(out, rec(f.Num, WVarint, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}), rec(f.Num, WVarint, nil), rec(f.Num, WVarint, []byte{0x80}),
			rec(f.Num, WVarint, AppendVarintPad(nil, 1, 11)))
	default:
		out = append(out, rec(f.Num, f.Kind.Wire(), []byte{1, 2, 3}))
	}
	if (f.Card == Repeated || f.Card == Packed) && f.Kind.Packable() {
		var ps [][]byte
		switch f.Kind.Wire() {
		case WVarint:
			ps = [][]byte{{0x80}, {1, 0x80}, {1, 0xff, 0xff}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x02}, cat([]byte{1}, AppendVarintPad(nil, 0, 11)), {0x80, 0x80, 0x80}}
		case WF32:
			ps = [][]byte{{1}, {1, 2}, {1, 2, 3}, {1, 2, 3, 4, 5}, {1, 2, 3, 4, 5, 6, 7}}
		case WF64:
			ps = [][]byte{{1}, {1, 2, 3, 4}, {1, 2, 3, 4, 5, 6, 7}, {1, 2, 3, 4, 5, 6, 7, 8, 9}, {1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4}}
		}
		for _, p := range ps {
			out = append(out, lenRec(f.Num, p))
		}
		out = append(out, rec(f.Num, WBytes, []byte{5, 1}), rec(f.Num, WBytes, AppendVarint(nil, 1<<63)), rec(f.Num, WBytes, AppendVarint(nil, 1<<40)))
	}
	if f.Card == Map {
		rs := entryRecs(f, L0, 1)
		k0, v0 := rs[0], rs[2]
		kb := &Field{Num: 1, Kind: f.Key, Card: Implicit}
		vb := &Field{Num: 2, Kind: f.Kind, Card: Implicit, Msg: f.Msg}
		for _, b := range badRecs(kb, L1) {
			out = append(out, lenRec(f.Num, b), lenRec(f.Num, cat(k0, b)), lenRec(f.Num, cat(b, v0)), lenRec(f.Num, cat(k0, v0, b)))
		}
		for _, b := range badRecs(vb, L1) {
			out = append(out, lenRec(f.Num, b), lenRec(f.Num, cat(k0, b)), lenRec(f.Num, cat(b, k0)), lenRec(f.Num, cat(k0, v0, b)))
		}
		for i := 1; i < len(k0)+len(v0); i++ {
			if i != len(k0) {
				out = append(out, lenRec(f.Num, cat(k0, v0)[:i]))
			}
		}
	}
	if f.Kind == Message && f.Card != Map {
		for _, g := range f.Msg.Fields {
			if g.Kind == Message {
				continue
			}
			for _, b := range badRecs(g, L0) {
				out = append(out, lenRec(f.Num, b))
			}
		}
	}
	return out
}
