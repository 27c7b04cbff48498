package props

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"syscall"

	"verif/mc/core"
	. "verif/mc/pb"
)

// inputs is an indexed finite family of (schema, wire input) pairs.
type inputs struct {
	name  string
	n     int64
	block int64
	get   func(i int64) (*Schema, []byte)
}

func (s inputs) space(run func(c *core.Ctx, sc *Schema, b []byte)) *core.Space {
	return &core.Space{Name: s.name, N: s.n, Block: s.block,
		Run:      func(i int64, c *core.Ctx) { sc, b := s.get(i); run(c, sc, b) },
		Describe: func(i int64) string { sc, b := s.get(i); return hex(b) + " for " + sc.String() },
	}
}

// guard places inputs right before an inaccessible page, so that any read past
// the end of the input faults.
type guardT struct {
	once sync.Once
	mem  []byte
}

const guardSize = 1 << 16

func (g *guardT) put(b []byte) []byte {
	g.once.Do(func() {
		m, err := syscall.Mmap(-1, 0, guardSize+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(m[guardSize:], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		g.mem = m
	})
	if len(b) > guardSize {
		return b
	}
	p := g.mem[guardSize-len(b) : guardSize : guardSize]
	copy(p, b)
	return p
}

var guard guardT

func decKey(s *Schema, d string) string {
	if k := diffKey(d); k != "value" {
		return k
	}
	return keyShape(s, nil, nil)
}

// checkMeaning: a well-formed input decodes to the value the model gives it.
// If dc is set, the official library must agree with the model on it too.
func checkMeaning(dc *dynCache) func(c *core.Ctx, s *Schema, b []byte) {
	return func(c *core.Ctx, s *Schema, b []byte) {
		want, err := modelDecode(s, b)
		if err != nil {
			c.Count("not-well-formed", 1)
			return
		}
		got, err := decodeNew(s, b)
		c.Trans(1)
		if err != nil {
			c.Fail("rejects:"+keyShape(s, nil, nil), "Unmarshal rejects the well-formed input %s: %v", hex(b), err)
			return
		}
		if d := Diff(s, want, Norm(s, got)); d != "" {
			c.Fail("meaning:"+decKey(s, d), "input %s decodes wrongly: %s\n want %s\n got  %s", hex(b), d, want, Norm(s, got))
			return
		}
		c.StateStr(s.Name + want.String())
		if dc == nil {
			return
		}
		db, err := DynDecode(s, dc.get(s), b)
		if err != nil {
			panic(fmt.Sprintf("model accepts %s for %s, official library: %v", hex(b), s, err))
		}
		// the official library keeps unknown fields even where the Go type has no room for them
		ov := NewVal()
		if err := Decode(s, db, ov, modelOpt); err != nil {
			panic(fmt.Sprintf("model rejects the official re-encoding %s for %s: %v", hex(db), s, err))
		}
		if d := Diff(s, want, Norm(s, ov)); d != "" {
			panic(fmt.Sprintf("model and official library disagree on %s for %s: %s", hex(b), s, d))
		}
		c.Trace(1)
	}
}

// checkReject: an ill-formed input is refused; nothing panics or reads past the input.
func checkReject(c *core.Ctx, s *Schema, b []byte) {
	_, merr := modelDecode(s, b)
	in := guard.put(b)
	p := NewGo(s)
	err := unmarshal(in, p)
	c.Trans(1)
	if merr == nil {
		c.Count("well-formed", 1)
	} else if err == nil {
		v := FromGoValue(s, p)
		c.Fail("accepts:"+merr.Error()+":"+keyShape(s, nil, nil), "Unmarshal accepts %s (%v) as %s", hex(b), merr, v)
	} else {
		c.StateStr(s.Name + err.Error())
		c.Trace(1)
	}
	if !bytes.Equal(in, b) {
		c.Fail("input-modified", "Unmarshal modified its input %s", hex(b))
	}
	runtime.KeepAlive(p)
}

// seqs: every sequence of exactly k records from a per-schema alphabet.
func seqs(name string, schemas []*Schema, k int, alpha func(s *Schema) [][]byte) inputs {
	al := make([][][]byte, len(schemas))
	p := newPrefix(len(schemas), func(i int) int64 {
		al[i] = alpha(schemas[i])
		n := int64(1)
		for j := 0; j < k; j++ {
			n *= int64(len(al[i]))
		}
		return n
	})
	return inputs{name: name, n: p.total(), block: 256, get: func(i int64) (*Schema, []byte) {
		g, off := p.find(i)
		a := al[g]
		var b []byte
		for j := 0; j < k; j++ {
			b = append(b, a[off%int64(len(a))]...)
			off /= int64(len(a))
		}
		return schemas[g], b
	}}
}

// list is an explicit input list.
func listInputs(name string, s []*Schema, bs func(s *Schema) [][]byte) inputs {
	return seqs(name, s, 1, bs)
}

// unkModes cycles unknown-field storage forms over shapes so that all are used everywhere.
func shapeSchemas(shapes []*Field, nums ...int32) []*Schema {
	var out []*Schema
	for i, f := range shapes {
		num := nums[i%len(nums)]
		s := Build(UnkMode(i%5), at(f, num))
		s.Name = s.String()
		out = append(out, s)
	}
	return out
}

func oneofSchemas() []*Schema {
	var out []*Schema
	for _, n := range []string{"p3.All", "p2.All", "pg3.All", "p3.Tree", "pg3.Tree"} {
		out = append(out, static(n).s)
	}
	return out
}

func goodAlpha(l Level, unkN int) func(s *Schema) [][]byte {
	return func(s *Schema) [][]byte {
		var a [][]byte
		for _, f := range s.Fields {
			a = append(a, fieldRecs(f, l, 2)...)
		}
		u := unkRecs(s, L1)
		if len(u) > unkN {
			u = u[:unkN]
		}
		return append(a, u...)
	}
}

func badAlpha(l Level) func(s *Schema) [][]byte {
	return func(s *Schema) [][]byte {
		var a [][]byte
		for _, f := range s.Fields {
			a = append(a, fieldRecs(f, L0, 2)[:2]...)
			a = append(a, badRecs(f, l)...)
		}
		return append(a, unkRecs(s, L0)[:2]...)
	}
}

// pairSchemas: two-field messages of representative shapes.
func pairSchemas() []*Schema {
	shapes := someShapes()
	var out []*Schema
	n := len(shapes)
	for i := range shapes {
		for j := range shapes {
			if (i*7+j*3)%4 == 0 || i == j || j == (i+1)%n {
				na, nb := int32(1), int32(2)
				if (i+j)%3 == 1 {
					na, nb = 5, 1003
				} else if (i+j)%3 == 2 {
					na, nb = 16, 3
				}
				s := Build(UnkMode((i+j)%5), at(shapes[i], na), at(shapes[j], nb))
				s.Name = s.String()
				out = append(out, s)
			}
		}
	}
	return out
}

func byteStrings(name string, schemas []*Schema, alpha func(s *Schema) []byte, maxLen int) inputs {
	als := make([][]byte, len(schemas))
	p := newPrefix(len(schemas), func(i int) int64 {
		als[i] = alpha(schemas[i])
		n, t := int64(1), int64(0)
		for j := 0; j <= maxLen; j++ {
			t += n
			n *= int64(len(als[i]))
		}
		return t
	})
	return inputs{name: name, n: p.total(), block: 1024, get: func(i int64) (*Schema, []byte) {
		g, off := p.find(i)
		a := als[g]
		n, l := int64(1), 0
		for off >= n {
			off -= n
			n *= int64(len(a))
			l++
		}
		b := make([]byte, l)
		for j := range b {
			b[j] = a[off%int64(len(a))]
			off /= int64(len(a))
		}
		return schemas[g], b
	}}
}

// byteAlpha: every byte that matters for the schema: its tags (right and wrong
// wire types), small values/lengths, continuation bytes.
func byteAlpha(s *Schema) []byte {
	seen := map[byte]bool{}
	var out []byte
	add := func(bs ...byte) {
		for _, b := range bs {
			if !seen[b] {
				seen[b] = true
				out = append(out, b)
			}
		}
	}
	for _, f := range s.Fields {
		if f.Num < 16 {
			if f.Card == Map {
				add(byte(f.Num<<3 | WBytes))
				add(byte(1<<3|f.Key.Wire()), byte(2<<3|f.Kind.Wire()))
			} else {
				add(byte(int(f.Num)<<3 | f.Kind.Wire()))
				if f.Kind.Packable() {
					add(byte(f.Num<<3 | WBytes))
				}
			}
		}
	}
	add(0x00, 0x01, 0x02, 0x03, 0x80, 0xff)
	for _, f := range s.Fields {
		add(byte(f.Num<<3|WSGroup), byte(f.Num<<3|WEGroup))
		break
	}
	return out
}

func byteSchemas() []*Schema {
	mk := func(u UnkMode, fs ...*Field) *Schema { s := Build(u, fs...); s.Name = s.String(); return s }
	sub := mk(UnkLower, &Field{Num: 1, Kind: Int32, Card: Implicit})
	return []*Schema{
		mk(UnkLower, &Field{Num: 1, Kind: Uint64, Card: Implicit}),
		mk(UnkNone, &Field{Num: 1, Kind: Sint32, Card: Packed}),
		mk(UnkXXX, &Field{Num: 1, Kind: Bool, Card: Repeated}),
		mk(UnkLowerPtr, &Field{Num: 1, Kind: String, Card: Explicit}),
		mk(UnkLower, &Field{Num: 1, Kind: Message, Card: Explicit, Msg: sub}),
		mk(UnkNone, &Field{Num: 1, Kind: Message, Card: Repeated, Msg: sub, NoPtr: true}),
		mk(UnkLower, &Field{Num: 1, Kind: Uint32, Key: Bool, Card: Map}),
		mk(UnkNone, &Field{Num: 1, Kind: Bytes, Key: String, Card: Map}),
		mk(UnkXXX, &Field{Num: 1, Kind: Message, Key: Uint64, Card: Map, Msg: sub}),
	}
}

func entrySchemas() []*Schema {
	var out []*Schema
	for i, f := range allShapes() {
		if f.Card == Map {
			s := Build(UnkMode(i%3), at(f, 4))
			s.Name = s.String()
			out = append(out, s)
		}
	}
	return out
}

func entryAlpha(bad bool) func(s *Schema) [][]byte {
	return func(s *Schema) [][]byte {
		f := s.Fields[0]
		a := entryRecs(f, L1, 1)
		if bad {
			kb := &Field{Num: 1, Kind: f.Key, Card: Implicit}
			vb := &Field{Num: 2, Kind: f.Kind, Card: Implicit, Msg: f.Msg}
			a = append(a[:5:5], badRecs(kb, L0)...)
			a = append(a, badRecs(vb, L0)[:5]...)
		}
		return a
	}
}

// entries: every sequence of k records inside one map entry (preceded by a plain entry if pre).
func entries(name string, k int, bad bool) inputs {
	in := seqs(name, entrySchemas(), k, entryAlpha(bad))
	get := in.get
	in.get = func(i int64) (*Schema, []byte) {
		s, b := get(i)
		return s, lenRec(s.Fields[0].Num, b)
	}
	return in
}

// seeds are complete encodings used for truncation and editing.
func seeds(maxLen int, perShape int) (ss []*Schema, bs [][]byte) {
	add := func(s *Schema, v *Val) {
		b := Encode(s, v)
		if len(b) > 0 && len(b) <= maxLen {
			ss, bs = append(ss, s), append(bs, b)
		}
	}
	for i, f := range allShapes() {
		s := Build(UnkMode(i%5), at(f, 3))
		s.Name = s.String()
		vs := FieldVals(f, L1, 2)
		n := 0
		for j := len(vs) - 1; j >= 0 && n < perShape; j-- {
			if vs[j] != nil && len(Encode(s, valOf(3, vs[j]))) <= maxLen {
				add(s, valOf(3, vs[j]))
				n++
			}
		}
	}
	for _, t := range staticTypes() {
		for _, f := range t.s.Fields {
			if f.Kind == Message || f.Card == Oneof {
				vs := FieldVals(f, L0, 2)
				add(t.s, valOf(f.Num, vs[len(vs)-1]))
			}
		}
	}
	return
}

func truncations(maxLen, per int) inputs {
	ss, bs := seeds(maxLen, per)
	p := newPrefix(len(bs), func(i int) int64 { return int64(len(bs[i])) })
	return inputs{name: "truncations", n: p.total(), block: 64, get: func(i int64) (*Schema, []byte) {
		g, off := p.find(i)
		return ss[g], bs[g][:off]
	}}
}

// splits: the payload of a record cut in two at every position, and given as two
// records of the same field; for maps, also the value inside the entry.
func splits() inputs {
	var ss []*Schema
	var bs [][]byte
	for i, f := range allShapes() {
		s := Build(UnkMode(i%5), at(f, 3))
		s.Name = s.String()
		cut := func(p []byte, wrap func(a, b []byte) []byte) {
			for i := 1; i < len(p) && i < 40; i++ {
				ss, bs = append(ss, s), append(bs, wrap(p[:i], p[i:]))
			}
		}
		two := func(a, b []byte) []byte { return cat(lenRec(3, a), lenRec(3, b)) }
		switch {
		case f.Card == Map:
			for _, e := range entryBodies(f, L0, 2) {
				cut(e, two)
			}
			if f.Kind == Message {
				key := entryRecs(f, L0, 1)[0]
				for _, p := range msgBodies(f.Msg, L1, 2) {
					cut(p, func(a, b []byte) []byte { return lenRec(3, cat(key, lenRec(2, a), lenRec(2, b))) })
					cut(p, func(a, b []byte) []byte { return lenRec(3, cat(lenRec(2, a), key, lenRec(2, b))) })
				}
			}
		case f.Kind == Message:
			for _, p := range msgBodies(f.Msg, L1, 2) {
				cut(p, two)
			}
		case (f.Card == Repeated || f.Card == Packed) && f.Kind.Packable():
			var p []byte
			for _, b := range scalarBodies(f.Kind, L0) {
				p = append(p, b...)
			}
			cut(p, two)
		}
	}
	return inputs{name: "splits", n: int64(len(bs)), block: 64, get: func(i int64) (*Schema, []byte) { return ss[i], bs[i] }}
}

// edits: every byte of every seed replaced by every other value, deleted, or preceded by each of a few bytes.
func edits(maxLen, per int) inputs {
	ss, bs := seeds(maxLen, per)
	ins := []byte{0, 1, 0x7f, 0x80, 0xff}
	per1 := int64(256 + 1 + len(ins))
	p := newPrefix(len(bs), func(i int) int64 { return int64(len(bs[i])) * per1 })
	return inputs{name: "edits", n: p.total(), block: 1024, get: func(i int64) (*Schema, []byte) {
		g, off := p.find(i)
		pos, e := int(off/per1), off%per1
		b := bs[g]
		switch {
		case e < 256:
			o := append([]byte{}, b...)
			o[pos] = byte(e)
			return ss[g], o
		case e == 256:
			return ss[g], cat(b[:pos], b[pos+1:])
		}
		return ss[g], cat(b[:pos], []byte{ins[e-257]}, b[pos:])
	}}
}

// liars: length prefixes far larger than the data, in every LEN position.
func liars() (ss []*Schema, bs [][]byte) {
	lens := []uint64{1 << 10, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}
	for i, f := range allShapes() {
		s := Build(UnkMode(i%5), at(f, 3))
		s.Name = s.String()
		for _, l := range lens {
			if f.Kind.Wire() == WBytes || f.Card == Repeated || f.Card == Packed || f.Card == Map {
				ss, bs = append(ss, s), append(bs, cat(AppendTag(nil, 3, WBytes), AppendVarint(nil, l), []byte{1, 2, 3}))
			}
			ss, bs = append(ss, s), append(bs, cat(AppendTag(nil, 99, WBytes), AppendVarint(nil, l), []byte{1, 2, 3}))
			if f.Card == Map {
				for _, n := range []int32{1, 2, 3} {
					e := cat(AppendTag(nil, n, WBytes), AppendVarint(nil, l), []byte{1, 2, 3})
					ss, bs = append(ss, s), append(bs, lenRec(3, e))
				}
			}
		}
	}
	return
}

// checkAlloc: rejecting a short input must not allocate much.
func checkAlloc(c *core.Ctx, s *Schema, b []byte) {
	p := NewGo(s)
	unmarshal(nil, p) // descriptor parsing is not the input's fault
	unmarshal(lenRec(77, []byte{1}), NewGo(s))
	in := guard.put(b)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	err := unmarshal(in, p)
	runtime.ReadMemStats(&m1)
	c.Trans(1)
	if _, merr := modelDecode(s, b); merr != nil && err == nil {
		c.Fail("accepts:"+merr.Error()+":"+keyShape(s, nil, nil), "Unmarshal accepts %s", hex(b))
	}
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<10+64*uint64(len(b)) {
		c.Fail("allocates", "Unmarshal of %d bytes %s allocated %d bytes", len(b), hex(b), d)
	}
	c.StateStr(s.Name + string(b))
	c.Trace(1)
}

func fewOf[T any](xs []T, every int) []T {
	var out []T
	for i, x := range xs {
		if i%every == 0 {
			out = append(out, x)
		}
	}
	return out
}

var goodNums = []int32{1, 15, 16, 999, 1000, 1001, 2048, MaxFieldNum}

func meaningSpaces(tier string) []*core.Space {
	dc := &dynCache{}
	chk := checkMeaning(dc)
	plain := checkMeaning(nil)
	all := shapeSchemas(allShapes(), goodNums...)
	some := shapeSchemas(someShapes(), goodNums...)
	var out []*core.Space
	add := func(in inputs, f func(c *core.Ctx, s *Schema, b []byte)) { out = append(out, in.space(f)) }
	add(seqs("one-record", all, 1, goodAlpha(L2, 10)), chk)
	add(seqs("one-record-compiled", oneofSchemas(), 1, goodAlpha(L1, 10)), chk)
	if tier == "thorough" {
		add(seqs("two-records-L2", all, 2, goodAlpha(L2, 10)), chk)
		add(seqs("three-records-L1", some, 3, goodAlpha(L1, 4)), plain)
		add(seqs("four-records", all, 4, goodAlpha(L0, 2)), plain)
		add(seqs("five-records", some, 5, goodAlpha(L0, 2)), plain)
		add(seqs("two-fields-four-records", pairSchemas(), 4, goodAlpha(L0, 1)), plain)
		add(seqs("three-records-compiled", oneofSchemas()[3:], 3, goodAlpha(L0, 2)), plain)
	} else {
		add(seqs("two-records", all, 2, goodAlpha(L1, 4)), chk)
		add(seqs("four-records", some, 4, goodAlpha(L0, 2)), plain)
		add(seqs("two-fields-four-records", fewOf(pairSchemas(), 4), 4, goodAlpha(L0, 1)), plain)
	}
	add(seqs("three-records", all, 3, goodAlpha(L0, 2)), plain)
	add(seqs("two-fields-three-records", pairSchemas(), 3, goodAlpha(L0, 1)), plain)
	add(seqs("two-records-compiled", oneofSchemas(), 2, goodAlpha(L0, 2)), plain)
	add(splits(), plain)
	add(entries("map-entry-1", 1, false), chk)
	add(entries("map-entry-2", 2, false), chk)
	add(entries("map-entry-3", 3, false), plain)
	add(entries("map-entry-4", 4, false), plain)
	n := 6
	if tier == "thorough" {
		n = 7
		add(entries("map-entry-5", 5, false), plain)
	}
	add(byteStrings(fmt.Sprintf("bytes-%d", n), byteSchemas(), byteAlpha, n), plain)
	return out
}

func rejectSpaces(tier string) []*core.Space {
	all := shapeSchemas(allShapes(), goodNums...)
	some := shapeSchemas(someShapes(), goodNums...)
	var out []*core.Space
	add := func(in inputs) { out = append(out, in.space(checkReject)) }
	add(seqs("one-bad-record", all, 1, badAlpha(L1)))
	add(seqs("one-bad-record-compiled", oneofSchemas(), 1, badAlpha(L1)))
	add(seqs("two-records-bad", all, 2, badAlpha(L1)))
	add(splits())
	add(entries("map-entry-bad-1", 1, true))
	add(entries("map-entry-bad-2", 2, true))
	add(entries("map-entry-bad-3", 3, true))
	if tier == "thorough" {
		add(seqs("three-records-bad", all, 3, badAlpha(L0)))
		add(truncations(40000, 1000))
		add(edits(400, 20))
		add(byteStrings("bytes-7", byteSchemas(), byteAlpha, 7))
	} else {
		add(seqs("three-records-bad", some, 3, badAlpha(L0)))
		add(truncations(4000, 1000))
		add(edits(160, 6))
		add(byteStrings("bytes-6", byteSchemas(), byteAlpha, 6))
	}
	ls, lb := liars()
	out = append(out, inputs{name: "length-lies", n: int64(len(lb)), get: func(i int64) (*Schema, []byte) { return ls[i], lb[i] }}.space(checkAlloc))
	return out
}

const ruleDecode = "Inputs are built record by record: every sequence of up to 4 (thorough: 5) records from per-field record alphabets covering every spelling, every record sequence inside a map entry, and every byte string up to 6 (thorough: 7) bytes over the bytes that matter to the schema. "

func init() {
	reg(&core.Prop{ID: "C03", Level: "model_checking", Rule: ruleDecode + "A case is non-trivial when the model accepts it and it is decoded by the library.",
		Bounds: "record sequences up to length 4 (5), byte strings up to 6 (7), each supported field shape alone, representative pairs of shapes, all fields of compiled types",
		Assume: []string{"records outside the alphabets behave like one of the enumerated spellings"},
		Spaces: meaningSpaces})
	reg(&core.Prop{ID: "C04", Level: "model_checking", Rule: ruleDecode + "Also every truncation and every single-byte edit of the seed encodings. Every input ends right before an inaccessible page. A case is non-trivial when the model rejects it.",
		Bounds: "as C03, plus all truncations of seeds up to 4000 (40000) bytes and all single-byte edits of seeds up to 160 (400) bytes",
		Assume: []string{"a known field with the wrong wire type is malformed (the library's contract; the official library keeps it as unknown)"},
		Spaces: rejectSpaces})
	_ = strings.TrimSpace
}
