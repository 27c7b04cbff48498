package props

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"

	"github.com/cloudwego/prutal"
	"verif/mc/core"
	. "verif/mc/pb"
)

// A CostCase is a family of inputs which grow with n.
type CostCase struct {
	Name string
	New  func() any
	In   func(n int) []byte
	Elem int // size in memory of the largest thing a single record can make
	N    int // the smaller n; the larger is CostFactor times as much
}

// CostFactor is how much longer the longer input of a case is.
const CostFactor = 16

// CostLimit is how much more the longer input may cost.
const CostLimit = 40

type costRec struct {
	name string
	at   func(k int) []byte
}

func kBody(k Kind, i, n int) []byte {
	switch k.Wire() {
	case WVarint: // of the same length for all i
		if k == Bool {
			return []byte{byte(i & 1)}
		}
		return AppendVarint(nil, uint64(i+1000))
	case WF32:
		return []byte{byte(i), byte(i >> 8), byte(i >> 16), 0}
	case WF64:
		return []byte{byte(i), byte(i >> 8), byte(i >> 16), 0, 0, 0, 0, 0}
	}
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i >> (8 * (j % 3)))
	}
	return AppendLen(nil, b)
}

// costRecs are ways to write field f once more, the k-th time.
func costRecs(f *Field) []costRec {
	var out []costRec
	add := func(name string, at func(k int) []byte) { out = append(out, costRec{name, at}) }
	num := f.Num
	vals := func(k Kind) []int { // payload sizes
		if k == String || k == Bytes {
			return []int{0, 3, 100, 3000}
		}
		return []int{0}
	}
	switch {
	case f.Card == Map:
		key := func(i int) []byte { return rec(1, f.Key.Wire(), kBody(f.Key, i, 3)) }
		val := func(i, n int) []byte {
			if f.Kind == Message {
				return lenRec(2, rec(1, WVarint, AppendVarint(nil, uint64(i))))
			}
			return rec(2, f.Kind.Wire(), kBody(f.Kind, i, n))
		}
		for _, n := range vals(f.Kind) {
			if n > 3 {
				continue
			}
			add(fmt.Sprint("entry", n), func(k int) []byte { return lenRec(num, cat(key(k), val(k, n))) })
			add(fmt.Sprint("reversed", n), func(k int) []byte { return lenRec(num, cat(val(k, n), key(k))) })
		}
		add("same-key", func(k int) []byte { return lenRec(num, cat(key(1), val(k, 3))) })
		add("no-value", func(k int) []byte { return lenRec(num, key(k)) })
		add("nothing", func(k int) []byte { return lenRec(num, nil) })
		add("values-twice", func(k int) []byte { return lenRec(num, cat(key(k), val(k, 3), val(k+1, 3))) })
		add("unknown-inside", func(k int) []byte { return lenRec(num, cat(key(k), lenRec(9, []byte("xyz")), val(k, 3))) })
		if f.Key == String {
			add("long-key", func(k int) []byte { return lenRec(num, cat(rec(1, WBytes, kBody(String, k, 100)), val(k, 3))) })
		}
	case f.Kind == Message:
		add("empty", func(k int) []byte { return lenRec(num, nil) })
		add("some", func(k int) []byte { return lenRec(num, rec(1, WVarint, AppendVarint(nil, uint64(k+1000)))) })
		add("unknown-inside", func(k int) []byte {
			return lenRec(num, cat(rec(99, WVarint, AppendVarint(nil, uint64(k+1000))), lenRec(98, []byte("xyz"))))
		})
	default:
		for _, n := range vals(f.Kind) {
			add(fmt.Sprint("value", n), func(k int) []byte { return rec(num, f.Kind.Wire(), kBody(f.Kind, k, n)) })
		}
		if (f.Card == Repeated || f.Card == Packed) && f.Kind.Packable() {
			for _, m := range []int{0, 1, 30} {
				add(fmt.Sprint("packed", m), func(k int) []byte {
					var b []byte
					for j := 0; j < m; j++ {
						b = append(b, kBody(f.Kind, k+j, 0)...)
					}
					return lenRec(num, b)
				})
			}
		}
	}
	return out
}

var costCommon = []costRec{
	{"other-list", func(k int) []byte { return rec(2, WVarint, AppendVarint(nil, uint64(k+1000))) }},
	{"other-map", func(k int) []byte {
		return lenRec(3, cat(rec(1, WBytes, kBody(String, k, 3)), lenRec(2, rec(1, WVarint, AppendVarint(nil, uint64(k+1000))))))
	}},
	{"unknown-varint", func(k int) []byte { return rec(99, WVarint, AppendVarint(nil, uint64(k+1000))) }},
	{"unknown-bytes", func(k int) []byte { return rec(98, WBytes, kBody(String, k, 20)) }},
	{"unknown-group", func(k int) []byte {
		return cat(AppendTag(nil, 97, WSGroup), AppendTag(nil, 96, WSGroup), rec(1, WVarint, AppendVarint(nil, uint64(k+1000))), AppendTag(nil, 96, WEGroup), AppendTag(nil, 97, WEGroup))
	}},
}

// endings make the whole input malformed, after everything before was read.
var costEnds = []struct {
	name string
	b    []byte
}{{"", nil}, {"+cut", []byte{0xff}}, {"+long", lenRec(98, nil)[:2]}, {"+endgroup", AppendTag(nil, 5, WEGroup)}}

func init() { // a length of 2^31-1 with nothing behind it
	costEnds[2].b = AppendVarint(AppendTag(nil, 98, WBytes), 1<<31-1)
}

// CostSpace is a list of cases, made when needed.
type CostSpace struct {
	Name  string
	N     int64
	Block int64
	At    func(i int64) *CostCase
}

func recordCosts(words int) *CostSpace {
	type group struct {
		s    *Schema
		recs []costRec
		elem int
	}
	var gs []group
	for i, f := range allShapes() {
		s := Build([]UnkMode{UnkLower, UnkLowerPtr, UnkNone, UnkXXX}[i%4], at(f, 1), at(&Field{Kind: Int32, Card: Repeated}, 2), at(&Field{Kind: Message, Card: Map, Key: String, Msg: leaf()}, 3))
		e := 64
		if f.Msg != nil {
			e = int(f.Msg.Go.Size())
		}
		gs = append(gs, group{s, append(costRecs(at(f, 1)), costCommon...), e})
	}
	count := func(n int) int64 { // words of length 1 with all endings, longer words without
		t, p := int64(len(costEnds)*n), int64(n)
		for w := 2; w <= words; w++ {
			p *= int64(n)
			t += p
		}
		return t
	}
	pre := newPrefix(len(gs), func(i int) int64 { return count(len(gs[i].recs)) })
	return &CostSpace{Name: "records", N: pre.total(), Block: 64, At: func(i int64) *CostCase {
		g, off := pre.find(i)
		grp := gs[g]
		n := int64(len(grp.recs))
		var word []costRec
		end := costEnds[0]
		if off < n*int64(len(costEnds)) {
			word = []costRec{grp.recs[off%n]}
			end = costEnds[off/n]
		} else {
			off -= n * int64(len(costEnds))
			l, p := 2, n*n
			for off >= p {
				off -= p
				p *= n
				l++
			}
			for ; l > 0; l-- {
				word = append(word, grp.recs[off%n])
				off /= n
			}
		}
		name := grp.s.Fields[0].Shape() + " " + fmt.Sprint(grp.s.Unk) + ":"
		for _, r := range word {
			name += " " + r.name
		}
		return &CostCase{Name: name + end.name, N: 32, Elem: grp.elem,
			New: func() any { return NewGo(grp.s).Interface() },
			In: func(n int) []byte {
				var b []byte
				for k := 0; k < n; k++ {
					for _, r := range word {
						b = append(b, r.at(k)...)
					}
				}
				return append(b, end.b...)
			}}
	}}
}

// nestedCosts: messages nested n times along a cycle of edges, with siblings at
// each level, ways to write the map entries, and contents at the innermost level.
func nestedCosts() *CostSpace {
	sibs := []costRec{
		{"", func(k int) []byte { return nil }},
		{"number", func(k int) []byte { return rec(1, WVarint, AppendVarint(nil, uint64(k+1000))) }},
		{"unknown", func(k int) []byte { return lenRec(99, []byte("abc")) }},
		{"list", func(k int) []byte { return lenRec(3, nil) }},
		{"map", func(k int) []byte {
			return lenRec(5, cat(rec(1, WVarint, AppendVarint(nil, uint64(k+2000))), lenRec(2, nil)))
		}},
	}
	inner := []costRec{
		{"", func(k int) []byte { return nil }},
		{"key", func(k int) []byte { return lenRec(7, cat(rec(1, WBytes, kBody(String, 1, 20*k)), lenRec(2, nil))) }},
		{"elements", func(k int) (b []byte) {
			for j := 0; j < k; j++ {
				b = append(b, lenRec(3, nil)...)
			}
			return
		}},
		{"unknown", func(k int) []byte { return lenRec(99, make([]byte, 20*k)) }},
	}
	forms := []string{"", "reversed", "unknown-inside", "value-twice", "values-split"}
	// wrap writes body as the message behind edge e
	wrap := func(e int, form string, body []byte) []byte {
		if edges[e].toW {
			body = lenRec(1, body)
		}
		if form == "" {
			return edges[e].wrap(body)
		}
		rec := edges[e].wrap(nil) // tag, length, key, 0x12, 0
		_, _, n, _ := Tag(rec)
		_, m, _ := Varint(rec[n:])
		key := rec[n+m : len(rec)-2]
		switch form {
		case "reversed":
			body = cat(lenRec(2, body), key)
		case "unknown-inside":
			body = cat(key, lenRec(9, []byte("x")), lenRec(2, body))
		case "value-twice":
			body = cat(key, lenRec(2, nil), lenRec(2, body))
		case "values-split":
			body = cat(key, lenRec(2, body), lenRec(2, lenRec(99, []byte("y"))))
		}
		return AppendLen(append([]byte(nil), rec[:n]...), body)
	}
	isMap := func(e int) bool { return len(edges[e].wrap(nil)) > 4 }
	type blk struct {
		e    [2]int
		form string
	}
	var bs []blk
	for a := range edges {
		for b := range edges {
			for _, f := range forms {
				if f != "" && !isMap(a) && !isMap(b) {
					continue
				}
				bs = append(bs, blk{[2]int{a, b}, f})
			}
		}
	}
	per := int64(len(sibs) * len(inner) * 2)
	return &CostSpace{Name: "nested", N: int64(len(bs)) * per, Block: 16, At: func(i int64) *CostCase {
		b := bs[i/per]
		r := int(i % per)
		sib := sibs[r%len(sibs)]
		in := inner[r/len(sibs)%len(inner)]
		before := r/len(sibs)/len(inner) == 0
		return &CostCase{Name: fmt.Sprintf("nested along %s,%s %s, at each level %s (before: %v), inside %s", edges[b.e[0]].name, edges[b.e[1]].name, b.form, sib.name, before, in.name),
			N: 24, Elem: 8 * int(reflect.TypeOf(recT{}).Size()),
			New: func() any { return new(recT) },
			In: func(n int) []byte {
				body := in.at(n)
				for k := 0; k < n; k++ {
					e := b.e[k&1]
					form := b.form
					if !isMap(e) {
						form = ""
					}
					body = wrap(e, form, body)
					if before {
						body = cat(sib.at(k), body)
					} else {
						body = cat(body, sib.at(k))
					}
				}
				return body
			}}
	}}
}

// CostSpaces are the spaces of C16 and C17.
func CostSpaces(tier string) []*CostSpace {
	if tier == "thorough" {
		return []*CostSpace{recordCosts(3), nestedCosts()}
	}
	return []*CostSpace{recordCosts(2), nestedCosts()}
}

// allocated returns the bytes f allocates; f is repeated if that is more than ok.
func allocated(ok uint64, prep func(), f func()) uint64 {
	var m0, m1 runtime.MemStats
	min := ^uint64(0)
	for try := 0; try < 4 && min > ok; try++ {
		prep()
		runtime.ReadMemStats(&m0)
		f()
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d < min {
			min = d
		}
	}
	return min
}

func checkMemory(c *core.Ctx, cc *CostCase) {
	debug.SetGCPercent(-1) // so that nothing is taken from the pools
	defer debug.SetGCPercent(200)
	var small uint64
	for _, n := range []int{cc.N, cc.N * CostFactor} {
		in := cc.In(n)
		var p any
		var err error
		base := uint64(64<<10 + 64*len(in) + 4*cc.Elem*len(in)/2)
		prutal.Unmarshal(in[:0], cc.New())
		p = cc.New()
		err = prutal.Unmarshal(in, p) // whatever is kept for later calls
		d := allocated(base, func() { p = cc.New() }, func() { err = prutal.Unmarshal(in, p) })
		c.Trans(1)
		if d > base {
			c.Fail("unmarshal:"+KeyCost(cc), "%s, %d times: Unmarshal of %d bytes allocated %d bytes (error: %v)", cc.Name, n, len(in), d, err)
			return
		}
		if n == cc.N {
			small = d
		} else if d > CostLimit*small+128<<10 {
			c.Fail("unmarshal-growth:"+KeyCost(cc), "%s: Unmarshal allocated %d bytes for %d times, %d bytes for %d times", cc.Name, small, n/CostFactor, d, n)
			return
		}
		if err != nil {
			continue
		}
		sz, err := prutal.Size(p)
		if err != nil {
			continue
		}
		if d := allocated(0, func() {}, func() { prutal.Size(p) }); d > 0 {
			c.Fail("size:"+KeyCost(cc), "%s, %d times: Size allocated %d bytes", cc.Name, n, d)
		}
		buf := make([]byte, 0, 2*sz+16*n+4096)
		prutal.MarshalAppend(buf, p)
		if d := allocated(0, func() {}, func() { prutal.MarshalAppend(buf, p) }); d > 0 {
			c.Fail("append:"+KeyCost(cc), "%s, %d times: MarshalAppend of %d bytes into a buffer with %d free bytes allocated %d bytes", cc.Name, n, sz, cap(buf), d)
		}
		ok := uint64(8*sz + 128*n + 4096)
		if d := allocated(ok, func() {}, func() { prutal.Marshal(p) }); d > ok {
			c.Fail("marshal:"+KeyCost(cc), "%s, %d times: Marshal of %d bytes allocated %d bytes", cc.Name, n, sz, d)
		}
		c.Trans(3)
	}
	c.Trace(2)
	c.StateStr(cc.Name)
}

// KeyCost is the start of the name, up to what varies within a group.
func KeyCost(cc *CostCase) string {
	for i, r := range cc.Name {
		if r == ':' || r == ',' {
			return cc.Name[:i]
		}
	}
	return cc.Name
}

func init() {
	reg(&core.Prop{ID: "C16", Level: "model_checking", Env: []string{"GOMAXPROCS=1"},
		Rule:   "Every input of the listed families is decoded, and the message encoded again, at two lengths, one 16 times the other, and the bytes allocated by each call are compared with what is allowed for the size. Records: every field shape x every sequence of up to 2 (thorough: 3) ways to write a record of it, of two other fields, or an unknown one, repeated 32 and 512 times with different contents, and with three endings which make it malformed. Nested: every pair of nesting edges x ways to write map entries x siblings x innermost contents, 24 and 384 levels deep. Every case is non-trivial.",
		Bounds: "512 repetitions, 384 levels, payloads to 3000 bytes; allowed are: nothing (Size, MarshalAppend with room), 8 times the output and 4 KB (Marshal), 64 bytes or 2 elements per input byte and 64 KB (Unmarshal), 40 times as much for 16 times the input",
		Assume: []string{"growth beyond 512 repetitions is as up to there", "pools are warm"},
		Spaces: func(tier string) (out []*core.Space) {
			for _, s := range CostSpaces(tier) {
				s := s
				runs := 0
				out = append(out, &core.Space{Name: s.Name, N: s.N, Block: s.Block, Run: func(i int64, c *core.Ctx) {
					if runs++; runs%32 == 0 {
						runtime.GC()
					}
					checkMemory(c, s.At(i))
				}, Describe: func(i int64) string { return s.At(i).Name }})
			}
			return
		}})
}
