package props

import (
	"sync"

	. "verif/mc/pb"
)

// leaf is the sub-message used by message-typed shapes.
var leafOnce sync.Once
var leafS, leafUnkS *Schema

func leaf() *Schema {
	leafOnce.Do(func() {
		leafS = Build(UnkNone,
			&Field{Num: 1, Kind: Int32, Card: Implicit},
			&Field{Num: 2, Kind: String, Card: Implicit},
			&Field{Num: 3, Kind: Uint64, Card: Packed},
			&Field{Num: 5, Kind: Sint64, Card: Explicit})
		leafUnkS = Build(UnkLower,
			&Field{Num: 1, Kind: Int32, Card: Implicit},
			&Field{Num: 4, Kind: Bytes, Card: Explicit, PtrBytes: true})
	})
	return leafS
}
func leafUnk() *Schema { leaf(); return leafUnkS }

// allShapes enumerates every supported field shape (number 1).
func allShapes() []*Field {
	var out []*Field
	for _, k := range ScalarKinds {
		out = append(out, &Field{Kind: k, Card: Implicit}, &Field{Kind: k, Card: Explicit}, &Field{Kind: k, Card: Repeated})
		if k.Packable() {
			out = append(out, &Field{Kind: k, Card: Packed})
		}
	}
	out = append(out, &Field{Kind: Bytes, Card: Explicit, PtrBytes: true}, &Field{Kind: Int64, Card: Required}, &Field{Kind: String, Card: Required})
	for _, m := range []*Schema{leaf(), leafUnk()} {
		out = append(out, &Field{Kind: Message, Card: Explicit, Msg: m}, &Field{Kind: Message, Card: Implicit, NoPtr: true, Msg: m},
			&Field{Kind: Message, Card: Repeated, Msg: m}, &Field{Kind: Message, Card: Repeated, NoPtr: true, Msg: m})
	}
	for _, mk := range MapKeyKinds {
		for _, k := range ScalarKinds {
			out = append(out, &Field{Kind: k, Card: Map, Key: mk})
		}
		out = append(out, &Field{Kind: Message, Card: Map, Key: mk, Msg: leaf()}, &Field{Kind: Message, Card: Map, Key: mk, Msg: leafUnk(), NoPtr: true})
	}
	return out
}

// someShapes is a reduced list with one representative per code path family.
func someShapes() []*Field {
	var out []*Field
	add := func(c Card, ks ...Kind) {
		for _, k := range ks {
			out = append(out, &Field{Kind: k, Card: c})
		}
	}
	add(Implicit, Int32, Uint64, Sint32, Fixed32, Double, Bool, String, Bytes)
	add(Explicit, Int64, Sint64, Sfixed32, Float, Bool, String, Enum)
	out = append(out, &Field{Kind: Bytes, Card: Explicit, PtrBytes: true})
	add(Repeated, Int32, Sint64, Fixed64, Bool, String, Bytes)
	add(Packed, Int32, Uint32, Sint32, Float, Sfixed64, Bool)
	out = append(out, &Field{Kind: Message, Card: Explicit, Msg: leaf()}, &Field{Kind: Message, Card: Implicit, NoPtr: true, Msg: leafUnk()},
		&Field{Kind: Message, Card: Repeated, Msg: leafUnk()}, &Field{Kind: Message, Card: Repeated, NoPtr: true, Msg: leaf()})
	m := func(k, v Kind, s *Schema, np bool) {
		out = append(out, &Field{Kind: v, Card: Map, Key: k, Msg: s, NoPtr: np})
	}
	m(Int32, Int32, nil, false)
	m(Uint64, Fixed32, nil, false)
	m(Bool, Bool, nil, false)
	m(String, String, nil, false)
	m(String, Bytes, nil, false)
	m(Sint64, String, nil, false)
	m(Int32, Message, leaf(), false)
	m(String, Message, leafUnk(), false)
	m(Fixed64, Message, leaf(), true)
	m(Bool, Message, leafUnk(), false)
	return out
}

func at(f *Field, num int32) *Field {
	g := *f
	g.Num = num
	return &g
}

// lazy memoises a per-index builder (one slot; enumeration is block-wise).
type lazy[T any] struct {
	idx int64
	ok  bool
	v   T
}

func (l *lazy[T]) get(i int64, f func() T) T {
	if !l.ok || l.idx != i {
		l.v = f()
		l.idx = i
		l.ok = true
	}
	return l.v
}

// memo caches built schemas for the life of the process (Go types made by
// reflect are never freed anyway).
type memo[T any] struct{ m map[int64]T }

func (l *memo[T]) get(i int64, f func() T) T {
	if l.m == nil {
		l.m = map[int64]T{}
	}
	if v, ok := l.m[i]; ok {
		return v
	}
	v := f()
	l.m[i] = v
	return v
}

// prefix maps a flat index onto (group, offset) given group sizes.
type prefix struct{ cum []int64 }

func newPrefix(n int, size func(i int) int64) *prefix {
	p := &prefix{cum: make([]int64, n+1)}
	for i := 0; i < n; i++ {
		p.cum[i+1] = p.cum[i] + size(i)
	}
	return p
}
func (p *prefix) total() int64 { return p.cum[len(p.cum)-1] }
func (p *prefix) find(i int64) (g int, off int64) {
	lo, hi := 0, len(p.cum)-2
	for lo < hi {
		mid := (lo + hi + 1) / 2
		if p.cum[mid] <= i {
			lo = mid
		} else {
			hi = mid - 1
		}
	}
	return lo, i - p.cum[lo]
}
