package pb

import (
	"math"
	"strings"
)

func u(xs ...uint64) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = x
	}
	return o
}

func s32(xs ...int32) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = uint64(int64(x))
	}
	return o
}
func s64(xs ...int64) []any {
	o := make([]any, len(xs))
	for i, x := range xs {
		o[i] = uint64(x)
	}
	return o
}

// Level selects how rich an alphabet is.
type Level int

const (
	L0 Level = iota // 2 values: zero and a non-zero one
	L1              // a handful of boundaries
	L2              // every encoding-length boundary
)

// Values is the scalar alphabet of a kind; the zero value always comes first.
func Values(k Kind, l Level) []any {
	switch k {
	case Int32, Enum:
		switch l {
		case L0:
			return s32(0, -1)
		case L1:
			return s32(0, 1, -1, 127, 128, math.MaxInt32, math.MinInt32)
		}
		return s32(0, 1, 2, 63, 64, 127, 128, 255, 256, 8191, 8192, 16383, 16384, 1<<20-1, 1<<20, 1<<21-1, 1<<21, 1<<27, 1<<28-1, 1<<28, math.MaxInt32, math.MinInt32, math.MinInt32+1, -1, -2, -64, -65, -128, -129, -8193, -1<<20-1, -1<<27-1)
	case Sint32, Sfixed32:
		switch l {
		case L0:
			return s32(0, -1)
		case L1:
			return s32(0, 1, -1, 63, 64, -64, -65, math.MaxInt32, math.MinInt32)
		}
		return s32(0, 1, 2, -1, -2, 63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, -8192, -8193, 1<<20-1, 1<<20, -1<<20, -1<<20-1, 1<<27-1, 1<<27, -1<<27, -1<<27-1, 1<<30, -1<<30-1, math.MaxInt32, math.MinInt32, 0x01020304)
	case Uint32, Fixed32:
		switch l {
		case L0:
			return u(0, 300)
		case L1:
			return u(0, 1, 127, 128, 1<<31, math.MaxUint32)
		}
		return u(0, 1, 2, 127, 128, 129, 255, 256, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1, 1<<28, 1<<31-1, 1<<31, math.MaxUint32-1, math.MaxUint32, 0x01020304)
	case Int64:
		switch l {
		case L0:
			return s64(0, -1)
		case L1:
			return s64(0, 1, -1, 128, math.MaxInt64, math.MinInt64, 1<<32)
		}
		o := s64(0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<31, 1<<32, -1<<31-1, 0x0102030405060708)
		for i := 7; i < 63; i += 7 {
			o = append(o, s64(1<<i-1, 1<<i, -(1<<i), -(1<<i)-1)...)
		}
		return o
	case Sint64, Sfixed64:
		switch l {
		case L0:
			return s64(0, -1)
		case L1:
			return s64(0, 1, -1, 64, -65, math.MaxInt64, math.MinInt64, 1<<32)
		}
		o := s64(0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1<<31, 1<<32, -1<<31-1, 0x0102030405060708)
		for i := 6; i < 63; i += 7 {
			o = append(o, s64(1<<i-1, 1<<i, -(1<<i), -(1<<i)-1)...)
		}
		return o
	case Uint64, Fixed64:
		switch l {
		case L0:
			return u(0, 300)
		case L1:
			return u(0, 1, 128, 1<<32, 1<<63, math.MaxUint64)
		}
		o := u(0, 1, math.MaxUint32, 1<<32, math.MaxUint64, math.MaxUint64-1, 0x0102030405060708)
		for i := 7; i < 64; i += 7 {
			o = append(o, u(1<<i-1, 1<<i, 1<<i+1)...)
		}
		return o
	case Float:
		switch l {
		case L0:
			return u(0, f32(1.5))
		case L1:
			return u(0, f32(1), 0x80000000, 0x7fc00000, f32(float32(math.Inf(-1))))
		}
		return u(0, f32(1), f32(-1), f32(1.5), 0x80000000, 0x7fc00000, 0x7fc00001, 0x7f800000, 0xff800000, 1, 0x7f7fffff, 0x00800000, 0x01020304)
	case Double:
		switch l {
		case L0:
			return u(0, f64(1.5))
		case L1:
			return u(0, f64(1), 1<<63, 0x7ff8000000000000, f64(math.Inf(-1)))
		}
		return u(0, f64(1), f64(-1), f64(1.5), 1<<63, 0x7ff8000000000001, 0x7ff0000000000000, 0xfff0000000000000, 1, 0x7fefffffffffffff, 0x0010000000000000, 0x0102030405060708, 1<<32)
	case Bool:
		return u(0, 1)
	case String, Bytes:
		switch l {
		case L0:
			return []any{"", "ab"}
		case L1:
			return []any{"", "a", "\x00", "abc\xff\xfe", strings.Repeat("x", 128)}
		}
		return []any{"", "a", "\x00", "\x00\x00", "\x80", "\xff\xff\xff", "h\u00e9llo", "\u4e16\u754c", "\U0001F600", "abc\xc3", "0123456", "01234567", "012345678",
			strings.Repeat("m", 31), strings.Repeat("m", 32), strings.Repeat("m", 33), strings.Repeat("n", 126), strings.Repeat("n", 127), strings.Repeat("n", 128), strings.Repeat("n", 129), strings.Repeat("q", 255), strings.Repeat("q", 256), strings.Repeat("o", 1023), strings.Repeat("o", 1024), strings.Repeat("o", 1025), strings.Repeat("p", 4095), strings.Repeat("p", 4096), strings.Repeat("p", 4097)}
	}
	panic("Values")
}

// MsgVals is a small alphabet of values of a message schema: empty first, then
// each field alone with L0/L1 values, then all fields together.
func MsgVals(s *Schema, l Level, depth int) []any {
	out := []any{NewVal()}
	all := NewVal()
	for _, f := range s.Fields {
		vs := FieldVals(f, L0, depth-1)
		n := 0
		for _, x := range vs {
			if x == nil {
				continue
			}
			v := NewVal()
			v.F[f.Num] = x
			if l > L0 || n == 0 {
				out = append(out, v)
			}
			if f.Card != Oneof || !hasAny(all, f.Siblings) {
				all.F[f.Num] = x
			}
			n++
		}
	}
	if s.Unk != UnkNone {
		v := NewVal()
		v.Unk = []byte{0xf8, 0x3f, 0x05}
		out = append(out, v)
		all.Unk = []byte{0xf8, 0x3f, 0x07}
	}
	if l == L0 && len(out) > 3 {
		out = out[:3]
	}
	return append(out, all)
}

func hasAny(v *Val, ns []int32) bool {
	for _, n := range ns {
		if _, ok := v.F[n]; ok {
			return true
		}
	}
	return false
}

// ElemVals is the alphabet of one element of a field (list element, map value, singular payload).
func ElemVals(f *Field, l Level, depth int) []any {
	if f.Kind == Message {
		if depth <= 0 {
			return []any{NewVal()}
		}
		return MsgVals(f.Msg, l, depth)
	}
	return Values(f.Kind, l)
}

// FieldVals enumerates values for a field; nil means absent.
func FieldVals(f *Field, l Level, depth int) []any {
	switch f.Card {
	case Implicit:
		if f.Kind == Message {
			return append([]any{nil}, ElemVals(f, l, depth)...)
		}
		return ElemVals(f, l, depth)
	case Explicit, Required, Oneof:
		return append([]any{nil}, ElemVals(f, l, depth)...)
	case Repeated, Packed:
		return listVals(f, l, depth)
	case Map:
		return mapVals(f, l, depth)
	}
	panic("FieldVals")
}

func cyc(vs []any, n int) []any {
	o := make([]any, n)
	for i := range o {
		o[i] = vs[i%len(vs)]
	}
	return o
}

func listVals(f *Field, l Level, depth int) []any {
	out := []any{nil}
	e := ElemVals(f, l, depth)
	if f.Kind == Message && !f.NoPtr {
		e = append([]any{NilMsg}, e...)
	}
	for _, x := range e {
		out = append(out, []any{x})
	}
	if l == L0 {
		return append(out, []any{e[0], e[len(e)-1], e[0]})
	}
	e1 := ElemVals(f, L1, depth)
	if l == L1 {
		e1 = ElemVals(f, L0, depth)
	}
	for _, x := range e1 {
		for _, y := range e1 {
			out = append(out, []any{x, y})
		}
	}
	if l == L1 {
		for _, n := range []int{8, 9, 17} {
			out = append(out, cyc(e, n))
		}
		return out
	}
	e0 := ElemVals(f, L0, depth)
	for _, x := range e0 {
		for _, y := range e0 {
			for _, z := range e0 {
				out = append(out, []any{x, y, z})
			}
		}
	}
	for _, n := range []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 300} {
		out = append(out, cyc(e, n), cyc(e[:1], n), cyc(e[len(e)-1:], n))
	}
	return out
}

func mapVals(f *Field, l Level, depth int) []any {
	out := []any{nil}
	k := Values(f.Key, l)
	v := ElemVals(f, l, depth)
	if f.Kind == Message && !f.NoPtr {
		v = append([]any{NilMsg}, v...)
	}
	k0 := Values(f.Key, L0)
	v0 := ElemVals(f, L0, depth)
	if l == L0 {
		out = append(out, map[any]any{k[0]: v[len(v)-1]}, map[any]any{k[0]: v[0], k[1]: v[len(v)-1]})
		return out
	}
	for _, x := range k {
		for _, y := range v0 {
			out = append(out, map[any]any{x: y})
		}
	}
	for _, x := range k0 {
		for _, y := range v {
			out = append(out, map[any]any{x: y})
		}
	}
	if l == L1 {
		out = append(out, map[any]any{k[0]: v[0], k[len(k)-1]: v[len(v)-1]})
		return out
	}
	k1 := Values(f.Key, L1)
	for i := range k1 {
		for j := i + 1; j < len(k1); j++ {
			out = append(out, map[any]any{k1[i]: v0[0], k1[j]: v0[len(v0)-1]}, map[any]any{k1[i]: v0[len(v0)-1], k1[j]: v0[0]})
		}
	}
	for _, n := range []int{3, 7, 8, 9, 16, 17, 40} {
		m := map[any]any{}
		for i := 0; i < n && i < len(k); i++ {
			m[k[i]] = v[i%len(v)]
		}
		out = append(out, m)
	}
	return out
}
