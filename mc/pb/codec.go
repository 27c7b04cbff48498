package pb

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"
)

// MaxFieldNum is the largest legal field number.
const MaxFieldNum = 1<<29 - 1

func AppendVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// AppendVarintPad appends v as a (possibly non-minimal) varint of exactly n bytes.
func AppendVarintPad(b []byte, v uint64, n int) []byte {
	for i := 0; i < n-1; i++ {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func AppendTag(b []byte, num int32, wire int) []byte {
	return AppendVarint(b, uint64(num)<<3|uint64(wire))
}

func AppendLen(b []byte, p []byte) []byte {
	b = AppendVarint(b, uint64(len(p)))
	return append(b, p...)
}

func appendF32(b []byte, v uint32) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}
func appendF64(b []byte, v uint64) []byte {
	return appendF32(appendF32(b, uint32(v)), uint32(v>>32))
}

// AppendScalar appends the payload of a scalar (no tag).
func AppendScalar(b []byte, k Kind, x any) []byte {
	switch k {
	case Int32, Enum:
		return AppendVarint(b, uint64(int64(int32(x.(uint64)))))
	case Int64, Uint64:
		return AppendVarint(b, x.(uint64))
	case Uint32:
		return AppendVarint(b, uint64(uint32(x.(uint64))))
	case Sint32:
		v := int32(x.(uint64))
		return AppendVarint(b, uint64(uint32(v<<1)^uint32(v>>31)))
	case Sint64:
		v := int64(x.(uint64))
		return AppendVarint(b, uint64(v<<1)^uint64(v>>63))
	case Fixed32, Sfixed32, Float:
		return appendF32(b, uint32(x.(uint64)))
	case Fixed64, Sfixed64, Double:
		return appendF64(b, x.(uint64))
	case Bool:
		return AppendVarint(b, x.(uint64))
	case String, Bytes:
		return AppendLen(b, []byte(x.(string)))
	}
	panic("AppendScalar")
}

func appendElem(b []byte, f *Field, num int32, x any) []byte {
	b = AppendTag(b, num, f.Kind.Wire())
	if f.Kind == Message {
		return AppendLen(b, Encode(f.Msg, asMsg(x)))
	}
	return AppendScalar(b, f.Kind, x)
}

// Encode is the reference encoder: fields by number, map entries in sorted
// payload order, unknown bytes last.
func Encode(s *Schema, v *Val) []byte {
	var b []byte
	for _, f := range s.Fields {
		x, ok := v.F[f.Num]
		if !ok {
			continue
		}
		switch f.Card {
		case Implicit:
			if f.Kind != Message && IsZero(x) {
				continue
			}
			b = appendElem(b, f, f.Num, x)
		case Repeated:
			for _, e := range x.([]any) {
				b = appendElem(b, f, f.Num, e)
			}
		case Packed:
			l := x.([]any)
			if len(l) == 0 {
				continue
			}
			var p []byte
			for _, e := range l {
				p = AppendScalar(p, f.Kind, e)
			}
			b = AppendTag(b, f.Num, WBytes)
			b = AppendLen(b, p)
		case Map:
			var es [][]byte
			for k, e := range x.(map[any]any) {
				p := AppendTag(nil, 1, f.Key.Wire())
				p = AppendScalar(p, f.Key, k)
				p = appendElem(p, f, 2, e)
				r := AppendTag(nil, f.Num, WBytes)
				es = append(es, AppendLen(r, p))
			}
			sort.Slice(es, func(i, j int) bool { return bytes.Compare(es[i], es[j]) < 0 })
			for _, e := range es {
				b = append(b, e...)
			}
		default:
			b = appendElem(b, f, f.Num, x)
		}
	}
	return append(b, v.Unk...)
}

var (
	ErrTrunc    = errors.New("truncated")
	ErrVarint   = errors.New("varint overflow")
	ErrNum      = errors.New("invalid field number")
	ErrWire     = errors.New("invalid wire type")
	ErrGroup    = errors.New("mismatched end group")
	ErrDepth    = errors.New("too deep")
	ErrMismatch = errors.New("known field with incompatible wire type")
)

// Varint decodes a varint; n==0 means error.
func Varint(b []byte) (v uint64, n int, err error) {
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, 0, ErrTrunc
		}
		c := b[i]
		if i == 9 && c > 1 {
			return 0, 0, ErrVarint
		}
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			return v, i + 1, nil
		}
	}
	return 0, 0, ErrVarint
}

// Tag decodes a field tag.
func Tag(b []byte) (num int32, wire int, n int, err error) {
	v, n, err := Varint(b)
	if err != nil {
		return 0, 0, 0, err
	}
	if v>>3 == 0 || v>>3 > MaxFieldNum {
		return 0, 0, 0, ErrNum
	}
	return int32(v >> 3), int(v & 7), n, nil
}

// groupTag is Tag inside a skipped group, where like in the official library
// numbers up to 2^31-1 pass.
func groupTag(b []byte) (num int32, wire int, n int, err error) {
	v, n, err := Varint(b)
	if err != nil {
		return 0, 0, 0, err
	}
	if v>>3 == 0 || v>>3 > math.MaxInt32 {
		return 0, 0, 0, ErrNum
	}
	return int32(v >> 3), int(v & 7), n, nil
}

// Skip returns the length of the value of wire type w (number num for groups).
func Skip(b []byte, num int32, w int, depth int) (int, error) {
	switch w {
	case WVarint:
		_, n, err := Varint(b)
		return n, err
	case WF32:
		if len(b) < 4 {
			return 0, ErrTrunc
		}
		return 4, nil
	case WF64:
		if len(b) < 8 {
			return 0, ErrTrunc
		}
		return 8, nil
	case WBytes:
		l, n, err := Varint(b)
		if err != nil {
			return 0, err
		}
		if l > uint64(len(b)-n) {
			return 0, ErrTrunc
		}
		return n + int(l), nil
	case WSGroup:
		if depth <= 0 {
			return 0, ErrDepth
		}
		i := 0
		for {
			nn, ww, n, err := groupTag(b[i:])
			if err != nil {
				return 0, err
			}
			i += n
			if ww == WEGroup {
				if nn != num {
					return 0, ErrGroup
				}
				return i, nil
			}
			n, err = Skip(b[i:], nn, ww, depth-1)
			if err != nil {
				return 0, err
			}
			i += n
		}
	case WEGroup:
		return 0, ErrGroup
	}
	return 0, ErrWire
}

// GroupDepth is how deeply nested unknown groups may be in the model (explorations stay below it).
const GroupDepth = 10000

func scalarFrom(k Kind, b []byte) (x any, n int, err error) {
	switch k.Wire() {
	case WVarint:
		v, n, err := Varint(b)
		if err != nil {
			return nil, 0, err
		}
		switch k {
		case Int32, Enum:
			v = uint64(int64(int32(v)))
		case Uint32:
			v = uint64(uint32(v))
		case Sint32:
			u := uint32(v)
			v = uint64(int64(int32(u>>1) ^ -int32(u&1)))
		case Sint64:
			v = uint64(int64(v>>1) ^ -int64(v&1))
		case Bool:
			if v != 0 {
				v = 1
			}
		}
		return v, n, nil
	case WF32:
		if len(b) < 4 {
			return nil, 0, ErrTrunc
		}
		u := uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
		if k == Sfixed32 {
			return uint64(int64(int32(u))), 4, nil
		}
		return uint64(u), 4, nil
	case WF64:
		if len(b) < 8 {
			return nil, 0, ErrTrunc
		}
		lo := uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24
		hi := uint64(b[4]) | uint64(b[5])<<8 | uint64(b[6])<<16 | uint64(b[7])<<24
		return lo | hi<<32, 8, nil
	case WBytes:
		n, err := Skip(b, 0, WBytes, 0)
		if err != nil {
			return nil, 0, err
		}
		_, h, _ := Varint(b)
		return string(b[h:n]), n, nil
	}
	panic("scalarFrom")
}

func zeroOf(f *Field, k Kind) any {
	switch k {
	case Message:
		return NewVal()
	case String, Bytes:
		return ""
	}
	return uint64(0)
}

// DecodeOpt tunes what the model does where the implementation's documented
// contract differs from the official library.
type DecodeOpt struct {
	// MismatchUnknown: a known field with an incompatible wire type becomes an
	// unknown field (official library); otherwise it is ErrMismatch (this library).
	MismatchUnknown bool
	MaxDepth        int // 0: unlimited
}

// Decode merges b into v following the protobuf specification.
func Decode(s *Schema, b []byte, v *Val, o DecodeOpt) error {
	return decode(s, b, v, o, o.MaxDepth)
}

func decode(s *Schema, b []byte, v *Val, o DecodeOpt, depth int) error {
	if o.MaxDepth > 0 && depth == 0 {
		return ErrDepth
	}
	i := 0
	for i < len(b) {
		num, w, n, err := Tag(b[i:])
		if err != nil {
			return err
		}
		start := i
		i += n
		f := s.Field(num)
		if f != nil && !accepts(f, w) {
			if !o.MismatchUnknown {
				// well-formedness of the value is irrelevant: it is an error either way
				return ErrMismatch
			}
			f = nil
		}
		if f == nil {
			n, err := Skip(b[i:], num, w, GroupDepth)
			if err != nil {
				return err
			}
			i += n
			v.Unk = append(v.Unk, b[start:i]...)
			continue
		}
		n, err = Skip(b[i:], num, w, 0)
		if err != nil {
			return err
		}
		rec := b[i : i+n]
		i += n
		if err := decodeField(f, w, rec, v, o, depth); err != nil {
			return err
		}
	}
	return nil
}

func accepts(f *Field, w int) bool {
	if f.Card == Map {
		return w == WBytes
	}
	if f.Kind.Wire() == w {
		return true
	}
	return w == WBytes && (f.Card == Repeated || f.Card == Packed) && f.Kind.Packable()
}

func payload(rec []byte) []byte {
	_, n, _ := Varint(rec)
	return rec[n:]
}

func decodeField(f *Field, w int, rec []byte, v *Val, o DecodeOpt, depth int) error {
	switch f.Card {
	case Map:
		return decodeEntry(f, payload(rec), v, o, depth)
	case Repeated, Packed:
		l, _ := v.F[f.Num].([]any)
		switch {
		case f.Kind == Message:
			sub := NewVal()
			if err := decode(f.Msg, payload(rec), sub, o, depth-1); err != nil {
				return err
			}
			l = append(l, sub)
		case w == WBytes && f.Kind.Packable():
			p := payload(rec)
			for len(p) > 0 {
				x, n, err := scalarFrom(f.Kind, p)
				if err != nil {
					return err
				}
				l = append(l, x)
				p = p[n:]
			}
			if len(l) == 0 {
				return nil
			}
		default:
			x, _, err := scalarFrom(f.Kind, rec)
			if err != nil {
				return err
			}
			l = append(l, x)
		}
		v.F[f.Num] = l
		return nil
	case Oneof:
		return decodeSingular(f, rec, v, o, depth)
	}
	return decodeSingular(f, rec, v, o, depth)
}

func decodeSingular(f *Field, rec []byte, v *Val, o DecodeOpt, depth int) error {
	if f.Kind == Message {
		sub, _ := v.F[f.Num].(*Val)
		if sub == nil {
			sub = NewVal()
		}
		if err := decode(f.Msg, payload(rec), sub, o, depth-1); err != nil {
			return err
		}
		setSingular(f, sub, v)
		return nil
	}
	x, _, err := scalarFrom(f.Kind, rec)
	if err != nil {
		return err
	}
	if f.Card == Implicit && IsZero(x) {
		delete(v.F, f.Num)
		return nil
	}
	setSingular(f, x, v)
	return nil
}

func setSingular(f *Field, x any, v *Val) {
	if f.Card == Oneof {
		for _, g := range f.Siblings {
			delete(v.F, g)
		}
	}
	v.F[f.Num] = x
}

func decodeEntry(f *Field, b []byte, v *Val, o DecodeOpt, depth int) error {
	key := zeroOf(f, f.Key)
	var val any = zeroOf(f, f.Kind)
	i := 0
	for i < len(b) {
		num, w, n, err := Tag(b[i:])
		if err != nil {
			return err
		}
		i += n
		k := Kind(NKinds)
		switch num {
		case 1:
			k = f.Key
		case 2:
			k = f.Kind
		}
		if k != NKinds && k.Wire() != w {
			if !o.MismatchUnknown {
				return ErrMismatch
			}
			k = NKinds
		}
		n, err = Skip(b[i:], num, w, GroupDepth)
		if err != nil {
			return err
		}
		rec := b[i : i+n]
		i += n
		if k == NKinds {
			continue
		}
		if k == Message {
			if err := decode(f.Msg, payload(rec), val.(*Val), o, depth-1); err != nil {
				return err
			}
			continue
		}
		x, _, err := scalarFrom(k, rec)
		if err != nil {
			return err
		}
		if num == 1 {
			key = x
		} else {
			val = x
		}
	}
	m, _ := v.F[f.Num].(map[any]any)
	if m == nil {
		m = map[any]any{}
	}
	m[key] = val
	v.F[f.Num] = m
	return nil
}

// Canon rewrites an encoding into a canonical one: within each message, runs
// of map entries of one field are sorted; empty by-value singular messages are
// dropped; nested messages are canonicalised recursively. It returns an error if b is not
// well formed for s, uses a non-minimal varint, or has known fields out of order.
func Canon(s *Schema, b []byte) ([]byte, error) {
	type rec struct {
		num int32
		b   []byte
		m   bool
	}
	var recs []rec
	i := 0
	last := int32(0)
	unknown := false
	var tail []byte
	for i < len(b) {
		num, w, n, err := Tag(b[i:])
		if err != nil {
			return nil, err
		}
		f := s.Field(num)
		if f != nil && n != len(AppendTag(nil, num, w)) {
			return nil, fmt.Errorf("non-minimal tag at %d", i)
		}
		if f != nil && !accepts(f, w) {
			return nil, fmt.Errorf("field %d: %w", num, ErrMismatch)
		}
		m, err := Skip(b[i+n:], num, w, GroupDepth)
		if err != nil {
			return nil, err
		}
		body := b[i+n : i+n+m]
		full := b[i : i+n+m]
		i += n + m
		if f == nil {
			unknown = true
			tail = append(tail, full...)
			continue
		}
		if unknown {
			return nil, fmt.Errorf("known field %d after unknown fields", num)
		}
		if num < last {
			return nil, fmt.Errorf("field %d after %d", num, last)
		}
		last = num
		r := rec{num: num, b: full}
		switch {
		case f.Card == Map:
			p, err := canonEntry(f, payload(body))
			if err != nil {
				return nil, err
			}
			r.b = AppendLen(AppendTag(nil, num, WBytes), p)
			r.m = true
		case f.Kind == Message:
			p, err := Canon(f.Msg, payload(body))
			if err != nil {
				return nil, err
			}
			if f.NoPtr && len(p) == 0 && f.Card != Repeated && f.Card != Oneof {
				continue
			}
			r.b = AppendLen(AppendTag(nil, num, WBytes), p)
		}
		if len(AppendVarint(nil, uint64(len(payload(body))))) != len(body)-len(payload(body)) && w == WBytes {
			return nil, fmt.Errorf("non-minimal length for field %d", num)
		}
		recs = append(recs, r)
	}
	for i := 0; i < len(recs); {
		j := i
		for j < len(recs) && recs[j].m && recs[j].num == recs[i].num {
			j++
		}
		if j > i+1 {
			sort.Slice(recs[i:j], func(a, b int) bool { return bytes.Compare(recs[i+a].b, recs[i+b].b) < 0 })
		}
		if j == i {
			j++
		}
		i = j
	}
	var out []byte
	for _, r := range recs {
		out = append(out, r.b...)
	}
	return append(out, tail...), nil
}

func canonEntry(f *Field, b []byte) ([]byte, error) {
	num, w, n, err := Tag(b)
	if err != nil {
		return nil, err
	}
	if num != 1 || w != f.Key.Wire() || n != 1 {
		return nil, fmt.Errorf("map entry does not start with its key: %x", b)
	}
	m, err := Skip(b[n:], 1, w, 0)
	if err != nil {
		return nil, err
	}
	out := append([]byte{}, b[:n+m]...)
	b = b[n+m:]
	num, w, n, err = Tag(b)
	if err != nil {
		return nil, err
	}
	if num != 2 || w != f.Kind.Wire() || n != 1 {
		return nil, fmt.Errorf("map entry key not followed by its value: %x", b)
	}
	m, err = Skip(b[n:], 2, w, 0)
	if err != nil {
		return nil, err
	}
	if n+m != len(b) {
		return nil, fmt.Errorf("trailing bytes in map entry: %x", b)
	}
	if f.Kind == Message {
		p, err := Canon(f.Msg, payload(b[n:]))
		if err != nil {
			return nil, err
		}
		return AppendLen(append(out, b[:n]...), p), nil
	}
	return append(out, b...), nil
}

func f32(v float32) uint64 { return uint64(math.Float32bits(v)) }
func f64(v float64) uint64 { return math.Float64bits(v) }
