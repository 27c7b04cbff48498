package pb

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
)

// Val is a generic message value. F maps field number to:
//
//	scalar numeric  uint64 (see bits), string/bytes: string, message: *Val,
//	list: []any, map: map[any]any. Absent key = not present / empty.
type Val struct {
	F   map[int32]any
	Unk []byte
}

func NewVal() *Val { return &Val{F: map[int32]any{}} }

// NilMsg stands for a nil *M element in a list or map (encodes as an empty message).
type nilMsg struct{}

var NilMsg = nilMsg{}

// Equal compares two values structurally (NilMsg equals an empty message).
func Equal(s *Schema, a, b *Val) bool { return Diff(s, a, b) == "" }

// Diff returns "" if equal, otherwise a description of the first difference.
func Diff(s *Schema, a, b *Val) string {
	for _, f := range s.Fields {
		x, xo := a.F[f.Num]
		y, yo := b.F[f.Num]
		if xo != yo {
			return fmt.Sprintf("field %d (%s): present=%v vs %v (%s vs %s)", f.Num, f, xo, yo, Show(x), Show(y))
		}
		if xo {
			if d := diffAny(f, x, y); d != "" {
				return fmt.Sprintf("field %d (%s): %s", f.Num, f, d)
			}
		}
	}
	if s.Unk != UnkNone && !bytes.Equal(a.Unk, b.Unk) {
		return fmt.Sprintf("unknown fields %x vs %x", a.Unk, b.Unk)
	}
	return ""
}

func asMsg(x any) *Val {
	if _, ok := x.(nilMsg); ok {
		return NewVal()
	}
	return x.(*Val)
}

func diffElem(f *Field, x, y any) string {
	if f.Kind == Message {
		return Diff(f.Msg, asMsg(x), asMsg(y))
	}
	if x != y {
		return fmt.Sprintf("%s vs %s", Show(x), Show(y))
	}
	return ""
}

func diffAny(f *Field, x, y any) string {
	switch f.Card {
	case Repeated, Packed:
		a, b := x.([]any), y.([]any)
		if len(a) != len(b) {
			return fmt.Sprintf("length %d vs %d: %s vs %s", len(a), len(b), Show(x), Show(y))
		}
		for i := range a {
			if d := diffElem(f, a[i], b[i]); d != "" {
				return fmt.Sprintf("[%d] %s", i, d)
			}
		}
		return ""
	case Map:
		a, b := x.(map[any]any), y.(map[any]any)
		if len(a) != len(b) {
			return fmt.Sprintf("map size %d vs %d: %s vs %s", len(a), len(b), Show(x), Show(y))
		}
		for k, v := range a {
			w, ok := b[k]
			if !ok {
				return fmt.Sprintf("key %s missing", Show(k))
			}
			if d := diffElem(f, v, w); d != "" {
				return fmt.Sprintf("[%s] %s", Show(k), d)
			}
		}
		return ""
	}
	return diffElem(f, x, y)
}

// Show renders any model value.
func Show(x any) string {
	switch v := x.(type) {
	case nil:
		return "-"
	case *Val:
		return v.String()
	case nilMsg:
		return "nil{}"
	case string:
		if len(v) > 40 {
			return fmt.Sprintf("%q..(%d)", v[:16], len(v))
		}
		return fmt.Sprintf("%q", v)
	case uint64:
		if v > 1<<62 {
			return fmt.Sprintf("%#x", v)
		}
		return fmt.Sprint(v)
	case []any:
		var b strings.Builder
		b.WriteString("[")
		for i, e := range v {
			if i > 0 {
				b.WriteString(" ")
			}
			if i > 20 {
				fmt.Fprintf(&b, "..(%d)", len(v))
				break
			}
			b.WriteString(Show(e))
		}
		b.WriteString("]")
		return b.String()
	case map[any]any:
		var ss []string
		for k, e := range v {
			ss = append(ss, Show(k)+":"+Show(e))
		}
		sort.Strings(ss)
		if len(ss) > 20 {
			ss = append(ss[:20], fmt.Sprintf("..(%d)", len(v)))
		}
		return "map[" + strings.Join(ss, " ") + "]"
	}
	return fmt.Sprint(x)
}

func (v *Val) String() string {
	var ns []int
	for n := range v.F {
		ns = append(ns, int(n))
	}
	sort.Ints(ns)
	var b strings.Builder
	b.WriteString("{")
	for i, n := range ns {
		if i > 0 {
			b.WriteString(" ")
		}
		fmt.Fprintf(&b, "%d:%s", n, Show(v.F[int32(n)]))
	}
	if len(v.Unk) > 0 {
		fmt.Fprintf(&b, " unk:%x", v.Unk)
	}
	b.WriteString("}")
	return b.String()
}

// IsZero reports whether a scalar model value is the proto zero value.
func IsZero(x any) bool {
	switch v := x.(type) {
	case uint64:
		return v == 0
	case string:
		return v == ""
	}
	return false
}

// ---- Go bridge (reflection only) ----

func goScalar(k Kind, x any, t reflect.Type) reflect.Value {
	rv := reflect.New(t).Elem()
	switch k {
	case Int32, Sint32, Sfixed32, Enum:
		rv.SetInt(int64(int32(x.(uint64))))
	case Int64, Sint64, Sfixed64:
		rv.SetInt(int64(x.(uint64)))
	case Uint32, Fixed32:
		rv.SetUint(uint64(uint32(x.(uint64))))
	case Uint64, Fixed64:
		rv.SetUint(x.(uint64))
	case Float:
		// set by bits: going through float64 could alter a NaN payload
		*(*float32)(rv.Addr().UnsafePointer()) = math.Float32frombits(uint32(x.(uint64)))
	case Double:
		*(*float64)(rv.Addr().UnsafePointer()) = math.Float64frombits(x.(uint64))
	case Bool:
		rv.SetBool(x.(uint64) != 0)
	case String:
		rv.SetString(x.(string))
	case Bytes:
		b := append([]byte{}, x.(string)...)
		rv.SetBytes(b)
	default:
		panic("goScalar")
	}
	return rv
}

func fromScalar(k Kind, rv reflect.Value) any {
	switch k {
	case Int32, Sint32, Sfixed32, Enum, Int64, Sint64, Sfixed64:
		return uint64(rv.Int())
	case Uint32, Fixed32, Uint64, Fixed64:
		return rv.Uint()
	case Float:
		if rv.CanAddr() {
			return uint64(math.Float32bits(*(*float32)(rv.Addr().UnsafePointer())))
		}
		return uint64(math.Float32bits(float32(rv.Float())))
	case Double:
		return math.Float64bits(rv.Float())
	case Bool:
		if rv.CanAddr() { // a bool byte other than 0/1 is a distinct (corrupt) value
			return uint64(*(*byte)(rv.Addr().UnsafePointer()))
		}
		if rv.Bool() {
			return uint64(1)
		}
		return uint64(0)
	case String:
		return strings.Clone(rv.String())
	case Bytes:
		return string(rv.Bytes())
	}
	panic("fromScalar")
}

func goElem(f *Field, x any, t reflect.Type) reflect.Value {
	if f.Kind == Message {
		if _, ok := x.(nilMsg); ok {
			return reflect.Zero(t)
		}
		if t.Kind() == reflect.Pointer {
			p := reflect.New(f.Msg.Go)
			fillGo(f.Msg, x.(*Val), p.Elem())
			return p
		}
		rv := reflect.New(t).Elem()
		fillGo(f.Msg, x.(*Val), rv)
		return rv
	}
	return goScalar(f.Kind, x, t)
}

// ToGo builds a new Go struct pointer holding v.
func ToGo(s *Schema, v *Val) reflect.Value {
	p := reflect.New(s.Go)
	fillGo(s, v, p.Elem())
	return p
}

// NewGo returns a new zero struct pointer.
func NewGo(s *Schema) reflect.Value { return reflect.New(s.Go) }

func fillGo(s *Schema, v *Val, rv reflect.Value) {
	for _, f := range s.Fields {
		x, ok := v.F[f.Num]
		if !ok {
			continue
		}
		g := rv.FieldByIndex(f.Index)
		switch f.Card {
		case Oneof:
			w := reflect.New(f.Wrapper.Elem())
			w.Elem().Field(0).Set(goElem(f, x, w.Elem().Field(0).Type()))
			g.Set(w)
		case Repeated, Packed:
			l := x.([]any)
			sl := reflect.MakeSlice(g.Type(), len(l), len(l))
			for i, e := range l {
				sl.Index(i).Set(goElem(f, e, g.Type().Elem()))
			}
			g.Set(sl)
		case Map:
			m := x.(map[any]any)
			gm := reflect.MakeMapWithSize(g.Type(), len(m))
			for k, e := range m {
				gm.SetMapIndex(goScalar(f.Key, k, g.Type().Key()), goElem(f, e, g.Type().Elem()))
			}
			g.Set(gm)
		default:
			if f.Kind == Message {
				g.Set(goElem(f, x, g.Type()))
			} else if g.Kind() == reflect.Pointer {
				p := reflect.New(g.Type().Elem())
				p.Elem().Set(goScalar(f.Kind, x, g.Type().Elem()))
				g.Set(p)
			} else {
				g.Set(goScalar(f.Kind, x, g.Type()))
			}
		}
	}
	if s.unkIdx >= 0 && len(v.Unk) > 0 {
		u := unkPtr(s, rv)
		b := append([]byte{}, v.Unk...)
		if u.Kind() == reflect.Pointer {
			u.Set(reflect.ValueOf(&b))
		} else {
			u.SetBytes(b)
		}
	}
}

func fromElem(f *Field, rv reflect.Value) any {
	if f.Kind == Message {
		if rv.Kind() == reflect.Pointer {
			if rv.IsNil() {
				return NilMsg
			}
			rv = rv.Elem()
		}
		return readGo(f.Msg, rv)
	}
	return fromScalar(f.Kind, rv)
}

// FromGoValue reads a Go struct pointer back into the model.
func FromGoValue(s *Schema, p reflect.Value) *Val { return readGo(s, p.Elem()) }

func readGo(s *Schema, rv reflect.Value) *Val {
	if !rv.CanAddr() { // a by-value map element
		c := reflect.New(rv.Type()).Elem()
		c.Set(rv)
		rv = c
	}
	v := NewVal()
	for _, f := range s.Fields {
		g := rv.FieldByIndex(f.Index)
		switch f.Card {
		case Oneof:
			if g.IsNil() || g.Elem().Type() != f.Wrapper {
				continue
			}
			w := g.Elem()
			if w.IsNil() {
				continue
			}
			e := w.Elem().Field(0)
			if f.Kind == Message && e.Kind() == reflect.Pointer && e.IsNil() {
				continue
			}
			v.F[f.Num] = fromElem(f, e)
		case Repeated, Packed:
			if g.Len() == 0 {
				continue
			}
			l := make([]any, g.Len())
			for i := range l {
				l[i] = fromElem(f, g.Index(i))
			}
			v.F[f.Num] = l
		case Map:
			if g.Len() == 0 {
				continue
			}
			m := make(map[any]any, g.Len())
			it := g.MapRange()
			for it.Next() {
				m[fromScalar(f.Key, it.Key())] = fromElem(f, it.Value())
			}
			v.F[f.Num] = m
		default:
			if f.Kind == Message {
				if f.NoPtr {
					// a by-value message has no presence: normalise to absent when empty
					sub := readGo(f.Msg, g)
					if !emptyVal(sub) {
						v.F[f.Num] = sub
					}
					continue
				}
				if !g.IsNil() {
					v.F[f.Num] = readGo(f.Msg, g.Elem())
				}
				continue
			}
			if g.Kind() == reflect.Pointer {
				if !g.IsNil() {
					v.F[f.Num] = fromScalar(f.Kind, g.Elem())
				}
				continue
			}
			if f.Kind == Bytes && (f.Card == Explicit || f.Card == Required) {
				if !g.IsNil() {
					v.F[f.Num] = string(g.Bytes())
				}
				continue
			}
			x := fromScalar(f.Kind, g)
			if !IsZero(x) {
				v.F[f.Num] = x
			}
		}
	}
	if s.unkIdx >= 0 {
		u := unkPtr(s, rv)
		if u.Kind() == reflect.Pointer {
			if !u.IsNil() {
				v.Unk = append([]byte(nil), u.Elem().Bytes()...)
			}
		} else {
			v.Unk = append([]byte(nil), u.Bytes()...)
		}
	}
	return v
}

func emptyVal(v *Val) bool { return len(v.F) == 0 && len(v.Unk) == 0 }

// Norm normalises a model value to what the Go representation can hold:
// implicit zero scalars absent, empty lists/maps absent, empty by-value messages absent.
func Norm(s *Schema, v *Val) *Val {
	o := NewVal()
	if s.Unk != UnkNone {
		o.Unk = append([]byte(nil), v.Unk...)
	}
	ne := func(f *Field, x any) any {
		if f.Kind == Message {
			return Norm(f.Msg, asMsg(x))
		}
		return x
	}
	for _, f := range s.Fields {
		x, ok := v.F[f.Num]
		if !ok {
			continue
		}
		switch f.Card {
		case Repeated, Packed:
			l := x.([]any)
			if len(l) == 0 {
				continue
			}
			n := make([]any, len(l))
			for i := range l {
				n[i] = ne(f, l[i])
			}
			o.F[f.Num] = n
		case Map:
			m := x.(map[any]any)
			if len(m) == 0 {
				continue
			}
			n := make(map[any]any, len(m))
			for k, e := range m {
				n[k] = ne(f, e)
			}
			o.F[f.Num] = n
		case Implicit:
			if f.Kind != Message && IsZero(x) {
				continue
			}
			fallthrough
		default:
			n := ne(f, x)
			if f.Kind == Message && f.NoPtr && f.Card != Oneof && emptyVal(n.(*Val)) {
				continue
			}
			o.F[f.Num] = n
		}
	}
	return o
}

// Clone deep-copies.
func Clone(v *Val) *Val {
	o := NewVal()
	o.Unk = append([]byte(nil), v.Unk...)
	for n, x := range v.F {
		o.F[n] = cloneAny(x)
	}
	return o
}

func cloneAny(x any) any {
	switch t := x.(type) {
	case *Val:
		return Clone(t)
	case []any:
		n := make([]any, len(t))
		for i := range t {
			n[i] = cloneAny(t[i])
		}
		return n
	case map[any]any:
		n := make(map[any]any, len(t))
		for k, e := range t {
			n[k] = cloneAny(e)
		}
		return n
	}
	return x
}
