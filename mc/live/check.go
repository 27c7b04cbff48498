package live

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"verif/mc/core"

	"github.com/cloudwego/prutal"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// ---- values

func scalarAlts(fd protoreflect.FieldDescriptor, small bool) (out []protoreflect.Value) {
	add := func(vs ...any) {
		for _, v := range vs {
			out = append(out, protoreflect.ValueOf(v))
		}
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		add(true, false)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		add(int32(-1), int32(0), int32(math.MaxInt32), int32(1), int32(math.MinInt32), int32(127), int32(128))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		add(uint32(1), uint32(0), uint32(math.MaxUint32), uint32(128))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		add(int64(-1), int64(0), int64(math.MaxInt64), int64(1), int64(math.MinInt64), int64(1)<<32)
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		add(uint64(1), uint64(0), uint64(math.MaxUint64), uint64(1)<<32)
	case protoreflect.FloatKind:
		add(float32(1.5), float32(0), float32(math.Copysign(0, -1)), float32(math.Inf(-1)), float32(math.NaN()))
	case protoreflect.DoubleKind:
		add(1.5, 0.0, math.Copysign(0, -1), math.Inf(-1), math.NaN())
	case protoreflect.StringKind:
		add("a", "", "h\u00e9\x00", strings.Repeat("x", 128))
	case protoreflect.BytesKind:
		add([]byte("\xff\x00"), []byte{}, bytes.Repeat([]byte("y"), 128))
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		seen := map[protoreflect.EnumNumber]bool{}
		for i := vs.Len() - 1; i >= 0; i-- {
			if n := vs.Get(i).Number(); !seen[n] {
				seen[n] = true
				add(n)
			}
		}
		if !fd.Enum().IsClosed() {
			add(protoreflect.EnumNumber(77))
		}
	}
	if small && len(out) > 2 {
		out = out[:2]
	}
	return
}

// fill sets every field of a nested message, to the given depth.
func fill(m protoreflect.Message, depth int) {
	fds := m.Descriptor().Fields()
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		if fd.Message() != nil && depth == 0 && fd.Cardinality() != protoreflect.Required {
			continue
		}
		a := alts(fd, true, depth-1)
		a[len(a)-1](m)
	}
}

type setter func(m protoreflect.Message)

// lost: empty bytes in a field with explicit presence, see C01 and C02.
func lost(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
	return fd.Kind() == protoreflect.BytesKind && fd.HasPresence() && (fd.ContainingOneof() == nil || fd.ContainingOneof().IsSynthetic()) && len(v.Bytes()) == 0
}

// alts lists what a field may be set to; the first is to leave it alone.
func alts(fd protoreflect.FieldDescriptor, small bool, depth int) (out []setter) {
	out = append(out, func(protoreflect.Message) {})
	elems := func(fd protoreflect.FieldDescriptor) (e []func(nu func() protoreflect.Value) protoreflect.Value) {
		if fd.Message() == nil {
			for _, v := range scalarAlts(fd, small) {
				v := v
				e = append(e, func(func() protoreflect.Value) protoreflect.Value { return v })
			}
			return
		}
		e = append(e, func(nu func() protoreflect.Value) protoreflect.Value { return nu() },
			func(nu func() protoreflect.Value) protoreflect.Value {
				v := nu()
				if depth >= 0 {
					fill(v.Message(), depth)
				}
				return v
			})
		return
	}
	switch {
	case fd.IsMap():
		kfd, vfd := fd.MapKey(), fd.MapValue()
		ks := scalarAlts(kfd, small)
		vs := elems(vfd)
		put := func(m protoreflect.Message, k protoreflect.Value, v func(func() protoreflect.Value) protoreflect.Value) {
			mp := m.Mutable(fd).Map()
			mp.Set(k.MapKey(), v(mp.NewValue))
		}
		for ki := range ks {
			for vi := range vs {
				ki, vi := ki, vi
				out = append(out, func(m protoreflect.Message) { put(m, ks[ki], vs[vi]) })
			}
		}
		out = append(out, func(m protoreflect.Message) {
			for ki := range ks {
				put(m, ks[ki], vs[ki%len(vs)])
			}
		})
	case fd.IsList():
		vs := elems(fd)
		add := func(idx ...int) {
			out = append(out, func(m protoreflect.Message) {
				l := m.Mutable(fd).List()
				for _, i := range idx {
					l.Append(vs[i](l.NewElement))
				}
			})
		}
		var all []int
		for i := range vs {
			add(i)
			add(i, 0)
			all = append(all, i)
		}
		add(append(all, all...)...)
	default:
		for _, e := range elems(fd) {
			e := e
			if fd.Message() == nil && lost(fd, e(nil)) {
				continue
			}
			out = append(out, func(m protoreflect.Message) {
				m.Set(fd, e(func() protoreflect.Value { return m.NewField(fd) }))
			})
		}
	}
	if fd.Cardinality() == protoreflect.Required {
		out = out[1:]
	}
	return
}

// states enumerates the contents of a message: all values of a single field,
// all combinations of a few values of several.
func states(md protoreflect.MessageDescriptor) (n int, set func(i int, m protoreflect.Message)) {
	var groups [][]setter
	fds := md.Fields()
	small := fds.Len() > 1
	seen := map[protoreflect.OneofDescriptor]int{}
	for i := 0; i < fds.Len(); i++ {
		fd := fds.Get(i)
		a := alts(fd, small, 1)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			if k, ok := seen[o]; ok {
				groups[k] = append(groups[k], a[1:]...)
				continue
			}
			seen[o] = len(groups)
		}
		groups = append(groups, a)
	}
	n = 1
	for _, g := range groups {
		n *= len(g)
	}
	return n, func(i int, m protoreflect.Message) {
		for _, g := range groups {
			g[i%len(g)](m)
			i /= len(g)
		}
	}
}

// ---- generated struct <-> protoreflect

func tagName(f reflect.StructField) string {
	for _, p := range strings.Split(f.Tag.Get("protobuf"), ",") {
		if strings.HasPrefix(p, "name=") {
			return p[5:]
		}
	}
	return ""
}

func wrappers(pv reflect.Value) []any {
	if w, ok := pv.Addr().Interface().(interface{ XXX_OneofWrappers() []interface{} }); ok {
		return w.XXX_OneofWrappers()
	}
	return nil
}

// unknownOf returns the storage for unknown fields in a struct of prutalgen, or nil.
func unknownOf(pv reflect.Value) *[]byte {
	if f := pv.FieldByName("unknownFields"); f.IsValid() && f.Type() == reflect.TypeOf([]byte(nil)) {
		return (*[]byte)(f.Addr().UnsafePointer())
	}
	return nil
}

func toStruct(m protoreflect.Message, pv reflect.Value) {
	t := pv.Type()
	if u := m.GetUnknown(); len(u) > 0 {
		*unknownOf(pv) = append([]byte{}, u...)
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		name := string(fd.Name())
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			for _, w := range wrappers(pv) {
				wt := reflect.TypeOf(w).Elem()
				if tagName(wt.Field(0)) != name {
					continue
				}
				x := reflect.New(wt)
				setGo(x.Elem().Field(0), fd, v)
				for i := 0; i < t.NumField(); i++ {
					if t.Field(i).Tag.Get("protobuf_oneof") == string(o.Name()) {
						pv.Field(i).Set(x)
						return true
					}
				}
				panic("no oneof field " + string(o.Name()))
			}
			panic("no wrapper of " + name)
		}
		for i := 0; i < t.NumField(); i++ {
			if tagName(t.Field(i)) == name {
				setGo(pv.Field(i), fd, v)
				return true
			}
		}
		panic("no field " + name)
	})
}

func setGo(dst reflect.Value, fd protoreflect.FieldDescriptor, v protoreflect.Value) {
	switch {
	case fd.IsMap():
		mp := reflect.MakeMap(dst.Type())
		v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
			kv := reflect.New(dst.Type().Key()).Elem()
			ev := reflect.New(dst.Type().Elem()).Elem()
			setOne(kv, k.Value())
			setOne(ev, e)
			mp.SetMapIndex(kv, ev)
			return true
		})
		dst.Set(mp)
	case fd.IsList():
		l := v.List()
		s := reflect.MakeSlice(dst.Type(), l.Len(), l.Len())
		for i := 0; i < l.Len(); i++ {
			setOne(s.Index(i), l.Get(i))
		}
		dst.Set(s)
	default:
		setOne(dst, v)
	}
}

func setOne(dst reflect.Value, v protoreflect.Value) {
	if m, ok := v.Interface().(protoreflect.Message); ok {
		if reflect.TypeOf(m.Interface()) == dst.Type() { // a well-known type
			dst.Set(reflect.ValueOf(m.Interface()))
			return
		}
		if dst.Kind() == reflect.Struct { // no_pointer
			if o, ok := dst.Addr().Interface().(proto.Message); ok {
				proto.Merge(o, m.Interface())
			} else {
				toStruct(m, dst)
			}
			return
		}
		dst.Set(reflect.New(dst.Type().Elem()))
		toStruct(m, dst.Elem())
		return
	}
	if dst.Kind() == reflect.Ptr {
		dst.Set(reflect.New(dst.Type().Elem()))
		dst = dst.Elem()
	}
	switch x := v.Interface().(type) {
	case bool:
		dst.SetBool(x)
	case int32, int64:
		dst.SetInt(v.Int())
	case uint32, uint64:
		dst.SetUint(v.Uint())
	case float32, float64:
		dst.SetFloat(v.Float())
		if dst.Kind() == reflect.Float32 { // keep NaN bits as they are
			dst.Set(reflect.ValueOf(x).Convert(dst.Type()))
		}
	case string:
		dst.SetString(x)
	case []byte:
		dst.SetBytes(append([]byte{}, x...))
	case protoreflect.EnumNumber:
		dst.SetInt(int64(x))
	default:
		panic(fmt.Sprintf("%T", x))
	}
}

// fromStruct is the inverse of toStruct.
func fromStruct(pv reflect.Value, m protoreflect.Message) {
	t := pv.Type()
	if u := unknownOf(pv); u != nil {
		m.SetUnknown(append([]byte{}, *u...))
	}
	for i := 0; i < t.NumField(); i++ {
		f := pv.Field(i)
		if t.Field(i).Tag.Get("protobuf_oneof") != "" {
			if !f.IsNil() {
				w := f.Elem().Elem()
				fd := m.Descriptor().Fields().ByName(protoreflect.Name(tagName(w.Type().Field(0))))
				m.Set(fd, getGo(w.Field(0), fd, m))
			}
			continue
		}
		n := tagName(t.Field(i))
		if n == "" {
			continue
		}
		fd := m.Descriptor().Fields().ByName(protoreflect.Name(n))
		switch f.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			if f.IsNil() {
				continue
			}
		}
		m.Set(fd, getGo(f, fd, m))
	}
}

func getGo(f reflect.Value, fd protoreflect.FieldDescriptor, m protoreflect.Message) protoreflect.Value {
	switch {
	case fd.IsMap():
		mp := m.NewField(fd).Map()
		for _, k := range f.MapKeys() {
			mp.Set(getOne(k, fd.MapKey(), nil).MapKey(), getOne(f.MapIndex(k), fd.MapValue(), mp.NewValue))
		}
		return protoreflect.ValueOfMap(mp)
	case fd.IsList():
		l := m.NewField(fd).List()
		for i := 0; i < f.Len(); i++ {
			l.Append(getOne(f.Index(i), fd, l.NewElement))
		}
		return protoreflect.ValueOfList(l)
	}
	return getOne(f, fd, func() protoreflect.Value { return m.NewField(fd) })
}

func getOne(f reflect.Value, fd protoreflect.FieldDescriptor, nu func() protoreflect.Value) protoreflect.Value {
	if fd.Message() != nil {
		if f.Kind() == reflect.Struct { // no_pointer
			x := reflect.New(f.Type())
			x.Elem().Set(f)
			f = x
		}
		if x, ok := f.Interface().(proto.Message); ok {
			return protoreflect.ValueOfMessage(x.ProtoReflect())
		}
		v := nu()
		if f.IsNil() {
			panic("nil message in a list or map")
		}
		fromStruct(f.Elem(), v.Message())
		return v
	}
	if f.Kind() == reflect.Ptr {
		f = f.Elem()
	}
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return protoreflect.ValueOf(f.Bool())
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOf(int32(f.Int()))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOf(f.Int())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOf(uint32(f.Uint()))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOf(f.Uint())
	case protoreflect.FloatKind:
		return protoreflect.ValueOf(float32(f.Float()))
	case protoreflect.DoubleKind:
		return protoreflect.ValueOf(f.Float())
	case protoreflect.StringKind:
		return protoreflect.ValueOf(f.String())
	case protoreflect.BytesKind:
		return protoreflect.ValueOf(append([]byte{}, f.Bytes()...))
	case protoreflect.EnumKind:
		return protoreflect.ValueOf(protoreflect.EnumNumber(f.Int()))
	}
	panic(fd.Kind())
}

// canon renders a message, field or getter result of either form alike.
func canon(v reflect.Value) string { return canonOf(v, false) }

// canonV makes no difference between a pointer and what it points to, nor
// between nil and zero.
func canonV(v reflect.Value) string { return canonOf(v, true) }

func canonOf(v reflect.Value, values bool) string {
	canon := func(v reflect.Value) string { return canonOf(v, values) }
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return canon(v.Elem())
	case reflect.Ptr:
		if values && v.IsNil() {
			return canon(reflect.Zero(v.Type().Elem()))
		}
		if values {
			return canon(v.Elem())
		}
		if v.IsNil() {
			return "nil"
		}
		return "&" + canon(v.Elem())
	case reflect.Struct:
		s := "{"
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if n := tagName(t.Field(i)); n != "" {
				s += n + ":" + canon(v.Field(i)) + " "
			} else if n := t.Field(i).Tag.Get("protobuf_oneof"); n != "" {
				s += n + ":" + canon(v.Field(i)) + " "
			}
		}
		return s + "}"
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%v%q", v.IsNil(), v.Bytes())
		}
		s := fmt.Sprintf("%v[", v.IsNil())
		for i := 0; i < v.Len(); i++ {
			s += canon(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			l = append(l, canon(k)+"="+canon(v.MapIndex(k)))
		}
		sort.Strings(l)
		return fmt.Sprintf("%v<%s>", v.IsNil(), strings.Join(l, " "))
	case reflect.Float32:
		return fmt.Sprintf("f%x", math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return fmt.Sprintf("d%x", math.Float64bits(v.Float()))
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%d", v.Int())
	case reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("u%d", v.Uint())
	}
	return "?" + v.Kind().String()
}

// ---- checks

func shapeOf(m Msg) string {
	fds := m.Official().ProtoReflect().Descriptor().Fields()
	var s []string
	for i := 0; i < fds.Len() && i < 3; i++ {
		fd := fds.Get(i)
		k := fd.Kind().String()
		switch {
		case fd.IsMap():
			k = "map " + fd.MapKey().Kind().String() + " " + fd.MapValue().Kind().String()
		case fd.IsList():
			k = "repeated " + k
		}
		s = append(s, k)
	}
	return strings.Join(s, ",")
}

// normal drops what a message without pointers cannot express: the presence of
// singular fields that are zero or empty.
func normal(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, e protoreflect.Value) bool { normal(e.Message()); return true })
			}
		case fd.IsList():
			for i := 0; fd.Message() != nil && i < v.List().Len(); i++ {
				normal(v.List().Get(i).Message())
			}
		default:
			zero := false
			switch {
			case fd.Message() != nil:
				normal(v.Message())
				zero = true
				v.Message().Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool { zero = false; return false })
				zero = zero && len(v.Message().GetUnknown()) == 0
			case fd.Kind() == protoreflect.StringKind:
				zero = v.String() == ""
			case fd.Kind() == protoreflect.BytesKind:
				zero = len(v.Bytes()) == 0
			case fd.Kind() == protoreflect.BoolKind:
				zero = !v.Bool()
			case fd.Kind() == protoreflect.EnumKind:
				zero = v.Enum() == 0
			case fd.Kind() == protoreflect.FloatKind, fd.Kind() == protoreflect.DoubleKind:
				zero = math.Float64bits(v.Float()) == 0
			default:
				zero = fmt.Sprint(v.Interface()) == "0"
			}
			if o := fd.ContainingOneof(); zero && (o == nil || o.IsSynthetic()) {
				m.Clear(fd)
			}
		}
		return true
	})
}

// the unknown records put in; no message declares these numbers
var unknownRaw = [2][]byte{{0xf8, 0xff, 0x03, 0x05}, {0xfa, 0xff, 0x03, 0x02, 'u', 'v', 0xf3, 0xff, 0x03, 0x08, 0x01, 0xf4, 0xff, 0x03}}

// addUnknown puts unknown records into the message (at 1) and the messages in it (at 2).
func addUnknown(m protoreflect.Message, at int, file string) {
	if at&1 != 0 && m.Descriptor().ParentFile().Path() == file {
		m.SetUnknown(append(append([]byte{}, unknownRaw[0]...), unknownRaw[at>>1]...))
	}
	if at&2 == 0 {
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
			if fd.MapValue().Message() != nil {
				v.Map().Range(func(_ protoreflect.MapKey, e protoreflect.Value) bool { addUnknown(e.Message(), 3, file); return true })
			}
		case fd.Message() == nil:
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				addUnknown(v.List().Get(i).Message(), 3, file)
			}
		default:
			addUnknown(v.Message(), 3, file)
		}
		return true
	})
}

// eq compares what was got with what was put in.
func (w *World) eq(put, got proto.Message) bool {
	if w.Mode == "values" {
		put, got = proto.Clone(put), proto.Clone(got)
		normal(put.ProtoReflect())
		normal(got.ProtoReflect())
	}
	return proto.Equal(put, got)
}

func interop(c *core.Ctx, w *World, m Msg) {
	md := m.Official().ProtoReflect().Descriptor()
	n, set := states(md)
	rounds := 1
	if w.Mode == "unknown" {
		rounds = 4
	}
	mk := func(i int) proto.Message {
		o := m.Official()
		set(i/rounds, o.ProtoReflect())
		if rounds > 1 {
			addUnknown(o.ProtoReflect(), i%rounds, string(md.ParentFile().Path()))
		}
		return o
	}
	fail := func(i int, key, f string, a ...any) {
		if c.Failed() {
			return
		}
		c.Fail(key+" "+shapeOf(m), "%s %s %s state %d %v: %s", w.Name, w.Mode, m.Name, i, mk(i), fmt.Sprintf(f, a...))
	}
	n *= rounds
	for i := 0; i < n; i++ {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail(i, "panic", "%v\n%s", e, debug.Stack())
				}
			}()
			o := mk(i)
			p := m.Prutal()
			toStruct(o.ProtoReflect(), reflect.ValueOf(p).Elem())
			b, err := prutal.Marshal(p)
			c.Trans(4)
			if err != nil {
				fail(i, "marshal", "prutal.Marshal: %v", err)
				return
			}
			o2 := m.Official()
			if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, o2); err != nil {
				fail(i, "marshal", "the official library cannot read prutal's %x: %v", b, err)
				return
			}
			if !w.eq(o, o2) {
				fail(i, "marshal", "the official library reads prutal's %x as %v", b, o2)
				return
			}
			if sz, err := prutal.Size(p); err != nil || sz != len(b) {
				fail(i, "size", "Size says %d, %v; Marshal wrote %d", sz, err, len(b))
			}
			ob, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(o)
			if err != nil {
				panic(err)
			}
			c.StateBytes([]byte(m.Name), ob)
			p2 := m.Prutal()
			if err := prutal.Unmarshal(ob, p2); err != nil {
				fail(i, "unmarshal", "prutal.Unmarshal(%x): %v", ob, err)
				return
			}
			o3 := m.Official()
			fromStruct(reflect.ValueOf(p2).Elem(), o3.ProtoReflect())
			if !w.eq(o, o3) {
				fail(i, "unmarshal", "prutal reads %x as %v", ob, o3)
				return
			}
			// the methods for Kitex
			type kitex interface {
				Marshal([]byte) ([]byte, error)
				Unmarshal([]byte) error
			}
			k, ok := p.(kitex)
			if !ok {
				fail(i, "kitex", "no Marshal and Unmarshal methods")
				return
			}
			kb, err := k.Marshal([]byte("pre"))
			if err != nil || len(kb) != len(b)+3 || string(kb[:3]) != "pre" {
				fail(i, "kitex", "Marshal method: %x %v", kb, err)
				return
			}
			o4 := m.Official()
			if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(kb[3:], o4); err != nil || !proto.Equal(o2, o4) {
				fail(i, "kitex", "Marshal method: %x, read as %v %v", kb, o4, err)
				return
			}
			p3 := m.Prutal()
			if err := p3.(kitex).Unmarshal(ob); err != nil || canon(reflect.ValueOf(p3)) != canon(reflect.ValueOf(p2)) {
				fail(i, "kitex", "Unmarshal method: %v %v", p3, err)
				return
			}
			c.Trace(2)
		}()
	}
	c.Count("message-values", int64(n))
}

// merges decodes every pair of values one after the other into one message.
func merges(c *core.Ctx, w *World, m Msg) {
	md := m.Official().ProtoReflect().Descriptor()
	n, set := states(md)
	if n > mergeMax {
		n = mergeMax
	}
	bs := make([][]byte, n)
	for i := range bs {
		o := m.Official()
		set(i, o.ProtoReflect())
		if w.Mode == "unknown" {
			addUnknown(o.ProtoReflect(), i%4, string(md.ParentFile().Path()))
		}
		b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(o)
		if err != nil {
			panic(err)
		}
		bs[i] = b
	}
	for i := range bs {
		for j := range bs {
			b := append(append([]byte{}, bs[i]...), bs[j]...)
			o := m.Official()
			if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, o); err != nil {
				panic(err)
			}
			p := m.Prutal()
			c.Trans(1)
			if err := prutal.Unmarshal(b, p); err != nil {
				c.Fail("merge "+shapeOf(m), "%s %s %s: prutal.Unmarshal(%x): %v", w.Name, w.Mode, m.Name, b, err)
				return
			}
			o2 := m.Official()
			fromStruct(reflect.ValueOf(p).Elem(), o2.ProtoReflect())
			if !w.eq(o, o2) {
				c.Fail("merge "+shapeOf(m), "%s %s %s: %x is %v, prutal reads %v", w.Name, w.Mode, m.Name, b, o, o2)
				return
			}
			c.StateBytes([]byte(m.Name), b)
			c.Trace(1)
		}
	}
}

var mergeMax = 64

// native gives the official generator's own types to prutal.
func native(c *core.Ctx, w *World, m Msg) {
	md := m.Official().ProtoReflect().Descriptor()
	n, set := states(md)
	const rounds = 4
	mk := func(i int) proto.Message {
		o := m.Official()
		set(i/rounds, o.ProtoReflect())
		addUnknown(o.ProtoReflect(), i%rounds, string(md.ParentFile().Path()))
		return o
	}
	fail := func(i int, key, f string, a ...any) {
		if !c.Failed() {
			c.Fail(key+" "+shapeOf(m), "%s %s state %d %v: %s", w.Name, m.Name, i, mk(i), fmt.Sprintf(f, a...))
		}
	}
	enc := func(o proto.Message) []byte {
		b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(o)
		if err != nil {
			panic(err)
		}
		return b
	}
	var prev proto.Message // of the step before, which is decoded into
	for i := 0; i < n*rounds; i++ {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail(i, "panic", "%v\n%s", e, debug.Stack())
				}
			}()
			o, same := mk(i), mk(i)
			ob := enc(same)
			c.StateBytes([]byte(m.Name), ob)
			c.Trans(4)
			b, err := prutal.Marshal(o)
			if err != nil {
				fail(i, "marshal", "prutal.Marshal: %v", err)
				return
			}
			o2 := m.Official()
			if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, o2); err != nil || !proto.Equal(o, o2) {
				fail(i, "marshal", "the official library reads prutal's %x as %v, %v", b, o2, err)
				return
			}
			if len(b) != len(ob) {
				fail(i, "marshal", "prutal writes %x, the official library %x", b, ob)
				return
			}
			if sz, err := prutal.Size(o); err != nil || sz != len(b) {
				fail(i, "size", "Size says %d, %v; Marshal wrote %d", sz, err, len(b))
				return
			}
			if ab, err := prutal.MarshalAppend([]byte("pre"), o); err != nil || len(ab) != len(b)+3 || string(ab[:3]) != "pre" {
				fail(i, "append", "MarshalAppend: %x, %v", ab, err)
				return
			}
			if !proto.Equal(o, same) || !bytes.Equal(enc(o), ob) {
				fail(i, "changed", "encoding leaves the message as %v", o)
				return
			}
			o3 := m.Official()
			if err := prutal.Unmarshal(ob, o3); err != nil {
				fail(i, "unmarshal", "prutal.Unmarshal(%x): %v", ob, err)
				return
			}
			if !proto.Equal(o, o3) || !bytes.Equal(enc(o3), ob) {
				fail(i, "unmarshal", "prutal reads %x as %v", ob, o3)
				return
			}
			if o.ProtoReflect().IsValid() != o3.ProtoReflect().IsValid() || proto.Size(o3) != len(ob) {
				fail(i, "unmarshal", "the decoded message has size %d, not %d", proto.Size(o3), len(ob))
				return
			}
			if prev != nil { // known fields merge
				a := proto.Clone(prev)
				a.ProtoReflect().SetUnknown(nil)
				if err := (proto.UnmarshalOptions{AllowPartial: true, Merge: true}).Unmarshal(ob, a); err != nil {
					panic(err)
				}
				p := prev.ProtoReflect()
				p.SetUnknown(nil)
				if err := prutal.Unmarshal(ob, prev); err != nil || !proto.Equal(a, prev) {
					fail(i, "merge", "merged into the message before, it is %v, not %v, %v", prev, a, err)
					return
				}
			}
			prev = o3
			c.Trace(3)
		}()
	}
	c.Count("message-values", int64(n*rounds))
}

func accessors(c *core.Ctx, w *World, m Msg) {
	fail := func(key, f string, a ...any) {
		if !c.Failed() {
			c.Fail(key+" "+shapeOf(m), "%s %s: %s", w.Name, m.Name, fmt.Sprintf(f, a...))
		}
	}
	getters := func(tag string, o, p reflect.Value) {
		ot := o.Type()
		for k := 0; k < ot.NumMethod(); k++ {
			name := ot.Method(k).Name
			if !strings.HasPrefix(name, "Get") {
				continue
			}
			pm := p.MethodByName(name)
			if !pm.IsValid() {
				fail("getter", "there is no %s", name)
				return
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("panic", "%s on %s panics: %v", name, tag, e)
					}
				}()
				a, b := o.Method(k).Call(nil), pm.Call(nil)
				c.Trans(1)
				if len(a) != 1 || len(b) != 1 {
					fail("getter", "%s has %d results", name, len(b))
					return
				}
				x, y := canon(a[0]), canon(b[0])
				if w.Mode == "values" {
					x, y = canonV(a[0]), canonV(b[0])
				}
				c.StateStr(name + x)
				if x != y {
					fail("getter", "%s on %s returns %s, the official one %s", name, tag, y, x)
				}
			}()
		}
	}
	md := m.Official().ProtoReflect().Descriptor()
	n, set := states(md)
	for i := 0; i < n; i++ {
		o := m.Official()
		set(i, o.ProtoReflect())
		if w.Mode == "unknown" {
			addUnknown(o.ProtoReflect(), 1+i%3, string(md.ParentFile().Path()))
		}
		p := m.Prutal()
		pv := reflect.ValueOf(p)
		toStruct(o.ProtoReflect(), pv.Elem())
		getters(fmt.Sprint(o), reflect.ValueOf(o), pv)
		r, ok := p.(interface{ Reset() })
		if !ok {
			fail("reset", "there is no Reset")
			return
		}
		r.Reset()
		if !reflect.DeepEqual(p, m.Prutal()) {
			fail("reset", "after Reset of %v: %+v", o, p)
		}
		c.Trace(1)
		if c.Failed() {
			return
		}
	}
	o, p := m.Official(), m.Prutal()
	getters("a nil receiver", reflect.Zero(reflect.TypeOf(o)), reflect.Zero(reflect.TypeOf(p)))
	c.Count("message-values", int64(n+1))
}

func enumCheck(c *core.Ctx, w *World, e Enum) {
	if !reflect.DeepEqual(e.Names[0], e.Names[1]) {
		c.Fail("enum-names", "%s %s_name is %v, the official one %v", w.Name, e.Name, e.Names[1], e.Names[0])
	}
	if !reflect.DeepEqual(e.Values[0], e.Values[1]) {
		c.Fail("enum-values", "%s %s_value is %v, the official one %v", w.Name, e.Name, e.Values[1], e.Values[0])
	}
	nums := []int64{0, 1, -1, 2, -2, 3, 10, -10, 100, math.MaxInt32, math.MinInt32}
	for n := range e.Names[0] {
		nums = append(nums, int64(n))
	}
	sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
	for _, n := range nums {
		s := [2]string{}
		for k, x := range []any{e.Official, e.Prutal} {
			v := reflect.New(reflect.TypeOf(x)).Elem()
			v.SetInt(n)
			st, ok := v.Interface().(fmt.Stringer)
			if !ok {
				c.Fail("enum-string", "%s %s has no String", w.Name, e.Name)
				return
			}
			s[k] = st.String()
		}
		c.Trans(1)
		c.Trace(1)
		if s[0] != s[1] {
			c.Fail("enum-string", "%s %s(%d).String() is %q, the official one %q", w.Name, e.Name, n, s[1], s[0])
		}
	}
}

func brokenSpace() *core.Space {
	return &core.Space{Name: "worlds", N: int64(len(Worlds) + len(Broken)), Block: 1, Run: func(i int64, c *core.Ctx) {
		c.Trans(1)
		c.Trace(1)
		if i < int64(len(Broken)) {
			c.Fail("not-built "+Broken[i][0], "no code can be built for world %s: %s", Broken[i][0], Broken[i][1])
		}
	}}
}

func msgSpace(name string, run func(*core.Ctx, *World, Msg)) *core.Space {
	type at struct {
		w *World
		k int
	}
	var all []at
	for _, w := range Worlds {
		if w.Mode != "" && name == "official types" {
			continue // they are the same in all modes
		}
		for k := range w.Msgs {
			all = append(all, at{w, k})
		}
	}
	desc := func(i int64) string {
		w, m := all[i].w, all[i].w.Msgs[all[i].k]
		_, s, _ := strings.Cut(w.Text, "message "+m.Name+" {")
		s, _, _ = strings.Cut(s, "\n}")
		return w.Name + " " + strings.Split(w.Text, "\n")[0] + " message " + m.Name + " {" + strings.ReplaceAll(s, "\n", " ") + " }"
	}
	return &core.Space{Name: name, N: int64(len(all)), Block: 8, Describe: desc, Run: func(i int64, c *core.Ctx) { run(c, all[i].w, all[i].w.Msgs[all[i].k]) }}
}

func enumSpace() *core.Space {
	type at struct {
		w *World
		e Enum
	}
	var all []at
	for _, w := range Worlds {
		for _, e := range w.Enums {
			all = append(all, at{w, e})
		}
	}
	return &core.Space{Name: "enums", N: int64(len(all)), Block: 1, Run: func(i int64, c *core.Ctx) { enumCheck(c, all[i].w, all[i].e) }}
}

var trust = []string{"google.golang.org/protobuf v1.36.11 (library and generator) gives the intended behaviour", "empty non-nil bytes in fields with explicit presence are left out here (see C01, C02)"}

// All is the list of properties about running code.
var All = []*core.Prop{
	{ID: "C15", Level: "model_checking", Rule: "A case is one message type as the official generator writes it; for every value of the enumerated set, prutal encodes, sizes and decodes it, compared with the official library on the same type, and each value is merged into the one before. Every case is non-trivial.",
		Bounds: "the message types and values of G03 (all syntaxes and edition features, no modes), with unknown records in the message, in the messages in it, or both",
		Assume: trust, Spaces: func(tier string) []*core.Space {
			return []*core.Space{msgSpace("official types", native)}
		}},
	{ID: "G03", Level: "model_checking", Rule: "A case is one message type of a generated file, compiled in both forms; for every value of the enumerated set, prutal encodes and the official library decodes, and the other way round. Non-trivial: the type exists in both forms.",
		Bounds: "messages with one field of every type x label x packing x syntax or edition features, one oneof of all types, and every sequence of three fields of ten kinds; every boundary value of single fields, every combination of a few values of several; also with //prutalgen:no_pointer on every message (compared up to the presence of zeros) and with //prutalgen:unknown_fields and unknown records in the message, in the messages in it, or both; all pairs of the first 64 (thorough: 1024) values decoded one after the other",
		Assume: trust, Spaces: func(tier string) []*core.Space {
			if tier == "thorough" {
				mergeMax = 1024
			}
			return []*core.Space{brokenSpace(), msgSpace("messages", interop), msgSpace("merges", merges)}
		}},
	{ID: "G10", Level: "model_checking", Rule: "A case is one message or enum type of a generated file, compiled in both forms; every getter is called in every enumerated state and on nil, and Reset after each; enum maps and String over declared and other numbers.",
		Bounds: "the messages and values of G03; five enums per file with aliases, extreme, negative and undeclared numbers",
		Assume: trust, Spaces: func(tier string) []*core.Space {
			return []*core.Space{brokenSpace(), msgSpace("accessors", accessors), enumSpace()}
		}},
}
