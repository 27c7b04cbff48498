package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"

	"github.com/cloudwego/prutal"
	"verif/mc/core"
	. "verif/mc/pb"
)

// C10: which Go types the library accepts, and what it does with them.

// verdicts of the specification: the Go types of the official mapping (plus
// messages by value) must be accepted; types without any meaning for their tag
// must be refused; the rest may be either, but if accepted must work.
type tv int

const (
	tvNo tv = iota
	tvMaybe
	tvYes
)

type (
	gtBool  bool
	gtI32   int32
	gtI64   int64
	gtU32   uint32
	gtU64   uint64
	gtF32   float32
	gtF64   float64
	gtStr   string
	gtBytes []byte
	gtByte  byte
	gtEmpty struct{}
	gtBad   struct { // refused: the tag does not fit the type
		A int32  `protobuf:"varint,1,opt,name=a"`
		B string `protobuf:"fixed32,2,opt,name=b"`
	}
	gtBadTag struct { // refused: no field number
		A int32 `protobuf:"varint,1,opt,name=a"`
		B int32 `protobuf:"varint,opt,name=b"`
	}
	gtPlain struct { // no protobuf fields at all
		A int
		B string
	}
)

func ty[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var gtBases = []reflect.Type{
	ty[bool](), ty[int](), ty[int8](), ty[int16](), ty[int32](), ty[int64](), ty[uint](), ty[uint8](), ty[uint16](), ty[uint32](), ty[uint64](), ty[uintptr](),
	ty[float32](), ty[float64](), ty[complex64](), ty[complex128](), ty[string](), ty[[]byte](), ty[unsafe.Pointer](),
	ty[gtBool](), ty[gtI32](), ty[gtI64](), ty[gtU32](), ty[gtU64](), ty[gtF32](), ty[gtF64](), ty[gtStr](), ty[gtBytes](), ty[[]gtByte](), ty[gtByte](),
	ty[struct{}](), ty[gtEmpty](), ty[gtPlain](), ty[gtBad](), ty[gtBadTag](), ty[time.Time](),
	ty[[4]byte](), ty[[0]byte](), ty[[1]int32](), ty[chan int](), ty[func()](), ty[any](), ty[error](),
}

func leafGo() reflect.Type { return leaf().Go }

// scalarKind is the wire meaning of a scalar Go type under a tag wire type.
func scalarKind(t reflect.Type, wire string) (k Kind, v tv) {
	v = tvYes
	named := t.PkgPath() != ""
	switch wire + "/" + t.Kind().String() {
	case "varint/bool":
		k = Bool
	case "varint/int32":
		k = Int32
		if named {
			return Enum, tvYes
		}
	case "varint/int64":
		k = Int64
	case "varint/uint32":
		k = Uint32
	case "varint/uint64":
		k = Uint64
	case "zigzag32/int32":
		k = Sint32
	case "zigzag64/int64":
		k = Sint64
	case "fixed32/int32":
		k = Sfixed32
	case "fixed32/uint32":
		k = Fixed32
	case "fixed32/float32":
		k = Float
	case "fixed64/int64":
		k = Sfixed64
	case "fixed64/uint64":
		k = Fixed64
	case "fixed64/float64":
		k = Double
	case "bytes/string":
		k = String
	case "bytes/slice":
		if t.Elem().Kind() != reflect.Uint8 {
			return 0, tvNo
		}
		k = Bytes
		if t != ty[[]byte]() {
			v = tvMaybe
		}
	default:
		return 0, tvNo
	}
	if named {
		v = tvMaybe
	}
	return
}

// msgSchema is the model of a struct type used as a message; ok tells whether it has one.
func msgSchema(t reflect.Type) (*Schema, tv) {
	switch t {
	case leafGo():
		return leaf(), tvYes
	case leafUnk().Go:
		return leafUnk(), tvYes
	case ty[gtBad](), ty[gtBadTag]():
		return nil, tvNo
	case ty[struct{}](), ty[gtEmpty]():
		return Custom(t), tvYes
	}
	return Custom(t), tvMaybe // structs which are not messages
}

func min2(a, b tv) tv {
	if a < b {
		return a
	}
	return b
}

type gtTag struct {
	wire, key, val string
	rep, packed    bool
	req            bool
	opt            bool
}

// classify is the specification: the verdict and the meaning of one field.
func classify(t reflect.Type, g gtTag) (tv, *Field) {
	v := tvYes
	if g.rep && (g.opt || g.req) || g.opt && g.req || !g.rep && !g.opt && !g.req {
		v = tvMaybe // contradictory or missing cardinality
	}
	if g.packed && !g.rep {
		return tvNo, nil
	}
	isBytes := t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.Uint8
	if t.Kind() == reflect.Map {
		if g.wire != "bytes" || !g.rep || g.packed {
			return tvNo, nil
		}
		kk, kv := scalarKind(t.Key(), g.key)
		if kv == tvNo || kk == Bytes || kk == Float || kk == Double {
			return tvNo, nil
		}
		if kk == Enum { // an enum is not a valid key, a Go type made from int32 reads as int32
			kk, kv = Int32, tvMaybe
		}
		f := &Field{Num: 1, Card: Map, Key: kk}
		e := t.Elem()
		if mt, byVal := structOf(e); mt != nil {
			if g.val != "bytes" {
				return tvNo, nil
			}
			s, mv := msgSchema(mt)
			f.Kind, f.Msg, f.NoPtr = Message, s, byVal
			return min2(min2(v, kv), mv), f
		}
		vk, vv := scalarKind(e, g.val)
		f.Kind = vk
		if vv == tvNo {
			return tvNo, nil
		}
		return min2(min2(v, kv), vv), f
	}
	if g.rep {
		if t.Kind() != reflect.Slice || isBytes && g.wire == "bytes" {
			return tvNo, nil
		}
		f := &Field{Num: 1, Card: Repeated}
		e := t.Elem()
		if mt, byVal := structOf(e); mt != nil {
			if g.wire != "bytes" || g.packed {
				return tvNo, nil
			}
			s, mv := msgSchema(mt)
			f.Kind, f.Msg, f.NoPtr = Message, s, byVal
			return min2(v, mv), f
		}
		k, kv := scalarKind(e, g.wire)
		if kv == tvNo {
			return tvNo, nil
		}
		if g.packed {
			if !k.Packable() {
				return tvNo, nil
			}
			f.Card = Packed
		}
		f.Kind = k
		return min2(v, kv), f
	}
	f := &Field{Num: 1, Card: Implicit}
	if mt, byVal := structOf(t); mt != nil {
		if g.wire != "bytes" {
			return tvNo, nil
		}
		s, mv := msgSchema(mt)
		f.Kind, f.Msg, f.NoPtr, f.Card = Message, s, byVal, Explicit
		if byVal {
			f.Card = Implicit
		}
		return min2(v, mv), f
	}
	if t.Kind() == reflect.Pointer {
		f.Card = Explicit
		k, kv := scalarKind(t.Elem(), g.wire)
		if kv == tvNo {
			return tvNo, nil
		}
		if k == Bytes {
			f.PtrBytes = true
			kv = min2(kv, tvMaybe)
		}
		f.Kind = k
		return min2(v, kv), f
	}
	k, kv := scalarKind(t, g.wire)
	if kv == tvNo {
		return tvNo, nil
	}
	f.Kind = k
	return min2(v, kv), f
}

// structOf: t is a message (byVal) or a pointer to one.
func structOf(t reflect.Type) (mt reflect.Type, byVal bool) {
	if t.Kind() == reflect.Struct {
		return t, true
	}
	if t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Struct {
		return t.Elem(), false
	}
	return nil, false
}

var gtCtors = []struct {
	name string
	f    func(t reflect.Type) reflect.Type
}{
	{"T", func(t reflect.Type) reflect.Type { return t }},
	{"*T", reflect.PointerTo},
	{"[]T", reflect.SliceOf},
	{"[]*T", func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.PointerTo(t)) }},
	{"**T", func(t reflect.Type) reflect.Type { return reflect.PointerTo(reflect.PointerTo(t)) }},
	{"*[]T", func(t reflect.Type) reflect.Type { return reflect.PointerTo(reflect.SliceOf(t)) }},
	{"[][]T", func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.SliceOf(t)) }},
	{"[]**T", func(t reflect.Type) reflect.Type {
		return reflect.SliceOf(reflect.PointerTo(reflect.PointerTo(t)))
	}},
	{"[]*[]T", func(t reflect.Type) reflect.Type {
		return reflect.SliceOf(reflect.PointerTo(reflect.SliceOf(t)))
	}},
	{"[2]T", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }},
	{"*[2]T", func(t reflect.Type) reflect.Type { return reflect.PointerTo(reflect.ArrayOf(2, t)) }},
	{"map[string]T", func(t reflect.Type) reflect.Type { return reflect.MapOf(ty[string](), t) }},
	{"*map[string]T", func(t reflect.Type) reflect.Type { return reflect.PointerTo(reflect.MapOf(ty[string](), t)) }},
	{"[]map[string]T", func(t reflect.Type) reflect.Type { return reflect.SliceOf(reflect.MapOf(ty[string](), t)) }},
	{"map[string]map[string]T", func(t reflect.Type) reflect.Type {
		return reflect.MapOf(ty[string](), reflect.MapOf(ty[string](), t))
	}},
	{"chan T", func(t reflect.Type) reflect.Type { return reflect.ChanOf(reflect.BothDir, t) }},
	{"func(T)", func(t reflect.Type) reflect.Type { return reflect.FuncOf([]reflect.Type{t}, nil, false) }},
}

var gtWires = []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group", ""}

type gtFlags struct {
	s                     string
	opt, req, rep, packed bool
}

var gtFlagSets = []gtFlags{
	{s: "opt", opt: true}, {s: "req", req: true}, {s: "rep", rep: true}, {s: "rep,packed", rep: true, packed: true},
	{s: ""}, {s: "packed", packed: true}, {s: "opt,packed", opt: true, packed: true}, {s: "opt,rep", opt: true, rep: true},
}

func (g gtTag) String() string { return fmt.Sprintf("%+v", struct{ gtTag }{g}) }

func joinTag(parts ...string) string {
	var o []string
	for _, p := range parts {
		if p != "" {
			o = append(o, p)
		}
	}
	return strings.Join(o, ",")
}

// verdict calls everything on the type, in an order given by first, and
// reports whether the type is accepted. ok is false if the calls disagree.
func verdict(c *core.Ctx, t reflect.Type, first int, what string) (accepted, ok bool) {
	unk := []byte{0x88, 0xfd, 0x25, 1} // field 77777, varint 1
	type call struct {
		name string
		f    func() error
	}
	calls := []call{
		{"Marshal", func() error { _, err := prutal.Marshal(reflect.New(t).Interface()); return err }},
		{"Size", func() error { _, err := prutal.Size(reflect.New(t).Interface()); return err }},
		{"Unmarshal", func() error { return prutal.Unmarshal(unk, reflect.New(t).Interface()) }},
		{"Unmarshal(empty)", func() error { return prutal.Unmarshal(nil, reflect.New(t).Interface()) }},
		{"MarshalAppend", func() error { _, err := prutal.MarshalAppend([]byte{1}, reflect.New(t).Interface()); return err }},
		{"Marshal(nil ptr)", func() error { _, err := prutal.Marshal(reflect.Zero(reflect.PointerTo(t)).Interface()); return err }},
		{"Size(nil ptr)", func() error { _, err := prutal.Size(reflect.Zero(reflect.PointerTo(t)).Interface()); return err }},
	}
	ok = true
	var e0 error
	var n0 string
	for round := 0; round < 2; round++ {
		for i := range calls {
			cl := calls[(first+i)%len(calls)]
			err, pan := catch(cl.f)
			c.Trans(1)
			if pan != "" {
				c.Fail("panic:"+what, "%s panics: %s", cl.name, pan)
				return false, false
			}
			if round == 0 && i == 0 {
				e0, n0 = err, cl.name
				continue
			}
			if (err == nil) != (e0 == nil) && ok {
				c.Fail("verdict:"+what, "%s on the first use returned %v, later %s returned %v", n0, e0, cl.name, err)
				ok = false
			}
		}
	}
	return e0 == nil, ok
}

func catch(f func() error) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
		}
	}()
	return f(), ""
}

// conform runs the model's alphabet of the field through the accepted type.
func conform(c *core.Ctx, s *Schema, f *Field, base *Val, l Level, what string) {
	for _, x := range FieldVals(f, l, 1) {
		if f.Kind == Bytes && (f.Card == Explicit || f.Card == Required) && !f.PtrBytes && x == "" {
			continue // listed finding of C01
		}
		v := Clone(base)
		if x != nil {
			v.F[f.Num] = x
		}
		p := ToGo(s, v)
		b, err := marshal(p)
		c.Trans(3)
		if err != nil {
			c.Fail("misread:"+what, "Marshal of %s: %v", v, err)
			return
		}
		got, err := Canon(s, b)
		want, _ := Canon(s, Encode(s, v))
		if err != nil || !bytes.Equal(got, want) {
			c.Fail("misread:"+what, "Marshal of %s gives %s, the tags say %s (%v)", v, hex(b), hex(want), err)
			return
		}
		if n, err := size(p); err != nil || n != len(b) {
			c.Fail("misread:"+what, "Size of %s is %d, %v; Marshal gives %d bytes", v, n, err, len(b))
			return
		}
		q := NewGo(s)
		if err := unmarshal(b, q); err != nil {
			c.Fail("misread:"+what, "Unmarshal of %s: %v", hex(b), err)
			return
		}
		if d := Diff(s, Norm(s, v), Norm(s, FromGoValue(s, q))); d != "" {
			c.Fail("misread:"+what, "round trip of %s: %s", v, d)
			return
		}
		runtime.KeepAlive(p)
		runtime.KeepAlive(q)
		c.Trace(1)
	}
}

// judge compares the library's verdict on t with the specification's.
func judge(c *core.Ctx, t reflect.Type, first int, want tv, what string) (accepted bool) {
	acc, ok := verdict(c, t, first, what)
	if !ok {
		return false
	}
	if acc && want == tvNo {
		c.Fail("accepted:"+what, "%s is accepted", t)
		return false
	}
	if !acc && want == tvYes {
		_, err := prutal.Marshal(reflect.New(t).Interface())
		c.Fail("refused:"+what, "%s is refused: %v", t, err)
	}
	if want != tvNo {
		c.Count("with-meaning", 1)
	}
	return acc
}

// fence builds struct{A uint64; F t; Z uint64} and its model.
func fence(prefix string, t reflect.Type, tag string, f *Field) (reflect.Type, *Schema, *Val) {
	gt := reflect.StructOf([]reflect.StructField{
		{Name: "A" + prefix, Type: ty[uint64](), Tag: `protobuf:"varint,100,opt,name=a"`},
		{Name: "F", Type: t, Tag: reflect.StructTag(tag)},
		{Name: "Z", Type: ty[uint64](), Tag: `protobuf:"fixed64,101,opt,name=z"`},
	})
	if f == nil {
		return gt, nil, nil
	}
	f.Index = []int{1}
	base := NewVal()
	base.F[100], base.F[101] = uint64(0x1122334455667788), ^uint64(0)
	return gt, Custom(gt, f, &Field{Num: 100, Kind: Uint64, Card: Implicit, Index: []int{0}}, &Field{Num: 101, Kind: Fixed64, Card: Implicit, Index: []int{2}}), base
}

func wireClass(t reflect.Type) string {
	switch t {
	case leafGo():
		return "message"
	}
	return t.String()
}

// every Go type x every tag
func spTypeTag(firsts int) *core.Space {
	bases := append(append([]reflect.Type{}, gtBases...), leafGo())
	n := len(bases) * len(gtCtors) * len(gtWires) * len(gtFlagSets) * firsts
	dec := func(i int64) (b reflect.Type, ct int, w string, fl gtFlags, first int) {
		x := int(i)
		first, x = x%firsts, x/firsts
		fl, x = gtFlagSets[x%len(gtFlagSets)], x/len(gtFlagSets)
		w, x = gtWires[x%len(gtWires)], x/len(gtWires)
		ct, x = x%len(gtCtors), x/len(gtCtors)
		return bases[x], ct, w, fl, first
	}
	mk := func(i int64) (t reflect.Type, tag string, want tv, f *Field, first int, what string) {
		b, ct, w, fl, first := dec(i)
		t = gtCtors[ct].f(b)
		g := gtTag{wire: w, key: "bytes", rep: fl.rep, packed: fl.packed, req: fl.req, opt: fl.opt}
		// the value tag that fits, if any
		g.val = "bytes"
		if t.Kind() == reflect.Map {
			for _, vw := range gtWires[:5] {
				if _, v := scalarKind(t.Elem(), vw); v != tvNo {
					g.val = vw
					break
				}
			}
		}
		want, f = tvNo, nil
		if w != "" && w != "group" {
			want, f = classify(t, g)
		}
		tag = fmt.Sprintf(`protobuf:"%s"`, joinTag(w, "1", fl.s, "name=f"))
		if t.Kind() == reflect.Map {
			tag += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, g.key, g.val)
		}
		if f != nil && (f.Card == Map || f.Kind == Message || f.Card == Implicit || f.Card == Explicit) && fl.req && f.Card == Implicit && f.Kind != Message {
			f.Card = Implicit
		}
		return t, tag, want, f, first, fmt.Sprintf("%s,T=%s,%s,%s", gtCtors[ct].name, wireClass(b), w, fl.s)
	}
	return &core.Space{Name: "type-x-tag", N: int64(n), Block: int64(firsts), Run: func(i int64, c *core.Ctx) {
		t, tag, want, f, first, what := mk(i)
		gt, s, base := fence(fmt.Sprint(first), t, tag, f)
		c.StateStr(fmt.Sprint(gt))
		if judge(c, gt, first, want, what) && s != nil {
			if fl := i / int64(firsts) % int64(len(gtFlagSets)); gtFlagSets[fl].req && f.Card == Implicit && f.Kind != Message {
				base.F[1] = FieldVals(f, L0, 1)[1] // whether a zero required value is written is not stated
				f.Card = Required
				conformOne(c, s, base, what)
				return
			}
			conform(c, s, f, base, L1, what)
		}
	}, Describe: func(i int64) string {
		t, tag, want, _, first, _ := mk(i)
		return fmt.Sprintf("field type %s tag %s, first call %d: expected %s", t, tag, first, [...]string{"refused", "consistent", "accepted"}[want])
	}}
}

func conformOne(c *core.Ctx, s *Schema, v *Val, what string) {
	p := ToGo(s, v)
	b, err := marshal(p)
	if err != nil {
		c.Fail("misread:"+what, "Marshal of %s: %v", v, err)
		return
	}
	q := NewGo(s)
	err = unmarshal(b, q)
	c.Trans(2)
	if err != nil {
		c.Fail("misread:"+what, "Unmarshal of %s: %v", hex(b), err)
		return
	}
	if d := Diff(s, v, FromGoValue(s, q)); d != "" {
		c.Fail("misread:"+what, "round trip of %s: %s", v, d)
	}
	c.Trace(1)
}

// every map key type x value type x key tag x value tag
func spMapTag() *core.Space {
	keys := []reflect.Type{}
	for _, b := range append(append([]reflect.Type{}, gtBases...), leafGo()) {
		if b.Comparable() {
			keys = append(keys, b)
		}
	}
	keys = append(keys, ty[*int32](), ty[*string](), ty[[2]string]())
	var vals []reflect.Type
	for _, b := range append(append([]reflect.Type{}, gtBases...), leafGo()) {
		vals = append(vals, b)
	}
	vals = append(vals, ty[*int32](), ty[*string](), ty[*[]byte](), reflect.PointerTo(leafGo()), ty[*gtEmpty](), ty[*gtBad](), ty[**gtEmpty](), ty[[]int32](), ty[[]string](), ty[[][]byte](), ty[map[string]string]())
	nw := len(gtWires)
	mk := func(i int64) (t reflect.Type, g gtTag) {
		x := int(i)
		g = gtTag{wire: "bytes", rep: true}
		g.val, x = gtWires[x%nw], x/nw
		g.key, x = gtWires[x%nw], x/nw
		vt := vals[x%len(vals)]
		kt := keys[x/len(vals)]
		return reflect.MapOf(kt, vt), g
	}
	return &core.Space{Name: "map-tags", N: int64(len(keys) * len(vals) * nw * nw), Block: 256, Run: func(i int64, c *core.Ctx) {
		t, g := mk(i)
		want, f := classify(t, g)
		tag := `protobuf:"bytes,1,rep,name=f"`
		if g.key != "" {
			tag += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key"`, g.key)
		}
		if g.val != "" {
			tag += fmt.Sprintf(` protobuf_val:"%s,2,opt,name=value"`, g.val)
		}
		gt, s, base := fence("", t, tag, f)
		what := fmt.Sprintf("map[%s]%s,%s,%s", wireClass(t.Key()), wireClass(t.Elem()), g.key, g.val)
		c.StateStr(fmt.Sprint(gt))
		if judge(c, gt, int(i%3), want, what) && s != nil {
			conform(c, s, f, base, L0, what)
		}
	}, Describe: func(i int64) string { t, g := mk(i); return fmt.Sprint(t, " ", g.key, " ", g.val) }}
}

// every order and spelling of the parts of a tag
func spTagText() *core.Space {
	type spec struct {
		t     reflect.Type
		parts []string
		f     *Field
	}
	mk := func(t reflect.Type, f *Field, parts ...string) spec { return spec{t, parts, f} }
	specs := []spec{
		mk(ty[int32](), &Field{Num: 7, Kind: Sint32, Card: Implicit}, "zigzag32", "7", "opt", "name=f", "proto3"),
		mk(ty[*int64](), &Field{Num: 1234, Kind: Int64, Card: Explicit}, "varint", "1234", "opt", "json=fF"),
		mk(ty[[]uint32](), &Field{Num: 12, Kind: Fixed32, Card: Packed}, "fixed32", "12", "rep", "packed", "name=packed"),
		mk(ty[[]string](), &Field{Num: 3, Kind: String, Card: Repeated}, "bytes", "3", "rep", "name=s1", "json=varint"),
		mk(ty[gtI32](), &Field{Num: 99, Kind: Enum, Card: Implicit}, "varint", "99", "opt", "enum=a.b.C"),
		mk(ty[[]bool](), &Field{Num: 64, Kind: Bool, Card: Repeated}, "varint", "64", "rep", "name=b2", "proto3"),
		mk(ty[[]float64](), &Field{Num: 536870911, Kind: Double, Card: Packed}, "fixed64", "536870911", "rep", "packed", "proto3"),
	}
	sfx := []string{"", ",", ",def=5", ",def=a,bytes,rep,2", ",weak=x", ",embedded=y,casttype=z"}
	var permute func(n int) [][]int
	permute = func(n int) [][]int {
		if n == 0 {
			return [][]int{{}}
		}
		var out [][]int
		for _, p := range permute(n - 1) {
			for k := 0; k <= len(p); k++ {
				q := append(append(append([]int{}, p[:k]...), n-1), p[k:]...)
				out = append(out, q)
			}
		}
		return out
	}
	type one struct {
		sp  spec
		tag string
	}
	var all []one
	for _, sp := range specs {
		for _, pm := range permute(len(sp.parts)) {
			for _, sep := range []string{",", ", ", ",,"} {
				for _, x := range sfx {
					var ps []string
					for _, k := range pm {
						ps = append(ps, sp.parts[k])
					}
					all = append(all, one{sp, strings.Join(ps, sep) + x})
				}
			}
		}
	}
	return &core.Space{Name: "tag-text", N: int64(len(all)), Run: func(i int64, c *core.Ctx) {
		o := all[i]
		f := *o.sp.f
		gt, s, base := fence("", o.sp.t, fmt.Sprintf("protobuf:%q", o.tag), &f)
		c.StateStr(o.tag)
		want := tvYes
		if strings.Contains(o.tag, ", ") || strings.Contains(o.tag, ",,") || strings.HasSuffix(o.tag, ",") {
			want = tvMaybe // spellings no generator uses
		}
		if judge(c, gt, int(i%3), want, "tag-text") {
			conform(c, s, &f, base, L0, "tag-text")
		}
	}, Describe: func(i int64) string { return all[i].tag }}
}

// names in tags which look like other parts of it
func spTagNames() *core.Space {
	type spec struct {
		t    reflect.Type
		head string
		kv   string
		f    *Field
	}
	kv := ` protobuf_key:"%s" protobuf_val:"%s"`
	specs := []spec{
		{ty[int32](), "zigzag32,7,opt", "", &Field{Num: 7, Kind: Sint32, Card: Implicit}},
		{ty[*int64](), "varint,1234,opt", "", &Field{Num: 1234, Kind: Int64, Card: Explicit}},
		{ty[[]uint32](), "fixed32,12,rep,packed", "", &Field{Num: 12, Kind: Fixed32, Card: Packed}},
		{ty[[]int64](), "zigzag64,13,rep", "", &Field{Num: 13, Kind: Sint64, Card: Repeated}},
		{ty[[]string](), "bytes,3,rep", "", &Field{Num: 3, Kind: String, Card: Repeated}},
		{ty[string](), "bytes,2,opt", "", &Field{Num: 2, Kind: String, Card: Implicit}},
		{ty[float64](), "fixed64,4,opt", "", &Field{Num: 4, Kind: Double, Card: Implicit}},
		{ty[map[int32]uint64](), "bytes,5,rep", kv, &Field{Num: 5, Kind: Fixed64, Key: Sint32, Card: Map}},
	}
	var texts []string
	for _, k := range []string{"name=", "json=", "enum=", "x=", ""} {
		for _, w := range []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group", "opt", "req", "rep", "packed", "proto3", "oneof", "1", "29", "536870911", "name", "json", "def"} {
			for _, f := range []string{"%s", "x%s", "%sx", "x_%s", "%s_x", "_%s", "%s_", "X%s", "Is%s", "a%sb", "%[1]s%[1]s", "x.%s", "x.%s.y"} {
				v := fmt.Sprintf(f, w)
				if k == "" && (v == w || strings.Trim(v, "0123456789") == "") {
					continue // a part with a meaning of its own
				}
				texts = append(texts, k+v, k+strings.ToUpper(v))
			}
		}
	}
	// a JSON name may have commas in it
	for _, w := range []string{"varint", "zigzag32", "zigzag64", "fixed32", "fixed64", "bytes", "group", "opt", "req", "rep", "packed", "1", "29", " 29", "536870911", "", ",", "def=1"} {
		for _, f := range []string{"a,%s", "%s,a", ",%s", "a,%s,b", "a,%[1]s,%[1]s"} {
			texts = append(texts, "json="+fmt.Sprintf(f, w))
		}
	}
	mk := func(i int64) (sp spec, tag string) {
		sp = specs[i/2/int64(len(texts))]
		t := texts[i/2%int64(len(texts))]
		tag = sp.head + "," + t
		if i%2 == 1 {
			tag = sp.head + ",name=f," + t + ",proto3"
		}
		tag = fmt.Sprintf("protobuf:%q", tag)
		if sp.kv != "" {
			tag += fmt.Sprintf(sp.kv, "zigzag32,1,opt,"+t, "fixed64,2,opt,"+t)
		}
		return
	}
	return &core.Space{Name: "tag-names", N: int64(len(specs) * len(texts) * 2), Run: func(i int64, c *core.Ctx) {
		sp, tag := mk(i)
		f := *sp.f
		gt, s, base := fence("", sp.t, tag, &f)
		c.StateStr(tag)
		if judge(c, gt, int(i%3), tvYes, "tag-names") {
			conform(c, s, &f, base, L0, "tag-names")
		}
	}, Describe: func(i int64) string { _, t := mk(i); return t }}
}

// field numbers: every single spelling, every ordered pair
func spNumbers2() *core.Space {
	nums := []string{"1", "2", "15", "16", "999", "1000", "1001", "18999", "19000", "19999", "20000", "536870910", "536870911", // valid
		"0", "536870912", "1073741825", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "18446744073709551615", "18446744073709551617", "99999999999999999999999999", "", "-1", "0x1", "1.0", "one"}
	const valid = 13
	num := func(k int) int32 {
		var n int32
		fmt.Sscan(nums[k], &n)
		return n
	}
	n := len(nums)
	conts := []string{"flat", "sub", "list", "map"}
	return &core.Space{Name: "numbers", N: int64(n * n * 2 * len(conts)), Block: 16, Run: func(i int64, c *core.Ctx) {
		x := int(i)
		kind := x % 2
		x /= 2
		ct := conts[x%len(conts)]
		x /= len(conts)
		a, b := x%n, x/n
		t2, w2, k2 := ty[uint32](), "varint", Uint32
		if kind == 1 {
			t2, w2, k2 = ty[string](), "bytes", String
		}
		gt := reflect.StructOf([]reflect.StructField{
			{Name: "F" + ct, Type: ty[int64](), Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s"`, joinTag("varint", nums[a], "opt,name=f")))},
			{Name: "G", Type: t2, Tag: reflect.StructTag(fmt.Sprintf(`protobuf:"%s"`, joinTag(w2, nums[b], "opt,name=g")))},
		})
		want := tvYes
		if a >= valid || b >= valid || a == b {
			want = tvNo
		}
		what := fmt.Sprintf("numbers %q %q %s", nums[a], nums[b], ct)
		var s *Schema
		f := &Field{Num: num(a), Kind: Int64, Card: Implicit, Index: []int{0}}
		g := &Field{Num: num(b), Kind: k2, Card: Implicit, Index: []int{1}}
		if want == tvYes {
			s = Custom(gt, f, g)
		}
		base := NewVal()
		base.F[num(b)] = FieldVals(g, L0, 1)[1]
		rt, rs := gt, s
		in := reflect.PointerTo(gt)
		of := &Field{Num: 1, Kind: Message, Card: Explicit, Msg: s, Index: []int{0}}
		tag := `protobuf:"bytes,1,opt,name=m"`
		switch ct {
		case "list":
			in, tag, of.Card = reflect.SliceOf(in), `protobuf:"bytes,1,rep,name=m"`, Repeated
		case "map":
			in, tag, of.Card, of.Key = reflect.MapOf(ty[int32](), in), `protobuf:"bytes,1,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`, Map, Int32
		}
		if ct != "flat" {
			rt = reflect.StructOf([]reflect.StructField{{Name: "M", Type: in, Tag: reflect.StructTag(tag)}})
			if s != nil {
				rs = Custom(rt, of)
			}
		}
		c.StateStr(fmt.Sprint(rt))
		if !judge(c, rt, int(i%3), want, what) || s == nil {
			return
		}
		if ct == "flat" {
			conform(c, s, f, base, L0, what)
			return
		}
		v := NewVal()
		base.F[num(a)] = uint64(300)
		switch ct {
		case "list":
			v.F[1] = []any{base, NewVal()}
		case "map":
			v.F[1] = map[any]any{uint64(3): base}
		default:
			v.F[1] = base
		}
		conformOne(c, rs, v, what)
	}}
}

// storage for unknown fields: only []byte and *[]byte directly in the struct
func spUnkStorage() *core.Space {
	names := []string{"unknownFields", "XXX_unrecognized"}
	types := append(append([]reflect.Type{}, gtBases...), ty[*[]byte](), ty[**[]byte](), ty[[][]byte](), ty[*string](), ty[[]string](), ty[map[string][]byte](), ty[*gtBytes](), ty[[3]uint64](), leafGo())
	pos := 3
	n := len(names) * len(types) * pos
	rec := []byte{0xf8, 0x06, 0x05} // unknown field 111
	return &core.Space{Name: "unknown-storage", N: int64(n), Run: func(i int64, c *core.Ctx) {
		x := int(i)
		name := names[x%2]
		x /= 2
		p := x % pos
		t := types[x/pos]
		uf := reflect.StructField{Name: name, Type: t}
		if name == "unknownFields" {
			uf.PkgPath = "verif/mc/props"
		}
		fs := []reflect.StructField{
			{Name: "A", Type: ty[uint64](), Tag: `protobuf:"varint,100,opt,name=a"`},
			{Name: "Z", Type: ty[uint64](), Tag: `protobuf:"fixed64,101,opt,name=z"`},
		}
		fs = append(fs[:p], append([]reflect.StructField{uf}, fs[p:]...)...)
		gt := reflect.StructOf(fs)
		what := "unknown-storage:" + name + " " + t.String()
		c.StateStr(fmt.Sprint(gt))
		want := tvMaybe
		if t == ty[[]byte]() || t == ty[*[]byte]() {
			want = tvYes
		}
		if !judge(c, gt, int(i%3), want, what) {
			return
		}
		m := reflect.New(gt)
		in := append(append([]byte{0xa0, 0x06, 0x07}, rec...), 0xa9, 0x06, 1, 2, 3, 4, 5, 6, 7, 8)
		if err := prutal.Unmarshal(in, m.Interface()); err != nil {
			c.Fail(what, "Unmarshal: %v", err)
			return
		}
		a, z := m.Elem().FieldByName("A").Uint(), m.Elem().FieldByName("Z").Uint()
		if a != 7 || z != 0x0807060504030201 {
			c.Fail(what, "known fields are %#x %#x", a, z)
		}
		u := m.Elem().FieldByName(name)
		u = reflect.NewAt(t, unsafe.Pointer(u.UnsafeAddr())).Elem()
		b, err := prutal.Marshal(m.Interface())
		c.Trans(2)
		c.Trace(1)
		if err != nil {
			c.Fail(what, "Marshal: %v", err)
			return
		}
		known := append([]byte{0xa0, 0x06, 0x07}, 0xa9, 0x06, 1, 2, 3, 4, 5, 6, 7, 8)
		keeps := bytes.Equal(b, append(append([]byte{}, known...), rec...))
		drops := bytes.Equal(b, known)
		switch {
		case want == tvYes && !keeps:
			c.Fail(what, "unknown record is lost: %s", hex(b))
		case !keeps && !drops:
			c.Fail(what, "Marshal gives %s", hex(b))
		case drops && !u.IsZero():
			c.Fail(what, "the field was written to: %v", u)
		}
		runtime.KeepAlive(m)
	}}
}

// refused and accepted types inside containers, in every order of first use
func spNested() *core.Space {
	type inner struct {
		name string
		mk   func(pfx string) reflect.Type
		bad  bool
	}
	st := func(name string, bad bool, t reflect.Type, tag string) inner {
		return inner{name, func(pfx string) reflect.Type {
			return reflect.StructOf([]reflect.StructField{
				{Name: "A" + pfx, Type: ty[int32](), Tag: `protobuf:"varint,1,opt,name=a"`},
				{Name: "X", Type: t, Tag: reflect.StructTag(tag)}})
		}, bad}
	}
	ins := []inner{
		st("good", false, ty[string](), `protobuf:"bytes,2,opt,name=x"`),
		st("mismatch", true, ty[string](), `protobuf:"varint,2,opt,name=x"`),
		st("nonumber", true, ty[string](), `protobuf:"bytes,opt,name=x"`),
		st("nowire", true, ty[string](), `protobuf:"2,opt,name=x"`),
		st("group", true, ty[*gtEmpty](), `protobuf:"group,2,opt,name=x"`),
		st("dup", true, ty[string](), `protobuf:"bytes,1,opt,name=x"`),
		st("norep", true, ty[[]int32](), `protobuf:"varint,2,opt,name=x"`),
		st("multiptr", true, ty[**int32](), `protobuf:"varint,2,opt,name=x"`),
		st("mapkey", true, ty[map[float32]string](), `protobuf:"bytes,2,rep,name=x" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`),
		st("mapnotag", true, ty[map[string]string](), `protobuf:"bytes,2,rep,name=x"`),
		st("packedstr", true, ty[[]string](), `protobuf:"bytes,2,rep,packed,name=x"`),
		st("badsub", true, ty[*gtBad](), `protobuf:"bytes,2,opt,name=x"`),
		st("badtagsub", true, ty[[]*gtBadTag](), `protobuf:"bytes,2,rep,name=x"`),
	}
	type cont struct {
		name string
		f    func(t reflect.Type) reflect.StructField
	}
	mp := reflect.StructTag(`protobuf:"bytes,1,rep,name=m" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`)
	conts := []cont{
		{"ptr", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: reflect.PointerTo(t), Tag: `protobuf:"bytes,1,opt,name=m"`}
		}},
		{"val", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: t, Tag: `protobuf:"bytes,1,opt,name=m"`}
		}},
		{"list", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: reflect.SliceOf(reflect.PointerTo(t)), Tag: `protobuf:"bytes,1,rep,name=m"`}
		}},
		{"listval", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: reflect.SliceOf(t), Tag: `protobuf:"bytes,1,rep,name=m"`}
		}},
		{"map", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: reflect.MapOf(ty[string](), reflect.PointerTo(t)), Tag: mp}
		}},
		{"mapval", func(t reflect.Type) reflect.StructField {
			return reflect.StructField{Name: "M", Type: reflect.MapOf(ty[string](), t), Tag: mp}
		}},
	}
	// types: inner I, parent P{I}, grandparent Q{P}, sibling S{I, good}; orders of first use
	orders := [][]int{}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == 4 {
			orders = append(orders, append([]int{}, cur...))
			return
		}
		for k := 0; k < 4; k++ {
			used := false
			for _, u := range cur {
				used = used || u == k
			}
			if !used {
				rec(append(cur, k))
			}
		}
	}
	rec(nil)
	n := len(ins) * len(conts) * len(conts) * len(orders)
	return &core.Space{Name: "nested-verdict", N: int64(n), Run: func(i int64, c *core.Ctx) {
		x := int(i)
		ord := x % len(orders)
		x /= len(orders)
		c1 := conts[x%len(conts)]
		x /= len(conts)
		c2 := conts[x%len(conts)]
		in := ins[x/len(conts)]
		pfx := fmt.Sprintf("%d%s%s", ord, c1.name, c2.name)
		good := reflect.StructField{Name: "G", Type: ty[int32](), Tag: `protobuf:"varint,9,opt,name=g"`}
		I := in.mk(pfx)
		P := reflect.StructOf([]reflect.StructField{c1.f(I), good})
		Q := reflect.StructOf([]reflect.StructField{c2.f(P), good})
		S := reflect.StructOf([]reflect.StructField{good, c2.f(I)})
		ts := []reflect.Type{I, P, Q, S}
		what := fmt.Sprintf("nested:%s in %s in %s", in.name, c1.name, c2.name)
		c.StateStr(fmt.Sprint(ts[orders[ord][0]], Q))
		want := tvYes
		if in.bad {
			want = tvNo
		}
		for _, k := range orders[ord] {
			judge(c, ts[k], ord%3, want, what)
		}
		for _, t := range ts { // and again when all are known
			judge(c, t, 0, want, what)
		}
		c.Trace(1)
	}, Describe: func(i int64) string {
		x := int(i)
		o := x % len(orders)
		x /= len(orders)
		return fmt.Sprintf("%s in %s in %s, order of first use %v", ins[x/len(conts)/len(conts)].name, conts[x%len(conts)].name, conts[x/len(conts)%len(conts)].name, orders[o])
	}}
}

// arguments which are not messages
func spArgs() *core.Space {
	i32, st := int32(1), "s"
	sl := []int32{1}
	pp := &i32
	var nilIface any
	var nilErr error
	args := []any{nilIface, nilErr, i32, &i32, st, &st, sl, &sl, &pp, map[string]string{}, &map[string]string{}, gtEmpty{}, gtPlain{}, func() {}, make(chan int), (*int32)(nil), (**int32)(nil), (*func())(nil), (*any)(nil), &nilIface, [2]int{}, &[2]int{}, unsafe.Pointer(nil), (*[]byte)(nil), &[]byte{8, 1}, new(*gtEmpty), new(**gtEmpty), true, 1.5, complex(1, 2)}
	return &core.Space{Name: "not-a-message", N: int64(len(args)) * 3, Run: func(i int64, c *core.Ctx) {
		a := args[i/3]
		what := fmt.Sprintf("arg:%T", a)
		c.StateStr(what)
		calls := []func() error{
			func() error { _, err := prutal.Marshal(a); return err },
			func() error { return prutal.Unmarshal([]byte{8, 1}, a) },
			func() error { _, err := prutal.Size(a); return err },
		}
		names := []string{"Marshal", "Unmarshal", "Size"}
		for r := 0; r < 6; r++ {
			k := (int(i) + r) % 3
			err, pan := catch(calls[k])
			c.Trans(1)
			if pan != "" {
				c.Fail("panic:"+what, "%s panics: %s", names[k], pan)
			} else if err == nil && !(k == 2 && a == nil) { // the size of nothing is documented by the code to be 0
				c.Fail("accepted:"+what, "%s returns no error", names[k])
			}
		}
		c.Trace(1)
	}}
}

func init() {
	reg(&core.Prop{ID: "C10", Level: "model_checking",
		Rule:   "Every combination of Go field type, tag wire type and flags is built as a struct type and given to every call; an independent classification of the official Go mapping says which must be accepted and which refused, and every accepted type is run over its value alphabet against the reference encoder.",
		Bounds: "43 base types x 17 type constructors x 8 wire types x 8 flag sets; all map key x value x tag combinations; all permutations of tag parts; names in tags in 13 forms of 19 words of other parts; all pairs of 29 number spellings; refused types of 12 kinds at nesting depth up to 3 in 6 kinds of container in all orders of first use; 7 graphs of 4 mutually referring types under all histories of 3 first uses (thorough: 4), each in a fresh process",
		Assume: []string{"types outside the official mapping (named scalars other than enums, []byte pointers, contradictory cardinality words) may be refused or accepted, but if accepted must work"},
		Spaces: func(tier string) []*core.Space {
			firsts := 3
			if tier == "thorough" {
				firsts = 7
			}
			return []*core.Space{spTypeTag(firsts), spMapTag(), spTagText(), spTagNames(), spNumbers2(), spUnkStorage(), spNested(), spArgs(), spOneofTypes(), spTypeHist(tier)}
		}})
}
