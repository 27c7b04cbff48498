// Package pb is the reference model: a deliberately plain implementation of
// the protobuf wire format over generic values, plus reflection-only bridges
// to Go structs. It shares no code with the library under test.
package pb

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unsafe"
)

type Kind uint8

const (
	Int32 Kind = iota
	Int64
	Uint32
	Uint64
	Sint32
	Sint64
	Fixed32
	Fixed64
	Sfixed32
	Sfixed64
	Float
	Double
	Bool
	String
	Bytes
	Enum
	Message
	NKinds
)

var kindNames = []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double", "bool", "string", "bytes", "enum", "message"}

func (k Kind) String() string { return kindNames[k] }

// MapKeyKinds are the twelve legal map key kinds.
var MapKeyKinds = []Kind{Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Bool, String}

// ScalarKinds are all scalar kinds plus enum.
var ScalarKinds = []Kind{Int32, Int64, Uint32, Uint64, Sint32, Sint64, Fixed32, Fixed64, Sfixed32, Sfixed64, Float, Double, Bool, String, Bytes, Enum}

const (
	WVarint = 0
	WF64    = 1
	WBytes  = 2
	WSGroup = 3
	WEGroup = 4
	WF32    = 5
)

func (k Kind) Wire() int {
	switch k {
	case Fixed32, Sfixed32, Float:
		return WF32
	case Fixed64, Sfixed64, Double:
		return WF64
	case String, Bytes, Message:
		return WBytes
	}
	return WVarint
}

func (k Kind) TagName() string {
	switch k {
	case Fixed32, Sfixed32, Float:
		return "fixed32"
	case Fixed64, Sfixed64, Double:
		return "fixed64"
	case String, Bytes, Message:
		return "bytes"
	case Sint32:
		return "zigzag32"
	case Sint64:
		return "zigzag64"
	}
	return "varint"
}

func (k Kind) Packable() bool { return k != String && k != Bytes && k != Message }

type Card uint8

const (
	Implicit Card = iota // no presence; zero value not emitted
	Explicit             // presence tracked (pointer; bytes: nil vs non-nil)
	Repeated             // expanded
	Packed
	Map
	Oneof
	Required
)

var cardNames = []string{"implicit", "explicit", "repeated", "packed", "map", "oneof", "required"}

func (c Card) String() string { return cardNames[c] }

type Field struct {
	Num      int32
	Kind     Kind
	Card     Card
	Key      Kind         // Map
	Msg      *Schema      // Message kind (or map value)
	NoPtr    bool         // message stored by value
	PtrBytes bool         // explicit bytes as *[]byte
	OneofID  int          // Oneof: which oneof
	Index    []int        // Go struct field index
	Wrapper  reflect.Type // Oneof: pointer-to-struct wrapper type
	Siblings []int32      // Oneof: numbers of all other members
}

func (f *Field) String() string {
	s := ""
	k := f.Kind.String()
	if f.Kind == Message {
		if f.NoPtr {
			k = "msgval"
		} else {
			k = "msg"
		}
	}
	if f.Card == Map {
		s = fmt.Sprintf("map<%s,%s>", f.Key, k)
	} else {
		s = f.Card.String() + " " + k
	}
	if f.PtrBytes {
		s += "(ptr)"
	}
	return s
}

func (f *Field) Shape() string { return f.String() }

type UnkMode uint8

const (
	UnkNone     UnkMode = iota
	UnkLower            // unknownFields []byte
	UnkXXX              // XXX_unrecognized []byte
	UnkLowerPtr         // unknownFields *[]byte
	UnkXXXPtr           // XXX_unrecognized *[]byte
)

type Schema struct {
	Name   string
	Fields []*Field // ascending Num
	Unk    UnkMode
	Go     reflect.Type // struct type
	unkIdx int
	byNum  map[int32]*Field
}

func (s *Schema) Field(n int32) *Field {
	return s.byNum[n]
}

func (s *Schema) String() string {
	var b strings.Builder
	b.WriteString("{")
	for i, f := range s.Fields {
		if i > 0 {
			b.WriteString("; ")
		}
		fmt.Fprintf(&b, "%s=%d", f, f.Num)
		if f.Kind == Message && f.Msg != nil && f.Msg != s {
			if f.Msg.Name != "" {
				b.WriteString(" " + f.Msg.Name)
			} else {
				b.WriteString(" " + f.Msg.String())
			}
		}
	}
	if s.Unk != UnkNone {
		b.WriteString("; unk" + strconv.Itoa(int(s.Unk)))
	}
	b.WriteString("}")
	return b.String()
}

func (s *Schema) finish() {
	sort.SliceStable(s.Fields, func(i, j int) bool { return s.Fields[i].Num < s.Fields[j].Num })
	s.byNum = map[int32]*Field{}
	for _, f := range s.Fields {
		s.byNum[f.Num] = f
		if f.Card == Oneof {
			f.Siblings = nil
			for _, g := range s.Fields {
				if g != f && g.Card == Oneof && g.OneofID == f.OneofID {
					f.Siblings = append(f.Siblings, g.Num)
				}
			}
		}
	}
}

type EnumT int32

var scalarGo = map[Kind]reflect.Type{
	Int32: reflect.TypeOf(int32(0)), Int64: reflect.TypeOf(int64(0)), Uint32: reflect.TypeOf(uint32(0)), Uint64: reflect.TypeOf(uint64(0)),
	Sint32: reflect.TypeOf(int32(0)), Sint64: reflect.TypeOf(int64(0)), Fixed32: reflect.TypeOf(uint32(0)), Fixed64: reflect.TypeOf(uint64(0)),
	Sfixed32: reflect.TypeOf(int32(0)), Sfixed64: reflect.TypeOf(int64(0)), Float: reflect.TypeOf(float32(0)), Double: reflect.TypeOf(float64(0)),
	Bool: reflect.TypeOf(false), String: reflect.TypeOf(""), Bytes: reflect.TypeOf([]byte(nil)), Enum: reflect.TypeOf(EnumT(0)),
}

func ScalarGo(k Kind) reflect.Type { return scalarGo[k] }

func (f *Field) elemGo() reflect.Type {
	if f.Kind == Message {
		if f.NoPtr {
			return f.Msg.Go
		}
		return reflect.PointerTo(f.Msg.Go)
	}
	return scalarGo[f.Kind]
}

// GoFieldType is the Go type official/prutalgen code uses for the field.
func (f *Field) GoFieldType() reflect.Type {
	e := f.elemGo()
	switch f.Card {
	case Implicit:
		return e
	case Explicit, Required:
		if f.Kind == Message {
			return e
		}
		if f.Kind == Bytes && !f.PtrBytes {
			return e
		}
		return reflect.PointerTo(e)
	case Repeated, Packed:
		return reflect.SliceOf(e)
	case Map:
		return reflect.MapOf(scalarGo[f.Key], e)
	}
	panic("bad card")
}

// Tag renders the struct tag. extra is appended to the protobuf tag (e.g. ",proto3").
func (f *Field) Tag(extra string) string {
	lbl := "opt"
	switch f.Card {
	case Repeated, Map:
		lbl = "rep"
	case Packed:
		lbl = "rep,packed"
	case Required:
		lbl = "req"
	}
	t := f.Kind.TagName()
	if f.Card == Map {
		t = "bytes"
	}
	s := fmt.Sprintf(`protobuf:"%s,%d,%s,name=f%d%s"`, t, f.Num, lbl, f.Num, extra)
	if f.Card == Map {
		s += fmt.Sprintf(` protobuf_key:"%s,1,opt,name=key" protobuf_val:"%s,2,opt,name=value"`, f.Key.TagName(), f.Kind.TagName())
	}
	return s
}

const pkgPath = "verif/mc/pb"

// Build constructs a schema and its Go struct type with reflect.StructOf.
// Go field order is the order given; model order is by number.
func Build(unk UnkMode, fields ...*Field) *Schema {
	return BuildNamed("F", unk, fields...)
}

// BuildNamed is Build with a Go field name prefix (so that distinct Go types can be made for one shape).
func BuildNamed(prefix string, unk UnkMode, fields ...*Field) *Schema {
	s := &Schema{Unk: unk, unkIdx: -1}
	var sf []reflect.StructField
	for i, f := range fields {
		g := *f
		g.Index = []int{i}
		s.Fields = append(s.Fields, &g)
		sf = append(sf, reflect.StructField{Name: fmt.Sprintf("%s%d_%d", prefix, i, f.Num), Type: g.GoFieldType(), Tag: reflect.StructTag(g.Tag(""))})
	}
	if unk != UnkNone {
		s.unkIdx = len(sf)
		bt := reflect.TypeOf([]byte(nil))
		switch unk {
		case UnkLower:
			sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: pkgPath, Type: bt})
		case UnkXXX:
			sf = append(sf, reflect.StructField{Name: "XXX_unrecognized", Type: bt})
		case UnkLowerPtr:
			sf = append(sf, reflect.StructField{Name: "unknownFields", PkgPath: pkgPath, Type: reflect.PointerTo(bt)})
		case UnkXXXPtr:
			sf = append(sf, reflect.StructField{Name: "XXX_unrecognized", Type: reflect.PointerTo(bt)})
		}
	}
	s.Go = reflect.StructOf(sf)
	s.finish()
	return s
}

// Custom describes an existing Go struct type by an explicit field list (with Index set).
func Custom(t reflect.Type, fields ...*Field) *Schema {
	s := &Schema{Name: t.Name(), Go: t, unkIdx: -1, Fields: fields}
	s.finish()
	return s
}

// FromGo derives the model schema from a Go struct type by its tags, using an
// explicit field list for what tags cannot express. wrappers are the oneof
// wrapper pointer values.
func FromGo(t reflect.Type, wrappers []any, memo map[reflect.Type]*Schema) *Schema {
	if s := memo[t]; s != nil {
		return s
	}
	s := &Schema{Name: t.Name(), Go: t, unkIdx: -1}
	memo[t] = s
	oid := 0
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if sf.Name == "unknownFields" || sf.Name == "XXX_unrecognized" {
			s.unkIdx = i
			if sf.Type.Kind() == reflect.Pointer {
				s.Unk = UnkLowerPtr
			} else {
				s.Unk = UnkLower
			}
			continue
		}
		if sf.Tag.Get("protobuf_oneof") != "" {
			oid++
			for _, w := range wrappers {
				wt := reflect.TypeOf(w)
				if !wt.Implements(sf.Type) {
					continue
				}
				f := fieldFromTag(wt.Elem().Field(0).Type, wt.Elem().Field(0).Tag, memo)
				f.Card = Oneof
				f.OneofID = oid
				f.Index = []int{i}
				f.Wrapper = wt
				s.Fields = append(s.Fields, f)
			}
			continue
		}
		if sf.Tag.Get("protobuf") == "" {
			continue
		}
		f := fieldFromTag(sf.Type, sf.Tag, memo)
		f.Index = []int{i}
		s.Fields = append(s.Fields, f)
	}
	s.finish()
	return s
}

// Wrappers maps Go struct types to their oneof wrapper lists (for FromGo recursion).
var Wrappers = map[reflect.Type][]any{}

func kindFrom(tag string, t reflect.Type) Kind {
	switch tag {
	case "varint":
		switch t.Kind() {
		case reflect.Int32:
			if t.PkgPath() != "" {
				return Enum
			}
			return Int32
		case reflect.Int64:
			return Int64
		case reflect.Uint32:
			return Uint32
		case reflect.Uint64:
			return Uint64
		case reflect.Bool:
			return Bool
		}
	case "zigzag32":
		return Sint32
	case "zigzag64":
		return Sint64
	case "fixed32":
		switch t.Kind() {
		case reflect.Int32:
			return Sfixed32
		case reflect.Uint32:
			return Fixed32
		case reflect.Float32:
			return Float
		}
	case "fixed64":
		switch t.Kind() {
		case reflect.Int64:
			return Sfixed64
		case reflect.Uint64:
			return Fixed64
		case reflect.Float64:
			return Double
		}
	case "bytes":
		switch t.Kind() {
		case reflect.String:
			return String
		case reflect.Slice:
			return Bytes
		case reflect.Struct:
			return Message
		}
	}
	panic(fmt.Sprintf("kindFrom %q %v", tag, t))
}

func fieldFromTag(t reflect.Type, tag reflect.StructTag, memo map[reflect.Type]*Schema) *Field {
	f := &Field{}
	parts := strings.Split(tag.Get("protobuf"), ",")
	n, err := strconv.Atoi(parts[1])
	if err != nil {
		panic(err)
	}
	f.Num = int32(n)
	proto3, packed, opt3 := false, false, false
	for _, p := range parts[2:] {
		switch p {
		case "proto3":
			proto3 = true
		case "packed":
			packed = true
		case "oneof":
			opt3 = true
		}
	}
	msg := func(et reflect.Type) {
		if et.Kind() == reflect.Pointer {
			et = et.Elem()
		} else {
			f.NoPtr = true
		}
		f.Msg = FromGo(et, Wrappers[et], memo)
	}
	bt := reflect.TypeOf([]byte(nil))
	isMsg := func(et reflect.Type) bool {
		return et.Kind() == reflect.Struct || et.Kind() == reflect.Pointer && et.Elem().Kind() == reflect.Struct
	}
	if t.Kind() == reflect.Map {
		f.Card = Map
		f.Key = kindFrom(strings.Split(tag.Get("protobuf_key"), ",")[0], t.Key())
		et := t.Elem()
		if isMsg(et) {
			f.Kind = Message
			msg(et)
		} else {
			f.Kind = kindFrom(strings.Split(tag.Get("protobuf_val"), ",")[0], et)
		}
		return f
	}
	et := t
	switch parts[2] {
	case "rep":
		et = t.Elem()
		f.Card = Repeated
		if packed {
			f.Card = Packed
		}
	default:
		f.Card = Implicit
		if t.Kind() == reflect.Pointer {
			f.Card = Explicit
			if !isMsg(t) {
				et = t.Elem()
				if et == bt {
					f.PtrBytes = true
				}
			}
		} else if t == bt && (!proto3 || opt3) {
			f.Card = Explicit
		}
		if parts[2] == "req" {
			f.Card = Required
		}
	}
	if isMsg(et) {
		f.Kind = Message
		if f.Card == Implicit {
			f.Card = Explicit
		}
		msg(et)
	} else {
		f.Kind = kindFrom(parts[0], et)
	}
	return f
}

func unkPtr(s *Schema, rv reflect.Value) reflect.Value {
	f := rv.Field(s.unkIdx)
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}
