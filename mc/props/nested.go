package props

import (
	"reflect"

	. "verif/mc/pb"
)

// thO's only references are behind an interface.
type thO struct {
	U isThO_U `protobuf_oneof:"u"`
}
type isThO_U interface{ isThO_U() }
type thO_S struct {
	S string `protobuf:"bytes,1,opt,name=s"`
}
type thO_N struct {
	N int64 `protobuf:"varint,2,opt,name=n"`
}
type thO_B struct {
	B []byte `protobuf:"bytes,3,opt,name=b,proto3,oneof"`
}
type thO_M struct {
	M *thO `protobuf:"bytes,4,opt,name=m"`
}

func (*thO_S) isThO_U() {}
func (*thO_N) isThO_U() {}
func (*thO_B) isThO_U() {}
func (*thO_M) isThO_U() {}

var thWrappers = []any{(*thO_S)(nil), (*thO_N)(nil), (*thO_B)(nil), (*thO_M)(nil)}

func (*thO) XXX_OneofWrappers() []interface{} { return thWrappers }

// srcNested: a submessage whose only field has the given shape, for every
// shape (and a oneof), in every kind of container.
func srcNested() source {
	Wrappers[reflect.TypeOf(thO{})] = thWrappers
	one := FromGo(reflect.TypeOf(thO{}), thWrappers, map[reflect.Type]*Schema{})
	shapes := allShapes()
	type inner struct {
		f  *Field // nil: the oneof
		vs []*Val
	}
	var ins []inner
	for _, f := range shapes {
		in := inner{f: f}
		for _, x := range FieldVals(f, L0, 1) {
			in.vs = append(in.vs, valOf(1, x))
		}
		ins = append(ins, in)
	}
	var o inner
	for _, f := range one.Fields {
		for _, x := range FieldVals(f, L0, 1) {
			o.vs = append(o.vs, valOf(f.Num, x))
		}
	}
	ins = append(ins, o)
	conts := []*Field{
		{Num: 2, Kind: Message, Card: Explicit},
		{Num: 2, Kind: Message, Card: Implicit, NoPtr: true},
		{Num: 2, Kind: Message, Card: Repeated},
		{Num: 2, Kind: Message, Card: Repeated, NoPtr: true},
		{Num: 2, Kind: Message, Card: Map, Key: Int32},
		{Num: 2, Kind: Message, Card: Map, Key: String, NoPtr: true},
	}
	p := newPrefix(len(ins)*len(conts), func(i int) int64 { return int64(len(ins[i/len(conts)].vs)) })
	var ms memo[*Schema]
	var cs memo[*Schema]
	return source{name: "nested-shapes", n: p.total(), block: 128, get: func(i int64) (*Schema, *Val) {
		g, off := p.find(i)
		in := ins[g/len(conts)]
		s := ms.get(int64(g), func() *Schema {
			msg := cs.get(int64(g/len(conts)), func() *Schema {
				if in.f == nil {
					return one
				}
				return Build(UnkNone, at(in.f, 1))
			})
			c := *conts[g%len(conts)]
			c.Msg = msg
			return Build(UnkNone, &c)
		})
		f := s.Fields[0]
		v, w := in.vs[off], in.vs[len(in.vs)-1]
		switch f.Card {
		case Repeated:
			return s, valOf(2, []any{v, w, v})
		case Map:
			if f.Key == String {
				return s, valOf(2, map[any]any{"": v, "k": w})
			}
			return s, valOf(2, map[any]any{uint64(0): w, uint64(3): v})
		}
		return s, valOf(2, v)
	}}
}
