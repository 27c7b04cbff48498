package props

import (
	"reflect"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/runtime/protoimpl"

	. "verif/mc/pb"
	"verif/mc/pbgen/p2"
	"verif/mc/pbgen/p3"
	"verif/mc/pbgen/pg2"
	"verif/mc/pbgen/pg3"
)

type staticType struct {
	name     string
	s        *Schema
	official proto.Message // nil for prutalgen output
}

var staticOnce sync.Once
var statics []staticType

func offWrappers(m proto.Message) []any {
	return m.ProtoReflect().Type().(*protoimpl.MessageInfo).OneofWrappers
}

type pgOneof interface{ XXX_OneofWrappers() []interface{} }

// staticTypes are compiled message types: the official generator's output and
// prutalgen's output for the same .proto sources (see pbgen/gen.sh).
func staticTypes() []staticType {
	staticOnce.Do(func() {
		memo := map[reflect.Type]*Schema{}
		all := []struct {
			n string
			m any
		}{{"p3.All", &p3.All{}}, {"p3.Maps", &p3.Maps{}}, {"p3.Tree", &p3.Tree{}}, {"p2.All", &p2.All{}}, {"p2.Req", &p2.Req{}},
			{"pg3.All", &pg3.All{}}, {"pg3.Maps", &pg3.Maps{}}, {"pg3.Tree", &pg3.Tree{}}, {"pg2.All", &pg2.All{}}, {"pg2.Req", &pg2.Req{}},
			{"p3.Leaf", &p3.Leaf{}}, {"p2.Leaf", &p2.Leaf{}}, {"pg3.Leaf", &pg3.Leaf{}}, {"pg2.Leaf", &pg2.Leaf{}}}
		for _, a := range all {
			t := reflect.TypeOf(a.m).Elem()
			if pm, ok := a.m.(proto.Message); ok {
				// touch the type so that MessageInfo is initialised
				pm.ProtoReflect().Descriptor()
				proto.Size(pm)
				Wrappers[t] = offWrappers(pm)
			} else if pg, ok := a.m.(pgOneof); ok {
				Wrappers[t] = pg.XXX_OneofWrappers()
			}
		}
		for _, a := range all {
			t := reflect.TypeOf(a.m).Elem()
			s := FromGo(t, Wrappers[t], memo)
			s.Name = a.n
			if strings.HasPrefix(a.n, "pg3.") {
				// prutalgen's tags do not say proto3: i_bytes is the implicit one
				for _, f := range s.Fields {
					if f.Kind == Bytes && f.Card == Explicit && f.Num <= 16 {
						f.Card = Implicit
					}
				}
			}
			pm, _ := a.m.(proto.Message)
			statics = append(statics, staticType{a.n, s, pm})
		}
	})
	return statics
}

func static(name string) staticType {
	for _, t := range staticTypes() {
		if t.name == name {
			return t
		}
	}
	panic(name)
}

// srcStatic: every static type; each field alone over its alphabet, then
// adjacent field pairs, then everything at once.
func srcStatic(l Level) source {
	ts := staticTypes()
	type ent struct {
		s *Schema
		v *Val
	}
	var lists [][]ent
	for _, t := range ts {
		lv := l
		if strings.HasSuffix(t.name, ".Maps") && l > L1 {
			lv = L1
		}
		var es []ent
		alls := []*Val{NewVal(), NewVal(), NewVal()}
		for i, f := range t.s.Fields {
			for _, x := range FieldVals(f, lv, 1) {
				es = append(es, ent{t.s, valOf(f.Num, x)})
			}
			v0 := FieldVals(f, L0, 1)
			if i+1 < len(t.s.Fields) {
				g := t.s.Fields[i+1]
				if f.Card != Oneof || g.Card != Oneof || f.OneofID != g.OneofID {
					for _, x := range v0 {
						for _, y := range FieldVals(g, L0, 1) {
							v := valOf(f.Num, x)
							if y != nil {
								v.F[g.Num] = y
							}
							es = append(es, ent{t.s, v})
						}
					}
				}
			}
			for k, a := range alls {
				x := v0[len(v0)-1-k%len(v0)]
				if x == nil {
					continue
				}
				skip := false
				for _, sib := range f.Siblings {
					if _, ok := a.F[sib]; ok {
						skip = true
					}
				}
				if !skip {
					a.F[f.Num] = x
				}
			}
		}
		for _, a := range alls {
			es = append(es, ent{t.s, a})
			if t.s.Unk != UnkNone {
				b := Clone(a)
				b.Unk = []byte{0xfa, 0xff, 0x7f, 0x03, 'x', 'y', 'z'}
				es = append(es, ent{t.s, b})
			}
		}
		lists = append(lists, es)
	}
	p := newPrefix(len(lists), func(i int) int64 { return int64(len(lists[i])) })
	return source{name: "compiled-types", n: p.total(), block: 64, get: func(i int64) (*Schema, *Val) {
		g, off := p.find(i)
		return lists[g][off].s, lists[g][off].v
	}}
}
