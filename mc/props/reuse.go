package props

import (
	"fmt"
	"reflect"
	"runtime"

	"verif/mc/core"
	. "verif/mc/pb"
)

// how the message got its contents before the call under test
const (
	stDecoded = iota // by Unmarshal of the first input
	stBuilt          // by the user, from the same model value
	stCut            // decoded, then every list (at all levels) cut to length 0
	stCutOne         // decoded, then every list of the message shortened by one
	stDelete         // decoded, then every map emptied in place
	stShared         // decoded; the caller keeps another slice over the same list memory
	nStarts
)

var startNames = []string{"decoded", "built", "cut", "cut-one", "maps-emptied", "decoded-twice"}

// cutLists shortens the lists of the Go message and of the model alike.
func cutLists(s *Schema, v *Val, rv reflect.Value, all bool) {
	for _, f := range s.Fields {
		g := rv.FieldByIndex(f.Index)
		switch f.Card {
		case Repeated, Packed:
			l, _ := v.F[f.Num].([]any)
			if g.Len() == 0 {
				continue
			}
			n := 0
			if !all {
				n = g.Len() - 1
			}
			g.Set(g.Slice(0, n)) // keeps the capacity
			if n == 0 {
				delete(v.F, f.Num)
			} else {
				v.F[f.Num] = l[:n]
			}
		case Explicit, Implicit:
			if f.Kind != Message || !all {
				continue
			}
			sub, _ := v.F[f.Num].(*Val)
			if sub == nil {
				continue
			}
			if g.Kind() == reflect.Pointer {
				g = g.Elem()
			}
			cutLists(f.Msg, sub, g, all)
		}
	}
}

func emptyMaps(s *Schema, v *Val, rv reflect.Value) {
	for _, f := range s.Fields {
		if f.Card == Map {
			if g := rv.FieldByIndex(f.Index); !g.IsNil() {
				g.Clear()
			}
			delete(v.F, f.Num)
		}
	}
}

// start produces a message holding the meaning of a, arranged in the given way.
func start(form int, s *Schema, a []byte) (reflect.Value, *Val, error) {
	v := NewVal()
	if err := Decode(s, a, v, modelOpt); err != nil {
		return reflect.Value{}, nil, nil
	}
	if form == stBuilt {
		return ToGo(s, Norm(s, v)), v, nil
	}
	p := NewGo(s)
	if err := unmarshal(a, p); err != nil {
		return p, nil, err
	}
	switch form {
	case stCut:
		cutLists(s, v, p.Elem(), true)
	case stCutOne:
		cutLists(s, v, p.Elem(), false)
	case stDelete:
		emptyMaps(s, v, p.Elem())
	case stShared:
		v.Unk = nil
		if Decode(s, a, v, modelOpt) != nil {
			return reflect.Value{}, nil, nil
		}
		if err := unmarshal(a, p); err != nil {
			return p, nil, err
		}
	}
	return p, v, nil
}

func checkReuse(c *core.Ctx, form int, s *Schema, parts [][]byte) {
	p, v, err := start(form, s, parts[0])
	if err != nil {
		c.Fail("rejects", "first Unmarshal of %s: %v", hex(parts[0]), err)
		return
	}
	if v == nil {
		c.Count("not-well-formed", 1)
		return
	}
	for i, b := range parts[1:] {
		v.Unk = nil // a call starts with no unknown fields at the top level (C07)
		if err := Decode(s, b, v, modelOpt); err != nil {
			c.Count("not-well-formed", 1)
			return
		}
		if err := unmarshal(b, p); err != nil {
			c.Fail("rejects", "Unmarshal %d of %s into a %s message: %v", i+2, hex(b), startNames[form], err)
			return
		}
		c.Trans(1)
		want, got := Norm(s, v), Norm(s, FromGoValue(s, p))
		want.Unk, got.Unk = nil, nil
		if d := Diff(s, want, got); d != "" {
			c.Fail(fmt.Sprintf("merge:%s:%s", startNames[form], decKey(s, d)), "%s from %s, then Unmarshal %s: %s\n want %s\n got  %s", startNames[form], hex(parts[0]), hexes(parts[1:i+2]), d, want, got)
			return
		}
	}
	runtime.KeepAlive(p)
	c.StateStr(s.Name + Norm(s, v).String())
	c.Trace(1)
}

func hexes(bs [][]byte) string {
	o := ""
	for i, b := range bs {
		if i > 0 {
			o += " | "
		}
		o += hex(b)
	}
	return o
}

func reuseSpace(name string, schemas []*Schema, k int, alpha func(s *Schema) [][]byte) *core.Space {
	al := make([][][]byte, len(schemas))
	p := newPrefix(len(schemas), func(i int) int64 {
		al[i] = alpha(schemas[i])
		n := int64(nStarts)
		for j := 0; j < k; j++ {
			n *= int64(len(al[i]))
		}
		return n
	})
	dec := func(i int64) (int, *Schema, [][]byte) {
		g, off := p.find(i)
		form := int(off % nStarts)
		off /= nStarts
		a := al[g]
		parts := make([][]byte, k)
		for j := range parts {
			parts[j] = a[off%int64(len(a))]
			off /= int64(len(a))
		}
		return form, schemas[g], parts
	}
	return &core.Space{Name: name, N: p.total(), Block: 256,
		Run: func(i int64, c *core.Ctx) {
			form, s, parts := dec(i)
			checkReuse(c, form, s, parts)
		},
		Describe: func(i int64) string {
			form, s, parts := dec(i)
			return startNames[form] + ": " + hexes(parts) + " for " + s.String()
		}}
}

// twoRecs: sequences of one and two records of the alphabet as one input.
func twoRecs(a func(s *Schema) [][]byte) func(s *Schema) [][]byte {
	return func(s *Schema) [][]byte {
		x := a(s)
		out := append([][]byte{nil}, x...)
		for _, p := range x {
			for _, q := range x {
				out = append(out, cat(p, q))
			}
		}
		return out
	}
}

// growth: user-built lists of every length and spare capacity, then inputs
// that add one to a few elements, singly or packed.
func growthSpace(maxLen, maxAdd int) *core.Space {
	var ss []*Schema
	for _, f := range allShapes() {
		if f.Card == Repeated || f.Card == Packed {
			s := Build(UnkLower, at(f, 4))
			s.Name = s.String()
			ss = append(ss, s)
		}
	}
	ncap := 4
	per := (maxLen + 1) * ncap * (maxAdd + 1) * 2
	return &core.Space{Name: "list-growth", N: int64(len(ss) * per), Block: 256, Run: func(i int64, c *core.Ctx) {
		s := ss[int(i)/per]
		k := int(i) % per
		packed := k%2 == 1
		k /= 2
		add := k % (maxAdd + 1)
		k /= maxAdd + 1
		spare := []int{0, 1, 2, 9}[k%ncap]
		n := k / ncap
		f := s.Fields[0]
		e := ElemVals(f, L1, 2)
		old := make([]any, n)
		for j := range old {
			old[j] = e[(j+1)%len(e)]
		}
		v := NewVal()
		if n > 0 {
			v.F[4] = old
		}
		// the spare capacity holds other, non-zero elements
		big := make([]any, n+spare)
		for j := range big {
			big[j] = e[(j+1)%len(e)]
			if j >= n {
				big[j] = e[len(e)-1]
			}
		}
		w := NewVal()
		w.F[4] = big
		p := ToGo(s, w)
		g := p.Elem().FieldByIndex(f.Index)
		g.Set(g.Slice(0, n))
		var b []byte
		nv := NewVal()
		var l []any
		for j := 0; j < add; j++ {
			l = append(l, e[(j*2)%len(e)])
		}
		if add > 0 {
			nv.F[4] = l
			sc := *s
			fc := *f
			if f.Kind.Packable() {
				fc.Card = Repeated
				if packed {
					fc.Card = Packed
				}
			}
			sc.Fields = []*Field{&fc}
			b = Encode(&sc, nv)
		}
		c.Trans(1)
		if err := unmarshal(b, p); err != nil {
			c.Fail("rejects", "Unmarshal %s into list of %d (+%d spare): %v", hex(b), n, spare, err)
			return
		}
		all := append(append([]any{}, old...), l...)
		if len(all) > 0 {
			v.F[4] = all
		}
		want, got := Norm(s, v), Norm(s, FromGoValue(s, p))
		if d := Diff(s, want, got); d != "" {
			c.Fail("growth:"+keyShape(s, nil, nil), "list of %d (+%d spare), Unmarshal %s: %s\n want %s\n got  %s", n, spare, hex(b), d, want, got)
		}
		if g.Len() > g.Cap() {
			c.Fail("len>cap", "len %d cap %d", g.Len(), g.Cap())
		}
		c.StateStr(fmt.Sprint(s.Name, n, spare, add))
		c.Trace(1)
	}}
}

func init() {
	reg(&core.Prop{ID: "C12", Level: "model_checking", Rule: "Every pair and triple of inputs from the record alphabets is unmarshalled in sequence into one message, whose first contents come from Unmarshal, from the user, or from Unmarshal followed by cutting lists, emptying maps or decoding the same again; the result after every call is compared with the model's merge. User-built lists of every length and spare capacity receive one to a few more elements. A case is non-trivial when at least one input is non-empty.",
		Bounds: "three calls; inputs of up to two records; lists to 40 elements with up to 9 spare",
		Assume: []string{"the root's unknown fields are replaced, not merged, by each call"},
		Spaces: func(tier string) []*core.Space {
			all := shapeSchemas(allShapes(), goodNums...)
			some := shapeSchemas(someShapes(), goodNums...)
			var out []*core.Space
			la := L0
			if tier == "thorough" {
				la = L1
			}
			out = append(out, reuseSpace("pairs-all", all, 2, goodAlpha(la, 2)))
			out = append(out, reuseSpace("pairs-some-L1", some, 2, goodAlpha(L1, 1)))
			out = append(out, reuseSpace("pairs-of-two-records", some, 2, twoRecs(goodAlpha(L0, 1))))
			out = append(out, reuseSpace("triples-all", all, 3, goodAlpha(L0, 1)))
			out = append(out, reuseSpace("two-fields", pairSchemas(), 2, goodAlpha(L0, 1)))
			out = append(out, reuseSpace("oneofs", oneofSchemas(), 2, goodAlpha(L0, 1)))
			if tier == "thorough" {
				out = append(out, reuseSpace("quads-some", some, 4, goodAlpha(L0, 1)))
				out = append(out, reuseSpace("two-fields-3", pairSchemas(), 3, goodAlpha(L0, 1)))
			}
			out = append(out, growthSpace(40, 10))
			return out
		}})
}
