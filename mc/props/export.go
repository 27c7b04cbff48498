package props

import (
	"fmt"

	. "verif/mc/pb"
)

// for the packages which need an instrumented build

// Case family: an indexed list of (schema, well-formed input).
type Family struct {
	Name  string
	N     int64
	Block int64
	Get   func(i int64) (*Schema, []byte)
}

// ValueFamilies gives encodings of the values C01 uses.
func ValueFamilies(tier string) []Family {
	var out []Family
	for _, s := range valueSources(tier) {
		s := s
		out = append(out, Family{s.name, s.n, s.block, func(i int64) (*Schema, []byte) {
			sc, v := s.get(i)
			return sc, Encode(sc, v)
		}})
	}
	return out
}

// InputFamilies gives inputs of C03 with several records.
func InputFamilies(tier string) []Family {
	all := shapeSchemas(allShapes(), 1, 1001)
	var out []Family
	add := func(in inputs) { out = append(out, Family{in.name, in.n, in.block, in.get}) }
	k := 3
	if tier == "thorough" {
		k = 4
	}
	add(seqs(fmt.Sprintf("records-%d", k), all, k, goodAlpha(L0, 2)))
	add(seqs("two-records-compiled", oneofSchemas(), 2, goodAlpha(L0, 2)))
	add(entries("map-entry-3", 3, false))
	return out
}

// ShapeInputs gives, for every field shape, a few inputs which put several
// records on the wire.
func ShapeInputs(tier string) (ss []*Schema, bs [][]byte) {
	for _, s := range append(shapeSchemas(allShapes(), 1), oneofSchemas()...) {
		recs := goodAlpha(L0, 1)(s)
		for i, r := range recs {
			if i > 0 && tier != "thorough" {
				break
			}
			ss = append(ss, s)
			bs = append(bs, cat(r, recs[(i+1)%len(recs)], r))
			if i == 0 {
				ss = append(ss, s)
				bs = append(bs, cat(recs...))
			}
		}
	}
	return
}

// HyNew and HySchema give the message type of the call histories.
func HyNew() any                                    { return &hyT{} }
func HySchema(p any) *Schema                        { return hySchema(p) }
func ModelDecode(s *Schema, b []byte, v *Val) error { return Decode(s, b, v, modelOpt) }
func Hex(b []byte) string                           { return hex(b) }
