package props

import (
	"verif/mc/core"
	. "verif/mc/pb"
)

var All []*core.Prop

func reg(p *core.Prop) { All = append(All, p) }

func Find(id string) *core.Prop {
	for _, p := range All {
		if p.ID == id {
			return p
		}
	}
	return nil
}

const ruleValues = "Every (schema, value) pair of the listed families is built, one case per pair: each supported field shape x field numbers x its boundary alphabet; all ordered pairs of representative shapes; every length-prefix boundary in every container; every field of compiled official and prutalgen message types. A case is non-trivial when it puts at least one field on the wire (all but the empty-message cases do)."

func init() {
	reg(&core.Prop{ID: "C01", Level: "model_checking", Rule: ruleValues,
		Bounds: "values from the per-kind boundary alphabets; up to 2 populated fields per synthetic message, all fields in compiled types; lists to length 300, maps to 40 entries, payloads to 2 MiB",
		Assume: []string{"values outside the boundary alphabets behave like the alphabet value with the same encoded length"},
		Spaces: func(tier string) []*core.Space {
			var out []*core.Space
			for _, s := range valueSources(tier) {
				out = append(out, s.space(checkRoundTrip))
			}
			return out
		}})
	reg(&core.Prop{ID: "C02", Level: "model_checking", Rule: ruleValues,
		Bounds: "as C01; every case is also replayed through google.golang.org/protobuf (dynamicpb, and the compiled official types)",
		Assume: []string{"google.golang.org/protobuf v1.36.11 implements the protobuf specification"},
		Spaces: func(tier string) []*core.Space {
			var out []*core.Space
			dc := &dynCache{}
			for _, s := range valueSources(tier) {
				out = append(out, s.space(checkWire(dc)))
			}
			st := srcStatic(L2)
			st.name = "compiled-official"
			ts := map[*Schema]staticType{}
			for _, t := range staticTypes() {
				if t.official != nil {
					ts[t.s] = t
				}
			}
			out = append(out, st.space(func(c *core.Ctx, s *Schema, v *Val) {
				if t, ok := ts[s]; ok {
					checkOfficial(c, s, v, t)
				}
			}))
			return out
		}})
}

// Reg adds a property from another package.
func Reg(p *core.Prop) { reg(p) }
