//go:build sched

package sched

import (
	"fmt"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/verifshim"
	"verif/mc/core"
	"verif/mc/props"
)

type tooMany struct{}

// stepsOf counts the statements of the library executed by f, up to a limit.
func stepsOf(limit int, f func()) (n int) {
	defer func() {
		verifshim.SetHook(nil)
		if r := recover(); r != nil {
			if _, ok := r.(tooMany); !ok {
				panic(r)
			}
		}
	}()
	verifshim.SetHook(func(s int) {
		if n = s; s > limit {
			panic(tooMany{})
		}
	})
	f()
	return
}

func checkSteps(c *core.Ctx, cc *props.CostCase) {
	var small [3]int
	names := [3]string{"Unmarshal", "Size", "MarshalAppend"}
	for _, n := range []int{cc.N, cc.N * props.CostFactor} {
		in := cc.In(n)
		p := cc.New()
		prutal.Unmarshal(in[:0], p) // the type is analysed once
		var err error
		test := func(k, bytes int, f func()) bool {
			limit, what := 5000+600*bytes, ""
			if l := props.CostLimit*small[k] + 2000; n > cc.N && l < limit {
				limit, what = l, fmt.Sprintf(" (%d for %d times)", small[k], cc.N)
			}
			s := stepsOf(limit, f)
			c.Trans(1)
			c.Count("statements", int64(s))
			if s > limit {
				c.Fail(names[k]+":"+props.KeyCost(cc), "%s, %d times: %s of %d bytes executes more than %d statements%s", cc.Name, n, names[k], bytes, limit, what)
				return false
			}
			if n == cc.N {
				small[k] = s
			}
			return true
		}
		if !test(0, len(in), func() { err = prutal.Unmarshal(in, p) }) || err != nil {
			continue
		}
		sz, err := prutal.Size(p)
		if err != nil {
			continue
		}
		buf := make([]byte, 0, 2*sz+16*n+4096)
		test(1, sz, func() { prutal.Size(p) })
		test(2, sz, func() { prutal.MarshalAppend(buf, p) })
	}
	c.Trace(2)
	c.StateStr(cc.Name)
}

func init() {
	props.Reg(&core.Prop{ID: "C17", Level: "model_checking", Env: []string{"GOGC=400", "GOMAXPROCS=1"},
		Rule:   "The library is rebuilt with a counter before every statement. Every input of the families of C16 (records: every field shape x every sequence of up to 2 (thorough: 3) ways to write a record of it, of two other fields, or an unknown one, and three endings which make it malformed; nested: every pair of nesting edges x ways to write map entries x siblings x innermost contents) is decoded, and the message measured and encoded again, at two lengths, one 16 times the other; the statements executed by each call are counted. Every case is non-trivial.",
		Bounds: "512 repetitions, 384 levels, payloads to 3000 bytes; allowed are 600 statements per byte, and 40 times as many for 16 times the input; statements of internal/hack, of the standard library and of the Go runtime (copying, map operations) are not counted",
		Assume: []string{"growth beyond 512 repetitions is as up to there"},
		Spaces: func(tier string) (out []*core.Space) {
			for _, s := range props.CostSpaces(tier) {
				s := s
				out = append(out, &core.Space{Name: s.Name, N: s.N, Block: s.Block, Run: func(i int64, c *core.Ctx) { checkSteps(c, s.At(i)) },
					Describe: func(i int64) string { return fmt.Sprint(s.At(i).Name) }})
			}
			return
		}})
}
