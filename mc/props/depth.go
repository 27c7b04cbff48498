package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/cloudwego/prutal"
	"verif/mc/core"
)

// recT is a recursive message with every kind of nesting edge.
type recT struct {
	A  int32            `protobuf:"varint,1,opt,name=a"`
	P  *recT            `protobuf:"bytes,2,opt,name=p"`
	L  []*recT          `protobuf:"bytes,3,rep,name=l"`
	LV []recT           `protobuf:"bytes,4,rep,name=lv"`
	MU map[uint64]*recT `protobuf:"bytes,5,rep,name=mu" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MI map[int32]*recT  `protobuf:"bytes,6,rep,name=mi" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MS map[string]*recT `protobuf:"bytes,7,rep,name=ms" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MB map[bool]*recT   `protobuf:"bytes,8,rep,name=mb" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MV map[int32]recT   `protobuf:"bytes,9,rep,name=mv" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	O  isRecT_O         `protobuf_oneof:"o"`
	W  recW             `protobuf:"bytes,12,opt,name=w"`
	LW []recW           `protobuf:"bytes,13,rep,name=lw"`
	MW map[string]recW  `protobuf:"bytes,1400,rep,name=mw" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	LP []*recW          `protobuf:"bytes,1500,rep,name=lp"`
}

type recW struct {
	R *recT `protobuf:"bytes,1,opt,name=r"`
}

type isRecT_O interface{ isRecT_O() }
type recT_OP struct {
	X *recT `protobuf:"bytes,10,opt,name=op"`
}
type recT_OV struct {
	X recT `protobuf:"bytes,11,opt,name=ov"`
}

func (*recT_OP) isRecT_O() {}
func (*recT_OV) isRecT_O() {}
func (*recT) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*recT_OP)(nil), (*recT_OV)(nil)}
}

type edge struct {
	name string
	toW  bool
	link func(m *recT, t *recT, w *recW)
	wrap func(body []byte) []byte
}

func entryWrap(num int32, key []byte) func([]byte) []byte {
	return func(body []byte) []byte { return lenRec(num, cat(key, lenRec(2, body))) }
}
func recWrap(num int32) func([]byte) []byte {
	return func(body []byte) []byte { return lenRec(num, body) }
}

var edges = []edge{
	{"ptr", false, func(m, t *recT, w *recW) { m.P = t }, recWrap(2)},
	{"list", false, func(m, t *recT, w *recW) { m.L = []*recT{t} }, recWrap(3)},
	{"listval", false, func(m, t *recT, w *recW) { m.LV = []recT{*t} }, recWrap(4)},
	{"map64", false, func(m, t *recT, w *recW) { m.MU = map[uint64]*recT{3: t} }, entryWrap(5, []byte{8, 3})},
	{"map32", false, func(m, t *recT, w *recW) { m.MI = map[int32]*recT{-2: t} }, entryWrap(6, []byte{8, 3})},
	{"mapstr", false, func(m, t *recT, w *recW) { m.MS = map[string]*recT{"k": t} }, entryWrap(7, []byte{10, 1, 'k'})},
	{"mapbool", false, func(m, t *recT, w *recW) { m.MB = map[bool]*recT{true: t} }, entryWrap(8, []byte{8, 1})},
	{"mapval", false, func(m, t *recT, w *recW) { m.MV = map[int32]recT{5: *t} }, entryWrap(9, []byte{8, 5})},
	{"oneof", false, func(m, t *recT, w *recW) { m.O = &recT_OP{t} }, recWrap(10)},
	{"oneofval", false, func(m, t *recT, w *recW) { m.O = &recT_OV{*t} }, recWrap(11)},
	{"val", true, func(m, t *recT, w *recW) { m.W = *w }, recWrap(12)},
	{"wlistval", true, func(m, t *recT, w *recW) { m.LW = []recW{*w} }, recWrap(13)},
	{"wmapval", true, func(m, t *recT, w *recW) { m.MW = map[string]recW{"k": *w} }, entryWrap(1400, []byte{10, 1, 'k'})},
	{"wlist", true, func(m, t *recT, w *recW) { m.LP = []*recW{w} }, recWrap(1500)},
}

// chain builds a message whose nesting is exactly levels (counting the message
// itself) taking edge at(i) at step i, and its reference encoding. ok is false
// if no such message exists.
func chain(levels int, at func(i int) int) (m *recT, enc []byte, ok bool) {
	// decide the path outside in
	var path []int // edge index, or -1 for recW.R
	inW := false
	for i, l := 0, 1; l < levels; l++ {
		if inW {
			path = append(path, -1)
			inW = false
			continue
		}
		e := at(i)
		i++
		path = append(path, e)
		inW = edges[e].toW
	}
	t, w := &recT{A: 1}, &recW{}
	if inW {
		if edges[path[len(path)-1]].name == "val" {
			return nil, nil, false // an empty by-value message is not encoded
		}
	} else {
		enc = []byte{8, 1}
	}
	for k := len(path) - 1; k >= 0; k-- {
		if path[k] == -1 {
			w = &recW{R: t}
			enc = lenRec(1, enc)
			continue
		}
		e := edges[path[k]]
		enc = e.wrap(enc)
		n := &recT{}
		e.link(n, t, w)
		t = n
	}
	return t, enc, true
}

const maxLevels = 1000

func checkLevels(c *core.Ctx, levels int, m *recT, enc []byte, what string) {
	n, serr := prutal.Size(m)
	b, merr := prutal.Marshal(m)
	q := &recT{}
	derr := prutal.Unmarshal(enc, q)
	c.Trans(3)
	c.Trace(1)
	c.StateStr(what)
	if levels > maxLevels {
		if merr == nil {
			c.Fail("marshal-too-deep", "%s: Marshal accepts %d levels", what, levels)
		}
		if serr == nil {
			c.Fail("size-too-deep", "%s: Size accepts %d levels", what, levels)
		}
		if derr == nil {
			c.Fail("unmarshal-too-deep", "%s: Unmarshal accepts %d levels", what, levels)
		}
		return
	}
	if merr != nil {
		c.Fail("marshal-refuses", "%s: Marshal refuses %d levels: %v", what, levels, merr)
	} else if !bytes.Equal(b, enc) {
		c.Fail("marshal-differs", "%s: Marshal of %d levels gives %s, expected %s", what, levels, hex(b), hex(enc))
	}
	if serr != nil || n != len(enc) {
		c.Fail("size-refuses", "%s: Size of %d levels: %d, %v (expected %d)", what, levels, n, serr, len(enc))
	}
	if derr != nil {
		c.Fail("unmarshal-refuses", "%s: Unmarshal refuses %d levels: %v", what, levels, derr)
	} else if b2, err := prutal.Marshal(q); err != nil || !bytes.Equal(b2, enc) {
		c.Fail("unmarshal-differs", "%s: decoding %d levels and encoding again gives %s (%v)", what, levels, hex(b2), err)
	}
}

// uniform: one kind of edge at every depth.
func depthUniform(depths []int) *core.Space {
	ne := len(edges)
	name := func(i int64) (string, int, int) {
		e, d := int(i)%ne, depths[int(i)/ne]
		return fmt.Sprintf("%d levels of %s", d, edges[e].name), e, d
	}
	return &core.Space{Name: "uniform", N: int64(ne * len(depths)), Block: 1, Run: func(i int64, c *core.Ctx) {
		w, e, d := name(i)
		if m, enc, ok := chain(d, func(int) int { return e }); ok {
			checkLevels(c, d, m, enc, w)
		}
	}, Describe: func(i int64) string { w, _, _ := name(i); return w }}
}

// mixes: edges e1 and e2 combined in each pattern.
var mixPatterns = []struct {
	name string
	at   func(i, a, b int) int
}{
	{"alternating", func(i, a, b int) int { return []int{a, b}[i&1] }},
	{"first", func(i, a, b int) int {
		if i == 0 {
			return b
		}
		return a
	}},
	{"halves", func(i, a, b int) int {
		if i < 300 {
			return a
		}
		return b
	}},
	{"aab", func(i, a, b int) int { return []int{a, a, b}[i%3] }},
}

func depthMixed(depths []int, pats int) *core.Space {
	ne := len(edges)
	n := ne * ne * len(depths) * pats
	dec := func(i int64) (string, int, func(int) int) {
		k := int(i)
		a := k % ne
		k /= ne
		b := k % ne
		k /= ne
		d := depths[k%len(depths)]
		p := mixPatterns[k/len(depths)]
		return fmt.Sprintf("%d levels, %s %s %s", d, p.name, edges[a].name, edges[b].name), d, func(i int) int { return p.at(i, a, b) }
	}
	return &core.Space{Name: "mixed", N: int64(n), Block: 4, Run: func(i int64, c *core.Ctx) {
		w, d, at := dec(i)
		if m, enc, ok := chain(d, at); ok {
			checkLevels(c, d, m, enc, w)
		}
	}, Describe: func(i int64) string { w, _, _ := dec(i); return w }}
}

// lastEdge: a long chain of one edge ending in a different one, at the limit.
func depthLast() *core.Space {
	ne := len(edges)
	ds := []int{999, 1000, 1001}
	dec := func(i int64) (string, int, func(int) int) {
		k := int(i)
		a, b, d := k%ne, k/ne%ne, ds[k/ne/ne]
		return fmt.Sprintf("%d levels of %s, the last steps %s", d, edges[a].name, edges[b].name), d, func(i int) int {
			lim := d - 3
			if edges[a].toW {
				lim = (d - 3) / 2
			}
			if i >= lim {
				return b
			}
			return a
		}
	}
	return &core.Space{Name: "last-step", N: int64(ne * ne * len(ds)), Block: 4, Run: func(i int64, c *core.Ctx) {
		w, d, at := dec(i)
		if m, enc, ok := chain(d, at); ok {
			checkLevels(c, d, m, enc, w)
		}
	}, Describe: func(i int64) string { w, _, _ := dec(i); return w }}
}

// siblings: a chain of da levels followed by a chain of db levels in one
// message: depth must be counted per path, not per message.
func depthSiblings() *core.Space {
	ds := []int{1, 2, 500, 998, 999, 1000}
	ne := len(edges)
	return &core.Space{Name: "siblings", N: int64(ne * ne * len(ds) * len(ds)), Block: 8, Run: func(i int64, c *core.Ctx) {
		k := int(i)
		a, b, da, db := k%ne, k/ne%ne, ds[k/ne/ne%len(ds)], ds[k/ne/ne/len(ds)]
		m1, e1, ok1 := chain(da, func(int) int { return a })
		m2, e2, ok2 := chain(db, func(int) int { return b })
		if !ok1 || !ok2 {
			return
		}
		// both below one root, then the root once more below a list: levels = max+1, max+2
		root := &recT{L: []*recT{m1, m2, m1}}
		enc := cat(lenRec(3, e1), lenRec(3, e2), lenRec(3, e1))
		lv := da
		if db > lv {
			lv = db
		}
		checkLevels(c, lv+1, root, enc, fmt.Sprintf("list of %d x %s, %d x %s", da, edges[a].name, db, edges[b].name))
	}}
}

// cycles: messages that contain themselves.
func cyclic() (names []string, ms []*recT) {
	add := func(n string, m *recT) { names, ms = append(names, n), append(ms, m) }
	for _, e := range edges {
		m := &recT{}
		switch e.name {
		case "listval":
			s := make([]recT, 2)
			s[0].LV = s
			m.LV = s
		case "mapval":
			mm := map[int32]recT{}
			mm[1] = recT{MV: mm}
			mm[2] = recT{MV: mm}
			m.MV = mm
		case "oneofval":
			w := &recT_OV{}
			w.X.O = w
			m.O = w
		default:
			w := &recW{R: m}
			e.link(m, m, w)
		}
		add("self "+e.name, m)
	}
	for i := range edges {
		for j := range edges {
			switch edges[i].name + " " + edges[j].name {
			default:
				if strings.HasSuffix(edges[i].name, "val") || strings.HasSuffix(edges[j].name, "val") {
					continue
				}
				a, b := &recT{}, &recT{}
				edges[i].link(a, b, &recW{R: b})
				edges[j].link(b, a, &recW{R: a})
				// and a branch before it
				b.L = append(b.L, &recT{}, a, a)
				add("two-message cycle "+edges[i].name+" "+edges[j].name, a)
			}
		}
	}
	return
}

func depthCycles() *core.Space {
	names, ms := cyclic()
	return &core.Space{Name: "cycles", N: int64(len(ms)), Block: 1, HangSecs: 60, Run: func(i int64, c *core.Ctx) {
		m := ms[i]
		_, merr := prutal.Marshal(m)
		_, serr := prutal.Size(m)
		_, aerr := prutal.MarshalAppend(make([]byte, 3, 100), m)
		c.Trans(3)
		c.Trace(1)
		c.StateStr(names[i])
		if merr == nil || serr == nil || aerr == nil {
			c.Fail("cycle", "%s: Marshal %v, MarshalAppend %v, Size %v", names[i], merr, aerr, serr)
		}
	}, Describe: func(i int64) string { return names[i] }}
}

// decode-only: merging must count levels like decoding into a fresh message.
func depthMerge() *core.Space {
	ds := []int{2, 999, 1000, 1001}
	ne := len(edges)
	return &core.Space{Name: "decode-twice", N: int64(ne * len(ds)), Block: 1, Run: func(i int64, c *core.Ctx) {
		e, d := int(i)%ne, ds[int(i)/ne]
		_, enc, ok := chain(d, func(int) int { return e })
		if !ok {
			return
		}
		q := &recT{}
		err1 := prutal.Unmarshal(enc, q)
		err2 := prutal.Unmarshal(enc, q)
		err3 := prutal.Unmarshal(cat(enc, enc), &recT{})
		c.Trans(3)
		c.Trace(1)
		for _, err := range []error{err1, err2, err3} {
			if (err == nil) != (d <= maxLevels) {
				c.Fail("merge-depth", "%d levels of %s: decode %v, decode again %v, decode twice at once %v", d, edges[e].name, err1, err2, err3)
			}
		}
	}}
}

func depthSpaceSize() *core.Space {
	s := depthMixed([]int{1, 3, 1000, 1001}, 1)
	s.Name = "depth"
	return s
}

func init() {
	reg(&core.Prop{ID: "C09", Level: "model_checking", Rule: "One case per (nesting pattern, depth): chains of every single edge kind at every listed depth, every ordered pair of edge kinds combined in four patterns at the depths around the limit, chains ending in a different edge, two chains side by side, and self-referencing messages. Marshal, Size and Unmarshal (of a reference encoding) all run on each. Every case nests, so every case is non-trivial.",
		Bounds: "14 edge kinds; depths 1..20 and 990..1010 plus 1500, 3000, 10000 (thorough: 1..1010); pairs of edge kinds at 998..1002",
		Assume: []string{"the documented limit counts the outermost message as level 1"},
		Spaces: func(tier string) []*core.Space {
			var ds []int
			if tier == "thorough" {
				for i := 1; i <= 1010; i++ {
					ds = append(ds, i)
				}
			} else {
				for i := 1; i <= 20; i++ {
					ds = append(ds, i)
				}
				for i := 990; i <= 1010; i++ {
					ds = append(ds, i)
				}
			}
			ds = append(ds, 1500, 2001, 3000, 10000)
			mix := []int{999, 1000, 1001}
			pats := 2
			if tier == "thorough" {
				mix = []int{2, 3, 4, 5, 500, 998, 999, 1000, 1001, 1002, 2000}
				pats = len(mixPatterns)
			}
			out := []*core.Space{depthUniform(ds), depthMixed(mix, pats), depthLast(), depthCycles(), depthMerge(), depthSiblings()}
			return out
		}})
}
