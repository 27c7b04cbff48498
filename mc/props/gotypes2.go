package props

import (
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strconv"
	"strings"

	"github.com/cloudwego/prutal"
	"verif/mc/core"
	. "verif/mc/pb"
)

type gtLeaf struct {
	A int32  `protobuf:"varint,1,opt,name=a"`
	B string `protobuf:"bytes,2,opt,name=b"`
}

// every oneof member type x tag
func spOneofTypes() *core.Space {
	rows := gtOneofRows()
	extra := gtOddOneofs()
	leafS := FromGo(ty[gtLeaf](), nil, map[reflect.Type]*Schema{})
	return &core.Space{Name: "oneof-types", N: int64(len(rows) + len(extra)), Run: func(i int64, c *core.Ctx) {
		if int(i) >= len(rows) {
			o := extra[int(i)-len(rows)]
			c.StateStr(o.t.String())
			judge(c, o.t, int(i)%3, o.want, "oneof:"+o.name)
			return
		}
		r := rows[i]
		t := r.w.Field(0).Type
		what := fmt.Sprintf("oneof:%s,%s,%s", t, r.wire, r.flags)
		g := gtTag{wire: r.wire, key: "bytes", val: "varint"}
		for _, p := range strings.Split(r.flags, ",") {
			switch p {
			case "opt":
				g.opt = true
			case "rep":
				g.rep = true
			case "packed":
				g.packed = true
			}
		}
		want, f := tvNo, (*Field)(nil)
		if r.wire != "" && r.wire != "group" && !g.rep && t.Kind() != reflect.Map {
			want, f = classify(t, g)
			if f != nil && f.Card == Explicit && f.Kind != Message {
				want = tvMaybe // a pointer to a scalar in a oneof: no generator makes it
			}
		}
		c.StateStr(what)
		if !judge(c, r.m, int(i)%3, want, what) || f == nil {
			return
		}
		if f.Card == Explicit && f.Kind != Message {
			return // accepted: no stated meaning for a nil pointer; values go through C01's shapes only for direct members
		}
		f.Card, f.OneofID, f.Wrapper, f.Index = Oneof, 1, reflect.PointerTo(r.w), []int{1}
		if f.Kind == Message && structName(t) == "gtLeaf" {
			f.Msg = leafS
		}
		s := Custom(r.m, f, &Field{Num: 2, Kind: Int32, Card: Oneof, OneofID: 1, Wrapper: ty[*gtTail](), Index: []int{1}},
			&Field{Num: 100, Kind: Uint64, Card: Implicit, Index: []int{0}}, &Field{Num: 101, Kind: Fixed64, Card: Implicit, Index: []int{2}})
		base := NewVal()
		base.F[100], base.F[101] = uint64(5), uint64(6)
		conform(c, s, f, base, L1, what)
		base.F[2] = uint64(0)
		conformOne(c, s, base, what)
	}, Describe: func(i int64) string {
		if int(i) >= len(rows) {
			return extra[int(i)-len(rows)].name
		}
		return fmt.Sprint(rows[i].w, " ", rows[i].w.Field(0).Tag)
	}}
}

func structName(t reflect.Type) string {
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Name()
}

type gtOdd struct {
	name string
	t    reflect.Type
	want tv
}

// oneof declarations that are not what a generator writes

type (
	odNoWrappers struct {
		F isGtO `protobuf_oneof:"f"`
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
	odTwoFields struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odTwoFieldsW struct {
		X int32 `protobuf:"varint,1,opt,name=x,oneof"`
		Y int32 `protobuf:"varint,2,opt,name=y,oneof"`
	}
	odNoField struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odNoFieldW struct{}
	odNoTag    struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odNoTagW struct{ X int32 }
	odVal    struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odValW struct {
		X int32 `protobuf:"varint,1,opt,name=x,oneof"`
	}
	odScalar struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odScalarW int32
	odNil     struct {
		F isGtO `protobuf_oneof:"f"`
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
	odForeign struct {
		F isGtO `protobuf_oneof:"f"`
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
	odForeignW struct {
		X int32 `protobuf:"varint,1,opt,name=x,oneof"`
	}
	odNotIface struct {
		F int32 `protobuf_oneof:"f"`
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
	odNotIface2 struct {
		F *gtTail `protobuf_oneof:"f"`
	}
	odDup struct {
		F isGtO `protobuf_oneof:"f"`
		A int32 `protobuf:"varint,2,opt,name=a"`
	}
	odDup2 struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odSame struct {
		F isGtO `protobuf_oneof:"f"`
	}
	odTwo struct {
		F isGtO `protobuf_oneof:"f"`
		G isGtP `protobuf_oneof:"g"`
	}
	odTwoSame struct {
		F isGtO `protobuf_oneof:"f"`
		G isGtO `protobuf_oneof:"g"`
	}
	odTwoDup struct {
		F isGtO `protobuf_oneof:"f"`
		G isGtP `protobuf_oneof:"g"`
	}
	isGtP interface{ isGtP() }
	odPW  struct {
		X string `protobuf:"bytes,3,opt,name=x,oneof"`
	}
	odPW2 struct {
		X string `protobuf:"bytes,2,opt,name=x,oneof"`
	}
	odTail2 struct {
		X string `protobuf:"bytes,2,opt,name=x,oneof"`
	}
	odBoth struct {
		F isGtO `protobuf_oneof:"f" protobuf:"bytes,1,opt,name=f"`
	}
	odEmptyName struct {
		F isGtO `protobuf_oneof:""`
		A int32 `protobuf:"varint,1,opt,name=a"`
	}
)

func (*odTwoFields) XXX_OneofWrappers() []interface{} { return []interface{}{(*odTwoFieldsW)(nil)} }
func (*odNoField) XXX_OneofWrappers() []interface{}   { return []interface{}{(*odNoFieldW)(nil)} }
func (*odNoTag) XXX_OneofWrappers() []interface{}     { return []interface{}{(*odNoTagW)(nil)} }
func (*odVal) XXX_OneofWrappers() []interface{}       { return []interface{}{odValW{}} }
func (*odScalar) XXX_OneofWrappers() []interface{}    { return []interface{}{odScalarW(0)} }
func (*odNil) XXX_OneofWrappers() []interface{}       { return []interface{}{nil, (*gtTail)(nil)} }
func (*odForeign) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*odForeignW)(nil), (*gtTail)(nil)}
}
func (*odNotIface) XXX_OneofWrappers() []interface{}  { return []interface{}{(*gtTail)(nil)} }
func (*odNotIface2) XXX_OneofWrappers() []interface{} { return []interface{}{(*gtTail)(nil)} }
func (*odDup) XXX_OneofWrappers() []interface{}       { return []interface{}{(*gtTail)(nil)} }
func (*odDup2) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*gtTail)(nil), (*odTail2)(nil)}
}
func (*odSame) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*gtTail)(nil), (*gtTail)(nil)}
}
func (*odTwo) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*odPW)(nil), (*gtTail)(nil)}
}
func (*odTwoSame) XXX_OneofWrappers() []interface{} { return []interface{}{(*gtTail)(nil)} }
func (*odTwoDup) XXX_OneofWrappers() []interface{} {
	return []interface{}{(*odPW2)(nil), (*gtTail)(nil)}
}
func (*odBoth) XXX_OneofWrappers() []interface{}      { return []interface{}{(*gtTail)(nil)} }
func (*odEmptyName) XXX_OneofWrappers() []interface{} { return nil }
func (*odTwoFieldsW) isGtO()                          {}
func (*odNoFieldW) isGtO()                            {}
func (*odNoTagW) isGtO()                              {}
func (odValW) isGtO()                                 {}
func (odScalarW) isGtO()                              {}
func (*odTail2) isGtO()                               {}
func (*odPW) isGtP()                                  {}
func (*odPW2) isGtP()                                 {}

func gtOddOneofs() []gtOdd {
	return []gtOdd{
		{"no wrappers", ty[odNoWrappers](), tvMaybe}, // nothing is known about the members
		{"two fields in a wrapper", ty[odTwoFields](), tvNo},
		{"no field in a wrapper", ty[odNoField](), tvNo},
		{"no tag in a wrapper", ty[odNoTag](), tvNo},
		{"wrapper by value", ty[odVal](), tvNo},
		{"scalar wrapper", ty[odScalar](), tvNo},
		{"nil wrapper", ty[odNil](), tvMaybe},
		{"foreign wrapper", ty[odForeign](), tvMaybe},
		{"oneof field is a scalar", ty[odNotIface](), tvNo},
		{"oneof field is a struct pointer", ty[odNotIface2](), tvNo},
		{"number used by a field and a member", ty[odDup](), tvNo},
		{"number used by two members", ty[odDup2](), tvNo},
		{"the same wrapper twice", ty[odSame](), tvNo},
		{"two oneofs", ty[odTwo](), tvYes},
		{"two oneofs of one interface type", ty[odTwoSame](), tvNo},
		{"number used by members of two oneofs", ty[odTwoDup](), tvNo},
		{"both tags", ty[odBoth](), tvNo},
		{"empty name", ty[odEmptyName](), tvMaybe},
	}
}

// ---- graphs of types referring to each other, all short histories of first uses ----
// Each history needs types nobody used before, so each runs in its own process.

// chain: A -> B -> C, C does not fit its tags; D is fine and used by all
type (
	g1A struct {
		D *g1D `protobuf:"bytes,1,opt,name=d"`
		B *g1B `protobuf:"bytes,2,opt,name=b"`
	}
	g1B struct {
		C *g1C `protobuf:"bytes,1,opt,name=c"`
		D *g1D `protobuf:"bytes,2,opt,name=d"`
	}
	g1C struct {
		D *g1D  `protobuf:"bytes,1,opt,name=d"`
		X int32 `protobuf:"bytes,2,opt,name=x"`
	}
	g1D struct {
		V int32 `protobuf:"zigzag32,1,opt,name=v"`
		D *g1D  `protobuf:"bytes,2,opt,name=d"`
	}
)

// cycle, edges before the misfit
type (
	g2A struct {
		B *g2B `protobuf:"bytes,1,opt,name=b"`
		D *g2D `protobuf:"bytes,2,opt,name=d"`
	}
	g2B struct {
		C []*g2C `protobuf:"bytes,1,rep,name=c"`
		D *g2D   `protobuf:"bytes,2,opt,name=d"`
	}
	g2C struct {
		A *g2A   `protobuf:"bytes,1,opt,name=a"`
		D *g2D   `protobuf:"bytes,2,opt,name=d"`
		X string `protobuf:"varint,3,opt,name=x"`
	}
	g2D struct {
		V []int32 `protobuf:"varint,1,rep,packed,name=v"`
		D []*g2D  `protobuf:"bytes,2,rep,name=d"`
	}
)

// cycle, an unreadable tag first
type (
	g3A struct {
		B map[string]*g3B `protobuf:"bytes,1,rep,name=b" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
		D *g3D            `protobuf:"bytes,2,opt,name=d"`
	}
	g3B struct {
		D map[int32]*g3D `protobuf:"bytes,2,rep,name=d" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
		C *g3C           `protobuf:"bytes,1,opt,name=c"`
	}
	g3C struct {
		X string `protobuf:"bytes,opt,name=x"`
		A *g3A   `protobuf:"bytes,1,opt,name=a"`
		D *g3D   `protobuf:"bytes,2,opt,name=d"`
	}
	g3D struct {
		V map[string]*g3D `protobuf:"bytes,1,rep,name=v" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	}
)

// cycle, an unreadable tag last, by-value and map edges
type (
	g4A struct {
		D g4D  `protobuf:"bytes,2,opt,name=d"`
		B *g4B `protobuf:"bytes,1,opt,name=b"`
	}
	g4B struct {
		C map[int32]g4C `protobuf:"bytes,1,rep,name=c" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	}
	g4C struct {
		D []g4D `protobuf:"bytes,2,rep,name=d"`
		A *g4A  `protobuf:"bytes,1,opt,name=a"`
		X int32 `protobuf:"varint,0,opt,name=x"`
	}
	g4D struct {
		V int64 `protobuf:"varint,1,opt,name=v"`
	}
)

// through oneofs; duplicate number
type (
	isG5 interface{ isG5() }
	g5A  struct {
		O isG5 `protobuf_oneof:"o"`
	}
	g5Ab struct {
		B *g5B `protobuf:"bytes,1,opt,name=b,oneof"`
	}
	g5Ad struct {
		D *g5D `protobuf:"bytes,2,opt,name=d,oneof"`
	}
	g5B struct {
		C *g5C `protobuf:"bytes,1,opt,name=c"`
	}
	g5C struct {
		O isG5  `protobuf_oneof:"o"`
		X int32 `protobuf:"varint,1,opt,name=x"`
	}
	g5Ca struct {
		A *g5A `protobuf:"bytes,1,opt,name=a,oneof"`
	}
	g5D struct {
		O isG5 `protobuf_oneof:"o"`
	}
	g5Dd struct {
		D *g5D `protobuf:"bytes,1,opt,name=d,oneof"`
	}
	g5Dv struct {
		V string `protobuf:"bytes,2,opt,name=v,oneof"`
	}
)

func (*g5Ab) isG5()                           {}
func (*g5Ad) isG5()                           {}
func (*g5Ca) isG5()                           {}
func (*g5Dd) isG5()                           {}
func (*g5Dv) isG5()                           {}
func (*g5A) XXX_OneofWrappers() []interface{} { return []interface{}{(*g5Ab)(nil), (*g5Ad)(nil)} }
func (*g5C) XXX_OneofWrappers() []interface{} { return []interface{}{(*g5Ca)(nil)} }
func (*g5D) XXX_OneofWrappers() []interface{} { return []interface{}{(*g5Dd)(nil), (*g5Dv)(nil)} }

// all good, a cycle of three with packed, map and list fields
type (
	g6A struct {
		B *g6B            `protobuf:"bytes,1,opt,name=b"`
		L []int32         `protobuf:"zigzag32,2,rep,packed,name=l"`
		D map[string]*g6D `protobuf:"bytes,3,rep,name=d" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	}
	g6B struct {
		C             []*g6C           `protobuf:"bytes,1,rep,name=c"`
		M             map[int32]string `protobuf:"bytes,2,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
		unknownFields []byte
	}
	g6C struct {
		A map[int64]*g6A `protobuf:"bytes,1,rep,name=a" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
		S *string        `protobuf:"bytes,2,opt,name=s"`
		V g6D            `protobuf:"bytes,4,opt,name=v"`
	}
	g6D struct {
		F *float64 `protobuf:"fixed64,1,opt,name=f"`
		Y [][]byte `protobuf:"bytes,2,rep,name=y"`
	}
)

// a bad type shares good ones reached only through it first; the same field type (map) with different tags in several messages
type (
	g7A struct {
		M map[int32]int32 `protobuf:"bytes,1,rep,name=m" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
		B *g7B            `protobuf:"bytes,2,opt,name=b"`
	}
	g7B struct {
		M map[int32]int32 `protobuf:"bytes,1,rep,name=m" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
		L []int32         `protobuf:"fixed32,2,rep,name=l"`
	}
	g7C struct {
		M map[int32]int32 `protobuf:"bytes,1,rep,name=m" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
		B *g7B            `protobuf:"bytes,2,opt,name=b"`
		A *g7A            `protobuf:"bytes,3,opt,name=a"`
	}
	g7D struct {
		M map[int32]int32 `protobuf:"bytes,1,rep,name=m" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
		L []int32         `protobuf:"zigzag32,2,rep,packed,name=l"`
	}
)

type gtGraph struct {
	name string
	ts   [4]reflect.Type
	bad  [4]bool
}

var gtGraphs = []gtGraph{
	{"chain", [4]reflect.Type{ty[g1A](), ty[g1B](), ty[g1C](), ty[g1D]()}, [4]bool{true, true, true, false}},
	{"cycle, misfit last", [4]reflect.Type{ty[g2A](), ty[g2B](), ty[g2C](), ty[g2D]()}, [4]bool{true, true, true, false}},
	{"cycle, bad tag first", [4]reflect.Type{ty[g3A](), ty[g3B](), ty[g3C](), ty[g3D]()}, [4]bool{true, true, true, false}},
	{"cycle, bad tag last", [4]reflect.Type{ty[g4A](), ty[g4B](), ty[g4C](), ty[g4D]()}, [4]bool{true, true, true, false}},
	{"oneofs, duplicate number", [4]reflect.Type{ty[g5A](), ty[g5B](), ty[g5C](), ty[g5D]()}, [4]bool{true, true, true, false}},
	{"all good", [4]reflect.Type{ty[g6A](), ty[g6B](), ty[g6C](), ty[g6D]()}, [4]bool{}},
	{"shared map type", [4]reflect.Type{ty[g7A](), ty[g7B](), ty[g7C](), ty[g7D]()}, [4]bool{false, false, true, false}},
}

var gtCallNames = []string{"Marshal", "Size", "Unmarshal"}

func gtCall(t reflect.Type, k int) (err error) {
	p := reflect.New(t).Interface()
	switch k {
	case 0:
		_, err = prutal.Marshal(p)
	case 1:
		_, err = prutal.Size(p)
	case 2:
		err = prutal.Unmarshal([]byte{0xf8, 0xff, 0xff, 0xff, 0xf, 1}, p)
	}
	return
}

// TypeHistMain runs in a fresh process: graph index, then call codes (type*3+call).
func TypeHistMain(arg string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Printf("FAIL panic: %v\n", r)
			os.Exit(0)
		}
	}()
	var xs []int
	for _, p := range strings.Split(arg, ",") {
		n, _ := strconv.Atoi(p)
		xs = append(xs, n)
	}
	g := gtGraphs[xs[0]]
	check := func(x int, when string) bool {
		err := gtCall(g.ts[x/3], x%3)
		if (err != nil) != g.bad[x/3] {
			fmt.Printf("FAIL %s(%s) %s returned %v\n", gtCallNames[x%3], g.ts[x/3].Name(), when, err)
			return false
		}
		return true
	}
	for i, x := range xs[1:] {
		if !check(x, fmt.Sprintf("as call %d", i+1)) {
			return
		}
	}
	for x := 0; x < 12; x++ {
		if !check(x, "at the end") {
			return
		}
	}
	Wrappers[ty[g5D]()] = (*g5D)(nil).XXX_OneofWrappers()
	memo := map[reflect.Type]*Schema{}
	for k, t := range g.ts {
		if g.bad[k] {
			continue
		}
		s := FromGo(t, Wrappers[t], memo)
		for _, x := range MsgVals(s, L1, 2) {
			v := x.(*Val)
			p := ToGo(s, v)
			b, err := marshal(p)
			if err != nil {
				fmt.Printf("FAIL Marshal(%s %s): %v\n", t.Name(), v, err)
				return
			}
			got, err := Canon(s, b)
			want, _ := Canon(s, Encode(s, v))
			if err != nil || string(got) != string(want) {
				fmt.Printf("FAIL Marshal(%s %s) = %x, expected %x\n", t.Name(), v, got, want)
				return
			}
			if n, err := size(p); n != len(b) || err != nil {
				fmt.Printf("FAIL Size(%s %s) = %d, %v\n", t.Name(), v, n, err)
				return
			}
			o, err := decodeNew(s, b)
			if err != nil {
				fmt.Printf("FAIL Unmarshal(%s %x): %v\n", t.Name(), b, err)
				return
			}
			if d := Diff(s, Norm(s, v), Norm(s, o)); d != "" {
				fmt.Printf("FAIL round trip of %s %s: %s\n", t.Name(), v, d)
				return
			}
		}
	}
	fmt.Println("OK")
}

func spTypeHist(tier string) *core.Space {
	calls := 12
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	per := 1
	for i := 0; i < depth; i++ {
		per *= calls
	}
	self, _ := os.Executable()
	code := func(i int64) string {
		s := fmt.Sprint(int(i) / per)
		x := int(i) % per
		for k := 0; k < depth; k++ {
			s += fmt.Sprintf(",%d", x%calls)
			x /= calls
		}
		return s
	}
	return &core.Space{Name: "type-histories", N: int64(len(gtGraphs) * per), Block: 8, Run: func(i int64, c *core.Ctx) {
		cmd := exec.Command(self, "-prop", "C10", "-typehist", code(i))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
		out, err := cmd.CombinedOutput()
		c.StateStr(code(i))
		c.Trans(depth + 12)
		c.Trace(1)
		if s := strings.TrimSpace(string(out)); err != nil || s != "OK" {
			if len(s) > 600 {
				s = s[:600]
			}
			c.Fail("history:"+gtGraphs[int(i)/per].name, "%s (%v)", s, err)
		}
	}, Describe: func(i int64) string {
		g := gtGraphs[int(i)/per]
		s := g.name + ":"
		x := int(i) % per
		for k := 0; k < depth; k++ {
			s += fmt.Sprintf(" %s(%s)", gtCallNames[x%calls%3], g.ts[x%calls/3].Name())
			x /= calls
		}
		return s
	}}
}
