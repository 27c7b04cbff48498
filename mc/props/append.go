package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/cloudwego/prutal"
	"github.com/cloudwego/prutal/pkg/grpccodec"
	"verif/mc/core"
	. "verif/mc/pb"
)

// srcBig: shapes whose size or count crosses thresholds the other sources do
// not reach: long lists, large maps, dense and sparse field tables, large payloads.
func srcBig(thorough bool) source {
	type ent struct {
		s *Schema
		v *Val
	}
	var es []ent
	nlist := []int{999, 1000, 1001, 1025, 4097}
	nmap := []int{64, 65, 128, 500, 1001}
	if thorough {
		nlist = append(nlist, 20000, 70000)
		nmap = append(nmap, 5000, 20000)
	}
	for _, f := range someShapes() {
		switch f.Card {
		case Repeated, Packed:
			s := Build(UnkLower, at(f, 2))
			e := ElemVals(f, L1, 1)
			for _, n := range nlist {
				l := make([]any, n)
				for i := range l {
					l[i] = e[i%len(e)]
				}
				es = append(es, ent{s, valOf(2, l)})
			}
		case Map:
			s := Build(UnkLower, at(f, 2))
			e := ElemVals(f, L1, 1)
			for _, n := range nmap {
				m := map[any]any{}
				for i := 0; i < n; i++ {
					var k any
					switch f.Key {
					case String:
						k = fmt.Sprintf("key%d", i*7)
					case Bool:
						k = uint64(i & 1)
					case Int32, Sint32, Sfixed32:
						k = uint64(int64(int32(i*2654435761 - 77)))
					case Uint32, Fixed32:
						k = uint64(uint32(i * 2654435761))
					default:
						k = uint64(i) * 0x9e3779b97f4a7c15
					}
					m[k] = e[i%len(e)]
				}
				es = append(es, ent{s, valOf(2, m)})
			}
		}
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 1 << 20} {
		for _, k := range []Kind{String, Bytes} {
			for _, c := range []Card{Implicit, Explicit} {
				s := Build(UnkNone, &Field{Num: 3, Kind: k, Card: c})
				es = append(es, ent{s, valOf(3, strings.Repeat("B", n))})
			}
		}
	}
	// dense tables: n fields with numbers first, first+step, ...
	for _, t := range []struct{ n, first, step int32 }{{64, 1, 1}, {300, 1, 1}, {1100, 1, 1}, {300, 1, 3}, {40, 980, 1}, {40, 1, 100}, {30, MaxFieldNum - 29, 1}, {600, 999, 2}} {
		for rev := 0; rev < 2; rev++ {
			var fs []*Field
			v, w := NewVal(), NewVal()
			for i := int32(0); i < t.n; i++ {
				num := t.first + i*t.step
				f := &Field{Num: num, Kind: []Kind{Int32, String, Bool, Fixed64}[i%4], Card: []Card{Implicit, Explicit, Repeated}[i%3]}
				x := Values(f.Kind, L1)[1]
				if f.Card == Repeated {
					x = []any{x, x}
				}
				v.F[num] = x
				if i%5 == 0 {
					w.F[num] = x
				}
				fs = append(fs, f)
			}
			if rev == 1 {
				for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
					fs[i], fs[j] = fs[j], fs[i]
				}
			}
			s := Build(UnkXXX, fs...)
			s.Name = fmt.Sprintf("dense(%d from %d step %d)", t.n, t.first, t.step)
			es = append(es, ent{s, v}, ent{s, w}, ent{s, NewVal()})
		}
	}
	return source{name: "big", n: int64(len(es)), block: 1, get: func(i int64) (*Schema, *Val) { return es[i].s, es[i].v }}
}

// ---- C05 ----

func checkSize(c *core.Ctx, s *Schema, v *Val) {
	p := ToGo(s, v)
	before := FromGoValue(s, p)
	n, err := size(p)
	b, err2 := marshal(p)
	c.Trans(2)
	if err != nil || err2 != nil {
		c.Fail("error", "Size: %v, Marshal: %v", err, err2)
		return
	}
	if n != len(b) {
		c.Fail("size:"+keyShape(s, nil, nil), "Size says %d, Marshal produced %d bytes: %s", n, len(b), hex(b))
	}
	if ref := len(Encode(s, v)); n != ref && n != len(Encode(s, dropEmptyBytes(s, v))) && len(stripLen(s, b)) != len(stripLen(s, Encode(s, v))) {
		c.Fail("size-ref:"+keyShape(s, nil, nil), "Size says %d, reference encoding has %d bytes", n, ref)
	}
	if d := Diff(s, before, FromGoValue(s, p)); d != "" {
		c.Fail("mutated", "Size or Marshal modified the message: %s", d)
	}
	c.StateStr(fmt.Sprint(s.Name, n))
	c.Trace(1)
}

func stripLen(s *Schema, b []byte) []byte {
	o, err := Canon(s, b)
	if err != nil {
		return b
	}
	return o
}

// nilCases: nil typed pointers of every schema.
func nilCases() *core.Space {
	ss := append(shapeSchemas(allShapes(), goodNums...), oneofSchemas()...)
	return &core.Space{Name: "nil-pointers", N: int64(len(ss)), Run: func(i int64, c *core.Ctx) {
		s := ss[i]
		p := reflect.Zero(reflect.PointerTo(s.Go))
		n, err := size(p)
		b, err2 := marshal(p)
		c.Trans(2)
		c.Trace(1)
		if (err == nil) != (err2 == nil) || n != len(b) {
			c.Fail("nil", "nil *%s: Size %d, %v; Marshal %x, %v", s, n, err, b, err2)
		}
	}, Describe: func(i int64) string { return "nil pointer to " + ss[i].String() }}
}

// ---- C06 ----

const canary = 0xa5

func appendOne(c *core.Ctx, s *Schema, p reflect.Value, b, want []byte, plen, spare int) {
	const guard = 32
	back := make([]byte, plen+spare+guard)
	for i := range back {
		back[i] = canary
	}
	for i := 0; i < plen; i++ {
		back[i] = byte(i*31 + 7)
	}
	orig := append([]byte{}, back...)
	dst := back[: plen : plen+spare]
	if plen == 0 && spare == 0 {
		dst = nil
	}
	out, err := marshalAppend(dst, p)
	c.Trans(1)
	if err != nil {
		c.Fail("error", "MarshalAppend(prefix %d, spare %d): %v", plen, spare, err)
		return
	}
	if !bytes.Equal(back[:plen], orig[:plen]) {
		c.Fail("destination-overwritten", "MarshalAppend(prefix %d, spare %d) changed the destination's contents", plen, spare)
	}
	if !bytes.Equal(back[plen+spare:], orig[plen+spare:]) {
		c.Fail("beyond-capacity", "MarshalAppend(prefix %d, spare %d) wrote beyond the destination's capacity", plen, spare)
	}
	if len(out) < plen || !bytes.Equal(out[:plen], orig[:plen]) {
		c.Fail("prefix-lost", "MarshalAppend(prefix %d, spare %d) does not start with the destination's contents", plen, spare)
		return
	}
	if bytes.Equal(out[plen:], b) {
		for i := range out {
			out[i] = 0xee
		}
		return
	}
	got, err := Canon(s, out[plen:]) // map entries may come in any order
	if err != nil || !bytes.Equal(got, want) || len(b) != len(out)-plen {
		c.Fail("appended:"+keyShape(s, nil, nil), "MarshalAppend(prefix %d, spare %d) appended %s (%v), Marshal gives %s", plen, spare, hex(out[plen:]), err, hex(want))
	}
	for i := range out {
		out[i] = 0xee
	}
}

func spares(n int, all bool) []int {
	var out []int
	if all || n <= 64 {
		for i := 0; i <= n+12; i++ {
			out = append(out, i)
		}
		return out
	}
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			if i >= 0 && (len(out) == 0 || i > out[len(out)-1]) {
				out = append(out, i)
			}
		}
	}
	add(0, 16)
	add(124, 136)
	add(n/2-2, n/2+2)
	add(n-20, n+12)
	return out
}

func checkAppend(prefixes []int, allSpares int) func(c *core.Ctx, s *Schema, v *Val) {
	return func(c *core.Ctx, s *Schema, v *Val) {
		p := ToGo(s, v)
		before := FromGoValue(s, p)
		b, err := marshal(p)
		if err != nil {
			c.Fail("error", "Marshal: %v", err)
			return
		}
		want, err := Canon(s, b)
		if err != nil {
			c.Fail("malformed-output", "Marshal output %s: %v", hex(b), err)
			return
		}
		for _, pl := range prefixes {
			for _, sp := range spares(len(b), len(b) <= allSpares) {
				appendOne(c, s, p, b, want, pl, sp)
				if c.Failed() {
					return
				}
			}
		}
		// the results were overwritten: the message must not care
		if d := Diff(s, before, FromGoValue(s, p)); d != "" {
			c.Fail("shared", "overwriting the result changed the message: %s", d)
		}
		runtime.KeepAlive(p)
		c.StateStr(s.Name + string(want))
		c.Trace(1)
	}
}

// srcLenSmall is the length-boundary family without the very large sizes.
func appendSources(tier string) []*core.Space {
	var out []*core.Space
	pre := []int{0, 1, 5, 130}
	if tier == "thorough" {
		out = append(out, srcSingle([]int32{1, 1001}, L2).space(checkAppend(pre, 700)))
		out = append(out, srcPairs(L0).space(checkAppend([]int{0, 3}, 700)))
		out = append(out, srcLen(true).space(checkAppend(pre, 700)))
		out = append(out, srcStatic(L1).space(checkAppend([]int{0, 3, 200}, 1200)))
		out = append(out, srcBig(false).space(checkAppend([]int{0, 1}, 0)))
		return out
	}
	out = append(out, srcSome("shapes", []int32{1, 1001}, L1).space(checkAppend(pre, 400)))
	out = append(out, srcLen(false).space(checkAppend([]int{0, 9}, 300)))
	out = append(out, srcStatic(L0).space(checkAppend([]int{0, 3}, 400)))
	return out
}

// destination failures: the destination stays intact when encoding fails.
func appendErrors() *core.Space {
	deep := func(n int) *recT {
		m := &recT{A: 7}
		for i := 1; i < n; i++ {
			m = &recT{A: int32(i), P: m}
		}
		return m
	}
	vals := []any{deep(1001), deep(1500), &struct {
		A []*int32 `protobuf:"varint,1,rep,name=a"`
	}{}, struct{}{}, nil, 5, "x", new(int)}
	pls := []int{0, 1, 7, 64}
	sps := []int{0, 1, 100, 5000}
	n := len(vals) * len(pls) * len(sps)
	return &core.Space{Name: "failing-encode", N: int64(n), Run: func(i int64, c *core.Ctx) {
		v := vals[int(i)%len(vals)]
		pl := pls[int(i)/len(vals)%len(pls)]
		sp := sps[int(i)/len(vals)/len(pls)]
		back := bytes.Repeat([]byte{canary}, pl+sp+32)
		_, err := prutal.MarshalAppend(back[:pl:pl+sp], v)
		c.Trans(1)
		c.Trace(1)
		if err == nil {
			c.Fail("no-error", "MarshalAppend(%T) succeeded", v)
		}
		if x := bytes.Repeat([]byte{canary}, pl); !bytes.Equal(back[:pl], x) {
			c.Fail("destination-overwritten", "failing MarshalAppend changed the destination")
		}
		if x := bytes.Repeat([]byte{canary}, 32); !bytes.Equal(back[pl+sp:], x) {
			c.Fail("beyond-capacity", "failing MarshalAppend wrote beyond the capacity")
		}
	}, Describe: func(i int64) string { return fmt.Sprintf("value %d", int(i)%len(vals)) }}
}

// ---- C14 ----

var codec grpccodec.PrutalCodec

func checkCodecEncode(c *core.Ctx, s *Schema, v *Val) {
	p := ToGo(s, v)
	b, err := codec.Marshal(p.Interface())
	w, err2 := prutal.Marshal(p.Interface())
	c.Trans(2)
	if errStr(err) != errStr(err2) {
		c.Fail("marshal-error", "codec: %v, library: %v", err, err2)
		return
	}
	x, e1 := Canon(s, b)
	y, e2 := Canon(s, w)
	if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
		c.Fail("marshal", "codec gives %s, library %s", hex(b), hex(w))
		return
	}
	if len(b) == 0 && (b == nil) != (w == nil) {
		c.Fail("marshal-nil", "codec gives %#v, library %#v", b, w)
	}
	q := NewGo(s)
	if err := codec.Unmarshal(w, q.Interface()); err != nil {
		c.Fail("unmarshal-error", "codec rejects %s: %v", hex(w), err)
		return
	}
	if d := Diff(s, dropEmptyBytes(s, Norm(s, v)), dropEmptyBytes(s, Norm(s, FromGoValue(s, q)))); d != "" {
		c.Fail("unmarshal", "codec decodes %s wrongly: %s", hex(w), d)
	}
	// a result is not touched by later calls
	keep := append([]byte{}, b...)
	b2, _ := codec.Marshal(p.Interface())
	for i := range b2 {
		b2[i] = 0xee
	}
	if !bytes.Equal(keep, b) {
		c.Fail("shared-result", "a second codec.Marshal changed the first result")
	}
	c.Trans(2)
	c.StateStr(s.Name + string(x))
	c.Trace(1)
}

func checkCodecDecode(c *core.Ctx, s *Schema, b []byte) {
	p, q := NewGo(s), NewGo(s)
	err := codec.Unmarshal(b, p.Interface())
	err2 := prutal.Unmarshal(b, q.Interface())
	c.Trans(2)
	if errStr(err) != errStr(err2) {
		c.Fail("unmarshal-error", "on %s codec: %v, library: %v", hex(b), err, err2)
		return
	}
	if d := Diff(s, FromGoValue(s, q), FromGoValue(s, p)); d != "" {
		c.Fail("unmarshal", "on %s the codec decodes differently: %s", hex(b), d)
	}
	// into the same message again: merge behaves the same through the codec
	e1, e2 := codec.Unmarshal(b, p.Interface()), prutal.Unmarshal(b, q.Interface())
	c.Trans(2)
	if errStr(e1) != errStr(e2) {
		c.Fail("unmarshal-error", "second decode of %s codec: %v, library: %v", hex(b), e1, e2)
	}
	if d := Diff(s, FromGoValue(s, q), FromGoValue(s, p)); d != "" {
		c.Fail("unmarshal-merge", "decoding %s a second time through the codec differs: %s", hex(b), d)
	}
	c.StateStr(s.Name + string(b))
	c.Trace(1)
}

func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

func codecMisc() *core.Space {
	deep := &recT{A: 7}
	for i := 0; i < 1500; i++ {
		deep = &recT{P: deep}
	}
	vals := []any{nil, 5, "x", []byte("abc"), struct{}{}, new(int), new(string), deep, &recT{A: 3}, (*recT)(nil), &struct {
		A []*int32 `protobuf:"varint,1,rep,name=a"`
	}{}, &struct {
		A chan int `protobuf:"varint,1,opt,name=a"`
	}{}, map[string]int{}, &map[string]int{}, []int{1}}
	call := func(f func() (any, error)) (r string) {
		defer func() {
			if x := recover(); x != nil {
				r = fmt.Sprint("panic: ", x)
			}
		}()
		v, err := f()
		return fmt.Sprint(v, " ", errStr(err))
	}
	ins := [][]byte{nil, {}, {8, 1}, {8}, {0xff}, {0x12, 0}}
	return &core.Space{Name: "any-argument", N: int64(len(vals) * (len(ins) + 1)), Run: func(i int64, c *core.Ctx) {
		v := vals[int(i)%len(vals)]
		k := int(i) / len(vals)
		var x, y string
		if k == 0 {
			x = call(func() (any, error) { return codec.Marshal(v) })
			y = call(func() (any, error) { return prutal.Marshal(v) })
		} else {
			b := ins[k-1]
			if _, ok := v.(*recT); ok && reflect.ValueOf(v).IsNil() {
				return // Unmarshal into a nil message is a programming error
			}
			if v == any(deep) {
				return // would modify the shared value
			}
			x = call(func() (any, error) { return nil, codec.Unmarshal(b, v) })
			y = call(func() (any, error) { return nil, prutal.Unmarshal(b, v) })
		}
		c.Trans(2)
		c.Trace(1)
		if x != y {
			c.Fail("misc", "%T: codec %.200s, library %.200s", v, x, y)
		}
		if codec.Name() != "proto" {
			c.Fail("name", "codec is named %q", codec.Name())
		}
	}, Describe: func(i int64) string { return fmt.Sprintf("%T call %d", vals[int(i)%len(vals)], int(i)/len(vals)) }}
}

func init() {
	reg(&core.Prop{ID: "C05", Level: "model_checking", Rule: ruleValues,
		Bounds: "values as C01, plus lists to 70000 elements, maps to 20000 entries, messages of up to 1100 fields, and a nil pointer of every type",
		Assume: []string{"values outside the boundary alphabets behave like the alphabet value with the same encoded length"},
		Spaces: func(tier string) []*core.Space {
			var out []*core.Space
			for _, s := range valueSources(tier) {
				out = append(out, s.space(checkSize))
			}
			return append(out, nilCases(), depthSpaceSize())
		}})
	reg(&core.Prop{ID: "C06", Level: "model_checking", Rule: "For every value of the listed families, MarshalAppend is called once for every prefix length and every spare capacity from 0 to the encoding's length + 12 (for encodings above 400 bytes: every capacity around each growth and back-patch boundary). Every buffer is fenced by canary bytes beyond its capacity; results are overwritten afterwards. A case (one value with all its buffers) is non-trivial when the message is not empty.",
		Bounds: "prefix lengths 0, 1, 5, 130; all spare capacities 0..n+12 for encodings up to 400 (thorough 700) bytes, boundary capacities above",
		Assume: []string{"capacities between the enumerated boundaries behave like their neighbours for encodings above the exhaustive limit"},
		Spaces: func(tier string) []*core.Space { return append(appendSources(tier), appendErrors()) }})
	reg(&core.Prop{ID: "C14", Level: "model_checking", Rule: "Every value and every input of the listed families goes through the codec and through the library; results, errors and decoded messages are compared. A case is non-trivial when it puts at least one byte on the wire or is an error case.",
		Bounds: "single-field and compiled-type value families; one- and two-record inputs, ill-formed records; odd arguments",
		Assume: []string{"the library itself is decided by the other properties"},
		Spaces: func(tier string) []*core.Space {
			all := shapeSchemas(allShapes(), goodNums...)
			some := shapeSchemas(someShapes(), goodNums...)
			l := L1
			two := some
			if tier == "thorough" {
				l, two = L2, all
			}
			return []*core.Space{srcSingle([]int32{1, 1001}, l).space(checkCodecEncode), srcStatic(L0).space(checkCodecEncode), srcLen(false).space(checkCodecEncode),
				seqs("one-record", all, 1, goodAlpha(L1, 10)).space(checkCodecDecode),
				seqs("two-records", two, 2, goodAlpha(L0, 3)).space(checkCodecDecode),
				seqs("bad-records", all, 1, badAlpha(L1)).space(checkCodecDecode), codecMisc()}
		}})
}
