package props

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"verif/mc/core"
	. "verif/mc/pb"
)

func hex(b []byte) string {
	if len(b) > 120 {
		return fmt.Sprintf("%x..(%d bytes)", b[:120], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// dropEmptyBytes removes explicit non-pointer empty bytes (used only to name a finding).
func dropEmptyBytes(s *Schema, v *Val) *Val {
	o := Clone(v)
	var walk func(s *Schema, v *Val)
	sub := func(f *Field, x any) {
		if m, ok := x.(*Val); ok {
			walk(f.Msg, m)
		}
	}
	walk = func(s *Schema, v *Val) {
		for _, f := range s.Fields {
			x, ok := v.F[f.Num]
			if !ok {
				continue
			}
			if f.Kind == Bytes && !f.PtrBytes && (f.Card == Explicit || f.Card == Required) && x == "" {
				delete(v.F, f.Num)
				continue
			}
			if f.Kind == Message {
				switch t := x.(type) {
				case []any:
					for _, e := range t {
						sub(f, e)
					}
				case map[any]any:
					for _, e := range t {
						sub(f, e)
					}
				default:
					sub(f, x)
				}
			}
		}
	}
	walk(s, o)
	return o
}

const keyEmptyBytes = "explicit-empty-bytes-lost"

func diffKey(d string) string {
	// the text between the first parentheses is the field's shape
	i := strings.IndexByte(d, '(')
	j := strings.LastIndexByte(d, ')')
	if i >= 0 && j > i {
		if k := strings.Index(d[i:], "):"); k > 0 {
			return d[i+1 : i+k]
		}
	}
	return "value"
}

// roundtrip: value -> Marshal -> Unmarshal into a fresh struct -> same value.
func checkRoundTrip(c *core.Ctx, s *Schema, v *Val) {
	want := Norm(s, v)
	p := ToGo(s, v)
	b, err := marshal(p)
	if err != nil {
		c.Fail("marshal-error", "Marshal failed: %v", err)
		return
	}
	q := NewGo(s)
	if err := unmarshal(b, q); err != nil {
		c.Fail("unmarshal-error", "Unmarshal of own output %s failed: %v", hex(b), err)
		return
	}
	got := FromGoValue(s, q)
	runtime.KeepAlive(q)
	c.Trans(2)
	c.Trace(1)
	c.StateBytes([]byte(s.Name), b)
	if d := Diff(s, want, Norm(s, got)); d != "" {
		if Diff(s, Norm(s, dropEmptyBytes(s, want)), Norm(s, dropEmptyBytes(s, Norm(s, got)))) == "" {
			c.Fail(keyEmptyBytes, "explicit-presence bytes set to empty came back unset: %s", d)
			return
		}
		c.Fail("roundtrip:"+diffKey(d), "round trip changed the message: %s\nwire %s", d, hex(b))
	}
	// the message itself must not have been modified by encoding it
	if d := Diff(s, want, Norm(s, FromGoValue(s, p))); d != "" {
		c.Fail("mutated-by-marshal", "Marshal modified its argument: %s", d)
	}
	runtime.KeepAlive(p)
	// one extra generation: re-encoding the decoded value and decoding again is stable
	b2, err := marshal(q)
	c.Trans(1)
	if err != nil || len(b2) != len(b) {
		c.Fail("reencode", "re-encoding the decoded message: err=%v, %d bytes vs %d", err, len(b2), len(b))
	}
}

type dynCache struct {
	m map[*Schema]protoreflect.MessageType
}

func (d *dynCache) get(s *Schema) protoreflect.MessageType {
	if d.m == nil {
		d.m = map[*Schema]protoreflect.MessageType{}
	}
	if t, ok := d.m[s]; ok {
		return t
	}
	t, err := Dyn(s)
	if err != nil {
		panic(fmt.Sprintf("Dyn(%s): %v", s, err))
	}
	d.m[s] = t
	return t
}

// wire: the encoding is exactly the reference encoding (up to map order), and
// the official library reads it as the same message.
func checkWire(dc *dynCache) func(c *core.Ctx, s *Schema, v *Val) {
	return func(c *core.Ctx, s *Schema, v *Val) {
		p := ToGo(s, v)
		b, err := marshal(p)
		c.Trans(1)
		if err != nil {
			c.Fail("marshal-error", "Marshal failed: %v", err)
			return
		}
		ref := Encode(s, v)
		c.StateBytes([]byte(s.Name), ref)
		got, err := Canon(s, b)
		if err != nil {
			c.Fail("malformed-output", "Marshal output %s is not canonical: %v", hex(b), err)
			return
		}
		want, err := Canon(s, ref)
		if err != nil {
			panic(fmt.Sprintf("model encoder: %v", err))
		}
		if !bytes.Equal(got, want) {
			alt, _ := Canon(s, Encode(s, dropEmptyBytes(s, v)))
			if bytes.Equal(got, alt) {
				c.Fail(keyEmptyBytes, "explicit-presence bytes set to empty is not emitted: %s", s)
			} else {
				c.Fail("bytes:"+keyShape(s, got, want), "Marshal produced\n %s\nspecification says\n %s", hex(got), hex(want))
			}
			return
		}
		// second oracle: the official library
		mt := dc.get(s)
		db, err := DynDecode(s, mt, b)
		if err != nil {
			c.Fail("official-rejects", "official library rejects %s: %v", hex(b), err)
			return
		}
		if w, _ := Canon(s, SortRecords(s, ref)); !bytes.Equal(stripEmptyByVal(s, db), w) {
			c.Fail("official-differs", "official library re-encodes %s as %s, expected %s", hex(b), hex(db), hex(w))
		}
		c.Trace(1)
	}
}

func stripEmptyByVal(s *Schema, b []byte) []byte {
	o, err := Canon(s, b)
	if err != nil {
		return b
	}
	return o
}

func keyShape(s *Schema, a, b []byte) string {
	var ss []string
	for _, f := range s.Fields {
		ss = append(ss, f.Shape())
		if len(ss) > 3 {
			ss = append(ss, "..")
			break
		}
	}
	return strings.Join(ss, "+")
}

// official: a message built by the official generator encodes to the same
// fields with both libraries, and each library reads the other's bytes.
func checkOfficial(c *core.Ctx, s *Schema, v *Val, t staticType) {
	p := ToGo(s, v)
	b, err := marshal(p)
	if err != nil {
		c.Fail("marshal-error", "Marshal failed: %v", err)
		return
	}
	om := p.Interface().(proto.Message)
	ob, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(om)
	if err != nil {
		if strings.Contains(err.Error(), "UTF-8") {
			return // official proto3 refuses invalid UTF-8; documented non-goal here
		}
		c.Fail("official-marshal", "official Marshal: %v", err)
		return
	}
	c.Trans(2)
	x, err := Canon(s, b)
	if err != nil {
		c.Fail("malformed-output", "Marshal output %s is not canonical: %v", hex(b), err)
		return
	}
	y, err := Canon(s, SortRecords(s, ob))
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(x, y) {
		alt, _ := Canon(s, Encode(s, dropEmptyBytes(s, v)))
		if bytes.Equal(x, alt) {
			c.Fail(keyEmptyBytes, "explicit-presence bytes set to empty is not emitted (official emits it)")
			return
		}
		c.Fail("official-bytes:"+t.name, "Marshal produced\n %s\nofficial produced\n %s", hex(x), hex(y))
	}
	q := reflect.New(s.Go)
	if err := unmarshal(ob, q); err != nil {
		c.Fail("reject-official", "cannot read the official encoding %s: %v", hex(ob), err)
		return
	}
	if !proto.Equal(om, q.Interface().(proto.Message)) {
		c.Fail("official-decode:"+t.name, "decoding the official encoding %s gives a different message", hex(ob))
	}
	c.Trans(1)
	c.Trace(1)
}

func valueSources(tier string) []source {
	big := srcBig(tier == "thorough")
	nums := []int32{1, 16, 1000, 1001, MaxFieldNum}
	if tier == "thorough" {
		return []source{srcSingle(numbers, L2), srcNumbers(), srcPairs(L1), srcLen(true), srcStatic(L2), srcNested(), big}
	}
	return []source{srcSingle(nums, L2), srcNumbers(), srcPairs(L0), srcLen(false), srcStatic(L1), srcNested(), big}
}
