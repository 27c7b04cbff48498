From f943084d10f828f45f10fa064980a5f8220b5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 01/40] fix: encode oneof fields which are set to their zero
 value

A set oneof member has explicit presence, but Marshal and Size skipped it
when its value was zero, so the oneof came back unset.
---
 internal/prutal/encoder.go | 3 +++
 internal/prutal/sizer.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/prutal/encoder.go b/internal/prutal/encoder.go
index 868c131..3f0e40e 100644
--- a/internal/prutal/encoder.go
+++ b/internal/prutal/encoder.go
@@ -78,6 +78,9 @@ func (e *Encoder) AppendStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		case t.SliceLike: // for slice or string, both can use StringHeader
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
 		}
+		if f.IsOneof() && !t.IsPointer {
+			skipzero = false // a set oneof field is always present, even if it's zero
+		}
 		if skipzero {
 			continue
 		}
diff --git a/internal/prutal/sizer.go b/internal/prutal/sizer.go
index a185d90..36c87d4 100644
--- a/internal/prutal/sizer.go
+++ b/internal/prutal/sizer.go
@@ -60,6 +60,9 @@ func SizeStruct(base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, err
 		case t.SliceLike:
 			skipzero = ((*hack.StringHeader)(p)).Len == 0
 		}
+		if f.IsOneof() && !t.IsPointer {
+			skipzero = false // a set oneof field is always present, even if it's zero
+		}
 		if skipzero {
 			continue
 		}
-- 
2.43.0


From eaac091149fdd934c2fcac2bec4ab54029745406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 02/40] fix: append packed records to the elements already
 decoded

The elements of a repeated field may be split over several packed records and
mixed with unpacked ones, each packed record replaced all of the elements
decoded before it.
---
 internal/wire/decoder_packed.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 49b399b..479fd8c 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -60,6 +60,9 @@ func DecodePackedVarintU64(b []byte, h unsafe.Pointer) error {
 		vv = append(vv, v)
 		b = b[n:]
 	}
+	if old := *(*[]uint64)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]uint64)(h) = vv
 	return nil
 }
@@ -90,6 +93,9 @@ func DecodePackedVarintU32(b []byte, h unsafe.Pointer) error {
 		vv = append(vv, uint32(v))
 		b = b[n:]
 	}
+	if old := *(*[]uint32)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]uint32)(h) = vv
 	return nil
 }
@@ -120,6 +126,9 @@ func DecodePackedZigZag64(b []byte, h unsafe.Pointer) error {
 		vv = append(vv, protowire.DecodeZigZag(v))
 		b = b[n:]
 	}
+	if old := *(*[]int64)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]int64)(h) = vv
 	return nil
 }
@@ -150,6 +159,9 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		vv = append(vv, int32(protowire.DecodeZigZag(v)))
 		b = b[n:]
 	}
+	if old := *(*[]int32)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]int32)(h) = vv
 	return nil
 }
@@ -166,6 +178,9 @@ func DecodePackedFixed64(b []byte, h unsafe.Pointer) error {
 				uint64(b[4])<<32|uint64(b[5])<<40|uint64(b[6])<<48|uint64(b[7])<<56)
 		b = b[8:]
 	}
+	if old := *(*[]uint64)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]uint64)(h) = vv
 	return nil
 }
@@ -180,6 +195,9 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 		vv = append(vv, uint32(b[0])<<0|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24)
 		b = b[4:]
 	}
+	if old := *(*[]uint32)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]uint32)(h) = vv
 	return nil
 }
@@ -189,6 +207,9 @@ func DecodePackedBool(b []byte, h unsafe.Pointer) error {
 	for i, c := range b {
 		vv[i] = c > 0
 	}
+	if old := *(*[]bool)(h); len(old) > 0 {
+		vv = append(old, vv...)
+	}
 	*(*[]bool)(h) = vv
 	return nil
 }
-- 
2.43.0


From e6b80fde344faba2f58074f1de22ac6c981ed142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 03/40] fix: accept the packed form for repeated scalar fields
 declared unpacked

---
 internal/desc/funcs.go     | 6 ++++--
 internal/prutal/decoder.go | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/desc/funcs.go b/internal/desc/funcs.go
index e824be2..ecc988f 100644
--- a/internal/desc/funcs.go
+++ b/internal/desc/funcs.go
@@ -65,8 +65,10 @@ func getDecodeFunc(f *FieldDesc) wire.DecodeFunc {
 		// Returns nil for maps with complex types (e.g., struct values, nested maps)
 		return getMapDecodeFunc(f)
 	}
-	if f.Packed {
-		// Returns optimized decoder for packed repeated scalar fields
+	if f.Packed || f.IsList {
+		// Returns optimized decoder for packed repeated scalar fields,
+		// parsers must accept the packed form even if it's declared as unpacked.
+		// Returns nil for string, bytes and message fields.
 		return getPackedDecodeFunc(f)
 	}
 	// Non-packed, non-map fields use generic decoding
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index eeb5e53..4843ae2 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -148,7 +148,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 
 		if f.Repeated && t.IsSlice {
 			t = t.V
-			if typ == wire.TypeBytes && f.Packed {
+			if typ == wire.TypeBytes && (f.Packed || f.DecodeFunc != nil) {
 				// packed repeated fields, only scalar types except string or bytes
 				if f.DecodeFunc == nil {
 					panic(fmt.Sprintf("BUG? unknown packed field %q (#%d)", f.Name, f.ID))
-- 
2.43.0


From a1d4e97b9d15abec1ea899b69e87afb3298f7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 04/40] fix: decode any non-zero varint as true

Bool fields only looked at the lowest bit, and packed bools treated every byte
of a multi-byte varint as an element.
---
 internal/prutal/decoder.go      | 12 ++++++------
 internal/wire/decoder_packed.go | 19 +++++++++++++++++++
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 4843ae2..43dde57 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -199,8 +199,8 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 				*(*int64)(p) = int64(u64)
 			case reflect.Uint64:
 				*(*uint64)(p) = u64
-			case reflect.Bool: // 1 for true, 0 for false
-				*(*byte)(p) = byte(u64 & 0x1)
+			case reflect.Bool: // any non-zero value is true
+				*(*bool)(p) = u64 != 0
 			}
 			i += n
 
@@ -342,8 +342,8 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
@@ -448,8 +448,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 			*(*int64)(p) = int64(u64)
 		case reflect.Uint64:
 			*(*uint64)(p) = u64
-		case reflect.Bool: // 1 for true, 0 for false
-			*(*byte)(p) = byte(u64 & 0x1)
+		case reflect.Bool: // any non-zero value is true
+			*(*bool)(p) = u64 != 0
 		}
 		i += n
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 479fd8c..63a82de 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -205,6 +205,13 @@ func DecodePackedFixed32(b []byte, h unsafe.Pointer) error {
 func DecodePackedBool(b []byte, h unsafe.Pointer) error {
 	vv := make([]bool, len(b))
 	for i, c := range b {
+		if c >= 0x80 { // non-canonical, a bool may be any varint
+			var err error
+			if vv, err = appendVarintBools(vv[:i], b[i:]); err != nil {
+				return err
+			}
+			break
+		}
 		vv[i] = c > 0
 	}
 	if old := *(*[]bool)(h); len(old) > 0 {
@@ -213,3 +220,15 @@ func DecodePackedBool(b []byte, h unsafe.Pointer) error {
 	*(*[]bool)(h) = vv
 	return nil
 }
+
+func appendVarintBools(vv []bool, b []byte) ([]bool, error) {
+	for len(b) > 0 {
+		v, n := protowire.ConsumeVarint(b)
+		if n < 0 {
+			return nil, io.ErrUnexpectedEOF
+		}
+		vv = append(vv, v != 0)
+		b = b[n:]
+	}
+	return vv, nil
+}
-- 
2.43.0


From ade54e89890b0790b8242f4e05d811bb0cb78ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 05/40] fix: use the low 32 bits of the varint for sint32

Like other 32-bit types, extra high bits of the varint must be discarded
before the zigzag decoding.
---
 internal/prutal/decoder.go      |  9 +++++++++
 internal/wire/decoder_map.go    | 26 +++++++++++++-------------
 internal/wire/decoder_packed.go |  2 +-
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 43dde57..9cb13d9 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -187,6 +187,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			if n < 0 {
 				return 0, protowire.ParseError(n)
 			}
+			if tag == desc.TypeZigZag32 {
+				u64 = uint64(uint32(u64)) // only the low 32 bits are meaningful
+			}
 			if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 				u64 = uint64(protowire.DecodeZigZag(u64))
 			}
@@ -330,6 +333,9 @@ func (d *Decoder) DecodeMapKey(b []byte, p unsafe.Pointer, f *desc.FieldDesc) (i
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(uint32(u64)) // only the low 32 bits are meaningful
+		}
 		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
@@ -436,6 +442,9 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if tag == desc.TypeZigZag32 {
+			u64 = uint64(uint32(u64)) // only the low 32 bits are meaningful
+		}
 		if tag == desc.TypeZigZag32 || tag == desc.TypeZigZag64 {
 			u64 = uint64(protowire.DecodeZigZag(u64))
 		}
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index fd5dff3..ef2e03c 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -236,7 +236,7 @@ func DecodeMap_VarintU32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[uint32(k)] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -341,7 +341,7 @@ func DecodeMap_VarintU64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -446,7 +446,7 @@ func DecodeMap_ZigZag64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int64, int32](mp)
-	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(v))
+	(*m)[protowire.DecodeZigZag(k)] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -506,7 +506,7 @@ func DecodeMap_ZigZag32_VarintU64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = v
 	return nil
 }
 
@@ -521,7 +521,7 @@ func DecodeMap_ZigZag32_VarintU32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = uint32(v)
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = uint32(v)
 	return nil
 }
 
@@ -536,7 +536,7 @@ func DecodeMap_ZigZag32_ZigZag64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = protowire.DecodeZigZag(v)
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = protowire.DecodeZigZag(v)
 	return nil
 }
 
@@ -551,7 +551,7 @@ func DecodeMap_ZigZag32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, int32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = int32(protowire.DecodeZigZag(v))
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -566,7 +566,7 @@ func DecodeMap_ZigZag32_Fixed64(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint64](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = v
 	return nil
 }
 
@@ -581,7 +581,7 @@ func DecodeMap_ZigZag32_Fixed32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, uint32](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = v
 	return nil
 }
 
@@ -596,7 +596,7 @@ func DecodeMap_ZigZag32_Bool(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[int32, bool](mp)
-	(*m)[int32(protowire.DecodeZigZag(k))] = v
+	(*m)[int32(protowire.DecodeZigZag(uint64(uint32(k))))] = v
 	return nil
 }
 
@@ -656,7 +656,7 @@ func DecodeMap_Fixed64_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint64, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -762,7 +762,7 @@ func DecodeMap_Fixed32_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[uint32, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
@@ -868,7 +868,7 @@ func DecodeMap_Bool_ZigZag32(b []byte, mp unsafe.Pointer) error {
 		return err
 	}
 	m := ensureMapNotNil[bool, int32](mp)
-	(*m)[k] = int32(protowire.DecodeZigZag(v))
+	(*m)[k] = int32(protowire.DecodeZigZag(uint64(uint32(v))))
 	return nil
 }
 
diff --git a/internal/wire/decoder_packed.go b/internal/wire/decoder_packed.go
index 63a82de..66cb897 100644
--- a/internal/wire/decoder_packed.go
+++ b/internal/wire/decoder_packed.go
@@ -156,7 +156,7 @@ func DecodePackedZigZag32(b []byte, h unsafe.Pointer) error {
 		if n < 0 {
 			return io.ErrUnexpectedEOF
 		}
-		vv = append(vv, int32(protowire.DecodeZigZag(v)))
+		vv = append(vv, int32(protowire.DecodeZigZag(uint64(uint32(v)))))
 		b = b[n:]
 	}
 	if old := *(*[]int32)(h); len(old) > 0 {
-- 
2.43.0


From 4c33768f36c8bcebc79d45845b299a7f0641db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:55 +0000
Subject: [PATCH 06/40] fix: decode map entries with missing, reordered,
 duplicated or unknown fields

A map entry is an ordinary message on the wire: fields with the default value
may be omitted, the last one wins (or merges) and unknown fields are ignored.
Such entries were rejected, or what followed the first value was ignored.
Also reject field numbers out of the valid range.
---
 internal/prutal/decoder.go   |  7 +++
 internal/prutal/errors.go    |  1 +
 internal/prutal/mapentry.go  | 99 ++++++++++++++++++++++++++++++++++++
 internal/wire/decoder_map.go |  3 +-
 4 files changed, 109 insertions(+), 1 deletion(-)
 create mode 100644 internal/prutal/mapentry.go

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 9cb13d9..9c0e655 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -109,6 +109,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		if n < 0 {
 			return 0, protowire.ParseError(n)
 		}
+		if num > protowire.MaxValidNumber {
+			return 0, errFieldNumber
+		}
 		i += n
 
 		// get field or skip
@@ -268,6 +271,10 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
+				var err error
+				if fb, err = normalizeMapEntry(fb, f); err != nil {
+					return i, err
+				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
 				// These are pre-generated functions optimized for specific map types (e.g., map[uint32]int64)
 				// Available for numeric/bool keys with numeric/bool values only
diff --git a/internal/prutal/errors.go b/internal/prutal/errors.go
index 39d1878..413ac0e 100644
--- a/internal/prutal/errors.go
+++ b/internal/prutal/errors.go
@@ -28,6 +28,7 @@ const defaultRecursionMaxDepth = 1000
 
 var (
 	errMaxDepthExceeded = errors.New("max depth exceeded")
+	errFieldNumber      = errors.New("invalid field number")
 )
 
 func newWireTypeNotMatch(t0 wire.Type, t1 desc.TagType) error {
diff --git a/internal/prutal/mapentry.go b/internal/prutal/mapentry.go
new file mode 100644
index 0000000..1c1d15d
--- /dev/null
+++ b/internal/prutal/mapentry.go
@@ -0,0 +1,99 @@
+/*
+ * Copyright 2025 CloudWeGo Authors
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *     http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+package prutal
+
+import (
+	"github.com/cloudwego/prutal/internal/desc"
+	"github.com/cloudwego/prutal/internal/protowire"
+	"github.com/cloudwego/prutal/internal/wire"
+)
+
+// isPlainMapEntry returns true if b is exactly one key followed by one value,
+// which is what encoders normally write.
+func isPlainMapEntry(b []byte, f *desc.FieldDesc) bool {
+	for num, typ := range [...]wire.Type{1: f.KeyWireType, 2: f.ValWireType} {
+		if num == 0 {
+			continue
+		}
+		if len(b) == 0 || uint64(b[0]) != wire.EncodeTag(int32(num), typ) {
+			return false
+		}
+		n := protowire.ConsumeFieldValue(protowire.Number(num), typ, b[1:])
+		if n < 0 {
+			return false
+		}
+		b = b[1+n:]
+	}
+	return len(b) == 0
+}
+
+// normalizeMapEntry converts a map entry to one key followed by one value.
+//
+// A map entry is a message, its fields may be in any order, missing, duplicated
+// or mixed with unknown ones.
+func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+	if isPlainMapEntry(b, f) {
+		return b, nil
+	}
+	// no tag, default value: a zero varint, zero bytes of a fixed, or an empty LEN
+	zero := [...][]byte{
+		wire.TypeVarint:  {0},
+		wire.TypeFixed64: {0, 0, 0, 0, 0, 0, 0, 0},
+		wire.TypeBytes:   {0},
+		wire.TypeFixed32: {0, 0, 0, 0},
+	}
+	key, val := zero[f.KeyWireType], zero[f.ValWireType]
+	var msg []byte // values of a message are merged
+	for len(b) > 0 {
+		num, typ, n := protowire.ConsumeTag(b)
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		if num > protowire.MaxValidNumber {
+			return nil, errFieldNumber
+		}
+		b = b[n:]
+		n = protowire.ConsumeFieldValue(num, typ, b)
+		if n < 0 {
+			return nil, protowire.ParseError(n)
+		}
+		switch num {
+		case 1:
+			if typ != f.KeyWireType {
+				return nil, newWireTypeNotMatch(typ, f.KeyType)
+			}
+			key = b[:n]
+		case 2:
+			if typ != f.ValWireType {
+				return nil, newWireTypeNotMatch(typ, f.ValType)
+			}
+			val = b[:n]
+			if typ == wire.TypeBytes && f.ValAppendFunc == nil {
+				data, _ := protowire.ConsumeBytes(val)
+				msg = append(msg, data...)
+			}
+		}
+		b = b[n:]
+	}
+	ret := wire.AppendKeyTag(make([]byte, 0, 2+len(key)+len(val)+len(msg)), f.KeyWireType)
+	ret = append(ret, key...)
+	ret = wire.AppendValTag(ret, f.ValWireType)
+	if len(msg) > 0 {
+		return protowire.AppendBytes(ret, msg), nil
+	}
+	return append(ret, val...), nil
+}
diff --git a/internal/wire/decoder_map.go b/internal/wire/decoder_map.go
index ef2e03c..371589c 100644
--- a/internal/wire/decoder_map.go
+++ b/internal/wire/decoder_map.go
@@ -177,7 +177,8 @@ func decodeMap_Bool(b []byte, num int32) (bool, int, error) {
 	if typ != TypeVarint {
 		return false, 0, newTypeNotMatchErr(typ, TypeVarint)
 	}
-	return b[1] != 0, 2, nil
+	v, n, err := decodeMap_Varint(b, num)
+	return v != 0, n, err
 }
 
 func DecodeMap_VarintU32_VarintU32(b []byte, mp unsafe.Pointer) error {
-- 
2.43.0


From a39c50ecdd8d7c62e8cb664c420f675fad9249e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 07/40] fix: count a message in a map as one nesting level when
 decoding

It was counted twice, unlike the encoder, and the limit could be stepped over.
---
 internal/prutal/decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 9c0e655..afc58ab 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -292,7 +292,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth-1); err != nil {
+					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
-- 
2.43.0


From bf82ae0839072a0d98ee1f5aee409ba11ea8dc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 08/40] fix: do not keep old fields when reusing the memory of
 a struct element

---
 internal/prutal/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index afc58ab..fce3069 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -174,6 +174,9 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 			}
 			h.Len++
 			p = unsafe.Add(h.Data, uintptr(h.Len-1)*t.Size) // p = &d[len(d-1)]
+			if t.Kind == reflect.Struct { // memory of a reused slice may keep fields of an old element
+				reflect.NewAt(t.T, p).Elem().SetZero()
+			}
 			if t.IsPointer {
 				p = d.mallocIfPointer(p, t)
 				t = t.V
-- 
2.43.0


From 377c550bf12d85561efb22b028538f1281aded86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 09/40] fix: merge the records of a singular message field

When a singular message field, including a oneof member, is present more than
once in the input, the records must be merged. The last one replaced the
others, and fields of them were lost.
---
 internal/prutal/decoder.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index fce3069..a80b233 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -88,6 +88,16 @@ func appendToUnknownFields(s *desc.StructDesc, base unsafe.Pointer, b []byte) {
 }
 
 func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
+	// reset unknownfields = unknownfields[:0]
+	if s.HasUnknownFields {
+		resetUnknownFields(s, base)
+	}
+	return d.mergeStruct(b, base, s, maxdepth)
+}
+
+// mergeStruct is like DecodeStruct, but it keeps the unknown fields already decoded,
+// coz a singular message field may be split over several records.
+func (d *Decoder) mergeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc, maxdepth int) (int, error) {
 	if maxdepth == 0 {
 		return 0, errMaxDepthExceeded
 	}
@@ -98,11 +108,6 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		tmv *desc.TmpMapVars // cache for map, optmize for repeated map
 	)
 
-	// reset unknownfields = unknownfields[:0]
-	if s.HasUnknownFields {
-		resetUnknownFields(s, base)
-	}
-
 	for i < len(b) {
 		// next field tag
 		num, typ, n := protowire.ConsumeTag(b[i:])
@@ -139,12 +144,18 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 		t := f.T
 		tag := f.TagType
 		if f.IsOneof() {
-			data := d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+			data := hack.IfaceData(p)
+			if data == nil || hack.ReflectTypePtr(f.OneofType) != hack.IfaceTypePtr(p) || t.RealKind() != reflect.Struct {
+				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+			} // else: merge into the existing message
 			hack.IfaceUpdate(p, f.IfaceTab, data)
 			p = data
 		}
 
-		if t.IsPointer {
+		if t.IsPointer && t.V.Kind == reflect.Struct && *(*unsafe.Pointer)(p) != nil {
+			p = *(*unsafe.Pointer)(p) // merge into the existing message
+			t = t.V
+		} else if t.IsPointer {
 			p = d.mallocIfPointer(p, t)
 			t = t.V
 		}
@@ -300,7 +311,7 @@ func (d *Decoder) DecodeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc
 					}
 				}
 			case reflect.Struct:
-				if _, err := d.DecodeStruct(fb, p, t.S, maxdepth-1); err != nil {
+				if _, err := d.mergeStruct(fb, p, t.S, maxdepth-1); err != nil {
 					return i, err
 				}
 			default:
-- 
2.43.0


From 5340a89645c719d7a856c7e36aec89cd4db4d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:35 +0000
Subject: [PATCH 10/40] fix: make Size of a nil message the same as the length
 of its encoding

Marshal encodes a nil message as an empty one, which isn't always zero bytes:
message fields without pointer are always written.
---
 internal/prutal/prutal.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/prutal/prutal.go b/internal/prutal/prutal.go
index a0c96bd..d78b77d 100644
--- a/internal/prutal/prutal.go
+++ b/internal/prutal/prutal.go
@@ -56,9 +56,6 @@ func Size(v interface{}) (int, error) {
 	if rv.Kind() != reflect.Pointer {
 		return 0, errNotPointer
 	}
-	if rv.IsNil() {
-		return 0, nil
-	}
 	s := desc.CacheGet(rv)
 	if s == nil {
 		var err error
-- 
2.43.0


From 4d17a935eaae96e7786343eafe110cac291fef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 11/40] fix: reject Go types with a layout neither encoder nor
 decoder supports

Types like []*int32, *[]int32, map[string]*int32, map[string][]int32 or a slice
without rep were accepted because only the innermost kind was checked, and then
read or written with a wrong layout.
---
 internal/desc/desc.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 8331c3f..2effcdb 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -294,6 +294,29 @@ func (f *FieldDesc) checkTypeMatch() error {
 		}
 	}
 
+	// RealKind looks through pointers and slices, reject the types which
+	// match by it but have a memory layout neither encoder nor decoder expects.
+	if t.IsSlice && !f.Repeated {
+		return fmt.Errorf("slice type %s is not repeated field", t.T)
+	}
+	if f.Repeated && f.IsOneof() {
+		return fmt.Errorf("unsupported repeated oneof field type %s", t.T)
+	}
+	if t.IsPointer && (t.V.IsSlice || t.V.Kind == reflect.Map) {
+		return fmt.Errorf("unsupported pointer type %s", t.T)
+	}
+	if t.IsSlice && t.V.IsPointer && t.V.V.Kind != reflect.Struct {
+		return fmt.Errorf("unsupported repeated field type %s", t.T)
+	}
+	if t.Kind == reflect.Map {
+		if t.K.IsPointer || t.K.Kind == reflect.Float32 || t.K.Kind == reflect.Float64 {
+			return fmt.Errorf("unsupported map key type %s", t.K.T)
+		}
+		if t.V.IsSlice || t.V.Kind == reflect.Map || (t.V.IsPointer && t.V.V.Kind != reflect.Struct) {
+			return fmt.Errorf("unsupported map value type %s", t.V.T)
+		}
+	}
+
 	if err := IsFieldTypeMatchReflectKind(f.TagType, t.RealKind()); err != nil {
 		return err
 	}
-- 
2.43.0


From fd44cf400e64c10a053bb0f3d52bef16fa28c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 12/40] fix: reject invalid field numbers in tags and ignore
 default values

A missing, zero, or out of range number was accepted, and the parts of a
default value containing commas were parsed as if they were options.
---
 internal/desc/tag.go       | 7 +++++++
 internal/prutal/decoder.go | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 9d94720..41db8b0 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -22,12 +22,16 @@ import (
 	"strconv"
 	"strings"
 
+	"github.com/cloudwego/prutal/internal/protowire"
 	"github.com/cloudwego/prutal/internal/wire"
 )
 
 var errGroupNotSupported = errors.New("group encoding not supported")
 
 func (p *FieldDesc) parseStructTag(tag string) error {
+	if i := strings.Index(tag, ",def="); i >= 0 {
+		tag = tag[:i] // it's always the last one and may contain anything, including commas
+	}
 	ss := strings.Split(tag, ",")
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
@@ -68,6 +72,9 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 	if p.TagType == 0 {
 		return errors.New("unknown tag type")
 	}
+	if p.ID < 1 || p.ID > int32(protowire.MaxValidNumber) {
+		return fmt.Errorf("invalid field number in tag %q", tag)
+	}
 	if p.Packed {
 		p.WireTag = wire.EncodeTag(p.ID, wire.TypeBytes)
 	} else {
diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index a80b233..840c99c 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -185,7 +185,7 @@ func (d *Decoder) mergeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc,
 			}
 			h.Len++
 			p = unsafe.Add(h.Data, uintptr(h.Len-1)*t.Size) // p = &d[len(d-1)]
-			if t.Kind == reflect.Struct { // memory of a reused slice may keep fields of an old element
+			if t.Kind == reflect.Struct {                   // memory of a reused slice may keep fields of an old element
 				reflect.NewAt(t.T, p).Elem().SetZero()
 			}
 			if t.IsPointer {
-- 
2.43.0


From 1fc5f0cce6971e5c84aef4a175316961c5431f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 13/40] fix: forget all types of a failed parse

Only the failing type itself was removed from the caches, types referring to it
stayed there half initialized and were used by later calls.
---
 internal/desc/desc.go | 18 ++++++++++++++++--
 internal/desc/type.go |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 2effcdb..3f90a8f 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -42,9 +42,9 @@ func CacheGet(rv reflect.Value) *StructDesc {
 }
 
 // GetOrParse ...
-func GetOrParse(rv reflect.Value) (*StructDesc, error) {
+func GetOrParse(rv reflect.Value) (ret *StructDesc, err error) {
 	typ := hack.ReflectValueTypePtr(rv)
-	ret := cache.Get(typ)
+	ret = cache.Get(typ)
 	if ret != nil {
 		return ret, nil
 	}
@@ -64,6 +64,17 @@ func GetOrParse(rv reflect.Value) (*StructDesc, error) {
 		return ret, nil
 	}
 
+	parsing = parsing[:0]
+	defer func() {
+		if err != nil {
+			// types refer to each other, none of them is usable if one failed
+			for _, rt := range parsing {
+				delete(cachedTypes, rt)
+				delete(cachedStructs, rt)
+			}
+		}
+	}()
+
 	t, err := parseType(rt)
 	if err != nil {
 		return nil, err
@@ -336,6 +347,9 @@ func (f *FieldDesc) checkTypeMatch() error {
 
 var cachedStructs = map[reflect.Type]*StructDesc{}
 
+// parsing contains types added to cachedTypes by the current call of GetOrParse
+var parsing []reflect.Type
+
 func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 	if s = cachedStructs[rt]; s != nil {
 		return s, nil
diff --git a/internal/desc/type.go b/internal/desc/type.go
index 368e514..8dd98d9 100644
--- a/internal/desc/type.go
+++ b/internal/desc/type.go
@@ -116,6 +116,7 @@ func parseType(rt reflect.Type) (t *Type, err error) {
 
 	t = &Type{}
 	cachedTypes[rt] = t // reuse result and also fix cyclic refs
+	parsing = append(parsing, rt)
 
 	t.T = rt
 	t.Kind = rt.Kind()
-- 
2.43.0


From 74df0ff8d0bb8689e607efea99358f4afafc748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 14/40] fix: do not expose old memory contents when decoding a
 value fails

---
 internal/prutal/decoder.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index 840c99c..f13df0b 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -50,6 +50,19 @@ func (d *Decoder) Malloc(n, align int, abiType uintptr) unsafe.Pointer {
 	return d.s.Malloc(n, align) // only for noscan objects like string.Data, []int etc...
 }
 
+// mallocZero is like Malloc, but it always returns zeroed memory, so that old contents
+// of the memory are not exposed if decoding the value fails.
+func (d *Decoder) mallocZero(n, align int, abiType uintptr) unsafe.Pointer {
+	p := d.Malloc(n, align, abiType)
+	if abiType == 0 { // or it's already zeroed
+		b := unsafe.Slice((*byte)(p), n)
+		for i := range b {
+			b[i] = 0
+		}
+	}
+	return p
+}
+
 func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Pointer) {
 	if !t.IsPointer {
 		return p
@@ -58,7 +71,7 @@ func (d *Decoder) mallocIfPointer(p unsafe.Pointer, t *desc.Type) (ret unsafe.Po
 	// we need to malloc the type first before assigning a value to it
 	// *p = new(type)
 	t = t.V
-	ret = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+	ret = d.mallocZero(int(t.Size), t.Align, t.MallocAbiType)
 	*(*unsafe.Pointer)(p) = ret
 	return
 }
@@ -146,7 +159,7 @@ func (d *Decoder) mergeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc,
 		if f.IsOneof() {
 			data := hack.IfaceData(p)
 			if data == nil || hack.ReflectTypePtr(f.OneofType) != hack.IfaceTypePtr(p) || t.RealKind() != reflect.Struct {
-				data = d.Malloc(int(t.Size), t.Align, t.MallocAbiType)
+				data = d.mallocZero(int(t.Size), t.Align, t.MallocAbiType)
 			} // else: merge into the existing message
 			hack.IfaceUpdate(p, f.IfaceTab, data)
 			p = data
@@ -592,7 +605,7 @@ func (d *Decoder) ReallocSlice(h *hack.SliceHeader, t *desc.Type, c int) {
 	if h.Cap >= c {
 		return
 	}
-	data := d.Malloc(c*int(t.Size), t.Align, t.MallocAbiType)
+	data := d.mallocZero(c*int(t.Size), t.Align, t.MallocAbiType)
 	if h.Len > 0 {
 		copyn(data, h.Data, h.Len*int(t.Size))
 	}
-- 
2.43.0


From afde8a3a8767efcf68b76f7c11822c053df48060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 15/40] fix: return an error for malformed oneof declarations
 instead of panicking

---
 internal/desc/desc.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/desc/desc.go b/internal/desc/desc.go
index 3f90a8f..7f257aa 100644
--- a/internal/desc/desc.go
+++ b/internal/desc/desc.go
@@ -221,7 +221,7 @@ func (f *FieldDesc) IsOneof() bool {
 func (f *FieldDesc) parse(rt reflect.Type) (err error) {
 	tag := f.Tag.Get("protobuf")
 	if tag == "" {
-		panic("not protobuf field")
+		return errors.New("not protobuf field")
 	}
 	if err = f.parseStructTag(tag); err != nil {
 		return
@@ -369,6 +369,9 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 		tag := sf.Tag.Get("protobuf")
 		if tag == "" {
 			if sf.Tag.Get("protobuf_oneof") != "" {
+				if sf.Type.Kind() != reflect.Interface {
+					return nil, fmt.Errorf("parse field %q err: oneof field is not interface", sf.Name)
+				}
 				oneofs = append(oneofs, sf)
 			}
 			continue
@@ -382,13 +385,15 @@ func parseStruct(rt reflect.Type) (s *StructDesc, err error) {
 
 	if len(oneofs) > 0 {
 		for _, v := range searchOneofWrappers(rt) {
-			rt := reflect.TypeOf(v)
+			pt := reflect.TypeOf(v)
+			if pt == nil || pt.Kind() != reflect.Pointer || pt.Elem().Kind() != reflect.Struct {
+				return nil, fmt.Errorf("oneof wrapper %v is not pointer to struct", pt)
+			}
+			rt := pt.Elem() // Pointer -> Struct
 			for _, o := range oneofs {
-				if !rt.Implements(o.Type) {
+				if !pt.Implements(o.Type) {
 					continue
 				}
-				// Pointer -> Struct
-				rt = rt.Elem()
 				if rt.NumField() != 1 { // The struct must contains exactly one field
 					return nil, fmt.Errorf("parse field %q oneof %q err: field number != 1", o.Name, rt.String())
 				}
-- 
2.43.0


From f899bdbc97752f090586ca3ee6ec2599a1a51f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 16/40] fix: honour [packed=false] in proto3 files

---
 prutalgen/pkg/prutalgen/field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index cddc007..f42d32c 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -106,7 +106,7 @@ func (f *Field) IsPackedEncoding() bool {
 		}
 		return v == "PACKED"
 	}
-	return true // proto3
+	return !f.Options.Is(option_packed, "false") // proto3, packed by default
 }
 
 func (f *Field) resolve() {
-- 
2.43.0


From fdfd727bec3c5d6eb9552abd613ab10b934d64ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 17/40] fix: treat LEGACY_REQUIRED fields of edition 2023 as
 required instead of implicit

---
 prutalgen/pkg/prutalgen/field.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index f42d32c..ba49654 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -189,7 +189,7 @@ func (f *Field) IsPointer() bool {
 	if p.IsEdition2023() {
 		s, ok := f.Options.Get(f_field_presence)
 		if ok {
-			return s == "EXPLICIT"
+			return s != "IMPLICIT" // EXPLICIT or LEGACY_REQUIRED
 		}
 		s, ok = p.Options.Get(f_field_presence)
 		if ok {
@@ -341,6 +341,9 @@ func (x *protoLoader) ExitField(c *parser.FieldContext) {
 			f.Optional = true
 		}
 	}
+	if x.currentProto().IsEdition2023() && f.Options.Is(f_field_presence, "LEGACY_REQUIRED") {
+		f.Required = true // the edition's spelling of `required`
+	}
 	m := x.currentMsg()
 	m.Fields = append(m.Fields, f)
 	f.Msg = m
-- 
2.43.0


From abcbc8c16a772b2b9279ad5efb7f5cf6d310b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 18/40] fix: resolve type names like protoc does

The innermost scope declaring the first part of a name decides, packages are
searched from the current one to the root, a leading dot means a full name
(also of an imported file without a package), and public imports are followed
so that the type is qualified with the package which really declares it.
---
 prutalgen/pkg/prutalgen/message.go |  23 ++++--
 prutalgen/pkg/prutalgen/proto.go   |  39 ++++++++-
 prutalgen/pkg/prutalgen/type.go    | 125 ++++++++++++++++++-----------
 3 files changed, 130 insertions(+), 57 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index cf1c73a..2eba91d 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -101,15 +101,22 @@ func (m *Message) getType(name string) any {
 		return m
 	}
 	if name, ok := trimPathPrefix(name, m.Name); ok {
-		for _, x := range m.Enums {
-			if x.Name == name {
-				return x
-			}
+		return m.getNestedType(name)
+	}
+	return nil
+}
+
+// getNestedType returns the embedded type with the given name.
+// The name is relative to the message.
+func (m *Message) getNestedType(name string) any {
+	for _, x := range m.Enums {
+		if x.Name == name {
+			return x
 		}
-		for _, x := range m.Messages {
-			if v := x.getType(name); v != nil {
-				return v
-			}
+	}
+	for _, x := range m.Messages {
+		if v := x.getType(name); v != nil {
+			return v
 		}
 	}
 	return nil
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 405f991..ad8dcb6 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -81,7 +81,9 @@ func (p *Proto) setGoPackage(s string) {
 	}
 }
 
-func (p *Proto) getType(name string) any {
+// getLocalType returns the *Message or *Enum declared by p with the given name.
+// The name has no package prefix.
+func (p *Proto) getLocalType(name string) any {
 	for _, m := range p.Messages {
 		if v := m.getType(name); v != nil {
 			return v
@@ -92,6 +94,38 @@ func (p *Proto) getType(name string) any {
 			return e
 		}
 	}
+	return nil
+}
+
+// visibleProtos returns the protos whose declarations can be used by p:
+// p itself, its imports, and the public imports of them.
+func (p *Proto) visibleProtos() []*Proto {
+	ret := []*Proto{p}
+	seen := map[*Proto]bool{p: true}
+	add := func(x *Proto) {
+		if !seen[x] {
+			seen[x] = true
+			ret = append(ret, x)
+		}
+	}
+	for _, x := range p.Imports {
+		add(x.Proto)
+	}
+	for i := 1; i < len(ret); i++ {
+		for _, x := range ret[i].Imports {
+			if x.Public {
+				add(x.Proto)
+			}
+		}
+	}
+	return ret
+}
+
+// getType returns the type with the given name declared by p or by its public imports.
+func (p *Proto) getType(name string) any {
+	if v := p.getLocalType(name); v != nil {
+		return v
+	}
 	for _, x := range p.Imports {
 		if !x.Public {
 			continue
@@ -100,9 +134,6 @@ func (p *Proto) getType(name string) any {
 			return t
 		}
 	}
-	if name1, ok := trimPathPrefix(name, p.Package); ok {
-		return p.getType(name1) // try again without package prefix
-	}
 	return nil
 }
 
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 7f7c8ab..5d9394f 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -137,65 +137,100 @@ func (t *Type) resolve(allowScalar bool) {
 		}
 	}
 
-	if m != nil {
-		if v := m.getType(t.Name); v != nil {
-			t.typ = v
-			return
-		}
+	typ, owner := findType(p, m, t.Name)
+	if typ == nil {
+		p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+		return
 	}
+	t.typ = typ
+	if owner != p && owner.GoImport != p.GoImport {
+		t.p = owner
+	}
+}
 
-	//  (DOT)? (ident DOT)* ident
+// findType returns the *Message or *Enum which name refers to in the scope of
+// the message m (nil if not in a message) of p, and the Proto declaring it.
+//
+// Scopes are searched from the innermost one. The first scope which declares
+// the first part of name must declare the rest of it as well.
+// A leading "." means that name is a full name.
+func findType(p *Proto, m *Message, name string) (any, *Proto) {
+	if strings.HasPrefix(name, ".") {
+		return findFullName(p.visibleProtos(), name[1:])
+	}
+	first, _, compound := strings.Cut(name, ".")
 
-	// search Message
-	if m != nil {
-		for x := m; x != nil; x = x.Msg {
-			t.typ = x.getType(t.Name)
-			if t.typ != nil {
-				return
-			}
-			for _, e := range x.Enums {
-				if e.Name == t.Name {
-					t.typ = e
-					return
-				}
-			}
-			for _, m := range x.Messages {
-				if v := m.getType(t.Name); v != nil {
-					t.typ = v
-					return
-				}
-			}
+	// messages
+	for x := m; x != nil; x = x.Msg {
+		if x.getNestedType(first) == nil {
+			continue
+		}
+		if v := x.getNestedType(name); v != nil {
+			return v, p
 		}
+		return nil, nil
 	}
 
-	// search proto and imports
-	protos := make([]*Proto, 0, len(p.Imports)+1)
-	protos = append(protos, p) // always check p
-	for _, x := range p.Imports {
-		if p.Package == x.Package { // same package
-			protos = append(protos, x.Proto)
+	// packages, from p.Package to the root
+	protos := p.visibleProtos()
+	for scope := p.Package; ; scope = parentScope(scope) {
+		if !compound || declaresName(protos, joinScope(scope, first)) {
+			v, x := findFullName(protos, joinScope(scope, name))
+			if v != nil || compound {
+				return v, x
+			}
+		}
+		if scope == "" {
+			return nil, nil
 		}
 	}
+}
 
-	// if name starts with "." it means the type is in local package
-	if !strings.HasPrefix(t.Name, ".") {
-		for _, x := range p.Imports {
-			if hasPathPrefix(t.Name, x.Package) {
-				protos = append(protos, x.Proto)
+// findFullName returns the *Message or *Enum with the given full name
+func findFullName(protos []*Proto, name string) (any, *Proto) {
+	for _, x := range protos {
+		s := name
+		if x.Package != "" {
+			var ok bool
+			if s, ok = trimPathPrefix(name, x.Package); !ok {
+				continue
 			}
 		}
-	} else {
-		// trim "." for searching type
-		t.Name = strings.TrimLeft(t.Name, ".")
+		if v := x.getLocalType(s); v != nil {
+			return v, x
+		}
 	}
+	return nil, nil
+}
+
+// declaresName reports whether name is the full name of a declaration
+// that may contain types: a package, a message, an enum or a service.
+func declaresName(protos []*Proto, name string) bool {
 	for _, x := range protos {
-		t.typ = x.getType(t.Name)
-		if t.typ != nil {
-			if x.GoImport != p.GoImport {
-				t.p = x
+		if x.Package == name || hasPathPrefix(x.Package, name) {
+			return true
+		}
+		for _, s := range x.Services {
+			if joinScope(x.Package, s.Name) == name {
+				return true
 			}
-			return
 		}
 	}
-	p.Fatalf("line %d: type %q not found.", t.rule.GetStart().GetLine(), t.Name)
+	v, _ := findFullName(protos, name)
+	return v != nil
+}
+
+func joinScope(scope, name string) string {
+	if scope == "" {
+		return name
+	}
+	return scope + "." + name
+}
+
+func parentScope(scope string) string {
+	i := strings.LastIndexByte(scope, '.')
+	if i < 0 {
+		return ""
+	}
+	return scope[:i]
 }
-- 
2.43.0


From dc57c93fc11d69ed6dec41c84eab61d378bcc1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 19/40] fix: use the real package names of imported Go packages

They're made valid Go identifiers like protoc-gen-go does, and unique in the
file: two imports with the same package name, or with a name which generated
code uses itself (strconv, string, ...), get different names.
---
 prutalgen/pkg/prutalgen/code.go  |  4 +--
 prutalgen/pkg/prutalgen/field.go |  3 +-
 prutalgen/pkg/prutalgen/proto.go | 58 ++++++++++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/type.go  | 18 ++++++++--
 4 files changed, 76 insertions(+), 7 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 5ae3659..42ab70d 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -354,10 +354,10 @@ func (g *GoCodeGen) FieldGen(f *Field, w *CodeWriter) {
 	}
 	w.F("%s %s `%s` %s", f.GoName, f.GoTypeName(), g.FieldStructTag(f), f.InlineComment)
 	if f.Type.IsExternalType() {
-		w.UsePkg(f.Type.GoImport(), "")
+		w.UsePkg(f.Type.GoImport(), f.Type.goPkgName())
 	}
 	if f.Key != nil && f.Key.IsExternalType() {
-		w.UsePkg(f.Key.GoImport(), "")
+		w.UsePkg(f.Key.GoImport(), f.Key.goPkgName())
 	}
 }
 
diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index ba49654..576bc14 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -18,7 +18,6 @@ package prutalgen
 
 import (
 	"fmt"
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -216,7 +215,7 @@ func (f *Field) GoZero() string {
 			if !tp.IsExternalType() {
 				return zero
 			}
-			return path.Base(tp.GoImport()) + "." + zero
+			return tp.goPkgName() + "." + zero
 		}
 		return "0"
 	}
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index ad8dcb6..82579a4 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -19,10 +19,13 @@ package prutalgen
 import (
 	"errors"
 	"fmt"
+	"go/types"
 	"path"
+	"strconv"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/strs"
 	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
@@ -53,6 +56,8 @@ type Proto struct {
 
 	Services []*Service
 
+	goPkgNames map[string]string // GoImport -> package name for external types
+
 	l LoggerIface
 }
 
@@ -79,6 +84,59 @@ func (p *Proto) setGoPackage(s string) {
 	} else if p.GoImport != "" {
 		p.GoPackage = path.Base(p.GoImport)
 	}
+	if p.GoPackage != "" {
+		// it may contain chars like '-', or be a keyword
+		p.GoPackage = strs.GoSanitized(p.GoPackage)
+	}
+}
+
+// goPkgName returns the name of the Go package generated for p
+func (p *Proto) goPkgName() string {
+	if p.GoPackage != "" {
+		return p.GoPackage
+	}
+	return strs.GoSanitized(path.Base(p.GoImport))
+}
+
+// reservedGoPkgNames can't be used for naming imported packages,
+// coz generated code uses them for other purposes.
+var reservedGoPkgNames = map[string]bool{
+	// packages
+	"strconv": true,
+	"prutal":  true,
+
+	// receivers and vars
+	"x":  true,
+	"p":  true,
+	"s":  true,
+	"ok": true,
+}
+
+func init() {
+	for _, s := range types.Universe.Names() {
+		reservedGoPkgNames[s] = true
+	}
+}
+
+// addGoPkgName picks the name of the package of x for the code generated for p
+func (p *Proto) addGoPkgName(x *Proto) {
+	if _, ok := p.goPkgNames[x.GoImport]; ok {
+		return
+	}
+	if p.goPkgNames == nil {
+		p.goPkgNames = map[string]string{}
+	}
+	used := map[string]bool{}
+	for _, s := range p.goPkgNames {
+		used[s] = true
+	}
+	pkg := x.goPkgName()
+	name := pkg
+	for i := 1; used[name] || reservedGoPkgNames[name] ||
+		name != pkg && name == path.Base(x.GoImport); i++ { // UsePkg omits path.Base
+		name = pkg + strconv.Itoa(i)
+	}
+	p.goPkgNames[x.GoImport] = name
 }
 
 // getLocalType returns the *Message or *Enum declared by p with the given name.
diff --git a/prutalgen/pkg/prutalgen/type.go b/prutalgen/pkg/prutalgen/type.go
index 5d9394f..643c769 100644
--- a/prutalgen/pkg/prutalgen/type.go
+++ b/prutalgen/pkg/prutalgen/type.go
@@ -17,7 +17,6 @@
 package prutalgen
 
 import (
-	"path"
 	"strings"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
@@ -26,7 +25,8 @@ import (
 type Type struct {
 	Name string
 
-	p *Proto
+	p    *Proto // the proto declaring the type, for external types only
+	from *Proto // the proto referring to the type, for external types only
 
 	// *Enum or *Message
 	typ any
@@ -59,7 +59,16 @@ func (t *Type) GoName() string {
 	if t.p == nil {
 		return ret
 	}
-	return path.Base(t.p.GoImport) + "." + ret
+	return t.goPkgName() + "." + ret
+}
+
+// goPkgName returns the name which the generated code uses for the package of
+// an external type. It's unique in the file that refers to the type.
+func (t *Type) goPkgName() string {
+	if t.from != nil {
+		return t.from.goPkgNames[t.p.GoImport]
+	}
+	return t.p.goPkgName()
 }
 
 func (t *Type) IsExternalType() bool {
@@ -129,6 +138,7 @@ func (t *Type) resolve(allowScalar bool) {
 	}
 
 	t.p = nil
+	t.from = nil
 	t.typ = nil
 
 	if allowScalar {
@@ -145,6 +155,8 @@ func (t *Type) resolve(allowScalar bool) {
 	t.typ = typ
 	if owner != p && owner.GoImport != p.GoImport {
 		t.p = owner
+		t.from = p
+		p.addGoPkgName(owner)
 	}
 }
 
-- 
2.43.0


From eb8a2f4607ba635db11cc4cb0b5466100e6e7e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 20/40] fix: generate enums nested more than one level deep

---
 prutalgen/pkg/prutalgen/code.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 42ab70d..ce6b7c6 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -118,10 +118,7 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	// always generate enums before messages
 	// same order as protobuf
 	for _, m := range p.Messages {
-		for _, e := range m.Enums {
-			w.F("")
-			g.EnumGen(e, w)
-		}
+		g.nestedEnumGen(m, w)
 	}
 
 	for _, m := range p.Messages {
@@ -130,6 +127,17 @@ func (g *GoCodeGen) ProtoGen(p *Proto, w *CodeWriter) {
 	}
 }
 
+// nestedEnumGen generates the enums of m and its embedded messages
+func (g *GoCodeGen) nestedEnumGen(m *Message, w *CodeWriter) {
+	for _, e := range m.Enums {
+		w.F("")
+		g.EnumGen(e, w)
+	}
+	for _, x := range m.Messages {
+		g.nestedEnumGen(x, w)
+	}
+}
+
 func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
-- 
2.43.0


From 84dab8cc4835b7a1dc41fd24c44b5ee9ecac65fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 21/40] fix: keep inline comments of enums out of the format
 string

---
 prutalgen/pkg/prutalgen/code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index ce6b7c6..040c59e 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -142,7 +142,7 @@ func (g *GoCodeGen) EnumGen(e *Enum, w *CodeWriter) {
 	if e.HeadComment != "" {
 		w.F("%s", e.HeadComment)
 	}
-	w.F("type %s int32"+e.InlineComment, e.GoName)
+	w.F("type %s int32 %s", e.GoName, e.InlineComment)
 	w.F("")
 	if len(e.Fields) > 0 {
 		w.F("const (")
-- 
2.43.0


From 35bf12e539dbe3a47ea259caec243c5f99242708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 22/40] fix: rename fields colliding with the XXX_OneofWrappers
 method

---
 prutalgen/pkg/prutalgen/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 2eba91d..6908280 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -190,6 +190,9 @@ func (m *Message) resolveFieldConflicts() {
 		"ExtensionMap":        true,
 		"Descriptor":          true,
 	}
+	if len(m.Oneofs) > 0 {
+		usedNames["XXX_OneofWrappers"] = true // see GoCodeGen.MessageGen
+	}
 	for _, f := range m.Fields {
 		for usedNames[f.GoName] || usedNames["Get"+f.GoName] {
 			f.GoName += "_"
-- 
2.43.0


From e48e0a1f4320b4556ff41b0a54b480f04286209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 23/40] fix: accept hex and octal numbers in reserved ranges

---
 prutalgen/pkg/prutalgen/utils.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/utils.go b/prutalgen/pkg/prutalgen/utils.go
index 1b56bb7..8a11150 100644
--- a/prutalgen/pkg/prutalgen/utils.go
+++ b/prutalgen/pkg/prutalgen/utils.go
@@ -20,7 +20,6 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
-	"strconv"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/antlr"
 
@@ -67,11 +66,11 @@ func getTokenPos(v antlr.ParserRuleContext) string {
 }
 
 func parseI32(c antlr.ParserRuleContext) (int32, error) {
-	v, err := strconv.ParseInt(c.GetText(), 10, 32)
-	if err != nil {
-		return 0, fmt.Errorf("%s - %w", getTokenPos(c), err)
+	v, ok := text.UnmarshalI32(c.GetText())
+	if !ok {
+		return 0, fmt.Errorf("%s - parse number %q err", getTokenPos(c), c.GetText())
 	}
-	return int32(v), nil
+	return v, nil
 }
 
 func isfalse(v string) bool { return v == "false" }
-- 
2.43.0


From 4a6f218b745dd35786e7064185dd17eefa1ea37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 24/40] fix: accept the enum value -2147483648

---
 prutalgen/pkg/prutalgen/enum.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 3b71511..7d10634 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -185,15 +185,13 @@ func (x *protoLoader) ExitEnumField(c *parser.EnumFieldContext) {
 	f.Directives.Parse(f.HeadComment, f.InlineComment)
 
 	//  (MINUS)? intLit
-	if num, ok := text.UnmarshalI32(c.IntLit().GetText()); !ok {
-		t := c.IntLit()
-		x.Fatalf("%s - parse enum %q err", getTokenPos(t), t.GetText())
-	} else {
-		f.Value = num
-	}
-	if t := c.MINUS(); t != nil {
-		f.Value = -f.Value
+	t := c.IntLit()
+	s := getText(c.MINUS()) + t.GetText()
+	num, ok := text.UnmarshalI32(s)
+	if !ok {
+		x.Fatalf("%s - parse enum %q err", getTokenPos(t), s)
 	}
+	f.Value = num
 
 	// enumValueOptions
 	if oo := c.EnumValueOptions(); oo != nil {
-- 
2.43.0


From 22df4c0cdc8b078a761bb1f8b8fde169bc13c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 25/40] fix: accept enum values from 19000 to 19999

---
 prutalgen/pkg/prutalgen/enum.go     | 2 +-
 prutalgen/pkg/prutalgen/reserved.go | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index 7d10634..fb27b82 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -70,7 +70,7 @@ func (e *Enum) FullName() string {
 }
 
 func (e *Enum) IsReservedField(v int32) bool {
-	return e.reserved.In(v)
+	return e.reserved.Declared(v) // enum values are not limited by protobuf implementation
 }
 
 func (e *Enum) genNoPrefix() bool {
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index f3661af..1067597 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -35,10 +35,16 @@ type reservedRange struct {
 
 type reservedRanges []reservedRange
 
+// In reports whether v can't be used as a field number
 func (rr reservedRanges) In(v int32) bool {
 	if v >= protobufReservedMin && v <= protobufReservedMax {
 		return true
 	}
+	return rr.Declared(v)
+}
+
+// Declared reports whether v is in one of the ranges
+func (rr reservedRanges) Declared(v int32) bool {
 	for _, r := range rr {
 		if v >= r.from && v <= r.to {
 			return true
-- 
2.43.0


From e5d85f92e850e0d0eb8bbae28d91b0702cfc8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 26/40] fix: refuse field numbers out of range

---
 prutalgen/pkg/prutalgen/message.go  | 4 +++-
 prutalgen/pkg/prutalgen/reserved.go | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 6908280..857a522 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -223,7 +223,9 @@ func (m *Message) verify() error {
 	}
 	exists := map[int32]bool{}
 	for _, x := range m.Fields {
-		if m.IsReservedField(x.FieldNumber) {
+		if x.FieldNumber < 1 || x.FieldNumber > maxFieldNumber {
+			errs = append(errs, fmt.Errorf("field %q field number = %d is out of range", x.Name, x.FieldNumber))
+		} else if m.IsReservedField(x.FieldNumber) {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is reserved", x.Name, x.FieldNumber))
 		} else if exists[x.FieldNumber] {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index 1067597..c29fdb0 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -26,6 +26,8 @@ const (
 	// reserved by protobuf implementation
 	protobufReservedMin = 19000
 	protobufReservedMax = 19999
+
+	maxFieldNumber = 1<<29 - 1
 )
 
 type reservedRange struct {
-- 
2.43.0


From 95025ae5067561361625dd9d6b0cf62f8fb217d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 27/40] fix: refuse reserved names

---
 prutalgen/pkg/prutalgen/enum.go     |  6 ++++-
 prutalgen/pkg/prutalgen/message.go  |  6 ++++-
 prutalgen/pkg/prutalgen/reserved.go | 37 +++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/enum.go b/prutalgen/pkg/prutalgen/enum.go
index fb27b82..e8b387b 100644
--- a/prutalgen/pkg/prutalgen/enum.go
+++ b/prutalgen/pkg/prutalgen/enum.go
@@ -37,7 +37,8 @@ type Enum struct {
 	Fields  []*EnumField
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames reservedNames
 
 	Msg   *Message // for embedded enum only
 	Proto *Proto
@@ -125,6 +126,9 @@ func (e *Enum) verify() error {
 		} else if m[f.Value] && !e.allowAlias() {
 			errs = append(errs, fmt.Errorf("%q = %d is duplicated", f.Name, f.Value))
 		}
+		if e.reservedNames.In(f.Name) {
+			errs = append(errs, fmt.Errorf("name %q is reserved", f.Name))
+		}
 		m[f.Value] = true
 	}
 	return errors.Join(errs...)
diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 857a522..34f3973 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -43,7 +43,8 @@ type Message struct {
 	Oneofs  []*Oneof
 	Options Options
 
-	reserved reservedRanges
+	reserved      reservedRanges
+	reservedNames reservedNames
 
 	Msg   *Message // for embedded message only
 	Proto *Proto
@@ -231,6 +232,9 @@ func (m *Message) verify() error {
 			errs = append(errs, fmt.Errorf("field %q field number = %d is duplicated", x.Name, x.FieldNumber))
 		}
 		exists[x.FieldNumber] = true
+		if m.reservedNames.In(x.Name) {
+			errs = append(errs, fmt.Errorf("field name %q is reserved", x.Name))
+		}
 	}
 	return errors.Join(errs...)
 }
diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index c29fdb0..aa8d227 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -20,6 +20,7 @@ import (
 	"math"
 
 	"github.com/cloudwego/prutal/prutalgen/internal/parser"
+	"github.com/cloudwego/prutal/prutalgen/internal/protobuf/text"
 )
 
 const (
@@ -55,7 +56,43 @@ func (rr reservedRanges) Declared(v int32) bool {
 	return false
 }
 
+type reservedNames []string
+
+func (nn reservedNames) In(s string) bool {
+	for _, n := range nn {
+		if n == s {
+			return true
+		}
+	}
+	return false
+}
+
+func (x *protoLoader) exitReservedNames(c *parser.ReservedContext, nc parser.IReservedFieldNamesContext) {
+	names := make([]string, 0, len(nc.AllStrLit()))
+	for _, s := range nc.AllStrLit() {
+		v, err := text.UnmarshalString(s.GetText())
+		if err != nil {
+			x.Fatalf("%s - reserved name syntax err: %s", getTokenPos(s), err)
+		}
+		names = append(names, v)
+	}
+
+	switch getRuleIndex(c.GetParent()) {
+	case parser.ProtobufParserRULE_messageElement:
+		m := x.currentMsg()
+		m.reservedNames = append(m.reservedNames, names...)
+
+	case parser.ProtobufParserRULE_enumElement:
+		e := x.enum
+		e.reservedNames = append(e.reservedNames, names...)
+	}
+}
+
 func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
+	if nc := c.ReservedFieldNames(); nc != nil {
+		x.exitReservedNames(c, nc)
+		return
+	}
 	rc := c.Ranges()
 	if rc == nil {
 		return
-- 
2.43.0


From 391b176b4327baeb3fe021a7a66d5a63caedf5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 28/40] fix: refuse duplicated names

---
 prutalgen/pkg/prutalgen/message.go | 21 ++++++++++++++
 prutalgen/pkg/prutalgen/proto.go   | 46 ++++++++++++++++++++++++++++++
 prutalgen/pkg/prutalgen/service.go |  8 +++++-
 3 files changed, 74 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/message.go b/prutalgen/pkg/prutalgen/message.go
index 34f3973..9527468 100644
--- a/prutalgen/pkg/prutalgen/message.go
+++ b/prutalgen/pkg/prutalgen/message.go
@@ -210,8 +210,29 @@ func (m *Message) resolveFieldConflicts() {
 	}
 }
 
+// verifyNames checks names of declarations in the scope of the message
+func (m *Message) verifyNames() error {
+	names := scopeNames{}
+	for _, e := range m.Enums {
+		names.addEnum(e)
+	}
+	for _, x := range m.Messages {
+		names.add(x.Name)
+	}
+	for _, f := range m.Fields {
+		names.add(f.Name)
+	}
+	for _, o := range m.Oneofs {
+		names.add(o.Name)
+	}
+	return names.verify()
+}
+
 func (m *Message) verify() error {
 	var errs []error
+	if err := m.verifyNames(); err != nil {
+		errs = append(errs, err)
+	}
 	for _, x := range m.Enums {
 		if err := x.verify(); err != nil {
 			errs = append(errs, fmt.Errorf("enum %s verify err: %w", x.FullName(), err))
diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index 82579a4..f583304 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/types"
 	"path"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -237,6 +238,9 @@ func (p *Proto) resolve() {
 
 func (p *Proto) verify() error {
 	var errs []error
+	if err := p.verifyNames(); err != nil {
+		errs = append(errs, err)
+	}
 	for _, e := range p.Enums {
 		if err := e.verify(); err != nil {
 			errs = append(errs, fmt.Errorf("enum %s verify err: %w", e.FullName(), err))
@@ -255,6 +259,48 @@ func (p *Proto) verify() error {
 	return errors.Join(errs...)
 }
 
+// verifyNames checks names of declarations in the scope of the proto file
+func (p *Proto) verifyNames() error {
+	names := scopeNames{}
+	for _, e := range p.Enums {
+		names.addEnum(e)
+	}
+	for _, m := range p.Messages {
+		names.add(m.Name)
+	}
+	for _, s := range p.Services {
+		names.add(s.Name)
+	}
+	return names.verify()
+}
+
+// scopeNames counts the names declared in a scope
+type scopeNames map[string]int
+
+func (x scopeNames) add(name string) { x[name]++ }
+
+// addEnum adds the enum and its values. Enum values are siblings of their type.
+func (x scopeNames) addEnum(e *Enum) {
+	x.add(e.Name)
+	for _, f := range e.Fields {
+		x.add(f.Name)
+	}
+}
+
+func (x scopeNames) verify() error {
+	var names []string
+	for name, n := range x {
+		if n > 1 {
+			names = append(names, name)
+		}
+	}
+	if len(names) == 0 {
+		return nil
+	}
+	sort.Strings(names)
+	return fmt.Errorf("names %q are duplicated", names)
+}
+
 // listeners
 
 func (x *protoLoader) ExitEdition(c *parser.EditionContext) {
diff --git a/prutalgen/pkg/prutalgen/service.go b/prutalgen/pkg/prutalgen/service.go
index 972e1dc..65bee91 100644
--- a/prutalgen/pkg/prutalgen/service.go
+++ b/prutalgen/pkg/prutalgen/service.go
@@ -45,7 +45,13 @@ func (s *Service) resolve() {
 	}
 }
 
-func (s *Service) verify() error { return nil }
+func (s *Service) verify() error {
+	names := scopeNames{}
+	for _, m := range s.Methods {
+		names.add(m.Name)
+	}
+	return names.verify()
+}
 
 type Method struct {
 	HeadComment   string
-- 
2.43.0


From e6de8f15da0e9fb3b7d249e3f7b3b0bc802f15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 29/40] fix: concatenate adjacent string literals

---
 prutalgen/internal/protobuf/text/decode_string.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prutalgen/internal/protobuf/text/decode_string.go b/prutalgen/internal/protobuf/text/decode_string.go
index d60e44d..7c79ef5 100644
--- a/prutalgen/internal/protobuf/text/decode_string.go
+++ b/prutalgen/internal/protobuf/text/decode_string.go
@@ -164,7 +164,17 @@ func indexNeedEscapeInString(s string) int {
 // UnmarshalString returns an unescaped string given a textproto string value.
 // String value needs to contain single or double quotes. This is only used by
 // internal/encoding/defval package for unmarshaling bytes.
+// Back-to-back string literals are concatenated.
 func UnmarshalString(s string) (string, error) {
 	d := NewDecoder([]byte(s))
-	return d.parseString()
+	ret, err := d.parseString()
+	for err == nil && len(d.in) > 0 && (d.in[0] == '"' || d.in[0] == '\'') {
+		var v string
+		v, err = d.parseString()
+		ret += v
+	}
+	if err != nil {
+		return "", err
+	}
+	return ret, nil
 }
-- 
2.43.0


From daa6f451e5c660c8bee262df78aa4c4fc5c94bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 30/40] fix: refuse files with characters that belong to no
 token

---
 prutalgen/pkg/prutalgen/prutalgen.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 812778b..763a60f 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -236,12 +236,14 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 func (x *protoLoader) parseInput(in antlr.CharStream) {
 	p := x.currentProto()
 
+	e := &errorListener{l: x.l}
 	lexer := parser.NewProtobufLexer(in)
+	lexer.RemoveErrorListeners()
+	lexer.AddErrorListener(lexerErrorListener{e})
 	s := antlr.NewCommonTokenStream(lexer, antlr.TokenDefaultChannel)
 	push(&x.streams, newStreamContext(s))
 	defer pop(&x.streams)
 
-	e := &errorListener{l: x.l}
 	ps := parser.NewProtobufParser(s)
 	ps.RemoveErrorListeners()
 	ps.AddErrorListener(e)
@@ -287,3 +289,20 @@ func (x *errorListener) SyntaxError(_ antlr.Recognizer, _ any,
 }
 
 func (x *errorListener) HasError() bool { return x.hasError }
+
+// lexerErrorListener reports characters which are not part of a token,
+// except a byte order mark and white space that is not in the grammar.
+type lexerErrorListener struct{ *errorListener }
+
+func (x lexerErrorListener) SyntaxError(r antlr.Recognizer, t any,
+	line, column int, msg string, e antlr.RecognitionException) {
+	switch msg {
+	case "token recognition error at: '\v'":
+		return
+	case "token recognition error at: '\ufeff'":
+		if line == 1 && column == 0 {
+			return
+		}
+	}
+	x.errorListener.SyntaxError(r, t, line, column, msg, e)
+}
-- 
2.43.0


From c09ed12e93f73e7835310b44b8cd64b2b556d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 31/40] fix: refuse reserved numbers of messages that are not
 positive

---
 prutalgen/pkg/prutalgen/reserved.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/reserved.go b/prutalgen/pkg/prutalgen/reserved.go
index aa8d227..e07ecde 100644
--- a/prutalgen/pkg/prutalgen/reserved.go
+++ b/prutalgen/pkg/prutalgen/reserved.go
@@ -122,6 +122,11 @@ func (x *protoLoader) ExitReserved(c *parser.ReservedContext) {
 	switch getRuleIndex(c.GetParent()) {
 	case parser.ProtobufParserRULE_messageElement:
 		m := x.currentMsg()
+		for i, r := range ranges {
+			if r.from <= 0 {
+				x.Fatalf("%s - reserved numbers must be positive", getTokenPos(rr[i]))
+			}
+		}
 		m.reserved = append(m.reserved, ranges...)
 
 	case parser.ProtobufParserRULE_enumElement:
-- 
2.43.0


From 89aa51f909918bc2aa1b5f91ea6ac7cf2fcd99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 32/40] fix: return the first enum value from getters of unset
 fields

---
 prutalgen/pkg/prutalgen/field.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/field.go b/prutalgen/pkg/prutalgen/field.go
index 576bc14..e83ace8 100644
--- a/prutalgen/pkg/prutalgen/field.go
+++ b/prutalgen/pkg/prutalgen/field.go
@@ -199,25 +199,22 @@ func (f *Field) IsPointer() bool {
 	return false // proto3?
 }
 
-// GoZero returns the Go zero value for the field's type.
+// GoZero returns what the getter of an unset field returns.
 func (f *Field) GoZero() string {
 	if f.IsMap() || f.Repeated {
 		return "nil"
 	}
-	if f.IsEnum() { // search for the const var
+	if f.IsEnum() { // the default is the first value, it may not be 0
 		tp := f.Type
 		e := tp.Enum()
-		for _, f := range e.Fields {
-			if f.Value != 0 {
-				continue
-			}
-			zero := f.GoName
-			if !tp.IsExternalType() {
-				return zero
-			}
-			return tp.goPkgName() + "." + zero
+		if len(e.Fields) == 0 {
+			return "0"
 		}
-		return "0"
+		zero := e.Fields[0].GoName
+		if !tp.IsExternalType() {
+			return zero
+		}
+		return tp.goPkgName() + "." + zero
 	}
 	ft := f.Type.GoName()
 	switch ft { // scalar types
-- 
2.43.0


From 81ddcd0926c29b7b78fb24715d700d946cefebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 33/40] fix: prutalgen: M option takes precedence over
 go_package

---
 prutalgen/pkg/prutalgen/proto.go     | 15 +++++++++++++++
 prutalgen/pkg/prutalgen/prutalgen.go | 10 +++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/proto.go b/prutalgen/pkg/prutalgen/proto.go
index f583304..208f57b 100644
--- a/prutalgen/pkg/prutalgen/proto.go
+++ b/prutalgen/pkg/prutalgen/proto.go
@@ -57,6 +57,7 @@ type Proto struct {
 
 	Services []*Service
 
+	goPkgOpt   string            // value of the M option for the file
 	goPkgNames map[string]string // GoImport -> package name for external types
 
 	l LoggerIface
@@ -75,6 +76,20 @@ func (p *Proto) String() string {
 	return b.String()
 }
 
+// mergeGoPackage fills the import path or the package name which
+// "path;name" given by a doesn't have with that of b
+func mergeGoPackage(a, b string) string {
+	imp, pkg, _ := strings.Cut(a, ";")
+	bimp, bpkg, _ := strings.Cut(b, ";")
+	if strings.TrimSpace(imp) == "" {
+		imp = bimp
+	}
+	if strings.TrimSpace(pkg) == "" {
+		pkg = bpkg
+	}
+	return imp + ";" + pkg
+}
+
 func (p *Proto) setGoPackage(s string) {
 	imp, pkg, _ := strings.Cut(s, ";")
 	imp = strings.TrimSpace(imp)
diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 763a60f..65243e8 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -198,8 +198,9 @@ func (x *protoLoader) loadProto(file string) *Proto {
 		ProtoFile: protofile,
 		Edition:   editionProto2,
 		l:         x.l,
+
+		goPkgOpt: x.proto2gopkg[file],
 	}
-	p.setGoPackage(x.proto2gopkg[file])
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
 	x.protos = append(x.protos, p)
@@ -256,10 +257,9 @@ func (x *protoLoader) parseInput(in antlr.CharStream) {
 	comment := x.consumeHeadComment(proto)
 	p.Directives.Parse(comment)
 
-	gopkg, ok := p.Options.Get("go_package")
-	if ok {
-		p.setGoPackage(gopkg)
-	}
+	// the M option takes precedence over option "go_package"
+	gopkg, _ := p.Options.Get("go_package")
+	p.setGoPackage(mergeGoPackage(p.goPkgOpt, gopkg))
 	if p.GoPackage == "" {
 		x.Fatalf(`option "go_package" not set`)
 	}
-- 
2.43.0


From 3a2f082911abda9895b1be694fc1c8e75c6d081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:19 +0000
Subject: [PATCH 34/40] fix: prutalgen: options separated by comma in one
 go_opt

---
 prutalgen/pkg/utils/args/go_opts.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prutalgen/pkg/utils/args/go_opts.go b/prutalgen/pkg/utils/args/go_opts.go
index 4b16270..ab0d2b7 100644
--- a/prutalgen/pkg/utils/args/go_opts.go
+++ b/prutalgen/pkg/utils/args/go_opts.go
@@ -28,10 +28,18 @@ type GoOpts struct {
 	StringArgs
 }
 
+// split returns the options, there may be more than one in an arg, separated by comma.
+func (o *GoOpts) split() []string {
+	if len(o.StringArgs) == 0 {
+		return nil
+	}
+	return strings.Split(o.StringArgs.String(), ",")
+}
+
 // GenPathType ... prutalgen.GenByImport or prutalgen.GenBySourceRelative
 func (o *GoOpts) GenPathType() prutalgen.GenPathType {
 	ret := prutalgen.GenByImport // default value
-	for _, s := range o.StringArgs {
+	for _, s := range o.split() {
 		if s == "paths=import" {
 			ret = prutalgen.GenByImport
 		} else if s == "paths=source_relative" {
@@ -45,7 +53,7 @@ func (o *GoOpts) GenPathType() prutalgen.GenPathType {
 // see: https://protobuf.dev/reference/go/go-generated/#package
 func (o *GoOpts) Proto2pkg() map[string]string {
 	ret := make(map[string]string)
-	for _, s := range o.StringArgs {
+	for _, s := range o.split() {
 		if s == "" || s[0] != 'M' {
 			continue
 		}
-- 
2.43.0


From 9cab026fa9f16a5d698ee02127ebb3c81db11cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 35/40] fix: go_opt M applies to embedded proto files too

---
 prutalgen/pkg/prutalgen/prutalgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 65243e8..8f763cb 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -225,6 +225,8 @@ func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
 		Edition:   editionProto2,
 
 		l: x.l,
+
+		goPkgOpt: x.proto2gopkg[file],
 	}
 	push(&x.protostack, p)
 	defer pop(&x.protostack)
-- 
2.43.0


From a5b91c45cc05b4a0630a5ea7e51bca371ee5f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 36/40] fix: generated file is broken by arguments with
 newlines

---
 prutalgen/pkg/prutalgen/code.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prutalgen/pkg/prutalgen/code.go b/prutalgen/pkg/prutalgen/code.go
index 040c59e..74ddea5 100644
--- a/prutalgen/pkg/prutalgen/code.go
+++ b/prutalgen/pkg/prutalgen/code.go
@@ -23,6 +23,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 type MarshalerType int
@@ -51,7 +53,9 @@ var shellsafeRE = regexp.MustCompile(`^[a-zA-Z0-9\-_.=/]+$`)
 func argsQuote(args []string) string {
 	args = append([]string(nil), args...)
 	for i, a := range args {
-		if !shellsafeRE.MatchString(a) {
+		if !utf8.ValidString(a) || strings.IndexFunc(a, func(r rune) bool { return !unicode.IsPrint(r) }) >= 0 {
+			args[i] = strconv.Quote(a) // it's for a line of Go comment
+		} else if !shellsafeRE.MatchString(a) {
 			args[i] = "'" + strings.ReplaceAll(a, `'`, `\'`) + "'"
 		}
 	}
-- 
2.43.0


From 9f16d3d29f07f0d324ce595e8bf8a0f2211209e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 37/40] fix: imports are lost if the header has the text of
 their placeholder

---
 prutalgen/pkg/prutalgen/codewriter.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/codewriter.go b/prutalgen/pkg/prutalgen/codewriter.go
index 659ae5e..f0416d0 100644
--- a/prutalgen/pkg/prutalgen/codewriter.go
+++ b/prutalgen/pkg/prutalgen/codewriter.go
@@ -24,8 +24,6 @@ import (
 	"strings"
 )
 
-const importPlaceHolder = "{PRUTALGEN_GO_IMPORTS}"
-
 // ImportGroupingFunc returns the weight for grouping for the given pkg
 //
 // - Packages with higher weights will be placed in later groups.
@@ -44,6 +42,8 @@ type CodeWriter struct {
 	buf  *bytes.Buffer
 	pkgs map[string]string // import -> alias
 
+	importOffset int // where imports are inserted by `Bytes()`
+
 	grouping ImportGroupingFunc
 }
 
@@ -70,7 +70,8 @@ func (w *CodeWriter) Reset(header, pkg string) {
 	}
 	w.F("package %s", pkg)
 	w.F("")
-	w.F(importPlaceHolder)
+	w.importOffset = w.buf.Len()
+	w.F("")
 	w.F("")
 }
 
@@ -167,6 +168,9 @@ func (w *CodeWriter) F(format string, a ...interface{}) {
 
 func (w *CodeWriter) Bytes() []byte {
 	b := w.buf.Bytes()
-	b = bytes.Replace(b, []byte(importPlaceHolder), w.genImports(), 1)
-	return b
+	imports := w.genImports()
+	ret := make([]byte, 0, len(b)+len(imports))
+	ret = append(ret, b[:w.importOffset]...)
+	ret = append(ret, imports...)
+	return append(ret, b[w.importOffset:]...)
 }
-- 
2.43.0


From b2d6b6fa41f48424324d2c9299042f787df7df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:43 +0000
Subject: [PATCH 38/40] fix: reject cyclic imports of embedded proto files

---
 prutalgen/pkg/prutalgen/prutalgen.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/prutalgen/pkg/prutalgen/prutalgen.go b/prutalgen/pkg/prutalgen/prutalgen.go
index 8f763cb..b923c16 100644
--- a/prutalgen/pkg/prutalgen/prutalgen.go
+++ b/prutalgen/pkg/prutalgen/prutalgen.go
@@ -182,11 +182,7 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	protofile := x.searchProtoFile(file)
 
 	if proto := x.getByFile(protofile, true); proto != nil {
-		files := make([]string, 0, len(x.protostack))
-		for _, p := range x.protostack {
-			files = append(files, p.ProtoFile)
-		}
-		x.l.Fatalf("cyclic import is NOT allowed: %s", strings.Join(files, " \n\t-> "))
+		x.fatalCyclicImport()
 		return proto
 	}
 
@@ -214,7 +210,20 @@ func (x *protoLoader) loadProto(file string) *Proto {
 	return p
 }
 
+func (x *protoLoader) fatalCyclicImport() {
+	files := make([]string, 0, len(x.protostack))
+	for _, p := range x.protostack {
+		files = append(files, p.ProtoFile)
+	}
+	x.l.Fatalf("cyclic import is NOT allowed: %s", strings.Join(files, " \n\t-> "))
+}
+
 func (x *protoLoader) loadEmbeddedProto(file string) *Proto {
+	if proto := x.getByFile(file, true); proto != nil {
+		x.fatalCyclicImport()
+		return proto
+	}
+
 	if proto := x.getByFile(file, false); proto != nil {
 		return proto // parsed
 	}
-- 
2.43.0


From f12c2b60bfead54ce5c5f2e1c542ec0dd0f4fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:51 +0000
Subject: [PATCH 39/40] fix: do not take parts of a JSON name in a tag for tag
 parts

---
 internal/desc/tag.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/desc/tag.go b/internal/desc/tag.go
index 41db8b0..db8c93d 100644
--- a/internal/desc/tag.go
+++ b/internal/desc/tag.go
@@ -33,17 +33,23 @@ func (p *FieldDesc) parseStructTag(tag string) error {
 		tag = tag[:i] // it's always the last one and may contain anything, including commas
 	}
 	ss := strings.Split(tag, ",")
+	label := false
 	for _, s := range ss {
 		s = strings.TrimSpace(s)
 		if s == "" {
 			continue
 		}
+		if strings.HasPrefix(s, "json=") && label && p.TagType != 0 && p.ID != 0 {
+			break // the name may contain anything, including commas, and nothing of use follows
+		}
 		switch {
 		case s == "opt":
-			// not in use
+			label = true
 		case s == "req":
+			label = true
 			p.Required = true // proto2
 		case s == "rep":
+			label = true
 			p.Repeated = true
 		case s == "varint":
 			p.TagType = TypeVarint
-- 
2.43.0


From ea6a0e4c8c7825c19057d6221de2b3b05f6c542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:59 +0000
Subject: [PATCH 40/40] fix: values of a map entry were joined before they were
 decoded

The contents of a message in a map entry that is not just key and value
were copied at every level of nested maps, so that a small input could make
Unmarshal allocate much memory, and two malformed values which make a
well-formed one together were accepted.
---
 internal/prutal/decoder.go  | 20 ++++++++++++++++----
 internal/prutal/mapentry.go | 33 +++++++++++++++++----------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/internal/prutal/decoder.go b/internal/prutal/decoder.go
index f13df0b..a58af17 100644
--- a/internal/prutal/decoder.go
+++ b/internal/prutal/decoder.go
@@ -298,8 +298,8 @@ func (d *Decoder) mergeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc,
 					*(*string)(p) = ""
 				}
 			case reflect.Map:
-				var err error
-				if fb, err = normalizeMapEntry(fb, f); err != nil {
+				fb, msgs, err := normalizeMapEntry(fb, f)
+				if err != nil {
 					return i, err
 				}
 				// Fast path: use specialized decoders from wire package for primitive key-value pairs
@@ -319,7 +319,7 @@ func (d *Decoder) mergeStruct(b []byte, base unsafe.Pointer, s *desc.StructDesc,
 					if tmv == nil {
 						tmv = f.T.MapTmpVarsPool.Get().(*desc.TmpMapVars)
 					}
-					if _, err := d.DecodeMapPair(fb, p, f, tmv, maxdepth); err != nil {
+					if _, err := d.DecodeMapPair(fb, msgs, p, f, tmv, maxdepth); err != nil {
 						return i, err
 					}
 				}
@@ -572,7 +572,8 @@ func (d *Decoder) DecodeMapValue(b []byte, p unsafe.Pointer, f *desc.FieldDesc,
 	return i, nil
 }
 
-func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) (int, error) {
+// DecodeMapPair decodes a key followed by a value, merges msgs into the value, and updates the map.
+func (d *Decoder) DecodeMapPair(b []byte, msgs [][]byte, p unsafe.Pointer, f *desc.FieldDesc, tmp *desc.TmpMapVars, maxdepth int) (int, error) {
 	tmp.Reset()
 
 	// maps are encoded exactly like a repeated message field:
@@ -597,6 +598,17 @@ func (d *Decoder) DecodeMapPair(b []byte, p unsafe.Pointer, f *desc.FieldDesc, t
 	}
 	i += n
 
+	for _, x := range msgs {
+		vp, vt := tmp.ValPointer(), f.T.V
+		if vt.IsPointer {
+			vp = *(*unsafe.Pointer)(vp)
+			vt = vt.V
+		}
+		if _, err := d.mergeStruct(x, vp, vt.S, maxdepth-1); err != nil {
+			return i, err
+		}
+	}
+
 	tmp.Update(tmp, p)
 	return i, nil
 }
diff --git a/internal/prutal/mapentry.go b/internal/prutal/mapentry.go
index 1c1d15d..939711a 100644
--- a/internal/prutal/mapentry.go
+++ b/internal/prutal/mapentry.go
@@ -45,9 +45,13 @@ func isPlainMapEntry(b []byte, f *desc.FieldDesc) bool {
 //
 // A map entry is a message, its fields may be in any order, missing, duplicated
 // or mixed with unknown ones.
-func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
+//
+// If the value is a message, it is empty in the returned entry, and its contents
+// are in msgs, in the order in which they have to be merged. They are not copied,
+// coz maps may be nested.
+func normalizeMapEntry(b []byte, f *desc.FieldDesc) (entry []byte, msgs [][]byte, err error) {
 	if isPlainMapEntry(b, f) {
-		return b, nil
+		return b, nil, nil
 	}
 	// no tag, default value: a zero varint, zero bytes of a fixed, or an empty LEN
 	zero := [...][]byte{
@@ -57,43 +61,40 @@ func normalizeMapEntry(b []byte, f *desc.FieldDesc) ([]byte, error) {
 		wire.TypeFixed32: {0, 0, 0, 0},
 	}
 	key, val := zero[f.KeyWireType], zero[f.ValWireType]
-	var msg []byte // values of a message are merged
 	for len(b) > 0 {
 		num, typ, n := protowire.ConsumeTag(b)
 		if n < 0 {
-			return nil, protowire.ParseError(n)
+			return nil, nil, protowire.ParseError(n)
 		}
 		if num > protowire.MaxValidNumber {
-			return nil, errFieldNumber
+			return nil, nil, errFieldNumber
 		}
 		b = b[n:]
 		n = protowire.ConsumeFieldValue(num, typ, b)
 		if n < 0 {
-			return nil, protowire.ParseError(n)
+			return nil, nil, protowire.ParseError(n)
 		}
 		switch num {
 		case 1:
 			if typ != f.KeyWireType {
-				return nil, newWireTypeNotMatch(typ, f.KeyType)
+				return nil, nil, newWireTypeNotMatch(typ, f.KeyType)
 			}
 			key = b[:n]
 		case 2:
 			if typ != f.ValWireType {
-				return nil, newWireTypeNotMatch(typ, f.ValType)
+				return nil, nil, newWireTypeNotMatch(typ, f.ValType)
 			}
 			val = b[:n]
 			if typ == wire.TypeBytes && f.ValAppendFunc == nil {
 				data, _ := protowire.ConsumeBytes(val)
-				msg = append(msg, data...)
+				msgs = append(msgs, data)
+				val = zero[f.ValWireType]
 			}
 		}
 		b = b[n:]
 	}
-	ret := wire.AppendKeyTag(make([]byte, 0, 2+len(key)+len(val)+len(msg)), f.KeyWireType)
-	ret = append(ret, key...)
-	ret = wire.AppendValTag(ret, f.ValWireType)
-	if len(msg) > 0 {
-		return protowire.AppendBytes(ret, msg), nil
-	}
-	return append(ret, val...), nil
+	entry = wire.AppendKeyTag(make([]byte, 0, 2+len(key)+len(val)), f.KeyWireType)
+	entry = append(entry, key...)
+	entry = wire.AppendValTag(entry, f.ValWireType)
+	return append(entry, val...), msgs, nil
 }
-- 
2.43.0

