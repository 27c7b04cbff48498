package pb

import (
	"bytes"
	"fmt"
	"sort"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
)

// Dyn builds an official-library dynamic message type for the schema. It is the
// second, independent oracle: every enumerated space that has a model verdict
// replays it against this too.
func Dyn(s *Schema) (protoreflect.MessageType, error) {
	fd := &descriptorpb.FileDescriptorProto{
		Name: proto.String("x.proto"), Package: proto.String("x"),
		Syntax: proto.String("editions"), Edition: descriptorpb.Edition_EDITION_2023.Enum(),
		Options: &descriptorpb.FileOptions{Features: &descriptorpb.FeatureSet{
			Utf8Validation: descriptorpb.FeatureSet_NONE.Enum(),
		}},
		EnumType: []*descriptorpb.EnumDescriptorProto{{Name: proto.String("E"),
			Value: []*descriptorpb.EnumValueDescriptorProto{{Name: proto.String("E0"), Number: proto.Int32(0)}}}},
	}
	names := map[*Schema]string{}
	var add func(s *Schema) string
	add = func(s *Schema) string {
		if n, ok := names[s]; ok {
			return n
		}
		n := fmt.Sprintf("M%d", len(names))
		names[s] = n
		md := &descriptorpb.DescriptorProto{Name: proto.String(n)}
		fd.MessageType = append(fd.MessageType, md)
		oneofs := map[int]int32{}
		for _, f := range s.Fields {
			d := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", f.Num)), Number: proto.Int32(f.Num),
				Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Options: &descriptorpb.FieldOptions{Features: &descriptorpb.FeatureSet{}}}
			typ := func(d *descriptorpb.FieldDescriptorProto, k Kind) {
				d.Type = dynKind[k].Enum()
				switch k {
				case Enum:
					d.TypeName = proto.String(".x.E")
				case Message:
					d.TypeName = proto.String(".x." + add(f.Msg))
				}
			}
			switch f.Card {
			case Implicit:
				typ(d, f.Kind)
				if f.Kind != Message {
					d.Options.Features.FieldPresence = descriptorpb.FeatureSet_IMPLICIT.Enum()
				}
			case Explicit, Required:
				typ(d, f.Kind)
			case Repeated:
				typ(d, f.Kind)
				d.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				if f.Kind.Packable() {
					d.Options.Features.RepeatedFieldEncoding = descriptorpb.FeatureSet_EXPANDED.Enum()
				}
			case Packed:
				typ(d, f.Kind)
				d.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				d.Options.Features.RepeatedFieldEncoding = descriptorpb.FeatureSet_PACKED.Enum()
			case Map:
				en := fmt.Sprintf("F%dEntry", f.Num)
				k := &descriptorpb.FieldDescriptorProto{Name: proto.String("key"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
				v := &descriptorpb.FieldDescriptorProto{Name: proto.String("value"), Number: proto.Int32(2), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum()}
				typ(k, f.Key)
				typ(v, f.Kind)
				md.NestedType = append(md.NestedType, &descriptorpb.DescriptorProto{Name: proto.String(en), Field: []*descriptorpb.FieldDescriptorProto{k, v},
					Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}})
				d.Label = descriptorpb.FieldDescriptorProto_LABEL_REPEATED.Enum()
				d.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
				d.TypeName = proto.String(".x." + n + "." + en)
			case Oneof:
				typ(d, f.Kind)
				oi, ok := oneofs[f.OneofID]
				if !ok {
					oi = int32(len(oneofs))
					oneofs[f.OneofID] = oi
					md.OneofDecl = append(md.OneofDecl, &descriptorpb.OneofDescriptorProto{Name: proto.String(fmt.Sprintf("o%d", f.OneofID))})
				}
				d.OneofIndex = proto.Int32(oi)
			}
			md.Field = append(md.Field, d)
		}
		return n
	}
	root := add(s)
	file, err := protodesc.NewFile(fd, nil)
	if err != nil {
		return nil, err
	}
	return dynamicpb.NewMessageType(file.Messages().ByName(protoreflect.Name(root))), nil
}

var dynKind = map[Kind]descriptorpb.FieldDescriptorProto_Type{
	Int32: descriptorpb.FieldDescriptorProto_TYPE_INT32, Int64: descriptorpb.FieldDescriptorProto_TYPE_INT64,
	Uint32: descriptorpb.FieldDescriptorProto_TYPE_UINT32, Uint64: descriptorpb.FieldDescriptorProto_TYPE_UINT64,
	Sint32: descriptorpb.FieldDescriptorProto_TYPE_SINT32, Sint64: descriptorpb.FieldDescriptorProto_TYPE_SINT64,
	Fixed32: descriptorpb.FieldDescriptorProto_TYPE_FIXED32, Fixed64: descriptorpb.FieldDescriptorProto_TYPE_FIXED64,
	Sfixed32: descriptorpb.FieldDescriptorProto_TYPE_SFIXED32, Sfixed64: descriptorpb.FieldDescriptorProto_TYPE_SFIXED64,
	Float: descriptorpb.FieldDescriptorProto_TYPE_FLOAT, Double: descriptorpb.FieldDescriptorProto_TYPE_DOUBLE,
	Bool: descriptorpb.FieldDescriptorProto_TYPE_BOOL, String: descriptorpb.FieldDescriptorProto_TYPE_STRING,
	Bytes: descriptorpb.FieldDescriptorProto_TYPE_BYTES, Enum: descriptorpb.FieldDescriptorProto_TYPE_ENUM,
	Message: descriptorpb.FieldDescriptorProto_TYPE_MESSAGE,
}

// DynDecode parses b with the official library and re-encodes it
// deterministically, with records stably sorted by field number in every
// message and unknown records kept last.
func DynDecode(s *Schema, mt protoreflect.MessageType, b []byte) ([]byte, error) {
	m := mt.New().Interface()
	if err := (proto.UnmarshalOptions{AllowPartial: true}).Unmarshal(b, m); err != nil {
		return nil, err
	}
	out, err := (proto.MarshalOptions{AllowPartial: true, Deterministic: true}).Marshal(m)
	if err != nil {
		return nil, err
	}
	return SortRecords(s, out), nil
}

// SortRecords stably sorts known records by number (unknown last), recursively,
// sorting map entries by payload.
func SortRecords(s *Schema, b []byte) []byte {
	type rec struct {
		num int32
		b   []byte
		m   bool
	}
	var recs []rec
	var tail []byte
	for i := 0; i < len(b); {
		num, w, n, err := Tag(b[i:])
		if err != nil {
			return b
		}
		m, err := Skip(b[i+n:], num, w, GroupDepth)
		if err != nil {
			return b
		}
		full := b[i : i+n+m]
		body := b[i+n : i+n+m]
		i += n + m
		f := s.Field(num)
		if f == nil || !accepts(f, w) {
			tail = append(tail, full...)
			continue
		}
		r := rec{num: num, b: full}
		switch {
		case f.Card == Map:
			r.m = true
			if f.Kind == Message {
				// entry = key record, value record
				p := payload(body)
				_, kw, kn, _ := Tag(p)
				km, _ := Skip(p[kn:], 1, kw, 0)
				_, _, vn, _ := Tag(p[kn+km:])
				val := SortRecords(f.Msg, payload(p[kn+km+vn:]))
				e := append([]byte{}, p[:kn+km+vn]...)
				r.b = AppendLen(AppendTag(nil, num, WBytes), AppendLen(e, val))
			}
		case f.Kind == Message:
			r.b = AppendLen(AppendTag(nil, num, WBytes), SortRecords(f.Msg, payload(body)))
		}
		recs = append(recs, r)
	}
	sort.SliceStable(recs, func(i, j int) bool {
		if recs[i].num != recs[j].num {
			return recs[i].num < recs[j].num
		}
		if recs[i].m {
			return bytes.Compare(recs[i].b, recs[j].b) < 0
		}
		return false
	})
	var out []byte
	for _, r := range recs {
		out = append(out, r.b...)
	}
	return append(out, tail...)
}
