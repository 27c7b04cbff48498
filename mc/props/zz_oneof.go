// Code generated by tools. DO NOT EDIT.

package props

import "reflect"

type isGtO interface{ isGtO() }

// gtM is a message with one oneof whose members are the wrapper types W and V.
type gtM[W, V any] struct {
	A uint64 `protobuf:"varint,100,opt,name=a"`
	F isGtO  `protobuf_oneof:"f"`
	Z uint64 `protobuf:"fixed64,101,opt,name=z"`
}

func (*gtM[W, V]) XXX_OneofWrappers() []interface{} { return []interface{}{(*W)(nil), (*V)(nil)} }

type gtTail struct {
	T int32 `protobuf:"varint,2,opt,name=t,oneof"`
}

func (*gtTail) isGtO() {}

type gtW0_0[T any] struct {
	X T `protobuf:"varint,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW0_0[T]) isGtO() {}

type gtW0_1[T any] struct {
	X T `protobuf:"varint,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW0_1[T]) isGtO() {}

type gtW0_2[T any] struct {
	X T `protobuf:"varint,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW0_2[T]) isGtO() {}

type gtW0_3[T any] struct {
	X T `protobuf:"varint,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW0_3[T]) isGtO() {}

type gtW0_4[T any] struct {
	X T `protobuf:"varint,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW0_4[T]) isGtO() {}

type gtW1_0[T any] struct {
	X T `protobuf:"zigzag32,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW1_0[T]) isGtO() {}

type gtW1_1[T any] struct {
	X T `protobuf:"zigzag32,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW1_1[T]) isGtO() {}

type gtW1_2[T any] struct {
	X T `protobuf:"zigzag32,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW1_2[T]) isGtO() {}

type gtW1_3[T any] struct {
	X T `protobuf:"zigzag32,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW1_3[T]) isGtO() {}

type gtW1_4[T any] struct {
	X T `protobuf:"zigzag32,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW1_4[T]) isGtO() {}

type gtW2_0[T any] struct {
	X T `protobuf:"zigzag64,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW2_0[T]) isGtO() {}

type gtW2_1[T any] struct {
	X T `protobuf:"zigzag64,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW2_1[T]) isGtO() {}

type gtW2_2[T any] struct {
	X T `protobuf:"zigzag64,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW2_2[T]) isGtO() {}

type gtW2_3[T any] struct {
	X T `protobuf:"zigzag64,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW2_3[T]) isGtO() {}

type gtW2_4[T any] struct {
	X T `protobuf:"zigzag64,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW2_4[T]) isGtO() {}

type gtW3_0[T any] struct {
	X T `protobuf:"fixed32,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW3_0[T]) isGtO() {}

type gtW3_1[T any] struct {
	X T `protobuf:"fixed32,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW3_1[T]) isGtO() {}

type gtW3_2[T any] struct {
	X T `protobuf:"fixed32,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW3_2[T]) isGtO() {}

type gtW3_3[T any] struct {
	X T `protobuf:"fixed32,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW3_3[T]) isGtO() {}

type gtW3_4[T any] struct {
	X T `protobuf:"fixed32,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW3_4[T]) isGtO() {}

type gtW4_0[T any] struct {
	X T `protobuf:"fixed64,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW4_0[T]) isGtO() {}

type gtW4_1[T any] struct {
	X T `protobuf:"fixed64,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW4_1[T]) isGtO() {}

type gtW4_2[T any] struct {
	X T `protobuf:"fixed64,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW4_2[T]) isGtO() {}

type gtW4_3[T any] struct {
	X T `protobuf:"fixed64,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW4_3[T]) isGtO() {}

type gtW4_4[T any] struct {
	X T `protobuf:"fixed64,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW4_4[T]) isGtO() {}

type gtW5_0[T any] struct {
	X T `protobuf:"bytes,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW5_0[T]) isGtO() {}

type gtW5_1[T any] struct {
	X T `protobuf:"bytes,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW5_1[T]) isGtO() {}

type gtW5_2[T any] struct {
	X T `protobuf:"bytes,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW5_2[T]) isGtO() {}

type gtW5_3[T any] struct {
	X T `protobuf:"bytes,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW5_3[T]) isGtO() {}

type gtW5_4[T any] struct {
	X T `protobuf:"bytes,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW5_4[T]) isGtO() {}

type gtW6_0[T any] struct {
	X T `protobuf:"group,1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW6_0[T]) isGtO() {}

type gtW6_1[T any] struct {
	X T `protobuf:"group,1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW6_1[T]) isGtO() {}

type gtW6_2[T any] struct {
	X T `protobuf:"group,1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW6_2[T]) isGtO() {}

type gtW6_3[T any] struct {
	X T `protobuf:"group,1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW6_3[T]) isGtO() {}

type gtW6_4[T any] struct {
	X T `protobuf:"group,1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW6_4[T]) isGtO() {}

type gtW7_0[T any] struct {
	X T `protobuf:"1,opt,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW7_0[T]) isGtO() {}

type gtW7_1[T any] struct {
	X T `protobuf:"1,rep,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW7_1[T]) isGtO() {}

type gtW7_2[T any] struct {
	X T `protobuf:"1,rep,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW7_2[T]) isGtO() {}

type gtW7_3[T any] struct {
	X T `protobuf:"1,packed,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW7_3[T]) isGtO() {}

type gtW7_4[T any] struct {
	X T `protobuf:"1,name=x,oneof" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
}

func (*gtW7_4[T]) isGtO() {}

type gtOneofRow struct {
	wire, flags string
	m, w        reflect.Type
}

func gtOneofRows() []gtOneofRow {
	var out []gtOneofRow
	out = append(out, gtRows[bool]()...)
	out = append(out, gtRows[int]()...)
	out = append(out, gtRows[int32]()...)
	out = append(out, gtRows[int64]()...)
	out = append(out, gtRows[uint32]()...)
	out = append(out, gtRows[uint64]()...)
	out = append(out, gtRows[float32]()...)
	out = append(out, gtRows[float64]()...)
	out = append(out, gtRows[string]()...)
	out = append(out, gtRows[[]byte]()...)
	out = append(out, gtRows[gtI32]()...)
	out = append(out, gtRows[gtStr]()...)
	out = append(out, gtRows[*int32]()...)
	out = append(out, gtRows[*string]()...)
	out = append(out, gtRows[*[]byte]()...)
	out = append(out, gtRows[[]int32]()...)
	out = append(out, gtRows[[]string]()...)
	out = append(out, gtRows[[][]byte]()...)
	out = append(out, gtRows[*gtLeaf]()...)
	out = append(out, gtRows[gtLeaf]()...)
	out = append(out, gtRows[**gtLeaf]()...)
	out = append(out, gtRows[[]*gtLeaf]()...)
	out = append(out, gtRows[map[string]int32]()...)
	out = append(out, gtRows[gtEmpty]()...)
	out = append(out, gtRows[*gtEmpty]()...)
	out = append(out, gtRows[*gtBad]()...)
	out = append(out, gtRows[gtBad]()...)
	out = append(out, gtRows[[4]byte]()...)
	out = append(out, gtRows[any]()...)
	out = append(out, gtRows[func()]()...)
	return out
}

func gtRows[T any]() []gtOneofRow {
	return []gtOneofRow{
		{"varint", "opt", ty[gtM[gtW0_0[T], gtTail]](), ty[gtW0_0[T]]()},
		{"varint", "rep", ty[gtM[gtW0_1[T], gtTail]](), ty[gtW0_1[T]]()},
		{"varint", "rep,packed", ty[gtM[gtW0_2[T], gtTail]](), ty[gtW0_2[T]]()},
		{"varint", "packed", ty[gtM[gtW0_3[T], gtTail]](), ty[gtW0_3[T]]()},
		{"varint", "", ty[gtM[gtW0_4[T], gtTail]](), ty[gtW0_4[T]]()},
		{"zigzag32", "opt", ty[gtM[gtW1_0[T], gtTail]](), ty[gtW1_0[T]]()},
		{"zigzag32", "rep", ty[gtM[gtW1_1[T], gtTail]](), ty[gtW1_1[T]]()},
		{"zigzag32", "rep,packed", ty[gtM[gtW1_2[T], gtTail]](), ty[gtW1_2[T]]()},
		{"zigzag32", "packed", ty[gtM[gtW1_3[T], gtTail]](), ty[gtW1_3[T]]()},
		{"zigzag32", "", ty[gtM[gtW1_4[T], gtTail]](), ty[gtW1_4[T]]()},
		{"zigzag64", "opt", ty[gtM[gtW2_0[T], gtTail]](), ty[gtW2_0[T]]()},
		{"zigzag64", "rep", ty[gtM[gtW2_1[T], gtTail]](), ty[gtW2_1[T]]()},
		{"zigzag64", "rep,packed", ty[gtM[gtW2_2[T], gtTail]](), ty[gtW2_2[T]]()},
		{"zigzag64", "packed", ty[gtM[gtW2_3[T], gtTail]](), ty[gtW2_3[T]]()},
		{"zigzag64", "", ty[gtM[gtW2_4[T], gtTail]](), ty[gtW2_4[T]]()},
		{"fixed32", "opt", ty[gtM[gtW3_0[T], gtTail]](), ty[gtW3_0[T]]()},
		{"fixed32", "rep", ty[gtM[gtW3_1[T], gtTail]](), ty[gtW3_1[T]]()},
		{"fixed32", "rep,packed", ty[gtM[gtW3_2[T], gtTail]](), ty[gtW3_2[T]]()},
		{"fixed32", "packed", ty[gtM[gtW3_3[T], gtTail]](), ty[gtW3_3[T]]()},
		{"fixed32", "", ty[gtM[gtW3_4[T], gtTail]](), ty[gtW3_4[T]]()},
		{"fixed64", "opt", ty[gtM[gtW4_0[T], gtTail]](), ty[gtW4_0[T]]()},
		{"fixed64", "rep", ty[gtM[gtW4_1[T], gtTail]](), ty[gtW4_1[T]]()},
		{"fixed64", "rep,packed", ty[gtM[gtW4_2[T], gtTail]](), ty[gtW4_2[T]]()},
		{"fixed64", "packed", ty[gtM[gtW4_3[T], gtTail]](), ty[gtW4_3[T]]()},
		{"fixed64", "", ty[gtM[gtW4_4[T], gtTail]](), ty[gtW4_4[T]]()},
		{"bytes", "opt", ty[gtM[gtW5_0[T], gtTail]](), ty[gtW5_0[T]]()},
		{"bytes", "rep", ty[gtM[gtW5_1[T], gtTail]](), ty[gtW5_1[T]]()},
		{"bytes", "rep,packed", ty[gtM[gtW5_2[T], gtTail]](), ty[gtW5_2[T]]()},
		{"bytes", "packed", ty[gtM[gtW5_3[T], gtTail]](), ty[gtW5_3[T]]()},
		{"bytes", "", ty[gtM[gtW5_4[T], gtTail]](), ty[gtW5_4[T]]()},
		{"group", "opt", ty[gtM[gtW6_0[T], gtTail]](), ty[gtW6_0[T]]()},
		{"group", "rep", ty[gtM[gtW6_1[T], gtTail]](), ty[gtW6_1[T]]()},
		{"group", "rep,packed", ty[gtM[gtW6_2[T], gtTail]](), ty[gtW6_2[T]]()},
		{"group", "packed", ty[gtM[gtW6_3[T], gtTail]](), ty[gtW6_3[T]]()},
		{"group", "", ty[gtM[gtW6_4[T], gtTail]](), ty[gtW6_4[T]]()},
		{"", "opt", ty[gtM[gtW7_0[T], gtTail]](), ty[gtW7_0[T]]()},
		{"", "rep", ty[gtM[gtW7_1[T], gtTail]](), ty[gtW7_1[T]]()},
		{"", "rep,packed", ty[gtM[gtW7_2[T], gtTail]](), ty[gtW7_2[T]]()},
		{"", "packed", ty[gtM[gtW7_3[T], gtTail]](), ty[gtW7_3[T]]()},
		{"", "", ty[gtM[gtW7_4[T], gtTail]](), ty[gtW7_4[T]]()},
	}
}
