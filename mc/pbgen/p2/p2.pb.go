// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        v3.21.12
// source: p2.proto

package p2

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type E int32

const (
	E_Z   E = 0
	E_A   E = 1
	E_NEG E = -1
	E_BIG E = 2147483647
)

// Enum value maps for E.
var (
	E_name = map[int32]string{
		0:          "Z",
		1:          "A",
		-1:         "NEG",
		2147483647: "BIG",
	}
	E_value = map[string]int32{
		"Z":   0,
		"A":   1,
		"NEG": -1,
		"BIG": 2147483647,
	}
)

func (x E) Enum() *E {
	p := new(E)
	*p = x
	return p
}

func (x E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (E) Descriptor() protoreflect.EnumDescriptor {
	return file_p2_proto_enumTypes[0].Descriptor()
}

func (E) Type() protoreflect.EnumType {
	return &file_p2_proto_enumTypes[0]
}

func (x E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Do not use.
func (x *E) UnmarshalJSON(b []byte) error {
	num, err := protoimpl.X.UnmarshalJSONEnum(x.Descriptor(), b)
	if err != nil {
		return err
	}
	*x = E(num)
	return nil
}

// Deprecated: Use E.Descriptor instead.
func (E) EnumDescriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{0}
}

type Leaf struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	A             *int32                 `protobuf:"varint,1,opt,name=a" json:"a,omitempty"`
	B             *string                `protobuf:"bytes,2,opt,name=b" json:"b,omitempty"`
	C             []uint64               `protobuf:"varint,3,rep,name=c" json:"c,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Leaf) Reset() {
	*x = Leaf{}
	mi := &file_p2_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Leaf) ProtoMessage() {}

func (x *Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Leaf.ProtoReflect.Descriptor instead.
func (*Leaf) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{0}
}

func (x *Leaf) GetA() int32 {
	if x != nil && x.A != nil {
		return *x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil && x.B != nil {
		return *x.B
	}
	return ""
}

func (x *Leaf) GetC() []uint64 {
	if x != nil {
		return x.C
	}
	return nil
}

type All struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	OInt32    *int32                 `protobuf:"varint,1,opt,name=o_int32,json=oInt32" json:"o_int32,omitempty"`
	OInt64    *int64                 `protobuf:"varint,2,opt,name=o_int64,json=oInt64" json:"o_int64,omitempty"`
	OUint32   *uint32                `protobuf:"varint,3,opt,name=o_uint32,json=oUint32" json:"o_uint32,omitempty"`
	OUint64   *uint64                `protobuf:"varint,4,opt,name=o_uint64,json=oUint64" json:"o_uint64,omitempty"`
	OSint32   *int32                 `protobuf:"zigzag32,5,opt,name=o_sint32,json=oSint32" json:"o_sint32,omitempty"`
	OSint64   *int64                 `protobuf:"zigzag64,6,opt,name=o_sint64,json=oSint64" json:"o_sint64,omitempty"`
	OFixed32  *uint32                `protobuf:"fixed32,7,opt,name=o_fixed32,json=oFixed32" json:"o_fixed32,omitempty"`
	OFixed64  *uint64                `protobuf:"fixed64,8,opt,name=o_fixed64,json=oFixed64" json:"o_fixed64,omitempty"`
	OSfixed32 *int32                 `protobuf:"fixed32,9,opt,name=o_sfixed32,json=oSfixed32" json:"o_sfixed32,omitempty"`
	OSfixed64 *int64                 `protobuf:"fixed64,10,opt,name=o_sfixed64,json=oSfixed64" json:"o_sfixed64,omitempty"`
	OFloat    *float32               `protobuf:"fixed32,11,opt,name=o_float,json=oFloat" json:"o_float,omitempty"`
	ODouble   *float64               `protobuf:"fixed64,12,opt,name=o_double,json=oDouble" json:"o_double,omitempty"`
	OBool     *bool                  `protobuf:"varint,13,opt,name=o_bool,json=oBool" json:"o_bool,omitempty"`
	OString   *string                `protobuf:"bytes,14,opt,name=o_string,json=oString" json:"o_string,omitempty"`
	OBytes    []byte                 `protobuf:"bytes,15,opt,name=o_bytes,json=oBytes" json:"o_bytes,omitempty"`
	OE        *E                     `protobuf:"varint,16,opt,name=o_e,json=oE,enum=mcp2.E" json:"o_e,omitempty"`
	RInt32    []int32                `protobuf:"varint,17,rep,name=r_int32,json=rInt32" json:"r_int32,omitempty"`
	RInt64    []int64                `protobuf:"varint,18,rep,name=r_int64,json=rInt64" json:"r_int64,omitempty"`
	RUint32   []uint32               `protobuf:"varint,19,rep,name=r_uint32,json=rUint32" json:"r_uint32,omitempty"`
	RUint64   []uint64               `protobuf:"varint,20,rep,name=r_uint64,json=rUint64" json:"r_uint64,omitempty"`
	RSint32   []int32                `protobuf:"zigzag32,21,rep,name=r_sint32,json=rSint32" json:"r_sint32,omitempty"`
	RSint64   []int64                `protobuf:"zigzag64,22,rep,name=r_sint64,json=rSint64" json:"r_sint64,omitempty"`
	RFixed32  []uint32               `protobuf:"fixed32,23,rep,name=r_fixed32,json=rFixed32" json:"r_fixed32,omitempty"`
	RFixed64  []uint64               `protobuf:"fixed64,24,rep,name=r_fixed64,json=rFixed64" json:"r_fixed64,omitempty"`
	RSfixed32 []int32                `protobuf:"fixed32,25,rep,name=r_sfixed32,json=rSfixed32" json:"r_sfixed32,omitempty"`
	RSfixed64 []int64                `protobuf:"fixed64,26,rep,name=r_sfixed64,json=rSfixed64" json:"r_sfixed64,omitempty"`
	RFloat    []float32              `protobuf:"fixed32,27,rep,name=r_float,json=rFloat" json:"r_float,omitempty"`
	RDouble   []float64              `protobuf:"fixed64,28,rep,name=r_double,json=rDouble" json:"r_double,omitempty"`
	RBool     []bool                 `protobuf:"varint,29,rep,name=r_bool,json=rBool" json:"r_bool,omitempty"`
	RString   []string               `protobuf:"bytes,30,rep,name=r_string,json=rString" json:"r_string,omitempty"`
	RBytes    [][]byte               `protobuf:"bytes,31,rep,name=r_bytes,json=rBytes" json:"r_bytes,omitempty"`
	RE        []E                    `protobuf:"varint,32,rep,name=r_e,json=rE,enum=mcp2.E" json:"r_e,omitempty"`
	KInt32    []int32                `protobuf:"varint,33,rep,packed,name=k_int32,json=kInt32" json:"k_int32,omitempty"`
	KInt64    []int64                `protobuf:"varint,34,rep,packed,name=k_int64,json=kInt64" json:"k_int64,omitempty"`
	KUint32   []uint32               `protobuf:"varint,35,rep,packed,name=k_uint32,json=kUint32" json:"k_uint32,omitempty"`
	KUint64   []uint64               `protobuf:"varint,36,rep,packed,name=k_uint64,json=kUint64" json:"k_uint64,omitempty"`
	KSint32   []int32                `protobuf:"zigzag32,37,rep,packed,name=k_sint32,json=kSint32" json:"k_sint32,omitempty"`
	KSint64   []int64                `protobuf:"zigzag64,38,rep,packed,name=k_sint64,json=kSint64" json:"k_sint64,omitempty"`
	KFixed32  []uint32               `protobuf:"fixed32,39,rep,packed,name=k_fixed32,json=kFixed32" json:"k_fixed32,omitempty"`
	KFixed64  []uint64               `protobuf:"fixed64,40,rep,packed,name=k_fixed64,json=kFixed64" json:"k_fixed64,omitempty"`
	KSfixed32 []int32                `protobuf:"fixed32,41,rep,packed,name=k_sfixed32,json=kSfixed32" json:"k_sfixed32,omitempty"`
	KSfixed64 []int64                `protobuf:"fixed64,42,rep,packed,name=k_sfixed64,json=kSfixed64" json:"k_sfixed64,omitempty"`
	KFloat    []float32              `protobuf:"fixed32,43,rep,packed,name=k_float,json=kFloat" json:"k_float,omitempty"`
	KDouble   []float64              `protobuf:"fixed64,44,rep,packed,name=k_double,json=kDouble" json:"k_double,omitempty"`
	KBool     []bool                 `protobuf:"varint,45,rep,packed,name=k_bool,json=kBool" json:"k_bool,omitempty"`
	KE        []E                    `protobuf:"varint,46,rep,packed,name=k_e,json=kE,enum=mcp2.E" json:"k_e,omitempty"`
	M         *Leaf                  `protobuf:"bytes,47,opt,name=m" json:"m,omitempty"`
	Rm        []*Leaf                `protobuf:"bytes,48,rep,name=rm" json:"rm,omitempty"`
	Named     map[string]*All        `protobuf:"bytes,49,rep,name=named" json:"named,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mss       map[int32]string       `protobuf:"bytes,50,rep,name=mss" json:"mss,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mfe       map[uint64]E           `protobuf:"bytes,51,rep,name=mfe" json:"mfe,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp2.E"`
	// Types that are valid to be assigned to U:
	//
	//	*All_XInt32
	//	*All_XInt64
	//	*All_XUint32
	//	*All_XUint64
	//	*All_XSint32
	//	*All_XSint64
	//	*All_XFixed32
	//	*All_XFixed64
	//	*All_XSfixed32
	//	*All_XSfixed64
	//	*All_XFloat
	//	*All_XDouble
	//	*All_XBool
	//	*All_XString
	//	*All_XBytes
	//	*All_XE
	//	*All_XM
	U             isAll_U `protobuf_oneof:"u"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *All) Reset() {
	*x = All{}
	mi := &file_p2_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*All) ProtoMessage() {}

func (x *All) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use All.ProtoReflect.Descriptor instead.
func (*All) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{1}
}

func (x *All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *All) GetOE() E {
	if x != nil && x.OE != nil {
		return *x.OE
	}
	return E_Z
}

func (x *All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *All) GetRE() []E {
	if x != nil {
		return x.RE
	}
	return nil
}

func (x *All) GetKInt32() []int32 {
	if x != nil {
		return x.KInt32
	}
	return nil
}

func (x *All) GetKInt64() []int64 {
	if x != nil {
		return x.KInt64
	}
	return nil
}

func (x *All) GetKUint32() []uint32 {
	if x != nil {
		return x.KUint32
	}
	return nil
}

func (x *All) GetKUint64() []uint64 {
	if x != nil {
		return x.KUint64
	}
	return nil
}

func (x *All) GetKSint32() []int32 {
	if x != nil {
		return x.KSint32
	}
	return nil
}

func (x *All) GetKSint64() []int64 {
	if x != nil {
		return x.KSint64
	}
	return nil
}

func (x *All) GetKFixed32() []uint32 {
	if x != nil {
		return x.KFixed32
	}
	return nil
}

func (x *All) GetKFixed64() []uint64 {
	if x != nil {
		return x.KFixed64
	}
	return nil
}

func (x *All) GetKSfixed32() []int32 {
	if x != nil {
		return x.KSfixed32
	}
	return nil
}

func (x *All) GetKSfixed64() []int64 {
	if x != nil {
		return x.KSfixed64
	}
	return nil
}

func (x *All) GetKFloat() []float32 {
	if x != nil {
		return x.KFloat
	}
	return nil
}

func (x *All) GetKDouble() []float64 {
	if x != nil {
		return x.KDouble
	}
	return nil
}

func (x *All) GetKBool() []bool {
	if x != nil {
		return x.KBool
	}
	return nil
}

func (x *All) GetKE() []E {
	if x != nil {
		return x.KE
	}
	return nil
}

func (x *All) GetM() *Leaf {
	if x != nil {
		return x.M
	}
	return nil
}

func (x *All) GetRm() []*Leaf {
	if x != nil {
		return x.Rm
	}
	return nil
}

func (x *All) GetNamed() map[string]*All {
	if x != nil {
		return x.Named
	}
	return nil
}

func (x *All) GetMss() map[int32]string {
	if x != nil {
		return x.Mss
	}
	return nil
}

func (x *All) GetMfe() map[uint64]E {
	if x != nil {
		return x.Mfe
	}
	return nil
}

func (x *All) GetU() isAll_U {
	if x != nil {
		return x.U
	}
	return nil
}

func (x *All) GetXInt32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XInt32); ok {
			return x.XInt32
		}
	}
	return 0
}

func (x *All) GetXInt64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XInt64); ok {
			return x.XInt64
		}
	}
	return 0
}

func (x *All) GetXUint32() uint32 {
	if x != nil {
		if x, ok := x.U.(*All_XUint32); ok {
			return x.XUint32
		}
	}
	return 0
}

func (x *All) GetXUint64() uint64 {
	if x != nil {
		if x, ok := x.U.(*All_XUint64); ok {
			return x.XUint64
		}
	}
	return 0
}

func (x *All) GetXSint32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XSint32); ok {
			return x.XSint32
		}
	}
	return 0
}

func (x *All) GetXSint64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XSint64); ok {
			return x.XSint64
		}
	}
	return 0
}

func (x *All) GetXFixed32() uint32 {
	if x != nil {
		if x, ok := x.U.(*All_XFixed32); ok {
			return x.XFixed32
		}
	}
	return 0
}

func (x *All) GetXFixed64() uint64 {
	if x != nil {
		if x, ok := x.U.(*All_XFixed64); ok {
			return x.XFixed64
		}
	}
	return 0
}

func (x *All) GetXSfixed32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XSfixed32); ok {
			return x.XSfixed32
		}
	}
	return 0
}

func (x *All) GetXSfixed64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XSfixed64); ok {
			return x.XSfixed64
		}
	}
	return 0
}

func (x *All) GetXFloat() float32 {
	if x != nil {
		if x, ok := x.U.(*All_XFloat); ok {
			return x.XFloat
		}
	}
	return 0
}

func (x *All) GetXDouble() float64 {
	if x != nil {
		if x, ok := x.U.(*All_XDouble); ok {
			return x.XDouble
		}
	}
	return 0
}

func (x *All) GetXBool() bool {
	if x != nil {
		if x, ok := x.U.(*All_XBool); ok {
			return x.XBool
		}
	}
	return false
}

func (x *All) GetXString() string {
	if x != nil {
		if x, ok := x.U.(*All_XString); ok {
			return x.XString
		}
	}
	return ""
}

func (x *All) GetXBytes() []byte {
	if x != nil {
		if x, ok := x.U.(*All_XBytes); ok {
			return x.XBytes
		}
	}
	return nil
}

func (x *All) GetXE() E {
	if x != nil {
		if x, ok := x.U.(*All_XE); ok {
			return x.XE
		}
	}
	return E_Z
}

func (x *All) GetXM() *Leaf {
	if x != nil {
		if x, ok := x.U.(*All_XM); ok {
			return x.XM
		}
	}
	return nil
}

type isAll_U interface {
	isAll_U()
}

type All_XInt32 struct {
	XInt32 int32 `protobuf:"varint,2000,opt,name=x_int32,json=xInt32,oneof"`
}

type All_XInt64 struct {
	XInt64 int64 `protobuf:"varint,2001,opt,name=x_int64,json=xInt64,oneof"`
}

type All_XUint32 struct {
	XUint32 uint32 `protobuf:"varint,2002,opt,name=x_uint32,json=xUint32,oneof"`
}

type All_XUint64 struct {
	XUint64 uint64 `protobuf:"varint,2003,opt,name=x_uint64,json=xUint64,oneof"`
}

type All_XSint32 struct {
	XSint32 int32 `protobuf:"zigzag32,2004,opt,name=x_sint32,json=xSint32,oneof"`
}

type All_XSint64 struct {
	XSint64 int64 `protobuf:"zigzag64,2005,opt,name=x_sint64,json=xSint64,oneof"`
}

type All_XFixed32 struct {
	XFixed32 uint32 `protobuf:"fixed32,2006,opt,name=x_fixed32,json=xFixed32,oneof"`
}

type All_XFixed64 struct {
	XFixed64 uint64 `protobuf:"fixed64,2007,opt,name=x_fixed64,json=xFixed64,oneof"`
}

type All_XSfixed32 struct {
	XSfixed32 int32 `protobuf:"fixed32,2008,opt,name=x_sfixed32,json=xSfixed32,oneof"`
}

type All_XSfixed64 struct {
	XSfixed64 int64 `protobuf:"fixed64,2009,opt,name=x_sfixed64,json=xSfixed64,oneof"`
}

type All_XFloat struct {
	XFloat float32 `protobuf:"fixed32,2010,opt,name=x_float,json=xFloat,oneof"`
}

type All_XDouble struct {
	XDouble float64 `protobuf:"fixed64,2011,opt,name=x_double,json=xDouble,oneof"`
}

type All_XBool struct {
	XBool bool `protobuf:"varint,2012,opt,name=x_bool,json=xBool,oneof"`
}

type All_XString struct {
	XString string `protobuf:"bytes,2013,opt,name=x_string,json=xString,oneof"`
}

type All_XBytes struct {
	XBytes []byte `protobuf:"bytes,2014,opt,name=x_bytes,json=xBytes,oneof"`
}

type All_XE struct {
	XE E `protobuf:"varint,2015,opt,name=x_e,json=xE,enum=mcp2.E,oneof"`
}

type All_XM struct {
	XM *Leaf `protobuf:"bytes,2016,opt,name=x_m,json=xM,oneof"`
}

func (*All_XInt32) isAll_U() {}

func (*All_XInt64) isAll_U() {}

func (*All_XUint32) isAll_U() {}

func (*All_XUint64) isAll_U() {}

func (*All_XSint32) isAll_U() {}

func (*All_XSint64) isAll_U() {}

func (*All_XFixed32) isAll_U() {}

func (*All_XFixed64) isAll_U() {}

func (*All_XSfixed32) isAll_U() {}

func (*All_XSfixed64) isAll_U() {}

func (*All_XFloat) isAll_U() {}

func (*All_XDouble) isAll_U() {}

func (*All_XBool) isAll_U() {}

func (*All_XString) isAll_U() {}

func (*All_XBytes) isAll_U() {}

func (*All_XE) isAll_U() {}

func (*All_XM) isAll_U() {}

type Req struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	QInt32        *int32                 `protobuf:"varint,1,req,name=q_int32,json=qInt32" json:"q_int32,omitempty"`
	QInt64        *int64                 `protobuf:"varint,2,req,name=q_int64,json=qInt64" json:"q_int64,omitempty"`
	QUint32       *uint32                `protobuf:"varint,3,req,name=q_uint32,json=qUint32" json:"q_uint32,omitempty"`
	QUint64       *uint64                `protobuf:"varint,4,req,name=q_uint64,json=qUint64" json:"q_uint64,omitempty"`
	QSint32       *int32                 `protobuf:"zigzag32,5,req,name=q_sint32,json=qSint32" json:"q_sint32,omitempty"`
	QSint64       *int64                 `protobuf:"zigzag64,6,req,name=q_sint64,json=qSint64" json:"q_sint64,omitempty"`
	QFixed32      *uint32                `protobuf:"fixed32,7,req,name=q_fixed32,json=qFixed32" json:"q_fixed32,omitempty"`
	QFixed64      *uint64                `protobuf:"fixed64,8,req,name=q_fixed64,json=qFixed64" json:"q_fixed64,omitempty"`
	QSfixed32     *int32                 `protobuf:"fixed32,9,req,name=q_sfixed32,json=qSfixed32" json:"q_sfixed32,omitempty"`
	QSfixed64     *int64                 `protobuf:"fixed64,10,req,name=q_sfixed64,json=qSfixed64" json:"q_sfixed64,omitempty"`
	QFloat        *float32               `protobuf:"fixed32,11,req,name=q_float,json=qFloat" json:"q_float,omitempty"`
	QDouble       *float64               `protobuf:"fixed64,12,req,name=q_double,json=qDouble" json:"q_double,omitempty"`
	QBool         *bool                  `protobuf:"varint,13,req,name=q_bool,json=qBool" json:"q_bool,omitempty"`
	QString       *string                `protobuf:"bytes,14,req,name=q_string,json=qString" json:"q_string,omitempty"`
	QBytes        []byte                 `protobuf:"bytes,15,req,name=q_bytes,json=qBytes" json:"q_bytes,omitempty"`
	QE            *E                     `protobuf:"varint,16,req,name=q_e,json=qE,enum=mcp2.E" json:"q_e,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Req) Reset() {
	*x = Req{}
	mi := &file_p2_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Req) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Req) ProtoMessage() {}

func (x *Req) ProtoReflect() protoreflect.Message {
	mi := &file_p2_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Req.ProtoReflect.Descriptor instead.
func (*Req) Descriptor() ([]byte, []int) {
	return file_p2_proto_rawDescGZIP(), []int{2}
}

func (x *Req) GetQInt32() int32 {
	if x != nil && x.QInt32 != nil {
		return *x.QInt32
	}
	return 0
}

func (x *Req) GetQInt64() int64 {
	if x != nil && x.QInt64 != nil {
		return *x.QInt64
	}
	return 0
}

func (x *Req) GetQUint32() uint32 {
	if x != nil && x.QUint32 != nil {
		return *x.QUint32
	}
	return 0
}

func (x *Req) GetQUint64() uint64 {
	if x != nil && x.QUint64 != nil {
		return *x.QUint64
	}
	return 0
}

func (x *Req) GetQSint32() int32 {
	if x != nil && x.QSint32 != nil {
		return *x.QSint32
	}
	return 0
}

func (x *Req) GetQSint64() int64 {
	if x != nil && x.QSint64 != nil {
		return *x.QSint64
	}
	return 0
}

func (x *Req) GetQFixed32() uint32 {
	if x != nil && x.QFixed32 != nil {
		return *x.QFixed32
	}
	return 0
}

func (x *Req) GetQFixed64() uint64 {
	if x != nil && x.QFixed64 != nil {
		return *x.QFixed64
	}
	return 0
}

func (x *Req) GetQSfixed32() int32 {
	if x != nil && x.QSfixed32 != nil {
		return *x.QSfixed32
	}
	return 0
}

func (x *Req) GetQSfixed64() int64 {
	if x != nil && x.QSfixed64 != nil {
		return *x.QSfixed64
	}
	return 0
}

func (x *Req) GetQFloat() float32 {
	if x != nil && x.QFloat != nil {
		return *x.QFloat
	}
	return 0
}

func (x *Req) GetQDouble() float64 {
	if x != nil && x.QDouble != nil {
		return *x.QDouble
	}
	return 0
}

func (x *Req) GetQBool() bool {
	if x != nil && x.QBool != nil {
		return *x.QBool
	}
	return false
}

func (x *Req) GetQString() string {
	if x != nil && x.QString != nil {
		return *x.QString
	}
	return ""
}

func (x *Req) GetQBytes() []byte {
	if x != nil {
		return x.QBytes
	}
	return nil
}

func (x *Req) GetQE() E {
	if x != nil && x.QE != nil {
		return *x.QE
	}
	return E_Z
}

var File_p2_proto protoreflect.FileDescriptor

const file_p2_proto_rawDesc = "" +
	"\n" +
	"\bp2.proto\x12\x04mcp2\"0\n" +
	"\x04Leaf\x12\f\n" +
	"\x01a\x18\x01 \x01(\x05R\x01a\x12\f\n" +
	"\x01b\x18\x02 \x01(\tR\x01b\x12\f\n" +
	"\x01c\x18\x03 \x03(\x04R\x01c\"\x86\x11\n" +
	"\x03All\x12\x17\n" +
	"\ao_int32\x18\x01 \x01(\x05R\x06oInt32\x12\x17\n" +
	"\ao_int64\x18\x02 \x01(\x03R\x06oInt64\x12\x19\n" +
	"\bo_uint32\x18\x03 \x01(\rR\aoUint32\x12\x19\n" +
	"\bo_uint64\x18\x04 \x01(\x04R\aoUint64\x12\x19\n" +
	"\bo_sint32\x18\x05 \x01(\x11R\aoSint32\x12\x19\n" +
	"\bo_sint64\x18\x06 \x01(\x12R\aoSint64\x12\x1b\n" +
	"\to_fixed32\x18\a \x01(\aR\boFixed32\x12\x1b\n" +
	"\to_fixed64\x18\b \x01(\x06R\boFixed64\x12\x1d\n" +
	"\n" +
	"o_sfixed32\x18\t \x01(\x0fR\toSfixed32\x12\x1d\n" +
	"\n" +
	"o_sfixed64\x18\n" +
	" \x01(\x10R\toSfixed64\x12\x17\n" +
	"\ao_float\x18\v \x01(\x02R\x06oFloat\x12\x19\n" +
	"\bo_double\x18\f \x01(\x01R\aoDouble\x12\x15\n" +
	"\x06o_bool\x18\r \x01(\bR\x05oBool\x12\x19\n" +
	"\bo_string\x18\x0e \x01(\tR\aoString\x12\x17\n" +
	"\ao_bytes\x18\x0f \x01(\fR\x06oBytes\x12\x18\n" +
	"\x03o_e\x18\x10 \x01(\x0e2\a.mcp2.ER\x02oE\x12\x17\n" +
	"\ar_int32\x18\x11 \x03(\x05R\x06rInt32\x12\x17\n" +
	"\ar_int64\x18\x12 \x03(\x03R\x06rInt64\x12\x19\n" +
	"\br_uint32\x18\x13 \x03(\rR\arUint32\x12\x19\n" +
	"\br_uint64\x18\x14 \x03(\x04R\arUint64\x12\x19\n" +
	"\br_sint32\x18\x15 \x03(\x11R\arSint32\x12\x19\n" +
	"\br_sint64\x18\x16 \x03(\x12R\arSint64\x12\x1b\n" +
	"\tr_fixed32\x18\x17 \x03(\aR\brFixed32\x12\x1b\n" +
	"\tr_fixed64\x18\x18 \x03(\x06R\brFixed64\x12\x1d\n" +
	"\n" +
	"r_sfixed32\x18\x19 \x03(\x0fR\trSfixed32\x12\x1d\n" +
	"\n" +
	"r_sfixed64\x18\x1a \x03(\x10R\trSfixed64\x12\x17\n" +
	"\ar_float\x18\x1b \x03(\x02R\x06rFloat\x12\x19\n" +
	"\br_double\x18\x1c \x03(\x01R\arDouble\x12\x15\n" +
	"\x06r_bool\x18\x1d \x03(\bR\x05rBool\x12\x19\n" +
	"\br_string\x18\x1e \x03(\tR\arString\x12\x17\n" +
	"\ar_bytes\x18\x1f \x03(\fR\x06rBytes\x12\x18\n" +
	"\x03r_e\x18  \x03(\x0e2\a.mcp2.ER\x02rE\x12\x1b\n" +
	"\ak_int32\x18! \x03(\x05B\x02\x10\x01R\x06kInt32\x12\x1b\n" +
	"\ak_int64\x18\" \x03(\x03B\x02\x10\x01R\x06kInt64\x12\x1d\n" +
	"\bk_uint32\x18# \x03(\rB\x02\x10\x01R\akUint32\x12\x1d\n" +
	"\bk_uint64\x18$ \x03(\x04B\x02\x10\x01R\akUint64\x12\x1d\n" +
	"\bk_sint32\x18% \x03(\x11B\x02\x10\x01R\akSint32\x12\x1d\n" +
	"\bk_sint64\x18& \x03(\x12B\x02\x10\x01R\akSint64\x12\x1f\n" +
	"\tk_fixed32\x18' \x03(\aB\x02\x10\x01R\bkFixed32\x12\x1f\n" +
	"\tk_fixed64\x18( \x03(\x06B\x02\x10\x01R\bkFixed64\x12!\n" +
	"\n" +
	"k_sfixed32\x18) \x03(\x0fB\x02\x10\x01R\tkSfixed32\x12!\n" +
	"\n" +
	"k_sfixed64\x18* \x03(\x10B\x02\x10\x01R\tkSfixed64\x12\x1b\n" +
	"\ak_float\x18+ \x03(\x02B\x02\x10\x01R\x06kFloat\x12\x1d\n" +
	"\bk_double\x18, \x03(\x01B\x02\x10\x01R\akDouble\x12\x19\n" +
	"\x06k_bool\x18- \x03(\bB\x02\x10\x01R\x05kBool\x12\x1c\n" +
	"\x03k_e\x18. \x03(\x0e2\a.mcp2.EB\x02\x10\x01R\x02kE\x12\x18\n" +
	"\x01m\x18/ \x01(\v2\n" +
	".mcp2.LeafR\x01m\x12\x1a\n" +
	"\x02rm\x180 \x03(\v2\n" +
	".mcp2.LeafR\x02rm\x12*\n" +
	"\x05named\x181 \x03(\v2\x14.mcp2.All.NamedEntryR\x05named\x12$\n" +
	"\x03mss\x182 \x03(\v2\x12.mcp2.All.MssEntryR\x03mss\x12$\n" +
	"\x03mfe\x183 \x03(\v2\x12.mcp2.All.MfeEntryR\x03mfe\x12\x1a\n" +
	"\ax_int32\x18\xd0\x0f \x01(\x05H\x00R\x06xInt32\x12\x1a\n" +
	"\ax_int64\x18\xd1\x0f \x01(\x03H\x00R\x06xInt64\x12\x1c\n" +
	"\bx_uint32\x18\xd2\x0f \x01(\rH\x00R\axUint32\x12\x1c\n" +
	"\bx_uint64\x18\xd3\x0f \x01(\x04H\x00R\axUint64\x12\x1c\n" +
	"\bx_sint32\x18\xd4\x0f \x01(\x11H\x00R\axSint32\x12\x1c\n" +
	"\bx_sint64\x18\xd5\x0f \x01(\x12H\x00R\axSint64\x12\x1e\n" +
	"\tx_fixed32\x18\xd6\x0f \x01(\aH\x00R\bxFixed32\x12\x1e\n" +
	"\tx_fixed64\x18\xd7\x0f \x01(\x06H\x00R\bxFixed64\x12 \n" +
	"\n" +
	"x_sfixed32\x18\xd8\x0f \x01(\x0fH\x00R\txSfixed32\x12 \n" +
	"\n" +
	"x_sfixed64\x18\xd9\x0f \x01(\x10H\x00R\txSfixed64\x12\x1a\n" +
	"\ax_float\x18\xda\x0f \x01(\x02H\x00R\x06xFloat\x12\x1c\n" +
	"\bx_double\x18\xdb\x0f \x01(\x01H\x00R\axDouble\x12\x18\n" +
	"\x06x_bool\x18\xdc\x0f \x01(\bH\x00R\x05xBool\x12\x1c\n" +
	"\bx_string\x18\xdd\x0f \x01(\tH\x00R\axString\x12\x1a\n" +
	"\ax_bytes\x18\xde\x0f \x01(\fH\x00R\x06xBytes\x12\x1b\n" +
	"\x03x_e\x18\xdf\x0f \x01(\x0e2\a.mcp2.EH\x00R\x02xE\x12\x1e\n" +
	"\x03x_m\x18\xe0\x0f \x01(\v2\n" +
	".mcp2.LeafH\x00R\x02xM\x1aC\n" +
	"\n" +
	"NamedEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x1f\n" +
	"\x05value\x18\x02 \x01(\v2\t.mcp2.AllR\x05value:\x028\x01\x1a6\n" +
	"\bMssEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\bMfeEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp2.ER\x05value:\x028\x01B\x03\n" +
	"\x01u\"\xb4\x03\n" +
	"\x03Req\x12\x17\n" +
	"\aq_int32\x18\x01 \x02(\x05R\x06qInt32\x12\x17\n" +
	"\aq_int64\x18\x02 \x02(\x03R\x06qInt64\x12\x19\n" +
	"\bq_uint32\x18\x03 \x02(\rR\aqUint32\x12\x19\n" +
	"\bq_uint64\x18\x04 \x02(\x04R\aqUint64\x12\x19\n" +
	"\bq_sint32\x18\x05 \x02(\x11R\aqSint32\x12\x19\n" +
	"\bq_sint64\x18\x06 \x02(\x12R\aqSint64\x12\x1b\n" +
	"\tq_fixed32\x18\a \x02(\aR\bqFixed32\x12\x1b\n" +
	"\tq_fixed64\x18\b \x02(\x06R\bqFixed64\x12\x1d\n" +
	"\n" +
	"q_sfixed32\x18\t \x02(\x0fR\tqSfixed32\x12\x1d\n" +
	"\n" +
	"q_sfixed64\x18\n" +
	" \x02(\x10R\tqSfixed64\x12\x17\n" +
	"\aq_float\x18\v \x02(\x02R\x06qFloat\x12\x19\n" +
	"\bq_double\x18\f \x02(\x01R\aqDouble\x12\x15\n" +
	"\x06q_bool\x18\r \x02(\bR\x05qBool\x12\x19\n" +
	"\bq_string\x18\x0e \x02(\tR\aqString\x12\x17\n" +
	"\aq_bytes\x18\x0f \x02(\fR\x06qBytes\x12\x18\n" +
	"\x03q_e\x18\x10 \x02(\x0e2\a.mcp2.ER\x02qE*0\n" +
	"\x01E\x12\x05\n" +
	"\x01Z\x10\x00\x12\x05\n" +
	"\x01A\x10\x01\x12\x10\n" +
	"\x03NEG\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01\x12\v\n" +
	"\x03BIG\x10\xff\xff\xff\xff\aB\x13Z\x11verif/mc/pbgen/p2"

var (
	file_p2_proto_rawDescOnce sync.Once
	file_p2_proto_rawDescData []byte
)

func file_p2_proto_rawDescGZIP() []byte {
	file_p2_proto_rawDescOnce.Do(func() {
		file_p2_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_p2_proto_rawDesc), len(file_p2_proto_rawDesc)))
	})
	return file_p2_proto_rawDescData
}

var file_p2_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_p2_proto_msgTypes = make([]protoimpl.MessageInfo, 6)
var file_p2_proto_goTypes = []any{
	(E)(0),       // 0: mcp2.E
	(*Leaf)(nil), // 1: mcp2.Leaf
	(*All)(nil),  // 2: mcp2.All
	(*Req)(nil),  // 3: mcp2.Req
	nil,          // 4: mcp2.All.NamedEntry
	nil,          // 5: mcp2.All.MssEntry
	nil,          // 6: mcp2.All.MfeEntry
}
var file_p2_proto_depIdxs = []int32{
	0,  // 0: mcp2.All.o_e:type_name -> mcp2.E
	0,  // 1: mcp2.All.r_e:type_name -> mcp2.E
	0,  // 2: mcp2.All.k_e:type_name -> mcp2.E
	1,  // 3: mcp2.All.m:type_name -> mcp2.Leaf
	1,  // 4: mcp2.All.rm:type_name -> mcp2.Leaf
	4,  // 5: mcp2.All.named:type_name -> mcp2.All.NamedEntry
	5,  // 6: mcp2.All.mss:type_name -> mcp2.All.MssEntry
	6,  // 7: mcp2.All.mfe:type_name -> mcp2.All.MfeEntry
	0,  // 8: mcp2.All.x_e:type_name -> mcp2.E
	1,  // 9: mcp2.All.x_m:type_name -> mcp2.Leaf
	0,  // 10: mcp2.Req.q_e:type_name -> mcp2.E
	2,  // 11: mcp2.All.NamedEntry.value:type_name -> mcp2.All
	0,  // 12: mcp2.All.MfeEntry.value:type_name -> mcp2.E
	13, // [13:13] is the sub-list for method output_type
	13, // [13:13] is the sub-list for method input_type
	13, // [13:13] is the sub-list for extension type_name
	13, // [13:13] is the sub-list for extension extendee
	0,  // [0:13] is the sub-list for field type_name
}

func init() { file_p2_proto_init() }
func file_p2_proto_init() {
	if File_p2_proto != nil {
		return
	}
	file_p2_proto_msgTypes[1].OneofWrappers = []any{
		(*All_XInt32)(nil),
		(*All_XInt64)(nil),
		(*All_XUint32)(nil),
		(*All_XUint64)(nil),
		(*All_XSint32)(nil),
		(*All_XSint64)(nil),
		(*All_XFixed32)(nil),
		(*All_XFixed64)(nil),
		(*All_XSfixed32)(nil),
		(*All_XSfixed64)(nil),
		(*All_XFloat)(nil),
		(*All_XDouble)(nil),
		(*All_XBool)(nil),
		(*All_XString)(nil),
		(*All_XBytes)(nil),
		(*All_XE)(nil),
		(*All_XM)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_p2_proto_rawDesc), len(file_p2_proto_rawDesc)),
			NumEnums:      1,
			NumMessages:   6,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_p2_proto_goTypes,
		DependencyIndexes: file_p2_proto_depIdxs,
		EnumInfos:         file_p2_proto_enumTypes,
		MessageInfos:      file_p2_proto_msgTypes,
	}.Build()
	File_p2_proto = out.File
	file_p2_proto_goTypes = nil
	file_p2_proto_depIdxs = nil
}
