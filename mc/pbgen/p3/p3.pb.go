// Code generated by protoc-gen-go. DO NOT EDIT.
// versions:
// 	protoc-gen-go v1.36.11
// 	protoc        v3.21.12
// source: p3.proto

package p3

import (
	protoreflect "google.golang.org/protobuf/reflect/protoreflect"
	protoimpl "google.golang.org/protobuf/runtime/protoimpl"
	reflect "reflect"
	sync "sync"
	unsafe "unsafe"
)

const (
	// Verify that this generated code is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(20 - protoimpl.MinVersion)
	// Verify that runtime/protoimpl is sufficiently up-to-date.
	_ = protoimpl.EnforceVersion(protoimpl.MaxVersion - 20)
)

type E int32

const (
	E_Z   E = 0
	E_A   E = 1
	E_NEG E = -1
	E_BIG E = 2147483647
)

// Enum value maps for E.
var (
	E_name = map[int32]string{
		0:          "Z",
		1:          "A",
		-1:         "NEG",
		2147483647: "BIG",
	}
	E_value = map[string]int32{
		"Z":   0,
		"A":   1,
		"NEG": -1,
		"BIG": 2147483647,
	}
)

func (x E) Enum() *E {
	p := new(E)
	*p = x
	return p
}

func (x E) String() string {
	return protoimpl.X.EnumStringOf(x.Descriptor(), protoreflect.EnumNumber(x))
}

func (E) Descriptor() protoreflect.EnumDescriptor {
	return file_p3_proto_enumTypes[0].Descriptor()
}

func (E) Type() protoreflect.EnumType {
	return &file_p3_proto_enumTypes[0]
}

func (x E) Number() protoreflect.EnumNumber {
	return protoreflect.EnumNumber(x)
}

// Deprecated: Use E.Descriptor instead.
func (E) EnumDescriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{0}
}

type Leaf struct {
	state         protoimpl.MessageState `protogen:"open.v1"`
	A             int32                  `protobuf:"varint,1,opt,name=a,proto3" json:"a,omitempty"`
	B             string                 `protobuf:"bytes,2,opt,name=b,proto3" json:"b,omitempty"`
	C             []uint64               `protobuf:"varint,3,rep,packed,name=c,proto3" json:"c,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Leaf) Reset() {
	*x = Leaf{}
	mi := &file_p3_proto_msgTypes[0]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Leaf) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Leaf) ProtoMessage() {}

func (x *Leaf) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[0]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Leaf.ProtoReflect.Descriptor instead.
func (*Leaf) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{0}
}

func (x *Leaf) GetA() int32 {
	if x != nil {
		return x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil {
		return x.B
	}
	return ""
}

func (x *Leaf) GetC() []uint64 {
	if x != nil {
		return x.C
	}
	return nil
}

type All struct {
	state     protoimpl.MessageState `protogen:"open.v1"`
	IInt32    int32                  `protobuf:"varint,1,opt,name=i_int32,json=iInt32,proto3" json:"i_int32,omitempty"`
	IInt64    int64                  `protobuf:"varint,2,opt,name=i_int64,json=iInt64,proto3" json:"i_int64,omitempty"`
	IUint32   uint32                 `protobuf:"varint,3,opt,name=i_uint32,json=iUint32,proto3" json:"i_uint32,omitempty"`
	IUint64   uint64                 `protobuf:"varint,4,opt,name=i_uint64,json=iUint64,proto3" json:"i_uint64,omitempty"`
	ISint32   int32                  `protobuf:"zigzag32,5,opt,name=i_sint32,json=iSint32,proto3" json:"i_sint32,omitempty"`
	ISint64   int64                  `protobuf:"zigzag64,6,opt,name=i_sint64,json=iSint64,proto3" json:"i_sint64,omitempty"`
	IFixed32  uint32                 `protobuf:"fixed32,7,opt,name=i_fixed32,json=iFixed32,proto3" json:"i_fixed32,omitempty"`
	IFixed64  uint64                 `protobuf:"fixed64,8,opt,name=i_fixed64,json=iFixed64,proto3" json:"i_fixed64,omitempty"`
	ISfixed32 int32                  `protobuf:"fixed32,9,opt,name=i_sfixed32,json=iSfixed32,proto3" json:"i_sfixed32,omitempty"`
	ISfixed64 int64                  `protobuf:"fixed64,10,opt,name=i_sfixed64,json=iSfixed64,proto3" json:"i_sfixed64,omitempty"`
	IFloat    float32                `protobuf:"fixed32,11,opt,name=i_float,json=iFloat,proto3" json:"i_float,omitempty"`
	IDouble   float64                `protobuf:"fixed64,12,opt,name=i_double,json=iDouble,proto3" json:"i_double,omitempty"`
	IBool     bool                   `protobuf:"varint,13,opt,name=i_bool,json=iBool,proto3" json:"i_bool,omitempty"`
	IString   string                 `protobuf:"bytes,14,opt,name=i_string,json=iString,proto3" json:"i_string,omitempty"`
	IBytes    []byte                 `protobuf:"bytes,15,opt,name=i_bytes,json=iBytes,proto3" json:"i_bytes,omitempty"`
	IE        E                      `protobuf:"varint,16,opt,name=i_e,json=iE,proto3,enum=mcp3.E" json:"i_e,omitempty"`
	OInt32    *int32                 `protobuf:"varint,17,opt,name=o_int32,json=oInt32,proto3,oneof" json:"o_int32,omitempty"`
	OInt64    *int64                 `protobuf:"varint,18,opt,name=o_int64,json=oInt64,proto3,oneof" json:"o_int64,omitempty"`
	OUint32   *uint32                `protobuf:"varint,19,opt,name=o_uint32,json=oUint32,proto3,oneof" json:"o_uint32,omitempty"`
	OUint64   *uint64                `protobuf:"varint,20,opt,name=o_uint64,json=oUint64,proto3,oneof" json:"o_uint64,omitempty"`
	OSint32   *int32                 `protobuf:"zigzag32,21,opt,name=o_sint32,json=oSint32,proto3,oneof" json:"o_sint32,omitempty"`
	OSint64   *int64                 `protobuf:"zigzag64,22,opt,name=o_sint64,json=oSint64,proto3,oneof" json:"o_sint64,omitempty"`
	OFixed32  *uint32                `protobuf:"fixed32,23,opt,name=o_fixed32,json=oFixed32,proto3,oneof" json:"o_fixed32,omitempty"`
	OFixed64  *uint64                `protobuf:"fixed64,24,opt,name=o_fixed64,json=oFixed64,proto3,oneof" json:"o_fixed64,omitempty"`
	OSfixed32 *int32                 `protobuf:"fixed32,25,opt,name=o_sfixed32,json=oSfixed32,proto3,oneof" json:"o_sfixed32,omitempty"`
	OSfixed64 *int64                 `protobuf:"fixed64,26,opt,name=o_sfixed64,json=oSfixed64,proto3,oneof" json:"o_sfixed64,omitempty"`
	OFloat    *float32               `protobuf:"fixed32,27,opt,name=o_float,json=oFloat,proto3,oneof" json:"o_float,omitempty"`
	ODouble   *float64               `protobuf:"fixed64,28,opt,name=o_double,json=oDouble,proto3,oneof" json:"o_double,omitempty"`
	OBool     *bool                  `protobuf:"varint,29,opt,name=o_bool,json=oBool,proto3,oneof" json:"o_bool,omitempty"`
	OString   *string                `protobuf:"bytes,30,opt,name=o_string,json=oString,proto3,oneof" json:"o_string,omitempty"`
	OBytes    []byte                 `protobuf:"bytes,31,opt,name=o_bytes,json=oBytes,proto3,oneof" json:"o_bytes,omitempty"`
	OE        *E                     `protobuf:"varint,32,opt,name=o_e,json=oE,proto3,enum=mcp3.E,oneof" json:"o_e,omitempty"`
	RInt32    []int32                `protobuf:"varint,33,rep,packed,name=r_int32,json=rInt32,proto3" json:"r_int32,omitempty"`
	RInt64    []int64                `protobuf:"varint,34,rep,packed,name=r_int64,json=rInt64,proto3" json:"r_int64,omitempty"`
	RUint32   []uint32               `protobuf:"varint,35,rep,packed,name=r_uint32,json=rUint32,proto3" json:"r_uint32,omitempty"`
	RUint64   []uint64               `protobuf:"varint,36,rep,packed,name=r_uint64,json=rUint64,proto3" json:"r_uint64,omitempty"`
	RSint32   []int32                `protobuf:"zigzag32,37,rep,packed,name=r_sint32,json=rSint32,proto3" json:"r_sint32,omitempty"`
	RSint64   []int64                `protobuf:"zigzag64,38,rep,packed,name=r_sint64,json=rSint64,proto3" json:"r_sint64,omitempty"`
	RFixed32  []uint32               `protobuf:"fixed32,39,rep,packed,name=r_fixed32,json=rFixed32,proto3" json:"r_fixed32,omitempty"`
	RFixed64  []uint64               `protobuf:"fixed64,40,rep,packed,name=r_fixed64,json=rFixed64,proto3" json:"r_fixed64,omitempty"`
	RSfixed32 []int32                `protobuf:"fixed32,41,rep,packed,name=r_sfixed32,json=rSfixed32,proto3" json:"r_sfixed32,omitempty"`
	RSfixed64 []int64                `protobuf:"fixed64,42,rep,packed,name=r_sfixed64,json=rSfixed64,proto3" json:"r_sfixed64,omitempty"`
	RFloat    []float32              `protobuf:"fixed32,43,rep,packed,name=r_float,json=rFloat,proto3" json:"r_float,omitempty"`
	RDouble   []float64              `protobuf:"fixed64,44,rep,packed,name=r_double,json=rDouble,proto3" json:"r_double,omitempty"`
	RBool     []bool                 `protobuf:"varint,45,rep,packed,name=r_bool,json=rBool,proto3" json:"r_bool,omitempty"`
	RString   []string               `protobuf:"bytes,46,rep,name=r_string,json=rString,proto3" json:"r_string,omitempty"`
	RBytes    [][]byte               `protobuf:"bytes,47,rep,name=r_bytes,json=rBytes,proto3" json:"r_bytes,omitempty"`
	RE        []E                    `protobuf:"varint,48,rep,packed,name=r_e,json=rE,proto3,enum=mcp3.E" json:"r_e,omitempty"`
	UInt32    []int32                `protobuf:"varint,49,rep,name=u_int32,json=uInt32,proto3" json:"u_int32,omitempty"`
	UInt64    []int64                `protobuf:"varint,50,rep,name=u_int64,json=uInt64,proto3" json:"u_int64,omitempty"`
	UUint32   []uint32               `protobuf:"varint,51,rep,name=u_uint32,json=uUint32,proto3" json:"u_uint32,omitempty"`
	UUint64   []uint64               `protobuf:"varint,52,rep,name=u_uint64,json=uUint64,proto3" json:"u_uint64,omitempty"`
	USint32   []int32                `protobuf:"zigzag32,53,rep,name=u_sint32,json=uSint32,proto3" json:"u_sint32,omitempty"`
	USint64   []int64                `protobuf:"zigzag64,54,rep,name=u_sint64,json=uSint64,proto3" json:"u_sint64,omitempty"`
	UFixed32  []uint32               `protobuf:"fixed32,55,rep,name=u_fixed32,json=uFixed32,proto3" json:"u_fixed32,omitempty"`
	UFixed64  []uint64               `protobuf:"fixed64,56,rep,name=u_fixed64,json=uFixed64,proto3" json:"u_fixed64,omitempty"`
	USfixed32 []int32                `protobuf:"fixed32,57,rep,name=u_sfixed32,json=uSfixed32,proto3" json:"u_sfixed32,omitempty"`
	USfixed64 []int64                `protobuf:"fixed64,58,rep,name=u_sfixed64,json=uSfixed64,proto3" json:"u_sfixed64,omitempty"`
	UFloat    []float32              `protobuf:"fixed32,59,rep,name=u_float,json=uFloat,proto3" json:"u_float,omitempty"`
	UDouble   []float64              `protobuf:"fixed64,60,rep,name=u_double,json=uDouble,proto3" json:"u_double,omitempty"`
	UBool     []bool                 `protobuf:"varint,61,rep,name=u_bool,json=uBool,proto3" json:"u_bool,omitempty"`
	UE        []E                    `protobuf:"varint,62,rep,name=u_e,json=uE,proto3,enum=mcp3.E" json:"u_e,omitempty"`
	M         *Leaf                  `protobuf:"bytes,63,opt,name=m,proto3" json:"m,omitempty"`
	Rm        []*Leaf                `protobuf:"bytes,64,rep,name=rm,proto3" json:"rm,omitempty"`
	Self      *All                   `protobuf:"bytes,65,opt,name=self,proto3" json:"self,omitempty"`
	Kids      []*All                 `protobuf:"bytes,66,rep,name=kids,proto3" json:"kids,omitempty"`
	Named     map[string]*All        `protobuf:"bytes,67,rep,name=named,proto3" json:"named,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Byid      map[int32]*All         `protobuf:"bytes,68,rep,name=byid,proto3" json:"byid,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to U:
	//
	//	*All_XInt32
	//	*All_XInt64
	//	*All_XUint32
	//	*All_XUint64
	//	*All_XSint32
	//	*All_XSint64
	//	*All_XFixed32
	//	*All_XFixed64
	//	*All_XSfixed32
	//	*All_XSfixed64
	//	*All_XFloat
	//	*All_XDouble
	//	*All_XBool
	//	*All_XString
	//	*All_XBytes
	//	*All_XE
	//	*All_XM
	//	*All_XSelf
	U isAll_U `protobuf_oneof:"u"`
	// Types that are valid to be assigned to V:
	//
	//	*All_VS
	//	*All_VM
	//	*All_VB
	V             isAll_V `protobuf_oneof:"v"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *All) Reset() {
	*x = All{}
	mi := &file_p3_proto_msgTypes[1]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *All) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*All) ProtoMessage() {}

func (x *All) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[1]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use All.ProtoReflect.Descriptor instead.
func (*All) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{1}
}

func (x *All) GetIInt32() int32 {
	if x != nil {
		return x.IInt32
	}
	return 0
}

func (x *All) GetIInt64() int64 {
	if x != nil {
		return x.IInt64
	}
	return 0
}

func (x *All) GetIUint32() uint32 {
	if x != nil {
		return x.IUint32
	}
	return 0
}

func (x *All) GetIUint64() uint64 {
	if x != nil {
		return x.IUint64
	}
	return 0
}

func (x *All) GetISint32() int32 {
	if x != nil {
		return x.ISint32
	}
	return 0
}

func (x *All) GetISint64() int64 {
	if x != nil {
		return x.ISint64
	}
	return 0
}

func (x *All) GetIFixed32() uint32 {
	if x != nil {
		return x.IFixed32
	}
	return 0
}

func (x *All) GetIFixed64() uint64 {
	if x != nil {
		return x.IFixed64
	}
	return 0
}

func (x *All) GetISfixed32() int32 {
	if x != nil {
		return x.ISfixed32
	}
	return 0
}

func (x *All) GetISfixed64() int64 {
	if x != nil {
		return x.ISfixed64
	}
	return 0
}

func (x *All) GetIFloat() float32 {
	if x != nil {
		return x.IFloat
	}
	return 0
}

func (x *All) GetIDouble() float64 {
	if x != nil {
		return x.IDouble
	}
	return 0
}

func (x *All) GetIBool() bool {
	if x != nil {
		return x.IBool
	}
	return false
}

func (x *All) GetIString() string {
	if x != nil {
		return x.IString
	}
	return ""
}

func (x *All) GetIBytes() []byte {
	if x != nil {
		return x.IBytes
	}
	return nil
}

func (x *All) GetIE() E {
	if x != nil {
		return x.IE
	}
	return E_Z
}

func (x *All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *All) GetOE() E {
	if x != nil && x.OE != nil {
		return *x.OE
	}
	return E_Z
}

func (x *All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *All) GetRE() []E {
	if x != nil {
		return x.RE
	}
	return nil
}

func (x *All) GetUInt32() []int32 {
	if x != nil {
		return x.UInt32
	}
	return nil
}

func (x *All) GetUInt64() []int64 {
	if x != nil {
		return x.UInt64
	}
	return nil
}

func (x *All) GetUUint32() []uint32 {
	if x != nil {
		return x.UUint32
	}
	return nil
}

func (x *All) GetUUint64() []uint64 {
	if x != nil {
		return x.UUint64
	}
	return nil
}

func (x *All) GetUSint32() []int32 {
	if x != nil {
		return x.USint32
	}
	return nil
}

func (x *All) GetUSint64() []int64 {
	if x != nil {
		return x.USint64
	}
	return nil
}

func (x *All) GetUFixed32() []uint32 {
	if x != nil {
		return x.UFixed32
	}
	return nil
}

func (x *All) GetUFixed64() []uint64 {
	if x != nil {
		return x.UFixed64
	}
	return nil
}

func (x *All) GetUSfixed32() []int32 {
	if x != nil {
		return x.USfixed32
	}
	return nil
}

func (x *All) GetUSfixed64() []int64 {
	if x != nil {
		return x.USfixed64
	}
	return nil
}

func (x *All) GetUFloat() []float32 {
	if x != nil {
		return x.UFloat
	}
	return nil
}

func (x *All) GetUDouble() []float64 {
	if x != nil {
		return x.UDouble
	}
	return nil
}

func (x *All) GetUBool() []bool {
	if x != nil {
		return x.UBool
	}
	return nil
}

func (x *All) GetUE() []E {
	if x != nil {
		return x.UE
	}
	return nil
}

func (x *All) GetM() *Leaf {
	if x != nil {
		return x.M
	}
	return nil
}

func (x *All) GetRm() []*Leaf {
	if x != nil {
		return x.Rm
	}
	return nil
}

func (x *All) GetSelf() *All {
	if x != nil {
		return x.Self
	}
	return nil
}

func (x *All) GetKids() []*All {
	if x != nil {
		return x.Kids
	}
	return nil
}

func (x *All) GetNamed() map[string]*All {
	if x != nil {
		return x.Named
	}
	return nil
}

func (x *All) GetByid() map[int32]*All {
	if x != nil {
		return x.Byid
	}
	return nil
}

func (x *All) GetU() isAll_U {
	if x != nil {
		return x.U
	}
	return nil
}

func (x *All) GetXInt32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XInt32); ok {
			return x.XInt32
		}
	}
	return 0
}

func (x *All) GetXInt64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XInt64); ok {
			return x.XInt64
		}
	}
	return 0
}

func (x *All) GetXUint32() uint32 {
	if x != nil {
		if x, ok := x.U.(*All_XUint32); ok {
			return x.XUint32
		}
	}
	return 0
}

func (x *All) GetXUint64() uint64 {
	if x != nil {
		if x, ok := x.U.(*All_XUint64); ok {
			return x.XUint64
		}
	}
	return 0
}

func (x *All) GetXSint32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XSint32); ok {
			return x.XSint32
		}
	}
	return 0
}

func (x *All) GetXSint64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XSint64); ok {
			return x.XSint64
		}
	}
	return 0
}

func (x *All) GetXFixed32() uint32 {
	if x != nil {
		if x, ok := x.U.(*All_XFixed32); ok {
			return x.XFixed32
		}
	}
	return 0
}

func (x *All) GetXFixed64() uint64 {
	if x != nil {
		if x, ok := x.U.(*All_XFixed64); ok {
			return x.XFixed64
		}
	}
	return 0
}

func (x *All) GetXSfixed32() int32 {
	if x != nil {
		if x, ok := x.U.(*All_XSfixed32); ok {
			return x.XSfixed32
		}
	}
	return 0
}

func (x *All) GetXSfixed64() int64 {
	if x != nil {
		if x, ok := x.U.(*All_XSfixed64); ok {
			return x.XSfixed64
		}
	}
	return 0
}

func (x *All) GetXFloat() float32 {
	if x != nil {
		if x, ok := x.U.(*All_XFloat); ok {
			return x.XFloat
		}
	}
	return 0
}

func (x *All) GetXDouble() float64 {
	if x != nil {
		if x, ok := x.U.(*All_XDouble); ok {
			return x.XDouble
		}
	}
	return 0
}

func (x *All) GetXBool() bool {
	if x != nil {
		if x, ok := x.U.(*All_XBool); ok {
			return x.XBool
		}
	}
	return false
}

func (x *All) GetXString() string {
	if x != nil {
		if x, ok := x.U.(*All_XString); ok {
			return x.XString
		}
	}
	return ""
}

func (x *All) GetXBytes() []byte {
	if x != nil {
		if x, ok := x.U.(*All_XBytes); ok {
			return x.XBytes
		}
	}
	return nil
}

func (x *All) GetXE() E {
	if x != nil {
		if x, ok := x.U.(*All_XE); ok {
			return x.XE
		}
	}
	return E_Z
}

func (x *All) GetXM() *Leaf {
	if x != nil {
		if x, ok := x.U.(*All_XM); ok {
			return x.XM
		}
	}
	return nil
}

func (x *All) GetXSelf() *All {
	if x != nil {
		if x, ok := x.U.(*All_XSelf); ok {
			return x.XSelf
		}
	}
	return nil
}

func (x *All) GetV() isAll_V {
	if x != nil {
		return x.V
	}
	return nil
}

func (x *All) GetVS() string {
	if x != nil {
		if x, ok := x.V.(*All_VS); ok {
			return x.VS
		}
	}
	return ""
}

func (x *All) GetVM() *Leaf {
	if x != nil {
		if x, ok := x.V.(*All_VM); ok {
			return x.VM
		}
	}
	return nil
}

func (x *All) GetVB() bool {
	if x != nil {
		if x, ok := x.V.(*All_VB); ok {
			return x.VB
		}
	}
	return false
}

type isAll_U interface {
	isAll_U()
}

type All_XInt32 struct {
	XInt32 int32 `protobuf:"varint,900,opt,name=x_int32,json=xInt32,proto3,oneof"`
}

type All_XInt64 struct {
	XInt64 int64 `protobuf:"varint,901,opt,name=x_int64,json=xInt64,proto3,oneof"`
}

type All_XUint32 struct {
	XUint32 uint32 `protobuf:"varint,902,opt,name=x_uint32,json=xUint32,proto3,oneof"`
}

type All_XUint64 struct {
	XUint64 uint64 `protobuf:"varint,903,opt,name=x_uint64,json=xUint64,proto3,oneof"`
}

type All_XSint32 struct {
	XSint32 int32 `protobuf:"zigzag32,904,opt,name=x_sint32,json=xSint32,proto3,oneof"`
}

type All_XSint64 struct {
	XSint64 int64 `protobuf:"zigzag64,905,opt,name=x_sint64,json=xSint64,proto3,oneof"`
}

type All_XFixed32 struct {
	XFixed32 uint32 `protobuf:"fixed32,906,opt,name=x_fixed32,json=xFixed32,proto3,oneof"`
}

type All_XFixed64 struct {
	XFixed64 uint64 `protobuf:"fixed64,907,opt,name=x_fixed64,json=xFixed64,proto3,oneof"`
}

type All_XSfixed32 struct {
	XSfixed32 int32 `protobuf:"fixed32,908,opt,name=x_sfixed32,json=xSfixed32,proto3,oneof"`
}

type All_XSfixed64 struct {
	XSfixed64 int64 `protobuf:"fixed64,909,opt,name=x_sfixed64,json=xSfixed64,proto3,oneof"`
}

type All_XFloat struct {
	XFloat float32 `protobuf:"fixed32,910,opt,name=x_float,json=xFloat,proto3,oneof"`
}

type All_XDouble struct {
	XDouble float64 `protobuf:"fixed64,911,opt,name=x_double,json=xDouble,proto3,oneof"`
}

type All_XBool struct {
	XBool bool `protobuf:"varint,912,opt,name=x_bool,json=xBool,proto3,oneof"`
}

type All_XString struct {
	XString string `protobuf:"bytes,913,opt,name=x_string,json=xString,proto3,oneof"`
}

type All_XBytes struct {
	XBytes []byte `protobuf:"bytes,914,opt,name=x_bytes,json=xBytes,proto3,oneof"`
}

type All_XE struct {
	XE E `protobuf:"varint,915,opt,name=x_e,json=xE,proto3,enum=mcp3.E,oneof"`
}

type All_XM struct {
	XM *Leaf `protobuf:"bytes,916,opt,name=x_m,json=xM,proto3,oneof"`
}

type All_XSelf struct {
	XSelf *All `protobuf:"bytes,917,opt,name=x_self,json=xSelf,proto3,oneof"`
}

func (*All_XInt32) isAll_U() {}

func (*All_XInt64) isAll_U() {}

func (*All_XUint32) isAll_U() {}

func (*All_XUint64) isAll_U() {}

func (*All_XSint32) isAll_U() {}

func (*All_XSint64) isAll_U() {}

func (*All_XFixed32) isAll_U() {}

func (*All_XFixed64) isAll_U() {}

func (*All_XSfixed32) isAll_U() {}

func (*All_XSfixed64) isAll_U() {}

func (*All_XFloat) isAll_U() {}

func (*All_XDouble) isAll_U() {}

func (*All_XBool) isAll_U() {}

func (*All_XString) isAll_U() {}

func (*All_XBytes) isAll_U() {}

func (*All_XE) isAll_U() {}

func (*All_XM) isAll_U() {}

func (*All_XSelf) isAll_U() {}

type isAll_V interface {
	isAll_V()
}

type All_VS struct {
	VS string `protobuf:"bytes,1100,opt,name=v_s,json=vS,proto3,oneof"`
}

type All_VM struct {
	VM *Leaf `protobuf:"bytes,1101,opt,name=v_m,json=vM,proto3,oneof"`
}

type All_VB struct {
	VB bool `protobuf:"varint,1102,opt,name=v_b,json=vB,proto3,oneof"`
}

func (*All_VS) isAll_V() {}

func (*All_VM) isAll_V() {}

func (*All_VB) isAll_V() {}

type Maps struct {
	state             protoimpl.MessageState `protogen:"open.v1"`
	MInt32Int32       map[int32]int32        `protobuf:"bytes,1,rep,name=m_int32_int32,json=mInt32Int32,proto3" json:"m_int32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Int64       map[int32]int64        `protobuf:"bytes,2,rep,name=m_int32_int64,json=mInt32Int64,proto3" json:"m_int32_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Uint32      map[int32]uint32       `protobuf:"bytes,3,rep,name=m_int32_uint32,json=mInt32Uint32,proto3" json:"m_int32_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Uint64      map[int32]uint64       `protobuf:"bytes,4,rep,name=m_int32_uint64,json=mInt32Uint64,proto3" json:"m_int32_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Sint32      map[int32]int32        `protobuf:"bytes,5,rep,name=m_int32_sint32,json=mInt32Sint32,proto3" json:"m_int32_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MInt32Sint64      map[int32]int64        `protobuf:"bytes,6,rep,name=m_int32_sint64,json=mInt32Sint64,proto3" json:"m_int32_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MInt32Fixed32     map[int32]uint32       `protobuf:"bytes,7,rep,name=m_int32_fixed32,json=mInt32Fixed32,proto3" json:"m_int32_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Fixed64     map[int32]uint64       `protobuf:"bytes,8,rep,name=m_int32_fixed64,json=mInt32Fixed64,proto3" json:"m_int32_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Sfixed32    map[int32]int32        `protobuf:"bytes,9,rep,name=m_int32_sfixed32,json=mInt32Sfixed32,proto3" json:"m_int32_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Sfixed64    map[int32]int64        `protobuf:"bytes,10,rep,name=m_int32_sfixed64,json=mInt32Sfixed64,proto3" json:"m_int32_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Float       map[int32]float32      `protobuf:"bytes,11,rep,name=m_int32_float,json=mInt32Float,proto3" json:"m_int32_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Double      map[int32]float64      `protobuf:"bytes,12,rep,name=m_int32_double,json=mInt32Double,proto3" json:"m_int32_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Bool        map[int32]bool         `protobuf:"bytes,13,rep,name=m_int32_bool,json=mInt32Bool,proto3" json:"m_int32_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32String      map[int32]string       `protobuf:"bytes,14,rep,name=m_int32_string,json=mInt32String,proto3" json:"m_int32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32Bytes       map[int32][]byte       `protobuf:"bytes,15,rep,name=m_int32_bytes,json=mInt32Bytes,proto3" json:"m_int32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32E           map[int32]E            `protobuf:"bytes,16,rep,name=m_int32_e,json=mInt32E,proto3" json:"m_int32_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MInt32Leaf        map[int32]*Leaf        `protobuf:"bytes,17,rep,name=m_int32_leaf,json=mInt32Leaf,proto3" json:"m_int32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Int32       map[int64]int32        `protobuf:"bytes,18,rep,name=m_int64_int32,json=mInt64Int32,proto3" json:"m_int64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Int64       map[int64]int64        `protobuf:"bytes,19,rep,name=m_int64_int64,json=mInt64Int64,proto3" json:"m_int64_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Uint32      map[int64]uint32       `protobuf:"bytes,20,rep,name=m_int64_uint32,json=mInt64Uint32,proto3" json:"m_int64_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Uint64      map[int64]uint64       `protobuf:"bytes,21,rep,name=m_int64_uint64,json=mInt64Uint64,proto3" json:"m_int64_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Sint32      map[int64]int32        `protobuf:"bytes,22,rep,name=m_int64_sint32,json=mInt64Sint32,proto3" json:"m_int64_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MInt64Sint64      map[int64]int64        `protobuf:"bytes,23,rep,name=m_int64_sint64,json=mInt64Sint64,proto3" json:"m_int64_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MInt64Fixed32     map[int64]uint32       `protobuf:"bytes,24,rep,name=m_int64_fixed32,json=mInt64Fixed32,proto3" json:"m_int64_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Fixed64     map[int64]uint64       `protobuf:"bytes,25,rep,name=m_int64_fixed64,json=mInt64Fixed64,proto3" json:"m_int64_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Sfixed32    map[int64]int32        `protobuf:"bytes,26,rep,name=m_int64_sfixed32,json=mInt64Sfixed32,proto3" json:"m_int64_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Sfixed64    map[int64]int64        `protobuf:"bytes,27,rep,name=m_int64_sfixed64,json=mInt64Sfixed64,proto3" json:"m_int64_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Float       map[int64]float32      `protobuf:"bytes,28,rep,name=m_int64_float,json=mInt64Float,proto3" json:"m_int64_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Double      map[int64]float64      `protobuf:"bytes,29,rep,name=m_int64_double,json=mInt64Double,proto3" json:"m_int64_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Bool        map[int64]bool         `protobuf:"bytes,30,rep,name=m_int64_bool,json=mInt64Bool,proto3" json:"m_int64_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64String      map[int64]string       `protobuf:"bytes,31,rep,name=m_int64_string,json=mInt64String,proto3" json:"m_int64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Bytes       map[int64][]byte       `protobuf:"bytes,32,rep,name=m_int64_bytes,json=mInt64Bytes,proto3" json:"m_int64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64E           map[int64]E            `protobuf:"bytes,33,rep,name=m_int64_e,json=mInt64E,proto3" json:"m_int64_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MInt64Leaf        map[int64]*Leaf        `protobuf:"bytes,34,rep,name=m_int64_leaf,json=mInt64Leaf,proto3" json:"m_int64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Int32      map[uint32]int32       `protobuf:"bytes,35,rep,name=m_uint32_int32,json=mUint32Int32,proto3" json:"m_uint32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Int64      map[uint32]int64       `protobuf:"bytes,36,rep,name=m_uint32_int64,json=mUint32Int64,proto3" json:"m_uint32_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Uint32     map[uint32]uint32      `protobuf:"bytes,37,rep,name=m_uint32_uint32,json=mUint32Uint32,proto3" json:"m_uint32_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Uint64     map[uint32]uint64      `protobuf:"bytes,38,rep,name=m_uint32_uint64,json=mUint32Uint64,proto3" json:"m_uint32_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Sint32     map[uint32]int32       `protobuf:"bytes,39,rep,name=m_uint32_sint32,json=mUint32Sint32,proto3" json:"m_uint32_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MUint32Sint64     map[uint32]int64       `protobuf:"bytes,40,rep,name=m_uint32_sint64,json=mUint32Sint64,proto3" json:"m_uint32_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MUint32Fixed32    map[uint32]uint32      `protobuf:"bytes,41,rep,name=m_uint32_fixed32,json=mUint32Fixed32,proto3" json:"m_uint32_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Fixed64    map[uint32]uint64      `protobuf:"bytes,42,rep,name=m_uint32_fixed64,json=mUint32Fixed64,proto3" json:"m_uint32_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Sfixed32   map[uint32]int32       `protobuf:"bytes,43,rep,name=m_uint32_sfixed32,json=mUint32Sfixed32,proto3" json:"m_uint32_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Sfixed64   map[uint32]int64       `protobuf:"bytes,44,rep,name=m_uint32_sfixed64,json=mUint32Sfixed64,proto3" json:"m_uint32_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Float      map[uint32]float32     `protobuf:"bytes,45,rep,name=m_uint32_float,json=mUint32Float,proto3" json:"m_uint32_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Double     map[uint32]float64     `protobuf:"bytes,46,rep,name=m_uint32_double,json=mUint32Double,proto3" json:"m_uint32_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Bool       map[uint32]bool        `protobuf:"bytes,47,rep,name=m_uint32_bool,json=mUint32Bool,proto3" json:"m_uint32_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32String     map[uint32]string      `protobuf:"bytes,48,rep,name=m_uint32_string,json=mUint32String,proto3" json:"m_uint32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Bytes      map[uint32][]byte      `protobuf:"bytes,49,rep,name=m_uint32_bytes,json=mUint32Bytes,proto3" json:"m_uint32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32E          map[uint32]E           `protobuf:"bytes,50,rep,name=m_uint32_e,json=mUint32E,proto3" json:"m_uint32_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MUint32Leaf       map[uint32]*Leaf       `protobuf:"bytes,51,rep,name=m_uint32_leaf,json=mUint32Leaf,proto3" json:"m_uint32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Int32      map[uint64]int32       `protobuf:"bytes,52,rep,name=m_uint64_int32,json=mUint64Int32,proto3" json:"m_uint64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Int64      map[uint64]int64       `protobuf:"bytes,53,rep,name=m_uint64_int64,json=mUint64Int64,proto3" json:"m_uint64_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Uint32     map[uint64]uint32      `protobuf:"bytes,54,rep,name=m_uint64_uint32,json=mUint64Uint32,proto3" json:"m_uint64_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Uint64     map[uint64]uint64      `protobuf:"bytes,55,rep,name=m_uint64_uint64,json=mUint64Uint64,proto3" json:"m_uint64_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Sint32     map[uint64]int32       `protobuf:"bytes,56,rep,name=m_uint64_sint32,json=mUint64Sint32,proto3" json:"m_uint64_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MUint64Sint64     map[uint64]int64       `protobuf:"bytes,57,rep,name=m_uint64_sint64,json=mUint64Sint64,proto3" json:"m_uint64_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MUint64Fixed32    map[uint64]uint32      `protobuf:"bytes,58,rep,name=m_uint64_fixed32,json=mUint64Fixed32,proto3" json:"m_uint64_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Fixed64    map[uint64]uint64      `protobuf:"bytes,59,rep,name=m_uint64_fixed64,json=mUint64Fixed64,proto3" json:"m_uint64_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Sfixed32   map[uint64]int32       `protobuf:"bytes,60,rep,name=m_uint64_sfixed32,json=mUint64Sfixed32,proto3" json:"m_uint64_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Sfixed64   map[uint64]int64       `protobuf:"bytes,61,rep,name=m_uint64_sfixed64,json=mUint64Sfixed64,proto3" json:"m_uint64_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Float      map[uint64]float32     `protobuf:"bytes,62,rep,name=m_uint64_float,json=mUint64Float,proto3" json:"m_uint64_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Double     map[uint64]float64     `protobuf:"bytes,63,rep,name=m_uint64_double,json=mUint64Double,proto3" json:"m_uint64_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Bool       map[uint64]bool        `protobuf:"bytes,64,rep,name=m_uint64_bool,json=mUint64Bool,proto3" json:"m_uint64_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64String     map[uint64]string      `protobuf:"bytes,65,rep,name=m_uint64_string,json=mUint64String,proto3" json:"m_uint64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Bytes      map[uint64][]byte      `protobuf:"bytes,66,rep,name=m_uint64_bytes,json=mUint64Bytes,proto3" json:"m_uint64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64E          map[uint64]E           `protobuf:"bytes,67,rep,name=m_uint64_e,json=mUint64E,proto3" json:"m_uint64_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MUint64Leaf       map[uint64]*Leaf       `protobuf:"bytes,68,rep,name=m_uint64_leaf,json=mUint64Leaf,proto3" json:"m_uint64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Int32      map[int32]int32        `protobuf:"bytes,69,rep,name=m_sint32_int32,json=mSint32Int32,proto3" json:"m_sint32_int32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Int64      map[int32]int64        `protobuf:"bytes,70,rep,name=m_sint32_int64,json=mSint32Int64,proto3" json:"m_sint32_int64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Uint32     map[int32]uint32       `protobuf:"bytes,71,rep,name=m_sint32_uint32,json=mSint32Uint32,proto3" json:"m_sint32_uint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Uint64     map[int32]uint64       `protobuf:"bytes,72,rep,name=m_sint32_uint64,json=mSint32Uint64,proto3" json:"m_sint32_uint64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Sint32     map[int32]int32        `protobuf:"bytes,73,rep,name=m_sint32_sint32,json=mSint32Sint32,proto3" json:"m_sint32_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSint32Sint64     map[int32]int64        `protobuf:"bytes,74,rep,name=m_sint32_sint64,json=mSint32Sint64,proto3" json:"m_sint32_sint64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSint32Fixed32    map[int32]uint32       `protobuf:"bytes,75,rep,name=m_sint32_fixed32,json=mSint32Fixed32,proto3" json:"m_sint32_fixed32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Fixed64    map[int32]uint64       `protobuf:"bytes,76,rep,name=m_sint32_fixed64,json=mSint32Fixed64,proto3" json:"m_sint32_fixed64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Sfixed32   map[int32]int32        `protobuf:"bytes,77,rep,name=m_sint32_sfixed32,json=mSint32Sfixed32,proto3" json:"m_sint32_sfixed32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Sfixed64   map[int32]int64        `protobuf:"bytes,78,rep,name=m_sint32_sfixed64,json=mSint32Sfixed64,proto3" json:"m_sint32_sfixed64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Float      map[int32]float32      `protobuf:"bytes,79,rep,name=m_sint32_float,json=mSint32Float,proto3" json:"m_sint32_float,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Double     map[int32]float64      `protobuf:"bytes,80,rep,name=m_sint32_double,json=mSint32Double,proto3" json:"m_sint32_double,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Bool       map[int32]bool         `protobuf:"bytes,81,rep,name=m_sint32_bool,json=mSint32Bool,proto3" json:"m_sint32_bool,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32String     map[int32]string       `protobuf:"bytes,82,rep,name=m_sint32_string,json=mSint32String,proto3" json:"m_sint32_string,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Bytes      map[int32][]byte       `protobuf:"bytes,83,rep,name=m_sint32_bytes,json=mSint32Bytes,proto3" json:"m_sint32_bytes,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32E          map[int32]E            `protobuf:"bytes,84,rep,name=m_sint32_e,json=mSint32E,proto3" json:"m_sint32_e,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MSint32Leaf       map[int32]*Leaf        `protobuf:"bytes,85,rep,name=m_sint32_leaf,json=mSint32Leaf,proto3" json:"m_sint32_leaf,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Int32      map[int64]int32        `protobuf:"bytes,86,rep,name=m_sint64_int32,json=mSint64Int32,proto3" json:"m_sint64_int32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Int64      map[int64]int64        `protobuf:"bytes,87,rep,name=m_sint64_int64,json=mSint64Int64,proto3" json:"m_sint64_int64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Uint32     map[int64]uint32       `protobuf:"bytes,88,rep,name=m_sint64_uint32,json=mSint64Uint32,proto3" json:"m_sint64_uint32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Uint64     map[int64]uint64       `protobuf:"bytes,89,rep,name=m_sint64_uint64,json=mSint64Uint64,proto3" json:"m_sint64_uint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Sint32     map[int64]int32        `protobuf:"bytes,90,rep,name=m_sint64_sint32,json=mSint64Sint32,proto3" json:"m_sint64_sint32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSint64Sint64     map[int64]int64        `protobuf:"bytes,91,rep,name=m_sint64_sint64,json=mSint64Sint64,proto3" json:"m_sint64_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSint64Fixed32    map[int64]uint32       `protobuf:"bytes,92,rep,name=m_sint64_fixed32,json=mSint64Fixed32,proto3" json:"m_sint64_fixed32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Fixed64    map[int64]uint64       `protobuf:"bytes,93,rep,name=m_sint64_fixed64,json=mSint64Fixed64,proto3" json:"m_sint64_fixed64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Sfixed32   map[int64]int32        `protobuf:"bytes,94,rep,name=m_sint64_sfixed32,json=mSint64Sfixed32,proto3" json:"m_sint64_sfixed32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Sfixed64   map[int64]int64        `protobuf:"bytes,95,rep,name=m_sint64_sfixed64,json=mSint64Sfixed64,proto3" json:"m_sint64_sfixed64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Float      map[int64]float32      `protobuf:"bytes,96,rep,name=m_sint64_float,json=mSint64Float,proto3" json:"m_sint64_float,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Double     map[int64]float64      `protobuf:"bytes,97,rep,name=m_sint64_double,json=mSint64Double,proto3" json:"m_sint64_double,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Bool       map[int64]bool         `protobuf:"bytes,98,rep,name=m_sint64_bool,json=mSint64Bool,proto3" json:"m_sint64_bool,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64String     map[int64]string       `protobuf:"bytes,99,rep,name=m_sint64_string,json=mSint64String,proto3" json:"m_sint64_string,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Bytes      map[int64][]byte       `protobuf:"bytes,100,rep,name=m_sint64_bytes,json=mSint64Bytes,proto3" json:"m_sint64_bytes,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64E          map[int64]E            `protobuf:"bytes,101,rep,name=m_sint64_e,json=mSint64E,proto3" json:"m_sint64_e,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MSint64Leaf       map[int64]*Leaf        `protobuf:"bytes,102,rep,name=m_sint64_leaf,json=mSint64Leaf,proto3" json:"m_sint64_leaf,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Int32     map[uint32]int32       `protobuf:"bytes,103,rep,name=m_fixed32_int32,json=mFixed32Int32,proto3" json:"m_fixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Int64     map[uint32]int64       `protobuf:"bytes,104,rep,name=m_fixed32_int64,json=mFixed32Int64,proto3" json:"m_fixed32_int64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Uint32    map[uint32]uint32      `protobuf:"bytes,105,rep,name=m_fixed32_uint32,json=mFixed32Uint32,proto3" json:"m_fixed32_uint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Uint64    map[uint32]uint64      `protobuf:"bytes,106,rep,name=m_fixed32_uint64,json=mFixed32Uint64,proto3" json:"m_fixed32_uint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Sint32    map[uint32]int32       `protobuf:"bytes,107,rep,name=m_fixed32_sint32,json=mFixed32Sint32,proto3" json:"m_fixed32_sint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MFixed32Sint64    map[uint32]int64       `protobuf:"bytes,108,rep,name=m_fixed32_sint64,json=mFixed32Sint64,proto3" json:"m_fixed32_sint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MFixed32Fixed32   map[uint32]uint32      `protobuf:"bytes,109,rep,name=m_fixed32_fixed32,json=mFixed32Fixed32,proto3" json:"m_fixed32_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Fixed64   map[uint32]uint64      `protobuf:"bytes,110,rep,name=m_fixed32_fixed64,json=mFixed32Fixed64,proto3" json:"m_fixed32_fixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Sfixed32  map[uint32]int32       `protobuf:"bytes,111,rep,name=m_fixed32_sfixed32,json=mFixed32Sfixed32,proto3" json:"m_fixed32_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Sfixed64  map[uint32]int64       `protobuf:"bytes,112,rep,name=m_fixed32_sfixed64,json=mFixed32Sfixed64,proto3" json:"m_fixed32_sfixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Float     map[uint32]float32     `protobuf:"bytes,113,rep,name=m_fixed32_float,json=mFixed32Float,proto3" json:"m_fixed32_float,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Double    map[uint32]float64     `protobuf:"bytes,114,rep,name=m_fixed32_double,json=mFixed32Double,proto3" json:"m_fixed32_double,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Bool      map[uint32]bool        `protobuf:"bytes,115,rep,name=m_fixed32_bool,json=mFixed32Bool,proto3" json:"m_fixed32_bool,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32String    map[uint32]string      `protobuf:"bytes,116,rep,name=m_fixed32_string,json=mFixed32String,proto3" json:"m_fixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Bytes     map[uint32][]byte      `protobuf:"bytes,117,rep,name=m_fixed32_bytes,json=mFixed32Bytes,proto3" json:"m_fixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32E         map[uint32]E           `protobuf:"bytes,118,rep,name=m_fixed32_e,json=mFixed32E,proto3" json:"m_fixed32_e,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MFixed32Leaf      map[uint32]*Leaf       `protobuf:"bytes,119,rep,name=m_fixed32_leaf,json=mFixed32Leaf,proto3" json:"m_fixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Int32     map[uint64]int32       `protobuf:"bytes,120,rep,name=m_fixed64_int32,json=mFixed64Int32,proto3" json:"m_fixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Int64     map[uint64]int64       `protobuf:"bytes,121,rep,name=m_fixed64_int64,json=mFixed64Int64,proto3" json:"m_fixed64_int64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Uint32    map[uint64]uint32      `protobuf:"bytes,122,rep,name=m_fixed64_uint32,json=mFixed64Uint32,proto3" json:"m_fixed64_uint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Uint64    map[uint64]uint64      `protobuf:"bytes,123,rep,name=m_fixed64_uint64,json=mFixed64Uint64,proto3" json:"m_fixed64_uint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Sint32    map[uint64]int32       `protobuf:"bytes,124,rep,name=m_fixed64_sint32,json=mFixed64Sint32,proto3" json:"m_fixed64_sint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MFixed64Sint64    map[uint64]int64       `protobuf:"bytes,125,rep,name=m_fixed64_sint64,json=mFixed64Sint64,proto3" json:"m_fixed64_sint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MFixed64Fixed32   map[uint64]uint32      `protobuf:"bytes,126,rep,name=m_fixed64_fixed32,json=mFixed64Fixed32,proto3" json:"m_fixed64_fixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Fixed64   map[uint64]uint64      `protobuf:"bytes,127,rep,name=m_fixed64_fixed64,json=mFixed64Fixed64,proto3" json:"m_fixed64_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Sfixed32  map[uint64]int32       `protobuf:"bytes,128,rep,name=m_fixed64_sfixed32,json=mFixed64Sfixed32,proto3" json:"m_fixed64_sfixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Sfixed64  map[uint64]int64       `protobuf:"bytes,129,rep,name=m_fixed64_sfixed64,json=mFixed64Sfixed64,proto3" json:"m_fixed64_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Float     map[uint64]float32     `protobuf:"bytes,130,rep,name=m_fixed64_float,json=mFixed64Float,proto3" json:"m_fixed64_float,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Double    map[uint64]float64     `protobuf:"bytes,131,rep,name=m_fixed64_double,json=mFixed64Double,proto3" json:"m_fixed64_double,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Bool      map[uint64]bool        `protobuf:"bytes,132,rep,name=m_fixed64_bool,json=mFixed64Bool,proto3" json:"m_fixed64_bool,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64String    map[uint64]string      `protobuf:"bytes,133,rep,name=m_fixed64_string,json=mFixed64String,proto3" json:"m_fixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Bytes     map[uint64][]byte      `protobuf:"bytes,134,rep,name=m_fixed64_bytes,json=mFixed64Bytes,proto3" json:"m_fixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64E         map[uint64]E           `protobuf:"bytes,135,rep,name=m_fixed64_e,json=mFixed64E,proto3" json:"m_fixed64_e,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MFixed64Leaf      map[uint64]*Leaf       `protobuf:"bytes,136,rep,name=m_fixed64_leaf,json=mFixed64Leaf,proto3" json:"m_fixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Int32    map[int32]int32        `protobuf:"bytes,137,rep,name=m_sfixed32_int32,json=mSfixed32Int32,proto3" json:"m_sfixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Int64    map[int32]int64        `protobuf:"bytes,138,rep,name=m_sfixed32_int64,json=mSfixed32Int64,proto3" json:"m_sfixed32_int64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Uint32   map[int32]uint32       `protobuf:"bytes,139,rep,name=m_sfixed32_uint32,json=mSfixed32Uint32,proto3" json:"m_sfixed32_uint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Uint64   map[int32]uint64       `protobuf:"bytes,140,rep,name=m_sfixed32_uint64,json=mSfixed32Uint64,proto3" json:"m_sfixed32_uint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Sint32   map[int32]int32        `protobuf:"bytes,141,rep,name=m_sfixed32_sint32,json=mSfixed32Sint32,proto3" json:"m_sfixed32_sint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSfixed32Sint64   map[int32]int64        `protobuf:"bytes,142,rep,name=m_sfixed32_sint64,json=mSfixed32Sint64,proto3" json:"m_sfixed32_sint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSfixed32Fixed32  map[int32]uint32       `protobuf:"bytes,143,rep,name=m_sfixed32_fixed32,json=mSfixed32Fixed32,proto3" json:"m_sfixed32_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Fixed64  map[int32]uint64       `protobuf:"bytes,144,rep,name=m_sfixed32_fixed64,json=mSfixed32Fixed64,proto3" json:"m_sfixed32_fixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Sfixed32 map[int32]int32        `protobuf:"bytes,145,rep,name=m_sfixed32_sfixed32,json=mSfixed32Sfixed32,proto3" json:"m_sfixed32_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Sfixed64 map[int32]int64        `protobuf:"bytes,146,rep,name=m_sfixed32_sfixed64,json=mSfixed32Sfixed64,proto3" json:"m_sfixed32_sfixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Float    map[int32]float32      `protobuf:"bytes,147,rep,name=m_sfixed32_float,json=mSfixed32Float,proto3" json:"m_sfixed32_float,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Double   map[int32]float64      `protobuf:"bytes,148,rep,name=m_sfixed32_double,json=mSfixed32Double,proto3" json:"m_sfixed32_double,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Bool     map[int32]bool         `protobuf:"bytes,149,rep,name=m_sfixed32_bool,json=mSfixed32Bool,proto3" json:"m_sfixed32_bool,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32String   map[int32]string       `protobuf:"bytes,150,rep,name=m_sfixed32_string,json=mSfixed32String,proto3" json:"m_sfixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Bytes    map[int32][]byte       `protobuf:"bytes,151,rep,name=m_sfixed32_bytes,json=mSfixed32Bytes,proto3" json:"m_sfixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32E        map[int32]E            `protobuf:"bytes,152,rep,name=m_sfixed32_e,json=mSfixed32E,proto3" json:"m_sfixed32_e,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MSfixed32Leaf     map[int32]*Leaf        `protobuf:"bytes,153,rep,name=m_sfixed32_leaf,json=mSfixed32Leaf,proto3" json:"m_sfixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Int32    map[int64]int32        `protobuf:"bytes,154,rep,name=m_sfixed64_int32,json=mSfixed64Int32,proto3" json:"m_sfixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Int64    map[int64]int64        `protobuf:"bytes,155,rep,name=m_sfixed64_int64,json=mSfixed64Int64,proto3" json:"m_sfixed64_int64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Uint32   map[int64]uint32       `protobuf:"bytes,156,rep,name=m_sfixed64_uint32,json=mSfixed64Uint32,proto3" json:"m_sfixed64_uint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Uint64   map[int64]uint64       `protobuf:"bytes,157,rep,name=m_sfixed64_uint64,json=mSfixed64Uint64,proto3" json:"m_sfixed64_uint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Sint32   map[int64]int32        `protobuf:"bytes,158,rep,name=m_sfixed64_sint32,json=mSfixed64Sint32,proto3" json:"m_sfixed64_sint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSfixed64Sint64   map[int64]int64        `protobuf:"bytes,159,rep,name=m_sfixed64_sint64,json=mSfixed64Sint64,proto3" json:"m_sfixed64_sint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSfixed64Fixed32  map[int64]uint32       `protobuf:"bytes,160,rep,name=m_sfixed64_fixed32,json=mSfixed64Fixed32,proto3" json:"m_sfixed64_fixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Fixed64  map[int64]uint64       `protobuf:"bytes,161,rep,name=m_sfixed64_fixed64,json=mSfixed64Fixed64,proto3" json:"m_sfixed64_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Sfixed32 map[int64]int32        `protobuf:"bytes,162,rep,name=m_sfixed64_sfixed32,json=mSfixed64Sfixed32,proto3" json:"m_sfixed64_sfixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Sfixed64 map[int64]int64        `protobuf:"bytes,163,rep,name=m_sfixed64_sfixed64,json=mSfixed64Sfixed64,proto3" json:"m_sfixed64_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Float    map[int64]float32      `protobuf:"bytes,164,rep,name=m_sfixed64_float,json=mSfixed64Float,proto3" json:"m_sfixed64_float,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Double   map[int64]float64      `protobuf:"bytes,165,rep,name=m_sfixed64_double,json=mSfixed64Double,proto3" json:"m_sfixed64_double,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Bool     map[int64]bool         `protobuf:"bytes,166,rep,name=m_sfixed64_bool,json=mSfixed64Bool,proto3" json:"m_sfixed64_bool,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64String   map[int64]string       `protobuf:"bytes,167,rep,name=m_sfixed64_string,json=mSfixed64String,proto3" json:"m_sfixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Bytes    map[int64][]byte       `protobuf:"bytes,168,rep,name=m_sfixed64_bytes,json=mSfixed64Bytes,proto3" json:"m_sfixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64E        map[int64]E            `protobuf:"bytes,169,rep,name=m_sfixed64_e,json=mSfixed64E,proto3" json:"m_sfixed64_e,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MSfixed64Leaf     map[int64]*Leaf        `protobuf:"bytes,170,rep,name=m_sfixed64_leaf,json=mSfixed64Leaf,proto3" json:"m_sfixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolInt32        map[bool]int32         `protobuf:"bytes,171,rep,name=m_bool_int32,json=mBoolInt32,proto3" json:"m_bool_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolInt64        map[bool]int64         `protobuf:"bytes,172,rep,name=m_bool_int64,json=mBoolInt64,proto3" json:"m_bool_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolUint32       map[bool]uint32        `protobuf:"bytes,173,rep,name=m_bool_uint32,json=mBoolUint32,proto3" json:"m_bool_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolUint64       map[bool]uint64        `protobuf:"bytes,174,rep,name=m_bool_uint64,json=mBoolUint64,proto3" json:"m_bool_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolSint32       map[bool]int32         `protobuf:"bytes,175,rep,name=m_bool_sint32,json=mBoolSint32,proto3" json:"m_bool_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MBoolSint64       map[bool]int64         `protobuf:"bytes,176,rep,name=m_bool_sint64,json=mBoolSint64,proto3" json:"m_bool_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MBoolFixed32      map[bool]uint32        `protobuf:"bytes,177,rep,name=m_bool_fixed32,json=mBoolFixed32,proto3" json:"m_bool_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolFixed64      map[bool]uint64        `protobuf:"bytes,178,rep,name=m_bool_fixed64,json=mBoolFixed64,proto3" json:"m_bool_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolSfixed32     map[bool]int32         `protobuf:"bytes,179,rep,name=m_bool_sfixed32,json=mBoolSfixed32,proto3" json:"m_bool_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolSfixed64     map[bool]int64         `protobuf:"bytes,180,rep,name=m_bool_sfixed64,json=mBoolSfixed64,proto3" json:"m_bool_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolFloat        map[bool]float32       `protobuf:"bytes,181,rep,name=m_bool_float,json=mBoolFloat,proto3" json:"m_bool_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolDouble       map[bool]float64       `protobuf:"bytes,182,rep,name=m_bool_double,json=mBoolDouble,proto3" json:"m_bool_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolBool         map[bool]bool          `protobuf:"bytes,183,rep,name=m_bool_bool,json=mBoolBool,proto3" json:"m_bool_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolString       map[bool]string        `protobuf:"bytes,184,rep,name=m_bool_string,json=mBoolString,proto3" json:"m_bool_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolBytes        map[bool][]byte        `protobuf:"bytes,185,rep,name=m_bool_bytes,json=mBoolBytes,proto3" json:"m_bool_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolE            map[bool]E             `protobuf:"bytes,186,rep,name=m_bool_e,json=mBoolE,proto3" json:"m_bool_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MBoolLeaf         map[bool]*Leaf         `protobuf:"bytes,187,rep,name=m_bool_leaf,json=mBoolLeaf,proto3" json:"m_bool_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringInt32      map[string]int32       `protobuf:"bytes,188,rep,name=m_string_int32,json=mStringInt32,proto3" json:"m_string_int32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringInt64      map[string]int64       `protobuf:"bytes,189,rep,name=m_string_int64,json=mStringInt64,proto3" json:"m_string_int64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringUint32     map[string]uint32      `protobuf:"bytes,190,rep,name=m_string_uint32,json=mStringUint32,proto3" json:"m_string_uint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringUint64     map[string]uint64      `protobuf:"bytes,191,rep,name=m_string_uint64,json=mStringUint64,proto3" json:"m_string_uint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringSint32     map[string]int32       `protobuf:"bytes,192,rep,name=m_string_sint32,json=mStringSint32,proto3" json:"m_string_sint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MStringSint64     map[string]int64       `protobuf:"bytes,193,rep,name=m_string_sint64,json=mStringSint64,proto3" json:"m_string_sint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MStringFixed32    map[string]uint32      `protobuf:"bytes,194,rep,name=m_string_fixed32,json=mStringFixed32,proto3" json:"m_string_fixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringFixed64    map[string]uint64      `protobuf:"bytes,195,rep,name=m_string_fixed64,json=mStringFixed64,proto3" json:"m_string_fixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringSfixed32   map[string]int32       `protobuf:"bytes,196,rep,name=m_string_sfixed32,json=mStringSfixed32,proto3" json:"m_string_sfixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringSfixed64   map[string]int64       `protobuf:"bytes,197,rep,name=m_string_sfixed64,json=mStringSfixed64,proto3" json:"m_string_sfixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringFloat      map[string]float32     `protobuf:"bytes,198,rep,name=m_string_float,json=mStringFloat,proto3" json:"m_string_float,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringDouble     map[string]float64     `protobuf:"bytes,199,rep,name=m_string_double,json=mStringDouble,proto3" json:"m_string_double,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringBool       map[string]bool        `protobuf:"bytes,200,rep,name=m_string_bool,json=mStringBool,proto3" json:"m_string_bool,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringString     map[string]string      `protobuf:"bytes,201,rep,name=m_string_string,json=mStringString,proto3" json:"m_string_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringBytes      map[string][]byte      `protobuf:"bytes,202,rep,name=m_string_bytes,json=mStringBytes,proto3" json:"m_string_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringE          map[string]E           `protobuf:"bytes,203,rep,name=m_string_e,json=mStringE,proto3" json:"m_string_e,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value,enum=mcp3.E"`
	MStringLeaf       map[string]*Leaf       `protobuf:"bytes,204,rep,name=m_string_leaf,json=mStringLeaf,proto3" json:"m_string_leaf,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	unknownFields     protoimpl.UnknownFields
	sizeCache         protoimpl.SizeCache
}

func (x *Maps) Reset() {
	*x = Maps{}
	mi := &file_p3_proto_msgTypes[2]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Maps) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Maps) ProtoMessage() {}

func (x *Maps) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[2]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Maps.ProtoReflect.Descriptor instead.
func (*Maps) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{2}
}

func (x *Maps) GetMInt32Int32() map[int32]int32 {
	if x != nil {
		return x.MInt32Int32
	}
	return nil
}

func (x *Maps) GetMInt32Int64() map[int32]int64 {
	if x != nil {
		return x.MInt32Int64
	}
	return nil
}

func (x *Maps) GetMInt32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MInt32Uint32
	}
	return nil
}

func (x *Maps) GetMInt32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MInt32Uint64
	}
	return nil
}

func (x *Maps) GetMInt32Sint32() map[int32]int32 {
	if x != nil {
		return x.MInt32Sint32
	}
	return nil
}

func (x *Maps) GetMInt32Sint64() map[int32]int64 {
	if x != nil {
		return x.MInt32Sint64
	}
	return nil
}

func (x *Maps) GetMInt32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MInt32Fixed32
	}
	return nil
}

func (x *Maps) GetMInt32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MInt32Fixed64
	}
	return nil
}

func (x *Maps) GetMInt32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MInt32Sfixed32
	}
	return nil
}

func (x *Maps) GetMInt32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MInt32Sfixed64
	}
	return nil
}

func (x *Maps) GetMInt32Float() map[int32]float32 {
	if x != nil {
		return x.MInt32Float
	}
	return nil
}

func (x *Maps) GetMInt32Double() map[int32]float64 {
	if x != nil {
		return x.MInt32Double
	}
	return nil
}

func (x *Maps) GetMInt32Bool() map[int32]bool {
	if x != nil {
		return x.MInt32Bool
	}
	return nil
}

func (x *Maps) GetMInt32String() map[int32]string {
	if x != nil {
		return x.MInt32String
	}
	return nil
}

func (x *Maps) GetMInt32Bytes() map[int32][]byte {
	if x != nil {
		return x.MInt32Bytes
	}
	return nil
}

func (x *Maps) GetMInt32E() map[int32]E {
	if x != nil {
		return x.MInt32E
	}
	return nil
}

func (x *Maps) GetMInt32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MInt32Leaf
	}
	return nil
}

func (x *Maps) GetMInt64Int32() map[int64]int32 {
	if x != nil {
		return x.MInt64Int32
	}
	return nil
}

func (x *Maps) GetMInt64Int64() map[int64]int64 {
	if x != nil {
		return x.MInt64Int64
	}
	return nil
}

func (x *Maps) GetMInt64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MInt64Uint32
	}
	return nil
}

func (x *Maps) GetMInt64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MInt64Uint64
	}
	return nil
}

func (x *Maps) GetMInt64Sint32() map[int64]int32 {
	if x != nil {
		return x.MInt64Sint32
	}
	return nil
}

func (x *Maps) GetMInt64Sint64() map[int64]int64 {
	if x != nil {
		return x.MInt64Sint64
	}
	return nil
}

func (x *Maps) GetMInt64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MInt64Fixed32
	}
	return nil
}

func (x *Maps) GetMInt64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MInt64Fixed64
	}
	return nil
}

func (x *Maps) GetMInt64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MInt64Sfixed32
	}
	return nil
}

func (x *Maps) GetMInt64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MInt64Sfixed64
	}
	return nil
}

func (x *Maps) GetMInt64Float() map[int64]float32 {
	if x != nil {
		return x.MInt64Float
	}
	return nil
}

func (x *Maps) GetMInt64Double() map[int64]float64 {
	if x != nil {
		return x.MInt64Double
	}
	return nil
}

func (x *Maps) GetMInt64Bool() map[int64]bool {
	if x != nil {
		return x.MInt64Bool
	}
	return nil
}

func (x *Maps) GetMInt64String() map[int64]string {
	if x != nil {
		return x.MInt64String
	}
	return nil
}

func (x *Maps) GetMInt64Bytes() map[int64][]byte {
	if x != nil {
		return x.MInt64Bytes
	}
	return nil
}

func (x *Maps) GetMInt64E() map[int64]E {
	if x != nil {
		return x.MInt64E
	}
	return nil
}

func (x *Maps) GetMInt64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MInt64Leaf
	}
	return nil
}

func (x *Maps) GetMUint32Int32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Int32
	}
	return nil
}

func (x *Maps) GetMUint32Int64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Int64
	}
	return nil
}

func (x *Maps) GetMUint32Uint32() map[uint32]uint32 {
	if x != nil {
		return x.MUint32Uint32
	}
	return nil
}

func (x *Maps) GetMUint32Uint64() map[uint32]uint64 {
	if x != nil {
		return x.MUint32Uint64
	}
	return nil
}

func (x *Maps) GetMUint32Sint32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Sint32
	}
	return nil
}

func (x *Maps) GetMUint32Sint64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Sint64
	}
	return nil
}

func (x *Maps) GetMUint32Fixed32() map[uint32]uint32 {
	if x != nil {
		return x.MUint32Fixed32
	}
	return nil
}

func (x *Maps) GetMUint32Fixed64() map[uint32]uint64 {
	if x != nil {
		return x.MUint32Fixed64
	}
	return nil
}

func (x *Maps) GetMUint32Sfixed32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Sfixed32
	}
	return nil
}

func (x *Maps) GetMUint32Sfixed64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Sfixed64
	}
	return nil
}

func (x *Maps) GetMUint32Float() map[uint32]float32 {
	if x != nil {
		return x.MUint32Float
	}
	return nil
}

func (x *Maps) GetMUint32Double() map[uint32]float64 {
	if x != nil {
		return x.MUint32Double
	}
	return nil
}

func (x *Maps) GetMUint32Bool() map[uint32]bool {
	if x != nil {
		return x.MUint32Bool
	}
	return nil
}

func (x *Maps) GetMUint32String() map[uint32]string {
	if x != nil {
		return x.MUint32String
	}
	return nil
}

func (x *Maps) GetMUint32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MUint32Bytes
	}
	return nil
}

func (x *Maps) GetMUint32E() map[uint32]E {
	if x != nil {
		return x.MUint32E
	}
	return nil
}

func (x *Maps) GetMUint32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MUint32Leaf
	}
	return nil
}

func (x *Maps) GetMUint64Int32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Int32
	}
	return nil
}

func (x *Maps) GetMUint64Int64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Int64
	}
	return nil
}

func (x *Maps) GetMUint64Uint32() map[uint64]uint32 {
	if x != nil {
		return x.MUint64Uint32
	}
	return nil
}

func (x *Maps) GetMUint64Uint64() map[uint64]uint64 {
	if x != nil {
		return x.MUint64Uint64
	}
	return nil
}

func (x *Maps) GetMUint64Sint32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Sint32
	}
	return nil
}

func (x *Maps) GetMUint64Sint64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Sint64
	}
	return nil
}

func (x *Maps) GetMUint64Fixed32() map[uint64]uint32 {
	if x != nil {
		return x.MUint64Fixed32
	}
	return nil
}

func (x *Maps) GetMUint64Fixed64() map[uint64]uint64 {
	if x != nil {
		return x.MUint64Fixed64
	}
	return nil
}

func (x *Maps) GetMUint64Sfixed32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Sfixed32
	}
	return nil
}

func (x *Maps) GetMUint64Sfixed64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Sfixed64
	}
	return nil
}

func (x *Maps) GetMUint64Float() map[uint64]float32 {
	if x != nil {
		return x.MUint64Float
	}
	return nil
}

func (x *Maps) GetMUint64Double() map[uint64]float64 {
	if x != nil {
		return x.MUint64Double
	}
	return nil
}

func (x *Maps) GetMUint64Bool() map[uint64]bool {
	if x != nil {
		return x.MUint64Bool
	}
	return nil
}

func (x *Maps) GetMUint64String() map[uint64]string {
	if x != nil {
		return x.MUint64String
	}
	return nil
}

func (x *Maps) GetMUint64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MUint64Bytes
	}
	return nil
}

func (x *Maps) GetMUint64E() map[uint64]E {
	if x != nil {
		return x.MUint64E
	}
	return nil
}

func (x *Maps) GetMUint64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MUint64Leaf
	}
	return nil
}

func (x *Maps) GetMSint32Int32() map[int32]int32 {
	if x != nil {
		return x.MSint32Int32
	}
	return nil
}

func (x *Maps) GetMSint32Int64() map[int32]int64 {
	if x != nil {
		return x.MSint32Int64
	}
	return nil
}

func (x *Maps) GetMSint32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MSint32Uint32
	}
	return nil
}

func (x *Maps) GetMSint32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MSint32Uint64
	}
	return nil
}

func (x *Maps) GetMSint32Sint32() map[int32]int32 {
	if x != nil {
		return x.MSint32Sint32
	}
	return nil
}

func (x *Maps) GetMSint32Sint64() map[int32]int64 {
	if x != nil {
		return x.MSint32Sint64
	}
	return nil
}

func (x *Maps) GetMSint32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MSint32Fixed32
	}
	return nil
}

func (x *Maps) GetMSint32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MSint32Fixed64
	}
	return nil
}

func (x *Maps) GetMSint32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MSint32Sfixed32
	}
	return nil
}

func (x *Maps) GetMSint32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MSint32Sfixed64
	}
	return nil
}

func (x *Maps) GetMSint32Float() map[int32]float32 {
	if x != nil {
		return x.MSint32Float
	}
	return nil
}

func (x *Maps) GetMSint32Double() map[int32]float64 {
	if x != nil {
		return x.MSint32Double
	}
	return nil
}

func (x *Maps) GetMSint32Bool() map[int32]bool {
	if x != nil {
		return x.MSint32Bool
	}
	return nil
}

func (x *Maps) GetMSint32String() map[int32]string {
	if x != nil {
		return x.MSint32String
	}
	return nil
}

func (x *Maps) GetMSint32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSint32Bytes
	}
	return nil
}

func (x *Maps) GetMSint32E() map[int32]E {
	if x != nil {
		return x.MSint32E
	}
	return nil
}

func (x *Maps) GetMSint32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSint32Leaf
	}
	return nil
}

func (x *Maps) GetMSint64Int32() map[int64]int32 {
	if x != nil {
		return x.MSint64Int32
	}
	return nil
}

func (x *Maps) GetMSint64Int64() map[int64]int64 {
	if x != nil {
		return x.MSint64Int64
	}
	return nil
}

func (x *Maps) GetMSint64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MSint64Uint32
	}
	return nil
}

func (x *Maps) GetMSint64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MSint64Uint64
	}
	return nil
}

func (x *Maps) GetMSint64Sint32() map[int64]int32 {
	if x != nil {
		return x.MSint64Sint32
	}
	return nil
}

func (x *Maps) GetMSint64Sint64() map[int64]int64 {
	if x != nil {
		return x.MSint64Sint64
	}
	return nil
}

func (x *Maps) GetMSint64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MSint64Fixed32
	}
	return nil
}

func (x *Maps) GetMSint64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MSint64Fixed64
	}
	return nil
}

func (x *Maps) GetMSint64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MSint64Sfixed32
	}
	return nil
}

func (x *Maps) GetMSint64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MSint64Sfixed64
	}
	return nil
}

func (x *Maps) GetMSint64Float() map[int64]float32 {
	if x != nil {
		return x.MSint64Float
	}
	return nil
}

func (x *Maps) GetMSint64Double() map[int64]float64 {
	if x != nil {
		return x.MSint64Double
	}
	return nil
}

func (x *Maps) GetMSint64Bool() map[int64]bool {
	if x != nil {
		return x.MSint64Bool
	}
	return nil
}

func (x *Maps) GetMSint64String() map[int64]string {
	if x != nil {
		return x.MSint64String
	}
	return nil
}

func (x *Maps) GetMSint64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSint64Bytes
	}
	return nil
}

func (x *Maps) GetMSint64E() map[int64]E {
	if x != nil {
		return x.MSint64E
	}
	return nil
}

func (x *Maps) GetMSint64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSint64Leaf
	}
	return nil
}

func (x *Maps) GetMFixed32Int32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Int32
	}
	return nil
}

func (x *Maps) GetMFixed32Int64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Int64
	}
	return nil
}

func (x *Maps) GetMFixed32Uint32() map[uint32]uint32 {
	if x != nil {
		return x.MFixed32Uint32
	}
	return nil
}

func (x *Maps) GetMFixed32Uint64() map[uint32]uint64 {
	if x != nil {
		return x.MFixed32Uint64
	}
	return nil
}

func (x *Maps) GetMFixed32Sint32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Sint32
	}
	return nil
}

func (x *Maps) GetMFixed32Sint64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Sint64
	}
	return nil
}

func (x *Maps) GetMFixed32Fixed32() map[uint32]uint32 {
	if x != nil {
		return x.MFixed32Fixed32
	}
	return nil
}

func (x *Maps) GetMFixed32Fixed64() map[uint32]uint64 {
	if x != nil {
		return x.MFixed32Fixed64
	}
	return nil
}

func (x *Maps) GetMFixed32Sfixed32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Sfixed32
	}
	return nil
}

func (x *Maps) GetMFixed32Sfixed64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Sfixed64
	}
	return nil
}

func (x *Maps) GetMFixed32Float() map[uint32]float32 {
	if x != nil {
		return x.MFixed32Float
	}
	return nil
}

func (x *Maps) GetMFixed32Double() map[uint32]float64 {
	if x != nil {
		return x.MFixed32Double
	}
	return nil
}

func (x *Maps) GetMFixed32Bool() map[uint32]bool {
	if x != nil {
		return x.MFixed32Bool
	}
	return nil
}

func (x *Maps) GetMFixed32String() map[uint32]string {
	if x != nil {
		return x.MFixed32String
	}
	return nil
}

func (x *Maps) GetMFixed32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MFixed32Bytes
	}
	return nil
}

func (x *Maps) GetMFixed32E() map[uint32]E {
	if x != nil {
		return x.MFixed32E
	}
	return nil
}

func (x *Maps) GetMFixed32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MFixed32Leaf
	}
	return nil
}

func (x *Maps) GetMFixed64Int32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Int32
	}
	return nil
}

func (x *Maps) GetMFixed64Int64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Int64
	}
	return nil
}

func (x *Maps) GetMFixed64Uint32() map[uint64]uint32 {
	if x != nil {
		return x.MFixed64Uint32
	}
	return nil
}

func (x *Maps) GetMFixed64Uint64() map[uint64]uint64 {
	if x != nil {
		return x.MFixed64Uint64
	}
	return nil
}

func (x *Maps) GetMFixed64Sint32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Sint32
	}
	return nil
}

func (x *Maps) GetMFixed64Sint64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Sint64
	}
	return nil
}

func (x *Maps) GetMFixed64Fixed32() map[uint64]uint32 {
	if x != nil {
		return x.MFixed64Fixed32
	}
	return nil
}

func (x *Maps) GetMFixed64Fixed64() map[uint64]uint64 {
	if x != nil {
		return x.MFixed64Fixed64
	}
	return nil
}

func (x *Maps) GetMFixed64Sfixed32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Sfixed32
	}
	return nil
}

func (x *Maps) GetMFixed64Sfixed64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Sfixed64
	}
	return nil
}

func (x *Maps) GetMFixed64Float() map[uint64]float32 {
	if x != nil {
		return x.MFixed64Float
	}
	return nil
}

func (x *Maps) GetMFixed64Double() map[uint64]float64 {
	if x != nil {
		return x.MFixed64Double
	}
	return nil
}

func (x *Maps) GetMFixed64Bool() map[uint64]bool {
	if x != nil {
		return x.MFixed64Bool
	}
	return nil
}

func (x *Maps) GetMFixed64String() map[uint64]string {
	if x != nil {
		return x.MFixed64String
	}
	return nil
}

func (x *Maps) GetMFixed64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MFixed64Bytes
	}
	return nil
}

func (x *Maps) GetMFixed64E() map[uint64]E {
	if x != nil {
		return x.MFixed64E
	}
	return nil
}

func (x *Maps) GetMFixed64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MFixed64Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed32Int32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Int32
	}
	return nil
}

func (x *Maps) GetMSfixed32Int64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Int64
	}
	return nil
}

func (x *Maps) GetMSfixed32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MSfixed32Uint32
	}
	return nil
}

func (x *Maps) GetMSfixed32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MSfixed32Uint64
	}
	return nil
}

func (x *Maps) GetMSfixed32Sint32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Sint32
	}
	return nil
}

func (x *Maps) GetMSfixed32Sint64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Sint64
	}
	return nil
}

func (x *Maps) GetMSfixed32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MSfixed32Fixed32
	}
	return nil
}

func (x *Maps) GetMSfixed32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MSfixed32Fixed64
	}
	return nil
}

func (x *Maps) GetMSfixed32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Sfixed32
	}
	return nil
}

func (x *Maps) GetMSfixed32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Sfixed64
	}
	return nil
}

func (x *Maps) GetMSfixed32Float() map[int32]float32 {
	if x != nil {
		return x.MSfixed32Float
	}
	return nil
}

func (x *Maps) GetMSfixed32Double() map[int32]float64 {
	if x != nil {
		return x.MSfixed32Double
	}
	return nil
}

func (x *Maps) GetMSfixed32Bool() map[int32]bool {
	if x != nil {
		return x.MSfixed32Bool
	}
	return nil
}

func (x *Maps) GetMSfixed32String() map[int32]string {
	if x != nil {
		return x.MSfixed32String
	}
	return nil
}

func (x *Maps) GetMSfixed32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSfixed32Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed32E() map[int32]E {
	if x != nil {
		return x.MSfixed32E
	}
	return nil
}

func (x *Maps) GetMSfixed32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSfixed32Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed64Int32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Int32
	}
	return nil
}

func (x *Maps) GetMSfixed64Int64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Int64
	}
	return nil
}

func (x *Maps) GetMSfixed64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MSfixed64Uint32
	}
	return nil
}

func (x *Maps) GetMSfixed64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MSfixed64Uint64
	}
	return nil
}

func (x *Maps) GetMSfixed64Sint32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Sint32
	}
	return nil
}

func (x *Maps) GetMSfixed64Sint64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Sint64
	}
	return nil
}

func (x *Maps) GetMSfixed64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MSfixed64Fixed32
	}
	return nil
}

func (x *Maps) GetMSfixed64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MSfixed64Fixed64
	}
	return nil
}

func (x *Maps) GetMSfixed64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Sfixed32
	}
	return nil
}

func (x *Maps) GetMSfixed64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Sfixed64
	}
	return nil
}

func (x *Maps) GetMSfixed64Float() map[int64]float32 {
	if x != nil {
		return x.MSfixed64Float
	}
	return nil
}

func (x *Maps) GetMSfixed64Double() map[int64]float64 {
	if x != nil {
		return x.MSfixed64Double
	}
	return nil
}

func (x *Maps) GetMSfixed64Bool() map[int64]bool {
	if x != nil {
		return x.MSfixed64Bool
	}
	return nil
}

func (x *Maps) GetMSfixed64String() map[int64]string {
	if x != nil {
		return x.MSfixed64String
	}
	return nil
}

func (x *Maps) GetMSfixed64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSfixed64Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed64E() map[int64]E {
	if x != nil {
		return x.MSfixed64E
	}
	return nil
}

func (x *Maps) GetMSfixed64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSfixed64Leaf
	}
	return nil
}

func (x *Maps) GetMBoolInt32() map[bool]int32 {
	if x != nil {
		return x.MBoolInt32
	}
	return nil
}

func (x *Maps) GetMBoolInt64() map[bool]int64 {
	if x != nil {
		return x.MBoolInt64
	}
	return nil
}

func (x *Maps) GetMBoolUint32() map[bool]uint32 {
	if x != nil {
		return x.MBoolUint32
	}
	return nil
}

func (x *Maps) GetMBoolUint64() map[bool]uint64 {
	if x != nil {
		return x.MBoolUint64
	}
	return nil
}

func (x *Maps) GetMBoolSint32() map[bool]int32 {
	if x != nil {
		return x.MBoolSint32
	}
	return nil
}

func (x *Maps) GetMBoolSint64() map[bool]int64 {
	if x != nil {
		return x.MBoolSint64
	}
	return nil
}

func (x *Maps) GetMBoolFixed32() map[bool]uint32 {
	if x != nil {
		return x.MBoolFixed32
	}
	return nil
}

func (x *Maps) GetMBoolFixed64() map[bool]uint64 {
	if x != nil {
		return x.MBoolFixed64
	}
	return nil
}

func (x *Maps) GetMBoolSfixed32() map[bool]int32 {
	if x != nil {
		return x.MBoolSfixed32
	}
	return nil
}

func (x *Maps) GetMBoolSfixed64() map[bool]int64 {
	if x != nil {
		return x.MBoolSfixed64
	}
	return nil
}

func (x *Maps) GetMBoolFloat() map[bool]float32 {
	if x != nil {
		return x.MBoolFloat
	}
	return nil
}

func (x *Maps) GetMBoolDouble() map[bool]float64 {
	if x != nil {
		return x.MBoolDouble
	}
	return nil
}

func (x *Maps) GetMBoolBool() map[bool]bool {
	if x != nil {
		return x.MBoolBool
	}
	return nil
}

func (x *Maps) GetMBoolString() map[bool]string {
	if x != nil {
		return x.MBoolString
	}
	return nil
}

func (x *Maps) GetMBoolBytes() map[bool][]byte {
	if x != nil {
		return x.MBoolBytes
	}
	return nil
}

func (x *Maps) GetMBoolE() map[bool]E {
	if x != nil {
		return x.MBoolE
	}
	return nil
}

func (x *Maps) GetMBoolLeaf() map[bool]*Leaf {
	if x != nil {
		return x.MBoolLeaf
	}
	return nil
}

func (x *Maps) GetMStringInt32() map[string]int32 {
	if x != nil {
		return x.MStringInt32
	}
	return nil
}

func (x *Maps) GetMStringInt64() map[string]int64 {
	if x != nil {
		return x.MStringInt64
	}
	return nil
}

func (x *Maps) GetMStringUint32() map[string]uint32 {
	if x != nil {
		return x.MStringUint32
	}
	return nil
}

func (x *Maps) GetMStringUint64() map[string]uint64 {
	if x != nil {
		return x.MStringUint64
	}
	return nil
}

func (x *Maps) GetMStringSint32() map[string]int32 {
	if x != nil {
		return x.MStringSint32
	}
	return nil
}

func (x *Maps) GetMStringSint64() map[string]int64 {
	if x != nil {
		return x.MStringSint64
	}
	return nil
}

func (x *Maps) GetMStringFixed32() map[string]uint32 {
	if x != nil {
		return x.MStringFixed32
	}
	return nil
}

func (x *Maps) GetMStringFixed64() map[string]uint64 {
	if x != nil {
		return x.MStringFixed64
	}
	return nil
}

func (x *Maps) GetMStringSfixed32() map[string]int32 {
	if x != nil {
		return x.MStringSfixed32
	}
	return nil
}

func (x *Maps) GetMStringSfixed64() map[string]int64 {
	if x != nil {
		return x.MStringSfixed64
	}
	return nil
}

func (x *Maps) GetMStringFloat() map[string]float32 {
	if x != nil {
		return x.MStringFloat
	}
	return nil
}

func (x *Maps) GetMStringDouble() map[string]float64 {
	if x != nil {
		return x.MStringDouble
	}
	return nil
}

func (x *Maps) GetMStringBool() map[string]bool {
	if x != nil {
		return x.MStringBool
	}
	return nil
}

func (x *Maps) GetMStringString() map[string]string {
	if x != nil {
		return x.MStringString
	}
	return nil
}

func (x *Maps) GetMStringBytes() map[string][]byte {
	if x != nil {
		return x.MStringBytes
	}
	return nil
}

func (x *Maps) GetMStringE() map[string]E {
	if x != nil {
		return x.MStringE
	}
	return nil
}

func (x *Maps) GetMStringLeaf() map[string]*Leaf {
	if x != nil {
		return x.MStringLeaf
	}
	return nil
}

type Tree struct {
	state protoimpl.MessageState `protogen:"open.v1"`
	L     *Tree                  `protobuf:"bytes,1,opt,name=l,proto3" json:"l,omitempty"`
	R     []*Tree                `protobuf:"bytes,2,rep,name=r,proto3" json:"r,omitempty"`
	M32   map[int32]*Tree        `protobuf:"bytes,3,rep,name=m32,proto3" json:"m32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64   map[uint64]*Tree       `protobuf:"bytes,4,rep,name=m64,proto3" json:"m64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Ms    map[string]*Tree       `protobuf:"bytes,5,rep,name=ms,proto3" json:"ms,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mb    map[bool]*Tree         `protobuf:"bytes,6,rep,name=mb,proto3" json:"mb,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are valid to be assigned to O:
	//
	//	*Tree_X
	//	*Tree_Leaf
	O             isTree_O `protobuf_oneof:"o"`
	V             int32    `protobuf:"varint,9,opt,name=v,proto3" json:"v,omitempty"`
	unknownFields protoimpl.UnknownFields
	sizeCache     protoimpl.SizeCache
}

func (x *Tree) Reset() {
	*x = Tree{}
	mi := &file_p3_proto_msgTypes[3]
	ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
	ms.StoreMessageInfo(mi)
}

func (x *Tree) String() string {
	return protoimpl.X.MessageStringOf(x)
}

func (*Tree) ProtoMessage() {}

func (x *Tree) ProtoReflect() protoreflect.Message {
	mi := &file_p3_proto_msgTypes[3]
	if x != nil {
		ms := protoimpl.X.MessageStateOf(protoimpl.Pointer(x))
		if ms.LoadMessageInfo() == nil {
			ms.StoreMessageInfo(mi)
		}
		return ms
	}
	return mi.MessageOf(x)
}

// Deprecated: Use Tree.ProtoReflect.Descriptor instead.
func (*Tree) Descriptor() ([]byte, []int) {
	return file_p3_proto_rawDescGZIP(), []int{3}
}

func (x *Tree) GetL() *Tree {
	if x != nil {
		return x.L
	}
	return nil
}

func (x *Tree) GetR() []*Tree {
	if x != nil {
		return x.R
	}
	return nil
}

func (x *Tree) GetM32() map[int32]*Tree {
	if x != nil {
		return x.M32
	}
	return nil
}

func (x *Tree) GetM64() map[uint64]*Tree {
	if x != nil {
		return x.M64
	}
	return nil
}

func (x *Tree) GetMs() map[string]*Tree {
	if x != nil {
		return x.Ms
	}
	return nil
}

func (x *Tree) GetMb() map[bool]*Tree {
	if x != nil {
		return x.Mb
	}
	return nil
}

func (x *Tree) GetO() isTree_O {
	if x != nil {
		return x.O
	}
	return nil
}

func (x *Tree) GetX() *Tree {
	if x != nil {
		if x, ok := x.O.(*Tree_X); ok {
			return x.X
		}
	}
	return nil
}

func (x *Tree) GetLeaf() int32 {
	if x != nil {
		if x, ok := x.O.(*Tree_Leaf); ok {
			return x.Leaf
		}
	}
	return 0
}

func (x *Tree) GetV() int32 {
	if x != nil {
		return x.V
	}
	return 0
}

type isTree_O interface {
	isTree_O()
}

type Tree_X struct {
	X *Tree `protobuf:"bytes,7,opt,name=x,proto3,oneof"`
}

type Tree_Leaf struct {
	Leaf int32 `protobuf:"varint,8,opt,name=leaf,proto3,oneof"`
}

func (*Tree_X) isTree_O() {}

func (*Tree_Leaf) isTree_O() {}

var File_p3_proto protoreflect.FileDescriptor

const file_p3_proto_rawDesc = "" +
	"\n" +
	"\bp3.proto\x12\x04mcp3\"0\n" +
	"\x04Leaf\x12\f\n" +
	"\x01a\x18\x01 \x01(\x05R\x01a\x12\f\n" +
	"\x01b\x18\x02 \x01(\tR\x01b\x12\f\n" +
	"\x01c\x18\x03 \x03(\x04R\x01c\"\xa8\x17\n" +
	"\x03All\x12\x17\n" +
	"\ai_int32\x18\x01 \x01(\x05R\x06iInt32\x12\x17\n" +
	"\ai_int64\x18\x02 \x01(\x03R\x06iInt64\x12\x19\n" +
	"\bi_uint32\x18\x03 \x01(\rR\aiUint32\x12\x19\n" +
	"\bi_uint64\x18\x04 \x01(\x04R\aiUint64\x12\x19\n" +
	"\bi_sint32\x18\x05 \x01(\x11R\aiSint32\x12\x19\n" +
	"\bi_sint64\x18\x06 \x01(\x12R\aiSint64\x12\x1b\n" +
	"\ti_fixed32\x18\a \x01(\aR\biFixed32\x12\x1b\n" +
	"\ti_fixed64\x18\b \x01(\x06R\biFixed64\x12\x1d\n" +
	"\n" +
	"i_sfixed32\x18\t \x01(\x0fR\tiSfixed32\x12\x1d\n" +
	"\n" +
	"i_sfixed64\x18\n" +
	" \x01(\x10R\tiSfixed64\x12\x17\n" +
	"\ai_float\x18\v \x01(\x02R\x06iFloat\x12\x19\n" +
	"\bi_double\x18\f \x01(\x01R\aiDouble\x12\x15\n" +
	"\x06i_bool\x18\r \x01(\bR\x05iBool\x12\x19\n" +
	"\bi_string\x18\x0e \x01(\tR\aiString\x12\x17\n" +
	"\ai_bytes\x18\x0f \x01(\fR\x06iBytes\x12\x18\n" +
	"\x03i_e\x18\x10 \x01(\x0e2\a.mcp3.ER\x02iE\x12\x1c\n" +
	"\ao_int32\x18\x11 \x01(\x05H\x02R\x06oInt32\x88\x01\x01\x12\x1c\n" +
	"\ao_int64\x18\x12 \x01(\x03H\x03R\x06oInt64\x88\x01\x01\x12\x1e\n" +
	"\bo_uint32\x18\x13 \x01(\rH\x04R\aoUint32\x88\x01\x01\x12\x1e\n" +
	"\bo_uint64\x18\x14 \x01(\x04H\x05R\aoUint64\x88\x01\x01\x12\x1e\n" +
	"\bo_sint32\x18\x15 \x01(\x11H\x06R\aoSint32\x88\x01\x01\x12\x1e\n" +
	"\bo_sint64\x18\x16 \x01(\x12H\aR\aoSint64\x88\x01\x01\x12 \n" +
	"\to_fixed32\x18\x17 \x01(\aH\bR\boFixed32\x88\x01\x01\x12 \n" +
	"\to_fixed64\x18\x18 \x01(\x06H\tR\boFixed64\x88\x01\x01\x12\"\n" +
	"\n" +
	"o_sfixed32\x18\x19 \x01(\x0fH\n" +
	"R\toSfixed32\x88\x01\x01\x12\"\n" +
	"\n" +
	"o_sfixed64\x18\x1a \x01(\x10H\vR\toSfixed64\x88\x01\x01\x12\x1c\n" +
	"\ao_float\x18\x1b \x01(\x02H\fR\x06oFloat\x88\x01\x01\x12\x1e\n" +
	"\bo_double\x18\x1c \x01(\x01H\rR\aoDouble\x88\x01\x01\x12\x1a\n" +
	"\x06o_bool\x18\x1d \x01(\bH\x0eR\x05oBool\x88\x01\x01\x12\x1e\n" +
	"\bo_string\x18\x1e \x01(\tH\x0fR\aoString\x88\x01\x01\x12\x1c\n" +
	"\ao_bytes\x18\x1f \x01(\fH\x10R\x06oBytes\x88\x01\x01\x12\x1d\n" +
	"\x03o_e\x18  \x01(\x0e2\a.mcp3.EH\x11R\x02oE\x88\x01\x01\x12\x17\n" +
	"\ar_int32\x18! \x03(\x05R\x06rInt32\x12\x17\n" +
	"\ar_int64\x18\" \x03(\x03R\x06rInt64\x12\x19\n" +
	"\br_uint32\x18# \x03(\rR\arUint32\x12\x19\n" +
	"\br_uint64\x18$ \x03(\x04R\arUint64\x12\x19\n" +
	"\br_sint32\x18% \x03(\x11R\arSint32\x12\x19\n" +
	"\br_sint64\x18& \x03(\x12R\arSint64\x12\x1b\n" +
	"\tr_fixed32\x18' \x03(\aR\brFixed32\x12\x1b\n" +
	"\tr_fixed64\x18( \x03(\x06R\brFixed64\x12\x1d\n" +
	"\n" +
	"r_sfixed32\x18) \x03(\x0fR\trSfixed32\x12\x1d\n" +
	"\n" +
	"r_sfixed64\x18* \x03(\x10R\trSfixed64\x12\x17\n" +
	"\ar_float\x18+ \x03(\x02R\x06rFloat\x12\x19\n" +
	"\br_double\x18, \x03(\x01R\arDouble\x12\x15\n" +
	"\x06r_bool\x18- \x03(\bR\x05rBool\x12\x19\n" +
	"\br_string\x18. \x03(\tR\arString\x12\x17\n" +
	"\ar_bytes\x18/ \x03(\fR\x06rBytes\x12\x18\n" +
	"\x03r_e\x180 \x03(\x0e2\a.mcp3.ER\x02rE\x12\x1b\n" +
	"\au_int32\x181 \x03(\x05B\x02\x10\x00R\x06uInt32\x12\x1b\n" +
	"\au_int64\x182 \x03(\x03B\x02\x10\x00R\x06uInt64\x12\x1d\n" +
	"\bu_uint32\x183 \x03(\rB\x02\x10\x00R\auUint32\x12\x1d\n" +
	"\bu_uint64\x184 \x03(\x04B\x02\x10\x00R\auUint64\x12\x1d\n" +
	"\bu_sint32\x185 \x03(\x11B\x02\x10\x00R\auSint32\x12\x1d\n" +
	"\bu_sint64\x186 \x03(\x12B\x02\x10\x00R\auSint64\x12\x1f\n" +
	"\tu_fixed32\x187 \x03(\aB\x02\x10\x00R\buFixed32\x12\x1f\n" +
	"\tu_fixed64\x188 \x03(\x06B\x02\x10\x00R\buFixed64\x12!\n" +
	"\n" +
	"u_sfixed32\x189 \x03(\x0fB\x02\x10\x00R\tuSfixed32\x12!\n" +
	"\n" +
	"u_sfixed64\x18: \x03(\x10B\x02\x10\x00R\tuSfixed64\x12\x1b\n" +
	"\au_float\x18; \x03(\x02B\x02\x10\x00R\x06uFloat\x12\x1d\n" +
	"\bu_double\x18< \x03(\x01B\x02\x10\x00R\auDouble\x12\x19\n" +
	"\x06u_bool\x18= \x03(\bB\x02\x10\x00R\x05uBool\x12\x1c\n" +
	"\x03u_e\x18> \x03(\x0e2\a.mcp3.EB\x02\x10\x00R\x02uE\x12\x18\n" +
	"\x01m\x18? \x01(\v2\n" +
	".mcp3.LeafR\x01m\x12\x1a\n" +
	"\x02rm\x18@ \x03(\v2\n" +
	".mcp3.LeafR\x02rm\x12\x1d\n" +
	"\x04self\x18A \x01(\v2\t.mcp3.AllR\x04self\x12\x1d\n" +
	"\x04kids\x18B \x03(\v2\t.mcp3.AllR\x04kids\x12*\n" +
	"\x05named\x18C \x03(\v2\x14.mcp3.All.NamedEntryR\x05named\x12'\n" +
	"\x04byid\x18D \x03(\v2\x13.mcp3.All.ByidEntryR\x04byid\x12\x1a\n" +
	"\ax_int32\x18\x84\a \x01(\x05H\x00R\x06xInt32\x12\x1a\n" +
	"\ax_int64\x18\x85\a \x01(\x03H\x00R\x06xInt64\x12\x1c\n" +
	"\bx_uint32\x18\x86\a \x01(\rH\x00R\axUint32\x12\x1c\n" +
	"\bx_uint64\x18\x87\a \x01(\x04H\x00R\axUint64\x12\x1c\n" +
	"\bx_sint32\x18\x88\a \x01(\x11H\x00R\axSint32\x12\x1c\n" +
	"\bx_sint64\x18\x89\a \x01(\x12H\x00R\axSint64\x12\x1e\n" +
	"\tx_fixed32\x18\x8a\a \x01(\aH\x00R\bxFixed32\x12\x1e\n" +
	"\tx_fixed64\x18\x8b\a \x01(\x06H\x00R\bxFixed64\x12 \n" +
	"\n" +
	"x_sfixed32\x18\x8c\a \x01(\x0fH\x00R\txSfixed32\x12 \n" +
	"\n" +
	"x_sfixed64\x18\x8d\a \x01(\x10H\x00R\txSfixed64\x12\x1a\n" +
	"\ax_float\x18\x8e\a \x01(\x02H\x00R\x06xFloat\x12\x1c\n" +
	"\bx_double\x18\x8f\a \x01(\x01H\x00R\axDouble\x12\x18\n" +
	"\x06x_bool\x18\x90\a \x01(\bH\x00R\x05xBool\x12\x1c\n" +
	"\bx_string\x18\x91\a \x01(\tH\x00R\axString\x12\x1a\n" +
	"\ax_bytes\x18\x92\a \x01(\fH\x00R\x06xBytes\x12\x1b\n" +
	"\x03x_e\x18\x93\a \x01(\x0e2\a.mcp3.EH\x00R\x02xE\x12\x1e\n" +
	"\x03x_m\x18\x94\a \x01(\v2\n" +
	".mcp3.LeafH\x00R\x02xM\x12#\n" +
	"\x06x_self\x18\x95\a \x01(\v2\t.mcp3.AllH\x00R\x05xSelf\x12\x12\n" +
	"\x03v_s\x18\xcc\b \x01(\tH\x01R\x02vS\x12\x1e\n" +
	"\x03v_m\x18\xcd\b \x01(\v2\n" +
	".mcp3.LeafH\x01R\x02vM\x12\x12\n" +
	"\x03v_b\x18\xce\b \x01(\bH\x01R\x02vB\x1aC\n" +
	"\n" +
	"NamedEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x1f\n" +
	"\x05value\x18\x02 \x01(\v2\t.mcp3.AllR\x05value:\x028\x01\x1aB\n" +
	"\tByidEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x1f\n" +
	"\x05value\x18\x02 \x01(\v2\t.mcp3.AllR\x05value:\x028\x01B\x03\n" +
	"\x01uB\x03\n" +
	"\x01vB\n" +
	"\n" +
	"\b_o_int32B\n" +
	"\n" +
	"\b_o_int64B\v\n" +
	"\t_o_uint32B\v\n" +
	"\t_o_uint64B\v\n" +
	"\t_o_sint32B\v\n" +
	"\t_o_sint64B\f\n" +
	"\n" +
	"_o_fixed32B\f\n" +
	"\n" +
	"_o_fixed64B\r\n" +
	"\v_o_sfixed32B\r\n" +
	"\v_o_sfixed64B\n" +
	"\n" +
	"\b_o_floatB\v\n" +
	"\t_o_doubleB\t\n" +
	"\a_o_boolB\v\n" +
	"\t_o_stringB\n" +
	"\n" +
	"\b_o_bytesB\x06\n" +
	"\x04_o_e\"\xb3\xdb\x01\n" +
	"\x04Maps\x12?\n" +
	"\rm_int32_int32\x18\x01 \x03(\v2\x1b.mcp3.Maps.MInt32Int32EntryR\vmInt32Int32\x12?\n" +
	"\rm_int32_int64\x18\x02 \x03(\v2\x1b.mcp3.Maps.MInt32Int64EntryR\vmInt32Int64\x12B\n" +
	"\x0em_int32_uint32\x18\x03 \x03(\v2\x1c.mcp3.Maps.MInt32Uint32EntryR\fmInt32Uint32\x12B\n" +
	"\x0em_int32_uint64\x18\x04 \x03(\v2\x1c.mcp3.Maps.MInt32Uint64EntryR\fmInt32Uint64\x12B\n" +
	"\x0em_int32_sint32\x18\x05 \x03(\v2\x1c.mcp3.Maps.MInt32Sint32EntryR\fmInt32Sint32\x12B\n" +
	"\x0em_int32_sint64\x18\x06 \x03(\v2\x1c.mcp3.Maps.MInt32Sint64EntryR\fmInt32Sint64\x12E\n" +
	"\x0fm_int32_fixed32\x18\a \x03(\v2\x1d.mcp3.Maps.MInt32Fixed32EntryR\rmInt32Fixed32\x12E\n" +
	"\x0fm_int32_fixed64\x18\b \x03(\v2\x1d.mcp3.Maps.MInt32Fixed64EntryR\rmInt32Fixed64\x12H\n" +
	"\x10m_int32_sfixed32\x18\t \x03(\v2\x1e.mcp3.Maps.MInt32Sfixed32EntryR\x0emInt32Sfixed32\x12H\n" +
	"\x10m_int32_sfixed64\x18\n" +
	" \x03(\v2\x1e.mcp3.Maps.MInt32Sfixed64EntryR\x0emInt32Sfixed64\x12?\n" +
	"\rm_int32_float\x18\v \x03(\v2\x1b.mcp3.Maps.MInt32FloatEntryR\vmInt32Float\x12B\n" +
	"\x0em_int32_double\x18\f \x03(\v2\x1c.mcp3.Maps.MInt32DoubleEntryR\fmInt32Double\x12<\n" +
	"\fm_int32_bool\x18\r \x03(\v2\x1a.mcp3.Maps.MInt32BoolEntryR\n" +
	"mInt32Bool\x12B\n" +
	"\x0em_int32_string\x18\x0e \x03(\v2\x1c.mcp3.Maps.MInt32StringEntryR\fmInt32String\x12?\n" +
	"\rm_int32_bytes\x18\x0f \x03(\v2\x1b.mcp3.Maps.MInt32BytesEntryR\vmInt32Bytes\x123\n" +
	"\tm_int32_e\x18\x10 \x03(\v2\x17.mcp3.Maps.MInt32EEntryR\amInt32E\x12<\n" +
	"\fm_int32_leaf\x18\x11 \x03(\v2\x1a.mcp3.Maps.MInt32LeafEntryR\n" +
	"mInt32Leaf\x12?\n" +
	"\rm_int64_int32\x18\x12 \x03(\v2\x1b.mcp3.Maps.MInt64Int32EntryR\vmInt64Int32\x12?\n" +
	"\rm_int64_int64\x18\x13 \x03(\v2\x1b.mcp3.Maps.MInt64Int64EntryR\vmInt64Int64\x12B\n" +
	"\x0em_int64_uint32\x18\x14 \x03(\v2\x1c.mcp3.Maps.MInt64Uint32EntryR\fmInt64Uint32\x12B\n" +
	"\x0em_int64_uint64\x18\x15 \x03(\v2\x1c.mcp3.Maps.MInt64Uint64EntryR\fmInt64Uint64\x12B\n" +
	"\x0em_int64_sint32\x18\x16 \x03(\v2\x1c.mcp3.Maps.MInt64Sint32EntryR\fmInt64Sint32\x12B\n" +
	"\x0em_int64_sint64\x18\x17 \x03(\v2\x1c.mcp3.Maps.MInt64Sint64EntryR\fmInt64Sint64\x12E\n" +
	"\x0fm_int64_fixed32\x18\x18 \x03(\v2\x1d.mcp3.Maps.MInt64Fixed32EntryR\rmInt64Fixed32\x12E\n" +
	"\x0fm_int64_fixed64\x18\x19 \x03(\v2\x1d.mcp3.Maps.MInt64Fixed64EntryR\rmInt64Fixed64\x12H\n" +
	"\x10m_int64_sfixed32\x18\x1a \x03(\v2\x1e.mcp3.Maps.MInt64Sfixed32EntryR\x0emInt64Sfixed32\x12H\n" +
	"\x10m_int64_sfixed64\x18\x1b \x03(\v2\x1e.mcp3.Maps.MInt64Sfixed64EntryR\x0emInt64Sfixed64\x12?\n" +
	"\rm_int64_float\x18\x1c \x03(\v2\x1b.mcp3.Maps.MInt64FloatEntryR\vmInt64Float\x12B\n" +
	"\x0em_int64_double\x18\x1d \x03(\v2\x1c.mcp3.Maps.MInt64DoubleEntryR\fmInt64Double\x12<\n" +
	"\fm_int64_bool\x18\x1e \x03(\v2\x1a.mcp3.Maps.MInt64BoolEntryR\n" +
	"mInt64Bool\x12B\n" +
	"\x0em_int64_string\x18\x1f \x03(\v2\x1c.mcp3.Maps.MInt64StringEntryR\fmInt64String\x12?\n" +
	"\rm_int64_bytes\x18  \x03(\v2\x1b.mcp3.Maps.MInt64BytesEntryR\vmInt64Bytes\x123\n" +
	"\tm_int64_e\x18! \x03(\v2\x17.mcp3.Maps.MInt64EEntryR\amInt64E\x12<\n" +
	"\fm_int64_leaf\x18\" \x03(\v2\x1a.mcp3.Maps.MInt64LeafEntryR\n" +
	"mInt64Leaf\x12B\n" +
	"\x0em_uint32_int32\x18# \x03(\v2\x1c.mcp3.Maps.MUint32Int32EntryR\fmUint32Int32\x12B\n" +
	"\x0em_uint32_int64\x18$ \x03(\v2\x1c.mcp3.Maps.MUint32Int64EntryR\fmUint32Int64\x12E\n" +
	"\x0fm_uint32_uint32\x18% \x03(\v2\x1d.mcp3.Maps.MUint32Uint32EntryR\rmUint32Uint32\x12E\n" +
	"\x0fm_uint32_uint64\x18& \x03(\v2\x1d.mcp3.Maps.MUint32Uint64EntryR\rmUint32Uint64\x12E\n" +
	"\x0fm_uint32_sint32\x18' \x03(\v2\x1d.mcp3.Maps.MUint32Sint32EntryR\rmUint32Sint32\x12E\n" +
	"\x0fm_uint32_sint64\x18( \x03(\v2\x1d.mcp3.Maps.MUint32Sint64EntryR\rmUint32Sint64\x12H\n" +
	"\x10m_uint32_fixed32\x18) \x03(\v2\x1e.mcp3.Maps.MUint32Fixed32EntryR\x0emUint32Fixed32\x12H\n" +
	"\x10m_uint32_fixed64\x18* \x03(\v2\x1e.mcp3.Maps.MUint32Fixed64EntryR\x0emUint32Fixed64\x12K\n" +
	"\x11m_uint32_sfixed32\x18+ \x03(\v2\x1f.mcp3.Maps.MUint32Sfixed32EntryR\x0fmUint32Sfixed32\x12K\n" +
	"\x11m_uint32_sfixed64\x18, \x03(\v2\x1f.mcp3.Maps.MUint32Sfixed64EntryR\x0fmUint32Sfixed64\x12B\n" +
	"\x0em_uint32_float\x18- \x03(\v2\x1c.mcp3.Maps.MUint32FloatEntryR\fmUint32Float\x12E\n" +
	"\x0fm_uint32_double\x18. \x03(\v2\x1d.mcp3.Maps.MUint32DoubleEntryR\rmUint32Double\x12?\n" +
	"\rm_uint32_bool\x18/ \x03(\v2\x1b.mcp3.Maps.MUint32BoolEntryR\vmUint32Bool\x12E\n" +
	"\x0fm_uint32_string\x180 \x03(\v2\x1d.mcp3.Maps.MUint32StringEntryR\rmUint32String\x12B\n" +
	"\x0em_uint32_bytes\x181 \x03(\v2\x1c.mcp3.Maps.MUint32BytesEntryR\fmUint32Bytes\x126\n" +
	"\n" +
	"m_uint32_e\x182 \x03(\v2\x18.mcp3.Maps.MUint32EEntryR\bmUint32E\x12?\n" +
	"\rm_uint32_leaf\x183 \x03(\v2\x1b.mcp3.Maps.MUint32LeafEntryR\vmUint32Leaf\x12B\n" +
	"\x0em_uint64_int32\x184 \x03(\v2\x1c.mcp3.Maps.MUint64Int32EntryR\fmUint64Int32\x12B\n" +
	"\x0em_uint64_int64\x185 \x03(\v2\x1c.mcp3.Maps.MUint64Int64EntryR\fmUint64Int64\x12E\n" +
	"\x0fm_uint64_uint32\x186 \x03(\v2\x1d.mcp3.Maps.MUint64Uint32EntryR\rmUint64Uint32\x12E\n" +
	"\x0fm_uint64_uint64\x187 \x03(\v2\x1d.mcp3.Maps.MUint64Uint64EntryR\rmUint64Uint64\x12E\n" +
	"\x0fm_uint64_sint32\x188 \x03(\v2\x1d.mcp3.Maps.MUint64Sint32EntryR\rmUint64Sint32\x12E\n" +
	"\x0fm_uint64_sint64\x189 \x03(\v2\x1d.mcp3.Maps.MUint64Sint64EntryR\rmUint64Sint64\x12H\n" +
	"\x10m_uint64_fixed32\x18: \x03(\v2\x1e.mcp3.Maps.MUint64Fixed32EntryR\x0emUint64Fixed32\x12H\n" +
	"\x10m_uint64_fixed64\x18; \x03(\v2\x1e.mcp3.Maps.MUint64Fixed64EntryR\x0emUint64Fixed64\x12K\n" +
	"\x11m_uint64_sfixed32\x18< \x03(\v2\x1f.mcp3.Maps.MUint64Sfixed32EntryR\x0fmUint64Sfixed32\x12K\n" +
	"\x11m_uint64_sfixed64\x18= \x03(\v2\x1f.mcp3.Maps.MUint64Sfixed64EntryR\x0fmUint64Sfixed64\x12B\n" +
	"\x0em_uint64_float\x18> \x03(\v2\x1c.mcp3.Maps.MUint64FloatEntryR\fmUint64Float\x12E\n" +
	"\x0fm_uint64_double\x18? \x03(\v2\x1d.mcp3.Maps.MUint64DoubleEntryR\rmUint64Double\x12?\n" +
	"\rm_uint64_bool\x18@ \x03(\v2\x1b.mcp3.Maps.MUint64BoolEntryR\vmUint64Bool\x12E\n" +
	"\x0fm_uint64_string\x18A \x03(\v2\x1d.mcp3.Maps.MUint64StringEntryR\rmUint64String\x12B\n" +
	"\x0em_uint64_bytes\x18B \x03(\v2\x1c.mcp3.Maps.MUint64BytesEntryR\fmUint64Bytes\x126\n" +
	"\n" +
	"m_uint64_e\x18C \x03(\v2\x18.mcp3.Maps.MUint64EEntryR\bmUint64E\x12?\n" +
	"\rm_uint64_leaf\x18D \x03(\v2\x1b.mcp3.Maps.MUint64LeafEntryR\vmUint64Leaf\x12B\n" +
	"\x0em_sint32_int32\x18E \x03(\v2\x1c.mcp3.Maps.MSint32Int32EntryR\fmSint32Int32\x12B\n" +
	"\x0em_sint32_int64\x18F \x03(\v2\x1c.mcp3.Maps.MSint32Int64EntryR\fmSint32Int64\x12E\n" +
	"\x0fm_sint32_uint32\x18G \x03(\v2\x1d.mcp3.Maps.MSint32Uint32EntryR\rmSint32Uint32\x12E\n" +
	"\x0fm_sint32_uint64\x18H \x03(\v2\x1d.mcp3.Maps.MSint32Uint64EntryR\rmSint32Uint64\x12E\n" +
	"\x0fm_sint32_sint32\x18I \x03(\v2\x1d.mcp3.Maps.MSint32Sint32EntryR\rmSint32Sint32\x12E\n" +
	"\x0fm_sint32_sint64\x18J \x03(\v2\x1d.mcp3.Maps.MSint32Sint64EntryR\rmSint32Sint64\x12H\n" +
	"\x10m_sint32_fixed32\x18K \x03(\v2\x1e.mcp3.Maps.MSint32Fixed32EntryR\x0emSint32Fixed32\x12H\n" +
	"\x10m_sint32_fixed64\x18L \x03(\v2\x1e.mcp3.Maps.MSint32Fixed64EntryR\x0emSint32Fixed64\x12K\n" +
	"\x11m_sint32_sfixed32\x18M \x03(\v2\x1f.mcp3.Maps.MSint32Sfixed32EntryR\x0fmSint32Sfixed32\x12K\n" +
	"\x11m_sint32_sfixed64\x18N \x03(\v2\x1f.mcp3.Maps.MSint32Sfixed64EntryR\x0fmSint32Sfixed64\x12B\n" +
	"\x0em_sint32_float\x18O \x03(\v2\x1c.mcp3.Maps.MSint32FloatEntryR\fmSint32Float\x12E\n" +
	"\x0fm_sint32_double\x18P \x03(\v2\x1d.mcp3.Maps.MSint32DoubleEntryR\rmSint32Double\x12?\n" +
	"\rm_sint32_bool\x18Q \x03(\v2\x1b.mcp3.Maps.MSint32BoolEntryR\vmSint32Bool\x12E\n" +
	"\x0fm_sint32_string\x18R \x03(\v2\x1d.mcp3.Maps.MSint32StringEntryR\rmSint32String\x12B\n" +
	"\x0em_sint32_bytes\x18S \x03(\v2\x1c.mcp3.Maps.MSint32BytesEntryR\fmSint32Bytes\x126\n" +
	"\n" +
	"m_sint32_e\x18T \x03(\v2\x18.mcp3.Maps.MSint32EEntryR\bmSint32E\x12?\n" +
	"\rm_sint32_leaf\x18U \x03(\v2\x1b.mcp3.Maps.MSint32LeafEntryR\vmSint32Leaf\x12B\n" +
	"\x0em_sint64_int32\x18V \x03(\v2\x1c.mcp3.Maps.MSint64Int32EntryR\fmSint64Int32\x12B\n" +
	"\x0em_sint64_int64\x18W \x03(\v2\x1c.mcp3.Maps.MSint64Int64EntryR\fmSint64Int64\x12E\n" +
	"\x0fm_sint64_uint32\x18X \x03(\v2\x1d.mcp3.Maps.MSint64Uint32EntryR\rmSint64Uint32\x12E\n" +
	"\x0fm_sint64_uint64\x18Y \x03(\v2\x1d.mcp3.Maps.MSint64Uint64EntryR\rmSint64Uint64\x12E\n" +
	"\x0fm_sint64_sint32\x18Z \x03(\v2\x1d.mcp3.Maps.MSint64Sint32EntryR\rmSint64Sint32\x12E\n" +
	"\x0fm_sint64_sint64\x18[ \x03(\v2\x1d.mcp3.Maps.MSint64Sint64EntryR\rmSint64Sint64\x12H\n" +
	"\x10m_sint64_fixed32\x18\\ \x03(\v2\x1e.mcp3.Maps.MSint64Fixed32EntryR\x0emSint64Fixed32\x12H\n" +
	"\x10m_sint64_fixed64\x18] \x03(\v2\x1e.mcp3.Maps.MSint64Fixed64EntryR\x0emSint64Fixed64\x12K\n" +
	"\x11m_sint64_sfixed32\x18^ \x03(\v2\x1f.mcp3.Maps.MSint64Sfixed32EntryR\x0fmSint64Sfixed32\x12K\n" +
	"\x11m_sint64_sfixed64\x18_ \x03(\v2\x1f.mcp3.Maps.MSint64Sfixed64EntryR\x0fmSint64Sfixed64\x12B\n" +
	"\x0em_sint64_float\x18` \x03(\v2\x1c.mcp3.Maps.MSint64FloatEntryR\fmSint64Float\x12E\n" +
	"\x0fm_sint64_double\x18a \x03(\v2\x1d.mcp3.Maps.MSint64DoubleEntryR\rmSint64Double\x12?\n" +
	"\rm_sint64_bool\x18b \x03(\v2\x1b.mcp3.Maps.MSint64BoolEntryR\vmSint64Bool\x12E\n" +
	"\x0fm_sint64_string\x18c \x03(\v2\x1d.mcp3.Maps.MSint64StringEntryR\rmSint64String\x12B\n" +
	"\x0em_sint64_bytes\x18d \x03(\v2\x1c.mcp3.Maps.MSint64BytesEntryR\fmSint64Bytes\x126\n" +
	"\n" +
	"m_sint64_e\x18e \x03(\v2\x18.mcp3.Maps.MSint64EEntryR\bmSint64E\x12?\n" +
	"\rm_sint64_leaf\x18f \x03(\v2\x1b.mcp3.Maps.MSint64LeafEntryR\vmSint64Leaf\x12E\n" +
	"\x0fm_fixed32_int32\x18g \x03(\v2\x1d.mcp3.Maps.MFixed32Int32EntryR\rmFixed32Int32\x12E\n" +
	"\x0fm_fixed32_int64\x18h \x03(\v2\x1d.mcp3.Maps.MFixed32Int64EntryR\rmFixed32Int64\x12H\n" +
	"\x10m_fixed32_uint32\x18i \x03(\v2\x1e.mcp3.Maps.MFixed32Uint32EntryR\x0emFixed32Uint32\x12H\n" +
	"\x10m_fixed32_uint64\x18j \x03(\v2\x1e.mcp3.Maps.MFixed32Uint64EntryR\x0emFixed32Uint64\x12H\n" +
	"\x10m_fixed32_sint32\x18k \x03(\v2\x1e.mcp3.Maps.MFixed32Sint32EntryR\x0emFixed32Sint32\x12H\n" +
	"\x10m_fixed32_sint64\x18l \x03(\v2\x1e.mcp3.Maps.MFixed32Sint64EntryR\x0emFixed32Sint64\x12K\n" +
	"\x11m_fixed32_fixed32\x18m \x03(\v2\x1f.mcp3.Maps.MFixed32Fixed32EntryR\x0fmFixed32Fixed32\x12K\n" +
	"\x11m_fixed32_fixed64\x18n \x03(\v2\x1f.mcp3.Maps.MFixed32Fixed64EntryR\x0fmFixed32Fixed64\x12N\n" +
	"\x12m_fixed32_sfixed32\x18o \x03(\v2 .mcp3.Maps.MFixed32Sfixed32EntryR\x10mFixed32Sfixed32\x12N\n" +
	"\x12m_fixed32_sfixed64\x18p \x03(\v2 .mcp3.Maps.MFixed32Sfixed64EntryR\x10mFixed32Sfixed64\x12E\n" +
	"\x0fm_fixed32_float\x18q \x03(\v2\x1d.mcp3.Maps.MFixed32FloatEntryR\rmFixed32Float\x12H\n" +
	"\x10m_fixed32_double\x18r \x03(\v2\x1e.mcp3.Maps.MFixed32DoubleEntryR\x0emFixed32Double\x12B\n" +
	"\x0em_fixed32_bool\x18s \x03(\v2\x1c.mcp3.Maps.MFixed32BoolEntryR\fmFixed32Bool\x12H\n" +
	"\x10m_fixed32_string\x18t \x03(\v2\x1e.mcp3.Maps.MFixed32StringEntryR\x0emFixed32String\x12E\n" +
	"\x0fm_fixed32_bytes\x18u \x03(\v2\x1d.mcp3.Maps.MFixed32BytesEntryR\rmFixed32Bytes\x129\n" +
	"\vm_fixed32_e\x18v \x03(\v2\x19.mcp3.Maps.MFixed32EEntryR\tmFixed32E\x12B\n" +
	"\x0em_fixed32_leaf\x18w \x03(\v2\x1c.mcp3.Maps.MFixed32LeafEntryR\fmFixed32Leaf\x12E\n" +
	"\x0fm_fixed64_int32\x18x \x03(\v2\x1d.mcp3.Maps.MFixed64Int32EntryR\rmFixed64Int32\x12E\n" +
	"\x0fm_fixed64_int64\x18y \x03(\v2\x1d.mcp3.Maps.MFixed64Int64EntryR\rmFixed64Int64\x12H\n" +
	"\x10m_fixed64_uint32\x18z \x03(\v2\x1e.mcp3.Maps.MFixed64Uint32EntryR\x0emFixed64Uint32\x12H\n" +
	"\x10m_fixed64_uint64\x18{ \x03(\v2\x1e.mcp3.Maps.MFixed64Uint64EntryR\x0emFixed64Uint64\x12H\n" +
	"\x10m_fixed64_sint32\x18| \x03(\v2\x1e.mcp3.Maps.MFixed64Sint32EntryR\x0emFixed64Sint32\x12H\n" +
	"\x10m_fixed64_sint64\x18} \x03(\v2\x1e.mcp3.Maps.MFixed64Sint64EntryR\x0emFixed64Sint64\x12K\n" +
	"\x11m_fixed64_fixed32\x18~ \x03(\v2\x1f.mcp3.Maps.MFixed64Fixed32EntryR\x0fmFixed64Fixed32\x12K\n" +
	"\x11m_fixed64_fixed64\x18\x7f \x03(\v2\x1f.mcp3.Maps.MFixed64Fixed64EntryR\x0fmFixed64Fixed64\x12O\n" +
	"\x12m_fixed64_sfixed32\x18\x80\x01 \x03(\v2 .mcp3.Maps.MFixed64Sfixed32EntryR\x10mFixed64Sfixed32\x12O\n" +
	"\x12m_fixed64_sfixed64\x18\x81\x01 \x03(\v2 .mcp3.Maps.MFixed64Sfixed64EntryR\x10mFixed64Sfixed64\x12F\n" +
	"\x0fm_fixed64_float\x18\x82\x01 \x03(\v2\x1d.mcp3.Maps.MFixed64FloatEntryR\rmFixed64Float\x12I\n" +
	"\x10m_fixed64_double\x18\x83\x01 \x03(\v2\x1e.mcp3.Maps.MFixed64DoubleEntryR\x0emFixed64Double\x12C\n" +
	"\x0em_fixed64_bool\x18\x84\x01 \x03(\v2\x1c.mcp3.Maps.MFixed64BoolEntryR\fmFixed64Bool\x12I\n" +
	"\x10m_fixed64_string\x18\x85\x01 \x03(\v2\x1e.mcp3.Maps.MFixed64StringEntryR\x0emFixed64String\x12F\n" +
	"\x0fm_fixed64_bytes\x18\x86\x01 \x03(\v2\x1d.mcp3.Maps.MFixed64BytesEntryR\rmFixed64Bytes\x12:\n" +
	"\vm_fixed64_e\x18\x87\x01 \x03(\v2\x19.mcp3.Maps.MFixed64EEntryR\tmFixed64E\x12C\n" +
	"\x0em_fixed64_leaf\x18\x88\x01 \x03(\v2\x1c.mcp3.Maps.MFixed64LeafEntryR\fmFixed64Leaf\x12I\n" +
	"\x10m_sfixed32_int32\x18\x89\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed32Int32EntryR\x0emSfixed32Int32\x12I\n" +
	"\x10m_sfixed32_int64\x18\x8a\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed32Int64EntryR\x0emSfixed32Int64\x12L\n" +
	"\x11m_sfixed32_uint32\x18\x8b\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32Uint32EntryR\x0fmSfixed32Uint32\x12L\n" +
	"\x11m_sfixed32_uint64\x18\x8c\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32Uint64EntryR\x0fmSfixed32Uint64\x12L\n" +
	"\x11m_sfixed32_sint32\x18\x8d\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32Sint32EntryR\x0fmSfixed32Sint32\x12L\n" +
	"\x11m_sfixed32_sint64\x18\x8e\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32Sint64EntryR\x0fmSfixed32Sint64\x12O\n" +
	"\x12m_sfixed32_fixed32\x18\x8f\x01 \x03(\v2 .mcp3.Maps.MSfixed32Fixed32EntryR\x10mSfixed32Fixed32\x12O\n" +
	"\x12m_sfixed32_fixed64\x18\x90\x01 \x03(\v2 .mcp3.Maps.MSfixed32Fixed64EntryR\x10mSfixed32Fixed64\x12R\n" +
	"\x13m_sfixed32_sfixed32\x18\x91\x01 \x03(\v2!.mcp3.Maps.MSfixed32Sfixed32EntryR\x11mSfixed32Sfixed32\x12R\n" +
	"\x13m_sfixed32_sfixed64\x18\x92\x01 \x03(\v2!.mcp3.Maps.MSfixed32Sfixed64EntryR\x11mSfixed32Sfixed64\x12I\n" +
	"\x10m_sfixed32_float\x18\x93\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed32FloatEntryR\x0emSfixed32Float\x12L\n" +
	"\x11m_sfixed32_double\x18\x94\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32DoubleEntryR\x0fmSfixed32Double\x12F\n" +
	"\x0fm_sfixed32_bool\x18\x95\x01 \x03(\v2\x1d.mcp3.Maps.MSfixed32BoolEntryR\rmSfixed32Bool\x12L\n" +
	"\x11m_sfixed32_string\x18\x96\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed32StringEntryR\x0fmSfixed32String\x12I\n" +
	"\x10m_sfixed32_bytes\x18\x97\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed32BytesEntryR\x0emSfixed32Bytes\x12=\n" +
	"\fm_sfixed32_e\x18\x98\x01 \x03(\v2\x1a.mcp3.Maps.MSfixed32EEntryR\n" +
	"mSfixed32E\x12F\n" +
	"\x0fm_sfixed32_leaf\x18\x99\x01 \x03(\v2\x1d.mcp3.Maps.MSfixed32LeafEntryR\rmSfixed32Leaf\x12I\n" +
	"\x10m_sfixed64_int32\x18\x9a\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed64Int32EntryR\x0emSfixed64Int32\x12I\n" +
	"\x10m_sfixed64_int64\x18\x9b\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed64Int64EntryR\x0emSfixed64Int64\x12L\n" +
	"\x11m_sfixed64_uint32\x18\x9c\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64Uint32EntryR\x0fmSfixed64Uint32\x12L\n" +
	"\x11m_sfixed64_uint64\x18\x9d\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64Uint64EntryR\x0fmSfixed64Uint64\x12L\n" +
	"\x11m_sfixed64_sint32\x18\x9e\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64Sint32EntryR\x0fmSfixed64Sint32\x12L\n" +
	"\x11m_sfixed64_sint64\x18\x9f\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64Sint64EntryR\x0fmSfixed64Sint64\x12O\n" +
	"\x12m_sfixed64_fixed32\x18\xa0\x01 \x03(\v2 .mcp3.Maps.MSfixed64Fixed32EntryR\x10mSfixed64Fixed32\x12O\n" +
	"\x12m_sfixed64_fixed64\x18\xa1\x01 \x03(\v2 .mcp3.Maps.MSfixed64Fixed64EntryR\x10mSfixed64Fixed64\x12R\n" +
	"\x13m_sfixed64_sfixed32\x18\xa2\x01 \x03(\v2!.mcp3.Maps.MSfixed64Sfixed32EntryR\x11mSfixed64Sfixed32\x12R\n" +
	"\x13m_sfixed64_sfixed64\x18\xa3\x01 \x03(\v2!.mcp3.Maps.MSfixed64Sfixed64EntryR\x11mSfixed64Sfixed64\x12I\n" +
	"\x10m_sfixed64_float\x18\xa4\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed64FloatEntryR\x0emSfixed64Float\x12L\n" +
	"\x11m_sfixed64_double\x18\xa5\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64DoubleEntryR\x0fmSfixed64Double\x12F\n" +
	"\x0fm_sfixed64_bool\x18\xa6\x01 \x03(\v2\x1d.mcp3.Maps.MSfixed64BoolEntryR\rmSfixed64Bool\x12L\n" +
	"\x11m_sfixed64_string\x18\xa7\x01 \x03(\v2\x1f.mcp3.Maps.MSfixed64StringEntryR\x0fmSfixed64String\x12I\n" +
	"\x10m_sfixed64_bytes\x18\xa8\x01 \x03(\v2\x1e.mcp3.Maps.MSfixed64BytesEntryR\x0emSfixed64Bytes\x12=\n" +
	"\fm_sfixed64_e\x18\xa9\x01 \x03(\v2\x1a.mcp3.Maps.MSfixed64EEntryR\n" +
	"mSfixed64E\x12F\n" +
	"\x0fm_sfixed64_leaf\x18\xaa\x01 \x03(\v2\x1d.mcp3.Maps.MSfixed64LeafEntryR\rmSfixed64Leaf\x12=\n" +
	"\fm_bool_int32\x18\xab\x01 \x03(\v2\x1a.mcp3.Maps.MBoolInt32EntryR\n" +
	"mBoolInt32\x12=\n" +
	"\fm_bool_int64\x18\xac\x01 \x03(\v2\x1a.mcp3.Maps.MBoolInt64EntryR\n" +
	"mBoolInt64\x12@\n" +
	"\rm_bool_uint32\x18\xad\x01 \x03(\v2\x1b.mcp3.Maps.MBoolUint32EntryR\vmBoolUint32\x12@\n" +
	"\rm_bool_uint64\x18\xae\x01 \x03(\v2\x1b.mcp3.Maps.MBoolUint64EntryR\vmBoolUint64\x12@\n" +
	"\rm_bool_sint32\x18\xaf\x01 \x03(\v2\x1b.mcp3.Maps.MBoolSint32EntryR\vmBoolSint32\x12@\n" +
	"\rm_bool_sint64\x18\xb0\x01 \x03(\v2\x1b.mcp3.Maps.MBoolSint64EntryR\vmBoolSint64\x12C\n" +
	"\x0em_bool_fixed32\x18\xb1\x01 \x03(\v2\x1c.mcp3.Maps.MBoolFixed32EntryR\fmBoolFixed32\x12C\n" +
	"\x0em_bool_fixed64\x18\xb2\x01 \x03(\v2\x1c.mcp3.Maps.MBoolFixed64EntryR\fmBoolFixed64\x12F\n" +
	"\x0fm_bool_sfixed32\x18\xb3\x01 \x03(\v2\x1d.mcp3.Maps.MBoolSfixed32EntryR\rmBoolSfixed32\x12F\n" +
	"\x0fm_bool_sfixed64\x18\xb4\x01 \x03(\v2\x1d.mcp3.Maps.MBoolSfixed64EntryR\rmBoolSfixed64\x12=\n" +
	"\fm_bool_float\x18\xb5\x01 \x03(\v2\x1a.mcp3.Maps.MBoolFloatEntryR\n" +
	"mBoolFloat\x12@\n" +
	"\rm_bool_double\x18\xb6\x01 \x03(\v2\x1b.mcp3.Maps.MBoolDoubleEntryR\vmBoolDouble\x12:\n" +
	"\vm_bool_bool\x18\xb7\x01 \x03(\v2\x19.mcp3.Maps.MBoolBoolEntryR\tmBoolBool\x12@\n" +
	"\rm_bool_string\x18\xb8\x01 \x03(\v2\x1b.mcp3.Maps.MBoolStringEntryR\vmBoolString\x12=\n" +
	"\fm_bool_bytes\x18\xb9\x01 \x03(\v2\x1a.mcp3.Maps.MBoolBytesEntryR\n" +
	"mBoolBytes\x121\n" +
	"\bm_bool_e\x18\xba\x01 \x03(\v2\x16.mcp3.Maps.MBoolEEntryR\x06mBoolE\x12:\n" +
	"\vm_bool_leaf\x18\xbb\x01 \x03(\v2\x19.mcp3.Maps.MBoolLeafEntryR\tmBoolLeaf\x12C\n" +
	"\x0em_string_int32\x18\xbc\x01 \x03(\v2\x1c.mcp3.Maps.MStringInt32EntryR\fmStringInt32\x12C\n" +
	"\x0em_string_int64\x18\xbd\x01 \x03(\v2\x1c.mcp3.Maps.MStringInt64EntryR\fmStringInt64\x12F\n" +
	"\x0fm_string_uint32\x18\xbe\x01 \x03(\v2\x1d.mcp3.Maps.MStringUint32EntryR\rmStringUint32\x12F\n" +
	"\x0fm_string_uint64\x18\xbf\x01 \x03(\v2\x1d.mcp3.Maps.MStringUint64EntryR\rmStringUint64\x12F\n" +
	"\x0fm_string_sint32\x18\xc0\x01 \x03(\v2\x1d.mcp3.Maps.MStringSint32EntryR\rmStringSint32\x12F\n" +
	"\x0fm_string_sint64\x18\xc1\x01 \x03(\v2\x1d.mcp3.Maps.MStringSint64EntryR\rmStringSint64\x12I\n" +
	"\x10m_string_fixed32\x18\xc2\x01 \x03(\v2\x1e.mcp3.Maps.MStringFixed32EntryR\x0emStringFixed32\x12I\n" +
	"\x10m_string_fixed64\x18\xc3\x01 \x03(\v2\x1e.mcp3.Maps.MStringFixed64EntryR\x0emStringFixed64\x12L\n" +
	"\x11m_string_sfixed32\x18\xc4\x01 \x03(\v2\x1f.mcp3.Maps.MStringSfixed32EntryR\x0fmStringSfixed32\x12L\n" +
	"\x11m_string_sfixed64\x18\xc5\x01 \x03(\v2\x1f.mcp3.Maps.MStringSfixed64EntryR\x0fmStringSfixed64\x12C\n" +
	"\x0em_string_float\x18\xc6\x01 \x03(\v2\x1c.mcp3.Maps.MStringFloatEntryR\fmStringFloat\x12F\n" +
	"\x0fm_string_double\x18\xc7\x01 \x03(\v2\x1d.mcp3.Maps.MStringDoubleEntryR\rmStringDouble\x12@\n" +
	"\rm_string_bool\x18\xc8\x01 \x03(\v2\x1b.mcp3.Maps.MStringBoolEntryR\vmStringBool\x12F\n" +
	"\x0fm_string_string\x18\xc9\x01 \x03(\v2\x1d.mcp3.Maps.MStringStringEntryR\rmStringString\x12C\n" +
	"\x0em_string_bytes\x18\xca\x01 \x03(\v2\x1c.mcp3.Maps.MStringBytesEntryR\fmStringBytes\x127\n" +
	"\n" +
	"m_string_e\x18\xcb\x01 \x03(\v2\x18.mcp3.Maps.MStringEEntryR\bmStringE\x12@\n" +
	"\rm_string_leaf\x18\xcc\x01 \x03(\v2\x1b.mcp3.Maps.MStringLeafEntryR\vmStringLeaf\x1a>\n" +
	"\x10MInt32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a>\n" +
	"\x10MInt32Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a@\n" +
	"\x12MInt32Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a@\n" +
	"\x12MInt32Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aA\n" +
	"\x13MInt32Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aA\n" +
	"\x13MInt32Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a>\n" +
	"\x10MInt32FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a=\n" +
	"\x0fMInt32BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a?\n" +
	"\x11MInt32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aC\n" +
	"\fMInt32EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aI\n" +
	"\x0fMInt32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a@\n" +
	"\x12MInt64Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a@\n" +
	"\x12MInt64Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aA\n" +
	"\x13MInt64Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aA\n" +
	"\x13MInt64Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a=\n" +
	"\x0fMInt64BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a?\n" +
	"\x11MInt64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a>\n" +
	"\x10MInt64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aC\n" +
	"\fMInt64EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aI\n" +
	"\x0fMInt64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x03R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aA\n" +
	"\x13MUint32Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aA\n" +
	"\x13MUint32Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aB\n" +
	"\x14MUint32Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aB\n" +
	"\x14MUint32Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a>\n" +
	"\x10MUint32BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a@\n" +
	"\x12MUint32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aD\n" +
	"\rMUint32EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aJ\n" +
	"\x10MUint32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\rR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aA\n" +
	"\x13MUint64Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aA\n" +
	"\x13MUint64Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aB\n" +
	"\x14MUint64Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aB\n" +
	"\x14MUint64Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a>\n" +
	"\x10MUint64BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a@\n" +
	"\x12MUint64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\x11MUint64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aD\n" +
	"\rMUint64EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aJ\n" +
	"\x10MUint64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aA\n" +
	"\x13MSint32Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aA\n" +
	"\x13MSint32Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aB\n" +
	"\x14MSint32Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aB\n" +
	"\x14MSint32Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a>\n" +
	"\x10MSint32BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a@\n" +
	"\x12MSint32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aD\n" +
	"\rMSint32EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aJ\n" +
	"\x10MSint32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x11R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aA\n" +
	"\x13MSint64Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aA\n" +
	"\x13MSint64Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aB\n" +
	"\x14MSint64Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aB\n" +
	"\x14MSint64Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a>\n" +
	"\x10MSint64BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a@\n" +
	"\x12MSint64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\x11MSint64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aD\n" +
	"\rMSint64EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aJ\n" +
	"\x10MSint64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x12R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aB\n" +
	"\x14MFixed32Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aB\n" +
	"\x14MFixed32Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aC\n" +
	"\x15MFixed32Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aC\n" +
	"\x15MFixed32Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a?\n" +
	"\x11MFixed32BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aE\n" +
	"\x0eMFixed32EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aK\n" +
	"\x11MFixed32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\aR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aB\n" +
	"\x14MFixed64Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aB\n" +
	"\x14MFixed64Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aC\n" +
	"\x15MFixed64Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aC\n" +
	"\x15MFixed64Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a?\n" +
	"\x11MFixed64BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1aA\n" +
	"\x13MFixed64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a@\n" +
	"\x12MFixed64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aE\n" +
	"\x0eMFixed64EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aK\n" +
	"\x11MFixed64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x06R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aC\n" +
	"\x15MSfixed32Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aC\n" +
	"\x15MSfixed32Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aD\n" +
	"\x16MSfixed32Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aD\n" +
	"\x16MSfixed32Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a@\n" +
	"\x12MSfixed32BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed32StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed32BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aF\n" +
	"\x0fMSfixed32EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aL\n" +
	"\x12MSfixed32LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x0fR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64Int32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64Int64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64Uint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64Uint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64Sint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64Sint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aC\n" +
	"\x15MSfixed64Fixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aC\n" +
	"\x15MSfixed64Fixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aD\n" +
	"\x16MSfixed64Sfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aD\n" +
	"\x16MSfixed64Sfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64FloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64DoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a@\n" +
	"\x12MSfixed64BoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1aB\n" +
	"\x14MSfixed64StringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1aA\n" +
	"\x13MSfixed64BytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aF\n" +
	"\x0fMSfixed64EEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aL\n" +
	"\x12MSfixed64LeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x10R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1a?\n" +
	"\x11MBoolFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1a?\n" +
	"\x11MBoolFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1a@\n" +
	"\x12MBoolSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1a@\n" +
	"\x12MBoolSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolFloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolDoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a<\n" +
	"\x0eMBoolBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a>\n" +
	"\x10MBoolStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a=\n" +
	"\x0fMBoolBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aB\n" +
	"\vMBoolEEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aH\n" +
	"\x0eMBoolLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\x1a?\n" +
	"\x11MStringInt32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x05R\x05value:\x028\x01\x1a?\n" +
	"\x11MStringInt64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x03R\x05value:\x028\x01\x1a@\n" +
	"\x12MStringUint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\rR\x05value:\x028\x01\x1a@\n" +
	"\x12MStringUint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x04R\x05value:\x028\x01\x1a@\n" +
	"\x12MStringSint32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x11R\x05value:\x028\x01\x1a@\n" +
	"\x12MStringSint64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x12R\x05value:\x028\x01\x1aA\n" +
	"\x13MStringFixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\aR\x05value:\x028\x01\x1aA\n" +
	"\x13MStringFixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x06R\x05value:\x028\x01\x1aB\n" +
	"\x14MStringSfixed32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x0fR\x05value:\x028\x01\x1aB\n" +
	"\x14MStringSfixed64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x10R\x05value:\x028\x01\x1a?\n" +
	"\x11MStringFloatEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x02R\x05value:\x028\x01\x1a@\n" +
	"\x12MStringDoubleEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\x01R\x05value:\x028\x01\x1a>\n" +
	"\x10MStringBoolEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\bR\x05value:\x028\x01\x1a@\n" +
	"\x12MStringStringEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\tR\x05value:\x028\x01\x1a?\n" +
	"\x11MStringBytesEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x14\n" +
	"\x05value\x18\x02 \x01(\fR\x05value:\x028\x01\x1aD\n" +
	"\rMStringEEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12\x1d\n" +
	"\x05value\x18\x02 \x01(\x0e2\a.mcp3.ER\x05value:\x028\x01\x1aJ\n" +
	"\x10MStringLeafEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.LeafR\x05value:\x028\x01\"\xa3\x04\n" +
	"\x04Tree\x12\x18\n" +
	"\x01l\x18\x01 \x01(\v2\n" +
	".mcp3.TreeR\x01l\x12\x18\n" +
	"\x01r\x18\x02 \x03(\v2\n" +
	".mcp3.TreeR\x01r\x12%\n" +
	"\x03m32\x18\x03 \x03(\v2\x13.mcp3.Tree.M32EntryR\x03m32\x12%\n" +
	"\x03m64\x18\x04 \x03(\v2\x13.mcp3.Tree.M64EntryR\x03m64\x12\"\n" +
	"\x02ms\x18\x05 \x03(\v2\x12.mcp3.Tree.MsEntryR\x02ms\x12\"\n" +
	"\x02mb\x18\x06 \x03(\v2\x12.mcp3.Tree.MbEntryR\x02mb\x12\x1a\n" +
	"\x01x\x18\a \x01(\v2\n" +
	".mcp3.TreeH\x00R\x01x\x12\x14\n" +
	"\x04leaf\x18\b \x01(\x05H\x00R\x04leaf\x12\f\n" +
	"\x01v\x18\t \x01(\x05R\x01v\x1aB\n" +
	"\bM32Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x05R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.TreeR\x05value:\x028\x01\x1aB\n" +
	"\bM64Entry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\x04R\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.TreeR\x05value:\x028\x01\x1aA\n" +
	"\aMsEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\tR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.TreeR\x05value:\x028\x01\x1aA\n" +
	"\aMbEntry\x12\x10\n" +
	"\x03key\x18\x01 \x01(\bR\x03key\x12 \n" +
	"\x05value\x18\x02 \x01(\v2\n" +
	".mcp3.TreeR\x05value:\x028\x01B\x03\n" +
	"\x01o*0\n" +
	"\x01E\x12\x05\n" +
	"\x01Z\x10\x00\x12\x05\n" +
	"\x01A\x10\x01\x12\x10\n" +
	"\x03NEG\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01\x12\v\n" +
	"\x03BIG\x10\xff\xff\xff\xff\aB\x13Z\x11verif/mc/pbgen/p3b\x06proto3"

var (
	file_p3_proto_rawDescOnce sync.Once
	file_p3_proto_rawDescData []byte
)

func file_p3_proto_rawDescGZIP() []byte {
	file_p3_proto_rawDescOnce.Do(func() {
		file_p3_proto_rawDescData = protoimpl.X.CompressGZIP(unsafe.Slice(unsafe.StringData(file_p3_proto_rawDesc), len(file_p3_proto_rawDesc)))
	})
	return file_p3_proto_rawDescData
}

var file_p3_proto_enumTypes = make([]protoimpl.EnumInfo, 1)
var file_p3_proto_msgTypes = make([]protoimpl.MessageInfo, 214)
var file_p3_proto_goTypes = []any{
	(E)(0),       // 0: mcp3.E
	(*Leaf)(nil), // 1: mcp3.Leaf
	(*All)(nil),  // 2: mcp3.All
	(*Maps)(nil), // 3: mcp3.Maps
	(*Tree)(nil), // 4: mcp3.Tree
	nil,          // 5: mcp3.All.NamedEntry
	nil,          // 6: mcp3.All.ByidEntry
	nil,          // 7: mcp3.Maps.MInt32Int32Entry
	nil,          // 8: mcp3.Maps.MInt32Int64Entry
	nil,          // 9: mcp3.Maps.MInt32Uint32Entry
	nil,          // 10: mcp3.Maps.MInt32Uint64Entry
	nil,          // 11: mcp3.Maps.MInt32Sint32Entry
	nil,          // 12: mcp3.Maps.MInt32Sint64Entry
	nil,          // 13: mcp3.Maps.MInt32Fixed32Entry
	nil,          // 14: mcp3.Maps.MInt32Fixed64Entry
	nil,          // 15: mcp3.Maps.MInt32Sfixed32Entry
	nil,          // 16: mcp3.Maps.MInt32Sfixed64Entry
	nil,          // 17: mcp3.Maps.MInt32FloatEntry
	nil,          // 18: mcp3.Maps.MInt32DoubleEntry
	nil,          // 19: mcp3.Maps.MInt32BoolEntry
	nil,          // 20: mcp3.Maps.MInt32StringEntry
	nil,          // 21: mcp3.Maps.MInt32BytesEntry
	nil,          // 22: mcp3.Maps.MInt32EEntry
	nil,          // 23: mcp3.Maps.MInt32LeafEntry
	nil,          // 24: mcp3.Maps.MInt64Int32Entry
	nil,          // 25: mcp3.Maps.MInt64Int64Entry
	nil,          // 26: mcp3.Maps.MInt64Uint32Entry
	nil,          // 27: mcp3.Maps.MInt64Uint64Entry
	nil,          // 28: mcp3.Maps.MInt64Sint32Entry
	nil,          // 29: mcp3.Maps.MInt64Sint64Entry
	nil,          // 30: mcp3.Maps.MInt64Fixed32Entry
	nil,          // 31: mcp3.Maps.MInt64Fixed64Entry
	nil,          // 32: mcp3.Maps.MInt64Sfixed32Entry
	nil,          // 33: mcp3.Maps.MInt64Sfixed64Entry
	nil,          // 34: mcp3.Maps.MInt64FloatEntry
	nil,          // 35: mcp3.Maps.MInt64DoubleEntry
	nil,          // 36: mcp3.Maps.MInt64BoolEntry
	nil,          // 37: mcp3.Maps.MInt64StringEntry
	nil,          // 38: mcp3.Maps.MInt64BytesEntry
	nil,          // 39: mcp3.Maps.MInt64EEntry
	nil,          // 40: mcp3.Maps.MInt64LeafEntry
	nil,          // 41: mcp3.Maps.MUint32Int32Entry
	nil,          // 42: mcp3.Maps.MUint32Int64Entry
	nil,          // 43: mcp3.Maps.MUint32Uint32Entry
	nil,          // 44: mcp3.Maps.MUint32Uint64Entry
	nil,          // 45: mcp3.Maps.MUint32Sint32Entry
	nil,          // 46: mcp3.Maps.MUint32Sint64Entry
	nil,          // 47: mcp3.Maps.MUint32Fixed32Entry
	nil,          // 48: mcp3.Maps.MUint32Fixed64Entry
	nil,          // 49: mcp3.Maps.MUint32Sfixed32Entry
	nil,          // 50: mcp3.Maps.MUint32Sfixed64Entry
	nil,          // 51: mcp3.Maps.MUint32FloatEntry
	nil,          // 52: mcp3.Maps.MUint32DoubleEntry
	nil,          // 53: mcp3.Maps.MUint32BoolEntry
	nil,          // 54: mcp3.Maps.MUint32StringEntry
	nil,          // 55: mcp3.Maps.MUint32BytesEntry
	nil,          // 56: mcp3.Maps.MUint32EEntry
	nil,          // 57: mcp3.Maps.MUint32LeafEntry
	nil,          // 58: mcp3.Maps.MUint64Int32Entry
	nil,          // 59: mcp3.Maps.MUint64Int64Entry
	nil,          // 60: mcp3.Maps.MUint64Uint32Entry
	nil,          // 61: mcp3.Maps.MUint64Uint64Entry
	nil,          // 62: mcp3.Maps.MUint64Sint32Entry
	nil,          // 63: mcp3.Maps.MUint64Sint64Entry
	nil,          // 64: mcp3.Maps.MUint64Fixed32Entry
	nil,          // 65: mcp3.Maps.MUint64Fixed64Entry
	nil,          // 66: mcp3.Maps.MUint64Sfixed32Entry
	nil,          // 67: mcp3.Maps.MUint64Sfixed64Entry
	nil,          // 68: mcp3.Maps.MUint64FloatEntry
	nil,          // 69: mcp3.Maps.MUint64DoubleEntry
	nil,          // 70: mcp3.Maps.MUint64BoolEntry
	nil,          // 71: mcp3.Maps.MUint64StringEntry
	nil,          // 72: mcp3.Maps.MUint64BytesEntry
	nil,          // 73: mcp3.Maps.MUint64EEntry
	nil,          // 74: mcp3.Maps.MUint64LeafEntry
	nil,          // 75: mcp3.Maps.MSint32Int32Entry
	nil,          // 76: mcp3.Maps.MSint32Int64Entry
	nil,          // 77: mcp3.Maps.MSint32Uint32Entry
	nil,          // 78: mcp3.Maps.MSint32Uint64Entry
	nil,          // 79: mcp3.Maps.MSint32Sint32Entry
	nil,          // 80: mcp3.Maps.MSint32Sint64Entry
	nil,          // 81: mcp3.Maps.MSint32Fixed32Entry
	nil,          // 82: mcp3.Maps.MSint32Fixed64Entry
	nil,          // 83: mcp3.Maps.MSint32Sfixed32Entry
	nil,          // 84: mcp3.Maps.MSint32Sfixed64Entry
	nil,          // 85: mcp3.Maps.MSint32FloatEntry
	nil,          // 86: mcp3.Maps.MSint32DoubleEntry
	nil,          // 87: mcp3.Maps.MSint32BoolEntry
	nil,          // 88: mcp3.Maps.MSint32StringEntry
	nil,          // 89: mcp3.Maps.MSint32BytesEntry
	nil,          // 90: mcp3.Maps.MSint32EEntry
	nil,          // 91: mcp3.Maps.MSint32LeafEntry
	nil,          // 92: mcp3.Maps.MSint64Int32Entry
	nil,          // 93: mcp3.Maps.MSint64Int64Entry
	nil,          // 94: mcp3.Maps.MSint64Uint32Entry
	nil,          // 95: mcp3.Maps.MSint64Uint64Entry
	nil,          // 96: mcp3.Maps.MSint64Sint32Entry
	nil,          // 97: mcp3.Maps.MSint64Sint64Entry
	nil,          // 98: mcp3.Maps.MSint64Fixed32Entry
	nil,          // 99: mcp3.Maps.MSint64Fixed64Entry
	nil,          // 100: mcp3.Maps.MSint64Sfixed32Entry
	nil,          // 101: mcp3.Maps.MSint64Sfixed64Entry
	nil,          // 102: mcp3.Maps.MSint64FloatEntry
	nil,          // 103: mcp3.Maps.MSint64DoubleEntry
	nil,          // 104: mcp3.Maps.MSint64BoolEntry
	nil,          // 105: mcp3.Maps.MSint64StringEntry
	nil,          // 106: mcp3.Maps.MSint64BytesEntry
	nil,          // 107: mcp3.Maps.MSint64EEntry
	nil,          // 108: mcp3.Maps.MSint64LeafEntry
	nil,          // 109: mcp3.Maps.MFixed32Int32Entry
	nil,          // 110: mcp3.Maps.MFixed32Int64Entry
	nil,          // 111: mcp3.Maps.MFixed32Uint32Entry
	nil,          // 112: mcp3.Maps.MFixed32Uint64Entry
	nil,          // 113: mcp3.Maps.MFixed32Sint32Entry
	nil,          // 114: mcp3.Maps.MFixed32Sint64Entry
	nil,          // 115: mcp3.Maps.MFixed32Fixed32Entry
	nil,          // 116: mcp3.Maps.MFixed32Fixed64Entry
	nil,          // 117: mcp3.Maps.MFixed32Sfixed32Entry
	nil,          // 118: mcp3.Maps.MFixed32Sfixed64Entry
	nil,          // 119: mcp3.Maps.MFixed32FloatEntry
	nil,          // 120: mcp3.Maps.MFixed32DoubleEntry
	nil,          // 121: mcp3.Maps.MFixed32BoolEntry
	nil,          // 122: mcp3.Maps.MFixed32StringEntry
	nil,          // 123: mcp3.Maps.MFixed32BytesEntry
	nil,          // 124: mcp3.Maps.MFixed32EEntry
	nil,          // 125: mcp3.Maps.MFixed32LeafEntry
	nil,          // 126: mcp3.Maps.MFixed64Int32Entry
	nil,          // 127: mcp3.Maps.MFixed64Int64Entry
	nil,          // 128: mcp3.Maps.MFixed64Uint32Entry
	nil,          // 129: mcp3.Maps.MFixed64Uint64Entry
	nil,          // 130: mcp3.Maps.MFixed64Sint32Entry
	nil,          // 131: mcp3.Maps.MFixed64Sint64Entry
	nil,          // 132: mcp3.Maps.MFixed64Fixed32Entry
	nil,          // 133: mcp3.Maps.MFixed64Fixed64Entry
	nil,          // 134: mcp3.Maps.MFixed64Sfixed32Entry
	nil,          // 135: mcp3.Maps.MFixed64Sfixed64Entry
	nil,          // 136: mcp3.Maps.MFixed64FloatEntry
	nil,          // 137: mcp3.Maps.MFixed64DoubleEntry
	nil,          // 138: mcp3.Maps.MFixed64BoolEntry
	nil,          // 139: mcp3.Maps.MFixed64StringEntry
	nil,          // 140: mcp3.Maps.MFixed64BytesEntry
	nil,          // 141: mcp3.Maps.MFixed64EEntry
	nil,          // 142: mcp3.Maps.MFixed64LeafEntry
	nil,          // 143: mcp3.Maps.MSfixed32Int32Entry
	nil,          // 144: mcp3.Maps.MSfixed32Int64Entry
	nil,          // 145: mcp3.Maps.MSfixed32Uint32Entry
	nil,          // 146: mcp3.Maps.MSfixed32Uint64Entry
	nil,          // 147: mcp3.Maps.MSfixed32Sint32Entry
	nil,          // 148: mcp3.Maps.MSfixed32Sint64Entry
	nil,          // 149: mcp3.Maps.MSfixed32Fixed32Entry
	nil,          // 150: mcp3.Maps.MSfixed32Fixed64Entry
	nil,          // 151: mcp3.Maps.MSfixed32Sfixed32Entry
	nil,          // 152: mcp3.Maps.MSfixed32Sfixed64Entry
	nil,          // 153: mcp3.Maps.MSfixed32FloatEntry
	nil,          // 154: mcp3.Maps.MSfixed32DoubleEntry
	nil,          // 155: mcp3.Maps.MSfixed32BoolEntry
	nil,          // 156: mcp3.Maps.MSfixed32StringEntry
	nil,          // 157: mcp3.Maps.MSfixed32BytesEntry
	nil,          // 158: mcp3.Maps.MSfixed32EEntry
	nil,          // 159: mcp3.Maps.MSfixed32LeafEntry
	nil,          // 160: mcp3.Maps.MSfixed64Int32Entry
	nil,          // 161: mcp3.Maps.MSfixed64Int64Entry
	nil,          // 162: mcp3.Maps.MSfixed64Uint32Entry
	nil,          // 163: mcp3.Maps.MSfixed64Uint64Entry
	nil,          // 164: mcp3.Maps.MSfixed64Sint32Entry
	nil,          // 165: mcp3.Maps.MSfixed64Sint64Entry
	nil,          // 166: mcp3.Maps.MSfixed64Fixed32Entry
	nil,          // 167: mcp3.Maps.MSfixed64Fixed64Entry
	nil,          // 168: mcp3.Maps.MSfixed64Sfixed32Entry
	nil,          // 169: mcp3.Maps.MSfixed64Sfixed64Entry
	nil,          // 170: mcp3.Maps.MSfixed64FloatEntry
	nil,          // 171: mcp3.Maps.MSfixed64DoubleEntry
	nil,          // 172: mcp3.Maps.MSfixed64BoolEntry
	nil,          // 173: mcp3.Maps.MSfixed64StringEntry
	nil,          // 174: mcp3.Maps.MSfixed64BytesEntry
	nil,          // 175: mcp3.Maps.MSfixed64EEntry
	nil,          // 176: mcp3.Maps.MSfixed64LeafEntry
	nil,          // 177: mcp3.Maps.MBoolInt32Entry
	nil,          // 178: mcp3.Maps.MBoolInt64Entry
	nil,          // 179: mcp3.Maps.MBoolUint32Entry
	nil,          // 180: mcp3.Maps.MBoolUint64Entry
	nil,          // 181: mcp3.Maps.MBoolSint32Entry
	nil,          // 182: mcp3.Maps.MBoolSint64Entry
	nil,          // 183: mcp3.Maps.MBoolFixed32Entry
	nil,          // 184: mcp3.Maps.MBoolFixed64Entry
	nil,          // 185: mcp3.Maps.MBoolSfixed32Entry
	nil,          // 186: mcp3.Maps.MBoolSfixed64Entry
	nil,          // 187: mcp3.Maps.MBoolFloatEntry
	nil,          // 188: mcp3.Maps.MBoolDoubleEntry
	nil,          // 189: mcp3.Maps.MBoolBoolEntry
	nil,          // 190: mcp3.Maps.MBoolStringEntry
	nil,          // 191: mcp3.Maps.MBoolBytesEntry
	nil,          // 192: mcp3.Maps.MBoolEEntry
	nil,          // 193: mcp3.Maps.MBoolLeafEntry
	nil,          // 194: mcp3.Maps.MStringInt32Entry
	nil,          // 195: mcp3.Maps.MStringInt64Entry
	nil,          // 196: mcp3.Maps.MStringUint32Entry
	nil,          // 197: mcp3.Maps.MStringUint64Entry
	nil,          // 198: mcp3.Maps.MStringSint32Entry
	nil,          // 199: mcp3.Maps.MStringSint64Entry
	nil,          // 200: mcp3.Maps.MStringFixed32Entry
	nil,          // 201: mcp3.Maps.MStringFixed64Entry
	nil,          // 202: mcp3.Maps.MStringSfixed32Entry
	nil,          // 203: mcp3.Maps.MStringSfixed64Entry
	nil,          // 204: mcp3.Maps.MStringFloatEntry
	nil,          // 205: mcp3.Maps.MStringDoubleEntry
	nil,          // 206: mcp3.Maps.MStringBoolEntry
	nil,          // 207: mcp3.Maps.MStringStringEntry
	nil,          // 208: mcp3.Maps.MStringBytesEntry
	nil,          // 209: mcp3.Maps.MStringEEntry
	nil,          // 210: mcp3.Maps.MStringLeafEntry
	nil,          // 211: mcp3.Tree.M32Entry
	nil,          // 212: mcp3.Tree.M64Entry
	nil,          // 213: mcp3.Tree.MsEntry
	nil,          // 214: mcp3.Tree.MbEntry
}
var file_p3_proto_depIdxs = []int32{
	0,   // 0: mcp3.All.i_e:type_name -> mcp3.E
	0,   // 1: mcp3.All.o_e:type_name -> mcp3.E
	0,   // 2: mcp3.All.r_e:type_name -> mcp3.E
	0,   // 3: mcp3.All.u_e:type_name -> mcp3.E
	1,   // 4: mcp3.All.m:type_name -> mcp3.Leaf
	1,   // 5: mcp3.All.rm:type_name -> mcp3.Leaf
	2,   // 6: mcp3.All.self:type_name -> mcp3.All
	2,   // 7: mcp3.All.kids:type_name -> mcp3.All
	5,   // 8: mcp3.All.named:type_name -> mcp3.All.NamedEntry
	6,   // 9: mcp3.All.byid:type_name -> mcp3.All.ByidEntry
	0,   // 10: mcp3.All.x_e:type_name -> mcp3.E
	1,   // 11: mcp3.All.x_m:type_name -> mcp3.Leaf
	2,   // 12: mcp3.All.x_self:type_name -> mcp3.All
	1,   // 13: mcp3.All.v_m:type_name -> mcp3.Leaf
	7,   // 14: mcp3.Maps.m_int32_int32:type_name -> mcp3.Maps.MInt32Int32Entry
	8,   // 15: mcp3.Maps.m_int32_int64:type_name -> mcp3.Maps.MInt32Int64Entry
	9,   // 16: mcp3.Maps.m_int32_uint32:type_name -> mcp3.Maps.MInt32Uint32Entry
	10,  // 17: mcp3.Maps.m_int32_uint64:type_name -> mcp3.Maps.MInt32Uint64Entry
	11,  // 18: mcp3.Maps.m_int32_sint32:type_name -> mcp3.Maps.MInt32Sint32Entry
	12,  // 19: mcp3.Maps.m_int32_sint64:type_name -> mcp3.Maps.MInt32Sint64Entry
	13,  // 20: mcp3.Maps.m_int32_fixed32:type_name -> mcp3.Maps.MInt32Fixed32Entry
	14,  // 21: mcp3.Maps.m_int32_fixed64:type_name -> mcp3.Maps.MInt32Fixed64Entry
	15,  // 22: mcp3.Maps.m_int32_sfixed32:type_name -> mcp3.Maps.MInt32Sfixed32Entry
	16,  // 23: mcp3.Maps.m_int32_sfixed64:type_name -> mcp3.Maps.MInt32Sfixed64Entry
	17,  // 24: mcp3.Maps.m_int32_float:type_name -> mcp3.Maps.MInt32FloatEntry
	18,  // 25: mcp3.Maps.m_int32_double:type_name -> mcp3.Maps.MInt32DoubleEntry
	19,  // 26: mcp3.Maps.m_int32_bool:type_name -> mcp3.Maps.MInt32BoolEntry
	20,  // 27: mcp3.Maps.m_int32_string:type_name -> mcp3.Maps.MInt32StringEntry
	21,  // 28: mcp3.Maps.m_int32_bytes:type_name -> mcp3.Maps.MInt32BytesEntry
	22,  // 29: mcp3.Maps.m_int32_e:type_name -> mcp3.Maps.MInt32EEntry
	23,  // 30: mcp3.Maps.m_int32_leaf:type_name -> mcp3.Maps.MInt32LeafEntry
	24,  // 31: mcp3.Maps.m_int64_int32:type_name -> mcp3.Maps.MInt64Int32Entry
	25,  // 32: mcp3.Maps.m_int64_int64:type_name -> mcp3.Maps.MInt64Int64Entry
	26,  // 33: mcp3.Maps.m_int64_uint32:type_name -> mcp3.Maps.MInt64Uint32Entry
	27,  // 34: mcp3.Maps.m_int64_uint64:type_name -> mcp3.Maps.MInt64Uint64Entry
	28,  // 35: mcp3.Maps.m_int64_sint32:type_name -> mcp3.Maps.MInt64Sint32Entry
	29,  // 36: mcp3.Maps.m_int64_sint64:type_name -> mcp3.Maps.MInt64Sint64Entry
	30,  // 37: mcp3.Maps.m_int64_fixed32:type_name -> mcp3.Maps.MInt64Fixed32Entry
	31,  // 38: mcp3.Maps.m_int64_fixed64:type_name -> mcp3.Maps.MInt64Fixed64Entry
	32,  // 39: mcp3.Maps.m_int64_sfixed32:type_name -> mcp3.Maps.MInt64Sfixed32Entry
	33,  // 40: mcp3.Maps.m_int64_sfixed64:type_name -> mcp3.Maps.MInt64Sfixed64Entry
	34,  // 41: mcp3.Maps.m_int64_float:type_name -> mcp3.Maps.MInt64FloatEntry
	35,  // 42: mcp3.Maps.m_int64_double:type_name -> mcp3.Maps.MInt64DoubleEntry
	36,  // 43: mcp3.Maps.m_int64_bool:type_name -> mcp3.Maps.MInt64BoolEntry
	37,  // 44: mcp3.Maps.m_int64_string:type_name -> mcp3.Maps.MInt64StringEntry
	38,  // 45: mcp3.Maps.m_int64_bytes:type_name -> mcp3.Maps.MInt64BytesEntry
	39,  // 46: mcp3.Maps.m_int64_e:type_name -> mcp3.Maps.MInt64EEntry
	40,  // 47: mcp3.Maps.m_int64_leaf:type_name -> mcp3.Maps.MInt64LeafEntry
	41,  // 48: mcp3.Maps.m_uint32_int32:type_name -> mcp3.Maps.MUint32Int32Entry
	42,  // 49: mcp3.Maps.m_uint32_int64:type_name -> mcp3.Maps.MUint32Int64Entry
	43,  // 50: mcp3.Maps.m_uint32_uint32:type_name -> mcp3.Maps.MUint32Uint32Entry
	44,  // 51: mcp3.Maps.m_uint32_uint64:type_name -> mcp3.Maps.MUint32Uint64Entry
	45,  // 52: mcp3.Maps.m_uint32_sint32:type_name -> mcp3.Maps.MUint32Sint32Entry
	46,  // 53: mcp3.Maps.m_uint32_sint64:type_name -> mcp3.Maps.MUint32Sint64Entry
	47,  // 54: mcp3.Maps.m_uint32_fixed32:type_name -> mcp3.Maps.MUint32Fixed32Entry
	48,  // 55: mcp3.Maps.m_uint32_fixed64:type_name -> mcp3.Maps.MUint32Fixed64Entry
	49,  // 56: mcp3.Maps.m_uint32_sfixed32:type_name -> mcp3.Maps.MUint32Sfixed32Entry
	50,  // 57: mcp3.Maps.m_uint32_sfixed64:type_name -> mcp3.Maps.MUint32Sfixed64Entry
	51,  // 58: mcp3.Maps.m_uint32_float:type_name -> mcp3.Maps.MUint32FloatEntry
	52,  // 59: mcp3.Maps.m_uint32_double:type_name -> mcp3.Maps.MUint32DoubleEntry
	53,  // 60: mcp3.Maps.m_uint32_bool:type_name -> mcp3.Maps.MUint32BoolEntry
	54,  // 61: mcp3.Maps.m_uint32_string:type_name -> mcp3.Maps.MUint32StringEntry
	55,  // 62: mcp3.Maps.m_uint32_bytes:type_name -> mcp3.Maps.MUint32BytesEntry
	56,  // 63: mcp3.Maps.m_uint32_e:type_name -> mcp3.Maps.MUint32EEntry
	57,  // 64: mcp3.Maps.m_uint32_leaf:type_name -> mcp3.Maps.MUint32LeafEntry
	58,  // 65: mcp3.Maps.m_uint64_int32:type_name -> mcp3.Maps.MUint64Int32Entry
	59,  // 66: mcp3.Maps.m_uint64_int64:type_name -> mcp3.Maps.MUint64Int64Entry
	60,  // 67: mcp3.Maps.m_uint64_uint32:type_name -> mcp3.Maps.MUint64Uint32Entry
	61,  // 68: mcp3.Maps.m_uint64_uint64:type_name -> mcp3.Maps.MUint64Uint64Entry
	62,  // 69: mcp3.Maps.m_uint64_sint32:type_name -> mcp3.Maps.MUint64Sint32Entry
	63,  // 70: mcp3.Maps.m_uint64_sint64:type_name -> mcp3.Maps.MUint64Sint64Entry
	64,  // 71: mcp3.Maps.m_uint64_fixed32:type_name -> mcp3.Maps.MUint64Fixed32Entry
	65,  // 72: mcp3.Maps.m_uint64_fixed64:type_name -> mcp3.Maps.MUint64Fixed64Entry
	66,  // 73: mcp3.Maps.m_uint64_sfixed32:type_name -> mcp3.Maps.MUint64Sfixed32Entry
	67,  // 74: mcp3.Maps.m_uint64_sfixed64:type_name -> mcp3.Maps.MUint64Sfixed64Entry
	68,  // 75: mcp3.Maps.m_uint64_float:type_name -> mcp3.Maps.MUint64FloatEntry
	69,  // 76: mcp3.Maps.m_uint64_double:type_name -> mcp3.Maps.MUint64DoubleEntry
	70,  // 77: mcp3.Maps.m_uint64_bool:type_name -> mcp3.Maps.MUint64BoolEntry
	71,  // 78: mcp3.Maps.m_uint64_string:type_name -> mcp3.Maps.MUint64StringEntry
	72,  // 79: mcp3.Maps.m_uint64_bytes:type_name -> mcp3.Maps.MUint64BytesEntry
	73,  // 80: mcp3.Maps.m_uint64_e:type_name -> mcp3.Maps.MUint64EEntry
	74,  // 81: mcp3.Maps.m_uint64_leaf:type_name -> mcp3.Maps.MUint64LeafEntry
	75,  // 82: mcp3.Maps.m_sint32_int32:type_name -> mcp3.Maps.MSint32Int32Entry
	76,  // 83: mcp3.Maps.m_sint32_int64:type_name -> mcp3.Maps.MSint32Int64Entry
	77,  // 84: mcp3.Maps.m_sint32_uint32:type_name -> mcp3.Maps.MSint32Uint32Entry
	78,  // 85: mcp3.Maps.m_sint32_uint64:type_name -> mcp3.Maps.MSint32Uint64Entry
	79,  // 86: mcp3.Maps.m_sint32_sint32:type_name -> mcp3.Maps.MSint32Sint32Entry
	80,  // 87: mcp3.Maps.m_sint32_sint64:type_name -> mcp3.Maps.MSint32Sint64Entry
	81,  // 88: mcp3.Maps.m_sint32_fixed32:type_name -> mcp3.Maps.MSint32Fixed32Entry
	82,  // 89: mcp3.Maps.m_sint32_fixed64:type_name -> mcp3.Maps.MSint32Fixed64Entry
	83,  // 90: mcp3.Maps.m_sint32_sfixed32:type_name -> mcp3.Maps.MSint32Sfixed32Entry
	84,  // 91: mcp3.Maps.m_sint32_sfixed64:type_name -> mcp3.Maps.MSint32Sfixed64Entry
	85,  // 92: mcp3.Maps.m_sint32_float:type_name -> mcp3.Maps.MSint32FloatEntry
	86,  // 93: mcp3.Maps.m_sint32_double:type_name -> mcp3.Maps.MSint32DoubleEntry
	87,  // 94: mcp3.Maps.m_sint32_bool:type_name -> mcp3.Maps.MSint32BoolEntry
	88,  // 95: mcp3.Maps.m_sint32_string:type_name -> mcp3.Maps.MSint32StringEntry
	89,  // 96: mcp3.Maps.m_sint32_bytes:type_name -> mcp3.Maps.MSint32BytesEntry
	90,  // 97: mcp3.Maps.m_sint32_e:type_name -> mcp3.Maps.MSint32EEntry
	91,  // 98: mcp3.Maps.m_sint32_leaf:type_name -> mcp3.Maps.MSint32LeafEntry
	92,  // 99: mcp3.Maps.m_sint64_int32:type_name -> mcp3.Maps.MSint64Int32Entry
	93,  // 100: mcp3.Maps.m_sint64_int64:type_name -> mcp3.Maps.MSint64Int64Entry
	94,  // 101: mcp3.Maps.m_sint64_uint32:type_name -> mcp3.Maps.MSint64Uint32Entry
	95,  // 102: mcp3.Maps.m_sint64_uint64:type_name -> mcp3.Maps.MSint64Uint64Entry
	96,  // 103: mcp3.Maps.m_sint64_sint32:type_name -> mcp3.Maps.MSint64Sint32Entry
	97,  // 104: mcp3.Maps.m_sint64_sint64:type_name -> mcp3.Maps.MSint64Sint64Entry
	98,  // 105: mcp3.Maps.m_sint64_fixed32:type_name -> mcp3.Maps.MSint64Fixed32Entry
	99,  // 106: mcp3.Maps.m_sint64_fixed64:type_name -> mcp3.Maps.MSint64Fixed64Entry
	100, // 107: mcp3.Maps.m_sint64_sfixed32:type_name -> mcp3.Maps.MSint64Sfixed32Entry
	101, // 108: mcp3.Maps.m_sint64_sfixed64:type_name -> mcp3.Maps.MSint64Sfixed64Entry
	102, // 109: mcp3.Maps.m_sint64_float:type_name -> mcp3.Maps.MSint64FloatEntry
	103, // 110: mcp3.Maps.m_sint64_double:type_name -> mcp3.Maps.MSint64DoubleEntry
	104, // 111: mcp3.Maps.m_sint64_bool:type_name -> mcp3.Maps.MSint64BoolEntry
	105, // 112: mcp3.Maps.m_sint64_string:type_name -> mcp3.Maps.MSint64StringEntry
	106, // 113: mcp3.Maps.m_sint64_bytes:type_name -> mcp3.Maps.MSint64BytesEntry
	107, // 114: mcp3.Maps.m_sint64_e:type_name -> mcp3.Maps.MSint64EEntry
	108, // 115: mcp3.Maps.m_sint64_leaf:type_name -> mcp3.Maps.MSint64LeafEntry
	109, // 116: mcp3.Maps.m_fixed32_int32:type_name -> mcp3.Maps.MFixed32Int32Entry
	110, // 117: mcp3.Maps.m_fixed32_int64:type_name -> mcp3.Maps.MFixed32Int64Entry
	111, // 118: mcp3.Maps.m_fixed32_uint32:type_name -> mcp3.Maps.MFixed32Uint32Entry
	112, // 119: mcp3.Maps.m_fixed32_uint64:type_name -> mcp3.Maps.MFixed32Uint64Entry
	113, // 120: mcp3.Maps.m_fixed32_sint32:type_name -> mcp3.Maps.MFixed32Sint32Entry
	114, // 121: mcp3.Maps.m_fixed32_sint64:type_name -> mcp3.Maps.MFixed32Sint64Entry
	115, // 122: mcp3.Maps.m_fixed32_fixed32:type_name -> mcp3.Maps.MFixed32Fixed32Entry
	116, // 123: mcp3.Maps.m_fixed32_fixed64:type_name -> mcp3.Maps.MFixed32Fixed64Entry
	117, // 124: mcp3.Maps.m_fixed32_sfixed32:type_name -> mcp3.Maps.MFixed32Sfixed32Entry
	118, // 125: mcp3.Maps.m_fixed32_sfixed64:type_name -> mcp3.Maps.MFixed32Sfixed64Entry
	119, // 126: mcp3.Maps.m_fixed32_float:type_name -> mcp3.Maps.MFixed32FloatEntry
	120, // 127: mcp3.Maps.m_fixed32_double:type_name -> mcp3.Maps.MFixed32DoubleEntry
	121, // 128: mcp3.Maps.m_fixed32_bool:type_name -> mcp3.Maps.MFixed32BoolEntry
	122, // 129: mcp3.Maps.m_fixed32_string:type_name -> mcp3.Maps.MFixed32StringEntry
	123, // 130: mcp3.Maps.m_fixed32_bytes:type_name -> mcp3.Maps.MFixed32BytesEntry
	124, // 131: mcp3.Maps.m_fixed32_e:type_name -> mcp3.Maps.MFixed32EEntry
	125, // 132: mcp3.Maps.m_fixed32_leaf:type_name -> mcp3.Maps.MFixed32LeafEntry
	126, // 133: mcp3.Maps.m_fixed64_int32:type_name -> mcp3.Maps.MFixed64Int32Entry
	127, // 134: mcp3.Maps.m_fixed64_int64:type_name -> mcp3.Maps.MFixed64Int64Entry
	128, // 135: mcp3.Maps.m_fixed64_uint32:type_name -> mcp3.Maps.MFixed64Uint32Entry
	129, // 136: mcp3.Maps.m_fixed64_uint64:type_name -> mcp3.Maps.MFixed64Uint64Entry
	130, // 137: mcp3.Maps.m_fixed64_sint32:type_name -> mcp3.Maps.MFixed64Sint32Entry
	131, // 138: mcp3.Maps.m_fixed64_sint64:type_name -> mcp3.Maps.MFixed64Sint64Entry
	132, // 139: mcp3.Maps.m_fixed64_fixed32:type_name -> mcp3.Maps.MFixed64Fixed32Entry
	133, // 140: mcp3.Maps.m_fixed64_fixed64:type_name -> mcp3.Maps.MFixed64Fixed64Entry
	134, // 141: mcp3.Maps.m_fixed64_sfixed32:type_name -> mcp3.Maps.MFixed64Sfixed32Entry
	135, // 142: mcp3.Maps.m_fixed64_sfixed64:type_name -> mcp3.Maps.MFixed64Sfixed64Entry
	136, // 143: mcp3.Maps.m_fixed64_float:type_name -> mcp3.Maps.MFixed64FloatEntry
	137, // 144: mcp3.Maps.m_fixed64_double:type_name -> mcp3.Maps.MFixed64DoubleEntry
	138, // 145: mcp3.Maps.m_fixed64_bool:type_name -> mcp3.Maps.MFixed64BoolEntry
	139, // 146: mcp3.Maps.m_fixed64_string:type_name -> mcp3.Maps.MFixed64StringEntry
	140, // 147: mcp3.Maps.m_fixed64_bytes:type_name -> mcp3.Maps.MFixed64BytesEntry
	141, // 148: mcp3.Maps.m_fixed64_e:type_name -> mcp3.Maps.MFixed64EEntry
	142, // 149: mcp3.Maps.m_fixed64_leaf:type_name -> mcp3.Maps.MFixed64LeafEntry
	143, // 150: mcp3.Maps.m_sfixed32_int32:type_name -> mcp3.Maps.MSfixed32Int32Entry
	144, // 151: mcp3.Maps.m_sfixed32_int64:type_name -> mcp3.Maps.MSfixed32Int64Entry
	145, // 152: mcp3.Maps.m_sfixed32_uint32:type_name -> mcp3.Maps.MSfixed32Uint32Entry
	146, // 153: mcp3.Maps.m_sfixed32_uint64:type_name -> mcp3.Maps.MSfixed32Uint64Entry
	147, // 154: mcp3.Maps.m_sfixed32_sint32:type_name -> mcp3.Maps.MSfixed32Sint32Entry
	148, // 155: mcp3.Maps.m_sfixed32_sint64:type_name -> mcp3.Maps.MSfixed32Sint64Entry
	149, // 156: mcp3.Maps.m_sfixed32_fixed32:type_name -> mcp3.Maps.MSfixed32Fixed32Entry
	150, // 157: mcp3.Maps.m_sfixed32_fixed64:type_name -> mcp3.Maps.MSfixed32Fixed64Entry
	151, // 158: mcp3.Maps.m_sfixed32_sfixed32:type_name -> mcp3.Maps.MSfixed32Sfixed32Entry
	152, // 159: mcp3.Maps.m_sfixed32_sfixed64:type_name -> mcp3.Maps.MSfixed32Sfixed64Entry
	153, // 160: mcp3.Maps.m_sfixed32_float:type_name -> mcp3.Maps.MSfixed32FloatEntry
	154, // 161: mcp3.Maps.m_sfixed32_double:type_name -> mcp3.Maps.MSfixed32DoubleEntry
	155, // 162: mcp3.Maps.m_sfixed32_bool:type_name -> mcp3.Maps.MSfixed32BoolEntry
	156, // 163: mcp3.Maps.m_sfixed32_string:type_name -> mcp3.Maps.MSfixed32StringEntry
	157, // 164: mcp3.Maps.m_sfixed32_bytes:type_name -> mcp3.Maps.MSfixed32BytesEntry
	158, // 165: mcp3.Maps.m_sfixed32_e:type_name -> mcp3.Maps.MSfixed32EEntry
	159, // 166: mcp3.Maps.m_sfixed32_leaf:type_name -> mcp3.Maps.MSfixed32LeafEntry
	160, // 167: mcp3.Maps.m_sfixed64_int32:type_name -> mcp3.Maps.MSfixed64Int32Entry
	161, // 168: mcp3.Maps.m_sfixed64_int64:type_name -> mcp3.Maps.MSfixed64Int64Entry
	162, // 169: mcp3.Maps.m_sfixed64_uint32:type_name -> mcp3.Maps.MSfixed64Uint32Entry
	163, // 170: mcp3.Maps.m_sfixed64_uint64:type_name -> mcp3.Maps.MSfixed64Uint64Entry
	164, // 171: mcp3.Maps.m_sfixed64_sint32:type_name -> mcp3.Maps.MSfixed64Sint32Entry
	165, // 172: mcp3.Maps.m_sfixed64_sint64:type_name -> mcp3.Maps.MSfixed64Sint64Entry
	166, // 173: mcp3.Maps.m_sfixed64_fixed32:type_name -> mcp3.Maps.MSfixed64Fixed32Entry
	167, // 174: mcp3.Maps.m_sfixed64_fixed64:type_name -> mcp3.Maps.MSfixed64Fixed64Entry
	168, // 175: mcp3.Maps.m_sfixed64_sfixed32:type_name -> mcp3.Maps.MSfixed64Sfixed32Entry
	169, // 176: mcp3.Maps.m_sfixed64_sfixed64:type_name -> mcp3.Maps.MSfixed64Sfixed64Entry
	170, // 177: mcp3.Maps.m_sfixed64_float:type_name -> mcp3.Maps.MSfixed64FloatEntry
	171, // 178: mcp3.Maps.m_sfixed64_double:type_name -> mcp3.Maps.MSfixed64DoubleEntry
	172, // 179: mcp3.Maps.m_sfixed64_bool:type_name -> mcp3.Maps.MSfixed64BoolEntry
	173, // 180: mcp3.Maps.m_sfixed64_string:type_name -> mcp3.Maps.MSfixed64StringEntry
	174, // 181: mcp3.Maps.m_sfixed64_bytes:type_name -> mcp3.Maps.MSfixed64BytesEntry
	175, // 182: mcp3.Maps.m_sfixed64_e:type_name -> mcp3.Maps.MSfixed64EEntry
	176, // 183: mcp3.Maps.m_sfixed64_leaf:type_name -> mcp3.Maps.MSfixed64LeafEntry
	177, // 184: mcp3.Maps.m_bool_int32:type_name -> mcp3.Maps.MBoolInt32Entry
	178, // 185: mcp3.Maps.m_bool_int64:type_name -> mcp3.Maps.MBoolInt64Entry
	179, // 186: mcp3.Maps.m_bool_uint32:type_name -> mcp3.Maps.MBoolUint32Entry
	180, // 187: mcp3.Maps.m_bool_uint64:type_name -> mcp3.Maps.MBoolUint64Entry
	181, // 188: mcp3.Maps.m_bool_sint32:type_name -> mcp3.Maps.MBoolSint32Entry
	182, // 189: mcp3.Maps.m_bool_sint64:type_name -> mcp3.Maps.MBoolSint64Entry
	183, // 190: mcp3.Maps.m_bool_fixed32:type_name -> mcp3.Maps.MBoolFixed32Entry
	184, // 191: mcp3.Maps.m_bool_fixed64:type_name -> mcp3.Maps.MBoolFixed64Entry
	185, // 192: mcp3.Maps.m_bool_sfixed32:type_name -> mcp3.Maps.MBoolSfixed32Entry
	186, // 193: mcp3.Maps.m_bool_sfixed64:type_name -> mcp3.Maps.MBoolSfixed64Entry
	187, // 194: mcp3.Maps.m_bool_float:type_name -> mcp3.Maps.MBoolFloatEntry
	188, // 195: mcp3.Maps.m_bool_double:type_name -> mcp3.Maps.MBoolDoubleEntry
	189, // 196: mcp3.Maps.m_bool_bool:type_name -> mcp3.Maps.MBoolBoolEntry
	190, // 197: mcp3.Maps.m_bool_string:type_name -> mcp3.Maps.MBoolStringEntry
	191, // 198: mcp3.Maps.m_bool_bytes:type_name -> mcp3.Maps.MBoolBytesEntry
	192, // 199: mcp3.Maps.m_bool_e:type_name -> mcp3.Maps.MBoolEEntry
	193, // 200: mcp3.Maps.m_bool_leaf:type_name -> mcp3.Maps.MBoolLeafEntry
	194, // 201: mcp3.Maps.m_string_int32:type_name -> mcp3.Maps.MStringInt32Entry
	195, // 202: mcp3.Maps.m_string_int64:type_name -> mcp3.Maps.MStringInt64Entry
	196, // 203: mcp3.Maps.m_string_uint32:type_name -> mcp3.Maps.MStringUint32Entry
	197, // 204: mcp3.Maps.m_string_uint64:type_name -> mcp3.Maps.MStringUint64Entry
	198, // 205: mcp3.Maps.m_string_sint32:type_name -> mcp3.Maps.MStringSint32Entry
	199, // 206: mcp3.Maps.m_string_sint64:type_name -> mcp3.Maps.MStringSint64Entry
	200, // 207: mcp3.Maps.m_string_fixed32:type_name -> mcp3.Maps.MStringFixed32Entry
	201, // 208: mcp3.Maps.m_string_fixed64:type_name -> mcp3.Maps.MStringFixed64Entry
	202, // 209: mcp3.Maps.m_string_sfixed32:type_name -> mcp3.Maps.MStringSfixed32Entry
	203, // 210: mcp3.Maps.m_string_sfixed64:type_name -> mcp3.Maps.MStringSfixed64Entry
	204, // 211: mcp3.Maps.m_string_float:type_name -> mcp3.Maps.MStringFloatEntry
	205, // 212: mcp3.Maps.m_string_double:type_name -> mcp3.Maps.MStringDoubleEntry
	206, // 213: mcp3.Maps.m_string_bool:type_name -> mcp3.Maps.MStringBoolEntry
	207, // 214: mcp3.Maps.m_string_string:type_name -> mcp3.Maps.MStringStringEntry
	208, // 215: mcp3.Maps.m_string_bytes:type_name -> mcp3.Maps.MStringBytesEntry
	209, // 216: mcp3.Maps.m_string_e:type_name -> mcp3.Maps.MStringEEntry
	210, // 217: mcp3.Maps.m_string_leaf:type_name -> mcp3.Maps.MStringLeafEntry
	4,   // 218: mcp3.Tree.l:type_name -> mcp3.Tree
	4,   // 219: mcp3.Tree.r:type_name -> mcp3.Tree
	211, // 220: mcp3.Tree.m32:type_name -> mcp3.Tree.M32Entry
	212, // 221: mcp3.Tree.m64:type_name -> mcp3.Tree.M64Entry
	213, // 222: mcp3.Tree.ms:type_name -> mcp3.Tree.MsEntry
	214, // 223: mcp3.Tree.mb:type_name -> mcp3.Tree.MbEntry
	4,   // 224: mcp3.Tree.x:type_name -> mcp3.Tree
	2,   // 225: mcp3.All.NamedEntry.value:type_name -> mcp3.All
	2,   // 226: mcp3.All.ByidEntry.value:type_name -> mcp3.All
	0,   // 227: mcp3.Maps.MInt32EEntry.value:type_name -> mcp3.E
	1,   // 228: mcp3.Maps.MInt32LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 229: mcp3.Maps.MInt64EEntry.value:type_name -> mcp3.E
	1,   // 230: mcp3.Maps.MInt64LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 231: mcp3.Maps.MUint32EEntry.value:type_name -> mcp3.E
	1,   // 232: mcp3.Maps.MUint32LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 233: mcp3.Maps.MUint64EEntry.value:type_name -> mcp3.E
	1,   // 234: mcp3.Maps.MUint64LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 235: mcp3.Maps.MSint32EEntry.value:type_name -> mcp3.E
	1,   // 236: mcp3.Maps.MSint32LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 237: mcp3.Maps.MSint64EEntry.value:type_name -> mcp3.E
	1,   // 238: mcp3.Maps.MSint64LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 239: mcp3.Maps.MFixed32EEntry.value:type_name -> mcp3.E
	1,   // 240: mcp3.Maps.MFixed32LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 241: mcp3.Maps.MFixed64EEntry.value:type_name -> mcp3.E
	1,   // 242: mcp3.Maps.MFixed64LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 243: mcp3.Maps.MSfixed32EEntry.value:type_name -> mcp3.E
	1,   // 244: mcp3.Maps.MSfixed32LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 245: mcp3.Maps.MSfixed64EEntry.value:type_name -> mcp3.E
	1,   // 246: mcp3.Maps.MSfixed64LeafEntry.value:type_name -> mcp3.Leaf
	0,   // 247: mcp3.Maps.MBoolEEntry.value:type_name -> mcp3.E
	1,   // 248: mcp3.Maps.MBoolLeafEntry.value:type_name -> mcp3.Leaf
	0,   // 249: mcp3.Maps.MStringEEntry.value:type_name -> mcp3.E
	1,   // 250: mcp3.Maps.MStringLeafEntry.value:type_name -> mcp3.Leaf
	4,   // 251: mcp3.Tree.M32Entry.value:type_name -> mcp3.Tree
	4,   // 252: mcp3.Tree.M64Entry.value:type_name -> mcp3.Tree
	4,   // 253: mcp3.Tree.MsEntry.value:type_name -> mcp3.Tree
	4,   // 254: mcp3.Tree.MbEntry.value:type_name -> mcp3.Tree
	255, // [255:255] is the sub-list for method output_type
	255, // [255:255] is the sub-list for method input_type
	255, // [255:255] is the sub-list for extension type_name
	255, // [255:255] is the sub-list for extension extendee
	0,   // [0:255] is the sub-list for field type_name
}

func init() { file_p3_proto_init() }
func file_p3_proto_init() {
	if File_p3_proto != nil {
		return
	}
	file_p3_proto_msgTypes[1].OneofWrappers = []any{
		(*All_XInt32)(nil),
		(*All_XInt64)(nil),
		(*All_XUint32)(nil),
		(*All_XUint64)(nil),
		(*All_XSint32)(nil),
		(*All_XSint64)(nil),
		(*All_XFixed32)(nil),
		(*All_XFixed64)(nil),
		(*All_XSfixed32)(nil),
		(*All_XSfixed64)(nil),
		(*All_XFloat)(nil),
		(*All_XDouble)(nil),
		(*All_XBool)(nil),
		(*All_XString)(nil),
		(*All_XBytes)(nil),
		(*All_XE)(nil),
		(*All_XM)(nil),
		(*All_XSelf)(nil),
		(*All_VS)(nil),
		(*All_VM)(nil),
		(*All_VB)(nil),
	}
	file_p3_proto_msgTypes[3].OneofWrappers = []any{
		(*Tree_X)(nil),
		(*Tree_Leaf)(nil),
	}
	type x struct{}
	out := protoimpl.TypeBuilder{
		File: protoimpl.DescBuilder{
			GoPackagePath: reflect.TypeOf(x{}).PkgPath(),
			RawDescriptor: unsafe.Slice(unsafe.StringData(file_p3_proto_rawDesc), len(file_p3_proto_rawDesc)),
			NumEnums:      1,
			NumMessages:   214,
			NumExtensions: 0,
			NumServices:   0,
		},
		GoTypes:           file_p3_proto_goTypes,
		DependencyIndexes: file_p3_proto_depIdxs,
		EnumInfos:         file_p3_proto_enumTypes,
		MessageInfos:      file_p3_proto_msgTypes,
	}.Build()
	File_p3_proto = out.File
	file_p3_proto_goTypes = nil
	file_p3_proto_depIdxs = nil
}
