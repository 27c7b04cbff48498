// Code generated by prutalgen. DO NOT EDIT.
// /tmp/tmp.OmKSzTg09E/prutalgen -I . -go_out /tmp/tmp.OmKSzTg09E/o -gen_getter pg3.proto

package pg3

import "strconv"

type E int32

const (
	E_Z   E = 0
	E_A   E = 1
	E_NEG E = -1
	E_BIG E = 2147483647
)

// Enum value maps for E.
var E_name = map[int32]string{
	0:          "Z",
	1:          "A",
	-1:         "NEG",
	2147483647: "BIG",
}

var E_value = map[string]int32{
	"Z":   0,
	"A":   1,
	"NEG": -1,
	"BIG": 2147483647,
}

func (x E) String() string {
	s, ok := E_name[int32(x)]
	if ok {
		return s
	}
	return strconv.Itoa(int(x))
}

type Leaf struct {
	A int32    `protobuf:"varint,1,opt,name=a" json:"a,omitempty"`
	B string   `protobuf:"bytes,2,opt,name=b" json:"b,omitempty"`
	C []uint64 `protobuf:"varint,3,rep,packed,name=c" json:"c,omitempty"`
}

func (x *Leaf) Reset() { *x = Leaf{} }

func (x *Leaf) GetA() int32 {
	if x != nil {
		return x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil {
		return x.B
	}
	return ""
}

func (x *Leaf) GetC() []uint64 {
	if x != nil {
		return x.C
	}
	return nil
}

type All struct {
	IInt32    int32           `protobuf:"varint,1,opt,name=i_int32" json:"i_int32,omitempty"`
	IInt64    int64           `protobuf:"varint,2,opt,name=i_int64" json:"i_int64,omitempty"`
	IUint32   uint32          `protobuf:"varint,3,opt,name=i_uint32" json:"i_uint32,omitempty"`
	IUint64   uint64          `protobuf:"varint,4,opt,name=i_uint64" json:"i_uint64,omitempty"`
	ISint32   int32           `protobuf:"zigzag32,5,opt,name=i_sint32" json:"i_sint32,omitempty"`
	ISint64   int64           `protobuf:"zigzag64,6,opt,name=i_sint64" json:"i_sint64,omitempty"`
	IFixed32  uint32          `protobuf:"fixed32,7,opt,name=i_fixed32" json:"i_fixed32,omitempty"`
	IFixed64  uint64          `protobuf:"fixed64,8,opt,name=i_fixed64" json:"i_fixed64,omitempty"`
	ISfixed32 int32           `protobuf:"fixed32,9,opt,name=i_sfixed32" json:"i_sfixed32,omitempty"`
	ISfixed64 int64           `protobuf:"fixed64,10,opt,name=i_sfixed64" json:"i_sfixed64,omitempty"`
	IFloat    float32         `protobuf:"fixed32,11,opt,name=i_float" json:"i_float,omitempty"`
	IDouble   float64         `protobuf:"fixed64,12,opt,name=i_double" json:"i_double,omitempty"`
	IBool     bool            `protobuf:"varint,13,opt,name=i_bool" json:"i_bool,omitempty"`
	IString   string          `protobuf:"bytes,14,opt,name=i_string" json:"i_string,omitempty"`
	IBytes    []byte          `protobuf:"bytes,15,opt,name=i_bytes" json:"i_bytes,omitempty"`
	IE        E               `protobuf:"varint,16,opt,name=i_e" json:"i_e,omitempty"`
	OInt32    *int32          `protobuf:"varint,17,opt,name=o_int32" json:"o_int32,omitempty"`
	OInt64    *int64          `protobuf:"varint,18,opt,name=o_int64" json:"o_int64,omitempty"`
	OUint32   *uint32         `protobuf:"varint,19,opt,name=o_uint32" json:"o_uint32,omitempty"`
	OUint64   *uint64         `protobuf:"varint,20,opt,name=o_uint64" json:"o_uint64,omitempty"`
	OSint32   *int32          `protobuf:"zigzag32,21,opt,name=o_sint32" json:"o_sint32,omitempty"`
	OSint64   *int64          `protobuf:"zigzag64,22,opt,name=o_sint64" json:"o_sint64,omitempty"`
	OFixed32  *uint32         `protobuf:"fixed32,23,opt,name=o_fixed32" json:"o_fixed32,omitempty"`
	OFixed64  *uint64         `protobuf:"fixed64,24,opt,name=o_fixed64" json:"o_fixed64,omitempty"`
	OSfixed32 *int32          `protobuf:"fixed32,25,opt,name=o_sfixed32" json:"o_sfixed32,omitempty"`
	OSfixed64 *int64          `protobuf:"fixed64,26,opt,name=o_sfixed64" json:"o_sfixed64,omitempty"`
	OFloat    *float32        `protobuf:"fixed32,27,opt,name=o_float" json:"o_float,omitempty"`
	ODouble   *float64        `protobuf:"fixed64,28,opt,name=o_double" json:"o_double,omitempty"`
	OBool     *bool           `protobuf:"varint,29,opt,name=o_bool" json:"o_bool,omitempty"`
	OString   *string         `protobuf:"bytes,30,opt,name=o_string" json:"o_string,omitempty"`
	OBytes    []byte          `protobuf:"bytes,31,opt,name=o_bytes" json:"o_bytes,omitempty"`
	OE        *E              `protobuf:"varint,32,opt,name=o_e" json:"o_e,omitempty"`
	RInt32    []int32         `protobuf:"varint,33,rep,packed,name=r_int32" json:"r_int32,omitempty"`
	RInt64    []int64         `protobuf:"varint,34,rep,packed,name=r_int64" json:"r_int64,omitempty"`
	RUint32   []uint32        `protobuf:"varint,35,rep,packed,name=r_uint32" json:"r_uint32,omitempty"`
	RUint64   []uint64        `protobuf:"varint,36,rep,packed,name=r_uint64" json:"r_uint64,omitempty"`
	RSint32   []int32         `protobuf:"zigzag32,37,rep,packed,name=r_sint32" json:"r_sint32,omitempty"`
	RSint64   []int64         `protobuf:"zigzag64,38,rep,packed,name=r_sint64" json:"r_sint64,omitempty"`
	RFixed32  []uint32        `protobuf:"fixed32,39,rep,packed,name=r_fixed32" json:"r_fixed32,omitempty"`
	RFixed64  []uint64        `protobuf:"fixed64,40,rep,packed,name=r_fixed64" json:"r_fixed64,omitempty"`
	RSfixed32 []int32         `protobuf:"fixed32,41,rep,packed,name=r_sfixed32" json:"r_sfixed32,omitempty"`
	RSfixed64 []int64         `protobuf:"fixed64,42,rep,packed,name=r_sfixed64" json:"r_sfixed64,omitempty"`
	RFloat    []float32       `protobuf:"fixed32,43,rep,packed,name=r_float" json:"r_float,omitempty"`
	RDouble   []float64       `protobuf:"fixed64,44,rep,packed,name=r_double" json:"r_double,omitempty"`
	RBool     []bool          `protobuf:"varint,45,rep,packed,name=r_bool" json:"r_bool,omitempty"`
	RString   []string        `protobuf:"bytes,46,rep,name=r_string" json:"r_string,omitempty"`
	RBytes    [][]byte        `protobuf:"bytes,47,rep,name=r_bytes" json:"r_bytes,omitempty"`
	RE        []E             `protobuf:"varint,48,rep,packed,name=r_e" json:"r_e,omitempty"`
	UInt32    []int32         `protobuf:"varint,49,rep,packed,name=u_int32" json:"u_int32,omitempty"`
	UInt64    []int64         `protobuf:"varint,50,rep,packed,name=u_int64" json:"u_int64,omitempty"`
	UUint32   []uint32        `protobuf:"varint,51,rep,packed,name=u_uint32" json:"u_uint32,omitempty"`
	UUint64   []uint64        `protobuf:"varint,52,rep,packed,name=u_uint64" json:"u_uint64,omitempty"`
	USint32   []int32         `protobuf:"zigzag32,53,rep,packed,name=u_sint32" json:"u_sint32,omitempty"`
	USint64   []int64         `protobuf:"zigzag64,54,rep,packed,name=u_sint64" json:"u_sint64,omitempty"`
	UFixed32  []uint32        `protobuf:"fixed32,55,rep,packed,name=u_fixed32" json:"u_fixed32,omitempty"`
	UFixed64  []uint64        `protobuf:"fixed64,56,rep,packed,name=u_fixed64" json:"u_fixed64,omitempty"`
	USfixed32 []int32         `protobuf:"fixed32,57,rep,packed,name=u_sfixed32" json:"u_sfixed32,omitempty"`
	USfixed64 []int64         `protobuf:"fixed64,58,rep,packed,name=u_sfixed64" json:"u_sfixed64,omitempty"`
	UFloat    []float32       `protobuf:"fixed32,59,rep,packed,name=u_float" json:"u_float,omitempty"`
	UDouble   []float64       `protobuf:"fixed64,60,rep,packed,name=u_double" json:"u_double,omitempty"`
	UBool     []bool          `protobuf:"varint,61,rep,packed,name=u_bool" json:"u_bool,omitempty"`
	UE        []E             `protobuf:"varint,62,rep,packed,name=u_e" json:"u_e,omitempty"`
	M         *Leaf           `protobuf:"bytes,63,opt,name=m" json:"m,omitempty"`
	Rm        []*Leaf         `protobuf:"bytes,64,rep,name=rm" json:"rm,omitempty"`
	Self      *All            `protobuf:"bytes,65,opt,name=self" json:"self,omitempty"`
	Kids      []*All          `protobuf:"bytes,66,rep,name=kids" json:"kids,omitempty"`
	Named     map[string]*All `protobuf:"bytes,67,rep,name=named" json:"named,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Byid      map[int32]*All  `protobuf:"bytes,68,rep,name=byid" json:"byid,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are assignable to U:
	//
	//	*All_XInt32
	//	*All_XInt64
	//	*All_XUint32
	//	*All_XUint64
	//	*All_XSint32
	//	*All_XSint64
	//	*All_XFixed32
	//	*All_XFixed64
	//	*All_XSfixed32
	//	*All_XSfixed64
	//	*All_XFloat
	//	*All_XDouble
	//	*All_XBool
	//	*All_XString
	//	*All_XBytes
	//	*All_XE
	//	*All_XM
	//	*All_XSelf
	U isAll_U `protobuf_oneof:"u"`
	// Types that are assignable to V:
	//
	//	*All_VS
	//	*All_VM
	//	*All_VB
	V isAll_V `protobuf_oneof:"v"`
}

func (x *All) Reset() { *x = All{} }

func (x *All) GetIInt32() int32 {
	if x != nil {
		return x.IInt32
	}
	return 0
}

func (x *All) GetIInt64() int64 {
	if x != nil {
		return x.IInt64
	}
	return 0
}

func (x *All) GetIUint32() uint32 {
	if x != nil {
		return x.IUint32
	}
	return 0
}

func (x *All) GetIUint64() uint64 {
	if x != nil {
		return x.IUint64
	}
	return 0
}

func (x *All) GetISint32() int32 {
	if x != nil {
		return x.ISint32
	}
	return 0
}

func (x *All) GetISint64() int64 {
	if x != nil {
		return x.ISint64
	}
	return 0
}

func (x *All) GetIFixed32() uint32 {
	if x != nil {
		return x.IFixed32
	}
	return 0
}

func (x *All) GetIFixed64() uint64 {
	if x != nil {
		return x.IFixed64
	}
	return 0
}

func (x *All) GetISfixed32() int32 {
	if x != nil {
		return x.ISfixed32
	}
	return 0
}

func (x *All) GetISfixed64() int64 {
	if x != nil {
		return x.ISfixed64
	}
	return 0
}

func (x *All) GetIFloat() float32 {
	if x != nil {
		return x.IFloat
	}
	return 0
}

func (x *All) GetIDouble() float64 {
	if x != nil {
		return x.IDouble
	}
	return 0
}

func (x *All) GetIBool() bool {
	if x != nil {
		return x.IBool
	}
	return false
}

func (x *All) GetIString() string {
	if x != nil {
		return x.IString
	}
	return ""
}

func (x *All) GetIBytes() []byte {
	if x != nil {
		return x.IBytes
	}
	return nil
}

func (x *All) GetIE() E {
	if x != nil {
		return x.IE
	}
	return E_Z
}

func (x *All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *All) GetOE() E {
	if x != nil && x.OE != nil {
		return *x.OE
	}
	return E_Z
}

func (x *All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *All) GetRE() []E {
	if x != nil {
		return x.RE
	}
	return nil
}

func (x *All) GetUInt32() []int32 {
	if x != nil {
		return x.UInt32
	}
	return nil
}

func (x *All) GetUInt64() []int64 {
	if x != nil {
		return x.UInt64
	}
	return nil
}

func (x *All) GetUUint32() []uint32 {
	if x != nil {
		return x.UUint32
	}
	return nil
}

func (x *All) GetUUint64() []uint64 {
	if x != nil {
		return x.UUint64
	}
	return nil
}

func (x *All) GetUSint32() []int32 {
	if x != nil {
		return x.USint32
	}
	return nil
}

func (x *All) GetUSint64() []int64 {
	if x != nil {
		return x.USint64
	}
	return nil
}

func (x *All) GetUFixed32() []uint32 {
	if x != nil {
		return x.UFixed32
	}
	return nil
}

func (x *All) GetUFixed64() []uint64 {
	if x != nil {
		return x.UFixed64
	}
	return nil
}

func (x *All) GetUSfixed32() []int32 {
	if x != nil {
		return x.USfixed32
	}
	return nil
}

func (x *All) GetUSfixed64() []int64 {
	if x != nil {
		return x.USfixed64
	}
	return nil
}

func (x *All) GetUFloat() []float32 {
	if x != nil {
		return x.UFloat
	}
	return nil
}

func (x *All) GetUDouble() []float64 {
	if x != nil {
		return x.UDouble
	}
	return nil
}

func (x *All) GetUBool() []bool {
	if x != nil {
		return x.UBool
	}
	return nil
}

func (x *All) GetUE() []E {
	if x != nil {
		return x.UE
	}
	return nil
}

func (x *All) GetM() *Leaf {
	if x != nil {
		return x.M
	}
	return nil
}

func (x *All) GetRm() []*Leaf {
	if x != nil {
		return x.Rm
	}
	return nil
}

func (x *All) GetSelf() *All {
	if x != nil {
		return x.Self
	}
	return nil
}

func (x *All) GetKids() []*All {
	if x != nil {
		return x.Kids
	}
	return nil
}

func (x *All) GetNamed() map[string]*All {
	if x != nil {
		return x.Named
	}
	return nil
}

func (x *All) GetByid() map[int32]*All {
	if x != nil {
		return x.Byid
	}
	return nil
}

func (x *All) GetU() isAll_U {
	if x != nil {
		return x.U
	}
	return nil
}
func (x *All) GetXInt32() int32 {
	if p, ok := x.GetU().(*All_XInt32); ok {
		return p.XInt32
	}
	return 0
}

func (x *All) GetXInt64() int64 {
	if p, ok := x.GetU().(*All_XInt64); ok {
		return p.XInt64
	}
	return 0
}

func (x *All) GetXUint32() uint32 {
	if p, ok := x.GetU().(*All_XUint32); ok {
		return p.XUint32
	}
	return 0
}

func (x *All) GetXUint64() uint64 {
	if p, ok := x.GetU().(*All_XUint64); ok {
		return p.XUint64
	}
	return 0
}

func (x *All) GetXSint32() int32 {
	if p, ok := x.GetU().(*All_XSint32); ok {
		return p.XSint32
	}
	return 0
}

func (x *All) GetXSint64() int64 {
	if p, ok := x.GetU().(*All_XSint64); ok {
		return p.XSint64
	}
	return 0
}

func (x *All) GetXFixed32() uint32 {
	if p, ok := x.GetU().(*All_XFixed32); ok {
		return p.XFixed32
	}
	return 0
}

func (x *All) GetXFixed64() uint64 {
	if p, ok := x.GetU().(*All_XFixed64); ok {
		return p.XFixed64
	}
	return 0
}

func (x *All) GetXSfixed32() int32 {
	if p, ok := x.GetU().(*All_XSfixed32); ok {
		return p.XSfixed32
	}
	return 0
}

func (x *All) GetXSfixed64() int64 {
	if p, ok := x.GetU().(*All_XSfixed64); ok {
		return p.XSfixed64
	}
	return 0
}

func (x *All) GetXFloat() float32 {
	if p, ok := x.GetU().(*All_XFloat); ok {
		return p.XFloat
	}
	return 0
}

func (x *All) GetXDouble() float64 {
	if p, ok := x.GetU().(*All_XDouble); ok {
		return p.XDouble
	}
	return 0
}

func (x *All) GetXBool() bool {
	if p, ok := x.GetU().(*All_XBool); ok {
		return p.XBool
	}
	return false
}

func (x *All) GetXString() string {
	if p, ok := x.GetU().(*All_XString); ok {
		return p.XString
	}
	return ""
}

func (x *All) GetXBytes() []byte {
	if p, ok := x.GetU().(*All_XBytes); ok {
		return p.XBytes
	}
	return nil
}

func (x *All) GetXE() E {
	if p, ok := x.GetU().(*All_XE); ok {
		return p.XE
	}
	return E_Z
}

func (x *All) GetXM() *Leaf {
	if p, ok := x.GetU().(*All_XM); ok {
		return p.XM
	}
	return nil
}

func (x *All) GetXSelf() *All {
	if p, ok := x.GetU().(*All_XSelf); ok {
		return p.XSelf
	}
	return nil
}

func (x *All) GetV() isAll_V {
	if x != nil {
		return x.V
	}
	return nil
}
func (x *All) GetVS() string {
	if p, ok := x.GetV().(*All_VS); ok {
		return p.VS
	}
	return ""
}

func (x *All) GetVM() *Leaf {
	if p, ok := x.GetV().(*All_VM); ok {
		return p.VM
	}
	return nil
}

func (x *All) GetVB() bool {
	if p, ok := x.GetV().(*All_VB); ok {
		return p.VB
	}
	return false
}

// XXX_OneofWrappers is for the internal use of the prutal package.
func (*All) XXX_OneofWrappers() []interface{} {
	return []interface{}{
		(*All_XInt32)(nil),
		(*All_XInt64)(nil),
		(*All_XUint32)(nil),
		(*All_XUint64)(nil),
		(*All_XSint32)(nil),
		(*All_XSint64)(nil),
		(*All_XFixed32)(nil),
		(*All_XFixed64)(nil),
		(*All_XSfixed32)(nil),
		(*All_XSfixed64)(nil),
		(*All_XFloat)(nil),
		(*All_XDouble)(nil),
		(*All_XBool)(nil),
		(*All_XString)(nil),
		(*All_XBytes)(nil),
		(*All_XE)(nil),
		(*All_XM)(nil),
		(*All_XSelf)(nil),
		(*All_VS)(nil),
		(*All_VM)(nil),
		(*All_VB)(nil),
	}
}

type isAll_U interface {
	isAll_U()
}

type All_XInt32 struct {
	XInt32 int32 `protobuf:"varint,900,opt,name=x_int32" json:"x_int32,omitempty"`
}

func (*All_XInt32) isAll_U() {}

type All_XInt64 struct {
	XInt64 int64 `protobuf:"varint,901,opt,name=x_int64" json:"x_int64,omitempty"`
}

func (*All_XInt64) isAll_U() {}

type All_XUint32 struct {
	XUint32 uint32 `protobuf:"varint,902,opt,name=x_uint32" json:"x_uint32,omitempty"`
}

func (*All_XUint32) isAll_U() {}

type All_XUint64 struct {
	XUint64 uint64 `protobuf:"varint,903,opt,name=x_uint64" json:"x_uint64,omitempty"`
}

func (*All_XUint64) isAll_U() {}

type All_XSint32 struct {
	XSint32 int32 `protobuf:"zigzag32,904,opt,name=x_sint32" json:"x_sint32,omitempty"`
}

func (*All_XSint32) isAll_U() {}

type All_XSint64 struct {
	XSint64 int64 `protobuf:"zigzag64,905,opt,name=x_sint64" json:"x_sint64,omitempty"`
}

func (*All_XSint64) isAll_U() {}

type All_XFixed32 struct {
	XFixed32 uint32 `protobuf:"fixed32,906,opt,name=x_fixed32" json:"x_fixed32,omitempty"`
}

func (*All_XFixed32) isAll_U() {}

type All_XFixed64 struct {
	XFixed64 uint64 `protobuf:"fixed64,907,opt,name=x_fixed64" json:"x_fixed64,omitempty"`
}

func (*All_XFixed64) isAll_U() {}

type All_XSfixed32 struct {
	XSfixed32 int32 `protobuf:"fixed32,908,opt,name=x_sfixed32" json:"x_sfixed32,omitempty"`
}

func (*All_XSfixed32) isAll_U() {}

type All_XSfixed64 struct {
	XSfixed64 int64 `protobuf:"fixed64,909,opt,name=x_sfixed64" json:"x_sfixed64,omitempty"`
}

func (*All_XSfixed64) isAll_U() {}

type All_XFloat struct {
	XFloat float32 `protobuf:"fixed32,910,opt,name=x_float" json:"x_float,omitempty"`
}

func (*All_XFloat) isAll_U() {}

type All_XDouble struct {
	XDouble float64 `protobuf:"fixed64,911,opt,name=x_double" json:"x_double,omitempty"`
}

func (*All_XDouble) isAll_U() {}

type All_XBool struct {
	XBool bool `protobuf:"varint,912,opt,name=x_bool" json:"x_bool,omitempty"`
}

func (*All_XBool) isAll_U() {}

type All_XString struct {
	XString string `protobuf:"bytes,913,opt,name=x_string" json:"x_string,omitempty"`
}

func (*All_XString) isAll_U() {}

type All_XBytes struct {
	XBytes []byte `protobuf:"bytes,914,opt,name=x_bytes" json:"x_bytes,omitempty"`
}

func (*All_XBytes) isAll_U() {}

type All_XE struct {
	XE E `protobuf:"varint,915,opt,name=x_e" json:"x_e,omitempty"`
}

func (*All_XE) isAll_U() {}

type All_XM struct {
	XM *Leaf `protobuf:"bytes,916,opt,name=x_m" json:"x_m,omitempty"`
}

func (*All_XM) isAll_U() {}

type All_XSelf struct {
	XSelf *All `protobuf:"bytes,917,opt,name=x_self" json:"x_self,omitempty"`
}

func (*All_XSelf) isAll_U() {}

type isAll_V interface {
	isAll_V()
}

type All_VS struct {
	VS string `protobuf:"bytes,1100,opt,name=v_s" json:"v_s,omitempty"`
}

func (*All_VS) isAll_V() {}

type All_VM struct {
	VM *Leaf `protobuf:"bytes,1101,opt,name=v_m" json:"v_m,omitempty"`
}

func (*All_VM) isAll_V() {}

type All_VB struct {
	VB bool `protobuf:"varint,1102,opt,name=v_b" json:"v_b,omitempty"`
}

func (*All_VB) isAll_V() {}

type Maps struct {
	MInt32Int32       map[int32]int32    `protobuf:"bytes,1,rep,name=m_int32_int32" json:"m_int32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Int64       map[int32]int64    `protobuf:"bytes,2,rep,name=m_int32_int64" json:"m_int32_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Uint32      map[int32]uint32   `protobuf:"bytes,3,rep,name=m_int32_uint32" json:"m_int32_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Uint64      map[int32]uint64   `protobuf:"bytes,4,rep,name=m_int32_uint64" json:"m_int32_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Sint32      map[int32]int32    `protobuf:"bytes,5,rep,name=m_int32_sint32" json:"m_int32_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MInt32Sint64      map[int32]int64    `protobuf:"bytes,6,rep,name=m_int32_sint64" json:"m_int32_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MInt32Fixed32     map[int32]uint32   `protobuf:"bytes,7,rep,name=m_int32_fixed32" json:"m_int32_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Fixed64     map[int32]uint64   `protobuf:"bytes,8,rep,name=m_int32_fixed64" json:"m_int32_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Sfixed32    map[int32]int32    `protobuf:"bytes,9,rep,name=m_int32_sfixed32" json:"m_int32_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Sfixed64    map[int32]int64    `protobuf:"bytes,10,rep,name=m_int32_sfixed64" json:"m_int32_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Float       map[int32]float32  `protobuf:"bytes,11,rep,name=m_int32_float" json:"m_int32_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt32Double      map[int32]float64  `protobuf:"bytes,12,rep,name=m_int32_double" json:"m_int32_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt32Bool        map[int32]bool     `protobuf:"bytes,13,rep,name=m_int32_bool" json:"m_int32_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32String      map[int32]string   `protobuf:"bytes,14,rep,name=m_int32_string" json:"m_int32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32Bytes       map[int32][]byte   `protobuf:"bytes,15,rep,name=m_int32_bytes" json:"m_int32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt32E           map[int32]E        `protobuf:"bytes,16,rep,name=m_int32_e" json:"m_int32_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt32Leaf        map[int32]*Leaf    `protobuf:"bytes,17,rep,name=m_int32_leaf" json:"m_int32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Int32       map[int64]int32    `protobuf:"bytes,18,rep,name=m_int64_int32" json:"m_int64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Int64       map[int64]int64    `protobuf:"bytes,19,rep,name=m_int64_int64" json:"m_int64_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Uint32      map[int64]uint32   `protobuf:"bytes,20,rep,name=m_int64_uint32" json:"m_int64_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Uint64      map[int64]uint64   `protobuf:"bytes,21,rep,name=m_int64_uint64" json:"m_int64_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Sint32      map[int64]int32    `protobuf:"bytes,22,rep,name=m_int64_sint32" json:"m_int64_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MInt64Sint64      map[int64]int64    `protobuf:"bytes,23,rep,name=m_int64_sint64" json:"m_int64_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MInt64Fixed32     map[int64]uint32   `protobuf:"bytes,24,rep,name=m_int64_fixed32" json:"m_int64_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Fixed64     map[int64]uint64   `protobuf:"bytes,25,rep,name=m_int64_fixed64" json:"m_int64_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Sfixed32    map[int64]int32    `protobuf:"bytes,26,rep,name=m_int64_sfixed32" json:"m_int64_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Sfixed64    map[int64]int64    `protobuf:"bytes,27,rep,name=m_int64_sfixed64" json:"m_int64_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Float       map[int64]float32  `protobuf:"bytes,28,rep,name=m_int64_float" json:"m_int64_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MInt64Double      map[int64]float64  `protobuf:"bytes,29,rep,name=m_int64_double" json:"m_int64_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MInt64Bool        map[int64]bool     `protobuf:"bytes,30,rep,name=m_int64_bool" json:"m_int64_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64String      map[int64]string   `protobuf:"bytes,31,rep,name=m_int64_string" json:"m_int64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64Bytes       map[int64][]byte   `protobuf:"bytes,32,rep,name=m_int64_bytes" json:"m_int64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MInt64E           map[int64]E        `protobuf:"bytes,33,rep,name=m_int64_e" json:"m_int64_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MInt64Leaf        map[int64]*Leaf    `protobuf:"bytes,34,rep,name=m_int64_leaf" json:"m_int64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Int32      map[uint32]int32   `protobuf:"bytes,35,rep,name=m_uint32_int32" json:"m_uint32_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Int64      map[uint32]int64   `protobuf:"bytes,36,rep,name=m_uint32_int64" json:"m_uint32_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Uint32     map[uint32]uint32  `protobuf:"bytes,37,rep,name=m_uint32_uint32" json:"m_uint32_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Uint64     map[uint32]uint64  `protobuf:"bytes,38,rep,name=m_uint32_uint64" json:"m_uint32_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Sint32     map[uint32]int32   `protobuf:"bytes,39,rep,name=m_uint32_sint32" json:"m_uint32_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MUint32Sint64     map[uint32]int64   `protobuf:"bytes,40,rep,name=m_uint32_sint64" json:"m_uint32_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MUint32Fixed32    map[uint32]uint32  `protobuf:"bytes,41,rep,name=m_uint32_fixed32" json:"m_uint32_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Fixed64    map[uint32]uint64  `protobuf:"bytes,42,rep,name=m_uint32_fixed64" json:"m_uint32_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Sfixed32   map[uint32]int32   `protobuf:"bytes,43,rep,name=m_uint32_sfixed32" json:"m_uint32_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Sfixed64   map[uint32]int64   `protobuf:"bytes,44,rep,name=m_uint32_sfixed64" json:"m_uint32_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Float      map[uint32]float32 `protobuf:"bytes,45,rep,name=m_uint32_float" json:"m_uint32_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint32Double     map[uint32]float64 `protobuf:"bytes,46,rep,name=m_uint32_double" json:"m_uint32_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint32Bool       map[uint32]bool    `protobuf:"bytes,47,rep,name=m_uint32_bool" json:"m_uint32_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32String     map[uint32]string  `protobuf:"bytes,48,rep,name=m_uint32_string" json:"m_uint32_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32Bytes      map[uint32][]byte  `protobuf:"bytes,49,rep,name=m_uint32_bytes" json:"m_uint32_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint32E          map[uint32]E       `protobuf:"bytes,50,rep,name=m_uint32_e" json:"m_uint32_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint32Leaf       map[uint32]*Leaf   `protobuf:"bytes,51,rep,name=m_uint32_leaf" json:"m_uint32_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Int32      map[uint64]int32   `protobuf:"bytes,52,rep,name=m_uint64_int32" json:"m_uint64_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Int64      map[uint64]int64   `protobuf:"bytes,53,rep,name=m_uint64_int64" json:"m_uint64_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Uint32     map[uint64]uint32  `protobuf:"bytes,54,rep,name=m_uint64_uint32" json:"m_uint64_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Uint64     map[uint64]uint64  `protobuf:"bytes,55,rep,name=m_uint64_uint64" json:"m_uint64_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Sint32     map[uint64]int32   `protobuf:"bytes,56,rep,name=m_uint64_sint32" json:"m_uint64_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MUint64Sint64     map[uint64]int64   `protobuf:"bytes,57,rep,name=m_uint64_sint64" json:"m_uint64_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MUint64Fixed32    map[uint64]uint32  `protobuf:"bytes,58,rep,name=m_uint64_fixed32" json:"m_uint64_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Fixed64    map[uint64]uint64  `protobuf:"bytes,59,rep,name=m_uint64_fixed64" json:"m_uint64_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Sfixed32   map[uint64]int32   `protobuf:"bytes,60,rep,name=m_uint64_sfixed32" json:"m_uint64_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Sfixed64   map[uint64]int64   `protobuf:"bytes,61,rep,name=m_uint64_sfixed64" json:"m_uint64_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Float      map[uint64]float32 `protobuf:"bytes,62,rep,name=m_uint64_float" json:"m_uint64_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MUint64Double     map[uint64]float64 `protobuf:"bytes,63,rep,name=m_uint64_double" json:"m_uint64_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MUint64Bool       map[uint64]bool    `protobuf:"bytes,64,rep,name=m_uint64_bool" json:"m_uint64_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64String     map[uint64]string  `protobuf:"bytes,65,rep,name=m_uint64_string" json:"m_uint64_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64Bytes      map[uint64][]byte  `protobuf:"bytes,66,rep,name=m_uint64_bytes" json:"m_uint64_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MUint64E          map[uint64]E       `protobuf:"bytes,67,rep,name=m_uint64_e" json:"m_uint64_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MUint64Leaf       map[uint64]*Leaf   `protobuf:"bytes,68,rep,name=m_uint64_leaf" json:"m_uint64_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Int32      map[int32]int32    `protobuf:"bytes,69,rep,name=m_sint32_int32" json:"m_sint32_int32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Int64      map[int32]int64    `protobuf:"bytes,70,rep,name=m_sint32_int64" json:"m_sint32_int64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Uint32     map[int32]uint32   `protobuf:"bytes,71,rep,name=m_sint32_uint32" json:"m_sint32_uint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Uint64     map[int32]uint64   `protobuf:"bytes,72,rep,name=m_sint32_uint64" json:"m_sint32_uint64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Sint32     map[int32]int32    `protobuf:"bytes,73,rep,name=m_sint32_sint32" json:"m_sint32_sint32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSint32Sint64     map[int32]int64    `protobuf:"bytes,74,rep,name=m_sint32_sint64" json:"m_sint32_sint64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSint32Fixed32    map[int32]uint32   `protobuf:"bytes,75,rep,name=m_sint32_fixed32" json:"m_sint32_fixed32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Fixed64    map[int32]uint64   `protobuf:"bytes,76,rep,name=m_sint32_fixed64" json:"m_sint32_fixed64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Sfixed32   map[int32]int32    `protobuf:"bytes,77,rep,name=m_sint32_sfixed32" json:"m_sint32_sfixed32,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Sfixed64   map[int32]int64    `protobuf:"bytes,78,rep,name=m_sint32_sfixed64" json:"m_sint32_sfixed64,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Float      map[int32]float32  `protobuf:"bytes,79,rep,name=m_sint32_float" json:"m_sint32_float,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint32Double     map[int32]float64  `protobuf:"bytes,80,rep,name=m_sint32_double" json:"m_sint32_double,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint32Bool       map[int32]bool     `protobuf:"bytes,81,rep,name=m_sint32_bool" json:"m_sint32_bool,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32String     map[int32]string   `protobuf:"bytes,82,rep,name=m_sint32_string" json:"m_sint32_string,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32Bytes      map[int32][]byte   `protobuf:"bytes,83,rep,name=m_sint32_bytes" json:"m_sint32_bytes,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint32E          map[int32]E        `protobuf:"bytes,84,rep,name=m_sint32_e" json:"m_sint32_e,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint32Leaf       map[int32]*Leaf    `protobuf:"bytes,85,rep,name=m_sint32_leaf" json:"m_sint32_leaf,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Int32      map[int64]int32    `protobuf:"bytes,86,rep,name=m_sint64_int32" json:"m_sint64_int32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Int64      map[int64]int64    `protobuf:"bytes,87,rep,name=m_sint64_int64" json:"m_sint64_int64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Uint32     map[int64]uint32   `protobuf:"bytes,88,rep,name=m_sint64_uint32" json:"m_sint64_uint32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Uint64     map[int64]uint64   `protobuf:"bytes,89,rep,name=m_sint64_uint64" json:"m_sint64_uint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Sint32     map[int64]int32    `protobuf:"bytes,90,rep,name=m_sint64_sint32" json:"m_sint64_sint32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSint64Sint64     map[int64]int64    `protobuf:"bytes,91,rep,name=m_sint64_sint64" json:"m_sint64_sint64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSint64Fixed32    map[int64]uint32   `protobuf:"bytes,92,rep,name=m_sint64_fixed32" json:"m_sint64_fixed32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Fixed64    map[int64]uint64   `protobuf:"bytes,93,rep,name=m_sint64_fixed64" json:"m_sint64_fixed64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Sfixed32   map[int64]int32    `protobuf:"bytes,94,rep,name=m_sint64_sfixed32" json:"m_sint64_sfixed32,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Sfixed64   map[int64]int64    `protobuf:"bytes,95,rep,name=m_sint64_sfixed64" json:"m_sint64_sfixed64,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Float      map[int64]float32  `protobuf:"bytes,96,rep,name=m_sint64_float" json:"m_sint64_float,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSint64Double     map[int64]float64  `protobuf:"bytes,97,rep,name=m_sint64_double" json:"m_sint64_double,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSint64Bool       map[int64]bool     `protobuf:"bytes,98,rep,name=m_sint64_bool" json:"m_sint64_bool,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64String     map[int64]string   `protobuf:"bytes,99,rep,name=m_sint64_string" json:"m_sint64_string,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64Bytes      map[int64][]byte   `protobuf:"bytes,100,rep,name=m_sint64_bytes" json:"m_sint64_bytes,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSint64E          map[int64]E        `protobuf:"bytes,101,rep,name=m_sint64_e" json:"m_sint64_e,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSint64Leaf       map[int64]*Leaf    `protobuf:"bytes,102,rep,name=m_sint64_leaf" json:"m_sint64_leaf,omitempty" protobuf_key:"zigzag64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Int32     map[uint32]int32   `protobuf:"bytes,103,rep,name=m_fixed32_int32" json:"m_fixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Int64     map[uint32]int64   `protobuf:"bytes,104,rep,name=m_fixed32_int64" json:"m_fixed32_int64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Uint32    map[uint32]uint32  `protobuf:"bytes,105,rep,name=m_fixed32_uint32" json:"m_fixed32_uint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Uint64    map[uint32]uint64  `protobuf:"bytes,106,rep,name=m_fixed32_uint64" json:"m_fixed32_uint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Sint32    map[uint32]int32   `protobuf:"bytes,107,rep,name=m_fixed32_sint32" json:"m_fixed32_sint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MFixed32Sint64    map[uint32]int64   `protobuf:"bytes,108,rep,name=m_fixed32_sint64" json:"m_fixed32_sint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MFixed32Fixed32   map[uint32]uint32  `protobuf:"bytes,109,rep,name=m_fixed32_fixed32" json:"m_fixed32_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Fixed64   map[uint32]uint64  `protobuf:"bytes,110,rep,name=m_fixed32_fixed64" json:"m_fixed32_fixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Sfixed32  map[uint32]int32   `protobuf:"bytes,111,rep,name=m_fixed32_sfixed32" json:"m_fixed32_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Sfixed64  map[uint32]int64   `protobuf:"bytes,112,rep,name=m_fixed32_sfixed64" json:"m_fixed32_sfixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Float     map[uint32]float32 `protobuf:"bytes,113,rep,name=m_fixed32_float" json:"m_fixed32_float,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed32Double    map[uint32]float64 `protobuf:"bytes,114,rep,name=m_fixed32_double" json:"m_fixed32_double,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed32Bool      map[uint32]bool    `protobuf:"bytes,115,rep,name=m_fixed32_bool" json:"m_fixed32_bool,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32String    map[uint32]string  `protobuf:"bytes,116,rep,name=m_fixed32_string" json:"m_fixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32Bytes     map[uint32][]byte  `protobuf:"bytes,117,rep,name=m_fixed32_bytes" json:"m_fixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed32E         map[uint32]E       `protobuf:"bytes,118,rep,name=m_fixed32_e" json:"m_fixed32_e,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed32Leaf      map[uint32]*Leaf   `protobuf:"bytes,119,rep,name=m_fixed32_leaf" json:"m_fixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Int32     map[uint64]int32   `protobuf:"bytes,120,rep,name=m_fixed64_int32" json:"m_fixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Int64     map[uint64]int64   `protobuf:"bytes,121,rep,name=m_fixed64_int64" json:"m_fixed64_int64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Uint32    map[uint64]uint32  `protobuf:"bytes,122,rep,name=m_fixed64_uint32" json:"m_fixed64_uint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Uint64    map[uint64]uint64  `protobuf:"bytes,123,rep,name=m_fixed64_uint64" json:"m_fixed64_uint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Sint32    map[uint64]int32   `protobuf:"bytes,124,rep,name=m_fixed64_sint32" json:"m_fixed64_sint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MFixed64Sint64    map[uint64]int64   `protobuf:"bytes,125,rep,name=m_fixed64_sint64" json:"m_fixed64_sint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MFixed64Fixed32   map[uint64]uint32  `protobuf:"bytes,126,rep,name=m_fixed64_fixed32" json:"m_fixed64_fixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Fixed64   map[uint64]uint64  `protobuf:"bytes,127,rep,name=m_fixed64_fixed64" json:"m_fixed64_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Sfixed32  map[uint64]int32   `protobuf:"bytes,128,rep,name=m_fixed64_sfixed32" json:"m_fixed64_sfixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Sfixed64  map[uint64]int64   `protobuf:"bytes,129,rep,name=m_fixed64_sfixed64" json:"m_fixed64_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Float     map[uint64]float32 `protobuf:"bytes,130,rep,name=m_fixed64_float" json:"m_fixed64_float,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MFixed64Double    map[uint64]float64 `protobuf:"bytes,131,rep,name=m_fixed64_double" json:"m_fixed64_double,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MFixed64Bool      map[uint64]bool    `protobuf:"bytes,132,rep,name=m_fixed64_bool" json:"m_fixed64_bool,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64String    map[uint64]string  `protobuf:"bytes,133,rep,name=m_fixed64_string" json:"m_fixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64Bytes     map[uint64][]byte  `protobuf:"bytes,134,rep,name=m_fixed64_bytes" json:"m_fixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MFixed64E         map[uint64]E       `protobuf:"bytes,135,rep,name=m_fixed64_e" json:"m_fixed64_e,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MFixed64Leaf      map[uint64]*Leaf   `protobuf:"bytes,136,rep,name=m_fixed64_leaf" json:"m_fixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Int32    map[int32]int32    `protobuf:"bytes,137,rep,name=m_sfixed32_int32" json:"m_sfixed32_int32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Int64    map[int32]int64    `protobuf:"bytes,138,rep,name=m_sfixed32_int64" json:"m_sfixed32_int64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Uint32   map[int32]uint32   `protobuf:"bytes,139,rep,name=m_sfixed32_uint32" json:"m_sfixed32_uint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Uint64   map[int32]uint64   `protobuf:"bytes,140,rep,name=m_sfixed32_uint64" json:"m_sfixed32_uint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Sint32   map[int32]int32    `protobuf:"bytes,141,rep,name=m_sfixed32_sint32" json:"m_sfixed32_sint32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSfixed32Sint64   map[int32]int64    `protobuf:"bytes,142,rep,name=m_sfixed32_sint64" json:"m_sfixed32_sint64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSfixed32Fixed32  map[int32]uint32   `protobuf:"bytes,143,rep,name=m_sfixed32_fixed32" json:"m_sfixed32_fixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Fixed64  map[int32]uint64   `protobuf:"bytes,144,rep,name=m_sfixed32_fixed64" json:"m_sfixed32_fixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Sfixed32 map[int32]int32    `protobuf:"bytes,145,rep,name=m_sfixed32_sfixed32" json:"m_sfixed32_sfixed32,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Sfixed64 map[int32]int64    `protobuf:"bytes,146,rep,name=m_sfixed32_sfixed64" json:"m_sfixed32_sfixed64,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Float    map[int32]float32  `protobuf:"bytes,147,rep,name=m_sfixed32_float" json:"m_sfixed32_float,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed32Double   map[int32]float64  `protobuf:"bytes,148,rep,name=m_sfixed32_double" json:"m_sfixed32_double,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed32Bool     map[int32]bool     `protobuf:"bytes,149,rep,name=m_sfixed32_bool" json:"m_sfixed32_bool,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32String   map[int32]string   `protobuf:"bytes,150,rep,name=m_sfixed32_string" json:"m_sfixed32_string,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32Bytes    map[int32][]byte   `protobuf:"bytes,151,rep,name=m_sfixed32_bytes" json:"m_sfixed32_bytes,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed32E        map[int32]E        `protobuf:"bytes,152,rep,name=m_sfixed32_e" json:"m_sfixed32_e,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed32Leaf     map[int32]*Leaf    `protobuf:"bytes,153,rep,name=m_sfixed32_leaf" json:"m_sfixed32_leaf,omitempty" protobuf_key:"fixed32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Int32    map[int64]int32    `protobuf:"bytes,154,rep,name=m_sfixed64_int32" json:"m_sfixed64_int32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Int64    map[int64]int64    `protobuf:"bytes,155,rep,name=m_sfixed64_int64" json:"m_sfixed64_int64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Uint32   map[int64]uint32   `protobuf:"bytes,156,rep,name=m_sfixed64_uint32" json:"m_sfixed64_uint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Uint64   map[int64]uint64   `protobuf:"bytes,157,rep,name=m_sfixed64_uint64" json:"m_sfixed64_uint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Sint32   map[int64]int32    `protobuf:"bytes,158,rep,name=m_sfixed64_sint32" json:"m_sfixed64_sint32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MSfixed64Sint64   map[int64]int64    `protobuf:"bytes,159,rep,name=m_sfixed64_sint64" json:"m_sfixed64_sint64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MSfixed64Fixed32  map[int64]uint32   `protobuf:"bytes,160,rep,name=m_sfixed64_fixed32" json:"m_sfixed64_fixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Fixed64  map[int64]uint64   `protobuf:"bytes,161,rep,name=m_sfixed64_fixed64" json:"m_sfixed64_fixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Sfixed32 map[int64]int32    `protobuf:"bytes,162,rep,name=m_sfixed64_sfixed32" json:"m_sfixed64_sfixed32,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Sfixed64 map[int64]int64    `protobuf:"bytes,163,rep,name=m_sfixed64_sfixed64" json:"m_sfixed64_sfixed64,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Float    map[int64]float32  `protobuf:"bytes,164,rep,name=m_sfixed64_float" json:"m_sfixed64_float,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MSfixed64Double   map[int64]float64  `protobuf:"bytes,165,rep,name=m_sfixed64_double" json:"m_sfixed64_double,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MSfixed64Bool     map[int64]bool     `protobuf:"bytes,166,rep,name=m_sfixed64_bool" json:"m_sfixed64_bool,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64String   map[int64]string   `protobuf:"bytes,167,rep,name=m_sfixed64_string" json:"m_sfixed64_string,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64Bytes    map[int64][]byte   `protobuf:"bytes,168,rep,name=m_sfixed64_bytes" json:"m_sfixed64_bytes,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MSfixed64E        map[int64]E        `protobuf:"bytes,169,rep,name=m_sfixed64_e" json:"m_sfixed64_e,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MSfixed64Leaf     map[int64]*Leaf    `protobuf:"bytes,170,rep,name=m_sfixed64_leaf" json:"m_sfixed64_leaf,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolInt32        map[bool]int32     `protobuf:"bytes,171,rep,name=m_bool_int32" json:"m_bool_int32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolInt64        map[bool]int64     `protobuf:"bytes,172,rep,name=m_bool_int64" json:"m_bool_int64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolUint32       map[bool]uint32    `protobuf:"bytes,173,rep,name=m_bool_uint32" json:"m_bool_uint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolUint64       map[bool]uint64    `protobuf:"bytes,174,rep,name=m_bool_uint64" json:"m_bool_uint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolSint32       map[bool]int32     `protobuf:"bytes,175,rep,name=m_bool_sint32" json:"m_bool_sint32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MBoolSint64       map[bool]int64     `protobuf:"bytes,176,rep,name=m_bool_sint64" json:"m_bool_sint64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MBoolFixed32      map[bool]uint32    `protobuf:"bytes,177,rep,name=m_bool_fixed32" json:"m_bool_fixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolFixed64      map[bool]uint64    `protobuf:"bytes,178,rep,name=m_bool_fixed64" json:"m_bool_fixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolSfixed32     map[bool]int32     `protobuf:"bytes,179,rep,name=m_bool_sfixed32" json:"m_bool_sfixed32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolSfixed64     map[bool]int64     `protobuf:"bytes,180,rep,name=m_bool_sfixed64" json:"m_bool_sfixed64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolFloat        map[bool]float32   `protobuf:"bytes,181,rep,name=m_bool_float" json:"m_bool_float,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MBoolDouble       map[bool]float64   `protobuf:"bytes,182,rep,name=m_bool_double" json:"m_bool_double,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MBoolBool         map[bool]bool      `protobuf:"bytes,183,rep,name=m_bool_bool" json:"m_bool_bool,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolString       map[bool]string    `protobuf:"bytes,184,rep,name=m_bool_string" json:"m_bool_string,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolBytes        map[bool][]byte    `protobuf:"bytes,185,rep,name=m_bool_bytes" json:"m_bool_bytes,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MBoolE            map[bool]E         `protobuf:"bytes,186,rep,name=m_bool_e" json:"m_bool_e,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MBoolLeaf         map[bool]*Leaf     `protobuf:"bytes,187,rep,name=m_bool_leaf" json:"m_bool_leaf,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringInt32      map[string]int32   `protobuf:"bytes,188,rep,name=m_string_int32" json:"m_string_int32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringInt64      map[string]int64   `protobuf:"bytes,189,rep,name=m_string_int64" json:"m_string_int64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringUint32     map[string]uint32  `protobuf:"bytes,190,rep,name=m_string_uint32" json:"m_string_uint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringUint64     map[string]uint64  `protobuf:"bytes,191,rep,name=m_string_uint64" json:"m_string_uint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringSint32     map[string]int32   `protobuf:"bytes,192,rep,name=m_string_sint32" json:"m_string_sint32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag32,2,opt,name=value"`
	MStringSint64     map[string]int64   `protobuf:"bytes,193,rep,name=m_string_sint64" json:"m_string_sint64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"zigzag64,2,opt,name=value"`
	MStringFixed32    map[string]uint32  `protobuf:"bytes,194,rep,name=m_string_fixed32" json:"m_string_fixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringFixed64    map[string]uint64  `protobuf:"bytes,195,rep,name=m_string_fixed64" json:"m_string_fixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringSfixed32   map[string]int32   `protobuf:"bytes,196,rep,name=m_string_sfixed32" json:"m_string_sfixed32,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringSfixed64   map[string]int64   `protobuf:"bytes,197,rep,name=m_string_sfixed64" json:"m_string_sfixed64,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringFloat      map[string]float32 `protobuf:"bytes,198,rep,name=m_string_float" json:"m_string_float,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed32,2,opt,name=value"`
	MStringDouble     map[string]float64 `protobuf:"bytes,199,rep,name=m_string_double" json:"m_string_double,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"fixed64,2,opt,name=value"`
	MStringBool       map[string]bool    `protobuf:"bytes,200,rep,name=m_string_bool" json:"m_string_bool,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringString     map[string]string  `protobuf:"bytes,201,rep,name=m_string_string" json:"m_string_string,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringBytes      map[string][]byte  `protobuf:"bytes,202,rep,name=m_string_bytes" json:"m_string_bytes,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	MStringE          map[string]E       `protobuf:"bytes,203,rep,name=m_string_e" json:"m_string_e,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	MStringLeaf       map[string]*Leaf   `protobuf:"bytes,204,rep,name=m_string_leaf" json:"m_string_leaf,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
}

func (x *Maps) Reset() { *x = Maps{} }

func (x *Maps) GetMInt32Int32() map[int32]int32 {
	if x != nil {
		return x.MInt32Int32
	}
	return nil
}

func (x *Maps) GetMInt32Int64() map[int32]int64 {
	if x != nil {
		return x.MInt32Int64
	}
	return nil
}

func (x *Maps) GetMInt32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MInt32Uint32
	}
	return nil
}

func (x *Maps) GetMInt32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MInt32Uint64
	}
	return nil
}

func (x *Maps) GetMInt32Sint32() map[int32]int32 {
	if x != nil {
		return x.MInt32Sint32
	}
	return nil
}

func (x *Maps) GetMInt32Sint64() map[int32]int64 {
	if x != nil {
		return x.MInt32Sint64
	}
	return nil
}

func (x *Maps) GetMInt32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MInt32Fixed32
	}
	return nil
}

func (x *Maps) GetMInt32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MInt32Fixed64
	}
	return nil
}

func (x *Maps) GetMInt32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MInt32Sfixed32
	}
	return nil
}

func (x *Maps) GetMInt32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MInt32Sfixed64
	}
	return nil
}

func (x *Maps) GetMInt32Float() map[int32]float32 {
	if x != nil {
		return x.MInt32Float
	}
	return nil
}

func (x *Maps) GetMInt32Double() map[int32]float64 {
	if x != nil {
		return x.MInt32Double
	}
	return nil
}

func (x *Maps) GetMInt32Bool() map[int32]bool {
	if x != nil {
		return x.MInt32Bool
	}
	return nil
}

func (x *Maps) GetMInt32String() map[int32]string {
	if x != nil {
		return x.MInt32String
	}
	return nil
}

func (x *Maps) GetMInt32Bytes() map[int32][]byte {
	if x != nil {
		return x.MInt32Bytes
	}
	return nil
}

func (x *Maps) GetMInt32E() map[int32]E {
	if x != nil {
		return x.MInt32E
	}
	return nil
}

func (x *Maps) GetMInt32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MInt32Leaf
	}
	return nil
}

func (x *Maps) GetMInt64Int32() map[int64]int32 {
	if x != nil {
		return x.MInt64Int32
	}
	return nil
}

func (x *Maps) GetMInt64Int64() map[int64]int64 {
	if x != nil {
		return x.MInt64Int64
	}
	return nil
}

func (x *Maps) GetMInt64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MInt64Uint32
	}
	return nil
}

func (x *Maps) GetMInt64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MInt64Uint64
	}
	return nil
}

func (x *Maps) GetMInt64Sint32() map[int64]int32 {
	if x != nil {
		return x.MInt64Sint32
	}
	return nil
}

func (x *Maps) GetMInt64Sint64() map[int64]int64 {
	if x != nil {
		return x.MInt64Sint64
	}
	return nil
}

func (x *Maps) GetMInt64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MInt64Fixed32
	}
	return nil
}

func (x *Maps) GetMInt64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MInt64Fixed64
	}
	return nil
}

func (x *Maps) GetMInt64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MInt64Sfixed32
	}
	return nil
}

func (x *Maps) GetMInt64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MInt64Sfixed64
	}
	return nil
}

func (x *Maps) GetMInt64Float() map[int64]float32 {
	if x != nil {
		return x.MInt64Float
	}
	return nil
}

func (x *Maps) GetMInt64Double() map[int64]float64 {
	if x != nil {
		return x.MInt64Double
	}
	return nil
}

func (x *Maps) GetMInt64Bool() map[int64]bool {
	if x != nil {
		return x.MInt64Bool
	}
	return nil
}

func (x *Maps) GetMInt64String() map[int64]string {
	if x != nil {
		return x.MInt64String
	}
	return nil
}

func (x *Maps) GetMInt64Bytes() map[int64][]byte {
	if x != nil {
		return x.MInt64Bytes
	}
	return nil
}

func (x *Maps) GetMInt64E() map[int64]E {
	if x != nil {
		return x.MInt64E
	}
	return nil
}

func (x *Maps) GetMInt64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MInt64Leaf
	}
	return nil
}

func (x *Maps) GetMUint32Int32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Int32
	}
	return nil
}

func (x *Maps) GetMUint32Int64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Int64
	}
	return nil
}

func (x *Maps) GetMUint32Uint32() map[uint32]uint32 {
	if x != nil {
		return x.MUint32Uint32
	}
	return nil
}

func (x *Maps) GetMUint32Uint64() map[uint32]uint64 {
	if x != nil {
		return x.MUint32Uint64
	}
	return nil
}

func (x *Maps) GetMUint32Sint32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Sint32
	}
	return nil
}

func (x *Maps) GetMUint32Sint64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Sint64
	}
	return nil
}

func (x *Maps) GetMUint32Fixed32() map[uint32]uint32 {
	if x != nil {
		return x.MUint32Fixed32
	}
	return nil
}

func (x *Maps) GetMUint32Fixed64() map[uint32]uint64 {
	if x != nil {
		return x.MUint32Fixed64
	}
	return nil
}

func (x *Maps) GetMUint32Sfixed32() map[uint32]int32 {
	if x != nil {
		return x.MUint32Sfixed32
	}
	return nil
}

func (x *Maps) GetMUint32Sfixed64() map[uint32]int64 {
	if x != nil {
		return x.MUint32Sfixed64
	}
	return nil
}

func (x *Maps) GetMUint32Float() map[uint32]float32 {
	if x != nil {
		return x.MUint32Float
	}
	return nil
}

func (x *Maps) GetMUint32Double() map[uint32]float64 {
	if x != nil {
		return x.MUint32Double
	}
	return nil
}

func (x *Maps) GetMUint32Bool() map[uint32]bool {
	if x != nil {
		return x.MUint32Bool
	}
	return nil
}

func (x *Maps) GetMUint32String() map[uint32]string {
	if x != nil {
		return x.MUint32String
	}
	return nil
}

func (x *Maps) GetMUint32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MUint32Bytes
	}
	return nil
}

func (x *Maps) GetMUint32E() map[uint32]E {
	if x != nil {
		return x.MUint32E
	}
	return nil
}

func (x *Maps) GetMUint32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MUint32Leaf
	}
	return nil
}

func (x *Maps) GetMUint64Int32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Int32
	}
	return nil
}

func (x *Maps) GetMUint64Int64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Int64
	}
	return nil
}

func (x *Maps) GetMUint64Uint32() map[uint64]uint32 {
	if x != nil {
		return x.MUint64Uint32
	}
	return nil
}

func (x *Maps) GetMUint64Uint64() map[uint64]uint64 {
	if x != nil {
		return x.MUint64Uint64
	}
	return nil
}

func (x *Maps) GetMUint64Sint32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Sint32
	}
	return nil
}

func (x *Maps) GetMUint64Sint64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Sint64
	}
	return nil
}

func (x *Maps) GetMUint64Fixed32() map[uint64]uint32 {
	if x != nil {
		return x.MUint64Fixed32
	}
	return nil
}

func (x *Maps) GetMUint64Fixed64() map[uint64]uint64 {
	if x != nil {
		return x.MUint64Fixed64
	}
	return nil
}

func (x *Maps) GetMUint64Sfixed32() map[uint64]int32 {
	if x != nil {
		return x.MUint64Sfixed32
	}
	return nil
}

func (x *Maps) GetMUint64Sfixed64() map[uint64]int64 {
	if x != nil {
		return x.MUint64Sfixed64
	}
	return nil
}

func (x *Maps) GetMUint64Float() map[uint64]float32 {
	if x != nil {
		return x.MUint64Float
	}
	return nil
}

func (x *Maps) GetMUint64Double() map[uint64]float64 {
	if x != nil {
		return x.MUint64Double
	}
	return nil
}

func (x *Maps) GetMUint64Bool() map[uint64]bool {
	if x != nil {
		return x.MUint64Bool
	}
	return nil
}

func (x *Maps) GetMUint64String() map[uint64]string {
	if x != nil {
		return x.MUint64String
	}
	return nil
}

func (x *Maps) GetMUint64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MUint64Bytes
	}
	return nil
}

func (x *Maps) GetMUint64E() map[uint64]E {
	if x != nil {
		return x.MUint64E
	}
	return nil
}

func (x *Maps) GetMUint64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MUint64Leaf
	}
	return nil
}

func (x *Maps) GetMSint32Int32() map[int32]int32 {
	if x != nil {
		return x.MSint32Int32
	}
	return nil
}

func (x *Maps) GetMSint32Int64() map[int32]int64 {
	if x != nil {
		return x.MSint32Int64
	}
	return nil
}

func (x *Maps) GetMSint32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MSint32Uint32
	}
	return nil
}

func (x *Maps) GetMSint32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MSint32Uint64
	}
	return nil
}

func (x *Maps) GetMSint32Sint32() map[int32]int32 {
	if x != nil {
		return x.MSint32Sint32
	}
	return nil
}

func (x *Maps) GetMSint32Sint64() map[int32]int64 {
	if x != nil {
		return x.MSint32Sint64
	}
	return nil
}

func (x *Maps) GetMSint32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MSint32Fixed32
	}
	return nil
}

func (x *Maps) GetMSint32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MSint32Fixed64
	}
	return nil
}

func (x *Maps) GetMSint32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MSint32Sfixed32
	}
	return nil
}

func (x *Maps) GetMSint32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MSint32Sfixed64
	}
	return nil
}

func (x *Maps) GetMSint32Float() map[int32]float32 {
	if x != nil {
		return x.MSint32Float
	}
	return nil
}

func (x *Maps) GetMSint32Double() map[int32]float64 {
	if x != nil {
		return x.MSint32Double
	}
	return nil
}

func (x *Maps) GetMSint32Bool() map[int32]bool {
	if x != nil {
		return x.MSint32Bool
	}
	return nil
}

func (x *Maps) GetMSint32String() map[int32]string {
	if x != nil {
		return x.MSint32String
	}
	return nil
}

func (x *Maps) GetMSint32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSint32Bytes
	}
	return nil
}

func (x *Maps) GetMSint32E() map[int32]E {
	if x != nil {
		return x.MSint32E
	}
	return nil
}

func (x *Maps) GetMSint32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSint32Leaf
	}
	return nil
}

func (x *Maps) GetMSint64Int32() map[int64]int32 {
	if x != nil {
		return x.MSint64Int32
	}
	return nil
}

func (x *Maps) GetMSint64Int64() map[int64]int64 {
	if x != nil {
		return x.MSint64Int64
	}
	return nil
}

func (x *Maps) GetMSint64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MSint64Uint32
	}
	return nil
}

func (x *Maps) GetMSint64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MSint64Uint64
	}
	return nil
}

func (x *Maps) GetMSint64Sint32() map[int64]int32 {
	if x != nil {
		return x.MSint64Sint32
	}
	return nil
}

func (x *Maps) GetMSint64Sint64() map[int64]int64 {
	if x != nil {
		return x.MSint64Sint64
	}
	return nil
}

func (x *Maps) GetMSint64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MSint64Fixed32
	}
	return nil
}

func (x *Maps) GetMSint64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MSint64Fixed64
	}
	return nil
}

func (x *Maps) GetMSint64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MSint64Sfixed32
	}
	return nil
}

func (x *Maps) GetMSint64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MSint64Sfixed64
	}
	return nil
}

func (x *Maps) GetMSint64Float() map[int64]float32 {
	if x != nil {
		return x.MSint64Float
	}
	return nil
}

func (x *Maps) GetMSint64Double() map[int64]float64 {
	if x != nil {
		return x.MSint64Double
	}
	return nil
}

func (x *Maps) GetMSint64Bool() map[int64]bool {
	if x != nil {
		return x.MSint64Bool
	}
	return nil
}

func (x *Maps) GetMSint64String() map[int64]string {
	if x != nil {
		return x.MSint64String
	}
	return nil
}

func (x *Maps) GetMSint64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSint64Bytes
	}
	return nil
}

func (x *Maps) GetMSint64E() map[int64]E {
	if x != nil {
		return x.MSint64E
	}
	return nil
}

func (x *Maps) GetMSint64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSint64Leaf
	}
	return nil
}

func (x *Maps) GetMFixed32Int32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Int32
	}
	return nil
}

func (x *Maps) GetMFixed32Int64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Int64
	}
	return nil
}

func (x *Maps) GetMFixed32Uint32() map[uint32]uint32 {
	if x != nil {
		return x.MFixed32Uint32
	}
	return nil
}

func (x *Maps) GetMFixed32Uint64() map[uint32]uint64 {
	if x != nil {
		return x.MFixed32Uint64
	}
	return nil
}

func (x *Maps) GetMFixed32Sint32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Sint32
	}
	return nil
}

func (x *Maps) GetMFixed32Sint64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Sint64
	}
	return nil
}

func (x *Maps) GetMFixed32Fixed32() map[uint32]uint32 {
	if x != nil {
		return x.MFixed32Fixed32
	}
	return nil
}

func (x *Maps) GetMFixed32Fixed64() map[uint32]uint64 {
	if x != nil {
		return x.MFixed32Fixed64
	}
	return nil
}

func (x *Maps) GetMFixed32Sfixed32() map[uint32]int32 {
	if x != nil {
		return x.MFixed32Sfixed32
	}
	return nil
}

func (x *Maps) GetMFixed32Sfixed64() map[uint32]int64 {
	if x != nil {
		return x.MFixed32Sfixed64
	}
	return nil
}

func (x *Maps) GetMFixed32Float() map[uint32]float32 {
	if x != nil {
		return x.MFixed32Float
	}
	return nil
}

func (x *Maps) GetMFixed32Double() map[uint32]float64 {
	if x != nil {
		return x.MFixed32Double
	}
	return nil
}

func (x *Maps) GetMFixed32Bool() map[uint32]bool {
	if x != nil {
		return x.MFixed32Bool
	}
	return nil
}

func (x *Maps) GetMFixed32String() map[uint32]string {
	if x != nil {
		return x.MFixed32String
	}
	return nil
}

func (x *Maps) GetMFixed32Bytes() map[uint32][]byte {
	if x != nil {
		return x.MFixed32Bytes
	}
	return nil
}

func (x *Maps) GetMFixed32E() map[uint32]E {
	if x != nil {
		return x.MFixed32E
	}
	return nil
}

func (x *Maps) GetMFixed32Leaf() map[uint32]*Leaf {
	if x != nil {
		return x.MFixed32Leaf
	}
	return nil
}

func (x *Maps) GetMFixed64Int32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Int32
	}
	return nil
}

func (x *Maps) GetMFixed64Int64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Int64
	}
	return nil
}

func (x *Maps) GetMFixed64Uint32() map[uint64]uint32 {
	if x != nil {
		return x.MFixed64Uint32
	}
	return nil
}

func (x *Maps) GetMFixed64Uint64() map[uint64]uint64 {
	if x != nil {
		return x.MFixed64Uint64
	}
	return nil
}

func (x *Maps) GetMFixed64Sint32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Sint32
	}
	return nil
}

func (x *Maps) GetMFixed64Sint64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Sint64
	}
	return nil
}

func (x *Maps) GetMFixed64Fixed32() map[uint64]uint32 {
	if x != nil {
		return x.MFixed64Fixed32
	}
	return nil
}

func (x *Maps) GetMFixed64Fixed64() map[uint64]uint64 {
	if x != nil {
		return x.MFixed64Fixed64
	}
	return nil
}

func (x *Maps) GetMFixed64Sfixed32() map[uint64]int32 {
	if x != nil {
		return x.MFixed64Sfixed32
	}
	return nil
}

func (x *Maps) GetMFixed64Sfixed64() map[uint64]int64 {
	if x != nil {
		return x.MFixed64Sfixed64
	}
	return nil
}

func (x *Maps) GetMFixed64Float() map[uint64]float32 {
	if x != nil {
		return x.MFixed64Float
	}
	return nil
}

func (x *Maps) GetMFixed64Double() map[uint64]float64 {
	if x != nil {
		return x.MFixed64Double
	}
	return nil
}

func (x *Maps) GetMFixed64Bool() map[uint64]bool {
	if x != nil {
		return x.MFixed64Bool
	}
	return nil
}

func (x *Maps) GetMFixed64String() map[uint64]string {
	if x != nil {
		return x.MFixed64String
	}
	return nil
}

func (x *Maps) GetMFixed64Bytes() map[uint64][]byte {
	if x != nil {
		return x.MFixed64Bytes
	}
	return nil
}

func (x *Maps) GetMFixed64E() map[uint64]E {
	if x != nil {
		return x.MFixed64E
	}
	return nil
}

func (x *Maps) GetMFixed64Leaf() map[uint64]*Leaf {
	if x != nil {
		return x.MFixed64Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed32Int32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Int32
	}
	return nil
}

func (x *Maps) GetMSfixed32Int64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Int64
	}
	return nil
}

func (x *Maps) GetMSfixed32Uint32() map[int32]uint32 {
	if x != nil {
		return x.MSfixed32Uint32
	}
	return nil
}

func (x *Maps) GetMSfixed32Uint64() map[int32]uint64 {
	if x != nil {
		return x.MSfixed32Uint64
	}
	return nil
}

func (x *Maps) GetMSfixed32Sint32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Sint32
	}
	return nil
}

func (x *Maps) GetMSfixed32Sint64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Sint64
	}
	return nil
}

func (x *Maps) GetMSfixed32Fixed32() map[int32]uint32 {
	if x != nil {
		return x.MSfixed32Fixed32
	}
	return nil
}

func (x *Maps) GetMSfixed32Fixed64() map[int32]uint64 {
	if x != nil {
		return x.MSfixed32Fixed64
	}
	return nil
}

func (x *Maps) GetMSfixed32Sfixed32() map[int32]int32 {
	if x != nil {
		return x.MSfixed32Sfixed32
	}
	return nil
}

func (x *Maps) GetMSfixed32Sfixed64() map[int32]int64 {
	if x != nil {
		return x.MSfixed32Sfixed64
	}
	return nil
}

func (x *Maps) GetMSfixed32Float() map[int32]float32 {
	if x != nil {
		return x.MSfixed32Float
	}
	return nil
}

func (x *Maps) GetMSfixed32Double() map[int32]float64 {
	if x != nil {
		return x.MSfixed32Double
	}
	return nil
}

func (x *Maps) GetMSfixed32Bool() map[int32]bool {
	if x != nil {
		return x.MSfixed32Bool
	}
	return nil
}

func (x *Maps) GetMSfixed32String() map[int32]string {
	if x != nil {
		return x.MSfixed32String
	}
	return nil
}

func (x *Maps) GetMSfixed32Bytes() map[int32][]byte {
	if x != nil {
		return x.MSfixed32Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed32E() map[int32]E {
	if x != nil {
		return x.MSfixed32E
	}
	return nil
}

func (x *Maps) GetMSfixed32Leaf() map[int32]*Leaf {
	if x != nil {
		return x.MSfixed32Leaf
	}
	return nil
}

func (x *Maps) GetMSfixed64Int32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Int32
	}
	return nil
}

func (x *Maps) GetMSfixed64Int64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Int64
	}
	return nil
}

func (x *Maps) GetMSfixed64Uint32() map[int64]uint32 {
	if x != nil {
		return x.MSfixed64Uint32
	}
	return nil
}

func (x *Maps) GetMSfixed64Uint64() map[int64]uint64 {
	if x != nil {
		return x.MSfixed64Uint64
	}
	return nil
}

func (x *Maps) GetMSfixed64Sint32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Sint32
	}
	return nil
}

func (x *Maps) GetMSfixed64Sint64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Sint64
	}
	return nil
}

func (x *Maps) GetMSfixed64Fixed32() map[int64]uint32 {
	if x != nil {
		return x.MSfixed64Fixed32
	}
	return nil
}

func (x *Maps) GetMSfixed64Fixed64() map[int64]uint64 {
	if x != nil {
		return x.MSfixed64Fixed64
	}
	return nil
}

func (x *Maps) GetMSfixed64Sfixed32() map[int64]int32 {
	if x != nil {
		return x.MSfixed64Sfixed32
	}
	return nil
}

func (x *Maps) GetMSfixed64Sfixed64() map[int64]int64 {
	if x != nil {
		return x.MSfixed64Sfixed64
	}
	return nil
}

func (x *Maps) GetMSfixed64Float() map[int64]float32 {
	if x != nil {
		return x.MSfixed64Float
	}
	return nil
}

func (x *Maps) GetMSfixed64Double() map[int64]float64 {
	if x != nil {
		return x.MSfixed64Double
	}
	return nil
}

func (x *Maps) GetMSfixed64Bool() map[int64]bool {
	if x != nil {
		return x.MSfixed64Bool
	}
	return nil
}

func (x *Maps) GetMSfixed64String() map[int64]string {
	if x != nil {
		return x.MSfixed64String
	}
	return nil
}

func (x *Maps) GetMSfixed64Bytes() map[int64][]byte {
	if x != nil {
		return x.MSfixed64Bytes
	}
	return nil
}

func (x *Maps) GetMSfixed64E() map[int64]E {
	if x != nil {
		return x.MSfixed64E
	}
	return nil
}

func (x *Maps) GetMSfixed64Leaf() map[int64]*Leaf {
	if x != nil {
		return x.MSfixed64Leaf
	}
	return nil
}

func (x *Maps) GetMBoolInt32() map[bool]int32 {
	if x != nil {
		return x.MBoolInt32
	}
	return nil
}

func (x *Maps) GetMBoolInt64() map[bool]int64 {
	if x != nil {
		return x.MBoolInt64
	}
	return nil
}

func (x *Maps) GetMBoolUint32() map[bool]uint32 {
	if x != nil {
		return x.MBoolUint32
	}
	return nil
}

func (x *Maps) GetMBoolUint64() map[bool]uint64 {
	if x != nil {
		return x.MBoolUint64
	}
	return nil
}

func (x *Maps) GetMBoolSint32() map[bool]int32 {
	if x != nil {
		return x.MBoolSint32
	}
	return nil
}

func (x *Maps) GetMBoolSint64() map[bool]int64 {
	if x != nil {
		return x.MBoolSint64
	}
	return nil
}

func (x *Maps) GetMBoolFixed32() map[bool]uint32 {
	if x != nil {
		return x.MBoolFixed32
	}
	return nil
}

func (x *Maps) GetMBoolFixed64() map[bool]uint64 {
	if x != nil {
		return x.MBoolFixed64
	}
	return nil
}

func (x *Maps) GetMBoolSfixed32() map[bool]int32 {
	if x != nil {
		return x.MBoolSfixed32
	}
	return nil
}

func (x *Maps) GetMBoolSfixed64() map[bool]int64 {
	if x != nil {
		return x.MBoolSfixed64
	}
	return nil
}

func (x *Maps) GetMBoolFloat() map[bool]float32 {
	if x != nil {
		return x.MBoolFloat
	}
	return nil
}

func (x *Maps) GetMBoolDouble() map[bool]float64 {
	if x != nil {
		return x.MBoolDouble
	}
	return nil
}

func (x *Maps) GetMBoolBool() map[bool]bool {
	if x != nil {
		return x.MBoolBool
	}
	return nil
}

func (x *Maps) GetMBoolString() map[bool]string {
	if x != nil {
		return x.MBoolString
	}
	return nil
}

func (x *Maps) GetMBoolBytes() map[bool][]byte {
	if x != nil {
		return x.MBoolBytes
	}
	return nil
}

func (x *Maps) GetMBoolE() map[bool]E {
	if x != nil {
		return x.MBoolE
	}
	return nil
}

func (x *Maps) GetMBoolLeaf() map[bool]*Leaf {
	if x != nil {
		return x.MBoolLeaf
	}
	return nil
}

func (x *Maps) GetMStringInt32() map[string]int32 {
	if x != nil {
		return x.MStringInt32
	}
	return nil
}

func (x *Maps) GetMStringInt64() map[string]int64 {
	if x != nil {
		return x.MStringInt64
	}
	return nil
}

func (x *Maps) GetMStringUint32() map[string]uint32 {
	if x != nil {
		return x.MStringUint32
	}
	return nil
}

func (x *Maps) GetMStringUint64() map[string]uint64 {
	if x != nil {
		return x.MStringUint64
	}
	return nil
}

func (x *Maps) GetMStringSint32() map[string]int32 {
	if x != nil {
		return x.MStringSint32
	}
	return nil
}

func (x *Maps) GetMStringSint64() map[string]int64 {
	if x != nil {
		return x.MStringSint64
	}
	return nil
}

func (x *Maps) GetMStringFixed32() map[string]uint32 {
	if x != nil {
		return x.MStringFixed32
	}
	return nil
}

func (x *Maps) GetMStringFixed64() map[string]uint64 {
	if x != nil {
		return x.MStringFixed64
	}
	return nil
}

func (x *Maps) GetMStringSfixed32() map[string]int32 {
	if x != nil {
		return x.MStringSfixed32
	}
	return nil
}

func (x *Maps) GetMStringSfixed64() map[string]int64 {
	if x != nil {
		return x.MStringSfixed64
	}
	return nil
}

func (x *Maps) GetMStringFloat() map[string]float32 {
	if x != nil {
		return x.MStringFloat
	}
	return nil
}

func (x *Maps) GetMStringDouble() map[string]float64 {
	if x != nil {
		return x.MStringDouble
	}
	return nil
}

func (x *Maps) GetMStringBool() map[string]bool {
	if x != nil {
		return x.MStringBool
	}
	return nil
}

func (x *Maps) GetMStringString() map[string]string {
	if x != nil {
		return x.MStringString
	}
	return nil
}

func (x *Maps) GetMStringBytes() map[string][]byte {
	if x != nil {
		return x.MStringBytes
	}
	return nil
}

func (x *Maps) GetMStringE() map[string]E {
	if x != nil {
		return x.MStringE
	}
	return nil
}

func (x *Maps) GetMStringLeaf() map[string]*Leaf {
	if x != nil {
		return x.MStringLeaf
	}
	return nil
}

type Tree struct {
	L   *Tree            `protobuf:"bytes,1,opt,name=l" json:"l,omitempty"`
	R   []*Tree          `protobuf:"bytes,2,rep,name=r" json:"r,omitempty"`
	M32 map[int32]*Tree  `protobuf:"bytes,3,rep,name=m32" json:"m32,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	M64 map[uint64]*Tree `protobuf:"bytes,4,rep,name=m64" json:"m64,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Ms  map[string]*Tree `protobuf:"bytes,5,rep,name=ms" json:"ms,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mb  map[bool]*Tree   `protobuf:"bytes,6,rep,name=mb" json:"mb,omitempty" protobuf_key:"varint,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	// Types that are assignable to O:
	//
	//	*Tree_X
	//	*Tree_Leaf
	O isTree_O `protobuf_oneof:"o"`
	V int32    `protobuf:"varint,9,opt,name=v" json:"v,omitempty"`
}

func (x *Tree) Reset() { *x = Tree{} }

func (x *Tree) GetL() *Tree {
	if x != nil {
		return x.L
	}
	return nil
}

func (x *Tree) GetR() []*Tree {
	if x != nil {
		return x.R
	}
	return nil
}

func (x *Tree) GetM32() map[int32]*Tree {
	if x != nil {
		return x.M32
	}
	return nil
}

func (x *Tree) GetM64() map[uint64]*Tree {
	if x != nil {
		return x.M64
	}
	return nil
}

func (x *Tree) GetMs() map[string]*Tree {
	if x != nil {
		return x.Ms
	}
	return nil
}

func (x *Tree) GetMb() map[bool]*Tree {
	if x != nil {
		return x.Mb
	}
	return nil
}

func (x *Tree) GetO() isTree_O {
	if x != nil {
		return x.O
	}
	return nil
}
func (x *Tree) GetX() *Tree {
	if p, ok := x.GetO().(*Tree_X); ok {
		return p.X
	}
	return nil
}

func (x *Tree) GetLeaf() int32 {
	if p, ok := x.GetO().(*Tree_Leaf); ok {
		return p.Leaf
	}
	return 0
}

func (x *Tree) GetV() int32 {
	if x != nil {
		return x.V
	}
	return 0
}

// XXX_OneofWrappers is for the internal use of the prutal package.
func (*Tree) XXX_OneofWrappers() []interface{} {
	return []interface{}{
		(*Tree_X)(nil),
		(*Tree_Leaf)(nil),
	}
}

type isTree_O interface {
	isTree_O()
}

type Tree_X struct {
	X *Tree `protobuf:"bytes,7,opt,name=x" json:"x,omitempty"`
}

func (*Tree_X) isTree_O() {}

type Tree_Leaf struct {
	Leaf int32 `protobuf:"varint,8,opt,name=leaf" json:"leaf,omitempty"`
}

func (*Tree_Leaf) isTree_O() {}
