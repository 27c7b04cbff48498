// Code generated by prutalgen. DO NOT EDIT.
// /tmp/tmp.OmKSzTg09E/prutalgen -I . -go_out /tmp/tmp.OmKSzTg09E/o -gen_getter pg2.proto

package pg2

import "strconv"

type E int32

const (
	E_Z   E = 0
	E_A   E = 1
	E_NEG E = -1
	E_BIG E = 2147483647
)

// Enum value maps for E.
var E_name = map[int32]string{
	0:          "Z",
	1:          "A",
	-1:         "NEG",
	2147483647: "BIG",
}

var E_value = map[string]int32{
	"Z":   0,
	"A":   1,
	"NEG": -1,
	"BIG": 2147483647,
}

func (x E) String() string {
	s, ok := E_name[int32(x)]
	if ok {
		return s
	}
	return strconv.Itoa(int(x))
}

type Leaf struct {
	A *int32   `protobuf:"varint,1,opt,name=a" json:"a,omitempty"`
	B *string  `protobuf:"bytes,2,opt,name=b" json:"b,omitempty"`
	C []uint64 `protobuf:"varint,3,rep,name=c" json:"c,omitempty"`
}

func (x *Leaf) Reset() { *x = Leaf{} }

func (x *Leaf) GetA() int32 {
	if x != nil && x.A != nil {
		return *x.A
	}
	return 0
}

func (x *Leaf) GetB() string {
	if x != nil && x.B != nil {
		return *x.B
	}
	return ""
}

func (x *Leaf) GetC() []uint64 {
	if x != nil {
		return x.C
	}
	return nil
}

type All struct {
	OInt32    *int32           `protobuf:"varint,1,opt,name=o_int32" json:"o_int32,omitempty"`
	OInt64    *int64           `protobuf:"varint,2,opt,name=o_int64" json:"o_int64,omitempty"`
	OUint32   *uint32          `protobuf:"varint,3,opt,name=o_uint32" json:"o_uint32,omitempty"`
	OUint64   *uint64          `protobuf:"varint,4,opt,name=o_uint64" json:"o_uint64,omitempty"`
	OSint32   *int32           `protobuf:"zigzag32,5,opt,name=o_sint32" json:"o_sint32,omitempty"`
	OSint64   *int64           `protobuf:"zigzag64,6,opt,name=o_sint64" json:"o_sint64,omitempty"`
	OFixed32  *uint32          `protobuf:"fixed32,7,opt,name=o_fixed32" json:"o_fixed32,omitempty"`
	OFixed64  *uint64          `protobuf:"fixed64,8,opt,name=o_fixed64" json:"o_fixed64,omitempty"`
	OSfixed32 *int32           `protobuf:"fixed32,9,opt,name=o_sfixed32" json:"o_sfixed32,omitempty"`
	OSfixed64 *int64           `protobuf:"fixed64,10,opt,name=o_sfixed64" json:"o_sfixed64,omitempty"`
	OFloat    *float32         `protobuf:"fixed32,11,opt,name=o_float" json:"o_float,omitempty"`
	ODouble   *float64         `protobuf:"fixed64,12,opt,name=o_double" json:"o_double,omitempty"`
	OBool     *bool            `protobuf:"varint,13,opt,name=o_bool" json:"o_bool,omitempty"`
	OString   *string          `protobuf:"bytes,14,opt,name=o_string" json:"o_string,omitempty"`
	OBytes    []byte           `protobuf:"bytes,15,opt,name=o_bytes" json:"o_bytes,omitempty"`
	OE        *E               `protobuf:"varint,16,opt,name=o_e" json:"o_e,omitempty"`
	RInt32    []int32          `protobuf:"varint,17,rep,name=r_int32" json:"r_int32,omitempty"`
	RInt64    []int64          `protobuf:"varint,18,rep,name=r_int64" json:"r_int64,omitempty"`
	RUint32   []uint32         `protobuf:"varint,19,rep,name=r_uint32" json:"r_uint32,omitempty"`
	RUint64   []uint64         `protobuf:"varint,20,rep,name=r_uint64" json:"r_uint64,omitempty"`
	RSint32   []int32          `protobuf:"zigzag32,21,rep,name=r_sint32" json:"r_sint32,omitempty"`
	RSint64   []int64          `protobuf:"zigzag64,22,rep,name=r_sint64" json:"r_sint64,omitempty"`
	RFixed32  []uint32         `protobuf:"fixed32,23,rep,name=r_fixed32" json:"r_fixed32,omitempty"`
	RFixed64  []uint64         `protobuf:"fixed64,24,rep,name=r_fixed64" json:"r_fixed64,omitempty"`
	RSfixed32 []int32          `protobuf:"fixed32,25,rep,name=r_sfixed32" json:"r_sfixed32,omitempty"`
	RSfixed64 []int64          `protobuf:"fixed64,26,rep,name=r_sfixed64" json:"r_sfixed64,omitempty"`
	RFloat    []float32        `protobuf:"fixed32,27,rep,name=r_float" json:"r_float,omitempty"`
	RDouble   []float64        `protobuf:"fixed64,28,rep,name=r_double" json:"r_double,omitempty"`
	RBool     []bool           `protobuf:"varint,29,rep,name=r_bool" json:"r_bool,omitempty"`
	RString   []string         `protobuf:"bytes,30,rep,name=r_string" json:"r_string,omitempty"`
	RBytes    [][]byte         `protobuf:"bytes,31,rep,name=r_bytes" json:"r_bytes,omitempty"`
	RE        []E              `protobuf:"varint,32,rep,name=r_e" json:"r_e,omitempty"`
	KInt32    []int32          `protobuf:"varint,33,rep,packed,name=k_int32" json:"k_int32,omitempty"`
	KInt64    []int64          `protobuf:"varint,34,rep,packed,name=k_int64" json:"k_int64,omitempty"`
	KUint32   []uint32         `protobuf:"varint,35,rep,packed,name=k_uint32" json:"k_uint32,omitempty"`
	KUint64   []uint64         `protobuf:"varint,36,rep,packed,name=k_uint64" json:"k_uint64,omitempty"`
	KSint32   []int32          `protobuf:"zigzag32,37,rep,packed,name=k_sint32" json:"k_sint32,omitempty"`
	KSint64   []int64          `protobuf:"zigzag64,38,rep,packed,name=k_sint64" json:"k_sint64,omitempty"`
	KFixed32  []uint32         `protobuf:"fixed32,39,rep,packed,name=k_fixed32" json:"k_fixed32,omitempty"`
	KFixed64  []uint64         `protobuf:"fixed64,40,rep,packed,name=k_fixed64" json:"k_fixed64,omitempty"`
	KSfixed32 []int32          `protobuf:"fixed32,41,rep,packed,name=k_sfixed32" json:"k_sfixed32,omitempty"`
	KSfixed64 []int64          `protobuf:"fixed64,42,rep,packed,name=k_sfixed64" json:"k_sfixed64,omitempty"`
	KFloat    []float32        `protobuf:"fixed32,43,rep,packed,name=k_float" json:"k_float,omitempty"`
	KDouble   []float64        `protobuf:"fixed64,44,rep,packed,name=k_double" json:"k_double,omitempty"`
	KBool     []bool           `protobuf:"varint,45,rep,packed,name=k_bool" json:"k_bool,omitempty"`
	KE        []E              `protobuf:"varint,46,rep,packed,name=k_e" json:"k_e,omitempty"`
	M         *Leaf            `protobuf:"bytes,47,opt,name=m" json:"m,omitempty"`
	Rm        []*Leaf          `protobuf:"bytes,48,rep,name=rm" json:"rm,omitempty"`
	Named     map[string]*All  `protobuf:"bytes,49,rep,name=named" json:"named,omitempty" protobuf_key:"bytes,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mss       map[int32]string `protobuf:"bytes,50,rep,name=mss" json:"mss,omitempty" protobuf_key:"zigzag32,1,opt,name=key" protobuf_val:"bytes,2,opt,name=value"`
	Mfe       map[uint64]E     `protobuf:"bytes,51,rep,name=mfe" json:"mfe,omitempty" protobuf_key:"fixed64,1,opt,name=key" protobuf_val:"varint,2,opt,name=value"`
	// Types that are assignable to U:
	//
	//	*All_XInt32
	//	*All_XInt64
	//	*All_XUint32
	//	*All_XUint64
	//	*All_XSint32
	//	*All_XSint64
	//	*All_XFixed32
	//	*All_XFixed64
	//	*All_XSfixed32
	//	*All_XSfixed64
	//	*All_XFloat
	//	*All_XDouble
	//	*All_XBool
	//	*All_XString
	//	*All_XBytes
	//	*All_XE
	//	*All_XM
	U isAll_U `protobuf_oneof:"u"`
}

func (x *All) Reset() { *x = All{} }

func (x *All) GetOInt32() int32 {
	if x != nil && x.OInt32 != nil {
		return *x.OInt32
	}
	return 0
}

func (x *All) GetOInt64() int64 {
	if x != nil && x.OInt64 != nil {
		return *x.OInt64
	}
	return 0
}

func (x *All) GetOUint32() uint32 {
	if x != nil && x.OUint32 != nil {
		return *x.OUint32
	}
	return 0
}

func (x *All) GetOUint64() uint64 {
	if x != nil && x.OUint64 != nil {
		return *x.OUint64
	}
	return 0
}

func (x *All) GetOSint32() int32 {
	if x != nil && x.OSint32 != nil {
		return *x.OSint32
	}
	return 0
}

func (x *All) GetOSint64() int64 {
	if x != nil && x.OSint64 != nil {
		return *x.OSint64
	}
	return 0
}

func (x *All) GetOFixed32() uint32 {
	if x != nil && x.OFixed32 != nil {
		return *x.OFixed32
	}
	return 0
}

func (x *All) GetOFixed64() uint64 {
	if x != nil && x.OFixed64 != nil {
		return *x.OFixed64
	}
	return 0
}

func (x *All) GetOSfixed32() int32 {
	if x != nil && x.OSfixed32 != nil {
		return *x.OSfixed32
	}
	return 0
}

func (x *All) GetOSfixed64() int64 {
	if x != nil && x.OSfixed64 != nil {
		return *x.OSfixed64
	}
	return 0
}

func (x *All) GetOFloat() float32 {
	if x != nil && x.OFloat != nil {
		return *x.OFloat
	}
	return 0
}

func (x *All) GetODouble() float64 {
	if x != nil && x.ODouble != nil {
		return *x.ODouble
	}
	return 0
}

func (x *All) GetOBool() bool {
	if x != nil && x.OBool != nil {
		return *x.OBool
	}
	return false
}

func (x *All) GetOString() string {
	if x != nil && x.OString != nil {
		return *x.OString
	}
	return ""
}

func (x *All) GetOBytes() []byte {
	if x != nil {
		return x.OBytes
	}
	return nil
}

func (x *All) GetOE() E {
	if x != nil && x.OE != nil {
		return *x.OE
	}
	return E_Z
}

func (x *All) GetRInt32() []int32 {
	if x != nil {
		return x.RInt32
	}
	return nil
}

func (x *All) GetRInt64() []int64 {
	if x != nil {
		return x.RInt64
	}
	return nil
}

func (x *All) GetRUint32() []uint32 {
	if x != nil {
		return x.RUint32
	}
	return nil
}

func (x *All) GetRUint64() []uint64 {
	if x != nil {
		return x.RUint64
	}
	return nil
}

func (x *All) GetRSint32() []int32 {
	if x != nil {
		return x.RSint32
	}
	return nil
}

func (x *All) GetRSint64() []int64 {
	if x != nil {
		return x.RSint64
	}
	return nil
}

func (x *All) GetRFixed32() []uint32 {
	if x != nil {
		return x.RFixed32
	}
	return nil
}

func (x *All) GetRFixed64() []uint64 {
	if x != nil {
		return x.RFixed64
	}
	return nil
}

func (x *All) GetRSfixed32() []int32 {
	if x != nil {
		return x.RSfixed32
	}
	return nil
}

func (x *All) GetRSfixed64() []int64 {
	if x != nil {
		return x.RSfixed64
	}
	return nil
}

func (x *All) GetRFloat() []float32 {
	if x != nil {
		return x.RFloat
	}
	return nil
}

func (x *All) GetRDouble() []float64 {
	if x != nil {
		return x.RDouble
	}
	return nil
}

func (x *All) GetRBool() []bool {
	if x != nil {
		return x.RBool
	}
	return nil
}

func (x *All) GetRString() []string {
	if x != nil {
		return x.RString
	}
	return nil
}

func (x *All) GetRBytes() [][]byte {
	if x != nil {
		return x.RBytes
	}
	return nil
}

func (x *All) GetRE() []E {
	if x != nil {
		return x.RE
	}
	return nil
}

func (x *All) GetKInt32() []int32 {
	if x != nil {
		return x.KInt32
	}
	return nil
}

func (x *All) GetKInt64() []int64 {
	if x != nil {
		return x.KInt64
	}
	return nil
}

func (x *All) GetKUint32() []uint32 {
	if x != nil {
		return x.KUint32
	}
	return nil
}

func (x *All) GetKUint64() []uint64 {
	if x != nil {
		return x.KUint64
	}
	return nil
}

func (x *All) GetKSint32() []int32 {
	if x != nil {
		return x.KSint32
	}
	return nil
}

func (x *All) GetKSint64() []int64 {
	if x != nil {
		return x.KSint64
	}
	return nil
}

func (x *All) GetKFixed32() []uint32 {
	if x != nil {
		return x.KFixed32
	}
	return nil
}

func (x *All) GetKFixed64() []uint64 {
	if x != nil {
		return x.KFixed64
	}
	return nil
}

func (x *All) GetKSfixed32() []int32 {
	if x != nil {
		return x.KSfixed32
	}
	return nil
}

func (x *All) GetKSfixed64() []int64 {
	if x != nil {
		return x.KSfixed64
	}
	return nil
}

func (x *All) GetKFloat() []float32 {
	if x != nil {
		return x.KFloat
	}
	return nil
}

func (x *All) GetKDouble() []float64 {
	if x != nil {
		return x.KDouble
	}
	return nil
}

func (x *All) GetKBool() []bool {
	if x != nil {
		return x.KBool
	}
	return nil
}

func (x *All) GetKE() []E {
	if x != nil {
		return x.KE
	}
	return nil
}

func (x *All) GetM() *Leaf {
	if x != nil {
		return x.M
	}
	return nil
}

func (x *All) GetRm() []*Leaf {
	if x != nil {
		return x.Rm
	}
	return nil
}

func (x *All) GetNamed() map[string]*All {
	if x != nil {
		return x.Named
	}
	return nil
}

func (x *All) GetMss() map[int32]string {
	if x != nil {
		return x.Mss
	}
	return nil
}

func (x *All) GetMfe() map[uint64]E {
	if x != nil {
		return x.Mfe
	}
	return nil
}

func (x *All) GetU() isAll_U {
	if x != nil {
		return x.U
	}
	return nil
}
func (x *All) GetXInt32() int32 {
	if p, ok := x.GetU().(*All_XInt32); ok {
		return p.XInt32
	}
	return 0
}

func (x *All) GetXInt64() int64 {
	if p, ok := x.GetU().(*All_XInt64); ok {
		return p.XInt64
	}
	return 0
}

func (x *All) GetXUint32() uint32 {
	if p, ok := x.GetU().(*All_XUint32); ok {
		return p.XUint32
	}
	return 0
}

func (x *All) GetXUint64() uint64 {
	if p, ok := x.GetU().(*All_XUint64); ok {
		return p.XUint64
	}
	return 0
}

func (x *All) GetXSint32() int32 {
	if p, ok := x.GetU().(*All_XSint32); ok {
		return p.XSint32
	}
	return 0
}

func (x *All) GetXSint64() int64 {
	if p, ok := x.GetU().(*All_XSint64); ok {
		return p.XSint64
	}
	return 0
}

func (x *All) GetXFixed32() uint32 {
	if p, ok := x.GetU().(*All_XFixed32); ok {
		return p.XFixed32
	}
	return 0
}

func (x *All) GetXFixed64() uint64 {
	if p, ok := x.GetU().(*All_XFixed64); ok {
		return p.XFixed64
	}
	return 0
}

func (x *All) GetXSfixed32() int32 {
	if p, ok := x.GetU().(*All_XSfixed32); ok {
		return p.XSfixed32
	}
	return 0
}

func (x *All) GetXSfixed64() int64 {
	if p, ok := x.GetU().(*All_XSfixed64); ok {
		return p.XSfixed64
	}
	return 0
}

func (x *All) GetXFloat() float32 {
	if p, ok := x.GetU().(*All_XFloat); ok {
		return p.XFloat
	}
	return 0
}

func (x *All) GetXDouble() float64 {
	if p, ok := x.GetU().(*All_XDouble); ok {
		return p.XDouble
	}
	return 0
}

func (x *All) GetXBool() bool {
	if p, ok := x.GetU().(*All_XBool); ok {
		return p.XBool
	}
	return false
}

func (x *All) GetXString() string {
	if p, ok := x.GetU().(*All_XString); ok {
		return p.XString
	}
	return ""
}

func (x *All) GetXBytes() []byte {
	if p, ok := x.GetU().(*All_XBytes); ok {
		return p.XBytes
	}
	return nil
}

func (x *All) GetXE() E {
	if p, ok := x.GetU().(*All_XE); ok {
		return p.XE
	}
	return E_Z
}

func (x *All) GetXM() *Leaf {
	if p, ok := x.GetU().(*All_XM); ok {
		return p.XM
	}
	return nil
}

// XXX_OneofWrappers is for the internal use of the prutal package.
func (*All) XXX_OneofWrappers() []interface{} {
	return []interface{}{
		(*All_XInt32)(nil),
		(*All_XInt64)(nil),
		(*All_XUint32)(nil),
		(*All_XUint64)(nil),
		(*All_XSint32)(nil),
		(*All_XSint64)(nil),
		(*All_XFixed32)(nil),
		(*All_XFixed64)(nil),
		(*All_XSfixed32)(nil),
		(*All_XSfixed64)(nil),
		(*All_XFloat)(nil),
		(*All_XDouble)(nil),
		(*All_XBool)(nil),
		(*All_XString)(nil),
		(*All_XBytes)(nil),
		(*All_XE)(nil),
		(*All_XM)(nil),
	}
}

type isAll_U interface {
	isAll_U()
}

type All_XInt32 struct {
	XInt32 int32 `protobuf:"varint,2000,opt,name=x_int32" json:"x_int32,omitempty"`
}

func (*All_XInt32) isAll_U() {}

type All_XInt64 struct {
	XInt64 int64 `protobuf:"varint,2001,opt,name=x_int64" json:"x_int64,omitempty"`
}

func (*All_XInt64) isAll_U() {}

type All_XUint32 struct {
	XUint32 uint32 `protobuf:"varint,2002,opt,name=x_uint32" json:"x_uint32,omitempty"`
}

func (*All_XUint32) isAll_U() {}

type All_XUint64 struct {
	XUint64 uint64 `protobuf:"varint,2003,opt,name=x_uint64" json:"x_uint64,omitempty"`
}

func (*All_XUint64) isAll_U() {}

type All_XSint32 struct {
	XSint32 int32 `protobuf:"zigzag32,2004,opt,name=x_sint32" json:"x_sint32,omitempty"`
}

func (*All_XSint32) isAll_U() {}

type All_XSint64 struct {
	XSint64 int64 `protobuf:"zigzag64,2005,opt,name=x_sint64" json:"x_sint64,omitempty"`
}

func (*All_XSint64) isAll_U() {}

type All_XFixed32 struct {
	XFixed32 uint32 `protobuf:"fixed32,2006,opt,name=x_fixed32" json:"x_fixed32,omitempty"`
}

func (*All_XFixed32) isAll_U() {}

type All_XFixed64 struct {
	XFixed64 uint64 `protobuf:"fixed64,2007,opt,name=x_fixed64" json:"x_fixed64,omitempty"`
}

func (*All_XFixed64) isAll_U() {}

type All_XSfixed32 struct {
	XSfixed32 int32 `protobuf:"fixed32,2008,opt,name=x_sfixed32" json:"x_sfixed32,omitempty"`
}

func (*All_XSfixed32) isAll_U() {}

type All_XSfixed64 struct {
	XSfixed64 int64 `protobuf:"fixed64,2009,opt,name=x_sfixed64" json:"x_sfixed64,omitempty"`
}

func (*All_XSfixed64) isAll_U() {}

type All_XFloat struct {
	XFloat float32 `protobuf:"fixed32,2010,opt,name=x_float" json:"x_float,omitempty"`
}

func (*All_XFloat) isAll_U() {}

type All_XDouble struct {
	XDouble float64 `protobuf:"fixed64,2011,opt,name=x_double" json:"x_double,omitempty"`
}

func (*All_XDouble) isAll_U() {}

type All_XBool struct {
	XBool bool `protobuf:"varint,2012,opt,name=x_bool" json:"x_bool,omitempty"`
}

func (*All_XBool) isAll_U() {}

type All_XString struct {
	XString string `protobuf:"bytes,2013,opt,name=x_string" json:"x_string,omitempty"`
}

func (*All_XString) isAll_U() {}

type All_XBytes struct {
	XBytes []byte `protobuf:"bytes,2014,opt,name=x_bytes" json:"x_bytes,omitempty"`
}

func (*All_XBytes) isAll_U() {}

type All_XE struct {
	XE E `protobuf:"varint,2015,opt,name=x_e" json:"x_e,omitempty"`
}

func (*All_XE) isAll_U() {}

type All_XM struct {
	XM *Leaf `protobuf:"bytes,2016,opt,name=x_m" json:"x_m,omitempty"`
}

func (*All_XM) isAll_U() {}

type Req struct {
	QInt32    *int32   `protobuf:"varint,1,req,name=q_int32" json:"q_int32,omitempty"`
	QInt64    *int64   `protobuf:"varint,2,req,name=q_int64" json:"q_int64,omitempty"`
	QUint32   *uint32  `protobuf:"varint,3,req,name=q_uint32" json:"q_uint32,omitempty"`
	QUint64   *uint64  `protobuf:"varint,4,req,name=q_uint64" json:"q_uint64,omitempty"`
	QSint32   *int32   `protobuf:"zigzag32,5,req,name=q_sint32" json:"q_sint32,omitempty"`
	QSint64   *int64   `protobuf:"zigzag64,6,req,name=q_sint64" json:"q_sint64,omitempty"`
	QFixed32  *uint32  `protobuf:"fixed32,7,req,name=q_fixed32" json:"q_fixed32,omitempty"`
	QFixed64  *uint64  `protobuf:"fixed64,8,req,name=q_fixed64" json:"q_fixed64,omitempty"`
	QSfixed32 *int32   `protobuf:"fixed32,9,req,name=q_sfixed32" json:"q_sfixed32,omitempty"`
	QSfixed64 *int64   `protobuf:"fixed64,10,req,name=q_sfixed64" json:"q_sfixed64,omitempty"`
	QFloat    *float32 `protobuf:"fixed32,11,req,name=q_float" json:"q_float,omitempty"`
	QDouble   *float64 `protobuf:"fixed64,12,req,name=q_double" json:"q_double,omitempty"`
	QBool     *bool    `protobuf:"varint,13,req,name=q_bool" json:"q_bool,omitempty"`
	QString   *string  `protobuf:"bytes,14,req,name=q_string" json:"q_string,omitempty"`
	QBytes    []byte   `protobuf:"bytes,15,req,name=q_bytes" json:"q_bytes,omitempty"`
	QE        *E       `protobuf:"varint,16,req,name=q_e" json:"q_e,omitempty"`
}

func (x *Req) Reset() { *x = Req{} }

func (x *Req) GetQInt32() int32 {
	if x != nil && x.QInt32 != nil {
		return *x.QInt32
	}
	return 0
}

func (x *Req) GetQInt64() int64 {
	if x != nil && x.QInt64 != nil {
		return *x.QInt64
	}
	return 0
}

func (x *Req) GetQUint32() uint32 {
	if x != nil && x.QUint32 != nil {
		return *x.QUint32
	}
	return 0
}

func (x *Req) GetQUint64() uint64 {
	if x != nil && x.QUint64 != nil {
		return *x.QUint64
	}
	return 0
}

func (x *Req) GetQSint32() int32 {
	if x != nil && x.QSint32 != nil {
		return *x.QSint32
	}
	return 0
}

func (x *Req) GetQSint64() int64 {
	if x != nil && x.QSint64 != nil {
		return *x.QSint64
	}
	return 0
}

func (x *Req) GetQFixed32() uint32 {
	if x != nil && x.QFixed32 != nil {
		return *x.QFixed32
	}
	return 0
}

func (x *Req) GetQFixed64() uint64 {
	if x != nil && x.QFixed64 != nil {
		return *x.QFixed64
	}
	return 0
}

func (x *Req) GetQSfixed32() int32 {
	if x != nil && x.QSfixed32 != nil {
		return *x.QSfixed32
	}
	return 0
}

func (x *Req) GetQSfixed64() int64 {
	if x != nil && x.QSfixed64 != nil {
		return *x.QSfixed64
	}
	return 0
}

func (x *Req) GetQFloat() float32 {
	if x != nil && x.QFloat != nil {
		return *x.QFloat
	}
	return 0
}

func (x *Req) GetQDouble() float64 {
	if x != nil && x.QDouble != nil {
		return *x.QDouble
	}
	return 0
}

func (x *Req) GetQBool() bool {
	if x != nil && x.QBool != nil {
		return *x.QBool
	}
	return false
}

func (x *Req) GetQString() string {
	if x != nil && x.QString != nil {
		return *x.QString
	}
	return ""
}

func (x *Req) GetQBytes() []byte {
	if x != nil {
		return x.QBytes
	}
	return nil
}

func (x *Req) GetQE() E {
	if x != nil && x.QE != nil {
		return *x.QE
	}
	return E_Z
}
