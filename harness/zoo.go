package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"time"
)

// ---------- static named types the generator draws from ----------

type (
	NBool    bool
	NInt     int
	NInt8    int8
	NInt16   int16
	NInt32   int32
	NInt64   int64
	NUint    uint
	NUint8   uint8
	NUint16  uint16
	NUint32  uint32
	NUint64  uint64
	NString  string
	NBytes   []byte
	NByteSl  []NUint8
	NByteAr  [5]byte
	NNByteAr [3]NUint8
	NIntSl   []int
	NStrSl   []string
	NBoolAr  [3]bool
)

type Empty struct{}

type Sub struct {
	A int
	B string
}

type Prims struct {
	I8   int8
	I16  int16
	I32  int32
	I64  int64
	I    int
	U8   uint8
	U16  uint16
	U32  uint32
	U64  uint64
	U    uint
	Bo   bool
	S    string
	By   []byte
	Ba   [4]byte
	F32i int32  `binary:"fixed32"`
	F64i int64  `binary:"fixed64"`
	F32u uint32 `binary:"fixed32"`
	F64u uint64 `binary:"fixed64"`
	X32  int64  `binary:"fixed32"`
	X64  int32  `binary:"fixed64"`
	T    time.Time
	E    Empty
}

type WE struct {
	A int         `amino:"write_empty"`
	B string      `amino:"write_empty"`
	C *int        `amino:"write_empty"`
	D Sub         `amino:"write_empty"`
	E []int       `amino:"write_empty"`
	F []Sub       `amino:"write_empty"`
	G bool        `amino:"write_empty"`
	H int32       `amino:"write_empty" binary:"fixed32"`
	I uint64      `binary:"fixed64" amino:"write_empty"`
	J []byte      `amino:"write_empty"`
	K [3]byte     `amino:"write_empty"`
	L Iface       `amino:"write_empty"`
	M *Sub        `amino:"write_empty"`
	N time.Time   `amino:"write_empty"`
	O *time.Time  `amino:"write_empty"`
	P []time.Time `amino:"write_empty"`
	Q float64     `amino:"unsafe,write_empty"`
	R [0]int      `amino:"write_empty"`
}

type EE struct {
	A []*Sub   `amino:"empty_elements"`
	B []*Empty `amino:"empty_elements"`
	C []Sub    `amino:"empty_elements"`
	D [2]*Sub  `amino:"empty_elements"`
	E []*int   `amino:"empty_elements"`
	F []string `amino:"empty_elements"`
	G []*Sub
	H []*Empty
}

type Floats struct {
	A float32    `amino:"unsafe"`
	B float64    `amino:"unsafe"`
	C []float32  `amino:"unsafe"`
	D []float64  `amino:"unsafe"`
	E *float64   `amino:"unsafe"`
	F [2]float32 `amino:"unsafe" binary:"fixed64"`
	G []*float32 `amino:"unsafe"`
}

type Node struct {
	V    int64
	Next *Node
	Kids []*Node
	Vals []Node
}

type Skips struct {
	A    int
	b    int
	C    int `json:"-"`
	D    string
	_    int
	E    int `json:"e-name,omitempty"`
	F    int `json:",omitempty"`
	G    int `json:"-,"`
	h    *int
	I    string   `json:"i"`
	J    chan int `json:"-"`
	K    func()   `json:"-"`
	L    uint8
	f2   float64
	M    float64 `json:"-"`
	É    int     `json:"quote\"d"`
	N    bool    `json:"<&>"`
	omit []string
}

type Embedded struct {
	Sub
	*Empty
	NInt
	X Prims
}

type OmitAll struct {
	A int        `json:"a,omitempty"`
	B string     `json:",omitempty"`
	C []byte     `json:"c,omitempty"`
	D []int      `json:"d,omitempty"`
	E *int       `json:"e,omitempty"`
	F *Sub       `json:"f,omitempty"`
	G Sub        `json:"g,omitempty"`
	H time.Time  `json:"h,omitempty"`
	I Iface      `json:"i,omitempty"`
	J [2]int     `json:"j,omitempty"`
	K bool       `json:"k,omitempty"`
	L uint64     `json:"l,omitempty"`
	M [0]int     `json:"m,omitempty"`
	N *time.Time `json:"n,omitempty"`
	O string     `json:"o,omitempty,string"`
	P string     `json:"p,string,omitempty"`
}

type Times struct {
	A time.Time
	B *time.Time
	C []time.Time
	D []*time.Time
	E [2]time.Time
	F struct{ T time.Time }
	G *struct{ T *time.Time }
	H []struct{ T time.Time }
	I **time.Time
}

type Lists struct {
	A []int
	B []string
	C []Sub
	D []*Sub
	E [][]byte
	F [][4]byte
	G [2][]byte
	H []bool
	I []int8
	J []int16
	K []uint16
	L []uint32 `binary:"fixed32"`
	M []int64  `binary:"fixed64"`
	N []*int
	O []*string
	P []NBytes
	Q []NByteAr
	R []NString
	S [3]Sub
	T [2]*Sub
	U [2]string
	V [0]string
	W [0]int
	X []Empty
	Y []*Empty
	Z [][][]byte
}

type Ptrs struct {
	A *int
	B *string
	C *Sub
	D **Sub
	E *[]int
	F *[]string
	G *[]Sub
	H *[]byte
	I *[4]byte
	J *[2]int
	K *bool
	L *time.Time
	M *int32 `binary:"fixed32"`
	N **int
	O *Empty
	P *[2]Sub
	Q ***string
	R *uint8
	S *int8
	T *[]*Sub
}

// ---- interfaces and implementers ----

type Iface interface{ IfaceM() }

type Iface2 interface{ Iface2M() }

type IfaceAlways interface{ IfaceM() } // same method set, registered with AlwaysDisambiguate

type CStruct struct {
	A int
	B string
	C []byte
}
type PStruct struct {
	X *Sub
	Y int64
}
type CInt int
type CInt32 int32
type CI8 int8
type CU64 uint64
type CStr string
type CBool bool
type CBytes []byte
type CArr [4]byte
type CSlice []int64
type CSliceStr []string
type CSliceSub []Sub
type CSlicePSub []*Sub
type CArrInt [2]int
type CArrSub [2]Sub
type CNest struct {
	I  Iface
	Is []Iface
	J  IfaceAlways
}
type CEmpty struct{}
type PInt int
type PBytes []byte
type CRepr struct{ v string }
type CUnreg struct{ A int }
type CFloat float64
type CMap map[string]int
type CPtrs []*int
type CBs [][]byte

func (CStruct) IfaceM()    {}
func (*PStruct) IfaceM()   {}
func (CInt) IfaceM()       {}
func (CInt32) IfaceM()     {}
func (CI8) IfaceM()        {}
func (CU64) IfaceM()       {}
func (CStr) IfaceM()       {}
func (CBool) IfaceM()      {}
func (CBytes) IfaceM()     {}
func (CArr) IfaceM()       {}
func (CSlice) IfaceM()     {}
func (CSliceStr) IfaceM()  {}
func (CSliceSub) IfaceM()  {}
func (CSlicePSub) IfaceM() {}
func (CArrInt) IfaceM()    {}
func (CArrSub) IfaceM()    {}
func (CNest) IfaceM()      {}
func (CEmpty) IfaceM()     {}
func (*PInt) IfaceM()      {}
func (*PBytes) IfaceM()    {}
func (CRepr) IfaceM()      {}
func (CUnreg) IfaceM()     {}
func (CFloat) IfaceM()     {}
func (CMap) IfaceM()       {}
func (CPtrs) IfaceM()      {}
func (CBs) IfaceM()        {}

func (CStruct) Iface2M()   {}
func (*PStruct) Iface2M()  {}
func (CStr) Iface2M()      {}
func (CSliceSub) Iface2M() {}

func (c CRepr) MarshalAmino() (string, error) { return c.v, nil }
func (c *CRepr) UnmarshalAmino(s string) error {
	c.v = s
	return nil
}

type Ifaces struct {
	A Iface
	B []Iface
	C Iface2
	D []Iface2
	E IfaceAlways
	F [2]Iface
	G []IfaceAlways
	H struct{ I Iface }
	K []struct{ I Iface }
}

type IfaceOpts struct {
	A Iface   `binary:"fixed64"`
	B []Iface `binary:"fixed32"`
	C Iface   `amino:"unsafe"`
	D []Iface `amino:"unsafe"`
}

// ---- repr types ----

type ReprStr struct{ hex string }

func (r ReprStr) MarshalAmino() (string, error) {
	calls.marshal++
	if r.hex == "fail-marshal" {
		return "", errRepr
	}
	return hex.EncodeToString([]byte(r.hex)), nil
}
func (r *ReprStr) UnmarshalAmino(s string) error {
	calls.unmarshal++
	bz, err := hex.DecodeString(s)
	if err != nil {
		return errRepr
	}
	if string(bz) == "fail-unmarshal" {
		return errRepr
	}
	r.hex = string(bz)
	return nil
}

var errRepr = errors.New("repr error marker")

var calls struct{ marshal, unmarshal int }

type ReprSt struct {
	a int
	b string
}
type ReprStR struct {
	A int
	B string
	C []Sub
}

func (r ReprSt) MarshalAmino() (ReprStR, error) {
	calls.marshal++
	return ReprStR{r.a, r.b, nil}, nil
}
func (r *ReprSt) UnmarshalAmino(x ReprStR) error {
	calls.unmarshal++
	r.a, r.b = x.A, x.B
	return nil
}

type ReprList struct{ m []Sub }

func (r ReprList) MarshalAmino() ([]Sub, error) {
	calls.marshal++
	return append([]Sub(nil), r.m...), nil
}
func (r *ReprList) UnmarshalAmino(x []Sub) error {
	calls.unmarshal++
	r.m = x
	return nil
}

type ReprBytes struct{ m string }

func (r ReprBytes) MarshalAmino() ([]byte, error) {
	calls.marshal++
	return []byte(r.m), nil
}
func (r *ReprBytes) UnmarshalAmino(x []byte) error {
	calls.unmarshal++
	r.m = string(x)
	return nil
}

type ReprChain struct{ s ReprStr }

func (r ReprChain) MarshalAmino() (ReprStr, error) {
	calls.marshal++
	return r.s, nil
}
func (r *ReprChain) UnmarshalAmino(x ReprStr) error {
	calls.unmarshal++
	r.s = x
	return nil
}

// An integer whose representation is an integer of the same wire type.
type ReprInt int64

func (r ReprInt) MarshalAmino() (int64, error) {
	calls.marshal++
	return int64(r), nil
}
func (r *ReprInt) UnmarshalAmino(x int64) error {
	calls.unmarshal++
	*r = ReprInt(x)
	return nil
}

// An integer represented by one whose encoding depends on the field's tags.
type ReprU64 uint64

func (r ReprU64) MarshalAmino() (int64, error) {
	calls.marshal++
	return int64(r), nil
}
func (r *ReprU64) UnmarshalAmino(x int64) error {
	calls.unmarshal++
	*r = ReprU64(x)
	return nil
}

type ReprTime struct {
	sec int64
	ns  int32
}

func (r ReprTime) MarshalAmino() (time.Time, error) {
	calls.marshal++
	return time.Unix(r.sec, int64(r.ns)).UTC(), nil
}
func (r *ReprTime) UnmarshalAmino(x time.Time) error {
	calls.unmarshal++
	r.sec, r.ns = x.Unix(), int32(x.Nanosecond())
	return nil
}

// A struct that represents a value other than its zero value by a default.
type KFTime struct{ t time.Time }

func (r KFTime) MarshalAmino() (time.Time, error)  { return r.t, nil }
func (r *KFTime) UnmarshalAmino(x time.Time) error { r.t = x; return nil }

type ReprArr struct{ n uint32 }

func (r ReprArr) MarshalAmino() (b [3]byte, err error) {
	calls.marshal++
	b[0], b[1], b[2] = byte(r.n>>16), byte(r.n>>8), byte(r.n)
	return
}
func (r *ReprArr) UnmarshalAmino(b [3]byte) error {
	calls.unmarshal++
	r.n = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	return nil
}

type ReprPtr struct{ s Sub }

func (r ReprPtr) MarshalAmino() (*Sub, error) {
	calls.marshal++
	return &r.s, nil
}
func (r *ReprPtr) UnmarshalAmino(x *Sub) error {
	calls.unmarshal++
	if x == nil {
		x = new(Sub)
	}
	r.s = *x
	return nil
}

type Reprs struct {
	A ReprStr
	B *ReprStr
	C []ReprStr
	D []*ReprStr
	E ReprSt
	F []ReprSt
	G ReprList
	H ReprBytes
	I ReprChain
	J [2]ReprStr
	K ReprInt
	L []ReprInt
	M *ReprSt
}

// ---- JSON only ----

type JMaps struct {
	A map[string]int
	B map[string]string
	C map[string]*Sub
	D map[NString]Sub
	E map[string][]byte
	F map[string]Iface
	G map[string]map[string]int64
	H *map[string]int
	I []map[string]bool
}
type JMars struct{ v int }

func (j JMars) MarshalJSON() ([]byte, error) { return json.Marshal(map[string]int{"v": j.v}) }
func (j *JMars) UnmarshalJSON(b []byte) error {
	var m map[string]int
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	j.v = m["v"]
	return nil
}

type JIface interface{ json.Marshaler }
type JIHolder struct {
	X JIface
	Y map[string]JIface
}
type JHolder struct {
	A JMars
	B *JMars
	C []JMars
	D map[string]JMars
}

// ---- DeepCopy ----

type DCVal struct{ P *int }

func (d DCVal) DeepCopy() DCVal {
	calls.marshal++
	if d.P == nil {
		return d
	}
	v := *d.P
	return DCVal{&v}
}

type DCPtr struct {
	P *int
	q int
}

func (d *DCPtr) DeepCopy() *DCPtr {
	calls.marshal++
	v := *d.P
	return &DCPtr{&v, d.q}
}

type DCHolder struct {
	A DCVal
	B *DCVal
	C []DCVal
	D *DCPtr
	E []*DCPtr
	F map[string]DCVal
	G interface{}
	H map[string]*Sub
	I map[int][]int
	J interface{}
	K [2]map[string][]byte
	L **Sub
	M map[[2]int]string
	N []interface{}
	O ReprList
	P *ReprBytes
	Q []ReprStr
	R *float64
	S [][][]*int
	T struct{ X, Y []string }
	U interface{ IfaceM() }
}

var registered = []struct {
	v    interface{}
	name string
}{
	{CStruct{}, "zoo/CStruct"}, {&PStruct{}, "zoo/PStruct"}, {CInt(0), "zoo/CInt"}, {CInt32(0), "zoo/CInt32"},
	{CI8(0), "zoo/CI8"}, {CU64(0), "zoo/CU64"}, {CStr(""), "zoo/CStr"}, {CBool(false), "zoo/CBool"},
	{CBytes{}, "zoo/CBytes"}, {CArr{}, "zoo/CArr"}, {CSlice{}, "zoo/CSlice"}, {CSliceStr{}, "zoo/CSliceStr"},
	{CSliceSub{}, "zoo/CSliceSub"}, {CSlicePSub{}, "zoo/CSlicePSub"}, {CArrInt{}, "zoo/CArrInt"}, {CArrSub{}, "zoo/CArrSub"},
	{CNest{}, "zoo/CNest"}, {&CEmpty{}, "zoo/CEmpty"}, {new(PInt), "zoo/PInt"}, {new(PBytes), "zoo/PBytes"},
	{CRepr{}, "zoo/CRepr \"quoted\" <&>"}, {CPtrs{}, "zoo/CPtrs"}, {CBs{}, "zoo/CBs"},
}

var zooBinary = []interface{}{
	Empty{}, Sub{}, Prims{}, WE{}, EE{}, Floats{}, Node{}, Skips{}, Embedded{}, OmitAll{}, Times{}, Lists{}, Ptrs{},
	CStruct{}, PStruct{}, CNest{}, Ifaces{}, IfaceOpts{}, Reprs{}, CEmpty{},
	ReprStr{}, ReprSt{}, ReprList{}, ReprBytes{}, ReprChain{},
	CInt(0), CInt32(0), CI8(0), CU64(0), CStr(""), CBool(false), CBytes{}, CArr{}, CSlice{}, CSliceStr{}, CSliceSub{}, CSlicePSub{},
	CArrInt{}, CArrSub{}, PInt(0), PBytes{}, CRepr{}, CPtrs{}, CBs{},
}

var leafTypes = []reflect.Type{}
var zooStructs = []reflect.Type{}

func init() {
	for _, v := range []interface{}{
		false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), "",
		[]byte(nil), [4]byte{}, [0]byte{}, [1]byte{}, [32]byte{}, time.Time{},
		NBool(false), NInt(0), NInt8(0), NInt16(0), NInt32(0), NInt64(0), NUint(0), NUint8(0), NUint16(0), NUint32(0), NUint64(0),
		NString(""), NBytes(nil), NByteSl(nil), NByteAr{}, NNByteAr{},
	} {
		leafTypes = append(leafTypes, reflect.TypeOf(v))
	}
	for _, v := range zooBinary {
		t := reflect.TypeOf(v)
		if t.Kind() == reflect.Struct {
			zooStructs = append(zooStructs, t)
		}
	}
}

var (
	timeT    = reflect.TypeOf(time.Time{})
	ifaceT   = reflect.TypeOf((*Iface)(nil)).Elem()
	iface2T  = reflect.TypeOf((*Iface2)(nil)).Elem()
	ifaceAT  = reflect.TypeOf((*IfaceAlways)(nil)).Elem()
	errT     = reflect.TypeOf((*error)(nil)).Elem()
	emptyIfT = reflect.TypeOf((*interface{})(nil)).Elem()
	_        = fmt.Sprint
)
