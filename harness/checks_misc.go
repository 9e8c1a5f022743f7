package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	amino "github.com/tendermint/go-amino"
)

// ---------------- C14 ----------------

// DeepCopy methods that leave a mark.
type DCMark struct{ N int }

func (d DCMark) DeepCopy() DCMark { return DCMark{d.N + 1} }

type DCMarkP struct{ N int }

func (d *DCMarkP) DeepCopy() *DCMarkP { return &DCMarkP{d.N + 1} }

// a DeepCopy method of another shape is not used
type DCOther struct{ N int }

func (d DCOther) DeepCopy(int) DCOther { return DCOther{d.N + 1} }

type DCOther2 struct{ N int }

func (d DCOther2) DeepCopy() int { return 5 }

// methods of scalar types
type DCInt int64

func (d DCInt) DeepCopy() DCInt { return d + 1 }

type DCStr string

func (d *DCStr) MarshalAmino() (int64, error) { return strconv.ParseInt(string(*d), 10, 64) }
func (d *DCStr) UnmarshalAmino(x int64) error { *d = DCStr(strconv.FormatInt(x+1, 10)); return nil }

// A pair that leaves a mark and keeps unexported state.
type DCPair struct{ n int }

func (d DCPair) MarshalAmino() (int64, error)  { return int64(d.n), nil }
func (d *DCPair) UnmarshalAmino(x int64) error { d.n = int(x) + 1; return nil }

type DCPairP struct{ n int }

func (d *DCPairP) MarshalAmino() ([]int, error) { return []int{d.n}, nil }
func (d *DCPairP) UnmarshalAmino(x []int) error { d.n = x[0] + 1; return nil }

type DCErr struct{ n int }

func (d DCErr) MarshalAmino() (string, error) {
	if d.n == 1 {
		return "", errRepr
	}
	return strconv.Itoa(d.n), nil
}
func (d *DCErr) UnmarshalAmino(s string) error {
	if s == "2" {
		return errRepr
	}
	d.n, _ = strconv.Atoi(s)
	return nil
}

type DCNamed []map[string]*[]int
type DCInner struct {
	M  map[string]DCNamed
	P  **int
	I  interface{}
	Is []interface{}
	T  *time.Time
	Ts []time.Time
	A  [2]*[]byte
	E  struct{}
	F  float64
	S  *string
	B  [][]byte
	K  map[[2]string]map[int8][]uint16
	X  *DCInner
	Y  []*DCInner
	Z  map[uint]*DCInner
	C  int      `json:"-"`
	D  *int     `json:"-"`
	N  []string `json:"-"`
}

var dcTypes = []reflect.Type{reflect.TypeOf(DCInner{}), reflect.TypeOf(&DCInner{}), reflect.TypeOf(DCNamed{}), reflect.TypeOf([2]DCInner{}), reflect.TypeOf(map[string]DCInner{}),
	reflect.TypeOf([]interface{}{}), reflect.TypeOf(DCHolder{}), reflect.TypeOf(map[[2]int][]*int{}), reflect.TypeOf([][][]byte{}), reflect.TypeOf([]time.Time{}),
	reflect.TypeOf(struct{ A, B *[]int }{}), reflect.TypeOf([][2][]string{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf([]NByteAr{}), reflect.TypeOf([][]NString{}), reflect.TypeOf([]*NBytes{})}

var dcDyn = []reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf([]int{}), reflect.TypeOf(map[string][]int{}), reflect.TypeOf(&Sub{}), reflect.TypeOf(Sub{}), reflect.TypeOf([]byte{}),
	reflect.TypeOf(time.Time{}), reflect.TypeOf(struct{ X []*int }{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(NBytes{}), reflect.TypeOf(1.5), reflect.TypeOf(new(*int)), reflect.TypeOf([1][]int{})}

func (c *C) dcType() reflect.Type {
	switch c.r.Intn(4) {
	case 0:
		c.json = true
		return c.rootT()
	case 1:
		t := dcDyn[c.r.Intn(len(dcDyn))]
		for i := c.r.Intn(4); i > 0; i-- {
			switch c.r.Intn(4) {
			case 0:
				t = reflect.PtrTo(t)
			case 1:
				t = reflect.SliceOf(t)
			case 2:
				t = reflect.ArrayOf(c.r.Intn(3), t)
			case 3:
				t = reflect.MapOf([]reflect.Type{reflect.TypeOf(""), reflect.TypeOf(1), reflect.TypeOf(true), reflect.TypeOf([1]uint8{})}[c.r.Intn(4)], t)
			}
		}
		return t
	}
	return dcTypes[c.r.Intn(len(dcTypes))]
}

// dcFill fills everything reachable through exported fields, tagged or not.
func (c *C) dcFill(v reflect.Value, d int) {
	t := v.Type()
	if t == timeT {
		v.Set(reflect.ValueOf(c.time()))
		return
	}
	if t == reflect.TypeOf(DCPtr{}) {
		x := c.r.Intn(100)
		v.Set(reflect.ValueOf(DCPtr{&x, c.r.Intn(100)}))
		return
	}
	if t.Kind() != reflect.Interface && reprOut(t) != nil {
		c.fill(v, 1, false)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if c.pick(4) || d < 0 {
			return
		}
		p := reflect.New(t.Elem())
		c.dcFill(p.Elem(), d-1)
		v.Set(p)
	case reflect.Interface:
		if c.pick(4) || d < 0 {
			return
		}
		if t.NumMethod() > 0 {
			x := c.concrete(t, 1)
			v.Set(x)
			return
		}
		p := reflect.New(dcDyn[c.r.Intn(len(dcDyn))]).Elem()
		c.dcFill(p, d-1)
		v.Set(p)
	case reflect.Slice:
		if c.pick(6) || d < 0 {
			return
		}
		n := c.r.Intn(4)
		s := reflect.MakeSlice(t, n, n+c.r.Intn(3))
		for i := 0; i < n; i++ {
			c.dcFill(s.Index(i), d-1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			c.dcFill(v.Index(i), d-1)
		}
	case reflect.Map:
		if c.pick(6) || d < 0 {
			return
		}
		m := reflect.MakeMap(t)
		for i := c.r.Intn(4); i > 0; i-- {
			k := reflect.New(t.Key()).Elem()
			c.dcFill(k, d-1)
			e := reflect.New(t.Elem()).Elem()
			c.dcFill(e, d-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				c.dcFill(v.Field(i), d-1)
			}
		}
	case reflect.Chan, reflect.Func:
	default:
		c.fill(v, d, false)
	}
}

type memRange struct {
	lo, hi uintptr
	path   string
}

// dcScan compares a with its copy b and collects the memory either refers to.
func dcScan(a, b reflect.Value, path string, ra, rb *[]memRange) string {
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: %v became %v", path, a.Type(), b.Type())
	}
	add := func(r *[]memRange, lo, n uintptr) {
		if n > 0 {
			*r = append(*r, memRange{lo, lo + n, path})
		}
	}
	t := a.Type()
	if t.Kind() != reflect.Interface && t.Kind() != reflect.Ptr && reprOut(t) != nil && a.CanInterface() {
		save := calls
		x, err1 := callMarshalAmino(a)
		y, err2 := callMarshalAmino(b)
		calls = save
		if (err1 == nil) != (err2 == nil) || err1 == nil && canon(x, false) != canon(y, false) {
			return path + ": representations differ"
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": nil and not nil"
		}
		if a.IsNil() {
			return ""
		}
		add(ra, a.Pointer(), t.Elem().Size())
		add(rb, b.Pointer(), t.Elem().Size())
		return dcScan(a.Elem(), b.Elem(), path+".*", ra, rb)
	case reflect.Interface:
		if a.IsNil() != b.IsNil() {
			return path + ": nil and not nil"
		}
		if a.IsNil() {
			return ""
		}
		return dcScan(a.Elem(), b.Elem(), path+".()", ra, rb)
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return path + ": lengths differ or one is nil"
		}
		if a.IsNil() {
			return ""
		}
		add(ra, a.Pointer(), uintptr(a.Cap())*t.Elem().Size())
		add(rb, b.Pointer(), uintptr(b.Cap())*t.Elem().Size())
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if s := dcScan(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), ra, rb); s != "" {
				return s
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return path + ": lengths differ or one is nil"
		}
		if a.IsNil() {
			return ""
		}
		add(ra, a.Pointer(), 1)
		add(rb, b.Pointer(), 1)
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return path + ": missing key"
			}
			if s := dcScan(a.MapIndex(k), y, fmt.Sprintf("%s[%v]", path, k), ra, rb); s != "" {
				return s
			}
		}
	case reflect.Struct:
		if t == timeT {
			if !reflect.DeepEqual(a.Interface(), b.Interface()) {
				return path + ": times differ"
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			if s := dcScan(a.Field(i), b.Field(i), path+"."+t.Field(i).Name, ra, rb); s != "" {
				return s
			}
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return path + ": floats differ"
		}
	case reflect.Chan, reflect.Func:
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v became %v", path, a, b)
		}
	}
	return ""
}

func init() {
	props["C14"] = []check{
		{"copy", func(c *C) {
			t := c.dcType()
			v := reflect.New(t).Elem()
			c.dcFill(v, 5)
			if t == reflect.TypeOf(DCHolder{}) && !c.pick(4) {
				h := v.Addr().Interface().(*DCHolder)
				x := 5
				h.D = &DCPtr{&x, 3}
			}
			c.note("%v %s", t, short(v))
			c.distinct(t, canon(v, false))
			before := exactDump(v)
			var cp interface{}
			if p := try(func() { cp = amino.DeepCopy(v.Interface()) }); p != nil {
				c.failf("DeepCopy of %v %s panics: %v", t, short(v), p)
			}
			if exactDump(v) != before {
				c.failf("DeepCopy modified the original")
			}
			if cp == nil {
				if v.Kind() != reflect.Interface || !v.IsNil() {
					c.failf("DeepCopy of %v is nil", t)
				}
				return
			}
			var ra, rb []memRange
			if s := dcScan(v, reflect.ValueOf(cp), "", &ra, &rb); s != "" {
				c.failf("DeepCopy of %v differs at %s", t, s)
			}
			for _, x := range ra {
				for _, y := range rb {
					if x.lo < y.hi && y.lo < x.hi {
						c.failf("DeepCopy of %v: %s of the copy shares memory with %s of the original", t, y.path, x.path)
					}
				}
			}
		}, 40000},
		{"methods", func(c *C) {
			n := c.r.Intn(100)
			type st struct {
				A DCMark
				B *DCMark
				C []DCMark
				D map[string]DCMark
				E interface{}
				F *DCMarkP
				G []*DCMarkP
				H [1]DCMark
				I DCOther
				J DCOther2
				K DCPair
				L *DCPair
				M []DCPair
				N map[string]DCPair
				O interface{}
				P *DCPairP
				Q []DCPairP
				R DCPairP
				S map[int]*DCPairP
				T **DCMark
				U []interface{}
				V []DCInt
				W [2]DCInt
				X []DCStr
				Y map[string]DCStr
				Z *DCInt
			}
			mk := func(n, k int) interface{} { // k: 1 more where a method is used
				m := DCMark{n + k}
				pm := &m
				ci, cs := DCInt(n+k), DCStr(strconv.Itoa(n+k))
				return st{m, &DCMark{n + k}, []DCMark{m, m}, map[string]DCMark{"a": m}, m, &DCMarkP{n + k}, []*DCMarkP{{n + k}, nil}, [1]DCMark{m}, DCOther{n}, DCOther2{n},
					DCPair{n + k}, &DCPair{n + k}, []DCPair{{n + k}}, map[string]DCPair{"x": {n + k}}, DCPair{n + k}, &DCPairP{n + k}, []DCPairP{{n + k}}, DCPairP{n + k}, map[int]*DCPairP{1: {n + k}}, &pm,
					[]interface{}{m, DCPair{n + k}, &DCPair{n + k}, DCOther{n}, nil},
					[]DCInt{ci, ci}, [2]DCInt{ci, ci}, []DCStr{cs}, map[string]DCStr{"s": cs}, &ci}
			}
			root := func(n, k int) []interface{} {
				return []interface{}{DCMark{n + k}, &DCMark{n + k}, &DCMarkP{n + k}, DCPair{n + k}, &DCPair{n + k}, &DCPairP{n + k}, DCPairP{n + k}, []DCPair{{n + k}}, map[string]DCPair{"": {n + k}}, mk(n, k)}
			}
			i := c.r.Intn(len(root(0, 0)))
			if c.pick(2) {
				i = len(root(0, 0)) - 1
			}
			in, want := root(n, 0)[i], root(n, 1)[i]
			c.note("%T %v", in, in)
			c.distinct(i, n)
			got := amino.DeepCopy(in)
			if !reflect.DeepEqual(got, want) {
				c.failf("DeepCopy of %T uses its methods wrongly: got %+v, want %+v", in, got, want)
			}
			if !reflect.DeepEqual(in, root(n, 0)[i]) {
				c.failf("DeepCopy changed the original to %+v", in)
			}
			// errors of the pair panic
			for _, k := range []int{1, 2} {
				for _, v := range []interface{}{&DCErr{k}, DCErr{k}, []DCErr{{0}, {k}}, struct{ X DCErr }{DCErr{k}}, []interface{}{&DCErr{k}}, map[string]*DCErr{"": {k}}} {
					if try(func() { amino.DeepCopy(v) }) == nil {
						c.failf("an error of the amino pair is lost: %T %v", v, v)
					}
				}
			}
			if amino.DeepCopy(nil) != nil {
				c.failf("DeepCopy(nil) is not nil")
			}
			for _, v := range []interface{}{make(chan int), func() {}, complex(1, 2), uintptr(1), struct{ C chan int }{make(chan int)}, []interface{}{complex64(1)}, map[string]complex128{"": 1}} {
				var r interface{}
				if p := try(func() { r = amino.DeepCopy(v) }); p == nil && !reflect.DeepEqual(r, v) {
					c.failf("DeepCopy of %T %v silently gives %v", v, v, r)
				}
			}
		}, 4000},
	}
}

// ---------------- C15 ----------------

// A type encoded in one form, read in another.
type MOnly struct{ A int }

func (m MOnly) MarshalAmino() (Sub, error) { return Sub{m.A, "x"}, nil }

type UOnly struct{ A int }

func (u *UOnly) UnmarshalAmino(s Sub) error {
	calls.unmarshal++
	u.A = s.A*2 + len(s.B)
	return nil
}

type UErr struct{ A int }

func (u UErr) MarshalAmino() (UErrR, error) {
	if u.A == 1 {
		return UErrR{A: 1}, errRepr
	}
	return UErrR{A: u.A}, nil
}
func (u *UErr) UnmarshalAmino(x UErrR) error {
	calls.unmarshal++
	u.A = x.A
	if x.A == 2 {
		return errRepr
	}
	return nil
}

type UErrR struct{ A int }

// contexts: a value x of type t placed in a bigger value, and how many times
type reprCtx struct {
	name string
	mk   func(x reflect.Value) reflect.Value
	n    int
}

func one(t reflect.Type, tag string) reflect.Type {
	return reflect.StructOf([]reflect.StructField{{Name: "X", Type: t, Tag: reflect.StructTag(tag)}, {Name: "Y", Type: reflect.TypeOf("")}})
}

var reprCtxs = []reprCtx{
	{"root", func(x reflect.Value) reflect.Value { return x }, 1},
	{"pointer", func(x reflect.Value) reflect.Value { return addr(x) }, 1},
	{"field", func(x reflect.Value) reflect.Value { return inField(x, "") }, 1},
	{"write_empty field", func(x reflect.Value) reflect.Value { return inField(x, `amino:"write_empty"`) }, 1},
	{"fixed64 field", func(x reflect.Value) reflect.Value { return inField(x, `binary:"fixed64"`) }, 1},
	{"fixed32 field", func(x reflect.Value) reflect.Value { return inField(x, `binary:"fixed32"`) }, 1},
	{"fixed64 write_empty field", func(x reflect.Value) reflect.Value { return inField(x, `binary:"fixed64" amino:"write_empty"`) }, 1},
	{"fixed64 list field", func(x reflect.Value) reflect.Value { return inField(list(x, x), `binary:"fixed64"`) }, 2},
	{"empty_elements field", func(x reflect.Value) reflect.Value { return inField(x, `amino:"empty_elements"`) }, 1},
	{"unsafe field", func(x reflect.Value) reflect.Value { return inField(x, `amino:"unsafe"`) }, 1},
	{"omitempty field", func(x reflect.Value) reflect.Value { return inField(x, `json:"f,omitempty"`) }, 1},
	{"pointer field", func(x reflect.Value) reflect.Value { return inField(addr(x), "") }, 1},
	{"double pointer field", func(x reflect.Value) reflect.Value { return inField(addr(addr(x)), "") }, 1},
	{"list", func(x reflect.Value) reflect.Value { return list(x, x, x) }, 3},
	{"list of pointers", func(x reflect.Value) reflect.Value { return list(addr(x), addr(x)) }, 2},
	{"list field", func(x reflect.Value) reflect.Value { return inField(list(x, x), "") }, 2},
	{"empty_elements list field", func(x reflect.Value) reflect.Value { return inField(list(addr(x), addr(x)), `amino:"empty_elements"`) }, 2},
	{"array field", func(x reflect.Value) reflect.Value {
		a := reflect.New(reflect.ArrayOf(2, x.Type())).Elem()
		a.Index(0).Set(x)
		a.Index(1).Set(x)
		return inField(a, "")
	}, 2},
	{"nested", func(x reflect.Value) reflect.Value { return inField(inField(x, ""), "") }, 1},
	{"list of structs", func(x reflect.Value) reflect.Value {
		return list(inField(x, ""), inField(addr(x), "").Convert(one(reflect.PtrTo(x.Type()), "")).Field(0).Elem().Addr().Elem())
	}, 0},
}

func addr(x reflect.Value) reflect.Value {
	p := reflect.New(x.Type())
	p.Elem().Set(x)
	return p
}
func inField(x reflect.Value, tag string) reflect.Value {
	v := reflect.New(one(x.Type(), tag)).Elem()
	v.Field(0).Set(x)
	v.Field(1).SetString("y")
	return v
}
func list(xs ...reflect.Value) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(xs[0].Type()), 0, len(xs))
	for _, x := range xs {
		s = reflect.Append(s, x)
	}
	return s
}

func init() {
	reprCtxs = reprCtxs[:len(reprCtxs)-1]
	reprTs := []reflect.Type{reflect.TypeOf(ReprStr{}), reflect.TypeOf(ReprSt{}), reflect.TypeOf(ReprList{}), reflect.TypeOf(ReprBytes{}), reflect.TypeOf(ReprChain{}), reflect.TypeOf(ReprInt(0)), reflect.TypeOf(ReprU64(0)), reflect.TypeOf(ReprTime{}), reflect.TypeOf(ReprArr{}), reflect.TypeOf(ReprPtr{}), reflect.TypeOf(UErr{}), reflect.TypeOf(Reprs{})}
	props["C15"] = []check{
		{"known findings", func(c *C) {
			type F struct {
				A KFInv
				B int8
			}
			x := F{KFInv(1), 5}
			b := c.marshal(theCdc, x)
			var y F
			if err := theCdc.UnmarshalBinaryBare(b, &y); err == nil && y != x && string(b) == "\x10\x0a" {
				c.known("repr-default-omitted", "a field whose MarshalAmino gives a default value is omitted, and UnmarshalAmino is not called for it: %+v encodes as %X, which decodes to %+v", x, b, y)
			} else if err != nil || y != x {
				c.failf("%+v encodes as %X, which decodes to %+v, %v", x, b, y, err)
			}
			lt := []KFTime{{time.Unix(0, 0).UTC()}, {time.Unix(1, 0).UTC()}}
			b = c.marshal(theCdc, lt)
			var lu []KFTime
			if err := theCdc.UnmarshalBinaryBare(b, &lu); err == nil && string(b) == "\x0a\x00\x0a\x02\x08\x01" && reflect.DeepEqual(lu, []KFTime{{}, lt[1]}) {
				c.known("repr-default-element", "an element of a list of structs whose MarshalAmino gives a default value is written as an empty one, and UnmarshalAmino is not called for it: %+v encodes as %X, which decodes to %+v", lt, b, lu)
			} else if err != nil || !reflect.DeepEqual(lu, lt) {
				c.failf("%+v encodes as %X, which decodes to %+v, %v", lt, b, lu, err)
			}
			type G struct {
				A KFList
				B int8
			}
			type H struct {
				A []string
				B int8
			}
			lf, lr := G{KFList{"a", "bc"}, 5}, H{[]string{"a!", "bc!"}, 5}
			b = c.marshal(theCdc, lf)
			if string(b) == "\x0a\x01a\x0a\x02bc\x10\x0a" {
				c.known("repr-list-field", "a list with a MarshalAmino method in a struct field is encoded as its own elements: %+v encodes as %X, its representation as %X", lf, b, c.marshal(theCdc, lr))
			} else if !bytes.Equal(b, c.marshal(theCdc, lr)) {
				c.failf("%+v encodes as %X, its representation as %X", lf, b, c.marshal(theCdc, lr))
			}
			if b = c.marshal(theCdc, lf.A); !bytes.Equal(b, c.marshal(theCdc, lr.A)) {
				c.failf("%+v encodes as %X, its representation as %X", lf.A, b, c.marshal(theCdc, lr.A))
			}
			z := []KFInv{0, 1, 2}
			b = c.marshal(theCdc, z)
			var w []KFInv
			if err := theCdc.UnmarshalBinaryBare(b, &w); err != nil || !reflect.DeepEqual(z, w) {
				c.failf("%+v encodes as %X, which decodes to %+v, %v", z, b, w, err)
			}
		}, 8},
		{"both", func(c *C) {
			c.json = true
			t := reprTs[c.r.Intn(len(reprTs))]
			k := reprCtxs[c.r.Intn(len(reprCtxs))]
			x := c.val(t, 3)
			if t == reflect.TypeOf(UErr{}) {
				x.Field(0).SetInt(int64(3 + c.r.Intn(1000)))
			}
			v := k.mk(x)
			ref, err := theRef.encRoot(v)
			if err != nil {
				return
			}
			c.note("%v in %s: %s", t, k.name, short(v))
			c.distinct(k.name, short(v))
			b := c.marshal(theCdc, v.Interface())
			if !bytes.Equal(b, ref) {
				c.failf("%v in %s %s encodes as %X, its representation as %X", t, k.name, short(v), b, ref)
			}
			js := c.marshalJSON(theCdc, v.Interface())
			jref, _ := theRef.jsonRoot(v)
			if string(js) != jref {
				c.failf("%v in %s %s encodes as %s, its representation as %s", t, k.name, short(v), js, jref)
			}
			// a struct representation is encoded exactly like the plain struct
			if ro := reprOut(t); ro != nil && ro.Kind() == reflect.Struct && reprOut(ro) == nil {
				rv, _ := callMarshalAmino(x)
				w := k.mk(rv)
				if b2 := c.marshal(theCdc, w.Interface()); !bytes.Equal(b2, b) {
					c.failf("%v in %s: %X, its representation %v: %X", t, k.name, b, ro, b2)
				}
			}
			if ro := reprOut(t); ro != nil && k.name != "omitempty field" { // omitempty looks at the value itself
				rv, _ := callMarshalAmino(x)
				if j2 := c.marshalJSON(theCdc, k.mk(rv).Interface()); !bytes.Equal(j2, js) {
					c.failf("%v in %s: %s, its representation %v: %s", t, k.name, js, ro, j2)
				}
			}
			// decoding calls UnmarshalAmino once per value, with what was encoded
			want := canon(x, false)
			for _, isJSON := range []bool{false, true} {
				got := reflect.New(v.Type())
				calls.unmarshal = 0
				var err error
				in := b
				if isJSON {
					in = js
					err = c.unmarshalJSON(theCdc, js, got.Interface())
				} else {
					err = c.unmarshal(theCdc, b, got.Interface())
				}
				if err != nil {
					c.failf("%v in %s: %q does not decode: %v", t, k.name, in, err)
				}
				per := 1
				if t == reflect.TypeOf(ReprChain{}) {
					per = 2
				}
				n := calls.unmarshal
				if t != reflect.TypeOf(Reprs{}) && !bytes.Contains(js, []byte("null")) {
					ok := n == per*k.n
					if isJSON && k.name == "omitempty field" && n == 0 && js[2] == 'Y' {
						ok = true // omitted
					}
					if e, err := theRef.enc(x, fopt{num: 1}, false); !isJSON && err == nil && len(e) == 1 && e[0] == 0 && n == 0 {
						ok = true // a default, omitted or written as such
					}
					if !ok {
						c.failf("%v in %s from %q: UnmarshalAmino called %d times for %d values", t, k.name, in, n, k.n)
					}
				}
				if x, y := canon(v, !isJSON), canon(got.Elem(), !isJSON); x != y && want != "" {
					c.failf("%v in %s from %q: got %s, want %s", t, k.name, in, y, x)
				}
			}
		}, 20000},
		{"errors", func(c *C) {
			k := reprCtxs[c.r.Intn(len(reprCtxs))]
			var bad reflect.Value
			var good reflect.Value // encodes to something UnmarshalAmino refuses
			switch c.r.Intn(3) {
			case 0:
				bad, good = reflect.ValueOf(ReprStr{"fail-marshal"}), reflect.ValueOf(ReprStr{"fail-unmarshal"})
			case 1:
				bad, good = reflect.ValueOf(ReprChain{ReprStr{"fail-marshal"}}), reflect.ValueOf(ReprChain{ReprStr{"fail-unmarshal"}})
			case 2:
				bad, good = reflect.ValueOf(UErr{1}), reflect.ValueOf(UErr{2})
			}
			v := k.mk(bad)
			c.note("%v in %s", bad.Type(), k.name)
			c.distinct(bad.Type(), k.name)
			isRepr := func(err error) bool { return err != nil && strings.Contains(err.Error(), errRepr.Error()) }
			var b []byte
			var err error
			if p := try(func() { b, err = theCdc.MarshalBinaryBare(v.Interface()) }); p != nil || !isRepr(err) || b != nil {
				c.failf("MarshalAmino of %v in %s fails, MarshalBinaryBare gives %X, %v (panic %v)", bad.Type(), k.name, b, err, p)
			}
			if p := try(func() { b, err = theCdc.MarshalBinaryLengthPrefixed(v.Interface()) }); p != nil || !isRepr(err) || b != nil {
				c.failf("MarshalAmino of %v in %s fails, MarshalBinaryLengthPrefixed gives %X, %v (panic %v)", bad.Type(), k.name, b, err, p)
			}
			if p := try(func() { b, err = theCdc.MarshalJSON(v.Interface()) }); p != nil || !isRepr(err) || b != nil {
				c.failf("MarshalAmino of %v in %s fails, MarshalJSON gives %s, %v (panic %v)", bad.Type(), k.name, b, err, p)
			}
			v = k.mk(good)
			b = c.marshal(theCdc, v.Interface())
			js := c.marshalJSON(theCdc, v.Interface())
			if err := c.unmarshal(theCdc, b, reflect.New(v.Type()).Interface()); !isRepr(err) {
				c.failf("UnmarshalAmino of %v in %s fails, UnmarshalBinaryBare of %X gives %v", good.Type(), k.name, b, err)
			}
			if err := c.unmarshalJSON(theCdc, js, reflect.New(v.Type()).Interface()); !isRepr(err) {
				c.failf("UnmarshalAmino of %v in %s fails, UnmarshalJSON of %s gives %v", good.Type(), k.name, js, err)
			}
			// malformed representation: the method is not called at all
			calls.unmarshal = 0
			if err := c.unmarshal(theCdc, []byte{0x0a, 0x05, 0x08}, new(UErr)); err == nil || calls.unmarshal != 0 {
				c.failf("a malformed representation is decoded: %v, %d calls", err, calls.unmarshal)
			}
			if err := c.unmarshalJSON(theCdc, []byte(`{"A":5}`), new(UErr)); err == nil || calls.unmarshal != 0 {
				c.failf("a malformed JSON representation is decoded: %v, %d calls", err, calls.unmarshal)
			}
		}, 3000},
		{"one way", func(c *C) {
			n := 1 + c.r.Intn(1000)
			k := reprCtxs[c.r.Intn(len(reprCtxs))]
			c.note("%d in %s", n, k.name)
			c.distinct(n, k.name)
			v, w := k.mk(reflect.ValueOf(MOnly{n})), k.mk(reflect.ValueOf(Sub{n, "x"}))
			b, js := c.marshal(theCdc, w.Interface()), c.marshalJSON(theCdc, w.Interface())
			if x := c.marshal(theCdc, v.Interface()); !bytes.Equal(x, b) {
				c.failf("%s: %X, want %X", k.name, x, b)
			}
			if x := c.marshalJSON(theCdc, v.Interface()); !bytes.Equal(x, js) {
				c.failf("%s: %s, want %s", k.name, x, js)
			}
			u := k.mk(reflect.ValueOf(UOnly{n*2 + 1}))
			for i := 0; i < 2; i++ {
				calls.unmarshal = 0
				got := reflect.New(u.Type())
				var err error
				if i == 0 {
					err = c.unmarshal(theCdc, b, got.Interface())
				} else {
					err = c.unmarshalJSON(theCdc, js, got.Interface())
				}
				if err != nil || calls.unmarshal != k.n || canon(got.Elem(), false) != canon(u, false) {
					c.failf("%s: %v, %d calls, got %s, want %s", k.name, err, calls.unmarshal, canon(got.Elem(), false), canon(u, false))
				}
			}
		}, 3000},
	}
}

// ---------------- C18 ----------------

var scanBin = flag.String("aminoscan", "", "path of the aminoscan binary")
var scanOnce sync.Once

func (c *C) aminoscan(args ...string) (out string) {
	scanOnce.Do(func() {
		if *scanBin == "" {
			*scanBin = filepath.Join(c.tmp, fmt.Sprintf("aminoscan%d", os.Getpid()))
			b, err := exec.Command("go", "build", "-o", *scanBin, "github.com/tendermint/go-amino/cmd/aminoscan").CombinedOutput()
			if err != nil {
				panic(string(b))
			}
		}
	})
	cmd := exec.Command(*scanBin, args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			s := buf.String()
			if len(s) > 1500 {
				s = s[:700] + "..." + s[len(s)-700:]
			}
			c.failf("aminoscan %v: %v\n%s", args, err, s)
		}
	case <-time.After(10 * time.Second):
		cmd.Process.Kill()
		<-done
		c.failf("aminoscan %v does not terminate", args)
	}
	return buf.String()
}

func noANSI(s string) string {
	for _, x := range []string{"\x1b[0m", "\x1b[30m", "\x1b[31m", "\x1b[32m", "\x1b[33m", "\x1b[34m", "\x1b[35m", "\x1b[36m", "\x1b[37m"} {
		s = strings.Replace(s, x, "", -1)
	}
	return s
}

// what a scan of a struct finds: one line per key and value, bytes consumed
func refScan(b []byte) (lines []string, n int, ok bool) {
	for n < len(b) {
		u, m := binary.Uvarint(b[n:])
		if m <= 0 {
			return lines, n, false
		}
		lines = append(lines, fmt.Sprintf("%X @%d", b[n:n+m], uint32(u>>3)))
		n += m
		switch u & 7 {
		case 0:
			i, m := binary.Varint(b[n:])
			u, _ := binary.Uvarint(b[n:])
			if m <= 0 {
				return lines, n, false
			}
			lines = append(lines, fmt.Sprintf("%X (i64:%d u64:%d)", b[n:n+m], i, u))
			n += m
		case 1, 5:
			k := 8
			if u&7 == 5 {
				k = 4
			}
			if len(b)-n < k {
				return lines, n, false
			}
			lines = append(lines, fmt.Sprintf("%X", b[n:n+k]))
			n += k
		case 2:
			l, m := binary.Uvarint(b[n:])
			if m <= 0 || l > uint64(len(b)-n-m) {
				return lines, n, false
			}
			lines = append(lines, fmt.Sprintf("%X (%d bytes)", b[n:n+m+int(l)], l))
			n += m + int(l)
		default:
			return lines, n, false
		}
	}
	return lines, n, true
}

func (c *C) scan(b []byte, wellFormed bool) {
	arg := hex.EncodeToString(b)
	if c.pick(2) {
		arg = strings.ToUpper(arg)
	}
	out := noANSI(c.aminoscan(arg))
	lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
	last := lines[len(lines)-1]
	for i := range lines { // the error may have several lines
		if strings.Contains(lines[i], "## Root Struct END") && i+1 < len(lines) {
			last = lines[i+1]
		}
	}
	parts := strings.SplitN(last, " ", 3)
	if len(parts) != 3 {
		c.failf("aminoscan %s: no result: %q", arg, out)
	}
	n, err := strconv.Atoi(parts[1])
	want, wn, ok := refScan(b)
	if err != nil || n < 0 || n > len(b) {
		c.failf("aminoscan %s reports %s bytes consumed of %d", arg, parts[1], len(b))
	}
	if gotOk := parts[2] == "<nil>"; gotOk != ok || n != wn {
		c.failf("aminoscan %s reports %d bytes and error %q, want %d bytes, error: %v", arg, n, parts[2], wn, !ok)
	}
	if parts[0] != fmt.Sprintf("%X", b) {
		c.failf("aminoscan %s prints the bytes as %s", arg, parts[0])
	}
	if wellFormed && (!ok || n != len(b)) {
		c.failf("reference: well-formed %X is not", b)
	}
	i := 0
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if i < len(want) && (l == want[i] || strings.HasPrefix(l, want[i]+" ")) {
			i++
		}
	}
	if i < len(want) {
		c.failf("aminoscan %s does not report %q:\n%s", arg, want[i], out)
	}
}

func init() {
	props["C18"] = []check{
		{"arbitrary", func(c *C) {
			var b []byte
			switch c.r.Intn(4) {
			case 0:
				b = c.bytes()
			case 1:
				for i := c.r.Intn(8); i > 0; i-- {
					b = append(b, c.anyField(uint32(c.r.Intn(20)))...)
				}
				b = c.mutateRaw(b)
			case 2:
				_, ref := c.supported()
				if len(ref) > 400 {
					ref = ref[:400]
				}
				b = c.mutateRaw(ref)
			case 3:
				b = uv(uint64(c.r.Intn(4)*8) | []uint64{0, 1, 2, 3, 4, 5, 6, 7, 2, 2, 2}[c.r.Intn(11)])
				for i := c.r.Intn(14); i > 0; i-- {
					b = append(b, []byte{0, 1, 2, 0x7f, 0x80, 0xff, 8, 10, byte(c.r.Intn(256))}[c.r.Intn(9)])
				}
			}
			c.note("aminoscan %X", b)
			c.distinct(string(b))
			c.scan(b, false)
		}, 30000},
		{"well formed", func(c *C) {
			for {
				t := c.structT(2)
				if theRef.conc[t] != nil || reprOut(t) != nil || t == timeT {
					continue
				}
				v := c.val(t, 3)
				b, err := theRef.encRoot(v)
				if err != nil || len(b) > 1500 {
					continue
				}
				c.note("%v %s: aminoscan %X", t, short(v), b)
				c.distinct(string(b))
				c.scan(c.marshal(theCdc, v.Interface()), true)
				return
			}
		}, 8000},
		{"options", func(c *C) {
			b := c.bytes()
			if len(b) == 0 {
				b = []byte{5}
			}
			if len(b) > 300 {
				b = b[:300]
			}
			c.note("aminoscan --color %X", b)
			c.distinct(string(b))
			want := ""
			for _, x := range b {
				if x >= 0x21 && x < 0x7f {
					want += string(rune(x))
				} else {
					want += fmt.Sprintf("%02X", x)
				}
			}
			if got := noANSI(c.aminoscan("--color", hex.EncodeToString(b))); got != want+"\n" {
				c.failf("aminoscan --color %X prints %q, want %q", b, got, want)
			}
			name := strings.Replace("n"+c.regName(), "\x00", "", -1)
			d, p := refDisfix(name)
			if got, want := c.aminoscan("--concrete-name", name), fmt.Sprintf("Disamb bytes: %X\nPrefix bytes: %X\n", d, p); got != want {
				c.failf("aminoscan --concrete-name %q prints %q, want %q", name, got, want)
			}
		}, 1500},
	}
}

// ---------------- C19 ----------------

type UIface interface{ UM() }
type UImpl struct{ A int }

func (UImpl) UM() {}

type DeepFloat struct {
	A string
	B struct{ C []struct{ F float32 } }
}

func init() {
	type unsup struct {
		name     string
		v        interface{}
		bin, jsn bool // must be refused
	}
	x := 5
	us := []unsup{
		{"float64", 1.5, true, true}, {"float32", float32(1.5), true, true}, {"zero float64", 0.0, true, true}, {"named float", CFloat(2), true, true}, {"NaN", math.NaN(), true, true},
		{"float list", []float64{1}, true, true}, {"float array", [1]float32{1}, true, true}, {"float pointer", new(float64), true, true},
		{"chan", make(chan int), true, true}, {"nil chan", (chan int)(nil), true, true}, {"chan list", []chan int{nil}, true, true},
		{"func", func() {}, true, true}, {"nil func", (func())(nil), true, true},
		{"complex", complex(1, 2), true, true}, {"complex64", complex64(1), true, true}, {"zero complex", complex(0, 0), true, true}, {"uintptr", uintptr(5), true, true}, {"zero uintptr", uintptr(0), true, true},
		{"uintptr list", []uintptr{1}, true, true},
		{"map", map[string]int{"a": 1}, true, false}, {"empty map", map[string]int{}, true, false}, {"nil map", map[string]int(nil), true, false}, {"map list", []map[string]string{{"a": "b"}}, true, false}, {"map pointer", &map[string]int{"x": 1}, true, false},
		{"int map", map[int]int{1: 1}, true, true}, {"bytes-key map", map[[2]byte]int{{1}: 1}, true, true}, {"float map", map[string]float64{"a": 1}, true, true},
		{"list of lists", [][]int{{1}}, true, false}, {"list of lists of strings", [][]string{{"a"}}, true, false}, {"arrays of arrays", [2][2]int{}, true, false}, {"list of arrays", [][2]bool{{true}}, true, false}, {"three lists", [][][]int{{{1}}}, true, false},
		{"lists of structs", [][]Sub{{{1, "b"}}}, true, false}, {"lists of pointers", [][]*int{{&x}}, true, false}, {"lists of times", [][]time.Time{{{}}}, true, false},
		{"nil pointer in interface", holdI{(*PStruct)(nil)}, true, true}, {"nil pointer to value type in interface", holdI{(*CStruct)(nil)}, true, true},
		{"nil pointer in list of interfaces", []Iface{CInt(1), (*PStruct)(nil)}, true, true}, {"nil pointer in array of interfaces", [1]Iface{(*PInt)(nil)}, true, true}, {"nil pointer in always-disambiguated interface", holdA{(*PStruct)(nil)}, true, true},
		{"nil struct pointer among empty_elements", EE{A: []*Sub{{A: 1}, nil}, D: [2]*Sub{{}, {}}}, true, false}, {"nil struct pointer in empty_elements array", EE{D: [2]*Sub{{}, nil}}, true, false}, {"nil empty struct pointer among empty_elements", EE{B: []*Empty{nil}, D: [2]*Sub{{}, {}}}, true, false},
		{"unregistered concrete", holdI{CUnreg{5}}, true, true}, {"pointer to unregistered concrete", holdI{&CUnreg{5}}, true, true}, {"list of unregistered concretes", []Iface{nil, CUnreg{}}, true, true},
		{"unregistered interface", struct{ I UIface }{UImpl{1}}, true, true}, {"unregistered interface with registered concrete", struct{ I interface{} }{CStruct{A: 1}}, true, true}, {"list of unregistered interfaces", []interface{}{CInt(1)}, true, true}, {"error", struct{ E error }{io.EOF}, true, true},
		{"nil unregistered interface", struct{ I UIface }{}, true, true}, {"nil error", struct{ E error }{}, true, true},
		{"deep float", DeepFloat{B: struct{ C []struct{ F float32 } }{[]struct{ F float32 }{{1}}}}, true, true}, {"float beside unsafe", struct {
			A float64 `amino:"unsafe"`
			B float64
		}{1, 2}, true, true}, {"float in struct in unsafe field", struct {
			A struct{ F float64 } `amino:"unsafe"`
		}{struct{ F float64 }{2}}, true, true}, {"float in list of structs in unsafe field", struct {
			A []struct{ F float64 } `amino:"unsafe"`
		}{[]struct{ F float64 }{{2}}}, true, true}, {"misspelt unsafe", struct {
			F float64 `amino:"Unsafe"`
		}{2}, true, true}, {"unsafe in another tag", struct {
			F float64 `json:"f,unsafe" binary:"unsafe"`
		}{2}, true, true},
		{"float in unregistered concrete", holdI{CNest{I: CFloatS{1}}}, true, true},
	}
	type pos struct {
		name string
		mk   func(v reflect.Value) reflect.Value
		list bool // turns a list into a list of lists
	}
	ps := []pos{
		{"root", func(v reflect.Value) reflect.Value { return v }, false},
		{"pointer", addr, false},
		{"field", func(v reflect.Value) reflect.Value { return inField(v, "") }, false},
		{"write_empty", func(v reflect.Value) reflect.Value { return inField(v, `amino:"write_empty"`) }, false},
		{"fixed", func(v reflect.Value) reflect.Value { return inField(v, `binary:"fixed64"`) }, false},
		{"pointer field", func(v reflect.Value) reflect.Value { return inField(addr(v), "") }, false},
		{"list", func(v reflect.Value) reflect.Value { return list(v) }, true},
		{"list field", func(v reflect.Value) reflect.Value { return inField(list(v, v), "") }, true},
		{"list of pointers", func(v reflect.Value) reflect.Value { return inField(list(addr(v)), "") }, false},
		{"nested", func(v reflect.Value) reflect.Value { return inField(inField(v, ""), "") }, false},
		{"array of structs", func(v reflect.Value) reflect.Value {
			w := inField(v, "")
			a := reflect.New(reflect.ArrayOf(2, w.Type())).Elem()
			a.Index(0).Set(w)
			a.Index(1).Set(w)
			return a
		}, false},
		{"list of pointers to structs", func(v reflect.Value) reflect.Value { return list(addr(inField(v, ""))) }, false},
		{"map", func(v reflect.Value) reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			return m
		}, false},
	}
	props["C19"] = []check{
		{"refused", func(c *C) {
			u, p := us[c.idx%len(us)], ps[(c.idx/len(us))%len(ps)]
			v := p.mk(reflect.ValueOf(u.v))
			c.note("%s in %s: %v", u.name, p.name, v.Type())
			c.distinct(u.name, p.name)
			inField := strings.Contains(p.name, "field") || p.name == "nested" || strings.Contains(p.name, "structs") || p.name == "fixed" || p.name == "map" || strings.Contains(p.name, "list") && strings.Contains(u.name, "map")
			if u.name == "nil chan" || u.name == "nil func" || u.name == "nil map" || u.name == "empty map" {
				if inField {
					return // nothing is lost when it is omitted
				}
			}
			cdc := theCdc
			pv := reflect.New(v.Type())
			pv.Elem().Set(v)
			o := v.Interface()
			if c.pick(2) {
				o = pv.Interface()
			}
			try1 := func(op string, f func() ([]byte, error)) {
				var b []byte
				var err error
				if pn := try(func() { b, err = f() }); pn == nil && err == nil {
					c.failf("%s of %s in %s (%v) gives %q", op, u.name, p.name, v.Type(), b)
				}
			}
			if _, ok := refTry(v); ok {
				// allowed here: lists of lists directly in a field
				if !u.bin || !strings.Contains(u.name, "lists") && !strings.Contains(u.name, "arrays") {
					c.failf("reference: %s in %s is allowed", u.name, p.name)
				}
			} else if u.bin || p.name == "map" {
				try1("MarshalBinaryBare", func() ([]byte, error) { return cdc.MarshalBinaryBare(o) })
				try1("MarshalBinaryLengthPrefixed", func() ([]byte, error) { return cdc.MarshalBinaryLengthPrefixed(o) })
				var buf bytes.Buffer
				try1("MarshalBinaryLengthPrefixedWriter", func() ([]byte, error) {
					_, err := cdc.MarshalBinaryLengthPrefixedWriter(&buf, o)
					return buf.Bytes(), err
				})
			}
			if u.jsn {
				try1("MarshalJSON", func() ([]byte, error) { return cdc.MarshalJSON(o) })
				try1("MarshalJSONIndent", func() ([]byte, error) { return cdc.MarshalJSONIndent(o, "", " ") })
			}
		}, 2 * len(us) * len(ps)},
		{"lists of lists", func(c *C) {
			// any list of lists not of bytes
			e := c.elemT(1)
			for e.Kind() == reflect.Uint8 || e.Kind() == reflect.Map {
				e = c.elemT(1)
			}
			n := 1 + c.r.Intn(3)
			mkT := func(t reflect.Type) reflect.Type {
				if c.pick(3) {
					return reflect.ArrayOf(1+c.r.Intn(2), t)
				}
				return reflect.SliceOf(t)
			}
			t := mkT(e)
			for i := 0; i < n; i++ {
				t = mkT(t)
			}
			b := t
			for b.Kind() == reflect.Slice || b.Kind() == reflect.Array {
				b = b.Elem()
			}
			if b.Kind() == reflect.Uint8 {
				return
			}
			v := reflect.New(t).Elem()
			var fillAll func(v reflect.Value)
			fillAll = func(v reflect.Value) {
				switch v.Kind() {
				case reflect.Slice:
					v.Set(reflect.MakeSlice(v.Type(), 1+c.r.Intn(2), 3))
					fallthrough
				case reflect.Array:
					for i := 0; i < v.Len(); i++ {
						fillAll(v.Index(i))
					}
				default:
					c.fill(v, 1, false)
				}
			}
			fillAll(v)
			p := ps[c.r.Intn(len(ps)-1)]
			w := p.mk(v)
			c.note("%v", w.Type())
			c.distinct(w.Type())
			var bz []byte
			var err error
			pn := try(func() { bz, err = theCdc.MarshalBinaryBare(w.Interface()) })
			if ref, ok := refTry(w); ok {
				if pn != nil || err != nil || !bytes.Equal(bz, ref) {
					c.failf("MarshalBinaryBare of %v %s gives %X, %v (panic %v), want %X", w.Type(), short(w), bz, err, pn, ref)
				}
			} else if pn == nil && err == nil {
				c.failf("MarshalBinaryBare of %v %s gives %X", w.Type(), short(w), bz)
			}
		}, 4000},
		{"decode", func(c *C) {
			cases := []struct {
				t  interface{}
				in []byte
				js string
			}{
				{struct{ F float64 }{}, []byte{9, 0, 0, 0, 0, 0, 0, 0, 0x40}, `{"F":1.5}`}, {struct{ F float32 }{}, []byte{13, 0, 0, 0, 0x40}, `{"F":1.5}`}, {struct{ F []float32 }{}, []byte{10, 4, 0, 0, 0, 0x40}, `{"F":[1.5]}`},
				{struct{ F *float64 }{}, []byte{9, 0, 0, 0, 0, 0, 0, 0, 0x40}, `{"F":1.5}`}, {struct{ F map[string]int }{}, []byte{10, 2, 8, 1}, ``}, {struct{ F chan int }{}, []byte{8, 1}, `{"F":1}`}, {struct{ F func() }{}, []byte{8, 1}, `{"F":1}`},
				{struct{ F complex128 }{}, []byte{9, 0, 0, 0, 0, 0, 0, 0, 0x40}, `{"F":1}`}, {struct{ F uintptr }{}, []byte{8, 1}, `{"F":1}`}, {struct{ F map[int]int }{}, []byte{10, 2, 8, 1}, `{"F":{"1":"1"}}`},
				{[][]int{}, []byte{10, 2, 8, 1}, ``}, {struct{ I UIface }{}, []byte{10, 4, 1, 2, 3, 4}, `{"I":{"type":"zoo/CStruct","value":{}}}`}, {struct{ I interface{} }{}, append([]byte{10, 4}, theCPrefix()...), `{"I":{"type":"zoo/CStruct","value":{}}}`},
				{1.5, []byte{9, 0, 0, 0, 0, 0, 0, 0, 0x40}, `1.5`}, {struct{ F map[string]float64 }{}, []byte{10, 0}, `{"F":{"a":1.5}}`},
				{struct {
					F struct{ G float64 } `amino:"unsafe"`
				}{}, []byte{10, 9, 9, 0, 0, 0, 0, 0, 0, 0, 0x40}, `{"F":{"G":1.5}}`},
			}
			k := cases[c.idx%len(cases)]
			t := reflect.TypeOf(k.t)
			c.note("%v from %X and %s", t, k.in, k.js)
			c.distinct(t)
			got := reflect.New(t)
			var err error
			if p := try(func() { err = theCdc.UnmarshalBinaryBare(k.in, got.Interface()) }); p == nil && err == nil {
				c.failf("%X is decoded into %v as %v", k.in, t, got.Elem())
			}
			if k.js != "" {
				got := reflect.New(t)
				if p := try(func() { err = theCdc.UnmarshalJSON([]byte(k.js), got.Interface()) }); p == nil && err == nil {
					c.failf("%s is decoded into %v as %v", k.js, t, got.Elem())
				}
			}
		}, 16},
	}
}

func refTry(v reflect.Value) (b []byte, ok bool) {
	if dv, ok := derefV(v); !ok || dv.Kind() == reflect.Map {
		return nil, false
	}
	b, err := theRef.encRoot(v)
	return b, err == nil
}

func theCPrefix() []byte {
	_, p := refDisfix("zoo/CStruct")
	return p[:]
}

type holdI struct{ I Iface }
type holdA struct{ I IfaceAlways }
type CFloatS struct{ F float64 }

func (CFloatS) IfaceM() {}

// ---------------- C20 ----------------

func (c *C) tag(i int) (tag string) {
	sel := func(xs ...string) string { return xs[c.r.Intn(len(xs))] }
	var parts []string
	if c.pick(2) {
		n := 1 + c.r.Intn(3)
		var os []string
		for ; n > 0; n-- {
			os = append(os, sel("unsafe", "unsafe", "write_empty", "empty_elements", " unsafe", "unsafe ", "UNSAFE", "", "other", "writeempty", "unsafe=1", "fixed64", "omitempty", "-", "write_empty "))
		}
		parts = append(parts, "amino:"+strconv.Quote(strings.Join(os, ",")))
	}
	if c.pick(2) {
		parts = append(parts, "binary:"+strconv.Quote(sel("fixed32", "fixed64", "fixed32", "fixed64", "varint", "fixed", "fixed64,varint", "varint,fixed32", " fixed64", "FIXED64", "fixed32 ", "", "unsafe", "zigzag", "fixed640")))
	}
	if c.pick(2) {
		nm := fmt.Sprintf("n%d", i)
		parts = append(parts, "json:"+strconv.Quote(sel("-", "-,", "-,omitempty", "--", nm, nm+",omitempty", ",omitempty", nm+",string,omitempty", ",omitempty,string", nm+", omitempty", "omitempty", ",", nm+",", nm+",Omitempty", ",string", "é"+nm, "q\""+nm, "<"+nm+">", " "+nm, ",omitempty ", "", nm+",omitempty,omitempty", "-"+nm)))
	}
	if c.pick(6) {
		parts = append(parts, sel(`xml:"-"`, `yaml:"x,omitempty"`, `Json:"-"`, `jsonx:"-"`, `binary:"fixed64"`, `json:"zz"`))
	}
	c.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	return strings.Join(parts, " ")
}

func (c *C) tagStruct() reflect.Type {
	n := 1 + c.r.Intn(6)
	if c.pick(15) {
		n = 14 + c.r.Intn(6)
	}
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Tag: reflect.StructTag(c.tag(i))}
		switch c.r.Intn(9) {
		case 0:
			f.Type = []reflect.Type{reflect.TypeOf(1.5), reflect.TypeOf(float32(1)), reflect.TypeOf([]float64{}), reflect.TypeOf(new(float32))}[c.r.Intn(4)]
			if c.pick(2) {
				f.Tag = reflect.StructTag(`amino:"unsafe" ` + strings.Replace(string(f.Tag), "amino:", "other:", -1))
			}
		case 1:
			f.Type = []reflect.Type{reflect.TypeOf([]*Sub{}), reflect.TypeOf([]Sub{}), reflect.TypeOf([1]*Sub{}), reflect.TypeOf([]**Sub{}), reflect.TypeOf([]*int{}), reflect.TypeOf([]*time.Time{}), reflect.TypeOf([]*string{}), reflect.TypeOf([]NBytes{}), reflect.TypeOf([]NUint8{}), reflect.TypeOf([][3]byte{})}[c.r.Intn(10)]
		case 2, 3:
			f.Type = []reflect.Type{reflect.TypeOf(int64(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(0), reflect.TypeOf(uint(0)), reflect.TypeOf(NInt64(0)), reflect.TypeOf([]int64{}), reflect.TypeOf([]uint32{}), reflect.TypeOf(new(int32)), reflect.TypeOf([2]*uint64{}), reflect.TypeOf(int16(0)), reflect.TypeOf(uint8(0))}[c.r.Intn(13)]
		default:
			f.Type = c.fieldT(1)
		}
		if c.pick(10) {
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "main"
		}
		if c.pick(15) && f.PkgPath == "" {
			f.Type = []reflect.Type{reflect.TypeOf(Sub{}), reflect.TypeOf(Empty{}), reflect.TypeOf(NInt(0)), reflect.TypeOf(NString(""))}[c.r.Intn(4)]
			ok := true
			for _, g := range fs {
				ok = ok && g.Name != f.Type.Name()
			}
			if ok {
				f.Name, f.Anonymous = f.Type.Name(), true
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func init() {
	props["C20"] = []check{
		{"tags", func(c *C) {
			c.json = c.pick(3)
			t := c.tagStruct()
			v := c.val(t, 3)
			if c.pick(4) {
				v = c.val(t, 3)
				v.Set(reflect.Zero(t))
			}
			c.note("%v %s", t, short(v))
			c.distinct(t, short(v))
			ref, rerr := theRef.encRoot(v)
			var b []byte
			var err error
			if p := try(func() { b, err = theCdc.MarshalBinaryBare(v.Interface()) }); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
			if (err == nil) != (rerr == nil) || !bytes.Equal(b, ref) {
				if !(rerr == nil && err != nil && strings.Contains(err.Error(), "unsupported")) {
					c.failf("%v %s encodes as %X, %v; want %X, %v", t, short(v), b, err, ref, rerr)
				}
			}
			if rerr == nil {
				got := reflect.New(t)
				if err := c.unmarshal(theCdc, ref, got.Interface()); err != nil {
					c.failf("%X does not decode into %v: %v", ref, t, err)
				}
				if x, y := canon(v, true), canon(got.Elem(), true); x != y {
					c.failf("%X into %v gives %s, want %s", ref, t, y, x)
				}
			}
			js, jerr := []byte(nil), error(nil)
			if p := try(func() { js, jerr = theCdc.MarshalJSON(v.Interface()) }); p != nil {
				jerr = fmt.Errorf("panic: %v", p)
			}
			want, werr := theRef.jsonRoot(v)
			if !c.json {
				return // other strings and floats
			}
			if (jerr == nil) != (werr == nil) || werr == nil && string(js) != want {
				c.failf("%v %s encodes as %s, %v; want %s, %v", t, short(v), js, jerr, want, werr)
			}
			if werr != nil {
				return
			}
			names := map[string]bool{}
			for _, f := range fieldsOf(t) {
				if names[f.json] || f.omit {
					return
				}
				names[f.json] = true
			}
			got := reflect.New(t)
			if err := c.unmarshalJSON(theCdc, js, got.Interface()); err != nil {
				c.failf("%s does not decode into %v: %v", js, t, err)
			}
			if x, y := canon(v, false), canon(got.Elem(), false); x != y {
				c.failf("%s into %v gives %s, want %s", js, t, y, x)
			}
		}, 30000},
		{"fixed", func(c *C) {
			// written down by hand
			cases := []struct {
				v    interface{}
				bin  string
				json string
			}{
				{struct {
					A int
					b int
					C int `json:"-"`
					D int
				}{1, 2, 3, 4}, "08011004", `{"A":"1","D":"4"}`},
				{struct {
					A int64  `binary:"fixed64"`
					B uint32 `binary:"fixed32"`
					C int64  `binary:"fixed32"`
					D int32  `binary:"fixed64"`
					E int    `binary:"fixed64"`
				}{1, 2, 3, 4, 5}, "090100000000000000" + "1502000000" + "1803" + "2004" + "2805", `{"A":"1","B":2,"C":"3","D":4,"E":"5"}`},
				{struct {
					A int `amino:"write_empty"`
					B int
					C string `amino:"other,write_empty"`
				}{}, "08001a00", `{"A":"0","B":"0","C":""}`},
				{struct {
					A []int64 `binary:"fixed64"`
					B []string
					C [][]byte
					D []byte
					E []bool
				}{[]int64{1}, []string{"a", ""}, [][]byte{{1}}, []byte{1, 2}, []bool{true}}, "0a080100000000000000" + "1201611200" + "1a0101" + "22020102" + "2a0101", `{"A":["1"],"B":["a",""],"C":["AQ=="],"D":"AQI=","E":[true]}`},
				{struct {
					A []*Sub `amino:"empty_elements"`
					B []*Sub
					C []Sub
				}{[]*Sub{{}}, []*Sub{nil}, []Sub{{}}}, "0a00" + "1200" + "1a00", `{"A":[{"A":"0","B":""}],"B":[null],"C":[{"A":"0","B":""}]}`},
				{struct {
					A float64 `amino:"unsafe"`
					B int     `json:"b,omitempty"`
					C int     `json:",omitempty"`
					D int     `json:"omitempty"`
					E string  `json:"-,"`
				}{A: 1}, "09000000000000f03f", `{"A":1,"omitempty":"0","-":""}`},
				{struct {
					A *int
					B *string
					C **int
				}{new(int), new(string), nil}, "", `{"A":"0","B":"","C":null}`},
				{struct {
					Sub
					X NInt
				}{Sub{1, "b"}, 2}, "0a0508011201621002", `{"Sub":{"A":"1","B":"b"},"X":"2"}`},
				{struct{ A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P int }{P: 1, O: 2}, "7802800101", `{"A":"0","B":"0","C":"0","D":"0","E":"0","F":"0","G":"0","H":"0","I":"0","J":"0","K":"0","L":"0","M":"0","N":"0","O":"2","P":"1"}`},
				{struct {
					A uint8
					B int8
					C int16
					D uint16
					E bool
					F time.Time
				}{200, -1, -2, 300, true, time.Unix(1, 2)}, "08c801" + "1001" + "1803" + "20ac02" + "2801" + "320408011002", `{"A":200,"B":-1,"C":-2,"D":300,"E":true,"F":"1970-01-01T00:00:01.000000002Z"}`},
			}
			k := cases[c.idx%len(cases)]
			c.note("%T", k.v)
			c.distinct(k.bin)
			if b := c.marshal(theCdc, k.v); hex.EncodeToString(b) != k.bin {
				c.failf("%+v encodes as %x, want %s", k.v, b, k.bin)
			}
			if b := c.marshalJSON(theCdc, k.v); string(b) != k.json {
				c.failf("%+v encodes as %s, want %s", k.v, b, k.json)
			}
		}, 40},
	}
}

var _ = json.Valid
var _ = errors.New

// KFInv is represented by the default value exactly when it is not the default.
type KFInv int64

func (x KFInv) MarshalAmino() (int64, error)  { return int64(x) ^ 1, nil }
func (x *KFInv) UnmarshalAmino(r int64) error { *x = KFInv(r ^ 1); return nil }

// KFStr is a struct represented by an integer.
type KFStr struct{ N int64 }

func (x KFStr) MarshalAmino() (int64, error)  { return x.N, nil }
func (x *KFStr) UnmarshalAmino(r int64) error { x.N = r; return nil }

// KFList is a list of strings represented by another list of strings.
type KFList []string

func (x KFList) MarshalAmino() ([]string, error) {
	r := []string{}
	for _, s := range x {
		r = append(r, s+"!")
	}
	return r, nil
}
func (x *KFList) UnmarshalAmino(r []string) error {
	*x = nil
	for _, s := range r {
		*x = append(*x, strings.TrimSuffix(s, "!"))
	}
	return nil
}
