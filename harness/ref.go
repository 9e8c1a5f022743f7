package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// An independent reference implementation of the documented encoding. It
// shares no code with go-amino and keeps no state but the registrations.

type regInfo struct {
	t       reflect.Type
	name    string
	ptr     bool
	disamb  [3]byte
	prefix  [4]byte
	ordinal int
}

type refCodec struct {
	conc   map[reflect.Type]*regInfo
	order  []*regInfo
	ifaces map[reflect.Type]bool // -> always disambiguate
}

func newRef() *refCodec {
	return &refCodec{map[reflect.Type]*regInfo{}, nil, map[reflect.Type]bool{}}
}

func refDisfix(name string) (d [3]byte, p [4]byte) {
	h := sha256.Sum256([]byte(name))
	i := 0
	for h[i] == 0 {
		i++
	}
	copy(d[:], h[i:i+3])
	i += 3
	for h[i] == 0 {
		i++
	}
	copy(p[:], h[i:i+4])
	return
}

func (r *refCodec) register(v interface{}, name string) {
	t := reflect.TypeOf(v)
	ri := &regInfo{name: name}
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
		ri.ptr = true
	}
	ri.t = t
	ri.disamb, ri.prefix = refDisfix(name)
	r.conc[t] = ri
	ri.ordinal = len(r.order)
	r.order = append(r.order, ri)
}

func (r *refCodec) implementers(it reflect.Type, p [4]byte) (ris []*regInfo) {
	for _, ri := range r.order {
		if ri.prefix == p && reflect.PtrTo(ri.t).Implements(it) {
			ris = append(ris, ri)
		}
	}
	return
}

type fopt struct {
	json     string
	omit     bool
	f64, f32 bool
	num      uint32
	unsafe   bool
	we, ee   bool
	name     string
	index    int
	typ      reflect.Type
	unpacked bool
}

func hasOpt(tag, o string) bool {
	for _, x := range strings.Split(tag, ",") {
		if x == o {
			return true
		}
	}
	return false
}

func deref(t reflect.Type) reflect.Type {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return t
}

func fieldsOf(t reflect.Type) (fs []fopt) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" {
			continue
		}
		j := f.Tag.Get("json")
		if j == "-" {
			continue
		}
		parts := strings.Split(j, ",")
		o := fopt{name: f.Name, json: f.Name, index: i, typ: f.Type, num: uint32(len(fs) + 1)}
		if parts[0] != "" {
			o.json = parts[0]
		}
		o.omit = len(parts) > 1 && parts[1] == "omitempty"
		o.f64 = f.Tag.Get("binary") == "fixed64"
		o.f32 = f.Tag.Get("binary") == "fixed32"
		am := f.Tag.Get("amino")
		o.unsafe, o.we, o.ee = hasOpt(am, "unsafe"), hasOpt(am, "write_empty"), hasOpt(am, "empty_elements")
		if k := f.Type.Kind(); (k == reflect.Array || k == reflect.Slice) && f.Type.Elem().Kind() != reflect.Uint8 {
			o.unpacked = wireType(deref(f.Type.Elem()), o) == 2
		}
		fs = append(fs, o)
	}
	return
}

// wire type of a (non-pointer) type, -1 if there is none.
func wireType(t reflect.Type, o fopt) int {
	switch t.Kind() {
	case reflect.String, reflect.Struct, reflect.Slice, reflect.Array, reflect.Interface, reflect.Map:
		return 2
	case reflect.Bool, reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16:
		return 0
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			return 5
		}
		return 0
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			return 1
		}
		return 0
	case reflect.Float64:
		return 1
	case reflect.Float32:
		return 5
	}
	return -1
}

func uv(u uint64) []byte {
	var b []byte
	for u >= 0x80 {
		b = append(b, byte(u)|0x80)
		u >>= 7
	}
	return append(b, byte(u))
}
func zigzag(i int64) uint64 { return uint64(i<<1) ^ uint64(i>>63) }
func le(u uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(u >> (8 * uint(i)))
	}
	return b
}
func lenPrefixed(b []byte) []byte { return append(uv(uint64(len(b))), b...) }

var errUnsupported = errors.New("unsupported")

// last non-nil pointer target, ok=false if a nil pointer is on the way
func derefV(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, true
}

func reprOut(t reflect.Type) reflect.Type {
	if m, ok := t.MethodByName("MarshalAmino"); ok {
		return m.Type.Out(0)
	}
	return nil
}
func reprIn(t reflect.Type) reflect.Type {
	if m, ok := reflect.PtrTo(t).MethodByName("UnmarshalAmino"); ok {
		return m.Type.In(1)
	}
	return nil
}

func callMarshalAmino(v reflect.Value) (reflect.Value, error) {
	outs := v.MethodByName("MarshalAmino").Call(nil)
	if !outs[1].IsNil() {
		return outs[0], outs[1].Interface().(error)
	}
	return outs[0], nil
}

func isDefault(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.String, reflect.Slice:
		return v.Len() == 0
	case reflect.Map:
		return v.Len() == 0
	case reflect.Interface, reflect.Chan, reflect.Func:
		return v.IsNil()
	}
	return false
}

// a float field that is not marked unsafe makes its struct unusable
func unsafeField(t reflect.Type) bool {
	for _, f := range fieldsOf2(t) {
		ft := t.Field(f.index)
		if k := ft.Type.Kind(); (k == reflect.Float32 || k == reflect.Float64) && !hasOpt(ft.Tag.Get("amino"), "unsafe") {
			return true
		}
	}
	return false
}

const minSec, maxSec = -62135596800, 253402300800

func (r *refCodec) enc(v reflect.Value, o fopt, bare bool) ([]byte, error) {
	t := v.Type()
	if reprOut(t) != nil && t.Kind() != reflect.Interface {
		rv, err := callMarshalAmino(v)
		if err != nil {
			return nil, err
		}
		return r.enc(rv, o, bare)
	}
	frame := func(b []byte, err error) ([]byte, error) {
		if err != nil || bare {
			return b, err
		}
		return lenPrefixed(b), nil
	}
	switch t.Kind() {
	case reflect.Interface:
		if _, ok := r.ifaces[t]; !ok {
			return nil, errUnsupported
		}
		if v.IsNil() {
			return []byte{0}, nil
		}
		cv, ok := derefV(v.Elem())
		if !ok {
			return nil, errUnsupported
		}
		ri := r.conc[cv.Type()]
		if ri == nil {
			return nil, errUnsupported
		}
		var b []byte
		if r.ifaces[t] || len(r.implementers(t, ri.prefix)) > 1 {
			b = append(append(b, 0), ri.disamb[:]...)
		}
		b = append(b, ri.prefix[:]...)
		c, err := r.enc(cv, o, true)
		if err != nil {
			return nil, err
		}
		return frame(append(b, c...), nil)
	case reflect.Array, reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return lenPrefixed(b), nil
		}
		if k := t.Elem().Kind(); k == reflect.Slice || k == reflect.Array {
			e := t.Elem()
			for e.Kind() == reflect.Slice || e.Kind() == reflect.Array {
				e = e.Elem()
			}
			if e.Kind() != reflect.Uint8 {
				return nil, errUnsupported
			}
		}
		return frame(r.encList(v, o))
	case reflect.Struct:
		if t == timeT {
			return frame(refTime(v.Interface().(time.Time)))
		}
		return frame(r.encStruct(v))
	case reflect.Int64:
		if o.f64 {
			return le(uint64(v.Int()), 8), nil
		}
		return uv(uint64(v.Int())), nil
	case reflect.Int32:
		if o.f32 {
			return le(uint64(v.Int()), 4), nil
		}
		return uv(uint64(v.Int())), nil
	case reflect.Int:
		return uv(uint64(v.Int())), nil
	case reflect.Int8, reflect.Int16:
		return uv(zigzag(v.Int())), nil
	case reflect.Uint64:
		if o.f64 {
			return le(v.Uint(), 8), nil
		}
		return uv(v.Uint()), nil
	case reflect.Uint32:
		if o.f32 {
			return le(v.Uint(), 4), nil
		}
		return uv(v.Uint()), nil
	case reflect.Uint, reflect.Uint8, reflect.Uint16:
		return uv(v.Uint()), nil
	case reflect.Bool:
		if v.Bool() {
			return []byte{1}, nil
		}
		return []byte{0}, nil
	case reflect.Float32:
		if o.unsafe {
			return le(uint64(math.Float32bits(float32(v.Float()))), 4), nil
		}
	case reflect.Float64:
		if o.unsafe {
			return le(math.Float64bits(v.Float()), 8), nil
		}
	case reflect.String:
		return lenPrefixed([]byte(v.String())), nil
	}
	return nil, errUnsupported
}

func refTime(t time.Time) ([]byte, error) {
	s, ns := t.Unix(), t.Nanosecond()
	if s < minSec || s >= maxSec {
		return nil, errUnsupported
	}
	var b []byte
	if s != 0 {
		b = append(append(b, 0x08), uv(uint64(s))...)
	}
	if ns != 0 {
		b = append(append(b, 0x10), uv(uint64(ns))...)
	}
	return b, nil
}

func (r *refCodec) encList(v reflect.Value, o fopt) (b []byte, err error) {
	et := v.Type().Elem()
	dt := deref(et)
	if dt.Kind() == reflect.Interface {
		if _, ok := r.ifaces[dt]; !ok {
			return nil, errUnsupported
		}
	}
	wt := wireType(dt, o)
	if wt < 0 {
		return nil, errUnsupported
	}
	for i := 0; i < v.Len(); i++ {
		ev, ok := derefV(v.Index(i))
		var c []byte
		if wt != 2 {
			if !ok {
				ev = reflect.Zero(dt)
			}
			c, err = r.enc(ev, o, false)
		} else {
			b = append(b, uv(uint64(o.num)<<3|2)...)
			if !ok || isDefault(ev) {
				if et.Kind() == reflect.Ptr && dt.Kind() == reflect.Struct && o.ee {
					return nil, errUnsupported
				}
				c = []byte{0}
			} else {
				eo := o
				eo.num = 1
				c, err = r.enc(ev, eo, false)
			}
		}
		if err != nil {
			return nil, err
		}
		b = append(b, c...)
	}
	return
}

func (r *refCodec) encStruct(v reflect.Value) (b []byte, err error) {
	if unsafeField(v.Type()) {
		return nil, errUnsupported
	}
	for _, f := range fieldsOf(v.Type()) {
		fv := v.Field(f.index)
		if dt := deref(f.typ); dt.Kind() == reflect.Interface {
			if _, ok := r.ifaces[dt]; !ok {
				return nil, errUnsupported
			}
		}
		dv, ok := derefV(fv)
		if !ok || isDefault(dv) && !f.we {
			continue
		}
		var c []byte
		if f.unpacked {
			c, err = r.encList(fv, f)
		} else {
			c, err = r.enc(dv, f, false)
			if err == nil {
				wt := wireType(dv.Type(), f)
				if wt < 0 {
					return nil, errUnsupported
				}
				if len(c) == 1 && c[0] == 0 && !f.we && fv.Kind() != reflect.Ptr {
					continue
				}
				c = append(uv(uint64(f.num)<<3|uint64(wt)), c...)
			}
		}
		if err != nil {
			return nil, err
		}
		b = append(b, c...)
	}
	return
}

func structLike(t reflect.Type) bool {
	return t.Kind() == reflect.Struct ||
		(t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem().Kind() == reflect.Struct
}

// encRoot is MarshalBinaryBare.
func (r *refCodec) encRoot(v reflect.Value) (b []byte, err error) {
	dv, ok := derefV(v)
	if !ok {
		return nil, errUnsupported
	}
	t := dv.Type()
	o := fopt{num: 1}
	if structLike(t) {
		b, err = r.enc(dv, o, true)
	} else {
		wt := wireType(t, fopt{})
		if wt < 0 {
			return nil, errUnsupported
		}
		b, err = r.enc(dv, o, wt != 2)
		if err == nil {
			if len(b) == 1 && b[0] == 0 {
				b = nil
			} else {
				b = append(uv(1<<3|uint64(wt)), b...)
			}
		}
	}
	if err != nil {
		return nil, err
	}
	if ri := r.conc[t]; ri != nil {
		b = append(append([]byte{}, ri.prefix[:]...), b...)
	}
	return
}

// ---------------- decoding ----------------

var errDec = errors.New("malformed")

func derr(f string, a ...interface{}) error {
	return fmt.Errorf("%w: "+f, append([]interface{}{errDec}, a...)...)
}

func rdUv(b []byte) (u uint64, n int, err error) {
	for i := 0; i < len(b); i++ {
		if i == 9 && b[i] > 1 || i > 9 {
			return 0, 0, derr("varint overflow")
		}
		u |= uint64(b[i]&0x7f) << (7 * uint(i))
		if b[i] < 0x80 {
			return u, i + 1, nil
		}
	}
	return 0, 0, derr("varint truncated")
}
func rdFixed(b []byte, k int) (uint64, int, error) {
	if len(b) < k {
		return 0, 0, derr("truncated")
	}
	var u uint64
	for i := 0; i < k; i++ {
		u |= uint64(b[i]) << (8 * uint(i))
	}
	return u, k, nil
}
func rdBytes(b []byte) ([]byte, int, error) {
	l, n, err := rdUv(b)
	if err != nil {
		return nil, 0, err
	}
	if l > uint64(len(b)-n) {
		return nil, 0, derr("length beyond input")
	}
	return b[n : n+int(l)], n + int(l), nil
}
func rdKey(b []byte) (num uint32, wt int, n int, err error) {
	u, n, err := rdUv(b)
	if err != nil {
		return 0, 0, 0, err
	}
	if u>>3 > 1<<29-1 {
		return 0, 0, 0, derr("field number")
	}
	return uint32(u >> 3), int(u & 7), n, nil
}

// Decodes from the front of b into the addressable v.
func (r *refCodec) dec(b []byte, v reflect.Value, o fopt, bare bool) (n int, err error) {
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		v = v.Elem()
	}
	t := v.Type()
	if t.Kind() != reflect.Interface {
		if rt := reprIn(t); rt != nil {
			rv := reflect.New(rt).Elem()
			n, err = r.dec(b, rv, o, bare)
			if err != nil {
				return n, err
			}
			out := v.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{rv})[0]
			if !out.IsNil() {
				return n, out.Interface().(error)
			}
			return n, nil
		}
	}
	// A nested value is decoded from exactly its frame.
	framed := func(f func(b []byte) error) (int, error) {
		if bare {
			return len(b), f(b)
		}
		c, n, err := rdBytes(b)
		if err != nil {
			return 0, err
		}
		return n, f(c)
	}
	var u uint64
	switch t.Kind() {
	case reflect.Interface:
		if _, ok := r.ifaces[t]; !ok {
			return 0, errUnsupported
		}
		return framed(func(b []byte) error { return r.decIface(b, v, t, o, bare) })
	case reflect.Array, reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			if t.Kind() == reflect.Slice && len(b) == 0 {
				v.Set(reflect.Zero(t))
				return 0, nil
			}
			c, n, err := rdBytes(b)
			if err != nil {
				return 0, err
			}
			if t.Kind() == reflect.Array {
				if len(c) != t.Len() {
					return 0, derr("array length")
				}
			} else {
				v.Set(reflect.MakeSlice(t, len(c), len(c)))
			}
			for i := range c {
				v.Index(i).SetUint(uint64(c[i]))
			}
			return n, nil
		}
		if bare {
			return r.decList(b, v, o, true)
		}
		return framed(func(b []byte) error {
			n, err := r.decList(b, v, o, false)
			if err == nil && n != len(b) {
				err = derr("bytes left over in list")
			}
			return err
		})
	case reflect.Struct:
		if t == timeT {
			return framed(func(b []byte) error { return decTime(b, v) })
		}
		return framed(func(b []byte) error { return r.decStruct(b, v) })
	case reflect.Int64, reflect.Uint64:
		if o.f64 {
			u, n, err = rdFixed(b, 8)
		} else {
			u, n, err = rdUv(b)
		}
	case reflect.Int32, reflect.Uint32:
		if o.f32 {
			u, n, err = rdFixed(b, 4)
			if t.Kind() == reflect.Int32 {
				u = uint64(int64(int32(u)))
			}
		} else {
			u, n, err = rdUv(b)
			if t.Kind() == reflect.Int32 && int64(u) != int64(int32(u)) || t.Kind() == reflect.Uint32 && u > math.MaxUint32 {
				err = derr("range")
			}
		}
	case reflect.Int, reflect.Uint:
		u, n, err = rdUv(b)
	case reflect.Int8, reflect.Int16:
		u, n, err = rdUv(b)
		u = u>>1 ^ -(u & 1)
		if t.Kind() == reflect.Int8 && int64(u) != int64(int8(u)) || int64(u) != int64(int16(u)) {
			err = derr("range")
		}
	case reflect.Uint8, reflect.Uint16:
		u, n, err = rdUv(b)
		if t.Kind() == reflect.Uint8 && u > 255 || u > 65535 {
			err = derr("range")
		}
	case reflect.Bool:
		if len(b) == 0 || b[0] > 1 {
			return 0, derr("bool")
		}
		v.SetBool(b[0] == 1)
		return 1, nil
	case reflect.Float32:
		if !o.unsafe {
			return 0, errUnsupported
		}
		if u, n, err = rdFixed(b, 4); err == nil {
			v.SetFloat(float64(math.Float32frombits(uint32(u))))
		}
		return
	case reflect.Float64:
		if !o.unsafe {
			return 0, errUnsupported
		}
		if u, n, err = rdFixed(b, 8); err == nil {
			v.SetFloat(math.Float64frombits(u))
		}
		return
	case reflect.String:
		c, n, err := rdBytes(b)
		if err == nil {
			v.SetString(string(c))
		}
		return n, err
	default:
		return 0, errUnsupported
	}
	if err != nil {
		return 0, err
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(u))
	default:
		v.SetUint(u)
	}
	return
}

// value for "written as no bytes"
func (r *refCodec) setDefault(v reflect.Value) error {
	t := v.Type()
	v.Set(reflect.Zero(t))
	if deref(t) == timeT {
		for v.Kind() == reflect.Ptr {
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		v.Set(reflect.ValueOf(time.Unix(0, 0).UTC()))
		return nil
	}
	if t.Kind() == reflect.Struct && reprIn(t) == nil {
		return r.decStruct(nil, v)
	}
	return nil
}

func decTime(b []byte, v reflect.Value) error {
	var sec, ns uint64
	last := uint32(0)
	for len(b) > 0 {
		num, wt, n, err := rdKey(b)
		if err != nil {
			return err
		}
		if num < 1 || num > 2 || wt != 0 || num <= last {
			return derr("time field")
		}
		last = num
		u, m, err := rdUv(b[n:])
		if err != nil {
			return err
		}
		b = b[n+m:]
		if num == 1 {
			if int64(u) < minSec || int64(u) >= maxSec {
				return derr("seconds range")
			}
			sec = u
		} else {
			if u > 999999999 {
				return derr("nanos range")
			}
			ns = u
		}
	}
	v.Set(reflect.ValueOf(time.Unix(int64(sec), int64(ns)).UTC()))
	return nil
}

func (r *refCodec) decIface(b []byte, v reflect.Value, t reflect.Type, o fopt, root bool) error {
	if !v.IsNil() {
		return errUnsupported
	}
	if len(b) == 0 {
		if root {
			return derr("empty")
		}
		v.Set(reflect.Zero(t))
		return nil
	}
	if len(b) < 4 {
		return derr("prefix")
	}
	var ri *regInfo
	if b[0] == 0 {
		if len(b) < 8 {
			return derr("disfix")
		}
		for _, x := range r.order {
			if bytes.Equal(x.disamb[:], b[1:4]) && bytes.Equal(x.prefix[:], b[4:8]) {
				ri = x
			}
		}
		b = b[8:]
	} else {
		var p [4]byte
		copy(p[:], b)
		if rs := r.implementers(t, p); len(rs) == 1 {
			ri = rs[0]
		}
		b = b[4:]
	}
	if ri == nil {
		return derr("unknown prefix")
	}
	if !reflect.PtrTo(ri.t).Implements(t) {
		return derr("does not implement")
	}
	pv := reflect.New(ri.t)
	cb := true
	if root {
		if len(b) == 0 && writtenEmpty(ri.t) {
			setIface(v, pv, ri, t)
			return nil
		}
		if !structLike(ri.t) && len(b) > 0 {
			num, wt, n, err := rdKey(b)
			if err != nil {
				return err
			}
			if num != 1 || wt != wireType(ri.t, fopt{}) {
				return derr("root key")
			}
			b = b[n:]
			cb = wt != 2
		}
	}
	n, err := r.dec(b, pv.Elem(), o, cb)
	if err != nil {
		return err
	}
	if n != len(b) {
		return derr("left over in interface")
	}
	setIface(v, pv, ri, t)
	return nil
}

func setIface(v, pv reflect.Value, ri *regInfo, t reflect.Type) {
	if !ri.ptr && ri.t.Implements(t) {
		v.Set(pv.Elem())
	} else {
		v.Set(pv)
	}
}

func writtenEmpty(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct, reflect.Slice, reflect.Interface, reflect.Float32, reflect.Float64, reflect.Map:
		return false
	case reflect.Array:
		return t.Len() == 0
	}
	return true
}

// b holds the elements; unpacked elements end at a greater field number.
func (r *refCodec) decList(b []byte, v reflect.Value, o fopt, bare bool) (n int, err error) {
	t := v.Type()
	et := t.Elem()
	dt := deref(et)
	if dt.Kind() == reflect.Interface {
		if _, ok := r.ifaces[dt]; !ok {
			return 0, errUnsupported
		}
	}
	wt := wireType(dt, o)
	if wt < 0 {
		return 0, errUnsupported
	}
	var out reflect.Value
	if t.Kind() == reflect.Slice {
		out = reflect.Zero(t)
	} else {
		out = reflect.New(t).Elem()
	}
	i := 0
	add := func(e reflect.Value) {
		if t.Kind() == reflect.Slice {
			out = reflect.Append(out, e)
		} else {
			out.Index(i).Set(e)
		}
		i++
	}
	for {
		if t.Kind() == reflect.Array && i == t.Len() {
			break
		}
		if len(b) == n {
			if t.Kind() == reflect.Array {
				return n, derr("too few elements")
			}
			break
		}
		ev := reflect.New(et).Elem()
		if wt != 2 {
			m, err := r.dec(b[n:], ev, o, false)
			if err != nil {
				return n, err
			}
			n += m
			if et.Kind() == reflect.Ptr {
				if dv, _ := derefV(ev); isDefault(dv) {
					ev.Set(reflect.Zero(et))
				}
			}
			add(ev)
			continue
		}
		num, w, m, err := rdKey(b[n:])
		if err != nil {
			return n, err
		}
		if num < o.num {
			return n, derr("field number regression")
		}
		if num > o.num {
			if t.Kind() == reflect.Array {
				return n, derr("too few elements")
			}
			break
		}
		if w != 2 {
			return n, derr("wire type of element")
		}
		n += m
		if n < len(b) && b[n] == 0 && !(o.ee && et.Kind() == reflect.Ptr && dt.Kind() == reflect.Struct) {
			n++
			if err := r.setDefault(ev); err != nil {
				return n, err
			}
			add(ev)
			continue
		}
		eo := o
		eo.num = 1
		m, err = r.dec(b[n:], ev, eo, false)
		if err != nil {
			return n, err
		}
		n += m
		add(ev)
	}
	if n < len(b) {
		if wt != 2 || !bare {
			return n, derr("left over in list")
		}
		if num, _, _, err := rdKey(b[n:]); err != nil {
			return n, err
		} else if num <= o.num {
			return n, derr("too many elements")
		}
	}
	v.Set(out)
	return n, nil
}

func (r *refCodec) decStruct(b []byte, v reflect.Value) error {
	last, nf := uint32(0), uint32(len(fieldsOf(v.Type())))
	for _, f := range fieldsOf(v.Type()) {
		fv := v.Field(f.index)
		if dt := deref(f.typ); dt.Kind() == reflect.Interface {
			if _, ok := r.ifaces[dt]; !ok {
				return errUnsupported
			}
		}
		if len(b) == 0 {
			if err := r.setDefault(fv); err != nil {
				return err
			}
			continue
		}
		if f.unpacked {
			n, err := r.decList(b, fv, f, true)
			if err != nil {
				return err
			}
			b = b[n:]
			continue
		}
		num, wt, n, err := rdKey(b)
		if err != nil {
			return err
		}
		if num > f.num {
			if err := r.setDefault(fv); err != nil {
				return err
			}
			continue
		}
		if num != f.num || wt != wireType(deref(f.typ), f) {
			return derr("key of field %v", f.name)
		}
		last = num
		b = b[n:]
		n, err = r.dec(b, fv, f, false)
		if err != nil {
			return err
		}
		b = b[n:]
	}
	for len(b) > 0 {
		num, wt, n, err := rdKey(b)
		if err != nil {
			return err
		}
		if num < last || num <= nf { // unknown fields may be repeated
			return derr("field number regression")
		}
		last = num
		b = b[n:]
		switch wt {
		case 0:
			_, n, err = rdUv(b)
		case 1:
			_, n, err = rdFixed(b, 8)
		case 2:
			_, n, err = rdBytes(b)
		case 5:
			_, n, err = rdFixed(b, 4)
		default:
			err = derr("wire type")
		}
		if err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}

// decRoot is UnmarshalBinaryBare into the variable v (addressable).
func (r *refCodec) decRoot(b []byte, v reflect.Value) error {
	t := deref(v.Type())
	if t.Kind() == reflect.Interface {
		if _, ok := r.ifaces[t]; !ok {
			return errUnsupported
		}
		if v.Kind() != reflect.Interface {
			return errUnsupported
		}
		_, err := r.dec(b, v, fopt{num: 1}, true)
		return err
	}
	if ri := r.conc[t]; ri != nil {
		if len(b) < 4 || !bytes.Equal(b[:4], ri.prefix[:]) {
			return derr("root prefix")
		}
		b = b[4:]
	}
	bare := true
	if !structLike(t) && len(b) > 0 {
		num, wt, n, err := rdKey(b)
		if err != nil {
			return err
		}
		if num != 1 || wt != wireType(t, fopt{}) {
			return derr("root key")
		}
		b = b[n:]
		bare = wt != 2
	} else if len(b) == 0 && writtenEmpty(t) {
		v.Set(reflect.Zero(v.Type()))
		return nil
	}
	n, err := r.dec(b, v, fopt{num: 1}, bare)
	if err == nil && n != len(b) {
		err = derr("bytes left over")
	}
	return err
}

// ---------------- canonical form for comparison ----------------

// canon describes v up to the documented normalisation (binary=true), or
// up to nil/empty slices and maps (binary=false).
func canon(v reflect.Value, binary bool) string {
	var sb strings.Builder
	canonTo(&sb, v, binary, false, 0)
	return sb.String()
}

func canonTo(sb *strings.Builder, v reflect.Value, bin, inList bool, depth int) {
	if depth > 60 {
		sb.WriteString("...")
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		dt := deref(t)
		dv, ok := derefV(v)
		if !bin {
			if !ok || emptySlice(dv) {
				sb.WriteString("nil")
			} else {
				sb.WriteString("&")
				canonTo(sb, dv, bin, false, depth+1)
			}
			return
		}
		if dt == timeT {
			if !ok {
				dv = reflect.ValueOf(time.Unix(0, 0).UTC())
			}
			canonTo(sb, dv, bin, inList, depth+1)
			return
		}
		if !ok {
			switch dt.Kind() {
			case reflect.Struct, reflect.Array, reflect.Bool, reflect.Float32, reflect.Float64:
				if inList && dt.Kind() == reflect.Struct {
					dv = reflect.New(dt).Elem()
					(&refCodec{ifaces: anyIfaces{}.m()}).setDefault(dv)
				} else if inList && (dt.Kind() == reflect.Bool || dt.Kind() == reflect.Float32 || dt.Kind() == reflect.Float64) {
					dv = reflect.Zero(dt)
				} else {
					sb.WriteString("nil")
					return
				}
			default:
				dv = reflect.Zero(dt)
			}
		}
		if inList && dt.Kind() == reflect.Array && dt.Len() == 0 {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		canonTo(sb, dv, bin, false, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		cv, ok := derefV(v.Elem())
		if !ok {
			sb.WriteString("nilptr")
			return
		}
		if v.Elem().Kind() == reflect.Ptr {
			sb.WriteString("*")
		}
		fmt.Fprintf(sb, "%v(", cv.Type())
		canonTo(sb, cv, bin, false, depth+1)
		sb.WriteString(")")
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			sb.WriteString("x")
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			return
		}
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(",")
			}
			canonTo(sb, v.Index(i), bin, true, depth+1)
		}
		sb.WriteString("]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := canon(k, bin)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		sb.WriteString("{")
		for _, k := range ks {
			sb.WriteString(k + ":")
			canonTo(sb, m[k], bin, false, depth+1)
			sb.WriteString(";")
		}
		sb.WriteString("}")
	case reflect.Struct:
		if t == timeT {
			if v.CanInterface() {
				tt := v.Interface().(time.Time)
				fmt.Fprintf(sb, "t%d.%d", tt.Unix(), tt.Nanosecond())
			} else {
				sb.WriteString("t?")
			}
			return
		}
		if out := reprOut(t); out != nil && v.CanInterface() {
			// state is unexported: compare by representation (without counting the call)
			save := calls
			rv, err := callMarshalAmino(v)
			calls = save
			if err == nil {
				sb.WriteString("repr:")
				canonTo(sb, rv, bin, false, depth+1)
				return
			}
		}
		sb.WriteString("{")
		if _, ok := reflect.PtrTo(t).MethodByName("MarshalJSON"); ok && v.CanInterface() {
			b, _ := json.Marshal(v.Interface())
			sb.Write(b)
		}
		for _, f := range fieldsOf2(t) {
			sb.WriteString(f.name + ":")
			canonTo(sb, v.Field(f.index), bin, false, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(sb, "%x", math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	default:
		fmt.Fprintf(sb, "?%v", t)
	}
}

// an empty slice, or represented by one
func emptySlice(v reflect.Value) bool {
	if v.Kind() != reflect.Interface && v.CanInterface() && reprOut(v.Type()) != nil {
		save := calls
		rv, err := callMarshalAmino(v)
		calls = save
		return err == nil && emptySlice(rv)
	}
	return v.Kind() == reflect.Slice && v.Len() == 0
}

// exported, not skipped; without computing wire types (which may not exist)
func fieldsOf2(t reflect.Type) (fs []fopt) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.PkgPath != "" || f.Tag.Get("json") == "-" {
			continue
		}
		fs = append(fs, fopt{name: f.Name, index: i})
	}
	return
}

type anyIfaces struct{}

func (anyIfaces) m() map[reflect.Type]bool {
	return map[reflect.Type]bool{ifaceT: false, iface2T: false, ifaceAT: false}
}

// ---------------- JSON reference ----------------

var jsonMarT = reflect.TypeOf((*json.Marshaler)(nil)).Elem()

func (r *refCodec) jsonRoot(v reflect.Value) (string, error) {
	s, err := r.json(v, fopt{}, nil)
	if err != nil {
		return "", err
	}
	if ri := r.conc[deref(v.Type())]; ri != nil {
		s = `{"type":` + jstr(ri.name) + `,"value":` + s + `}`
	}
	return s, nil
}

func jstr(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func (r *refCodec) json(v reflect.Value, o fopt, _ interface{}) (string, error) {
	dv, ok := derefV(v)
	if !ok {
		return "null", nil
	}
	v = dv
	t := v.Type()
	if t == timeT {
		return jstr(v.Interface().(time.Time).UTC().Format(time.RFC3339Nano)), nil
	}
	if t.Kind() != reflect.Interface && (t.Implements(jsonMarT) || v.CanAddr() && reflect.PtrTo(t).Implements(jsonMarT)) {
		var m json.Marshaler
		if v.CanAddr() {
			m = v.Addr().Interface().(json.Marshaler)
		} else {
			m = v.Interface().(json.Marshaler)
		}
		b, err := m.MarshalJSON()
		return string(b), err
	}
	if t.Kind() != reflect.Interface && reprOut(t) != nil {
		rv, err := callMarshalAmino(v)
		if err != nil {
			return "", err
		}
		return r.json(rv, o, nil)
	}
	switch t.Kind() {
	case reflect.Interface:
		if _, ok := r.ifaces[t]; !ok {
			return "", errUnsupported
		}
		if v.IsNil() {
			return "null", nil
		}
		cv, ok := derefV(v.Elem())
		if !ok {
			return "", errUnsupported
		}
		ri := r.conc[cv.Type()]
		if ri == nil {
			return "", errUnsupported
		}
		s, err := r.json(cv, o, nil)
		return `{"type":` + jstr(ri.name) + `,"value":` + s + `}`, err
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return "null", nil
		}
		if t.Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			x, _ := json.Marshal(b)
			return string(x), nil
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += ","
			}
			e, err := r.json(v.Index(i), o, nil)
			if err != nil {
				return "", err
			}
			s += e
		}
		return s + "]", nil
	case reflect.Struct:
		if unsafeField(t) {
			return "", errUnsupported
		}
		s := "{"
		for _, f := range fieldsOf(t) {
			fv, ok := derefV(v.Field(f.index))
			if f.omit {
				if !ok {
					continue
				}
				if v.Field(f.index).Kind() != reflect.Ptr && reflect.DeepEqual(fv.Interface(), reflect.Zero(f.typ).Interface()) {
					continue
				}
				if fv.Kind() == reflect.Interface && fv.IsNil() {
					continue
				}
				if k := fv.Kind(); (k == reflect.Slice || k == reflect.Array || k == reflect.String) && fv.Len() == 0 {
					continue
				}
			}
			if len(s) > 1 {
				s += ","
			}
			e, err := r.json(v.Field(f.index), f, nil)
			if err != nil {
				return "", err
			}
			s += jstr(f.json) + ":" + e
		}
		return s + "}", nil
	case reflect.Map:
		if t.Key().Kind() != reflect.String {
			return "", errUnsupported
		}
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			ks = append(ks, k.String())
			m[k.String()] = v.MapIndex(k)
		}
		sort.Strings(ks)
		s := "{"
		for i, k := range ks {
			if i > 0 {
				s += ","
			}
			e, err := r.json(m[k], o, nil)
			if err != nil {
				return "", err
			}
			s += jstr(k) + ":" + e
		}
		return s + "}", nil
	case reflect.Int64, reflect.Int:
		return fmt.Sprintf(`"%d"`, v.Int()), nil
	case reflect.Uint64, reflect.Uint:
		return fmt.Sprintf(`"%d"`, v.Uint()), nil
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return fmt.Sprint(v.Int()), nil
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return fmt.Sprint(v.Uint()), nil
	case reflect.Bool:
		return fmt.Sprint(v.Bool()), nil
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return "", errUnsupported
		}
		b, err := json.Marshal(v.Interface())
		return string(b), err
	case reflect.String:
		return jstr(v.String()), nil
	}
	return "", errUnsupported
}

var _ = binary.LittleEndian
