package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

var (
	theRef   *refCodec
	theCdc   *amino.Codec
	otherCdc *amino.Codec
)

func newFullCodec(perm []int, ifacesFirst bool) *amino.Codec {
	cdc := amino.NewCodec()
	ifs := func() {
		cdc.RegisterInterface((*Iface)(nil), nil)
		cdc.RegisterInterface((*Iface2)(nil), &amino.InterfaceOptions{})
		cdc.RegisterInterface((*IfaceAlways)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
	}
	if ifacesFirst {
		ifs()
	}
	for i := range registered {
		j := i
		if perm != nil {
			j = perm[i]
		}
		cdc.RegisterConcrete(registered[j].v, registered[j].name, nil)
	}
	if !ifacesFirst {
		ifs()
	}
	return cdc
}

func setup() {
	theRef = newRef()
	for _, x := range registered {
		theRef.register(x.v, x.name)
	}
	theRef.ifaces[ifaceT] = false
	theRef.ifaces[iface2T] = false
	theRef.ifaces[ifaceAT] = true
	theCdc = newFullCodec(nil, true)
	perm := rand.New(rand.NewSource(7)).Perm(len(registered))
	otherCdc = newFullCodec(perm, false)
	otherCdc.Seal()
}

// supported picks a type and a value the reference can encode.
func (c *C) supported() (v reflect.Value, ref []byte) {
	for {
		t := c.rootT()
		v = c.val(t, 4)
		b, err := theRef.encRoot(v)
		if err == nil {
			c.note("type %v value %s", t, short(v))
			return v, b
		}
	}
}

func short(v reflect.Value) string {
	s := canon(v, false)
	if len(s) > 500 {
		s = s[:500] + "..."
	}
	return s
}

// disturb makes calls that fail, or succeed, part of the way through other
// values: no call may influence a later one.
func (c *C) disturb(cdc *amino.Codec) {
	if c.r.Intn(12) != 0 {
		return
	}
	r := c.r
	n := r.Intn(40)
	poison := []interface{}{
		Ifaces{A: CNest{Is: []Iface{CInt(5), CStr("poison"), CUnreg{1}}}},
		CNest{I: CNest{Is: []Iface{CInt(n), CStruct{B: "poison"}, CUnreg{1}}}},
		&Ifaces{B: []Iface{CInt(n), CNest{I: CStr("poison"), J: CUnreg{1}}}, A: CInt(1)},
		Ifaces{A: CInt(n), H: struct{ I Iface }{CNest{I: CBytes("poison"), Is: []Iface{nil, CUnreg{}}}}},
		[]interface{}{1},
		[]ReprStr{{"poison"}, {"fail-marshal"}},
		struct {
			A []byte
			T time.Time
		}{[]byte("poison"), time.Unix(1<<50, 0)},
		Ifaces{A: CSliceStr{"fine", "as is"}, B: []Iface{CStr("fine")}},
		map[string]interface{}{"a": 1},
		struct {
			B string
			F func()
		}{"poison", func() {}},
	}
	bad := [][]byte{{0xff}, {0x0a, 0x7f, 1, 2}, {0x08}, {0x0a, 0x03, 0x08, 0x01}, {0x12, 0x02, 0x0a, 0x09}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 0}}
	for k := 1 + r.Intn(3); k > 0; k-- {
		p, b := poison[r.Intn(len(poison))], bad[r.Intn(len(bad))]
		into := []interface{}{new(Ifaces), new(CNest), new(Iface), new([]Sub), new(Sub), new([]string)}[r.Intn(6)]
		switch r.Intn(6) {
		case 0, 1:
			try(func() { cdc.MarshalBinaryBare(p) })
		case 2:
			try(func() { cdc.MarshalBinaryLengthPrefixed(p) })
		case 3:
			try(func() { cdc.MarshalJSON(p) })
		case 4:
			try(func() { cdc.UnmarshalBinaryBare(b, into) })
		case 5:
			try(func() {
				cdc.UnmarshalJSON([]byte(`{"A":{"type":"zoo/CNest","value":{"I":{"type":"zoo/CInt","value":"5"},"Is":[{"type":"zoo/CStr","value":"poison"},3]}},"B":[7`), into)
			})
		}
	}
}

func (c *C) marshal(cdc *amino.Codec, v interface{}) []byte {
	c.disturb(cdc)
	var b []byte
	var err error
	if p := try(func() { b, err = cdc.MarshalBinaryBare(v) }); p != nil {
		c.failf("MarshalBinaryBare panics: %v", p)
	}
	if err != nil {
		c.failf("MarshalBinaryBare fails: %v", err)
	}
	return b
}

func (c *C) unmarshal(cdc *amino.Codec, b []byte, ptr interface{}) error {
	c.disturb(cdc)
	var err error
	if p := try(func() { err = cdc.UnmarshalBinaryBare(b, ptr) }); p != nil {
		c.failf("UnmarshalBinaryBare of %X into %T panics: %v", b, ptr, p)
	}
	return err
}

func exactDump(v reflect.Value) string {
	var sb strings.Builder
	exactTo(&sb, v, 0)
	return sb.String()
}

func exactTo(sb *strings.Builder, v reflect.Value, d int) {
	if d > 50 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "&%p", v.Interface())
		exactTo(sb, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "%v", v.Elem().Type())
		exactTo(sb, v.Elem(), d+1)
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		// beyond the length as well: nobody may write there
		fmt.Fprintf(sb, "[%d/%d ", v.Len(), v.Cap())
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			exactTo(sb, w.Index(i), d+1)
			sb.WriteString(",")
		}
		sb.WriteString("]")
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			exactTo(sb, v.Index(i), d+1)
			sb.WriteString(",")
		}
	case reflect.Struct:
		if v.Type() == timeT {
			fmt.Fprint(sb, v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				exactTo(sb, v.Field(i), d+1)
			} else {
				fmt.Fprint(sb, v.Field(i))
			}
			sb.WriteString(" ")
		}
	default:
		fmt.Fprint(sb, v)
	}
}

func init() {
	props["C01"] = []check{
		{"roundtrip", func(c *C) {
			v, ref := c.supported()
			t := v.Type()
			b := c.marshal(theCdc, v.Interface())
			want := canon(v, true)
			c.distinct(t, want)
			got := reflect.New(t)
			if err := c.unmarshal(theCdc, b, got.Interface()); err != nil {
				c.failf("encoding %X (reference %X) of %s does not decode: %v", b, ref, want, err)
			}
			if g := canon(got.Elem(), true); g != want {
				c.failf("round trip through %X: got %s, want %s", b, g, want)
			}
			// through pointers, on both sides
			pp := reflect.New(reflect.PtrTo(reflect.PtrTo(t)))
			p1 := reflect.New(t)
			p1.Elem().Set(v)
			bp := c.marshal(theCdc, p1.Interface())
			if err := c.unmarshal(theCdc, bp, pp.Interface()); err != nil {
				c.failf("encoding %X does not decode into a nil **%v: %v", bp, t, err)
			}
			if dv, ok := derefV(pp.Elem()); ok {
				if g := canon(dv, true); g != want {
					c.failf("round trip into a nil pointer: got %s, want %s", g, want)
				}
			} else if !isDefault(v) && !(writtenEmpty(t) && v.IsZero()) {
				c.failf("round trip into a nil pointer of %s leaves it nil", want)
			}
			// length prefixed, decoded on another codec
			lp, err := theCdc.MarshalBinaryLengthPrefixed(v.Interface())
			if err != nil {
				c.failf("MarshalBinaryLengthPrefixed: %v", err)
			}
			got = reflect.New(t)
			if err := otherCdc.UnmarshalBinaryLengthPrefixed(lp, got.Interface()); err != nil {
				c.failf("length-prefixed encoding %X does not decode: %v", lp, err)
			}
			if g := canon(got.Elem(), true); g != want {
				c.failf("length-prefixed round trip: got %s, want %s", g, want)
			}
		}, 40000},
		{"interface", func(c *C) {
			// a registered value at the root, read back into an interface variable
			it := []reflect.Type{ifaceT, iface2T, ifaceAT}[c.r.Intn(3)]
			iv := c.concrete(it, 3)
			if iv.Kind() == reflect.Interface {
				return
			}
			cv, _ := derefV(iv)
			if _, err := theRef.encRoot(cv); err != nil {
				return
			}
			c.note("registered %v %s into %v", cv.Type(), short(cv), it)
			b := c.marshal(theCdc, iv.Interface())
			got := reflect.New(it)
			if err := c.unmarshal(theCdc, b, got.Interface()); err != nil {
				c.failf("%X does not decode into %v: %v", b, it, err)
			}
			w := reflect.New(it).Elem()
			w.Set(iv)
			want := canon(w, true)
			c.distinct(want)
			if g := canon(got.Elem(), true); g != want {
				c.failf("via interface %v, %X: got %s, want %s", it, b, g, want)
			}
		}, 15000},
	}
	props["C02"] = []check{
		{"deterministic", func(c *C) {
			v, ref := c.supported()
			t := v.Type()
			before := exactDump(v)
			b1 := c.marshal(theCdc, v.Interface())
			c.distinct(t, string(ref))
			if exactDump(v) != before {
				c.failf("encoding modified the value: %s to %s", before, exactDump(v))
			}
			p := reflect.New(t)
			p.Elem().Set(v)
			b2 := c.marshal(theCdc, p.Interface())
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			b3 := c.marshal(otherCdc, pp.Interface())
			b4 := c.marshal(theCdc, v.Interface())
			for i, b := range [][]byte{b2, b3, b4} {
				if !bytes.Equal(b, b1) {
					c.failf("encodings differ: %X, %X (%d)", b1, b, i)
				}
			}
			if exactDump(v) != before {
				c.failf("encoding modified the value: %s to %s", before, exactDump(v))
			}
			// an equal value elsewhere in memory: a copy made by decoding
			cp := reflect.New(t)
			if err := theRef.decRoot(ref, cp.Elem()); err == nil && canon(cp.Elem(), false) == canon(v, false) {
				if b := c.marshal(otherCdc, cp.Interface()); !bytes.Equal(b, b1) {
					c.failf("equal values encode differently: %X, %X", b1, b)
				}
			}
			// earlier output must not be changed by later calls, nor by appending to it
			keep := append([]byte{}, b1...)
			_ = append(b1, 0xEE, 0xEE, 0xEE, 0xEE)
			other, _ := c.supported()
			c.marshal(theCdc, other.Interface())
			if b := c.marshal(theCdc, v.Interface()); !bytes.Equal(b, keep) || !bytes.Equal(b1, keep) {
				c.failf("encoding changed from %X to %X after another call (kept output %X)", keep, b, b1)
			}
			var buf bytes.Buffer
			pre := c.bytes()
			buf.Write(pre)
			if _, err := theCdc.MarshalBinaryLengthPrefixedWriter(&buf, v.Interface()); err != nil {
				c.failf("MarshalBinaryLengthPrefixedWriter: %v", err)
			}
			if want := append(append([]byte{}, pre...), lenPrefixed(keep)...); !bytes.Equal(buf.Bytes(), want) {
				c.failf("written after %X: %X, want %X", pre, buf.Bytes(), want)
			}
		}, 30000},
		{"fresh", func(c *C) {
			// On a fresh codec, in another order of registrations and first uses.
			cdc := newFullCodec(c.r.Perm(len(registered)), c.pick(2))
			var vs []reflect.Value
			for i := 0; i < 6; i++ {
				v, _ := c.supported()
				vs = append(vs, v)
			}
			for _, i := range c.r.Perm(len(vs)) {
				if x, y := c.marshal(cdc, vs[i].Interface()), c.marshal(theCdc, vs[i].Interface()); !bytes.Equal(x, y) {
					c.failf("codecs with the same registrations disagree on %v %s: %X, %X", vs[i].Type(), short(vs[i]), x, y)
				}
			}
			c.distinct(c.desc)
		}, 1500},
	}
	props["C03"] = []check{
		{"known findings", func(c *C) {
			x := struct{ A KFStr }{KFStr{5}}
			b := c.marshal(theCdc, x)
			switch string(b) {
			case "\x08\x05":
			case "\x0a\x05":
				c.known("repr-wire-type", "a field key has the wire type of the kind of the field's type, also when its MarshalAmino represents it by a kind with another wire type: a struct represented by the integer 5 encodes as %X", b)
			default:
				c.failf("%+v encodes as %X, the documented form is 0805", x, b)
			}
		}, 8},
		{"wire", func(c *C) {
			v, ref := c.supported()
			b := c.marshal(theCdc, v.Interface())
			c.distinct(v.Type(), string(ref))
			if !bytes.Equal(b, ref) {
				c.failf("%v %s encodes as %X, the documented form is %X", v.Type(), short(v), b, ref)
			}
		}, 60000},
		{"unpadded", func(c *C) { // nested lengths are exact: a generic protobuf walk succeeds for plain structs
			t := c.structT(2)
			v := c.val(t, 3)
			ref, err := theRef.encRoot(v)
			if err != nil || theRef.conc[t] != nil || reprOut(t) != nil || t == timeT {
				return
			}
			b := c.marshal(theCdc, v.Interface())
			c.note("%v %s", t, short(v))
			c.distinct(t, string(ref))
			last := uint32(0)
			for len(b) > 0 {
				num, wt, n, err := rdKey(b)
				if err != nil || num < last || num == 0 {
					c.failf("bad key in %X: number %v after %v (%v)", b, num, last, err)
				}
				last = num
				b = b[n:]
				switch wt {
				case 0:
					_, n, err = rdUv(b)
				case 1:
					n = 8
				case 5:
					n = 4
				case 2:
					_, n, err = rdBytes(b)
				default:
					err = errDec
				}
				if err != nil || n > len(b) {
					c.failf("bad field %v in %X: %v", num, b, err)
				}
				b = b[n:]
			}
		}, 15000},
	}
	props["C04"] = []check{
		{"total", func(c *C) {
			t, b := c.hostile()
			c.distinct(t, string(b))
			c.note("decode %X into %v", b, t)
			c.boundedAlloc(len(b), t, func() {
				got := reflect.New(t)
				c.unmarshal(theCdc, b, got.Interface())
			})
			// not reading beyond the input
			cp := append(append([]byte{}, b...), 0, 0, 1, 1, 0x7f, 0x80, 0xff, 0x0a, 0x02)
			g1, g2 := reflect.New(t), reflect.New(t)
			e1 := c.unmarshal(theCdc, append([]byte{}, b...), g1.Interface())
			e2 := c.unmarshal(theCdc, cp[:len(b)], g2.Interface())
			if (e1 == nil) != (e2 == nil) || e1 == nil && canon(g1.Elem(), true) != canon(g2.Elem(), true) {
				c.failf("the result depends on bytes beyond the input: %v / %v", e1, e2)
			}
			if !bytes.Equal(cp[:len(b)], b) {
				c.failf("decoding modified its input")
			}
			// a decoded value must not alias its input
			if e2 == nil {
				want := canon(g2.Elem(), true)
				for i := range cp {
					cp[i] ^= 0xff
				}
				if canon(g2.Elem(), true) != want {
					c.failf("the decoded value aliases the input")
				}
			}
			var err error
			if p := try(func() { err = theCdc.UnmarshalBinaryLengthPrefixed(b, reflect.New(t).Interface()) }); p != nil {
				c.failf("UnmarshalBinaryLengthPrefixed panics: %v", p)
			}
			if p := try(func() {
				var n int64
				n, err = theCdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(b), reflect.New(t).Interface(), 0)
				if n < 0 || n > int64(len(b)) {
					c.failf("UnmarshalBinaryLengthPrefixedReader reports %d bytes consumed of %d", n, len(b))
				}
			}); p != nil {
				c.failf("UnmarshalBinaryLengthPrefixedReader panics: %v", p)
			}
			lp := lenPrefixed(b)
			if p := try(func() { err = theCdc.UnmarshalBinaryLengthPrefixed(lp, reflect.New(t).Interface()) }); p != nil {
				c.failf("UnmarshalBinaryLengthPrefixed of %X panics: %v", lp, p)
			}
			if (err == nil) != (e1 == nil) {
				c.failf("bare and length-prefixed decoding disagree: %v / %v", e1, err)
			}
			// into a used, non-zero target
			dirty := c.val(t, 3)
			c.note("dirty target %s", short(dirty))
			p := dirty.Addr().Interface()
			c.unmarshal(theCdc, b, p)
		}, 40000},
		{"primitives", func(c *C) {
			b := c.primBytes()
			c.note("bytes %X", b)
			c.distinct(string(b))
			for _, d := range primDecoders {
				var n int
				c.boundedAlloc(len(b), nil, func() {
					if p := try(func() { n, _ = d.f(b) }); p != nil {
						c.failf("%s panics: %v", d.name, p)
					}
				})
				if n < 0 || n > len(b) {
					c.failf("%s consumes %d of %d bytes", d.name, n, len(b))
				}
			}
		}, 20000},
		{"hostile lengths", func(c *C) {
			t := c.rootT()
			var b []byte
			for i := c.r.Intn(4); i >= 0; i-- {
				b = append(b, uv(uint64(1+c.r.Intn(20))<<3|2)...)
				if c.pick(2) {
					b = append(b, 1)
				}
				b = append(b, uv(uint64(1)<<uint(20+c.r.Intn(44))-uint64(c.r.Intn(3)))...)
			}
			if ri := theRef.conc[t]; ri != nil {
				b = append(append([]byte{}, ri.prefix[:]...), b...)
			}
			c.note("decode %X into %v", b, t)
			c.distinct(t, string(b))
			c.boundedAlloc(len(b), t, func() { c.unmarshal(theCdc, b, reflect.New(t).Interface()) })
			lp := append(uv(uint64(1)<<uint(20+c.r.Intn(44))-uint64(c.r.Intn(3))), b...)
			c.note("reader on %X", lp)
			c.boundedAlloc(len(lp), t, func() {
				if p := try(func() {
					theCdc.UnmarshalBinaryLengthPrefixed(lp, reflect.New(t).Interface())
					theCdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lp), reflect.New(t).Interface(), 0)
					theCdc.UnmarshalBinaryLengthPrefixedReader(bytes.NewReader(lp), reflect.New(t).Interface(), 1<<40)
				}); p != nil {
					c.failf("panic: %v", p)
				}
			})
		}, 8000},
	}
	props["C05"] = []check{
		{"strict", func(c *C) {
			t, b := c.hostile()
			c.compareDecode(t, b, true)
		}, 90000},
		{"values", func(c *C) { // well-formed input decodes to what the reference says
			v, ref := c.supported()
			c.compareDecode(v.Type(), c.mutateWell(ref), true)
		}, 30000},
		{"range", func(c *C) {
			// out-of-range integers in every position
			kinds := []interface{}{int8(0), int16(0), int32(0), int(0), uint8(0), uint16(0), uint32(0), uint(0), int64(0), false, CI8(0), NInt16(0), NUint8(0)}
			t := reflect.TypeOf(kinds[c.r.Intn(len(kinds))])
			u := uint64(c.int())
			if c.pick(2) {
				u = zigzag(c.int())
			}
			var st reflect.Type
			var b []byte
			switch c.r.Intn(4) {
			case 0:
				st, b = t, append([]byte{8}, uv(u)...)
				if ri := theRef.conc[t]; ri != nil {
					b = append(append([]byte{}, ri.prefix[:]...), b...)
				}
			case 1:
				st = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}})
				b = append([]byte{8}, uv(u)...)
			case 2:
				st = reflect.SliceOf(t)
				if t.Kind() == reflect.Uint8 {
					return
				}
				b = append([]byte{10}, lenPrefixed(uv(u))...)
			case 3:
				st = reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(t)}})
				b = append([]byte{8}, uv(u)...)
			}
			c.compareDecode(st, b, true)
		}, 20000},
	}
	props["C06"] = []check{
		{"trailing", func(c *C) {
			t := c.structT(2)
			if reprIn(t) != nil || t == timeT {
				return
			}
			c.noIface = c.pick(2)
			v := c.val(t, 3)
			ref, err := theRef.encRoot(v)
			if err != nil {
				return
			}
			num := uint32(len(fieldsOf(t)))
			ext := append([]byte{}, ref...)
			for i := c.r.Intn(4); i > 0; i-- {
				num += 1 + uint32(c.r.Intn(3))
				if c.pick(10) {
					num += 200
				}
				if c.pick(20) {
					num = 1<<29 - 1
					i = 1
				}
				ext = append(ext, c.anyField(num)...)
				for c.pick(3) { // an unknown list
					ext = append(ext, c.anyField(num)...)
				}
			}
			c.note("%v %s extended to %X", t, short(v), ext)
			c.distinct(t, string(ext))
			// alone and as a field, element or pointer target of another struct
			wrapT := reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: reflect.SliceOf(t)}, {Name: "C", Type: reflect.PtrTo(t)}, {Name: "D", Type: reflect.TypeOf(0)}})
			got := reflect.New(t)
			if err := c.unmarshal(theCdc, ext, got.Interface()); err != nil {
				c.failf("trailing unknown fields: %v", err)
			}
			want := canon(v, true)
			if g := canon(got.Elem(), true); g != want {
				c.failf("trailing unknown fields change the value to %s", g)
			}
			nested := ext
			if theRef.conc[t] != nil {
				nested = ext[4:]
			}
			var wb []byte
			f := lenPrefixed(nested)
			wb = append(append(wb, 0x0a), f...)
			wb = append(append(wb, 0x12), f...)
			wb = append(append(wb, 0x12), f...)
			wb = append(append(wb, 0x1a), f...)
			wb = append(append(wb, 0x20), 7)
			wb = append(wb, c.anyField(9)...)
			gw := reflect.New(wrapT)
			if err := c.unmarshal(theCdc, wb, gw.Interface()); err != nil {
				c.failf("nested trailing unknown fields, %X into %v: %v", wb, wrapT, err)
			}
			e := gw.Elem()
			if e.Field(1).Len() != 2 {
				c.failf("nested: %d elements", e.Field(1).Len())
			}
			for _, x := range []reflect.Value{e.Field(0), e.Field(1).Index(0), e.Field(1).Index(1), e.Field(2).Elem()} {
				if g := canon(x, true); g != want {
					c.failf("nested trailing unknown fields change the value to %s", g)
				}
			}
			if e.Field(3).Int() != 7 {
				c.failf("nested: field after it is %v", e.Field(3))
			}
		}, 15000},
		{"newer version", func(c *C) {
			// a struct of the first k fields reads what the whole struct wrote
			t := c.structT(2)
			fs := fieldsOf(t)
			if reprIn(t) != nil || t == timeT || len(fs) == 0 || theRef.conc[t] != nil {
				return
			}
			k := c.r.Intn(len(fs))
			var sf []reflect.StructField
			for i := 0; i < k; i++ {
				x := t.Field(fs[i].index)
				x.Anonymous = false
				x.Name = fmt.Sprintf("X%d", i)
				sf = append(sf, x)
			}
			ot := reflect.StructOf(sf)
			v := c.val(t, 3)
			if _, err := theRef.encRoot(v); err != nil {
				return
			}
			b := c.marshal(theCdc, v.Interface())
			ov := reflect.New(ot).Elem()
			for i := 0; i < k; i++ {
				ov.Field(i).Set(v.Field(fs[i].index))
			}
			c.note("%v written by %v %s as %X", ot, t, short(v), b)
			c.distinct(ot, string(b))
			got := reflect.New(ot)
			if err := c.unmarshal(theCdc, b, got.Interface()); err != nil {
				c.failf("an older version does not read %X: %v", b, err)
			}
			if g, w := canon(got.Elem(), true), canon(ov, true); g != w {
				c.failf("an older version reads %s, want %s", g, w)
			}
		}, 15000},
		{"missing", func(c *C) {
			t := c.structT(2)
			if reprIn(t) != nil || t == timeT {
				return
			}
			c.noIface = true
			v := c.val(t, 3)
			ref, err := theRef.encRoot(v)
			if err != nil {
				return
			}
			// drop some top-level fields (not those of fixed-size lists, whose length is checked)
			b := ref
			if theRef.conc[t] != nil {
				b = b[4:]
			}
			var out []byte
			for len(b) > 0 {
				_, wt, n, err := rdKey(b)
				if err != nil {
					return
				}
				m := n
				switch wt {
				case 0:
					_, n, _ = rdUv(b[m:])
				case 1:
					n = 8
				case 5:
					n = 4
				case 2:
					_, n, _ = rdBytes(b[m:])
				}
				if !c.pick(3) {
					out = append(out, b[:m+n]...)
				}
				b = b[m+n:]
			}
			if theRef.conc[t] != nil {
				out = append(append([]byte{}, ref[:4]...), out...)
			}
			fresh := reflect.New(t)
			if theRef.decRoot(out, fresh.Elem()) != nil {
				return
			}
			dirty := c.val(t, 3)
			c.note("%X into %v holding %s", out, t, short(dirty))
			c.distinct(t, string(out))
			got := reflect.New(t)
			if err := c.unmarshal(theCdc, out, got.Interface()); err != nil {
				c.failf("missing fields: %v", err)
			}
			want := canon(fresh.Elem(), true)
			if g := canon(got.Elem(), true); g != want {
				c.failf("missing fields: got %s, want %s", g, want)
			}
			exactNil(c, fresh.Elem(), got.Elem())
			if err := c.unmarshal(theCdc, out, dirty.Addr().Interface()); err != nil {
				c.failf("missing fields, used target: %v", err)
			}
			if g := canon(dirty, true); g != want {
				c.failf("a used target gives %s, want %s", g, want)
			}
		}, 20000},
	}
}

// missing pointer fields are nil, not pointers to defaults (except times)
func exactNil(c *C, want, got reflect.Value) {
	for i := 0; i < want.NumField(); i++ {
		f := want.Type().Field(i)
		if f.PkgPath != "" || f.Type.Kind() != reflect.Ptr || f.Tag.Get("json") == "-" {
			continue
		}
		if want.Field(i).IsNil() != got.Field(i).IsNil() {
			c.failf("field %s nil: %v, want %v", f.Name, got.Field(i).IsNil(), want.Field(i).IsNil())
		}
	}
}

func (c *C) boundedAlloc(n int, t reflect.Type, f func()) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	size := uint64(64)
	if t != nil {
		size += uint64(t.Size())
	}
	if d := b.TotalAlloc - a.TotalAlloc; d > 4<<20+uint64(n+1)*(64<<10)+16*size {
		c.failf("allocates %d bytes for %d bytes of input", d, n)
	}
}

func (c *C) compareDecode(t reflect.Type, b []byte, onlyAccept bool) {
	c.note("decode %X into %v", b, t)
	want := reflect.New(t)
	werr := theRef.decRoot(b, want.Elem())
	got := reflect.New(t)
	gerr := c.unmarshal(theCdc, b, got.Interface())
	if werr == nil || len(b) > 2 {
		c.distinct(t, string(b))
	}
	if errors.Is(werr, errUnsupported) || errors.Is(werr, errRepr) {
		return
	}
	if gerr == nil && werr != nil {
		c.failf("%X is accepted as %v %s, but is malformed: %v", b, t, short(got.Elem()), werr)
	}
	if gerr == nil && werr == nil {
		if g, w := canon(got.Elem(), true), canon(want.Elem(), true); g != w {
			c.failf("%X decodes to %s, want %s", b, g, w)
		}
	}
	if gerr != nil && werr == nil && !onlyAccept {
		c.failf("%X is refused by %v: %v", b, t, gerr)
	}
	if gerr != nil && werr == nil {
		c.failf("%X is well-formed for %v (%s) but refused: %v", b, t, short(want.Elem()), gerr)
	}
}

func (c *C) anyField(num uint32) (b []byte) {
	wt := []uint64{0, 1, 2, 5}[c.r.Intn(4)]
	b = uv(uint64(num)<<3 | wt)
	switch wt {
	case 0:
		b = append(b, uv(uint64(c.int()))...)
	case 1:
		b = append(b, le(c.r.Uint64(), 8)...)
	case 5:
		b = append(b, le(c.r.Uint64(), 4)...)
	case 2:
		b = append(b, lenPrefixed(c.bytes())...)
	}
	return
}

// hostile returns a type and bytes: random, or a mutated encoding.
func (c *C) hostile() (reflect.Type, []byte) {
	if c.pick(12) {
		b := make([]byte, c.r.Intn(24))
		for i := range b {
			b[i] = byte(c.r.Intn(256))
			if c.pick(2) {
				b[i] = []byte{0, 1, 2, 8, 0x0a, 0x10, 0x12, 0x18, 0x1a, 0x7f, 0x80, 0xff}[c.r.Intn(12)]
			}
		}
		t := c.rootT()
		if ri := theRef.conc[t]; ri != nil && c.pick(2) {
			b = append(append([]byte{}, ri.prefix[:]...), b...)
		}
		return t, b
	}
	v, ref := c.supported()
	c.desc = nil
	t := v.Type()
	b := append([]byte{}, ref...)
	if c.pick(15) { // into an interface
		it := []reflect.Type{ifaceT, iface2T, ifaceAT}[c.r.Intn(3)]
		t = it
		if c.pick(2) {
			iv := c.concrete(it, 2)
			if iv.Kind() != reflect.Interface {
				cv, _ := derefV(iv)
				if x, err := theRef.encRoot(cv); err == nil {
					b = append([]byte{}, x...)
				}
			}
		}
	}
	for i := c.r.Intn(3); i >= 0; i-- {
		if c.pick(3) {
			b = c.mutateRaw(b)
		} else {
			if ri := theRef.conc[v.Type()]; ri != nil && len(b) >= 4 {
				b = append(append([]byte{}, b[:4]...), c.mutateTree(b[4:], 0)...)
			} else {
				b = c.mutateTree(b, 0)
			}
		}
	}
	return t, b
}

func (c *C) mutateRaw(b []byte) []byte {
	b = append([]byte{}, b...)
	switch c.r.Intn(7) {
	case 0:
		if len(b) > 0 {
			b[c.r.Intn(len(b))] ^= 1 << uint(c.r.Intn(8))
		}
	case 1:
		if len(b) > 0 {
			b = b[:c.r.Intn(len(b))]
		}
	case 2:
		i := c.r.Intn(len(b) + 1)
		b = append(b[:i], append([]byte{byte(c.r.Intn(256))}, b[i:]...)...)
	case 3:
		if len(b) > 0 {
			i := c.r.Intn(len(b))
			b = append(b[:i], b[i+1:]...)
		}
	case 4:
		if len(b) > 0 {
			b[c.r.Intn(len(b))] = []byte{0, 1, 2, 3, 8, 0x0a, 0x12, 0x7f, 0x80, 0xff, 5, 0x0d}[c.r.Intn(12)]
		}
	case 5:
		b = append(b, byte(c.r.Intn(40)))
	case 6:
		_, o := c.supported()
		c.desc = nil
		i := c.r.Intn(len(b) + 1)
		b = append(b[:i], o...)
	}
	return b
}

type pfield struct {
	num     uint32
	wt      int
	payload []byte // without the length for wt 2
}

func parseFields(b []byte) (fs []pfield, ok bool) {
	for len(b) > 0 {
		num, wt, n, err := rdKey(b)
		if err != nil {
			return nil, false
		}
		b = b[n:]
		f := pfield{num: num, wt: wt}
		switch wt {
		case 0:
			_, n, err = rdUv(b)
			if err == nil {
				f.payload = b[:n]
			}
		case 1, 5:
			n = 8
			if wt == 5 {
				n = 4
			}
			if len(b) < n {
				return nil, false
			}
			f.payload = b[:n]
		case 2:
			f.payload, n, err = rdBytes(b)
		default:
			return nil, false
		}
		if err != nil {
			return nil, false
		}
		b = b[n:]
		fs = append(fs, f)
	}
	return fs, true
}

func (c *C) buildFields(fs []pfield) (b []byte) {
	for _, f := range fs {
		b = append(b, uv(uint64(f.num)<<3|uint64(f.wt))...)
		if f.wt == 2 {
			b = append(b, uv(uint64(len(f.payload)))...)
		}
		b = append(b, f.payload...)
	}
	return
}

// longVarint rewrites u with redundant continuation bytes (up to 10 in all).
func longVarint(u uint64, extra int) []byte {
	b := uv(u)
	for len(b) < 10 && extra > 0 {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
		extra--
	}
	return b
}

// mutateTree changes the protobuf structure, keeping enclosing lengths exact.
func (c *C) mutateTree(b []byte, d int) []byte {
	fs, ok := parseFields(b)
	if !ok || len(fs) == 0 {
		return c.mutateRaw(b)
	}
	fs = append([]pfield{}, fs...)
	i := c.r.Intn(len(fs))
	switch c.r.Intn(14) {
	case 0: // duplicate
		fs = append(fs[:i+1], append([]pfield{fs[i]}, fs[i+1:]...)...)
	case 1: // remove
		fs = append(fs[:i], fs[i+1:]...)
	case 2: // swap
		j := c.r.Intn(len(fs))
		fs[i], fs[j] = fs[j], fs[i]
	case 3: // renumber
		fs[i].num = uint32(int(fs[i].num) + c.r.Intn(5) - 2)
		if c.pick(6) {
			fs[i].num = 0
		}
		fs[i].num &= 1<<29 - 1
	case 4: // other wire type
		fs[i].wt = []int{0, 1, 2, 5, 3, 4, 6, 7}[c.r.Intn(8)]
		switch fs[i].wt {
		case 0:
			fs[i].payload = uv(uint64(c.int()))
		case 1:
			fs[i].payload = le(c.r.Uint64(), 8)
		case 5:
			fs[i].payload = le(c.r.Uint64(), 4)
		}
	case 5: // other value
		switch fs[i].wt {
		case 0:
			fs[i].payload = uv(uint64(c.int()))
		case 2:
			fs[i].payload = c.bytes()
		default:
			fs[i].payload = le(c.r.Uint64(), len(fs[i].payload))
		}
	case 6: // append a field
		n := fs[len(fs)-1].num
		f, _ := parseFields(c.anyField(n + uint32(c.r.Intn(3))))
		fs = append(fs, f...)
	case 7: // non-minimal varint
		if fs[i].wt == 0 {
			u, _, _ := rdUv(fs[i].payload)
			fs[i].payload = longVarint(u, 1+c.r.Intn(10))
			if c.pick(3) { // too long
				fs[i].payload = append(bytes.Repeat([]byte{0x80}, 9), byte(1+c.r.Intn(3)))
			}
		}
	case 8: // wrong length, everything after shifts
		if fs[i].wt == 2 {
			pre := c.buildFields(fs[:i])
			post := c.buildFields(fs[i+1:])
			l := len(fs[i].payload) + []int{-1, 1, 2, -2, 1 << 20}[c.r.Intn(5)]
			if l < 0 {
				l = 0
			}
			pre = append(pre, uv(uint64(fs[i].num)<<3|2)...)
			pre = append(pre, uv(uint64(l))...)
			pre = append(pre, fs[i].payload...)
			return append(pre, post...)
		}
	case 9: // bytes left over inside the frame
		if fs[i].wt == 2 {
			fs[i].payload = append(append([]byte{}, fs[i].payload...), c.bytes()...)
		}
	case 10: // truncated frame with consistent length
		if fs[i].wt == 2 && len(fs[i].payload) > 0 {
			fs[i].payload = fs[i].payload[:c.r.Intn(len(fs[i].payload))]
		}
	default: // deeper
		if fs[i].wt == 2 && d < 6 {
			p := fs[i].payload
			// interface contents start with prefix bytes
			if len(p) >= 8 && p[0] == 0 && c.pick(2) {
				fs[i].payload = append(append([]byte{}, p[:8]...), c.mutateTree(p[8:], d+1)...)
			} else if len(p) >= 4 && c.knownPrefix(p[:4]) {
				fs[i].payload = append(append([]byte{}, p[:4]...), c.mutateTree(p[4:], d+1)...)
			} else {
				fs[i].payload = c.mutateTree(p, d+1)
			}
		} else {
			return c.mutateRaw(b)
		}
	}
	return c.buildFields(fs)
}

func (c *C) knownPrefix(p []byte) bool {
	for _, ri := range theRef.order {
		if bytes.Equal(ri.prefix[:], p) {
			return true
		}
	}
	return false
}

// mutateWell rewrites an encoding, mostly into another well-formed one.
func (c *C) mutateWell(b []byte) []byte {
	fs, ok := parseFields(b)
	if !ok || len(fs) == 0 || c.pick(3) {
		return b
	}
	fs = append([]pfield{}, fs...)
	i := c.r.Intn(len(fs))
	switch c.r.Intn(4) {
	case 0:
		fs = append(fs[:i], fs[i+1:]...)
	case 1:
		f, _ := parseFields(c.anyField(fs[len(fs)-1].num + 1 + uint32(c.r.Intn(30))))
		fs = append(fs, f...)
	case 2:
		if fs[i].wt == 0 {
			u, _, _ := rdUv(fs[i].payload)
			fs[i].payload = longVarint(u, 1+c.r.Intn(10))
		}
	case 3: // redundant length
		var out []byte
		for j, f := range fs {
			if j == i && f.wt == 2 {
				out = append(out, longVarint(uint64(f.num)<<3|2, c.r.Intn(3))...)
				out = append(out, longVarint(uint64(len(f.payload)), c.r.Intn(10))...)
				out = append(out, f.payload...)
			} else {
				out = append(out, c.buildFields([]pfield{f})...)
			}
		}
		return out
	}
	return c.buildFields(fs)
}

var _ = binary.LittleEndian
var _ io.Reader
