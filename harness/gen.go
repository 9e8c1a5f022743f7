package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"
)

type G struct {
	r       *rand.Rand
	noIface bool
	json    bool // JSON mode: valid UTF-8 only, maps allowed
	lists   bool
	size    int // list length bound
	reg     []reflect.Type
	ref     *refCodec
}

func (g *G) pick(n int) bool { return g.r.Intn(n) == 0 }

// ---------- types ----------

func (g *G) leaf() reflect.Type {
	if g.pick(8) {
		return timeT
	}
	return leafTypes[g.r.Intn(len(leafTypes))]
}

func (g *G) structT(d int) reflect.Type {
	if d <= 0 || g.pick(3) {
		for {
			t := zooStructs[g.r.Intn(len(zooStructs))]
			if d <= 1 && (t.NumField() > 8) && !g.pick(3) {
				continue
			}
			return t
		}
	}
	n := g.r.Intn(7)
	var fs []reflect.StructField
	if g.pick(12) {
		n = 15 + g.r.Intn(6) // field numbers of more than one byte
	}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		var am []string
		jsonOmit := g.pick(4)
		bin := ""
		switch g.r.Intn(5) {
		case 0:
			bin = "fixed32"
		case 1:
			bin = "fixed64"
		}
		if g.pick(8) { // floats
			ft := []reflect.Type{reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0))}[g.r.Intn(2)]
			switch g.r.Intn(5) {
			case 0:
				ft = reflect.SliceOf(ft)
			case 1:
				ft = reflect.PtrTo(ft)
			case 2:
				ft = reflect.ArrayOf(g.r.Intn(3), ft)
			}
			f.Type = ft
			am = append(am, "unsafe")
		} else {
			f.Type = g.fieldT(d - 1)
		}
		if g.pick(6) {
			am = append(am, "write_empty")
		}
		if g.pick(6) {
			am = append(am, "empty_elements")
		}
		if g.pick(8) {
			am = append(am, "other")
		}
		if f.Type.Kind() == reflect.Ptr {
			switch deref(f.Type).Kind() {
			case reflect.String, reflect.Slice, reflect.Array:
				jsonOmit = false
			}
		}
		js := ""
		switch g.r.Intn(6) {
		case 0:
			js = fmt.Sprintf("j%d", i)
		case 1:
			js = fmt.Sprintf("F%d", 100+i)
		}
		if jsonOmit {
			js += ",omitempty"
		}
		if g.pick(15) {
			js = "-"
		}
		tag := ""
		if bin != "" {
			tag += fmt.Sprintf(`binary:"%s" `, bin)
		}
		if len(am) > 0 {
			g.r.Shuffle(len(am), func(i, j int) { am[i], am[j] = am[j], am[i] })
			tag += fmt.Sprintf(`amino:"%s" `, strings.Join(am, ","))
		}
		if js != "" {
			tag += fmt.Sprintf(`json:"%s"`, js)
		}
		f.Tag = reflect.StructTag(strings.TrimSpace(tag))
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (g *G) ptrs(t reflect.Type) reflect.Type {
	n := 1
	if g.pick(4) {
		n += 1 + g.r.Intn(2)
	}
	for i := 0; i < n; i++ {
		t = reflect.PtrTo(t)
	}
	return t
}

// scalar, bytes, string, struct, interface
func (g *G) elemT(d int) reflect.Type {
	switch g.r.Intn(10) {
	case 0, 1:
		return g.structT(d)
	case 2:
		return g.ptrs(g.structT(d))
	case 3:
		return g.ptrs(g.leaf())
	case 4:
		return []reflect.Type{ifaceT, iface2T, ifaceAT}[g.r.Intn(3)]
	case 5:
		if g.json && d > 0 {
			return g.mapT(d - 1)
		}
	}
	return g.leaf()
}

func (g *G) mapT(d int) reflect.Type {
	k := reflect.TypeOf("")
	if g.pick(4) {
		k = reflect.TypeOf(NString(""))
	}
	return reflect.MapOf(k, g.elemT(d))
}

func (g *G) listT(d int) reflect.Type {
	e := g.elemT(d)
	if g.json && g.pick(5) || g.lists && g.pick(8) {
		e = g.listT(0)
	}
	switch g.r.Intn(3) {
	case 0:
		return reflect.ArrayOf([]int{0, 1, 2, 3, 5}[g.r.Intn(5)], e)
	default:
		return reflect.SliceOf(e)
	}
}

func (g *G) fieldT(d int) reflect.Type {
	switch g.r.Intn(10) {
	case 0, 1, 2:
		g.lists = g.pick(2) // lists of lists, directly in a field
		t := g.listT(d)
		g.lists = false
		return t
	case 3:
		return g.structT(d)
	case 4:
		return g.ptrs(g.structT(d))
	case 5:
		return g.ptrs(g.leaf())
	case 6:
		if g.pick(3) {
			return g.ptrs(g.listT(d))
		}
		return []reflect.Type{ifaceT, iface2T, ifaceAT}[g.r.Intn(3)]
	case 7:
		if g.json {
			return g.mapT(d)
		}
	}
	return g.leaf()
}

// a type for the root
func (g *G) rootT() reflect.Type {
	if g.pick(2) {
		if g.json && g.pick(6) {
			return []reflect.Type{reflect.TypeOf(JMaps{}), reflect.TypeOf(JHolder{}), reflect.TypeOf(JMars{})}[g.r.Intn(3)]
		}
		return reflect.TypeOf(zooBinary[g.r.Intn(len(zooBinary))])
	}
	switch g.r.Intn(5) {
	case 0:
		return g.leaf()
	case 1:
		return g.listT(1 + g.r.Intn(2))
	default:
		return g.structT(1 + g.r.Intn(2))
	}
}

// ---------- values ----------

var ints = []int64{0, 1, -1, 2, 63, 64, -64, -65, 127, 128, -128, -129, 255, 256, 8191, 8192, 16383, 16384, 32767, 32768, -32768, -32769, 65535, 65536,
	1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, -1 << 31, -1<<31 - 1, 1<<32 - 1, 1 << 32, 1 << 35, 1 << 42, 1 << 49, 1<<53 + 1, 1 << 56, 1<<62 - 1, 1<<63 - 1, -1 << 63, -1<<63 + 1}

func (g *G) int() int64 {
	switch g.r.Intn(4) {
	case 0:
		return 0
	case 1:
		return int64(g.r.Uint64()) >> uint(g.r.Intn(64))
	default:
		return ints[g.r.Intn(len(ints))]
	}
}

func (g *G) length() int {
	switch g.r.Intn(8) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 4:
		return g.size
	default:
		return g.r.Intn(g.size + 1)
	}
}

func (g *G) bytes() []byte {
	n := g.length()
	if g.pick(25) {
		n = 120 + g.r.Intn(20) // around the 1/2 byte length boundary
	}
	if g.pick(400) {
		n = 16380 + g.r.Intn(10)
	}
	b := make([]byte, n)
	g.r.Read(b)
	if g.pick(3) {
		for i := range b {
			b[i] = []byte{0, 0, 1, 2, 8, 10, 0x7f, 0x80, 0xff}[g.r.Intn(9)]
		}
	}
	return b
}

var runes = []rune{'a', 'Z', '0', ' ', '"', '\\', '/', '<', '>', '&', '\'', '\n', '\t', 0, 1, 0x1f, 0x7f, 0x80, 'é', '世', 0x2028, 0x2029, 0xffff, 0xfffd, 0x1f600, 0x10ffff, '{', '}', '[', ']', ':', ','}

func (g *G) str() string {
	if !g.json && g.pick(3) {
		return string(g.bytes())
	}
	n := g.length()
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, string(runes[g.r.Intn(len(runes))])...)
	}
	if !utf8.Valid(b) {
		panic("gen")
	}
	if g.pick(10) {
		return []string{"null", "true", "0", "\"", "type", "{}", "Z", "fail"}[g.r.Intn(8)]
	}
	return string(b)
}

func (g *G) time() time.Time {
	var s, ns int64
	switch g.r.Intn(6) {
	case 0:
		s = 0
	case 1:
		s = minSec + int64(g.r.Intn(3))
	case 2:
		s = maxSec - 1 - int64(g.r.Intn(3))
	case 3:
		s = int64(g.r.Intn(3)) - 1
	default:
		s = minSec + g.r.Int63n(maxSec-minSec)
	}
	switch g.r.Intn(5) {
	case 0, 1:
	case 2:
		ns = 999999999
	case 3:
		ns = 1
	default:
		ns = g.r.Int63n(1000000000)
	}
	t := time.Unix(s, ns)
	switch g.r.Intn(4) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("x", -7*3600-1800))
	case 2:
		t = t.In(time.FixedZone("y", 14*3600))
	}
	if g.json { // years 0 and 10000 cannot be written in another zone by accident; UTC is used
		return t
	}
	return t
}

func (g *G) float() float64 {
	fs := []float64{0, 1, -1, 0.5, -2.25, math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 1e-7, 123456789.125, math.Pi}
	if !g.json {
		fs = append(fs, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN())
	}
	if g.pick(4) {
		f := math.Float64frombits(g.r.Uint64())
		if g.json && (math.IsNaN(f) || math.IsInf(f, 0)) {
			return 1.5
		}
		return f
	}
	return fs[g.r.Intn(len(fs))]
}

// val returns an addressable value of type t.
func (g *G) val(t reflect.Type, d int) reflect.Value {
	v := reflect.New(t).Elem()
	g.fill(v, d, false)
	return v
}

func (g *G) concrete(t reflect.Type, d int) reflect.Value {
	var cands []*regInfo
	for _, ri := range g.ref.order {
		if reflect.PtrTo(ri.t).Implements(t) {
			cands = append(cands, ri)
		}
	}
	if len(cands) == 0 || g.pick(5) {
		return reflect.Zero(t)
	}
	ri := cands[g.r.Intn(len(cands))]
	if d <= 0 && ri.t.Kind() == reflect.Struct && ri.t.NumField() > 2 {
		ri = cands[0]
	}
	pv := reflect.New(ri.t)
	g.fill(pv.Elem(), d-1, false)
	// as registered, so that the same comes back
	if ri.ptr || !ri.t.Implements(t) {
		return pv
	}
	return pv.Elem()
}

func (g *G) fill(v reflect.Value, d int, ee bool) {
	t := v.Type()
	switch t {
	case timeT:
		v.Set(reflect.ValueOf(g.time()))
		return
	case reflect.TypeOf(ReprStr{}):
		v.Set(reflect.ValueOf(ReprStr{g.str()}))
		return
	case reflect.TypeOf(ReprSt{}):
		v.Set(reflect.ValueOf(ReprSt{int(g.int()), g.str()}))
		return
	case reflect.TypeOf(ReprList{}):
		x := ReprList{}
		for i := g.length(); i > 0; i-- {
			x.m = append(x.m, Sub{int(g.int()), g.str()})
		}
		v.Set(reflect.ValueOf(x))
		return
	case reflect.TypeOf(ReprBytes{}):
		v.Set(reflect.ValueOf(ReprBytes{string(g.bytes())}))
		return
	case reflect.TypeOf(ReprTime{}):
		t := reflect.New(timeT).Elem()
		g.fill(t, d, false)
		x := t.Interface().(time.Time)
		v.Set(reflect.ValueOf(ReprTime{x.Unix(), int32(x.Nanosecond())}))
		return
	case reflect.TypeOf(ReprArr{}):
		v.Set(reflect.ValueOf(ReprArr{uint32(g.r.Intn(1 << 24))}))
		return
	case reflect.TypeOf(ReprPtr{}):
		t := reflect.New(reflect.TypeOf(Sub{})).Elem()
		g.fill(t, d, false)
		v.Set(reflect.ValueOf(ReprPtr{t.Interface().(Sub)}))
		return
	case reflect.TypeOf(ReprChain{}):
		v.Set(reflect.ValueOf(ReprChain{ReprStr{g.str()}}))
		return
	case reflect.TypeOf(CRepr{}):
		v.Set(reflect.ValueOf(CRepr{g.str()}))
		return
	case reflect.TypeOf(JMars{}):
		v.Set(reflect.ValueOf(JMars{g.r.Intn(100)}))
		return
	}
	if d < -2 && t.Kind() == reflect.Struct {
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.pick(2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.int())
		if g.pick(4) {
			bits := uint(t.Bits())
			v.SetInt([]int64{-1 << (bits - 1), 1<<(bits-1) - 1}[g.r.Intn(2)])
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.int()) & (^uint64(0) >> (64 - uint(t.Bits()))))
		if g.pick(5) {
			v.SetUint(^uint64(0) >> (64 - uint(t.Bits())))
		}
	case reflect.Float32:
		f := float32(g.float())
		if g.json && (math.IsInf(float64(f), 0) || math.IsNaN(float64(f)) || f == 0) {
			f = 0
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		f := g.float()
		if g.json && f == 0 {
			f = 0
		}
		v.SetFloat(f)
	case reflect.String:
		v.SetString(g.str())
	case reflect.Ptr:
		if g.pick(4) && !(ee && deref(t).Kind() == reflect.Struct) || d < -1 && deref(t).Kind() == reflect.Struct && !ee {
			return
		}
		v.Set(reflect.New(t.Elem()))
		g.fill(v.Elem(), d-1, ee)
	case reflect.Interface:
		if t.NumMethod() == 0 || g.noIface {
			return
		}
		v.Set(g.concrete(t, d-1))
	case reflect.Slice:
		if g.pick(6) {
			return
		}
		n := g.length()
		if t.Elem().Kind() == reflect.Uint8 {
			b := g.bytes()
			s := reflect.MakeSlice(t, len(b), len(b))
			for i := range b {
				s.Index(i).SetUint(uint64(b[i]))
			}
			v.Set(s)
			return
		}
		if d < 0 && n > 1 {
			n = 1
		}
		if d < -1 {
			n = 0
		}
		s := reflect.MakeSlice(t, n, n+g.r.Intn(2))
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), d-1, ee)
		}
		v.Set(s)
	case reflect.Array:
		if t.Elem().Kind() != reflect.Uint8 && g.pick(5) {
			if !ee {
				// zero, unless that holds nil pointers not allowed
				return
			}
		}
		for i := 0; i < t.Len(); i++ {
			g.fill(v.Index(i), d-1, ee)
		}
	case reflect.Map:
		if g.pick(6) {
			return
		}
		n := g.r.Intn(4)
		if d < -1 {
			n = 0
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			g.fill(k, d-1, false)
			e := reflect.New(t.Elem()).Elem()
			g.fill(e, d-1, ee)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		sparse := g.pick(3) // mostly default fields
		if !sparse && g.pick(6) {
			sparse = true
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			if f.Tag.Get("json") == "-" {
				continue
			}
			fe := hasOpt(f.Tag.Get("amino"), "empty_elements")
			if sparse && !g.pick(4) && !(fe && f.Type.Kind() == reflect.Array) {
				continue
			}
			g.fill(v.Field(i), d-1, fe)
		}
	case reflect.Chan, reflect.Func:
	default:
		panic(fmt.Sprintf("gen %v", t))
	}
}
