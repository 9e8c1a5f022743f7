package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sync"
	"time"
	"unicode/utf8"

	amino "github.com/tendermint/go-amino"
)

// ---- names ----

var collOnce sync.Once
var collisions [][]string // names with equal prefix bytes

func prefixCollisions() [][]string {
	collOnce.Do(func() {
		m := map[[4]byte]int32{}
		for i := int32(0); len(collisions) < 12; i++ {
			_, p := refDisfix(fmt.Sprintf("n%d", i))
			if j, ok := m[p]; ok {
				collisions = append(collisions, []string{fmt.Sprintf("n%d", j), fmt.Sprintf("n%d", i)})
			} else {
				m[p] = i
			}
		}
	})
	return collisions
}

func (c *C) regName() string {
	switch c.r.Intn(8) {
	case 0:
		return string(c.bytes())
	case 1, 2, 3: // zero bytes where they are skipped
		at, k := 0, 1
		if c.pick(2) {
			at = 3
		}
		if c.pick(40) {
			k = 2
		}
		base := fmt.Sprintf("z%d/", c.r.Int63())
		for i := 0; ; i++ {
			n := base + fmt.Sprint(i)
			h := sha256.Sum256([]byte(n))
			o := 0
			if at == 3 {
				for h[o] == 0 {
					o++
				}
				o += 3
			}
			ok := true
			for j := 0; j < k; j++ {
				ok = ok && h[o+j] == 0
			}
			if ok {
				return n
			}
		}
	case 4:
		x := prefixCollisions()
		return x[c.r.Intn(len(x))][c.r.Intn(2)]
	default:
		return fmt.Sprintf("com.x/%d", c.r.Intn(1<<30))
	}
}

// ---- registration histories ----

type E1 struct{ A int }
type E2 struct {
	A string
	B []Sub
}
type EI int

func (E1) IfaceM()   {}
func (*E2) IfaceM()  {}
func (*E2) Iface2M() {}

// candidate types with values
var candVals = []interface{}{
	CStruct{A: 1, B: "x"}, PStruct{Y: 3}, CInt(5), CStr("s"), CBytes("ab"), CArr{1, 2, 3, 4}, CSliceSub{{A: 1}}, CEmpty{}, PInt(7), E1{9}, E2{A: "q"}, EI(3), Sub{A: 4}, CU64(77), CArrInt{1, 2}, CSlice{5}, CBool(true), CBs{[]byte("k")},
}

type (
	W1 struct{ I Iface }
	W2 struct{ I Iface2 }
	W3 struct{ I IfaceAlways }
	W4 struct{ I interface{} }
)

var wrapIfaces = []struct{ w, i reflect.Type }{
	{reflect.TypeOf(W1{}), ifaceT}, {reflect.TypeOf(W2{}), iface2T}, {reflect.TypeOf(W3{}), ifaceAT}, {reflect.TypeOf(W4{}), emptyIfT},
}

type regOp struct {
	kind   string // concrete, iface, seal, use
	v      interface{}
	name   string
	it     reflect.Type
	prio   []string
	always bool
}

func (o regOp) String() string {
	switch o.kind {
	case "concrete":
		return fmt.Sprintf("RegisterConcrete(%T, %q)", o.v, o.name)
	case "iface":
		return fmt.Sprintf("RegisterInterface(%v, %q, %v)", o.it, o.prio, o.always)
	case "use":
		return fmt.Sprintf("use(%T)", o.v)
	}
	return o.kind
}

type regModel struct {
	*refCodec
	prio   map[reflect.Type][]string
	used   map[reflect.Type]bool
	sealed bool
	nif    []reflect.Type
}

func newRegModel() *regModel {
	return &regModel{newRef(), map[reflect.Type][]string{}, map[reflect.Type]bool{}, false, nil}
}

func (m *regModel) inPrio(it reflect.Type, ri *regInfo) bool {
	for _, n := range m.prio[it] {
		d, p := refDisfix(n)
		if d == ri.disamb && p == ri.prefix {
			return true
		}
	}
	return false
}

// apply says whether the operation is accepted.
func (m *regModel) apply(o regOp) bool {
	switch o.kind {
	case "seal":
		m.sealed = true
		return true
	case "use":
		m.usedBy(reflect.TypeOf(o.v))
		return true
	case "iface":
		if m.sealed {
			return false
		}
		if _, ok := m.ifaces[o.it]; ok {
			return false
		}
		m.prio[o.it] = o.prio
		for _, ri := range m.order {
			if !reflect.PtrTo(ri.t).Implements(o.it) {
				continue
			}
			if len(m.implementers(o.it, ri.prefix)) > 1 && !m.inPrio(o.it, ri) {
				delete(m.prio, o.it)
				return false
			}
		}
		m.ifaces[o.it] = o.always
		m.nif = append(m.nif, o.it)
		return true
	}
	if m.sealed {
		return false
	}
	t := reflect.TypeOf(o.v)
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
		if t.Kind() == reflect.Ptr || t.Kind() == reflect.Interface {
			return false
		}
	}
	if m.conc[t] != nil || m.used[t] {
		return false
	}
	ri := &regInfo{t: t, name: o.name}
	ri.disamb, ri.prefix = refDisfix(o.name)
	for _, x := range m.order {
		if x.name == o.name || x.disamb == ri.disamb && x.prefix == ri.prefix {
			return false
		}
	}
	for _, it := range m.nif {
		if !reflect.PtrTo(t).Implements(it) {
			continue
		}
		if impls := m.implementers(it, ri.prefix); len(impls) > 0 {
			for _, x := range append(impls, ri) {
				if !m.inPrio(it, x) {
					return false
				}
			}
		}
	}
	m.register(o.v, o.name)
	return true
}

func (m *regModel) usedBy(t reflect.Type) {
	t = deref(t)
	if m.used[t] || t.Kind() == reflect.Interface {
		return
	}
	if m.conc[t] == nil {
		m.used[t] = true
	}
	switch t.Kind() {
	case reflect.Struct:
		for _, f := range fieldsOf2(t) {
			m.usedBy(t.Field(f.index).Type)
		}
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() != reflect.Uint8 {
			m.usedBy(t.Elem())
		}
	}
}

func doOp(cdc *amino.Codec, o regOp) interface{} {
	return try(func() {
		switch o.kind {
		case "concrete":
			var opts *amino.ConcreteOptions
			if len(o.name)%2 == 0 {
				opts = &amino.ConcreteOptions{}
			}
			cdc.RegisterConcrete(o.v, o.name, opts)
		case "iface":
			ptr := reflect.Zero(reflect.PtrTo(o.it)).Interface()
			if o.prio == nil && !o.always {
				cdc.RegisterInterface(ptr, nil)
			} else {
				cdc.RegisterInterface(ptr, &amino.InterfaceOptions{Priority: o.prio, AlwaysDisambiguate: o.always})
			}
		case "seal":
			if cdc.Seal() != cdc {
				panic(failure{"Seal does not return the codec"})
			}
		case "use":
			if _, err := cdc.MarshalBinaryBare(o.v); err != nil {
				panic(failure{fmt.Sprint("use: ", err)})
			}
		}
	})
}

// a whole variable of the type, non-zero so that all fields are visited
func (c *C) regOps() (ops []regOp) {
	pool := []string{}
	for i := 0; i < 6; i++ {
		pool = append(pool, c.regName())
	}
	x := prefixCollisions()
	for i := 0; i < 2; i++ {
		p := x[c.r.Intn(len(x))]
		pool = append(pool, p[0], p[1])
	}
	name := func() string { return pool[c.r.Intn(len(pool))] }
	n := 2 + c.r.Intn(12)
	for i := 0; i < n; i++ {
		switch k := c.r.Intn(20); {
		case k < 12:
			v := candVals[c.r.Intn(len(candVals))]
			o := regOp{kind: "concrete", v: v, name: name()}
			if c.pick(3) {
				p := reflect.New(reflect.TypeOf(v))
				p.Elem().Set(reflect.ValueOf(v))
				o.v = p.Interface()
				if c.pick(12) {
					pp := reflect.New(p.Type())
					pp.Elem().Set(p)
					o.v = pp.Interface()
				}
			}
			if c.pick(40) {
				o.v = new(Iface)
			}
			ops = append(ops, o)
		case k < 18:
			o := regOp{kind: "iface", it: wrapIfaces[c.r.Intn(4)].i, always: c.pick(5)}
			if c.pick(2) {
				o.prio = append([]string{}, pool...)
				c.r.Shuffle(len(o.prio), func(i, j int) { o.prio[i], o.prio[j] = o.prio[j], o.prio[i] })
			} else {
				for c.pick(2) {
					o.prio = append(o.prio, name())
				}
			}
			ops = append(ops, o)
		case k == 18 && c.pick(2):
			ops = append(ops, regOp{kind: "seal"})
		default:
			// types that need no others
			v := []interface{}{CStr("s"), CEmpty{}, EI(3), CBytes("x"), CBool(true), CArr{1}, E1{9}, Sub{1, "x"}}[c.r.Intn(8)]
			ops = append(ops, regOp{kind: "use", v: v})
		}
	}
	return
}

// observe compares everything a caller can see of the codec with the model.
func (c *C) observe(cdc *amino.Codec, m *regModel) {
	// the list of types
	var buf bytes.Buffer
	if err := cdc.PrintTypes(&buf); err != nil {
		c.failf("PrintTypes: %v", err)
	}
	want := "| Type | Name | Prefix | Length | Notes |\n| ---- | ---- | ------ | ----- | ------ |\n"
	for _, ri := range m.order {
		l := "variable"
		switch ri.t.Kind() {
		case reflect.Array, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
			l = fmt.Sprintf("0x%X", ri.t.Size())
		}
		want += fmt.Sprintf("| %s | %s | 0x%X | %s |  |\n", ri.t.Name(), ri.name, ri.prefix, l)
	}
	if buf.String() != want {
		c.failf("PrintTypes: %q, want %q", buf.String(), want)
	}
	for _, x := range c.r.Perm(len(candVals)) {
		v := candVals[x]
		t := reflect.TypeOf(v)
		ri := m.conc[t]
		// at the root
		ref, err := m.encRoot(reflect.ValueOf(v))
		if err != nil {
			c.failf("reference: %v", err)
		}
		if b := c.marshal(cdc, v); !bytes.Equal(b, ref) {
			c.failf("%T encodes as %X, want %X", v, b, ref)
		}
		pv := reflect.New(t)
		pv.Elem().Set(reflect.ValueOf(v))
		for _, w := range wrapIfaces {
			if !pv.Type().Implements(w.i) {
				continue
			}
			wv := reflect.New(w.w).Elem()
			wv.Field(0).Set(pv)
			if t.Implements(w.i) && c.pick(2) {
				wv.Field(0).Set(pv.Elem())
			}
			ref, rerr := m.encRoot(wv)
			var b []byte
			var err error
			if p := try(func() { b, err = cdc.MarshalBinaryBare(wv.Interface()) }); p != nil {
				err = fmt.Errorf("panic: %v", p)
			}
			if (err == nil) != (rerr == nil) || !bytes.Equal(b, ref) {
				c.failf("%T in %v encodes as %X, %v; want %X, %v", v, w.i, b, err, ref, rerr)
			}
			var js []byte
			var jerr error
			if p := try(func() { js, jerr = cdc.MarshalJSON(wv.Interface()) }); p != nil {
				jerr = fmt.Errorf("panic: %v", p)
			}
			if (jerr == nil) != (rerr == nil) {
				c.failf("%T in %v: JSON error %v, want %v", v, w.i, jerr, rerr)
			}
			if rerr != nil {
				continue
			}
			// decoded by name (a JSON string holds a non-empty name of valid UTF-8 only)
			if ri.name != "" && utf8.ValidString(ri.name) {
				got := reflect.New(w.w)
				if err := cdc.UnmarshalJSON(js, got.Interface()); err != nil {
					c.failf("%s does not decode: %v", js, err)
				}
				c.checkDyn(m, got.Elem().Field(0), ri, v, w.i)
			}
			// decoded by disambiguation and prefix bytes, or by prefix bytes alone
			cont, _ := m.enc(reflect.ValueOf(v), fopt{num: 1}, true)
			long := append(append(append([]byte{0}, ri.disamb[:]...), ri.prefix[:]...), cont...)
			short := append(append([]byte{}, ri.prefix[:]...), cont...)
			for i, f := range [][]byte{long, short} {
				in := append([]byte{10}, lenPrefixed(f)...)
				got := reflect.New(w.w)
				err := c.unmarshal(cdc, in, got.Interface())
				unique := len(m.implementers(w.i, ri.prefix)) == 1
				if i == 1 && !unique {
					if err == nil {
						c.failf("ambiguous prefix bytes in %X are accepted for %v", in, w.i)
					}
					continue
				}
				if err != nil {
					c.failf("%X does not decode into %v: %v", in, w.i, err)
				}
				c.checkDyn(m, got.Elem().Field(0), ri, v, w.i)
			}
			// bytes nobody registered
			bad := append([]byte{}, long...)
			bad[1+c.r.Intn(7)] ^= 1 << uint(c.r.Intn(8))
			known := false
			for _, x := range m.order {
				known = known || bytes.Equal(bad[1:4], x.disamb[:]) && bytes.Equal(bad[4:8], x.prefix[:])
			}
			if in := append([]byte{10}, lenPrefixed(bad)...); !known && cdc.UnmarshalBinaryBare(in, reflect.New(w.w).Interface()) == nil {
				c.failf("unregistered bytes %X are accepted", in)
			}
		}
	}
	// registered types not implementing an interface are refused in it
	for _, ri := range m.order {
		for _, w := range wrapIfaces {
			if _, ok := m.ifaces[w.i]; !ok || reflect.PtrTo(ri.t).Implements(w.i) {
				continue
			}
			in := append([]byte{10}, lenPrefixed(append(append([]byte{0}, ri.disamb[:]...), ri.prefix[:]...))...)
			if err := c.unmarshal(cdc, in, reflect.New(w.w).Interface()); err == nil {
				c.failf("%v is accepted as %v", ri.t, w.i)
			}
			in = append([]byte{10}, lenPrefixed(ri.prefix[:])...)
			if err := c.unmarshal(cdc, in, reflect.New(w.w).Interface()); err == nil && len(m.implementers(w.i, ri.prefix)) == 0 {
				c.failf("prefix of %v is accepted as %v", ri.t, w.i)
			}
			if !utf8.ValidString(ri.name) {
				continue
			}
			js := fmt.Sprintf(`{"I":{"type":%s,"value":{}}}`, jstr(ri.name))
			var err error
			if p := try(func() { err = cdc.UnmarshalJSON([]byte(js), reflect.New(w.w).Interface()) }); p != nil || err == nil {
				c.failf("%v by name is accepted as %v: %v", ri.t, w.i, p)
			}
		}
	}
	for _, n := range []string{"nobody", "n", "", "nobody/else"} {
		taken := false
		for _, ri := range m.order {
			taken = taken || ri.name == n
		}
		if taken {
			continue
		}
		js := fmt.Sprintf(`{"I":{"type":%q,"value":{}}}`, n)
		var err error
		if p := try(func() { err = cdc.UnmarshalJSON([]byte(js), new(W1)) }); p != nil || err == nil {
			c.failf("unregistered name %q is accepted: %v", n, p)
		}
	}
}

func (c *C) checkDyn(m *regModel, iv reflect.Value, ri *regInfo, v interface{}, it reflect.Type) {
	if iv.IsNil() {
		c.failf("decodes to nil, want %T", v)
	}
	g := iv.Elem()
	ptr := g.Kind() == reflect.Ptr
	wantPtr := ri.ptr || !ri.t.Implements(it)
	if ptr {
		g = g.Elem()
	}
	if g.Type() != ri.t || ptr != wantPtr {
		c.failf("decodes to %v, want %v (pointer %v)", iv.Elem().Type(), ri.t, wantPtr)
	}
	if canon(g, true) != canon(reflect.ValueOf(v), true) {
		c.failf("decodes to %s, want %s", canon(g, true), canon(reflect.ValueOf(v), true))
	}
}

func init() {
	props["C09"] = []check{
		{"disfix", func(c *C) {
			n := c.regName()
			d, p := refDisfix(n)
			c.note("name %q", n)
			c.distinct(n)
			gd, gp := amino.NameToDisfix(n)
			if gd != d || gp != p {
				c.failf("NameToDisfix(%q) = %X %X, want %X %X", n, gd, gp, d, p)
			}
			if !bytes.Equal(gd.Bytes(), d[:]) || !bytes.Equal(gp.Bytes(), p[:]) || !gd.EqualBytes(d[:]) || !gp.EqualBytes(p[:]) || amino.NewPrefixBytes(p[:]) != gp {
				c.failf("accessors of %X %X", gd, gp)
			}
			cdc := amino.NewCodec()
			cdc.RegisterConcrete(CStr(""), n, nil)
			cdc.RegisterInterface((*IfaceAlways)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true})
			if b, want := c.marshal(cdc, CStr("x")), append(append([]byte{}, p[:]...), 10, 1, 'x'); !bytes.Equal(b, want) {
				c.failf("registered as %q: %X, want %X", n, b, want)
			}
			want := append(append(append([]byte{10, 10, 0}, d[:]...), p[:]...), 1, 'x')
			if b := c.marshal(cdc, W3{CStr("x")}); !bytes.Equal(b, want) {
				c.failf("registered as %q: %X, want %X", n, b, want)
			}
			db, hd, pb, hp, k, err := amino.DecodeDisambPrefixBytes(want[2:])
			if db != gd || !hd || pb != gp || !hp || k != 8 || err != nil {
				c.failf("DecodeDisambPrefixBytes(%X): %X %v %X %v %d %v", want[2:], db, hd, pb, hp, k, err)
			}
			db, hd, pb, hp, k, err = amino.DecodeDisambPrefixBytes(want[6:])
			if db != (amino.DisambBytes{}) || hd || pb != gp || !hp || k != 4 || err != nil {
				c.failf("DecodeDisambPrefixBytes(%X): %X %v %X %v %d %v", want[6:], db, hd, pb, hp, k, err)
			}
			cut := c.r.Intn(8)
			if _, hd, _, hp, _, err := amino.DecodeDisambPrefixBytes(want[2 : 2+cut]); err == nil || hd || hp {
				c.failf("DecodeDisambPrefixBytes(%X): %v %v %v", want[2:2+cut], hd, hp, err)
			}
			cut = c.r.Intn(4)
			if _, hd, _, hp, _, err := amino.DecodeDisambPrefixBytes(want[6 : 6+cut]); err == nil || hd || hp {
				c.failf("DecodeDisambPrefixBytes(%X): %v %v %v", want[6:6+cut], hd, hp, err)
			}
		}, 20000},
		{"identified", func(c *C) {
			// all candidates registered under random names (prefixes may collide), everything prioritised
			m := newRegModel()
			cdc := amino.NewCodec()
			var names []string
			seen := map[string]bool{}
			for len(names) < len(candVals) {
				n := c.regName()
				if len(names)+1 < len(candVals) && c.pick(3) {
					x := prefixCollisions()
					p := x[c.r.Intn(len(x))]
					if !seen[p[0]] && !seen[p[1]] {
						seen[p[0]] = true
						names = append(names, p[0])
						n = p[1]
					}
				}
				if !seen[n] {
					seen[n] = true
					names = append(names, n)
				}
			}
			var ops []regOp
			for i, j := range c.r.Perm(len(candVals)) {
				v := candVals[j]
				if c.pick(2) {
					v = reflect.New(reflect.TypeOf(v)).Interface()
				}
				ops = append(ops, regOp{kind: "concrete", v: v, name: names[i]})
			}
			for _, w := range wrapIfaces {
				ops = append(ops, regOp{kind: "iface", it: w.i, prio: names, always: w.i == ifaceAT})
			}
			c.r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
			for _, o := range ops {
				c.note("%v", o)
				if !m.apply(o) {
					return // names with the same disfix
				}
				if p := doOp(cdc, o); p != nil {
					c.failf("%v panics: %v", o, p)
				}
			}
			c.distinct(c.desc)
			c.observe(cdc, m)
		}, 1500},
		{"values", func(c *C) {
			// values holding interfaces, on the common codec
			t := []reflect.Type{reflect.TypeOf(Ifaces{}), reflect.TypeOf(CNest{}), reflect.TypeOf(IfaceOpts{}), reflect.TypeOf([]Iface{}), reflect.TypeOf([2]Iface2{}), reflect.TypeOf([]IfaceAlways{})}[c.r.Intn(6)]
			v := c.val(t, 4)
			ref, err := theRef.encRoot(v)
			if err != nil {
				return
			}
			c.note("%v %s", t, short(v))
			c.distinct(t, string(ref))
			if b := c.marshal(theCdc, v.Interface()); !bytes.Equal(b, ref) {
				c.failf("encodes as %X, want %X", b, ref)
			}
			got := reflect.New(t)
			if err := c.unmarshal(theCdc, ref, got.Interface()); err != nil {
				c.failf("%X: %v", ref, err)
			}
			if g, w := canon(got.Elem(), true), canon(v, true); g != w {
				c.failf("decodes to %s, want %s", g, w)
			}
			c.compareDecode(t, c.mutateTree(ref, 0), true)
		}, 15000},
		{"root interface", func(c *C) {
			it := []reflect.Type{ifaceT, iface2T, ifaceAT}[c.r.Intn(3)]
			ri := theRef.order[c.r.Intn(len(theRef.order))]
			v := c.val(ri.t, 2)
			ref, err := theRef.encRoot(v)
			if err != nil {
				return
			}
			in := ref
			if c.pick(2) {
				in = append(append(append([]byte{0}, ri.disamb[:]...)), ref...)
			}
			if c.pick(6) {
				in = c.mutateRaw(in)
			}
			c.distinct(it, string(in))
			c.compareDecode(it, in, true)
			// not for another type
			rj := theRef.order[c.r.Intn(len(theRef.order))]
			if rj != ri {
				if err := c.unmarshal(theCdc, ref, reflect.New(rj.t).Interface()); err == nil {
					c.failf("the encoding %X of a %v is accepted as a %v", ref, ri.t, rj.t)
				}
			}
		}, 15000},
	}
	props["C10"] = []check{
		{"history", func(c *C) {
			ops := c.regOps()
			m := newRegModel()
			cdc := amino.NewCodec()
			rej := 0
			for i, o := range ops {
				if o.kind == "concrete" && c.pick(3) && i > 0 && ops[i-1].kind == "concrete" { // once more
					o = ops[i-1]
				}
				c.note("%v", o)
				ok := m.apply(o)
				p := doOp(cdc, o)
				if (p == nil) != ok {
					c.failf("%v after %v: panic %v, want acceptance %v", o, c.desc[:len(c.desc)-1], p, ok)
				}
				if !ok {
					rej++
				}
			}
			c.distinct(c.desc)
			c.observe(cdc, m)
		}, 6000},
		{"same state", func(c *C) {
			// A history with its rejected registrations left out, and with more of
			// them after sealing, behaves the same.
			ops := c.regOps()
			m := newRegModel()
			a, b := amino.NewCodec(), amino.NewCodec()
			for _, o := range ops {
				c.note("%v", o)
				ok := m.apply(o)
				doOp(a, o)
				if ok {
					doOp(b, o)
				}
			}
			a.Seal()
			m.sealed = true
			for _, o := range c.regOps() {
				if o.kind != "use" && o.kind != "seal" {
					if p := doOp(a, o); p == nil {
						c.failf("%v is accepted by a sealed codec", o)
					}
				}
			}
			c.distinct(c.desc)
			st := c.r.Int63()
			c.r = rand.New(rand.NewSource(st))
			c.observe(a, m)
			c.r = rand.New(rand.NewSource(st))
			c.observe(b, m)
		}, 2000},
		{"bad arguments", func(c *C) {
			cdc := amino.NewCodec()
			bad := []func(){
				func() { cdc.RegisterInterface(nil, nil) },
				func() { cdc.RegisterInterface(Sub{}, nil) },
				func() { cdc.RegisterInterface(&Sub{}, nil) },
				func() { cdc.RegisterConcrete(nil, "x", nil) },
				func() { cdc.RegisterConcrete(new(*Sub), "x", nil) },
				func() { cdc.RegisterConcrete(new(Iface), "x", nil) },
				func() { cdc.RegisterConcrete(badRepr1{}, "x", nil) },
				func() { cdc.RegisterConcrete(badRepr2{}, "x", nil) },
				func() { cdc.RegisterConcrete(badRepr3{}, "x", nil) },
				func() { cdc.RegisterConcrete(struct{ F float64 }{}, "x", nil) },
				func() { cdc.RegisterConcrete(struct{ F []chan int }{}, "x", nil) },
			}
			m := newRegModel()
			for i := 0; i < 4; i++ {
				o := regOp{kind: "concrete", v: candVals[c.r.Intn(len(candVals))], name: fmt.Sprint("ok", c.r.Intn(5))}
				if i == 2 {
					o = regOp{kind: "iface", it: ifaceT}
				}
				ok := m.apply(o)
				if p := doOp(cdc, o); (p == nil) != ok {
					c.failf("%v: %v", o, p)
				}
				k := c.r.Intn(len(bad))
				c.note("bad %d", k)
				if p := try(bad[k]); p == nil {
					c.failf("bad registration %d is accepted", k)
				}
			}
			c.distinct(c.desc)
			c.observe(cdc, m)
		}, 600},
	}
	props["C17"] = []check{
		{"concurrent", func(c *C) {
			cdc := amino.NewCodec()
			pre := c.r.Intn(len(candVals))
			perm := c.r.Perm(len(candVals))
			reg := func(j int) {
				try(func() { cdc.RegisterConcrete(candVals[j], fmt.Sprintf("c%d", j), nil) })
			}
			var prio []string
			for j := range candVals {
				prio = append(prio, fmt.Sprintf("c%d", j))
			}
			ifs := []func(){
				func() { cdc.RegisterInterface((*Iface)(nil), nil) },
				func() { cdc.RegisterInterface((*Iface2)(nil), &amino.InterfaceOptions{Priority: prio}) },
				func() { cdc.RegisterInterface((*IfaceAlways)(nil), &amino.InterfaceOptions{AlwaysDisambiguate: true}) },
				func() { cdc.RegisterInterface((*interface{})(nil), nil) },
			}
			for _, f := range ifs[:1+c.r.Intn(4)] {
				f()
			}
			for _, j := range perm[:pre] {
				reg(j)
			}
			c.distinct(pre, perm)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 6; g++ {
				r := rand.New(rand.NewSource(c.r.Int63()))
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					for k := 0; k < 12; k++ {
						v := candVals[r.Intn(len(candVals))]
						switch r.Intn(12) {
						case 0, 1:
							reg(perm[r.Intn(len(perm))])
						case 2:
							try(ifs[r.Intn(len(ifs))])
						case 3:
							cdc.PrintTypes(io.Discard)
						case 4:
							if r.Intn(10) == 0 {
								cdc.Seal()
							}
						case 5, 6:
							var b []byte
							try(func() { b, _ = cdc.MarshalBinaryBare(v) })
							try(func() { cdc.UnmarshalBinaryBare(b, reflect.New(reflect.TypeOf(v)).Interface()) })
						case 7, 8:
							p := reflect.New(reflect.TypeOf(v))
							p.Elem().Set(reflect.ValueOf(v))
							var b []byte
							try(func() { b, _ = cdc.MarshalBinaryBare(W4{p.Interface()}) })
							try(func() { cdc.UnmarshalBinaryBare(b, new(W4)) })
							if x, ok := p.Interface().(Iface); ok {
								try(func() { b, _ = cdc.MarshalBinaryBare([]Iface{x, nil, x}) })
								try(func() { var o []Iface; cdc.UnmarshalBinaryBare(b, &o) })
								try(func() { b, _ = cdc.MarshalBinaryBare(Ifaces{A: x, E: x, B: []Iface{x}}) })
								try(func() { var o Ifaces; cdc.UnmarshalBinaryBare(b, &o) })
							}
						case 9:
							p := reflect.New(reflect.TypeOf(v))
							p.Elem().Set(reflect.ValueOf(v))
							var b []byte
							try(func() { b, _ = cdc.MarshalJSON(W4{p.Interface()}) })
							try(func() { cdc.UnmarshalJSON(b, new(W4)) })
						case 10:
							// unsupported: panics
							try(func() { cdc.MarshalBinaryBare(struct{ F float64 }{1}) })
							try(func() { cdc.UnmarshalBinaryBare([]byte{8, 1}, new(struct{ C complex64 })) })
						case 11:
							t := reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.ArrayOf(r.Intn(50), reflect.TypeOf(Sub{}))}})
							try(func() { cdc.MarshalBinaryBare(reflect.New(t).Interface()) })
						}
					}
				}(g)
			}
			close(start)
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(15 * time.Second):
				c.failf("concurrent operations do not finish")
			}
			c.alive(cdc)
		}, 2500},
		{"panics", func(c *C) {
			cdc := amino.NewCodec()
			// two names share their prefix bytes
			cs := prefixCollisions()
			pair := cs[c.r.Intn(len(cs))]
			cdc.RegisterInterface((*Iface)(nil), &amino.InterfaceOptions{Priority: pair})
			cdc.RegisterConcrete(CStr(""), "s", nil)
			cdc.RegisterConcrete(CInt(0), pair[0], nil)
			cdc.RegisterConcrete(CI8(0), pair[1], nil)
			amb, apb := refDisfix(pair[0])
			if c.pick(4) {
				cdc.Seal()
			}
			ops := map[string]func(){
				"float":       func() { cdc.MarshalBinaryBare(1.5) },
				"field":       func() { cdc.MarshalBinaryBare(struct{ F float64 }{1}) },
				"json":        func() { cdc.MarshalJSON(struct{ F float64 }{1}) },
				"decode":      func() { cdc.UnmarshalBinaryBare([]byte{8, 1}, new(struct{ F float32 })) },
				"chan":        func() { cdc.MarshalBinaryBare(struct{ F chan int }{make(chan int)}) },
				"list":        func() { cdc.MarshalBinaryBare([]complex64{1}) },
				"lists":       func() { cdc.MarshalBinaryBare(struct{ F []func() }{}) },
				"repr1":       func() { cdc.MarshalBinaryBare(badRepr1{}) },
				"repr2":       func() { cdc.UnmarshalBinaryBare([]byte{8, 1}, &badRepr2{}) },
				"repr3":       func() { cdc.UnmarshalJSON([]byte("{}"), &badRepr3{}) },
				"nil":         func() { cdc.MarshalBinaryBare((*int)(nil)) },
				"nil2":        func() { cdc.MarshalBinaryBare(nil) },
				"target":      func() { cdc.UnmarshalBinaryBare([]byte{8, 1}, (*int)(nil)) },
				"conflict":    func() { cdc.RegisterConcrete(CStr(""), "s", nil) },
				"conflict2":   func() { cdc.RegisterConcrete(CInt(0), "s", nil) },
				"conflict3":   func() { cdc.RegisterInterface((*Iface)(nil), nil) },
				"notiface":    func() { cdc.RegisterInterface((*int)(nil), nil) },
				"iface":       func() { cdc.MarshalBinaryBare(struct{ I Iface2 }{E2p()}) },
				"unreg":       func() { cdc.MarshalBinaryBare(struct{ I Iface }{CUnreg{1}}) },
				"nilinterf":   func() { cdc.MarshalBinaryBare(struct{ I Iface }{(*PStruct)(nil)}) },
				"unknown":     func() { cdc.UnmarshalBinaryBare([]byte{10, 4, 1, 2, 3, 4}, new(struct{ I Iface })) },
				"unknown8":    func() { cdc.UnmarshalBinaryBare([]byte{10, 8, 0, 1, 2, 3, 4, 5, 6, 7}, new(struct{ I Iface })) },
				"jsonunknown": func() { cdc.UnmarshalJSON([]byte(`{"I":{"type":"nobody","value":1}}`), new(struct{ I Iface })) },
				"ambiguous":   func() { cdc.UnmarshalBinaryBare(append([]byte{10, 5}, append(apb[:], 1)...), new(struct{ I Iface })) },
				"ambiguous2":  func() { cdc.UnmarshalBinaryBare(append(apb[:], 1), new(Iface)) },
				"ambiguous3": func() {
					cdc.UnmarshalBinaryBare(append(append([]byte{10, 10, 0}, amb[:]...), append(apb[:], 8, 1)...), new(struct{ I Iface }))
				},
				"ambiguous4": func() { cdc.MarshalBinaryBare(struct{ I Iface }{CI8(1)}) },
				"notinprio":  func() { cdc.RegisterConcrete(CU64(0), pair[0], nil) },
				"notinprio2": func() { cdc.RegisterInterface((*IfaceAlways)(nil), nil) },
				"jsonname":   func() { cdc.UnmarshalJSON([]byte(`{"I":{"type":"`+pair[1]+`","value":"x"}}`), new(struct{ I Iface })) },
				"jsonother":  func() { cdc.UnmarshalJSON([]byte(`{"I":{"type":"s","value":"x"}}`), new(struct{ I fmt.Stringer })) },
				"marshaller": func() { cdc.MarshalBinaryBare(panicRepr{}) },
				"writer":     func() { cdc.MarshalBinaryLengthPrefixedWriter(panicWriter{}, 5) },
				"printer":    func() { cdc.PrintTypes(panicWriter{}) },
				"reader":     func() { cdc.UnmarshalBinaryLengthPrefixedReader(panicReader{}, new(int), 0) },
				"jsonpanic":  func() { cdc.MarshalJSON(panicRepr{}) },
				"map":        func() { cdc.MarshalBinaryBare(map[string]int{"a": 1}) },
				"mapkey":     func() { cdc.MarshalJSON(map[int]int{1: 1}) },
			}
			var names []string
			for n := range ops {
				names = append(names, n)
			}
			// map order is random: sort by choosing deterministically
			sortStrings(names)
			done := make(chan struct{})
			for k := 0; k < 3; k++ {
				n := names[c.r.Intn(len(names))]
				if k == 0 {
					n = names[c.idx%len(names)]
				}
				c.note("%s", n)
				f := ops[n]
				ch := make(chan struct{})
				go func() { defer close(ch); try(f) }()
				select {
				case <-ch:
				case <-time.After(10 * time.Second):
					c.failf("%v: the last operation blocks", c.desc)
				}
				c.alive(cdc)
			}
			close(done)
			c.distinct(c.desc)
		}, 2500},
		{"reentrant", func(c *C) {
			// methods that use the codec while it is encoding or decoding their value
			cdc := amino.NewCodec()
			reentrantCdc = cdc
			cdc.RegisterInterface((*Iface)(nil), nil)
			cdc.RegisterConcrete(reent{}, "reent", nil)
			done := make(chan interface{}, 1)
			k := c.r.Intn(4)
			c.note("%d", k)
			c.distinct(k)
			go func() {
				done <- try(func() {
					switch k {
					case 0:
						b := cdc.MustMarshalBinaryBare(struct{ R []reent }{[]reent{{1}, {2}}})
						var o struct{ R []reent }
						cdc.MustUnmarshalBinaryBare(b, &o)
					case 1:
						b := cdc.MustMarshalJSON(struct{ R []reent }{[]reent{{1}, {2}}})
						var o struct{ R []reent }
						cdc.MustUnmarshalJSON(b, &o)
					case 2:
						b := cdc.MustMarshalBinaryBare(struct{ R Iface }{reent{5}})
						var o struct{ R Iface }
						cdc.MustUnmarshalBinaryBare(b, &o)
					case 3:
						b := cdc.MustMarshalJSON(struct{ R Iface }{reent{5}})
						var o struct{ R Iface }
						cdc.MustUnmarshalJSON(b, &o)
					}
				})
			}()
			stop := make(chan struct{})
			go func() { // writers waiting for the lock make nested read locks deadlock
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
						try(func() { cdc.RegisterConcrete(reent{}, "reent", nil) })
					}
				}
			}()
			select {
			case p := <-done:
				close(stop)
				if p != nil {
					c.failf("panics: %v", p)
				}
			case <-time.After(10 * time.Second):
				c.failf("blocks")
			}
			c.alive(cdc)
		}, 400},
	}
}

func E2p() *E2 { return &E2{A: "x"} }

var reentrantCdc *amino.Codec

type reent struct{ n int }

func (reent) IfaceM() {}
func (r reent) MarshalAmino() (Sub, error) {
	b := reentrantCdc.MustMarshalBinaryBare(NInt(r.n))
	reentrantCdc.PrintTypes(io.Discard)
	return Sub{r.n, string(b)}, nil
}
func (r *reent) UnmarshalAmino(s Sub) error {
	var n NInt
	reentrantCdc.MustUnmarshalBinaryBare([]byte(s.B), &n)
	r.n = int(n)
	return nil
}

type panicRepr struct{}

func (panicRepr) MarshalAmino() (string, error) { panic("user") }

type panicWriter struct{}

func (panicWriter) Write([]byte) (int, error) { panic("user") }

type panicReader struct{}

func (panicReader) Read([]byte) (int, error) { panic("user") }

type badRepr1 struct{}

func (badRepr1) MarshalAmino() string { return "" }

type badRepr2 struct{}

func (badRepr2) MarshalAmino() (*string, error) { return nil, nil }

type badRepr3 struct{}

func (*badRepr3) UnmarshalAmino(a, b int) error { return nil }

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// alive: every kind of operation on the codec still returns.
func (c *C) alive(cdc *amino.Codec) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		try(func() {
			cdc.MarshalBinaryBare(Sub{1, "x"})
			cdc.UnmarshalBinaryBare([]byte{8, 1}, new(Sub))
			cdc.MarshalBinaryBare(struct{ I Iface }{CStr("x")})
			cdc.PrintTypes(io.Discard)
		})
		try(func() { cdc.RegisterConcrete(EI(0), "EI", nil) })
		try(func() { cdc.RegisterInterface((*fmt.Stringer)(nil), nil) })
		try(func() { cdc.MarshalJSON(Sub{}) })
		cdc.Seal()
		try(func() { cdc.PrintTypes(io.Discard) })
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		c.failf("operations block after %v", c.desc)
	}
}

var _ = binary.LittleEndian
