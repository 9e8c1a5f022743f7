package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

// jsonValue picks a type and a value the reference can encode as JSON.
func (c *C) jsonValue() (v reflect.Value, ref string) {
	c.json = true
	for {
		t := c.rootT()
		if c.pick(12) {
			t = c.mapT(2)
		}
		v = c.val(t, 4)
		s, err := theRef.jsonRoot(v)
		if err == nil {
			c.note("type %v value %s", t, short(v))
			return v, s
		}
	}
}

func (c *C) marshalJSON(cdc *amino.Codec, v interface{}) []byte {
	c.disturb(cdc)
	var b []byte
	var err error
	if p := try(func() { b, err = cdc.MarshalJSON(v) }); p != nil {
		c.failf("MarshalJSON panics: %v", p)
	}
	if err != nil {
		c.failf("MarshalJSON fails: %v", err)
	}
	return b
}

func (c *C) unmarshalJSON(cdc *amino.Codec, b []byte, ptr interface{}) error {
	c.disturb(cdc)
	var err error
	if p := try(func() { err = cdc.UnmarshalJSON(b, ptr) }); p != nil {
		c.failf("UnmarshalJSON of %q into %T panics: %v", b, ptr, p)
	}
	return err
}

func (c *C) mutateJSON(b []byte) []byte {
	b = append([]byte{}, b...)
	toks := []string{"null", "true", "false", "0", "-1", "1e400", "1.5", `""`, `"x"`, "[]", "{}", "[null]", `{"":null}`, `"9223372036854775808"`, `"-1"`, "256", "-129",
		`"2020-01-01T00:00:00+01:00"`, `"2020-01-01T00:00:00Z"`, `"Z"`, `"AA=="`, `"A"`, `"\u0000"`, `"\ud800"`, "\"\xff\"", `{"type":"zoo/CStruct","value":{}}`,
		`{"type":"zoo/CInt","value":"5"}`, `{"type":"zoo/CInt"}`, `{"type":"zoo/CNest","value":null}`, `{"type":"nobody","value":{}}`, `{"value":{}}`, `"\""`, `"1`, `1"`, `"`, "[", "{", "}", "]", ",", ":"}
	for k := 1 + c.r.Intn(3); k > 0; k-- {
		switch c.r.Intn(6) {
		case 0: // replace one token
			var starts [][2]int
			for i := 0; i < len(b); {
				switch ch := b[i]; {
				case ch == '"':
					j := i + 1
					for j < len(b) && b[j] != '"' {
						if b[j] == '\\' {
							j++
						}
						j++
					}
					if j >= len(b) {
						j = len(b) - 1
					}
					starts = append(starts, [2]int{i, j + 1})
					i = j + 1
				case strings.IndexByte("[]{},: ", ch) >= 0:
					i++
				default:
					j := i
					for j < len(b) && strings.IndexByte("[]{},: \"", b[j]) < 0 {
						j++
					}
					starts = append(starts, [2]int{i, j})
					i = j
				}
			}
			if len(starts) > 0 {
				s := starts[c.r.Intn(len(starts))]
				b = append(append(append([]byte{}, b[:s[0]]...), toks[c.r.Intn(len(toks))]...), b[s[1]:]...)
			}
		case 1:
			if len(b) > 0 {
				i := c.r.Intn(len(b))
				b = b[:i]
			}
		case 2:
			if len(b) > 0 {
				i := c.r.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 3:
			if len(b) > 0 {
				const chars = "\"\\[]{},:0123456789-+.eEntfalsru \n\x00\x80\xff"
				b[c.r.Intn(len(b))] = chars[c.r.Intn(len(chars))]
			}
		case 4:
			i := c.r.Intn(len(b) + 1)
			b = append(append(append([]byte{}, b[:i]...), toks[c.r.Intn(len(toks))]...), b[i:]...)
		case 5:
			b = append(b, toks[c.r.Intn(len(toks))]...)
		}
	}
	return b
}

// refJSONBad tells whether the valid JSON text raw certainly has the wrong
// form for type t, with the reason.
func refJSONBad(t reflect.Type, raw []byte, o fopt) string {
	raw = bytes.TrimSpace(raw)
	t = deref(t)
	if string(raw) == "null" || len(raw) == 0 {
		return ""
	}
	if t == timeT {
		var s string
		if json.Unmarshal(raw, &s) != nil {
			return "time not a string"
		}
		x, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return "time not RFC3339"
		}
		if _, off := x.Zone(); off != 0 {
			return "time not UTC"
		}
		return ""
	}
	if t.Kind() != reflect.Interface && reflect.PtrTo(t).Implements(reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()) {
		return ""
	}
	if t.Kind() != reflect.Interface && reprIn(t) != nil {
		return refJSONBad(reprIn(t), raw, o)
	}
	k := raw[0]
	number := func(s []byte, bits int, signed bool) string {
		if string(s) == "null" {
			return ""
		}
		var x interface{}
		if signed {
			x = map[int]interface{}{8: new(int8), 16: new(int16), 32: new(int32), 64: new(int64)}[bits]
		} else {
			x = map[int]interface{}{8: new(uint8), 16: new(uint16), 32: new(uint32), 64: new(uint64)}[bits]
		}
		if err := json.Unmarshal(s, x); err != nil {
			return "integer out of range or malformed"
		}
		return ""
	}
	switch t.Kind() {
	case reflect.Bool:
		if k != 't' && k != 'f' {
			return "not a boolean"
		}
	case reflect.String:
		if k != '"' {
			return "not a string"
		}
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64:
		if k != '"' {
			return "64-bit integer without quotes"
		}
		if s := raw[1 : len(raw)-1]; len(s) == 0 || (s[0] != '-' && (s[0] < '0' || s[0] > '9')) || s[len(s)-1] < '0' || s[len(s)-1] > '9' {
			return "64-bit integer malformed"
		}
		return number(raw[1:len(raw)-1], 64, t.Kind() == reflect.Int || t.Kind() == reflect.Int64)
	case reflect.Int8, reflect.Int16, reflect.Int32:
		return number(raw, t.Bits(), true)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32:
		return number(raw, t.Bits(), false)
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			if k == '[' && t.Elem() == reflect.TypeOf(byte(0)) && t.Kind() == reflect.Slice {
				return "" // encoding/json reads lists of numbers, too
			}
			if k == '[' {
				return ""
			}
			var s string
			if json.Unmarshal(raw, &s) != nil {
				return "bytes not a string"
			}
			d, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				return "bytes not base64"
			}
			if t.Kind() == reflect.Array && len(d) != t.Len() {
				return "wrong number of bytes"
			}
			return ""
		}
		var es []json.RawMessage
		if json.Unmarshal(raw, &es) != nil {
			return "not a list"
		}
		if t.Kind() == reflect.Array && len(es) != t.Len() {
			return "wrong number of elements"
		}
		for i, e := range es {
			if s := refJSONBad(t.Elem(), e, o); s != "" {
				return fmt.Sprintf("[%d]: %s", i, s)
			}
		}
	case reflect.Map:
		var es map[string]json.RawMessage
		if json.Unmarshal(raw, &es) != nil {
			return "not an object"
		}
		for i, e := range es {
			if s := refJSONBad(t.Elem(), e, o); s != "" {
				return fmt.Sprintf("[%q]: %s", i, s)
			}
		}
	case reflect.Struct:
		var es map[string]json.RawMessage
		if json.Unmarshal(raw, &es) != nil {
			return "not an object"
		}
		for _, f := range fieldsOf(t) {
			if e, ok := es[f.json]; ok {
				if s := refJSONBad(f.typ, e, f); s != "" {
					return fmt.Sprintf("%s: %s", f.json, s)
				}
			}
		}
	case reflect.Interface:
		ri, data, why := refUnwrap(raw)
		if why != "" {
			return why
		}
		if !reflect.PtrTo(ri.t).Implements(t) {
			return "does not implement"
		}
		return refJSONBad(ri.t, data, o)
	case reflect.Float32, reflect.Float64:
		if !o.unsafe {
			return "float"
		}
		if k == '"' || k == '{' || k == '[' || k == 't' || k == 'f' {
			return "not a number"
		}
	}
	return ""
}

func refUnwrap(raw []byte) (*regInfo, []byte, string) {
	var w struct {
		Type  string          `json:"type"`
		Value json.RawMessage `json:"value"`
	}
	if json.Unmarshal(raw, &w) != nil {
		return nil, nil, "not wrapped"
	}
	if w.Type == "" || len(w.Value) == 0 {
		return nil, nil, "no type or value"
	}
	for _, ri := range theRef.order {
		if ri.name == w.Type {
			return ri, w.Value, ""
		}
	}
	return nil, nil, "unregistered name"
}

func refJSONBadRoot(t reflect.Type, raw []byte) string {
	if ri := theRef.conc[deref(t)]; ri != nil {
		x, data, why := refUnwrap(bytes.TrimSpace(raw))
		if why != "" {
			return why
		}
		if x != ri {
			return "another registered type"
		}
		raw = data
	}
	return refJSONBad(t, raw, fopt{})
}

func init() {
	props["C12"] = []check{
		{"roundtrip", func(c *C) {
			v, ref := c.jsonValue()
			t := v.Type()
			b := c.marshalJSON(theCdc, v.Interface())
			want := canon(v, false)
			c.distinct(t, want)
			got := reflect.New(t)
			if err := c.unmarshalJSON(theCdc, b, got.Interface()); err != nil {
				c.failf("%s (reference %s) does not decode: %v", b, ref, err)
			}
			if g := canon(got.Elem(), false); g != want {
				c.failf("round trip through %s: got %s, want %s", b, g, want)
			}
			// indented, through pointers, on another codec
			p := reflect.New(t)
			p.Elem().Set(v)
			ind, err := otherCdc.MarshalJSONIndent(p.Interface(), " ", "\t")
			if err != nil {
				c.failf("MarshalJSONIndent: %v", err)
			}
			var w bytes.Buffer
			if json.Indent(&w, b, " ", "\t") != nil || !bytes.Equal(w.Bytes(), ind) {
				c.failf("MarshalJSONIndent gives %q for %q", ind, b)
			}
			pp := reflect.New(reflect.PtrTo(reflect.PtrTo(t)))
			if err := c.unmarshalJSON(otherCdc, b, pp.Interface()); err != nil {
				c.failf("%s does not decode into a **%v: %v", b, t, err)
			}
			if dv, ok := derefV(pp.Elem()); ok {
				if g := canon(dv, false); g != want {
					c.failf("round trip into a nil pointer: got %s, want %s", g, want)
				}
			} else if string(b) != "null" && !strings.HasSuffix(string(b), `"value":null}`) {
				c.failf("round trip of %s into a nil pointer leaves it nil", want)
			}
		}, 30000},
		{"interface", func(c *C) {
			c.json = true
			it := []reflect.Type{ifaceT, iface2T, ifaceAT}[c.r.Intn(3)]
			iv := c.concrete(it, 3)
			if iv.Kind() == reflect.Interface {
				return
			}
			w := reflect.New(it).Elem()
			w.Set(iv)
			if _, err := theRef.json(w, fopt{}, nil); err != nil {
				return
			}
			c.note("registered %v into %v: %s", iv.Type(), it, short(w))
			b := c.marshalJSON(theCdc, iv.Interface())
			got := reflect.New(it)
			if err := c.unmarshalJSON(theCdc, b, got.Interface()); err != nil {
				c.failf("%s does not decode into %v: %v", b, it, err)
			}
			want := canon(w, false)
			c.distinct(want)
			if strings.HasSuffix(string(b), `"value":null}`) {
				return // a null slice decodes to the zero value
			}
			if g := canon(got.Elem(), false); g != want {
				c.failf("via interface %v, %s: got %s, want %s", it, b, g, want)
			}
		}, 10000},
		{"malformed", func(c *C) {
			v, ref := c.jsonValue()
			t := v.Type()
			in := c.mutateJSON([]byte(ref))
			c.note("input %q", in)
			got := reflect.New(t)
			err := c.unmarshalJSON(theCdc, in, got.Interface())
			c.distinct(t, string(in))
			if err != nil {
				return
			}
			if !json.Valid(in) {
				c.failf("invalid JSON %q is accepted for %v", in, t)
				return
			}
			if why := refJSONBadRoot(t, in); why != "" && !strings.Contains(why, "\x00") {
				c.failf("%q is accepted for %v: %s", in, t, why)
			}
			// what was accepted is encoded and read back
			b2 := []byte(nil)
			if p := try(func() { b2, err = theCdc.MarshalJSON(got.Elem().Interface()) }); p != nil || err != nil {
				return // e.g. a float out of the range JSON can hold
			}
			got2 := reflect.New(t)
			if err := c.unmarshalJSON(theCdc, b2, got2.Interface()); err != nil {
				c.failf("%q is accepted, but what it gives does not round trip (%q): %v", in, b2, err)
			}
			if x, y := canon(got.Elem(), false), canon(got2.Elem(), false); x != y {
				c.failf("%q decodes to %s, whose encoding %q decodes to %s", in, x, b2, y)
			}
		}, 60000},
		{"random", func(c *C) {
			c.json = true
			t := c.rootT()
			in := c.bytes()
			if c.pick(2) {
				in = c.mutateJSON(nil)
			}
			c.note("%v from %q", t, in)
			c.distinct(t, string(in))
			err := c.unmarshalJSON(theCdc, in, reflect.New(t).Interface())
			if err == nil && !json.Valid(in) {
				c.failf("invalid JSON %q is accepted for %v", in, t)
			}
		}, 20000},
		{"wrong", func(c *C) {
			cases := []struct {
				t  interface{}
				in string
			}{
				{true, `1`}, {true, `"true"`}, {true, `[]`}, {int8(0), `128`}, {int8(0), `-129`}, {int8(0), `1.5`}, {int8(0), `"1"`}, {uint8(0), `256`}, {uint8(0), `-1`},
				{int16(0), `32768`}, {uint16(0), `65536`}, {int32(0), `2147483648`}, {uint32(0), `4294967296`}, {uint32(0), `"5"`},
				{int64(0), `5`}, {int64(0), `"9223372036854775808"`}, {int64(0), `"x"`}, {int64(0), `""`}, {int64(0), `"null"`}, {uint64(0), `" 5"`}, {int64(0), `"5 "`}, {int64(0), `"+5"`}, {int64(0), `"-"`}, {uint64(0), "\"\n5\""}, {int64(0), `"1.5"`}, {uint64(0), `"-1"`}, {uint64(0), `"18446744073709551616"`},
				{int(0), `5`}, {uint(0), `5`}, {int(0), `"5`}, {int(0), `"`}, {int(0), `5"`}, {"", `5`}, {"", `{}`}, {"", `"a`},
				{[]int{}, `{}`}, {[]int{}, `"1"`}, {[]int{}, `["1",2]`}, {[2]int{}, `["1"]`}, {[2]int{}, `["1","2","3"]`}, {[2]int{}, `[]`}, {[0]int{}, `["1"]`},
				{[]byte{}, `"!"`}, {[]byte{}, `5`}, {[]byte{}, `"A"`}, {[4]byte{}, `"AAAA"`}, {[4]byte{}, `"AAAAAAA="`}, {[4]byte{}, `""`}, {[4]byte{}, `5`}, {NByteAr{}, `"AAAA"`},
				{time.Time{}, `5`}, {time.Time{}, `"x"`}, {time.Time{}, `"2020-01-01T00:00:00+01:00"`}, {time.Time{}, `"2020-13-01T00:00:00Z"`}, {time.Time{}, `{}`}, {time.Time{}, `"Z`},
				{Sub{}, `[]`}, {Sub{}, `5`}, {Sub{}, `"x"`}, {Sub{}, `{"A":5}`}, {Sub{}, `{"B":5}`}, {Sub{}, `{"A":"5"`}, {&Sub{}, `{"A":5}`}, {[]*Sub{}, `[{"A":5}]`},
				{CStruct{}, `{}`}, {CStruct{}, `{"A":"5"}`}, {CStruct{}, `{"type":"zoo/CInt","value":{}}`}, {CStruct{}, `{"type":"zoo/CStruct"}`}, {CStruct{}, `{"value":{}}`}, {CStruct{}, `null`},
				{Ifaces{}, `{"A":{}}`}, {Ifaces{}, `{"A":5}`}, {Ifaces{}, `{"A":{"type":"nobody","value":{}}}`}, {Ifaces{}, `{"A":{"type":"zoo/CStruct"}}`}, {Ifaces{}, `{"A":{"type":"","value":{}}}`},
				{Ifaces{}, `{"C":{"type":"zoo/CInt","value":"5"}}`}, {Ifaces{}, `{"A":{"type":"zoo/CInt","value":5}}`}, {Ifaces{}, `{"B":[{"value":{}}]}`},
				{Floats{}, `{"A":"1.5"}`}, {Floats{}, `{"A":1e60}`}, {Floats{}, `{"C":[1,"x"]}`}, {JMaps{}, `{"A":{"x":5}}`}, {JMaps{}, `{"A":[]}`}, {JMaps{}, `{"C":{"x":5}}`},
				{ReprStr{}, `5`}, {ReprStr{}, `"zz"`}, {ReprSt{}, `[]`}, {ReprInt(0), `5`},
			}
			k := cases[c.r.Intn(len(cases))]
			t := reflect.TypeOf(k.t)
			in := k.in
			// plainly, or inside something else
			reg := theRef.conc[deref(t)] != nil
			switch c.r.Intn(4) {
			case 1:
				if !reg {
					t, in = reflect.SliceOf(t), "["+in+"]"
					if t.Elem().Kind() == reflect.Uint8 {
						t = reflect.SliceOf(k2())
						in = `[300]`
					}
				}
			case 2:
				if !reg {
					t, in = reflect.StructOf([]reflect.StructField{{Name: "X", Type: t, Tag: `json:"x,omitempty" amino:"unsafe"`}}), `{"x":`+in+`}`
				}
			case 3:
				if !reg {
					t, in = reflect.MapOf(reflect.TypeOf(""), t), `{"k":`+in+`}`
				}
			}
			c.note("%v from %s", t, in)
			c.distinct(t, in)
			if err := c.unmarshalJSON(theCdc, []byte(in), reflect.New(t).Interface()); err == nil {
				c.failf("%s is accepted for %v", in, t)
			}
		}, 4000},
	}
	props["C13"] = []check{
		{"form", func(c *C) {
			v, ref := c.jsonValue()
			t := v.Type()
			before := exactDump(v)
			b := c.marshalJSON(theCdc, v.Interface())
			c.distinct(t, ref)
			if string(b) != ref {
				c.failf("%v %s encodes as %s, the documented form is %s", t, short(v), b, ref)
			}
			if !json.Valid(b) {
				c.failf("not valid JSON: %q", b)
			}
			p := reflect.New(t)
			p.Elem().Set(v)
			pp := reflect.New(p.Type())
			pp.Elem().Set(p)
			for _, x := range []interface{}{p.Interface(), pp.Interface(), v.Interface()} {
				if b2 := c.marshalJSON(otherCdc, x); !bytes.Equal(b2, b) {
					c.failf("%T encodes as %s, another time as %s", x, b2, b)
				}
			}
			if exactDump(v) != before {
				c.failf("encoding modified the value: %s to %s", before, exactDump(v))
			}
		}, 40000},
		{"fixed", func(c *C) {
			one, two := 1, "x"
			big := map[string]int{}
			for i := 0; i < 12; i++ {
				big[string(rune('a'+(i*7)%26))] = i
			}
			cases := []struct {
				v    interface{}
				want string
			}{
				{nil, `null`}, {(*int)(nil), `null`}, {[]int(nil), `null`}, {[]int{}, `[]`}, {[]byte(nil), `null`}, {[]byte{}, `""`}, {[]byte{1, 2}, `"AQI="`}, {[3]byte{1}, `"AQAA"`},
				{int64(-5), `"-5"`}, {uint64(1<<64 - 1), `"18446744073709551615"`}, {int(7), `"7"`}, {uint(7), `"7"`}, {int32(-7), `-7`}, {int16(7), `7`}, {int8(-7), `-7`}, {uint8(7), `7`}, {uint16(7), `7`}, {uint32(7), `7`},
				{true, `true`}, {"a\"b", `"a\"b"`}, {time.Date(2020, 1, 2, 3, 4, 5, 60, time.FixedZone("", 3600)), `"2020-01-02T02:04:05.00000006Z"`}, {time.Unix(0, 0), `"1970-01-01T00:00:00Z"`},
				{&one, `"1"`}, {[]*string{&two, nil}, `["x",null]`}, {Sub{1, "b"}, `{"A":"1","B":"b"}`}, {OmitAll{}, `{"h":"0001-01-01T00:00:00Z","o":""}`},
				{CStruct{A: 1}, `{"type":"zoo/CStruct","value":{"A":"1","B":"","C":null}}`}, {CInt(3), `{"type":"zoo/CInt","value":"3"}`},
				{struct{ I Iface }{CStr("x")}, `{"I":{"type":"zoo/CStr","value":"x"}}`}, {struct{ I Iface }{}, `{"I":null}`},
				{map[string]int{"b": 1, "a": 2, "": 3}, `{"":"3","a":"2","b":"1"}`}, {map[string]int(nil), `{}`},
				{struct {
					A int     `json:"-"`
					B float64 `amino:"unsafe"`
					C int     `json:"c,omitempty"`
				}{1, 0.5, 0}, `{"B":0.5}`},
				{ReprStr{"x"}, `"78"`}, {[]ReprInt{4}, `["4"]`},
			}
			k := cases[c.idx%len(cases)]
			c.note("%T %v", k.v, k.v)
			c.distinct(k.want)
			got := string(c.marshalJSON(theCdc, k.v))
			if _, ok := k.v.(OmitAll); ok {
				if s, _ := theRef.jsonRoot(reflect.ValueOf(k.v)); got != s {
					c.failf("%T: %s, want %s", k.v, got, s)
				}
			} else if got != k.want {
				c.failf("%T %v: %s, want %s", k.v, k.v, got, k.want)
			}
			// interfaces that include json.Marshaler are interfaces like others
			jc := amino.NewCodec()
			jc.RegisterInterface((*JIface)(nil), nil)
			jc.RegisterConcrete(JMars{}, "zoo/JMars", nil)
			for _, x := range []struct {
				v    JIHolder
				want string
			}{{JIHolder{}, `{"X":null,"Y":{}}`}, {JIHolder{X: JMars{3}, Y: map[string]JIface{"k": JMars{4}, "n": nil}},
				`{"X":{"type":"zoo/JMars","value":{"v":3}},"Y":{"k":{"type":"zoo/JMars","value":{"v":4}},"n":null}}`}} {
				for _, v := range []interface{}{x.v, &x.v} {
					if s := string(c.marshalJSON(jc, v)); s != x.want {
						c.failf("%T %+v: %s, want %s", v, x.v, s, x.want)
					}
				}
			}
			s := string(c.marshalJSON(theCdc, big))
			if want, _ := theRef.jsonRoot(reflect.ValueOf(big)); s != want {
				c.failf("%s, want %s", s, want)
			}
		}, 400},
	}
}

func k2() reflect.Type { return reflect.TypeOf(int8(0)) }
