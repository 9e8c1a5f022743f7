package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	amino "github.com/tendermint/go-amino"
)

type primDec struct {
	name string
	f    func([]byte) (int, error)
	val  func([]byte) (interface{}, int, error)
}

var primDecoders = []primDec{}

func addDec(name string, f func([]byte) (interface{}, int, error)) {
	primDecoders = append(primDecoders, primDec{name, func(b []byte) (int, error) { _, n, err := f(b); return n, err }, f})
}

func init() {
	addDec("DecodeInt8", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeInt8(b)) })
	addDec("DecodeInt16", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeInt16(b)) })
	addDec("DecodeInt32", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeInt32(b)) })
	addDec("DecodeInt64", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeInt64(b)) })
	addDec("DecodeVarint", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeVarint(b)) })
	addDec("DecodeByte", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeByte(b)) })
	addDec("DecodeUint8", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeUint8(b)) })
	addDec("DecodeUint16", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeUint16(b)) })
	addDec("DecodeUint32", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeUint32(b)) })
	addDec("DecodeUint64", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeUint64(b)) })
	addDec("DecodeUvarint", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeUvarint(b)) })
	addDec("DecodeBool", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeBool(b)) })
	addDec("DecodeFloat32", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeFloat32(b)) })
	addDec("DecodeFloat64", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeFloat64(b)) })
	addDec("DecodeTime", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeTime(b)) })
	addDec("DecodeByteSlice", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeByteSlice(b)) })
	addDec("DecodeString", func(b []byte) (interface{}, int, error) { return tri(amino.DecodeString(b)) })
	addDec("DecodeDisambPrefixBytes", func(b []byte) (interface{}, int, error) {
		db, hd, pb, hp, n, err := amino.DecodeDisambPrefixBytes(b)
		return fmt.Sprint(db, hd, pb, hp), n, err
	})
}

func tri(v interface{}, n int, err error) (interface{}, int, error) { return v, n, err }

// bytes for the primitive decoders: mostly varints, some near the limits
func (c *C) primBytes() []byte {
	var b []byte
	switch c.r.Intn(6) {
	case 0:
		b = make([]byte, c.r.Intn(14))
		c.r.Read(b)
	case 1:
		b = longVarint(uint64(c.int()), c.r.Intn(10))
	case 2:
		b = append(bytes.Repeat([]byte{byte(0x80 | c.r.Intn(128))}, c.r.Intn(12)), byte(c.r.Intn(4)))
	case 3:
		b = lenPrefixed(c.bytes())
		if c.pick(3) && len(b) > 0 {
			b = b[:c.r.Intn(len(b))]
		}
	case 4:
		b = uv(uint64(1)<<uint(c.r.Intn(64)) - uint64(c.r.Intn(3)))
	case 5:
		b = append([]byte{8}, uv(uint64(c.int()))...)
		if c.pick(2) {
			b = append(append(b, 16), uv(uint64(c.int()))...)
		}
	}
	for i := c.r.Intn(4); i > 0; i-- {
		b = append(b, []byte{0, 1, 8, 0x10, 0x7f, 0x80, 0xff}[c.r.Intn(7)])
	}
	return b
}

// what each decoder should return; ok=false for an error
func refPrim(name string, b []byte) (v interface{}, n int, ok bool) {
	u, un, uerr := rdUv(b)
	zz := int64(u>>1) ^ -int64(u&1)
	good := uerr == nil
	switch name {
	case "DecodeInt8":
		return int8(zz), un, good && zz == int64(int8(zz))
	case "DecodeInt16":
		return int16(zz), un, good && zz == int64(int16(zz))
	case "DecodeVarint":
		return zz, un, good
	case "DecodeByte", "DecodeUint8":
		return uint8(u), un, good && u <= math.MaxUint8
	case "DecodeUint16":
		return uint16(u), un, good && u <= math.MaxUint16
	case "DecodeUvarint":
		return u, un, good
	case "DecodeInt32":
		x, n, err := rdFixed(b, 4)
		return int32(x), n, err == nil
	case "DecodeUint32":
		x, n, err := rdFixed(b, 4)
		return uint32(x), n, err == nil
	case "DecodeInt64":
		x, n, err := rdFixed(b, 8)
		return int64(x), n, err == nil
	case "DecodeUint64":
		x, n, err := rdFixed(b, 8)
		return x, n, err == nil
	case "DecodeFloat32":
		x, n, err := rdFixed(b, 4)
		return math.Float32frombits(uint32(x)), n, err == nil
	case "DecodeFloat64":
		x, n, err := rdFixed(b, 8)
		return math.Float64frombits(x), n, err == nil
	case "DecodeBool":
		return len(b) > 0 && b[0] == 1, 1, len(b) > 0 && b[0] <= 1
	case "DecodeByteSlice":
		x, n, err := rdBytes(b)
		return append([]byte{}, x...), n, err == nil
	case "DecodeString":
		x, n, err := rdBytes(b)
		return string(x), n, err == nil
	}
	panic(name)
}

func sameV(a, b interface{}) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	}
	return a == b
}

type primEnc struct {
	dec  string
	enc  func(w io.Writer) error
	v    interface{}
	b    []byte
	size func() int
}

func (c *C) primEnc() primEnc {
	i := c.int()
	if c.pick(3) { // around the powers of two
		i = int64(uint64(1)<<uint(c.r.Intn(64)) + uint64(c.r.Intn(5)) - 2)
		if c.pick(2) {
			i = -i
		}
	}
	u := uint64(i)
	switch c.r.Intn(16) {
	case 0:
		return primEnc{"DecodeInt8", func(w io.Writer) error { return amino.EncodeInt8(w, int8(i)) }, int8(i), uv(zigzag(int64(int8(i)))), nil}
	case 1:
		return primEnc{"DecodeInt16", func(w io.Writer) error { return amino.EncodeInt16(w, int16(i)) }, int16(i), uv(zigzag(int64(int16(i)))), nil}
	case 2:
		return primEnc{"DecodeInt32", func(w io.Writer) error { return amino.EncodeInt32(w, int32(i)) }, int32(i), le(u, 4), nil}
	case 3:
		return primEnc{"DecodeInt64", func(w io.Writer) error { return amino.EncodeInt64(w, i) }, i, le(u, 8), nil}
	case 4:
		return primEnc{"DecodeVarint", func(w io.Writer) error { return amino.EncodeVarint(w, i) }, i, uv(zigzag(i)), func() int { return amino.VarintSize(i) }}
	case 5:
		return primEnc{"DecodeByte", func(w io.Writer) error { return amino.EncodeByte(w, byte(i)) }, byte(i), uv(u & 255), nil}
	case 6:
		return primEnc{"DecodeUint8", func(w io.Writer) error { return amino.EncodeUint8(w, byte(i)) }, byte(i), uv(u & 255), nil}
	case 7:
		return primEnc{"DecodeUint16", func(w io.Writer) error { return amino.EncodeUint16(w, uint16(i)) }, uint16(i), uv(u & 65535), nil}
	case 8:
		return primEnc{"DecodeUint32", func(w io.Writer) error { return amino.EncodeUint32(w, uint32(i)) }, uint32(i), le(u, 4), nil}
	case 9:
		return primEnc{"DecodeUint64", func(w io.Writer) error { return amino.EncodeUint64(w, u) }, u, le(u, 8), nil}
	case 10:
		return primEnc{"DecodeUvarint", func(w io.Writer) error { return amino.EncodeUvarint(w, u) }, u, uv(u), func() int { return amino.UvarintSize(u) }}
	case 11:
		return primEnc{"DecodeBool", func(w io.Writer) error { return amino.EncodeBool(w, u&1 == 1) }, u&1 == 1, []byte{byte(u & 1)}, nil}
	case 12:
		f := float32(c.float())
		if c.pick(3) {
			f = math.Float32frombits(uint32(u))
		}
		return primEnc{"DecodeFloat32", func(w io.Writer) error { return amino.EncodeFloat32(w, f) }, f, le(uint64(math.Float32bits(f)), 4), nil}
	case 13:
		f := c.float()
		if c.pick(3) {
			f = math.Float64frombits(u)
		}
		return primEnc{"DecodeFloat64", func(w io.Writer) error { return amino.EncodeFloat64(w, f) }, f, le(math.Float64bits(f), 8), nil}
	case 14:
		b := c.bytes()
		if c.pick(40) {
			b = make([]byte, 1<<14+c.r.Intn(3)-1)
		}
		if c.pick(10) {
			b = nil
		}
		return primEnc{"DecodeByteSlice", func(w io.Writer) error { return amino.EncodeByteSlice(w, b) }, append([]byte{}, b...), lenPrefixed(b), func() int { return amino.ByteSliceSize(b) }}
	}
	s := string(c.bytes())
	return primEnc{"DecodeString", func(w io.Writer) error { return amino.EncodeString(w, s) }, s, lenPrefixed([]byte(s)), nil}
}

func decOf(name string) primDec {
	for _, d := range primDecoders {
		if d.name == name {
			return d
		}
	}
	panic(name)
}

// ---- writers and readers that misbehave ----

var errIO = errors.New("i/o error marker")

// fails once at bytes have been taken; the failing Write takes what fits
type failWriter struct {
	at    int
	buf   bytes.Buffer
	err   bool
	calls int
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.err {
		return 0, errIO
	}
	if w.buf.Len()+len(p) > w.at {
		n := w.at - w.buf.Len()
		w.buf.Write(p[:n])
		w.err = true
		return n, errIO
	}
	w.buf.Write(p)
	return len(p), nil
}

// failCallWriter fails its k-th call only; calls after it succeed.
type failCallWriter struct {
	k, n   int
	failed bool
	buf    bytes.Buffer
}

func (w *failCallWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n-1 == w.k {
		w.failed = true
		return 0, errIO
	}
	return w.buf.Write(p)
}

type sliceReader struct {
	c        *C
	b        []byte
	n        int
	eofWith  bool // return io.EOF together with the last bytes
	failAt   int  // -1: never
	oneByte  bool
	zeroes   int // reads returning 0, nil
	consumed int
}

func (r *sliceReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.zeroes > 0 && r.c.pick(3) {
		r.zeroes--
		return 0, nil
	}
	if r.failAt >= 0 && r.consumed >= r.failAt {
		return 0, errIO
	}
	if r.consumed == len(r.b) {
		return 0, io.EOF
	}
	n := len(p)
	if m := len(r.b) - r.consumed; n > m {
		n = m
	}
	if r.failAt >= 0 && r.consumed+n > r.failAt {
		n = r.failAt - r.consumed
	}
	if r.oneByte {
		n = 1
	} else if r.c.pick(2) && n > 1 {
		n = 1 + r.c.r.Intn(n)
	}
	copy(p, r.b[r.consumed:r.consumed+n])
	r.consumed += n
	if r.eofWith && r.consumed == len(r.b) {
		return n, io.EOF
	}
	return n, nil
}

func init() {
	props["C08"] = []check{
		{"encode", func(c *C) {
			p := c.primEnc()
			c.note("%s: %v", p.dec, p.v)
			c.distinct(p.dec, p.v)
			var buf bytes.Buffer
			pre := c.bytes()
			buf.Write(pre)
			if err := p.enc(&buf); err != nil {
				c.failf("encoding %v for %s fails: %v", p.v, p.dec, err)
			}
			if !bytes.Equal(buf.Bytes(), append(append([]byte{}, pre...), p.b...)) {
				c.failf("encoding %v for %s after %X gives %X, want %X appended", p.v, p.dec, pre, buf.Bytes(), p.b)
			}
			if p.size != nil {
				if n := p.size(); n != len(p.b) {
					c.failf("size of %v is %d, want %d", p.v, n, len(p.b))
				}
			}
			in := append(append([]byte{}, p.b...), c.bytes()...)
			keep := append([]byte{}, in...)
			v, n, err := decOf(p.dec).val(in)
			if err != nil || n != len(p.b) || !sameV(v, p.v) {
				c.failf("%s of %X gives %v, %d, %v; want %v, %d", p.dec, in, v, n, err, p.v, len(p.b))
			}
			if !bytes.Equal(in, keep) {
				c.failf("%s modifies its input", p.dec)
			}
			if b, ok := v.([]byte); ok {
				for i := range in {
					in[i] ^= 0xff
				}
				if !bytes.Equal(b, p.v.([]byte)) {
					c.failf("DecodeByteSlice aliases its input")
				}
			}
			// truncated
			if len(p.b) > 0 {
				k := c.r.Intn(len(p.b))
				if v, n, err := decOf(p.dec).val(p.b[:k:k]); err == nil {
					c.failf("%s of the truncated %X gives %v, %d", p.dec, p.b[:k], v, n)
				}
			}
		}, 250000},
		{"decode", func(c *C) {
			b := c.primBytes()
			c.note("bytes %X", b)
			c.distinct(string(b))
			for _, d := range primDecoders {
				if d.name == "DecodeTime" || d.name == "DecodeDisambPrefixBytes" {
					continue
				}
				v, n, ok := refPrim(d.name, b)
				var gv interface{}
				var gn int
				var err error
				if p := try(func() { gv, gn, err = d.val(b) }); p != nil {
					c.failf("%s of %X panics: %v", d.name, b, p)
				}
				if ok != (err == nil) || ok && (gn != n || !sameV(gv, v)) {
					c.failf("%s of %X gives %v, %d, %v; want %v, %d, ok=%v", d.name, b, gv, gn, err, v, n, ok)
				}
				if gn < 0 || gn > len(b) {
					c.failf("%s of %X consumes %d bytes", d.name, b, gn)
				}
			}
		}, 100000},
	}
	props["C11"] = []check{
		{"encode", func(c *C) {
			t := c.time()
			if c.pick(4) { // out of range, also far
				s := []int64{minSec - 1, maxSec, math.MaxInt64 - 62135596800, math.MinInt64 + 62135596800, minSec - int64(c.r.Intn(1e9)) - 1, maxSec + int64(c.r.Intn(1e9))}[c.r.Intn(6)]
				t = time.Unix(s, c.r.Int63n(1e9)).UTC()
			}
			if c.pick(30) {
				t = time.Time{}
			}
			if c.pick(30) {
				t = time.Now() // with a monotonic reading
			}
			if c.pick(8) { // zone pushes the local year over the limits
				t = t.In(time.FixedZone("z", (c.r.Intn(29)-14)*3600))
			}
			c.note("time %v (%d.%09d)", t, t.Unix(), t.Nanosecond())
			c.distinct(t.UnixNano(), t.Unix())
			want, werr := refTime(t)
			var buf bytes.Buffer
			var err error
			if p := try(func() { err = amino.EncodeTime(&buf, t) }); p != nil {
				c.failf("EncodeTime panics: %v", p)
			}
			if (err == nil) != (werr == nil) {
				c.failf("EncodeTime of %v (seconds %d): error %v, want %v", t, t.Unix(), err, werr)
			}
			mb, merr := amino.MarshalBinaryBare(t)
			st := struct{ T time.Time }{t}
			sb, serr := amino.MarshalBinaryBare(st)
			if (merr == nil) != (werr == nil) || (serr == nil) != (werr == nil) {
				c.failf("marshalling %v: errors %v, %v, want %v", t, merr, serr, werr)
			}
			if werr != nil {
				return
			}
			if !bytes.Equal(buf.Bytes(), want) || !bytes.Equal(mb, want) {
				c.failf("%v encodes as %X and %X, want %X", t, buf.Bytes(), mb, want)
			}
			wantS := []byte{}
			if len(want) > 0 {
				wantS = append([]byte{10}, lenPrefixed(want)...)
			}
			if !bytes.Equal(sb, wantS) {
				c.failf("%v in a struct encodes as %X, want %X", t, sb, wantS)
			}
			var g, gs time.Time
			g, n, err := amino.DecodeTime(want)
			if err != nil || n != len(want) || !g.Equal(t) || g.Location() != time.UTC {
				c.failf("%v reads back as %v, %d, %v", t, g, n, err)
			}
			var st2 struct{ T time.Time }
			if err := amino.UnmarshalBinaryBare(sb, &st2); err != nil || !st2.T.Equal(t) || st2.T.Location() != time.UTC {
				c.failf("%v in a struct reads back as %v, %v", t, st2.T, err)
			}
			if err := amino.UnmarshalBinaryBare(mb, &gs); err != nil || !gs.Equal(t) || gs.Location() != time.UTC {
				c.failf("%v reads back as %v, %v", t, gs, err)
			}
		}, 80000},
		{"decode", func(c *C) {
			var b []byte
			sec := func() uint64 {
				return uint64([]int64{0, 1, -1, minSec, minSec - 1, maxSec, maxSec - 1, math.MaxInt64, math.MinInt64, c.int(), minSec + c.r.Int63n(maxSec-minSec)}[c.r.Intn(11)])
			}
			ns := func() uint64 {
				return uint64([]int64{0, 1, -1, 999999999, 1000000000, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 5, -1 << 31, c.int(), c.r.Int63n(1000000000)}[c.r.Intn(12)])
			}
			if !c.pick(4) {
				b = append(append(b, 8), longVarint(sec(), c.r.Intn(3))...)
			}
			if !c.pick(3) {
				b = append(append(b, 16), longVarint(ns(), c.r.Intn(3))...)
			}
			for i := c.r.Intn(6) - 4; i > 0; i-- {
				b = c.mutateRaw(b)
			}
			if c.pick(8) {
				b = c.mutateTree(b, 0)
			}
			c.note("%X", b)
			c.distinct(string(b))
			w := reflect.New(timeT).Elem()
			werr := decTime(b, w)
			var g time.Time
			var err error
			if p := try(func() { err = amino.UnmarshalBinaryBare(b, &g) }); p != nil {
				c.failf("panics: %v", p)
			}
			if (err == nil) != (werr == nil) {
				c.failf("%X as a time: %v, want %v", b, err, werr)
			}
			if err == nil && (!g.Equal(w.Interface().(time.Time)) || g.Location() != time.UTC) {
				c.failf("%X as a time gives %v, want %v", b, g, w)
			}
			var st struct {
				T time.Time
				P *time.Time
				L []time.Time
			}
			f := lenPrefixed(b)
			sb := append([]byte{0x0a}, f...)
			sb = append(append(sb, 0x12), f...)
			sb = append(append(sb, 0x1a), f...)
			if p := try(func() { err = amino.UnmarshalBinaryBare(sb, &st) }); p != nil {
				c.failf("panics: %v", p)
			}
			if (err == nil) != (werr == nil) {
				c.failf("%X as times in a struct: %v, want %v", sb, err, werr)
			}
			if err == nil {
				if len(st.L) != 1 || st.P == nil {
					c.failf("%X: %v", sb, st)
				}
				for _, g := range []time.Time{st.T, *st.P, st.L[0]} {
					if !g.Equal(w.Interface().(time.Time)) || g.Location() != time.UTC {
						c.failf("%X as times in a struct gives %v, want %v", sb, g, w)
					}
				}
			}
			// DecodeTime reads at most the two fields
			if p := try(func() {
				g, n, err := amino.DecodeTime(b)
				if n < 0 || n > len(b) {
					c.failf("DecodeTime consumes %d of %d", n, len(b))
				}
				if werr == nil && (err != nil || n != len(b) || !g.Equal(w.Interface().(time.Time))) {
					c.failf("DecodeTime of %X gives %v, %d, %v", b, g, n, err)
				}
			}); p != nil {
				c.failf("DecodeTime panics: %v", p)
			}
		}, 80000},
	}
	props["C07"] = []check{
		{"frame", func(c *C) {
			v, ref := c.supported()
			t := v.Type()
			c.distinct(t, string(ref))
			bare := c.marshal(theCdc, v.Interface())
			want := lenPrefixed(bare)
			b, err := theCdc.MarshalBinaryLengthPrefixed(v.Interface())
			if err != nil || !bytes.Equal(b, want) {
				c.failf("MarshalBinaryLengthPrefixed gives %X, %v; want %X", b, err, want)
			}
			if m := theCdc.MustMarshalBinaryLengthPrefixed(v.Interface()); !bytes.Equal(m, want) {
				c.failf("MustMarshalBinaryLengthPrefixed gives %X; want %X", m, want)
			}
			var buf bytes.Buffer
			n, err := theCdc.MarshalBinaryLengthPrefixedWriter(&buf, v.Interface())
			if err != nil || n != int64(len(want)) || !bytes.Equal(buf.Bytes(), want) {
				c.failf("MarshalBinaryLengthPrefixedWriter gives %X, %d, %v; want %X", buf.Bytes(), n, err, want)
			}
			// decoding of exactly one frame
			tr := func(in []byte, ok bool) {
				got := reflect.New(t)
				err := theCdc.UnmarshalBinaryLengthPrefixed(in, got.Interface())
				if (err == nil) != ok {
					c.failf("UnmarshalBinaryLengthPrefixed of %X (frame %X): %v, want ok=%v", in, want, err, ok)
				}
				if ok && canon(got.Elem(), true) != canon(v, true) {
					c.failf("UnmarshalBinaryLengthPrefixed of %X gives %s", in, short(got.Elem()))
				}
			}
			tr(want, true)
			tr(append(longVarint(uint64(len(bare)), c.r.Intn(9)), bare...), true)
			k := c.r.Intn(len(want))
			tr(want[:k], false)
			tr(append(append([]byte{}, want...), c.bytes()...)[:len(want)], true)
			tr(append(append([]byte{}, want...), byte(c.r.Intn(256))), false)
			tr(append(bytes.Repeat([]byte{0x80}, 10+c.r.Intn(3)), want...), false)
			tr(append(uv(uint64(len(bare))+1<<uint(c.r.Intn(64))), bare...), false)
		}, 12000},
		{"reader", func(c *C) {
			v, ref := c.supported()
			t := v.Type()
			frame := append(longVarint(uint64(len(ref)), []int{0, 0, 0, 1, 2, 8}[c.r.Intn(6)]), ref...)
			pl := len(frame) - len(ref)
			rest := c.bytes()
			fail := -1
			in := append(append([]byte{}, frame...), rest...)
			switch c.r.Intn(5) {
			case 0: // the reader fails inside the frame
				fail = c.r.Intn(len(frame))
			case 1: // it ends inside the frame
				in = in[:c.r.Intn(len(frame))]
			}
			maxSize := int64(0)
			switch c.r.Intn(4) {
			case 0:
				maxSize = int64(len(frame)) + int64(c.r.Intn(3)) - 1
			case 1:
				maxSize = int64(1 + c.r.Intn(len(frame)+3))
			case 2:
				maxSize = math.MaxInt64 - int64(c.r.Intn(2))
			}
			if maxSize < 0 {
				maxSize = 1
			}
			r := &sliceReader{c: c, b: in, failAt: fail, eofWith: c.pick(3), oneByte: c.pick(4), zeroes: c.r.Intn(4)}
			c.note("%X, maxSize %d, fail at %d", in, maxSize, fail)
			c.distinct(t, string(in), maxSize, fail)
			got := reflect.New(t)
			var n int64
			var err error
			if p := try(func() { n, err = theCdc.UnmarshalBinaryLengthPrefixedReader(r, got.Interface(), maxSize) }); p != nil {
				c.failf("panics: %v", p)
			}
			if maxSize > 0 && int64(r.consumed) > maxSize {
				c.failf("consumes %d bytes, more than maxSize %d", r.consumed, maxSize)
			}
			if r.consumed > len(frame) {
				c.failf("consumes %d bytes, the frame has %d", r.consumed, len(frame))
			}
			ok := fail < 0 && len(in) >= len(frame) && (maxSize == 0 || int64(len(frame)) <= maxSize)
			if (err == nil) != ok {
				c.failf("error %v, want ok=%v (frame of %d+%d bytes, maxSize %d, fail at %d, %d available)", err, ok, pl, len(ref), maxSize, fail, len(in))
			}
			if ok && (n != int64(len(frame)) || r.consumed != len(frame)) {
				c.failf("reports %d bytes, consumed %d, the frame has %d", n, r.consumed, len(frame))
			}
			if n < 0 || n > int64(r.consumed) {
				c.failf("reports %d bytes, consumed %d", n, r.consumed)
			}
			if ok {
				if g, w := canon(got.Elem(), true), canon(v, true); g != w {
					c.failf("reads %s, want %s", g, w)
				}
			}
		}, 30000},
		{"stream", func(c *C) {
			// several frames in one stream, read one after the other
			var vs []reflect.Value
			var all []byte
			var lens []int
			for i := 1 + c.r.Intn(4); i > 0; i-- {
				v, ref := c.supported()
				vs = append(vs, v)
				var buf bytes.Buffer
				theCdc.MarshalBinaryLengthPrefixedWriter(&buf, v.Interface())
				all = append(all, buf.Bytes()...)
				lens = append(lens, buf.Len())
				_ = ref
			}
			c.distinct(string(all))
			r := &sliceReader{c: c, b: all, failAt: -1, eofWith: c.pick(2), oneByte: c.pick(4), zeroes: c.r.Intn(8)}
			for i, v := range vs {
				got := reflect.New(v.Type())
				n, err := theCdc.UnmarshalBinaryLengthPrefixedReader(r, got.Interface(), int64(c.r.Intn(2)*(lens[i]+c.r.Intn(2))))
				if err != nil || n != int64(lens[i]) || canon(got.Elem(), true) != canon(v, true) {
					c.failf("frame %d of %X: %s, %d, %v; want %s, %d", i, all, short(got.Elem()), n, err, short(v), lens[i])
				}
			}
			if r.consumed != len(all) {
				c.failf("consumed %d of %d", r.consumed, len(all))
			}
			n, err := theCdc.UnmarshalBinaryLengthPrefixedReader(r, reflect.New(vs[0].Type()).Interface(), 0)
			if err == nil || n != 0 {
				c.failf("at the end: %d, %v", n, err)
			}
		}, 8000},
		{"malformed", func(c *C) {
			// arbitrary bytes: never more than maxSize, never more than one frame
			v, ref := c.supported()
			t := v.Type()
			in := c.mutateRaw(lenPrefixed(ref))
			if c.pick(3) {
				in = append(uv(uint64(1)<<uint(c.r.Intn(64))-uint64(c.r.Intn(2))), ref...)
			}
			if c.pick(5) {
				in = append(bytes.Repeat([]byte{0xff}, 8+c.r.Intn(5)), in...)
			}
			maxSize := int64(c.r.Intn(3) * (1 + c.r.Intn(len(in)+4)))
			l, ln, lerr := rdUv(in)
			r := &sliceReader{c: c, b: in, failAt: -1, oneByte: c.pick(3)}
			c.note("%X into %v, maxSize %d", in, t, maxSize)
			c.distinct(t, string(in), maxSize)
			var n int64
			var err error
			if p := try(func() {
				n, err = theCdc.UnmarshalBinaryLengthPrefixedReader(r, reflect.New(t).Interface(), maxSize)
			}); p != nil {
				c.failf("panics: %v", p)
			}
			if maxSize > 0 && int64(r.consumed) > maxSize {
				c.failf("consumes %d bytes, more than maxSize %d", r.consumed, maxSize)
			}
			if n < 0 || n > int64(r.consumed) {
				c.failf("reports %d bytes, consumed %d", n, r.consumed)
			}
			if lerr != nil && (err == nil || r.consumed > 10) {
				c.failf("malformed length: %v, consumed %d", err, r.consumed)
			}
			if lerr == nil {
				if uint64(r.consumed-ln) > l && r.consumed > ln {
					c.failf("consumes %d bytes of a frame of %d+%d", r.consumed, ln, l)
				}
				if err == nil && (uint64(len(in)-ln) < l || maxSize > 0 && uint64(ln)+l > uint64(maxSize)) {
					c.failf("accepts a frame of %d+%d bytes with %d available and maxSize %d", ln, l, len(in), maxSize)
				}
				if err == nil && theRef.decRoot(in[ln:ln+int(l)], reflect.New(t).Elem()) != nil && !errors.Is(theRef.decRoot(in[ln:ln+int(l)], reflect.New(t).Elem()), errUnsupported) && !strings.Contains(fmt.Sprint(theRef.decRoot(in[ln:ln+int(l)], reflect.New(t).Elem())), "marker") {
					c.failf("accepts a malformed body")
				}
			}
		}, 20000},
	}
	props["C16"] = []check{
		{"primitive writers", func(c *C) {
			p := c.primEnc()
			if c.pick(8) {
				t := c.time()
				b, err := refTime(t)
				if err != nil {
					return
				}
				p = primEnc{"DecodeTime", func(w io.Writer) error { return amino.EncodeTime(w, t) }, t, b, nil}
			}
			c.note("%s %v", p.dec, p.v)
			c.distinct(p.dec, p.v)
			ats := []int{0, len(p.b) / 2, len(p.b) - 1}
			for i := 0; i < len(p.b) && i < 14; i++ {
				ats = append(ats, i)
			}
			for _, at := range ats {
				if at < 0 || at >= len(p.b) {
					continue
				}
				w := &failWriter{at: at}
				if err := p.enc(w); err == nil {
					c.failf("encoding %v for %s to a writer failing after %d of %d bytes succeeds", p.v, p.dec, at, len(p.b))
				}
			}
			for k := 0; k < 8; k++ {
				w := &failCallWriter{k: k}
				err := p.enc(w)
				if w.failed && err == nil {
					c.failf("encoding %v for %s succeeds although Write %d failed", p.v, p.dec, k)
				}
				if !w.failed {
					if err != nil || !bytes.Equal(w.buf.Bytes(), p.b) {
						c.failf("encoding %v for %s: %X, %v", p.v, p.dec, w.buf.Bytes(), err)
					}
					break
				}
			}
		}, 60000},
		{"frame writer", func(c *C) {
			v, ref := c.supported()
			want := lenPrefixed(ref)
			c.distinct(v.Type(), string(ref))
			for i := 0; i < 6; i++ {
				at := c.r.Intn(len(want))
				w := &failWriter{at: at}
				n, err := theCdc.MarshalBinaryLengthPrefixedWriter(w, v.Interface())
				if err == nil {
					c.failf("MarshalBinaryLengthPrefixedWriter succeeds although the writer took %d of %d bytes", at, len(want))
				}
				if !bytes.HasPrefix(want, w.buf.Bytes()) || n < 0 || n > int64(w.buf.Len()) {
					c.failf("reports %d, wrote %X, a prefix of %X is wanted", n, w.buf.Bytes(), want)
				}
			}
			w := &failCallWriter{k: 0}
			if _, err := theCdc.MarshalBinaryLengthPrefixedWriter(w, v.Interface()); err == nil && w.failed {
				c.failf("MarshalBinaryLengthPrefixedWriter succeeds although the write failed")
			}
		}, 8000},
		{"print types", func(c *C) {
			var full bytes.Buffer
			if err := theCdc.PrintTypes(&full); err != nil {
				c.failf("%v", err)
			}
			k := c.idx
			c.distinct(k)
			w := &failCallWriter{k: k}
			err := theCdc.PrintTypes(w)
			if w.failed != (err != nil) {
				c.failf("PrintTypes: error %v with write %d failing: %v", err, k, w.failed)
			}
			at := c.r.Intn(full.Len())
			if err := theCdc.PrintTypes(&failWriter{at: at}); err == nil {
				c.failf("PrintTypes succeeds although the writer fails after %d of %d bytes", at, full.Len())
			}
		}, 300},
		{"must and package level", func(c *C) {
			v := c.anyValue()
			c.note("%v %s", v.Type(), short(v))
			c.distinct(v.Type(), short(v))
			if v.Kind() == reflect.Ptr && v.IsNil() {
				return
			}
			x := v.Interface()
			empty := amino.NewCodec().Seal()
			type out struct {
				b   []byte
				err interface{}
				p   interface{}
			}
			run := func(f func() ([]byte, error)) (o out) {
				var err error
				o.p = try(func() { o.b, err = f() })
				if err != nil {
					o.err = err.Error()
					if o.b != nil && len(o.b) > 0 {
						c.failf("returns %X together with error %v", o.b, err)
					}
				}
				return
			}
			must := func(f func() []byte) (o out) {
				o.p = try(func() { o.b = f() })
				return
			}
			cmp := func(name string, a, m out) {
				if a.p != nil { // panics by itself
					if m.p == nil {
						c.failf("%s: the counterpart panics (%v), Must does not", name, a.p)
					}
					return
				}
				if (a.err != nil) != (m.p != nil) {
					c.failf("%s: error %v, Must panics: %v", name, a.err, m.p)
				}
				if a.err == nil && !bytes.Equal(a.b, m.b) {
					c.failf("%s: %X, Must %X", name, a.b, m.b)
				}
				if a.err != nil {
					if e, ok := m.p.(error); !ok || e.Error() != a.err {
						c.failf("%s: error %v, Must panics with: %v", name, a.err, m.p)
					}
				}
			}
			same := func(name string, a, m out) {
				if (a.p == nil) != (m.p == nil) || a.err != m.err || !bytes.Equal(a.b, m.b) {
					c.failf("%s: package level %v, method of an empty sealed codec %v", name, a, m)
				}
			}
			for _, cdc := range []*amino.Codec{theCdc, empty} {
				cmp("MarshalBinaryBare", run(func() ([]byte, error) { return cdc.MarshalBinaryBare(x) }), must(func() []byte { return cdc.MustMarshalBinaryBare(x) }))
				cmp("MarshalBinaryLengthPrefixed", run(func() ([]byte, error) { return cdc.MarshalBinaryLengthPrefixed(x) }), must(func() []byte { return cdc.MustMarshalBinaryLengthPrefixed(x) }))
				cmp("MarshalJSON", run(func() ([]byte, error) { return cdc.MarshalJSON(x) }), must(func() []byte { return cdc.MustMarshalJSON(x) }))
			}
			cmp("package MarshalBinaryBare", run(func() ([]byte, error) { return amino.MarshalBinaryBare(x) }), must(func() []byte { return amino.MustMarshalBinaryBare(x) }))
			cmp("package MarshalBinaryLengthPrefixed", run(func() ([]byte, error) { return amino.MarshalBinaryLengthPrefixed(x) }), must(func() []byte { return amino.MustMarshalBinaryLengthPrefixed(x) }))
			same("MarshalBinaryBare", run(func() ([]byte, error) { return amino.MarshalBinaryBare(x) }), run(func() ([]byte, error) { return empty.MarshalBinaryBare(x) }))
			same("MarshalBinaryLengthPrefixed", run(func() ([]byte, error) { return amino.MarshalBinaryLengthPrefixed(x) }), run(func() ([]byte, error) { return empty.MarshalBinaryLengthPrefixed(x) }))
			same("MarshalJSON", run(func() ([]byte, error) { return amino.MarshalJSON(x) }), run(func() ([]byte, error) { return empty.MarshalJSON(x) }))
			same("MarshalJSONIndent", run(func() ([]byte, error) { return amino.MarshalJSONIndent(x, "p", "\t") }), run(func() ([]byte, error) { return empty.MarshalJSONIndent(x, "p", "\t") }))
			wr := func(f func(w io.Writer) (int64, error)) func() ([]byte, error) {
				return func() ([]byte, error) {
					var b bytes.Buffer
					n, err := f(&b)
					if err != nil {
						return nil, err
					}
					return append(b.Bytes(), le(uint64(n), 8)...), nil
				}
			}
			same("MarshalBinaryLengthPrefixedWriter", run(wr(func(w io.Writer) (int64, error) { return amino.MarshalBinaryLengthPrefixedWriter(w, x) })), run(wr(func(w io.Writer) (int64, error) { return empty.MarshalBinaryLengthPrefixedWriter(w, x) })))

			// decoding
			t := v.Type()
			var in, js []byte
			if b, err := theRef.encRoot(v); err == nil {
				in = b
			}
			js, _ = func() (b []byte, err error) {
				try(func() { b, err = empty.MarshalJSON(x) })
				return
			}()
			if c.pick(2) {
				in = c.mutateRaw(in)
				js = c.mutateRaw(js)
			}
			lp := lenPrefixed(in)
			if c.pick(3) {
				lp = c.mutateRaw(lp)
			}
			dec := func(f func(p interface{}) error) func() ([]byte, error) {
				return func() ([]byte, error) {
					p := reflect.New(t)
					err := f(p.Interface())
					if err != nil {
						return nil, err
					}
					return []byte(canon(p.Elem(), false)), nil
				}
			}
			mdec := func(f func(p interface{})) func() []byte {
				return func() []byte {
					p := reflect.New(t)
					f(p.Interface())
					return []byte(canon(p.Elem(), false))
				}
			}
			for _, cdc := range []*amino.Codec{theCdc, empty} {
				cmp("UnmarshalBinaryBare", run(dec(func(p interface{}) error { return cdc.UnmarshalBinaryBare(in, p) })), must(mdec(func(p interface{}) { cdc.MustUnmarshalBinaryBare(in, p) })))
				cmp("UnmarshalBinaryLengthPrefixed", run(dec(func(p interface{}) error { return cdc.UnmarshalBinaryLengthPrefixed(lp, p) })), must(mdec(func(p interface{}) { cdc.MustUnmarshalBinaryLengthPrefixed(lp, p) })))
				cmp("UnmarshalJSON", run(dec(func(p interface{}) error { return cdc.UnmarshalJSON(js, p) })), must(mdec(func(p interface{}) { cdc.MustUnmarshalJSON(js, p) })))
			}
			cmp("package UnmarshalBinaryBare", run(dec(func(p interface{}) error { return amino.UnmarshalBinaryBare(in, p) })), must(mdec(func(p interface{}) { amino.MustUnmarshalBinaryBare(in, p) })))
			cmp("package UnmarshalBinaryLengthPrefixed", run(dec(func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(lp, p) })), must(mdec(func(p interface{}) { amino.MustUnmarshalBinaryLengthPrefixed(lp, p) })))
			same("UnmarshalBinaryBare", run(dec(func(p interface{}) error { return amino.UnmarshalBinaryBare(in, p) })), run(dec(func(p interface{}) error { return empty.UnmarshalBinaryBare(in, p) })))
			same("UnmarshalBinaryLengthPrefixed", run(dec(func(p interface{}) error { return amino.UnmarshalBinaryLengthPrefixed(lp, p) })), run(dec(func(p interface{}) error { return empty.UnmarshalBinaryLengthPrefixed(lp, p) })))
			same("UnmarshalJSON", run(dec(func(p interface{}) error { return amino.UnmarshalJSON(js, p) })), run(dec(func(p interface{}) error { return empty.UnmarshalJSON(js, p) })))
			ms := int64(c.r.Intn(3) * c.r.Intn(len(lp)+2))
			rd := func(f func(r io.Reader, p interface{}) (int64, error)) func() ([]byte, error) {
				return dec(func(p interface{}) error {
					n, err := f(bytes.NewReader(lp), p)
					if err != nil {
						return fmt.Errorf("%d %v", n, err)
					}
					return nil
				})
			}
			same("UnmarshalBinaryLengthPrefixedReader", run(rd(func(r io.Reader, p interface{}) (int64, error) {
				return amino.UnmarshalBinaryLengthPrefixedReader(r, p, ms)
			})), run(rd(func(r io.Reader, p interface{}) (int64, error) {
				return empty.UnmarshalBinaryLengthPrefixedReader(r, p, ms)
			})))
		}, 12000},
		{"encode error", func(c *C) {
			// a value that cannot be encoded, deep inside one that can
			v := c.val(badT[c.r.Intn(len(badT))], 2)
			c.plantBad(v)
			c.note("%v %s", v.Type(), short(v))
			if _, err := theRef.encRoot(v); err == nil {
				return
			}
			c.distinct(v.Type(), short(v))
			b, err := []byte(nil), error(nil)
			p := try(func() { b, err = theCdc.MarshalBinaryBare(v.Interface()) })
			if p == nil && (err == nil || b != nil) {
				c.failf("MarshalBinaryBare of a value that cannot be encoded gives %X, %v", b, err)
			}
			p = try(func() { b, err = theCdc.MarshalBinaryLengthPrefixed(v.Interface()) })
			if p == nil && (err == nil || b != nil) {
				c.failf("MarshalBinaryLengthPrefixed of a value that cannot be encoded gives %X, %v", b, err)
			}
			var buf bytes.Buffer
			var n int64
			p = try(func() { n, err = theCdc.MarshalBinaryLengthPrefixedWriter(&buf, v.Interface()) })
			if p == nil && (err == nil || buf.Len() != 0 || n != 0) {
				c.failf("MarshalBinaryLengthPrefixedWriter of a value that cannot be encoded writes %X, %d, %v", buf.Bytes(), n, err)
			}
		}, 6000},
	}
}

type Bad1 struct {
	A int
	B []Sub
	T time.Time
	L []time.Time
	P *time.Time
	R ReprStr
	Q []ReprStr
	M *ReprStr
	I Iface
	J []Iface
	E []*Sub `amino:"empty_elements"`
	N struct {
		T time.Time
		R *ReprStr
	}
	Z string
}

var badT = []reflect.Type{reflect.TypeOf(Bad1{}), reflect.TypeOf([]Bad1{}), reflect.TypeOf(struct {
	X *Bad1
	Y string
}{}), reflect.TypeOf([1]Bad1{})}

// plantBad makes one place of v impossible to encode.
func (c *C) plantBad(v reflect.Value) {
	for {
		switch v.Kind() {
		case reflect.Slice:
			if v.Len() == 0 {
				v.Set(reflect.MakeSlice(v.Type(), 1, 1))
			}
			v = v.Index(c.r.Intn(v.Len()))
			continue
		case reflect.Array:
			v = v.Index(0)
			continue
		case reflect.Ptr:
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
			continue
		}
		b, ok := v.Addr().Interface().(*Bad1)
		if !ok {
			v = v.Field(0)
			continue
		}
		badTime := time.Unix(maxSec+int64(c.r.Intn(1000)), 0)
		if c.pick(2) {
			badTime = time.Unix(minSec-1-int64(c.r.Intn(1000)), 0)
		}
		badR := ReprStr{"fail-marshal"}
		switch c.r.Intn(12) {
		case 0:
			b.T = badTime
		case 1:
			b.L = append(b.L, badTime, time.Unix(0, 0))
		case 2:
			b.P = &badTime
		case 3:
			b.R = badR
		case 4:
			b.Q = append(b.Q, badR, ReprStr{"x"})
		case 5:
			b.M = &badR
		case 6:
			b.I = CUnreg{5}
		case 7:
			b.J = append(b.J, CUnreg{5}, nil)
		case 8:
			b.E = append(b.E, nil, &Sub{A: 1})
		case 9:
			b.N.T = badTime
		case 10:
			b.N.R = &badR
		case 11:
			b.I = (*PStruct)(nil)
		}
		return
	}
}

// a value of any type, supported or not
func (c *C) anyValue() reflect.Value {
	switch c.r.Intn(6) {
	case 0:
		v := c.val(badT[c.r.Intn(len(badT))], 2)
		c.plantBad(v)
		return v
	case 1:
		xs := []interface{}{1.5, float32(2), make(chan int), func() {}, map[string]int{"a": 1}, complex(1, 2), uintptr(3), [][]int{{1}},
			(*int)(nil), struct{ M map[string]int }{map[string]int{"x": 1}}, struct{ A float64 }{1}, struct{ E error }{io.EOF}, struct{ I interface{} }{1}}
		return reflect.ValueOf(xs[c.r.Intn(len(xs))])
	default:
		return c.val(c.rootT(), 3)
	}
}
