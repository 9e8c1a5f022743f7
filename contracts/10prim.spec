// ---- the wire primitives, written from the protobuf encoding documents ----

// unsigned LEB128
rec UV(u: Int): Bytes = u < 128 ? unit(u) : unit(u % 128 + 128) ++ UV(u / 128)
def uvsize(u: Int): Int = u < 128 ? 1 : u < 16384 ? 2 : u < 2097152 ? 3 : u < 268435456 ? 4 : u < 34359738368 ? 5 : u < 4398046511104 ? 6 :
   u < 562949953421312 ? 7 : u < 72057594037927936 ? 8 : u < 9223372036854775808 ? 9 : 10
lemma [C08] uv_size(u: Int)
  decreases u
  requires 0 <= u && u < 18446744073709551616
  use ih(u / 128)
  ensures blen(UV(u)) == uvsize(u)
  ensures 1 <= blen(UV(u)) && blen(UV(u)) <= 10
  export {UV(u)}

def LE32(u: Int): Bytes = unit(u % 256) ++ unit((u / 256) % 256) ++ unit((u / 65536) % 256) ++ unit((u / 16777216) % 256)
def LE64(u: Int): Bytes = unit(u % 256) ++ unit((u / 256) % 256) ++ unit((u / 65536) % 256) ++ unit((u / 16777216) % 256) ++
   unit((u / 4294967296) % 256) ++ unit((u / 1099511627776) % 256) ++ unit((u / 281474976710656) % 256) ++ unit((u / 72057594037927936) % 256)

macro u64of(i) = i >= 0 ? i : i + 18446744073709551616
macro u32of(i) = i >= 0 ? i : i + 4294967296
macro zz(i) = i >= 0 ? 2 * i : -2 * i - 1

// value and length of the uvarint at the front of b.
// uvn > 0: its length; 0: b ends too early; < 0: more than 64 bits, -uvn bytes read.
fn uvn(b: Bytes): Int
fn uvv(b: Bytes): Int
axiom uvn_range: forall (b: Bytes) {uvn(b)} :: uvn(b) <= blen(b) && uvn(b) <= 10 && -uvn(b) <= blen(b) && -uvn(b) <= 11 && 0 <= uvv(b) && uvv(b) <= 18446744073709551615

// The same as a grammar: bytes of at least 128 continue, the first smaller one ends.
rec uvlen(b: Bytes): Int = blen(b) == 0 ? 0 : at(b, 0) < 128 ? 1 : uvlen(sub(b, 1, blen(b) - 1)) == 0 ? 0 : 1 + uvlen(sub(b, 1, blen(b) - 1))
rec uvval(b: Bytes): Int = blen(b) == 0 ? 0 : at(b, 0) < 128 ? at(b, 0) : at(b, 0) - 128 + 128 * uvval(sub(b, 1, blen(b) - 1))
axiom uvn_def: forall (b: Bytes) {uvn(b)} {uvv(b)} :: uvlen(b) > 0 && (uvlen(b) < 10 || uvlen(b) == 10 && at(b, 9) <= 1) ==> uvn(b) == uvlen(b) && uvv(b) == uvval(b)

axiom uvn_bad: forall (b: Bytes) {uvn(b)} :: !(uvlen(b) > 0 && (uvlen(b) < 10 || uvlen(b) == 10 && at(b, 9) <= 1)) ==> uvn(b) <= 0
// all bytes but the last continue
lemma [C08] uvlen_shape(b: Bytes, i: Int)
  decreases blen(b)
  use ih(sub(b, 1, blen(b) - 1), i - 1)
  ensures uvlen(b) > 0 ==> uvlen(b) <= blen(b) && at(b, uvlen(b) - 1) < 128 && (0 <= i && i < uvlen(b) - 1 ==> at(b, i) >= 128)
lemma [C08] uvn_shape(b: Bytes)
  use uvlen_shape(b, 0)
  ensures uvn(b) > 0 ==> at(b, uvn(b) - 1) < 128 && uvn(b) == uvlen(b)
  export {uvn(b)}
lemma [C08] uvn_cont(b: Bytes, i: Int)
  use uvlen_shape(b, i)
  ensures uvn(b) > 0 && 0 <= i && i < uvn(b) - 1 ==> at(b, i) >= 128
  export local {uvn(b), at(b, i)}
// only the first bytes matter
lemma [C08] uvlen_range(b: Bytes)
  decreases blen(b)
  use ih(sub(b, 1, blen(b) - 1))
  ensures 0 <= uvlen(b) && uvlen(b) <= blen(b)
lemma [C08] uv_same(a, b: Bytes)
  decreases blen(a)
  requires uvlen(a) > 0 && blen(b) >= uvlen(a)
  requires forall (j: Int) {at(a, j)} {at(b, j)} :: 0 <= j && j < uvlen(a) ==> at(a, j) == at(b, j)
  use ih(sub(a, 1, blen(a) - 1), sub(b, 1, blen(b) - 1))
  use uvlen_range(a)
  use uvlen_range(sub(a, 1, blen(a) - 1))
  ensures uvlen(b) == uvlen(a) && uvval(b) == uvval(a)
lemma [C08] uv_same_sub(a, b: Bytes)
  decreases blen(a)
  requires uvlen(a) > 0 && blen(b) >= uvlen(a)
  requires sub(b, 0, uvlen(a)) == sub(a, 0, uvlen(a))
  use ih(sub(a, 1, blen(a) - 1), sub(b, 1, blen(b) - 1))
  use uvlen_range(a)
  use uvlen_range(sub(a, 1, blen(a) - 1))
  ensures uvlen(b) == uvlen(a) && uvval(b) == uvval(a)
lemma [C08] uv_prefix_at(a, b: Bytes)
  requires uvn(a) > 0 && blen(b) >= uvn(a)
  requires forall (j: Int) {at(a, j)} {at(b, j)} :: 0 <= j && j < uvn(a) ==> at(a, j) == at(b, j)
  use uv_same(a, b)
  use uvlen_range(a)
  ensures uvn(b) == uvn(a) && uvv(b) == uvv(a)
  export local {uvn(a), uvn(b)}
lemma [C08] uv_prefix(a, b: Bytes)
  requires uvn(a) > 0 && blen(b) >= uvn(a) && sub(b, 0, uvn(a)) == sub(a, 0, uvn(a))
  use uv_same_sub(a, b)
  use uvlen_range(a)
  ensures uvn(b) == uvn(a) && uvv(b) == uvv(a)
  export local {uvn(a), uvn(b)}
lemma [C08] uv_tail(u: Int, x: Bytes)
  requires 0 <= u
  ensures u >= 128 ==> sub(UV(u) ++ x, 1, blen(UV(u) ++ x) - 1) == UV(u / 128) ++ x && at(UV(u) ++ x, 0) == u % 128 + 128 && blen(UV(u) ++ x) > 0
  ensures u < 128 ==> at(UV(u) ++ x, 0) == u && blen(UV(u) ++ x) > 0
lemma [C08] uv_step(u, k: Int)
  requires u >= 128 && 0 <= k && k < blen(UV(u / 128))
  ensures at(UV(u), k + 1) == at(UV(u / 128), k)
lemma [C08] uv_last(u: Int)
  requires 0 <= u && u < 18446744073709551616
  use uv_step(u, 8)
  use uv_size(u)
  use uv_step(u / 128, 7)
  use uv_size(u / 128)
  use uv_step(u / 128 / 128, 6)
  use uv_size(u / 128 / 128)
  use uv_step(u / 128 / 128 / 128, 5)
  use uv_size(u / 128 / 128 / 128)
  use uv_step(u / 128 / 128 / 128 / 128, 4)
  use uv_size(u / 128 / 128 / 128 / 128)
  use uv_step(u / 128 / 128 / 128 / 128 / 128, 3)
  use uv_size(u / 128 / 128 / 128 / 128 / 128)
  use uv_step(u / 128 / 128 / 128 / 128 / 128 / 128, 2)
  use uv_size(u / 128 / 128 / 128 / 128 / 128 / 128)
  use uv_step(u / 128 / 128 / 128 / 128 / 128 / 128 / 128, 1)
  use uv_size(u / 128 / 128 / 128 / 128 / 128 / 128 / 128)
  use uv_step(u / 128 / 128 / 128 / 128 / 128 / 128 / 128 / 128, 0)
  use uv_size(u / 128 / 128 / 128 / 128 / 128 / 128 / 128 / 128)
  use uv_size(u / 128 / 128 / 128 / 128 / 128 / 128 / 128 / 128 / 128)
  ensures blen(UV(u)) == 10 ==> at(UV(u), 9) <= 1
// A varint followed by anything reads back as itself.
lemma [C08] uv_parse(u: Int, x: Bytes)
  decreases u
  requires 0 <= u
  use ih(u / 128, x)
  use uv_tail(u, x)
  ensures uvlen(UV(u) ++ x) == blen(UV(u)) && uvval(UV(u) ++ x) == u
lemma [C08] uv_inverse(u: Int, x: Bytes)
  requires 0 <= u && u < 18446744073709551616
  use uv_parse(u, x)
  use uv_last(u)
  use uv_size(u)
  ensures uvn(UV(u) ++ x) == blen(UV(u)) && uvv(UV(u) ++ x) == u
  export {uvn(UV(u) ++ x)} {uvv(UV(u) ++ x)}
lemma [C08] uv_inverse0(u: Int)
  requires 0 <= u && u < 18446744073709551616
  use uv_inverse(u, bempty)
  ensures uvn(UV(u)) == blen(UV(u)) && uvv(UV(u)) == u
  export {uvn(UV(u))} {uvv(UV(u))}
extern "encoding/binary.PutUvarint" (buf, x) (n)
  requires len(buf) >= 10
  modifies BMEM(buf)
  ensures n == blen(UV(x))
  ensures sub(bytes(buf), 0, n) == UV(x)
extern "encoding/binary.PutVarint" (buf, x) (n)
  requires len(buf) >= 10
  modifies BMEM(buf)
  ensures n == blen(UV(zz(x)))
  ensures sub(bytes(buf), 0, n) == UV(zz(x))
extern "encoding/binary.Uvarint" (buf) (v, n)
  ensures v == (uvn(bytes(buf)) > 0 ? uvv(bytes(buf)) : 0)
  ensures n == uvn(bytes(buf))
extern "encoding/binary.Varint" (buf) (v, n)
  ensures n == uvn(bytes(buf))
  ensures n > 0 ==> v == unzz(uvv(bytes(buf)))
extern "encoding/binary.(littleEndian).PutUint32" (e, b, v)
  requires len(b) >= 4
  modifies BMEM(b)
  ensures sub(bytes(b), 0, 4) == LE32(v)
  ensures sub(bytes(b), 4, len(b) - 4) == old(sub(bytes(b), 4, len(b) - 4))
extern "encoding/binary.(littleEndian).PutUint64" (e, b, v)
  requires len(b) >= 8
  modifies BMEM(b)
  ensures sub(bytes(b), 0, 8) == LE64(v)
  ensures sub(bytes(b), 8, len(b) - 8) == old(sub(bytes(b), 8, len(b) - 8))
extern "encoding/binary.(littleEndian).Uint32" (e, b) (v)
  requires len(b) >= 4
  ensures v == le32v(sub(bytes(b), 0, 4))
extern "encoding/binary.(littleEndian).Uint64" (e, b) (v)
  requires len(b) >= 8
  ensures v == le64v(sub(bytes(b), 0, 8))
def le32v(b: Bytes): Int = at(b, 0) + 256 * at(b, 1) + 65536 * at(b, 2) + 16777216 * at(b, 3)
def le64v(b: Bytes): Int = at(b, 0) + 256 * at(b, 1) + 65536 * at(b, 2) + 16777216 * at(b, 3) + 4294967296 * at(b, 4) + 1099511627776 * at(b, 5) + 281474976710656 * at(b, 6) + 72057594037927936 * at(b, 7)
macro unzz(u) = u % 2 == 0 ? u / 2 : -((u + 1) / 2)
macro s64of(u) = u <= 9223372036854775807 ? u : u - 18446744073709551616
macro s32of(u) = u <= 2147483647 ? u : u - 4294967296

// A writer either takes everything and reports nil, or reports an error.
// *bytes.Buffer never fails.
extern "io.(Writer).Write" (w, p) (n, err)
  modifies OUT(w)
  ensures err == nil ==> out(w) == old(out(w)) ++ bytes(p)
  ensures isbuf(w) ==> err == nil
macro isbuf(w) = isboxed(w, `*bytes.Buffer`)

extern "errors.New" (s) (err)
  ensures err != nil
extern "fmt.Errorf" (s, a) (err)
  ensures err != nil
extern "github.com/pkg/errors.New" (s) (err)
  ensures err != nil
extern "github.com/pkg/errors.Errorf" (s, a) (err)
  ensures err != nil
extern "github.com/pkg/errors.Wrap" (e, s) (err)
  ensures e != nil ==> err != nil
extern "fmt.Sprintf" (s, a) (r)
extern "math.Float32bits" (f) (u)
  ensures u == f32bits(f)
extern "math.Float64bits" (f) (u)
  ensures u == f64bits(f)
extern "math.Float32frombits" (u) (f)
  ensures f == f32of(u)
extern "math.Float64frombits" (u) (f)
  ensures f == f64of(u)
fn f32bits(f: Flt): Int
fn f64bits(f: Flt): Int
fn f32of(u: Int): Flt
fn f64of(u: Int): Flt
axiom forall (f: Flt) {f32bits(f)} :: f32of(f32bits(f)) == f && 0 <= f32bits(f) && f32bits(f) <= 4294967295
axiom forall (f: Flt) {f64bits(f)} :: f64of(f64bits(f)) == f && 0 <= f64bits(f) && f64bits(f) <= 18446744073709551615

// --- encoders: on success exactly the encoding is appended; on a buffer there is no failure.
macro appends(w, e, b) = (e == nil ==> out(w) == old(out(w)) ++ b) && (isbuf(w) ==> e == nil)

func "EncodeInt8" (w, i) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(zz(i)))
func "EncodeInt16" (w, i) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(zz(i)))
func "EncodeInt32" (w, i) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE32(u32of(i)))
func "EncodeInt64" (w, i) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE64(u64of(i)))
func "EncodeVarint" (w, i) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(zz(i)))
func "EncodeByte" (w, b) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(b))
func "EncodeUint8" (w, u) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(u))
func "EncodeUint16" (w, u) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(u))
func "EncodeUint32" (w, u) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE32(u))
func "EncodeUint64" (w, u) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE64(u))
func "EncodeUvarint" (w, u) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(u))
func "EncodeBool" (w, b) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, b ? unit(1) : unit(0))
func "EncodeFloat32" (w, f) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE32(f32bits(f)))
func "EncodeFloat64" (w, f) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, LE64(f64bits(f)))
func "EncodeByteSlice" (w, bz) (err)
  props C08, C16
  requires w != nil
  requires ref(bz) != wid(w)
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(len(bz)) ++ bytes(bz))
func "EncodeString" (w, s) (err)
  props C08, C16
  requires w != nil
  modifies OUT(w)
  ensures [C08:wire] appends(w, err, UV(len(s)) ++ s)

// --- decoders: success exactly on a complete well-formed encoding in range; n is its length.
macro uvok(b) = uvn(b) > 0
macro inbounds(n, bz) = 0 <= n && n <= len(bz)

func "DecodeInt8" (bz) (i, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz)) && -128 <= unzz(uvv(bytes(bz))) && unzz(uvv(bytes(bz))) <= 127
  ensures [C08:value] err == nil ==> i == unzz(uvv(bytes(bz))) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeInt16" (bz) (i, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz)) && -32768 <= unzz(uvv(bytes(bz))) && unzz(uvv(bytes(bz))) <= 32767
  ensures [C08:value] err == nil ==> i == unzz(uvv(bytes(bz))) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeInt32" (bz) (i, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 4
  ensures [C08:value] err == nil ==> i == s32of(le32v(sub(bytes(bz), 0, 4))) && n == 4
  ensures inbounds(n, bz)
func "DecodeInt64" (bz) (i, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 8
  ensures [C08:value] err == nil ==> i == s64of(le64v(sub(bytes(bz), 0, 8))) && n == 8
  ensures inbounds(n, bz)
func "DecodeVarint" (bz) (i, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz))
  ensures [C08:value] err == nil ==> i == unzz(uvv(bytes(bz))) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeByte" (bz) (b, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz)) && uvv(bytes(bz)) <= 255
  ensures [C08:value] err == nil ==> b == uvv(bytes(bz)) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeUint8" (bz) (u, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz)) && uvv(bytes(bz)) <= 255
  ensures [C08:value] err == nil ==> u == uvv(bytes(bz)) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeUint16" (bz) (u, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz)) && uvv(bytes(bz)) <= 65535
  ensures [C08:value] err == nil ==> u == uvv(bytes(bz)) && n == uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeUint32" (bz) (u, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 4
  ensures [C08:value] err == nil ==> u == le32v(sub(bytes(bz), 0, 4)) && n == 4
  ensures inbounds(n, bz)
func "DecodeUint64" (bz) (u, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 8
  ensures [C08:value] err == nil ==> u == le64v(sub(bytes(bz), 0, 8)) && n == 8
  ensures inbounds(n, bz)
func "DecodeUvarint" (bz) (u, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> uvok(bytes(bz))
  ensures [C08:value] err == nil ==> u == uvv(bytes(bz)) && n == uvn(bytes(bz))
  ensures [C04:errn] err != nil ==> n == -uvn(bytes(bz))
  ensures inbounds(n, bz)
func "DecodeBool" (bz) (b, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 1 && bz[0] <= 1
  ensures [C08:value] err == nil ==> (b <==> bz[0] == 1) && n == 1
  ensures inbounds(n, bz)
func "DecodeFloat32" (bz) (f, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 4
  ensures [C08:value] err == nil ==> f == f32of(le32v(sub(bytes(bz), 0, 4))) && n == 4
  ensures inbounds(n, bz)
func "DecodeFloat64" (bz) (f, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> len(bz) >= 8
  ensures [C08:value] err == nil ==> f == f64of(le64v(sub(bytes(bz), 0, 8))) && n == 8
  ensures inbounds(n, bz)
macro bsok(b) = uvn(b) > 0 && uvv(b) <= blen(b) - uvn(b)
func "DecodeByteSlice" (bz) (bz2, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> bsok(bytes(bz))
  ensures [C08:value] err == nil ==> bytes(bz2) == sub(bytes(bz), uvn(bytes(bz)), uvv(bytes(bz))) && n == uvn(bytes(bz)) + uvv(bytes(bz)) && len(bz2) == uvv(bytes(bz))
  ensures err == nil ==> isfresh(bz2)
  ensures inbounds(n, bz)
func "DecodeString" (bz) (s, n, err)
  props C08, C04
  ensures [C08:accepts] err == nil <==> bsok(bytes(bz))
  ensures [C08:value] err == nil ==> s == sub(bytes(bz), uvn(bytes(bz)), uvv(bytes(bz))) && n == uvn(bytes(bz)) + uvv(bytes(bz))
  ensures inbounds(n, bz)
