// ---- field keys, sizes, skipping, sliding ----

func "encodeFieldNumberAndTyp3" (w, num, typ) (err)
  props C03, C16
  requires w != nil
  maypanic when !(num <= 536870911 && typ <= 7)
  modifies OUT(w)
  ensures [C03:key] appends(w, err, UV(num * 8 + typ))
  ensures num <= 536870911 && typ <= 7

macro keyok(b) = uvok(b) && uvv(b) / 8 <= 536870911
func "decodeFieldNumberAndTyp3" (bz) (num, typ, n, err)
  props C05, C04
  ensures [C05:accepts] err == nil <==> keyok(bytes(bz))
  ensures [C05:nonumber] err != nil ==> num == 0
  ensures [C05:value] err == nil ==> num == uvv(bytes(bz)) / 8 && typ == uvv(bytes(bz)) % 8 && n == uvn(bytes(bz))
  ensures [C04:bounds] inbounds(n, bz)

func "slide" (bz, n, _n) (ok)
  inline

// What consumeAny skips: exactly one value of the wire type.
def skipok(t: Int, b: Bytes): Bool = t == 0 ? uvok(b) : t == 1 ? blen(b) >= 8 : t == 2 ? bsok(b) : t == 5 ? blen(b) >= 4 : false
def skipn(t: Int, b: Bytes): Int = t == 0 ? uvn(b) : t == 1 ? 8 : t == 2 ? uvn(b) + uvv(b) : 4
func "consumeAny" (typ3, bz) (n, err)
  props C06, C05, C04
  ensures [C06:skips] err == nil <==> skipok(typ3, bytes(bz))
  ensures [C06:length] err == nil ==> n == skipn(typ3, bytes(bz))
  ensures [C04:bounds] inbounds(n, bz)

extern "math/bits.Len64" (x) (n)
  ensures 0 <= n && n <= 64
  ensures n <= 7 <==> x < 128
  ensures n <= 14 <==> x < 16384
  ensures n <= 21 <==> x < 2097152
  ensures n <= 28 <==> x < 268435456
  ensures n <= 35 <==> x < 34359738368
  ensures n <= 42 <==> x < 4398046511104
  ensures n <= 49 <==> x < 562949953421312
  ensures n <= 56 <==> x < 72057594037927936
  ensures n <= 63 <==> x < 9223372036854775808
  ensures n == 0 <==> x == 0
func "UvarintSize" (u) (n)
  props C08
  ensures [C08:size] n == blen(UV(u))
func "VarintSize" (i) (n)
  props C08
  ensures [C08:size] n == blen(UV(zz(i)))
func "ByteSliceSize" (bz) (n)
  props C08
  ensures [C08:size] n == blen(UV(len(bz)) ++ bytes(bz))

// --- round trips of the primitives: what the decoders' contracts say of what the
// encoders' contracts say they write, followed by anything.
lemma [C08] rt_zz(i: Int)
  requires -9223372036854775808 <= i && i <= 9223372036854775807
  ensures 0 <= zz(i) && zz(i) <= 18446744073709551615 && unzz(zz(i)) == i
lemma [C08] rt_le32(u: Int, x: Bytes)
  requires 0 <= u && u <= 4294967295
  ensures blen(LE32(u) ++ x) >= 4 && le32v(sub(LE32(u) ++ x, 0, 4)) == u
lemma [C08] le_steps(u: Int)
  requires 0 <= u && u <= 18446744073709551615
  ensures u / 65536 == u / 256 / 256
  ensures u / 16777216 == u / 65536 / 256
  ensures u / 4294967296 == u / 16777216 / 256
  ensures u / 1099511627776 == u / 4294967296 / 256
  ensures u / 281474976710656 == u / 1099511627776 / 256
  ensures u / 72057594037927936 == u / 281474976710656 / 256
  ensures u / 72057594037927936 < 256
lemma [C08] digit(a: Int)
  requires 0 <= a
  ensures a == 256 * (a / 256) + a % 256
lemma [C08] le_sum(u: Int)
  requires 0 <= u && u <= 18446744073709551615
  use le_steps(u)
  use digit(u)
  use digit(u / 256)
  use digit(u / 65536)
  use digit(u / 16777216)
  use digit(u / 4294967296)
  use digit(u / 1099511627776)
  use digit(u / 281474976710656)
  use digit(u / 72057594037927936)
  ensures u == (u % 256) + 256 * ((u / 256) % 256) + 65536 * ((u / 65536) % 256) + 16777216 * ((u / 16777216) % 256) + 4294967296 * ((u / 4294967296) % 256) + 1099511627776 * ((u / 1099511627776) % 256) + 281474976710656 * ((u / 281474976710656) % 256) + 72057594037927936 * ((u / 72057594037927936) % 256)
lemma [C08] rt_le64(u: Int, x: Bytes)
  requires 0 <= u && u <= 18446744073709551615
  use le_sum(u)
  ensures blen(LE64(u) ++ x) >= 8 && le64v(sub(LE64(u) ++ x, 0, 8)) == u
lemma [C08] rt_s32(i: Int)
  requires -2147483648 <= i && i <= 2147483647
  ensures 0 <= u32of(i) && u32of(i) <= 4294967295 && s32of(u32of(i)) == i
lemma [C08] rt_s64(i: Int)
  requires -9223372036854775808 <= i && i <= 9223372036854775807
  ensures 0 <= u64of(i) && u64of(i) <= 18446744073709551615 && s64of(u64of(i)) == i
lemma [C08] rt_bytes(b: Bytes, x: Bytes)
  requires blen(b) <= 1125899906842624
  use uv_inverse(blen(b), b ++ x)
  ensures bsok(UV(blen(b)) ++ b ++ x) && uvn(UV(blen(b)) ++ b ++ x) + uvv(UV(blen(b)) ++ b ++ x) == blen(UV(blen(b)) ++ b)
  ensures sub(UV(blen(b)) ++ b ++ x, uvn(UV(blen(b)) ++ b ++ x), uvv(UV(blen(b)) ++ b ++ x)) == b
lemma [C08] rt_key(num, typ: Int, x: Bytes)
  requires 0 <= num && num <= 536870911 && 0 <= typ && typ <= 7
  use uv_inverse(num * 8 + typ, x)
  ensures keyok(UV(num * 8 + typ) ++ x) && uvv(UV(num * 8 + typ) ++ x) / 8 == num && uvv(UV(num * 8 + typ) ++ x) % 8 == typ
