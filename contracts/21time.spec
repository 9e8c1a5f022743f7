// ---- times ----
fn tsec(t: Time): Int    // Unix seconds of the instant
fn tns(t: Time): Int     // nanoseconds within the second
fn tutc(t: Time): Bool   // location is UTC
axiom time_range: forall (t: Time) {tns(t)} :: 0 <= tns(t) && tns(t) <= 999999999
axiom time_sec: forall (t: Time) {tsec(t)} :: -9223372036854775808 <= tsec(t) && tsec(t) <= 9223372036854775807
extern "time.(Time).Unix" (t) (s)
  ensures s == tsec(t)
extern "time.(Time).Nanosecond" (t) (n)
  ensures n == tns(t)
extern "time.(Time).UTC" (t) (r)
  ensures tsec(r) == tsec(t) && tns(r) == tns(t) && tutc(r)
extern "time.(Time).Truncate" (t, d) (r)
  ensures d <= 0 ==> tsec(r) == tsec(t) && tns(r) == tns(t) && (tutc(r) <==> tutc(t))
extern "time.Unix" (s, ns) (t)
  ensures 0 <= ns && ns <= 999999999 ==> tsec(t) == s && tns(t) == ns

macro secok(s) = -62135596800 <= s && s < 253402300800
def TENC(s: Int, n: Int): Bytes = (s == 0 ? bempty : UV(8) ++ UV(u64of(s))) ++ (n == 0 ? bempty : UV(16) ++ UV(n))

func "EncodeTime" (w, t) (err)
  props C11, C16, C03
  requires w != nil
  modifies OUT(w)
  ensures [C11:wire] err == nil ==> secok(tsec(t)) && out(w) == old(out(w)) ++ TENC(tsec(t), tns(t))
  ensures [C11:accepts] isbuf(w) && secok(tsec(t)) ==> err == nil
  ensures [C11:refuses] !secok(tsec(t)) ==> err != nil

// The two optional fields; each is only read if there are bytes left.
def tail(b: Bytes, n: Int): Bytes = sub(b, n, blen(b) - n)
def tsok(b: Bytes): Bool = blen(b) == 0 || keyok(b) && (uvv(b) == 16 || uvv(b) == 8 && uvok(tail(b, uvn(b))) && secok(s64of(uvv(tail(b, uvn(b))))))
def tsn(b: Bytes): Int = blen(b) > 0 && uvv(b) == 8 ? uvn(b) + uvn(tail(b, uvn(b))) : 0
def tsv(b: Bytes): Int = blen(b) > 0 && uvv(b) == 8 ? s64of(uvv(tail(b, uvn(b)))) : 0
def tnok(b: Bytes): Bool = blen(b) == 0 || keyok(b) && (uvv(b) == 16 ==> uvok(tail(b, uvn(b))) && uvv(tail(b, uvn(b))) <= 999999999)
def tnn(b: Bytes): Int = blen(b) > 0 && uvv(b) == 16 ? uvn(b) + uvn(tail(b, uvn(b))) : 0
def tnv(b: Bytes): Int = blen(b) > 0 && uvv(b) == 16 ? uvv(tail(b, uvn(b))) : 0
def timeok(b: Bytes): Bool = tsok(b) && tnok(tail(b, tsn(b)))
def timen(b: Bytes): Int = tsn(b) + tnn(tail(b, tsn(b)))

func "DecodeTime" (bz) (t, n, err)
  props C11, C05, C04
  ensures [C11:accepts] err == nil <==> timeok(bytes(bz))
  ensures [C11:instant] err == nil ==> tsec(t) == tsv(bytes(bz)) && tns(t) == tnv(tail(bytes(bz), tsn(bytes(bz))))
  ensures [C11:utc] err == nil ==> tutc(t)
  ensures [C05:length] err == nil ==> n == timen(bytes(bz))
  ensures [C04:bounds] inbounds(n, bz)

// decoding an encoded time gives back its instant and consumes everything
lemma [C11] time_rt(s, n: Int)
  requires secok(s) && 0 <= n && n <= 999999999
  use uv_inverse(8, UV(u64of(s)) ++ (n == 0 ? bempty : UV(16) ++ UV(n)))
  use uv_inverse(u64of(s), n == 0 ? bempty : UV(16) ++ UV(n))
  use uv_inverse(16, UV(n))
  use uv_inverse0(n)
  ensures timeok(TENC(s, n)) && tsv(TENC(s, n)) == s && tnv(tail(TENC(s, n), tsn(TENC(s, n)))) == n && timen(TENC(s, n)) == blen(TENC(s, n))
