// ---- entry points: wrappers (C16) and framing (C07) ----
// The calls a function makes are its ghost history: ncalls, callarg, callres,
// panicked speak of it.  modifies *: anything may change.

func "(*Codec).MustMarshalBinaryBare" (cdc, o) (bz)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryBare") == 1 && callarg("(*Codec).MarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryBare", 0, 1) == o
  ensures [C16:noerror] callres("(*Codec).MarshalBinaryBare", 0, 1) == nil
  ensures [C16:result] bz == callres("(*Codec).MarshalBinaryBare", 0, 0)
  onpanic [C16:panics] ncalls("(*Codec).MarshalBinaryBare") == 1 && (panicked("(*Codec).MarshalBinaryBare", 0) || callres("(*Codec).MarshalBinaryBare", 0, 1) != nil)
  onpanic [C16:args] callarg("(*Codec).MarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryBare", 0, 1) == o

func "(*Codec).MustMarshalBinaryLengthPrefixed" (cdc, o) (bz)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == o
  ensures [C16:noerror] callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == nil
  ensures [C16:result] bz == callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 0)
  onpanic [C16:panics] ncalls("(*Codec).MarshalBinaryLengthPrefixed") == 1 && (panicked("(*Codec).MarshalBinaryLengthPrefixed", 0) || callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) != nil)
  onpanic [C16:args] callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == o

func "(*Codec).MustMarshalJSON" (cdc, o) (bz)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalJSON") == 1 && callarg("(*Codec).MarshalJSON", 0, 0) == cdc && callarg("(*Codec).MarshalJSON", 0, 1) == o
  ensures [C16:noerror] callres("(*Codec).MarshalJSON", 0, 1) == nil
  ensures [C16:result] bz == callres("(*Codec).MarshalJSON", 0, 0)
  onpanic [C16:panics] ncalls("(*Codec).MarshalJSON") == 1 && (panicked("(*Codec).MarshalJSON", 0) || callres("(*Codec).MarshalJSON", 0, 1) != nil)
  onpanic [C16:args] callarg("(*Codec).MarshalJSON", 0, 0) == cdc && callarg("(*Codec).MarshalJSON", 0, 1) == o

func "(*Codec).MustUnmarshalBinaryBare" (cdc, bz, ptr)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalBinaryBare") == 1 && callarg("(*Codec).UnmarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryBare", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryBare", 0, 2) == ptr
  ensures [C16:noerror] callres("(*Codec).UnmarshalBinaryBare", 0, 0) == nil
  onpanic [C16:panics] ncalls("(*Codec).UnmarshalBinaryBare") == 1 && (panicked("(*Codec).UnmarshalBinaryBare", 0) || callres("(*Codec).UnmarshalBinaryBare", 0, 0) != nil)
  onpanic [C16:args] callarg("(*Codec).UnmarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryBare", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryBare", 0, 2) == ptr

func "(*Codec).MustUnmarshalBinaryLengthPrefixed" (cdc, bz, ptr)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 2) == ptr
  ensures [C16:noerror] callres("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0) == nil
  onpanic [C16:panics] ncalls("(*Codec).UnmarshalBinaryLengthPrefixed") == 1 && (panicked("(*Codec).UnmarshalBinaryLengthPrefixed", 0) || callres("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0) != nil)
  onpanic [C16:args] callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 2) == ptr

func "(*Codec).MustUnmarshalJSON" (cdc, bz, ptr)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalJSON") == 1 && callarg("(*Codec).UnmarshalJSON", 0, 0) == cdc && callarg("(*Codec).UnmarshalJSON", 0, 1) == bz && callarg("(*Codec).UnmarshalJSON", 0, 2) == ptr
  ensures [C16:noerror] callres("(*Codec).UnmarshalJSON", 0, 0) == nil
  onpanic [C16:panics] ncalls("(*Codec).UnmarshalJSON") == 1 && (panicked("(*Codec).UnmarshalJSON", 0) || callres("(*Codec).UnmarshalJSON", 0, 0) != nil)
  onpanic [C16:args] callarg("(*Codec).UnmarshalJSON", 0, 0) == cdc && callarg("(*Codec).UnmarshalJSON", 0, 1) == bz && callarg("(*Codec).UnmarshalJSON", 0, 2) == ptr

func "MarshalBinaryLengthPrefixed" (o) (bz, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 0) == gcdc && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == o
  ensures [C16:result0] bz == callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalBinaryLengthPrefixed", 0)

func "MarshalBinaryLengthPrefixedWriter" (w, o) (n, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryLengthPrefixedWriter") == 1 && callarg("(*Codec).MarshalBinaryLengthPrefixedWriter", 0, 0) == gcdc && callarg("(*Codec).MarshalBinaryLengthPrefixedWriter", 0, 1) == w && callarg("(*Codec).MarshalBinaryLengthPrefixedWriter", 0, 2) == o
  ensures [C16:result0] n == callres("(*Codec).MarshalBinaryLengthPrefixedWriter", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).MarshalBinaryLengthPrefixedWriter", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalBinaryLengthPrefixedWriter", 0)
  requires w != nil

func "MustMarshalBinaryLengthPrefixed" (o) (bz)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MustMarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).MustMarshalBinaryLengthPrefixed", 0, 0) == gcdc && callarg("(*Codec).MustMarshalBinaryLengthPrefixed", 0, 1) == o
  ensures [C16:result0] bz == callres("(*Codec).MustMarshalBinaryLengthPrefixed", 0, 0)
  onpanic [C16:panics] panicked("(*Codec).MustMarshalBinaryLengthPrefixed", 0)

func "MarshalBinaryBare" (o) (bz, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryBare") == 1 && callarg("(*Codec).MarshalBinaryBare", 0, 0) == gcdc && callarg("(*Codec).MarshalBinaryBare", 0, 1) == o
  ensures [C16:result0] bz == callres("(*Codec).MarshalBinaryBare", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).MarshalBinaryBare", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalBinaryBare", 0)

func "MustMarshalBinaryBare" (o) (bz)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MustMarshalBinaryBare") == 1 && callarg("(*Codec).MustMarshalBinaryBare", 0, 0) == gcdc && callarg("(*Codec).MustMarshalBinaryBare", 0, 1) == o
  ensures [C16:result0] bz == callres("(*Codec).MustMarshalBinaryBare", 0, 0)
  onpanic [C16:panics] panicked("(*Codec).MustMarshalBinaryBare", 0)

func "UnmarshalBinaryLengthPrefixed" (bz, ptr) (err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0) == gcdc && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 2) == ptr
  ensures [C16:result0] err == callres("(*Codec).UnmarshalBinaryLengthPrefixed", 0, 0)
  onpanic [C16:panics] panicked("(*Codec).UnmarshalBinaryLengthPrefixed", 0)

func "UnmarshalBinaryLengthPrefixedReader" (r, ptr, maxSize) (n, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalBinaryLengthPrefixedReader") == 1 && callarg("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 0) == gcdc && callarg("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 1) == r && callarg("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 2) == ptr && callarg("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 3) == maxSize
  ensures [C16:result0] n == callres("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).UnmarshalBinaryLengthPrefixedReader", 0)
  requires r != nil && !isbuf(r)

func "MustUnmarshalBinaryLengthPrefixed" (bz, ptr)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MustUnmarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).MustUnmarshalBinaryLengthPrefixed", 0, 0) == gcdc && callarg("(*Codec).MustUnmarshalBinaryLengthPrefixed", 0, 1) == bz && callarg("(*Codec).MustUnmarshalBinaryLengthPrefixed", 0, 2) == ptr
  onpanic [C16:panics] panicked("(*Codec).MustUnmarshalBinaryLengthPrefixed", 0)

func "UnmarshalBinaryBare" (bz, ptr) (err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalBinaryBare") == 1 && callarg("(*Codec).UnmarshalBinaryBare", 0, 0) == gcdc && callarg("(*Codec).UnmarshalBinaryBare", 0, 1) == bz && callarg("(*Codec).UnmarshalBinaryBare", 0, 2) == ptr
  ensures [C16:result0] err == callres("(*Codec).UnmarshalBinaryBare", 0, 0)
  onpanic [C16:panics] panicked("(*Codec).UnmarshalBinaryBare", 0)

func "MustUnmarshalBinaryBare" (bz, ptr)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MustUnmarshalBinaryBare") == 1 && callarg("(*Codec).MustUnmarshalBinaryBare", 0, 0) == gcdc && callarg("(*Codec).MustUnmarshalBinaryBare", 0, 1) == bz && callarg("(*Codec).MustUnmarshalBinaryBare", 0, 2) == ptr
  onpanic [C16:panics] panicked("(*Codec).MustUnmarshalBinaryBare", 0)

func "MarshalJSON" (o) (bz, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalJSON") == 1 && callarg("(*Codec).MarshalJSON", 0, 0) == gcdc && callarg("(*Codec).MarshalJSON", 0, 1) == o
  ensures [C16:result0] bz == callres("(*Codec).MarshalJSON", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).MarshalJSON", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalJSON", 0)

func "UnmarshalJSON" (bz, ptr) (err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).UnmarshalJSON") == 1 && callarg("(*Codec).UnmarshalJSON", 0, 0) == gcdc && callarg("(*Codec).UnmarshalJSON", 0, 1) == bz && callarg("(*Codec).UnmarshalJSON", 0, 2) == ptr
  ensures [C16:result0] err == callres("(*Codec).UnmarshalJSON", 0, 0)
  onpanic [C16:panics] panicked("(*Codec).UnmarshalJSON", 0)

func "MarshalJSONIndent" (o, prefix, indent) (bz, err)
  props C16
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalJSONIndent") == 1 && callarg("(*Codec).MarshalJSONIndent", 0, 0) == gcdc && callarg("(*Codec).MarshalJSONIndent", 0, 1) == o && callarg("(*Codec).MarshalJSONIndent", 0, 2) == prefix && callarg("(*Codec).MarshalJSONIndent", 0, 3) == indent
  ensures [C16:result0] bz == callres("(*Codec).MarshalJSONIndent", 0, 0)
  ensures [C16:result1] err == callres("(*Codec).MarshalJSONIndent", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalJSONIndent", 0)


// marshal calls return no bytes together with an error
func "(*Codec).MarshalBinaryLengthPrefixed" (cdc, o) (bz, err)
  props C16, C07
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryBare") == 1 && callarg("(*Codec).MarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryBare", 0, 1) == o
  ensures [C16:nobytes] err != nil ==> len(bz) == 0
  ensures [C16:error] err == nil <==> callres("(*Codec).MarshalBinaryBare", 0, 1) == nil
  ensures [C07:frame] err == nil ==> bytes(bz) == UV(len(callres("(*Codec).MarshalBinaryBare", 0, 0))) ++ bytes(callres("(*Codec).MarshalBinaryBare", 0, 0))
  onpanic [C16:panics] panicked("(*Codec).MarshalBinaryBare", 0)

func "(*Codec).MarshalBinaryLengthPrefixedWriter" (cdc, w, o) (n, err)
  props C16, C07
  requires w != nil
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalBinaryLengthPrefixed") == 1 && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 0) == cdc && callarg("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == o
  ensures [C16:error] callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) != nil ==> err == callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) && n == 0 && ncalls("io.(Writer).Write") == 0
  ensures [C16:writes] callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 1) == nil ==> ncalls("io.(Writer).Write") == 1
  ensures [C16:write] ncalls("io.(Writer).Write") > 0 ==> ncalls("io.(Writer).Write") == 1 && callarg("io.(Writer).Write", 0, 0) == w && callarg("io.(Writer).Write", 0, 1) == callres("(*Codec).MarshalBinaryLengthPrefixed", 0, 0) && n == callres("io.(Writer).Write", 0, 0) && err == callres("io.(Writer).Write", 0, 1)
  onpanic [C16:panics] panicked("(*Codec).MarshalBinaryLengthPrefixed", 0)

func "(*Codec).MarshalJSONIndent" (cdc, o, prefix, indent) (bz, err)
  props C16, C13
  maypanic
  modifies *
  ensures [C16:calls] ncalls("(*Codec).MarshalJSON") == 1 && callarg("(*Codec).MarshalJSON", 0, 0) == cdc && callarg("(*Codec).MarshalJSON", 0, 1) == o
  ensures [C16:nobytes] err != nil ==> len(bz) == 0
  ensures [C16:error] err == nil <==> callres("(*Codec).MarshalJSON", 0, 1) == nil && jindok(bytes(callres("(*Codec).MarshalJSON", 0, 0)))
  ensures [C13:indented] err == nil ==> bytes(bz) == jindent(bytes(callres("(*Codec).MarshalJSON", 0, 0)), prefix, indent)
  onpanic [C16:panics] panicked("(*Codec).MarshalJSON", 0)
extern "bytes.NewBuffer" (p) (b)
  ensures isfresh(b) && out(b) == bytes(p)
extern "bytes.(*Buffer).Write" (b, p) (n, err)
  requires b != nil
  modifies OUT(b)
  ensures out(b) == old(out(b)) ++ bytes(p) && n == len(p) && err == nil
extern "bytes.(*Buffer).Bytes" (b) (bz)
  requires b != nil
  ensures bytes(bz) == out(b) && isfresh(bz) && at(out(b), blen(out(b)) - 1) <= 255
extern "bytes.(*Buffer).Len" (b) (n)
  requires b != nil
  ensures n == blen(out(b))
extern "bytes.(*Buffer).Truncate" (b, n)
  requires b != nil && 0 <= n && n <= blen(out(b))
  modifies OUT(b)
  ensures out(b) == old(sub(out(b), 0, n))
fn jindent(b, prefix, indent: Bytes): Bytes
fn jindok(b: Bytes): Bool
extern "encoding/json.Indent" (dst, src, prefix, indent) (err)
  modifies OUT(dst)
  ensures err == nil <==> jindok(bytes(src))
  ensures err == nil ==> out(dst) == old(out(dst)) ++ jindent(bytes(src), prefix, indent)

// exactly one frame, nothing missing, nothing left
macro frameok(b) = uvn(b) >= 0 && blen(b) > 0 && (uvn(b) > 0 ? uvv(b) : 0) == blen(b) - uvn(b)
func "(*Codec).UnmarshalBinaryLengthPrefixed" (cdc, bz, ptr) (err)
  props C07, C04, C05
  maypanic
  modifies *
  ensures [C07:refuses] err != nil ==> !old(frameok(bytes(bz))) || ncalls("(*Codec).UnmarshalBinaryBare") == 1
  ensures [C07:accepts] err == nil ==> old(frameok(bytes(bz))) && ncalls("(*Codec).UnmarshalBinaryBare") == 1
  ensures [C07:decodes] old(frameok(bytes(bz))) ==> ncalls("(*Codec).UnmarshalBinaryBare") == 1
  ensures [C07:body] ncalls("(*Codec).UnmarshalBinaryBare") > 0 ==> callarg("(*Codec).UnmarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryBare", 0, 2) == ptr && err == callres("(*Codec).UnmarshalBinaryBare", 0, 0)
  ensures [C07:contents] ncalls("(*Codec).UnmarshalBinaryBare") > 0 ==> ref(callarg("(*Codec).UnmarshalBinaryBare", 0, 1)) == ref(bz) && off(callarg("(*Codec).UnmarshalBinaryBare", 0, 1)) == off(bz) + old(uvn(bytes(bz))) && len(callarg("(*Codec).UnmarshalBinaryBare", 0, 1)) == len(bz) - old(uvn(bytes(bz)))
  onpanic [C04:panics] panicked("(*Codec).UnmarshalBinaryBare", 0)

// A reader is the byte string it will deliver (rdata) and the number of bytes taken so far (blen(out)).
global io.ErrUnexpectedEOF != nil
global io.EOF != nil
fn rdata(r: Iface): Bytes
extern "io.ReadFull" (r, buf) (n, err)
  requires r != nil
  modifies OUT(r), BMEM(buf)
  ensures err == nil <==> old(blen(out(r))) + len(buf) <= blen(rdata(r))
  ensures err == nil ==> blen(out(r)) == old(blen(out(r))) + len(buf)
  ensures err == nil ==> mem(buf) == bput(old(mem(buf)), off(buf), sub(rdata(r), old(blen(out(r))), len(buf)))
  ensures blen(out(r)) >= old(blen(out(r))) && blen(out(r)) <= old(blen(out(r))) + len(buf)
extern "io.CopyN" (dst, r, n) (written, err)
  requires r != nil && dst != nil && wid(dst) != wid(r)
  modifies OUT(r), OUT(dst)
  ensures isbuf(dst) ==> (err == nil <==> n <= 0 || old(blen(out(r))) + n <= blen(rdata(r)))
  ensures err == nil && n >= 0 ==> blen(out(r)) == old(blen(out(r))) + n && out(dst) == old(out(dst)) ++ sub(rdata(r), old(blen(out(r))), n) && written == n
  ensures blen(out(r)) >= old(blen(out(r))) && blen(out(r)) <= old(blen(out(r))) + (n > 0 ? n : 0)
  ensures 0 <= written

func "(*Codec).UnmarshalBinaryLengthPrefixedReader" (cdc, r, ptr, maxSize) (n, err)
  props C07, C04, C05
  using uv_prefix_at
  using uvn_cont
  requires r != nil
  requires !isbuf(r)
  assume blen(out(r)) <= blen(rdata(r))
  assume blen(rdata(r)) <= 1125899906842624
  maypanic
  modifies *
  let p0 = blen(out(r))
  let R = sub(rdata(r), p0, blen(rdata(r)) - p0)
  loop 1
    invariant 0 <= i && i <= 10 && n == i
    invariant blen(out(r)) == p0 + n && blen(R) >= n
    invariant blen(buf) == 10 && sub(buf, 0, n) == sub(R, 0, n)
    invariant forall (j: Int) {at(R, j)} {at(buf, j)} :: 0 <= j && j < n ==> at(buf, j) == at(R, j)
    invariant forall (j: Int) {at(R, j)} :: 0 <= j && j < n ==> at(R, j) >= 128
    invariant maxSize > 0 ==> n == 0 || n < maxSize
  ensures [C07:oneframe] ncalls("(*Codec).UnmarshalBinaryBare") > 0 ==> ncalls("(*Codec).UnmarshalBinaryBare") == 1 && uvn(R) > 0 && n == uvn(R) + uvv(R) && atcall("(*Codec).UnmarshalBinaryBare", 0, blen(out(r))) == p0 + n
  ensures [C07:body] ncalls("(*Codec).UnmarshalBinaryBare") > 0 ==> atcall("(*Codec).UnmarshalBinaryBare", 0, bytes(callarg("(*Codec).UnmarshalBinaryBare", 0, 1))) == sub(R, uvn(R), uvv(R)) && callarg("(*Codec).UnmarshalBinaryBare", 0, 0) == cdc && callarg("(*Codec).UnmarshalBinaryBare", 0, 2) == ptr && err == callres("(*Codec).UnmarshalBinaryBare", 0, 0)
  ensures [C07:accepts] at(R, n - 1) >= 0 && uvn(R) > 0 && uvn(R) + uvv(R) <= blen(R) && (maxSize == 0 || uvn(R) + uvv(R) <= maxSize) ==> ncalls("(*Codec).UnmarshalBinaryBare") == 1
  ensures [C07:refuses] ncalls("(*Codec).UnmarshalBinaryBare") == 0 ==> err != nil
  ensures [C07:limit] maxSize > 0 ==> ncalls("(*Codec).UnmarshalBinaryBare") == 1 && n <= maxSize || ncalls("(*Codec).UnmarshalBinaryBare") == 0 && blen(out(r)) <= p0 + maxSize
  onpanic [C07:panics] maxSize < 0 || panicked("(*Codec).UnmarshalBinaryBare", 0)
