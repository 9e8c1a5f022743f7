// ---- binary decoding (C04, C05, C06, C09, C11, C15) ----
// The result of a decoding: whether there is one, the number of bytes used, the value.
sort DR
fn dok(r: DR): Bool
fn dn(r: DR): Int
fn dv(r: DR): GV
fn dr(n: Int, v: GV): DR
fn dfail: DR
axiom !dok(dfail)
axiom forall (n: Int, v: GV) {dr(n, v)} :: dok(dr(n, v)) && dn(dr(n, v)) == n && dv(dr(n, v)) == v

// through pointers: nil ones are made to point to zero values
fn tdepth(t: RType): Int
axiom forall (t: RType) {telem(t)} :: kind(t) == kPtr ==> 0 <= tdepth(telem(t)) && tdepth(telem(t)) < tdepth(t)
macro gpt(g) = gnil(g) ? gzero(telem(gtyp(g))) : gderef(g)
rec gd0(g: GV): GV = kind(gtyp(g)) == kPtr ? gd0(gpt(g)) : g
rec gw(g: GV, x: GV): GV = kind(gtyp(g)) == kPtr ? gref(gw(gpt(g), x)) : x      // g with x at its end
lemma [C05] gd0_typ(g: GV)
  ensures gtyp(gd0(g)) == tderef(gtyp(g))
  use ih(gpt(g))
  decreases tdepth(gtyp(g))
  export {gd0(g)}
lemma [C05] gw_typ(g: GV, x: GV)
  requires gtyp(x) == tderef(gtyp(g))
  ensures gtyp(gw(g, x)) == gtyp(g)
  use ih(gpt(g), x)
  decreases tdepth(gtyp(g))
  export {gw(g, x)}
def dwrap(r: DR, g: GV): DR = dok(r) ? dr(dn(r), gw(g, dv(r))) : dfail
def dadd(r: DR, k: Int): DR = dok(r) ? dr(dn(r) + k, dv(r)) : dfail
def dall(r: DR, k: Int): DR = dok(r) && dn(r) == k ? r : dfail
def dun(r: DR, g: GV): DR = dok(r) && gunok(g, dv(r)) ? dr(dn(r), gun(g, dv(r))) : dfail

// scalars
fn f32to64(f: Flt): Flt
macro fixint(b, sz, ok, v) = blen(b) >= sz && ok ? dr(sz, v) : dfail
macro i32ranged(i) = -2147483648 <= i && i <= 2147483647
def DSC(g: GV, fo: FieldOptions, b: Bytes): DR =
  kind(gtyp(g)) == kInt64 && fo.BinFixed64 ? fixint(b, 8, true, gofi(gtyp(g), s64of(le64v(sub(b, 0, 8))))) :
  kind(gtyp(g)) == kInt64 || kind(gtyp(g)) == kInt ? (uvok(b) ? dr(uvn(b), gofi(gtyp(g), s64of(uvv(b)))) : dfail) :
  kind(gtyp(g)) == kInt32 && fo.BinFixed32 ? fixint(b, 4, true, gofi(gtyp(g), s32of(le32v(sub(b, 0, 4))))) :
  kind(gtyp(g)) == kInt32 ? (uvok(b) && i32ranged(s64of(uvv(b))) ? dr(uvn(b), gofi(gtyp(g), s64of(uvv(b)))) : dfail) :
  kind(gtyp(g)) == kInt16 || kind(gtyp(g)) == kInt8 ? (uvok(b) && siranged(kind(gtyp(g)), unzz(uvv(b))) ? dr(uvn(b), gofi(gtyp(g), unzz(uvv(b)))) : dfail) :
  kind(gtyp(g)) == kUint64 && fo.BinFixed64 ? fixint(b, 8, true, gofu(gtyp(g), le64v(sub(b, 0, 8)))) :
  kind(gtyp(g)) == kUint32 && fo.BinFixed32 ? fixint(b, 4, true, gofu(gtyp(g), le32v(sub(b, 0, 4)))) :
  kind(gtyp(g)) >= kUint && kind(gtyp(g)) <= kUint64 ? (uvok(b) && uiranged(kind(gtyp(g)), uvv(b)) ? dr(uvn(b), gofu(gtyp(g), uvv(b))) : dfail) :
  kind(gtyp(g)) == kBool ? fixint(b, 1, at(b, 0) <= 1, gofb(gtyp(g), at(b, 0) == 1)) :
  kind(gtyp(g)) == kFloat64 ? fixint(b, 8, fo.Unsafe, goff(gtyp(g), f64of(le64v(sub(b, 0, 8))))) :
  kind(gtyp(g)) == kFloat32 ? fixint(b, 4, fo.Unsafe, goff(gtyp(g), f32to64(f32of(le32v(sub(b, 0, 4)))))) :
  kind(gtyp(g)) == kString ? (bsok(b) ? dr(uvn(b) + uvv(b), gofs(gtyp(g), sub(b, uvn(b), uvv(b)))) : dfail) : dfail
macro bscon(b) = sub(b, uvn(b), uvv(b))      // the contents of a length-delimited value
def DBA(t: RType, b: Bytes): DR = bsok(b) && uvv(b) == tlen(t) ? dr(uvn(b) + uvv(b), gofby(t, bscon(b))) : dfail
def DBS(t: RType, b: Bytes): DR = blen(b) == 0 ? dr(0, gzero(t)) : bsok(b) ? dr(uvn(b) + uvv(b), uvv(b) == 0 ? gzero(t) : gofby(t, bscon(b))) : dfail

// defaults: what is written as no bytes at all
macro istime(t) = t == timeType || kind(t) == kPtr && tderef(t) == timeType
macro gdefv(t) = istime(t) ? gw(gzero(t), goft(tmk(0, 0))) : gzero(t)
macro unmarshaler(t) = kind(t) != kInterface && thasm(tptr(t), "UnmarshalAmino")
macro DDEF(c, t) = kind(t) == kStruct && t != timeType && !unmarshaler(t) ? DST(c, gzero(t), 0, 0, 0, bempty) : dr(0, gdefv(t))

// interfaces: which concrete type is meant, and how it is held
macro ctype(c, t, b) = !dpok(b) ? rt_nil : dphas(b) ? rdis(c, dpd(b) ++ dpp(b)) : rpre(c, t, dpp(b))
macro chead(b) = dpn(b)
macro implsok(c, t, i) = timpl(tptr(t), i) || !rptr(c, t) && timpl(t, i)
macro gheld(c, t, i, x) = gifc(i, rptr(c, t) || !timpl(t, i) ? gref(x) : x)
macro writtenempty(t) = kind(t) >= kBool && kind(t) <= kUint64 || kind(t) == kString || kind(t) == kArray && tlen(t) == 0
macro rooted(t) = !rootraw(t) && kind(t) != kMap && kind(t) != kFunc      // written with a field key at the root
macro rkeyok(t, b) = keyok(b) && uvv(b) / 8 == 1 && uvv(b) % 8 == typ3of(kind(t), false, false)
macro pz(v) = kind(gtyp(v)) == kPtr && isdef(v) ? gzero(gtyp(v)) : v

macro DEC(c, g, fo, bare, b) = dwrap(DEC1(c, gd0(g), fo, bare, b), g)
rec DEC1(c: Reg, g: GV, fo: FieldOptions, bare: Bool, b: Bytes): DR =
  unmarshaler(gtyp(g)) ? (known(c, tderef(turepr(gtyp(g)))) ? dun(DEC(c, gzero(turepr(gtyp(g))), fo, bare, b), g) : dfail) :
  kind(gtyp(g)) == kInterface ? (!gnil(g) ? dfail : bare ? DIF(c, gtyp(g), fo, true, b) : !bsok(b) ? dfail : uvv(b) == 0 ? dr(uvn(b), gzero(gtyp(g))) : dadd(DIF(c, gtyp(g), fo, false, bscon(b)), uvn(b))) :
  isbytes(gtyp(g)) ? (kind(gtyp(g)) == kArray ? DBA(gtyp(g), b) : DBS(gtyp(g), b)) :
  islist(gtyp(g)) ? (!known(c, tderef(telem(gtyp(g)))) ? dfail : bare ? DLI(c, g, fo, true, b) : bsok(b) ? dadd(DLI(c, g, fo, false, bscon(b)), uvn(b)) : dfail) :
  kind(gtyp(g)) == kStruct ? (bare ? DSB(c, g, b) : bsok(b) ? dadd(dall(DSB(c, g, bscon(b)), uvv(b)), uvn(b)) : dfail) :
  DSC(g, fo, b)
// the contents of an interface of type i
macro DIF(c, i, fo, bare, b) = DIC(c, ctype(c, i, b), i, fo, bare, tail(b, chead(b)), chead(b))
macro DIC(c, t, i, fo, bare, b, n) = t == rt_nil || !implsok(c, t, i) ? dfail :
  bare && rooted(t) && blen(b) > 0 ? (rkeyok(t, b) ? DIV(c, t, i, fo, typ3of(kind(t), false, false) != 2, tail(b, uvn(b)), n + uvn(b)) : dfail) :
  bare && blen(b) == 0 && writtenempty(t) ? dr(n, gheld(c, t, i, gzero(t))) : DIV(c, t, i, fo, true, b, n)
macro DIV(c, t, i, fo, bare, b, n) = dok(DEC(c, gzero(t), fo, bare, b)) && dn(DEC(c, gzero(t), fo, bare, b)) == blen(b) ?
  dr(n + blen(b), gheld(c, t, i, dv(DEC(c, gzero(t), fo, bare, b)))) : dfail
// the contents of a struct
rec DSB(c: Reg, g: GV, b: Bytes): DR = gtyp(g) == timeType ? (timeok(b) ? dr(timen(b), goft(tmk(tsv(b), tnv(tail(b, tsn(b)))))) : dfail) : DST(c, g, 0, 0, 0, b)
// fields from the k-th on; last: the last field number seen; n: the bytes used so far
rec DST(c: Reg, g: GV, k: Int, last: Int, n: Int, b: Bytes): DR = k >= nf(gtyp(g), tnumf(gtyp(g))) ? DSK(g, last, n, b) : DS1(c, g, k, fidx(gtyp(g), k), last, n, b)
macro DS1(c, g, k, j, last, n, b) = !known(c, tderef(tftype(gtyp(g), j))) ? dfail :
  blen(b) == 0 ? DS2(c, g, k, j, last, n, b, DDEF(c, tftype(gtyp(g), j))) :
  unpacked(tftype(gtyp(g), j)) ? DS2(c, g, k, j, last, n, b, DEC(c, gfield(g, j), fopt(gtyp(g), j), true, b)) :
  !keyok(b) ? dfail : uvv(b) / 8 > k + 1 ? DS2(c, g, k, j, last, n, b, DDEF(c, tftype(gtyp(g), j))) :
  uvv(b) / 8 <= last || uvv(b) / 8 != k + 1 || uvv(b) % 8 != t3(tderef(tftype(gtyp(g), j)), fopt(gtyp(g), j)) ? dfail :
  DS2(c, g, k, j, k + 1, n + uvn(b), tail(b, uvn(b)), DEC(c, gfield(g, j), fopt(gtyp(g), j), false, tail(b, uvn(b))))
macro DS2(c, g, k, j, last, n, b, r) = dok(r) ? DST(c, gsetf(g, j, dv(r)), k + 1, last, n + dn(r), tail(b, dn(r))) : dfail
// fields a newer version has
rec DSK(g: GV, last: Int, n: Int, b: Bytes): DR = blen(b) == 0 ? dr(n, g) :
  keyok(b) && uvv(b) / 8 >= last && uvv(b) / 8 > nf(gtyp(g), tnumf(gtyp(g))) && skipok(uvv(b) % 8, tail(b, uvn(b))) ?
    DSK(g, uvv(b) / 8, n + uvn(b) + skipn(uvv(b) % 8, tail(b, uvn(b))), tail(tail(b, uvn(b)), skipn(uvv(b) % 8, tail(b, uvn(b))))) : dfail
// the elements of a list
macro lpacked(g, fo) = t3(tderef(telem(gtyp(g))), fo) != 2
rec DLI(c: Reg, g: GV, fo: FieldOptions, bare: Bool, b: Bytes): DR =
  kind(gtyp(g)) == kArray ? (lpacked(g, fo) ? DAP(c, g, fo, 0, 0, b) : DAU(c, g, fo, bare, 0, 0, b)) :
  lpacked(g, fo) ? DSP(c, gtyp(g), fo, gzero(tslice(telem(gtyp(g)))), 0, b) : DSU(c, gtyp(g), fo, bare, gzero(tslice(telem(gtyp(g)))), 0, b)
rec DAP(c: Reg, g: GV, fo: FieldOptions, i: Int, n: Int, b: Bytes): DR = i >= tlen(gtyp(g)) ? (blen(b) == 0 ? dr(n, g) : dfail) : DAP2(c, g, fo, i, n, b, DEC(c, gidx(g, i), fo, false, b))
macro DAP2(c, g, fo, i, n, b, r) = dok(r) ? DAP(c, gseti(g, i, pz(dv(r))), fo, i + 1, n + dn(r), tail(b, dn(r))) : dfail
// one element after its key
macro lzero(et, fo, b) = blen(b) > 0 && at(b, 0) == 0 && !(kind(et) == kPtr && kind(tderef(et)) == kStruct && fo.EmptyElements)
macro DEL(c, g, et, fo, b) = lzero(et, fo, b) ? dadd1(DDEF(c, et)) : DEC(c, g, with(fo, BinFieldNum, 1), false, b)
def dadd1(r: DR): DR = dok(r) ? dr(1, dv(r)) : dfail
macro lkeyok(b, fo) = keyok(b) && uvv(b) / 8 == fo.BinFieldNum && uvv(b) % 8 == 2
rec DAU(c: Reg, g: GV, fo: FieldOptions, bare: Bool, i: Int, n: Int, b: Bytes): DR =
  i >= tlen(gtyp(g)) ? (blen(b) == 0 || keyok(b) && uvv(b) / 8 > fo.BinFieldNum && bare ? dr(n, g) : dfail) :
  lkeyok(b, fo) ? DAU2(c, g, fo, bare, i, n + uvn(b), tail(b, uvn(b)), DEL(c, gidx(g, i), telem(gtyp(g)), fo, tail(b, uvn(b)))) : dfail
macro DAU2(c, g, fo, bare, i, n, b, r) = dok(r) ? DAU(c, gseti(g, i, dv(r)), fo, bare, i + 1, n + dn(r), tail(b, dn(r))) : dfail
// slices: s is what is read so far
rec DSP(c: Reg, t: RType, fo: FieldOptions, s: GV, n: Int, b: Bytes): DR = blen(b) == 0 ? dr(n, scast(s, t)) : DSP2(c, t, fo, s, n, b, DEC(c, gzero(telem(t)), fo, false, b))
macro DSP2(c, t, fo, s, n, b, r) = dok(r) ? DSP(c, t, fo, gapp(s, pz(dv(r))), n + dn(r), tail(b, dn(r))) : dfail
macro scast(s, t) = gtyp(s) == t ? s : gcast(s, t)
rec DSU(c: Reg, t: RType, fo: FieldOptions, bare: Bool, s: GV, n: Int, b: Bytes): DR = blen(b) == 0 || keyok(b) && uvv(b) / 8 > fo.BinFieldNum && bare ? dr(n, scast(s, t)) :
  lkeyok(b, fo) ? DSU2(c, t, fo, bare, s, n + uvn(b), tail(b, uvn(b)), DEL(c, gzero(telem(t)), telem(t), fo, tail(b, uvn(b)))) : dfail
macro DSU2(c, t, fo, bare, s, n, b, r) = dok(r) ? DSU(c, t, fo, bare, gapp(s, dv(r)), n + dn(r), tail(b, dn(r))) : dfail
mutual DEC1, DSB, DST, DLI, DAP, DAU, DSP, DSU
mutual DSK

// types whose values the decoder can hold: tsup is any set of types closed under these
// conditions (so they hold of all types reachable from one of them)
fn tsup(t: RType): Bool
macro ptif(t) = kind(t) == kPtr && kind(tderef(t)) == kInterface      // pointers to interfaces are not supported
macro dkind(k) = k >= kBool && k <= kUint64 || isfloat(k) || k == kString || k == kStruct || k == kArray || k == kSlice || k == kInterface
axiom forall (t: RType) {tsup(t)} :: tsup(t) ==> kind(t) == kInterface || tiok(t)
axiom forall (t: RType) {tsup(t)} :: tsup(t) && unmarshaler(t) ==> unopanic(t) && tsup(tderef(turepr(t)))
axiom forall (t: RType) {tsup(t)} :: tsup(t) && !unmarshaler(t) ==> dkind(kind(t)) && (islist(t) && kind(telem(t)) != kUint8 ==> tsup(tderef(telem(t))) && typ3ok(kind(tderef(telem(t)))) && !ptif(telem(t)))
axiom forall (t: RType, j: Int) {tsup(t), tftype(t, j)} :: tsup(t) && !unmarshaler(t) && kind(t) == kStruct && t != timeType && 0 <= j && j < tnumf(t) && inc(t, j) ==> tsup(tderef(tftype(t, j))) && typ3ok(kind(tderef(tftype(t, j)))) && !ptif(tftype(t, j))
// the decoding of a type that needs no bytes for each level ends: a rank of the types it goes through
fn trk(t: RType): Int
axiom forall (t: RType) {trk(t)} :: trk(t) >= 1
axiom forall (t: RType) {tsup(t), turepr(t)} :: tsup(t) && unmarshaler(t) ==> trk(tderef(turepr(t))) < trk(t)
axiom forall (t: RType) {tsup(t), telem(t)} :: tsup(t) && !unmarshaler(t) && islist(t) && kind(telem(t)) != kUint8 && typ3of(kind(tderef(telem(t))), false, false) != 2 ==> trk(tderef(telem(t))) < trk(t)
axiom forall (t: RType, j: Int) {tsup(t), tftype(t, j)} :: tsup(t) && !unmarshaler(t) && kind(t) == kStruct && t != timeType && 0 <= j && j < tnumf(t) && inc(t, j) && (unpacked(tftype(t, j)) || kind(tftype(t, j)) == kStruct) ==> trk(tderef(tftype(t, j))) < trk(t)
// all registered types are such
fn rsup(c: Reg): Bool
axiom forall (c: Reg, d: Bytes) {rdis(c, d)} :: rsup(c) ==> rdis(c, d) == rt_nil || tsup(rdis(c, d)) && typ3ok(kind(rdis(c, d)))
axiom forall (c: Reg, i: RType, p: Bytes) {rpre(c, i, p)} :: rsup(c) ==> rpre(c, i, p) == rt_nil || tsup(rpre(c, i, p)) && typ3ok(kind(rpre(c, i, p)))

func "isWrittenEmpty" (rt) (r)
  props C05
  requires rt != rt_nil
  ensures [C05:empty] r <==> writtenempty(rt)
func "derefType" (rt) (drt)
  props C05
  requires rt != rt_nil
  ensures [C05:deref] drt == tderef(rt) && drt != rt_nil
  decreases [C04:terminates] 0, 0, 0
  loop 1
    invariant drt != rt_nil && tderef(drt) == tderef(rt)
    decreases tdepth(drt)
func "isPointerToStructOrToRepeatedStruct" (rv, rt) (r)
  props C05
  requires rok(rv) && gtyp(cont(rv)) == rt
  decreases [C04:terminates] 0, 0, 1
  ensures [C05:root] r <==> kind(rt) == kStruct || kind(rt) == kPtr && rootraw(tderef(rt))
// a place whose write is a write to the place it is reached from
macro reach(rv, rv0, g0, G0, t) = rroot(rv) == rroot(rv0) && gd0(cont(rv)) == gd0(g0) && (forall (x: GV) {gw(g0, x)} :: gtyp(x) == t ==> gput(GVAL[rroot(rv)], rpath(rv), gw(cont(rv), x)) == gput(G0, rpath(rv0), gw(g0, x)))
func "defaultValue" (rt) (rv)
  props C06, C05
  requires rt != rt_nil
  ensures [C06:default] rok(rv) && cont(rv) == gdefv(rt)
  decreases [C04:terminates] 0, 0, 0
  loop 1
    invariant refType != rt_nil && tderef(refType) == tderef(rt)
    decreases tdepth(refType)
  loop 2
    invariant refType == gtyp(cont(refValue)) && rok(refValue) && rset(refValue) && rok(rv) && rset(rv)
    invariant tderef(refType) == timeType && cont(refValue) == gzero(refType)
    invariant isfresh(rroot(rv)) && (forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r]))
    invariant reach(refValue, rv, gzero(rt), gref(gzero(rt)), timeType) && rpath(rv) == pder(pnil)
    decreases tdepth(refType)

// ---- the decoder ----
// nothing but the place is written, and it keeps its type, also when decoding fails
macro kept(root, G0, path, t) = GVAL[root] == gput(G0, path, gat(GVAL[root], path)) && gtyp(gat(GVAL[root], path)) == t
global ErrOverflowInt != nil
macro DECREQ(cdc, info, rv) = encreg(cdc) && isreg(cdc, info) && rok(rv) && rset(rv)
macro DLST(c, g, fo, bare, b) = !known(c, tderef(telem(gtyp(g)))) ? dfail : bare ? DLI(c, g, fo, true, b) : bsok(b) ? dadd(DLI(c, g, fo, false, bscon(b)), uvn(b)) : dfail
macro DIFC(c, g, fo, bare, b) = !gnil(g) ? dfail : bare ? DIF(c, gtyp(g), fo, true, b) : !bsok(b) ? dfail : uvv(b) == 0 ? dr(uvn(b), gzero(gtyp(g))) : dadd(DIF(c, gtyp(g), fo, false, bscon(b)), uvn(b))
macro DSTR(c, g, bare, b) = bare ? DSB(c, g, b) : bsok(b) ? dadd(dall(DSB(c, g, bscon(b)), uvv(b)), uvn(b)) : dfail

func "constructConcreteType" (cinfo) (crv, irvSet)
  props C09
  inline
func "constructConcreteTypeFor" (cinfo, irt) (crv, irvSet, err)
  props C09, C05, C04
  requires cinfo != nil && cinfo.Type != rt_nil && kind(cinfo.Type) != kInterface && kind(irt) == kInterface
  ensures [C09:holds] err == nil <==> timpl(tptr(cinfo.Type), irt) || !cinfo.PointerPreferred && timpl(cinfo.Type, irt)
  ensures [C09:zero] rok(crv) && rset(crv) && isfresh(rroot(crv)) && GVAL[rroot(crv)] == gref(gzero(cinfo.Type)) && rpath(crv) == pder(pnil) && cont(crv) == gzero(cinfo.Type)
  ensures [C09:pointer] err == nil ==> rok(irvSet) && rroot(irvSet) == rroot(crv)
  ensures [C09:pointer] err == nil ==> (cinfo.PointerPreferred || !timpl(cinfo.Type, irt) ? rpath(irvSet) == pref(pder(pnil)) || rpath(irvSet) == pnil : rpath(irvSet) == pder(pnil))

func "(*Codec).decodeReflectBinaryByteSlice" (cdc, bz, info, rv, fopts) (n, err)
  props C05, C04
  requires rok(rv) && rset(rv) && info != nil && gtyp(cont(rv)) == info.Type && kind(info.Type) == kSlice && kind(telem(info.Type)) == kUint8 && info.ZeroValue == rzero(info.Type)
  let root = rroot(rv)
  let R = DBS(gtyp(cont(rv)), bytes(bz))
  modifies GVAL(root)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == old(gtyp(cont(rv)))
  ensures [C04:progress] err == nil && len(bz) > 0 ==> n >= 1
func "(*Codec).decodeReflectBinaryByteArray" (cdc, bz, info, rv, fopts) (n, err)
  props C05, C04
  requires rok(rv) && rset(rv) && info != nil && gtyp(cont(rv)) == info.Type && kind(info.Type) == kArray && kind(telem(info.Type)) == kUint8
  let root = rroot(rv)
  let R = DBA(gtyp(cont(rv)), bytes(bz))
  modifies GVAL(root)
  // Bytes of a slice of an array is the array's memory: what is written to it is in the array
  atexit GVAL(root) = gput(GVAL[root], rpath(rv), gofby(old(gtyp(cont(rv))), bytes(callres("reflect.(Value).Bytes", 0, 0)))) when ncalls("reflect.(Value).Bytes") == 1 && callarg("reflect.(Value).Bytes", 0, 0) != rv_invalid && rroot(callarg("reflect.(Value).Bytes", 0, 0)) == root && rpath(callarg("reflect.(Value).Bytes", 0, 0)) == pslc(rpath(rv), 0, tlen(old(gtyp(cont(rv)))))
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == old(gtyp(cont(rv)))
  ensures [C04:progress] err == nil ==> n >= 1

func "(*Codec).setDefaultValue" (cdc, info, rv) (err)
  props C05, C06, C11
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires DECREQ(cdc, info, rv) && tderef(gtyp(cont(rv))) == info.Type
  let root = rroot(rv)
  let t = gtyp(cont(rv))
  maypanic when !(tsup(info.Type) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C05:accepts] err == nil <==> dok(DDEF(REG[cdc], t))
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), t)
  ensures [C06:default] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(DDEF(REG[cdc], t))) && gtyp(dv(DDEF(REG[cdc], t))) == t && dn(DDEF(REG[cdc], t)) == 0
  decreases [C04:terminates] 0, kind(gtyp(cont(rv))) == kStruct ? trk(info.Type) : 0, 1 when tsup(info.Type) && rsup(REG[cdc])
func "(*Codec).decodeReflectBinaryStruct" (cdc, bz, info, rv, fopts, bare) (n, err)
  props C05, C04, C06, C11
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires DECREQ(cdc, info, rv) && gtyp(cont(rv)) == info.Type && kind(info.Type) == kStruct
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DSTR(REG[cdc], cont(rv), bare, bytes(bz))
  let b0 = bare ? bytes(bz) : bscon(bytes(bz))
  let n0 = bare ? 0 : uvn(bytes(bz))
  let ok0 = bare || bsok(bytes(bz))
  maypanic when !(tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  decreases [C04:terminates] len(bz), trk(info.Type), 0 when tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc])
  ensures [C04:progress] err == nil && !bare && len(bz) > 0 ==> n >= 1
  loop 1
    invariant encreg(cdc) && grows(cdc) && $k <= nf(info.Type, tnumf(info.Type))
    invariant forall (k: Int) {fidx(info.Type, k)} :: 0 <= k && k < nf(info.Type, tnumf(info.Type)) ==> fieldis(info.Fields[k], info.Type, fidx(info.Type, k)) && inc(info.Type, fidx(info.Type, k)) && 0 <= fidx(info.Type, k) && fidx(info.Type, k) < tnumf(info.Type) && nf(info.Type, fidx(info.Type, k)) == k
    invariant fidx(info.Type, $k) == fidx(info.Type, $k)
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant err == nil && info.Type != timeType && ok0 && n0 <= n && n + len(bz) == n0 + blen(b0) && lastFieldNum <= 536870911
    invariant DST(REG[cdc], g0, 0, 0, 0, b0) == DST(REG[cdc], cont(rv), $k, lastFieldNum, n - n0, bytes(bz))
  loop 2
    invariant encreg(cdc) && grows(cdc) && info.Type != timeType && ok0 && n0 <= n && n + len(bz) == n0 + blen(b0) && lastFieldNum <= 536870911
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant err == nil && DST(REG[cdc], g0, 0, 0, 0, b0) == DSK(cont(rv), lastFieldNum, n - n0, bytes(bz))
    decreases len(bz)
func "(*Codec).decodeReflectBinary" (cdc, bz, info, rv, fopts, bare) (n, err)
  props C05, C04, C15
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires DECREQ(cdc, info, rv) && tderef(gtyp(cont(rv))) == info.Type
  let root = rroot(rv)
  let path = rpath(rv)
  let G0 = GVAL[rroot(rv)]
  let g0 = cont(rv)
  let R = DEC(REG[cdc], cont(rv), fopts, bare, bytes(bz))
  maypanic when !(tsup(info.Type) && !ptif(gtyp(cont(rv))) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == gtyp(g0)
  decreases [C04:terminates] len(bz), trk(info.Type), 1 when tsup(info.Type) && !ptif(gtyp(cont(rv))) && rsup(REG[cdc])
  ensures [C04:progress] err == nil && !bare && len(bz) > 0 ==> n >= 1
  loop 1
    invariant rok(rv) && rset(rv) && rroot(rv) == root && gd0(cont(rv)) == gd0(g0) && tderef(gtyp(cont(rv))) == info.Type
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gput(GVAL[root], rpath(rv), cont(rv)) == GVAL[root]
    invariant forall (x: GV) {gw(g0, x)} {gput(GVAL[root], rpath(rv), x)} :: gtyp(x) == info.Type ==> gput(GVAL[root], rpath(rv), gw(cont(rv), x)) == gput(G0, path, gw(g0, x))
    decreases tdepth(gtyp(cont(rv)))

func "(*Codec).decodeReflectBinaryInterface" (cdc, bz, iinfo, rv, fopts, bare) (n, err)
  props C05, C04, C09
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires DECREQ(cdc, iinfo, rv) && gtyp(cont(rv)) == iinfo.Type && kind(iinfo.Type) == kInterface
  let root = rroot(rv)
  let R = DIFC(REG[cdc], cont(rv), fopts, bare, bytes(bz))
  maypanic when !(tsup(iinfo.Type) && !unmarshaler(iinfo.Type) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C09:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C09:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == iinfo.Type
  decreases [C04:terminates] len(bz), trk(iinfo.Type), 0 when tsup(iinfo.Type) && !unmarshaler(iinfo.Type) && rsup(REG[cdc])
  ensures [C04:progress] err == nil && !bare && len(bz) > 0 ==> n >= 1

macro LISTREQ(cdc, info, rv) = DECREQ(cdc, info, rv) && gtyp(cont(rv)) == info.Type && kind(telem(info.Type)) != kUint8
macro LISTPOS(b0, n0, ok0, n, bz) = ok0 && n0 <= n && n + len(bz) == n0 + blen(b0)
func "(*Codec).decodeReflectBinaryArray" (cdc, bz, info, rv, fopts, bare) (n, err)
  props C05, C04
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires LISTREQ(cdc, info, rv) && kind(info.Type) == kArray
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DLST(REG[cdc], cont(rv), fopts, bare, bytes(bz))
  let b0 = bare ? bytes(bz) : bscon(bytes(bz))
  let n0 = bare ? 0 : uvn(bytes(bz))
  let ok0 = bare || bsok(bytes(bz))
  maypanic when !(tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  decreases [C04:terminates] len(bz), trk(info.Type), 0 when tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc])
  ensures [C04:progress] err == nil && !bare && len(bz) > 0 ==> n >= 1
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= tlen(info.Type)
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant err == nil && LISTPOS(b0, n0, ok0, n, bz)
    invariant DAP(REG[cdc], g0, fopts, 0, 0, b0) == DAP(REG[cdc], cont(rv), fopts, i, n - n0, bytes(bz))
    decreases tlen(info.Type) - i
  loop 2
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= tlen(info.Type)
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant err == nil && LISTPOS(b0, n0, ok0, n, bz)
    invariant DAU(REG[cdc], g0, fopts, bare, 0, 0, b0) == DAU(REG[cdc], cont(rv), fopts, bare, i, n - n0, bytes(bz))
    decreases tlen(info.Type) - i

func "(*Codec).decodeReflectBinarySlice" (cdc, bz, info, rv, fopts, bare) (n, err)
  props C05, C04
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires LISTREQ(cdc, info, rv) && kind(info.Type) == kSlice
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DLST(REG[cdc], cont(rv), fopts, bare, bytes(bz))
  let b0 = bare ? bytes(bz) : bscon(bytes(bz))
  let n0 = bare ? 0 : uvn(bytes(bz))
  let ok0 = bare || bsok(bytes(bz))
  let s0 = gzero(tslice(telem(gtyp(cont(rv)))))
  maypanic when !(tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C04:bounds] inbounds(n, bz)
  ensures [C05:accepts] err == nil <==> dok(R)
  ensures [C05:length] err == nil ==> n == dn(R)
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C05:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  decreases [C04:terminates] len(bz), trk(info.Type), 0 when tsup(info.Type) && !unmarshaler(info.Type) && rsup(REG[cdc])
  ensures [C04:progress] err == nil && !bare && len(bz) > 0 ==> n >= 1
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo)
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant rok(srv) && gtyp(cont(srv)) == tslice(telem(info.Type))
    invariant err == nil && LISTPOS(b0, n0, ok0, n, bz)
    invariant DSP(REG[cdc], info.Type, fopts, s0, 0, b0) == DSP(REG[cdc], info.Type, fopts, cont(srv), n - n0, bytes(bz))
    decreases len(bz)
  loop 2
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo)
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant rok(srv) && gtyp(cont(srv)) == tslice(telem(info.Type))
    invariant err == nil && LISTPOS(b0, n0, ok0, n, bz)
    invariant DSU(REG[cdc], info.Type, fopts, bare, s0, 0, b0) == DSU(REG[cdc], info.Type, fopts, bare, cont(srv), n - n0, bytes(bz))
    decreases len(bz)

// ---- a whole value ----
global ErrNoPointer != nil
macro dbody(c, t, b) = rreg(c, t) ? tail(b, 4) : b
macro dpfxok(c, t, b) = rreg(c, t) ==> blen(b) >= 4 && sub(b, 0, 4) == rpfx(c, t)
macro DROOT1(c, g, t, b) = blen(b) > 0 && rooted(t) && kind(gtyp(g)) != kInterface ? (rkeyok(t, b) ? dall(DEC(c, g, fo1, typ3of(kind(t), false, false) != 2, tail(b, uvn(b))), blen(b) - uvn(b)) : dfail) :
  blen(b) == 0 && writtenempty(t) ? dr(0, gzero(gtyp(g))) : dall(DEC(c, g, fo1, true, b), blen(b))
macro DROOT(c, g, b) = !known(c, tderef(gtyp(g))) || !dpfxok(c, tderef(gtyp(g)), b) ? dfail : DROOT1(c, g, tderef(gtyp(g)), dbody(c, tderef(gtyp(g)), b))
func "(*Codec).UnmarshalBinaryBare" (cdc, bz, ptr) (err)
  props C05, C04, C09
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  assume encreg(cdc)
  let root = iroot(ptr)
  let isptr = ptr != nil && kind(itype(ptr)) == kPtr
  let R = DROOT(REG[cdc], gderef(gof(ptr)), bytes(bz))
  maypanic when !(isptr && !gnil(gof(ptr)) && tsup(tderef(telem(itype(ptr)))) && typ3ok(kind(tderef(telem(itype(ptr))))) && !ptif(telem(itype(ptr))) && rsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc)
  ensures [C05:pointer] !isptr ==> err == ErrNoPointer
  ensures [C05:accepts] isptr ==> (err == nil <==> dok(R))
  ensures [C05:value] err == nil ==> gof(ptr) == gref(dv(R)) && gtyp(gof(ptr)) == itype(ptr)
  decreases [C04:terminates] len(bz) + 1, 0, 0 when isptr && !gnil(gof(ptr)) && tsup(tderef(telem(itype(ptr)))) && typ3ok(kind(tderef(telem(itype(ptr))))) && !ptif(telem(itype(ptr))) && rsup(REG[cdc])
