// ---- the binary encoding of a value (C02, C03, C09, C15, C19) ----
// What MarshalAmino returns for a value, and whether it returns (does not panic) without an error.
// Calling it again gives the same (it has no effects), and it may be called through a pointer.
fn grepr(g: GV): GV
fn greprok(g: GV): Bool
axiom forall (g: GV) {grepr(g)} :: thasm(gtyp(g), "MarshalAmino") && greprok(g) ==> gtyp(grepr(g)) == trepr(gtyp(g))
axiom forall (g: GV) {gref(g)} :: grepr(gref(g)) == grepr(g) && (greprok(gref(g)) <==> greprok(g))
fn implements(t, u: RType): Bool
// UnmarshalAmino: the receiver after it, and whether it gives no error
fn gun(g: GV, x: GV): GV
fn gunok(g: GV, x: GV): Bool
axiom forall (g, x: GV) {gun(g, x)} :: gtyp(gun(g, x)) == gtyp(g)
fn mrecv(m: RV): GV
fn mname(m: RV): Bytes
fn mrv(m: RV): RV
extern "reflect.(Value).MethodByName" (v, name) (m)
  maypanic when v == rv_invalid
  ensures m != rv_invalid && mrecv(m) == cont(v) && mname(m) == name && mrv(m) == v
// UnmarshalAmino of the type, and MarshalAmino, never panic
fn unopanic(t: RType): Bool
macro ucallok(m, args) = mname(m) == "UnmarshalAmino" && unopanic(telem(gtyp(cont(mrv(m))))) && len(args) == 1 && args[0] != rv_invalid && gtyp(cont(args[0])) == turepr(telem(gtyp(cont(mrv(m)))))
macro mcallok(m, args) = mname(m) == "MarshalAmino" && greprok(mrecv(m)) && len(args) == 0 && (thasm(gtyp(mrecv(m)), "MarshalAmino") || kind(gtyp(mrecv(m))) == kPtr && thasm(telem(gtyp(mrecv(m))), "MarshalAmino"))
extern "reflect.(Value).Call" (m, args) (r)
  maypanic when !ucallok(m, args) && !mcallok(m, args)
  modifies GVAL
  ensures mname(m) == "MarshalAmino" ==> GVAL == old(GVAL)
  let um = mname(m) == "UnmarshalAmino"
  let uroot = rroot(mrv(m))
  ensures um ==> len(r) == 1 && rok(r[0]) && kind(gtyp(cont(r[0]))) == kInterface && (forall (x: Int) {GVAL[x]} :: allocated(x) && x != uroot ==> GVAL[x] == old(GVAL[x]))
  ensures um ==> GVAL[uroot] == gput(old(GVAL[uroot]), pder(rpath(mrv(m))), gat(GVAL[uroot], pder(rpath(mrv(m))))) && gtyp(gat(GVAL[uroot], pder(rpath(mrv(m))))) == old(gtyp(gderef(cont(mrv(m)))))
  ensures um && len(args) == 1 ==> (gnil(cont(r[0])) <==> old(gunok(gderef(cont(mrv(m))), cont(args[0]))))
  ensures um && len(args) == 1 && gnil(cont(r[0])) ==> GVAL[uroot] == gput(old(GVAL[uroot]), pder(rpath(mrv(m))), old(gun(gderef(cont(mrv(m))), cont(args[0]))))
  ensures um && !gnil(cont(r[0])) ==> giface(cont(r[0])) != inil && implements(itype(giface(cont(r[0]))), tid(error))
  ensures isfresh(ref(r))
  ensures mname(m) == "MarshalAmino" ==> len(r) == 2 && rok(r[0]) && rok(r[1]) && !rset(r[0])
  ensures mname(m) == "MarshalAmino" ==> (gnil(cont(r[1])) <==> greprok(mrecv(m))) && kind(gtyp(cont(r[1]))) == kInterface
  ensures mname(m) == "MarshalAmino" && greprok(mrecv(m)) ==> cont(r[0]) == grepr(mrecv(m))
  ensures mname(m) == "MarshalAmino" && !greprok(mrecv(m)) ==> giface(cont(r[1])) != inil && implements(itype(giface(cont(r[1]))), tid(error))

func "toReprObject" (rv) (rrv, err)
  props C15, C02, C03, C19
  requires rok(rv) && thasm(gtyp(cont(rv)), "MarshalAmino")
  maypanic when !greprok(cont(rv))
  ensures [C15:error] err == nil <==> greprok(cont(rv))
  ensures [C15:value] err == nil ==> rok(rrv) && cont(rrv) == grepr(cont(rv)) && !rset(rrv)

// ---- the wire form ----
// the options of the j-th field of a struct
fn fopt(t: RType, j: Int): FieldOptions
axiom forall (t: RType, j: Int) {fopt(t, j)} :: fopt(t, j).JSONName == jname(tftag(t, j), tfname(t, j)) && (fopt(t, j).JSONOmitEmpty <==> jomit(tftag(t, j))) &&
  (fopt(t, j).BinFixed64 <==> tagb(tftag(t, j)) == "fixed64") && (fopt(t, j).BinFixed32 <==> tagb(tftag(t, j)) == "fixed32") && fopt(t, j).BinFieldNum == nf(t, j) + 1 &&
  (fopt(t, j).Unsafe <==> opt(tftag(t, j), "unsafe")) && (fopt(t, j).WriteEmpty <==> opt(tftag(t, j), "write_empty")) && (fopt(t, j).EmptyElements <==> opt(tftag(t, j), "empty_elements"))
// the k-th of the fields that are not left out
rec fsel(t: RType, k: Int, n: Int): Int = n <= 0 ? 0 - 1 : inc(t, n - 1) && nf(t, n - 1) == k ? n - 1 : fsel(t, k, n - 1)
def fidx(t: RType, k: Int): Int = fsel(t, k, tnumf(t))
lemma [C20] fsel_ok(t: RType, k: Int, n: Int)
  requires 0 <= k && k < nf(t, n)
  ensures 0 <= fsel(t, k, n) && fsel(t, k, n) < n && inc(t, fsel(t, k, n)) && nf(t, fsel(t, k, n)) == k
  use ih(t, k, n - 1)
  decreases n
lemma [C20] fidx_ok(t: RType, k: Int)
  requires 0 <= k && k < nf(t, tnumf(t))
  use fsel_ok(t, k, tnumf(t))
  ensures 0 <= fidx(t, k) && fidx(t, k) < tnumf(t) && inc(t, fidx(t, k)) && nf(t, fidx(t, k)) == k
  export {fidx(t, k)}

// REG[cdc]: all that an encoding or decoding depends on of what is registered; a registration changes it
sort Reg
heap REG: [Int]Reg
fn rreg(c: Reg, t: RType): Bool               // concrete type
fn rifc(c: Reg, t: RType): Bool               // interface
fn rpfx(c: Reg, t: RType): Bytes
fn rdsb(c: Reg, t: RType): Bytes
fn rname(c: Reg, t: RType): Bytes
fn rneed(c: Reg, i: RType, t: RType): Bool    // disambiguation bytes needed
fn rdis(c: Reg, d: Bytes): RType               // the type with these disambiguation and prefix bytes
fn rnam(c: Reg, n: Bytes): RType              // the type with this name
fn rpre(c: Reg, i: RType, pb: Bytes): RType    // the only implementer of the interface with these prefix bytes
fn rptr(c: Reg, t: RType): Bool                // an interface holds a pointer to it
fn f64to32(f: Flt): Flt
rec tleaf(t: RType): RType = islist(t) ? tleaf(telem(t)) : t
macro nestok(t) = islist(telem(t)) ==> kind(tleaf(telem(t))) == kUint8
macro LB(b) = UV(blen(b)) ++ b
macro fld(bare, b) = bare ? b : LB(b)
macro isbytes(t) = islist(t) && kind(telem(t)) == kUint8
macro scalar(g, k, fo) = k == kInt64 && fo.BinFixed64 ? LE64(u64of(gint(g))) : k == kInt32 && fo.BinFixed32 ? LE32(u32of(gint(g))) :
  k == kInt8 || k == kInt16 ? UV(zz(gint(g))) : k == kInt64 || k == kInt32 || k == kInt ? UV(u64of(gint(g))) :
  k == kUint64 && fo.BinFixed64 ? LE64(guint(g)) : k == kUint32 && fo.BinFixed32 ? LE32(guint(g)) : k == kUint64 || k == kUint32 || k == kUint16 || k == kUint8 || k == kUint ? UV(guint(g)) :
  k == kBool ? (gbool(g) ? unit(1) : unit(0)) : k == kFloat64 ? LE64(f64bits(gflt(g))) : k == kFloat32 ? LE32(f32bits(f64to32(gflt(g)))) : LB(gstr(g))
macro scalark(k) = k >= kBool && k <= kUint64 || isfloat(k) || k == kString
macro tenc(g) = TENC(tsec(gtime(g)), tns(gtime(g)))
macro t3(t, fo) = typ3of(kind(t), fo.BinFixed64, fo.BinFixed32)
macro numkey(n, t3) = UV(n * 8 + t3)
macro zerobyte(b) = blen(b) == 1 && at(b, 0) == 0
macro keyed(n, t, fo, we, b) = !(we) && zerobyte(b) ? bempty : numkey(n, t3(t, fo)) ++ b
macro marshaler(t) = kind(t) != kInterface && thasm(t, "MarshalAmino")

// ENC: a value that is no pointer; ENCL: the first n elements of a list; ENCF: the first n fields of a struct.
rec ENC(c: Reg, g: GV, fo: FieldOptions, bare: Bool): Bytes =
  marshaler(gtyp(g)) ? ENC(c, grepr(g), fo, bare) :
  kind(gtyp(g)) == kInterface ? (gnil(g) ? unit(0) : fld(bare, (rneed(c, gtyp(g), gtyp(gd(gdyn(g)))) ? unit(0) ++ rdsb(c, gtyp(gd(gdyn(g)))) : bempty) ++ rpfx(c, gtyp(gd(gdyn(g)))) ++ ENC(c, gd(gdyn(g)), fo, true))) :
  isbytes(gtyp(g)) ? LB(gbytes(g)) :
  islist(gtyp(g)) ? fld(bare, ENCL(c, g, fo, glen(g))) :
  gtyp(g) == timeType ? fld(bare, tenc(g)) :
  kind(gtyp(g)) == kStruct ? fld(bare, ENCF(c, g, fo, nf(gtyp(g), tnumf(gtyp(g))))) :
  scalar(g, kind(gtyp(g)), fo)
rec ENCL(c: Reg, g: GV, fo: FieldOptions, n: Int): Bytes = n <= 0 ? bempty : ENCL(c, g, fo, n - 1) ++
  (t3(tderef(telem(gtyp(g))), fo) != 2 ? ENC(c, gdz(gidx(g, n - 1)), fo, false) :
   numkey(fo.BinFieldNum, 2) ++ (isdef(gidx(g, n - 1)) ? unit(0) : ENC(c, gd(gidx(g, n - 1)), with(fo, BinFieldNum, 1), false)))
macro ENC1(c, g, j, t) = isdef(gfield(g, j)) && (!fopt(t, j).WriteEmpty || ispn(gfield(g, j))) ? bempty :
  unpacked(tftype(t, j)) ? ENCL(c, gfield(g, j), fopt(t, j), glen(gfield(g, j))) :
  keyed(nf(t, j) + 1, tderef(tftype(t, j)), fopt(t, j), fopt(t, j).WriteEmpty || kind(tftype(t, j)) == kPtr, ENC(c, gd(gfield(g, j)), fopt(t, j), false))
rec ENCF(c: Reg, g: GV, fo: FieldOptions, n: Int): Bytes = n <= 0 ? bempty : ENCF(c, g, fo, n - 1) ++ ENC1(c, g, fidx(gtyp(g), n - 1), gtyp(g))
mutual ENC, ENCL, ENCF

// whether there is one
macro known(c, t) = kind(t) == kInterface ==> rifc(c, t)
rec EOK(c: Reg, g: GV, fo: FieldOptions): Bool =
  marshaler(gtyp(g)) ? greprok(g) && known(c, gtyp(grepr(g))) && EOK(c, grepr(g), fo) :
  kind(gtyp(g)) == kInterface ? gnil(g) || !ispn(gdyn(g)) && kind(gtyp(gd(gdyn(g)))) != kInterface && rreg(c, gtyp(gd(gdyn(g)))) && EOK(c, gd(gdyn(g)), fo) :
  isbytes(gtyp(g)) ? true :
  islist(gtyp(g)) ? nestok(gtyp(g)) && EOKL(c, g, fo, glen(g)) :
  gtyp(g) == timeType ? secok(tsec(gtime(g))) :
  kind(gtyp(g)) == kStruct ? EOKF(c, g, nf(gtyp(g), tnumf(gtyp(g)))) :
  scalark(kind(gtyp(g))) && (isfloat(kind(gtyp(g))) ==> fo.Unsafe)
rec EOKL(c: Reg, g: GV, fo: FieldOptions, n: Int): Bool = n <= 0 ? known(c, tderef(telem(gtyp(g)))) && typ3ok(kind(tderef(telem(gtyp(g))))) : EOKL(c, g, fo, n - 1) &&
  (t3(tderef(telem(gtyp(g))), fo) != 2 ? EOK(c, gdz(gidx(g, n - 1)), fo) :
   fo.BinFieldNum <= 536870911 && (isdef(gidx(g, n - 1)) ? !(kind(telem(gtyp(g))) == kPtr && kind(tderef(telem(gtyp(g)))) == kStruct && fo.EmptyElements) : EOK(c, gd(gidx(g, n - 1)), with(fo, BinFieldNum, 1))))
macro EOK1(c, g, j, t) = known(c, tderef(tftype(t, j))) && (isdef(gfield(g, j)) && (!fopt(t, j).WriteEmpty || ispn(gfield(g, j))) ||
  (unpacked(tftype(t, j)) ? EOKL(c, gfield(g, j), fopt(t, j), glen(gfield(g, j))) :
  nf(t, j) + 1 <= 536870911 && typ3ok(kind(tderef(tftype(t, j)))) && EOK(c, gd(gfield(g, j)), fopt(t, j))))
rec EOKF(c: Reg, g: GV, n: Int): Bool = n <= 0 || EOKF(c, g, n - 1) && EOK1(c, g, fidx(gtyp(g), n - 1), gtyp(g))
mutual EOK, EOKL, EOKF
// types that can be parsed: esup is any set of types closed under these conditions (so
// they hold of all types that a value of one of them leads to)
fn esup(t: RType): Bool
axiom forall (t: RType) {esup(t)} :: esup(t) ==> kind(t) == kInterface || tiok(t)
axiom forall (t: RType) {esup(t)} :: esup(t) && marshaler(t) ==> esup(tderef(trepr(t)))
axiom forall (t: RType) {esup(t), telem(t)} :: esup(t) && islist(t) && kind(telem(t)) != kUint8 ==> esup(tderef(telem(t)))
axiom forall (t: RType, j: Int) {esup(t), tftype(t, j)} :: esup(t) && kind(t) == kStruct && t != timeType && 0 <= j && j < tnumf(t) && inc(t, j) ==> esup(tderef(tftype(t, j)))
fn resup(c: Reg): Bool
axiom forall (c: Reg, t: RType) {resup(c), rreg(c, t)} :: resup(c) && rreg(c, t) ==> esup(t)
lemma [C19] EOKL_mono(c: Reg, g: GV, fo: FieldOptions, n, m: Int)
  requires n <= m && EOKL(c, g, fo, m) && 0 <= n
  ensures EOKL(c, g, fo, n)
  use ih(c, g, fo, n, m - 1)
  decreases m
  export {EOKL(c, g, fo, n), EOKL(c, g, fo, m)}
lemma [C19] EOKF_mono(c: Reg, g: GV, n, m: Int)
  requires n <= m && EOKF(c, g, m) && 0 <= n
  ensures EOKF(c, g, n)
  use ih(c, g, n, m - 1)
  decreases m
  export {EOKF(c, g, n), EOKF(c, g, m)}

// the infos of a codec say what the types are
macro WI(cdc) = forall (t: RType) {cdc.typeInfos[t]} :: has(cdc.typeInfos, t) ==>
  cdc.typeInfos[t].ZeroValue == rzero(t) &&
  (kind(t) == kInterface ==> !cdc.typeInfos[t].IsAminoMarshaler && !cdc.typeInfos[t].IsAminoUnmarshaler && !cdc.typeInfos[t].Registered) &&
  (kind(t) != kInterface ==> reprinfo(cdc.typeInfos[t], t)) && (kind(t) == kStruct ==> structinfo(cdc.typeInfos[t], t))
// rreg, rpfx, ... are what the codec has registered
macro WE(cdc) = (forall (t: RType) {cdc.typeInfos[t]} {has(cdc.typeInfos, t)} {rreg(REG[cdc], t)} :: rreg(REG[cdc], t) <==> has(cdc.typeInfos, t) && cdc.typeInfos[t].Registered) &&
  (forall (t: RType) {cdc.typeInfos[t]} {rreg(REG[cdc], t)} :: rreg(REG[cdc], t) ==> rpfx(REG[cdc], t) == cdc.typeInfos[t].Prefix && rdsb(REG[cdc], t) == cdc.typeInfos[t].Disamb && rname(REG[cdc], t) == cdc.typeInfos[t].Name) &&
  (forall (t: RType) {has(cdc.typeInfos, t)} {rifc(REG[cdc], t)} :: rifc(REG[cdc], t) <==> kind(t) == kInterface && has(cdc.typeInfos, t)) &&
  (forall (i, t: RType) {rneed(REG[cdc], i, t)} :: rifc(REG[cdc], i) && rreg(REG[cdc], t) ==> (rneed(REG[cdc], i, t) <==> cdc.typeInfos[i].AlwaysDisambiguate || has(cdc.typeInfos[i].Implementers, rpfx(REG[cdc], t)) && len(cdc.typeInfos[i].Implementers[rpfx(REG[cdc], t)]) > 1)) &&
  (forall (d: Bytes) {rdis(REG[cdc], d)} :: rdis(REG[cdc], d) == (has(cdc.disfixToTypeInfo, d) ? cdc.disfixToTypeInfo[d].Type : rt_nil)) &&
  (forall (d: Bytes) {rnam(REG[cdc], d)} :: rnam(REG[cdc], d) == (has(cdc.nameToTypeInfo, d) ? cdc.nameToTypeInfo[d].Type : rt_nil)) &&
  (forall (i: RType, pb: Bytes) {rpre(REG[cdc], i, pb)} :: rifc(REG[cdc], i) ==> rpre(REG[cdc], i, pb) == (has(cdc.typeInfos[i].Implementers, pb) && len(cdc.typeInfos[i].Implementers[pb]) == 1 ? cdc.typeInfos[i].Implementers[pb][0].Type : rt_nil)) &&
  (forall (t: RType) {rptr(REG[cdc], t)} :: rreg(REG[cdc], t) ==> (rptr(REG[cdc], t) <==> cdc.typeInfos[t].PointerPreferred))
macro grows(cdc) = forall (t: RType) {has(cdc.typeInfos, t)} {cdc.typeInfos[t]} :: old(has(cdc.typeInfos, t)) ==> has(cdc.typeInfos, t) && cdc.typeInfos[t] == old(cdc.typeInfos[t])

macro ENCREQ(cdc, w, info, rv) = W(cdc) && WI(cdc) && WE(cdc) && w != nil && isreg(cdc, info) && rok(rv) && gtyp(cont(rv)) == info.Type

func "(*Codec).encodeReflectBinaryByteSlice" (cdc, w, info, rv, fopts) (err)
  props C03, C02
  requires w != nil && rok(rv) && info != nil && gtyp(cont(rv)) == info.Type && kind(info.Type) == kSlice && kind(telem(info.Type)) == kUint8
  modifies OUT(w)
  ensures [C03:wire] err == nil ==> out(w) == old(out(w)) ++ (LB(gbytes(cont(rv))))
  ensures [C01:accepted] (true) && isbuf(w) ==> err == nil
func "(*Codec).encodeReflectBinaryByteArray" (cdc, w, info, rv, fopts) (err)
  props C03, C02
  requires w != nil && rok(rv) && info != nil && gtyp(cont(rv)) == info.Type && kind(info.Type) == kArray && kind(telem(info.Type)) == kUint8
  modifies OUT(w)
  ensures [C03:wire] err == nil ==> out(w) == old(out(w)) ++ (LB(gbytes(cont(rv))))
  ensures [C01:accepted] (true) && isbuf(w) ==> err == nil

macro encreg(cdc) = W(cdc) && WI(cdc) && WE(cdc)
func "(*Codec).writeFieldIfNotEmpty" (cdc, buf, fieldNum, finfo, structsFopts, fieldOpts, derefedVal, isWriteEmpty, bare) (err)
  props C03, C02, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires ENCREQ(cdc, buf, finfo, derefedVal)
  maypanic when !(esup(finfo.Type) && resup(REG[cdc]) && EOK(REG[cdc], cont(derefedVal), fieldOpts) && fieldNum <= 536870911 && typ3ok(kind(finfo.Type)))
  modifies OUT(buf), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> fieldNum <= 536870911 && typ3ok(kind(finfo.Type)) && EOK(REG[cdc], cont(derefedVal), fieldOpts)
  ensures [C03:wire] err == nil ==> out(buf) == old(out(buf)) ++ keyed(fieldNum, finfo.Type, fieldOpts, isWriteEmpty, ENC(REG[cdc], cont(derefedVal), fieldOpts, bare))
  ensures [C01:accepted] EOK(REG[cdc], cont(derefedVal), fieldOpts) ==> err == nil
func "(*Codec).encodeReflectBinary" (cdc, w, info, rv, fopts, bare) (err)
  props C03, C02, C19, C15
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires ENCREQ(cdc, w, info, rv)
  maypanic when !(esup(info.Type) && resup(REG[cdc]) && EOK(REG[cdc], cont(rv), fopts))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> (EOK(REG[cdc], cont(rv), fopts))
  ensures [C03:wire] err == nil ==> out(w) == old(out(w)) ++ (ENC(REG[cdc], cont(rv), fopts, bare))
  ensures [C01:accepted] (EOK(REG[cdc], cont(rv), fopts)) && isbuf(w) ==> err == nil
  loop 1
    invariant islist(telem(info.Type)) && tleaf(elem) == tleaf(telem(info.Type))
  loop 2
    invariant islist(telem(info.Type)) && tleaf(elem) == tleaf(telem(info.Type))
func "(*Codec).encodeReflectBinaryInterface" (cdc, w, iinfo, rv, fopts, bare) (err)
  props C03, C02, C19, C09
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires ENCREQ(cdc, w, iinfo, rv) && kind(iinfo.Type) == kInterface
  maypanic when !(esup(iinfo.Type) && resup(REG[cdc]) && EOK(REG[cdc], cont(rv), fopts))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> (EOK(REG[cdc], cont(rv), fopts))
  ensures [C09:wire] err == nil ==> out(w) == old(out(w)) ++ (ENC(REG[cdc], cont(rv), fopts, bare))
  ensures [C01:accepted] (EOK(REG[cdc], cont(rv), fopts)) && isbuf(w) ==> err == nil
func "(*Codec).encodeReflectBinaryList" (cdc, w, info, rv, fopts, bare) (err)
  props C03, C02, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires ENCREQ(cdc, w, info, rv) && islist(info.Type)
  use EOKL_mono(REG[cdc], cont(rv), fopts, 0, glen(cont(rv)))
  maypanic when !(esup(info.Type) && resup(REG[cdc]) && !isbytes(info.Type) && EOKL(REG[cdc], cont(rv), fopts, glen(cont(rv))))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> (EOKL(REG[cdc], cont(rv), fopts, glen(cont(rv))))
  ensures [C03:wire] err == nil ==> out(w) == old(out(w)) ++ (fld(bare, ENCL(REG[cdc], cont(rv), fopts, glen(cont(rv)))))
  ensures [C01:accepted] (EOKL(REG[cdc], cont(rv), fopts, glen(cont(rv)))) && isbuf(w) ==> err == nil
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= glen(cont(rv))
    invariant out(buf) == ENCL(REG[cdc], cont(rv), fopts, i) && EOKL(REG[cdc], cont(rv), fopts, i)
    invariant i < glen(cont(rv)) && EOKL(REG[cdc], cont(rv), fopts, glen(cont(rv))) ==> EOKL(REG[cdc], cont(rv), fopts, i + 1)
  loop 2
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= glen(cont(rv))
    invariant out(buf) == ENCL(REG[cdc], cont(rv), fopts, i) && EOKL(REG[cdc], cont(rv), fopts, i)
    invariant i < glen(cont(rv)) && EOKL(REG[cdc], cont(rv), fopts, glen(cont(rv))) ==> EOKL(REG[cdc], cont(rv), fopts, i + 1)
func "(*Codec).encodeReflectBinaryStruct" (cdc, w, info, rv, fopts, bare) (err)
  props C03, C02, C19, C11, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires ENCREQ(cdc, w, info, rv) && kind(info.Type) == kStruct
  maypanic when !(esup(info.Type) && resup(REG[cdc]) && (info.Type == timeType ? secok(tsec(gtime(cont(rv)))) : EOKF(REG[cdc], cont(rv), nf(info.Type, tnumf(info.Type)))))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> (info.Type == timeType ? secok(tsec(gtime(cont(rv)))) : EOKF(REG[cdc], cont(rv), nf(info.Type, tnumf(info.Type))))
  ensures [C03:wire] err == nil ==> out(w) == old(out(w)) ++ (fld(bare, info.Type == timeType ? tenc(cont(rv)) : ENCF(REG[cdc], cont(rv), fopts, nf(info.Type, tnumf(info.Type)))))
  ensures [C01:accepted] (info.Type == timeType ? secok(tsec(gtime(cont(rv)))) : EOKF(REG[cdc], cont(rv), nf(info.Type, tnumf(info.Type)))) && isbuf(w) ==> err == nil
  loop 1
    invariant encreg(cdc) && grows(cdc) && $k <= nf(info.Type, tnumf(info.Type))
    invariant $k < nf(info.Type, tnumf(info.Type)) ==> fieldis(info.Fields[$k], info.Type, fidx(info.Type, $k)) && inc(info.Type, fidx(info.Type, $k)) && 0 <= fidx(info.Type, $k) && fidx(info.Type, $k) < tnumf(info.Type) && nf(info.Type, fidx(info.Type, $k)) == $k
    invariant out(buf) == ENCF(REG[cdc], cont(rv), fopts, $k) && EOKF(REG[cdc], cont(rv), $k)
    invariant EOKF(REG[cdc], cont(rv), nf(info.Type, tnumf(info.Type))) ==> $k < nf(info.Type, tnumf(info.Type)) ==> EOKF(REG[cdc], cont(rv), $k + 1)

// a whole value
macro repstruct(t) = islist(t) && kind(telem(t)) == kStruct
func "isStructOrRepeatedStruct" (info) (r)
  props C03
  requires info != nil && info.Type != rt_nil
  ensures [C03:root] r <==> kind(info.Type) == kStruct || repstruct(info.Type)
const fo1 = with(zero(`FieldOptions`), BinFieldNum, 1)
macro rootraw(t) = kind(t) == kStruct || repstruct(t)
macro ROOT(r, g) = (rreg(r, gtyp(g)) ? rpfx(r, gtyp(g)) : bempty) ++ (rootraw(gtyp(g)) ? ENC(r, g, fo1, true) : keyed(1, gtyp(g), fo1, false, ENC(r, g, fo1, t3(gtyp(g), fo1) != 2)))
macro ROOTOK(r, g) = known(r, gtyp(g)) && EOK(r, g, fo1)
func "(*Codec).MarshalBinaryBare" (cdc, o) (bz, err)
  props C03, C02, C19, C09, C16
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  assume encreg(cdc)
  let g = gd(gof(o))
  maypanic when !(o != nil && kind(gtyp(g)) != kPtr && esup(gtyp(g)) && typ3ok(kind(gtyp(g))) && resup(REG[cdc]) && ROOTOK(REG[cdc], g))
  modifies mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc)
  ensures [C16:nobytes] err != nil ==> len(bz) == 0
  ensures [C19:refused] err == nil ==> o != nil && kind(gtyp(g)) != kPtr && ROOTOK(REG[cdc], g)
  ensures [C03:wire] err == nil ==> bytes(bz) == ROOT(REG[cdc], g)
  ensures [C01:accepted] ROOTOK(REG[cdc], g) ==> err == nil
