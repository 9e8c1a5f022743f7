// ---- the JSON encoding of a value (C13, C16, C19, C15, C12) ----
// What MarshalJSON methods and encoding/json.Marshal return: nothing is assumed
// of it except that it is the same for the same value, and that it does not panic where it returns no error.
fn mjok(x: Iface): Bool
fn mjbz(x: Iface): Bytes
fn sjok(x: Iface): Bool
fn sjbz(x: Iface): Bytes
fn b64q(b: Bytes): Bytes       // quoted base64
fn dec(i: Int): Bytes          // decimal
axiom forall (s: Bytes) {box(`string`, s)} :: sjok(box(`string`, s))
axiom forall (t, u: RType) {timpl(t, u)} {implements(t, u)} :: timpl(t, u) <==> implements(t, u)
global jsonMarshalerType == tid(`json.Marshaler`)
axiom timpl(tid(`time.Time`), tid(`json.Marshaler`))
extern "encoding/json.(Marshaler).MarshalJSON" (m) (b, err)
  maypanic when !mjok(m)
  ensures err == nil <==> mjok(m)
  ensures err == nil ==> bytes(b) == mjbz(m)
extern "encoding/json.Marshal" (v) (b, err)
  ensures forall (s: []byte) {box(`[]byte`, s)} :: v == box(`[]byte`, s) && ref(s) != nil ==> err == nil && bytes(b) == b64q(bytes(s))
  ensures !isboxed(v, `[]byte`) ==> (err == nil <==> sjok(v)) && (err == nil ==> bytes(b) == sjbz(v))
extern "fmt.Fprintf" (w, format, a) (n, err)
  modifies OUT(w)
  ensures isbuf(w) ==> err == nil
  ensures forall (i: Int) {box(`int64`, i)} :: len(a) == 1 && a[0] == box(`int64`, i) && format == `"%d"` && err == nil ==> out(w) == old(out(w)) ++ `"` ++ dec(i) ++ `"`
  ensures forall (i: Int) {box(`uint64`, i)} :: len(a) == 1 && a[0] == box(`uint64`, i) && format == `"%d"` && err == nil ==> out(w) == old(out(w)) ++ `"` ++ dec(i) ++ `"`
axiom kind(tid(`[]byte`)) == kSlice
fn gdeq(x, y: Iface): Bool
extern "reflect.DeepEqual" (x, y) (r)
  ensures r <==> gdeq(x, y)
extern "time.(Time).Round" (t, d) (r)
  ensures d <= 0 ==> tsec(r) == tsec(t) && tns(r) == tns(t) && (tutc(r) <==> tutc(t))

// maps: their keys, in order if they are strings, and what is under a key
fn tkey(t: RType): RType
fn gmkey(g: GV, i: Int): GV
fn gmval(g: GV, k: GV): GV
fn strlt(a, b: Bytes): Bool
extern "reflect.(Type).Key" (t) (r)
  maypanic when kind(t) != kMap
  ensures r == tkey(t) && r != rt_nil
axiom forall (g: GV, i: Int) {gmkey(g, i)} :: kind(gtyp(g)) == kMap && 0 <= i && i < glen(g) ==> gtyp(gmkey(g, i)) == tkey(gtyp(g))
axiom forall (g: GV, i, j: Int) {gmkey(g, i), gmkey(g, j)} :: kind(gtyp(g)) == kMap && kind(tkey(gtyp(g))) == kString && 0 <= i && i < j && j < glen(g) ==>
  strlt(gstr(gmkey(g, i)), gstr(gmkey(g, j))) && !strlt(gstr(gmkey(g, j)), gstr(gmkey(g, i)))
axiom forall (g: GV, i: Int) {gmval(g, gmkey(g, i))} :: kind(gtyp(g)) == kMap && 0 <= i && i < glen(g) ==> gtyp(gmval(g, gmkey(g, i))) == telem(gtyp(g))
fn mkat(r: Slice, i: Int): Int
fn mkof(r: Slice, i: Int): Int
extern "reflect.(Value).MapKeys" (v) (r)
  maypanic when rkind(v) != kMap
  ensures rkind(v) == kMap
  ensures isfresh(ref(r)) && off(r) == 0 && len(r) == glen(cont(v))
  // indices of the memory the keys are in
  ensures forall (x: Int) {contents(r)[x]} {mkat(r, x)} :: off(r) <= x && x < off(r) + len(r) ==> rok(contents(r)[x]) && !rset(contents(r)[x]) && 0 <= mkat(r, x) && mkat(r, x) < len(r) && mkof(r, mkat(r, x)) == x && cont(contents(r)[x]) == gmkey(cont(v), mkat(r, x))
  ensures forall (j: Int) {gmkey(cont(v), j)} {mkof(r, j)} :: 0 <= j && j < len(r) ==> off(r) <= mkof(r, j) && mkof(r, j) < off(r) + len(r) && mkat(r, mkof(r, j)) == j && cont(contents(r)[mkof(r, j)]) == gmkey(cont(v), j)
extern "reflect.(Value).MapIndex" (v, k) (r)
  maypanic when !(rkind(v) == kMap && k != rv_invalid && gtyp(cont(k)) == tkey(gtyp(cont(v))))
  ensures rkind(v) == kMap
  ensures forall (i: Int) {gmkey(cont(v), i)} :: 0 <= i && i < glen(cont(v)) && cont(k) == gmkey(cont(v), i) ==> rok(r) && !rset(r) && cont(r) == gmval(cont(v), cont(k)) && gtyp(cont(r)) == telem(gtyp(cont(v)))

// the encoding; ad: whether the value is addressable
macro jsonm(t, ad) = ad ? timpl(tptr(t), tid(`json.Marshaler`)) : kind(t) != kInterface && timpl(t, tid(`json.Marshaler`))
// pointers to interfaces have no methods
axiom forall (t: RType) {timpl(tptr(t), tid(`json.Marshaler`))} :: kind(t) == kInterface ==> !timpl(tptr(t), tid(`json.Marshaler`))
axiom kind(tid(`json.Marshaler`)) == kInterface
axiom forall (g: GV) {giface(g)} :: kind(gtyp(g)) != kInterface ==> giface(g) != inil
// types that can be parsed: jsup is any set of types closed under these conditions (so
// they hold of all types reachable from one of them), and so are all registered ones
fn jsup(t: RType): Bool
axiom forall (t: RType) {jsup(t)} :: jsup(t) ==> kind(t) == kInterface || tiok(t)
axiom forall (t: RType) {jsup(t)} :: jsup(t) && marshaler(t) ==> jsup(tderef(trepr(t)))
axiom forall (t: RType) {jsup(t)} :: jsup(t) && unmarshaler(t) ==> jsup(tderef(turepr(t)))
axiom forall (t: RType) {jsup(t), telem(t)} :: jsup(t) && (islist(t) && kind(telem(t)) != kUint8 || kind(t) == kMap) ==> jsup(tderef(telem(t)))
axiom forall (t: RType, j: Int) {jsup(t), tftype(t, j)} :: jsup(t) && kind(t) == kStruct && t != timeType && 0 <= j && j < tnumf(t) && inc(t, j) ==> jsup(tderef(tftype(t, j)))
fn rjsup(c: Reg): Bool
axiom forall (c: Reg, t: RType) {rjsup(c), rreg(c, t)} :: rjsup(c) && rreg(c, t) ==> jsup(t)
macro jtime(g) = box(`time.Time`, tmk(tsec(gtime(g)), tns(gtime(g))))
macro jstr(s) = sjbz(box(`string`, s))
macro jwrap(c, t, b) = `{"type":` ++ jstr(rname(c, t)) ++ `,"value":` ++ b ++ `}`
macro jempty(g, t) = ispn(g) || gdeq(giface(gd(g)), giface(gzero(t))) || (islist(gtyp(gd(g))) || kind(gtyp(gd(g))) == kString) && glen(gd(g)) == 0
macro jskip(g, j) = fopt(gtyp(g), j).JSONOmitEmpty && jempty(gfield(g, j), tftype(gtyp(g), j))
macro isint64(k) = k == kInt64 || k == kInt
macro isuint64(k) = k == kUint64 || k == kUint
macro isplain(k) = k == kInt32 || k == kInt16 || k == kInt8 || k == kUint32 || k == kUint16 || k == kUint8 || k == kBool || k == kString || isfloat(k)
macro J(c, g, fo, ad) = ispn(g) ? `null` : J0(c, gd(g), fo, ad || kind(gtyp(g)) == kPtr)
rec J0(c: Reg, g: GV, fo: FieldOptions, ad: Bool): Bytes =
  gtyp(g) == timeType ? mjbz(jtime(g)) :
  jsonm(gtyp(g), ad) ? mjbz(giface(ad ? gref(g) : g)) :
  marshaler(gtyp(g)) ? J(c, grepr(g), fo, false) :
  kind(gtyp(g)) == kInterface ? (gnil(g) ? `null` : jwrap(c, gtyp(gd(gdyn(g))), J(c, gdyn(g), fo, false))) :
  islist(gtyp(g)) ? (kind(gtyp(g)) == kSlice && gnil(g) ? `null` : isbytes(gtyp(g)) ? b64q(gbytes(g)) : `[` ++ JL(c, g, fo, ad || kind(gtyp(g)) == kSlice, glen(g)) ++ `]`) :
  kind(gtyp(g)) == kStruct ? `{` ++ JF(c, g, ad, nf(gtyp(g), tnumf(gtyp(g)))) ++ `}` :
  kind(gtyp(g)) == kMap ? `{` ++ JM(c, g, fo, glen(g)) ++ `}` :
  isint64(kind(gtyp(g))) ? `"` ++ dec(gint(g)) ++ `"` : isuint64(kind(gtyp(g))) ? `"` ++ dec(guint(g)) ++ `"` : sjbz(giface(g))
rec JL(c: Reg, g: GV, fo: FieldOptions, ad: Bool, n: Int): Bytes = n <= 0 ? bempty : JL(c, g, fo, ad, n - 1) ++ (n == 1 ? bempty : `,`) ++ J(c, gidx(g, n - 1), fo, ad)
rec JW(g: GV, n: Int): Bool = n > 0 && (JW(g, n - 1) || !jskip(g, fidx(gtyp(g), n - 1)))
rec JF(c: Reg, g: GV, ad: Bool, n: Int): Bytes = n <= 0 ? bempty : jskip(g, fidx(gtyp(g), n - 1)) ? JF(c, g, ad, n - 1) :
  JF(c, g, ad, n - 1) ++ (JW(g, n - 1) ? `,` : bempty) ++ jstr(fopt(gtyp(g), fidx(gtyp(g), n - 1)).JSONName) ++ `:` ++ J(c, gfield(g, fidx(gtyp(g), n - 1)), fopt(gtyp(g), fidx(gtyp(g), n - 1)), ad)
rec JM(c: Reg, g: GV, fo: FieldOptions, n: Int): Bytes = n <= 0 ? bempty : JM(c, g, fo, n - 1) ++ (n == 1 ? bempty : `,`) ++ sjbz(giface(gmkey(g, n - 1))) ++ `:` ++ J(c, gmval(g, gmkey(g, n - 1)), fo, false)
mutual J0, JL, JF, JM

macro JOK(c, g, fo, ad) = ispn(g) || JOK0(c, gd(g), fo, ad || kind(gtyp(g)) == kPtr)
rec JOK0(c: Reg, g: GV, fo: FieldOptions, ad: Bool): Bool =
  gtyp(g) == timeType ? mjok(jtime(g)) :
  jsonm(gtyp(g), ad) ? mjok(giface(ad ? gref(g) : g)) :
  marshaler(gtyp(g)) ? greprok(g) && known(c, gtyp(grepr(g))) && JOK(c, grepr(g), fo, false) :
  kind(gtyp(g)) == kInterface ? gnil(g) || !ispn(gdyn(g)) && kind(gtyp(gd(gdyn(g)))) != kInterface && rreg(c, gtyp(gd(gdyn(g)))) && JOK(c, gdyn(g), fo, false) :
  islist(gtyp(g)) ? kind(gtyp(g)) == kSlice && gnil(g) || isbytes(gtyp(g)) || known(c, tderef(telem(gtyp(g)))) && JOKL(c, g, fo, ad || kind(gtyp(g)) == kSlice, glen(g)) :
  kind(gtyp(g)) == kStruct ? JOKF(c, g, ad, nf(gtyp(g), tnumf(gtyp(g)))) :
  kind(gtyp(g)) == kMap ? kind(tkey(gtyp(g))) == kString && JOKM(c, g, fo, glen(g)) :
  isint64(kind(gtyp(g))) || isuint64(kind(gtyp(g))) || isplain(kind(gtyp(g))) && (isfloat(kind(gtyp(g))) ==> fo.Unsafe) && sjok(giface(g))
rec JOKL(c: Reg, g: GV, fo: FieldOptions, ad: Bool, n: Int): Bool = n <= 0 || JOKL(c, g, fo, ad, n - 1) && JOK(c, gidx(g, n - 1), fo, ad)
rec JOKF(c: Reg, g: GV, ad: Bool, n: Int): Bool = n <= 0 || JOKF(c, g, ad, n - 1) && known(c, tderef(tftype(gtyp(g), fidx(gtyp(g), n - 1)))) &&
  (jskip(g, fidx(gtyp(g), n - 1)) || JOK(c, gfield(g, fidx(gtyp(g), n - 1)), fopt(gtyp(g), fidx(gtyp(g), n - 1)), ad))
rec JOKM(c: Reg, g: GV, fo: FieldOptions, n: Int): Bool = n <= 0 || JOKM(c, g, fo, n - 1) && sjok(giface(gmkey(g, n - 1))) &&
  (ispn(gmval(g, gmkey(g, n - 1))) || known(c, gtyp(gd(gmval(g, gmkey(g, n - 1))))) && JOK(c, gmval(g, gmkey(g, n - 1)), fo, false))
mutual JOK0, JOKL, JOKF, JOKM
lemma [C19] JOKL_mono(c: Reg, g: GV, fo: FieldOptions, ad: Bool, n, m: Int)
  requires n <= m && JOKL(c, g, fo, ad, m) && 0 <= n
  ensures JOKL(c, g, fo, ad, n)
  use ih(c, g, fo, ad, n, m - 1)
  decreases m
  export {JOKL(c, g, fo, ad, n), JOKL(c, g, fo, ad, m)}
lemma [C19] JOKF_mono(c: Reg, g: GV, ad: Bool, n, m: Int)
  requires n <= m && JOKF(c, g, ad, m) && 0 <= n
  ensures JOKF(c, g, ad, n)
  use ih(c, g, ad, n, m - 1)
  decreases m
  export {JOKF(c, g, ad, n), JOKF(c, g, ad, m)}
lemma [C19] JOKM_mono(c: Reg, g: GV, fo: FieldOptions, n, m: Int)
  requires n <= m && JOKM(c, g, fo, m) && 0 <= n
  ensures JOKM(c, g, fo, n)
  use ih(c, g, fo, n, m - 1)
  decreases m
  export {JOKM(c, g, fo, n), JOKM(c, g, fo, m)}

func "writeStr" (w, s) (err)
  props C13, C16
  requires w != nil
  modifies OUT(w)
  ensures [C13:written] err == nil ==> out(w) == old(out(w)) ++ s
  ensures [C16:nofail] isbuf(w) ==> err == nil
func "invokeStdlibJSONMarshal" (w, v) (err)
  props C13, C16
  requires w != nil && !isboxed(v, `[]byte`)
  modifies OUT(w)
  ensures [C13:written] err == nil ==> sjok(v) && out(w) == old(out(w)) ++ sjbz(v)
  ensures [C16:nofail] isbuf(w) && sjok(v) ==> err == nil
func "invokeMarshalJSON" (w, rv) (err)
  props C13, C16
  requires w != nil && rok(rv) && kind(gtyp(cont(rv))) != kInterface && timpl(gtyp(cont(rv)), tid(`json.Marshaler`))
  maypanic when !mjok(giface(cont(rv)))
  modifies OUT(w)
  ensures [C13:written] err == nil ==> mjok(giface(cont(rv))) && out(w) == old(out(w)) ++ mjbz(giface(cont(rv)))
  ensures [C16:nofail] isbuf(w) && mjok(giface(cont(rv))) ==> err == nil
func "writeTypeWrapper" (w, name) (err)
  props C13, C16
  requires w != nil
  modifies OUT(w)
  ensures [C13:written] err == nil ==> out(w) == old(out(w)) ++ `{"type":` ++ jstr(name) ++ `,"value":`
  ensures [C16:nofail] isbuf(w) ==> err == nil
func "isEmpty" (rv, zrv) (r)
  props C13, C20
  requires (rv == rv_invalid || rok(rv)) && zrv != rv_invalid && !rro(zrv)
  ensures [C13:empty] r <==> rv == rv_invalid || gdeq(giface(cont(rv)), giface(cont(zrv))) || (islist(gtyp(cont(rv))) || kind(gtyp(cont(rv))) == kString) && glen(cont(rv)) == 0

macro JREQ(cdc, w, info, rv) = W(cdc) && WI(cdc) && WE(cdc) && w != nil && isreg(cdc, info) && rok(rv)
func "(*Codec).encodeReflectJSON" (cdc, w, info, rv, fopts) (err)
  props C13, C16, C19, C15
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JREQ(cdc, w, info, rv) && tderef(gtyp(cont(rv))) == info.Type
  maypanic when !(jsup(info.Type) && rjsup(REG[cdc]) && JOK(REG[cdc], cont(rv), fopts, rset(rv)))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> JOK(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C13:form] err == nil ==> out(w) == old(out(w)) ++ J(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C12:accepted] JOK(REG[cdc], cont(rv), fopts, rset(rv)) && isbuf(w) ==> err == nil
func "(*Codec).encodeReflectJSONInterface" (cdc, w, iinfo, rv, fopts) (err)
  props C13, C16, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JREQ(cdc, w, iinfo, rv) && gtyp(cont(rv)) == iinfo.Type && kind(iinfo.Type) == kInterface && !jsonm(iinfo.Type, rset(rv))
  maypanic when !(jsup(iinfo.Type) && rjsup(REG[cdc]) && JOK0(REG[cdc], cont(rv), fopts, rset(rv)))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> JOK0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C13:form] err == nil ==> out(w) == old(out(w)) ++ J0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C12:accepted] JOK0(REG[cdc], cont(rv), fopts, rset(rv)) && isbuf(w) ==> err == nil
func "(*Codec).encodeReflectJSONList" (cdc, w, info, rv, fopts) (err)
  props C13, C16, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JREQ(cdc, w, info, rv) && gtyp(cont(rv)) == info.Type && islist(info.Type) && !jsonm(info.Type, rset(rv)) && !marshaler(info.Type)
  let ad = rset(rv) || kind(info.Type) == kSlice
  maypanic when !(jsup(info.Type) && rjsup(REG[cdc]) && JOK0(REG[cdc], cont(rv), fopts, rset(rv)))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> JOK0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C13:form] err == nil ==> out(w) == old(out(w)) ++ J0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C12:accepted] JOK0(REG[cdc], cont(rv), fopts, rset(rv)) && isbuf(w) ==> err == nil
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= glen(cont(rv))
    invariant out(w) == old(out(w)) ++ `[` ++ JL(REG[cdc], cont(rv), fopts, ad, i) ++ (0 < i && i < glen(cont(rv)) ? `,` : bempty) && JOKL(REG[cdc], cont(rv), fopts, ad, i)
    invariant i < glen(cont(rv)) && JOKL(REG[cdc], cont(rv), fopts, ad, glen(cont(rv))) ==> JOKL(REG[cdc], cont(rv), fopts, ad, i + 1)
func "(*Codec).encodeReflectJSONStruct" (cdc, w, info, rv, fopts) (err)
  props C13, C16, C19, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JREQ(cdc, w, info, rv) && gtyp(cont(rv)) == info.Type && kind(info.Type) == kStruct && info.Type != timeType && !jsonm(info.Type, rset(rv)) && !marshaler(info.Type)
  maypanic when !(jsup(info.Type) && rjsup(REG[cdc]) && JOK0(REG[cdc], cont(rv), fopts, rset(rv)))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> JOK0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C13:form] err == nil ==> out(w) == old(out(w)) ++ J0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C12:accepted] JOK0(REG[cdc], cont(rv), fopts, rset(rv)) && isbuf(w) ==> err == nil
  loop 1
    invariant err == nil && encreg(cdc) && grows(cdc) && $k <= nf(info.Type, tnumf(info.Type)) && (writeComma <==> JW(cont(rv), $k))
    invariant $k < nf(info.Type, tnumf(info.Type)) ==> fieldis(info.Fields[$k], info.Type, fidx(info.Type, $k)) && inc(info.Type, fidx(info.Type, $k)) && 0 <= fidx(info.Type, $k) && fidx(info.Type, $k) < tnumf(info.Type) && nf(info.Type, fidx(info.Type, $k)) == $k
    invariant out(w) == old(out(w)) ++ `{` ++ JF(REG[cdc], cont(rv), rset(rv), $k) && JOKF(REG[cdc], cont(rv), rset(rv), $k)
    invariant JOKF(REG[cdc], cont(rv), rset(rv), nf(info.Type, tnumf(info.Type))) ==> $k < nf(info.Type, tnumf(info.Type)) ==> JOKF(REG[cdc], cont(rv), rset(rv), $k + 1)
func "(*Codec).encodeReflectJSONMap" (cdc, w, info, rv, fopts) (err)
  props C13, C16, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JREQ(cdc, w, info, rv) && gtyp(cont(rv)) == info.Type && kind(info.Type) == kMap && !jsonm(info.Type, rset(rv)) && !marshaler(info.Type)
  maypanic when !(jsup(info.Type) && rjsup(REG[cdc]) && JOK0(REG[cdc], cont(rv), fopts, rset(rv)))
  modifies OUT(w), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C19:refused] err == nil ==> JOK0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C13:form] err == nil ==> out(w) == old(out(w)) ++ J0(REG[cdc], cont(rv), fopts, rset(rv))
  ensures [C12:accepted] JOK0(REG[cdc], cont(rv), fopts, rset(rv)) && isbuf(w) ==> err == nil
  loop 1
    invariant err == nil && encreg(cdc) && grows(cdc) && $k <= glen(cont(rv)) && (writeComma <==> $k > 0)
    invariant forall (j: Int) {gmkey(cont(rv), j)} :: 0 <= j && j <= $k && j < glen(cont(rv)) ==> cont(contents(krvs)[off(krvs) + j]) == gmkey(cont(rv), j)
    invariant forall (x: Int) {contents(krvs)[x]} :: off(krvs) <= x && x <= off(krvs) + $k && x < off(krvs) + glen(cont(rv)) ==> cont(contents(krvs)[x]) == gmkey(cont(rv), x - off(krvs))
    invariant JOKM(REG[cdc], cont(rv), fopts, $k)
    invariant out(w) == old(out(w)) ++ `{` ++ JM(REG[cdc], cont(rv), fopts, $k)
    invariant JOKM(REG[cdc], cont(rv), fopts, glen(cont(rv))) ==> $k < glen(cont(rv)) ==> JOKM(REG[cdc], cont(rv), fopts, $k + 1)
const fo0 = zero(`FieldOptions`)
macro JROOT(c, g) = rreg(c, tderef(gtyp(g))) ? jwrap(c, tderef(gtyp(g)), J(c, g, fo0, false)) : J(c, g, fo0, false)
func "(*Codec).MarshalJSON" (cdc, o) (bz, err)
  props C13, C16, C19
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  assume encreg(cdc)
  maypanic when !(o == nil || jsup(tderef(gtyp(gof(o)))) && rjsup(REG[cdc]) && known(REG[cdc], tderef(gtyp(gof(o)))) && JOK(REG[cdc], gof(o), fo0, false))
  modifies mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc)
  ensures [C16:nobytes] err != nil ==> len(bz) == 0
  ensures [C13:nil] o == nil ==> err == nil && bytes(bz) == `null`
  ensures [C19:refused] o != nil && err == nil ==> known(REG[cdc], tderef(gtyp(gof(o)))) && JOK(REG[cdc], gof(o), fo0, false)
  ensures [C13:form] o != nil && err == nil ==> bytes(bz) == JROOT(REG[cdc], gof(o))
  ensures [C12:accepted] o != nil && known(REG[cdc], tderef(gtyp(gof(o)))) && JOK(REG[cdc], gof(o), fo0, false) ==> err == nil
