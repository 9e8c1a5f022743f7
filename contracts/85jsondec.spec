// ---- JSON decoding (C12, C15, C20, C09) ----
// encoding/json: nothing is assumed of what it accepts and of the values it gives except that
// they are functions of the text and of what was there before, and that types stay the same.
fn ujok(g: GV, b: Bytes): Bool        // Unmarshal into a place holding g
fn ujv(g: GV, b: Bytes): GV
fn umok(g: GV, b: Bytes): Bool        // UnmarshalJSON of a pointer to g
fn umv(g: GV, b: Bytes): GV
fn ujtame(t: RType): Bool             // no UnmarshalJSON or UnmarshalText called for the type panics
fn umtame(t: RType): Bool
axiom forall (g: GV, b: Bytes) {ujv(g, b)} :: gtyp(ujv(g, b)) == gtyp(g)
axiom forall (g: GV, b: Bytes) {umv(g, b)} :: gtyp(umv(g, b)) == gtyp(g)
axiom kind(tid(`json.Unmarshaler`)) == kInterface
axiom timpl(tptr(tid(`time.Time`)), tid(`json.Unmarshaler`))
axiom umtame(tid(`time.Time`))
axiom forall (t: RType) {timpl(tptr(t), tid(`json.Unmarshaler`))} :: kind(t) == kInterface ==> !timpl(tptr(t), tid(`json.Unmarshaler`))
global jsonUnmarshalerType == tid(`json.Unmarshaler`)
macro target(p) = kind(gtyp(cont(p))) == kPtr && !gnil(cont(p)) && pwr(pder(rpath(p)))
extern "encoding/json.Unmarshal:reflect" (data, p) (err)
  requires p != rv_invalid && target(p)
  let root = rroot(p)
  let g = gderef(cont(p))
  let G0 = GVAL[rroot(p)]
  maypanic when !ujtame(gtyp(g))
  modifies GVAL(root)
  ensures err == nil <==> ujok(g, bytes(data))
  ensures kept(root, G0, pder(rpath(p)), gtyp(g))
  ensures err == nil ==> GVAL[root] == gput(G0, pder(rpath(p)), ujv(g, bytes(data)))
extern "encoding/json.(Unmarshaler).UnmarshalJSON:reflect" (p, data) (err)
  requires p != rv_invalid && target(p)
  let root = rroot(p)
  let g = gderef(cont(p))
  let G0 = GVAL[rroot(p)]
  maypanic when !umtame(gtyp(g))
  modifies GVAL(root)
  ensures err == nil <==> umok(g, bytes(data))
  ensures kept(root, G0, pder(rpath(p)), gtyp(g))
  ensures err == nil ==> GVAL[root] == gput(G0, pder(rpath(p)), umv(g, bytes(data)))
// byte strings, arrays and objects (whose parts stay as they are), and type wrappers
fn jbok(b: Bytes): Bool
fn jbv(b: Bytes): Bytes
fn jaok(b: Bytes): Bool
fn jalen(b: Bytes): Int
fn jael(b: Bytes, i: Int): Bytes
fn jmok(b: Bytes): Bool
fn jmhas(b: Bytes, k: Bytes): Bool
fn jmval(b: Bytes, k: Bytes): Bytes
fn jwok(b: Bytes): Bool
fn jwname(b: Bytes): Bytes
fn jwdata(b: Bytes): Bytes
axiom forall (b: Bytes) {jalen(b)} :: 0 <= jalen(b) && jalen(b) <= 1125899906842624
axiom forall (b: Bytes) {jbv(b)} :: blen(jbv(b)) <= 1125899906842624
axiom forall (b, k: Bytes) {jmval(b, k)} :: !jmhas(b, k) ==> jmval(b, k) == bempty
extern "encoding/json.Unmarshal:[]byte" (data, v) (r, err)
  requires ref(v) == nil
  ensures err == nil <==> jbok(bytes(data))
  ensures err == nil ==> bytes(r) == jbv(bytes(data))
  ensures isfresh(ref(r)) || len(r) == 0
extern "encoding/json.Unmarshal:[]json.RawMessage" (data, v) (r, err)
  requires ref(v) == nil
  ensures err == nil <==> jaok(bytes(data))
  ensures err == nil ==> len(r) == jalen(bytes(data)) && (forall (i: Int) {r[i]} {jael(bytes(data), i)} :: 0 <= i && i < len(r) ==> bytes(r[i]) == jael(bytes(data), i) && (isfresh(ref(r[i])) || ref(r[i]) == nil))
  ensures isfresh(ref(r)) || len(r) == 0
extern "encoding/json.Unmarshal:map[string]json.RawMessage" (data, v) (r, err)
  requires v == nil || (forall (k: Bytes) {has(v, k)} :: !has(v, k))
  ensures err == nil <==> jmok(bytes(data))
  ensures r == nil || isfresh(r)
  ensures err == nil && r != nil ==> (forall (k: Bytes) {has(r, k)} {jmhas(bytes(data), k)} :: (has(r, k) <==> jmhas(bytes(data), k)) && (has(r, k) ==> bytes(r[k]) == jmval(bytes(data), k) && (isfresh(ref(r[k])) || ref(r[k]) == nil)))
  ensures err == nil && r == nil ==> (forall (k: Bytes) {jmhas(bytes(data), k)} :: !jmhas(bytes(data), k))
extern "encoding/json.Unmarshal:disfixWrapper" (data, v) (r, err)
  requires v.Name == "" && ref(v.Data) == nil
  ensures err == nil <==> jwok(bytes(data))
  ensures err == nil ==> r.Name == jwname(bytes(data)) && bytes(r.Data) == jwdata(bytes(data))

// true: names a term the proof has to look at
fn seen(b: Bool): Bool
fn seenb(b: Bytes): Bool
axiom forall (b: Bool) {seen(b)} :: seen(b)
axiom forall (b: Bytes) {seenb(b)} :: seenb(b)

// making maps
fn gmhas(g: GV, k: Bytes): Bool       // of maps with string keys
fn gmget(g: GV, k: Bytes): GV
fn gmset(g: GV, k, v: GV): GV
fn gmake(t: RType): GV
fn gmdiff(g, h: GV): Bytes            // a key under which they are not the same, if there is one
axiom forall (t: RType) {gmake(t)} :: kind(t) == kMap ==> gtyp(gmake(t)) == t && !gnil(gmake(t))
axiom forall (t: RType, k: Bytes) {gmhas(gmake(t), k)} :: kind(t) == kMap ==> !gmhas(gmake(t), k)
axiom forall (g, k, v: GV) {gmset(g, k, v)} :: gtyp(gmset(g, k, v)) == gtyp(g) && !gnil(gmset(g, k, v))
axiom forall (g, k, v: GV, s: Bytes) {gmhas(gmset(g, k, v), s)} :: kind(gtyp(g)) == kMap && kind(gtyp(k)) == kString ==> (gmhas(gmset(g, k, v), s) <==> s == gstr(k) || gmhas(g, s))
axiom forall (g, k, v: GV, s: Bytes) {gmget(gmset(g, k, v), s)} :: kind(gtyp(g)) == kMap && kind(gtyp(k)) == kString ==> gmget(gmset(g, k, v), s) == (s == gstr(k) ? v : gmget(g, s))
axiom forall (g, h: GV) {gmdiff(g, h)} :: kind(gtyp(g)) == kMap && kind(tkey(gtyp(g))) == kString && gtyp(g) == gtyp(h) && !gnil(g) && !gnil(h) &&
  (gmhas(g, gmdiff(g, h)) <==> gmhas(h, gmdiff(g, h))) && (gmhas(g, gmdiff(g, h)) ==> gmget(g, gmdiff(g, h)) == gmget(h, gmdiff(g, h))) ==> g == h
extern "reflect.MakeMapWithSize" (t, n) (r)
  maypanic when kind(t) != kMap
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gmake(t) && !rro(r) && valid(rroot(r))
extern "reflect.(Value).SetMapIndex" (m, k, v)
  let root = rroot(m)
  maypanic when !(rkind(m) == kMap && !rro(m) && !gnil(cont(m)) && k != rv_invalid && !rro(k) && gtyp(cont(k)) == tkey(gtyp(cont(m))) && v != rv_invalid && !rro(v) && gtyp(cont(v)) == telem(gtyp(cont(m))))
  modifies GVAL(root)
  ensures pwr(rpath(m)) && v != rv_invalid ==> GVAL[root] == gput(old(GVAL[root]), rpath(m), gmset(old(cont(m)), old(cont(k)), old(cont(v))))
fn gmkslice(t: RType, n: Int): GV
axiom forall (t: RType, n: Int) {gmkslice(t, n)} :: kind(t) == kSlice && 0 <= n && n <= 1125899906842624 ==> gtyp(gmkslice(t, n)) == t && !gnil(gmkslice(t, n)) && glen(gmkslice(t, n)) == n
axiom forall (t: RType, n, i: Int) {gidx(gmkslice(t, n), i)} :: kind(t) == kSlice && 0 <= i && i < n ==> gidx(gmkslice(t, n), i) == gzero(telem(t))
extern "reflect.MakeSlice" (t, n, c) (r)
  maypanic when !(kind(t) == kSlice && 0 <= n && n <= c && c <= 1125899906842624)
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gmkslice(t, n) && !rset(r) && !rro(r) && valid(rroot(r))

// the decoding: DR with no bytes counted
macro jquoted(b) = blen(b) >= 2 && at(b, 0) == 34 && at(b, blen(b) - 1) == 34
macro jtz(b) = jquoted(b) && at(b, blen(b) - 2) == 90
macro jdig(x) = 48 <= x && x <= 57
macro jintok(b) = blen(b) > 0 && (at(b, 0) == 45 || jdig(at(b, 0))) && jdig(at(b, blen(b) - 1))
macro jin(b) = sub(b, 1, blen(b) - 2)
macro jstd(g, b) = ujok(g, b) ? dr(0, ujv(g, b)) : dfail
def DJSC(g: GV, fo: FieldOptions, b: Bytes): DR =
  isint64(kind(gtyp(g))) || isuint64(kind(gtyp(g))) ? (jquoted(b) && jintok(jin(b)) ? jstd(gzero(gtyp(g)), jin(b)) : dfail) :
  isplain(kind(gtyp(g))) && (isfloat(kind(gtyp(g))) ==> fo.Unsafe) ? jstd(gzero(gtyp(g)), b) : dfail
def DJBA(t: RType, b: Bytes): DR = jbok(b) && blen(jbv(b)) == tlen(t) ? dr(0, gofby(t, jbv(b))) : dfail
def DJBS(g: GV, b: Bytes): DR = ujok(g, b) ? dr(0, glen(ujv(g, b)) == 0 ? gzero(gtyp(g)) : ujv(g, b)) : dfail
macro wrok(b) = jwok(b) && jwname(b) != bempty && blen(jwdata(b)) > 0
macro junm(t) = timpl(tptr(t), tid(`json.Unmarshaler`))
macro DJ(c, g, fo, b) = b == `null` ? dr(0, gzero(gtyp(g))) : dwrap(DJ1(c, gd0(g), fo, b), g)
rec DJ1(c: Reg, g: GV, fo: FieldOptions, b: Bytes): DR =
  gtyp(g) == timeType && !jtz(b) ? dfail :
  junm(gtyp(g)) ? (umok(g, b) ? dr(0, umv(g, b)) : dfail) :
  unmarshaler(gtyp(g)) ? (known(c, tderef(turepr(gtyp(g)))) ? dun(DJ(c, gzero(turepr(gtyp(g))), fo, b), g) : dfail) :
  kind(gtyp(g)) == kInterface ? DJI(c, gtyp(g), fo, b) :
  isbytes(gtyp(g)) ? (kind(gtyp(g)) == kArray ? DJBA(gtyp(g), b) : DJBS(g, b)) :
  islist(gtyp(g)) ? (known(c, tderef(telem(gtyp(g)))) && jaok(b) ? DJL(c, g, fo, b) : dfail) :
  kind(gtyp(g)) == kStruct ? (jmok(b) ? DJF(c, g, 0, b) : dfail) :
  kind(gtyp(g)) == kMap ? (jmok(b) && kind(tkey(gtyp(g))) == kString && known(c, tderef(telem(gtyp(g)))) && DJMO(c, telem(gtyp(g)), fo, b) ? dr(0, DJMV(c, gtyp(g), fo, b)) : dfail) :
  DJSC(g, fo, b)
macro DJI(c, i, fo, b) = !wrok(b) || rnam(c, jwname(b)) == rt_nil || !implsok(c, rnam(c, jwname(b)), i) ? dfail : DJIV(c, rnam(c, jwname(b)), i, DJ(c, gzero(rnam(c, jwname(b))), fo, jwdata(b)))
def DJIV(c: Reg, t, i: RType, r: DR): DR = dok(r) ? dr(0, gheld(c, t, i, dv(r))) : dfail
macro DJL(c, g, fo, b) = kind(gtyp(g)) == kArray ? (jalen(b) == tlen(gtyp(g)) ? DJE(c, g, fo, 0, b) : dfail) :
  jalen(b) == 0 ? dr(0, gzero(gtyp(g))) : dcast(DJE(c, gmkslice(tslice(telem(gtyp(g))), jalen(b)), fo, 0, b), gtyp(g))
def dcast(r: DR, t: RType): DR = dok(r) ? dr(0, scast(dv(r), t)) : dfail
// the elements of an array from the i-th on
rec DJE(c: Reg, g: GV, fo: FieldOptions, i: Int, b: Bytes): DR = i >= jalen(b) ? dr(0, g) : DJE2(c, g, fo, i, b, DJ(c, gidx(g, i), fo, jael(b, i)))
macro DJE2(c, g, fo, i, b, r) = dok(r) ? DJE(c, gseti(g, i, dv(r)), fo, i + 1, b) : dfail
// the fields of a struct from the k-th on
rec DJF(c: Reg, g: GV, k: Int, b: Bytes): DR = k >= nf(gtyp(g), tnumf(gtyp(g))) ? dr(0, g) : DJF1(c, g, k, fidx(gtyp(g), k), b)
macro DJF1(c, g, k, j, b) = !known(c, tderef(tftype(gtyp(g), j))) ? dfail :
  blen(jmval(b, fopt(gtyp(g), j).JSONName)) == 0 ? DJF(c, fopt(gtyp(g), j).JSONOmitEmpty ? g : gsetf(g, j, gzero(tftype(gtyp(g), j))), k + 1, b) :
  DJF2(c, g, k, j, b, DJ(c, gfield(g, j), fopt(gtyp(g), j), jmval(b, fopt(gtyp(g), j).JSONName)))
macro DJF2(c, g, k, j, b, r) = dok(r) ? DJF(c, gsetf(g, j, dv(r)), k + 1, b) : dfail
// maps: all entries decode, each into a zero value
rec DJMO(c: Reg, t: RType, fo: FieldOptions, b: Bytes): Bool = forall (k: Bytes) {jmhas(b, k)} :: jmhas(b, k) ==> dok(DJ(c, gzero(t), fo, jmval(b, k)))
fn DJMV(c: Reg, t: RType, fo: FieldOptions, b: Bytes): GV
axiom forall (c: Reg, t: RType, fo: FieldOptions, b: Bytes) {DJMV(c, t, fo, b)} :: kind(t) == kMap ==> gtyp(DJMV(c, t, fo, b)) == t && !gnil(DJMV(c, t, fo, b))
axiom forall (c: Reg, t: RType, fo: FieldOptions, b, k: Bytes) {gmhas(DJMV(c, t, fo, b), k)} :: kind(t) == kMap ==> (gmhas(DJMV(c, t, fo, b), k) <==> jmhas(b, k))
axiom forall (c: Reg, t: RType, fo: FieldOptions, b, k: Bytes) {gmget(DJMV(c, t, fo, b), k)} :: kind(t) == kMap && jmhas(b, k) ==> gmget(DJMV(c, t, fo, b), k) == dv(DJ(c, gzero(telem(t)), fo, jmval(b, k)))
mutual DJ1, DJE, DJF, DJMO

// types for which decoding does not panic: any set closed under these conditions
fn jdsup(t: RType): Bool
axiom forall (t: RType) {jdsup(t)} :: jdsup(t) ==> kind(t) == kInterface || tiok(t)
axiom forall (t: RType) {jdsup(t)} :: jdsup(t) && junm(t) ==> umtame(t)
axiom forall (t: RType) {jdsup(t)} :: jdsup(t) && !junm(t) && unmarshaler(t) ==> unopanic(t) && jdsup(tderef(turepr(t))) && !ptif(turepr(t))
macro plainj(t) = !junm(t) && !unmarshaler(t)
axiom forall (t: RType) {jdsup(t)} :: jdsup(t) && plainj(t) ==> (dkind(kind(t)) || kind(t) == kMap) && ujtame(t) && (islist(t) && kind(telem(t)) != kUint8 || kind(t) == kMap ==> jdsup(tderef(telem(t))) && !ptif(telem(t)))
axiom forall (t: RType, j: Int) {jdsup(t), tftype(t, j)} :: jdsup(t) && plainj(t) && kind(t) == kStruct && 0 <= j && j < tnumf(t) && inc(t, j) ==> jdsup(tderef(tftype(t, j))) && !ptif(tftype(t, j))
fn rjdsup(c: Reg): Bool
axiom forall (c: Reg, n: Bytes) {rnam(c, n)} :: rjdsup(c) ==> rnam(c, n) == rt_nil || jdsup(rnam(c, n))

func "nullBytes" (b) (r)
  props C12
  ensures [C12:null] r <==> bytes(b) == `null`
func "isDigit" (b) (r)
  props C12
  ensures [C12:digit] r <==> jdig(b)
func "decodeInterfaceJSON" (bz) (name, data, err)
  props C12, C09
  ensures [C12:wrapper] err == nil <==> wrok(bytes(bz))
  ensures [C12:wrapper] err == nil ==> name == jwname(bytes(bz)) && bytes(data) == jwdata(bytes(bz))
func "invokeStdlibJSONUnmarshal" (bz, rv, fopts) (err)
  props C12
  requires rok(rv) && rset(rv) && kind(gtyp(cont(rv))) != kPtr
  let root = rroot(rv)
  let t = gtyp(cont(rv))
  maypanic when !ujtame(gtyp(cont(rv)))
  modifies GVAL(root)
  ensures [C12:accepts] err == nil <==> ujok(gzero(t), bytes(bz))
  ensures [C05:kept] kept(root, old(GVAL[root]), rpath(rv), t)
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), ujv(gzero(t), bytes(bz)))
func "(*Codec).decodeReflectJSON" (cdc, bz, info, rv, fopts) (err)
  props C12, C15, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires DECREQ(cdc, info, rv) && tderef(gtyp(cont(rv))) == info.Type
  let root = rroot(rv)
  let path = rpath(rv)
  let G0 = GVAL[rroot(rv)]
  let g0 = cont(rv)
  let R = DJ(REG[cdc], cont(rv), fopts, bytes(bz))
  maypanic when !(jdsup(info.Type) && !ptif(gtyp(cont(rv))) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C12:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == gtyp(g0)
  loop 1
    invariant rok(rv) && rset(rv) && rroot(rv) == root && gd0(cont(rv)) == gd0(g0) && tderef(gtyp(cont(rv))) == info.Type
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gput(GVAL[root], rpath(rv), cont(rv)) == GVAL[root]
    invariant forall (x: GV) {gw(g0, x)} {gput(GVAL[root], rpath(rv), x)} :: gtyp(x) == info.Type ==> gput(GVAL[root], rpath(rv), gw(cont(rv), x)) == gput(G0, path, gw(g0, x))

macro JDREQ(cdc, info, rv) = DECREQ(cdc, info, rv) && gtyp(cont(rv)) == info.Type && plainj(info.Type)
func "(*Codec).decodeReflectJSONInterface" (cdc, bz, iinfo, rv, fopts) (err)
  props C12, C09
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JDREQ(cdc, iinfo, rv) && kind(iinfo.Type) == kInterface
  let root = rroot(rv)
  let R = DJI(REG[cdc], gtyp(cont(rv)), fopts, bytes(bz))
  maypanic when !(jdsup(iinfo.Type) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C09:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C09:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == iinfo.Type
func "(*Codec).decodeReflectJSONArray" (cdc, bz, info, rv, fopts) (err)
  props C12
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JDREQ(cdc, info, rv) && kind(info.Type) == kArray
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DJ1(REG[cdc], cont(rv), fopts, bytes(bz))
  maypanic when !(jdsup(info.Type) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  // Bytes of a slice of an array is the array's memory: what is written to it is in the array
  atexit GVAL(root) = gput(GVAL[root], rpath(rv), gofby(old(gtyp(cont(rv))), bytes(callres("reflect.(Value).Bytes", 0, 0)))) when ncalls("reflect.(Value).Bytes") == 1 && callarg("reflect.(Value).Bytes", 0, 0) != rv_invalid && rroot(callarg("reflect.(Value).Bytes", 0, 0)) == root && rpath(callarg("reflect.(Value).Bytes", 0, 0)) == pslc(rpath(rv), 0, tlen(old(gtyp(cont(rv)))))
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C12:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= tlen(info.Type) && err == nil
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant DJE(REG[cdc], g0, fopts, 0, bytes(bz)) == DJE(REG[cdc], cont(rv), fopts, i, bytes(bz))
func "(*Codec).decodeReflectJSONSlice" (cdc, bz, info, rv, fopts) (err)
  props C12
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JDREQ(cdc, info, rv) && kind(info.Type) == kSlice
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DJ1(REG[cdc], cont(rv), fopts, bytes(bz))
  let s0 = gmkslice(tslice(telem(gtyp(cont(rv)))), jalen(bytes(bz)))
  maypanic when !(jdsup(info.Type) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C12:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, einfo) && i <= length && err == nil
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(srv)) == tslice(telem(info.Type)) && glen(cont(srv)) == length
    invariant DJE(REG[cdc], s0, fopts, 0, bytes(bz)) == DJE(REG[cdc], cont(srv), fopts, i, bytes(bz))
func "(*Codec).decodeReflectJSONStruct" (cdc, bz, info, rv, fopts) (err)
  props C12, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JDREQ(cdc, info, rv) && kind(info.Type) == kStruct && info.Type != timeType
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DJ1(REG[cdc], cont(rv), fopts, bytes(bz))
  maypanic when !(jdsup(info.Type) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C12:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  loop 1
    invariant encreg(cdc) && grows(cdc) && $k <= nf(info.Type, tnumf(info.Type)) && err == nil
    invariant forall (k: Int) {fidx(info.Type, k)} :: 0 <= k && k < nf(info.Type, tnumf(info.Type)) ==> fieldis(info.Fields[k], info.Type, fidx(info.Type, k)) && inc(info.Type, fidx(info.Type, k)) && 0 <= fidx(info.Type, k) && fidx(info.Type, k) < tnumf(info.Type) && nf(info.Type, fidx(info.Type, k)) == k
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(rv)) == info.Type && GVAL[root] == gput(old(GVAL[root]), rpath(rv), cont(rv))
    invariant DJF(REG[cdc], g0, 0, bytes(bz)) == DJF(REG[cdc], cont(rv), $k, bytes(bz))
func "(*Codec).decodeReflectJSONMap" (cdc, bz, info, rv, fopts) (err)
  props C12
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  requires JDREQ(cdc, info, rv) && kind(info.Type) == kMap
  let root = rroot(rv)
  let g0 = cont(rv)
  let R = DJ1(REG[cdc], cont(rv), fopts, bytes(bz))
  maypanic when !(jdsup(info.Type) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc) && grows(cdc)
  ensures [C12:accepts] err == nil <==> dok(R)
  ensures [C12:kept] kept(root, old(GVAL[root]), rpath(rv), old(gtyp(cont(rv))))
  ensures [C12:value] err == nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(rv), dv(R)) && gtyp(dv(R)) == info.Type
  loop 1
    invariant encreg(cdc) && grows(cdc) && isreg(cdc, vinfo) && err == nil
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant gtyp(cont(mrv)) == info.Type && !gnil(cont(mrv))
    invariant forall (k: Bytes) {$seen[k]} {gmhas(cont(mrv), k)} :: $seen[k] ? gmhas(cont(mrv), k) && jmhas(bytes(bz), k) && dok(DJ(REG[cdc], gzero(telem(info.Type)), fopts, jmval(bytes(bz), k))) && gmget(cont(mrv), k) == dv(DJ(REG[cdc], gzero(telem(info.Type)), fopts, jmval(bytes(bz), k))) : !gmhas(cont(mrv), k)
    invariant seen(DJMO(REG[cdc], telem(info.Type), fopts, bytes(bz)))
    invariant seenb(gmdiff(cont(mrv), DJMV(REG[cdc], info.Type, fopts, bytes(bz))))

macro DJROOT(c, g, b) = blen(b) == 0 || !known(c, tderef(gtyp(g))) ? dfail : !rreg(c, tderef(gtyp(g))) ? DJ(c, g, fo0, b) :
  wrok(b) && jwname(b) == rname(c, tderef(gtyp(g))) ? DJ(c, g, fo0, jwdata(b)) : dfail
func "(*Codec).UnmarshalJSON" (cdc, bz, ptr) (err)
  props C12, C09, C16
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem, cnt_range
  assume encreg(cdc)
  let root = iroot(ptr)
  let isptr = ptr != nil && kind(itype(ptr)) == kPtr
  let R = DJROOT(REG[cdc], gderef(gof(ptr)), bytes(bz))
  maypanic when !(len(bz) == 0 || !isptr || !gnil(gof(ptr)) && jdsup(tderef(telem(itype(ptr)))) && !ptif(telem(itype(ptr))) && rjdsup(REG[cdc]))
  modifies GVAL(root), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] encreg(cdc)
  ensures [C12:pointer] !isptr ==> err != nil
  ensures [C12:accepts] isptr ==> (err == nil <==> dok(R))
  ensures [C12:value] err == nil ==> gof(ptr) == gref(dv(R)) && gtyp(gof(ptr)) == itype(ptr)
