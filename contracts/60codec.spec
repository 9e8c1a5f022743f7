// ---- the registry (C10) ----
// how often x is among the n entries of a from o on
rec cnt(a: [Int]*TypeInfo, o: Int, n: Int, x: *TypeInfo): Int = n <= 0 ? 0 : cnt(a, o, n - 1, x) + (a[o + n - 1] == x ? 1 : 0)
lemma [C10] cnt_range(a: [Int]*TypeInfo, o: Int, n: Int, x: *TypeInfo)
  ensures cnt(a, o, n, x) >= 0
  use ih(a, o, n - 1, x)
  decreases n
  export {cnt(a, o, n, x)}
lemma [C10] cnt_store(a: [Int]*TypeInfo, o: Int, n: Int, x: *TypeInfo, i: Int, v: *TypeInfo)
  requires i >= o + n
  ensures cnt(store(a, i, v), o, n, x) == cnt(a, o, n, x)
  use ih(a, o, n - 1, x, i, v)
  decreases n
  export {cnt(store(a, i, v), o, n, x)}
lemma [C10] cnt_push(a: [Int]*TypeInfo, o: Int, n: Int, x: *TypeInfo, i: Int, v: *TypeInfo)
  requires i == o + n - 1 && n >= 1
  ensures cnt(store(a, i, v), o, n, x) == cnt(a, o, n - 1, x) + (v == x ? 1 : 0)
  use cnt_store(a, o, n - 1, x, i, v)
  export {cnt(store(a, i, v), o, n, x)}
lemma [C10] cnt_mono(a: [Int]*TypeInfo, o: Int, n: Int, m: Int, x: *TypeInfo)
  requires n <= m
  ensures cnt(a, o, n, x) <= cnt(a, o, m, x)
  use ih(a, o, n, m - 1, x)
  decreases m
  export {cnt(a, o, n, x), cnt(a, o, m, x)}
lemma [C10] cnt_in(a: [Int]*TypeInfo, o: Int, n: Int, j: Int)
  requires 0 <= j && j < n
  ensures cnt(a, o, n, a[o + j]) >= 1
  use ih(a, o, n - 1, j)
  decreases n
lemma [C10] cnt_elem(a: [Int]*TypeInfo, o: Int, n: Int, x: *TypeInfo, i: Int)
  requires o <= i && i < o + n
  ensures cnt(a, o, n, a[i]) >= 1
  use cnt_in(a, o, n, i - o)
  export {cnt(a, o, n, x), a[i]}
macro lcnt(l, x) = cnt(contents(l), off(l), len(l), x)
// whether d is among the n entries of a from o on
rec hasd(a: [Int]Bytes, o: Int, n: Int, d: Bytes): Bool = n <= 0 ? false : a[o + n - 1] == d || hasd(a, o, n - 1, d)
lemma [C10] hasd_mono(a: [Int]Bytes, o: Int, n: Int, m: Int, d: Bytes)
  requires n <= m && hasd(a, o, n, d)
  ensures hasd(a, o, m, d)
  use ih(a, o, n, m - 1, d)
  decreases m
  export {hasd(a, o, n, d), hasd(a, o, m, d)}
lemma [C10] hasd_elem(a: [Int]Bytes, o: Int, m: Int, d: Bytes, i: Int)
  requires o <= i && i < o + m
  ensures hasd(a, o, m, a[i])
  use hasd_mono(a, o, i - o + 1, m, a[i])
  export {hasd(a, o, m, d), a[i]}
macro lhas(l, d) = hasd(contents(l), off(l), len(l), d)

macro disfix(x) = x.Disamb ++ x.Prefix
macro isreg(cdc, x) = x != nil && has(cdc.typeInfos, x.Type) && cdc.typeInfos[x.Type] == x
macro isconc(cdc, x) = isreg(cdc, x) && kind(x.Type) != kInterface && x.Registered
macro isifc(cdc, x) = isreg(cdc, x) && kind(x.Type) == kInterface

macro codecok(cdc) = cdc != nil && cdc.typeInfos != nil && valid(cdc.typeInfos) && cdc.disfixToTypeInfo != nil && valid(cdc.disfixToTypeInfo) && cdc.nameToTypeInfo != nil && valid(cdc.nameToTypeInfo) &&
  (len(cdc.interfaceInfos) > 0 ==> valid(cdc.interfaceInfos)) && (len(cdc.concreteInfos) > 0 ==> valid(cdc.concreteInfos))

func "(*Codec).assertNewTypeInfoNolock" (cdc, info)
  props C10
  requires codecok(cdc) && info != nil && info.Type != rt_nil
  maypanic when kind(info.Type) == kPtr || has(cdc.typeInfos, info.Type) || kind(info.Type) != kInterface && info.Registered && (has(cdc.disfixToTypeInfo, disfix(info)) || has(cdc.nameToTypeInfo, info.Name))
  atomic
  ensures [C10:conflict] kind(info.Type) != kPtr && !has(cdc.typeInfos, info.Type)
  ensures [C10:conflict] kind(info.Type) != kInterface && info.Registered ==> !has(cdc.disfixToTypeInfo, disfix(info)) && !has(cdc.nameToTypeInfo, info.Name)

func "checkInPrio" (iinfo, cinfo, numImpls) (err)
  props C10
  requires iinfo != nil && cinfo != nil
  ensures [C10:prio] err == nil <==> lhas(iinfo.InterfaceInfo.Priority, disfix(cinfo))
  loop 1
    invariant inPrio <==> hasd(contents(iinfo.InterfaceInfo.Priority), off(iinfo.InterfaceInfo.Priority), $k, disfix(cinfo))
    invariant $k <= len(iinfo.InterfaceInfo.Priority)
    candidate !hasd(contents(iinfo.InterfaceInfo.Priority), off(iinfo.InterfaceInfo.Priority), $k, disfix(cinfo))

// the entries of a list of infos are infos
macro infook(x) = x.Type != rt_nil && x.PtrToType == tptr(x.Type) && kind(x.Type) != kPtr
macro allvalid(l) = forall (j: Int) {contents(l)[j]} :: off(l) <= j && j < off(l) + len(l) ==> contents(l)[j] != nil && valid(contents(l)[j]) && infook(contents(l)[j])
func "(*Codec).setTypeInfoNolock" (cdc, info)
  props C10
  requires codecok(cdc) && info != nil && info.Type != rt_nil
  maypanic when kind(info.Type) == kPtr || has(cdc.typeInfos, info.Type) || kind(info.Type) != kInterface && info.Registered && (has(cdc.disfixToTypeInfo, disfix(info)) || has(cdc.nameToTypeInfo, info.Name))
  atomic
  modifies mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures codecok(cdc)
  ensures [C10:conflict] kind(info.Type) != kPtr && !old(has(cdc.typeInfos, info.Type))
  ensures [C10:conflict] kind(info.Type) != kInterface && info.Registered ==> !old(has(cdc.disfixToTypeInfo, disfix(info))) && !old(has(cdc.nameToTypeInfo, info.Name))
  ensures [C10:lists] infook(info) && valid(info) && old(allvalid(cdc.interfaceInfos)) ==> allvalid(cdc.interfaceInfos)
  ensures [C10:lists] infook(info) && valid(info) && old(allvalid(cdc.concreteInfos)) ==> allvalid(cdc.concreteInfos)
  ensures [C10:type] domof(cdc.typeInfos) == store(old(domof(cdc.typeInfos)), info.Type, true) && valof(cdc.typeInfos) == store(old(valof(cdc.typeInfos)), info.Type, info)
  ensures [C10:interface] forall (x: *TypeInfo) {lcnt(cdc.interfaceInfos, x)} :: lcnt(cdc.interfaceInfos, x) == old(lcnt(cdc.interfaceInfos, x)) + (kind(info.Type) == kInterface && x == info ? 1 : 0)
  ensures [C10:concrete] forall (x: *TypeInfo) {lcnt(cdc.concreteInfos, x)} :: lcnt(cdc.concreteInfos, x) == old(lcnt(cdc.concreteInfos, x)) + (kind(info.Type) != kInterface && info.Registered && x == info ? 1 : 0)
  ensures [C10:disfix] kind(info.Type) != kInterface && info.Registered ? domof(cdc.disfixToTypeInfo) == store(old(domof(cdc.disfixToTypeInfo)), disfix(info), true) && valof(cdc.disfixToTypeInfo) == store(old(valof(cdc.disfixToTypeInfo)), disfix(info), info) : domof(cdc.disfixToTypeInfo) == old(domof(cdc.disfixToTypeInfo)) && valof(cdc.disfixToTypeInfo) == old(valof(cdc.disfixToTypeInfo))
  ensures [C10:name] kind(info.Type) != kInterface && info.Registered ? domof(cdc.nameToTypeInfo) == store(old(domof(cdc.nameToTypeInfo)), info.Name, true) && valof(cdc.nameToTypeInfo) == store(old(valof(cdc.nameToTypeInfo)), info.Name, info) : domof(cdc.nameToTypeInfo) == old(domof(cdc.nameToTypeInfo)) && valof(cdc.nameToTypeInfo) == old(valof(cdc.nameToTypeInfo))


// one interface's implementers, collected from the first k of a list of concrete types
macro implok(m, l, k, t) = forall (x: *TypeInfo, pb: Bytes) {cnt(contents(m[pb]), off(m[pb]), len(m[pb]), x)} :: has(m, pb) ==> lcnt(m[pb], x) == (x.Prefix == pb && timpl(x.PtrToType, t) ? cnt(contents(l), off(l), k, x) : 0)
macro implhas(m, l, k, t) = forall (x: *TypeInfo) {cnt(contents(l), off(l), k, x)} {has(m, x.Prefix)} :: cnt(contents(l), off(l), k, x) >= 1 && timpl(x.PtrToType, t) ==> has(m, x.Prefix)
macro impllen(m) = forall (pb: Bytes) {has(m, pb)} :: has(m, pb) ==> len(m[pb]) >= 1 && valid(m[pb])

func "(*Codec).collectImplementersNolock" (cdc, info)
  props C10
  requires codecok(cdc) && allvalid(cdc.concreteInfos)
  requires info != nil && info.Type != rt_nil && kind(info.Type) == kInterface && info.Implementers != nil
  requires forall (pb: Bytes) {has(info.Implementers, pb)} :: !has(info.Implementers, pb)
  modifies mapof(info.Implementers)
  ensures [C10:implementers] implok(info.Implementers, cdc.concreteInfos, len(cdc.concreteInfos), info.Type)
  ensures [C10:complete] implhas(info.Implementers, cdc.concreteInfos, len(cdc.concreteInfos), info.Type)
  ensures [C10:lists] impllen(info.Implementers)
  ensures [C10:lists] forall (pb: Bytes) {has(info.Implementers, pb)} :: has(info.Implementers, pb) ==> allvalid(info.Implementers[pb])
  loop 1
    invariant $k <= len(cdc.concreteInfos)
    invariant implok(info.Implementers, cdc.concreteInfos, $k, info.Type)
    invariant implhas(info.Implementers, cdc.concreteInfos, $k, info.Type)
    invariant impllen(info.Implementers)
    invariant forall (pb: Bytes) {has(info.Implementers, pb)} :: has(info.Implementers, pb) ==> allvalid(info.Implementers[pb])

// of the types that share a prefix within an interface, each is in its priority list
macro prio1(l, k, y, n) = forall (x: *TypeInfo) {cnt(contents(l), off(l), k, x)} :: n >= 2 && cnt(contents(l), off(l), k, x) >= 1 ==> lhas(y.InterfaceInfo.Priority, disfix(x))
macro prio(m, y) = forall (pb: Bytes, x: *TypeInfo) {cnt(contents(m[pb]), off(m[pb]), len(m[pb]), x)} :: has(m, pb) && len(m[pb]) >= 2 && lcnt(m[pb], x) >= 1 ==> lhas(y.InterfaceInfo.Priority, disfix(x))
func "(*Codec).checkConflictsInPrioNolock" (cdc, iinfo) (err)
  props C10
  requires iinfo != nil && iinfo.Implementers != nil
  requires forall (pb: Bytes) {has(iinfo.Implementers, pb)} :: has(iinfo.Implementers, pb) ==> allvalid(iinfo.Implementers[pb])
  ensures [C10:priority] err == nil ==> prio(iinfo.Implementers, iinfo)
  ensures [C10:refused] prio(iinfo.Implementers, iinfo) ==> err == nil
  loop 1
    invariant forall (pb: Bytes, x: *TypeInfo) {lcnt(iinfo.Implementers[pb], x)} :: $seen[pb] && has(iinfo.Implementers, pb) && len(iinfo.Implementers[pb]) >= 2 && lcnt(iinfo.Implementers[pb], x) >= 1 ==> lhas(iinfo.InterfaceInfo.Priority, disfix(x))
  loop 2
    invariant $k <= len(cinfos)
    invariant prio1(cinfos, $k, iinfo, len(cinfos))

// the registered interfaces, each with its own map of lists
macro inlist(l, y) = lcnt(l, y) >= 1
macro ifacesok(cdc) = allvalid(cdc.interfaceInfos) &&
  (forall (y: *TypeInfo) {lcnt(cdc.interfaceInfos, y)} :: lcnt(cdc.interfaceInfos, y) <= 1 && (inlist(cdc.interfaceInfos, y) ==> y != nil && y.Implementers != nil && valid(y.Implementers))) &&
  (forall (y, z: *TypeInfo) {lcnt(cdc.interfaceInfos, y), lcnt(cdc.interfaceInfos, z)} :: inlist(cdc.interfaceInfos, y) && inlist(cdc.interfaceInfos, z) && y != z ==> y.Implementers != z.Implementers) &&
  (forall (y: *TypeInfo, pb: Bytes) {y.Implementers[pb]} :: inlist(cdc.interfaceInfos, y) && has(y.Implementers, pb) ==> len(y.Implementers[pb]) >= 1 && valid(y.Implementers[pb]) && allvalid(y.Implementers[pb]))

macro taken(y, c) = timpl(c.PtrToType, y.Type)
func "(*Codec).addCheckConflictsWithConcreteNolock" (cdc, cinfo)
  props C10
  let c = cinfo
  requires codecok(cdc) && ifacesok(cdc) && c != nil && infook(c)
  requires forall (y: *TypeInfo) {lcnt(cdc.interfaceInfos, y)} :: inlist(cdc.interfaceInfos, y) ==> kind(y.Type) == kInterface
  maypanic when !(forall (y, x: *TypeInfo) {lcnt(y.Implementers[c.Prefix], x)} :: inlist(cdc.interfaceInfos, y) && taken(y, c) && has(y.Implementers, c.Prefix) && len(y.Implementers[c.Prefix]) >= 1 && (x == c || lcnt(y.Implementers[c.Prefix], x) >= 1) ==> lhas(y.InterfaceInfo.Priority, disfix(x)))
  atomic
  modifies mapsof(c.Implementers)
  ensures [C10:others] forall (y: *TypeInfo, pb: Bytes) {y.Implementers[pb]} {has(y.Implementers, pb)} :: inlist(cdc.interfaceInfos, y) && (pb != c.Prefix || !taken(y, c)) ==> (has(y.Implementers, pb) <==> old(has(y.Implementers, pb))) && y.Implementers[pb] == old(y.Implementers[pb])
  ensures [C10:added] forall (y: *TypeInfo) {y.Implementers[c.Prefix]} {has(y.Implementers, c.Prefix)} :: inlist(cdc.interfaceInfos, y) && taken(y, c) ==> has(y.Implementers, c.Prefix) && valid(y.Implementers[c.Prefix]) && len(y.Implementers[c.Prefix]) == 1 + (old(has(y.Implementers, c.Prefix)) ? old(len(y.Implementers[c.Prefix])) : 0) && allvalid(y.Implementers[c.Prefix])
  ensures [C10:once] forall (y: *TypeInfo, x: *TypeInfo) {lcnt(y.Implementers[c.Prefix], x)} :: inlist(cdc.interfaceInfos, y) && taken(y, c) ==> lcnt(y.Implementers[c.Prefix], x) == (x == c ? 1 : 0) + (old(has(y.Implementers, c.Prefix)) ? old(lcnt(y.Implementers[c.Prefix], x)) : 0)
  ensures [C10:priority] forall (y: *TypeInfo, x: *TypeInfo) {lcnt(y.Implementers[c.Prefix], x)} :: inlist(cdc.interfaceInfos, y) && taken(y, c) && old(has(y.Implementers, c.Prefix)) && (x == c || old(lcnt(y.Implementers[c.Prefix], x)) >= 1) ==> lhas(y.InterfaceInfo.Priority, disfix(x))
  loop 1
    invariant $k <= len(cdc.interfaceInfos)
    invariant forall (y, x: *TypeInfo) {lcnt(y.Implementers[c.Prefix], x)} :: cnt(contents(cdc.interfaceInfos), off(cdc.interfaceInfos), $k, y) >= 1 && taken(y, c) && has(y.Implementers, c.Prefix) && (x == c || lcnt(y.Implementers[c.Prefix], x) >= 1) ==> lhas(y.InterfaceInfo.Priority, disfix(x))
  loop 2
    invariant len(impls) >= 1 && $k <= len(impls) + 1
    invariant forall (x: *TypeInfo) {cnt(contents(impls), off(impls), $k, x)} :: $k <= len(impls) && cnt(contents(impls), off(impls), $k, x) >= 1 ==> lhas(iinfo.InterfaceInfo.Priority, disfix(x))
    invariant forall (x: *TypeInfo) {lcnt(impls, x)} :: $k > len(impls) && lcnt(impls, x) >= 1 ==> lhas(iinfo.InterfaceInfo.Priority, disfix(x))
    invariant $k > len(impls) ==> lhas(iinfo.InterfaceInfo.Priority, disfix(c))
  loop 3
    invariant $k <= len(cdc.interfaceInfos)
    invariant forall (y: *TypeInfo, pb: Bytes) {y.Implementers[pb]} {has(y.Implementers, pb)} :: inlist(cdc.interfaceInfos, y) && (pb != c.Prefix || !taken(y, c) || cnt(contents(cdc.interfaceInfos), off(cdc.interfaceInfos), $k, y) == 0) ==> (has(y.Implementers, pb) <==> old(has(y.Implementers, pb))) && y.Implementers[pb] == old(y.Implementers[pb])
    invariant forall (y: *TypeInfo) {y.Implementers[c.Prefix]} {has(y.Implementers, c.Prefix)} :: cnt(contents(cdc.interfaceInfos), off(cdc.interfaceInfos), $k, y) >= 1 && taken(y, c) ==> has(y.Implementers, c.Prefix) && valid(y.Implementers[c.Prefix]) && len(y.Implementers[c.Prefix]) == 1 + (old(has(y.Implementers, c.Prefix)) ? old(len(y.Implementers[c.Prefix])) : 0) && allvalid(y.Implementers[c.Prefix])
    invariant forall (y: *TypeInfo, x: *TypeInfo) {lcnt(y.Implementers[c.Prefix], x)} :: cnt(contents(cdc.interfaceInfos), off(cdc.interfaceInfos), $k, y) >= 1 && taken(y, c) ==> lcnt(y.Implementers[c.Prefix], x) == (x == c ? 1 : 0) + (old(has(y.Implementers, c.Prefix)) ? old(lcnt(y.Implementers[c.Prefix], x)) : 0)

// the consistent registry
macro W(cdc) = codecok(cdc) && ifacesok(cdc) && allvalid(cdc.concreteInfos) &&
  (forall (t: RType) {has(cdc.typeInfos, t)} :: has(cdc.typeInfos, t) ==> cdc.typeInfos[t] != nil && valid(cdc.typeInfos[t]) && cdc.typeInfos[t].Type == t && infook(cdc.typeInfos[t])) &&
  (forall (x: *TypeInfo) {has(cdc.disfixToTypeInfo, disfix(x))} :: isconc(cdc, x) ==> has(cdc.disfixToTypeInfo, disfix(x)) && cdc.disfixToTypeInfo[disfix(x)] == x) &&
  (forall (x: *TypeInfo) {has(cdc.nameToTypeInfo, x.Name)} :: isconc(cdc, x) ==> has(cdc.nameToTypeInfo, x.Name) && cdc.nameToTypeInfo[x.Name] == x) &&
  (forall (x: *TypeInfo) {dsb(x.Name)} {pfx(x.Name)} :: isconc(cdc, x) && hashfits(x.Name) ==> x.Disamb == dsb(x.Name) && x.Prefix == pfx(x.Name)) &&
  (forall (d: Bytes) {has(cdc.disfixToTypeInfo, d)} :: has(cdc.disfixToTypeInfo, d) ==> isconc(cdc, cdc.disfixToTypeInfo[d]) && disfix(cdc.disfixToTypeInfo[d]) == d) &&
  (forall (d: Bytes) {has(cdc.nameToTypeInfo, d)} :: has(cdc.nameToTypeInfo, d) ==> isconc(cdc, cdc.nameToTypeInfo[d]) && cdc.nameToTypeInfo[d].Name == d) &&
  (forall (x: *TypeInfo) {lcnt(cdc.concreteInfos, x)} :: lcnt(cdc.concreteInfos, x) == (isconc(cdc, x) ? 1 : 0)) &&
  (forall (x: *TypeInfo) {lcnt(cdc.interfaceInfos, x)} :: lcnt(cdc.interfaceInfos, x) == (isifc(cdc, x) ? 1 : 0)) &&
  (forall (y: *TypeInfo, pb: Bytes, x: *TypeInfo) {lcnt(y.Implementers[pb], x)} :: isifc(cdc, y) && has(y.Implementers, pb) ==> lcnt(y.Implementers[pb], x) == (isconc(cdc, x) && x.Prefix == pb && taken(y, x) ? 1 : 0)) &&
  (forall (y, x: *TypeInfo) {has(y.Implementers, x.Prefix)} :: isifc(cdc, y) && isconc(cdc, x) && taken(y, x) ==> has(y.Implementers, x.Prefix)) &&
  (forall (y: *TypeInfo, pb: Bytes, x: *TypeInfo) {lcnt(y.Implementers[pb], x)} :: isifc(cdc, y) && has(y.Implementers, pb) && len(y.Implementers[pb]) >= 2 && lcnt(y.Implementers[pb], x) >= 1 ==> lhas(y.InterfaceInfo.Priority, disfix(x)))

func "NewCodec" () (cdc)
  props C10, C20
  ensures [C10:consistent] W(cdc) && isfresh(cdc) && !cdc.sealed
  ensures [C10:nothing] forall (t: RType) {has(cdc.typeInfos, t)} :: !has(cdc.typeInfos, t)
  ensures [C20:infos] WI(cdc)
func "(*Codec).Seal" (cdc) (r)
  props C10
  requires W(cdc)
  modifies Codec.sealed(cdc)
  ensures [C10:consistent] W(cdc)
  ensures [C10:sealed] r == cdc && cdc.sealed
func "(*Codec).RegisterInterface" (cdc, ptr, iopts)
  props C10, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem
  requires W(cdc)
  maypanic
  onpanic [C10:refused] old(cdc.sealed) || kind(itype(ptr)) != kPtr || kind(telem(itype(ptr))) != kInterface || !old(priofits(iopts)) || old(has(cdc.typeInfos, telem(itype(ptr)))) || ncalls("(*Codec).checkConflictsInPrioNolock") == 1 && callres("(*Codec).checkConflictsInPrioNolock", 0, 0) != nil
  atomic
  modifies REG(cdc), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:sealed] !old(cdc.sealed)
  ensures [C10:consistent] W(cdc)
  ensures [C10:registered] has(cdc.typeInfos, telem(itype(ptr))) && kind(telem(itype(ptr))) == kInterface
  ensures [C20:infos] old(WI(cdc)) ==> WI(cdc)
  ensures [C10:types] forall (t: RType) {has(cdc.typeInfos, t)} :: t != telem(itype(ptr)) ==> (has(cdc.typeInfos, t) <==> old(has(cdc.typeInfos, t))) && cdc.typeInfos[t] == old(cdc.typeInfos[t])

macro conctype(o) = kind(itype(o)) == kPtr ? telem(itype(o)) : itype(o)
func "(*Codec).RegisterConcrete" (cdc, o, name, copts)
  props C10, C20
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem
  requires W(cdc)
  maypanic when cdc.sealed || itype(o) == rt_nil || kind(conctype(o)) == kPtr || kind(conctype(o)) == kInterface || !tiok(conctype(o)) || !hashfits(name) || has(cdc.typeInfos, conctype(o)) || has(cdc.disfixToTypeInfo, dsb(name) ++ pfx(name)) || has(cdc.nameToTypeInfo, name) ||
    !(forall (y, x: *TypeInfo) {lcnt(y.Implementers[pfx(name)], x)} :: isifc(cdc, y) && timpl(tptr(conctype(o)), y.Type) && has(y.Implementers, pfx(name)) && len(y.Implementers[pfx(name)]) >= 1 ==> (lcnt(y.Implementers[pfx(name)], x) >= 1 ==> lhas(y.InterfaceInfo.Priority, disfix(x))) && lhas(y.InterfaceInfo.Priority, dsb(name) ++ pfx(name)))
  atomic
  modifies REG(cdc), mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc), DOM.map_PrefixBytes____TypeInfo, VAL.map_PrefixBytes____TypeInfo
  ensures [C10:sealed] !old(cdc.sealed)
  ensures [C10:consistent] W(cdc)
  ensures [C10:registered] isconc(cdc, cdc.typeInfos[conctype(o)]) && cdc.typeInfos[conctype(o)].Type == conctype(o) && cdc.typeInfos[conctype(o)].Name == name
  ensures [C09:pointer] cdc.typeInfos[conctype(o)].PointerPreferred <==> kind(itype(o)) == kPtr
  ensures [C20:infos] old(WI(cdc)) ==> WI(cdc)
  ensures [C10:types] forall (t: RType) {has(cdc.typeInfos, t)} :: t != conctype(o) ==> (has(cdc.typeInfos, t) <==> old(has(cdc.typeInfos, t))) && cdc.typeInfos[t] == old(cdc.typeInfos[t])
  ensures [C10:names] forall (d: Bytes) {has(cdc.nameToTypeInfo, d)} :: has(cdc.nameToTypeInfo, d) <==> old(has(cdc.nameToTypeInfo, d)) || d == name

// lookups
func "(*Codec).getTypeInfoWlock" (cdc, rt) (info, err)
  props C10, C20, C15, C09, C02, C03, C19, C04
  hide cnt, hasd, hasd_elem, hasd_mono, skip0, dsb, pfx, dsbat, pfxat, cnt_mono, cnt_push, cnt_store, cnt_elem
  requires W(cdc) && rt != rt_nil
  maypanic when !has(cdc.typeInfos, tderef(rt)) && kind(tderef(rt)) != kInterface && !tiok(tderef(rt))
  atomic
  modifies mapof(cdc.typeInfos), mapof(cdc.disfixToTypeInfo), mapof(cdc.nameToTypeInfo), Codec.interfaceInfos(cdc), Codec.concreteInfos(cdc)
  ensures [C10:consistent] W(cdc)
  ensures [C10:found] err == nil ==> isreg(cdc, info) && info.Type == tderef(rt)
  ensures [C10:unregistered] err != nil <==> kind(tderef(rt)) == kInterface && !old(has(cdc.typeInfos, tderef(rt)))
  ensures [C10:cached] old(has(cdc.typeInfos, tderef(rt))) ==> info == old(cdc.typeInfos[tderef(rt)])
  ensures [C20:struct] err == nil && !old(has(cdc.typeInfos, tderef(rt))) && kind(info.Type) == kStruct ==> structinfo(info, info.Type)
  ensures [C15:repr] err == nil && !old(has(cdc.typeInfos, tderef(rt))) ==> reprinfo(info, info.Type) && !info.Registered && kind(info.Type) != kInterface
  ensures [C20:infos] old(WI(cdc)) ==> WI(cdc)
  ensures [C09:registered] old(WE(cdc)) ==> WE(cdc)
  ensures [C10:registry] forall (t: RType) {has(cdc.typeInfos, t)} :: t != tderef(rt) || old(has(cdc.typeInfos, t)) ==> (has(cdc.typeInfos, t) <==> old(has(cdc.typeInfos, t))) && cdc.typeInfos[t] == old(cdc.typeInfos[t])
  loop 1
    invariant rt != rt_nil && tderef(rt) == tderef(atentry(rt))
    decreases tdepth(rt)
func "(*Codec).getTypeInfoFromPrefixRlock" (cdc, iinfo, pb) (info, err)
  props C09, C10
  requires W(cdc) && isifc(cdc, iinfo)
  use cnt_in(contents(iinfo.Implementers[pb]), off(iinfo.Implementers[pb]), len(iinfo.Implementers[pb]), 0)
  ensures [C09:prefix] err == nil ==> isconc(cdc, info) && info.Prefix == pb && taken(iinfo, info)
  ensures [C09:only] err == nil <==> has(iinfo.Implementers, pb) && len(iinfo.Implementers[pb]) == 1
  ensures [C09:only] err == nil ==> info == iinfo.Implementers[pb][0]
  ensures [C09:unique] err == nil ==> (forall (x: *TypeInfo) {timpl(x.PtrToType, iinfo.Type)} :: isconc(cdc, x) && x.Prefix == pb && taken(iinfo, x) ==> lcnt(iinfo.Implementers[pb], x) >= 1 && x == info)
  ensures [C09:decoded] WE(cdc) ==> rpre(REG[cdc], iinfo.Type, pb) == (err == nil ? info.Type : rt_nil)
  ensures [C09:unknown] (forall (x: *TypeInfo) {timpl(x.PtrToType, iinfo.Type)} :: isconc(cdc, x) && x.Prefix == pb ==> !taken(iinfo, x)) ==> err != nil
func "(*Codec).getTypeInfoFromDisfixRlock" (cdc, df) (info, err)
  props C09, C10
  requires W(cdc)
  ensures [C09:disfix] err == nil ==> isconc(cdc, info) && disfix(info) == df
  ensures [C09:unknown] err != nil <==> !has(cdc.disfixToTypeInfo, df)
  ensures [C09:decoded] WE(cdc) ==> rdis(REG[cdc], df) == (err == nil ? info.Type : rt_nil)
  ensures [C09:unique] forall (x: *TypeInfo) {has(cdc.disfixToTypeInfo, disfix(x))} :: isconc(cdc, x) && disfix(x) == df ==> err == nil && info == x
func "(*Codec).getTypeInfoFromNameRlock" (cdc, name) (info, err)
  props C09, C10
  requires W(cdc)
  ensures [C09:name] err == nil ==> isconc(cdc, info) && info.Name == name
  ensures [C09:unknown] err != nil <==> !has(cdc.nameToTypeInfo, name)
  ensures [C09:decoded] WE(cdc) ==> rnam(REG[cdc], name) == (err == nil ? info.Type : rt_nil)
  ensures [C09:unique] forall (x: *TypeInfo) {has(cdc.nameToTypeInfo, x.Name)} :: isconc(cdc, x) && x.Name == name ==> err == nil && info == x
