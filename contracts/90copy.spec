// ---- DeepCopy (C14) ----
// What is shared: SH is, for the value that a place's root holds, some memory of other
// values that it may share (the root of one of them, any), or shnone. A value is copied
// without sharing if that can only be memory allocated meanwhile.
heap SH: [Int]Int
const shnone = -1
macro shok(now, before) = now == before || now == shnone || isfresh(now)
// types without memory that could be shared: times point only to their (immutable) zone
fn tml(t: RType): Bool
macro plaink(k) = intkind(k) || k >= kUint && k <= kUint64 || k == kBool || isfloat(k) || k == kString
axiom forall (t: RType) {tml(t)} :: plaink(kind(t)) || t == timeType ==> tml(t)
fn bmeth(t: RType, name: Bytes): RType     // the type of a method value
axiom forall (t: RType, n: Bytes) {bmeth(t, n)} :: thasm(t, n) ==> kind(bmeth(t, n)) == kFunc && bmeth(t, n) != rt_nil
axiom forall (t: RType, n: Bytes) {bmeth(t, n)} :: thasm(t, n) && kind(t) != kInterface ==> tnumin(bmeth(t, n)) == tnumin(tmeth(t, n)) - 1 && tnumout(bmeth(t, n)) == tnumout(tmeth(t, n)) && tout(bmeth(t, n), 0) == tout(tmeth(t, n), 0) && tin(bmeth(t, n), 0) == tin(tmeth(t, n), 1)
fn gdcr(g: GV): GV         // what the DeepCopy method returns
axiom forall (g: GV) {gdcr(g)} :: thasm(gtyp(g), "DeepCopy") ==> gtyp(gdcr(g)) == tout(bmeth(gtyp(g), "DeepCopy"), 0)
fn gdcok(g: GV): Bool      // it does not panic
// a DeepCopy method that is used, and a pair of methods that is used
macro cmeth(t) = thasm(t, "DeepCopy") && tnumin(bmeth(t, "DeepCopy")) == 0 && tnumout(bmeth(t, "DeepCopy")) == 1 && (cmethp(t) || t == tout(bmeth(t, "DeepCopy"), 0))
macro cmethp(t) = kind(t) == kPtr && telem(t) == tout(bmeth(t, "DeepCopy"), 0)
macro cpair1(t) = thasm(t, "UnmarshalAmino") && thasm(t, "MarshalAmino") && tnumin(bmeth(t, "UnmarshalAmino")) == 1 && tnumout(bmeth(t, "UnmarshalAmino")) == 1 && tout(bmeth(t, "UnmarshalAmino"), 0) == errorType &&
  tnumin(bmeth(t, "MarshalAmino")) == 0 && tnumout(bmeth(t, "MarshalAmino")) == 2 && tout(bmeth(t, "MarshalAmino"), 1) == errorType && tin(bmeth(t, "UnmarshalAmino"), 0) == tout(bmeth(t, "MarshalAmino"), 0)
macro cpair(t) = kind(t) == kPtr ? cpair1(t) : cpair1(tptr(t))
macro cpairval(g) = kind(gtyp(g)) == kPtr ? gref(gun(gzero(telem(gtyp(g))), grepr(g))) : gun(gzero(gtyp(g)), grepr(g))
macro cpairok(g) = greprok(g) && gunok(kind(gtyp(g)) == kPtr ? gzero(telem(gtyp(g))) : gzero(gtyp(g)), grepr(g))
macro cnil(g) = nilkind(kind(gtyp(g))) && kind(gtyp(g)) != 26 && gnil(g)
fn gmkin(g: GV, k: Bytes): Bool     // a map has the key
axiom forall (g: GV, i: Int) {gmkey(g, i)} :: kind(gtyp(g)) == kMap && 0 <= i && i < glen(g) ==> gmkin(g, gstr(gmkey(g, i)))

// h is a copy of g: its type's methods made it, or the parts of it are copies of the parts of g
rec cp(g: GV, h: GV): Bool = gtyp(h) == gtyp(g) && (cnil(g) ? h == gzero(gtyp(g)) : cmeth(gtyp(g)) ? h == (cmethp(gtyp(g)) ? gref(gdcr(g)) : gdcr(g)) : cpair(gtyp(g)) ? cpairok(g) && h == cpairval(g) : cp1(g, h))
rec cp1(g: GV, h: GV): Bool = gtyp(h) == gtyp(g) && (
  kind(gtyp(g)) == kPtr ? !gnil(h) && cp(gderef(g), gderef(h)) :
  kind(gtyp(g)) == kInterface ? !gnil(h) && cp(gdyn(g), gdyn(h)) :
  islist(gtyp(g)) ? glen(h) == glen(g) && (kind(gtyp(g)) == kSlice ==> !gnil(h)) && (forall (i: Int) {gidx(h, i)} :: 0 <= i && i < glen(g) ==> cp(gidx(g, i), gidx(h, i))) :
  kind(gtyp(g)) == kStruct ? (gtyp(g) == timeType ? h == g : (forall (i: Int) {gfield(h, i)} :: 0 <= i && i < tnumf(gtyp(g)) && exported(gtyp(g), i) ==> cp(gfield(g, i), gfield(h, i)))) :
  kind(gtyp(g)) == kMap ? !gnil(h) && (kind(tkey(gtyp(g))) == kString ==>
    (forall (i: Int) {gmkey(g, i)} :: 0 <= i && i < glen(g) ==> gmhas(h, gstr(gmkey(g, i))) && cp(gmval(g, gmkey(g, i)), gmget(h, gstr(gmkey(g, i))))) && (forall (s: Bytes) {gmhas(h, s)} :: gmhas(h, s) ==> gmkin(g, s))) :
  plaink(kind(gtyp(g))) && (h == g || h == (intkind(kind(gtyp(g))) ? gofi(gtyp(g), gint(g)) : uintkind(kind(gtyp(g))) ? gofu(gtyp(g), guint(g)) : kind(gtyp(g)) == kBool ? gofb(gtyp(g), gbool(g)) : isfloat(kind(gtyp(g))) ? goff(gtyp(g), gflt(g)) : gofs(gtyp(g), gstr(g)))))

// values whose copying does not panic: any set of values closed under these conditions
fn csup(g: GV): Bool
macro csm(g) = cmeth(gtyp(g)) || cpair(gtyp(g))
axiom forall (g: GV) {csup(g)} :: csup(g) && !cnil(g) && cmeth(gtyp(g)) ==> gdcok(g)
axiom forall (g: GV) {csup(g)} :: csup(g) && !cnil(g) && !cmeth(gtyp(g)) && cpair(gtyp(g)) ==> cpairok(g) && unopanic(kind(gtyp(g)) == kPtr ? telem(gtyp(g)) : gtyp(g))
axiom forall (g: GV) {csup(g)} :: csup(g) && !cnil(g) && !csm(g) ==> kind(gtyp(g)) == kPtr && csup(gderef(g)) || kind(gtyp(g)) == kInterface && csup(gdyn(g)) && timpl(gtyp(gdyn(g)), gtyp(g)) || islist(gtyp(g)) || kind(gtyp(g)) == kStruct || kind(gtyp(g)) == kMap && kind(tkey(gtyp(g))) == kString || plaink(kind(gtyp(g)))
axiom forall (g: GV, i: Int) {csup(g), gidx(g, i)} :: csup(g) && !cnil(g) && !csm(g) && islist(gtyp(g)) && 0 <= i && i < glen(g) ==> csup(gidx(g, i))
axiom forall (g: GV, i: Int) {csup(g), gfield(g, i)} :: csup(g) && !csm(g) && kind(gtyp(g)) == kStruct && gtyp(g) != timeType && 0 <= i && i < tnumf(gtyp(g)) && exported(gtyp(g), i) ==> csup(gfield(g, i))
axiom forall (g: GV, i: Int) {csup(g), gmkey(g, i)} :: csup(g) && !cnil(g) && !csm(g) && kind(gtyp(g)) == kMap && 0 <= i && i < glen(g) ==> csup(gmval(g, gmkey(g, i)))

// the elements of a slice are set, not the slice
axiom forall (g: GV, i: Int, x: GV) {gseti(g, i, x)} :: gnil(gseti(g, i, x)) <==> gnil(g)

// the same functions as elsewhere, with what they share
extern "reflect.New#copy" (t) (r)
  maypanic when t == rt_nil
  ensures !(t == rt_nil)
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gref(gzero(t)) && !rro(r) && valid(rroot(r))
  ensures SH[rroot(r)] == shnone
extern "reflect.MakeSlice#copy" (t, n, c) (r)
  maypanic when !(kind(t) == kSlice && 0 <= n && n <= c && c <= 1125899906842624)
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gmkslice(t, n) && !rset(r) && !rro(r) && valid(rroot(r))
  ensures SH[rroot(r)] == shnone
extern "reflect.MakeMapWithSize#copy" (t, n) (r)
  maypanic when kind(t) != kMap
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gmake(t) && !rro(r) && valid(rroot(r))
  ensures SH[rroot(r)] == shnone
extern "reflect.(Value).Set#copy" (v, x)
  let root = rroot(v)
  maypanic when !(rset(v) && x != rv_invalid && !rro(x) && assignable(gtyp(cont(x)), gtyp(cont(v))))
  ensures old(rset(v) && x != rv_invalid && !rro(x) && assignable(gtyp(cont(x)), gtyp(cont(v))))
  modifies GVAL(root), SH(root)
  ensures GVAL[root] == gput(old(GVAL[root]), rpath(v), old(assigned(cont(x), gtyp(cont(v)))))
  ensures SH[root] == old(SH[root]) || !old(tml(gtyp(cont(x)))) && (SH[root] == rroot(x) || SH[root] == old(SH[rroot(x)]))
extern "reflect.(Value).SetMapIndex#copy" (m, k, v)
  let root = rroot(m)
  maypanic when !(rkind(m) == kMap && !rro(m) && !gnil(cont(m)) && k != rv_invalid && !rro(k) && gtyp(cont(k)) == tkey(gtyp(cont(m))) && v != rv_invalid && !rro(v) && gtyp(cont(v)) == telem(gtyp(cont(m))))
  modifies GVAL(root), SH(root)
  ensures pwr(rpath(m)) && v != rv_invalid ==> GVAL[root] == gput(old(GVAL[root]), rpath(m), gmset(old(cont(m)), old(cont(k)), old(cont(v))))
  ensures SH[root] == old(SH[root]) || !old(tml(gtyp(cont(k)))) && (SH[root] == rroot(k) || SH[root] == old(SH[rroot(k)])) || !old(tml(gtyp(cont(v)))) && (SH[root] == rroot(v) || SH[root] == old(SH[rroot(v)]))
fn gcopied(z, g: GV): GV
axiom forall (z, g: GV) {gcopied(z, g)} :: gtyp(gcopied(z, g)) == gtyp(z) && glen(gcopied(z, g)) == glen(z) && (gnil(gcopied(z, g)) <==> gnil(z))
axiom forall (z, g: GV, i: Int) {gidx(gcopied(z, g), i)} :: islist(gtyp(z)) && islist(gtyp(g)) && 0 <= i && i < glen(z) ==> gidx(gcopied(z, g), i) == (i < glen(g) ? gidx(g, i) : gidx(z, i))
extern "reflect.Copy" (v, x) (n)
  let root = rroot(v)
  maypanic when !(v != rv_invalid && x != rv_invalid && !rro(v) && !rro(x) && islist(gtyp(cont(v))) && islist(gtyp(cont(x))) && telem(gtyp(cont(v))) == telem(gtyp(cont(x))) && (kind(gtyp(cont(v))) == kArray ==> rset(v)))
  modifies GVAL(root), SH(root)
  ensures pwr(rpath(v)) && v != rv_invalid && x != rv_invalid ==> GVAL[root] == gput(old(GVAL[root]), rpath(v), gcopied(old(cont(v)), old(cont(x))))
  ensures SH[root] == old(SH[root]) || !old(tml(telem(gtyp(cont(x))))) && (SH[root] == rroot(x) || SH[root] == old(SH[rroot(x)]))
extern "reflect.(Value).MapKeys#copy" (v) (r)
  maypanic when rkind(v) != kMap
  ensures rkind(v) == kMap
  ensures isfresh(ref(r)) && off(r) == 0 && len(r) == glen(cont(v))
  ensures forall (x: Int) {contents(r)[x]} {mkat(r, x)} :: off(r) <= x && x < off(r) + len(r) ==> rok(contents(r)[x]) && !rset(contents(r)[x]) && isfresh(rroot(contents(r)[x])) && 0 <= mkat(r, x) && mkat(r, x) < len(r) && mkof(r, mkat(r, x)) == x && cont(contents(r)[x]) == gmkey(cont(v), mkat(r, x))
  ensures forall (j: Int) {gmkey(cont(v), j)} {mkof(r, j)} :: 0 <= j && j < len(r) ==> off(r) <= mkof(r, j) && mkof(r, j) < off(r) + len(r) && mkat(r, mkof(r, j)) == j && cont(contents(r)[mkof(r, j)]) == gmkey(cont(v), j)
extern "reflect.(Value).MethodByName#copy" (v, name) (m)
  maypanic when v == rv_invalid || rkind(v) == kInterface && gnil(cont(v))
  ensures m != rv_invalid <==> thasm(gtyp(cont(v)), name)
  ensures m != rv_invalid ==> mrecv(m) == cont(v) && mname(m) == name && mrv(m) == v && valid(rroot(m)) && gtyp(cont(m)) == bmeth(gtyp(cont(v)), name)
extern "reflect.(Value).Call#copy" (m, args) (r)
  maypanic when !ucallok(m, args) && !(mname(m) == "MarshalAmino" && greprok(mrecv(m)) && len(args) == 0) && !(mname(m) == "DeepCopy" && gdcok(mrecv(m)) && len(args) == 0)
  modifies GVAL
  ensures mname(m) == "MarshalAmino" ==> GVAL == old(GVAL)
  let um = mname(m) == "UnmarshalAmino"
  let uroot = rroot(mrv(m))
  ensures um ==> len(r) == 1 && rok(r[0]) && kind(gtyp(cont(r[0]))) == kInterface && (forall (x: Int) {GVAL[x]} :: allocated(x) && x != uroot ==> GVAL[x] == old(GVAL[x]))
  ensures um ==> GVAL[uroot] == gput(old(GVAL[uroot]), pder(rpath(mrv(m))), gat(GVAL[uroot], pder(rpath(mrv(m))))) && gtyp(gat(GVAL[uroot], pder(rpath(mrv(m))))) == old(gtyp(gderef(cont(mrv(m)))))
  ensures um && len(args) == 1 ==> (gnil(cont(r[0])) <==> old(gunok(gderef(cont(mrv(m))), cont(args[0]))))
  ensures um && len(args) == 1 && gnil(cont(r[0])) ==> GVAL[uroot] == gput(old(GVAL[uroot]), pder(rpath(mrv(m))), old(gun(gderef(cont(mrv(m))), cont(args[0]))))
  ensures isfresh(ref(r)) && off(r) == 0
  ensures mname(m) == "MarshalAmino" ==> len(r) == 2 && rok(r[0]) && rok(r[1]) && !rset(r[0])
  ensures mname(m) == "MarshalAmino" ==> (gnil(cont(r[1])) <==> greprok(mrecv(m))) && kind(gtyp(cont(r[1]))) == kInterface
  ensures mname(m) == "MarshalAmino" && greprok(mrecv(m)) ==> cont(r[0]) == grepr(mrecv(m)) && gtyp(cont(r[0])) == tout(bmeth(gtyp(mrecv(m)), "MarshalAmino"), 0)
  // what a DeepCopy method returns shares nothing
  ensures mname(m) == "DeepCopy" ==> (forall (x: Int) {GVAL[x]} :: allocated(x) ==> GVAL[x] == old(GVAL[x]))
  ensures mname(m) == "DeepCopy" ==> len(r) == 1 && rok(r[0]) && isfresh(rroot(r[0])) && cont(r[0]) == gdcr(mrecv(m)) && gtyp(cont(r[0])) == tout(bmeth(gtyp(mrecv(m)), "DeepCopy"), 0) && SH[rroot(r[0])] == shnone
extern "reflect.(Type).NumMethod" (t) (n)
  ensures n >= 0
  ensures n == 0 && kind(t) == kPtr && kind(telem(t)) != kInterface && kind(telem(t)) != kPtr ==> (forall (m: Bytes) {thasm(t, m)} :: !thasm(t, m)) && (forall (m: Bytes) {thasm(telem(t), m)} :: !thasm(telem(t), m))
extern "reflect.(Value).NumField" (v) (n)
  maypanic when rkind(v) != kStruct
  ensures rkind(v) == kStruct && n == tnumf(gtyp(cont(v)))

macro COPYREQ(src, dst) = rok(src) && rok(dst) && rset(dst) && rroot(src) != rroot(dst) && gtyp(cont(src)) == gtyp(cont(dst))
macro pokept(root, G0, path, t) = GVAL[root] == gput(G0, path, gat(GVAL[root], path)) && gtyp(gat(GVAL[root], path)) == t
func "plainKind" (rt) (k)
  props C14
  requires rt != rt_nil
  ensures [C14:plain] k == 0 || k == kind(rt) && (kind(rt) != kInterface && kind(rt) != kPtr ==> !cmeth(rt) && !cpair(rt))
func "canAminoCopy" (rv) (r)
  props C14
  variant copy
  requires rok(rv) && !(rkind(rv) == kInterface && gnil(cont(rv)))
  ensures [C14:pair] r <==> cpair1(gtyp(cont(rv)))
func "callDeepCopy" (src, dst) (r)
  props C14
  variant copy
  requires COPYREQ(src, dst) && !cnil(cont(src))
  let root = rroot(dst)
  let g = cont(src)
  maypanic when cmeth(gtyp(g)) && !gdcok(g)
  modifies GVAL(root), SH(root)
  ensures [C14:method] r <==> cmeth(gtyp(g))
  ensures [C14:result] r ==> GVAL[root] == gput(old(GVAL[root]), rpath(dst), cmethp(gtyp(g)) ? gref(gdcr(g)) : gdcr(g))
  ensures [C14:kept] r ==> pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
  ensures [C14:untouched] !r ==> GVAL[root] == old(GVAL[root]) && SH[root] == old(SH[root])
  ensures [C14:noshare] shok(SH[root], old(SH[root]))
func "callAminoCopy" (src, dst) (r)
  props C14
  variant copy
  requires COPYREQ(src, dst) && !cnil(cont(src)) && cont(dst) == gzero(gtyp(cont(dst)))
  let root = rroot(dst)
  let g = cont(src)
  maypanic when cpair(gtyp(g)) && !(cpairok(g) && unopanic(kind(gtyp(g)) == kPtr ? telem(gtyp(g)) : gtyp(g)))
  modifies GVAL(root), SH(root)
  ensures [C14:pair] r <==> cpair(gtyp(g))
  ensures [C14:errors] r ==> cpairok(g)
  ensures [C14:result] r ==> GVAL[root] == gput(old(GVAL[root]), rpath(dst), cpairval(g))
  ensures [C14:kept] pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
  ensures [C14:untouched] !r && kind(gtyp(g)) != kPtr ==> GVAL[root] == old(GVAL[root])
  ensures [C14:noshare] shok(SH[root], old(SH[root]))
func "deepCopy" (src, dst)
  props C14
  variant copy
  requires COPYREQ(src, dst) && cont(dst) == gzero(gtyp(cont(dst)))
  let root = rroot(dst)
  let g = cont(src)
  maypanic when !csup(g)
  modifies GVAL(root), SH(root)
  ensures [C14:kept] pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
  ensures [C14:copy] cp(g, gat(GVAL[root], rpath(dst)))
  ensures [C14:noshare] csup(g) ==> shok(SH[root], old(SH[root]))
func "_deepCopy" (src, dst)
  props C14
  variant copy
  requires COPYREQ(src, dst) && !cnil(cont(src)) && (kind(gtyp(cont(dst))) != kPtr ==> cont(dst) == gzero(gtyp(cont(dst))))
  let root = rroot(dst)
  let g = cont(src)
  maypanic when !csup(g) || csm(g)
  modifies GVAL(root), SH(root)
  ensures [C14:kept] pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
  ensures [C14:copy] cp1(g, gat(GVAL[root], rpath(dst)))
  ensures [C14:noshare] csup(g) && !csm(g) ==> shok(SH[root], old(SH[root]))
  loop 1
    invariant i <= tlen(gtyp(g)) && pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
    invariant csup(g) && !csm(g) ==> shok(SH[root], old(SH[root]))
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant forall (r: Int) {SH[r]} :: allocated(r) && r != root ==> SH[r] == old(SH[r])
    invariant forall (j: Int) {gidx(cont(dst), j)} :: 0 <= j && j < tlen(gtyp(g)) ==> j < i ? cp(gidx(g, j), gidx(cont(dst), j)) : gidx(cont(dst), j) == gzero(telem(gtyp(g)))
  loop 2
    invariant i <= glen(g) && rok(cpy)
    invariant isfresh(rroot(cpy)) && rpath(cpy) == pnil
    invariant gtyp(cont(cpy)) == gtyp(g) && !gnil(cont(cpy)) && glen(cont(cpy)) == glen(g)
    invariant csup(g) && !csm(g) ==> SH[rroot(cpy)] == shnone || isfresh(SH[rroot(cpy)])
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant forall (r: Int) {SH[r]} :: allocated(r) ==> SH[r] == old(SH[r])
    invariant forall (j: Int) {gidx(cont(cpy), j)} :: 0 <= j && j < glen(g) ==> j < i ? cp(gidx(g, j), gidx(cont(cpy), j)) : gidx(cont(cpy), j) == gzero(telem(gtyp(g)))
  loop 3
    invariant i <= tnumf(gtyp(g)) && pokept(root, old(GVAL[root]), rpath(dst), gtyp(g))
    invariant csup(g) && !csm(g) ==> shok(SH[root], old(SH[root]))
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) && r != root ==> GVAL[r] == old(GVAL[r])
    invariant forall (r: Int) {SH[r]} :: allocated(r) && r != root ==> SH[r] == old(SH[r])
    invariant forall (j: Int) {gfield(cont(dst), j)} :: 0 <= j && j < tnumf(gtyp(g)) && exported(gtyp(g), j) ==> j < i ? cp(gfield(g, j), gfield(cont(dst), j)) : gfield(cont(dst), j) == gzero(tftype(gtyp(g), j))
  loop 4
    invariant rok(cpy) && isfresh(rroot(cpy)) && rpath(cpy) == pnil
    invariant gtyp(cont(cpy)) == gtyp(g) && !gnil(cont(cpy))
    invariant csup(g) && !csm(g) ==> SH[rroot(cpy)] == shnone || isfresh(SH[rroot(cpy)])
    invariant forall (r: Int) {GVAL[r]} :: allocated(r) ==> GVAL[r] == old(GVAL[r])
    invariant forall (r: Int) {SH[r]} :: allocated(r) ==> SH[r] == old(SH[r])
    invariant forall (x: Int) {contents(keys)[x]} {mkat(keys, x)} :: 0 <= x && x < len(keys) ==> rok(contents(keys)[x]) && !rset(contents(keys)[x]) && rroot(contents(keys)[x]) != rroot(cpy) && cont(contents(keys)[x]) == gmkey(g, mkat(keys, x))
    invariant kind(tkey(gtyp(g))) == kString ==> (forall (j: Int) {gmkey(g, j)} :: 0 <= j && j < glen(g) && mkof(keys, j) < $k ==> gmhas(cont(cpy), gstr(gmkey(g, j))) && cp(gmval(g, gmkey(g, j)), gmget(cont(cpy), gstr(gmkey(g, j)))))
    invariant kind(tkey(gtyp(g))) == kString ==> (forall (s: Bytes) {gmhas(cont(cpy), s)} :: gmhas(cont(cpy), s) ==> gmkin(g, s))
func "DeepCopy" (o) (r)
  props C14
  variant copy
  maypanic when o != nil && !csup(gof(o))
  ensures [C14:nil] o == nil ==> r == nil
  ensures [C14:calls] o != nil ==> ncalls("reflect.(Value).Interface") == 1
  ensures [C14:copy] ncalls("reflect.(Value).Interface") > 0 ==> r == callres("reflect.(Value).Interface", 0, 0) && cp(old(gof(o)), cont(callarg("reflect.(Value).Interface", 0, 0)))
  ensures [C14:noshare] ncalls("reflect.(Value).Interface") > 0 && csup(old(gof(o))) ==> isfresh(rroot(callarg("reflect.(Value).Interface", 0, 0))) && (SH[rroot(callarg("reflect.(Value).Interface", 0, 0))] == shnone || isfresh(SH[rroot(callarg("reflect.(Value).Interface", 0, 0))]))
