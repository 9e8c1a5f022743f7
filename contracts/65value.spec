// ---- values (reflect.Value) ----
// GV is a Go value together with everything it points to, of type gtyp.
// A reflect.Value is a place: a root and a path into the value that root holds
// (GVAL); what is at the place is cont(v).
sort GV
sort Path
heap GVAL: [Int]GV
fn rroot(v: RV): Int
fn rpath(v: RV): Path
fn gat(g: GV, p: Path): GV
fn rv_invalid: RV
macro cont(v) = gat(GVAL[rroot(v)], rpath(v))
macro rok(v) = v != rv_invalid && valid(rroot(v)) && !rro(v)

fn gtyp(g: GV): RType
fn gnil(g: GV): Bool       // of pointers, interfaces, slices, maps, functions, channels
fn gderef(g: GV): GV       // what a pointer points to
fn gref(g: GV): GV         // a pointer to g
fn gdyn(g: GV): GV         // what is in an interface
fn gfield(g: GV, i: Int): GV
fn gidx(g: GV, i: Int): GV
fn glen(g: GV): Int
fn gint(g: GV): Int
fn guint(g: GV): Int
fn gbool(g: GV): Bool
fn gflt(g: GV): Flt
fn gstr(g: GV): Bytes
fn gbytes(g: GV): Bytes    // of byte slices and byte arrays
fn gtime(g: GV): Time
fn gzero(t: RType): GV
axiom forall (g: GV) {gtyp(g)} :: gtyp(g) != rt_nil
axiom forall (t: RType) {gzero(t)} :: t != rt_nil ==> gtyp(gzero(t)) == t
axiom forall (g: GV) {gderef(g)} :: kind(gtyp(g)) == kPtr && !gnil(g) ==> gtyp(gderef(g)) == telem(gtyp(g))
axiom forall (g: GV) {gref(g)} :: gtyp(gref(g)) == tptr(gtyp(g)) && !gnil(gref(g)) && gderef(gref(g)) == g
axiom forall (g: GV) {gdyn(g)} :: kind(gtyp(g)) == kInterface && !gnil(g) ==> kind(gtyp(gdyn(g))) != kInterface
axiom forall (g: GV, i: Int) {gfield(g, i)} :: kind(gtyp(g)) == kStruct && 0 <= i && i < tnumf(gtyp(g)) ==> gtyp(gfield(g, i)) == tftype(gtyp(g), i)
axiom forall (g: GV, i: Int) {gidx(g, i)} :: islist(gtyp(g)) && 0 <= i && i < glen(g) ==> gtyp(gidx(g, i)) == telem(gtyp(g))
axiom forall (g: GV) {glen(g)} :: 0 <= glen(g) && glen(g) <= 1125899906842624
axiom forall (g: GV) {glen(g)} :: kind(gtyp(g)) == kArray ==> glen(g) == tlen(gtyp(g))
axiom forall (g: GV) {glen(g)} :: kind(gtyp(g)) == kString ==> glen(g) == blen(gstr(g))
axiom forall (g: GV) {gbytes(g)} :: islist(gtyp(g)) && kind(telem(gtyp(g))) == kUint8 ==> blen(gbytes(g)) == glen(g)
macro siranged(k, i) = (k == kInt8 ==> -128 <= i && i <= 127) && (k == kInt16 ==> -32768 <= i && i <= 32767) && (k == kInt32 ==> -2147483648 <= i && i <= 2147483647)
macro uiranged(k, i) = (k == kUint8 ==> i <= 255) && (k == kUint16 ==> i <= 65535) && (k == kUint32 ==> i <= 4294967295)
axiom forall (g: GV) {gint(g)} :: -9223372036854775808 <= gint(g) && gint(g) <= 9223372036854775807 && siranged(kind(gtyp(g)), gint(g))
axiom forall (g: GV) {guint(g)} :: 0 <= guint(g) && guint(g) <= 18446744073709551615 && uiranged(kind(gtyp(g)), guint(g))
axiom forall (g: GV) {gstr(g)} :: blen(gstr(g)) <= 1125899906842624
fn tref(t: RType): Bool    // a named type at this level of a pointer chain

// places
fn pnil: Path
fn pder(p: Path): Path
fn pfld(p: Path, i: Int): Path
fn pidx(p: Path, i: Int): Path
axiom forall (g: GV) {gat(g, pnil)} :: gat(g, pnil) == g
axiom forall (g: GV, p: Path) {gat(g, pder(p))} :: gat(g, pder(p)) == gderef(gat(g, p))
axiom forall (g: GV, p: Path, i: Int) {gat(g, pfld(p, i))} :: gat(g, pfld(p, i)) == gfield(gat(g, p), i)
axiom forall (g: GV, p: Path, i: Int) {gat(g, pidx(p, i))} :: gat(g, pidx(p, i)) == gidx(gat(g, p), i)
fn pdyn(p: Path): Path     // what is in an interface
fn pref(p: Path): Path     // a pointer to it
fn pslc(p: Path, i, j: Int): Path
fn pconst(g: GV): Path     // of values that nothing can change
axiom forall (g: GV, p: Path) {gat(g, pdyn(p))} :: gat(g, pdyn(p)) == gdyn(gat(g, p))
axiom forall (g: GV, p: Path) {gat(g, pref(p))} :: gat(g, pref(p)) == gref(gat(g, p))
axiom forall (g, x: GV) {gat(g, pconst(x))} :: gat(g, pconst(x)) == x
fn pwr(p: Path): Bool      // can be written to
axiom pwr(pnil)
axiom forall (p: Path) {pder(p)} :: pwr(p) ==> pwr(pder(p))
axiom forall (p: Path) {pder(pref(p))} :: pwr(p) ==> pwr(pder(pref(p)))
axiom forall (p: Path, i: Int) {pfld(p, i)} :: pwr(p) ==> pwr(pfld(p, i))
axiom forall (p: Path, i: Int) {pidx(p, i)} :: pwr(p) ==> pwr(pidx(p, i))
fn gput(g: GV, p: Path, x: GV): GV
axiom forall (g: GV, p: Path, x: GV) {gput(g, p, x)} :: pwr(p) && gtyp(x) == gtyp(gat(g, p)) ==> gat(gput(g, p, x), p) == x
axiom forall (g: GV, p: Path, x, y: GV) {gput(gput(g, p, x), p, y)} :: pwr(p) && gtyp(x) == gtyp(gat(g, p)) && gtyp(y) == gtyp(x) ==> gput(gput(g, p, x), p, y) == gput(g, p, y)
axiom forall (g: GV, p: Path) {gput(g, p, gat(g, p))} :: pwr(p) ==> gput(g, p, gat(g, p)) == g
// Changing a part changes the whole. What a pointer points to is part of the
// value, so this is about values in which no two pointers lead to the same place.
fn gsetf(g: GV, i: Int, x: GV): GV
fn gseti(g: GV, i: Int, x: GV): GV
axiom forall (g: GV, x: GV) {gput(g, pnil, x)} :: gput(g, pnil, x) == x
axiom forall (g: GV, p: Path, x: GV) {gput(g, pder(pref(p)), x)} :: pwr(p) ==> gput(g, pder(pref(p)), x) == gput(g, p, x)
axiom forall (g: GV, p: Path, x: GV) {gput(g, pder(p), x)} :: pwr(p) && kind(gtyp(gat(g, p))) == kPtr && !gnil(gat(g, p)) && gtyp(x) == telem(gtyp(gat(g, p))) ==> gput(g, pder(p), x) == gput(g, p, gref(x))
axiom forall (g: GV, p: Path, i: Int, x: GV) {gput(g, pfld(p, i), x)} :: pwr(p) ==> gput(g, pfld(p, i), x) == gput(g, p, gsetf(gat(g, p), i, x))
axiom forall (g: GV, p: Path, i: Int, x: GV) {gput(g, pidx(p, i), x)} :: pwr(p) ==> gput(g, pidx(p, i), x) == gput(g, p, gseti(gat(g, p), i, x))
axiom forall (g: GV, i: Int, x: GV) {gsetf(g, i, x)} :: gtyp(gsetf(g, i, x)) == gtyp(g) && (gtyp(x) == gtyp(gfield(g, i)) ==> gfield(gsetf(g, i, x), i) == x)
axiom forall (g: GV, i, j: Int, x: GV) {gfield(gsetf(g, i, x), j)} :: i != j ==> gfield(gsetf(g, i, x), j) == gfield(g, j)
axiom forall (g: GV, i: Int, x: GV) {gseti(g, i, x)} :: gtyp(gseti(g, i, x)) == gtyp(g) && glen(gseti(g, i, x)) == glen(g) && (gtyp(x) == gtyp(gidx(g, i)) ==> gidx(gseti(g, i, x), i) == x)
axiom forall (g: GV, i, j: Int, x: GV) {gidx(gseti(g, i, x), j)} :: i != j ==> gidx(gseti(g, i, x), j) == gidx(g, j)
// pointer types have no name (others are outside the contracts)
axiom forall (t: RType) {telem(t)} :: kind(t) == kPtr ==> tptr(telem(t)) == t
axiom forall (g: GV) {gderef(g)} :: kind(gtyp(g)) == kPtr && !gnil(g) ==> gref(gderef(g)) == g

// values made from their parts
fn gofi(t: RType, i: Int): GV
fn gofu(t: RType, u: Int): GV
fn gofb(t: RType, b: Bool): GV
fn goff(t: RType, f: Flt): GV
fn gofs(t: RType, s: Bytes): GV
fn gofby(t: RType, b: Bytes): GV     // byte slices and arrays
fn goft(x: Time): GV
fn gifc(t: RType, x: GV): GV         // x in an interface
fn gapp(g: GV, x: GV): GV            // append
fn gcast(g: GV, t: RType): GV        // converted to another type of the same form
fn tslice(t: RType): RType
axiom forall (t: RType) {tslice(t)} :: kind(tslice(t)) == kSlice && (t != rt_nil ==> telem(tslice(t)) == t)
axiom forall (t: RType, i: Int) {gofi(t, i)} :: t != rt_nil ==> gtyp(gofi(t, i)) == t && (-9223372036854775808 <= i && i <= 9223372036854775807 && siranged(kind(t), i) ==> gint(gofi(t, i)) == i)
axiom forall (t: RType, u: Int) {gofu(t, u)} :: t != rt_nil ==> gtyp(gofu(t, u)) == t && (0 <= u && u <= 18446744073709551615 && uiranged(kind(t), u) ==> guint(gofu(t, u)) == u)
axiom forall (t: RType, b: Bool) {gofb(t, b)} :: t != rt_nil ==> gtyp(gofb(t, b)) == t && (gbool(gofb(t, b)) <==> b)
axiom forall (t: RType, f: Flt) {goff(t, f)} :: t != rt_nil ==> gtyp(goff(t, f)) == t && (kind(t) == kFloat64 ==> gflt(goff(t, f)) == f)
axiom forall (t: RType, s: Bytes) {gofs(t, s)} :: kind(t) == kString && blen(s) <= 1125899906842624 ==> gtyp(gofs(t, s)) == t && gstr(gofs(t, s)) == s
axiom forall (t: RType, b: Bytes) {gofby(t, b)} :: islist(t) && kind(telem(t)) == kUint8 && blen(b) <= 1125899906842624 && (kind(t) == kArray ==> blen(b) == tlen(t)) ==> gtyp(gofby(t, b)) == t && gbytes(gofby(t, b)) == b && !gnil(gofby(t, b))
axiom forall (x: Time) {goft(x)} :: gtyp(goft(x)) == tid(`time.Time`) && gtime(goft(x)) == x
axiom forall (t: RType, x: GV) {gifc(t, x)} :: kind(t) == kInterface && kind(gtyp(x)) != kInterface ==> gtyp(gifc(t, x)) == t && !gnil(gifc(t, x)) && gdyn(gifc(t, x)) == x
axiom forall (g, x: GV) {gapp(g, x)} :: kind(gtyp(g)) == kSlice ==> gtyp(gapp(g, x)) == gtyp(g) && !gnil(gapp(g, x)) && (glen(g) < 1125899906842624 ==> glen(gapp(g, x)) == glen(g) + 1 && (gtyp(x) == telem(gtyp(g)) ==> gidx(gapp(g, x), glen(g)) == x))
axiom forall (g, x: GV, i: Int) {gidx(gapp(g, x), i)} :: kind(gtyp(g)) == kSlice && i != glen(g) ==> gidx(gapp(g, x), i) == gidx(g, i)
axiom forall (g: GV, t: RType) {gcast(g, t)} :: kind(gtyp(g)) == kSlice && kind(t) == kSlice && telem(t) == telem(gtyp(g)) ==> gtyp(gcast(g, t)) == t && glen(gcast(g, t)) == glen(g) && (gnil(gcast(g, t)) <==> gnil(g)) && gbytes(gcast(g, t)) == gbytes(g)
axiom forall (g: GV, t: RType, i: Int) {gidx(gcast(g, t), i)} :: kind(gtyp(g)) == kSlice && kind(t) == kSlice && telem(t) == telem(gtyp(g)) ==> gidx(gcast(g, t), i) == gidx(g, i)
axiom forall (t: RType) {gzero(t)} :: nilkind(kind(t)) ==> gnil(gzero(t))
axiom forall (t: RType) {gzero(t)} :: kind(t) == kSlice ==> glen(gzero(t)) == 0
axiom forall (t: RType) {gzero(t)} :: intkind(kind(t)) ==> gint(gzero(t)) == 0
axiom forall (t: RType) {gzero(t)} :: uintkind(kind(t)) ==> guint(gzero(t)) == 0
axiom forall (t: RType) {gzero(t)} :: kind(t) == kBool ==> !gbool(gzero(t))
axiom forall (t: RType) {gzero(t)} :: kind(t) == kString ==> gstr(gzero(t)) == bempty
axiom forall (t: RType, i: Int) {gfield(gzero(t), i)} :: kind(t) == kStruct && 0 <= i && i < tnumf(t) ==> gfield(gzero(t), i) == gzero(tftype(t, i))
axiom forall (t: RType, i: Int) {gidx(gzero(t), i)} :: kind(t) == kArray && 0 <= i && i < tlen(t) ==> gidx(gzero(t), i) == gzero(telem(t))
axiom forall (t: RType) {rzero(t)} :: t != rt_nil ==> rzero(t) != rv_invalid && rpath(rzero(t)) == pconst(gzero(t)) && !rset(rzero(t)) && !rro(rzero(t)) && rroot(rzero(t)) == 1
macro nilkind(k) = k == kChan || k == kFunc || k == kInterface || k == kMap || k == kPtr || k == kSlice || k == 26
macro intkind(k) = k >= kInt && k <= kInt64
macro uintkind(k) = k >= kUint && k <= kUintptr
macro rkind(v) = v == rv_invalid ? 0 : kind(gtyp(cont(v)))
fn rset(v: RV): Bool       // addressable, and not read through an unexported field
fn rro(v: RV): Bool        // read through an unexported field
axiom forall (v: RV) {rset(v)} :: rset(v) ==> !rro(v) && pwr(rpath(v))

extern "reflect.(Value).Kind" (v) (k)
  ensures k == rkind(v)
extern "reflect.(Value).IsValid" (v) (r)
  ensures r <==> v != rv_invalid
extern "reflect.(Value).Type" (v) (t)
  maypanic when v == rv_invalid
  ensures !(v == rv_invalid)
  ensures t == gtyp(cont(v))
extern "reflect.(Value).IsNil" (v) (r)
  maypanic when !nilkind(rkind(v))
  ensures nilkind(rkind(v))
  ensures r <==> gnil(cont(v))
extern "reflect.(Value).Elem" (v) (r)
  maypanic when rkind(v) != kPtr && rkind(v) != kInterface
  ensures !(rkind(v) != kPtr && rkind(v) != kInterface)
  ensures r == rv_invalid <==> gnil(cont(v))
  ensures !gnil(cont(v)) && rkind(v) == kPtr ==> rroot(r) == rroot(v) && rpath(r) == pder(rpath(v)) && (rset(r) <==> !rro(v))
  ensures !gnil(cont(v)) && rkind(v) == kInterface ==> rroot(r) == rroot(v) && rpath(r) == pdyn(rpath(v)) && !rset(r)
  ensures valid(rroot(r)) && (rro(r) <==> rro(v))
extern "reflect.(Value).Field" (v, i) (r)
  maypanic when !(rkind(v) == kStruct && 0 <= i && i < tnumf(gtyp(cont(v))))
  ensures (rkind(v) == kStruct && 0 <= i && i < tnumf(gtyp(cont(v))))
  ensures r != rv_invalid && rroot(r) == rroot(v) && rpath(r) == pfld(rpath(v), i)
  ensures exported(gtyp(cont(v)), i) ==> (rset(r) <==> rset(v)) && (rro(r) <==> rro(v))
extern "reflect.(Value).Index" (v, i) (r)
  maypanic when !((islist(gtyp(cont(v))) || rkind(v) == kString) && v != rv_invalid && 0 <= i && i < glen(cont(v)))
  ensures ((islist(gtyp(cont(v))) || rkind(v) == kString) && v != rv_invalid && 0 <= i && i < glen(cont(v)))
  ensures islist(gtyp(cont(v))) ==> r != rv_invalid && rroot(r) == rroot(v) && rpath(r) == pidx(rpath(v), i)
  ensures kind(gtyp(cont(v))) == kSlice ==> (rset(r) <==> !rro(v))
  ensures kind(gtyp(cont(v))) == kArray ==> (rset(r) <==> rset(v))
  ensures rro(r) <==> rro(v)
extern "reflect.(Value).Len" (v) (n)
  maypanic when !(rkind(v) == kArray || rkind(v) == kChan || rkind(v) == kMap || rkind(v) == kSlice || rkind(v) == kString)
  ensures (rkind(v) == kArray || rkind(v) == kChan || rkind(v) == kMap || rkind(v) == kSlice || rkind(v) == kString)
  ensures n == glen(cont(v))
extern "reflect.(Value).Int" (v) (i)
  maypanic when !intkind(rkind(v))
  ensures intkind(rkind(v))
  ensures i == gint(cont(v))
extern "reflect.(Value).Uint" (v) (u)
  maypanic when !uintkind(rkind(v))
  ensures uintkind(rkind(v))
  ensures u == guint(cont(v))
extern "reflect.(Value).Bool" (v) (b)
  maypanic when rkind(v) != kBool
  ensures !(rkind(v) != kBool)
  ensures b <==> gbool(cont(v))
extern "reflect.(Value).Float" (v) (f)
  maypanic when !isfloat(rkind(v))
  ensures isfloat(rkind(v))
  ensures f == gflt(cont(v))
fn rvstring(v: RV): Bytes
extern "reflect.(Value).String" (v) (s)
  ensures s == (rkind(v) == kString ? gstr(cont(v)) : rvstring(v))
extern "reflect.(Value).Bytes" (v) (b)
  maypanic when !(v != rv_invalid && islist(gtyp(cont(v))) && kind(telem(gtyp(cont(v)))) == kUint8)
  ensures (v != rv_invalid && islist(gtyp(cont(v))) && kind(telem(gtyp(cont(v)))) == kUint8)
  ensures bytes(b) == gbytes(cont(v)) && isfresh(ref(b))
extern "reflect.(Value).Slice" (v, i, j) (r)
  maypanic when !(v != rv_invalid && islist(gtyp(cont(v))) && 0 <= i && i <= j && j <= glen(cont(v)))
  ensures (v != rv_invalid && islist(gtyp(cont(v))) && 0 <= i && i <= j && j <= glen(cont(v)))
  ensures r != rv_invalid && rroot(r) == rroot(v) && rpath(r) == pslc(rpath(v), i, j) && !rset(r) && (rro(r) <==> rro(v)) && kind(gtyp(cont(r))) == kSlice && telem(gtyp(cont(r))) == telem(gtyp(cont(v)))
  ensures kind(telem(gtyp(cont(v)))) == kUint8 ==> gbytes(cont(r)) == sub(gbytes(cont(v)), i, j - i)
  ensures glen(cont(r)) == j - i
extern "reflect.(Value).CanAddr" (v) (b)
  ensures b <==> raddrok(v)
fn raddrok(v: RV): Bool
axiom forall (v: RV) {raddrok(v)} {rset(v)} :: rset(v) <==> raddrok(v) && !rro(v)
extern "reflect.(Value).Addr" (v) (r)
  maypanic when !raddrok(v)
  ensures r != rv_invalid && rroot(r) == rroot(v) && rpath(r) == pref(rpath(v)) && (rro(r) <==> rro(v)) && kind(gtyp(cont(r))) == kPtr && !rset(r)
extern "reflect.New" (t) (r)
  maypanic when t == rt_nil
  ensures !(t == rt_nil)
  ensures r != rv_invalid && isfresh(rroot(r)) && rpath(r) == pnil && GVAL[rroot(r)] == gref(gzero(t)) && !rro(r) && valid(rroot(r))
// what may be assigned to a place of type t, and what is there then
macro slconv(u, t) = kind(t) == kSlice && u == tslice(telem(t))
macro assignable(u, t) = u == t || slconv(u, t) || kind(t) == kInterface && timpl(u, t)
macro assigned(g, t) = gtyp(g) == t ? g : slconv(gtyp(g), t) ? gcast(g, t) : gifc(t, g)
extern "reflect.(Value).Set" (v, x)
  let root = rroot(v)
  maypanic when !(rset(v) && x != rv_invalid && !rro(x) && assignable(gtyp(cont(x)), gtyp(cont(v))))
  ensures old(rset(v) && x != rv_invalid && !rro(x) && assignable(gtyp(cont(x)), gtyp(cont(v))))
  modifies GVAL(root)
  ensures GVAL[root] == gput(old(GVAL[root]), rpath(v), old(assigned(cont(x), gtyp(cont(v)))))

fn giface(g: GV): Iface
extern "reflect.(Value).Interface" (v) (x)
  maypanic when v == rv_invalid || rro(v)
  ensures !(v == rv_invalid || rro(v))
  ensures x == giface(cont(v))
axiom forall (g: GV) {giface(g)} :: kind(gtyp(g)) != kInterface ==> itype(giface(g)) == gtyp(g)
axiom forall (g: GV) {giface(g)} :: gtyp(g) == tid(`time.Time`) ==> giface(g) == box(`time.Time`, gtime(g))
axiom forall (g: GV) {giface(g)} :: kind(gtyp(g)) == kInterface ==> giface(g) == (gnil(g) ? inil : giface(gdyn(g)))
axiom kind(tid(`time.Time`)) == kStruct
global timeType == tid(`time.Time`)
global tsec(zeroTime) == 0 && tns(zeroTime) == 0 && tutc(zeroTime)
// times in UTC are their instant
fn tmk(s, n: Int): Time
axiom forall (t: Time) {tutc(t)} :: tutc(t) ==> t == tmk(tsec(t), tns(t))
// what an interface value of the program holds; pointers lead to what may change
fn iroot(x: Iface): Int
macro gof(x) = GVAL[iroot(x)]
extern "reflect.ValueOf" (x) (r)
  ensures r == rv_invalid <==> x == inil
  ensures x != inil ==> rroot(r) == iroot(x) && rpath(r) == pnil && !rset(r) && !rro(r) && valid(rroot(r)) && gtyp(gof(x)) == itype(x)
  ensures forall (t: Time) {box(`time.Time`, t)} :: x == box(`time.Time`, t) ==> gof(x) == goft(t)

// writing
extern "reflect.(Value).SetInt" (v, i)
  let root = rroot(v)
  maypanic when !(rset(v) && intkind(rkind(v)))
  ensures old(rset(v) && intkind(rkind(v)))
  modifies GVAL(root)
  ensures old(siranged(rkind(v), i)) ==> GVAL[root] == gput(old(GVAL[root]), rpath(v), gofi(old(gtyp(cont(v))), i))
extern "reflect.(Value).SetUint" (v, u)
  let root = rroot(v)
  maypanic when !(rset(v) && uintkind(rkind(v)))
  ensures old(rset(v) && uintkind(rkind(v)))
  modifies GVAL(root)
  ensures old(uiranged(rkind(v), u)) ==> GVAL[root] == gput(old(GVAL[root]), rpath(v), gofu(old(gtyp(cont(v))), u))
extern "reflect.(Value).SetBool" (v, b)
  let root = rroot(v)
  maypanic when !(rset(v) && rkind(v) == kBool)
  ensures old(rset(v) && rkind(v) == kBool)
  modifies GVAL(root)
  ensures GVAL[root] == gput(old(GVAL[root]), rpath(v), gofb(old(gtyp(cont(v))), b))
extern "reflect.(Value).SetFloat" (v, f)
  let root = rroot(v)
  maypanic when !(rset(v) && isfloat(rkind(v)))
  ensures old(rset(v) && isfloat(rkind(v)))
  modifies GVAL(root)
  ensures GVAL[root] == gput(old(GVAL[root]), rpath(v), goff(old(gtyp(cont(v))), f))
extern "reflect.(Value).SetString" (v, s)
  let root = rroot(v)
  maypanic when !(rset(v) && rkind(v) == kString)
  ensures old(rset(v) && rkind(v) == kString)
  modifies GVAL(root)
  ensures GVAL[root] == gput(old(GVAL[root]), rpath(v), gofs(old(gtyp(cont(v))), s))
extern "reflect.(Value).SetBytes" (v, b)
  let root = rroot(v)
  maypanic when !(rset(v) && rkind(v) == kSlice && kind(telem(gtyp(cont(v)))) == kUint8)
  ensures old(rset(v) && rkind(v) == kSlice && kind(telem(gtyp(cont(v)))) == kUint8)
  modifies GVAL(root)
  ensures ref(b) != nil ==> GVAL[root] == gput(old(GVAL[root]), rpath(v), gofby(old(gtyp(cont(v))), bytes(b)))
extern "reflect.Append" (s, x) (r)
  maypanic when !(s != rv_invalid && !rro(s) && kind(gtyp(cont(s))) == kSlice && len(x) == 1 && x[0] != rv_invalid && !rro(x[0]) && gtyp(cont(x[0])) == telem(gtyp(cont(s))))
  ensures r != rv_invalid && isfresh(rroot(r)) && !rset(r) && !rro(r) && rpath(r) == pnil && valid(rroot(r))
  ensures kind(gtyp(cont(s))) == kSlice && len(x) == 1 && gtyp(cont(x[0])) == telem(gtyp(cont(s))) ==> cont(r) == gapp(cont(s), cont(x[0]))
extern "reflect.SliceOf" (t) (r)
  maypanic when t == rt_nil
  ensures !(t == rt_nil)
  ensures r == tslice(t)

// pointers are followed to the end
rec gd(g: GV): GV = kind(gtyp(g)) == kPtr && !gnil(g) ? gd(gderef(g)) : g
fn gdepth(g: GV): Int      // how many pointers there are to follow (no value points to itself)
axiom forall (g: GV) {gderef(g)} :: gdepth(g) >= 0 && (kind(gtyp(g)) == kPtr && !gnil(g) ==> gdepth(gderef(g)) < gdepth(g))
lemma [C03] gd_typ(g: GV)
  requires kind(gtyp(gd(g))) != kPtr
  ensures gtyp(gd(g)) == tderef(gtyp(g))
  use ih(gderef(g))
  decreases gdepth(g)
  export {gd(g)}
lemma [C02] gd_ref(g: GV)
  ensures gd(gref(g)) == gd(g)
macro ispn(g) = kind(gtyp(gd(g))) == kPtr      // a nil pointer on the way
macro gdz(g) = ispn(g) ? gzero(tderef(gtyp(g))) : gd(g)

func "derefPointers" (rv) (drv, isPtr, isNilPtr)
  props C02, C03, C19
  requires rv == rv_invalid || rok(rv)
  ensures [C03:nil] rv == rv_invalid ==> drv == rv_invalid && !isPtr && !isNilPtr
  ensures [C03:ptr] rv != rv_invalid ==> (isPtr <==> kind(gtyp(cont(rv))) == kPtr) && (isNilPtr <==> ispn(cont(rv)))
  ensures [C03:deref] rv != rv_invalid ==> isNilPtr ? drv == rv_invalid : rok(drv) && cont(drv) == gd(cont(rv)) && (rset(drv) <==> rset(rv) || isPtr)
  loop 1
    invariant isPtr && rv != rv_invalid ==> rset(rv)
    invariant rv == rv_invalid ? rv == atentry(rv) : rok(rv) && gd(cont(rv)) == gd(cont(atentry(rv)))
    invariant isPtr || rv == atentry(rv)
    invariant isPtr ==> atentry(rv) != rv_invalid && kind(gtyp(cont(atentry(rv)))) == kPtr
    decreases tdepth(gtyp(cont(rv)))
func "derefPointersZero" (rv) (drv, isPtr, isNilPtr)
  props C02, C03, C19
  requires rok(rv)
  ensures [C03:ptr] (isPtr <==> kind(gtyp(cont(rv))) == kPtr) && (isNilPtr <==> ispn(cont(rv)))
  ensures [C03:deref] rok(drv) && cont(drv) == gdz(cont(rv))
  loop 1
    invariant rok(rv) && gd(cont(rv)) == gd(cont(atentry(rv)))
    invariant isPtr || rv == atentry(rv)
    invariant isPtr ==> kind(gtyp(cont(atentry(rv)))) == kPtr
    invariant tderef(gtyp(cont(rv))) == tderef(gtyp(cont(atentry(rv))))
    decreases tdepth(gtyp(cont(rv)))
  loop 2
    invariant tderef(rt) == tderef(gtyp(cont(atentry(rv)))) && rt != rt_nil
    decreases tdepth(rt)

// nil or empty, all pointers followed
macro isdefk(g, k) = intkind(k) ? gint(g) == 0 : uintkind(k) && k != kUintptr ? guint(g) == 0 : k == kString ? blen(gstr(g)) == 0 :
  k == kMap || k == kSlice ? gnil(g) || glen(g) == 0 : k == kChan || k == kFunc || k == kInterface ? gnil(g) : false
macro isdef(g) = ispn(g) || isdefk(gd(g), kind(gtyp(gd(g))))
func "isDefaultValue" (rv) (erv, isDefault)
  props C02, C03, C19
  requires rok(rv)
  ensures [C03:default] isDefault <==> isdef(cont(rv))
  ensures [C03:deref] ispn(cont(rv)) ? erv == rv_invalid : rok(erv) && cont(erv) == gd(cont(rv))
func "isNil" (rv) (r)
  props C13 C14
  ensures [nil] r <==> nilkind(rkind(rv)) && rkind(rv) != 26 && gnil(cont(rv))
