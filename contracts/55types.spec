// ---- types (reflect.Type), seen through pure functions ----
const kBool = 1
const kInt = 2
const kInt8 = 3
const kInt16 = 4
const kInt32 = 5
const kInt64 = 6
const kUint = 7
const kUint8 = 8
const kUint16 = 9
const kUint32 = 10
const kUint64 = 11
const kUintptr = 12
const kFloat32 = 13
const kFloat64 = 14
const kArray = 17
const kChan = 18
const kFunc = 19
const kInterface = 20
const kMap = 21
const kPtr = 22
const kSlice = 23
const kString = 24
const kStruct = 25

fn kind(t: RType): Int
fn telem(t: RType): RType
fn tlen(t: RType): Int
fn tnumf(t: RType): Int
fn tfname(t: RType, i: Int): Bytes
fn tfpkg(t: RType, i: Int): Bytes
fn tftype(t: RType, i: Int): RType
fn tftag(t: RType, i: Int): Bytes
fn tptr(t: RType): RType
fn timpl(t: RType, i: RType): Bool
axiom forall (t: RType) {kind(t)} :: 0 <= kind(t) && kind(t) <= 26
axiom forall (t: RType) {kind(t)} :: kind(t) == 0 <==> t == rt_nil
axiom forall (t: RType) {tlen(t)} :: 0 <= tlen(t)
axiom forall (t: RType) {tnumf(t)} :: 0 <= tnumf(t)
axiom forall (t: RType) {tptr(t)} :: t != rt_nil ==> kind(tptr(t)) == kPtr && telem(tptr(t)) == t
macro islist(t) = kind(t) == kArray || kind(t) == kSlice
macro haselem(t) = kind(t) == kArray || kind(t) == kChan || kind(t) == kMap || kind(t) == kPtr || kind(t) == kSlice
axiom forall (t: RType) {telem(t)} :: haselem(t) ==> telem(t) != rt_nil
// dereferenced all the way
rec tderef(t: RType): RType = kind(t) == kPtr ? tderef(telem(t)) : t

extern "reflect.(Type).Kind" (t) (k)
  ensures k == kind(t)
extern "reflect.(Type).Elem" (t) (r)
  maypanic when !haselem(t)
  ensures r == telem(t)
extern "reflect.(Type).Len" (t) (r)
  maypanic when kind(t) != kArray
  ensures r == tlen(t)
extern "reflect.(Type).NumField" (t) (r)
  maypanic when kind(t) != kStruct
  ensures r == tnumf(t)
extern "reflect.(Type).Field" (t, i) (r)
  maypanic when !(kind(t) == kStruct && 0 <= i && i < tnumf(t))
  ensures r.Name == tfname(t, i) && r.PkgPath == tfpkg(t, i) && r.Type == tftype(t, i) && r.Tag == tftag(t, i)
  ensures r.Type != rt_nil
extern "reflect.(Type).Implements" (t, u) (r)
  maypanic when kind(u) != kInterface
  ensures r <==> timpl(t, u)
extern "reflect.PtrTo" (t) (r)
  maypanic when t == rt_nil
  ensures r == tptr(t)
extern "reflect.PointerTo" (t) (r)
  maypanic when t == rt_nil
  ensures r == tptr(t)

// zero values of types are opaque here
fn rzero(t: RType): RV
extern "reflect.Zero" (t) (r)
  maypanic when t == rt_nil
  ensures r == rzero(t)

// struct tags and comma separated lists
fn tagget(tag: Bytes, key: Bytes): Bytes
extern "reflect.(StructTag).Get" (tag, key) (r)
  ensures r == tagget(tag, key)
fn nparts(s: Bytes, sep: Bytes): Int
fn part(s: Bytes, sep: Bytes, i: Int): Bytes
axiom forall (s, sep: Bytes) {nparts(s, sep)} :: nparts(s, sep) >= 1
extern "strings.Split" (s, sep) (r)
  ensures len(r) == nparts(s, sep) && isfresh(ref(r))
  ensures forall (i: Int) {part(s, sep, i)} :: 0 <= i && i < len(r) ==> r[i] == part(s, sep, i)
fn isupper(r: Int): Bool
axiom !isupper(0)
extern "unicode.IsUpper" (r) (b)
  ensures b <==> isupper(r)

// ---- struct fields and their options (C20) ----
fn rune_at(s: Bytes, i: Int): Int
macro exported(t, i) = tfpkg(t, i) == bempty && blen(tfname(t, i)) > 0 && isupper(rune_at(tfname(t, i), 0))
macro tagj(tag) = tagget(tag, "json")
macro taga(tag) = tagget(tag, "amino")
macro tagb(tag) = tagget(tag, "binary")
rec hasopt(s: Bytes, n: Int, w: Bytes): Bool = n <= 0 ? false : part(s, ",", n - 1) == w || hasopt(s, n - 1, w)
macro opt(tag, w) = hasopt(taga(tag), nparts(taga(tag), ","), w)
macro jname(tag, name) = part(tagj(tag), ",", 0) == bempty ? name : part(tagj(tag), ",", 0)
macro jomit(tag) = nparts(tagj(tag), ",") > 1 && part(tagj(tag), ",", 1) == "omitempty"

func "isExported" (field) (r)
  props C20 C14
  ensures [exported] r <==> field.PkgPath == bempty && blen(field.Name) > 0 && isupper(rune_at(field.Name, 0))
func "(*Codec).parseFieldOptions" (cdc, field) (skip, fopts)
  props C20, C02, C03
  ensures [C20:skip] skip <==> tagj(field.Tag) == "-"
  ensures [C20:jsonname] !skip ==> fopts.JSONName == jname(field.Tag, field.Name)
  ensures [C20:omitempty] !skip ==> (fopts.JSONOmitEmpty <==> jomit(field.Tag))
  ensures [C20:fixed] !skip ==> (fopts.BinFixed64 <==> tagb(field.Tag) == "fixed64") && (fopts.BinFixed32 <==> tagb(field.Tag) == "fixed32")
  ensures [C20:amino] !skip ==> (fopts.Unsafe <==> opt(field.Tag, "unsafe")) && (fopts.WriteEmpty <==> opt(field.Tag, "write_empty")) && (fopts.EmptyElements <==> opt(field.Tag, "empty_elements"))
  loop 1
    invariant $k <= nparts(taga(field.Tag), ",")
    invariant fopts.JSONName == jname(field.Tag, field.Name) && (fopts.JSONOmitEmpty <==> jomit(field.Tag)) && (fopts.BinFixed64 <==> tagb(field.Tag) == "fixed64") && (fopts.BinFixed32 <==> tagb(field.Tag) == "fixed32")
    invariant (fopts.Unsafe <==> hasopt(taga(field.Tag), $k, "unsafe")) && (fopts.WriteEmpty <==> hasopt(taga(field.Tag), $k, "write_empty")) && (fopts.EmptyElements <==> hasopt(taga(field.Tag), $k, "empty_elements"))

// what is left out of a struct: unexported fields and those tagged json:"-"
macro inc(t, i) = exported(t, i) && tagj(tftag(t, i)) != "-"
rec nf(t: RType, k: Int): Int = k <= 0 ? 0 : nf(t, k - 1) + (inc(t, k - 1) ? 1 : 0)
lemma nf_bounds(t: RType, k: Int)
  ensures 0 <= nf(t, k) && (0 <= k ==> nf(t, k) <= k)
  use ih(t, k - 1)
  decreases k
  export {nf(t, k)}
lemma nf_lt(t: RType, j: Int, k: Int)
  requires 0 <= j && j < k && inc(t, j)
  ensures nf(t, j) < nf(t, k)
  use ih(t, j, k - 1)
  decreases k
  export {nf(t, j), nf(t, k)}
axiom forall (t: RType) {tnumf(t)} :: tnumf(t) < 2147483648

macro typ3ok(k) = k >= 1 && k <= 11 || k == kFloat32 || k == kFloat64 || k == kArray || k == kInterface || k == kMap || k == kSlice || k == kString || k == kStruct
macro lenkind(k) = k == kArray || k == kInterface || k == kMap || k == kSlice || k == kString || k == kStruct
macro typ3of(k, fx64, fx32) = lenkind(k) ? 2 : k == kInt64 || k == kUint64 ? (fx64 ? 1 : 0) : k == kInt32 || k == kUint32 ? (fx32 ? 5 : 0) : k == kFloat64 ? 1 : k == kFloat32 ? 5 : 0
macro isfloat(k) = k == kFloat32 || k == kFloat64
macro islistof(t) = islist(t) && kind(telem(t)) != kUint8
macro unpacked(t) = islistof(t) && lenkind(kind(tderef(telem(t))))
macro fok(t, i) = (isfloat(kind(tftype(t, i))) ==> opt(tftag(t, i), "unsafe")) && (islistof(tftype(t, i)) ==> typ3ok(kind(tderef(telem(tftype(t, i))))))

func "typeToTyp3" (rt, opts) (t3)
  props C20, C03
  maypanic when !typ3ok(kind(rt))
  ensures [C20:typ3] typ3ok(kind(rt)) && t3 == typ3of(kind(rt), opts.BinFixed64, opts.BinFixed32)
func "checkUnsafe" (field)
  requires field.Type != rt_nil
  props C20, C19
  maypanic when isfloat(kind(field.Type)) && !field.Unsafe
  ensures [C19:floats] isfloat(kind(field.Type)) ==> field.Unsafe

macro fieldis(f, t, j) = f.Name == tfname(t, j) && f.Index == j && f.Type == tftype(t, j) && f.ZeroValue == rzero(tftype(t, j)) && f.BinFieldNum == nf(t, j) + 1 &&
  (f.UnpackedList <==> unpacked(tftype(t, j))) &&
  f.JSONName == jname(tftag(t, j), tfname(t, j)) && (f.JSONOmitEmpty <==> jomit(tftag(t, j))) &&
  (f.BinFixed64 <==> tagb(tftag(t, j)) == "fixed64") && (f.BinFixed32 <==> tagb(tftag(t, j)) == "fixed32") &&
  (f.Unsafe <==> opt(tftag(t, j), "unsafe")) && (f.WriteEmpty <==> opt(tftag(t, j), "write_empty")) && (f.EmptyElements <==> opt(tftag(t, j), "empty_elements"))

// the struct's fields can be numbered
fn sfok(t: RType): Bool
axiom forall (t: RType) {sfok(t)} :: sfok(t) <==> kind(t) == kStruct && (forall (j: Int) {nf(t, j)} :: 0 <= j && j < tnumf(t) && inc(t, j) ==> fok(t, j))
func "(*Codec).parseStructInfo" (cdc, rt) (sinfo)
  props C20, C19, C02, C03, C04
  maypanic when !sfok(rt)
  ensures [C20:struct] kind(rt) == kStruct
  ensures [C20:count] len(sinfo.Fields) == nf(rt, tnumf(rt))
  ensures [C20:fields] forall (j: Int) {nf(rt, j)} :: 0 <= j && j < tnumf(rt) && inc(rt, j) ==> fieldis(sinfo.Fields[nf(rt, j)], rt, j)
  ensures [C19:fields] forall (j: Int) {nf(rt, j)} :: 0 <= j && j < tnumf(rt) && inc(rt, j) ==> fok(rt, j)
  onpanic [C20:panics] kind(rt) == kStruct ==> (exists (j: Int) {nf(rt, j)} :: 0 <= j && j < tnumf(rt) && inc(rt, j) && !fok(rt, j))
  loop 1
    invariant i <= tnumf(rt) && len(infos) == nf(rt, i)
    invariant forall (j: Int) {nf(rt, j)} :: 0 <= j && j < i && inc(rt, j) ==> fieldis(infos[nf(rt, j)], rt, j) && fok(rt, j)
    decreases tnumf(rt) - i
  loop 2
    invariant tderef(etype) == tderef(telem(ftype)) && etype != rt_nil
    decreases tdepth(etype)

// ---- what a codec knows about a type ----
fn tnumin(t: RType): Int
fn tnumout(t: RType): Int
fn tin(t: RType, i: Int): RType
fn tout(t: RType, i: Int): RType
fn thasm(t: RType, name: Bytes): Bool
fn tmeth(t: RType, name: Bytes): RType
axiom forall (t: RType, n: Bytes) {tmeth(t, n)} :: thasm(t, n) ==> kind(tmeth(t, n)) == kFunc
axiom forall (t: RType, i: Int) {tin(t, i)} :: kind(t) == kFunc && 0 <= i && i < tnumin(t) ==> tin(t, i) != rt_nil
extern "reflect.(Type).NumIn" (t) (n)
  maypanic when kind(t) != kFunc
  ensures n == tnumin(t)
extern "reflect.(Type).NumOut" (t) (n)
  maypanic when kind(t) != kFunc
  ensures n == tnumout(t)
extern "reflect.(Type).In" (t, i) (r)
  maypanic when !(kind(t) == kFunc && 0 <= i && i < tnumin(t))
  ensures r == tin(t, i) && r != rt_nil
extern "reflect.(Type).Out" (t, i) (r)
  maypanic when !(kind(t) == kFunc && 0 <= i && i < tnumout(t))
  ensures r == tout(t, i) && r != rt_nil
extern "reflect.(Type).MethodByName" (t, name) (m, ok)
  ensures ok <==> thasm(t, name)
  ensures ok ==> m.Type == tmeth(t, name) && m.Type != rt_nil && kind(m.Type) == kFunc
extern "reflect.TypeOf" (x) (t)
  ensures t == itype(x)

macro trepr(t) = tout(tmeth(t, "MarshalAmino"), 0)
macro turepr(t) = tin(tmeth(tptr(t), "UnmarshalAmino"), 1)
// the forms of the methods' types
macro msig(t) = tnumin(t) == 1 && tnumout(t) == 2 && tout(t, 1) == errorType && kind(tout(t, 0)) != kPtr
macro usig(t) = tnumin(t) == 2 && tnumout(t) == 1 && tout(t, 0) == errorType && kind(tin(t, 0)) == kPtr && kind(tin(t, 1)) != kPtr
// a type info of the type can be made
macro tiok(t) = (kind(t) == kStruct ==> sfok(t)) && (thasm(t, "MarshalAmino") ==> msig(tmeth(t, "MarshalAmino"))) && (thasm(tptr(t), "UnmarshalAmino") ==> usig(tmeth(tptr(t), "UnmarshalAmino")))
func "marshalAminoReprType" (rm) (rrt)
  props C15, C02, C03, C04
  requires rm.Type != rt_nil && kind(rm.Type) == kFunc
  maypanic when !msig(rm.Type)
  ensures [C15:form] tnumin(rm.Type) == 1 && tnumout(rm.Type) == 2 && tout(rm.Type, 1) == errorType
  ensures [C15:type] rrt == tout(rm.Type, 0) && kind(rrt) != kPtr && rrt != rt_nil
func "unmarshalAminoReprType" (rm) (rrt)
  props C15, C04
  requires rm.Type != rt_nil && kind(rm.Type) == kFunc
  maypanic when !usig(rm.Type)
  ensures [C15:form] tnumin(rm.Type) == 2 && tnumout(rm.Type) == 1 && tout(rm.Type, 0) == errorType && kind(tin(rm.Type, 0)) == kPtr
  ensures [C15:type] rrt == tin(rm.Type, 1) && kind(rrt) != kPtr && rrt != rt_nil
func "getTypeFromPointer" (ptr) (t)
  props C10
  maypanic when kind(itype(ptr)) != kPtr
  ensures [C10:elem] kind(itype(ptr)) == kPtr && t == telem(itype(ptr))

// info about a type that is not registered, or about to be
macro typeinfo(p, t) = p.Type == t && t != rt_nil && p.PtrToType == tptr(t) && p.ZeroValue == rzero(t)
macro structinfo(p, t) = len(p.Fields) == nf(t, tnumf(t)) && (forall (j: Int) {nf(t, j)} :: 0 <= j && j < tnumf(t) && inc(t, j) ==> fieldis(p.Fields[nf(t, j)], t, j) && fok(t, j))
macro reprinfo(p, t) = (p.IsAminoMarshaler <==> thasm(t, "MarshalAmino")) && (p.IsAminoMarshaler ==> p.AminoMarshalReprType == trepr(t) && kind(trepr(t)) != kPtr) &&
  (p.IsAminoUnmarshaler <==> thasm(tptr(t), "UnmarshalAmino")) && (p.IsAminoUnmarshaler ==> p.AminoUnmarshalReprType == turepr(t) && kind(turepr(t)) != kPtr)
func "(*Codec).newTypeInfoUnregistered" (cdc, rt) (info)
  props C10, C15, C20, C02, C03, C04
  requires rt != rt_nil
  maypanic when kind(rt) == kPtr || kind(rt) == kInterface || !tiok(rt)
  atomic
  ensures [C10:fresh] isfresh(info) && valid(info)
  ensures [C10:type] typeinfo(info, rt) && kind(rt) != kPtr && kind(rt) != kInterface
  ensures [C10:unregistered] !info.Registered
  ensures [C20:struct] kind(rt) == kStruct ==> structinfo(info, rt)
  ensures [C15:repr] reprinfo(info, rt)
func "(*Codec).newTypeInfoFromRegisteredConcreteType" (cdc, rt, pointerPreferred, name, copts) (info)
  props C09, C10, C15, C20
  requires rt != rt_nil
  maypanic when kind(rt) == kPtr || kind(rt) == kInterface || !tiok(rt) || !hashfits(name)
  atomic
  ensures [C10:fresh] isfresh(info) && valid(info)
  ensures [C10:type] typeinfo(info, rt) && kind(rt) != kPtr && kind(rt) != kInterface
  ensures [C09:registered] info.Registered && info.Name == name && (hashfits(name) ==> info.Disamb == dsb(name) && info.Prefix == pfx(name))
  ensures [C09:pointer] info.PointerPreferred <==> pointerPreferred
  ensures [C20:struct] kind(rt) == kStruct ==> structinfo(info, rt)
  ensures [C15:repr] reprinfo(info, rt)
macro priofits(iopts) = iopts != nil ==> (forall (j: Int) {iopts.Priority[j]} :: 0 <= j && j < len(iopts.Priority) ==> hashfits(iopts.Priority[j]))
func "(*Codec).newTypeInfoFromInterfaceType" (cdc, rt, iopts) (info)
  props C09, C10
  requires rt != rt_nil
  maypanic when kind(rt) != kInterface || !priofits(iopts)
  atomic
  ensures [C10:fresh] isfresh(info) && valid(info) && isfresh(info.Implementers) && valid(info.Implementers)
  ensures [C10:type] typeinfo(info, rt) && kind(rt) == kInterface
  ensures [C10:unregistered] !info.Registered && !info.IsAminoMarshaler && !info.IsAminoUnmarshaler
  ensures [C10:empty] forall (pb: Bytes) {has(info.Implementers, pb)} :: !has(info.Implementers, pb)
  ensures [C10:priority] iopts != nil ==> len(info.Priority) == len(iopts.Priority) && (info.AlwaysDisambiguate <==> iopts.AlwaysDisambiguate)
  ensures [C10:names] iopts != nil ==> (forall (j: Int) {iopts.Priority[j]} :: 0 <= j && j < len(iopts.Priority) && hashfits(iopts.Priority[j]) ==> info.Priority[j] == dsb(iopts.Priority[j]) ++ pfx(iopts.Priority[j]))
  ensures [C10:default] iopts == nil ==> len(info.Priority) == 0 && !info.AlwaysDisambiguate
  loop 1
    invariant forall (j: Int) {iopts.Priority[j]} :: 0 <= j && j < $k && hashfits(iopts.Priority[j]) ==> info.Priority[j] == dsb(iopts.Priority[j]) ++ pfx(iopts.Priority[j])
