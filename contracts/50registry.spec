// ---- names, prefix and disambiguation bytes (C09) ----
fn sha256(b: Bytes): Bytes
axiom sha_len: forall (b: Bytes) {sha256(b)} :: blen(sha256(b)) == 32

// index of the first non-zero byte from i on
rec skip0(b: Bytes, i: Int): Int = i >= blen(b) ? i : at(b, i) != 0 ? i : skip0(b, i + 1)
def dsbat(name: Bytes): Int = skip0(sha256(name), 0)
def pfxat(name: Bytes): Int = skip0(sha256(name), dsbat(name) + 3)
def dsb(name: Bytes): Bytes = sub(sha256(name), dsbat(name), 3)
def pfx(name: Bytes): Bytes = sub(sha256(name), pfxat(name), 4)
macro hashfits(name) = pfxat(name) + 4 <= 32   // false for a hash of almost only zeros

extern "crypto/sha256.New" () (h)
  ensures h != nil && isfresh(wid(h)) && out(h) == bempty
extern "hash.(Hash).Write" (h, p) (n, err)
  modifies OUT(h)
  ensures err == nil && n == len(p) && out(h) == old(out(h)) ++ bytes(p)
extern "hash.(Hash).Sum" (h, b) (r)
  ensures bytes(r) == bytes(b) ++ sha256(out(h)) && isfresh(ref(r))
extern "crypto/sha256.Sum256" (b) (r)
  ensures r == sha256(bytes(b))
extern "bytes.Equal" (a, b) (r)
  ensures r <==> bytes(a) == bytes(b)

lemma skip0_ge(b: Bytes, i: Int)
  requires 0 <= i
  ensures skip0(b, i) >= i
  use ih(b, i + 1)
  decreases blen(b) - i
  export {skip0(b, i)}

func "nameToDisfix" (name) (db, pb)
  props C09
  maypanic when !hashfits(name)
  ensures [C09:disamb] hashfits(name) ==> db == dsb(name)
  ensures [C09:prefix] hashfits(name) ==> pb == pfx(name)
  loop 1
    invariant len(bz) <= 32 && bytes(bz) == sub(sha256(name), 32 - len(bz), len(bz)) && skip0(sha256(name), 32 - len(bz)) == dsbat(name)
  loop 2
    invariant len(bz) <= 32 && bytes(bz) == sub(sha256(name), 32 - len(bz), len(bz)) && skip0(sha256(name), 32 - len(bz)) == pfxat(name) && db == dsb(name)
func "NameToDisfix" (name) (db, pb)
  props C09
  maypanic when !hashfits(name)
  ensures [C09:disamb] hashfits(name) ==> db == dsb(name)
  ensures [C09:prefix] hashfits(name) ==> pb == pfx(name)
func "nameToDisamb" (name) (db)
  props C09
  maypanic when !hashfits(name)
  ensures [C09:disamb] hashfits(name) ==> db == dsb(name)
func "nameToPrefix" (name) (pb)
  props C09
  maypanic when !hashfits(name)
  ensures [C09:prefix] hashfits(name) ==> pb == pfx(name)
func "toDisfix" (db, pb) (df)
  props C09
  ensures [C09:disfix] df == db ++ pb
func "(ConcreteInfo).GetDisfix" (cinfo) (df)
  props C09
  ensures [C09:disfix] df == cinfo.Disamb ++ cinfo.Prefix
func "NewPrefixBytes" (prefixBytes) (pb)
  props C09
  ensures [C09:bytes] len(prefixBytes) >= 4 ==> pb == sub(bytes(prefixBytes), 0, 4)
func "(PrefixBytes).Bytes" (pb) (r)
  props C09
  ensures [C09:bytes] bytes(r) == pb
func "(PrefixBytes).EqualBytes" (pb, bz) (r)
  props C09
  ensures [C09:equal] r <==> bytes(bz) == pb
func "(DisambBytes).Bytes" (db) (r)
  props C09
  ensures [C09:bytes] bytes(r) == db
func "(DisambBytes).EqualBytes" (db, bz) (r)
  props C09
  ensures [C09:equal] r <==> bytes(bz) == db
func "(DisfixBytes).Bytes" (df) (r)
  props C09
  ensures [C09:bytes] bytes(r) == df
func "(DisfixBytes).EqualBytes" (df, bz) (r)
  props C09
  ensures [C09:equal] r <==> bytes(bz) == df

// prefix bytes, or zero, disambiguation and prefix bytes
macro dpok(b) = blen(b) >= 4 && (at(b, 0) == 0 ==> blen(b) >= 8)
macro dphas(b) = at(b, 0) == 0
macro dpn(b) = dphas(b) ? 8 : 4
macro dpp(b) = dphas(b) ? sub(b, 4, 4) : sub(b, 0, 4)
macro dpd(b) = dphas(b) ? sub(b, 1, 3) : bzeros(3)
func "DecodeDisambPrefixBytes" (bz) (db, hasDb, pb, hasPb, n, err)
  props C09, C04, C05
  ensures [C09:accepts] err == nil <==> dpok(bytes(bz))
  ensures [C09:value] err == nil ==> hasPb && pb == dpp(bytes(bz)) && (hasDb <==> dphas(bytes(bz))) && db == dpd(bytes(bz)) && n == dpn(bytes(bz))
  ensures [C09:noprefix] err != nil ==> !hasPb && !hasDb
  ensures [C04:bounds] inbounds(n, bz)
