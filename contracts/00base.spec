// Theory of byte strings. Bytes models both Go strings and the contents of
// byte memory blocks.
fn bempty: Bytes
fn blen(b: Bytes): Int
fn at(b: Bytes, i: Int): Int
fn cat(a: Bytes, b: Bytes): Bytes
fn sub(b: Bytes, o: Int, n: Int): Bytes      // n bytes starting at o
fn unit(x: Int): Bytes
fn bzeros(n: Int): Bytes
fn upd(b: Bytes, i: Int, v: Int): Bytes
fn bput(b: Bytes, o: Int, s: Bytes): Bytes   // overwrite at o with s
fn wid(w: Iface): Int
fn itype(x: Iface): RType
fn inil: Iface
fn rt_nil: RType

axiom blen_pos: forall (b: Bytes) {blen(b)} :: blen(b) >= 0
axiom at_range: forall (b: Bytes, i: Int) {at(b, i)} :: 0 <= at(b, i) && at(b, i) <= 255
axiom empty_len: blen(bempty) == 0
axiom len0: forall (b: Bytes) {blen(b)} :: blen(b) == 0 ==> b == bempty
axiom cat_len: forall (a, b: Bytes) {cat(a, b)} :: blen(cat(a, b)) == blen(a) + blen(b)
axiom cat_at: forall (a, b: Bytes, i: Int) {at(cat(a, b), i)} ::
   (0 <= i && i < blen(a) ==> at(cat(a, b), i) == at(a, i)) &&
   (blen(a) <= i && i < blen(a) + blen(b) ==> at(cat(a, b), i) == at(b, i - blen(a)))
axiom cat_e1: forall (a: Bytes) {cat(bempty, a)} :: cat(bempty, a) == a
axiom cat_e2: forall (a: Bytes) {cat(a, bempty)} :: cat(a, bempty) == a
axiom cat_assoc: forall (a, b, c: Bytes) {cat(cat(a, b), c)} :: cat(cat(a, b), c) == cat(a, cat(b, c))
axiom sub_len: forall (b: Bytes, o, n: Int) {sub(b, o, n)} :: 0 <= o && 0 <= n && o + n <= blen(b) ==> blen(sub(b, o, n)) == n
axiom sub_at: forall (b: Bytes, o, n, i: Int) {at(sub(b, o, n), i)} :: 0 <= o && 0 <= i && i < n && o + n <= blen(b) ==> at(sub(b, o, n), i) == at(b, o + i)
axiom sub_all: forall (b: Bytes, n: Int) {sub(b, 0, n)} :: n == blen(b) ==> sub(b, 0, n) == b
axiom sub_none: forall (b: Bytes, o: Int) {sub(b, o, 0)} :: sub(b, o, 0) == bempty
axiom sub_sub: forall (b: Bytes, o, n, p, m: Int) {sub(sub(b, o, n), p, m)} ::
   0 <= o && 0 <= p && 0 <= m && p + m <= n && o + n <= blen(b) ==> sub(sub(b, o, n), p, m) == sub(b, o + p, m)
axiom sub_cat: forall (a, b: Bytes, o, n: Int) {sub(cat(a, b), o, n)} ::
   (0 <= o && 0 <= n && o + n <= blen(a) ==> sub(cat(a, b), o, n) == sub(a, o, n)) &&
   (blen(a) <= o && 0 <= n && o + n <= blen(a) + blen(b) ==> sub(cat(a, b), o, n) == sub(b, o - blen(a), n))
axiom unit_len: forall (x: Int) {unit(x)} :: blen(unit(x)) == 1
axiom unit_at: forall (x: Int) {unit(x)} :: 0 <= x && x <= 255 ==> at(unit(x), 0) == x
axiom zeros_len: forall (n: Int) {bzeros(n)} :: n >= 0 ==> blen(bzeros(n)) == n
axiom zeros_at: forall (n, i: Int) {at(bzeros(n), i)} :: at(bzeros(n), i) == 0
axiom upd_len: forall (b: Bytes, i, v: Int) {upd(b, i, v)} :: blen(upd(b, i, v)) == blen(b)
axiom upd_at: forall (b: Bytes, i, v, j: Int) {at(upd(b, i, v), j)} ::
   0 <= v && v <= 255 && 0 <= i && i < blen(b) ==> at(upd(b, i, v), j) == (i == j ? v : at(b, j))
axiom bput_len: forall (b: Bytes, o: Int, s: Bytes) {bput(b, o, s)} :: blen(bput(b, o, s)) == blen(b)
axiom bput_at: forall (b: Bytes, o: Int, s: Bytes, j: Int) {at(bput(b, o, s), j)} ::
   0 <= o && o + blen(s) <= blen(b) && 0 <= j && j < blen(b) ==> at(bput(b, o, s), j) == (o <= j && j < o + blen(s) ? at(s, j - o) : at(b, j))
axiom bput_sub: forall (b: Bytes, o: Int, s: Bytes, p, n: Int) {sub(bput(b, o, s), p, n)} ::
   0 <= o && o + blen(s) <= blen(b) && o <= p && 0 <= n && p + n <= o + blen(s) ==> sub(bput(b, o, s), p, n) == sub(s, p - o, n)

// bytes equality by extensionality, on demand
fn beq(a: Bytes, b: Bytes): Bool
axiom beq_def: forall (a, b: Bytes) {beq(a, b)} :: blen(a) == blen(b) && (forall (i: Int) {at(a, i)} {at(b, i)} :: 0 <= i && i < blen(a) ==> at(a, i) == at(b, i)) ==> a == b
