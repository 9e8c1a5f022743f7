package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---------- sorts ----------

type Sort struct {
	Name string     // SMT name
	Elem *Sort      // for arrays: range sort
	Key  *Sort      // for arrays: domain
	Go   types.Type // for refs: the Go struct type; for slices: the slice type
	Meta string     // "", "ref", "slice", "struct", "map"
}

var (
	sInt   = &Sort{Name: "Int"}
	sBool  = &Sort{Name: "Bool"}
	sBytes = &Sort{Name: "Bytes"}
	sSlice = &Sort{Name: "Slice"}
	sIface = &Sort{Name: "Iface"}
	sRType = &Sort{Name: "RType"}
	sRV    = &Sort{Name: "RV"}
	sFlt   = &Sort{Name: "Flt"}
	sTime  = &Sort{Name: "Time"}
	sUnit  = &Sort{Name: "Unit"}
)

var arrSorts = map[string]*Sort{}

func arrSort(k, e *Sort) *Sort {
	n := "(Array " + k.Name + " " + e.Name + ")"
	key := n + fmt.Sprintf("%p", e)
	if s, ok := arrSorts[key]; ok {
		return s
	}
	s := &Sort{Name: n, Elem: e, Key: k}
	arrSorts[key] = s
	return s
}

// ---------- terms ----------

type Term struct {
	Op   string // SMT operator or symbol; "#" integer literal
	Args []*Term
	S    *Sort
	I    *big.Int // literal
	Q    *Quant
	key  string
	id   int
}

type Quant struct {
	Vars []*Term
	Body *Term
	Pats [][]*Term
}

var (
	ttab   = map[string]*Term{}
	tcount int
	symctr int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	if t.I != nil {
		sb.WriteString(t.I.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.Q != nil {
		fmt.Fprintf(&sb, "q%d", t.Q.Body.id)
		for _, v := range t.Q.Vars {
			fmt.Fprintf(&sb, ",%d", v.id)
		}
	}
	sb.WriteString(":")
	sb.WriteString(t.S.Name)
	if t.S.Go != nil {
		fmt.Fprintf(&sb, "@%p", t.S)
	}
	k := sb.String()
	if x, ok := ttab[k]; ok {
		return x
	}
	tcount++
	t.id = tcount
	t.key = k
	ttab[k] = t
	return t
}

func mk(op string, s *Sort, args ...*Term) *Term {
	return intern(&Term{Op: op, Args: args, S: s})
}

func lit(n int64) *Term           { return litB(big.NewInt(n)) }
func litB(n *big.Int) *Term       { return intern(&Term{Op: "#", S: sInt, I: n}) }
func sym(n string, s *Sort) *Term { return mk(n, s) }

func freshName(base string) string {
	symctr++
	n := symctr
	base = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' {
			return r
		}
		return '_'
	}, base)
	return fmt.Sprintf("%s!%d", base, n)
}
func fresh(base string, s *Sort) *Term { return mk(freshName(base), s) }

var tTrue = mk("true", sBool)
var tFalse = mk("false", sBool)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var baseCount, baseSym int

func markBase() { baseCount, baseSym = tcount, symctr }
func resetTerms() {
	for k, t := range ttab {
		if t.id > baseCount {
			delete(ttab, k)
		}
	}
	tcount, symctr = baseCount, baseSym
}

func isLit(t *Term) bool { return t.Op == "#" }

func mkNot(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.Op == "not":
		return a.Args[0]
	}
	return mk("not", sBool, a)
}

func mkAnd(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == tTrue || seen[a] {
			return true
		}
		if a == tFalse || seen[mkNot(a)] {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", sBool, out...)
}

func mkOr(as ...*Term) *Term {
	ns := make([]*Term, len(as))
	for i, a := range as {
		ns[i] = mkNot(a)
	}
	r := mkAnd(ns...)
	if r.Op == "and" {
		out := make([]*Term, len(r.Args))
		for i, a := range r.Args {
			out[i] = mkNot(a)
		}
		return mk("or", sBool, out...)
	}
	return mkNot(r)
}

func mkImp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return mkNot(a)
	}
	return mk("=>", sBool, a, b)
}

func isDistinctConst(t *Term) bool {
	// symbols that denote pairwise distinct constants of a sort
	return t.Op == "#" || strings.HasPrefix(t.Op, "T!") && len(t.Args) == 0 || t == tTrue || t == tFalse
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isDistinctConst(a) && isDistinctConst(b) {
		return tFalse
	}
	if a.S == sBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return mkNot(b)
		}
		if b == tFalse {
			return mkNot(a)
		}
	}
	// constructor vs constructor
	if len(a.Args) > 0 && len(a.Args) == len(b.Args) && a.Op == b.Op && strings.HasPrefix(a.Op, "mk.") {
		var es []*Term
		for i := range a.Args {
			es = append(es, mkEq(a.Args[i], b.Args[i]))
		}
		return mkAnd(es...)
	}
	if a.Op == "ite" && isDistinctConst(b) {
		if isDistinctConst(a.Args[1]) || isDistinctConst(a.Args[2]) {
			return mkIte(a.Args[0], mkEq(a.Args[1], b), mkEq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && isDistinctConst(a) {
		return mkEq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", sBool, a, b)
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.S == sBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return mkNot(c)
		}
		if a == tTrue {
			return mkOr(c, b)
		}
		if a == tFalse {
			return mkAnd(mkNot(c), b)
		}
		if b == tTrue {
			return mkOr(mkNot(c), a)
		}
		if b == tFalse {
			return mkAnd(c, a)
		}
	}
	return mk("ite", a.S, c, a, b)
}

// linear normal form of additions: sum of coef*atom + const
type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func toLin(t *Term) *lin {
	l := &lin{big.NewInt(0), map[*Term]*big.Int{}}
	var add func(t *Term, k *big.Int)
	add = func(t *Term, k *big.Int) {
		switch t.Op {
		case "#":
			l.c.Add(l.c, new(big.Int).Mul(k, t.I))
		case "+":
			for _, a := range t.Args {
				add(a, k)
			}
		case "*":
			if isLit(t.Args[0]) {
				add(t.Args[1], new(big.Int).Mul(k, t.Args[0].I))
				return
			}
			fallthrough
		default:
			if x, ok := l.co[t]; ok {
				l.co[t] = new(big.Int).Add(x, k)
			} else {
				l.co[t] = new(big.Int).Set(k)
			}
		}
	}
	add(t, big.NewInt(1))
	return l
}

func (l *lin) term() *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := l.co[t]
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", sInt, litB(k), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, litB(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", sInt, out...)
}

func mkAdd(a, b *Term) *Term {
	return toLin(mk("+", sInt, a, b)).term()
}
func mkMul(a, b *Term) *Term {
	if isLit(a) && isLit(b) {
		return litB(new(big.Int).Mul(a.I, b.I))
	}
	if isLit(b) {
		a, b = b, a
	}
	if isLit(a) {
		l := toLin(b)
		l.c.Mul(l.c, a.I)
		for t, k := range l.co {
			l.co[t] = new(big.Int).Mul(k, a.I)
		}
		return l.term()
	}
	return mk("*", sInt, a, b)
}
func mkSub(a, b *Term) *Term { return mkAdd(a, mkMul(lit(-1), b)) }

func floorDivMod(a, b *big.Int) (*big.Int, *big.Int) {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean, like SMT div/mod
	return q, m
}

func mkDiv(a, b *Term) *Term { // SMT div; b must be a positive literal for soundness of use
	if isLit(b) && b.I.Sign() > 0 {
		if isLit(a) {
			q, _ := floorDivMod(a.I, b.I)
			return litB(q)
		}
		if b.I.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.Op == "div" && isLit(a.Args[1]) {
			return mkDiv(a.Args[0], litB(new(big.Int).Mul(a.Args[1].I, b.I)))
		}
	}
	return mk("div", sInt, a, b)
}
func mkMod(a, b *Term) *Term {
	if isLit(b) && b.I.Sign() > 0 {
		if isLit(a) {
			_, m := floorDivMod(a.I, b.I)
			return litB(m)
		}
	}
	return mk("mod", sInt, a, b)
}

func mkLe(a, b *Term) *Term {
	d := toLin(mkSub(b, a))
	if len(d.co) == 0 || allZero(d) {
		return mkBool(d.c.Sign() >= 0)
	}
	return mk("<=", sBool, a, b)
}
func allZero(l *lin) bool {
	for _, k := range l.co {
		if k.Sign() != 0 {
			return false
		}
	}
	return true
}
func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }

func mkSelect(a, i *Term) *Term {
	for a.Op == "store" {
		e := mkEq(a.Args[1], i)
		if e == tTrue {
			return a.Args[2]
		}
		if e != tFalse && !provablyDistinctRefs(a.Args[1], i) {
			break
		}
		a = a.Args[0]
	}
	return mk("select", a.S.Elem, a, i)
}

// fresh refs are literals above refBase, everything symbolic marked as
// "param ref" is below; we only use literal/literal distinctness here.
func provablyDistinctRefs(a, b *Term) bool {
	return isLit(a) && isLit(b) && a.I.Cmp(b.I) != 0
}

func mkStore(a, i, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.S, a, i, v)
}

// ---------- bytes ----------
var bEmpty = mk("bempty", sBytes)

// rawBytes: build terms as written (axioms), so that the solver has the laws
// that the constructors below apply by themselves.
var rawBytes bool

func mkBlen(b *Term) *Term {
	if rawBytes {
		return mk("blen", sInt, b)
	}
	switch b.Op {
	case "bempty":
		return lit(0)
	case "unit":
		return lit(1)
	case "cat":
		return mkAdd(mkBlen(b.Args[0]), mkBlen(b.Args[1]))
	case "bzeros":
		if isLit(b.Args[0]) {
			return b.Args[0]
		}
	case "upd":
		return mkBlen(b.Args[0])
	case "bput":
		return mkBlen(b.Args[0])
	}
	if s, ok := strLits[b.Op]; ok && len(b.Args) == 0 {
		return lit(int64(len(s)))
	}
	return mk("blen", sInt, b)
}
func mkCat(a, b *Term) *Term {
	if rawBytes {
		return mk("cat", sBytes, a, b)
	}
	if a == bEmpty {
		return b
	}
	if b == bEmpty {
		return a
	}
	if a.Op == "cat" {
		return mkCat(a.Args[0], mkCat(a.Args[1], b))
	}
	return mk("cat", sBytes, a, b)
}
func mkAt(b, i *Term) *Term {
	if rawBytes {
		return mk("at", sInt, b, i)
	}
	if b.Op == "upd" {
		e := mkEq(b.Args[1], i)
		if e == tTrue {
			return b.Args[2]
		}
		if e == tFalse {
			return mkAt(b.Args[0], i)
		}
	}
	if b.Op == "bzeros" && isLit(i) && isLit(b.Args[0]) && i.I.Sign() >= 0 && i.I.Cmp(b.Args[0].I) < 0 {
		return lit(0)
	}
	return mk("at", sInt, b, i)
}
func mkSub3(b, o, n *Term) *Term {
	if rawBytes {
		return mk("sub", sBytes, b, o, n)
	}
	if isLit(n) && n.I.Sign() == 0 {
		return bEmpty
	}
	if o.Op == "#" && o.I.Sign() == 0 && n == mkBlen(b) {
		return b
	}
	if b.Op == "bput" && b.Args[1] == o && n == mkBlen(b.Args[2]) {
		return b.Args[2]
	}
	// literal update chains: turn into concatenation of units
	if isLit(o) && isLit(n) && n.I.IsInt64() && n.I.Int64() <= 16 && (b.Op == "upd" || b.Op == "bput") {
		k := int(n.I.Int64())
		parts := make([]*Term, 0, k)
		ok := true
		for j := 0; j < k; j++ {
			x := mkAt(b, litB(new(big.Int).Add(o.I, big.NewInt(int64(j)))))
			if x.Op == "at" && x.Args[0].Op == "upd" {
				ok = false
			}
			parts = append(parts, mk("unit", sBytes, x))
		}
		if ok && b.Op == "upd" {
			r := bEmpty
			for j := k - 1; j >= 0; j-- {
				r = mkCat(parts[j], r)
			}
			return r
		}
	}
	return mk("sub", sBytes, b, o, n)
}

var strLits = map[string]string{}

func strLit(s string) *Term {
	if s == "" {
		return bEmpty
	}
	n := "S!" + fmt.Sprintf("%x", s)
	if len(n) > 60 {
		h := uint64(14695981039346656037)
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
		n = fmt.Sprintf("S!h%x_%d", h, len(s))
	}
	strLits[n] = s
	return mk(n, sBytes)
}

// ---------- substitution & printing ----------

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 && t.Q == nil {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Q != nil {
			q := &Quant{Vars: t.Q.Vars, Body: f(t.Q.Body)}
			for _, p := range t.Q.Pats {
				var np []*Term
				for _, x := range p {
					np = append(np, f(x))
				}
				q.Pats = append(q.Pats, np)
			}
			r = intern(&Term{Op: t.Op, S: t.S, Q: q})
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = f(a)
				ch = ch || args[i] != a
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "and":
		return mkAnd(a...)
	case "or":
		return mkOr(a...)
	case "not":
		return mkNot(a[0])
	case "=>":
		return mkImp(a[0], a[1])
	case "=":
		return mkEq(a[0], a[1])
	case "ite":
		return mkIte(a[0], a[1], a[2])
	case "+":
		r := a[0]
		for _, x := range a[1:] {
			r = mkAdd(r, x)
		}
		return r
	case "*":
		return mkMul(a[0], a[1])
	case "<=":
		return mkLe(a[0], a[1])
	case "select":
		return mkSelect(a[0], a[1])
	case "store":
		return mkStore(a[0], a[1], a[2])
	case "blen":
		return mkBlen(a[0])
	case "cat":
		return mkCat(a[0], a[1])
	case "at":
		return mkAt(a[0], a[1])
	case "sub":
		return mkSub3(a[0], a[1], a[2])
	case "div":
		return mkDiv(a[0], a[1])
	case "mod":
		return mkMod(a[0], a[1])
	}
	if strings.HasPrefix(t.Op, "sel.") && len(a) == 1 {
		return mkSel(t.Op, t.S, a[0])
	}
	return mk(t.Op, t.S, a...)
}

// selectors "sel.<Dt>.<i>", constructors "mk.<Dt>"
func mkSel(op string, s *Sort, x *Term) *Term {
	j := strings.LastIndex(op, ".")
	dt := op[4:j]
	if x.Op == "mk."+dt {
		var i int
		fmt.Sscanf(op[j+1:], "%d", &i)
		return x.Args[i]
	}
	if x.Op == "ite" && (x.Args[1].Op == "mk."+dt || x.Args[2].Op == "mk."+dt) {
		return mkIte(x.Args[0], mkSel(op, s, x.Args[1]), mkSel(op, s, x.Args[2]))
	}
	return mk(op, s, x)
}

func symName(n string) string {
	if n != "" && n[0] == '(' {
		return n
	}
	for _, r := range n {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!$-<>=+*?/@", r)) {
			return "|" + n + "|"
		}
	}
	return n
}

type printer struct {
	cnt   map[*Term]int
	names map[*Term]string
	defs  []string
	n     int
	pre   string
}

func (p *printer) count(t *Term, bound map[*Term]bool) {
	p.cnt[t]++
	if p.cnt[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a, bound)
	}
}

func (p *printer) str(t *Term, inQ bool) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	var r string
	switch {
	case t.Op == "#":
		if t.I.Sign() < 0 {
			r = "(- " + new(big.Int).Neg(t.I).String() + ")"
		} else {
			r = t.I.String()
		}
		return r
	case t.Q != nil:
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Q.Vars {
			sb.WriteString("(" + symName(v.Op) + " " + v.S.Name + ")")
		}
		sb.WriteString(") ")
		if len(t.Q.Pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.str(t.Q.Body, true))
		for _, pt := range t.Q.Pats {
			sb.WriteString(" :pattern (")
			for i, x := range pt {
				if i > 0 {
					sb.WriteString(" ")
				}
				sb.WriteString(p.str(x, true))
			}
			sb.WriteString(")")
		}
		if len(t.Q.Pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	case len(t.Args) == 0:
		return symName(t.Op)
	case t.Op == "wrapi" || t.Op == "wrapu":
		r = "(" + t.Op + t.Args[1].I.String() + " " + p.str(t.Args[0], inQ) + ")"
	default:
		var sb strings.Builder
		sb.WriteString("(" + symName(t.Op))
		for _, a := range t.Args {
			sb.WriteString(" ")
			sb.WriteString(p.str(a, inQ))
		}
		sb.WriteString(")")
		r = sb.String()
	}
	if !inQ && p.cnt[t] > 1 && len(t.Args) > 0 && len(r) > 24 {
		p.n++
		n := fmt.Sprintf("%sd%d", p.pre, p.n)
		p.defs = append(p.defs, fmt.Sprintf("(define-fun %s () %s %s)", n, t.S.Name, r))
		p.names[t] = n
		return n
	}
	return r
}

func newPrinter(pre string) *printer {
	return &printer{cnt: map[*Term]int{}, names: map[*Term]string{}, pre: pre}
}

// collect free symbols (zero-arg, non-builtin) and function symbols
func collectSyms(ts []*Term, f func(t *Term)) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, a := range t.Args {
			walk(a)
		}
		if t.Q != nil {
			walk(t.Q.Body)
			for _, p := range t.Q.Pats {
				for _, x := range p {
					walk(x)
				}
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
}
