package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Name   string
	InvKey string // the invariant it is about, when looking for an inductive subset
	Kind   string
	Labels []string
	PC     []*Term
	Goal   *Term
	Pos    string
	Trace  []string
	Script string
	Done   string // solver / "simplifier" when discharged
	Res    string
	Time   float64
}

type Exec struct {
	w        *World
	fn       *ssa.Function
	c        *Contract
	key      string
	obls     []*Obl
	mods     map[string]*LoopMods
	changed  bool
	feas     *Feas
	paths    int
	returns  int
	smokes   []*Obl
	houdini  map[string]bool // invariants dropped so far; nil: as written
	invKey   string
	fails    map[string]bool
	entry    *Eval
	may      *Term
	dec      []*Term // measure of the function at entry
	decWhen  *Term
	steps    int
	cellctr  int
	sortctr  int
	inlined  map[string]bool
	used     map[string]bool // contracts used
	assumed  map[string]bool
	refCount map[string]int
	stopped  string
	nolimit  bool
	mapcards map[string]*Sort
	lk       *lockInfo // lock mode
	lkseen   map[string]bool
}

// what a loop modifies, discovered by running it until nothing new shows up
type LoopMods struct {
	vals   map[string]bool // phis and cells that change
	full   map[string]bool
	idx    map[string][]*Term
	lin    map[string]*big.Int // guessed increment per iteration
	nonlin map[string]bool
	nosl   map[string]bool // not a suffix-keeping slice
	ghost  map[string]bool
	calls  map[string]bool // contracted functions called on a way round
}

type LoopCtx struct {
	invs     []Clause
	key      string
	ord      int
	spec     *LoopSpec
	head     *State
	phis     map[*ssa.Phi]Value
	init     map[string]Value
	cellName map[int]string
	k        *Term
	entry    *Eval
	headEval *Eval
	dec      *Term
	iter     int
	symAt    int
	refAt    int64
}

type deferred struct {
	call  *ssa.CallCommon
	fn    Value
	args  []Value
	instr ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	loops  map[*ssa.BasicBlock]*LoopCtx
	path   string
	depth  int
	ret    func(st *State, vals []Value)
	pan    func(st *State, why string, pos token.Pos)
	names  map[string]Value // contract names of parameters
	li     *loopInfo
	allocs map[*ssa.Alloc]Value
	vars   map[string]dbg
	stack  []*ssa.Function
}

type dbg struct {
	v    Value
	addr bool
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Value, len(fr.env))
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.vars = make(map[string]dbg, len(fr.vars))
	for k, v := range fr.vars {
		n.vars[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.loops = make(map[*ssa.BasicBlock]*LoopCtx, len(fr.loops))
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	return &n
}

// ---------- loops of a function ----------

type loopInfo struct {
	headers map[*ssa.BasicBlock]int // ordinal, 1-based
	body    map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]*loopInfo{}

func loopsOf(f *ssa.Function) *loopInfo {
	if li, ok := loopCache[f]; ok {
		return li
	}
	li := &loopInfo{map[*ssa.BasicBlock]int{}, map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				if li.body[s] == nil {
					li.body[s] = map[*ssa.BasicBlock]bool{s: true}
				}
				var walk func(x *ssa.BasicBlock)
				walk = func(x *ssa.BasicBlock) {
					if li.body[s][x] {
						return
					}
					li.body[s][x] = true
					for _, p := range x.Preds {
						walk(p)
					}
				}
				walk(b)
			}
		}
	}
	var hs []*ssa.BasicBlock
	for h := range li.body {
		hs = append(hs, h)
	}
	posOf := func(b *ssa.BasicBlock) token.Pos {
		best := token.NoPos
		for x := range li.body[b] {
			for _, i := range x.Instrs {
				if _, phi := i.(*ssa.Phi); phi {
					continue // has the position of the variable's declaration
				}
				if p := i.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
					best = p
				}
			}
		}
		return best
	}
	sort.Slice(hs, func(i, j int) bool {
		a, b := posOf(hs[i]), posOf(hs[j])
		if a != b {
			return a < b
		}
		// outer before inner
		if x, y := len(li.body[hs[i]]), len(li.body[hs[j]]); x != y {
			return x > y
		}
		return hs[i].Index < hs[j].Index
	})
	for i, h := range hs {
		li.headers[h] = i + 1
	}
	loopCache[f] = li
	return li
}

type stopExec struct{ why string }

func (ex *Exec) unsupported(st *State, fr *Frame, why string, pos token.Pos) {
	ex.oblig(st, "unsupported", why, nil, tFalse, fr, pos)
}

func (ex *Exec) posStr(pos token.Pos) string {
	p := ex.w.prog.Fset.Position(pos)
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (ex *Exec) oblig(st *State, kind, name string, labels []string, goal *Term, fr *Frame, pos token.Pos) {
	if st.dead() {
		return
	}
	full := ex.key + "#" + kind
	if name != "" {
		full += ":" + name
	}
	if fr != nil && fr.depth > 0 {
		full += "@" + ex.w.funcKey(fr.fn)
	}
	o := &Obl{InvKey: ex.invKey, Name: full, Kind: kind, Labels: labels, PC: st.pc, Goal: goal, Pos: ex.posStr(pos), Trace: st.trace}
	if goal == tTrue || st.pcset[goal] {
		o.Done = "simplifier"
		o.Res = "proved"
	} else if goal.Op == "and" {
		for _, g := range goal.Args {
			ex.oblig(st, kind, name, labels, g, fr, pos)
		}
		return
	} else if goal.Op == "=>" {
		s2 := st.clone()
		s2.assume(goal.Args[0])
		if !s2.dead() {
			ex.oblig(s2, kind, name, labels, goal.Args[1], fr, pos)
			return
		}
		o.Done, o.Res = "simplifier", "proved"
	} else if goal.Op == "ite" {
		s2 := st.clone()
		s2.assume(goal.Args[0])
		ex.oblig(s2, kind, name, labels, goal.Args[1], fr, pos)
		s3 := st.clone()
		s3.assume(mkNot(goal.Args[0]))
		ex.oblig(s3, kind, name, labels, goal.Args[2], fr, pos)
		return
	}
	if ex.lk != nil && o.Done != "" {
		// the same obligation on another path
		if id := o.Name + "@" + o.Pos; ex.lkseen[id] {
			return
		} else {
			ex.lkseen[id] = true
		}
	}
	ex.obls = append(ex.obls, o)
	if len(ex.obls) > 12000 {
		panic(stopExec{"too many obligations"})
	}
}

// check emits a safety obligation and assumes it afterwards. If the function
// under verification declares behaviour on panics, a panicking path is taken too.
func (ex *Exec) check(st *State, fr *Frame, cond *Term, kind, name string, pos token.Pos) {
	if cond == tTrue || st.pcset[cond] || st.dead() {
		return
	}
	if ex.c.onPanic() && ex.may != tFalse {
		s2 := st.clone()
		s2.assume(mkNot(cond))
		if ex.feasible(s2) {
			ex.doPanic(s2, fr.clone(), kind+" "+name, pos)
		}
	} else if ex.may != tTrue {
		ex.oblig(st, kind, name, nil, mkOr(cond, ex.may), fr, pos)
	}
	st.assume(cond)
}

func (ex *Exec) feasible(st *State) bool {
	if st.dead() {
		return false
	}
	return ex.feas.sat(st.pc)
}

func (ex *Exec) doPanic(st *State, fr *Frame, why string, pos token.Pos) {
	// run deferred calls of this frame, then propagate
	ex.runDefers(st, fr, func(st *State, fr *Frame) {
		fr.pan(st, why, pos)
	}, pos)
}

func (ex *Exec) runDefers(st *State, fr *Frame, k func(*State, *Frame), pos token.Pos) {
	if len(fr.defers) == 0 {
		k(st, fr)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr = fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	ex.callValue(st, fr, d.call, d.fn, d.args, d.instr, func(st *State, fr *Frame, v []Value) {
		ex.runDefers(st, fr, k, pos)
	})
}

// ---------- typed fresh values ----------

var maxLen = new(big.Int).Lsh(big.NewInt(1), 50)

func (ex *Exec) typeFacts(st *State, t *Term, ty types.Type) {
	w := ex.w
	if lo, hi, ok := intRange(ty); ok {
		if !isLit(t) {
			setBounds(t, lo, hi)
			st.assume(mkLe(litB(lo), t))
			st.assume(mkLe(t, litB(hi)))
		}
		return
	}
	switch w.typeName(ty) {
	case "reflect.Value", "time.Time", "reflect.Type":
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Basic:
		if t.S == sBytes && t.Op != "bempty" {
			l := mkBlen(t)
			if !isLit(l) && l.Op == "blen" {
				setBounds(l, big.NewInt(0), maxLen)
			}
			st.assume(mkLe(l, litB(maxLen)))
			st.assume(mkLe(lit(0), l))
		}
	case *types.Slice:
		ln, cp, off, ref := sliceLen(t), sliceCap(t), sliceOff(t), sliceRef(t)
		for _, x := range []*Term{ln, cp, off} {
			if x.Op[0] == 's' {
				setBounds(x, big.NewInt(0), maxLen)
			}
		}
		st.assume(mkLe(lit(0), ln))
		st.assume(mkLe(ln, cp))
		st.assume(mkLe(lit(0), off))
		st.assume(mkLe(cp, litB(maxLen)))
		st.assume(mkLe(off, litB(maxLen)))
		st.assume(mkLe(lit(0), ref))
		st.assume(mkLt(ref, lit(st.ctr)))
		st.assume(mkImp(mkEq(ref, lit(0)), mkEq(cp, lit(0))))
		if isByteType(u.Elem()) {
			m := st.comp("BMEM", arrSort(sInt, sBytes))
			st.assume(mkLe(mkAdd(off, cp), mkBlen(mkSelect(m, ref))))
		}
	case *types.Pointer:
		if !isLit(t) {
			st.assume(mkLe(lit(0), t))
			st.assume(mkLt(t, lit(st.ctr)))
			if ex.lk != nil && ex.lk.isShared(u.Elem()) {
				st.assume(mkLt(lit(0), t))
			}
		}
	case *types.Map:
		if !isLit(t) {
			st.assume(mkLe(lit(0), t))
			st.assume(mkLt(t, lit(st.ctr)))
		}
	case *types.Interface:
		if t.S == sIface && !strings.HasPrefix(t.Op, "box!") {
			st.assume(mkLt(w.wid(t), lit(st.ctr)))
		}
	case *types.Array:
		if isByteType(u.Elem()) {
			st.assume(mkEq(mkBlen(t), lit(u.Len())))
		}
	case *types.Struct:
		if t.S.Meta == "struct" && !strings.HasPrefix(t.Op, "mk.") {
			for i := 0; i < u.NumFields(); i++ {
				ex.typeFacts(st, mkSel(fmt.Sprintf("sel.%s.%d", t.S.Name, i), w.dtFields[t.S.Name][i], t), u.Field(i).Type())
			}
		}
	}
}

func (ex *Exec) freshVal(st *State, base string, ty types.Type) Value {
	if tp, ok := ty.(*types.Tuple); ok {
		v := Value{}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, ex.freshVal(st, base, tp.At(i).Type()))
		}
		return v
	}
	t := fresh(base, ex.w.sortOf(ty))
	ex.typeFacts(st, t, ty)
	return Value{T: t}
}

// ---------- integer arithmetic ----------

type bnd struct{ lo, hi *big.Int }

var bounds = map[*Term]bnd{}

func setBounds(t *Term, lo, hi *big.Int) {
	if b, ok := bounds[t]; ok {
		if lo.Cmp(b.lo) < 0 {
			lo = b.lo
		}
		if hi.Cmp(b.hi) > 0 {
			hi = b.hi
		}
		if b.lo.Cmp(lo) > 0 {
			lo = b.lo
		}
		if b.hi.Cmp(hi) < 0 {
			hi = b.hi
		}
	}
	bounds[t] = bnd{lo, hi}
}

func boundsOf(t *Term) (lo, hi *big.Int, ok bool) {
	switch t.Op {
	case "#":
		return t.I, t.I, true
	case "at":
		return big.NewInt(0), big.NewInt(255), true
	case "mod":
		if isLit(t.Args[1]) {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].I, big.NewInt(1)), true
		}
	case "div":
		if isLit(t.Args[1]) && t.Args[1].I.Sign() > 0 {
			l, h, ok := boundsOf(t.Args[0])
			if ok {
				ql, _ := floorDivMod(l, t.Args[1].I)
				qh, _ := floorDivMod(h, t.Args[1].I)
				return ql, qh, true
			}
		}
	case "ite":
		l1, h1, ok1 := boundsOf(t.Args[1])
		l2, h2, ok2 := boundsOf(t.Args[2])
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	case "+", "*":
		l := toLin(t)
		lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
		for a, k := range l.co {
			if a == t {
				return nil, nil, false
			}
			x, y, ok := boundsOf(a)
			if !ok {
				return nil, nil, false
			}
			p, q := new(big.Int).Mul(x, k), new(big.Int).Mul(y, k)
			if p.Cmp(q) > 0 {
				p, q = q, p
			}
			lo.Add(lo, p)
			hi.Add(hi, q)
		}
		return lo, hi, true
	case "wrapi", "wrapu":
		b := uint(t.Args[1].I.Int64())
		one := big.NewInt(1)
		if t.Op == "wrapu" {
			return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, b), one), true
		}
		return new(big.Int).Neg(new(big.Int).Lsh(one, b-1)), new(big.Int).Sub(new(big.Int).Lsh(one, b-1), one), true
	}
	if b, ok := bounds[t]; ok {
		return b.lo, b.hi, true
	}
	return nil, nil, false
}

// wrap reduces a mathematical integer to the value of Go type ty.
func wrap(t *Term, ty types.Type) *Term {
	lo, hi, ok := intRange(ty)
	if !ok {
		return t
	}
	if l, h, ok := boundsOf(t); ok && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	bits, signed := intBits(ty.Underlying().(*types.Basic))
	m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if isLit(t) {
		x := new(big.Int).Sub(t.I, lo)
		_, r := floorDivMod(x, m)
		return litB(r.Add(r, lo))
	}
	var r *Term
	if signed {
		r = mk("wrapi", sInt, t, lit(int64(bits)))
	} else {
		r = mk("wrapu", sInt, t, lit(int64(bits)))
	}
	return r
}

func goDiv(a, b *Term) *Term { // truncated
	if l, _, ok := boundsOf(a); ok && l.Sign() >= 0 && isLit(b) && b.I.Sign() > 0 {
		return mkDiv(a, b)
	}
	if isLit(b) && b.I.Sign() > 0 {
		return mkIte(mkLe(lit(0), a), mkDiv(a, b), mkMul(lit(-1), mkDiv(mkMul(lit(-1), a), b)))
	}
	if isLit(b) && b.I.Sign() < 0 {
		return mkMul(lit(-1), goDiv(a, litB(new(big.Int).Neg(b.I))))
	}
	return mk("godiv", sInt, a, b)
}

func maskAnd(x *Term, m *big.Int) *Term {
	if m.Sign() < 0 {
		return mk("bitand", sInt, x, litB(m))
	}
	res := lit(0)
	i := 0
	for i < m.BitLen() {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < m.BitLen() && m.Bit(j) == 1 {
			j++
		}
		p := new(big.Int).Lsh(big.NewInt(1), uint(i))
		n := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		t := mkDiv(x, litB(p))
		if l, h, ok := boundsOf(t); !ok || l.Sign() < 0 || h.Cmp(n) >= 0 {
			t = mkMod(t, litB(n))
		}
		res = mkAdd(res, mkMul(litB(p), t))
		i = j
	}
	return res
}

// t is a multiple of 2^k: returns the largest such k seen syntactically
func trailingZeros(t *Term) uint {
	l := toLin(t)
	best := uint(64)
	upd := func(n *big.Int) {
		if n.Sign() != 0 {
			if z := new(big.Int).Abs(n).TrailingZeroBits(); z < best {
				best = z
			}
		}
	}
	upd(l.c)
	for a, k := range l.co {
		if (a.Op == "wrapu" || a.Op == "wrapi") && k.Cmp(big.NewInt(1)) == 0 {
			if z := trailingZeros(a.Args[0]); z < best {
				best = z
			}
			continue
		}
		if a.Op == "mod" && isLit(a.Args[1]) && k.Cmp(big.NewInt(1)) == 0 {
			z := trailingZeros(a.Args[0])
			if zm := a.Args[1].I.TrailingZeroBits(); zm < z {
				z = zm
			}
			if z < best {
				best = z
			}
			continue
		}
		upd(k)
	}
	return best
}

func (ex *Exec) binop(st *State, fr *Frame, op token.Token, x, y Value, xt, rt types.Type, pos token.Pos) Value {
	// pointer comparisons
	if op == token.EQL || op == token.NEQ {
		t := ex.equal(st, fr, x, y, xt, pos)
		if t == nil {
			return Value{Bad: "comparison"}
		}
		if op == token.NEQ {
			t = mkNot(t)
		}
		return Value{T: t}
	}
	if x.T == nil || y.T == nil {
		return Value{Bad: "operand"}
	}
	a, b := x.T, y.T
	if a.S == sBytes {
		switch op {
		case token.ADD:
			return Value{T: mkCat(a, b)}
		case token.LSS:
			return Value{T: mk("strlt", sBool, a, b)}
		case token.GTR:
			return Value{T: mk("strlt", sBool, b, a)}
		case token.LEQ:
			return Value{T: mkNot(mk("strlt", sBool, b, a))}
		case token.GEQ:
			return Value{T: mkNot(mk("strlt", sBool, a, b))}
		}
	}
	if a.S == sBool {
		switch op {
		case token.AND:
			return Value{T: mkAnd(a, b)}
		case token.OR:
			return Value{T: mkOr(a, b)}
		}
	}
	if a.S == sFlt {
		s := ex.w.sortOf(rt)
		return Value{T: mk("flt"+sani(op.String())+fmt.Sprint(int(op)), s, a, b)}
	}
	_, _, isInt := intRange(xt)
	if !isInt {
		return Value{Bad: "binop on " + xt.String()}
	}
	switch op {
	case token.LSS:
		return Value{T: mkLt(a, b)}
	case token.LEQ:
		return Value{T: mkLe(a, b)}
	case token.GTR:
		return Value{T: mkLt(b, a)}
	case token.GEQ:
		return Value{T: mkLe(b, a)}
	case token.ADD:
		return Value{T: wrap(mkAdd(a, b), rt)}
	case token.SUB:
		return Value{T: wrap(mkSub(a, b), rt)}
	case token.MUL:
		return Value{T: wrap(mkMul(a, b), rt)}
	case token.QUO:
		ex.check(st, fr, mkNot(mkEq(b, lit(0))), "safe", "division", pos)
		return Value{T: wrap(goDiv(a, b), rt)}
	case token.REM:
		ex.check(st, fr, mkNot(mkEq(b, lit(0))), "safe", "division", pos)
		if l, _, ok := boundsOf(a); ok && l.Sign() >= 0 && isLit(b) && b.I.Sign() > 0 {
			return Value{T: mkMod(a, b)}
		}
		return Value{T: mkSub(a, mkMul(b, goDiv(a, b)))}
	case token.AND:
		if isLit(a) {
			a, b = b, a
		}
		if isLit(b) {
			m := b.I
			if m.Sign() < 0 {
				if bits, _ := intBits(xt.Underlying().(*types.Basic)); true {
					m = new(big.Int).Add(m, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
				}
				return Value{T: wrap(maskAnd(a, m), rt)}
			}
			return Value{T: maskAnd(a, m)}
		}
		return ex.opaqueInt(st, "bitand", rt, a, b)
	case token.OR:
		if isLit(a) && a.I.Sign() == 0 {
			return Value{T: b}
		}
		if isLit(b) && b.I.Sign() == 0 {
			return Value{T: a}
		}
		for i := 0; i < 2; i++ {
			k := trailingZeros(a)
			if k > 0 {
				lim := new(big.Int).Lsh(big.NewInt(1), k)
				if l, h, ok := boundsOf(b); ok && l.Sign() >= 0 && h.Cmp(lim) < 0 {
					return Value{T: mkAdd(a, b)}
				}
				if k < 64 {
					o := ex.opaqueInt(st, "bitor", rt, a, b)
					return Value{T: mkIte(mkAnd(mkLe(lit(0), b), mkLt(b, litB(lim))), mkAdd(a, b), o.T)}
				}
			}
			a, b = b, a
		}
		return ex.opaqueInt(st, "bitor", rt, a, b)
	case token.XOR:
		bits, signed := intBits(rt.Underlying().(*types.Basic))
		all := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(bits)), big.NewInt(1))
		o := ex.opaqueInt(st, "bitxor", rt, a, b)
		if signed {
			return Value{T: mkIte(mkEq(b, lit(0)), a, mkIte(mkEq(b, lit(-1)), mkSub(lit(-1), a), o.T))}
		}
		return Value{T: mkIte(mkEq(b, lit(0)), a, mkIte(mkEq(b, litB(all)), mkSub(litB(all), a), o.T))}
	case token.AND_NOT:
		if isLit(b) {
			m := new(big.Int).Not(b.I)
			if m.Sign() < 0 {
				bits, _ := intBits(xt.Underlying().(*types.Basic))
				m.Add(m, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
			}
			return Value{T: wrap(maskAnd(a, m), rt)}
		}
		return ex.opaqueInt(st, "bitandnot", rt, a, b)
	case token.SHL:
		if isLit(b) && b.I.IsInt64() && b.I.Int64() < 200 && b.I.Sign() >= 0 {
			return Value{T: wrap(mkMul(litB(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64()))), a), rt)}
		}
		return ex.opaqueInt(st, "shl", rt, a, b)
	case token.SHR:
		if isLit(b) && b.I.IsInt64() && b.I.Int64() < 200 && b.I.Sign() >= 0 {
			return Value{T: mkDiv(a, litB(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64()))))}
		}
		return ex.opaqueInt(st, "shr", rt, a, b)
	}
	return Value{Bad: "operator " + op.String()}
}

func (ex *Exec) opaqueInt(st *State, op string, rt types.Type, a, b *Term) Value {
	t := mk(op, sInt, a, b)
	ex.typeFacts(st, t, rt)
	return Value{T: t}
}

func isNilConst(v Value) bool {
	return v.T != nil && (v.T == lit(0) || v.T.Op == "inil" || v.T.Op == "rt_nil" || v.T.Op == "mk.Slice" && v.T.Args[0] == lit(0))
}

func (ex *Exec) equal(st *State, fr *Frame, x, y Value, xt types.Type, pos token.Pos) *Term {
	if x.P != nil || y.P != nil {
		if x.P != nil && y.P != nil {
			return mkBool(x.same(y))
		}
		if isNilConst(x) || isNilConst(y) {
			return tFalse
		}
		tx, ty := ex.asTerm(x), ex.asTerm(y)
		if tx != nil && ty != nil {
			return mkEq(tx, ty)
		}
		return nil
	}
	if x.Fn != nil || y.Fn != nil {
		return tFalse
	}
	if x.T == nil || y.T == nil {
		return nil
	}
	if x.T.S.Name == "Slice" {
		if isNilConst(y) {
			return mkEq(sliceRef(x.T), lit(0))
		}
		return mkEq(sliceRef(y.T), lit(0))
	}
	if x.T.S.Name != y.T.S.Name {
		// interface compared with concrete handled by MakeInterface in SSA
		return nil
	}
	return mkEq(x.T, y.T)
}

// ---------- pointers ----------

func (ex *Exec) asTerm(v Value) *Term {
	if v.T != nil {
		return v.T
	}
	if v.P != nil && v.P.Kind == "heap" && len(v.P.Path) == 0 {
		return v.P.Ref
	}
	if v.P != nil && v.P.Kind == "arr" {
		return v.P.Ref
	}
	return nil
}

func (ex *Exec) load(st *State, fr *Frame, v Value, elem types.Type, pos token.Pos) Value {
	w := ex.w
	p := v.P
	if p == nil {
		if v.T == nil {
			return Value{Bad: "load through " + v.Bad}
		}
		// symbolic pointer
		ex.check(st, fr, mkNot(mkEq(v.T, lit(0))), "safe", "nil dereference", pos)
		if structOf(elem) == nil {
			return Value{Bad: "load through symbolic pointer to " + elem.String()}
		}
		p = &Ptr{Kind: "heap", St: elem, Ref: v.T}
	}
	if ex.lk != nil {
		ex.lockAccess(st, fr, p, false, pos)
	}
	switch p.Kind {
	case "cell":
		c := st.cells[p.Cell]
		if len(p.Path) == 0 {
			return c
		}
		if c.T == nil {
			return Value{Bad: "cell"}
		}
		t := w.selPath(c.T, st.ctyp[p.Cell], p.Path)
		if t == nil {
			return Value{Bad: "path"}
		}
		return Value{T: t}
	case "heap":
		if len(p.Path) == 0 {
			s := w.sortOf(p.St)
			u := structOf(p.St)
			if s.Meta != "struct" {
				return Value{T: mk("opaqueval", s, p.Ref)}
			}
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				cn, cs := w.fieldComp(p.St, i)
				args = append(args, mkSelect(st.comp(cn, cs), p.Ref))
			}
			return Value{T: mk("mk."+s.Name, s, args...)}
		}
		cn, cs := w.fieldComp(p.St, p.Path[0])
		t := mkSelect(st.comp(cn, cs), p.Ref)
		t = w.selPath(t, structOf(p.St).Field(p.Path[0]).Type(), p.Path[1:])
		if t == nil {
			return Value{Bad: "path"}
		}
		ex.typeFacts(st, t, elem)
		return Value{T: t}
	case "elem":
		if p.Comp == "BMEM" {
			t := mkAt(mkSelect(st.comp("BMEM", p.CS), p.Ref), p.Idx)
			ex.typeFacts(st, t, elem)
			return Value{T: t}
		}
		t := mkSelect(mkSelect(st.comp(p.Comp, p.CS), p.Ref), p.Idx)
		t = w.selPath(t, p.St, p.Path)
		if t == nil {
			return Value{Bad: "path"}
		}
		ex.typeFacts(st, t, elem)
		return Value{T: t}
	case "arr":
		return Value{T: mkSelect(st.comp(p.Comp, p.CS), p.Ref)}
	case "global":
		t := st.comp(p.Comp, p.CS)
		t = w.selPath(t, p.St, p.Path)
		if t == nil {
			return Value{Bad: "path"}
		}
		ex.typeFacts(st, t, elem)
		return Value{T: t}
	}
	return Value{Bad: "load"}
}

func (ex *Exec) store(st *State, fr *Frame, a, v Value, elem types.Type, pos token.Pos) {
	w := ex.w
	p := a.P
	bad := func(s string) {
		if ex.lk == nil {
			ex.unsupported(st, fr, s, pos)
		}
	}
	if p == nil {
		if a.T == nil {
			bad("store through " + a.Bad)
			return
		}
		ex.check(st, fr, mkNot(mkEq(a.T, lit(0))), "safe", "nil dereference", pos)
		if structOf(elem) == nil {
			bad("store through symbolic pointer")
			return
		}
		p = &Ptr{Kind: "heap", St: elem, Ref: a.T}
	}
	if ex.lk != nil {
		ex.lockAccess(st, fr, p, true, pos)
		if p.Kind == "heap" || p.Kind == "elem" || p.Kind == "global" {
			st.publish(v)
		}
	}
	if p.Kind == "cell" && len(p.Path) == 0 {
		st.cells[p.Cell] = v
		return
	}
	t := ex.asTerm(v)
	if t == nil {
		if v.Fn != nil {
			t = fresh("fn", sInt)
		} else {
			bad("store of unsupported value " + v.Bad)
			return
		}
	}
	switch p.Kind {
	case "cell":
		c := st.cells[p.Cell]
		if c.T == nil {
			bad("store into " + c.Bad)
			return
		}
		st.cells[p.Cell] = Value{T: w.updPath(c.T, st.ctyp[p.Cell], p.Path, t)}
	case "heap":
		if len(p.Path) == 0 {
			u := structOf(p.St)
			s := w.sortOf(p.St)
			if s.Meta != "struct" {
				bad("store of " + p.St.String())
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				cn, cs := w.fieldComp(p.St, i)
				st.comps[cn] = mkStore(st.comp(cn, cs), p.Ref, mkSel(fmt.Sprintf("sel.%s.%d", s.Name, i), w.dtFields[s.Name][i], t))
			}
			return
		}
		cn, cs := w.fieldComp(p.St, p.Path[0])
		ex.w.compSorts[cn] = cs
		c := st.comp(cn, cs)
		old := mkSelect(c, p.Ref)
		st.comps[cn] = mkStore(c, p.Ref, w.updPath(old, structOf(p.St).Field(p.Path[0]).Type(), p.Path[1:], t))
	case "elem":
		if st.frozenRefs[p.Ref] {
			bad("write to a slice of a struct's array")
			return
		}
		c := st.comp(p.Comp, p.CS)
		if p.Comp == "BMEM" {
			st.comps["BMEM"] = mkStore(c, p.Ref, mk("upd", sBytes, mkSelect(c, p.Ref), p.Idx, t))
			return
		}
		arr := mkSelect(c, p.Ref)
		nv := t
		if len(p.Path) > 0 {
			nv = w.updPath(mkSelect(arr, p.Idx), p.St, p.Path, t)
		}
		st.comps[p.Comp] = mkStore(c, p.Ref, mkStore(arr, p.Idx, nv))
	case "arr":
		st.comps[p.Comp] = mkStore(st.comp(p.Comp, p.CS), p.Ref, t)
	case "global":
		bad("store to package variable " + p.Comp)
	}
}

func (ex *Exec) newRef(st *State) *Term {
	r := lit(st.ctr)
	st.ctr++
	return r
}

func (ex *Exec) alloc(st *State, fr *Frame, ty types.Type, comment string, forceHeap bool) Value {
	w := ex.w
	switch u := ty.Underlying().(type) {
	case *types.Array:
		r := ex.newRef(st)
		cn, cs := w.elemComp(u.Elem())
		w.compSorts[cn] = cs
		st.comps[cn] = mkStore(st.comp(cn, cs), r, w.zero(ty))
		return Value{P: &Ptr{Kind: "arr", Ref: r, Comp: cn, CS: cs, Elem: ty}}
	case *types.Struct:
		name := w.typeName(ty)
		if name == "reflect.Value" || name == "time.Time" {
			break
		}
		if name == "bytes.Buffer" {
			r := ex.newRef(st)
			st.comps["OUT"] = mkStore(st.comp("OUT", arrSort(sInt, sBytes)), r, bEmpty)
			return Value{T: mk("#ref", w.sortOf(types.NewPointer(ty)), r)}.norm(r, w.sortOf(types.NewPointer(ty)))
		}
		if forceHeap && w.sortOf(ty).Meta == "struct" {
			r := ex.newRef(st)
			for i := 0; i < u.NumFields(); i++ {
				cn, cs := w.fieldComp(ty, i)
				w.compSorts[cn] = cs
				if w.lockComps[cn] {
					continue // a new mutex is free
				}
				st.comps[cn] = mkStore(st.comp(cn, cs), r, w.zero(u.Field(i).Type()))
			}
			return Value{P: &Ptr{Kind: "heap", St: ty, Ref: r, Elem: ty}}
		}
	}
	ex.cellctr++
	id := ex.cellctr
	st.cells[id] = Value{T: w.zero(ty)}
	st.ctyp[id] = ty
	return Value{P: &Ptr{Kind: "cell", Cell: id, Elem: ty}}
}

func (v Value) norm(r *Term, s *Sort) Value { return Value{T: r} }

// ---------- running ----------

func (ex *Exec) get(fr *Frame, v ssa.Value, st *State) Value {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return Value{T: ex.w.zero(v.Type())}
		}
		return Value{T: constTermF(ex.w, v.Value, v.Type())}
	case *ssa.Function:
		return Value{Fn: v}
	case *ssa.Global:
		et := v.Type().(*types.Pointer).Elem()
		n := v.Name()
		if v.Pkg.Pkg != ex.w.root {
			n = v.Pkg.Pkg.Name() + "." + n
		}
		return Value{P: &Ptr{Kind: "global", Comp: "G." + n, CS: ex.w.sortOf(et), St: et, Elem: et}}
	case *ssa.Builtin:
		return Value{}
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	return Value{Bad: "undefined " + v.Name()}
}

func constTermF(w *World, v constant.Value, t types.Type) *Term { return constTerm(w, v, t) }

func (ex *Exec) jump(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	ex.steps++
	if ex.steps > 400000 {
		panic(stopExec{"too many steps"})
	}
	if st.dead() {
		return
	}
	if _, isH := fr.li.headers[to]; isH {
		if lc := fr.loops[to]; lc != nil && fr.li.body[to][from] {
			ex.backedge(st, fr, from, to, lc)
			return
		}
		ex.enterLoop(st, fr, from, to)
		return
	}
	// leaving loops: drop contexts whose body does not contain 'to'
	for h := range fr.loops {
		if !fr.li.body[h][to] {
			delete(fr.loops, h)
		}
	}
	vals := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = ex.phiVal(st, fr, ph, from, to)
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
	ex.run(st, fr, to, len(vals))
}

func (ex *Exec) phiVal(st *State, fr *Frame, ph *ssa.Phi, from, to *ssa.BasicBlock) Value {
	for i, p := range to.Preds {
		if p == from {
			return ex.get(fr, ph.Edges[i], st)
		}
	}
	return Value{Bad: "phi"}
}

func (ex *Exec) run(st *State, fr *Frame, b *ssa.BasicBlock, idx int) {
	for i := idx; i < len(b.Instrs); i++ {
		if st.dead() {
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
			if o := in.Object(); o != nil {
				if v := ex.get(fr, in.X, st); v.Bad == "" {
					fr.vars[o.Name()] = dbg{v, in.IsAddr}
				}
			}
			continue
		case *ssa.Jump:
			ex.jump(st, fr, b, b.Succs[0])
			return
		case *ssa.If:
			c := ex.get(fr, in.Cond, st)
			if c.T == nil {
				ex.unsupported(st, fr, "condition "+c.Bad, in.Pos())
				return
			}
			ex.branch(st, fr, c.T, in.Cond.Pos(), func(s *State, f *Frame) { ex.jump(s, f, b, b.Succs[0]) }, func(s *State, f *Frame) { ex.jump(s, f, b, b.Succs[1]) })
			return
		case *ssa.Return:
			var vs []Value
			for _, r := range in.Results {
				vs = append(vs, ex.get(fr, r, st))
			}
			fr.ret(st, vs)
			return
		case *ssa.Panic:
			v := ex.get(fr, in.X, st)
			_ = v
			ex.doPanic(st, fr, "panic", in.Pos())
			return
		case *ssa.RunDefers:
			ni := i + 1
			ex.runDefers(st, fr, func(s *State, f *Frame) { ex.run(s, f, b, ni) }, in.Pos())
			return
		case *ssa.Call:
			ni := i + 1
			call := in
			ex.call(st, fr, &in.Call, in, func(s *State, f *Frame, vs []Value) {
				var v Value
				if tp, ok := call.Type().(*types.Tuple); ok {
					if tp.Len() != 1 || true {
						v = Value{Tup: vs}
					}
				} else if len(vs) > 0 {
					v = vs[0]
				}
				f.env[call] = v
				ex.run(s, f, b, ni)
			})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, instr: in}
			if !in.Call.IsInvoke() {
				d.fn = ex.get(fr, in.Call.Value, st)
			} else {
				d.fn = ex.get(fr, in.Call.Value, st)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, ex.get(fr, a, st))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.TypeAssert:
			ex.typeAssert(st, fr, in)
		case ssa.Value:
			v := ex.eval(st, fr, in)
			if v.Bad != "" && ex.lk != nil {
				v = ex.freshVal(st, "u", in.Type())
			}
			if v.Bad != "" {
				ex.unsupported(st, fr, v.Bad, b.Instrs[i].Pos())
				return
			}
			fr.env[in] = v
		case *ssa.Store:
			ex.store(st, fr, ex.get(fr, in.Addr, st), ex.get(fr, in.Val, st), in.Val.Type(), in.Pos())
		case *ssa.MapUpdate:
			m, k, v := ex.get(fr, in.Map, st), ex.get(fr, in.Key, st), ex.get(fr, in.Value, st)
			kt, vt := ex.asTerm(k), ex.asTerm(v)
			if m.T == nil || kt == nil || vt == nil {
				ex.unsupported(st, fr, "map update", in.Pos())
				return
			}
			ex.check(st, fr, mkNot(mkEq(m.T, lit(0))), "safe", "assignment to nil map", in.Pos())
			if ex.lk != nil {
				ex.lockMap(st, fr, in.Map.Type(), m.T, true, in.Pos())
				st.publish(v)
				if ex.lk.spec.Nonempty && ex.lk.regMap(in.Map.Type()) && vt.S.Name == "Slice" {
					ex.oblig(st, "lock", "nonempty list", []string{ex.lk.spec.Prop + ":nonempty"}, mkLt(lit(0), sliceLen(vt)), fr, in.Pos())
				}
			}
			dn, vn, ds, vs := ex.w.mapComps(in.Map.Type().Underlying().(*types.Map))
			ex.w.compSorts[dn], ex.w.compSorts[vn] = ds, vs
			st.comps[dn] = mkStore(st.comp(dn, ds), m.T, mkStore(mkSelect(st.comp(dn, ds), m.T), kt, tTrue))
			st.comps[vn] = mkStore(st.comp(vn, vs), m.T, mkStore(mkSelect(st.comp(vn, vs), m.T), kt, vt))
		default:
			ex.unsupported(st, fr, fmt.Sprintf("instruction %T", in), b.Instrs[i].Pos())
			return
		}
	}
}

func (ex *Exec) branch(st *State, fr *Frame, c *Term, pos token.Pos, yes, no func(*State, *Frame)) {
	nc := mkNot(c)
	if c == tTrue || st.pcset[c] {
		yes(st, fr)
		return
	}
	if c == tFalse || st.pcset[nc] {
		no(st, fr)
		return
	}
	s1, f1 := st.clone(), fr.clone()
	s1.assume(c)
	s1.trace = append(s1.trace, ex.posStr(pos)+"+")
	st.assume(nc)
	st.trace = append(st.trace, ex.posStr(pos)+"-")
	ok1 := ex.feasible(s1)
	if ok1 {
		if ex.feasible(st) {
			yes(s1, f1)
			no(st, fr)
			return
		}
		yes(s1, f1)
		return
	}
	no(st, fr)
}

func (ex *Exec) eval(st *State, fr *Frame, in ssa.Value) Value {
	w := ex.w
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		v := ex.alloc(st, fr, et, in.Comment, in.Heap)
		return v
	case *ssa.UnOp:
		x := ex.get(fr, in.X, st)
		switch in.Op {
		case token.MUL:
			return ex.load(st, fr, x, in.Type(), pos)
		case token.NOT:
			if x.T == nil {
				return x
			}
			return Value{T: mkNot(x.T)}
		case token.SUB:
			if x.T == nil {
				return x
			}
			if x.T.S == sFlt {
				return Value{T: mk("fltneg", sFlt, x.T)}
			}
			return Value{T: wrap(mkMul(lit(-1), x.T), in.Type())}
		case token.XOR:
			if x.T == nil {
				return x
			}
			_, hi, _ := intRange(in.Type())
			if lo, _, _ := intRange(in.Type()); lo.Sign() == 0 {
				return Value{T: mkSub(litB(hi), x.T)}
			}
			return Value{T: mkSub(lit(-1), x.T)}
		}
		return Value{Bad: "unop " + in.Op.String()}
	case *ssa.BinOp:
		return ex.binop(st, fr, in.Op, ex.get(fr, in.X, st), ex.get(fr, in.Y, st), in.X.Type(), in.Type(), pos)
	case *ssa.FieldAddr:
		x := ex.get(fr, in.X, st)
		stt := in.X.Type().Underlying().(*types.Pointer).Elem()
		ft := structOf(stt).Field(in.Field).Type()
		if x.P != nil {
			p := *x.P
			p.Path = append(append([]int{}, p.Path...), in.Field)
			p.Elem = ft
			return Value{P: &p}
		}
		if x.T == nil {
			return Value{Bad: "field address of " + x.Bad}
		}
		ex.check(st, fr, mkNot(mkEq(x.T, lit(0))), "safe", "nil dereference", pos)
		return Value{P: &Ptr{Kind: "heap", St: stt, Ref: x.T, Path: []int{in.Field}, Elem: ft}}
	case *ssa.Field:
		x := ex.get(fr, in.X, st)
		if x.T == nil {
			return Value{Bad: "field of " + x.Bad}
		}
		t := w.selPath(x.T, in.X.Type(), []int{in.Field})
		if t == nil {
			return Value{Bad: "field of opaque struct"}
		}
		ex.typeFacts(st, t, in.Type())
		return Value{T: t}
	case *ssa.IndexAddr:
		x, i := ex.get(fr, in.X, st), ex.get(fr, in.Index, st)
		if i.T == nil {
			return Value{Bad: "index"}
		}
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			if x.T == nil {
				return Value{Bad: "slice"}
			}
			ex.check(st, fr, mkAnd(mkLe(lit(0), i.T), mkLt(i.T, sliceLen(x.T))), "safe", "index", pos)
			cn, cs := w.elemComp(u.Elem())
			w.compSorts[cn] = cs
			return Value{P: &Ptr{Kind: "elem", Comp: cn, CS: cs, Ref: sliceRef(x.T), Idx: mkAdd(sliceOff(x.T), i.T), St: u.Elem(), Elem: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			ex.check(st, fr, mkAnd(mkLe(lit(0), i.T), mkLt(i.T, lit(at.Len()))), "safe", "index", pos)
			if x.P != nil && x.P.Kind == "arr" {
				return Value{P: &Ptr{Kind: "elem", Comp: x.P.Comp, CS: x.P.CS, Ref: x.P.Ref, Idx: i.T, St: at.Elem(), Elem: at.Elem()}}
			}
			if x.P != nil && isByteType(at.Elem()) { // element of an array inside a struct: read only
				v := ex.load(st, fr, x, u.Elem(), pos)
				if v.T != nil {
					r := ex.newRef(st)
					cs := arrSort(sInt, sBytes)
					st.comps["BMEM"] = mkStore(st.comp("BMEM", cs), r, v.T)
					st.frozenRefs[r] = true
					return Value{P: &Ptr{Kind: "elem", Comp: "BMEM", CS: cs, Ref: r, Idx: i.T, St: at.Elem(), Elem: at.Elem()}}
				}
			}
		}
		return Value{Bad: "index address"}
	case *ssa.Index:
		x, i := ex.get(fr, in.X, st), ex.get(fr, in.Index, st)
		if x.T == nil || i.T == nil {
			return Value{Bad: "index"}
		}
		var ln *Term
		switch u := in.X.Type().Underlying().(type) {
		case *types.Array:
			ln = lit(u.Len())
		default:
			ln = mkBlen(x.T)
		}
		ex.check(st, fr, mkAnd(mkLe(lit(0), i.T), mkLt(i.T, ln)), "safe", "index", pos)
		if x.T.S == sBytes {
			return Value{T: mkAt(x.T, i.T)}
		}
		return Value{T: mkSelect(x.T, i.T)}
	case *ssa.Lookup:
		x, i := ex.get(fr, in.X, st), ex.get(fr, in.Index, st)
		it := ex.asTerm(i)
		if x.T == nil || it == nil {
			return Value{Bad: "lookup"}
		}
		mt, ok := in.X.Type().Underlying().(*types.Map)
		if !ok {
			ex.check(st, fr, mkAnd(mkLe(lit(0), it), mkLt(it, mkBlen(x.T))), "safe", "index", pos)
			return Value{T: mkAt(x.T, it)}
		}
		ex.lockMap(st, fr, mt, x.T, false, pos)
		dn, vn, ds, vs := w.mapComps(mt)
		w.compSorts[dn], w.compSorts[vn] = ds, vs
		has := mkAnd(mkNot(mkEq(x.T, lit(0))), mkSelect(mkSelect(st.comp(dn, ds), x.T), it))
		raw := mkSelect(mkSelect(st.comp(vn, vs), x.T), it)
		v := mkIte(has, raw, w.zero(mt.Elem()))
		ex.typeFacts(st, raw, mt.Elem())
		if ex.lk != nil && ex.lk.spec.Nonempty && ex.lk.regMap(mt) && raw.S.Name == "Slice" {
			st.assume(mkImp(has, mkLt(lit(0), sliceLen(raw))))
		}
		if in.CommaOk {
			return Value{Tup: []Value{{T: v}, {T: has}}}
		}
		return Value{T: v}
	case *ssa.Slice:
		return ex.slice(st, fr, in)
	case *ssa.MakeSlice:
		l, c := ex.get(fr, in.Len, st).T, ex.get(fr, in.Cap, st).T
		if l == nil || c == nil {
			return Value{Bad: "make"}
		}
		// allocation limit: a run-time panic for absurd sizes is reported as unsafe
		ex.check(st, fr, mkAnd(mkLe(lit(0), l), mkLe(l, c), mkLe(c, litB(maxLen))), "safe", "make", pos)
		et := in.Type().Underlying().(*types.Slice).Elem()
		return Value{T: ex.newSlice(st, et, l, c, nil, w.sortOf(in.Type()))}
	case *ssa.MakeMap:
		r := ex.newRef(st)
		mt := in.Type().Underlying().(*types.Map)
		dn, vn, ds, vs := w.mapComps(mt)
		w.compSorts[dn], w.compSorts[vn] = ds, vs
		st.comps[dn] = mkStore(st.comp(dn, ds), r, mk("(as const "+ds.Elem.Name+")", ds.Elem, tFalse))
		return Value{T: r}.withSort(w.sortOf(in.Type()))
	case *ssa.MakeInterface:
		x := ex.get(fr, in.X, st)
		return ex.makeIface(st, x, in.X.Type(), w.sortOf(in.Type()))
	case *ssa.MakeClosure:
		v := Value{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			v.Bind = append(v.Bind, ex.get(fr, b, st))
		}
		return v
	case *ssa.ChangeType:
		x := ex.get(fr, in.X, st)
		if x.T != nil {
			x.T = resort(x.T, w.sortOf(in.Type()))
		}
		return x
	case *ssa.ChangeInterface:
		x := ex.get(fr, in.X, st)
		if x.T != nil && x.T.S == sRType && w.sortOf(in.Type()) == sIface {
			return Value{T: mk("box!reflect.Type", sIface, x.T)}
		}
		return x
	case *ssa.Convert:
		return ex.convert(st, fr, ex.get(fr, in.X, st), in.X.Type(), in.Type(), pos)
	case *ssa.Extract:
		x := ex.get(fr, in.Tuple, st)
		if x.Tup == nil || in.Index >= len(x.Tup) {
			return Value{Bad: "extract from " + x.Bad}
		}
		return x.Tup[in.Index]
	case *ssa.Range:
		x := ex.get(fr, in.X, st)
		ex.cellctr++
		id := ex.cellctr
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			ex.lockMap(st, fr, mt, x.T, false, pos)
			ks := arrSort(w.sortOf(mt.Key()), sBool)
			st.cells[id] = Value{T: mk("(as const "+ks.Name+")", ks, tFalse)}
			st.ctyp[id] = nil
			return Value{Tup: []Value{x, {P: &Ptr{Kind: "cell", Cell: id}}}}
		}
		st.cells[id] = Value{T: lit(0)}
		st.ctyp[id] = types.Typ[types.Int]
		return Value{Tup: []Value{x, {P: &Ptr{Kind: "cell", Cell: id}}}}
	case *ssa.Next:
		r := ex.get(fr, in.Iter, st)
		if len(r.Tup) != 2 {
			return Value{Bad: "range"}
		}
		id := r.Tup[1].P.Cell
		if in.IsString {
			s := r.Tup[0].T
			i := st.cells[id].T
			ok := mkLt(i, mkBlen(s))
			wd := mk("rune_width", sInt, s, i)
			st.assume(mkAnd(mkLe(lit(1), wd), mkLe(wd, lit(4))))
			st.cells[id] = Value{T: mkAdd(i, wd)}
			ru := mk("rune_at", sInt, s, i)
			return Value{Tup: []Value{{T: ok}, {T: i}, {T: ru}}}
		}
		rg := in.Iter.(*ssa.Range)
		mt := rg.X.Type().Underlying().(*types.Map)
		m := r.Tup[0].T
		ex.lockMap(st, fr, mt, m, false, pos)
		dn, vn, ds, vs := w.mapComps(mt)
		seen := st.cells[id].T
		ok := fresh("ok", sBool)
		k := ex.freshVal(st, "key", mt.Key())
		dom := mkSelect(st.comp(dn, ds), m)
		st.assume(mkImp(ok, mkAnd(mkNot(mkEq(m, lit(0))), mkSelect(dom, k.T), mkNot(mkSelect(seen, k.T)))))
		kv := sym("k?r", w.sortOf(mt.Key()))
		st.assume(mkImp(mkNot(ok), mkOr(mkEq(m, lit(0)), mkForall([]*Term{kv}, [][]*Term{{mk("select", sBool, dom, kv)}}, mkImp(mk("select", sBool, dom, kv), mk("select", sBool, seen, kv))))))
		st.cells[id] = Value{T: mkIte(ok, mkStore(seen, k.T, tTrue), seen)}
		v := mkSelect(mkSelect(st.comp(vn, vs), m), k.T)
		ex.typeFacts(st, v, mt.Elem())
		return Value{Tup: []Value{{T: ok}, k, {T: v}}}
	case *ssa.Phi:
		return Value{Bad: "phi"}
	}
	return Value{Bad: fmt.Sprintf("value %T", in)}
}

func resort(t *Term, s *Sort) *Term {
	if t.S == s || t.S.Name != s.Name || t.Op == "#" {
		return t
	}
	if t.Op == "ite" {
		return mk("ite", s, t.Args[0], resort(t.Args[1], s), resort(t.Args[2], s))
	}
	return intern(&Term{Op: t.Op, Args: t.Args, S: s, Q: t.Q})
}

func (v Value) withSort(s *Sort) Value { return v }

func (ex *Exec) newSlice(st *State, et types.Type, l, c, content *Term, s *Sort) *Term {
	w := ex.w
	r := ex.newRef(st)
	cn, cs := w.elemComp(et)
	w.compSorts[cn] = cs
	if content == nil {
		if cn == "BMEM" {
			content = mk("bzeros", sBytes, c)
		} else {
			content = mk("(as const "+cs.Elem.Name+")", cs.Elem, w.zero(et))
		}
	}
	st.comps[cn] = mkStore(st.comp(cn, cs), r, content)
	return mk("mk.Slice", s, r, lit(0), l, c)
}

func (ex *Exec) slice(st *State, fr *Frame, in *ssa.Slice) Value {
	w := ex.w
	pos := in.Pos()
	x := ex.get(fr, in.X, st)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return ex.get(fr, v, st).T
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if in.Low == nil {
		lo = lit(0)
	}
	if lo == nil || in.High != nil && hi == nil || in.Max != nil && mx == nil {
		return Value{Bad: "slice bounds"}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if x.T == nil {
			return Value{Bad: "slice of " + x.Bad}
		}
		c := sliceCap(x.T)
		if hi == nil {
			hi = sliceLen(x.T)
			ex.check(st, fr, mkAnd(mkLe(lit(0), lo), mkLe(lo, hi)), "safe", "slice", pos)
		} else if mx != nil {
			ex.check(st, fr, mkAnd(mkLe(lit(0), lo), mkLe(lo, hi), mkLe(hi, mx), mkLe(mx, c)), "safe", "slice", pos)
			c = mx
		} else {
			ex.check(st, fr, mkAnd(mkLe(lit(0), lo), mkLe(lo, hi), mkLe(hi, c)), "safe", "slice", pos)
		}
		return Value{T: mk("mk.Slice", x.T.S, sliceRef(x.T), mkAdd(sliceOff(x.T), lo), mkSub(hi, lo), mkSub(c, lo))}
	case *types.Basic: // string
		if hi == nil {
			hi = mkBlen(x.T)
		}
		ex.check(st, fr, mkAnd(mkLe(lit(0), lo), mkLe(lo, hi), mkLe(hi, mkBlen(x.T))), "safe", "slice", pos)
		return Value{T: mkSub3(x.T, lo, mkSub(hi, lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n := lit(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if mx != nil {
			c = mx
		}
		ex.check(st, fr, mkAnd(mkLe(lit(0), lo), mkLe(lo, hi), mkLe(hi, c), mkLe(c, n)), "safe", "slice", pos)
		s := w.sortOf(in.Type())
		if x.P != nil && x.P.Kind == "arr" {
			return Value{T: mk("mk.Slice", s, x.P.Ref, lo, mkSub(hi, lo), mkSub(c, lo))}
		}
		if x.P != nil && isByteType(at.Elem()) {
			v := ex.load(st, fr, x, u.Elem(), pos)
			if v.T == nil {
				return v
			}
			r := ex.newRef(st)
			cs := arrSort(sInt, sBytes)
			st.comps["BMEM"] = mkStore(st.comp("BMEM", cs), r, v.T)
			st.assume(mkEq(mkBlen(v.T), n))
			st.frozenRefs[r] = true
			return Value{T: mk("mk.Slice", s, r, lo, mkSub(hi, lo), mkSub(c, lo))}
		}
	}
	return Value{Bad: "slice of " + in.X.Type().String()}
}

func (ex *Exec) typeConst(t types.Type) *Term {
	return mk("T!"+ex.w.typeName(t), sRType)
}

func (ex *Exec) makeIface(st *State, x Value, ty types.Type, target *Sort) Value {
	w := ex.w
	if target == sRType {
		return Value{T: x.T, Dyn: &Dyn{ty, x}}
	}
	d := &Dyn{ty, x}
	t := ex.asTerm(x)
	name := w.boxName(ty)
	if t == nil {
		// pointer to a local: opaque box
		b := fresh("boxed", sIface)
		st.assume(mkNot(mkEq(b, mk("inil", sIface))))
		st.assume(mkEq(mk("itype", sRType, b), ex.typeConst(ty)))
		return Value{T: b, Dyn: d}
	}
	boxSorts[name] = t.S
	if t.S.Name == "Int" {
		boxSorts[name] = sInt
	}
	boxNames[name] = w.typeName(ty)
	return Value{T: mk("box!"+name, sIface, t), Dyn: d}
}

func (w *World) boxName(ty types.Type) string { return sani(w.typeName(ty)) }

func (ex *Exec) convert(st *State, fr *Frame, x Value, from, to types.Type, pos token.Pos) Value {
	w := ex.w
	if x.T == nil {
		return x
	}
	_, _, fi := intRange(from)
	_, _, ti := intRange(to)
	fs, ts := w.sortOf(from), w.sortOf(to)
	switch {
	case fi && ti:
		return Value{T: wrap(x.T, to)}
	case fs.Name == "Slice" && ts == sBytes && isByteType(from.Underlying().(*types.Slice).Elem()):
		return Value{T: w.sliceBytes(st, x.T)}
	case fs == sBytes && ts.Name == "Slice" && isByteType(to.Underlying().(*types.Slice).Elem()):
		l := mkBlen(x.T)
		return Value{T: ex.newSlice(st, to.Underlying().(*types.Slice).Elem(), l, l, x.T, ts)}
	case fs == sFlt && ts == sFlt:
		fb, tb := from.Underlying().(*types.Basic).Kind(), to.Underlying().(*types.Basic).Kind()
		if fb == tb {
			return x
		}
		if tb == types.Float32 {
			return Value{T: mk("f64to32", sFlt, x.T)}
		}
		return Value{T: mk("f32to64", sFlt, x.T)}
	case fs == sFlt && ti, fi && ts == sFlt:
		t := mk("fconv."+w.typeName(from)+"."+w.typeName(to), ts, x.T)
		ex.typeFacts(st, t, to)
		return Value{T: t}
	case fi && ts == sBytes:
		return Value{T: mk("rune_to_string", sBytes, x.T)}
	case fs.Name == ts.Name:
		return Value{T: resort(x.T, ts)}
	}
	return Value{Bad: fmt.Sprintf("conversion %v to %v", from, to)}
}

func (ex *Exec) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert) {
	w := ex.w
	x := ex.get(fr, in.X, st)
	pos := in.Pos()
	if x.T == nil {
		fr.env[in] = Value{Bad: "type assertion on " + x.Bad}
		return
	}
	set := func(v Value, ok *Term) {
		if in.CommaOk {
			fr.env[in] = Value{Tup: []Value{v, {T: ok}}}
			return
		}
		ex.check(st, fr, ok, "safe", "type assertion", pos)
		fr.env[in] = v
	}
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	if x.Dyn != nil {
		if toIface {
			ok := types.Implements(x.Dyn.Typ, in.AssertedType.Underlying().(*types.Interface))
			set(x, mkBool(ok))
		} else {
			ok := types.Identical(x.Dyn.Typ, in.AssertedType)
			v := x.Dyn.V
			if !ok {
				v = Value{T: w.zero(in.AssertedType)}
			}
			set(v, mkBool(ok))
		}
		return
	}
	if toIface {
		ok := mkAnd(mkNot(mkEq(x.T, mk("inil", sIface))), mk("implements", sBool, mk("itype", sRType, x.T), ex.typeConst(in.AssertedType)))
		v := Value{T: mkIte(ok, x.T, mk("inil", sIface))}.orPlain(in.CommaOk, x.T)
		if !in.CommaOk {
			v.Org = x.Org
		}
		set(v, ok)
		return
	}
	ok := mkEq(mk("itype", sRType, x.T), ex.typeConst(in.AssertedType))
	s := w.sortOf(in.AssertedType)
	name := w.boxName(in.AssertedType)
	bs := s
	if s.Name == "Int" {
		bs = sInt
	}
	boxSorts[name] = bs
	boxNames[name] = w.typeName(in.AssertedType)
	u := mk("unbox!"+name, s, x.T)
	ex.typeFacts(st, u, in.AssertedType)
	v := u
	if in.CommaOk {
		v = mkIte(ok, u, w.zero(in.AssertedType))
	}
	set(Value{T: v}, ok)
}

func (v Value) orPlain(commaOk bool, t *Term) Value {
	if commaOk {
		return v
	}
	return Value{T: t}
}
