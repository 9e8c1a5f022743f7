package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const ctrStep = 1000
const loopStep = 100000

type cont func(*State, *Frame, []Value)

// ---------- calls ----------

func (ex *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, instr ssa.Instruction, k cont) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, ex.get(fr, a, st))
	}
	ex.callValue(st, fr, c, ex.get(fr, c.Value, st), args, instr, k)
}

func (ex *Exec) callValue(st *State, fr *Frame, c *ssa.CallCommon, fn Value, args []Value, instr ssa.Instruction, k cont) {
	pos := instr.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		ex.builtin(st, fr, b, c, args, instr, k)
		return
	}
	sig := c.Signature()
	if c.IsInvoke() {
		recv := fn
		all := append([]Value{recv}, args...)
		if recv.Dyn != nil {
			if m := ex.w.prog.LookupMethod(recv.Dyn.Typ, c.Method.Pkg(), c.Method.Name()); m != nil {
				all[0] = recv.Dyn.V
				ex.callFn(st, fr, m, ex.w.funcKey(m), sig, all, nil, instr, k)
				return
			}
		}
		key := ""
		if n, ok := c.Value.Type().(interface{ Obj() *types.TypeName }); ok { // a named type or an alias of one
			if n.Obj().Pkg() != nil {
				key = n.Obj().Pkg().Path() + "."
			}
			key += "(" + n.Obj().Name() + ")." + c.Method.Name()
		} else {
			key = "(interface)." + c.Method.Name()
		}
		if recv.T != nil && recv.T.S == sIface {
			ex.check(st, fr, mkNot(mkEq(recv.T, mk("inil", sIface))), "safe", "nil interface call", pos)
		}
		if recv.T != nil && recv.T.S == sRType {
			ex.check(st, fr, mkNot(mkEq(recv.T, mk("rt_nil", sRType))), "safe", "nil type", pos)
		}
		ex.callFn(st, fr, nil, key, sig, all, nil, instr, k)
		return
	}
	if f := c.StaticCallee(); f != nil {
		ex.callFn(st, fr, f, ex.w.funcKey(f), sig, args, fn.Bind, instr, k)
		return
	}
	if fn.Fn != nil {
		ex.callFn(st, fr, fn.Fn, ex.w.funcKey(fn.Fn), sig, args, fn.Bind, instr, k)
		return
	}
	if ex.lk != nil {
		ex.oblig(st, "lock", "call of a function value", []string{ex.lk.spec.Prop + ":balance"}, ex.lockNone(st), fr, pos)
		ex.lockHavoc(st, fr, sig, args, pos, "call of a function value", k)
		return
	}
	ex.unsupported(st, fr, "call of a function value", pos)
}

func (ex *Exec) callFn(st *State, fr *Frame, fn *ssa.Function, key string, sig *types.Signature, args []Value, bind []Value, instr ssa.Instruction, k cont) {
	pos := instr.Pos()
	if _, ok := lockOps[key]; ok && ex.lk == nil {
		ex.assumed["what a mutex guards is only changed by its holder (checked in lock mode)"] = true
		k(st, fr, nil)
		return
	}
	if ex.lk != nil && ex.lockCall(st, fr, fn, key, sig, args, instr, k) {
		return
	}
	for i, a := range args {
		if a.Bad != "" {
			ex.unsupported(st, fr, fmt.Sprintf("argument %d of %s: %s", i+1, key, a.Bad), pos)
			return
		}
	}
	if ex.lk == nil && ex.throughPointer(st, fr, key, sig, args, instr, k) {
		return
	}
	c := ex.w.contracts[key]
	if v := ex.w.contracts[key+"#"+ex.c.Variant]; ex.c.Variant != "" && v != nil {
		c = v
	}
	if c != nil && !c.Inline {
		ex.used[c.Key] = true
		if key == "reflect.(Value).Interface" {
			kk := k
			k = func(s *State, f *Frame, vals []Value) {
				vals[0].Org = args[0].T
				kk(s, f, vals)
			}
		}
		ex.applyContract(st, fr, c, fn, sig, args, instr, k)
		return
	}
	if (key == "sort.Slice" || key == "sort.SliceStable") && len(args) == 2 && args[1].Fn != nil && ex.lk == nil {
		ex.sortSlice(st, fr, args, instr, k)
		return
	}
	if fn == nil || len(fn.Blocks) == 0 {
		ex.unsupported(st, fr, "no contract for external "+key, pos)
		return
	}
	if fr.depth > 12 {
		ex.unsupported(st, fr, "inlining too deep at "+key, pos)
		return
	}
	for _, f := range fr.stack {
		if f == fn {
			ex.unsupported(st, fr, "recursion without contract: "+key, pos)
			return
		}
	}
	ex.inlined[key] = true
	caller := fr
	nf := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*LoopCtx{}, depth: fr.depth + 1, vars: map[string]dbg{},
		path: fmt.Sprintf("%s/%s@%d", fr.path, key, posLine(ex.w, pos)), li: loopsOf(fn), stack: append(fr.stack[:len(fr.stack):len(fr.stack)], fn)}
	for i, p := range fn.Params {
		a := args[i]
		if a.T != nil {
			a.T = resort(a.T, ex.w.sortOf(p.Type()))
		}
		nf.env[p] = a
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			nf.env[fv] = bind[i]
		}
	}
	nf.ret = func(s *State, vals []Value) { k(s, caller.clone(), vals) }
	nf.pan = func(s *State, why string, p token.Pos) { ex.doPanic(s, caller.clone(), why, p) }
	ex.run(st, nf, fn.Blocks[0], 0)
}

// throughPointer: calls that write through a pointer held in an interface.
// If the pointer's type and target are known, the contract is that of KEY:TYPE,
// a function of (data, what is there before) with the results (what is there
// afterwards, err); if the interface was made by reflect's Value.Interface, it is
// that of KEY:reflect, a function of the data and that Value (for methods, of the
// Value and the data).
func (ex *Exec) throughPointer(st *State, fr *Frame, key string, sig *types.Signature, args []Value, instr ssa.Instruction, k cont) bool {
	at, dat := 1, 0
	switch key {
	case "encoding/json.Unmarshal":
	case "encoding/json.(Unmarshaler).UnmarshalJSON":
		at, dat = 0, 1
	default:
		return false
	}
	if len(args) != 2 {
		return false
	}
	pos := instr.Pos()
	w := ex.w
	x, data := args[at], args[dat]
	if x.Org != nil {
		c := w.contracts[key+":reflect"]
		if c == nil {
			return false
		}
		ex.used[c.Key] = true
		a := []Value{data, {T: x.Org}}
		if at == 0 {
			a = []Value{{T: x.Org}, data}
		}
		ex.applyContract(st, fr, c, nil, sig, a, instr, k)
		return true
	}
	if x.Dyn == nil || at == 0 {
		return false
	}
	pt, ok := x.Dyn.Typ.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	c := w.contracts[key+":"+w.typeName(pt.Elem())]
	if c == nil {
		ex.unsupported(st, fr, "no contract for "+key+":"+w.typeName(pt.Elem()), pos)
		return true
	}
	ex.used[c.Key] = true
	v := ex.load(st, fr, x.Dyn.V, pt.Elem(), pos)
	v.Srt = w.sortOf(pt.Elem())
	if v.T == nil {
		ex.unsupported(st, fr, "target of "+key+": "+v.Bad, pos)
		return true
	}
	res := types.NewTuple(types.NewVar(pos, nil, "r", pt.Elem()), types.NewVar(pos, nil, "err", types.Universe.Lookup("error").Type()))
	fsig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(pos, nil, "data", sig.Params().At(0).Type()), types.NewVar(pos, nil, "v", pt.Elem())), res, false)
	ex.applyContract(st, fr, c, nil, fsig, []Value{data, v}, instr, func(s *State, f *Frame, vals []Value) {
		ex.store(s, f, x.Dyn.V, vals[0], pt.Elem(), pos)
		k(s, f, vals[1:])
	})
	return true
}

// sortSlice: the contract of sort.Slice.  The elements afterwards are those
// before in another order, and less, executed here for any two of them, puts
// none before an earlier one.
func (ex *Exec) sortSlice(st *State, fr *Frame, args []Value, instr ssa.Instruction, k cont) {
	pos := instr.Pos()
	w := ex.w
	if args[0].Dyn == nil || args[0].Dyn.V.T == nil || args[0].Dyn.V.T.S.Name != "Slice" {
		ex.unsupported(st, fr, "sort of what is no slice", pos)
		return
	}
	s := args[0].Dyn.V.T
	sl, ok := args[0].Dyn.Typ.Underlying().(*types.Slice)
	if !ok {
		ex.unsupported(st, fr, "sort of what is no slice", pos)
		return
	}
	cn, cs := w.elemComp(sl.Elem())
	if cn == "BMEM" {
		ex.unsupported(st, fr, "sort of bytes", pos)
		return
	}
	ex.assumed["sort.Slice permutes the elements and sorts them by less (a strict weak order)"] = true
	ex.sortctr++
	id := fmt.Sprintf("%d", ex.sortctr)
	old := mkSelect(st.comp(cn, cs), sliceRef(s))
	nw := sym("sorted."+id, cs.Elem)
	st.comps[cn] = mkStore(st.comp(cn, cs), sliceRef(s), nw)
	lo, n := sliceOff(s), sliceLen(s)
	i, j := sym("srt!i?", sInt), sym("srt!j?", sInt)
	in := func(x *Term) *Term { return mkAnd(mkLe(lo, x), mkLt(x, mkAdd(lo, n))) }
	to := func(x *Term) *Term { return mk("srt!to."+id, sInt, x) }
	from := func(x *Term) *Term { return mk("srt!from."+id, sInt, x) }
	st.assume(mkForall([]*Term{i}, [][]*Term{{mkSelect(nw, i)}}, mkImp(in(i), mkAnd(in(from(i)), mkAnd(mkEq(mkSelect(nw, i), mkSelect(old, from(i))), mkEq(to(from(i)), i))))))
	st.assume(mkForall([]*Term{i}, [][]*Term{{mkSelect(old, i)}}, mkImp(in(i), mkAnd(in(to(i)), mkAnd(mkEq(mkSelect(nw, to(i)), mkSelect(old, i)), mkEq(from(to(i)), i))))))
	st.assume(mkForall([]*Term{i}, [][]*Term{{mkSelect(nw, i)}}, mkImp(mkNot(in(i)), mkEq(mkSelect(nw, i), mkSelect(old, i)))))
	s2 := st.clone()
	a, b := sym("srt.a."+id, sInt), sym("srt.b."+id, sInt)
	for _, x := range []*Term{a, b} {
		s2.assume(mkAnd(mkLe(lit(0), x), mkLt(x, n)))
	}
	var res []*Term
	less := args[1]
	ex.callFn(s2, fr.clone(), less.Fn, w.funcKey(less.Fn), less.Fn.Signature, []Value{{T: a}, {T: b}}, less.Bind, instr, func(s3 *State, f3 *Frame, vals []Value) {
		if len(vals) == 1 && vals[0].T != nil {
			res = append(res, vals[0].T)
		}
	})
	if len(res) != 1 {
		ex.unsupported(st, fr, "less of a sort with several paths", pos)
		return
	}
	lt := subst(res[0], map[*Term]*Term{a: mkSub(j, lo), b: mkSub(i, lo)})
	st.assume(mkForall([]*Term{i, j}, [][]*Term{{mkSelect(nw, i), mkSelect(nw, j)}}, mkImp(mkAnd(mkAnd(in(i), in(j)), mkLt(i, j)), mkNot(lt))))
	k(st, fr, nil)
}

func posLine(w *World, p token.Pos) int { return w.prog.Fset.Position(p).Line }

func exprHas(x *Expr, name string) bool {
	if x.Op == "id" && x.Name == name {
		return true
	}
	for _, y := range x.X {
		if exprHas(y, name) {
			return true
		}
	}
	return false
}

func resultNames(c *Contract, sig *types.Signature) []string {
	var rn []string
	for i := 0; i < sig.Results().Len(); i++ {
		n := sig.Results().At(i).Name()
		if i < len(c.Results) {
			n = c.Results[i]
		}
		if n == "" || n == "_" {
			n = "result"
			if sig.Results().Len() > 1 {
				n = fmt.Sprintf("r%d", i)
			}
		}
		rn = append(rn, n)
	}
	return rn
}

func paramNames(c *Contract, fn *ssa.Function, sig *types.Signature, nargs int) []string {
	if len(c.Params) > 0 {
		return c.Params
	}
	var pn []string
	if fn != nil && len(fn.Params) == nargs {
		for _, p := range fn.Params {
			pn = append(pn, p.Name())
		}
		return pn
	}
	if sig.Params().Len() == nargs-1 {
		pn = append(pn, "recv")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pn = append(pn, sig.Params().At(i).Name())
	}
	return pn
}

func (ex *Exec) specCatch(st *State, fr *Frame, pos token.Pos, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(specErr); is {
				ex.unsupported(st, fr, "specification error: "+e.msg, pos)
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func addLets(ev *Eval, c *Contract) {
	for _, l := range c.Lets {
		ev.env[l.Name] = ev.val(l.E)
	}
}

func (ex *Exec) havocTarget(st *State, ev *Eval, target string, argv map[string]Value) {
	w := ex.w
	name, arg := target, ""
	if j := strings.Index(target, "("); j > 0 {
		name, arg = target[:j], target[j+1:len(target)-1]
	}
	if name == "cell" {
		v := argv[arg]
		if v.P == nil || v.P.Kind != "cell" || len(v.P.Path) > 0 {
			panic(specErr{"modifies cell of a non-local pointer " + arg})
		}
		st.cells[v.P.Cell] = ex.freshVal(st, arg, st.ctyp[v.P.Cell])
		return
	}
	if name == "*" {
		st.havocAll()
		return
	}
	if name == "mapof" || name == "mapsof" {
		dn, vn, r := ev.mapTarget(target)
		for _, n := range []string{dn, vn} {
			so, _ := w.compSortByName(n)
			if name == "mapsof" {
				st.comps[n] = fresh("H."+n, so)
			} else {
				st.comps[n] = mkStore(st.comp(n, so), r, fresh("H."+n, so.Elem))
			}
		}
		return
	}
	if arg == "" {
		if name == "M" {
			st.comps["M"] = fresh("M", w.sorts["Mem"])
			return
		}
		so, ok := w.compSortByName(name)
		if !ok {
			if g, isg := w.root.Scope().Lookup(strings.TrimPrefix(name, "G.")).(*types.Var); isg {
				so = w.sortOf(g.Type())
			} else {
				panic(specErr{"unknown component " + name})
			}
		}
		st.comps[name] = fresh("H."+name, so)
		return
	}
	a := ev.term(&Expr{Op: "id", Name: arg})
	switch name {
	case "OUT":
		key := ev.widOf(a)
		so := arrSort(sInt, sBytes)
		st.comps["OUT"] = mkStore(st.comp("OUT", so), key, fresh("out", sBytes))
		return
	case "BMEM":
		so := arrSort(sInt, sBytes)
		r := sliceRef(a)
		n := fresh("mem", sBytes)
		st.assume(mkEq(mkBlen(n), mkBlen(mkSelect(st.comp("BMEM", so), r))))
		st.comps["BMEM"] = mkStore(st.comp("BMEM", so), r, n)
		return
	}
	so, ok := w.compSortByName(name)
	if !ok {
		panic(specErr{"unknown component " + name})
	}
	if a.S.Name == "Slice" {
		a = sliceRef(a)
	}
	st.comps[name] = mkStore(st.comp(name, so), a, fresh("H."+name, so.Elem))
}

// measure: the measure of the callee is below the one of this function at
// its entry, and not negative.
func (ex *Exec) measure(st *State, fr *Frame, c *Contract, fn *ssa.Function, ev *Eval, pos token.Pos) {
	if c.Dec == nil {
		if r := ex.w.recurses(fn, map[*ssa.Function]bool{}); r != "" {
			ex.oblig(st, "decreases", c.Key+" has no measure but calls "+r, ex.c.DecWhen.Labels, mkNot(ex.decWhen), fr, pos)
		}
		return
	}
	if len(c.Dec) != len(ex.dec) {
		ex.oblig(st, "decreases", c.Key+": measures differ in length", ex.c.DecWhen.Labels, mkNot(ex.decWhen), fr, pos)
		return
	}
	less := tFalse
	nonneg := tTrue
	for i := len(c.Dec) - 1; i >= 0; i-- {
		m := ev.term(c.Dec[i])
		less = mkOr(mkLt(m, ex.dec[i]), mkAnd(mkEq(m, ex.dec[i]), less))
		nonneg = mkAnd(mkLe(lit(0), m), nonneg)
	}
	s2 := st.clone()
	s2.assume(ex.decWhen)
	if s2.dead() {
		return
	}
	ex.oblig(s2, "decreases", c.Key, ex.c.DecWhen.Labels, mkAnd(ev.bool(c.DecWhen.E), less, nonneg), fr, pos)
}

// counts: the loop goes from an integer up to a fixed one (i < n, i += 1).
func counts(h *ssa.BasicBlock) bool {
	f, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := f.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != h {
		return false
	}
	ph, ok := c.X.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return false
	}
	fixed := func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		case ssa.Instruction:
			return v.Block() != h && v.Block().Dominates(h)
		}
		return false
	}
	n := c.Y
	if call, ok := n.(*ssa.Call); ok && !fixed(n) {
		if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
			return false
		}
		if _, ok := call.Call.Args[0].Type().Underlying().(*types.Map); ok {
			return false
		}
		n = call.Call.Args[0]
	}
	if !fixed(n) {
		return false
	}
	for i, e := range ph.Edges {
		if !h.Dominates(h.Preds[i]) {
			continue
		}
		a, ok := e.(*ssa.BinOp)
		if !ok || a.Op != token.ADD || a.X != ph {
			return false
		}
		if k, ok := a.Y.(*ssa.Const); !ok || k.Value == nil || k.Value.ExactString() != "1" {
			return false
		}
	}
	return h.Dominates(f.Block().Succs[0])
}

// recurses: a function with a measure that fn may call.
func (w *World) recurses(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if fn == nil || seen[fn] {
		return ""
	}
	seen[fn] = true
	if c := w.contracts[w.funcKey(fn)]; c != nil && c.Dec != nil {
		return c.Key
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			var ops [12]*ssa.Value
			for _, o := range i.Operands(ops[:0]) {
				if f, ok := (*o).(*ssa.Function); ok && f.Pkg != nil && w.inRepo[f.Pkg.Pkg] {
					if r := w.recurses(f, seen); r != "" {
						return r
					}
				}
			}
			if m, ok := i.(*ssa.MakeClosure); ok {
				if f, ok := m.Fn.(*ssa.Function); ok {
					if r := w.recurses(f, seen); r != "" {
						return r
					}
				}
			}
		}
	}
	return ""
}

func (ex *Exec) applyContract(st *State, fr *Frame, c *Contract, fn *ssa.Function, sig *types.Signature, args []Value, instr ssa.Instruction, k cont) {
	pos := instr.Pos()
	w := ex.w
	pn := paramNames(c, fn, sig, len(args))
	rn := resultNames(c, sig)
	env := map[string]Value{}
	for i, a := range args {
		if i < len(pn) {
			if t := ex.asTerm(a); t != nil && a.T == nil {
				// keep the pointer's sort for field access
				pt := types.Type(nil)
				if fn != nil && len(fn.Params) == len(args) {
					pt = fn.Params[i].Type()
				}
				if pt != nil {
					t = resort2(t, w.sortOf(pt))
				}
				a.T = t
			}
			if fn != nil && len(fn.Params) == len(args) {
				a.Srt = w.sortOf(fn.Params[i].Type())
			}
			env[pn[i]] = a
		}
	}
	st.escape(args)
	pre := st.clone()
	ev := &Eval{w: w, env: env, cur: st, old: pre, oldCtr: pre.ctr, where: c.Key}
	ok := ex.specCatch(st, fr, pos, func() {
		addLets(ev, c)
		for i, r := range c.Requires {
			g := ev.bool(r.E)
			n := r.Name
			if n == "" {
				n = fmt.Sprint(i + 1)
			}
			ex.oblig(st, "pre", c.Key+":"+n, r.Labels, g, fr, pos)
			st.assume(g)
		}
	})
	if !ok || st.dead() {
		return
	}
	pre = st.clone()
	ev.old = pre
	ev.oldEnv = env
	if ex.dec != nil && ex.lk == nil && fn != nil {
		if !ex.specCatch(st, fr, pos, func() { ex.measure(st, fr, c, fn, ev, pos) }) {
			return
		}
	}
	// panics
	mp := tFalse
	if !ex.specCatch(st, fr, pos, func() {
		for _, m := range c.MayPanic {
			mp = mkOr(mp, ev.bool(m.E))
		}
	}) {
		return
	}
	if mp != tFalse && !st.pcset[mkNot(mp)] {
		if ex.c.onPanic() || ex.may != tTrue {
			if ex.c.onPanic() {
				s2 := st.clone()
				s2.assume(mp)
				if ex.feasible(s2) {
					f2 := fr.clone()
					ev2 := *ev
					ev2.cur = s2
					s2.ctr += ctrStep
					if !ex.specCatch(s2, f2, pos, func() {
						if !c.Atomic {
							for _, m := range c.Modifies {
								ex.havocTarget(s2, &ev2, m, env)
							}
						}
						for _, o := range c.OnPanic {
							if !usesCalls(o.E) {
								s2.assume(ev2.bool(o.E))
							}
						}
						s2.calls = append(s2.calls[:len(s2.calls):len(s2.calls)], CallRec{Key: c.Key, Args: args, Panicked: true, Pre: pre})
					}) {
						return
					}
					ex.doPanic(s2, f2, "panic in "+c.Key, pos)
				}
			} else {
				ex.oblig(st, "safe", "panic in "+c.Key, nil, mkOr(mkNot(mp), ex.may), fr, pos)
				if ex.may == tFalse {
					st.assume(mkNot(mp))
				}
			}
		}
	}
	// effects
	st.ctr += ctrStep
	var vals []Value
	if !ex.specCatch(st, fr, pos, func() {
		ev.cur = st
		for _, m := range c.Modifies {
			ex.havocTarget(st, ev, m, env)
		}
		penv := map[string]Value{}
		for kk, v := range env {
			penv[kk] = v
		}
		ev.env = penv
		used := map[int]bool{}
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			var v Value
			for ci, e := range c.Ensures {
				x := e.E
				if usesCalls(x) {
					continue
				}
				if x.Op == "bin" && (x.Name == "==" || x.Name == "<=>" || x.Name == "<==>") && x.X[0].Op == "id" && x.X[0].Name == rn[i] {
					bad := false
					for j := i; j < len(rn); j++ {
						bad = bad || exprHas(x.X[1], rn[j])
					}
					if bad {
						continue
					}
					t := ev.term(x.X[1])
					if t == tNil {
						t = nilOf(w.sortOf(rt))
						if t.S.Name == "Slice" {
							continue
						}
					}
					if t.S.Name != w.sortOf(rt).Name {
						panic(specErr{fmt.Sprintf("%s: result %s has sort %s, want %s", x.Pos, rn[i], t.S.Name, w.sortOf(rt).Name)})
					}
					v = Value{T: resort2(t, w.sortOf(rt))}
					ex.typeFacts(st, v.T, rt)
					used[ci] = true
					break
				}
			}
			if v.T == nil {
				v = ex.freshVal(st, rn[i], rt)
			}
			vals = append(vals, v)
			v.Srt = w.sortOf(rt)
			penv[rn[i]] = v
			v.Srt = nil
		}
		for ci, e := range c.Ensures {
			if !used[ci] && !usesCalls(e.E) {
				st.assume(ev.bool(e.E))
			}
		}
	}) {
		return
	}
	st.calls = append(st.calls[:len(st.calls):len(st.calls)], CallRec{Key: c.Key, Args: args, Res: vals, Pre: pre})
	if st.dead() {
		return
	}
	k(st, fr, vals)
}

// usesCalls: the clause speaks of the calls made by the function itself, so
// it is checked where the function is verified and not assumed by its callers.
func usesCalls(x *Expr) bool {
	for _, n := range []string{"ncalls", "callres", "callarg", "panicked", "atcall"} {
		if exprCalls(x, n) {
			return true
		}
	}
	return false
}

func exprCalls(x *Expr, name string) bool {
	if x == nil {
		return false
	}
	if x.Op == "call" && x.Name == name {
		return true
	}
	for _, y := range x.X {
		if exprCalls(y, name) {
			return true
		}
	}
	return false
}

func resort2(t *Term, s *Sort) *Term {
	if t.Op == "#" {
		return t
	}
	return resort(t, s)
}

func (ex *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Value, instr ssa.Instruction, k cont) {
	w := ex.w
	pos := instr.Pos()
	bad := func(s string) {
		if ex.lk != nil {
			ex.lockHavoc(st, fr, c.Signature(), args, pos, "builtin "+b.Name(), k)
			return
		}
		ex.unsupported(st, fr, "builtin "+b.Name()+" "+s, pos)
	}
	one := func(t *Term) { k(st, fr, []Value{{T: t}}) }
	for _, a := range args {
		if a.Bad != "" {
			bad(a.Bad)
			return
		}
	}
	switch b.Name() {
	case "len", "cap":
		t := args[0].T
		if t == nil {
			bad("argument")
			return
		}
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "len" {
				one(sliceLen(t))
			} else {
				one(sliceCap(t))
			}
		case *types.Basic:
			one(mkBlen(t))
		case *types.Array:
			one(lit(u.Len()))
		case *types.Map:
			ex.lockMap(st, fr, u, t, false, pos)
			dn, _, ds, _ := w.mapComps(u)
			w.compSorts[dn] = ds
			r := mk("mapcard."+sani(w.typeName(u.Key())), sInt, mkSelect(st.comp(dn, ds), t))
			ex.mapcards["mapcard."+sani(w.typeName(u.Key()))] = ds.Elem
			st.assume(mkLe(lit(0), r))
			one(mkIte(mkEq(t, lit(0)), lit(0), r))
		default:
			bad("argument")
		}
		return
	case "copy":
		d, s := args[0].T, args[1].T
		if d == nil || s == nil {
			bad("argument")
			return
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if !isByteType(et) {
			bad("of non-bytes")
			return
		}
		var src *Term
		var sl *Term
		if s.S.Name == "Slice" {
			src, sl = w.sliceBytes(st, s), sliceLen(s)
		} else {
			src, sl = s, mkBlen(s)
		}
		n := mkIte(mkLe(sliceLen(d), sl), sliceLen(d), sl)
		if l := mkSub(sliceLen(d), sl); isLit(l) {
			if l.I.Sign() <= 0 {
				n = sliceLen(d)
			} else {
				n = sl
			}
		}
		if st.frozenRefs[sliceRef(d)] {
			bad("into a slice of a struct's array")
			return
		}
		cs := arrSort(sInt, sBytes)
		m := st.comp("BMEM", cs)
		st.comps["BMEM"] = mkStore(m, sliceRef(d), mk("bput", sBytes, mkSelect(m, sliceRef(d)), sliceOff(d), mkSub3(src, lit(0), n)))
		one(n)
		return
	case "append":
		s := args[0].T
		if s == nil || args[1].T == nil {
			bad("argument")
			return
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		a := args[1].T
		so := w.sortOf(c.Args[0].Type())
		if isByteType(et) {
			var ab, al *Term
			if a.S.Name == "Slice" {
				ab, al = w.sliceBytes(st, a), sliceLen(a)
			} else {
				ab, al = a, mkBlen(a)
			}
			content := mkCat(w.sliceBytes(st, s), ab)
			l := mkAdd(sliceLen(s), al)
			ex.assumed["append to a []byte is modelled as allocating (its argument's spare capacity is not shared)"] = true
			one(ex.newSlice(st, et, l, l, content, so))
			return
		}
		// modelled as a fresh array: prefix of s, then the elements of a
		cn, cs := w.elemComp(et)
		w.compSorts[cn] = cs
		m := st.comp(cn, cs)
		sa, aa := mkSelect(m, sliceRef(s)), mkSelect(m, sliceRef(a))
		off := lit(0)
		l := mkAdd(sliceLen(s), sliceLen(a))
		var content *Term
		if isLit(sliceLen(a)) && sliceLen(a).I.IsInt64() && sliceLen(a).I.Int64() <= 4 {
			// the fresh block keeps the offset: what lies before it cannot be seen
			off = sliceOff(s)
			content = sa
			for j := int64(0); j < sliceLen(a).I.Int64(); j++ {
				content = mkStore(content, mkAdd(mkAdd(off, sliceLen(s)), lit(j)), mkSelect(aa, mkAdd(sliceOff(a), lit(j))))
			}
		} else {
			content = fresh("app", cs.Elem)
			i := sym("i?a", sInt)
			sel := mk("select", cs.Elem.Elem, content, i)
			st.assume(mkForall([]*Term{i}, [][]*Term{{sel}}, mkAnd(
				mkImp(mkAnd(mkLe(lit(0), i), mkLt(i, sliceLen(s))), mkEq(sel, mkSelect(sa, mkAdd(sliceOff(s), i)))),
				mkImp(mkAnd(mkLe(sliceLen(s), i), mkLt(i, l)), mkEq(sel, mkSelect(aa, mkAdd(sliceOff(a), mkSub(i, sliceLen(s)))))))))
		}
		ex.assumed["append is modelled as allocating (its argument's spare capacity is not shared)"] = true
		r := ex.newRef(st)
		st.comps[cn] = mkStore(st.comp(cn, cs), r, content)
		one(mk("mk.Slice", so, r, off, l, l))
		return
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		ex.lockMap(st, fr, mt, args[0].T, true, pos)
		dn, _, ds, _ := w.mapComps(mt)
		w.compSorts[dn] = ds
		kt := ex.asTerm(args[1])
		st.comps[dn] = mkStore(st.comp(dn, ds), args[0].T, mkStore(mkSelect(st.comp(dn, ds), args[0].T), kt, tFalse))
		k(st, fr, nil)
		return
	case "print", "println":
		k(st, fr, nil)
		return
	case "min", "max":
		a, d := args[0].T, args[1].T
		if b.Name() == "min" {
			one(mkIte(mkLe(a, d), a, d))
		} else {
			one(mkIte(mkLe(d, a), a, d))
		}
		return
	case "recover":
		k(st, fr, []Value{{T: mk("inil", sIface)}})
		return
	case "ssa:wrapnilchk":
		k(st, fr, []Value{args[0]})
		return
	}
	bad("")
}

// ---------- loops ----------

func (ex *Exec) contractOf(fn *ssa.Function) *Contract { return ex.w.contracts[ex.w.funcKey(fn)] }

// resolver for names in loop specifications
func (ex *Exec) resolver(fr *Frame, st *State, hdr *ssa.BasicBlock, phis map[*ssa.Phi]Value) func(string) (Value, bool) {
	env := fr.env
	vars := fr.vars
	typed := func(v Value, t types.Type) Value {
		if v.T == nil && v.P != nil && v.P.Kind == "heap" {
			if x := ex.asTerm(v); x != nil {
				v.T = x
			}
		}
		v.Srt = ex.w.sortOf(t)
		return v
	}
	return func(name string) (Value, bool) {
		if name == "$seen" && hdr != nil { // the keys a range over a map has gone through
			for _, in := range hdr.Instrs {
				if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
					if r := fr.env[nx.Iter]; len(r.Tup) == 2 {
						return st.cells[r.Tup[1].P.Cell], true
					}
				}
			}
			return Value{}, false
		}
		for ph, v := range phis {
			if ph.Comment == name {
				return typed(v, ph.Type()), true
			}
		}
		for _, b := range fr.fn.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && a.Comment == name {
					if v, ok := env[a]; ok {
						et := a.Type().(*types.Pointer).Elem()
						return typed(ex.load(st, fr, v, et, token.NoPos), et), true
					}
				}
			}
		}
		body := fr.li.body[hdr]
		var best ssa.Value
		for pass := 0; pass < 2 && best == nil; pass++ {
			for _, b := range fr.fn.Blocks {
				if pass == 0 && !body[b] {
					continue
				}
				for _, in := range b.Instrs {
					d, ok := in.(*ssa.DebugRef)
					if !ok || d.IsAddr || d.Object() == nil || d.Object().Name() != name {
						continue
					}
					if vi, ok := d.X.(ssa.Instruction); ok {
						if vi.Block() == nil || !vi.Block().Dominates(hdr) || vi.Block() == hdr {
							continue
						}
						if _, ok := env[d.X]; !ok {
							continue
						}
					}
					best = d.X
				}
			}
		}
		if best != nil {
			return typed(ex.get(fr, best, st), best.Type()), true
		}
		for _, p := range fr.fn.Params {
			if p.Name() == name {
				return typed(env[p], p.Type()), true
			}
		}
		if d, ok := vars[name]; ok {
			if d.addr {
				return Value{}, false
			}
			return d.v, true
		}
		return Value{}, false
	}
}

func phiName(ph *ssa.Phi) string { return "phi." + ph.Name() + "." + ph.Comment }

func (ex *Exec) enterLoop(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	for h := range fr.loops {
		if !fr.li.body[h][to] {
			delete(fr.loops, h)
		}
	}
	ord := fr.li.headers[to]
	key := fmt.Sprintf("%s|%s|%d", fr.path, ex.w.funcKey(fr.fn), ord)
	var spec *LoopSpec
	if c := ex.contractOf(fr.fn); c != nil {
		spec = c.Loops[strconv.Itoa(ord)]
	}
	if spec == nil {
		spec = &LoopSpec{}
	}
	pos := to.Instrs[0].Pos()
	for _, in := range to.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	init := map[*ssa.Phi]Value{}
	np := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		np++
		init[ph] = ex.phiVal(st, fr, ph, from, to)
	}
	fr = fr.clone()
	if spec.Unroll > 0 {
		for ph, v := range init {
			fr.env[ph] = v
		}
		lc := &LoopCtx{key: key, ord: ord, spec: spec, iter: 1}
		fr.loops[to] = lc
		ex.run(st, fr, to, np)
		return
	}
	m := ex.mods[key]
	if m == nil {
		m = &LoopMods{vals: map[string]bool{}, full: map[string]bool{}, idx: map[string][]*Term{}, lin: map[string]*big.Int{}, nonlin: map[string]bool{}, nosl: map[string]bool{}, ghost: map[string]bool{}, calls: map[string]bool{}}
		ex.mods[key] = m
	}
	lc := &LoopCtx{key: key, ord: ord, spec: spec, phis: map[*ssa.Phi]Value{}, init: map[string]Value{}, cellName: map[int]string{}}
	// evaluation environments
	base := &Eval{w: ex.w, env: map[string]Value{}, old: ex.entry.cur, oldCtr: refBase}
	base.oldEnv = ex.entry.env
	if fr.depth > 0 {
		base.oldEnv = map[string]Value{}
		for _, p := range fr.fn.Params {
			base.oldEnv[p.Name()] = fr.env[p]
		}
	} else {
		for n, v := range ex.entry.env {
			if strings.HasPrefix(n, "let.") {
				base.env[strings.TrimPrefix(n, "let.")] = v
			}
		}
	}
	entrySt := st.clone()
	e0 := *base
	e0.cur = entrySt
	e0.resolve = ex.resolver(fr, entrySt, to, init)
	e0.env = copyEnv(base.env)
	e0.env["$k"] = Value{T: lit(0)}
	lc.entry = &e0
	e0c := e0
	e0.entry = &e0c
	lc.invs = ex.invariants(spec, fr)
	for i, inv := range lc.invs {
		if !ex.invariant(st, fr, pos, lc, inv, func() {
			ex.oblig(st, fmt.Sprintf("loop%d.init", ord), inv.name(i), inv.Labels, e0.bool(inv.E), fr, pos)
		}) {
			return
		}
	}
	// havoc
	lc.symAt = symctr
	lc.refAt = st.ctr
	st = st.clone()
	st.ctr += loopStep
	kk := fresh("k", sInt)
	setBounds(kk, big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62))
	st.assume(mkLe(lit(0), kk))
	st.assume(mkLt(kk, litB(new(big.Int).Lsh(big.NewInt(1), 62))))
	lc.k = kk
	havoc := func(name string, v Value, ty types.Type) (Value, bool) {
		if v.T == nil {
			if v.P != nil || v.Fn != nil || v.Tup != nil {
				return v, true // checked at the back edge
			}
			return v, v.Bad == ""
		}
		if d, ok := m.lin[name]; ok && !m.nonlin[name] {
			return Value{T: mkAdd(v.T, mkMul(litB(d), kk))}, true
		}
		if v.T.S.Name == "Slice" && !m.nosl[name] {
			o := fresh("off", sInt)
			setBounds(o, big.NewInt(0), maxLen)
			end := mkAdd(sliceOff(v.T), sliceLen(v.T))
			endc := mkAdd(sliceOff(v.T), sliceCap(v.T))
			st.assume(mkLe(lit(0), o))
			st.assume(mkLe(o, end))
			return Value{T: mk("mk.Slice", v.T.S, sliceRef(v.T), o, mkSub(end, o), mkSub(endc, o))}, true
		}
		t := fresh(name, v.T.S)
		if ty != nil {
			ex.typeFacts(st, t, ty)
		}
		return Value{T: t}, true
	}
	for _, in := range to.Instrs[:np] {
		ph := in.(*ssa.Phi)
		name := phiName(ph)
		lc.init[name] = init[ph]
		v, ok := havoc(name, init[ph], ph.Type())
		if !ok {
			ex.unsupported(st, fr, "loop variable "+ph.Comment+": "+init[ph].Bad, pos)
			return
		}
		lc.phis[ph] = v
		fr.env[ph] = v
	}
	var cids []int
	for id := range st.cells {
		cids = append(cids, id)
	}
	sort.Ints(cids)
	for i, id := range cids {
		name := fmt.Sprintf("cell%d", i)
		lc.cellName[id] = name
		if m.vals[name] {
			lc.init[name] = st.cells[id]
			v, ok := havoc(name, st.cells[id], st.ctyp[id])
			if !ok {
				ex.unsupported(st, fr, "loop variable (cell)", pos)
				return
			}
			st.cells[id] = v
		}
	}
	if m.full["*"] {
		st.havocAll()
	}
	for _, c := range sortedKeys(m.full) {
		if c == "*" {
			continue
		}
		if t, ok := st.comps[c]; ok {
			st.comps[c] = fresh("H."+c, t.S)
		} else if so, ok := ex.w.compSortByName(c); ok {
			st.comps[c] = fresh("H."+c, so)
		}
	}
	for _, c := range sortedKeys(m.idx) {
		if m.full[c] {
			continue
		}
		so, ok := ex.w.compSortByName(c)
		if t, has := st.comps[c]; has {
			so, ok = t.S, true
		}
		if !ok {
			continue
		}
		for _, ix := range m.idx[c] {
			nv := fresh("H."+c, so.Elem)
			if c == "BMEM" {
				st.assume(mkEq(mkBlen(nv), mkBlen(mkSelect(st.comp(c, so), ix))))
			}
			st.comps[c] = mkStore(st.comp(c, so), ix, nv)
		}
	}
	for g := range m.ghost {
		st.ghost[g] = fresh(g, st.ghost[g].S)
	}
	h := *base
	hs := st.clone()
	h.cur = hs
	h.resolve = ex.resolver(fr, hs, to, lc.phis)
	h.entry = lc.entry
	h.env = copyEnv(base.env)
	h.env["$k"] = Value{T: kk}
	for _, inv := range lc.invs {
		if !ex.invariant(st, fr, pos, lc, inv, func() { st.assume(h.bool(inv.E)) }) {
			return
		}
	}
	if spec.Dec == nil && ex.dec != nil && !strings.HasPrefix(to.Comment, "range") && !counts(to) {
		ex.oblig(st, fmt.Sprintf("loop%d.decreases", ord), "no variant", ex.c.DecWhen.Labels, mkNot(ex.decWhen), fr, pos)
	}
	if spec.Dec != nil {
		if !ex.specCatch(st, fr, pos, func() { lc.dec = h.term(spec.Dec) }) {
			return
		}
	}
	if st.dead() {
		return
	}
	if len(m.calls) > 0 {
		fz := map[string]bool{}
		for k := range st.fuzzy {
			fz[k] = true
		}
		for k := range m.calls {
			fz[k] = true
		}
		st.fuzzy = fz
	}
	lc.head = st.clone()
	lc.headEval = &h
	fr.loops[to] = lc
	ex.run(st, fr, to, np)
}

// invariants: those written for the loop; when looking for an inductive
// subset (houdini), also its candidates and those of the other loops.
func (ex *Exec) invariants(spec *LoopSpec, fr *Frame) []Clause {
	if ex.houdini == nil {
		return spec.Inv
	}
	cs := append(append([]Clause{}, spec.Inv...), spec.Cand...)
	seen := map[*Expr]bool{}
	for _, c := range cs {
		seen[c.E] = true
	}
	for _, c := range []*Contract{ex.contractOf(fr.fn), ex.c} {
		if c == nil {
			continue
		}
		for _, k := range sortedKeys(c.Loops) {
			for _, i := range append(append([]Clause{}, c.Loops[k].Inv...), c.Loops[k].Cand...) {
				if !seen[i.E] {
					seen[i.E] = true
					cs = append(cs, i)
				}
			}
		}
	}
	return cs
}

func (c Clause) name(i int) string {
	if c.Name != "" {
		return c.Name
	}
	return fmt.Sprint(i + 1)
}

// invariant: f evaluates an invariant; one that cannot be evaluated is an
// error or, when looking for an inductive subset, dropped.
func (ex *Exec) invariant(st *State, fr *Frame, pos token.Pos, lc *LoopCtx, inv Clause, f func()) bool {
	if ex.houdini == nil {
		return ex.specCatch(st, fr, pos, f)
	}
	key := lc.key + "|" + inv.E.Pos + "|" + inv.Pos
	if ex.houdini[key] {
		return true
	}
	ex.invKey = key
	defer func() {
		ex.invKey = ""
		if r := recover(); r != nil {
			if _, is := r.(specErr); !is {
				panic(r)
			}
			ex.houdini[key] = true
			ex.changed = true
		}
	}()
	f()
	return true
}

func copyEnv(m map[string]Value) map[string]Value {
	n := map[string]Value{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func stripWrap(t *Term) *Term {
	for t.Op == "wrapi" || t.Op == "wrapu" {
		t = t.Args[0]
	}
	return t
}

func maxSym(t *Term) (int, int64) {
	best := 0
	collectSyms([]*Term{t}, func(x *Term) {
		if len(x.Args) == 0 && x.Q == nil {
			if j := strings.LastIndex(x.Op, "!"); j >= 0 {
				if n, err := strconv.Atoi(x.Op[j+1:]); err == nil && n > best && !strings.HasPrefix(x.Op, "T!") && !strings.HasPrefix(x.Op, "S!") && !strings.HasPrefix(x.Op, "F!") {
					best = n
				}
			}
		}
	})
	return best, 0
}

func (ex *Exec) backedge(st *State, fr *Frame, from, to *ssa.BasicBlock, lc *LoopCtx) {
	pos := from.Instrs[len(from.Instrs)-1].Pos()
	if !pos.IsValid() {
		for _, in := range to.Instrs {
			if in.Pos().IsValid() {
				pos = in.Pos()
				break
			}
		}
	}
	next := map[*ssa.Phi]Value{}
	np := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		np++
		next[ph] = ex.phiVal(st, fr, ph, from, to)
	}
	if lc.spec.Unroll > 0 {
		if lc.iter >= lc.spec.Unroll {
			ex.oblig(st, fmt.Sprintf("loop%d.unroll", lc.ord), "", nil, tFalse, fr, pos)
			return
		}
		fr = fr.clone()
		n := *lc
		n.iter++
		fr.loops[to] = &n
		for ph, v := range next {
			fr.env[ph] = v
		}
		ex.run(st, fr, to, np)
		return
	}
	m := ex.mods[lc.key]
	change := func(mm map[string]bool, k string) {
		if !mm[k] {
			mm[k] = true
			ex.changed = true
		}
	}
	track := func(name string, head, nv Value) bool {
		if head.same(nv) {
			// constant: linear with step 0 unless known otherwise
			if head.T != nil && head.T.S == sInt {
				if d, ok := m.lin[name]; ok && !m.nonlin[name] && d.Sign() != 0 {
					change(m.nonlin, name)
				}
			}
			return true
		}
		if head.T == nil || nv.T == nil {
			ht, nt := ex.asTerm(head), ex.asTerm(nv)
			if ht == nil || nt == nil {
				return false
			}
			return ht == nt
		}
		if head.T.S == sInt && !m.nonlin[name] {
			d := toLin(mkSub(stripWrap(nv.T), head.T))
			if _, known := m.lin[name]; known {
				// value is init + d*k; must be init + d*(k+1)
				want, got := mkAdd(head.T, litB(m.lin[name])), nv.T
				if len(head.T.Args) == 0 && !isLit(head.T) {
					got = stripWrap(got) // found linear in this very pass
				}
				if got != want {
					change(m.nonlin, name)
				}
			} else if allZero(d) {
				m.lin[name] = new(big.Int).Set(d.c)
				ex.changed = true
			} else {
				change(m.nonlin, name)
			}
		}
		if head.T.S.Name == "Slice" && !m.nosl[name] {
			a, b := head.T, nv.T
			same := sliceRef(a) == sliceRef(b) &&
				mkAdd(sliceOff(a), sliceLen(a)) == mkAdd(sliceOff(b), sliceLen(b)) &&
				mkAdd(sliceOff(a), sliceCap(a)) == mkAdd(sliceOff(b), sliceCap(b))
			if !same {
				change(m.nosl, name)
			}
		}
		return true
	}
	for _, in := range to.Instrs[:np] {
		ph := in.(*ssa.Phi)
		if !track(phiName(ph), lc.phis[ph], next[ph]) {
			ex.unsupported(st, fr, "loop variable "+ph.Comment+" "+next[ph].Bad, pos)
			return
		}
	}
	for id, name := range lc.cellName {
		hv, nv := lc.head.cells[id], st.cells[id]
		if !m.vals[name] {
			if !hv.same(nv) {
				change(m.vals, name)
			}
			continue
		}
		if !track(name, hv, nv) {
			ex.unsupported(st, fr, "loop cell", pos)
			return
		}
	}
	if st.gen != lc.head.gen {
		change(m.full, "*")
	}
	for _, c := range st.calls[len(lc.head.calls):] {
		change(m.calls, c.Key)
	}
	for k := range st.fuzzy {
		if !lc.head.fuzzy[k] {
			change(m.calls, k)
		}
	}
	for _, c := range sortedKeys(st.comps) {
		if m.full[c] || m.full["*"] {
			continue
		}
		now := st.comps[c]
		head := compOf(lc.head, c, now.S)
		t := now
		// below the stores at the places that the loop is known to change
		below := func() *Term {
			base := head
			for base.Op == "store" {
				known := false
				for _, y := range m.idx[c] {
					known = known || y == base.Args[1]
				}
				if !known {
					break
				}
				base = base.Args[0]
			}
			return base
		}
		for t != head && t != below() && t.Op == "store" {
			ix := t.Args[1]
			t = t.Args[0]
			if isLit(ix) && ix.I.Cmp(big.NewInt(lc.refAt)) >= 0 {
				continue // allocated in the loop
			}
			known := false
			for _, y := range m.idx[c] {
				known = known || y == ix
			}
			if known {
				continue
			}
			if n, _ := maxSym(ix); n > lc.symAt {
				t = nil
				break
			}
			m.idx[c] = append(m.idx[c], ix)
			ex.changed = true
		}
		if t != head && t != below() {
			change(m.full, c)
		}
	}
	for g := range st.ghost {
		if h, ok := lc.head.ghost[g]; ok && h != st.ghost[g] {
			change(m.ghost, g)
		}
	}
	e := *lc.headEval
	e.cur = st
	e.resolve = ex.resolver(fr, st, to, next)
	e.env = copyEnv(lc.headEval.env)
	e.env["$k"] = Value{T: mkAdd(lc.k, lit(1))}
	for i, inv := range lc.invs {
		if !ex.invariant(st, fr, pos, lc, inv, func() {
			ex.oblig(st, fmt.Sprintf("loop%d.step", lc.ord), inv.name(i), inv.Labels, e.bool(inv.E), fr, pos)
		}) {
			return
		}
	}
	if lc.dec != nil {
		ex.specCatch(st, fr, pos, func() {
			d := e.term(lc.spec.Dec)
			s2 := st
			if ex.dec != nil {
				s2 = st.clone()
				s2.assume(ex.decWhen)
			}
			ex.oblig(s2, fmt.Sprintf("loop%d.decreases", lc.ord), "", ex.c.DecWhen.Labels, mkAnd(mkLe(lit(0), lc.dec), mkLt(d, lc.dec)), fr, pos)
		})
	}
}

// ---------- verification of one function ----------

type FuncResult struct {
	Key     string
	Obls    []*Obl
	Used    []string
	Inlined []string
	Assumed []string
	Returns int
	Err     string
	Wall    float64
}

func (w *World) runFunc(key string, feas *Feas, houdini map[string]bool) (ex *Exec, err string) {
	c := w.contracts[key]
	fn := w.funcs[key]
	mods := map[string]*LoopMods{}
	if fn == nil {
		return nil, "function " + key + " not found in /repo"
	}
	loopCache = map[*ssa.Function]*loopInfo{}
	for round := 0; ; round++ {
		symctr = baseSym
		ex = &Exec{w: w, fn: fn, c: c, key: key, mods: mods, feas: feas, houdini: houdini, fails: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, mapcards: map[string]*Sort{}}
		err = ex.once()
		if err != "" {
			return ex, err
		}
		if !ex.changed {
			return ex, ""
		}
		if round > 20+len(houdini) {
			return ex, "loop analysis did not stabilise"
		}
	}
}

func (ex *Exec) once() (err string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case stopExec:
				err = e.why
			case specErr:
				err = e.msg
			default:
				panic(r)
			}
		}
	}()
	w, fn, c := ex.w, ex.fn, ex.c
	st := newState(w)
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*LoopCtx{}, vars: map[string]dbg{}, li: loopsOf(fn), stack: []*ssa.Function{fn}}
	env := map[string]Value{}
	for i, p := range fn.Params {
		var v Value
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && structOf(pt.Elem()) == nil {
			ex.cellctr++
			st.cells[ex.cellctr] = ex.freshVal(st, "p."+p.Name(), pt.Elem())
			st.ctyp[ex.cellctr] = pt.Elem()
			v = Value{P: &Ptr{Kind: "cell", Cell: ex.cellctr, Elem: pt.Elem()}}
		} else {
			t := sym("p."+p.Name(), w.sortOf(p.Type()))
			if p.Name() == "_" || p.Name() == "" {
				t = sym(fmt.Sprintf("p.%d", i), w.sortOf(p.Type()))
			}
			ex.typeFacts(st, t, p.Type())
			v = Value{T: t}
		}
		fr.env[p] = v
		n := p.Name()
		if i < len(c.Params) {
			n = c.Params[i]
		}
		env[n] = v
	}
	ev := &Eval{w: w, env: env, cur: st, where: c.Key}
	ev.old = st
	lets := len(c.Lets)
	if lets > 0 {
		for _, l := range c.Lets {
			v := ev.val(l.E)
			env[l.Name] = v
			env["let."+l.Name] = v
		}
	}
	for _, r := range c.Requires {
		st.assume(ev.bool(r.E))
	}
	for _, u := range c.Uses {
		st.assume(w.useLemma(ev, u, nil, len(w.spec.Axioms)))
	}
	for _, r := range c.Entry {
		st.assume(ev.bool(r.E))
		ex.assumed["assumed at entry of "+c.Key+" ("+r.Pos+")"] = true
	}
	ex.may = tFalse
	for _, m := range c.MayPanic {
		ex.may = mkOr(ex.may, ev.bool(m.E))
	}
	if c.Dec != nil {
		ex.decWhen = ev.bool(c.DecWhen.E)
		for _, d := range c.Dec {
			ex.dec = append(ex.dec, ev.term(d))
		}
	}
	if st.dead() {
		return "precondition is unsatisfiable"
	}
	ex.obls = append(ex.obls, &Obl{Name: ex.key + "#vacuity", Kind: "vacuity", PC: st.pc, Goal: tFalse})
	pre := st.clone()
	ex.entry = &Eval{w: w, env: env, cur: pre}
	rn := resultNames(c, fn.Signature)
	fr.ret = func(s *State, vals []Value) {
		ex.returns++
		renv := copyEnv(env)
		for i, v := range vals {
			if v.T == nil {
				if t := ex.asTerm(v); t != nil {
					v.T = resort2(t, w.sortOf(fn.Signature.Results().At(i).Type()))
				}
			}
			v.Srt = w.sortOf(fn.Signature.Results().At(i).Type())
			renv[rn[i]] = v
		}
		if ex.lk != nil {
			ex.oblig(s, "lock", "held at return", []string{ex.lk.spec.Prop + ":balance"}, ex.lockNone(s), nil, fn.Pos())
			return
		}
		e := &Eval{w: w, env: renv, cur: s, old: pre, oldEnv: env, oldCtr: refBase}
		ex.smokes = append(ex.smokes, &Obl{Name: ex.key + "#reachable", Kind: "vacuity", PC: s.pc[:len(s.pc):len(s.pc)], Goal: tFalse})
		for _, u := range c.RetUses {
			ex.specCatch(s, fr, ex.fn.Pos(), func() { s.assume(w.useLemma(e, u, nil, len(w.spec.Axioms))) })
		}
		for _, a := range c.AtExit {
			ex.assumed["ghost effect at return from "+c.Key+" ("+a.Pos+")"] = true
			ex.specCatch(s, fr, ex.fn.Pos(), func() {
				cond := e.bool(a.When)
				if cond == tFalse {
					return
				}
				j := strings.Index(a.Name, "(")
				name, arg := a.Name[:j], a.Name[j+1:len(a.Name)-1]
				so, ok := w.compSortByName(name)
				if !ok {
					panic(specErr{"unknown component " + name})
				}
				idx, v := e.term(&Expr{Op: "id", Name: arg}), e.term(a.E)
				old := s.comp(name, so)
				s.comps[name] = mkStore(old, idx, mkIte(cond, v, mkSelect(old, idx)))
			})
		}
		ex.post(s, fr, e, c.Ensures, "post")
		ex.frame(s, fr, e, pre, c.Modifies)
	}
	fr.pan = func(s *State, why string, pos token.Pos) {
		if ex.lk != nil {
			ex.oblig(s, "lock", "held on "+why, []string{ex.lk.spec.Prop + ":balance"}, ex.lockNone(s), nil, pos)
			return
		}
		if ex.may != tTrue {
			ex.oblig(s, "panics", why, nil, ex.may, fr, pos)
		}
		e := &Eval{w: w, env: env, cur: s, old: pre, oldEnv: env, oldCtr: refBase}
		ex.post(s, fr, e, c.OnPanic, "onpanic")
		if c.Atomic {
			ex.frame(s, fr, e, pre, nil)
		} else if len(c.OnPanic) > 0 {
			ex.frame(s, fr, e, pre, c.Modifies)
		}
	}
	ex.run(st, fr, fn.Blocks[0], 0)
	return ""
}

func (ex *Exec) post(s *State, fr *Frame, e *Eval, cs []Clause, kind string) {
	for i, c := range cs {
		n := c.Name
		if n == "" {
			n = fmt.Sprint(i + 1)
		}
		ex.specCatch(s, fr, ex.fn.Pos(), func() {
			ex.oblig(s, kind, n, c.Labels, e.bool(c.E), nil, ex.fn.Pos())
		})
	}
}

// frame: everything not listed in "modifies" is unchanged (except fresh objects)
func (ex *Exec) frame(s *State, fr *Frame, e *Eval, pre *State, mods []string) {
	mod := map[string][]string{}
	pe := *e
	pe.cur = pre
	pe.env = e.oldEnv
	type target struct {
		comp string
		key  *Term
	}
	var maps []target
	for _, m := range mods {
		if m == "*" {
			return
		}
		if strings.HasPrefix(m, "mapof(") || strings.HasPrefix(m, "mapsof(") {
			ex.specCatch(s, fr, ex.fn.Pos(), func() {
				dn, vn, r := pe.mapTarget(m)
				if strings.HasPrefix(m, "mapsof(") {
					mod[dn], mod[vn] = append(mod[dn], ""), append(mod[vn], "")
				} else {
					maps = append(maps, target{dn, r}, target{vn, r})
				}
			})
			continue
		}
		if j := strings.Index(m, "("); j > 0 {
			mod[m[:j]] = append(mod[m[:j]], m[j+1:len(m)-1])
		} else {
			mod[m] = append(mod[m], "")
		}
	}
	if s.gen != pre.gen {
		ex.oblig(s, "frame", "everything", nil, tFalse, nil, ex.fn.Pos())
		return
	}
	for _, cn := range sortedKeys(s.comps) {
		now := s.comps[cn]
		old := compOf(pre, cn, now.S)
		if now == old {
			continue
		}
		keys, listed := mod[cn]
		whole := false
		for _, k := range keys {
			whole = whole || k == ""
		}
		if listed && whole {
			continue
		}
		if now.S.Elem == nil || now.S.Key != sInt {
			ex.oblig(s, "frame", cn, nil, mkEq(now, old), nil, ex.fn.Pos())
			continue
		}
		r := fresh("fr", sInt)
		goal := []*Term{mkLt(r, lit(refBase))}
		for _, k := range keys {
			ex.specCatch(s, fr, ex.fn.Pos(), func() {
				a := pe.term(&Expr{Op: "id", Name: k})
				if cn == "OUT" {
					a = pe.widOf(a)
				} else if a.S.Name == "Slice" {
					a = sliceRef(a)
				}
				goal = append(goal, mkNot(mkEq(r, a)))
			})
		}
		for _, m := range maps {
			if m.comp == cn {
				goal = append(goal, mkNot(mkEq(r, m.key)))
			}
		}
		// peel stores at fresh references
		t := now
		for t.Op == "store" && isLit(t.Args[1]) && t.Args[1].I.Cmp(big.NewInt(refBase)) >= 0 {
			t = t.Args[0]
		}
		if t == old {
			continue
		}
		ex.oblig(s, "frame", cn, nil, mkImp(mkAnd(goal...), mkEq(mk("select", now.S.Elem, t, r), mk("select", now.S.Elem, old, r))), nil, ex.fn.Pos())
	}
}

// mapTarget: the components and the reference of mapof(x.f) in a modifies clause.
func (e *Eval) mapTarget(m string) (dn, vn string, ref *Term) {
	ids := strings.Split(m[strings.Index(m, "(")+1:len(m)-1], ".")
	x := &Expr{Op: "id", Name: ids[0], Pos: e.where}
	for _, f := range ids[1:] {
		x = &Expr{Op: "field", Name: f, X: []*Expr{x}, Pos: e.where}
	}
	t, ts := e.typed(x)
	if ts.Meta != "map" {
		e.fail(x, "not a map: %s", m)
	}
	dn, vn, ds, vs := e.w.mapComps(ts.Go.Underlying().(*types.Map))
	e.w.compSorts[dn], e.w.compSorts[vn] = ds, vs
	return dn, vn, t
}

func (c *Contract) onPanic() bool { return c.Atomic || len(c.OnPanic) > 0 }
