package main

// Lock discipline (contracts "locks ..."): every function of the repository
// gets the same contract about the mutex of a guarded struct:
//
//   requires  this goroutine holds no such mutex
//   ensures   (and on a panic) it holds none again
//
// and every access to a guarded field, or to a map that belongs to the
// registry, carries an obligation that the mutex is held (exclusively for
// writes).  Functions that only access guarded state and take no lock
// themselves are verified inside each of their callers.  Functions that touch
// neither locks nor guarded state cannot break the contract; they are listed
// with one syntactic obligation each.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LockSpec struct {
	Prop     string
	Struct   string   // guarded struct
	Shared   string   // struct whose objects are immutable once registered
	Nonempty bool     // slices stored in registry maps are never empty
	InvProp  string   // every function changing guarded state has a contract
	InvName  string   // with a postcondition of this name
	Trusted  []string // functions exempt
	Pos      string
}

type lockInfo struct {
	w                *World
	spec             *LockSpec
	st               *types.Named
	shared           *types.Named
	mutex            map[int]string // field -> component
	exempt           map[int]bool
	direct           map[*ssa.Function]bool // takes or releases a lock
	access           map[*ssa.Function]bool // touches guarded state, itself or through helpers
	reach            map[*ssa.Function]bool // may (transitively) take a lock
	entry            map[*ssa.Function]bool // verified on its own
	all              []*ssa.Function
	escapes          map[*ssa.Function]string
	recursive, taken map[*ssa.Function]bool
	calls            map[*ssa.Function][]*ssa.Function
	nopanic          map[string]bool // externals whose contract excludes panics
}

func isMutexType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "RWMutex" || n.Obj().Name() == "Mutex")
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

var lockOps = map[string][2]int64{ // required, set
	"sync.(*RWMutex).Lock": {0, 2}, "sync.(*RWMutex).Unlock": {2, 0},
	"sync.(*RWMutex).RLock": {0, 1}, "sync.(*RWMutex).RUnlock": {1, 0},
	"sync.(*Mutex).Lock": {0, 2}, "sync.(*Mutex).Unlock": {2, 0},
}

func (w *World) newLockInfo(spec *LockSpec) *lockInfo {
	li := &lockInfo{w: w, spec: spec, mutex: map[int]string{}, exempt: map[int]bool{}, direct: map[*ssa.Function]bool{},
		access: map[*ssa.Function]bool{}, reach: map[*ssa.Function]bool{}, entry: map[*ssa.Function]bool{}, escapes: map[*ssa.Function]string{}, recursive: map[*ssa.Function]bool{}}
	get := func(n string) *types.Named {
		if n == "" {
			return nil
		}
		o := w.root.Scope().Lookup(n)
		if o == nil {
			panic(specErr{"locks: no type " + n})
		}
		return o.Type().(*types.Named)
	}
	li.st, li.shared = get(spec.Struct), get(spec.Shared)
	u := li.st.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		ft := u.Field(i).Type()
		if isMutexType(ft) {
			cn, cs := w.fieldComp(li.st, i)
			li.mutex[i] = cn
			w.compSorts[cn] = cs
			w.lockComps[cn] = true
		} else if isSyncType(ft) {
			li.exempt[i] = true
		}
	}
	if len(li.mutex) == 0 {
		panic(specErr{"locks: " + spec.Struct + " has no mutex"})
	}
	for f := range w.allFuncs {
		if f.Pkg != nil && w.inRepo[f.Pkg.Pkg] && f.Pkg.Pkg == w.root && len(f.Blocks) > 0 && (f.Synthetic == "" || strings.HasPrefix(f.Name(), "init")) {
			li.all = append(li.all, f)
		}
	}
	sort.Slice(li.all, func(i, j int) bool { return w.funcKey(li.all[i]) < w.funcKey(li.all[j]) })
	calls := map[*ssa.Function][]*ssa.Function{}
	invoked := map[*ssa.Function]map[string]bool{}
	taken := map[*ssa.Function]bool{}
	ncallers := map[*ssa.Function]int{}
	for _, f := range li.all {
		invoked[f] = map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if li.touches(f, in) {
					li.access[f] = true
				}
				var cc *ssa.CallCommon
				if ci, ok := in.(ssa.CallInstruction); ok {
					cc = ci.Common()
					if g := cc.StaticCallee(); g != nil {
						calls[f] = append(calls[f], g)
						ncallers[g]++
						if _, ok := lockOps[w.funcKey(g)]; ok && li.mutexArg(cc) {
							li.direct[f] = true
							li.access[f] = true
						}
					} else if cc.IsInvoke() {
						invoked[f][cc.Method.Name()] = true
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && !(cc != nil && cc.Value == g) {
						if _, ok := in.(*ssa.MakeClosure); !ok {
							if _, ok := in.(*ssa.DebugRef); !ok {
								taken[g] = true
							}
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			calls[f] = append(calls[f], a)
			ncallers[a]++
		}
	}
	li.calls, li.taken = calls, taken
	// what is called back and forth cannot be verified inside its callers
	for _, f := range li.all {
		seen := map[*ssa.Function]bool{}
		var walk func(g *ssa.Function)
		walk = func(g *ssa.Function) {
			for _, h := range calls[g] {
				if h == f {
					li.recursive[f] = true
				}
				if !seen[h] {
					seen[h] = true
					walk(h)
				}
			}
		}
		walk(f)
	}
	for again := true; again; {
		again = false
		for _, f := range li.all {
			r, a := li.reach[f] || li.direct[f], li.access[f]
			for _, g := range calls[f] {
				r = r || li.reach[g] || li.direct[g]
				a = a || li.access[g] && (!li.locker(g) && !li.recursive[g] || li.inlineLocker(g, taken))
			}
			for n := range invoked[f] {
				for _, g := range li.all {
					if g.Signature.Recv() != nil && g.Name() == n && (li.reach[g] || li.direct[g]) {
						r = true
					}
				}
			}
			if r != li.reach[f] || a != li.access[f] {
				li.reach[f], li.access[f] = r, a
				again = true
			}
		}
	}
	for _, f := range li.all {
		if !li.access[f] || f.Parent() != nil {
			continue
		}
		exported := token.IsExported(f.Name()) || strings.HasPrefix(f.Name(), "init")
		if li.inlineLocker(f, taken) {
			continue
		}
		if li.locker(f) || exported || taken[f] || li.recursive[f] {
			li.entry[f] = true
		}
	}
	return li
}

// inlineLocker: an unexported helper that takes the lock around a function it
// is given; verified inside its callers, where that function is known.
func (li *lockInfo) inlineLocker(f *ssa.Function, taken map[*ssa.Function]bool) bool {
	if token.IsExported(f.Name()) || taken[f] {
		return false
	}
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}

func (li *lockInfo) locker(f *ssa.Function) bool {
	if li.direct[f] {
		return true
	}
	// a closure that takes the lock makes its parent a locking function, and
	// so does calling a helper that takes it around a given function
	for _, a := range f.AnonFuncs {
		if li.locker(a) {
			return true
		}
	}
	for _, g := range li.calls[f] {
		if g.Parent() == nil && li.direct[g] && li.inlineLocker(g, li.taken) {
			return true
		}
	}
	return false
}

func (li *lockInfo) isGuarded(t types.Type) bool { return types.Identical(t, li.st) }

func (li *lockInfo) isShared(t types.Type) bool {
	return li.shared != nil && types.Identical(t, li.shared)
}

func (li *lockInfo) isSharedPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && li.isShared(p.Elem())
}

// registry maps: maps to shared objects
func (li *lockInfo) regMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	e := m.Elem()
	for {
		if s, ok := e.Underlying().(*types.Slice); ok {
			e = s.Elem()
			continue
		}
		break
	}
	return li.isSharedPtr(e)
}

func (li *lockInfo) mutexArg(cc *ssa.CallCommon) bool {
	if len(cc.Args) == 0 {
		return false
	}
	fa, ok := cc.Args[0].(*ssa.FieldAddr)
	if !ok {
		return false
	}
	pt := fa.X.Type().Underlying().(*types.Pointer)
	return li.isGuarded(pt.Elem()) && li.mutex[fa.Field] != ""
}

// touches: the instruction accesses guarded state.
func (li *lockInfo) touches(f *ssa.Function, in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer)
		if li.isGuarded(pt.Elem()) && li.mutex[in.Field] == "" && !li.exempt[in.Field] {
			li.escape(f, in)
			return true
		}
		if li.isGuarded(pt.Elem()) && li.mutex[in.Field] != "" {
			for _, r := range *in.Referrers() {
				switch r := r.(type) {
				case *ssa.DebugRef:
				case ssa.CallInstruction:
					if g := r.Common().StaticCallee(); g != nil {
						if _, ok := lockOps[li.w.funcKey(g)]; ok {
							continue
						}
					}
					li.escapes[f] = "the mutex is used by something else than Lock and Unlock"
				default:
					li.escapes[f] = "the address of the mutex is taken"
				}
			}
		}
		if li.isShared(pt.Elem()) {
			return li.storesTo(in)
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			if li.isGuarded(in.Type()) {
				return true
			}
		}
	case *ssa.Store:
		t := in.Val.Type()
		return li.isGuarded(t) || li.isShared(t) && !isLocalAlloc(in.Addr)
	case *ssa.MapUpdate:
		return li.regMap(in.Map.Type())
	case *ssa.Lookup:
		return li.regMap(in.X.Type())
	case *ssa.Range:
		return li.regMap(in.X.Type())
	case *ssa.Next:
		if rg, ok := in.Iter.(*ssa.Range); ok {
			return li.regMap(rg.X.Type())
		}
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 && (b.Name() == "len" || b.Name() == "delete" || b.Name() == "clear") {
			return li.regMap(in.Call.Args[0].Type())
		}
	}
	return false
}

// writes: the instruction changes guarded state.
func (li *lockInfo) writes(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		pt := in.X.Type().Underlying().(*types.Pointer)
		return li.isGuarded(pt.Elem()) && li.mutex[in.Field] == "" && !li.exempt[in.Field] && li.storesTo(in)
	case *ssa.Store:
		if ia, ok := in.Addr.(*ssa.IndexAddr); ok && li.isSharedPtr(in.Val.Type()) {
			if a, ok := ia.X.(*ssa.Alloc); !ok || a.Comment != "varargs" && a.Comment != "slicelit" {
				return true
			}
		}
		return li.isGuarded(in.Val.Type()) && !isLocalAlloc(in.Addr)
	case *ssa.MapUpdate:
		return li.regMap(in.Map.Type())
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 {
			t := in.Call.Args[0].Type()
			if b.Name() == "copy" {
				s, ok := t.Underlying().(*types.Slice)
				return ok && li.isSharedPtr(s.Elem())
			}
			return (b.Name() == "delete" || b.Name() == "clear") && li.regMap(t)
		}
	}
	return false
}

// writers: guarded state is changed only by functions whose contracts keep
// its invariant, or inside them.
func (li *lockInfo) writers(s *LockSpec) (obls []*Obl) {
	w := li.w
	keeps := func(f *ssa.Function) bool {
		c := w.contracts[w.funcKey(f)]
		if c == nil || c.Trusted || c.Inline {
			return false
		}
		for _, e := range c.Ensures {
			if e.Name == s.InvName {
				return true
			}
		}
		return false
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range li.all {
		for _, g := range li.calls[f] {
			callers[g] = append(callers[g], f)
		}
	}
	for _, f := range li.all {
		wr := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				wr = wr || li.writes(in)
			}
		}
		if !wr {
			continue
		}
		seen := map[*ssa.Function]bool{}
		var bad func(g *ssa.Function) string
		bad = func(g *ssa.Function) string {
			if seen[g] || keeps(g) {
				return ""
			}
			seen[g] = true
			up := callers[g]
			if p := g.Parent(); p != nil {
				up = append(append([]*ssa.Function{}, up...), p)
			}
			if len(up) == 0 || g.Parent() == nil && token.IsExported(g.Name()) {
				return w.funcKey(g)
			}
			for _, h := range up {
				if r := bad(h); r != "" {
					return r
				}
			}
			return ""
		}
		o := &Obl{Name: "locks:" + w.funcKey(f) + "#writer", Kind: "lock", Labels: []string{s.InvProp + ":" + s.InvName}, Goal: tTrue, Done: "syntactic", Res: "proved"}
		if why := bad(f); why != "" {
			o.Name, o.Goal, o.Res = o.Name+":"+why, tFalse, "failed: "+why+" changes guarded state without a contract that keeps the invariant"
			o.Pos = w.prog.Fset.Position(f.Pos()).String()
		}
		obls = append(obls, o)
	}
	return obls
}

func isLocalAlloc(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && !a.Heap
}

func (li *lockInfo) storesTo(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.FieldAddr:
			if li.storesTo(r) {
				return true
			}
		case *ssa.IndexAddr:
			if li.storesTo(r) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			// the address of a part is passed on: only copies and reads are expected
			if _, ok := r.(ssa.CallInstruction); ok {
				return true
			}
		}
	}
	return false
}

func (li *lockInfo) escape(f *ssa.Function, v ssa.Value) {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != v {
				li.escapes[f] = "the address of a guarded field is stored"
			}
		case *ssa.FieldAddr:
			li.escape(f, r)
		case *ssa.IndexAddr:
			li.escape(f, r)
		default:
			li.escapes[f] = "the address of a guarded field is passed on"
		}
	}
}

// ---------- obligations during symbolic execution ----------

func (ex *Exec) lockComp(st *State, cn string) *Term {
	s := arrSort(sInt, sInt)
	if t, ok := st.comps[cn]; ok {
		return t
	}
	t := mk("(as const "+s.Name+")", s, lit(0))
	st.comps[cn] = t
	return t
}

func (ex *Exec) lockNone(st *State) *Term {
	s := arrSort(sInt, sInt)
	z := mk("(as const "+s.Name+")", s, lit(0))
	var gs []*Term
	for _, i := range sortedInts(ex.lk.mutex) {
		gs = append(gs, mkEq(ex.lockComp(st, ex.lk.mutex[i]), z))
	}
	return mkAnd(gs...)
}

func sortedInts(m map[int]string) []int {
	var is []int
	for i := range m {
		is = append(is, i)
	}
	sort.Ints(is)
	return is
}

// lockHeld: some mutex of the object is held (exclusively)
func (ex *Exec) lockHeld(st *State, ref *Term, write bool) *Term {
	var gs []*Term
	for _, i := range sortedInts(ex.lk.mutex) {
		m := mkSelect(ex.lockComp(st, ex.lk.mutex[i]), ref)
		if write {
			gs = append(gs, mkEq(m, lit(2)))
		} else {
			gs = append(gs, mkNot(mkEq(m, lit(0))))
		}
	}
	return mkOr(gs...)
}

// lockSome: the mutex of some object is held
func (ex *Exec) lockSome(st *State, write bool) *Term {
	var gs []*Term
	for _, i := range sortedInts(ex.lk.mutex) {
		for t := ex.lockComp(st, ex.lk.mutex[i]); t.Op == "store"; t = t.Args[0] {
			gs = append(gs, ex.lockHeld(st, t.Args[1], write))
		}
	}
	return mkOr(gs...)
}

func isFreshRef(t *Term) bool { return isLit(t) && t.I.IsInt64() && t.I.Int64() >= refBase }

func (ex *Exec) lockAccess(st *State, fr *Frame, p *Ptr, write bool, pos token.Pos) {
	li := ex.lk
	if p.Kind != "heap" || st.dead() {
		return
	}
	if li.isGuarded(p.St) {
		if len(p.Path) > 0 && (li.mutex[p.Path[0]] != "" || li.exempt[p.Path[0]]) {
			return
		}
		if isFreshRef(p.Ref) && !st.published[p.Ref] {
			return
		}
		n := "read"
		if write {
			n = "write"
		}
		f := "*"
		if len(p.Path) > 0 {
			f = structOf(p.St).Field(p.Path[0]).Name()
		}
		ex.oblig(st, "lock", n+" of "+f, []string{li.spec.Prop + ":guard"}, ex.lockHeld(st, p.Ref, write), fr, pos)
	}
	if write && li.isShared(p.St) {
		ok := isFreshRef(p.Ref) && !st.released[p.Ref] && (!st.published[p.Ref] || ex.lockSome(st, true) == tTrue)
		ex.oblig(st, "lock", "write to a registered "+li.spec.Shared, []string{li.spec.Prop + ":guard"}, mkBool(ok), fr, pos)
	}
}

func (ex *Exec) lockMap(st *State, fr *Frame, mt types.Type, m *Term, write bool, pos token.Pos) {
	if ex.lk == nil || !ex.lk.regMap(mt) || m == nil || st.dead() {
		return
	}
	if isFreshRef(m) && !st.published[m] {
		return
	}
	n := "read"
	if write {
		n = "write"
	}
	ex.oblig(st, "lock", n+" of a registry map", []string{ex.lk.spec.Prop + ":guard"}, ex.lockSome(st, write), fr, pos)
}

// publish: the value can be reached by others from now on (once the lock is released)
func (st *State) publish(vs ...Value) {
	n := map[*Term]bool{}
	for k := range st.published {
		n[k] = true
	}
	for _, v := range vs {
		var ts []*Term
		if v.T != nil {
			ts = append(ts, v.T)
		}
		if v.P != nil && v.P.Ref != nil {
			ts = append(ts, v.P.Ref)
		}
		collectSyms(ts, func(x *Term) {
			if isFreshRef(x) {
				n[x] = true
			}
		})
	}
	st.published = n
}

// lockCall: calls in lock mode.  Returns false when the call is to be inlined.
func (ex *Exec) lockCall(st *State, fr *Frame, fn *ssa.Function, key string, sig *types.Signature, args []Value, instr ssa.Instruction, k cont) bool {
	li := ex.lk
	pos := instr.Pos()
	lab := []string{li.spec.Prop + ":balance"}
	if op, ok := lockOps[key]; ok && len(args) > 0 && args[0].P != nil && args[0].P.Kind == "heap" && li.isGuarded(args[0].P.St) && len(args[0].P.Path) == 1 {
		cn := li.mutex[args[0].P.Path[0]]
		ref := args[0].P.Ref
		c := ex.lockComp(st, cn)
		nm := key[strings.LastIndex(key, ".")+1:]
		ex.oblig(st, "lock", nm, lab, mkEq(mkSelect(c, ref), lit(op[0])), fr, pos)
		// the goroutine that gets here has it in the required state
		for c.Op == "store" && c.Args[1] == ref {
			c = c.Args[0]
		}
		if op[1] != 0 || c.Op == "store" {
			c = mkStore(c, ref, lit(op[1]))
		}
		st.comps[cn] = c
		if op[1] == 0 {
			st.released = st.published
		}
		k(st, fr, nil)
		return true
	}
	if strings.HasPrefix(key, "sync.(") && strings.Contains(key, "ock") && len(args) > 0 && args[0].P != nil && args[0].P.Kind == "heap" && li.isGuarded(args[0].P.St) {
		ex.unsupported(st, fr, key, pos)
		return true
	}
	repo := fn != nil && fn.Pkg != nil && li.w.inRepo[fn.Pkg.Pkg] && len(fn.Blocks) > 0
	if repo {
		inline := li.access[fn] && !(li.entry[fn] && (li.locker(fn) || li.recursive[fn]))
		if fn.Parent() != nil {
			inline = true
		}
		if inline {
			return false
		}
		if li.reach[fn] || li.locker(fn) {
			ex.oblig(st, "lock", "call of "+key, lab, ex.lockNone(st), fr, pos)
		}
	}
	if fn == nil {
		// a method of an interface value: any method of that name in the repository
		m := key[strings.LastIndex(key, ".")+1:]
		for _, g := range li.all {
			if g.Signature.Recv() != nil && g.Name() == m && (li.reach[g] || li.locker(g)) {
				ex.oblig(st, "lock", "call of "+key, lab, ex.lockNone(st), fr, pos)
				break
			}
		}
	}
	for i, a := range args {
		if a.Fn != nil && (li.access[a.Fn] || li.reach[a.Fn]) {
			ex.unsupported(st, fr, fmt.Sprintf("argument %d of %s is a function that uses the registry", i+1, key), pos)
			return true
		}
	}
	if li.nopanic[key] {
		ex.used[key] = true
	}
	ex.lockHavoc(st, fr, sig, args, pos, "call of "+key, k)
	return true
}

// lockHavoc: an unknown call that leaves the locks alone: anything else may
// change, and it may panic.
func (ex *Exec) lockHavoc(st *State, fr *Frame, sig *types.Signature, args []Value, pos token.Pos, why string, k cont) {
	st.escape(args)
	var hv func(v Value)
	hv = func(v Value) {
		if v.P != nil && v.P.Kind == "cell" {
			t := st.ctyp[v.P.Cell]
			if t != nil {
				st.cells[v.P.Cell] = ex.freshVal(st, "h", t)
			}
		}
		for _, x := range v.Bind {
			hv(x)
		}
		if v.Dyn != nil {
			hv(v.Dyn.V)
		}
	}
	for _, a := range args {
		hv(a)
	}
	st.ctr += ctrStep
	st.havocAll()
	if n := strings.TrimPrefix(why, "call of "); n == why || !ex.lk.nopanic[n] {
		s2 := st.clone()
		ex.doPanic(s2, fr.clone(), why, pos)
	}
	var vals []Value
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, ex.freshVal(st, "r", sig.Results().At(i).Type()))
	}
	k(st, fr, vals)
}

// ---------- driver ----------

func (w *World) lockKeys(prop string) []string {
	var ks []string
	for _, s := range w.spec.Locks {
		if prop == s.InvProp && prop != "" {
			ks = append(ks, "locks:"+s.Struct)
		}
		if prop != "" && prop != s.Prop {
			continue
		}
		li, err := w.lockInfo(s)
		if err != "" {
			return append(ks, "locks:"+s.Struct)
		}
		for _, f := range li.all {
			if li.entry[f] && !contains(s.Trusted, w.funcKey(f)) {
				ks = append(ks, "locks:"+s.Struct+":"+w.funcKey(f))
			}
		}
		ks = append(ks, "locks:"+s.Struct)
	}
	return ks
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (w *World) lockInfo(s *LockSpec) (li *lockInfo, err string) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = e.msg
				return
			}
			panic(r)
		}
	}()
	return w.newLockInfo(s), ""
}

func (w *World) lockSpec(name string) *LockSpec {
	for _, s := range w.spec.Locks {
		if s.Struct == name {
			return s
		}
	}
	return nil
}

// lockRest: the functions that need no symbolic execution
func (w *World) lockRest(s *LockSpec) (obls []*Obl, assumed map[string]bool, errs string) {
	li, err := w.lockInfo(s)
	if err != "" {
		return nil, nil, err
	}
	assumed = map[string]bool{}
	for _, f := range li.all {
		key := w.funcKey(f)
		o := &Obl{Name: "locks:" + key + "#neutral", Kind: "lock", Labels: []string{s.Prop + ":neutral"}, Goal: tTrue, Done: "syntactic", Res: "proved"}
		if why := li.escapes[f]; why != "" {
			obls = append(obls, &Obl{Name: "locks:" + key + "#escape:" + why, Kind: "lock", Labels: []string{s.Prop + ":guard"}, Goal: tFalse, Done: "syntactic", Res: "failed", Pos: w.prog.Fset.Position(f.Pos()).String()})
		}
		if contains(s.Trusted, key) {
			assumed["locks: "+key+" is exempt"] = true
			continue
		}
		if li.access[f] {
			continue // verified on its own or inside its callers
		}
		obls = append(obls, o)
	}
	if s.InvName != "" {
		obls = append(obls, li.writers(s)...)
	}
	assumed["locks: pointers to "+s.Shared+" are not nil while a lock is held"] = true
	assumed["locks: code passed in by the user (a writer given to PrintTypes) does not use the codec while it is called under the lock"] = true
	return obls, assumed, ""
}

func (w *World) runLocks(s *LockSpec, key string, feas *Feas) (ex *Exec, err string) {
	li, e := w.lockInfo(s)
	if e != "" {
		return nil, e
	}
	fn := w.funcs[key]
	if fn == nil {
		for _, f := range li.all {
			if w.funcKey(f) == key {
				fn = f
			}
		}
	}
	if fn == nil {
		return nil, "function " + key + " not found in /repo"
	}
	c := &Contract{Kind: "func", Key: "locks:" + key, Modifies: []string{"*"}, Loops: map[string]*LoopSpec{}}
	tr := Clause{E: &Expr{Op: "id", Name: "true"}}
	c.MayPanic = []Clause{tr}
	c.OnPanic = []Clause{tr}
	li.nopanic = map[string]bool{}
	for k, c := range w.contracts {
		if c.Kind == "extern" && len(c.MayPanic) == 0 {
			li.nopanic[k] = true
		}
	}
	w.contracts = map[string]*Contract{}
	mods := map[string]*LoopMods{}
	loopCache = map[*ssa.Function]*loopInfo{}
	for round := 0; ; round++ {
		symctr = baseSym
		ex = &Exec{w: w, fn: fn, c: c, key: "locks:" + key, mods: mods, feas: feas, fails: map[string]bool{}, inlined: map[string]bool{}, used: map[string]bool{}, assumed: map[string]bool{}, mapcards: map[string]*Sort{}, lk: li, lkseen: map[string]bool{}}
		err = ex.once()
		if err != "" || !ex.changed {
			return ex, err
		}
		if round > 20 {
			return ex, "loop analysis did not stabilise"
		}
	}
}
