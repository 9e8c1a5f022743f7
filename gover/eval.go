package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- runtime values ----------

type Value struct {
	T    *Term
	P    *Ptr
	Tup  []Value
	Fn   *ssa.Function
	Bind []Value
	Dyn  *Dyn
	Bad  string // unsupported value: reason
	Srt  *Sort  // in specifications: the sort with its Go type, where T has lost it
	Org  *Term  // an interface value got from this reflect.Value by Interface
}

type Dyn struct {
	Typ types.Type
	V   Value
}

type Ptr struct {
	Kind string // "cell","heap","elem","global"
	Cell int
	St   types.Type // heap: struct type; elem: element type
	Ref  *Term
	Idx  *Term
	Comp string
	CS   *Sort
	Path []int
	Elem types.Type // type pointed to
}

func (a Value) same(b Value) bool {
	if a.T != nil || b.T != nil {
		return a.T == b.T && a.Org == b.Org
	}
	if a.P != nil && b.P != nil {
		if a.P.Kind != b.P.Kind || a.P.Cell != b.P.Cell || a.P.Ref != b.P.Ref || a.P.Idx != b.P.Idx || a.P.Comp != b.P.Comp || len(a.P.Path) != len(b.P.Path) {
			return false
		}
		for i := range a.P.Path {
			if a.P.Path[i] != b.P.Path[i] {
				return false
			}
		}
		return true
	}
	if a.Fn != nil || b.Fn != nil {
		return a.Fn == b.Fn
	}
	return a.P == nil && b.P == nil
}

type State struct {
	w                   *World
	comps               map[string]*Term
	cells               map[int]Value
	ctyp                map[int]types.Type
	pc                  []*Term
	pcset               map[*Term]bool
	ctr                 int64
	ghost               map[string]*Term
	frozenRefs          map[*Term]bool
	trace               []string
	gen                 string          // distinguishes whole-heap havocs
	calls               []CallRec       // calls of contracted functions on this path
	escaped             map[*Term]bool  // references passed to callees
	published, released map[*Term]bool  // lock mode: reachable by others
	fuzzy               map[string]bool // called in an abstracted loop: these calls are not fully known
}

type CallRec struct {
	Key      string
	Args     []Value
	Res      []Value
	Panicked bool
	Pre      *State
}

// havocAll forgets every heap component, except the contents of objects that
// were allocated on this path and whose reference nobody else can have.
func (s *State) havocAll() {
	symctr++
	old := s.comps
	s.gen = fmt.Sprintf("g%d.", symctr)
	s.comps = map[string]*Term{}
	esc := map[*Term]bool{}
	note := func(t *Term) {
		collectSyms([]*Term{t}, func(x *Term) {
			if isLit(x) && x.I.Cmp(big.NewInt(refBase)) >= 0 {
				esc[x] = true
			}
		})
	}
	for t := range s.escaped {
		esc[t] = true
	}
	for _, c := range old {
		for t := c; t.Op == "store"; t = t.Args[0] {
			note(t.Args[2])
			if !isLit(t.Args[1]) {
				note(t.Args[1])
			}
		}
	}
	for _, n := range sortedKeys(old) {
		c := old[n]
		if s.w.constGlobals[n] || s.w.lockComps[n] {
			s.comps[n] = c
			continue
		}
		if c.S.Elem == nil || c.S.Key != sInt {
			continue
		}
		seen := map[*Term]bool{}
		for t := c; t.Op == "store"; t = t.Args[0] {
			ix := t.Args[1]
			if !isLit(ix) || ix.I.Cmp(big.NewInt(refBase)) < 0 || esc[ix] || seen[ix] {
				continue
			}
			seen[ix] = true
			s.comps[n] = mkStore(s.comp(n, c.S), ix, mkSelect(c, ix))
		}
	}
}

// escape: the references in these values are known to others from now on.
func (s *State) escape(vs []Value) {
	var ts []*Term
	var f func(v Value)
	f = func(v Value) {
		if v.T != nil {
			ts = append(ts, v.T)
		}
		if v.P != nil && v.P.Ref != nil {
			ts = append(ts, v.P.Ref)
		}
		for _, x := range v.Bind {
			f(x)
		}
		for _, x := range v.Tup {
			f(x)
		}
		if v.Dyn != nil {
			f(v.Dyn.V)
		}
	}
	for _, v := range vs {
		f(v)
	}
	n := map[*Term]bool{}
	for t := range s.escaped {
		n[t] = true
	}
	collectSyms(ts, func(x *Term) {
		if isLit(x) && x.I.Cmp(big.NewInt(refBase)) >= 0 {
			n[x] = true
		}
	})
	s.escaped = n
}

func boolTerm(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func newState(w *World) *State {
	return &State{w: w, comps: map[string]*Term{}, cells: map[int]Value{}, ctyp: map[int]types.Type{}, pcset: map[*Term]bool{}, ctr: refBase, ghost: map[string]*Term{}, frozenRefs: map[*Term]bool{}}
}

const refBase = 1000000

func (s *State) clone() *State {
	n := &State{w: s.w, ctr: s.ctr}
	n.comps = make(map[string]*Term, len(s.comps))
	for k, v := range s.comps {
		n.comps[k] = v
	}
	n.cells = make(map[int]Value, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.ctyp = make(map[int]types.Type, len(s.ctyp))
	for k, v := range s.ctyp {
		n.ctyp[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pcset = make(map[*Term]bool, len(s.pcset))
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.ghost = map[string]*Term{}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.escaped = s.escaped
	n.gen, n.fuzzy = s.gen, s.fuzzy
	n.published, n.released = s.published, s.released
	n.calls = s.calls[:len(s.calls):len(s.calls)]
	n.frozenRefs = s.frozenRefs
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	return n
}

func (s *State) assume(t *Term) {
	if t == tTrue || s.pcset[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	s.pcset[t] = true
	s.pc = append(s.pc, t)
}

func (s *State) dead() bool { return s.pcset[tFalse] }

func (s *State) comp(name string, so *Sort) *Term {
	if t, ok := s.comps[name]; ok {
		return t
	}
	gen := s.gen
	if s.w.constGlobals[name] {
		gen = ""
	}
	t := sym("H."+gen+name, so)
	s.comps[name] = t
	return t
}

func compOf(s *State, name string, so *Sort) *Term {
	if s == nil {
		return sym("H."+name, so)
	}
	return s.comp(name, so)
}

// ---------- spec evaluation ----------

type Eval struct {
	w          *World
	env        map[string]Value
	typ        map[string]types.Type
	cur        *State
	old        *State
	entry      *Eval // loop entry environment
	where      string
	globals    bool
	resolve    func(name string) (Value, bool)
	oldEnv     map[string]Value
	depth      int // of macros
	qdepth     int // of quantifiers
	callState  *State
	oldCtr     int64
	oldResolve func(name string) (Value, bool)
}

type specErr struct{ msg string }

func (e specErr) Error() string { return e.msg }

func (e *Eval) fail(x *Expr, f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf("%s: %s", x.Pos, fmt.Sprintf(f, a...))})
}

func (e *Eval) term(x *Expr) *Term {
	v := e.val(x)
	if v.T == nil {
		e.fail(x, "no term value for %s", x.Name)
	}
	return v.T
}

// typed: the term and its sort with the Go type.
func (e *Eval) typed(x *Expr) (*Term, *Sort) {
	v := e.val(x)
	if v.T == nil {
		e.fail(x, "no term value for %s", x.Name)
	}
	if v.Srt != nil {
		return v.T, v.Srt
	}
	return v.T, v.T.S
}

func (e *Eval) bool(x *Expr) *Term {
	t := e.term(x)
	if t.S != sBool {
		e.fail(x, "expected Bool, got %s", t.S.Name)
	}
	return t
}

var tNil = sym("nil?", &Sort{Name: "NIL"})

func nilOf(s *Sort) *Term {
	switch {
	case s.Name == "Slice":
		return mk("mk.Slice", s, lit(0), lit(0), lit(0), lit(0))
	case s == sIface:
		return mk("inil", sIface)
	case s == sRType:
		return mk("rt_nil", sRType)
	case s.Name == "Int":
		return lit(0)
	}
	return nil
}

func (e *Eval) lookup(x *Expr, name string) (Value, bool) {
	if v, ok := e.env[name]; ok {
		return v, true
	}
	if e.resolve != nil {
		if v, ok := e.resolve(name); ok {
			return v, true
		}
	}
	switch name {
	case "true":
		return Value{T: tTrue}, true
	case "false":
		return Value{T: tFalse}, true
	case "nil":
		return Value{T: tNil}, true
	case "OUT", "BMEM":
		return Value{T: compOf(e.cur, name, arrSort(sInt, sBytes))}, true
	case "M":
		return Value{T: compOf(e.cur, "M", e.w.sorts["Mem"])}, true
	}
	if e.w.heaps[name] {
		so := e.w.compSorts[name]
		return Value{T: compOf(e.cur, name, so), Srt: so}, true
	}
	if e.cur != nil {
		if g, ok := e.cur.ghost[name]; ok {
			return Value{T: g}, true
		}
	}
	if f, ok := e.w.fns[name]; ok && len(f.Params) == 0 {
		if f.Macro {
			n := *e
			n.env = map[string]Value{}
			n.resolve = nil
			return n.val(f.Body), true
		}
		return Value{T: mk(name, e.w.fnRet[name])}, true
	}
	return Value{}, false
}

func (e *Eval) val(x *Expr) Value {
	switch x.Op {
	case "int":
		return Value{T: litB(x.Int)}
	case "str":
		return Value{T: strLit(x.Name)}
	case "id":
		v, ok := e.lookup(x, x.Name)
		if ok {
			return v
		}
		// package-level variable or constant
		if o := e.w.root.Scope().Lookup(x.Name); o != nil {
			switch o := o.(type) {
			case *types.Var:
				return Value{T: compOf(e.cur, "G."+o.Name(), e.w.sortOf(o.Type()))}
			case *types.Const:
				return Value{T: constTerm(e.w, o.Val(), o.Type())}
			}
		}
		e.fail(x, "unknown name %s", x.Name)
	case "un":
		t := e.term(x.X[0])
		if x.Name == "!" {
			return Value{T: mkNot(t)}
		}
		return Value{T: mkMul(lit(-1), t)}
	case "bin":
		return Value{T: e.bin(x)}
	case "ite":
		c := e.bool(x.X[0])
		a, b := e.term(x.X[1]), e.term(x.X[2])
		if a == tNil {
			a = nilOf(b.S)
		}
		if b == tNil {
			b = nilOf(a.S)
		}
		return Value{T: mkIte(c, a, b)}
	case "let":
		v := e.val(x.X[0])
		n := *e
		n.env = map[string]Value{}
		for k, vv := range e.env {
			n.env[k] = vv
		}
		n.env[x.Name] = v
		return n.val(x.X[1])
	case "forall", "exists":
		n := *e
		n.env = map[string]Value{}
		for k, vv := range e.env {
			n.env[k] = vv
		}
		n.qdepth++
		var vars []*Term
		for _, p := range x.Vars {
			v := sym(fmt.Sprintf("%s?%d", p.Name, n.qdepth), e.w.specSort(p.Type))
			vars = append(vars, v)
			n.env[p.Name] = Value{T: v}
			if n.oldEnv != nil {
				if len(vars) == 1 {
					n.oldEnv = copyEnv(n.oldEnv)
				}
				n.oldEnv[p.Name] = Value{T: v}
			}
		}
		b := n.bool(x.X[0])
		if x.Op == "exists" {
			return Value{T: mkExists(vars, b)}
		}
		var pats [][]*Term
		for _, p := range x.Pats {
			var ps []*Term
			for _, y := range p {
				ps = append(ps, n.term(y))
			}
			pats = append(pats, ps)
		}
		return Value{T: mkForall(vars, pats, b)}
	case "field":
		return e.field(x)
	case "index":
		return e.index(x)
	case "slice":
		b := e.term(x.X[0])
		lo, hi := e.term(x.X[1]), e.term(x.X[2])
		if b.S == sBytes {
			return Value{T: mkSub3(b, lo, mkSub(hi, lo))}
		}
		e.fail(x, "slice of %s", b.S.Name)
	case "call":
		return e.call(x)
	}
	e.fail(x, "bad expression %s", x.Op)
	return Value{}
}

func (e *Eval) bin(x *Expr) *Term {
	a := e.term(x.X[0])
	switch {
	case x.Name == "==>" && a == tFalse, x.Name == "||" && a == tTrue:
		return tTrue
	case x.Name == "&&" && a == tFalse:
		return tFalse
	}
	b := e.term(x.X[1])
	if a == tNil && b != tNil {
		a = nilOf(b.S)
	}
	if b == tNil && a != tNil {
		if a.S.Name == "Slice" { // s == nil
			t := mkEq(mkSel("sel.Slice.0", sInt, a), lit(0))
			if x.Name == "!=" {
				return mkNot(t)
			}
			return t
		}
		b = nilOf(a.S)
	}
	if a == nil || b == nil {
		e.fail(x, "nil comparison")
	}
	chk := func(s *Sort) {
		if a.S.Name != s.Name || b.S.Name != s.Name {
			e.fail(x, "operator %s on %s and %s", x.Name, a.S.Name, b.S.Name)
		}
	}
	switch x.Name {
	case "==", "!=", "<=>", "<==>":
		if a.S.Name != b.S.Name {
			e.fail(x, "comparing %s with %s", a.S.Name, b.S.Name)
		}
		t := mkEq(a, b)
		if x.Name == "!=" {
			t = mkNot(t)
		}
		return t
	case "&&":
		chk(sBool)
		return mkAnd(a, b)
	case "||":
		chk(sBool)
		return mkOr(a, b)
	case "==>":
		chk(sBool)
		return mkImp(a, b)
	case "++":
		chk(sBytes)
		return mkCat(a, b)
	}
	chk(sInt)
	switch x.Name {
	case "<":
		return mkLt(a, b)
	case "<=":
		return mkLe(a, b)
	case ">":
		return mkLt(b, a)
	case ">=":
		return mkLe(b, a)
	case "+":
		return mkAdd(a, b)
	case "-":
		return mkSub(a, b)
	case "*":
		return mkMul(a, b)
	case "/":
		return mkDiv(a, b)
	case "%":
		return mkMod(a, b)
	}
	e.fail(x, "bad operator %s", x.Name)
	return nil
}

// findField returns the path of field indices to name in struct type t.
func findField(t types.Type, name string) ([]int, types.Type) {
	st := structOf(t)
	if st == nil {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return []int{i}, st.Field(i).Type()
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if p, ty := findField(st.Field(i).Type(), name); p != nil {
				return append([]int{i}, p...), ty
			}
		}
	}
	return nil, nil
}

func (w *World) selPath(t *Term, ty types.Type, path []int) *Term {
	for _, i := range path {
		s := w.sortOf(ty)
		fs := w.dtFields[s.Name]
		if fs == nil {
			return nil
		}
		t = mkSel(fmt.Sprintf("sel.%s.%d", s.Name, i), fs[i], t)
		ty = structOf(ty).Field(i).Type()
	}
	return t
}

func (w *World) updPath(t *Term, ty types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := w.sortOf(ty)
	fs := w.dtFields[s.Name]
	args := make([]*Term, len(fs))
	for i := range fs {
		args[i] = mkSel(fmt.Sprintf("sel.%s.%d", s.Name, i), fs[i], t)
	}
	i := path[0]
	args[i] = w.updPath(args[i], structOf(ty).Field(i).Type(), path[1:], v)
	return mk("mk."+s.Name, s, args...)
}

func (e *Eval) field(x *Expr) Value {
	// package constant?
	if x.X[0].Op == "id" {
		if _, ok := e.lookup(x, x.X[0].Name); !ok {
			for _, p := range e.w.prog.AllPackages() {
				if p.Pkg.Name() == x.X[0].Name {
					if c, ok := p.Pkg.Scope().Lookup(x.Name).(*types.Const); ok {
						return Value{T: constTerm(e.w, c.Val(), c.Type())}
					}
					if v, ok := p.Pkg.Scope().Lookup(x.Name).(*types.Var); ok {
						return Value{T: compOf(e.cur, "G."+p.Pkg.Name()+"."+v.Name(), e.w.sortOf(v.Type()))}
					}
				}
			}
		}
	}
	t, ts := e.typed(x.X[0])
	switch ts.Meta {
	case "ref", "struct":
		path, ty := findField(ts.Go, x.Name)
		if path == nil {
			e.fail(x, "no field %s in %s", x.Name, ts.Go)
		}
		if ts.Meta == "struct" {
			return Value{T: e.w.selPath(t, ts.Go, path), Srt: e.w.sortOf(ty)}
		}
		cn, cs := e.w.fieldComp(ts.Go, path[0])
		v := mkSelect(compOf(e.cur, cn, cs), t)
		return Value{T: e.w.selPath(v, structOf(ts.Go).Field(path[0]).Type(), path[1:]), Srt: e.w.sortOf(ty)}
	}
	e.fail(x, "field %s of %s", x.Name, ts.Name)
	return Value{}
}

func sliceRef(s *Term) *Term { return mkSel("sel.Slice.0", sInt, s) }
func sliceOff(s *Term) *Term { return mkSel("sel.Slice.1", sInt, s) }
func sliceLen(s *Term) *Term { return mkSel("sel.Slice.2", sInt, s) }
func sliceCap(s *Term) *Term { return mkSel("sel.Slice.3", sInt, s) }

func (w *World) sliceBytes(st *State, s *Term) *Term {
	m := compOf(st, "BMEM", arrSort(sInt, sBytes))
	return mkSub3(mkSelect(m, sliceRef(s)), sliceOff(s), sliceLen(s))
}

func (e *Eval) index(x *Expr) Value {
	t, ts := e.typed(x.X[0])
	i := e.term(x.X[1])
	switch {
	case t.S == sBytes:
		return Value{T: mkAt(t, i)}
	case ts.Meta == "slice":
		if isByteType(ts.Go) {
			m := compOf(e.cur, "BMEM", arrSort(sInt, sBytes))
			return Value{T: mkAt(mkSelect(m, sliceRef(t)), mkAdd(sliceOff(t), i))}
		}
		cn, cs := e.w.elemComp(ts.Go)
		return Value{T: mkSelect(mkSelect(compOf(e.cur, cn, cs), sliceRef(t)), mkAdd(sliceOff(t), i)), Srt: cs.Elem.Elem}
	case ts.Meta == "map":
		m := ts.Go.Underlying().(*types.Map)
		_, vn, _, vs := e.w.mapComps(m)
		return Value{T: mkSelect(mkSelect(compOf(e.cur, vn, vs), t), i), Srt: vs.Elem.Elem}
	case ts.Elem != nil:
		return Value{T: mkSelect(t, i), Srt: ts.Elem}
	}
	e.fail(x, "index of %s", ts.Name)
	return Value{}
}

func (e *Eval) oldEval() *Eval {
	n := *e
	n.cur = e.old
	if e.oldEnv != nil {
		n.env = e.oldEnv
	}
	if e.oldResolve != nil {
		n.resolve = e.oldResolve
	}
	return &n
}

func (e *Eval) widOf(t *Term) *Term {
	if t.S == sIface {
		return e.w.wid(t)
	}
	return t
}

func (w *World) wid(t *Term) *Term {
	if strings.HasPrefix(t.Op, "box!_bytes.Buffer") {
		return t.Args[0]
	}
	return mk("wid", sInt, t)
}

func (e *Eval) call(x *Expr) Value {
	switch x.Name {
	case "old":
		if e.old == nil {
			e.fail(x, "old() not available")
		}
		return e.oldEval().val(x.X[0])
	case "atentry":
		if e.entry == nil {
			e.fail(x, "atentry() not available")
		}
		n := *e.entry
		return n.val(x.X[0])
	case "bytes":
		return Value{T: e.w.sliceBytes(e.cur, e.term(x.X[0]))}
	case "len":
		t := e.term(x.X[0])
		if t.S == sBytes {
			return Value{T: mkBlen(t)}
		}
		return Value{T: sliceLen(t)}
	case "cap":
		return Value{T: sliceCap(e.term(x.X[0]))}
	case "ref":
		return Value{T: sliceRef(e.term(x.X[0]))}
	case "off":
		return Value{T: sliceOff(e.term(x.X[0]))}
	case "out":
		w := e.widOf(e.term(x.X[0]))
		return Value{T: mkSelect(compOf(e.cur, "OUT", arrSort(sInt, sBytes)), w)}
	case "wid":
		return Value{T: e.widOf(e.term(x.X[0]))}
	case "val":
		return Value{T: mk("get", e.w.sorts["V"], compOf(e.cur, "M", e.w.sorts["Mem"]), e.term(x.X[0]))}
	case "isfresh":
		t := e.term(x.X[0])
		if t.S.Name == "Slice" {
			t = sliceRef(t)
		}
		return Value{T: mkLe(lit(e.oldCtr), t)}
	case "valid": // allocated by now
		t := e.term(x.X[0])
		if t.S.Name == "Slice" {
			t = sliceRef(t)
		}
		return Value{T: mkAnd(mkLt(lit(0), t), mkLt(t, lit(e.cur.ctr)))}
	case "allocated": // was allocated before the call
		t := e.term(x.X[0])
		if t.S.Name == "Slice" {
			t = sliceRef(t)
		}
		return Value{T: mkLt(t, lit(e.oldCtr))}
	case "has":
		m, ms := e.typed(x.X[0])
		if ms.Meta != "map" {
			e.fail(x, "not a map")
		}
		k := e.term(x.X[1])
		dn, _, ds, _ := e.w.mapComps(ms.Go.Underlying().(*types.Map))
		return Value{T: mkSelect(mkSelect(compOf(e.cur, dn, ds), m), k)}
	case "domof", "valof":
		m, ms := e.typed(x.X[0])
		if ms.Meta != "map" {
			e.fail(x, "not a map")
		}
		dn, vn, ds, vs := e.w.mapComps(ms.Go.Underlying().(*types.Map))
		if x.Name == "domof" {
			return Value{T: mkSelect(compOf(e.cur, dn, ds), m), Srt: ds.Elem}
		}
		return Value{T: mkSelect(compOf(e.cur, vn, vs), m), Srt: vs.Elem}
	case "contents": // array contents of a slice's backing store
		t, ts := e.typed(x.X[0])
		cn, cs := e.w.elemComp(ts.Go)
		return Value{T: mkSelect(compOf(e.cur, cn, cs), sliceRef(t)), Srt: cs.Elem}
	case "comp": // whole heap component by name
		n := x.X[0].Name
		if so, ok := e.w.compSortByName(n); ok {
			return Value{T: compOf(e.cur, n, so)}
		}
		e.fail(x, "unknown component %s", n)
	case "store":
		return Value{T: mkStore(e.term(x.X[0]), e.term(x.X[1]), e.term(x.X[2]))}
	case "with":
		t, ts := e.typed(x.X[0])
		path, _ := findField(ts.Go, x.X[1].Name)
		if path == nil {
			e.fail(x, "no field %s", x.X[1].Name)
		}
		return Value{T: e.w.updPath(t, ts.Go, path, e.term(x.X[2]))}
	case "zero":
		s := e.w.specSort(x.X[0].Name)
		return Value{T: e.w.zeroOfSort(s)}
	case "tid":
		return Value{T: mk("T!"+x.X[0].Name, sRType)}
	case "box":
		t := e.term(x.X[1])
		e.w.noteBox(x.X[0].Name, t.S)
		return Value{T: mk("box!"+sani(x.X[0].Name), sIface, t)}
	case "isboxed":
		return Value{T: mkEq(mk("itype", sRType, e.term(x.X[0])), mk("T!"+x.X[1].Name, sRType))}
	case "mem": // the whole block a byte slice points into
		return Value{T: mkSelect(compOf(e.cur, "BMEM", arrSort(sInt, sBytes)), sliceRef(e.term(x.X[0])))}
	case "ncalls", "callres", "callarg", "panicked", "atcall":
		cs := e.cur
		if e.callState != nil {
			cs = e.callState
		}
		key := x.X[0].Name
		if cs.fuzzy[key] {
			e.fail(x, "calls of %s are not known after a loop", key)
		}
		if key == "bytes" || x.X[0].Op != "str" {
			e.fail(x, "%s expects a function name", x.Name)
		}
		var rs []CallRec
		for _, c := range cs.calls {
			if c.Key == key {
				rs = append(rs, c)
			}
		}
		if e.w.contracts[key] == nil {
			e.fail(x, "%s has no contract", key)
		}
		if x.Name == "ncalls" {
			return Value{T: lit(int64(len(rs)))}
		}
		i := e.term(x.X[1]).I.Int64()
		if i >= int64(len(rs)) {
			if x.Name == "panicked" {
				return Value{T: tFalse}
			}
			e.fail(x, "%s was not called", key)
		}
		if x.Name == "panicked" {
			return Value{T: boolTerm(rs[i].Panicked)}
		}
		if x.Name == "atcall" { // in the state in which the call was made
			n := *e
			n.cur, n.callState = rs[i].Pre, cs
			return n.val(x.X[2])
		}
		vs := rs[i].Args
		if x.Name == "callres" {
			vs = rs[i].Res
		}
		j := e.term(x.X[2]).I.Int64()
		if j >= int64(len(vs)) {
			e.fail(x, "%s: no such value", key)
		}
		return vs[j]
	case "divt": // Go's truncated division
		return Value{T: goDiv(e.term(x.X[0]), e.term(x.X[1]))}
	}
	f, ok := e.w.fns[x.Name]
	if !ok {
		// method-like promoted function values
		e.fail(x, "unknown function %s", x.Name)
	}
	if len(f.Params) != len(x.X) {
		e.fail(x, "%s expects %d arguments", x.Name, len(f.Params))
	}
	if f.Macro {
		n := *e
		n.env = map[string]Value{}
		n.resolve = nil
		for i, p := range f.Params {
			n.env[p.Name] = e.val(x.X[i])
		}
		n.oldEnv = n.env
		n.depth++
		return n.val(f.Body)
	}
	args := make([]*Term, len(x.X))
	ps := e.w.fnSorts[x.Name]
	for i := range x.X {
		args[i] = e.term(x.X[i])
		if args[i] == tNil {
			args[i] = nilOf(ps[i])
		}
		if args[i].S.Name != ps[i].Name {
			e.fail(x, "%s: argument %d has sort %s, want %s", x.Name, i+1, args[i].S.Name, ps[i].Name)
		}
	}
	switch x.Name {
	case "blen":
		return Value{T: mkBlen(args[0])}
	case "at":
		return Value{T: mkAt(args[0], args[1])}
	case "sub":
		return Value{T: mkSub3(args[0], args[1], args[2])}
	case "wid":
		return Value{T: e.w.wid(args[0])}
	}
	return Value{T: mk(x.Name, e.w.fnRet[x.Name], args...)}
}

func (w *World) compSortByName(n string) (*Sort, bool) {
	switch n {
	case "OUT", "BMEM":
		return arrSort(sInt, sBytes), true
	case "M":
		return w.sorts["Mem"], true
	}
	if s, ok := w.compSorts[n]; ok {
		return s, true
	}
	if j := strings.Index(n, "."); j > 0 {
		if tn, ok := w.root.Scope().Lookup(n[:j]).(*types.TypeName); ok {
			st := structOf(tn.Type())
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if st.Field(i).Name() == n[j+1:] {
					_, s := w.fieldComp(tn.Type(), i)
					return s, true
				}
			}
		}
	}
	return nil, false
}

var boxSorts = map[string]*Sort{}

func (w *World) noteBox(name string, s *Sort) { boxSorts[sani(name)] = s; boxNames[sani(name)] = name }

var boxNames = map[string]string{}

func constTerm(w *World, v constant.Value, t types.Type) *Term {
	if v == nil {
		return w.zero(t)
	}
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return strLit(constant.StringVal(v))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return mk("F!"+v.ExactString(), sFlt)
		}
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return litB(n)
	}
	return mk("F!"+sani(v.ExactString()), sFlt)
}

func (w *World) zero(t types.Type) *Term {
	switch w.typeName(t) {
	case "reflect.Value":
		return mk("rv_invalid", sRV)
	case "time.Time":
		return mk("time_zero", sTime)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch w.sortOf(t) {
		case sInt:
			return lit(0)
		case sBool:
			return tFalse
		case sBytes:
			return bEmpty
		case sFlt:
			return mk("F!0", sFlt)
		}
		return lit(0)
	case *types.Array:
		if isByteType(u.Elem()) {
			return mk("bzeros", sBytes, lit(u.Len()))
		}
		s := w.sortOf(t)
		return mk("(as const "+s.Name+")", s, w.zero(u.Elem()))
	case *types.Struct:
		s := w.sortOf(t)
		if s == sUnit {
			return mk("unit_v", sUnit)
		}
		if s == sInt {
			return lit(0)
		}
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, w.zero(u.Field(i).Type()))
		}
		return mk("mk."+s.Name, s, args...)
	case *types.Slice:
		return nilOf(w.sortOf(t))
	case *types.Interface:
		if w.sortOf(t) == sRType {
			return mk("rt_nil", sRType)
		}
		return mk("inil", sIface)
	}
	return lit(0)
}

func (w *World) zeroOfSort(s *Sort) *Term {
	if s.Go != nil && s.Meta == "struct" {
		return w.zero(s.Go)
	}
	switch s.Name {
	case "Int":
		return lit(0)
	case "Bool":
		return tFalse
	case "Bytes":
		return bEmpty
	case "Slice":
		return nilOf(s)
	}
	panic("zero of " + s.Name)
}
