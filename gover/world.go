package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"hash"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog         *ssa.Program
	pkgs         []*ssa.Package
	inRepo       map[*types.Package]bool
	root         *types.Package
	spec         *SpecFile
	contracts    map[string]*Contract
	fns          map[string]*FnDecl
	fnSorts      map[string][]*Sort // params
	fnRet        map[string]*Sort
	sorts        map[string]*Sort
	typeSorts    map[string]*Sort
	dts          []string // datatype declarations in order
	dtInfo       map[string]*types.Struct
	dtFields     map[string][]*Sort
	uninterp     []*Sort
	axioms       []*Axiom
	boxTypes     map[string]types.Type
	funcs        map[string]*ssa.Function
	compSorts    map[string]*Sort
	heaps        map[string]bool // components declared in contracts
	allFuncs     map[*ssa.Function]bool
	globalsEnv   map[string]bool
	constGlobals map[string]bool // "G.x": package variables only written by init
	lockComps    map[string]bool // lock mode: components that unknown code leaves alone
	using        map[string]bool
	hide         map[string]bool
	hash         hash.Hash
	lemmaLimit   int // when proving a lemma: only earlier ones are axioms
	usedLemmas   map[string]bool
}

type Axiom struct {
	Name   string
	T      *Term
	syms   map[string]bool   // all symbols
	pats   []map[string]bool // symbols per pattern
	always bool
	lemma  string // exported lemma
	local  bool   // only where it is asked for
	idx    int
}

func loadWorld(dir, specDir string, overlay map[string][]byte) (*World, error) {
	w := &World{inRepo: map[*types.Package]bool{}, contracts: map[string]*Contract{}, fns: map[string]*FnDecl{},
		fnSorts: map[string][]*Sort{}, fnRet: map[string]*Sort{}, sorts: map[string]*Sort{}, typeSorts: map[string]*Sort{},
		dtInfo: map[string]*types.Struct{}, dtFields: map[string][]*Sort{}, boxTypes: map[string]types.Type{},
		funcs: map[string]*ssa.Function{}, compSorts: map[string]*Sort{}, heaps: map[string]bool{}, globalsEnv: map[string]bool{}, lockComps: map[string]bool{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off"), Fset: token.NewFileSet()}
	pkgs, err := packages.Load(cfg, ".", "./cmd/aminoscan")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	w.pkgs = spkgs
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no ssa for %v", pkgs[i])
		}
		w.inRepo[p.Pkg] = true
		if i == 0 {
			w.root = p.Pkg
		}
		if p.Pkg.Name() == "amino" {
			w.root = p.Pkg
		}
	}
	w.allFuncs = ssautil.AllFunctions(prog)
	for f := range w.allFuncs {
		if f.Pkg != nil && w.inRepo[f.Pkg.Pkg] && f.Synthetic == "" {
			w.funcs[w.funcKey(f)] = f
		}
	}
	for _, n := range []*Sort{sInt, sBool, sBytes, sIface, sRType, sRV, sFlt, sTime, sUnit} {
		w.sorts[n.Name] = n
	}
	w.findConstGlobals()
	w.sorts["Slice"] = sSlice
	w.dts = append(w.dts, "(declare-datatypes ((Slice 0)) (((mk.Slice (sel.Slice.0 Int) (sel.Slice.1 Int) (sel.Slice.2 Int) (sel.Slice.3 Int)))))")
	w.spec = parseSpecDir(specDir)
	w.loadSpec()
	markBase()
	return w, nil
}

func (w *World) globalName(v *ssa.Global) string {
	if v.Pkg.Pkg != w.root {
		return "G." + v.Pkg.Pkg.Name() + "." + v.Name()
	}
	return "G." + v.Name()
}

// findConstGlobals: package variables of the repository that nothing but init
// writes (or takes the address of).
func (w *World) findConstGlobals() {
	w.constGlobals = map[string]bool{"G.io.EOF": true, "G.io.ErrUnexpectedEOF": true, "G.os.Args": true}
	bad := map[*ssa.Global]bool{}
	for f := range w.allFuncs {
		if f.Pkg == nil || !w.inRepo[f.Pkg.Pkg] || f.Parent() == nil && strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	for _, p := range w.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok && !bad[g] {
				w.constGlobals[w.globalName(g)] = true
			}
		}
	}
}

// funcKey: "F", "(*T).M", "(T).M", with package prefix "pkg." for non-root packages
func (w *World) funcKey(f *ssa.Function) string {
	name := f.Name()
	if f.Parent() != nil {
		return w.funcKey(f.Parent()) + "$" + name[strings.LastIndex(name, "$")+1:]
	}
	pk := ""
	if f.Pkg != nil && f.Pkg.Pkg != w.root {
		pk = f.Pkg.Pkg.Path() + "."
		if w.inRepo[f.Pkg.Pkg] {
			pk = f.Pkg.Pkg.Path()[strings.LastIndex(f.Pkg.Pkg.Path(), "/")+1:] + "."
		}
	} else if f.Pkg == nil && f.Object() != nil && f.Object().Pkg() != nil {
		pk = f.Object().Pkg().Path() + "."
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + "(" + shortRecv(r.Type()) + ")." + name
	}
	return pk + name
}

func shortRecv(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "*" + shortRecv(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (w *World) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == w.root {
			return ""
		}
		return p.Name()
	})
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func sani(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func (w *World) sortOf(t types.Type) *Sort {
	name := w.typeName(t)
	if s, ok := w.typeSorts[name]; ok {
		return s
	}
	s := w.sortOf1(t, name)
	w.typeSorts[name] = s
	return s
}

func (w *World) sortOf1(t types.Type, name string) *Sort {
	switch name {
	case "reflect.Value":
		return sRV
	case "time.Time":
		return sTime
	case "reflect.Type":
		return sRType
	case "sync.RWMutex", "sync.Mutex":
		return sInt
	case "bytes.Buffer":
		return sUnit
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return sBool
		case u.Info()&types.IsInteger != 0:
			return sInt
		case u.Info()&types.IsString != 0:
			return sBytes
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return sFlt
		case u.Kind() == types.UntypedNil:
			return sInt
		}
		return sInt
	case *types.Pointer:
		return &Sort{Name: "Int", Go: u.Elem(), Meta: "ref"}
	case *types.Slice:
		return &Sort{Name: "Slice", Go: u.Elem(), Meta: "slice"}
	case *types.Array:
		if isByteType(u.Elem()) {
			return sBytes
		}
		return arrSort(sInt, w.sortOf(u.Elem()))
	case *types.Struct:
		if u.NumFields() == 0 {
			return sUnit
		}
		dn := "St." + sani(name)
		s := &Sort{Name: dn, Go: t, Meta: "struct"}
		w.typeSorts[name] = s
		var fs []*Sort
		decl := "(declare-datatypes ((" + dn + " 0)) (((mk." + dn
		for i := 0; i < u.NumFields(); i++ {
			f := w.sortOf(u.Field(i).Type())
			fs = append(fs, f)
			decl += fmt.Sprintf(" (sel.%s.%d %s)", dn, i, f.Name)
		}
		decl += "))))"
		w.dts = append(w.dts, decl)
		w.dtInfo[dn] = u
		w.dtFields[dn] = fs
		return s
	case *types.Interface:
		return sIface
	case *types.Map:
		return &Sort{Name: "Int", Go: t, Meta: "map"}
	case *types.Signature, *types.Chan:
		return sInt
	case *types.Tuple:
		return sUnit
	}
	return sInt
}

func (w *World) elemComp(elem types.Type) (string, *Sort) {
	if isByteType(elem) {
		return "BMEM", arrSort(sInt, sBytes)
	}
	n := "MEM." + sani(w.typeName(elem))
	s := arrSort(sInt, arrSort(sInt, w.sortOf(elem)))
	return n, s
}

func structOf(t types.Type) *types.Struct {
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (w *World) fieldComp(st types.Type, i int) (string, *Sort) {
	u := structOf(st)
	n := w.typeName(st) + "." + u.Field(i).Name()
	return n, arrSort(sInt, w.sortOf(u.Field(i).Type()))
}

func (w *World) mapComps(m *types.Map) (dn, vn string, ds, vs *Sort) {
	k, v := w.sortOf(m.Key()), w.sortOf(m.Elem())
	nm := sani(w.typeName(m))
	return "DOM." + nm, "VAL." + nm, arrSort(sInt, arrSort(k, sBool)), arrSort(sInt, arrSort(k, v))
}

// ---------- integer types ----------

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, signed := intBits(b)
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(bits-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	return lo, hi, true
}

func intBits(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// ---------- spec loading ----------

func (w *World) specSort(n string) *Sort {
	if n == "" {
		return nil
	}
	if n == "[]byte" {
		return w.sortOf(types.NewSlice(types.Typ[types.Byte]))
	}
	if n[0] == '[' {
		j := strings.Index(n, "]")
		return arrSort(w.specSort(n[1:j]), w.specSort(n[j+1:]))
	}
	if s, ok := w.sorts[n]; ok {
		return s
	}
	ptr := strings.HasPrefix(n, "*")
	o := w.root.Scope().Lookup(strings.TrimPrefix(n, "*"))
	if tn, ok := o.(*types.TypeName); ok {
		if ptr {
			return w.sortOf(types.NewPointer(tn.Type()))
		}
		return w.sortOf(tn.Type())
	}
	panic("unknown sort " + n)
}

func (w *World) loadSpec() {
	for _, s := range w.spec.Sorts {
		ns := &Sort{Name: s}
		w.sorts[s] = ns
		w.uninterp = append(w.uninterp, ns)
	}
	for _, f := range w.spec.Fns {
		if w.fns[f.Name] != nil {
			panic("duplicate spec function " + f.Name + " at " + f.Pos)
		}
		w.fns[f.Name] = f
		if f.Macro {
			continue
		}
		var ps []*Sort
		for _, p := range f.Params {
			ps = append(ps, w.specSort(p.Type))
		}
		w.fnSorts[f.Name] = ps
		w.fnRet[f.Name] = w.specSort(f.Ret)
	}
	for _, c := range w.spec.Contracts {
		if w.contracts[c.Key] != nil {
			panic("duplicate contract " + c.Key)
		}
		w.contracts[c.Key] = c
	}
	for _, h := range w.spec.Heaps {
		w.heaps[h.Name] = true
		w.compSorts[h.Name] = w.specSort(h.Type)
	}
	group := map[string][]string{}
	for _, g := range w.spec.Mutual {
		for _, n := range g {
			if w.fns[n] == nil || !w.fns[n].Rec {
				panic("mutual: " + n + " is no rec function")
			}
			group[n] = g
			w.fnSorts[n+"@1"], w.fnRet[n+"@1"] = w.fnSorts[n], w.fnRet[n]
		}
	}
	ev := &Eval{w: w}
	for _, f := range w.spec.Fns {
		if f.Macro || f.Body == nil {
			continue
		}
		var vars []*Term
		env := map[string]Value{}
		for i, p := range f.Params {
			v := sym(p.Name+"?", w.fnSorts[f.Name][i])
			vars = append(vars, v)
			env[p.Name] = Value{T: v}
		}
		ev.env = env
		ev.where = f.Pos
		body := ev.term(f.Body)
		if body.S.Name != w.fnRet[f.Name].Name {
			panic(fmt.Sprintf("%s: body of %s has sort %s, want %s", f.Pos, f.Name, body.S.Name, w.fnRet[f.Name].Name))
		}
		if len(vars) == 0 {
			w.addAxiom("def."+f.Name, mkEq(mk(f.Name, w.fnRet[f.Name]), body))
			continue
		}
		if !f.Rec {
			h := mk(f.Name, w.fnRet[f.Name], vars...)
			w.addAxiom("def."+f.Name, mkForall(vars, [][]*Term{{h}}, mkEq(h, body)))
			continue
		}
		h := mk(f.Name, w.fnRet[f.Name], vars...)
		h1 := mk(f.Name+"@1", w.fnRet[f.Name], vars...)
		if g := group[f.Name]; g != nil {
			for _, n := range g {
				body = renameFn(body, n, n+"@1")
			}
			w.addAxiom("def."+f.Name, mkForall(vars, [][]*Term{{h}}, mkEq(h, body)))
			w.addAxiom("syn."+f.Name, mkForall(vars, [][]*Term{{h}}, mkEq(h, h1)))
			continue
		}
		h0 := mk(f.Name+"@0", w.fnRet[f.Name], vars...)
		for _, s := range []string{"@1", "@0"} {
			w.fnSorts[f.Name+s] = w.fnSorts[f.Name]
			w.fnRet[f.Name+s] = w.fnRet[f.Name]
		}
		w.addAxiom("def."+f.Name, mkForall(vars, [][]*Term{{h}}, mkEq(h, renameFn(body, f.Name, f.Name+"@1"))))
		w.addAxiom("def1."+f.Name, mkForall(vars, [][]*Term{{h1}}, mkEq(h1, renameFn(body, f.Name, f.Name+"@0"))))
		w.addAxiom("syn."+f.Name, mkForall(vars, [][]*Term{{h}}, mkEq(h, h1)))
		w.addAxiom("syn1."+f.Name, mkForall(vars, [][]*Term{{h1}}, mkEq(h1, h0)))
	}
	for _, a := range w.spec.Axioms {
		if a.E == nil || a.Lemma {
			continue
		}
		ev.env = map[string]Value{}
		ev.where = a.Pos
		n := a.Name
		if n == "" {
			n = a.Pos
		}
		rawBytes = true
		t := ev.term(a.E)
		rawBytes = false
		w.addAxiom(n, t)
	}
	for _, g := range w.spec.Globals {
		ev.env = map[string]Value{}
		ev.where = g.Pos
		t := ev.term(g.E)
		ok := true
		collectSyms([]*Term{t}, func(x *Term) {
			if n := strings.TrimPrefix(x.Op, "H."); strings.HasPrefix(n, "G.") && !w.constGlobals[n] && w.root.Scope().Lookup(n[2:]) != nil {
				ok = false
			}
		})
		if ok {
			w.addAxiom("global@"+g.Pos, t)
			a := w.axioms[len(w.axioms)-1]
			collectSyms([]*Term{t}, func(x *Term) {
				if strings.HasPrefix(x.Op, "H.G.") {
					a.pats = append(a.pats, map[string]bool{x.Op: true})
				}
			})
		}
	}
	w.lemmaLimit = 1 << 30
	w.hash = sha256.New()
	w.usedLemmas = map[string]bool{}
	w.exportLemmas()
	// rely on constructors for box types lazily (solver.go)
}

func renameFn(t *Term, from, to string) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.Q != nil {
			q := &Quant{Vars: t.Q.Vars, Body: f(t.Q.Body)}
			for _, p := range t.Q.Pats {
				var np []*Term
				for _, x := range p {
					np = append(np, f(x))
				}
				q.Pats = append(q.Pats, np)
			}
			r = intern(&Term{Op: t.Op, S: t.S, Q: q})
		} else if len(t.Args) > 0 {
			args := make([]*Term, len(t.Args))
			for i, a := range t.Args {
				args[i] = f(a)
			}
			op := t.Op
			if op == from {
				op = to
			}
			r = intern(&Term{Op: op, Args: args, S: t.S})
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func mkForall(vars []*Term, pats [][]*Term, body *Term) *Term {
	if len(vars) == 0 || body == tTrue {
		return body
	}
	var ok [][]*Term
	for _, p := range pats {
		good := true
		for _, t := range p {
			good = good && patternTerm(t)
		}
		if good {
			ok = append(ok, p)
		}
	}
	return intern(&Term{Op: "forall", S: sBool, Q: &Quant{Vars: vars, Body: body, Pats: ok}})
}

// patternTerm: whether solvers accept t in a trigger.
func patternTerm(t *Term) bool {
	switch t.Op {
	case "not", "and", "or", "=>", "=", "<=", "<", ">", ">=", "ite", "forall", "exists":
		return false
	}
	for _, a := range t.Args {
		if !patternTerm(a) {
			return false
		}
	}
	return true
}

func mkExists(vars []*Term, body *Term) *Term {
	return intern(&Term{Op: "exists", S: sBool, Q: &Quant{Vars: vars, Body: body}})
}

func (w *World) addAxiom(name string, t *Term) {
	w.axioms = append(w.axioms, w.mkAxiom(name, t))
}

func (w *World) mkAxiom(name string, t *Term) *Axiom {
	a := &Axiom{Name: name, T: t, syms: map[string]bool{}}
	collectSyms([]*Term{t}, func(x *Term) {
		if _, ok := w.fnRet[x.Op]; ok || strings.HasPrefix(x.Op, "G.") || strings.HasPrefix(x.Op, "T!") || strings.HasPrefix(x.Op, "box!") {
			a.syms[x.Op] = true
		}
	})
	if t.Q != nil {
		for _, p := range t.Q.Pats {
			m := map[string]bool{}
			collectSyms(p, func(x *Term) {
				if _, ok := w.fnRet[x.Op]; ok || strings.HasPrefix(x.Op, "box!") {
					m[x.Op] = true
				}
			})
			a.pats = append(a.pats, m)
		}
	}
	return a
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
