package main

import "fmt"

func (w *World) lemma(name string) (*AxiomDecl, int) {
	for i, x := range w.spec.Axioms {
		if x.Lemma && x.Name == name {
			return x, i
		}
	}
	return nil, -1
}

// lemmaStmt: requires ==> ensures of lemma a at args.
func (w *World) lemmaStmt(a *AxiomDecl, args []*Term) *Term {
	if len(args) != len(a.Params) {
		panic(specErr{a.Pos + ": wrong number of arguments for lemma " + a.Name})
	}
	ev := &Eval{w: w, env: map[string]Value{}, cur: nil, where: a.Pos}
	for i, p := range a.Params {
		if args[i].S.Name != w.specSort(p.Type).Name {
			panic(specErr{fmt.Sprintf("%s: lemma %s: argument %d has sort %s", a.Pos, a.Name, i+1, args[i].S.Name)})
		}
		ev.env[p.Name] = Value{T: args[i]}
	}
	pre, post := tTrue, tTrue
	for _, r := range a.Requires {
		pre = mkAnd(pre, ev.bool(r))
	}
	for _, e := range a.Ensures {
		post = mkAnd(post, ev.bool(e))
	}
	return mkImp(pre, post)
}

// useLemma: the instance named by a "use" expression: lemma(args), only
// lemmas declared before the one at index before, or ih(args).
func (w *World) useLemma(ev *Eval, u *Expr, self *AxiomDecl, before int) *Term {
	if u.Op != "call" {
		panic(specErr{u.Pos + ": use expects lemma(args)"})
	}
	var args []*Term
	for _, x := range u.X {
		args = append(args, ev.term(x))
	}
	if u.Name == "ih" {
		if self == nil || self.Dec == nil {
			panic(specErr{u.Pos + ": ih without decreases"})
		}
		ev2 := &Eval{w: w, env: map[string]Value{}, where: self.Pos}
		for i, p := range self.Params {
			ev2.env[p.Name] = Value{T: args[i]}
		}
		m, m2 := ev.term(self.Dec), ev2.term(self.Dec)
		return mkImp(mkAnd(mkLe(lit(0), m2), mkLt(m2, m)), w.lemmaStmt(self, args))
	}
	a, i := w.lemma(u.Name)
	if a == nil || i >= before {
		panic(specErr{u.Pos + ": no earlier lemma " + u.Name})
	}
	w.usedLemmas[u.Name] = true
	return w.lemmaStmt(a, args)
}

// lemmaObls: a lemma is proved from the axioms, its premises, the instances
// listed in "use", split by its cases.
func (w *World) lemmaObls(name string) []*Obl {
	a, idx := w.lemma(name)
	if a == nil {
		panic("no lemma " + name)
	}
	w.lemmaLimit = idx
	st := newState(w)
	ev := &Eval{w: w, env: map[string]Value{}, cur: st, where: a.Pos}
	for _, p := range a.Params {
		ev.env[p.Name] = Value{T: sym("l."+p.Name, w.specSort(p.Type))}
	}
	for _, r := range a.Requires {
		st.assume(ev.bool(r))
	}
	vac := &Obl{Kind: "vacuity", Name: "lemma " + name + ":premises", PC: st.pc[:len(st.pc):len(st.pc)], Goal: tFalse}
	for _, u := range a.Uses {
		st.assume(w.useLemma(ev, u, a, idx))
	}
	ex := &Exec{w: w, key: "lemma:" + name, c: &Contract{}, may: tFalse}
	var goals []*Term
	for _, e := range a.Ensures {
		goals = append(goals, ev.bool(e))
	}
	pos := w.root.Scope().Pos()
	add := func(s *State, tag string) {
		for i, g := range goals {
			ex.oblig(s, "lemma", fmt.Sprintf("%d%s", i+1, tag), nil, g, nil, pos)
		}
	}
	if len(a.Cases) == 0 {
		add(st, "")
	} else {
		rest := st.clone()
		for i, c := range a.Cases {
			t := ev.bool(c)
			s := st.clone()
			s.assume(t)
			add(s, fmt.Sprintf(".case%d", i+1))
			rest.assume(mkNot(t))
		}
		add(rest, ".other")
	}
	return append(ex.obls, vac)
}

// exportLemmas adds the exported lemmas as axioms.
func (w *World) exportLemmas() {
	for i, a := range w.spec.Axioms {
		if !a.Lemma || !a.Export {
			continue
		}
		ev := &Eval{w: w, env: map[string]Value{}, where: a.Pos}
		var vars []*Term
		for _, p := range a.Params {
			v := sym(p.Name+"?l", w.specSort(p.Type))
			vars = append(vars, v)
			ev.env[p.Name] = Value{T: v}
		}
		var pats [][]*Term
		for _, ps := range a.Pats {
			var ts []*Term
			for _, x := range ps {
				ts = append(ts, ev.term(x))
			}
			pats = append(pats, ts)
		}
		ax := w.mkAxiom("lemma."+a.Name, mkForall(vars, pats, w.lemmaStmt(a, vars)))
		ax.lemma, ax.idx, ax.local = a.Name, i, a.Local
		w.axioms = append(w.axioms, ax)
	}
}
