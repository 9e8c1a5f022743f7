package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

var builtinOps = map[string]bool{"and": true, "or": true, "not": true, "=>": true, "=": true, "ite": true, "+": true, "*": true, "-": true,
	"div": true, "mod": true, "<=": true, "select": true, "store": true, "true": true, "false": true, "#": true, "forall": true, "exists": true, "wrapi": true, "wrapu": true, "distinct": true}

func isBuiltin(t *Term) bool {
	return builtinOps[t.Op] || strings.HasPrefix(t.Op, "(as const") || strings.HasPrefix(t.Op, "mk.") || strings.HasPrefix(t.Op, "sel.")
}

func (w *World) preamble() string {
	var sb strings.Builder
	for _, s := range []string{"Bytes", "Iface", "RType", "RV", "Flt", "Time", "Unit"} {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	for _, s := range w.uninterp {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s.Name)
	}
	for _, d := range w.dts {
		sb.WriteString(d + "\n")
	}
	for _, b := range []uint{8, 16, 32, 64} {
		m := new(big.Int).Lsh(big.NewInt(1), b)
		h := new(big.Int).Lsh(big.NewInt(1), b-1)
		fmt.Fprintf(&sb, "(define-fun wrapu%d ((x Int)) Int (ite (and (<= 0 x) (< x %s)) x (mod x %s)))\n", b, m, m)
		fmt.Fprintf(&sb, "(define-fun wrapi%d ((x Int)) Int (ite (and (<= (- %s) x) (< x %s)) x (- (mod (+ x %s) %s) %s)))\n", b, h, h, h, m, h)
	}
	return sb.String()
}

type declSet struct {
	seen map[string]string
	out  strings.Builder
	err  string
}

// declare emits declarations for the free symbols of ts.
func (d *declSet) declare(ts []*Term) {
	bound := map[*Term]bool{}
	collectSyms(ts, func(t *Term) {
		if t.Q != nil {
			for _, v := range t.Q.Vars {
				bound[v] = true
			}
		}
	})
	type ds struct{ n, s string }
	var ds1 []ds
	collectSyms(ts, func(t *Term) {
		if isBuiltin(t) || bound[t] || t.Q != nil {
			return
		}
		sig := "("
		for i, a := range t.Args {
			if i > 0 {
				sig += " "
			}
			sig += a.S.Name
		}
		sig += ") " + t.S.Name
		if o, ok := d.seen[t.Op]; ok {
			if o != sig {
				d.err = fmt.Sprintf("symbol %s used with %s and %s", t.Op, o, sig)
			}
			return
		}
		d.seen[t.Op] = sig
		ds1 = append(ds1, ds{t.Op, sig})
	})
	sort.Slice(ds1, func(i, j int) bool { return ds1[i].n < ds1[j].n })
	for _, x := range ds1 {
		fmt.Fprintf(&d.out, "(declare-fun %s %s)\n", symName(x.n), x.s)
	}
}

func hasQuant(t *Term) bool {
	q := false
	collectSyms([]*Term{t}, func(x *Term) { q = q || x.Q != nil })
	return q
}

// ---------- feasibility ----------

type Feas struct {
	w       *World
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	decl    *declSet
	n       int
	ndt     int
	qmemo   map[*Term]bool
	Queries int
}

func newFeas(w *World) *Feas {
	f := &Feas{w: w}
	f.restart()
	return f
}

func (f *Feas) restart() {
	if f.cmd != nil {
		f.in.Close()
		f.cmd.Process.Kill()
		f.cmd.Wait()
	}
	f.cmd = exec.Command("z3-new", "-in", "-memory:2000")
	f.in, _ = f.cmd.StdinPipe()
	o, _ := f.cmd.StdoutPipe()
	f.out = bufio.NewReader(o)
	f.cmd.Stderr = nil
	if err := f.cmd.Start(); err != nil {
		panic(err)
	}
	f.stack = nil
	f.decl = &declSet{seen: map[string]string{}}
	f.qmemo = map[*Term]bool{}
	io.WriteString(f.in, "(set-option :print-success false)\n(set-option :timeout 150)\n(set-option :global-declarations true)\n"+f.w.preamble())
	f.ndt = len(f.w.dts)
}

func (f *Feas) sat(pc []*Term) bool {
	for _, t := range pc {
		if t == tFalse {
			return false
		}
	}
	if len(f.w.dts) != f.ndt {
		f.restart()
	}
	f.Queries++
	i := 0
	for i < len(pc) && i < len(f.stack) && pc[i] == f.stack[i] {
		i++
	}
	var sb strings.Builder
	if n := len(f.stack) - i; n > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", n)
	}
	f.stack = f.stack[:i]
	for ; i < len(pc); i++ {
		t := pc[i]
		f.stack = append(f.stack, t)
		sb.WriteString("(push 1)\n")
		q, ok := f.qmemo[t]
		if !ok {
			q = hasQuant(t)
			f.qmemo[t] = q
		}
		if q {
			continue
		}
		f.decl.declare([]*Term{t})
		sb.WriteString(f.decl.out.String())
		f.decl.out.Reset()
		f.n++
		p := newPrinter(fmt.Sprintf("f%d", f.n))
		p.count(t, nil)
		s := p.str(t, false)
		for _, d := range p.defs {
			sb.WriteString(d + "\n")
		}
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	sb.WriteString("(check-sat)\n")
	io.WriteString(f.in, sb.String())
	for {
		l, err := f.out.ReadString('\n')
		if err != nil {
			f.restart()
			return true
		}
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unknown", "timeout":
			return true
		case "unsat":
			return false
		}
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "feas:", l)
			}
		}
	}
}

// ---------- obligations ----------

func (w *World) extraAxioms(ts []*Term) []*Term {
	var out []*Term
	boxes := map[string]bool{}
	tids := map[string]*Term{}
	lits := map[string]bool{}
	look := func(xs []*Term) {
		collectSyms(xs, func(t *Term) {
			switch {
			case strings.HasPrefix(t.Op, "box!"):
				boxes[t.Op[4:]] = true
			case strings.HasPrefix(t.Op, "unbox!"):
				boxes[t.Op[6:]] = true
			case strings.HasPrefix(t.Op, "T!") && len(t.Args) == 0:
				tids[t.Op] = t
			case strings.HasPrefix(t.Op, "S!") && len(t.Args) == 0:
				lits[t.Op] = true
			}
		})
	}
	look(ts)
	for _, b := range sortedKeys(boxes) {
		so := boxSorts[b]
		if so == nil {
			so = sInt
		}
		x := sym("x?b", so)
		i := sym("i?b", sIface)
		bx := mk("box!"+b, sIface, x)
		ub := mk("unbox!"+b, so, i)
		tid := mk("T!"+boxNames[b], sRType)
		tids[tid.Op] = tid
		out = append(out, mkForall([]*Term{x}, [][]*Term{{bx}}, mkAnd(mkEq(mk("unbox!"+b, so, bx), x), mkEq(mk("itype", sRType, bx), tid), mkNot(mkEq(bx, mk("inil", sIface))))))
		out = append(out, mkForall([]*Term{i}, [][]*Term{{ub}}, mkImp(mkEq(mk("itype", sRType, i), tid), mkEq(mk("box!"+b, sIface, ub), i))))
		if b == "_bytes.Buffer" {
			out = append(out, mkForall([]*Term{x}, [][]*Term{{bx}}, mkEq(mk("wid", sInt, bx), x)))
		}
	}
	if len(boxes) > 0 || len(tids) > 0 {
		out = append(out, mkEq(mk("itype", sRType, mk("inil", sIface)), mk("rt_nil", sRType)))
		tids["rt_nil"] = mk("rt_nil", sRType)
	}
	if len(tids) > 1 {
		var xs []*Term
		for _, k := range sortedKeys(tids) {
			xs = append(xs, tids[k])
		}
		out = append(out, mk("distinct", sBool, xs...))
	}
	for _, l := range sortedKeys(lits) {
		s := strLits[l]
		t := mk(l, sBytes)
		out = append(out, mkEq(mk("blen", sInt, t), lit(int64(len(s)))))
		if len(s) <= 48 {
			for i := 0; i < len(s); i++ {
				out = append(out, mkEq(mk("at", sInt, t, lit(int64(i))), lit(int64(s[i]))))
			}
		}
	}
	return out
}

// bytes equalities in goal position get their extensionality instance
func extInstances(goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	collectSyms([]*Term{goal}, func(t *Term) {
		if t.Op == "=" && t.Args[0].S == sBytes && !seen[t] && !hasBound(t) {
			seen[t] = true
			a, b := sym(fmt.Sprintf("ext.a%d", len(out)), sBytes), sym(fmt.Sprintf("ext.b%d", len(out)), sBytes)
			out = append(out, mkEq(a, t.Args[0]), mkEq(b, t.Args[1]))
			i := sym("i?e", sInt)
			out = append(out, mkImp(mkAnd(mkEq(mkBlen(a), mkBlen(b)), mkForall([]*Term{i}, [][]*Term{{mk("at", sInt, a, i)}, {mk("at", sInt, b, i)}}, mkImp(mkAnd(mkLe(lit(0), i), mkLt(i, mkBlen(a))), mkEq(mk("at", sInt, a, i), mk("at", sInt, b, i))))), mkEq(a, b)))
		}
	})
	return out
}

// unfolded: a copy of a quantified fact that triggers on, and speaks of, the
// recursive functions of its triggers where these are unfolded once.
func (w *World) unfolded(t *Term) *Term {
	if t.Op != "forall" || len(t.Q.Pats) == 0 {
		return t
	}
	var fs []string
	for _, p := range t.Q.Pats {
		collectSyms(p, func(x *Term) {
			if _, ok := w.fnRet[x.Op+"@1"]; ok {
				fs = append(fs, x.Op)
			}
		})
	}
	for _, f := range fs {
		t = renameFn(t, f, f+"@1")
	}
	return t
}

func hasBound(t *Term) bool {
	r := false
	collectSyms([]*Term{t}, func(x *Term) {
		if len(x.Args) == 0 && strings.Contains(x.Op, "?") && x.Op != "?" {
			r = true
		}
	})
	return r
}

func (w *World) script(o *Obl) (string, string) {
	ts := append([]*Term{}, o.PC...)
	for _, t := range o.PC {
		if u := w.unfolded(t); u != t {
			ts = append(ts, u)
		}
	}
	ts = append(ts, mkNot(o.Goal))
	ts = append(ts, extInstances(o.Goal)...)
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !isBuiltin(t) {
			syms[t.Op] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		if t.Q != nil {
			walk(t.Q.Body)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	used := map[int]bool{}
	var ax []*Term
	for {
		ch := false
		for i, a := range w.axioms {
			if used[i] || a.lemma != "" && a.idx >= w.lemmaLimit || a.local && !w.using[a.lemma] || w.hide[a.Name] {
				continue
			}
			ok := false
			if len(a.pats) > 0 {
				for _, p := range a.pats {
					all := true
					for s := range p {
						all = all && syms[s]
					}
					if all {
						ok = true
						break
					}
				}
			} else {
				ok = true
				for s := range a.syms {
					ok = ok && syms[s]
				}
			}
			if ok {
				used[i] = true
				ax = append(ax, a.T)
				if a.lemma != "" {
					w.usedLemmas[a.lemma] = true
				}
				walk(a.T)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	extra := w.extraAxioms(append(append([]*Term{}, ts...), ax...))
	for _, t := range extra {
		walk(t)
	}
	ax = append(ax, extra...)
	d := &declSet{seen: map[string]string{}}
	d.declare(append(append([]*Term{}, ts...), ax...))
	var sb strings.Builder
	sb.WriteString(w.preamble())
	sb.WriteString(d.out.String())
	pr := newPrinter("ax")
	for _, t := range ax {
		fmt.Fprintf(&sb, "(assert %s)\n", pr.str(t, true))
	}
	p := newPrinter("")
	for _, t := range ts {
		p.count(t, nil)
	}
	for _, t := range ts {
		s := p.str(t, false)
		for _, d := range p.defs {
			sb.WriteString(d + "\n")
		}
		p.defs = nil
		fmt.Fprintf(&sb, "(assert %s)\n", s)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String(), d.err
}

type solverCfg struct {
	name string
	pre  string
	args []string
	secs float64
}

const noMbqi = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"

// tried in this order; seconds before scaling
var solvers = []solverCfg{
	{"z3-new", noMbqi, []string{"z3-new", "-in"}, 5},
	{"z3-new/1", noMbqi + "(set-option :smt.random_seed 1)\n", []string{"z3-new", "-in"}, 8},
	{"z3", noMbqi + "(set-option :smt.case_split 3)\n", []string{"z3", "-in"}, 8},
	{"z3-new/3", noMbqi + "(set-option :smt.random_seed 3)\n", []string{"z3-new", "-in"}, 10},
	{"cvc5", "(set-logic ALL)\n", []string{"cvc5", "--lang=smt2", "-"}, 6},
	{"z3-new/mbqi", "", []string{"z3-new", "-in"}, 6},
}

func runSolver(s solverCfg, script string, d time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), d)
	defer cancel()
	args := append([]string{}, s.args[1:]...)
	if strings.HasPrefix(s.name, "z3") {
		args = append(args, fmt.Sprintf("-T:%d", int(d.Seconds())+1), "-memory:3000")
	} else {
		args = append([]string{fmt.Sprintf("--tlimit=%d", d.Milliseconds())}, args...)
	}
	cmd := exec.CommandContext(ctx, s.args[0], args...)
	cmd.Stdin = strings.NewReader(s.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	r := strings.TrimSpace(out.String())
	if j := strings.Index(r, "\n"); j >= 0 && !strings.HasPrefix(r, "(error") {
		r = r[:j]
	}
	if len(r) > 400 {
		r = r[:400]
	}
	if r == "" {
		r = "timeout"
	}
	return r
}

// groups: obligations of one kind at the same point of the same path are tried together first.
func groups(obls []*Obl) [][]*Obl {
	if os.Getenv("GOVER_KEEP") != "" {
		return nil
	}
	var r [][]*Obl
	var cur []*Obl
	last := ""
	flush := func() {
		if len(cur) > 1 {
			r = append(r, cur)
		}
		cur, last = nil, ""
	}
	for _, o := range obls {
		if o.Done != "" {
			continue
		}
		if o.InvKey != "" || o.Kind != "post" && o.Kind != "frame" && o.Kind != "pre" {
			flush()
			continue
		}
		k := o.Name
		if o.Kind == "frame" {
			k = "frame"
		}
		k += "|" + o.Pos + "|" + strings.Join(o.Trace, " ")
		if k != last || len(cur) >= 40 {
			flush()
			last = k
		}
		cur = append(cur, o)
	}
	flush()
	return r
}

// joint: what they have in common is assumed, the rest is part of the goal.
func joint(g []*Obl) *Obl {
	n := len(g[0].PC)
	for _, o := range g[1:] {
		i := 0
		for i < n && i < len(o.PC) && o.PC[i] == g[0].PC[i] {
			i++
		}
		n = i
	}
	var goals []*Term
	for _, o := range g {
		goals = append(goals, mkImp(mkAnd(o.PC[n:]...), o.Goal))
	}
	return &Obl{PC: g[0].PC[:n], Goal: mkAnd(goals...)}
}

// discharge runs the obligations of one function; stops early after failures.
func (w *World) discharge(obls []*Obl, par int, scale float64) {
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	var mu sync.Mutex
	fails := 0
	for _, g := range groups(obls) {
		script, serr := w.script(joint(g))
		if serr != "" {
			continue
		}
		w.hash.Write([]byte(script))
		wg.Add(1)
		sem <- true
		go func(g []*Obl) {
			defer func() { <-sem; wg.Done() }()
			t0 := time.Now()
			if runSolver(solvers[0], script, 3*time.Second) == "unsat" {
				for _, o := range g {
					o.Done, o.Res, o.Time = solvers[0].name, "proved", time.Since(t0).Seconds()/float64(len(g))
				}
			}
		}(g)
	}
	wg.Wait()
	for _, o := range obls {
		if o.Done != "" {
			continue
		}
		if o.Kind == "unsupported" {
			if o.Res == "" {
				o.Res = "failed"
			}
			// may still be on an infeasible path
		}
		var serr string
		o.Script, serr = w.script(o)
		w.hash.Write([]byte(o.Script))
		if serr != "" {
			o.Res = "error: " + serr
			continue
		}
		wg.Add(1)
		sem <- true
		go func(o *Obl) {
			defer func() { <-sem; wg.Done() }()
			t0 := time.Now()
			mu.Lock()
			nf := fails
			mu.Unlock()
			var outs []string
			for i, s := range solvers {
				d := time.Duration(s.secs * scale * float64(time.Second))
				if o.InvKey != "" {
					if i > 0 {
						break
					}
					d = 4 * time.Second
				} else if nf >= 2 {
					if i > 0 {
						break
					}
					d = 3 * time.Second
				}
				if o.Kind == "unsupported" && i > 0 {
					break
				}
				if o.Kind == "vacuity" {
					d = 2 * time.Second
					if i > 0 {
						break
					}
				}
				r := runSolver(s, o.Script, d)
				outs = append(outs, s.name+": "+r)
				if r == "unsat" {
					o.Done, o.Res = s.name, "proved"
					break
				}
				if r == "sat" && !strings.Contains(o.Script, "forall") {
					break
				}
			}
			o.Time = time.Since(t0).Seconds()
			if o.Kind == "vacuity" {
				if o.Done != "" {
					o.Res = "vacuous precondition"
					o.Done = ""
				} else {
					o.Done, o.Res = "z3-new", "proved"
				}
			}
			if o.Done == "" {
				if o.Res == "" || o.Kind == "unsupported" {
					o.Res = "failed: " + strings.Join(outs, "; ")
				}
				mu.Lock()
				fails++
				mu.Unlock()
			} else if os.Getenv("GOVER_KEEP") == "" {
				o.Script = ""
			}
		}(o)
	}
	wg.Wait()
}

func allProved(obls []*Obl) bool {
	for _, o := range obls {
		if o.Res != "proved" {
			return false
		}
	}
	return true
}

// smoke: some return of the function must not be provably unreachable, or
// its contract, those of its callees and the axioms contradict one another.
func (w *World) smoke(rets []*Obl, scale float64) string {
	for _, o := range rets {
		script, serr := w.script(o)
		if serr != "" {
			return serr
		}
		if runSolver(solvers[0], script, 2*time.Second) == "unsat" {
			continue
		}
		if scale >= 3 && runSolver(solvers[len(solvers)-1], script, 4*time.Second) == "unsat" {
			continue
		}
		return ""
	}
	return "every return is provably unreachable: contradictory assumptions"
}

// consistent: no contradiction is found in all the axioms together.
func (w *World) consistent() string {
	var ts []*Term
	for _, a := range w.axioms {
		if a.lemma == "" {
			ts = append(ts, a.T)
		}
	}
	script, serr := w.script(&Obl{PC: ts, Goal: tFalse})
	if serr != "" {
		return serr
	}
	w.hash.Write([]byte(script))
	for _, s := range solvers {
		if runSolver(s, script, 20*time.Second) == "unsat" {
			return "the axioms are contradictory (" + s.name + ")"
		}
	}
	return ""
}

// houdini: where the proof as written fails, look for a subset of all the
// invariants and candidates that is inductive, and prove the rest from it.
func (w *World) houdini(key string, feas *Feas, par int, was *Exec) (*Exec, string) {
	drop := map[string]bool{}
	for round := 0; round < 8; round++ {
		ex, err := w.runFunc(key, feas, drop)
		if err != "" {
			return was, ""
		}
		var invs, rest []*Obl
		for _, o := range ex.obls {
			if o.InvKey != "" {
				invs = append(invs, o)
			} else {
				rest = append(rest, o)
			}
		}
		w.discharge(invs, par, 1)
		n := len(drop)
		for _, o := range invs {
			if o.Res != "proved" {
				drop[o.InvKey] = true
			}
		}
		if len(drop) > n {
			continue
		}
		w.discharge(rest, par, 1)
		if allProved(rest) {
			return ex, ""
		}
		return was, ""
	}
	return was, ""
}
