package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type OblOut struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Labels []string `json:"labels,omitempty"`
	Pos    string   `json:"pos,omitempty"`
	Solver string   `json:"solver,omitempty"`
	Res    string   `json:"res"`
	Time   float64  `json:"time"`
	Trace  []string `json:"trace,omitempty"`
	Script string   `json:"script,omitempty"`
}

type FuncOut struct {
	Hash    string   `json:"hash,omitempty"` // of the solver input: equal for equal source
	Key     string   `json:"key"`
	Obls    []OblOut `json:"obls"`
	Used    []string `json:"used"`
	Inlined []string `json:"inlined"`
	Assumed []string `json:"assumed"`
	Returns int      `json:"returns"`
	Err     string   `json:"err,omitempty"`
	Wall    float64  `json:"wall"`
	Lemma   bool     `json:"lemma,omitempty"`
	Lemmas  []string `json:"lemmas,omitempty"`
}

func boolKeys(m map[string]bool) []string { return sortedKeys(m) }

func (w *World) verifyOne(key string, par int, scale float64, houdini bool) (out FuncOut) {
	t0 := time.Now()
	out.Key = key
	defer func() {
		out.Wall = time.Since(t0).Seconds()
		if r := recover(); r != nil {
			if os.Getenv("GOVER_DEBUG") != "" {
				panic(r)
			}
			out.Err = fmt.Sprintf("internal error: %v", r)
		}
	}()
	var obls []*Obl
	var smokes []*Obl
	if key == "axioms" {
		w.using, w.lemmaLimit = map[string]bool{}, 0
		out.Returns = 1
		out.Err = w.consistent()
	} else if strings.HasPrefix(key, "lemma:") {
		out.Lemma = true
		obls = w.lemmaObls(strings.TrimPrefix(key, "lemma:"))
		out.Returns = 1
	} else if strings.HasPrefix(key, "locks:") {
		parts := strings.SplitN(key, ":", 3)
		s := w.lockSpec(parts[1])
		out.Returns = 1
		if len(parts) == 2 {
			var as map[string]bool
			obls, as, out.Err = w.lockRest(s)
			out.Assumed = boolKeys(as)
		} else {
			w.using = map[string]bool{}
			feas := newFeas(w)
			defer func() { feas.in.Close(); feas.cmd.Process.Kill(); feas.cmd.Wait() }()
			ex, err := w.runLocks(s, parts[2], feas)
			out.Err = err
			if ex != nil {
				obls = ex.obls
				out.Inlined = boolKeys(ex.inlined)
			}
		}
	} else {
		w.using = map[string]bool{}
		c := w.contracts[key]
		if c == nil {
			panic("no contract")
		}
		for _, l := range c.Using {
			if a, _ := w.lemma(l); a == nil || !a.Local {
				panic("no local lemma " + l)
			}
			w.using[l] = true
		}
		w.hide = map[string]bool{}
		for _, h := range c.Hide {
			for _, p := range []string{"def.", "def1.", "syn.", "syn1.", "lemma."} {
				w.hide[p+h] = true
			}
		}
		feas := newFeas(w)
		defer func() { feas.in.Close(); feas.cmd.Process.Kill(); feas.cmd.Wait() }()
		ex, err := w.runFunc(key, feas, nil)
		if houdini && ex != nil && err == "" {
			w.discharge(ex.obls, par, scale)
			if !allProved(ex.obls) {
				ex, err = w.houdini(key, feas, par, ex)
			}
		}
		out.Err = err
		if ex != nil {
			obls = ex.obls
			out.Used = boolKeys(ex.used)
			out.Inlined = boolKeys(ex.inlined)
			out.Assumed = boolKeys(ex.assumed)
			out.Returns = ex.returns
			smokes = ex.smokes
			if err == "" && ex.returns == 0 && len(ex.c.Ensures) > 0 {
				out.Err = "no reachable return: contract would hold vacuously"
			}
		}
	}
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: %d obligations, exec %.1fs %s\n", key, len(obls), time.Since(t0).Seconds(), out.Err)
	}
	if !houdini || strings.Contains(key, ":") {
		w.discharge(obls, par, scale)
	}
	if out.Err == "" && len(smokes) > 0 && allProved(obls) {
		out.Err = w.smoke(smokes, scale)
	}
	out.Lemmas = boolKeys(w.usedLemmas)
	out.Hash = fmt.Sprintf("%x", w.hash.Sum(nil)[:6])
	for _, o := range obls {
		out.Obls = append(out.Obls, OblOut{o.Name, o.Kind, o.Labels, o.Pos, o.Done, o.Res, o.Time, o.Trace, o.Script})
	}
	return out
}

func (w *World) keysFor(prop string) []string {
	var ks []string
	for _, c := range w.spec.Contracts {
		if c.Kind != "func" || c.Trusted || c.Inline {
			continue
		}
		for _, p := range c.Props {
			if p == prop || prop == "" {
				ks = append(ks, c.Key)
				break
			}
		}
	}
	for _, a := range w.spec.Axioms {
		if !a.Lemma {
			continue
		}
		for _, p := range a.Props {
			if p == prop || prop == "" {
				ks = append(ks, "lemma:"+a.Name)
				break
			}
		}
	}
	if prop == "" {
		ks = append(ks, "axioms")
	}
	return append(ks, w.lockKeys(prop)...)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	spec := flag.String("spec", "/verif/contracts", "")
	prop := flag.String("prop", "", "property")
	fun := flag.String("func", "", "verify only these functions (comma separated)")
	worker := flag.String("worker", "", "")
	jsonOut := flag.String("json", "", "write results here")
	list := flag.Bool("list", false, "list function keys")
	par := flag.Int("par", 3, "")
	procs := flag.Int("procs", 6, "")
	houd := flag.Bool("houdini", false, "where a proof fails, try with an inductive subset of the loop invariants")
	scale := flag.Float64("scale", 1, "solver time scale")
	verbose := flag.Bool("v", false, "")
	dumpAll := flag.Bool("dumpall", false, "dump proved scripts, too (with -v)")
	dump := flag.String("dump", "", "directory for failing scripts")
	flag.Parse()
	if *worker != "" {
		w, err := loadWorld(*repo, *spec, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		out := w.verifyOne(*worker, *par, *scale, *houd)
		b, _ := json.Marshal(out)
		os.Stdout.Write(b)
		return
	}
	w, err := loadWorld(*repo, *spec, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		if *jsonOut != "" {
			b, _ := json.Marshal([]FuncOut{{Key: "load", Err: "cannot load /repo: " + err.Error()}})
			os.WriteFile(*jsonOut, b, 0644)
		}
		os.Exit(3)
	}
	if *list {
		for _, k := range sortedKeys(w.funcs) {
			fmt.Println(k)
		}
		return
	}
	keys := w.keysFor(*prop)
	if *fun != "" {
		keys = strings.Split(*fun, ",")
	}
	var outs []FuncOut
	done := map[string]bool{}
	for len(keys) > 0 {
		res := make([]FuncOut, len(keys))
		var wg sync.WaitGroup
		sem := make(chan bool, *procs)
		for i, k := range keys {
			done[k] = true
			wg.Add(1)
			sem <- true
			go func(i int, k string) {
				defer func() { <-sem; wg.Done() }()
				args := []string{"-repo", *repo, "-spec", *spec, "-worker", k, "-par", fmt.Sprint(*par), "-scale", fmt.Sprint(*scale), fmt.Sprintf("-houdini=%v", *houd)}
				cmd := exec.Command(os.Args[0], args...)
				cmd.Stderr = os.Stderr
				b, err := cmd.Output()
				var o FuncOut
				if err != nil || json.Unmarshal(b, &o) != nil {
					o = FuncOut{Key: k, Err: fmt.Sprintf("verifier process failed: %v", err)}
				}
				res[i] = o
			}(i, k)
		}
		wg.Wait()
		outs = append(outs, res...)
		// the lemmas those proofs use
		keys = nil
		for _, o := range res {
			for _, l := range o.Lemmas {
				if k := "lemma:" + l; !done[k] {
					done[k] = true
					keys = append(keys, k)
				}
			}
		}
	}
	if *jsonOut != "" {
		b, _ := json.MarshalIndent(outs, "", " ")
		os.WriteFile(*jsonOut, b, 0644)
	}
	bad := 0
	for _, o := range outs {
		p, n := 0, len(o.Obls)
		for _, x := range o.Obls {
			if x.Res == "proved" {
				p++
			}
		}
		st := "ok"
		if o.Err != "" || p < n {
			st = "FAIL"
			bad++
		}
		fmt.Printf("%-4s %-50s %d/%d returns=%d %.1fs %s\n", st, o.Key, p, n, o.Returns, o.Wall, o.Err)
		if st == "FAIL" || *verbose {
			sort.SliceStable(o.Obls, func(i, j int) bool { return o.Obls[i].Time < o.Obls[j].Time })
			shown := 0
			for i, x := range o.Obls {
				if x.Res != "proved" {
					shown++
					if shown > 12 {
						continue
					}
					fmt.Printf("     - %s (%s) %s %.1fs\n       trace %s\n", x.Name, x.Pos, x.Res, x.Time, strings.Join(x.Trace, " "))
					if *dump != "" {
						os.MkdirAll(*dump, 0755)
						os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s.%d.smt2", sani(o.Key), i)), []byte(x.Script), 0644)
					}
				} else if *dump != "" && *dumpAll {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%s.%d.ok.smt2", sani(o.Key), i)), []byte(x.Script), 0644)
				} else if *verbose && x.Time > 1 {
					fmt.Printf("     + %s (%s) %s %.1fs\n", x.Name, x.Pos, x.Solver, x.Time)
				}
			}
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
