package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// C is the context of one evaluation.
type C struct {
	*G
	prop  string
	idx   int
	desc  []string
	key   string
	extra []string
	tmp   string
	found map[string]string
}

// known records that the finding id, a defect of the code under test which is
// recorded rather than repaired, was observed.
func (c *C) known(id, f string, a ...interface{}) {
	if c.found == nil {
		c.found = map[string]string{}
	}
	c.found[id] = fmt.Sprintf(f, a...)
}

type failure struct{ msg string }

func (c *C) failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }
func (c *C) note(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	c.desc = append(c.desc, s)
}

// distinct marks the evaluation as non-trivial with the given identity.
func (c *C) distinct(parts ...interface{}) { c.key = fmt.Sprint(parts...) }

// try runs f and returns its panic value, if any.
func try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			p = r
		}
	}()
	f()
	return nil
}

type check struct {
	name string
	run  func(*C)
	n    int // quick evaluations per worker set
}

var props = map[string][]check{}

type Violation struct {
	Prop  string   `json:"property"`
	Check string   `json:"check"`
	Seed  int64    `json:"seed"`
	Idx   int      `json:"index"`
	Msg   string   `json:"message"`
	Desc  []string `json:"input"`
	Stack string   `json:"stack,omitempty"`
}

type Result struct {
	Evals      int               `json:"evaluations"`
	Distinct   int               `json:"distinct_nontrivial"`
	Keys       []uint64          `json:"keys,omitempty"`
	Samples    []string          `json:"samples"`
	Violations []Violation       `json:"violations"`
	PerCheck   map[string]int    `json:"per_check"`
	Known      map[string]string `json:"known,omitempty"`
}

func runOne(prop string, ch check, seed int64, idx int) (c *C, v *Violation) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", prop, ch.name, seed, idx)
	r := rand.New(rand.NewSource(int64(h.Sum64())))
	c = &C{G: &G{r: r, size: 3, ref: theRef}, prop: prop, idx: idx, tmp: tmpDir}
	defer func() {
		if p := recover(); p != nil {
			v = &Violation{Prop: prop, Check: ch.name, Seed: seed, Idx: idx, Desc: c.desc}
			if f, ok := p.(failure); ok {
				v.Msg = f.msg
			} else {
				v.Msg = fmt.Sprintf("panic: %v", p)
				v.Stack = string(debug.Stack())
			}
		}
	}()
	ch.run(c)
	return
}

var tmpDir string

func worker(prop string, seed int64, k, of int, scale float64, budget time.Duration, only string) {
	var lim syscall.Rlimit
	lim.Cur, lim.Max = 12<<30, 12<<30
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	debug.SetMemoryLimit(1 << 30)
	status, _ := os.OpenFile(filepath.Join(tmpDir, fmt.Sprintf("status%d", k)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0600)
	start := time.Now()
	res := Result{PerCheck: map[string]int{}, Known: map[string]string{}}
	seen := map[uint64]bool{}
	checks := props[prop]
	for ci, ch := range checks {
		if only != "" && only != ch.name {
			continue
		}
		n := int(float64(ch.n) * scale)
		if n < of {
			n = of
		}
		limit := time.Duration(float64(budget) * float64(ci+1) / float64(len(checks)))
		bad := 0
		for i := k; i < n; i += of {
			if time.Since(start) > limit || bad >= 3 {
				break
			}
			status.WriteAt([]byte(fmt.Sprintf("%-40s %12d\n", ch.name, i)), 0)
			c, v := runOne(prop, ch, seed, i)
			res.Evals++
			res.PerCheck[ch.name]++
			for id, m := range c.found {
				res.Known[id] = m
			}
			if v != nil {
				bad++
				res.Violations = append(res.Violations, *v)
				continue
			}
			if c.key != "" {
				h := fnv.New64a()
				h.Write([]byte(ch.name + c.key))
				if s := h.Sum64(); !seen[s] {
					seen[s] = true
					if len(res.Samples) < 3 && len(c.desc) > 0 {
						s := strings.Join(c.desc, "; ")
						if len(s) > 400 {
							s = s[:400] + "..."
						}
						res.Samples = append(res.Samples, ch.name+": "+s)
					}
				}
			}
		}
	}
	for s := range seen {
		res.Keys = append(res.Keys, s)
	}
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(tmpDir, fmt.Sprintf("result%d", k)), b, 0600)
}

func readStatus(k int) (string, int) {
	b, err := os.ReadFile(filepath.Join(tmpDir, fmt.Sprintf("status%d", k)))
	if err != nil {
		return "", -1
	}
	var name string
	idx := -1
	fmt.Sscan(string(b), &name, &idx)
	return name, idx
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	scale := flag.Float64("scale", 1, "scale of the number of evaluations")
	budget := flag.Duration("budget", 40*time.Second, "time budget")
	wk := flag.Int("worker", -1, "")
	of := flag.Int("of", 8, "workers")
	tmp := flag.String("tmp", "", "scratch directory")
	replay := flag.String("replay", "", "replay file")
	one := flag.String("one", "", "check to run once")
	idx := flag.Int("idx", 0, "index for -one")
	only := flag.String("only", "", "only this check")
	flag.Parse()
	tmpDir = *tmp
	setup()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		var v Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		*prop, *one, *idx, *seed = v.Prop, v.Check, v.Idx, v.Seed
	}
	if *one != "" {
		for _, ch := range props[*prop] {
			if ch.name == *one {
				c, v := runOne(*prop, ch, *seed, *idx)
				if v != nil {
					b, _ := json.MarshalIndent(v, "", " ")
					fmt.Println(string(b))
					os.Exit(1)
				}
				fmt.Println("holds:", strings.Join(c.desc, "\n"))
				return
			}
		}
		fmt.Println("no such check")
		os.Exit(2)
	}
	if *wk >= 0 {
		worker(*prop, *seed, *wk, *of, *scale, *budget, *only)
		return
	}
	if tmpDir == "" {
		tmpDir, _ = os.MkdirTemp("", "vh")
		defer os.RemoveAll(tmpDir)
	}
	if len(props[*prop]) == 0 {
		fmt.Println(`{"evaluations":0,"distinct_nontrivial":0,"samples":[],"violations":[]}`)
		return
	}
	total := Result{PerCheck: map[string]int{}, Known: map[string]string{}}
	keys := map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < *of; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			args := []string{"-prop", *prop, "-seed", fmt.Sprint(*seed), "-scale", fmt.Sprint(*scale), "-budget", budget.String(),
				"-worker", fmt.Sprint(k), "-of", fmt.Sprint(*of), "-tmp", tmpDir, "-only", *only, "-aminoscan", *scanBin}
			cmd := exec.Command(os.Args[0], args...)
			errf, _ := os.Create(filepath.Join(tmpDir, fmt.Sprintf("stderr%d", k)))
			cmd.Stderr = errf
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=4")
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			hang := ""
			lastN, lastI, lastT := "", -2, time.Now()
		loop:
			for {
				select {
				case err = <-done:
					break loop
				case <-time.After(500 * time.Millisecond):
					n, i := readStatus(k)
					if n != lastN || i != lastI {
						lastN, lastI, lastT = n, i, time.Now()
					} else if time.Since(lastT) > 30*time.Second {
						hang = "does not terminate (30 s)"
						cmd.Process.Signal(syscall.SIGQUIT)
						time.Sleep(500 * time.Millisecond)
						cmd.Process.Kill()
						err = <-done
						break loop
					}
				}
			}
			mu.Lock()
			defer mu.Unlock()
			var r Result
			b, rerr := os.ReadFile(filepath.Join(tmpDir, fmt.Sprintf("result%d", k)))
			if rerr == nil && err == nil {
				json.Unmarshal(b, &r)
			} else {
				n, i := readStatus(k)
				eb, _ := os.ReadFile(filepath.Join(tmpDir, fmt.Sprintf("stderr%d", k)))
				s := string(eb)
				if len(s) > 6000 {
					s = s[:6000]
				}
				msg := hang
				if msg == "" {
					msg = fmt.Sprintf("the process died: %v", err)
				}
				r.Violations = append(r.Violations, Violation{Prop: *prop, Check: n, Seed: *seed, Idx: i, Msg: msg, Stack: s})
			}
			total.Evals += r.Evals
			for n, x := range r.PerCheck {
				total.PerCheck[n] += x
			}
			for id, m := range r.Known {
				total.Known[id] = m
			}
			for _, s := range r.Keys {
				keys[s] = true
			}
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			total.Violations = append(total.Violations, r.Violations...)
		}(k)
	}
	wg.Wait()
	total.Distinct = len(keys)
	sort.SliceStable(total.Violations, func(i, j int) bool { return total.Violations[i].Idx < total.Violations[j].Idx })
	if len(total.Violations) > 8 {
		total.Violations = total.Violations[:8]
	}
	b, _ := json.MarshalIndent(total, "", " ")
	fmt.Println(string(b))
	if len(total.Violations) > 0 {
		os.RemoveAll(tmpDir)
		os.Exit(1)
	}
}

func init() { runtime.GOMAXPROCS(4) }
