package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------- AST ----------

type Expr struct {
	Op   string // "id","int","str","call","field","index","slice","un","bin","ite","forall","exists","let"
	Name string
	Int  *big.Int
	X    []*Expr
	Vars []Param
	Pats [][]*Expr
	Pos  string
}

type Param struct {
	Name string
	Type string
}

type Clause struct {
	Labels []string // properties
	Name   string
	E      *Expr
	When   *Expr
	E2     *Expr // for "maypanic when", "modifies": target
	Pos    string
}

type LoopSpec struct {
	Ord    string
	Inv    []Clause
	Cand   []Clause // candidates, tried when the proof with Inv fails
	Dec    *Expr
	Unroll int
}

type Contract struct {
	Kind     string // "func" or "extern"
	Key      string // e.g. "EncodeTime" , "(*Codec).encodeReflectBinary", "reflect.(Value).Kind"
	Params   []string
	Results  []string
	Requires []Clause
	Ensures  []Clause
	MayPanic []Clause
	OnPanic  []Clause
	Atomic   bool // a panic leaves everything as it was
	Modifies []string
	Frozen   []string
	Loops    map[string]*LoopSpec
	Lets     []Clause
	Ghost    []Clause
	Props    []string
	Pure     bool
	Trusted  bool     // body not verified (listed as assumption)
	Using    []string // local lemmas to use
	Hide     []string // definitions and lemmas that are not needed
	Inline   bool     // no contract at call sites; only loop specifications
	NoPanic  bool
	Opaque   []string
	Pos      string
	Unfold   int
	Dec      []*Expr // measure, lexicographic ("decreases [L] a, b when cond" before the loops): falls with every call back into the recursion
	DecWhen  Clause
	Variant  string   // externs are called under their contract KEY#Variant, if there is one
	Uses     []*Expr  // lemma instances available from entry on ("use")
	RetUses  []*Expr  // lemma instances available when the postconditions are proved ("useret")
	Entry    []Clause // assumptions about entry ("assume"), listed as trusted
	AtExit   []Clause // ghost assignments at a normal return ("atexit COMP(index) = value when cond"), listed as trusted
}

type FnDecl struct {
	Name   string
	Params []Param
	Ret    string
	Body   *Expr
	Rec    bool
	Macro  bool
	Pos    string
}

type AxiomDecl struct {
	Name              string
	E                 *Expr
	Lemma             bool
	Props             []string
	Requires, Ensures []*Expr
	Params            []Param
	Uses              []*Expr // instances asserted when proving
	Pos               string
	Cases             []*Expr
	Dec               *Expr     // measure for ih(...)
	Pats              [][]*Expr // exported with these triggers
	Export            bool
	Local             bool
}

type SpecFile struct {
	Sorts     []string
	Fns       []*FnDecl
	Axioms    []*AxiomDecl
	Contracts []*Contract
	Consts    map[string]string
	Globals   []Clause
	Locks     []*LockSpec
	Heaps     []Param
	Mutual    [][]string
	Order     []interface{}
}

// ---------- lexer ----------

type tok struct {
	k    string // "id","int","str","op","eof"
	s    string
	line int
}

type parser struct {
	toks []tok
	p    int
	file string
}

func lexSpec(file, src string) []tok {
	var ts []tok
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "<=>", "==", "!=", "<=", ">=", "&&", "||", "++", "::", ":="}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(src) && src[i+1] == '/':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"' || c == '`':
			j := i + 1
			var sb strings.Builder
			for src[j] != c {
				if c == '"' && src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						sb.WriteByte('\n')
					case 'x':
						var v int
						fmt.Sscanf(src[j+1:j+3], "%x", &v)
						sb.WriteByte(byte(v))
						j += 2
					default:
						sb.WriteByte(src[j])
					}
					j++
					continue
				}
				sb.WriteByte(src[j])
				j++
			}
			ts = append(ts, tok{"str", sb.String(), line})
			i = j + 1
		case unicode.IsDigit(rune(c)):
			j := i
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_') {
				j++
			}
			ts = append(ts, tok{"int", src[i:j], line})
			i = j
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$' || c == '#' || c == '@':
			j := i + 1
			for j < len(src) && (unicode.IsDigit(rune(src[j])) || unicode.IsLetter(rune(src[j])) || src[j] == '_' || src[j] == '$' || src[j] == '\'' || src[j] == '!') {
				if src[j] == '!' && j+1 < len(src) && src[j+1] == '=' {
					break
				}
				j++
			}
			ts = append(ts, tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					ts = append(ts, tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				ts = append(ts, tok{"op", string(c), line})
				i++
			}
		}
	}
	return append(ts, tok{"eof", "", line})
}

func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) fail(msg string) {
	t := p.peek()
	panic(fmt.Sprintf("%s:%d: %s (at %q)", p.file, t.line, msg, t.s))
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected " + s)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}
func (p *parser) pos() string { return fmt.Sprintf("%s:%d", filepath.Base(p.file), p.peek().line) }

// ---------- expressions ----------

var binPrec = map[string]int{
	"<==>": 1, "<=>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8,
}

func (p *parser) expr() *Expr {
	e := p.binary(1)
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &Expr{Op: "ite", X: []*Expr{e, a, b}, Pos: e.Pos}
	}
	return e
}

func (p *parser) binary(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := binPrec[t.s]
		if t.k != "op" || !ok || pr < min {
			return l
		}
		p.p++
		var r *Expr
		if t.s == "==>" || t.s == "++" {
			r = p.binary(pr)
		} else {
			r = p.binary(pr + 1)
		}
		// allow conditional as right operand of ==>
		if pr <= 2 && p.is("?") {
			p.p++
			a := p.expr()
			p.expect(":")
			b := p.expr()
			r = &Expr{Op: "ite", X: []*Expr{r, a, b}, Pos: r.Pos}
		}
		// chained comparisons
		if pr == 5 && l.Op == "bin" && binPrec[l.Name] == 5 && (t.s == "<" || t.s == "<=") && (l.Name == "<" || l.Name == "<=") {
			r2 := &Expr{Op: "bin", Name: t.s, X: []*Expr{l.X[1], r}, Pos: l.Pos}
			l = &Expr{Op: "bin", Name: "&&", X: []*Expr{l, r2}, Pos: l.Pos}
			continue
		}
		l = &Expr{Op: "bin", Name: t.s, X: []*Expr{l, r}, Pos: l.Pos}
	}
}

func (p *parser) unary() *Expr {
	pos := p.pos()
	if p.accept("!") {
		return &Expr{Op: "un", Name: "!", X: []*Expr{p.unary()}, Pos: pos}
	}
	if p.accept("-") {
		return &Expr{Op: "un", Name: "-", X: []*Expr{p.unary()}, Pos: pos}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		pos := p.pos()
		switch {
		case p.accept("."):
			e = &Expr{Op: "field", Name: p.ident(), X: []*Expr{e}, Pos: pos}
		case p.is("("):
			if e.Op != "id" {
				return e
			}
			p.p++
			var args []*Expr
			for !p.is(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = &Expr{Op: "call", Name: e.Name, X: args, Pos: pos}
		case p.accept("["):
			i := p.expr()
			if p.accept(":") {
				j := p.expr()
				p.expect("]")
				e = &Expr{Op: "slice", X: []*Expr{e, i, j}, Pos: pos}
			} else {
				p.expect("]")
				e = &Expr{Op: "index", X: []*Expr{e, i}, Pos: pos}
			}
		default:
			return e
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	pos := fmt.Sprintf("%s:%d", filepath.Base(p.file), t.line)
	switch t.k {
	case "int":
		s := strings.ReplaceAll(t.s, "_", "")
		n := new(big.Int)
		if _, ok := n.SetString(s, 0); !ok {
			p.fail("bad int " + s)
		}
		return &Expr{Op: "int", Int: n, Pos: pos}
	case "str":
		return &Expr{Op: "str", Name: t.s, Pos: pos}
	case "id":
		switch t.s {
		case "forall", "exists":
			vs := p.params()
			var pats [][]*Expr
			for p.accept("{") {
				var ps []*Expr
				for {
					ps = append(ps, p.expr())
					if !p.accept(",") {
						break
					}
				}
				p.expect("}")
				pats = append(pats, ps)
			}
			p.expect("::")
			b := p.expr()
			return &Expr{Op: t.s, Vars: vs, Pats: pats, X: []*Expr{b}, Pos: pos}
		case "let":
			n := p.ident()
			p.expect(":=")
			v := p.expr()
			p.expect("in")
			b := p.expr()
			return &Expr{Op: "let", Name: n, X: []*Expr{v, b}, Pos: pos}
		case "if":
			c := p.expr()
			p.expect("then")
			a := p.expr()
			p.expect("else")
			b := p.expr()
			return &Expr{Op: "ite", X: []*Expr{c, a, b}, Pos: pos}
		}
		return &Expr{Op: "id", Name: t.s, Pos: pos}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	p.p--
	p.fail("unexpected token")
	return nil
}

func (p *parser) params() []Param {
	p.expect("(")
	var ps []Param
	for !p.is(")") {
		n := p.ident()
		ty := ""
		if p.accept(":") {
			ty = p.typ()
		}
		ps = append(ps, Param{n, ty})
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	// propagate types backwards (x, y: Int)
	for i := len(ps) - 2; i >= 0; i-- {
		if ps[i].Type == "" {
			ps[i].Type = ps[i+1].Type
		}
	}
	return ps
}

func (p *parser) typ() string {
	if p.accept("[") {
		if p.accept("]") {
			return "[]" + p.ident()
		}
		k := p.typ()
		p.expect("]")
		e := p.typ()
		return "[" + k + "]" + e
	}
	if p.accept("*") {
		return "*" + p.ident()
	}
	return p.ident()
}

func (p *parser) names() []string {
	p.expect("(")
	var ns []string
	for !p.is(")") {
		ns = append(ns, p.ident())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return ns
}

func (p *parser) clause() Clause {
	c := Clause{Pos: p.pos()}
	if p.accept("[") {
		for !p.is("]") && !p.is(":") {
			c.Labels = append(c.Labels, p.ident())
			p.accept(",")
		}
		if p.accept(":") {
			c.Name = p.ident()
		}
		p.expect("]")
	}
	c.E = p.expr()
	return c
}

func parseSpec(file string, sf *SpecFile) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	p := &parser{toks: lexSpec(file, string(src)), file: file}
	for p.peek().k != "eof" {
		pos := p.pos()
		switch kw := p.ident(); kw {
		case "sort":
			sf.Sorts = append(sf.Sorts, p.ident())
		case "heap": // heap NAME: [Int]S, a component of the heap only contracts speak of
			n := p.ident()
			p.expect(":")
			sf.Heaps = append(sf.Heaps, Param{Name: n, Type: p.typ()})
		case "mutual": // rec functions that are unfolded together
			g := []string{p.ident()}
			for p.accept(",") {
				g = append(g, p.ident())
			}
			sf.Mutual = append(sf.Mutual, g)
		case "const":
			n := p.ident()
			p.expect("=")
			f := &FnDecl{Name: n, Ret: "", Body: p.expr(), Macro: true, Pos: pos}
			sf.Fns = append(sf.Fns, f)
		case "fn", "def", "rec", "macro":
			f := &FnDecl{Pos: pos}
			f.Name = p.ident()
			if p.is("(") {
				f.Params = p.params()
			}
			if p.accept(":") {
				f.Ret = p.typ()
			}
			if kw != "fn" {
				p.expect("=")
				f.Body = p.expr()
			}
			f.Rec = kw == "rec"
			f.Macro = kw == "macro"
			sf.Fns = append(sf.Fns, f)
		case "axiom":
			a := &AxiomDecl{Pos: pos}
			if p.peek().k == "id" && p.toks[p.p+1].s == ":" {
				a.Name = p.ident()
				p.expect(":")
			}
			a.E = p.expr()
			sf.Axioms = append(sf.Axioms, a)
		case "lemma":
			a := &AxiomDecl{Pos: pos, Lemma: true}
			if p.accept("[") {
				for !p.accept("]") {
					a.Props = append(a.Props, p.ident())
					p.accept(",")
				}
			}
			a.Name = p.ident()
			if p.is("(") {
				a.Params = p.params()
			}
		loop:
			for {
				switch {
				case p.accept("requires"):
					a.Requires = append(a.Requires, p.expr())
				case p.accept("ensures"):
					a.Ensures = append(a.Ensures, p.expr())
				case p.accept("use"):
					a.Uses = append(a.Uses, p.expr())
				case p.accept("case"):
					a.Cases = append(a.Cases, p.expr())
				case p.accept("decreases"):
					a.Dec = p.expr()
				case p.accept("export"): // usable as an axiom with these triggers
					a.Export = true
					a.Local = p.accept("local") // only where a contract says "using"
					for p.accept("{") {
						ps := []*Expr{p.expr()}
						for p.accept(",") {
							ps = append(ps, p.expr())
						}
						p.expect("}")
						a.Pats = append(a.Pats, ps)
					}
				default:
					break loop
				}
			}
			sf.Axioms = append(sf.Axioms, a)
		case "locks": // locks C17 Codec shared TypeInfo nonempty trusted "..."
			l := &LockSpec{Pos: pos, Prop: p.ident(), Struct: p.ident()}
			for {
				if p.accept("shared") {
					l.Shared = p.ident()
				} else if p.accept("nonempty") {
					l.Nonempty = true
				} else if p.accept("trusted") {
					l.Trusted = append(l.Trusted, p.next().s)
				} else if p.accept("invariant") { // invariant C10 consistent
					l.InvProp, l.InvName = p.ident(), p.ident()
				} else {
					break
				}
			}
			sf.Locks = append(sf.Locks, l)
		case "global":
			c := p.clause()
			sf.Globals = append(sf.Globals, c)
		case "func", "extern":
			c := &Contract{Kind: kw, Pos: pos, Loops: map[string]*LoopSpec{}}
			t := p.next()
			if t.k != "str" {
				p.fail("expected function key string")
			}
			c.Key = t.s
			if p.is("(") {
				c.Params = p.names()
			}
			if p.is("(") {
				c.Results = p.names()
			}
			cur := (*LoopSpec)(nil)
		cl:
			for {
				switch {
				case p.accept("requires"):
					c.Requires = append(c.Requires, p.clause())
				case p.accept("ensures"):
					c.Ensures = append(c.Ensures, p.clause())
				case p.accept("assume"):
					c.Entry = append(c.Entry, p.clause())
				case p.accept("maypanic"):
					if p.accept("when") {
						c.MayPanic = append(c.MayPanic, p.clause())
					} else {
						c.MayPanic = append(c.MayPanic, Clause{E: &Expr{Op: "id", Name: "true"}})
					}
				case p.accept("atexit"):
					n := p.ident() + "("
					p.expect("(")
					n += p.ident() + ")"
					p.expect(")")
					p.expect("=")
					v := p.expr()
					p.expect("when")
					w := p.expr()
					c.AtExit = append(c.AtExit, Clause{Name: n, E: v, Pos: w.Pos, When: w})
				case p.accept("atomic"):
					c.Atomic = true
				case p.accept("onpanic"):
					c.OnPanic = append(c.OnPanic, p.clause())
				case p.accept("modifies"):
					if p.accept("*") {
						c.Modifies = append(c.Modifies, "*")
						continue
					}
					for {
						n := p.ident()
						for p.accept(".") {
							n += "." + p.ident()
						}
						if p.accept("(") {
							n += "(" + p.ident()
							for p.accept(".") {
								n += "." + p.ident()
							}
							n += ")"
							p.expect(")")
						}
						c.Modifies = append(c.Modifies, n)
						if !p.accept(",") {
							break
						}
					}
				case p.accept("props"):
					for p.peek().k == "id" && len(p.peek().s) == 3 && p.peek().s[0] == 'C' {
						c.Props = append(c.Props, p.ident())
						p.accept(",")
					}
				case p.accept("pure"):
					c.Pure = true
				case p.accept("trusted"):
					c.Trusted = true
				case p.accept("variant"):
					c.Variant = p.ident()
				case p.accept("using"):
					c.Using = append(c.Using, p.ident())
				case p.accept("hide"):
					c.Hide = append(c.Hide, p.ident())
					for p.accept(",") {
						c.Hide = append(c.Hide, p.ident())
					}
				case p.accept("use"):
					c.Uses = append(c.Uses, p.expr())
				case p.accept("useret"):
					c.RetUses = append(c.RetUses, p.expr())
				case p.accept("inline"):
					c.Inline = true
				case p.accept("nopanic"):
					c.NoPanic = true
				case p.accept("let"):
					n := p.ident()
					p.expect("=")
					c.Lets = append(c.Lets, Clause{Name: n, E: p.expr()})
				case p.accept("loop"):
					t := p.next()
					cur = &LoopSpec{Ord: t.s}
					c.Loops[t.s] = cur
				case p.accept("invariant"):
					cur.Inv = append(cur.Inv, p.clause())
				case p.accept("candidate"):
					cur.Cand = append(cur.Cand, p.clause())
				case p.accept("unroll"):
					t := p.next()
					fmt.Sscanf(t.s, "%d", &cur.Unroll)
				case p.accept("decreases"):
					if cur != nil {
						cur.Dec = p.expr()
						continue
					}
					c.DecWhen = p.clause()
					c.Dec = []*Expr{c.DecWhen.E}
					for p.accept(",") {
						c.Dec = append(c.Dec, p.expr())
					}
					c.DecWhen.E = &Expr{Op: "id", Name: "true"}
					if p.accept("when") {
						c.DecWhen.E = p.expr()
					}
				default:
					break cl
				}
			}
			sf.Contracts = append(sf.Contracts, c)
		default:
			p.p--
			p.fail("unknown declaration")
		}
	}
}

func parseSpecDir(dir string) *SpecFile {
	sf := &SpecFile{Consts: map[string]string{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		parseSpec(f, sf)
	}
	return sf
}
