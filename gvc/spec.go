package main

// Contract language: parsing and evaluation.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Param struct{ Name, Type string }

type Clause struct {
	Tags []string
	Text string
	Expr *Node
}

type LoopTpl struct {
	Tags  []string
	Holes []Param
	Text  string
	Expr  *Node
}

type FuncSpec struct {
	Key       string
	Params    []Param
	Results   []Param
	Requires  []Clause
	Assumes   []Clause // assumed on entry, not demanded of callers; listed in the evidence
	Ensures   []Clause
	Defines   []Clause // facts about ghost functions of the fresh result: a definition, not an obligation
	Modifies  []Clause
	Fresh     map[string]bool
	Loops     []*LoopTpl
	Decreases []*LoopTpl
	Inline    bool
	Trusted   string
	Tops      []string // properties for which this is a top function
	YieldPre  []Clause
	Safe      []string
	Pure      bool
	Lets      []Clause
	Splits    []Clause
	Settled   []Clause // Text: the property whose check discharges this contract; the tagged properties rely on that check
	Paths     []Clause // Text: how many paths are followed separately before they are joined
	Opaque    []Clause // Text: definitions that stay uninterpreted in this function's proof
	Choose    []Clause // Text: name of an argumentless ghost
	File      string
}

type Define struct {
	Name   string
	Params []string
	Body   *Node
}
type Ghost struct {
	Name string
	Args []Sort
	Res  Sort
}
type Fold struct {
	Name  string
	Extra []string // extra parameter names
	Rune  string
	Body  *Node
}
type MemInv struct {
	Comp string
	Expr *Node
	Tags []string
	Why  string
}

type Specs struct {
	Funcs   map[string]*FuncSpec
	Defines map[string]*Define
	Ghosts  map[string]*Ghost
	Folds   map[string]*Fold
	Recs    map[string]*Rec
	Guarded []Guard
	MemInvs []*MemInv
	MapInvs []*MemInv
	Axioms  []Clause
	Lemmas  []*Lemma
	Benign  []string // encapsulated cache components: writes are not part of any frame
}
type Lemma struct {
	Name string
	Tags []string
	Vars []Param
	Expr *Node
	Text string
}

func (s *Specs) get(k string) *FuncSpec { return s.Funcs[k] }

// matches: the contract's parameter list fits the function's signature.
func (sp *FuncSpec) matches(fn *ssa.Function) bool {
	n := fn.Signature.Params().Len()
	if fn.Signature.Recv() != nil {
		n++
	}
	return n == len(sp.Params) && fn.Signature.Results().Len() == len(sp.Results)
}

// ---- lexer ----
type tok struct {
	k string // id, int, str, op, eof
	s string
}

func lex(s string) []tok {
	var out []tok
	i := 0
	ops := []string{"<==>", "==>", "++", "==", "!=", "<=", ">=", "&&", "||", ".."}
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			u, err := strconv.Unquote(s[i : j+1])
			if err != nil {
				panic("bad string in contract: " + s[i:j+1])
			}
			out = append(out, tok{"str", u})
			i = j + 1
		case c == '`':
			j := i + 1 + strings.IndexByte(s[i+1:], '`')
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
		case c == '\'':
			j := i + 1
			for s[j] != '\'' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			r, _, _, err := strconv.UnquoteChar(s[i+1:j], '\'')
			if err != nil {
				panic("bad char in contract")
			}
			out = append(out, tok{"int", strconv.Itoa(int(r))})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, tok{"int", s[i:j]})
			i = j
		case c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] == '$' || s[j] == '\'' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		default:
			m := string(c)
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	return append(out, tok{"eof", ""})
}

// ---- parser ----
type Node struct {
	Op   string // int str id call sel idx slice un bin if forall exists let
	S    string
	Args []*Node
	Typ  string
}

type parser struct {
	ts  []tok
	p   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) isId(s string) bool { return p.peek().k == "id" && p.peek().s == s }
func (p *parser) expect(s string) {
	t := p.next()
	if t.s != s {
		panic(fmt.Sprintf("contract parse error: expected %q, got %q in: %s", s, t.s, p.src))
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func parseExpr(s string) *Node {
	p := &parser{ts: lex(s), src: s}
	n := p.expr(0)
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("contract parse error at %q in: %s", p.peek().s, s))
	}
	return n
}
func (p *parser) expr(min int) *Node {
	l := p.unary()
	for {
		t := p.peek()
		if t.k == "id" && t.s == "in" && min <= 5 && false {
			break
		}
		if t.k != "op" {
			break
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			break
		}
		p.next()
		nx := pr + 1
		if t.s == "==>" {
			nx = pr
		}
		r := p.expr(nx)
		l = &Node{Op: "bin", S: t.s, Args: []*Node{l, r}}
	}
	return l
}
func (p *parser) unary() *Node {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*") {
		p.next()
		return &Node{Op: "un", S: t.s, Args: []*Node{p.unary()}}
	}
	if t.k == "id" {
		switch t.s {
		case "if":
			p.next()
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &Node{Op: "if", Args: []*Node{c, a, b}}
		case "let":
			p.next()
			n := p.next().s
			p.expect("=")
			a := p.expr(0)
			p.expect("in")
			b := p.expr(0)
			return &Node{Op: "let", S: n, Args: []*Node{a, b}}
		case "forall", "exists":
			p.next()
			n := p.next().s
			if p.isId("in") {
				p.next()
				a := p.expr(7)
				p.expect("..")
				b := p.expr(7)
				p.expect(":")
				e := p.expr(0)
				return &Node{Op: t.s, S: n, Typ: "int", Args: []*Node{a, b, e}}
			}
			p.expect(":")
			ty := p.next().s
			p.expect(":")
			e := p.expr(0)
			return &Node{Op: t.s, S: n, Typ: ty, Args: []*Node{e}}
		}
	}
	return p.postfix(p.atom())
}
func (p *parser) atom() *Node {
	t := p.next()
	switch t.k {
	case "int":
		return &Node{Op: "int", S: t.s}
	case "str":
		return &Node{Op: "str", S: t.s}
	case "id":
		return &Node{Op: "id", S: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("contract parse error: unexpected %q in: %s", t.s, p.src))
}
func (p *parser) postfix(n *Node) *Node {
	for {
		switch {
		case p.isOp("."):
			p.next()
			f := p.next()
			n = &Node{Op: "sel", S: f.s, Args: []*Node{n}}
		case p.isOp("("):
			p.next()
			c := &Node{Op: "call", Args: []*Node{n}}
			for !p.isOp(")") {
				c.Args = append(c.Args, p.expr(0))
				if p.isOp(",") {
					p.next()
				}
			}
			p.next()
			n = c
		case p.isOp("["):
			p.next()
			if p.isOp(":") {
				p.next()
				h := p.expr(0)
				p.expect("]")
				n = &Node{Op: "slice", Args: []*Node{n, nil, h}}
				continue
			}
			i := p.expr(0)
			if p.isOp(":") {
				p.next()
				var h *Node
				if !p.isOp("]") {
					h = p.expr(0)
				}
				p.expect("]")
				n = &Node{Op: "slice", Args: []*Node{n, i, h}}
				continue
			}
			p.expect("]")
			n = &Node{Op: "idx", Args: []*Node{n, i}}
		default:
			return n
		}
	}
}

// ---- files ----
func loadSpecs(dir string) *Specs {
	sp := &Specs{Funcs: map[string]*FuncSpec{}, Defines: map[string]*Define{}, Ghosts: map[string]*Ghost{}, Folds: map[string]*Fold{}, Recs: map[string]*Rec{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		sp.parseFile(string(b), filepath.Base(f))
	}
	return sp
}

var topKw = map[string]bool{"benign": true, "func": true, "define": true, "ghost": true, "fold": true, "meminv": true, "mapinv": true, "axiom": true, "lemma": true, "rec": true, "guarded": true, "regex": true, "relemma": true}
var subKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "fresh": true, "loop": true, "decreases": true, "inline": true, "trusted": true, "top": true, "yieldpre": true, "pure": true, "let": true, "split": true, "choose": true, "assumes": true, "opaque": true, "paths": true, "defines": true, "settled": true}

func firstWord(s string) string {
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z') {
		i++
	}
	return s[:i]
}

// opaqueCall applies a definition as an uninterpreted function of its arguments. The function is
// named after the definition's meaning in the current state, found by evaluating it on placeholders,
// so that two uses are the same function only if the state they read is the same.
func (e *Eval) opaqueCall(d *Define, m *Eval) Val {
	var args []*Term
	ph := *m
	ph.st = e.st.clone()
	ph.vars = map[string]Val{}
	key := d.Name
	for i, p := range d.Params {
		v := m.vars[p]
		w := v
		w.C = nil
		for j, c := range v.C {
			args = append(args, c)
			h := Var(fmt.Sprintf("ph.%s.%d.%d.%v", d.Name, i, j, c.isOld), c.Sort)
			h.isOld = c.isOld
			w.C = append(w.C, h)
		}
		w.Dyn = nil
		ph.vars[p] = w
	}
	r := ph.Eval(d.Body)
	if len(r.C) != 1 {
		panic("contract: opaque definition " + d.Name + " has no single value")
	}
	if hasQuantifier(r.C[0], map[*Term]bool{}) {
		key += "#" + canonBound(r.C[0].String())
	} else {
		key += fmt.Sprintf("#%p", r.C[0])
	}
	id, ok := opaqueIds[key]
	if !ok {
		id = len(opaqueIds) + 1
		opaqueIds[key] = id
	}
	v := UF(fmt.Sprintf("opq.%s.%d", d.Name, id), r.C[0].Sort, args...)
	if r.C[0].isOld && !v.isOld {
		v.isOld = true
		addFact(v, Le2(Add(v, IntC(1)), A0))
	}
	r.C = []*Term{v}
	return r
}

var opaqueIds = map[string]int{}

// constText evaluates a concatenation of literals and earlier regex names.
func (sp *Specs) constText(n *Node) string {
	switch {
	case n.Op == "str":
		return n.S
	case n.Op == "bin" && n.S == "++":
		return sp.constText(n.Args[0]) + sp.constText(n.Args[1])
	case n.Op == "id" && sp.Defines[n.S] != nil && sp.Defines[n.S].Body.Op == "str":
		return sp.Defines[n.S].Body.S
	}
	panic("not a constant text")
}

func (sp *Specs) parseFile(text, file string) {
	var items []string
	for _, line := range strings.Split(text, "\n") {
		if i := strings.Index(line, "//"); i >= 0 && !strings.Contains(line[:i], "\"") && !strings.Contains(line[:i], "`") {
			line = line[:i]
		}
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := firstWord(t)
		indented := line[0] == ' ' || line[0] == '\t'
		if !indented && topKw[w] || indented && subKw[w] {
			items = append(items, t)
		} else {
			if len(items) == 0 {
				panic("contract file " + file + ": " + line)
			}
			items[len(items)-1] += "\n" + t
		}
	}
	var cur *FuncSpec
	for _, it := range items {
		w := firstWord(it)
		rest := strings.TrimSpace(it[len(w):])
		var tags []string
		if strings.HasPrefix(rest, "{") && w != "func" {
			j := strings.IndexByte(rest, '}')
			for _, t := range strings.Split(rest[1:j], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
		cl := func() Clause {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s: %v", file, r))
				}
			}()
			return Clause{tags, oneLine(rest), parseExpr(rest)}
		}
		switch w {
		case "func":
			cur = parseHead(rest)
			cur.File = file
			if old, dup := sp.Funcs[cur.Key]; dup { // a later file continues the contract
				if fmt.Sprint(old.Params, old.Results) != fmt.Sprint(cur.Params, cur.Results) {
					panic("contract head of " + cur.Key + " differs from the earlier one")
				}
				cur = old
			}
			sp.Funcs[cur.Key] = cur
		case "define":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			d := &Define{Name: strings.TrimSpace(rest[:i])}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					d.Params = append(d.Params, a)
				}
			}
			b := strings.TrimSpace(rest[j+1:])
			if !strings.HasPrefix(b, "=") {
				panic("define " + d.Name)
			}
			d.Body = parseExpr(b[1:])
			sp.Defines[d.Name] = d
		case "regex": // regex name = constant text; names a language
			i := strings.Index(rest, "=")
			t := sp.constText(parseExpr(rest[i+1:]))
			if reCompile(t) == nil {
				panic("regex " + rest)
			}
			reName(t)
			n := strings.TrimSpace(rest[:i])
			sp.Defines[n] = &Define{Name: n, Body: &Node{Op: "str", S: t}}
		case "relemma": // relemma a & b ==> c, between named languages; decided here
			l, r, _ := strings.Cut(rest, "==>")
			lang := func(n string) string { return sp.constText(parseExpr(strings.TrimSpace(n))) }
			var ants []string
			for _, a := range strings.Split(l, "&") {
				ants = append(ants, lang(a))
			}
			addReLemma(ants, lang(r))
		case "ghost":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			g := &Ghost{Name: strings.TrimSpace(rest[:i]), Res: specSort(strings.TrimSpace(rest[j+1:]))}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				if a = strings.TrimSpace(a); a != "" {
					g.Args = append(g.Args, specSort(a))
				}
			}
			sp.Ghosts[g.Name] = g
		case "rec": // rec name(a: sort, ..., i: int): sort = BASE step NEXT   (NEXT is the value at i+1)
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			k := strings.Index(rest, " = ")
			r := &Rec{Name: strings.TrimSpace(rest[:i]), Res: specSort(strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:k]), ":")))}
			for _, a := range strings.Split(rest[i+1:j], ",") {
				nt := strings.SplitN(a, ":", 2)
				r.Args = append(r.Args, strings.TrimSpace(nt[0]))
				r.Sorts = append(r.Sorts, specSort(strings.TrimSpace(nt[1])))
			}
			b := strings.SplitN(rest[k+3:], " step ", 2)
			r.Base, r.Next = parseExpr(b[0]), parseExpr(b[1])
			sp.Recs[r.Name] = r
		case "guarded": // guarded VAR by LOCK
			f := strings.Fields(rest)
			sp.Guarded = append(sp.Guarded, Guard{Tags: tags, Comp: f[0], Lock: f[2]})
		case "fold": // fold name(r, extra...) = expr   (string appended for rune r)
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			f := &Fold{Name: strings.TrimSpace(rest[:i])}
			for k, a := range strings.Split(rest[i+1:j], ",") {
				a = strings.TrimSpace(a)
				if k == 0 {
					f.Rune = a
				} else {
					f.Extra = append(f.Extra, a)
				}
			}
			b := strings.TrimSpace(rest[j+1:])
			f.Body = parseExpr(strings.TrimPrefix(b, "="))
			sp.Folds[f.Name] = f
		case "meminv", "mapinv": // meminv COMP : expr over v (value) and o (object)
			i := strings.Index(rest, " : ")
			m := &MemInv{Comp: strings.TrimSpace(rest[:i]), Tags: tags}
			body := rest[i+3:]
			if k := strings.Index(body, " because "); k >= 0 {
				m.Why = strings.TrimSpace(body[k+9:])
				body = body[:k]
			}
			m.Expr = parseExpr(body)
			if w == "meminv" {
				sp.MemInvs = append(sp.MemInvs, m)
			} else {
				sp.MapInvs = append(sp.MapInvs, m)
			}
		case "lemma":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			l := &Lemma{Name: strings.TrimSpace(rest[:i]), Tags: tags, Vars: parseParams(rest[i+1 : j]), Text: oneLine(rest[j+1:])}
			l.Expr = parseExpr(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), "="))
			sp.Lemmas = append(sp.Lemmas, l)
		case "benign":
			sp.Benign = append(sp.Benign, strings.Fields(rest)...)
		case "axiom":
			sp.Axioms = append(sp.Axioms, cl())
		case "requires":
			cur.Requires = append(cur.Requires, cl())
		case "assumes":
			cur.Assumes = append(cur.Assumes, cl())
		case "ensures":
			cur.Ensures = append(cur.Ensures, cl())
		case "defines":
			cur.Defines = append(cur.Defines, cl())
		case "modifies":
			if rest == "nothing" {
				continue
			}
			for _, part := range splitTop(rest) {
				cur.Modifies = append(cur.Modifies, Clause{tags, oneLine(part), parseExpr(part)})
			}
		case "fresh":
			for _, a := range strings.Split(rest, ",") {
				cur.Fresh[strings.TrimSpace(a)] = true
			}
		case "loop", "decreases":
			i := strings.Index(rest, "|")
			for i >= 0 && i+1 < len(rest) && rest[i+1] == '|' {
				i = -1
			}
			t := &LoopTpl{Tags: tags, Text: oneLine(rest)}
			if i >= 0 {
				t.Holes = parseParams(rest[:i])
				rest = rest[i+1:]
			}
			t.Expr = parseExpr(rest)
			if w == "loop" {
				cur.Loops = append(cur.Loops, t)
			} else {
				cur.Decreases = append(cur.Decreases, t)
			}
		case "inline":
			cur.Inline = true
		case "pure":
			cur.Pure = true
		case "trusted":
			cur.Trusted = rest
			if rest == "" {
				panic("trusted without reason: " + cur.Key)
			}
		case "top":
			for _, a := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
				cur.Tops = append(cur.Tops, strings.TrimSpace(a))
			}
		case "choose":
			i := strings.Index(rest, "=")
			cur.Choose = append(cur.Choose, Clause{tags, strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
		case "paths":
			cur.Paths = append(cur.Paths, Clause{Tags: tags, Text: strings.TrimSpace(rest)})
		case "settled":
			cur.Settled = append(cur.Settled, Clause{Tags: tags, Text: strings.TrimSpace(rest)})
		case "opaque":
			for _, n := range strings.Split(rest, ",") {
				cur.Opaque = append(cur.Opaque, Clause{Tags: tags, Text: strings.TrimSpace(n)})
			}
		case "split":
			cur.Splits = append(cur.Splits, cl())
		case "yieldpre":
			cur.YieldPre = append(cur.YieldPre, cl())
		case "let":
			i := strings.Index(rest, "=")
			cur.Lets = append(cur.Lets, Clause{tags, strings.TrimSpace(rest[:i]), parseExpr(rest[i+1:])})
		}
	}
}

func oneLine(s string) string { return strings.Join(strings.Fields(s), " ") }

func splitTop(s string) []string {
	var out []string
	d, last := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, s[last:i])
				last = i + 1
			}
		}
	}
	return append(out, s[last:])
}

func parseParams(s string) []Param {
	var out []Param
	for _, a := range strings.Split(s, ",") {
		a = strings.TrimSpace(a)
		if a == "" {
			continue
		}
		if i := strings.Index(a, ":"); i >= 0 {
			out = append(out, Param{strings.TrimSpace(a[:i]), strings.TrimSpace(a[i+1:])})
		} else {
			out = append(out, Param{a, ""})
		}
	}
	return out
}
func parseHead(s string) *FuncSpec {
	i := strings.Index(s, "(")
	j := strings.Index(s, ")")
	f := &FuncSpec{Key: strings.TrimSpace(s[:i]), Params: parseParams(s[i+1 : j]), Fresh: map[string]bool{}}
	r := strings.TrimSpace(s[j+1:])
	if strings.HasPrefix(r, "(") {
		k := strings.Index(r, ")")
		f.Results = parseParams(r[1:k])
	}
	return f
}
func specSort(s string) Sort {
	switch s {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "string":
		return SStr
	}
	panic("bad sort in contract: " + s)
}

// Rec is a function defined by recursion on its last argument, a counter from 0.
type Rec struct {
	Name       string
	Args       []string
	Sorts      []Sort
	Res        Sort
	Base, Next *Node
}

// Guard names a map variable that may only be touched while a lock is held.
type Guard struct {
	Tags       []string
	Comp, Lock string
}

// ---- evaluation ----
type Eval struct {
	x     *Exec
	st    *State
	old   *State
	pre   *State
	vars  map[string]Val
	dyn   map[string]func(*State) Val
	pkg   *types.Package
	depth int
}

func (x *Exec) newEval(st *State) *Eval {
	ev := &Eval{x: x, st: st, old: x.entry, vars: map[string]Val{}, dyn: map[string]func(*State) Val{}}
	for k, v := range x.args {
		ev.vars[k] = v
	}
	if x.fn != nil && x.fn.Pkg != nil {
		ev.pkg = x.fn.Pkg.Pkg
	}
	return ev
}
func (e *Eval) with(name string, v Val) *Eval {
	n := *e
	n.vars = make(map[string]Val, len(e.vars)+1)
	for k, w := range e.vars {
		n.vars[k] = w
	}
	n.vars[name] = v
	return &n
}
func (e *Eval) at(st *State) *Eval {
	n := *e
	n.st = st
	return &n
}

var tInt, tBool, tStr = types.Typ[types.Int], types.Typ[types.Bool], types.Typ[types.String]

func vInt(t *Term) Val  { return Val{T: tInt, C: []*Term{t}} }
func vBool(t *Term) Val { return Val{T: tBool, C: []*Term{t}} }
func vStr(t *Term) Val  { return Val{T: tStr, C: []*Term{t}} }

func (e *Eval) Bool(n *Node) *Term {
	v := e.Eval(n)
	if len(v.C) != 1 || v.C[0].Sort != SBool {
		panic(fmt.Sprintf("contract: boolean expected: %s", n))
	}
	return v.C[0]
}
func (e *Eval) Str(n *Node) *Term {
	v := e.Eval(n)
	if isByteSlice(v.T) {
		return e.st.bytesOf(v)
	}
	if len(v.C) != 1 || v.C[0].Sort != SStr {
		panic(fmt.Sprintf("contract: string expected: %s", n))
	}
	return v.C[0]
}
func (e *Eval) Int(n *Node) *Term {
	v := e.Eval(n)
	if len(v.C) < 1 || v.C[0].Sort != SInt {
		panic(fmt.Sprintf("contract: integer expected: %s", n))
	}
	return v.C[0]
}

func (n *Node) String() string {
	if n == nil {
		return ""
	}
	switch n.Op {
	case "int", "id":
		return n.S
	case "str":
		return strconv.Quote(n.S)
	}
	var as []string
	for _, a := range n.Args {
		as = append(as, a.String())
	}
	return n.Op + ":" + n.S + "(" + strings.Join(as, ", ") + ")"
}

func (e *Eval) ident(name string) (Val, bool) {
	if f, ok := e.dyn[name]; ok {
		return f(e.st), true
	}
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	switch name {
	case "true":
		return vBool(True), true
	case "false":
		return vBool(False), true
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], C: []*Term{IntC(0)}}, true
	}
	if e.pkg != nil {
		if v, ok := e.pkgObj(e.pkg, name); ok {
			return v, true
		}
	}
	for _, p := range []string{"phonenumbers"} {
		if pk := e.x.w.pkgByName[p]; pk != nil {
			if v, ok := e.pkgObj(pk.Pkg, name); ok {
				return v, true
			}
		}
	}
	return Val{}, false
}

func (e *Eval) pkgObj(p *types.Package, name string) (Val, bool) {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		return e.x.constVal(ssa.NewConst(o.Val(), o.Type())), true
	case *types.Var:
		pk := e.x.w.pkgByPath[p.Path()]
		if pk == nil {
			return Val{}, false
		}
		g, _ := pk.Members[name].(*ssa.Global)
		if g == nil {
			return Val{}, false
		}
		return e.st.load(&Loc{prefix: "G:" + globKey(g), T: o.Type(), glob: g}), true
	}
	return Val{}, false
}

func (e *Eval) Eval(n *Node) Val {
	switch n.Op {
	case "int":
		k, ok := newBig(n.S)
		if !ok {
			panic("contract int " + n.S)
		}
		return vInt(IntB(k))
	case "str":
		return vStr(StrC(n.S))
	case "id":
		v, ok := e.ident(n.S)
		if !ok {
			panic(unsupported{"contract: unknown name " + n.S})
		}
		return v
	case "sel":
		if n.Args[0].Op == "id" {
			if _, isVar := e.ident(n.Args[0].S); !isVar {
				if pk := e.x.w.pkgByName[n.Args[0].S]; pk != nil {
					if v, ok := e.pkgObj(pk.Pkg, n.S); ok {
						return v
					}
				}
			}
		}
		b := e.Eval(n.Args[0])
		return e.sel(b, n.S)
	case "un":
		switch n.S {
		case "!":
			return vBool(Not(e.Bool(n.Args[0])))
		case "-":
			return vInt(Neg(e.Int(n.Args[0])))
		case "*":
			v := e.Eval(n.Args[0])
			r := e.st.load(locOf(v))
			return r
		}
	case "bin":
		return e.bin(n)
	case "if":
		c := e.Bool(n.Args[0])
		if c == True {
			return e.Eval(n.Args[1])
		}
		if c == False {
			return e.Eval(n.Args[2])
		}
		a, b := e.Eval(n.Args[1]), e.Eval(n.Args[2])
		if len(a.C) != len(b.C) {
			panic("contract: if branches differ in shape: " + n.String())
		}
		return valIte(c, a, b)
	case "let":
		v := e.Eval(n.Args[0])
		return e.with(n.S, v).Eval(n.Args[1])
	case "forall", "exists":
		return e.quant(n)
	case "idx":
		b := e.Eval(n.Args[0])
		switch u := under(b.T).(type) {
		case *types.Slice:
			i := e.Int(n.Args[1])
			return e.st.load(elemLoc(u.Elem(), b.C[0], Add(b.C[1], i)))
		case *types.Map:
			k := e.Eval(n.Args[1])
			return e.st.mapGet(b, k.C[0])
		case *types.Basic:
			if b.C[0].Sort == SStr {
				return vInt(ByteAt(b.C[0], e.Int(n.Args[1])))
			}
		}
		panic("contract: index of " + b.T.String())
	case "slice":
		b := e.Eval(n.Args[0])
		lo := IntC(0)
		if n.Args[1] != nil {
			lo = e.Int(n.Args[1])
		}
		if b.C[0].Sort == SStr {
			hi := Len(b.C[0])
			if n.Args[2] != nil {
				hi = e.Int(n.Args[2])
			}
			return vStr(Substr(b.C[0], lo, Sub(hi, lo)))
		}
		hi := b.C[2]
		if n.Args[2] != nil {
			hi = e.Int(n.Args[2])
		}
		return Val{T: b.T, C: []*Term{b.C[0], Add(b.C[1], lo), Sub(hi, lo), Sub(b.C[3], lo)}}
	case "call":
		return e.call(n)
	}
	panic("contract: cannot evaluate " + n.String())
}

func (e *Eval) sel(b Val, f string) Val {
	if len(b.C) > 0 && b.T == types.Typ[types.Invalid] { // iterator
		switch f {
		case "str":
			return vStr(b.C[0])
		case "pos":
			return vInt(b.C[1])
		case "map":
			return b.Elts[0]
		}
	}
	if len(b.Tup) > 0 {
		k, err := strconv.Atoi(strings.TrimPrefix(f, "_"))
		if err == nil {
			return b.Tup[k]
		}
	}
	if f == "ref" {
		return vInt(b.C[0])
	}
	if p, ok := under(b.T).(*types.Pointer); ok {
		st, ok := under(p.Elem()).(*types.Struct)
		if !ok {
			panic(unsupported{"contract: field " + f + " of " + b.T.String()})
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				l := locOf(b)
				r := e.st.load(l.field(f, st.Field(i).Type()))
				e.x.loadInv(e.st, l.field(f, st.Field(i).Type()), &r)
				return r
			}
		}
	}
	if s, ok := under(b.T).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				a, c := fieldRange(b.T, i)
				return Val{T: s.Field(i).Type(), C: b.C[a:c]}
			}
		}
	}
	panic(unsupported{"contract: no field " + f + " in " + b.T.String()})
}

func (e *Eval) quant(n *Node) Val {
	body := n.Args[len(n.Args)-1]
	if n.Typ == "int" && len(n.Args) == 3 {
		lo, hi := e.Int(n.Args[0]), e.Int(n.Args[1])
		if d := linDiff(hi, lo); d != nil && d.IsInt64() && d.Int64() <= 12 {
			var ts []*Term
			for k := int64(0); k < d.Int64(); k++ {
				ts = append(ts, e.with(n.S, vInt(Add(lo, IntC(k)))).Bool(body))
			}
			if n.Op == "forall" {
				return vBool(And(ts...))
			}
			return vBool(Or(ts...))
		}
		v := Fresh("q."+n.S, SInt)
		sc := e.st.clone()
		b := e.at(sc).with(n.S, vInt(v)).Bool(body)
		rg := mk("and", SBool, "", Le2(lo, v), Not(Le2(hi, v)))
		if n.Op == "forall" {
			return vBool(Forall([]*Term{v}, Or(Not(rg), b)))
		}
		return vBool(Exists([]*Term{v}, And(rg, b)))
	}
	var v *Term
	var vv Val
	switch n.Typ {
	case "int":
		v = Fresh("q."+n.S, SInt)
		vv = vInt(v)
	case "string":
		v = Fresh("q."+n.S, SStr)
		vv = vStr(v)
	case "bool":
		v = Fresh("q."+n.S, SBool)
		vv = vBool(v)
	default:
		panic("contract: quantifier type " + n.Typ)
	}
	sc := e.st.clone()
	b := e.at(sc).with(n.S, vv).Bool(body)
	if n.Op == "forall" {
		return vBool(Forall([]*Term{v}, b))
	}
	return vBool(Exists([]*Term{v}, b))
}

func (e *Eval) bin(n *Node) Val {
	switch n.S {
	case "==>":
		a := e.Bool(n.Args[0])
		if a == False {
			return vBool(True)
		}
		return vBool(Imp(a, e.Bool(n.Args[1])))
	case "&&":
		a := e.Bool(n.Args[0])
		if a == False {
			return vBool(False)
		}
		return vBool(And(a, e.Bool(n.Args[1])))
	case "||":
		a := e.Bool(n.Args[0])
		if a == True {
			return vBool(True)
		}
		return vBool(Or(a, e.Bool(n.Args[1])))
	case "<==>":
		return vBool(Eq(e.Bool(n.Args[0]), e.Bool(n.Args[1])))
	case "++":
		return vStr(Concat(e.Str(n.Args[0]), e.Str(n.Args[1])))
	case "==", "!=":
		a, b := e.Eval(n.Args[0]), e.Eval(n.Args[1])
		var t *Term
		if len(a.C) != len(b.C) { // comparison with nil
			t = Eq(a.C[0], b.C[0])
		} else if len(a.C) == 4 {
			t = And(Eq(a.C[0], b.C[0]), Eq(a.C[1], b.C[1]), Eq(a.C[2], b.C[2]))
		} else {
			if a.C[0].Sort != b.C[0].Sort {
				panic("contract: comparison of different sorts: " + n.String())
			}
			var cs []*Term
			for i := range a.C {
				cs = append(cs, Eq(a.C[i], b.C[i]))
			}
			t = And(cs...)
		}
		if n.S == "!=" {
			t = Not(t)
		}
		return vBool(t)
	}
	av := e.Eval(n.Args[0])
	if av.C[0].Sort == SStr && n.S == "<" {
		return vBool(StrLt(av.C[0], e.Str(n.Args[1])))
	}
	a, b := av.C[0], e.Int(n.Args[1])
	switch n.S {
	case "<":
		return vBool(Lt(a, b))
	case "<=":
		return vBool(Le(a, b))
	case ">":
		return vBool(Lt(b, a))
	case ">=":
		return vBool(Le(b, a))
	case "+":
		return vInt(Add(a, b))
	case "-":
		return vInt(Sub(a, b))
	case "*":
		return vInt(Mul(a, b))
	case "/":
		return vInt(Div(a, b))
	case "%":
		return vInt(Mod(a, b))
	}
	panic("contract: operator " + n.S)
}

func (e *Eval) call(n *Node) Val {
	var f string
	switch h := n.Args[0]; {
	case h.Op == "id":
		f = h.S
	case h.Op == "sel" && h.Args[0].Op == "id":
		f = h.Args[0].S + "." + h.S
	case h.Op == "sel" && h.Args[0].Op == "sel" && h.Args[0].Args[0].Op == "id":
		f = h.Args[0].Args[0].S + "." + h.Args[0].S + "." + h.S
	default:
		panic("contract: call " + n.String())
	}
	as := n.Args[1:]
	if d, ok := e.x.w.specs.Defines[f]; ok {
		if len(d.Params) != len(as) {
			panic("contract: arity of " + f)
		}
		if e.depth > 30 {
			panic("contract: recursive define " + f)
		}
		m := *e
		m.depth++
		m.vars = map[string]Val{}
		m.dyn = map[string]func(*State) Val{}
		for i, p := range d.Params {
			m.vars[p] = e.Eval(as[i])
		}
		if e.x.opaque[f] {
			return e.opaqueCall(d, &m)
		}
		return m.Eval(d.Body)
	}
	if g, ok := e.x.w.specs.Ghosts[f]; ok {
		var ts []*Term
		for i := range as {
			v := e.Eval(as[i])
			t := v.C[0]
			if isByteSlice(v.T) && g.Args[i] == SStr {
				t = e.st.bytesOf(v)
			}
			ts = append(ts, t)
		}
		return Val{T: sortType(g.Res), C: []*Term{UF("g."+f, g.Res, ts...)}}
	}
	if rc, ok := e.x.w.specs.Recs[f]; ok {
		var ts []*Term
		for i := range as {
			v := e.Eval(as[i])
			t := v.C[0]
			if isByteSlice(v.T) && rc.Sorts[i] == SStr {
				t = e.st.bytesOf(v)
			}
			ts = append(ts, t)
		}
		return Val{T: sortType(rc.Res), C: []*Term{e.x.recTerm(rc, ts)}}
	}
	if fo, ok := e.x.w.specs.Folds[f]; ok {
		// name(s, pos, extra...)
		s := e.Str(as[0])
		pos := Len(s)
		if len(as) > 1 {
			pos = e.Int(as[1])
		}
		var ex []*Term
		for _, a := range as[min(2, len(as)):] {
			ex = append(ex, e.Eval(a).C[0])
		}
		return vStr(e.x.foldTerm(fo, s, pos, ex))
	}
	switch f {
	case "old":
		if e.old == nil {
			panic("contract: old() without entry state")
		}
		return e.at(e.old).Eval(as[0])
	case "pre":
		if e.pre == nil {
			panic(unsupported{"contract: pre() outside a loop"})
		}
		return e.at(e.pre).Eval(as[0])
	case "len":
		v := e.Eval(as[0])
		if v.C[0].Sort == SStr {
			return vInt(Len(v.C[0]))
		}
		return vInt(v.C[2])
	case "cap":
		return vInt(e.Eval(as[0]).C[3])
	case "has":
		m := e.Eval(as[0])
		return vBool(e.st.mapHas(m, e.Eval(as[1]).C[0]))
	case "visited":
		it := e.Eval(as[0])
		return vBool(Select(it.C[0], e.Eval(as[1]).C[0]))
	case "content":
		v := e.Eval(as[0])
		return vStr(e.x.content(e.st, v))
	case "str":
		return vStr(e.Str(as[0]))
	case "substr":
		return vStr(Substr(e.Str(as[0]), e.Int(as[1]), e.Int(as[2])))
	case "prefix":
		return vBool(PrefixOf(e.Str(as[0]), e.Str(as[1])))
	case "suffix":
		return vBool(SuffixOf(e.Str(as[0]), e.Str(as[1])))
	case "contains":
		return vBool(Contains(e.Str(as[0]), e.Str(as[1])))
	case "indexof":
		from := IntC(0)
		if len(as) > 2 {
			from = e.Int(as[2])
		}
		return vInt(IndexOf(e.Str(as[0]), e.Str(as[1]), from))
	case "at":
		return vStr(At(e.Str(as[0]), e.Int(as[1])))
	case "chr":
		return vStr(FromCode(e.Int(as[0])))
	case "dec":
		return vStr(decTerm(e.Int(as[0])))
	case "zeros":
		return vStr(zerosTerm(e.Int(as[0])))
	case "all":
		if as[0].Op != "str" {
			panic("contract: all(class, s)")
		}
		return vBool(allIn(as[0].S, e.Str(as[1])))
	case "utf8":
		return vStr(e.x.utf8(e.st, e.Int(as[0])))
	case "runeat":
		return vInt(runeTerm(e.Str(as[0]), e.Int(as[1])))
	case "widthat":
		return vInt(widthTerm(e.Str(as[0]), e.Int(as[1])))
	case "isnew":
		v := e.Eval(as[0])
		return vBool(Le2(A0, v.C[0]))
	case "isold":
		v := e.Eval(as[0])
		return vBool(Lt(v.C[0], A0))
	case "with": // with(number, Field, value)
		v := e.Eval(as[0])
		o := map[string]*Term{}
		for k, t := range v.Over {
			o[k] = t
		}
		o[as[1].S] = e.Eval(as[2]).C[0]
		v.Over = o
		return v
	case "decval":
		return vInt(UF("decval", SInt, e.Str(as[0])))
	case "pat":
		return vStr(e.x.patOf(e.Eval(as[0]).C[0]))
	case "abs":
		a := e.Int(as[0])
		return vInt(Ite(Le(IntC(0), a), a, Neg(a)))
	}
	if h, ok := specFuncs[f]; ok {
		return h(e, as)
	}
	// a call of a function with a pure contract
	for _, k := range []string{"phonenumbers." + f, f} {
		if sp := e.x.w.specs.get(k); sp != nil && sp.Pure {
			fn := e.x.w.fns[k]
			if fn == nil {
				panic(unsupported{"contract: no function " + k})
			}
			var args []Val
			for i, a := range as {
				v := e.Eval(a)
				v.T = fn.Params[i].Type()
				args = append(args, v)
			}
			rs := fn.Signature.Results()
			if rs.Len() > 1 {
				var v Val
				for i := 0; i < rs.Len(); i++ {
					v.Tup = append(v.Tup, e.x.pureResult(e.st, k, i, rs.At(i).Type(), args))
				}
				return v
			}
			return e.x.pureResult(e.st, k, 0, rs.At(0).Type(), args)
		}
	}
	panic(unsupported{"contract: unknown function " + f})
}

func sortType(s Sort) types.Type {
	switch s {
	case SInt:
		return tInt
	case SBool:
		return tBool
	}
	return tStr
}

// content of a builder or byte slice
func (x *Exec) content(st *State, v Val) *Term {
	if isByteSlice(v.T) {
		return st.bytesOf(v)
	}
	if v.C[0].Sort == SStr {
		return v.C[0]
	}
	if p, ok := under(v.T).(*types.Pointer); ok && typeKey(p.Elem()) == "stringbuilder.Builder" {
		if x.inBuilderPkg() {
			f := under(p.Elem()).(*types.Struct)
			for i := 0; i < f.NumFields(); i++ {
				if isByteSlice(f.Field(i).Type()) {
					return st.bytesOf(st.load(locOf(v).field(f.Field(i).Name(), f.Field(i).Type())))
				}
			}
		}
		return Select(st.hget(builderContent, arr(SInt, SStr)), v.C[0])
	}
	panic(unsupported{"contract: content of " + v.T.String()})
}

func (x *Exec) tagOK(tags []string) bool {
	if len(tags) == 0 || x.prop == "" {
		return true
	}
	for _, t := range tags {
		if t == x.prop {
			return true
		}
	}
	return false
}

// ---- applying a contract at a call ----
func (x *Exec) applySpec(st *State, sp *FuncSpec, fn *ssa.Function, args []Val, rt types.Type) []stVal {
	x.called[sp.Key] = true
	pre := st.clone()
	ev := &Eval{x: x, st: st, old: pre, vars: map[string]Val{}, dyn: map[string]func(*State) Val{}, pkg: fn.Pkg.Pkg}
	for i, p := range sp.Params {
		v := args[i]
		if v.Loc != nil && (v.Loc.idx != nil || v.Loc.glob != nil || v.Loc.prefix != ptrPrefix(v.Loc.T)) {
			unsup("interior pointer passed to %s", sp.Key)
		}
		ev.vars[p.Name] = v
	}
	for _, l := range sp.Lets {
		ev = ev.with(l.Text, ev.Eval(l.Expr))
	}
	for _, r := range sp.Requires {
		if !x.tagOK(r.Tags) {
			continue
		}
		x.oblige(st, "pre", "precondition of "+sp.Key+": "+r.Text, ev.Bool(r.Expr))
	}
	if sp.Key == "stringbuilder.New" && !x.inBuilderPkg() {
		if r := args[0].C[0]; !(r.Op == "int" && r.Int.Sign() == 0) {
			if _, _, isNew := splitBase(r); !isNew {
				x.oblige(st, "alias", "the buffer given to stringbuilder.New is owned by the caller", Or(Eq(r, IntC(0)), Le2(A0, r)))
			}
		}
	}
	freshSet := map[*Term]bool{}
	hav := func(name string, s Sort, ref *Term) {
		if ref == nil {
			n := Fresh("m."+name, s)
			st.hset(name, n)
			freshSet[n] = true
		} else {
			_, vs := arrParts(s)
			n := Fresh("m."+name, vs)
			freshSet[n] = true
			st.hset(name, Store(st.hget(name, s), ref, n))
			if compIsRef[name] {
				withRange(n, bigZero, nil)
			}
		}
		st.logWrite(name, ref)
	}
	needEra := false
	var refHavocs []*Term
	for _, m := range sp.Modifies {
		for _, it := range x.modItems(ev.at(pre), m.Expr) {
			if it.ref != nil {
				if r := it.ref; r.Op == "int" && r.Int.Sign() == 0 {
					continue
				}
			}
			s, ok := compSorts[it.comp]
			if !ok {
				unsup("modifies %s: unknown component %s", m.Text, it.comp)
			}
			hav(it.comp, s, it.ref)
			if compIsRef[it.comp] {
				needEra = true
				t := st.hget(it.comp, s)
				if it.ref != nil {
					t = Select(t, it.ref)
				}
				if t.Sort == SInt {
					refHavocs = append(refHavocs, t)
				}
			}
		}
	}
	var rts []types.Type
	if tp, ok := rt.(*types.Tuple); ok {
		for i := 0; i < tp.Len(); i++ {
			rts = append(rts, tp.At(i).Type())
		}
	} else {
		rts = []types.Type{rt}
	}
	for _, t := range rts {
		for _, c := range flatten(t) {
			if c.isRef {
				needEra = true
			}
		}
	}
	if needEra && !sp.Pure {
		st.newEra("A")
	}
	var res []Val
	for i, t := range rts {
		name := "r"
		if i < len(sp.Results) {
			name = sp.Results[i].Name
		}
		v := freshVal("ret."+fn.Name()+"."+name, t, false)
		if sp.Pure {
			v = x.pureResult(pre, sp.Key, i, t, args)
		}
		if sp.Fresh[name] {
			v.C[0] = st.alloc()
			if p, ok := under(t).(*types.Pointer); ok && typeKey(p.Elem()) == "stringbuilder.Builder" {
				st.hset(builderVer, Store(st.hget(builderVer, arr(SInt, SInt)), v.C[0], IntC(0)))
				n := Fresh("m.content", SStr)
				freshSet[n] = true
				st.hset(builderContent, Store(st.hget(builderContent, arr(SInt, SStr)), v.C[0], n))
			}
			if isByteSlice(t) {
				n := Fresh("m.bytes", SStr)
				freshSet[n] = true
				st.hset(bytesHeap, Store(st.hget(bytesHeap, arr(SInt, SStr)), v.C[0], n))
				v.C[1] = IntC(0)
			}
		}
		for j, c := range flatten(t) {
			if v.C[j].Op == "var" {
				freshSet[v.C[j]] = true
				if c.isRef {
					st.fact(Le2(Add(v.C[j], IntC(1)), st.allocTop()))
				}
			}
		}
		res = append(res, v)
		ev.vars[name] = v
	}
	for _, t := range refHavocs {
		st.fact(Le2(Add(t, IntC(1)), st.allocTop()))
	}
	// assume the postconditions, substituting definitions
	n0 := len(st.pc)
	var facts []*Term
	for _, c := range append(append([]Clause{}, sp.Ensures...), sp.Defines...) {
		if !x.tagOK(c.Tags) {
			continue
		}
		facts = append(facts, conjuncts(ev.Bool(c.Expr))...)
	}
	extra := append([]pcEntry(nil), st.pc[n0:]...)
	m := map[*Term]*Term{}
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if f == nil {
				continue
			}
			var v, t *Term
			if f.Op == "=" {
				for k := 0; k < 2; k++ {
					if freshSet[f.Args[k]] && !occurs(f.Args[k], f.Args[1-k]) {
						v, t = f.Args[k], f.Args[1-k]
						break
					}
				}
			} else if freshSet[f] {
				v, t = f, True
			} else if f.Op == "not" && freshSet[f.Args[0]] {
				v, t = f.Args[0], False
			}
			if v == nil {
				continue
			}
			if v.Op != "var" {
				continue
			}
			one := map[*Term]*Term{v: t}
			for k, old := range m {
				m[k] = subst(old, one)
			}
			m[v] = t
			facts[i] = nil
			for j := range facts {
				if facts[j] != nil {
					facts[j] = subst(facts[j], one)
				}
			}
			delete(freshSet, v)
			changed = true
		}
	}
	if len(m) > 0 {
		for k, h := range st.heap {
			st.heap[k] = subst(h, m)
		}
		for i := range res {
			c2 := make([]*Term, len(res[i].C))
			for j := range res[i].C {
				c2[j] = subst(res[i].C[j], m)
				// keep range knowledge about the substituted variable
				if v := res[i].C[j]; v != c2[j] && v.rng != nil && c2[j].Sort == SInt {
					if v.rng.lo != nil {
						st.fact(Le2(IntB(v.rng.lo), c2[j]))
					}
					if v.rng.hi != nil {
						st.fact(Le2(c2[j], IntB(v.rng.hi)))
					}
				}
			}
			res[i].C = c2
		}
		st.pc = st.pc[:n0]
		for _, e := range extra {
			delete(st.seen, e.t)
		}
		for _, e := range extra {
			st.fact(subst(e.t, m))
		}
	}
	for _, f := range facts {
		if f != nil {
			st.fact(f)
		}
	}
	for i := range res {
		st.attachStatic(&res[i])
	}
	if !x.inBuilderPkg() {
		switch sp.Key {
		case "stringbuilder.New":
			if r := args[0].C[0]; !(r.Op == "int" && r.Int.Sign() == 0) {
				st.bor[r] = Borrow{owner: res[0].C[0], ver: Select(st.hget(builderVer, arr(SInt, SInt)), res[0].C[0])}
			}
		case "stringbuilder.Builder.Bytes":
			b := args[0].C[0]
			v := st.newBytes(Select(st.hget(builderContent, arr(SInt, SStr)), b), rts[0])
			st.bor[v.C[0]] = Borrow{owner: b, ver: Select(st.hget(builderVer, arr(SInt, SInt)), b)}
			res[0] = v
		}
	}
	return one(st, packRes(res, rt))
}

// pureResult: the result is an (unknown) function of the argument values: of the field values for a
// number, of the identity for metadata objects and string lists (which must not be written afterwards, see frozenWrite).
func (x *Exec) pureResult(st *State, key string, i int, t types.Type, args []Val) Val {
	var ts []*Term
	for _, a := range args {
		if isByteSlice(a.T) {
			unsup("pure contract with a byte slice argument: %s", key)
		}
		if p, ok := under(a.T).(*types.Pointer); ok {
			k := typeKey(p.Elem())
			if k == "phonenumbers.PhoneNumber" {
				ts = append(ts, snapshot(st, a)...)
				continue
			}
			if !strings.HasPrefix(k, "metadata.") {
				unsup("pure contract with an argument of type %s: %s", a.T, key)
			}
			x.pureUse(a.C[0])
		}
		if sl, ok := under(a.T).(*types.Slice); ok {
			k := typeKey(sl.Elem())
			if k != "string" && k != "int32" && !strings.HasPrefix(k, "*metadata.") {
				unsup("pure contract with an argument of type %s: %s", a.T, key)
			}
			x.pureUse(a.C[0])
		}
		ts = append(ts, a.C...)
	}
	v := Val{T: t}
	for _, c := range flatten(t) {
		n := UF(fmt.Sprintf("fn.%s.%d%s", key, i, c.suffix), c.sort, ts...)
		typeFacts(n, c)
		if c.isRef {
			withRange(n, bigZero, nil)
			n.isOld = true
			addFact(n, Le2(Add(n, IntC(1)), A0))
		}
		v.C = append(v.C, n)
	}
	sliceFacts(v)
	return v
}

func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// modItems resolves a modifies expression to heap locations.
func (x *Exec) modItems(ev *Eval, n *Node) []frameItem {
	if n.Op == "call" && n.Args[0].Op == "id" {
		switch n.Args[0].S {
		case "content":
			b := ev.Eval(n.Args[1])
			if isByteSlice(b.T) {
				return []frameItem{{bytesHeap, b.C[0]}}
			}
			if x.inBuilderPkg() {
				p := under(b.T).(*types.Pointer)
				var out []frameItem
				for _, c := range flatten(p.Elem()) {
					out = append(out, frameItem{"F:stringbuilder.Builder" + c.suffix, b.C[0]})
					compSorts["F:stringbuilder.Builder"+c.suffix] = arr(SInt, c.sort)
				}
				f := under(p.Elem()).(*types.Struct)
				for i := 0; i < f.NumFields(); i++ {
					if isByteSlice(f.Field(i).Type()) {
						bv := ev.st.load(locOf(b).field(f.Field(i).Name(), f.Field(i).Type()))
						out = append(out, frameItem{bytesHeap, bv.C[0]})
					}
				}
				compSorts[bytesHeap] = arr(SInt, SStr)
				return out
			}
			compSorts[builderContent] = arr(SInt, SStr)
			compSorts[builderVer] = arr(SInt, SInt)
			return []frameItem{{builderContent, b.C[0]}, {builderVer, b.C[0]}}
		case "fields": // all fields of a struct pointer
			b := ev.Eval(n.Args[1])
			p := under(b.T).(*types.Pointer)
			var out []frameItem
			for _, c := range flatten(p.Elem()) {
				name := ptrPrefix(p.Elem()) + c.suffix
				compSorts[name] = arr(SInt, c.sort)
				compIsRef[name] = c.isRef
				out = append(out, frameItem{name, b.C[0]})
			}
			return out
		case "elems":
			b := ev.Eval(n.Args[1])
			el := under(b.T).(*types.Slice).Elem()
			var out []frameItem
			for _, c := range flatten(el) {
				name := "E:" + typeKey(el) + c.suffix
				compSorts[name] = arr(SInt, arr(SInt, c.sort))
				out = append(out, frameItem{name, b.C[0]})
			}
			return out
		case "entries":
			b := ev.Eval(n.Args[1])
			m, d, v := mapComps(b.T)
			compSorts[d] = arr(SInt, arr(keySort(m), SBool))
			out := []frameItem{{d, b.C[0]}}
			for _, c := range flatten(m.Elem()) {
				compSorts[v+c.suffix] = arr(SInt, arr(keySort(m), c.sort))
				out = append(out, frameItem{v + c.suffix, b.C[0]})
			}
			return out
		case "ghostcomp":
			return []frameItem{{n.Args[1].S, nil}}
		}
	}
	if n.Op == "id" || n.Op == "sel" && n.Args[0].Op == "id" {
		// a package-level variable
		pkg := ev.pkg
		name := n.S
		if n.Op == "sel" {
			if pk := x.w.pkgByName[n.Args[0].S]; pk != nil {
				pkg = pk.Pkg
			} else {
				pkg = nil
			}
		}
		if pkg != nil {
			if v, ok := pkg.Scope().Lookup(name).(*types.Var); ok {
				var out []frameItem
				for _, c := range flatten(v.Type()) {
					nm := "G:" + pkg.Name() + "." + name + c.suffix
					compSorts[nm] = c.sort
					compIsRef[nm] = c.isRef
					out = append(out, frameItem{nm, nil})
				}
				return out
			}
		}
	}
	if n.Op == "sel" {
		b := ev.Eval(n.Args[0])
		p := under(b.T).(*types.Pointer)
		st := under(p.Elem()).(*types.Struct)
		var out []frameItem
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n.S {
				for _, c := range flatten(st.Field(i).Type()) {
					name := ptrPrefix(p.Elem()) + "." + n.S + c.suffix
					compSorts[name] = arr(SInt, c.sort)
					compIsRef[name] = c.isRef
					out = append(out, frameItem{name, b.C[0]})
				}
			}
		}
		if out != nil {
			return out
		}
	}
	panic("contract: modifies " + n.String())
}

// ---- memory invariants ----
func (x *Exec) loadInv(st *State, l *Loc, v *Val) {
	if x.initMode {
		return
	}
	for _, m := range x.w.specs.MemInvs {
		if m.Comp == l.prefix && x.tagOK(m.Tags) {
			ev := &Eval{x: x, st: st, old: x.entry, vars: map[string]Val{"v": *v}, dyn: map[string]func(*State) Val{}}
			if l.ref != nil {
				ev.vars["o"] = vInt(l.ref)
				if pt := x.w.structType(l.prefix); pt != nil {
					ev.vars["o"] = Val{T: pt, C: []*Term{l.ref}}
				}
			}
			x.modelsUsed["assumed data invariant on "+m.Comp] = true
			key := fmt.Sprintf("%s/%v", m.Comp, v.C[0].id)
			if st.x.memDone(st, key) {
				continue
			}
			st.fact(ev.Bool(m.Expr))
		}
	}
}

func (x *Exec) memDone(st *State, key string) bool {
	k := Var("$memdone:"+key, SBool)
	if st.seen[k] {
		return true
	}
	st.seen[k] = true
	return false
}

func (x *Exec) mapInv(st *State, m Val, k *Term, v *Val) {
	if x.initMode {
		return
	}
	_, _, vals := mapComps(m.T)
	for _, mi := range x.w.specs.MapInvs {
		if mi.Comp == vals && x.tagOK(mi.Tags) {
			ev := &Eval{x: x, st: st, old: x.entry, vars: map[string]Val{"v": *v, "m": m, "k": {T: under(m.T).(*types.Map).Key(), C: []*Term{k}}}, dyn: map[string]func(*State) Val{}}
			key := fmt.Sprintf("%s/%v/%v/%v", mi.Comp, m.C[0].id, k.id, v.C[0].id)
			if x.memDone(st, key) {
				continue
			}
			x.modelsUsed["assumed data invariant on "+mi.Comp] = true
			st.fact(Imp(st.mapHas(m, k), ev.Bool(mi.Expr)))
		}
	}
}

// mapInvCheck: an update of a map with a declared invariant must keep it.
func (x *Exec) mapInvCheck(st *State, m, k, v Val) {
	if x.initMode {
		return
	}
	_, _, vals := mapComps(m.T)
	for _, mi := range x.w.specs.MapInvs {
		if mi.Comp == vals && x.tagOK(mi.Tags) {
			ev := &Eval{x: x, st: st, old: x.entry, vars: map[string]Val{"v": v, "m": m, "k": k}, dyn: map[string]func(*State) Val{}}
			x.oblige(st, "inv", "map entry invariant of "+vals, ev.Bool(mi.Expr))
		}
	}
}

// snapshot gives the field values of a number: for each field whether it is set and its value.
func snapshot(st *State, a Val) []*Term {
	et := under(a.T).(*types.Pointer).Elem()
	s := under(et).(*types.Struct)
	ts := []*Term{Eq(a.C[0], IntC(0))}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if !f.Exported() {
			continue
		}
		p, ok := under(f.Type()).(*types.Pointer)
		if !ok {
			unsup("field %s of a number", f.Name())
		}
		fv := st.load(&Loc{prefix: ptrPrefix(et) + "." + f.Name(), ref: a.C[0], T: f.Type()})
		if o := a.Over[f.Name()]; o != nil {
			ts = append(ts, True, o)
			continue
		}
		set := Ne(fv.C[0], IntC(0))
		vv := st.load(&Loc{prefix: ptrPrefix(p.Elem()), ref: fv.C[0], T: p.Elem()})
		z := zeroVal(p.Elem())
		ts = append(ts, set, Ite(set, vv.C[0], z.C[0]))
	}
	return ts
}

func isAllocTerm(t *Term) bool {
	if t == nil {
		return false
	}
	_, _, ok := splitBase(t)
	return ok
}

func frozenComp(comp string) bool {
	return strings.Contains(comp, "metadata.") || strings.HasPrefix(comp, "E:string") || strings.HasPrefix(comp, "E:int32")
}

func (x *Exec) pureUse(ref *Term) {
	if x.frozenWritten != "" {
		unsup("pure application after a write to %s", x.frozenWritten)
	}
	if x.pureRefs == nil {
		x.pureRefs = map[*Term]bool{}
	}
	x.pureRefs[ref] = true
}

// frozenWrite: objects identified by reference in pure applications must not change.
func (x *Exec) frozenWrite(comp string, ref *Term) {
	if !frozenComp(comp) {
		return
	}
	if isAllocTerm(ref) {
		if x.pureRefs[ref] {
			unsup("write to %s of an object already passed to a pure function", comp)
		}
		return
	}
	if len(x.pureRefs) > 0 {
		unsup("write to %s after a pure application", comp)
	}
	x.frozenWritten = comp
}

// impure looks for anything that makes a function depend on more than its arguments and the loaded metadata.
func (w *World) impure(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.Range:
				if _, ok := under(t.X.Type()).(*types.Map); ok {
					return "map iteration in " + fnKey(fn)
				}
			case *ssa.Select, *ssa.Go, *ssa.Send:
				return "concurrency in " + fnKey(fn)
			}
			for _, op := range ins.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Global:
					if w.repoPkgs[v.Pkg] && w.mutable[v] {
						k := globKey(v)
						// the installed metadata, and the pattern cache (whose coherence is C21)
						if k != "metadata.current" && v.Pkg.Pkg.Name() != "regexcache" {
							return "mutable global " + k + " in " + fnKey(fn)
						}
					}
				case *ssa.Function:
					if len(v.Blocks) > 0 && v.Pkg != nil && w.repoPkgs[v.Pkg] || v.Parent() != nil {
						if s := w.impure(v, seen); s != "" {
							return s
						}
					}
				}
			}
		}
	}
	return ""
}

// mentions reports whether an expression refers to a name, directly or through definitions.
func (sp *Specs) mentions(n *Node, name string, seen map[string]bool) bool {
	if n == nil {
		return false
	}
	if (n.Op == "id" || n.Op == "call") && n.S != "" {
		if n.S == name {
			return true
		}
		if d := sp.Defines[n.S]; d != nil && !seen[n.S] {
			seen[n.S] = true
			if sp.mentions(d.Body, name, seen) {
				return true
			}
		}
	}
	for _, a := range n.Args {
		if sp.mentions(a, name, seen) {
			return true
		}
	}
	return false
}

// choiceError: a chosen constant stands for an arbitrary value in the contracts that mention it, so the
// function that chooses it must not, and no axiom or memory invariant may.
func (sp *Specs) choiceError(f *FuncSpec) string {
	for _, c := range f.Choose {
		g := sp.Ghosts[c.Text]
		if g == nil || len(g.Args) > 0 {
			return "choose: " + c.Text + " is not an argumentless ghost"
		}
		var es []*Node
		for _, l := range [][]Clause{f.Requires, f.Assumes, f.Ensures, f.Defines, f.YieldPre, f.Modifies, sp.Axioms} {
			for _, k := range l {
				es = append(es, k.Expr)
			}
		}
		for _, m := range sp.MemInvs {
			es = append(es, m.Expr)
		}
		for _, m := range sp.MapInvs {
			es = append(es, m.Expr)
		}
		es = append(es, c.Expr)
		for _, e := range es {
			if sp.mentions(e, c.Text, map[string]bool{}) {
				return "choose: " + c.Text + " occurs in the contract that chooses it or in an assumption"
			}
		}
	}
	return ""
}

func hasQuantifier(t *Term, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if t.Op == "forall" || t.Op == "exists" {
		return true
	}
	for _, a := range t.Args {
		if hasQuantifier(a, seen) {
			return true
		}
	}
	return false
}

var boundName = regexp.MustCompile(`\|q\.[^|]*\|`)

// canonBound names bound variables by their order of appearance.
func canonBound(s string) string {
	names := map[string]string{}
	return boundName.ReplaceAllStringFunc(s, func(n string) string {
		if names[n] == "" {
			names[n] = fmt.Sprintf("|q%d|", len(names))
		}
		return names[n]
	})
}
