package main

// Hash-consed terms over SMT-LIB (Int, Bool, String, arrays) with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// elemSort returns the value sort of an array sort.
func arrParts(s Sort) (Sort, Sort) {
	x := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	// key is a simple token or parenthesised
	depth := 0
	for i, c := range x {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(x[:i]), Sort(x[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	id   int
	Op   string // "int","str","true","false","var","uf", or an SMT operator; "forall","exists"
	Args []*Term
	Sort Sort
	Int  *big.Int
	Str  string // literal, var name or uf name
	Vars []*Term

	isOld bool // a reference known to be allocated before function entry (or nil)
	rng   *rngInfo
	nfree int
}

type rngInfo struct{ lo, hi *big.Int }

type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh map[string]int
	// facts attached to a term: universally valid formulas asserted whenever the term occurs in a query
	facts map[*Term][]*Term
	// uf signatures
	ufs map[string]ufSig
	// base ranks for allocation bases
	baseRank map[*Term]int
	rankN    int
}

type ufSig struct {
	args []Sort
	res  Sort
}

var C = newCtx()

func newCtx() *Ctx {
	return &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, facts: map[*Term][]*Term{}, ufs: map[string]ufSig{}, baseRank: map[*Term]int{}}
}

func mk(op string, sort Sort, s string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	b.WriteByte('|')
	b.WriteString(string(sort))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := C.tab[k]; ok {
		return t
	}
	C.n++
	t := &Term{id: C.n, Op: op, Args: args, Sort: sort, Str: s}
	C.tab[k] = t
	return t
}

func IntB(v *big.Int) *Term {
	t := mk("int", SInt, v.String())
	if t.Int == nil {
		t.Int = new(big.Int).Set(v)
	}
	return t
}
func IntC(v int64) *Term  { return IntB(big.NewInt(v)) }
func StrC(s string) *Term { return mk("str", SStr, s) }

var (
	True  = mk("true", SBool, "")
	False = mk("false", SBool, "")
)

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Var(name string, s Sort) *Term { return mk("var", s, name) }
func Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	C.fresh[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, C.fresh[prefix]), s)
}
func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func UF(name string, res Sort, args ...*Term) *Term {
	sig := ufSig{res: res}
	for _, a := range args {
		sig.args = append(sig.args, a.Sort)
	}
	if old, ok := C.ufs[name]; ok {
		if fmt.Sprint(old) != fmt.Sprint(sig) {
			panic(fmt.Sprintf("uf %s used with %v and %v", name, old, sig))
		}
	} else {
		C.ufs[name] = sig
	}
	return mk("uf", res, name, args...)
}

func addFact(t *Term, f *Term) {
	if f == True {
		return
	}
	for _, g := range C.facts[t] {
		if g == f {
			return
		}
	}
	C.facts[t] = append(C.facts[t], f)
}

func (t *Term) isConst() bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "true" || t.Op == "false"
}

// ---- boolean ----
func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk("not", SBool, "", a)
}
func And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == True || seen[x] {
			return true
		}
		if x == False {
			return false
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, "", out...)
}
func Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == False || seen[x] {
			return true
		}
		if x == True {
			return false
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: (a and b) or (a and not b) -> a  (common from path merging)
	if len(out) == 2 {
		if m := mergeConj(out[0], out[1]); m != nil {
			return m
		}
	}
	return mk("or", SBool, "", out...)
}
func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}
func mergeConj(a, b *Term) *Term {
	ca, cb := conjuncts(a), conjuncts(b)
	inB := map[*Term]bool{}
	for _, x := range cb {
		inB[x] = true
	}
	inA := map[*Term]bool{}
	for _, x := range ca {
		inA[x] = true
	}
	var common, da, db []*Term
	for _, x := range ca {
		if inB[x] {
			common = append(common, x)
		} else {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !inA[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 || len(db) == 0 {
		return And(common...)
	}
	if len(da) == 1 && len(db) == 1 && da[0] == Not(db[0]) {
		return And(common...)
	}
	// x or (not x and y)  ->  x or y
	if len(da) == 1 {
		for i, y := range db {
			if y == Not(da[0]) {
				rest := append(append([]*Term{}, db[:i]...), db[i+1:]...)
				return And(append(append([]*Term{}, common...), mkOr2(da[0], And(rest...)))...)
			}
		}
	}
	if len(db) == 1 {
		for i, y := range da {
			if y == Not(db[0]) {
				rest := append(append([]*Term{}, da[:i]...), da[i+1:]...)
				return And(append(append([]*Term{}, common...), mkOr2(db[0], And(rest...)))...)
			}
		}
	}
	if len(common) > 0 {
		return And(append(append([]*Term{}, common...), mkOr2(And(da...), And(db...)))...)
	}
	return nil
}
func mkOr2(a, b *Term) *Term {
	if a == True || b == True {
		return True
	}
	if a == b {
		return a
	}
	if a == False {
		return b
	}
	if b == False {
		return a
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, z := range []*Term{a, b} {
		zs := []*Term{z}
		if z.Op == "or" {
			zs = z.Args
		}
		for _, y := range zs {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, "", out...)
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if (c.Op == "and" || c.Op == "or") && len(c.Args) <= 3 && litsOnly(c.Args) {
		rest := c.Args[1:]
		if c.Op == "and" {
			return Ite(c.Args[0], Ite(And(rest...), a, b), b)
		}
		return Ite(c.Args[0], a, Ite(Or(rest...), a, b))
	}
	t := mk("ite", a.Sort, "", c, a, b)
	if a.isOldRef() && b.isOldRef() {
		t.isOld = true
	}
	return t
}

func litsOnly(xs []*Term) bool {
	for _, x := range xs {
		if x.Op == "not" {
			x = x.Args[0]
		}
		switch x.Op {
		case "and", "or", "ite", "=>":
			return false
		}
	}
	return true
}

func (t *Term) isOldRef() bool {
	return t.isOld || t.Op == "int"
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s : %s  vs  %s : %s", a, a.Sort, b, b.Sort))
	}
	if a.isConst() && b.isConst() {
		return False // distinct hash-consed constants
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if a.Sort == SInt {
		if refDistinct(a, b) {
			return False
		}
		if d := linDiff(a, b); d != nil {
			return BoolC(d.Sign() == 0)
		}
		// range-based
		if b.Op == "int" || a.Op == "int" {
			x, c := a, b
			if a.Op == "int" {
				x, c = b, a
			}
			lo, hi := bounds(x)
			if lo != nil && c.Int.Cmp(lo) < 0 || hi != nil && c.Int.Cmp(hi) > 0 {
				return False
			}
		}
	}
	if a.Sort == SStr {
		// strip common prefixes / suffixes of concatenations
		pa, pb := concatParts(a), concatParts(b)
		changed := false
		for len(pa) > 0 && len(pb) > 0 {
			if pa[0] == pb[0] {
				pa, pb = pa[1:], pb[1:]
				changed = true
				continue
			}
			if pa[0].Op == "str" && pb[0].Op == "str" {
				x, y := pa[0].Str, pb[0].Str
				n := 0
				for n < len(x) && n < len(y) && x[n] == y[n] {
					n++
				}
				if n < len(x) && n < len(y) {
					return False
				}
				if n == 0 {
					break
				}
				pa = append(strPart(x[n:]), pa[1:]...)
				pb = append(strPart(y[n:]), pb[1:]...)
				changed = true
				continue
			}
			break
		}
		for len(pa) > 0 && len(pb) > 0 {
			la, lb := pa[len(pa)-1], pb[len(pb)-1]
			if la == lb {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				changed = true
				continue
			}
			if la.Op == "str" && lb.Op == "str" {
				x, y := la.Str, lb.Str
				n := 0
				for n < len(x) && n < len(y) && x[len(x)-1-n] == y[len(y)-1-n] {
					n++
				}
				if n < len(x) && n < len(y) {
					return False
				}
				if n == 0 {
					break
				}
				pa = append(append([]*Term{}, pa[:len(pa)-1]...), strPart(x[:len(x)-n])...)
				pb = append(append([]*Term{}, pb[:len(pb)-1]...), strPart(y[:len(y)-n])...)
				changed = true
				continue
			}
			break
		}
		if changed {
			na, nb := Concat(pa...), Concat(pb...)
			return Eq(na, nb)
		}
		if a.Op == "str" && a.Str == "" {
			a, b = b, a
		}
		if b.Op == "str" && b.Str == "" {
			if a.Op == "str.++" {
				for _, p := range a.Args {
					if p.Op == "str" && p.Str != "" {
						return False
					}
				}
			}
		}
	}
	if a.Op == "ite" && b.isConst() {
		if a.Args[1].isConst() || a.Args[2].isConst() {
			return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
		}
	}
	if b.Op == "ite" && a.isConst() {
		if b.Args[1].isConst() || b.Args[2].isConst() {
			return Ite(b.Args[0], Eq(b.Args[1], a), Eq(b.Args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, "", a, b)
}
func strPart(s string) []*Term {
	if s == "" {
		return nil
	}
	return []*Term{StrC(s)}
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- integers ----
// linear normal form: map term->coef plus const
type lin struct {
	m map[*Term]*big.Int
	c *big.Int
}

func toLin(t *Term) lin {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	addLin(&l, t, big.NewInt(1))
	return l
}
func addLin(l *lin, t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Int))
		return
	case "+":
		for _, a := range t.Args {
			addLin(l, a, k)
		}
		return
	case "*":
		if t.Args[0].Op == "int" {
			addLin(l, t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
			return
		}
	}
	if l.m[t] == nil {
		l.m[t] = new(big.Int)
	}
	l.m[t].Add(l.m[t], k)
	if l.m[t].Sign() == 0 {
		delete(l.m, t)
	}
}
func fromLin(l lin) *Term {
	var ks []*Term
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var parts []*Term
	for _, k := range ks {
		co := l.m[k]
		if co.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, k)
		} else {
			parts = append(parts, mk("*", SInt, "", IntB(co), k))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IntB(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return mk("+", SInt, "", parts...)
}
func Add(xs ...*Term) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	for _, x := range xs {
		addLin(&l, x, big.NewInt(1))
	}
	return fromLin(l)
}
func Neg(a *Term) *Term { return MulC(-1, a) }
func MulC(k int64, a *Term) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	addLin(&l, a, big.NewInt(k))
	return fromLin(l)
}
func Sub(a, b *Term) *Term {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	addLin(&l, a, big.NewInt(1))
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}
func Mul(a, b *Term) *Term {
	if a.Op == "int" {
		l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
		addLin(&l, b, a.Int)
		return fromLin(l)
	}
	if b.Op == "int" {
		return Mul(b, a)
	}
	return mk("*", SInt, "", a, b)
}
func linDiff(a, b *Term) *big.Int {
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	addLin(&l, a, big.NewInt(1))
	addLin(&l, b, big.NewInt(-1))
	if len(l.m) == 0 {
		return l.c
	}
	return nil
}

// Div/Mod: SMT-LIB (floor for positive divisor); callers deal with Go truncation.
func Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return IntB(q)
	}
	t := mk("div", SInt, "", a, b)
	if b.Op == "int" && b.Int.IsInt64() && b.Int.Int64() == 10 && len(C.facts[t]) == 0 {
		// the decimal rendering of the quotient is that of a without its last digit
		addFact(t, mk("=>", SBool, "", Le2(IntC(10), a), mk("=", SBool, "", decTerm(a), mk("str.++", SStr, "", decTerm(t), mk("str.from_code", SStr, "", Add(IntC(48), Mod(a, IntC(10))))))))
	}
	return t
}
func Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.Int, b.Int, m)
		return IntB(m)
	}
	if b.Op == "int" && b.Int.Sign() > 0 {
		lo, hi := bounds(a)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return a
		}
	}
	return mk("mod", SInt, "", a, b)
}

// bounds computes constant bounds known for an Int term.
func bounds(t *Term) (lo, hi *big.Int) {
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "str.len":
		lo = big.NewInt(0)
		for _, p := range concatParts(t.Args[0]) {
			if p.Op == "str" {
				lo = new(big.Int).Add(lo, big.NewInt(int64(len(p.Str))))
			}
		}
		if t.rng != nil && t.rng.hi != nil {
			hi = t.rng.hi
		}
		return lo, hi
	case "ite":
		l1, h1 := bounds(t.Args[1])
		l2, h2 := bounds(t.Args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].Int.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1))
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].Int.Sign() > 0 {
			l1, h1 := bounds(t.Args[0])
			if l1 != nil {
				lo = new(big.Int).Div(l1, t.Args[1].Int)
			}
			if h1 != nil {
				hi = new(big.Int).Div(h1, t.Args[1].Int)
			}
			return
		}
	case "+":
		lo, hi = big.NewInt(0), big.NewInt(0)
		for _, a := range t.Args {
			l1, h1 := bounds(a)
			if l1 == nil {
				lo = nil
			} else if lo != nil {
				lo = new(big.Int).Add(lo, l1)
			}
			if h1 == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Add(hi, h1)
			}
		}
		return
	case "*":
		if t.Args[0].Op == "int" {
			l1, h1 := bounds(t.Args[1])
			k := t.Args[0].Int
			if k.Sign() < 0 {
				l1, h1 = h1, l1
			}
			if l1 != nil {
				lo = new(big.Int).Mul(k, l1)
			}
			if h1 != nil {
				hi = new(big.Int).Mul(k, h1)
			}
			return
		}
	}
	if t.rng != nil {
		return t.rng.lo, t.rng.hi
	}
	return nil, nil
}

func Le(a, b *Term) *Term {
	if d := linDiff(a, b); d != nil {
		return BoolC(d.Sign() <= 0)
	}
	df := Sub(a, b)
	lo, hi := bounds(df)
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	// canonical form: keep a<=b
	return mk("<=", SBool, "", a, b)
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func withRange(t *Term, lo, hi *big.Int) *Term {
	if t.Op == "int" || t.rng != nil {
		return t
	}
	t.rng = &rngInfo{lo, hi}
	// raw facts (do not go through Le, which would fold them to true)
	if lo != nil {
		addFact(t, mk("<=", SBool, "", IntB(lo), t))
	}
	if hi != nil {
		addFact(t, mk("<=", SBool, "", t, IntB(hi)))
	}
	return t
}

// ---- references ----
func splitBase(t *Term) (base *Term, k int64, ok bool) {
	if _, b := C.baseRank[t]; b {
		return t, 0, true
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].Op == "int" {
		if _, b := C.baseRank[t.Args[0]]; b {
			return t.Args[0], t.Args[1].Int.Int64(), true
		}
	}
	return nil, 0, false
}
func newBase(name string) *Term {
	t := Fresh(name, SInt)
	C.rankN++
	C.baseRank[t] = C.rankN
	return t
}

// refDistinct: syntactically certain that two references differ.
func refDistinct(a, b *Term) bool {
	ba, ka, oka := splitBase(a)
	bb, kb, okb := splitBase(b)
	if oka && okb {
		return ba != bb || ka != kb
	}
	if oka && b.isOldRef() || okb && a.isOldRef() {
		return true
	}
	if oka && b.Op == "ite" {
		return refDistinct(a, b.Args[1]) && refDistinct(a, b.Args[2])
	}
	if okb && a.Op == "ite" {
		return refDistinct(b, a.Args[1]) && refDistinct(b, a.Args[2])
	}
	return false
}

// ---- arrays ----
func Select(a, i *Term) *Term {
	_, v := arrParts(a.Sort)
	for a.Op == "store" {
		e := Eq(a.Args[1], i)
		if e == True {
			return a.Args[2]
		}
		if e == False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "const" {
		return a.Args[0]
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") {
		x, y := Select(a.Args[1], i), Select(a.Args[2], i)
		if x == y {
			return x
		}
	}
	if i.Op == "ite" && a.Op == "store" {
		x, y := Select(a, i.Args[1]), Select(a, i.Args[2])
		return Ite(i.Args[0], x, y)
	}
	return mk("select", v, "", a, i)
}
func Store(a, i, v *Term) *Term {
	_, vs := arrParts(a.Sort)
	if vs != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.Sort, a.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", a.Sort, "", a, i, v)
}
func ConstArr(s Sort, v *Term) *Term { return mk("const", s, "", v) }

// ---- strings ----
func concatParts(t *Term) []*Term {
	if t.Op == "str.++" {
		return t.Args
	}
	if t.Op == "str" && t.Str == "" {
		return nil
	}
	return []*Term{t}
}
func Concat(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		for _, p := range concatParts(x) {
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = StrC(out[len(out)-1].Str + p.Str)
				continue
			}
			// merge adjacent substr of same string: substr(s,a,n) ++ substr(s,a+n,m)
			if len(out) > 0 {
				if m := mergeSubstr(out[len(out)-1], p); m != nil {
					out = out[:len(out)-1]
					out = append(out, concatParts(m)...)
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("str.++", SStr, "", out...)
}
func mergeSubstr(a, b *Term) *Term { return nil }

func Len(s *Term) *Term {
	switch s.Op {
	case "str":
		return IntC(int64(len(s.Str)))
	case "str.++":
		var xs []*Term
		for _, p := range s.Args {
			xs = append(xs, Len(p))
		}
		return Add(xs...)
	case "ite":
		if s.Args[1].isConst() && s.Args[2].isConst() {
			return Ite(s.Args[0], Len(s.Args[1]), Len(s.Args[2]))
		}
	}
	t := mk("str.len", SInt, "", s)
	return t
}
func Substr(s, i, n *Term) *Term {
	if i.Op == "int" && n.Op == "int" && s.Op == "str" {
		a, k := i.Int.Int64(), n.Int.Int64()
		if a >= 0 && k >= 0 && a+k <= int64(len(s.Str)) {
			return StrC(s.Str[a : a+k])
		}
	}
	if n.Op == "int" && n.Int.Sign() <= 0 {
		return StrC("")
	}
	if i.Op == "int" && i.Int.Sign() == 0 && n == Len(s) {
		return s
	}
	// substr of concat with aligned boundaries
	if s.Op == "str.++" {
		if i.Op == "int" && i.Int.Sign() == 0 {
			// drop parts fully covered: n == sum of lens of a prefix of parts
			var acc []*Term
			tot := IntC(0)
			for _, p := range s.Args {
				if n == tot {
					return Concat(acc...)
				}
				acc = append(acc, p)
				tot = Add(tot, Len(p))
			}
		}
		// suffix from boundary
		tot := IntC(0)
		for j, p := range s.Args {
			if i == tot && j > 0 {
				rest := Concat(s.Args[j:]...)
				return Substr(rest, IntC(0), n)
			}
			tot = Add(tot, Len(p))
			_ = p
		}
		if i.Op == "int" && s.Args[0].Op == "str" && i.Int.Sign() > 0 && i.Int.Cmp(big.NewInt(int64(len(s.Args[0].Str)))) < 0 {
			k := int(i.Int.Int64())
			rest := Concat(append([]*Term{StrC(s.Args[0].Str[k:])}, s.Args[1:]...)...)
			return Substr(rest, IntC(0), n)
		}
	}
	return mk("str.substr", SStr, "", s, i, n)
}
func At(s, i *Term) *Term { // one-char string
	if s.Op == "str" && i.Op == "int" {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Str)) {
			return StrC(s.Str[k : k+1])
		}
		return StrC("")
	}
	if s.Op == "str.++" && i.Op == "int" && s.Args[0].Op == "str" {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(s.Args[0].Str)) {
			return StrC(s.Args[0].Str[k : k+1])
		}
	}
	return mk("str.at", SStr, "", s, i)
}
func Code(s *Term) *Term {
	if s.Op == "str" && len(s.Str) == 1 {
		return IntC(int64(s.Str[0]))
	}
	if s.Op == "str.from_code" {
		lo, hi := bounds(s.Args[0])
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(255)) <= 0 {
			return s.Args[0]
		}
	}
	t := mk("str.to_code", SInt, "", s)
	return withRange(t, big.NewInt(-1), big.NewInt(255))
}
func FromCode(n *Term) *Term {
	if n.Op == "int" {
		k := n.Int.Int64()
		if k >= 0 && k < 256 {
			return StrC(string([]byte{byte(k)}))
		}
	}
	if n.Op == "str.to_code" && n.Args[0].Op == "str.at" {
		// valid when in range; keep as is only via solver
	}
	return mk("str.from_code", SStr, "", n)
}
func ByteAt(s, i *Term) *Term { return Code(At(s, i)) }

func PrefixOf(p, s *Term) *Term {
	if p.Op == "str" && p.Str == "" {
		return True
	}
	if p.Op == "str" && s.Op == "str" {
		return BoolC(strings.HasPrefix(s.Str, p.Str))
	}
	if p == s {
		return True
	}
	ps := concatParts(s)
	pp := concatParts(p)
	if len(pp) <= len(ps) {
		ok := true
		for i := range pp {
			if pp[i] != ps[i] {
				ok = false
				break
			}
		}
		if ok {
			return True
		}
	}
	if len(ps) > 0 && len(pp) > 0 && ps[0].Op == "str" && pp[0].Op == "str" {
		a, b := pp[0].Str, ps[0].Str
		n := min(len(a), len(b))
		if a[:n] != b[:n] {
			return False
		}
		if len(pp) == 1 && len(a) <= len(b) {
			return True
		}
	}
	return mk("str.prefixof", SBool, "", p, s)
}
func SuffixOf(p, s *Term) *Term {
	if p.Op == "str" && p.Str == "" {
		return True
	}
	if p.Op == "str" && s.Op == "str" {
		return BoolC(strings.HasSuffix(s.Str, p.Str))
	}
	if p == s {
		return True
	}
	return mk("str.suffixof", SBool, "", p, s)
}
func Contains(s, p *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return BoolC(strings.Contains(s.Str, p.Str))
	}
	if p.Op == "str" && p.Str == "" {
		return True
	}
	return mk("str.contains", SBool, "", s, p)
}
func IndexOf(s, p, from *Term) *Term {
	if s.Op == "str" && p.Op == "str" && from.Op == "int" {
		k := int(from.Int.Int64())
		if k >= 0 && k <= len(s.Str) {
			r := strings.Index(s.Str[k:], p.Str)
			if r >= 0 {
				r += k
			}
			return IntC(int64(r))
		}
	}
	t := mk("str.indexof", SInt, "", s, p, from)
	return withRange(t, big.NewInt(-1), nil)
}
func FromInt(n *Term) *Term {
	if n.Op == "int" && n.Int.Sign() >= 0 {
		return StrC(n.Int.String())
	}
	return mk("str.from_int", SStr, "", n)
}
func StrLt(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str" {
		return BoolC(a.Str < b.Str)
	}
	return mk("str.<", SBool, "", a, b)
}

// ---- quantifiers ----
func Forall(vs []*Term, body *Term) *Term {
	if body == True {
		return True
	}
	body = absIndex(vs, body)
	t := mk("forall", SBool, quantKey(vs), body)
	t.Vars = vs
	return t
}
func Exists(vs []*Term, body *Term) *Term {
	if body == False {
		return False
	}
	body = absIndex(vs, body)
	t := mk("exists", SBool, quantKey(vs), body)
	t.Vars = vs
	return t
}
// absIndex re-expresses a quantifier over q that indexes arrays at q+T as one over the absolute index, so that
// the array read is a usable instantiation pattern.
func absIndex(vs []*Term, body *Term) *Term {
	for _, q := range vs {
		if q.Sort != SInt {
			continue
		}
		var off *Term
		bad := false
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.Op == "select" && occurs(q, t.Args[1]) {
				d := Sub(t.Args[1], q)
				if occurs(q, d) {
					bad = true
				} else if off == nil {
					off = d
				} else if off != d {
					bad = true
				}
			}
			for _, a := range t.Args {
				rec(a)
			}
		}
		rec(body)
		if bad || off == nil || off.Op == "int" {
			continue
		}
		inner := false
		for _, v := range vs {
			if occurs(v, off) {
				inner = true
			}
		}
		if !inner {
			body = subst(body, map[*Term]*Term{q: Sub(q, off)})
		}
	}
	return body
}
func quantKey(vs []*Term) string {
	var b strings.Builder
	for _, v := range vs {
		b.WriteString(v.Str + ":" + string(v.Sort) + " ")
	}
	return b.String()
}

// ---- substitution ----
func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}
func rebuild(x *Term, a []*Term) *Term {
	switch x.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "div":
		return Div(a[0], a[1])
	case "mod":
		return Mod(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.++":
		return Concat(a...)
	case "str.len":
		return Len(a[0])
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	case "str.at":
		return At(a[0], a[1])
	case "str.to_code":
		return Code(a[0])
	case "str.from_code":
		return FromCode(a[0])
	case "str.prefixof":
		return PrefixOf(a[0], a[1])
	case "str.suffixof":
		return SuffixOf(a[0], a[1])
	case "str.contains":
		return Contains(a[0], a[1])
	case "str.indexof":
		return IndexOf(a[0], a[1], a[2])
	case "str.from_int":
		return FromInt(a[0])
	case "uf":
		if x.Str == "dec" && a[0].Op == "int" {
			return decTerm(a[0])
		}
		if x.Str == "re.match" && a[0].Op == "str" {
			return reMatch(a[0], a[1])
		}
		t := mk("uf", x.Sort, x.Str, a...)
		if x.rng != nil && t.rng == nil {
			withRange(t, x.rng.lo, x.rng.hi)
		}
		return t
	case "forall":
		t := mk("forall", SBool, x.Str, a[0])
		t.Vars = x.Vars
		return t
	case "exists":
		t := mk("exists", SBool, x.Str, a[0])
		t.Vars = x.Vars
		return t
	}
	t := mk(x.Op, x.Sort, x.Str, a...)
	return t
}

// ---- printing ----
func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c >= 0x20 && c < 0x7f && c != '\\' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "\\u{%x}", c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(s string) string { return "|" + s + "|" }

func (t *Term) String() string {
	var b strings.Builder
	t.print(&b, nil)
	return b.String()
}

// print with optional let-sharing names
func (t *Term) print(b *strings.Builder, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	t.printTop(b, names)
}
func (t *Term) printTop(b *strings.Builder, names map[*Term]string) {
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			b.WriteString("(- " + new(big.Int).Neg(t.Int).String() + ")")
		} else {
			b.WriteString(t.Int.String())
		}
	case "str":
		b.WriteString(smtStr(t.Str))
	case "true", "false":
		b.WriteString(t.Op)
	case "var":
		b.WriteString(quoteSym(t.Str))
	case "uf":
		if len(t.Args) == 0 {
			b.WriteString(quoteSym(t.Str))
			return
		}
		b.WriteString("(" + quoteSym(t.Str))
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.print(b, names)
		}
		b.WriteByte(')')
	case "real":
		b.WriteString(t.Str)
	case "uf-all":
		b.WriteString("(" + quoteSym("all:"+t.Str) + " ")
		t.Args[0].print(b, names)
		b.WriteByte(')')
	case "const":
		b.WriteString("((as const " + string(t.Sort) + ") ")
		t.Args[0].print(b, names)
		b.WriteByte(')')
	case "forall", "exists":
		if t.Op == "forall" {
			t = flatForall(t)
		}
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + quoteSym(v.Str) + " " + string(v.Sort) + ")")
		}
		b.WriteString(") ")
		ps := storePatterns(t)
		if len(ps) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].print(b, names)
		for _, p := range ps {
			b.WriteString(" :pattern (")
			p.print(b, names)
			b.WriteByte(')')
		}
		if len(ps) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	default:
		b.WriteString("(" + t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			a.print(b, names)
		}
		b.WriteByte(')')
	}
}

// storePatterns: a quantifier that reads an updated array at its variable is also instantiated at the
// indices read from the array before the update.
func storePatterns(t *Term) []*Term {
	if len(t.Vars) != 1 {
		return nil
	}
	q := t.Vars[0]
	var out []*Term
	has := map[*Term]bool{}
	upd := false
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "select" && x.Args[1] == q && !occurs(q, x.Args[0]) {
			a := x.Args[0]
			for {
				p := mk("select", x.Sort, "", a, q)
				if !has[p] {
					has[p] = true
					out = append(out, p)
				}
				if a.Op != "store" {
					break
				}
				upd = true
				a = a.Args[0]
			}
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t.Args[0])
	if !upd || len(out) > 6 {
		return nil
	}
	return out
}

// flatForall pulls a quantifier out of the conclusion: forall x. a or forall y. b  is  forall x, y. a or b.
func flatForall(t *Term) *Term {
	b := t.Args[0]
	if len(storePatterns(t)) > 0 {
		return t
	}
	var in *Term
	var rest []*Term
	if b.Op == "forall" {
		in = b
	} else if b.Op == "or" {
		for _, a := range b.Args {
			if a.Op == "forall" && in == nil {
				in = a
			} else {
				rest = append(rest, a)
			}
		}
	}
	if in == nil {
		return t
	}
	in = flatForall(in)
	if len(storePatterns(in)) > 0 {
		return t
	}
	for _, v := range in.Vars {
		for _, w := range t.Vars {
			if v == w {
				return t
			}
		}
		for _, r := range rest {
			if occurs(v, r) {
				return t
			}
		}
	}
	n := &Term{Op: "forall", Sort: SBool, Args: []*Term{Or(append(rest, in.Args[0])...)}}
	n.Vars = append(append([]*Term{}, t.Vars...), in.Vars...)
	return n
}
