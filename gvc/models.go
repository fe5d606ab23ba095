package main

// Assumed contracts of the standard library and protobuf runtime, and theory functions.

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, st *State, args []Val, rt types.Type) []stVal

var bigZero = big.NewInt(0)

func newBig(s string) (*big.Int, bool) { return new(big.Int).SetString(s, 10) }

// functions of the standard library whose bodies are executed
var inlineStd = map[string]bool{}

func vt(t types.Type, c ...*Term) Val { return Val{T: t, C: c} }

// ---- theory terms ----
var pow10 = func() []*big.Int {
	out := []*big.Int{big.NewInt(1)}
	for i := 0; i < 21; i++ {
		out = append(out, new(big.Int).Mul(out[len(out)-1], big.NewInt(10)))
	}
	return out
}()

// decTerm: decimal rendering of a non-negative integer.
func decTerm(n *Term) *Term {
	if n.Op == "int" && n.Int.Sign() >= 0 {
		return StrC(n.Int.String())
	}
	if n.Op == "ite" && (n.Args[1].isConst() || n.Args[2].isConst()) {
		return Ite(n.Args[0], decTerm(n.Args[1]), decTerm(n.Args[2]))
	}
	t := UF("dec", SStr, n)
	if len(C.facts[t]) == 0 {
		ln := mk("str.len", SInt, "", t)
		addFact(t, mk("=>", SBool, "", Le2(IntC(0), n), Eq(UF("decval", SInt, t), n)))
		addFact(t, Le2(IntC(1), ln))
		_, hi := bounds(n)
		for k := 1; k <= 20; k++ {
			if hi != nil && pow10[k].Cmp(hi) > 0 {
				addFact(t, Le2(ln, IntC(int64(k))))
				break
			}
			if k <= 19 {
				addFact(t, mk("=", SBool, "", Le2(IntB(pow10[k]), n), Le2(IntC(int64(k+1)), ln)))
			}
		}
		addFact(t, mk("=", SBool, "", mk("=", SBool, "", n, IntC(0)), mk("=", SBool, "", t, StrC("0"))))
		addFact(t, mk("=>", SBool, "", mk("<=", SBool, "", IntC(1), n), mk("not", SBool, "", mk("=", SBool, "", mk("str.at", SStr, "", t, IntC(0)), StrC("0")))))
		addFact(t, mk("uf-all", SBool, "0-9", t))
		// quotient by ten drops the last digit
		if n.Op == "div" && n.Args[1].Op == "int" && n.Args[1].Int.Int64() == 10 {
			m := n.Args[0]
			addFact(t, mk("=>", SBool, "", Le2(IntC(10), m), mk("=", SBool, "", decTerm(m), mk("str.++", SStr, "", t, mk("str.from_code", SStr, "", Add(IntC(48), Mod(m, IntC(10))))))))
		}
	}
	return t
}

func zerosTerm(n *Term) *Term {
	if n.Op == "int" {
		k := n.Int.Int64()
		if k < 0 {
			k = 0
		}
		return StrC(strings.Repeat("0", int(k)))
	}
	if n.Op == "ite" {
		return Ite(n.Args[0], zerosTerm(n.Args[1]), zerosTerm(n.Args[2]))
	}
	t := UF("zeros", SStr, n)
	if len(C.facts[t]) == 0 {
		ln := mk("str.len", SInt, "", t)
		addFact(t, mk("=", SBool, "", ln, mk("ite", SInt, "", Le2(IntC(0), n), n, IntC(0))))
		addFact(t, mk("uf-all", SBool, "0-9", t))
		addFact(t, mk("uf-all", SBool, "0", t))
		addFact(t, mk("=>", SBool, "", Le2(IntC(1), n), mk("str.prefixof", SBool, "", StrC("0"), t)))
	}
	return t
}

// allIn: every byte of s lies in the class.
func classHas(class string, b byte) bool {
	for i := 0; i < len(class); i++ {
		if i+2 < len(class) && class[i+1] == '-' {
			if b >= class[i] && b <= class[i+2] {
				return true
			}
			i += 2
			continue
		}
		if class[i] == b {
			return true
		}
	}
	return false
}
func classRanges(class string) [][2]int {
	var out [][2]int
	b := 0
	for b < 256 {
		if !classHas(class, byte(b)) {
			b++
			continue
		}
		e := b
		for e+1 < 256 && classHas(class, byte(e+1)) {
			e++
		}
		out = append(out, [2]int{b, e})
		b = e + 1
	}
	return out
}
func codeIn(class string, c *Term) *Term {
	var ors []*Term
	for _, r := range classRanges(class) {
		ors = append(ors, And(Le2(IntC(int64(r[0])), c), Le2(c, IntC(int64(r[1])))))
	}
	return Or(ors...)
}

func allIn(class string, s *Term) *Term {
	switch s.Op {
	case "str":
		for i := 0; i < len(s.Str); i++ {
			if !classHas(class, s.Str[i]) {
				return False
			}
		}
		return True
	case "str.++":
		var cs []*Term
		for _, a := range s.Args {
			cs = append(cs, allIn(class, a))
		}
		return And(cs...)
	case "ite":
		return Ite(s.Args[0], allIn(class, s.Args[1]), allIn(class, s.Args[2]))
	case "str.from_code":
		return codeIn(class, s.Args[0])
	}
	t := mk("uf-all", SBool, class, s)
	if len(C.facts[t]) == 0 {
		addFact(t, mk("=>", SBool, "", mk("=", SBool, "", s, StrC("")), t))
		if s.Op == "str.substr" || s.Op == "str.at" {
			addFact(t, mk("=>", SBool, "", allIn(class, s.Args[0]), t))
		}
		if s.Op == "str.at" {
			addFact(t, mk("=>", SBool, "", mk("not", SBool, "", mk("=", SBool, "", s, StrC(""))), mk("=", SBool, "", t, codeIn(class, mk("str.to_code", SInt, "", s)))))
		}
	}
	return t
}

func runeTerm(s, pos *Term) *Term {
	if s.Op == "str" && pos.Op == "int" {
		k := int(pos.Int.Int64())
		if k >= 0 && k < len(s.Str) {
			r, _ := utf8.DecodeRuneInString(s.Str[k:])
			return IntC(int64(r))
		}
	}
	return UF("rune", SInt, s, pos)
}
func widthTerm(s, pos *Term) *Term {
	if s.Op == "str" && pos.Op == "int" {
		k := int(pos.Int.Int64())
		if k >= 0 && k < len(s.Str) {
			_, n := utf8.DecodeRuneInString(s.Str[k:])
			return IntC(int64(n))
		}
	}
	return UF("width", SInt, s, pos)
}

func (x *Exec) runeAt(st *State, s, pos, ok *Term) (r, w *Term) {
	r, w = runeTerm(s, pos), widthTerm(s, pos)
	if r.Op == "int" {
		return
	}
	withRange(r, bigZero, big.NewInt(0x10FFFF))
	withRange(w, bigZero, big.NewInt(4))
	if st.known(ok) == False {
		return
	}
	b := ByteAt(s, pos)
	u := x.utf8(st, r)
	fs := []*Term{
		Le2(IntC(1), w), Le2(Add(pos, w), Len(s)),
		Imp(Lt(b, IntC(128)), And(Eq(r, b), Eq(w, IntC(1)))),
		Imp(Le(IntC(128), b), Le(IntC(128), r)),
		Le2(IntC(0), b),
		Or(Eq(Substr(s, pos, w), u), And(Eq(r, IntC(0xFFFD)), Eq(w, IntC(1)))),
		Eq(mk("str.len", SInt, "", mk("str.substr", SStr, "", s, pos, w)), w),
	}
	for _, f := range fs {
		st.fact(Imp(ok, f))
	}
	return
}
func (x *Exec) runeBoundary(st *State, s, pos *Term) {}

func (x *Exec) utf8(st *State, r *Term) *Term {
	if r.Op == "int" {
		return StrC(string(rune(r.Int.Int64())))
	}
	if r.Op == "ite" {
		return Ite(r.Args[0], x.utf8(st, r.Args[1]), x.utf8(st, r.Args[2]))
	}
	t := UF("utf8", SStr, r)
	if len(C.facts[t]) == 0 {
		asc := mk("and", SBool, "", Le2(IntC(0), r), Le2(r, IntC(127)))
		addFact(t, mk("=>", SBool, "", asc, mk("=", SBool, "", t, mk("str.from_code", SStr, "", r))))
		ln := mk("str.len", SInt, "", t)
		addFact(t, And(Le2(IntC(1), ln), Le2(ln, IntC(4))))
		addFact(t, mk("=>", SBool, "", mk("not", SBool, "", asc), And(Le2(IntC(2), ln), Le2(IntC(128), mk("str.to_code", SInt, "", mk("str.at", SStr, "", t, IntC(0)))))))
	}
	return t
}

func (x *Exec) toRunes(st *State, s *Term, t types.Type) Val {
	// elements are the decoded runes; count by runecount
	r := st.alloc()
	n := x.runeCount(st, s)
	row := UF("runes", arr(SInt, SInt), s)
	name := "E:" + typeKey(under(t).(*types.Slice).Elem())
	st.hset(name, Store(st.hget(name, arr(SInt, arr(SInt, SInt))), r, row))
	return Val{T: t, C: []*Term{r, IntC(0), n, n}}
}
func (x *Exec) fromRunes(st *State, v Val) *Term {
	name := "E:" + typeKey(under(v.T).(*types.Slice).Elem())
	row := Select(st.hget(name, arr(SInt, arr(SInt, SInt))), v.C[0])
	return UF("fromrunes", SStr, row, v.C[1], v.C[2])
}
func (x *Exec) runeCount(st *State, s *Term) *Term {
	if s.Op == "str" {
		return IntC(int64(utf8.RuneCountInString(s.Str)))
	}
	n := UF("runecount", SInt, s)
	withRange(n, bigZero, nil)
	if len(C.facts[n]) <= 1 {
		addFact(n, Le2(n, Len(s)))
		addFact(n, mk("=>", SBool, "", Le2(IntC(1), Len(s)), Le2(IntC(1), n)))
		addFact(n, mk("=>", SBool, "", mk("uf-all", SBool, "0-9", s), mk("=", SBool, "", n, Len(s))))
	}
	return n
}

func (x *Exec) foldTerm(f *Fold, s, pos *Term, ex []*Term) *Term {
	if pos.Op == "int" && pos.Int.Sign() == 0 {
		return StrC("")
	}
	if s.Op == "str" && s.Str == "" {
		return StrC("")
	}
	if s.Op == "str" && pos.Op == "int" {
		out := StrC("")
		for i := 0; i < int(pos.Int.Int64()); {
			r, n := utf8.DecodeRuneInString(s.Str[i:])
			out = Concat(out, x.foldStep(f, IntC(int64(r)), ex))
			i += n
		}
		return out
	}
	t := UF("fold."+f.Name, SStr, append([]*Term{s, pos}, ex...)...)
	if instFolds == nil {
		instFolds = map[string]func(r *Term, ex []*Term) *Term{}
	}
	if instFolds[t.Str] == nil {
		instFolds[t.Str] = func(r *Term, ex []*Term) *Term { return x.foldStep(f, r, ex) }
	}
	if len(C.facts[t]) == 0 {
		addFact(t, mk("=>", SBool, "", mk("=", SBool, "", pos, IntC(0)), mk("=", SBool, "", t, StrC(""))))
	}
	return t
}
func (x *Exec) foldStep(f *Fold, r *Term, ex []*Term) *Term {
	e := &Eval{x: x, st: x.dummy(), vars: map[string]Val{f.Rune: vInt(r)}, dyn: map[string]func(*State) Val{}}
	for i, n := range f.Extra {
		e.vars[n] = Val{T: sortType(ex[i].Sort), C: []*Term{ex[i]}}
	}
	return e.Str(f.Body)
}
func (x *Exec) dummy() *State {
	return &State{x: x, heap: map[string]*Term{}, env: map[ssa.Value]Val{}, iters: map[ssa.Value]*iterInfo{}, seen: map[*Term]bool{}, base: A0, bor: map[*Term]Borrow{}, writes: map[wr]bool{}}
}

// ---- regular expressions ----
func (x *Exec) patOf(ref *Term) *Term {
	if ref.Op == "int" {
		if s, ok := x.w.statics[ref.Int.Int64()]; ok && s.pat != nil {
			return StrC(*s.pat)
		}
	}
	if ref.Op == "ite" {
		return Ite(ref.Args[0], x.patOf(ref.Args[1]), x.patOf(ref.Args[2]))
	}
	return UF("pat", SStr, ref)
}
func reMatch(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		if re, err := regexp.Compile(p.Str); err == nil {
			return BoolC(re.MatchString(s.Str))
		}
	}
	if p.Op == "str" {
		return reMatchNamed(reCanon(p.Str), s)
	}
	return UF("re.match", SBool, p, s)
}
var reAttached = map[*Term]bool{}

func reMatchNamed(p string, s *Term) *Term {
	if ls := rePrefixes(p); len(ls) > 0 {
		ts := []*Term{}
		for _, l := range ls {
			ts = append(ts, PrefixOf(StrC(l), s))
		}
		return Or(ts...)
	}
	m := mk("uf", SBool, "re.match", StrC(p), s)
	if !reAttached[m] {
		reAttached[m] = true
		if re, err := regexp.Compile(p); err == nil && !re.MatchString("") {
			addFact(m, mk("=>", SBool, "", m, Le2(IntC(1), Len(s))))
		}
		for _, f := range reConsequences(p, func(q string) *Term { return reMatchNamed(q, s) }) {
			addFact(m, f)
		}
	}
	return m
}
func reS(p, s *Term) *Term { return withRange(UF("re.start", SInt, p, s), bigZero, nil) }
func reE(p, s *Term) *Term { return withRange(UF("re.end", SInt, p, s), bigZero, nil) }
func reGroups(p *Term) *Term {
	if p.Op == "str" {
		if re, err := regexp.Compile(p.Str); err == nil {
			return IntC(int64(re.NumSubexp()))
		}
	}
	return withRange(UF("re.ngroups", SInt, p), bigZero, big.NewInt(100))
}

// facts about a match of p in s
func (x *Exec) reFacts(st *State, p, s *Term) (m, a, b *Term) {
	m = reMatch(p, s)
	a, b = reS(p, s), reE(p, s)
	if st.known(m) == False {
		return
	}
	st.fact(Imp(m, And(Le2(a, b), Le2(b, Len(s)))))
	if p.Op == "str" {
		for _, l := range reRunes() { // a match begins at the start of a rune
			st.fact(Imp(And(m, PrefixOf(StrC(l), s)), Or(Eq(a, IntC(0)), Le(IntC(int64(len(l))), a))))
		}
		for _, l := range reRepeated(p.Str) { // a greedy repetition stops where no further rune fits
			st.fact(Imp(m, Not(PrefixOf(StrC(l), Substr(s, b, Sub(Len(s), b))))))
		}
		if reOneDigit(p.Str) {
			st.fact(Imp(And(allIn("0-9", s), Lt(IntC(0), Len(s))), And(m, Eq(a, IntC(0)), Eq(b, IntC(1)))))
		}
		if q, ok := reNamed(reAnchored(p.Str)); ok {
			st.fact(Eq(And(m, Eq(a, IntC(0))), reMatchNamed(q, s)))
		}
	}
	return
}
func (x *Exec) intSlice(st *State, t types.Type, elems []*Term, cond *Term) Val {
	r := st.alloc()
	name := "E:" + typeKey(under(t).(*types.Slice).Elem())
	row := ConstArr(arr(SInt, SInt), IntC(0))
	for i, e := range elems {
		row = Store(row, IntC(int64(i)), e)
	}
	st.hset(name, Store(st.hget(name, arr(SInt, arr(SInt, SInt))), r, row))
	n := IntC(int64(len(elems)))
	z := IntC(0)
	return Val{T: t, C: []*Term{Ite(cond, r, z), z, Ite(cond, n, z), Ite(cond, n, z)}}
}

// fork splits on a condition
func (x *Exec) fork(st *State, c *Term, yes, no func(*State) []stVal) []stVal {
	k := st.known(c)
	if k == True {
		return yes(st)
	}
	if k == False {
		return no(st)
	}
	s2 := st.clone()
	st.assume(k)
	s2.assume(Not(k))
	var out []stVal
	if !st.dead {
		out = append(out, yes(st)...)
	}
	if !s2.dead {
		out = append(out, no(s2)...)
	}
	return out
}

func strArg(st *State, v Val) *Term {
	if isByteSlice(v.T) {
		return st.bytesOf(v)
	}
	return v.C[0]
}

func findIndex(x *Exec, st *State, args []Val, rt types.Type) []stVal {
	p, s := x.patOf(args[0].C[0]), strArg(st, args[1])
	m, _, _ := x.reFacts(st, p, s)
	return x.fork(st, m, func(st *State) []stVal {
		_, a, b := x.reFacts(st, p, s)
		return one(st, x.intSlice(st, rt, []*Term{a, b}, True))
	}, func(st *State) []stVal { return one(st, zeroVal(rt)) })
}
func gS(p, s, i *Term) *Term { return withRange(UF("re.gstart", SInt, p, s, i), big.NewInt(-1), nil) }
func gE(p, s, i *Term) *Term { return withRange(UF("re.gend", SInt, p, s, i), big.NewInt(-1), nil) }

// group facts for a symbolic or constant group index
func (x *Exec) groupFacts(p, s, i, a, b *Term) *Term {
	gs, ge := gS(p, s, i), gE(p, s, i)
	return Or(And(Eq(gs, IntC(-1)), Eq(ge, IntC(-1))), And(Le2(a, gs), Le2(gs, ge), Le2(ge, b)))
}

func findSubIndex(x *Exec, st *State, args []Val, rt types.Type) []stVal {
	p, s := x.patOf(args[0].C[0]), strArg(st, args[1])
	m, _, _ := x.reFacts(st, p, s)
	return x.fork(st, m, func(st *State) []stVal {
		_, a, b := x.reFacts(st, p, s)
		ng := reGroups(p)
		r := st.alloc()
		name := "E:" + typeKey(under(rt).(*types.Slice).Elem())
		row := UF("re.subrow", arr(SInt, SInt), p, s)
		st.fact(Eq(Select(row, IntC(0)), a))
		st.fact(Eq(Select(row, IntC(1)), b))
		top := 9
		if ng.Op == "int" {
			top = int(ng.Int.Int64())
		}
		st.fact(And(Eq(gS(p, s, IntC(0)), a), Eq(gE(p, s, IntC(0)), b)))
		if ng.Op != "int" {
			st.fact(And(Eq(Select(row, MulC(2, ng)), gS(p, s, ng)), Eq(Select(row, Add(MulC(2, ng), IntC(1))), gE(p, s, ng))))
		}
		for i := 1; i <= top; i++ {
			ii := IntC(int64(i))
			in := Le(ii, ng)
			st.fact(Imp(in, And(Eq(Select(row, IntC(int64(2*i))), gS(p, s, ii)), Eq(Select(row, IntC(int64(2*i+1))), gE(p, s, ii)), x.groupFacts(p, s, ii, a, b))))
		}
		st.hset(name, Store(st.hget(name, arr(SInt, arr(SInt, SInt))), r, row))
		n := Add(MulC(2, ng), IntC(2))
		return one(st, Val{T: rt, C: []*Term{r, IntC(0), n, n}})
	}, func(st *State) []stVal { return one(st, zeroVal(rt)) })
}

func freshStrSlice(x *Exec, st *State, name string, rt types.Type) Val {
	v := freshVal(name, rt, false)
	return v
}

func (x *Exec) strSliceOf(st *State, rt types.Type, n *Term, elem func(i *Term) *Term) Val {
	return x.strSliceRow(st, rt, Fresh("strs", arr(SInt, SStr)), n, elem)
}
func (x *Exec) strSliceRow(st *State, rt types.Type, row, n *Term, elem func(i *Term) *Term) Val {
	r := st.alloc()
	name := "E:string"
	if n.Op == "int" && n.Int.Int64() <= 16 {
		for i := int64(0); i < n.Int.Int64(); i++ {
			st.fact(Eq(Select(row, IntC(i)), elem(IntC(i))))
		}
	} else {
		q := Fresh("qi", SInt)
		st.fact(Forall([]*Term{q}, Or(Not(And(Le2(IntC(0), q), Not(Le2(n, q)))), Eq(Select(row, q), elem(q)))))
	}
	st.hset(name, Store(st.hget(name, arr(SInt, arr(SInt, SStr))), r, row))
	return Val{T: rt, C: []*Term{r, IntC(0), n, n}}
}

func resErr(rt types.Type, rs ...Val) Val { return Val{T: rt, Tup: rs} }

var models map[string]model
var specFuncs map[string]func(e *Eval, as []*Node) Val

func ident1(f func(x *Exec, st *State, args []Val) *Term) model {
	return func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
		return one(st, vt(rt, f(x, st, args)))
	}
}
func noop(x *Exec, st *State, args []Val, rt types.Type) []stVal { return one(st, Val{T: rt}) }

// boxed pointer constructors of the protobuf runtime
func box(x *Exec, st *State, args []Val, rt types.Type) []stVal {
	et := under(rt).(*types.Pointer).Elem()
	p := x.allocOf(st, rt, et)
	l := locOf(p)
	v := args[0]
	for i, c := range flatten(et) {
		name := l.prefix + c.suffix
		st.hset(name, Store(st.hget(name, heapSort(l, c)), l.ref, v.C[i]))
	}
	return one(st, p)
}

func dynPtr(v Val) Val {
	if v.Dyn != nil {
		return *v.Dyn
	}
	unsup("protobuf message of unknown dynamic type")
	return Val{}
}

// numberFromASCII: relation between a digit string and its value
func parseUint(x *Exec, st *State, s *Term, bits int) (val, ok *Term) {
	val = UF("parseuint", SInt, s)
	hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1))
	withRange(val, bigZero, hi)
	ok = UF("parseok", SBool, s)
	if s.Op == "str" {
		b, good := new(big.Int).SetString(s.Str, 10)
		if good && allIn("0-9", s) == True && s.Str != "" && b.Cmp(hi) <= 0 {
			return IntB(b), True
		}
		return IntC(0), False
	}
	if len(C.facts[ok]) == 0 {
		dig := allIn("0-9", s)
		ln := Len(s)
		d := decTerm(val)
		addFact(ok, mk("=>", SBool, "", ok, And(dig, Le2(IntC(1), ln))))
		addFact(ok, mk("=>", SBool, "", And(dig, Le2(IntC(1), ln), Le2(ln, IntC(19))), ok))
		addFact(ok, mk("=>", SBool, "", ok, And(mk("=", SBool, "", s, Concat(zerosTerm(Sub(ln, Len(d))), d)), Le2(Len(d), ln))))
		addFact(val, mk("or", SBool, "", ok, Not(ok))) // brings in the facts about ok
	}
	return
}

func init() {
	models = map[string]model{
		"errors.New": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			r := st.alloc()
			if x.initMode {
				x.w.statics[r.Int.Int64()] = &static{kind: "error"}
			}
			return one(st, vt(rt, r))
		},
		"fmt.Errorf": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			return one(st, vt(rt, st.alloc()))
		},
		"fmt.Sprintf": ident1(func(x *Exec, st *State, args []Val) *Term { return Fresh("sprintf", SStr) }),
		"invoke.error.Error": ident1(func(x *Exec, st *State, args []Val) *Term { return Fresh("errtext", SStr) }),
		"errors.Is": ident1(func(x *Exec, st *State, args []Val) *Term {
			r := Fresh("errIs", SBool)
			st.fact(Imp(Eq(args[0].C[0], IntC(0)), Eq(r, Eq(args[1].C[0], IntC(0)))))
			return r
		}),
		"regexp.MustCompile": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			r := st.alloc()
			p := args[0].C[0]
			if x.initMode {
				if p.Op == "str" {
					s := p.Str
					x.w.statics[r.Int.Int64()] = &static{kind: "regexp", pat: &s}
				}
				return one(st, vt(rt, r))
			}
			if x.safety {
				x.oblige(st, "safety", "pattern given to MustCompile is a valid regular expression", UF("re.valid", SBool, p))
			}
			st.fact(Eq(UF("pat", SStr, r), p))
			return one(st, vt(rt, r))
		},
		"regexp.Regexp.String": ident1(func(x *Exec, st *State, args []Val) *Term { return x.patOf(args[0].C[0]) }),
		"regexp.Regexp.MatchString": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			p, s := x.patOf(args[0].C[0]), strArg(st, args[1])
			x.nonNil(st, args[0], "regexp")
			m, _, _ := x.reFacts(st, p, s)
			return one(st, vt(rt, m))
		},
		"regexp.Regexp.FindStringIndex":         findIndex,
		"regexp.Regexp.FindIndex":               findIndex,
		"regexp.Regexp.FindStringSubmatchIndex": findSubIndex,
		"regexp.Regexp.FindSubmatchIndex":       findSubIndex,
		"regexp.Regexp.FindString": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			p, s := x.patOf(args[0].C[0]), strArg(st, args[1])
			m, a, b := x.reFacts(st, p, s)
			return one(st, vt(rt, Ite(m, Substr(s, a, Sub(b, a)), StrC(""))))
		},
		"regexp.Regexp.FindStringSubmatch": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			p, s := x.patOf(args[0].C[0]), strArg(st, args[1])
			m, _, _ := x.reFacts(st, p, s)
			return x.fork(st, m, func(st *State) []stVal {
				_, a, b := x.reFacts(st, p, s)
				ng := reGroups(p)
				if ng.Op == "int" {
					for i := int64(1); i <= ng.Int.Int64(); i++ {
						st.fact(x.groupFacts(p, s, IntC(i), a, b))
					}
				}
				return one(st, x.strSliceOf(st, rt, Add(ng, IntC(1)), func(i *Term) *Term {
					if i.Op == "int" && i.Int.Sign() == 0 {
						return Substr(s, a, Sub(b, a))
					}
					return reGroupStr(p, s, i, a, b)
				}))
			}, func(st *State) []stVal { return one(st, zeroVal(rt)) })
		},
		"regexp.Regexp.ReplaceAllString":        ident1(func(x *Exec, st *State, args []Val) *Term { return UF("re.repl", SStr, x.patOf(args[0].C[0]), args[1].C[0], args[2].C[0]) }),
		"regexp.Regexp.ReplaceAllLiteralString": ident1(func(x *Exec, st *State, args []Val) *Term { return UF("re.repllit", SStr, x.patOf(args[0].C[0]), args[1].C[0], args[2].C[0]) }),
		"regexp.Regexp.FindAllString": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			p, s := x.patOf(args[0].C[0]), args[1].C[0]
			m, a, b := x.reFacts(st, p, s)
			n := withRange(UF("re.count", SInt, p, s, args[2].C[0]), bigZero, nil)
			st.fact(Eq(Lt(IntC(0), n), m))
			lim := args[2].C[0]
			st.fact(Imp(Le(IntC(0), lim), Le(n, lim)))
			v := x.strSliceRow(st, rt, UF("re.allrow", arr(SInt, SStr), p, s), n, func(i *Term) *Term { return UF("re.nth", SStr, p, s, i) })
			st.fact(Imp(m, Eq(UF("re.nth", SStr, p, s, IntC(0)), Substr(s, a, Sub(b, a)))))
			v.C[0] = Ite(m, v.C[0], IntC(0))
			return one(st, v)
		},
		"regexp.Regexp.Split": func(x *Exec, st *State, args []Val, rt types.Type) []stVal {
			p, s := x.patOf(args[0].C[0]), args[1].C[0]
			n := withRange(UF("re.splitn", SInt, p, s, args[2].C[0]), bigZero, nil)
			st.fact(Imp(Eq(args[2].C[0], IntC(-1)), Le(IntC(1), n)))
			return one(st, x.strSliceOf(st, rt, n, func(i *Term) *Term { return UF("re.splitnth", SStr, p, s, i) }))
		},

		"strings.HasPrefix": ident1(func(x *Exec, st *State, a []Val) *Term { return PrefixOf(a[1].C[0], a[0].C[0]) }),
		"strings.HasSuffix": ident1(func(x *Exec, st *State, a []Val) *Term { return SuffixOf(a[1].C[0], a[0].C[0]) }),
		"strings.Contains":  ident1(func(x *Exec, st *State, a []Val) *Term { return Contains(a[0].C[0], a[1].C[0]) }),
		"strings.Index":     ident1(func(x *Exec, st *State, a []Val) *Term { return strIndex(st, a[0].C[0], a[1].C[0]) }),
		"strings.IndexByte": ident1(func(x *Exec, st *State, a []Val) *Term { return strIndex(st, a[0].C[0], FromCode(a[1].C[0])) }),
		"strings.IndexRune": ident1(func(x *Exec, st *State, a []Val) *Term {
			return strIndex(st, a[0].C[0], x.utf8(st, a[1].C[0]))
		}),
		"strings.ContainsRune": ident1(func(x *Exec, st *State, a []Val) *Term { return Contains(a[0].C[0], x.utf8(st, a[1].C[0])) }),
		"strings.TrimPrefix": ident1(func(x *Exec, st *State, a []Val) *Term {
			s, p := a[0].C[0], a[1].C[0]
			return Ite(PrefixOf(p, s), Substr(s, Len(p), Sub(Len(s), Len(p))), s)
		}),
		"strings.TrimSuffix": ident1(func(x *Exec, st *State, a []Val) *Term {
			s, p := a[0].C[0], a[1].C[0]
			return Ite(SuffixOf(p, s), Substr(s, IntC(0), Sub(Len(s), Len(p))), s)
		}),
		"strings.TrimLeft": ident1(func(x *Exec, st *State, a []Val) *Term {
			r := UF("trimleft", SStr, a[0].C[0], a[1].C[0])
			st.fact(SuffixOf(r, a[0].C[0]))
			st.fact(Le2(Len(r), Len(a[0].C[0])))
			if c := a[1].C[0]; c.Op == "str" && len(c.Str) == 1 && c.Str[0] < 0x80 && (c.Str[0] < 'a' || c.Str[0] > 'z') && c.Str[0] != '-' && c.Str[0] != '\\' && c.Str[0] != ']' && c.Str[0] != '^' {
				s := a[0].C[0]
				n := Sub(Len(s), Len(r))
				rest := Substr(s, IntC(1), Sub(Len(s), IntC(1)))
				st.fact(Not(PrefixOf(c, r)))
				st.fact(allIn(c.Str, Substr(s, IntC(0), n)))
				st.fact(Imp(PrefixOf(c, s), Le2(Add(Len(r), IntC(1)), Len(s))))
				if c.Str[0] < '0' || c.Str[0] > '9' {
					st.fact(Imp(allIn("0-9", s), Not(PrefixOf(c, s))))
					st.fact(Imp(allIn("0-9", rest), Not(PrefixOf(c, rest))))
				}
				return Ite(Not(PrefixOf(c, s)), s, Ite(Not(PrefixOf(c, rest)), rest, r))
			}
			return r
		}),
		"strings.Repeat": ident1(func(x *Exec, st *State, a []Val) *Term {
			x.need(st, "strings.Repeat: negative count", Le(IntC(0), a[1].C[0]))
			if a[0].C[0] == StrC("0") {
				return zerosTerm(a[1].C[0])
			}
			r := UF("repeat", SStr, a[0].C[0], a[1].C[0])
			st.fact(Eq(Len(r), mk("*", SInt, "", Len(a[0].C[0]), a[1].C[0])))
			return r
		}),
		"strings.Replace": ident1(func(x *Exec, st *State, a []Val) *Term {
			if a[3].C[0] == IntC(-1) {
				return UF("replaceall", SStr, a[0].C[0], a[1].C[0], a[2].C[0])
			}
			return UF("replacen", SStr, a[0].C[0], a[1].C[0], a[2].C[0], a[3].C[0])
		}),
		"strings.ReplaceAll": ident1(func(x *Exec, st *State, a []Val) *Term { return UF("replaceall", SStr, a[0].C[0], a[1].C[0], a[2].C[0]) }),
		"strings.Split": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			s, sep := a[0].C[0], a[1].C[0]
			n := withRange(UF("splitn", SInt, s, sep), big.NewInt(1), nil)
			st.fact(Le2(n, Add(Len(s), IntC(1))))
			return one(st, x.strSliceOf(st, rt, n, func(i *Term) *Term { return UF("splitnth", SStr, s, sep, i) }))
		},
		"strings.Join": ident1(func(x *Exec, st *State, a []Val) *Term {
			ref := a[0].C[0]
			if ref.Op == "ite" && ref.Args[2] == IntC(0) {
				ref = ref.Args[1] // a nil slice joins to the empty text whatever the row
			}
			row := Select(st.hget("E:string", arr(SInt, arr(SInt, SStr))), ref)
			if row.Op == "uf" && a[0].C[2].Op == "int" && a[0].C[2].Int.Sign() == 0 {
				return StrC("")
			}
			return UF("strjoin", SStr, row, a[0].C[1], a[0].C[2], a[1].C[0])
		}),

		"strconv.Itoa": ident1(func(x *Exec, st *State, a []Val) *Term { return itoa(a[0].C[0]) }),
		"strconv.FormatUint": ident1(func(x *Exec, st *State, a []Val) *Term {
			if a[1].C[0] != IntC(10) {
				return UF("formatbase", SStr, a[0].C[0], a[1].C[0])
			}
			return decTerm(a[0].C[0])
		}),
		"strconv.FormatInt": ident1(func(x *Exec, st *State, a []Val) *Term {
			if a[1].C[0] != IntC(10) {
				return UF("formatbase", SStr, a[0].C[0], a[1].C[0])
			}
			return itoa(a[0].C[0])
		}),
		"strconv.AppendInt": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			t := itoa(a[1].C[0])
			if a[2].C[0] != IntC(10) {
				t = UF("formatbase", SStr, a[1].C[0], a[2].C[0])
			}
			return x.appendBytes(st, a[0], t, rt)
		},
		"strconv.AppendUint": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			t := decTerm(a[1].C[0])
			if a[2].C[0] != IntC(10) {
				t = UF("formatbase", SStr, a[1].C[0], a[2].C[0])
			}
			return x.appendBytes(st, a[0], t, rt)
		},
		"strconv.Atoi": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			s := a[0].C[0]
			v := UF("atoi", SInt, s)
			withRange(v, new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1)))
			ok := UF("atoiok", SBool, s)
			if s.Op == "str" {
				b, good := new(big.Int).SetString(s.Str, 10)
				if good && len(s.Str) < 19 {
					v, ok = IntB(b), True
				}
			} else if len(C.facts[ok]) == 0 {
				// all-digit text of at most 18 bytes always converts, to the value of those digits
				dig := allIn("0-9", s)
				pv, _ := parseUint(x, st, s, 64)
				small := And(dig, Le2(IntC(1), Len(s)), Le2(Len(s), IntC(18)))
				addFact(ok, mk("=>", SBool, "", small, ok))
				addFact(ok, mk("=>", SBool, "", And(ok, dig), mk("=", SBool, "", v, pv)))
				_, po := parseUint(x, st, s, 64)
				addFact(ok, mk("=>", SBool, "", And(ok, dig), po))
				addFact(ok, mk("=>", SBool, "", ok, Le2(IntC(1), Len(s))))
				addFact(v, mk("=>", SBool, "", And(ok, dig), Le2(IntC(0), v)))
				// a leading plus sign is skipped
				rest := Substr(s, IntC(1), Sub(Len(s), IntC(1)))
				inside := True
				if s.Op == "str.substr" && s.Args[1] == IntC(0) {
					rest = Substr(s.Args[0], IntC(1), Sub(s.Args[2], IntC(1)))
					inside = And(Le2(IntC(1), s.Args[2]), Le2(s.Args[2], Len(s.Args[0])))
				}
				rv, ro := parseUint(x, st, rest, 64)
				plus := And(inside, mk("str.prefixof", SBool, "", StrC("+"), s), allIn("0-9", rest), Le2(IntC(2), Len(s)))
				addFact(ok, mk("=>", SBool, "", And(plus, Le2(Len(s), IntC(19))), ok))
				addFact(ok, mk("=>", SBool, "", And(ok, plus), ro))
				addFact(v, mk("=>", SBool, "", And(ok, plus), mk("=", SBool, "", v, rv)))
				addFact(v, mk("=>", SBool, "", plus, mk("or", SBool, "", ok, Not(ok))))
			}
			e := freshVal("atoierr", types.Universe.Lookup("error").Type(), false)
			st.fact(Eq(Eq(e.C[0], IntC(0)), ok))
			tp := rt.(*types.Tuple)
			return one(st, Val{T: rt, Tup: []Val{vt(tp.At(0).Type(), v), e}})
		},
		"strconv.ParseUint": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			s := a[0].C[0]
			if a[1].C[0] != IntC(10) || a[2].C[0] != IntC(64) {
				v := freshVal("parseuint", rt, false)
				return one(st, v)
			}
			v, ok := parseUint(x, st, s, 64)
			e := freshVal("parseerr", types.Universe.Lookup("error").Type(), false)
			st.fact(Eq(Eq(e.C[0], IntC(0)), ok))
			tp := rt.(*types.Tuple)
			// on failure the value is 0 or MaxUint64
			val := freshVal("parseval", tp.At(0).Type(), false)
			st.fact(Imp(ok, Eq(val.C[0], v)))
			r := val
			if st.known(ok) == True {
				r = vt(tp.At(0).Type(), v)
			}
			return one(st, Val{T: rt, Tup: []Val{r, e}})
		},

		"unicode/utf8.RuneCount":         ident1(func(x *Exec, st *State, a []Val) *Term { return x.runeCount(st, strArg(st, a[0])) }),
		"unicode/utf8.RuneCountInString": ident1(func(x *Exec, st *State, a []Val) *Term { return x.runeCount(st, a[0].C[0]) }),
		"unicode/utf8.DecodeRuneInString": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			s := a[0].C[0]
			ok := Lt(IntC(0), Len(s))
			r, w := x.runeAt(st, s, IntC(0), ok)
			tp := rt.(*types.Tuple)
			return one(st, Val{T: rt, Tup: []Val{vt(tp.At(0).Type(), Ite(ok, r, IntC(0xFFFD))), vt(tp.At(1).Type(), Ite(ok, w, IntC(0)))}})
		},
		"unicode/utf8.DecodeLastRuneInString": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			s := a[0].C[0]
			ok := Lt(IntC(0), Len(s))
			r, w := UF("lastrune", SInt, s), UF("lastwidth", SInt, s)
			withRange(r, bigZero, big.NewInt(0x10FFFF))
			withRange(w, bigZero, big.NewInt(4))
			st.fact(Imp(ok, And(Le2(IntC(1), w), Le2(w, Len(s)))))
			tp := rt.(*types.Tuple)
			return one(st, Val{T: rt, Tup: []Val{vt(tp.At(0).Type(), Ite(ok, r, IntC(0xFFFD))), vt(tp.At(1).Type(), Ite(ok, w, IntC(0)))}})
		},
		"unicode/utf8.AppendRune": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			return x.appendBytes(st, a[0], x.utf8(st, a[1].C[0]), rt)
		},
		"unicode/utf8.RuneLen": ident1(func(x *Exec, st *State, a []Val) *Term { return Fresh("runelen", SInt) }),

		"unicode.IsDigit":  ident1(func(x *Exec, st *State, a []Val) *Term { return unicodePred("isdigit", a[0].C[0]) }),
		"unicode.IsLetter": ident1(func(x *Exec, st *State, a []Val) *Term { return unicodePred("isletter", a[0].C[0]) }),
		"unicode.IsSpace":  ident1(func(x *Exec, st *State, a []Val) *Term { return unicodePred("isspace", a[0].C[0]) }),
		"unicode.ToUpper":  ident1(func(x *Exec, st *State, a []Val) *Term { return toUpper(a[0].C[0]) }),
		"unicode.Is": ident1(func(x *Exec, st *State, a []Val) *Term { return UF("unicode.is", SBool, a[0].C[0], a[1].C[0]) }),

		"google.golang.org/protobuf/proto.String": box, "google.golang.org/protobuf/proto.Int32": box,
		"google.golang.org/protobuf/proto.Uint64": box, "google.golang.org/protobuf/proto.Bool": box,
		"google.golang.org/protobuf/proto.Int64": box, "google.golang.org/protobuf/proto.Uint32": box,
		"google.golang.org/protobuf/proto.Merge": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			protoMerge(x, st, dynPtr(a[0]), dynPtr(a[1]))
			return one(st, Val{T: rt})
		},
		"google.golang.org/protobuf/proto.Equal": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			return one(st, vt(rt, protoEqual(x, st, dynPtr(a[0]), dynPtr(a[1]))))
		},
		"google.golang.org/protobuf/proto.Clone": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			src := dynPtr(a[0])
			et := under(src.T).(*types.Pointer).Elem()
			n := x.allocOf(st, src.T, et)
			protoMerge(x, st, n, src)
			return one(st, x.makeIface(st, n, rt))
		},

		"sync.Mutex.Lock":      lockModel(true, true),
		"sync.Mutex.Unlock":    lockModel(false, true),
		"sync.RWMutex.Lock":    lockModel(true, true),
		"sync.RWMutex.Unlock":  lockModel(false, true),
		"sync.RWMutex.RLock":   lockModel(true, false),
		"sync.RWMutex.RUnlock": lockModel(false, false),
		"bytes.LastIndex": ident1(func(x *Exec, st *State, a []Val) *Term { return lastIndex(st, strArg(st, a[0]), strArg(st, a[1])) }),
		"strings.LastIndex": ident1(func(x *Exec, st *State, a []Val) *Term { return lastIndex(st, a[0].C[0], a[1].C[0]) }),
		"bytes.Index":     ident1(func(x *Exec, st *State, a []Val) *Term { return strIndex(st, strArg(st, a[0]), strArg(st, a[1])) }),
		"slices.Contains": slicesContains,
		"slices.Insert": func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			if !isByteSlice(a[0].T) {
				unsup("slices.Insert on %s", a[0].T)
			}
			s, p := st.bytesOf(a[0]), st.bytesOf(a[2])
			i := a[1].C[0]
			x.need(st, "slices.Insert index out of range", And(Le(IntC(0), i), Le(i, a[0].C[2])))
			n := Sub(Len(s), i)
			return one(st, st.newBytes(Concat(st.substr(s, IntC(0), i), p, st.substr(s, i, n)), rt))
		},
	}
	models["regexp.Regexp.Match"] = models["regexp.Regexp.MatchString"]
	specFuncs = map[string]func(e *Eval, as []*Node) Val{
		"rematch": func(e *Eval, as []*Node) Val { return vBool(reMatch(e.Str(as[0]), e.Str(as[1]))) },
		"restart": func(e *Eval, as []*Node) Val { return vInt(reS(e.Str(as[0]), e.Str(as[1]))) },
		"reend":   func(e *Eval, as []*Node) Val { return vInt(reE(e.Str(as[0]), e.Str(as[1]))) },
		"gstart":  func(e *Eval, as []*Node) Val { return vInt(gS(e.Str(as[0]), e.Str(as[1]), e.Int(as[2]))) },
		"gend":    func(e *Eval, as []*Node) Val { return vInt(gE(e.Str(as[0]), e.Str(as[1]), e.Int(as[2]))) },
		"regroups": func(e *Eval, as []*Node) Val { return vInt(reGroups(e.Str(as[0]))) },
		"rerepl": func(e *Eval, as []*Node) Val {
			return vStr(UF("re.repl", SStr, e.Str(as[0]), e.Str(as[1]), e.Str(as[2])))
		},
		"rerepllit": func(e *Eval, as []*Node) Val {
			return vStr(UF("re.repllit", SStr, e.Str(as[0]), e.Str(as[1]), e.Str(as[2])))
		},
		// rejoin(p, s, sep): all matches of p in s, joined by sep
		"rejoin": func(e *Eval, as []*Node) Val {
			p, s := e.Str(as[0]), e.Str(as[1])
			n := withRange(UF("re.count", SInt, p, s, IntC(-1)), bigZero, nil)
			return vStr(UF("strjoin", SStr, UF("re.allrow", arr(SInt, SStr), p, s), IntC(0), n, e.Str(as[2])))
		},
		"reexpand": func(e *Eval, as []*Node) Val {
			return vStr(UF("re.expand", SStr, e.Str(as[0]), e.Str(as[1]), e.Str(as[2])))
		},
		"int64": func(e *Eval, as []*Node) Val {
			v := e.Int(as[0])
			lo, hi := big.NewInt(-1<<63), big.NewInt(1<<63-1)
			if l, h := bounds(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return vInt(v)
			}
			return vInt(Add(Mod(Sub(v, IntB(lo)), IntB(new(big.Int).Lsh(big.NewInt(1), 64))), IntB(lo)))
		},
		"int32": func(e *Eval, as []*Node) Val { // Go's conversion
			v := e.Int(as[0])
			lo, hi := big.NewInt(-1<<31), big.NewInt(1<<31-1)
			if l, h := bounds(v); l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
				return vInt(v)
			}
			return vInt(Add(Mod(Sub(v, IntB(lo)), IntB(big.NewInt(1<<32))), IntB(lo)))
		},
		"itoa":      func(e *Eval, as []*Node) Val { return vStr(itoa(e.Int(as[0]))) },
		"upper":     func(e *Eval, as []*Node) Val { return vInt(toUpper(e.Int(as[0]))) },
		"runecount": func(e *Eval, as []*Node) Val { return vInt(e.x.runeCount(e.st, e.Str(as[0]))) },
		"replaceall": func(e *Eval, as []*Node) Val {
			return vStr(UF("replaceall", SStr, e.Str(as[0]), e.Str(as[1]), e.Str(as[2])))
		},
		"isdigit": func(e *Eval, as []*Node) Val { return vBool(unicodePred("isdigit", e.Int(as[0]))) },
		"parseuint": func(e *Eval, as []*Node) Val {
			v, _ := parseUint(e.x, e.st, e.Str(as[0]), 64)
			return vInt(v)
		},
		"parseok": func(e *Eval, as []*Node) Val {
			_, ok := parseUint(e.x, e.st, e.Str(as[0]), 64)
			return vBool(ok)
		},
		"lockstate": func(e *Eval, as []*Node) Val {
			if len(as) > 1 {
				return vInt(Select(e.st.hget("X:lock.F:"+as[0].S, arr(SInt, SInt)), e.Eval(as[1]).C[0]))
			}
			return vInt(e.st.hget("X:lock.G:"+as[0].S, SInt))
		},
	}
	extraModels()
	extraModels3()
}

func reGroupStr(p, s, i, a, b *Term) *Term {
	gs, ge := gS(p, s, i), gE(p, s, i)
	return Ite(Le(IntC(0), gs), Substr(s, gs, Sub(ge, gs)), StrC(""))
}

func strIndex(st *State, s, p *Term) *Term {
	r := IndexOf(s, p, IntC(0))
	if r.Op != "int" {
		st.fact(Imp(Le(IntC(0), r), And(Le2(Add(r, Len(p)), Len(s)), Eq(mk("str.substr", SStr, "", s, r, Len(p)), p))))
		st.fact(mk("=", SBool, "", Le2(IntC(0), r), mk("str.contains", SBool, "", s, p)))
	}
	return r
}

func lastIndex(st *State, s, p *Term) *Term {
	r := UF("lastindex", SInt, s, p)
	withRange(r, big.NewInt(-1), nil)
	st.fact(Imp(Le(IntC(0), r), And(Le2(Add(r, Len(p)), Len(s)), Eq(mk("str.substr", SStr, "", s, r, Len(p)), p))))
	st.fact(mk("=", SBool, "", Le2(IntC(0), r), mk("str.contains", SBool, "", s, p)))
	return r
}

func itoa(n *Term) *Term {
	lo, _ := bounds(n)
	if lo != nil && lo.Sign() >= 0 {
		return decTerm(n)
	}
	if n.Op == "int" {
		return StrC(n.Int.String())
	}
	return Ite(Le(IntC(0), n), decTerm(n), Concat(StrC("-"), decTerm(Neg(n))))
}

func unicodePred(name string, r *Term) *Term {
	t := UF("unicode."+name, SBool, r)
	if r.Op == "int" {
		return constUnicode(name, rune(r.Int.Int64()))
	}
	if len(C.facts[t]) == 0 {
		asc := And(Le2(IntC(0), r), Le2(r, IntC(127)))
		var in *Term
		switch name {
		case "isdigit":
			in = And(Le2(IntC('0'), r), Le2(r, IntC('9')))
		case "isletter":
			in = Or(And(Le2(IntC('a'), r), Le2(r, IntC('z'))), And(Le2(IntC('A'), r), Le2(r, IntC('Z'))))
		default:
			in = Or(mk("=", SBool, "", r, IntC(32)), And(Le2(IntC(9), r), Le2(r, IntC(13))))
		}
		addFact(t, mk("=>", SBool, "", asc, mk("=", SBool, "", t, in)))
	}
	return t
}

func toUpper(r *Term) *Term {
	if r.Op == "int" {
		return IntC(int64(upperRune(rune(r.Int.Int64()))))
	}
	t := UF("unicode.toupper", SInt, r)
	withRange(t, big.NewInt(-1), big.NewInt(0x10FFFF))
	if len(C.facts[t]) <= 2 {
		asc := And(Le2(IntC(0), r), Le2(r, IntC(127)))
		low := And(Le2(IntC('a'), r), Le2(r, IntC('z')))
		addFact(t, mk("=>", SBool, "", asc, mk("=", SBool, "", t, mk("ite", SInt, "", low, Sub(r, IntC(32)), r))))
		// the only non-ASCII characters with an ASCII upper case are U+0131 and U+017F
		addFact(t, mk("=>", SBool, "", And(Le2(IntC(128), r), Not(Eq(r, IntC(0x131))), Not(Eq(r, IntC(0x17F)))), Le2(IntC(128), t)))
		addFact(t, mk("=>", SBool, "", Eq(r, IntC(0x131)), Eq(t, IntC('I'))))
		addFact(t, mk("=>", SBool, "", Eq(r, IntC(0x17F)), Eq(t, IntC('S'))))
	}
	return t
}

func slicesContains(x *Exec, st *State, a []Val, rt types.Type) []stVal {
	sl, e := a[0], a[1]
	el := under(sl.T).(*types.Slice).Elem()
	if len(flatten(el)) != 1 {
		unsup("slices.Contains on %s", sl.T)
	}
	if sl.C[2].Op == "int" && sl.C[2].Int.Int64() <= 32 {
		var ors []*Term
		for i := int64(0); i < sl.C[2].Int.Int64(); i++ {
			ors = append(ors, Eq(st.load(elemLoc(el, sl.C[0], Add(sl.C[1], IntC(i)))).C[0], e.C[0]))
		}
		return one(st, vt(rt, Or(ors...)))
	}
	q := Fresh("q.i", SInt)
	sc := st.clone()
	v := sc.load(elemLoc(el, sl.C[0], Add(sl.C[1], q)))
	return one(st, vt(rt, Exists([]*Term{q}, And(Le2(IntC(0), q), Not(Le2(sl.C[2], q)), Eq(v.C[0], e.C[0])))))
}

// lock ghost: 0 free, 1 read-held, 2 write-held
func lockModel(acquire, exclusive bool) model {
	return func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		if a[0].Loc == nil {
			unsup("lock of unknown identity")
		}
		name := "X:lock." + a[0].Loc.prefix
		ref := a[0].Loc.ref
		get := func() *Term {
			if ref == nil {
				return st.hget(name, SInt)
			}
			return Select(st.hget(name, arr(SInt, SInt)), ref)
		}
		set := func(v *Term) {
			if ref != nil {
				v = Store(st.hget(name, arr(SInt, SInt)), ref, v)
			}
			st.hset(name, v)
			st.logWrite(name, ref)
		}
		cur := get()
		withRange(cur, bigZero, big.NewInt(2))
		want := IntC(1)
		if exclusive {
			want = IntC(2)
		}
		if acquire {
			x.lockOblige(st, "lock "+a[0].Loc.prefix+" is not already held when taken", Eq(cur, IntC(0)))
			set(want)
			x.lockTaken(st, a[0].Loc.prefix)
		} else {
			x.lockOblige(st, "lock "+a[0].Loc.prefix+" is held in the matching mode when released", Eq(cur, want))
			set(IntC(0))
		}
		return one(st, Val{T: rt})
	}
}
func (x *Exec) lockOblige(st *State, name string, g *Term) {
	if x.prop == "C21" || x.prop == "" {
		x.oblige(st, "lock", name, g)
	}
}

// ---- protobuf ----
// protoMerge copies every set field of src over dst (scalar optional fields only).
func protoMerge(x *Exec, st *State, dst, src Val) {
	p := under(dst.T).(*types.Pointer)
	s := under(p.Elem()).(*types.Struct)
	x.nonNil(st, dst, "proto.Merge destination")
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if skipField(f) {
			continue
		}
		dl, sl := locOf(dst).field(f.Name(), f.Type()), locOf(src).field(f.Name(), f.Type())
		sv, dv := st.load(sl), st.load(dl)
		switch u := under(f.Type()).(type) {
		case *types.Pointer:
			if isStruct(u.Elem()) {
				unsup("proto.Merge of nested messages")
			}
			set := st.known(And(Ne(src.C[0], IntC(0)), Ne(sv.C[0], IntC(0))))
			if set == False {
				continue
			}
			// a fresh copy of the scalar
			r := st.alloc()
			val := st.load(&Loc{prefix: ptrPrefix(u.Elem()), ref: sv.C[0], T: u.Elem()})
			for j, c := range flatten(u.Elem()) {
				name := ptrPrefix(u.Elem()) + c.suffix
				st.hset(name, Store(st.hget(name, arr(SInt, c.sort)), r, val.C[j]))
			}
			st.store(dl, Val{T: f.Type(), C: []*Term{Ite(set, r, dv.C[0])}})
		case *types.Slice:
			el := u.Elem()
			if isStruct(el) || len(flatten(el)) != 1 {
				unsup("proto.Merge of field %s", f.Name())
			}
			// repeated scalar: the source elements are appended to a copy
			sn := Ite(Ne(src.C[0], IntC(0)), sv.C[2], IntC(0))
			name := "E:" + typeKey(el)
			hs := arr(SInt, arr(SInt, flatten(el)[0].sort))
			compSorts[name] = hs
			row := Fresh("mrow", arr(SInt, flatten(el)[0].sort))
			q := Fresh("q.i", SInt)
			h := st.hget(name, hs)
			drow, srow := Select(h, dv.C[0]), Select(h, sv.C[0])
			st.fact(Forall([]*Term{q}, Eq(Select(row, q), mk("ite", flatten(el)[0].sort, "", Not(Le2(dv.C[2], q)), mk("select", flatten(el)[0].sort, "", drow, Add(dv.C[1], q)), mk("select", flatten(el)[0].sort, "", srow, Add(sv.C[1], Sub(q, dv.C[2])))))))
			r := st.alloc()
			st.hset(name, Store(h, r, row))
			n := Add(dv.C[2], sn)
			cp := Fresh("cap", SInt)
			st.fact(Le2(n, cp))
			same := Eq(sn, IntC(0))
			st.store(dl, Val{T: f.Type(), C: []*Term{Ite(same, dv.C[0], r), Ite(same, dv.C[1], IntC(0)), n, Ite(same, dv.C[3], cp)}})
		default:
			unsup("proto.Merge of field %s", f.Name())
		}
	}
}

// protoEqual: both nil, or both non-nil with equal presence and equal scalar values in every field.
func protoEqual(x *Exec, st *State, a, b Val) *Term {
	p := under(a.T).(*types.Pointer)
	s := under(p.Elem()).(*types.Struct)
	var cs []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if skipField(f) {
			continue
		}
		av, bv := st.load(locOf(a).field(f.Name(), f.Type())), st.load(locOf(b).field(f.Name(), f.Type()))
		u, ok := under(f.Type()).(*types.Pointer)
		if !ok || isStruct(u.Elem()) {
			unsup("proto.Equal of field %s", f.Name())
		}
		pa, pb := Ne(av.C[0], IntC(0)), Ne(bv.C[0], IntC(0))
		va := st.load(&Loc{prefix: ptrPrefix(u.Elem()), ref: av.C[0], T: u.Elem()})
		vb := st.load(&Loc{prefix: ptrPrefix(u.Elem()), ref: bv.C[0], T: u.Elem()})
		cs = append(cs, Eq(pa, pb), Imp(And(pa, pb), Eq(va.C[0], vb.C[0])))
	}
	na, nb := Eq(a.C[0], IntC(0)), Eq(b.C[0], IntC(0))
	return Or(And(na, nb), And(Not(na), Not(nb), And(cs...)))
}

// ---- builtins ----
func (x *Exec) builtin(st *State, name string, c *ssa.CallCommon, a []Val, rt types.Type) []stVal {
	switch name {
	case "len":
		v := a[0]
		switch u := under(v.T).(type) {
		case *types.Basic:
			return one(st, vt(tInt, Len(v.C[0])))
		case *types.Slice:
			return one(st, vt(tInt, v.C[2]))
		case *types.Map:
			if v.Elts != nil {
				return one(st, vt(tInt, IntC(int64(len(v.Elts)/2))))
			}
			_, dom, _ := mapComps(v.T)
			d := Select(st.hget(dom, arr(SInt, arr(keySort(u), SBool))), v.C[0])
			n := UF("mapsize."+string(keySort(u)), SInt, d)
			withRange(n, bigZero, nil)
			return one(st, vt(tInt, Ite(Eq(v.C[0], IntC(0)), IntC(0), n)))
		case *types.Pointer:
			if ar, ok := under(u.Elem()).(*types.Array); ok {
				return one(st, vt(tInt, IntC(ar.Len())))
			}
		}
	case "cap":
		return one(st, vt(tInt, a[0].C[3]))
	case "min", "max":
		r := a[0]
		for _, b := range a[1:] {
			cnd := Le(r.C[0], b.C[0])
			if name == "max" {
				cnd = Le(b.C[0], r.C[0])
			}
			r = vt(r.T, Ite(cnd, r.C[0], b.C[0]))
		}
		return one(st, r)
	case "append":
		return x.doAppend(st, a, rt)
	case "copy":
		return x.doCopy(st, a)
	case "delete":
		if x.initMode {
			unsup("delete in initialisation")
		}
		x.guardMap(st, a[0], true)
		st.mapDelete(a[0], a[1].C[0])
		return one(st, Val{T: rt})
	case "ssa:wrapnilchk":
		x.nonNil(st, a[0], "method value receiver")
		return one(st, a[0])
	case "print", "println":
		return one(st, Val{T: rt})
	case "recover":
		return one(st, zeroVal(rt))
	}
	unsup("builtin %s", name)
	return nil
}

// appendBytes appends text to a byte slice: in place when the capacity suffices, otherwise into a new array.
func (x *Exec) appendBytes(st *State, s Val, t *Term, rt types.Type) []stVal {
	if _, ok := st.bor[s.C[0]]; ok {
		x.oblige(st, "alias", "append to a borrowed byte view", False)
	}
	n := Len(t)
	cur := st.bytesOf(s)
	fits := Le(Add(s.C[2], n), s.C[3])
	if s.C[0].Op == "int" && s.C[0].Int.Sign() == 0 {
		fits = False
	}
	return x.fork(st, fits, func(st *State) []stVal {
		if n.Op == "int" && n.Int.Sign() == 0 {
			s.T = rt
			return one(st, s)
		}
		h := st.hget(bytesHeap, arr(SInt, SStr))
		whole := Select(h, s.C[0])
		end := Add(s.C[1], s.C[2])
		st.fact(Le2(Add(s.C[1], s.C[3]), Len(whole)))
		nw := Concat(st.substr(whole, IntC(0), end), t, st.substr(whole, Add(end, n), Sub(Sub(Len(whole), end), n)))
		st.hset(bytesHeap, Store(h, s.C[0], nw))
		st.logWrite(bytesHeap, s.C[0])
		return one(st, Val{T: rt, C: []*Term{s.C[0], s.C[1], Add(s.C[2], n), s.C[3]}})
	}, func(st *State) []stVal {
		r := st.alloc()
		slack := Fresh("slack", SStr)
		content := Concat(cur, t, slack)
		st.hset(bytesHeap, Store(st.hget(bytesHeap, arr(SInt, SStr)), r, content))
		ln := Add(s.C[2], n)
		return one(st, Val{T: rt, C: []*Term{r, IntC(0), ln, Add(ln, Len(slack))}})
	})
}

func (x *Exec) doAppend(st *State, a []Val, rt types.Type) []stVal {
	el := under(rt).(*types.Slice).Elem()
	if len(a) == 1 {
		return one(st, a[0])
	}
	if isByte(el) {
		return x.appendBytes(st, a[0], strArg(st, a[1]), rt)
	}
	s, t := a[0], a[1]
	n := t.C[2]
	if n.Op == "int" && n.Int.Sign() == 0 {
		return one(st, s)
	}
	cs := flatten(el)
	name := func(c comp) string { return "E:" + typeKey(el) + c.suffix }
	hs := func(c comp) Sort { return arr(SInt, arr(SInt, c.sort)) }
	fits := Le(Add(s.C[2], n), s.C[3])
	if s.C[0].Op == "int" && s.C[0].Int.Sign() == 0 {
		fits = False
	}
	place := func(st *State, c comp, row *Term, at *Term) *Term {
		src := st.x.staticRow(name(c), Select(st.hget(name(c), hs(c)), t.C[0]))
		if n.Op == "int" && n.Int.Int64() <= 8 {
			for i := int64(0); i < n.Int.Int64(); i++ {
				row = Store(row, Add(at, IntC(i)), Select(src, Add(t.C[1], IntC(i))))
			}
			return row
		}
		nr := Fresh("row", row.Sort)
		q := Fresh("q.i", SInt)
		in := And(Le2(at, q), Not(Le2(Add(at, n), q)))
		st.fact(Forall([]*Term{q}, Eq(Select(nr, q), mk("ite", c.sort, "", in, mk("select", c.sort, "", src, Add(t.C[1], Sub(q, at))), mk("select", c.sort, "", row, q)))))
		return nr
	}
	return x.fork(st, fits, func(st *State) []stVal {
		for _, c := range cs {
			h := st.hget(name(c), hs(c))
			row := place(st, c, Select(h, s.C[0]), Add(s.C[1], s.C[2]))
			st.hset(name(c), Store(h, s.C[0], row))
			st.logWrite(name(c), s.C[0])
		}
		return one(st, Val{T: rt, C: []*Term{s.C[0], s.C[1], Add(s.C[2], n), s.C[3]}})
	}, func(st *State) []stVal {
		r := st.alloc()
		for _, c := range cs {
			h := st.hget(name(c), hs(c))
			old := st.x.staticRow(name(c), Select(h, s.C[0]))
			base := old
			if !(s.C[1].Op == "int" && s.C[1].Int.Sign() == 0) {
				nb := Fresh("row", old.Sort)
				q := Fresh("q.i", SInt)
				st.fact(Forall([]*Term{q}, Eq(Select(nb, q), mk("select", c.sort, "", old, Add(q, s.C[1])))))
				base = nb
			}
			row := place(st, c, base, s.C[2])
			st.hset(name(c), Store(st.hget(name(c), hs(c)), r, row))
		}
		ln := Add(s.C[2], n)
		cp := Fresh("cap", SInt)
		st.fact(Le2(ln, cp))
		return one(st, Val{T: rt, C: []*Term{r, IntC(0), ln, cp}})
	})
}

func (x *Exec) doCopy(st *State, a []Val) []stVal {
	d, s := a[0], a[1]
	if !isByteSlice(d.T) {
		unsup("copy of %s", d.T)
	}
	if _, ok := st.bor[d.C[0]]; ok {
		x.oblige(st, "alias", "copy into a borrowed byte view", False)
	}
	src := strArg(st, s)
	n := Ite(Le(d.C[2], Len(src)), d.C[2], Len(src))
	if d.C[2] == Len(src) {
		n = d.C[2]
	}
	h := st.hget(bytesHeap, arr(SInt, SStr))
	whole := Select(h, d.C[0])
	st.fact(Le2(Add(d.C[1], d.C[2]), Len(whole)))
	end := Add(d.C[1], n)
	nw := Concat(st.substr(whole, IntC(0), d.C[1]), st.substr(src, IntC(0), n), st.substr(whole, end, Sub(Len(whole), end)))
	st.hset(bytesHeap, Store(h, d.C[0], nw))
	st.logWrite(bytesHeap, d.C[0])
	return one(st, vt(tInt, n))
}

// callUnknown: call of a function-typed parameter.
func (x *Exec) callUnknown(st *State, fv Val, args []Val, rt types.Type) ([]stVal, bool) {
	if x.spec == nil || len(x.spec.YieldPre) == 0 {
		return nil, false
	}
	ev := x.newEval(st)
	for i, a := range args {
		ev.vars[fmt.Sprintf("arg%d", i)] = a
	}
	for _, c := range x.spec.YieldPre {
		if x.tagOK(c.Tags) {
			x.oblige(st, "pre", "value handed to the caller's function: "+c.Text, ev.Bool(c.Expr))
		}
	}
	st.newEra("A")
	return one(st, freshVal("yield", rt, false)), true
}
