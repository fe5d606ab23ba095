package main

// Mapping of Go types to flattened components and of memory to heap components.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type comp struct {
	suffix string
	sort   Sort
	typ    types.Type
	isRef  bool
}

type FuncVal struct {
	fn    *ssa.Function
	binds []Val
	model string // named builtin function value
}

type Borrow struct {
	owner *Term // builder reference
	ver   *Term // version at borrow time
}

// Val is a symbolic Go value: flattened components plus optional static knowledge.
type Val struct {
	T    types.Type
	C    []*Term
	Loc  *Loc // statically known address (pointer values)
	Fn   *FuncVal
	Tup  []Val
	Dyn  *Val // statically known dynamic value of an interface
	Over map[string]*Term // specification only: a number with some field values replaced
	Elts []Val // statically known elements (small literal slices), informational
}

// Loc is a memory location: heap component prefix plus keys.
type Loc struct {
	prefix string
	ref    *Term // nil for globals
	idx    *Term // element index or nil
	bytes  bool  // element of a byte array
	T      types.Type
	glob   *ssa.Global
}

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...any)      { panic(unsupported{fmt.Sprintf(f, a...)}) }

func typeKey(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		k := o.Name()
		if o.Pkg() != nil {
			k = o.Pkg().Name() + "." + o.Name()
		}
		if x.TypeArgs() != nil {
			for i := 0; i < x.TypeArgs().Len(); i++ {
				k += "_" + typeKey(x.TypeArgs().At(i))
			}
		}
		return k
	case *types.Alias:
		return typeKey(types.Unalias(t))
	case *types.Pointer:
		return "*" + typeKey(x.Elem())
	case *types.Slice:
		return "[]" + typeKey(x.Elem())
	case *types.Map:
		return "map[" + typeKey(x.Key()) + "]" + typeKey(x.Elem())
	case *types.Basic:
		switch x.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return x.Name()
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func skipField(f *types.Var) bool {
	n := f.Name()
	return n == "state" && strings.Contains(f.Type().String(), "protoimpl") || n == "state" && strings.Contains(f.Type().String(), "impl.MessageState") || n == "sizeCache" || n == "unknownFields" || n == "_"
}

var flattenCache = map[string][]comp{}

func flatten(t types.Type) []comp {
	k := typeKey(t) + "/" + under(t).String()
	if c, ok := flattenCache[k]; ok {
		return c
	}
	var out []comp
	switch x := under(t).(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			out = []comp{{"", SBool, t, false}}
		case x.Info()&types.IsInteger != 0:
			out = []comp{{"", SInt, t, false}}
		case x.Info()&types.IsString != 0:
			out = []comp{{"", SStr, t, false}}
		case x.Kind() == types.UnsafePointer || x.Kind() == types.UntypedNil:
			out = []comp{{"", SInt, t, true}}
		case x.Info()&types.IsFloat != 0:
			out = []comp{{"", "Real", t, false}}
		default:
			unsup("type %s", t)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		out = []comp{{"", SInt, t, true}}
	case *types.Slice:
		out = []comp{{".ref", SInt, t, true}, {".off", SInt, types.Typ[types.Int], false}, {".len", SInt, types.Typ[types.Int], false}, {".cap", SInt, types.Typ[types.Int], false}}
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if skipField(f) {
				continue
			}
			for _, c := range flatten(f.Type()) {
				out = append(out, comp{"." + f.Name() + c.suffix, c.sort, c.typ, c.isRef})
			}
		}
	case *types.Array:
		out = []comp{{".arr", SInt, t, true}}
	case *types.TypeParam:
		unsup("type parameter %s", t)
	default:
		unsup("type %s", t)
	}
	flattenCache[k] = out
	return out
}

// fieldRange gives the component range of field i in flattened struct type.
func fieldRange(t types.Type, i int) (int, int) {
	st := under(t).(*types.Struct)
	n := 0
	for j := 0; j < st.NumFields(); j++ {
		f := st.Field(j)
		k := 0
		if !skipField(f) {
			k = len(flatten(f.Type()))
		}
		if j == i {
			return n, n + k
		}
		n += k
	}
	panic("field")
}

func isByte(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	return ok && isByte(s.Elem())
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isStruct(t types.Type) bool { _, ok := under(t).(*types.Struct); return ok }

func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, nil
	}
	bits, uns := 64, false
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Int, types.Int64:
		bits = 64
	case types.Uint8:
		bits, uns = 8, true
	case types.Uint16:
		bits, uns = 16, true
	case types.Uint32:
		bits, uns = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits, uns = 64, true
	default:
		return nil, nil
	}
	one := big.NewInt(1)
	if uns {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
}

func zeroComp(c comp) *Term {
	switch c.sort {
	case SInt:
		return IntC(0)
	case SBool:
		return False
	case SStr:
		return StrC("")
	}
	if c.sort == "Real" {
		return mk("real", "Real", "0.0")
	}
	panic("zero " + string(c.sort))
}
func zeroVal(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, c := range flatten(t) {
		v.C = append(v.C, zeroComp(c))
	}
	return v
}

// freshVal makes an arbitrary value of a type; old marks references as pre-existing.
func freshVal(name string, t types.Type, old bool) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, freshVal(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type(), old))
		}
		return v
	}
	v := Val{T: t}
	for _, c := range flatten(t) {
		x := Fresh(name+c.suffix, c.sort)
		if c.isRef {
			if old {
				x.isOld = true
			}
			withRange(x, big.NewInt(0), nil)
		}
		typeFacts(x, c)
		v.C = append(v.C, x)
	}
	sliceFacts(v)
	return v
}

func typeFacts(x *Term, c comp) {
	if x.Op != "var" && x.Op != "select" && x.Op != "uf" {
		return
	}
	if c.sort == SInt && !c.isRef {
		lo, hi := intRange(c.typ)
		if strings.HasSuffix(c.suffix, ".len") || strings.HasSuffix(c.suffix, ".cap") || strings.HasSuffix(c.suffix, ".off") {
			lo = big.NewInt(0)
		}
		withRange(x, lo, hi)
	}
	if c.isRef {
		withRange(x, big.NewInt(0), nil)
	}
}

// sliceFacts attaches len<=cap and nil => empty to symbolic slices.
func sliceFacts(v Val) {
	cs := flatten(v.T)
	for i := range cs {
		if strings.HasSuffix(cs[i].suffix, ".ref") && i+3 < len(v.C) {
			ref, ln, cp := v.C[i], v.C[i+2], v.C[i+3]
			if ln.Op == "var" || ln.Op == "select" || ln.Op == "uf" {
				if cp.Op != "int" {
					addFact(ln, mk("<=", SBool, "", ln, cp))
					if ref.Op != "int" {
						addFact(ln, Or(mk("not", SBool, "", mk("=", SBool, "", ref, IntC(0))), Eq(cp, IntC(0))))
					}
				}
			}
		}
	}
}

// ---- heap ----
var compSorts = map[string]Sort{}
var compIsRef = map[string]bool{}

func heapSort(loc *Loc, c comp) Sort {
	if loc.ref == nil {
		return c.sort
	}
	if loc.idx == nil {
		return arr(SInt, c.sort)
	}
	return arr(SInt, arr(SInt, c.sort))
}

func (st *State) hget(name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	if o, ok := compSorts[name]; ok && o != s {
		panic(fmt.Sprintf("heap component %s: %s vs %s", name, o, s))
	}
	compSorts[name] = s
	return Var("H0:"+name, s)
}
func (st *State) hset(name string, t *Term) {
	compSorts[name] = t.Sort
	st.heap[name] = t
}

const bytesHeap = "B"
const builderVer = "X:stringbuilder.Builder.$ver"
const builderContent = "X:stringbuilder.Builder.content"

func (st *State) load(loc *Loc) Val {
	if loc.bytes {
		content := Select(st.hget(bytesHeap, arr(SInt, SStr)), loc.ref)
		b := ByteAt(content, loc.idx)
		// memory invariant: index in range of the array is checked separately
		st.fact(Le(IntC(0), b))
		return Val{T: loc.T, C: []*Term{b}}
	}
	if loc.glob != nil {
		if v, ok := st.x.globalConst(loc.glob, loc.prefix, loc.T); ok {
			return v
		}
	}
	v := Val{T: loc.T}
	for _, c := range flatten(loc.T) {
		name := loc.prefix + c.suffix
		h := st.hget(name, heapSort(loc, c))
		var t *Term
		if loc.ref == nil {
			t = h
		} else {
			t = st.x.staticRow(name, Select(h, loc.ref))
			if loc.idx != nil {
				t = Select(t, loc.idx)
			}
		}
		compIsRef[name] = c.isRef
		typeFacts(t, c)
		if c.isRef {
			st.refFacts(t, name)
		}
		v.C = append(v.C, t)
	}
	sliceFacts(v)
	st.attachStatic(&v)
	return v
}

// sharedTypes: objects of these types (and slices/pointers loaded from them) live in the shared metadata region [1,S).
func sharedComp(name string) bool {
	return strings.HasPrefix(name, "F:metadata.PhoneMetadata.") || strings.HasPrefix(name, "F:metadata.PhoneNumberDesc.") || strings.HasPrefix(name, "F:metadata.PhoneMetadataCollection.") || strings.HasPrefix(name, "F:metadata.Container.") || strings.HasPrefix(name, "G:")
}

// refFacts: references loaded from memory are allocated.
func (st *State) refFacts(t *Term, comp string) {
	if t.Op == "int" || t.isOld {
		return
	}
	if isEntryRef(t) {
		t.isOld = true
		addFact(t, mk("<=", SBool, "", Add(t, IntC(1)), A0))
		return
	}
	if _, _, ok := splitBase(t); ok {
		return
	}
	if t.Op == "select" || t.Op == "var" {
		st.fact(mk("<=", SBool, "", Add(t, IntC(1)), st.allocTop()))
	}
}

var A0 *Term // allocation counter at function entry
var SS *Term // end of the shared (metadata) region

// isEntryRef: value read from an unmodified entry-heap component at an entry reference.
func isEntryRef(t *Term) bool {
	if t.Op == "var" && strings.HasPrefix(t.Str, "H0:") {
		return true
	}
	if t.Op != "select" {
		return false
	}
	a, i := t.Args[0], t.Args[1]
	if a.Op == "var" && strings.HasPrefix(a.Str, "H0:") {
		return i.isOldRef()
	}
	if a.Op == "select" && a.Args[0].Op == "var" && strings.HasPrefix(a.Args[0].Str, "H0:") {
		return a.Args[1].isOldRef()
	}
	return false
}

func (st *State) store(loc *Loc, v Val) {
	if v.Loc != nil && (v.Loc.idx != nil || v.Loc.glob != nil || v.Loc.prefix != ptrPrefix(v.Loc.T)) {
		unsup("interior pointer stored in memory")
	}
	if _, ok := under(loc.T).(*types.Array); ok {
		unsup("array value store")
	}
	if loc.bytes {
		if _, ok := st.bor[loc.ref]; ok {
			st.x.oblige(st, "alias", "write through a borrowed byte view", False)
		}
	}
	if loc.bytes {
		h := st.hget(bytesHeap, arr(SInt, SStr))
		content := Select(h, loc.ref)
		n := Len(content)
		nc := Concat(Substr(content, IntC(0), loc.idx), FromCode(v.C[0]), Substr(content, Add(loc.idx, IntC(1)), Sub(Sub(n, loc.idx), IntC(1))))
		st.hset(bytesHeap, Store(h, loc.ref, nc))
		st.logWrite(bytesHeap, loc.ref)
		// facts about the new content
		st.fact(Eq(mk("str.len", SInt, "", nc), n))
		return
	}
	for i, c := range flatten(loc.T) {
		name := loc.prefix + c.suffix
		h := st.hget(name, heapSort(loc, c))
		val := v.C[i]
		if loc.ref == nil {
			st.hset(name, val)
		} else if loc.idx == nil {
			st.hset(name, Store(h, loc.ref, val))
		} else {
			st.hset(name, Store(h, loc.ref, Store(Select(h, loc.ref), loc.idx, val)))
		}
		st.logWrite(name, loc.ref)
	}
}

func ptrPrefix(elem types.Type) string {
	if isStruct(elem) {
		return "F:" + typeKey(elem)
	}
	return "C:" + typeKey(elem)
}

// locOf gives the location a pointer value designates.
func locOf(p Val) *Loc {
	if p.Loc != nil {
		return p.Loc
	}
	pt, ok := under(p.T).(*types.Pointer)
	if !ok {
		unsup("dereference of %s", p.T)
	}
	return &Loc{prefix: ptrPrefix(pt.Elem()), ref: p.C[0], T: pt.Elem()}
}

func elemLoc(elem types.Type, ref, idx *Term) *Loc {
	if isByte(elem) {
		return &Loc{bytes: true, ref: ref, idx: idx, T: elem, prefix: bytesHeap}
	}
	return &Loc{prefix: "E:" + typeKey(elem), ref: ref, idx: idx, T: elem}
}
func (l *Loc) field(name string, t types.Type) *Loc {
	n := *l
	n.prefix = l.prefix + "." + name
	n.T = t
	return &n
}

// bytesOf gives the content of a byte slice as a string.
func (st *State) bytesOf(v Val) *Term {
	if bo, ok := st.bor[v.C[0]]; ok {
		cur := Select(st.hget(builderVer, arr(SInt, SInt)), bo.owner)
		if cur != bo.ver {
			st.x.oblige(st, "alias", "byte view of a builder used after the builder changed", Eq(cur, bo.ver))
		}
	}
	ref, off, ln := v.C[0], v.C[1], v.C[2]
	if ln.Op == "int" && ln.Int.Sign() == 0 {
		return StrC("")
	}
	if ref.Op == "int" && ref.Int.Sign() == 0 {
		return StrC("")
	}
	content := Select(st.hget(bytesHeap, arr(SInt, SStr)), ref)
	r := Substr(content, off, ln)
	if r.Op == "str.substr" {
		st.fact(Le(Add(off, ln), Len(content)))
		st.fact(Eq(mk("str.len", SInt, "", r), ln))
	}
	return r
}

// newBytes allocates a byte slice holding content.
func (st *State) newBytes(content *Term, t types.Type) Val {
	r := st.alloc()
	h := st.hget(bytesHeap, arr(SInt, SStr))
	st.hset(bytesHeap, Store(h, r, content))
	n := Len(content)
	return Val{T: t, C: []*Term{r, IntC(0), n, n}}
}

// ---- maps ----
func mapComps(t types.Type) (m *types.Map, dom string, vals string) {
	m = under(t).(*types.Map)
	k := typeKey(m)
	return m, "MD:" + k, "MV:" + k
}
func keySort(m *types.Map) Sort {
	cs := flatten(m.Key())
	if len(cs) != 1 {
		unsup("map key %s", m.Key())
	}
	return cs[0].sort
}
func (st *State) mapHas(mv Val, key *Term) *Term {
	m, dom, _ := mapComps(mv.T)
	if mv.Elts != nil {
		var ors []*Term
		for i := 0; i+1 < len(mv.Elts); i += 2 {
			ors = append(ors, Eq(mv.Elts[i].C[0], key))
		}
		return Or(ors...)
	}
	d := st.hget(dom, arr(SInt, arr(keySort(m), SBool)))
	return And(Ne(mv.C[0], IntC(0)), Select(Select(d, mv.C[0]), key))
}
func (st *State) mapGet(mv Val, key *Term) Val {
	m, _, vals := mapComps(mv.T)
	if mv.Elts != nil {
		r := zeroVal(m.Elem())
		for i := len(mv.Elts) - 2; i >= 0; i -= 2 {
			c := Eq(mv.Elts[i].C[0], key)
			for j := range r.C {
				r.C[j] = Ite(c, mv.Elts[i+1].C[j], r.C[j])
			}
		}
		return r
	}
	has := st.mapHas(mv, key)
	r := Val{T: m.Elem()}
	z := zeroVal(m.Elem())
	raw := Val{T: m.Elem()}
	for _, c := range flatten(m.Elem()) {
		h := st.hget(vals+c.suffix, arr(SInt, arr(keySort(m), c.sort)))
		t := Select(Select(h, mv.C[0]), key)
		typeFacts(t, c)
		if c.isRef {
			st.refFacts(t, vals+c.suffix)
		}
		raw.C = append(raw.C, t)
	}
	sliceFacts(raw)
	for i := range raw.C {
		r.C = append(r.C, Ite(has, raw.C[i], z.C[i]))
	}
	if len(r.C) == 4 { // slice facts for the guarded value too
		sliceFacts(r)
	}
	return r
}
func (st *State) mapSet(mv Val, key *Term, v Val) {
	m, dom, vals := mapComps(mv.T)
	d := st.hget(dom, arr(SInt, arr(keySort(m), SBool)))
	st.hset(dom, Store(d, mv.C[0], Store(Select(d, mv.C[0]), key, True)))
	st.logWrite(dom, mv.C[0])
	for i, c := range flatten(m.Elem()) {
		h := st.hget(vals+c.suffix, arr(SInt, arr(keySort(m), c.sort)))
		st.hset(vals+c.suffix, Store(h, mv.C[0], Store(Select(h, mv.C[0]), key, v.C[i])))
		st.logWrite(vals+c.suffix, mv.C[0])
	}
}
func (st *State) mapDelete(mv Val, key *Term) {
	m, dom, _ := mapComps(mv.T)
	d := st.hget(dom, arr(SInt, arr(keySort(m), SBool)))
	st.hset(dom, Store(d, mv.C[0], Store(Select(d, mv.C[0]), key, False)))
	st.logWrite(dom, mv.C[0])
}
func (st *State) newMap(t types.Type) Val {
	r := st.alloc()
	m, dom, _ := mapComps(t)
	d := st.hget(dom, arr(SInt, arr(keySort(m), SBool)))
	st.hset(dom, Store(d, r, ConstArr(arr(keySort(m), SBool), False)))
	return Val{T: t, C: []*Term{r}}
}
