package main

// Symbolic execution of go/ssa functions: instruction semantics, control flow, calls.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type static struct {
	isMap bool
	elts  []Val // alternating key, value
	pat   *string
	msg   string
	kind  string
}

type Obl struct {
	Fn, Kind, Name string
	Loc            string
	Q              *Query
	Res            Result
}

type Exec struct {
	pureRefs      map[*Term]bool
	frozenWritten string
	w    *World
	prop string

	fn    *ssa.Function
	spec  *FuncSpec
	entry *State
	args  map[string]Val // spec parameter names -> entry values

	obls    []*Obl
	record  bool // obligations are kept
	scan    bool // write-set scan: no solver calls
	safety  bool // generate safety obligations
	frames  bool // generate frame obligations
	term    bool // termination obligations
	stack   []*ssa.Function
	initMode bool
	survivors map[string]map[string]bool
	called  map[string]bool // contracts applied
	inlined map[string]bool
	modelsUsed map[string]bool
	curIns  ssa.Instruction
	nstep   int
	reqOnly bool
	frameAllow []frameItem
	frameAny map[string]bool
	loopsSeen int
	trivial int
	noInline map[string]bool
	opaque map[string]bool
	maxStates int
}

type frameItem struct {
	comp string // exact or prefix ending with '*'
	ref  *Term  // nil: any
}

type Frame struct {
	fn   *ssa.Function
	info *fnInfo
	exits []exit
}
type exit struct {
	st  *State
	res []Val
}

type edge struct {
	st   *State
	pred *ssa.BasicBlock
}

func (x *Exec) oblige(st *State, kind, name string, goal *Term) {
	g := st.known(goal)
	if g == True {
		if x.record && !x.initMode {
			x.trivial++
		}
		return
	}
	if x.record && !x.initMode {
		pos := ""
		if x.curIns != nil {
			pos = x.w.pos(x.curIns.Pos())
		}
		x.obls = append(x.obls, &Obl{Fn: fnKey(x.fn), Kind: kind, Name: name, Loc: pos, Q: &Query{Assume: st.path(), Goal: g, Eval: x.evalTerms()}})
	}
	st.fact(g)
}

// need is a safety condition: an obligation in C06 runs, otherwise assumed.
func (x *Exec) need(st *State, name string, cond *Term) {
	if x.safety {
		x.oblige(st, "safety", name, cond)
	} else {
		st.fact(cond)
	}
}

func (x *Exec) evalTerms() []*Term {
	var out []*Term
	if x.spec == nil {
		return nil
	}
	for _, n := range x.spec.Params {
		v, ok := x.args[n.Name]
		if !ok {
			continue
		}
		for _, c := range v.C {
			if c.Op == "var" {
				out = append(out, c)
			}
		}
	}
	return out
}

func (x *Exec) checkFrame(st *State, comp string, ref *Term) {
	if !x.frames || x.initMode || x.scan {
		return
	}
	if strings.HasPrefix(comp, "X:") && comp != builderContent {
		return
	}
	if x.frameAny[comp] {
		return
	}
	var ok []*Term
	if ref != nil {
		if _, _, isNew := splitBase(ref); isNew {
			return
		}
		ok = append(ok, mk("<=", SBool, "", A0, ref))
	}
	for _, f := range x.frameAllow {
		if f.comp == comp || strings.HasSuffix(f.comp, "*") && strings.HasPrefix(comp, strings.TrimSuffix(f.comp, "*")) {
			if f.ref == nil || f.ref == ref {
				return
			}
			if ref != nil {
				ok = append(ok, Eq(ref, f.ref))
			}
		}
	}
	x.oblige(st, "frame", "write to "+comp+" stays within the declared frame", Or(ok...))
}

// ---- values ----
func (x *Exec) eval(st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		t := c.Type().(*types.Pointer).Elem()
		k := globKey(c)
		return Val{T: c.Type(), C: []*Term{IntC(-int64(x.w.globID(k)))}, Loc: &Loc{prefix: "G:" + k, T: t, glob: c}}
	case *ssa.Function:
		return Val{T: c.Type(), C: []*Term{IntC(1)}, Fn: &FuncVal{fn: c}}
	case *ssa.Builtin:
		return Val{T: c.Type(), C: []*Term{IntC(1)}, Fn: &FuncVal{model: "builtin." + c.Name()}}
	}
	r, ok := st.env[v]
	if !ok {
		unsup("value %s = %s not available in %s", v.Name(), v, v.Parent())
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Val{T: t, C: []*Term{BoolC(constant.BoolVal(c.Value))}}
	case constant.String:
		return Val{T: t, C: []*Term{StrC(constant.StringVal(c.Value))}}
	case constant.Int:
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Val{T: t, C: []*Term{mk("real", "Real", c.Value.ExactString()+".0")}}
		}
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return Val{T: t, C: []*Term{IntB(b)}}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return Val{T: t, C: []*Term{IntC(int64(f))}}
		}
		return Val{T: t, C: []*Term{mk("real", "Real", fmt.Sprint(f))}}
	}
	unsup("constant %s", c)
	return Val{}
}

func (x *Exec) nonNil(st *State, p Val, what string) {
	if p.Loc != nil && p.Loc.ref == nil {
		return
	}
	r := p.C[0]
	if p.Loc != nil && p.Loc.ref != nil {
		r = p.Loc.ref
	}
	if _, _, ok := splitBase(r); ok {
		return
	}
	if r.Op == "int" && r.Int.Sign() > 0 {
		return
	}
	x.need(st, "nil dereference: "+what, Ne(r, IntC(0)))
}

func fnKey(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if o := fn.Origin(); o != nil && o != fn {
		return fnKey(o)
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name() + "."
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return pkg + n.Obj().Name() + "." + fn.Name()
		}
	}
	return pkg + fn.Name()
}
func globKey(g *ssa.Global) string { return g.Pkg.Pkg.Name() + "." + g.Name() }

// ---- running a function body ----
func (x *Exec) runFn(fn *ssa.Function, st *State) []exit {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	fr := &Frame{fn: fn, info: infoOf(fn)}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.runBlocks(fr, fn.Blocks[0], []edge{{st, nil}}, nil, nil)
	return fr.exits
}

// phiAssign applies the phi nodes of b for an edge from pred.
func (x *Exec) phiAssign(st *State, b, pred *ssa.BasicBlock) {
	if pred == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == pred {
			pi = i
			break
		}
	}
	var vs []Val
	var ph []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		v := x.eval(st, p.Edges[pi])
		v.T = p.Type()
		vs = append(vs, v)
		ph = append(ph, p)
	}
	for i, p := range ph {
		st.env[p] = vs[i]
	}
}

// runBlocks executes from entry. region limits the blocks (nil: all); edges leaving the region or returning to
// the region header are handed back.
func (x *Exec) runBlocks(fr *Frame, entry *ssa.BasicBlock, ins []edge, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) (backs []edge, outs map[*ssa.BasicBlock][]edge) {
	outs = map[*ssa.BasicBlock][]edge{}
	pending := map[*ssa.BasicBlock][]edge{entry: ins}
	preset := header != nil // entry states already have phis assigned
	route := func(es map[*ssa.BasicBlock][]edge) {
		for to, l := range es {
			for _, e := range l {
				if e.st.dead {
					continue
				}
				switch {
				case header != nil && to == header:
					backs = append(backs, e)
				case region != nil && !region[to]:
					outs[to] = append(outs[to], e)
				default:
					pending[to] = append(pending[to], e)
				}
			}
		}
	}
	for _, b := range fr.info.order {
		es := pending[b]
		if len(es) == 0 {
			continue
		}
		delete(pending, b)
		if region != nil && !region[b] {
			continue
		}
		var sts []*State
		for _, e := range es {
			if e.st.dead {
				continue
			}
			if !(preset && b == entry) {
				x.phiAssign(e.st, b, e.pred)
			}
			sts = append(sts, e.st)
		}
		sts = x.mergeAll(sts, fr.info.liveIn[b])
		if _, isLoop := fr.info.headers[b]; isLoop && b != header {
			for _, s := range sts {
				route(x.doLoop(fr, b, s))
			}
			continue
		}
		route(x.execBlock(fr, b, sts))
	}
	return
}

// execBlock runs the instructions of b on each state and returns outgoing edges.
func (x *Exec) execBlock(fr *Frame, b *ssa.BasicBlock, sts []*State) map[*ssa.BasicBlock][]edge {
	out := map[*ssa.BasicBlock][]edge{}
	cur := sts
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if len(cur) == 0 {
			return out
		}
		x.curIns = ins
		switch t := ins.(type) {
		case *ssa.Jump:
			for _, s := range cur {
				out[b.Succs[0]] = append(out[b.Succs[0]], edge{s, b})
			}
			return out
		case *ssa.If:
			for _, s := range cur {
				c := s.known(x.eval(s, t.Cond).C[0])
				if c == True {
					out[b.Succs[0]] = append(out[b.Succs[0]], edge{s, b})
					continue
				}
				if c == False {
					out[b.Succs[1]] = append(out[b.Succs[1]], edge{s, b})
					continue
				}
				s2 := s.clone()
				s.assume(c)
				s2.assume(Not(c))
				if !s.dead {
					out[b.Succs[0]] = append(out[b.Succs[0]], edge{s, b})
				}
				if !s2.dead {
					out[b.Succs[1]] = append(out[b.Succs[1]], edge{s2, b})
				}
			}
			return out
		case *ssa.Return:
			for _, s := range cur {
				var rs []Val
				for i, r := range t.Results {
					v := x.eval(s, r)
					v.T = fr.fn.Signature.Results().At(i).Type()
					rs = append(rs, v)
				}
				fr.exits = append(fr.exits, exit{s, rs})
			}
			return out
		case *ssa.Panic:
			for _, s := range cur {
				x.need(s, "explicit panic", False)
			}
			return out
		}
		var nx []*State
		for _, s := range cur {
			if s.dead {
				continue
			}
			x.nstep++
			if x.nstep > 400000 {
				unsup("step budget exhausted in %s", fnKey(x.fn))
			}
			r := x.step(fr, s, ins)
			if r == nil {
				nx = append(nx, s)
			} else {
				nx = append(nx, r...)
			}
		}
		cur = nx
	}
	return out
}

type stVal struct {
	st *State
	v  Val
}

func one(st *State, v Val) []stVal { return []stVal{{st, v}} }

// step executes one non-terminator instruction. nil result means the same state continues.
func (x *Exec) step(fr *Frame, st *State, ins ssa.Instruction) []*State {
	switch t := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := t.Type().(*types.Pointer).Elem()
		st.set(t, x.allocOf(st, t.Type(), et))
	case *ssa.Store:
		p := x.eval(st, t.Addr)
		x.nonNil(st, p, "store")
		v := x.eval(st, t.Val)
		l := locOf(p)
		if a, ok := under(l.T).(*types.Array); ok {
			x.storeArray(st, l, v, a)
			break
		}
		st.store(l, v)
	case *ssa.UnOp:
		st.set(t, x.unop(st, t))
	case *ssa.BinOp:
		a, b := x.eval(st, t.X), x.eval(st, t.Y)
		st.set(t, x.binop(st, t.Op, a, b, t.Type()))
	case *ssa.FieldAddr:
		p := x.eval(st, t.X)
		x.nonNil(st, p, "field access")
		l := locOf(p)
		f := under(l.T).(*types.Struct).Field(t.Field)
		nl := l.field(f.Name(), f.Type())
		r := l.ref
		if r == nil {
			r = p.C[0]
		}
		st.set(t, Val{T: t.Type(), C: []*Term{r}, Loc: nl})
	case *ssa.Field:
		s := x.eval(st, t.X)
		a, b := fieldRange(s.T, t.Field)
		v := Val{T: t.Type(), C: s.C[a:b]}
		st.attachStatic(&v)
		st.set(t, v)
	case *ssa.IndexAddr:
		st.set(t, x.indexAddr(st, t))
	case *ssa.Index:
		s := x.eval(st, t.X)
		i := x.eval(st, t.Index).C[0]
		if isString(s.T) {
			x.need(st, "string index out of range", And(Le(IntC(0), i), Lt(i, Len(s.C[0]))))
			st.set(t, Val{T: t.Type(), C: []*Term{st.byteAt(s.C[0], i)}})
		} else {
			unsup("index of array value")
		}
	case *ssa.Lookup:
		m := x.eval(st, t.X)
		k := x.eval(st, t.Index)
		if isString(m.T) {
			i := k.C[0]
			x.need(st, "string index out of range", And(Le(IntC(0), i), Lt(i, Len(m.C[0]))))
			st.set(t, Val{T: t.Type(), C: []*Term{st.byteAt(m.C[0], i)}})
			break
		}
		if len(k.C) != 1 {
			unsup("map key %s", k.T)
		}
		x.guardMap(st, m, false)
		v := st.mapGet(m, k.C[0])
		x.mapInv(st, m, k.C[0], &v)
		if t.CommaOk {
			ok := st.mapHas(m, k.C[0])
			st.set(t, Val{T: t.Type(), Tup: []Val{v, {T: types.Typ[types.Bool], C: []*Term{ok}}}})
		} else {
			st.set(t, v)
		}
	case *ssa.MapUpdate:
		m := x.eval(st, t.Map)
		k := x.eval(st, t.Key)
		v := x.eval(st, t.Value)
		if x.initMode {
			if s, ok := x.w.statics[m.C[0].Int.Int64()]; ok && s.isMap && k.C[0].isConst() {
				for i := 0; i < len(s.elts); i += 2 {
					if s.elts[i].C[0] == k.C[0] {
						s.elts[i+1] = v
						return nil
					}
				}
				s.elts = append(s.elts, k, v)
				return nil
			}
		}
		x.need(st, "assignment to nil map", Ne(m.C[0], IntC(0)))
		x.guardMap(st, m, true)
		x.mapInvCheck(st, m, k, v)
		st.mapSet(m, k.C[0], v)
	case *ssa.MakeMap:
		if x.initMode {
			r := st.alloc()
			x.w.statics[r.Int.Int64()] = &static{isMap: true, elts: []Val{}}
			st.set(t, Val{T: t.Type(), C: []*Term{r}})
			break
		}
		st.set(t, st.newMap(t.Type()))
	case *ssa.MakeSlice:
		n := x.eval(st, t.Len).C[0]
		c := x.eval(st, t.Cap).C[0]
		x.need(st, "makeslice: len out of range", And(Le(IntC(0), n), Le(n, c)))
		st.set(t, x.makeSlice(st, t.Type(), n, c))
	case *ssa.Slice:
		st.set(t, x.slice(st, t))
	case *ssa.Convert:
		st.set(t, x.convert(st, x.eval(st, t.X), t.Type()))
	case *ssa.ChangeType:
		v := x.eval(st, t.X)
		v.T = t.Type()
		st.set(t, v)
	case *ssa.ChangeInterface:
		v := x.eval(st, t.X)
		v.T = t.Type()
		st.set(t, v)
	case *ssa.MakeInterface:
		st.set(t, x.makeIface(st, x.eval(st, t.X), t.Type()))
	case *ssa.TypeAssert:
		v := x.eval(st, t.X)
		if v.Dyn == nil {
			unsup("type assertion on unknown dynamic type")
		}
		ok := types.Identical(v.Dyn.T, t.AssertedType)
		if t.CommaOk {
			r := zeroVal(t.AssertedType)
			if ok {
				r = *v.Dyn
			}
			st.set(t, Val{T: t.Type(), Tup: []Val{r, {T: types.Typ[types.Bool], C: []*Term{BoolC(ok)}}}})
		} else {
			x.need(st, "type assertion", BoolC(ok))
			st.set(t, *v.Dyn)
		}
	case *ssa.MakeClosure:
		f := t.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range t.Bindings {
			bs = append(bs, x.eval(st, b))
		}
		st.set(t, Val{T: t.Type(), C: []*Term{st.alloc()}, Fn: &FuncVal{fn: f, binds: bs}})
	case *ssa.Extract:
		v := x.eval(st, t.Tuple)
		st.set(t, v.Tup[t.Index])
	case *ssa.Range:
		v := x.eval(st, t.X)
		if isString(v.T) {
			st.iters[t] = &iterInfo{kind: "str", str: v.C[0], pos: IntC(0)}
		} else {
			m := under(v.T).(*types.Map)
			st.iters[t] = &iterInfo{kind: "map", m: v, visited: ConstArr(arr(keySort(m), SBool), False)}
		}
		st.set(t, Val{T: types.Typ[types.Int], C: []*Term{IntC(0)}})
	case *ssa.Next:
		return x.next(st, t)
	case *ssa.Defer:
		d := deferred{ins: t, call: &t.Call}
		d.fn, d.args = x.callParts(st, &t.Call)
		st.defers = append(st.defers, d)
	case *ssa.RunDefers:
		// defers of inlined frames are kept per frame by saving/restoring in callFn
		cur := []*State{st}
		for {
			var nx []*State
			any := false
			for _, s := range cur {
				if len(s.defers) == 0 {
					nx = append(nx, s)
					continue
				}
				any = true
				d := s.defers[len(s.defers)-1]
				s.defers = s.defers[:len(s.defers)-1]
				for _, r := range x.call(s, d.call, d.fn, d.args, nil) {
					nx = append(nx, r.st)
				}
			}
			cur = nx
			if !any {
				return cur
			}
		}
	case *ssa.Call:
		fn, args := x.callParts(st, &t.Call)
		rs := x.call(st, &t.Call, fn, args, t)
		var out []*State
		for _, r := range rs {
			if r.st.dead {
				continue
			}
			r.st.set(t, r.v)
			out = append(out, r.st)
		}
		if len(out) == 1 && out[0] == st {
			return nil
		}
		if out == nil {
			return []*State{}
		}
		return out
	default:
		unsup("instruction %T in %s", ins, fr.fn)
	}
	return nil
}

func (x *Exec) storeArray(st *State, l *Loc, v Val, a *types.Array) {
	unsup("array store")
}

func (st *State) byteAt(s, i *Term) *Term {
	b := ByteAt(s, i)
	if b.Op != "int" {
		st.fact(mk("=>", SBool, "", mk("and", SBool, "", Le2(IntC(0), i), Not(Le2(Len(s), i))), Le2(IntC(0), b)))
	}
	return b
}
func Le2(a, b *Term) *Term { return mk("<=", SBool, "", a, b) }

func (x *Exec) allocOf(st *State, pt, et types.Type) Val {
	r := st.alloc()
	if a, ok := under(et).(*types.Array); ok {
		n := a.Len()
		if isByte(a.Elem()) {
			h := st.hget(bytesHeap, arr(SInt, SStr))
			st.hset(bytesHeap, Store(h, r, StrC(strings.Repeat("\x00", int(n)))))
		} else {
			z := zeroVal(a.Elem())
			for i, c := range flatten(a.Elem()) {
				name := "E:" + typeKey(a.Elem()) + c.suffix
				s := arr(SInt, arr(SInt, c.sort))
				st.hset(name, Store(st.hget(name, s), r, ConstArr(arr(SInt, c.sort), z.C[i])))
			}
		}
		return Val{T: pt, C: []*Term{r}}
	}
	l := &Loc{prefix: ptrPrefix(et), ref: r, T: et}
	z := zeroVal(et)
	for i, c := range flatten(et) {
		name := l.prefix + c.suffix
		st.hset(name, Store(st.hget(name, heapSort(l, c)), r, z.C[i]))
	}
	if typeKey(et) == "stringbuilder.Builder" && !x.inBuilderPkg() {
		st.hset(builderContent, Store(st.hget(builderContent, arr(SInt, SStr)), r, StrC("")))
		st.hset(builderVer, Store(st.hget(builderVer, arr(SInt, SInt)), r, IntC(0)))
	}
	return Val{T: pt, C: []*Term{r}}
}

func (x *Exec) inBuilderPkg() bool {
	return x.fn != nil && x.fn.Pkg != nil && x.fn.Pkg.Pkg.Name() == "stringbuilder"
}

func (x *Exec) makeSlice(st *State, t types.Type, n, c *Term) Val {
	r := st.alloc()
	el := under(t).(*types.Slice).Elem()
	if isByte(el) {
		var content *Term
		if c.Op == "int" && c.Int.Int64() <= 64 {
			content = StrC(strings.Repeat("\x00", int(c.Int.Int64())))
		} else {
			content = Fresh("mkbytes", SStr)
			st.fact(Eq(mk("str.len", SInt, "", content), c))
		}
		h := st.hget(bytesHeap, arr(SInt, SStr))
		st.hset(bytesHeap, Store(h, r, content))
	} else {
		z := zeroVal(el)
		for i, cc := range flatten(el) {
			name := "E:" + typeKey(el) + cc.suffix
			s := arr(SInt, arr(SInt, cc.sort))
			st.hset(name, Store(st.hget(name, s), r, ConstArr(arr(SInt, cc.sort), z.C[i])))
		}
	}
	return Val{T: t, C: []*Term{r, IntC(0), n, c}}
}

func (x *Exec) indexAddr(st *State, t *ssa.IndexAddr) Val {
	b := x.eval(st, t.X)
	i := x.eval(st, t.Index).C[0]
	switch u := under(b.T).(type) {
	case *types.Slice:
		x.need(st, "slice index out of range", And(Le(IntC(0), i), Lt(i, b.C[2])))
		return Val{T: t.Type(), C: []*Term{b.C[0]}, Loc: elemLoc(u.Elem(), b.C[0], Add(b.C[1], i))}
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		x.need(st, "array index out of range", And(Le(IntC(0), i), Lt(i, IntC(a.Len()))))
		if b.Loc != nil && b.Loc.prefix != ptrPrefix(b.Loc.T) {
			unsup("array inside another object")
		}
		return Val{T: t.Type(), C: []*Term{b.C[0]}, Loc: elemLoc(a.Elem(), b.C[0], i)}
	}
	unsup("indexaddr %s", b.T)
	return Val{}
}

func (x *Exec) slice(st *State, t *ssa.Slice) Val {
	b := x.eval(st, t.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.eval(st, v).C[0]
	}
	switch u := under(b.T).(type) {
	case *types.Basic:
		n := Len(b.C[0])
		lo, hi := opt(t.Low, IntC(0)), opt(t.High, n)
		x.need(st, "string slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)))
		return Val{T: t.Type(), C: []*Term{st.substr(b.C[0], lo, Sub(hi, lo))}}
	case *types.Slice:
		lo, hi := opt(t.Low, IntC(0)), opt(t.High, b.C[2])
		mx := opt(t.Max, b.C[3])
		x.need(st, "slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, b.C[3])))
		v := Val{T: t.Type(), C: []*Term{b.C[0], Add(b.C[1], lo), Sub(hi, lo), Sub(mx, lo)}}
		return v
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		n := IntC(a.Len())
		lo, hi := opt(t.Low, IntC(0)), opt(t.High, n)
		x.need(st, "slice bounds out of range", And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)))
		return Val{T: t.Type(), C: []*Term{b.C[0], lo, Sub(hi, lo), Sub(n, lo)}}
	}
	unsup("slice of %s", b.T)
	return Val{}
}

// substr gives s[i:i+n] for indices already checked to be in range.
func (st *State) substr(s, i, n *Term) *Term {
	r := Substr(s, i, n)
	if r.Op == "str.substr" {
		st.fact(Eq(mk("str.len", SInt, "", r), n))
	}
	return r
}

func (x *Exec) unop(st *State, t *ssa.UnOp) Val {
	v := x.eval(st, t.X)
	switch t.Op {
	case token.MUL:
		x.nonNil(st, v, "load")
		l := locOf(v)
		if _, ok := under(l.T).(*types.Array); ok {
			unsup("array load")
		}
		r := st.load(l)
		r.T = t.Type()
		x.loadInv(st, l, &r)
		return r
	case token.NOT:
		return Val{T: t.Type(), C: []*Term{Not(v.C[0])}}
	case token.SUB:
		return x.wrap(Val{T: t.Type(), C: []*Term{Neg(v.C[0])}})
	}
	unsup("unary %s", t.Op)
	return Val{}
}

// wrap reduces an integer to its type's range when it may fall outside (64-bit signed arithmetic is mathematical).
func (x *Exec) wrap(v Val) Val {
	lo, hi := intRange(v.T)
	if lo == nil {
		return v
	}
	l, h := bounds(v.C[0])
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return v
	}
	b := under(v.T).(*types.Basic)
	if b.Kind() == types.Int || b.Kind() == types.Int64 {
		return v
	}
	m := IntB(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
	if lo.Sign() == 0 {
		v.C = []*Term{Mod(v.C[0], m)}
	} else {
		v.C = []*Term{Add(Mod(Sub(v.C[0], IntB(lo)), m), IntB(lo))}
	}
	return v
}

func (x *Exec) valEqTerm(a, b Val) *Term {
	if _, ok := under(a.T).(*types.Slice); ok { // only comparison with nil
		return Eq(a.C[0], b.C[0])
	}
	var cs []*Term
	for i := range a.C {
		cs = append(cs, Eq(a.C[i], b.C[i]))
	}
	return And(cs...)
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type) Val {
	bv := func(c *Term) Val { return Val{T: t, C: []*Term{c}} }
	switch op {
	case token.EQL, token.NEQ:
		if a.Loc != nil && b.Loc == nil || b.Loc != nil && a.Loc == nil {
			// interior pointer against nil
			l, o := a, b
			if b.Loc != nil {
				l, o = b, a
			}
			if o.C[0].Op == "int" && o.C[0].Int.Sign() == 0 && (l.Loc.glob != nil || l.Loc.prefix != ptrPrefix(l.Loc.T)) {
				return bv(BoolC(op == token.NEQ))
			}
		}
		if isFn(a.T) && (a.Fn != nil || b.Fn != nil) {
			return bv(BoolC(op == token.NEQ))
		}
		e := x.valEqTerm(a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return bv(e)
	}
	if isString(a.T) {
		switch op {
		case token.ADD:
			return bv(Concat(a.C[0], b.C[0]))
		case token.LSS:
			return bv(StrLt(a.C[0], b.C[0]))
		case token.GTR:
			return bv(StrLt(b.C[0], a.C[0]))
		case token.LEQ:
			return bv(Not(StrLt(b.C[0], a.C[0])))
		case token.GEQ:
			return bv(Not(StrLt(a.C[0], b.C[0])))
		}
	}
	p, q := a.C[0], b.C[0]
	if a.C[0].Sort == SBool {
		switch op {
		case token.AND:
			return bv(And(p, q))
		case token.OR:
			return bv(Or(p, q))
		}
	}
	if p.Sort == "Real" {
		unsup("floating point")
	}
	switch op {
	case token.ADD:
		return x.wrap(bv(Add(p, q)))
	case token.SUB:
		return x.wrap(bv(Sub(p, q)))
	case token.MUL:
		return x.wrap(bv(Mul(p, q)))
	case token.QUO, token.REM:
		x.need(st, "integer divide by zero", Ne(q, IntC(0)))
		l, _ := bounds(p)
		l2, _ := bounds(q)
		if l != nil && l.Sign() >= 0 && l2 != nil && l2.Sign() >= 0 {
			if op == token.QUO {
				return bv(Div(p, q))
			}
			return bv(Mod(p, q))
		}
		if q.Op == "int" && q.Int.Sign() > 0 {
			d := Ite(Le(IntC(0), p), Div(p, q), Neg(Div(Neg(p), q)))
			if op == token.QUO {
				return bv(d)
			}
			return bv(Sub(p, Mul(q, d)))
		}
		unsup("signed division")
	case token.LSS:
		return bv(Lt(p, q))
	case token.LEQ:
		return bv(Le(p, q))
	case token.GTR:
		return bv(Lt(q, p))
	case token.GEQ:
		return bv(Le(q, p))
	case token.SHL:
		if q.Op == "int" && q.Int.Int64() < 63 {
			return x.wrap(bv(Mul(p, IntB(new(big.Int).Lsh(big.NewInt(1), uint(q.Int.Int64()))))))
		}
	case token.SHR:
		if q.Op == "int" && q.Int.Int64() < 63 {
			return bv(Div(p, IntB(new(big.Int).Lsh(big.NewInt(1), uint(q.Int.Int64())))))
		}
	case token.AND:
		if q.Op == "int" && q.Int.Sign() >= 0 {
			m := new(big.Int).Add(q.Int, big.NewInt(1))
			if new(big.Int).And(m, q.Int).Sign() == 0 {
				return bv(Mod(p, IntB(m)))
			}
		}
	}
	u := UF("op."+op.String(), SInt, p, q)
	typeFacts(u, comp{"", SInt, t, false})
	x.modelsUsed["uninterpreted integer operator "+op.String()] = true
	return bv(u)
}
func isFn(t types.Type) bool { _, ok := under(t).(*types.Signature); return ok }

func (x *Exec) convert(st *State, v Val, t types.Type) Val {
	from, to := v.T, t
	switch {
	case isInteger(from) && isInteger(to):
		r := Val{T: t, C: v.C}
		lo, hi := intRange(t)
		l, h := bounds(v.C[0])
		if lo != nil && (l == nil || h == nil || l.Cmp(lo) < 0 || h.Cmp(hi) > 0) {
			// narrowing or sign change
			fl, fh := intRange(from)
			if fl != nil && fl.Cmp(lo) >= 0 && fh.Cmp(hi) <= 0 {
				return r
			}
			m := IntB(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1)))
			if lo.Sign() == 0 {
				r.C = []*Term{Mod(v.C[0], m)}
			} else {
				r.C = []*Term{Add(Mod(Sub(v.C[0], IntB(lo)), m), IntB(lo))}
			}
		}
		return r
	case isInteger(from) && isString(to):
		return Val{T: t, C: []*Term{x.utf8(st, v.C[0])}}
	case isString(from) && isByteSlice(to):
		return st.newBytes(v.C[0], t)
	case isByteSlice(from) && isString(to):
		return Val{T: t, C: []*Term{st.bytesOf(v)}}
	case isString(from) && isString(to):
		v.T = t
		return v
	case isString(from): // []rune
		if s, ok := under(to).(*types.Slice); ok && isInteger(s.Elem()) {
			return x.toRunes(st, v.C[0], t)
		}
	case isString(to):
		if s, ok := under(from).(*types.Slice); ok && isInteger(s.Elem()) {
			return Val{T: t, C: []*Term{x.fromRunes(st, v)}}
		}
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer && len(v.C) == 1 {
		return Val{T: t, C: v.C} // only handed to the protobuf runtime, see models2.go
	}
	unsup("conversion %s -> %s", from, to)
	return Val{}
}

func (x *Exec) makeIface(st *State, v Val, t types.Type) Val {
	d := v
	if _, ok := under(v.T).(*types.Pointer); ok && v.Loc == nil {
		// a typed nil pointer is a non-nil interface; only comparisons with nil would notice
		return Val{T: t, C: v.C, Dyn: &d}
	}
	if _, ok := under(v.T).(*types.Pointer); ok {
		return Val{T: t, C: v.C, Dyn: &d}
	}
	return Val{T: t, C: []*Term{st.alloc()}, Dyn: &d}
}

// ---- iteration ----
func (x *Exec) next(st *State, t *ssa.Next) []*State {
	it := st.iters[t.Iter]
	if it == nil {
		unsup("iterator")
	}
	if it.kind == "str" {
		s, pos := it.str, it.pos
		ok := Lt(pos, Len(s))
		r, w := x.runeAt(st, s, pos, ok)
		n := *it
		n.pos = Ite(ok, Add(pos, w), pos)
		if k := st.known(ok); k == True {
			n.pos = Add(pos, w)
		} else if k == False {
			n.pos = pos
		}
		st.iters[t.Iter] = &n
		tp := t.Type().(*types.Tuple)
		st.set(t, Val{T: t.Type(), Tup: []Val{{T: tp.At(0).Type(), C: []*Term{ok}}, {T: types.Typ[types.Int], C: []*Term{pos}}, {T: types.Typ[types.Rune], C: []*Term{r}}}})
		return nil
	}
	// map
	m := under(it.m.T).(*types.Map)
	ok := Fresh("mok", SBool)
	kv := freshVal("mkey", m.Key(), false)
	k := kv.C[0]
	has := st.mapHas(it.m, k)
	st.fact(Imp(ok, And(has, Not(Select(it.visited, k)))))
	qk := Fresh("qk", keySort(m))
	st.fact(Imp(Not(ok), Forall([]*Term{qk}, Imp(st.mapHas(it.m, qk), Select(it.visited, qk)))))
	n := *it
	n.visited = Ite(ok, Store(it.visited, k, True), it.visited)
	st.iters[t.Iter] = &n
	v := st.mapGet(it.m, k)
	x.mapInv(st, it.m, k, &v)
	st.set(t, Val{T: t.Type(), Tup: []Val{{T: types.Typ[types.Bool], C: []*Term{ok}}, kv, v}})
	return nil
}

// ---- calls ----
func (x *Exec) callParts(st *State, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		args = append(args, x.eval(st, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, x.eval(st, a))
	}
	if c.IsInvoke() {
		return Val{}, args
	}
	return x.eval(st, c.Value), args
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) call(st *State, c *ssa.CallCommon, fv Val, args []Val, ins ssa.Instruction) []stVal {
	rt := resultType(c.Signature())
	if c.IsInvoke() {
		recv := args[0]
		if recv.Dyn != nil {
			ms := x.w.prog.MethodSets.MethodSet(recv.Dyn.T)
			if sel := ms.Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
				if f := x.w.prog.MethodValue(sel); f != nil {
					return x.callFn(st, f, nil, append([]Val{*recv.Dyn}, args[1:]...), rt)
				}
			}
		}
		key := "invoke." + typeKey(recv.T) + "." + c.Method.Name()
		if m, ok := models[key]; ok {
			x.modelsUsed[key] = true
			return m(x, st, args, rt)
		}
		unsup("interface call %s", key)
	}
	if fv.Fn == nil {
		if b, ok := x.callUnknown(st, fv, args, rt); ok {
			return b
		}
		unsup("call of unknown function value")
	}
	if strings.HasPrefix(fv.Fn.model, "builtin.") {
		return x.builtin(st, strings.TrimPrefix(fv.Fn.model, "builtin."), c, args, rt)
	}
	return x.callFn(st, fv.Fn.fn, fv.Fn.binds, args, rt)
}

func fullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Path()
	} else if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return p + "." + fn.Name()
}

func (x *Exec) callFn(st *State, fn *ssa.Function, binds []Val, args []Val, rt types.Type) []stVal {
	key := fnKey(fn)
	full := fullName(fn)
	if m, ok := models[full]; ok {
		x.modelsUsed[full] = true
		return m(x, st, args, rt)
	}
	if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && x.initMode && fn.Pkg != nil && fn.Pkg != x.fn.Pkg {
		return one(st, Val{T: rt})
	}
	if sp := x.w.specs.get(key); sp != nil && sp.matches(fn) && !x.initMode && !(x.fn == fn && len(x.stack) <= 0) {
		if !sp.Inline && !x.noInlineSpec(key) {
			return x.applySpec(st, sp, fn, args, rt)
		}
	}
	inRepo := fn.Pkg != nil && x.w.repoPkgs[fn.Pkg] || fn.Parent() != nil && x.repoParent(fn) || fn.Origin() != nil && fn.Origin().Pkg != nil && x.w.repoPkgs[fn.Origin().Pkg]
	if !inRepo && !inlineStd[full] && (fn.Synthetic == "" || len(fn.Blocks) == 0) {
		if x.initMode {
			return one(st, freshVal("init."+fn.Name(), rt, true))
		}
		unsup("external function %s has no model", full)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s without a contract", key)
		}
	}
	if len(x.stack) > 14 {
		unsup("inlining depth at %s", key)
	}
	if len(fn.Blocks) == 0 {
		unsup("no body: %s", full)
	}
	x.inlined[key] = true
	if x.initMode && strings.HasPrefix(fn.Name(), "init#") {
		// an explicit init function: skipped (and reported) when it is outside the subset
		snap := st.clone()
		ok := func() (ok bool) {
			defer func() {
				if r := recover(); r != nil {
					x.w.initErrs = append(x.w.initErrs, fmt.Sprintf("%s (%s): %v", key, x.w.pos(fn.Pos()), r))
					ok = false
				}
			}()
			if n := len(x.runFn(fn, snap.clone())); n != 1 {
				x.w.initErrs = append(x.w.initErrs, fmt.Sprintf("%s (%s): %d exits", key, x.w.pos(fn.Pos()), n))
				return false
			}
			return true
		}()
		if !ok {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, isG := (*op).(*ssa.Global); isG {
							x.w.mutable[g] = true
						}
					}
				}
			}
			return one(st, Val{T: rt})
		}
	}
	// inline
	savedEnv, savedIters, savedDefers := st.env, st.iters, st.defers
	savedIns := x.curIns
	st.env = map[ssa.Value]Val{}
	st.iters = map[ssa.Value]*iterInfo{}
	st.defers = nil
	for i, p := range fn.Params {
		v := args[i]
		v.T = p.Type()
		st.env[p] = v
	}
	for i, f := range fn.FreeVars {
		st.env[f] = binds[i]
	}
	getter := getterLike(fn, 0)
	var before *State
	if getter {
		before = st.clone()
		before.env, before.iters, before.defers = savedEnv, savedIters, savedDefers
	}
	exits := x.runFn(fn, st)
	x.curIns = savedIns
	if getter {
		if r, ok := mergeGetter(before, exits, rt); ok {
			return r
		}
	}
	// merge the exits
	ph := retKey(fn)
	var sts []*State
	for _, e := range exits {
		if e.st.dead {
			continue
		}
		env := make(map[ssa.Value]Val, len(savedEnv)+1)
		for k, v := range savedEnv {
			env[k] = v
		}
		env[ph] = packRes(e.res, rt)
		e.st.env = env
		it := make(map[ssa.Value]*iterInfo, len(savedIters))
		for k, v := range savedIters {
			it[k] = v
		}
		e.st.iters = it
		e.st.defers = append([]deferred(nil), savedDefers...)
		sts = append(sts, e.st)
	}
	live := make([]ssa.Value, 0, len(savedEnv)+1)
	for k := range savedEnv {
		live = append(live, k)
	}
	live = append(live, ph)
	sts = x.mergeAll(sts, live)
	var out []stVal
	for _, s := range sts {
		v := s.env[ph]
		delete(s.env, ph)
		out = append(out, stVal{s, v})
	}
	return out
}

func (x *Exec) repoParent(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil && x.w.repoPkgs[fn.Pkg] {
		return true
	}
	return fn.Origin() != nil && fn.Origin().Pkg != nil && x.w.repoPkgs[fn.Origin().Pkg]
}

func (x *Exec) noInlineSpec(key string) bool { return x.noInline[key] }

var retKeys = map[*ssa.Function]ssa.Value{}

type retVal struct {
	ssa.Value
	n string
}

func (r retVal) Name() string { return r.n }

func retKey(fn *ssa.Function) ssa.Value {
	if v, ok := retKeys[fn]; ok {
		return v
	}
	v := &retVal{n: "ret." + fn.Name()}
	retKeys[fn] = v
	return v
}

func packRes(rs []Val, rt types.Type) Val {
	if tp, ok := rt.(*types.Tuple); ok {
		return Val{T: tp, Tup: rs}
	}
	if len(rs) == 1 {
		v := rs[0]
		v.T = rt
		return v
	}
	return Val{T: rt, Tup: rs}
}

var debugOn = os.Getenv("GVC_DEBUG") != ""

func debugf(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

var getterMemo = map[*ssa.Function]bool{}

// getterLike reports that fn has no loops, no effects and calls only such functions:
// its exits are joined into one state whose result is a conditional term.
func getterLike(fn *ssa.Function, depth int) bool {
	if r, ok := getterMemo[fn]; ok {
		return r
	}
	if depth >= 4 {
		return false
	}
	ok := len(fn.Blocks) > 1 && len(fn.Blocks) <= 8 && len(fn.FreeVars) == 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch t := ins.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.RunDefers, *ssa.Panic, *ssa.Range, *ssa.Next, *ssa.MakeInterface:
				ok = false
			case *ssa.Call:
				if b, isB := t.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
					continue
				}
				c := t.Call.StaticCallee()
				if c == nil || len(c.Blocks) == 0 || !getterLike(c, depth+1) {
					ok = false
				}
			}
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ok = false
			}
		}
	}
	getterMemo[fn] = ok
	return ok
}

func mergeGetter(before *State, exits []exit, rt types.Type) ([]stVal, bool) {
	if len(exits) == 0 {
		return nil, false
	}
	m := before
	np := len(m.pc)
	var val Val
	first := true
	for i := len(exits) - 1; i >= 0; i-- {
		e := exits[i]
		if e.st.dead {
			continue
		}
		if !heapContentEq(before, e.st) || len(e.st.pc) < np || splitPC(m.pc[:np], e.st.pc) != np || e.st.base != before.base || e.st.k != before.k {
			return nil, false
		}
		v := packRes(e.res, rt)
		if !first && !valEq(v, val) && !valMergeable(v, val) {
			return nil, false
		}
		first = false
		val = v
	}
	if first {
		return nil, false
	}
	first = true
	for i := len(exits) - 1; i >= 0; i-- {
		e := exits[i]
		if e.st.dead {
			continue
		}
		c, facts := sufParts(e.st.pc[np:])
		for _, f := range facts {
			m.fact(Imp(c, f))
		}
		v := packRes(e.res, rt)
		if first {
			val = v
			first = false
		} else if !valEq(v, val) {
			val = valIte(c, v, val)
		}
		for k, hv := range e.st.heap {
			if _, ok := m.heap[k]; !ok {
				m.heap[k] = hv
			}
		}
		for k := range e.st.writes {
			m.writes[k] = true
		}
		for k, bv := range e.st.bor {
			m.bor[k] = bv
		}
	}
	return []stVal{{m, val}}, true
}
