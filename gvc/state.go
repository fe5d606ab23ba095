package main

// Symbolic states: heap, environment, path condition; forking and merging.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type pcEntry struct {
	t    *Term
	cond bool // branch condition (as opposed to an assumed fact)
}

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	ins  *ssa.Defer
}

type iterInfo struct {
	kind    string // "str" or "map"
	str     *Term
	pos     *Term
	m       Val
	visited *Term
}

type wr struct {
	comp string
	ref  *Term
}

type State struct {
	x      *Exec
	heap   map[string]*Term
	env    map[ssa.Value]Val
	iters  map[ssa.Value]*iterInfo
	pc     []pcEntry
	seen   map[*Term]bool
	base   *Term
	k      int64
	defers []deferred
	bor    map[*Term]Borrow
	writes map[wr]bool
	dead   bool
}

func (st *State) clone() *State {
	n := *st
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.env = make(map[ssa.Value]Val, len(st.env))
	for k, v := range st.env {
		n.env[k] = v
	}
	n.iters = make(map[ssa.Value]*iterInfo, len(st.iters))
	for k, v := range st.iters {
		n.iters[k] = v
	}
	n.pc = append([]pcEntry(nil), st.pc...)
	n.seen = make(map[*Term]bool, len(st.seen))
	for k, v := range st.seen {
		n.seen[k] = v
	}
	n.bor = make(map[*Term]Borrow, len(st.bor))
	for k, v := range st.bor {
		n.bor[k] = v
	}
	n.writes = make(map[wr]bool, len(st.writes))
	for k, v := range st.writes {
		n.writes[k] = v
	}
	n.defers = append([]deferred(nil), st.defers...)
	return &n
}

func (st *State) fact(t *Term) {
	for _, c := range conjuncts(t) {
		if c == True || st.seen[c] {
			continue
		}
		if c == False || st.seen[Not(c)] {
			st.dead = true
		}
		st.seen[c] = true
		st.pc = append(st.pc, pcEntry{c, false})
	}
}
func (st *State) assume(t *Term) { // branch condition
	for _, c := range conjuncts(t) {
		if c == True || st.seen[c] {
			continue
		}
		if c == False || st.seen[Not(c)] {
			st.dead = true
		}
		st.seen[c] = true
		st.pc = append(st.pc, pcEntry{c, true})
	}
}
func (st *State) path() []*Term {
	out := make([]*Term, 0, len(st.pc))
	for _, e := range st.pc {
		out = append(out, e.t)
	}
	return out
}

// known simplifies a boolean under the facts already on the path.
func (st *State) known(t *Term) *Term {
	if t.isConst() {
		return t
	}
	if st.seen[t] {
		return True
	}
	if st.seen[Not(t)] {
		return False
	}
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, st.known(a))
		}
		return And(out...)
	case "or":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, st.known(a))
		}
		return Or(out...)
	case "not":
		return Not(st.known(t.Args[0]))
	case "=":
		// x = c1 known and asking x = c2
		for _, e := range st.pc {
			if e.t.Op == "=" {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						if e.t.Args[i] == t.Args[j] && e.t.Args[1-i].isConst() && t.Args[1-j].isConst() && e.t.Args[1-i] != t.Args[1-j] {
							return False
						}
					}
				}
			}
		}
	}
	return t
}

func (st *State) alloc() *Term {
	if st.x.initMode {
		st.x.w.staticN++
		return IntC(int64(st.x.w.staticN))
	}
	r := Add(st.base, IntC(st.k))
	st.k++
	return r
}
func (st *State) allocTop() *Term { return Add(st.base, IntC(st.k)) }

// newEra starts a new allocation base (after a loop head or an abstracted call).
func (st *State) newEra(name string) {
	top := st.allocTop()
	b := newBase(name)
	st.fact(mk("<=", SBool, "", top, b))
	st.base, st.k = b, 0
}

func (st *State) logWrite(comp string, ref *Term) {
	st.writes[wr{comp, ref}] = true
	st.x.frozenWrite(comp, ref)
	st.x.checkFrame(st, comp, ref)
}

func (st *State) set(v ssa.Value, val Val) { st.env[v] = val }

// attachStatic adds statically known contents to values loaded from memory.
func (st *State) attachStatic(v *Val) {
	if len(v.C) == 1 && v.C[0].Op == "int" && v.C[0].Int.Sign() > 0 {
		if s, ok := st.x.w.statics[v.C[0].Int.Int64()]; ok && s.isMap && v.T != nil && !st.x.w.updMaps[typeKey(under(v.T))] {
			if _, isM := under(v.T).(*types.Map); !isM {
				return
			}
			v.Elts = s.elts
		}
	}
}

// ---- merging ----
func valEq(a, b Val) bool {
	if len(a.C) != len(b.C) || len(a.Tup) != len(b.Tup) {
		return false
	}
	for i := range a.C {
		if a.C[i] != b.C[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !valEq(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	if (a.Loc == nil) != (b.Loc == nil) || a.Loc != nil && !locEq(a.Loc, b.Loc) {
		return false
	}
	if (a.Fn == nil) != (b.Fn == nil) || a.Fn != nil && !fnEq(a.Fn, b.Fn) {
		return false
	}
	if (a.Dyn == nil) != (b.Dyn == nil) {
		return false
	}
	return true
}
func fnEq(a, b *FuncVal) bool {
	if a.fn != b.fn || a.model != b.model || len(a.binds) != len(b.binds) {
		return false
	}
	for i := range a.binds {
		if !valEq(a.binds[i], b.binds[i]) {
			return false
		}
	}
	return true
}
func locEq(a, b *Loc) bool {
	return a.prefix == b.prefix && a.ref == b.ref && a.idx == b.idx && a.bytes == b.bytes && a.glob == b.glob
}

// valMergeable: an ite over the components represents the merge faithfully.
func valMergeable(a, b Val) bool {
	if valEq(a, b) {
		return true
	}
	if len(a.C) != len(b.C) || len(a.Tup) != len(b.Tup) || a.Loc != nil || b.Loc != nil || a.Fn != nil || b.Fn != nil {
		return false
	}
	for i := range a.Tup {
		if !valMergeable(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	return true
}
func valIte(c *Term, a, b Val) Val {
	if valEq(a, b) {
		return a
	}
	r := Val{T: a.T}
	for i := range a.C {
		r.C = append(r.C, Ite(c, a.C[i], b.C[i]))
	}
	for i := range a.Tup {
		r.Tup = append(r.Tup, valIte(c, a.Tup[i], b.Tup[i]))
	}
	return r
}

func scalarDiffOnly(a, b Val) bool {
	for i := range a.C {
		if a.C[i] != b.C[i] {
			if a.C[i].Sort == SBool {
				continue
			}
			if a.C[i].Sort == SInt && isInteger(a.T) {
				continue
			}
			return false
		}
	}
	return len(a.Tup) == 0
}

func heapEq(a, b *State) bool {
	if a.base != b.base || a.k != b.k {
		return false
	}
	return heapContentEq(a, b)
}
func heapContentEq(a, b *State) bool {
	for k, v := range a.heap {
		w, ok := b.heap[k]
		if !ok {
			w = Var("H0:"+k, v.Sort)
		}
		if v != w {
			return false
		}
	}
	for k, v := range b.heap {
		if _, ok := a.heap[k]; !ok && v != Var("H0:"+k, v.Sort) {
			return false
		}
	}
	return true
}

// splitPC separates the common prefix of two path conditions.
func splitPC(a, b []pcEntry) (n int) {
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return
}
func sufParts(p []pcEntry) (conds *Term, facts []*Term) {
	var cs []*Term
	for _, e := range p {
		if e.cond {
			cs = append(cs, e.t)
		} else {
			facts = append(facts, e.t)
		}
	}
	return And(cs...), facts
}

// merge combines two states; live values only are kept. Caller has checked mergeability.
func mergeStates(a, b *State, live []ssa.Value) *State {
	n := splitPC(a.pc, b.pc)
	ca, fa := sufParts(a.pc[n:])
	cb, fb := sufParts(b.pc[n:])
	m := a.clone()
	m.pc = append([]pcEntry(nil), a.pc[:n]...)
	m.seen = map[*Term]bool{}
	for _, e := range m.pc {
		m.seen[e.t] = true
	}
	m.assume(Or(ca, cb))
	inB := map[*Term]bool{}
	for _, f := range fb {
		inB[f] = true
	}
	for _, f := range fa {
		if inB[f] {
			m.fact(f)
			delete(inB, f)
		} else {
			m.fact(Imp(ca, f))
		}
	}
	for _, f := range fb {
		if inB[f] {
			m.fact(Imp(cb, f))
		}
	}
	for k, v := range b.heap {
		va, ok := a.heap[k]
		if !ok {
			va = Var("H0:"+k, v.Sort)
		}
		m.heap[k] = Ite(ca, va, v)
	}
	for k, v := range a.heap {
		if _, ok := b.heap[k]; !ok {
			m.heap[k] = Ite(ca, v, Var("H0:"+k, v.Sort))
		}
	}
	if a.base != b.base || a.k != b.k {
		ta, tb := a.allocTop(), b.allocTop()
		nb := newBase("A")
		m.fact(mk("<=", SBool, "", ta, nb))
		m.fact(mk("<=", SBool, "", tb, nb))
		m.base, m.k = nb, 0
	}
	env := map[ssa.Value]Val{}
	for _, v := range live {
		x, ok := a.env[v]
		if !ok {
			continue
		}
		y, ok := b.env[v]
		if !ok {
			continue
		}
		env[v] = valIte(ca, x, y)
	}
	m.env = env
	for k, v := range b.bor {
		m.bor[k] = v
	}
	for k := range b.writes {
		m.writes[k] = true
	}
	for k, ia := range a.iters {
		if ib, ok := b.iters[k]; ok && !iterEq(ia, ib) {
			c := *ia
			if ia.pos != nil {
				c.pos = Ite(ca, ia.pos, ib.pos)
			}
			if ia.visited != nil {
				c.visited = Ite(ca, ia.visited, ib.visited)
			}
			m.iters[k] = &c
		}
	}
	return m
}

func (x *Exec) canMerge(a, b *State, live []ssa.Value, force bool) bool {
	if len(a.defers) != len(b.defers) {
		return false
	}
	same := heapContentEq(a, b)
	if !same && !force {
		return false
	}
	for k, ia := range a.iters {
		if ib, ok := b.iters[k]; ok && !iterEq(ia, ib) && (ia.str != ib.str || !force) {
			return false
		}
	}
	for _, v := range live {
		p, ok1 := a.env[v]
		q, ok2 := b.env[v]
		if ok1 != ok2 {
			return false
		}
		if !ok1 || valEq(p, q) {
			continue
		}
		if !valMergeable(p, q) {
			return false
		}
		if !force && !scalarDiffOnly(p, q) {
			return false
		}
	}
	return true
}

const maxStates = 12

func (x *Exec) mergeAll(in []*State, live []ssa.Value) []*State {
	var out []*State
	for _, s := range in {
		if s.dead {
			continue
		}
		done := false
		for i, o := range out {
			if x.canMerge(o, s, live, false) {
				out[i] = mergeStates(o, s, live)
				done = true
				break
			}
		}
		if !done {
			out = append(out, s)
		}
	}
	limit := maxStates
	if x.maxStates > 0 {
		limit = x.maxStates
	}
	if len(out) > limit {
		var out2 []*State
		for _, s := range out {
			done := false
			for i, o := range out2 {
				if x.canMerge(o, s, live, true) {
					out2[i] = mergeStates(o, s, live)
					done = true
					break
				}
			}
			if !done {
				out2 = append(out2, s)
			}
		}
		out = out2
	}
	return out
}

// ---- liveness ----
type fnInfo struct {
	fn      *ssa.Function
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	liveIn  map[*ssa.BasicBlock][]ssa.Value
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> loop body
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if f, ok := fnInfos[fn]; ok {
		return f
	}
	fi := &fnInfo{fn: fn, rpo: map[*ssa.BasicBlock]int{}, liveIn: map[*ssa.BasicBlock][]ssa.Value{}, headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	fnInfos[fn] = fi
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	// natural loops
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := fi.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					fi.headers[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			} else if fi.rpo[s] <= fi.rpo[b] {
				unsup("irreducible control flow in %s", fn)
			}
		}
	}
	// liveness
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	out := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fi.order {
		in[b] = map[ssa.Value]bool{}
		out[b] = map[ssa.Value]bool{}
	}
	isVar := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
			return false
		}
		return v != nil
	}
	changed := true
	for changed {
		changed = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			o := out[b]
			for _, s := range b.Succs {
				for v := range in[s] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					o[v] = true
				}
				// phi inputs from b
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						ph, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if isVar(ph.Edges[pi]) {
							o[ph.Edges[pi]] = true
						}
					}
				}
			}
			l := map[ssa.Value]bool{}
			for v := range o {
				l[v] = true
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					if _, isPhi := ins.(*ssa.Phi); !isPhi {
						delete(l, v)
					}
				}
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					l[ins.(ssa.Value)] = true // phi values are assigned on entry
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && isVar(*op) {
						l[*op] = true
					}
				}
			}
			for v := range l {
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	for b, s := range in {
		var vs []ssa.Value
		for v := range s {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		fi.liveIn[b] = vs
	}
	return fi
}

var _ = types.Typ

func iterEq(a, b *iterInfo) bool {
	return a.kind == b.kind && a.str == b.str && a.pos == b.pos && a.visited == b.visited && valEq(a.m, b.m)
}
