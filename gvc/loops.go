package main

// Loops: bounded constant unrolling, havoc of written locations, and invariant inference over contract templates.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const unrollMax = 64

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) headerKey(h *ssa.BasicBlock) string {
	var b strings.Builder
	for _, f := range x.stack {
		b.WriteString(fnKey(f))
		b.WriteByte('/')
	}
	fmt.Fprintf(&b, "%d", h.Index)
	return b.String()
}

func (x *Exec) doLoop(fr *Frame, header *ssa.BasicBlock, st *State) map[*ssa.BasicBlock][]edge {
	body := fr.info.headers[header]
	if x.initMode {
		out, ok := x.unroll(fr, header, body, st, 5000)
		if !ok {
			unsup("loop in initialisation")
		}
		return out
	}
	if n := x.tripBound(fr, header, body, st); n >= 0 && n <= unrollMax {
		no, ne := len(x.obls), len(fr.exits)
		s2 := st.clone()
		out, ok := x.unroll(fr, header, body, s2, n+2)
		if ok {
			return out
		}
		x.obls, fr.exits = x.obls[:no], fr.exits[:ne]
	}
	return x.generalLoop(fr, header, body, st)
}

func (x *Exec) unroll(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, max int) (map[*ssa.BasicBlock][]edge, bool) {
	outs := map[*ssa.BasicBlock][]edge{}
	cur := []*State{st}
	for n := 0; ; n++ {
		if n > max {
			return nil, false
		}
		var es []edge
		for _, s := range cur {
			es = append(es, edge{s, nil})
		}
		backs, o := x.runBlocks(fr, header, es, body, header)
		for k, v := range o {
			outs[k] = append(outs[k], v...)
		}
		var sts []*State
		for _, e := range backs {
			x.phiAssign(e.st, header, e.pred)
			sts = append(sts, e.st)
		}
		cur = x.mergeAll(sts, fr.info.liveIn[header])
		if len(cur) == 0 {
			return outs, true
		}
	}
}

// tripBound finds a constant bound on the number of iterations, or -1.
func (x *Exec) tripBound(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) int {
	best := -1
	constOf := func(v ssa.Value) *big.Int {
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			// len of a loop-invariant value
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					a := c.Call.Args[0]
					if ai, ok := a.(ssa.Instruction); ok && body[ai.Block()] {
						return nil
					}
					if e, ok := st.env[a]; ok {
						if isString(e.T) && Len(e.C[0]).Op == "int" {
							return Len(e.C[0]).Int
						}
						if len(e.C) == 4 && e.C[2].Op == "int" {
							return e.C[2].Int
						}
					}
				}
			}
			return nil
		}
		switch c := v.(type) {
		case *ssa.Const:
			t := x.constVal(c)
			if t.C[0].Op == "int" {
				return t.C[0].Int
			}
			return nil
		}
		if e, ok := st.env[v]; ok && len(e.C) == 1 && e.C[0].Op == "int" {
			return e.C[0].Int
		}
		return nil
	}
	for b := range body {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
			continue
		}
		// string iterator over a constant
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if nx, ok := ex.Tuple.(*ssa.Next); ok {
				if it := st.iters[nx.Iter]; it != nil && it.kind == "str" && Len(it.str).Op == "int" {
					n := int(Len(it.str).Int.Int64())
					if best < 0 || n < best {
						best = n
					}
				}
			}
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for side := 0; side < 2; side++ {
			iv, lim := bo.X, bo.Y
			op := bo.Op
			if side == 1 {
				iv, lim = bo.Y, bo.X
				switch op {
				case token.LSS:
					op = token.GTR
				case token.LEQ:
					op = token.GEQ
				case token.GTR:
					op = token.LSS
				case token.GEQ:
					op = token.LEQ
				}
			}
			if op != token.LSS && op != token.LEQ && op != token.GTR && op != token.GEQ && op != token.NEQ {
				continue
			}
			p, step := inductionPhi(iv, header)
			if p == nil || step == 0 {
				continue
			}
			init := st.env[p]
			if len(init.C) != 1 || init.C[0].Op != "int" {
				continue
			}
			l := constOf(lim)
			if l == nil {
				continue
			}
			d := new(big.Int).Sub(l, init.C[0].Int)
			if d.Sign() < 0 {
				d.Neg(d)
			}
			if step > 1 || step < -1 {
				continue
			}
			if !d.IsInt64() || d.Int64() > unrollMax {
				continue
			}
			n := int(d.Int64()) + 1
			if best < 0 || n < best {
				best = n
			}
		}
	}
	return best
}

// inductionPhi: v is a header phi or phi+const whose back edges all add the same constant.
func inductionPhi(v ssa.Value, header *ssa.BasicBlock) (*ssa.Phi, int) {
	p, ok := v.(*ssa.Phi)
	if !ok {
		b, ok := v.(*ssa.BinOp)
		if !ok {
			return nil, 0
		}
		p, ok = b.X.(*ssa.Phi)
		if !ok {
			return nil, 0
		}
		if _, ok := b.Y.(*ssa.Const); !ok {
			return nil, 0
		}
	}
	if p.Block() != header {
		return nil, 0
	}
	step := 0
	for i, e := range p.Edges {
		if !header.Dominates(header.Preds[i]) {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return nil, 0
		}
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			return nil, 0
		}
		k := int(c.Int64())
		if b.Op == token.SUB {
			k = -k
		} else if b.Op != token.ADD {
			return nil, 0
		}
		if step != 0 && step != k {
			return nil, 0
		}
		step = k
	}
	return p, step
}

// ---- general loops ----
type binding struct {
	v   ssa.Value
	off int64
	it  bool
}

type cand struct {
	name  string
	eval  func(s *State) *Term
	isTpl bool
}

func (x *Exec) generalLoop(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State) map[*ssa.BasicBlock][]edge {
	W := map[wr]bool{}
	itersW := map[ssa.Value]bool{}
	for b := range body {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok {
				itersW[n.Iter] = true
			}
		}
	}
	entrySt := st.clone()
	mkHeader := func() (*State, int) {
		h := st.clone()
		mark := C.n
		h.newEra("L")
		for _, p := range phisOf(header) {
			old := st.env[p]
			nv := freshVal("phi."+p.Comment, p.Type(), false)
			if old.Fn != nil || old.Loc != nil {
				// function values / interior pointers must not vary
				nv = old
			}
			for i, c := range flattenSafe(p.Type()) {
				if c.isRef {
					h.fact(Le2(Add(nv.C[i], IntC(1)), h.allocTop()))
				}
			}
			h.env[p] = nv
		}
		for it := range itersW {
			o := h.iters[it]
			if o == nil {
				continue
			}
			n := *o
			if o.kind == "str" {
				n.pos = Fresh("pos", SInt)
				withRange(n.pos, big.NewInt(0), nil)
				h.fact(Le2(n.pos, Len(o.str)))
				x.runeBoundary(h, o.str, n.pos)
			} else {
				n.visited = Fresh("visited", o.visited.Sort)
				// visited keys are keys of the map
				q := Fresh("qk", keySort(under(o.m.T).(*types.Map)))
				h.fact(Forall([]*Term{q}, Imp(Select(n.visited, q), h.mapHas(o.m, q))))
			}
			h.iters[it] = &n
		}
		// havoc written locations
		byComp := map[string][]*Term{}
		for w := range W {
			byComp[w.comp] = append(byComp[w.comp], w.ref)
		}
		for _, c := range sortedKeys(byComp) {
			refs := byComp[c]
			whole := false
			for _, r := range refs {
				if r == nil {
					whole = true
				}
			}
			s, ok := compSorts[c]
			if !ok {
				continue
			}
			if whole {
				n := Fresh("hv."+c, s)
				h.heap[c] = n
				if lo, hi := bounds(h.hget(c, s)); lo != nil && s == SInt {
					_ = hi
				}
				continue
			}
			sort.Slice(refs, func(i, j int) bool { return refs[i].id < refs[j].id })
			t := h.hget(c, s)
			_, vs := arrParts(s)
			for _, r := range refs {
				t = Store(t, r, Fresh("hv."+c, vs))
			}
			h.heap[c] = t
		}
		for w := range W {
			h.writes[w] = true
		}
		return h, mark
	}
	// phase 1: find the write set
	savedScan, savedRec := x.scan, x.record
	x.scan, x.record = true, false
	for n := 0; ; n++ {
		if n > 8 {
			x.scan, x.record = savedScan, savedRec
			unsup("write set of a loop in %s does not stabilise", fr.fn)
		}
		h, mark := mkHeader()
		hb := h.base
		h.writes = map[wr]bool{}
		ne := len(fr.exits)
		backs, _ := x.runBlocks(fr, header, []edge{{h, nil}}, body, header)
		fr.exits = fr.exits[:ne]
		grew := false
		for _, e := range backs {
			for w := range e.st.writes {
				nw := w
				if w.ref != nil {
					if b, _, ok := splitBase(w.ref); ok && C.baseRank[b] >= C.baseRank[hb] {
						continue // allocated during the iteration
					}
					if newerThan(w.ref, mark) {
						nw.ref = nil
						if s, ok := compSorts[w.comp]; !ok || !strings.HasPrefix(string(s), "(Array") {
							nw.ref = nil
						}
					}
				}
				if !W[nw] {
					W[nw] = true
					grew = true
				}
			}
		}
		if !grew {
			break
		}
	}
	x.scan, x.record = savedScan, savedRec

	if x.scan {
		h, _ := mkHeader()
		_, outs := x.runBlocks(fr, header, []edge{{h, nil}}, body, header)
		return outs
	}

	// phase 2: candidates
	cands := x.candidates(fr, header, body, entrySt, W)
	hk := x.headerKey(header)
	if sv, ok := x.survivors[hk]; ok {
		var c2 []cand
		for _, c := range cands {
			if sv[c.name] {
				c2 = append(c2, c)
			}
		}
		cands = c2
	}
	cands = x.filter(cands, []*State{entrySt})
	for round := 0; ; round++ {
		h, _ := mkHeader()
		for _, c := range cands {
			if t := safeEval(c, h); t != nil {
				h.fact(t)
			}
		}
		no, ne := len(x.obls), len(fr.exits)
		h0 := h.clone()
		backs, outs := x.runBlocks(fr, header, []edge{{h, nil}}, body, header)
		var bs []*State
		for _, e := range backs {
			x.phiAssign(e.st, header, e.pred)
			bs = append(bs, e.st)
		}
		keep := x.filter(cands, bs)
		if len(keep) == len(cands) {
			sv := map[string]bool{}
			for _, c := range cands {
				sv[c.name] = true
			}
			x.survivors[hk] = sv
			if debugOn {
				for _, c := range cands {
					if c.isTpl {
						debugf("  inv %s: %s", hk, c.name)
					}
				}
			}
			if x.record {
				x.obls = append(x.obls, &Obl{Fn: fnKey(x.fn), Kind: "invariant", Name: fmt.Sprintf("%d loop invariants initially hold and are preserved (%s)", len(cands), x.w.pos(header.Instrs[0].Pos())), Res: Result{Status: "unsat", By: "portfolio"}})
				if x.term {
					x.checkTermination(fr, header, body, h0, bs)
				}
			}
			return outs
		}
		x.obls, fr.exits = x.obls[:no], fr.exits[:ne]
		cands = keep
		if round > 30 {
			unsup("invariant inference does not converge")
		}
	}
}

func flattenSafe(t types.Type) []comp { return flatten(t) }

// newerThan: the term mentions a symbol created after the mark.
func newerThan(t *Term, mark int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "var" && t.id > mark && !strings.HasPrefix(t.Str, "H0:") {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func safeEval(c cand, s *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(s)
}

// filter keeps the candidates provable in all the given states.
func (x *Exec) filter(cands []cand, sts []*State) []cand {
	if len(cands) == 0 {
		return cands
	}
	alive := make([]bool, len(cands))
	for i := range alive {
		alive[i] = true
	}
	for _, s := range sts {
		if s.dead {
			continue
		}
		var goals []*Term
		var idx []int
		for i, c := range cands {
			if !alive[i] {
				continue
			}
			g := safeEval(c, s)
			if g == nil {
				alive[i] = false
				continue
			}
			g = s.known(g)
			if g == True {
				continue
			}
			goals = append(goals, g)
			idx = append(idx, i)
		}
		if len(goals) == 0 {
			continue
		}
		if len(goals) > 1 {
			r := solve(&Query{Assume: s.path(), Goal: And(goals...)}, 2500*timeScale)
			if r.Status == "unsat" {
				continue
			}
		}
		var qs []*Query
		for _, g := range goals {
			qs = append(qs, &Query{Assume: s.path(), Goal: g})
		}
		rs := solveAll(qs, 4000*timeScale)
		for k, r := range rs {
			if r.Status != "unsat" {
				alive[idx[k]] = false
				if cands[idx[k]].isTpl {
					debugf("  drop %s (%s)", cands[idx[k]].name, r.Status)
				}
			}
		}
	}
	var out []cand
	for i, c := range cands {
		if alive[i] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Exec) candidates(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State, W map[wr]bool) []cand {
	var out []cand
	seen := map[string]bool{}
	add := func(name string, tpl bool, f func(s *State) *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, cand{name, f, tpl})
	}
	phis := phisOf(header)
	// automatic candidates
	for _, p := range phis {
		p := p
		ev := entry.env[p]
		switch {
		case isInteger(p.Type()):
			i0 := ev.C[0]
			add(p.Name()+">=init", false, func(s *State) *Term { return Le(i0, s.env[p].C[0]) })
			add(p.Name()+"<=init", false, func(s *State) *Term { return Le(s.env[p].C[0], i0) })
			for b := range body {
				iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
				if !ok {
					continue
				}
				bo, ok := iff.Cond.(*ssa.BinOp)
				if !ok {
					continue
				}
				for _, lim := range []ssa.Value{bo.X, bo.Y} {
					lim := lim
					if lim == ssa.Value(p) || !isInteger(lim.Type()) {
						continue
					}
					get := x.invariantTerm(lim, body)
					if get == nil {
						continue
					}
					for d := int64(-1); d <= 1; d++ {
						d := d
						add(fmt.Sprintf("%s<=%s%+d", p.Name(), lim.Name(), d), false, func(s *State) *Term { return Le(s.env[p].C[0], Add(get(s), IntC(d))) })
						add(fmt.Sprintf("%s>=%s%+d", p.Name(), lim.Name(), d), false, func(s *State) *Term { return Le(Add(get(s), IntC(d)), s.env[p].C[0]) })
					}
				}
			}
			for _, v := range fr.info.liveIn[header] {
				v := v
				if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
					continue
				}
				e, ok := entry.env[v]
				if !ok {
					continue
				}
				if isString(e.T) {
					add(p.Name()+"<=len "+v.Name(), false, func(s *State) *Term { return Le(s.env[p].C[0], Len(s.env[v].C[0])) })
				} else if _, ok := under(e.T).(*types.Slice); ok {
					add(p.Name()+"<=len "+v.Name(), false, func(s *State) *Term { return Le(s.env[p].C[0], s.env[v].C[2]) })
				}
			}
		case isString(p.Type()), p.Type().Underlying() == types.Typ[types.Bool]:
			add(p.Name()+"==init", false, func(s *State) *Term { return Eq(s.env[p].C[0], ev.C[0]) })
		default:
			if len(ev.C) >= 1 && ev.C[0].Sort == SInt {
				add(p.Name()+"!=nil", false, func(s *State) *Term { return Ne(s.env[p].C[0], IntC(0)) })
				add(p.Name()+" old", false, func(s *State) *Term { return Lt(s.env[p].C[0], A0) })
				if len(ev.C) == 4 {
					add(p.Name()+".off==0", false, func(s *State) *Term { return Eq(s.env[p].C[1], IntC(0)) })
				}
				for i := range ev.C {
					i := i
					add(fmt.Sprintf("%s.%d==init", p.Name(), i), false, func(s *State) *Term { return Eq(s.env[p].C[i], ev.C[i]) })
				}
			}
		}
	}
	// written scalar locations that keep their value
	for w := range W {
		w := w
		if w.ref == nil {
			continue
		}
		s, ok := compSorts[w.comp]
		if !ok || !strings.HasPrefix(string(s), "(Array Int ") {
			continue
		}
		_, vs := arrParts(s)
		if vs != SInt && vs != SBool && vs != SStr {
			continue
		}
		e0 := Select(entry.hget(w.comp, s), w.ref)
		add(fmt.Sprintf("%s[%s] unchanged", w.comp, w.ref), false, func(st *State) *Term { return Eq(Select(st.hget(w.comp, s), w.ref), e0) })
		if compIsRef[w.comp] {
			add(fmt.Sprintf("%s[%s]!=nil", w.comp, w.ref), false, func(st *State) *Term { return Ne(Select(st.hget(w.comp, s), w.ref), IntC(0)) })
		}
	}
	// byte buffers keep their length
	for w := range W {
		w := w
		if w.comp == bytesHeap && w.ref != nil {
			n0 := Len(Select(entry.hget(bytesHeap, arr(SInt, SStr)), w.ref))
			add("len B "+w.ref.String(), false, func(st *State) *Term {
				return Eq(Len(Select(st.hget(bytesHeap, arr(SInt, SStr)), w.ref)), n0)
			})
		}
	}
	// templates
	var tpls []*LoopTpl
	if x.spec != nil {
		tpls = append(tpls, x.spec.Loops...)
	}
	if fr.fn != x.fn {
		if sp := x.w.specs.get(fnKey(fr.fn)); sp != nil && sp.matches(fr.fn) {
			tpls = append(tpls, sp.Loops...)
		}
	}
	dom := x.holeDomains(fr, header, body, entry)
	for _, t := range tpls {
		if !x.tagOK(t.Tags) {
			continue
		}
		x.instTpl(t, dom, entry, add)
	}
	return out
}

// invariantTerm: evaluate a loop-invariant integer operand at any state of the loop.
func (x *Exec) invariantTerm(v ssa.Value, body map[*ssa.BasicBlock]bool) func(s *State) *Term {
	in, isIns := v.(ssa.Instruction)
	if !isIns || !body[in.Block()] {
		if c, ok := v.(*ssa.Const); ok && (c.Value == nil || c.Value.Kind().String() != "Int") {
			return nil
		}
		return func(s *State) *Term { return x.eval(s, v).C[0] }
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := c.Call.Args[0]
			if ai, ok := a.(ssa.Instruction); ok && body[ai.Block()] {
				if _, isPhi := a.(*ssa.Phi); !isPhi {
					return nil
				}
			}
			return func(s *State) *Term {
				e := x.eval(s, a)
				if isString(e.T) {
					return Len(e.C[0])
				}
				if len(e.C) == 4 {
					return e.C[2]
				}
				unsup("len")
				return nil
			}
		}
	}
	return nil
}

func holeType(t types.Type) string { return typeKey(t) }

func (x *Exec) holeDomains(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, entry *State) map[string][]binding {
	dom := map[string][]binding{}
	put := func(v ssa.Value) {
		k := holeType(v.Type())
		dom[k] = append(dom[k], binding{v: v})
	}
	for _, p := range phisOf(header) {
		put(p)
		if isInteger(p.Type()) {
			if e := entry.env[p]; len(e.C) == 1 && e.C[0].Op == "int" && e.C[0].Int.Int64() == -1 {
				k := holeType(p.Type())
				dom[k] = append(dom[k], binding{v: p, off: 1})
			}
		}
	}
	for _, v := range fr.info.liveIn[header] {
		if _, ok := entry.env[v]; !ok {
			continue
		}
		if in, ok := v.(ssa.Instruction); ok && body[in.Block()] {
			continue
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == header {
			continue
		}
		switch v.(type) {
		case *ssa.Range:
			if it := entry.iters[v]; it != nil {
				dom["iter."+it.kind] = append(dom["iter."+it.kind], binding{v: v, it: true})
			}
			continue
		}
		put(v)
	}
	return dom
}

func (x *Exec) instTpl(t *LoopTpl, dom map[string][]binding, entry *State, add func(string, bool, func(*State) *Term)) {
	var rec func(i int, bs []binding)
	count := 0
	rec = func(i int, bs []binding) {
		if i == len(t.Holes) {
			count++
			if count > 300 {
				return
			}
			bs := append([]binding(nil), bs...)
			var nm strings.Builder
			nm.WriteString(t.Text)
			for j, b := range bs {
				fmt.Fprintf(&nm, " [%s=%s%+d]", t.Holes[j].Name, b.v.Name(), b.off)
			}
			add(nm.String(), true, func(s *State) *Term {
				ev := x.newEval(s)
				ev.pre = entry
				for j, b := range bs {
					bind := func(s2 *State) Val {
						if b.it {
							it := s2.iters[b.v]
							if it == nil {
								unsup("iterator gone")
							}
							return Val{T: types.Typ[types.Invalid], C: iterTerms(it), Elts: []Val{it.m}}
						}
						v := x.eval(s2, b.v)
						if b.off != 0 {
							v.C = []*Term{Add(v.C[0], IntC(b.off))}
						}
						return v
					}
					ev.dyn[t.Holes[j].Name] = bind
				}
				return ev.Bool(t.Expr)
			})
			return
		}
		ht := strings.TrimSuffix(t.Holes[i].Type, "!")
	next:
		for _, b := range dom[ht] {
			if ht != t.Holes[i].Type { // T!: a local, not a parameter
				if _, ok := b.v.(*ssa.Parameter); ok {
					continue
				}
			}
			for j, c := range bs { // holes of one type stand for different values
				if strings.TrimSuffix(t.Holes[j].Type, "!") == ht && c.v == b.v && c.off == b.off {
					continue next
				}
			}
			rec(i+1, append(bs, b))
		}
	}
	rec(0, nil)
}

func iterTerms(it *iterInfo) []*Term {
	if it.kind == "str" {
		return []*Term{it.str, it.pos}
	}
	return []*Term{it.visited}
}

func (x *Exec) checkTermination(fr *Frame, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, h *State, backs []*State) {
	// loops driven by range iterators end by construction
	for b := range body {
		for _, ins := range b.Instrs {
			if n, ok := ins.(*ssa.Next); ok && b == header {
				_ = n
				return
			}
		}
	}
	var meas []cand
	for _, p := range phisOf(header) {
		p := p
		if !isInteger(p.Type()) {
			continue
		}
		meas = append(meas, cand{name: p.Name(), eval: func(s *State) *Term { return s.env[p].C[0] }})
		for b := range body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			bo, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, lim := range []ssa.Value{bo.X, bo.Y} {
				if !isInteger(lim.Type()) || lim == ssa.Value(p) {
					continue
				}
				get := x.invariantTerm(lim, body)
				if get == nil {
					continue
				}
				meas = append(meas, cand{name: lim.Name() + "-" + p.Name(), eval: func(s *State) *Term { return Sub(get(s), s.env[p].C[0]) }})
			}
		}
	}
	var tpls []*LoopTpl
	if x.spec != nil {
		tpls = append(tpls, x.spec.Decreases...)
	}
	if fr.fn != x.fn {
		if sp := x.w.specs.get(fnKey(fr.fn)); sp != nil {
			tpls = append(tpls, sp.Decreases...)
		}
	}
	dom := x.holeDomains(fr, header, body, h)
	for _, t := range tpls {
		x.instMeasure(t, dom, h, &meas)
	}
	for _, m := range meas {
		m0 := safeEval(m, h)
		if m0 == nil {
			continue
		}
		ok := true
		for _, b := range backs {
			m1 := safeEval(m, b)
			if m1 == nil {
				ok = false
				break
			}
			r := solve(&Query{Assume: b.path(), Goal: And(Lt(m1, m0), Le(IntC(-1), m0))}, 3000*timeScale)
			if r.Status != "unsat" {
				ok = false
				break
			}
		}
		if ok {
			x.obls = append(x.obls, &Obl{Fn: fnKey(x.fn), Kind: "termination", Name: "loop measure " + m.name + " decreases", Res: Result{Status: "unsat", By: "portfolio"}})
			return
		}
	}
	x.obls = append(x.obls, &Obl{Fn: fnKey(x.fn), Kind: "termination", Name: "loop has a decreasing measure (" + x.w.pos(header.Instrs[0].Pos()) + ")", Q: &Query{Goal: False}})
}

func (x *Exec) instMeasure(t *LoopTpl, dom map[string][]binding, entry *State, out *[]cand) {
	var rec func(i int, bs []binding)
	rec = func(i int, bs []binding) {
		if i == len(t.Holes) {
			bs := append([]binding(nil), bs...)
			*out = append(*out, cand{name: t.Text, eval: func(s *State) *Term {
				ev := x.newEval(s)
				ev.pre = entry
				for j, b := range bs {
					b := b
					ev.dyn[t.Holes[j].Name] = func(s2 *State) Val {
						v := x.eval(s2, b.v)
						if b.off != 0 {
							v.C = []*Term{Add(v.C[0], IntC(b.off))}
						}
						return v
					}
				}
				return ev.Eval(t.Expr).C[0]
			}})
			return
		}
		for _, b := range dom[t.Holes[i].Type] {
			rec(i+1, append(bs, b))
		}
	}
	rec(0, nil)
}
