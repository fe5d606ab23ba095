package main

// Verification of one function against its contract, and of a property over all contracts it depends on.

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnResult struct {
	Key      string
	Obls     []*Obl
	Trivial  int // obligations discharged by the simplifier
	Called   []string
	Inlined  []string
	Models   []string
	Err      string
	Vacuous  bool
	SymTime  float64
	SolvTime float64
	Loops    int
	Exits    int
}

type Opts struct {
	ms     int
	safety bool
	term   bool
}

var termProps = map[string]bool{"C06": true, "C20": true, "C14": true}

func (w *World) newExec(prop string, fn *ssa.Function, sp *FuncSpec) *Exec {
	return &Exec{w: w, prop: prop, fn: fn, spec: sp, args: map[string]Val{}, record: true, frames: true,
		safety: prop == "C06", term: termProps[prop], survivors: map[string]map[string]bool{}, called: map[string]bool{}, inlined: map[string]bool{},
		modelsUsed: map[string]bool{}, frameAny: map[string]bool{}, noInline: map[string]bool{}}
}

func (w *World) verifyFn(prop, key string, ms int) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Key: key}
	sp := w.specs.get(key)
	fn := w.fns[key]
	free := false // no contract: only checked for what every function owes (locks)
	if fn == nil {
		res.Err = "function " + key + " named by a contract does not exist in the current source"
		return
	}
	if sp == nil {
		sp = &FuncSpec{Key: key, Fresh: map[string]bool{}}
		for _, p := range fn.Params {
			sp.Params = append(sp.Params, Param{Name: p.Name()})
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			sp.Results = append(sp.Results, Param{Name: fmt.Sprintf("result%d", i)})
		}
		free = true
	}
	if !sp.matches(fn) {
		res.Err = "contract of " + key + " does not fit the current signature " + fn.Signature.String()
		return
	}
	if sp.Pure {
		if why := w.impure(fn, map[*ssa.Function]bool{}); why != "" {
			res.Err = "the contract says the result depends only on the arguments and the metadata, but: " + why
			return
		}
	}
	x := w.newExec(prop, fn, sp)
	x.opaque = map[string]bool{}
	for _, c := range sp.Paths {
		if x.tagOK(c.Tags) {
			x.maxStates, _ = strconv.Atoi(c.Text)
		}
	}
	for _, c := range sp.Opaque {
		if x.tagOK(c.Tags) {
			x.opaque[c.Text] = true
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				pos := ""
				if x.curIns != nil {
					pos = " at " + w.pos(x.curIns.Pos())
				}
				res.Err = u.msg + pos
			} else if s, ok := r.(string); ok && strings.HasPrefix(s, "contract") {
				res.Err = s
			} else if debugOn {
				panic(r)
			} else {
				res.Err = fmt.Sprintf("verifier failure: %v", r)
			}
			res.Called = sortedKeys(x.called)
			res.Inlined = sortedKeys(x.inlined)
			res.Models = sortedKeys(x.modelsUsed)
			res.Obls = x.obls
		}
	}()
	st := x.dummy()
	st.x = x
	st.base, st.k = A0, 0
	if free {
		x.frames = false
		for _, g := range w.specs.Guarded {
			if _, fld := x.guardVar(g); fld {
				st.hset("X:lock.F:"+g.Lock, ConstArr(arr(SInt, SInt), IntC(0)))
			} else {
				st.hset("X:lock.G:"+g.Lock, IntC(0))
			}
		}
	}
	st.fact(Le2(IntC(int64(w.staticN+1)), A0))
	for i, p := range fn.Params {
		v := freshVal("in."+p.Name(), p.Type(), true)
		for j, c := range flatten(p.Type()) {
			if c.isRef {
				addFact(v.C[j], Le2(Add(v.C[j], IntC(1)), A0))
			}
		}
		if _, ok := under(p.Type()).(*types.Signature); ok {
			withRange(v.C[0], big.NewInt(0), nil)
		}
		st.env[p] = v
		x.args[sp.Params[i].Name] = v
	}
	for _, f := range fn.FreeVars {
		t := f.Type()
		v := freshVal("free."+f.Name(), t, true)
		addFact(v.C[0], Le2(Add(v.C[0], IntC(1)), A0))
		st.fact(Le(IntC(1), v.C[0]))
		st.env[f] = v
		x.args[f.Name()] = v
	}
	x.entry = st
	ev := x.newEval(st)
	for _, l := range sp.Lets {
		x.args[l.Text] = ev.Eval(l.Expr)
		ev = x.newEval(st)
	}
	for _, r := range append(append([]Clause{}, sp.Assumes...), sp.Requires...) {
		if x.tagOK(r.Tags) {
			st.fact(ev.Bool(r.Expr))
		}
	}
	if e := w.specs.choiceError(sp); e != "" {
		res.Err = "contract of " + key + ": " + e
		return
	}
	for _, c := range sp.Choose {
		if x.tagOK(c.Tags) {
			st.fact(Eq(UF("g."+c.Text, w.specs.Ghosts[c.Text].Res), ev.Eval(c.Expr).C[0]))
		}
	}
	x.entry = st.clone()
	for _, b := range w.specs.Benign {
		x.frameAny[b] = true
	}
	for _, m := range sp.Modifies {
		x.frameAllow = append(x.frameAllow, x.modItems(x.newEval(x.entry), m.Expr)...)
	}
	exits := x.runFn(fn, st)
	res.Exits = len(exits)
	if free && prop == "C21" {
		for _, e := range exits {
			for _, g := range w.specs.Guarded {
				h := e.st.hget("X:lock.G:"+g.Lock, SInt)
				if _, fld := x.guardVar(g); fld {
					if fn.Signature.Recv() == nil {
						continue
					}
					h = Select(e.st.hget("X:lock.F:"+g.Lock, arr(SInt, SInt)), st.env[fn.Params[0]].C[0])
				}
				x.oblige(e.st, "lock", g.Lock+" is released on return", Eq(h, IntC(0)))
			}
		}
	}
	var reach []*Query
	for _, e := range exits {
		if e.st.dead {
			continue
		}
		x.curIns = nil
		ev := x.newEval(e.st)
		for i, r := range e.res {
			n := fmt.Sprintf("r%d", i)
			if i < len(sp.Results) {
				n = sp.Results[i].Name
			}
			ev.vars[n] = r
			if sp.Fresh[n] {
				x.oblige(e.st, "post", "result "+n+" is freshly allocated", Le2(A0, r.C[0]))
			}
		}
		for _, c := range sp.Ensures {
			if !x.tagOK(c.Tags) {
				continue
			}
			s2 := e.st.clone()
			ev2 := ev.at(s2)
			g := ev2.Bool(c.Expr)
			for _, part := range conjuncts(g) {
				s3 := s2.clone()
				x.oblige(s3, "post", c.Text, part)
			}
		}
		reach = append(reach, &Query{Assume: e.st.path(), Goal: False})
	}
	res.SymTime = time.Since(t0).Seconds()
	res.Called = sortedKeys(x.called)
	res.Inlined = sortedKeys(x.inlined)
	res.Models = sortedKeys(x.modelsUsed)
	res.Obls = x.obls
	res.Loops = x.loopsSeen
	res.Trivial = x.trivial
	t1 := time.Now()
	var qs []*Query
	var idx []int
	for i, o := range x.obls {
		if o.Q != nil && o.Res.Status == "" {
			qs = append(qs, o.Q)
			idx = append(idx, i)
		}
	}
	var splits []*Term
	for _, c := range sp.Splits {
		if x.tagOK(c.Tags) {
			splits = append(splits, x.newEval(x.entry.clone()).Bool(c.Expr))
		}
	}
	for i, r := range solveTwice(qs, ms, splits) {
		x.obls[idx[i]].Res = r
	}
	// vacuity: some exit must be reachable
	if len(reach) > 0 {
		ok := false
		if len(reach) > 3 {
			reach = reach[:3]
		}
		for _, r := range solveAll(reach, 1500) {
			if r.Status != "unsat" {
				ok = true
			}
		}
		res.Vacuous = !ok
	} else if len(exits) == 0 {
		res.Vacuous = true
	}
	res.SolvTime = time.Since(t1).Seconds()
	return
}

type PropResult struct {
	Prop    string
	Fns     []*FnResult
	Trusted map[string]string
	Assumes []string
	Lemmas  []*Obl
	Wall    float64
}

// timeScale multiplies the time limits of invariant inference (raised when a function is retried).
var timeScale = 1

func (r *FnResult) failed() bool {
	if r.Vacuous {
		return true
	}
	for _, o := range r.Obls {
		if o.Res.Status != "unsat" {
			return true
		}
	}
	return false
}

// retryFailed verifies failed functions again with longer solver limits (a loaded or slow machine
// must not turn into a failed proof), as long as the budget lasts.
func (w *World) retryFailed(pr *PropResult, ms int, budget time.Duration) {
	t0 := time.Now()
	defer func() { timeScale = 1 }()
	for _, f := range []int{3, 6} {
		for i, r := range pr.Fns {
			if r.Err != "" || !r.failed() || time.Since(t0) > budget {
				continue
			}
			timeScale = f
			n := w.verifyFn(pr.Prop, r.Key, ms*f)
			n.SymTime += r.SymTime
			n.SolvTime += r.SolvTime
			pr.Fns[i] = n
		}
	}
}

func (w *World) tops(prop string) []string {
	var out []string
	for k, sp := range w.specs.Funcs {
		for _, t := range sp.Tops {
			if t == prop {
				out = append(out, k)
			}
		}
	}
	sort.Strings(out)
	return out
}

func (w *World) verifyProp(prop string, ms int, progress func(*FnResult)) *PropResult {
	t0 := time.Now()
	pr := &PropResult{Prop: prop, Trusted: map[string]string{}}
	work := w.tops(prop)
	done := map[string]bool{}
	covered := map[string]bool{}
	for len(work) > 0 || prop == "C21" {
		if len(work) == 0 {
			if work = w.guardUsers(done, covered); len(work) == 0 {
				break
			}
		}
		k := work[0]
		work = work[1:]
		if done[k] {
			continue
		}
		done[k] = true
		if sp := w.specs.get(k); sp != nil && sp.Trusted != "" {
			pr.Trusted[k] = sp.Trusted
			continue
		}
		if sp := w.specs.get(k); sp != nil {
			for _, a := range sp.Assumes {
				if len(a.Tags) == 0 || slices.Contains(a.Tags, prop) {
					pr.Assumes = append(pr.Assumes, "assumed on entry of "+k+": "+a.Text)
				}
			}
		}
		if by := w.settledBy(prop, k); by != "" {
			pr.Assumes = append(pr.Assumes, "the contract of "+k+" is discharged by the check of "+by+", not repeated here")
			continue
		}
		r := w.verifyFn(prop, k, ms)
		pr.Fns = append(pr.Fns, r)
		for _, in := range r.Inlined {
			covered[in] = true
		}
		work = append(work, r.Called...)
		if progress != nil {
			progress(r)
		}
	}
	for _, l := range w.specs.Lemmas {
		use := false
		for _, t := range l.Tags {
			use = use || t == prop
		}
		if use {
			pr.Lemmas = append(pr.Lemmas, w.lemmaObl(prop, l))
		}
	}
	var qs []*Query
	for _, o := range pr.Lemmas {
		qs = append(qs, o.Q)
	}
	for i, r := range solveAll(qs, ms) {
		pr.Lemmas[i].Res = r
	}
	pr.Wall = time.Since(t0).Seconds()
	return pr
}

func (w *World) lemmaObl(prop string, l *Lemma) *Obl {
	x := w.newExec(prop, nil, nil)
	st := x.dummy()
	x.entry = st
	ev := x.newEval(st)
	ev.old = st
	for _, v := range l.Vars {
		s := specSort(v.Type)
		ev.vars[v.Name] = Val{T: sortType(s), C: []*Term{Fresh("l."+v.Name, s)}}
	}
	g := ev.Bool(l.Expr)
	return &Obl{Fn: "lemma " + l.Name, Kind: "lemma", Name: l.Text, Q: &Query{Assume: st.path(), Goal: g}}
}

// guardUsers: functions that mention a lock-guarded variable and are not part of any proof yet.
func (w *World) guardUsers(done, covered map[string]bool) []string {
	x := w.newExec("C21", nil, nil)
	vars := map[types.Object]bool{}
	for _, g := range w.specs.Guarded {
		if v, _ := x.guardVar(g); v != nil {
			vars[v] = true
		}
	}
	var out []string
	for k, fn := range w.fns {
		if done[k] || covered[k] || fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || fn.Parent() != nil {
			continue
		}
		uses := false
		blocks := fn.Blocks
		for _, a := range fn.AnonFuncs {
			blocks = append(blocks[:len(blocks):len(blocks)], a.Blocks...)
		}
		for _, b := range blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.FieldAddr:
					s := ins.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
					uses = uses || vars[s.Field(ins.Field)]
				case *ssa.Field:
					uses = uses || vars[ins.X.Type().Underlying().(*types.Struct).Field(ins.Field)]
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						uses = uses || vars[g.Object()]
					}
				}
			}
		}
		if uses {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// settledBy: the property whose check proves every clause of this contract that prop uses.
func (w *World) settledBy(prop, key string) string {
	sp := w.specs.get(key)
	if sp == nil {
		return ""
	}
	for _, c := range sp.Settled {
		if !slices.Contains(c.Tags, prop) || !slices.Contains(sp.Tops, c.Text) {
			continue
		}
		ok := true
		for _, e := range append(append([]Clause{}, sp.Ensures...), sp.Requires...) {
			if slices.Contains(e.Tags, prop) && !slices.Contains(e.Tags, c.Text) {
				ok = false
			}
		}
		if ok {
			return c.Text
		}
	}
	return ""
}
