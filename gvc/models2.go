package main

import (
	"go/types"
	"unicode"
)

func constUnicode(name string, r rune) *Term {
	switch name {
	case "isdigit":
		return BoolC(unicode.IsDigit(r))
	case "isletter":
		return BoolC(unicode.IsLetter(r))
	case "isspace":
		return BoolC(unicode.IsSpace(r))
	}
	return nil
}

func upperRune(r rune) rune { return unicode.ToUpper(r) }

func extraModels() {
	// Message bookkeeping of generated code: it touches nothing but the opaque
	// state field of the message, which nothing else here reads.
	models["google.golang.org/protobuf/internal/impl.Export.MessageStateOf"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		return one(st, vt(rt, st.alloc()))
	}
	models["google.golang.org/protobuf/internal/impl.messageState.StoreMessageInfo"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		return one(st, Val{T: rt})
	}
	models["regexp.Regexp.ExpandString"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		// (re, dst, template, src, match)
		// the expansion for the leftmost match of re in src has a name of its own (re.expand)
		e := Fresh("expand", SStr)
		row := Select(st.hget("E:int", arr(SInt, arr(SInt, SInt))), a[4].C[0])
		if row == UF("re.subrow", arr(SInt, SInt), x.patOf(a[0].C[0]), a[3].C[0]) && a[4].C[1] == IntC(0) {
			e = UF("re.expand", SStr, x.patOf(a[0].C[0]), a[2].C[0], a[3].C[0])
		}
		return one(st, st.newBytes(Concat(st.bytesOf(a[1]), e), rt))
	}
	models["regexp.Regexp.ReplaceAllStringFunc"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		p, s := x.patOf(a[0].C[0]), a[1].C[0]
		f := a[2].Fn
		if f == nil || f.fn == nil {
			unsup("ReplaceAllStringFunc with an unknown function")
		}
		if r, ok := x.replFirst(st, f, p, s, rt); ok {
			return r
		}
		ts := []*Term{p, s}
		for _, b := range f.binds {
			v := b
			if _, ok := under(b.T).(*types.Pointer); ok {
				v = st.load(locOf(b))
			}
			ts = append(ts, v.C...)
		}
		res := UF("re.replfunc:"+fnKey(f.fn), SStr, ts...)
		// the callback runs an unknown number of times: havoc what it writes, then check one arbitrary run
		sc := st.clone()
		sc.writes = map[wr]bool{}
		savedRec, savedScan := x.record, x.scan
		x.record, x.scan = false, true
		var ws []wr
		for _, r := range x.callFn(sc, f.fn, f.binds, []Val{freshVal("m", tStr, false)}, tStr) {
			for w := range r.st.writes {
				ws = append(ws, w)
			}
		}
		x.record, x.scan = savedRec, savedScan
		for _, w := range ws {
			h := st.hget(w.comp, compSorts[w.comp])
			if w.ref == nil {
				st.hset(w.comp, Fresh("cb", h.Sort))
			} else {
				_, vs := arrParts(h.Sort)
				st.hset(w.comp, Store(h, w.ref, Fresh("cb", vs)))
			}
			st.logWrite(w.comp, w.ref)
		}
		if x.safety {
			x.callFn(st.clone(), f.fn, f.binds, []Val{freshVal("m", tStr, false)}, tStr)
		}
		return one(st, vt(rt, res))
	}
	models["regexp.Regexp.FindAllStringSubmatchIndex"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		// a fresh slice of index slices; every element is a match with group bounds inside the text
		p, s := x.patOf(a[0].C[0]), a[1].C[0]
		ng := reGroups(p)
		r := st.alloc()
		n := withRange(Fresh("nmatch", SInt), bigZero, nil)
		inner := under(rt).(*types.Slice).Elem()
		base := "E:" + typeKey(inner)
		width := Add(MulC(2, ng), IntC(2))
		ref := Fresh("mrefs", arr(SInt, SInt))
		st.newEra("A")
		iv := arr(SInt, arr(SInt, SInt))
		st.hset(base+".ref", Store(st.hget(base+".ref", iv), r, ref))
		st.hset(base+".off", Store(st.hget(base+".off", iv), r, ConstArr(arr(SInt, SInt), IntC(0))))
		st.hset(base+".len", Store(st.hget(base+".len", iv), r, ConstArr(arr(SInt, SInt), width)))
		st.hset(base+".cap", Store(st.hget(base+".cap", iv), r, ConstArr(arr(SInt, SInt), width)))
		rows := Fresh("E:int.m", arr(SInt, arr(SInt, SInt)))
		old := st.hget("E:int", iv)
		q, k := Fresh("q.i", SInt), Fresh("q.k", SInt)
		st.fact(Forall([]*Term{q}, Or(Le2(Add(r, IntC(1)), q), raw("=", SBool, raw("select", arr(SInt, SInt), rows, q), raw("select", arr(SInt, SInt), old, q)))))
		st.hset("E:int", rows)
		e := raw("select", arr(SInt, SInt), rows, raw("select", SInt, ref, q))
		lo := raw("select", SInt, e, MulC(2, k))
		hi := raw("select", SInt, e, Add(MulC(2, k), IntC(1)))
		rg := And(Le2(IntC(0), q), Not(Le2(n, q)))
		st.fact(Forall([]*Term{q}, Or(Not(rg), And(Le2(Add(r, IntC(1)), raw("select", SInt, ref, q)), Le2(Add(raw("select", SInt, ref, q), IntC(1)), st.allocTop())))))
		st.fact(Forall([]*Term{q, k}, Or(Not(rg), Not(And(Le2(IntC(0), k), Le2(k, ng))),
			And(raw("=>", SBool, raw("=", SBool, k, IntC(0)), Le2(IntC(0), lo)), Or(And(raw("=", SBool, lo, IntC(-1)), raw("=", SBool, hi, IntC(-1))), And(Le2(IntC(0), lo), Le2(lo, hi), Le2(hi, Len(s))))))))
		return one(st, Val{T: rt, C: []*Term{r, IntC(0), n, n}})
	}
}

// replFirst recognises a callback that changes only the first match it is given: one run on the first match,
// then a second run, on an arbitrary later match, that returns its argument and writes nothing.
func (x *Exec) replFirst(st *State, f *FuncVal, p, s *Term, rt types.Type) (out []stVal, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, u := r.(unsupported); !u {
				panic(r)
			}
			out, ok = nil, false
		}
	}()
	m, _, _ := x.reFacts(st, p, s)
	st1 := st.clone()
	st1.assume(m)
	if st1.dead {
		return one(st, vt(rt, s)), true
	}
	_, a, b := x.reFacts(st1, p, s)
	run := func(c *State, arg *Term) (*State, *Term) {
		no := len(x.obls)
		rs := x.callFn(c, f.fn, f.binds, []Val{{T: tStr, C: []*Term{arg}}}, tStr)
		var live []stVal
		for _, r := range rs {
			if !r.st.dead {
				live = append(live, r)
			}
		}
		if len(live) != 1 {
			x.obls = x.obls[:no]
			return nil, nil
		}
		return live[0].st, live[0].v.C[0]
	}
	s1, r1 := run(st1, Substr(s, a, Sub(b, a)))
	if s1 == nil {
		return nil, false
	}
	m2 := Fresh("m", SStr)
	s2, r2 := run(s1.clone(), m2)
	if s2 == nil || r2 != m2 || len(s2.heap) != len(s1.heap) {
		return nil, false
	}
	for k, h := range s2.heap {
		if s1.heap[k] != h {
			return nil, false
		}
	}
	st0 := st.clone()
	st0.assume(Not(m))
	if !st0.dead {
		out = append(out, one(st0, vt(rt, s))...)
	}
	res := Concat(s1.substr(s, IntC(0), a), r1, s1.substr(s, b, Sub(Len(s), b)))
	return append(out, one(s1, vt(rt, res))...), true
}
