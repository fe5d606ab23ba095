package main

// Functions defined by recursion on a counter, and lock-guarded maps.

import (
	"go/types"
	"math/big"
	"strings"
)

func (x *Exec) recTerm(r *Rec, args []*Term) *Term {
	i := args[len(args)-1]
	if i.Op == "int" && i.Int.Sign() == 0 {
		return x.recPart(r, r.Base, args)
	}
	if instRecs == nil {
		instRecs = map[string]func(t *Term) *Term{}
	}
	nm := "rec." + r.Name
	if instRecs[nm] == nil {
		instRecs[nm] = func(t *Term) *Term { return x.recInst(r, t) }
	}
	return UF(nm, r.Res, args...)
}

var instRecs map[string]func(t *Term) *Term

func (x *Exec) recPart(r *Rec, n *Node, args []*Term) *Term {
	e := &Eval{x: x, st: x.dummy(), vars: map[string]Val{}, dyn: map[string]func(*State) Val{}}
	for k, a := range args {
		e.vars[r.Args[k]] = Val{T: sortType(r.Sorts[k]), C: []*Term{a}}
	}
	return e.Eval(n).C[0]
}

// recInst: at an index of the form j+1 the value is one step from the value at j; at 0 it is the base.
func (x *Exec) recInst(r *Rec, t *Term) *Term {
	i := t.Args[len(t.Args)-1]
	l := lin{m: map[*Term]*big.Int{}, c: new(big.Int)}
	addLin(&l, i, big.NewInt(1))
	if len(l.m) > 0 && l.c.Sign() > 0 || i.Op == "int" && i.Int.Sign() > 0 {
		j := Sub(i, IntC(1))
		args := append(append([]*Term{}, t.Args[:len(t.Args)-1]...), j)
		return raw("=>", SBool, Le2(IntC(0), j), raw("=", SBool, t, x.recPart(r, r.Next, args)))
	}
	next := append(append([]*Term{}, t.Args[:len(t.Args)-1]...), Add(i, IntC(1)))
	nt := UF(t.Str, r.Res, next...)
	return raw("and", SBool, raw("=>", SBool, raw("=", SBool, i, IntC(0)), raw("=", SBool, t, x.recPart(r, r.Base, t.Args))),
		raw("=>", SBool, Le2(IntC(0), i), raw("=", SBool, nt, x.recPart(r, r.Next, t.Args))))
}

// guardMap: a map held in a guarded variable is touched only while its lock is held.
func (x *Exec) guardMap(st *State, m Val, write bool) {
	if x.initMode || (x.prop != "C21" && x.prop != "") {
		return
	}
	for _, g := range x.w.specs.Guarded {
		v, fld := x.guardVar(g)
		if v == nil || !types.Identical(v.Type(), m.T) {
			continue
		}
		var held, is *Term
		if !fld {
			is = Eq(m.C[0], st.hget("G:"+g.Comp, SInt))
			held = st.hget("X:lock.G:"+g.Lock, SInt)
		} else {
			h := st.hget("F:"+g.Comp, arr(SInt, SInt))
			owner := Fresh("owner", SInt)
			st.fact(Le2(IntC(1), owner))
			st.fact(Le2(Add(owner, IntC(1)), st.allocTop()))
			is = Eq(m.C[0], Select(h, owner))
			if m.C[0].Op == "select" && m.C[0].Args[0] == h {
				owner = m.C[0].Args[1]
				is = True
			}
			held = Select(st.hget("X:lock.F:"+g.Lock, arr(SInt, SInt)), owner)
		}
		want, what := Le(IntC(1), held), "read"
		if write {
			want, what = Eq(held, IntC(2)), "write"
		}
		x.oblige(st, "lock", what+" of "+g.Comp+" happens while "+g.Lock+" is held", Imp(is, want))
	}
}

// guardVar resolves the variable of a guard: a package-level variable, or (second result true) a struct field.
func (x *Exec) guardVar(g Guard) (types.Object, bool) {
	parts := strings.Split(g.Comp, ".")
	pk := x.w.pkgByName[parts[0]]
	if pk == nil {
		return nil, false
	}
	o := pk.Pkg.Scope().Lookup(parts[1])
	if len(parts) == 2 {
		return o, false
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == parts[2] {
			return s.Field(i), true
		}
	}
	return nil, false
}

// lockTaken: other goroutines may have changed what the lock guards since it was last held.
func (x *Exec) lockTaken(st *State, lock string) {
	for _, g := range x.w.specs.Guarded {
		if "G:"+g.Lock != lock && "F:"+g.Lock != lock {
			continue
		}
		v, _ := x.guardVar(g)
		if v == nil {
			continue
		}
		m, d, vs := mapComps(v.Type())
		st.hset(d, Fresh("others", arr(SInt, arr(keySort(m), SBool))))
		st.logWrite(d, nil)
		for _, c := range flatten(m.Elem()) {
			st.hset(vs+c.suffix, Fresh("others", arr(SInt, arr(keySort(m), c.sort))))
			st.logWrite(vs+c.suffix, nil)
		}
	}
}
