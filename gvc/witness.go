package main

// Witnesses for existential goals about the digits of a number: the lengths of the decimal renderings in the query.

func skolem(g *Term, assume *[]*Term, sks *[]*Term) *Term {
	for {
		switch {
		case g.Op == "forall":
			m := map[*Term]*Term{}
			for _, v := range g.Vars {
				m[v] = Fresh("sk", v.Sort)
				*sks = append(*sks, m[v])
			}
			g = subst(g.Args[0], m)
			continue
		case g.Op == "or":
			var rest []*Term
			var in *Term
			for _, a := range g.Args {
				if in == nil && a.Op == "forall" {
					in = a
				} else {
					rest = append(rest, a)
				}
			}
			if in == nil {
				return g
			}
			for _, a := range rest {
				*assume = append(*assume, Not(a))
			}
			g = in
			continue
		}
		return g
	}
}

// witnessed skolemizes the goal and offers its existential disjuncts the lengths of the numbers' renderings.
func (q *Query) witnessed() *Query {
	var asm []*Term
	for _, a := range q.Assume {
		for _, f := range conjuncts(a) {
			asm = append(asm, named(f))
		}
	}
	var sks []*Term
	g := skolem(q.Goal, &asm, &sks)
	ds := []*Term{g}
	if g.Op == "or" {
		ds = g.Args
	}
	var ex []*Term
	for _, d := range ds {
		if d.Op == "exists" && len(d.Vars) == 1 && d.Vars[0].Sort == SInt {
			ex = append(ex, d)
		}
	}
	if len(ex) == 0 {
		return q
	}
	bv := collectBound(append(append([]*Term{}, q.Assume...), g))
	var cands []*Term
	seen := map[*Term]bool{}
	dead := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if bv[t] {
			dead[t] = true
		}
		for _, a := range t.Args {
			rec(a)
			if dead[a] {
				dead[t] = true
			}
		}
		if dead[t] {
			return
		}
		if t.Op == "uf" && t.Str == "dec" && len(cands) < 12 {
			cands = append(cands, Len(t))
		}
		for _, f := range C.facts[t] {
			rec(f)
		}
	}
	for _, a := range append(append([]*Term{}, asm...), g) {
		rec(a)
	}
	cands = append(cands, indexWitnesses(ex, append(append([]*Term{}, asm...), rests(ds)...), bv)...)
	if len(cands) == 0 {
		return q
	}
	var rest []*Term
	for _, d := range ds {
		if d.Op != "exists" {
			rest = append(rest, d)
		}
	}
	for _, a := range q.Assume {
		for _, f := range conjuncts(a) {
			if f.Op == "forall" && len(f.Vars) == 1 {
				for _, k := range sks {
					if k.Sort == f.Vars[0].Sort {
						asm = append(asm, subst(f.Args[0], map[*Term]*Term{f.Vars[0]: k}))
					}
				}
			}
		}
	}
	out := []*Term{Or(rest...)}
	for _, e := range ex {
		for _, c := range cands {
			out = append(out, subst(e.Args[0], map[*Term]*Term{e.Vars[0]: c}))
		}
	}
	return &Query{Assume: asm, Goal: Or(out...), NoCvc: q.NoCvc}
}

// named replaces an existential hypothesis, or an existential disjunct of one, by an instance at a fresh constant.
func named(f *Term) *Term {
	switch f.Op {
	case "exists":
		m := map[*Term]*Term{}
		for _, v := range f.Vars {
			m[v] = Fresh("sk", v.Sort)
		}
		return subst(f.Args[0], m)
	case "or":
		var as []*Term
		n := false
		for _, a := range f.Args {
			b := a
			if a.Op == "exists" {
				b = named(a)
				n = true
			}
			as = append(as, b)
		}
		if n {
			return Or(as...)
		}
	}
	return f
}

func rests(ds []*Term) (out []*Term) {
	for _, d := range ds {
		if d.Op != "exists" {
			out = append(out, d)
		}
	}
	return
}

// indexWitnesses: where an existential speaks of an element of a slice, the indices at which the
// query reads that slice elsewhere are candidates.
func indexWitnesses(ex, ground []*Term, bv map[*Term]bool) []*Term {
	type pat struct {
		arr  *Term
		rest []*Term
	}
	var pats []pat
	for _, e := range ex {
		v := e.Vars[0]
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.Args {
				rec(a)
			}
			if t.Op == "select" && t.Args[1].Sort == SInt && !mentions(t.Args[0], v) {
				i := t.Args[1]
				if i == v {
					pats = append(pats, pat{t.Args[0], nil})
				} else if i.Op == "+" {
					var rest []*Term
					n := 0
					for _, a := range i.Args {
						if a == v {
							n++
						} else {
							rest = append(rest, a)
						}
					}
					if n == 1 {
						pats = append(pats, pat{t.Args[0], rest})
					}
				}
			}
		}
		rec(e.Args[0])
	}
	var out []*Term
	have := map[*Term]bool{}
	seen := map[*Term]bool{}
	dead := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if bv[t] {
			dead[t] = true
		}
		for _, a := range t.Args {
			rec(a)
			if dead[a] {
				dead[t] = true
			}
		}
		if dead[t] || t.Op != "select" {
			return
		}
		for _, p := range pats {
			if p.arr == t.Args[0] && len(out) < 8 {
				w := t.Args[1]
				for _, r := range p.rest {
					w = Sub(w, r)
				}
				if !have[w] {
					have[w] = true
					out = append(out, w)
				}
			}
		}
	}
	for _, t := range ground {
		rec(t)
	}
	return out
}

func mentions(t, v *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}
