package main

// Second attempt at an undecided query: literals known from the path are propagated into the other
// assertions (mainly the conditions of ite terms, and named results in place of the terms that define them),
// which gives the solvers' quantifier patterns something to match. Every rewritten assertion follows from the
// original ones, so a refutation of the rewritten query is a refutation of the original.
func (q *Query) simplified() *Query {
	var roots []*Term
	seen := map[*Term]bool{}
	seenRoot := map[*Term]bool{}
	bv := collectBound(append(append([]*Term{}, q.Assume...), q.Goal))
	var addRoot func(t *Term)
	hasB := map[*Term]bool{}
	var visit func(t *Term)
	var pending []*Term
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			visit(a)
			if hasB[a] {
				hasB[t] = true
			}
		}
		if bv[t] {
			hasB[t] = true
		}
		if !hasB[t] {
			pending = append(pending, C.facts[t]...)
		}
	}
	addRoot = func(t *Term) {
		if t == True || seenRoot[t] {
			return
		}
		if t.Op == "and" {
			for _, a := range t.Args {
				addRoot(a)
			}
			return
		}
		seenRoot[t] = true
		for v := range collectBound([]*Term{t}) {
			if !bv[v] {
				bv[v] = true
				hasB[v] = true
			}
		}
		roots = append(roots, t)
		visit(t)
	}
	for _, a := range q.Assume {
		addRoot(a)
	}
	addRoot(Not(q.Goal))
	for len(pending) > 0 {
		p := pending
		pending = nil
		for _, t := range p {
			addRoot(t)
		}
	}
	changed := false
	for round := 0; round < 5; round++ {
		m := map[*Term]*Term{}
		def := map[*Term]bool{}
		for _, r := range roots {
			a := r
			v := True
			if r.Op == "not" {
				a, v = r.Args[0], False
			}
			switch a.Op {
			case "int", "str", "and":
				continue
			}
			m[a] = v
			if r.Op == "=" {
				x, y := r.Args[0], r.Args[1]
				if x.isConst() {
					x, y = y, x
				}
				if y.isConst() && !x.isConst() {
					if _, dup := m[x]; !dup {
						m[x] = y
						def[r] = true
					}
					continue
				}
				if y.Op == "var" {
					x, y = y, x
				}
				if x.Op == "var" && y.Op == "ite" {
					if _, dup := m[y]; !dup {
						m[y] = x
						def[r] = true
					}
				}
			}
		}
		sub := substMemo(m)
		var out []*Term
		ch := false
		again := map[*Term]bool{}
		push := func(t *Term) {
			var rec func(t *Term)
			rec = func(t *Term) {
				if t == True || again[t] {
					return
				}
				if t.Op == "and" {
					for _, a := range t.Args {
						rec(a)
					}
					return
				}
				again[t] = true
				out = append(out, t)
			}
			rec(t)
		}
		args := func(t *Term) *Term {
			as := make([]*Term, len(t.Args))
			d := false
			for i, a := range t.Args {
				as[i] = sub(a)
				d = d || as[i] != a
			}
			if !d {
				return t
			}
			if t.Op == "forall" || t.Op == "exists" {
				if as[0].isConst() {
					return as[0]
				}
			}
			return rebuild(t, as)
		}
		for _, r := range roots {
			n := r
			switch {
			case def[r]:
			case r.Op == "not":
				n = Not(args(r.Args[0]))
			default:
				n = args(r)
			}
			if n != r {
				ch = true
			}
			push(n)
		}
		roots = out
		if !ch {
			break
		}
		changed = true
	}
	if !changed {
		return nil
	}
	return &Query{Assume: roots, Goal: False, NoCvc: q.NoCvc}
}

func substMemo(m map[*Term]*Term) func(*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			if (x.Op == "forall" || x.Op == "exists") && args[0].isConst() {
				r = args[0]
			} else {
				r = rebuild(x, args)
			}
		}
		memo[x] = r
		return r
	}
	return rec
}
