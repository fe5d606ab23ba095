package main

// Instantiation of theory axioms (character classes, zero runs, rune folds) over the terms of a query.

import "strings"

var instFolds map[string]func(r *Term, ex []*Term) *Term

func classSub(a, b string) bool {
	for i := 0; i < 256; i++ {
		if classHas(a, byte(i)) && !classHas(b, byte(i)) {
			return false
		}
	}
	return true
}

var zeroRest = map[*Term]bool{}

func raw(op string, s Sort, a ...*Term) *Term { return mk(op, s, "", a...) }
func rawAll(c string, t *Term) *Term          { return mk("uf-all", SBool, c, t) }

func instances(order []*Term, done int, hasB map[*Term]bool) []*Term {
	classes := map[string]bool{}
	var strs, zs, runes, folds, recs, wide []*Term
	for _, t := range order {
		if hasB[t] {
			continue
		}
		if t.Op == "uf-all" {
			classes[t.Str] = true
			if t.Args[0].Op == "str.substr" && len(wide) < 6 {
				wide = append(wide, t)
			}
		}
		if t.Op == "uf" && t.Str == "zeros" {
			zs = append(zs, t)
		}
		if t.Op == "uf" && t.Str == "rune" {
			runes = append(runes, t)
		}
		if t.Op == "uf" && strings.HasPrefix(t.Str, "fold.") {
			folds = append(folds, t)
		}
		if t.Op == "uf" && strings.HasPrefix(t.Str, "rec.") && instRecs[t.Str] != nil {
			recs = append(recs, t)
		}
		if t.Sort == SStr {
			strs = append(strs, t)
		}
	}
	var out []*Term
	add := func(t *Term) { out = append(out, t) }
	cl := sortedKeys(classes)
	for _, c := range cl {
		for _, t := range strs {
			switch t.Op {
			case "str":
				add(mk("=", SBool, "", rawAll(c, t), allIn(c, t)))
			case "str.++":
				var ps []*Term
				for _, p := range t.Args {
					if p.Op == "str" {
						ps = append(ps, allIn(c, p))
					} else {
						ps = append(ps, rawAll(c, p))
					}
				}
				add(raw("=", SBool, rawAll(c, t), And(ps...)))
			case "str.substr":
				add(raw("=>", SBool, rawAll(c, t.Args[0]), rawAll(c, t)))
				for _, w := range wide {
					if w.Str == c && w.Args[0] != t && w.Args[0].Args[0] == t.Args[0] {
						a, n, b, m := w.Args[0].Args[1], w.Args[0].Args[2], t.Args[1], t.Args[2]
						if linDiff(a, b) != nil { // a part of a part
							add(raw("=>", SBool, And(w, Le2(IntC(0), a), Le2(a, b), Le2(Add(b, m), Add(a, n))), rawAll(c, t)))
						}
					}
				}
			case "str.at":
				add(raw("=>", SBool, rawAll(c, t.Args[0]), rawAll(c, t)))
				add(raw("=>", SBool, raw("=", SBool, raw("str.len", SInt, t), IntC(1)), raw("=", SBool, rawAll(c, t), codeIn(c, Code(t)))))
			case "str.from_code":
				n := t.Args[0]
				add(raw("=>", SBool, And(Le2(IntC(0), n), Le2(n, IntC(255))), raw("=", SBool, rawAll(c, t), codeIn(c, n))))
			case "ite":
				add(raw("=", SBool, rawAll(c, t), raw("ite", SBool, t.Args[0], rawAll(c, t.Args[1]), rawAll(c, t.Args[2]))))
			case "uf":
				if t.Str == "dec" && classHas(c, '0') && classHas(c, '5') && classSub("0-9", c) {
					add(raw("=>", SBool, rawAll("0-9", t), rawAll(c, t)))
				}
			}
			for _, d := range cl {
				if d != c && classSub(d, c) {
					add(raw("=>", SBool, rawAll(d, t), rawAll(c, t)))
				}
			}
		}
	}
	for _, a := range zs {
		for _, b := range zs {
			if a == b {
				continue
			}
			d := linDiff(b.Args[0], a.Args[0])
			if d != nil && d.IsInt64() && d.Int64() >= 1 && d.Int64() <= 4 {
				z := StrC(strings.Repeat("0", int(d.Int64())))
				add(raw("=>", SBool, Le2(IntC(0), a.Args[0]), raw("=", SBool, b, raw("str.++", SStr, a, z))))
				add(raw("=>", SBool, Le2(IntC(0), a.Args[0]), raw("=", SBool, b, raw("str.++", SStr, z, a))))
			}
		}
	}
	// of two runs of zeros the longer one begins with the shorter
	var base []*Term
	for _, z := range zs {
		if !zeroRest[z] {
			base = append(base, z)
		}
	}
	if len(base) <= 3 {
		for _, a := range base {
			for _, b := range base {
				if a == b || linDiff(b.Args[0], a.Args[0]) != nil {
					continue
				}
				r := zerosTerm(Sub(b.Args[0], a.Args[0]))
				zeroRest[r] = true
				add(raw("=>", SBool, And(Le2(IntC(0), a.Args[0]), Le2(a.Args[0], b.Args[0])), raw("=", SBool, b, raw("str.++", SStr, a, r))))
			}
		}
	}
	for _, t := range recs {
		add(instRecs[t.Str](t))
	}
	for _, f := range folds {
		step := instFolds[f.Str]
		if step == nil {
			continue
		}
		for _, r := range runes {
			if r.Args[0] != f.Args[0] {
				continue
			}
			s, p := r.Args[0], r.Args[1]
			ex := f.Args[2:]
			at := UF(f.Str, SStr, append([]*Term{s, p}, ex...)...)
			nx := UF(f.Str, SStr, append([]*Term{s, Add(p, widthTerm(s, p))}, ex...)...)
			ok := And(Le2(IntC(0), p), Not(Le2(Len(s), p)))
			add(raw("=>", SBool, ok, mk("=", SBool, "", nx, Concat(at, step(r, ex)))))
		}
		add(raw("=>", SBool, raw("=", SBool, f.Args[1], IntC(0)), raw("=", SBool, f, StrC(""))))
	}
	return out
}
