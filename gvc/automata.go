package main

// Exact decision of questions about constant regular expressions. Go's boolean
// match depends only on the sequence of decoded runes, so each pattern is
// turned (lazily) into a deterministic automaton over classes of runes and
// two patterns are compared by a search of the product automaton. Nothing is
// approximated: a search that exceeds its bound counts as "not equivalent" and
// "not included".

import (
	"regexp/syntax"
	"slices"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

type reProg struct {
	p    *syntax.Prog
	cuts []rune // starts of rune classes
}

var (
	reMu    sync.Mutex
	reProgs = map[string]*reProg{}
	reMemo  = map[string]bool{}
	rePref  = map[string][]string{}
	reReps  []string
	reRep   = map[string]string{}
)

func reCompile(pat string) *reProg {
	if r, ok := reProgs[pat]; ok {
		return r
	}
	reProgs[pat] = nil
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	r := &reProg{p: p}
	add := func(lo, hi rune) { r.cuts = append(r.cuts, lo, hi+1) }
	add(0, unicode.MaxRune)
	add('\n', '\n')
	add('0', '9')
	add('A', 'Z')
	add('a', 'z')
	add('_', '_')
	add(0xD800, 0xDFFF)
	for i := range p.Inst {
		in := &p.Inst[i]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				c := in.Rune[0]
				add(c, c)
				if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
					for f := unicode.SimpleFold(c); f != c; f = unicode.SimpleFold(f) {
						add(f, f)
					}
				}
			} else {
				for j := 0; j+1 < len(in.Rune); j += 2 {
					add(in.Rune[j], in.Rune[j+1])
				}
			}
		}
	}
	slices.Sort(r.cuts)
	r.cuts = slices.Compact(r.cuts)
	reProgs[pat] = r
	return r
}

// A deterministic state: the instructions waiting for the next rune (before
// following empty transitions), the kind of the rune just read, and whether a
// match was already found (which is final).
type reState struct {
	pcs  []uint32
	prev int8 // 0 start of text, 1 word, 2 newline, 3 other
	done bool
}

func (s reState) key() string {
	if s.done {
		return "!"
	}
	var b strings.Builder
	b.WriteByte('0' + byte(s.prev))
	for _, p := range s.pcs {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(int(p)))
	}
	return b.String()
}
func kindOf(r rune) int8 {
	switch {
	case r == '\n':
		return 2
	case syntax.IsWordChar(r):
		return 1
	}
	return 3
}
func prevRune(k int8) rune { return [...]rune{-1, 'a', '\n', ' '}[k] }

// closure follows the empty transitions that hold between the rune kinds; it
// reports the rune instructions reached and whether a match was reached.
func (r *reProg) closure(pcs []uint32, flag syntax.EmptyOp) (out []uint32, match bool) {
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := &r.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(in.Out)
			walk(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flag == 0 {
				walk(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			out = append(out, pc)
		}
	}
	for _, pc := range pcs {
		walk(pc)
	}
	return
}
func (r *reProg) start() reState { return reState{pcs: []uint32{uint32(r.p.Start)}} }
func (r *reProg) step(s reState, c rune) reState {
	if s.done {
		return s
	}
	flag := syntax.EmptyOpContext(prevRune(s.prev), c)
	reach, m := r.closure(s.pcs, flag)
	if m {
		return reState{done: true}
	}
	set := map[uint32]bool{uint32(r.p.Start): true} // a match may begin at any position
	for _, pc := range reach {
		if r.p.Inst[pc].MatchRune(c) {
			set[r.p.Inst[pc].Out] = true
		}
	}
	n := reState{prev: kindOf(c)}
	for pc := range set {
		n.pcs = append(n.pcs, pc)
	}
	slices.Sort(n.pcs)
	return n
}
func (r *reProg) accepts(s reState) bool {
	if s.done {
		return true
	}
	_, m := r.closure(s.pcs, syntax.EmptyOpContext(prevRune(s.prev), -1))
	return m
}

const reBound = 60000

// reSearch looks for a text whose acceptance by the patterns satisfies bad. ok
// is false when the search was cut off.
func reSearch(pats []string, bad func(acc []bool) bool) (text string, found, ok bool) {
	var ps []*reProg
	var cuts []rune
	for _, p := range pats {
		a := reCompile(p)
		if a == nil {
			return "", false, false
		}
		ps = append(ps, a)
		cuts = append(cuts, a.cuts...)
	}
	slices.Sort(cuts)
	// one rune stands for all runes that no instruction tells apart
	reps := []rune{}
	seenSig := map[string]bool{}
	for _, c := range slices.Compact(cuts) {
		if c > unicode.MaxRune || c >= 0xD800 && c <= 0xDFFF { // decoding never yields a surrogate
			continue
		}
		var sb strings.Builder
		sb.WriteByte('0' + byte(kindOf(c)))
		for _, pr := range ps {
			for i := range pr.p.Inst {
				switch pr.p.Inst[i].Op {
				case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
					if pr.p.Inst[i].MatchRune(c) {
						sb.WriteByte('1')
					} else {
						sb.WriteByte('0')
					}
				}
			}
		}
		if !seenSig[sb.String()] {
			seenSig[sb.String()] = true
			reps = append(reps, c)
		}
	}
	type node struct {
		s    []reState
		text string
	}
	key := func(s []reState) string {
		k := ""
		for _, x := range s {
			k += x.key() + "|"
		}
		return k
	}
	var first node
	for _, p := range ps {
		first.s = append(first.s, p.start())
	}
	seen := map[string]bool{key(first.s): true}
	queue := []node{first}
	acc := make([]bool, len(ps))
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		all := true
		for i, p := range ps {
			acc[i] = p.accepts(n.s[i])
			all = all && n.s[i].done
		}
		if bad(acc) {
			return n.text, true, true
		}
		if all {
			continue
		}
		for _, c := range reps {
			m := node{s: make([]reState, len(ps))}
			for i, p := range ps {
				m.s[i] = p.step(n.s[i], c)
			}
			k := key(m.s)
			if seen[k] {
				continue
			}
			if len(seen) > reBound {
				return "", false, false
			}
			seen[k] = true
			m.text = n.text + string(c)
			queue = append(queue, m)
		}
	}
	return "", false, true
}

// reDecide: no text satisfies bad (memoized under a key that names bad).
func reDecide(name string, bad func(acc []bool) bool, pats ...string) bool {
	k := name + "\x00" + strings.Join(pats, "\x00")
	if v, ok := reMemo[k]; ok {
		return v
	}
	_, found, ok := reSearch(pats, bad)
	reMemo[k] = ok && !found
	return ok && !found
}

// reEquivalent: the two patterns match exactly the same texts.
func reEquivalent(p, q string) bool {
	return p == q || reDecide("eq", func(a []bool) bool { return a[0] != a[1] }, p, q)
}

// reIncluded: every text matched by p is matched by q.
func reIncluded(p, q string) bool {
	return p == q || reDecide("inc", func(a []bool) bool { return a[0] && !a[1] }, p, q)
}

// reDisjoint: no text is matched by both.
func reDisjoint(p, q string) bool {
	return reDecide("dis", func(a []bool) bool { return a[0] && a[1] }, p, q)
}

// A relation between named languages: a text in all of ants is in cons.
type reLemma struct {
	ants []string
	cons string
}

var reLemmas []reLemma

func addReLemma(ants []string, cons string) {
	if !reDecide("lem", func(a []bool) bool {
		for _, x := range a[:len(a)-1] {
			if !x {
				return false
			}
		}
		return !a[len(a)-1]
	}, append(append([]string{}, ants...), cons)...) {
		panic("relation between languages does not hold: " + cons)
	}
	reLemmas = append(reLemmas, reLemma{ants, cons})
}

// rePrefixes: when p says exactly "the text begins with one of these", these.
func rePrefixes(p string) []string {
	if v, ok := rePref[p]; ok {
		return v
	}
	var out []string
	re, err := syntax.Parse(p, syntax.Perl)
	if err == nil && re.Op == syntax.OpConcat && len(re.Sub) == 2 && re.Sub[0].Op == syntax.OpBeginText {
		out = reLits(re.Sub[1])
	}
	rePref[p] = out
	return out
}
func reLits(re *syntax.Regexp) (out []string) {
	if re.Flags&syntax.FoldCase != 0 {
		return nil
	}
	switch re.Op {
	case syntax.OpPlus, syntax.OpCapture:
		if re.Op == syntax.OpPlus && (re.Sub[0].Op != syntax.OpCharClass && re.Sub[0].Op != syntax.OpLiteral) {
			return nil
		}
		return reLits(re.Sub[0])
	case syntax.OpLiteral:
		return []string{string(re.Rune)}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			for c := re.Rune[i]; c <= re.Rune[i+1]; c++ {
				if len(out) >= 4 || c == unicode.ReplacementChar {
					return nil
				}
				out = append(out, string(c))
			}
		}
	case syntax.OpAlternate:
		for _, s := range re.Sub {
			l := reLits(s)
			if l == nil {
				return nil
			}
			out = append(out, l...)
		}
	}
	return
}

// reAnchored: the pattern tied to the start of the text.
func reAnchored(p string) string { return "^(?:" + p + ")" }

// reCanon gives patterns that match the same texts the same name. Only texts
// named in specifications act as names.
func reCanon(p string) string {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := reRep[p]; ok {
		return r
	}
	for _, q := range reReps {
		if reEquivalent(p, q) {
			reRep[p] = q
			return q
		}
	}
	reRep[p] = p
	return p
}

// reName registers a specification pattern as a name.
func reName(p string) {
	reMu.Lock()
	defer reMu.Unlock()
	for _, q := range reReps {
		if q == p {
			return
		}
	}
	reReps = append(reReps, p)
	reRep = map[string]string{}
}

// reConsequences: what p matching says about the named languages.
func reConsequences(p string, m func(q string) *Term) (out []*Term) {
	var in, dis []string
	var lem []reLemma
	reMu.Lock()
	c := reRep[p]
	if c == "" {
		c = p
	}
	about := map[string]bool{c: true}
	for _, q := range reReps {
		if q == c {
			continue
		}
		if reIncluded(c, q) {
			in = append(in, q)
			about[q] = true
		} else if reDisjoint(c, q) {
			dis = append(dis, q)
		}
	}
	for _, l := range reLemmas {
		for _, a := range l.ants {
			if about[a] {
				lem = append(lem, l)
				break
			}
		}
	}
	reMu.Unlock()
	for _, q := range in {
		out = append(out, Imp(m(c), m(q)))
	}
	for _, q := range dis {
		out = append(out, Imp(m(c), Not(m(q))))
	}
	for _, l := range lem {
		ts := []*Term{}
		for _, b := range l.ants {
			ts = append(ts, m(b))
		}
		out = append(out, Imp(And(ts...), m(l.cons)))
	}
	return
}

// reNamed: a named language that equals p, if any.
func reNamed(p string) (string, bool) {
	reMu.Lock()
	defer reMu.Unlock()
	for _, q := range reReps {
		if reEquivalent(p, q) {
			return q, true
		}
	}
	return "", false
}

// reRunes: the multi-byte runes that named languages single out at the start of a text.
func reRunes() (out []string) {
	reMu.Lock()
	defer reMu.Unlock()
	for _, q := range reReps {
		for _, l := range rePrefixes(q) {
			if r := []rune(l); len(r) == 1 && len(l) > 1 && !slices.Contains(out, l) {
				out = append(out, l)
			}
		}
	}
	return
}

// reRepeated: the runes of a pattern that is a greedy repetition of a small class.
func reRepeated(p string) []string {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil || re.Op != syntax.OpPlus || re.Flags&syntax.NonGreedy != 0 || re.Sub[0].Op != syntax.OpCharClass {
		return nil
	}
	return reLits(re.Sub[0])
}

// reOneDigit: the pattern matches exactly one rune of a class that has all ASCII digits.
func reOneDigit(p string) bool {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return false
	}
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpCharClass {
		return false
	}
	for i := 0; i+1 < len(re.Rune); i += 2 {
		if re.Rune[i] <= '0' && '9' <= re.Rune[i+1] {
			return true
		}
	}
	return false
}
