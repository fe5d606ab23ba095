package main

import (
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	Status string // "unsat" (proved), "sat", "unknown"
	By     string
	Time   float64
	Model  string
}

type Query struct {
	Assume []*Term
	Goal   *Term
	Eval   []*Term // terms to evaluate in a model
	NoCvc  bool
}

var procSem = make(chan struct{}, 8)
var solverTime int64 // microseconds, sum over winning solver
var nQueries int64
var devCache = os.Getenv("GVC_DEVCACHE")

func collectBound(ts []*Term) map[*Term]bool {
	bv := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, v := range t.Vars {
			bv[v] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	return bv
}

// smt renders the query; sat means the goal can be violated.
func (q *Query) smt(model bool) string {
	roots := append([]*Term{}, q.Assume...)
	roots = append(roots, Not(q.Goal))
	// close under attached facts
	var all []*Term
	seenRoot := map[*Term]bool{}
	seen := map[*Term]bool{}
	var order []*Term
	cnt := map[*Term]int{}
	bv := collectBound(roots)
	hasB := map[*Term]bool{}
	queue := append([]*Term{}, roots...)
	var rec func(t *Term)
	rec = func(t *Term) {
		cnt[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
			if hasB[a] {
				hasB[t] = true
			}
		}
		if bv[t] {
			hasB[t] = true
		}
		order = append(order, t)
		if !hasB[t] {
			queue = append(queue, C.facts[t]...)
		}
	}
	round, done := 0, 0
	for {
		if len(queue) == 0 {
			if round >= 4 {
				break
			}
			round++
			queue = instances(order[:], done, hasB)
			done = len(order)
			if len(queue) == 0 {
				break
			}
		}
		r := queue[0]
		queue = queue[1:]
		if seenRoot[r] || r == True {
			continue
		}
		seenRoot[r] = true
		for v := range collectBound([]*Term{r}) {
			if !bv[v] {
				bv[v] = true
				hasB[v] = true
			}
		}
		all = append(all, r)
		rec(r)
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if model {
		b.WriteString("(set-option :produce-models true)\n")
	}
	declared := map[string]bool{}
	for _, t := range order {
		switch t.Op {
		case "var":
			if bv[t] {
				continue
			}
			if !declared[t.Str] {
				declared[t.Str] = true
				fmt.Fprintf(&b, "(declare-fun %s () %s)\n", quoteSym(t.Str), t.Sort)
			}
		case "uf-all":
			if n := "all:" + t.Str; !declared[n] {
				declared[n] = true
				fmt.Fprintf(&b, "(declare-fun %s (String) Bool)\n", quoteSym(n))
			}
		case "uf":
			if !declared[t.Str] {
				declared[t.Str] = true
				var as []string
				for _, a := range t.Args {
					as = append(as, string(a.Sort))
				}
				fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", quoteSym(t.Str), strings.Join(as, " "), t.Sort)
			}
		}
	}
	names := map[*Term]string{}
	for _, t := range order {
		if len(t.Args) == 0 || hasB[t] || cnt[t] < 2 || t.Op == "forall" || t.Op == "exists" {
			continue
		}
		n := fmt.Sprintf("$%d", t.id)
		fmt.Fprintf(&b, "(define-fun %s () %s ", n, t.Sort)
		t.printTop(&b, names)
		b.WriteString(")\n")
		names[t] = n
	}
	for _, r := range all {
		b.WriteString("(assert ")
		r.print(&b, names)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	if model && len(q.Eval) > 0 {
		b.WriteString("(get-value (")
		for _, e := range q.Eval {
			if seen[e] {
				e.print(&b, names)
				b.WriteByte(' ')
			}
		}
		b.WriteString("))\n")
	}
	return b.String()
}

type solverCfg struct {
	name string
	args func(ms int) []string
}

var solvers = []solverCfg{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)} }},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--strings-exp", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)}
	}},
}
var extraSolvers = []solverCfg{
	{"cvc5-enum", func(ms int) []string {
		return []string{"cvc5", "--strings-exp", "--lang=smt2", "--enum-inst", fmt.Sprintf("--tlimit=%d", ms)}
	}},
	{"z3-4.8", func(ms int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", (ms+999)/1000)} }},
}

func runSolver(ctx context.Context, s solverCfg, text string, ms int) string {
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return "cancelled"
	}
	defer func() { <-procSem }()
	a := s.args(ms)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(text)
	out, _ := cmd.Output()
	return string(out)
}

// solve decides a query with the solver portfolio.
func solve(q *Query, ms int) Result {
	if q.Goal == True {
		return Result{Status: "unsat", By: "simplifier"}
	}
	for _, a := range q.Assume {
		if a == False {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	asm := map[*Term]bool{}
	for _, a := range q.Assume {
		for _, c := range conjuncts(a) {
			asm[c] = true
		}
	}
	okAll := true
	for _, c := range conjuncts(q.Goal) {
		if !asm[c] {
			okAll = false
			break
		}
	}
	if okAll {
		return Result{Status: "unsat", By: "simplifier"}
	}
	for a := range asm {
		if asm[Not(a)] {
			return Result{Status: "unsat", By: "simplifier"}
		}
	}
	text := q.smt(false)
	return solveText(text, ms)
}

func solveText(text string, ms int) Result {
	atomic.AddInt64(&nQueries, 1)
	var ckey string
	if devCache != "" {
		h := sha256.Sum256([]byte(text))
		ckey = filepath.Join(devCache, fmt.Sprintf("%x", h[:16]))
		if b, err := os.ReadFile(ckey); err == nil {
			f := strings.Fields(string(b))
			if len(f) >= 2 && f[0] == "unsat" {
				return Result{Status: f[0], By: f[1]}
			}
		}
	}
	start := time.Now()
	try := func(ss []solverCfg, ms int) Result {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		type ans struct{ name, out string }
		ch := make(chan ans, len(ss))
		for _, s := range ss {
			go func(s solverCfg) { ch <- ans{s.name, runSolver(ctx, s, text, ms)} }(s)
		}
		res := Result{Status: "unknown"}
		for range ss {
			a := <-ch
			first := strings.TrimSpace(strings.SplitN(a.out, "\n", 2)[0])
			if first == "unsat" || first == "sat" {
				res = Result{Status: first, By: a.name}
				break
			} else if strings.Contains(a.out, "error") && os.Getenv("GVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "SOLVER %s: %s\n", a.name, a.out)
				os.WriteFile("/tmp/gvc_err.smt2", []byte(text), 0644)
			}
		}
		return res
	}
	// fast pass with z3 alone, then the portfolio
	r := try(solvers[:1], min(ms, 1000))
	if r.Status == "unknown" {
		r = try(solvers, ms)
	}
	if r.Status == "unknown" && ms > 3000 {
		r = try(extraSolvers, ms)
	}
	r.Time = time.Since(start).Seconds()
	atomic.AddInt64(&solverTime, int64(r.Time*1e6))
	if devCache != "" && r.Status == "unsat" {
		os.MkdirAll(devCache, 0755)
		os.WriteFile(ckey, []byte(r.Status+" "+r.By), 0644)
	}
	return r
}

// solveAll decides many queries in parallel (texts are rendered serially: terms are not thread-safe).
func solveAll(qs []*Query, ms int) []Result {
	out := make([]Result, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		if q.Goal == True {
			out[i] = Result{Status: "unsat", By: "simplifier"}
			continue
		}
		triv := false
		asm := map[*Term]bool{}
		for _, a := range q.Assume {
			if a == False {
				triv = true
			}
			for _, c := range conjuncts(a) {
				asm[c] = true
			}
		}
		if !triv {
			okAll := true
			for _, c := range conjuncts(q.Goal) {
				if !asm[c] {
					okAll = false
					break
				}
			}
			triv = okAll
		}
		if !triv {
			for a := range asm {
				if asm[Not(a)] {
					triv = true
					break
				}
			}
		}
		if triv {
			out[i] = Result{Status: "unsat", By: "simplifier"}
			continue
		}
		text := q.smt(false)
		wg.Add(1)
		go func(i int, text string) {
			defer wg.Done()
			out[i] = solveText(text, ms)
		}(i, text)
	}
	wg.Wait()
	return out
}

// model asks z3 (then cvc5) for values of q.Eval in a counter-model.
func (q *Query) model() string {
	text := q.smt(true)
	for _, s := range solvers {
		out := runSolver(context.Background(), s, text, 5000)
		if strings.HasPrefix(strings.TrimSpace(out), "sat") {
			return s.name + ": " + strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(out), "sat"))
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}


// solveTwice decides the queries, and the undecided ones again in simplified form and by the case
// distinctions the contract names.
func solveTwice(qs []*Query, ms int, splits []*Term) []Result {
	first := ms
	if len(splits) > 0 {
		first = ms / 4
	}
	for _, q := range qs {
		if q.witnessed() != q {
			first = ms / 4
		}
	}
	out := solveAll(qs, first)
	var again []*Query
	var idx []int
	for i, r := range out {
		if r.Status == "unsat" {
			continue
		}
		cases := qs[i].witnessed().pathCases()
		for _, c := range splits {
			var next []*Query
			for _, q := range cases {
				for _, l := range []*Term{c, Not(c)} {
					if n := q.with(l); n != nil {
						next = append(next, n)
					}
				}
			}
			cases = next
		}
		if len(cases) == 0 {
			out[i] = Result{Status: "unsat", By: "simplifier (cases)"}
			continue
		}
		if len(cases) == 1 && cases[0] == qs[i] {
			continue
		}
		for _, c := range cases {
			again = append(again, c)
			idx = append(idx, i)
		}
	}
	rs := solveAll(again, ms)
	bad := map[int]bool{}
	by := map[int]Result{}
	for j, r := range rs {
		if r.Status != "unsat" {
			bad[idx[j]] = true
			if d := os.Getenv("GVC_DUMPCASE"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/c%d-%d.smt2", d, idx[j], j), []byte(again[j].smt(false)), 0644)
			}
		} else {
			b := by[idx[j]]
			if b.By == "" {
				b.By = r.By
			} else if !strings.Contains(b.By, r.By) {
				b.By += "+" + r.By
			}
			b.Time += r.Time
			by[idx[j]] = b
		}
	}
	for i, b := range by {
		if !bad[i] {
			out[i] = Result{Status: "unsat", By: b.By + " (literals propagated)", Time: b.Time}
		}
	}
	return out
}

func (q *Query) contradictory() bool {
	if q.Goal == True {
		return true
	}
	asm := map[*Term]bool{}
	for _, a := range q.Assume {
		for _, c := range conjuncts(a) {
			asm[c] = true
		}
	}
	for a := range asm {
		if a == False || asm[Not(a)] {
			return true
		}
	}
	return false
}

// with adds an assumption and simplifies; nil if the result is contradictory.
func (q *Query) with(l *Term) *Query {
	n := &Query{Assume: append(append([]*Term{}, q.Assume...), l), Goal: q.Goal, NoCvc: q.NoCvc}
	if n.contradictory() {
		return nil
	}
	if s := n.simplified(); s != nil {
		n = s
	}
	if n.contradictory() {
		return nil
	}
	return n
}

// pathCases splits a query whose state joins several paths into one query per path.
func (q *Query) pathCases() []*Query {
	base := q
	if s := q.simplified(); s != nil {
		base = s
	}
	var best *Term
	score := 0
	for _, a := range base.Assume {
		if a.Op != "or" || len(a.Args) > 16 {
			continue
		}
		n, ok := 0, true
		for _, d := range a.Args {
			cs := conjuncts(d)
			for _, c := range cs {
				if c.Op == "forall" || c.Op == "exists" {
					ok = false
				}
			}
			if d.Op == "and" {
				n += len(cs)
			}
		}
		if ok && n > score {
			best, score = a, n
		}
	}
	if best == nil || score < 4 {
		return []*Query{base}
	}
	var out []*Query
	for _, d := range best.Args {
		if n := base.with(d); n != nil {
			out = append(out, n)
		}
	}
	return out
}
