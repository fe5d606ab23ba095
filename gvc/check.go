package main

// The check of one property: prove, run the bounded companion (executable oracle on the real code), report.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type refuteOut struct {
	ran    bool
	cases  int
	dist   int
	sample []string
	fails  []map[string]any
	note   string
}

// known findings: "finding: property=C17 key=<exact obligation or oracle key>"
func knownFindings(verif, prop string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		if i := strings.Index(l, "key=["); i >= 0 {
			if j := strings.Index(l[i:], "]"); j > 0 {
				out[l[i+5:i+j]] = strings.TrimSpace(l[i+j+1:])
			}
		}
	}
	return out
}

func refute(repo, verif, prop, tier string, seconds int, hint string) *refuteOut {
	ro := &refuteOut{}
	dirs, _ := filepath.Glob(filepath.Join(verif, "refute", "*", strings.ToLower(prop)+"*_test.go"))
	if len(dirs) == 0 {
		ro.note = "no bounded companion for this property"
		return ro
	}
	sort.Strings(dirs)
	tmp, err := os.MkdirTemp("", "gvcref")
	if err != nil {
		ro.note = err.Error()
		return ro
	}
	defer os.RemoveAll(tmp)
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	// one test binary per file, so that a file using a renamed internal cannot disable the others
	for _, f := range dirs {
		pkg := filepath.Base(filepath.Dir(f))
		rel := "."
		if pkg != "root" {
			rel = strings.ReplaceAll(pkg, "__", "/")
		}
		repl := map[string]string{}
		base := strings.TrimSuffix(filepath.Base(f), "_test.go")
		repl[filepath.Join(repo, rel, "zz_verif_"+base+"_test.go")] = f
		commons, _ := filepath.Glob(filepath.Join(filepath.Dir(f), "common*_test.go"))
		for _, c := range commons {
			repl[filepath.Join(repo, rel, "zz_verif_"+filepath.Base(c))] = c
		}
		// the repository's own tests are left out of this binary
		old, _ := filepath.Glob(filepath.Join(repo, rel, "*_test.go"))
		for _, o := range old {
			repl[o] = ""
		}
		js, _ := json.Marshal(map[string]any{"Replace": repl})
		ov := filepath.Join(tmp, base+".json")
		os.WriteFile(ov, js, 0644)
		bin := filepath.Join(tmp, base+".test")
		bc := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ov, "-o", bin, "./"+rel)
		bc.Dir = repo
		if out, err := bc.CombinedOutput(); err != nil {
			ro.note += fmt.Sprintf("%s does not compile against this tree: %s\n", base, clip(string(out)))
			continue
		}
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(seconds+60)*time.Second)
		rc := exec.CommandContext(ctx, bin, "-test.run", "^TestVerif", "-test.timeout", fmt.Sprintf("%ds", seconds+50))
		rc.Dir = filepath.Join(repo, rel)
		rc.Env = append(os.Environ(), "VERIF_SEED="+seed, "VERIF_TIER="+tier, fmt.Sprintf("VERIF_BUDGET_MS=%d", seconds*1000), "VERIF_HINT="+hint)
		var ob bytes.Buffer
		rc.Stdout, rc.Stderr = &ob, &ob
		err := rc.Run()
		cancel()
		ro.ran = true
		for _, l := range strings.Split(ob.String(), "\n") {
			if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
				var m map[string]any
				if json.Unmarshal([]byte(l[i+11:]), &m) == nil {
					m["file"] = filepath.Base(f)
					ro.fails = append(ro.fails, m)
				}
			}
			if i := strings.Index(l, "VERIF-STAT "); i >= 0 {
				fs := strings.Fields(l[i+11:])
				if len(fs) >= 2 {
					a, _ := strconv.Atoi(fs[0])
					b, _ := strconv.Atoi(fs[1])
					ro.cases += a
					ro.dist += b
				}
			}
			if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 && len(ro.sample) < 12 {
				ro.sample = append(ro.sample, l[i+13:])
			}
		}
		if err != nil && len(ro.fails) == 0 {
			s := ob.String()
			if strings.Contains(s, "panic:") && !strings.Contains(s, "test timed out") {
				ro.fails = append(ro.fails, map[string]any{"key": "panic", "what": "the code under test panicked", "file": filepath.Base(f), "output": clipTail(s)})
			} else {
				ro.note += base + ": " + clipTail(s) + "\n"
			}
		}
	}
	return ro
}

func clipTail(s string) string {
	if len(s) > 4000 {
		return s[:1500] + "\n...\n" + s[len(s)-2400:]
	}
	return s
}

func runCheck(repo, verif, prop, tier string, ms, budget int) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if budget == 0 {
		budget = 15
		if tier == "thorough" {
			budget = 180
		}
	}
	if tier == "thorough" && ms < 60000 {
		ms = 60000
	}
	w, err := loadWorld(repo, filepath.Join(verif, "contracts"))
	var pr *PropResult
	var ref *refuteOut
	type failure struct {
		Fn, Kind, Name, Loc, Status, Model string
		Smt                                string `json:",omitempty"`
	}
	var fails []failure
	total, disch, trivial := 0, 0, 0
	byKind := map[string]int{}
	bySolver := map[string]int{}
	var solverSum float64
	var fnList []map[string]any
	inl, mods := map[string]bool{}, map[string]bool{}
	if err != nil {
		fails = append(fails, failure{Fn: "load", Kind: "load", Name: err.Error()})
		pr = &PropResult{Trusted: map[string]string{}}
	} else {
		pr = w.verifyProp(prop, ms, nil)
		ref = refute(repo, verif, prop, tier, budget, "")
		if len(ref.fails) == 0 {
			w.retryFailed(pr, ms, 150*time.Second)
		}
		add := func(o *Obl) {
			total++
			byKind[o.Kind]++
			if o.Res.Status == "unsat" {
				disch++
				bySolver[o.Res.By]++
				solverSum += o.Res.Time
				return
			}
			f := failure{Fn: o.Fn, Kind: o.Kind, Name: o.Name, Loc: o.Loc, Status: o.Res.Status}
			if f.Status == "" {
				f.Status = "not attempted"
			}
			if o.Q != nil && len(fails) < 6 {
				if o.Res.Status == "sat" {
					f.Model = o.Q.model()
				}
				f.Smt = clip(o.Q.Goal.String())
			}
			fails = append(fails, f)
		}
		for _, r := range pr.Fns {
			for _, o := range r.Obls {
				add(o)
			}
			trivial += r.Trivial
			if r.Err != "" {
				fails = append(fails, failure{Fn: r.Key, Kind: "reach", Name: r.Err, Status: "outside the verified subset"})
			}
			if r.Vacuous && r.Err == "" {
				fails = append(fails, failure{Fn: r.Key, Kind: "vacuity", Name: "no exit of the function is reachable under its contract", Status: "vacuous"})
			}
			fnList = append(fnList, map[string]any{"function": r.Key, "obligations": len(r.Obls), "by_simplifier": r.Trivial, "symbolic_s": round2(r.SymTime), "solver_wall_s": round2(r.SolvTime)})
			for _, k := range r.Inlined {
				inl[k] = true
			}
			for _, k := range r.Models {
				mods[k] = true
			}
		}
		for _, o := range pr.Lemmas {
			add(o)
		}
		if total+trivial == 0 {
			fails = append(fails, failure{Fn: prop, Kind: "vacuity", Name: "no obligation was generated", Status: "vacuous"})
		}
	}
	if ref == nil {
		ref = refute(repo, verif, prop, tier, budget, "")
	}
	known := knownFindings(verif, prop)
	used := map[string]bool{}
	var kept []failure
	for _, f := range fails {
		k := f.Fn + ": " + f.Name
		if _, ok := known[k]; ok {
			used[k] = true
			continue
		}
		kept = append(kept, f)
	}
	fails = kept
	var rfails []map[string]any
	filter := func(in []map[string]any) {
		rfails = nil
		for _, m := range in {
			k := fmt.Sprint(m["key"])
			if _, ok := known[k]; ok {
				used[k] = true
				continue
			}
			rfails = append(rfails, m)
		}
	}
	filter(ref.fails)
	if len(fails) > 0 && len(rfails) == 0 && ref.ran {
		// the proof failed: search for a concrete failing input for longer
		hint := ""
		for _, f := range fails {
			hint += f.Fn + "\n"
		}
		extra := 90
		if tier == "thorough" {
			extra = 240
		}
		os.Setenv("VERIF_SEED", strconv.Itoa(seed+1000))
		r2 := refute(repo, verif, prop, tier, extra, hint)
		os.Setenv("VERIF_SEED", strconv.Itoa(seed))
		ref.cases += r2.cases
		ref.dist += r2.dist
		filter(r2.fails)
	}
	for k := range used {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, known[k], k)
	}
	// evidence
	assume := []string{}
	for k, v := range pr.Trusted {
		assume = append(assume, "trusted contract (body not verified): "+k+": "+v)
	}
	assume = append(assume, pr.Assumes...)
	for k := range mods {
		assume = append(assume, "assumed: "+k)
	}
	assume = append(assume, standingAssumptions...)
	if w != nil {
		for _, e := range w.initErrs {
			assume = append(assume, "package initialiser not executed symbolically: "+e)
		}
	}
	sort.Strings(assume)
	cov := map[string]any{
		"obligations":           total,
		"discharged":            disch,
		"by_simplifier":         trivial,
		"obligations_by_kind":   byKind,
		"discharged_by_backend": bySolver,
		"solver_time_s":         round2(solverSum),
		"functions_under_contract": fnList,
		"functions_inlined":     sortedKeys(inl),
		"checker_cmd":           fmt.Sprintf("gvc check -prop %s (z3-new 5.3.2, cvc5 1.1.2, z3 4.8.12)", prop),
		"trusted_base":          []string{"go/ssa translation of the current source", "gvc symbolic semantics and library models (/verif/gvc)", "z3 and cvc5"},
		"bounded_companion":     map[string]any{"ran": ref.ran, "evaluations": ref.cases, "distinct_nontrivial": ref.dist, "samples": ref.sample, "note": ref.note, "counted_as_proof": false},
	}
	nv := 0
	if len(fails)+len(rfails) > 0 {
		nv = 1
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": assume, "wall_s": round2(time.Since(t0).Seconds()), "violations": nv}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	js, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), js, 0644)
	fmt.Printf("%s: %d functions under contract, %d obligations (+%d by simplification), %d discharged, %d failed; companion cases %d, failures %d; %.1fs\n", prop, len(pr.Fns), total, trivial, disch, len(fails), ref.cases, len(rfails), time.Since(t0).Seconds())
	if ref.note != "" {
		fmt.Println("companion note:", ref.note)
	}
	if nv == 0 {
		return 0
	}
	for _, f := range fails {
		fmt.Printf("  undischarged: %s [%s] %s @%s: %s\n", f.Fn, f.Kind, f.Name, f.Loc, f.Status)
	}
	os.MkdirAll(filepath.Join(verif, "replay"), 0755)
	path := filepath.Join(verif, "replay", prop+".json")
	js, _ = json.MarshalIndent(map[string]any{"property": prop, "failing_inputs": rfails, "failed_obligations": fails, "how_to_replay": "go test with the overlay of /verif/refute/<pkg>/<file>; VERIF_SEED as in this run"}, "", " ")
	os.WriteFile(path, js, 0644)
	if len(rfails) > 0 {
		b, _ := json.Marshal(rfails[0])
		fmt.Println("  failing input:", clip(string(b)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

var standingAssumptions = []string{
	"machine integers: range of every typed value is asserted and conversions wrap; additions in int are checked for wrap-around only where the engine states so",
	"memory model: typed heap components; unsafe code and reflection (protobuf runtime) are outside",
	"partial correctness except where a termination obligation is listed; panics are excluded by property C06",
	"goroutines other than the caller do not interfere",
}
