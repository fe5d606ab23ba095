package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
)

func cli() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gvc check|fn|ssa|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gvc", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	ms := fs.Int("ms", 10000, "")
	verbose := fs.Bool("v", false, "")
	tier := fs.String("tier", "quick", "")
	only := fs.Bool("only", false, "verify only the named functions")
	budget := fs.Int("budget", 0, "refuter budget in seconds")
	fs.Parse(os.Args[2:])
	if os.Args[1] == "check" {
		os.Exit(runCheck(*repo, *verif, *prop, *tier, *ms, *budget))
	}
	w, err := loadWorld(*repo, *verif+"/contracts")
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "ssa":
		for _, a := range fs.Args() {
			if f := w.fns[a]; f != nil {
				f.WriteTo(os.Stdout)
			}
		}
	case "list":
		for _, k := range sortedKeys(w.fns) {
			fmt.Println(k, w.fns[k].Signature)
		}
		fmt.Println("init problems:", w.initErrs)
		for g := range w.mutable {
			fmt.Println("mutable", globKey(g))
		}
	case "fn":
		for _, a := range fs.Args() {
			printFn(w.verifyFn(*prop, a, *ms), *verbose)
		}
	case "prop":
		pr := w.verifyProp(*prop, *ms, func(r *FnResult) { printFn(r, *verbose) })
		for _, l := range pr.Lemmas {
			fmt.Println(l.Fn, l.Res.Status, l.Res.By, l.Res.Time)
		}
		fmt.Printf("wall %.1f trusted %v\n", pr.Wall, pr.Trusted)
	}
	_ = tier
	_ = only
}

func printFn(r *FnResult, verbose bool) {
	bad := 0
	for _, o := range r.Obls {
		if o.Res.Status != "unsat" {
			bad++
		}
	}
	s := "ok"
	if bad > 0 || r.Err != "" || r.Vacuous {
		s = "FAIL"
	}
	fmt.Printf("%-4s %-45s obl=%d bad=%d exits=%d sym=%.2fs solve=%.2fs", s, r.Key, len(r.Obls), bad, r.Exits, r.SymTime, r.SolvTime)
	if r.Vacuous {
		fmt.Print(" VACUOUS")
	}
	if r.Err != "" {
		fmt.Print(" ERR: ", r.Err)
	}
	fmt.Println()
	if verbose {
		fmt.Println("   inlined:", strings.Join(r.Inlined, " "))
		fmt.Println("   called:", strings.Join(r.Called, " "))
		fmt.Println("   models:", strings.Join(r.Models, " "))
	}
	for i, o := range r.Obls {
		if o.Res.Status != "unsat" || verbose {
			fmt.Printf("   [%d] %-8s %-7s %s  @%s (%s %.2fs)\n", i, o.Res.Status, o.Kind, o.Name, o.Loc, o.Res.By, o.Res.Time)
			if d := os.Getenv("GVC_DUMP"); d != "" && o.Res.Status != "unsat" && o.Q != nil {
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", d, i), []byte(o.Q.smt(true)), 0644)
				if q := o.Q.simplified(); q != nil {
					os.WriteFile(fmt.Sprintf("%s/%d.simp.smt2", d, i), []byte(q.smt(false)), 0644)
					var sb strings.Builder
					for _, a := range q.Assume {
						sb.WriteString(a.String() + "\n")
					}
					os.WriteFile(fmt.Sprintf("%s/%d.simp.txt", d, i), []byte(sb.String()), 0644)
				}
			}
			if verbose && o.Res.Status != "unsat" {
				for _, a := range o.Q.Assume {
					fmt.Println("        |", clip(a.String()))
				}
				fmt.Println("        ?", clip(o.Q.Goal.String()))
				if o.Res.Model != "" {
					fmt.Println("        model", o.Res.Model)
				}
			}
		}
	}
}
func clip(s string) string {
	if len(s) > 700 {
		return s[:700] + "…"
	}
	return s
}
