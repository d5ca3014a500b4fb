package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	cdir := flag.String("contracts", "/verif/contracts", "")
	fnFlag := flag.String("fn", "", "")
	dbg := flag.Bool("debug", false, "")
	lem := flag.String("lemma", "", "")
	prop := flag.String("check", "", "")
	vdir := flag.String("vdir", "/verif", "")
	noRep := flag.Bool("noreplay", false, "")
	verb := flag.Bool("v", false, "")
	flag.Parse()
	if *prop != "" {
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if err != nil {
			seed = 1
		}
		os.Exit(runCheck(checkCfg{prop: *prop, repo: *repo, cdir: *cdir, vdir: *vdir, tier: tier, seed: seed, noReplay: *noRep, verbose: *verb}))
	}
	pr, err := loadProg(*repo)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	sp, err := loadSpec(*cdir)
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	pool := NewPool(8)
	defer pool.Close()
	if *lem != "" {
		for _, l := range sp.Lemmas {
			if *lem == "all" || l.Name == *lem {
				r := proveLemma(pr, sp, pool, *repo, l)
				fmt.Println(l.Name, r.Status, r.Msg, r.Dur)
			}
		}
		return
	}
	for _, k := range sp.Order {
		c := sp.Contracts[k]
		if c.Iface || c.Trusted != "" || c.NoVerify {
			continue
		}
		if *fnFlag != "" && !strings.Contains(k, *fnFlag) {
			continue
		}
		m := Mode{Real: c.Mode == "real", FP: c.Mode == "fp"}
		e := NewEngine(pr, sp, pool, *repo, m)
		e.debug = *dbg
		e.setup()
		r := e.verify(k)
		fmt.Printf("%-50s %-11s obl=%d+%d rounds=%d loops=%d cands=%d/%d %v %s\n", k, r.Status, r.NObl, r.Trivial, r.Rounds, r.NLoops, r.AliveN, r.CandN, r.Dur.Round(1e6), r.Msg)
		for i, o := range r.Failed {
			fmt.Printf("    FAIL %s %s: %s [%s]\n", o.Pos, o.Kind, o.Name, r.Outs[i])
			if *dbg {
				fmt.Println("       goal:", o.Goal)
			}
		}
	}
}
