package main

// Lemma proofs.

import (
	"fmt"
	"os"
	"time"
)

type LemmaResult struct {
	Name   string
	Status string
	Msg    string
	Dur    time.Duration
	Solver string
}

func proveLemma(pr *Prog, sp *Spec, pool *Pool, repo string, l *Lemma) (res *LemmaResult) {
	st := time.Now()
	res = &LemmaResult{Name: l.Name}
	defer func() { res.Dur = time.Since(st) }()
	if l.By == "axiom" {
		res.Status = "axiom"
		return
	}
	e := NewEngine(pr, sp, pool, repo, Mode{Real: l.By == "real", FP: l.By == "fp"})
	e.setup()
	b := e.tb
	var ax []*Axiom
	uses := map[string]bool{}
	for _, u := range l.Uses {
		uses[u] = true
	}
	for _, a := range e.axioms {
		if a.Kind == "lemma" {
			continue
		}
		ax = append(ax, a)
	}
	for _, m := range sp.Lemmas {
		if m.Name == l.Name {
			break
		}
		if len(l.Uses) > 0 && !uses[m.Name] || m.Local && !uses[m.Name] {
			continue
		}
		if a := e.lemmaAx[m.Name]; a != nil && a.Kind == "lemma" {
			ax = append(ax, a)
		}
	}
	env := &Env{e: e, vars: map[string]*Val{}}
	m := map[*Term]*Term{}
	_, vs := e.lemmaEnv(l)
	for i, v := range l.Vars {
		c := b.Var("c_"+v.Name, e.specSort(v.Type))
		env.vars[v.Name] = &Val{Typ: e.specType(v.Type), T: c}
		m[vs[i]] = c
	}
	goal := env.boolean(l.E)
	var facts []*Term
	if l.By == "induct" {
		// strong induction on the measure, all variables generalised
		qe, qv := e.lemmaEnv(l)
		meas := env.term(l.Ind)
		ih := qe.boolean(l.E)
		qm := qe.term(l.Ind)
		var pats [][]*Term
		for _, p := range l.Pats {
			var q []*Term
			for _, n := range p {
				x := qe.term(n)
				q = append(q, x)
			}
			pats = append(pats, q)
			// also trigger on fuel-0 copies
			var q0 []*Term
			ch := false
			for _, x := range q {
				y := e.fuel0(x)
				if y != x {
					ch = true
				}
				q0 = append(q0, y)
			}
			if ch {
				pats = append(pats, q0)
			}
		}
		if len(pats) == 0 {
			pats = e.inferPats(qv, ih)
		}
		facts = append(facts, b.Forall(qv, pats, b.Imp(b.And(b.Le(b.Int(0), qm), b.Lt(qm, meas)), ih)))
	}
	for _, h := range l.Hints {
		t := env.term(h)
		hf := "hint." + sortTag(t.sort)
		b.Declare(hf, "Bool", t.sort)
		facts = append(facts, b.Fn(hf, t))
	}
	f, g := e.prep(facts, goal)
	if l.By == "nia" {
		e.native["imul"] = true
		e.native["idiv"] = true
		e.native["imod"] = true
		s := e.Script(&Query{Facts: f, Goal: g}, ax, e.mode)
		s = "(define-fun imul ((x Int)(y Int)) Int (* x y))\n(define-fun idiv ((x Int)(y Int)) Int (div x y))\n(define-fun imod ((x Int)(y Int)) Int (mod x y))\n" + s
		for _, o := range []string{z3optsAuto, "(set-option :smt.arith.solver 6)\n", "(set-option :smt.arith.nl.nra true)\n(set-option :smt.random_seed 11)\n"} {
			r := pool.Check(s, 20000, o)
			res.Solver = r.Solver
			if r.Sat == "unsat" {
				res.Status = "proved"
				return
			}
			res.Msg += r.Sat + " "
			if r.Sat == "error" {
				res.Msg += r.Out
			}
		}
		if r := pool.CheckCVC5(s, 30000); r.Sat == "unsat" {
			res.Status = "proved"
			res.Solver = r.Solver
			return
		}
		res.Status = "failed"
		return
	}
	s := e.Script(&Query{Facts: f, Goal: g}, ax, e.mode)
	opts := []string{z3opts, z3optsB, z3optsAuto}
	for _, o := range opts {
		r := pool.Check(s, 15000, o)
		res.Solver = r.Solver
		if r.Sat == "unsat" {
			res.Status = "proved"
			return
		}
		res.Msg += r.Sat + " "
		if r.Sat == "error" {
			res.Msg += r.Out
		}
	}
	if r := pool.CheckCVC5(s, 20000); r.Sat == "unsat" {
		res.Status = "proved"
		res.Solver = r.Solver
		return
	}
	res.Status = "failed"
	if d := os.Getenv("GOVER_KEEP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/lemma_%s.smt2", d, l.Name), []byte(z3opts+s+"(check-sat)\n"), 0644)
	}
	return
}

func (e *Engine) fuel0(t *Term) *Term {
	for _, f := range e.spec.Funs {
		if f.Kind == "rec" {
			t = e.tb.replaceFn(t, f.Name, f.Name+".0")
		}
	}
	return t
}
