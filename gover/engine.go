package main

// Engine: per-function verification driver.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	pr         *Prog
	spec       *Spec
	pool       *Pool
	repo       string
	tb         *TB
	svSort     map[string]string
	native     map[string]bool
	mode       Mode
	keys       map[string]keyInfo
	typed      map[*Term]bool
	constAx    []*Axiom
	alloc0     *Term
	funs       map[string]*SpecFun
	axioms     []*Axiom
	lemmaAx    map[string]*Axiom
	qn         int
	fnKey      string
	con        *Contract
	entry      *State
	entryVars  map[string]*Val
	obls       []*Obl
	checks     []*CandCheck
	loops      map[string]*LoopInfo
	grew       bool
	seq        int
	varSeq     map[*Term]int
	phase      int
	hdrs       map[string]bool
	entrySeq   int
	steps      int
	paths      int
	backEdges  int
	trivial    int
	curPos     token.Pos
	retPos     token.Pos
	inlineSet  map[string]bool
	inlined    map[string]bool
	consUsed   map[string]bool
	assumed    map[string]bool
	liCache    map[*ssa.Function]*loopInfoFn
	extHook    func(fr *Frame, st *State, key string, args []*Val, rt types.Type, k func(*State, *Val)) bool
	debug      bool
	retFacts   [][]*Term
	axOrder    []string
	useOnly    map[string]bool
	noQuick    bool
	entryFacts []*Term
	mu         sync.Mutex
}

func NewEngine(pr *Prog, spec *Spec, pool *Pool, repo string, mode Mode) *Engine {
	e := &Engine{pr: pr, spec: spec, pool: pool, repo: repo, mode: mode}
	e.tb = NewTB()
	e.svSort = map[string]string{}
	e.native = map[string]bool{}
	e.keys = map[string]keyInfo{}
	e.typed = map[*Term]bool{}
	e.funs = map[string]*SpecFun{}
	e.loops = map[string]*LoopInfo{}
	e.varSeq = map[*Term]int{}
	e.hdrs = map[string]bool{}
	e.inlineSet = map[string]bool{}
	e.inlined = map[string]bool{}
	e.consUsed = map[string]bool{}
	e.assumed = map[string]bool{}
	e.liCache = map[*ssa.Function]*loopInfoFn{}
	e.lemmaAx = map[string]*Axiom{}
	e.alloc0 = e.tb.Var("alloc0", "Int")
	e.tb.Declare("imul", "Int", "Int", "Int")
	for _, s := range []string{"Num", "F32", "F64"} {
		s = e.srt(s)
		for _, t := range []string{s, arr(s), arr(arr(s))} {
			e.svSort["sv."+sortTag(t)] = t
		}
	}
	return e
}

// setup declares spec functions and builds axioms.
func (e *Engine) setup() {
	b := e.tb
	skip := map[string]bool{}
	for _, f := range e.spec.Funs {
		e.funs[f.Name] = f
	}
	for _, f := range e.spec.Funs {
		func() {
			defer func() {
				if r := recover(); r != nil {
					panic(fmt.Sprintf("%s: spec function %s: %v", f.Pos, f.Name, r))
				}
			}()
			var as []string
			for _, p := range f.Params {
				as = append(as, e.specSort(p.Type))
			}
			rs := e.specSort(f.Res)
			if f.Kind == "arrdef" {
				rs = arr(rs)
			}
			b.Declare(f.Name, rs, as...)
			if f.Kind == "rec" {
				b.Declare(f.Name+".0", rs, as...)
			}
		}()
	}
	for _, f := range e.spec.Funs {
		if f.Body == nil || skip[f.Name] {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if m, ok := r.(evalErr); ok {
						if e.mode.Real || e.mode.FP { // definitions over a different numeric mode
							return
						}
						panic(m.msg)
					}
					panic(r)
				}
			}()
			env := &Env{e: e, vars: map[string]*Val{}}
			var vs, args []*Term
			for i, p := range f.Params {
				v := b.BVar(fmt.Sprintf("?p%d", i), e.specSort(p.Type))
				vs = append(vs, v)
				args = append(args, v)
				env.vars[p.Name] = &Val{Typ: e.specType(p.Type), T: v}
			}
			lhs := b.mk(&Term{op: f.Name, args: args, sort: b.fsorts[f.Name]})
			if f.Kind == "arrdef" {
				k := b.BVar("?pk", "Int")
				env.vars[f.Idx] = &Val{T: k}
				body := env.term(f.Body)
				if body.sort != elemSort(lhs.sort) {
					_, body = env.coerce(b.Var("?dummy", elemSort(lhs.sort)), body)
				}
				sel := b.App("select", elemSort(lhs.sort), lhs, k)
				t := b.Forall(append(vs, k), [][]*Term{{sel}}, b.Eq(sel, body))
				e.axioms = append(e.axioms, &Axiom{Name: "def " + f.Name, Syms: []string{f.Name}, T: t, Kind: "def"})
				return
			}
			body := env.term(f.Body)
			if body.sort != lhs.sort {
				_, body = env.coerce(b.Var("?dummy", lhs.sort), body)
			}
			if f.Kind == "rec" {
				// single-fuel unfolding
				f0 := f.Name + ".0"
				body = b.replaceFn(body, f.Name, f0)
				l0 := b.mk(&Term{op: f0, args: args, sort: lhs.sort})
				e.axioms = append(e.axioms, &Axiom{Name: "def " + f.Name, Syms: []string{f.Name}, T: b.Forall(vs, [][]*Term{{lhs}}, b.And(b.Eq(lhs, body), b.Eq(lhs, l0))), Kind: "def"})
				return
			}
			if len(vs) == 0 {
				e.axioms = append(e.axioms, &Axiom{Name: "def " + f.Name, Syms: []string{f.Name}, T: b.Eq(lhs, body), Kind: "def"})
				return
			}
			e.axioms = append(e.axioms, &Axiom{Name: "def " + f.Name, Syms: []string{f.Name}, T: b.Forall(vs, [][]*Term{{lhs}}, b.Eq(lhs, body)), Kind: "def"})
		}()
	}
	for _, l := range e.spec.Lemmas {
		t, ok := e.lemmaTerm(l)
		if !ok {
			continue
		}
		syms := map[string]bool{}
		for i, p := range l.Pats {
			s := map[string]bool{}
			env, _ := e.lemmaEnv(l)
			for _, n := range p {
				x := env.term(n)
				symsOf(x, s, map[*Term]bool{})
			}
			if i == 0 {
				syms = s
			} else {
				for k := range syms {
					if !s[k] {
						delete(syms, k)
					}
				}
			}
		}
		if len(l.Pats) == 0 {
			symsOf(t, syms, map[*Term]bool{})
		}
		var ss []string
		for s := range syms {
			if _, ok := b.fsorts[s]; ok {
				ss = append(ss, s)
			}
		}
		sort.Strings(ss)
		a := &Axiom{Name: "lemma " + l.Name, Syms: ss, T: t, Kind: "lemma", Local: l.Local}
		if l.By == "axiom" {
			a.Kind = "axiom"
			a.Name = "axiom " + l.Name
		}
		e.axioms = append(e.axioms, a)
		e.lemmaAx[l.Name] = a
	}
	e.numAxioms()
}

// replaceFn renames applications of f to g.
func (b *TB) replaceFn(t *Term, f, g string) *Term {
	memo := map[*Term]*Term{}
	var r func(t *Term) *Term
	r = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if x, ok := memo[t]; ok {
			return x
		}
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = r(a)
		}
		var np [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, a := range p {
				q = append(q, r(a))
			}
			np = append(np, q)
		}
		op := t.op
		if op == f {
			op = g
		}
		x := b.mk(&Term{op: op, name: t.name, ival: t.ival, args: na, sort: t.sort, bvars: t.bvars, pats: np})
		memo[t] = x
		return x
	}
	return r(t)
}

func (e *Engine) lemmaEnv(l *Lemma) (*Env, []*Term) {
	env := &Env{e: e, vars: map[string]*Val{}}
	var vs []*Term
	for i, p := range l.Vars {
		v := e.tb.BVar(fmt.Sprintf("?l%d", i), e.specSort(p.Type))
		vs = append(vs, v)
		env.vars[p.Name] = &Val{Typ: e.specType(p.Type), T: v}
	}
	return env, vs
}
func (e *Engine) lemmaTerm(l *Lemma) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if m, is := r.(evalErr); is {
				if e.mode.Real || e.mode.FP {
					t, ok = nil, false
					return
				}
				panic("lemma " + l.Name + ": " + m.msg)
			}
			panic(r)
		}
	}()
	env, vs := e.lemmaEnv(l)
	body := env.boolean(l.E)
	var pats [][]*Term
	for _, p := range l.Pats {
		var q []*Term
		for _, n := range p {
			q = append(q, env.term(n))
		}
		pats = append(pats, q)
	}
	if len(pats) == 0 {
		pats = e.inferPats(vs, body)
	}
	if l.Name == "imul_comm" { // the term builder orders factors; state the axiom on raw applications
		x, y := vs[0], vs[1]
		a, c := e.tb.App("imul", "Int", x, y), e.tb.App("imul", "Int", y, x)
		return e.tb.mk(&Term{op: "forall", bvars: vs, pats: [][]*Term{{a}}, args: []*Term{e.tb.App("=", "Bool", a, c)}, sort: "Bool"}), true
	}
	return e.tb.Forall(vs, pats, body), true
}

// realAxioms: facts on the functions of package math over the reals.
func (e *Engine) realAxioms() {
	b := e.tb
	x := b.BVar("?x", "Real")
	fn := func(f string, as ...*Term) *Term {
		so := make([]string, len(as))
		for i := range so {
			so[i] = "Real"
		}
		b.Declare(f, "Real", so...)
		return b.mk(&Term{op: f, args: as, sort: "Real"})
	}
	r := func(op string, as ...*Term) *Term { return b.mk(&Term{op: op, args: as, sort: "Real"}) }
	eq := func(a, c *Term) *Term { return b.App("=", "Bool", a, c) }
	lit := func(s string) *Term { return b.Lit(s, "Real") }
	ax := func(name string, syms []string, pat, body *Term) {
		e.axioms = append(e.axioms, &Axiom{Name: "axiom " + name, Syms: syms, T: b.mk(&Term{op: "forall", bvars: []*Term{x}, pats: [][]*Term{{pat}}, args: []*Term{body}, sort: "Bool"}), Kind: "axiom"})
	}
	ex, nex := fn("math.Exp", x), fn("math.Exp", r("-", x))
	ax("exp(x) > 0", []string{"math.Exp"}, ex, b.App("<", "Bool", lit("0.0"), ex))
	ax("exp(x) exp(-x) = 1", []string{"math.Exp"}, ex, eq(r("*", ex, nex), lit("1.0")))
	em := fn("math.Expm1", x)
	ax("expm1(x) = exp(x) - 1", []string{"math.Expm1"}, em, eq(em, r("-", ex, lit("1.0"))))
	ch, th := fn("math.Cosh", x), fn("math.Tanh", x)
	ax("cosh(x) >= 1", []string{"math.Cosh"}, ch, b.App("<=", "Bool", lit("1.0"), ch))
	ax("cosh(x)^2 (1 - tanh(x)^2) = 1", []string{"math.Cosh"}, ch, eq(r("*", r("*", ch, ch), r("-", lit("1.0"), r("*", th, th))), lit("1.0")))
	for _, p := range []struct {
		n string
		t *Term
	}{{"1.0", x}, {"2.0", r("*", x, x)}, {"3.0", r("*", x, r("*", x, x))}} {
		pw := fn("math.Pow", x, lit(p.n))
		ax("pow(x, "+p.n+")", []string{"math.Pow"}, pw, eq(pw, p.t))
	}
	sq := fn("math.Sqrt", x)
	ax("sqrt(x)^2 = x for x >= 0", []string{"math.Sqrt"}, sq, b.App("=>", "Bool", b.App("<=", "Bool", lit("0.0"), x), b.App("and", "Bool", b.App("<=", "Bool", lit("0.0"), sq), eq(r("*", sq, sq), x))))
}

// numAxioms: generic facts on uninterpreted number operations.
func (e *Engine) numAxioms() {
	b := e.tb
	if e.mode.Real {
		e.realAxioms()
		return
	}
	for _, s := range []string{"Num", "F64", "F32"} {
		if e.mode.FP && s != "Num" {
			continue
		}
		x, y := b.BVar("?x", s), b.BVar("?y", s)
		for _, op := range []string{"add", "sub", "neg", "lt"} {
			if op == "neg" {
				b.Declare(op+"."+s, s, s)
			} else if op == "lt" {
				b.Declare(op+"."+s, "Bool", s, s)
			} else {
				b.Declare(op+"."+s, s, s, s)
			}
		}
		ax := func(name string, syms []string, vs []*Term, pat, body *Term) {
			e.axioms = append(e.axioms, &Axiom{Name: "axiom " + name + " on " + s, Syms: syms, T: b.mk(&Term{op: "forall", bvars: vs, pats: [][]*Term{{pat}}, args: []*Term{body}, sort: "Bool"}), Kind: "axiom"})
		}
		zero := e.numLit(s, "0")
		t := b.App("add."+s, s, x, zero)
		ax("x+0=x", []string{"add." + s}, []*Term{x}, t, b.App("=", "Bool", t, x))
		t = b.App("sub."+s, s, x, y)
		ax("x-y=x+(-y)", []string{"sub." + s, "neg." + s}, []*Term{x, y}, t, b.App("=", "Bool", t, b.App("add."+s, s, x, b.App("neg."+s, s, y))))
		t = b.App("lt."+s, "Bool", x, x)
		ax("not x<x", []string{"lt." + s}, []*Term{x}, t, b.App("not", "Bool", t))
		for _, op := range []string{"add", "mul", "eq"} {
			f := op + "." + s
			res := s
			if op == "eq" {
				res = "Bool"
			}
			b.Declare(f, res, s, s)
			l, r := b.App(f, res, x, y), b.App(f, res, y, x)
			e.axioms = append(e.axioms, &Axiom{Name: "axiom " + op + " commutative on " + s, Syms: []string{f}, T: b.mk(&Term{op: "forall", bvars: []*Term{x, y}, pats: [][]*Term{{l}}, args: []*Term{b.App("=", "Bool", l, r)}, sort: "Bool"}), Kind: "axiom"})
		}
	}
}

func (e *Engine) allAxioms() []*Axiom {
	var out []*Axiom
	for _, a := range e.axioms {
		if e.con != nil && len(e.con.Opaque) > 0 && (a.Kind == "def" || a.Kind == "lemma") {
			nm := strings.TrimPrefix(strings.TrimPrefix(a.Name, "def "), "lemma ")
			hid := false
			for _, o := range e.con.Opaque {
				hid = hid || o == nm
			}
			if hid {
				continue
			}
		}
		if a.Local {
			use := false
			if e.con != nil {
				for _, u := range e.con.Uses {
					if "lemma "+u == a.Name {
						use = true
					}
				}
			}
			if !use {
				continue
			}
		}
		out = append(out, a)
	}
	return append(out, e.constAx...)
}

func (e *Engine) quick(st *State, goal *Term) bool {
	if e.noQuick {
		return false
	}
	q := &Query{Facts: st.list(), Goal: goal}
	s := e.Script(q, e.allAxioms(), e.mode)
	r := e.pool.Check(s, 1500, z3opts)
	return r.Sat == "unsat"
}

type FnResult struct {
	Key      string
	Status   string // proved, failed, unsupported, vacuous
	Msg      string
	Failed   []*Obl
	Outs     []string
	NObl     int
	Trivial  int
	NLoops   int
	Rounds   int
	Dur      time.Duration
	Solver   map[string]int
	Inlined  []string
	Uses     []string
	Assumed  []string
	Pos      string
	SolvTime time.Duration
	CandN    int
	AliveN   int
}

func (e *Engine) resetRound() {
	e.tb.fresh = map[string]int{}
	e.typed = map[*Term]bool{}
	e.constAx = nil
	e.hdrs = map[string]bool{}
	e.obls = nil
	e.checks = nil
	e.seq = 0
	e.varSeq = map[*Term]int{}
	e.qn = 0
	e.steps = 0
	e.paths = 0
	e.grew = false
	e.trivial = 0
	e.backEdges = 0
	e.retFacts = nil
	e.inlined = map[string]bool{}
}

func (e *Engine) explore(fn *ssa.Function) {
	e.resetRound()
	b := e.tb
	con := e.con
	st := &State{heap: map[string]*Term{}, alloc: e.alloc0}
	st.add(b.Le(b.Int(0), e.alloc0))
	fr := &Frame{fn: fn, regs: map[ssa.Value]*Val{}, key: shortKey(e.fnKey), li: e.loopsOf(fn)}
	e.entryVars = map[string]*Val{}
	if len(con.Params) != len(fn.Params) {
		unsup("contract %s names %d parameters, function has %d", con.Key, len(con.Params), len(fn.Params))
	}
	for i, p := range fn.Params {
		v := e.freshVal(st, "in."+con.Params[i], p.Type())
		fr.regs[p] = v
		e.entryVars[con.Params[i]] = v
	}
	if recv := fn.Signature.Recv(); recv != nil {
		if _, ok := recv.Type().(*types.Pointer); ok {
			st.add(b.Lt(b.Int(0), fr.regs[fn.Params[0]].T))
		}
	}
	e.entry = st.clone()
	env := &Env{e: e, vars: e.entryVars, st: st, old: e.entry}
	for _, r := range append(append([]Clause{}, con.Requires...), con.Assumes...) {
		st.add(env.boolean(r.E))
	}
	e.entry = st.clone()
	e.entryFacts = st.list()
	e.entrySeq = e.seq
	fr.ret = func(st *State, v *Val) {
		e.curPos = e.retPos
		e.atReturn(st, retype(v, resultType(fn.Signature)))
	}
	e.run(fr, fn.Blocks[0], nil, st)
}

func (e *Engine) atReturn(st *State, v *Val) {
	b := e.tb
	con := e.con
	fixClo := func(v *Val) *Val {
		if v.Clo != nil {
			return &Val{Typ: v.Typ, T: e.cloTerm(v.Clo)}
		}
		return v
	}
	if v.Clo != nil {
		v = fixClo(v)
	}
	for i := range v.F {
		v.F[i] = fixClo(v.F[i])
	}
	e.retFacts = append(e.retFacts, st.list())
	env := &Env{e: e, vars: map[string]*Val{}, st: st, old: e.entry}
	for k, x := range e.entryVars {
		env.vars[k] = x
	}
	e.bindResults(con, env, v)
	base := st.facts
	for _, g := range con.GhostEx {
		e.ghostAssign(st, env, g)
	}
	for i, x := range con.Ensures {
		lab := x.Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		g := env.boolean(x.E)
		for _, gg := range splitGoal(b, g) {
			st.facts = base
			e.oblige(st, "ensures", "postcondition ["+lab+"]", gg)
			e.label(lab)
		}
	}
	st.facts = base
	// frame
	mods := map[string][]ModItem{}
	for _, m := range con.Modifies {
		for _, k := range e.keysFor(m.Key) {
			mods[k] = append(mods[k], m)
		}
	}
	for _, g := range con.GhostEx {
		for _, k := range e.keysFor(g.Key) {
			mods[k] = append(mods[k], ModItem{Key: k})
		}
	}
	for _, k := range sortedKeys(st.heap) {
		h0 := e.hget(e.entry, k)
		h := st.heap[k]
		if h == h0 || strings.HasPrefix(k, "glob.") {
			continue
		}
		all := false
		r := e.freshVar("fr", "Int")
		cs := []*Term{b.Le(b.Int(0), r), b.Le(r, e.alloc0)}
		oenv := &Env{e: e, vars: e.entryVars, st: e.entry, old: e.entry}
		for _, m := range mods[k] {
			switch {
			case m.Ref != nil:
				cs = append(cs, b.Not(b.Eq(r, oenv.term1(m.Ref))))
			case m.Cond != nil:
				cs = append(cs, b.Not(oenv.with(m.Var, &Val{T: r}).boolean(m.Cond)))
			default:
				all = true
			}
		}
		if all {
			continue
		}
		g := b.Eq(b.Select(h, r), b.Select(h0, r))
		st.facts = base
		e.oblige(st, "frame", "frame: only permitted locations of "+k+" change", b.Imp(b.And(cs...), g))
	}
	st.facts = base
}

func (e *Engine) label(l string) {
	if len(e.obls) > 0 {
		e.obls[len(e.obls)-1].Label = l
	}
}

// splitGoal breaks conjunctions (also under one implication) into separate goals.
func splitGoal(b *TB, g *Term) []*Term {
	if g.op == "and" {
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(b, a)...)
		}
		return out
	}
	if g.op == "=>" {
		var out []*Term
		for _, a := range splitGoal(b, g.args[1]) {
			out = append(out, b.Imp(g.args[0], a))
		}
		return out
	}
	if g.op == "forall" && nestsForall(g.args[0]) {
		var out []*Term
		for _, a := range splitGoal(b, g.args[0]) {
			out = append(out, b.mk(&Term{op: "forall", bvars: g.bvars, pats: g.pats, args: []*Term{a}, sort: "Bool"}))
		}
		return out
	}
	return []*Term{g}
}

func nestsForall(t *Term) bool {
	switch t.op {
	case "forall":
		return true
	case "and", "=>":
		for _, a := range t.args {
			if nestsForall(a) {
				return true
			}
		}
	}
	return false
}

// skolemize a universally quantified goal: negation handled by solver, but explicit constants help caching & e-matching.
func (e *Engine) prep(facts []*Term, goal *Term) ([]*Term, *Term) {
	b := e.tb
	n := 0
	for {
		if goal.op == "=>" {
			facts = append(append([]*Term{}, facts...), conj(goal.args[0])...)
			goal = goal.args[1]
			continue
		}
		if goal.op == "forall" {
			m := map[*Term]*Term{}
			for _, v := range goal.bvars {
				n++
				m[v] = b.Var(fmt.Sprintf("sk!%d", n), v.sort)
			}
			goal = b.Subst(goal.args[0], m)
			continue
		}
		return facts, goal
	}
}

func (e *Engine) solve(facts []*Term, goal *Term, tier int) Result {
	e.mu.Lock()
	f, g := e.prep(facts, goal)
	e.mu.Unlock()
	if g.isTrue() {
		return Result{Sat: "unsat", Solver: "simplifier"}
	}
	s := e.scriptLocked(&Query{Facts: f, Goal: g})
	if e.mode.FP || e.mode.Real {
		r := e.pool.Check(s, e.to(tier, 4000, 20000), z3optsAuto)
		if r.Sat != "unsat" && r.Sat != "sat" && tier > 0 {
			if r2 := e.pool.CheckCVC5(s, 30000); r2.Sat == "unsat" {
				return r2
			}
		}
		return r
	}
	r := e.pool.Check(s, e.to(tier, 1200, 6000), z3opts)
	if r.Sat == "unsat" || tier == 0 {
		return r
	}
	if r2 := e.pool.Check(s, 12000, z3optsB); r2.Sat == "unsat" {
		return r2
	}
	if r2 := e.pool.Check(s, 6000, z3optsR0); r2.Sat == "unsat" {
		return r2
	}
	if tier > 1 {
		if e.con != nil && e.con.Opts["lean"] == "2" {
			if r2 := e.pool.CheckCVC5(e.leanScript(&Query{Facts: f, Goal: g}, g), 12000); r2.Sat == "unsat" {
				return r2
			}
		}
		if r2 := e.pool.CheckCVC5(s, 20000); r2.Sat == "unsat" {
			return r2
		}
		if r2 := e.pool.Check(s, 20000, z3optsAuto); r2.Sat == "unsat" {
			return r2
		}
	}
	return r
}
func (e *Engine) to(tier, a, b int) int {
	if tier == 0 {
		return a
	}
	return b
}
func (e *Engine) scriptLocked(q *Query) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.Script(q, e.allAxioms(), e.mode)
}

func (e *Engine) par(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	w := 8
	if n < w {
		w = n
	}
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				f(j)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func (e *Engine) verify(key string) (res *FnResult) {
	res = e.verify1(key)
	if res.Status == "failed" && res.NLoops > 0 {
		// again with more time for the candidate invariants
		d := res.Dur
		e.loops = map[string]*LoopInfo{}
		e.phase = 1
		res = e.verify1(key)
		res.Dur += d
	}
	return
}

func (e *Engine) verify1(key string) (res *FnResult) {
	start := time.Now()
	res = &FnResult{Key: key, Status: "proved", Solver: map[string]int{}}
	defer func() {
		res.Dur = time.Since(start)
		res.Inlined = sortedKeys(e.inlined)
		res.Uses = sortedKeys(e.consUsed)
		res.Assumed = sortedKeys(e.assumed)
		if r := recover(); r != nil {
			switch m := r.(type) {
			case unsupported:
				res.Status, res.Msg = "unsupported", m.msg+" ("+e.posStr()+")"
			case evalErr:
				res.Status, res.Msg = "unsupported", "contract: "+m.msg
			default:
				if os.Getenv("GOVER_PANIC") != "" {
					panic(r)
				}
				res.Status, res.Msg = "unsupported", fmt.Sprint("internal: ", r)
			}
		}
	}()
	fn := e.pr.funcs[key]
	con := e.spec.Contracts[key]
	e.fnKey, e.con = key, con
	if fn == nil || len(fn.Blocks) == 0 {
		unsup("function %s not found in the repository", key)
	}
	res.Pos = posOf(fn, e.pr)
	e.curPos = fn.Pos()
	for round := 0; ; round++ {
		if round > 60 {
			unsup("invariant inference did not converge")
		}
		res.Rounds = round + 1
		e.noQuick = true
		for i := 0; ; i++ {
			if i > 30 {
				unsup("modification sets did not converge")
			}
			e.explore(fn)
			if !e.grew {
				break
			}
		}
		e.noQuick = false
		e.explore(fn)
		if e.grew {
			continue
		}
		if e.houdini() {
			break
		}
		if e.debug {
			e.dumpAlive(round)
		}
	}
	res.NLoops = len(e.loops)
	for _, l := range e.loops {
		res.CandN += l.total
		res.AliveN += l.total - len(l.dead)
	}
	if e.debug {
		e.dumpAlive(99)
	}
	// vacuity
	if r := e.solve(e.entryFacts, e.tb.False(), 0); r.Sat == "unsat" {
		res.Status, res.Msg = "vacuous", "preconditions are contradictory"
		return
	}
	if len(e.retFacts) == 0 {
		if con.Opts["noreturn"] == "" {
			res.Status, res.Msg = "vacuous", "no return reached"
			return
		}
	} else {
		okr := false
		bad := 0
		for _, f := range e.retFacts {
			if r := e.solve(f, e.tb.False(), 0); r.Sat != "unsat" {
				okr = true
				break
			}
			bad++
		}
		if !okr {
			res.Status, res.Msg = "vacuous", "every return is unreachable under the contract"
			return
		}
	}
	// obligations
	obls := e.obls
	out := make([]Result, len(obls))
	e.par(len(obls), func(i int) { out[i] = e.solve(obls[i].Facts, obls[i].Goal, 1) })
	// second chance with every back end, serially less loaded
	var redo []int
	for i := range out {
		if out[i].Sat != "unsat" {
			redo = append(redo, i)
		}
	}
	if len(redo) > 0 && len(redo) <= 12 && (e.phase > 0 || len(e.loops) == 0 || len(redo) <= 3) {
		if e.debug {
			for _, i := range redo {
				fmt.Println("  slow:", obls[i].Kind, obls[i].Name, obls[i].Pos)
			}
		}
		e.par(len(redo), func(j int) {
			i := redo[j]
			out[i] = e.solve(obls[i].Facts, obls[i].Goal, 2)
		})
	}
	res.NObl = len(obls)
	res.Trivial = e.trivial
	for i, o := range obls {
		res.SolvTime += out[i].Dur
		if out[i].Sat == "unsat" {
			res.Solver[out[i].Solver]++
			continue
		}
		res.Failed = append(res.Failed, o)
		res.Outs = append(res.Outs, fmt.Sprintf("%s: %s", out[i].Sat, strings.TrimSpace(out[i].Out)))
		if d := os.Getenv("GOVER_KEEP"); d != "" {
			f, g := e.prep(o.Facts, o.Goal)
			os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", d, sanitize(key), i), []byte(z3opts+"; "+o.Name+" at "+o.Pos+"\n"+e.scriptLocked(&Query{Facts: f, Goal: g})+"(check-sat)\n"), 0644)
		}
	}
	if len(res.Failed) > 0 {
		res.Status = "failed"
		res.Msg = fmt.Sprintf("%d of %d obligations not discharged", len(res.Failed), len(obls))
	} else if len(obls)+e.trivial == 0 {
		res.Status, res.Msg = "vacuous", "no obligations generated"
	}
	return
}

// houdini checks all candidate obligations once; reports whether none failed.
func (e *Engine) houdini() bool {
	// group by (loop, facts identity)
	type grp struct {
		cs []*CandCheck
	}
	var groups []*grp
	idx := map[string]*grp{}
	for _, c := range e.checks {
		k := fmt.Sprintf("%p|%p|%d", c.loop, firstPtr(c.facts), len(c.facts))
		g := idx[k]
		if g == nil || len(g.cs) >= 40 {
			g = &grp{}
			idx[k] = g
			groups = append(groups, g)
		}
		g.cs = append(g.cs, c)
	}
	// pass 1: each group as one conjunction
	open := make([]bool, len(groups))
	e.par(len(groups), func(i int) {
		cs := groups[i].cs
		if len(cs) == 1 {
			open[i] = true
			return
		}
		var gs []*Term
		e.mu.Lock()
		for _, c := range cs {
			gs = append(gs, c.goal)
		}
		goal := e.tb.And(gs...)
		e.mu.Unlock()
		s := e.scriptLocked(&Query{Facts: cs[0].facts, Goal: goal})
		if r := e.pool.Check(s, 1000, z3opts); r.Sat != "unsat" {
			open[i] = true
		}
	})
	// pass 2: the candidates of the failed groups one by one
	var single []*CandCheck
	for i, g := range groups {
		if open[i] {
			single = append(single, g.cs...)
		}
	}
	fails := make([][]*CandCheck, len(single))
	var kmu sync.Mutex
	killed := map[string]bool{}
	e.par(len(single), func(i int) {
		c := single[i]
		ck := fmt.Sprintf("%p|%s", c.loop, c.cand.key)
		kmu.Lock()
		skip := killed[ck]
		kmu.Unlock()
		if skip {
			return
		}
		e.mu.Lock()
		f, gl := e.prep(c.facts, c.goal)
		e.mu.Unlock()
		s := e.scriptLocked(&Query{Facts: f, Goal: gl})
		to := e.candTO()
		if e.phase == 0 && strings.HasPrefix(c.cand.key, "c:") && to < 2000 {
			to = 2000
		}
		var r Result
		if strings.HasPrefix(c.cand.key, "c:") && e.con.Opts["lean"] != "" {
			// first without the definitions and lemmas the candidate itself does not speak about
			r = e.pool.check1("z3-new", e.leanScript(&Query{Facts: f, Goal: gl}, c.goal), 1500, z3opts)
		}
		if r.Sat != "unsat" {
			r = e.pool.Check(s, to, z3opts)
		}
		if r.Sat != "unsat" && r.Sat != "sat" && len(c.sib) > 0 {
			var fs []*Term
			for _, x := range c.facts {
				if !c.sib[x] {
					fs = append(fs, x)
				}
			}
			if len(fs) < len(c.facts) {
				e.mu.Lock()
				f, gl := e.prep(fs, c.goal)
				e.mu.Unlock()
				r = e.pool.Check(e.scriptLocked(&Query{Facts: f, Goal: gl}), to, z3opts)
			}
		}
		if r.Sat != "unsat" && r.Sat != "sat" && strings.HasPrefix(c.cand.key, "c:") && e.con.Opts["lean"] == "2" && !strings.Contains(c.cand.key, ",") {
			r = e.pool.CheckCVC5(e.leanScript(&Query{Facts: f, Goal: gl}, c.goal), 8000)
		}
		if r.Sat != "unsat" {
			fails[i] = append(fails[i], c)
			if d := os.Getenv("GOVER_KEEP"); d != "" && strings.HasPrefix(c.cand.key, "c:") {
				if e.con.Opts["lean"] != "" {
					os.WriteFile(fmt.Sprintf("%s/lean_%s_%s_%d.smt2", d, sanitize(c.cand.key), c.where, e.phase), []byte(z3opts+e.leanScript(&Query{Facts: f, Goal: gl}, c.goal)+"(check-sat)\n"), 0644)
				}
				os.WriteFile(fmt.Sprintf("%s/cand_%s_%s_%d.smt2", d, sanitize(c.cand.key), c.where, e.phase), []byte(z3opts+s+"(check-sat)\n"), 0644)
			}
			kmu.Lock()
			killed[ck] = true
			kmu.Unlock()
		}
	})
	ok := true
	for _, fs := range fails {
		for _, c := range fs {
			c.loop.dead[c.cand.key] = true
			ok = false
			if e.debug {
				fmt.Printf("  kill %s %s (%s)\n", c.loop.pos, c.cand.key, c.where)
			}
		}
	}
	return ok
}
// leanScript drops the definitions and lemmas about symbols the goal does not mention (dropping facts is sound).
func (e *Engine) leanScript(q *Query, goal *Term) string {
	e.mu.Lock()
	defer e.mu.Unlock()
	gs := map[string]bool{}
	symsOf(goal, gs, map[*Term]bool{})
	var ax []*Axiom
	used := map[*Axiom]bool{}
	all := e.allAxioms()
	seen := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, a := range all {
			if used[a] {
				continue
			}
			if a.Kind == "def" || a.Kind == "lemma" {
				ok := true
				for _, s := range a.Syms {
					if _, user := e.tb.fsorts[s]; user && !gs[s] {
						ok = false
					}
				}
				if !ok {
					continue
				}
				symsOf(a.T, gs, seen)
			}
			used[a] = true
			ch = true
			ax = append(ax, a)
		}
	}
	return e.Script(q, ax, e.mode)
}

func (e *Engine) candTO() int {
	if e.con != nil && e.con.Opts["candms"] != "" {
		var n int
		fmt.Sscan(e.con.Opts["candms"], &n)
		return n
	}
	if e.phase == 0 {
		return 500
	}
	return 3000
}
func firstPtr(f []*Term) *Term {
	if len(f) == 0 {
		return nil
	}
	return f[len(f)-1]
}
func (e *Engine) dumpAlive(round int) {
	fmt.Printf("-- round %d loops %d checks %d obls %d\n", round, len(e.loops), len(e.checks), len(e.obls))
	if round == 99 {
		for _, k := range sortedKeys(e.loops) {
			l := e.loops[k]
			fmt.Printf("  loop %s at %s mods %v\n", k, l.pos, sortedKeys(l.mods))
		}
		seen := map[string]bool{}
		for _, c := range e.checks {
			if !seen[c.loop.pos+c.cand.key] {
				seen[c.loop.pos+c.cand.key] = true
				fmt.Printf("    alive %s: %s\n", c.loop.pos, c.cand.key)
			}
		}
	}
}
