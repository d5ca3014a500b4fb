package main

// SMT script generation and a pool of persistent solver processes.

import (
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Axiom struct {
	Name  string
	Syms  []string // include when all of these symbols occur in the query
	T     *Term
	Kind  string // "def", "axiom", "lemma"
	Local bool
}

type Query struct {
	Facts []*Term
	Goal  *Term // to be proved
}

type Mode struct {
	Real bool // Num/F64/F32 are Real
	FP   bool // floats are FloatingPoint, ints bit-vectors
}

func symsOf(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.op {
	case "var":
		out["var:"+t.name] = true
	case "bvar", "lit", "int":
	case "sv":
		out["sv."+sortTag(t.sort)] = true
	default:
		out[t.op] = true
	}
	for _, a := range t.args {
		symsOf(a, out, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			symsOf(x, out, seen)
		}
	}
}

// Script renders the query.
func (e *Engine) Script(q *Query, axioms []*Axiom, mode Mode) string {
	b := e.tb
	asserts := append([]*Term{}, q.Facts...)
	if q.Goal != nil {
		asserts = append(asserts, b.Not(q.Goal))
	}
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	for _, a := range asserts {
		symsOf(a, syms, seen)
	}
	var ax []*Term
	used := map[*Axiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, x := range axioms {
			if used[x] {
				continue
			}
			ok := true
			for _, s := range x.Syms {
				if !syms[s] {
					ok = false
				}
			}
			if ok {
				used[x] = true
				ax = append(ax, x.T)
				symsOf(x.T, syms, seen)
				ch = true
			}
		}
	}
	all := append(append([]*Term{}, ax...), asserts...)
	// count refs, collect vars and sorts
	ref := map[*Term]int{}
	vars := map[string]*Term{}
	sorts := map[string]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		ref[t]++
		if ref[t] > 1 {
			return
		}
		sorts[t.sort] = true
		if t.op == "var" {
			vars[t.name] = t
		}
		for _, v := range t.bvars {
			sorts[v.sort] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range all {
		walk(a)
	}
	for v := range syms {
		if s, ok := b.fsorts[v]; ok {
			sorts[s] = true
			for _, a := range b.fargs[v] {
				sorts[a] = true
			}
		}
	}
	var sb strings.Builder
	if !mode.Real && !mode.FP {
		for _, s := range []string{"Num", "F32", "F64"} {
			sb.WriteString("(declare-sort " + s + " 0)\n")
		}
	} else if mode.Real {
		for _, s := range []string{"Num", "F32", "F64"} {
			sb.WriteString("(define-sort " + s + " () Real)\n")
		}
	} else {
		sb.WriteString("(declare-sort Num 0)\n(define-sort F32 () (_ FloatingPoint 8 24))\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	}
	// slice views
	var svs []string
	for s := range syms {
		if strings.HasPrefix(s, "sv.") {
			svs = append(svs, s)
		}
	}
	sort.Strings(svs)
	for _, s := range svs {
		as := e.svSort[s]
		if as == "" {
			for x := range sorts {
				if strings.HasPrefix(x, "(Array") && "sv."+sortTag(x) == s {
					as = x
				}
			}
		}
		es := elemSort(as)
		sb.WriteString(fmt.Sprintf("(declare-fun %s (%s Int) %s)\n", s, as, as))
		sb.WriteString(fmt.Sprintf("(assert (forall ((A %s)(o Int)(k Int)) (! (= (select (%s A o) k) (select A (+ o k))) :pattern ((select (%s A o) k)))))\n", as, s, s))
		sb.WriteString(fmt.Sprintf("(assert (forall ((A %s)(o Int)(x Int)(v %s)) (! (= (%s (store A x v) o) (store (%s A o) (- x o) v)) :pattern ((%s (store A x v) o)))))\n", as, es, s, s, s))
		sb.WriteString(fmt.Sprintf("(assert (forall ((A %s)) (! (= (%s A 0) A) :pattern ((%s A 0)))))\n", as, s, s))
	}
	var fs []string
	for s := range syms {
		if _, ok := b.fsorts[s]; ok && !e.native[s] {
			fs = append(fs, s)
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		sb.WriteString("(declare-fun " + f + " (" + strings.Join(b.fargs[f], " ") + ") " + b.fsorts[f] + ")\n")
	}
	var vn []string
	for n := range vars {
		vn = append(vn, n)
	}
	sort.Strings(vn)
	for _, n := range vn {
		sb.WriteString("(declare-const |" + n + "| " + vars[n].sort + ")\n")
	}
	names := map[*Term]string{}
	i := 0
	for _, t := range order {
		if ref[t] > 1 && !t.bound && len(t.args) > 0 {
			i++
			n := fmt.Sprintf("$%d", i)
			sb.WriteString("(define-fun " + n + " () " + t.sort + " ")
			writeTerm(&sb, t, names)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, a := range all {
		sb.WriteString("(assert ")
		writeTerm(&sb, a, names)
		sb.WriteString(")\n")
	}
	return sb.String()
}

type Result struct {
	Sat    string // "unsat","sat","unknown"
	Solver string
	Dur    time.Duration
	Out    string
}

var solverName = map[string]string{"z3-new": "z3 5.3.2", "z3": "z3 4.8.12"}

type worker struct {
}

type Pool struct {
	n       int
	ch      chan *worker
	mu      sync.Mutex
	cache   map[[32]byte]Result
	queries int64
	nanos   int64
	bySolv  map[string]int
	end     time.Time // no query starts after this
}

func NewPool(n int) *Pool {
	p := &Pool{n: n, ch: make(chan *worker, n), cache: map[[32]byte]Result{}, bySolv: map[string]int{}}
	for i := 0; i < n; i++ {
		p.ch <- &worker{}
	}
	return p
}

// run starts a fresh solver process for every query, so results do not depend on what ran before.
func (w *worker) run(bin, script string, ms int, opts string) (string, error) {
	full := opts + fmt.Sprintf("(set-option :timeout %d)\n", ms) + script + "(check-sat)\n"
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond*3/2+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-in", "-smt2")
	cmd.Stdin = strings.NewReader(full)
	out, err := cmd.Output()
	if ctx.Err() != nil {
		return "timeout", nil
	}
	if err != nil && len(out) > 0 {
		err = nil // z3 exits 1 after reporting (error ...)
	}
	return string(out), err
}

const z3optsR0 = "(set-option :smt.relevancy 0)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"
const z3opts = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.arith.solver 2)\n"
const z3optsB = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 6)\n(set-option :smt.random_seed 7)\n"
const z3optsAuto = ""

// Check runs one query. With the default options it goes through a small portfolio
// (z3 5.3.2 and z3 4.8.12, with and without relevancy filtering), first with small time limits.
func (p *Pool) Check(script string, ms int, opts string) Result {
	if ab := abstractFP(script); ab != "" {
		if q := p.check1("z3-new", ab, 2000, z3opts); q.Sat == "unsat" {
			return q
		}
	}
	if opts != z3opts {
		return p.check1("z3-new", script, ms, opts)
	}
	type conf struct{ bin, opts string }
	confs := []conf{{"z3-new", z3opts}, {"z3", z3opts}, {"z3-new", z3optsR0}}
	small := 300
	if ms < 2*small {
		small = ms / 2
	}
	var r Result
	for round, t := range []int{small, ms} {
		var next []conf
		for i, c := range confs {
			if round == 1 && i > 0 && ms < 1500 {
				break
			}
			q := p.check1(c.bin, script, t, c.opts)
			if q.Sat == "unsat" || q.Sat == "sat" || q.Sat == "error" {
				return q
			}
			if i == 0 || r.Solver == "" {
				r = q
			}
			// a configuration that gave up on its own will not do better with more time
			if int(q.Dur.Milliseconds()) >= t*3/4 {
				next = append(next, c)
			}
		}
		confs = next
	}
	return r
}

// abstractFP replaces floating-point arithmetic by uninterpreted functions (weaker, so only "unsat" counts).
func abstractFP(script string) string {
	ab := script
	for _, op := range []string{"add", "sub", "mul", "div"} {
		ab = strings.ReplaceAll(ab, "(fp."+op+" RNE ", "(u."+op+" ")
	}
	if ab == script {
		return ""
	}
	var d strings.Builder
	for _, op := range []string{"add", "sub", "mul", "div"} {
		for _, f := range []string{"(_ FloatingPoint 8 24)", "(_ FloatingPoint 11 53)"} {
			fmt.Fprintf(&d, "(declare-fun u.%s (%s %s) %s)\n", op, f, f, f)
		}
	}
	return d.String() + ab
}

func (p *Pool) check1(bin, script string, ms int, opts string) Result {
	key := sha256.Sum256([]byte(bin + opts + fmt.Sprint(ms) + script))
	p.mu.Lock()
	if r, ok := p.cache[key]; ok {
		p.mu.Unlock()
		return r
	}
	p.mu.Unlock()
	w := <-p.ch
	if !p.end.IsZero() {
		left := int(time.Until(p.end).Milliseconds())
		if left <= 0 {
			p.ch <- w
			return Result{Sat: "unknown", Solver: solverName[bin], Out: "out of time"}
		}
		if ms > left+1000 {
			ms = left + 1000
		}
	}
	st := time.Now()
	out, err := w.run(bin, script, ms, opts)
	d := time.Since(st)
	if err != nil {
		out = "error " + err.Error() + out
	}
	p.ch <- w
	atomic.AddInt64(&p.queries, 1)
	atomic.AddInt64(&p.nanos, int64(d))
	r := Result{Sat: "unknown", Dur: d, Solver: solverName[bin], Out: out}
	lines := strings.Split(strings.TrimSpace(out), "\n")
	last := lines[len(lines)-1]
	if strings.Contains(out, "(error") {
		r.Sat = "error"
	} else if last == "unsat" || last == "sat" {
		r.Sat = last
	}
	if r.Sat == "error" && os.Getenv("GOVER_DUMP") != "" {
		os.WriteFile(fmt.Sprintf("/tmp/gover_err_%x.smt2", key[:4]), []byte(opts+script+"(check-sat)\n"), 0644)
		fmt.Fprintln(os.Stderr, "SMT error:", out)
	}
	p.mu.Lock()
	p.cache[key] = r
	p.mu.Unlock()
	return r
}

// CheckCVC5 runs cvc5 once on the script.
func (p *Pool) CheckCVC5(script string, ms int) Result {
	w := <-p.ch // hold a slot
	defer func() { p.ch <- w }()
	if !p.end.IsZero() && time.Now().After(p.end) {
		return Result{Sat: "unknown", Solver: "cvc5 1.1.2", Out: "out of time"}
	}
	st := time.Now()
	cmd := exec.Command("cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", ms), "-q")
	cmd.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := cmd.CombinedOutput()
	d := time.Since(st)
	atomic.AddInt64(&p.queries, 1)
	atomic.AddInt64(&p.nanos, int64(d))
	r := Result{Sat: "unknown", Dur: d, Solver: "cvc5 1.1.2", Out: string(out)}
	s := strings.TrimSpace(string(out))
	if s == "unsat" || s == "sat" {
		r.Sat = s
	}
	return r
}

func (p *Pool) Close() {
	for i := 0; i < p.n; i++ {
		<-p.ch
	}
}
