package main

// The per-property check: contracts of the property, the contracts they rely on, the lemmas,
// then the replay harness; evidence and VIOLATION lines.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type checkCfg struct {
	prop, repo, cdir, vdir, tier string
	seed                         int64
	noReplay                     bool
	verbose                      bool
}

type checker struct {
	cfg    checkCfg
	pr     *Prog
	sp     *Spec
	pool   *Pool
	mu     sync.Mutex
	res    map[string]*FnResult
	drop   map[string]bool // advisory contracts that are dropped (callee inlined)
	dropBy map[string]string
	log    *bytes.Buffer
}

func (c *checker) logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	c.mu.Lock()
	c.log.WriteString(s)
	c.mu.Unlock()
	if c.cfg.verbose {
		fmt.Print(s)
	}
}

func (c *checker) verifyOne(k string) *FnResult {
	con := c.sp.Contracts[k]
	m := Mode{Real: con.Mode == "real", FP: con.Mode == "fp"}
	e := NewEngine(c.pr, c.sp, c.pool, c.cfg.repo, m)
	c.mu.Lock()
	for d := range c.drop {
		e.inlineSet[d] = true
	}
	c.mu.Unlock()
	e.setup()
	return e.verify(k)
}

// runAll verifies the contracts of the property and everything they rely on.
func (c *checker) runAll(roots []string) {
	type job struct{ k string }
	queue := append([]string{}, roots...)
	state := map[string]string{} // "", queued, done
	for _, k := range roots {
		state[k] = "queued"
	}
	const conc = 3
	for {
		var wg sync.WaitGroup
		sem := make(chan struct{}, conc)
		for len(queue) > 0 {
			batch := queue
			queue = nil
			for _, k := range batch {
				k := k
				wg.Add(1)
				sem <- struct{}{}
				go func() {
					defer wg.Done()
					defer func() { <-sem }()
					r := c.verifyOne(k)
					c.mu.Lock()
					c.res[k] = r
					c.mu.Unlock()
					c.logf("%-50s %-11s obligations=%d trivial=%d loops=%d time=%v %s\n", k, r.Status, r.NObl, r.Trivial, r.NLoops, r.Dur.Round(time.Millisecond), r.Msg)
					for i, o := range r.Failed {
						c.logf("    undischarged: %s at %s: %s [%s]\n", o.Kind, o.Pos, o.Name, r.Outs[i])
					}
				}()
			}
			wg.Wait()
			for _, k := range batch {
				state[k] = "done"
				for _, u := range c.res[k].Uses {
					cu := c.sp.Contracts[u]
					if cu == nil || cu.Iface || cu.Trusted != "" || cu.NoVerify || state[u] != "" || c.drop[u] {
						continue
					}
					state[u] = "queued"
					queue = append(queue, u)
				}
			}
		}
		// advisory contracts that do not hold: inline the callee instead
		var bad []string
		for k, r := range c.res {
			if r.Status != "proved" && c.sp.Contracts[k].Advisory && !c.drop[k] {
				bad = append(bad, k)
			}
		}
		if len(bad) == 0 {
			return
		}
		sort.Strings(bad)
		for _, k := range bad {
			c.drop[k] = true
			c.dropBy[k] = c.res[k].Status + ": " + c.res[k].Msg
			delete(c.res, k)
			c.logf("advisory contract of %s not established; verifying its callers with the body inlined\n", k)
		}
		for k, r := range c.res {
			for _, u := range r.Uses {
				if c.drop[u] {
					queue = append(queue, k)
					break
				}
			}
		}
		sort.Strings(queue)
		for _, k := range queue {
			delete(c.res, k)
		}
	}
}

// lemmaNeeds: the lemmas that the verified contracts may have used.
func (c *checker) lemmaNeeds() []*Lemma {
	need := map[string]bool{}
	for _, l := range c.sp.Lemmas {
		if !l.Local {
			need[l.Name] = true
		}
		for _, p := range l.Props {
			if p == c.cfg.prop {
				need[l.Name] = true
			}
		}
	}
	for k := range c.res {
		for _, u := range c.sp.Contracts[k].Uses {
			need[u] = true
		}
	}
	by := map[string]*Lemma{}
	for _, l := range c.sp.Lemmas {
		by[l.Name] = l
	}
	for ch := true; ch; {
		ch = false
		for n := range need {
			if l := by[n]; l != nil {
				for _, u := range l.Uses {
					if !need[u] {
						need[u] = true
						ch = true
					}
				}
			}
		}
	}
	var out []*Lemma
	for _, l := range c.sp.Lemmas {
		if need[l.Name] {
			out = append(out, l)
		}
	}
	return out
}

type replayOut struct {
	OK       bool   `json:"ok"`
	Ran      bool   `json:"-"`
	Cases    int    `json:"cases"`
	Distinct int    `json:"distinct"`
	Msg      string `json:"msg"`
	Input    string `json:"input"`
	Note     string `json:"-"`
	Sample   string `json:"sample"`
}

// replay builds the harness against the repository and runs the property's oracle.
func (c *checker) replay(budget int, focus string) replayOut {
	src := filepath.Join(c.cfg.vdir, "replay")
	if _, err := os.Stat(filepath.Join(src, "go.mod")); err != nil {
		return replayOut{OK: true, Note: "no replay harness"}
	}
	tmp, err := os.MkdirTemp("", "gover-replay")
	if err != nil {
		return replayOut{OK: true, Note: err.Error()}
	}
	defer os.RemoveAll(tmp)
	mod, _ := os.ReadFile(filepath.Join(src, "go.mod"))
	mod = append(mod, []byte("\nreplace github.com/julioguillermo/godeep => "+c.cfg.repo+"\n")...)
	os.WriteFile(filepath.Join(tmp, "go.mod"), mod, 0644)
	os.WriteFile(filepath.Join(tmp, "go.sum"), nil, 0644)
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off")
	bin := filepath.Join(tmp, "replay")
	cmd := exec.Command("go", "build", "-modfile="+filepath.Join(tmp, "go.mod"), "-o", bin, ".")
	cmd.Dir = src
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return replayOut{OK: true, Note: "replay harness does not build against the repository: " + string(out)}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(budget)*time.Second*2+60*time.Second)
	defer cancel()
	work := filepath.Join(tmp, "w")
	os.Mkdir(work, 0755)
	cmd = exec.CommandContext(ctx, bin, "-prop", c.cfg.prop, "-seed", fmt.Sprint(c.cfg.seed), "-budget", fmt.Sprint(budget))
	cmd.Dir = work
	cmd.Env = append(env, "TMPDIR="+work)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	rerr := cmd.Run()
	var r replayOut
	lines := strings.Split(strings.TrimSpace(so.String()), "\n")
	for i := len(lines) - 1; i >= 0; i-- {
		if strings.HasPrefix(lines[i], "{") {
			if json.Unmarshal([]byte(lines[i]), &r) == nil {
				r.Ran = true
				return r
			}
		}
	}
	if ctx.Err() != nil {
		return replayOut{OK: false, Ran: true, Msg: "the replay did not terminate (a call of the library hangs)", Input: tail(so.String(), 2000)}
	}
	return replayOut{OK: false, Ran: true, Msg: "the replay crashed: " + fmt.Sprint(rerr), Input: tail(so.String(), 1000) + "\n" + tail(se.String(), 4000)}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runCheck(cfg checkCfg) int {
	start := time.Now()
	c := &checker{cfg: cfg, res: map[string]*FnResult{}, drop: map[string]bool{}, dropBy: map[string]string{}, log: &bytes.Buffer{}}
	evDir := filepath.Join(cfg.vdir, "evidence")
	os.MkdirAll(evDir, 0755)
	logPath := filepath.Join(evDir, cfg.prop+".log")
	repPath := filepath.Join(evDir, cfg.prop+".replay.txt")
	os.Remove(repPath)
	os.Remove(logPath)
	var proofErr []string
	ev := map[string]any{"property": cfg.prop, "tier": cfg.tier, "seed": cfg.seed, "level": "proof"}
	cov := map[string]any{}
	pr, err := loadProg(cfg.repo)
	if err != nil {
		fmt.Println("the repository does not load:", err)
		return 2
	}
	c.pr = pr
	sp, err := loadSpec(cfg.cdir)
	if err != nil {
		fmt.Println("contracts:", err)
		return 2
	}
	c.sp = sp
	c.pool = NewPool(8)
	defer c.pool.Close()

	var roots, bounded []string
	for _, k := range sp.Order {
		con := sp.Contracts[k]
		if con.Bounded != "" {
			for _, p := range con.Props {
				if p == cfg.prop {
					bounded = append(bounded, k+": "+con.Bounded)
				}
			}
		}
		if con.Iface || con.Trusted != "" || con.NoVerify {
			continue
		}
		for _, p := range con.Props {
			if p != cfg.prop {
				continue
			}
			if con.Advisory && pr.funcs[k] == nil {
				c.drop[k] = true
				c.dropBy[k] = "not present in the repository"
				continue
			}
			roots = append(roots, k)
		}
	}
	for k, con := range sp.Contracts {
		if con.Advisory && pr.funcs[k] == nil {
			c.drop[k] = true
		}
	}
	// replay in parallel with the proof would compete for cores: run it first, short
	qb := 4
	if cfg.tier == "thorough" {
		qb = 60
	}
	rp := replayOut{OK: true, Note: "skipped"}
	if !cfg.noReplay {
		rp = c.replay(qb, "")
	}
	limit := 640 * time.Second
	if !rp.OK {
		limit = 150 * time.Second // the failing input is known: name the obligations that fall in reasonable time
	}
	c.pool.end = start.Add(limit)
	if len(roots) > 0 {
		c.runAll(roots)
	}
	c.pool.end = time.Now().Add(60 * time.Second)
	lemmas := c.lemmaNeeds()
	lres := make([]*LemmaResult, len(lemmas))
	{
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i, l := range lemmas {
			i, l := i, l
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer wg.Done()
				lres[i] = proveLemma(pr, sp, c.pool, cfg.repo, l)
				<-sem
			}()
		}
		wg.Wait()
	}
	cons := c.consistency()

	obl, dis := 0, 0
	var fns []map[string]any
	assumed := map[string]bool{}
	solv := map[string]int{}
	var solvTime time.Duration
	inl := map[string]bool{}
	var keys []string
	for k := range c.res {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	loops := 0
	for _, k := range keys {
		r := c.res[k]
		loops += r.NLoops
		n := r.NObl + r.Trivial
		obl += n
		dis += n - len(r.Failed)
		solvTime += r.SolvTime
		for s, m := range r.Solver {
			solv[s] += m
		}
		solv["simplifier"] += r.Trivial
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		for _, i := range r.Inlined {
			inl[i] = true
		}
		fns = append(fns, map[string]any{"function": k, "at": r.Pos, "status": r.Status, "obligations": n, "undischarged": len(r.Failed), "loops": r.NLoops, "seconds": round2(r.Dur.Seconds())})
		if r.Status != "proved" {
			if len(r.Failed) == 0 {
				obl++
				proofErr = append(proofErr, fmt.Sprintf("%s (%s): %s: %s", k, r.Pos, r.Status, r.Msg))
			}
			for i, o := range r.Failed {
				proofErr = append(proofErr, fmt.Sprintf("%s: %s at %s: %s — solver: %s", k, o.Kind, o.Pos, o.Name, r.Outs[i]))
			}
		}
	}
	nl := 0
	axn := []string{}
	for i, l := range lemmas {
		r := lres[i]
		switch r.Status {
		case "axiom":
			axn = append(axn, l.Name)
		case "proved":
			nl++
			obl++
			dis++
			solv[r.Solver]++
		default:
			obl++
			proofErr = append(proofErr, "lemma "+l.Name+": "+r.Status+" "+r.Msg)
		}
	}
	if cons != "" {
		proofErr = append(proofErr, cons)
	}
	trusted := []string{"the verifier /verif/gover (Go SSA to SMT translation, golang.org/x/tools/go/ssa) and the SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"machine integers treated as mathematical (no overflow); unsigned subtraction and conversion to unsigned wrap",
		"the generic element type is an uninterpreted number domain (facts used: x+0=x, x-y=x+(-y), not x<x, commutativity of + * ==), NaN and the sign of zero excepted",
		"termination is not proved (partial correctness)"}
	for _, k := range sp.Order {
		con := sp.Contracts[k]
		if con.Trusted != "" && c.used(k) {
			trusted = append(trusted, "assumed contract: "+k+" ("+con.Trusted+")")
		}
	}
	for _, a := range axn {
		trusted = append(trusted, "axiom "+a)
	}
	if k := "tensor.(Tensor).BuildGraph"; c.used(k) {
		for _, b := range sp.Order {
			if sp.Contracts[b].Bounded != "" && strings.HasSuffix(b, ".BuildGraph") {
				trusted = append(trusted, "contract of "+k+" for the implementation "+b+" (checked by bounded replay only, in C14)")
			}
		}
	}
	var as []string
	for a := range assumed {
		as = append(as, a)
	}
	sort.Strings(as)
	var inls []string
	for i := range inl {
		inls = append(inls, i)
	}
	sort.Strings(inls)
	cov["obligations"] = obl
	cov["discharged"] = dis
	cov["checker_cmd"] = fmt.Sprintf("/verif/check.sh %s", cfg.prop)
	cov["trusted_base"] = trusted
	cov["functions_under_contract"] = fns
	cov["functions_inlined"] = inls
	cov["lemmas_proved"] = nl
	cov["loops_with_inferred_invariants"] = loops
	cov["discharged_by"] = solv
	cov["solver_queries"] = c.pool.queries
	cov["solver_seconds"] = round2(float64(c.pool.nanos) / 1e9)
	if len(c.dropBy) > 0 {
		cov["advisory_contracts_dropped"] = c.dropBy
	}
	rc := 0
	viol := 0
	if len(proofErr) > 0 && rp.OK && rp.Ran {
		// look harder for a failing input
		b := 40
		if cfg.tier == "thorough" {
			b = 120
		}
		c.logf("proof failed; searching for a failing input for up to %d s\n", b)
		first := rp
		rp = c.replay(b, "")
		rp.Cases += first.Cases
	}
	cov["bounded_replay"] = map[string]any{"label": "bounded: exported-API runs against an independent oracle, not counted as proved", "cases": rp.Cases, "distinct": rp.Distinct, "ok": rp.OK, "note": rp.Note, "sample": rp.Sample}
	if !rp.OK {
		rc, viol = 1, 1
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s is violated by the code in %s\nfailing input (replayed against the real code): %s\n%s\n", cfg.prop, cfg.repo, rp.Msg, rp.Input)
		fmt.Fprintf(&sb, "rerun: cd %s && ./check.sh %s   (seed %d)\n", cfg.vdir, cfg.prop, cfg.seed)
		for _, e := range proofErr {
			fmt.Fprintf(&sb, "undischarged obligation: %s\n", e)
		}
		os.WriteFile(repPath, []byte(sb.String()), 0644)
		fmt.Printf("failing input: %s\n", rp.Msg)
		for _, e := range proofErr {
			fmt.Println("undischarged:", e)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.prop, repPath)
	} else if len(proofErr) > 0 {
		rc, viol = 1, len(proofErr)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations generated from the code in %s are not discharged; no failing input was found\n", cfg.prop, cfg.repo)
		if rp.Note != "" {
			fmt.Fprintf(&sb, "replay: %s\n", rp.Note)
		} else {
			fmt.Fprintf(&sb, "replay: %d cases agreed with the oracle\n", rp.Cases)
		}
		for _, e := range proofErr {
			fmt.Fprintf(&sb, "undischarged obligation: %s\n", e)
		}
		sb.WriteString("\nverifier output:\n" + c.log.String())
		os.WriteFile(repPath, []byte(sb.String()), 0644)
		for _, e := range proofErr {
			fmt.Println("undischarged:", e)
		}
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", cfg.prop, repPath)
	}
	if len(bounded) > 0 {
		ev["level"] = "exploration"
		cov["bounded_stand_in_for"] = bounded
		cov["evaluations"] = rp.Cases
		cov["distinct_nontrivial"] = rp.Distinct
		cov["rule"] = "random expressions over tensors of rank 1-6 with dimensions of 1 to 64 elements, five element types, executed three times with changing inputs and compared with an independent reference; distinct by the expression with its values. The helper functions of the property are proved (obligations), the functions named under bounded_stand_in_for are not"
		cov["samples"] = []string{rp.Sample}
	}
	ev["coverage"] = cov
	ev["assumptions"] = as
	ev["wall_s"] = round2(time.Since(start).Seconds())
	ev["violations"] = viol
	d, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, cfg.prop+".json"), append(d, '\n'), 0644)
	os.WriteFile(logPath, c.log.Bytes(), 0644)
	for _, l := range knownFindings(cfg.vdir, cfg.prop) {
		fmt.Println(l)
	}
	if rc == 0 {
		fmt.Printf("%s: %d of %d obligations discharged over %d functions and %d lemmas; %d replay cases; %.0f s\n", cfg.prop, dis, obl, len(keys), nl, rp.Cases, time.Since(start).Seconds())
		if rp.Note != "" {
			fmt.Println("replay:", rp.Note)
		}
	}
	return rc
}

func round2(f float64) float64 { return float64(int64(f*100)) / 100 }

func (c *checker) used(k string) bool {
	for _, r := range c.res {
		for _, u := range r.Uses {
			if u == k {
				return true
			}
		}
	}
	return false
}

// consistency: the background axioms and lemmas must not prove false.
func (c *checker) consistency() string {
	e := NewEngine(c.pr, c.sp, c.pool, c.cfg.repo, Mode{})
	e.setup()
	var ax []*Axiom
	syms := map[string]bool{}
	for _, a := range e.axioms {
		ax = append(ax, a)
		for _, s := range a.Syms {
			syms[s] = true
		}
	}
	b := e.tb
	var facts []*Term
	for _, a := range ax {
		facts = append(facts, a.T)
	}
	s := e.Script(&Query{Facts: facts, Goal: b.False()}, nil, e.mode)
	if r := c.pool.Check(s, 3000, z3opts); r.Sat == "unsat" {
		return "the background axioms are contradictory"
	}
	return ""
}

// knownFindings returns the lines to print for the recorded, unrepaired findings.
func knownFindings(vdir, prop string) []string {
	d, err := os.ReadFile(filepath.Join(vdir, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(d), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: property="+prop+" ") {
			out = append(out, l)
		}
	}
	return out
}
