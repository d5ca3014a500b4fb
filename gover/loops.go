package main

// Loops: havoc, candidate invariants (Houdini), frame candidates.

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type LoopInfo struct {
	id      int
	mods    map[string]bool
	targets map[string]map[string]*Term
	dead    map[string]bool
	alloc   bool
	pos     string
	total   int
}

type Cand struct {
	key  string
	eval func(lc *loopCtx) *Term
}
type loopCtx struct {
	st   *State
	phis map[*ssa.Phi]*Val
}
type activeLoop struct {
	key      string
	frameKey string
	head     *ssa.BasicBlock
	body     map[*ssa.BasicBlock]bool
	info     *LoopInfo
	seq      int
	entry    *State
	headHeap map[string]*Term
	headAl   *Term
	headTerm map[*Cand]*Term
	phiHead  map[*ssa.Phi]*Val
	entryPhi map[*ssa.Phi]*Val
	phis     []*ssa.Phi
	cands    []*Cand
	pos      string
}

type CandCheck struct {
	loop  *LoopInfo
	cand  *Cand
	facts []*Term
	goal  *Term
	where string
	sib   map[*Term]bool // assumed instances of the same template with other bindings
}

func (e *Engine) invariantIn(t *Term, l *activeLoop) bool {
	seen := map[*Term]bool{}
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		if t.op == "var" && e.varSeq[t] > l.seq {
			return false
		}
		for _, a := range t.args {
			if !ok(a) {
				return false
			}
		}
		return true
	}
	return ok(t)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Engine) enterLoop(fr *Frame, blk, pred *ssa.BasicBlock, st *State) {
	b := e.tb
	h := sha256.Sum256([]byte(st.path))
	key := fmt.Sprintf("%s/L%d@%x", fr.key, fr.li.ord[blk], h[:6])
	info := e.loops[key]
	if info == nil {
		info = &LoopInfo{id: len(e.loops), mods: map[string]bool{}, targets: map[string]map[string]*Term{}, dead: map[string]bool{}}
		e.loops[key] = info
	}
	info.pos = e.posStr()
	al := &activeLoop{key: key, frameKey: fr.key, head: blk, body: fr.li.headers[blk], info: info, pos: e.posStr()}
	al.entryPhi = e.phiVals(fr, blk, pred)
	al.entry = st.clone()
	al.seq = e.seq
	for _, in := range blk.Instrs {
		if ph, ok := in.(*ssa.Phi); ok {
			al.phis = append(al.phis, ph)
		} else {
			break
		}
	}
	// havoc
	if info.alloc {
		a := e.freshVar("lal", "Int")
		st.add(b.Le(st.alloc, a))
		st.alloc = a
	}
	for _, k := range sortedKeys(info.mods) {
		if _, ok := e.keys[k]; !ok {
			continue
		}
		st.heap[k] = e.freshHeap("lp", k, st.alloc)
	}
	al.phiHead = map[*ssa.Phi]*Val{}
	for _, ph := range al.phis {
		ev := al.entryPhi[ph]
		if ev.Clo != nil || ev.Addr != nil {
			unsup("loop-carried pointer/closure")
		}
		v := e.freshVal(st, "phi."+ph.Name()+"."+ph.Comment, ph.Type())
		al.phiHead[ph] = v
	}
	// havocking one nested loop's contract-modified keys is covered by mods discovery
	fr = fr.clone()
	for _, ph := range al.phis {
		fr.regs[ph] = al.phiHead[ph]
	}
	al.cands = e.makeCands(fr, al)
	entryCtx := &loopCtx{st: al.entry, phis: al.entryPhi}
	headCtx := &loopCtx{st: st, phis: al.phiHead}
	efacts := al.entry.list()
	var alive []*Cand
	al.headTerm = map[*Cand]*Term{}
	info.total = 0
	for _, c := range al.cands {
		info.total++
		if info.dead[c.key] {
			continue
		}
		ge := c.eval(entryCtx)
		gh := c.eval(headCtx)
		if ge == nil || gh == nil {
			info.dead[c.key] = true
			continue
		}
		alive = append(alive, c)
		al.headTerm[c] = gh
		if !ge.isTrue() {
			e.checks = append(e.checks, &CandCheck{loop: info, cand: c, facts: efacts, goal: ge, where: "entry"})
		}
		st.add(gh)
	}
	al.cands = alive
	al.headHeap = map[string]*Term{}
	for k, v := range st.heap {
		al.headHeap[k] = v
	}
	al.headAl = st.alloc
	st.loops = append(st.loops, al)
	e.runFrom(fr, blk, e.firstNonPhi(blk), st)
}

func (e *Engine) backEdge(fr *Frame, blk, pred *ssa.BasicBlock, st *State) {
	if len(st.loops) == 0 {
		panic("back edge without loop")
	}
	al := st.loops[len(st.loops)-1]
	if al.head != blk || al.frameKey != fr.key {
		unsup("irreducible control flow")
	}
	vals := e.phiVals(fr, blk, pred)
	for k := range st.heap {
		hh, ok := al.headHeap[k]
		if !ok {
			hh = e.hget(&State{heap: map[string]*Term{}}, k)
		}
		if st.heap[k] != hh && !al.info.mods[k] {
			al.info.mods[k] = true
			e.grew = true
		}
	}
	if st.alloc != al.headAl && !al.info.alloc {
		al.info.alloc = true
		e.grew = true
	}
	ctx := &loopCtx{st: st, phis: vals}
	facts := st.list()
	for _, c := range al.cands {
		g := c.eval(ctx)
		if g == nil {
			if !al.info.dead[c.key] {
				al.info.dead[c.key] = true
				e.grew = true
			}
			continue
		}
		if g.isTrue() {
			continue
		}
		e.checks = append(e.checks, &CandCheck{loop: al.info, cand: c, facts: facts, goal: g, where: "step", sib: e.siblings(al, c)})
	}
	e.backEdges++
}

// scoped values visible at a loop head
type scoped struct {
	name string
	get  func(lc *loopCtx) *Val
	typ  types.Type
	val  *Val
	phi  *ssa.Phi
	call bool // the result of a (non-builtin) call
}

func template(key string) string {
	if !strings.HasPrefix(key, "c:") {
		return ""
	}
	return strings.SplitN(key, ",", 2)[0]
}

func (e *Engine) siblings(al *activeLoop, c *Cand) map[*Term]bool {
	tp := template(c.key)
	if tp == "" {
		return nil
	}
	m := map[*Term]bool{}
	for o, t := range al.headTerm {
		if o != c && template(o.key) == tp {
			for _, x := range conj(t) {
				m[x] = true
			}
		}
	}
	for _, x := range conj(al.headTerm[c]) {
		delete(m, x)
	}
	return m
}

func isCall(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	_, bi := c.Call.Value.(*ssa.Builtin)
	return !bi
}

func (e *Engine) makeCands(fr *Frame, al *activeLoop) []*Cand {
	b := e.tb
	var out []*Cand
	add := func(key string, f func(lc *loopCtx) *Term) {
		out = append(out, &Cand{key, f})
	}
	// in-scope values, innermost frame first
	var sc []scoped
	seen := map[string]bool{}
	isPhi := map[ssa.Value]bool{}
	for _, ph := range al.phis {
		isPhi[ph] = true
	}
	for f := fr; f != nil; f = f.parent {
		type rv struct {
			n string
			v ssa.Value
		}
		var rs []rv
		for v := range f.regs {
			if isPhi[v] {
				continue
			}
			rs = append(rs, rv{v.Name(), v})
		}
		sort.Slice(rs, func(i, j int) bool {
			if len(rs[i].n) != len(rs[j].n) {
				return len(rs[i].n) < len(rs[j].n)
			}
			return rs[i].n < rs[j].n
		})
		for _, r := range rs {
			val := f.regs[r.v]
			if val.Addr != nil || val.Clo != nil || (val.T == nil && val.S == nil) {
				continue
			}
			// dedupe by term
			id := ""
			if val.S != nil {
				id = fmt.Sprint("s", val.S.Arr.id, ",", val.S.Off.id, ",", val.S.Len.id)
			} else {
				id = fmt.Sprint("t", val.T.id)
			}
			if seen[id] {
				continue
			}
			seen[id] = true
			v := val
			sc = append(sc, scoped{fmt.Sprintf("%s@%d", r.n, f.depth), func(*loopCtx) *Val { return v }, r.v.Type(), v, nil, isCall(r.v)})
		}
	}
	// named heap-reachable slices: fields of in-scope struct pointers are reached through contract cands
	for _, ph := range al.phis {
		p := ph
		sc = append(sc, scoped{p.Name() + "@phi", func(lc *loopCtx) *Val { return lc.phis[p] }, p.Type(), al.phiHead[p], p, false})
	}
	// ---- automatic candidates
	type bound struct {
		n   string
		get func(lc *loopCtx) *Term
	}
	var bounds []bound
	for _, s := range sc {
		s := s
		if s.phi != nil {
			continue
		}
		if s.val.S != nil {
			bounds = append(bounds, bound{"len(" + s.name + ")", func(lc *loopCtx) *Term { return s.get(lc).S.Len }})
		} else if s.val.T.sort == "Int" && isInteger(s.typ) && !s.val.T.isInt() {
			bounds = append(bounds, bound{s.name, func(lc *loopCtx) *Term { return s.get(lc).T }})
		}
	}
	// only bounds the loop compares with or indexes by
	rel := map[*Term]bool{}
	look := func(v ssa.Value) {
		if x, ok := fr.regs[v]; ok && x != nil {
			if x.T != nil {
				rel[x.T] = true
			}
			if x.S != nil {
				rel[x.S.Len] = true
			}
		} else if _, ok := v.(*ssa.Const); ok {
			return
		} else if c, ok := v.(*ssa.Call); ok { // len(x) evaluated in the loop
			if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				if x, ok := fr.regs[c.Call.Args[0]]; ok && x != nil && x.S != nil {
					rel[x.S.Len] = true
				}
			}
		} else if c, ok := v.(*ssa.Convert); ok {
			if x, ok := fr.regs[c.X]; ok && x != nil && x.T != nil {
				rel[x.T] = true
			}
		}
	}
	for blk := range al.body {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				look(x.X)
				look(x.Y)
			case *ssa.IndexAddr:
				look(x.X)
			case *ssa.Slice:
				look(x.X)
			case *ssa.Call:
				if x.Call.Signature() != nil {
					for _, a := range x.Call.Args {
						look(a)
					}
				}
			}
		}
	}
	{
		var bs []bound
		seen := map[*Term]bool{}
		lc := &loopCtx{st: al.entry, phis: al.entryPhi}
		for _, x := range bounds {
			t := x.get(lc)
			if seen[t] || !rel[t] {
				continue
			}
			seen[t] = true
			bs = append(bs, x)
		}
		bounds = bs
	}
	var iphis []*ssa.Phi
	for _, ph := range al.phis {
		v := al.phiHead[ph]
		if v.T != nil && v.T.sort == "Int" && isInteger(ph.Type()) {
			iphis = append(iphis, ph)
		}
	}
	for _, ph := range iphis {
		p := ph
		init := al.entryPhi[p].T
		add("auto:"+p.Name()+">=init", func(lc *loopCtx) *Term { return b.Le(init, lc.phis[p].T) })
		add("auto:"+p.Name()+"<=init", func(lc *loopCtx) *Term { return b.Le(lc.phis[p].T, init) })
		add("auto:"+p.Name()+"==init", func(lc *loopCtx) *Term { return b.Eq(lc.phis[p].T, init) })
		add("auto:"+p.Name()+">=-1", func(lc *loopCtx) *Term { return b.Le(b.Int(-1), lc.phis[p].T) })
		add("auto:"+p.Name()+">=0", func(lc *loopCtx) *Term { return b.Le(b.Int(0), lc.phis[p].T) })
		for _, x := range bounds {
			x := x
			add("auto:"+p.Name()+"<="+x.n, func(lc *loopCtx) *Term { return b.Le(lc.phis[p].T, x.get(lc)) })
			add("auto:"+p.Name()+"<"+x.n, func(lc *loopCtx) *Term { return b.Lt(lc.phis[p].T, x.get(lc)) })
		}
	}
	for i := range iphis {
		for j := range iphis {
			if i == j {
				continue
			}
			p, q := iphis[i], iphis[j]
			d := b.Sub(al.entryPhi[p].T, al.entryPhi[q].T)
			if i < j {
				add("auto:"+p.Name()+"-"+q.Name()+"const", func(lc *loopCtx) *Term { return b.Eq(b.Sub(lc.phis[p].T, lc.phis[q].T), d) })
				s := b.Add(al.entryPhi[p].T, al.entryPhi[q].T)
				add("auto:"+p.Name()+"+"+q.Name()+"const", func(lc *loopCtx) *Term { return b.Eq(b.Add(lc.phis[p].T, lc.phis[q].T), s) })
			}
			add("auto:"+p.Name()+"<="+q.Name(), func(lc *loopCtx) *Term { return b.Le(lc.phis[p].T, lc.phis[q].T) })
		}
	}
	for _, ph := range al.phis {
		p := ph
		hv := al.phiHead[p]
		if hv.S != nil {
			ev := al.entryPhi[p].S
			add("auto:"+p.Name()+".off==init", func(lc *loopCtx) *Term { return b.Eq(lc.phis[p].S.Off, ev.Off) })
			add("auto:"+p.Name()+".arr==init", func(lc *loopCtx) *Term { return b.Eq(lc.phis[p].S.Arr, ev.Arr) })
			add("auto:"+p.Name()+".cap==init", func(lc *loopCtx) *Term { return b.Eq(lc.phis[p].S.Cap, ev.Cap) })
			add("auto:"+p.Name()+".len==init", func(lc *loopCtx) *Term { return b.Eq(lc.phis[p].S.Len, ev.Len) })
			add("auto:"+p.Name()+".fresh", func(lc *loopCtx) *Term {
				return b.Or(b.Lt(e.alloc0, lc.phis[p].S.Arr), b.Eq(lc.phis[p].S.Cap, b.Int(0)))
			})
			for _, q := range iphis {
				q := q
				d := b.Sub(ev.Len, al.entryPhi[q].T)
				add("auto:len("+p.Name()+")-"+q.Name(), func(lc *loopCtx) *Term { return b.Eq(b.Sub(lc.phis[p].S.Len, lc.phis[q].T), d) })
			}
		}
	}
	// frames
	for _, k := range sortedKeys(al.info.mods) {
		k := k
		if e.keys[k].sort == "" {
			continue
		}
		ehp := e.hget(al.entry, k)
		h0 := e.hget(e.entry, k)
		frame := func(cur, ref *Term, lim *Term, exc []*Term) *Term {
			if cur == ref {
				return b.True()
			}
			r := b.BVar("?q0_0", "Int")
			x := b.App("select", elemSort(cur.sort), cur, r)
			cs := []*Term{b.Le(b.Int(0), r), b.Le(r, lim)}
			for _, t := range exc {
				cs = append(cs, b.Not(b.Eq(r, t)))
			}
			var pats [][]*Term
			if cur.op == "var" {
				pats = append(pats, []*Term{x})
			}
			return b.Forall([]*Term{r}, pats, b.Imp(b.And(cs...), b.Eq(x, b.Select(ref, r))))
		}
		if h0 != ehp {
			add("frame1:"+k, func(lc *loopCtx) *Term { return frame(e.hget(lc.st, k), h0, e.alloc0, nil) })
		}
		add("frame2:"+k, func(lc *loopCtx) *Term { return frame(e.hget(lc.st, k), ehp, al.entry.alloc, nil) })
		if e.alloc0 != al.entry.alloc {
			add("frame0:"+k, func(lc *loopCtx) *Term { return frame(e.hget(lc.st, k), ehp, e.alloc0, nil) })
		}
		{ // the contract's own frame condition
			oenv := &Env{e: e, vars: e.entryVars, st: e.entry, old: e.entry}
			r := b.BVar("?q0_0", "Int")
			cs := []*Term{b.Le(b.Int(0), r), b.Le(r, e.alloc0)}
			ok := false
			for _, m := range e.con.Modifies {
				for _, mk := range e.keysFor(m.Key) {
					if mk != k {
						continue
					}
					switch {
					case m.Ref != nil:
						ok = true
						cs = append(cs, b.Not(b.Eq(r, oenv.term1(m.Ref))))
					case m.Cond != nil:
						ok = true
						cs = append(cs, b.Not(oenv.with(m.Var, &Val{T: r}).boolean(m.Cond)))
					}
				}
			}
			if ok {
				add("framec:"+k, func(lc *loopCtx) *Term {
					cur := e.hget(lc.st, k)
					if cur == h0 {
						return b.True()
					}
					x := b.App("select", elemSort(cur.sort), cur, r)
					var pats [][]*Term
					if cur.op == "var" {
						pats = append(pats, []*Term{x})
					}
					return b.Forall([]*Term{r}, pats, b.Imp(b.And(cs...), b.Eq(x, b.Select(h0, r))))
				})
			}
		}
		var exc []*Term
		en := ""
		for _, tk := range sortedKeys(al.info.targets[k]) {
			if t := al.info.targets[k][tk]; t != nil {
				exc = append(exc, t)
				en += tk + ";"
			}
		}
		if len(exc) > 0 && len(exc) < 8 {
			add("framex:"+k+en, func(lc *loopCtx) *Term { return frame(e.hget(lc.st, k), ehp, al.entry.alloc, exc) })
			if h0 != ehp {
				add("framex0:"+k+en, func(lc *loopCtx) *Term { return frame(e.hget(lc.st, k), h0, e.alloc0, exc) })
			}
		}
	}
	// ---- contract candidates
	for _, ct := range e.con.Cands {
		e.instCand(ct, sc, al, fr, &out)
	}
	return out
}

// instCand instantiates a candidate template over scoped values.
func (e *Engine) instCand(ct CandT, sc []scoped, al *activeLoop, fr *Frame, out *[]*Cand) {
	b := e.tb
	type bnd struct {
		n   string
		get func(lc *loopCtx) *Val
	}
	choices := make([][]bnd, len(ct.Vars))
	for i, v := range ct.Vars {
		switch v.Type {
		case "idx", "phi", "idx0", "ridx":
			for _, ph := range al.phis {
				p := ph
				hv := al.phiHead[p]
				if hv.T == nil || hv.T.sort != "Int" || !isInteger(p.Type()) {
					continue
				}
				if v.Type != "ridx" {
					choices[i] = append(choices[i], bnd{p.Name(), func(lc *loopCtx) *Val { return lc.phis[p] }})
				}
				if v.Type == "idx" || v.Type == "ridx" {
					choices[i] = append(choices[i], bnd{p.Name() + "+1", func(lc *loopCtx) *Val { return &Val{T: b.Add(lc.phis[p].T, b.Int(1))} }})
				}
			}
		case "oidx":
			// indices of enclosing loops, innermost first
			for li := len(al.entry.loops) - 1; li >= 0; li-- {
				ol := al.entry.loops[li]
				for _, p := range ol.phis {
					hv := ol.phiHead[p]
					if hv.T == nil || hv.T.sort != "Int" || !isInteger(p.Type()) {
						continue
					}
					t := hv.T
					choices[i] = append(choices[i], bnd{fmt.Sprintf("o%d.%s", li, p.Name()), func(*loopCtx) *Val { return &Val{T: t} }})
					choices[i] = append(choices[i], bnd{fmt.Sprintf("o%d.%s+1", li, p.Name()), func(*loopCtx) *Val { return &Val{T: b.Add(t, b.Int(1))} }})
				}
			}
		case "phinum":
			for _, ph := range al.phis {
				p := ph
				if hv := al.phiHead[p]; hv.T != nil && (isNumSort(hv.T.sort) || hv.T.sort == "Real") {
					choices[i] = append(choices[i], bnd{p.Name(), func(lc *loopCtx) *Val { return lc.phis[p] }})
				}
			}
		case "phibv":
			for _, ph := range al.phis {
				p := ph
				if hv := al.phiHead[p]; hv.T != nil && hv.T.sort == "(_ BitVec 32)" {
					choices[i] = append(choices[i], bnd{p.Name(), func(lc *loopCtx) *Val { return lc.phis[p] }})
				}
			}
		case "phiref":
			for _, ph := range al.phis {
				p := ph
				if hv := al.phiHead[p]; hv.T != nil && hv.T.sort == "Int" && !isInteger(p.Type()) {
					choices[i] = append(choices[i], bnd{p.Name(), func(lc *loopCtx) *Val { return lc.phis[p] }})
				}
			}
		case "num":
			for _, s := range sc {
				if s.val.T != nil && isNumSort(s.val.T.sort) {
					choices[i] = append(choices[i], bnd{s.name, s.get})
				}
			}
		case "int":
			for _, s := range sc {
				if s.val.T != nil && s.val.T.sort == "Int" && isInteger(s.typ) && !s.val.T.isInt() {
					choices[i] = append(choices[i], bnd{s.name, s.get})
				}
			}
		case "ints", "refs", "nums", "f64s", "cints":
			for _, s := range sc {
				if s.val.S == nil {
					continue
				}
				el := s.typ.Underlying().(*types.Slice).Elem()
				cls := ""
				if cs := e.comps(el); len(cs) == 1 {
					cls = cs[0].class
				}
				ok := v.Type == "cints" && s.call && (cls == "uint" || cls == "int") || v.Type == "ints" && (cls == "uint" || cls == "int") || v.Type == "refs" && cls == "ref" || v.Type == "nums" && cls == "num" || v.Type == "f64s" && cls == "f64"
				if ok && (s.phi != nil || e.notEntry(s.val.S.Arr)) {
					choices[i] = append(choices[i], bnd{s.name, s.get})
				}
			}
		default:
			if strings.Contains(v.Type, ".") { // pointer to named type
				want := v.Type
				for _, s := range sc {
					if s.val.T == nil {
						continue
					}
					if pt, ok := s.typ.(*types.Pointer); ok && structName(pt) == want {
						choices[i] = append(choices[i], bnd{s.name, s.get})
					}
				}
				break
			}
			panic(evalErr{ct.Pos + ": unknown candidate variable kind " + v.Type})
		}
		if len(choices[i]) > 12 {
			choices[i] = choices[i][:12]
		}
	}
	pick := make([]bnd, len(ct.Vars))
	n := 0
	var rec func(i int)
	rec = func(i int) {
		if n > 150 {
			return
		}
		if i == len(ct.Vars) {
			n++
			ps := append([]bnd{}, pick...)
			name := "c:" + ct.Pos
			for _, p := range ps {
				name += "," + p.n
			}
			*out = append(*out, &Cand{name, func(lc *loopCtx) (t *Term) {
				defer func() {
					if r := recover(); r != nil {
						if er, ok := r.(evalErr); ok {
							if e.debug {
								fmt.Println("cand", name, er.msg)
							}
							t = nil
							return
						}
						if er, ok := r.(unsupported); ok {
							if e.debug {
								fmt.Println("cand", name, er.msg)
							}
							t = nil
							return
						}
						panic(r)
					}
				}()
				env := &Env{e: e, vars: map[string]*Val{}, st: lc.st, old: e.entry, pre: al.entry}
				for k, v := range e.entryVars {
					env.vars[k] = v
				}
				for j, p := range ps {
					env.vars[ct.Vars[j].Name] = p.get(lc)
				}
				return env.boolean(ct.E)
			}})
			return
		}
		for _, c := range choices[i] {
			pick[i] = c
			rec(i + 1)
		}
	}
	rec(0)
}

// notEntry reports whether t is not determined by the entry state alone (it is
// made, returned by a call, or read back from a changed heap).
func (e *Engine) notEntry(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t == e.alloc0 || t.op == "var" && e.varSeq[t] > e.entrySeq || t.op == "store" {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}
