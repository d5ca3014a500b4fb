package main

// Symbolic execution of go/ssa function bodies, generating proof obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newBig(s string) *big.Int {
	z, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad integer " + s)
	}
	return z
}

type factList struct {
	t    *Term
	prev *factList
}

type State struct {
	heap  map[string]*Term
	alloc *Term
	facts *factList
	loops []*activeLoop
	path  string
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, alloc: s.alloc, facts: s.facts, loops: append([]*activeLoop{}, s.loops...), path: s.path}
}
func (s *State) add(t *Term) {
	if t.isTrue() {
		return
	}
	for _, x := range conj(t) {
		s.facts = &factList{x, s.facts}
	}
}
func (s *State) has(t *Term) bool {
	for f := s.facts; f != nil; f = f.prev {
		if f.t == t {
			return true
		}
	}
	return false
}
func (s *State) list() []*Term {
	var out []*Term
	for f := s.facts; f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Val
	parent *Frame
	key    string
	depth  int
	ret    func(st *State, v *Val)
	li     *loopInfoFn
}

func (f *Frame) clone() *Frame {
	r := make(map[ssa.Value]*Val, len(f.regs))
	for k, v := range f.regs {
		r[k] = v
	}
	c := *f
	c.regs = r
	return &c
}

type Obl struct {
	Name  string
	Kind  string
	Pos   string
	Facts []*Term
	Goal  *Term
	Fn    string
	Label string
}

type loopInfoFn struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	ord     map[*ssa.BasicBlock]int
}

func findLoops(fn *ssa.Function) *loopInfoFn {
	li := &loopInfoFn{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ord: map[*ssa.BasicBlock]int{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := li.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li.headers[s] = body
					li.ord[s] = len(li.ord)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return li
}

const maxPaths = 3000

func (e *Engine) budget() {
	e.steps++
	if e.steps > 400000 {
		unsup("too many execution steps")
	}
}

// run executes fn's body from block blk.
func (e *Engine) run(fr *Frame, blk, pred *ssa.BasicBlock, st *State) {
	e.budget()
	// leave loops that do not contain blk
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.frameKey == fr.key && !l.body[blk] {
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	if body, ok := fr.li.headers[blk]; ok && pred != nil {
		if body[pred] { // back edge
			e.backEdge(fr, blk, pred, st)
			return
		}
		e.enterLoop(fr, blk, pred, st)
		return
	}
	if pred != nil {
		e.setPhis(fr, blk, pred)
	}
	e.runFrom(fr, blk, e.firstNonPhi(blk), st)
}

func (e *Engine) firstNonPhi(blk *ssa.BasicBlock) int {
	i := 0
	for i < len(blk.Instrs) {
		if _, ok := blk.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}
func predIndex(blk, pred *ssa.BasicBlock) int {
	for i, p := range blk.Preds {
		if p == pred {
			return i
		}
	}
	panic("pred")
}
func (e *Engine) phiVals(fr *Frame, blk, pred *ssa.BasicBlock) map[*ssa.Phi]*Val {
	out := map[*ssa.Phi]*Val{}
	pi := predIndex(blk, pred)
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out[ph] = e.value(fr, ph.Edges[pi])
	}
	return out
}
func (e *Engine) setPhis(fr *Frame, blk, pred *ssa.BasicBlock) {
	for ph, v := range e.phiVals(fr, blk, pred) {
		fr.regs[ph] = v
	}
}

func (e *Engine) runFrom(fr *Frame, blk *ssa.BasicBlock, i int, st *State) {
	for ; i < len(blk.Instrs); i++ {
		e.budget()
		in := blk.Instrs[i]
		e.curPos = in.Pos()
		switch x := in.(type) {
		case *ssa.If:
			c := e.value(fr, x.Cond).T
			yes, no := blk.Succs[0], blk.Succs[1]
			yp, np := blk, blk
			// short-circuit && and || of side-effect-free conditions: one branch, not two
			for !c.isTrue() && !c.isFalse() && !st.has(c) && !st.has(e.tb.Not(c)) {
				if c2, ok := e.pureCond(fr, st, yes, no, np, 1); ok {
					c = e.tb.And(c, c2)
					yp = yes
					yes = yes.Succs[0]
				} else if c2, ok := e.pureCond(fr, st, no, yes, yp, 0); ok {
					c = e.tb.Or(c, c2)
					np = no
					no = no.Succs[1]
				} else {
					break
				}
			}
			e.branch(fr, st, c, func(fr *Frame, st *State) { e.run(fr, yes, yp, st) },
				func(fr *Frame, st *State) { e.run(fr, no, np, st) })
			return
		case *ssa.Jump:
			e.run(fr, blk.Succs[0], blk, st)
			return
		case *ssa.Return:
			var rs []*Val
			for _, r := range x.Results {
				rs = append(rs, e.value(fr, r))
			}
			var v *Val
			switch len(rs) {
			case 0:
				v = &Val{F: []*Val{}}
			case 1:
				v = rs[0]
			default:
				v = &Val{F: rs}
			}
			e.retPos = x.Pos()
			fr.ret(st, v)
			return
		case *ssa.Panic:
			e.oblige(st, "panic", "panic unreachable", e.tb.False())
			return
		case *ssa.Call:
			idx := i
			e.call(fr, st, x.Common(), x, func(st *State, v *Val) {
				f2 := fr.clone()
				f2.regs[x] = v
				e.runFrom(f2, blk, idx+1, st)
			})
			return
		case *ssa.Defer:
			fn := x.Call.StaticCallee()
			if fn == nil || e.pr.inRepo(fn) {
				unsup("defer of repository code")
			}
		case *ssa.RunDefers:
		case *ssa.Slice:
			idx := i
			_ = idx
			fr.regs[x] = e.sliceOp(fr, st, x)
		default:
			e.instr(fr, st, in)
		}
	}
}

// pureCond: block b (with one predecessor) consists of side-effect-free total integer/boolean
// instructions and an If whose successor number same is other (entered also from opred, with equal phis).
// It then evaluates b's registers and returns its condition.
func (e *Engine) pureCond(fr *Frame, st *State, b, other, opred *ssa.BasicBlock, same int) (*Term, bool) {
	if len(b.Preds) != 1 || len(b.Succs) != 2 || b.Succs[same] != other || b.Succs[1-same] == other || b == other {
		return nil, false
	}
	if _, ok := fr.li.headers[b]; ok {
		return nil, false
	}
	if _, ok := fr.li.headers[other]; ok {
		return nil, false
	}
	n := len(b.Instrs)
	br, ok := b.Instrs[n-1].(*ssa.If)
	if !ok {
		return nil, false
	}
	for _, in := range b.Instrs[:n-1] {
		switch x := in.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
				if bt, ok := x.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
					return nil, false
				}
			default:
				return nil, false
			}
		case *ssa.Call:
			bi, ok := x.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return nil, false
			}
			if _, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
				return nil, false
			}
		case *ssa.Convert:
			f, ok1 := x.X.Type().Underlying().(*types.Basic)
			t, ok2 := x.Type().Underlying().(*types.Basic)
			if !ok1 || !ok2 || f.Info()&types.IsInteger == 0 || t.Info()&types.IsInteger == 0 {
				return nil, false
			}
		case *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	i1, i2 := predIndex(other, b), predIndex(other, opred)
	for _, in := range other.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if ph.Edges[i1] != ph.Edges[i2] {
			return nil, false
		}
	}
	for _, in := range b.Instrs[:n-1] {
		if x, ok := in.(*ssa.Call); ok {
			fr.regs[x] = &Val{Typ: x.Type(), T: e.value(fr, x.Call.Args[0]).S.Len}
			continue
		}
		e.instr(fr, st, in)
	}
	return e.value(fr, br.Cond).T, true
}

func (e *Engine) branch(fr *Frame, st *State, c *Term, yes, no func(*Frame, *State)) {
	nc := e.tb.Not(c)
	if c.isTrue() || st.has(c) {
		yes(fr, st)
		return
	}
	if c.isFalse() || st.has(nc) {
		no(fr, st)
		return
	}
	e.paths++
	if e.paths > maxPaths {
		unsup("too many paths")
	}
	s1, f1 := st.clone(), fr.clone()
	s1.add(c)
	s1.path += "T"
	if !e.infeasible(s1) {
		yes(f1, s1)
	}
	s2, f2 := st.clone(), fr.clone()
	s2.add(nc)
	s2.path += "F"
	if !e.infeasible(s2) {
		no(f2, s2)
	}
}

// infeasible is a cheap syntactic check only.
func (e *Engine) infeasible(st *State) bool {
	if st.facts != nil && st.facts.t.isFalse() {
		return true
	}
	return false
}

func (e *Engine) oblige(st *State, kind, name string, goal *Term) {
	if goal.isTrue() || st.has(goal) {
		e.trivial++
		return
	}
	e.obls = append(e.obls, &Obl{Name: name, Kind: kind, Pos: e.posStr(), Facts: st.list(), Goal: goal, Fn: e.fnKey})
	st.add(goal)
}
func (e *Engine) posStr() string {
	p := e.pr.prog.Fset.Position(e.curPos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, e.repo+"/"), p.Line)
}

// ---- values ----

func (e *Engine) constVal(c *ssa.Const) *Val {
	b := e.tb
	t := c.Type()
	if c.Value == nil {
		if _, ok := t.(*types.TypeParam); ok {
			return &Val{Typ: t, T: e.numLit(e.srt("Num"), "0")}
		}
		return e.zeroVal(t)
	}
	switch {
	case c.Value.Kind() == constant.Bool:
		return &Val{Typ: t, T: b.Bool(constant.BoolVal(c.Value))}
	case c.Value.Kind() == constant.String:
		return &Val{Typ: t, T: b.Var("str!"+sanitize(constant.StringVal(c.Value)), "Int")}
	}
	if isFloaty(t) {
		srt := e.comps(t)[0].sort
		return &Val{Typ: t, T: e.numLit(e.srt(srt), ratText(c.Value))}
	}
	if isInteger(t) {
		v := constant.ToInt(c.Value)
		z := newBig(v.ExactString())
		srt := e.comps(t)[0].sort
		if strings.HasPrefix(srt, "(_ BitVec ") {
			return &Val{Typ: t, T: e.bvLit(z, srt)}
		}
		return &Val{Typ: t, T: b.BigInt(z)}
	}
	unsup("constant %v", c)
	return nil
}
func (e *Engine) bvLit(z *big.Int, srt string) *Term {
	w := strings.TrimSuffix(srt[len("(_ BitVec "):], ")")
	n := newBig(w).Int64()
	m := new(big.Int).Lsh(big.NewInt(1), uint(n))
	z = new(big.Int).Mod(z, m)
	return e.tb.Lit("(_ bv"+z.String()+" "+w+")", srt)
}
func ratText(v constant.Value) string {
	r, ok := new(big.Rat).SetString(v.ExactString())
	if !ok {
		f, _ := constant.Float64Val(v)
		r = new(big.Rat)
		r.SetFloat64(f)
	}
	if r.IsInt() {
		return r.Num().String()
	}
	return r.Num().String() + "/" + r.Denom().String()
}

func (e *Engine) value(fr *Frame, v ssa.Value) *Val {
	if x, ok := fr.regs[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &Val{Typ: x.Type(), Clo: &Clo{Fn: x}}
	case *ssa.Global:
		// address of a package variable: cell
		return &Val{Typ: x.Type(), Addr: &Addr{Kind: "field", Ref: e.tb.Int(0), Key: "glob." + x.Pkg.Pkg.Name() + "." + x.Name(), Typ: x.Type().(*types.Pointer).Elem()}}
	case *ssa.Builtin:
		return &Val{Typ: x.Type()}
	}
	unsup("value %T %s in %s", v, v.Name(), fr.fn)
	return nil
}

// leaves of a struct type with heap keys; same order as comps
type leaf struct{ key, sort, class string }

func (e *Engine) leaves(t types.Type, prefix string) []leaf {
	st, ok := t.Underlying().(*types.Struct)
	if _, tp := t.(*types.TypeParam); tp || !ok {
		var out []leaf
		for _, c := range e.comps(t) {
			out = append(out, leaf{prefix + c.suf, c.sort, c.class})
		}
		return out
	}
	if prefix == "" {
		prefix = structName(t)
	}
	var out []leaf
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, isS := f.Type().Underlying().(*types.Struct); isS && i == 0 && f.Embedded() {
			out = append(out, e.leaves(f.Type(), "")...)
			continue
		}
		out = append(out, e.leaves(f.Type(), prefix+"."+f.Name())...)
	}
	return out
}

func (e *Engine) addrLeaves(a *Addr) []leaf {
	if a.Kind == "elem" {
		var out []leaf
		for _, c := range e.comps(a.Typ) {
			out = append(out, leaf{a.Key + c.suf, c.sort, c.class})
		}
		return out
	}
	return e.leaves(a.Typ, a.Key)
}

// pointerAddr turns a pointer value into an address of its pointee.
func (e *Engine) pointerAddr(v *Val) *Addr {
	if v.Addr != nil {
		return v.Addr
	}
	el := v.Typ.Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Struct); ok {
		return &Addr{Kind: "field", Ref: v.T, Key: "", Typ: el}
	}
	if a, ok := el.Underlying().(*types.Array); ok {
		_ = a
		unsup("load/store of a whole array")
	}
	cs := e.comps(el)
	return &Addr{Kind: "field", Ref: v.T, Key: "P." + cs[0].class, Typ: el}
}

func (e *Engine) load(st *State, a *Addr) *Val {
	var ts []*Term
	for _, l := range e.addrLeaves(a) {
		e.regKey(l.key, e.srt(l.sort), l.class)
		h := e.hget(st, l.key)
		var t *Term
		if a.Kind == "elem" {
			t = e.elemRead(h, a)
		} else {
			t = e.tb.Select(h, a.Ref)
		}
		if l.class == "ref" && !t.isInt() {
			e.typeFact(st, t)
		}
		ts = append(ts, t)
	}
	v := e.unflatten(a.Typ, ts)
	e.sliceFacts(st, v)
	return v
}
func (e *Engine) typeFact(st *State, t *Term) {
	b := e.tb
	for _, f := range []*Term{b.Le(b.Int(0), t), b.Le(t, st.alloc)} {
		if !st.has(f) {
			st.add(f)
		}
	}
}
func (e *Engine) sliceFacts(st *State, v *Val) {
	b := e.tb
	if v.S != nil {
		if v.S.Len.isInt() {
			return
		}
		for _, f := range []*Term{b.Le(b.Int(0), v.S.Off), b.Le(b.Int(0), v.S.Len), b.Le(v.S.Len, v.S.Cap), b.Imp(b.Lt(b.Int(0), v.S.Cap), b.Lt(b.Int(0), v.S.Arr))} {
			if !st.has(f) {
				st.add(f)
			}
		}
	}
	for _, f := range v.F {
		e.sliceFacts(st, f)
	}
}

func (e *Engine) recordWrite(st *State, key string, ref *Term) {
	for _, l := range st.loops {
		m := l.info.targets[key]
		if m == nil {
			m = map[string]*Term{}
			l.info.targets[key] = m
		}
		if ref == nil {
			m["*"] = nil
			continue
		}
		if e.invariantIn(ref, l) {
			m[ref.String()] = ref
		}
	}
}

func (e *Engine) storeAddr(st *State, a *Addr, v *Val) {
	ls := e.addrLeaves(a)
	ts := e.flatten(v)
	if len(ls) != len(ts) {
		unsup("store shape mismatch at %s (%v)", a.Key, a.Typ)
	}
	for i, l := range ls {
		e.regKey(l.key, e.srt(l.sort), l.class)
		h := e.hget(st, l.key)
		if a.Kind == "elem" {
			row := e.tb.Select(h, a.Ref)
			st.heap[l.key] = e.tb.Store(h, a.Ref, e.tb.Store(row, a.Idx, ts[i]))
		} else {
			st.heap[l.key] = e.tb.Store(h, a.Ref, ts[i])
		}
		e.recordWrite(st, l.key, a.Ref)
		e.checkFrozen(st, l.key, a)
	}
}

func (e *Engine) newRef(st *State) *Term {
	st.alloc = e.tb.Add(st.alloc, e.tb.Int(1))
	return st.alloc
}

func (e *Engine) nonNil(st *State, p *Term, what string) {
	g := e.tb.Not(e.tb.Eq(p, e.tb.Int(0)))
	if d, ok := e.tb.constDiff(p, e.alloc0); ok && d.Sign() > 0 {
		return
	}
	e.oblige(st, "nil", "nil dereference: "+what, g)
}

func (e *Engine) instr(fr *Frame, st *State, in ssa.Instruction) {
	b := e.tb
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().(*types.Pointer).Elem()
		r := e.newRef(st)
		if a, ok := el.Underlying().(*types.Array); ok {
			cs := e.comps(a.Elem())
			pre := "E."
			for _, c := range cs {
				k := e.elemKeyOf(a.Elem(), c)
				e.regKey(k, e.srt(c.sort), c.class)
				h := e.hget(st, k)
				st.heap[k] = b.Store(h, r, b.ConstArr(e.zeroOf(e.srt(c.sort))))
				e.recordWrite(st, k, r)
			}
			_ = pre
			fr.regs[x] = &Val{Typ: x.Type(), T: r}
			return
		}
		v := &Val{Typ: x.Type(), T: r}
		e.storeAddr(st, e.pointerAddr(v), e.zeroVal(el))
		fr.regs[x] = v
	case *ssa.FieldAddr:
		p := e.value(fr, x.X)
		st0 := x.X.Type().Underlying().(*types.Pointer).Elem()
		f := st0.Underlying().(*types.Struct).Field(x.Field)
		if p.Addr != nil {
			fr.regs[x] = &Val{Typ: x.Type(), Addr: &Addr{Kind: p.Addr.Kind, Ref: p.Addr.Ref, Idx: p.Addr.Idx, SOff: p.Addr.SOff, SIdx: p.Addr.SIdx, Key: p.Addr.Key + "." + f.Name(), Typ: f.Type()}}
			return
		}
		e.nonNil(st, p.T, "field "+f.Name())
		_, isS := f.Type().Underlying().(*types.Struct)
		if isS && x.Field == 0 && f.Embedded() {
			fr.regs[x] = &Val{Typ: x.Type(), T: p.T}
			return
		}
		fr.regs[x] = &Val{Typ: x.Type(), Addr: &Addr{Kind: "field", Ref: p.T, Key: structName(st0) + "." + f.Name(), Typ: f.Type()}}
	case *ssa.IndexAddr:
		p := e.value(fr, x.X)
		i := e.toInt(e.value(fr, x.Index))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			e.oblige(st, "bounds", "index in range", b.And(b.Le(b.Int(0), i), b.Lt(i, p.S.Len)))
			fr.regs[x] = &Val{Typ: x.Type(), Addr: &Addr{Kind: "elem", Ref: p.S.Arr, Idx: b.Add(p.S.Off, i), SOff: p.S.Off, SIdx: i, Key: e.elemKeyBase(u.Elem()), Typ: u.Elem()}}
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			e.oblige(st, "bounds", "index in range", b.And(b.Le(b.Int(0), i), b.Lt(i, b.Int(a.Len()))))
			fr.regs[x] = &Val{Typ: x.Type(), Addr: &Addr{Kind: "elem", Ref: p.T, Idx: i, Key: e.elemKeyBase(a.Elem()), Typ: a.Elem()}}
		default:
			unsup("IndexAddr on %v", x.X.Type())
		}
	case *ssa.UnOp:
		v := e.value(fr, x.X)
		switch x.Op {
		case token.MUL:
			if g, ok := x.X.(*ssa.Global); ok {
				fr.regs[x] = e.loadGlobal(st, g)
				return
			}
			if v.Addr == nil {
				e.nonNil(st, v.T, "load")
			}
			r := e.load(st, e.pointerAddr(v))
			fr.regs[x] = r
		case token.NOT:
			fr.regs[x] = &Val{Typ: x.Type(), T: b.Not(v.T)}
		case token.SUB:
			if isInteger(x.Type()) && v.T.sort == "Int" {
				fr.regs[x] = &Val{Typ: x.Type(), T: b.MulC(-1, v.T)}
			} else if strings.HasPrefix(v.T.sort, "(_ BitVec") {
				fr.regs[x] = &Val{Typ: x.Type(), T: b.App("bvneg", v.T.sort, v.T)}
			} else {
				fr.regs[x] = &Val{Typ: x.Type(), T: e.arith("neg", v.T)}
			}
		default:
			unsup("unary %v", x.Op)
		}
	case *ssa.BinOp:
		fr.regs[x] = e.binop(fr, st, x)
	case *ssa.Store:
		p := e.value(fr, x.Addr)
		if _, ok := x.Addr.(*ssa.Global); ok {
			unsup("write to a global")
		}
		if p.Addr == nil {
			e.nonNil(st, p.T, "store")
		}
		e.storeAddr(st, e.pointerAddr(p), e.value(fr, x.Val))
	case *ssa.MakeSlice:
		n := e.toInt(e.value(fr, x.Len))
		c := e.toInt(e.value(fr, x.Cap))
		e.oblige(st, "makeslice", "makeslice: length in range", b.And(b.Le(b.Int(0), n), b.Le(n, c)))
		el := x.Type().Underlying().(*types.Slice).Elem()
		r := e.newRef(st)
		for _, cc := range e.comps(el) {
			k := e.elemKeyOf(el, cc)
			e.regKey(k, e.srt(cc.sort), cc.class)
			st.heap[k] = b.Store(e.hget(st, k), r, b.ConstArr(e.zeroOf(e.srt(cc.sort))))
			e.recordWrite(st, k, r)
		}
		fr.regs[x] = &Val{Typ: x.Type(), S: &SliceV{r, b.Int(0), n, c}}
	case *ssa.MakeInterface:
		v := e.value(fr, x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok && v.T != nil {
			fr.regs[x] = &Val{Typ: x.Type(), T: v.T, Dyn: v}
			return
		}
		if v.Addr != nil || v.T == nil && v.S == nil && v.F == nil {
			fr.regs[x] = &Val{Typ: x.Type(), T: e.newRef(st), Dyn: v}
			return
		}
		fr.regs[x] = &Val{Typ: x.Type(), T: e.newRef(st), Dyn: v}
	case *ssa.ChangeInterface:
		v := e.value(fr, x.X)
		fr.regs[x] = &Val{Typ: x.Type(), T: v.T, Dyn: v.Dyn}
	case *ssa.ChangeType:
		v := *e.value(fr, x.X)
		v.Typ = x.Type()
		fr.regs[x] = &v
	case *ssa.Convert:
		fr.regs[x] = e.convert(fr, st, e.value(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		fr.regs[x] = e.convert(fr, st, e.value(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		var bs []*Val
		for _, y := range x.Bindings {
			bs = append(bs, e.value(fr, y))
		}
		fr.regs[x] = &Val{Typ: x.Type(), Clo: &Clo{Fn: x.Fn.(*ssa.Function), Binds: bs}}
	case *ssa.Extract:
		t := e.value(fr, x.Tuple)
		if t.F == nil {
			unsup("extract from opaque tuple")
		}
		fr.regs[x] = t.F[x.Index]
	case *ssa.Field:
		v := e.value(fr, x.X)
		if v.F == nil {
			unsup("field of opaque struct")
		}
		fr.regs[x] = v.F[x.Field]
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.TypeAssert:
		v := e.value(fr, x.X)
		e.typeAssert(fr, st, x, v)
	default:
		unsup("instruction %T", in)
	}
}

func (e *Engine) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, v *Val) {
	b := e.tb
	mk := func() *Val {
		if _, ok := x.AssertedType.Underlying().(*types.Interface); ok {
			return &Val{Typ: x.AssertedType, T: v.T, Dyn: v.Dyn}
		}
		if v.Dyn != nil && types.Identical(v.Dyn.Typ, x.AssertedType) {
			return v.Dyn
		}
		if _, ok := x.AssertedType.Underlying().(*types.Pointer); ok {
			return &Val{Typ: x.AssertedType, T: v.T}
		}
		unsup("type assertion to %v", x.AssertedType)
		return nil
	}
	tag := b.Var("tt!"+sanitize(x.AssertedType.String()), "Int")
	b.Declare("dyntype", "Int", "Int")
	ok := b.And(b.Not(b.Eq(v.T, b.Int(0))), b.Eq(b.Fn("dyntype", v.T), tag))
	if x.CommaOk {
		val := mk()
		if val.T != nil {
			z := e.zeroVal(x.AssertedType)
			val = &Val{Typ: val.Typ, T: b.Ite(ok, val.T, z.T), Dyn: val.Dyn}
		}
		fr.regs[x] = &Val{F: []*Val{val, {T: ok}}}
		return
	}
	e.oblige(st, "typeassert", "type assertion holds", ok)
	fr.regs[x] = mk()
}

func (e *Engine) elemKeyBase(t types.Type) string {
	if _, tp := t.(*types.TypeParam); !tp {
		if _, ok := t.Underlying().(*types.Struct); ok {
			return "E." + structName(t)
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return "E.slice"
		}
	}
	cs := e.comps(t)
	return "E." + cs[0].class
}
func (e *Engine) elemKeyOf(t types.Type, c comp) string { return e.elemKeyBase(t) + c.suf }

func (e *Engine) loadGlobal(st *State, g *ssa.Global) *Val {
	el := g.Type().(*types.Pointer).Elem()
	// package variables are treated as constants of the run
	var ts []*Term
	for _, c := range e.comps(el) {
		t := e.tb.Var("glob."+g.Pkg.Pkg.Name()+"."+g.Name()+c.suf, e.srt(c.sort))
		ts = append(ts, t)
	}
	e.assume("package variable " + g.Pkg.Pkg.Name() + "." + g.Name() + " treated as an arbitrary constant")
	return e.unflatten(el, ts)
}

func (e *Engine) toInt(v *Val) *Term {
	if v.T == nil || v.T.sort != "Int" {
		unsup("integer expected")
	}
	return v.T
}

var two64 = newBig("18446744073709551616")

func (e *Engine) wrapSub(st *State, x, y *Term, w int) *Term {
	b := e.tb
	d := b.Sub(x, y)
	if d.isInt() && d.ival.Sign() >= 0 {
		return d
	}
	g := b.Le(y, x)
	if st.has(g) || e.quick(st, g) {
		return d
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return b.Ite(g, d, b.Add(d, b.BigInt(m)))
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) *Val {
	b := e.tb
	l, r := e.value(fr, x.X), e.value(fr, x.Y)
	res := func(t *Term) *Val { return &Val{Typ: x.Type(), T: t} }
	switch x.Op {
	case token.EQL, token.NEQ:
		t := e.goEq(l, r, x.X.Type())
		if x.Op == token.NEQ {
			t = b.Not(t)
		}
		return res(t)
	}
	if l.T == nil || r.T == nil {
		unsup("binary operator on composite")
	}
	p, q := l.T, r.T
	xt := x.X.Type()
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		if x.Op == token.ADD {
			b.Declare("strcat", "Int", "Int", "Int")
			return res(b.Fn("strcat", p, q))
		}
		unsup("string operator %v", x.Op)
	}
	if p.sort == "Bool" {
		unsup("bool operator %v", x.Op)
	}
	if strings.HasPrefix(p.sort, "(_ BitVec") {
		return res(e.bvop(x.Op, p, q, isUnsigned(xt)))
	}
	if p.sort != "Int" {
		switch x.Op {
		case token.ADD:
			return res(e.arith("add", p, q))
		case token.SUB:
			return res(e.arith("sub", p, q))
		case token.MUL:
			return res(e.arith("mul", p, q))
		case token.QUO:
			return res(e.arith("div", p, q))
		case token.LSS:
			return res(e.arith("lt", p, q))
		case token.LEQ:
			return res(e.arith("le", p, q))
		case token.GTR:
			return res(e.arith("lt", q, p))
		case token.GEQ:
			return res(e.arith("le", q, p))
		}
		unsup("float operator %v", x.Op)
	}
	uns := isUnsigned(xt)
	switch x.Op {
	case token.ADD:
		return res(b.Add(p, q))
	case token.SUB:
		if uns {
			return res(e.wrapSub(st, p, q, intWidth(xt.Underlying().(*types.Basic))))
		}
		return res(b.Sub(p, q))
	case token.MUL:
		return res(b.IMul(p, q))
	case token.QUO, token.REM:
		e.oblige(st, "div", "division by zero", b.Not(b.Eq(q, b.Int(0))))
		if !uns {
			if !(p.isInt() && p.ival.Sign() >= 0) && !e.quick(st, b.Le(b.Int(0), p)) || !(q.isInt() && q.ival.Sign() > 0) && !e.quick(st, b.Lt(b.Int(0), q)) {
				f := map[token.Token]string{token.QUO: "tdiv", token.REM: "trem"}[x.Op]
				b.Declare(f, "Int", "Int", "Int")
				return res(b.Fn(f, p, q))
			}
		}
		if x.Op == token.QUO {
			return res(e.idiv(p, q))
		}
		return res(e.imod(p, q))
	case token.LSS:
		return res(b.Lt(p, q))
	case token.LEQ:
		return res(b.Le(p, q))
	case token.GTR:
		return res(b.Lt(q, p))
	case token.GEQ:
		return res(b.Le(q, p))
	}
	f := "bop." + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[x.Op]
	if f == "bop." {
		unsup("operator %v", x.Op)
	}
	if x.Op == token.SHR && q.isInt() && q.ival.IsInt64() && q.ival.Int64() < 63 && uns {
		return res(e.idiv(p, b.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(q.ival.Int64())))))
	}
	b.Declare(f, "Int", "Int", "Int")
	return res(b.Fn(f, p, q))
}

func bvWidth(s string) int {
	return int(newBig(strings.TrimSuffix(s[len("(_ BitVec "):], ")")).Int64())
}

func (e *Engine) bvop(op token.Token, p, q *Term, uns bool) *Term {
	b := e.tb
	if op == token.SHL || op == token.SHR {
		wp, wq := bvWidth(p.sort), bvWidth(q.sort)
		if wq < wp {
			q = b.App(fmt.Sprintf("(_ zero_extend %d)", wp-wq), p.sort, q)
		} else if wq > wp {
			// shift counts are assumed to fit (constants in this code base)
			if q.op == "lit" {
				q = e.bvLit(newBig(strings.Fields(strings.TrimPrefix(q.name, "(_ bv"))[0]), p.sort)
			} else {
				// saturate: if any high bit is set the result is 0 / sign
				hi := b.App(fmt.Sprintf("(_ extract %d %d)", wq-1, wp), fmt.Sprintf("(_ BitVec %d)", wq-wp), q)
				lo := b.App(fmt.Sprintf("(_ extract %d 0)", wp-1), p.sort, q)
				z := e.bvLit(big.NewInt(0), hi.sort)
				all := e.bvLit(big.NewInt(-1), p.sort)
				q = b.Ite(b.Eq(hi, z), lo, all)
			}
		}
	}
	m := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl"}
	if f, ok := m[op]; ok {
		return b.App(f, p.sort, p, q)
	}
	sg := func(u, s string) string {
		if uns {
			return u
		}
		return s
	}
	switch op {
	case token.SHR:
		return b.App(sg("bvlshr", "bvashr"), p.sort, p, q)
	case token.QUO:
		return b.App(sg("bvudiv", "bvsdiv"), p.sort, p, q)
	case token.REM:
		return b.App(sg("bvurem", "bvsrem"), p.sort, p, q)
	case token.AND_NOT:
		return b.App("bvand", p.sort, p, b.App("bvnot", q.sort, q))
	case token.LSS:
		return b.App(sg("bvult", "bvslt"), "Bool", p, q)
	case token.LEQ:
		return b.App(sg("bvule", "bvsle"), "Bool", p, q)
	case token.GTR:
		return b.App(sg("bvugt", "bvsgt"), "Bool", p, q)
	case token.GEQ:
		return b.App(sg("bvuge", "bvsge"), "Bool", p, q)
	}
	unsup("bit-vector operator %v", op)
	return nil
}

func (e *Engine) goEq(l, r *Val, t types.Type) *Term {
	b := e.tb
	if l.Clo != nil || r.Clo != nil {
		// comparison of a function value with nil
		return b.False()
	}
	if l.S != nil && r.S != nil {
		// only slice == nil is legal
		if r.S.Arr.isInt() {
			return b.Eq(l.S.Arr, b.Int(0))
		}
		return b.Eq(r.S.Arr, b.Int(0))
	}
	if l.Addr != nil || r.Addr != nil {
		return b.False()
	}
	if l.F != nil && r.F != nil {
		var cs []*Term
		for i := range l.F {
			cs = append(cs, e.goEq(l.F[i], r.F[i], nil))
		}
		return b.And(cs...)
	}
	p, q := l.T, r.T
	if isNumSort(p.sort) || p.sort == "Real" {
		return e.arith("eq", p, q)
	}
	return b.Eq(p, q)
}

func (e *Engine) convert(fr *Frame, st *State, v *Val, from, to types.Type) *Val {
	b := e.tb
	if v.T == nil {
		unsup("conversion of composite %v to %v", from, to)
	}
	fi, ti := isInteger(from), isInteger(to)
	ff, tf := isFloaty(from), isFloaty(to)
	fs, ts := v.T.sort, e.srt(e.comps(to)[0].sort)
	out := func(t *Term) *Val { return &Val{Typ: to, T: t} }
	switch {
	case fi && ti:
		if strings.HasPrefix(fs, "(_ BitVec") {
			wf, wt := bvWidth(fs), bvWidth(ts)
			switch {
			case wf == wt:
				return out(v.T)
			case wf > wt:
				return out(b.App(fmt.Sprintf("(_ extract %d 0)", wt-1), ts, v.T))
			case isUnsigned(from):
				return out(b.App(fmt.Sprintf("(_ zero_extend %d)", wt-wf), ts, v.T))
			default:
				return out(b.App(fmt.Sprintf("(_ sign_extend %d)", wt-wf), ts, v.T))
			}
		}
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		wf, wt := intWidth(fb), intWidth(tb)
		if wt < wf {
			// narrowing: value modulo 2^w for unsigned targets
			if isUnsigned(to) {
				m := b.BigInt(new(big.Int).Lsh(big.NewInt(1), uint(wt)))
				g := b.And(b.Le(b.Int(0), v.T), b.Lt(v.T, m))
				if e.quick(st, g) {
					return out(v.T)
				}
				return out(b.App("mod", "Int", v.T, m))
			}
			f := fmt.Sprintf("narrow%d", wt)
			b.Declare(f, "Int", "Int")
			return out(b.Fn(f, v.T))
		}
		if isUnsigned(to) && !isUnsigned(from) {
			if v.T.isInt() && v.T.ival.Sign() >= 0 {
				return out(v.T)
			}
			g := b.Le(b.Int(0), v.T)
			if st.has(g) || e.quick(st, g) {
				return out(v.T)
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(wt))
			return out(b.Ite(g, v.T, b.Add(v.T, b.BigInt(m))))
		}
		return out(v.T)
	case ff && tf:
		if fs == ts {
			return out(v.T)
		}
		if e.mode.FP && fs != "Num" && ts != "Num" {
			eb := map[string]string{"F32": "8 24", "F64": "11 53"}[ts]
			return out(b.App("(_ to_fp "+eb+")", ts, b.Lit("RNE", "RoundingMode"), v.T))
		}
		if v.T.op == "lit."+fs {
			b.Declare("lit."+ts, ts, "Real")
			return out(b.App("lit."+ts, ts, v.T.args[0]))
		}
		f := "conv." + fs + "." + ts
		b.Declare(f, ts, fs)
		return out(b.Fn(f, v.T))
	case fi && tf:
		if v.T.isInt() {
			return out(e.numLit(ts, v.T.ival.String()))
		}
		if ts == "Real" {
			return out(b.App("to_real", "Real", v.T))
		}
		if strings.HasPrefix(fs, "(_ BitVec") {
			if e.mode.FP && ts != "Num" {
				eb := map[string]string{"F32": "8 24", "F64": "11 53"}[ts]
				u := "to_fp"
				if isUnsigned(from) {
					u = "to_fp_unsigned"
				}
				return out(b.App("(_ "+u+" "+eb+")", ts, b.Lit("RNE", "RoundingMode"), v.T))
			}
		}
		f := "conv." + sortTag(fs) + "." + ts
		b.Declare(f, ts, fs)
		return out(b.Fn(f, v.T))
	case ff && ti:
		f := "conv." + fs + "." + sortTag(ts) + fmt.Sprint(intWidth(to.Underlying().(*types.Basic))) + map[bool]string{true: "u", false: "s"}[isUnsigned(to)]
		b.Declare(f, ts, fs)
		t := b.Fn(f, v.T)
		if ts == "Int" && isUnsigned(to) {
			st.add(b.Le(b.Int(0), t))
		}
		return out(t)
	}
	if fs == ts {
		return out(v.T)
	}
	unsup("conversion %v to %v", from, to)
	return nil
}

func (e *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice) *Val {
	b := e.tb
	v := e.value(fr, x.X)
	opt := func(y ssa.Value) *Term {
		if y == nil {
			return nil
		}
		return e.toInt(e.value(fr, y))
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = b.Int(0)
	}
	if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		a := pt.Elem().Underlying().(*types.Array)
		n := b.Int(a.Len())
		if hi == nil {
			hi = n
		}
		e.oblige(st, "slice", "slice bounds", b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, n)))
		return &Val{Typ: x.Type(), S: &SliceV{v.T, lo, b.Sub(hi, lo), b.Sub(n, lo)}}
	}
	if v.S == nil {
		unsup("slicing of %v", x.X.Type())
	}
	if hi == nil {
		hi = v.S.Len
	}
	cp := v.S.Cap
	if mx != nil {
		cp = mx
	}
	g := b.And(b.Le(b.Int(0), lo), b.Le(lo, hi), b.Le(hi, cp))
	if mx != nil {
		g = b.And(g, b.Le(mx, v.S.Cap))
	}
	e.oblige(st, "slice", "slice bounds", g)
	s := &SliceV{v.S.Arr, b.OffAdd(v.S.Off, lo), b.Sub(hi, lo), b.Sub(cp, lo)}
	return &Val{Typ: x.Type(), S: s}
}

// checkFrozen: hook for graph freezing (operations already pushed must not change).
func (e *Engine) checkFrozen(st *State, key string, a *Addr) {}
