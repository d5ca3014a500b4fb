package main

// Calls: builtins, contracts, inlining, interface dispatch, externals.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) freshVar(prefix, srt string) *Term {
	v := e.tb.Fresh(prefix, srt)
	e.seq++
	e.varSeq[v] = e.seq
	return v
}
func (e *Engine) freshHeap(prefix, key string, alloc *Term) *Term {
	name := e.tb.Fresh(prefix+"."+key, e.keys[key].sort)
	e.seq++
	e.varSeq[name] = e.seq
	e.heapConst(name.name, key, alloc)
	return name
}

// freshVal makes an unconstrained value of Go type t with typing facts.
func (e *Engine) freshVal(st *State, prefix string, t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := &Val{Typ: t, F: []*Val{}}
		for i := 0; i < tp.Len(); i++ {
			v.F = append(v.F, e.freshVal(st, fmt.Sprintf("%s.%d", prefix, i), tp.At(i).Type()))
		}
		return v
	}
	b := e.tb
	var ts []*Term
	for _, c := range e.comps(t) {
		x := e.freshVar(prefix+c.suf, e.srt(c.sort))
		switch c.class {
		case "uint":
			st.add(b.Le(b.Int(0), x))
		case "ref":
			st.add(b.Le(b.Int(0), x))
			st.add(b.Le(x, st.alloc))
		}
		ts = append(ts, x)
	}
	if len(ts) == 0 {
		return &Val{Typ: t, F: []*Val{}}
	}
	v := e.unflatten(t, ts)
	e.sliceFacts(st, v)
	return v
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, site *ssa.Call, k func(*State, *Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(fr, st, b.Name(), c, site, k)
		return
	}
	var args []*Val
	if c.IsInvoke() {
		recv := e.value(fr, c.Value)
		for _, a := range c.Args {
			args = append(args, e.value(fr, a))
		}
		e.invoke(fr, st, recv, c, site.Type(), args, k)
		return
	}
	for _, a := range c.Args {
		args = append(args, e.value(fr, a))
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		e.callFn(fr, st, fn, nil, args, site.Type(), k)
		return
	}
	fv := e.value(fr, c.Value)
	e.callVal(fr, st, fv, args, site.Type(), k)
}

// callVal calls a function value.
func (e *Engine) callVal(fr *Frame, st *State, fv *Val, args []*Val, rt types.Type, k func(*State, *Val)) {
	b := e.tb
	if fv.Clo != nil {
		e.callFn(fr, st, fv.Clo.Fn, fv.Clo.Binds, args, rt, k)
		return
	}
	// unknown function value: pure application
	e.oblige(st, "nil", "call of nil function", b.Not(b.Eq(fv.T, b.Int(0))))
	e.assume("unknown function values (Function[T] arguments) are pure and total: apply(f, x)")
	var ts []*Term
	name := "apply"
	for _, a := range args {
		if a.T == nil {
			unsup("function value applied to composite")
		}
		ts = append(ts, a.T)
		name += "." + a.T.sort
	}
	rc := e.comps(rt)
	if len(rc) != 1 {
		unsup("function value with composite result")
	}
	rs := e.srt(rc[0].sort)
	name += "." + rs
	as := []string{"Int"}
	for _, t := range ts {
		as = append(as, t.sort)
	}
	b.Declare(name, rs, as...)
	k(st, &Val{Typ: rt, T: b.Fn(name, append([]*Term{fv.T}, ts...)...)})
}

// closure as data
func (e *Engine) cloTerm(c *Clo) *Term {
	b := e.tb
	fn := c.Fn
	if strings.HasSuffix(fn.Name(), "$bound") && len(c.Binds) == 1 && c.Binds[0].T != nil {
		f := "bm_" + sanitize(strings.TrimSuffix(fn.Name(), "$bound"))
		b.Declare(f, "Int", "Int")
		return b.Fn(f, c.Binds[0].T)
	}
	if len(c.Binds) == 0 {
		return b.Var("fn!"+sanitize(e.pr.funcKey(fn)), "Int")
	}
	unsup("closure used as data")
	return nil
}

func (e *Engine) invoke(fr *Frame, st *State, recv *Val, c *ssa.CallCommon, rt types.Type, args []*Val, k func(*State, *Val)) {
	m := c.Method
	if recv.Dyn != nil {
		fn, rv, ok := e.resolveMethod(recv.Dyn, m.Name())
		if ok {
			e.callFn(fr, st, fn, nil, append([]*Val{rv}, args...), rt, k)
			return
		}
	}
	e.nonNil(st, recv.T, "interface call "+m.Name())
	it := c.Value.Type()
	nm, ok := it.(*types.Named)
	if !ok {
		unsup("call on anonymous interface")
	}
	if nm.Obj().Pkg() == nil { // error
		if m.Name() == "Error" {
			k(st, e.freshVal(st, "errstr", rt))
			return
		}
	}
	iname := nm.Obj().Name()
	ikey := nm.Obj().Pkg().Name() + ".(" + iname + ")." + m.Name()
	if con, ok := e.spec.Contracts[ikey]; ok {
		e.usedCon(ikey)
		e.apply(fr, st, con, append([]*Val{recv}, args...), rt, k)
		return
	}
	rep, ok := e.spec.IfaceRep[nm.Obj().Pkg().Name()+"."+iname]
	if !ok {
		unsup("interface call %s without contract", ikey)
	}
	rn := e.pr.named[rep]
	if rn == nil {
		unsup("representative type %s not found", rep)
	}
	if bad := e.pr.overriders(nm, rn, m.Name()); bad != "" {
		unsup("%s overrides %s (representative %s)", bad, m.Name(), rep)
	}
	fn, rv, ok := e.resolveMethod(&Val{Typ: types.NewPointer(rn), T: recv.T}, m.Name())
	if !ok {
		unsup("method %s of %s", m.Name(), rep)
	}
	e.assume("implementations of " + nm.Obj().Pkg().Name() + "." + iname + " outside the repository are not considered")
	e.callFn(fr, st, fn, nil, append([]*Val{rv}, args...), rt, k)
}

// overriders reports a repository type implementing iface whose method name is not rep's.
func (p *Prog) overriders(iface *types.Named, rep *types.Named, name string) string {
	it := iface.Origin().Underlying().(*types.Interface)
	want, _, _ := types.LookupFieldOrMethod(types.NewPointer(rep), true, rep.Obj().Pkg(), name)
	var names []string
	for n := range p.named {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		nt := p.named[n]
		if _, isI := nt.Underlying().(*types.Interface); isI {
			continue
		}
		all := true
		for i := 0; i < it.NumMethods(); i++ {
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), it.Method(i).Name())
			if _, ok := o.(*types.Func); !ok {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		o, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), name)
		f, ok := o.(*types.Func)
		if !ok || want == nil {
			return n
		}
		if f.Origin() != want.(*types.Func).Origin() {
			return n
		}
	}
	return ""
}

// resolveMethod finds the declared function for method name on a concrete receiver value.
func (e *Engine) resolveMethod(rv *Val, name string) (*ssa.Function, *Val, bool) {
	t := rv.Typ
	var pkg *types.Package
	bt := t
	if p, ok := bt.(*types.Pointer); ok {
		bt = p.Elem()
	}
	n, ok := bt.(*types.Named)
	if !ok {
		return nil, nil, false
	}
	pkg = n.Obj().Pkg()
	o, path, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	mo, ok := o.(*types.Func)
	if !ok {
		return nil, nil, false
	}
	fn := e.pr.prog.FuncValue(mo.Origin())
	if fn == nil {
		return nil, nil, false
	}
	// walk embedded path
	cur := bt
	v := rv
	for _, i := range path[:len(path)-1] {
		st := cur.Underlying().(*types.Struct)
		f := st.Field(i)
		if i != 0 {
			unsup("method promoted through field %d of %v", i, cur)
		}
		if _, isP := f.Type().(*types.Pointer); isP {
			unsup("method promoted through pointer")
		}
		if v.T == nil {
			if v.F == nil {
				unsup("promoted method on opaque value")
			}
			v = v.F[i]
		}
		cur = f.Type()
	}
	rt := mo.Type().(*types.Signature).Recv().Type()
	if _, isP := rt.(*types.Pointer); isP {
		if v.T == nil {
			return nil, nil, false
		}
		return fn, &Val{Typ: types.NewPointer(cur), T: v.T}, true
	}
	if _, isP := v.Typ.(*types.Pointer); isP && v.T != nil {
		return nil, nil, false
	}
	return fn, v, true
}

func (e *Engine) callFn(fr *Frame, st *State, fn *ssa.Function, binds, args []*Val, rt types.Type, k func(*State, *Val)) {
	of := origin(fn)
	key := e.pr.funcKey(of)
	if con, ok := e.spec.Contracts[key]; ok && !e.inlineSet[key] && !con.Inline && len(binds) == 0 {
		if len(con.Params) != len(args) {
			unsup("contract %s has %d parameters, function has %d", key, len(con.Params), len(args))
		}
		e.usedCon(key)
		e.apply(fr, st, con, args, rt, k)
		return
	}
	if e.pr.inRepo(of) || of.Synthetic != "" && len(of.Blocks) > 0 && e.pr.inRepoWrapper(of) {
		if len(of.Blocks) == 0 {
			unsup("no body for %s", key)
		}
		for f := fr; f != nil; f = f.parent {
			if f.fn == of {
				unsup("recursive call of %s without contract", key)
			}
		}
		if fr.depth > 14 {
			unsup("inlining too deep at %s", key)
		}
		if len(of.Params) != len(args) {
			unsup("arity of %s", key)
		}
		e.inlined[key] = true
		nf := &Frame{fn: of, regs: map[ssa.Value]*Val{}, parent: fr, depth: fr.depth + 1, li: e.loopsOf(of)}
		nf.key = fmt.Sprintf("%s>%s#%d", fr.key, key, e.callSite(fr))
		for i, p := range of.Params {
			a := *args[i]
			// keep precise dynamic info; adopt the callee's static type
			a.Typ = p.Type()
			nf.regs[p] = &a
		}
		for i, fv := range of.FreeVars {
			nf.regs[fv] = binds[i]
		}
		pos := e.curPos
		nf.ret = func(st *State, v *Val) {
			e.curPos = pos
			// leave callee loops
			for len(st.loops) > 0 && strings.HasPrefix(st.loops[len(st.loops)-1].frameKey, nf.key) {
				st.loops = st.loops[:len(st.loops)-1]
			}
			k(st, retype(v, rt))
		}
		e.run(nf, of.Blocks[0], nil, st)
		return
	}
	e.external(fr, st, of, key, args, rt, k)
}
func (p *Prog) inRepoWrapper(f *ssa.Function) bool {
	if o, ok := f.Object().(*types.Func); ok && o.Pkg() != nil {
		return p.paths[o.Pkg().Path()]
	}
	// bound/thunk wrappers carry the method object
	return strings.Contains(f.Synthetic, "bound method") || strings.Contains(f.Synthetic, "wrapper")
}

func (e *Engine) callSite(fr *Frame) int {
	p := e.pr.prog.Fset.Position(e.curPos)
	q := e.pr.prog.Fset.Position(fr.fn.Pos())
	return (p.Line-q.Line)*1000 + p.Column
}

func retype(v *Val, t types.Type) *Val {
	if tp, ok := t.(*types.Tuple); ok {
		if v.F == nil || tp.Len() != len(v.F) {
			return v
		}
		w := &Val{Typ: t, F: []*Val{}}
		for i := range v.F {
			w.F = append(w.F, retype(v.F[i], tp.At(i).Type()))
		}
		return w
	}
	w := *v
	w.Typ = t
	return &w
}

func (e *Engine) loopsOf(fn *ssa.Function) *loopInfoFn {
	if l, ok := e.liCache[fn]; ok {
		return l
	}
	l := findLoops(fn)
	e.liCache[fn] = l
	return l
}

// keysFor expands a modifies key into concrete heap keys.
func (e *Engine) keysFor(k string) []string {
	if _, ok := e.keys[k]; ok {
		return []string{k}
	}
	if ls := e.namedLeaves(k); ls != nil {
		var out []string
		for _, l := range ls {
			e.regKey(l.key, e.srt(l.sort), l.class)
			out = append(out, l.key)
		}
		return out
	}
	panic(evalErr{"unknown heap key " + k})
}
func (e *Engine) regNamedKey(k string) {
	for _, suf := range []string{"", ".arr", ".off", ".len", ".cap"} {
		if !strings.HasSuffix(k, suf) {
			continue
		}
		for _, l := range e.namedLeaves(strings.TrimSuffix(k, suf)) {
			if l.key == k {
				e.regKey(l.key, e.srt(l.sort), l.class)
				return
			}
		}
	}
	panic(evalErr{"unknown heap key " + k})
}
func (e *Engine) namedLeaves(k string) []leaf {
	if s, ok := e.spec.GhostKeys[k]; ok {
		cl := map[string]string{"num": "num", "int": "int", "uint": "uint", "ref": "ref", "bool": "bool"}[s]
		return []leaf{{k, e.specSort(s), cl}}
	}
	if strings.HasPrefix(k, "E.") {
		s := map[string]string{"uint": "Int", "int": "Int", "ref": "Int", "num": "Num", "f64": "F64", "f32": "F32", "bool": "Bool", "str": "Int"}[k[2:]]
		if s != "" {
			return []leaf{{k, s, k[2:]}}
		}
	}
	if strings.HasPrefix(k, "P.") {
		s := map[string]string{"uint": "Int", "int": "Int", "ref": "Int", "num": "Num", "f64": "F64", "f32": "F32", "bool": "Bool"}[k[2:]]
		if s != "" {
			return []leaf{{k, s, k[2:]}}
		}
	}
	p := strings.Split(k, ".")
	if len(p) < 3 {
		return nil
	}
	nt := e.pr.named[p[0]+"."+p[1]]
	if nt == nil {
		return nil
	}
	key, ft, ok := e.fieldKey(nt, p[2])
	if !ok {
		return nil
	}
	return e.leaves(ft, key)
}

func (e *Engine) conEnv(con *Contract, args []*Val) map[string]*Val {
	m := map[string]*Val{}
	for i, p := range con.Params {
		m[p] = args[i]
	}
	return m
}

func hasRef(e *Engine, t types.Type) bool {
	for _, c := range e.comps(t) {
		if c.class == "ref" {
			return true
		}
	}
	return false
}

// apply a contract at a call site.
func (e *Engine) apply(fr *Frame, st *State, con *Contract, args []*Val, rt types.Type, k func(*State, *Val)) {
	b := e.tb
	for i, a := range args {
		if a.Clo != nil {
			args[i] = &Val{Typ: a.Typ, T: e.cloTerm(a.Clo)}
		}
	}
	vars := e.conEnv(con, args)
	old := st.clone()
	env := &Env{e: e, vars: vars, st: st, old: old}
	if len(args) > 0 && args[0].T != nil && strings.Contains(con.Key, ").") && args[0].T.sort == "Int" {
		if strings.Contains(con.Key, "(*") || con.Iface {
			e.nonNil(st, args[0].T, "receiver of "+con.Key)
		}
	}
	for i, r := range con.Requires {
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		g := env.boolean(r.E)
		for _, gg := range conj(g) {
			e.oblige(st, "requires", "precondition of "+con.Key+" ["+lab+"]", gg)
		}
	}
	pre := st.clone()
	// allocation
	if con.Opts["noalloc"] == "" && (len(con.Modifies) > 0 || hasRef(e, rt)) {
		al := e.freshVar("al", "Int")
		st.add(b.Le(st.alloc, al))
		st.alloc = al
	}
	penv := &Env{e: e, vars: vars, st: pre, old: pre}
	for _, m := range con.Modifies {
		if e.hiddenKey(m.Key) {
			continue
		}
		for _, key := range e.keysFor(m.Key) {
			h := e.hget(st, key)
			switch {
			case m.Ref != nil:
				r := penv.term1(m.Ref)
				nv := e.freshVar("mod."+key, elemSort(e.keys[key].sort))
				ki := e.keys[key]
				if !strings.HasPrefix(key, "E.") {
					if ki.class == "uint" || ki.class == "ref" {
						st.add(b.Le(b.Int(0), nv))
					}
					if ki.class == "ref" {
						st.add(b.Le(nv, st.alloc))
					}
				} else if ki.class == "uint" || ki.class == "ref" {
					i := b.BVar("?q0_0", "Int")
					x := b.App("select", "Int", nv, i)
					up := b.True()
					if ki.class == "ref" {
						up = b.Le(x, st.alloc)
					}
					st.add(b.Forall([]*Term{i}, [][]*Term{{x}}, b.And(b.Le(b.Int(0), x), up)))
				}
				st.heap[key] = b.Store(h, r, nv)
				e.recordWrite(st, key, r)
			case m.Cond != nil:
				nh := e.freshHeap("modh", key, st.alloc)
				r := b.BVar("?q0_0", "Int")
				c := penv.with(m.Var, &Val{T: r}).boolean(m.Cond)
				x := b.App("select", elemSort(nh.sort), nh, r)
				st.add(e.canonForall([]*Term{r}, [][]*Term{{x}}, b.Imp(b.And(b.Le(r, pre.alloc), b.Not(c)), b.Eq(x, b.Select(h, r)))))
				st.heap[key] = nh
				e.recordWrite(st, key, nil)
			default:
				nh := e.freshHeap("modh", key, st.alloc)
				st.heap[key] = nh
				e.recordWrite(st, key, nil)
			}
		}
	}
	res := e.freshVal(st, "ret."+sanitize(shortKey(con.Key)), rt)
	env2 := &Env{e: e, vars: map[string]*Val{}, st: st, old: pre}
	for n, v := range vars {
		env2.vars[n] = v
	}
	e.bindResults(con, env2, res)
	for _, x := range con.Ensures {
		e.bindDyn(x.E, env2)
	}
	for _, g := range con.GhostEx {
		if !e.hiddenKey(g.Key) {
			e.ghostAssign(st, env2, g)
		}
	}
	for _, x := range con.Ensures {
		if e.hiddenClause(con, x) {
			continue
		}
		st.add(env2.boolean(x.E))
	}
	k(st, res)
}

// bindDyn: a result the contract says holds a *Type is known to hold it.
func (e *Engine) bindDyn(x *Node, env *Env) {
	if x.Op == "bin" && x.Name == "&&" {
		e.bindDyn(x.Kids[0], env)
		e.bindDyn(x.Kids[1], env)
		return
	}
	if x.Op != "call" || x.Name != "isa" || x.Kids[0].Op != "ident" || x.Kids[1].Op != "field" {
		return
	}
	v := env.vars[x.Kids[0].Name]
	if v == nil || v.Dyn != nil || v.T == nil {
		return
	}
	t := e.specType(x.Kids[1].Kids[0].Name + "." + x.Kids[1].Name)
	v.Dyn = &Val{Typ: t, T: v.T}
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (e *Engine) ghostAssign(st *State, env *Env, g GhostAsg) {
	// ghost KEY := expr  (expr evaluated in the post-state, with old(); denotes the whole new heap array)
	c := *env
	c.st = st
	t := c.term(g.E)
	for _, k := range e.keysFor(g.Key) {
		h := e.hget(st, k)
		st.heap[k] = t
		if t.op == "store" && t.args[0] == h {
			e.recordWrite(st, k, t.args[1])
		} else if t != h {
			e.recordWrite(st, k, nil)
		}
	}
}

// hidden: state of package context is encapsulated (unexported, touched by its own methods only), so
// functions of other packages are verified without it; labels starting with _ speak about it.
func (e *Engine) hiddenKey(k string) bool {
	return strings.HasPrefix(k, "context.") && e.con != nil && !strings.HasPrefix(e.con.Key, "context.")
}
func (e *Engine) hiddenClause(con *Contract, c Clause) bool {
	return strings.HasPrefix(c.Label, "_") && e.con != nil && strings.SplitN(e.con.Key, ".", 2)[0] != strings.SplitN(con.Key, ".", 2)[0]
}

func (e *Engine) bindResults(con *Contract, env *Env, res *Val) {
	switch len(con.Results) {
	case 0:
	case 1:
		env.vars[con.Results[0]] = res
	default:
		if len(res.F) != len(con.Results) {
			unsup("contract %s names %d results", con.Key, len(con.Results))
		}
		for i, n := range con.Results {
			env.vars[n] = res.F[i]
		}
	}
}

func (e *Engine) usedCon(k string) { e.consUsed[k] = true }
func (e *Engine) assume(s string)  { e.assumed[s] = true }

// ---- builtins ----

func (e *Engine) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, site *ssa.Call, k func(*State, *Val)) {
	b := e.tb
	var as []*Val
	for _, a := range c.Args {
		as = append(as, e.value(fr, a))
	}
	switch name {
	case "len", "cap":
		if as[0].S == nil {
			if as[0].T != nil {
				b.Declare("strlen", "Int", "Int")
				t := b.Fn("strlen", as[0].T)
				st.add(b.Le(b.Int(0), t))
				k(st, &Val{Typ: site.Type(), T: t})
				return
			}
			unsup("len of %v", c.Args[0].Type())
		}
		t := as[0].S.Len
		if name == "cap" {
			t = as[0].S.Cap
		}
		k(st, &Val{Typ: site.Type(), T: t})
	case "min", "max":
		r := as[0].T
		for _, a := range as[1:] {
			var lt *Term
			if r.sort == "Int" {
				lt = b.Lt(a.T, r)
			} else {
				lt = e.arith("lt", a.T, r)
			}
			if name == "max" {
				if r.sort == "Int" {
					lt = b.Lt(r, a.T)
				} else {
					lt = e.arith("lt", r, a.T)
				}
			}
			r = b.Ite(lt, a.T, r)
		}
		k(st, &Val{Typ: site.Type(), T: r})
	case "copy":
		d, s := as[0], as[1]
		if d.S == nil || s.S == nil {
			unsup("copy of strings")
		}
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := e.freshVar("copyn", "Int")
		st.add(b.Eq(n, b.Ite(b.Le(d.S.Len, s.S.Len), d.S.Len, s.S.Len)))
		e.rangeCopy(st, el, d.S, s.S, n)
		k(st, &Val{Typ: site.Type(), T: n})
	case "append":
		e.appendB(fr, st, c, site, as, k)
	case "print", "println":
		k(st, &Val{F: []*Val{}})
	default:
		unsup("builtin %s", name)
	}
}

// rangeCopy copies n elements from s to d (memmove semantics).
func (e *Engine) rangeCopy(st *State, el types.Type, d, s *SliceV, n *Term) {
	b := e.tb
	for _, cc := range e.comps(el) {
		key := e.elemKeyOf(el, cc)
		e.regKey(key, e.srt(cc.sort), cc.class)
		h := e.hget(st, key)
		row := e.freshVar("cp."+key, elemSort(e.keys[key].sort))
		i := b.BVar("?q0_0", "Int")
		x := b.App("select", elemSort(row.sort), row, i)
		drow := b.Select(h, d.Arr)
		srow := b.Select(h, s.Arr)
		in := b.And(b.Le(d.Off, i), b.Lt(i, b.Add(d.Off, n)))
		src := b.Select(srow, b.Add(s.Off, b.Sub(i, d.Off)))
		st.add(b.Forall([]*Term{i}, [][]*Term{{x}}, b.Eq(x, b.Ite(in, src, b.Select(drow, i)))))
		st.heap[key] = b.Store(h, d.Arr, row)
		e.recordWrite(st, key, d.Arr)
	}
}

func (e *Engine) appendB(fr *Frame, st *State, c *ssa.CallCommon, site *ssa.Call, as []*Val, k func(*State, *Val)) {
	b := e.tb
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	s, x := as[0].S, as[1].S
	if s == nil || x == nil {
		unsup("append of string")
	}
	nl := b.Add(s.Len, x.Len)
	single := x.Len.isInt() && x.Len.ival.IsInt64() && x.Len.ival.Int64() <= 4
	write := func(st *State, d *SliceV) {
		if single {
			for j := int64(0); j < x.Len.ival.Int64(); j++ {
				v := e.load(st, &Addr{Kind: "elem", Ref: x.Arr, Idx: b.Add(x.Off, b.Int(j)), Key: e.elemKeyBase(el), Typ: el})
				e.storeAddr(st, &Addr{Kind: "elem", Ref: d.Arr, Idx: b.Add(d.Off, s.Len, b.Int(j)), Key: e.elemKeyBase(el), Typ: el}, v)
			}
			return
		}
		e.rangeCopy(st, el, &SliceV{d.Arr, b.Add(d.Off, s.Len), x.Len, x.Len}, x, x.Len)
	}
	fits := b.Le(nl, s.Cap)
	grown := func(fr *Frame, st *State) {
		r := e.newRef(st)
		cp := e.freshVar("appcap", "Int")
		st.add(b.Le(nl, cp))
		d := &SliceV{r, b.Int(0), nl, cp}
		for _, cc := range e.comps(el) {
			key := e.elemKeyOf(el, cc)
			e.regKey(key, e.srt(cc.sort), cc.class)
			h := e.hget(st, key)
			// first the old contents (the tail beyond is arbitrary)
			row := b.Select(h, s.Arr)
			if !(s.Off.isInt() && s.Off.ival.Sign() == 0) {
				row = b.SV(row, s.Off)
			}
			st.heap[key] = b.Store(h, r, row)
			e.recordWrite(st, key, r)
		}
		write(st, d)
		k(st, &Val{Typ: site.Type(), S: d})
	}
	if s.Cap.isInt() && s.Cap.ival.Sign() == 0 && x.Len.isInt() && x.Len.ival.Sign() > 0 {
		grown(fr, st)
		return
	}
	// one successor for both the in-place and the reallocated case
	r := e.newRef(st)
	arr := e.freshVar("apparr", "Int")
	off := s.Off
	st.add(b.Eq(arr, b.Ite(fits, s.Arr, r)))
	if !(off.isInt() && off.ival.Sign() == 0) {
		off = e.freshVar("appoff", "Int")
		st.add(b.Eq(off, b.Ite(fits, s.Off, b.Int(0))))
	}
	cp := e.freshVar("appcap", "Int")
	st.add(b.Le(nl, cp))
	st.add(b.Imp(fits, b.Eq(cp, s.Cap)))
	d := &SliceV{arr, off, nl, cp}
	view := func(row, off *Term) *Term {
		if off.isInt() && off.ival.Sign() == 0 {
			return row
		}
		return b.SV(row, off)
	}
	for _, cc := range e.comps(el) {
		key := e.elemKeyOf(el, cc)
		e.regKey(key, e.srt(cc.sort), cc.class)
		h := e.hget(st, key)
		row := e.freshVar("app."+key, elemSort(e.keys[key].sort))
		nv, ov, xv := view(row, off), view(b.Select(h, s.Arr), s.Off), view(b.Select(h, x.Arr), x.Off)
		i := b.BVar("?q0_0", "Int")
		at := b.App("select", elemSort(row.sort), nv, i)
		st.add(b.Forall([]*Term{i}, [][]*Term{{at}}, b.Imp(b.And(b.Le(b.Int(0), i), b.Lt(i, s.Len)), b.Eq(at, b.Select(ov, i)))))
		if single {
			for j := int64(0); j < x.Len.ival.Int64(); j++ {
				st.add(b.Eq(b.Select(nv, b.Add(s.Len, b.Int(j))), b.Select(xv, b.Int(j))))
			}
		} else {
			st.add(b.Forall([]*Term{i}, [][]*Term{{at}}, b.Imp(b.And(b.Le(s.Len, i), b.Lt(i, nl)), b.Eq(at, b.Select(xv, b.Sub(i, s.Len))))))
		}
		rat := b.App("select", elemSort(row.sort), row, i)
		in := b.And(b.Le(b.Add(s.Off, s.Len), i), b.Lt(i, b.Add(s.Off, nl)))
		st.add(b.Imp(fits, b.Forall([]*Term{i}, [][]*Term{{rat}}, b.Or(in, b.Eq(rat, b.Select(b.Select(h, s.Arr), i))))))
		st.heap[key] = b.Store(h, arr, row)
		e.recordWrite(st, key, arr)
	}
	k(st, &Val{Typ: site.Type(), S: d})
}

// ---- externals ----

var pureExt = map[string]bool{"math.Exp": true, "math.Tanh": true, "math.Sin": true, "math.Cos": true, "math.Sqrt": true, "math.Pow": true, "math.Abs": true,
	"math.Erf": true, "math.Max": true, "math.Min": true, "math.Log": true, "math.Floor": true, "math.Ceil": true, "math.Round": true, "math.Trunc": true, "math.Mod": true,
	"math.Float32bits": true, "math.Float32frombits": true, "math.Float64bits": true, "math.Float64frombits": true, "math.Inf": true, "math.NaN": true, "math.Cosh": true, "math.Sinh": true, "math.Log1p": true, "math.Expm1": true}

func (e *Engine) external(fr *Frame, st *State, fn *ssa.Function, key string, args []*Val, rt types.Type, k func(*State, *Val)) {
	b := e.tb
	if e.mode.FP {
		switch key {
		case "math.Float32frombits":
			k(st, &Val{Typ: rt, T: b.App("(_ to_fp 8 24)", "F32", args[0].T)})
			return
		case "math.Float64frombits":
			k(st, &Val{Typ: rt, T: b.App("(_ to_fp 11 53)", "F64", args[0].T)})
			return
		case "math.Float32bits", "math.Float64bits":
			w, s, f := 32, "F32", "8 24"
			if key == "math.Float64bits" {
				w, s, f = 64, "F64", "11 53"
			}
			_ = s
			bv := fmt.Sprintf("(_ BitVec %d)", w)
			// uninterpreted inverse of frombits; NaN payloads arbitrary
			x := e.freshVar("fbits", bv)
			st.add(b.App("=", "Bool", b.App("(_ to_fp "+f+")", args[0].T.sort, x), args[0].T))
			k(st, &Val{Typ: rt, T: x})
			return
		}
	}
	if key == "binary.Write" || key == "binary.Read" {
		e.stream(st, key == "binary.Write", args, rt, k)
		return
	}
	if pureExt[key] {
		rs := e.srt(e.comps(rt)[0].sort)
		var ts []*Term
		var as []string
		f := key
		for _, a := range args {
			if a.T == nil {
				unsup("argument of %s", key)
			}
			ts = append(ts, a.T)
			as = append(as, a.T.sort)
		}
		if len(ts) == 0 {
			k(st, &Val{Typ: rt, T: b.Var(f, rs)})
			return
		}
		b.Declare(f, rs, as...)
		e.assume(key + " is a pure total function (standard library)")
		k(st, &Val{Typ: rt, T: b.Fn(f, ts...)})
		return
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	switch pkg {
	case "fmt", "strings", "math/rand", "strconv", "errors", "time":
		e.assume("standard library " + pkg + " does not modify library state")
		if hasRef(e, rt) {
			st2 := e.newRef(st)
			_ = st2
		}
		v := e.freshVal(st, "ext."+sanitize(shortKey(key)), rt)
		if pkg == "errors" || key == "fmt.Errorf" {
			st.add(b.Not(b.Eq(v.T, b.Int(0))))
		}
		k(st, v)
		return
	}
	if e.extHook != nil && e.extHook(fr, st, key, args, rt, k) {
		return
	}
	unsup("external function %s", key)
}

// stream models encoding/binary.Write and Read on tokens: the ghost keys WN (tokens written to a writer), WK, WS, WI
// (kind and value of the token at a position), and RN, RK, RS, RI for readers. A failed call stores nothing.
func (e *Engine) stream(st *State, write bool, args []*Val, rt types.Type, k func(*State, *Val)) {
	b := e.tb
	for _, g := range []string{"WN", "WK", "WS", "WI", "RN", "RK", "RS", "RI"} {
		if _, ok := e.spec.GhostKeys[g]; !ok {
			unsup("no ghost stream")
		}
		for _, l := range e.namedLeaves(g) {
			e.regKey(l.key, e.srt(l.sort), l.class)
		}
	}
	e.assume("encoding/binary writes and reads a fixed-size value as one token of its type and byte order, and stores nothing when it fails")
	ord, data := args[1], args[2]
	if ord.Dyn == nil || data.Dyn == nil {
		unsup("binary stream with an unknown byte order or value")
	}
	v := data.Dyn
	vt := v.Typ
	if !write {
		pt, ok := vt.(*types.Pointer)
		if !ok {
			unsup("binary.Read into %v", vt)
		}
		vt = pt.Elem()
	}
	name := types.TypeString(vt, func(p *types.Package) string { return p.Name() })
	if _, ok := vt.(*types.TypeParam); ok {
		name = "T"
	}
	kind := b.BigInt(typeTag(types.TypeString(ord.Dyn.Typ, func(p *types.Package) string { return p.Name() }) + ":" + name))
	cs := e.comps(vt)
	if len(cs) != 1 {
		unsup("binary stream of %v", vt)
	}
	key := "S"
	switch so := e.srt(cs[0].sort); so {
	case "Num":
	case "Int":
		key = "I"
	default:
		unsup("binary stream of %v", vt)
	}
	w := args[0].T
	e.nonNil(st, w, "stream")
	err := e.freshVar("ioerr", "Int")
	st.add(b.Le(b.Int(0), err))
	if n := name; n == "int" || n == "uint" || n == "uintptr" || n == "string" {
		st.add(b.Not(b.Eq(err, b.Int(0)))) // not a fixed-size type
	}
	ok := b.Eq(err, b.Int(0))
	set := func(g string, i, v *Term) {
		st.heap[g] = b.Store(e.hget(st, g), i, v)
		e.recordWrite(st, g, nil)
	}
	nk := "RN"
	if write {
		nk = "WN"
	}
	n := b.Select(e.hget(st, nk), w)
	nx := e.freshVar("ion", "Int")
	st.add(b.Le(n, nx))
	if write {
		val := v.T
		if v.Addr != nil || val == nil {
			unsup("binary.Write of %v", v.Typ)
		}
		set("WK", n, kind)
		set("W"+key, n, val)
	} else {
		a := e.pointerAddr(v)
		cur := e.flatten(e.loadAddr(st, a))[0]
		any := e.freshVar("iov", cur.sort)
		if isUnsigned(vt) {
			st.add(b.Le(b.Int(0), any))
		}
		tok := b.Select(e.hget(st, "R"+key), n)
		if isUnsigned(vt) {
			tok = b.Ite(b.Le(b.Int(0), tok), tok, any)
		}
		got := b.Ite(b.Eq(b.Select(e.hget(st, "RK"), n), kind), tok, any)
		e.storeAddr(st, a, e.unflatten(vt, []*Term{b.Ite(ok, got, cur)}))
	}
	set(nk, w, b.Ite(ok, b.Add(n, b.Int(1)), nx))
	k(st, &Val{Typ: rt, T: err})
}
