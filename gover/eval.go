package main

// Evaluation of contract expressions to terms.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type Env struct {
	e    *Engine
	vars map[string]*Val
	st   *State
	old  *State
	pre  *State
	fuel int
}

func (n *Env) with(k string, v *Val) *Env {
	c := *n
	c.vars = map[string]*Val{}
	for a, b := range n.vars {
		c.vars[a] = b
	}
	c.vars[k] = v
	return &c
}

type evalErr struct{ msg string }

func everr(n *Node, f string, a ...any) { panic(evalErr{n.Pos + ": " + fmt.Sprintf(f, a...)}) }

func (e *Engine) specSort(t string) string {
	switch t {
	case "int", "ref", "uint", "str":
		return "Int"
	case "bool":
		return "Bool"
	case "num":
		return e.srt("Num")
	case "f32":
		return e.srt("F32")
	case "f64":
		return e.srt("F64")
	case "real":
		return "Real"
	case "ints", "refs":
		return arr("Int")
	case "nums":
		return arr(e.srt("Num"))
	case "f64s":
		return arr(e.srt("F64"))
	case "f32s":
		return arr(e.srt("F32"))
	case "bools":
		return arr("Bool")
	case "intss":
		return arr(arr("Int"))
	case "numss":
		return arr(arr(e.srt("Num")))
	case "rm":
		return "RoundingMode"
	}
	if strings.HasPrefix(t, "bv") {
		return "(_ BitVec " + t[2:] + ")"
	}
	if strings.HasPrefix(t, "fp") { // fp11_53
		return "(_ FloatingPoint " + strings.Replace(t[2:], "_", " ", 1) + ")"
	}
	if strings.Contains(t, ".") {
		return "Int"
	}
	panic(evalErr{"unknown spec type " + t})
}
func (e *Engine) specType(t string) types.Type {
	if strings.Contains(t, ".") {
		if n, ok := e.pr.named[t]; ok {
			if _, isI := n.Underlying().(*types.Interface); isI {
				return n
			}
			return types.NewPointer(n)
		}
		panic(evalErr{"unknown type " + t})
	}
	return nil
}

func (n *Env) term(x *Node) *Term {
	v := n.eval(x)
	return n.toTerm(x, v)
}
func (n *Env) toTerm(x *Node, v *Val) *Term {
	if v.T != nil {
		return v.T
	}
	if v.S != nil {
		return n.sview(v, n.st)
	}
	everr(x, "not a scalar value")
	return nil
}
func (n *Env) sview(v *Val, st *State) *Term {
	el := v.Typ.Underlying().(*types.Slice).Elem()
	return n.e.sliceView(st, v.S, el)
}

func (n *Env) boolean(x *Node) *Term {
	t := n.term(x)
	if t.sort != "Bool" {
		everr(x, "boolean expected, got %s", t.sort)
	}
	return t
}

func isNumSort(s string) bool { return s == "Num" || s == "F32" || s == "F64" }

func (n *Env) coerce(a, b *Term) (*Term, *Term) {
	if a.sort == b.sort {
		return a, b
	}
	e := n.e
	fix := func(x *Term, s string) *Term {
		if x.op == "int" {
			if isNumSort(s) || s == "Real" {
				return e.numLit(s, x.ival.String())
			}
			if strings.HasPrefix(s, "(_ BitVec ") {
				w := strings.TrimSuffix(s[len("(_ BitVec "):], ")")
				return e.tb.Lit("(_ bv"+x.ival.String()+" "+w+")", s)
			}
		}
		if x.op == "lit" && x.sort == "Real" && isNumSort(s) {
			e.tb.Declare("lit."+s, s, "Real")
			if e.mode.FP && s != "Num" {
				eb := map[string]string{"F32": "8 24", "F64": "11 53"}[s]
				return e.tb.Lit("((_ to_fp "+eb+") RNE "+x.name+")", s)
			}
			return e.tb.App("lit."+s, s, x)
		}
		return x
	}
	return fix(a, b.sort), fix(b, a.sort)
}

func dotted(x *Node) string {
	switch x.Op {
	case "ident":
		return x.Name
	case "field":
		return dotted(x.Kids[0]) + "." + x.Name
	}
	return ""
}

func (n *Env) eval(x *Node) *Val {
	e := n.e
	b := e.tb
	tv := func(t *Term) *Val { return &Val{T: t} }
	switch x.Op {
	case "ident":
		if v, ok := n.vars[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return tv(b.True())
		case "false":
			return tv(b.False())
		case "nil":
			return tv(b.Int(0))
		case "alloc":
			return tv(n.st.alloc)
		case "RNE":
			return tv(b.Lit("RNE", "RoundingMode"))
		}
		if m, ok := e.spec.Macros[x.Name]; ok && len(m.Params) == 0 {
			return n.eval(m.Body)
		}
		everr(x, "unknown identifier %s", x.Name)
	case "int":
		if strings.Contains(x.Name, ".") {
			return tv(b.Lit(x.Name, "Real"))
		}
		return tv(b.Lit2Int(x.Name))
	case "cast":
		v := n.eval(x.Kids[0])
		return &Val{Typ: e.specType(x.Name), T: n.toTerm(x, v)}
	case "un":
		t := n.term(x.Kids[0])
		if x.Name == "!" {
			return tv(b.Not(t))
		}
		if t.sort == "Int" {
			return tv(b.MulC(-1, t))
		}
		return tv(e.arith("neg", t))
	case "bin":
		return n.evalBin(x)
	case "forall", "exists":
		c := *n
		c.vars = map[string]*Val{}
		for a, v := range n.vars {
			c.vars[a] = v
		}
		var bs []*Term
		for _, v := range x.Vars {
			e.qn++
			bv := b.BVar(fmt.Sprintf("?%s_%d", v.Name, e.qn), e.specSort(v.Type))
			bs = append(bs, bv)
			c.vars[v.Name] = &Val{Typ: e.specType(v.Type), T: bv}
		}
		body := c.boolean(x.Kids[0])
		if x.Op == "exists" {
			return tv(b.Exists(bs, body))
		}
		var pats [][]*Term
		for _, p := range x.Pats {
			var ts []*Term
			for _, q := range p {
				ts = append(ts, c.term(q))
			}
			pats = append(pats, ts)
		}
		// canonicalise bound names: depend on body structure only
		if len(pats) == 0 {
			pats = e.inferPats(bs, body)
		}
		return tv(e.canonForall(bs, pats, body))
	case "field":
		// raw heap key?
		v := n.eval(x.Kids[0])
		return n.field(x, v, x.Name)
	case "index":
		v := n.eval(x.Kids[0])
		i := n.term(x.Kids[1])
		if v.S != nil {
			el := v.Typ.Underlying().(*types.Slice).Elem()
			return &Val{Typ: el, T: b.Select(n.sview(v, n.st), i)}
		}
		if v.T == nil || !strings.HasPrefix(v.T.sort, "(Array") {
			everr(x, "indexing a non-array")
		}
		return tv(b.Select(v.T, i))
	case "call":
		return n.call(x)
	}
	everr(x, "cannot evaluate %s", x.Op)
	return nil
}

func (b *TB) Lit2Int(s string) *Term {
	var z = newBig(s)
	return b.BigInt(z)
}

func (n *Env) field(x *Node, v *Val, name string) *Val {
	e := n.e
	if v.S != nil {
		switch name {
		case "arr":
			return &Val{T: v.S.Arr}
		case "off":
			return &Val{T: v.S.Off}
		case "len":
			return &Val{T: v.S.Len}
		case "cap":
			return &Val{T: v.S.Cap}
		}
		everr(x, "field %s of a slice", name)
	}
	if v.Typ == nil {
		everr(x, "field %s of an untyped value", name)
	}
	if v.F != nil {
		st := v.Typ.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return v.F[i]
			}
		}
	}
	t := v.Typ
	if _, ok := t.Underlying().(*types.Interface); ok {
		if nm, ok := t.(*types.Named); ok {
			rep, ok := e.spec.IfaceRep[nm.Obj().Pkg().Name()+"."+nm.Obj().Name()]
			if !ok {
				everr(x, "no representative for interface %v", t)
			}
			t = e.pr.named[rep]
		}
	}
	k, ft, ok := e.fieldKey(t, name)
	if !ok {
		everr(x, "no field %s in %v", name, t)
	}
	if v.Addr != nil {
		a := &Addr{Kind: "field", Ref: v.Addr.Ref, Key: v.Addr.Key + "." + name, Typ: ft}
		return e.hdrFact(e.loadAddr(n.st, a))
	}
	return e.hdrFact(e.loadAddr(n.st, &Addr{Kind: "field", Ref: v.T, Key: k, Typ: ft}))
}

func (e *Engine) arith(op string, args ...*Term) *Term {
	b := e.tb
	s := args[0].sort
	if s == "Real" {
		switch op {
		case "add":
			return b.App("+", "Real", args...)
		case "sub":
			return b.App("-", "Real", args...)
		case "mul":
			return b.App("*", "Real", args...)
		case "div":
			return b.App("/", "Real", args...)
		case "neg":
			return b.App("-", "Real", args...)
		case "lt":
			return b.Lt(args[0], args[1])
		case "le":
			return b.Le(args[0], args[1])
		case "eq":
			return b.Eq(args[0], args[1])
		}
	}
	if (e.mode.FP && (s == "F32" || s == "F64")) || strings.HasPrefix(s, "(_ FloatingPoint") {
		rne := b.Lit("RNE", "RoundingMode")
		switch op {
		case "add", "sub", "mul", "div":
			return b.App("fp."+op, s, append([]*Term{rne}, args...)...)
		case "neg":
			return b.App("fp.neg", s, args...)
		case "lt":
			return b.App("fp.lt", "Bool", args...)
		case "le":
			return b.App("fp.leq", "Bool", args...)
		case "eq":
			return b.App("fp.eq", "Bool", args...)
		}
	}
	if !isNumSort(s) {
		panic(evalErr{"arith " + op + " on sort " + s})
	}
	// native-typed floats and generic numbers: uninterpreted
	res := s
	if op == "lt" || op == "le" || op == "eq" {
		res = "Bool"
	}
	f := op + "." + s
	var as []string
	for range args {
		as = append(as, s)
	}
	b.Declare(f, res, as...)
	if (op == "add" || op == "mul" || op == "eq") && args[0].id > args[1].id {
		// commutative operators: canonical order; the axiom covers the rest
	}
	return b.Fn(f, args...)
}

func (n *Env) evalBin(x *Node) *Val {
	e := n.e
	b := e.tb
	tv := func(t *Term) *Val { return &Val{T: t} }
	switch x.Name {
	case "&&":
		return tv(b.And(n.boolean(x.Kids[0]), n.boolean(x.Kids[1])))
	case "||":
		return tv(b.Or(n.boolean(x.Kids[0]), n.boolean(x.Kids[1])))
	case "==>":
		return tv(b.Imp(n.boolean(x.Kids[0]), n.boolean(x.Kids[1])))
	case "<==>":
		return tv(b.Eq(n.boolean(x.Kids[0]), n.boolean(x.Kids[1])))
	}
	lv, rv := n.eval(x.Kids[0]), n.eval(x.Kids[1])
	if x.Name == "==" || x.Name == "!=" {
		if lv.S != nil && rv.S != nil {
			t := b.And(b.Eq(lv.S.Arr, rv.S.Arr), b.Eq(lv.S.Off, rv.S.Off), b.Eq(lv.S.Len, rv.S.Len), b.Eq(lv.S.Cap, rv.S.Cap))
			if x.Name == "!=" {
				t = b.Not(t)
			}
			return tv(t)
		}
		if lv.S != nil && rv.T != nil && rv.T.isInt() {
			lv = tv(lv.S.Arr)
		}
	}
	l, r := n.toTerm(x.Kids[0], lv), n.toTerm(x.Kids[1], rv)
	l, r = n.coerce(l, r)
	if l.sort != r.sort {
		everr(x, "%s on sorts %s and %s", x.Name, l.sort, r.sort)
	}
	switch x.Name {
	case "==":
		return tv(b.Eq(l, r))
	case "!=":
		return tv(b.Not(b.Eq(l, r)))
	}
	if l.sort == "Int" {
		switch x.Name {
		case "+":
			return tv(b.Add(l, r))
		case "-":
			return tv(b.Sub(l, r))
		case "*":
			return tv(b.IMul(l, r))
		case "/":
			return tv(e.idiv(l, r))
		case "%":
			return tv(e.imod(l, r))
		case "<":
			return tv(b.Lt(l, r))
		case "<=":
			return tv(b.Le(l, r))
		case ">":
			return tv(b.Lt(r, l))
		case ">=":
			return tv(b.Le(r, l))
		}
	}
	m := map[string]string{"+": "add", "-": "sub", "*": "mul", "/": "div"}
	if o, ok := m[x.Name]; ok {
		return tv(e.arith(o, l, r))
	}
	switch x.Name {
	case "<":
		return tv(e.arith("lt", l, r))
	case "<=":
		return tv(e.arith("le", l, r))
	case ">":
		return tv(e.arith("lt", r, l))
	case ">=":
		return tv(e.arith("le", r, l))
	}
	everr(x, "operator %s on %s", x.Name, l.sort)
	return nil
}

// division and remainder of non-negative integers (Go semantics agree with SMT there)
func (e *Engine) idiv(x, y *Term) *Term {
	b := e.tb
	if x.isInt() && y.isInt() && y.ival.Sign() > 0 && x.ival.Sign() >= 0 {
		return b.BigInt(newBig("0").Div(x.ival, y.ival))
	}
	if y.isInt() && y.ival.Sign() > 0 {
		return b.App("div", "Int", x, y)
	}
	b.Declare("idiv", "Int", "Int", "Int")
	return b.Fn("idiv", x, y)
}
func (e *Engine) imod(x, y *Term) *Term {
	b := e.tb
	if x.isInt() && y.isInt() && y.ival.Sign() > 0 && x.ival.Sign() >= 0 {
		return b.BigInt(newBig("0").Mod(x.ival, y.ival))
	}
	if y.isInt() && y.ival.Sign() > 0 {
		return b.App("mod", "Int", x, y)
	}
	b.Declare("imod", "Int", "Int", "Int")
	return b.Fn("imod", x, y)
}

func (n *Env) call(x *Node) *Val {
	e := n.e
	b := e.tb
	tv := func(t *Term) *Val { return &Val{T: t} }
	switch x.Name {
	case "len":
		v := n.eval(x.Kids[0])
		if v.S == nil {
			everr(x, "len of non-slice")
		}
		return tv(v.S.Len)
	case "old":
		if n.old == nil {
			everr(x, "old() not available here")
		}
		c := *n
		c.st = n.old
		return c.evalIn(x.Kids[0], n.old)
	case "pre":
		if n.pre == nil {
			everr(x, "pre() not available here")
		}
		c := *n
		c.st = n.pre
		return c.evalIn(x.Kids[0], n.pre)
	case "view": // the logical array of a slice in the current state
		v := n.eval(x.Kids[0])
		return tv(n.sview(v, n.st))
	case "heap":
		k := dotted(x.Kids[0])
		if _, ok := e.keys[k]; !ok {
			e.regNamedKey(k)
		}
		return tv(e.hget(n.st, k))
	case "fresh":
		t := n.term1(x.Kids[0])
		return tv(b.And(b.Lt(n.old.alloc, t), b.Le(t, n.st.alloc)))
	case "allocated":
		t := n.term1(x.Kids[0])
		return tv(b.And(b.Lt(b.Int(0), t), b.Le(t, n.st.alloc)))
	case "ite":
		c := n.boolean(x.Kids[0])
		p, q := n.coerce(n.term(x.Kids[1]), n.term(x.Kids[2]))
		return tv(b.Ite(c, p, q))
	case "store":
		a := n.term(x.Kids[0])
		i := n.term(x.Kids[1])
		v := n.term(x.Kids[2])
		return tv(b.Store(a, i, v))
	case "let": // let(x, e, body)
		return n.with(x.Kids[0].Name, n.eval(x.Kids[1])).eval(x.Kids[2])
	case "feq":
		p, q := n.coerce(n.term(x.Kids[0]), n.term(x.Kids[1]))
		return tv(e.arith("eq", p, q))
	case "apply": // apply(f, x): a pure function value applied to one number
		f, a := n.term(x.Kids[0]), n.term(x.Kids[1])
		nm := "apply." + a.sort + "." + a.sort
		b.Declare(nm, a.sort, "Int", a.sort)
		return tv(b.Fn(nm, f, a))
	case "semop": // semop(o, H): the effect of executing operation o on the scalar values H
		o, h := n.eval(x.Kids[0]), n.term(x.Kids[1])
		if o.Dyn != nil {
			if p, ok := o.Dyn.Typ.(*types.Pointer); ok {
				if nt, ok := p.Elem().(*types.Named); ok {
					if m, ok := e.spec.Macros["sem_"+nt.Obj().Name()]; ok {
						c := *n
						c.vars = map[string]*Val{m.Params[0]: o.Dyn, m.Params[1]: tv(h)}
						return c.eval(m.Body)
					}
				}
			}
		}
		b.Declare("sem."+sortTag(h.sort), h.sort, "Int", h.sort)
		return tv(b.Fn("sem."+sortTag(h.sort), o.T, h))
	case "isa": // isa(r, pkg.Type): the interface value r holds a *Type
		o := n.eval(x.Kids[0])
		want := x.Kids[1].Name
		if x.Kids[1].Op == "field" {
			want = x.Kids[1].Kids[0].Name + "." + x.Kids[1].Name
		}
		b.Declare("dyntag", "Int", "Int")
		u := b.Eq(b.Fn("dyntag", o.T), b.BigInt(typeTag(want)))
		if o.Dyn != nil {
			if p, ok := o.Dyn.Typ.(*types.Pointer); ok {
				if nt, ok := p.Elem().(*types.Named); ok && nt.Obj().Pkg().Name()+"."+nt.Obj().Name() == want {
					return tv(b.Bool(true))
				}
			}
			return tv(b.Bool(false))
		}
		return tv(u)
	case "tokT": // kind of an element token
		return tv(b.BigInt(typeTag("binary.littleEndian:T")))
	case "tokU": // kind of a size token
		return tv(b.BigInt(typeTag("binary.littleEndian:uint64")))
	case "okop": // okop(o): the operation's cells are there
		o := n.eval(x.Kids[0])
		if o.Dyn != nil {
			if p, ok := o.Dyn.Typ.(*types.Pointer); ok {
				if nt, ok := p.Elem().(*types.Named); ok {
					if m, ok := e.spec.Macros["ok_"+nt.Obj().Name()]; ok {
						c := *n
						c.vars = map[string]*Val{m.Params[0]: o.Dyn}
						return c.eval(m.Body)
					}
				}
			}
		}
		b.Declare("okop", "Bool", "Int")
		return tv(b.Fn("okop", o.T))
	case "tonum", "tof64", "tof32": // the Go conversion of a number to T, float64, float32
		a := n.term(x.Kids[0])
		ts := e.srt(map[string]string{"tonum": "Num", "tof64": "F64", "tof32": "F32"}[x.Name])
		switch {
		case a.sort == ts:
			return tv(a)
		case a.isInt():
			return tv(e.numLit(ts, a.ival.String()))
		case ts == "Real":
			return tv(b.App("to_real", "Real", a))
		case a.op == "lit."+a.sort:
			b.Declare("lit."+ts, ts, "Real")
			return tv(b.App("lit."+ts, ts, a.args[0]))
		}
		tag := a.sort
		if !isNumSort(a.sort) {
			tag = sortTag(a.sort)
		}
		f := "conv." + tag + "." + ts
		b.Declare(f, ts, a.sort)
		return tv(b.Fn(f, a))
	case "sliceeq": // same contents: sliceeq(a, b)
		return tv(b.Eq(n.term(x.Kids[0]), n.term(x.Kids[1])))
	case "const": // const("expr")
	}
	if m, ok := e.spec.Macros[x.Name]; ok {
		if len(m.Params) != len(x.Kids) {
			everr(x, "macro %s expects %d arguments", x.Name, len(m.Params))
		}
		c := *n
		c.vars = map[string]*Val{}
		for i, p := range m.Params {
			c.vars[p] = n.eval(x.Kids[i])
		}
		return c.eval(m.Body)
	}
	if sf, ok := e.funs[x.Name]; ok {
		var as []*Term
		if len(x.Kids) != len(sf.Params) {
			everr(x, "%s expects %d arguments", x.Name, len(sf.Params))
		}
		for i, k := range x.Kids {
			v := n.eval(k)
			t := n.toTerm(k, v)
			want := e.specSort(sf.Params[i].Type)
			if t.sort != want {
				t, _ = n.coerce(t, b.Var("?dummy", want))
			}
			if t.sort != want {
				everr(x, "%s: argument %d has sort %s, want %s", x.Name, i, t.sort, want)
			}
			as = append(as, t)
		}
		return &Val{Typ: e.resType(sf), T: b.Fn(x.Name, as...)}
	}
	if f, ok := e.builtinFn(n, x); ok {
		return tv(f)
	}
	everr(x, "unknown function %s", x.Name)
	return nil
}

func (e *Engine) resType(sf *SpecFun) types.Type {
	if strings.Contains(sf.Res, ".") {
		return e.specType(sf.Res)
	}
	return nil
}

func (n *Env) term1(x *Node) *Term {
	v := n.eval(x)
	if v.S != nil {
		return v.S.Arr
	}
	return n.toTerm(x, v)
}

// evalIn evaluates x with slices bound before the state switch read in that state too.
func (n *Env) evalIn(x *Node, st *State) *Val {
	v := n.eval(x)
	if v.S != nil {
		// freeze: keep as slice header; reading elements outside old() uses the outer state
		return v
	}
	return v
}

func (e *Engine) builtinFn(n *Env, x *Node) (*Term, bool) {
	b := e.tb
	args := func() []*Term {
		var as []*Term
		for _, k := range x.Kids {
			as = append(as, n.term(k))
		}
		return as
	}
	switch x.Name {
	case "bvand", "bvor", "bvxor", "bvadd", "bvsub", "bvmul", "bvshl", "bvlshr", "bvudiv", "bvurem":
		as := args()
		p, q := n.coerce(as[0], as[1])
		return b.App(x.Name, p.sort, p, q), true
	case "bvult", "bvule", "bvugt", "bvuge", "bvslt", "bvsle", "bvsgt", "bvsge":
		as := args()
		p, q := n.coerce(as[0], as[1])
		return b.App(x.Name, "Bool", p, q), true
	case "zext32": // a 16-bit vector as 32 bits
		return b.App("(_ zero_extend 16)", "(_ BitVec 32)", args()...), true
	case "fpIsNaN":
		return b.App("fp.isNaN", "Bool", args()...), true
	case "fpIsInf":
		return b.App("fp.isInfinite", "Bool", args()...), true
	case "fpIsZero":
		return b.App("fp.isZero", "Bool", args()...), true
	case "mexp", "mtanh", "msin", "mcos", "mcosh", "msqrt":
		f := "math." + strings.ToUpper(x.Name[1:2]) + x.Name[2:]
		fs := e.srt("F64")
		b.Declare(f, fs, fs)
		return b.Fn(f, args()...), true
	case "fpIsSub":
		return b.App("fp.isSubnormal", "Bool", args()...), true
	case "fpIsNeg":
		return b.App("fp.isNegative", "Bool", args()...), true
	case "f16ofbits":
		return b.App("(_ to_fp 5 11)", "(_ FloatingPoint 5 11)", args()...), true
	case "f32ofbits":
		return b.App("(_ to_fp 8 24)", "F32", args()...), true
	case "f64ofbits":
		return b.App("(_ to_fp 11 53)", "F64", args()...), true
	case "f32of": // fp -> f32
		return b.App("(_ to_fp 8 24)", "F32", append([]*Term{b.Lit("RNE", "RoundingMode")}, args()...)...), true
	case "f64of":
		return b.App("(_ to_fp 11 53)", "F64", append([]*Term{b.Lit("RNE", "RoundingMode")}, args()...)...), true
	case "f16of":
		return b.App("(_ to_fp 5 11)", "(_ FloatingPoint 5 11)", append([]*Term{b.Lit("RNE", "RoundingMode")}, args()...)...), true
	case "f16rtz":
		return b.App("(_ to_fp 5 11)", "(_ FloatingPoint 5 11)", append([]*Term{b.Lit("RTZ", "RoundingMode")}, args()...)...), true
	case "fpeq":
		return b.App("fp.eq", "Bool", args()...), true
	case "fpabs":
		as := args()
		return b.App("fp.abs", as[0].sort, as...), true
	}
	return nil, false
}

// inferPats selects trigger terms for a universally quantified body.
func (e *Engine) inferPats(vs []*Term, body *Term) [][]*Term {
	isV := map[*Term]bool{}
	for _, v := range vs {
		isV[v] = true
	}
	type info struct {
		vars map[*Term]bool
		ok   bool // no arithmetic/logic over own bvars on the way
	}
	memo := map[*Term]*info{}
	var get func(t *Term) *info
	get = func(t *Term) *info {
		if i, ok := memo[t]; ok {
			return i
		}
		i := &info{vars: map[*Term]bool{}, ok: true}
		memo[t] = i
		if isV[t] {
			i.vars[t] = true
			return i
		}
		if !t.bound {
			return i
		}
		for _, a := range t.args {
			s := get(a)
			for v := range s.vars {
				i.vars[v] = true
			}
			if !s.ok && len(s.vars) > 0 {
				i.ok = false
			}
		}
		switch t.op {
		case "+", "*", "and", "or", "not", "=>", "=", "<", "<=", "ite", "forall", "exists", "div", "mod", "-":
			if len(i.vars) > 0 {
				i.ok = false
			}
		}
		return i
	}
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.bound {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if len(t.args) > 0 {
			i := get(t)
			if i.ok && len(i.vars) > 0 && t.sort != "" && !isLogic(t.op) {
				// no foreign (outer) bound variables problem: they are constants here
				cands = append(cands, t)
			}
		}
	}
	walk(body)
	// minimal full covers
	var full []*Term
	for _, c := range cands {
		if len(get(c).vars) == len(vs) {
			min := true
			for _, a := range c.args {
				if len(a.args) > 0 && len(get(a).vars) == len(vs) && get(a).ok && !isLogic(a.op) {
					min = false
				}
			}
			if min {
				full = append(full, c)
			}
		}
	}
	if len(full) > 0 {
		var out [][]*Term
		for _, c := range full {
			out = append(out, []*Term{c})
			if len(out) >= 6 {
				break
			}
		}
		return out
	}
	// greedy multi-pattern
	cov := map[*Term]bool{}
	var mp []*Term
	for _, c := range cands {
		nw := false
		for v := range get(c).vars {
			if !cov[v] {
				nw = true
			}
		}
		if nw {
			mp = append(mp, c)
			for v := range get(c).vars {
				cov[v] = true
			}
		}
	}
	if len(cov) == len(vs) {
		return [][]*Term{mp}
	}
	return nil
}
func isLogic(op string) bool {
	switch op {
	case "and", "or", "not", "=>", "=", "<", "<=", "ite", "forall", "exists", "+", "*", "div", "mod", "-":
		return true
	}
	return false
}

// canonForall renames bound variables canonically so equal formulas are shared and cached.
func (e *Engine) canonForall(vs []*Term, pats [][]*Term, body *Term) *Term {
	b := e.tb
	depth := qdepth(body)
	m := map[*Term]*Term{}
	var nv []*Term
	for i, v := range vs {
		c := b.BVar(fmt.Sprintf("?q%d_%d", depth, i), v.sort)
		m[v] = c
		nv = append(nv, c)
	}
	nb := b.Subst(body, m)
	var np [][]*Term
	for _, p := range pats {
		var q []*Term
		for _, t := range p {
			q = append(q, b.Subst(t, m))
		}
		np = append(np, q)
	}
	return b.Forall(nv, np, nb)
}
func qdepth(t *Term) int {
	memo := map[*Term]int{}
	var f func(t *Term) int
	f = func(t *Term) int {
		if d, ok := memo[t]; ok {
			return d
		}
		d := 0
		for _, a := range t.args {
			if x := f(a); x > d {
				d = x
			}
		}
		if t.op == "forall" || t.op == "exists" {
			d++
		}
		memo[t] = d
		return d
	}
	return f(t)
}

// assumption helper: split conjunctions
func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// hdrFact records the type invariant of a slice header read in a specification.
func (e *Engine) hdrFact(v *Val) *Val {
	if v.S == nil || v.S.Arr.bound || v.S.Len.bound || v.S.Cap.bound {
		return v
	}
	k := fmt.Sprint(v.S.Arr.id, ",", v.S.Len.id, ",", v.S.Cap.id)
	if e.hdrs[k] {
		return v
	}
	e.hdrs[k] = true
	b := e.tb
	syms := map[string]bool{}
	seen := map[*Term]bool{}
	symsOf(v.S.Arr, syms, seen)
	var ss []string
	for _, x := range sortedKeys(syms) {
		if strings.HasPrefix(x, "var:") {
			ss = append(ss, x)
		}
	}
	e.constAx = append(e.constAx, &Axiom{Name: "typing:header", Syms: ss, Kind: "typing",
		T: b.And(b.Le(b.Int(0), v.S.Len), b.Le(v.S.Len, v.S.Cap), b.Imp(b.Lt(b.Int(0), v.S.Cap), b.Lt(b.Int(0), v.S.Arr)))})
	return v
}

// typeTag gives every type name a number of its own.
func typeTag(name string) *big.Int {
	return new(big.Int).SetBytes([]byte(name))
}
