package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	id    int
	op    string // "var" (declared constant), "bvar" (bound), "int", "lit" (raw text), "app"-like operator name, "forall","exists"
	name  string // for var/bvar/lit; SMT symbol
	ival  *big.Int
	args  []*Term
	sort  string
	bound bool // contains free bound variables
	// quantifier
	bvars []*Term
	pats  [][]*Term
	key   string
	syms  map[string]bool // lazily computed uninterpreted symbols
}

type TB struct {
	tab    map[string]*Term
	n      int
	fsorts map[string]string // function symbol -> result sort  (declared functions)
	fargs  map[string][]string
	fresh  map[string]int
}

func NewTB() *TB {
	return &TB{tab: map[string]*Term{}, fsorts: map[string]string{}, fargs: map[string][]string{}, fresh: map[string]int{}}
}

func (b *TB) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	if t.ival != nil {
		sb.WriteString(t.ival.String())
	}
	sb.WriteByte('|')
	sb.WriteString(t.sort)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if len(t.bvars) > 0 {
		sb.WriteByte('#')
		for _, a := range t.bvars {
			sb.WriteByte(',')
			sb.WriteString(strconv.Itoa(a.id))
		}
		for _, p := range t.pats {
			sb.WriteByte('{')
			for _, a := range p {
				sb.WriteByte(',')
				sb.WriteString(strconv.Itoa(a.id))
			}
		}
	}
	k := sb.String()
	if x, ok := b.tab[k]; ok {
		return x
	}
	b.n++
	t.id = b.n
	t.key = k
	if t.op == "bvar" {
		t.bound = true
	} else if t.op == "forall" || t.op == "exists" {
		t.bound = freeBound(t)
	} else {
		for _, a := range t.args {
			if a.bound {
				t.bound = true
			}
		}
	}
	b.tab[k] = t
	return t
}

func freeBound(t *Term) bool {
	own := map[*Term]bool{}
	var walk func(x *Term, bnd map[*Term]bool) bool
	walk = func(x *Term, bnd map[*Term]bool) bool {
		if !x.bound {
			return false
		}
		if x.op == "bvar" {
			return !bnd[x]
		}
		if x.op == "forall" || x.op == "exists" {
			nb := map[*Term]bool{}
			for k := range bnd {
				nb[k] = true
			}
			for _, v := range x.bvars {
				nb[v] = true
			}
			return walk(x.args[0], nb)
		}
		for _, a := range x.args {
			if walk(a, bnd) {
				return true
			}
		}
		return false
	}
	for _, v := range t.bvars {
		own[v] = true
	}
	return walk(t.args[0], own)
}

func (b *TB) Var(name, srt string) *Term { return b.mk(&Term{op: "var", name: name, sort: srt}) }
func (b *TB) BVar(name, srt string) *Term {
	return b.mk(&Term{op: "bvar", name: name, sort: srt})
}
func (b *TB) Fresh(prefix, srt string) *Term {
	b.fresh[prefix]++
	return b.Var(fmt.Sprintf("%s!%d", sanitize(prefix), b.fresh[prefix]), srt)
}
func (b *TB) FreshB(prefix, srt string) *Term {
	b.fresh["?"+prefix]++
	return b.BVar(fmt.Sprintf("?%s%d", sanitize(prefix), b.fresh["?"+prefix]), srt)
}
func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '?' {
			sb.WriteRune(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}
func (b *TB) Int(n int64) *Term       { return b.BigInt(big.NewInt(n)) }
func (b *TB) BigInt(n *big.Int) *Term { return b.mk(&Term{op: "int", ival: n, sort: "Int"}) }
func (b *TB) Lit(s, srt string) *Term { return b.mk(&Term{op: "lit", name: s, sort: srt}) }
func (b *TB) True() *Term             { return b.Lit("true", "Bool") }
func (b *TB) False() *Term            { return b.Lit("false", "Bool") }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True()
	}
	return b.False()
}
func (t *Term) isTrue() bool  { return t.op == "lit" && t.name == "true" }
func (t *Term) isFalse() bool { return t.op == "lit" && t.name == "false" }
func (t *Term) isInt() bool   { return t.op == "int" }

func (b *TB) App(f string, srt string, args ...*Term) *Term {
	return b.mk(&Term{op: f, args: args, sort: srt})
}

// declared function application
func (b *TB) Fn(f string, args ...*Term) *Term {
	s, ok := b.fsorts[f]
	if !ok {
		panic("undeclared function " + f)
	}
	if len(args) != len(b.fargs[f]) {
		panic(fmt.Sprintf("arity of %s: got %d want %d", f, len(args), len(b.fargs[f])))
	}
	for i, a := range args {
		if a.sort != b.fargs[f][i] {
			panic(fmt.Sprintf("%s: arg %d has sort %s, want %s", f, i, a.sort, b.fargs[f][i]))
		}
	}
	if f == "imul" {
		return b.IMul(args[0], args[1])
	}
	return b.mk(&Term{op: f, args: args, sort: s})
}
func (b *TB) Declare(f, res string, args ...string) {
	if _, ok := b.fsorts[f]; ok {
		return
	}
	b.fsorts[f] = res
	b.fargs[f] = args
}

func (b *TB) Not(x *Term) *Term {
	if x.isTrue() {
		return b.False()
	}
	if x.isFalse() {
		return b.True()
	}
	if x.op == "not" {
		return x.args[0]
	}
	return b.App("not", "Bool", x)
}
func (b *TB) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x.isTrue() {
			return true
		}
		if x.isFalse() {
			return false
		}
		if x.op == "and" {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return b.False()
		}
	}
	if len(out) == 0 {
		return b.True()
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.App("and", "Bool", out...)
}
func (b *TB) Or(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x.isTrue() {
			return x
		}
		if x.isFalse() {
			continue
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return b.False()
	}
	if len(out) == 1 {
		return out[0]
	}
	return b.App("or", "Bool", out...)
}
func (b *TB) Imp(x, y *Term) *Term {
	if x.isTrue() {
		return y
	}
	if x.isFalse() || y.isTrue() {
		return b.True()
	}
	if y.isFalse() {
		return b.Not(x)
	}
	return b.App("=>", "Bool", x, y)
}
func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.sort == "Bool" && x.isTrue() && y.isFalse() {
		return c
	}
	return b.App("ite", x.sort, c, x, y)
}
func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s = %s", x.sort, y.sort, x, y))
	}
	if x.sort == "Int" {
		if d, ok := b.constDiff(x, y); ok {
			return b.Bool(d.Sign() == 0)
		}
	}
	if x.sort == "Bool" {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.op == "lit" && y.op == "lit" && x.sort != "Bool" && strings.HasPrefix(x.sort, "(_ BitVec") {
		return b.Bool(x.name == y.name)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.App("=", "Bool", x, y)
}

// linear arithmetic normal form
type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func (b *TB) toLin(t *Term) *lin {
	l := &lin{c: big.NewInt(0), co: map[*Term]*big.Int{}}
	b.accLin(l, t, big.NewInt(1))
	return l
}
func (b *TB) accLin(l *lin, t *Term, k *big.Int) {
	switch {
	case t.op == "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
	case t.op == "+":
		for _, a := range t.args {
			b.accLin(l, a, k)
		}
	case t.op == "*" && t.args[0].op == "int":
		b.accLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].ival))
	default:
		if o, ok := l.co[t]; ok {
			o2 := new(big.Int).Add(o, k)
			if o2.Sign() == 0 {
				delete(l.co, t)
			} else {
				l.co[t] = o2
			}
		} else {
			l.co[t] = new(big.Int).Set(k)
		}
	}
}
func (b *TB) fromLin(l *lin) *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var args []*Term
	one := big.NewInt(1)
	for _, t := range ts {
		k := l.co[t]
		if k.Cmp(one) == 0 {
			args = append(args, t)
		} else {
			args = append(args, b.App("*", "Int", b.BigInt(k), t))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, b.BigInt(new(big.Int).Set(l.c)))
	}
	if len(args) == 1 {
		return args[0]
	}
	return b.App("+", "Int", args...)
}
func (b *TB) constDiff(x, y *Term) (*big.Int, bool) {
	l := b.toLin(x)
	b.accLin(l, y, big.NewInt(-1))
	if len(l.co) == 0 {
		return l.c, true
	}
	return nil, false
}
func (b *TB) Add(xs ...*Term) *Term {
	if xs[0].sort == "Real" {
		return b.App("+", "Real", xs...)
	}
	l := &lin{c: big.NewInt(0), co: map[*Term]*big.Int{}}
	for _, x := range xs {
		b.accLin(l, x, big.NewInt(1))
	}
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	if x.sort == "Real" {
		return b.App("-", "Real", x, y)
	}
	l := b.toLin(x)
	b.accLin(l, y, big.NewInt(-1))
	return b.fromLin(l)
}
func (b *TB) MulC(k int64, x *Term) *Term {
	l := &lin{c: big.NewInt(0), co: map[*Term]*big.Int{}}
	b.accLin(l, x, big.NewInt(k))
	return b.fromLin(l)
}
func (b *TB) IMul(x, y *Term) *Term {
	if x.op == "int" {
		l := &lin{c: big.NewInt(0), co: map[*Term]*big.Int{}}
		b.accLin(l, y, x.ival)
		return b.fromLin(l)
	}
	if y.op == "int" {
		return b.IMul(y, x)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.App("imul", "Int", x, y)
}
func (b *TB) Le(x, y *Term) *Term {
	if x.sort == "Int" {
		if d, ok := b.constDiff(x, y); ok {
			return b.Bool(d.Sign() <= 0)
		}
	}
	return b.App("<=", "Bool", x, y)
}
func (b *TB) Lt(x, y *Term) *Term {
	if x.sort == "Int" {
		if d, ok := b.constDiff(x, y); ok {
			return b.Bool(d.Sign() < 0)
		}
	}
	return b.App("<", "Bool", x, y)
}

func arr(s string) string { return "(Array Int " + s + ")" }
func elemSort(s string) string {
	if !strings.HasPrefix(s, "(Array Int ") {
		panic("not an array sort: " + s)
	}
	return s[len("(Array Int ") : len(s)-1]
}

func (b *TB) Select(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if d, ok := b.constDiff(a.args[1], i); ok {
				if d.Sign() == 0 {
					return a.args[2]
				}
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	return b.App("select", elemSort(a.sort), a, i)
}
func (b *TB) Store(a, i, v *Term) *Term {
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("Store sort mismatch %s <- %s", a.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return b.App("store", a.sort, a, i, v)
}
func (b *TB) ConstArr(v *Term) *Term { return b.App("constarr", arr(v.sort), v) }

func (b *TB) Forall(vs []*Term, pats [][]*Term, body *Term) *Term {
	if body.isTrue() || len(vs) == 0 {
		return body
	}
	var ok [][]*Term
	for _, p := range pats {
		if patOK(vs, p) {
			ok = append(ok, p)
		}
	}
	return b.mk(&Term{op: "forall", bvars: vs, pats: ok, args: []*Term{body}, sort: "Bool"})
}

// patOK: every term is an application without interpreted connectives at the
// top, and the terms together mention every bound variable.
func patOK(vs []*Term, p []*Term) bool {
	seen := map[*Term]bool{}
	bad := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.op {
		case "ite", "and", "or", "not", "=>", "=", "<=", "<", "forall", "exists":
			bad = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range p {
		switch t.op {
		case "int", "lit", "var", "bvar", "+", "*", "constarr", "true", "false":
			return false
		}
		walk(t)
	}
	if bad {
		return false
	}
	for _, v := range vs {
		if !seen[v] {
			return false
		}
	}
	return true
}
func (b *TB) Exists(vs []*Term, body *Term) *Term {
	return b.mk(&Term{op: "exists", bvars: vs, args: []*Term{body}, sort: "Bool"})
}

// substitution of bound/declared constants
func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var go_ func(t *Term) *Term
	go_ = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = go_(a)
			if na[i] != a {
				ch = true
			}
		}
		var np [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, a := range p {
				x := go_(a)
				if x != a {
					ch = true
				}
				q = append(q, x)
			}
			np = append(np, q)
		}
		r := t
		if ch {
			r = b.rebuild(t, na, np)
		}
		memo[t] = r
		return r
	}
	return go_(t)
}
func (b *TB) rebuild(t *Term, na []*Term, np [][]*Term) *Term {
	switch t.op {
	case "and":
		return b.And(na...)
	case "or":
		return b.Or(na...)
	case "not":
		return b.Not(na[0])
	case "=>":
		return b.Imp(na[0], na[1])
	case "ite":
		return b.Ite(na[0], na[1], na[2])
	case "=":
		return b.Eq(na[0], na[1])
	case "+":
		return b.Add(na...)
	case "imul":
		return b.IMul(na[0], na[1])
	case "*":
		if t.sort == "Int" {
			return b.IMul(na[0], na[1])
		}
	case "<=":
		return b.Le(na[0], na[1])
	case "<":
		return b.Lt(na[0], na[1])
	case "select":
		return b.Select(na[0], na[1])
	case "store":
		return b.Store(na[0], na[1], na[2])
	case "sv":
		return b.SV(na[0], na[1])
	case "offadd":
		return b.OffAdd(na[0], na[1])
	case "forall":
		return b.Forall(t.bvars, np, na[0])
	}
	return b.mk(&Term{op: t.op, name: t.name, ival: t.ival, args: na, sort: t.sort, bvars: t.bvars, pats: np})
}

// slice view: array whose k-th element is a[o+k]
func (b *TB) SV(a, o *Term) *Term {
	if o.isInt() && o.ival.Sign() == 0 {
		return a
	}
	if a.op == "store" {
		return b.Store(b.SV(a.args[0], o), b.Sub(a.args[1], o), a.args[2])
	}
	if a.op == "constarr" {
		return a
	}
	if o.op == "offadd" {
		return b.SV(b.SV(a, o.args[0]), o.args[1])
	}
	return b.App("sv", a.sort, a, o)
}

// OffAdd is the offset of a slice of a slice: x+y, kept apart so that its view
// is a view of the outer slice's view.
func (b *TB) OffAdd(x, y *Term) *Term {
	if x.isInt() || y.isInt() {
		return b.Add(x, y)
	}
	return b.mk(&Term{op: "offadd", args: []*Term{x, y}, sort: "Int"})
}

func (t *Term) String() string {
	var sb strings.Builder
	writeTerm(&sb, t, nil)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.op {
	case "var", "bvar", "lit":
		if t.op != "lit" {
			sb.WriteString("|" + t.name + "|")
		} else {
			sb.WriteString(t.name)
		}
		return
	case "int":
		if t.ival.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.ival).String() + ")")
		} else {
			sb.WriteString(t.ival.String())
		}
		return
	case "constarr":
		sb.WriteString("((as const " + t.sort + ") ")
		writeTerm(sb, t.args[0], names)
		sb.WriteString(")")
		return
	case "sv":
		sb.WriteString("(sv." + sortTag(t.sort) + " ")
		writeTerm(sb, t.args[0], names)
		sb.WriteString(" ")
		writeTerm(sb, t.args[1], names)
		sb.WriteString(")")
		return
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			sb.WriteString("(|" + v.name + "| " + v.sort + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], names)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				writeTerm(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	if len(t.args) == 0 {
		sb.WriteString(t.op)
		return
	}
	if t.op == "offadd" {
		sb.WriteString("(+")
	} else {
		sb.WriteString("(" + t.op)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		writeTerm(sb, a, names)
	}
	sb.WriteString(")")
}

func sortTag(s string) string {
	return strings.NewReplacer("(", "", ")", "", " ", "_").Replace(s)
}
