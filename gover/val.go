package main

// Values, types, heaps.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SliceV struct{ Arr, Off, Len, Cap *Term }
type Addr struct {
	Kind string // field, elem
	Ref  *Term
	Idx  *Term
	SOff *Term // slice offset and index for element addresses reached through a slice
	SIdx *Term
	Key  string
	Typ  types.Type
}
type Clo struct {
	Fn    *ssa.Function
	Binds []*Val
}
type Val struct {
	Typ  types.Type
	T    *Term
	S    *SliceV
	F    []*Val
	Addr *Addr
	Dyn  *Val
	Clo  *Clo
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

type comp struct{ suf, sort, class string }

func isTensorLikeNum(t types.Type) bool {
	_, ok := t.(*types.TypeParam)
	return ok
}

func (e *Engine) basicSort(b *types.Basic) (string, string) {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return "Bool", "bool"
	case b.Info()&types.IsInteger != 0:
		if e.mode.FP {
			return fmt.Sprintf("(_ BitVec %d)", intWidth(b)), "bv"
		}
		if b.Info()&types.IsUnsigned != 0 {
			return "Int", "uint"
		}
		return "Int", "int"
	case b.Kind() == types.Float32:
		return "F32", "f32"
	case b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat:
		return "F64", "f64"
	case b.Info()&types.IsString != 0:
		return "Int", "str"
	case b.Kind() == types.UntypedNil || b.Kind() == types.UnsafePointer:
		return "Int", "ref"
	}
	unsup("basic type %v", b)
	return "", ""
}
func intWidth(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isInteger(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloaty(t types.Type) bool {
	if _, ok := t.(*types.TypeParam); ok {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (e *Engine) comps(t types.Type) []comp {
	if _, ok := t.(*types.TypeParam); ok {
		return []comp{{"", "Num", "num"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		s, c := e.basicSort(u)
		return []comp{{"", s, c}}
	case *types.Pointer, *types.Interface, *types.Signature, *types.Map, *types.Chan:
		return []comp{{"", "Int", "ref"}}
	case *types.Slice:
		return []comp{{".arr", "Int", "ref"}, {".off", "Int", "uint"}, {".len", "Int", "uint"}, {".cap", "Int", "uint"}}
	case *types.Struct:
		var out []comp
		for i := 0; i < u.NumFields(); i++ {
			for _, c := range e.comps(u.Field(i).Type()) {
				out = append(out, comp{"." + u.Field(i).Name() + c.suf, c.sort, c.class})
			}
		}
		return out
	case *types.Array:
		return []comp{{"", "Int", "ref"}}
	case *types.Tuple:
		var out []comp
		for i := 0; i < u.Len(); i++ {
			for _, c := range e.comps(u.At(i).Type()) {
				out = append(out, comp{fmt.Sprintf(".%d", i) + c.suf, c.sort, c.class})
			}
		}
		return out
	}
	unsup("type %v", t)
	return nil
}

func (e *Engine) flatten(v *Val) []*Term {
	if v.S != nil {
		return []*Term{v.S.Arr, v.S.Off, v.S.Len, v.S.Cap}
	}
	if v.T != nil {
		return []*Term{v.T}
	}
	if v.Addr != nil {
		// an interior pointer stored as data: opaque non-nil reference
		unsup("interior pointer used as data (%s)", v.Addr.Key)
	}
	if v.Clo != nil {
		return []*Term{e.cloTerm(v.Clo)}
	}
	var out []*Term
	for _, f := range v.F {
		out = append(out, e.flatten(f)...)
	}
	return out
}

func (e *Engine) unflatten(t types.Type, ts []*Term) *Val {
	v, rest := e.unfl(t, ts)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}
func (e *Engine) unfl(t types.Type, ts []*Term) (*Val, []*Term) {
	if _, ok := t.(*types.TypeParam); ok {
		return &Val{Typ: t, T: ts[0]}, ts[1:]
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &Val{Typ: t, S: &SliceV{ts[0], ts[1], ts[2], ts[3]}}, ts[4:]
	case *types.Struct:
		v := &Val{Typ: t, F: []*Val{}}
		for i := 0; i < u.NumFields(); i++ {
			var f *Val
			f, ts = e.unfl(u.Field(i).Type(), ts)
			v.F = append(v.F, f)
		}
		return v, ts
	case *types.Tuple:
		v := &Val{Typ: t, F: []*Val{}}
		for i := 0; i < u.Len(); i++ {
			var f *Val
			f, ts = e.unfl(u.At(i).Type(), ts)
			v.F = append(v.F, f)
		}
		return v, ts
	}
	return &Val{Typ: t, T: ts[0]}, ts[1:]
}

func (e *Engine) zeroOf(sort string) *Term {
	b := e.tb
	switch sort {
	case "Int":
		return b.Int(0)
	case "Bool":
		return b.False()
	case "Num", "F32", "F64":
		return e.numLit(sort, "0")
	}
	if strings.HasPrefix(sort, "(_ BitVec ") {
		return b.Lit(fmt.Sprintf("(_ bv0 %s)", strings.TrimSuffix(sort[len("(_ BitVec "):], ")")), sort)
	}
	panic("zeroOf " + sort)
}
func (e *Engine) zeroVal(t types.Type) *Val {
	var ts []*Term
	for _, c := range e.comps(t) {
		ts = append(ts, e.zeroOf(c.sort))
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		return &Val{Typ: t, F: []*Val{}}
	}
	return e.unflatten(t, ts)
}

// numLit builds a numeric literal (exact rational text "a" or "a/b") of a float sort.
func (e *Engine) numLit(sort, txt string) *Term {
	b := e.tb
	neg := strings.HasPrefix(txt, "-")
	if neg {
		txt = txt[1:]
	}
	num, den := txt, "1"
	if i := strings.Index(txt, "/"); i >= 0 {
		num, den = txt[:i], txt[i+1:]
	}
	r := num + ".0"
	if den != "1" {
		r = "(/ " + num + ".0 " + den + ".0)"
	}
	if neg {
		r = "(- " + r + ")"
	}
	if e.mode.Real {
		return b.Lit(r, "Real")
	}
	if e.mode.FP && sort != "Num" {
		eb, sb := "8", "24"
		if sort == "F64" {
			eb, sb = "11", "53"
		}
		return b.Lit(fmt.Sprintf("((_ to_fp %s %s) RNE %s)", eb, sb, r), sort)
	}
	b.Declare("lit."+sort, sort, "Real")
	return b.App("lit."+sort, sort, b.Lit(r, "Real"))
}
func (e *Engine) srt(s string) string {
	if e.mode.Real && (s == "Num" || s == "F32" || s == "F64") {
		return "Real"
	}
	return s
}

// ---- struct field lookup ----

func structName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	n = n.Origin()
	return n.Obj().Pkg().Name() + "." + n.Obj().Name()
}

// elemKey returns the heap key for elements of a slice/array with element type t.
func (e *Engine) elemKey(t types.Type) (string, string) {
	cs := e.comps(t)
	if len(cs) != 1 {
		unsup("slice of composite %v", t)
	}
	return "E." + cs[0].class, cs[0].sort
}

func (e *Engine) keySort(key string) string {
	s, ok := e.keys[key]
	if !ok {
		unsup("unknown heap key %s", key)
	}
	return s.sort
}

type keyInfo struct {
	sort  string // sort of the whole heap array
	class string
}

func (e *Engine) regKey(key, esort, class string) {
	if _, ok := e.keys[key]; !ok {
		s := arr(esort)
		if strings.HasPrefix(key, "E.") {
			s = arr(arr(esort))
		}
		e.keys[key] = keyInfo{s, class}
	}
}

// heapConst makes (or returns) a typed heap version constant.
func (e *Engine) heapConst(name, key string, alloc *Term) *Term {
	b := e.tb
	ki := e.keys[key]
	c := b.Var(name, ki.sort)
	if e.typed[c] {
		return c
	}
	e.typed[c] = true
	add := func(t *Term) {
		e.constAx = append(e.constAx, &Axiom{Name: "typing:" + name, Syms: []string{"var:" + name}, T: t, Kind: "typing"})
	}
	r := b.BVar("?r", "Int")
	i := b.BVar("?i", "Int")
	zero := b.Int(0)
	if strings.HasPrefix(key, "E.") {
		x := b.App("select", elemSort(elemSort(ki.sort)), b.App("select", elemSort(ki.sort), c, r), i)
		switch ki.class {
		case "uint":
			add(b.Forall([]*Term{r, i}, [][]*Term{{x}}, b.Le(zero, x)))
		case "ref":
			add(b.Forall([]*Term{r, i}, [][]*Term{{x}}, b.And(b.Le(zero, x), b.Imp(b.Le(r, alloc), b.Le(x, alloc)))))
		}
		return c
	}
	x := b.App("select", elemSort(ki.sort), c, r)
	switch ki.class {
	case "uint":
		add(b.Forall([]*Term{r}, [][]*Term{{x}}, b.Le(zero, x)))
	case "ref":
		add(b.Forall([]*Term{r}, [][]*Term{{x}}, b.And(b.Le(zero, x), b.Imp(b.Le(r, alloc), b.Le(x, alloc)))))
	}
	return c
}

func (e *Engine) hget(st *State, key string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	if _, ok := e.keys[key]; !ok {
		unsup("heap key %s", key)
	}
	return e.heapConst("H0."+key, key, e.alloc0)
}

func (e *Engine) loadAddr(st *State, a *Addr) *Val {
	var ts []*Term
	for _, l := range e.addrLeaves(a) {
		e.regKey(l.key, e.srt(l.sort), l.class)
		h := e.hget(st, l.key)
		if a.Kind == "elem" {
			ts = append(ts, e.elemRead(h, a))
		} else {
			ts = append(ts, e.tb.Select(h, a.Ref))
		}
	}
	return e.unflatten(a.Typ, ts)
}

// fieldPath resolves a (possibly promoted) field by name starting at struct type t (named or pointer),
// returning heap key, field type. All embedded structs on the way must be at index 0 by value.
func (e *Engine) fieldKey(t types.Type, name string) (string, types.Type, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil, false
	}
	sn := structName(t)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Name() == name {
			return sn + "." + name, f.Type(), true
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && i == 0 {
			if _, isPtr := f.Type().(*types.Pointer); !isPtr {
				return e.fieldKey(f.Type(), name)
			}
		}
	}
	return "", nil, false
}

// slice element term
func (e *Engine) sliceView(st *State, s *SliceV, elem types.Type) *Term {
	k, srt := e.elemKey(elem)
	cs := e.comps(elem)
	e.regKey(k, srt, cs[0].class)
	return e.tb.SV(e.tb.Select(e.hget(st, k), s.Arr), s.Off)
}

func (e *Engine) elemRead(h *Term, a *Addr) *Term {
	if a.SOff != nil {
		return e.tb.Select(e.tb.SV(e.tb.Select(h, a.Ref), a.SOff), a.SIdx)
	}
	return e.tb.Select(e.tb.Select(h, a.Ref), a.Idx)
}
