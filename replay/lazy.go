package main

// C10-C13: lazy tensors, built into a graph and executed.

import (
	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	regT("C10", "lazy element-wise", lz[float64](true, elem[float64]), lz[float32](true, elem[float32]), lz[int](true, elem[int]), lz[int32](true, elem[int32]), lz[int16](true, elem[int16]))
	regT("C11", "lazy structure", lz[float64](false, struc[float64]), lz[float32](false, struc[float32]), lz[int](false, struc[int]), lz[int32](false, struc[int32]), lz[int16](false, struc[int16]))
	regT("C12", "lazy reductions", lz[float64](true, reduc[float64]), lz[float32](true, reduc[float32]), lz[int](true, reduc[int]), lz[int32](true, reduc[int32]), lz[int64](true, reduc[int64]))
	regT("C14", "lazy products", lz[float64](true, prod[float64]), lz[float32](true, prod[float32]), lz[int](true, prod[int]), lz[int32](true, prod[int32]), lz[int64](true, prod[int64]))
	regT("C13", "copy and fill", c13[float64], c13[float32], c13[int], c13[int32], c13[int16])
}

// ex is a lazy expression and its meaning.
type ex[T types.Number] struct {
	t    tensor.Tensor[T]
	ev   func() ref[T]
	sh   []uint
	name string
	mat  *tensor.TensorMat[T] // leaf
	val  *ref[T]              // leaf values
	bad  bool                 // building must fail
}

// world holds the expressions made so far: they may be used several times.
type world[T types.Number] struct {
	r      *R
	leaves []*ex[T]
	nodes  []*ex[T]
	nz     []*ex[T] // leaves without zeros
	own    bool     // every node computes into cells of its own
}

func (w *world[T]) leaf(sh []uint, nz bool) *ex[T] {
	v := rref[T](w.r, sh)
	if nz {
		v = build(sh, func([]uint) T { return rnz[T](w.r) })
	}
	m := mk(v)
	e := &ex[T]{t: m, sh: sh, name: "", mat: m, val: &v}
	e.name = "leaf" + v.String()
	e.ev = func() ref[T] { return *e.val }
	w.leaves = append(w.leaves, e)
	if nz {
		w.nz = append(w.nz, e)
	}
	return e
}

// sub returns an expression, with shape sh if that is not nil.
func (w *world[T]) sub(sh []uint, depth int, mkn func(w *world[T], sh []uint, depth int) *ex[T]) *ex[T] {
	if depth > 0 && w.r.Intn(2) == 0 {
		if e := mkn(w, sh, depth-1); e != nil && !e.bad && (sh == nil || eqSh(e.sh, sh)) {
			return e
		}
	}
	if w.r.Intn(3) == 0 { // shared
		for _, e := range append(append([]*ex[T]{}, w.nodes...), w.leaves...) {
			if (sh == nil || eqSh(e.sh, sh)) && !e.bad && w.r.Intn(2) == 0 {
				return e
			}
		}
	}
	if sh == nil && w.own && w.r.Intn(6) == 0 {
		return w.repeated()
	}
	if sh == nil {
		switch w.r.Intn(8) {
		case 0:
			sh = rshape(w.r, 5, 2)
		case 1:
			sh = rshape(w.r, 1, 20)
		default:
			sh = rshape(w.r, 3, 4)
		}
	}
	return w.leaf(sh, false)
}

// repeated returns an expression some of whose elements are one cell.
func (w *world[T]) repeated() *ex[T] {
	l := w.leaf(rshape(w.r, 3, 4), false)
	e := uint(1 + w.r.Intn(int(l.sh[0])))
	sh := append([]uint{}, l.sh...)
	sh[0] += e
	return &ex[T]{t: tensor.Concat[T](l.t, tensor.SubTensor[T](l.t, 0, 0, e), 0), sh: sh, name: "Concat(" + l.name + ", a slice of it)",
		ev: func() ref[T] { return rconcat(l.ev(), rsub(l.ev(), 0, 0, e, 0), 0) }}
}

func (w *world[T]) node(e *ex[T]) *ex[T] {
	w.r.step("%s", e.name)
	w.nodes = append(w.nodes, e)
	return e
}

// elem makes an element-wise node.
func elem[T types.Number](w *world[T], sh []uint, depth int) *ex[T] {
	r := w.r
	a := w.sub(sh, depth, elem[T])
	un := func(n string, t tensor.Tensor[T], f func(T) T) *ex[T] {
		return w.node(&ex[T]{t: t, sh: a.sh, bad: a.bad, name: n + "(" + a.name + ")", ev: func() ref[T] { return rmap(a.ev(), f) }})
	}
	switch k := r.Intn(11); k {
	case 0:
		return un("Neg", tensor.Neg[T](a.t), func(x T) T { return -x })
	case 1:
		return un("Abs", tensor.Abs[T](a.t), func(x T) T {
			if x < 0 {
				return -x
			}
			return x
		})
	case 2:
		return un("Activate", tensor.Activate[T](a.t, square[T]), square[T])
	case 3, 4, 5, 6:
		v := rnz[T](r)
		s := number.NewScalar(v)
		n := []string{"AddScalar", "SubScalar", "MulScalar", "DivScalar"}[k-3]
		f := []func(tensor.Tensor[T], *number.Scalar[T]) tensor.Tensor[T]{tensor.AddScalar[T], tensor.SubScalar[T], tensor.MulScalar[T], tensor.DivScalar[T]}[k-3]
		return un(n, f(a.t, s), func(x T) T {
			switch k {
			case 3:
				return x + v
			case 4:
				return x - v
			case 5:
				return x * v
			}
			return x / v
		})
	}
	k := r.Intn(4)
	bs := a.sh
	bad := false
	if r.Intn(12) == 0 {
		bs = rshape(r, 3, 4)
		bad = !eqSh(bs, a.sh)
	}
	var b *ex[T]
	if k == 3 {
		b = w.leaf(bs, true)
	} else {
		b = w.sub(bs, depth, elem[T])
	}
	n := []string{"Add", "Sub", "Mul", "Div"}[k]
	f := []func(a, b tensor.Tensor[T]) tensor.Tensor[T]{tensor.Add[T], tensor.Sub[T], tensor.Mul[T], tensor.Div[T]}[k]
	return w.node(&ex[T]{t: f(a.t, b.t), sh: a.sh, bad: bad || a.bad || b.bad, name: n + "(" + a.name + ", " + b.name + ")", ev: func() ref[T] {
		return rzip(a.ev(), b.ev(), func(x, y T) T {
			switch k {
			case 0:
				return x + y
			case 1:
				return x - y
			case 2:
				return x * y
			}
			return x / y
		})
	}})
}

// struc makes a structural node.
func struc[T types.Number](w *world[T], sh []uint, depth int) *ex[T] {
	r := w.r
	a := w.sub(nil, depth, struc[T])
	one := func(n string, t tensor.Tensor[T], sh []uint, bad bool, f func(ref[T]) ref[T]) *ex[T] {
		return w.node(&ex[T]{t: t, sh: sh, bad: a.bad || bad, name: n + "(" + a.name + ")", ev: func() ref[T] { return f(a.ev()) }})
	}
	switch r.Intn(6) {
	case 0:
		s2 := rshape(r, 3, 5)
		if r.Intn(2) == 0 && len(a.sh) > 1 {
			s2 = append([]uint{a.sh[0] * a.sh[1]}, a.sh[2:]...)
		}
		return one("Reshape", tensor.Reshape[T](a.t, append([]uint{}, s2...)...), s2, false, func(x ref[T]) ref[T] { return rreshape(x, s2) })
	case 1:
		s2 := []uint{uint(size(a.sh))}
		return one("Flatten", tensor.Flatten[T](a.t), s2, false, func(x ref[T]) ref[T] { return rreshape(x, s2) })
	case 2:
		n := len(a.sh)
		s2 := make([]uint, n)
		for i := range s2 {
			s2[i] = a.sh[n-1-i]
		}
		return one("Transpose", tensor.Transpose[T](a.t), s2, false, rtrans[T])
	case 3, 4:
		d := r.Intn(len(a.sh))
		out := r.Intn(2) == 0
		s := uint(r.Intn(int(a.sh[d])))
		e := s + 1 + uint(r.Intn(int(a.sh[d]-s)))
		if out {
			s = uint(r.Intn(int(a.sh[d]) + 2))
			e = s + 1 + uint(r.Intn(4))
		}
		bad := false
		dd := uint(d)
		switch r.Intn(12) {
		case 0:
			dd = uint(len(a.sh) + r.Intn(2))
			bad = true
		case 1:
			e = s
			bad = true
		case 2:
			if !out {
				e = a.sh[d] + 1
				bad = true
			}
		}
		f, n := tensor.SubTensor[T], "SubTensor"
		if out {
			f, n = tensor.SubExtendedTensor[T], "SubExtendedTensor"
		}
		s2 := append([]uint{}, a.sh...)
		s2[d] = e - s
		return one(n, f(a.t, dd, s, e), s2, bad, func(x ref[T]) ref[T] { return rsub(x, d, s, e, 0) })
	}
	d := r.Intn(len(a.sh))
	bs := append([]uint{}, a.sh...)
	bs[d] = uint(1 + r.Intn(3))
	dd, bad := uint(d), false
	switch r.Intn(12) {
	case 0:
		dd = uint(len(a.sh) + r.Intn(2))
		bad = true
	case 1:
		bs = append(bs, 1)
		bad = true
	case 2:
		if len(bs) > 1 {
			bs[(d+1)%len(bs)]++
			bad = true
		}
	}
	b := w.sub(bs, 0, struc[T])
	s2 := append([]uint{}, a.sh...)
	s2[d] += b.sh[d]
	return w.node(&ex[T]{t: tensor.Concat[T](a.t, b.t, dd), sh: s2, bad: bad || a.bad || b.bad, name: "Concat(" + a.name + ", " + b.name + ")", ev: func() ref[T] { return rconcat(a.ev(), b.ev(), d) }})
}

// reduc makes a reduction, softmax or product node.
func reduc[T types.Number](w *world[T], sh []uint, depth int) *ex[T] {
	r := w.r
	a := w.sub(nil, depth, reduc[T])
	one := func(n string, t tensor.Tensor[T], sh []uint, bad bool, f func(ref[T]) ref[T]) *ex[T] {
		return w.node(&ex[T]{t: t, sh: sh, bad: a.bad || bad, name: n + "(" + a.name + ")", ev: func() ref[T] { return f(a.ev()) }})
	}
	fs := []func([]T) T{rsum[T], ravg[T], rmin[T], rmax[T]}
	switch k := r.Intn(9); k {
	case 0, 1, 2, 3:
		g := []func(tensor.Tensor[T]) tensor.Tensor[T]{tensor.Sum[T], tensor.Avg[T], tensor.Min[T], tensor.Max[T]}[k]
		return one([]string{"Sum", "Avg", "Min", "Max"}[k], g(a.t), []uint{1}, false, func(x ref[T]) ref[T] { return ref[T]{[]uint{1}, []T{fs[k](x.d)}} })
	case 4, 5, 6, 7:
		k -= 4
		g := []func(tensor.Tensor[T], uint) tensor.Tensor[T]{tensor.DSum[T], tensor.DAvg[T], tensor.DMin[T], tensor.DMax[T]}[k]
		d, bad := r.Intn(len(a.sh)), false
		dd := uint(d)
		if r.Intn(12) == 0 {
			dd, bad = uint(len(a.sh)), true
		}
		return one([]string{"DSum", "DAvg", "DMin", "DMax"}[k], g(a.t, dd), a.sh[:d+1], bad, func(x ref[T]) ref[T] { return rdim(x, d, fs[k]) })
	case 8:
		if isFloat[T]() {
			l := w.leaf(rshape(r, 3, 4), false)
			if r.Intn(3) == 0 {
				l = w.repeated()
			}
			return w.node(&ex[T]{t: tensor.SoftMax[T](l.t), sh: l.sh, name: "SoftMax(" + l.name + ")", ev: func() ref[T] { return rsoft(l.ev()) }})
		}
	}
	return nil
}

// prod makes a product node.
func prod[T types.Number](w *world[T], sh []uint, depth int) *ex[T] {
	r := w.r
	a := w.sub(nil, depth, prod[T])
	d1 := r.Intn(len(a.sh))
	bs := rshape(r, 3, 3)
	d2 := r.Intn(len(bs))
	bs[d2] = a.sh[d1]
	plain := r.Intn(3) == 0
	if plain {
		d1 = len(a.sh) - 1
		d2 = len(bs) - 1
		if d2 > 0 {
			d2--
		}
		bs[d2] = a.sh[d1]
	}
	u1, u2, bad := uint(d1), uint(d2), false
	switch r.Intn(14) {
	case 0:
		bs[d2]++
		bad = true
	case 1:
		if !plain {
			u1 = uint(len(a.sh))
			bad = true
		}
	}
	if size(a.sh)*size(bs) > 3000 {
		return nil
	}
	b := w.sub(bs, 0, prod[T])
	t, n := tensor.DotAt[T](a.t, b.t, u1, u2), "DotAt"
	if plain {
		t, n = tensor.Dot[T](a.t, b.t), "Dot"
	}
	var s2 []uint
	if len(a.sh) == 1 && len(bs) == 1 {
		s2 = []uint{1}
	} else {
		s2 = append(without(a.sh, d1), without(bs, d2)...)
	}
	return w.node(&ex[T]{t: t, sh: s2, bad: bad || a.bad || b.bad, name: n + "(" + a.name + ", " + b.name + ")", ev: func() ref[T] { return rdot(a.ev(), b.ev(), d1, d2) }})
}

// cells checks which cells the nodes of a built expression have.
func (w *world[T]) cells(root *ex[T]) {
	leafOf := map[*number.Scalar[T]]T{}
	id := T(0)
	for _, l := range w.leaves {
		for i, c := range l.mat.GetOperands() {
			id++
			leafOf[c] = id
			l.val.d[i], c.Value = id, id
		}
	}
	if id < 0 || int(id) > 30000 {
		return
	}
	if w.own {
		seen := map[*number.Scalar[T]]bool{}
		for _, e := range w.nodes {
			if e.bad {
				continue
			}
			for i, c := range e.t.GetOperands() {
				if c == nil {
					w.r.fail("%s: element %d has no cell", e.name, i)
				}
				if _, ok := leafOf[c]; ok || seen[c] {
					w.r.fail("%s: element %d has no cell of its own", e.name, i)
				}
				seen[c] = true
			}
		}
	} else if !root.bad {
		want := root.ev()
		ops := root.t.GetOperands()
		if len(ops) != len(want.d) {
			w.r.fail("%s: %d cells, want %d", root.name, len(ops), len(want.d))
		}
		seen := map[*number.Scalar[T]]bool{}
		for i, c := range ops {
			if c == nil {
				w.r.fail("%s: element %d has no cell", root.name, i)
			}
			if leafOf[c] != want.d[i] {
				w.r.fail("%s: element %d is not the cell of the input at its position", root.name, i)
			}
			if want.d[i] == 0 && len(w.nodes) == 1 {
				if seen[c] {
					w.r.fail("%s: added element %d shares its cell with another one", root.name, i)
				}
				seen[c] = true
			}
		}
	}
	// arbitrary values again
	for _, l := range w.leaves {
		nz := false
		for _, z := range w.nz {
			nz = nz || z == l
		}
		for i, c := range l.mat.GetOperands() {
			v := rval[T](w.r)
			if nz {
				v = rnz[T](w.r)
			}
			l.val.d[i], c.Value = v, v
		}
	}
}

func lz[T types.Number](own bool, mkn func(w *world[T], sh []uint, depth int) *ex[T]) func(r *R) {
	return func(r *R) {
		w := &world[T]{r: r, own: own}
		r.desc, r.steps = "a lazy expression", r.steps[:0]
		root := mkn(w, nil, r.Intn(3))
		if root == nil {
			return
		}
		r.start("%s", root.name)
		var g *graph.Graph
		var err error
		if r.Intn(2) == 0 {
			g, err = graph.NewGraph[T](root.t)
		} else {
			ctx := context.NewCTX()
			if err = root.t.BuildGraph(ctx); err == nil {
				g, _ = graph.NewGraphFrom[T](ctx)
			}
		}
		if root.bad {
			if err == nil {
				r.fail("building %s succeeds, expected an error", root.name)
			}
			return
		}
		if err != nil {
			r.fail("building %s: %v", root.name, err)
		}
		w.cells(root)
		own := w.own
		used := func(e *ex[T]) bool { return int(e.t.GetSize()) == size(e.sh) && len(e.t.GetShape()) == len(e.sh) }
		for k := 0; k < 3; k++ {
			if own {
				for _, e := range w.nodes {
					if !e.bad {
						for _, c := range e.t.GetOperands() {
							c.Value = rval[T](r)
						}
					}
				}
			}
			g.Exec()
			for _, e := range append(append([]*ex[T]{}, w.leaves...), w.nodes...) {
				if e == root || e.mat != nil {
					cmp[T](r, e.name, e.t, e.ev())
				} else if !e.bad && used(e) && e.t.GetSize() > 0 {
					cmp[T](r, e.name, e.t, e.ev())
				}
			}
			// other inputs, same graph
			for _, l := range w.leaves {
				nz := false
				for _, z := range w.nz {
					nz = nz || z == l
				}
				for i, c := range coords(l.sh) {
					if r.Intn(2) == 0 {
						v := rval[T](r)
						if nz {
							v = rnz[T](r)
						}
						l.mat.Set(v, c...)
						l.val.d[i] = v
					}
				}
			}
			r.step("executed, inputs changed")
		}
		// building again adds nothing
		ctx := context.NewCTX()
		if err := root.t.BuildGraph(ctx); err != nil || len(ctx.GetOps()) != 0 {
			r.fail("building %s again: %v, %d operations", root.name, err, len(ctx.GetOps()))
		}
	}
}

func c13[T types.Number](r *R) {
	sh := rshape(r, 3, 4)
	w := &world[T]{r: r}
	from := w.leaf(sh, false)
	v := rval[T](r)
	// direct fills
	d := mk(rref[T](r, sh))
	d2 := mk(rref[T](r, sh))
	r.start("tensors of shape %v", sh)
	r.step("from %v", from.name)
	sc := number.NewScalar(v)
	all := func(x T) ref[T] { return build(sh, func([]uint) T { return x }) }
	d.Fill(sc)
	cmp[T](r, "Fill", d, all(v))
	sc.Value = rval[T](r)
	cmp[T](r, "Fill, after the scalar changed", d, all(v))
	v2 := rval[T](r)
	d2.FillData(v2)
	cmp[T](r, "FillData", d2, all(v2))
	cmp[T](r, "the other tensor", d, all(v))
	// copies in a graph
	src := from
	if r.Intn(2) == 0 {
		src = elem(w, sh, 0)
	}
	if src.bad || !eqSh(src.sh, sh) {
		src = from
	}
	ts := sh
	switch r.Intn(4) {
	case 0:
		ts = []uint{uint(size(sh))}
	case 1:
		ts = rshape(r, 3, 4)
	}
	other := mk(rref[T](r, sh))
	ow := ref[T]{sh, other.GetData()}
	tw := rref[T](r, ts)
	to := mk(tw)
	bad := size(ts) != size(sh)
	ctx := context.NewCTX()
	var err error
	var g *graph.Graph
	var cp tensor.Tensor[T]
	if r.Intn(2) == 0 {
		err = tensor.Transfer[T](ctx, src.t, to)
	} else {
		cp = tensor.CopyTo[T](src.t, to)
		err = cp.BuildGraph(ctx)
	}
	r.step("copied to shape %v", ts)
	if (err != nil) != bad {
		r.fail("copy from shape %v to shape %v: %v", sh, ts, err)
	}
	if bad {
		cmp[T](r, "target of a rejected copy", to, tw)
		return
	}
	fv := number.NewScalar(rval[T](r))
	fl := mk(rref[T](r, ts))
	if r.Intn(2) == 0 {
		err = tensor.Fill[T](ctx, fl, fv)
	} else {
		err = tensor.FillWith[T](fl, fv).BuildGraph(ctx)
	}
	if err != nil {
		r.fail("Fill: %v", err)
	}
	g, _ = graph.NewGraphFrom[T](ctx)
	cmp[T](r, "target before executing", to, tw)
	for k := 0; k < 2; k++ {
		g.Exec()
		s := src.ev()
		s.d = append([]T{}, s.d...)
		cmp[T](r, "source", src.t, s)
		cmp[T](r, "target", to, ref[T]{ts, s.d})
		if cp != nil {
			cmp[T](r, "the copy node", cp, ref[T]{ts, s.d})
		}
		cmp[T](r, "filled tensor", fl, build(ts, func([]uint) T { return fv.Value }))
		cmp[T](r, "an unrelated tensor", other, ow)
		i := r.Intn(len(from.val.d))
		from.val.d[i] = rval[T](r)
		from.mat.Set(from.val.d[i], coords(sh)[i]...)
		fv.Value = rval[T](r)
		// the target is independent of the source until the next execution
		cmp[T](r, "target after the source changed", to, ref[T]{ts, s.d})
	}
}
