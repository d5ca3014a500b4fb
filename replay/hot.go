package main

// C01-C07, C13 (direct part), C15: direct tensor operations.

import (
	"fmt"

	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/tools"
	"github.com/julioguillermo/godeep/types"
)

// regT registers a generic oracle at several element types.
func regT(prop, name string, f64, f32, i0, i32, i16 func(r *R)) {
	reg(prop, name+"[float64]", f64)
	reg(prop, name+"[float32]", f32)
	reg(prop, name+"[int]", i0)
	reg(prop, name+"[int32]", i32)
	reg(prop, name+"[int16]", i16)
}

func init() {
	reg("C01", "indexing", c01)
	regT("C02", "access", c02[float64], c02[float32], c02[int], c02[int32], c02[int16])
	regT("C03", "constructors", c03[float64], c03[float32], c03[int], c03[int32], c03[int64])
	regT("C04", "element-wise", c04[float64], c04[float32], c04[int], c04[int32], c04[int16])
	regT("C05", "reductions", c05[float64], c05[float32], c05[int], c05[int32], c05[int64])
	regT("C06", "structure", c06[float64], c06[float32], c06[int], c06[int32], c06[int16])
	regT("C07", "dot", c07[float64], c07[float32], c07[int], c07[int32], c07[int64])
	reg("C07", "softmax[float64]", c07s[float64])
	reg("C07", "softmax[float32]", c07s[float32])
}

func c01(r *R) {
	sh := rshape0(r, 5, 4)
	r.start("shape %v", sh)
	mul := tools.GetIndexMul(sh)
	if int(tools.GetDataSize(sh)) != size(sh) {
		r.fail("GetDataSize(%v) = %d, expected %d", sh, tools.GetDataSize(sh), size(sh))
	}
	if len(mul) != len(sh) {
		r.fail("GetIndexMul(%v) = %v", sh, mul)
	}
	for k := range sh {
		if int(mul[k]) != size(sh[k+1:]) {
			r.fail("GetIndexMul(%v) = %v: stride %d should be %d", sh, mul, k, size(sh[k+1:]))
		}
	}
	cs := coords(sh)
	for i, c := range cs {
		cc := append([]uint{}, c...)
		ix, err := tools.GetIndex(mul, sh, cc)
		if err != nil || int(ix) != i {
			r.fail("GetIndex(shape %v, %v) = %d, %v, expected %d", sh, c, ix, err, i)
		}
		if !eqSh(cc, c) {
			r.fail("GetIndex modified its argument")
		}
		rv := tools.ReverseIndex(mul, sh, uint(i))
		if !eqSh(rv, c) {
			r.fail("ReverseIndex(shape %v, %d) = %v, expected %v", sh, i, rv, c)
		}
		inv := tools.GetInvertedIndex(c)
		for k := range c {
			if len(inv) != len(c) || inv[k] != c[len(c)-1-k] {
				r.fail("GetInvertedIndex(%v) = %v", c, inv)
			}
		}
	}
	if len(cs) > 0 {
		// out of range coordinates and wrong numbers of coordinates are errors
		c := append([]uint{}, cs[r.Intn(len(cs))]...)
		if len(c) > 0 {
			k := r.Intn(len(c))
			c[k] = sh[k] + uint(r.Intn(3))
			if _, err := tools.GetIndex(mul, sh, c); err == nil {
				r.fail("GetIndex(shape %v, %v) accepts an out of range coordinate", sh, c)
			}
			c[k] = 0
			if _, err := tools.GetIndex(mul, sh, c[:len(c)-1]); err == nil {
				r.fail("GetIndex(shape %v, %v) accepts too few coordinates", sh, c[:len(c)-1])
			}
		}
		if _, err := tools.GetIndex(mul, sh, append(c, 0)); err == nil {
			r.fail("GetIndex(shape %v, %v) accepts too many coordinates", sh, append(c, 0))
		}
	}
	other := append([]uint{}, sh...)
	switch {
	case r.Intn(2) == 0 && len(other) > 0:
		other[r.Intn(len(other))] += uint(r.Intn(2))
	case r.Intn(2) == 0:
		other = append(other, 1)
	case len(other) > 0:
		other = other[:len(other)-1]
	}
	if (tools.GetEqShapeErr("x", sh, other) == nil) != eqSh(sh, other) {
		r.fail("GetEqShapeErr(%v, %v) = %v", sh, other, tools.GetEqShapeErr("x", sh, other))
	}
	want := -1
	if len(sh) != len(other) {
		want = -2
	} else {
		for i := len(sh) - 1; i >= 0; i-- {
			if sh[i] != other[i] {
				want = i
			}
		}
	}
	if e := tools.Equals(sh, other); e != want {
		r.fail("Equals(%v, %v) = %d, expected %d", sh, other, e, want)
	}
}

func c02[T types.Number](r *R) {
	sh := rshape(r, 4, 4)
	w := rref[T](r, sh)
	r.start("tensor %v", w)
	t := mk(w)
	cmp[T](r, "new tensor", t, w)
	cp := t.Copy()
	saved := ref[T]{w.sh, append([]T{}, w.d...)}
	for n := 0; n < 6; n++ {
		switch r.Intn(5) {
		case 0: // Set
			cs := coords(sh)
			i := r.Intn(len(cs))
			v := rval[T](r)
			r.step("Set(%v, %v)", v, cs[i])
			if err := t.Set(v, cs[i]...); err != nil {
				r.fail("Set(%v, %v): %v", v, cs[i], err)
			}
			w.d[i] = v
		case 1: // bad coordinates leave everything unchanged
			c := append([]uint{}, coords(sh)[0]...)
			k := r.Intn(len(c))
			switch r.Intn(3) {
			case 0:
				c[k] = sh[k] + uint(r.Intn(2))
			case 1:
				c = c[:k]
			case 2:
				c = append(c, 0)
			}
			r.step("Set(_, %v)", c)
			if err := t.Set(rval[T](r), c...); err == nil {
				r.fail("Set accepts coordinates %v of shape %v", c, sh)
			}
			if _, err := t.Get(c...); err == nil {
				r.fail("Get accepts coordinates %v of shape %v", c, sh)
			}
			if o, err := t.GetOperand(c...); err == nil || o != nil {
				r.fail("GetOperand accepts coordinates %v of shape %v", c, sh)
			}
		case 2: // LoadData
			d := rref[T](r, sh).d
			r.step("LoadData(%v)", d)
			if err := t.LoadData(append([]T{}, d...)); err != nil {
				r.fail("LoadData: %v", err)
			}
			copy(w.d, d)
		case 3: // LoadData of a wrong length
			m := len(w.d) + 1 + r.Intn(2)
			if r.Intn(2) == 0 {
				m = len(w.d) - 1
			}
			r.step("LoadData(len %d)", m)
			d := make([]T, m)
			for i := range d {
				d[i] = rval[T](r)
			}
			if err := t.LoadData(d); err == nil {
				r.fail("LoadData accepts %d values for %d elements", m, len(w.d))
			}
		case 4: // the results of the accessors are copies
			r.step("write to accessor results")
			d := t.GetData()
			for i := range d {
				d[i]++
			}
			s := t.GetShape()
			for i := range s {
				s[i] += 3
			}
			s = t.GetMulIndex()
			for i := range s {
				s[i] += 3
			}
		}
		cmp[T](r, "tensor", t, w)
		same[T](r, "copy made before", cp, saved)
	}
	indep[T](r, "Copy", cp, t)
	// writing the copy leaves the original alone
	if err := cp.Set(rval[T](r), coords(sh)[0]...); err != nil {
		r.fail("Set on copy: %v", err)
	}
	same[T](r, "original", t, w)
	// LoadFromTensor
	o := rref[T](r, sh)
	if err := t.LoadFromTensor(mk(o)); err != nil {
		r.fail("LoadFromTensor: %v", err)
	}
	cmp[T](r, "after LoadFromTensor", t, o)
	bad := append([]uint{}, sh...)
	bad[r.Intn(len(bad))]++
	if err := t.LoadFromTensor(mk(rref[T](r, bad))); err == nil {
		r.fail("LoadFromTensor accepts shape %v for %v", bad, sh)
	}
	cmp[T](r, "after rejected LoadFromTensor", t, o)
}

func c03[T types.Number](r *R) {
	sh := rshape0(r, 4, 4)
	r.start("constructors for shape %v", sh)
	cmp[T](r, "NewZeros", tensor.NewZeros[T](sh...), build(sh, func([]uint) T { return 0 }))
	cmp[T](r, "NewOnes", tensor.NewOnes[T](sh...), build(sh, func([]uint) T { return 1 }))
	w := rref[T](r, sh)
	vals := append([]T{}, w.d...)
	t := tensor.NewFromValues(vals, sh...)
	cmp[T](r, "NewFromValues", t, w)
	for i := range vals {
		vals[i]++
	}
	cmp[T](r, "NewFromValues (after its argument changed)", t, w)
	// fewer or more values than elements
	short := vals[:r.Intn(len(vals)+1)]
	cmp[T](r, fmt.Sprintf("NewFromValues with %d values", len(short)), tensor.NewFromValues(short, sh...), rreshape(ref[T]{[]uint{uint(len(short))}, short}, sh))
	long := append(append([]T{}, vals...), 1, 2, 3)
	cmp[T](r, "NewFromValues with extra values", tensor.NewFromValues(long, sh...), rreshape(ref[T]{[]uint{uint(len(long))}, long}, sh))
	for _, t := range []*tensor.TensorMat[T]{tensor.NewRand[T](-2, 3, sh...), tensor.NewNormRand[T](sh...)} {
		if !eqSh(t.GetShape(), sh) || int(t.GetSize()) != size(sh) {
			r.fail("NewRand/NewNormRand: shape %v size %d for %v", t.GetShape(), t.GetSize(), sh)
		}
		cells[T](r, "random constructor", t)
	}
	for _, v := range tensor.NewRand[T](-2, 3, sh...).GetData() {
		if float64(v) < -2 || float64(v) > 3 {
			r.fail("NewRand(-2, 3) gives %v", v)
		}
	}
	a, b := tensor.NewZeros[T](sh...), tensor.NewZeros[T](sh...)
	cells[T](r, "NewZeros", a)
	cells[T](r, "NewFromValues", t)
	a.FillData(5)
	cmp[T](r, "another NewZeros", b, build(sh, func([]uint) T { return 0 }))
}

// cells: every element has its own storage.
func cells[T types.Number](r *R, what string, t tensor.Tensor[T]) {
	m := map[*number.Scalar[T]]bool{}
	for _, o := range t.GetOperands() {
		if o == nil {
			r.fail("%s: nil element", what)
		}
		if m[o] {
			r.fail("%s: two elements share their storage", what)
		}
		m[o] = true
	}
}

// indep: results do not share storage with their inputs.
func indep[T types.Number](r *R, what string, res, in tensor.Tensor[T]) {
	m := map[*number.Scalar[T]]bool{}
	for _, o := range in.GetOperands() {
		m[o] = true
	}
	for _, o := range res.GetOperands() {
		if m[o] {
			r.fail("%s: the result shares storage with its input", what)
		}
	}
	a, ok1 := res.(*tensor.TensorMat[T])
	b, ok2 := in.(*tensor.TensorMat[T])
	if ok1 && ok2 {
		if len(a.Shape) > 0 && len(b.Shape) > 0 && (&a.Shape[0] == &b.Shape[0] || &a.MulIndex[0] == &b.MulIndex[0]) {
			r.fail("%s: the result shares its shape or strides with its input", what)
		}
		if len(a.Operands) > 0 && len(b.Operands) > 0 && &a.Operands[0] == &b.Operands[0] {
			r.fail("%s: the result shares its element list with its input", what)
		}
	}
}

func c04[T types.Number](r *R) {
	sh := rshape(r, 4, 4)
	a, b := rref[T](r, sh), build(sh, func([]uint) T { return rnz[T](r) })
	s := rnz[T](r)
	r.start("a=%v b=%v s=%v", a, b, s)
	ta, tb := mk(a), mk(b)
	ns := number.NewScalar(s)
	if r.Intn(6) == 0 {
		tb, b = ta, a // both operands the same tensor
		for i := range a.d {
			if a.d[i] == 0 {
				a.d[i] = 1
			}
		}
		ta.LoadData(a.d)
	}
	type bin struct {
		n string
		f func(*tensor.TensorMat[T]) (*tensor.TensorMat[T], error)
		g func(x, y T) T
		h func(*number.Scalar[T]) *tensor.TensorMat[T]
	}
	bins := []bin{
		{"Add", ta.Add, func(x, y T) T { return x + y }, ta.AddScalar},
		{"Sub", ta.Sub, func(x, y T) T { return x - y }, ta.SubScalar},
		{"Mul", ta.Mul, func(x, y T) T { return x * y }, ta.MulScalar},
		{"Div", ta.Div, func(x, y T) T { return x / y }, ta.DivScalar},
	}
	for _, o := range bins {
		t, err := o.f(tb)
		if err != nil {
			r.fail("%s: %v", o.n, err)
		}
		cmp[T](r, o.n, t, rzip(a, b, o.g))
		cells[T](r, o.n, t)
		indep[T](r, o.n, t, ta)
		indep[T](r, o.n, t, tb)
		t = o.h(ns)
		cmp[T](r, o.n+"Scalar", t, rmap(a, func(x T) T { return o.g(x, s) }))
		cells[T](r, o.n+"Scalar", t)
		indep[T](r, o.n+"Scalar", t, ta)
		// a different shape is an error
		bad := append([]uint{}, sh...)
		if r.Intn(2) == 0 {
			bad[r.Intn(len(bad))]++
		} else {
			bad = append(bad, 1)
		}
		if t, err := o.f(mk(rref[T](r, bad))); err == nil || t != nil {
			r.fail("%s accepts shapes %v and %v", o.n, sh, bad)
		}
		same[T](r, "a", ta, a)
		same[T](r, "b", tb, b)
		if ns.Value != s {
			r.fail("%sScalar changed the scalar", o.n)
		}
	}
	t := ta.Neg()
	cmp[T](r, "Neg", t, rmap(a, func(x T) T { return -x }))
	cells[T](r, "Neg", t)
	indep[T](r, "Neg", t, ta)
	t = ta.Abs()
	cmp[T](r, "Abs", t, rmap(a, func(x T) T {
		if x < 0 {
			return -x
		}
		return x
	}))
	indep[T](r, "Abs", t, ta)
	f := func(x T) T { return 3*x - 1 }
	t = ta.Activate(operation.Function[T](f))
	cmp[T](r, "Activate", t, rmap(a, f))
	indep[T](r, "Activate", t, ta)
	same[T](r, "a", ta, a)
}

func c05[T types.Number](r *R) {
	sh := rshape(r, 4, 4)
	a := rref[T](r, sh)
	if !isFloat[T]() || r.Intn(2) == 0 {
		for i := range a.d {
			a.d[i] = T(r.Intn(9)) - 4
			if r.Intn(3) == 0 {
				a.d[i] -= 5
			}
		}
	}
	r.start("a=%v", a)
	t := mk(a)
	one := func(v T) ref[T] { return ref[T]{[]uint{1}, []T{v}} }
	type red struct {
		n string
		f func() *tensor.TensorMat[T]
		d func(uint) (*tensor.TensorMat[T], error)
		g func([]T) T
		h func([]*number.Scalar[T]) T
	}
	for _, o := range []red{{"Sum", t.Sum, t.DSum, rsum[T], tools.Sum[T]}, {"Avg", t.Avg, t.DAvg, ravg[T], tools.Avg[T]}, {"Max", t.Max, t.DMax, rmax[T], tools.Max[T]}, {"Min", t.Min, t.DMin, rmin[T], tools.Min[T]}} {
		x := o.f()
		cmp[T](r, o.n, x, one(o.g(a.d)))
		indep[T](r, o.n, x, t)
		if v := o.h(t.GetOperands()); !near(v, o.g(a.d)) {
			r.fail("tools.%s = %v, expected %v", o.n, v, o.g(a.d))
		}
		for dim := range sh {
			x, err := o.d(uint(dim))
			if err != nil {
				r.fail("D%s(%d): %v", o.n, dim, err)
			}
			cmp[T](r, fmt.Sprintf("D%s(%d)", o.n, dim), x, rdim(a, dim, o.g))
			cells[T](r, "D"+o.n, x)
			indep[T](r, "D"+o.n, x, t)
		}
		if x, err := o.d(uint(len(sh) + r.Intn(2))); err == nil || x != nil {
			r.fail("D%s accepts a dimension out of range for %v", o.n, sh)
		}
		same[T](r, "a", t, a)
	}
}

func c06[T types.Number](r *R) {
	sh := rshape(r, 4, 4)
	a := rref[T](r, sh)
	dim := r.Intn(len(sh))
	r.start("a=%v dim=%d", a, dim)
	t := mk(a)
	x, err := t.Transpose()
	if err != nil {
		r.fail("Transpose: %v", err)
	}
	cmp[T](r, "Transpose", x, rtrans(a))
	indep[T](r, "Transpose", x, t)
	y, err := x.Transpose()
	if err != nil {
		r.fail("Transpose: %v", err)
	}
	cmp[T](r, "Transpose of Transpose", y, a)
	ns := rshape0(r, 3, 6)
	r.step("Reshape(%v)", ns)
	x = t.Reshape(append([]uint{}, ns...)...)
	cmp[T](r, "Reshape", x, rreshape(a, ns))
	cells[T](r, "Reshape", x)
	indep[T](r, "Reshape", x, t)
	s, e := uint(r.Intn(int(sh[dim])+2)), uint(r.Intn(int(sh[dim])+3))
	r.step("SubTensor(%d, %d, %d)", dim, s, e)
	x, err = t.SubTensor(uint(dim), s, e)
	if ok := s < e && e <= sh[dim]; ok != (err == nil) {
		r.fail("SubTensor(%d, %d, %d) of shape %v: error %v", dim, s, e, sh, err)
	} else if ok {
		cmp[T](r, "SubTensor", x, rsub(a, dim, s, e, 0))
		indep[T](r, "SubTensor", x, t)
		cells[T](r, "SubTensor", x)
	} else if x != nil {
		r.fail("SubTensor returns a tensor and an error")
	}
	fill := rval[T](r)
	r.step("FOSubTensor(%d, %d, %d, %v)", dim, s, e, fill)
	x, err = t.FOSubTensor(uint(dim), s, e, fill)
	if ok := s < e; ok != (err == nil) {
		r.fail("FOSubTensor(%d, %d, %d) of shape %v: error %v", dim, s, e, sh, err)
	} else if ok {
		cmp[T](r, "FOSubTensor", x, rsub(a, dim, s, e, fill))
		indep[T](r, "FOSubTensor", x, t)
		cells[T](r, "FOSubTensor", x)
	}
	if _, err := t.SubTensor(uint(len(sh)), 0, 1); err == nil {
		r.fail("SubTensor accepts a dimension out of range")
	}
	if _, err := t.FOSubTensor(uint(len(sh)+1), 0, 1, 0); err == nil {
		r.fail("FOSubTensor accepts a dimension out of range")
	}
	sb := append([]uint{}, sh...)
	sb[dim] = uint(1 + r.Intn(4))
	b := rref[T](r, sb)
	tb := mk(b)
	r.step("Concat(%v, %d)", b, dim)
	x, err = t.Concat(tb, uint(dim))
	if err != nil {
		r.fail("Concat: %v", err)
	}
	cmp[T](r, "Concat", x, rconcat(a, b, dim))
	// incompatible
	bad := append([]uint{}, sb...)
	bd := uint(dim)
	switch r.Intn(3) {
	case 0:
		bd = uint(len(sh))
	case 1:
		bad = append(bad, 1)
	case 2:
		if len(bad) == 1 {
			bad = append(bad, 1)
		} else {
			bad[(dim+1)%len(bad)]++
		}
	}
	r.step("Concat(shape %v, %d)", bad, bd)
	if _, err := t.Concat(mk(rref[T](r, bad)), bd); err == nil {
		r.fail("Concat accepts shapes %v and %v at %d", sh, bad, bd)
	}
	same[T](r, "a", t, a)
	same[T](r, "b", tb, b)
}

func c07[T types.Number](r *R) {
	sa, sb := rshape(r, 3, 3), rshape(r, 3, 3)
	if r.Intn(3) == 0 {
		sa = sa[:1]
	}
	if r.Intn(3) == 0 {
		sb = sb[:1]
	}
	d1, d2 := r.Intn(len(sa)), r.Intn(len(sb))
	if r.Intn(8) > 0 {
		sb[d2] = sa[d1]
	}
	a, b := rref[T](r, sa), rref[T](r, sb)
	for i := range a.d {
		a.d[i] = T(r.Intn(7)) - 3
	}
	for i := range b.d {
		b.d[i] = T(r.Intn(7)) - 3
	}
	r.start("a=%v b=%v dims %d,%d", a, b, d1, d2)
	ta, tb := mk(a), mk(b)
	x, err := ta.DotAt(tb, uint(d1), uint(d2))
	if (err == nil) != (sa[d1] == sb[d2]) {
		r.fail("DotAt: error %v", err)
	}
	if err == nil {
		cmp[T](r, "DotAt", x, rdot(a, b, d1, d2))
		cells[T](r, "DotAt", x)
		indep[T](r, "DotAt", x, ta)
		indep[T](r, "DotAt", x, tb)
	}
	if _, err := ta.DotAt(tb, uint(len(sa)), uint(d2)); err == nil {
		r.fail("DotAt accepts dimension %d", len(sa))
	}
	if _, err := ta.DotAt(tb, uint(d1), uint(len(sb))); err == nil {
		r.fail("DotAt accepts dimension %d", len(sb))
	}
	same[T](r, "a", ta, a)
	same[T](r, "b", tb, b)
	e1, e2 := len(sa)-1, len(sb)-1
	if e2 > 0 {
		e2--
	}
	if r.Intn(4) > 0 {
		sb = append([]uint{}, sb...)
		sb[e2] = sa[e1]
		b = rref[T](r, sb)
		tb = mk(b)
	}
	r.step("Dot with b=%v", b)
	x, err = ta.Dot(tb)
	if (err == nil) != (sa[e1] == sb[e2]) {
		r.fail("Dot: error %v", err)
	}
	if err == nil {
		cmp[T](r, "Dot", x, rdot(a, b, e1, e2))
	}
	v := rref[T](r, sa[:1])
	va := rref[T](r, sa[:1])
	tva := mk(va)
	x, err = tva.DotVector(mk(v))
	if err != nil {
		r.fail("DotVector: %v", err)
	}
	cmp[T](r, "DotVector", x, rdot(va, v, 0, 0))
	same[T](r, "a", ta, a)
	same[T](r, "b", tb, b)
}

func c07s[T types.Number](r *R) {
	sh := rshape(r, 3, 4)
	a := rref[T](r, sh)
	if len(a.d) < 2 {
		return
	}
	a.d[0] = a.d[1] + 1
	r.start("softmax a=%v", a)
	t := mk(a)
	x := t.SoftMax()
	cmp[T](r, "SoftMax", x, rsoft(a))
	cells[T](r, "SoftMax", x)
	indep[T](r, "SoftMax", x, t)
	if s := rsum(x.GetData()); !near(s, 1) {
		r.fail("SoftMax sums to %v", s)
	}
	same[T](r, "a", t, a)
}
