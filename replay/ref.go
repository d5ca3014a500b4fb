package main

// Reference tensors, written independently of the library.

import (
	"fmt"
	"math"

	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

type ref[T types.Number] struct {
	sh []uint
	d  []T
}

func size(sh []uint) int {
	n := 1
	for _, s := range sh {
		n *= int(s)
	}
	return n
}

// coords enumerates all coordinate vectors of a shape in row-major order.
func coords(sh []uint) [][]uint {
	var out [][]uint
	cur := make([]uint, len(sh))
	var rec func(k int)
	rec = func(k int) {
		if k == len(sh) {
			out = append(out, append([]uint{}, cur...))
			return
		}
		for i := uint(0); i < sh[k]; i++ {
			cur[k] = i
			rec(k + 1)
		}
	}
	rec(0)
	return out
}

func flat(sh, ix []uint) int {
	n := 0
	for k := range sh {
		n = n*int(sh[k]) + int(ix[k])
	}
	return n
}

func (a ref[T]) at(ix ...uint) T { return a.d[flat(a.sh, ix)] }

func build[T types.Number](sh []uint, f func(ix []uint) T) ref[T] {
	r := ref[T]{sh: append([]uint{}, sh...)}
	for _, c := range coords(sh) {
		r.d = append(r.d, f(c))
	}
	return r
}

func isFloat[T types.Number]() bool {
	var z T
	switch any(z).(type) {
	case float32, float64:
		return true
	}
	return false
}

func near[T types.Number](a, b T) bool {
	if a == b {
		return true
	}
	if !isFloat[T]() {
		return false
	}
	x, y := float64(a), float64(b)
	if math.IsNaN(x) && math.IsNaN(y) {
		return true
	}
	tol := 1e-9
	var z T
	if _, ok := any(z).(float32); ok {
		tol = 1e-4
	}
	return math.Abs(x-y) <= tol*(1+math.Abs(x)+math.Abs(y))
}

func eqSh(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// cmp compares a library tensor with a reference through every accessor.
func cmp[T types.Number](r *R, what string, t tensor.Tensor[T], w ref[T]) {
	if !eqSh(t.GetShape(), w.sh) {
		r.fail("%s: shape %v, expected %v", what, t.GetShape(), w.sh)
	}
	if int(t.GetSize()) != len(w.d) {
		r.fail("%s: size %d, expected %d", what, t.GetSize(), len(w.d))
	}
	d := t.GetData()
	if len(d) != len(w.d) {
		r.fail("%s: %d data values, expected %d", what, len(d), len(w.d))
	}
	for i, c := range coords(w.sh) {
		if !near(d[i], w.d[i]) {
			r.fail("%s: element %v is %v, expected %v (result %v, expected %v)", what, c, d[i], w.d[i], d, w.d)
		}
		v, err := t.Get(c...)
		if err != nil || !near(v, w.d[i]) {
			r.fail("%s: Get(%v) = %v, %v, expected %v", what, c, v, err, w.d[i])
		}
	}
}

func same[T types.Number](r *R, what string, t tensor.Tensor[T], w ref[T]) {
	cmp(r, what+" (must be unchanged)", t, w)
}

func rshape(r *R, maxRank, maxDim int) []uint {
	switch r.Intn(16) {
	case 0: // many small dimensions
		maxRank, maxDim = maxRank+3, 2
	case 1: // one long dimension
		sh := make([]uint, 1+r.Intn(3))
		for i := range sh {
			sh[i] = uint(1 + r.Intn(2))
		}
		sh[r.Intn(len(sh))] = uint(5 + r.Intn(60))
		return sh
	}
	n := 1 + r.Intn(maxRank)
	sh := make([]uint, n)
	for i := range sh {
		sh[i] = uint(1 + r.Intn(maxDim))
	}
	return sh
}

// rshape0 now and then contains an empty dimension or no dimension at all.
func rshape0(r *R, maxRank, maxDim int) []uint {
	if r.Intn(20) == 0 {
		return []uint{}
	}
	sh := rshape(r, maxRank, maxDim)
	if r.Intn(8) == 0 {
		sh[r.Intn(len(sh))] = 0
	}
	return sh
}

func rval[T types.Number](r *R) T {
	if isFloat[T]() {
		return T(float64(r.Intn(257)-128) / 8)
	}
	return T(r.Intn(41) - 20)
}
func rnz[T types.Number](r *R) T {
	for {
		if v := rval[T](r); v != 0 {
			return v
		}
	}
}

func rref[T types.Number](r *R, sh []uint) ref[T] {
	return build(sh, func([]uint) T { return rval[T](r) })
}

func mk[T types.Number](w ref[T]) *tensor.TensorMat[T] {
	return tensor.NewFromValues(append([]T{}, w.d...), append([]uint{}, w.sh...)...)
}

func (w ref[T]) String() string { return fmt.Sprintf("%v%v", w.sh, w.d) }

// ---- reference operations ----

func rmap[T types.Number](a ref[T], f func(T) T) ref[T] {
	o := ref[T]{sh: a.sh, d: make([]T, len(a.d))}
	for i := range a.d {
		o.d[i] = f(a.d[i])
	}
	return o
}
func rzip[T types.Number](a, b ref[T], f func(x, y T) T) ref[T] {
	o := ref[T]{sh: a.sh, d: make([]T, len(a.d))}
	for i := range a.d {
		o.d[i] = f(a.d[i], b.d[i])
	}
	return o
}
func rsum[T types.Number](d []T) T {
	var s T
	for _, x := range d {
		s += x
	}
	return s
}
func ravg[T types.Number](d []T) T { return rsum(d) / T(len(d)) }
func rmax[T types.Number](d []T) T {
	m := d[0]
	for _, x := range d {
		if x > m {
			m = x
		}
	}
	return m
}
func rmin[T types.Number](d []T) T {
	m := d[0]
	for _, x := range d {
		if x < m {
			m = x
		}
	}
	return m
}

// rdim: reduction over the dimensions after dim
func rdim[T types.Number](a ref[T], dim int, f func([]T) T) ref[T] {
	sh := a.sh[:dim+1]
	rest := coords(a.sh[dim+1:])
	return build(sh, func(ix []uint) T {
		var d []T
		for _, c := range rest {
			d = append(d, a.at(append(append([]uint{}, ix...), c...)...))
		}
		return f(d)
	})
}
func rtrans[T types.Number](a ref[T]) ref[T] {
	n := len(a.sh)
	sh := make([]uint, n)
	for i := range sh {
		sh[i] = a.sh[n-1-i]
	}
	return build(sh, func(ix []uint) T {
		y := make([]uint, n)
		for i := range y {
			y[i] = ix[n-1-i]
		}
		return a.at(y...)
	})
}
func rreshape[T types.Number](a ref[T], sh []uint) ref[T] {
	return build(sh, func(ix []uint) T {
		i := flat(sh, ix)
		if i < len(a.d) {
			return a.d[i]
		}
		return 0
	})
}
func rsub[T types.Number](a ref[T], dim int, s, e uint, fill T) ref[T] {
	sh := append([]uint{}, a.sh...)
	sh[dim] = e - s
	return build(sh, func(ix []uint) T {
		y := append([]uint{}, ix...)
		y[dim] += s
		if y[dim] >= a.sh[dim] {
			return fill
		}
		return a.at(y...)
	})
}
func rconcat[T types.Number](a, b ref[T], dim int) ref[T] {
	sh := append([]uint{}, a.sh...)
	sh[dim] += b.sh[dim]
	return build(sh, func(ix []uint) T {
		y := append([]uint{}, ix...)
		if y[dim] < a.sh[dim] {
			return a.at(y...)
		}
		y[dim] -= a.sh[dim]
		return b.at(y...)
	})
}
func without(sh []uint, d int) []uint {
	return append(append([]uint{}, sh[:d]...), sh[d+1:]...)
}
func ins(ix []uint, d int, x uint) []uint {
	return append(append(append([]uint{}, ix[:d]...), x), ix[d:]...)
}
func rdot[T types.Number](a, b ref[T], d1, d2 int) ref[T] {
	if len(a.sh) == 1 && len(b.sh) == 1 {
		var s T
		for i := range a.d {
			s += a.d[i] * b.d[i]
		}
		return ref[T]{sh: []uint{1}, d: []T{s}}
	}
	sa, sb := without(a.sh, d1), without(b.sh, d2)
	return build(append(append([]uint{}, sa...), sb...), func(ix []uint) T {
		var s T
		for k := uint(0); k < a.sh[d1]; k++ {
			s += a.at(ins(ix[:len(sa)], d1, k)...) * b.at(ins(ix[len(sa):], d2, k)...)
		}
		return s
	})
}
func rsoft[T types.Number](a ref[T]) ref[T] {
	m := rmin(a.d)
	var s T
	for _, x := range a.d {
		s += x - m
	}
	return rmap(a, func(x T) T { return (x - m) / s })
}
