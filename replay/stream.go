package main

// C17: saving and loading.

import (
	"bytes"
	"errors"
	"math"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/model"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	reg("C17", "tensors[float64]", c17[float64])
	reg("C17", "tensors[float32]", c17[float32])
	reg("C17", "tensors[int16]", c17[int16])
	reg("C17", "tensors[int32]", c17[int32])
	reg("C17", "tensors[int64]", c17[int64])
	reg("C17", "element type int", c17int)
	reg("C17", "models[float64]", c17model[float64])
	reg("C17", "models[float32]", c17model[float32])
}

// limited fails after n bytes.
type limited struct{ n int }

func (l *limited) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, errors.New("full")
	}
	l.n -= len(b)
	return len(b), nil
}

func special[T types.Number](r *R) T {
	var z T
	switch any(z).(type) {
	case float64, float32:
		switch r.Intn(12) {
		case 0:
			return T(math.NaN())
		case 1:
			return T(math.Inf(1))
		case 2:
			return T(math.Inf(-1))
		case 3:
			return T(math.Copysign(0, -1))
		case 4:
			f := math.MaxFloat32
			return T(f)
		case 5:
			f := math.SmallestNonzeroFloat32
			return T(f)
		}
		return T(r.NormFloat64())
	}
	switch r.Intn(6) {
	case 0:
		return 0
	case 1:
		return T(-1)
	}
	return T(int64(r.Uint64()))
}

func sameT[T types.Number](a, b T) bool {
	x, y := float64(a), float64(b)
	return a == b && math.Signbit(x) == math.Signbit(y) || a != a && b != b
}

func vals[T types.Number](r *R, n int) []T {
	d := make([]T, n)
	for i := range d {
		d[i] = special[T](r)
	}
	return d
}

func c17[T types.Number](r *R) {
	var sh []uint
	for k := r.Intn(5); k > 0; k-- {
		n := uint(1 + r.Intn(4))
		if r.Intn(15) == 0 {
			n = 0
		}
		sh = append(sh, n)
	}
	switch r.Intn(12) {
	case 0:
		sh = []uint{uint(r.Intn(2000))}
	case 1:
		sh = []uint{uint(r.Intn(60)), uint(1 + r.Intn(40))}
	}
	if len(sh) == 0 {
		sh = []uint{1 + uint(r.Intn(3))}
	}
	full := r.Intn(2) == 0
	count := 1 + r.Intn(3)
	r.start("shape %v, full %v, %d tensors", sh, full, count)
	var buf bytes.Buffer
	var ds [][]T
	for c := 0; c < count; c++ {
		d := vals[T](r, size(sh))
		a := tensor.NewFromValues(append([]T{}, d...), sh...)
		if a == nil {
			return
		}
		var err error
		if full {
			err = a.SaveFull(&buf)
		} else {
			err = a.Save(&buf)
		}
		if err != nil {
			r.fail("saving fails: %v", err)
		}
		for i, v := range a.GetData() {
			if !sameT(v, d[i]) {
				r.fail("saving changed element %d from %v to %v", i, d[i], v)
			}
		}
		ds = append(ds, d)
	}
	all := append([]byte{}, buf.Bytes()...)
	rd := bytes.NewReader(all)
	for c := 0; c < count; c++ {
		t := tensor.NewZeros[T](sh...)
		if full {
			t = tensor.NewFromValues([]T{special[T](r), 1}, 2)
		} else if r.Intn(2) == 0 {
			t.LoadData(vals[T](r, size(sh)))
		}
		var err error
		if full {
			err = t.LoadFull(rd)
		} else {
			err = t.Load(rd)
		}
		if err != nil {
			r.fail("loading tensor %d fails: %v", c, err)
		}
		if len(t.GetShape()) != len(sh) {
			r.fail("the loaded shape is %v", t.GetShape())
		}
		for i := range sh {
			if t.GetShape()[i] != sh[i] {
				r.fail("the loaded shape is %v", t.GetShape())
			}
		}
		if len(t.GetOperands()) != len(ds[c]) {
			r.fail("tensor %d loaded %d elements", c, len(t.GetOperands()))
		}
		for i, v := range t.GetData() {
			if !sameT(v, ds[c][i]) {
				r.fail("element %d of tensor %d was saved as %v and loaded as %v", i, c, ds[c][i], v)
			}
		}
		for i, ix := range coords(sh) {
			v, err := t.Get(ix...)
			if err != nil || !sameT(v, ds[c][i]) {
				r.fail("element %v of the loaded tensor is %v, %v", ix, v, err)
			}
			if i > 40 {
				break
			}
		}
	}
	if rd.Len() != 0 {
		r.fail("%d bytes are left after loading", rd.Len())
	}
	// errors
	a := tensor.NewFromValues(append([]T{}, ds[0]...), sh...)
	per := len(all) / count
	if per > 0 {
		cut := r.Intn(per)
		var es, el error
		t := tensor.NewZeros[T](sh...)
		if full {
			es, el = a.SaveFull(&limited{cut}), t.LoadFull(bytes.NewReader(all[:cut]))
		} else {
			es, el = a.Save(&limited{cut}), t.Load(bytes.NewReader(all[:cut]))
		}
		if es == nil {
			r.fail("saving to a writer that fails after %d of %d bytes reports no error", cut, per)
		}
		if el == nil {
			r.fail("loading the first %d of %d bytes reports no error", cut, per)
		}
	}
}

func c17int(r *R) {
	r.start("one element")
	a := tensor.NewFromValues([]int{3}, 1)
	var b bytes.Buffer
	if e := a.Save(&b); e == nil {
		t := tensor.NewZeros[int](1)
		if e := t.Load(&b); e != nil || t.GetData()[0] != 3 {
			r.fail("loaded %v, %v", t.GetData(), e)
		}
	}
}

// net builds a network from choices; the same choices give the same architecture.
func net[T types.Number](c []int) (*model.Model[T], []*layer.Dense[T], error) {
	var ds []*layer.Dense[T]
	dense := func(n int, pre layer.Layer[T]) layer.Layer[T] {
		l := layer.NewDense[T](uint(n), activation.Linear[T]{})
		l.Connect(pre)
		ds = append(ds, l.(*layer.Dense[T]))
		return l
	}
	in := layer.NewInput[T](uint(1 + c[0]%3))
	l := dense(1+c[1]%3, in)
	for k := 0; k < c[2]%4; k++ {
		switch c[3+k] % 4 {
		case 0:
			l = dense(1+c[7]%3, l)
		case 1:
			l = layer.NewConcat[T](dense(2, l), dense(1+c[8]%2, l), 0)
		case 2:
			l = layer.NewConcat[T](l, dense(1, dense(2, in)), 0)
		case 3:
			l = layer.NewConcat[T](dense(2, in), l, 0)
		}
	}
	l = dense(1+c[9]%2, l)
	m, err := model.FromInOut[T](in, l)
	if err == nil {
		err = m.Compile()
	}
	return m, ds, err
}

func c17model[T types.Number](r *R) {
	c := make([]int, 10)
	for i := range c {
		c[i] = r.Intn(12)
	}
	r.start("architecture %v", c)
	a, da, err := net[T](c)
	if err != nil {
		return
	}
	b, db, err := net[T](c)
	if err != nil {
		return
	}
	params := func(d []*layer.Dense[T]) (p []tensor.Tensor[T]) {
		for _, x := range d {
			p = append(p, x.Weights, x.Bias)
		}
		return
	}
	if r.Intn(3) == 0 {
		a.SetTrainable(false)
	}
	if r.Intn(3) == 0 {
		b.SetTrainable(false)
	}
	pa, pb := params(da), params(db)
	n := 0
	for _, t := range pa {
		n += len(t.GetOperands())
	}
	for round := 0; round < 2; round++ {
		for _, t := range pa {
			t.LoadData(vals[T](r, len(t.GetOperands())))
		}
		var buf bytes.Buffer
		if err := a.Save(&buf); err != nil {
			r.fail("round %d: saving the model fails: %v", round, err)
		}
		var one bytes.Buffer
		tensor.NewZeros[T](1).Save(&one)
		if buf.Len() != n*one.Len() {
			r.fail("round %d: %d bytes saved for %d parameters of %d bytes", round, buf.Len(), n, one.Len())
		}
		all := append([]byte{}, buf.Bytes()...)
		if err := a.Save(&buf); err != nil || buf.Len() != len(all) {
			r.fail("round %d: saving again without ResetSave wrote %d bytes, %v", round, buf.Len()-len(all), err)
		}
		rd := bytes.NewReader(all)
		if err := b.Load(rd); err != nil {
			r.fail("round %d: loading the model fails: %v", round, err)
		}
		if rd.Len() != 0 {
			r.fail("round %d: %d bytes are left", round, rd.Len())
		}
		for k := range pa {
			x, y := pa[k].GetData(), pb[k].GetData()
			for i := range x {
				if !sameT(x[i], y[i]) {
					r.fail("round %d: parameter tensor %d (weights and bias of the dense layers in order of creation), element %d was saved as %v and loaded as %v", round, k, i, x[i], y[i])
				}
			}
		}
		a.ResetSave()
		b.ResetLoad()
		cut := r.Intn(len(all))
		if err := a.Save(&limited{cut}); err == nil {
			r.fail("round %d: saving to a writer that fails after %d of %d bytes reports no error", round, cut, len(all))
		}
		if err := b.Load(bytes.NewReader(all[:cut])); err == nil {
			r.fail("round %d: loading %d of %d bytes reports no error", round, cut, len(all))
		}
		a.ResetSave()
		b.ResetLoad()
	}
}
