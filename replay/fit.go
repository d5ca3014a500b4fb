package main

// C18: fitting takes over the computed parameters.

import (
	"github.com/julioguillermo/godeep/layer"
	"github.com/julioguillermo/godeep/tensor"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	reg("C18", "loading from a tensor[float64]", c18load[float64])
	reg("C18", "loading from a tensor[int32]", c18load[int32])
	reg("C18", "fitting[float64]", c18[float64])
	reg("C18", "fitting[float32]", c18[float32])
}

func fshape(r *R) []uint {
	var sh []uint
	for k := 1 + r.Intn(4); k > 0; k-- {
		sh = append(sh, uint(1+r.Intn(4)))
	}
	if r.Intn(10) == 0 {
		sh = []uint{uint(r.Intn(300))}
	}
	return sh
}

func c18load[T types.Number](r *R) {
	a, b := fshape(r), fshape(r)
	switch r.Intn(4) {
	case 0:
		b = append([]uint{}, a...)
	case 1: // same size, other shape
		b = []uint{uint(size(a))}
	case 2:
		b = append([]uint{}, a...)
		b[r.Intn(len(b))]++
	}
	r.start("target %v, source %v", a, b)
	x, y := vals[T](r, size(a)), vals[T](r, size(b))
	p := tensor.NewFromValues(append([]T{}, x...), a...)
	q := tensor.NewFromValues(append([]T{}, y...), b...)
	same := len(a) == len(b)
	for i := range a {
		same = same && i < len(b) && a[i] == b[i]
	}
	err := p.LoadFromTensor(q)
	if same != (err == nil) {
		r.fail("error is %v", err)
	}
	want := x
	if same {
		want = y
	}
	for i, v := range p.GetData() {
		if !sameT(v, want[i]) {
			r.fail("element %d is %v, expected %v", i, v, want[i])
		}
	}
	for i, v := range q.GetData() {
		if !sameT(v, y[i]) {
			r.fail("element %d of the source changed", i)
		}
	}
	if same && len(x) > 0 {
		p.GetOperands()[0].Value = 1
		q.GetOperands()[0].Value = 2
		if p.GetData()[0] != 1 {
			r.fail("target and source share a cell")
		}
	}
}

func c18[T types.Number](r *R) {
	c := make([]int, 10)
	for i := range c {
		c[i] = r.Intn(12)
	}
	r.start("architecture %v", c)
	m, ds, err := net[T](c)
	if err != nil {
		return
	}
	if m.CompileBackPropagation() != nil {
		return
	}
	var nw, nb []tensor.Tensor[T]
	for _, d := range ds {
		nw, nb = append(nw, d.NWeights), append(nb, d.NBias)
	}
	for round := 0; round < 2; round++ {
		var want [][]T
		bad := -1
		if r.Intn(4) == 0 {
			bad = r.Intn(len(ds))
		}
		for i, d := range ds {
			d.SetTrainable(r.Intn(3) > 0 || i == bad)
			for _, t := range []tensor.Tensor[T]{d.Weights, d.Bias, nw[i], nb[i]} {
				t.LoadData(vals[T](r, len(t.GetOperands())))
			}
			w, b := d.Weights.GetData(), d.Bias.GetData()
			if d.Trainable {
				w, b = nw[i].GetData(), nb[i].GetData()
			}
			want = append(want, w, b)
			r.step("dense layer %d trainable %v", i, d.Trainable)
		}
		var old tensor.Tensor[T]
		var l *layer.Dense[T]
		if bad >= 0 {
			l = ds[bad]
			old = l.NBias
			l.NBias = tensor.NewZeros[T](77)
			r.step("new bias of layer %d has another shape", bad)
		}
		var err error
		if r.Intn(2) == 0 {
			err = m.Fit()
		} else {
			err = m.LastLayer.Fit()
		}
		if (err != nil) != (bad >= 0) {
			r.fail("Fit returns %v", err)
		}
		if bad >= 0 {
			l.NBias = old
			continue
		}
		for i, d := range ds {
			for k, t := range []tensor.Tensor[T]{d.Weights, d.Bias} {
				for j, v := range t.GetData() {
					if !sameT(v, want[2*i+k][j]) {
						r.fail("element %d of the %s of dense layer %d is %v, expected %v", j, []string{"weights", "bias"}[k], i, v, want[2*i+k][j])
					}
				}
			}
		}
	}
}
