package main

// C15: activation functions and their derivatives.

import (
	"math"

	"github.com/julioguillermo/godeep/activation"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	reg("C15", "activations[float64]", c15[float64])
	reg("C15", "activations[float32]", c15[float32])
}

func sigm(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	return math.Exp(x) / (1 + math.Exp(x))
}

func gelu(x float64) float64 {
	return x * sigm(2*math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x))
}

func c15[T types.Number](r *R) {
	var n T
	switch r.Intn(6) {
	case 0:
		n = T(r.Intn(9) - 4)
	case 1:
		n = T(float64(r.Intn(2001)-1000) / 20)
	case 2:
		n = T(r.Float64()*2e-3 - 1e-3)
	default:
		n = T(r.Float64()*12 - 6)
	}
	al, la := T(r.Float64()*4-2), T(r.Float64()*4-2)
	x, a, l := float64(n), float64(al), float64(la)
	r.start("n = %v, Alpha = %v, Lambda = %v", n, al, la)
	one := T(1)
	one /= 3
	f32 := float64(one) != 1.0/3
	chk := func(what string, got T, want, tol float64) {
		if f32 {
			tol = math.Max(tol, 2e-5)
		}
		g := float64(got)
		if !(math.Abs(g-want) <= tol*math.Max(1, math.Abs(want))) {
			r.fail("%s(%v) is %v, expected %v", what, n, got, want)
		}
	}
	both := func(name string, f activation.Activation[T], v, d, tol float64) {
		chk(name+".Activate", f.Activate(n), v, 1e-9)
		if tol > 0 {
			chk(name+".Derive", f.Derive(n), d, tol)
		}
		chk(name+".Activate (again)", f.Activate(n), v, 1e-9)
	}
	pos := func(p, q float64) float64 {
		if x >= 0 {
			return p
		}
		return q
	}
	e := math.Expm1(x)
	both("Linear", activation.Linear[T]{}, x, 1, 1e-9)
	both("Relu", activation.Relu[T]{Alpha: al}, pos(x, a*x), pos(1, a), 1e-9)
	both("ELU", activation.ELU[T]{Alpha: al}, pos(x, a*e), pos(1, a*(e+1)), 1e-9)
	both("SELU", activation.SELU[T]{ELU: activation.ELU[T]{Alpha: al}, Lambda: la}, l*pos(x, a*e), l*pos(1, a*(e+1)), 1e-9)
	s := sigm(x)
	both("Sigmoid", activation.Sigmoid[T]{}, s, s*sigm(-x), 1e-9)
	both("Swish", activation.Swish[T]{}, x*s, s+x*s*sigm(-x), 1e-9)
	both("Sin", activation.Sin[T]{}, math.Sin(x), math.Cos(x), 1e-9)
	t := math.Tanh(x)
	both("Tanh", activation.Tanh[T]{}, t, 1-t*t, 1e-9)
	h, tol := 1e-6, 1e-5
	if f32 {
		tol = 0 // the step is below the resolution of float32
	}
	both("GELU", activation.GELU[T]{}, gelu(x), (gelu(x+h)-gelu(x-h))/(2*h), tol)
}
