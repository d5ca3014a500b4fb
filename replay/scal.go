package main

// C16: half, single and double precision scalars.

import (
	"math"

	"github.com/julioguillermo/godeep/scalar"
)

func init() {
	reg("C16", "half precision conversions", c16conv)
	reg("C16", "scalar arithmetic", c16ops)
}

// half rounds to the nearest half precision number, ties to even.
func half(x float64) float64 {
	a := math.Abs(x)
	if a == 0 || math.IsNaN(x) || math.IsInf(x, 0) {
		return x
	}
	_, e := math.Frexp(a)
	e--
	if e < -14 {
		e = -14
	}
	u := math.Ldexp(1, e-10)
	q := math.RoundToEven(a/u) * u
	if q > 65504 {
		q = math.Inf(1)
	}
	return math.Copysign(q, x)
}

// half16 is the value of half precision bits.
func half16(b uint16) float64 {
	s, e, m := 1.0, int(b>>10&31), float64(b&1023)
	if b>>15 == 1 {
		s = -1
	}
	switch {
	case e == 31 && m == 0:
		return math.Inf(int(s))
	case e == 31:
		return math.NaN()
	case e == 0:
		return s * math.Ldexp(m, -24)
	}
	return s * math.Ldexp(1024+m, e-25)
}

func sameF(a, b float64) bool {
	return math.IsNaN(a) && math.IsNaN(b) || a == b && math.Signbit(a) == math.Signbit(b)
}

func rf32(r *R) float32 {
	switch r.Intn(6) {
	case 0:
		return math.Float32frombits(r.Uint32())
	case 1: // near a half precision number or a midpoint
		b := uint16(r.Intn(65536))
		u := math.Float32bits(float32(half16(b)))
		return math.Float32frombits(u + uint32(r.Intn(3)-1) + uint32(r.Intn(2))<<12)
	case 2:
		return float32(math.Ldexp(float64(r.Intn(1<<14)), -26-r.Intn(4)))
	case 3:
		return float32(r.Intn(2001)-1000) / 8
	case 4:
		return []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 65504, 65520, -65520, 65519.99, 1, -1}[r.Intn(11)]
	}
	return float32(r.NormFloat64() * 100)
}

func c16conv(r *R) {
	x := rf32(r)
	r.start("float32 %v (bits %08x)", x, math.Float32bits(x))
	f := scalar.F16fromF32(x)
	want := half(float64(x))
	if got := half16(f.Value); !sameF(got, want) {
		r.fail("F16fromF32(%v) has bits %04x, that is %v, expected %v", x, f.Value, got, want)
	}
	g := &scalar.F16{}
	g.S32(x)
	if !sameF(half16(g.Value), want) {
		r.fail("S32(%v) stores %04x, expected %v", x, g.Value, want)
	}
	d := float64(x) * (1 + r.Float64()*1e-7)
	g.S64(d)
	if w := half(float64(float32(d))); !sameF(half16(g.Value), w) {
		r.fail("S64(%v) stores %04x, expected %v", d, g.Value, w)
	}
	if h := scalar.F16fromF64(d); !sameF(half16(h.Value), half(float64(float32(d)))) {
		r.fail("F16fromF64(%v) stores %04x", d, h.Value)
	}
	b := uint16(r.Intn(65536))
	r.step("bits %04x", b)
	f = &scalar.F16{Value: b}
	v := half16(b)
	if got := f.G32(); !sameF(float64(got), v) {
		r.fail("G32 of bits %04x is %v, expected %v", b, got, v)
	}
	if got := f.G64(); !sameF(got, v) {
		r.fail("G64 of bits %04x is %v, expected %v", b, got, v)
	}
	ok := func(what string, got, want bool) {
		if got != want {
			r.fail("%s of bits %04x is %v", what, b, got)
		}
	}
	nan, inf := math.IsNaN(v), math.IsInf(v, 0)
	ok("IsNaN", f.IsNaN(), nan)
	ok("IsFinite", f.IsFinite(), !nan && !inf)
	ok("IsNormal", f.IsNormal(), !nan && !inf && math.Abs(v) >= math.Ldexp(1, -14))
	for s := -1; s <= 1; s++ {
		ok("IsInf", f.IsInf(s), math.IsInf(v, s))
	}
	if !nan {
		ok("Signbit", f.Signbit(), math.Signbit(v))
	}
	n := scalar.F16NaN()
	if !math.IsNaN(half16(n.Value)) {
		r.fail("F16NaN is %04x", n.Value)
	}
	for _, s := range []int{-3, -1, 0, 1, 5} {
		i := scalar.F16Inf(s)
		w := 1
		if s < 0 {
			w = -1
		}
		if !math.IsInf(half16(i.Value), w) {
			r.fail("F16Inf(%d) is %04x", s, i.Value)
		}
	}
}

func c16ops(r *R) {
	mk := func() (scalar.Scalar, func() float64, int) {
		switch r.Intn(3) {
		case 0:
			s := scalar.F16fromF32(rf32(r))
			return s, func() float64 { return half16(s.Value) }, 16
		case 1:
			s := scalar.NewF32(rf32(r))
			if r.Intn(4) == 0 {
				s = scalar.F32fromF64(r.NormFloat64())
			}
			return s, func() float64 { return float64(s.Value) }, 32
		}
		s := scalar.NewF64(r.NormFloat64() * math.Ldexp(1, r.Intn(60)-30))
		if r.Intn(3) == 0 {
			s = scalar.F64fromF32(rf32(r))
		}
		return s, func() float64 { return s.Value }, 64
	}
	a, av, w := mk()
	b, bv, _ := mk()
	if r.Intn(8) == 0 {
		b, bv = a, av
	}
	x, y := av(), bv()
	r.start("%d-bit %v and %v", w, x, y)
	rnd := func(z float64) float64 {
		switch w {
		case 16:
			return half(float64(float32(z)))
		case 32:
			return float64(float32(z))
		}
		return z
	}
	yy := y
	if w != 64 {
		yy = float64(float32(y))
	}
	op := func(k int, p, q float64) float64 {
		if w != 64 { // single precision arithmetic
			f, g := float32(p), float32(q)
			switch k {
			case 0:
				return float64(f + g)
			case 1:
				return float64(f - g)
			case 2:
				return float64(f * g)
			}
			return float64(f / g)
		}
		switch k {
		case 0:
			return p + q
		case 1:
			return p - q
		case 2:
			return p * q
		}
		return p / q
	}
	eq := func(what string, got, want float64) {
		if !sameF(got, want) {
			r.fail("%s of %v and %v (%d bits) is %v, expected %v", what, x, y, w, got, want)
		}
	}
	eq("G64", a.G64(), x)
	eq("G32", float64(a.G32()), float64(float32(x)))
	cmp := scalar.CmpE
	if x < yy {
		cmp = scalar.CmpL
	} else if x > yy {
		cmp = scalar.CmpG
	}
	if got := a.Cmp(b); got != cmp {
		r.fail("Cmp of %v and %v is %v, expected %v", x, yy, got, cmp)
	}
	names := []string{"Add", "Sub", "Mul", "Div"}
	for k, f := range []func(scalar.Scalar) scalar.Scalar{a.Add, a.Sub, a.Mul, a.Div} {
		c := f(b)
		eq(names[k], c.G64(), rnd(op(k, x, yy)))
		eq("first operand after "+names[k], av(), x)
		eq("second operand after "+names[k], bv(), y)
		c.S64(1)
		eq("first operand after changing the result of "+names[k], av(), x)
	}
	c := a.Copy()
	c.S32(3)
	eq("original after changing the copy", av(), x)
	eq("set", c.G64(), 3)
	k := r.Intn(4)
	[]func(scalar.Scalar){a.SelfAdd, a.SelfSub, a.SelfMul, a.SelfDiv}[k](b)
	eq("Self"+names[k], av(), rnd(op(k, x, yy)))
	if a != b {
		eq("second operand after Self"+names[k], bv(), y)
	}
	z := r.NormFloat64()
	a.S64(z)
	eq("S64", av(), rnd(z))
	a.S32(float32(z))
	eq("S32", av(), rnd(float64(float32(z))))
}
