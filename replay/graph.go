package main

// C08 (graph operations) and C09 (contexts and graphs).

import (
	"math"

	"github.com/julioguillermo/godeep/context"
	"github.com/julioguillermo/godeep/graph"
	"github.com/julioguillermo/godeep/number"
	"github.com/julioguillermo/godeep/operation"
	"github.com/julioguillermo/godeep/types"
)

func init() {
	regT("C08", "operations", c08[float64], c08[float32], c08[int], c08[int32], c08[int16])
	regT("C09", "graphs", c09[float64], c09[float32], c09[int], c09[int32], c09[int16])
}

// gop is an operation with its meaning on a list of cells.
type gop[T types.Number] struct {
	op   operation.Operation
	name string
	dst  int
	args []int
	f    func(a []T) T
}

func square[T types.Number](x T) T { return x*x + 1 }

// rgop makes a random operation over the cells.
func rgop[T types.Number](r *R, cs []*number.Scalar[T]) gop[T] {
	i := func() int { return r.Intn(len(cs)) }
	d, a, b := i(), i(), i()
	D, A, B := cs[d], cs[a], cs[b]
	n := 1 + r.Intn(5)
	var ix []int
	var args []*number.Scalar[T]
	for k := 0; k < n; k++ {
		x := i()
		ix = append(ix, x)
		args = append(args, cs[x])
	}
	two, one := []int{a, b}, []int{a}
	switch r.Intn(13) {
	case 0:
		return gop[T]{&operation.Add[T]{Scalar: D, A: A, B: B}, "Add", d, two, func(v []T) T { return v[0] + v[1] }}
	case 1:
		return gop[T]{&operation.Sub[T]{Scalar: D, A: A, B: B}, "Sub", d, two, func(v []T) T { return v[0] - v[1] }}
	case 2:
		return gop[T]{&operation.Mul[T]{Scalar: D, A: A, B: B}, "Mul", d, two, func(v []T) T { return v[0] * v[1] }}
	case 3:
		if B.Value == 0 {
			return rgop(r, cs)
		}
		return gop[T]{&operation.Div[T]{Scalar: D, A: A, B: B}, "Div", d, two, func(v []T) T {
			return v[0] / v[1]
		}}
	case 4:
		return gop[T]{&operation.Equals[T]{Scalar: D, A: A, B: B}, "Equals", d, two, func(v []T) T {
			if v[0] == v[1] {
				return 1
			}
			return 0
		}}
	case 5:
		return gop[T]{&operation.Neg[T]{Scalar: D, O: A}, "Neg", d, one, func(v []T) T { return -v[0] }}
	case 6:
		return gop[T]{&operation.Abs[T]{Scalar: D, O: A}, "Abs", d, one, func(v []T) T {
			if v[0] < 0 {
				return -v[0]
			}
			return v[0]
		}}
	case 7:
		return gop[T]{&operation.Set[T]{Scalar: D, O: A}, "Set", d, one, func(v []T) T { return v[0] }}
	case 8:
		return gop[T]{&operation.Func[T]{Scalar: D, O: A, F: square[T]}, "Func", d, one, func(v []T) T { return square(v[0]) }}
	case 9:
		return gop[T]{&operation.Sum[T]{Scalar: D, Args: args}, "Sum", d, ix, rsum[T]}
	case 10:
		return gop[T]{&operation.Avg[T]{Scalar: D, Args: args}, "Avg", d, ix, ravg[T]}
	case 11:
		return gop[T]{&operation.Max[T]{Scalar: D, Args: args}, "Max", d, ix, rmax[T]}
	}
	return gop[T]{&operation.Min[T]{Scalar: D, Args: args}, "Min", d, ix, rmin[T]}
}

func (g gop[T]) apply(v []T) {
	var a []T
	for _, i := range g.args {
		a = append(a, v[i])
	}
	v[g.dst] = g.f(a)
}

func rcells[T types.Number](r *R, n int) ([]*number.Scalar[T], []T) {
	var cs []*number.Scalar[T]
	var vs []T
	for i := 0; i < n; i++ {
		var v T
		switch r.Intn(12) {
		case 0:
			v = 0
		case 1:
			if isFloat[T]() && r.Intn(3) == 0 {
				v = T(math.Inf(1 - 2*r.Intn(2)))
				if r.Intn(2) == 0 {
					v = T(math.NaN())
				}
			}
		default:
			v = rval[T](r)
		}
		cs = append(cs, number.NewScalar(v))
		vs = append(vs, v)
	}
	return cs, vs
}

func eqv[T types.Number](a, b T) bool { return a == b || a != a && b != b || near(a, b) }

func ccmp[T types.Number](r *R, what string, cs []*number.Scalar[T], vs []T) {
	for i := range cs {
		if !eqv(cs[i].Value, vs[i]) {
			r.fail("%s: cell %d holds %v, expected %v", what, i, cs[i].Value, vs[i])
		}
	}
}

func c08[T types.Number](r *R) {
	cs, vs := rcells[T](r, 1+r.Intn(6))
	g := rgop(r, cs)
	if g.name == "Max" || g.name == "Min" { // of numbers
		for _, v := range vs {
			if v != v {
				return
			}
		}
	}
	r.start("%s into cell %d of cells %v on cells %v", g.name, g.dst, vs, g.args)
	g.op.Cal()
	g.apply(vs)
	ccmp(r, g.name, cs, vs)
}

// pusher counts its executions and appends its number to the trace.
type tracer struct {
	id  int
	log *[]int
}

func (t *tracer) Cal() { *t.log = append(*t.log, t.id) }

func c09[T types.Number](r *R) {
	// values: a random program executed through a context and a graph
	cs, vs := rcells[T](r, 2+r.Intn(5))
	for i := range cs { // keep values small and finite
		cs[i].Value = T(r.Intn(7)) - 3
		vs[i] = cs[i].Value
	}
	n := r.Intn(12)
	r.start("a program of %d operations on cells %v", n, vs)
	ctx := context.NewCTX()
	var prog []gop[T]
	for i := 0; i < n; i++ {
		g := rgop(r, cs)
		if g.name == "Div" {
			g = gop[T]{&operation.Neg[T]{Scalar: cs[g.dst], O: cs[g.args[0]]}, "Neg", g.dst, g.args[:1], func(v []T) T { return -v[0] }}
		}
		r.step("%s(%v) -> %d", g.name, g.args, g.dst)
		prog = append(prog, g)
		ctx.Push(g.op)
	}
	gr, err := graph.NewGraphFrom[T](ctx)
	if err != nil {
		r.fail("NewGraphFrom: %v", err)
	}
	before := append([]T{}, vs...)
	ccmp(r, "before Exec", cs, before)
	for k := 0; k < 2; k++ {
		gr.Exec()
		for _, g := range prog {
			g.apply(vs)
		}
		bad := false
		for _, v := range vs {
			bad = bad || v != v || float64(v) > 1e9 || float64(v) < -1e9
		}
		if bad {
			return
		}
		ccmp(r, "after Exec", cs, vs)
	}
	// order and multiplicity, with operations that only leave a trace
	var log []int
	ctx2, ctx3 := context.NewCTX(), context.NewCTX()
	m1, m2, m3 := r.Intn(6), r.Intn(6), r.Intn(4)
	var w1, w2, w3 []int
	var extra []operation.Operation
	for i := 0; i < m1+m2; i++ {
		t := &tracer{i, &log}
		if r.Intn(2) == 0 {
			w1 = append(w1, i)
			ctx2.Push(t)
		} else {
			w2 = append(w2, i)
			ctx3.Push(t)
		}
	}
	if r.Intn(2) == 0 { // one operation pushed several times
		t := &tracer{50, &log}
		for i := 0; i <= r.Intn(3); i++ {
			w1 = append(w1, 50)
			ctx2.Push(t)
		}
	}
	for i := 0; i < m3; i++ {
		w3 = append(w3, 100+i)
		extra = append(extra, &tracer{100 + i, &log})
	}
	r.step("traces %v, %v and pushed %v", w1, w2, w3)
	g2, _ := graph.NewGraphFrom[T](ctx2)
	g3, _ := graph.NewGraphFrom[T](ctx3)
	tr := func(what string, g *graph.Graph, want ...[]int) {
		log = nil
		g.Exec()
		var w []int
		for _, x := range want {
			w = append(w, x...)
		}
		if len(w) != len(log) {
			r.fail("%s executes %v, expected %v", what, log, w)
		}
		for i := range w {
			if w[i] != log[i] {
				r.fail("%s executes %v, expected %v", what, log, w)
			}
		}
	}
	tr("graph 1", g2, w1)
	tr("graph 2", g3, w2)
	cp := graph.NewFromGraph[T](g2)
	tr("copy of graph 1", cp, w1)
	cp.AddFromGraph(g3)
	tr("copy of graph 1 after AddFromGraph(graph 2)", cp, w1, w2)
	tr("graph 1 after its copy was extended", g2, w1)
	tr("graph 2 after it was added", g3, w2)
	cp.PushOperations(extra...)
	tr("graph after PushOperations", cp, w1, w2, w3)
	e := graph.NewEmptyGraph[T]()
	tr("the empty graph", e)
	e.AddFromGraph(g3)
	e.PushOperations(extra...)
	tr("empty graph extended", e, w2, w3)
	tr("graph 2 at the end", g3, w2)
	// a context that goes on growing does not change graphs already made from it
	ctx2.Push(&tracer{500, &log})
	tr("graph 1 after its context grew", g2, w1)
	g4, _ := graph.NewGraphFrom[T](ctx2)
	tr("graph of the grown context", g4, w1, []int{500})
	// writes through a copy's operation list stay there
	if len(cp.Operations) > 0 && len(g2.Operations) > 0 {
		c2 := graph.NewFromGraph[T](g2)
		c2.Operations[0] = &tracer{900, &log}
		tr("graph 1 after an operation of its copy was replaced", g2, w1)
	}
	// extending two copies of one graph keeps them apart
	ca, cb := graph.NewFromGraph[T](g2), graph.NewFromGraph[T](g2)
	ca.PushOperations(&tracer{701, &log})
	cb.PushOperations(&tracer{702, &log})
	tr("first extended copy", ca, w1, []int{701})
	tr("second extended copy", cb, w1, []int{702})
}
