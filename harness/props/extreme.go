package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

type unX struct {
	name string
	g    func(*G.Node) (*G.Node, error)
	f    func(float64) float64
}

var extremeUnary = []unX{
	{"Neg", G.Neg, func(x float64) float64 { return -x }},
	{"Square", G.Square, func(x float64) float64 { return x * x }},
	{"Cube", G.Cube, func(x float64) float64 { return x * x * x }},
	{"Abs", G.Abs, math.Abs},
	{"Sign", G.Sign, func(x float64) float64 {
		switch {
		case x > 0:
			return 1
		case x < 0:
			return -1
		}
		return x
	}},
	{"Ceil", G.Ceil, math.Ceil},
	{"Floor", G.Floor, math.Floor},
	{"Sin", G.Sin, math.Sin},
	{"Cos", G.Cos, math.Cos},
	{"Exp", G.Exp, math.Exp},
	{"Log", G.Log, math.Log},
	{"Log2", G.Log2, math.Log2},
	{"Sqrt", G.Sqrt, math.Sqrt},
	{"Inverse", G.Inverse, func(x float64) float64 { return 1 / x }},
	{"InverseSqrt", G.InverseSqrt, func(x float64) float64 { return 1 / math.Sqrt(x) }},
	{"Tanh", G.Tanh, math.Tanh},
	{"Sigmoid", G.Sigmoid, func(x float64) float64 {
		if x < 0 {
			e := math.Exp(x)
			return e / (1 + e)
		}
		return 1 / (1 + math.Exp(-x))
	}},
	{"Log1p", G.Log1p, math.Log1p},
	{"Expm1", G.Expm1, math.Expm1},
	{"Softplus", G.Softplus, func(x float64) float64 {
		if x > 0 {
			return x + math.Log1p(math.Exp(-x))
		}
		return math.Log1p(math.Exp(x))
	}},
	{"Rectify", G.Rectify, func(x float64) float64 {
		if x > 0 {
			return x
		}
		return 0
	}},
}

type binX struct {
	name string
	g    func(a, b *G.Node) (*G.Node, error)
	f    func(a, b float64) float64
}

var extremeBinary = []binX{
	{"Add", G.Add, func(a, b float64) float64 { return a + b }},
	{"Sub", G.Sub, func(a, b float64) float64 { return a - b }},
	{"HadamardProd", G.HadamardProd, func(a, b float64) float64 { return a * b }},
	{"HadamardDiv", G.HadamardDiv, func(a, b float64) float64 { return a / b }},
	{"Pow", G.Pow, math.Pow},
}

var extremePool = []float64{0, 1, -1, 0.5, -0.5, 1e-3, -1e-3, 1e-8, -1e-8, 1e-20, -1e-20, 1e-30, 2, -2, 3.75, -3.75, 10, -10,
	15.5, 16.5, 20, -16.5, -20, 40, -40, 80, -80, 95, -95, 110, -110, 300.5, -300.5, 650, -650, 800, -800, 1e4, -1e4, 12345.678, 1e7, 1e12, -1e12, 1e19, 1e30, -1e30}

func drawExtreme(t *pbt.T, dt tensor.Dtype) float64 {
	var v float64
	if t.Chance(1, 3) {
		// a mantissa and a decimal exponent
		e := t.Int(-25, 25)
		m := float64(t.Int(1, 999)) / 100
		v = m * math.Pow(10, float64(e))
		if t.Bool() {
			v = -v
		}
	} else {
		v = extremePool[t.Below(len(extremePool))]
	}
	if dt == tensor.Float32 {
		v = float64(float32(v))
	}
	return v
}

func closeX(dt tensor.Dtype, got, want float64) bool {
	if math.IsNaN(want) || math.IsNaN(got) {
		return math.IsNaN(want) && math.IsNaN(got)
	}
	rt, at := 2e-8, 1e-300
	if dt == tensor.Float32 {
		rt, at = 2e-5, 1e-30
		if math.Abs(want) > 3e38 {
			want = math.Inf(int(math.Copysign(1, want)))
		}
	}
	if math.IsInf(want, 0) || math.IsInf(got, 0) {
		return want == got
	}
	return math.Abs(got-want) <= rt*math.Abs(want)+at
}

// claimed says whether the result is one the property speaks about: finite
// operands with a representable, finite result.
func claimed(name string, dt tensor.Dtype, a, b, want float64) bool {
	lim := 1e290
	if dt == tensor.Float32 {
		lim = 1e35
	}
	if math.IsNaN(want) || math.Abs(want) > lim || (want != 0 && math.Abs(want) < 1/lim) {
		return false
	}
	switch name {
	case "Sin", "Cos":
		if math.Abs(a) > 1 && math.Abs(want) < 0.05 {
			return false // close to a zero crossing only the absolute error is small
		}
		return math.Abs(a) <= 10 || dt == tensor.Float64 && math.Abs(a) <= 1e4 // argument reduction of large angles
	case "Pow":
		return a > 0 && math.Abs(b) < 64
	case "Exp", "Expm1", "Sigmoid", "Tanh", "Softplus":
		return dt == tensor.Float64 || math.Abs(a) < 1e6
	}
	return true
}

func extremeValues(t *pbt.T) {
	dt := floatDt(t)
	m := forwardMachines[t.Below(len(forwardMachines))]
	var shape []int
	switch t.Below(3) {
	case 1:
		shape = []int{t.Int(1, 6)}
	case 2:
		shape = []int{t.Int(1, 3), t.Int(1, 4)}
	}
	n := ref.Prod(shape)
	g := G.NewGraph()
	draw := func() []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = drawExtreme(t, dt)
		}
		return v
	}
	xs := draw()
	x := gen.NewLeaf(g, dt, "x", shape, xs)
	want := make([]float64, n)
	var node *G.Node
	var err error
	var opname string
	if t.Chance(1, 3) {
		d := extremeBinary[t.Below(len(extremeBinary))]
		opname = d.name
		ys := draw()
		y := gen.NewLeaf(g, dt, "y", shape, ys)
		t.Logf("%s(%v, %v) %v %v %s", d.name, xs, ys, dt, shape, m.name)
		for i := range xs {
			want[i] = d.f(xs[i], ys[i])
			if !claimed(d.name, dt, xs[i], ys[i], want[i]) {
				t.Discard("result not finite and representable")
			}
		}
		node, err = d.g(x, y)
	} else {
		d := extremeUnary[t.Below(len(extremeUnary))]
		opname = d.name
		t.Logf("%s(%v) %v %v %s", d.name, xs, dt, shape, m.name)
		for i := range xs {
			want[i] = d.f(xs[i])
			if !claimed(d.name, dt, xs[i], 0, want[i]) {
				t.Discard("result not finite and representable")
			}
		}
		node, err = d.g(x)
	}
	t.Label("op=%s", opname)
	t.Label("dtype=%v", dt)
	t.NonTrivial()
	if err != nil {
		t.Failf("build: %v", err)
	}
	vm := m.mk(g)
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run: %v", err)
	}
	got, gs, _, err := gen.Floats(node.Value())
	if err != nil || !ref.EqShape(gs, shape) {
		t.Failf("result %v shape %v, want shape %v: %v", node.Value(), gs, shape, err)
	}
	for i := range got {
		if !closeX(dt, got[i], want[i]) {
			t.Failf("%s of element %d (%v): got %v, want %v", opname, i, xs[i], got[i], want[i])
		}
	}
}

var _ = fmt.Sprint
