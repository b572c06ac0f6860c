package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

var valueDts = []tensor.Dtype{tensor.Float64, tensor.Float32, tensor.Int, tensor.Int64, tensor.Int32, tensor.Uint8, tensor.Bool}

func isFloat(dt tensor.Dtype) bool { return dt == tensor.Float64 || dt == tensor.Float32 }

// elems draws values every dtype can hold exactly.
func elems(t *pbt.T, dt tensor.Dtype, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		switch {
		case dt == tensor.Bool:
			v[i] = float64(t.Below(2))
		case dt == tensor.Uint8:
			v[i] = float64(t.Below(255))
		case isFloat(dt):
			v[i] = t.Dyadic(8, 4)
			if t.Chance(1, 8) {
				v[i] = math.Ldexp(float64(t.Int(-1<<40, 1<<40)), t.Int(-60, -20))
				if dt == tensor.Float32 {
					v[i] = float64(float32(v[i]))
				}
			}
		default:
			v[i] = float64(t.Int(-100, 100))
			if t.Chance(1, 8) {
				k := 30
				if dt != tensor.Int32 {
					k = 50
				}
				v[i] = math.Trunc(math.Ldexp(v[i], t.Int(1, k)-7))
			}
		}
	}
	return v
}

// other changes one element to a clearly different one.
func other(t *pbt.T, dt tensor.Dtype, v []float64, i int) []float64 {
	w := append([]float64(nil), v...)
	switch {
	case dt == tensor.Bool:
		w[i] = 1 - w[i]
	case isFloat(dt) && math.Abs(w[i]) > 8:
		w[i] *= 1.5
		if dt == tensor.Float32 {
			w[i] = float64(float32(w[i]))
		}
	case isFloat(dt):
		w[i] += 0.25
		if dt == tensor.Float32 {
			w[i] = float64(float32(w[i]))
		}
	case dt != tensor.Uint8 && dt != tensor.Int32 && t.Chance(1, 4):
		// the lower bits agree
		d := math.Ldexp(1, t.Int(8, 50))
		if w[i] > 0 {
			d = -d
		}
		w[i] += d
	default:
		w[i]++
	}
	return w
}

// set writes one element of a value.
func set(v G.Value, i int, x float64) {
	switch a := v.(type) {
	case *G.F64:
		*a = G.F64(x)
	case *G.F32:
		*a = G.F32(x)
	case *G.I:
		*a = G.I(x)
	case *G.I64:
		*a = G.I64(x)
	case *G.I32:
		*a = G.I32(x)
	case *G.U8:
		*a = G.U8(x)
	case *G.B:
		*a = G.B(x != 0)
	case *tensor.Dense:
		a.Set(i, gen.Scalar(a.Dtype(), x))
	default:
		panic(fmt.Sprintf("%T", v))
	}
}

// looseEq is the equality of shapes the tensor library uses: vectors, row
// vectors and column vectors of one length are equal.
func looseEq(a, b []int) bool { return tensor.Shape(a).Eq(tensor.Shape(b)) }

func exactly(v G.Value, dt tensor.Dtype, shape []int, want []float64) error {
	if err := gen.DtOK(v, dt); err != nil {
		return err
	}
	return gen.SameVal(v, shape, want, 0)
}

// valueLaws checks cloning, copying, zeroing and comparing of values.
func valueLaws(t *pbt.T) {
	dt := valueDts[t.Below(len(valueDts))]
	b := gen.NewBuilder(t, tensor.Float64)
	b.MaxElems = 60
	shape := b.RandShape(0, 4)
	n := ref.Prod(shape)
	x := elems(t, dt, n)
	v := gen.Value(dt, shape, x)
	t.Logf("%v %v %v", dt, shape, x)
	t.Label("dtype=%v dims=%d", dt, len(shape))
	if n > 1 {
		t.NonTrivial()
	}
	must := func(what string, err error) {
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
	}
	must("new value", exactly(v, dt, shape, x))
	switch ty := G.TypeOf(v).(type) {
	case tensor.Dtype:
		if ty != dt || len(shape) > 0 {
			t.Failf("type is %v", ty)
		}
	case G.TensorType:
		if ty.Dims != len(shape) || ty.Of != dt {
			t.Failf("type is %v of dims %d of %v", ty, ty.Dims, ty.Of)
		}
	default:
		t.Failf("type is %v %T", ty, ty)
	}

	// a clone is equal and separate
	c, err := G.CloneValue(v)
	must("CloneValue", err)
	must("clone", exactly(c, dt, shape, x))
	i := t.Below(n)
	y := other(t, dt, x, i)
	set(c, i, y[i])
	must("clone after writing to it", exactly(c, dt, shape, y))
	must("value after writing to its clone", exactly(v, dt, shape, x))

	// equality is equality of type, shape and all elements, both ways round
	eq := func(what string, f func(a, b G.Value) bool, a, b G.Value, want bool) {
		for k := 0; k < 2; k++ {
			if got := f(a, b); got != want {
				t.Failf("%s is %v, want %v", what, got, want)
			}
			a, b = b, a
		}
	}
	same := gen.Value(dt, shape, x)
	eq("ValueEq of a value and itself", G.ValueEq, v, v, true)
	eq("ValueEq of equal values", G.ValueEq, v, same, true)
	eq(fmt.Sprintf("ValueEq of values that differ in element %d", i), G.ValueEq, v, c, false)
	eq("ValueEq of a value and none", G.ValueEq, v, nil, false)
	eq("ValueClose of a value and none", G.ValueClose, v, nil, false)
	eq("ValueClose of equal values", G.ValueClose, v, same, true)
	eq(fmt.Sprintf("ValueClose of values that differ in element %d", i), G.ValueClose, v, c, false)
	if isFloat(dt) && x[i] != 0 {
		near := append([]float64(nil), x...)
		near[i] *= 1 + map[bool]float64{true: 1e-15, false: 2e-7}[dt == tensor.Float64]
		eq("ValueClose of values that differ by rounding", G.ValueClose, v, gen.Value(dt, shape, near), true)
		if near[i] = math.Nextafter(x[i], 2*x[i]); dt == tensor.Float32 {
			near[i] = float64(math.Nextafter32(float32(x[i]), float32(2*x[i])))
		}
		eq("ValueEq of values that differ in the last place", G.ValueEq, v, gen.Value(dt, shape, near), false)
	}
	odt := valueDts[t.Below(len(valueDts))]
	if odt != dt {
		o := gen.Value(odt, shape, make([]float64, n))
		z := gen.Value(dt, shape, make([]float64, n))
		eq(fmt.Sprintf("ValueEq of zeros of %v and %v", dt, odt), G.ValueEq, z, o, false)
		eq(fmt.Sprintf("ValueClose of zeros of %v and %v", dt, odt), G.ValueClose, z, o, false)
	}
	if len(shape) > 1 {
		// another arrangement of the same elements
		s2 := append([]int(nil), shape...)
		switch t.Below(3) {
		case 0:
			s2 = []int{n}
		case 1:
			a, b := t.Below(len(s2)), t.Below(len(s2))
			s2[a], s2[b] = s2[b], s2[a]
		default:
			s2 = append([]int{1}, s2...)
		}
		if !looseEq(s2, shape) {
			t.Label("rearranged")
			o := gen.Value(dt, s2, x)
			eq(fmt.Sprintf("ValueEq of shapes %v and %v", shape, s2), G.ValueEq, v, o, false)
			eq(fmt.Sprintf("ValueClose of shapes %v and %v", shape, s2), G.ValueClose, v, o, false)
		}
	}
	if len(shape) > 0 {
		s := gen.Value(dt, nil, x[:1])
		eq("ValueEq of a tensor and a scalar", G.ValueEq, v, s, false)
		eq("ValueClose of a tensor and a scalar", G.ValueClose, v, s, false)
	} else {
		dims := t.Int(1, 4)
		st := G.ScalarAsTensor(v, dims, tensor.StdEng{})
		one := make([]int, dims)
		for i := range one {
			one[i] = 1
		}
		must("ScalarAsTensor", exactly(st, dt, one, x))
		must("value after ScalarAsTensor", exactly(v, dt, shape, x))
	}

	// copying
	dst := gen.Value(dt, shape, elems(t, dt, n))
	r, err := G.Copy(dst, v)
	must("Copy", err)
	must("result of Copy", exactly(r, dt, shape, x))
	must("destination of Copy", exactly(dst, dt, shape, x))
	set(dst, i, y[i])
	must("source after writing to the copy", exactly(v, dt, shape, x))
	if odt != dt {
		z := elems(t, odt, n)
		o := gen.Value(odt, shape, z)
		err, _ := pbt.Try(func() error { _, e := G.Copy(o, v); return e })
		if err == nil {
			t.Failf("Copy of %v into %v reports success", dt, odt)
		}
		must("destination of a refused Copy", exactly(o, odt, shape, z))
		must("source of a refused Copy", exactly(v, dt, shape, x))
	}

	// a node made from it
	g := G.NewGraph()
	nd := G.NodeFromAny(g, v, G.WithName("x"))
	must("node made from a value", exactly(nd.Value(), dt, shape, x))
	if !ref.EqShape(nd.Shape(), shape) || nd.Dtype() != dt || nd.Dims() != len(shape) {
		t.Failf("node made from a value has shape %v and dtype %v", nd.Shape(), nd.Dtype())
	}

	// zeroing
	z := G.ZeroValue(v)
	must("ZeroValue", exactly(z, dt, shape, make([]float64, n)))
	must("value after zeroing it", exactly(v, dt, shape, make([]float64, n)))
	must("clone after zeroing the value", exactly(c, dt, shape, y))
	must("copy after zeroing the value", exactly(dst, dt, shape, y))
}

// bindings drives inputs through histories of accepted and refused bindings.
func bindings(t *pbt.T) {
	g := G.NewGraph()
	type in struct {
		n     *G.Node
		dt    tensor.Dtype
		shape []int
		want  []float64
		neg   *G.Node
		read  G.Value
	}
	var ins []*in
	k := t.Int(1, 3)
	for i := 0; i < k; i++ {
		b := gen.NewBuilder(t, tensor.Float64)
		b.MaxElems = 20
		if t.Chance(1, 8) {
			b.MaxElems = 300
		}
		x := &in{dt: floatDt(t), shape: b.RandShape(0, 4)}
		if t.Chance(1, 4) {
			x.dt = valueDts[t.Below(len(valueDts))]
		}
		x.n = gen.NewInput(g, x.dt, fmt.Sprintf("x%d", i), x.shape)
		ins = append(ins, x)
		t.Logf("x%d %v %v", i, x.dt, x.shape)
		t.Label("dtype=%v dims=%d", x.dt, len(x.shape))
		if isFloat(x.dt) {
			var err error
			if x.neg, err = G.Neg(x.n); err != nil {
				t.Failf("Neg: %v", err)
			}
			G.Read(x.neg, &x.read)
		}
	}
	if t.Chance(2, 3) {
		for i, x := range ins {
			x.want = elems(t, x.dt, ref.Prod(x.shape))
			if err := G.Let(x.n, gen.Value(x.dt, x.shape, x.want)); err != nil {
				t.Failf("Let x%d be %v: %v", i, x.want, err)
			}
			t.Logf("let x%d=%v", i, x.want)
		}
	}
	check := func(after string) {
		for i, x := range ins {
			v := x.n.Value()
			if x.want == nil {
				if v != nil {
					t.Failf("%s: x%d was never bound but holds %v", after, i, v)
				}
				continue
			}
			if err := exactly(v, x.dt, x.shape, x.want); err != nil {
				t.Failf("%s: x%d: %v", after, i, err)
			}
		}
	}
	lisp := t.Chance(1, 3)
	var vm G.VM
	if lisp {
		vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
	} else {
		vm = G.NewTapeMachine(g)
	}
	defer vm.Close()
	setter, _ := vm.(interface{ Set(a, b *G.Node) error })
	fresh := false // the machine holds the results for the bound values
	refused, ran := 0, 0
	steps := t.Tail(2, 12, 60)
	for s := 0; s < steps; s++ {
		i := t.Below(len(ins))
		x := ins[i]
		n := ref.Prod(x.shape)
		switch t.Below(9) {
		case 0: // take over a result or another input
			y := ins[t.Below(len(ins))]
			if setter != nil && fresh && y.neg != nil && (y.dt != x.dt || !looseEq(y.shape, x.shape)) {
				from := y.n
				if t.Bool() {
					from = y.neg
				}
				t.Logf("set x%d to a node of %v %v", i, y.dt, y.shape)
				if err, _ := pbt.Try(func() error { return setter.Set(x.n, from) }); err == nil {
					t.Failf("Set of x%d (%v %v) to a node of %v %v reports success", i, x.dt, x.shape, y.dt, y.shape)
				}
				t.Label("set refused")
				refused++
				check("after a refused Set")
				continue
			}
			if setter == nil || !fresh || y.neg == nil || y.dt != x.dt || !ref.EqShape(y.shape, x.shape) {
				continue
			}
			var from *G.Node
			v := append([]float64(nil), y.want...)
			if t.Bool() && y != x {
				from = y.n
			} else {
				from = y.neg
				for l := range v {
					v[l] = -v[l]
				}
			}
			t.Logf("set x%d=%v", i, v)
			if err := setter.Set(x.n, from); err != nil {
				t.Failf("Set: %v", err)
			}
			t.Label("set")
			x.want = v
			fresh = false
			check("after Set")
		case 1, 2: // a good value
			fresh = false
			v := elems(t, x.dt, n)
			var be interface{} = gen.Value(x.dt, x.shape, v)
			if len(x.shape) == 0 && t.Bool() {
				be = gen.Scalar(x.dt, v[0])
			}
			if err := G.Let(x.n, be); err != nil {
				t.Failf("Let x%d be %v: %v", i, v, err)
			}
			x.want = v
			t.Logf("let x%d=%v (%T)", i, v, be)
			check("after Let")
		case 3: // wrong element type
			dt := valueDts[t.Below(len(valueDts))]
			if dt == x.dt {
				continue
			}
			v := elems(t, dt, n)
			var be interface{} = gen.Value(dt, x.shape, v)
			if len(x.shape) == 0 && t.Bool() {
				be = gen.Scalar(dt, v[0])
			}
			t.Logf("let x%d=%v %v (%T)", i, dt, v, be)
			if err, _ := pbt.Try(func() error { return G.Let(x.n, be) }); err == nil {
				t.Failf("Let x%d (%v) be a %v reports success", i, x.dt, dt)
			}
			refused++
			check("after a refused Let")
		case 4: // wrong shape
			b := gen.NewBuilder(t, tensor.Float64)
			b.MaxElems = 20
			sh := b.RandShape(0, 4)
			if len(x.shape) > 1 && t.Chance(1, 3) { // the same sizes in another order
				sh = append([]int(nil), x.shape...)
				l := t.Below(len(sh) - 1)
				sh[l], sh[l+1] = sh[l+1], sh[l]
			}
			if looseEq(sh, x.shape) {
				continue
			}
			v := elems(t, x.dt, ref.Prod(sh))
			var be interface{} = gen.Value(x.dt, sh, v)
			if len(sh) == 0 && t.Bool() {
				be = gen.Scalar(x.dt, v[0])
			}
			t.Logf("let x%d=%v %v (%T)", i, sh, v, be)
			if err, _ := pbt.Try(func() error { return G.Let(x.n, be) }); err == nil {
				t.Failf("Let x%d of shape %v be a value of shape %v reports success", i, x.shape, sh)
			}
			refused++
			check("after a refused Let")
		case 5: // no value at all, or not an input
			if t.Bool() && x.neg != nil {
				t.Logf("let -x%d", i)
				if err, _ := pbt.Try(func() error { return G.Let(x.neg, gen.Value(x.dt, x.shape, make([]float64, n))) }); err == nil {
					t.Failf("Let of a computed node reports success")
				}
			} else {
				junk := []interface{}{nil, "1", struct{}{}, complex(1, 2), []string{"a"}, tensor.S(1), x.n, ins[0].n}
				j := junk[t.Below(len(junk))]
				t.Logf("let x%d=%v (%T)", i, j, j)
				if err, _ := pbt.Try(func() error { return G.Let(x.n, j) }); err == nil {
					t.Failf("Let x%d be %v (%T) reports success", i, j, j)
				}
			}
			refused++
			check("after a refused Let")
		default: // run
			bound := true
			for _, y := range ins {
				if y.want == nil {
					bound = false
				}
			}
			if !bound {
				continue
			}
			t.Logf("run")
			vm.Reset()
			if err := gen.RunVM(vm); err != nil {
				t.Failf("run: %v", err)
			}
			ran++
			fresh = true
			check("after a run")
			for j, y := range ins {
				if y.neg == nil {
					continue
				}
				w := make([]float64, len(y.want))
				for l := range w {
					w[l] = -y.want[l]
				}
				if err := gen.SameVal(y.read, y.shape, w, 0); err != nil {
					t.Failf("after a run: -x%d: %v", j, err)
				}
			}
		}
	}
	t.Label("runs=%d", ran)
	if refused > 0 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P24",
		Rule: "A case draws a value (seven element types, scalars and tensors of up to four dimensions) and checks cloning, copying, zeroing, conversion to a tensor, the type, equality and closeness in both directions against equal, nearly equal, rearranged, retyped and one-element-different values, and that no operation lets a write through one value show in another. Non-trivial: more than one element.",
		Parts: []pbt.Part{
			{Name: "values", Check: valueLaws, Quick: 1600000, Thorough: 5000000},
		}})
	pbt.Register(&pbt.Property{ID: "P25",
		Rule: "A case draws one to three inputs and a history of bindings (good ones in several forms, wrong element type, wrong shape, not a value, not an input) and runs; after each, every input must hold exactly the last value that was accepted, a wrong binding must be refused with an error, and runs must compute from the accepted values. Non-trivial: at least one binding was refused.",
		Parts: []pbt.Part{
			{Name: "bindings", Check: bindings, Quick: 600000, Thorough: 3000000},
		}})
}
