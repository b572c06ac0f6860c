package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// wrap is Go's conversion to the integer type.
func wrap(dt tensor.Dtype, v int64) int64 {
	switch dt {
	case tensor.Int32:
		return int64(int32(v))
	case tensor.Uint8:
		return int64(uint8(v))
	}
	return v
}

// intValue binds integers of the type.
func intValue(dt tensor.Dtype, shape []int, v []int64) interface{} {
	switch dt {
	case tensor.Int:
		o := make([]int, len(v))
		for i := range v {
			o[i] = int(v[i])
		}
		if len(shape) == 0 {
			return o[0]
		}
		return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(o))
	case tensor.Int32:
		o := make([]int32, len(v))
		for i := range v {
			o[i] = int32(v[i])
		}
		if len(shape) == 0 {
			return o[0]
		}
		return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(o))
	case tensor.Uint8:
		o := make([]uint8, len(v))
		for i := range v {
			o[i] = uint8(v[i])
		}
		if len(shape) == 0 {
			return o[0]
		}
		return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(o))
	}
	if len(shape) == 0 {
		return v[0]
	}
	return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(append([]int64(nil), v...)))
}

// exactInts compares exactly, without going through floats.
func exactInts(v G.Value, dt tensor.Dtype, shape []int, want []int64) error {
	if err := gen.DtOK(v, dt); err != nil {
		return err
	}
	if !ref.EqShape(v.Shape(), shape) {
		return fmt.Errorf("shape %v, want %v", v.Shape(), shape)
	}
	var got []int64
	switch d := v.Data().(type) {
	case int:
		got = []int64{int64(d)}
	case int32:
		got = []int64{int64(d)}
	case int64:
		got = []int64{d}
	case uint8:
		got = []int64{int64(d)}
	case []int:
		for _, x := range d {
			got = append(got, int64(x))
		}
	case []int32:
		for _, x := range d {
			got = append(got, int64(x))
		}
	case []int64:
		got = d
	case []uint8:
		for _, x := range d {
			got = append(got, int64(x))
		}
	default:
		return fmt.Errorf("data of type %T", d)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%v, want %v", got, want)
	}
	return nil
}

// integers runs one arithmetic operation or comparison on integer operands,
// sometimes broadcast, and sometimes a second one on the result.
func integers(compare, broadcast bool) pbt.Check {
	return func(t *pbt.T) {
		dt := []tensor.Dtype{tensor.Int, tensor.Int32, tensor.Int64, tensor.Uint8}[t.Below(4)]
		m := forwardMachines[t.Below(2)] // the dual-value machine is for floats
		var shape []int
		lo := 0
		if broadcast {
			lo, dt = 1, tensor.Int // repetition of the other types is not implemented and refused
		}
		for i, d := 0, t.Int(lo, 4); i < d; i++ {
			shape = append(shape, t.Int(1, 4))
		}
		kind := t.Below(3)
		draw := func(n int, nonzero bool) []int64 {
			v := make([]int64, n)
			for i := range v {
				v[i] = int64(t.Int(-9, 9))
				switch {
				case kind == 1 && t.Chance(1, 4):
					v[i] *= 1000
				case kind == 2 && t.Bool():
					v[i] += []int64{math.MinInt64, math.MaxInt64, math.MaxInt32, math.MinInt32, 1 << 31, 1 << 53, 255, 128}[t.Below(8)]
				}
				v[i] = wrap(dt, v[i])
				if nonzero && v[i] == 0 {
					v[i] = 3
				}
			}
			return v
		}
		var l, r []byte
		sx, sy := append([]int(nil), shape...), append([]int(nil), shape...)
		if broadcast {
			for i := range shape {
				switch t.Below(3) {
				case 1:
					sx[i] = 1
					l = append(l, byte(i))
				case 2:
					sy[i] = 1
					r = append(r, byte(i))
				}
			}
		} else {
			switch t.Below(6) {
			case 0:
				sx = nil
			case 1:
				sy = nil
			}
		}
		k := t.Below(4)
		xs, ys := draw(ref.Prod(sx), false), draw(ref.Prod(sy), k == 3 && !compare)
		g := G.NewGraph()
		leaf := func(name string, s []int, v []int64) *G.Node {
			n := gen.NewInput(g, dt, name, s)
			if err := G.Let(n, intValue(dt, s, v)); err != nil {
				t.Failf("let: %v", err)
			}
			return n
		}
		x, y := leaf("x", sx, xs), leaf("y", sy, ys)
		want := make([]int64, ref.Prod(shape))
		// the operand element at a coordinate
		at := func(s []int, v []int64, co []int) int64 {
			j := 0
			for i := range s {
				j *= s[i]
				if s[i] > 1 {
					j += co[i]
				}
			}
			return v[j]
		}
		var node *G.Node
		var err error
		var name string
		asBool := false
		if compare {
			d := gen.CmpDefs[t.Below(len(gen.CmpDefs))]
			asBool = t.Bool()
			name = d.Name()
			ref.Each(shape, func(co []int, i int) {
				a, b := at(sx, xs, co), at(sy, ys, co)
				k := 0
				if a < b {
					k = -1
				} else if a > b {
					k = 1
				}
				if d.Holds(k) {
					want[i] = 1
				}
			})
			if broadcast {
				node, err = d.ApplyBroadcast(x, y, !asBool, l, r)
			} else {
				node, err = d.Apply(x, y, !asBool)
			}
		} else {
			name = []string{"Add", "Sub", "HadamardProd", "HadamardDiv"}[k]
			ref.Each(shape, func(co []int, i int) {
				a, b := at(sx, xs, co), at(sy, ys, co)
				switch k {
				case 0:
					want[i] = wrap(dt, a+b)
				case 1:
					want[i] = wrap(dt, a-b)
				case 2:
					want[i] = wrap(dt, a*b)
				default:
					want[i] = wrap(dt, a/b)
				}
			})
			if broadcast {
				node, err = []func(a, b *G.Node, l, r []byte) (*G.Node, error){G.BroadcastAdd, G.BroadcastSub, G.BroadcastHadamardProd, G.BroadcastHadamardDiv}[k](x, y, l, r)
			} else {
				node, err = []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.HadamardDiv}[k](x, y)
			}
		}
		t.Logf("%s(%v%v, %v%v) %v %v %v %s", name, sx, xs, sy, ys, l, r, dt, m.name)
		t.Label("op=%s", name)
		t.Label("dtype=%v", dt)
		if len(want) > 1 {
			t.NonTrivial()
		}
		if err != nil {
			t.Failf("build: %v", err)
		}
		last, lastWant := node, want
		if !asBool && t.Chance(1, 3) {
			zs := draw(len(want), false)
			if last, err = G.Sub(leaf("z", shape, zs), node); err != nil {
				t.Failf("build: %v", err)
			}
			lastWant = make([]int64, len(want))
			for i := range want {
				lastWant[i] = wrap(dt, zs[i]-want[i])
			}
		}
		vm := m.mk(g)
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run: %v", err)
		}
		if asBool {
			w := make([]float64, len(want))
			for i := range want {
				w[i] = float64(want[i])
			}
			if err := gen.SameVal(node.Value(), shape, w, 0); err != nil {
				t.Failf("%v", err)
			}
			if err := gen.DtOK(node.Value(), tensor.Bool); err != nil {
				t.Failf("%v", err)
			}
		} else if err := exactInts(last.Value(), dt, shape, lastWant); err != nil {
			t.Failf("%v", err)
		}
		if err := exactInts(x.Value(), dt, sx, xs); err != nil {
			t.Failf("left operand afterwards: %v", err)
		}
		if err := exactInts(y.Value(), dt, sy, ys); err != nil {
			t.Failf("right operand afterwards: %v", err)
		}
	}
}

// floatComparisons compares floats that are equal, differ in the last places
// only, or are extreme.
func floatComparisons(t *pbt.T) {
	dt := floatDt(t)
	m := forwardMachines[t.Below(len(forwardMachines))]
	var shape []int
	for i, d := 0, t.Int(0, 3); i < d; i++ {
		shape = append(shape, t.Int(1, 4))
	}
	sx, sy := append([]int(nil), shape...), append([]int(nil), shape...)
	switch t.Below(6) {
	case 0:
		sx = nil
	case 1:
		sy = nil
	}
	round := func(x float64) float64 {
		if dt == tensor.Float32 {
			return float64(float32(x))
		}
		return x
	}
	// next moves by k places.
	next := func(x float64, k int) float64 {
		for ; k != 0; k -= sgn(k) {
			to := math.Inf(sgn(k))
			if dt == tensor.Float32 {
				x = float64(math.Nextafter32(float32(x), float32(to)))
			} else {
				x = math.Nextafter(x, to)
			}
		}
		return x
	}
	var last []float64
	one := func() float64 {
		if len(last) > 0 && t.Chance(3, 4) {
			x := last[t.Below(len(last))]
			switch t.Below(5) {
			case 0:
				return x
			case 1:
				return next(x, t.Int(-3, 3))
			case 2:
				return round(x * (1 + math.Ldexp(1, -t.Int(10, 50))))
			case 3:
				return -x
			}
			return round(x + math.Ldexp(1, -t.Int(5, 60)))
		}
		x := drawExtreme(t, dt)
		if t.Chance(1, 12) {
			x = math.Inf(1 - 2*t.Below(2))
		}
		last = append(last, x)
		return x
	}
	draw := func(n int) []float64 {
		v := make([]float64, n)
		for i := range v {
			v[i] = one()
			if math.IsNaN(v[i]) {
				v[i] = 0
			}
		}
		return v
	}
	xs, ys := draw(ref.Prod(sx)), draw(ref.Prod(sy))
	if len(xs) == len(ys) && t.Bool() {
		// place by place
		for i := range ys {
			switch t.Below(4) {
			case 0:
				ys[i] = xs[i]
			case 1:
				ys[i] = next(xs[i], 1-2*t.Below(2))
			}
		}
	}
	g := G.NewGraph()
	x, y := gen.NewLeaf(g, dt, "x", sx, xs), gen.NewLeaf(g, dt, "y", sy, ys)
	d := gen.CmpDefs[t.Below(len(gen.CmpDefs))]
	asBool := t.Bool()
	t.Logf("%s(%v%v, %v%v) asBool=%v %v %s", d.Name(), sx, xs, sy, ys, asBool, dt, m.name)
	want := make([]float64, ref.Prod(shape))
	for i := range want {
		a, b := xs[i%len(xs)], ys[i%len(ys)]
		k := 0
		if a < b {
			k = -1
		} else if a > b {
			k = 1
		}
		if d.Holds(k) {
			want[i] = 1
		}
	}
	if len(want) > 1 {
		t.NonTrivial()
	}
	t.Label("op=%s", d.Name())
	t.Label("dtype=%v", dt)
	node, err := d.Apply(x, y, !asBool)
	if err != nil {
		t.Failf("build: %v", err)
	}
	vm := m.mk(g)
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run: %v", err)
	}
	if err := gen.SameVal(node.Value(), shape, want, 0); err != nil {
		t.Failf("%v", err)
	}
	wdt := dt
	if asBool {
		wdt = tensor.Bool
	}
	if err := gen.DtOK(node.Value(), wdt); err != nil {
		t.Failf("%v", err)
	}
	for _, o := range []struct {
		n *G.Node
		s []int
		v []float64
	}{{x, sx, xs}, {y, sy, ys}} {
		got, gs, _, err := gen.Floats(o.n.Value())
		if err != nil || !ref.EqShape(gs, o.s) {
			t.Failf("operand afterwards: %v %v", o.n.Value(), err)
		}
		for i := range got {
			if got[i] != o.v[i] {
				t.Failf("operand element %d afterwards: %v, was %v", i, got[i], o.v[i])
			}
		}
	}
}

func sgn(k int) int {
	if k < 0 {
		return -1
	}
	return 1
}
