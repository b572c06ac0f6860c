package props

import (
	"fmt"
	"math"
	"sort"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// sigmas is how far a statistic may stray from its expectation. At nine
// standard deviations a false alarm is out of reach of any number of runs.
const sigmas = 9

// law describes a distribution.
type law struct {
	name     string
	mean, sd float64
	kurt     float64 // fourth central moment over sd^4
	lo, hi   float64 // support
	integral bool
	inOne    float64 // probability of lying within one sd of the mean; 0: not checked
	inTwo    float64 // probability of lying within sqrt(3) sd of the mean; 0: not checked
}

func uniformLaw(lo, hi float64) law {
	return law{name: "uniform", mean: (lo + hi) / 2, sd: (hi - lo) / math.Sqrt(12), kurt: 1.8, lo: lo, hi: hi, inOne: 1 / math.Sqrt(3), inTwo: 1}
}

func normalLaw(mean, sd float64) law {
	return law{name: "normal", mean: mean, sd: sd, kurt: 3, lo: math.Inf(-1), hi: math.Inf(1), inOne: math.Erf(1 / math.Sqrt2), inTwo: math.Erf(math.Sqrt(3) / math.Sqrt2)}
}

func binomialLaw(n, p float64) law {
	v := n * p * (1 - p)
	return law{name: "binomial", mean: n * p, sd: math.Sqrt(v), kurt: 3 + (1-6*p*(1-p))/v, lo: 0, hi: n, integral: true}
}

// follows tests a sample against the law.
func (l law) follows(x []float64, single bool) error {
	n := float64(len(x))
	slack := 1e-12 * (math.Abs(l.lo) + math.Abs(l.hi))
	if single {
		slack = 1e-6 * (math.Abs(l.lo) + math.Abs(l.hi))
	}
	var sum, sq float64
	one, two := 0.0, 0.0
	for i, v := range x {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return fmt.Errorf("element %d is %v", i, v)
		}
		if !math.IsInf(l.lo, 0) && (v < l.lo-slack || v > l.hi+slack) {
			return fmt.Errorf("element %d is %v, outside [%v, %v]", i, v, l.lo, l.hi)
		}
		if l.integral && v != math.Trunc(v) {
			return fmt.Errorf("element %d is %v, not a whole number", i, v)
		}
		d := v - l.mean
		sum += d
		sq += d * d
		if math.Abs(d) <= l.sd {
			one++
		}
		if math.Abs(d) <= math.Sqrt(3)*l.sd*(1+1e-6) {
			two++
		}
	}
	if d := math.Abs(sum / n); d > sigmas*l.sd/math.Sqrt(n) {
		return fmt.Errorf("mean of %v elements is %v, want %v +- %v", n, l.mean+sum/n, l.mean, sigmas*l.sd/math.Sqrt(n))
	}
	if r, tol := sq/n/(l.sd*l.sd), sigmas*math.Sqrt((l.kurt-1)/n); math.Abs(r-1) > tol {
		return fmt.Errorf("variance of %v elements is %v of what it should be (tolerance %v)", n, r, tol)
	}
	for _, c := range []struct{ got, p float64 }{{one, l.inOne}, {two, l.inTwo}} {
		if c.p == 0 {
			continue
		}
		if tol := sigmas*math.Sqrt(c.p*(1-c.p)/n) + 1/n; math.Abs(c.got/n-c.p) > tol {
			return fmt.Errorf("%v of %v elements lie near the mean, want a share of %v +- %v (distribution not %s)", c.got, n, c.p, tol, l.name)
		}
	}
	// neighbours are uncorrelated
	var co float64
	for i := 1; i < len(x); i++ {
		co += (x[i] - l.mean) * (x[i-1] - l.mean)
	}
	if r := co / n / (l.sd * l.sd); math.Abs(r) > sigmas/math.Sqrt(n) {
		return fmt.Errorf("neighbouring elements are correlated: %v", r)
	}
	if !l.integral {
		s := append([]float64(nil), x...)
		sort.Float64s(s)
		same := 0
		for i := 1; i < len(s); i++ {
			if s[i] == s[i-1] {
				same++
			}
		}
		if float64(same) > 0.05*n {
			return fmt.Errorf("%d of %v elements are repeated", same, n)
		}
	}
	return nil
}

// bigShape draws a shape of at least 600 elements.
func bigShape(t *pbt.T, lo, hi int) []int {
	d := t.Int(lo, hi)
	s := make([]int, d)
	n := 1
	for i := range s {
		s[i] = t.Int(1, 9)
		n *= s[i]
	}
	k := t.Below(d)
	for n/s[k]*s[k] < 600 {
		n = n / s[k]
		s[k] += 1 + 600/n
		n *= s[k]
	}
	return s
}

func quarter(t *pbt.T, lo, hi int) float64 { return float64(t.Int(lo, hi)) / 4 }

func makeNode(g *G.ExprGraph, dt tensor.Dtype, shape []int, opts ...G.NodeConsOpt) *G.Node {
	switch len(shape) {
	case 0:
		return G.NewScalar(g, dt, opts...)
	case 1:
		return G.NewVector(g, dt, append([]G.NodeConsOpt{G.WithShape(shape...)}, opts...)...)
	case 2:
		return G.NewMatrix(g, dt, append([]G.NodeConsOpt{G.WithShape(shape...)}, opts...)...)
	}
	return G.NewTensor(g, dt, len(shape), append([]G.NodeConsOpt{G.WithShape(shape...)}, opts...)...)
}

// sampledInit checks random initialisers.
func sampledInit() pbt.Check {
	return func(t *pbt.T) {
		dt := floatDt(t)
		shape := bigShape(t, 1, 4)
		gain := float64(t.Int(1, 12)) / 4
		var fn G.InitWFn
		var l law
		var nm string
		n1, n2, field := 1, shape[0], 1
		if len(shape) > 1 {
			n1, n2 = shape[0], shape[1]
			field = ref.Prod(shape[2:])
		}
		glorot := gain * math.Sqrt(2/float64((n1+n2)*field))
		he := 0.0
		if len(shape) > 1 {
			fan := shape[0]
			if len(shape) > 2 {
				fan = ref.Prod(shape[1:])
			}
			he = gain * math.Sqrt(1/float64(fan))
		}
		k := t.Below(6)
		if k >= 4 && (len(shape) < 2 || dt != tensor.Float64) {
			k -= 2
		}
		switch k {
		case 0:
			lo := quarter(t, -40, 40)
			hi := lo + quarter(t, 1, 40)
			fn, l, nm = G.Uniform(lo, hi), uniformLaw(lo, hi), fmt.Sprintf("Uniform(%v, %v)", lo, hi)
		case 1:
			m, sd := quarter(t, -40, 40), quarter(t, 1, 40)
			fn, l, nm = G.Gaussian(m, sd), normalLaw(m, sd), fmt.Sprintf("Gaussian(%v, %v)", m, sd)
		case 2:
			fn, l, nm = G.GlorotU(gain), uniformLaw(-math.Sqrt(3)*glorot, math.Sqrt(3)*glorot), fmt.Sprintf("GlorotU(%v)", gain)
		case 3:
			fn, l, nm = G.GlorotN(gain), normalLaw(0, glorot), fmt.Sprintf("GlorotN(%v)", gain)
		case 4:
			fn, l, nm = G.HeU(gain), uniformLaw(-math.Sqrt(3)*he, math.Sqrt(3)*he), fmt.Sprintf("HeU(%v)", gain)
		default:
			fn, l, nm = G.HeN(gain), normalLaw(0, he), fmt.Sprintf("HeN(%v)", gain)
		}
		t.Logf("%s for %v of shape %v", nm, dt, shape)
		t.Label("init=%d dims=%d", k, len(shape))
		t.NonTrivial()
		g := G.NewGraph()
		var n, n2nd *G.Node
		if err, _ := pbt.Try(func() error {
			n = makeNode(g, dt, shape, G.WithName("w"), G.WithInit(fn))
			n2nd = makeNode(g, dt, shape, G.WithName("w2"), G.WithInit(fn))
			return nil
		}); err != nil {
			t.Failf("%v", err)
		}
		v, s, vdt, err := gen.Floats(n.Value())
		if err != nil {
			t.Failf("%v", err)
		}
		if !ref.EqShape(s, shape) || vdt != dt {
			t.Failf("the value is %v of shape %v", vdt, s)
		}
		if err := l.follows(v, dt == tensor.Float32); err != nil {
			t.Failf("%v", err)
		}
		w, _, _, err := gen.Floats(n2nd.Value())
		if err != nil {
			t.Failf("%v", err)
		}
		if gen.Close(v, w, 0) == nil {
			t.Failf("two initialisations gave the same numbers")
		}
	}
}

// fixedInit checks deterministic initialisers.
func fixedInit() pbt.Check {
	dts := []tensor.Dtype{tensor.Float64, tensor.Float32, tensor.Int, tensor.Int64, tensor.Int32}
	return func(t *pbt.T) {
		k := t.Below(5)
		nd := len(dts)
		if k >= 3 {
			nd = 3
		}
		dt := dts[t.Below(nd)]
		b := gen.NewBuilder(t, dt)
		shape := b.RandShape(0, 4)
		n := ref.Prod(shape)
		start, step := t.Int(-20, 20), t.Int(-5, 5)
		want := make([]float64, n)
		var fn G.InitWFn
		var nm string
		switch k {
		case 0:
			fn, nm = G.Zeroes(), "Zeroes"
		case 1:
			fn, nm = G.Ones(), "Ones"
			want = rep(1, n)
		case 2:
			fn, nm = G.RangedFrom(start), fmt.Sprintf("RangedFrom(%d)", start)
			for i := range want {
				want[i] = float64(start + i)
			}
		case 3:
			var a, c interface{} = start, step
			fa, fc := float64(start), float64(step)
			if dt != tensor.Int && t.Bool() {
				fa, fc = fa/4, fc/8
				a, c = fa, fc
			}
			fn, nm = G.RangedFromWithStep(a, c), fmt.Sprintf("RangedFromWithStep(%v, %v)", a, c)
			for i := range want {
				want[i] = fa + float64(i)*fc
			}
		default:
			fn, nm = G.ValuesOf(gen.Scalar(dt, float64(start))), fmt.Sprintf("ValuesOf(%d)", start)
			want = rep(float64(start), n)
		}
		t.Logf("%s for %v of shape %v", nm, dt, shape)
		t.Label("init=%d dtype=%v dims=%d", k, dt, len(shape))
		if n > 1 {
			t.NonTrivial()
		}
		var node *G.Node
		if err, _ := pbt.Try(func() error {
			node = makeNode(G.NewGraph(), dt, shape, G.WithName("w"), G.WithInit(fn))
			return nil
		}); err != nil {
			t.Failf("%v", err)
		}
		if err := gen.SameVal(node.Value(), shape, want, 0); err != nil {
			t.Failf("%v", err)
		}
		if err := gen.DtOK(node.Value(), dt); err != nil {
			t.Failf("%v", err)
		}
	}
}

// randomNodes checks nodes that draw their values when run.
func randomNodes() pbt.Check {
	return func(t *pbt.T) {
		g := G.NewGraph()
		type rn struct {
			n, use *G.Node
			v, u   G.Value
			l      law
			dt     tensor.Dtype
			shape  []int
			acc    []float64
			again  int
		}
		var ns []*rn
		k, same := t.Int(1, 3), 0
		if t.Chance(1, 60) {
			k, same = t.Int(12, 40), t.Below(2)
		}
		for ; k > 0; k-- {
			var r *rn
			a, c := 0.0, 0.0
			which := t.Below(3)
			if len(ns) > 0 && (same == 1 || t.Bool()) {
				cp := *ns[0]
				r = &cp
				r.acc = nil
				switch r.l.name {
				case "uniform":
					which, a, c = 0, r.l.lo, r.l.hi
				case "normal":
					which, a, c = 1, r.l.mean, r.l.sd
				default:
					which, a, c = 2, r.l.hi, r.l.mean/r.l.hi
				}
				t.Label("repeated")
			} else {
				r = &rn{dt: floatDt(t)}
				if !t.Chance(1, 6) {
					r.shape = bigShape(t, 1, 3)
				}
				switch which {
				case 0:
					a = quarter(t, -40, 40)
					c = a + quarter(t, 1, 40)
					r.l = uniformLaw(a, c)
				case 1:
					a, c = quarter(t, -40, 40), quarter(t, 1, 40)
					r.l = normalLaw(a, c)
				default:
					a, c = float64(t.Int(1, 12)), float64(t.Int(2, 8))/10
					r.l = binomialLaw(a, c)
				}
			}
			if err, _ := pbt.Try(func() (e error) {
				switch which {
				case 0:
					r.n = G.UniformRandomNode(g, r.dt, a, c, r.shape...)
				case 1:
					r.n = G.GaussianRandomNode(g, r.dt, a, c, r.shape...)
				default:
					r.n = G.BinomialRandomNode(g, r.dt, a, c, r.shape...)
				}
				r.use, e = G.Neg(r.n)
				return
			}); err != nil {
				t.Failf("%v", err)
			}
			t.Logf("%s(%v, %v) %v of shape %v", r.l.name, a, c, r.dt, r.shape)
			t.Label("law=%s dims=%d", r.l.name, len(r.shape))
			if len(r.shape) > 0 {
				t.NonTrivial()
			}
			ns = append(ns, r)
			G.Read(r.n, &r.v)
			G.Read(r.use, &r.u)
		}
		var vm G.VM
		switch t.Below(3) {
		case 0:
			vm = G.NewTapeMachine(g)
		case 1:
			vm = G.NewTapeMachine(g, G.TraceExec())
		default:
			vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
		}
		defer vm.Close()
		runs := t.Tail(2, 3, 8)
		for run := 0; run < runs; run++ {
			if run > 0 {
				vm.Reset()
			}
			if err := gen.RunVM(vm); err != nil {
				t.Failf("run %d: %v", run, err)
			}
			var all [][]float64
			for i, r := range ns {
				x, s, dt, err := gen.Floats(r.v)
				if err != nil {
					t.Failf("node %d: %v", i, err)
				}
				if !ref.EqShape(s, r.shape) || dt != r.dt {
					t.Failf("node %d: value is %v of shape %v", i, dt, s)
				}
				y := make([]float64, len(x))
				for j := range x {
					y[j] = -x[j]
				}
				if err := gen.SameVal(r.u, r.shape, y, 0); err != nil {
					t.Failf("node %d: the user of a random node did not see its value: %v", i, err)
				}
				if len(x) == 1 {
					if x[0] < r.l.lo || x[0] > r.l.hi || r.l.integral && x[0] != math.Trunc(x[0]) {
						t.Failf("node %d: %v is outside the distribution", i, x[0])
					}
					if r.acc != nil && r.acc[0] == x[0] && !r.l.integral {
						if r.again++; r.again > 1 {
							t.Failf("node %d drew %v in three runs", i, x[0])
						}
					} else {
						r.again = 0
					}
					r.acc = x
					continue
				}
				if err := r.l.follows(x, r.dt == tensor.Float32); err != nil {
					t.Failf("node %d, run %d: %v", i, run, err)
				}
				z := make([]float64, len(x))
				for j := range x {
					z[j] = (x[j] - r.l.mean) / r.l.sd
				}
				if r.acc != nil && related(z, r.acc) {
					t.Failf("node %d: what run %d drew depends on the run before", i, run)
				}
				r.acc = z
				for j, o := range all {
					if related(z, o) {
						t.Failf("nodes %d and %d drew values that depend on each other", j, i)
					}
				}
				all = append(all, z)
			}
		}
	}
}

// dropouts checks dropout: masks, scaling, modes, independence and gradients.
func dropouts() pbt.Check {
	after := []struct {
		name string
		f    func(*G.Node) (*G.Node, error)
		r    func(float64) float64
	}{
		{"Neg", G.Neg, func(x float64) float64 { return -x }},
		{"Square", G.Square, func(x float64) float64 { return x * x }},
		{"Abs", G.Abs, math.Abs},
		{"none", nil, nil},
	}
	return func(t *pbt.T) {
		dt := floatDt(t)
		single := dt == tensor.Float32
		shape := bigShape(t, 1, 4)
		wide := t.Chance(1, 12) // enough elements for probabilities near zero and one
		if wide {
			shape[t.Below(len(shape))] *= t.Int(9, 12)
		}
		n := ref.Prod(shape)
		vals := make([]float64, n)
		for i := range vals {
			vals[i] = float64(1+i%31) / 4
			if i%3 == 1 {
				vals[i] = -vals[i]
			}
		}
		eval := t.Chance(1, 4)
		grad := !eval && t.Chance(1, 2)
		g := G.NewGraph()
		x := gen.NewLeaf(g, dt, "x", shape, vals)
		type drop struct {
			p    float64
			d    *G.Node
			v, u G.Value
			a    int
			last []float64
		}
		var ds []*drop
		cost := (*G.Node)(nil)
		k := t.Int(1, 3)
		if t.Chance(1, 60) {
			k = t.Int(12, 40)
		}
		for ; k > 0; k-- {
			d := &drop{p: float64(t.Int(0, 9)) / 10, a: t.Below(len(after))}
			if wide {
				d.p = []float64{0.02, 0.03, 0.05, 0.95, 0.98, 0.25, 1. / 3}[t.Below(7)]
			}
			if grad { // known finding dropout-gradient: only at one half is the gradient right
				if d.p != 0.5 {
					t.Exclude("gradient of a dropout with a probability other than one half (known finding dropout-gradient)")
				}
				d.p, d.a = 0.5, 3
			}
			if err, _ := pbt.Try(func() (e error) {
				if d.d, e = G.Dropout(x, d.p); e != nil {
					return
				}
				if after[d.a].f != nil {
					var u *G.Node
					if u, e = after[d.a].f(d.d); e != nil {
						return
					}
					G.Read(u, &d.u)
				}
				if grad {
					var s *G.Node
					if s, e = G.Sum(d.d); e != nil {
						return
					}
					if cost == nil {
						cost = s
					} else if cost, e = G.Add(cost, s); e != nil {
						return
					}
				}
				return
			}); err != nil {
				t.Failf("%v", err)
			}
			t.Logf("dropout %v of %v %v then %s", d.p, dt, shape, after[d.a].name)
			ds = append(ds, d)
		}
		also := grad && t.Bool()
		if also {
			s, err := G.Sum(x)
			if err == nil {
				cost, err = G.Add(cost, s)
			}
			if err != nil {
				t.Failf("%v", err)
			}
		}
		lisp := t.Bool()
		t.Logf("eval=%v grad=%v lisp=%v also=%v", eval, grad, lisp, also)
		t.Label("eval=%v grad=%v lisp=%v", eval, grad, lisp)
		t.NonTrivial()
		if grad && !lisp {
			if err, _ := pbt.Try(func() error { _, e := G.Grad(cost, x); return e }); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
		var opts []G.VMOpt
		if eval {
			opts = append(opts, G.EvalMode())
		}
		if !lisp && grad {
			opts = append(opts, G.BindDualValues(x))
		}
		if !lisp && t.Bool() {
			opts = append(opts, G.TraceExec())
		}
		if !grad || !lisp {
			for _, d := range ds {
				G.Read(d.d, &d.v)
			}
		}
		var vm G.VM
		if lisp {
			if !grad {
				opts = append(opts, G.ExecuteFwdOnly())
			}
			vm = G.NewLispMachine(g, opts...)
		} else {
			vm = G.NewTapeMachine(g, opts...)
		}
		defer vm.Close()
		runs := t.Tail(1, 3, 8)
		if grad {
			runs = 1 // gradients accumulate over runs
		}
		for run := 0; run < runs; run++ {
			if run > 0 {
				vm.Reset()
			}
			if err := gen.RunVM(vm); err != nil {
				t.Failf("run %d: %v", run, err)
			}
			if err := gen.SameVal(x.Value(), shape, vals, 0); err != nil {
				t.Failf("run %d: the input changed: %v", run, err)
			}
			want := make([]float64, n)
			if also {
				want = rep(1, n)
			}
			var masks [][]float64
			for i, d := range ds {
				v := d.v
				if v == nil {
					v = d.d.Value()
				}
				y, s, vdt, err := gen.Floats(v)
				if err != nil {
					t.Failf("dropout %d: %v", i, err)
				}
				if !ref.EqShape(s, shape) || vdt != dt {
					t.Failf("dropout %d: value is %v of shape %v", i, vdt, s)
				}
				kept := 0
				mask := make([]float64, n)
				q := 1 - d.p
				if eval {
					q = 1
				}
				for j := range y {
					if y[j] == 0 {
						continue
					}
					mask[j] = 1
					kept++
					tol := 1e-12
					if single {
						tol = 1e-5
					}
					if math.Abs(y[j]-vals[j]/q) > tol*math.Abs(vals[j]/q) {
						t.Failf("dropout %d, run %d: element %d is %v, want 0 or %v", i, run, j, y[j], vals[j]/q)
					}
					want[j] += 1 / q
				}
				if tol := sigmas * math.Sqrt(q*(1-q)*float64(n)); math.Abs(float64(kept)-q*float64(n)) > tol {
					t.Failf("dropout %d, run %d: %d of %d elements kept, want %v +- %v", i, run, kept, n, q*float64(n), tol)
				}
				if d.u != nil {
					z := make([]float64, n)
					for j := range z {
						z[j] = after[d.a].r(y[j])
					}
					if err := gen.SameVal(d.u, shape, z, gen.Tol(dt, 7000)); err != nil {
						t.Failf("dropout %d: %s of it: %v", i, after[d.a].name, err)
					}
				}
				if q >= 0.15 && q <= 0.85 {
					for j := range mask {
						mask[j] = (mask[j] - q) / math.Sqrt(q*(1-q))
					}
					if related(mask[1:], mask[:n-1]) {
						t.Failf("dropout %d, run %d: what happens to an element depends on its neighbour", i, run)
					}
					if d.last != nil && related(mask, d.last) {
						t.Failf("dropout %d: what run %d dropped depends on the run before", i, run)
					}
					d.last = mask
					for j, o := range masks {
						if related(o, mask) {
							t.Failf("what dropouts %d and %d dropped depends on each other", j, i)
						}
					}
					masks = append(masks, mask)
				}
			}
			if grad {
				gv, err := x.Grad()
				if err != nil {
					t.Failf("Grad(): %v", err)
				}
				if err := gen.SameVal(gv, shape, want, 1e-6); err != nil {
					t.Failf("gradient: %v", err)
				}
			}
		}
	}
}

// related tells whether samples of mean zero and variance one are correlated.
func related(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	var c float64
	for i := range a {
		c += a[i] * b[i]
	}
	return math.Abs(c) > sigmas*math.Sqrt(float64(len(a)))
}

// probeDropoutGradient reproduces the known finding dropout-gradient.
func probeDropoutGradient() error {
	g := G.NewGraph()
	x := gen.NewLeaf(g, tensor.Float64, "x", []int{64}, rep(1, 64))
	d := G.Must(G.Dropout(x, 0.2))
	c := G.Must(G.Sum(d))
	if _, err := G.Grad(c, x); err != nil {
		return err
	}
	vm := G.NewTapeMachine(g, G.BindDualValues(x))
	defer vm.Close()
	if err := vm.RunAll(); err != nil {
		return err
	}
	gv, err := x.Grad()
	if err != nil {
		return err
	}
	v, _, _, err := gen.Floats(gv)
	if err != nil {
		return err
	}
	for i, e := range v {
		if e != 0 && e != 1.25 {
			return fmt.Errorf("element %d of the gradient is %v, want 0 or 1.25", i, e)
		}
	}
	return nil
}

func init() {
	pbt.Register(&pbt.Property{ID: "P28",
		Rule: "A case draws an initialiser with random parameters, a float (or, for fixed initialisers, integer) type and a shape, and makes a node with it. Fixed initialisers must give exactly their sequence. Samples of at least 600 elements must stay in the support of the stated distribution and have its mean, variance, shares near the mean and uncorrelated neighbours within nine standard deviations, and a second sample must differ. Non-trivial: more than one element.",
		Parts: []pbt.Part{
			{Name: "fixed", Check: fixedInit(), Quick: 90000, Thorough: 300000},
			{Name: "sampled", Check: sampledInit(), Quick: 90000, Thorough: 100000},
		}})
	pbt.Register(&pbt.Property{ID: "P29",
		Rule:   "A case puts one to three random nodes, often with equal parameters, or one to three dropouts of one input on a graph and runs it several times on a tape or traversal machine, in training or evaluation mode. Values must follow the stated distribution within nine standard deviations, be seen alike by every user, and be drawn anew for every node and every run; dropped elements are zero, kept ones scaled, nothing is dropped in evaluation mode, and gradients pass where elements were kept. Non-trivial: more than one element.",
		Probes: []pbt.Probe{{Name: "dropout-gradient", Run: probeDropoutGradient}},
		Parts: []pbt.Part{
			{Name: "nodes", Check: randomNodes(), Quick: 32000, Thorough: 60000},
			{Name: "dropout", Check: dropouts(), Quick: 48000, Thorough: 100000},
		}})
}
