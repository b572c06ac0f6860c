package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// normGrads checks gradients through normalisation layers on either machine.
func normGrads(t *pbt.T) {
	list := gen.NormSpecs()
	aux := smooth(gen.PointwiseSpecs())
	b := gen.NewBuilder(t, floatDt(t))
	lisp := t.Chance(1, 3)
	b.Grad, b.NoOneElem = true, lisp
	b.MaxElems = 60
	if t.Chance(1, 100) {
		b.MaxElems = 600
	}
	n := t.Int(1, 3)
	k := 0
	for i := 0; i < n; i++ {
		if tryPush(b, list[t.Below(len(list))], 4) {
			k++
		}
		if t.Chance(1, 3) {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
	}
	if k == 0 {
		t.Discard("no layer was applicable")
	}
	cost := costOf(b, t.Chance(3, 4))
	p, cost := b.P.Prune(cost)
	t.Label("layers=%d lisp=%v dtype=%v", k, lisp, p.Dt)
	if p.NumSteps() > 3 {
		t.NonTrivial()
	}
	if lisp {
		t.Logf("%s on lisp", p)
		lispGrads(t, p, cost)
		return
	}
	mode := tapeGradModes[t.Below(len(tapeGradModes))]
	t.Logf("%s mode %s", p, mode)
	tapeGrads(t, p, cost, mode)
}

// bnLayer is the model of one batch normalisation.
type bnLayer struct {
	mom, eps float64
	mean, va []float64
	op       *G.BatchNormOp
	training bool
	in       *G.Node
	sc, bi   *G.Node
	scV, biV []float64
	out      *G.Node
	channels int
	parShape []int
}

// batchNormHistory drives one or two stacked batch normalisations through a
// history of training runs, evaluation runs, resets and restored statistics.
func batchNormHistory(t *pbt.T) {
	dt := floatDt(t)
	shape := []int{t.Tail(2, 4, 8), t.Tail(1, 3, 6)}
	if t.Chance(2, 3) {
		shape = []int{t.Tail(1, 3, 5), t.Tail(1, 3, 5), t.Tail(1, 3, 5), t.Tail(1, 3, 5)}
		if shape[0]*shape[2]*shape[3] < 2 {
			shape[0] = 2
		}
	}
	n := ref.Prod(shape)
	g := G.NewGraph()
	draw := func(k int) []float64 {
		v := make([]float64, k)
		for i := range v {
			v[i] = t.Dyadic(3, 4)
		}
		return v
	}
	xs := draw(n)
	x := gen.NewLeaf(g, dt, "x", shape, xs)
	par := make([]int, len(shape))
	for i := range par {
		par[i] = 1
	}
	par[1] = shape[1]
	layers := make([]*bnLayer, t.Int(1, 2))
	// two layers follow each other or stand side by side
	side := len(layers) == 2 && t.Chance(1, 3)
	cur := x
	for i := range layers {
		if side {
			cur = x
		}
		l := &bnLayer{mom: []float64{0.9, 0.5, 0.1}[t.Below(3)], eps: []float64{1e-5, 1e-3, 0.25}[t.Below(3)], channels: shape[1], parShape: par, in: cur}
		if side && i == 1 && l.mom == layers[0].mom && l.eps == layers[0].eps {
			l.mom = 0.75 // layers of one input and equal parameters are one
		}
		l.scV, l.biV = draw(shape[1]), draw(shape[1])
		l.sc = gen.NewLeaf(g, dt, fmt.Sprintf("scale%d", i), par, l.scV)
		l.bi = gen.NewLeaf(g, dt, fmt.Sprintf("bias%d", i), par, l.biV)
		out, _, _, op, err := G.BatchNorm(cur, l.sc, l.bi, l.mom, l.eps)
		if err != nil {
			t.Failf("BatchNorm: %v", err)
		}
		l.op, l.out, cur = op, out, out
		l.mean, l.va = make([]float64, shape[1]), make([]float64, shape[1])
		l.training = true
		layers[i] = l
	}
	if side {
		cur = G.Must(G.Add(layers[0].out, layers[1].out))
	}
	t.Logf("%v x%v layers %d side by side %v", dt, shape, len(layers), side)
	wv := draw(n)
	w := gen.NewLeaf(g, dt, "w", shape, wv)
	withGrad := t.Bool()
	var params G.Nodes
	var gradV []G.Value
	if withGrad {
		cost := G.Must(G.Sum(G.Must(G.HadamardProd(cur, w))))
		params = G.Nodes{x}
		for _, l := range layers {
			params = append(params, l.sc, l.bi)
		}
		gs, err := G.Grad(cost, params...)
		if err != nil {
			t.Failf("Grad: %v", err)
		}
		gradV = make([]G.Value, len(gs))
		for i := range gs {
			G.Read(gs[i], &gradV[i])
		}
	}
	var outV G.Value
	G.Read(cur, &outV)

	reset := func(l *bnLayer) {
		for c := range l.mean {
			l.mean[c], l.va[c] = 0, 1
		}
	}
	setTraining := func(l *bnLayer, on bool) {
		if on {
			reset(l)
		}
		l.training = on
	}
	var vm G.VM
	newMachine := func() {
		if vm != nil {
			vm.Close()
		}
		var opts []G.VMOpt
		if withGrad && t.Bool() {
			opts = append(opts, G.BindDualValues(params...))
		}
		if t.Chance(1, 3) {
			opts = append(opts, G.TraceExec())
		}
		eval := t.Chance(2, 5)
		if eval {
			opts = append(opts, G.EvalMode())
		}
		kind := "tape"
		if !withGrad && t.Chance(1, 3) {
			kind = "lisp"
			opts = []G.VMOpt{G.ExecuteFwdOnly()}
			if eval {
				opts = append(opts, G.EvalMode())
			}
			vm = G.NewLispMachine(g, opts...)
		} else {
			vm = G.NewTapeMachine(g, opts...)
		}
		for _, l := range layers {
			setTraining(l, !eval)
		}
		t.Logf("new %s machine eval=%v", kind, eval)
	}
	newMachine()
	defer func() { vm.Close() }()
	tol := 1e-8
	if dt == tensor.Float32 {
		tol = 2e-3
	}
	trains, evals := 0, 0
	for k := t.Tail(1, 6, 20); k > 0; k-- {
		l := layers[t.Below(len(layers))]
		switch t.Below(8) {
		case 0:
			newMachine()
		case 1:
			on := t.Bool()
			t.Logf("SetTraining(%v)", on)
			if err := l.op.SetTraining(on); err != nil {
				t.Failf("SetTraining: %v", err)
			}
			setTraining(l, on)
		case 2:
			t.Logf("Reset")
			if err := l.op.Reset(); err != nil {
				t.Failf("Reset: %v", err)
			}
			reset(l)
		case 3:
			m, v := draw(l.channels), draw(l.channels)
			for c := range v {
				v[c] = math.Abs(v[c]) + 0.25
			}
			t.Logf("SetStats %v %v", m, v)
			mt, vt := gen.Value(dt, []int{l.channels}, m).(tensor.Tensor), gen.Value(dt, []int{l.channels}, v).(tensor.Tensor)
			if err := l.op.SetStats(mt, vt); err != nil {
				t.Failf("SetStats: %v", err)
			}
			mt.Zero() // the values were to be copied
			copy(l.mean, m)
			copy(l.va, v)
		case 4:
			xs = draw(n)
			t.Logf("new x")
			if err := gen.LetVals(x, dt, shape, xs); err != nil {
				t.Failf("Let: %v", err)
			}
		}
		// model
		c := &ref.Ctx{}
		type key struct{ which, at int }
		forward := func(seed key) *ref.Ten {
			xt := ref.From(shape, xs)
			if seed.which == 0 {
				xt.D[seed.at].A = 1
			}
			in := xt
			var first *ref.Ten
			for i, l := range layers {
				if side {
					first, xt = xt, in
				}
				sc, bi := ref.From(l.parShape, l.scV), ref.From(l.parShape, l.biV)
				if seed.which == 1+2*i {
					sc.D[seed.at].A = 1
				}
				if seed.which == 2+2*i {
					bi.D[seed.at].A = 1
				}
				var mean, va []ref.N
				if l.training {
					mean, va = gen.BatchStats(c, xt)
				} else {
					for k := range l.mean {
						mean, va = append(mean, ref.N{V: l.mean[k]}), append(va, ref.N{V: l.va[k]})
						if l.va[k]+l.eps < 0.02 {
							c.Domain = "variance near zero"
						}
					}
				}
				xt = gen.BatchNormWith(c, xt, sc, bi, mean, va, l.eps)
			}
			if side {
				for i := range xt.D {
					xt.D[i] = c.Add(xt.D[i], first.D[i])
				}
			}
			return xt
		}
		want := forward(key{-1, 0})
		wantG := make([][]float64, len(params))
		for i := range params {
			size := n
			if i > 0 {
				size = shape[1]
			}
			for at := 0; at < size; at++ {
				r := forward(key{i, at})
				d := 0.0
				for k := range wv {
					d += wv[k] * r.D[k].A
				}
				wantG[i] = append(wantG[i], d)
			}
		}
		if c.Bad() != "" || c.Scale > 1e4 {
			t.Discard("a channel hardly varies")
		}
		// statistics after the run
		{
			cc := &ref.Ctx{}
			xt := ref.From(shape, xs)
			for _, l := range layers {
				if side {
					xt = ref.From(shape, xs)
				}
				sc, bi := ref.From(l.parShape, l.scV), ref.From(l.parShape, l.biV)
				if l.training {
					trains++
					m, v := gen.BatchStats(cc, xt)
					cnt := float64(n / l.channels)
					xt = gen.BatchNormWith(cc, xt, sc, bi, m, v, l.eps)
					for k := range m {
						l.mean[k] = l.mom*m[k].V + (1-l.mom)*l.mean[k]
						l.va[k] = l.mom*v[k].V*cnt/(cnt-1) + (1-l.mom)*l.va[k]
					}
				} else {
					evals++
					var m, v []ref.N
					for k := range l.mean {
						m, v = append(m, ref.C(l.mean[k])), append(v, ref.C(l.va[k]))
					}
					xt = gen.BatchNormWith(cc, xt, sc, bi, m, v, l.eps)
				}
			}
		}
		vm.Reset()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run: %v", err)
		}
		tl := tol * (1 + c.Scale)
		if err := gen.SameVal(outV, shape, want.Vals(), tl); err != nil {
			t.Failf("output: %v", err)
		}
		if err := gen.SameVal(x.Value(), shape, xs, 0); err != nil {
			t.Failf("input changed: %v", err)
		}
		for i, l := range layers {
			m, v := l.op.Stats()
			if err := gen.SameVal(m, []int{l.channels}, l.mean, tl); err != nil {
				t.Failf("running mean of layer %d: %v", i, err)
			}
			if err := gen.SameVal(v, []int{l.channels}, l.va, tl*10); err != nil {
				t.Failf("running variance of layer %d: %v", i, err)
			}
			// follow the stored statistics, so that rounding does not build up
			m64, _, _, _ := gen.Floats(m)
			v64, _, _, _ := gen.Floats(v)
			copy(l.mean, m64)
			copy(l.va, v64)
		}
		for i := range params {
			ps := shape
			if i > 0 {
				ps = par
			}
			if err := gen.SameVal(gradV[i], ps, wantG[i], tl*30); err != nil {
				t.Failf("gradient with respect to %s: %v", params[i].Name(), err)
			}
		}
	}
	t.Label("grad=%v layers=%d side=%v dtype=%v", withGrad, len(layers), side, dt)
	t.Label("trained=%v evaluated=%v", trains > 0, evals > 0)
	if trains+evals > 2 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P12",
		Rule: "A case is a program of normalisation layers whose values are compared with a naive evaluation on both machines, or such a program with a scalar cost whose gradients are compared with hyper-dual forward differentiation, or a history of one or two stacked batch normalisations (new training and evaluation machines, runs with new inputs, switching, resetting and restoring statistics) against a model of the running statistics. Non-trivial: more than one element in the result, more than three operations, or more than two layer runs.",
		Parts: []pbt.Part{
			{Name: "ops", Check: forwardSized(gen.NormSpecs, 4, 4, 60), Quick: 60000, Thorough: 1500000},
			{Name: "large", Check: forwardSized(gen.NormSpecs, 4, 4, 1200), Quick: 6000, Thorough: 150000},
			{Name: "grads", Check: normGrads, Quick: 40000, Thorough: 1000000},
			{Name: "histories", Check: batchNormHistory, Quick: 40000, Thorough: 1000000},
		}})
}
