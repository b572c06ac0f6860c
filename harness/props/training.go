package props

import (
	"math"

	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// training drives whole training loops: bind data, run, read the gradients,
// step, reset.
func training() pbt.Check {
	tlist := diffSpecs()
	llist := lispSpecs()
	layers := concat(func() []gen.Spec { return smooth(gen.ConvSpecs()) }, gen.NormSpecs, func() []gen.Spec { return smooth(gen.PointwiseSpecs()) })()
	kinds := []string{"vanilla", "momentum", "rmsprop", "adagrad", "adam", "adamw"}
	return func(t *pbt.T) {
		lisp := t.Chance(1, 3)
		list := tlist
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		b.MaxElems = 16
		if lisp {
			b.NoOneElem = true
			list = llist
		}
		if t.Chance(1, 5) {
			list = layers
			b.MaxElems = 60
			t.Label("layers")
		} else {
			seedLeaves(b, 0, 2)
		}
		p, cost, ok := dagProgram(t, b, list, t.Int(1, 4), true)
		if !ok {
			t.Discard("no operation was applicable")
		}
		cfg, sol := drawSolver(t, kinds)
		leaves := p.Leaves()
		isParam := map[int]bool{}
		var params []int
		for _, l := range leaves {
			if t.Chance(2, 3) {
				isParam[l] = true
				params = append(params, l)
			}
		}
		if len(params) == 0 {
			params = append(params, leaves[0])
			isParam[leaves[0]] = true
		}
		t.Logf("%s parameters %v %+v lisp=%v", p, params, *cfg, lisp)
		t.Label("solver=%s lisp=%v dtype=%v", cfg.Kind, lisp, p.Dt)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		var ns G.Nodes
		for _, l := range params {
			ns = append(ns, bt.Nodes[l])
		}
		var cv G.Value
		var vm G.VM
		if lisp {
			for _, n := range bt.G.AllNodes() {
				if n != bt.Nodes[cost] && bt.G.To(n.ID()).Len() == 0 {
					t.Discard("a rewritten operation left an unused node")
				}
			}
			vm = G.NewLispMachine(bt.G)
		} else {
			if err, _ := pbt.Try(func() error { _, e := G.Grad(bt.Nodes[cost], ns...); return e }); err != nil {
				t.Failf("Grad: %v", err)
			}
			G.Read(bt.Nodes[cost], &cv)
			vm = G.NewTapeMachine(bt.G, G.BindDualValues(ns...))
		}
		defer vm.Close()
		model := G.NodesToValueGrads(ns)
		state := map[int][]ref.SolverState{}
		cur := map[int][]float64{}
		for _, l := range leaves {
			cur[l] = append([]float64(nil), p.Vals[l].Leaf.Vals...)
			state[l] = make([]ref.SolverState, len(cur[l]))
		}
		steps := t.Tail(2, 6, 20)
		done := 0
		for it := 1; it <= steps; it++ {
			if it > 1 {
				vm.Reset()
				if t.Chance(1, 2) { // the next batch
					next, _, _, ok := redraw(t, b, p, cur, func(i int) bool { return !isParam[i] }, true)
					if ok {
						for _, l := range leaves {
							if isParam[l] {
								continue
							}
							if err := gen.LetVals(bt.Nodes[l], p.Dt, p.Vals[l].Leaf.Shape, next[l]); err != nil {
								t.Failf("Let: %v", err)
							}
							cur[l] = next[l]
							t.Logf("let v%d=%v", l, next[l])
						}
					}
				}
			}
			// is the reference sure here?
			at := map[int]*ref.Ten{}
			for _, l := range leaves {
				at[l] = ref.From(p.Vals[l].Leaf.Shape, cur[l])
			}
			c := &ref.Ctx{Margin: gen.Margin(p.Dt)}
			out := p.Eval(c, at)
			if c.Bad() != "" || c.Tie != "" || c.Scale > gen.MaxScale(p.Dt) {
				break
			}
			grads, gc := gradsAt(p, cost, params, cur)
			if gc.Bad() != "" || gc.Scale > gen.MaxScale(p.Dt) {
				break
			}
			if err := gen.RunVM(vm); err != nil {
				t.Failf("step %d: %v", it, err)
			}
			tol := 10 * gen.Tol(p.Dt, gc.Scale)
			v := cv
			if lisp {
				v = bt.Nodes[cost].Value()
			}
			if err := gen.SameVal(v, nil, out[cost].Vals(), tol); err != nil {
				t.Failf("step %d: cost: %v", it, err)
			}
			got := map[int][]float64{}
			for i, l := range params {
				gv, err := ns[i].Grad()
				if err != nil {
					t.Failf("step %d: gradient of v%d: %v", it, l, err)
				}
				if err := gen.SameVal(gv, p.Vals[l].Leaf.Shape, grads[l], tol); err != nil {
					t.Failf("step %d: gradient of v%d: %v", it, l, err)
				}
				got[l], _, _, _ = gen.Floats(gv)
			}
			// the sign of a zero weight is a convention; a gradient that nearly
			// cancels with the regularisation is rounding noise
			unsure := false
			for _, l := range params {
				if cfg.L1 != 0 && nearZero([][]float64{cur[l]}) {
					unsure = true
				}
				for j, g := range got[l] {
					if e := cfg.EffGrad(cur[l][j], g); e != g && math.Abs(e) < 0.01 && e != 0 {
						unsure = true
					}
				}
			}
			if unsure {
				break
			}
			if err, _ := pbt.Try(func() error { return sol.Step(model) }); err != nil {
				t.Failf("step %d: Step: %v", it, err)
			}
			scale := 8.0
			for i, l := range params {
				want := make([]float64, len(cur[l]))
				for j := range want {
					want[j] = cfg.Step(&state[l][j], it, cur[l][j], got[l][j])
					scale = math.Max(scale, math.Max(math.Abs(want[j]), math.Abs(got[l][j])))
				}
				if err := gen.SameVal(ns[i].Value(), p.Vals[l].Leaf.Shape, want, solverTol(p.Dt, scale)); err != nil {
					t.Failf("step %d: parameter v%d: %v", it, l, err)
				}
				gv, err := ns[i].Grad()
				if err != nil {
					t.Failf("step %d: gradient of v%d after the step: %v", it, l, err)
				}
				if err := gen.SameVal(gv, p.Vals[l].Leaf.Shape, make([]float64, len(want)), 0); err != nil {
					t.Failf("step %d: gradient of v%d is not cleared: %v", it, l, err)
				}
				cur[l], _, _, _ = gen.Floats(ns[i].Value())
			}
			for _, l := range leaves {
				if !isParam[l] {
					if err := gen.SameVal(bt.Nodes[l].Value(), p.Vals[l].Leaf.Shape, cur[l], 0); err != nil {
						t.Failf("step %d: the data v%d changed: %v", it, l, err)
					}
				}
			}
			done++
			if scale > 1e3 {
				break
			}
		}
		t.Label("steps=%d", done)
		if done >= 2 {
			t.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P23",
		Rule: "A case draws a program with a scalar cost, makes some of its inputs parameters and the others data, draws a solver with options, and runs a training loop of up to six steps on a tape machine with bound gradients or on the traversal machine, sometimes with a new batch of data. In every step the cost and the gradients are compared with the reference at the weights stored then, and the new weights with the update rule applied to the stored weights and gradients; gradients must be cleared and data untouched. Non-trivial: at least two steps.",
		Parts: []pbt.Part{
			{Name: "loops", Check: training(), Quick: 120000, Thorough: 1500000},
		}})
}
