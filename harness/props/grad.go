package props

import (
	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// diffSpecs are the operations with a derivative that symbolic
// differentiation supports.
func diffSpecs() []gen.Spec {
	return smooth(concat(gen.PointwiseSpecs, gen.BroadcastSpecs, gen.LinalgSpecs, gen.ReductionSpecs, gen.SoftmaxSpecs, gen.ShapeSpecs, gen.ConvSpecs)())
}

func smooth(list []gen.Spec) []gen.Spec {
	skip := map[string]bool{"Sign": true, "Ceil": true, "Floor": true, "At": true, "DiagFlat": true, "ConvType": true, "SizeOf": true, "GlobalAveragePool2D": true}
	var out []gen.Spec
	for _, s := range list {
		if !skip[s.Name] {
			out = append(out, s)
		}
	}
	return out
}

// dagProgram draws a program of n steps over the specs and a scalar cost that
// uses all of its results (or only the last one).
func dagProgram(t *pbt.T, b *gen.Builder, list []gen.Spec, n int, wholeDag bool) (p *gen.Prog, cost int, ok bool) {
	var sp gen.Spec
	for i := 0; i < n; i++ {
		if i == 0 || !t.Chance(1, 4) {
			sp = list[t.Below(len(list))]
		}
		tryPush(b, sp, 2)
	}
	if b.P.NumSteps() == 0 {
		return nil, 0, false
	}
	cost = costOf(b, wholeDag)
	p, cost = b.P.Prune(cost)
	return p, cost, true
}

// costOf reduces the results of a program to one weighted scalar.
func costOf(b *gen.Builder, wholeDag bool) int {
	roots := b.P.Roots()
	last := roots[len(roots)-1]
	cost := b.Weighted(last)
	if wholeDag {
		for _, r := range roots[:len(roots)-1] {
			if b.P.Vals[r].Step.Bool {
				continue
			}
			c := b.Weighted(r)
			if b.Push(gen.AddStep(cost, c)) {
				cost = b.Last()
			}
		}
	}
	return cost
}

var tapeGradModes = []string{"bind", "read", "trace", "plain"}

// tapeGrads differentiates symbolically, runs on a tape machine and compares
// every gradient with the reference.
func tapeGrads(t *pbt.T, p *gen.Prog, cost int, mode string) {
	wrt := p.Leaves()
	want, c := p.Gradients(cost, wrt)
	if c.Scale > gen.MaxScale(p.Dt) {
		t.Discard("gradient scale")
	}
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	var ns G.Nodes
	for _, l := range wrt {
		ns = append(ns, bt.Nodes[l])
	}
	var gn G.Nodes
	if err, _ := pbt.Try(func() (e error) { gn, e = G.Grad(bt.Nodes[cost], ns...); return }); err != nil {
		t.Failf("Grad: %v", err)
	}
	if len(gn) != len(ns) {
		t.Failf("Grad returned %d nodes for %d inputs", len(gn), len(ns))
	}
	vals := make([]G.Value, len(ns))
	var m G.VM
	switch mode {
	case "bind":
		m = G.NewTapeMachine(bt.G, G.BindDualValues(ns...))
	case "read":
		for i := range gn {
			G.Read(gn[i], &vals[i])
		}
		m = G.NewTapeMachine(bt.G)
	case "trace":
		m = G.NewTapeMachine(bt.G, G.TraceExec())
	default:
		m = G.NewTapeMachine(bt.G)
	}
	defer m.Close()
	if err := gen.RunVM(m); err != nil {
		t.Failf("run: %v", err)
	}
	tol := gen.Tol(p.Dt, c.Scale) * 10
	for i, l := range wrt {
		switch mode {
		case "bind":
			v, err := ns[i].Grad()
			if err != nil {
				t.Failf("Grad() of v%d: %v", l, err)
			}
			vals[i] = v
		case "trace":
			vals[i] = gn[i].Value()
		case "plain":
			if bt.G.To(gn[i].ID()).Len() > 0 {
				continue
			}
			vals[i] = gn[i].Value()
		}
		if err := gen.SameVal(vals[i], p.Vals[l].Leaf.Shape, want[l], tol); err != nil {
			t.Failf("gradient with respect to v%d (%s): %v", l, mode, err)
		}
		if err := gen.DtOK(vals[i], p.Dt); err != nil {
			t.Failf("gradient with respect to v%d (%s): %v", l, mode, err)
		}
		if s := gn[i].Shape(); !ref.EqShape(s, p.Vals[l].Leaf.Shape) {
			t.Failf("shape of the gradient node of v%d is %v, want %v", l, s, p.Vals[l].Leaf.Shape)
		}
		if err := gen.SameVal(ns[i].Value(), p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals, 0); err != nil {
			t.Failf("input v%d changed: %v", l, err)
		}
	}
}

func symbolicPerOp() pbt.Check {
	list := diffSpecs()
	aux := smooth(gen.PointwiseSpecs())
	return func(t *pbt.T) {
		sp := list[t.Below(len(list))]
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		large(b, 1)
		seedLeaves(b, 0, 4)
		pre := t.Chance(1, 4)
		if pre {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
		if !tryPush(b, sp, 4) {
			t.Discard("operation not applicable to the drawn operands: " + sp.Name)
		}
		op := b.Last()
		cost := b.Weighted(op)
		p, cost := b.P.Prune(cost)
		mode := tapeGradModes[t.Below(len(tapeGradModes))]
		t.Logf("%s mode %s", p, mode)
		t.Label("op=%s", sp.Name)
		t.Label("mode=%s dtype=%v", mode, p.Dt)
		if len(b.P.Vals[op].Ten.D) > 1 {
			t.NonTrivial()
		}
		tapeGrads(t, p, cost, mode)
	}
}

func symbolicDag() pbt.Check {
	list := diffSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		b.MaxElems = 24
		n := large(b, t.Int(2, 7))
		seedLeaves(b, 0, 3)
		p, cost, ok := dagProgram(t, b, list, n, t.Chance(2, 3))
		if !ok {
			t.Discard("no operation was applicable")
		}
		mode := tapeGradModes[t.Below(len(tapeGradModes))]
		t.Logf("%s mode %s", p, mode)
		shared := 0
		for _, v := range p.Vals {
			if v.Uses > 1 {
				shared++
			}
		}
		t.Label("steps=%d", p.NumSteps())
		t.Label("shared>0=%v", shared > 0)
		t.Label("mode=%s dtype=%v", mode, p.Dt)
		if shared > 0 && p.NumSteps() >= 4 {
			t.NonTrivial()
		}
		tapeGrads(t, p, cost, mode)
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P10",
		Rule: "A case draws one differentiable operation with random operands (optionally behind another operation), makes a scalar cost by weighting and summing its result, differentiates it symbolically and compares the gradient with respect to every variable, read in one of four ways, with hyper-dual forward differentiation of a naive evaluation. Non-trivial: the operation's result has more than one element.",
		Parts: []pbt.Part{
			{Name: "ops", Check: symbolicPerOp(), Quick: 300000, Thorough: 3000000},
		}})
	pbt.Register(&pbt.Property{ID: "P11",
		Rule: "A case draws a program of two to seven operations over shared intermediate values, a scalar cost over its results, and compares the symbolic gradient with respect to every variable with hyper-dual forward differentiation. Non-trivial: at least four operations and at least one value used more than once.",
		Parts: []pbt.Part{
			{Name: "dag", Check: symbolicDag(), Quick: 100000, Thorough: 3000000},
		}})
}
