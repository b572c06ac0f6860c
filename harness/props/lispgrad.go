package props

import (
	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// lispSpecs are the operations the traversal machine can differentiate.
func lispSpecs() []gen.Spec {
	skip := map[string]bool{"Max": true, "ByIndices": true, "Upsample2D": true, "Sparsemax": true, "Unconcat": true, "KeepDims": true}
	var out []gen.Spec
	for _, s := range diffSpecs() {
		if !skip[s.Name] {
			out = append(out, s)
		}
	}
	return out
}

// lispGrads runs the traversal machine and compares the gradient bound to
// every variable with the reference.
func lispGrads(t *pbt.T, p *gen.Prog, cost int) {
	wrt := p.Leaves()
	want, c := p.Gradients(cost, wrt)
	if c.Scale > gen.MaxScale(p.Dt) {
		t.Discard("gradient scale")
	}
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	for _, n := range bt.G.AllNodes() {
		// the traversal machine differentiates the sum of everything unused
		if n != bt.Nodes[cost] && bt.G.To(n.ID()).Len() == 0 {
			t.Discard("a rewritten operation left an unused node")
		}
	}
	m := G.NewLispMachine(bt.G)
	defer m.Close()
	if err := gen.RunVM(m); err != nil {
		t.Failf("run: %v", err)
	}
	tol := gen.Tol(p.Dt, c.Scale) * 10
	for _, l := range wrt {
		v, err := bt.Nodes[l].Grad()
		if err != nil {
			t.Failf("Grad() of v%d: %v", l, err)
		}
		if err := gen.SameVal(v, p.Vals[l].Leaf.Shape, want[l], tol); err != nil {
			t.Failf("gradient with respect to v%d: %v", l, err)
		}
		if err := gen.DtOK(v, p.Dt); err != nil {
			t.Failf("gradient with respect to v%d: %v", l, err)
		}
		if err := gen.SameVal(bt.Nodes[l].Value(), p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals, 0); err != nil {
			t.Failf("input v%d changed: %v", l, err)
		}
	}
	if err := gen.SameVal(bt.Nodes[cost].Value(), p.Vals[cost].Ten.Shape, p.Vals[cost].Ten.Vals(), tol); err != nil {
		t.Failf("cost: %v", err)
	}
}

func lispPerOp() pbt.Check {
	list := lispSpecs()
	aux := smooth(gen.PointwiseSpecs())
	return func(t *pbt.T) {
		sp := list[t.Below(len(list))]
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad, b.NoOneElem = true, true
		large(b, 1)
		seedLeaves(b, 0, 4)
		if t.Chance(1, 4) {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
		if !tryPush(b, sp, 4) {
			t.Discard("operation not applicable to the drawn operands: " + sp.Name)
		}
		op := b.Last()
		cost := b.Weighted(op)
		p, cost := b.P.Prune(cost)
		t.Logf("%s", p)
		t.Label("op=%s", sp.Name)
		t.Label("dtype=%v", p.Dt)
		if len(b.P.Vals[op].Ten.D) > 1 {
			t.NonTrivial()
		}
		lispGrads(t, p, cost)
	}
}

func lispDag() pbt.Check {
	list := lispSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad, b.NoOneElem = true, true
		b.MaxElems = 24
		n := large(b, t.Int(2, 7))
		seedLeaves(b, 0, 3)
		p, cost, ok := dagProgram(t, b, list, n, t.Chance(2, 3))
		if !ok {
			t.Discard("no operation was applicable")
		}
		t.Logf("%s", p)
		shared := 0
		for _, v := range p.Vals {
			if v.Uses > 1 {
				shared++
			}
		}
		t.Label("steps=%d", p.NumSteps())
		t.Label("shared>0=%v", shared > 0)
		if shared > 0 && p.NumSteps() >= 4 {
			t.NonTrivial()
		}
		lispGrads(t, p, cost)
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P13",
		Rule: "A case draws one differentiable operation, or a program of two to seven of them over shared values, with a scalar cost; the traversal machine runs it forwards and backwards, and the cost and the gradient bound to every variable are compared with hyper-dual forward differentiation of a naive evaluation. Non-trivial: the operation's result has more than one element, or the program has at least four operations and a value used more than once.",
		Parts: []pbt.Part{
			{Name: "ops", Check: lispPerOp(), Quick: 120000, Thorough: 3000000},
			{Name: "dag", Check: lispDag(), Quick: 100000, Thorough: 2000000},
		}})
}
