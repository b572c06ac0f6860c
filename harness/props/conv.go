package props

import (
	"verif/harness/gen"
	"verif/harness/pbt"
)

// convGrads checks gradients through sliding-window operations on either
// kind of machine: one operation, or several over shared images.
func convGrads(t *pbt.T) {
	list := smooth(gen.ConvSpecs())
	aux := smooth(concat(gen.PointwiseSpecs, gen.ReductionSpecs)())
	b := gen.NewBuilder(t, floatDt(t))
	lisp := t.Chance(1, 3)
	b.Grad, b.NoOneElem = true, lisp
	b.MaxElems = 60
	if t.Chance(1, 4) {
		b.MaxElems = 120
	}
	n := t.Int(1, 4)
	var ops []string
	for i := 0; i < n; i++ {
		sp := list[t.Below(len(list))]
		if tryPush(b, sp, 4) {
			ops = append(ops, sp.Name)
		}
		if t.Chance(1, 3) {
			if s := aux[t.Below(len(aux))]; !lisp || s.Name != "Max" && s.Name != "KeepDims" {
				tryPush(b, s, 2)
			}
		}
	}
	if len(ops) == 0 {
		t.Discard("no operation was applicable")
	}
	cost := costOf(b, t.Chance(3, 4))
	p, cost := b.P.Prune(cost)
	t.Label("windows=%d lisp=%v dtype=%v", len(ops), lisp, p.Dt)
	for _, o := range ops {
		t.Label("op=%s", o)
	}
	if p.NumSteps() > 3 {
		t.NonTrivial()
	}
	if lisp {
		t.Logf("%s on lisp", p)
		lispGrads(t, p, cost)
		return
	}
	mode := tapeGradModes[t.Below(len(tapeGradModes))]
	t.Logf("%s mode %s", p, mode)
	tapeGrads(t, p, cost, mode)
}

func init() {
	pbt.Register(&pbt.Property{ID: "P08", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forwardSized(gen.ConvSpecs, 4, 4, 150), Quick: 400000, Thorough: 4000000},
	}})
	pbt.Register(&pbt.Property{ID: "P09",
		Rule: "A case draws one to four convolutions, window layouts and poolings over shared images (batches and channels up to 3, sides up to 6, windows with their own size, padding, stride and dilation), optionally with other operations between them, and a scalar cost; its gradient with respect to every image and filter, from symbolic differentiation on a tape machine or from a lisp machine, is compared with hyper-dual forward differentiation of a naive evaluation. Non-trivial: more than three operations, the cost included.",
		Parts: []pbt.Part{
			{Name: "grads", Check: convGrads, Quick: 50000, Thorough: 1500000},
		}})
}
