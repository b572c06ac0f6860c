// Package props states each property as a check over generated cases.
package props

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

func floatDt(t *pbt.T) tensor.Dtype {
	if t.Chance(1, 3) {
		return tensor.Float32
	}
	return tensor.Float64
}

// machine is one way of evaluating a graph forwards.
type machine struct {
	name string
	mk   func(g *G.ExprGraph) G.VM
	all  bool // every node keeps its value, not only results
}

var forwardMachines = []machine{
	{"tape", func(g *G.ExprGraph) G.VM { return G.NewTapeMachine(g) }, false},
	{"tape+trace", func(g *G.ExprGraph) G.VM { return G.NewTapeMachine(g, G.TraceExec()) }, true},
	{"lisp", func(g *G.ExprGraph) G.VM { return G.NewLispMachine(g, G.ExecuteFwdOnly()) }, true},
}

// starter leaves for a program.
func seedLeaves(b *gen.Builder, lo, hi int) {
	b.Leaf(b.RandShape(lo, hi)...)
	if b.T.Chance(1, 3) {
		b.MaybeConst(b.RandShape(lo, hi)...)
	}
}

// large makes a program now and then one over long axes, or of many steps.
func large(b *gen.Builder, n int) int {
	switch b.T.Below(60) {
	case 1:
		b.Big, b.MaxElems = true, 100
	case 2:
		n *= b.T.Int(3, 5)
	}
	return n
}

// tryPush attempts to append a step of the spec.
func tryPush(b *gen.Builder, sp gen.Spec, n int) bool {
	for i := 0; i < n; i++ {
		if b.Push(sp.Make(b)) {
			return true
		}
	}
	return false
}

// checkValue compares one node after a run.
func checkValue(t *pbt.T, what string, p *gen.Prog, i int, n *G.Node, scale float64) {
	v := p.Vals[i]
	want := v.Ten
	if err := gen.SameVal(n.Value(), want.Shape, want.Vals(), gen.Tol(p.Dt, scale)); err != nil {
		t.Failf("%s: value of v%d (%s): %v", what, i, name(v), err)
	}
	dt := p.Dt
	if v.Step != nil && v.Step.Bool {
		dt = tensor.Bool
	}
	if err := gen.DtOK(n.Value(), dt); err != nil {
		t.Failf("%s: v%d (%s): %v", what, i, name(v), err)
	}
}

func name(v gen.Val) string {
	if v.Leaf != nil {
		return "leaf"
	}
	return v.Step.Op + v.Step.Args
}

// forward checks that every operation of the group computes its defining
// function: one operation under test, sometimes fed by and feeding another,
// run once or several times with new inputs on one of the machines.
func forward(specs func() []gen.Spec, lo, hi int) pbt.Check { return forwardSized(specs, lo, hi, 36) }

func forwardSized(specs func() []gen.Spec, lo, hi, elems int) pbt.Check {
	return forwardOf(specs(), concat(gen.PointwiseSpecs, gen.ShapeSpecs)(), floatDt, forwardMachines, lo, hi, elems)
}

// whole is forward for element types that are not floats.
func whole(specs func() []gen.Spec, lo, hi int, dts ...tensor.Dtype) pbt.Check {
	dt := func(t *pbt.T) tensor.Dtype { return dts[t.Below(len(dts))] }
	// the dual-value machine is for floats
	return forwardOf(specs(), gen.WholeShapeSpecs(), dt, forwardMachines[:2], lo, hi, 36)
}

func forwardOf(list, aux []gen.Spec, dtype func(t *pbt.T) tensor.Dtype, machines []machine, lo, hi, elems int) pbt.Check {
	return func(t *pbt.T) {
		sp := list[t.Below(len(list))]
		dt := dtype(t)
		b := gen.NewBuilder(t, dt)
		b.MaxElems = elems
		b.Wide = hi == 5
		top := hi
		if t.Chance(1, 12) {
			b.MaxElems, b.Big = 400, true
			if top < 5 && t.Bool() {
				top++
			}
		}
		seedLeaves(b, lo, top)
		if t.Chance(1, 3) {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
		if !tryPush(b, sp, 4) {
			t.Discard("operation not applicable to the drawn operands: " + sp.Name)
		}
		op := b.Last()
		if t.Chance(1, 4) {
			// more of the group over the same operands
			for k := t.Int(1, 3); k > 0; k-- {
				other := list[t.Below(len(list))]
				if t.Bool() {
					other = sp // the same with other parameters
				}
				tryPush(b, other, 2)
			}
			t.Label("several")
		}
		if t.Chance(1, 3) && !b.P.Vals[op].Step.Bool {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
		p := b.P
		m := machines[t.Below(len(machines))]
		t.Logf("%s on %s", p, m.name)
		t.Label("op=%s", sp.Name)
		t.Label("machine=%s dtype=%v dims=%d", m.name, dt, len(p.Vals[op].Ten.Shape))
		if len(p.Vals[op].Ten.D) > 1 {
			t.NonTrivial()
		}
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		vm := m.mk(bt.G)
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("%s: run failed: %v", m.name, err)
		}
		for i, v := range p.Vals {
			if v.Leaf != nil || m.all || bt.Root(i) {
				checkValue(t, m.name, p, i, bt.Nodes[i], b.Scale)
			}
		}
		if s := bt.Nodes[op].Shape(); !ref.EqShape(s, p.Vals[op].Ten.Shape) {
			t.Failf("inferred shape of v%d is %v, the value has shape %v", op, s, p.Vals[op].Ten.Shape)
		}
	}
}

const fwdRule = "A case draws an operation of the group, operands of random shapes (0 to 4 dimensions, sizes 1 to 4, now and then up to five dimensions, long axes and hundreds of elements) with exactly representable values, small, large or using the whole mantissa (a second part draws integers, bytes and booleans where the operation takes them), optionally other operations before and after it and further operations of the group beside it, a float width and a machine; the graph is run and every observable value is compared with a naive row-major evaluation of the definition. Non-trivial: the result has more than one element."

var _ = fmt.Sprint
