package props

import (
	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// refused calls operations in ways their operands do not allow.
func refused() pbt.Check {
	list := allSpecs()
	ms := gen.Misfits()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 24
		if t.Bool() {
			seedLeaves(b, 0, 3)
			randomProgram(t, b, list, t.Int(1, 4))
		} else {
			b.Leaf(b.RandShape(0, 3)...)
		}
		var bads []*gen.Bad
		for i, n := 0, t.Int(1, 3); i < n; i++ {
			m := ms[t.Below(len(ms))]
			bad := m.Make(b)
			if bad == nil {
				continue
			}
			bads = append(bads, bad)
			t.Label("%s", m.Name)
		}
		if len(bads) == 0 {
			t.Discard("no misfit drawn")
		}
		t.NonTrivial()
		p := b.P
		t.Logf("%s", p)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		late := ""
		for _, bad := range bads {
			t.Logf("%s", bad.What)
			in := make([]*G.Node, len(bad.In))
			for i, k := range bad.In {
				in[i] = bt.Nodes[k]
			}
			err, panicked := pbt.Try(func() error { return bad.Call(in) })
			if panicked {
				t.Failf("%s: %v", bad.What, err)
			}
			if err == nil {
				late = bad.What
			}
		}
		lisp := t.Chance(1, 3)
		var vm G.VM
		if lisp {
			t.Logf("run on the lisp machine")
			vm = G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
		} else {
			t.Logf("run on the tape machine")
			vm = G.NewTapeMachine(bt.G)
		}
		defer vm.Close()
		err = gen.RunVM(vm)
		if late != "" {
			t.Label("refused when run")
			if err == nil {
				t.Failf("%s was accepted and run", late)
			}
			return
		}
		t.Label("refused when built")
		if err != nil {
			t.Failf("the rest of the graph does not run after the refusal: %v", err)
		}
		for i, v := range p.Vals {
			if lisp || v.Leaf != nil || bt.Root(i) {
				if err := gen.SameVal(bt.Nodes[i].Value(), v.Ten.Shape, v.Ten.Vals(), gen.Tol(p.Dt, b.Scale)); err != nil {
					t.Failf("after the refusal, v%d (%s): %v", i, name(v), err)
				}
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P19",
		Rule: "A case draws a program and one to three calls of operations that its operands do not allow (sizes, ranks, element types, axes, indices, geometry, graphs that do not fit), makes the calls, and runs the graph. Each call must return an error or else the run must; after calls that returned errors the rest of the graph must run and give the reference values. Non-trivial: every case.",
		Parts: []pbt.Part{
			{Name: "refused", Check: refused(), Quick: 400000, Thorough: 3000000},
		}})
}
