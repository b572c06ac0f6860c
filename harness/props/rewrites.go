package props

import (
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// rewritten builds programs out of the operations whose combinations are
// rewritten, with parts used more than once.
func rewritten() pbt.Check {
	list, near := gen.RewriteSpecs(), gen.NearRewriteSpecs()
	return func(t *pbt.T) {
		mode := t.Below(4)
		names := []string{"tape+trace", "lisp forwards", "tape+read", "gradient"}
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 12
		b.Grad = mode == 3
		// the library's own constants are then in the graph already
		warm := t.Bool()
		if warm && !b.Push(gen.BinaryXent.Make(b)) {
			t.Discard("no loss")
		}
		seedLeaves(b, 1, 2)
		n := t.Tail(2, 8, 25)
		for i := 0; i < n; i++ {
			if t.Chance(1, 5) {
				tryPush(b, near[t.Below(len(near))], 2)
			} else {
				tryPush(b, list[t.Below(len(list))], 2)
			}
		}
		if b.P.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		p := b.P
		t.Label("%s dtype=%v loss first=%v", names[mode], p.Dt, warm)
		if pairs(p) > 0 {
			t.NonTrivial()
			t.Label("pair that may be rewritten")
		}
		if mode == 3 {
			cost := costOf(b, true)
			p, cost = b.P.Prune(cost)
			t.Logf("%s gradient of v%d", p, cost)
			tapeGrads(t, p, cost, tapeGradModes[t.Below(len(tapeGradModes))])
			return
		}
		t.Logf("%s on %s", p, names[mode])
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		var vm G.VM
		var rd *reads
		switch mode {
		case 0:
			vm = G.NewTapeMachine(bt.G, G.TraceExec())
		case 1:
			vm = G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
		default:
			rd = requestReads(t, bt, p.Steps())
			vm = G.NewTapeMachine(bt.G)
		}
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run failed: %v", err)
		}
		if rd != nil {
			for k, i := range rd.at {
				want := p.Vals[i].Ten
				if err := gen.SameVal(rd.vals[k], want.Shape, want.Vals(), gen.Tol(p.Dt, b.Scale)); err != nil {
					t.Failf("value read from v%d (%s): %v", i, name(p.Vals[i]), err)
				}
			}
			return
		}
		for i := range p.Vals {
			checkValue(t, names[mode], p, i, bt.Nodes[i], b.Scale)
		}
	}
}

// pairs counts operations that are applied to an operation they may be merged
// with.
func pairs(p *gen.Prog) (k int) {
	merge := map[string]map[string]bool{
		"Log":      {"Sigmoid": true, "Add(1,x)": true, "Add(x,1)": true, "Sub(1,x)": true, "HadamardProd": true},
		"Log1p":    {"Exp": true, "Neg": true},
		"Neg":      {"Neg": true},
		"Sub(x,1)": {"Exp": true},
		"Sub(1,x)": {"Sigmoid": true},
	}
	for _, v := range p.Vals {
		if v.Step == nil {
			continue
		}
		for _, j := range v.Step.In {
			if w := p.Vals[j].Step; w != nil && merge[v.Step.Op][w.Op] {
				k++
			}
		}
	}
	return k
}

type form struct {
	name  string
	build func(x *G.Node) (*G.Node, error)
	f     func(x float64) float64
	// largest magnitude of the argument, and whether every result that is a
	// normal number is accurate in relation to itself
	lim float64
}

func softplus(x float64) float64 {
	return math.Max(x, 0) + math.Log1p(math.Exp(-math.Abs(x)))
}

func then(fs ...func(x *G.Node) (*G.Node, error)) func(x *G.Node) (*G.Node, error) {
	return func(x *G.Node) (r *G.Node, err error) {
		r = x
		for _, f := range fs {
			if r, err = f(r); err != nil {
				return
			}
		}
		return
	}
}

var stableForms = []form{
	{"log(sigmoid(x))", then(G.Sigmoid, G.Log), func(x float64) float64 { return -softplus(-x) }, 5000},
	{"log1p(exp(x))", then(G.Exp, G.Log1p), softplus, 5000},
	{"log1p(-sigmoid(x))", then(G.Sigmoid, G.Neg, G.Log1p), func(x float64) float64 { return -softplus(x) }, 5000},
	{"softplus(x)", G.Softplus, softplus, 5000},
	{"-(-x)", then(G.Neg, G.Neg), func(x float64) float64 { return x }, 1e30},
	{"-(-log(sigmoid(x)))", then(G.Sigmoid, G.Log, G.Neg, G.Neg), func(x float64) float64 { return -softplus(-x) }, 5000},
	{"-(-log1p(exp(x)))", then(G.Exp, G.Log1p, G.Neg, G.Neg), softplus, 5000},
}

// ranges applies the rewritten forms to arguments of every size.
func ranges(t *pbt.T) {
	dt := floatDt(t)
	f := stableForms[t.Below(len(stableForms))]
	var shape []int
	switch t.Below(3) {
	case 1:
		shape = []int{t.Int(1, 6)}
	case 2:
		shape = []int{t.Int(1, 3), t.Int(1, 3)}
	}
	n := 1
	for _, d := range shape {
		n *= d
	}
	x := make([]float64, n)
	extreme := false
	for i := range x {
		m := math.Ldexp(float64(t.Int(1, 15))/8, t.Int(-30, 12))
		if m > f.lim {
			m = f.lim
		}
		if m > 100 {
			extreme = true
		}
		if t.Bool() {
			m = -m
		}
		x[i] = m
	}
	mode := t.Below(3)
	t.Logf("%v %s %v %v mode %d", dt, f.name, shape, x, mode)
	t.Label("%s extreme=%v dtype=%v", f.name, extreme, dt)
	if extreme {
		t.NonTrivial()
	}
	g := G.NewGraph()
	in := gen.NewLeaf(g, dt, "x", shape, x)
	r, err := f.build(in)
	if err != nil {
		t.Failf("%v", err)
	}
	var v G.Value
	var vm G.VM
	switch mode {
	case 0:
		G.Read(r, &v)
		vm = G.NewTapeMachine(g)
	case 1:
		G.Read(r, &v)
		vm = G.NewLispMachine(g, G.ExecuteFwdOnly())
	default:
		vm = G.NewTapeMachine(g, G.TraceExec())
	}
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run: %v", err)
	}
	if mode == 2 {
		v = r.Value()
	}
	got, s, _, err := gen.Floats(v)
	if err != nil || len(got) != n || len(s) != len(shape) {
		t.Failf("value %v: %v", v, err)
	}
	tiny, eps := 1e-300, 1e-8 // softplus(x) is taken to be x from 16 on
	if dt == tensor.Float32 {
		tiny, eps = 1e-36, 1e-5
	}
	for i := range x {
		want := f.f(x[i])
		if !(math.Abs(got[i]-want) <= eps*math.Abs(want)+tiny) {
			t.Failf("%s at %v is %v, want %v", f.name, x[i], got[i], want)
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P27",
		Rule: "Programs out of the operations whose combinations are rewritten (logs of sums with one, sigmoids and softmax products, log1p of exponentials and negated sigmoids, exponentials less one, one less sigmoids, double negation), where parts are used again and the library's own constants may be there already: all values, or all gradients, are compared with the reference. A second part applies the forms to arguments of every magnitude and wants results accurate relative to themselves. Non-trivial: a pair of operations that may be merged, or an argument beyond 100.",
		Parts: []pbt.Part{
			{Name: "programs", Check: rewritten(), Quick: 240000, Thorough: 2000000},
			{Name: "ranges", Check: ranges, Quick: 120000, Thorough: 500000},
		}})
}
