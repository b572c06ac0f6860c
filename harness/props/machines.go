package props

import (
	"fmt"
	"strings"

	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// allSpecs is every deterministic operation with a reference definition.
func allSpecs() []gen.Spec {
	return concat(gen.PointwiseSpecs, both(gen.CompareSpecs), gen.BroadcastSpecs, both(gen.BroadcastCmpSpecs), gen.LinalgSpecs,
		gen.ReductionSpecs, gen.SoftmaxSpecs, gen.ShapeSpecs, gen.ConvSpecs)()
}

// randomProgram draws a program of up to n steps; some steps repeat an earlier
// one exactly, so that equal expressions meet.
func randomProgram(t *pbt.T, b *gen.Builder, list []gen.Spec, n int) {
	for i := 0; i < n; i++ {
		if st := b.P.Steps(); len(st) > 0 && t.Chance(1, 12) {
			s := *b.P.Vals[st[t.Below(len(st))]].Step
			b.Push(&s)
			continue
		}
		tryPush(b, list[t.Below(len(list))], 2)
	}
}

// reads requests the values of some steps with Read nodes.
type reads struct {
	at   []int
	vals []G.Value
}

func requestReads(t *pbt.T, bt *gen.Built, idx []int) *reads {
	r := &reads{}
	for _, i := range idx {
		if t.Chance(1, 2) {
			r.at = append(r.at, i)
		}
	}
	r.vals = make([]G.Value, len(r.at))
	for k, i := range r.at {
		G.Read(bt.Nodes[i], &r.vals[k])
	}
	return r
}

func composed() pbt.Check {
	list := allSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 30
		n := t.Int(2, 9)
		if t.Chance(1, 4) {
			n = t.Int(10, 24)
		}
		n = large(b, n)
		seedLeaves(b, 0, 4)
		randomProgram(t, b, list, n)
		p := b.P
		if p.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		mode := t.Below(6)
		names := []string{"tape", "tape+trace", "lisp", "tape+read", "tape precompiled", "lisp+read"}
		t.Logf("%s on %s", p, names[mode])
		t.Label("machine=%s dtype=%v", names[mode], p.Dt)
		t.Label("steps>=8=%v", p.NumSteps() >= 8)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		if p.NumSteps() >= 4 {
			t.NonTrivial()
		}
		var vm G.VM
		var rd *reads
		all := false
		root := make([]bool, len(p.Vals))
		for i := range p.Vals {
			root[i] = bt.Root(i)
		}
		if mode == 3 || mode == 5 {
			rd = requestReads(t, bt, p.Steps())
		}
		switch mode {
		case 1:
			vm, all = G.NewTapeMachine(bt.G, G.TraceExec()), true
		case 2, 5:
			vm, all = G.NewLispMachine(bt.G, G.ExecuteFwdOnly()), true
		case 4:
			prog, locMap, err := G.Compile(bt.G)
			if err != nil {
				t.Failf("Compile: %v", err)
			}
			vm = G.NewTapeMachine(bt.G, G.WithPrecompiled(prog, locMap))
		default:
			vm = G.NewTapeMachine(bt.G)
		}
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run failed: %v", err)
		}
		for i, v := range p.Vals {
			if s := bt.Nodes[i].Shape(); !ref.EqShape(s, v.Ten.Shape) {
				t.Failf("inferred shape of v%d (%s) is %v, want %v", i, name(v), s, v.Ten.Shape)
			}
			if v.Leaf != nil || all || root[i] {
				checkValue(t, names[mode], p, i, bt.Nodes[i], b.Scale)
			}
		}
		if rd != nil {
			for k, i := range rd.at {
				want := p.Vals[i].Ten
				if err := gen.SameVal(rd.vals[k], want.Shape, want.Vals(), gen.Tol(p.Dt, b.Scale)); err != nil {
					t.Failf("value read from v%d (%s): %v", i, name(p.Vals[i]), err)
				}
			}
		}
	}
}

// redraw gives the variables of the program new values for which the reference
// is still sure; it reports the values of all nodes and the scale.
func redraw(t *pbt.T, b *gen.Builder, p *gen.Prog, cur map[int][]float64, which func(i int) bool, grad bool) (map[int][]float64, []*ref.Ten, float64, bool) {
	for try := 0; try < 4; try++ {
		next := map[int][]float64{}
		ts := map[int]*ref.Ten{}
		for _, i := range p.Leaves() {
			v := cur[i]
			if which(i) {
				v = b.Values(len(v))
			}
			next[i] = v
			ts[i] = ref.From(p.Vals[i].Leaf.Shape, v)
		}
		c := &ref.Ctx{Margin: gen.Margin(p.Dt)}
		out := p.Eval(c, ts)
		if c.Bad() == "" && c.Scale <= gen.MaxScale(p.Dt) && !(grad && c.Tie != "") {
			return next, out, c.Scale, true
		}
	}
	return nil, nil, 0, false
}

// gradsAt is the reference gradient of the cost at given leaf values.
func gradsAt(p *gen.Prog, cost int, wrt []int, at map[int][]float64) (map[int][]float64, *ref.Ctx) {
	q := *p
	q.Vals = append([]gen.Val(nil), p.Vals...)
	for i, v := range at {
		l := *q.Vals[i].Leaf
		l.Vals = v
		q.Vals[i].Leaf = &l
	}
	return q.Gradients(cost, wrt)
}

// histories drives machines through sequences of rebinding, resetting and
// running, comparing with the reference after every run.
func histories() pbt.Check {
	list := allSpecs()
	glist := diffSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 24
		large(b, 1)
		withGrad := t.Chance(1, 2)
		b.Grad = withGrad
		seedLeaves(b, 0, 3)
		var p *gen.Prog
		cost := -1
		if withGrad {
			var ok bool
			if p, cost, ok = dagProgram(t, b, glist, t.Int(1, 5), true); !ok {
				t.Discard("no operation was applicable")
			}
		} else {
			randomProgram(t, b, list, t.Int(1, 8))
			if p = b.P; p.NumSteps() == 0 {
				t.Discard("no operation was applicable")
			}
		}
		t.Logf("%s", p)
		missing := -1 // an input that is only bound after a first, failing run
		if ls := p.Leaves(); len(ls) > 0 && t.Chance(1, 5) {
			missing = ls[t.Below(len(ls))]
			t.Logf("v%d unbound at first", missing)
			t.Label("first run fails")
		}
		bt, err := p.BuildOn(G.NewGraph(), missing < 0)
		if err != nil {
			t.Failf("%v", err)
		}
		if missing >= 0 {
			for _, l := range p.Leaves() {
				if l == missing {
					continue
				}
				if err := gen.LetVals(bt.Nodes[l], p.Dt, p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals); err != nil {
					t.Failf("Let: %v", err)
				}
			}
		}
		wrt := p.Leaves()
		var ns, gn G.Nodes
		if withGrad {
			for _, l := range wrt {
				ns = append(ns, bt.Nodes[l])
			}
			if err, _ := pbt.Try(func() (e error) { gn, e = G.Grad(bt.Nodes[cost], ns...); return }); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
		root := make([]bool, len(p.Vals))
		for i := range p.Vals {
			root[i] = bt.Root(i)
		}
		var rd *reads
		var gv []G.Value
		if t.Chance(1, 2) || withGrad {
			rd = requestReads(t, bt, p.Steps())
			gv = make([]G.Value, len(gn))
			for i := range gn {
				G.Read(gn[i], &gv[i])
			}
		}
		lisp := t.Chance(1, 3)
		mk := func() (G.VM, bool, string) {
			if lisp {
				return G.NewLispMachine(bt.G, G.ExecuteFwdOnly()), true, "lisp"
			}
			if t.Bool() {
				return G.NewTapeMachine(bt.G), false, "tape"
			}
			return G.NewTapeMachine(bt.G, G.TraceExec()), true, "trace"
		}
		cur := map[int][]float64{}
		for _, i := range p.Leaves() {
			cur[i] = p.Vals[i].Leaf.Vals
		}
		out := make([]*ref.Ten, len(p.Vals))
		for i, v := range p.Vals {
			out[i] = v.Ten
		}
		scale := b.Scale
		vm, all, nm := mk()
		t.Logf("on %s", nm)
		t.Label("grad=%v", withGrad)
		runs, rebinds := 0, 0
		if missing >= 0 {
			if bt.G.To(bt.Nodes[missing].ID()).Len() == 0 {
				t.Discard("the unbound input is not used")
			}
			if err := gen.RunVM(vm); err == nil {
				t.Failf("a run with v%d unbound reported success", missing)
			} else if strings.Contains(err.Error(), "panic") {
				t.Failf("a run with v%d unbound: %v", missing, err)
			}
			if err := gen.LetVals(bt.Nodes[missing], p.Dt, p.Vals[missing].Leaf.Shape, p.Vals[missing].Leaf.Vals); err != nil {
				t.Failf("Let: %v", err)
			}
			vm.Reset()
		}
		steps := t.Tail(2, 6, 25)
		for k := 0; k < steps; k++ {
			if k > 0 {
				switch t.Below(4) {
				case 0: // another machine over the same graph
					vm.Close()
					vm, all, nm = mk()
					t.Logf("new %s", nm)
				default:
					vm.Reset()
					t.Logf("reset")
				}
				if t.Chance(1, 6) {
					t.Logf("unbind all but inputs")
					bt.G.UnbindAllNonInputs()
				}
				if t.Chance(3, 4) {
					mask := map[int]bool{}
					for _, i := range p.Leaves() {
						mask[i] = t.Chance(2, 3)
					}
					next, o, sc, ok := redraw(t, b, p, cur, func(i int) bool { return mask[i] }, withGrad)
					if ok {
						for _, i := range p.Leaves() {
							if !mask[i] {
								continue
							}
							l := p.Vals[i].Leaf
							how := "let"
							if len(l.Shape) > 0 && t.Chance(1, 4) {
								how = "write into"
								if err := G.Let(bt.Nodes[i], gen.Value(p.Dt, l.Shape, next[i])); err != nil {
									t.Failf("Let: %v", err)
								}
							} else if err := gen.LetVals(bt.Nodes[i], p.Dt, l.Shape, next[i]); err != nil {
								t.Failf("Let: %v", err)
							}
							t.Logf("%s v%d=%v", how, i, next[i])
						}
						cur, out, scale = next, o, sc
						rebinds++
					}
				}
			}
			t.Logf("run")
			if err := gen.RunVM(vm); err != nil {
				t.Failf("run %d failed: %v", k, err)
			}
			runs++
			for i, v := range p.Vals {
				if v.Leaf != nil || all || root[i] {
					if err := gen.SameVal(bt.Nodes[i].Value(), out[i].Shape, out[i].Vals(), gen.Tol(p.Dt, scale)); err != nil {
						t.Failf("run %d on %s: value of v%d (%s): %v", k, nm, i, name(v), err)
					}
				}
			}
			if rd != nil {
				for j, i := range rd.at {
					if err := gen.SameVal(rd.vals[j], out[i].Shape, out[i].Vals(), gen.Tol(p.Dt, scale)); err != nil {
						t.Failf("run %d on %s: value read from v%d (%s): %v", k, nm, i, name(p.Vals[i]), err)
					}
				}
			}
			if withGrad {
				want, c := gradsAt(p, cost, wrt, cur)
				if c.Bad() != "" || c.Scale > gen.MaxScale(p.Dt) {
					t.Discard("gradient scale")
				}
				for j, l := range wrt {
					if err := gen.SameVal(gv[j], p.Vals[l].Leaf.Shape, want[l], 10*gen.Tol(p.Dt, c.Scale)); err != nil {
						t.Failf("run %d on %s: gradient with respect to v%d: %v", k, nm, l, err)
					}
				}
			}
		}
		vm.Close()
		t.Label("runs=%d", runs)
		if rebinds > 0 {
			t.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P14",
		Rule: "A case draws a program of 2 to 24 operations from every operation with a definition, with shared and repeated subexpressions, and one of six ways of running it (tape, tape keeping all values, tape with a precompiled program, tape or traversal machine with values read out of random nodes, traversal machine); every observable value, including ones read from nodes whose memory is reused, and every inferred shape is compared with the naive evaluation. Non-trivial: at least four operations.",
		Parts: []pbt.Part{
			{Name: "programs", Check: composed(), Quick: 240000, Thorough: 3000000},
		}})
	pbt.Register(&pbt.Property{ID: "P15",
		Rule: "A case draws a program (half of them with a symbolic gradient) and a history of two to six runs on tape and traversal machines over one graph, with resets, new machines and rebinding of random subsets of the inputs between runs; after every run the results, the values read out and the gradients are compared with the reference at the inputs then bound. Growing: a program is run, its graph is extended with further steps that use its results, and the extended graph is run, forwards or with gradients. Non-trivial: inputs were rebound at least once, or the graph grew.",
		Parts: []pbt.Part{
			{Name: "histories", Check: histories(), Quick: 60000, Thorough: 1500000},
			{Name: "growing", Check: growing(), Quick: 40000, Thorough: 1000000},
		}})
}

var _ = fmt.Sprint
