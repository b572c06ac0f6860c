package props

import (
	"bytes"
	"fmt"
	"log"

	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// observers draws logging, watching and tracing options.
func observers(t *pbt.T, lisp, bwd bool, nodes []*G.Node) (opts []G.VMOpt, said []string, buf *bytes.Buffer) {
	add := func(what string, o G.VMOpt) {
		opts, said = append(opts, o), append(said, what)
	}
	buf = new(bytes.Buffer)
	if t.Chance(4, 5) {
		add("logger", G.WithLogger(log.New(buf, "", 0)))
	}
	switch t.Below(4) {
	case 0:
		add("watch everything", G.WithWatchlist())
	case 1, 2:
		var list []interface{}
		for k := t.Int(1, 4); k > 0; k-- {
			n := nodes[t.Below(len(nodes))]
			switch kind := t.Below(3); {
			case lisp || kind == 0:
				list = append(list, n)
			case kind == 1:
				list = append(list, t.Below(6))
			default:
				list = append(list, n)
			}
		}
		add(fmt.Sprintf("watch %d", len(list)), G.WithWatchlist(list...))
	}
	if t.Bool() {
		f := []string{"%v", "%3.3f", "%1.1s", "%#v", "%+1.1s"}[t.Below(5)]
		add("format "+f, G.WithValueFmt(f))
	}
	// gradients of powers compute logarithms that may be NaN and are not used
	if !bwd && t.Chance(1, 3) {
		add("NaN", G.WithNaNWatch())
	}
	if !bwd && t.Chance(1, 3) {
		add("Inf", G.WithInfWatch())
	}
	if lisp {
		switch t.Below(4) {
		case 0:
			add("log forward", G.LogFwd())
		case 1:
			add("log backward", G.LogBwd())
		case 2:
			add("log both", G.LogBothDir())
		}
		if !bwd {
			add("forward only", G.ExecuteFwdOnly())
		}
	} else if t.Chance(1, 3) {
		add("trace", G.TraceExec())
	}
	// in any order
	for i := len(opts) - 1; i > 0; i-- {
		j := t.Below(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
		said[i], said[j] = said[j], said[i]
	}
	return
}

// observed runs a program, with gradients or without, on a machine that is
// being watched.
func observed(t *pbt.T) {
	lisp, bwd := t.Bool(), t.Bool()
	b := gen.NewBuilder(t, floatDt(t))
	b.MaxElems = 24
	list := allSpecs()
	if bwd {
		b.Grad = true
		list = diffSpecs()
		if lisp {
			list = lispSpecs()
			b.NoOneElem = true
		}
	}
	seedLeaves(b, 0, 3)
	for k := t.Int(1, 5); k > 0; k-- {
		tryPush(b, list[t.Below(len(list))], 2)
	}
	if b.P.NumSteps() == 0 {
		t.Discard("no operation was applicable")
	}
	p, cost := b.P, -1
	if bwd {
		cost = costOf(b, true)
		p, cost = b.P.Prune(cost)
	}
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	wrt := p.Leaves()
	want := map[int][]float64{}
	scale := b.Scale
	if bwd {
		w, c := p.Gradients(cost, wrt)
		if c.Scale > gen.MaxScale(p.Dt) {
			t.Discard("gradient scale")
		}
		for i, v := range w {
			want[i] = v
		}
		scale = c.Scale
	}
	var ns, gn G.Nodes
	for _, l := range wrt {
		ns = append(ns, bt.Nodes[l])
	}
	gradV := make([]G.Value, len(ns))
	if bwd && lisp {
		for _, n := range bt.G.AllNodes() {
			if n != bt.Nodes[cost] && bt.G.To(n.ID()).Len() == 0 {
				t.Discard("a rewritten operation left an unused node")
			}
		}
	}
	if bwd && !lisp {
		if gn, err = G.Grad(bt.Nodes[cost], ns...); err != nil {
			t.Failf("Grad: %v", err)
		}
		for i := range gn {
			G.Read(gn[i], &gradV[i])
		}
	}
	root := make([]bool, len(p.Vals))
	for i := range p.Vals {
		root[i] = bt.Root(i)
	}
	opts, said, buf := observers(t, lisp, bwd, bt.Nodes)
	var vm G.VM
	if lisp {
		vm = G.NewLispMachine(bt.G, opts...)
	} else {
		vm = G.NewTapeMachine(bt.G, opts...)
	}
	defer vm.Close()
	t.Logf("%s lisp=%v gradients=%v %q", p, lisp, bwd, said)
	t.Label("lisp=%v gradients=%v dtype=%v", lisp, bwd, p.Dt)
	if len(said) > 2 {
		t.NonTrivial()
	}
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run: %v", err)
	}
	t.Label("logged=%v", buf.Len() > 0)
	for i, v := range p.Vals {
		if v.Leaf != nil || root[i] && !(bwd && !lisp) {
			checkValue(t, "watched", p, i, bt.Nodes[i], scale)
		}
	}
	tol := gen.Tol(p.Dt, scale) * 10
	for i, l := range wrt {
		if !bwd {
			break
		}
		if lisp {
			if gradV[i], err = ns[i].Grad(); err != nil {
				t.Failf("Grad() of v%d: %v", l, err)
			}
		}
		if err := gen.SameVal(gradV[i], p.Vals[l].Leaf.Shape, want[l], tol); err != nil {
			t.Failf("gradient with respect to v%d: %v", l, err)
		}
	}
}

// compiledPart compiles a part of a graph as a function of inputs.
func compiledPart(t *pbt.T) {
	b := gen.NewBuilder(t, floatDt(t))
	b.MaxElems = 24
	list := allSpecs()
	seedLeaves(b, 0, 3)
	for k := t.Tail(2, 7, 25); k > 0; k-- {
		tryPush(b, list[t.Below(len(list))], 2)
	}
	p := b.P
	steps := p.Steps()
	if len(steps) == 0 {
		t.Discard("no operation was applicable")
	}
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	var outs []int
	for k := t.Int(1, 3); k > 0; k-- {
		outs = append(outs, steps[t.Below(len(steps))])
	}
	below := map[*G.Node]bool{}
	var down func(n *G.Node)
	down = func(n *G.Node) {
		if !below[n] {
			below[n] = true
			it := bt.G.From(n.ID())
			for it.Next() {
				down(it.Node().(*G.Node))
			}
		}
	}
	var on, in G.Nodes
	for _, o := range outs {
		on = append(on, bt.Nodes[o])
		down(bt.Nodes[o])
	}
	unused := false
	all := t.Chance(3, 4)
	for _, l := range p.Leaves() {
		n := bt.Nodes[l]
		if below[n] && (all || t.Bool()) {
			in = append(in, n)
		}
		if !below[n] && t.Chance(1, 8) {
			in, unused = append(in, n), true
		}
	}
	t.Logf("%s outputs %v of %d inputs, unused inputs %v", p, outs, len(in), unused)
	t.Label("unused=%v whole=%v", unused, len(below) == len(bt.G.AllNodes()))
	prog, locMap, err := G.CompileFunction(bt.G, in, on)
	if unused {
		if err == nil {
			t.Failf("an input that is not used is not refused")
		}
		return
	}
	if err != nil {
		t.Failf("CompileFunction: %v", err)
	}
	if len(below) < len(bt.G.AllNodes()) {
		t.NonTrivial()
	}
	vm := G.NewTapeMachine(bt.G, G.WithPrecompiled(prog, locMap))
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run: %v", err)
	}
	for _, o := range outs {
		users := 0
		it := bt.G.To(bt.Nodes[o].ID())
		for it.Next() {
			if below[it.Node().(*G.Node)] {
				users++
			}
		}
		if users == 0 {
			checkValue(t, "output", p, o, bt.Nodes[o], b.Scale)
		}
	}
	leaf := map[*G.Node]bool{} // some operations give an operand back
	for i, v := range p.Vals {
		leaf[bt.Nodes[i]] = leaf[bt.Nodes[i]] || v.Leaf != nil
		if v.Step != nil && !leaf[bt.Nodes[i]] && !below[bt.Nodes[i]] && bt.Nodes[i].Value() != nil {
			t.Failf("v%d (%s) was computed, but no output needs it", i, name(v))
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P37",
		Rule: "A case is a program of one to five operations, with or without gradients, on a tape or lisp machine with drawn options for logging, watching nodes or registers, formatting, watching for NaN and Inf and tracing, in any order; values and gradients are compared with the reference. Or it is a program a part of which is compiled as a function of some inputs to some outputs, whose values are compared with the reference while nothing else may be computed. Non-trivial: more than two options; a part that is not the whole graph.",
		Parts: []pbt.Part{
			{Name: "observed", Check: observed, Quick: 120000, Thorough: 1500000},
			{Name: "compiled parts", Check: compiledPart, Quick: 160000, Thorough: 1500000},
		}})
}
