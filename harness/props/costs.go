package props

import (
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// severalCosts differentiates several costs of one graph, one after the other.
func severalCosts() pbt.Check {
	list, all := diffSpecs(), allSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		b.MaxElems = 24
		seedLeaves(b, 0, 3)
		var costs []int
		for k := t.Int(2, 3); k > 0; k-- {
			for i := t.Int(1, 3); i > 0; i-- {
				tryPush(b, list[t.Below(len(list))], 2)
			}
			st := b.P.Steps()
			var cand []int
			for _, s := range st {
				if !b.P.Vals[s].Step.Bool && !b.P.Vals[s].Step.Final {
					cand = append(cand, s)
				}
			}
			if len(cand) == 0 {
				t.Discard("no operation was applicable")
			}
			at := cand[len(cand)-1]
			if t.Bool() {
				at = cand[t.Below(len(cand))]
			}
			costs = append(costs, b.Weighted(at))
		}
		// operations that no cost uses, differentiable or not
		b.Grad = false
		side := 0
		for k := t.Int(0, 2); k > 0; k-- {
			if tryPush(b, all[t.Below(len(all))], 1) {
				side++
			}
		}
		p := b.P
		type call struct {
			cost int
			wrt  []int
		}
		var calls []call
		uses := map[int]int{}
		for k := t.Tail(2, 4, 10); k > 0; k-- {
			c := costs[t.Below(len(costs))]
			need := p.Needs(c)
			var leaves, wrt []int
			for _, l := range p.Leaves() {
				if need[l] {
					leaves = append(leaves, l)
					if t.Bool() {
						wrt = append(wrt, l)
					}
				}
			}
			if len(wrt) == 0 {
				wrt = leaves
			}
			if len(wrt) == 0 {
				t.Discard("cost of constants")
			}
			calls = append(calls, call{c, wrt})
			for _, l := range wrt {
				uses[l]++
			}
		}
		t.Logf("%s costs %v calls %v", p, costs, calls)
		again := false
		for _, n := range uses {
			again = again || n > 1
		}
		t.Label("an input again=%v", again)
		t.Label("calls=%d", len(calls))
		t.Label("operations no cost uses=%d", side)
		if again {
			t.NonTrivial()
		}
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		grads := make([]G.Nodes, len(calls))
		vals := make([][]G.Value, len(calls))
		for k, c := range calls {
			var ns G.Nodes
			for _, l := range c.wrt {
				ns = append(ns, bt.Nodes[l])
			}
			if err, _ := pbt.Try(func() (e error) { grads[k], e = G.Grad(bt.Nodes[c.cost], ns...); return }); err != nil {
				t.Failf("Grad of v%d with respect to %v: %v", c.cost, c.wrt, err)
			}
			if len(grads[k]) != len(ns) {
				t.Failf("Grad returned %d nodes for %d inputs", len(grads[k]), len(ns))
			}
		}
		for k := range calls {
			vals[k] = make([]G.Value, len(grads[k]))
			for i, n := range grads[k] {
				G.Read(n, &vals[k][i])
			}
		}
		m := G.NewTapeMachine(bt.G)
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		for k, c := range calls {
			want, ctx := p.Gradients(c.cost, c.wrt)
			if ctx.Scale > gen.MaxScale(p.Dt) {
				t.Discard("gradient scale")
			}
			for i, l := range c.wrt {
				if err := gen.SameVal(vals[k][i], p.Vals[l].Leaf.Shape, want[l], gen.Tol(p.Dt, ctx.Scale)*10); err != nil {
					t.Failf("call %d: gradient of v%d with respect to v%d: %v", k, c.cost, l, err)
				}
			}
		}
	}
}

// secondSpecs lists the operations whose gradients can be differentiated again.
func secondSpecs() []gen.Spec {
	skip := map[string]bool{"ByIndices": true, "Upsample2D": true}
	var out []gen.Spec
	for _, s := range smooth(concat(gen.PointwiseSpecs, gen.BroadcastSpecs, gen.LinalgSpecs, gen.ReductionSpecs, gen.ShapeSpecs)()) {
		if !skip[s.Name] {
			out = append(out, s)
		}
	}
	return out
}

// secondOrder differentiates a weighted sum of a gradient.
func secondOrder() pbt.Check {
	list := secondSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		b.MaxElems = 12
		seedLeaves(b, 0, 2)
		n := t.Int(1, 3)
		p, cost, ok := dagProgram(t, b, list, n, false)
		if !ok {
			t.Discard("no operation was applicable")
		}
		need := p.Needs(cost)
		var wrt []int
		for _, l := range p.Leaves() {
			if need[l] {
				wrt = append(wrt, l)
			}
		}
		if len(wrt) == 0 {
			t.Discard("cost of constants")
		}
		x := wrt[t.Below(len(wrt))]
		var ys []int
		for _, l := range wrt {
			if t.Bool() {
				ys = append(ys, l)
			}
		}
		if len(ys) == 0 {
			ys = []int{x}
		}
		shape := p.Vals[x].Leaf.Shape
		w := make([]float64, len(p.Vals[x].Ten.D))
		for i := range w {
			w[i] = float64(t.Int(1, 8)) / 4
		}
		t.Logf("%s cost v%d, first with respect to v%d, weights %v, then to %v", p, cost, x, w, ys)
		t.Label("steps=%d", p.NumSteps())

		// reference: the directional derivative along w of the gradient
		var scale float64
		want := map[int][]float64{}
		var used []int
		for _, y := range ys {
			zero := true
			want[y] = make([]float64, len(p.Vals[y].Ten.D))
			for k := range want[y] {
				ctx := &ref.Ctx{Margin: gen.Margin(p.Dt)}
				tx := ref.From(shape, p.Vals[x].Leaf.Vals)
				ty := tx
				if x != y {
					ty = ref.From(p.Vals[y].Leaf.Shape, p.Vals[y].Leaf.Vals)
				}
				for i := range w {
					tx.D[i].A = w[i]
				}
				ty.D[k].B = 1
				want[y][k] = p.Eval(ctx, map[int]*ref.Ten{x: tx, y: ty})[cost].D[0].AB
				zero = zero && want[y][k] == 0
				scale = math.Max(scale, ctx.Scale)
			}
			// an input that the gradient does not depend on is refused
			if !zero {
				used = append(used, y)
			}
		}
		ys = used
		if scale > gen.MaxScale(p.Dt) {
			t.Discard("scale")
		}
		if len(ys) == 0 {
			t.Discard("the second derivative vanishes")
		}
		t.NonTrivial()
		for _, s := range p.Steps() {
			t.Label("op=%s", p.Vals[s].Step.Op)
		}
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		grad := func(what string, c *G.Node, wrt ...*G.Node) (gs G.Nodes) {
			if err, _ := pbt.Try(func() (e error) { gs, e = G.Grad(c, wrt...); return }); err != nil {
				t.Failf("%s: %v", what, err)
			}
			if len(gs) != len(wrt) {
				t.Failf("%s returned %d nodes for %d inputs", what, len(gs), len(wrt))
			}
			return gs
		}
		g1 := grad("Grad of the cost", bt.Nodes[cost], bt.Nodes[x])[0]
		var sum *G.Node
		if len(shape) == 0 {
			sum, err = G.HadamardProd(g1, G.NewConstant(gen.Scalar(p.Dt, w[0])))
		} else {
			wn := G.NewTensor(bt.G, p.Dt, len(shape), G.WithShape(shape...), G.WithName("weights"), G.WithValue(gen.Value(p.Dt, shape, w)))
			if sum, err = G.HadamardProd(g1, wn); err == nil {
				sum, err = G.Sum(sum)
			}
		}
		if err != nil {
			t.Failf("the weighted sum of the gradient: %v", err)
		}
		var yn G.Nodes
		for _, y := range ys {
			yn = append(yn, bt.Nodes[y])
		}
		g2 := grad("Grad of the weighted sum of the gradient", sum, yn...)
		vals := make([]G.Value, len(g2))
		for i := range g2 {
			G.Read(g2[i], &vals[i])
		}
		m := G.NewTapeMachine(bt.G)
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		for i, y := range ys {
			if err := gen.SameVal(vals[i], p.Vals[y].Leaf.Shape, want[y], gen.Tol(p.Dt, scale)*10); err != nil {
				t.Failf("with respect to v%d: %v", y, err)
			}
		}
	}
}

// backprop hands a weight for every element of several outputs to
// Backpropagate and asks for the derivative of the weighted sum with respect
// to inputs and intermediate values.
func backprop() pbt.Check {
	list := diffSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.Grad = true
		b.MaxElems = 16
		seedLeaves(b, 0, 3)
		for k := t.Tail(1, 5, 12); k > 0; k-- {
			tryPush(b, list[t.Below(len(list))], 2)
		}
		p := b.P
		var cand []int
		for _, s := range p.Steps() {
			if !p.Vals[s].Step.Bool && !p.Vals[s].Step.Final {
				cand = append(cand, s)
			}
		}
		if len(cand) == 0 {
			t.Discard("no operation was applicable")
		}
		// the outputs, each with weights
		var outs []int
		weight := map[int][]float64{}
		for k := t.Int(1, 3); k > 0; k-- {
			o := cand[t.Below(len(cand))]
			if weight[o] == nil {
				outs = append(outs, o)
				w := make([]float64, len(p.Vals[o].Ten.D))
				for i := range w {
					w[i] = float64(t.Int(-8, 8)) / 4
				}
				weight[o] = w
			}
		}
		// an output can be given more than once; its weights then add up
		parts := map[int]bool{}
		for _, o := range outs {
			parts[o] = t.Chance(1, 6)
		}
		consts := t.Chance(1, 3)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		// equal expressions are one node
		same := map[*G.Node][]int{}
		for i, n := range bt.Nodes {
			same[n] = append(same[n], i)
		}
		for _, o := range outs {
			if len(same[bt.Nodes[o]]) > 1 {
				t.Discard("an output that is also another value")
			}
		}
		// an intermediate value can be asked for when exactly the operations
		// of the program use it, and none was rewritten to do without
		intact := map[int]bool{}
		for k, v := range p.Vals {
			if v.Step == nil {
				continue
			}
			if strings.HasPrefix(v.Step.Op, "Reduce") && len(v.Step.In) > 2 {
				continue // sums and products of some operands may be other values
			}
			ins, met := map[*G.Node]bool{}, map[*G.Node]bool{}
			for _, j := range v.Step.In {
				ins[bt.Nodes[j]] = true
			}
			ok := true
			var down func(n *G.Node)
			down = func(n *G.Node) {
				for it := bt.G.From(n.ID()); it.Next(); {
					c := it.Node().(*G.Node)
					if met[c] {
						continue
					}
					met[c] = true
					if ins[c] {
						continue
					}
					if same[c] != nil {
						ok = false
						return
					}
					down(c)
				}
			}
			down(bt.Nodes[k])
			for n := range ins {
				ok = ok && met[n]
			}
			intact[k] = ok
		}
		open := func(i int) bool {
			n := bt.Nodes[i]
			for k, v := range p.Vals {
				if v.Step == nil || k == i || intact[k] {
					continue
				}
				need := p.Needs(k)
				for _, j := range same[n] {
					if need[j] {
						return false
					}
				}
			}
			users := map[*G.Node]bool{}
			for k, v := range p.Vals {
				if v.Step == nil {
					continue
				}
				for _, j := range v.Step.In {
					if bt.Nodes[j] == n {
						users[bt.Nodes[k]] = true
					}
				}
			}
			it := bt.G.To(n.ID())
			k := 0
			for it.Next() {
				if !users[it.Node().(*G.Node)] {
					return false
				}
				k++
			}
			return k == len(users)
		}
		var can []int
		for i, v := range p.Vals {
			if v.Leaf != nil && v.Leaf.Const || v.Step != nil && (v.Step.Bool || v.Step.Final) || same[bt.Nodes[i]][0] != i {
				continue
			}
			if v.Leaf == nil && !open(i) {
				continue
			}
			can = append(can, i)
		}
		// every value asked for is used by an output, every output uses one
		uses := map[int]map[int]bool{}
		for _, o := range outs {
			need := p.Needs(o)
			for _, i := range can {
				for _, j := range same[bt.Nodes[i]] {
					if need[j] {
						if uses[o] == nil {
							uses[o] = map[int]bool{}
						}
						uses[o][i] = true
					}
				}
			}
			if len(uses[o]) == 0 {
				t.Discard("an output of constants")
			}
		}
		chosen := map[int]bool{}
		var wrt []int
		pick := func(i int) {
			if !chosen[i] {
				chosen[i] = true
				wrt = append(wrt, i)
			}
		}
		for _, o := range outs {
			var us []int
			for _, i := range can {
				if uses[o][i] {
					us = append(us, i)
				}
			}
			pick(us[t.Below(len(us))])
			for _, i := range us {
				if t.Chance(1, 3) {
					pick(i)
				}
			}
		}
		inner := false
		for _, i := range wrt {
			inner = inner || p.Vals[i].Step != nil
		}
		twice := false
		for _, o := range outs {
			twice = twice || parts[o]
		}
		t.Logf("%s outputs %v weights %v (constants %v, in two parts %v) with respect to %v", p, outs, weight, consts, parts, wrt)
		t.Label("outputs=%d intermediate=%v twice=%v", len(outs), inner, twice)
		if len(outs) > 1 || inner {
			t.NonTrivial()
		}
		ctx := &ref.Ctx{Margin: gen.Margin(p.Dt)}
		want := map[int][]float64{}
		for _, i := range wrt {
			want[i] = make([]float64, len(p.Vals[i].Ten.D))
			for k := range want[i] {
				vals := p.EvalWith(ctx, nil, func(j int, x *ref.Ten) {
					if bt.Nodes[j] == bt.Nodes[i] {
						x.D[k].A += 1
						if j != same[bt.Nodes[i]][0] {
							x.D[k].A = 1
						}
					}
				})
				for _, o := range outs {
					for e, w := range weight[o] {
						want[i][k] += w * vals[o].D[e].A
					}
				}
			}
		}
		if ctx.Scale > gen.MaxScale(p.Dt) {
			t.Discard("gradient scale")
		}
		var ons, gos, wns G.Nodes
		give := func(o int, name string, w []float64) {
			s := p.Vals[o].Ten.Shape
			ons = append(ons, bt.Nodes[o])
			v := gen.Value(p.Dt, s, w)
			if consts {
				gos = append(gos, bt.G.AddNode(G.NewConstant(v)))
			} else {
				n := gen.NewInput(bt.G, p.Dt, name, s)
				if err := G.Let(n, v); err != nil {
					t.Failf("Let: %v", err)
				}
				gos = append(gos, n)
			}
		}
		for _, o := range outs {
			w := append([]float64(nil), weight[o]...)
			if parts[o] {
				for i := range w {
					w[i] -= 0.5
				}
			}
			give(o, fmt.Sprintf("weight of v%d", o), w)
		}
		for _, o := range outs {
			if parts[o] {
				w := make([]float64, len(weight[o]))
				for i := range w {
					w[i] = 0.5
				}
				give(o, fmt.Sprintf("rest of the weight of v%d", o), w)
			}
		}
		for _, i := range wrt {
			wns = append(wns, bt.Nodes[i])
		}
		var gs G.Nodes
		if err, _ := pbt.Try(func() (e error) { gs, e = G.Backpropagate(ons, gos, wns); return }); err != nil {
			t.Failf("Backpropagate: %v", err)
		}
		if len(gs) != len(wrt) {
			t.Failf("Backpropagate returned %d nodes for %d values", len(gs), len(wrt))
		}
		vals := make([]G.Value, len(gs))
		for i := range gs {
			G.Read(gs[i], &vals[i])
		}
		m := G.NewTapeMachine(bt.G)
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		for k, i := range wrt {
			if err := gen.SameVal(vals[k], p.Vals[i].Ten.Shape, want[i], gen.Tol(p.Dt, ctx.Scale)*10*3); err != nil {
				t.Failf("with respect to v%d: %v", i, err)
			}
		}
		for _, l := range p.Leaves() {
			if err := gen.SameVal(bt.Nodes[l].Value(), p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals, 0); err != nil {
				t.Failf("input v%d changed: %v", l, err)
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P40",
		Rule: "a case is a random graph with one to three outputs of any shape, a weight for every element of them as inputs or constants, and one or more inputs or intermediate values the outputs depend on; the result of Backpropagate is compared with the derivative of the weighted sum of the outputs; non-trivial with several outputs or an intermediate value",
		Parts: []pbt.Part{
			{Name: "backprop", Check: backprop(), Quick: 240000, Thorough: 1000000},
		}})
	pbt.Register(&pbt.Property{ID: "P38",
		Rule: "a case is a random graph with two or three scalar costs that share inputs and intermediate results, operations that no cost uses, and two to four calls of Grad, each with a cost and a subset of its inputs; non-trivial when an input is asked for in more than one call",
		Parts: []pbt.Part{
			{Name: "costs", Check: severalCosts(), Quick: 80000, Thorough: 1000000},
		}})
	pbt.Register(&pbt.Property{ID: "P39",
		Rule: "a case is a random graph of one to three operations with a scalar cost, an input whose gradient is weighted and summed, and the inputs that sum is differentiated with respect to; non-trivial when the second derivative is not all zero",
		Parts: []pbt.Part{
			{Name: "second", Check: secondOrder(), Quick: 240000, Thorough: 1000000},
		}})
}
