package props

import (
	"fmt"
	"sync"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// runAndCheck builds the program, runs it on one of the machines and compares
// every observable value.
func runAndCheck(t *pbt.T, p *gen.Prog, scale float64) {
	m := forwardMachines[t.Below(len(forwardMachines))]
	t.Logf("on %s", m.name)
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	vm := m.mk(bt.G)
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("%s: run failed: %v", m.name, err)
	}
	for i, v := range p.Vals {
		if v.Leaf != nil || m.all || bt.Root(i) {
			checkValue(t, m.name, p, i, bt.Nodes[i], scale)
		}
	}
}

// variants applies one or two operations many times, with different
// parameters, to the same operands.
func variants() pbt.Check {
	list := concat(allSpecs, gen.NormSpecs)()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.NoConst = true
		b.Leaf(b.RandShape(0, 4)...)
		if t.Bool() {
			s := append([]int(nil), b.Shape(0)...)
			b.Leaf(s...)
		}
		sp := []gen.Spec{list[t.Below(len(list))]}
		if t.Bool() {
			sp = append(sp, list[t.Below(len(list))])
		}
		for k := t.Tail(2, 8, 30); k > 0; k-- {
			if tryPush(b, sp[t.Below(len(sp))], 3) {
				b.P.Vals[b.Last()].Step.Final = true // apply the next one to the same operands
			}
		}
		p := b.P
		if p.NumSteps() < 2 {
			t.Discard("the operation was not applicable twice: " + sp[0].Name)
		}
		t.Logf("%s", p)
		t.Label("op=%s", sp[0].Name)
		seen := map[string]bool{}
		for _, i := range p.Steps() {
			s := p.Vals[i].Step
			seen[fmt.Sprint(s.Op, s.Args, s.In)] = true
		}
		t.Label("different=%d", len(seen))
		if len(seen) > 1 {
			t.NonTrivial()
		}
		runAndCheck(t, p, b.Scale)
	}
}

// variantGrads adds up the sums of the results of one operation applied many
// times, with different parameters, to the same operands, so that results of
// the same shape have the same output gradient.
func variantGrads() pbt.Check {
	all, plain := diffSpecs(), lispSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.NoConst, b.Grad = true, true
		lisp := t.Chance(1, 3)
		list := all
		if lisp {
			list, b.NoOneElem = plain, true
		}
		s := b.RandShape(1, 4)
		if t.Bool() {
			// axes of one length
			for i := range s {
				s[i] = s[0]
			}
			if ref.Prod(s) > 81 {
				s = s[:2]
			}
		}
		b.Leaf(s...)
		if t.Bool() {
			b.Leaf(append([]int(nil), s...)...)
		}
		sp := []gen.Spec{list[t.Below(len(list))]}
		if t.Chance(1, 3) {
			sp = append(sp, list[t.Below(len(list))])
		}
		cost := -1
		add := func(i int) {
			if len(b.Shape(i)) > 0 {
				if !b.Push(gen.SumStep(i)) {
					return
				}
				i = b.Last()
				b.P.Vals[i].Step.Final = true
			}
			if cost >= 0 {
				if !b.Push(gen.AddStep(cost, i)) {
					return
				}
				i = b.Last()
				b.P.Vals[i].Step.Final = true
			}
			cost = i
		}
		var accs []int
		for k := t.Tail(2, 6, 16); k > 0; k-- {
			if !tryPush(b, sp[t.Below(len(sp))], 3) {
				continue
			}
			i := b.Last()
			b.P.Vals[i].Step.Final = true
			done := false
			for j, a := range accs {
				// results of one shape, added up, get the same gradient
				if ref.EqShape(b.Shape(a), b.Shape(i)) && t.Chance(2, 3) {
					if b.Push(gen.AddStep(a, i)) {
						accs[j] = b.Last()
						b.P.Vals[accs[j]].Step.Final = true
						done = true
					}
					break
				}
			}
			if !done {
				accs = append(accs, i)
			}
		}
		for _, a := range accs {
			add(a)
		}
		if cost < 0 {
			t.Discard("the operation was not applicable: " + sp[0].Name)
		}
		p, cost := b.P.Prune(b.Weighted(cost))
		t.Logf("%s lisp=%v", p, lisp)
		t.Label("op=%s", sp[0].Name)
		seen := map[string]bool{}
		for _, i := range p.Steps() {
			s := p.Vals[i].Step
			if s.Op != "Sum" && s.Op != "Add" {
				seen[fmt.Sprint(s.Op, s.Args, s.In)] = true
			}
		}
		if len(seen) > 1 {
			t.NonTrivial()
		}
		if lisp {
			lispGrads(t, p, cost)
			return
		}
		tapeGrads(t, p, cost, tapeGradModes[t.Below(len(tapeGradModes))])
	}
}

// slices takes many slices out of a long tensor.
func longSlices() pbt.Check {
	return func(t *pbt.T) {
		dt := floatDt(t)
		b := gen.NewBuilder(t, dt)
		b.MaxElems = 4096
		n := t.Int(260, 1200)
		shape := []int{n}
		axis := 0
		switch t.Below(3) {
		case 1:
			shape = []int{n, 2}
		case 2:
			shape, axis = []int{2, n}, 1
		}
		vals := make([]float64, ref.Prod(shape))
		for i := range vals {
			vals[i] = float64(i%2039) / 4
		}
		b.LeafVals(shape, vals, false)
		type cut struct{ lo, hi int }
		lo := t.Below(n)
		cuts := []cut{{lo, t.Int(lo+1, n)}}
		for k := t.Int(1, 4); k > 0; k-- {
			c := cuts[t.Below(len(cuts))]
			switch t.Below(4) { // the next slice is often at a round distance from an earlier one
			case 0:
				d := 1 << t.Int(4, 9)
				if c.hi+d <= n {
					c.lo, c.hi = c.lo+d, c.hi+d
				}
			case 1:
				if d := 1 << t.Int(4, 9); c.hi+d <= n {
					c.hi += d
				}
			case 2:
				if d := 1 << t.Int(4, 9); c.lo-d >= 0 {
					c.lo -= d
				}
			default:
				c.lo = t.Below(n)
				c.hi = t.Int(c.lo+1, n)
			}
			cuts = append(cuts, c)
		}
		for _, c := range cuts {
			c := c
			sl := make([]tensor.Slice, len(shape))
			sl[axis] = G.S(c.lo, c.hi)
			b.Push(&gen.Step{Op: "Slice", Args: fmt.Sprintf("[%d:%d]", c.lo, c.hi), In: []int{0},
				Build: func(in []*G.Node) (*G.Node, error) { return G.Slice(in[0], sl...) },
				Ref: func(_ *ref.Ctx, in []*ref.Ten) *ref.Ten {
					os := append([]int(nil), shape...)
					os[axis] = c.hi - c.lo
					if c.hi-c.lo == 1 { // one-wide slices lose the axis
						os = append(append([]int(nil), os[:axis]...), os[axis+1:]...)
					}
					o := &ref.Ten{Shape: os}
					st := 1
					for _, d := range shape[axis+1:] {
						st *= d
					}
					for i, e := range in[0].D {
						if x := i / st % shape[axis]; x >= c.lo && x < c.hi {
							o.D = append(o.D, e)
						}
					}
					return o
				}})
		}
		p := b.P
		t.Logf("%v tensor of shape %v, slices %v along %d", dt, shape, cuts, axis)
		t.NonTrivial()
		runAndCheck(t, p, b.Scale)
	}
}

// again builds the same program twice on one graph: equal expressions share
// their nodes.
func again() pbt.Check {
	list := allSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 30
		seedLeaves(b, 0, 4)
		randomProgram(t, b, list, t.Int(1, 8))
		p := b.P
		if p.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		t.Logf("%s", p)
		t.NonTrivial()
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		n := len(bt.G.AllNodes())
		bt2, err := p.BuildOn(bt.G, true)
		if err != nil {
			t.Failf("second time: %v", err)
		}
		for i := range p.Vals {
			if bt.Nodes[i] != bt2.Nodes[i] {
				t.Failf("v%d (%s) is another node when built a second time from the same operands", i, name(p.Vals[i]))
			}
		}
		if k := len(bt.G.AllNodes()); k != n {
			t.Failf("the graph has %d nodes, and %d after building the same expressions again", n, k)
		}
		vm := G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run failed: %v", err)
		}
		for i := range p.Vals {
			checkValue(t, "lisp", p, i, bt.Nodes[i], b.Scale)
		}
	}
}

var twinShapes = [][]int{{}, {3}, {2, 3}}

type twinKey struct {
	dt tensor.Dtype
	k  int
}

var (
	twinMu   sync.Mutex
	twinMemo = map[twinKey][][2]string{}
)

// twinNames finds pairs of names for inputs of the shape whose nodes have the
// same hash code.
func twinNames(dt tensor.Dtype, k int) [][2]string {
	twinMu.Lock()
	defer twinMu.Unlock()
	key := twinKey{dt, k}
	if v, ok := twinMemo[key]; ok {
		return v
	}
	shape := twinShapes[k]
	seen := map[uint32]string{}
	var out [][2]string
	x := uint64(k + 1)
	var g *G.ExprGraph
	for i := 0; i < 400000 && len(out) < 2; i++ {
		if i%1000 == 0 {
			g = G.NewGraph()
		}
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		nm := fmt.Sprintf("%x", z^z>>31)
		h := gen.NewInput(g, dt, nm, shape).Hashcode()
		if o, ok := seen[h]; ok {
			out = append(out, [2]string{o, nm})
		}
		seen[h] = nm
	}
	twinMemo[key] = out
	return out
}

// twins builds one program twice over two inputs whose hash codes are equal,
// so that every expression over the one has the hash code of the same
// expression over the other.
func twins(grad bool) pbt.Check {
	list := allSpecs()
	if grad {
		list = lispSpecs()
	}
	return func(t *pbt.T) {
		dt := floatDt(t)
		k := t.Below(len(twinShapes))
		pairs := twinNames(dt, k)
		b := gen.NewBuilder(t, dt)
		b.MaxElems = 24
		b.Grad, b.NoOneElem = grad, grad
		b.Leaf(twinShapes[k]...)
		n := t.Int(1, 5)
		for i := 0; i < n; i++ {
			tryPush(b, list[t.Below(len(list))], 2)
		}
		if b.P.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		cost := -1
		if grad {
			cost = costOf(b, true)
			b.P, cost = b.P.Prune(cost)
			if l := b.P.Vals[0].Leaf; l == nil || !ref.EqShape(l.Shape, twinShapes[k]) {
				t.Discard("the input is not used")
			}
		}
		// the twin
		p := b.P
		m := len(p.Vals)
		at := make([]int, m)
		dep := make([]bool, m)
		vals := b.Values(len(p.Vals[0].Leaf.Vals))
		at[0] = b.LeafVals(p.Vals[0].Leaf.Shape, vals, false)
		dep[0] = true
		names := [2]string{"v0", fmt.Sprintf("v%d", at[0])}
		if len(pairs) > 0 {
			names = pairs[t.Below(len(pairs))]
			t.NonTrivial()
		}
		t.Label("colliding names known=%v", len(pairs) > 0)
		p.Vals[0].Leaf.Name, p.Vals[at[0]].Leaf.Name = names[0], names[1]
		for i := 1; i < m; i++ {
			at[i] = i
			v := p.Vals[i]
			if v.Step == nil {
				continue
			}
			s := *v.Step
			s.In = append([]int(nil), s.In...)
			for j, x := range s.In {
				s.In[j] = at[x]
				dep[i] = dep[i] || dep[x]
			}
			if !dep[i] {
				continue
			}
			if !b.Push(&s) {
				t.Discard("twin out of domain")
			}
			at[i] = b.Last()
		}
		if grad {
			if !b.Push(gen.AddStep(cost, at[cost])) {
				t.Discard("no cost")
			}
			cost = b.Last()
		} else if v := p.Vals[m-1]; t.Bool() && dep[m-1] && !v.Step.Bool && !v.Step.Final {
			b.Push(gen.AddStep(m-1, at[m-1]))
		}
		steps := 0
		for i := range dep {
			if dep[i] && p.Vals[i].Step != nil {
				steps++
			}
		}
		if steps == 0 {
			t.Discard("the input is not used")
		}
		t.Label("twin steps=%d", steps)
		t.Logf("names %q %q: %s", names[0], names[1], p)
		if !grad {
			runAndCheck(t, p, b.Scale)
			return
		}
		lisp := t.Chance(1, 2)
		t.Label("lisp=%v", lisp)
		if lisp {
			lispGrads(t, p, cost)
			return
		}
		tapeGrads(t, p, cost, tapeGradModes[t.Below(len(tapeGradModes))])
	}
}

// constants of various types, shapes, values and names on one graph.
func constants() pbt.Check {
	return func(t *pbt.T) {
		g := G.NewGraph()
		type con struct {
			n     *G.Node
			use   *G.Node
			dt    tensor.Dtype
			shape []int
			vals  []float64
			plus  float64
		}
		var cs []con
		shapes := [][]int{{}, {1}, {2}, {1, 2}, {2, 1}, {3, 4}, {40}, {12, 14}, {2, 3, 2}}
		for k := t.Tail(2, 6, 30); k > 0; k-- {
			dt := []tensor.Dtype{tensor.Float64, tensor.Float32}[t.Below(2)]
			var c con
			if len(cs) > 0 && t.Chance(2, 3) { // nearly an earlier one
				c = cs[t.Below(len(cs))]
				c.vals = append([]float64(nil), c.vals...)
				switch t.Below(4) {
				case 0:
					c.vals[t.Below(len(c.vals))] += 0.5
				case 1:
					c.vals[len(c.vals)/2]++
				case 2:
					c.dt = dt
				default:
					var same [][]int
					for _, s := range shapes {
						if ref.Prod(s) == len(c.vals) {
							same = append(same, s)
						}
					}
					if len(same) > 0 {
						c.shape = same[t.Below(len(same))]
					}
				}
			} else {
				s := shapes[t.Below(len(shapes))]
				c = con{dt: dt, shape: s, vals: make([]float64, ref.Prod(s))}
				base := t.Dyadic(3, 4)
				for i := range c.vals {
					c.vals[i] = base
					if t.Chance(1, 4) {
						c.vals[i] += float64(t.Below(3))
					}
				}
			}
			var opts []G.NodeConsOpt
			if t.Chance(1, 3) {
				opts = append(opts, G.WithName([]string{"c", "d"}[t.Below(2)]))
			}
			var n *G.Node
			if len(c.shape) == 0 {
				n = G.NewConstant(gen.Scalar(c.dt, c.vals[0]), opts...)
			} else {
				n = G.NewConstant(tensor.New(tensor.WithShape(c.shape...), tensor.WithBacking(gen.Data(c.dt, c.vals))), opts...)
			}
			c.n = g.AddNode(n)
			c.plus = t.Dyadic(2, 2)
			x := gen.NewLeaf(g, c.dt, fmt.Sprintf("x%d", len(cs)), c.shape, rep(c.plus, len(c.vals)))
			var err error
			if c.use, err = G.Add(x, c.n); err != nil {
				t.Failf("Add: %v", err)
			}
			t.Logf("%v constant of shape %v named %v: %v, plus %v", c.dt, c.shape, len(opts) > 0, c.vals, c.plus)
			cs = append(cs, c)
		}
		t.NonTrivial()
		m := forwardMachines[t.Below(len(forwardMachines))]
		t.Logf("on %s", m.name)
		vm := m.mk(g)
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run failed: %v", err)
		}
		for k, c := range cs {
			if err := gen.SameVal(c.n.Value(), c.shape, c.vals, 0); err != nil {
				t.Failf("constant %d: %v", k, err)
			}
			if err := gen.DtOK(c.n.Value(), c.dt); err != nil {
				t.Failf("constant %d: %v", k, err)
			}
			sum := make([]float64, len(c.vals))
			for i := range sum {
				sum[i] = c.vals[i] + c.plus
			}
			if err := gen.SameVal(c.use.Value(), c.shape, sum, 0); err != nil {
				t.Failf("sum with constant %d: %v", k, err)
			}
			if err := gen.DtOK(c.use.Value(), c.dt); err != nil {
				t.Failf("sum with constant %d: %v", k, err)
			}
		}
	}
}

func rep(x float64, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = x
	}
	return v
}

func init() {
	pbt.Register(&pbt.Property{ID: "P17",
		Rule: "A case builds several expressions on one graph that are equal, or differ in as little as possible: one operation applied with different parameters to the same operands, slices of long tensors at round distances, constants of equal text but different type, shape, elements or value, and whole programs over two inputs whose hash codes are equal (found by search); every value and gradient is compared with the reference, and building equal expressions again must give the same nodes. Non-trivial: at least two different expressions, or a pair of equal hash codes was found.",
		Parts: []pbt.Part{
			{Name: "variants", Check: variants(), Quick: 160000, Thorough: 2000000},
			{Name: "variant gradients", Check: variantGrads(), Quick: 100000, Thorough: 2000000},
			{Name: "slices", Check: longSlices(), Quick: 6000, Thorough: 100000},
			{Name: "again", Check: again(), Quick: 80000, Thorough: 1000000},
			{Name: "twins", Check: twins(false), Quick: 40000, Thorough: 500000},
			{Name: "twin gradients", Check: twins(true), Quick: 40000, Thorough: 500000},
			{Name: "constants", Check: constants(), Quick: 40000, Thorough: 500000},
		}})
}
