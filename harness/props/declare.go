package props

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// declaration is what a node is declared to be.
type declaration struct {
	dt    tensor.Dtype
	shape []int
	val   []float64 // nil: none
	grad  []float64 // nil: none
	name  string
	g     *G.ExprGraph
}

func (d *declaration) check(t *pbt.T, what string, n *G.Node) {
	if !ref.EqShape(n.Shape(), d.shape) || n.Dims() != len(d.shape) || n.Dtype() != d.dt {
		t.Failf("%s has shape %v, %d dimensions and element type %v", what, n.Shape(), n.Dims(), n.Dtype())
	}
	if d.name != "" && n.Name() != d.name {
		t.Failf("%s is named %q, not %q", what, n.Name(), d.name)
	}
	if n.Graph() != d.g {
		t.Failf("%s is in another graph", what)
	}
	if d.g != nil {
		found := false
		for _, m := range d.g.AllNodes() {
			found = found || m == n
		}
		if !found {
			t.Failf("%s is not among the nodes of its graph", what)
		}
	}
	if d.val == nil {
		if n.Value() != nil {
			t.Failf("%s has the value %v without any given", what, n.Value())
		}
	} else if err := exactly(n.Value(), d.dt, d.shape, d.val); err != nil {
		t.Failf("%s: value: %v", what, err)
	}
	g, err := n.Grad()
	if d.grad == nil {
		if err == nil {
			t.Failf("%s has the gradient %v without any given", what, g)
		}
	} else if err != nil {
		t.Failf("%s: gradient: %v", what, err)
	} else if err := exactly(g, d.dt, d.shape, d.grad); err != nil {
		t.Failf("%s: gradient: %v", what, err)
	}
}

// any gives the elements in a form a declaration takes.
func (d *declaration) any(t *pbt.T, x []float64) interface{} {
	if len(d.shape) == 0 && t.Bool() {
		return gen.Scalar(d.dt, x[0])
	}
	return gen.Value(d.dt, d.shape, x)
}

func (d *declaration) make(t *pbt.T, opts []G.NodeConsOpt) *G.Node {
	if t.Chance(1, 3) {
		return G.NewTensor(d.g, d.dt, len(d.shape), opts...)
	}
	switch len(d.shape) {
	case 0:
		return G.NewScalar(d.g, d.dt, opts...)
	case 1:
		return G.NewVector(d.g, d.dt, opts...)
	case 2:
		return G.NewMatrix(d.g, d.dt, opts...)
	}
	return G.NewTensor(d.g, d.dt, len(d.shape), opts...)
}

// declared draws a declaration and the options that give it.
func declared(t *pbt.T, g *G.ExprGraph, name string) (*declaration, []G.NodeConsOpt) {
	b := gen.NewBuilder(t, tensor.Float64)
	b.MaxElems = t.Tail(24, 24, 300)
	d := &declaration{dt: valueDts[t.Below(len(valueDts))], shape: b.RandShape(0, t.Tail(4, 4, 5)), name: name, g: g}
	n := ref.Prod(d.shape)
	opts := []G.NodeConsOpt{G.WithName(name)}
	put := func(o G.NodeConsOpt, after int) int {
		at := after + t.Below(len(opts)-after+1)
		opts = append(opts, nil)
		copy(opts[at+1:], opts[at:])
		opts[at] = o
		return at + 1
	}
	at := 0
	switch t.Below(4) {
	case 0:
		put(G.WithShape(d.shape...), 0)
	case 1, 2:
		d.val = elems(t, d.dt, n)
		at = put(G.WithValue(d.any(t, d.val)), 0)
		if t.Chance(1, 3) {
			d.grad = elems(t, d.dt, n)
			at = put(G.WithGrad(d.any(t, d.grad)), at)
			if t.Chance(1, 4) {
				d.grad = elems(t, d.dt, n)
				put(G.WithGrad(d.any(t, d.grad)), at)
			}
		}
		if t.Bool() {
			put(G.WithShape(d.shape...), 0)
		}
	default:
		at = put(G.WithShape(d.shape...), 0)
		if len(d.shape) > 0 && isFloat(d.dt) {
			x := t.Dyadic(4, 4)
			d.val = make([]float64, n)
			for i := range d.val {
				d.val[i] = x
			}
			put(G.WithInit(G.ValuesOf(gen.Scalar(d.dt, x))), at)
		}
	}
	if t.Chance(1, 5) {
		put(G.In(g), 0)
	}
	return d, opts
}

// contradict adds an option that does not fit the rest.
func (d *declaration) contradict(t *pbt.T) (string, []G.NodeConsOpt) {
	n := ref.Prod(d.shape)
	odt := valueDts[t.Below(len(valueDts))]
	for odt == d.dt {
		odt = valueDts[t.Below(len(valueDts))]
	}
	shape := append([]int(nil), d.shape...)
	kind := t.Below(8)
	if len(shape) > 0 {
		shape[t.Below(len(shape))]++
	}
	resized := len(shape) > 0 && !looseEq(shape, d.shape)
	zeros := func(dt tensor.Dtype, s []int) G.Value { return gen.Value(dt, s, make([]float64, ref.Prod(s))) }
	switch {
	case kind == 0 && resized:
		return "value of another shape", []G.NodeConsOpt{G.WithShape(d.shape...), G.WithValue(zeros(d.dt, shape))}
	case kind == 1 && resized:
		return "shape other than the value's", []G.NodeConsOpt{G.WithValue(zeros(d.dt, d.shape)), G.WithShape(shape...)}
	case kind == 2 && resized:
		return "gradient of another shape", []G.NodeConsOpt{G.WithValue(zeros(d.dt, d.shape)), G.WithGrad(zeros(d.dt, shape))}
	case kind == 3:
		return "value of another type", []G.NodeConsOpt{G.WithShape(d.shape...), G.WithValue(zeros(odt, d.shape))}
	case kind == 4:
		return "gradient of another type", []G.NodeConsOpt{G.WithValue(zeros(d.dt, d.shape)), G.WithGrad(zeros(odt, d.shape))}
	case kind == 5:
		return "gradient without a value", []G.NodeConsOpt{G.WithShape(d.shape...), G.WithGrad(zeros(d.dt, d.shape))}
	case kind == 6:
		return "another graph", []G.NodeConsOpt{G.WithShape(d.shape...), G.In(G.NewGraph())}
	case len(d.shape) > 1:
		return "value of fewer dimensions", []G.NodeConsOpt{G.WithValue(zeros(d.dt, []int{n}))}
	}
	return "value that is none", []G.NodeConsOpt{func(n *G.Node) { G.WithValue("none")(n) }}
}

// declarations checks nodes against their declaration.
func declarations(t *pbt.T) {
	g := G.NewGraph()
	k := t.Tail(1, 4, 30)
	type made struct {
		d *declaration
		n *G.Node
		w string
	}
	var all []made
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("n%d", i)
		switch t.Below(7) {
		case 0, 1, 2:
			d, opts := declared(t, g, name)
			t.Logf("%s %v %v value %v gradient %v", name, d.dt, d.shape, d.val, d.grad)
			t.Label("declared dims=%d value=%v gradient=%v", len(d.shape), d.val != nil, d.grad != nil)
			var n *G.Node
			if err, _ := pbt.Try(func() error { n = d.make(t, opts); return nil }); err != nil {
				t.Failf("%s: %v", name, err)
			}
			all = append(all, made{d, n, name})
		case 3:
			d, _ := declared(t, g, name)
			what, opts := d.contradict(t)
			if t.Bool() {
				opts = append(opts, G.WithName(name))
			} else {
				opts = append([]G.NodeConsOpt{G.WithName(name)}, opts...)
			}
			t.Logf("%s %v %v with %s", name, d.dt, d.shape, what)
			t.Label("refused: %s", what)
			if err, _ := pbt.Try(func() error { d.make(t, opts); return nil }); err == nil {
				t.Failf("%s: a %s is accepted", name, what)
			}
		case 4: // a constant, a node from a value
			d, _ := declared(t, g, name)
			d.val, d.grad = elems(t, d.dt, ref.Prod(d.shape)), nil
			v := d.any(t, d.val)
			t.Logf("%s from %v %v %v", name, d.dt, d.shape, d.val)
			var n *G.Node
			switch t.Below(3) {
			case 0:
				t.Label("from a value dims=%d", len(d.shape))
				n = G.NodeFromAny(g, v, G.WithName(name))
			case 1:
				t.Label("constant dims=%d", len(d.shape))
				n = G.NewConstant(v, G.WithName(name))
				d.g = nil
			default:
				t.Label("constant in a graph dims=%d", len(d.shape))
				n = g.AddNode(G.NewConstant(v, G.WithName(name), G.In(g)))
				d.name = "" // equal constants are one node
			}
			all = append(all, made{d, n, name})
		case 5:
			dts := []tensor.Dtype{tensor.Float32, tensor.Float64, tensor.Int, tensor.Int32, tensor.Int64}
			d := &declaration{dt: dts[t.Below(len(dts))], shape: []int{t.Tail(1, 6, 400)}, name: name}
			at := t.Below(d.shape[0])
			if t.Chance(1, 6) {
				at = d.shape[0] + t.Below(3)
				if t.Bool() {
					at = -1 - t.Below(3)
				}
				t.Logf("%s hot at %d of %d", name, at, d.shape[0])
				t.Label("refused: no such position")
				if err, _ := pbt.Try(func() error { G.OneHotVector(at, d.shape[0], d.dt, G.WithName(name)); return nil }); err == nil {
					t.Failf("position %d of %d is accepted", at, d.shape[0])
				}
				continue
			}
			d.val = make([]float64, d.shape[0])
			d.val[at] = 1
			t.Logf("%s hot at %d of %d %v", name, at, d.shape[0], d.dt)
			t.Label("one hot")
			all = append(all, made{d, G.OneHotVector(at, d.shape[0], d.dt, G.WithName(name)), name})
		default: // a copy in another graph
			if len(all) == 0 {
				continue
			}
			m := all[t.Below(len(all))]
			if m.d.g != g {
				continue
			}
			if c := m.n.CloneTo(g); c != m.n {
				t.Failf("%s copied into its own graph is %v", m.w, c)
			}
			d := *m.d
			d.g = G.NewGraph()
			t.Logf("copy %s to another graph", m.w)
			t.Label("copy value=%v gradient=%v", d.val != nil, d.grad != nil)
			var n *G.Node
			if err, _ := pbt.Try(func() error { n = m.n.CloneTo(d.g); return nil }); err != nil {
				t.Failf("copy of %s: %v", m.w, err)
			}
			d.check(t, "copy of "+m.w, n)
			if d.val != nil && n.Op() == nil {
				i := t.Below(len(d.val))
				d.val = other(t, d.dt, d.val, i)
				set(n.Value(), i, d.val[i])
				if d.grad != nil && t.Bool() {
					gr, _ := n.Grad()
					d.grad = other(t, d.dt, d.grad, i)
					set(gr, i, d.grad[i])
				}
			}
			all = append(all, made{&d, n, "copy of " + m.w})
		}
	}
	mine := map[*G.Node]bool{}
	for _, m := range all {
		m.d.check(t, m.w, m.n)
		if m.d.g == g {
			mine[m.n] = true
		}
	}
	if got := len(g.AllNodes()); got != len(mine) {
		t.Failf("the graph has %d nodes, %d were declared", got, len(mine))
	}
	if len(all) > 1 {
		t.NonTrivial()
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P42",
		Rule: "A case is one to four (rarely thirty) declarations in one graph: inputs with shape, value, initial value, gradient and name given in any order, declarations that contradict themselves, nodes from values, constants, one-hot vectors, and copies into another graph that are then written to, of seven element types and up to five dimensions. Every node is compared with its declaration after all of them; contradictions must be refused. Non-trivial: two or more nodes.",
		Parts: []pbt.Part{
			{Name: "declarations", Check: declarations, Quick: 1500000, Thorough: 6000000},
		}})
}
