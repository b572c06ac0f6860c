package props

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// announced is what a node says about its value before there is one.
type announced struct {
	shape   []int
	dims    int
	dt      tensor.Dtype
	size    int
	strides []int
	is      [5]bool // scalar, vector, matrix, column, row
}

func announcement(n *G.Node) (a announced, err error) {
	err, _ = pbt.Try(func() error {
		a.shape, a.dims, a.dt, a.size = n.Shape(), n.Dims(), n.Dtype(), n.DataSize()
		a.is = [5]bool{n.IsScalar(), n.IsVector(), n.IsMatrix(), n.IsColVec(), n.IsRowVec()}
		if n.IsVec() != n.IsVector() {
			return fmt.Errorf("IsVec %v, IsVector %v", n.IsVec(), n.IsVector())
		}
		if !a.is[0] {
			a.strides = n.Strides()
		}
		return nil
	})
	return
}

// keeps compares an announcement with a value.
func (a announced) keeps(v G.Value) error {
	s := []int(v.Shape())
	if !ref.EqShape(a.shape, s) {
		return fmt.Errorf("shape %v announced, the value has %v", a.shape, s)
	}
	if a.dt != v.Dtype() {
		return fmt.Errorf("element type %v announced, the value has %v", a.dt, v.Dtype())
	}
	if a.dims != len(s) {
		return fmt.Errorf("%d dimensions announced, the value has shape %v", a.dims, s)
	}
	if a.size != ref.Prod(s) {
		return fmt.Errorf("%d elements announced, the value has shape %v", a.size, s)
	}
	is := [5]bool{len(s) == 0, len(s) == 1, len(s) == 2, len(s) == 2 && s[1] == 1 && s[0] > 1, len(s) == 2 && s[0] == 1 && s[1] > 1}
	if a.is != is {
		return fmt.Errorf("scalar, vector, matrix, column, row %v announced, the value has shape %v", a.is, s)
	}
	if len(s) > 0 {
		st := make([]int, len(s))
		k := 1
		for i := len(s) - 1; i >= 0; i-- {
			st[i] = k
			k *= s[i]
		}
		if !ref.EqShape(a.strides, st) {
			return fmt.Errorf("strides %v announced for shape %v", a.strides, s)
		}
	}
	return nil
}

// announcements compares what every node says about itself when it is built
// with the value it gets.
func announcements() pbt.Check {
	list, glist := allSpecs(), diffSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		grad := t.Chance(1, 2)
		b.Grad = grad
		n := large(b, t.Int(1, 6))
		l := list
		if grad {
			l = glist
		}
		seedLeaves(b, 0, 4)
		for i := 0; i < n; i++ {
			tryPush(b, l[t.Below(len(l))], 2)
		}
		if b.P.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		cost := -1
		if grad {
			cost = costOf(b, t.Bool())
		}
		p := b.P
		lisp := !grad && t.Chance(1, 3)
		t.Logf("%s gradient of v%d lisp %v", p, cost, lisp)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		if grad {
			need := p.Needs(cost)
			var ns G.Nodes
			for _, l := range p.Leaves() {
				if need[l] {
					ns = append(ns, bt.Nodes[l])
				}
			}
			if len(ns) == 0 {
				t.Discard("cost of constants")
			}
			if err, _ := pbt.Try(func() (e error) { _, e = G.Grad(bt.Nodes[cost], ns...); return }); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
		all := bt.G.AllNodes()
		said := make([]announced, len(all))
		for i, n := range all {
			if said[i], err = announcement(n); err != nil {
				t.Failf("%v: %v", n, err)
			}
		}
		t.Label("gradient=%v", grad)
		if len(all) > 4 {
			t.NonTrivial()
		}
		var m G.VM = G.NewTapeMachine(bt.G, G.TraceExec())
		if lisp {
			m = G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
		}
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		for i, n := range all {
			v := n.Value()
			if v == nil {
				t.Failf("%v has no value", n)
			}
			if err := said[i].keeps(v); err != nil {
				t.Failf("node %d, %v: %v", n.ID(), n, err)
			}
			now, err := announcement(n)
			if err != nil || fmt.Sprint(now) != fmt.Sprint(said[i]) {
				t.Failf("node %d, %v: said %v, after the run %v (%v)", n.ID(), n, said[i], now, err)
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P41",
		Rule: "a case is a random program over all operations, half of them with the gradient of a cost; what every node of the graph, inner and gradient nodes included, announces before the run (shape, dimensions, element type, number of elements, strides, kind) is compared with the value it has after a run on a tracing tape machine or a lisp machine; non-trivial with more than four nodes",
		Parts: []pbt.Part{
			{Name: "announcements", Check: announcements(), Quick: 160000, Thorough: 1000000},
		}})
}
