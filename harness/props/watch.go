package props

import (
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
)

type found struct{ nan, inf bool }

func scan(v G.Value) (f found) {
	if v == nil || !isFloat(v.Dtype()) {
		return
	}
	x, _, _, err := gen.Floats(v)
	if err != nil {
		return
	}
	for _, e := range x {
		f.nan = f.nan || math.IsNaN(e)
		f.inf = f.inf || math.IsInf(e, 0)
	}
	return
}

type watchOp struct {
	name  string
	arity int
	f     func(a, b *G.Node) (*G.Node, error)
	bool_ bool
	grad  bool
}

func watchOps() []watchOp {
	u := func(name string, f func(*G.Node) (*G.Node, error)) watchOp {
		return watchOp{name, 1, func(a, _ *G.Node) (*G.Node, error) { return f(a) }, false, true}
	}
	b := func(name string, f func(a, b *G.Node) (*G.Node, error)) watchOp {
		return watchOp{name, 2, f, false, true}
	}
	return []watchOp{
		u("Log", G.Log), u("Sqrt", G.Sqrt), u("Inverse", G.Inverse), u("Exp", G.Exp), u("Square", G.Square), u("Neg", G.Neg),
		u("Tanh", G.Tanh), u("Cube", G.Cube), u("Log1p", G.Log1p), u("Abs", G.Abs), u("InverseSqrt", G.InverseSqrt), u("Sin", G.Sin), u("Log2", G.Log2),
		u("Sigmoid", G.Sigmoid), u("Rectify", func(a *G.Node) (*G.Node, error) { return G.Rectify(a) }),
		b("Add", G.Add), b("Sub", G.Sub), b("HadamardProd", G.HadamardProd), b("HadamardDiv", G.HadamardDiv), b("Pow", G.Pow),
		{"Gt", 2, func(a, b *G.Node) (*G.Node, error) { return G.Gt(a, b, false) }, true, false},
		{"Lt same", 2, func(a, b *G.Node) (*G.Node, error) { return G.Lt(a, b, true) }, false, false},
	}
}

// watches compares machines that watch for NaN or infinities with what an
// unwatched run of the same program produces.
func watches() pbt.Check {
	ops := watchOps()
	special := []float64{0, 0, 1, -1, 2, -2, 0.5, 1000, -1000, 1e30, -1e30}
	type step struct {
		op   watchOp
		a, b int
	}
	return func(t *pbt.T) {
		dt := floatDt(t)
		var shape []int
		if t.Chance(2, 3) {
			shape = gen.NewBuilder(t, dt).RandShape(1, 3)
		}
		n := 1
		for _, d := range shape {
			n *= d
		}
		mode := t.Below(3)
		if mode == 2 && n == 1 {
			shape = nil // see Limits: one-element tensors
		}
		wild := t.Chance(2, 3)
		k := t.Int(1, 2)
		var leaves [][]float64
		var consts []bool
		plain := t.Bool()
		for i := 0; i < k; i++ {
			v := make([]float64, n)
			for j := range v {
				if wild && t.Chance(1, 3) {
					v[j] = special[t.Below(len(special))]
				} else {
					v[j] = float64(t.Int(1, 12)) / 4
				}
			}
			leaves = append(leaves, v)
			consts = append(consts, i < k-1 && t.Chance(1, 2)) // a graph needs an input
			t.Logf("v%d=%v%v const=%v", i, shape, v, consts[i])
		}
		var steps []step
		var isBool []bool
		for range leaves {
			isBool = append(isBool, false)
		}
		used := map[int]bool{}
		pick := func() int {
			for {
				if i := t.Below(len(isBool)); !isBool[i] {
					return i
				}
			}
		}
		m := t.Tail(1, 7, 25)
		for i := 0; i < m; i++ {
			o := ops[t.Below(len(ops))]
			if mode == 2 && !o.grad {
				continue
			}
			s := step{o, pick(), 0}
			if t.Chance(2, 3) && !isBool[len(isBool)-1] {
				s.a = len(isBool) - 1
			}
			if o.arity == 2 {
				s.b = pick()
				used[s.b] = true
			}
			used[s.a] = true
			steps = append(steps, s)
			isBool = append(isBool, o.bool_)
			if o.arity == 2 {
				t.Logf("v%d=%s(v%d,v%d)", len(isBool)-1, o.name, s.a, s.b)
			} else {
				t.Logf("v%d=%s(v%d)", len(isBool)-1, o.name, s.a)
			}
		}
		if len(steps) == 0 {
			t.Discard("no step")
		}
		build := func() (*G.ExprGraph, G.Nodes, *G.Node) {
			g := G.NewGraph()
			var ns G.Nodes
			for i, v := range leaves {
				if consts[i] {
					ns = append(ns, g.Constant(gen.Value(dt, shape, v)))
					continue
				}
				ns = append(ns, gen.NewLeaf(g, dt, []string{"a", "b"}[i], shape, v))
			}
			for _, s := range steps {
				var b *G.Node
				if s.op.arity == 2 {
					b = ns[s.b]
				}
				r, err := s.op.f(ns[s.a], b)
				if err != nil {
					t.Failf("%s: %v", s.op.name, err)
				}
				ns = append(ns, r)
			}
			var cost *G.Node
			if mode == 2 {
				// one scalar cost over everything unused
				for i := range ns {
					if used[i] || g.To(ns[i].ID()).Len() > 0 {
						continue
					}
					c := ns[i]
					var err error
					if len(shape) > 0 {
						if c, err = G.Sum(c); err != nil {
							t.Failf("Sum: %v", err)
						}
					}
					if cost == nil {
						cost = c
					} else if cost, err = G.Add(cost, c); err != nil {
						t.Failf("Add: %v", err)
					}
				}
			}
			return g, ns, cost
		}
		names := []string{"tape", "lisp forwards", "lisp"}
		t.Logf("on %s", names[mode])
		mk := func(g *G.ExprGraph, o ...G.VMOpt) G.VM {
			switch mode {
			case 0:
				if plain && len(o) > 0 {
					return G.NewTapeMachine(g, o...)
				}
				return G.NewTapeMachine(g, append(o, G.TraceExec())...)
			case 1:
				return G.NewLispMachine(g, append(o, G.ExecuteFwdOnly())...)
			}
			return G.NewLispMachine(g, o...)
		}
		g, ns, cost := build()
		if mode == 2 {
			for _, x := range g.AllNodes() {
				if x != cost && g.To(x.ID()).Len() == 0 {
					t.Discard("a rewritten operation left an unused node")
				}
			}
		}
		vm := mk(g)
		if err := gen.RunVM(vm); err != nil {
			t.Failf("unwatched run: %v", err)
		}
		// what a run without watching leaves behind
		var f found
		for _, x := range g.AllNodes() {
			if x.IsVar() && mode != 2 {
				continue
			}
			y := scan(x.Value())
			if mode == 2 {
				if d, err := x.Grad(); err == nil {
					z := scan(d)
					y.nan, y.inf = y.nan || z.nan, y.inf || z.inf
				}
			}
			f.nan, f.inf = f.nan || y.nan, f.inf || y.inf
		}
		want := make([][]float64, len(ns))
		for i, x := range ns {
			want[i], _, _, _ = gen.Floats(x.Value())
		}
		vm.Close()
		t.Label("%s nan=%v inf=%v", names[mode], f.nan, f.inf)
		if f.nan || f.inf {
			t.NonTrivial()
		}
		for _, w := range []struct {
			what string
			opts []G.VMOpt
			bad  bool
		}{
			{"NaN", []G.VMOpt{G.WithNaNWatch()}, f.nan},
			{"Inf", []G.VMOpt{G.WithInfWatch()}, f.inf},
			{"NaN and Inf", []G.VMOpt{G.WithInfWatch(), G.WithNaNWatch()}, f.nan || f.inf},
		} {
			g, ns, _ := build()
			vm := mk(g, w.opts...)
			err := gen.RunVM(vm)
			if w.bad && err == nil {
				t.Failf("a machine watching for %s reports nothing", w.what)
			}
			if !w.bad && err != nil && mode == 2 && (f.nan || f.inf) {
				continue // a gradient may be infinite before it becomes NaN
			}
			if !w.bad && err != nil {
				t.Failf("a machine watching for %s reports %v, but there is none", w.what, err)
			}
			if !w.bad {
				for i, x := range ns {
					if mode == 0 && plain && g.To(x.ID()).Len() > 0 {
						continue // memory of a consumed value may be reused
					}
					got, _, _, _ := gen.Floats(x.Value())
					if err := sameBits(got, want[i]); err != nil {
						t.Failf("value of v%d under watch for %s: %v", i, w.what, err)
					}
				}
			}
			vm.Close()
		}
	}
}

func sameBits(got, want []float64) error {
	w := append([]float64(nil), want...)
	g := append([]float64(nil), got...)
	for i := range w {
		if i < len(g) && (math.IsInf(w[i], 0) || math.IsNaN(w[i])) {
			if w[i] == g[i] || math.IsNaN(w[i]) && math.IsNaN(g[i]) {
				w[i], g[i] = 0, 0
			}
		}
	}
	return gen.Close(g, w, 0)
}

func init() {
	pbt.Register(&pbt.Property{ID: "P26",
		Rule: "A case draws a program of up to seven operations over inputs that mix ordinary numbers with zeros, negative and huge ones, and runs it unwatched; machines watching for NaN, for infinities and for both must then report an error exactly when some operation's value (on the lisp machine run backwards, also some gradient) is of the watched kind, and otherwise leave the same values. Non-trivial: a NaN or an infinity occurs.",
		Parts: []pbt.Part{
			{Name: "watches", Check: watches(), Quick: 320000, Thorough: 2000000},
		}})
}

var _ tensor.Dtype
