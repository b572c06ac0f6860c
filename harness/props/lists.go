package props

import (
	"fmt"
	"sort"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// lent keeps the lists that were passed to calls, and what they held.
type lent struct {
	ints  [][]int
	bytes [][]byte
	nodes [][]*G.Node
	cuts  [][]tensor.Slice
	was   []string
}

func (l *lent) I(v ...int) []int {
	c := append(make([]int, 0, len(v)+2), v...)
	l.ints = append(l.ints, c)
	l.was = append(l.was, fmt.Sprint("ints ", c[:cap(c)]))
	return c
}
func (l *lent) B(v ...byte) []byte {
	c := append(make([]byte, 0, len(v)+2), v...)
	l.bytes = append(l.bytes, c)
	l.was = append(l.was, fmt.Sprint("bytes ", c[:cap(c)]))
	return c
}
func (l *lent) S(v ...tensor.Slice) []tensor.Slice {
	c := append(make([]tensor.Slice, 0, len(v)+2), v...)
	l.cuts = append(l.cuts, c)
	l.was = append(l.was, fmt.Sprint("cuts ", c[:cap(c)]))
	return c
}
func (l *lent) N(v ...*G.Node) G.Nodes {
	c := append(make([]*G.Node, 0, len(v)+2), v...)
	l.nodes = append(l.nodes, c)
	l.was = append(l.was, fmt.Sprintf("nodes %p", c[:cap(c)]))
	return c
}

// changed compares everything lent, with the spare room after each list.
func (l *lent) changed() error {
	var now []string
	for _, v := range l.ints {
		now = append(now, fmt.Sprint("ints ", v[:cap(v)]))
	}
	for _, v := range l.bytes {
		now = append(now, fmt.Sprint("bytes ", v[:cap(v)]))
	}
	for _, v := range l.cuts {
		now = append(now, fmt.Sprint("cuts ", v[:cap(v)]))
	}
	for _, v := range l.nodes {
		now = append(now, fmt.Sprintf("nodes %p", v[:cap(v)]))
	}
	sort.Strings(now)
	sort.Strings(l.was)
	for i := range now {
		if now[i] != l.was[i] {
			return fmt.Errorf("the lists %v became %v", l.was, now)
		}
	}
	return nil
}

// reuse is what the owner of the lists does with them later.
func (l *lent) reuse(k int, other *G.Node) {
	for _, v := range l.ints {
		for i := range v {
			v[i] = (v[i] + k) % 3
		}
		if k == 3 {
			for i := range v {
				v[i] = -7
			}
		}
	}
	for _, v := range l.bytes {
		for i := range v {
			v[i] = byte(int(v[i])+k) % 3
		}
	}
	for _, v := range l.cuts {
		for i := range v {
			v[i] = G.S(0)
		}
	}
	for _, v := range l.nodes {
		for i := range v {
			v[i] = other
		}
	}
}

type listCall struct {
	name string
	// draw picks parameters and returns the shapes of the inputs and the call
	draw func(t *pbt.T) (shapes [][]int, call func(l *lent, in []*G.Node) (*G.Node, error))
	diff bool
}

func rshape(t *pbt.T, lo, hi int) []int {
	s := make([]int, t.Int(lo, hi))
	for i := range s {
		s[i] = t.Int(2, 4)
	}
	return s
}

func raxes(t *pbt.T, d int) []int {
	m := t.Int(1, 1<<d-1)
	var out []int
	for i := 0; i < d; i++ {
		if m>>i&1 == 1 {
			out = append(out, i)
		}
	}
	// in any order
	for i := range out {
		j := t.Below(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func axial(name string, diff bool, f func(a *G.Node, axes ...int) (*G.Node, error)) listCall {
	return listCall{name, func(t *pbt.T) ([][]int, func(*lent, []*G.Node) (*G.Node, error)) {
		s := rshape(t, 1, 4)
		ax := raxes(t, len(s))
		return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return f(in[0], l.I(ax...)...) }
	}, diff}
}

func oneAxis(name string, f func(a *G.Node, axes ...int) (*G.Node, error)) listCall {
	return listCall{name, func(t *pbt.T) ([][]int, func(*lent, []*G.Node) (*G.Node, error)) {
		s := rshape(t, 2, 3)
		ax := t.Below(len(s))
		return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return f(in[0], l.I(ax)...) }
	}, true}
}

func listCalls() []listCall {
	type call = func(*lent, []*G.Node) (*G.Node, error)
	geom := func(name string, f func(l *lent, im, fil *G.Node, k, p, s, d []int) (*G.Node, error), filter bool) listCall {
		return listCall{name, func(t *pbt.T) ([][]int, call) {
			b, c := t.Int(1, 2), t.Int(1, 2)
			k := []int{t.Int(1, 3), t.Int(1, 3)}
			p := []int{t.Below(2), t.Below(2)}
			if p[0] >= k[0] {
				p[0] = 0
			}
			if p[1] >= k[1] {
				p[1] = 0
			}
			s := []int{t.Int(1, 2), t.Int(1, 2)}
			d := []int{1, 1}
			sh := [][]int{{b, c, k[0] + t.Int(1, 3), k[1] + t.Int(1, 3)}}
			if filter {
				sh = append(sh, []int{t.Int(1, 2), c, k[0], k[1]})
			}
			return sh, func(l *lent, in []*G.Node) (*G.Node, error) {
				var fil *G.Node
				if filter {
					fil = in[1]
				}
				return f(l, in[0], fil, k, p, s, d)
			}
		}, true}
	}
	broad := func(name string, f func(a, b *G.Node, l, r []byte) (*G.Node, error), diff bool) listCall {
		return listCall{name, func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 2, 3)
			r := append([]int(nil), s...)
			var pat []byte
			for _, a := range raxes(t, len(s)) {
				r[a] = 1
				pat = append(pat, byte(a))
			}
			left := t.Bool()
			sh := [][]int{s, r}
			if left {
				sh = [][]int{r, s}
			}
			return sh, func(l *lent, in []*G.Node) (*G.Node, error) {
				if left {
					return f(in[0], in[1], l.B(pat...), nil)
				}
				return f(in[0], in[1], nil, l.B(pat...))
			}
		}, diff}
	}
	many := func(name string, f func(l *lent, in []*G.Node) (*G.Node, error)) listCall {
		return listCall{name, func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 2)
			var sh [][]int
			for k := t.Int(1, 5); k > 0; k-- {
				sh = append(sh, s)
			}
			return sh, f
		}, true}
	}
	return []listCall{
		axial("Sum", true, G.Sum),
		axial("Mean", true, G.Mean),
		axial("Max", false, G.Max),
		{"Slice", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 3)
			var cut []tensor.Slice
			for _, d := range s {
				switch t.Below(3) {
				case 0:
					cut = append(cut, nil)
				case 1:
					cut = append(cut, G.S(t.Below(d)))
				default:
					k := t.Below(d)
					cut = append(cut, G.S(k, t.Int(k+1, d)))
				}
			}
			return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return G.Slice(in[0], l.S(cut...)...) }
		}, true},
		oneAxis("SoftMax", G.SoftMax),
		oneAxis("LogSoftMax", G.LogSoftMax),
		oneAxis("Sparsemax", G.Sparsemax),
		{"Transpose", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 2, 4)
			ax := make([]int, len(s))
			for i := range ax {
				j := t.Below(i + 1)
				ax[i] = ax[j]
				ax[j] = i
			}
			return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return G.Transpose(in[0], l.I(ax...)...) }
		}, true},
		{"Reshape", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 3)
			var to []int
			n := ref.Prod(s)
			for n > 1 {
				d := n
				for _, p := range []int{2, 3} {
					if n%p == 0 && t.Bool() {
						d = p
						break
					}
				}
				to = append(to, d)
				n /= d
			}
			if t.Bool() {
				to[t.Below(len(to))] = -1
			}
			return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return G.Reshape(in[0], tensor.Shape(l.I(to...))) }
		}, true},
		{"At", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 3)
			c := make([]int, len(s))
			for i := range c {
				c[i] = t.Below(s[i])
			}
			return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) { return G.At(in[0], l.I(c...)...) }
		}, false},
		{"Tensordot", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 2, 3)
			ax := raxes(t, len(s))
			r := make([]int, len(ax))
			for i, a := range ax {
				r[i] = s[a]
			}
			r = append(r, t.Int(2, 3))
			bx := make([]int, len(ax))
			for i := range bx {
				bx[i] = i
			}
			return [][]int{s, r}, func(l *lent, in []*G.Node) (*G.Node, error) {
				return G.Tensordot(l.I(ax...), l.I(bx...), in[0], in[1])
			}
		}, false},
		{"Concat", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 3)
			ax := t.Below(len(s))
			var sh [][]int
			for k := t.Int(2, 4); k > 0; k-- {
				c := append([]int(nil), s...)
				c[ax] = t.Int(2, 4)
				sh = append(sh, c)
			}
			return sh, func(l *lent, in []*G.Node) (*G.Node, error) { return G.Concat(ax, l.N(in...)...) }
		}, true},
		many("ReduceAdd", func(l *lent, in []*G.Node) (*G.Node, error) { return G.ReduceAdd(l.N(in...)) }),
		many("ReduceMul", func(l *lent, in []*G.Node) (*G.Node, error) { return G.ReduceMul(l.N(in...)) }),
		geom("Conv2d", func(l *lent, im, fil *G.Node, k, p, s, d []int) (*G.Node, error) {
			return G.Conv2d(im, fil, tensor.Shape(l.I(k...)), l.I(p...), l.I(s...), l.I(d...))
		}, true),
		geom("Im2Col", func(l *lent, im, fil *G.Node, k, p, s, d []int) (*G.Node, error) {
			return G.Im2Col(im, tensor.Shape(l.I(k...)), tensor.Shape(l.I(p...)), tensor.Shape(l.I(s...)), tensor.Shape(l.I(d...)))
		}, false),
		geom("MaxPool2D", func(l *lent, im, fil *G.Node, k, p, s, d []int) (*G.Node, error) {
			return G.MaxPool2D(im, tensor.Shape(l.I(k...)), l.I(p...), l.I(s...))
		}, false),
		geom("AveragePool2D", func(l *lent, im, fil *G.Node, k, p, s, d []int) (*G.Node, error) {
			return G.AveragePool2D(im, tensor.Shape(l.I(k...)), l.I(p...), l.I(s...))
		}, false),
		broad("BroadcastAdd", G.BroadcastAdd, true),
		broad("BroadcastSub", G.BroadcastSub, true),
		broad("BroadcastHadamardProd", G.BroadcastHadamardProd, true),
		broad("BroadcastGt", func(a, b *G.Node, l, r []byte) (*G.Node, error) { return G.BroadcastGt(a, b, true, l, r) }, false),
		{"KeepDims", func(t *pbt.T) ([][]int, call) {
			s := rshape(t, 1, 3)
			ax := t.Below(len(s))
			return [][]int{s}, func(l *lent, in []*G.Node) (*G.Node, error) {
				return G.KeepDims(in[0], false, func(a *G.Node) (*G.Node, error) { return G.Sum(a, l.I(ax)...) })
			}
		}, true},
	}
}

func lists() pbt.Check {
	calls := listCalls()
	return func(t *pbt.T) {
		c := calls[t.Below(len(calls))]
		shapes, call := c.draw(t)
		vals := make([][]float64, len(shapes))
		for i, s := range shapes {
			vals[i] = make([]float64, ref.Prod(s))
			for j := range vals[i] {
				vals[i][j] = t.Dyadic(3, 4)
			}
		}
		grad := c.diff && t.Bool()
		dt := floatDt(t)
		how := t.Int(1, 3)
		twice := t.Chance(1, 4)
		t.Logf("%s of %v %v dtype %v gradient=%v reuse %d twice=%v", c.name, shapes, vals, dt, grad, how, twice)
		t.Label("%s", c.name)
		if len(shapes[0]) > 1 {
			t.NonTrivial()
		}
		var results [2][]string
		for mode := 0; mode < 2; mode++ {
			g := G.NewGraph()
			l := &lent{}
			var in []*G.Node
			for i, s := range shapes {
				n := G.NewTensor(g, dt, len(s), G.WithShape(l.I(s...)...), G.WithName(fmt.Sprintf("x%d", i)))
				in = append(in, n)
			}
			for i, s := range shapes {
				if err := gen.LetVals(in[i], dt, s, vals[i]); err != nil {
					t.Failf("Let: %v", err)
				}
			}
			use := func() {
				if mode == 1 {
					l.reuse(how, in[0])
				}
				*l = lent{}
			}
			step := func(what string, f func() error) {
				err, panicked := pbt.Try(f)
				if err != nil && (panicked || mode == 1) {
					t.Failf("%s (lists reused: %v): %v", what, mode == 1, err)
				}
				if err != nil {
					t.Discard("refused: " + c.name)
				}
				if err := l.changed(); err != nil {
					t.Failf("%s: %v", what, err)
				}
				use()
			}
			use()
			var n *G.Node
			step("the call", func() (err error) { n, err = call(l, in); return })
			if twice {
				var m *G.Node
				step("the call", func() (err error) { m, err = call(l, in); return })
				if m != n {
					t.Failf("the same call made again gives another node (lists reused: %v)", mode == 1)
				}
			}
			read := []*G.Node{n}
			if grad {
				var cost *G.Node
				step("the cost", func() (err error) {
					if cost, err = G.Square(n); err == nil && !n.IsScalar() {
						cost, err = G.Sum(cost)
					}
					return err
				})
				step("the gradient", func() error {
					gs, err := G.Grad(cost, l.N(in...)...)
					read = append(read, gs...)
					return err
				})
			}
			vm := G.NewTapeMachine(g, G.TraceExec())
			if err := gen.RunVM(vm); err != nil {
				vm.Close()
				t.Failf("run (lists reused: %v): %v", mode == 1, err)
			}
			for i, r := range read {
				results[mode] = append(results[mode], fmt.Sprintf("%v %v %v", r.Shape(), r.Value().Shape(), r.Value().Data()))
				if mode == 1 && results[0][i] != results[1][i] {
					vm.Close()
					t.Failf("result %d is %s when the owner reuses the lists and %s when not", i, results[1][i], results[0][i])
				}
			}
			vm.Close()
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID:    "P16",
		Rule:  "A case draws a call that takes lists (axes, shapes, coordinates, window geometry, broadcast patterns, nodes), its parameters and inputs, and builds, differentiates and runs it twice: once with lists left alone and once with lists whose owner writes other things into them after each call. No call may change a list or the spare room behind it, and both runs give the same values and gradients bit by bit. Non-trivial: the first operand has more than one axis.",
		Parts: []pbt.Part{{Name: "lists", Check: lists(), Quick: 240000, Thorough: 800000}},
	})
}
