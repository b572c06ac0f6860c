package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// ctcItem is one sequence of a batch.
type ctcItem struct {
	steps  int
	target []int
}

// ctcSum adds up the probabilities of all ways to read the target off the
// first steps, and for every step and label those that take the label there.
func ctcSum(lp func(t, c int) float64, labels int, it ctcItem) (total float64, at [][]float64) {
	at = make([][]float64, it.steps)
	for t := range at {
		at[t] = make([]float64, labels)
	}
	path := make([]int, it.steps)
	var walk func(t int, sum float64)
	walk = func(t int, sum float64) {
		if t == it.steps {
			k, last := 0, 0
			for _, c := range path {
				if c != 0 && c != last {
					if k == len(it.target) || it.target[k] != c {
						return
					}
					k++
				}
				last = c
			}
			if k != len(it.target) {
				return
			}
			p := math.Exp(sum)
			total += p
			for t, c := range path {
				at[t][c] += p
			}
			return
		}
		for c := 0; c < labels; c++ {
			path[t] = c
			walk(t+1, sum+lp(t, c))
		}
	}
	walk(0, 0)
	return
}

// ctcLoss is one loss over a batch.
type ctcLoss struct {
	items       []ctcItem
	flat        bool
	width       int
	red         G.Reduction
	scale       float64
	ta, il, tl  *G.Node
	node        *G.Node
	val         G.Value
	targets     []int
	steps, lens []int
}

func (l *ctcLoss) draw(t *pbt.T, T, B, L int) {
	l.items, l.targets, l.steps, l.lens = nil, nil, nil, nil
	for b := 0; b < B; b++ {
		it := ctcItem{steps: t.Int(1, T)}
		need, last := 0, 0
		for k := t.Int(0, l.width); k > 0; k-- {
			c := t.Int(1, L-1)
			d := 1
			if c == last {
				d = 2
			}
			if need+d > it.steps {
				break
			}
			need, last = need+d, c
			it.target = append(it.target, c)
		}
		l.targets = append(l.targets, it.target...)
		for k := len(it.target); !l.flat && k < l.width; k++ {
			l.targets = append(l.targets, t.Below(L)) // beyond the length
		}
		l.items = append(l.items, it)
		l.steps, l.lens = append(l.steps, it.steps), append(l.lens, len(it.target))
	}
}

func (l *ctcLoss) shape() []int {
	if l.flat {
		return []int{len(l.targets)}
	}
	return []int{len(l.items), l.width}
}

func intTensor(shape, v []int) *tensor.Dense {
	return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(append([]int(nil), v...)))
}

func ctc(t *pbt.T) {
	dt := floatDt(t)
	T, B, L := t.Tail(1, 5, 9), t.Tail(1, 3, 6), t.Tail(2, 4, 6)
	g := G.NewGraph()
	norm := t.Chance(2, 3) // a softmax goes before
	grad := norm && t.Chance(3, 4)
	losses := make([]*ctcLoss, 1)
	if t.Chance(1, 3) {
		losses = make([]*ctcLoss, 2)
	}
	for i := range losses {
		l := &ctcLoss{flat: t.Bool(), width: t.Tail(1, 4, 6), red: G.ReductionSum, scale: []float64{1, 1, -0.5, 3}[t.Below(4)]}
		if t.Chance(1, 3) {
			l.red = G.ReductionMean
			if grad {
				t.Exclude("gradient of a mean (known finding ctc-mean-gradient)")
			}
			grad = false
		}
		l.draw(t, T, B, L)
		if len(l.targets) == 0 {
			t.Discard("all targets are empty")
		}
		losses[i] = l
	}
	xs := make([]float64, T*B*L)
	drawX := func() {
		for i := range xs {
			xs[i] = t.Dyadic(3, 4)
			if !norm {
				xs[i] = -math.Abs(xs[i])
			}
		}
	}
	drawX()
	ints := func(name string, i int, shape, v []int) *G.Node {
		return G.NewTensor(g, tensor.Int, len(shape), G.WithShape(shape...), G.WithName(fmt.Sprint(name, i)), G.WithValue(intTensor(shape, v)))
	}
	shape := []int{T, B, L}
	x := gen.NewLeaf(g, dt, "x", shape, xs)
	lp := x
	if norm {
		var err error
		if lp, err = G.LogSoftMax(x, 2); err != nil {
			t.Failf("LogSoftMax: %v", err)
		}
	}
	var cost *G.Node
	for i, l := range losses {
		l.ta, l.il, l.tl = ints("targets", i, l.shape(), l.targets), ints("steps", i, []int{B}, l.steps), ints("lengths", i, []int{B}, l.lens)
		var err error
		if l.node, err = G.CTCLoss(lp, l.ta, l.il, l.tl, l.red); err != nil {
			t.Failf("CTCLoss: %v", err)
		}
		if !l.node.IsScalar() {
			t.Failf("the loss has shape %v", l.node.Shape())
		}
		G.Read(l.node, &l.val)
		c := l.node
		if l.scale != 1 {
			k := G.NewConstant(l.scale)
			if dt == tensor.Float32 {
				k = G.NewConstant(float32(l.scale))
			}
			if c, err = G.Mul(c, k); err != nil {
				t.Failf("Mul: %v", err)
			}
		}
		if cost == nil {
			cost = c
		} else if cost, err = G.Add(cost, c); err != nil {
			t.Failf("Add: %v", err)
		}
	}
	var gradV, costV G.Value
	G.Read(cost, &costV)
	if grad {
		gn, err := G.Grad(cost, x)
		if err != nil {
			t.Failf("Grad: %v", err)
		}
		G.Read(gn[0], &gradV)
	}
	m := forwardMachines[t.Below(3)]
	if grad {
		m = forwardMachines[t.Below(2)]
	}
	vm := m.mk(g)
	defer vm.Close()
	t.Label("machine=%s dtype=%v", m.name, dt)
	t.Label("losses=%d grad=%v", len(losses), grad)
	runs := t.Int(1, 2)
	for r := 0; r < runs; r++ {
		t.Logf("%v x%v=%v softmax=%v grad=%v on %s", dt, shape, xs, norm, grad, m.name)
		want := 0.0
		wants := make([]float64, len(losses))
		wantG := make([]float64, len(xs))
		for i, l := range losses {
			t.Logf("targets %v%v steps %v lengths %v reduction %v times %v", l.shape(), l.targets, l.steps, l.lens, l.red, l.scale)
			for b, it := range l.items {
				q := make([]float64, T*L)
				for t := 0; t < T; t++ {
					row := xs[(t*B+b)*L : (t*B+b+1)*L]
					s := 0.0
					for _, v := range row {
						s += math.Exp(v)
					}
					for c, v := range row {
						q[t*L+c] = v
						if norm {
							q[t*L+c] = v - math.Log(s)
						}
					}
				}
				total, at := ctcSum(func(t, c int) float64 { return q[t*L+c] }, L, it)
				nll := -math.Log(total)
				if l.red == G.ReductionMean {
					nll /= math.Max(1, float64(len(it.target))) * float64(B)
				}
				wants[i] += nll
				for t := 0; t < it.steps; t++ {
					for c := 0; c < L; c++ {
						wantG[(t*B+b)*L+c] += l.scale * (math.Exp(q[t*L+c]) - at[t][c]/total)
					}
				}
				if len(it.target) > 1 {
					t.NonTrivial()
				}
			}
			want += l.scale * wants[i]
		}
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run: %v", err)
		}
		tol := 1e-9
		if dt == tensor.Float32 {
			tol = 1e-4
		}
		for i, l := range losses {
			if err := gen.SameVal(l.val, []int{}, wants[i:i+1], tol*(1+math.Abs(wants[i]))); err != nil {
				t.Failf("loss %d: %v", i, err)
			}
			if err := gen.DtOK(l.val, dt); err != nil {
				t.Failf("loss %d: %v", i, err)
			}
			if err := sameInts(l.ta.Value(), l.targets); err != nil {
				t.Failf("the targets changed: %v", err)
			}
		}
		if err := gen.SameVal(costV, []int{}, []float64{want}, 10*tol*(1+math.Abs(want))); err != nil {
			t.Failf("sum of losses: %v", err)
		}
		if err := gen.SameVal(x.Value(), shape, xs, 0); err != nil {
			t.Failf("the input changed: %v", err)
		}
		if grad {
			if err := gen.SameVal(gradV, shape, wantG, tol*10); err != nil {
				t.Failf("gradient: %v", err)
			}
		}
		if r+1 == runs {
			break
		}
		vm.Reset()
		if t.Bool() {
			drawX()
			if err := gen.LetVals(x, dt, shape, xs); err != nil {
				t.Failf("Let: %v", err)
			}
		}
		for _, l := range losses {
			if l.flat || t.Bool() {
				continue
			}
			l.draw(t, T, B, L)
			for n, v := range map[*G.Node]*tensor.Dense{l.ta: intTensor(l.shape(), l.targets), l.il: intTensor([]int{B}, l.steps), l.tl: intTensor([]int{B}, l.lens)} {
				if err := G.Let(n, v); err != nil {
					t.Failf("Let: %v", err)
				}
			}
		}
	}
}

// probeMeanGradient is the known finding: the gradient of a mean is that of the
// sum.
func probeMeanGradient() error {
	g := G.NewGraph()
	x := gen.NewLeaf(g, tensor.Float64, "x", []int{1, 2, 2}, []float64{0, 0, 0, 0})
	ints := func(name string, shape []int, v ...int) *G.Node {
		return G.NewTensor(g, tensor.Int, len(shape), G.WithShape(shape...), G.WithName(name), G.WithValue(intTensor(shape, v)))
	}
	lp, err := G.LogSoftMax(x, 2)
	if err != nil {
		return nil
	}
	loss, err := G.CTCLoss(lp, ints("targets", []int{2, 1}, 1, 1), ints("steps", []int{2}, 1, 1), ints("lengths", []int{2}, 1, 1), G.ReductionMean)
	if err != nil {
		return nil
	}
	gn, err := G.Grad(loss, x)
	if err != nil {
		return nil
	}
	m := G.NewTapeMachine(g)
	defer m.Close()
	if err := m.RunAll(); err != nil {
		return nil
	}
	return gen.SameVal(gn[0].Value(), []int{1, 2, 2}, []float64{0.25, -0.25, 0.25, -0.25}, 1e-9)
}

func sameInts(v G.Value, want []int) error {
	if got, ok := v.Data().([]int); !ok || fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%v, want %v", v.Data(), want)
	}
	return nil
}

// crossEntropy checks gradients of the binary cross entropy on either machine.
func crossEntropy(t *pbt.T) {
	aux := smooth(gen.PointwiseSpecs())
	b := gen.NewBuilder(t, floatDt(t))
	lisp := t.Chance(1, 2)
	b.Grad, b.NoOneElem = true, lisp
	seedLeaves(b, 0, 3)
	n := 0
	for k := t.Int(1, 2); k > 0; k-- {
		if t.Chance(1, 3) {
			tryPush(b, aux[t.Below(len(aux))], 2)
		}
		if tryPush(b, gen.BinaryXent, 3) {
			n++
		}
	}
	if n == 0 {
		t.Discard("nothing was applicable")
	}
	if t.Chance(1, 3) {
		tryPush(b, aux[t.Below(len(aux))], 2)
	}
	cost := costOf(b, true)
	p, cost := b.P.Prune(cost)
	t.Label("lisp=%v dtype=%v", lisp, p.Dt)
	if p.NumSteps() > 3 {
		t.NonTrivial()
	}
	if lisp {
		t.Logf("%s on lisp", p)
		lispGrads(t, p, cost)
		return
	}
	mode := tapeGradModes[t.Below(len(tapeGradModes))]
	t.Logf("%s mode %s", p, mode)
	tapeGrads(t, p, cost, mode)
}

func init() {
	pbt.Register(&pbt.Property{ID: "P35",
		Rule:   "A case is a batch of one to three sequences of one to five steps over two to four labels with one or two connectionist temporal classification losses, whose value and gradient are compared with adding up the probability of every path that reads as the target; or a program with a binary cross entropy, whose values and gradients on both machines are compared with the definition. Non-trivial: a target of at least two labels; more than one element; more than three operations.",
		Probes: []pbt.Probe{{Name: "ctc-mean-gradient", Run: probeMeanGradient}},
		Parts: []pbt.Part{
			{Name: "alignments", Check: ctc, Quick: 80000, Thorough: 2000000},
			{Name: "cross entropy", Check: forward(func() []gen.Spec { return []gen.Spec{gen.BinaryXent} }, 0, 3), Quick: 60000, Thorough: 1000000},
			{Name: "cross entropy gradients", Check: crossEntropy, Quick: 60000, Thorough: 1000000},
		}})
}
