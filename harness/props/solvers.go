package props

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// param is a parameter with its gradient, outside of any graph.
type param struct {
	name  string
	dt    tensor.Dtype
	shape []int
	v, d  G.Value
}

func (p *param) Value() G.Value           { return p.v }
func (p *param) Grad() (G.Value, error)   { return p.d, nil }
func (p *param) Name() string             { return p.name }
func (p *param) setGrad(g []float64)      { store(p.d, g) }
func (p *param) vals() ([]float64, error) { v, _, _, err := gen.Floats(p.v); return v, err }

func store(v G.Value, g []float64) {
	switch x := v.(type) {
	case *G.F64:
		*x = G.F64(g[0])
	case *G.F32:
		*x = G.F32(g[0])
	case *tensor.Dense:
		switch d := x.Data().(type) {
		case []float64:
			copy(d, g)
		case []float32:
			for i := range d {
				d[i] = float32(g[i])
			}
		default:
			panic(fmt.Sprintf("%T", d))
		}
	}
}

// drawSolver draws a solver and its configuration.
func drawSolver(t *pbt.T, kinds []string) (*ref.SolverCfg, G.Solver) {
	c := &ref.SolverCfg{Kind: kinds[t.Below(len(kinds))], Batch: 1}
	var opts []G.SolverOpt
	c.Eta = 0.001
	if !t.Chance(1, 8) {
		c.Eta = []float64{0.125, 0.5, 0.01, 0.0625}[t.Below(4)]
		opts = append(opts, G.WithLearnRate(c.Eta))
	}
	has := func(k ...string) bool {
		for _, x := range k {
			if x == c.Kind {
				return true
			}
		}
		return false
	}
	if !has("bb") && t.Chance(1, 3) {
		c.L2 = []float64{0.25, 0.03125, 0.5}[t.Below(3)]
		opts = append(opts, G.WithL2Reg(c.L2))
	}
	if has("vanilla", "momentum", "adam", "adamw") {
		if t.Chance(1, 3) {
			c.L1 = []float64{0.25, 0.0625, 1}[t.Below(3)]
			opts = append(opts, G.WithL1Reg(c.L1))
		}
		if t.Chance(1, 3) {
			c.Batch = []float64{2, 4, 3, 10}[t.Below(4)]
			opts = append(opts, G.WithBatchSize(c.Batch))
		}
	}
	if t.Chance(1, 3) {
		c.Clip = []float64{1, 0.5, 2, 0.125}[t.Below(4)]
		opts = append(opts, G.WithClip(c.Clip))
	}
	if has("rmsprop", "adagrad", "adam", "adamw") {
		c.Eps = 1e-8
		if t.Chance(1, 2) {
			c.Eps = []float64{0.125, 0.001, 1e-6}[t.Below(3)]
			opts = append(opts, G.WithEps(c.Eps))
		}
	}
	switch c.Kind {
	case "adam", "adamw":
		c.B1, c.B2, c.WD = 0.9, 0.999, 0.01
		if t.Chance(1, 2) {
			c.B1 = []float64{0.5, 0.75, 0.875}[t.Below(3)]
			opts = append(opts, G.WithBeta1(c.B1))
		}
		if t.Chance(1, 2) {
			c.B2 = []float64{0.5, 0.9, 0.96875}[t.Below(3)]
			opts = append(opts, G.WithBeta2(c.B2))
		}
		if c.Kind == "adamw" && t.Chance(1, 2) {
			c.WD = []float64{0.25, 0.5, 0}[t.Below(3)]
			opts = append(opts, G.WithRho(c.WD))
		}
	case "rmsprop":
		c.Rho = 0.999
		if t.Chance(1, 2) {
			c.Rho = []float64{0.5, 0.75, 0.9}[t.Below(3)]
			opts = append(opts, G.WithRho(c.Rho))
		}
	case "momentum":
		c.Mom = 0.9
		if t.Chance(1, 2) {
			c.Mom = []float64{0.5, 0.25, 0}[t.Below(3)]
			opts = append(opts, G.WithMomentum(c.Mom))
		}
	}
	// the order of options does not matter
	for i := len(opts) - 1; i > 0; i-- {
		j := t.Below(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	switch c.Kind {
	case "vanilla":
		return c, G.NewVanillaSolver(opts...)
	case "momentum":
		return c, G.NewMomentum(opts...)
	case "rmsprop":
		return c, G.NewRMSPropSolver(opts...)
	case "adagrad":
		return c, G.NewAdaGradSolver(opts...)
	case "adam":
		return c, G.NewAdamSolver(opts...)
	case "adamw":
		return c, G.NewAdamW(opts...)
	case "bb":
		return c, G.NewBarzilaiBorweinSolver(opts...)
	}
	panic(c.Kind)
}

func nearZero(w [][]float64) bool {
	for _, x := range w {
		for _, v := range x {
			if math.Abs(v) < 1e-4 {
				return true
			}
		}
	}
	return false
}

var solverKinds = []string{"vanilla", "momentum", "rmsprop", "adagrad", "adam", "adamw", "bb"}

func solverTol(dt tensor.Dtype, scale float64) float64 {
	if dt == tensor.Float32 {
		return 2e-4 * (1 + scale)
	}
	return 1e-9 * (1 + scale)
}

// solverSteps drives a solver through a history of gradients on several
// parameters and compares every element with the scalar update rule.
func solverSteps(t *pbt.T) {
	cfg, sol := drawSolver(t, solverKinds)
	dt := floatDt(t)
	if cfg.Kind == "bb" {
		dt = tensor.Float64
	}
	n := t.Tail(1, 3, 12)
	var model []G.ValueGrad
	var ps []*param
	var w [][]float64
	var st [][]ref.SolverState
	elems := 0
	for i := 0; i < n; i++ {
		lo := 0
		if cfg.Kind == "bb" {
			lo = 1
		}
		b := gen.NewBuilder(t, dt)
		shape := b.RandShape(lo, t.Tail(3, 3, 5))
		k := ref.Prod(shape)
		v := make([]float64, k)
		for j := range v {
			v[j] = t.Dyadic(3, 4)
			if v[j] == 0 {
				v[j] = 0.5 // the sign of a zero weight is a convention
			}
		}
		p := &param{name: fmt.Sprintf("p%d", i), dt: dt, shape: shape, v: gen.Value(dt, shape, v), d: gen.Value(dt, shape, make([]float64, k))}
		ps = append(ps, p)
		model = append(model, p)
		w = append(w, append([]float64(nil), v...))
		st = append(st, make([]ref.SolverState, k))
		elems += k
		t.Logf("p%d %v=%v", i, shape, v)
	}
	t.Logf("%v %+v", dt, *cfg)
	t.Label("solver=%s dtype=%v", cfg.Kind, dt)
	steps := t.Tail(1, 6, 60)
	if elems <= 4 && t.Chance(1, 100) {
		steps = t.Int(60, 400)
		t.Label("many steps")
	}
	if steps > 1 && elems > 1 {
		t.NonTrivial()
	}
	eta := cfg.Eta
	var pw, pg [][]float64
	scale := 8.0
	for it := 1; it <= steps; it++ {
		if cfg.L1 != 0 && nearZero(w) {
			break // the sign of a zero weight is a convention
		}
		gs := make([][]float64, n)
		for i, p := range ps {
			g := make([]float64, len(w[i]))
			for j := range g {
				for try := 0; ; try++ {
					g[j] = t.Dyadic(3, 4)
					if e := cfg.EffGrad(w[i][j], g[j]); g[j] == 0 && e == 0 || math.Abs(e) > 0.01 {
						break
					}
					if try > 8 {
						t.Discard("gradient cancels with the regularisation")
					}
				}
			}
			gs[i] = g
			p.setGrad(g)
			t.Logf("g%d=%v", i, g)
		}
		if cfg.Kind == "bb" && it > 1 {
			num, den := 0.0, 0.0
			for i := range ps {
				for j := range gs[i] {
					dw, dg := w[i][j]-pw[i][j], gs[i][j]-pg[i][j]
					num += dw * dg
					den += dg * dg
				}
			}
			if den == 0 {
				t.Discard("Barzilai-Borwein step with an unchanged gradient")
			}
			eta = num / den
			if cfg.Clip != 0 {
				eta = math.Max(-cfg.Clip, math.Min(cfg.Clip, eta))
			}
		}
		pw, pg = nil, nil
		for i := range w {
			pw = append(pw, append([]float64(nil), w[i]...))
			pg = append(pg, gs[i])
		}
		if err, _ := pbt.Try(func() error { return sol.Step(model) }); err != nil {
			t.Failf("step %d: %v", it, err)
		}
		for i, p := range ps {
			for j := range w[i] {
				if cfg.Kind == "bb" {
					w[i][j] -= eta * gs[i][j]
				} else {
					w[i][j] = cfg.Step(&st[i][j], it, w[i][j], gs[i][j])
				}
				scale = math.Max(scale, math.Abs(w[i][j]))
			}
			if err := gen.SameVal(p.v, p.shape, w[i], solverTol(dt, scale)); err != nil {
				t.Failf("step %d: parameter p%d: %v", it, i, err)
			}
			if err := gen.DtOK(p.v, dt); err != nil {
				t.Failf("step %d: parameter p%d: %v", it, i, err)
			}
			if err := gen.SameVal(p.d, p.shape, make([]float64, len(w[i])), 0); err != nil {
				t.Failf("step %d: gradient of p%d is not cleared: %v", it, i, err)
			}
			// continue from the stored weights, so that errors do not add up
			got, _ := p.vals()
			copy(w[i], got)
		}
		if scale > 1e4 {
			break
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P22",
		Rule: "A case draws a solver with random options, one to three parameters (scalars and tensors, both float widths) and a history of one to six gradients; after every step each element of each parameter is compared with the textbook update rule applied to that element alone with its own state, and the gradients must be cleared. Non-trivial: more than one step and more than one element.",
		Parts: []pbt.Part{
			{Name: "steps", Check: solverSteps, Quick: 640000, Thorough: 4000000},
		}})
}
