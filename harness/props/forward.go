package props

import (
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func concat(fs ...func() []gen.Spec) func() []gen.Spec {
	return func() []gen.Spec {
		var out []gen.Spec
		for _, f := range fs {
			out = append(out, f()...)
		}
		return out
	}
}

func both(f func(bool) []gen.Spec) func() []gen.Spec {
	return func() []gen.Spec { return append(f(false), f(true)...) }
}

// softmaxThenLog is the known finding: taking the logarithm of a softmax node
// that nothing uses yet turns that node itself into the log-softmax.
func softmaxThenLog() error {
	g := G.NewGraph()
	x := G.NewVector(g, tensor.Float64, G.WithShape(2), G.WithName("x"), G.WithValue(tensor.New(tensor.WithBacking([]float64{0, 0}))))
	p, err := G.SoftMax(x)
	if err != nil {
		return nil
	}
	if _, err = G.Log(p); err != nil {
		return nil
	}
	m := G.NewTapeMachine(g)
	defer m.Close()
	if err := m.RunAll(); err != nil {
		return nil
	}
	return gen.SameVal(p.Value(), []int{2}, []float64{0.5, 0.5}, 1e-9)
}

func init() {
	pbt.Register(&pbt.Property{ID: "P01", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(gen.PointwiseSpecs, 0, 5), Quick: 800000, Thorough: 6000000},
		{Name: "integers", Check: integers(false, false), Quick: 160000, Thorough: 1000000},
		{Name: "extreme", Check: extremeValues, Quick: 240000, Thorough: 3000000},
	}})
	pbt.Register(&pbt.Property{ID: "P02", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(both(gen.CompareSpecs), 0, 4), Quick: 480000, Thorough: 4000000},
		{Name: "integers", Check: integers(true, false), Quick: 160000, Thorough: 1000000},
		{Name: "close", Check: floatComparisons, Quick: 160000, Thorough: 2000000},
	}})
	pbt.Register(&pbt.Property{ID: "P03", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(concat(gen.BroadcastSpecs, both(gen.BroadcastCmpSpecs)), 1, 4), Quick: 300000, Thorough: 5000000},
		{Name: "integers", Check: integers(false, true), Quick: 40000, Thorough: 1000000},
		{Name: "integer comparisons", Check: integers(true, true), Quick: 40000, Thorough: 1000000},
	}})
	pbt.Register(&pbt.Property{ID: "P04", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(gen.LinalgSpecs, 0, 4), Quick: 600000, Thorough: 5000000},
	}})
	pbt.Register(&pbt.Property{ID: "P05", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(gen.ReductionSpecs, 1, 5), Quick: 600000, Thorough: 5000000},
		{Name: "other types", Check: whole(gen.WholeReductionSpecs, 1, 5, tensor.Int, tensor.Int32, tensor.Int64), Quick: 160000, Thorough: 1000000},
	}})
	pbt.Register(&pbt.Property{ID: "P06", Rule: fwdRule, Probes: []pbt.Probe{{Name: "softmax-then-log", Run: softmaxThenLog}}, Parts: []pbt.Part{
		{Name: "ops", Check: forward(gen.SoftmaxSpecs, 1, 5), Quick: 900000, Thorough: 5000000},
	}})
	pbt.Register(&pbt.Property{ID: "P07", Rule: fwdRule, Parts: []pbt.Part{
		{Name: "ops", Check: forward(gen.ShapeSpecs, 1, 5), Quick: 800000, Thorough: 6000000},
		{Name: "other types", Check: whole(gen.WholeShapeSpecs, 1, 5, tensor.Int, tensor.Int32, tensor.Int64, tensor.Uint8, tensor.Bool), Quick: 160000, Thorough: 1000000},
	}})
}
