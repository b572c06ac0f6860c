package gen

import (
	G "gorgonia.org/gorgonia"

	"verif/harness/ref"
)

// one finds or makes a constant 1.
func one(b *Builder) int {
	if b.T.Chance(3, 4) {
		for i, v := range b.P.Vals {
			if v.Leaf != nil && v.Leaf.Const && len(v.Leaf.Shape) == 0 && v.Leaf.Vals[0] == 1 {
				return i
			}
		}
	}
	return b.LeafVals(nil, []float64{1}, true)
}

func withOne(name string, g func(a, b *G.Node) (*G.Node, error), first bool, f func(c *ref.Ctx, x ref.N) ref.N) Spec {
	return Spec{name, func(b *Builder) *Step {
		x := b.Any()
		if x < 0 {
			x = b.Leaf(b.RandShape(0, 2)...)
		}
		in := []int{x, one(b)}
		k := 0
		if first {
			in[0], in[1] = in[1], in[0]
			k = 1
		}
		return &Step{Op: name, In: in, Build: bi(g), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[k].Map(func(x ref.N) ref.N { return f(c, x) })
		}}
	}}
}

// RewriteSpecs are the operations whose combinations the library rewrites.
func RewriteSpecs() []Spec {
	plus := func(c *ref.Ctx, x ref.N) ref.N { return c.Add(x, ref.C(1)) }
	out := []Spec{
		withOne("Add(1,x)", G.Add, true, plus),
		withOne("Add(x,1)", G.Add, false, plus),
		withOne("Sub(1,x)", G.Sub, true, func(c *ref.Ctx, x ref.N) ref.N { return c.Sub(ref.C(1), x) }),
		withOne("Sub(x,1)", G.Sub, false, func(c *ref.Ctx, x ref.N) ref.N { return c.Sub(x, ref.C(1)) }),
		SoftMax, SoftMax,
	}
	for _, d := range UnaryDefs {
		switch d.name {
		case "Log", "Log1p":
			out = append(out, Unary(d), Unary(d), Unary(d))
		case "Neg", "Sigmoid", "Exp":
			out = append(out, Unary(d), Unary(d))
		case "Softplus", "Expm1", "Square":
			out = append(out, Unary(d))
		}
	}
	for _, d := range BinaryDefs {
		if d.name == "HadamardProd" || d.name == "Sub" {
			out = append(out, Binary(d), SameShape(d))
		}
	}
	return out
}

// NearRewriteSpecs are operations that stand where a rewritten one could but
// must not be taken for it.
func NearRewriteSpecs() (out []Spec) {
	for _, d := range UnaryDefs {
		switch d.name {
		case "Abs", "Sign", "Ceil", "Floor", "Rectify":
		default:
			out = append(out, Unary(d))
		}
	}
	return append(out, LogSoftMax)
}
