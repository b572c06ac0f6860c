package gen

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	nnops "gorgonia.org/gorgonia/ops/nn"

	"verif/harness/ref"
)

// normInput picks what is normalised: (batch, features) or (batch, channels, height, width).
func (b *Builder) normInput() int {
	ok := func(s []int) bool { return (len(s) == 2 || len(s) == 4) && ref.Prod(s) > 1 }
	if b.T.Chance(2, 3) && (b.MaxElems <= 300 || b.T.Chance(1, 3)) {
		if i := b.Pick(ok); i >= 0 {
			return i
		}
	}
	if b.T.Chance(1, 3) {
		return b.LeafDistinct(b.T.Int(2, 5), b.T.Int(1, 5))
	}
	if b.MaxElems > 300 && b.T.Chance(1, 2) {
		n, c, h, w := b.T.Int(1, 2), b.T.Int(1, 3), b.T.Int(5, 19), b.T.Int(5, 19)
		for n*c*h*w > b.MaxElems {
			switch {
			case n > 1:
				n--
			case c > 1:
				c--
			default:
				h--
			}
		}
		return b.LeafDistinct(n, c, h, w)
	}
	if b.T.Chance(1, 3) {
		return b.LeafDistinct(1, b.T.Int(1, 3), b.T.Int(2, 7), b.T.Int(2, 7))
	}
	return b.LeafDistinct(b.T.Int(1, 3), b.T.Int(1, 4), b.T.Int(1, 3), b.T.Int(1, 3))
}

// perChannel is the shape of a parameter with one value per channel.
func perChannel(s []int) []int {
	p := make([]int, len(s))
	for i := range p {
		p[i] = 1
	}
	p[1] = s[1]
	return p
}

func (b *Builder) normParam(s []int) int {
	if b.T.Chance(1, 4) {
		return b.Want(s...)
	}
	return b.Want(perChannel(s)...)
}

// Moments of the elements for which group returns the same key.
func moments(c *ref.Ctx, x *ref.Ten, keys int, key func(co []int) int) (mean, variance []ref.N) {
	n := make([]int, keys)
	mean, variance = make([]ref.N, keys), make([]ref.N, keys)
	for i := range mean {
		mean[i], variance[i] = ref.C(0), ref.C(0)
	}
	ref.Each(x.Shape, func(co []int, i int) {
		k := key(co)
		mean[k] = c.Add(mean[k], x.D[i])
		n[k]++
	})
	for k := range mean {
		mean[k] = c.Div(mean[k], ref.C(float64(n[k])))
	}
	ref.Each(x.Shape, func(co []int, i int) {
		k := key(co)
		d := c.Sub(x.D[i], mean[k])
		variance[k] = c.Add(variance[k], c.Mul(d, d))
	})
	for k := range variance {
		variance[k] = c.Div(variance[k], ref.C(float64(n[k])))
		if variance[k].V < 0.02 {
			c.Domain = "variance near zero"
		}
	}
	return
}

// Normalise is scale·(x−mean)/√(variance+ε)+bias.
func normalise(c *ref.Ctx, x, scale, bias *ref.Ten, mean, variance []ref.N, eps float64, key func(co []int) int) *ref.Ten {
	inv := make([]ref.N, len(mean))
	for k := range inv {
		inv[k] = c.Inv(c.Sqrt(c.Add(variance[k], ref.C(eps))))
	}
	sc, bi := scale.BroadcastTo(x.Shape), bias.BroadcastTo(x.Shape)
	r := ref.New(x.Shape...)
	ref.Each(x.Shape, func(co []int, i int) {
		k := key(co)
		v := c.Mul(c.Sub(x.D[i], mean[k]), inv[k])
		r.D[i] = c.Add(c.Mul(sc.D[i], v), bi.D[i])
	})
	return r
}

// BatchStats are the batch moments of every channel.
func BatchStats(c *ref.Ctx, x *ref.Ten) (mean, variance []ref.N) {
	return moments(c, x, x.Shape[1], func(co []int) int { return co[1] })
}

// BatchNormWith normalises with given moments per channel.
func BatchNormWith(c *ref.Ctx, x, scale, bias *ref.Ten, mean, variance []ref.N, eps float64) *ref.Ten {
	return normalise(c, x, scale, bias, mean, variance, eps, func(co []int) int { return co[1] })
}

var epsilons = []float64{1e-5, 1e-3, 0.03, 0.25}

// BatchNorm is batch normalisation in training mode.
var BatchNorm = Spec{"BatchNorm", func(b *Builder) *Step {
	x := b.normInput()
	s := b.Shape(x)
	sc, bi := b.normParam(s), b.normParam(s)
	eps := epsilons[b.T.Below(len(epsilons))]
	mom := []float64{0.9, 0.5, 0.1, 0.95}[b.T.Below(4)]
	nn := b.T.Chance(1, 4) // by way of the other package
	return &Step{Op: "BatchNorm", Args: fmt.Sprintf("{momentum=%v eps=%v}", mom, eps), In: []int{x, sc, bi},
		Build: func(in []*G.Node) (*G.Node, error) {
			if nn {
				n, _, _, _, err := nnops.BatchNorm(in[0], in[1], in[2], mom, eps)
				return n, err
			}
			n, _, _, _, err := G.BatchNorm(in[0], in[1], in[2], mom, eps)
			return n, err
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			m, v := BatchStats(c, in[0])
			return BatchNormWith(c, in[0], in[1], in[2], m, v, eps)
		}}
}}

// GroupNorm normalises groups of channels of every batch item.
var GroupNorm = Spec{"GroupNorm", func(b *Builder) *Step {
	x := b.normInput()
	s := b.Shape(x)
	var div []int
	for g := 1; g <= s[1]; g++ {
		if s[1]%g == 0 {
			div = append(div, g)
		}
	}
	groups := div[b.T.Below(len(div))]
	sc, bi := b.normParam(s), b.normParam(s)
	eps := epsilons[b.T.Below(len(epsilons))]
	return &Step{Op: "GroupNorm", Args: fmt.Sprintf("{groups=%d eps=%v}", groups, eps), In: []int{x, sc, bi},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.GroupNorm(in[0], in[1], in[2], groups, s[1], eps)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			key := func(co []int) int { return co[0]*groups + co[1]/(s[1]/groups) }
			m, v := moments(c, in[0], s[0]*groups, key)
			return normalise(c, in[0], in[1], in[2], m, v, eps, key)
		}}
}}

// NormSpecs are normalisation layers.
func NormSpecs() []Spec { return []Spec{BatchNorm, GroupNorm} }
