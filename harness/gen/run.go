package gen

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// RunVM runs a machine once, turning panics into errors.
func RunVM(m G.VM) error {
	err, p := pbt.Try(m.RunAll)
	if p {
		return fmt.Errorf("RunAll %v", err)
	}
	return err
}

// Weighted appends cost = Sum(out * w) for value i, mostly with a fresh weight
// leaf, sometimes with one used before or with none, and returns the index of
// the cost.
func (b *Builder) Weighted(i int) int {
	s := b.Shape(i)
	if len(s) > 0 && b.P.varies(i) && b.T.Chance(1, 4) {
		// the plain sum: its gradient is the same for all values of a shape
		if b.Push(SumStep(i)) {
			return b.Last()
		}
	}
	w := -1
	if k := len(b.weights); k > 0 && b.T.Chance(1, 3) {
		if u := b.weights[b.T.Below(k)]; ref.EqShape(b.Shape(u), s) {
			w = u
		}
	}
	if w < 0 {
		w = b.LeafVals(s, nonzero(b, ref.Prod(s)), false)
		b.weights = append(b.weights, w)
	}
	ok := b.Push(&Step{Op: "HadamardProd", In: []int{i, w}, Build: bi(G.HadamardProd), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
		return ref.Zip(in[0], in[1], c.Mul)
	}})
	p := b.Last()
	if !ok {
		b.T.Discard("values too large to weight")
	}
	if len(s) == 0 {
		return p
	}
	if !b.Push(SumStep(p)) {
		b.T.Discard("values too large to sum")
	}
	return b.Last()
}

// SumStep adds up the elements of value i.
func SumStep(i int) *Step {
	return &Step{Op: "Sum", In: []int{i}, Build: func(in []*G.Node) (*G.Node, error) { return G.Sum(in[0]) }, Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
		return &ref.Ten{D: []ref.N{c.SumN(in[0].D)}}
	}}
}

func nonzero(b *Builder, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = float64(b.T.Int(1, 8)) / 4
		if b.T.Chance(1, 3) {
			v[i] = -v[i]
		}
	}
	return v
}

// Gradients returns d cost / d leaf for each given leaf, and the scale seen.
func (p *Prog) Gradients(cost int, wrt []int) (map[int][]float64, *ref.Ctx) {
	out := map[int][]float64{}
	ctx := &ref.Ctx{Margin: Margin(p.Dt)}
	for _, l := range wrt {
		n := len(p.Vals[l].Ten.D)
		g := make([]float64, n)
		for k := 0; k < n; k++ {
			t := ref.From(p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals)
			t.D[k].A = 1
			r := p.Eval(ctx, map[int]*ref.Ten{l: t})
			g[k] = r[cost].D[0].A
		}
		out[l] = g
	}
	return out, ctx
}

// Prune returns the part of the program that value keep depends on, and the
// new index of keep.
func (p *Prog) Prune(keep int) (*Prog, int) {
	q, at := p.PruneMap(keep)
	return q, at[keep]
}

// Needs says which values value keep depends on, itself included.
func (p *Prog) Needs(keep int) []bool {
	need := make([]bool, len(p.Vals))
	need[keep] = true
	for i := len(p.Vals) - 1; i >= 0; i-- {
		if need[i] && p.Vals[i].Step != nil {
			for _, k := range p.Vals[i].Step.In {
				need[k] = true
			}
		}
	}
	return need
}

// PruneMap is Prune, and gives the new index of every value, or -1.
func (p *Prog) PruneMap(keep int) (*Prog, []int) {
	need := p.Needs(keep)
	q := &Prog{Dt: p.Dt}
	at := make([]int, len(p.Vals))
	for i, v := range p.Vals {
		if !need[i] {
			at[i] = -1
			continue
		}
		at[i] = len(q.Vals)
		w := Val{Ten: v.Ten}
		if v.Leaf != nil {
			l := *v.Leaf
			if !l.Const {
				l.Name = fmt.Sprintf("v%d", at[i])
			}
			w.Leaf = &l
		} else {
			s := *v.Step
			s.In = make([]int, len(v.Step.In))
			for j, k := range v.Step.In {
				s.In[j] = at[k]
				q.Vals[at[k]].Uses++
			}
			w.Step = &s
		}
		q.Vals = append(q.Vals, w)
	}
	return q, at
}

// AddStep adds two values.
func AddStep(x, y int) *Step {
	return &Step{Op: "Add", In: []int{x, y}, Build: bi(G.Add), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
		return ref.Zip(in[0], in[1], c.Add)
	}}
}

// MulStep multiplies two values element by element.
func MulStep(x, y int) *Step {
	return &Step{Op: "HadamardProd", In: []int{x, y}, Build: bi(G.HadamardProd), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
		return ref.Zip(in[0], in[1], c.Mul)
	}}
}

// Overwrite writes new numbers into the memory of a value.
func Overwrite(v G.Value, vals []float64) {
	switch x := v.(type) {
	case *G.F64:
		*x = G.F64(vals[0])
	case *G.F32:
		*x = G.F32(vals[0])
	case tensor.Tensor:
		for i, d := range vals {
			if s, ok := x.Data().([]float64); ok {
				s[i] = d
			} else {
				x.Data().([]float32)[i] = float32(d)
			}
		}
	}
}

// varies says whether value i depends on an input.
func (p *Prog) varies(i int) bool {
	v := p.Vals[i]
	if v.Leaf != nil {
		return !v.Leaf.Const
	}
	for _, j := range v.Step.In {
		if p.varies(j) {
			return true
		}
	}
	return false
}
