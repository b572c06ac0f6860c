package gen

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// Builder grows a program.
type Builder struct {
	T                 *pbt.T
	P                 *Prog
	Grad              bool // reject steps whose derivative is a matter of convention
	MaxElems          int
	NoConst           bool
	Scale             float64
	Skipped           map[string]int
	ForbidConstTensor bool
	Big               bool  // draw long axes
	Wide              bool  // operands of five dimensions as well
	NoOneElem         bool  // reject steps with tensors of exactly one element
	weights           []int // leaves Weighted made
}

// NewBuilder starts an empty program.
func NewBuilder(t *pbt.T, dt tensor.Dtype) *Builder {
	return &Builder{T: t, P: &Prog{Dt: dt}, MaxElems: 36, Scale: 1, Skipped: map[string]int{}}
}

// Ten is the current value of index i.
func (b *Builder) Ten(i int) *ref.Ten { return b.P.Vals[i].Ten }

// Shape of value i.
func (b *Builder) Shape(i int) []int { return b.P.Vals[i].Ten.Shape }

// Dyadic values are exact in both float widths.
func (b *Builder) Values(n int) []float64 {
	v := make([]float64, n)
	// some leaves stay positive or away from zero, so that logs, roots and
	// quotients are in domain; some use the whole mantissa, some are large
	kind := b.T.Below(10)
	if b.P.Dt != tensor.Float32 && b.P.Dt != tensor.Float64 {
		kind = 6
	}
	for i := range v {
		v[i] = b.T.Dyadic(3, 4)
		k := kind
		if kind == 9 {
			k = 6 + b.T.Below(3)
		}
		switch {
		case k == 4 && v[i] == 0:
			v[i] = 0.5
		case k == 5:
			v[i] = math.Abs(v[i]) + 0.25
		case k == 6:
			v[i] = math.Trunc(v[i])
		case k == 7 && b.P.Dt == tensor.Float32:
			v[i] += float64(b.T.Below(1<<8)) / (1 << 16)
		case k == 7:
			v[i] += float64(b.T.Below(1<<16)) / (1 << 36)
		case k == 8 && b.P.Dt == tensor.Float32:
			v[i] *= 8
		case k == 8:
			v[i] *= 16
		}
		switch b.P.Dt {
		case tensor.Uint8:
			v[i] = math.Abs(v[i])
		case tensor.Bool:
			v[i] = math.Min(1, math.Abs(v[i]))
		}
	}
	return v
}

// Leaf adds a fresh variable.
func (b *Builder) Leaf(shape ...int) int { return b.LeafVals(shape, b.Values(ref.Prod(shape)), false) }

// LeafVals adds a leaf with given values.
func (b *Builder) LeafVals(shape []int, vals []float64, isConst bool) int {
	i := len(b.P.Vals)
	l := &Leaf{Name: fmt.Sprintf("v%d", i), Shape: append([]int(nil), shape...), Vals: vals, Const: isConst}
	b.P.Vals = append(b.P.Vals, Val{Leaf: l, Ten: ref.From(shape, vals)})
	return i
}

// MaybeConst adds a variable or, sometimes, a constant.
func (b *Builder) MaybeConst(shape ...int) int {
	if !b.NoConst && b.T.Chance(1, 5) && !(b.ForbidConstTensor && len(shape) > 0) {
		return b.LeafVals(shape, b.Values(ref.Prod(shape)), true)
	}
	return b.Leaf(shape...)
}

// Pick returns an existing float value satisfying pred, preferring recent
// ones, or -1.
func (b *Builder) Pick(pred func(s []int) bool) int {
	var c []int
	for i := len(b.P.Vals) - 1; i >= 0; i-- {
		v := b.P.Vals[i]
		if v.Step != nil && (v.Step.Bool || v.Step.Final) {
			continue
		}
		if pred(v.Ten.Shape) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	// half the time among the two most recent
	if len(c) > 2 && b.T.Bool() {
		return c[b.T.Below(2)]
	}
	return c[b.T.Below(len(c))]
}

// Want returns an existing value of the shape or a fresh leaf.
func (b *Builder) Want(shape ...int) int {
	if b.T.Chance(2, 3) {
		if i := b.Pick(func(s []int) bool { return ref.EqShape(s, shape) }); i >= 0 {
			return i
		}
	}
	return b.MaybeConst(shape...)
}

// Any picks any float value.
func (b *Builder) Any() int { return b.Pick(func([]int) bool { return true }) }

// Dims picks a value with the given number of dimensions or makes a leaf.
func (b *Builder) Dims(lo, hi int) int {
	if b.T.Chance(3, 4) {
		if i := b.Pick(func(s []int) bool { return len(s) >= lo && len(s) <= hi }); i >= 0 {
			return i
		}
	}
	return b.Leaf(b.RandShape(lo, hi)...)
}

// top is the number of dimensions operands may have. Broadcasting, and with it
// the gradients of some reductions, is documented to stop at four.
func (b *Builder) top() int {
	if b.Wide {
		return 5
	}
	return 4
}

// RandShape draws a shape.
func (b *Builder) RandShape(lo, hi int) []int {
	if hi == 5 && lo < 5 && !b.T.Chance(1, 4) {
		hi = 4 // rarely more
	}
	d := b.T.Int(lo, hi)
	s := make([]int, d)
	for i := range s {
		m := 4
		switch {
		case d == 1:
			m = 7
		case d >= 3:
			m = 3
		}
		if b.Big {
			m = []int{0, 70, 14, 6, 4, 3}[d]
		}
		s[i] = 2 + b.T.Below(m-1)
		if b.T.Chance(1, 5) {
			s[i] = 1
		}
	}
	return s
}

// Axes draws a non-empty subset of axes, ascending.
func (b *Builder) Axes(d int) []int {
	m := b.T.Int(1, 1<<d-1)
	var out []int
	for i := 0; i < d; i++ {
		if m>>i&1 == 1 {
			out = append(out, i)
		}
	}
	return out
}

// Push evaluates and appends a step unless the reference cannot vouch for it.
func (b *Builder) Push(s *Step) bool {
	if s == nil {
		return false
	}
	if s.Op == "Log" {
		// known finding softmax-then-log: the softmax itself changes value
		v := b.P.Vals[s.In[0]]
		for v.Step != nil && len(v.Step.In) == 1 && (v.Step.Op == "ReduceAdd" || v.Step.Op == "ReduceMul") {
			v = b.P.Vals[v.Step.In[0]] // of one operand: the same node
		}
		if v.Step != nil && v.Step.Op == "SoftMax" {
			b.T.Exclude("Log directly of a SoftMax (known finding softmax-then-log)")
			return false
		}
	}
	c := &ref.Ctx{Margin: Margin(b.P.Dt), Scale: b.Scale}
	in := make([]*ref.Ten, len(s.In))
	for j, k := range s.In {
		in[j] = b.P.Vals[k].Ten
	}
	out := s.Ref(c, in)
	if bad := c.Bad(); bad != "" {
		b.Skipped[s.Op+" "+bad]++
		return false
	}
	if b.Grad && c.Tie != "" {
		b.Skipped[s.Op+" tie:"+c.Tie]++
		return false
	}
	if c.Scale > MaxScale(b.P.Dt) {
		b.Skipped[s.Op+" scale"]++
		return false
	}
	if len(out.D) > b.MaxElems || len(out.D) == 0 {
		b.Skipped[s.Op+" size"]++
		return false
	}
	if b.NoOneElem {
		one := len(out.D) == 1 && len(out.Shape) > 0
		for _, t := range in {
			one = one || len(t.D) == 1 && len(t.Shape) > 0
		}
		if one {
			b.Skipped[s.Op+" one element"]++
			return false
		}
	}
	b.Scale = c.Scale
	for _, k := range s.In {
		b.P.Vals[k].Uses++
	}
	b.P.Vals = append(b.P.Vals, Val{Step: s, Ten: out})
	return true
}

// Last is the index of the newest value.
func (b *Builder) Last() int { return len(b.P.Vals) - 1 }

// Spec is one catalogue entry.
type Spec struct {
	Name string
	Make func(b *Builder) *Step
}

func un(f func(*G.Node) (*G.Node, error)) func([]*G.Node) (*G.Node, error) {
	return func(in []*G.Node) (*G.Node, error) { return f(in[0]) }
}
func bi(f func(a, b *G.Node) (*G.Node, error)) func([]*G.Node) (*G.Node, error) {
	return func(in []*G.Node) (*G.Node, error) { return f(in[0], in[1]) }
}
