package ref

import (
	"fmt"
	"math"
)

// Ten is a row-major tensor; no dimensions means scalar.
type Ten struct {
	Shape []int
	D     []N
}

// Prod is the number of elements of a shape.
func Prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

// New makes a zero tensor.
func New(shape ...int) *Ten {
	return &Ten{append([]int(nil), shape...), make([]N, Prod(shape))}
}

// From makes an exact tensor.
func From(shape []int, v []float64) *Ten {
	t := New(shape...)
	if len(v) != len(t.D) {
		panic(fmt.Sprintf("ref.From %v with %d values", shape, len(v)))
	}
	for i := range v {
		t.D[i] = C(v[i])
	}
	return t
}

// Vals returns the plain values.
func (t *Ten) Vals() []float64 {
	out := make([]float64, len(t.D))
	for i := range t.D {
		out[i] = t.D[i].V
	}
	return out
}

// Exact reports whether all values are exact.
func (t *Ten) Exact() bool {
	for i := range t.D {
		if !t.D[i].X {
			return false
		}
	}
	return true
}

func (t *Ten) String() string { return fmt.Sprintf("%v%v", t.Shape, t.Vals()) }

// Strides of a row-major shape.
func Strides(s []int) []int {
	st := make([]int, len(s))
	n := 1
	for i := len(s) - 1; i >= 0; i-- {
		st[i] = n
		n *= s[i]
	}
	return st
}

// Idx flattens coordinates.
func (t *Ten) Idx(co ...int) int {
	k := 0
	for i, c := range co {
		if c < 0 || c >= t.Shape[i] {
			panic(fmt.Sprintf("ref index %v of %v", co, t.Shape))
		}
		k = k*t.Shape[i] + c
	}
	return k
}

// At reads one element.
func (t *Ten) At(co ...int) N { return t.D[t.Idx(co...)] }

// Set writes one element.
func (t *Ten) Set(v N, co ...int) { t.D[t.Idx(co...)] = v }

// Each walks the coordinates of a shape in row-major order.
func Each(shape []int, f func(co []int, k int)) {
	co := make([]int, len(shape))
	n := Prod(shape)
	for k := 0; k < n; k++ {
		f(co, k)
		for i := len(shape) - 1; i >= 0; i-- {
			co[i]++
			if co[i] < shape[i] {
				break
			}
			co[i] = 0
		}
	}
}

// EqShape compares shapes.
func EqShape(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Clone copies.
func (t *Ten) Clone() *Ten {
	return &Ten{append([]int(nil), t.Shape...), append([]N(nil), t.D...)}
}

// Map applies f to each element.
func (t *Ten) Map(f func(N) N) *Ten {
	r := New(t.Shape...)
	for i := range t.D {
		r.D[i] = f(t.D[i])
	}
	return r
}

// Zip combines two tensors of equal shape, or a scalar with a tensor.
func Zip(a, b *Ten, f func(x, y N) N) *Ten {
	switch {
	case EqShape(a.Shape, b.Shape):
		r := New(a.Shape...)
		for i := range a.D {
			r.D[i] = f(a.D[i], b.D[i])
		}
		return r
	case len(a.Shape) == 0:
		return b.Map(func(y N) N { return f(a.D[0], y) })
	case len(b.Shape) == 0:
		return a.Map(func(x N) N { return f(x, b.D[0]) })
	}
	panic(fmt.Sprintf("ref.Zip %v %v", a.Shape, b.Shape))
}

// BroadcastTo repeats size-1 axes up to shape (same number of dimensions).
func (t *Ten) BroadcastTo(shape []int) *Ten {
	r := New(shape...)
	co2 := make([]int, len(shape))
	Each(shape, func(co []int, k int) {
		for i := range co {
			co2[i] = co[i]
			if t.Shape[i] == 1 {
				co2[i] = 0
			}
		}
		r.D[k] = t.At(co2...)
	})
	return r
}

// Reshape keeps the elements.
func (t *Ten) Reshape(shape ...int) *Ten {
	if Prod(shape) != len(t.D) {
		panic("ref reshape")
	}
	return &Ten{append([]int(nil), shape...), append([]N(nil), t.D...)}
}

// Transpose permutes axes: result axis i is input axis p[i].
func (t *Ten) Transpose(p ...int) *Ten {
	shape := make([]int, len(p))
	for i := range p {
		shape[i] = t.Shape[p[i]]
	}
	r := New(shape...)
	src := make([]int, len(p))
	Each(shape, func(co []int, k int) {
		for i := range p {
			src[p[i]] = co[i]
		}
		r.D[k] = t.At(src...)
	})
	return r
}

// Reduce folds over a set of axes; the axes disappear from the shape.
func (t *Ten) Reduce(axes []int, f func(xs []N) N) *Ten {
	drop := map[int]bool{}
	for _, a := range axes {
		drop[a] = true
	}
	var shape []int
	for i, d := range t.Shape {
		if !drop[i] {
			shape = append(shape, d)
		}
	}
	groups := make([][]N, Prod(shape))
	out := New(shape...)
	Each(t.Shape, func(co []int, k int) {
		var o []int
		for i := range co {
			if !drop[i] {
				o = append(o, co[i])
			}
		}
		j := out.Idx(o...)
		groups[j] = append(groups[j], t.D[k])
	})
	for j := range groups {
		out.D[j] = f(groups[j])
	}
	return out
}

// SumN adds a list.
func (c *Ctx) SumN(xs []N) N {
	s := N{X: true}
	for _, x := range xs {
		s = c.Add(s, x)
	}
	return s
}

// MaxN is the maximum; equal maxima are a tie for derivatives.
func (c *Ctx) MaxN(xs []N, what string) N {
	m := xs[0]
	for _, x := range xs[1:] {
		if c.Cmp(x, m, what) > 0 {
			m = x
		}
	}
	n := 0
	for _, x := range xs {
		if x.V == m.V {
			n++
		}
	}
	if n > 1 {
		c.Tie = what
	}
	return m
}

// Axis applies a vector function along one axis.
func (t *Ten) Axis(axis int, f func(xs []N) []N) *Ten {
	r := New(t.Shape...)
	st := Strides(t.Shape)
	n := t.Shape[axis]
	Each(t.Shape, func(co []int, k int) {
		if co[axis] != 0 {
			return
		}
		xs := make([]N, n)
		for i := range xs {
			xs[i] = t.D[k+i*st[axis]]
		}
		ys := f(xs)
		for i := range ys {
			r.D[k+i*st[axis]] = ys[i]
		}
	})
	return r
}

// Softmax of a vector.
func (c *Ctx) Softmax(xs []N) []N {
	m := math.Inf(-1)
	for _, x := range xs {
		m = math.Max(m, x.V)
	}
	es := make([]N, len(xs))
	for i, x := range xs {
		es[i] = c.Exp(c.Sub(x, N{V: m, X: x.X}))
	}
	s := c.SumN(es)
	for i := range es {
		es[i] = c.Div(es[i], s)
	}
	return es
}

// LogSumExp of a vector.
func (c *Ctx) LogSumExp(xs []N) N {
	m := math.Inf(-1)
	for _, x := range xs {
		m = math.Max(m, x.V)
	}
	var es []N
	for _, x := range xs {
		es = append(es, c.Exp(c.Sub(x, C(m))))
	}
	return c.Add(c.Log(c.SumN(es)), C(m))
}
