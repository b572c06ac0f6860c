package gen

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/ref"
)

func reduction(name string, g func(a *G.Node, along ...int) (*G.Node, error), f func(c *ref.Ctx, xs []ref.N) ref.N) Spec {
	return Spec{name, func(b *Builder) *Step {
		x := b.Dims(1, b.top())
		d := len(b.Shape(x))
		axes := b.Axes(d)
		all := b.T.Chance(1, 4)
		if all {
			axes = nil
			for i := 0; i < d; i++ {
				axes = append(axes, i)
			}
		}
		return &Step{Op: name, Args: fmt.Sprintf("{axes=%v implicit=%v}", axes, all), In: []int{x},
			Build: func(in []*G.Node) (*G.Node, error) {
				if all {
					return g(in[0])
				}
				return g(in[0], append([]int(nil), axes...)...)
			},
			Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
				return in[0].Reduce(axes, func(xs []ref.N) ref.N { return f(c, xs) })
			}}
	}}
}

// Reductions.
var (
	Sum  = reduction("Sum", G.Sum, func(c *ref.Ctx, xs []ref.N) ref.N { return c.SumN(xs) })
	Mean = reduction("Mean", G.Mean, func(c *ref.Ctx, xs []ref.N) ref.N { return c.Div(c.SumN(xs), ref.C(float64(len(xs)))) })
	Max  = reduction("Max", G.Max, func(c *ref.Ctx, xs []ref.N) ref.N { return c.MaxN(xs, "max") })
)

// Norm2 is the Euclidean norm along an axis.
var Norm2 = Spec{"Norm2", func(b *Builder) *Step {
	x := b.Dims(1, 3)
	ax := b.T.Below(len(b.Shape(x)))
	return &Step{Op: "Norm", Args: fmt.Sprintf("{axis=%d p=2}", ax), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Norm(in[0], ax, 2) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Reduce([]int{ax}, func(xs []ref.N) ref.N {
				s := ref.N{X: true}
				for _, v := range xs {
					s = c.Add(s, c.Mul(v, v))
				}
				return c.Sqrt(s)
			})
		}}
}}

// NormP is the p-norm along an axis for other p.
var NormP = Spec{"NormP", func(b *Builder) *Step {
	x := b.Dims(1, 3)
	ax := b.T.Below(len(b.Shape(x)))
	p := []int{4, 1, 3, 6, 5, 7}[b.T.Below(6)]
	return &Step{Op: "Norm", Args: fmt.Sprintf("{axis=%d p=%d}", ax, p), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Norm(in[0], ax, p) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Reduce([]int{ax}, func(xs []ref.N) ref.N {
				s := ref.N{X: true}
				for _, v := range xs {
					if v.V < 0 {
						v = c.Neg(v)
					} else if v.V == 0 {
						c.Tie = "norm at 0"
					}
					q := v
					for i := 1; i < p; i++ {
						q = c.Mul(q, v)
					}
					s = c.Add(s, q)
				}
				if p == 1 {
					return s
				}
				return powN(c, s, ref.C(1/float64(p)))
			})
		}}
}}

// LogSumExp along an axis.
var LogSumExp = Spec{"LogSumExp", func(b *Builder) *Step {
	x := b.Dims(1, 3)
	ax := b.T.Below(len(b.Shape(x)))
	return &Step{Op: "LogSumExp", Args: fmt.Sprintf("{axis=%d}", ax), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.LogSumExp(in[0], ax) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Reduce([]int{ax}, func(xs []ref.N) ref.N { return c.LogSumExp(xs) })
		}}
}}

func softmaxLike(name string, g func(x *G.Node, axis ...int) (*G.Node, error), f func(c *ref.Ctx, xs []ref.N) []ref.N) Spec {
	return Spec{name, func(b *Builder) *Step {
		x := b.Dims(1, b.top())
		d := len(b.Shape(x))
		ax := d - 1
		def := b.T.Chance(1, 3)
		if !def {
			ax = b.T.Below(d)
		}
		if s := b.Shape(x); def && d == 2 && s[1] == 1 && name != "Sparsemax" {
			ax = 0 // a column vector is normalised as a vector
		}
		return &Step{Op: name, Args: fmt.Sprintf("{axis=%d default=%v}", ax, def), In: []int{x},
			Build: func(in []*G.Node) (*G.Node, error) {
				if def {
					return g(in[0])
				}
				return g(in[0], ax)
			},
			Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
				for _, v := range in[0].D {
					if math.Abs(v.V) > 40 {
						c.Domain = "the tensor library stabilises all rows by the first one's values"
						return in[0]
					}
				}
				return in[0].Axis(ax, func(xs []ref.N) []ref.N { return f(c, xs) })
			}}
	}}
}

// Softmax family.
var (
	SoftMax    = softmaxLike("SoftMax", G.SoftMax, func(c *ref.Ctx, xs []ref.N) []ref.N { return c.Softmax(xs) })
	LogSoftMax = softmaxLike("LogSoftMax", G.LogSoftMax, func(c *ref.Ctx, xs []ref.N) []ref.N {
		l := c.LogSumExp(xs)
		out := make([]ref.N, len(xs))
		for i := range xs {
			out[i] = c.Sub(xs[i], l)
		}
		return out
	})
	Sparsemax = softmaxLike("Sparsemax", G.Sparsemax, sparsemax)
)

// sparsemax is the Euclidean projection on the simplex.
func sparsemax(c *ref.Ctx, xs []ref.N) []ref.N {
	n := len(xs)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := 1; i < n; i++ {
		for j := i; j > 0 && xs[idx[j]].V > xs[idx[j-1]].V; j-- {
			idx[j], idx[j-1] = idx[j-1], idx[j]
		}
	}
	k, sum := 0, ref.N{X: true}
	cum := ref.N{X: true}
	for i := 0; i < n; i++ {
		cum = c.Add(cum, xs[idx[i]])
		lhs := c.Add(ref.C(1), c.Mul(ref.C(float64(i+1)), xs[idx[i]]))
		s := c.Cmp(lhs, cum, "sparsemax support")
		if s == 0 {
			c.Tie = "sparsemax support"
		}
		if s > 0 {
			k, sum = i+1, cum
		}
	}
	tau := c.Div(c.Sub(sum, ref.C(1)), ref.C(float64(k)))
	out := make([]ref.N, n)
	in := map[int]bool{}
	for i := 0; i < k; i++ {
		in[idx[i]] = true
	}
	for i := range xs {
		if in[i] {
			out[i] = c.Sub(xs[i], tau)
		} else {
			out[i] = ref.N{X: true}
		}
	}
	return out
}

// factor draws a shape of n elements.
func factor(b *Builder, n, dims int) []int {
	s := make([]int, dims)
	for i := 0; i < dims-1; i++ {
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		s[i] = ds[b.T.Below(len(ds))]
		n /= s[i]
	}
	s[dims-1] = n
	return s
}

// Reshape to a shape of the same size, sometimes with one inferred dimension.
var Reshape = Spec{"Reshape", func(b *Builder) *Step {
	x := b.Dims(0, b.top())
	n := len(b.Ten(x).D)
	to := factor(b, n, b.T.Int(1, 4))
	if n == 1 && len(b.Shape(x)) > 0 && b.T.Bool() {
		to = nil
	}
	infer := -1
	if len(to) > 0 && b.T.Chance(1, 4) {
		infer = b.T.Below(len(to))
	}
	return &Step{Op: "Reshape", Args: fmt.Sprintf("{%v infer=%d}", to, infer), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			s := append(tensor.Shape(nil), to...)
			if infer >= 0 {
				s[infer] = -1
			}
			return G.Reshape(in[0], s)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return in[0].Reshape(to...) }}
}}

// Ravel flattens.
var Ravel = Spec{"Ravel", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	return &Step{Op: "Ravel", In: []int{x}, Build: un(G.Ravel),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return in[0].Reshape(len(in[0].D)) }}
}}

// Transpose permutes axes.
var Transpose = Spec{"Transpose", func(b *Builder) *Step {
	x := b.Dims(2, b.top())
	d := len(b.Shape(x))
	p := b.T.Perm(d)
	def := b.T.Chance(1, 4)
	if def {
		for i := range p {
			p[i] = d - 1 - i
		}
	}
	return &Step{Op: "Transpose", Args: fmt.Sprintf("{%v default=%v}", p, def), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			if def {
				return G.Transpose(in[0])
			}
			return G.Transpose(in[0], append([]int(nil), p...)...)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return in[0].Transpose(p...) }}
}}

type slc struct {
	all              bool
	start, end, step int
	single           bool
}

// SliceOf slices every axis by a range, an index or not at all. Axes sliced to
// a single element disappear.
var SliceOf = Spec{"Slice", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	s := b.Shape(x)
	n := b.T.Int(1, len(s))
	sl := make([]slc, n)
	for i := range sl {
		switch b.T.Below(4) {
		case 0:
			sl[i] = slc{all: true, start: 0, end: s[i], step: 1}
		case 1:
			k := b.T.Below(s[i])
			sl[i] = slc{start: k, end: k + 1, step: 1, single: true}
		default:
			st := b.T.Below(s[i])
			en := b.T.Int(st+1, s[i])
			sl[i] = slc{start: st, end: en, step: 1}
			// the tensor library only defines steps that divide the length; a
			// step beyond the end leaves the first element
			if k := 2 + b.T.Below(2); ((en-st)%k == 0 || k > en-st && en-st > 1) && b.T.Chance(2, 3) {
				sl[i].step = k
			}
		}
	}
	desc := ""
	for i := range sl {
		if sl[i].all {
			desc += " :"
		} else {
			desc += fmt.Sprintf(" %d:%d:%d", sl[i].start, sl[i].end, sl[i].step)
		}
	}
	return &Step{Op: "Slice", Args: "{" + desc + "}", In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			ss := make([]tensor.Slice, n)
			for i, q := range sl {
				switch {
				case q.all:
					ss[i] = nil
				case q.single:
					ss[i] = G.S(q.start)
				case q.step > 1:
					ss[i] = G.S(q.start, q.end, q.step)
				default:
					ss[i] = G.S(q.start, q.end)
				}
			}
			return G.Slice(in[0], ss...)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return sliceRef(in[0], sl) }}
}}

func sliceRef(t *ref.Ten, sl []slc) *ref.Ten {
	var shape []int
	var keep []int
	starts := make([]int, len(t.Shape))
	steps := make([]int, len(t.Shape))
	for i := range t.Shape {
		n := t.Shape[i]
		steps[i] = 1
		drop := false
		if i < len(sl) && !sl[i].all {
			starts[i] = sl[i].start
			steps[i] = sl[i].step
			n = (sl[i].end - sl[i].start + sl[i].step - 1) / sl[i].step
			drop = n == 1
		}
		if !drop {
			shape = append(shape, n)
			keep = append(keep, i)
		}
	}
	r := ref.New(shape...)
	src := make([]int, len(t.Shape))
	ref.Each(shape, func(co []int, k int) {
		copy(src, starts)
		for j, i := range keep {
			src[i] = starts[i] + co[j]*steps[i]
		}
		r.D[k] = t.At(src...)
	})
	return r
}

// Concat joins two to three values along an axis.
var Concat = Spec{"Concat", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	s := b.Shape(x)
	ax := b.T.Below(len(s))
	in := []int{x}
	n := b.T.Tail(1, 2, 8)
	for i := 0; i < n; i++ {
		sy := append([]int(nil), s...)
		sy[ax] = b.T.Int(1, 3)
		in = append(in, b.Want(sy...))
	}
	return &Step{Op: "Concat", Args: fmt.Sprintf("{axis=%d}", ax), In: in,
		Build: func(in []*G.Node) (*G.Node, error) { return G.Concat(ax, in...) },
		Ref:   func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return concatRef(ax, in) }}
}}

func concatRef(ax int, in []*ref.Ten) *ref.Ten {
	shape := append([]int(nil), in[0].Shape...)
	shape[ax] = 0
	for _, t := range in {
		shape[ax] += t.Shape[ax]
	}
	r := ref.New(shape...)
	off := 0
	for _, t := range in {
		dst := make([]int, len(shape))
		ref.Each(t.Shape, func(co []int, k int) {
			copy(dst, co)
			dst[ax] += off
			r.Set(t.D[k], dst...)
		})
		off += t.Shape[ax]
	}
	return r
}

// UnconcatOne splits along an axis and keeps one part.
var UnconcatOne = Spec{"Unconcat", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	s := b.Shape(x)
	ax := b.T.Below(len(s))
	var ds []int
	for d := 1; d <= s[ax]; d++ {
		if s[ax]%d == 0 {
			ds = append(ds, d)
		}
	}
	n := ds[b.T.Below(len(ds))]
	k := b.T.Below(n)
	sl := make([]slc, len(s))
	for i := range s {
		sl[i] = slc{start: 0, end: s[i], step: 1}
	}
	w := s[ax] / n
	sl[ax] = slc{start: k * w, end: (k + 1) * w, step: 1}
	return &Step{Op: "Unconcat", Args: fmt.Sprintf("{axis=%d n=%d part=%d}", ax, n, k), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			ns, err := G.Unconcat(in[0], ax, n)
			if err != nil {
				return nil, err
			}
			if len(ns) != n {
				return nil, fmt.Errorf("Unconcat into %d parts gave %d", n, len(ns))
			}
			return ns[k], nil
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return sliceRef(in[0], sl) }}
}}

// AtOp picks an element.
var AtOp = Spec{"At", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	s := b.Shape(x)
	co := make([]int, len(s))
	for i := range co {
		co[i] = b.T.Below(s[i])
	}
	return &Step{Op: "At", Args: fmt.Sprintf("{%v}", co), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.At(in[0], append([]int(nil), co...)...) },
		Ref:   func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return &ref.Ten{D: []ref.N{in[0].At(co...)}} }}
}}

// ByIndices selects along an axis.
var ByIndices = Spec{"ByIndices", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	s := b.Shape(x)
	ax := b.T.Below(len(s))
	if len(s) > 2 {
		ax = 0 // the tensor library cannot select along an inner axis of these
	}
	if b.Grad {
		// the tensor library's gradient is only right on an outer axis
		if len(s) < 2 {
			return nil
		}
		ax = 0
	}
	if ref.Prod(s) < 2 {
		return nil
	}
	n := b.T.Int(1, 4)
	ix := make([]int, n)
	for i := range ix {
		ix[i] = b.T.Below(s[ax])
	}
	return &Step{Op: "ByIndices", Args: fmt.Sprintf("{axis=%d %v}", ax, ix), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			iv := tensor.New(tensor.WithShape(n), tensor.WithBacking(append([]int(nil), ix...)))
			idx := G.NewVector(in[0].Graph(), tensor.Int, G.WithShape(n), G.WithName(fmt.Sprintf("idx%v", ix)), G.WithValue(iv))
			return G.ByIndices(in[0], idx, ax)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			shape := append([]int(nil), s...)
			shape[ax] = n
			r := ref.New(shape...)
			src := make([]int, len(s))
			ref.Each(shape, func(co []int, k int) {
				copy(src, co)
				src[ax] = ix[co[ax]]
				r.D[k] = in[0].At(src...)
			})
			return r
		}}
}}

// DiagFlat puts a vector on a diagonal.
var DiagFlat = Spec{"DiagFlat", func(b *Builder) *Step {
	x := b.Dims(1, 3)
	if n := len(b.Ten(x).D); n > 5 || n < 2 {
		return nil
	}
	return &Step{Op: "DiagFlat", In: []int{x}, Build: un(G.DiagFlat),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			n := len(in[0].D)
			r := ref.New(n, n)
			for i := range r.D {
				r.D[i].X = true
			}
			for i := 0; i < n; i++ {
				r.Set(in[0].D[i], i, i)
			}
			return r
		}}
}}

// Upsample2D repeats rows and columns.
var Upsample2D = Spec{"Upsample2D", func(b *Builder) *Step {
	x := b.Dims(4, 4)
	k := b.T.Int(1, 3)
	return &Step{Op: "Upsample2D", Args: fmt.Sprintf("{%d}", k), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.Upsample2D(in[0], k) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			s := in[0].Shape
			r := ref.New(s[0], s[1], s[2]*k, s[3]*k)
			ref.Each(r.Shape, func(co []int, i int) { r.D[i] = in[0].At(co[0], co[1], co[2]/k, co[3]/k) })
			return r
		}}
}}

// ReduceAdd and ReduceMul fold a list.
var ReduceAdd = Spec{"ReduceAdd", func(b *Builder) *Step { return fold(b, "ReduceAdd") }}

// ReduceMul multiplies scalars.
var ReduceMul = Spec{"ReduceMul", func(b *Builder) *Step { return fold(b, "ReduceMul") }}

func fold(b *Builder, name string) *Step {
	var x int
	if name == "ReduceMul" {
		x = b.Want()
	} else {
		x = b.Any()
	}
	in := []int{x}
	n := b.T.Tail(0, 3, 12)
	for i := 0; i < n; i++ {
		in = append(in, b.Want(b.Shape(x)...))
	}
	return &Step{Op: name, In: in,
		Build: func(in []*G.Node) (*G.Node, error) {
			if name == "ReduceAdd" {
				return G.ReduceAdd(append(G.Nodes(nil), in...))
			}
			return G.ReduceMul(append(G.Nodes(nil), in...))
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := in[0]
			for _, t := range in[1:] {
				if name == "ReduceAdd" {
					r = ref.Zip(r, t, c.Add)
				} else {
					r = ref.Zip(r, t, c.Mul)
				}
			}
			return r
		}}
}

// KeepDims wraps a reduction so that the reduced axis stays with size one.
var KeepDims = Spec{"KeepDims", func(b *Builder) *Step {
	x := b.Dims(2, b.top())
	s := b.Shape(x)
	left := b.T.Bool()
	ax := len(s) - 1
	if left {
		ax = 0
	}
	which := b.T.Below(3)
	name := []string{"Sum", "Mean", "Max"}[which]
	return &Step{Op: "KeepDims" + name, Args: fmt.Sprintf("{left=%v axis=%d}", left, ax), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.KeepDims(in[0], left, func(a *G.Node) (*G.Node, error) {
				switch which {
				case 0:
					return G.Sum(a, ax)
				case 1:
					return G.Mean(a, ax)
				}
				return G.Max(a, ax)
			})
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := in[0].Reduce([]int{ax}, func(xs []ref.N) ref.N {
				switch which {
				case 0:
					return c.SumN(xs)
				case 1:
					return c.Div(c.SumN(xs), ref.C(float64(len(xs))))
				}
				return c.MaxN(xs, "max")
			})
			shape := append([]int(nil), in[0].Shape...)
			shape[ax] = 1
			return r.Reshape(shape...)
		}}
}}

// BinaryXent is the element-wise binary cross entropy of probabilities.
var BinaryXent = Spec{"BinaryXent", func(b *Builder) *Step {
	s := b.RandShape(0, 3)
	n := ref.Prod(s)
	o, t := make([]float64, n), make([]float64, n)
	for i := range o {
		o[i] = float64(b.T.Int(1, 15)) / 16
		t[i] = float64(b.T.Int(0, 4)) / 4
	}
	x := -1
	if b.T.Bool() {
		// of a prediction made in the graph
		k := b.Pick(func(k []int) bool { return ref.EqShape(k, s) })
		if k < 0 {
			k = b.Leaf(s...)
		}
		if b.Push(&Step{Op: "Sigmoid", In: []int{k}, Build: un(G.Sigmoid), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return in[0].Map(c.Sigmoid) }}) {
			x = b.Last()
		}
	}
	if x < 0 {
		x = b.LeafVals(s, o, false)
	}
	y := b.LeafVals(s, t, false)
	return &Step{Op: "BinaryXent", In: []int{x, y}, Build: bi(G.BinaryXent),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return ref.Zip(in[0], in[1], func(o, t ref.N) ref.N {
				one := ref.C(1)
				return c.Neg(c.Add(c.Mul(t, c.Log(o)), c.Mul(c.Sub(one, t), c.Log(c.Sub(one, o)))))
			})
		}}
}}

var _ = math.Pi

// ConvType converts to integers and back, which truncates.
var ConvType = Spec{"ConvType", func(b *Builder) *Step {
	x := b.Dims(0, b.top())
	dt := b.P.Dt
	return &Step{Op: "ConvType", Args: "{to int and back}", In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			i, err := G.ConvType(in[0], dt, tensor.Int)
			if err != nil {
				return nil, err
			}
			return G.ConvType(i, tensor.Int, dt)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Map(func(x ref.N) ref.N { return step(c, x, math.Trunc(x.V), "trunc") })
		}}
}}

// SizeOf is the length of an axis.
var SizeOf = Spec{"SizeOf", func(b *Builder) *Step {
	x := b.Dims(1, b.top())
	ax := b.T.Below(len(b.Shape(x)))
	return &Step{Op: "SizeOf", Args: fmt.Sprintf("{axis=%d}", ax), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.SizeOf(ax, in[0]) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return &ref.Ten{D: []ref.N{{V: float64(in[0].Shape[ax]), X: true}}}
		}}
}}
