package gen

import (
	"fmt"
	"sort"
	"sync/atomic"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/ref"
)

// Misfit is a call that its operands do not allow. Make draws operands into b
// and returns the call; nil when nothing could be drawn.
type Misfit struct {
	Name string
	Make func(b *Builder) *Bad
}

// Bad is one drawn call.
type Bad struct {
	What string
	In   []int
	Call func(in []*G.Node) error
}

func bad2(name string, f func(a, b *G.Node) (*G.Node, error), x, y int, what string) *Bad {
	return &Bad{What: fmt.Sprintf("%s(v%d, v%d) %s", name, x, y, what), In: []int{x, y}, Call: func(in []*G.Node) error { _, err := f(in[0], in[1]); return err }}
}

func bad1(name string, x int, f func(a *G.Node) (*G.Node, error), what string) *Bad {
	return &Bad{What: fmt.Sprintf("%s(v%d) %s", name, x, what), In: []int{x}, Call: func(in []*G.Node) error { _, err := f(in[0]); return err }}
}

// clash changes a shape in one place.
func (b *Builder) clash(s []int) []int {
	s = append([]int(nil), s...)
	k := b.T.Below(len(s))
	s[k] += 1 + b.T.Below(2)
	return s
}

func (b *Builder) outside(d int) int {
	if b.T.Bool() {
		return -1 - b.T.Below(2)
	}
	return d + b.T.Below(3)
}

var serial int64

// Misfits lists the ways to call an operation wrongly.
func Misfits() []Misfit {
	var ms []Misfit
	fresh := func(s string) string { return fmt.Sprint(s, atomic.AddInt64(&serial, 1)) }
	add := func(name string, mk func(b *Builder) *Bad) { ms = append(ms, Misfit{name, mk}) }
	bins := map[string]func(a, b *G.Node) (*G.Node, error){
		"Add": G.Add, "Sub": G.Sub, "HadamardProd": G.HadamardProd, "HadamardDiv": G.HadamardDiv, "Pow": G.Pow, "Div": G.Div,
		"MinBetween": G.MinBetween, "MaxBetween": G.MaxBetween,
		"Gt":  func(a, b *G.Node) (*G.Node, error) { return G.Gt(a, b, true) },
		"Lte": func(a, b *G.Node) (*G.Node, error) { return G.Lte(a, b, false) },
		"Eq":  func(a, b *G.Node) (*G.Node, error) { return G.Eq(a, b, false) },
	}
	for _, n := range []string{"Add", "Sub", "HadamardProd", "HadamardDiv", "Pow", "Div", "MinBetween", "MaxBetween", "Gt", "Lte", "Eq"} {
		n, f := n, bins[n]
		add(n+" of shapes that differ", func(b *Builder) *Bad {
			x := b.Dims(1, 4)
			return bad2(n, f, x, b.Leaf(b.clash(b.Shape(x))...), "")
		})
		add(n+" of ranks that differ", func(b *Builder) *Bad {
			x := b.Dims(1, 4)
			s := append(append([]int(nil), b.Shape(x)...), 2+b.T.Below(2))
			y := b.Leaf(s...)
			if b.T.Bool() {
				x, y = y, x
			}
			return bad2(n, f, x, y, "")
		})
	}
	other := func(b *Builder) tensor.Dtype {
		dts := []tensor.Dtype{tensor.Int, tensor.Int64, tensor.Int32, tensor.Float32, tensor.Float64}
		dt := dts[b.T.Below(len(dts))]
		if dt == b.P.Dt {
			dt = tensor.Int
		}
		return dt
	}
	bins["Mul"] = G.Mul
	bins["BinaryXent"] = G.BinaryXent
	for _, n := range []string{"Add", "Sub", "HadamardProd", "HadamardDiv", "Pow", "Div", "MinBetween", "MaxBetween", "Gt", "Lte", "Eq", "Mul", "BinaryXent"} {
		n, f := n, bins[n]
		add(n+" of types that differ", func(b *Builder) *Bad {
			var s []int
			if n != "MinBetween" && n != "MaxBetween" && b.T.Bool() {
				s = []int{}
			} else {
				s = b.RandShape(1, 3)
			}
			if n == "Mul" {
				k := b.T.Int(1, 3)
				s = []int{k, k}
				if b.T.Bool() {
					s = []int{k}
				}
			}
			x := b.Leaf(s...)
			dt := other(b)
			swap := b.T.Bool()
			vals := make([]float64, ref.Prod(s))
			for i := range vals {
				vals[i] = 1
			}
			return bad1(n, x, func(a *G.Node) (*G.Node, error) {
				y := NewLeaf(a.Graph(), dt, fresh("other"), s, vals)
				if swap {
					return f(y, a)
				}
				return f(a, y)
			}, fmt.Sprint(dt, swap))
		})
		add(n+" across graphs", func(b *Builder) *Bad {
			k := b.T.Int(1, 3)
			s := []int{k, k}
			if n != "Mul" && b.T.Bool() {
				s = b.RandShape(1, 3)
			}
			x := b.Leaf(s...)
			vals := make([]float64, ref.Prod(s))
			for i := range vals {
				vals[i] = 1
			}
			return bad1(n, x, func(a *G.Node) (*G.Node, error) { return f(a, NewLeaf(G.NewGraph(), b.P.Dt, fresh("far"), s, vals)) }, "")
		})
	}
	add("Mul of sizes that differ", func(b *Builder) *Bad {
		n := b.T.Int(1, 4)
		m := n + 1 + b.T.Below(2)
		o := 1 + b.T.Below(4)
		p := 1 + b.T.Below(4)
		var x, y int
		switch b.T.Below(4) {
		case 0:
			x, y = b.Leaf(o, n), b.Leaf(m, p)
		case 1:
			x, y = b.Leaf(o, m), b.Leaf(n, p)
		case 2:
			x, y = b.Leaf(o, n), b.Leaf(m)
		case 3:
			x, y = b.Leaf(n), b.Leaf(m)
		}
		return bad2("Mul", G.Mul, x, y, "")
	})
	add("Mul of vector and matrix that differ", func(b *Builder) *Bad {
		n := b.T.Int(2, 4)
		m := n + 1 + b.T.Below(2)
		return bad2("Mul", G.Mul, b.Leaf(n), b.Leaf(m, 1+b.T.Below(4)), "")
	})
	add("BatchedMatMul of sizes that differ", func(b *Builder) *Bad {
		ba, n, o, p := b.T.Int(1, 3), b.T.Int(1, 3), b.T.Int(1, 3), b.T.Int(1, 3)
		ta, tb := b.T.Bool(), b.T.Bool()
		s, u := []int{ba, o, n}, []int{ba, n + 1, p}
		if ta {
			s = []int{ba, n, o}
		}
		if tb {
			u = []int{ba, p, n + 1}
		}
		return bad2("BatchedMatMul", func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y, ta, tb) }, b.Leaf(s...), b.Leaf(u...), fmt.Sprint(ta, tb))
	})
	add("BatchedMatMul of batches that differ", func(b *Builder) *Bad {
		ba, n, o, p := b.T.Int(1, 3), b.T.Int(1, 3), b.T.Int(1, 3), b.T.Int(1, 3)
		return bad2("BatchedMatMul", func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y) }, b.Leaf(ba, o, n), b.Leaf(ba+1, n, p), "")
	})
	add("Tensordot of sizes that differ", func(b *Builder) *Bad {
		x := b.Dims(2, 3)
		s := append([]int(nil), b.Shape(x)...)
		ax := b.T.Below(len(s))
		y := b.Leaf(s[ax]+1+b.T.Below(2), b.T.Int(2, 3))
		return bad2("Tensordot", func(x, y *G.Node) (*G.Node, error) { return G.Tensordot([]int{ax}, []int{0}, x, y) }, x, y, fmt.Sprint(ax, 0))
	})
	add("Tensordot along an axis outside", func(b *Builder) *Bad {
		x, y := b.Leaf(b.RandShape(2, 3)...), b.Leaf(b.RandShape(2, 3)...)
		ax := b.outside(len(b.Shape(x)))
		return bad2("Tensordot", func(x, y *G.Node) (*G.Node, error) { return G.Tensordot([]int{ax}, []int{0}, x, y) }, x, y, fmt.Sprint(ax, 0))
	})
	add("Tensordot with axis lists of different length", func(b *Builder) *Bad {
		n := b.T.Int(2, 3)
		x, y := b.Leaf(n, n, 2), b.Leaf(n, n, 2)
		return bad2("Tensordot", func(x, y *G.Node) (*G.Node, error) { return G.Tensordot([]int{0, 1}, []int{0}, x, y) }, x, y, "")
	})
	add("OuterProd of matrices", func(b *Builder) *Bad {
		return bad2("OuterProd", G.OuterProd, b.Leaf(b.RandShape(2, 2)...), b.Leaf(b.RandShape(2, 2)...), "")
	})
	for _, r := range []struct {
		n string
		f func(a *G.Node, along ...int) (*G.Node, error)
	}{{"Sum", G.Sum}, {"Max", G.Max}, {"Mean", G.Mean},
		{"Norm", func(a *G.Node, along ...int) (*G.Node, error) { return G.Norm(a, along[0], 2) }},
		{"LogSumExp", func(a *G.Node, along ...int) (*G.Node, error) { return G.LogSumExp(a, along[0]) }},
		{"SizeOf", func(a *G.Node, along ...int) (*G.Node, error) { return G.SizeOf(along[0], a) }},
	} {
		r := r
		add(r.n+" along an axis outside", func(b *Builder) *Bad {
			x := b.Dims(1, 4)
			ax := b.outside(len(b.Shape(x)))
			return bad1(r.n, x, func(a *G.Node) (*G.Node, error) { return r.f(a, ax) }, fmt.Sprint(ax))
		})
	}
	for _, r := range []struct {
		n string
		f func(a *G.Node, along ...int) (*G.Node, error)
	}{{"Sum", G.Sum}, {"Max", G.Max}, {"Mean", G.Mean}} {
		r := r
		add(r.n+" along an axis twice", func(b *Builder) *Bad {
			x := b.Leaf(b.RandShape(2, 4)...)
			ax := b.T.Below(len(b.Shape(x)))
			return bad1(r.n, x, func(a *G.Node) (*G.Node, error) { return r.f(a, ax, ax) }, fmt.Sprint(ax))
		})
	}
	for _, r := range []struct {
		n string
		f func(a *G.Node, along ...int) (*G.Node, error)
	}{{"SoftMax", G.SoftMax}, {"LogSoftMax", G.LogSoftMax}, {"Sparsemax", G.Sparsemax}} {
		r := r
		add(r.n+" along an axis outside", func(b *Builder) *Bad {
			x := b.Dims(1, 4)
			ax := b.outside(len(b.Shape(x)))
			if ax == -1 {
				ax = -2
			}
			return bad1(r.n, x, func(a *G.Node) (*G.Node, error) { return r.f(a, ax) }, fmt.Sprint(ax))
		})
	}
	add("Reshape to another size", func(b *Builder) *Bad {
		x := b.Dims(1, 4)
		to := b.RandShape(1, 4)
		if ref.Prod(to) == len(b.Ten(x).D) {
			to[0]++
		}
		return bad1("Reshape", x, func(a *G.Node) (*G.Node, error) { return G.Reshape(a, append(tensor.Shape(nil), to...)) }, fmt.Sprint(to))
	})
	add("Reshape with two sizes to infer", func(b *Builder) *Bad {
		x := b.Dims(1, 4)
		return bad1("Reshape", x, func(a *G.Node) (*G.Node, error) { return G.Reshape(a, tensor.Shape{-1, -1}) }, "")
	})
	add("Reshape with a size that cannot be inferred", func(b *Builder) *Bad {
		x := b.Dims(1, 4)
		n := len(b.Ten(x).D)
		return bad1("Reshape", x, func(a *G.Node) (*G.Node, error) { return G.Reshape(a, tensor.Shape{n + 1, -1}) }, "")
	})
	add("Transpose with too few axes", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(2, 4)...)
		d := len(b.Shape(x))
		p := make([]int, d-1)
		for i := range p {
			p[i] = i
		}
		return bad1("Transpose", x, func(a *G.Node) (*G.Node, error) { return G.Transpose(a, p...) }, fmt.Sprint(p))
	})
	add("Transpose with a repeated axis", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(2, 4)...)
		d := len(b.Shape(x))
		p := make([]int, d)
		for i := range p {
			p[i] = i
		}
		p[d-1] = 0
		return bad1("Transpose", x, func(a *G.Node) (*G.Node, error) { return G.Transpose(a, p...) }, fmt.Sprint(p))
	})
	add("Transpose with an axis outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(2, 4)...)
		d := len(b.Shape(x))
		p := make([]int, d)
		for i := range p {
			p[i] = i
		}
		p[b.T.Below(d)] = b.outside(d)
		return bad1("Transpose", x, func(a *G.Node) (*G.Node, error) { return G.Transpose(a, p...) }, fmt.Sprint(p))
	})
	add("Slice from beyond the end", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		k := b.T.Below(len(s))
		sl := make([]tensor.Slice, k+1)
		lo := s[k] + b.T.Below(3)
		hi := lo + 1 + b.T.Below(3)
		sl[k] = G.S(lo, hi)
		return bad1("Slice", x, func(a *G.Node) (*G.Node, error) { return G.Slice(a, sl...) }, fmt.Sprint(k, lo, hi))
	})
	add("Slice at an index outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		k := b.T.Below(len(s))
		sl := make([]tensor.Slice, k+1)
		lo := b.outside(s[k])
		sl[k] = G.S(lo)
		return bad1("Slice", x, func(a *G.Node) (*G.Node, error) { return G.Slice(a, sl...) }, fmt.Sprint(k, lo))
	})
	add("Slice that is empty", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		k := b.T.Below(len(s))
		sl := make([]tensor.Slice, k+1)
		lo := b.T.Below(s[k])
		hi := b.T.Below(lo + 1)
		sl[k] = G.S(lo, hi)
		return bad1("Slice", x, func(a *G.Node) (*G.Node, error) { return G.Slice(a, sl...) }, fmt.Sprint(k, lo, hi))
	})
	add("Slice with too many slices", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		sl := make([]tensor.Slice, len(s)+1)
		for i := range sl {
			sl[i] = G.S(0, 1)
		}
		return bad1("Slice", x, func(a *G.Node) (*G.Node, error) { return G.Slice(a, sl...) }, "")
	})
	add("Slice of a scalar", func(b *Builder) *Bad {
		x := b.Leaf()
		return bad1("Slice", x, func(a *G.Node) (*G.Node, error) { return G.Slice(a, G.S(0, 1)) }, "")
	})
	add("Concat of shapes that differ", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(2, 4)...)
		s := append([]int(nil), b.Shape(x)...)
		k := b.T.Below(len(s))
		ax := b.T.Below(len(s) - 1)
		if ax >= k {
			ax++
		}
		s[k]++
		return bad2("Concat", func(x, y *G.Node) (*G.Node, error) { return G.Concat(ax, x, y) }, x, b.Leaf(s...), fmt.Sprint(ax))
	})
	add("Concat of ranks that differ", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := append(append([]int(nil), b.Shape(x)...), 2)
		y := b.Leaf(s...)
		if b.T.Bool() {
			x, y = y, x
		}
		return bad2("Concat", func(x, y *G.Node) (*G.Node, error) { return G.Concat(0, x, y) }, x, y, "")
	})
	add("Concat along an axis outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		ax := b.outside(len(b.Shape(x)))
		return bad2("Concat", func(x, y *G.Node) (*G.Node, error) { return G.Concat(ax, x, y) }, x, b.Leaf(b.Shape(x)...), fmt.Sprint(ax))
	})
	add("Unconcat into parts that do not fit", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		ax := b.T.Below(len(s))
		n := s[ax] + 1
		return bad1("Unconcat", x, func(a *G.Node) (*G.Node, error) { _, err := G.Unconcat(a, ax, n); return nil, err }, fmt.Sprint(ax, n))
	})
	add("Unconcat along an axis outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		ax := b.outside(len(b.Shape(x)))
		return bad1("Unconcat", x, func(a *G.Node) (*G.Node, error) { _, err := G.Unconcat(a, ax, 1); return nil, err }, fmt.Sprint(ax))
	})
	add("Unconcat into no parts", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		n := -b.T.Below(2)
		return bad1("Unconcat", x, func(a *G.Node) (*G.Node, error) { _, err := G.Unconcat(a, 0, n); return nil, err }, fmt.Sprint(n))
	})
	add("At coordinates outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		s := b.Shape(x)
		co := make([]int, len(s))
		for i := range co {
			co[i] = b.T.Below(s[i])
		}
		k := b.T.Below(len(s))
		co[k] = b.outside(s[k])
		return bad1("At", x, func(a *G.Node) (*G.Node, error) { return G.At(a, co...) }, fmt.Sprint(co))
	})
	add("At with too few coordinates", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(2, 3)...)
		return bad1("At", x, func(a *G.Node) (*G.Node, error) { return G.At(a, 0) }, "")
	})
	add("At with too many coordinates", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		co := make([]int, len(b.Shape(x))+1)
		return bad1("At", x, func(a *G.Node) (*G.Node, error) { return G.At(a, co...) }, "")
	})
	add("ByIndices along an axis outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		ax := len(b.Shape(x)) + b.T.Below(3)
		return bad1("ByIndices", x, func(a *G.Node) (*G.Node, error) {
			i := G.NewVector(a.Graph(), tensor.Int, G.WithName(fresh("idx")), G.WithShape(2), G.WithValue(tensor.New(tensor.WithBacking([]int{0, 0}))))
			return G.ByIndices(a, i, ax)
		}, fmt.Sprint(ax))
	})
	add("ByIndices of a negative index", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		k := -b.T.Int(1, 4)
		return bad1("ByIndices", x, func(a *G.Node) (*G.Node, error) {
			i := G.NewVector(a.Graph(), tensor.Int, G.WithName(fresh("idx")), G.WithShape(2), G.WithValue(tensor.New(tensor.WithBacking([]int{0, k}))))
			return G.ByIndices(a, i, 0)
		}, fmt.Sprint(k))
	})
	add("ByIndices with a matrix of indices", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		return bad1("ByIndices", x, func(a *G.Node) (*G.Node, error) {
			i := G.NewMatrix(a.Graph(), tensor.Int, G.WithName(fresh("idx")), G.WithShape(2, 2), G.WithValue(tensor.New(tensor.WithShape(2, 2), tensor.WithBacking([]int{0, 0, 0, 0}))))
			return G.ByIndices(a, i, 0)
		}, "")
	})
	add("Upsample2D of less than four dimensions", func(b *Builder) *Bad {
		x := b.Dims(0, 3)
		return bad1("Upsample2D", x, func(a *G.Node) (*G.Node, error) { return G.Upsample2D(a, 2) }, "")
	})
	add("Upsample2D by nothing", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(4, 4)...)
		k := -b.T.Below(2)
		return bad1("Upsample2D", x, func(a *G.Node) (*G.Node, error) { return G.Upsample2D(a, k) }, fmt.Sprint(k))
	})
	add("DiagFlat of a scalar", func(b *Builder) *Bad {
		return bad1("DiagFlat", b.Leaf(), G.DiagFlat, "")
	})
	add("Conv2d of channels that differ", func(b *Builder) *Bad {
		c := b.T.Int(1, 3)
		x, f := b.Leaf(b.T.Int(1, 2), c, 3, 3), b.Leaf(b.T.Int(1, 2), c+1, 2, 2)
		return bad2("Conv2d", func(x, f *G.Node) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{2, 2}, []int{0, 0}, []int{1, 1}, []int{1, 1})
		}, x, f, "")
	})
	add("Conv2d with a kernel larger than the image", func(b *Builder) *Bad {
		h, w := b.T.Int(2, 3), b.T.Int(2, 3)
		kh, kw := h+1+b.T.Below(2), w
		if b.T.Bool() {
			kh, kw = h, w+1
		}
		x, f := b.Leaf(1, 1, h, w), b.Leaf(1, 1, kh, kw)
		return bad2("Conv2d", func(x, f *G.Node) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{kh, kw}, []int{0, 0}, []int{1, 1}, []int{1, 1})
		}, x, f, "")
	})
	add("Conv2d of other than four dimensions", func(b *Builder) *Bad {
		x, f := b.Leaf(b.RandShape(1, 3)...), b.Leaf(1, 1, 1, 1)
		return bad2("Conv2d", func(x, f *G.Node) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{1, 1}, []int{0, 0}, []int{1, 1}, []int{1, 1})
		}, x, f, "")
	})
	add("Conv2d with a stride of nothing", func(b *Builder) *Bad {
		x, f := b.Leaf(1, 1, 3, 3), b.Leaf(1, 1, 2, 2)
		st := []int{1, 1}
		st[b.T.Below(2)] = -b.T.Below(2)
		return bad2("Conv2d", func(x, f *G.Node) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{2, 2}, []int{0, 0}, st, []int{1, 1})
		}, x, f, fmt.Sprint(st))
	})
	add("Conv2d with negative padding", func(b *Builder) *Bad {
		x, f := b.Leaf(1, 1, 3, 3), b.Leaf(1, 1, 2, 2)
		return bad2("Conv2d", func(x, f *G.Node) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape{2, 2}, []int{-1, 0}, []int{1, 1}, []int{1, 1})
		}, x, f, "")
	})
	for _, p := range []struct {
		n string
		f func(*G.Node, tensor.Shape, []int, []int) (*G.Node, error)
	}{{"MaxPool2D", G.MaxPool2D}, {"AveragePool2D", G.AveragePool2D}} {
		p := p
		add(p.n+" with a window larger than the image", func(b *Builder) *Bad {
			h, w := b.T.Int(2, 3), b.T.Int(2, 3)
			kh, kw := h+1+b.T.Below(2), w
			if b.T.Bool() {
				kh, kw = h, w+1
			}
			return bad1(p.n, b.Leaf(1, 1, h, w), func(x *G.Node) (*G.Node, error) {
				return p.f(x, tensor.Shape{kh, kw}, []int{0, 0}, []int{1, 1})
			}, fmt.Sprint(kh, kw))
		})
		add(p.n+" of other than four dimensions", func(b *Builder) *Bad {
			return bad1(p.n, b.Leaf(b.RandShape(1, 3)...), func(x *G.Node) (*G.Node, error) {
				return p.f(x, tensor.Shape{1, 1}, []int{0, 0}, []int{1, 1})
			}, "")
		})
		add(p.n+" with a stride of nothing", func(b *Builder) *Bad {
			st := []int{1, 1}
			st[b.T.Below(2)] = -b.T.Below(2)
			return bad1(p.n, b.Leaf(1, 1, 3, 3), func(x *G.Node) (*G.Node, error) {
				return p.f(x, tensor.Shape{2, 2}, []int{0, 0}, st)
			}, fmt.Sprint(st))
		})
		add(p.n+" with negative padding", func(b *Builder) *Bad {
			return bad1(p.n, b.Leaf(1, 1, 3, 3), func(x *G.Node) (*G.Node, error) {
				return p.f(x, tensor.Shape{2, 2}, []int{-1, 0}, []int{1, 1})
			}, "")
		})
	}
	add("BinaryXent of shapes that differ", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...) // not a softmax, for the known finding softmax-then-log
		return bad2("BinaryXent", G.BinaryXent, x, b.Leaf(b.clash(b.Shape(x))...), "")
	})
	add("BatchNorm of a vector", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 1)...)
		return bad1("BatchNorm", x, func(x *G.Node) (*G.Node, error) {
			r, _, _, _, err := G.BatchNorm(x, nil, nil, 0.5, 1e-3)
			return r, err
		}, "")
	})
	add("GroupNorm of groups that do not divide", func(b *Builder) *Bad {
		x := b.Leaf(1, 3, 2, 2)
		return bad1("GroupNorm", x, func(x *G.Node) (*G.Node, error) {
			sc := NewLeaf(x.Graph(), b.P.Dt, "sc", []int{1, 3, 1, 1}, []float64{1, 1, 1})
			bi := NewLeaf(x.Graph(), b.P.Dt, "bi", []int{1, 3, 1, 1}, []float64{1, 1, 1})
			r, err := G.GroupNorm(x, sc, bi, 2, 3, 1e-3)
			return r, err
		}, "")
	})
	add("Broadcast of sizes that differ", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 4)...)
		s := append([]int(nil), b.Shape(x)...)
		k := b.T.Below(len(s))
		if s[k] == 1 {
			return nil
		}
		s[k] += 1
		y := b.Leaf(s...)
		return bad2("BroadcastAdd", func(x, y *G.Node) (*G.Node, error) { return G.BroadcastAdd(x, y, nil, []byte{byte(k)}) }, x, y, fmt.Sprint(k))
	})
	add("Broadcast along an axis outside", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		y := b.Leaf(b.Shape(x)...)
		k := b.T.Int(len(b.Shape(x)), 3)
		return bad2("BroadcastAdd", func(x, y *G.Node) (*G.Node, error) { return G.BroadcastAdd(x, y, nil, []byte{byte(k)}) }, x, y, fmt.Sprint(k))
	})
	add("Grad of a cost that is no scalar", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		return bad1("Grad", x, func(x *G.Node) (*G.Node, error) {
			y, err := G.Square(x)
			if err != nil {
				return nil, nil
			}
			_, err = G.Grad(y, x)
			return nil, err
		}, "")
	})
	add("Grad by something the cost does not depend on", func(b *Builder) *Bad {
		x, y := b.Leaf(b.RandShape(1, 3)...), b.Leaf(b.RandShape(0, 3)...)
		return bad2("Grad", func(x, y *G.Node) (*G.Node, error) {
			c, err := G.Sum(x)
			if err != nil {
				return nil, nil
			}
			_, err = G.Grad(c, y)
			return nil, err
		}, x, y, "")
	})
	add("Backpropagate from outputs without gradients", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(0, 3)...)
		k := b.T.Below(4)
		return bad1("Backpropagate", x, func(x *G.Node) (*G.Node, error) {
			y, err := G.Tanh(x)
			if err != nil {
				return nil, nil
			}
			z, err := G.Cos(x)
			if err != nil {
				return nil, nil
			}
			outs := []G.Nodes{{}, {y}, {y, z}, {y}}[k]
			grads := []G.Nodes{{}, {}, {x}, {x, x}}[k]
			_, err = G.Backpropagate(outs, grads, G.Nodes{x})
			return nil, err
		}, fmt.Sprint(k))
	})
	add("Grad through an operation without a derivative", func(b *Builder) *Bad {
		k := b.T.Below(4)
		var x int
		if k == 0 {
			x = b.Leaf(b.RandShape(4, 4)...)
		} else {
			x = b.Leaf(b.RandShape(1, 3)...)
		}
		return bad1("Grad", x, func(x *G.Node) (*G.Node, error) {
			y, err := []func(*G.Node) (*G.Node, error){G.GlobalAveragePool2D, G.DiagFlat, G.Floor, G.Sign}[k](x)
			if err != nil {
				return nil, err
			}
			c, err := G.Sum(y)
			if err != nil {
				return nil, err
			}
			_, err = G.Grad(c, x)
			return nil, err
		}, fmt.Sprint(k))
	})
	add("Grad of a cost that is no float", func(b *Builder) *Bad {
		x := b.Leaf()
		k := b.T.Below(3)
		return bad1("Grad", x, func(x *G.Node) (*G.Node, error) {
			v := []interface{}{2, int32(2), int64(2)}[k]
			dt := []tensor.Dtype{tensor.Int, tensor.Int32, tensor.Int64}[k]
			i := G.NewScalar(x.Graph(), dt, G.WithName("whole"), G.WithValue(v))
			j := G.NewScalar(x.Graph(), dt, G.WithName("number"), G.WithValue(v))
			c, err := G.Add(i, j)
			if err != nil {
				return nil, nil
			}
			_, err = G.Grad(c, i)
			return nil, err
		}, fmt.Sprint(k))
	})
	add("Grad of a comparison", func(b *Builder) *Bad {
		x, y := b.Leaf(), b.Leaf()
		return bad2("Grad", func(x, y *G.Node) (*G.Node, error) {
			c, err := G.Gt(x, y, true)
			if err != nil {
				return nil, nil
			}
			_, err = G.Grad(c, x)
			return nil, err
		}, x, y, "")
	})
	add("Im2Col of other than four dimensions", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(1, 3)...)
		return bad1("Im2Col", x, func(x *G.Node) (*G.Node, error) {
			return G.Im2Col(x, tensor.Shape{1, 1}, tensor.Shape{0, 0}, tensor.Shape{1, 1}, tensor.Shape{1, 1})
		}, "")
	})
	// window geometry that is none, broken in one place
	for _, w := range []struct {
		n     string
		lists int // kernel, padding, stride, dilation
		f     func(x, y *G.Node, l [][]int) (*G.Node, error)
	}{
		{"Im2Col", 4, func(x, _ *G.Node, l [][]int) (*G.Node, error) {
			return G.Im2Col(x, tensor.Shape(l[0]), tensor.Shape(l[1]), tensor.Shape(l[2]), tensor.Shape(l[3]))
		}},
		{"Conv2d", 4, func(x, f *G.Node, l [][]int) (*G.Node, error) {
			return G.Conv2d(x, f, tensor.Shape(l[0]), l[1], l[2], l[3])
		}},
		{"MaxPool2D", 3, func(x, _ *G.Node, l [][]int) (*G.Node, error) { return G.MaxPool2D(x, tensor.Shape(l[0]), l[1], l[2]) }},
		{"AveragePool2D", 3, func(x, _ *G.Node, l [][]int) (*G.Node, error) {
			return G.AveragePool2D(x, tensor.Shape(l[0]), l[1], l[2])
		}},
	} {
		w := w
		draw := func(b *Builder) (x, y int, l [][]int) {
			k, d := []int{b.T.Int(1, 2), b.T.Int(1, 2)}, []int{1, 1}
			if w.lists == 4 {
				d = []int{b.T.Int(1, 2), b.T.Int(1, 2)}
			}
			x = b.Leaf(b.T.Int(1, 2), 1, b.T.Int(3, 5), b.T.Int(3, 5))
			y = b.Leaf(b.T.Int(1, 2), 1, k[0], k[1])
			return x, y, [][]int{k, {b.T.Below(2), b.T.Below(2)}, {b.T.Int(1, 2), b.T.Int(1, 2)}, d}
		}
		add(w.n+" with geometry of another number of axes", func(b *Builder) *Bad {
			x, y, l := draw(b)
			at := b.T.Below(w.lists)
			switch b.T.Below(3) {
			case 0:
				l[at] = l[at][:1]
			case 1:
				l[at] = append(l[at], 1)
			case 2:
				l[at] = []int{}
			}
			return bad2(w.n, func(x, y *G.Node) (*G.Node, error) { return w.f(x, y, l) }, x, y, fmt.Sprint(l))
		})
		add(w.n+" with geometry that is not positive", func(b *Builder) *Bad {
			x, y, l := draw(b)
			at := b.T.Below(w.lists)
			l[at][b.T.Below(2)] = -b.T.Int(1, 2)
			if at != 1 && b.T.Bool() {
				l[at][b.T.Below(2)] = 0
			}
			return bad2(w.n, func(x, y *G.Node) (*G.Node, error) { return w.f(x, y, l) }, x, y, fmt.Sprint(l))
		})
		add(w.n+" of a window that does not fit", func(b *Builder) *Bad {
			x, y, l := draw(b)
			at := b.T.Below(2)
			k := b.Shape(x)[2+at] + 2*l[1][at] + 1 + b.T.Below(3)
			if w.lists == 4 && b.T.Bool() {
				l[0][at], l[3][at] = 2, k-1
			} else {
				l[0][at], l[3][at] = k, 1
			}
			y = b.Leaf(1, 1, l[0][0], l[0][1])
			return bad2(w.n, func(x, y *G.Node) (*G.Node, error) { return w.f(x, y, l) }, x, y, fmt.Sprint(l))
		})
	}
	add("Conv2d with another window than the filter's", func(b *Builder) *Bad {
		kh, kw := b.T.Int(1, 2), b.T.Int(1, 2)
		x, y := b.Leaf(1, 1, 4, 4), b.Leaf(b.T.Int(1, 2), 1, kh, kw)
		if b.T.Bool() {
			kh++
		} else {
			kw++
		}
		return bad2("Conv2d", func(x, y *G.Node) (*G.Node, error) {
			return G.Conv2d(x, y, tensor.Shape{kh, kw}, []int{0, 0}, []int{1, 1}, []int{1, 1})
		}, x, y, fmt.Sprint(kh, kw))
	})
	add("GlobalAveragePool2D of other than four dimensions", func(b *Builder) *Bad {
		return bad1("GlobalAveragePool2D", b.Leaf(b.RandShape(0, 3)...), G.GlobalAveragePool2D, "")
	})
	add("one-dimensional window that does not fit", func(b *Builder) *Bad {
		n := b.T.Int(2, 4)
		k, pad, st, di := n, 0, 1, 1
		switch b.T.Below(5) {
		case 0:
			k = n + 1
		case 1:
			pad = -1
		case 2:
			st = -b.T.Below(2)
		case 3:
			k = -b.T.Below(2)
		case 4:
			k, di = 2, n
		}
		which := b.T.Below(3)
		if which < 2 && k == 2 && di == n {
			k, di = n+1, 1
		}
		x, y := b.Leaf(1, 1, 1, n), b.Leaf(1, 1, 1, max(k, 1))
		return bad2([]string{"MaxPool1D", "AveragePool1D", "Conv1d"}[which], func(x, y *G.Node) (*G.Node, error) {
			switch which {
			case 0:
				return G.MaxPool1D(x, k, pad, st)
			case 1:
				return G.AveragePool1D(x, k, pad, st)
			}
			return G.Conv1d(x, y, k, pad, st, di)
		}, x, y, fmt.Sprint(k, pad, st, di))
	})
	add("Backpropagate across graphs", func(b *Builder) *Bad {
		x := b.Leaf(b.RandShape(0, 3)...)
		k := b.T.Below(4)
		s := b.Shape(x)
		return bad1("Backpropagate", x, func(x *G.Node) (*G.Node, error) {
			y, err := G.Tanh(x)
			if err != nil {
				return nil, nil
			}
			g := G.NewGraph()
			v := make([]float64, ref.Prod(s))
			x2 := NewLeaf(g, b.P.Dt, fresh("other"), s, v)
			y2, err := G.Cos(x2)
			if err != nil {
				return nil, nil
			}
			one := NewLeaf(x.Graph(), b.P.Dt, fresh("one"), s, v)
			one2 := NewLeaf(g, b.P.Dt, fresh("one"), s, v)
			outs := []G.Nodes{{y, y2}, {y}, {y}, {y2, y}}[k]
			grads := []G.Nodes{{one, one2}, {one}, {one2}, {one2, one}}[k]
			wrt := []G.Nodes{{x}, {x, x2}, {x}, {x2}}[k]
			_, err = G.Backpropagate(outs, grads, wrt)
			return nil, err
		}, fmt.Sprint(k))
	})
	add("BatchedMatMul of a vector", func(b *Builder) *Bad {
		x, y := b.Leaf(b.RandShape(1, 1)...), b.Leaf(b.RandShape(1, 3)...)
		if b.T.Bool() {
			x, y = y, x
		}
		return bad2("BatchedMatMul", func(x, y *G.Node) (*G.Node, error) { return G.BatchedMatMul(x, y) }, x, y, "")
	})
	// operations that are only there for numbers with a fraction
	whole := func(x *G.Node, k int, shape []int) *G.Node {
		n := 1
		for _, d := range shape {
			n *= d
		}
		switch {
		case len(shape) == 0 && k == 0:
			return G.NewScalar(x.Graph(), tensor.Int, G.WithName(fresh("whole")), G.WithValue(2))
		case len(shape) == 0 && k == 1:
			return G.NewScalar(x.Graph(), tensor.Int32, G.WithName(fresh("whole")), G.WithValue(int32(2)))
		case len(shape) == 0 && k == 3:
			return G.NewScalar(x.Graph(), tensor.Bool, G.WithName(fresh("whole")), G.WithValue(true))
		case len(shape) == 0:
			return G.NewScalar(x.Graph(), tensor.Int64, G.WithName(fresh("whole")), G.WithValue(int64(2)))
		}
		if k == 3 {
			return G.NewTensor(x.Graph(), tensor.Bool, len(shape), G.WithName(fresh("whole")), G.WithShape(shape...), G.WithValue(tensor.New(tensor.WithShape(shape...), tensor.WithBacking(make([]bool, n)))))
		}
		dt := []tensor.Dtype{tensor.Int, tensor.Int32, tensor.Int64}[k]
		return G.NewTensor(x.Graph(), dt, len(shape), G.WithName(fresh("whole")), G.WithShape(shape...), G.WithValue(tensor.New(tensor.WithShape(shape...), tensor.WithBacking(tensor.Range(dt, 1, n+1)))))
	}
	fracs := map[string]func(a *G.Node) (*G.Node, error){
		"Abs": G.Abs, "Sign": G.Sign, "Ceil": G.Ceil, "Floor": G.Floor, "Sin": G.Sin, "Cos": G.Cos, "Exp": G.Exp, "Log": G.Log, "Log2": G.Log2,
		"Neg": G.Neg, "Square": G.Square, "Sqrt": G.Sqrt, "Inverse": G.Inverse, "InverseSqrt": G.InverseSqrt, "Cube": G.Cube, "Tanh": G.Tanh,
		"Sigmoid": G.Sigmoid, "Log1p": G.Log1p, "Expm1": G.Expm1, "Softplus": G.Softplus, "Mish": G.Mish,
		"Rectify":    G.Rectify,
		"LeakyRelu":  func(a *G.Node) (*G.Node, error) { return G.LeakyRelu(a, 0.1) },
		"SoftMax":    func(a *G.Node) (*G.Node, error) { return G.SoftMax(a) },
		"LogSoftMax": func(a *G.Node) (*G.Node, error) { return G.LogSoftMax(a) },
		"Sparsemax":  func(a *G.Node) (*G.Node, error) { return G.Sparsemax(a) },
		"Dropout":    func(a *G.Node) (*G.Node, error) { return G.Dropout(a, 0.5) },
		"BatchNorm": func(a *G.Node) (*G.Node, error) {
			y, _, _, _, err := G.BatchNorm(a, nil, nil, 0.9, 1e-3)
			return y, err
		},
		"MaxPool2D": func(a *G.Node) (*G.Node, error) { return G.MaxPool2D(a, tensor.Shape{1, 1}, []int{0, 0}, []int{1, 1}) },
		"Im2Col": func(a *G.Node) (*G.Node, error) {
			return G.Im2Col(a, tensor.Shape{1, 1}, tensor.Shape{0, 0}, tensor.Shape{1, 1}, tensor.Shape{1, 1})
		},
		"AveragePool2D": func(a *G.Node) (*G.Node, error) {
			return G.AveragePool2D(a, tensor.Shape{1, 1}, []int{0, 0}, []int{1, 1})
		},
		"GlobalAveragePool2D": G.GlobalAveragePool2D,
	}
	for _, n := range []string{"Add", "Sub", "HadamardProd", "HadamardDiv", "Pow", "Div", "MinBetween", "MaxBetween", "Gt", "Lte"} {
		n, f := n, bins[n]
		add(n+" of truth values", func(b *Builder) *Bad {
			x := b.Leaf()
			shape := b.RandShape(0, 3)
			return bad1(n, x, func(x *G.Node) (*G.Node, error) { return f(whole(x, 3, shape), whole(x, 3, shape)) }, fmt.Sprint("of truth values ", shape))
		})
	}
	var fracNames []string
	for n := range fracs {
		fracNames = append(fracNames, n)
	}
	sort.Strings(fracNames)
	for _, n := range fracNames {
		n, f := n, fracs[n]
		add(n+" of integers", func(b *Builder) *Bad {
			x := b.Leaf()
			k := b.T.Below(4)
			shape := b.RandShape(0, 3)
			switch n {
			case "BatchNorm", "MaxPool2D", "AveragePool2D", "Im2Col", "GlobalAveragePool2D":
				shape = b.RandShape(4, 4)
			case "SoftMax", "LogSoftMax", "Sparsemax", "Dropout":
				shape = b.RandShape(1, 3)
			}
			return bad1(n, x, func(x *G.Node) (*G.Node, error) { return f(whole(x, k, shape)) }, fmt.Sprint("of integers ", k, shape))
		})
	}
	return ms
}
