package gen

import (
	"fmt"

	G "gorgonia.org/gorgonia"

	"verif/harness/ref"
)

// MatMul2 is the reference matrix product with optional transposes.
func MatMul2(c *ref.Ctx, a, b *ref.Ten, ta, tb bool) *ref.Ten {
	if ta {
		a = a.Transpose(1, 0)
	}
	if tb {
		b = b.Transpose(1, 0)
	}
	m, k, n := a.Shape[0], a.Shape[1], b.Shape[1]
	if b.Shape[0] != k {
		panic(fmt.Sprintf("ref matmul %v %v", a.Shape, b.Shape))
	}
	r := ref.New(m, n)
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			s := ref.N{X: true}
			for l := 0; l < k; l++ {
				s = c.Add(s, c.Mul(a.At(i, l), b.At(l, j)))
			}
			r.Set(s, i, j)
		}
	}
	return r
}

// MatMul multiplies two matrices.
var MatMul = Spec{"MatMul", func(b *Builder) *Step {
	x := b.Dims(2, 2)
	s := b.Shape(x)
	var y int
	if b.T.Bool() {
		y = b.Want(s[1], b.T.Int(1, 4))
	} else {
		y = x
		x = b.Want(b.T.Int(1, 4), s[0])
	}
	return &Step{Op: "MatMul", In: []int{x, y}, Build: bi(G.Mul),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return MatMul2(c, in[0], in[1], false, false) }}
}}

// MatVec multiplies matrix by vector.
var MatVec = Spec{"MatVec", func(b *Builder) *Step {
	x := b.Dims(2, 2)
	s := b.Shape(x)
	y := b.Want(s[1])
	return &Step{Op: "MatVec", In: []int{x, y}, Build: bi(G.Mul),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return MatMul2(c, in[0], in[1].Reshape(in[1].Shape[0], 1), false, false).Reshape(in[0].Shape[0])
		}}
}}

// VecMat multiplies vector by matrix.
var VecMat = Spec{"VecMat", func(b *Builder) *Step {
	y := b.Dims(2, 2)
	s := b.Shape(y)
	x := b.Want(s[0])
	return &Step{Op: "VecMat", In: []int{x, y}, Build: bi(G.Mul),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return MatMul2(c, in[0].Reshape(1, in[0].Shape[0]), in[1], false, false).Reshape(in[1].Shape[1])
		}}
}}

// VecDot is the inner product.
var VecDot = Spec{"VecDot", func(b *Builder) *Step {
	x := b.Dims(1, 1)
	y := b.Want(b.Shape(x)...)
	return &Step{Op: "VecDot", In: []int{x, y}, Build: bi(G.Mul),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			s := ref.N{X: true}
			for i := range in[0].D {
				s = c.Add(s, c.Mul(in[0].D[i], in[1].D[i]))
			}
			return &ref.Ten{D: []ref.N{s}}
		}}
}}

// ScalarMul uses Mul with a scalar operand.
var ScalarMul = Spec{"ScalarMul", func(b *Builder) *Step {
	x := b.Any()
	y := b.Want()
	if b.T.Bool() {
		x, y = y, x
	}
	return &Step{Op: "ScalarMul", In: []int{x, y}, Build: bi(G.Mul),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return ref.Zip(in[0], in[1], c.Mul) }}
}}

// OuterProd is the outer product of vectors.
var OuterProd = Spec{"OuterProd", func(b *Builder) *Step {
	x := b.Dims(1, 1)
	y := b.Want(b.T.Int(1, 4))
	return &Step{Op: "OuterProd", In: []int{x, y}, Build: bi(G.OuterProd),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := ref.New(in[0].Shape[0], in[1].Shape[0])
			for i := range in[0].D {
				for j := range in[1].D {
					r.Set(c.Mul(in[0].D[i], in[1].D[j]), i, j)
				}
			}
			return r
		}}
}}

// BatchedMatMul multiplies the trailing matrices.
var BatchedMatMul = Spec{"BatchedMatMul", func(b *Builder) *Step {
	x := b.Dims(3, b.T.Tail(4, 4, 5))
	s := b.Shape(x)
	d := len(s)
	ta, tb := b.T.Bool(), b.T.Bool()
	k := s[d-1]
	if ta {
		k = s[d-2]
	}
	n := b.T.Int(1, 3)
	sy := append([]int(nil), s[:d-2]...)
	if tb {
		sy = append(sy, n, k)
	} else {
		sy = append(sy, k, n)
	}
	y := b.Want(sy...)
	return &Step{Op: "BatchedMatMul", Args: fmt.Sprintf("{ta=%v tb=%v}", ta, tb), In: []int{x, y},
		Build: func(in []*G.Node) (*G.Node, error) {
			switch {
			case tb:
				return G.BatchedMatMul(in[0], in[1], ta, tb)
			case ta:
				return G.BatchedMatMul(in[0], in[1], ta)
			}
			return G.BatchedMatMul(in[0], in[1])
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return BatchedRef(c, in[0], in[1], ta, tb) }}
}}

// BatchedRef is the reference batched product.
func BatchedRef(c *ref.Ctx, x, y *ref.Ten, ta, tb bool) *ref.Ten {
	d := len(x.Shape)
	batch := ref.Prod(x.Shape[:d-2])
	nx, ny := x.Shape[d-2]*x.Shape[d-1], y.Shape[d-2]*y.Shape[d-1]
	var out []ref.N
	var last []int
	for i := 0; i < batch; i++ {
		a := &ref.Ten{Shape: x.Shape[d-2:], D: x.D[i*nx : (i+1)*nx]}
		bb := &ref.Ten{Shape: y.Shape[d-2:], D: y.D[i*ny : (i+1)*ny]}
		r := MatMul2(c, a, bb, ta, tb)
		last = r.Shape
		out = append(out, r.D...)
	}
	return &ref.Ten{Shape: append(append([]int(nil), x.Shape[:d-2]...), last...), D: out}
}

// TensordotRef contracts axes pairwise.
func TensordotRef(c *ref.Ctx, a, b *ref.Ten, aa, ba []int) *ref.Ten {
	in := func(x int, l []int) bool {
		for _, v := range l {
			if v == x {
				return true
			}
		}
		return false
	}
	var fa, fb, shape []int
	for i := range a.Shape {
		if !in(i, aa) {
			fa = append(fa, i)
			shape = append(shape, a.Shape[i])
		}
	}
	for i := range b.Shape {
		if !in(i, ba) {
			fb = append(fb, i)
			shape = append(shape, b.Shape[i])
		}
	}
	var cs []int
	for _, x := range aa {
		cs = append(cs, a.Shape[x])
	}
	r := ref.New(shape...)
	ca, cb := make([]int, len(a.Shape)), make([]int, len(b.Shape))
	ref.Each(shape, func(co []int, k int) {
		for i, x := range fa {
			ca[x] = co[i]
		}
		for i, x := range fb {
			cb[x] = co[len(fa)+i]
		}
		s := ref.N{X: true}
		ref.Each(cs, func(cc []int, _ int) {
			for i := range aa {
				ca[aa[i]] = cc[i]
				cb[ba[i]] = cc[i]
			}
			s = c.Add(s, c.Mul(a.At(ca...), b.At(cb...)))
		})
		r.D[k] = s
	})
	return r
}

// Tensordot contracts a random set of axis pairs.
var Tensordot = Spec{"Tensordot", func(b *Builder) *Step {
	x := b.Dims(1, 3)
	s := b.Shape(x)
	n := b.T.Int(1, len(s))
	aa := b.T.Perm(len(s))[:n]
	free := b.T.Int(0, 2)
	sy := make([]int, n+free)
	pos := b.T.Perm(n + free)
	ba := append([]int(nil), pos[:n]...)
	for i := range sy {
		sy[i] = b.T.Int(2, 3)
	}
	for i := range ba {
		sy[ba[i]] = s[aa[i]]
	}
	if n == len(s) && free == 0 {
		return nil // contracting everything away gives a one-element vector
	}
	con := 1
	for _, a := range aa {
		con *= s[a]
	}
	if con < 2 {
		return nil // the tensor library cannot contract over a single element
	}
	vec := len(s) == 2 && n == 1 && free == 0 && ref.Prod(s) > con || len(s) == 1 && free == 1
	if b.Grad && !vec && (n == len(s) || free == 0 || ref.Prod(s) == con) {
		return nil // differentiable when both operands keep a free axis
	}
	y := b.Want(sy...)
	return &Step{Op: "Tensordot", Args: fmt.Sprintf("{a=%v b=%v}", aa, ba), In: []int{x, y},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Tensordot(append([]int(nil), aa...), append([]int(nil), ba...), in[0], in[1])
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten { return TensordotRef(c, in[0], in[1], aa, ba) }}
}}
