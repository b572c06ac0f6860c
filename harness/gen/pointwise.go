package gen

import (
	"fmt"
	"math"

	G "gorgonia.org/gorgonia"
	nnops "gorgonia.org/gorgonia/ops/nn"

	"verif/harness/ref"
)

type unDef struct {
	name string
	g    func(*G.Node) (*G.Node, error)
	f    func(c *ref.Ctx, x ref.N) ref.N
}

// UnaryDefs are the element-wise functions with their definitions.
var UnaryDefs = []unDef{
	{"Neg", G.Neg, func(c *ref.Ctx, x ref.N) ref.N { return c.Neg(x) }},
	{"Square", G.Square, func(c *ref.Ctx, x ref.N) ref.N { return c.Mul(x, x) }},
	{"Cube", G.Cube, func(c *ref.Ctx, x ref.N) ref.N { return c.Mul(x, c.Mul(x, x)) }},
	{"Abs", G.Abs, func(c *ref.Ctx, x ref.N) ref.N {
		s := c.Cmp(x, ref.C(0), "abs")
		if s == 0 {
			c.Tie = "abs at 0"
		}
		if s < 0 {
			return c.Neg(x)
		}
		return x
	}},
	{"Sign", G.Sign, func(c *ref.Ctx, x ref.N) ref.N {
		s := c.Cmp(x, ref.C(0), "sign")
		if s == 0 {
			c.Tie = "sign at 0"
		}
		return ref.C(float64(s))
	}},
	{"Ceil", G.Ceil, func(c *ref.Ctx, x ref.N) ref.N { return step(c, x, math.Ceil(x.V), "ceil") }},
	{"Floor", G.Floor, func(c *ref.Ctx, x ref.N) ref.N { return step(c, x, math.Floor(x.V), "floor") }},
	{"Sin", G.Sin, func(c *ref.Ctx, x ref.N) ref.N {
		return c.Un(x, math.Sin(x.V), math.Cos(x.V), -math.Sin(x.V), false)
	}},
	{"Cos", G.Cos, func(c *ref.Ctx, x ref.N) ref.N {
		return c.Un(x, math.Cos(x.V), -math.Sin(x.V), -math.Cos(x.V), false)
	}},
	{"Exp", G.Exp, func(c *ref.Ctx, x ref.N) ref.N { return c.Exp(x) }},
	{"Log", G.Log, func(c *ref.Ctx, x ref.N) ref.N { return c.Log(x) }},
	{"Log2", G.Log2, func(c *ref.Ctx, x ref.N) ref.N {
		l := c.Log(x)
		k := 1 / math.Ln2
		return ref.N{V: l.V * k, A: l.A * k, B: l.B * k, AB: l.AB * k}
	}},
	{"Sqrt", G.Sqrt, func(c *ref.Ctx, x ref.N) ref.N { return c.Sqrt(x) }},
	{"Inverse", G.Inverse, func(c *ref.Ctx, x ref.N) ref.N { return c.Inv(x) }},
	{"InverseSqrt", G.InverseSqrt, func(c *ref.Ctx, x ref.N) ref.N { return c.Inv(c.Sqrt(x)) }},
	{"Tanh", G.Tanh, func(c *ref.Ctx, x ref.N) ref.N { return c.Tanh(x) }},
	{"Sigmoid", G.Sigmoid, func(c *ref.Ctx, x ref.N) ref.N { return c.Sigmoid(x) }},
	{"Log1p", G.Log1p, func(c *ref.Ctx, x ref.N) ref.N {
		r := c.Log(c.Add(x, ref.C(1)))
		r.V = math.Log1p(x.V)
		return r
	}},
	{"Expm1", G.Expm1, func(c *ref.Ctx, x ref.N) ref.N {
		e := math.Exp(x.V)
		return c.Un(x, math.Expm1(x.V), e, e, false)
	}},
	{"Softplus", G.Softplus, func(c *ref.Ctx, x ref.N) ref.N { return c.Softplus(x) }},
	{"Rectify", G.Rectify, func(c *ref.Ctx, x ref.N) ref.N {
		s := c.Cmp(x, ref.C(0), "rectify")
		if s == 0 {
			c.Tie = "rectify at 0"
		}
		if s > 0 {
			return x
		}
		return ref.N{X: true}
	}},
	{"Rectify2", nnops.Rectify, func(c *ref.Ctx, x ref.N) ref.N {
		s := c.Cmp(x, ref.C(0), "rectify")
		if s == 0 {
			c.Tie = "rectify at 0"
		}
		if s > 0 {
			return x
		}
		return ref.N{X: true}
	}},
	{"Mish", G.Mish, func(c *ref.Ctx, x ref.N) ref.N { return c.Mul(x, c.Tanh(c.Softplus(x))) }},
}

func step(c *ref.Ctx, x ref.N, v float64, what string) ref.N {
	r := math.Round(x.V)
	d := x.V - r
	if !x.X && math.Abs(d) < c.Margin*(1+math.Abs(x.V)) {
		c.Kink = what
	}
	if d == 0 {
		c.Tie = what
	}
	return ref.N{V: v, X: x.X}
}

// Unary applies one unary definition to any value.
func Unary(d unDef) Spec {
	return Spec{d.name, func(b *Builder) *Step {
		x := b.Any()
		if x < 0 {
			return nil
		}
		return &Step{Op: d.name, In: []int{x}, Build: un(d.g), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Map(func(x ref.N) ref.N { return d.f(c, x) })
		}}
	}}
}

// LeakyRelu has a parameter.
var LeakyRelu = Spec{"LeakyRelu", func(b *Builder) *Step {
	x := b.Any()
	if x < 0 {
		return nil
	}
	alpha := []float64{0.25, 0.5, 0.125, 0}[b.T.Below(4)]
	return &Step{Op: "LeakyRelu", Args: fmt.Sprintf("{alpha=%v}", alpha), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.LeakyRelu(in[0], alpha) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Map(func(x ref.N) ref.N {
				s := c.Cmp(x, ref.C(0), "leakyrelu")
				if s == 0 {
					c.Tie = "leakyrelu at 0"
				}
				if s >= 0 {
					return x
				}
				return c.Mul(x, ref.C(alpha))
			})
		}}
}}

type binDef struct {
	name string
	g    func(a, b *G.Node) (*G.Node, error)
	bc   func(a, b *G.Node, l, r []byte) (*G.Node, error)
	f    func(c *ref.Ctx, x, y ref.N) ref.N
}

func powN(c *ref.Ctx, x, y ref.N) ref.N {
	if x.V < 0.04 {
		if x.X && y.X && y.V == math.Trunc(y.V) && (x.V != 0 || y.V >= 0) {
			c.Tie = "pow of non-positive base" // has a value, but its gradient goes through log(x)
			v := math.Pow(x.V, y.V)
			return c.Un(ref.N{V: x.V, X: true}, v, 0, 0, true)
		}
		c.Domain = "pow of non-positive base"
		return x
	}
	l := math.Log(x.V)
	v := math.Pow(x.V, y.V)
	// exp(y log x)
	ex := c.Mul(y, ref.N{V: l, A: x.A / x.V, B: x.B / x.V, AB: x.AB/x.V - x.A*x.B/(x.V*x.V)})
	return c.Un(ref.N{V: ex.V, A: ex.A, B: ex.B, AB: ex.AB, X: x.X && y.X && y.V == math.Trunc(y.V)}, v, v, v, true)
}

// BinaryDefs are the element-wise two-operand functions.
var BinaryDefs = []binDef{
	{"Add", G.Add, G.BroadcastAdd, func(c *ref.Ctx, x, y ref.N) ref.N { return c.Add(x, y) }},
	{"Sub", G.Sub, G.BroadcastSub, func(c *ref.Ctx, x, y ref.N) ref.N { return c.Sub(x, y) }},
	{"HadamardProd", G.HadamardProd, G.BroadcastHadamardProd, func(c *ref.Ctx, x, y ref.N) ref.N { return c.Mul(x, y) }},
	{"HadamardDiv", G.HadamardDiv, G.BroadcastHadamardDiv, func(c *ref.Ctx, x, y ref.N) ref.N { return c.Div(x, y) }},
	{"Div", G.Div, nil, func(c *ref.Ctx, x, y ref.N) ref.N { return c.Div(x, y) }},
	{"Pow", G.Pow, G.BroadcastPow, powN},
}

func minmax(sgn int, what string) func(c *ref.Ctx, x, y ref.N) ref.N {
	return func(c *ref.Ctx, x, y ref.N) ref.N {
		k := c.Cmp(x, y, what) * sgn
		if k == 0 {
			c.Tie = what
		}
		if k >= 0 {
			return x
		}
		return y
	}
}

// MinMaxDefs pick one operand.
var MinMaxDefs = []binDef{
	{"MinBetween", G.MinBetween, nil, minmax(-1, "min tie")},
	{"MaxBetween", G.MaxBetween, nil, minmax(1, "max tie")},
}

type cmpDef struct {
	name string
	g    func(a, b *G.Node, same bool) (*G.Node, error)
	bc   func(a, b *G.Node, same bool, l, r []byte) (*G.Node, error)
	f    func(k int) bool
}

// CmpDefs are the comparisons.
var CmpDefs = []cmpDef{
	{"Lt", G.Lt, G.BroadcastLt, func(k int) bool { return k < 0 }},
	{"Gt", G.Gt, G.BroadcastGt, func(k int) bool { return k > 0 }},
	{"Lte", G.Lte, G.BroadcastLte, func(k int) bool { return k <= 0 }},
	{"Gte", G.Gte, G.BroadcastGte, func(k int) bool { return k >= 0 }},
	{"Eq", G.Eq, G.BroadcastEq, func(k int) bool { return k == 0 }},
	{"Ne", G.Ne, G.BroadcastNe, func(k int) bool { return k != 0 }},
}

// twoOperands picks operands of equal shape or one scalar.
func twoOperands(b *Builder) (int, int) {
	x := b.Any()
	if x < 0 {
		return -1, -1
	}
	var y int
	switch b.T.Below(6) {
	case 0, 1, 2:
		y = b.Want(b.Shape(x)...)
	case 3:
		y = b.Want()
	case 4: // scalar on the left
		y = x
		x = b.Want()
	default:
		y = x
	}
	return x, y
}

// Binary applies a binary definition to operands of one shape, or a scalar
// and a tensor in either order.
func Binary(d binDef) Spec {
	return Spec{d.name, func(b *Builder) *Step {
		x, y := twoOperands(b)
		if x < 0 {
			return nil
		}
		return &Step{Op: d.name, In: []int{x, y}, Build: bi(d.g), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			if in[0] == in[1] && (d.name == "MinBetween" || d.name == "MaxBetween") {
				// of one value with itself: that value, and no tie
				return ref.Zip(in[0], in[1], func(x, y ref.N) ref.N { return x })
			}
			return ref.Zip(in[0], in[1], func(x, y ref.N) ref.N { return d.f(c, x, y) })
		}}
	}}
}

// SameShape applies a binary definition to two tensors of one shape.
func SameShape(d binDef) Spec {
	return Spec{d.name, func(b *Builder) *Step {
		x := b.Dims(1, 4)
		y := b.Want(b.Shape(x)...)
		return &Step{Op: d.name, In: []int{x, y}, Build: bi(d.g), Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			if in[0] == in[1] && (d.name == "MinBetween" || d.name == "MaxBetween") {
				// of one value with itself: that value, and no tie
				return ref.Zip(in[0], in[1], func(x, y ref.N) ref.N { return x })
			}
			return ref.Zip(in[0], in[1], func(x, y ref.N) ref.N { return d.f(c, x, y) })
		}}
	}}
}

func boolN(v bool) ref.N {
	if v {
		return ref.C(1)
	}
	return ref.C(0)
}

// Compare applies a comparison; same says the result is numeric.
func Compare(d cmpDef, same bool) Spec {
	name := d.name
	if !same {
		name += "Bool"
	}
	return Spec{name, func(b *Builder) *Step {
		x, y := twoOperands(b)
		if x < 0 {
			return nil
		}
		return &Step{Op: name, In: []int{x, y}, Bool: !same,
			Build: func(in []*G.Node) (*G.Node, error) { return d.g(in[0], in[1], same) },
			Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
				return ref.Zip(in[0], in[1], func(x, y ref.N) ref.N {
					k := c.Cmp(x, y, "comparison")
					if k == 0 {
						c.Tie = "comparison tie"
					}
					return boolN(d.f(k))
				})
			}}
	}}
}

// bcastArgs are two broadcastable operands with their patterns; full are the
// shapes of the operands with every axis present.
type bcastArgs struct {
	x, y  int
	l, r  []byte
	full  [2][]int
	shape []int
}

func (a *bcastArgs) zip(in []*ref.Ten, f func(x, y ref.N) ref.N) *ref.Ten {
	return ref.Zip(in[0].Reshape(a.full[0]...).BroadcastTo(a.shape), in[1].Reshape(a.full[1]...).BroadcastTo(a.shape), f)
}

// bcast draws two broadcastable operands and the patterns. One of them may
// lack the axes along which it is repeated.
func bcast(b *Builder, sameDims bool) *bcastArgs {
	var l, r []byte
	x := b.Dims(1, 4)
	sx := b.Shape(x)
	sy := append([]int(nil), sx...)
	shape := append([]int(nil), sx...)
	fewer := !sameDims && b.T.Chance(1, 3)
	var short []int
	for i := range sx {
		switch {
		case sx[i] == 1 && !fewer:
			if b.T.Chance(1, 2) {
				sy[i] = b.T.Int(2, 3)
				if b.Big && b.T.Bool() {
					sy[i] = b.T.Int(4, 20)
				}
				shape[i] = sy[i]
				l = append(l, byte(i))
			}
		case b.T.Chance(1, 2):
			sy[i] = 1
			r = append(r, byte(i))
		}
		if len(r) == 0 || int(r[len(r)-1]) != i {
			short = append(short, sy[i])
		}
	}
	a := &bcastArgs{x: x, full: [2][]int{sx, sy}, shape: shape, l: l, r: r}
	if !fewer || b.NoOneElem && ref.Prod(sy) == 1 {
		short = sy
	}
	a.y = b.Want(short...)
	if b.T.Bool() {
		a.x, a.y = a.y, a.x
		a.l, a.r = a.r, a.l
		a.full[0], a.full[1] = sy, sx
	}
	// the axes may be given in any order
	for _, p := range [][]byte{a.l, a.r} {
		if len(p) > 1 && b.T.Chance(1, 3) {
			for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
				p[i], p[j] = p[j], p[i]
			}
		}
	}
	return a
}

// Broadcast applies a broadcasting operation with explicit patterns or Auto.
func Broadcast(d binDef, auto bool) Spec {
	name := "Broadcast" + d.name
	if auto {
		name = "AutoBroadcast" + d.name
	}
	return Spec{name, func(b *Builder) *Step {
		a := bcast(b, auto)
		return &Step{Op: name, Args: fmt.Sprintf("{l=%v r=%v}", a.l, a.r), In: []int{a.x, a.y},
			Build: func(in []*G.Node) (*G.Node, error) {
				if auto {
					return G.Auto(d.bc, in[0], in[1])
				}
				return d.bc(in[0], in[1], a.l, a.r)
			},
			Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
				return a.zip(in, func(x, y ref.N) ref.N { return d.f(c, x, y) })
			}}
	}}
}

// BroadcastCmp is a broadcasting comparison.
func BroadcastCmp(d cmpDef, same bool) Spec {
	name := "Broadcast" + d.name
	if !same {
		name += "Bool"
	}
	return Spec{name, func(b *Builder) *Step {
		a := bcast(b, false)
		return &Step{Op: name, Args: fmt.Sprintf("{l=%v r=%v}", a.l, a.r), In: []int{a.x, a.y}, Bool: !same,
			Build: func(in []*G.Node) (*G.Node, error) { return d.bc(in[0], in[1], same, a.l, a.r) },
			Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
				return a.zip(in, func(x, y ref.N) ref.N {
					k := c.Cmp(x, y, "comparison")
					if k == 0 {
						c.Tie = "comparison tie"
					}
					return boolN(d.f(k))
				})
			}}
	}}
}

// Name of the comparison.
func (d cmpDef) Name() string { return d.name }

// Holds says whether the comparison holds for operands ordered k.
func (d cmpDef) Holds(k int) bool { return d.f(k) }

// Apply builds the comparison.
func (d cmpDef) Apply(a, b *G.Node, same bool) (*G.Node, error) { return d.g(a, b, same) }

// ApplyBroadcast builds the broadcast comparison.
func (d cmpDef) ApplyBroadcast(a, b *G.Node, same bool, l, r []byte) (*G.Node, error) {
	return d.bc(a, b, same, l, r)
}
