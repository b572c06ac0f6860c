// Package gen generates random gorgonia programs together with their
// reference semantics.
package gen

import (
	"fmt"
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/pbt"
	"verif/harness/ref"
)

// Leaf is an input of a program.
type Leaf struct {
	Name  string
	Shape []int
	Vals  []float64
	Const bool // built with NewConstant
}

// Step is one operation application.
type Step struct {
	Op    string
	Args  string
	In    []int // value indices: leaves first, then steps
	Build func(in []*G.Node) (*G.Node, error)
	Ref   func(c *ref.Ctx, in []*ref.Ten) *ref.Ten
	Bool  bool // result is of boolean type
	Final bool // result is not used by later steps
}

// Prog is a straight-line program; value i is leaf i or step i-len(Leaves).
// Leaves and steps are interleaved during generation, hence the order list.
type Prog struct {
	Dt    tensor.Dtype
	Vals  []Val
	shown int
}

// Val is one value of a program.
type Val struct {
	Leaf *Leaf
	Step *Step
	Ten  *ref.Ten // at the generated leaf values
	Uses int
}

// NumSteps counts operations.
func (p *Prog) NumSteps() int {
	n := 0
	for _, v := range p.Vals {
		if v.Step != nil {
			n++
		}
	}
	return n
}

func (p *Prog) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v:", p.Dt)
	for i, v := range p.Vals {
		if v.Leaf != nil {
			c := ""
			if v.Leaf.Const {
				c = "const "
			}
			fmt.Fprintf(&b, " v%d=%s%v%v", i, c, v.Leaf.Shape, v.Leaf.Vals)
			continue
		}
		fmt.Fprintf(&b, " v%d=%s(", i, v.Step.Op)
		for j, k := range v.Step.In {
			if j > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "v%d", k)
		}
		b.WriteString(")" + v.Step.Args)
	}
	return b.String()
}

// Leaves lists the indices of variable leaves.
func (p *Prog) Leaves() []int {
	var out []int
	for i, v := range p.Vals {
		if v.Leaf != nil && !v.Leaf.Const {
			out = append(out, i)
		}
	}
	return out
}

// Steps lists the indices of steps.
func (p *Prog) Steps() []int {
	var out []int
	for i, v := range p.Vals {
		if v.Step != nil {
			out = append(out, i)
		}
	}
	return out
}

// Roots lists the values nothing uses.
func (p *Prog) Roots() []int {
	var out []int
	for i, v := range p.Vals {
		if v.Uses == 0 && v.Step != nil {
			out = append(out, i)
		}
	}
	return out
}

// Margin is how near a discontinuity is too near.
func Margin(dt tensor.Dtype) float64 {
	if dt == tensor.Float32 {
		return 1e-3
	}
	return 1e-6
}

// MaxScale bounds intermediate magnitudes.
func MaxScale(dt tensor.Dtype) float64 {
	if dt == tensor.Float32 {
		return 1e3
	}
	return 1e5
}

// Tol is the absolute tolerance at a given scale.
func Tol(dt tensor.Dtype, scale float64) float64 {
	if dt == tensor.Float32 {
		return 5e-4 * (1 + scale)
	}
	return 1e-9 * (1 + scale)
}

// Eval evaluates the program; leaves maps leaf index to value (nil: generated
// values).
func (p *Prog) Eval(c *ref.Ctx, leaves map[int]*ref.Ten) []*ref.Ten {
	return p.EvalWith(c, leaves, nil)
}

// EvalWith is Eval that lets the caller change every value before it is used.
func (p *Prog) EvalWith(c *ref.Ctx, leaves map[int]*ref.Ten, change func(i int, t *ref.Ten)) []*ref.Ten {
	if c.Margin == 0 {
		c.Margin = Margin(p.Dt)
	}
	out := make([]*ref.Ten, len(p.Vals))
	for i, v := range p.Vals {
		if v.Leaf != nil {
			if t, ok := leaves[i]; ok {
				out[i] = t
			} else {
				out[i] = ref.From(v.Leaf.Shape, v.Leaf.Vals)
			}
			if change != nil {
				change(i, out[i])
			}
			continue
		}
		in := make([]*ref.Ten, len(v.Step.In))
		for j, k := range v.Step.In {
			in[j] = out[k]
		}
		out[i] = v.Step.Ref(c, in)
		if change != nil {
			// what came in must not change with it
			out[i] = &ref.Ten{Shape: out[i].Shape, D: append([]ref.N(nil), out[i].D...)}
			change(i, out[i])
		}
	}
	return out
}

// Data converts values to a backing slice of the dtype.
func Data(dt tensor.Dtype, v []float64) interface{} {
	switch dt {
	case tensor.Float64:
		return append([]float64(nil), v...)
	case tensor.Float32:
		o := make([]float32, len(v))
		for i := range v {
			o[i] = float32(v[i])
		}
		return o
	case tensor.Int:
		o := make([]int, len(v))
		for i := range v {
			o[i] = int(v[i])
		}
		return o
	case tensor.Int32:
		o := make([]int32, len(v))
		for i := range v {
			o[i] = int32(v[i])
		}
		return o
	case tensor.Int64:
		o := make([]int64, len(v))
		for i := range v {
			o[i] = int64(v[i])
		}
		return o
	case tensor.Uint8:
		o := make([]uint8, len(v))
		for i := range v {
			o[i] = uint8(v[i])
		}
		return o
	case tensor.Bool:
		o := make([]bool, len(v))
		for i := range v {
			o[i] = v[i] != 0
		}
		return o
	}
	panic(fmt.Sprint("dtype ", dt))
}

// Scalar converts to a Go scalar of the dtype.
func Scalar(dt tensor.Dtype, v float64) interface{} {
	switch dt {
	case tensor.Float64:
		return v
	case tensor.Float32:
		return float32(v)
	case tensor.Int:
		return int(v)
	case tensor.Int32:
		return int32(v)
	case tensor.Int64:
		return int64(v)
	case tensor.Uint8:
		return uint8(v)
	case tensor.Bool:
		return v != 0
	}
	panic(fmt.Sprint("dtype ", dt))
}

// Value makes a gorgonia value.
func Value(dt tensor.Dtype, shape []int, v []float64) G.Value {
	if len(shape) == 0 {
		switch dt {
		case tensor.Float64:
			return G.NewF64(v[0])
		case tensor.Float32:
			return G.NewF32(float32(v[0]))
		case tensor.Int:
			return G.NewI(int(v[0]))
		case tensor.Int32:
			return G.NewI32(int32(v[0]))
		case tensor.Int64:
			return G.NewI64(int64(v[0]))
		case tensor.Uint8:
			return G.NewU8(uint8(v[0]))
		case tensor.Bool:
			return G.NewB(v[0] != 0)
		}
	}
	return tensor.New(tensor.WithShape(shape...), tensor.WithBacking(Data(dt, v)))
}

// NewLeaf makes an input node with a bound value.
func NewLeaf(g *G.ExprGraph, dt tensor.Dtype, name string, shape []int, v []float64) *G.Node {
	n := NewInput(g, dt, name, shape)
	if err := LetVals(n, dt, shape, v); err != nil {
		panic(fmt.Sprintf("Let failed on a well-typed value: %v", err))
	}
	return n
}

// NewInput makes an unbound input node.
func NewInput(g *G.ExprGraph, dt tensor.Dtype, name string, shape []int) *G.Node {
	switch len(shape) {
	case 0:
		return G.NewScalar(g, dt, G.WithName(name))
	case 1:
		return G.NewVector(g, dt, G.WithShape(shape...), G.WithName(name))
	case 2:
		return G.NewMatrix(g, dt, G.WithShape(shape...), G.WithName(name))
	}
	return G.NewTensor(g, dt, len(shape), G.WithShape(shape...), G.WithName(name))
}

// LetVals binds fresh storage.
func LetVals(n *G.Node, dt tensor.Dtype, shape []int, v []float64) error {
	if len(shape) == 0 {
		return G.Let(n, Scalar(dt, v[0]))
	}
	return G.Let(n, tensor.New(tensor.WithShape(shape...), tensor.WithBacking(Data(dt, v))))
}

// Built is a program built as a gorgonia graph.
type Built struct {
	G     *G.ExprGraph
	Nodes []*G.Node
}

// Build constructs the graph.
func (p *Prog) Build() (*Built, error) { return p.BuildOn(G.NewGraph(), true) }

// BuildOn constructs the program in an existing graph; let says whether
// variables are bound to their generated values.
func (p *Prog) BuildOn(g *G.ExprGraph, let bool) (*Built, error) {
	b := &Built{G: g}
	err := p.BuildPart(b, let, func(int) bool { return true })
	return b, err
}

// BuildPart constructs those values of the program that are wanted and not yet
// built. The operands of a wanted value must be wanted or built.
func (p *Prog) BuildPart(b *Built, let bool, want func(i int) bool) error {
	for len(b.Nodes) < len(p.Vals) {
		b.Nodes = append(b.Nodes, nil)
	}
	for i, v := range p.Vals {
		if b.Nodes[i] != nil || !want(i) {
			continue
		}
		if v.Leaf != nil {
			if v.Leaf.Const {
				var n *G.Node
				if len(v.Leaf.Shape) == 0 {
					n = G.NewConstant(Scalar(p.Dt, v.Leaf.Vals[0]))
				} else {
					n = G.NewConstant(tensor.New(tensor.WithShape(v.Leaf.Shape...), tensor.WithBacking(Data(p.Dt, v.Leaf.Vals))))
				}
				b.Nodes[i] = b.G.AddNode(n)
			} else if let {
				b.Nodes[i] = NewLeaf(b.G, p.Dt, v.Leaf.Name, v.Leaf.Shape, v.Leaf.Vals)
			} else {
				b.Nodes[i] = NewInput(b.G, p.Dt, v.Leaf.Name, v.Leaf.Shape)
			}
			continue
		}
		in := make([]*G.Node, len(v.Step.In))
		for j, k := range v.Step.In {
			in[j] = b.Nodes[k]
		}
		var n *G.Node
		err, panicked := pbt.Try(func() (err error) { n, err = v.Step.Build(in); return })
		if err != nil {
			w := "error"
			if panicked {
				w = "panic"
			}
			return fmt.Errorf("building v%d=%s%s: %s %v", i, v.Step.Op, v.Step.Args, w, err)
		}
		if n == nil {
			return fmt.Errorf("building v%d=%s%s: nil node", i, v.Step.Op, v.Step.Args)
		}
		b.Nodes[i] = n
	}
	return nil
}

// Root says whether nothing in the graph consumes the node of value i. (Equal
// expressions share a node, and compound operations may share theirs; a plain
// tape machine reuses the memory of a consumed intermediate.)
func (b *Built) Root(i int) bool { return b.G.To(b.Nodes[i].ID()).Len() == 0 }

// Floats reads a value into row-major float64s with its shape; ok is false
// when the value is missing or of an unknown kind.
func Floats(v G.Value) (vals []float64, shape []int, dt tensor.Dtype, err error) {
	if v == nil {
		return nil, nil, dt, fmt.Errorf("nil value")
	}
	dt = v.Dtype()
	switch x := v.(type) {
	case *G.F64:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.F32:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.I:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.I32:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.I64:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.U8:
		return []float64{float64(*x)}, nil, dt, nil
	case *G.B:
		if bool(*x) {
			return []float64{1}, nil, dt, nil
		}
		return []float64{0}, nil, dt, nil
	case tensor.Tensor:
		shape = append([]int(nil), x.Shape()...)
		if x.IsScalar() {
			f, e := toF(x.ScalarValue())
			return []float64{f}, shape, dt, e
		}
		d, ok := x.(*tensor.Dense)
		if !ok {
			return nil, shape, dt, fmt.Errorf("unexpected tensor %T", v)
		}
		n := ref.Prod(shape)
		vals = make([]float64, 0, n)
		e, _ := pbt.Try(func() error {
			var er error
			ref.Each(shape, func(co []int, k int) {
				if er != nil {
					return
				}
				a, e := d.At(co...)
				if e != nil {
					er = e
					return
				}
				f, e := toF(a)
				if e != nil {
					er = e
					return
				}
				vals = append(vals, f)
			})
			return er
		})
		return vals, shape, dt, e
	}
	return nil, nil, dt, fmt.Errorf("unexpected value %T", v)
}

func toF(a interface{}) (float64, error) {
	switch x := a.(type) {
	case float64:
		return x, nil
	case float32:
		return float64(x), nil
	case int:
		return float64(x), nil
	case int32:
		return float64(x), nil
	case int64:
		return float64(x), nil
	case uint8:
		return float64(x), nil
	case bool:
		if x {
			return 1, nil
		}
		return 0, nil
	}
	return 0, fmt.Errorf("element %T", a)
}

// SameVal compares a value against numbers with a tolerance. Scalars and
// one-element shapes of no dimensions are the same; otherwise the shape must
// match exactly.
func SameVal(v G.Value, shape []int, want []float64, tol float64) error {
	got, gs, _, err := Floats(v)
	if err != nil {
		return err
	}
	if !ref.EqShape(gs, shape) {
		return fmt.Errorf("shape %v, want %v (value %v want %v)", gs, shape, got, want)
	}
	return Close(got, want, tol)
}

// Close compares numbers.
func Close(got, want []float64, tol float64) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d elements, want %d", len(got), len(want))
	}
	for i := range got {
		if math.IsNaN(got[i]) != math.IsNaN(want[i]) || math.Abs(got[i]-want[i]) > tol {
			return fmt.Errorf("element %d is %v, want %v (tolerance %.2g); got %v want %v", i, got[i], want[i], tol, clip(got), clip(want))
		}
	}
	return nil
}

func clip(x []float64) interface{} {
	if len(x) > 24 {
		return fmt.Sprintf("%v...", x[:24])
	}
	return x
}

// DtOK checks a value's dtype.
func DtOK(v G.Value, dt tensor.Dtype) error {
	if v == nil {
		return fmt.Errorf("nil value")
	}
	if v.Dtype() != dt {
		return fmt.Errorf("dtype %v, want %v", v.Dtype(), dt)
	}
	return nil
}
