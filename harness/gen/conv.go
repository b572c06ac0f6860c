package gen

import (
	"fmt"

	G "gorgonia.org/gorgonia"
	nnops "gorgonia.org/gorgonia/ops/nn"
	"gorgonia.org/tensor"

	"verif/harness/ref"
)

// image picks a batch of images: (batch, channels, height, width).
func (b *Builder) image(h1 bool) int {
	if b.T.Chance(2, 3) {
		if i := b.Pick(func(s []int) bool { return len(s) == 4 && (!h1 || s[2] == 1) }); i >= 0 {
			return i
		}
	}
	big, deep := 6, 3
	if b.MaxElems < 100 {
		big, deep = 4, 2
	}
	h, w := b.T.Int(1, big), b.T.Int(1, big)
	if h1 {
		h, w = 1, b.T.Int(1, big*3/2)
	}
	if b.MaxElems >= 100 && b.T.Chance(1, 12) { // more images than processors
		return b.LeafDistinct(b.T.Int(4, 20), b.T.Int(1, 2), (h+1)/2, (w+1)/2)
	}
	if b.MaxElems >= 100 && b.T.Chance(1, 25) { // one larger picture
		return b.LeafDistinct(1, b.T.Int(1, 2), (h+1)*2, (w+1)*2)
	}
	return b.LeafDistinct(b.T.Int(1, deep), b.T.Tail(1, deep, 6), h, w)
}

// LeafDistinct is a leaf whose values mostly differ, so that maxima are seldom tied.
func (b *Builder) LeafDistinct(shape ...int) int {
	v := b.Values(ref.Prod(shape))
	if b.T.Chance(3, 4) {
		n := len(v)
		step := 1
		for _, k := range []int{7, 11, 13, 17} {
			if n%k != 0 {
				step = k
				break
			}
		}
		off := b.T.Below(n)
		for i := range v {
			v[i] = float64((i*step+off)%n-n/2) / 8
		}
	}
	return b.LeafVals(shape, v, false)
}

// window is the geometry of a sliding window.
type window struct{ k, lead, trail, stride, dil int }

func (w window) out(n int) int {
	if n+w.lead+w.trail < w.dil*(w.k-1)+1 {
		return 0
	}
	return (n+w.lead+w.trail-(w.dil*(w.k-1)+1))/w.stride + 1
}

// at is the input position of element i of window o, or -1 in the padding.
func (w window) at(n, o, i int) int {
	p := o*w.stride - w.lead + i*w.dil
	if p < 0 || p >= n {
		return -1
	}
	return p
}

func (b *Builder) window(n int, dilate bool) (w window) {
	w.k = b.T.Tail(1, 3, 6)
	if b.T.Chance(1, 10) {
		w.k = n
	}
	if b.T.Bool() {
		w.lead = b.T.Tail(0, 2, 5)
	}
	w.trail = w.lead
	w.stride = []int{1, 2, 1, 3, 4, 5, 6}[b.T.Tail(0, 3, 6)]
	w.dil = 1
	if dilate {
		w.dil = []int{1, 2, 1, 3, 4, 5}[b.T.Tail(0, 3, 5)]
	}
	return
}

// Conv2d is cross-correlation of images with a bank of filters.
var Conv2d = Spec{"Conv2d", func(b *Builder) *Step { return conv(b, false) }}

// Conv1d is the same along the last axis only.
var Conv1d = Spec{"Conv1d", func(b *Builder) *Step { return conv(b, true) }}

func conv(b *Builder, oneD bool) *Step {
	x := b.image(oneD && b.T.Bool())
	s := b.Shape(x)
	wh := window{k: 1, stride: 1, dil: 1}
	if !oneD {
		wh = b.window(s[2], true)
	}
	ww := b.window(s[3], true)
	oh, ow := wh.out(s[2]), ww.out(s[3])
	if oh == 0 || ow == 0 {
		return nil
	}
	nn := b.T.Chance(1, 4) // by way of the other package
	layers := b.T.Tail(1, 3, 8)
	f := b.Want(layers, s[1], wh.k, ww.k)
	op := "Conv2d"
	defaults := !oneD && wh.lead == 0 && ww.lead == 0 && b.T.Bool()
	if oneD {
		op = "Conv1d"
	}
	return &Step{Op: op, Args: fmt.Sprintf("{h=%+v w=%+v}", wh, ww), In: []int{x, f},
		Build: func(in []*G.Node) (*G.Node, error) {
			if oneD && nn {
				return nnops.Conv1d(in[0], in[1], ww.k, ww.lead, ww.stride, ww.dil)
			}
			if oneD {
				return G.Conv1d(in[0], in[1], ww.k, ww.lead, ww.stride, ww.dil)
			}
			pad, dil := []int{wh.lead, ww.lead}, []int{wh.dil, ww.dil}
			if defaults {
				pad = nil
				if wh.dil == 1 && ww.dil == 1 {
					dil = nil
				}
			}
			if nn {
				return nnops.Conv2d(in[0], in[1], tensor.Shape{wh.k, ww.k}, pad, []int{wh.stride, ww.stride}, dil)
			}
			return G.Conv2d(in[0], in[1], tensor.Shape{wh.k, ww.k}, pad, []int{wh.stride, ww.stride}, dil)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := ref.New(s[0], layers, oh, ow)
			ref.Each(r.Shape, func(co []int, n int) {
				sum := ref.C(0)
				for ch := 0; ch < s[1]; ch++ {
					for i := 0; i < wh.k; i++ {
						for j := 0; j < ww.k; j++ {
							y, xx := wh.at(s[2], co[2], i), ww.at(s[3], co[3], j)
							if y < 0 || xx < 0 {
								continue
							}
							sum = c.Add(sum, c.Mul(in[0].At(co[0], ch, y, xx), in[1].At(co[1], ch, i, j)))
						}
					}
				}
				r.D[n] = sum
			})
			return r
		}}
}

// Im2Col lays out the windows of images as rows.
var Im2Col = Spec{"Im2Col", func(b *Builder) *Step {
	x := b.image(false)
	s := b.Shape(x)
	wh, ww := b.window(s[2], true), b.window(s[3], true)
	oh, ow := wh.out(s[2]), ww.out(s[3])
	if oh == 0 || ow == 0 {
		return nil
	}
	return &Step{Op: "Im2Col", Args: fmt.Sprintf("{h=%+v w=%+v}", wh, ww), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			return G.Im2Col(in[0], tensor.Shape{wh.k, ww.k}, tensor.Shape{wh.lead, ww.lead}, tensor.Shape{wh.stride, ww.stride}, tensor.Shape{wh.dil, ww.dil})
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := ref.New(s[0], oh, ow, s[1]*wh.k*ww.k)
			ref.Each(r.Shape, func(co []int, n int) {
				ch := co[3] / (wh.k * ww.k)
				i, j := co[3]/ww.k%wh.k, co[3]%ww.k
				y, xx := wh.at(s[2], co[1], i), ww.at(s[3], co[2], j)
				if y < 0 || xx < 0 {
					r.D[n] = ref.C(0)
					return
				}
				r.D[n] = in[0].At(co[0], ch, y, xx)
			})
			return r
		}}
}}

// Pooling operations.
var (
	MaxPool2D     = Spec{"MaxPool2D", func(b *Builder) *Step { return pool(b, "MaxPool2D") }}
	MaxPool1D     = Spec{"MaxPool1D", func(b *Builder) *Step { return pool(b, "MaxPool1D") }}
	AveragePool2D = Spec{"AveragePool2D", func(b *Builder) *Step { return pool(b, "AveragePool2D") }}
	AveragePool1D = Spec{"AveragePool1D", func(b *Builder) *Step { return pool(b, "AveragePool1D") }}
)

func pool(b *Builder, op string) *Step {
	nn := b.T.Chance(1, 4)
	oneD := op == "MaxPool1D" || op == "AveragePool1D"
	max := op == "MaxPool1D" || op == "MaxPool2D"
	x := b.image(oneD && b.T.Bool())
	s := b.Shape(x)
	wh := window{k: 1, stride: 1, dil: 1}
	if !oneD {
		wh = b.window(s[2], false)
	}
	ww := b.window(s[3], false)
	four := false
	if !oneD && b.T.Chance(1, 3) {
		four = true
		wh.trail, ww.trail = b.T.Int(0, 2), b.T.Int(0, 2)
	}
	if max || b.T.Bool() {
		for _, w := range []*window{&wh, &ww} { // every window meets the image
			if w.lead >= w.k {
				w.lead = w.k - 1
				if !four {
					w.trail = w.lead
				}
			}
			if w.trail >= w.k {
				w.trail = w.k - 1
			}
		}
	}
	oh, ow := wh.out(s[2]), ww.out(s[3])
	if oh == 0 || ow == 0 {
		return nil
	}
	return &Step{Op: op, Args: fmt.Sprintf("{h=%+v w=%+v}", wh, ww), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) {
			pad := []int{wh.lead, ww.lead}
			if four {
				pad = []int{wh.trail, wh.lead, ww.trail, ww.lead}
			}
			k, st := tensor.Shape{wh.k, ww.k}, []int{wh.stride, ww.stride}
			switch op {
			case "MaxPool2D":
				if nn {
					return nnops.MaxPool2D(in[0], k, pad, st)
				}
				return G.MaxPool2D(in[0], k, pad, st)
			case "MaxPool1D":
				return G.MaxPool1D(in[0], ww.k, ww.lead, ww.stride)
			case "AveragePool1D":
				return G.AveragePool1D(in[0], ww.k, ww.lead, ww.stride)
			}
			return G.AveragePool2D(in[0], k, pad, st)
		},
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			r := ref.New(s[0], s[1], oh, ow)
			ref.Each(r.Shape, func(co []int, n int) {
				var xs []ref.N
				for i := 0; i < wh.k; i++ {
					for j := 0; j < ww.k; j++ {
						y, xx := wh.at(s[2], co[2], i), ww.at(s[3], co[3], j)
						if y >= 0 && xx >= 0 {
							xs = append(xs, in[0].At(co[0], co[1], y, xx))
						}
					}
				}
				if max {
					r.D[n] = c.MaxN(xs, op)
				} else {
					r.D[n] = c.Div(c.SumN(xs), ref.C(float64(wh.k*ww.k)))
				}
			})
			return r
		}}
}

// GlobalAveragePool2D averages every channel.
var GlobalAveragePool2D = Spec{"GlobalAveragePool2D", func(b *Builder) *Step {
	x := b.image(false)
	s := b.Shape(x)
	return &Step{Op: "GlobalAveragePool2D", In: []int{x}, Build: un(G.GlobalAveragePool2D),
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Reduce([]int{2, 3}, func(xs []ref.N) ref.N {
				return c.Div(c.SumN(xs), ref.C(float64(len(xs))))
			}).Reshape(s[0], s[1], 1, 1)
		}}
}}

// ConvSpecs are sliding-window operations.
func ConvSpecs() []Spec {
	return []Spec{Conv2d, Conv1d, Im2Col, MaxPool2D, MaxPool1D, AveragePool2D, AveragePool1D, GlobalAveragePool2D}
}
