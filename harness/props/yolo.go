package props

import (
	"math"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
)

func sigmoid(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// detections decodes the output of a detection network.
func detections(t *pbt.T) {
	B, grid, stride, classes := t.Tail(1, 2, 5), t.Tail(1, 4, 13), t.Tail(1, 8, 32), t.Tail(0, 3, 20)
	anchors := make([]float32, 2*t.Tail(1, 4, 9))
	for i := range anchors {
		anchors[i] = float32(t.Int(1, 40)) / 2
	}
	var masks []int
	for i := 0; i < len(anchors)/2; i++ {
		if t.Chance(2, 3) {
			masks = append(masks, i)
		}
	}
	if len(masks) == 0 {
		masks = []int{t.Below(len(anchors) / 2)}
	}
	if t.Chance(1, 4) {
		for i, j := 0, len(masks)-1; i < j; i, j = i+1, j-1 {
			masks[i], masks[j] = masks[j], masks[i]
		}
	}
	wrong := t.Chance(1, 16)
	if wrong {
		masks[t.Below(len(masks))] = len(anchors)/2 + t.Tail(0, 1, 9)
	}
	attrs, A := 5+classes, len(masks)
	shape := []int{B, attrs * A, grid, grid}
	xs := make([]float64, B*attrs*A*grid*grid)
	draw := func() {
		for i := range xs {
			xs[i] = t.Dyadic(2, 4)
		}
	}
	draw()
	g := G.NewGraph()
	x := gen.NewLeaf(g, tensor.Float32, "x", shape, xs)
	in := x
	before := t.Chance(1, 3)
	var err error
	if before {
		// something else uses the input as well
		if in, err = G.Neg(x); err != nil {
			t.Failf("Neg: %v", err)
		}
	}
	out, err := G.YOLOv3(in, anchors, masks, grid*stride, classes, 0.5)
	if wrong {
		t.Label("no such anchor")
		t.Logf("x%v anchors %v masks %v", shape, anchors, masks)
		if err == nil {
			vm := forwardMachines[t.Below(3)].mk(g)
			defer vm.Close()
			err = gen.RunVM(vm)
		}
		if err == nil {
			t.Failf("anchors %v of %d are accepted", masks, len(anchors)/2)
		} else if strings.Contains(err.Error(), "panic") {
			t.Failf("anchors %v of %d: %v", masks, len(anchors)/2, err)
		}
		return
	}
	if err != nil {
		t.Failf("YOLOv3: %v", err)
	}
	var outV, inV G.Value
	G.Read(out, &outV)
	if before {
		G.Read(in, &inV)
	}
	oshape := []int{B, grid * grid * A, attrs}
	m := forwardMachines[t.Below(3)]
	vm := m.mk(g)
	defer vm.Close()
	t.Label("machine=%s batch=%d all=%v", m.name, B, A == len(anchors)/2)
	if grid > 1 {
		t.NonTrivial()
	}
	for r := t.Int(1, 3); r > 0; r-- {
		t.Logf("x%v=%v after Neg %v, anchors %v masks %v stride %d classes %d on %s", shape, xs, before, anchors, masks, stride, classes, m.name)
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run: %v", err)
		}
		want := make([]float64, len(xs))
		for b := 0; b < B; b++ {
			for a := 0; a < A; a++ {
				for k := 0; k < attrs; k++ {
					for row := 0; row < grid; row++ {
						for col := 0; col < grid; col++ {
							v := xs[((b*attrs*A+a*attrs+k)*grid+row)*grid+col]
							if before {
								v = -v
							}
							switch k {
							case 0:
								v = (sigmoid(v) + float64(col)) * float64(stride)
							case 1:
								v = (sigmoid(v) + float64(row)) * float64(stride)
							case 2, 3:
								v = math.Exp(v) * float64(anchors[2*masks[a]+k-2])
							default:
								v = sigmoid(v)
							}
							want[((b*grid+row)*grid+col)*A*attrs+a*attrs+k] = v
						}
					}
				}
			}
		}
		if err := gen.SameVal(outV, oshape, want, 1e-3); err != nil {
			t.Failf("output: %v", err)
		}
		if err := gen.SameVal(x.Value(), shape, xs, 0); err != nil {
			t.Failf("the input changed: %v", err)
		}
		if before {
			neg := make([]float64, len(xs))
			for i := range xs {
				neg[i] = -xs[i]
			}
			if err := gen.SameVal(inV, shape, neg, 0); err != nil {
				t.Failf("the operand changed: %v", err)
			}
		}
		if r > 1 {
			vm.Reset()
			if t.Bool() {
				draw()
				if err := gen.LetVals(x, tensor.Float32, shape, xs); err != nil {
					t.Failf("Let: %v", err)
				}
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P36",
		Rule: "A case is a batch of one or two float32 outputs of a detection network on a grid of one to four cells each way with one to four anchors, some of them in use, and up to three classes, run one to three times with old or new inputs on a tape or lisp machine; every box, confidence and class score is compared with the definition, and the input must be unchanged; selecting an anchor that is not there must give an error. Non-trivial: more than one cell.",
		Parts: []pbt.Part{
			{Name: "detections", Check: detections, Quick: 240000, Thorough: 1000000},
		}})
}
