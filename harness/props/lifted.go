package props

import (
	"fmt"

	"github.com/pkg/errors"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/pbt"
)

// tagged is a type of the user's that carries a note along with a node.
type tagged struct {
	n    *G.Node
	note string
}

func (x tagged) Node() *G.Node  { return x.n }
func (x tagged) Nodes() G.Nodes { return G.Nodes{x.n} }
func (x tagged) Err() error     { return nil }
func (x tagged) Mk(ins ...G.Input) G.Input {
	if len(ins) != 1 {
		return nil
	}
	note := x.note
	if y, ok := ins[0].(tagged); ok {
		note += y.note
	}
	return tagged{ins[0].Node(), note}
}

// plainInput is a type of the user's without any of that.
type plainInput struct{ n *G.Node }

func (x plainInput) Node() *G.Node  { return x.n }
func (x plainInput) Nodes() G.Nodes { return G.Nodes{x.n} }

func lifted() pbt.Check {
	return func(t *pbt.T) {
		g := G.NewGraph()
		type item struct {
			in   G.Input
			n    *G.Node // when there is no error
			err  error   // the first error on the way
			note string  // of tagged ones
			kind int     // 0 node, 1 tagged, 2 other
		}
		var items []item
		for k := t.Int(1, 3); k > 0; k-- {
			s := []int{t.Int(2, 3), t.Int(2, 3)}
			n := G.NewMatrix(g, tensor.Float64, G.WithShape(s...), G.WithName(fmt.Sprintf("x%d", k)))
			it := item{in: n, n: n, kind: t.Below(3)}
			switch it.kind {
			case 1:
				it.note = fmt.Sprintf("%d", k)
				it.in = tagged{n, it.note}
			case 2:
				it.in = plainInput{n}
			}
			items = append(items, it)
			t.Logf("i%d = %v kind %d", len(items)-1, s, it.kind)
		}
		if t.Chance(1, 4) {
			e := errors.Errorf("trouble %d", len(items))
			items = append(items, item{in: G.Err(e), err: e})
			t.Logf("i%d = an error", len(items)-1)
		}
		calls := 0
		failWith := error(nil)
		wrap1 := func(f func(*G.Node) (*G.Node, error)) func(*G.Node) (*G.Node, error) {
			return func(a *G.Node) (*G.Node, error) {
				calls++
				if failWith != nil {
					return nil, failWith
				}
				return f(a)
			}
		}
		bad := 0
		for k := t.Int(1, 8); k > 0; k-- {
			a, b := items[t.Below(len(items))], items[t.Below(len(items))]
			failWith = nil
			if t.Chance(1, 6) {
				failWith = errors.Errorf("failure %d", k)
			}
			calls = 0
			var res G.Result
			var want *G.Node
			var werr error
			two := true
			form := t.Below(6)
			// what the plain function gives
			plain := func(f func() (*G.Node, error)) {
				switch {
				case a.err != nil:
					werr = a.err
				case two && b.err != nil:
					werr = b.err
				case failWith != nil:
					werr = failWith
				default:
					want, werr = f()
				}
			}
			switch form {
			case 0:
				two = false
				u := []func(*G.Node) (*G.Node, error){G.Tanh, G.Neg, G.Square}[t.Below(3)]
				plain(func() (*G.Node, error) { return u(a.n) })
				res = G.Lift1(wrap1(u))(a.in)
			case 1:
				two = false
				var ax []int
				for k := t.Below(4); k > 0; k-- {
					ax = append(ax, t.Below(3))
				}
				f := []func(*G.Node, ...int) (*G.Node, error){G.Sum, G.Mean}[t.Below(2)]
				if a.n != nil && a.n.Dims() < 2 {
					ax = nil
				}
				plain(func() (*G.Node, error) { return f(a.n, ax...) })
				res = G.Lift1Axial(func(x *G.Node, axes ...int) (*G.Node, error) {
					calls++
					if fmt.Sprint(axes) != fmt.Sprint(ax) {
						t.Failf("axes %v arrive as %v", ax, axes)
					}
					if failWith != nil {
						return nil, failWith
					}
					return f(x, axes...)
				})(a.in, ax...)
			case 2, 3:
				f := []func(a, b *G.Node) (*G.Node, error){G.Add, G.Sub, G.HadamardProd, G.Mul}[t.Below(4)]
				plain(func() (*G.Node, error) { return f(a.n, b.n) })
				res = G.Lift2(func(x, y *G.Node) (*G.Node, error) {
					calls++
					if failWith != nil {
						return nil, failWith
					}
					return f(x, y)
				})(a.in, b.in)
			case 4:
				lp, rp := []byte(nil), []byte(nil)
				if t.Bool() {
					rp = []byte{byte(t.Below(2))}
				} else if t.Bool() {
					lp = []byte{byte(t.Below(2))}
				}
				if t.Chance(1, 4) {
					lp = append(lp, byte(t.Below(2)))
					rp = append(rp, byte(t.Below(2)))
				}
				plain(func() (*G.Node, error) { return G.BroadcastAdd(a.n, b.n, lp, rp) })
				res = G.Lift2Broadcast(func(x, y *G.Node, l, r []byte) (*G.Node, error) {
					calls++
					if string(l) != string(lp) || string(r) != string(rp) {
						t.Failf("patterns %v %v arrive as %v %v", lp, rp, l, r)
					}
					if failWith != nil {
						return nil, failWith
					}
					return G.BroadcastAdd(x, y, l, r)
				})(a.in, b.in, lp, rp)
			default:
				// a result of one's own
				two = false
				calls = 1
				plain(func() (*G.Node, error) { return a.n, nil })
				e := werr
				if t.Bool() {
					var in G.Input = a.in
					if e != nil && t.Bool() {
						in = nil
					}
					res = G.LiftResult(in, e)
					if e == nil {
						if res.Err() != nil || res.Node() != a.n {
							t.Failf("lifting %v gives node %v, error %v", a.n, res.Node(), res.Err())
						}
						if tg, ok := res.(tagged); a.kind == 1 && (!ok || tg.note != a.note) {
							t.Failf("the lifted result is %T (%v), not the user's type with note %q", res, res, a.note)
						}
						items = append(items, item{in: res, n: a.n, kind: a.kind, note: a.note})
						t.Logf("i%d = lifted", len(items)-1)
						continue
					}
				} else {
					res = G.TransformResult(a.in)(a.n, e)
				}
			}
			t.Logf("i%d = form %d, error %v", len(items), form, werr != nil)
			if res == nil {
				t.Failf("no result")
			}
			wantCalls := 1
			if a.err != nil || two && b.err != nil {
				wantCalls = 0
			}
			if form < 5 && calls != wantCalls {
				t.Failf("the function was called %d times, want %d (error among the inputs: %v)", calls, wantCalls, wantCalls == 0)
			}
			it := item{in: res, n: want, err: werr}
			if werr != nil {
				bad++
				if res.Err() == nil || res.Node() != nil || res.Nodes() != nil {
					t.Failf("the error %q gives node %v, error %v", werr, res.Node(), res.Err())
				}
				// errors of the plain function are made anew each time
				if form >= 5 || failWith != nil || wantCalls == 0 {
					if errors.Cause(res.Err()) != errors.Cause(werr) {
						t.Failf("the error %q became %q", werr, res.Err())
					}
				} else {
					it.err = res.Err()
				}
				if G.CheckOne(res) == nil {
					t.Failf("the check does not see the error")
				}
				items = append(items, it)
				continue
			}
			if res.Err() != nil {
				t.Failf("an error %v, but the plain function succeeds", res.Err())
			}
			if G.CheckOne(res) != nil {
				t.Failf("the check sees an error: %v", G.CheckOne(res))
			}
			if res.Node() != want {
				t.Failf("node %v, but the plain function gives %v", res.Node(), want)
			}
			if ns := res.Nodes(); len(ns) != 1 || ns[0] != want {
				t.Failf("nodes %v, but the plain function gives %v", ns, want)
			}
			// a type of the user's is kept, the last one wins
			note, has := "", false
			for _, x := range []item{a, b} {
				if x.kind == 1 {
					note, has = x.note+note, true
				}
				if !two {
					break
				}
			}
			if has {
				it.kind, it.note = 1, note
				tg, ok := res.(tagged)
				if !ok || tg.note != note {
					t.Failf("the result is %T (%v), not the user's type with note %q", res, res, note)
				}
				it.in = tg
			} else if n, ok := res.(*G.Node); !ok || n != want {
				t.Failf("the result is a %T, not the node", res)
			}
			items = append(items, it)
		}
		// all together
		var ins []G.Input
		var first error
		for _, it := range items {
			ins = append(ins, it.in)
			if it.err != nil && first == nil {
				first = it.err
			}
		}
		ns, err := G.NodesFromInputs(ins...)
		if first != nil {
			if err == nil || errors.Cause(err) != errors.Cause(first) {
				t.Failf("the nodes of all results come with error %v, the first is %v", err, first)
			}
		} else {
			if err != nil || len(ns) != len(items) {
				t.Failf("the nodes of all results: %v %v", ns, err)
			}
			for i, it := range items {
				if ns[i] != it.n {
					t.Failf("node %d of all results is %v, not %v", i, ns[i], it.n)
				}
			}
		}
		t.Label("errors=%v", bad > 0)
		if len(items) > 3 {
			t.NonTrivial()
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID:    "P34",
		Rule:  "A case draws inputs (nodes, nodes in types of the user's with and without a constructor, errors) and chains up to eight lifted functions over them, some of which fail by order or because operands do not fit. Every result is compared with the plain function on the same nodes: the same node, or the first error on the way and no further call. Non-trivial: more than three items.",
		Parts: []pbt.Part{{Name: "lifted", Check: lifted(), Quick: 480000, Thorough: 1000000}},
	})
}
