package props

import (
	"fmt"
	"sort"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/pbt"
)

// tally is a model of a collection.
type tally map[*G.Node]bool

func tallyOf(ns []*G.Node) tally {
	m := tally{}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

func (a tally) equal(b tally) bool {
	if len(a) != len(b) {
		return false
	}
	for n := range a {
		if !b[n] {
			return false
		}
	}
	return true
}

func (a tally) names() string {
	var s []string
	for n := range a {
		if n == nil {
			s = append(s, "nothing")
		} else {
			s = append(s, n.Name())
		}
	}
	sort.Strings(s)
	return fmt.Sprint(s)
}

func membersOf(s G.NodeSet) tally {
	m := tally{}
	for n := range s {
		m[n] = true
	}
	return m
}

// collections compares lists and sets of nodes with sets of the model over a
// history of operations on a few of them.
func collections() pbt.Check {
	return func(t *pbt.T) {
		g, h := G.NewGraph(), G.NewGraph()
		var all []*G.Node
		for k := t.Tail(2, 7, 40); k > 0; k-- {
			switch t.Below(8) {
			case 0:
				all = append(all, G.NewScalar(h, tensor.Float64, G.WithName(fmt.Sprintf("h%d", k))))
			case 1:
				all = append(all, G.NewConstant(float64(k), G.WithName(fmt.Sprintf("c%d", k))))
			default:
				all = append(all, G.NewScalar(g, tensor.Float64, G.WithName(fmt.Sprintf("n%d", k))))
			}
		}
		one := func() *G.Node { return all[t.Below(len(all))] }
		// lists lie in larger arrays whose further elements are not theirs
		draw := func(dup bool) (whole, list G.Nodes) {
			k := t.Tail(0, 5, 60)
			have := tally{}
			for i := 0; i < k; i++ {
				n := one()
				if have[n] && !dup {
					continue
				}
				have[n] = true
				whole = append(whole, n)
			}
			k = len(whole)
			for i := t.Below(4); i > 0; i-- {
				whole = append(whole, one())
			}
			return whole, whole[:k:len(whole)]
		}
		same := func(what string, got, want tally) {
			if !got.equal(want) {
				t.Failf("%s is %s, not %s", what, got.names(), want.names())
			}
		}
		truth := func(what string, got, want bool) {
			if got != want {
				t.Failf("%s is %v", what, got)
			}
		}
		if t.Bool() {
			aw, a := draw(true)
			bw, b := draw(true)
			A, B := tallyOf(a), tallyOf(b)
			keepA, keepB := append([]*G.Node(nil), aw...), append([]*G.Node(nil), bw...)
			t.Logf("lists %v (of %v) and %v (of %v)", a, aw, b, bw)
			t.Label("lists")
			if len(A) > 1 && len(B) > 0 {
				t.NonTrivial()
			}
			var res G.Nodes
			want := tally{}
			what := ""
			switch t.Below(6) {
			case 0:
				what = "difference"
				res = a.Difference(b)
				for n := range A {
					if !B[n] {
						want[n] = true
					}
				}
			case 1:
				what = "intersection"
				res = a.Intersect(b)
				for n := range A {
					if B[n] {
						want[n] = true
					}
				}
			case 2:
				what = "list as a set"
				res = append(G.Nodes(nil), a...).Set()
				want = A
			case 3:
				what = "list with one added"
				n := one()
				res = append(G.Nodes(nil), a...)
				res = res.Add(n)
				for m := range A {
					want[m] = true
				}
				want[n] = true
				if k := len(a); len(res) != k && len(res) != k+1 || A[n] != (len(res) == k) {
					t.Failf("adding %v to %v gives %v", n, a, res)
				}
				for i := range a {
					if res[i] != a[i] {
						t.Failf("adding %v to %v gives %v", n, a, res)
					}
				}
				if !A[n] && res[len(a)] != n {
					t.Failf("adding %v to %v gives %v", n, a, res)
				}
			case 4:
				n := one()
				truth(fmt.Sprintf("that %v contains %v", a, n), a.Contains(n), A[n])
				res, want, what = a, A, "list"
				var gr *G.ExprGraph
				ok := len(a) > 0
				for _, n := range a {
					if isConst(n) {
						continue
					}
					if gr == nil {
						gr = n.Graph()
					}
					ok = ok && n.Graph() == gr
				}
				truth(fmt.Sprintf("that all of %v are of one graph", a), a.AllSameGraph(), ok)
			default:
				// the same elements equally often, in any order
				c := append(G.Nodes(nil), a...)
				for i := range c {
					j := t.Below(i + 1)
					c[i], c[j] = c[j], c[i]
				}
				truth(fmt.Sprintf("that %v equals %v", a, c), a.Equals(c), true)
				if !A.equal(B) || len(a) != len(b) {
					truth(fmt.Sprintf("that %v equals %v", a, b), a.Equals(b), false)
					truth(fmt.Sprintf("that %v equals %v", b, a), b.Equals(a), false)
				}
				res, want, what = a, A, "list"
			}
			same("the "+what, tallyOf(res), want)
			if what != "list" && what != "list with one added" && len(res) != len(want) {
				t.Failf("the %s is %v, with repetitions", what, res)
			}
			for i, n := range keepA {
				if aw[i] != n {
					t.Failf("taking the %s changed the list from %v to %v", what, keepA, aw)
				}
			}
			for i, n := range keepB {
				if bw[i] != n {
					t.Failf("taking the %s changed the list from %v to %v", what, keepB, bw)
				}
			}
			return
		}
		// sets
		t.Label("sets")
		var sets []G.NodeSet
		var model []tally
		for k := 3; k > 0; k-- {
			_, l := draw(true)
			sets = append(sets, G.NewNodeSet(l...))
			model = append(model, tallyOf(l))
			t.Logf("set %s", model[len(model)-1].names())
		}
		if len(model[0]) > 1 && len(model[1]) > 0 {
			t.NonTrivial()
		}
		for k := t.Tail(1, 8, 40); k > 0; k-- {
			i, j, d := t.Below(3), t.Below(3), t.Below(3)
			a, b, A, B := sets[i], sets[j], model[i], model[j]
			n := one()
			res := tally{}
			switch t.Below(12) {
			case 0:
				t.Logf("%d = %d union %d", d, i, j)
				sets[d] = a.Union(b)
				for m := range A {
					res[m] = true
				}
				for m := range B {
					res[m] = true
				}
				model[d] = res
			case 1:
				t.Logf("%d = %d intersect %d", d, i, j)
				sets[d] = a.Intersect(b)
				for m := range A {
					if B[m] {
						res[m] = true
					}
				}
				model[d] = res
			case 2:
				t.Logf("%d = %d without %d", d, i, j)
				sets[d] = a.Difference(b)
				for m := range A {
					if !B[m] {
						res[m] = true
					}
				}
				model[d] = res
			case 3:
				t.Logf("%d = what is in one of %d and %d", d, i, j)
				sets[d] = a.SymmetricDifference(b)
				for m := range A {
					if !B[m] {
						res[m] = true
					}
				}
				for m := range B {
					if !A[m] {
						res[m] = true
					}
				}
				model[d] = res
			case 4:
				t.Logf("%d = clone of %d", d, i)
				sets[d] = a.Clone()
				for m := range A {
					res[m] = true
				}
				model[d] = res
			case 5:
				t.Logf("add %s to %d", n.Name(), i)
				truth(fmt.Sprintf("adding %s to %s", n.Name(), A.names()), a.Add(n), !A[n])
				A[n] = true
			case 6:
				t.Logf("remove %s from %d", n.Name(), i)
				a.Remove(n)
				delete(A, n)
			case 7:
				t.Logf("clear %d", i)
				sets[i].Clear()
				model[i] = tally{}
			case 8:
				sub := true
				for m := range A {
					sub = sub && B[m]
				}
				truth(fmt.Sprintf("that %s is part of %s", A.names(), B.names()), a.IsSubset(b), sub)
				truth(fmt.Sprintf("that %s has as part %s", B.names(), A.names()), b.IsSuperset(a), sub)
			case 9:
				truth(fmt.Sprintf("that %s equals %s", A.names(), B.names()), a.Equal(b), A.equal(B))
			case 10:
				_, l := draw(true)
				in := true
				for _, m := range l {
					in = in && A[m]
				}
				truth(fmt.Sprintf("that %s contains %v", A.names(), l), a.ContainsAll(l...), in)
				truth(fmt.Sprintf("that %s contains %s", A.names(), n.Name()), a.Contains(n), A[n])
			default:
				got := tally{}
				c := 0
				for m := range a.Iter() {
					got[m] = true
					c++
				}
				same("going through set "+fmt.Sprint(i), got, A)
				sl := a.ToSlice()
				same("the slice of set "+fmt.Sprint(i), tallyOf(sl), A)
				if c != len(A) || len(sl) != len(A) {
					t.Failf("%s is gone through in %d steps and has a slice of %d", A.names(), c, len(sl))
				}
			}
			for q := range sets {
				same(fmt.Sprintf("set %d", q), membersOf(sets[q]), model[q])
				if c := sets[q].Cardinality(); c != len(model[q]) {
					t.Failf("set %d has %d elements and says %d", q, len(model[q]), c)
				}
			}
		}
	}
}

// isConst says whether a node is a constant: it is in no graph.
func isConst(n *G.Node) bool { return n.Name() != "" && n.Name()[0] == 'c' }

func init() {
	pbt.Register(&pbt.Property{
		ID:    "P33",
		Rule:  "A case draws nodes of two graphs and constants, and either two lists of them with repetitions, lying in larger arrays, and one list operation, or three sets and a history of up to eight set operations; results, operands and the rest of the arrays are compared with sets kept by the model. Non-trivial: the first collection has more than one element and the second is not empty.",
		Parts: []pbt.Part{{Name: "collections", Check: collections(), Quick: 1200000, Thorough: 4000000}},
	})
}
