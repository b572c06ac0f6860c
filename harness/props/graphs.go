package props

import (
	"fmt"
	"math"
	"strings"

	"gonum.org/v1/gonum/graph"
	G "gorgonia.org/gorgonia"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// ask puts questions to a graph that must not change it.
func ask(t *pbt.T, g *G.ExprGraph) {
	for k := t.Below(3); k > 0; k-- {
		switch t.Below(6) {
		case 0:
			g.Roots()
			t.Logf("ask roots")
		case 1:
			G.Sort(g)
			t.Logf("ask order")
		case 2:
			_ = g.ToDot()
			t.Logf("ask dot")
		case 3:
			g.Inputs()
		case 4:
			if ns := g.AllNodes(); len(ns) > 0 {
				n := ns[t.Below(len(ns))]
				g.To(n.ID())
				g.Node(n.ID())
			}
		default:
			_ = g.String()
		}
	}
}

// canCost says whether the last result of a program can be part of a cost.
func canCost(p *gen.Prog) bool {
	r := p.Roots()
	return len(r) > 0 && !p.Vals[r[len(r)-1]].Step.Bool
}

// growing runs a program, extends its graph and runs the extended program.
func growing() pbt.Check {
	flist := allSpecs()
	tlist := diffSpecs()
	llist := lispSpecs()
	return func(t *pbt.T) {
		mode := t.Below(4)
		names := []string{"tape", "tape with gradient", "lisp forwards", "lisp"}
		list := [][]gen.Spec{flist, tlist, flist, llist}[mode]
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 16
		b.Grad = mode == 1 || mode == 3
		b.NoOneElem = mode == 3
		seedLeaves(b, 1, 3)
		randomProgram(t, b, list, t.Int(1, 3))
		if !canCost(b.P) {
			t.Discard("no operation was applicable")
		}
		c1 := costOf(b, true)
		k := b.P.NumSteps()
		randomProgram(t, b, list, t.Int(1, 3))
		if b.P.NumSteps() == k || !canCost(b.P) {
			t.Discard("no operation was applicable")
		}
		c2 := costOf(b, true)
		p, at := b.P.PruneMap(c2)
		if at[c1] < 0 {
			t.Discard("the first cost is not used")
		}
		c1, c2 = at[c1], at[c2]
		t.Logf("%s first up to v%d on %s", p, c1, names[mode])
		t.Label("%s dtype=%v", names[mode], p.Dt)
		t.NonTrivial()
		first := p.Needs(c1)
		bt := &gen.Built{G: G.NewGraph()}
		if err := p.BuildPart(bt, true, func(i int) bool { return first[i] }); err != nil {
			t.Failf("%v", err)
		}
		ask(t, bt.G)
		dangling := func(cost int) bool {
			for _, n := range bt.G.AllNodes() {
				if n != bt.Nodes[cost] && bt.G.To(n.ID()).Len() == 0 {
					return true
				}
			}
			return false
		}
		if mode == 3 && dangling(c1) {
			t.Discard("a rewritten operation left an unused node")
		}
		mk := func() G.VM {
			switch mode {
			case 2:
				return G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
			case 3:
				return G.NewLispMachine(bt.G)
			}
			return G.NewTapeMachine(bt.G)
		}
		vm := mk()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("first run: %v", err)
		}
		checkValue(t, "first run", p, c1, bt.Nodes[c1], b.Scale)
		vm.Close()
		if mode == 3 {
			// gradients add up over runs; start afresh
			bt.G.UnbindAll()
			for _, l := range p.Leaves() {
				if first[l] {
					if err := gen.LetVals(bt.Nodes[l], p.Dt, p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals); err != nil {
						t.Failf("Let: %v", err)
					}
				}
			}
		}
		if err := p.BuildPart(bt, true, func(i int) bool { return true }); err != nil {
			t.Failf("%v", err)
		}
		ask(t, bt.G)
		if mode == 3 && dangling(c2) {
			t.Discard("a rewritten operation left an unused node")
		}
		wrt := p.Leaves()
		var gn G.Nodes
		var gv []G.Value
		if mode == 1 {
			var ns G.Nodes
			for _, l := range wrt {
				ns = append(ns, bt.Nodes[l])
			}
			if err, _ := pbt.Try(func() (e error) { gn, e = G.Grad(bt.Nodes[c2], ns...); return }); err != nil {
				t.Failf("Grad: %v", err)
			}
			gv = make([]G.Value, len(gn))
			for i := range gn {
				G.Read(gn[i], &gv[i])
			}
		}
		vm = mk()
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run of the extended graph: %v", err)
		}
		for i, v := range p.Vals {
			if v.Leaf != nil || i == c2 && bt.Root(i) || mode >= 2 {
				checkValue(t, "extended graph", p, i, bt.Nodes[i], b.Scale)
			}
		}
		if !b.Grad {
			return
		}
		want, c := p.Gradients(c2, wrt)
		if c.Scale > gen.MaxScale(p.Dt) {
			t.Discard("gradient scale")
		}
		for j, l := range wrt {
			var v G.Value
			if mode == 1 {
				v = gv[j]
			} else {
				var err error
				if v, err = bt.Nodes[l].Grad(); err != nil {
					t.Failf("gradient of v%d: %v", l, err)
				}
			}
			if err := gen.SameVal(v, p.Vals[l].Leaf.Shape, want[l], 10*gen.Tol(p.Dt, c.Scale)); err != nil {
				t.Failf("gradient of v%d in the extended graph: %v", l, err)
			}
		}
	}
}

func nodesOf(it graph.Nodes) (out []*G.Node) {
	if it == nil {
		return nil
	}
	for it.Next() {
		out = append(out, it.Node().(*G.Node))
	}
	return
}

func setOf(ns []*G.Node) map[*G.Node]bool {
	m := map[*G.Node]bool{}
	for _, n := range ns {
		m[n] = true
	}
	return m
}

func sameSet(a, b map[*G.Node]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for n := range a {
		if !b[n] {
			return false
		}
	}
	return true
}

// structure checks what a graph says about itself.
func structure() pbt.Check {
	list := allSpecs()
	glist := diffSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 16
		grad := t.Chance(1, 3)
		l := list
		if grad {
			b.Grad = true
			l = glist
		}
		seedLeaves(b, 0, 3)
		randomProgram(t, b, l, t.Tail(1, 9, 40))
		if b.P.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		cost := -1
		if grad {
			cost = costOf(b, t.Bool())
		}
		p := b.P
		t.Logf("%s grad=%v", p, grad)
		g := G.NewGraph()
		bt := &gen.Built{G: g}
		parts := t.Int(1, 3)
		for k := 1; k <= parts; k++ {
			upto := len(p.Vals) * k / parts
			if err := p.BuildPart(bt, true, func(i int) bool { return i < upto }); err != nil {
				t.Failf("%v", err)
			}
			if k < parts {
				ask(t, g)
			}
		}
		// inputs may share a name if they differ otherwise
		namesakes := map[string][]*G.Node{}
		if t.Chance(1, 5) {
			ls := p.Leaves()
			for k := t.Int(1, 4); k > 0; k-- {
				leaf := p.Vals[ls[t.Below(len(ls))]].Leaf
				rows := 20 + len(namesakes[leaf.Name])
				n := G.NewMatrix(g, p.Dt, G.WithName(leaf.Name), G.WithShape(rows, 2))
				namesakes[leaf.Name] = append(namesakes[leaf.Name], n)
				t.Logf("another %s of %d rows", leaf.Name, rows)
				t.Label("namesake")
			}
		}
		// a constant is found again by its value
		if t.Chance(1, 5) {
			seen := map[float64]*G.Node{}
			for k := t.Int(2, 5); k > 0; k-- {
				x := []float64{100, math.Nextafter(100, 200), 0, 1e-12, 1}[t.Below(5)]
				v := G.NewF64(x)
				n := g.Constant(v)
				if o, ok := seen[x]; ok && o != n {
					t.Failf("the constant %v is %v and then %v", x, o, n)
				}
				if !G.ValueEq(n.Value(), v) || n.Graph() != g {
					t.Failf("the constant %v has the value %v", x, n.Value())
				}
				seen[x] = n
			}
			t.Label("constant")
		}
		reads := map[*G.Node]bool{}
		if t.Chance(1, 4) {
			var v G.Value
			s := p.Steps()
			reads[G.Read(bt.Nodes[s[t.Below(len(s))]], &v)] = true
		}
		if grad {
			ls := p.Leaves()
			need := p.Needs(cost)
			var ns G.Nodes
			for _, l := range ls {
				if need[l] {
					ns = append(ns, bt.Nodes[l])
				}
			}
			if err, _ := pbt.Try(func() error { _, e := G.Grad(bt.Nodes[cost], ns...); return e }); err != nil {
				t.Failf("Grad: %v", err)
			}
		}
		gone := map[*G.Node]bool{}
		if !grad && len(reads) == 0 && t.Chance(1, 3) {
			for k := t.Int(1, 3); k > 0; k-- {
				ask(t, g)
				i := t.Below(len(bt.Nodes))
				if n := bt.Nodes[i]; !gone[n] && bt.Root(i) {
					t.Logf("remove v%d", i)
					t.Label("removed")
					id := n.ID()
					g.RemoveNode(n)
					if g.Has(id) || g.Node(id) != nil {
						t.Failf("v%d is still found after its removal", i)
					}
					gone[n] = true
				}
			}
			if t.Bool() {
				// the rest can still be built upon, and what is there is found again
				for i, v := range p.Vals {
					if v.Step == nil || gone[bt.Nodes[i]] {
						continue
					}
					ok := true
					in := make([]*G.Node, len(v.Step.In))
					for j, k := range v.Step.In {
						in[j] = bt.Nodes[k]
						ok = ok && !gone[in[j]]
					}
					if ok && !strings.Contains(v.Step.Op, "Unconcat") {
						err, _ := pbt.Try(func() error { _, e := v.Step.Build(in); return e })
						if err != nil {
							t.Failf("building v%d again: %v", i, err)
						}
					}
				}
			}
		}
		all := g.AllNodes()
		t.Label("grad=%v nodes>=20=%v", grad, len(all) >= 20)
		if len(all) > 4 {
			t.NonTrivial()
		}
		if len(all) == 0 {
			t.Discard("everything was removed")
		}
		in := setOf(all)
		if len(in) != len(all) {
			t.Failf("the list of nodes repeats a node")
		}
		for i, n := range bt.Nodes {
			if in[n] == gone[n] {
				t.Failf("v%d (%s) in the graph: %v", i, name(p.Vals[i]), in[n])
			}
		}
		if !sameSet(setOf(nodesOf(g.Nodes())), in) {
			t.Failf("Nodes and AllNodes differ")
		}
		ids := map[int64]*G.Node{}
		for _, n := range all {
			if o := ids[n.ID()]; o != nil {
				t.Failf("%v and %v have the same id", o, n)
			}
			ids[n.ID()] = n
			if g.Node(n.ID()) != graph.Node(n) || !g.Has(n.ID()) {
				t.Failf("node %d is not found by its id", n.ID())
			}
			if n.Graph() != g {
				t.Failf("%v is said to be in another graph", n)
			}
		}
		if id := int64(len(all) + 1000); g.Has(id) || g.Node(id) != nil {
			t.Failf("a node is found for an id never given")
		}
		children := map[*G.Node][]*G.Node{}
		parents := map[*G.Node]map[*G.Node]bool{}
		for _, n := range all {
			children[n] = nodesOf(g.From(n.ID()))
			for _, c := range children[n] {
				if !in[c] {
					t.Failf("operand %v of %v is not in the graph", c, n)
				}
				if parents[c] == nil {
					parents[c] = map[*G.Node]bool{}
				}
				parents[c][n] = true
			}
		}
		for _, n := range all {
			if us := nodesOf(g.To(n.ID())); !sameSet(setOf(us), parents[n]) || len(us) != len(parents[n]) {
				t.Failf("users of %v are %v, want %v", n, us, parents[n])
			}
			for _, m := range all {
				down, up := parents[m][n], parents[n][m]
				if g.HasEdgeFromTo(n.ID(), m.ID()) != down {
					t.Failf("edge from %v to %v: %v, want %v", n, m, !down, down)
				}
				if g.HasEdgeBetween(n.ID(), m.ID()) != (down || up) {
					t.Failf("edge between %v and %v: %v, want %v", n, m, !(down || up), down || up)
				}
				e := g.Edge(n.ID(), m.ID())
				if (e != nil) != down {
					t.Failf("edge object from %v to %v: %v, want %v", n, m, e, down)
				}
				if e != nil && (e.From() != graph.Node(n) || e.To() != graph.Node(m)) {
					t.Failf("the edge from %v to %v goes from %v to %v", n, m, e.From(), e.To())
				}
			}
		}
		listed := map[[2]*G.Node]bool{}
		for it := g.Edges(); it.Next(); {
			e := it.Edge()
			n, m := e.From().(*G.Node), e.To().(*G.Node)
			if !parents[m][n] {
				t.Failf("the listed edge from %v to %v does not exist", n, m)
			}
			listed[[2]*G.Node{n, m}] = true
		}
		for m, ns := range parents {
			for n := range ns {
				if !listed[[2]*G.Node{n, m}] {
					t.Failf("the edge from %v to %v is not listed", n, m)
				}
			}
		}
		reach := func(from *G.Node) map[*G.Node]bool {
			seen := map[*G.Node]bool{}
			var walk func(n *G.Node)
			walk = func(n *G.Node) {
				if seen[n] {
					return
				}
				seen[n] = true
				for _, c := range children[n] {
					walk(c)
				}
			}
			walk(from)
			return seen
		}
		// orders
		for k, f := range []func(*G.ExprGraph) (G.Nodes, error){G.Sort, G.UnstableSort} {
			o, err := f(g)
			if err != nil {
				t.Failf("sort %d: %v", k, err)
			}
			pos := map[*G.Node]int{}
			for i, n := range o {
				pos[n] = i + 1
			}
			if len(o) != len(all) || len(pos) != len(all) {
				t.Failf("sort %d gives %d nodes (%d different) of %d", k, len(o), len(pos), len(all))
			}
			for n, cs := range children {
				for _, c := range cs {
					if pos[n] >= pos[c] {
						t.Failf("sort %d puts %v after its operand %v", k, n, c)
					}
				}
			}
		}
		o1, _ := G.Sort(g)
		o2, _ := G.Sort(g)
		for i := range o1 {
			if o1[i] != o2[i] {
				t.Failf("sorting twice gives two orders")
			}
		}
		// walks
		for k := 0; k < 3; k++ {
			n := all[t.Below(len(all))]
			got := map[*G.Node]bool{}
			i := 0
			for m := range G.WalkGraph(n) {
				if i == 0 && m != n {
					t.Failf("the walk from %v begins with %v", n, m)
				}
				if got[m] {
					t.Failf("the walk from %v meets %v twice", n, m)
				}
				got[m] = true
				i++
			}
			if !sameSet(got, reach(n)) {
				t.Failf("the walk from %v meets %d nodes, want %d", n, len(got), len(reach(n)))
			}
		}
		// inputs and roots
		ins := map[*G.Node]bool{}
		for _, l := range p.Leaves() {
			if !gone[bt.Nodes[l]] {
				ins[bt.Nodes[l]] = true
			}
		}
		got := setOf(g.Inputs())
		if len(got) != len(g.Inputs()) {
			t.Failf("inputs %v repeat a node", g.Inputs())
		}
		for n := range ins {
			if !got[n] {
				t.Failf("inputs are %v, without %v", g.Inputs(), n)
			}
		}
		for n := range got {
			if !ins[n] && (n.Op() != nil || !in[n]) { // an operation may add inputs of its own
				t.Failf("inputs are %v, with %v", g.Inputs(), n)
			}
		}
		roots := map[*G.Node]bool{}
		for _, n := range all {
			if len(parents[n]) == 0 {
				roots[n] = true
			}
			if len(parents[n]) == 1 {
				for r := range parents[n] {
					if reads[r] {
						roots[n] = true // only read
					}
				}
			}
		}
		if got := setOf(g.Roots()); !sameSet(got, roots) {
			t.Failf("roots are %v, want %v", g.Roots(), roots)
		}
		for _, l := range p.Leaves() {
			nm := p.Vals[l].Leaf.Name
			want := setOf(namesakes[nm])
			if !gone[bt.Nodes[l]] {
				want[bt.Nodes[l]] = true
			}
			if got := g.ByName(nm); len(got) != len(want) || !sameSet(setOf(got), want) {
				t.Failf("nodes named %s are %v, want %v", nm, got, want)
			}
		}
	}
}

// copies checks clones and subgraphs.
func copies() pbt.Check {
	list := allSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 20
		seedLeaves(b, 0, 3)
		randomProgram(t, b, list, t.Int(1, 8))
		p := b.P
		if p.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		lisp := t.Chance(1, 3)
		mk := func(g *G.ExprGraph) G.VM {
			if lisp {
				return G.NewLispMachine(g, G.ExecuteFwdOnly())
			}
			return G.NewTapeMachine(g)
		}
		if t.Bool() {
			cloned(t, b, p, mk, lisp)
			return
		}
		// a subgraph computes its roots from the inputs they need, and nothing else
		steps := p.Steps()
		k := t.Tail(1, 2, 5)
		var roots []int
		for i := 0; i < k; i++ {
			roots = append(roots, steps[t.Below(len(steps))])
		}
		need := map[int]bool{}
		for _, r := range roots {
			for i, x := range p.Needs(r) {
				if x {
					need[i] = true
				}
			}
		}
		kind := t.Below(3)
		t.Logf("%s subgraph of %v kind %d lisp=%v", p, roots, kind, lisp)
		t.Label("subgraph lisp=%v", lisp)
		bt, err := p.BuildOn(G.NewGraph(), false)
		if err != nil {
			t.Failf("%v", err)
		}
		vars := 0
		for _, l := range p.Leaves() {
			if need[l] {
				vars++
				if err := gen.LetVals(bt.Nodes[l], p.Dt, p.Vals[l].Leaf.Shape, p.Vals[l].Leaf.Vals); err != nil {
					t.Failf("Let: %v", err)
				}
			}
		}
		if vars == 0 {
			t.Discard("the subgraph has no input")
		}
		// what is reachable
		seen := map[*G.Node]bool{}
		var walk func(n *G.Node)
		walk = func(n *G.Node) {
			if seen[n] {
				return
			}
			seen[n] = true
			for _, c := range nodesOf(bt.G.From(n.ID())) {
				walk(c)
			}
		}
		var ns []*G.Node
		for _, r := range roots {
			ns = append(ns, bt.Nodes[r])
			walk(bt.Nodes[r])
		}
		if kind == 2 && (k > 1 || t.Bool()) {
			// all nodes of it are listed, in any order
			ns = nil
			for _, n := range bt.G.AllNodes() {
				if seen[n] {
					ns = append(ns, n)
				}
			}
			for i := range ns {
				j := t.Below(i + 1)
				ns[i], ns[j] = ns[j], ns[i]
			}
			t.Label("listed")
		}
		// values asked for outside of the subgraph are not delivered, and
		// those asked for inside of it are, unless it is to be exact
		var outer, inner G.Value
		innerAt := -1
		if t.Chance(1, 3) {
			for _, i := range steps {
				if n := bt.Nodes[i]; seen[n] && innerAt < 0 && t.Bool() {
					innerAt = i
					r := G.Read(n, &inner)
					if kind != 0 {
						seen[r] = true
					}
				} else if !seen[n] && outer == nil {
					G.Read(n, &outer)
					break
				}
			}
		}
		before := len(bt.G.AllNodes())
		given := append([]*G.Node(nil), ns...)
		var sg *G.ExprGraph
		switch kind {
		case 0:
			sg = bt.G.ExactSubgraphRoots(ns...)
		case 1:
			sg = bt.G.SubgraphRoots(ns...)
		default:
			sg = bt.G.Subgraph(ns...)
		}
		if !sameSet(setOf(sg.AllNodes()), seen) || len(sg.AllNodes()) != len(seen) {
			t.Failf("the subgraph has %d nodes, want %d", len(sg.AllNodes()), len(seen))
		}
		if len(bt.G.AllNodes()) != before {
			t.Failf("taking a subgraph changed the graph")
		}
		if got := sg.Roots(); kind != 2 && !sameSet(setOf(got), setOf(given)) {
			t.Failf("roots of the subgraph are %v, want %v", got, given)
		}
		for i, n := range given {
			if ns[i] != n {
				t.Failf("taking a subgraph rearranged the list of nodes it was given")
			}
		}
		if len(seen) < before {
			t.NonTrivial()
		}
		vm := mk(sg)
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run of the subgraph: %v", err)
		}
		if outer != nil {
			t.Failf("a value outside of the subgraph was read")
		}
		if innerAt >= 0 && kind != 0 {
			want := p.Vals[innerAt].Ten
			if err := gen.SameVal(inner, want.Shape, want.Vals(), gen.Tol(p.Dt, b.Scale)); err != nil {
				t.Failf("value read from v%d: %v", innerAt, err)
			}
		}
		for _, r := range roots {
			// a root used by another root may be overwritten on the tape
			inner := false
			for _, q := range roots {
				if bt.Nodes[q] != bt.Nodes[r] {
					for _, u := range nodesOf(bt.G.To(bt.Nodes[r].ID())) {
						inner = inner || seen[u]
					}
				}
			}
			if lisp || !inner {
				checkValue(t, "subgraph", p, r, bt.Nodes[r], b.Scale)
			}
		}
		for _, n := range bt.G.AllNodes() {
			if !seen[n] && n.Value() != nil && len(nodesOf(bt.G.From(n.ID()))) > 0 {
				t.Failf("%v is outside of the subgraph but got a value", n)
			}
		}
	}
}

func cloned(t *pbt.T, b *gen.Builder, p *gen.Prog, mk func(g *G.ExprGraph) G.VM, lisp bool) {
	t.Logf("%s clone lisp=%v", p, lisp)
	t.Label("clone lisp=%v", lisp)
	t.NonTrivial()
	bt := &gen.Built{G: G.NewGraph()}
	var x *G.Node // a node that is removed again
	if t.Chance(1, 3) {
		steps := p.Steps()
		i := steps[t.Below(len(steps))]
		if err := p.BuildPart(bt, true, func(j int) bool { return j <= i }); err != nil {
			t.Failf("%v", err)
		}
		if n := bt.Nodes[i]; !p.Vals[i].Step.Bool && n.Op() != nil {
			x, _ = G.HadamardProd(n, n)
		}
	}
	if err := p.BuildPart(bt, true, func(int) bool { return true }); err != nil {
		t.Failf("%v", err)
	}
	ask(t, bt.G)
	// a read of a value, and a node that is there no more
	var read G.Value
	readAt := -1
	if t.Chance(1, 4) {
		s := p.Steps()
		readAt = s[t.Below(len(s))]
		t.Logf("read v%d", readAt)
		t.Label("read")
		G.Read(bt.Nodes[readAt], &read)
	}
	if x != nil {
		known := bt.G.To(x.ID()).Len() > 0
		for _, m := range bt.Nodes {
			known = known || m == x
		}
		if !known {
			t.Label("removed")
			bt.G.RemoveNode(x)
		}
	}
	ran := t.Bool()
	if ran {
		vm := mk(bt.G)
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run before cloning: %v", err)
		}
		vm.Close()
	}
	c := bt.G.Clone().(*G.ExprGraph)
	all, call := bt.G.AllNodes(), c.AllNodes()
	if len(all) != len(call) {
		t.Failf("the clone has %d nodes, want %d", len(call), len(all))
	}
	twin := map[*G.Node]*G.Node{}
	for i, n := range all {
		m := call[i]
		twin[n] = m
		if n == m {
			t.Failf("the clone shares node %v", n)
		}
		if m.ID() != n.ID() || m.Name() != n.Name() || !ref.EqShape(m.Shape(), n.Shape()) || fmt.Sprint(m.Type()) != fmt.Sprint(n.Type()) || m.Graph() != c {
			t.Failf("clone of %v is %v", n, m)
		}
	}
	for _, n := range all {
		a, d := nodesOf(bt.G.From(n.ID())), nodesOf(c.From(twin[n].ID()))
		if len(a) != len(d) {
			t.Failf("clone of %v has %d operands, want %d", n, len(d), len(a))
		}
		for j := range a {
			if twin[a[j]] != d[j] {
				t.Failf("operand %d of the clone of %v is %v", j, n, d[j])
			}
		}
		w := map[*G.Node]bool{}
		for _, u := range nodesOf(bt.G.To(n.ID())) {
			w[twin[u]] = true
		}
		if !sameSet(setOf(nodesOf(c.To(twin[n].ID()))), w) {
			t.Failf("users of the clone of %v differ", n)
		}
	}
	for k, f := range []func(g *G.ExprGraph) G.Nodes{(*G.ExprGraph).Roots, (*G.ExprGraph).Inputs} {
		w := map[*G.Node]bool{}
		for _, n := range f(bt.G) {
			w[twin[n]] = true
		}
		if got := f(c); !sameSet(setOf(got), w) || len(got) != len(w) {
			t.Failf("the %s of the clone are %v, want %v", []string{"roots", "inputs"}[k], got, w)
		}
	}
	// new inputs in the clone only
	cur := map[int][]float64{}
	for _, i := range p.Leaves() {
		cur[i] = p.Vals[i].Leaf.Vals
	}
	next, out, scale, ok := redraw(t, b, p, cur, func(int) bool { return true }, false)
	if !ok {
		next, scale = cur, b.Scale
		out = make([]*ref.Ten, len(p.Vals))
		for i, v := range p.Vals {
			out[i] = v.Ten
		}
	}
	for _, l := range p.Leaves() {
		n := twin[bt.Nodes[l]]
		if err := gen.SameVal(n.Value(), p.Vals[l].Leaf.Shape, cur[l], 0); err != nil {
			t.Failf("value of the clone of v%d: %v", l, err)
		}
		if err := gen.LetVals(n, p.Dt, p.Vals[l].Leaf.Shape, next[l]); err != nil {
			t.Failf("Let in the clone: %v", err)
		}
	}
	vm := mk(c)
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run of the clone: %v", err)
	}
	for i, v := range p.Vals {
		if v.Leaf != nil || lisp || bt.Root(i) {
			if err := gen.SameVal(twin[bt.Nodes[i]].Value(), out[i].Shape, out[i].Vals(), gen.Tol(p.Dt, scale)); err != nil {
				t.Failf("clone of v%d (%s): %v", i, name(v), err)
			}
		}
	}
	vm.Close()
	if ran {
		for i, v := range p.Vals {
			if v.Leaf != nil || lisp || bt.Root(i) {
				checkValue(t, "original after running its clone", p, i, bt.Nodes[i], b.Scale)
			}
		}
	} else {
		for i, v := range p.Vals {
			if v.Step != nil && bt.Nodes[i].Value() != nil && len(nodesOf(bt.G.From(bt.Nodes[i].ID()))) > 0 {
				t.Failf("running the clone gave v%d (%s) of the original a value", i, name(v))
			}
		}
	}
	vm = mk(bt.G)
	defer vm.Close()
	if err := gen.RunVM(vm); err != nil {
		t.Failf("run of the original: %v", err)
	}
	for i, v := range p.Vals {
		if v.Leaf != nil || lisp || bt.Root(i) {
			checkValue(t, "original", p, i, bt.Nodes[i], b.Scale)
		}
	}
	if readAt >= 0 {
		want := p.Vals[readAt].Ten
		if err := gen.SameVal(read, want.Shape, want.Vals(), gen.Tol(p.Dt, b.Scale)); err != nil {
			t.Failf("value read from v%d: %v", readAt, err)
		}
	}
	// the clone grows on its own: what is there is found, what is new is new
	i := p.Steps()[t.Below(p.NumSteps())]
	if v := p.Vals[i]; !v.Step.Bool && bt.Nodes[i].Op() != nil && t.Bool() {
		t.Label("extended")
		was := len(c.AllNodes())
		x, err := G.HadamardProd(twin[bt.Nodes[i]], twin[bt.Nodes[i]])
		if err != nil {
			t.Failf("extending the clone: %v", err)
		}
		if len(bt.G.AllNodes()) != len(all) {
			t.Failf("extending the clone changed the original")
		}
		again, err := G.HadamardProd(twin[bt.Nodes[i]], twin[bt.Nodes[i]])
		if err != nil || again != x || len(c.AllNodes()) > was+1 {
			t.Failf("the same expression twice on the clone gives %v and %v (%v)", x, again, err)
		}
		ids := map[int64]bool{}
		for _, n := range c.AllNodes() {
			if ids[n.ID()] || c.Node(n.ID()) != graph.Node(n) {
				t.Failf("node %d of the extended clone is not unique", n.ID())
			}
			ids[n.ID()] = true
		}
		if !setOf(nodesOf(c.To(twin[bt.Nodes[i]].ID())))[x] {
			t.Failf("the new user of the clone of v%d is not found", i)
		}
		vm := mk(c)
		defer vm.Close()
		if err := gen.RunVM(vm); err != nil {
			t.Failf("run of the extended clone: %v", err)
		}
		if c.To(x.ID()).Len() == 0 {
			want := out[i].Vals()
			for j := range want {
				want[j] *= want[j]
			}
			if err := gen.SameVal(x.Value(), out[i].Shape, want, gen.Tol(p.Dt, scale*scale)); err != nil {
				t.Failf("new node of the clone: %v", err)
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{ID: "P20",
		Rule: "A case draws a program, builds its graph in up to three stages with questions in between (some with reads, removals or a symbolic gradient), and checks every statement the graph makes about itself against the operand relation: nodes, ids, users, edges, inputs, roots, names, both orders, walks. Non-trivial: more than four nodes.",
		Parts: []pbt.Part{
			{Name: "structure", Check: structure(), Quick: 120000, Thorough: 1000000},
		}})
	pbt.Register(&pbt.Property{ID: "P21",
		Rule: "A case draws a program and either clones its graph (before or after a run), compares the structure, gives the clone new inputs and runs clone and original, or takes the subgraph under one or two nodes, with only the needed inputs bound, and runs that. Values are compared with the reference, and nothing outside may change. Non-trivial: a clone, or a subgraph that leaves nodes out.",
		Parts: []pbt.Part{
			{Name: "copies", Check: copies(), Quick: 240000, Thorough: 2000000},
		}})
}
