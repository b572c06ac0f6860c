package props

import (
	"fmt"
	"html"
	"sort"
	"strings"

	"gonum.org/v1/gonum/graph/formats/dot"
	"gonum.org/v1/gonum/graph/formats/dot/ast"
	G "gorgonia.org/gorgonia"
	godot "gorgonia.org/gorgonia/encoding/dot"

	"verif/harness/gen"
	"verif/harness/pbt"
)

// picture is what a description in the DOT language says.
type picture struct {
	label map[string]string   // by node, of nodes that are declared
	in    map[string][]string // clusters a node is declared in
	edges []stroke
}

type stroke struct{ from, to, tail, dir, style string }

func attrsOf(as []*ast.Attr) map[string]string {
	m := map[string]string{}
	for _, a := range as {
		m[a.Key] = a.Val
	}
	return m
}

func (p *picture) read(stmts []ast.Stmt, where []string) error {
	for _, s := range stmts {
		switch s := s.(type) {
		case *ast.NodeStmt:
			id := s.Node.ID
			if l, ok := attrsOf(s.Attrs)["label"]; ok {
				if old, ok := p.label[id]; ok && old != l {
					return fmt.Errorf("%s has two labels", id)
				}
				p.label[id] = l
			}
			p.in[id] = append(p.in[id], where...)
		case *ast.EdgeStmt:
			a, ok := s.From.(*ast.Node)
			if !ok || s.To == nil || s.To.To != nil {
				return fmt.Errorf("an edge statement of another form: %v", s)
			}
			b, ok := s.To.Vertex.(*ast.Node)
			if !ok {
				return fmt.Errorf("an edge statement of another form: %v", s)
			}
			at := attrsOf(s.Attrs)
			p.edges = append(p.edges, stroke{a.ID, b.ID, strings.Trim(at["taillabel"], "\" "), strings.Trim(at["dir"], `"`), strings.Trim(at["style"], `"`)})
		case *ast.Subgraph:
			if err := p.read(s.Stmts, append(where[:len(where):len(where)], s.ID)); err != nil {
				return err
			}
		}
	}
	return nil
}

func readPicture(text string) (p *picture, err error) {
	var f *ast.File
	if err, panicked := pbt.Try(func() (err error) { f, err = dot.ParseString(text); return }); err != nil {
		return nil, fmt.Errorf("it is not in the DOT language (panic %v): %v", panicked, err)
	}
	if len(f.Graphs) != 1 || !f.Graphs[0].Directed {
		return nil, fmt.Errorf("it is not one directed graph")
	}
	p = &picture{label: map[string]string{}, in: map[string][]string{}}
	return p, p.read(f.Graphs[0].Stmts, nil)
}

// record takes a record label apart into its fields, all levels in one list.
func record(l string) []string {
	l = strings.TrimSuffix(strings.TrimPrefix(l, `"`), `"`)
	var out []string
	cur := ""
	for i := 0; i < len(l); i++ {
		switch c := l[i]; c {
		case '\\':
			if i++; i < len(l) {
				if l[i] == 'n' {
					cur += "\n"
				} else {
					cur += l[i : i+1]
				}
			}
		case '{', '}':
		case '|':
			out = append(out, html.UnescapeString(cur))
			cur = ""
		default:
			cur += l[i : i+1]
		}
	}
	return append(out, html.UnescapeString(cur))
}

var oddNames = []string{"x", "a b", `q"q`, "a|b", "{a}", "<b>", "a&b", `c:\d`, "é", "const", "a;b", "-> y", "it's", "graph", "n\nl", "a]b", "%d", "x*y", `\`, `"`, "&lt;", "a\tb", ">", "#", "a-->b"}

func drawing() pbt.Check {
	flist, dlist := allSpecs(), diffSpecs()
	return func(t *pbt.T) {
		grad := t.Chance(1, 3)
		list := flist
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 16
		if grad {
			list, b.Grad = dlist, true
		}
		seedLeaves(b, 0, 3)
		randomProgram(t, b, list, t.Tail(1, 5, 25))
		if b.P.NumSteps() == 0 || grad && !canCost(b.P) {
			t.Discard("no operation was applicable")
		}
		cost := -1
		if grad {
			cost = costOf(b, true)
		}
		p := b.P
		for i, v := range p.Vals {
			if v.Leaf != nil && t.Chance(1, 2) {
				v.Leaf.Name = fmt.Sprintf("%s%d", oddNames[t.Below(len(oddNames))], i)
				t.Logf("v%d is named %q", i, v.Leaf.Name)
			}
		}
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		if grad {
			var wrt []*G.Node
			for _, i := range p.Leaves() {
				if p.Needs(cost)[i] {
					wrt = append(wrt, bt.Nodes[i])
				}
			}
			if len(wrt) == 0 {
				t.Discard("no inputs")
			}
			if _, err := G.Grad(bt.Nodes[cost], wrt...); err != nil {
				t.Failf("gradient: %v", err)
			}
		}
		g := bt.G
		ran := t.Chance(1, 3)
		if ran {
			m := []machine{forwardMachines[0], forwardMachines[2]}[t.Below(2)]
			if grad {
				m = forwardMachines[0]
			}
			vm := m.mk(g)
			defer vm.Close()
			if err := gen.RunVM(vm); err != nil {
				t.Failf("run failed: %v", err)
			}
		}
		if !grad && t.Chance(1, 4) {
			var v G.Value
			G.Read(bt.Nodes[t.Below(len(bt.Nodes))], &v)
		}
		if t.Chance(1, 4) {
			for k := t.Int(1, 3); k > 0; k-- {
				i, s := t.Below(len(bt.Nodes)), []string{"layer", "layer2", "gradients"}[t.Below(3)]
				G.WithGroupName(s)(bt.Nodes[i])
				t.Logf("v%d put in group %q", i, s)
			}
		}
		ns := g.AllNodes()
		kids := map[*G.Node][]*G.Node{}
		for _, n := range ns {
			kids[n] = nodesOf(g.From(n.ID()))
		}
		root := ns[t.Below(len(ns))]
		var text, what string
		in := map[*G.Node]bool{}
		form := t.Below(4)
		switch form {
		case 0:
			what = "marshalling the graph"
			bs, err := godot.Marshal(g)
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			text = string(bs)
		case 1:
			what = "drawing the graph"
			text = g.ToDot()
		case 2:
			what = "drawing a node"
			text = root.ToDot()
		default:
			what = "drawing a neighbourhood"
		}
		if form < 2 {
			for _, n := range ns {
				in[n] = true
			}
		} else if form == 2 {
			var down func(n *G.Node)
			down = func(n *G.Node) {
				if !in[n] {
					in[n] = true
					for _, c := range kids[n] {
						down(c)
					}
				}
			}
			down(root)
		} else {
			levels := [2]int{t.Below(3), t.Below(3)}
			up, down := levels[0], levels[1]
			what = fmt.Sprintf("drawing levels: %d above and %d below", up, down)
			in[root] = true
			l := map[*G.Node]bool{root: true}
			for ; up > 0; up-- {
				l2 := map[*G.Node]bool{}
				for _, n := range ns {
					for _, c := range kids[n] {
						if l[c] {
							l2[n], in[n] = true, true
						}
					}
				}
				l = l2
			}
			l = map[*G.Node]bool{root: true}
			for ; down > 0; down-- {
				l2 := map[*G.Node]bool{}
				for n := range l {
					for _, c := range kids[n] {
						l2[c], in[c] = true, true
					}
				}
				l = l2
			}
			text = root.RestrictedToDot(levels[0], levels[1])
		}
		t.Label("%s", strings.Join(strings.Fields(what)[:2], " "))
		t.Label("gradient=%v ran=%v", grad, ran)
		if len(in) > 2 {
			t.NonTrivial()
		}
		t.Logf("%s: %s of %v", p, what, root.Name())
		pic, err := readPicture(text)
		if err != nil {
			t.Failf("%s: %v\n%s", what, err, text)
		}
		// nodes
		byID := map[string]*G.Node{}
		for n := range in {
			id := fmt.Sprintf("Node_%p", n)
			byID[id] = n
			l, ok := pic.label[id]
			if !ok {
				t.Failf("%s: there is no node for %v", what, n)
			}
			if form == 0 {
				f := record(l)
				k := -1
				for i, s := range f {
					if s == fmt.Sprintf("%#x", n.ID()) {
						k = i
						break
					}
				}
				if k < 0 || len(f) < 5 || strings.Join(f[:k], "") != n.Name() {
					t.Failf("%s: the label of %q with identifier %#x reads %q from %q", what, n.Name(), n.ID(), f, l)
				}
				if f[len(f)-2] != "Shape" || strings.TrimSpace(f[len(f)-1]) != strings.TrimSpace(fmt.Sprint(n.Shape())) {
					t.Failf("%s: the label of %q of shape %v reads %q", what, n.Name(), n.Shape(), f)
				}
			} else {
				u := html.UnescapeString(strings.ReplaceAll(l, "<BR />", "\n"))
				if !strings.Contains(u, n.Name()) || !strings.Contains(u, fmt.Sprintf("<TD>%x</TD>", n.ID())) {
					t.Failf("%s: the label of %q with identifier %x reads %s", what, n.Name(), n.ID(), l)
				}
			}
		}
		for id := range pic.label {
			if strings.HasPrefix(id, "Node_") && byID[id] == nil {
				t.Failf("%s: there is a node %s (%s) that does not belong there", what, id, pic.label[id])
			}
		}
		// edges
		var want, got []string
		num := func(n *G.Node) string { return fmt.Sprintf("%x", n.ID()) }
		for n := range in {
			seen := map[*G.Node]bool{}
			for i, c := range kids[n] {
				if !in[c] || form == 0 && seen[c] {
					continue
				}
				seen[c] = true
				s := num(n) + " uses " + num(c)
				switch form {
				case 1, 3:
					s += fmt.Sprintf(" as %d", i)
				case 2:
					s += fmt.Sprintf(" as %d", i+1)
				}
				want = append(want, s)
			}
		}
		lines := map[[2]*G.Node]bool{}
		for _, e := range pic.edges {
			if e.style == "invis" {
				continue
			}
			a, b := byID[e.from], byID[e.to]
			if a == nil || b == nil {
				t.Failf("%s: an edge from %s to %s, which are not nodes of it", what, e.from, e.to)
			}
			if e.style == "dashed" {
				lines[[2]*G.Node{a, b}] = true
				continue
			}
			if e.dir == "back" {
				a, b = b, a
			}
			s := num(a) + " uses " + num(b)
			if form > 0 {
				s += " as " + e.tail
			}
			got = append(got, s)
		}
		sort.Strings(want)
		sort.Strings(got)
		if strings.Join(want, "; ") != strings.Join(got, "; ") {
			t.Failf("%s: the edges say\n%s\nbut the graph is\n%s", what, strings.Join(got, "; "), strings.Join(want, "; "))
		}
		if form == 1 || form == 3 {
			for n := range in {
				if d := n.Deriv(); d != nil && in[d] && !lines[[2]*G.Node{d, n}] {
					t.Failf("%s: no line says that %v is the derivative of %v", what, d, n)
				}
			}
		}
		// kinds
		if form == 0 {
			inputs := map[*G.Node]bool{}
			for _, n := range g.Inputs() {
				inputs[n] = true
			}
			for i, v := range p.Vals {
				n := bt.Nodes[i]
				cl := map[string]bool{}
				for _, c := range pic.in[fmt.Sprintf("Node_%p", n)] {
					cl[strings.TrimPrefix(c, "cluster_")] = true
				}
				if w := inputs[n]; w != cl["Inputs"] {
					t.Failf("%s: v%d is an input %v, but lies in %v", what, i, w, cl)
				}
				if v.Leaf != nil && v.Leaf.Const != cl["Constants"] {
					t.Failf("%s: v%d is a constant %v, but lies in %v", what, i, v.Leaf.Const, cl)
				}
				if len(kids[n]) > 0 && !cl["ExprGraph"] {
					t.Failf("%s: v%d is computed, but lies in %v", what, i, cl)
				}
			}
		}
		// nothing has changed
		if now := g.AllNodes(); len(now) != len(ns) {
			t.Failf("%s changed the number of nodes from %d to %d", what, len(ns), len(now))
		}
		for _, n := range ns {
			k := nodesOf(g.From(n.ID()))
			if len(k) != len(kids[n]) {
				t.Failf("%s changed the operands of %v", what, n)
			}
			for i := range k {
				if k[i] != kids[n][i] {
					t.Failf("%s changed the operands of %v", what, n)
				}
			}
		}
	}
}

func init() {
	pbt.Register(&pbt.Property{
		ID:    "P32",
		Rule:  "A case draws a program, odd names for its inputs (quotes, brackets, bars, backslashes, line ends, keywords), possibly its gradient, a run and a read, and one of the four descriptions (marshalled graph, drawn graph, drawn node, drawn neighbourhood); the text is parsed with an independent DOT parser and its nodes, labels, edges, operand positions and clusters are compared with the graph. Non-trivial: the description covers more than two nodes.",
		Parts: []pbt.Part{{Name: "drawing", Check: drawing(), Quick: 40000, Thorough: 400000}},
	})
}
