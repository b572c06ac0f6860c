package props

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash"
	"hash/fnv"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chewxy/hm"
	G "gorgonia.org/gorgonia"
	"gorgonia.org/gorgonia/x/dataviz"
	xvm "gorgonia.org/gorgonia/x/vm"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

// gate is an operation of the user: it passes its input on, after giving way
// to others for a while, or fails when told to.
type gate struct {
	id    int
	yield int
	sleep time.Duration
	shut  atomic.Bool
	after func()
}

func (g *gate) Arity() int    { return 1 }
func (g *gate) Type() hm.Type { return hm.NewFnType(hm.TypeVariable('a'), hm.TypeVariable('a')) }
func (g *gate) InferShape(ds ...G.DimSizer) (tensor.Shape, error) {
	s, _ := ds[0].(tensor.Shape) // the size of an axis is no shape but a scalar
	return s.Clone(), nil
}
func (g *gate) Do(vs ...G.Value) (G.Value, error) {
	for i := 0; i < g.yield; i++ {
		runtime.Gosched()
	}
	if g.sleep > 0 {
		time.Sleep(g.sleep)
	}
	if g.after != nil {
		g.after()
	}
	if g.shut.Load() {
		return nil, fmt.Errorf("gate %d is shut", g.id)
	}
	return G.CloneValue(vs[0])
}
func (g *gate) ReturnsPtr() bool      { return true }
func (g *gate) CallsExtern() bool     { return false }
func (g *gate) OverwritesInput() int  { return -1 }
func (g *gate) WriteHash(h hash.Hash) { fmt.Fprintf(h, "gate %d", g.id) }
func (g *gate) String() string        { return fmt.Sprintf("gate%d", g.id) }
func (g *gate) Hashcode() uint32 {
	h := fnv.New32a()
	g.WriteHash(h)
	return h.Sum32()
}

// pushGate puts a gate behind a random value of the program.
func pushGate(t *pbt.T, b *gen.Builder, id int) *gate {
	g := &gate{id: id}
	switch t.Below(4) {
	case 1:
		g.yield = t.Int(1, 20)
	case 2:
		g.sleep = time.Duration(t.Int(1, 10)) * 10 * time.Microsecond
	}
	x := b.Any()
	if x < 0 || !b.Push(&gen.Step{Op: "Gate", Args: fmt.Sprintf("{%d}", id), In: []int{x},
		Build: func(in []*G.Node) (*G.Node, error) { return G.ApplyOp(g, in[0]) },
		Ref: func(c *ref.Ctx, in []*ref.Ten) *ref.Ten {
			return in[0].Map(func(x ref.N) ref.N { return x })
		}}) {
		return nil
	}
	return g
}

// traces are what a traced run reports.
type traces struct {
	all  []xvm.Trace
	done chan struct{}
}

func collectTraces(ctx context.Context) (context.Context, *traces) {
	tr := &traces{done: make(chan struct{})}
	ctx, c := xvm.WithTracing(ctx)
	go func() {
		for x := range c {
			tr.all = append(tr.all, x)
		}
		close(tr.done)
	}()
	return ctx, tr
}

// check looks at the report of a run that succeeded: every step of every node
// began and ended.
func (tr *traces) check(g *G.ExprGraph) error {
	type step struct {
		id    int64
		what  string
		start time.Time
	}
	open := map[step]int{}
	seen := map[int64]bool{}
	ended := 0
	for _, x := range tr.all {
		k := step{x.ID, x.StateFunction, x.Start}
		seen[x.ID] = true
		if x.End.IsZero() {
			open[k]++
			continue
		}
		ended++
		if open[k]--; open[k] < 0 {
			return fmt.Errorf("the end of %s of node %d was reported without its beginning", x.StateFunction, x.ID)
		}
		if x.End.Before(x.Start) {
			return fmt.Errorf("%s of node %d ends before it begins", x.StateFunction, x.ID)
		}
	}
	for k, n := range open {
		if n != 0 {
			return fmt.Errorf("the end of %s of node %d was not reported", k.what, k.id)
		}
	}
	for _, n := range g.AllNodes() {
		if !seen[n.ID()] {
			return fmt.Errorf("nothing was reported about node %v", n)
		}
		delete(seen, n.ID())
	}
	if len(seen) > 0 {
		return fmt.Errorf("a report about nodes %v that do not exist", seen)
	}
	var buf bytes.Buffer
	if err := dataviz.DumpTrace(tr.all, g, &buf); err != nil {
		return err
	}
	var groups []struct {
		Group string
		Data  []struct {
			Label string
			Data  []struct {
				TimeRange []time.Time
				Val       string
			}
		}
	}
	if err := json.Unmarshal(buf.Bytes(), &groups); err != nil {
		return fmt.Errorf("the dump cannot be read: %v: %s", err, buf.String())
	}
	in := map[string]bool{}
	for _, gr := range groups {
		if in[gr.Group] {
			return fmt.Errorf("group %q is dumped twice", gr.Group)
		}
		in[gr.Group] = true
		for _, d := range gr.Data {
			for _, e := range d.Data {
				ended--
				if len(e.TimeRange) != 2 || e.TimeRange[1].Before(e.TimeRange[0]) {
					return fmt.Errorf("dumped times %v", e.TimeRange)
				}
			}
		}
	}
	if ended != 0 {
		return fmt.Errorf("%d steps are missing in the dump", ended)
	}
	return nil
}

// dataflow runs programs on the machine that computes every node in a
// goroutine of its own.
func dataflow() pbt.Check {
	list := allSpecs()
	return func(t *pbt.T) {
		b := gen.NewBuilder(t, floatDt(t))
		b.MaxElems = 20
		n := t.Int(1, 6)
		if t.Chance(1, 4) {
			n = t.Int(7, 16)
		}
		n = large(b, n)
		seedLeaves(b, 0, 3)
		var gates []*gate
		for i := 0; i < n; i++ {
			if t.Chance(1, 4) {
				if g := pushGate(t, b, len(gates)); g != nil {
					gates = append(gates, g)
				}
				continue
			}
			randomProgram(t, b, list, 1)
		}
		p := b.P
		if p.NumSteps() == 0 {
			t.Discard("no operation was applicable")
		}
		t.Logf("%s", p)
		bt, err := p.Build()
		if err != nil {
			t.Failf("%v", err)
		}
		m := xvm.NewMachine(bt.G)
		runs := t.Int(1, 4)
		bad := 0
		cur := map[int][]float64{}
		out := make([]*ref.Ten, len(p.Vals))
		for i, v := range p.Vals {
			out[i] = v.Ten
			if v.Leaf != nil {
				cur[i] = v.Leaf.Vals
			}
		}
		scale := b.Scale
		for r := 0; r < runs; r++ {
			if r > 0 && t.Bool() {
				mask := map[int]bool{}
				for _, i := range p.Leaves() {
					mask[i] = t.Chance(2, 3)
				}
				if next, o, sc, ok := redraw(t, b, p, cur, func(i int) bool { return mask[i] }, false); ok {
					for _, i := range p.Leaves() {
						if mask[i] {
							gen.Overwrite(bt.Nodes[i].Value(), next[i])
							t.Logf("overwrite v%d with %v", i, next[i])
						}
					}
					t.Label("inputs overwritten")
					cur, out, scale = next, o, sc
				}
			}
			ctx, cancel := context.WithCancel(context.Background())
			kind := t.Below(6)
			var shut *gate
			stop := false
			switch {
			case kind == 0 && len(gates) > 0:
				shut = gates[t.Below(len(gates))]
				shut.shut.Store(true)
				t.Logf("run with gate %d shut", shut.id)
				t.Label("run with a failing operation")
				bad++
			case kind == 1 && len(gates) > 0:
				g := gates[t.Below(len(gates))]
				g.after = cancel
				stop = true
				t.Logf("run cancelled at gate %d", g.id)
				t.Label("run cancelled in the middle")
				bad++
				defer func() { g.after = nil }()
			case kind == 2:
				cancel()
				stop = true
				t.Logf("run cancelled before")
				t.Label("run cancelled before")
				bad++
			default:
				t.Logf("run")
				t.Label("run")
			}
			var tr *traces
			if t.Chance(1, 4) {
				ctx, tr = collectTraces(ctx)
				t.Label("traced")
			}
			err := m.Run(ctx)
			if tr != nil {
				xvm.CloseTracing(ctx)
				<-tr.done
			}
			cancel()
			for _, g := range gates {
				g.after = nil
			}
			switch {
			case shut != nil:
				if err == nil {
					t.Failf("run %d succeeded although an operation failed", r)
				}
				if w := fmt.Sprintf("gate %d is shut", shut.id); !strings.Contains(err.Error(), w) {
					t.Failf("run %d failed without naming the cause %q: %v", r, w, err)
				}
				shut.shut.Store(false)
				continue
			case err != nil && stop:
				continue
			case err != nil:
				t.Failf("run %d: %v", r, err)
			}
			if tr != nil && !stop { // reports of a cancelled run may be lost
				if err := tr.check(bt.G); err != nil {
					t.Failf("run %d: %v", r, err)
				}
			}
			for i, v := range p.Vals {
				got := m.GetResult(bt.Nodes[i].ID())
				if err := gen.SameVal(got, out[i].Shape, out[i].Vals(), gen.Tol(p.Dt, scale)); err != nil {
					t.Failf("run %d: value of v%d (%s): %v", r, i, name(v), err)
				}
			}
		}
		for _, l := range p.Leaves() {
			if err := gen.SameVal(bt.Nodes[l].Value(), p.Vals[l].Leaf.Shape, cur[l], 0); err != nil {
				t.Failf("input v%d changed: %v", l, err)
			}
		}
		if m.GetResult(int64(len(bt.G.AllNodes())+1000)) != nil {
			t.Failf("there is a result for a node that does not exist")
		}
		m.Close()
		shared := 0
		for _, v := range p.Vals {
			if v.Uses > 1 {
				shared++
			}
		}
		if (shared > 0 && p.NumSteps() >= 3) || bad > 0 && runs > 1 {
			t.NonTrivial()
		}
	}
}

// job is one program to be built and run on its own.
type job struct {
	p     *gen.Prog
	cost  int
	want  map[int][]float64
	scale float64
	gs    float64
	vm    string
	runs  int
}

func (j *job) do() error {
	bt, err := j.p.Build()
	if err != nil {
		return err
	}
	var ns G.Nodes
	wrt := j.p.Leaves()
	for _, l := range wrt {
		ns = append(ns, bt.Nodes[l])
	}
	var vm G.VM
	roots := make([]bool, len(j.p.Vals))
	for i := range roots {
		roots[i] = bt.Root(i)
	}
	all := false
	switch j.vm {
	case "tape gradient":
		if err, _ := pbt.Try(func() error { _, e := G.Grad(bt.Nodes[j.cost], ns...); return e }); err != nil {
			return fmt.Errorf("Grad: %v", err)
		}
		vm = G.NewTapeMachine(bt.G, G.BindDualValues(ns...))
	case "lisp gradient":
		for _, n := range bt.G.AllNodes() {
			if n != bt.Nodes[j.cost] && bt.G.To(n.ID()).Len() == 0 {
				return nil // a rewritten operation left an unused node
			}
		}
		vm = G.NewLispMachine(bt.G)
	case "lisp":
		all = true
		vm = G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
	case "dataflow":
		m := xvm.NewMachine(bt.G)
		defer m.Close()
		for r := 0; r < j.runs; r++ {
			if err := m.Run(context.Background()); err != nil {
				return err
			}
			for i, v := range j.p.Vals {
				if err := gen.SameVal(m.GetResult(bt.Nodes[i].ID()), v.Ten.Shape, v.Ten.Vals(), gen.Tol(j.p.Dt, j.scale)); err != nil {
					return fmt.Errorf("run %d: v%d (%s): %v", r, i, name(v), err)
				}
			}
		}
		return nil
	default:
		vm = G.NewTapeMachine(bt.G)
	}
	defer vm.Close()
	for r := 0; r < j.runs; r++ {
		if err := gen.RunVM(vm); err != nil {
			return fmt.Errorf("run %d: %v", r, err)
		}
		for i, v := range j.p.Vals {
			if v.Leaf != nil || all || roots[i] && j.cost < 0 || i == j.cost && bt.Root(i) {
				if err := gen.SameVal(bt.Nodes[i].Value(), v.Ten.Shape, v.Ten.Vals(), gen.Tol(j.p.Dt, j.scale)); err != nil {
					return fmt.Errorf("run %d: v%d (%s): %v", r, i, name(v), err)
				}
			}
		}
		if j.cost >= 0 && r == 0 {
			for _, l := range wrt {
				g, err := bt.Nodes[l].Grad()
				if err != nil {
					return fmt.Errorf("gradient of v%d: %v", l, err)
				}
				if err := gen.SameVal(g, j.p.Vals[l].Leaf.Shape, j.want[l], 10*gen.Tol(j.p.Dt, j.gs)); err != nil {
					return fmt.Errorf("gradient of v%d: %v", l, err)
				}
			}
		}
		vm.Reset()
	}
	return nil
}

// together builds and runs unrelated graphs at the same time.
func together() pbt.Check {
	flist := allSpecs()
	glist := diffSpecs()
	llist := lispSpecs()
	vms := []string{"tape", "lisp", "dataflow", "tape gradient", "lisp gradient"}
	return func(t *pbt.T) {
		k := t.Tail(2, 4, 10)
		jobs := make([]*job, 0, k)
		for i := 0; i < k; i++ {
			kind := t.Below(5)
			j := &job{cost: -1, runs: t.Int(1, 2), vm: vms[kind]}
			b := gen.NewBuilder(t, floatDt(t))
			b.MaxElems = 16
			if kind >= 3 {
				b.Grad = true
				list := glist
				if kind == 4 {
					list = llist
					b.NoOneElem = true
				}
				seedLeaves(b, 1, 2)
				p, cost, ok := dagProgram(t, b, list, t.Int(1, 4), kind == 4 || t.Bool())
				if !ok {
					continue
				}
				j.p, j.cost = p, cost
				var c *ref.Ctx
				j.want, c = p.Gradients(cost, p.Leaves())
				if c.Scale > gen.MaxScale(p.Dt) {
					continue
				}
				j.gs = c.Scale
			} else {
				seedLeaves(b, 0, 3)
				randomProgram(t, b, flist, t.Int(1, 5))
				if b.P.NumSteps() == 0 {
					continue
				}
				j.p = b.P
			}
			j.scale = b.Scale
			jobs = append(jobs, j)
		}
		if len(jobs) < 2 {
			t.Discard("fewer than two programs")
		}
		if t.Chance(1, 3) {
			*jobs[1] = *jobs[0]
			t.Label("the same program on two graphs")
		}
		for i, j := range jobs {
			t.Logf("%d: %s cost v%d on %s, %d runs", i, j.p, j.cost, j.vm, j.runs)
			t.Label("%s", j.vm)
		}
		t.Label("%d at a time", len(jobs))
		t.NonTrivial()
		errs := make([]error, len(jobs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				errs[i], _ = pbt.Try(jobs[i].do)
			}(i)
		}
		close(start)
		wg.Wait()
		for i, err := range errs {
			if err != nil {
				t.Failf("program %d: %v", i, err)
			}
		}
	}
}

func init() {
	race := []string{"GORACE=halt_on_error=1"}
	pbt.Register(&pbt.Property{ID: "P30", Env: race,
		Rule: "A case draws a program of the whole catalogue with operations of the user's among them that give way, sleep, fail or cancel on request, and runs it one to four times on the dataflow machine, which computes every node in a goroutine of its own: undisturbed, with one failing operation, cancelled before or in the middle. After every undisturbed run all values are compared with the reference. The harness is built with the race detector, and a data race is a violation. Non-trivial: three or more operations with shared operands, or a disturbed run among several.",
		Parts: []pbt.Part{
			{Name: "dataflow", Check: dataflow(), Quick: 30000, Thorough: 600000},
		}})
	pbt.Register(&pbt.Property{ID: "P31", Env: race,
		Rule: "A case draws two to four programs (a third of the cases run one program on two graphs) and builds, differentiates, compiles and runs each in a goroutine of its own on one of five kinds of machine, all at the same time; values and gradients of each are compared with the reference. The harness is built with the race detector, and a data race is a violation. Non-trivial: every case.",
		Parts: []pbt.Part{
			{Name: "together", Check: together(), Quick: 20000, Thorough: 500000},
		}})
}
