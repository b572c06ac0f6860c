package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"sort"
	"strings"

	G "gorgonia.org/gorgonia"
	"gorgonia.org/tensor"

	"verif/harness/gen"
	"verif/harness/pbt"
	"verif/harness/ref"
)

var n = flag.Int("n", 300, "")
var only = flag.String("only", "", "")
var modes = flag.String("modes", "tape,lisp,tapegrad,lispgrad", "")
var child = flag.Int("child", -1, "")
var group = flag.String("group", "", "")
var f32 = flag.Bool("f32", false, "")

func groups() map[string][]gen.Spec {
	return map[string][]gen.Spec{"pointwise": gen.PointwiseSpecs(), "cmp": gen.CompareSpecs(true), "cmpbool": gen.CompareSpecs(false),
		"bcast": gen.BroadcastSpecs(), "bcmp": gen.BroadcastCmpSpecs(true), "bcmpbool": gen.BroadcastCmpSpecs(false), "linalg": gen.LinalgSpecs(), "red": gen.ReductionSpecs(), "softmax": gen.SoftmaxSpecs(), "shape": gen.ShapeSpecs(),
		"loss": {gen.BinaryXent}, "conv": gen.ConvSpecs(), "norm": gen.NormSpecs()}
}

var num = regexp.MustCompile(`[0-9.]+(e[-+][0-9]+)?|0x[0-9a-f]+`)

func main() {
	flag.Parse()
	os.Chdir(os.TempDir())
	gs := groups()
	var names []string
	for k := range gs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, gname := range names {
		if *group != "" && *group != gname {
			continue
		}
		for _, sp := range gs[gname] {
			if *only != "" && !regexp.MustCompile("^("+*only+")$").MatchString(sp.Name) && *only != gname {
				continue
			}
			for _, mode := range strings.Split(*modes, ",") {
				cnt := map[string]int{}
				fails := map[string]string{}
				nf := map[string]int{}
				for i := 0; i < *n; i++ {
					if *child >= 0 {
						for i := *child; i < *n; i++ {
							cur := ""
							o, msg, desc := pbt.Adhoc(uint64(i*7919+13), func(t *pbt.T) { one(t, sp, mode, &cur) })
							j, _ := json.Marshal([]string{o, msg, desc})
							fmt.Println(string(j))
						}
						return
					}
					o, msg, desc := next(sp.Name, gname, mode, i)
					cnt[o]++
					if o == "fail" {
						k := num.ReplaceAllString(msg, "#")
						if len(k) > 90 {
							k = k[:90]
						}
						nf[k]++
						if old, ok := fails[k]; !ok || len(desc) < len(strings.SplitN(old, "\n", 2)[0]) {
							fails[k] = desc + "\n        " + msg
						}
					}
				}
				fmt.Printf("%-10s %-24s %-9s %v\n", gname, sp.Name, mode, cnt)
				shown := 0
				for k, v := range fails {
					if shown++; shown > 3 {
						fmt.Printf("    ... %d more kinds\n", len(fails)-3)
						break
					}
					fmt.Printf("    x%d %s\n", nf[k], v)
				}
			}
		}
	}
}

var kid *exec.Cmd
var rd *bufio.Reader
var kidErr *bytes.Buffer

func next(sp, gname, mode string, i int) (string, string, string) {
	if kid == nil || i == 0 {
		kid = exec.Command(os.Args[0], "-n", fmt.Sprint(*n), "-only", sp, "-group", gname, "-modes", mode, "-child", fmt.Sprint(i), fmt.Sprintf("-f32=%v", *f32))
		p, _ := kid.StdoutPipe()
		kidErr = &bytes.Buffer{}
		kid.Stderr = kidErr
		rd = bufio.NewReaderSize(p, 1<<20)
		kid.Start()
	}
	var desc string
	for {
		l, err := rd.ReadString('\n')
		if err != nil {
			kid.Wait()
			kid = nil
			e := kidErr.String()
			if k := strings.Index(e, "panic:"); k >= 0 {
				e = e[k:]
			}
			if len(e) > 300 {
				e = e[:300]
			}
			return "fail", "CRASH " + e, desc
		}
		if strings.HasPrefix(l, "D ") {
			desc = strings.TrimSpace(l[2:])
			continue
		}
		var r []string
		if json.Unmarshal([]byte(l), &r) == nil && len(r) == 3 {
			return r[0], r[1], r[2]
		}
	}
}

func one(t *pbt.T, sp gen.Spec, mode string, cur *string) {
	dt := tensor.Float64
	if *f32 {
		dt = tensor.Float32
	}
	b := gen.NewBuilder(t, dt)
	grad := strings.HasSuffix(mode, "grad")
	b.Grad = grad
	b.Leaf(b.RandShape(0, 4)...)
	if !b.Push(sp.Make(b)) {
		t.Discard("not pushed")
	}
	last := b.Last()
	p := b.P
	cost := -1
	if grad {
		if p.Vals[last].Step.Bool {
			t.Discard("bool")
		}
		cost = b.Weighted(last)
		p, cost = p.Prune(cost)
	}
	t.Logf("%v", p)
	fmt.Println("D", p)
	bt, err := p.Build()
	if err != nil {
		t.Failf("%v", err)
	}
	want := b.P.Vals[last].Ten
	tol := gen.Tol(dt, b.Scale)
	switch mode {
	case "tape":
		m := G.NewTapeMachine(bt.G)
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		if err := gen.SameVal(bt.Nodes[last].Value(), want.Shape, want.Vals(), tol); err != nil {
			t.Failf("value: %v", err)
		}
		if s := bt.Nodes[last].Shape(); !ref.EqShape(s, want.Shape) {
			t.Failf("inferred shape %v want %v", s, want.Shape)
		}
	case "lisp":
		m := G.NewLispMachine(bt.G, G.ExecuteFwdOnly())
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		if err := gen.SameVal(bt.Nodes[last].Value(), want.Shape, want.Vals(), tol); err != nil {
			t.Failf("value: %v", err)
		}
	case "tapegrad", "lispgrad":
		wrt := p.Leaves()
		gr, c := p.Gradients(cost, wrt)
		if c.Scale > gen.MaxScale(dt) {
			t.Discard("scale")
		}
		tol = gen.Tol(dt, c.Scale) * 10
		var ns G.Nodes
		for _, l := range wrt {
			ns = append(ns, bt.Nodes[l])
		}
		var m G.VM
		var gn G.Nodes
		if mode == "tapegrad" {
			err, pn := pbt.Try(func() (e error) { gn, e = G.Grad(bt.Nodes[cost], ns...); return })
			if err != nil {
				t.Failf("Grad: %v %v", pn, err)
			}
			m = G.NewTapeMachine(bt.G)
		} else {
			m = G.NewLispMachine(bt.G)
		}
		defer m.Close()
		if err := gen.RunVM(m); err != nil {
			t.Failf("run: %v", err)
		}
		for i, l := range wrt {
			var v G.Value
			if mode == "tapegrad" {
				v = gn[i].Value()
			} else {
				var err error
				if v, err = ns[i].Grad(); err != nil {
					t.Failf("Grad() of v%d: %v", l, err)
				}
			}
			if err := gen.SameVal(v, p.Vals[l].Leaf.Shape, gr[l], tol); err != nil {
				t.Failf("grad v%d: %v", l, err)
			}
		}
	}
}
