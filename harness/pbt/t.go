package pbt

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
)

// T is one running case.
type T struct {
	*Source
	labels     map[string]int
	nontrivial bool
	key        string
	desc       []string
	excluded   map[string]int
}

type failure struct{ msg string }
type discard struct{ why string }

// Failf ends the case as a violation.
func (t *T) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// Discard ends the case without a verdict.
func (t *T) Discard(why string) { panic(discard{why}) }

// Label counts the case in a class.
func (t *T) Label(f string, a ...interface{}) { t.labels[fmt.Sprintf(f, a...)]++ }

// NonTrivial marks the case as non-trivial by the property's rule.
func (t *T) NonTrivial() { t.nontrivial = true }

// Exclude counts something the generator left out on purpose.
func (t *T) Exclude(why string) { t.excluded[why]++ }

// Logf appends to the case's human-readable description.
func (t *T) Logf(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	t.desc = append(t.desc, s)
	if echo {
		fmt.Fprintf(os.Stderr, "case: %s\n", s)
	}
}

// echo prints descriptions as they are made, for cases that end the process.
var echo bool

// Desc is the description so far.
func (t *T) Desc() string { return strings.Join(t.desc, "; ") }

// Try calls f and turns a panic into an error.
func Try(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard:
				panic(r)
			}
			err = fmt.Errorf("panic: %v", r)
			panicked = true
		}
	}()
	return f(), false
}

// Check is a property's per-case function.
type Check func(t *T)

type result struct {
	outcome  string // pass, discard, fail
	msg      string
	t        *T
	choices  []uint64
	distinct uint64
}

func runOne(c Check, src *Source) (res result) {
	t := &T{Source: src, labels: map[string]int{}, excluded: map[string]int{}}
	res.t = t
	defer func() {
		res.choices = src.Choices
		if r := recover(); r != nil {
			switch x := r.(type) {
			case failure:
				res.outcome, res.msg = "fail", x.msg
			case discard:
				res.outcome, res.msg = "discard", x.why
			default:
				res.outcome = "fail"
				res.msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}
		h := fnv.New64a()
		if len(t.desc) > 0 {
			h.Write([]byte(t.Desc()))
		} else {
			for _, v := range src.Choices {
				var b [8]byte
				for i := range b {
					b[i] = byte(v >> (8 * i))
				}
				h.Write(b[:])
			}
		}
		res.distinct = h.Sum64()
	}()
	c(t)
	res.outcome = "pass"
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var keep []string
	for _, l := range lines {
		if strings.Contains(l, "gorgonia") && !strings.HasPrefix(l, "\t") {
			keep = append(keep, l)
		} else if strings.HasPrefix(l, "\t/repo/") {
			keep = append(keep, l)
		}
		if len(keep) > 16 {
			break
		}
	}
	return strings.Join(keep, "\n")
}
