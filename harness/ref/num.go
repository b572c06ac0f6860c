// Package ref is the reference semantics: naive row-major tensors of
// hyper-dual numbers (value, two first derivatives, one mixed second
// derivative), written directly from the mathematical definitions.
package ref

import "math"

// N is a hyper-dual number. X says the value is a small dyadic number that was
// computed without rounding in either float width.
type N struct {
	V, A, B, AB float64
	X           bool
}

// Ctx collects what happened during an evaluation.
type Ctx struct {
	Scale  float64 // largest magnitude seen, derivatives included
	Kink   string  // a decision was too close to a discontinuity to call
	Tie    string  // value is fine, derivative is a matter of convention
	Domain string  // outside the mathematical domain
	Margin float64 // how close is too close
	D2Bad  bool    // second derivatives are not available for an op used
}

// Bad reports whether the value cannot be predicted reliably.
func (c *Ctx) Bad() string {
	if c.Domain != "" {
		return "domain:" + c.Domain
	}
	if c.Kink != "" {
		return "kink:" + c.Kink
	}
	return ""
}

func exactVal(v float64) bool {
	return math.Abs(v) <= 256 && v*4096 == math.Trunc(v*4096)
}

func (c *Ctx) see(n N) N {
	for _, v := range [4]float64{n.V, n.A, n.B, n.AB} {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			c.Domain = "non-finite"
			return n
		}
		if a := math.Abs(v); a > c.Scale {
			c.Scale = a
		}
	}
	return n
}

// C is an exact constant.
func C(v float64) N { return N{V: v, X: exactVal(v)} }

func (c *Ctx) Add(a, b N) N {
	v := a.V + b.V
	return c.see(N{v, a.A + b.A, a.B + b.B, a.AB + b.AB, a.X && b.X && exactVal(v)})
}
func (c *Ctx) Sub(a, b N) N {
	v := a.V - b.V
	return c.see(N{v, a.A - b.A, a.B - b.B, a.AB - b.AB, a.X && b.X && exactVal(v)})
}
func (c *Ctx) Mul(a, b N) N {
	v := a.V * b.V
	return c.see(N{v, a.A*b.V + a.V*b.A, a.B*b.V + a.V*b.B,
		a.AB*b.V + a.A*b.B + a.B*b.A + a.V*b.AB, a.X && b.X && exactVal(v)})
}

// Un applies a unary function given its value and first two derivatives.
func (c *Ctx) Un(a N, f, f1, f2 float64, exact bool) N {
	return c.see(N{f, f1 * a.A, f1 * a.B, f1*a.AB + f2*a.A*a.B, exact && a.X && exactVal(f)})
}
func (c *Ctx) Inv(a N) N {
	if math.Abs(a.V) < 0.04 {
		c.Domain = "inverse near 0"
		return a
	}
	f := 1 / a.V
	return c.Un(a, f, -f*f, 2*f*f*f, true)
}
func (c *Ctx) Div(a, b N) N {
	if math.Abs(b.V) < 0.04 {
		c.Domain = "division near 0"
		return a
	}
	q := c.Mul(a, c.Inv(b))
	q.V = a.V / b.V
	q.X = a.X && b.X && exactVal(q.V)
	return q
}
func (c *Ctx) Neg(a N) N { return N{-a.V, -a.A, -a.B, -a.AB, a.X} }

// cmp orders a and b: -1, 0, 1; a call too close to make is a kink.
func (c *Ctx) Cmp(a, b N, what string) int {
	d := a.V - b.V
	if !(a.X && b.X) && math.Abs(d) < c.Margin*(1+math.Abs(a.V)) {
		c.Kink = what
	}
	switch {
	case d < 0:
		return -1
	case d > 0:
		return 1
	}
	return 0
}
func (c *Ctx) Log(a N) N {
	if a.V < 0.04 {
		c.Domain = "log near or below 0"
		return a
	}
	return c.Un(a, math.Log(a.V), 1/a.V, -1/(a.V*a.V), false)
}
func (c *Ctx) Exp(a N) N {
	e := math.Exp(a.V)
	return c.Un(a, e, e, e, false)
}
func (c *Ctx) Sqrt(a N) N {
	if a.V < 0.04 {
		c.Domain = "sqrt near or below 0"
		return a
	}
	s := math.Sqrt(a.V)
	return c.Un(a, s, 0.5/s, -0.25/(s*a.V), true)
}
func (c *Ctx) Tanh(a N) N {
	t := math.Tanh(a.V)
	d := 1 - t*t
	return c.Un(a, t, d, -2*t*d, false)
}
func (c *Ctx) Sigmoid(a N) N {
	if a.V > 18 {
		c.Domain = "sigmoid beyond 18, where the code rounds to one"
		return a
	}
	s := 1 / (1 + math.Exp(-a.V))
	d := s * (1 - s)
	return c.Un(a, s, d, d*(1-2*s), false)
}
func (c *Ctx) Softplus(a N) N {
	if a.V > 15 {
		c.Domain = "softplus beyond 15, where the code switches to the identity"
	}
	var v float64
	if a.V > 0 {
		v = a.V + math.Log1p(math.Exp(-a.V))
	} else {
		v = math.Log1p(math.Exp(a.V))
	}
	s := 1 / (1 + math.Exp(-a.V))
	return c.Un(a, v, s, s*(1-s), false)
}
