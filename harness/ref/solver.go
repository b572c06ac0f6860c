package ref

import "math"

// SolverCfg is a solver's configuration; zero clip or regularisation means
// the option is not given.
type SolverCfg struct {
	Kind                                         string
	Eta, Eps, B1, B2, Rho, Mom, Clip, L1, L2, WD float64
	Batch                                        float64
}

// SolverState is the state kept per element.
type SolverState struct {
	A, B       float64
	PrevW, Prv float64
}

// EffGrad is the gradient after regularisation, batch averaging and clipping,
// for the solvers that treat it so.
func (s *SolverCfg) EffGrad(w, g float64) float64 {
	switch s.Kind {
	case "rmsprop", "adagrad":
		return g
	}
	if s.L1 != 0 {
		switch {
		case w > 0:
			g += s.L1
		case w < 0:
			g -= s.L1
		}
	}
	if s.L2 != 0 {
		g += s.L2 * w
	}
	if s.Batch > 1 {
		g /= s.Batch
	}
	return s.clip(g)
}

func (s *SolverCfg) clip(g float64) float64 {
	if s.Clip != 0 {
		g = math.Max(-s.Clip, math.Min(s.Clip, g))
	}
	return g
}

// Step is the new weight of one element after step number it (from 1).
func (s *SolverCfg) Step(st *SolverState, it int, w, g float64) float64 {
	g = s.EffGrad(w, g)
	switch s.Kind {
	case "vanilla":
		return w - s.Eta*g
	case "momentum":
		st.A = s.Mom*st.A - s.Eta*g
		return w + st.A
	case "rmsprop":
		st.A = s.Rho*st.A + (1-s.Rho)*g*g
		return w - s.Eta*s.clip(g)/math.Sqrt(st.A+s.Eps) - s.L2*w
	case "adagrad":
		st.A += g * g
		return w - s.Eta*s.clip(g)/math.Sqrt(st.A+s.Eps) - s.L2*w
	case "adam", "adamw":
		st.A = s.B1*st.A + (1-s.B1)*g
		st.B = s.B2*st.B + (1-s.B2)*g*g
		m := st.A / (1 - math.Pow(s.B1, float64(it)))
		v := st.B / (1 - math.Pow(s.B2, float64(it)))
		if s.Kind == "adamw" {
			w *= 1 - s.Eta*s.WD
		}
		return w - s.Eta*m/(math.Sqrt(v)+s.Eps)
	}
	panic(s.Kind)
}
