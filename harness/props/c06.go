package props

import (
	"fmt"
	"math"

	"verif/engine"

	"pgregory.net/rapid"
)

// momCase is a history for one numeric metric or Core.
type momCase struct {
	S   Spec  `json:"s"`
	Ops []Op  `json:"ops"`
	E   []int `json:"e,omitempty"`   // coordinate j of every value is multiplied by 2^E[j]
	Gap int   `json:"gap,omitempty"` // which reads are left out
}

// scaled multiplies every pushed value.
func (c momCase) scaled(st []Op) []Op {
	if len(c.E) == 0 {
		return st
	}
	for i, op := range st {
		x := make([]F, len(op.X))
		for j, v := range op.X {
			x[j] = F(math.Ldexp(float64(v), c.E[j%len(c.E)]))
		}
		st[i].X = x
	}
	return st
}

// order is the greatest power of a coordinate, and of all together, that the statistic needs.
func (s Spec) order() int {
	r := 1
	for _, t := range s.tuplesOf() {
		sum := 0
		for _, k := range t {
			sum += k
		}
		r = max(r, sum)
	}
	return r
}

// genScaled: values far from 1, as far as all powers that are needed stay well within the range of a float64.
func genScaled(gen func(t *rapid.T) momCase) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		c := gen(t)
		hi := 700 / c.S.order()
		for j := 0; j < max(1, c.S.newModel().d); j++ {
			e := rapid.IntRange(0, 2*hi).Draw(t, "exp") - hi
			if rapid.Bool().Draw(t, "far") {
				e = rapid.SampledFrom([]int{-hi, hi}).Draw(t, "end")
			}
			c.E = append(c.E, e)
		}
		return c
	}
}

// profile for orders: high orders get moderate magnitudes only
func momProfile(t *rapid.T, maxOrder int) profile {
	pr := numericProfile(t)
	if maxOrder > 8 && pr.name == "wide" {
		return profile{"unit", moderate(-1, 1), pair(moderate(-1, 1), moderate(-1, 1))}
	}
	return pr
}

func genMom(kinds []string, scales []int, patN, patProb, maxW int) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		c := momCase{S: drawSpec(t, kinds, maxW)}
		c.Ops = drawHistory(t, histOpt{arity: c.S.arity(), pr: momProfile(t, 6), clears: true, scales: scales, patN: patN, patProb: patProb})
		c.Gap = drawGaps(t)
		return c
	}
}

// tuplesOf lists what the model must follow for a spec.
func (s Spec) tuplesOf() [][]int {
	switch s.Kind {
	case "mean", "ewma":
		return [][]int{{1}}
	case "moment", "ewmmoment":
		return [][]int{{s.K}}
	case "std", "ewmstd":
		return [][]int{{2}}
	case "skew":
		return [][]int{{3}}
	case "kurt":
		return [][]int{{4}}
	case "mcore":
		m := s.maxSum()
		if m == 0 {
			m = 1
		}
		return [][]int{{m}}
	case "cov", "ewmcov":
		return [][]int{{1, 1}}
	case "corr", "ewmcorr", "autocorr":
		return [][]int{{1, 1}, {2, 0}, {0, 2}}
	case "autocov":
		return [][]int{{1, 1}}
	case "jcore":
		return s.Tup
	}
	panic(engine.HarnessError{Msg: "no tuples for " + s.Kind})
}

func (s Spec) newModel() *momentModel {
	d := s.arity()
	if s.Kind == "autocov" || s.Kind == "autocorr" {
		d = 2
	}
	return newMomentModel(d, s.W, float64(s.D), s.tuplesOf())
}

// expected value of a moment-like metric; ok is false where the statistic is undefined or too ill-conditioned to judge.
func (s Spec) expect(m *momentModel) (val, bool) {
	e := m.exact()
	n := m.n()
	fn := float64(n)
	switch s.Kind {
	case "mean", "ewma":
		return m.mean(e, 0), true
	case "moment":
		if n < 2 {
			return val{}, false
		}
		return m.sum(e, s.K).div(fn - 1), true
	case "std":
		if n < 2 {
			return val{}, false
		}
		return m.sum(e, 2).div(fn - 1).sqrt(), true
	case "skew":
		if n < 3 {
			return val{}, false
		}
		// sqrt(n(n-1))/(n-2) * m3/m2^1.5 with population moments
		c := sqrt(fn*(fn-1)) / (fn - 2)
		return ratio(c, m.sum(e, 3).div(fn), m.sum(e, 2).div(fn), 1.5)
	case "kurt":
		if n < 2 {
			return val{}, false
		}
		r, ok := ratio(1, m.sum(e, 4).div(fn), m.sum(e, 2).div(fn), 2)
		r.v -= 3
		r.tol += 8 * eps
		return r, ok
	case "ewmmoment":
		return m.sum(e, s.K), true
	case "ewmstd":
		return m.sum(e, 2).sqrt(), true
	case "cov", "autocov":
		if n < 2 {
			return val{}, false
		}
		return m.sum(e, 1, 1).div(fn - 1), true
	case "ewmcov":
		return m.sum(e, 1, 1), true
	case "corr", "autocorr", "ewmcorr":
		if n < 2 {
			return val{}, false
		}
		return corrOf(m.sum(e, 1, 1), m.sum(e, 2, 0), m.sum(e, 0, 2))
	}
	panic(engine.HarnessError{Msg: "no expectation for " + s.Kind})
}

// feed gives the model what the metric's statistic is about: points, or lagged pairs.
type feeder struct {
	m   *momentModel
	lag int
	ser []float64
	lg  bool
}

func (f *feeder) push(x []float64) {
	if !f.lg {
		f.m.push(x)
		return
	}
	f.ser = append(f.ser, x[0])
	if n := len(f.ser); n > f.lag {
		f.m.push([]float64{x[0], f.ser[n-1-f.lag]})
	}
}

func (f *feeder) clear() { f.m.clear(); f.ser = nil }

func (s Spec) feeder() *feeder {
	return &feeder{m: s.newModel(), lag: s.Lag, lg: s.Kind == "autocov" || s.Kind == "autocorr"}
}

func runMom(c momCase, x *X) error { return runMomEvery(c, x) }

func runMomEvery(c momCase, x *X) error {
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	f := c.S.feeder()
	st := c.scaled(steps(c.Ops, in.Arity))
	checked := 0
	evictions := 0
	check := func(i int) error {
		o := in.Observe()[0]
		if f.m.n() == 0 {
			if !o.Err {
				return fail("step %d: Value without any values returned %v, not an error", i, o.V)
			}
			return nil
		}
		if o.Err {
			if _, ok := c.S.expect(f.m); ok {
				return fail("step %d: Value failed with %d values in the window", i, f.m.n())
			}
			return nil // undefined statistic: an error is as good as NaN
		}
		want, ok := c.S.expect(f.m)
		if !ok {
			return nil
		}
		if want.tol < 1e-3*(abs(want.v)+want.tol) {
			checked++
		}
		return want.close(x, o.V, func() string { return fmt.Sprintf("step %d: %s w=%d n=%d", i, c.S.Kind, c.S.W, f.m.n()) })
	}
	if err := check(-1); err != nil {
		return err
	}
	every := 1 + len(st)/60
	for i, op := range st {
		switch op.O {
		case "push":
			if c.S.W > 0 && f.m.n() == c.S.W {
				evictions++
			}
			if err := in.Push(floats(op.X)); err != nil {
				return fail("step %d: Push(%v): %v", i, op.X, err)
			}
			f.push(floats(op.X))
		case "clear":
			in.Clear()
			f.clear()
		}
		if (i%every == 0 || len(st)-i < 8 || op.O == "clear") && readAt(c.Gap, i, len(st)) {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	x.Label(c.S.Kind)
	if evictions > 0 {
		x.Label("eviction")
	}
	if checked >= 2 && (evictions > 0 || c.S.W == 0) {
		x.NonTrivial()
	}
	return nil
}

const momRule = "non-trivial: at least two comparisons with a non-zero statistic (tolerance under 0.1% of it), and an eviction or a global window"

func init() {
	kinds := []string{"mean", "moment", "moment", "std", "skew", "kurt"}
	far := "the same with values scaled by powers of two between 2^-700 and 2^700, divided by the order of the statistic; " + momRule
	engine.Reg("C06", "scaled", far, 8000, 160000, genScaled(genMom(kinds, nil, 0, 0, 30)), runMom)
	engine.Reg("C10", "scaled", far, 8000, 160000, genScaled(genMom([]string{"cov", "corr"}, nil, 0, 0, 30)), runMom)
	engine.Reg("C12", "scaled", far, 8000, 160000, genScaled(genMom([]string{"autocov", "autocorr"}, []int{0, 5, 12}, 0, 0, 30)), runMom)
	engine.Reg("C08", "scaled", far, 6000, 120000, genScaled(genMom([]string{"ewma", "ewmmoment", "ewmmoment", "ewmstd"}, nil, 0, 0, 1)), runMom)
	engine.Reg("C11", "scaled", far, 6000, 120000, genScaled(genMom([]string{"ewmcov", "ewmcorr"}, nil, 0, 0, 1)), runMom)
	engine.Reg("C07", "scaled", far, 2000, 40000, genScaled(genMCore(false, 8, nil, 0, 0, 30)), runCore)
	engine.Reg("C09", "scaled", far, 1500, 30000, genScaled(genJCore(false, nil, 0, 0, 20)), runCore)
	engine.Reg("C06", "history", "random push/clear histories against 320-bit batch statistics; "+momRule, 30000, 600000, genMom(kinds, nil, 0, 0, 30), runMom)
	engine.Reg("C06", "patterns", "long patterned runs through windows up to 120; "+momRule, 1600, 30000, genMom(kinds, []int{0, 0, 3}, 200, 60, 120), runMom)

	ek := []string{"ewma", "ewmmoment", "ewmmoment", "ewmstd"}
	engine.Reg("C08", "history", "EWMA, EWMMoment and EWMStd against explicitly weighted 320-bit statistics; "+momRule, 24000, 500000, genMom(ek, nil, 0, 0, 1), runMom)
	engine.Reg("C08", "patterns", "long patterned runs; "+momRule, 800, 16000, genMom(ek, []int{0, 0, 3}, 150, 60, 1), runMom)

	engine.Reg("C10", "history", "Cov and Corr histories against 320-bit batch statistics; "+momRule, 30000, 600000, genMom([]string{"cov", "corr"}, nil, 0, 0, 30), runMom)
	engine.Reg("C10", "patterns", "long patterned runs through windows up to 120; "+momRule, 1600, 30000, genMom([]string{"cov", "corr"}, []int{0, 0, 3}, 200, 60, 120), runMom)

	engine.Reg("C11", "history", "EWMCov and EWMCorr against explicitly weighted 320-bit statistics; "+momRule, 24000, 500000, genMom([]string{"ewmcov", "ewmcorr"}, nil, 0, 0, 1), runMom)
	engine.Reg("C11", "patterns", "long patterned runs; "+momRule, 800, 16000, genMom([]string{"ewmcov", "ewmcorr"}, []int{0, 0, 3}, 150, 60, 1), runMom)

	ak := []string{"autocov", "autocorr"}
	engine.Reg("C12", "history", "Autocov and Autocorr histories with lags 0..13 against 320-bit statistics of the lagged pairs; "+momRule, 30000, 600000, genMom(ak, []int{0, 5, 12, 30, 60}, 0, 0, 30), runMom)
	engine.Reg("C12", "patterns", "long patterned runs; "+momRule, 1600, 30000, genMom(ak, []int{0, 0, 3}, 200, 60, 120), runMom)
}
