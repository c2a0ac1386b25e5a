package props

import (
	"fmt"
	"math"

	"verif/engine"

	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"pgregory.net/rapid"
)

// misuseCase: a history with misuse calls in it; op "mis" has N = which call, M = ints, X = floats.
type misuseCase struct {
	S   Spec `json:"s"`
	Ops []Op `json:"ops"`
	Rep int  `json:"rep,omitempty"` // each misuse call is made this many times more
}

func genMisuseOften(t *rapid.T) misuseCase {
	c := genMisuse([]int{0, 0, 5}, 12)(t)
	c.Rep = drawOften(t) / 4
	if c.S.Kind == "jagg" {
		c.Rep = min(c.Rep, 100)
	}
	return c
}

var misuseKinds = []string{"cov", "corr", "ewmcov", "ewmcorr", "jcore", "jcore", "jcore", "mcore", "mcore", "quantile", "jagg"}

func drawMisuse(t *rapid.T, s Spec) Op {
	o := Op{O: "mis"}
	wrongPush := func() {
		n := s.arity()
		for n == s.arity() {
			n = rapid.IntRange(0, s.arity()+3).Draw(t, "len")
		}
		o.N = 0
		o.X = make([]F, n)
		for i := range o.X {
			o.X[i] = F(rapid.IntRange(-5, 5).Draw(t, "v"))
		}
	}
	switch s.Kind {
	case "cov", "corr", "ewmcov", "ewmcorr", "jagg":
		wrongPush()
	case "mcore":
		o.N = 1
		hi := s.maxSum()
		switch rapid.IntRange(0, 3).Draw(t, "k") {
		case 0:
			o.M = []int{rapid.SampledFrom([]int{0, -1, -2, math.MinInt64}).Draw(t, "k")}
		case 1:
			o.M = []int{hi + rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "k")}
		case 2:
			o.M = []int{rapid.SampledFrom([]int{64, 1000, math.MaxInt64}).Draw(t, "k")}
		default:
			o.M = []int{hi + rapid.IntRange(1, 40).Draw(t, "k")}
		}
		if hi == 0 && o.M[0] <= 0 {
			o.M[0] = 1
		}
	case "jcore":
		switch rapid.IntRange(0, 7).Draw(t, "which") {
		case 0, 1, 2:
			wrongPush()
		case 3:
			o.N = 2 // unknown variable
			o.M = []int{rapid.SampledFrom([]int{-1, -2, math.MinInt64, s.Vars, s.Vars + 1, 1000, math.MaxInt64}).Draw(t, "i")}
		default:
			o.N = 1
			o.M = untracked(t, s)
		}
	case "quantile":
		o.N = 3
		o.X = []F{F(rapid.SampledFrom([]float64{0, 1, -0.5, 1.5, math.NaN(), math.Inf(1), math.Inf(-1), math.Nextafter(1, 2), -5e-324, math.Copysign(0, -1), 100}).Draw(t, "phi"))}
	}
	return o
}

// untracked draws a tuple that is not at most a configured one: just above one, of another length, one whose base-31
// digits equal those of a tracked one, or with negative entries.
func untracked(t *rapid.T, s Spec) []int {
	base := append([]int(nil), rapid.SampledFrom(s.Tup).Draw(t, "base")...)
	for try := 0; ; try++ {
		m := append([]int(nil), base...)
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0:
			m[rapid.IntRange(0, len(m)-1).Draw(t, "i")] += rapid.IntRange(1, 3).Draw(t, "by")
		case 1:
			m = m[:rapid.IntRange(0, len(m)-1).Draw(t, "len")]
		case 2:
			m = append(m, rapid.IntRange(0, 2).Draw(t, "e"))
		case 3:
			m = append([]int{0}, m...) // same digits with a leading zero
		case 4:
			i := rapid.IntRange(0, len(m)-2).Draw(t, "i") // carry: same number in base 31
			if m[i] > 0 {
				m[i]--
				m[i+1] += 31
			} else {
				m[i+1] -= 31
				m[i]++
			}
		default:
			m[rapid.IntRange(0, len(m)-1).Draw(t, "i")] = rapid.SampledFrom([]int{-1, -31, 1000, 31, 30}).Draw(t, "e")
		}
		if !s.tracked(m) {
			return m
		}
		if try > 8 {
			m[0] = 29
			return m
		}
	}
}

func (s Spec) tracked(m []int) bool {
	for _, t := range s.Tup {
		if len(t) != len(m) {
			continue
		}
		ok := true
		for i := range t {
			ok = ok && m[i] >= 0 && m[i] <= t[i]
		}
		if ok {
			return true
		}
	}
	return false
}

func genMisuse(scales []int, maxW int) func(t *rapid.T) misuseCase {
	return func(t *rapid.T) misuseCase {
		c := misuseCase{S: drawSpec(t, misuseKinds, maxW)}
		if c.S.Kind == "jagg" && len(c.S.Members) == 0 {
			m := Spec{Kind: rapid.SampledFrom(jointKinds).Draw(t, "member")}
			m.fill(t, maxW)
			c.S.Members = append(c.S.Members, m)
		}
		for _, op := range c.S.drawOps(t, scales, 0, 0) {
			for rapid.IntRange(0, 3).Draw(t, "mis") == 0 {
				c.Ops = append(c.Ops, drawMisuse(t, c.S))
			}
			c.Ops = append(c.Ops, op)
		}
		if len(c.Ops) == 0 || rapid.IntRange(0, 3).Draw(t, "misend") == 0 {
			c.Ops = append(c.Ops, drawMisuse(t, c.S))
		}
		return c
	}
}

// misuse makes the call and says whether it failed as it should.
func (in *Inst) misuse(s Spec, op Op) error {
	var err error
	var what string
	switch op.N {
	case 0:
		what = fmt.Sprintf("Push%v", op.X)
		err = in.Push(floats(op.X))
	case 1:
		what = fmt.Sprintf("Sum(%v)", op.M)
		switch c := in.Obj.(type) {
		case *moment.Core:
			if s.Unsafe {
				c.RLock()
				_, err = c.UnsafeSum(op.M[0])
				c.RUnlock()
			} else {
				_, err = c.Sum(op.M[0])
			}
		case *joint.Core:
			if s.Unsafe {
				c.RLock()
				_, err = c.UnsafeSum(op.M...)
				c.RUnlock()
			} else {
				_, err = c.Sum(op.M...)
			}
		}
	case 2:
		what = fmt.Sprintf("Mean(%v)", op.M)
		c := in.Obj.(*joint.Core)
		if s.Unsafe {
			c.RLock()
			_, err = c.UnsafeMean(op.M[0])
			c.RUnlock()
		} else {
			_, err = c.Mean(op.M[0])
		}
	case 3:
		what = fmt.Sprintf("Value(%v)", op.X[0])
		_, err = in.Obj.(*quantile.Quantile).Value(float64(op.X[0]))
	}
	if err == nil {
		return fail("%s of %s succeeded", what, s.Kind)
	}
	_ = err.Error()
	return nil
}

func runMisuse(c misuseCase, x *X) error {
	a, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	b, _ := c.S.build()
	mis, pushes, after := 0, 0, 0
	for i, op := range c.Ops {
		if op.O == "mis" {
			if err := a.misuse(c.S, op); err != nil {
				return fail("step %d: %v", i, err)
			}
			for r := 0; r < c.Rep; r++ {
				if err := a.misuse(c.S, op); err != nil {
					return fail("step %d, repetition %d: %v", i, r, err)
				}
			}
			if pushes > 0 {
				mis++
			}
			if d := sameObs(a.Observe(), b.Observe()); d != "" { // the next step may hide it
				return fail("step %d: right after a misuse call against without: %s", i, d)
			}
			continue
		}
		e1, e2 := a.apply(op), b.apply(op)
		if e1 != nil || e2 != nil {
			return fail("step %d: %s failed: %v (without misuse: %v)", i, op.O, e1, e2)
		}
		if op.O == "push" {
			pushes++
			if mis > 0 {
				after++
			}
		}
		if i%5 == 0 || len(c.Ops)-i < 4 {
			if d := sameObs(a.Observe(), b.Observe()); d != "" {
				return fail("step %d: with misuse calls against without: %s", i, d)
			}
		}
	}
	if d := sameObs(a.Observe(), b.Observe()); d != "" {
		return fail("at the end: with misuse calls against without: %s", d)
	}
	x.Label(c.S.Kind)
	if mis > 0 && after > 0 {
		x.NonTrivial()
	}
	return nil
}

// uninitCase: calls on a metric that has no Core yet, then Init and a history.
type uninitCase struct {
	S    Spec  `json:"s"`
	Pre  []int `json:"pre"` // 0 Push 1 Value 2 Clear 3 String 4 Config 5 Push of a wrong number of values 6 through an aggregate
	Ops  []Op  `json:"ops"`
	Init bool  `json:"init"`
}

func genUninit(t *rapid.T) uninitCase {
	kinds := []string{"mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "cov", "corr", "ewmcov", "ewmcorr", "autocov", "autocorr"}
	c := uninitCase{S: drawSpec(t, kinds, 8)}
	c.S.Uninit = true
	c.Pre = rapid.SliceOfN(rapid.IntRange(0, 6), 1, 12).Draw(t, "pre")
	c.Ops = c.S.drawOps(t, []int{0, 5, 12}, 0, 0)
	return c
}

func runUninit(c uninitCase, x *X) error {
	a, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	s := c.S
	s.Uninit = false
	b, err := s.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	calls := 0
	for i, p := range c.Pre {
		switch p {
		case 0, 5:
			n := a.Arity
			if p == 5 && a.Arity == 2 {
				n = 3
			}
			if err := a.Push([]float64{7, -3, 5}[:n]); err == nil {
				return fail("call %d: Push on uninitialised %s succeeded", i, c.S.Kind)
			}
			calls++
		case 1:
			if o := a.Observe()[0]; !o.Err {
				return fail("call %d: Value of uninitialised %s is %v", i, c.S.Kind, o.V)
			}
			calls++
		case 2:
			a.Clear()
		case 3:
			if a.str() != b.str() {
				return fail("call %d: String %q, initialised %q", i, a.str(), b.str())
			}
		case 4:
			a.Cfg()
		case 6:
			if m, ok := a.Obj.(simple); ok {
				ag := aggregate.NewSimpleAggregateMetric(m)
				if err := ag.Push(3); err == nil {
					return fail("call %d: Push on an aggregate of an uninitialised metric succeeded", i)
				}
				if v, err := ag.Values(); err == nil {
					return fail("call %d: Values of an aggregate of an uninitialised metric: %v", i, v)
				}
				ag.Clear()
			}
			if m, ok := a.Obj.(jsimple); ok {
				ag := aggregate.NewSimpleJointAggregateMetric(m)
				if err := ag.Push(3, 4); err == nil {
					return fail("call %d: Push on an aggregate of an uninitialised metric succeeded", i)
				}
				if v, err := ag.Values(); err == nil {
					return fail("call %d: Values of an aggregate of an uninitialised metric: %v", i, v)
				}
				ag.Clear()
			}
		}
	}
	if err := a.Init(); err != nil {
		return fail("Init: %v", err)
	}
	for i, op := range c.Ops {
		e1, e2 := a.apply(op), b.apply(op)
		if e1 != nil || e2 != nil {
			return fail("step %d: %s failed: %v, twin %v", i, op.O, e1, e2)
		}
		if d := sameObs(a.Observe(), b.Observe()); d != "" {
			return fail("step %d: used before Init against not: %s", i, d)
		}
	}
	x.Label(c.S.Kind)
	if calls > 0 && len(c.Ops) > 2 {
		x.NonTrivial()
	}
	return nil
}

// foreignCase: a metric attached to a Core that does not track what it needs.
type foreignCase struct {
	S    Spec `json:"s"`    // the metric
	Core Spec `json:"core"` // an mcore or jcore
	Ops  []Op `json:"ops"`
}

func genForeign(t *rapid.T) foreignCase {
	var c foreignCase
	if rapid.Bool().Draw(t, "joint") {
		c.S = drawSpec(t, []string{"cov", "corr"}, 8)
		c.Core = drawSpec(t, []string{"jcore"}, 8)
	} else {
		c.S = drawSpec(t, []string{"moment", "std", "skew", "kurt"}, 8)
		c.Core = drawSpec(t, []string{"mcore"}, 8)
	}
	c.Core.Unsafe = false
	c.Ops = c.Core.drawOps(t, []int{0, 5, 12}, 0, 0)
	return c
}

func runForeign(c foreignCase, x *X) error {
	s := c.S
	s.Uninit = true
	m, err := s.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	core, err := c.Core.build()
	if err != nil {
		return fail("NewCore: %v", err)
	}
	twin, _ := c.Core.build()
	missing := false
	switch cw := m.Obj.(type) {
	case moment.CoreWrapper:
		cw.SetCore(core.Obj.(*moment.Core))
		need := map[string]int{"moment": s.K, "std": 2, "skew": 3, "kurt": 4}[s.Kind]
		missing = c.Core.maxSum() < need
	case joint.CoreWrapper:
		cw.SetCore(core.Obj.(*joint.Core))
		missing = !c.Core.tracked([]int{1, 1})
		if s.Kind == "corr" {
			missing = missing || !c.Core.tracked([]int{2, 0}) || !c.Core.tracked([]int{0, 2})
		}
	}
	n := 0
	for i, op := range c.Ops {
		if m.Arity == 2 && c.Core.Vars != 2 {
			if err := m.Push([]float64{1, 2}); err == nil {
				return fail("step %d: %s pushed two values to a Core of %d variables without an error", i, s.Kind, c.Core.Vars)
			}
		}
		if err := core.apply(op); err != nil {
			return fail("step %d: %v", i, err)
		}
		twin.apply(op)
		if op.O == "push" {
			n++
		}
		for r := 0; r < 2; r++ {
			if o := m.Observe()[0]; missing && !o.Err {
				return fail("step %d: %s on a Core that does not track its sums reports %v", i, s.Kind, o.V)
			}
		}
		if d := sameObs(core.Observe(), twin.Observe()); d != "" {
			return fail("step %d: Core with and without a metric asking for untracked sums: %s", i, d)
		}
	}
	x.Label(fmt.Sprintf("%s missing=%v", s.Kind, missing))
	if missing && n > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C16", "misuse", "histories with wrong numbers of values, untracked orders and tuples (other lengths, equal base-31 numbers, negative), unknown variables and bad quantiles inserted: each an error, all results equal to the twin without them; non-trivial: misuse after a push and pushes after that",
		30000, 600000, genMisuse([]int{0, 0, 5, 12}, 12), runMisuse)
	engine.Reg("C16", "misuse-often", "the same with each misuse call repeated hundreds to thousands of times; non-trivial: as there", 160, 4000, genMisuseOften, runMisuse)
	engine.Reg("C16", "uninitialised", "Push, Value, Clear, String, Config and use in an aggregate before Init, then the history of a twin; non-trivial: a failing call happened and the history has more than two steps",
		12000, 240000, genUninit, runUninit)
	engine.Reg("C16", "foreign-core", "metrics attached to Cores with arbitrary other sums: an error when the Core lacks a needed sum, the Core unaffected, no lock kept; non-trivial: a sum is missing and two values were pushed",
		8000, 160000, genForeign, runForeign)
}
