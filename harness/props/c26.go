package props

import (
	"fmt"
	"math"

	"verif/engine"
	"verif/vstep"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"pgregory.net/rapid"
)

// costCase: the same shape of stream at a small and at a large size; steps per operation compared.
type costCase struct {
	S     Spec  `json:"s"` // W and Lag are scaled: see at
	Win   bool  `json:"win"`
	LagBy int   `json:"lagby,omitempty"` // the lag is the size over this
	N     int   `json:"n"`
	Segs  []Pat `json:"segs"` // N: length in eighths of the size
	Seed  int64 `json:"seed"`
}

const costSmall = 64

var (
	costLog   = map[string]bool{"quantile": true, "median": true, "iqr": true, "heapmedian": true, "avl": true, "rb": true, "skiplist": true}
	costKinds = []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "quantile", "median", "iqr", "heapmedian", "autocov", "autocorr",
		"cov", "corr", "ewmcov", "ewmcorr", "mcore", "jcore", "avl", "rb", "skiplist", "quantile", "median", "heapmedian", "max", "min", "skiplist"}
)

func genCost(t *rapid.T) costCase {
	c := costCase{N: rapid.SampledFrom([]int{2048, 4096, 8192}).Draw(t, "n"), Win: rapid.IntRange(0, 3).Draw(t, "win") > 0}
	c.S = drawSpec(t, costKinds, 30)
	switch c.S.Kind {
	case "jcore", "cov", "corr", "ewmcov", "ewmcorr", "autocov", "autocorr":
		c.N = rapid.SampledFrom([]int{1024, 2048}).Draw(t, "njoint")
	}
	if costLog[c.S.Kind] {
		c.N *= 2
	}
	// levels and probabilities that a user may choose void the logarithm
	c.S.Impl.ML, c.S.Impl.P = 0, 0
	if c.S.Lag > 0 && rapid.Bool().Draw(t, "biglag") {
		c.LagBy = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "lagby")
	}
	pr := profile{g: moderate(-100, 100), pa: pair(moderate(-100, 100), rapid.Float64Range(0.5, 2))}
	k := rapid.IntRange(1, 4).Draw(t, "segs")
	for i := 0; i < k; i++ {
		p := *drawPat(t, pr, 16)
		p.Kind = rapid.SampledFrom([]string{"uni", "dup", "up", "down", "zigzag", "const", "saw", "organ", "walk", "alt"}).Draw(t, "shape")
		c.Segs = append(c.Segs, p)
	}
	return c
}

func (c costCase) at(n int) Spec {
	s := c.S
	if s.decaying() || s.isContainer() {
		s.W = 0
	} else if c.Win {
		s.W, s.Global = n, false
	} else {
		s.W = 0
	}
	if c.LagBy > 0 {
		s.Lag = n / c.LagBy
	}
	return s
}

// measure runs 3n pushes and some reads; it returns the mean steps of a push (a removal and an addition for containers)
// and of a read.
func (c costCase) measure(n int) (push, read float64, err error) {
	s := c.at(n)
	in, err := s.build()
	if err != nil {
		return 0, 0, err
	}
	var pts [][]float64
	for len(pts) < 3*n {
		for _, p := range c.Segs {
			p.N = 1 + p.N*n/8
			if p.Kind == "organ" || p.Kind == "saw" {
				p.M = p.M * n / 32
			}
			pts = append(pts, p.Expand(in.Arity)...)
		}
	}
	pts = pts[:3*n]
	every := 1 + 3*n/128
	var np, nr, sp, sr int64
	ct, isCont := in.Obj.(container)
	rng := xs64(c.Seed*2 + 88172645463325253)
	for i, p := range pts {
		a := vstep.N
		if err := in.Push(p); err != nil {
			return 0, 0, fail("Push(%v): %v", p, err)
		}
		if isCont && i >= n {
			ct.Remove(pts[i-n][0])
		}
		sp += vstep.N - a
		np++
		if i%every == every-1 {
			a = vstep.N
			if isCont {
				k := int(rng.next()>>20) % ct.Size()
				nd := ct.Select(k)
				ct.Rank(nd.Value())
			} else {
				in.Observe()
			}
			sr += vstep.N - a
			nr++
		}
	}
	return float64(sp) / float64(np), float64(sr) / float64(nr), nil
}

func runCost(c costCase, x *X) error {
	if vstep.Mode == "" {
		panic(engine.HarnessError{Msg: "not the counting build"})
	}
	p0, r0, err := c.measure(costSmall)
	if err != nil {
		return err
	}
	p1, r1, err := c.measure(c.N)
	if err != nil {
		return err
	}
	grow := 1.0
	order := "a constant"
	if costLog[c.S.Kind] {
		grow = math.Log2(float64(c.N)) / math.Log2(costSmall)
		order = "the logarithm of the size"
	}
	for _, q := range []struct {
		name  string
		small float64
		large float64
	}{{"Push", p0, p1}, {"Value", r0, r1}} {
		bound := 2.5*q.small*grow + 40
		x.Obs(q.large/bound, func() string {
			return fmt.Sprintf("%s %s w=%v n=%d: %.1f against %.1f steps", c.S.Kind, q.name, c.Win, c.N, q.large, q.small)
		})
		if q.large > bound {
			return fail("%s of %s takes %.1f steps on average at size %d, %.1f at size %d: more than %s allows (bound %.1f)", q.name, c.S.Kind, q.large, c.N, q.small, costSmall, order, bound)
		}
	}
	x.Label(c.S.Kind)
	if p0 > 1 {
		x.NonTrivial()
	}
	return nil
}

// ordCase: the cost of a push as the order, the number of tuples or of variables grows.
type ordCase struct {
	A, B Spec
	Grow float64 `json:"grow"` // what the documentation allows from A to B
	Seed uint64  `json:"seed"`
}

func genCostOrder(t *rapid.T) ordCase {
	c := ordCase{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
	w := rapid.IntRange(0, 20).Draw(t, "w")
	mk := func(kind string) Spec {
		s := Spec{Kind: kind, W: w}
		s.Impl.Impl = -1
		return s
	}
	d := F(0)
	if rapid.Bool().Draw(t, "decay") {
		w, d = 0, 0.25
	}
	k0, f := rapid.IntRange(4, 10).Draw(t, "k"), rapid.IntRange(3, 6).Draw(t, "f")
	// the sum over orders k up to the configured one of the k - 2 terms of each: what a quadratic algorithm grows by at most
	quad := float64((k0*f-1)*(k0*f-2)) / float64((k0-1)*(k0-2))
	switch rapid.IntRange(0, 4).Draw(t, "which") {
	case 0: // the order of one power sum
		c.A, c.B = mk("mcore"), mk("mcore")
		c.A.Sums, c.B.Sums = []int{k0}, []int{k0 * f}
		c.Grow = quad
	case 1:
		k := "moment"
		if d != 0 {
			k = "ewmmoment"
		}
		c.A, c.B = mk(k), mk(k)
		c.A.K, c.B.K = k0, k0*f
		c.Grow = quad
	case 2: // the exponents of a tuple
		c.A, c.B = mk("jcore"), mk("jcore")
		c.A.Vars, c.B.Vars = 2, 2
		c.A.Tup, c.B.Tup = [][]int{{2, 2}}, [][]int{{4, 6}}
		c.Grow = 35 * 35 / 81.0
	case 3: // variables
		n := rapid.IntRange(6, 16).Draw(t, "vars")
		c.A, c.B = mk("jcore"), mk("jcore")
		c.A.Vars, c.B.Vars = 2, n
		tu := make([]int, n)
		tu[0], tu[n-1] = 1, 1
		c.A.Tup, c.B.Tup = [][]int{{1, 1}}, [][]int{tu}
		c.Grow = float64(n) / 2
	default: // tuples
		n := 8
		c.A, c.B = mk("jcore"), mk("jcore")
		c.A.Vars, c.B.Vars = n, n
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				tu := make([]int, n)
				tu[i], tu[j] = 1, 1
				c.B.Tup = append(c.B.Tup, tu)
			}
		}
		c.A.Tup = c.B.Tup[:2]
		c.Grow = float64(len(c.B.Tup)) / 2
	}
	c.A.D, c.B.D = d, d
	return c
}

func runCostOrder(c ordCase, x *X) error {
	if vstep.Mode == "" {
		panic(engine.HarnessError{Msg: "not the counting build"})
	}
	cost := func(s Spec) (push, sum float64, err error) {
		in, err := s.build()
		if err != nil {
			return 0, 0, fail("constructor: %v", err)
		}
		data := longData(c.Seed, 60, in.Arity, 0)
		var n int64
		for _, p := range data {
			a := vstep.N
			if err := in.Push(p); err != nil {
				return 0, 0, fail("Push: %v", err)
			}
			n += vstep.N - a
		}
		a := vstep.N
		switch o := in.Obj.(type) {
		case *moment.Core:
			_, err = o.Sum(s.maxSum())
		case *joint.Core:
			_, err = o.Sum(s.Tup[len(s.Tup)-1]...)
		default:
			in.Observe()
		}
		if err != nil {
			return 0, 0, fail("Sum: %v", err)
		}
		return float64(n) / 60, float64(vstep.N - a), nil
	}
	a, ra, err := cost(c.A)
	if err != nil {
		return err
	}
	b, rb, err := cost(c.B)
	if err != nil {
		return err
	}
	grow := 1.0
	if c.A.Kind == "jcore" {
		grow = float64(c.B.Vars) / float64(c.A.Vars)
	}
	if bound := 2*grow*ra + 20; rb > bound {
		return fail("reading one statistic takes %.0f steps, %.0f for the smaller configuration: more than the documented growth by %.1f allows (bound %.0f)", rb, ra, grow, bound)
	}
	bound := 1.6*c.Grow*a + 40
	x.Obs(b/bound, func() string { return fmt.Sprintf("%s %v: %.1f against %.1f", c.B.Kind, c.B.Tup, b, a) })
	if b > bound {
		return fail("Push takes %.1f steps on average, %.1f for the smaller configuration: more than the documented growth by %.1f allows (bound %.1f)", b, a, c.Grow, bound)
	}
	x.NonTrivial()
	return nil
}

func init() {
	engine.Reg("C26", "size", "steps (function entries, loop iterations, elements copied) per Push and per Value, averaged over 3n pushes of the same shape, at n = 64 and n up to 8192 (16384 where the bound is logarithmic); windows, lags and containers of size n, or global; non-trivial: a push takes more than one step",
		900, 14000, genCost, runCost, engine.Binary("step"))
	engine.Reg("C26", "order", "steps per Push as the order, exponents, variables or number of tuples grow against the documented polynomial; non-trivial: all",
		600, 10000, genCostOrder, runCostOrder, engine.Binary("step"))
}
