package props

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"slices"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"pgregory.net/rapid"
)

// implSpec chooses an order-statistic implementation and its options.
type implSpec struct {
	Impl int   `json:"impl"` // 0 AVL, 1 red-black, 2 skip list, -1 default
	ML   int   `json:"ml,omitempty"`
	P    F     `json:"p,omitempty"`
	Seed int64 `json:"seed,omitempty"`
}

func (s implSpec) skipOpts() []order.Option {
	var o []order.Option
	if s.ML != 0 {
		o = append(o, skiplist.MaxLevelOption(s.ML))
	}
	if s.P != 0 {
		o = append(o, skiplist.ProbabilityOption(float64(s.P)))
	}
	if s.Seed >= 0 { // otherwise the list's own source of randomness
		o = append(o, skiplist.RandOption(rand.New(rand.NewSource(s.Seed))))
	}
	if s.Seed%2 != 0 {
		slices.Reverse(o)
	}
	return o
}

func (s implSpec) options() []quantile.Option {
	switch s.Impl {
	case 0:
		return []quantile.Option{quantile.ImplOption(quantile.AVL)}
	case 1:
		return []quantile.Option{quantile.ImplOption(quantile.RedBlack)}
	case 2:
		return []quantile.Option{quantile.ImplOption(quantile.SkipList, s.skipOpts()...)}
	}
	return nil
}

func (s implSpec) name() string {
	return map[int]string{-1: "default", 0: "avl", 1: "rb", 2: "skiplist"}[s.Impl]
}

func drawImpl(t *rapid.T) implSpec {
	s := implSpec{Impl: rapid.SampledFrom([]int{2, 2, 1, 1, 0, 0, -1}).Draw(t, "impl")}
	if s.Impl == 2 {
		drawSkip(t, &s)
	}
	return s
}

func drawSkip(t *rapid.T, s *implSpec) {
	s.Seed = int64(rapid.IntRange(0, 1<<20).Draw(t, "slseed"))
	if rapid.IntRange(0, 7).Draw(t, "ownrand") == 7 {
		s.Seed = -1
	}
	switch rapid.IntRange(0, 3).Draw(t, "slopts") {
	case 0:
	case 1:
		s.ML = rapid.SampledFrom([]int{1, 2, 3, 64}).Draw(t, "ml")
	case 2:
		s.ML = rapid.IntRange(1, 64).Draw(t, "ml")
		s.P = F(rapid.SampledFrom([]float64{0.5, 0.9, 0.99, 0.01, 0.25}).Draw(t, "p"))
	case 3:
		s.P = F(rapid.SampledFrom([]float64{0.5, 0.75, 0.9, 1e-9, 0.999999}).Draw(t, "p"))
	}
}

type quantCase struct {
	Kind   string   `json:"kind"` // quantile, median, iqr
	W      int      `json:"w"`
	Interp int      `json:"interp"`
	Impl   implSpec `json:"impl"`
	Global bool     `json:"global,omitempty"`
	Phis   []F      `json:"phis"`
	Ops    []Op     `json:"ops"`
	Gap    int      `json:"gap,omitempty"` // which reads are left out
	// 1: the options in the opposite order, 2: after others that they override
	Order int `json:"order,omitempty"`
}

// drawNear draws a quantile whose index in n values is, but for a little, an integer or in the middle of two.
func drawNear(t *rapid.T, n int) float64 {
	half := rapid.IntRange(1, max(1, 2*(n-1)-1)).Draw(t, "half")
	d := math.Pow(10, -rapid.Float64Range(4, 14.5).Draw(t, "digits"))
	if rapid.Bool().Draw(t, "below") {
		d = -d
	}
	v := (float64(half)/2 + d) / float64(max(1, n-1))
	if !(v > 0 && v < 1) {
		return 0.5
	}
	return v
}

func drawPhi(t *rapid.T) float64 {
	switch rapid.IntRange(0, 5).Draw(t, "phiclass") {
	case 0:
		return rapid.SampledFrom([]float64{0.5, 0.25, 0.75, 0.125, 0.375, 0.625, 0.875}).Draw(t, "phi")
	case 1:
		d := rapid.SampledFrom([]int{8, 16, 64, 256, 1024}).Draw(t, "den")
		return float64(rapid.IntRange(1, d-1).Draw(t, "num")) / float64(d)
	case 2:
		return float64(rapid.IntRange(1, 99).Draw(t, "pct")) / 100
	case 3:
		return rapid.SampledFrom([]float64{1e-12, 5e-324, 1 - 1e-12, math.Nextafter(1, 0), 1.0 / 3, 2.0 / 3, 0.1, 0.9, 0.7}).Draw(t, "phi")
	default:
		v := rapid.Float64Range(0, 1).Draw(t, "phi")
		if v <= 0 || v >= 1 {
			v = 0.3
		}
		return v
	}
}

func genQuant(scales []int, patN, patProb, maxW int) func(t *rapid.T) quantCase {
	return func(t *rapid.T) quantCase {
		c := quantCase{
			Kind:   rapid.SampledFrom([]string{"quantile", "quantile", "quantile", "median", "iqr"}).Draw(t, "kind"),
			W:      drawWindow(t, maxW),
			Interp: rapid.IntRange(0, 4).Draw(t, "interp"),
			Impl:   drawImpl(t),
		}
		if c.W == 0 {
			c.Global = rapid.Bool().Draw(t, "global")
		}
		if c.Kind == "quantile" {
			n := rapid.IntRange(1, 4).Draw(t, "nphi")
			for i := 0; i < n; i++ {
				if rapid.IntRange(0, 4).Draw(t, "near") == 0 {
					n := c.W
					if n == 0 || rapid.IntRange(0, 3).Draw(t, "other") == 0 {
						n = rapid.IntRange(2, 40).Draw(t, "n")
					}
					c.Phis = append(c.Phis, F(drawNear(t, n)))
					continue
				}
				c.Phis = append(c.Phis, F(drawPhi(t)))
			}
		}
		c.Ops = drawHistory(t, histOpt{arity: 1, pr: quantProfile(t), clears: true, scales: scales, patN: patN, patProb: patProb})
		c.Gap = drawGaps(t)
		c.Order = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "order")
		return c
	}
}

type quantInst struct {
	push  func(float64) error
	clear func()
	value func(phi float64) (float64, error)
}

func buildQuant(c quantCase) (*quantInst, error) {
	opts := c.Impl.options()
	switch c.Kind {
	case "quantile":
		opts = append(opts, quantile.InterpolationOption(quantile.Interpolation(c.Interp)))
		if c.Interp == 0 && c.Impl.Seed%2 == 0 { // linear is the default
			opts = opts[:len(opts)-1]
		}
		if c.Order == 1 {
			slices.Reverse(opts)
		}
		if c.Order == 2 && len(opts) == 2 {
			opts = append([]quantile.Option{quantile.InterpolationOption(quantile.Interpolation((c.Interp + 2) % 5)), quantile.ImplOption(quantile.Impl((c.Impl.Impl + 1) % 3))}, opts...)
		}
		var q *quantile.Quantile
		var err error
		if c.Global {
			q, err = quantile.NewGlobalQuantile(opts...)
		} else {
			q, err = quantile.New(c.W, opts...)
		}
		if err != nil {
			return nil, err
		}
		return &quantInst{q.Push, q.Clear, q.Value}, nil
	case "median":
		var m *quantile.Median
		var err error
		if c.Global {
			m, err = quantile.NewGlobalMedian(opts...)
		} else {
			m, err = quantile.NewMedian(c.W, opts...)
		}
		if err != nil {
			return nil, err
		}
		return &quantInst{m.Push, m.Clear, func(float64) (float64, error) { return m.Value() }}, nil
	default:
		var m *quantile.IQR
		var err error
		if c.Global {
			m, err = quantile.NewGlobalIQR(opts...)
		} else {
			m, err = quantile.NewIQR(c.W, opts...)
		}
		if err != nil {
			return nil, err
		}
		return &quantInst{m.Push, m.Clear, func(float64) (float64, error) { return m.Value() }}, nil
	}
}

// quantRef is the documented definition on sorted data. It returns the acceptable answers: one, unless the index
// phi*(n-1) is so close to an integer (or, for Nearest, to a half) that rounding of the product decides.
func quantRef(s []float64, phi float64, interp int) []float64 {
	n := len(s)
	raw := phi * float64(n-1) // the documented index; rounded once
	exact := new(big.Float).SetPrec(200).Mul(big.NewFloat(phi), new(big.Float).SetPrec(200).SetInt64(int64(n-1)))
	exactF, acc := exact.Float64()
	idxs := []float64{raw}
	if acc != big.Exact || exactF != raw {
		// the product is not representable: accept what neighbouring roundings would give
		idxs = append(idxs, math.Nextafter(raw, 0), math.Nextafter(raw, float64(n)))
		r := math.Round(raw*2) / 2
		if math.Abs(r-raw) < 2e-15*(1+raw) {
			idxs = append(idxs, r, math.Nextafter(r, 0), math.Nextafter(r, float64(n)))
		}
	}
	var out []float64
	for _, ix := range idxs {
		if ix < 0 || ix > float64(n-1) {
			continue
		}
		i := int(math.Floor(ix))
		d := ix - float64(i)
		if d == 0 {
			out = append(out, s[i])
			continue
		}
		lo, hi := s[i], s[i+1]
		if (interp == 0 || interp > 3) && (math.IsInf(lo, 0) || math.IsInf(hi, 0)) {
			out = append(out, math.NaN()) // formulas which agree otherwise differ between infinities
			continue
		}
		switch interp {
		case 0:
			out = append(out, (1-d)*lo+d*hi)
		case 1:
			out = append(out, lo)
		case 2:
			out = append(out, hi)
		case 3:
			switch {
			case d < 0.5 || (d == 0.5 && i%2 == 0):
				out = append(out, lo)
			default:
				out = append(out, hi)
			}
		default:
			out = append(out, lo/2+hi/2)
		}
	}
	return out
}

// finiteScale is the largest magnitude among the finite values of sorted data.
func finiteScale(s []float64) float64 {
	i, j := 0, len(s)-1
	for i < j && math.IsInf(s[i], 0) {
		i++
	}
	for j > i && math.IsInf(s[j], 0) {
		j--
	}
	if math.IsInf(s[i], 0) || math.IsInf(s[j], 0) {
		return 0
	}
	return math.Max(math.Abs(s[i]), math.Abs(s[j]))
}

// closeTo compares an interpolated value with the reference: exact when both ends agree, otherwise up to a few ulps.
func closeTo(got, want, scale float64) bool {
	if got == want {
		return true
	}
	if math.IsInf(got, 0) && math.Signbit(got) == math.Signbit(want) && math.Abs(want) >= (1-1e-13)*math.MaxFloat64 {
		return true // rounding alone, in a sum of parts
	}
	return math.Abs(got-want) <= 1e-13*scale+1e-320
}

func runQuant(c quantCase, x *X) error {
	m, err := buildQuant(c)
	if err != nil {
		return fail("constructor: %v", err)
	}
	var all []float64
	phis := floats(c.Phis)
	if c.Kind != "quantile" {
		phis = []float64{0.5}
	}
	interpolated := false
	check := func(i int) error {
		win := sorted(tailWindow(all, c.W))
		for _, phi := range phis {
			v, err := m.value(phi)
			if len(win) == 0 {
				if err == nil {
					return fail("step %d: Value on an empty metric returned %v without an error", i, v)
				}
				continue
			}
			if err != nil {
				return fail("step %d: Value failed: %v", i, err)
			}
			scale := finiteScale(win)
			var want []float64
			exactly := false
			switch c.Kind {
			case "quantile":
				want = quantRef(win, phi, c.Interp)
				exactly = c.Interp >= 1 && c.Interp <= 3
			case "median":
				want = quantRef(win, 0.5, 4)
			default:
				want = []float64{quantRef(win, 0.75, 4)[0] - quantRef(win, 0.25, 4)[0]}
			}
			if r := phi * float64(len(win)-1); r != math.Trunc(r) {
				interpolated = true
			}
			ok := false
			for _, w := range want {
				if c.Kind == "iqr" && abs(w) > 0.99*math.MaxFloat64 && (math.IsInf(v, 0) || abs(v) > 0.99*math.MaxFloat64) {
					ok = true // the difference is at, or beyond, the end of the range
				}
				if w != w {
					ok = true
					x.Label("between infinities")
				}
				if (exactly && v == w) || (!exactly && closeTo(v, w, scale)) {
					ok = true
				}
			}
			if !ok {
				return fail("step %d: %s phi=%v n=%d: got %s want %s (sorted window %v)", i, c.Kind, phi, len(win), g(v), g(want[0]), brief(win))
			}
		}
		return nil
	}
	if err := check(-1); err != nil {
		return err
	}
	st := steps(c.Ops, 1)
	evict, dup := false, false
	for i, op := range st {
		switch op.O {
		case "push":
			v := float64(op.X[0])
			for _, y := range tailWindow(all, 8) {
				dup = dup || y == v
			}
			evict = evict || (c.W > 0 && len(all) >= c.W)
			if err := m.push(v); err != nil {
				return fail("step %d: Push(%v): %v", i, v, err)
			}
			all = append(all, v)
		case "clear":
			m.clear()
			all = nil
		}
		if (len(st) < 150 || i%11 == 0 || len(st)-i < 20) && readAt(c.Gap, i, len(st)) {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	x.Label(c.Kind + "/" + c.Impl.name())
	if evict {
		x.Label("eviction")
	}
	if dup {
		x.Label("duplicates")
	}
	if interpolated {
		x.Label("index between two elements")
	}
	if interpolated && (evict || c.W == 0) && len(all) > 2 {
		x.NonTrivial()
	}
	return nil
}

func brief(xs []float64) string {
	if len(xs) <= 12 {
		return fmt.Sprint(xs)
	}
	return fmt.Sprint(xs[:5]) + "..." + fmt.Sprint(xs[len(xs)-5:])
}

func init() {
	rule := "every kind, implementation and interpolation; non-trivial: more than two values, a quantile index between two elements, and an eviction (or a global window)"
	engine.Reg("C02", "history", "random push/clear histories, Value at every step; "+rule, 40000, 800000, genQuant(nil, 0, 0, 40), runQuant)
	engine.Reg("C02", "patterns", "long patterned runs through windows up to 300; "+rule, 4000, 80000, genQuant([]int{0, 0, 4}, 700, 60, 300), runQuant)
}
