package props

import (
	"fmt"
	"math"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"pgregory.net/rapid"
)

// optCase is one option of a quantile metric: an implementation with skip-list options, or an interpolation.
type optCase struct {
	Interp *int   `json:"interp,omitempty"`
	Impl   *int   `json:"impl,omitempty"`
	Skip   []skOp `json:"skip,omitempty"`
}

// skOp is one skip-list option.
type skOp struct {
	ML *int `json:"ml,omitempty"`
	P  *F   `json:"p,omitempty"`
}

// consCase is a construction with arbitrary parameters.
type consCase struct {
	Kind   string    `json:"kind"`
	W      *int      `json:"w"` // nil: unset (configs)
	K      int       `json:"k,omitempty"`
	D      *F        `json:"d,omitempty"`
	Lag    int       `json:"lag,omitempty"`
	Sums   []int     `json:"sums,omitempty"`
	Tup    [][]int   `json:"tup,omitempty"`
	NilSum bool      `json:"nilsum,omitempty"`
	Vars   *int      `json:"vars,omitempty"`
	Opts   []optCase `json:"opts,omitempty"`
	Phi    F         `json:"phi"`
}

func badDecay(t *rapid.T) float64 {
	switch rapid.IntRange(0, 2).Draw(t, "dclass") {
	case 0:
		return rapid.SampledFrom([]float64{0, 1, math.Copysign(0, -1), -0.5, 1.5, 2, math.NaN(), math.Inf(1), math.Inf(-1), math.Nextafter(1, 2), -5e-324, -1}).Draw(t, "d")
	case 1:
		return rapid.SampledFrom([]float64{0.5, 5e-324, math.Nextafter(1, 0), 1e-9, 0.3}).Draw(t, "d")
	default:
		return rapid.Float64Range(-0.5, 1.5).Draw(t, "d")
	}
}

func inUnit(v float64) bool { return v > 0 && v < 1 }

func drawW(t *rapid.T) int {
	return rapid.SampledFrom([]int{-3, -2, -1, -1, 0, 0, 1, 2, 3, 7, 64, math.MinInt64, math.MinInt32}).Draw(t, "w")
}

func drawSkOps(t *rapid.T) []skOp {
	n := rapid.IntRange(0, 3).Draw(t, "nsk")
	var r []skOp
	for i := 0; i < n; i++ {
		if rapid.Bool().Draw(t, "isml") {
			v := rapid.SampledFrom([]int{1, 64, 2, 12, 33, 63, 5, 0, 65, -1, 66, 1000, math.MaxInt64, math.MinInt64, 128}).Draw(t, "ml")
			r = append(r, skOp{ML: &v})
		} else {
			p := F(badDecay(t))
			r = append(r, skOp{P: &p})
		}
	}
	return r
}

func (o skOp) option() order.Option {
	if o.ML != nil {
		return skiplist.MaxLevelOption(*o.ML)
	}
	return skiplist.ProbabilityOption(float64(*o.P))
}

func (o skOp) valid() bool {
	if o.ML != nil {
		return *o.ML >= 1 && *o.ML <= 64
	}
	return inUnit(float64(*o.P))
}

func skOptions(os []skOp) (r []order.Option, ok bool) {
	ok = true
	for _, o := range os {
		r = append(r, o.option())
		ok = ok && o.valid()
	}
	return
}

var consKinds = []string{"max", "min", "heapmedian", "quantile", "quantile", "quantile", "median", "median", "iqr", "iqr", "skiplist", "skiplist",
	"autocov", "autocorr", "mean", "moment", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmmoment", "ewmstd", "cov", "corr", "ewmcov", "ewmcorr",
	"mcore", "mcore", "mcore", "jcore", "jcore", "jcore", "jcore", "phi", "phi", "skopt-on-tree"}

func genCons(t *rapid.T) consCase {
	c := consCase{Kind: rapid.SampledFrom(consKinds).Draw(t, "kind")}
	w := drawW(t)
	c.W = &w
	decay := func() *F { d := F(badDecay(t)); return &d }
	order := func(l string) int {
		if rapid.IntRange(0, 3).Draw(t, "okorder") > 0 {
			return rapid.IntRange(1, 8).Draw(t, l)
		}
		return rapid.SampledFrom([]int{1, 2, 3, 4, 5, 6, 8, 0, -1, -2, math.MinInt32}).Draw(t, l)
	}
	switch c.Kind {
	case "quantile", "median", "iqr":
		n := rapid.IntRange(0, 3).Draw(t, "nopt")
		for i := 0; i < n; i++ {
			var o optCase
			if rapid.Bool().Draw(t, "isinterp") {
				v := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 0, 1, 2, 3, 4, -1, 5, 6, 100, math.MinInt64}).Draw(t, "interp")
				o.Interp = &v
			} else {
				v := rapid.SampledFrom([]int{0, 1, 2, 2, 2, 2, 0, 1, -1, 3, 4, 100}).Draw(t, "impl")
				o.Impl = &v
				if v == 2 {
					o.Skip = drawSkOps(t)
				}
			}
			c.Opts = append(c.Opts, o)
		}
	case "skiplist", "skopt-on-tree":
		c.Opts = []optCase{{Skip: drawSkOps(t)}}
	case "autocov", "autocorr":
		c.Lag = rapid.SampledFrom([]int{0, 1, 2, 5, -1, -2, math.MinInt64}).Draw(t, "lag")
	case "moment":
		c.K = order("k")
	case "ewma", "ewmstd", "ewmcov", "ewmcorr":
		c.D = decay()
	case "ewmmoment":
		c.K, c.D = order("k"), decay()
	case "mcore":
		coreWD(t, &c)
		n := rapid.IntRange(0, 3).Draw(t, "nsums")
		for i := 0; i < n; i++ {
			c.Sums = append(c.Sums, order("k"))
		}
		c.NilSum = rapid.Bool().Draw(t, "nilsum")
	case "jcore":
		coreWD(t, &c)
		d := rapid.SampledFrom([]int{2, 2, 3, 3, 4, 2, 3, 4, 2, 3, 1, 0}).Draw(t, "dim")
		n := rapid.IntRange(0, 3).Draw(t, "ntup")
		odd := rapid.IntRange(0, 2).Draw(t, "odd") == 0
		for i := 0; i < n; i++ {
			k := d
			if odd && rapid.IntRange(0, 2).Draw(t, "otherlen") == 0 {
				k = rapid.IntRange(0, 4).Draw(t, "len")
			}
			tu := make([]int, k)
			for j := range tu {
				tu[j] = rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(t, "e")
				if odd && rapid.IntRange(0, 5).Draw(t, "neg") == 0 {
					tu[j] = rapid.SampledFrom([]int{-1, -2, -5}).Draw(t, "e")
				}
			}
			c.Tup = append(c.Tup, tu)
		}
		if rapid.Bool().Draw(t, "hasvars") {
			v := d
			if rapid.IntRange(0, 2).Draw(t, "othervars") == 0 {
				v = rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 4, 5, math.MinInt64}).Draw(t, "vars")
			}
			c.Vars = &v
		}
		c.NilSum = rapid.Bool().Draw(t, "nilsum")
	case "phi":
		c.Phi = F(badDecay(t))
		v := rapid.IntRange(0, 4).Draw(t, "interp")
		c.Opts = []optCase{{Interp: &v}}
	}
	return c
}

// coreWD draws the window and decay of a Core: mostly fitting ones, sometimes one fault.
func coreWD(t *rapid.T, c *consCase) {
	w := rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "cw")
	if rapid.IntRange(0, 1).Draw(t, "hasd") == 0 {
		d := F(rapid.SampledFrom([]float64{0.5, 0.1, 5e-324, math.Nextafter(1, 0)}).Draw(t, "okd"))
		c.D = &d
		w = 0
	}
	c.W = &w
	switch rapid.IntRange(0, 9).Draw(t, "fault") {
	case 9:
		c.W = nil
	case 8:
		v := drawW(t)
		c.W = &v
	case 7:
		d := F(badDecay(t))
		c.D = &d
	case 6:
		d := F(badDecay(t))
		v := drawW(t)
		c.D, c.W = &d, &v
	}
}

// valid is the documented constraint.
func (c consCase) valid() bool {
	wok := c.W != nil && *c.W >= 0
	dok := c.D == nil || (inUnit(float64(*c.D)) && c.W != nil && *c.W == 0)
	switch c.Kind {
	case "max", "min", "heapmedian", "mean", "std", "skew", "kurt", "cov", "corr":
		return wok
	case "quantile", "median", "iqr":
		for _, o := range c.Opts {
			if o.Interp != nil && (*o.Interp < 0 || *o.Interp > 4) {
				return false
			}
			if o.Impl != nil {
				if *o.Impl < 0 || *o.Impl > 2 {
					return false
				}
				if _, ok := skOptions(o.Skip); !ok {
					return false
				}
			}
		}
		return wok
	case "skiplist":
		_, ok := skOptions(c.Opts[0].Skip)
		return ok
	case "skopt-on-tree":
		return false
	case "autocov", "autocorr":
		return wok && c.Lag >= 0
	case "moment":
		return wok && c.K > 0
	case "ewma", "ewmstd", "ewmcov", "ewmcorr":
		return inUnit(float64(*c.D))
	case "ewmmoment":
		return inUnit(float64(*c.D)) && c.K > 0
	case "mcore":
		for _, k := range c.Sums {
			if k <= 0 {
				return false
			}
		}
		return wok && dok
	case "jcore":
		if !wok || !dok {
			return false
		}
		return validTuples(c.Tup, c.Vars)
	case "phi":
		return inUnit(float64(c.Phi))
	}
	panic(engine.HarnessError{Msg: c.Kind})
}

func validTuples(tup [][]int, vars *int) bool {
	if vars == nil && len(tup) == 0 {
		return false
	}
	n := 0
	if vars != nil {
		n = *vars
	} else {
		n = len(tup[0])
	}
	if n < 2 {
		return false
	}
	for _, tu := range tup {
		if len(tu) != n {
			return false
		}
		z := true
		for _, e := range tu {
			if e < 0 {
				return false
			}
			z = z && e == 0
		}
		if z {
			return false
		}
	}
	return true
}

func (c consCase) quantOpts() []quantile.Option {
	var r []quantile.Option
	for _, o := range c.Opts {
		if o.Interp != nil {
			r = append(r, quantile.InterpolationOption(quantile.Interpolation(*o.Interp)))
		}
		if o.Impl != nil {
			so, _ := skOptions(o.Skip)
			r = append(r, quantile.ImplOption(quantile.Impl(*o.Impl), so...))
		}
	}
	return r
}

// construct returns the object (as something to use) and the first error.
func (c consCase) construct() (use func() error, err error) {
	simpleUse := func(m simple) func() error {
		return func() error {
			for i := 0; i < 6; i++ {
				if err := m.Push(float64(i * i % 5)); err != nil {
					return err
				}
			}
			if _, err := m.Value(); err != nil {
				return err
			}
			m.Clear()
			_ = m.String()
			return m.Push(1)
		}
	}
	mom := func(m interface {
		simple
		moment.CoreWrapper
	}) (func() error, error) {
		return simpleUse(m), moment.Init(m)
	}
	jm := func(m interface {
		jsimple
		joint.CoreWrapper
	}) (func() error, error) {
		return func() error {
			for i := 0; i < 6; i++ {
				if err := m.Push(float64(i*i%5), float64(i)); err != nil {
					return err
				}
			}
			_, err := m.Value()
			return err
		}, joint.Init(m)
	}
	w := 0
	if c.W != nil {
		w = *c.W
	}
	d := 0.0
	if c.D != nil {
		d = float64(*c.D)
	}
	switch c.Kind {
	case "max":
		m, err := minmax.NewMax(w)
		return simpleUse(m), err
	case "min":
		m, err := minmax.NewMin(w)
		return simpleUse(m), err
	case "heapmedian":
		m, err := quantile.NewHeapMedian(w)
		return simpleUse(m), err
	case "quantile":
		m, err := quantile.New(w, c.quantOpts()...)
		return func() error {
			for i := 0; i < 6; i++ {
				if err := m.Push(float64(i * i % 5)); err != nil {
					return err
				}
			}
			_, err := m.Value(0.3)
			return err
		}, err
	case "median":
		m, err := quantile.NewMedian(w, c.quantOpts()...)
		return simpleUse(m), err
	case "iqr":
		m, err := quantile.NewIQR(w, c.quantOpts()...)
		return simpleUse(m), err
	case "skiplist":
		so, _ := skOptions(c.Opts[0].Skip)
		s, err := skiplist.New(so...)
		return func() error {
			for i := 0; i < 6; i++ {
				s.Add(float64(i * i % 5))
			}
			s.Remove(4)
			if s.Size() != 5 || s.Rank(1) != 2 {
				return fmt.Errorf("size %d, rank(1) %d", s.Size(), s.Rank(1))
			}
			return nil
		}, err
	case "skopt-on-tree":
		os := c.Opts[0].Skip
		if len(os) == 0 {
			v := 5
			os = []skOp{{ML: &v}}
		}
		for i, o := range os {
			st := order.Statistic(&avl.Tree{})
			if i%2 == 1 {
				st = &rb.Tree{}
			}
			if o.option()(st) == nil {
				return nil, nil
			}
		}
		return nil, fmt.Errorf("rejected")
	case "autocov":
		m, err := joint.NewAutocov(c.Lag, w)
		if err == nil {
			err = joint.Init(m)
		}
		return simpleUse(m), err
	case "autocorr":
		m, err := joint.NewAutocorr(c.Lag, w)
		if err == nil {
			err = joint.Init(m)
		}
		return simpleUse(m), err
	case "mean":
		return mom(moment.NewMean(w))
	case "moment":
		return mom(moment.New(c.K, w))
	case "std":
		return mom(moment.NewStd(w))
	case "skew":
		return mom(moment.NewSkewness(w))
	case "kurt":
		return mom(moment.NewKurtosis(w))
	case "ewma":
		return mom(moment.NewEWMA(d))
	case "ewmmoment":
		return mom(moment.NewEWMMoment(c.K, d))
	case "ewmstd":
		return mom(moment.NewEWMStd(d))
	case "cov":
		return jm(joint.NewCov(w))
	case "corr":
		return jm(joint.NewCorr(w))
	case "ewmcov":
		return jm(joint.NewEWMCov(d))
	case "ewmcorr":
		return jm(joint.NewEWMCorr(d))
	case "mcore":
		cfg := &moment.CoreConfig{}
		if c.W != nil {
			cfg.Window = stream.IntPtr(w)
		}
		if c.D != nil {
			cfg.Decay = stream.FloatPtr(d)
		}
		if len(c.Sums) > 0 || !c.NilSum {
			cfg.Sums = moment.SumsConfig{}
		}
		for _, k := range c.Sums {
			cfg.Sums[k] = true
		}
		core, err := moment.NewCore(cfg)
		return func() error {
			for i := 0; i < 4; i++ {
				if err := core.Push(float64(i)); err != nil {
					return err
				}
			}
			for _, k := range c.Sums {
				if _, err := core.Sum(k); err != nil {
					return err
				}
			}
			_, err := core.Mean()
			return err
		}, err
	case "jcore":
		cfg := &joint.CoreConfig{}
		if c.W != nil {
			cfg.Window = stream.IntPtr(w)
		}
		if c.D != nil {
			cfg.Decay = stream.FloatPtr(d)
		}
		if c.Vars != nil {
			cfg.Vars = stream.IntPtr(*c.Vars)
		}
		if len(c.Tup) > 0 || !c.NilSum {
			cfg.Sums = joint.SumsConfig{}
		}
		for _, tu := range c.Tup {
			cfg.Sums = append(cfg.Sums, append(joint.Tuple{}, tu...))
		}
		core, err := joint.NewCore(cfg)
		return func() error {
			n := 0
			if c.Vars != nil {
				n = *c.Vars
			} else {
				n = len(c.Tup[0])
			}
			for i := 0; i < 4; i++ {
				xs := make([]float64, n)
				for j := range xs {
					xs[j] = float64(i*j + i)
				}
				if err := core.Push(xs...); err != nil {
					return err
				}
			}
			for _, tu := range c.Tup {
				if _, err := core.Sum(tu...); err != nil {
					return err
				}
			}
			_, err := core.Mean(n - 1)
			return err
		}, err
	case "phi":
		m, err := quantile.New(0, c.quantOpts()...)
		if err != nil {
			return nil, nil
		}
		for i := 0; i < 7; i++ {
			m.Push(float64(i))
		}
		_, err = m.Value(float64(c.Phi))
		return func() error { return nil }, err
	}
	panic(engine.HarnessError{Msg: c.Kind})
}

func runCons(c consCase, x *X) error {
	want := c.valid()
	use, err := c.construct()
	if want != (err == nil) {
		if want {
			return fail("valid %s rejected: %v", c.Kind, err)
		}
		return fail("invalid %s accepted", c.Kind)
	}
	if want && c.Kind != "skopt-on-tree" && !(c.Lag > 4) {
		if err := use(); err != nil {
			return fail("accepted %s does not work: %v", c.Kind, err)
		}
	}
	if want {
		x.Label(c.Kind + " valid")
	} else {
		x.Label(c.Kind + " invalid")
		_ = err.Error()
	}
	x.NonTrivial()
	return nil
}

func init() {
	engine.Reg("C14", "constructors", "every constructor with parameters in and out of range (boundaries, NaN, infinities, extreme integers): success exactly when the documented constraints hold, accepted objects usable; every case is non-trivial (classes by kind and validity)",
		60000, 1200000, genCons, runCons)
}
