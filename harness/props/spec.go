package props

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/minmax"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"pgregory.net/rapid"
)

// Spec describes any object of the library by its construction parameters.
type Spec struct {
	Kind    string   `json:"kind"`
	W       int      `json:"w"`
	Global  bool     `json:"global,omitempty"` // use the NewGlobal... constructor
	K       int      `json:"k,omitempty"`
	D       F        `json:"d,omitempty"`
	Lag     int      `json:"lag,omitempty"`
	Impl    implSpec `json:"impl"`
	Interp  int      `json:"interp,omitempty"`
	Phis    []F      `json:"phis,omitempty"`
	Sums    []int    `json:"sums,omitempty"`
	Tup     [][]int  `json:"tup,omitempty"`
	Vars    int      `json:"vars,omitempty"`
	NoVars  bool     `json:"novars,omitempty"` // leave Vars to be inferred
	Unsafe  bool     `json:"unsafe,omitempty"` // drive a Core through Lock and the Unsafe methods
	Members []Spec   `json:"members,omitempty"`
	Uninit  bool     `json:"uninit,omitempty"` // leave Init to Inst.Init (moment and joint metrics)
}

// Obs is one observed result.
type Obs struct {
	Name string
	V    float64
	S    string
	Err  bool
}

// Inst is a live object behind one interface.
type Inst struct {
	Arity   int
	Push    func(x []float64) error
	Rem     func(x float64) // containers only
	Clear   func()
	Observe func() []Obs
	One     func(i int) Obs // a single read, chosen by i (nil: all at once)
	Str     func() string   // nil where the text depends on random structure
	Cfg     func()          // reads the configuration, if there is one
	Obj     any
	Members []*Inst
	Init    func() error // only with Uninit
}

func (s Spec) arity() int {
	switch s.Kind {
	case "cov", "corr", "ewmcov", "ewmcorr", "jagg":
		return 2
	case "jcore":
		return s.Vars
	}
	return 1
}

func (s Spec) window() int {
	if s.Kind == "agg" || s.Kind == "jagg" || s.Kind == "avl" || s.Kind == "rb" || s.Kind == "skiplist" {
		return 0
	}
	return s.W
}

func (s Spec) isContainer() bool { return s.Kind == "avl" || s.Kind == "rb" || s.Kind == "skiplist" }

func (s Spec) isOrder() bool {
	switch s.Kind {
	case "max", "min", "quantile", "median", "iqr", "heapmedian", "avl", "rb", "skiplist":
		return true
	}
	return false
}

func (s Spec) decaying() bool { return s.D != 0 }

func ob(name string, v float64, err error) Obs { return Obs{Name: name, V: v, Err: err != nil} }

type simple interface {
	String() string
	Push(float64) error
	Value() (float64, error)
	Clear()
}

type jsimple interface {
	String() string
	Push(...float64) error
	Value() (float64, error)
	Clear()
}

func instSimple(m simple, cfg func()) *Inst {
	return &Inst{Arity: 1, Push: func(x []float64) error { return m.Push(x[0]) }, Clear: m.Clear,
		Observe: func() []Obs { v, err := m.Value(); return []Obs{ob("Value", v, err)} }, Str: m.String, Cfg: cfg, Obj: m}
}

func instJoint(m jsimple, cfg func()) *Inst {
	return &Inst{Arity: 2, Push: func(x []float64) error { return m.Push(x...) }, Clear: m.Clear,
		Observe: func() []Obs { v, err := m.Value(); return []Obs{ob("Value", v, err)} }, Str: m.String, Cfg: cfg, Obj: m}
}

func (s Spec) sumsConfig() moment.SumsConfig {
	c := moment.SumsConfig{}
	for _, k := range s.Sums {
		c[k] = true
	}
	return c
}

func (s Spec) maxSum() int {
	r := 0
	for _, k := range s.Sums {
		if k > r {
			r = k
		}
	}
	return r
}

func (s Spec) momentConfig() *moment.CoreConfig {
	c := &moment.CoreConfig{Sums: s.sumsConfig(), Window: stream.IntPtr(s.W)}
	if s.D != 0 {
		c.Decay = stream.FloatPtr(float64(s.D))
	}
	return c
}

func (s Spec) jointConfig() *joint.CoreConfig {
	c := &joint.CoreConfig{Window: stream.IntPtr(s.W)}
	for _, t := range s.Tup {
		c.Sums = append(c.Sums, append(joint.Tuple{}, t...))
	}
	if !s.NoVars {
		c.Vars = stream.IntPtr(s.Vars)
	}
	if s.D != 0 {
		c.Decay = stream.FloatPtr(float64(s.D))
	}
	return c
}

// closure lists every non-zero tuple at most a configured one, in a fixed order.
func (s Spec) closure() [][]int {
	m := newMomentModel(s.Vars, 0, 0, s.Tup)
	var r [][]int
	for _, t := range m.tup {
		z := true
		for _, v := range t {
			z = z && v == 0
		}
		if !z {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return tkey(r[i]) < tkey(r[j]) })
	return r
}

// build creates a fresh instance.
func (s Spec) build() (*Inst, error) {
	d := float64(s.D)
	mom := func(m interface {
		simple
		moment.CoreWrapper
	}) (*Inst, error) {
		in := instSimple(m, func() { m.Config() })
		if s.Uninit {
			in.Init = func() error { return moment.Init(m) }
			return in, nil
		}
		if err := moment.Init(m); err != nil {
			return nil, err
		}
		return in, nil
	}
	jm := func(m interface {
		jsimple
		joint.CoreWrapper
	}) (*Inst, error) {
		in := instJoint(m, func() { m.Config() })
		if s.Uninit {
			in.Init = func() error { return joint.Init(m) }
			return in, nil
		}
		if err := joint.Init(m); err != nil {
			return nil, err
		}
		return in, nil
	}
	am := func(m interface {
		simple
		joint.CoreWrapper
	}) (*Inst, error) {
		in := instSimple(m, func() { m.Config() })
		if s.Uninit {
			in.Init = func() error { return joint.Init(m) }
			return in, nil
		}
		if err := joint.Init(m); err != nil {
			return nil, err
		}
		return in, nil
	}
	gl := s.Global && s.W == 0
	switch s.Kind {
	case "max":
		if gl {
			return instSimple(minmax.NewGlobalMax(), nil), nil
		}
		m, err := minmax.NewMax(s.W)
		if err != nil {
			return nil, err
		}
		return instSimple(m, nil), nil
	case "min":
		if gl {
			return instSimple(minmax.NewGlobalMin(), nil), nil
		}
		m, err := minmax.NewMin(s.W)
		if err != nil {
			return nil, err
		}
		return instSimple(m, nil), nil
	case "mean":
		if gl {
			return mom(moment.NewGlobalMean())
		}
		return mom(moment.NewMean(s.W))
	case "moment":
		if gl {
			return mom(moment.NewGlobal(s.K))
		}
		return mom(moment.New(s.K, s.W))
	case "std":
		if gl {
			return mom(moment.NewGlobalStd())
		}
		return mom(moment.NewStd(s.W))
	case "skew":
		if gl {
			return mom(moment.NewGlobalSkewness())
		}
		return mom(moment.NewSkewness(s.W))
	case "kurt":
		if gl {
			return mom(moment.NewGlobalKurtosis())
		}
		return mom(moment.NewKurtosis(s.W))
	case "ewma":
		return mom(moment.NewEWMA(d))
	case "ewmmoment":
		return mom(moment.NewEWMMoment(s.K, d))
	case "ewmstd":
		return mom(moment.NewEWMStd(d))
	case "mcore":
		return s.buildMCore()
	case "jcore":
		return s.buildJCore()
	case "cov":
		if gl {
			return jm(joint.NewGlobalCov())
		}
		return jm(joint.NewCov(s.W))
	case "corr":
		if gl {
			return jm(joint.NewGlobalCorr())
		}
		return jm(joint.NewCorr(s.W))
	case "ewmcov":
		return jm(joint.NewEWMCov(d))
	case "ewmcorr":
		return jm(joint.NewEWMCorr(d))
	case "autocov":
		var m *joint.Autocov
		var err error
		if gl {
			m, err = joint.NewGlobalAutocov(s.Lag)
		} else {
			m, err = joint.NewAutocov(s.Lag, s.W)
		}
		if err != nil {
			return nil, err
		}
		return am(m)
	case "autocorr":
		var m *joint.Autocorr
		var err error
		if gl {
			m, err = joint.NewGlobalAutocorr(s.Lag)
		} else {
			m, err = joint.NewAutocorr(s.Lag, s.W)
		}
		if err != nil {
			return nil, err
		}
		return am(m)
	case "heapmedian":
		if gl {
			return instSimple(quantile.NewGlobalHeapMedian(), nil), nil
		}
		m, err := quantile.NewHeapMedian(s.W)
		if err != nil {
			return nil, err
		}
		return instSimple(m, nil), nil
	case "median", "iqr":
		return s.buildQuantile(s.Impl.options())
	case "quantile":
		return s.buildQuantile(append(s.Impl.options(), quantile.InterpolationOption(quantile.Interpolation(s.Interp))))
	case "avl", "rb", "skiplist":
		return s.buildContainer()
	case "agg":
		var ms []stream.SimpleMetric
		in := &Inst{Arity: 1}
		for _, sp := range s.Members {
			mi, err := sp.build()
			if err != nil {
				return nil, err
			}
			in.Members = append(in.Members, mi)
			ms = append(ms, mi.Obj.(stream.SimpleMetric))
		}
		a := aggregate.NewSimpleAggregateMetric(ms...)
		in.Obj = a
		in.Push = func(x []float64) error { return a.Push(x[0]) }
		in.Clear = a.Clear
		in.Observe = func() []Obs { return obsMap(a.Values()) }
		return in, nil
	case "jagg":
		var ms []stream.SimpleJointMetric
		in := &Inst{Arity: 2}
		for _, sp := range s.Members {
			mi, err := sp.build()
			if err != nil {
				return nil, err
			}
			in.Members = append(in.Members, mi)
			ms = append(ms, mi.Obj.(stream.SimpleJointMetric))
		}
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		in.Obj = a
		in.Push = func(x []float64) error { return a.Push(x...) }
		in.Clear = a.Clear
		in.Observe = func() []Obs { return obsMap(a.Values()) }
		return in, nil
	}
	panic(engine.HarnessError{Msg: "unknown kind " + s.Kind})
}

// buildQuantile builds a quantile metric from the given options.
func (s Spec) buildQuantile(opts []quantile.Option) (*Inst, error) {
	gl := s.Global && s.W == 0
	switch s.Kind {
	case "median":
		var m *quantile.Median
		var err error
		if gl {
			m, err = quantile.NewGlobalMedian(opts...)
		} else {
			m, err = quantile.NewMedian(s.W, opts...)
		}
		if err != nil {
			return nil, err
		}
		return instSimple(m, nil), nil
	case "iqr":
		var m *quantile.IQR
		var err error
		if gl {
			m, err = quantile.NewGlobalIQR(opts...)
		} else {
			m, err = quantile.NewIQR(s.W, opts...)
		}
		if err != nil {
			return nil, err
		}
		return instSimple(m, nil), nil
	}
	var m *quantile.Quantile
	var err error
	if gl {
		m, err = quantile.NewGlobalQuantile(opts...)
	} else {
		m, err = quantile.New(s.W, opts...)
	}
	if err != nil {
		return nil, err
	}
	phis := floats(s.Phis)
	if len(phis) == 0 {
		phis = []float64{0.5, 0.1, 0.75}
	}
	return &Inst{Arity: 1, Push: func(x []float64) error { return m.Push(x[0]) }, Clear: m.Clear, Str: m.String, Obj: m,
		One: func(i int) Obs {
			p := float64(i%61+1) / 62
			if i%3 == 0 {
				p = phis[i/3%len(phis)]
			}
			v, err := m.Value(p)
			return ob("Value("+g(p)+")", v, err)
		},
		Observe: func() []Obs {
			var r []Obs
			for _, p := range phis {
				v, err := m.Value(p)
				r = append(r, ob("Value("+g(p)+")", v, err))
			}
			return r
		}}, nil
}

func obsMap(v map[string]float64, err error) []Obs {
	if err != nil {
		return []Obs{{Name: "Values", Err: true}, {Name: "nil map", S: fmt.Sprint(v == nil)}}
	}
	var ks []string
	for k := range v {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []Obs{{Name: "len", V: float64(len(v))}}
	for _, k := range ks {
		r = append(r, Obs{Name: "Values[" + k + "]", V: v[k]})
	}
	return r
}

func (s Spec) buildMCore() (*Inst, error) {
	c, err := moment.NewCore(s.momentConfig())
	if err != nil {
		return nil, err
	}
	return s.wrapMCore(c), nil
}

func (s Spec) wrapMCore(c *moment.Core) *Inst {
	max := s.maxSum()
	in := &Inst{Arity: 1, Obj: c}
	in.Push = func(x []float64) error {
		if !s.Unsafe {
			return c.Push(x[0])
		}
		c.Lock()
		defer c.Unlock()
		return c.UnsafePush(x[0])
	}
	in.Clear = func() {
		if !s.Unsafe {
			c.Clear()
			return
		}
		c.Lock()
		c.UnsafeClear()
		c.Unlock()
	}
	in.One = func(i int) Obs {
		i %= max + 4
		if i == 0 {
			return Obs{Name: "Count", V: float64(c.Count())}
		} else if i == 1 {
			m, err := c.Mean()
			return ob("Mean", m, err)
		}
		v, err := c.Sum(i - 2)
		return ob(fmt.Sprintf("Sum(%d)", i-2), v, err)
	}
	in.Observe = func() []Obs {
		var r []Obs
		if s.Unsafe {
			c.RLock()
			defer c.RUnlock()
			r = append(r, Obs{Name: "Count", V: float64(c.UnsafeCount())})
			m, err := c.UnsafeMean()
			r = append(r, ob("Mean", m, err))
			for k := 0; k <= max+1; k++ {
				v, err := c.UnsafeSum(k)
				r = append(r, ob(fmt.Sprintf("Sum(%d)", k), v, err))
			}
			return r
		}
		r = append(r, Obs{Name: "Count", V: float64(c.Count())})
		m, err := c.Mean()
		r = append(r, ob("Mean", m, err))
		for k := 0; k <= max+1; k++ {
			v, err := c.Sum(k)
			r = append(r, ob(fmt.Sprintf("Sum(%d)", k), v, err))
		}
		return r
	}
	return in
}

func (s Spec) buildJCore() (*Inst, error) {
	c, err := joint.NewCore(s.jointConfig())
	if err != nil {
		return nil, err
	}
	return s.wrapJCore(c), nil
}

func (s Spec) wrapJCore(c *joint.Core) *Inst {
	cl := s.closure()
	probe := make([]int, s.Vars) // never tracked
	for i := range probe {
		probe[i] = 30
	}
	cl = append(cl, probe)
	in := &Inst{Arity: s.Vars, Obj: c}
	in.Push = func(x []float64) error {
		if !s.Unsafe {
			return c.Push(x...)
		}
		c.Lock()
		defer c.Unlock()
		return c.UnsafePush(x...)
	}
	in.Clear = func() {
		if !s.Unsafe {
			c.Clear()
			return
		}
		c.Lock()
		c.UnsafeClear()
		c.Unlock()
	}
	in.One = func(i int) Obs {
		if i%7 == 0 {
			return Obs{Name: "Count", V: float64(c.Count())}
		} else if i%7 < 3 {
			i = i/7%(s.Vars+2) - 1
			v, err := c.Mean(i)
			return ob(fmt.Sprintf("Mean(%d)", i), v, err)
		}
		t := cl[i/7%len(cl)]
		v, err := c.Sum(t...)
		return ob(fmt.Sprintf("Sum(%v)", t), v, err)
	}
	in.Observe = func() []Obs {
		count, mean, sum := c.Count, c.Mean, c.Sum
		if s.Unsafe {
			c.RLock()
			defer c.RUnlock()
			count, mean, sum = c.UnsafeCount, c.UnsafeMean, c.UnsafeSum
		}
		r := []Obs{{Name: "Count", V: float64(count())}}
		for i := -1; i <= s.Vars; i++ {
			v, err := mean(i)
			r = append(r, ob(fmt.Sprintf("Mean(%d)", i), v, err))
		}
		for _, t := range cl {
			v, err := sum(t...)
			r = append(r, ob(fmt.Sprintf("Sum(%v)", t), v, err))
		}
		return r
	}
	return in
}

type container interface {
	Size() int
	Add(float64)
	Remove(float64)
	Select(int) order.Node
	Rank(float64) int
	String() string
	Clear()
}

func (s Spec) buildContainer() (*Inst, error) {
	var c container
	switch s.Kind {
	case "avl":
		c = &avl.Tree{}
	case "rb":
		c = &rb.Tree{}
	default:
		sl, err := skiplist.New(s.Impl.skipOpts()...)
		if err != nil {
			return nil, err
		}
		c = sl
	}
	return s.wrapContainer(c), nil
}

func (s Spec) wrapContainer(c container) *Inst {
	return &Inst{Arity: 1, Obj: c,
		Push:  func(x []float64) error { c.Add(x[0]); return nil },
		Rem:   c.Remove,
		Clear: c.Clear,
		One: func(i int) Obs {
			n := c.Size()
			k := i/5%(n+2) - 1
			switch i % 5 {
			case 0:
				return Obs{Name: "Size", V: float64(n)}
			case 1:
				if d := c.String(); s.Kind != "skiplist" { // whose levels are random
					return Obs{Name: "String", S: d}
				}
				return Obs{Name: "String"}
			case 2:
				return Obs{Name: fmt.Sprintf("Rank(%d)", k), V: float64(c.Rank(float64(k)))}
			}
			if nd := c.Select(k); k >= 0 && k < n && nd != nil {
				return Obs{Name: fmt.Sprintf("Select(%d)", k), V: nd.Value()}
			} else {
				return Obs{Name: fmt.Sprintf("Select(%d)", k), Err: nd == nil}
			}
		},
		Observe: func() []Obs {
			_ = c.String()
			n := c.Size()
			r := []Obs{{Name: "Size", V: float64(n)}}
			step := 1 + n/24
			for k := 0; k < n; k += step {
				nd := c.Select(k)
				if nd == nil {
					r = append(r, Obs{Name: fmt.Sprintf("Select(%d)", k), Err: true})
					continue
				}
				v := nd.Value()
				r = append(r, Obs{Name: fmt.Sprintf("Select(%d)", k), V: v})
				r = append(r, Obs{Name: fmt.Sprintf("Rank(%s)", g(v)), V: float64(c.Rank(v))})
			}
			for _, k := range []int{-1, n, n + 3} {
				r = append(r, Obs{Name: fmt.Sprintf("Select(%d)", k), Err: c.Select(k) == nil})
			}
			for _, v := range []float64{0, 0.5, -1e9, 1e9} {
				r = append(r, Obs{Name: fmt.Sprintf("Rank(%v)", v), V: float64(c.Rank(v))})
			}
			return r
		}}
}

// sameObs compares two observations; numbers must be equal (NaN equals NaN), errors by presence.
func sameObs(a, b []Obs) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d results against %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Err != b[i].Err || a[i].S != b[i].S || (!a[i].Err && !sameFloat(a[i].V, b[i].V)) {
			return fmt.Sprintf("%s against %s", a[i], b[i])
		}
	}
	return ""
}

func (o Obs) String() string {
	if o.Err {
		return o.Name + "=error"
	}
	if o.S != "" {
		return o.Name + "=" + o.S
	}
	return o.Name + "=" + g(o.V)
}

func obsString(os []Obs) string {
	var r []string
	for _, o := range os {
		r = append(r, o.String())
	}
	return strings.Join(r, " ")
}

var (
	uniKinds   = []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "quantile", "median", "iqr", "heapmedian", "autocov", "autocorr"}
	jointKinds = []string{"cov", "corr", "ewmcov", "ewmcorr"}
	contKinds  = []string{"avl", "rb", "skiplist"}
	coreKinds  = []string{"mcore", "jcore"}
	aggKinds   = []string{"agg", "jagg"}
)

func allKinds() []string {
	var r []string
	r = append(r, uniKinds...)
	r = append(r, "quantile", "median", "autocov", "autocorr") // more weight to the parameterised ones
	r = append(r, jointKinds...)
	r = append(r, coreKinds...)
	r = append(r, coreKinds...)
	r = append(r, contKinds...)
	r = append(r, aggKinds...)
	return r
}

func drawDecay(t *rapid.T) float64 {
	switch rapid.IntRange(0, 8).Draw(t, "dclass") {
	case 8: // very near to 0 or to 1
		d := math.Pow(10, -rapid.Float64Range(3, 15).Draw(t, "digits"))
		if rapid.Bool().Draw(t, "nearone") {
			d = 1 - d
		}
		return d
	case 0, 4:
		return rapid.SampledFrom([]float64{0.5, 0.25, 0.1, 0.9, 0.3}).Draw(t, "d")
	case 1, 5:
		return rapid.SampledFrom([]float64{0.01, 0.99, 0.001, 0.999}).Draw(t, "d")
	default:
		v := rapid.Float64Range(0.001, 0.999).Draw(t, "d")
		return v
	}
}

// drawTuples draws 1..max tuples of n variables; cost limits the number of dominated tuples.
func drawTuples(t *rapid.T, n, max int) [][]int {
	g := rapid.Custom(func(t *rapid.T) []int {
		hi := 4
		if n == 3 {
			hi = 3
		} else if n > 3 {
			hi = 2
		}
		tu := make([]int, n)
		for {
			tot := 1
			z := true
			for j := range tu {
				tu[j] = rapid.IntRange(0, hi).Draw(t, "e")
				tot *= tu[j] + 1
				z = z && tu[j] == 0
			}
			if z {
				tu[rapid.IntRange(0, n-1).Draw(t, "nz")] = 1
			}
			if tot <= 40 {
				return tu
			}
			for j := range tu {
				if tu[j] > 1 {
					tu[j] = 1
				}
			}
			return tu
		}
	})
	ts := rapid.SliceOfN(g, 1, max).Draw(t, "tuples")
	if rapid.IntRange(0, 3).Draw(t, "dup") == 0 { // duplicates and dominated ones in any order
		i := rapid.IntRange(0, len(ts)-1).Draw(t, "dupi")
		c := append([]int(nil), ts[i]...)
		for j := range c {
			if c[j] > 0 && rapid.Bool().Draw(t, "dec") {
				c[j]--
			}
		}
		z := true
		for _, v := range c {
			z = z && v == 0
		}
		if z {
			c = append([]int(nil), ts[i]...)
		}
		if rapid.Bool().Draw(t, "front") {
			ts = append([][]int{c}, ts...)
		} else {
			ts = append(ts, c)
		}
	}
	return ts
}

// drawSpec draws construction parameters for a kind.
func drawSpec(t *rapid.T, kinds []string, maxW int) Spec {
	s := Spec{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
	s.fill(t, maxW)
	return s
}

func (s *Spec) fill(t *rapid.T, maxW int) {
	s.Impl.Impl = -1
	s.W = drawWindow(t, maxW)
	if s.W == 0 {
		s.Global = rapid.Bool().Draw(t, "global")
	}
	switch s.Kind {
	case "moment":
		s.K = rapid.IntRange(1, 6).Draw(t, "k")
	case "ewma", "ewmstd", "ewmcov", "ewmcorr":
		s.W, s.Global = 0, false
		s.D = F(drawDecay(t))
	case "ewmmoment":
		s.W, s.Global = 0, false
		s.D = F(drawDecay(t))
		s.K = rapid.IntRange(1, 6).Draw(t, "k")
	case "mcore":
		s.Global = false
		s.Sums = rapid.SliceOfN(rapid.IntRange(1, 6), 0, 3).Draw(t, "sums")
		s.Unsafe = rapid.Bool().Draw(t, "unsafe")
		if s.W == 0 && rapid.Bool().Draw(t, "decaying") {
			s.D = F(drawDecay(t))
		}
	case "jcore":
		s.Global = false
		s.Vars = rapid.SampledFrom([]int{2, 2, 2, 3, 3, 4}).Draw(t, "vars")
		s.Tup = drawTuples(t, s.Vars, 3)
		s.NoVars = rapid.Bool().Draw(t, "novars")
		s.Unsafe = rapid.Bool().Draw(t, "unsafe")
		if s.W == 0 && rapid.Bool().Draw(t, "decaying") {
			s.D = F(drawDecay(t))
		}
	case "autocov", "autocorr":
		s.Lag = rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 13, 17}).Draw(t, "lag")
	case "quantile":
		s.Impl = drawImpl(t)
		s.Interp = rapid.IntRange(0, 4).Draw(t, "interp")
		n := rapid.IntRange(1, 3).Draw(t, "nphi")
		for i := 0; i < n; i++ {
			s.Phis = append(s.Phis, F(drawPhi(t)))
		}
	case "median", "iqr":
		s.Impl = drawImpl(t)
	case "avl", "rb":
		s.W, s.Global = 0, false
	case "skiplist":
		s.W, s.Global = 0, false
		s.Impl.Impl = 2
		drawSkip(t, &s.Impl)
	case "agg", "jagg":
		s.W, s.Global = 0, false
		ks := []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "median", "iqr", "heapmedian", "autocov", "autocorr"}
		if s.Kind == "jagg" {
			ks = jointKinds
		}
		n := rapid.IntRange(0, 4).Draw(t, "members")
		for i := 0; i < n; i++ {
			m := Spec{Kind: rapid.SampledFrom(ks).Draw(t, "member")}
			m.fill(t, maxW)
			s.Members = append(s.Members, m)
		}
	}
}

// profileFor draws values suited to a kind.
func (s Spec) profileFor(t *rapid.T) profile {
	if s.isOrder() {
		return orderProfile(t, false)
	}
	return numericProfile(t)
}

// apply performs a mutating op; reads and unknown ops are ignored.
func (in *Inst) apply(op Op) error {
	switch op.O {
	case "push":
		return in.Push(floats(op.X))
	case "rem":
		if in.Rem != nil {
			in.Rem(float64(op.X[0]))
		}
	case "clear":
		in.Clear()
	}
	return nil
}

// drawOps draws a history for a spec: pushes, clears and (for containers) removals of present and absent values.
func (s Spec) drawOps(t *rapid.T, scales []int, patN, patProb int) []Op {
	pr := s.profileFor(t)
	if !s.isContainer() {
		return drawHistory(t, histOpt{arity: s.arity(), pr: pr, clears: true, scales: scales, patN: patN, patProb: patProb})
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		r := rapid.IntRange(0, 99).Draw(t, "op")
		switch {
		case r >= 97:
			return Op{O: "clear"}
		case r >= 65:
			return Op{O: "rem", X: drawPoint(t, pr, 1)}
		default:
			return Op{O: "push", X: drawPoint(t, pr, 1)}
		}
	})
	min := lengthScale(t, scales...)
	return rapid.SliceOfN(opGen, min, 3*min+20).Draw(t, "ops")
}

func isNaN(v float64) bool { return math.IsNaN(v) }
