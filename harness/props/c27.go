package props

import (
	"fmt"
	"math"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"pgregory.net/rapid"
)

// nameCase: metrics with equal, slightly different or unrelated parameters.
type nameCase struct {
	S   []Spec `json:"s"`
	Pts [][]F  `json:"pts"` // pushed (as many coordinates as the metric takes)
	Clr []bool `json:"clr"`
	Agg bool   `json:"agg"` // and put them in aggregates
	Un  []bool `json:"un"`  // name compared before Init as well
	// without Init, which would allocate the windows
	Huge bool `json:"huge,omitempty"`
}

var nameKinds = []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "quantile", "quantile", "median", "iqr", "heapmedian",
	"autocov", "autocorr", "cov", "corr", "ewmcov", "ewmcorr"}

// nameKey is what a metric's String has to tell apart.
func (s Spec) nameKey() string {
	k := s.Kind
	if s.decaying() {
		k += fmt.Sprintf(" d=%b", math.Float64bits(float64(s.D)))
	} else {
		k += fmt.Sprintf(" w=%d", s.W)
	}
	switch s.Kind {
	case "moment", "ewmmoment":
		k += fmt.Sprintf(" k=%d", s.K)
	case "autocov", "autocorr":
		k += fmt.Sprintf(" lag=%d", s.Lag)
	case "quantile":
		k += fmt.Sprintf(" interp=%d", s.Interp)
	}
	return k
}

func (s *Spec) tweak(t *rapid.T) {
	num := func(v, lo int) int {
		v = rapid.SampledFrom([]int{v + 1, v * 10, v + 10, v + 100, v - 1, v / 10, -v}).Draw(t, "tweaked")
		return min(max(v, lo), 40000)
	}
	switch w := rapid.IntRange(0, 3).Draw(t, "what"); {
	case s.decaying() && w < 3:
		d := float64(s.D)
		d = rapid.SampledFrom([]float64{math.Nextafter(d, 0), math.Nextafter(d, 1), d + 1e-6, d / 10, d + 1e-9, 1 - d}).Draw(t, "tweaked")
		if d > 0 && d < 1 {
			s.D = F(d)
		}
	case s.K > 0 && w > 0:
		s.K = min(num(s.K, 1), 60)
	case (s.Kind == "autocov" || s.Kind == "autocorr") && w > 0:
		s.Lag = num(s.Lag, 0)
	case s.Kind == "quantile" && w > 0:
		s.Interp = (s.Interp + rapid.IntRange(1, 4).Draw(t, "tweaked")) % 5
	case !s.decaying():
		s.W = num(s.W, 0)
		s.Global = s.W == 0 && rapid.Bool().Draw(t, "global")
	}
}

func genName(t *rapid.T) nameCase {
	var c nameCase
	n := rapid.IntRange(2, 5).Draw(t, "metrics")
	for i := 0; i < n; i++ {
		var s Spec
		if how := rapid.IntRange(0, 5).Draw(t, "how"); i > 0 && how < 5 {
			s = c.S[rapid.IntRange(0, i-1).Draw(t, "of")]
			if s.Kind == "quantile" || s.Kind == "median" || s.Kind == "iqr" {
				s.Phis = append([]F(nil), s.Phis...)
			}
			switch {
			case how < 3:
				s.tweak(t)
			case how == 3 && !s.decaying():
				// the same parameters for another kind
				ks := []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "median", "iqr", "heapmedian", "quantile"}
				if s.arity() == 2 {
					ks = []string{"cov", "corr"}
				}
				if s.Kind == "autocov" || s.Kind == "autocorr" {
					ks = []string{"autocov", "autocorr"}
				}
				s.Kind = rapid.SampledFrom(ks).Draw(t, "kind")
				if s.Kind == "moment" && s.K == 0 {
					s.K = 2
				}
				if s.Kind == "quantile" && len(s.Phis) == 0 {
					s.Phis = []F{0.5}
				}
			case how == 3:
				ks := []string{"ewma", "ewmmoment", "ewmstd"}
				if s.arity() == 2 {
					ks = []string{"ewmcov", "ewmcorr"}
				}
				s.Kind = rapid.SampledFrom(ks).Draw(t, "kind")
				if s.Kind == "ewmmoment" && s.K == 0 {
					s.K = 2
				}
			}
		} else {
			s = drawSpec(t, nameKinds, 16)
			if !s.decaying() && rapid.IntRange(0, 3).Draw(t, "bigw") == 0 {
				s.W = rapid.SampledFrom([]int{9, 10, 11, 99, 100, 101, 127, 128, 255, 256, 999, 1000, 1001, 4096, 10000}).Draw(t, "w")
				s.Global = false
			}
		}
		c.S = append(c.S, s)
		c.Clr = append(c.Clr, rapid.IntRange(0, 3).Draw(t, "clr") == 0)
		c.Un = append(c.Un, s.isMomentMetric() && rapid.Bool().Draw(t, "un"))
	}
	g := moderate(-10, 10)
	k := rapid.SampledFrom([]int{0, 1, 3, 30}).Draw(t, "npts")
	for i := 0; i < k; i++ {
		c.Pts = append(c.Pts, []F{F(g.Draw(t, "x")), F(g.Draw(t, "y"))})
	}
	c.Agg = rapid.Bool().Draw(t, "agg")
	return c
}

func runName(c nameCase, x *X) error {
	ins := make([]*Inst, len(c.S))
	names := make([]string, len(c.S))
	for i, s := range c.S {
		s.Uninit = c.Un[i]
		in, err := s.build()
		if err != nil {
			return fail("%s: constructor: %v", s.nameKey(), err)
		}
		ins[i], names[i] = in, in.Str()
		if names[i] == "" {
			return fail("%s: String is empty", s.nameKey())
		}
		if s.Uninit && !c.Huge {
			if err := in.Init(); err != nil {
				return fail("%s: Init: %v", s.nameKey(), err)
			}
		}
	}
	stable := func(when string) error {
		for i, in := range ins {
			if n := in.Str(); n != names[i] {
				return fail("%s: String %q %s, %q when it was new", c.S[i].nameKey(), n, when, names[i])
			}
		}
		return nil
	}
	if err := stable("now that all exist"); err != nil {
		return err
	}
	differ, agree := false, false
	for i := range c.S {
		for j := 0; j < i; j++ {
			a, b := c.S[j].nameKey(), c.S[i].nameKey()
			if a != b && names[i] == names[j] {
				return fail("metrics %q and %q are both called %q", a, b, names[i])
			}
			if a == b && names[i] != names[j] {
				if c.S[i].Impl.Impl != c.S[j].Impl.Impl || c.S[i].Impl.ML != c.S[j].Impl.ML || c.S[i].Impl.P != c.S[j].Impl.P {
					continue // the implementation may be part of the name
				}
				return fail("metrics of the same kind and parameters %q are called %q and %q", a, names[j], names[i])
			}
			differ = differ || (a != b && c.S[i].Kind == c.S[j].Kind)
			agree = agree || a == b
		}
	}
	for i, in := range ins {
		for _, p := range c.Pts {
			if err := in.Push(floats(p)[:in.Arity]); err != nil {
				return fail("%s: Push: %v", c.S[i].nameKey(), err)
			}
			in.Observe()
		}
		if err := stable("after pushes"); err != nil {
			return err
		}
		if c.Clr[i] {
			in.Clear()
			if err := stable("after Clear"); err != nil {
				return err
			}
		}
	}
	if c.Agg {
		if err := nameAgg(c, ins, x); err != nil {
			return err
		}
	}
	if differ {
		x.Label("parameters differ")
		x.NonTrivial()
	}
	if agree {
		x.Label("same parameters")
	}
	return nil
}

// nameAgg puts the metrics that hold a value into aggregates: one entry for each that differs from the others.
func nameAgg(c nameCase, ins []*Inst, x *X) error {
	var us []stream.SimpleMetric
	var js []stream.SimpleJointMetric
	uw, jw := map[string]float64{}, map[string]float64{}
	seen := map[string]bool{}
	for i, in := range ins {
		if k := c.S[i].nameKey(); seen[k] {
			continue
		} else {
			seen[k] = true
		}
		switch m := in.Obj.(type) {
		case stream.SimpleMetric:
			if v, err := m.Value(); err == nil {
				us = append(us, m)
				uw[fmt.Sprint(len(us))] = v
			}
		case stream.SimpleJointMetric:
			if v, err := m.Value(); err == nil {
				js = append(js, m)
				jw[fmt.Sprint(len(js))] = v
			}
		}
	}
	uv, err := aggregate.NewSimpleAggregateMetric(us...).Values()
	if err != nil {
		return fail("Values: %v", err)
	}
	if len(uv) != len(us) {
		return fail("%d values of %d metrics which differ: %v", len(uv), len(us), uv)
	}
	for i, m := range us {
		if v, ok := uv[m.String()]; !ok || !sameFloat(v, uw[fmt.Sprint(i+1)]) {
			return fail("Values[%q] is %v (present: %v), the metric's own Value %v", m.String(), v, ok, uw[fmt.Sprint(i+1)])
		}
	}
	jv, err := aggregate.NewSimpleJointAggregateMetric(js...).Values()
	if err != nil {
		return fail("Values: %v", err)
	}
	if len(jv) != len(js) {
		return fail("%d values of %d joint metrics which differ: %v", len(jv), len(js), jv)
	}
	for i, m := range js {
		if v, ok := jv[m.String()]; !ok || !sameFloat(v, jw[fmt.Sprint(i+1)]) {
			return fail("Values[%q] is %v (present: %v), the metric's own Value %v", m.String(), v, ok, jw[fmt.Sprint(i+1)])
		}
	}
	if len(us) > 1 || len(js) > 1 {
		x.Label("aggregate")
	}
	return nil
}

// genHuge: metrics that are never initialised (which would take the memory), with parameters of any size.
func genHuge(t *rapid.T) nameCase {
	var c nameCase
	kinds := []string{"mean", "moment", "std", "skew", "kurt", "cov", "corr", "autocov", "autocorr", "ewmmoment"}
	n := rapid.IntRange(2, 4).Draw(t, "metrics")
	size := func() int {
		v := 1
		for k := rapid.IntRange(0, 61).Draw(t, "bits"); k > 0; k-- {
			v *= 2
		}
		if rapid.Bool().Draw(t, "decimal") {
			v = 1
			for k := rapid.IntRange(0, 18).Draw(t, "digits"); k > 0; k-- {
				v *= 10
			}
		}
		return max(1, v+rapid.IntRange(-3, 3).Draw(t, "off"))
	}
	small := rapid.SampledFrom([]int{0, 1, 3, 1000, 65535, 100000}).Draw(t, "lag")
	for i := 0; i < n; i++ {
		s := Spec{Kind: rapid.SampledFrom(kinds).Draw(t, "kind"), W: size(), K: 2, Lag: small}
		if s.Kind == "ewmmoment" {
			s.D = 0.5
		}
		if s.Kind == "moment" && rapid.Bool().Draw(t, "order") || s.Kind == "ewmmoment" {
			s.K = size()
		}
		if i > 0 && rapid.IntRange(0, 4).Draw(t, "same") > 0 {
			s = c.S[i-1]
			p := &s.W
			if s.Kind == "ewmmoment" || s.Kind == "moment" && rapid.Bool().Draw(t, "order") {
				p = &s.K
			}
			*p = max(1, *p+rapid.SampledFrom([]int{0, 1, -1, 2, 10, -1000, 1 << 20, 1 << 32}).Draw(t, "by"))
		}
		c.S = append(c.S, s)
		c.Clr = append(c.Clr, rapid.Bool().Draw(t, "clr"))
		c.Un = append(c.Un, true)
	}
	c.Huge = true
	return c
}

func init() {
	engine.Reg("C27", "huge", "metrics before Init with windows and orders up to 2^61, most close to each other: as in names; non-trivial: as there", 20000, 400000, genHuge, runName)
	engine.Reg("C27", "names", "two to five metrics, most made from another one by changing one parameter (by little, by a factor of ten, to another kind): equal Strings exactly for equal kinds and parameters, unchanged by pushes, reads, clears and Init, and aggregates keep them apart; non-trivial: two metrics of one kind with different parameters",
		60000, 1200000, genName, runName)
}
