package props

import (
	"fmt"
	"reflect"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/quantile/heap"
	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"pgregory.net/rapid"
)

// interCase: several instances used in any interleaving; op.N is the instance. An instance is created at its first use.
type interCase struct {
	S   []Spec `json:"s"`
	Ops []Op   `json:"ops"`
}

func genInter(t *rapid.T) interCase {
	var c interCase
	n := rapid.IntRange(2, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
			c.S = append(c.S, c.S[0]) // the same parameters again
			continue
		}
		c.S = append(c.S, drawSpec(t, allKinds(), 12))
	}
	prs := make([]profile, n)
	for i, s := range c.S {
		prs[i] = s.profileFor(t)
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		i := rapid.IntRange(0, n-1).Draw(t, "i")
		r := rapid.IntRange(0, 19).Draw(t, "op")
		switch {
		case r == 19:
			return Op{O: "clear", N: i}
		case r >= 15 && c.S[i].isContainer():
			return Op{O: "rem", N: i, X: drawPoint(t, prs[i], 1)}
		}
		return Op{O: "push", N: i, X: drawPoint(t, prs[i], c.S[i].arity())}
	})
	min := rapid.SampledFrom([]int{2, 10, 30}).Draw(t, "len")
	c.Ops = rapid.SliceOfN(opGen, min, 3*min+20).Draw(t, "ops")
	return c
}

func runInter(c interCase, x *X) error {
	// each alone
	want := make([][][]Obs, len(c.S))
	for i, s := range c.S {
		in, err := s.build()
		if err != nil {
			return fail("constructor: %v", err)
		}
		for _, op := range c.Ops {
			if op.N != i {
				continue
			}
			if err := in.apply(op); err != nil {
				return fail("alone: %v", err)
			}
			want[i] = append(want[i], in.Observe())
		}
	}
	ins := make([]*Inst, len(c.S))
	at := make([]int, len(c.S))
	used := 0
	switches := 0
	for k, op := range c.Ops {
		if k > 0 && c.Ops[k-1].N != op.N {
			switches++
		}
		i := op.N
		if ins[i] == nil {
			var err error
			if ins[i], err = c.S[i].build(); err != nil {
				return fail("constructor: %v", err)
			}
			used++
		}
		if err := ins[i].apply(op); err != nil {
			return fail("step %d: %v", k, err)
		}
		if d := sameObs(ins[i].Observe(), want[i][at[i]]); d != "" {
			return fail("step %d: instance %d (%s) among others against alone: %s", k, i, c.S[i].Kind, d)
		}
		at[i]++
	}
	for i := range ins { // once more after everything
		if ins[i] != nil {
			if d := sameObs(ins[i].Observe(), want[i][at[i]-1]); d != "" {
				return fail("at the end: instance %d (%s) among others against alone: %s", i, c.S[i].Kind, d)
			}
		}
	}
	if used > 1 && switches > 2 {
		x.NonTrivial()
	}
	return nil
}

// callerCase: the caller's data is overwritten after every call.
type callerCase struct {
	S   Spec `json:"s"`
	Ops []Op `json:"ops"`
	How int  `json:"how"` // variations of what is overwritten
}

func genCaller(t *rapid.T) callerCase {
	kinds := []string{"mcore", "mcore", "jcore", "jcore", "jcore", "cov", "corr", "ewmcov", "ewmcorr", "quantile", "median", "iqr", "agg", "jagg", "jagg", "skiplist"}
	c := callerCase{S: drawSpec(t, kinds, 12), How: rapid.IntRange(0, 7).Draw(t, "how")}
	c.Ops = c.S.drawOps(t, []int{0, 5, 12, 30}, 0, 0)
	return c
}

type poison struct{ uniMock }

func (poison) Push(float64) error {
	panic("a metric that was never given to the aggregate was pushed to")
}
func (poison) Value() (float64, error) {
	panic("a metric that was never given to the aggregate was read")
}
func (poison) Clear() { panic("a metric that was never given to the aggregate was cleared") }

type jpoison struct{ jointMock }

func (jpoison) Push(...float64) error {
	panic("a metric that was never given to the aggregate was pushed to")
}
func (jpoison) Value() (float64, error) {
	panic("a metric that was never given to the aggregate was read")
}
func (jpoison) Clear() { panic("a metric that was never given to the aggregate was cleared") }

// buildOwned builds the instance from data that belongs to the caller and overwrites that data afterwards.
func (s Spec) buildOwned(how int) (*Inst, error) {
	in, err := s.build() // for Observe and the like; the object is replaced below where it is made from caller data
	if err != nil {
		return nil, err
	}
	switch s.Kind {
	case "mcore":
		cfg, snap := s.momentConfig(), s.momentConfig()
		core, err := moment.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		if !reflect.DeepEqual(cfg, snap) {
			return nil, fail("NewCore changed the configuration it was given")
		}
		*cfg.Window += 3
		for k := range cfg.Sums {
			delete(cfg.Sums, k)
		}
		cfg.Sums[9] = true
		if cfg.Decay != nil {
			*cfg.Decay = 0.123
		}
		return s.wrapMCore(core), nil
	case "jcore":
		cfg, snap := s.jointConfig(), s.jointConfig()
		if how&1 == 1 { // by way of a merge
			m, err := joint.MergeConfigs(cfg, s.jointConfig())
			if err != nil {
				return nil, err
			}
			if !reflect.DeepEqual(cfg, snap) {
				return nil, fail("MergeConfigs changed the configuration it was given")
			}
			core, err := joint.NewCore(m)
			if err != nil {
				return nil, err
			}
			scribbleJoint(m)
			scribbleJoint(cfg)
			return s.wrapJCore(core), nil
		}
		core, err := joint.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		if !reflect.DeepEqual(cfg, snap) {
			return nil, fail("NewCore changed the configuration it was given")
		}
		scribbleJoint(cfg)
		return s.wrapJCore(core), nil
	case "skiplist":
		opts := s.Impl.skipOpts()
		sl, err := skiplist.New(opts...)
		if err != nil {
			return nil, err
		}
		for i := range opts {
			opts[i] = func(order.Statistic) error { panic("an option was applied later") }
		}
		return s.wrapContainer(sl), nil
	case "quantile", "median", "iqr":
		opts := make([]quantile.Option, 0, 8)
		var sk []order.Option
		if s.Impl.Impl == 2 {
			sk = append(make([]order.Option, 0, 8), s.Impl.skipOpts()...)
			opts = append(opts, quantile.ImplOption(quantile.SkipList, sk...))
		} else {
			opts = append(opts, s.Impl.options()...)
		}
		if s.Kind == "quantile" {
			opts = append(opts, quantile.InterpolationOption(quantile.Interpolation(s.Interp)))
		}
		in, err := s.buildQuantile(opts)
		if err != nil {
			return nil, err
		}
		full := opts[:cap(opts)]
		for i := len(opts); i < len(full); i++ {
			if full[i] != nil {
				return nil, fail("the constructor wrote into the spare room of the caller's option slice")
			}
		}
		bad := func(*quantile.Quantile) error { panic("an option was applied later") }
		for i := range full {
			full[i] = bad
		}
		for i := range sk {
			sk[i] = func(order.Statistic) error { panic("an option was applied later") }
		}
		return in, nil
	case "agg":
		ms := make([]stream.SimpleMetric, 0, 8)
		for _, m := range in.Members {
			ms = append(ms, m.Obj.(stream.SimpleMetric))
		}
		a := aggregate.NewSimpleAggregateMetric(ms...)
		for i, m := range in.Members {
			if ms[i] != m.Obj.(stream.SimpleMetric) {
				return nil, fail("the aggregate changed the caller's slice of metrics")
			}
		}
		full := ms[:cap(ms)]
		for i := range full {
			full[i] = poison{}
		}
		in.Obj, in.Clear = a, a.Clear
		in.Push = func(x []float64) error { return a.Push(x[0]) }
		in.Observe = func() []Obs { return obsMap(a.Values()) }
	case "jagg":
		ms := make([]stream.SimpleJointMetric, 0, 8)
		for _, m := range in.Members {
			ms = append(ms, m.Obj.(stream.SimpleJointMetric))
		}
		a := aggregate.NewSimpleJointAggregateMetric(ms...)
		for i, m := range in.Members {
			if ms[i] != m.Obj.(stream.SimpleJointMetric) {
				return nil, fail("the aggregate changed the caller's slice of metrics")
			}
		}
		full := ms[:cap(ms)]
		for i := range full {
			full[i] = jpoison{}
		}
		in.Obj, in.Clear = a, a.Clear
		in.Push = func(x []float64) error { return a.Push(x...) }
		in.Observe = func() []Obs {
			r := obsMap(a.Values())
			// the maps handed out belong to the caller as well
			if v, err := a.Values(); err == nil {
				for k := range v {
					v[k] = 1e99
				}
				v["more"] = 1
			}
			return r
		}
	}
	return in, nil
}

func scribbleJoint(cfg *joint.CoreConfig) {
	if cfg.Window != nil {
		*cfg.Window += 3
	}
	if cfg.Vars != nil {
		*cfg.Vars++
	}
	if cfg.Decay != nil {
		*cfg.Decay = 0.123
	}
	for i := range cfg.Sums {
		for j := range cfg.Sums[i] {
			cfg.Sums[i][j] += 2
		}
		cfg.Sums[i] = joint.Tuple{1, 1, 1, 1, 1, 1}
	}
}

func runCaller(c callerCase, x *X) error {
	a, err := c.S.buildOwned(c.How)
	if err != nil {
		return fail("constructor: %v", err)
	}
	b, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	buf := make([]float64, a.Arity, a.Arity+3) // one buffer for all pushes
	pushes := 0
	for i, op := range c.Ops {
		if op.O == "push" {
			xs := floats(op.X)
			copy(buf, xs)
			e1 := a.Push(buf)
			for j := range buf {
				if !sameFloat(buf[j], xs[j]) {
					return fail("step %d: Push changed the caller's slice", i)
				}
				buf[j] = 1e77
			}
			e2 := b.Push(append([]float64(nil), xs...))
			if e1 != nil || e2 != nil {
				return fail("step %d: Push: %v, %v", i, e1, e2)
			}
			pushes++
		} else {
			a.apply(op)
			b.apply(op)
		}
		if d := sameObs(a.Observe(), b.Observe()); d != "" {
			return fail("step %d: %s whose caller overwrites what it handed over, against one left alone: %s", i, c.S.Kind, d)
		}
		if p, q := a.str(), b.str(); p != q {
			return fail("step %d: String %q against %q", i, p, q)
		}
	}
	x.Label(c.S.Kind)
	if pushes > 1 {
		x.NonTrivial()
	}
	return nil
}

// optsCase: several metrics made from prefixes of one option slice.
type optsCase struct {
	Opts []optCase `json:"opts"`
	Use  []struct {
		Kind string `json:"kind"`
		N    int    `json:"n"`
		W    int    `json:"w"`
	} `json:"use"`
	Vals []F `json:"vals"`
}

func genOpts(t *rapid.T) optsCase {
	var c optsCase
	n := rapid.IntRange(1, 4).Draw(t, "nopt")
	for i := 0; i < n; i++ {
		var o optCase
		if rapid.IntRange(0, 2).Draw(t, "isinterp") > 0 {
			v := rapid.IntRange(0, 4).Draw(t, "interp")
			o.Interp = &v
		} else {
			v := rapid.IntRange(0, 2).Draw(t, "impl")
			o.Impl = &v
		}
		c.Opts = append(c.Opts, o)
	}
	m := rapid.IntRange(2, 4).Draw(t, "uses")
	for i := 0; i < m; i++ {
		c.Use = append(c.Use, struct {
			Kind string `json:"kind"`
			N    int    `json:"n"`
			W    int    `json:"w"`
		}{rapid.SampledFrom([]string{"quantile", "median", "iqr"}).Draw(t, "kind"), rapid.IntRange(0, n).Draw(t, "n"), rapid.IntRange(0, 5).Draw(t, "w")})
	}
	c.Vals = rapid.SliceOfN(rapid.Map(rapid.IntRange(-20, 20), func(i int) F { return F(i) }), 1, 12).Draw(t, "vals")
	return c
}

func runOpts(c optsCase, x *X) error {
	shared := append(make([]quantile.Option, 0, len(c.Opts)+4), consCase{Opts: c.Opts}.quantOpts()...)
	var as, bs []*Inst
	for _, u := range c.Use {
		s := Spec{Kind: u.Kind, W: u.W, Phis: []F{0.3, 0.5, 0.1, 0.9}}
		a, err := s.buildQuantile(shared[:u.N])
		if err != nil {
			return fail("constructor: %v", err)
		}
		as = append(as, a)
	}
	for _, u := range c.Use {
		s := Spec{Kind: u.Kind, W: u.W, Phis: []F{0.3, 0.5, 0.1, 0.9}}
		b, err := s.buildQuantile(consCase{Opts: c.Opts[:u.N]}.quantOpts())
		if err != nil {
			return fail("constructor: %v", err)
		}
		bs = append(bs, b)
	}
	for i, v := range c.Vals {
		for j := range as {
			as[j].Push([]float64{float64(v) + float64(j)})
			bs[j].Push([]float64{float64(v) + float64(j)})
			if d := sameObs(as[j].Observe(), bs[j].Observe()); d != "" {
				return fail("value %d: metric %d (%s, first %d options of a shared slice) against one with options of its own: %s", i, j, c.Use[j].Kind, c.Use[j].N, d)
			}
			if p, q := as[j].str(), bs[j].str(); p != q {
				return fail("value %d: String %q against %q", i, p, q)
			}
		}
	}
	if len(c.Vals) > 2 {
		x.NonTrivial()
	}
	return nil
}

// heapInitCase: the slice given to heap.New is overwritten.
type heapInitCase struct {
	Vals []F `json:"vals"`
	More []F `json:"more"`
}

func genHeapInit(t *rapid.T) heapInitCase {
	g := rapid.Map(rapid.IntRange(-20, 20), func(i int) F { return F(i) })
	return heapInitCase{rapid.SliceOfN(g, 1, 12).Draw(t, "vals"), rapid.SliceOfN(g, 0, 5).Draw(t, "more")}
}

func runHeapInit(c heapInitCase, x *X) error {
	less := func(a, b float64) bool { return a < b }
	vals := append(make([]float64, 0, len(c.Vals)+5), floats(c.Vals)...)
	a, b := heap.New("a", vals, less), heap.New("a", floats(c.Vals), less)
	for i, v := range c.Vals {
		if vals[i] != float64(v) {
			return fail("heap.New changed the caller's slice")
		}
	}
	for i := range vals[:cap(vals)] {
		vals[:cap(vals)][i] = -1e9
	}
	for i := 0; i <= len(c.More); i++ {
		p, q := a.Values(), b.Values()
		if !reflect.DeepEqual(p, q) || a.Peek() != b.Peek() {
			return fail("heap whose initial slice was overwritten: %v against %v", p, q)
		}
		for j := range p {
			p[j] = 1e9 // what Values returned
		}
		if i < len(c.More) {
			a.Push(&heap.Item{Val: float64(c.More[i])})
			b.Push(&heap.Item{Val: float64(c.More[i])})
		}
	}
	x.NonTrivial()
	return nil
}

var _ = fmt.Sprint

func init() {
	engine.Reg("C21", "interleaved", "two to four instances of any kinds (often the same) created and used in any order against each alone, all results equal; non-trivial: two instances used with more than two switches",
		24000, 480000, genInter, runInter)
	engine.Reg("C21", "caller", "configurations, option slices, metric slices and pushed slices overwritten by the caller right after each call, against a twin left alone, and unmodified by the library; non-trivial: more than one push",
		20000, 400000, genCaller, runCaller)
	engine.Reg("C21", "options", "quantile metrics made from prefixes of one option slice with room to spare, against ones with options of their own; non-trivial: more than two values",
		6000, 120000, genOpts, runOpts)
	engine.Reg("C21", "heap-initial", "the slice given to heap.New and the one Values returned are overwritten; every case is non-trivial",
		2000, 40000, genHeapInit, runHeapInit)
}
