package props

import (
	"math"
	"fmt"
	"reflect"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"pgregory.net/rapid"
)

// cfgCase is one configuration to merge; nil fields are unset.
type cfgCase struct {
	Sums []int   `json:"sums,omitempty"`
	Tup  [][]int `json:"tup,omitempty"`
	W    *int    `json:"w,omitempty"`
	D    *F      `json:"d,omitempty"`
	Vars *int    `json:"vars,omitempty"`
}

type mergeCase struct {
	Joint bool      `json:"joint"`
	Cfgs  []cfgCase `json:"cfgs"`
	Ops   []Op      `json:"ops"`  // pushes have 4 values, the first Vars of which are used
	Nest  int       `json:"nest"` // merge the first Nest configurations first (0: all at once)
	// how the lists of tuples lie in memory: 0 apart, otherwise one after the other in one slice, starting with another one
	Lay int `json:"lay,omitempty"`
}

func genMerge(t *rapid.T) mergeCase {
	c := mergeCase{Joint: rapid.Bool().Draw(t, "jointcfg")}
	n := rapid.SampledFrom([]int{2, 2, 3, 3, 4, 5, 1, 0}).Draw(t, "n")
	w := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 8}).Draw(t, "w")
	var d *F
	if w == 0 && rapid.Bool().Draw(t, "decaying") {
		v := F(drawDecay(t))
		d = &v
	}
	vars := rapid.SampledFrom([]int{2, 2, 3, 4}).Draw(t, "vars")
	clash := rapid.IntRange(0, 5).Draw(t, "clash") // 0: windows, 1: decays, 2: vars, 3: tuple lengths
	for i := 0; i < n; i++ {
		var g cfgCase
		if rapid.IntRange(0, 3).Draw(t, "setw") > 0 {
			v := w
			if clash == 0 && rapid.Bool().Draw(t, "other") {
				v = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 9, w + 1, w + 256, w + 65536}).Draw(t, "w")
			}
			g.W = &v
		}
		if rapid.IntRange(0, 3).Draw(t, "setd") > 0 {
			if clash == 1 && rapid.Bool().Draw(t, "other") {
				v := F(drawDecay(t))
				if d != nil { // not the same, however near
					v = F(nearDecay(t, float64(*d)))
				}
				g.D = &v
			} else if d != nil {
				v := *d
				g.D = &v
			}
		}
		if c.Joint {
			nt := rapid.IntRange(0, 3).Draw(t, "ntup")
			for j := 0; j < nt; j++ {
				k := vars
				if clash == 3 && rapid.IntRange(0, 2).Draw(t, "otherlen") == 0 {
					k = rapid.IntRange(1, 4).Draw(t, "len")
				}
				tu := make([]int, k)
				for z := true; z; {
					for e := range tu {
						tu[e] = rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "e")
						if vars > 2 && tu[e] > 2 {
							tu[e] = 1
						}
						z = z && tu[e] == 0
					}
					if z {
						tu[0], z = 1, false
					}
				}
				g.Tup = append(g.Tup, tu)
			}
			if rapid.Bool().Draw(t, "setvars") {
				v := vars
				if clash == 2 && rapid.Bool().Draw(t, "other") {
					v = rapid.SampledFrom([]int{2, 3, 4, 5}).Draw(t, "vars")
				}
				g.Vars = &v
			}
		} else {
			g.Sums = rapid.SliceOfN(rapid.IntRange(1, 7), 0, 3).Draw(t, "sums")
		}
		c.Cfgs = append(c.Cfgs, g)
	}
	if n > 2 {
		c.Nest = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nest")
	}
	if c.Joint {
		c.Lay = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "lay")
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		if rapid.IntRange(0, 19).Draw(t, "op") == 19 {
			return Op{O: "clear"}
		}
		return Op{O: "push", X: drawPoint(t, profile{g: moderate(-10, 10)}, 5)}
	})
	c.Ops = rapid.SliceOfN(opGen, 1, 20).Draw(t, "ops")
	return c
}

// nearDecay is a decay anywhere from as near to d as can be to far from it.
func nearDecay(t *rapid.T, d float64) float64 {
	switch k := rapid.IntRange(-1, 17).Draw(t, "near"); {
	case k < 0:
		return drawDecay(t)
	case k == 0:
		return math.Nextafter(d, 0)
	case k == 17:
		return math.Nextafter(d, 1)
	default:
		return d * (1 - math.Pow(10, float64(-k)))
	}
}

func (g cfgCase) moment() *moment.CoreConfig {
	c := &moment.CoreConfig{}
	if len(g.Sums) > 0 {
		c.Sums = moment.SumsConfig{}
		for _, k := range g.Sums {
			c.Sums[k] = true
		}
	}
	if g.W != nil {
		c.Window = stream.IntPtr(*g.W)
	}
	if g.D != nil {
		c.Decay = stream.FloatPtr(float64(*g.D))
	}
	return c
}

func (g cfgCase) joint() *joint.CoreConfig {
	c := &joint.CoreConfig{}
	for _, tu := range g.Tup {
		c.Sums = append(c.Sums, append(joint.Tuple{}, tu...))
	}
	if g.W != nil {
		c.Window = stream.IntPtr(*g.W)
	}
	if g.D != nil {
		c.Decay = stream.FloatPtr(float64(*g.D))
	}
	if g.Vars != nil {
		c.Vars = stream.IntPtr(*g.Vars)
	}
	return c
}

// lay moves the lists of tuples of the configurations, and the tuples, into one slice each, where others follow them.
func lay(cfgs []*joint.CoreConfig, how int) (all joint.SumsConfig, flat []int) {
	for i := range cfgs {
		for _, tu := range cfgs[(how+i*(len(cfgs)-1))%len(cfgs)].Sums {
			all, flat = append(all, tu), append(flat, tu...)
		}
	}
	if len(all) == 0 {
		return
	}
	all, flat = append(all, joint.Tuple{9, 9}), append(flat, 9)
	a, b := 0, 0
	for i := range cfgs {
		c := cfgs[(how+i*(len(cfgs)-1))%len(cfgs)]
		if c.Sums == nil {
			continue
		}
		from := a
		for _, tu := range c.Sums {
			all[a] = flat[b : b+len(tu)]
			a, b = a+1, b+len(tu)
		}
		c.Sums = all[from:a]
	}
	return
}

// union is what the merged configuration has to ask for; ok is false where the inputs clash.
func (c mergeCase) union() (u cfgCase, ok bool) {
	for _, g := range c.Cfgs {
		if g.W != nil {
			if u.W != nil && *u.W != *g.W {
				return u, false
			}
			u.W = g.W
		}
		if g.D != nil {
			if u.D != nil && *u.D != *g.D {
				return u, false
			}
			u.D = g.D
		}
		if g.Vars != nil {
			if u.Vars != nil && *u.Vars != *g.Vars {
				return u, false
			}
			u.Vars = g.Vars
		}
		u.Sums = append(u.Sums, g.Sums...)
		u.Tup = append(u.Tup, g.Tup...)
	}
	return u, len(c.Cfgs) > 0
}

func runMerge(c mergeCase, x *X) error {
	u, ok := c.union()
	cons := consCase{Kind: "mcore", W: u.W, D: u.D, Sums: u.Sums, Tup: u.Tup, Vars: u.Vars}
	if c.Joint {
		cons.Kind = "jcore"
	}
	var in *Inst
	var newErr error
	after := func() error { return nil }
	s := Spec{Kind: cons.Kind, Sums: u.Sums, Tup: u.Tup}
	s.Impl.Impl = -1
	if c.Joint {
		var cfgs, snap []*joint.CoreConfig
		for _, g := range c.Cfgs {
			cfgs, snap = append(cfgs, g.joint()), append(snap, g.joint())
		}
		if n := len(cfgs); c.Lay > 0 && n > 1 {
			all, flat := lay(cfgs, c.Lay)
			all0, flat0 := append(joint.SumsConfig{}, all...), append([]int{}, flat...)
			after = func() error {
				if len(all) > 0 && !(reflect.DeepEqual(all, all0) && reflect.DeepEqual(flat, flat0)) {
					return fail("what lies behind a configuration's tuples was changed")
				}
				return nil
			}
		}
		merged, err := mergeNested(c.Nest, cfgs, joint.MergeConfigs)
		mixed := false
		for _, tu := range u.Tup {
			mixed = mixed || len(tu) != len(u.Tup[0])
		}
		if mixed && ok && err != nil {
			x.Label("tuple lengths clash")
			return nil // mismatched lengths may be rejected here already
		}
		if (err == nil) != ok {
			return fail("MergeConfigs: compatible=%v, error %v", ok, err)
		}
		if !reflect.DeepEqual(cfgs, snap) {
			return fail("MergeConfigs changed the configurations it was given")
		}
		if !ok {
			x.Label("incompatible")
			return nil
		}
		var core *joint.Core
		core, newErr = joint.NewCore(merged)
		if err := after(); err != nil {
			return err
		}
		if !reflect.DeepEqual(cfgs, snap) {
			return fail("NewCore of the merged configuration changed the original ones")
		}
		if newErr == nil && cons.valid() {
			s.W = *u.W
			if u.D != nil {
				s.D = *u.D
			}
			if u.Vars != nil {
				s.Vars = *u.Vars
			} else {
				s.Vars = len(u.Tup[0])
			}
			in = &Inst{Arity: s.Vars, Obj: core, Push: func(x []float64) error { return core.Push(x...) }, Clear: core.Clear}
		}
	} else {
		var cfgs, snap []*moment.CoreConfig
		for _, g := range c.Cfgs {
			cfgs, snap = append(cfgs, g.moment()), append(snap, g.moment())
		}
		merged, err := mergeNested(c.Nest, cfgs, moment.MergeConfigs)
		if (err == nil) != ok {
			return fail("MergeConfigs: compatible=%v, error %v", ok, err)
		}
		if !reflect.DeepEqual(cfgs, snap) {
			return fail("MergeConfigs changed the configurations it was given")
		}
		if !ok {
			x.Label("incompatible")
			return nil
		}
		var core *moment.Core
		core, newErr = moment.NewCore(merged)
		if !reflect.DeepEqual(cfgs, snap) {
			return fail("NewCore of the merged configuration changed the original ones")
		}
		if newErr == nil && cons.valid() {
			s.W = *u.W
			if u.D != nil {
				s.D = *u.D
			}
			in = &Inst{Arity: 1, Obj: core, Push: func(x []float64) error { return core.Push(x[0]) }, Clear: core.Clear}
		}
	}
	if want := cons.valid(); want != (newErr == nil) {
		return fail("NewCore of the merged configuration: valid=%v, error %v", want, newErr)
	}
	if in == nil {
		x.Label("merged but invalid")
		return nil
	}
	// each configuration on a Core of its own
	var alone []*Inst
	var as []Spec
	for _, g := range c.Cfgs {
		a := s
		a.Sums, a.Tup, a.NoVars = g.Sums, g.Tup, false
		ai, err := a.build()
		if err != nil {
			return fail("NewCore of one configuration alone: %v", err)
		}
		alone, as = append(alone, ai), append(as, a)
	}
	f := newMomentModel(in.Arity, s.W, float64(s.D), mergedTuples(s))
	pushes := 0
	for i, op := range c.Ops {
		if op.O == "clear" {
			in.Clear()
			f.clear()
			for _, a := range alone {
				a.Clear()
			}
		} else {
			p := floats(op.X)[:in.Arity]
			if err := in.Push(p); err != nil {
				return fail("step %d: shared Core: %v", i, err)
			}
			f.push(p)
			pushes++
			for _, a := range alone {
				if err := a.Push(p); err != nil {
					return fail("step %d: Core alone: %v", i, err)
				}
			}
		}
		for j, a := range alone {
			if err := compareShared(x, in, a, as[j], f, fmt.Sprintf("step %d: configuration %d", i, j)); err != nil {
				return err
			}
		}
	}
	x.Label("merged")
	if len(c.Cfgs) > 1 && pushes > 2 && len(u.Sums)+len(u.Tup) > 1 {
		x.NonTrivial()
	}
	return nil
}

func mergeNested[C any](nest int, cfgs []*C, merge func(...*C) (*C, error)) (*C, error) {
	if nest == 0 || nest >= len(cfgs) {
		return merge(cfgs...)
	}
	m, err := merge(cfgs[:nest]...)
	if err != nil {
		return nil, err
	}
	return merge(append([]*C{m}, cfgs[nest:]...)...)
}

func mergedTuples(s Spec) [][]int {
	if s.Kind == "jcore" {
		return s.Tup
	}
	return s.tuplesOf()
}

// compareShared requires the shared Core to report what the Core of one configuration reports.
func compareShared(x *X, shared, alone *Inst, s Spec, f *momentModel, where string) error {
	switch sc := shared.Obj.(type) {
	case *moment.Core:
		ac := alone.Obj.(*moment.Core)
		if sc.Count() != ac.Count() {
			return fail("%s: Count %d on the shared Core, %d alone", where, sc.Count(), ac.Count())
		}
		for _, k := range s.Sums {
			a, e1 := sc.Sum(k)
			b, e2 := ac.Sum(k)
			if (e1 == nil) != (e2 == nil) {
				return fail("%s: Sum(%d) on the shared Core: %v, alone: %v", where, k, e1, e2)
			}
			if e1 == nil {
				if err := (val{b, 2 * f.tolSum([]int{k})}).close(x, a, func() string { return fmt.Sprintf("%s: Sum(%d) shared against alone", where, k) }); err != nil {
					return err
				}
			}
		}
	case *joint.Core:
		ac := alone.Obj.(*joint.Core)
		if sc.Count() != ac.Count() {
			return fail("%s: Count %d on the shared Core, %d alone", where, sc.Count(), ac.Count())
		}
		for _, tu := range s.closure() {
			a, e1 := sc.Sum(tu...)
			b, e2 := ac.Sum(tu...)
			if (e1 == nil) != (e2 == nil) {
				return fail("%s: Sum(%v) on the shared Core: %v, alone: %v", where, tu, e1, e2)
			}
			if e1 == nil {
				if err := (val{b, 2 * f.tolSum(tu)}).close(x, a, func() string { return fmt.Sprintf("%s: Sum(%v) shared against alone", where, tu) }); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

// sharedCase: library metrics attached to one Core made from their merged configurations.
type sharedCase struct {
	Members []Spec `json:"members"`
	Ops     []Op   `json:"ops"` // N: through which member (or the Core itself) the call is made
}

func genShared(t *rapid.T) sharedCase {
	var c sharedCase
	joint := rapid.Bool().Draw(t, "jointshared")
	decaying := rapid.Bool().Draw(t, "decaying")
	w := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 16}).Draw(t, "w")
	d := drawDecay(t)
	ks := []string{"mean", "moment", "moment", "std", "skew", "kurt"}
	if decaying {
		w = 0
		ks = []string{"ewma", "ewmmoment", "ewmmoment", "ewmstd"}
	}
	if joint {
		ks = []string{"cov", "corr"}
		if decaying {
			ks = []string{"ewmcov", "ewmcorr"}
		}
	}
	n := rapid.IntRange(2, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := Spec{Kind: rapid.SampledFrom(ks).Draw(t, "kind"), W: w, Uninit: true}
		s.Impl.Impl = -1
		if decaying {
			s.D = F(d)
		}
		s.K = rapid.IntRange(1, 6).Draw(t, "k")
		c.Members = append(c.Members, s)
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		o := Op{O: "push", N: rapid.IntRange(0, n).Draw(t, "via")}
		if rapid.IntRange(0, 14).Draw(t, "op") == 14 {
			o.O = "clear"
			return o
		}
		o.X = drawPoint(t, profile{g: moderate(-10, 10)}, c.Members[0].arity())
		return o
	})
	c.Ops = rapid.SliceOfN(opGen, 1, 40).Draw(t, "ops")
	return c
}

func runShared(c sharedCase, x *X) error {
	var shared, alone []*Inst
	var fs []*feeder
	var mc []*moment.CoreConfig
	var jc []*joint.CoreConfig
	for _, s := range c.Members {
		a, err := s.build()
		if err != nil {
			return fail("constructor: %v", err)
		}
		s.Uninit = false
		b, err := s.build()
		if err != nil {
			return fail("constructor: %v", err)
		}
		shared, alone, fs = append(shared, a), append(alone, b), append(fs, s.feeder())
		switch m := a.Obj.(type) {
		case moment.CoreWrapper:
			mc = append(mc, m.Config())
		case joint.CoreWrapper:
			jc = append(jc, m.Config())
		}
	}
	core := &Inst{}
	if len(mc) > 0 {
		cfg, err := moment.MergeConfigs(mc...)
		if err != nil {
			return fail("MergeConfigs: %v", err)
		}
		cr, err := moment.NewCore(cfg)
		if err != nil {
			return fail("NewCore: %v", err)
		}
		for _, a := range shared {
			a.Obj.(moment.CoreWrapper).SetCore(cr)
		}
		core.Push, core.Clear = func(x []float64) error { return cr.Push(x[0]) }, cr.Clear
	} else {
		cfg, err := joint.MergeConfigs(jc...)
		if err != nil {
			return fail("MergeConfigs: %v", err)
		}
		cr, err := joint.NewCore(cfg)
		if err != nil {
			return fail("NewCore: %v", err)
		}
		for _, a := range shared {
			a.Obj.(joint.CoreWrapper).SetCore(cr)
		}
		core.Push, core.Clear = func(x []float64) error { return cr.Push(x...) }, cr.Clear
	}
	pushes, viaMember := 0, 0
	for i, op := range c.Ops {
		via := core
		if op.N < len(shared) {
			via = shared[op.N]
			viaMember++
		}
		if op.O == "clear" {
			via.Clear()
		} else {
			pushes++
			if err := via.Push(floats(op.X)); err != nil {
				return fail("step %d: Push: %v", i, err)
			}
		}
		for j, b := range alone {
			if op.O == "clear" {
				b.Clear()
				fs[j].clear()
			} else {
				if err := b.Push(floats(op.X)); err != nil {
					return fail("step %d: Push alone: %v", i, err)
				}
				fs[j].push(floats(op.X))
			}
			p, q := shared[j].Observe()[0], b.Observe()[0]
			if p.Err != q.Err {
				return fail("step %d: %s on the shared Core: %s, alone: %s", i, c.Members[j].Kind, p, q)
			}
			if p.Err {
				continue
			}
			tol, ok := c.Members[j].tolFor(fs[j].m, "Value")
			if !ok {
				continue
			}
			if err := (val{q.V, 2 * tol}).close(x, p.V, func() string {
				return fmt.Sprintf("step %d: %s on the shared Core against alone", i, c.Members[j].Kind)
			}); err != nil {
				return err
			}
		}
	}
	x.Label(c.Members[0].Kind)
	if pushes > 3 && viaMember > 0 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C15", "configs", "up to five configurations with set and unset fields, equal or clashing windows, decays, variable counts, tuple lengths, merged at once or nested: error exactly on a clash, inputs unmodified, the Core reports for each what a Core of its own does; non-trivial: two or more configurations with two or more sums in all, merged, and three values pushed",
		30000, 600000, genMerge, runMerge)
	engine.Reg("C15", "shared", "library metrics on one Core made from their merged configurations, pushed and cleared through any of them, against the same metrics alone; non-trivial: more than three pushes, some through a member",
		12000, 240000, genShared, runShared)
}
