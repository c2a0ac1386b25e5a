package props

import (
	"math"
	"math/rand"
	"sort"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"github.com/alexander-yu/stream/quantile/skiplist"
	"pgregory.net/rapid"
)

// scripted is a rand.Source64 producing given skip-list coin flips: Float64 values in sequence, then a fixed one.
type scripted struct {
	vals []F
	i    int
}

func (s *scripted) next() float64 {
	if len(s.vals) == 0 {
		return 0.5
	}
	v := s.vals[s.i%len(s.vals)]
	s.i++
	return float64(v)
}
func (s *scripted) Int63() int64    { return int64(s.next() * (1 << 63)) }
func (s *scripted) Uint64() uint64  { return uint64(s.Int63()) << 1 }
func (s *scripted) Seed(seed int64) {}

type contCase struct {
	Kind   string   `json:"kind"` // avl, rb, skiplist
	Sk     implSpec `json:"sk"`
	Script []F      `json:"script,omitempty"` // scripted coin flips instead of a seed
	Ops    []Op     `json:"ops"`
}

func buildCont(kind string, sk implSpec, script []F) (order.Statistic, error) {
	switch kind {
	case "avl":
		return &avl.Tree{}, nil
	case "rb":
		return &rb.Tree{}, nil
	}
	opts := sk.skipOpts()
	if len(script) > 0 {
		opts = append(opts, skiplist.RandOption(rand.New(&scripted{vals: script})))
	}
	return skiplist.New(opts...)
}

type contModel struct{ s []float64 }

func (m *contModel) rank(x float64) int { return sort.SearchFloat64s(m.s, x) }
func (m *contModel) has(x float64) bool {
	i := m.rank(x)
	return i < len(m.s) && m.s[i] == x
}
func (m *contModel) add(x float64) {
	i := m.rank(x)
	m.s = append(m.s, 0)
	copy(m.s[i+1:], m.s[i:])
	m.s[i] = x
}
func (m *contModel) remove(x float64) bool {
	if !m.has(x) {
		return false
	}
	i := m.rank(x)
	m.s = append(m.s[:i], m.s[i+1:]...)
	return true
}

func genCont(long bool) func(t *rapid.T) contCase {
	return func(t *rapid.T) contCase {
		c := contCase{Kind: rapid.SampledFrom([]string{"skiplist", "rb", "avl"}).Draw(t, "kind")}
		if c.Kind == "skiplist" {
			drawSkip(t, &c.Sk)
			if rapid.Bool().Draw(t, "scripted") {
				p := float64(c.Sk.P)
				if p == 0 {
					p = skiplist.DefaultProbability
				}
				n := rapid.IntRange(1, 12).Draw(t, "nscript")
				for i := 0; i < n; i++ {
					lv := rapid.IntRange(0, 5).Draw(t, "level")
					// a flip just below p^lv gives level lv+1 (bounded by max level)
					v := math.Pow(p, float64(lv)) * 0.999
					c.Script = append(c.Script, F(v))
				}
			}
		}
		pr := orderProfile(t, true)
		opGen := rapid.Custom(func(t *rapid.T) Op {
			r := rapid.IntRange(0, 99).Draw(t, "op")
			switch {
			case r < 50:
				return Op{O: "add", X: []F{F(pr.g.Draw(t, "x"))}}
			case r < 72:
				return Op{O: "rem", N: rapid.IntRange(0, 1<<16).Draw(t, "i")} // remove the i-th (mod size) held value
			case r < 85:
				return Op{O: "remv", X: []F{F(pr.g.Draw(t, "x"))}} // remove a value, present or not
			case r < 97 && long:
				return Op{O: "pat", P: drawPat(t, pr, 400), N: rapid.IntRange(0, 3).Draw(t, "mode")}
			case r < 97:
				return Op{O: "add", X: []F{F(pr.g.Draw(t, "x"))}}
			default:
				return Op{O: "clear"}
			}
		})
		var min int
		if long {
			min = lengthScale(t, 0, 0, 4)
		} else {
			min = lengthScale(t)
		}
		c.Ops = rapid.SliceOfN(opGen, min, 3*min+16).Draw(t, "ops")
		return c
	}
}

// contOp applies one op to container and model; pat mode: 0 add all, 1 remove all, 2 slide a window of M*5, 3 add then remove in order.
func contOps(op Op, m *contModel) []Op {
	switch op.O {
	case "pat":
		pts := op.P.Expand(1)
		var out []Op
		for i, p := range pts {
			switch op.N {
			case 1:
				out = append(out, Op{O: "remv", X: []F{F(p[0])}})
			case 2:
				out = append(out, Op{O: "add", X: []F{F(p[0])}})
				if k := op.P.M * 5; i >= k {
					out = append(out, Op{O: "remv", X: []F{F(pts[i-k][0])}})
				}
			default:
				out = append(out, Op{O: "add", X: []F{F(p[0])}})
			}
		}
		if op.N == 3 {
			for i := range pts {
				out = append(out, Op{O: "remv", X: []F{F(pts[i][0])}})
			}
		}
		return out
	}
	return []Op{op}
}

func checkCont(s order.Statistic, m *contModel, full bool, salt int) error {
	n := len(m.s)
	if s.Size() != n {
		return fail("Size is %d, model holds %d %v", s.Size(), n, brief(m.s))
	}
	for _, k := range []int{-1, n, n + 3} {
		if nd := s.Select(k); nd != nil {
			return fail("Select(%d) on %d elements returned a node", k, n)
		}
	}
	stepk := 1
	if !full && n > 40 {
		stepk = n / 20
	}
	for k := salt % stepk; k < n; k += stepk {
		nd := s.Select(k)
		if nd == nil {
			return fail("Select(%d) returned nil, model %v", k, brief(m.s))
		}
		if v := nd.Value(); v != m.s[k] {
			return fail("Select(%d) = %s want %s; model %v", k, g(v), g(m.s[k]), brief(m.s))
		}
	}
	probe := []float64{0, -1, 1, 0.5, 1e308, -1e308, math.Inf(1), math.Inf(-1)}
	for k := salt % stepk; k < n; k += stepk {
		probe = append(probe, m.s[k], math.Nextafter(m.s[k], 1e308), math.Nextafter(m.s[k], -1e308))
	}
	for _, x := range probe {
		if r, w := s.Rank(x), m.rank(x); r != w {
			return fail("Rank(%s) = %d want %d; model %v", g(x), r, w, brief(m.s))
		}
	}
	return nil
}

func runCont(c contCase, x *X) error {
	s, err := buildCont(c.Kind, c.Sk, c.Script)
	if err != nil {
		return fail("constructor: %v", err)
	}
	m := &contModel{}
	removed, dups, absent := false, false, false
	n := 0
	for i, op0 := range c.Ops {
		for _, op := range contOps(op0, m) {
			n++
			switch op.O {
			case "add":
				v := float64(op.X[0])
				dups = dups || m.has(v)
				s.Add(v)
				m.add(v)
			case "rem":
				if len(m.s) == 0 {
					continue
				}
				v := m.s[op.N%len(m.s)]
				s.Remove(v)
				m.remove(v)
				removed = true
			case "remv":
				v := float64(op.X[0])
				s.Remove(v)
				if m.remove(v) {
					removed = true
				} else {
					absent = true
				}
			case "clear":
				s.Clear()
				m.s = nil
			}
			if op0.O == "pat" && n%13 != 0 {
				if s.Size() != len(m.s) {
					return fail("op %d (%v): Size is %d, model %d", i, op.O, s.Size(), len(m.s))
				}
				continue
			}
			if err := checkCont(s, m, len(c.Ops) < 60 && op0.O != "pat", n); err != nil {
				return fail("after op %d (%v %v): %v", i, op.O, op.X, err)
			}
		}
	}
	if err := checkCont(s, m, true, 0); err != nil {
		return fail("at the end: %v", err)
	}
	x.Label(c.Kind)
	if removed && dups {
		x.Label("removal and duplicates")
		x.NonTrivial()
	}
	if absent {
		x.Label("removal of an absent value")
	}
	return nil
}

// genSparse: single reads anywhere between the operations, each a step of its own, so that what a read leaves behind
// meets any operation and any other read.
func genSparse(t *rapid.T) contCase {
	c := genCont(false)(t)
	pr := orderProfile(t, true)
	var ops []Op
	reads := rapid.IntRange(0, 3).Draw(t, "reads")
	for _, op := range c.Ops {
		ops = append(ops, op)
		for n := rapid.IntRange(0, reads).Draw(t, "n"); n > 0; n-- {
			switch rapid.IntRange(0, 5).Draw(t, "read") {
			case 0:
				ops = append(ops, Op{O: "sel", N: rapid.IntRange(0, 1<<16).Draw(t, "k")})
			case 1, 2, 3:
				ops = append(ops, Op{O: "selrel", N: rapid.IntRange(-2, 2).Draw(t, "by")}) // from the last one
			case 4:
				ops = append(ops, Op{O: "rank", N: rapid.IntRange(0, 1<<16).Draw(t, "k")}) // of a held value
			default:
				ops = append(ops, Op{O: "rank", X: []F{F(pr.g.Draw(t, "x"))}})
			}
		}
	}
	c.Ops = ops
	return c
}

func runSparse(c contCase, x *X) error {
	s, err := buildCont(c.Kind, c.Sk, c.Script)
	if err != nil {
		return fail("constructor: %v", err)
	}
	m := &contModel{}
	last, since, stale := 0, false, 0
	for i, op := range c.Ops {
		n := len(m.s)
		switch op.O {
		case "add":
			s.Add(float64(op.X[0]))
			m.add(float64(op.X[0]))
			since = true
		case "rem":
			if n > 0 {
				v := m.s[op.N%n]
				s.Remove(v)
				m.remove(v)
				since = true
			}
		case "remv":
			s.Remove(float64(op.X[0]))
			since = m.remove(float64(op.X[0])) || since
		case "clear":
			s.Clear()
			m.s = nil
		case "sel", "selrel":
			k := last + op.N
			if op.O == "sel" && n > 0 {
				k = op.N % n
			}
			if nd := s.Select(k); k < 0 || k >= n {
				if nd != nil {
					return fail("op %d: Select(%d) on %d elements returned a node", i, k, n)
				}
				continue
			} else if nd == nil {
				return fail("op %d: Select(%d) returned nil, model %v", i, k, brief(m.s))
			} else if v := nd.Value(); v != m.s[k] {
				return fail("op %d: Select(%d) = %s want %s; model %v", i, k, g(v), g(m.s[k]), brief(m.s))
			}
			last = k
			if since {
				stale++
			}
			since = false
		case "rank":
			var v float64
			if len(op.X) > 0 {
				v = float64(op.X[0])
			} else if n > 0 {
				v = m.s[op.N%n]
			}
			if r, w := s.Rank(v), m.rank(v); r != w {
				return fail("op %d: Rank(%s) = %d want %d; model %v", i, g(v), r, w, brief(m.s))
			}
		}
	}
	if err := checkCont(s, m, true, 0); err != nil {
		return fail("at the end: %v", err)
	}
	x.Label(c.Kind)
	if stale > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C03", "sparse", "single Select (near the last one or anywhere) and Rank calls between the operations of such a sequence, nothing else read until the end; non-trivial: a change between two Selects, twice",
		30000, 600000, genSparse, runSparse)
	engine.Reg("C03", "ops", "random Add/Remove/Clear sequences, every Select and Rank of present, absent and neighbouring values checked after every operation; non-trivial: at least one effective removal and one duplicate",
		40000, 800000, genCont(false), runCont)
	engine.Reg("C03", "long", "patterned runs of up to 400 adds, removes or window slides per operation, sampled checks; same rule",
		4000, 80000, genCont(true), runCont)
}
