package props

import (
	"fmt"
	"maps"
	"math"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/engine"

	"github.com/alexander-yu/stream"
	"github.com/alexander-yu/stream/aggregate"
	"pgregory.net/rapid"
)

// mockSpec scripts a member: Fail[i%len] says whether its i-th Push (and Value) fails, Slow how long its calls take.
type mockSpec struct {
	Name  string `json:"name"`
	FailP []bool `json:"failp,omitempty"`
	FailV []bool `json:"failv,omitempty"`
	Slow  int    `json:"slow,omitempty"` // 0 none, 1 yields, 2 sleeps some microseconds, 3 and 4 some seconds
	Real  *Spec  `json:"real,omitempty"` // a library metric instead of a mock
}

type aggCase struct {
	Joint   bool       `json:"joint"`
	Arity   int        `json:"arity"` // values per push
	Members []mockSpec `json:"members"`
	Ops     []Op       `json:"ops"` // push, clear, read
}

// mock is a scripted metric that logs what reaches it.
type mock struct {
	sp      mockSpec
	mu      sync.Mutex
	got     [][]float64
	started int
	done    int
	cleared int
	reads   int
	vals    float64
}

func (m *mock) slow() {
	switch m.sp.Slow {
	case 1:
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(50 * time.Microsecond)
	case 3:
		time.Sleep(1500 * time.Millisecond)
	case 4:
		time.Sleep(6 * time.Second)
	}
}

func cyc(b []bool, i int) bool { return len(b) > 0 && b[i%len(b)] }

func (m *mock) push(xs []float64) error {
	m.mu.Lock()
	i := m.started
	m.started++
	m.mu.Unlock()
	m.slow()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.got = append(m.got, append([]float64(nil), xs...))
	m.done++
	if cyc(m.sp.FailP, i) {
		return fmt.Errorf("push failure <%s:%d>", m.sp.Name, i)
	}
	return nil
}

func (m *mock) String() string { return m.sp.Name }

func (m *mock) Value() (float64, error) {
	m.mu.Lock()
	i := m.reads
	m.reads++
	v := m.vals
	m.mu.Unlock()
	m.slow()
	if cyc(m.sp.FailV, i) {
		return math.Inf(1), fmt.Errorf("value failure <%s:%d>", m.sp.Name, i)
	}
	return v, nil
}

func (m *mock) Clear() {
	m.slow()
	m.mu.Lock()
	m.cleared++
	m.mu.Unlock()
}

type uniMock struct{ *mock }

func (m uniMock) Push(x float64) error { return m.push([]float64{x}) }

type jointMock struct{ *mock }

func (m jointMock) Push(xs ...float64) error { return m.push(xs) }

func genAgg(t *rapid.T) aggCase { return genAggN(t, rapid.IntRange(0, 6).Draw(t, "members")) }
func genAggMany(t *rapid.T) aggCase {
	n := rapid.SampledFrom([]int{8, 9, 11, 16, 17, 24, 32, 33, 64, 65, 100, 129}).Draw(t, "members")
	return genAggN(t, n+rapid.IntRange(0, 2).Draw(t, "more"))
}

func genAggN(t *rapid.T, n int) aggCase {
	c := aggCase{Joint: rapid.Bool().Draw(t, "jointagg"), Arity: 1}
	ks := []string{"max", "min", "mean", "std", "ewma", "median", "iqr", "heapmedian", "autocov", "autocorr"}
	if c.Joint {
		c.Arity = 2
		ks = jointKinds
	}
	bools := func(label string) []bool {
		if rapid.IntRange(0, 2).Draw(t, label+"any") > 0 {
			return nil
		}
		return rapid.SliceOfN(rapid.Map(rapid.IntRange(0, 2), func(i int) bool { return i == 1 }), 1, 6).Draw(t, label)
	}
	for i := 0; i < n; i++ {
		m := mockSpec{Name: fmt.Sprintf("member%c", 'A'+i)}
		if n > 6 {
			m.Name = fmt.Sprintf("member%d.", i)
			if rapid.IntRange(0, 5).Draw(t, "some") > 0 { // most members of a large aggregate never fail
				c.Members = append(c.Members, m)
				continue
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "real") == 0 {
			s := Spec{Kind: rapid.SampledFrom(ks).Draw(t, "kind")}
			s.fill(t, 6)
			s.Uninit = s.isMomentMetric() && rapid.IntRange(0, 3).Draw(t, "uninit") == 0
			m.Real = &s
		} else {
			m.FailP, m.FailV = bools("failp"), bools("failv")
			m.Slow = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "slow")
		}
		c.Members = append(c.Members, m)
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		switch r := rapid.IntRange(0, 9).Draw(t, "op"); {
		case r == 9:
			return Op{O: "clear"}
		case r >= 6:
			return Op{O: "read"}
		}
		n := c.Arity
		if c.Joint && rapid.IntRange(0, 4).Draw(t, "wrong") == 0 {
			n = rapid.IntRange(0, 4).Draw(t, "len")
		}
		x := make([]F, n)
		for i := range x {
			x[i] = F(rapid.SampledFrom([]float64{0, 1, -1, 2.5, 1e10, -3, 7}).Draw(t, "x"))
		}
		return Op{O: "push", X: x}
	})
	c.Ops = rapid.SliceOfN(opGen, 1, 14).Draw(t, "ops")
	return c
}

// genAggPatient: a few members, one or two of which take seconds.
func genAggPatient(t *rapid.T) aggCase {
	c := genAggN(t, rapid.IntRange(1, 4).Draw(t, "members"))
	slow := rapid.IntRange(3, 4).Draw(t, "slow")
	at := rapid.IntRange(0, len(c.Members)-1).Draw(t, "at")
	c.Members[at].Real, c.Members[at].Slow = nil, slow
	if c.Members[at].Name == "" {
		c.Members[at].Name = fmt.Sprint("m", at)
	}
	x := make([]F, c.Arity)
	c.Ops = []Op{{O: "push", X: x}, {O: "read"}}
	if slow == 3 {
		c.Ops = append(c.Ops, Op{O: "clear"}, Op{O: "push", X: x})
	}
	return c
}

func (s Spec) isMomentMetric() bool {
	switch s.Kind {
	case "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "cov", "corr", "ewmcov", "ewmcorr", "autocov", "autocorr":
		return true
	}
	return false
}

func runAgg(c aggCase, x *X) error {
	var (
		mocks   []*mock
		reals   []*Inst
		twins   []*Inst // reals driven directly
		uni     []stream.SimpleMetric
		joints  []stream.SimpleJointMetric
		push    func(xs []float64) error
		values  func() (map[string]float64, error)
		clear   func()
		clears  int
		pushes  int
		failed  int
		partial int
	)
	names := map[string]bool{}
	for i, m := range c.Members {
		if m.Real == nil {
			mk := &mock{sp: m, vals: float64(i) + 0.5}
			mocks = append(mocks, mk)
			reals, twins = append(reals, nil), append(twins, nil)
			uni, joints = append(uni, uniMock{mk}), append(joints, jointMock{mk})
			names[m.Name] = true
			continue
		}
		in, err := m.Real.build()
		if err != nil {
			return fail("constructor: %v", err)
		}
		tw, _ := m.Real.build()
		if names[in.Str()] { // two members of the same name share a key: out of scope
			continue
		}
		names[in.Str()] = true
		mocks, reals, twins = append(mocks, nil), append(reals, in), append(twins, tw)
		if c.Joint {
			joints = append(joints, in.Obj.(stream.SimpleJointMetric))
		} else {
			uni = append(uni, in.Obj.(stream.SimpleMetric))
		}
	}
	if c.Joint {
		a := aggregate.NewSimpleJointAggregateMetric(joints...)
		push, values, clear = func(xs []float64) error { return a.Push(xs...) }, a.Values, a.Clear
	} else {
		a := aggregate.NewSimpleAggregateMetric(uni...)
		push, values, clear = func(xs []float64) error { return a.Push(xs[0]) }, a.Values, a.Clear
	}
	name := func(i int) string {
		if mocks[i] != nil {
			return mocks[i].sp.Name
		}
		return reals[i].Str()
	}
	var kept, copies []map[string]float64 // what Values returned, and what it should still be
	for s, op := range c.Ops {
		if n := len(kept) - 1; n >= 0 && s%2 == 1 { // the caller may change it
			for k := range kept[n] {
				kept[n][k] = -1
			}
			kept[n]["another"] = 1
			copies[n] = maps.Clone(kept[n])
		}
		switch op.O {
		case "push":
			xs := floats(op.X)
			err := push(xs)
			pushes++
			var want []string
			for i := range mocks {
				if m := mocks[i]; m != nil {
					m.mu.Lock()
					st, dn := m.started, m.done
					var last []float64
					if len(m.got) > 0 {
						last = m.got[len(m.got)-1]
					}
					m.mu.Unlock()
					if st != pushes || dn != pushes {
						return fail("op %d: after %d pushes %s had %d pushes delivered and %d completed", s, pushes, m.sp.Name, st, dn)
					}
					if len(last) != len(xs) {
						return fail("op %d: pushed %v, %s received %v", s, xs, m.sp.Name, last)
					}
					for k := range xs {
						if xs[k] != last[k] {
							return fail("op %d: pushed %v, %s received %v", s, xs, m.sp.Name, last)
						}
					}
					if cyc(m.sp.FailP, pushes-1) {
						want = append(want, fmt.Sprintf("<%s:%d>", m.sp.Name, pushes-1))
					}
				} else if e := twins[i].Push(xs); e != nil {
					want = append(want, e.Error())
				}
			}
			if err := sameFailures(err, want); err != nil {
				return fail("op %d: Push: %v", s, err)
			}
			if len(want) > 0 {
				failed++
				if len(want) < len(mocks) {
					partial++
				}
			}
		case "clear":
			clear()
			clears++
			for i := range mocks {
				if m := mocks[i]; m != nil {
					m.mu.Lock()
					n := m.cleared
					m.mu.Unlock()
					if n != clears {
						return fail("op %d: after %d Clears %s was cleared %d times", s, clears, m.sp.Name, n)
					}
				} else {
					twins[i].Clear()
				}
			}
		case "read":
			var want []string
			vals := map[string]float64{}
			before := make([]int, len(mocks))
			for i := range mocks {
				if m := mocks[i]; m != nil {
					before[i] = m.reads
				}
			}
			got, err := values()
			for i, k := range kept {
				if !maps.EqualFunc(k, copies[i], sameFloat) {
					return fail("op %d: Values changed an earlier result from %v to %v", s, copies[i], k)
				}
			}
			if got != nil {
				kept, copies = append(kept, got), append(copies, maps.Clone(got))
			}
			for i := range mocks {
				if m := mocks[i]; m != nil {
					m.mu.Lock()
					n := m.reads - before[i]
					m.mu.Unlock()
					if n == 0 {
						return fail("op %d: Values did not read %s", s, m.sp.Name)
					}
					if n > 1 {
						return nil // reading a member more than once is allowed, but then its script cannot be followed
					}
					if cyc(m.sp.FailV, before[i]) {
						want = append(want, fmt.Sprintf("<%s:%d>", m.sp.Name, before[i]))
					} else {
						vals[m.sp.Name] = m.vals
					}
					continue
				}
				o := twins[i].Observe()[0]
				if o.Err {
					_, e := twins[i].Obj.(interface{ Value() (float64, error) }).Value()
					want = append(want, e.Error())
				} else {
					vals[name(i)] = o.V
				}
			}
			if err := sameFailures(err, want); err != nil {
				return fail("op %d: Values: %v", s, err)
			}
			if len(want) > 0 {
				failed++
				if got != nil {
					return fail("op %d: Values failed but returned %v", s, got)
				}
				break
			}
			if got == nil || len(got) != len(vals) {
				return fail("op %d: Values %v, members say %v", s, got, vals)
			}
			for k, v := range vals {
				if w, ok := got[k]; !ok || !sameFloat(v, w) {
					return fail("op %d: Values[%s] is %v (present %v), the member says %v", s, k, w, ok, v)
				}
			}
		}
		// members are exactly as if driven directly
		for i := range mocks {
			if reals[i] != nil {
				if d := sameObs(reals[i].Observe(), twins[i].Observe()); d != "" {
					return fail("op %d: member %s in the aggregate against one driven directly: %s", s, name(i), d)
				}
			}
		}
	}
	if failed > 0 {
		x.Label("with failures")
	}
	if partial > 0 {
		x.Label("some members failed, others not")
	}
	if len(mocks) > 1 && pushes > 1 {
		x.NonTrivial()
	}
	return nil
}

// sameFailures: an error exactly when some member failed, naming each.
func sameFailures(err error, want []string) error {
	if len(want) == 0 {
		if err != nil {
			return fail("failed although no member did: %v", err)
		}
		return nil
	}
	if err == nil {
		return fail("succeeded although members failed: %v", want)
	}
	msg := err.Error()
	for _, w := range want {
		if !strings.Contains(msg, w) {
			return fail("error %q does not name the member failure %q", msg, w)
		}
	}
	return nil
}

func init() {
	engine.Reg("C17", "members", "aggregates of scripted members (failing and slow calls) and library metrics: delivery exactly once and complete, failures named, Values from each member's Value, Clear; non-trivial: two or more members and two or more pushes",
		16000, 320000, genAgg, runAgg)
	engine.Reg("C17", "many", "aggregates of 8 to 131 members; non-trivial: two or more members and two or more pushes", 1500, 30000, genAggMany, runAgg)
	engine.Reg("C17", "patient", "aggregates a member of which takes 1.5 or 6 seconds for each call; non-trivial: two or more members and two or more pushes",
		8, 32, genAggPatient, runAgg, engine.FreshOnly(), engine.NoBoost())
}
