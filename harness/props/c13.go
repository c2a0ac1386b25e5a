package props

import (
	"fmt"

	"verif/engine"

	"pgregory.net/rapid"
)

// clearCase: a history, Clear (one or more times, with or without reads around), and what follows.
type clearCase struct {
	S      Spec  `json:"s"`
	Pre    []Op  `json:"pre"`
	Clears int   `json:"clears"`
	Read   bool  `json:"read,omitempty"` // read just before and between the clears
	Post   []Op  `json:"post"`
	Often  int   `json:"often,omitempty"` // this many times: the pushes of Few, Clear
	Few    []Op  `json:"few,omitempty"`
	Quiet  []int `json:"quiet,omitempty"` // if not empty, reads only after steps whose number is a multiple of the i-th (cyclic)
}

// genClearQuiet: what is kept of before the Clear may only be seen if nothing is read in between.
func genClearQuiet(kinds []string, maxW int) func(t *rapid.T) clearCase {
	return func(t *rapid.T) clearCase {
		c := genClear(kinds, []int{0, 0, 5}, 0, 0, maxW)(t)
		if len(c.Pre) > 20 {
			c.Pre = c.Pre[:20]
		}
		c.Read = rapid.IntRange(0, 3).Draw(t, "readq") > 0
		if n := len(c.Pre); len(c.Post) > n && rapid.Bool().Draw(t, "same") {
			c.Post = c.Post[:n]
		}
		c.Quiet = rapid.SliceOfN(rapid.IntRange(1, 8), 1, 3).Draw(t, "quiet")
		return c
	}
}

// drawOften is a number of repetitions, around the ranges of small integers.
func drawOften(t *rapid.T) int {
	return max(2, rapid.SampledFrom([]int{250, 506, 1000, 4090, 20000, 65530, 65530, 65530}).Draw(t, "often")+rapid.IntRange(0, 12).Draw(t, "often+"))
}

func genClearOften(kinds []string, maxW int) func(t *rapid.T) clearCase {
	return func(t *rapid.T) clearCase {
		c := genClear(kinds, []int{0, 0, 5}, 0, 0, maxW)(t)
		c.Often = drawOften(t)
		switch c.S.Kind {
		case "agg", "jagg":
			c.Often = min(c.Often, 300) // with goroutines
		case "jcore", "avl", "rb", "skiplist":
			c.Often = min(c.Often, 4200)
		}
		for n := rapid.IntRange(0, 3).Draw(t, "few"); n > 0; n-- {
			c.Few = append(c.Few, Op{O: "push", X: make([]F, c.S.arity())})
			for i := range c.Few[len(c.Few)-1].X {
				c.Few[len(c.Few)-1].X[i] = F(rapid.IntRange(-5, 5).Draw(t, "v"))
			}
		}
		return c
	}
}

func genClear(kinds []string, scales []int, patN, patProb, maxW int) func(t *rapid.T) clearCase {
	return func(t *rapid.T) clearCase {
		c := clearCase{S: drawSpec(t, kinds, maxW), Clears: rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "clears"), Read: rapid.Bool().Draw(t, "read")}
		c.Pre = c.S.drawOps(t, scales, patN, patProb)
		c.Post = c.S.drawOps(t, scales, patN, patProb)
		return c
	}
}

func (in *Inst) str() string {
	if in.Str == nil {
		return ""
	}
	return in.Str()
}

func runClear(c clearCase, x *X) error {
	used, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	pushes := 0
	for i, op := range steps(c.Pre, used.Arity) {
		if err := used.apply(op); err != nil {
			return fail("before Clear, step %d: %v", i, err)
		}
		if op.O == "push" {
			pushes++
		}
	}
	for i := 0; i < c.Often; i++ {
		used.Clear()
		for _, op := range c.Few {
			if err := used.apply(op); err != nil {
				return fail("Clear %d: %v", i, err)
			}
		}
	}
	for i := 0; i < c.Clears; i++ {
		if c.Read {
			used.Observe()
		}
		used.Clear()
	}
	fresh, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	cmp := func(i int) error {
		a, b := used.Observe(), fresh.Observe()
		if d := sameObs(a, b); d != "" {
			return fail("step %d after Clear: cleared against new instance: %s", i, d)
		}
		for j := range used.Members { // members of aggregates, read directly
			if d := sameObs(used.Members[j].Observe(), fresh.Members[j].Observe()); d != "" {
				return fail("step %d after Clear: member %d, cleared against new: %s", i, j, d)
			}
		}
		if a, b := used.str(), fresh.str(); a != b {
			return fail("step %d after Clear: String %q against %q", i, a, b)
		}
		return nil
	}
	if len(c.Quiet) == 0 {
		if err := cmp(-1); err != nil {
			return err
		}
	}
	post := steps(c.Post, used.Arity)
	every := 1 + len(post)/60
	n := 0
	for i, op := range post {
		e1, e2 := used.apply(op), fresh.apply(op)
		if (e1 == nil) != (e2 == nil) {
			return fail("step %d after Clear: cleared instance returned %v, new one %v", i, e1, e2)
		}
		if op.O == "push" {
			n++
		}
		at := i%every == 0 || i < 10 || len(post)-i < 4
		if k := len(c.Quiet); k > 0 {
			at = i == len(post)-1 || (i+1)%(c.Quiet[i%k]+1) == 0
		}
		if at {
			if err := cmp(i); err != nil {
				return err
			}
		}
	}
	x.Label(c.S.Kind)
	if pushes > 1 && n > c.S.window() {
		x.NonTrivial()
	}
	return nil
}

// readCase: the same history with and without reads.
type readCase struct {
	S    Spec  `json:"s"`
	Ops  []Op  `json:"ops"`
	Read []int `json:"read"`           // how often to read after step i (cyclic)
	Cuts []int `json:"cuts"`           // prefixes (percent of the length) after which the two are compared
	Many int   `json:"many,omitempty"` // reads at step At, besides
	At   int   `json:"at,omitempty"`
}

// genReadOften: a short history of small numbers, with so many reads at one point that a small counter comes round.
func genReadOften(kinds []string, maxW int) func(t *rapid.T) readCase {
	return func(t *rapid.T) readCase {
		if rapid.IntRange(0, 2).Draw(t, "cheap") > 0 {
			kinds = []string{"max", "min", "heapmedian", "quantile", "median", "iqr", "mean", "std", "skew", "kurt", "moment", "cov", "corr", "ewma", "ewmstd", "autocov"}
		}
		c := readCase{S: drawSpec(t, kinds, maxW), Read: []int{0}}
		if len(c.S.Phis) > 1 {
			c.S.Phis = c.S.Phis[:1]
		}
		for n := rapid.IntRange(1, 16).Draw(t, "n"); n > 0; n-- {
			op := Op{O: "push", X: make([]F, c.S.arity())}
			for i := range op.X {
				op.X[i] = F(rapid.IntRange(-2, 2).Draw(t, "v"))
			}
			c.Ops = append(c.Ops, op)
			if rapid.IntRange(0, 30).Draw(t, "clear") == 0 {
				c.Ops = append(c.Ops, Op{O: "clear"})
			}
		}
		c.At = rapid.IntRange(0, len(c.Ops)).Draw(t, "at")
		for p := 0; p <= 100; p += 4 {
			c.Cuts = append(c.Cuts, p)
		}
		c.Many = drawOften(t)
		switch c.S.Kind {
		case "agg", "jagg":
			c.Many = min(c.Many, 300)
		case "avl", "rb", "skiplist", "jcore", "mcore", "reservoir":
			c.Many = min(c.Many, 4200)
		}
		return c
	}
}

func genRead(kinds []string, scales []int, patN, patProb, maxW int) func(t *rapid.T) readCase {
	return func(t *rapid.T) readCase {
		c := readCase{S: drawSpec(t, kinds, maxW)}
		c.Ops = c.S.drawOps(t, scales, patN, patProb)
		c.Read = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}), 1, 9).Draw(t, "read")
		c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 100), 0, 3).Draw(t, "cuts")
		return c
	}
}

func (in *Inst) readAll() []Obs {
	o := in.Observe()
	in.str()
	if in.Cfg != nil {
		in.Cfg()
	}
	return o
}

func runRead(c readCase, x *X) error {
	a, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	st := steps(c.Ops, a.Arity)
	cut := map[int]bool{len(st): true}
	for _, p := range c.Cuts {
		cut[p*len(st)/100] = true
	}
	reads, pushes := 0, 0
	for i := 0; i <= len(st); i++ {
		if n := c.Read[i%len(c.Read)]; n > 0 { // reads before step i
			first := a.readAll()
			for ; n > 1; n-- {
				if d := sameObs(first, a.readAll()); d != "" {
					return fail("before step %d: repeating a read changed the answer: %s", i, d)
				}
			}
			reads++
		}
		if c.Many > 0 && i == min(c.At, len(st)) {
			first := a.Observe()
			for n := 2; n <= c.Many; n++ {
				if o := a.Observe(); n > 300 && n%1000 > 0 && n < c.Many-20 {
				} else if d := sameObs(first, o); d != "" {
					return fail("before step %d: read %d in a row changed the answer: %s", i, n, d)
				}
			}
		}
		if cut[i] {
			b, err := c.S.build()
			if err != nil {
				return fail("constructor: %v", err)
			}
			for j := 0; j < i; j++ {
				if err := b.apply(st[j]); err != nil {
					return fail("step %d: %v", j, err)
				}
			}
			if d := sameObs(a.Observe(), b.Observe()); d != "" {
				return fail("after %d steps: with reads against without: %s", i, d)
			}
			if p, q := a.str(), b.str(); p != q {
				return fail("after %d steps: String with reads %q, without %q", i, p, q)
			}
		}
		if i == len(st) {
			break
		}
		if err := a.apply(st[i]); err != nil {
			return fail("step %d: %v", i, err)
		}
		if st[i].O == "push" {
			pushes++
		}
	}
	x.Label(c.S.Kind)
	if reads > 1 && pushes > 2 {
		x.NonTrivial()
	}
	return nil
}

// sparseCase: single reads between the steps of a history, each compared with the same read of a twin that had no other.
type sparseCase struct {
	S    Spec  `json:"s"`
	Ops  []Op  `json:"ops"`
	Read []int `json:"read"` // after step i: no read if negative (cyclic)
}

func genSparseRead(kinds []string, maxW int) func(t *rapid.T) sparseCase {
	return func(t *rapid.T) sparseCase {
		c := sparseCase{S: drawSpec(t, kinds, maxW)}
		c.Ops = c.S.drawOps(t, []int{0, 0, 5}, 0, 0)
		if len(c.Ops) > 24 {
			c.Ops = c.Ops[:24]
		}
		c.Read = rapid.SliceOfN(rapid.IntRange(-200, 400), 1, 24).Draw(t, "read")
		return c
	}
}

func runSparseRead(c sparseCase, x *X) error {
	one := func(in *Inst, i int) []Obs {
		if in.One == nil {
			return in.Observe()
		}
		return []Obs{in.One(i)}
	}
	a, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	st := steps(c.Ops, a.Arity)
	reads := 0
	for i, op := range st {
		if err := a.apply(op); err != nil {
			return fail("step %d: %v", i, err)
		}
		for j := 0; j < 2; j++ { // one or two reads
			r := c.Read[(2*i+j)%len(c.Read)]
			if r < 0 {
				continue
			}
			b, err := c.S.build()
			if err != nil {
				return fail("constructor: %v", err)
			}
			for _, op := range st[:i+1] {
				if err := b.apply(op); err != nil {
					return fail("step %d: %v", i, err)
				}
			}
			if d := sameObs(one(a, r), one(b, r)); d != "" {
				return fail("after %d steps: with reads before it against without: %s", i+1, d)
			}
			reads++
		}
	}
	x.Label(c.S.Kind)
	if reads > 2 && len(st) > 4 {
		x.NonTrivial()
	}
	return nil
}

// windowCase: long streams through a window, compared with a new global instance.
type windowCase struct {
	S    Spec  `json:"s"`
	Ops  []Op  `json:"ops"`
	Cuts []int `json:"cuts"` // positions (permille of the length) of comparisons besides the last
}

var (
	orderWindowKinds  = []string{"max", "min", "quantile", "quantile", "median", "iqr", "heapmedian"}
	momentWindowKinds = []string{"mean", "moment", "std", "skew", "kurt", "mcore", "cov", "corr", "autocov", "autocorr", "jcore"}
)

func genWindow(kinds []string, scales []int, patN, patProb, maxW int) func(t *rapid.T) windowCase {
	return func(t *rapid.T) windowCase {
		c := windowCase{S: drawSpec(t, kinds, maxW)}
		if c.S.W == 0 {
			c.S.W = rapid.IntRange(1, maxW).Draw(t, "w2")
		}
		c.S.Global, c.S.D = false, 0
		c.Ops = c.S.drawOps(t, scales, patN, patProb)
		c.Cuts = rapid.SliceOfN(rapid.IntRange(0, 1000), 0, 5).Draw(t, "cuts")
		return c
	}
}

func runWindow(c windowCase, x *X) error {
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	gs := c.S
	gs.W, gs.Global = 0, c.S.Kind != "mcore" && c.S.Kind != "jcore"
	st := steps(c.Ops, in.Arity)
	cut := map[int]bool{len(st) - 1: true}
	for _, p := range c.Cuts {
		cut[p*len(st)/1000] = true
	}
	var f *feeder
	if !c.S.isOrder() {
		f = c.S.feeder()
	}
	var all [][]float64
	keep := c.S.W
	if c.S.Kind == "autocov" || c.S.Kind == "autocorr" {
		keep += c.S.Lag
	}
	pushes, rolled := 0, false
	for i, op := range st {
		if err := in.apply(op); err != nil {
			return fail("step %d: %v", i, err)
		}
		switch op.O {
		case "push":
			pushes++
			all = append(all, floats(op.X))
			if f != nil {
				f.push(floats(op.X))
			}
		case "clear":
			all = nil
			if f != nil {
				f.clear()
			}
		}
		if !cut[i] {
			continue
		}
		fresh, err := gs.build()
		if err != nil {
			return fail("constructor: %v", err)
		}
		last := tailWindow(all, keep)
		for _, p := range last {
			if err := fresh.Push(p); err != nil {
				return fail("global instance: Push: %v", err)
			}
		}
		a, b := in.Observe(), fresh.Observe()
		rolled = rolled || len(all) > keep
		if f == nil {
			if d := sameObs(a, b); d != "" {
				return fail("step %d (%d pushes): window %d against a global instance of the last values: %s", i, len(all), c.S.W, d)
			}
			continue
		}
		for j := range a {
			if a[j].Err != b[j].Err {
				return fail("step %d (%d pushes): %s against %s of a global instance of the last values", i, len(all), a[j], b[j])
			}
			if a[j].Err {
				continue
			}
			tol, ok := c.S.tolFor(f.m, a[j].Name)
			if !ok {
				continue
			}
			if err := (val{b[j].V, 2 * tol}).close(x, a[j].V, func() string {
				return fmt.Sprintf("step %d (%d pushes): %s of window %d against a global instance of the last values", i, len(all), a[j].Name, c.S.W)
			}); err != nil {
				return err
			}
		}
	}
	x.Label(c.S.Kind)
	if pushes > 1000 {
		x.Label("more than 1000 pushes")
	}
	if rolled {
		x.NonTrivial()
	}
	return nil
}

// tolFor is the rounding error allowed for an observed result of a moment-like object.
func (s Spec) tolFor(m *momentModel, name string) (float64, bool) {
	if m.n() == 0 {
		return 0, false
	}
	var k, i int
	switch {
	case name == "Count":
		return 1e-9, true
	case s.Kind == "mcore" && name == "Mean":
		return m.tolMean(0), true
	case s.Kind == "mcore":
		if _, err := fmt.Sscanf(name, "Sum(%d)", &k); err == nil && k >= 1 && k <= s.maxSum() {
			return m.tolSum([]int{k}), true
		}
		return 0, false
	case s.Kind == "jcore":
		if _, err := fmt.Sscanf(name, "Mean(%d)", &i); err == nil && i >= 0 && i < s.Vars {
			return m.tolMean(i), true
		}
		for _, t := range s.closure() {
			if name == fmt.Sprintf("Sum(%v)", t) {
				return m.tolSum(t), true
			}
		}
		return 0, false
	}
	v, ok := s.expect(m)
	return v.tol, ok
}

func init() {
	all := allKinds()
	rule := "non-trivial: something was pushed before Clear and more than a window's worth after it"
	engine.Reg("C13", "history", "any metric, Core, container or aggregate: history, Clear (once or more), the same continuation on a new twin, every result equal; "+rule, 40000, 800000, genClear(all, []int{0, 0, 5, 12, 30}, 0, 0, 24), runClear)
	engine.Reg("C13", "patterns", "long patterned runs before and after Clear; "+rule, 4000, 80000, genClear(all, []int{0, 0, 3}, 150, 60, 80), runClear)
	engine.Reg("C13", "often", "the same with hundreds to tens of thousands of Clears, few or no pushes between them; "+rule, 300, 8000, genClearOften(all, 24), runClear)
	engine.Reg("C13", "quiet", "the same, the two instances read only after the chosen steps of the continuation, which is often as long as the history before; "+rule, 20000, 400000, genClearQuiet(all, 12), runClear)

	rule = "non-trivial: reads at two or more places and more than two pushes"
	engine.Reg("C22", "sparse", "single reads anywhere in a history, each against the same read of a new twin with the same pushes and no other read; non-trivial: more than two reads and more than four steps", 12000, 240000,
		genSparseRead(append([]string{"quantile", "quantile", "jcore", "mcore", "avl", "rb", "skiplist"}, all...), 8), runSparseRead)
	engine.Reg("C22", "often", "the same with hundreds to tens of thousands of reads in a row; "+rule, 700, 16000, genReadOften(all, 8), runRead)
	engine.Reg("C22", "history", "the same history with reads inserted anywhere and without any, every result equal at the chosen prefixes, repeated reads equal; "+rule, 40000, 800000, genRead(all, []int{0, 0, 5, 12, 30}, 0, 0, 24), runRead)
	engine.Reg("C22", "patterns", "long patterned runs; "+rule, 3000, 60000, genRead(all, []int{0, 0, 3}, 150, 60, 80), runRead)

	rule = "non-trivial: values had left the window (and lag) at a comparison"
	engine.Reg("C25", "order", "order-based metrics: window against a new global instance fed the last w values, equal; "+rule, 24000, 480000, genWindow(orderWindowKinds, []int{0, 5, 12, 30}, 0, 0, 24), runWindow)
	engine.Reg("C25", "order-long", "long patterned streams; "+rule, 2000, 40000, genWindow(orderWindowKinds, []int{0, 0, 3}, 3000, 60, 300), runWindow)
	engine.Reg("C25", "moment", "moment-based and joint metrics and Cores: window against a new global instance fed the last w (w+lag) values, within the rounding error of the magnitudes seen; "+rule, 16000, 320000, genWindow(momentWindowKinds, []int{0, 5, 12, 30}, 0, 0, 24), runWindow)
	engine.Reg("C25", "moment-long", "long patterned streams; "+rule, 800, 16000, genWindow(momentWindowKinds, []int{0, 0, 3}, 1500, 60, 60), runWindow)
}
