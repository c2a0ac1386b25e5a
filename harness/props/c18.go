package props

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/engine"
	"verif/vsync"

	"github.com/alexander-yu/stream/joint"
	"github.com/alexander-yu/stream/moment"
	"github.com/alexander-yu/stream/quantile"
	"github.com/alexander-yu/stream/sample"
	"github.com/anishathalye/porcupine"
	"pgregory.net/rapid"
)

// concProg is a concurrent program on one object: a sequential prefix, then goroutines with their calls.
type concProg struct {
	Spec   Spec    `json:"spec"`
	Shared []Spec  `json:"shared,omitempty"` // metrics attached to one Core instead of Spec
	Pre    []Op    `json:"pre"`
	Th     [][]Op  `json:"th"` // push (N odd: through the lock and Unsafe methods), clear, read (N: which), bad (N: which)
	Scheds []Sched `json:"scheds"`
}

// Sched is a schedule: which goroutine goes on at each synchronisation point (see vsync.Run).
type Sched []int

func (s Sched) bytes() []byte {
	b := make([]byte, len(s))
	for i, v := range s {
		b[i] = byte(v)
	}
	return b
}

// concObj is the object under test with its call alternatives.
type concObj struct {
	push  func(x []float64, via int) error
	clear func(via int)
	reads []func() string
	bad   []func() string
}

func str1(v float64, err error) string {
	if err != nil {
		return "error"
	}
	return g(v)
}

func (c *concProg) build() (*concObj, error) {
	if len(c.Shared) > 0 {
		return c.buildShared()
	}
	in, err := c.Spec.build()
	if err != nil {
		return nil, err
	}
	o := &concObj{}
	o.push = func(x []float64, via int) error { return in.Push(x) }
	o.clear = func(via int) { in.Clear() }
	switch m := in.Obj.(type) {
	case *moment.Core:
		safe, unsafe := c.Spec, c.Spec
		safe.Unsafe, unsafe.Unsafe = false, true
		is, iu := safe.wrapMCore(m), unsafe.wrapMCore(m)
		o.push = func(x []float64, via int) error { return [2]*Inst{is, iu}[via%2].Push(x) }
		o.clear = func(via int) { [2]*Inst{is, iu}[via%2].Clear() }
		o.reads = append(o.reads, func() string { return fmt.Sprint(m.Count()) }, func() string { return str1(m.Mean()) })
		for _, k := range c.Spec.Sums {
			k := k
			o.reads = append(o.reads, func() string { return str1(m.Sum(k)) })
		}
		o.reads = append(o.reads, func() string { return obsString(iu.Observe()) })
		o.bad = append(o.bad, func() string { return str1(m.Sum(0)) }, func() string { return str1(m.Sum(c.Spec.maxSum() + 3)) })
	case *joint.Core:
		safe, unsafe := c.Spec, c.Spec
		safe.Unsafe, unsafe.Unsafe = false, true
		is, iu := safe.wrapJCore(m), unsafe.wrapJCore(m)
		o.push = func(x []float64, via int) error { return [2]*Inst{is, iu}[via%2].Push(x) }
		o.clear = func(via int) { [2]*Inst{is, iu}[via%2].Clear() }
		o.reads = append(o.reads, func() string { return fmt.Sprint(m.Count()) }, func() string { return str1(m.Mean(0)) }, func() string { return str1(m.Mean(c.Spec.Vars - 1)) })
		for _, tu := range c.Spec.Tup {
			tu := tu
			o.reads = append(o.reads, func() string { return str1(m.Sum(tu...)) })
		}
		o.reads = append(o.reads, func() string { return obsString(iu.Observe()) })
		o.bad = append(o.bad, func() string { return str1(m.Sum(1)) }, func() string { return str1(m.Mean(-1)) },
			func() string { return str1(m.Mean(c.Spec.Vars)) },
			func() string { return str1(0, m.Push(1)) },
			func() string {
				m.Lock()
				defer m.Unlock()
				return str1(0, m.UnsafePush(1))
			})
	case *quantile.Quantile:
		for _, p := range c.Spec.Phis {
			p := float64(p)
			o.reads = append(o.reads, func() string { return str1(m.Value(p)) })
		}
		o.bad = append(o.bad, func() string { return str1(m.Value(0)) }, func() string { return str1(m.Value(1.5)) })
	default:
		o.reads = append(o.reads, func() string { return obsString(in.Observe()) })
		if j, ok := in.Obj.(jsimple); ok {
			o.bad = append(o.bad, func() string { return str1(0, j.Push(1)) }, func() string { return str1(0, j.Push(1, 2, 3)) })
		}
		if j, ok := in.Obj.(interface {
			Push(...float64) error
			Values() (map[string]float64, error)
		}); ok {
			o.bad = append(o.bad, func() string { return str1(0, j.Push(1)) })
		}
	}
	if in.Str != nil {
		o.bad = append(o.bad, in.Str)
	}
	return o, nil
}

func (c *concProg) buildShared() (*concObj, error) {
	var ins []*Inst
	var mc []*moment.CoreConfig
	var jc []*joint.CoreConfig
	o := &concObj{}
	for _, s := range c.Shared {
		s.Uninit = true
		in, err := s.build()
		if err != nil {
			return nil, err
		}
		ins = append(ins, in)
		switch m := in.Obj.(type) {
		case moment.CoreWrapper:
			mc = append(mc, m.Config())
		case joint.CoreWrapper:
			jc = append(jc, m.Config())
		}
		o.reads = append(o.reads, func() string { return obsString(in.Observe()) })
		if in.Str != nil {
			o.bad = append(o.bad, in.Str)
		}
	}
	push := []func([]float64) error{}
	clear := []func(){}
	for _, in := range ins {
		push, clear = append(push, in.Push), append(clear, in.Clear)
	}
	if len(mc) > 0 {
		cfg, err := moment.MergeConfigs(mc...)
		if err != nil {
			return nil, err
		}
		cr, err := moment.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		for _, in := range ins {
			in.Obj.(moment.CoreWrapper).SetCore(cr)
		}
		push, clear = append(push, func(x []float64) error { return cr.Push(x[0]) }), append(clear, cr.Clear)
		o.reads = append(o.reads, func() string { return fmt.Sprint(cr.Count()) })
	} else {
		cfg, err := joint.MergeConfigs(jc...)
		if err != nil {
			return nil, err
		}
		cr, err := joint.NewCore(cfg)
		if err != nil {
			return nil, err
		}
		for _, in := range ins {
			in.Obj.(joint.CoreWrapper).SetCore(cr)
		}
		push, clear = append(push, func(x []float64) error { return cr.Push(x...) }), append(clear, cr.Clear)
		o.reads = append(o.reads, func() string { return fmt.Sprint(cr.Count()) })
	}
	o.push = func(x []float64, via int) error { return push[via%len(push)](x) }
	o.clear = func(via int) { clear[via%len(clear)]() }
	return o, nil
}

// do performs one call and gives its result as text.
func (o *concObj) do(op Op) string {
	switch op.O {
	case "push":
		return str1(0, o.push(floats(op.X), op.N))
	case "clear":
		o.clear(op.N)
		return "ok"
	case "read":
		return o.reads[op.N%len(o.reads)]()
	case "bad":
		if len(o.bad) == 0 {
			return o.reads[op.N%len(o.reads)]()
		}
		return o.bad[op.N%len(o.bad)]()
	}
	panic(engine.HarnessError{Msg: "unknown op " + op.O})
}

func (c *concProg) arity() int {
	if len(c.Shared) > 0 {
		return c.Shared[0].arity()
	}
	return c.Spec.arity()
}

// replayer answers what the library itself returns when the calls are made one after another.
type replayer struct {
	c    *concProg
	memo map[string]string
}

// call returns the result of op after the prefix and the mutating calls of the state.
func (r *replayer) call(state string, op Op, opIdx int) string {
	key := state + "|" + fmt.Sprint(opIdx)
	if v, ok := r.memo[key]; ok {
		return v
	}
	o, err := r.c.build()
	if err != nil {
		panic(engine.HarnessError{Msg: "rebuild: " + err.Error()})
	}
	for _, p := range r.c.Pre {
		o.do(p)
	}
	for _, b := range []byte(state) {
		o.do(r.c.flat()[int(b)])
	}
	v := o.do(op)
	r.memo[key] = v
	return v
}

// flat lists all calls of the threads, in thread order; the final reads come after them.
func (c *concProg) flat() []Op {
	var r []Op
	for _, t := range c.Th {
		r = append(r, t...)
	}
	return r
}

type concEvent struct {
	idx       int // index in flat, or -1-k for the k-th final read
	client    int
	call, ret int64
	out       string
}

// linearizable searches for a sequential order of the calls in which the library itself gives the same results.
func (c *concProg) linearizable(r *replayer, ev []concEvent, nreads int) (porcupine.CheckResult, porcupine.Model) {
	ops := c.flat()
	model := porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(state, input, output interface{}) (bool, interface{}) {
			st, i, out := state.(string), input.(int), output.(string)
			op := Op{O: "read", N: -1 - i}
			if i >= 0 {
				op = ops[i]
			}
			if r.call(st, op, i) != out {
				return false, st
			}
			if op.O == "push" || op.O == "clear" || op.O == "bad" {
				if op.O != "bad" {
					return true, st + string([]byte{byte(i)})
				}
			}
			return true, st
		},
		Equal: func(a, b interface{}) bool { return a.(string) == b.(string) },
		DescribeOperation: func(i, o interface{}) string {
			return fmt.Sprint(i, "=", o)
		},
	}
	var h []porcupine.Operation
	for _, e := range ev {
		h = append(h, porcupine.Operation{ClientId: e.client, Input: e.idx, Call: e.call, Output: e.out, Return: e.ret})
	}
	return porcupine.CheckOperationsTimeout(model, h, 20*time.Second), model
}

func (c *concProg) history(ev []concEvent) string {
	sort.Slice(ev, func(i, j int) bool { return ev[i].call < ev[j].call })
	ops := c.flat()
	var b []string
	for _, e := range ev {
		d := fmt.Sprintf("read#%d", -1-e.idx)
		if e.idx >= 0 {
			op := ops[e.idx]
			d = fmt.Sprintf("%s%v#%d", op.O, floats(op.X), op.N)
		}
		b = append(b, fmt.Sprintf("[%d..%d] goroutine %d %s -> %s", e.call, e.ret, e.client, d, e.out))
	}
	return strings.Join(b, "\n")
}

// overlapped says whether two calls of different goroutines overlap, at least one of them changing the object.
func (c *concProg) overlapped(ev []concEvent) bool {
	ops := c.flat()
	for _, a := range ev {
		for _, b := range ev {
			if a.client != b.client && a.idx >= 0 && b.idx >= 0 && a.call < b.ret && b.call < a.ret && (ops[a.idx].O == "push" || ops[a.idx].O == "clear") {
				return true
			}
		}
	}
	return false
}

func (c *concProg) bound() {
	n := 0
	for _, t := range c.Th {
		n += len(t)
	}
	if n > 200 {
		panic(engine.HarnessError{Msg: "program too long"})
	}
}

// runSched runs the program under generated schedules.
func runSched(c concProg, x *X) error {
	c.bound()
	rp := &replayer{c: &c, memo: map[string]string{}}
	for si, sc := range c.Scheds {
		var ev []concEvent
		var err error
		if vsync.Mode == "sched" {
			ev, err = c.controlled(sc)
		} else {
			vsync.SetNoise(uint64(si)*2654435761 + uint64(len(sc)) + 1)
			ev, err = c.real(sc, 1)
			vsync.SetNoise(0)
		}
		if err != nil {
			return err
		}
		if ev == nil {
			x.Label("step limit")
			continue
		}
		if c.overlapped(ev) {
			x.NonTrivial()
		}
		res, _ := c.linearizable(rp, ev, 0)
		switch res {
		case porcupine.Illegal:
			return fail("%s: no sequential order of the calls gives these results:\n%s", c.name(), c.history(ev))
		case porcupine.Unknown:
			x.Label("linearizability undecided")
		}
	}
	x.Label(c.name())
	return nil
}

func (c *concProg) name() string {
	if len(c.Shared) > 0 {
		return "shared " + c.Shared[0].Kind
	}
	return c.Spec.Kind
}

func (c *concProg) controlled(sc Sched) ([]concEvent, error) {
	var ev []concEvent
	var clock int64
	var berr error
	record := func(o *concObj, client, idx int, op Op) {
		clock++
		e := concEvent{idx: idx, client: client, call: clock}
		vsync.Yield("call")
		e.out = o.do(op)
		clock++
		e.ret = clock
		ev = append(ev, e)
	}
	res := vsync.Run(sc.bytes(), func() {
		o, err := c.build()
		if err != nil {
			berr = err
			return
		}
		for _, p := range c.Pre {
			o.do(p)
		}
		idx := 0
		for t, ops := range c.Th {
			t, ops, base := t, ops, idx
			idx += len(ops)
			vsync.Go(fmt.Sprintf("goroutine %d", t), func() {
				for k, op := range ops {
					record(o, t, base+k, op)
				}
			})
		}
		vsync.WaitAll()
		for k := range o.reads {
			record(o, len(c.Th), -1-k, Op{O: "read", N: k})
		}
	})
	switch {
	case berr != nil:
		return nil, fail("constructor: %v", berr)
	case len(res.Panics) > 0:
		return nil, fail("%s: %s\n%s", c.name(), res.Panics[0], c.history(ev))
	case res.Deadlock != "":
		return nil, fail("%s: deadlock: %s\ncompleted calls:\n%s", c.name(), res.Deadlock, c.history(ev))
	case res.Limit:
		return nil, nil
	}
	return ev, nil
}

// real runs the program on real goroutines; sc gives small delays before the calls.
func (c *concProg) real(sc Sched, reps int) ([]concEvent, error) {
	o, err := c.build()
	if err != nil {
		return nil, fail("constructor: %v", err)
	}
	for _, p := range c.Pre {
		o.do(p)
	}
	start := time.Now()
	now := func() int64 { return int64(time.Since(start)) }
	evs := make([][]concEvent, len(c.Th))
	var ready atomic.Int32
	var wg sync.WaitGroup
	idx := 0
	for t, ops := range c.Th {
		wg.Add(1)
		go func(t, base int, ops []Op) {
			defer wg.Done()
			ready.Add(1)
			for int(ready.Load()) < len(c.Th) {
				runtime.Gosched()
			}
			for k, op := range ops {
				if len(sc) > 0 {
					spin(sc[(base+k)%len(sc)])
				}
				e := concEvent{idx: base + k, client: t, call: now()}
				e.out = o.do(op)
				e.ret = now()
				evs[t] = append(evs[t], e)
			}
		}(t, idx, ops)
		idx += len(ops)
	}
	wg.Wait()
	var ev []concEvent
	for _, e := range evs {
		ev = append(ev, e...)
	}
	for k := range o.reads {
		e := concEvent{idx: -1 - k, client: len(c.Th), call: now()}
		e.out = o.do(Op{O: "read", N: k})
		e.ret = now()
		ev = append(ev, e)
	}
	return ev, nil
}

var sink int64

func spin(k int) {
	switch {
	case k == 0:
	case k == 1:
		runtime.Gosched()
	default:
		n := int64(0)
		for i := 0; i < k*40; i++ {
			n += int64(i)
		}
		atomic.AddInt64(&sink, n)
	}
}

func runReal(c concProg, x *X) error {
	c.bound()
	rp := &replayer{c: &c, memo: map[string]string{}}
	for _, sc := range c.Scheds {
		ev, err := c.real(sc, 1)
		if err != nil {
			return err
		}
		if c.overlapped(ev) {
			x.NonTrivial()
		}
		res, _ := c.linearizable(rp, ev, 0)
		switch res {
		case porcupine.Illegal:
			return fail("%s: no sequential order of the calls gives these results:\n%s", c.name(), c.history(ev))
		case porcupine.Unknown:
			x.Label("linearizability undecided")
		}
	}
	x.Label(c.name())
	return nil
}

func genProg(maxTh, maxOps, nsched, schedLen int) func(t *rapid.T) concProg {
	return func(t *rapid.T) concProg {
		var c concProg
		c.Spec.Impl.Impl = -1
		if rapid.IntRange(0, 7).Draw(t, "form") == 0 {
			sh := genShared(t)
			c.Shared = sh.Members
			for i := range c.Shared {
				if c.Shared[i].W > 3 {
					c.Shared[i].W = 3
				}
				c.Shared[i].Uninit = false
			}
			if len(c.Shared) > 3 {
				c.Shared = c.Shared[:3]
			}
		} else {
			ks := append([]string{}, uniKinds...)
			ks = append(ks, jointKinds...)
			ks = append(ks, coreKinds...)
			ks = append(ks, coreKinds...)
			ks = append(ks, aggKinds...)
			ks = append(ks, aggKinds...)
			c.Spec = drawSpec(t, ks, 4)
			if c.Spec.Lag > 2 {
				c.Spec.Lag = 2
			}
			if len(c.Spec.Tup) > 2 {
				c.Spec.Tup = c.Spec.Tup[:2]
			}
			if len(c.Spec.Members) > 3 {
				c.Spec.Members = c.Spec.Members[:3]
			}
		}
		ar := c.arity()
		val := rapid.Custom(func(t *rapid.T) F { return F(rapid.IntRange(-9, 9).Draw(t, "v")) })
		point := func(t *rapid.T) []F { return rapid.SliceOfN(val, ar, ar).Draw(t, "x") }
		pre := rapid.Custom(func(t *rapid.T) Op { return Op{O: "push", X: point(t)} })
		c.Pre = rapid.SliceOfN(pre, 0, 5).Draw(t, "pre")
		opGen := rapid.Custom(func(t *rapid.T) Op {
			n := rapid.IntRange(0, 7).Draw(t, "n")
			switch r := rapid.IntRange(0, 19).Draw(t, "op"); {
			case r < 9:
				return Op{O: "push", X: point(t), N: n}
			case r < 16:
				return Op{O: "read", N: n}
			case r < 18:
				return Op{O: "bad", N: n}
			default:
				return Op{O: "clear", N: n}
			}
		})
		nt := rapid.IntRange(2, maxTh).Draw(t, "threads")
		for i := 0; i < nt; i++ {
			c.Th = append(c.Th, rapid.SliceOfN(opGen, 1, maxOps).Draw(t, "th"))
		}
		density := rapid.IntRange(1, 3).Draw(t, "density")
		steps := [][]int{{0, 1, 2, 3}, {0, 0, 0, 1, 2}, {0, 0, 0, 0, 0, 0, 0, 0, 1, 2}}[density-1]
		step := rapid.SampledFrom(steps)
		for i := 0; i < nsched; i++ {
			c.Scheds = append(c.Scheds, rapid.SliceOfN(step, min(rapid.IntRange(0, 4).Draw(t, "minlen")*8, schedLen), schedLen).Draw(t, "sched"))
		}
		return c
	}
}

// distinctCase: every goroutine uses its own objects; nothing may be shared behind their backs.
type distinctCase struct {
	Th   []distinctThread `json:"th"`
	Reps int              `json:"reps"`
}

type distinctThread struct {
	Spec Spec `json:"spec"`
	Ops  []Op `json:"ops"`
}

func genDistinct(t *rapid.T) distinctCase {
	c := distinctCase{Reps: rapid.IntRange(1, 3).Draw(t, "reps")}
	n := rapid.IntRange(2, 5).Draw(t, "threads")
	same := rapid.IntRange(0, 2).Draw(t, "same") == 0
	kind := rapid.SampledFrom(allKinds()).Draw(t, "kindall")
	for i := 0; i < n; i++ {
		ks := allKinds()
		if same {
			ks = []string{kind}
		}
		s := drawSpec(t, ks, 8)
		if s.Kind == "moment" && rapid.IntRange(0, 2).Draw(t, "hi") == 0 {
			s.K = rapid.IntRange(5, 24).Draw(t, "k")
		}
		if s.Kind == "mcore" && rapid.IntRange(0, 2).Draw(t, "hi") == 0 {
			s.Sums = append(s.Sums, rapid.IntRange(5, 24).Draw(t, "k"))
		}
		c.Th = append(c.Th, distinctThread{s, s.drawOps(t, []int{3, 12}, 0, 0)})
	}
	return c
}

func (d distinctThread) results() (out []string, err error) {
	in, err := d.Spec.build()
	if err != nil {
		return nil, fail("constructor: %v", err)
	}
	for _, op := range d.Ops {
		e := in.apply(op)
		out = append(out, fmt.Sprint(e != nil)+" "+obsString(in.Observe()))
	}
	return out, nil
}

func runDistinct(c distinctCase, x *X) error {
	seq := make([][]string, len(c.Th))
	for rep := 0; rep < c.Reps; rep++ {
		got := make([][]string, len(c.Th))
		errs := make([]error, len(c.Th))
		pan := make([]any, len(c.Th))
		var wg sync.WaitGroup
		var ready atomic.Int32
		for i := range c.Th {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { pan[i] = recover() }()
				ready.Add(1)
				for int(ready.Load()) < len(c.Th) {
					runtime.Gosched()
				}
				got[i], errs[i] = c.Th[i].results()
			}(i)
		}
		wg.Wait()
		for i := range c.Th {
			if pan[i] != nil {
				return fail("%s used beside other metrics: panic: %v", c.Th[i].Spec.Kind, pan[i])
			}
			if errs[i] != nil {
				return errs[i]
			}
			if seq[i] == nil {
				s, err := c.Th[i].results() // after the concurrent use: nothing was warmed up before it
				if err != nil {
					return err
				}
				seq[i] = s
			}
			for k := range seq[i] {
				if got[i][k] != seq[i][k] {
					return fail("%s used beside other metrics, step %d: %s, alone: %s", c.Th[i].Spec.Kind, k, got[i][k], seq[i][k])
				}
			}
		}
	}
	if len(c.Th) > 1 {
		x.NonTrivial()
	}
	for _, t := range c.Th {
		x.Label(t.Spec.Kind)
	}
	return nil
}

// resConc: concurrent pushes and reads of a Reservoir.
type resConc struct {
	Size   int     `json:"size"`
	Th     [][]Op  `json:"th"`
	Scheds []Sched `json:"scheds"`
}

func genResConc(nsched int) func(t *rapid.T) resConc {
	return func(t *rapid.T) resConc {
		c := resConc{Size: rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8}).Draw(t, "size")}
		opGen := rapid.Custom(func(t *rapid.T) Op {
			if rapid.IntRange(0, 3).Draw(t, "op") == 0 {
				return Op{O: "read"}
			}
			return Op{O: "push"}
		})
		n := rapid.IntRange(2, 4).Draw(t, "threads")
		for i := 0; i < n; i++ {
			c.Th = append(c.Th, rapid.SliceOfN(opGen, 1, 6).Draw(t, "th"))
		}
		for i := 0; i < nsched; i++ {
			c.Scheds = append(c.Scheds, rapid.SliceOfN(rapid.IntRange(0, 3), 0, 30).Draw(t, "sched"))
		}
		return c
	}
}

type resRead struct {
	call, ret int64
	got       []interface{}
}

func (c resConc) judge(pushCall, pushRet map[int]int64, reads []resRead, total int) error {
	for _, r := range reads {
		seen := map[int]bool{}
		for _, v := range r.got {
			e, ok := v.(*elem)
			if !ok || seen[e.id] {
				return fail("Reservoir of size %d: Sample holds %v: not a pushed occurrence, or one twice", c.Size, v)
			}
			seen[e.id] = true
			if pushCall[e.id] > r.ret {
				return fail("Reservoir of size %d: Sample holds an element pushed later", c.Size)
			}
		}
		lo, hi := 0, 0
		for id := 0; id < total; id++ {
			if pushRet[id] < r.call {
				lo++
			}
			if pushCall[id] < r.ret {
				hi++
			}
		}
		if lo > c.Size {
			lo = c.Size
		}
		if hi > c.Size {
			hi = c.Size
		}
		if len(r.got) < lo || len(r.got) > hi {
			return fail("Reservoir of size %d: Sample has %d elements, while between %d and %d were pushed", c.Size, len(r.got), lo, hi)
		}
	}
	return nil
}

func runResConc(controlled bool) func(c resConc, x *X) error {
	return func(c resConc, x *X) error {
		total := 0
		for _, t := range c.Th {
			for _, o := range t {
				if o.O == "push" {
					total++
				}
			}
		}
		for _, sc := range c.Scheds {
			r := &sample.Reservoir{Size: c.Size}
			var mu sync.Mutex
			call, ret := map[int]int64{}, map[int]int64{}
			var reads []resRead
			var clock atomic.Int64
			thread := func(base int, ops []Op, yield func(int)) {
				id := base
				for k, op := range ops {
					yield(base + k)
					if op.O == "push" {
						a := clock.Add(1)
						r.Push(&elem{id})
						b := clock.Add(1)
						mu.Lock()
						call[id], ret[id] = a, b
						mu.Unlock()
						id++
						continue
					}
					a := clock.Add(1)
					g := r.Sample()
					b := clock.Add(1)
					mu.Lock()
					reads = append(reads, resRead{a, b, g})
					mu.Unlock()
				}
			}
			pushes := func(ops []Op) (n int) {
				for _, o := range ops {
					if o.O == "push" {
						n++
					}
				}
				return
			}
			if controlled && vsync.Mode == "sched" {
				res := vsync.Run(sc.bytes(), func() {
					base := 0
					for _, ops := range c.Th {
						ops, b := ops, base
						base += pushes(ops)
						vsync.Go("goroutine", func() { thread(b, ops, func(int) { vsync.Yield("call") }) })
					}
					vsync.WaitAll()
				})
				if len(res.Panics) > 0 {
					return fail("Reservoir: %s", res.Panics[0])
				}
				if res.Deadlock != "" {
					return fail("Reservoir: deadlock: %s", res.Deadlock)
				}
				if res.Limit {
					continue
				}
			} else {
				var wg sync.WaitGroup
				base := 0
				for _, ops := range c.Th {
					wg.Add(1)
					go func(b int, ops []Op) {
						defer wg.Done()
						thread(b, ops, func(k int) {
							if len(sc) > 0 {
								spin(sc[k%len(sc)])
							}
						})
					}(base, ops)
					base += pushes(ops)
				}
				wg.Wait()
			}
			a := clock.Add(1)
			g := r.Sample()
			reads = append(reads, resRead{a, clock.Add(1), g})
			if err := c.judge(call, ret, reads, total); err != nil {
				return err
			}
		}
		if total > 1 && len(c.Th) > 1 {
			x.NonTrivial()
		}
		return nil
	}
}

func init() {
	const rule = "non-trivial: two calls of different goroutines overlap, at least one of them changing the object"
	engine.Reg("C18", "schedules", "concurrent programs of 2-3 goroutines on one metric, Core, shared Core or aggregate under generated schedules of every lock operation and goroutine start: no deadlock, no panic, and porcupine finds a sequential order in which the library itself gives every result; "+rule,
		60000, 900000, genProg(3, 4, 6, 60), runSched, engine.Binary("sched"), engine.Retry(3))
	engine.Reg("C18", "reservoir-schedules", "concurrent pushes and reads of a Reservoir under generated schedules: each sample holds distinct pushed elements, as many as the pushes before and during it allow; non-trivial: two or more goroutines and pushes",
		3000, 60000, genResConc(6), runResConc(true), engine.Binary("sched"), engine.Retry(3))
	engine.Reg("C18", "race", "the same programs, with up to 4 goroutines, on real goroutines in a build with the race detector; "+rule,
		6000, 120000, genProg(4, 5, 3, 20), runReal, engine.Binary("race"), engine.Retry(20))
	engine.Reg("C18", "race-distinct", "goroutines which create and use objects of their own, under the race detector, each result equal to that of the same calls made alone; non-trivial: two or more goroutines",
		2400, 48000, genDistinct, runDistinct, engine.Binary("race"), engine.Retry(20))
	engine.Reg("C18", "race-reservoir", "concurrent pushes and reads of a Reservoir on real goroutines under the race detector; non-trivial: two or more goroutines and pushes",
		1200, 24000, genResConc(3), runResConc(false), engine.Binary("race"), engine.Retry(20))
}
