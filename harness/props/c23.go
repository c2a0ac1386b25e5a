package props

import (
	"fmt"
	"math/rand"
	"runtime"
	"time"

	"verif/engine"

	"github.com/alexander-yu/stream/sample"
	"pgregory.net/rapid"
)

// memCase: n pushes of a shape through one object, the live heap measured against a bound in the window, lag and size.
type memCase struct {
	S      Spec  `json:"s"`
	N      int   `json:"n"`
	Shape  Pat   `json:"shape"`
	Read   int   `json:"read"`             // read every so many pushes (0: never)
	Cycles int   `json:"cycles,omitempty"` // clear this many times on the way
	Size   int   `json:"size,omitempty"`   // reservoir
	Res    bool  `json:"res,omitempty"`
	Mis    bool  `json:"mis,omitempty"` // misuse calls on the way
	Seed   int64 `json:"seed,omitempty"`
	Drift  int   `json:"drift,omitempty"` // 1 or -1: the whole stream rises or falls
}

const (
	memConst   = 96 << 10 // bytes any object may hold whatever its window
	memPer     = 700      // bytes per unit of window, lag or size
	memPerSkip = 3600     // a skip-list node of up to 64 levels
)

// live is the live heap. Two collections: the first may find objects of a cycle already under way.
func live() int64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func (s Spec) units() int64 {
	n := int64(s.W + s.Lag)
	if s.Kind == "jcore" {
		n *= int64(s.Vars)
	}
	for _, m := range s.Members {
		n += m.units()
	}
	return n
}

func (s Spec) memBound() int64 {
	per := int64(memPer)
	if s.Impl.Impl == 2 {
		per = memPerSkip
	}
	b := memConst + per*s.units()
	for _, m := range s.Members {
		b += m.memBound() - memConst
	}
	return b
}

func genMem(t *rapid.T) memCase {
	ks := []string{"max", "min", "mean", "moment", "std", "skew", "kurt", "ewma", "ewmmoment", "ewmstd", "quantile", "median", "iqr", "heapmedian", "autocov", "autocorr",
		"cov", "corr", "ewmcov", "ewmcorr", "mcore", "jcore", "agg", "jagg", "max", "min", "quantile", "heapmedian", "autocov", "autocorr", "mcore", "jcore", "agg", "jagg", "agg", "jagg"}
	c := memCase{S: drawSpec(t, ks, 200)}
	windowed := func(s *Spec) {
		switch s.Kind { // these hold everything when global
		case "quantile", "median", "iqr", "heapmedian":
			if s.W == 0 {
				s.W, s.Global = rapid.IntRange(1, 200).Draw(t, "w2"), false
			}
		}
		if (s.Kind == "autocov" || s.Kind == "autocorr") && rapid.Bool().Draw(t, "longlag") {
			s.Lag = rapid.IntRange(10, 100).Draw(t, "lag2")
		}
	}
	windowed(&c.S)
	failing := len(c.S.Members) > 0 && rapid.Bool().Draw(t, "failing")
	for i := range c.S.Members {
		m := &c.S.Members[i]
		windowed(m)
		m.Uninit = failing && m.isMomentMetric() && rapid.Bool().Draw(t, "uninit")
	}
	c.N = rapid.SampledFrom([]int{30000, 60000}).Draw(t, "n")
	switch c.S.Kind {
	case "jcore", "agg", "jagg", "cov", "corr", "ewmcov", "ewmcorr", "autocov", "autocorr":
		c.N = 20000
	}
	c.Shape = *drawPat(t, profile{g: moderate(-100, 100), pa: pair(moderate(-100, 100), moderate(-1, 1))}, 10)
	c.Shape.N = 997
	if c.S.Kind == "max" || c.S.Kind == "min" {
		c.Shape.Kind = rapid.SampledFrom([]string{"up", "down", "uni", "dup", "const", "zigzag"}).Draw(t, "shape")
	}
	c.Read = rapid.SampledFrom([]int{0, 7, 100, 1}).Draw(t, "read")
	if c.Read > 0 && c.N/c.Read > 3000 {
		c.Read = c.N / 3000
	}
	c.Drift = rapid.SampledFrom([]int{0, 0, 1, -1}).Draw(t, "drift")
	if c.S.Kind == "max" || c.S.Kind == "min" {
		c.Drift = rapid.SampledFrom([]int{0, 1, -1}).Draw(t, "drift1")
	}
	c.Mis = rapid.Bool().Draw(t, "mis")
	c.Cycles = rapid.SampledFrom([]int{0, 0, 0, 1, 5, 300}).Draw(t, "cycles")
	return c
}

func runMem(c memCase, x *X) error {
	pts := c.Shape.Expand(c.S.arity())
	base, gos := live(), runtime.NumGoroutine()
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	fails := false
	for _, m := range c.S.Members {
		fails = fails || m.Uninit // its Push and Value report an error
	}
	bound := c.S.memBound()
	var pushErr error
	tick := 0
	remaining := func(atMost int) int { // how many more goroutines there are, once those on their way out have gone
		extra := runtime.NumGoroutine() - gos
		for i := 0; i < 100 && extra > atMost; i++ {
			time.Sleep(time.Millisecond)
			extra = runtime.NumGoroutine() - gos
		}
		return extra
	}
	feed := func(n int) {
		for i := 0; i < n; i++ {
			p := pts[i%len(pts)]
			q := make([]float64, len(p)) // values that keep changing, so that nothing is shared
			for j := range p {
				q[j] = p[j] + float64(i%4096)*1e-3
				if c.Drift != 0 {
					q[j] = p[j]*1e-3 + float64(c.Drift*tick)
				}
			}
			tick++
			if tick%500 == 0 && remaining(200) > 200 { // reported below; going on would only use up memory
				return
			}
			if err := in.Push(q); err != nil && pushErr == nil && !fails {
				pushErr = err
			}
			if c.Read > 0 && i%c.Read == 0 {
				in.Observe()
				in.str()
				if in.Cfg != nil {
					in.Cfg()
				}
			}
			if c.Mis && i%50 == 0 && c.S.arity() > 1 {
				in.Push([]float64{1})
			}
			if c.Cycles > 0 && i%(1+n/c.Cycles) == n/c.Cycles {
				in.Clear()
			}
		}
	}
	feed(c.N)
	if pushErr != nil {
		return fail("Push: %v", pushErr)
	}
	if extra := remaining(0); extra > 8+len(c.S.Members) {
		return fail("%s: %d goroutines remain after %d pushes", c.S.Kind, extra, tick)
	}
	if fails {
		x.Label("failing members")
	}
	held := live() - base
	x.Obs(float64(held)/float64(bound), func() string {
		return fmt.Sprintf("%s w=%d lag=%d: %d bytes of %d", c.S.Kind, c.S.W, c.S.Lag, held, bound)
	})
	if held > bound {
		return fail("%s with window %d and lag %d holds %d bytes after %d pushes; the bound is %d", c.S.Kind, c.S.W, c.S.Lag, held, c.N, bound)
	}
	in.Clear()
	after := live() - base
	if after > bound {
		return fail("%s with window %d holds %d bytes after Clear; the bound is %d", c.S.Kind, c.S.W, after, bound)
	}
	if err := in.Push(pts[0]); err != nil && !fails { // keeps the object alive
		return fail("Push after Clear: %v", err)
	}
	runtime.KeepAlive(pts)
	x.Label(c.S.Kind)
	if c.Drift != 0 {
		x.Label("monotone stream")
	}
	if int64(c.N)*8 > bound {
		x.NonTrivial()
	}
	return nil
}

// freeCase: objects that hold everything until Clear.
type freeCase struct {
	S     Spec `json:"s"`
	N     int  `json:"n"`
	Rem   int  `json:"rem"` // containers: remove instead of clear, leaving this many
	Again int  `json:"again"`
}

func genFree(t *rapid.T) freeCase {
	c := freeCase{S: drawSpec(t, []string{"quantile", "median", "iqr", "heapmedian", "avl", "rb", "skiplist"}, 1)}
	c.S.W, c.S.Global = 0, false
	if c.S.Impl.ML == 1 { // a list of one level takes quadratic time
		c.S.Impl.ML = 0
	}
	if c.S.Impl.P != 0 && (c.S.Impl.P < 0.1 || c.S.Impl.P > 0.9) {
		c.S.Impl.P = 0.5
	}
	if c.S.Impl.ML != 0 && c.S.Impl.ML < 12 {
		c.S.Impl.ML = 12
	}
	c.N = rapid.SampledFrom([]int{5000, 15000}).Draw(t, "n")
	if rapid.Bool().Draw(t, "rem") {
		c.Rem = rapid.IntRange(1, 20).Draw(t, "left")
	}
	c.Again = rapid.SampledFrom([]int{0, 0, 2}).Draw(t, "again")
	return c
}

func runFree(c freeCase, x *X) error {
	base := live()
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	r := rand.New(rand.NewSource(1))
	for round := 0; round <= c.Again; round++ {
		var vals []float64
		for i := 0; i < c.N; i++ {
			v := r.Float64()
			vals = append(vals, v)
			if err := in.Push([]float64{v}); err != nil {
				return fail("Push: %v", err)
			}
		}
		full := live() - base
		if full > memConst && int64(c.N)*8 > memConst/2 {
			x.NonTrivial()
		}
		if c.S.isContainer() && c.Rem > 0 {
			r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
			for _, v := range vals[c.Rem:] {
				in.Rem(v)
			}
		} else {
			in.Clear()
		}
		vals = nil
		left := live() - base
		if left > memConst {
			return fail("%s holds %d bytes after its %d values are gone (%d before)", c.S.Kind, left, c.N, full)
		}
		in.Clear()
	}
	if err := in.Push([]float64{1}); err != nil {
		return fail("Push: %v", err)
	}
	x.Label(c.S.Kind)
	return nil
}

func genMemRes(t *rapid.T) memCase {
	return memCase{Res: true, Size: rapid.SampledFrom([]int{1, 2, 10, 50, 100}).Draw(t, "size"), N: rapid.SampledFrom([]int{4000, 8000}).Draw(t, "n"),
		Read: rapid.SampledFrom([]int{0, 3, 100}).Draw(t, "read"), Seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
}

func runMemRes(c memCase, x *X) error {
	rand.Seed(c.Seed)
	base := live()
	r := &sample.Reservoir{Size: c.Size}
	const payload = 512
	for i := 0; i < c.N; i++ {
		b := make([]byte, payload)
		r.Push(&b)
		if c.Read > 0 && i%c.Read == 0 {
			r.Sample()
		}
	}
	held := live() - base
	bound := int64(memConst + c.Size*(payload+200))
	x.Obs(float64(held)/float64(bound), nil)
	if held > bound {
		return fail("a reservoir of %d elements of %d bytes holds %d bytes after %d pushes; the bound is %d", c.Size, payload, held, c.N, bound)
	}
	r.Push(1)
	x.NonTrivial()
	return nil
}

func init() {
	engine.Reg("C23", "window", "tens of thousands of pushes (with reads, misuse and Clears on the way): live heap after collection within a constant plus an amount per unit of window, lag and size, also after Clear; non-trivial: one retained float per push would exceed the bound",
		480, 9600, genMem, runMem, engine.FreshOnly())
	engine.Reg("C23", "release", "global order statistics and containers: what 5000 or 15000 values took is free after Clear or after removing them; non-trivial: they took more than the bound",
		160, 3200, genFree, runFree, engine.FreshOnly())
	engine.Reg("C23", "reservoir", "reservoirs of elements with 512 bytes each; every case is non-trivial", 160, 3200, genMemRes, runMemRes, engine.FreshOnly())
}
