package props

import (
	"math"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile"
	"pgregory.net/rapid"
)

type hmCase struct {
	W      int  `json:"w"`
	Global bool `json:"global,omitempty"`
	Ops    []Op `json:"ops"`
	Gap    int  `json:"gap,omitempty"` // which reads are left out
}

func genHM(scales []int, patN, patProb, maxW int) func(t *rapid.T) hmCase {
	return func(t *rapid.T) hmCase {
		c := hmCase{W: drawWindow(t, maxW)}
		if c.W == 0 {
			c.Global = rapid.Bool().Draw(t, "global")
		}
		c.Ops = drawHistory(t, histOpt{arity: 1, pr: quantProfile(t), clears: true, scales: scales, patN: patN, patProb: patProb})
		c.Gap = drawGaps(t)
		return c
	}
}

func runHM(c hmCase, x *X) error {
	var m *quantile.HeapMedian
	if c.Global {
		m = quantile.NewGlobalHeapMedian()
	} else {
		var err error
		if m, err = quantile.NewHeapMedian(c.W); err != nil {
			return fail("constructor: %v", err)
		}
	}
	var all []float64
	check := func(i int) error {
		win := sorted(tailWindow(all, c.W))
		v, err := m.Value()
		if len(win) == 0 {
			if err == nil {
				return fail("step %d: Value on an empty metric returned %v without an error", i, v)
			}
			return nil
		}
		if err != nil {
			return fail("step %d: Value failed: %v", i, err)
		}
		n := len(win)
		lo, hi := win[(n-1)/2], win[n/2]
		if n%2 == 1 {
			if v != lo {
				return fail("step %d: got %s want %s; window %v", i, g(v), g(lo), brief(win))
			}
		} else if math.IsInf(lo, 0) || math.IsInf(hi, 0) {
			x.Label("between infinities")
		} else if !closeTo(v, lo/2+hi/2, math.Max(math.Abs(lo), math.Abs(hi))) {
			return fail("step %d: got %s want %s; window %v", i, g(v), g(lo/2+hi/2), brief(win))
		}
		return nil
	}
	if err := check(-1); err != nil {
		return err
	}
	evicted := 0
	st := steps(c.Ops, 1)
	for i, op := range st {
		switch op.O {
		case "push":
			if c.W > 0 && len(all) >= c.W {
				evicted++
			}
			if err := m.Push(float64(op.X[0])); err != nil {
				return fail("step %d: Push: %v", i, err)
			}
			all = append(all, float64(op.X[0]))
		case "clear":
			m.Clear()
			all = nil
		}
		if (len(st) < 200 || i%9 == 0 || len(st)-i < 20) && readAt(c.Gap, i, len(st)) {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	if evicted > 0 {
		x.Label("eviction")
	}
	if evicted > c.W || (c.W == 0 && len(all) > 3) {
		x.NonTrivial()
	}
	return nil
}

func init() {
	rule := "non-trivial: the whole window was replaced at least once (or more than three values in a global one)"
	engine.Reg("C05", "history", "random push/clear histories read at every step; "+rule, 50000, 1000000, genHM(nil, 0, 0, 30), runHM)
	engine.Reg("C05", "patterns", "long patterned runs through windows up to 300; "+rule, 5000, 100000, genHM([]int{0, 0, 4}, 800, 60, 300), runHM)
}
