package props

import (
	"math"

	"verif/engine"

	"github.com/alexander-yu/stream/minmax"
	"pgregory.net/rapid"
)

type mmCase struct {
	Min bool `json:"min"`
	W   int  `json:"w"`
	New bool `json:"global,omitempty"` // use NewGlobal*
	Ops []Op `json:"ops"`
	Gap int  `json:"gap,omitempty"` // which reads are left out
}

func buildMM(min bool, w int, global bool) (simple, error) {
	switch {
	case min && global:
		return minmax.NewGlobalMin(), nil
	case min:
		return minmax.NewMin(w)
	case global:
		return minmax.NewGlobalMax(), nil
	}
	return minmax.NewMax(w)
}

func genMM(scales []int, patN, patProb, maxW int) func(t *rapid.T) mmCase {
	return func(t *rapid.T) mmCase {
		c := mmCase{Min: rapid.Bool().Draw(t, "min"), W: drawWindow(t, maxW)}
		if c.W == 0 {
			c.New = rapid.Bool().Draw(t, "global")
		}
		pr := orderProfile(t, true)
		c.Ops = drawHistory(t, histOpt{arity: 1, pr: pr, clears: true, scales: scales, patN: patN, patProb: patProb})
		c.Gap = drawGaps(t)
		return c
	}
}

func runMM(c mmCase, x *X) error {
	m, err := buildMM(c.Min, c.W, c.New)
	if err != nil {
		return fail("constructor: %v", err)
	}
	var all []float64
	check := func(i int) error {
		win := tailWindow(all, c.W)
		v, err := m.Value()
		if len(win) == 0 {
			if err == nil {
				return fail("step %d: Value on an empty metric returned %v without an error", i, v)
			}
			return nil
		}
		if err != nil {
			return fail("step %d: Value failed: %v", i, err)
		}
		want := win[0]
		for _, y := range win {
			if (c.Min && y < want) || (!c.Min && y > want) {
				want = y
			}
		}
		if v != want {
			return fail("step %d: window %d: got %s want %s", i, c.W, g(v), g(want))
		}
		return nil
	}
	if err := check(-1); err != nil {
		return err
	}
	evict, leave := false, false
	st := steps(c.Ops, 1)
	for i, op := range st {
		switch op.O {
		case "push":
			v := float64(op.X[0])
			if c.W > 0 && len(all) >= c.W {
				evict = true
				old := all[len(all)-c.W]
				ext := old
				for _, y := range all[len(all)-c.W:] {
					if c.Min {
						ext = math.Min(ext, y)
					} else {
						ext = math.Max(ext, y)
					}
				}
				if ext == old {
					leave = true
				}
			}
			if err := m.Push(v); err != nil {
				return fail("step %d: Push(%v): %v", i, v, err)
			}
			all = append(all, v)
		case "clear":
			m.Clear()
			all = nil
		}
		if (len(st) < 400 || i%7 == 0 || len(st)-i < 50) && readAt(c.Gap, i, len(st)) {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	if evict {
		x.Label("eviction")
	}
	if leave {
		x.Label("extreme leaves the window")
		x.NonTrivial()
	}
	if c.W == 0 && len(all) > 1 {
		x.Label("global")
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C01", "history", "random push/clear histories read at every step; non-trivial: the extreme itself expired from the window at least once, or a global metric saw two values",
		60000, 1000000, genMM(nil, 0, 0, 40), runMM)
	engine.Reg("C01", "patterns", "long patterned runs (monotone, saw, duplicates, ...) mixed with pushes and clears; non-trivial as in history",
		6000, 100000, genMM([]int{0, 0, 4}, 3000, 60, 1200), runMM)
}
