package props

import (
	"fmt"

	"verif/engine"

	"pgregory.net/rapid"
)

// core histories: every statistic of a moment.Core or joint.Core, with and without decay.

func genMCore(decay bool, hi int, scales []int, patN, patProb, maxW int) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		s := Spec{Kind: "mcore", W: drawWindow(t, maxW), Unsafe: rapid.Bool().Draw(t, "unsafe")}
		s.Impl.Impl = -1
		if decay {
			s.W = 0
			s.D = F(drawDecay(t))
		}
		s.Sums = rapid.SliceOfN(rapid.IntRange(1, hi), 0, 4).Draw(t, "sums")
		if hi > 10 && rapid.Bool().Draw(t, "high") {
			s.Sums = append(s.Sums, rapid.IntRange(hi/2, hi).Draw(t, "highsum"))
		}
		return momCase{S: s, Gap: drawGaps(t), Ops: drawHistory(t, histOpt{arity: 1, pr: momProfile(t, s.maxSum()), clears: true, scales: scales, patN: patN, patProb: patProb})}
	}
}

func genJCore(decay bool, scales []int, patN, patProb, maxW int) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		s := Spec{Kind: "jcore", W: drawWindow(t, maxW), Unsafe: rapid.Bool().Draw(t, "unsafe")}
		s.Impl.Impl = -1
		s.Vars = rapid.SampledFrom([]int{2, 2, 2, 3, 3, 4, 5}).Draw(t, "vars")
		s.Tup = drawTuples(t, s.Vars, 4)
		s.NoVars = rapid.Bool().Draw(t, "novars")
		if decay {
			s.W = 0
			s.D = F(drawDecay(t))
		}
		return momCase{S: s, Gap: drawGaps(t), Ops: drawHistory(t, histOpt{arity: s.Vars, pr: momProfile(t, 8), clears: true, scales: scales, patN: patN, patProb: patProb})}
	}
}

// genWide: many variables or high exponents, few of them at a time.
func genWide(decay bool) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		s := Spec{Kind: "jcore", W: drawWindow(t, 8), Unsafe: rapid.Bool().Draw(t, "unsafe")}
		s.Impl.Impl = -1
		s.Vars = rapid.IntRange(2, 12).Draw(t, "vars")
		order := 1
		for n := rapid.IntRange(1, 3).Draw(t, "tuples"); n > 0; n-- {
			tu := make([]int, s.Vars)
			tot, abs := 1, 0
			for k := rapid.IntRange(1, 4).Draw(t, "exponents"); k > 0; k-- {
				hi := min(30, 48/tot-1)
				if hi < 1 {
					break
				}
				j := rapid.IntRange(0, s.Vars-1).Draw(t, "var")
				if tu[j] != 0 {
					continue
				}
				if hi > 3 && rapid.IntRange(0, 2).Draw(t, "low") > 0 {
					hi = 3
				}
				tu[j] = rapid.IntRange(1, hi).Draw(t, "e")
				tot *= tu[j] + 1
				abs += tu[j]
			}
			order = max(order, abs)
			s.Tup = append(s.Tup, tu)
		}
		s.NoVars = rapid.Bool().Draw(t, "novars")
		if decay {
			s.W = 0
			s.D = F(drawDecay(t))
		}
		return momCase{S: s, Gap: drawGaps(t), Ops: drawHistory(t, histOpt{arity: s.Vars, pr: momProfile(t, order), clears: true, scales: []int{0, 0, 5, 12}, patN: 0, patProb: 0})}
	}
}

func runCore(c momCase, x *X) error {
	in, err := c.S.build()
	if err != nil {
		return fail("NewCore: %v", err)
	}
	f := c.S.feeder()
	var tuples [][]int
	d := 1
	if c.S.Kind == "mcore" {
		for k := 1; k <= c.S.maxSum(); k++ {
			tuples = append(tuples, []int{k})
		}
	} else {
		d = c.S.Vars
		tuples = c.S.closure()
	}
	configured := map[string]bool{}
	if c.S.Kind == "mcore" {
		for _, k := range c.S.Sums {
			configured[tkey([]int{k})] = true
		}
	} else {
		for _, t := range tuples {
			configured[tkey(t)] = true
		}
	}
	checked, evictions, overlap := 0, 0, false
	overlap = len(c.S.Tup) > 1 || len(c.S.Sums) > 1
	st := c.scaled(steps(c.Ops, in.Arity))
	check := func(i int) error {
		obs := map[string]Obs{}
		for _, o := range in.Observe() {
			obs[o.Name] = o
		}
		n := f.m.n()
		wantN := n
		if c.S.D != 0 {
			wantN = len(f.m.pts)
		}
		if o := obs["Count"]; int(o.V) != wantN {
			return fail("step %d: Count is %v want %d", i, o.V, wantN)
		}
		if n == 0 {
			for name, o := range obs {
				if name != "Count" && !o.Err {
					return fail("step %d: %s without any values returned %v, not an error", i, name, o.V)
				}
			}
			return nil
		}
		e := f.m.exact()
		for j := 0; j < d; j++ {
			name := "Mean"
			if c.S.Kind == "jcore" {
				name = fmt.Sprintf("Mean(%d)", j)
			}
			o := obs[name]
			if o.Err {
				return fail("step %d: %s failed with %d values", i, name, n)
			}
			if err := f.m.mean(e, j).close(x, o.V, func() string { return fmt.Sprintf("step %d: %s n=%d", i, name, n) }); err != nil {
				return err
			}
		}
		for _, t := range tuples {
			name := fmt.Sprintf("Sum(%v)", t)
			if c.S.Kind == "mcore" {
				name = fmt.Sprintf("Sum(%d)", t[0])
			}
			o := obs[name]
			if o.Err {
				if !configured[tkey(t)] {
					continue // lower orders that were not asked for need not be tracked
				}
				return fail("step %d: %s failed with %d values", i, name, n)
			}
			want := f.m.sum(e, t...)
			if want.tol < 1e-3*abs(want.v) {
				checked++
			}
			if err := want.close(x, o.V, func() string { return fmt.Sprintf("step %d: %s w=%d n=%d", i, name, c.S.W, n) }); err != nil {
				return err
			}
		}
		return nil
	}
	if err := check(-1); err != nil {
		return err
	}
	every := 1 + len(st)/24
	for i, op := range st {
		switch op.O {
		case "push":
			if c.S.W > 0 && f.m.n() == c.S.W {
				evictions++
			}
			if err := in.Push(floats(op.X)); err != nil {
				return fail("step %d: Push(%v): %v", i, op.X, err)
			}
			f.push(floats(op.X))
		case "clear":
			in.Clear()
			f.clear()
		}
		if (i%every == 0 || len(st)-i < 4 || op.O == "clear") && readAt(c.Gap, i, len(st)) {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	if c.S.Unsafe {
		x.Label("unsafe methods")
	}
	if evictions > 0 {
		x.Label("eviction")
	}
	if overlap {
		x.Label("several sums configured")
	}
	if c.S.maxSum() > 8 {
		x.Label("order above 8")
	}
	if checked >= 2 && (evictions > 0 || c.S.W == 0) {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C07", "history", "moment.Core with any set of sums up to order 8, through its locking or its Unsafe methods; every Sum, Mean and Count against 320-bit values; "+momRule,
		16000, 320000, genMCore(false, 8, nil, 0, 0, 30), runCore)
	engine.Reg("C07", "high", "orders up to 30; "+momRule, 5000, 100000, genMCore(false, 30, []int{0, 0, 5, 12}, 0, 0, 12), runCore)
	engine.Reg("C07", "very-high", "orders up to 61, the last whose binomial coefficients fit 64 bits; "+momRule, 3000, 60000, genMCore(false, 61, []int{0, 0, 5}, 0, 0, 8), runCore)
	engine.Reg("C07", "patterns", "long patterned runs through windows up to 120; "+momRule, 1000, 20000, genMCore(false, 6, []int{0, 0, 3}, 200, 60, 120), runCore)
	engine.Reg("C08", "core", "decaying moment.Core with any set of sums up to order 8; "+momRule, 8000, 160000, genMCore(true, 8, []int{0, 0, 5, 12, 30}, 0, 0, 1), runCore)
	engine.Reg("C08", "high", "decaying moment.Core, orders up to 30; "+momRule, 2400, 48000, genMCore(true, 30, []int{0, 0, 5, 12}, 0, 0, 1), runCore)

	engine.Reg("C09", "history", "joint.Core with 2 to 5 variables and any list of tuples, through its locking or its Unsafe methods; Count, every Mean and the Sum of every dominated tuple against 320-bit values; "+momRule,
		8000, 160000, genJCore(false, []int{0, 0, 5, 12, 30}, 0, 0, 16), runCore)
	engine.Reg("C09", "patterns", "long patterned runs through windows up to 60; "+momRule, 600, 12000, genJCore(false, []int{0, 0, 3}, 80, 60, 60), runCore)
	engine.Reg("C09", "wide", "2 to 12 variables, exponents up to 30 in a few of them; "+momRule, 1600, 32000, genWide(false), runCore)
	engine.Reg("C11", "wide", "decaying joint.Core with 2 to 12 variables, exponents up to 30 in a few of them; "+momRule, 1200, 24000, genWide(true), runCore)
	engine.Reg("C11", "core", "decaying joint.Core with 2 to 5 variables and any list of tuples; "+momRule, 6000, 120000, genJCore(true, []int{0, 0, 5, 12, 30}, 0, 0, 1), runCore)
}
