package props

import (
	"fmt"
	"math"

	"verif/engine"

	"pgregory.net/rapid"
)

// hardProfile: values with a common offset up to 1e7 times their spread.
func hardProfile(t *rapid.T) profile {
	scale := rapid.SampledFrom([]float64{1, 1, 1e-3, 1e3, 0.7}).Draw(t, "scale")
	ratio := rapid.SampledFrom([]float64{1e3, 1e4, 1e5, 1e6, 1e7, 3e6}).Draw(t, "ratio")
	off := scale * ratio * rapid.Float64Range(0.3, 1).Draw(t, "off")
	if rapid.Bool().Draw(t, "neg") {
		off = -off
	}
	var g *rapid.Generator[float64]
	switch rapid.IntRange(0, 2).Draw(t, "shape") {
	case 0:
		g = rapid.Map(moderate(-1, 1), func(v float64) float64 { return off + scale*v })
	case 1:
		g = rapid.Map(rapid.IntRange(-3, 3), func(v int) float64 { return off + scale*float64(v) })
	default:
		g = rapid.Map(rapid.IntRange(0, 1), func(v int) float64 { return off + scale*float64(v) })
	}
	return profile{"hard", g, rapid.Custom(func(t *rapid.T) [2]float64 {
		return [2]float64{off, off + scale*rapid.Float64Range(0.5, 2).Draw(t, "b")}
	})}
}

var hardPats = []string{"uni", "alt", "dup"} // patterns which stay within the spread

func genHard(kinds []string, scales []int, patN, patProb, maxW int) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		c := momCase{S: drawSpec(t, kinds, maxW)}
		c.Ops = drawHistory(t, histOpt{arity: c.S.arity(), pr: hardProfile(t), clears: true, scales: scales, patN: patN, patProb: patProb})
		for i := range c.Ops {
			if p := c.Ops[i].P; p != nil {
				p.Kind = hardPats[int(p.Seed)%len(hardPats)]
				p.M = 4
			}
		}
		return c
	}
}

// signCase: any finite data of moderate magnitude.
func genSign(kinds []string) func(t *rapid.T) momCase {
	return func(t *rapid.T) momCase {
		c := momCase{S: drawSpec(t, kinds, 12)}
		base := rapid.SampledFrom([]float64{0, 1, 1e3, 1e6, -1e6, 0.1}).Draw(t, "base")
		small := rapid.SampledFrom([]float64{1, 1e-3, 1e-6, 0, 0.1}).Draw(t, "small")
		big := rapid.SampledFrom([]float64{1e3, 1e6, 1e9, 10}).Draw(t, "big")
		g := rapid.Custom(func(t *rapid.T) float64 {
			switch rapid.IntRange(0, 9).Draw(t, "class") {
			case 0:
				return moderate(-big, big).Draw(t, "x")
			case 1:
				return base + big
			case 2, 3, 4:
				return base
			default:
				return base + small*moderate(-1, 1).Draw(t, "x")
			}
		})
		c.Ops = drawHistory(t, histOpt{arity: c.S.arity(), pr: profile{"sign", g, pair(g, g)}, clears: true, scales: []int{5, 12, 30, 60}})
		return c
	}
}

func runSign(c momCase, x *X) error {
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	corr := c.S.Kind == "corr" || c.S.Kind == "ewmcorr" || c.S.Kind == "autocorr"
	f := c.S.feeder()
	evenName := map[string]bool{}
	if c.S.Kind == "jcore" {
		for _, tu := range c.S.closure() {
			even := true
			for _, e := range tu {
				even = even && e%2 == 0
			}
			if even {
				evenName[fmt.Sprintf("Sum(%v)", tu)] = true
			}
		}
	}
	n, checks, evicted := 0, 0, false
	for i, op := range c.Ops {
		if err := in.apply(op); err != nil {
			return fail("step %d: %v", i, err)
		}
		if op.O == "clear" {
			n = 0
			f.clear()
			continue
		}
		n++
		evicted = evicted || (c.S.W > 0 && n > c.S.W)
		if corr {
			f.push(floats(op.X))
		}
		cnt := n
		if c.S.W > 0 && cnt > c.S.W {
			cnt = c.S.W
		}
		if cnt < 2 {
			continue
		}
		for _, o := range in.Observe() {
			if o.Err {
				continue
			}
			nonneg := false
			var k int
			switch c.S.Kind {
			case "std", "ewmstd":
				nonneg = true
			case "moment", "ewmmoment":
				nonneg = c.S.K%2 == 0
			case "mcore":
				if _, err := fmt.Sscanf(o.Name, "Sum(%d)", &k); err == nil && k >= 2 && k <= c.S.maxSum() {
					nonneg = k%2 == 0
				}
			case "jcore":
				nonneg = evenName[o.Name]
			case "corr", "ewmcorr", "autocorr":
				// judged where the variances are not lost in rounding
				want, ok := c.S.expect(f.m)
				if ok && !(math.Abs(o.V) <= 1+math.Min(want.tol, 1)+1e-12) {
					return fail("step %d: correlation %s", i, g(o.V))
				}
				if ok {
					checks++
				}
				continue
			}
			if nonneg {
				checks++
				if !(o.V >= 0) {
					return fail("step %d: %s %s is %s with %d values", i, c.S.Kind, o.Name, g(o.V), cnt)
				}
			}
		}
	}
	x.Label(c.S.Kind)
	if evicted {
		x.Label("eviction")
	}
	if checks > 3 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	ks := []string{"moment", "moment", "std", "std", "skew", "kurt", "cov", "corr", "autocov", "autocorr", "ewmmoment", "ewmstd", "ewmcov", "ewmcorr"}
	rule := "non-trivial: two comparisons whose tolerance is under 0.1% of the statistic, and an eviction or a global window"
	engine.Reg("C20", "offset", "data with an offset of 1e3 to 1e7 times its spread against 320-bit statistics, tolerance linear in the offset; "+rule, 20000, 400000, genHard(ks, []int{0, 5, 12, 30}, 0, 0, 16), runMom)
	engine.Reg("C20", "offset-long", "long runs of such data; "+rule, 1200, 24000, genHard(ks, []int{0, 0, 3}, 150, 60, 60), runMom)
	engine.Reg("C20", "sign", "outliers of up to 1e12 times the spread passing through windows and decaying statistics: no negative or NaN Std, no negative even sum or moment, correlations at most 1 where the variances are not lost in rounding; non-trivial: more than three such results",
		20000, 400000, genSign([]string{"std", "std", "ewmstd", "moment", "ewmmoment", "mcore", "mcore", "jcore", "corr", "ewmcorr", "autocorr"}), runSign)
}
