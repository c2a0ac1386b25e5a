// Package props states the properties of alexander-yu/stream as executable checks over generated cases.
package props

import (
	"fmt"
	"math"
	"sort"

	"verif/engine"

	"pgregory.net/rapid"
)

type (
	F = engine.F
	X = engine.X
)

var fail = engine.Fail

// Op is one step of a generated history.
type Op struct {
	O string `json:"o"`
	X []F    `json:"x,omitempty"`
	P *Pat   `json:"p,omitempty"`
	N int    `json:"n,omitempty"`
	M []int  `json:"m,omitempty"`
}

// Pat is a compact description of a long run of pushed points.
type Pat struct {
	Kind string `json:"k"`
	N    int    `json:"n"`
	Seed uint64 `json:"s,omitempty"`
	A    F      `json:"a"`
	B    F      `json:"b"`
	M    int    `json:"m,omitempty"`
}

var patKinds = []string{"uni", "dup", "up", "down", "zigzag", "const", "saw", "organ", "outlier", "walk", "alt"}

// Expand yields N points with d coordinates.
func (p Pat) Expand(d int) [][]float64 {
	s := p.Seed*2862933555777941757 + 3037000493
	next := func() float64 { // uniform in [0,1)
		s ^= s << 13
		s ^= s >> 7
		s ^= s << 17
		return float64(s>>11) / (1 << 53)
	}
	for i := 0; i < 3; i++ {
		next()
	}
	a, b := float64(p.A), float64(p.B)
	m := p.M
	if m < 2 {
		m = 2
	}
	out := make([][]float64, p.N)
	acc := a
	for i := range out {
		var v float64
		fi := float64(i)
		switch p.Kind {
		case "uni":
			v = a + (b-a)*next()
		case "dup":
			v = a + math.Floor(next()*float64(m))
		case "up":
			v = a + b*fi
		case "down":
			v = a - b*fi
		case "zigzag":
			if i%2 == 0 {
				v = a + b*fi
			} else {
				v = a - b*fi
			}
		case "const":
			v = a
		case "saw":
			v = a + b*float64(i%m)
		case "organ":
			k := i % (2 * m)
			if k >= m {
				k = 2*m - 1 - k
			}
			v = a + b*float64(k)
		case "outlier":
			v = a + b*next()
			if i%(m+3) == m {
				v = a + 1000*b
			}
		case "walk":
			acc += b * (next() - 0.5)
			v = acc
		case "alt":
			if i%2 == 0 {
				v = a
			} else {
				v = b
			}
		}
		pt := make([]float64, d)
		pt[0] = v
		for j := 1; j < d; j++ {
			switch (int(p.Seed%3) + j) % 3 {
			case 0:
				pt[j] = a + (b-a)*next()
			case 1:
				pt[j] = 0.5*v + (b-a)*next()
			default:
				pt[j] = -v + 0.25*next()
			}
		}
		out[i] = pt
	}
	return out
}

// profile is a way of drawing values.
type profile struct {
	name string
	g    *rapid.Generator[float64]
	pa   *rapid.Generator[[2]float64] // parameters for patterns of the same magnitude
}

func intsAsFloat(lo, hi int, scale float64) *rapid.Generator[float64] {
	return rapid.Map(rapid.IntRange(lo, hi), func(i int) float64 { return float64(i) * scale })
}

func pair(a, b *rapid.Generator[float64]) *rapid.Generator[[2]float64] {
	return rapid.Custom(func(t *rapid.T) [2]float64 { return [2]float64{a.Draw(t, "a"), b.Draw(t, "b")} })
}

// moderate draws from a range without tiny non-zero values (whose powers underflow).
func moderate(lo, hi float64) *rapid.Generator[float64] {
	return rapid.Map(rapid.Float64Range(lo, hi), func(v float64) float64 {
		if math.Abs(v) < hi*1e-4 {
			return 0
		}
		return v
	})
}

// numeric profiles: moderate magnitudes, for moment-like metrics
func numericProfile(t *rapid.T) profile {
	switch rapid.IntRange(0, 6).Draw(t, "profile") {
	case 0:
		g := intsAsFloat(-3, 3, 1)
		return profile{"tinyint", g, pair(g, g)}
	case 1:
		g := intsAsFloat(-100, 100, 1)
		return profile{"int", g, pair(g, intsAsFloat(1, 10, 1))}
	case 2:
		g := moderate(-1, 1)
		return profile{"unit", g, pair(g, g)}
	case 3:
		g := moderate(-1000, 1000)
		return profile{"kilo", g, pair(g, g)}
	case 4:
		g := intsAsFloat(-200, 200, 0.01)
		return profile{"cents", g, pair(g, g)}
	case 5:
		off := float64(rapid.IntRange(1, 1000).Draw(t, "offset"))
		g := rapid.Map(moderate(-1, 1), func(v float64) float64 { return off + v })
		return profile{"offset", g, pair(g, g)}
	default:
		g := rapid.Custom(func(t *rapid.T) float64 {
			e := rapid.IntRange(-4, 4).Draw(t, "e")
			return moderate(-9, 9).Draw(t, "m") * math.Pow10(e)
		})
		return profile{"wide", g, pair(g, g)}
	}
}

// infProfile mixes infinities with a few other values, often repeated.
func infProfile() profile {
	g := rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), 0, 1, -1, math.Copysign(0, -1), 2, -2, 0.5, 3})
	return profile{"infinities", g, pair(intsAsFloat(-3, 3, 1), intsAsFloat(-3, 3, 1))}
}

// quantProfile is for metrics which also average values.
func quantProfile(t *rapid.T) profile {
	switch rapid.IntRange(0, 14).Draw(t, "infonly") {
	case 14:
		return infProfile()
	case 13: // the sum of two is beyond the largest
		g := rapid.Custom(func(t *rapid.T) float64 {
			v := rapid.Float64Range(0.55, 1).Draw(t, "m") * math.MaxFloat64
			if rapid.IntRange(0, 2).Draw(t, "neg") == 0 {
				return -v
			}
			return v
		})
		return profile{"max", g, pair(intsAsFloat(-3, 3, 1e307), intsAsFloat(0, 1, 1e306))}
	}
	return orderProfile(t, false)
}

// order profiles: for comparison-based metrics; inf allows infinities
func orderProfile(t *rapid.T, inf bool) profile {
	if inf && rapid.IntRange(0, 15).Draw(t, "infonly") == 15 {
		return infProfile()
	}
	n := 6
	if inf {
		n = 7
	}
	switch rapid.IntRange(0, n).Draw(t, "profile") {
	case 0:
		g := intsAsFloat(0, 1, 1)
		return profile{"binary", g, pair(g, g)}
	case 1:
		g := intsAsFloat(-3, 3, 1)
		return profile{"tinyint", g, pair(g, g)}
	case 2:
		g := intsAsFloat(-20, 20, 1)
		return profile{"int", g, pair(g, intsAsFloat(1, 5, 1))}
	case 3:
		g := rapid.Float64Range(-1000, 1000)
		return profile{"kilo", g, pair(g, g)}
	case 4:
		g := rapid.Float64Range(-1e300, 1e300)
		return profile{"huge", g, pair(rapid.Float64Range(-1e290, 1e290), rapid.Float64Range(-1e290, 1e290))}
	case 5:
		g := rapid.Map(rapid.SampledFrom([]float64{0, 1, 2, 3, 4, 5}), func(v float64) float64 {
			if v == 5 {
				return math.Copysign(0, -1)
			}
			return v * 5e-324
		})
		return profile{"subnormal", g, pair(g, g)}
	case 6:
		base := rapid.Float64Range(-10, 10).Draw(t, "base")
		g := rapid.Map(rapid.IntRange(0, 6), func(i int) float64 {
			v := base
			for ; i > 0; i-- {
				v = math.Nextafter(v, 100)
			}
			return v
		})
		return profile{"adjacent", g, pair(g, intsAsFloat(0, 2, 1))}
	default:
		g := rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), 0, 1, -1, math.Copysign(0, -1), 2, -2, math.MaxFloat64, -math.MaxFloat64})
		return profile{"inf", g, pair(intsAsFloat(-3, 3, 1), intsAsFloat(-3, 3, 1))}
	}
}

// lengths chooses a scale for a history; rapid's slices are then about twice the minimum.
func lengthScale(t *rapid.T, scales ...int) int {
	if len(scales) == 0 {
		scales = []int{0, 0, 0, 5, 12, 30, 60}
	}
	return rapid.SampledFrom(scales).Draw(t, "len")
}

func drawPat(t *rapid.T, pr profile, maxN int) *Pat {
	ab := pr.pa.Draw(t, "ab")
	return &Pat{
		Kind: rapid.SampledFrom(patKinds).Draw(t, "pat"),
		N:    rapid.IntRange(1, maxN).Draw(t, "n"),
		Seed: uint64(rapid.IntRange(0, 1<<30).Draw(t, "seed")),
		A:    F(ab[0]), B: F(ab[1]),
		M: rapid.IntRange(2, 12).Draw(t, "m"),
	}
}

// histOpt says what a history may contain.
type histOpt struct {
	arity   int
	pr      profile
	clears  bool
	reads   bool // explicit reads as ops
	scales  []int
	patN    int // 0: no patterns
	patProb int // percent
}

func drawPoint(t *rapid.T, pr profile, arity int) []F {
	p := make([]F, arity)
	for i := range p {
		p[i] = F(pr.g.Draw(t, "x"))
	}
	return p
}

func drawHistory(t *rapid.T, o histOpt) []Op {
	opGen := rapid.Custom(func(t *rapid.T) Op {
		r := rapid.IntRange(0, 99).Draw(t, "op")
		switch {
		case o.clears && r >= 97:
			return Op{O: "clear"}
		case o.reads && r >= 85 && r < 97:
			return Op{O: "read"}
		case o.patN > 0 && r >= 85-o.patProb && r < 85:
			return Op{O: "pat", P: drawPat(t, o.pr, o.patN)}
		default:
			return Op{O: "push", X: drawPoint(t, o.pr, o.arity)}
		}
	})
	min := lengthScale(t, o.scales...)
	return rapid.SliceOfN(opGen, min, 3*min+20).Draw(t, "ops")
}

// steps flattens patterns into single pushes.
func steps(ops []Op, arity int) []Op {
	var out []Op
	for _, op := range ops {
		if op.O != "pat" {
			out = append(out, op)
			continue
		}
		for _, pt := range op.P.Expand(arity) {
			x := make([]F, len(pt))
			for i, v := range pt {
				x[i] = F(v)
			}
			out = append(out, Op{O: "push", X: x})
		}
	}
	return out
}

func floats(x []F) []float64 {
	r := make([]float64, len(x))
	for i, v := range x {
		r[i] = float64(v)
	}
	return r
}

func fs(x []float64) []F {
	r := make([]F, len(x))
	for i, v := range x {
		r[i] = F(v)
	}
	return r
}

// tailWindow returns the last w of xs (all when w is 0).
func tailWindow[T any](xs []T, w int) []T {
	if w == 0 || len(xs) <= w {
		return xs
	}
	return xs[len(xs)-w:]
}

func sorted(xs []float64) []float64 {
	r := append([]float64(nil), xs...)
	sort.Float64s(r)
	return r
}

func sameFloat(a, b float64) bool { return a == b || (math.IsNaN(a) && math.IsNaN(b)) }

func g(v float64) string { return fmt.Sprintf("%.17g", v) }

func drawWindow(t *rapid.T, max int) int {
	switch rapid.IntRange(0, 4).Draw(t, "wclass") {
	case 0:
		return rapid.IntRange(0, 3).Draw(t, "w")
	case 1:
		return rapid.IntRange(1, 8).Draw(t, "w")
	case 2:
		return rapid.SampledFrom([]int{2, 4, 8, 16, 7, 9, 15, 17, 32, 33}).Draw(t, "w")
	case 3:
		return 0
	default:
		return rapid.IntRange(1, max).Draw(t, "w")
	}
}

// drawGaps: 0 reads wherever the check does; other numbers leave reads out, by their bits.
func drawGaps(t *rapid.T) int {
	if rapid.IntRange(0, 2).Draw(t, "gaps") < 2 {
		return 0
	}
	return rapid.IntRange(1, 1<<20).Draw(t, "reads")
}

func readAt(gaps, i, n int) bool {
	if gaps == 0 || i >= n-1 {
		return true
	}
	s := xs64(uint64(gaps)*0x9e3779b97f4a7c15 + uint64(i)*0xd1342543de82ef95 + 1)
	s.next()
	return (s.next()>>40)%uint64(2+gaps%5) == 0
}
