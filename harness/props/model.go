package props

import (
	"math"
	"math/big"
)

const (
	eps  = 1.0 / (1 << 52)
	prec = 320
)

func bf(v float64) *big.Float { return new(big.Float).SetPrec(prec).SetFloat64(v) }
func bi(v int) *big.Float     { return new(big.Float).SetPrec(prec).SetInt64(int64(v)) }
func bz() *big.Float          { return new(big.Float).SetPrec(prec) }

func bfloat(b *big.Float) float64 { v, _ := b.Float64(); return v }

// exactSet computes the weighted mean and central sums of a set of points in 320-bit arithmetic.
type exactSet struct {
	mean []*big.Float
	dev  [][][]*big.Float // [var][point][power-1]
	wt   []*big.Float     // nil: all 1
	n    int
}

// newExact prepares points; decay 0 means unweighted (sums, not averages).
func newExact(pts [][]float64, d int, decay float64) *exactSet {
	e := &exactSet{n: len(pts)}
	if decay != 0 {
		q := bz().Sub(bi(1), bf(decay))
		e.wt = make([]*big.Float, len(pts))
		w := bf(decay)
		for i := len(pts) - 1; i >= 1; i-- {
			e.wt[i] = bz().Set(w)
			w = bz().Mul(w, q)
		}
		// the first point carries (1-d)^(n-1)
		w = bi(1)
		for i := 1; i < len(pts); i++ {
			w = bz().Mul(w, q)
		}
		e.wt[0] = w
	}
	for j := 0; j < d; j++ {
		s := bz()
		for i, p := range pts {
			v := bf(p[j])
			if e.wt != nil {
				v = bz().Mul(v, e.wt[i])
			}
			s.Add(s, v)
		}
		if e.wt == nil {
			s.Quo(s, bi(len(pts)))
		}
		e.mean = append(e.mean, s)
		devs := make([][]*big.Float, len(pts))
		for i, p := range pts {
			devs[i] = []*big.Float{bz().Sub(bf(p[j]), s)}
		}
		e.dev = append(e.dev, devs)
	}
	return e
}

func (e *exactSet) pow(j, i, k int) *big.Float {
	p := e.dev[j][i]
	for len(p) < k {
		p = append(p, bz().Mul(p[len(p)-1], p[0]))
	}
	e.dev[j][i] = p
	return p[k-1]
}

// sum is the (weighted) sum over the points of the product of deviations to the powers m.
func (e *exactSet) sum(m []int) *big.Float {
	s := bz()
	for i := 0; i < e.n; i++ {
		t := bi(1)
		if e.wt != nil {
			t = bz().Set(e.wt[i])
		}
		for j, k := range m {
			if k > 0 {
				t.Mul(t, e.pow(j, i, k))
			}
		}
		s.Add(s, t)
	}
	return s
}

// momentModel follows a stream of d-dimensional points and knows, besides the exact statistics of the current window,
// how large the rounding error of a centred (Pebay/Welford) update may be: every push may add an error of a few eps
// times the sizes of the terms that such an update adds up (scale), plus what an error of the running mean
// (eps times the largest magnitude seen, per push) does to them.
type momentModel struct {
	d, w  int
	decay float64
	tup   [][]int // downward closed
	idx   map[string]int
	pts   [][]float64
	M     []float64
	T     int
	born  []birth
	tolT  int // T for which tols holds
	tols  []float64
	below [][]below
}

// birth is the rounding error that one push may add to each sum, and where the mean was then.
type birth struct {
	q    []float64
	mean []float64
	mid  []float64 // the mean between eviction and addition
}

// below relates a tuple to one at most it: the product of binomials and the difference.
type below struct {
	i    int
	c    float64
	diff []int
}

func tkey(m []int) string {
	b := make([]byte, len(m))
	for i, v := range m {
		b[i] = byte(v)
	}
	return string(b)
}

func newMomentModel(d, w int, decay float64, tuples [][]int) *momentModel {
	m := &momentModel{d: d, w: w, decay: decay, idx: map[string]int{}}
	var add func(t []int)
	add = func(t []int) {
		k := tkey(t)
		if _, ok := m.idx[k]; ok {
			return
		}
		m.idx[k] = len(m.tup)
		m.tup = append(m.tup, append([]int(nil), t...))
		for j := range t {
			if t[j] > 0 {
				u := append([]int(nil), t...)
				u[j]--
				add(u)
			}
		}
	}
	for _, t := range tuples {
		add(t)
	}
	for _, t := range m.tup {
		var bs []below
		for i, u := range m.tup {
			c := 1.0
			diff := make([]int, d)
			for j := range t {
				if u[j] > t[j] {
					c = 0
					break
				}
				diff[j] = t[j] - u[j]
				c *= bfloat(new(big.Float).SetInt(new(big.Int).Binomial(int64(t[j]), int64(u[j]))))
			}
			if c > 0 {
				bs = append(bs, below{i, c, diff})
			}
		}
		m.below = append(m.below, bs)
	}
	m.clear()
	return m
}

func (m *momentModel) clear() {
	m.pts = nil
	m.M = make([]float64, m.d)
	m.T = 0
	m.born = nil
	m.tolT = -1
}

func (m *momentModel) window() [][]float64 { return tailWindow(m.pts, m.w) }

func (m *momentModel) n() int { return len(m.window()) }

func (m *momentModel) push(p []float64) {
	old := m.window()
	var out []float64
	if m.w > 0 && len(old) == m.w {
		out = old[0]
	}
	oldMean := m.fmean(old)
	m.pts = append(m.pts, append([]float64(nil), p...))
	m.T++
	for j, v := range p {
		m.M[j] = math.Max(m.M[j], math.Abs(v))
	}
	win := m.window()
	mean := m.fmean(win)
	n := float64(len(win))
	shift := make([]float64, m.d) // how far one update moves the centre
	for j := range p {
		dl := 0.0
		if len(old) > 0 {
			dl = math.Abs(p[j] - oldMean[j])
		}
		if out != nil {
			dl = math.Max(dl, math.Abs(out[j]-mean[j]))
			dl = math.Max(dl, math.Abs(out[j]-oldMean[j]))
		}
		f := 1 / n
		if m.decay != 0 {
			f = m.decay
		}
		shift[j] = dl*f + 4*eps*m.M[j]*float64(m.T+2)
	}
	q := make([]float64, len(m.tup))
	maxk := make([]int, m.d)
	for _, t := range m.tup {
		for j, k := range t {
			if k > maxk[j] {
				maxk[j] = k
			}
		}
	}
	pw := make([][]float64, m.d)
	for j := range pw {
		pw[j] = make([]float64, maxk[j]+1)
	}
	addPoint := func(x []float64, wt float64) {
		for j := range x {
			dv := math.Abs(x[j]-mean[j]) + shift[j]
			pw[j][0] = 1
			for k := 1; k <= maxk[j]; k++ {
				pw[j][k] = pw[j][k-1] * dv
			}
		}
		for i, t := range m.tup {
			v := wt
			for j, k := range t {
				v *= pw[j][k]
			}
			q[i] += v
		}
	}
	if m.decay == 0 {
		for _, x := range win {
			addPoint(x, 1)
		}
		if out != nil {
			addPoint(out, 1)
		}
	} else {
		wt := m.decay
		for i := len(win) - 1; i >= 0; i-- {
			if i == 0 {
				wt = math.Pow(1-m.decay, float64(len(win)-1))
			}
			addPoint(win[i], wt)
			wt *= 1 - m.decay
		}
	}
	b := birth{q: make([]float64, len(m.tup)), mean: mean, mid: mean}
	if out != nil && len(old) > 1 {
		b.mid = m.fmean(old[1:])
	}
	for i, t := range m.tup {
		a := q[i]
		for j, k := range t {
			if k > 0 {
				u := append([]int(nil), t...)
				u[j]--
				a += float64(k) * m.M[j] * float64(m.T+2) * q[m.idx[tkey(u)]]
			}
		}
		b.q[i] = a
	}
	if i, ok := m.idx[tkey(make([]int, m.d))]; ok {
		b.q[i] = 0 // the count is exact
	}
	m.born = append(m.born, b)
}

// scales adds up the errors of all pushes since the last clear. An error made in a sum stays where it was made: when
// the mean has moved on by D since, it counts in higher sums like a mass at distance D, so order k receives
// binom(k,i)*D^(k-i) of an error in order i. (D is the range of the means since, not just the distance between first and
// last, because a negative even sum is cut off at zero wherever the mean is at that time.) Decay shrinks old errors as it shrinks old weights.
func (m *momentModel) scales() []float64 {
	if m.tolT == m.T {
		return m.tols
	}
	r := make([]float64, len(m.tup))
	if len(m.born) > 0 {
		last := m.born[len(m.born)-1].mean
		maxk := 0
		for _, t := range m.tup {
			for _, k := range t {
				if k > maxk {
					maxk = k
				}
			}
		}
		pw := make([][]float64, m.d)
		for j := range pw {
			pw[j] = make([]float64, maxk+1)
		}
		f := 1.0
		lo, hi := append([]float64(nil), last...), append([]float64(nil), last...)
		for s := len(m.born) - 1; s >= 0; s-- {
			b := &m.born[s]
			zero := true
			for j := range pw {
				if s+1 < len(m.born) {
					v := m.born[s+1].mid[j]
					lo[j], hi[j] = math.Min(lo[j], v), math.Max(hi[j], v)
				}
				lo[j], hi[j] = math.Min(lo[j], b.mean[j]), math.Max(hi[j], b.mean[j])
				D := hi[j] - lo[j]
				zero = zero && D == 0
				pw[j][0] = 1
				for k := 1; k <= maxk; k++ {
					pw[j][k] = pw[j][k-1] * D
				}
			}
			for i := range m.tup {
				if zero {
					r[i] += f * b.q[i]
					continue
				}
				v := 0.0
				for _, bl := range m.below[i] {
					w := bl.c * b.q[bl.i]
					for j, k := range bl.diff {
						w *= pw[j][k]
					}
					v += w
				}
				r[i] += f * v
			}
			f *= 1 - m.decay
		}
	}
	m.tolT, m.tols = m.T, r
	return r
}

func (m *momentModel) fmean(pts [][]float64) []float64 {
	r := make([]float64, m.d)
	if len(pts) == 0 {
		return r
	}
	if m.decay == 0 {
		for _, p := range pts {
			for j, v := range p {
				r[j] += v
			}
		}
		for j := range r {
			r[j] /= float64(len(pts))
		}
		return r
	}
	for i, p := range pts {
		for j, v := range p {
			if i == 0 {
				r[j] = v
			} else {
				r[j] += m.decay * (v - r[j])
			}
		}
	}
	return r
}

// the factor by which observed rounding errors may exceed the model's estimate; calibrated (DESIGN.md) at least 50 times
// above what the unchanged tree shows.
const tolC = 32

func (m *momentModel) tolSum(t []int) float64 {
	i, ok := m.idx[tkey(t)]
	if !ok {
		panic("model does not track " + tkey(t))
	}
	return tolC*eps*m.scales()[i] + 1e-300
}

func (m *momentModel) tolMean(j int) float64 { return tolC*eps*float64(m.T+2)*m.M[j] + 1e-300 }

func (m *momentModel) exact() *exactSet { return newExact(m.window(), m.d, m.decay) }

// val is an exact value with the error a correct implementation may make.
type val struct{ v, tol float64 }

func (m *momentModel) sum(e *exactSet, t ...int) val {
	return val{bfloat(e.sum(t)), m.tolSum(t)}
}

func (m *momentModel) mean(e *exactSet, j int) val { return val{bfloat(e.mean[j]), m.tolMean(j)} }

func (a val) div(c float64) val { return val{a.v / c, a.tol/math.Abs(c) + 4*eps*math.Abs(a.v/c)} }

func (a val) sqrt() val {
	lo, hi := math.Sqrt(math.Max(0, a.v-a.tol)), math.Sqrt(a.v+a.tol)
	mid := math.Sqrt(math.Max(0, a.v))
	return val{mid, math.Max(hi-mid, mid-lo) + 4*eps*mid}
}

// ratio is c*a/b^p; ok is false where b is too close to zero for the quotient to mean anything.
func ratio(c float64, a, b val, p float64) (val, bool) {
	if b.v <= 0 || b.tol > 0.01*b.v {
		return val{}, false
	}
	d := math.Pow(b.v, p)
	v := c * a.v / d
	return val{v, math.Abs(c)*a.tol/d + 1.2*p*math.Abs(v)*b.tol/b.v + 1.2*p*math.Abs(c)*a.tol/d*b.tol/b.v + 32*eps*math.Abs(v)}, true
}

// corrOf is a/sqrt(b*c).
func corrOf(a, b, c val) (val, bool) {
	if b.v <= 0 || c.v <= 0 || b.tol > 0.01*b.v || c.tol > 0.01*c.v {
		return val{}, false
	}
	d := math.Sqrt(b.v) * math.Sqrt(c.v)
	if d == 0 {
		return val{}, false
	}
	v := a.v / d
	return val{v, a.tol/d*1.05 + 0.6*math.Abs(v)*(b.tol/b.v+c.tol/c.v) + 32*eps}, true
}

// close compares and records how much of the tolerance was used.
func (a val) close(x *X, got float64, what func() string) error {
	if math.IsNaN(got) || math.IsNaN(a.v) || math.IsInf(a.v, 0) {
		if math.IsInf(a.v, 0) || math.IsNaN(a.v) {
			return nil
		}
		return fail("%s: got %v want %s", what(), got, g(a.v))
	}
	d := math.Abs(got - a.v)
	x.Obs(d/a.tol, what)
	if d > a.tol {
		return fail("%s: got %s want %s (difference %.3g, tolerance %.3g)", what(), g(got), g(a.v), d, a.tol)
	}
	return nil
}

func sqrt(v float64) float64 { return math.Sqrt(v) }
func abs(v float64) float64  { return math.Abs(v) }
