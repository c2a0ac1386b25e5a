package props

import (
	"fmt"
	"math"
	"sort"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile/ost/avl"
	"pgregory.net/rapid"
)

// very long streams: more values than a 16-bit count, a table or a buffer of a realistic fixed size would hold; the data
// come from a small generator in the case, and a plain two-pass computation of the window is the oracle.

type longCase struct {
	S     Spec   `json:"s"`
	Seed  uint64 `json:"seed"`
	N     int    `json:"n"`
	Dist  int    `json:"dist"`  // 0 uniform, 1 digits, 2 bounded walk, 3 rising slowly, 4 falling slowly, 5 offset uniform
	Clear int    `json:"clear"` // cleared before this push (0: never)
}

type xs64 uint64

func (s *xs64) next() uint64 {
	x := uint64(*s)
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	*s = xs64(x)
	return x
}
func (s *xs64) unit() float64 { return float64(s.next()>>43) / (1 << 21) } // 21 bits

// longData draws n points of d coordinates; all values have magnitude at most about 8.
func longData(seed uint64, n, d, dist int) [][]float64 {
	s := xs64(seed*2654435761 + 88172645463325252)
	for i := 0; i < 20; i++ {
		s.next()
	}
	walk := 0.0
	out := make([][]float64, n)
	buf := make([]float64, n*d)
	for i := range out {
		p := buf[i*d : (i+1)*d]
		for j := range p {
			u := s.unit()
			switch dist {
			case 1:
				u = math.Floor(u * 10)
			case 2:
				walk += (u - 0.5) / 16
				if walk > 4 || walk < -4 {
					walk = 0
				}
				u = walk
			case 3:
				u = u/64 + 4*float64(i)/float64(n)
			case 4:
				u = u/64 - 4*float64(i)/float64(n)
			case 5:
				u += 7
			}
			if j > 0 {
				u = (u + float64(j)*p[0]) / 2
			}
			p[j] = math.Round(u*(1<<20)) / (1 << 20)
		}
		out[i] = p
	}
	return out
}

const longRange = 8.0

// genMillion: streams past 2^20 for what is cheap enough.
func genMillion(kinds []string) func(t *rapid.T) longCase {
	return func(t *rapid.T) longCase {
		c := genLong(kinds)(t)
		c.N = rapid.IntRange(1060000, 1400000).Draw(t, "millions")
		if rapid.IntRange(0, 3).Draw(t, "two") == 0 {
			c.N += 1 << 20
		}
		if c.S.W > 100000 {
			c.S.W = rapid.IntRange(5, 70000).Draw(t, "w2")
		}
		if c.Clear > 0 {
			c.Clear = rapid.IntRange(1, 5000).Draw(t, "clear2")
		}
		return c
	}
}

// genFar: a moment.Core of the highest orders with so many values that powers of their number are beyond a float64.
func genFar(t *rapid.T) longCase {
	c := longCase{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Dist: rapid.SampledFrom([]int{0, 1, 5}).Draw(t, "dist")}
	c.S = Spec{Kind: "mcore", Sums: []int{rapid.IntRange(59, 61).Draw(t, "order")}}
	c.S.Impl.Impl = -1
	c.N = rapid.IntRange(132000, 160000).Draw(t, "n")
	if rapid.IntRange(0, 2).Draw(t, "windowed") == 0 {
		c.S.W = rapid.IntRange(131100, c.N).Draw(t, "w")
	}
	return c
}

func genLong(kinds []string) func(t *rapid.T) longCase {
	return func(t *rapid.T) longCase {
		c := longCase{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Dist: rapid.IntRange(0, 5).Draw(t, "dist")}
		k := rapid.SampledFrom(kinds).Draw(t, "kind")
		hi := 140000
		if k == "jcore" || k == "cov" || k == "corr" || k == "ewmcov" || k == "ewmcorr" || k == "autocov" || k == "autocorr" {
			hi = 100000
		}
		c.N = rapid.SampledFrom([]int{66000, 81000, hi - 10000}).Draw(t, "n") + rapid.IntRange(0, 10000).Draw(t, "n+")
		s := Spec{Kind: k}
		s.Impl.Impl = -1
		switch rapid.IntRange(0, 7).Draw(t, "wclass") {
		case 0, 1:
		case 2:
			s.W = rapid.IntRange(5, 64).Draw(t, "w")
		case 3:
			s.W = rapid.IntRange(1000, 5000).Draw(t, "w")
		case 4, 5: // past 16 bits; small draws are the likelier ones
			s.W = rapid.SampledFrom([]int{65535, 65536, 65537, 66000, 70000, 80000, 95000}).Draw(t, "w16")
			s.W = min(s.W+rapid.IntRange(0, 500).Draw(t, "w+"), c.N)
		default:
			s.W = rapid.IntRange(32000, c.N).Draw(t, "w")
		}
		switch k {
		case "moment":
			s.K = rapid.IntRange(1, 4).Draw(t, "k")
		case "ewmmoment":
			s.K = rapid.IntRange(1, 4).Draw(t, "k")
		case "quantile", "median", "iqr":
			s.Impl.Impl = rapid.IntRange(-1, 2).Draw(t, "impl")
			s.Interp = rapid.IntRange(0, 4).Draw(t, "interp")
			s.Phis = []F{0.001, 0.99, 0.5, F(rapid.Float64Range(0.0001, 0.9999).Draw(t, "phi"))}
		case "mcore":
			s.Sums = rapid.SliceOfN(rapid.IntRange(1, 4), 1, 3).Draw(t, "sums")
		case "jcore":
			s.Vars = rapid.IntRange(2, 3).Draw(t, "vars")
			s.Tup = [][]int{[]int{1, 1, 0}[:s.Vars]}
			if rapid.Bool().Draw(t, "second") {
				s.Tup = append(s.Tup, []int{0, 2, 1}[:s.Vars])
			}
		case "autocov", "autocorr":
			s.Lag = rapid.SampledFrom([]int{0, 1, 3, 100, 1023, 1025, 5000}).Draw(t, "lag")
			s.Lag += rapid.IntRange(0, 2).Draw(t, "lag+")
		}
		switch k {
		case "ewma", "ewmmoment", "ewmstd", "ewmcov", "ewmcorr":
			s.W = 0
			s.D = F(rapid.SampledFrom([]float64{0.5, 0.1, 0.01, 0.001, 0.0001, 0.00002}).Draw(t, "d"))
		case "avl", "rb", "skiplist":
			s.W = 0
		}
		s.Global = s.W == 0 && rapid.Bool().Draw(t, "global")
		if rapid.IntRange(0, 3).Draw(t, "clears") == 0 {
			c.Clear = rapid.IntRange(1, c.N-1).Draw(t, "clear")
		}
		c.S = s
		return c
	}
}

// plainSums is the mean vector and a function for central sums of the points, in two passes.
func plainSums(pts [][]float64, d int, decay float64) ([]float64, func(t []int) float64) {
	mean := make([]float64, d)
	n := len(pts)
	var wt []float64
	if decay != 0 {
		wt = make([]float64, n)
		w := decay
		for i := n - 1; i >= 1; i-- {
			wt[i] = w
			w *= 1 - decay
		}
		wt[0] = math.Pow(1-decay, float64(n-1))
	}
	for j := range mean {
		s := 0.0
		for i, p := range pts {
			if wt != nil {
				s += wt[i] * p[j]
			} else {
				s += p[j]
			}
		}
		if wt == nil {
			s /= float64(n)
		}
		mean[j] = s
	}
	return mean, func(t []int) float64 {
		s := 0.0
		for i, p := range pts {
			v := 1.0
			if wt != nil {
				v = wt[i]
			}
			for j, k := range t {
				for ; k > 0; k-- {
					v *= p[j] - mean[j]
				}
			}
			s += v
		}
		return s
	}
}

func runLong(c longCase, x *X) error {
	s := c.S
	if s.isContainer() {
		return runLongCont(c, x)
	}
	in, err := s.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	data := longData(c.Seed, c.N, in.Arity, c.Dist)
	start := 0
	lag := s.Lag
	isLag := s.Kind == "autocov" || s.Kind == "autocorr"
	check := func(n int) error {
		pts := data[start:n]
		if isLag {
			var ps [][]float64
			for i := lag; i < len(pts); i++ {
				ps = append(ps, []float64{pts[i][0], pts[i-lag][0]})
			}
			pts = ps
		}
		pts = tailWindow(pts, s.W)
		fn := float64(len(pts))
		what := func(name string) string {
			return fmt.Sprintf("after %d values (window %d, %d of them in it): %s", n-start, s.W, len(pts), name)
		}
		obs := in.Observe()
		if s.isOrder() {
			vs := make([]float64, len(pts))
			for i, p := range pts {
				vs[i] = p[0]
			}
			sort.Float64s(vs)
			for i, o := range obs {
				if o.Err {
					return fail("%s failed", what(o.Name))
				}
				var want []float64
				switch s.Kind {
				case "max":
					want = []float64{vs[len(vs)-1]}
				case "min":
					want = []float64{vs[0]}
				case "heapmedian", "median":
					want = []float64{(vs[(len(vs)-1)/2] + vs[len(vs)/2]) / 2}
				case "quantile":
					want = quantRef(vs, float64(s.Phis[i]), s.Interp)
				case "iqr":
					// both quartiles by the metric's own interpolation (midpoint of neighbours)
					for _, a := range quantRef(vs, 0.75, 4) {
						for _, b := range quantRef(vs, 0.25, 4) {
							want = append(want, a-b)
						}
					}
				}
				ok := false
				for _, w := range want {
					ok = ok || closeTo(o.V, w, longRange)
				}
				if !ok {
					return fail("%s is %s, want %v", what(o.Name), g(o.V), want)
				}
			}
			return nil
		}
		d := 1
		if isLag || in.Arity > 1 {
			d = 2
		}
		if s.Kind == "jcore" {
			d = s.Vars
		}
		mean, sum := plainSums(pts, d, float64(s.D))
		near := func(name string, got, want, scale float64) error {
			tol := 1e-7 * scale
			x.Obs(abs(got-want)/tol, func() string { return what(name) })
			if !(abs(got-want) <= tol) {
				return fail("%s is %s, want %s (tolerance %.3g)", what(name), g(got), g(want), tol)
			}
			return nil
		}
		for _, o := range obs {
			var want, scale float64
			var k int
			switch s.Kind {
			case "mcore":
				switch {
				case o.Name == "Count":
					want, scale = fn, 1e-3
				case o.Name == "Mean":
					want, scale = mean[0], longRange
				default:
					fmt.Sscanf(o.Name, "Sum(%d)", &k)
					if o.Err {
						if k > s.maxSum() || !containsInt(s.Sums, k) {
							continue
						}
						return fail("%s failed", what(o.Name))
					}
					want, scale = sum([]int{k}), (1+fn)*math.Pow(longRange, float64(k))
					if s.maxSum() > 30 { // relative to the sum of the absolute values
						scale = 0
						for _, p := range pts {
							scale += math.Pow(abs(p[0]-mean[0]), float64(k))
						}
						scale *= 0.01
					}
				}
			case "jcore":
				var i int
				switch {
				case o.Name == "Count":
					want, scale = fn, 1e-3
				case o.Name[:4] == "Mean":
					fmt.Sscanf(o.Name, "Mean(%d)", &i)
					if i < 0 || i >= s.Vars {
						continue
					}
					want, scale = mean[i], longRange
				default:
					if o.Err {
						continue
					}
					for _, t := range s.closure() {
						if fmt.Sprintf("Sum(%v)", t) == o.Name {
							tot := 0
							for _, v := range t {
								tot += v
							}
							want, scale = sum(t), (1+fn)*math.Pow(longRange, float64(tot))
						}
					}
				}
			case "mean", "ewma":
				want, scale = mean[0], longRange
			case "moment":
				want, scale = sum([]int{s.K})/(fn-1), math.Pow(longRange, float64(s.K))
			case "ewmmoment":
				want, scale = sum([]int{s.K}), math.Pow(longRange, float64(s.K))
			case "cov", "autocov":
				want, scale = sum([]int{1, 1})/(fn-1), longRange*longRange
			case "ewmcov":
				want, scale = sum([]int{1, 1}), longRange*longRange
			case "std", "skew", "kurt", "ewmstd", "corr", "ewmcorr", "autocorr":
				w := fn
				if s.decaying() {
					w = 1
				}
				v := sum([]int{2})
				v2 := v
				if d == 2 {
					v, v2 = sum([]int{2, 0}), sum([]int{0, 2})
				}
				if v/w < 1e-4 || v2/w < 1e-4 {
					x.Label("variance too small to judge")
					continue
				}
				scale = 1e4
				switch s.Kind {
				case "std":
					want = sqrt(v / (fn - 1))
				case "ewmstd":
					want = sqrt(v)
				case "skew":
					want = sqrt(fn*(fn-1)) / (fn - 2) * (sum([]int{3}) / fn) / math.Pow(v/fn, 1.5)
				case "kurt":
					want = (sum([]int{4})/fn)/math.Pow(v/fn, 2) - 3
				default:
					want = sum([]int{1, 1}) / sqrt(v) / sqrt(v2)
				}
				scale *= 1 + abs(want)
			default:
				panic(engine.HarnessError{Msg: "long: " + s.Kind})
			}
			if scale == 0 {
				continue
			}
			if o.Err {
				return fail("%s failed", what(o.Name))
			}
			if err := near(o.Name, o.V, want, scale); err != nil {
				return err
			}
		}
		return nil
	}
	last := 0
	for n := 1; n <= c.N; n++ {
		if n == c.Clear {
			in.Clear()
			start = n - 1
		}
		if err := in.Push(data[n-1]); err != nil {
			return fail("Push %d: %v", n, err)
		}
		held := n - start
		if isLag {
			held -= lag
		}
		if held < 5 {
			continue
		}
		// at powers of two and their neighbours, around the window's size, and at the end
		if c.N > 1000000 && held < 1<<17 {
			continue
		}
		at := n == c.N || held == 1000001 || (held&(held-1) == 0 && held > 8000) || held == s.W || held == s.W+1 || held == 50001 || held == 65537 || held == 65535
		if at {
			if err := check(n); err != nil {
				return err
			}
			last = held
		}
	}
	if s.W > 0 && last > s.W {
		x.Label("eviction")
	}
	if s.W > 30000 {
		x.Label("large window")
	}
	if last > 60000 {
		x.NonTrivial()
	}
	return nil
}

func containsInt(s []int, k int) bool {
	for _, v := range s {
		if v == k {
			return true
		}
	}
	return false
}

// runLongCont: adds and removals in a container that grows beyond 60000 elements, against counts per value.
func runLongCont(c longCase, x *X) error {
	in, err := c.S.build()
	if err != nil {
		return fail("constructor: %v", err)
	}
	ct := in.Obj.(container)
	s := xs64(c.Seed*2654435761 + 88172645463325252)
	V := []int{10, 1000, 1 << 17, 1 << 17, 1 << 17, 1 << 17}[c.Dist]
	cnt := make([]int, V)
	size := 0
	check := func(i int) error {
		if ct.Size() != size {
			return fail("step %d: Size is %d, want %d", i, ct.Size(), size)
		}
		acc := 0
		next := 0
		step := 1 + size/97
		for v, k := range cnt {
			if k == 0 {
				continue
			}
			if acc+k > next {
				if r := ct.Rank(float64(v)); r != acc {
					return fail("step %d: Rank(%d) is %d, want %d of %d", i, v, r, acc, size)
				}
				if r := ct.Rank(float64(v) + 0.5); r != acc+k {
					return fail("step %d: Rank(%d.5) is %d, want %d of %d", i, v, r, acc+k, size)
				}
			}
			for ; next < acc+k; next += step {
				nd := ct.Select(next)
				if nd == nil || nd.Value() != float64(v) {
					return fail("step %d: Select(%d) is %v, want %d of %d", i, next, nd, v, size)
				}
			}
			acc += k
		}
		if size > 0 {
			if nd := ct.Select(size); nd != nil {
				return fail("step %d: Select(%d) of %d elements is %v", i, size, size, nd.Value())
			}
		}
		if c.S.Kind != "skiplist" && size > 0 {
			r, err := longRoot(ct)
			if err != nil {
				return err
			}
			var vals []float64
			_, isAVL := ct.(*avl.Tree)
			res, err := walk(r, isAVL, &vals, 0)
			if err != nil {
				return err
			}
			if res.size != size || !sort.Float64sAreSorted(vals) {
				return fail("step %d: the tree holds %d values, sorted: %v", i, res.size, sort.Float64sAreSorted(vals))
			}
			if lim := 2*math.Log2(float64(size+1)) + 2; float64(res.height) > lim {
				return fail("step %d: height %d with %d elements", i, res.height, size)
			}
		}
		return nil
	}
	key := 0
	pick := func(i int) int {
		switch c.Dist {
		case 2:
			key = (key + 1) % V
			return key
		case 3:
			key = (key + V - 1) % V
			return key
		}
		return int(s.next()>>20) % V
	}
	for i := 1; i <= c.N; i++ {
		if i == c.Clear {
			ct.Clear()
			cnt = make([]int, V)
			size = 0
		}
		v := pick(i)
		ct.Add(float64(v))
		cnt[v]++
		size++
		if s.next()%8 == 0 {
			r := int(s.next()>>20) % V
			if cnt[r] > 0 {
				cnt[r]--
				size--
			}
			ct.Remove(float64(r))
		}
		if i == c.N || i == 65537 || i == 50001 || i == 33000 {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	// then most leave
	for v, k := range cnt {
		if v%16 == 0 {
			continue
		}
		for ; k > 0; k-- {
			ct.Remove(float64(v))
			size--
		}
		cnt[v] = 0
	}
	if err := check(c.N + 1); err != nil {
		return err
	}
	x.NonTrivial()
	return nil
}

// longRoot finds the root of a tree container.
func longRoot(ct container) (treeNode, error) {
	n := ct.Size()
	for k := 0; k < n; k++ {
		for _, i := range []int{n/2 + k, n/2 - k} {
			if i >= 0 && i < n {
				if nd := asTree(ct.Select(i)); nd != nil && nd.Size() == n {
					return nd, nil
				}
			}
		}
	}
	return nil, fail("no node whose subtree is the whole tree")
}

func init() {
	engine.Reg("C07", "far", "a Core of order 59 to 61 with 132000 to 160000 values; non-trivial: as for very-long", 8, 48, genFar, runLong, engine.NoBoost())
	rule := "very long: up to 140000 values, windows up to all of them, lags up to 5000, against a plain two-pass or sorted computation at powers of two and around the window; non-trivial: more than 60000 values since the last Clear at a comparison"
	for _, r := range []struct {
		p     string
		n, m  int
		kinds []string
	}{
		{"C01", 64, 16, []string{"max", "min"}},
		{"C02", 32, 8, []string{"quantile", "median", "iqr"}},
		{"C03", 24, 0, []string{"avl", "rb", "skiplist"}},
		{"C04", 24, 0, []string{"avl", "rb"}},
		{"C05", 48, 8, []string{"heapmedian"}},
		{"C06", 48, 16, []string{"mean", "moment", "std", "skew", "kurt"}},
		{"C07", 48, 8, []string{"mcore"}},
		{"C08", 48, 8, []string{"ewma", "ewmmoment", "ewmstd"}},
		{"C09", 16, 0, []string{"jcore"}},
		{"C10", 16, 0, []string{"cov", "corr"}},
		{"C11", 16, 0, []string{"ewmcov", "ewmcorr"}},
		{"C12", 16, 0, []string{"autocov", "autocorr"}},
		{"C25", 40, 0, []string{"max", "quantile", "heapmedian", "mean", "moment", "skew", "kurt", "mcore", "cov", "autocov"}},
	} {
		if r.m > 0 {
			engine.Reg(r.p, "million", "the same with 1.06 to 2.4 million values; non-trivial: as there", r.m, r.m*8, genMillion(r.kinds), runLong, engine.NoBoost())
		}
		engine.Reg(r.p, "very-long", rule, r.n, r.n*12, genLong(r.kinds), runLong, engine.NoBoost())
	}
}
