package props

import (
	"fmt"
	"math"
	"math/rand"

	"verif/engine"

	"github.com/alexander-yu/stream/sample"
	"pgregory.net/rapid"
)

// resCase: one reservoir, a stream of distinct elements, reads at some points.
type resCase struct {
	Size  int   `json:"size"`
	N     int   `json:"n"`
	Seed  int64 `json:"seed"`
	Reads []int `json:"reads"` // read (and scribble over the result) every so many pushes
	Kind  int   `json:"kind"`  // 0 pointers, 1 slices (not comparable), 2 nil for every other one, 3 pairs of equal values, 4 functions
}

func genRes(t *rapid.T) resCase {
	c := resCase{Size: rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 8, 20, 64}).Draw(t, "size"), Seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
	c.N = rapid.SampledFrom([]int{0, 1, c.Size / 2, c.Size, c.Size + 1, 2 * c.Size, 10 * c.Size, 300}).Draw(t, "n")
	c.Kind = rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4}).Draw(t, "kind")
	c.Reads = rapid.SliceOfN(rapid.IntRange(1, 40), 0, 3).Draw(t, "reads")
	return c
}

type elem struct{ id int }

func (c resCase) elem(i int) interface{} {
	switch {
	case c.Kind == 1:
		return []int{i}
	case c.Kind == 2 && i%2 == 1:
		return nil
	case c.Kind == 3:
		return i / 2
	case c.Kind == 4:
		return func() int { return i }
	}
	return &elem{i}
}

// ident: the number of an element, -1 for nil.
func (c resCase) ident(v interface{}) int {
	switch e := v.(type) {
	case nil:
		return -1
	case []int:
		return e[0]
	case int:
		return e
	case func() int:
		return e()
	case *elem:
		return e.id
	}
	return -2
}

func runRes(c resCase, x *X) error {
	rand.Seed(c.Seed)
	r := &sample.Reservoir{Size: c.Size}
	check := func(n int) error {
		got := r.Sample()
		want := n
		if c.Size < n {
			want = c.Size
		}
		if len(got) != want {
			return fail("after %d pushes of size %d the sample has %d elements", n, c.Size, len(got))
		}
		seen := map[int]int{}
		for _, v := range got {
			id := c.ident(v)
			if id < -1 || id >= n {
				return fail("after %d pushes the sample holds %v, which was not pushed", n, id)
			}
			seen[id]++
		}
		pushed := map[int]int{}
		for i := 0; i < n; i++ {
			pushed[c.ident(c.elem(i))]++
		}
		for id, k := range seen {
			if k > pushed[id] {
				return fail("after %d pushes the sample holds element %d %d times, it was pushed %d times", n, id, k, pushed[id])
			}
			if n <= c.Size && k != pushed[id] {
				return fail("after %d pushes of size %d elements are missing", n, c.Size)
			}
		}
		// what the caller gets is a copy
		keep := append([]interface{}(nil), got...)
		for i := range got {
			got[i] = nil
		}
		again := r.Sample()
		if len(again) != len(keep) {
			return fail("after %d pushes: a second Sample has %d elements, the first %d", n, len(again), len(keep))
		}
		for i := range again {
			if c.ident(again[i]) != c.ident(keep[i]) {
				return fail("after %d pushes: overwriting a returned sample (or reading it) changed the reservoir: %v", n, c.ident(again[i]))
			}
		}
		return nil
	}
	if err := check(0); err != nil {
		return err
	}
	type old struct {
		got, copy []interface{}
	}
	var olds []old
	for i := 0; i < c.N; i++ {
		r.Push(c.elem(i))
		read := i+1 == c.N || i < 4
		for _, k := range c.Reads {
			read = read || (i+1)%k == 0
		}
		if read {
			if err := check(i + 1); err != nil {
				return err
			}
			g := r.Sample()
			olds = append(olds, old{g, append([]interface{}(nil), g...)})
		}
		if r.Size != c.Size {
			return fail("Size changed to %d", r.Size)
		}
	}
	for _, o := range olds {
		for i := range o.got {
			if c.ident(o.got[i]) != c.ident(o.copy[i]) {
				return fail("later pushes changed an earlier sample")
			}
		}
	}
	if c.N > c.Size && c.Size > 0 {
		x.NonTrivial()
	}
	return nil
}

// uniCase: many trials of a small reservoir, every set counted.
type uniCase struct {
	Size   int   `json:"size"`
	N      int   `json:"n"`
	Trials int   `json:"trials"`
	Seed   int64 `json:"seed"`
	Read   bool  `json:"read"`
	Pair   bool  `json:"pair"` // feed a second reservoir alternately
}

func binom(n, k int) int {
	r := 1
	for i := 0; i < k; i++ {
		r = r * (n - i) / (i + 1)
	}
	return r
}

func genUni(maxN, budget int) func(t *rapid.T) uniCase {
	return func(t *rapid.T) uniCase {
		c := uniCase{Seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Read: rapid.Bool().Draw(t, "read"), Pair: rapid.IntRange(0, 3).Draw(t, "pair") == 0}
		c.N = rapid.IntRange(2, maxN).Draw(t, "n")
		c.Size = rapid.IntRange(1, c.N-1).Draw(t, "size")
		if c.Size > 6 && maxN <= 14 {
			c.Size = rapid.IntRange(1, 6).Draw(t, "size2")
		}
		if c.Size >= c.N {
			c.Size = 1
		}
		c.Trials = budget / c.N
		return c
	}
}

// unlikely bounds the probability (Chernoff) that a sum of independent or negatively associated indicators with mean mu
// is as far from it as k.
func unlikely(mu float64, k float64) float64 {
	if k == mu {
		return 0
	}
	if k == 0 {
		return mu
	}
	return k*math.Log(k/mu) - k + mu // -log of the bound
}

const unlikelyAt = 34.5 // exp(-34.5) = 1e-15 per cell

func runUni(c uniCase, x *X) error {
	rand.Seed(c.Seed)
	pos := make([]int, c.N)
	subsets := map[uint64]int{}
	countSets := c.N <= 14
	other := &sample.Reservoir{Size: c.Size}
	for i := 0; i < c.Trials; i++ {
		r := &sample.Reservoir{Size: c.Size}
		for j := 0; j < c.N; j++ {
			r.Push(j)
			if c.Pair {
				other.Push(-1)
			}
			if c.Read && j%3 == 1 {
				r.Sample()
			}
		}
		var key uint64
		for _, v := range r.Sample() {
			p := v.(int)
			pos[p]++
			if countSets {
				key |= 1 << uint(p)
			}
		}
		if countSets {
			subsets[key]++
		}
	}
	T := float64(c.Trials)
	for j, k := range pos {
		mu := T * float64(c.Size) / float64(c.N)
		if unlikely(mu, float64(k)) > unlikelyAt {
			return fail("size %d, %d pushes, %d trials: position %d kept %d times, expected %.0f (chance below 1e-15)", c.Size, c.N, c.Trials, j, k, mu)
		}
		// the chance not to be kept is as exact
		if unlikely(T-mu, T-float64(k)) > unlikelyAt {
			return fail("size %d, %d pushes, %d trials: position %d kept %d times, expected %.0f (chance below 1e-15)", c.Size, c.N, c.Trials, j, k, mu)
		}
	}
	// blocks of positions: deciles and the tail
	blocks := [][2]int{{0, c.Size}, {c.Size, c.N}, {c.N - c.N/100, c.N}, {c.N - c.N/1000, c.N}}
	for b := 0; b < 10; b++ {
		blocks = append(blocks, [2]int{b * c.N / 10, (b + 1) * c.N / 10})
	}
	for _, b := range blocks {
		lo, hi := b[0], b[1]
		if hi <= lo {
			continue
		}
		k := 0
		for _, v := range pos[lo:hi] {
			k += v
		}
		mu := T * float64(c.Size) * float64(hi-lo) / float64(c.N)
		all := T * float64(hi-lo)
		if unlikely(mu, float64(k)) > unlikelyAt || unlikely(all-mu, all-float64(k)) > unlikelyAt {
			return fail("size %d, %d pushes, %d trials: positions %d..%d kept %d times, expected %.0f (chance below 1e-15)", c.Size, c.N, c.Trials, lo, hi-1, k, mu)
		}
	}
	if countSets {
		cells := binom(c.N, c.Size)
		mu := T / float64(cells)
		chi := 0.0
		for key, k := range subsets {
			if unlikely(mu, float64(k)) > unlikelyAt {
				return fail("size %d, %d pushes, %d trials: set %b came up %d times, expected %.1f (chance below 1e-15)", c.Size, c.N, c.Trials, key, k, mu)
			}
			chi += (float64(k) - mu) * (float64(k) - mu) / mu
		}
		chi += float64(cells-len(subsets)) * mu
		if len(subsets) > cells {
			return fail("%d different sets of %d positions out of %d", len(subsets), c.Size, c.N)
		}
		if mu > 40 {
			if mu > unlikelyAt && len(subsets) < cells {
				return fail("size %d, %d pushes, %d trials: only %d of %d sets came up, each expected %.1f times", c.Size, c.N, c.Trials, len(subsets), cells, mu)
			}
			// Wilson-Hilferty: a cube-root normal approximation of chi-square
			df := float64(cells - 1)
			if df > 0 {
				z := (math.Cbrt(chi/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
				x.Obs(math.Abs(z)/9, func() string { return fmt.Sprintf("z=%.2f size %d n %d", z, c.Size, c.N) })
				if z > 9 {
					return fail("size %d, %d pushes, %d trials: sets are not equally likely: chi-square %.1f with %d degrees of freedom (%.1f sigma)", c.Size, c.N, c.Trials, chi, cells-1, z)
				}
			}
			x.Label("every set counted")
		}
	}
	x.NonTrivial()
	return nil
}

func genUniHuge(t *rapid.T) uniCase {
	c := uniCase{Seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Read: rapid.IntRange(0, 9).Draw(t, "read") == 0}
	c.N = rapid.SampledFrom([]int{1000, 1025, 5000, 33000, 66000, 140000, 300000}).Draw(t, "n") + rapid.IntRange(0, 999).Draw(t, "n2")
	c.Size = max(1, c.N*rapid.IntRange(1, 999).Draw(t, "permille")/1000)
	if c.Read { // reading copies the sample
		c.Size = 1 + c.Size%20
	}
	c.Trials = max(1, 3000000/c.N)
	return c
}

// tieCase: a stream of few different values, so that the sample holds several that are equal.
type tieCase struct {
	Size   int   `json:"size"`
	Vals   []int `json:"vals"`
	Kind   int   `json:"kind"` // 0 ints, 1 strings, 2 slices, 3 shared pointers, 4 value 0 is nil
	Trials int   `json:"trials"`
	Seed   int64 `json:"seed"`
	Read   bool  `json:"read"`
}

func genTie(t *rapid.T) tieCase {
	c := tieCase{Seed: int64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Kind: rapid.IntRange(0, 4).Draw(t, "kind"), Read: rapid.IntRange(0, 3).Draw(t, "read") == 0}
	n := rapid.IntRange(2, 24).Draw(t, "n")
	c.Size = min(rapid.IntRange(1, 6).Draw(t, "size"), n-1)
	k := rapid.IntRange(1, 4).Draw(t, "values")
	shape := rapid.IntRange(0, 3).Draw(t, "shape")
	for i := 0; i < n; i++ {
		switch shape {
		case 0: // turns
			c.Vals = append(c.Vals, i%k)
		case 1: // runs
			c.Vals = append(c.Vals, i*k/n)
		case 2: // one value but for a few
			c.Vals = append(c.Vals, max(0, rapid.IntRange(0, 4).Draw(t, "v")-3))
		default:
			c.Vals = append(c.Vals, rapid.IntRange(0, k).Draw(t, "v"))
		}
	}
	c.Trials = 1200000 / n
	return c
}

func runTie(c tieCase, x *X) error {
	rand.Seed(c.Seed)
	n, vals := len(c.Vals), 0
	for _, v := range c.Vals {
		vals = max(vals, v+1)
	}
	mult := make([]int, vals)
	for _, v := range c.Vals {
		mult[v]++
	}
	ptrs := make([]*elem, vals)
	for i := range ptrs {
		ptrs[i] = &elem{i}
	}
	mk := func(v int) interface{} {
		switch {
		case c.Kind == 1:
			return fmt.Sprint(v)
		case c.Kind == 2:
			return []int{v}
		case c.Kind == 3:
			return ptrs[v]
		case c.Kind == 4 && v == 0:
			return nil
		}
		return v
	}
	elems := make([]interface{}, n)
	for i, v := range c.Vals {
		elems[i] = mk(v)
	}
	num := func(e interface{}) int {
		switch e := e.(type) {
		case int:
			return e
		case string:
			return int(e[0] - '0')
		case []int:
			return e[0]
		case *elem:
			return e.id
		}
		return 0
	}
	// how often the sample held so many of each value
	made := map[[5]int8]int{}
	for i := 0; i < c.Trials; i++ {
		r := &sample.Reservoir{Size: c.Size}
		for j, e := range elems {
			r.Push(e)
			if c.Read && j%3 == 1 {
				r.Sample()
			}
		}
		got := r.Sample()
		if len(got) != c.Size {
			return fail("after %d pushes of size %d the sample has %d elements", n, c.Size, len(got))
		}
		var key [5]int8
		for _, e := range got {
			key[num(e)]++
		}
		made[key]++
	}
	T := float64(c.Trials)
	// every composition has the chance of drawing it without replacement
	total := float64(binom(n, c.Size))
	var walk func(v, left int, key [5]int8, ways float64) error
	seen := 0
	walk = func(v, left int, key [5]int8, ways float64) error {
		if v == vals {
			if left > 0 {
				return nil
			}
			k := made[key]
			seen += k
			mu := T * ways / total
			if unlikely(mu, float64(k)) > unlikelyAt || ways < total && unlikely(T-mu, T-float64(k)) > unlikelyAt {
				return fail("size %d, %d pushes with %v of each value, %d trials: samples with %v of them came up %d times, expected %.0f (chance below 1e-15)", c.Size, n, mult, c.Trials, key[:vals], k, mu)
			}
			return nil
		}
		for a := 0; a <= left && a <= mult[v]; a++ {
			key[v] = int8(a)
			if err := walk(v+1, left-a, key, ways*float64(binom(mult[v], a))); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(0, c.Size, [5]int8{}, 1); err != nil {
		return err
	}
	if seen != c.Trials {
		return fail("size %d, %d pushes with %v of each value: %d of %d samples hold more of a value than were pushed", c.Size, n, mult, c.Trials-seen, c.Trials)
	}
	if vals > 1 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C19", "contents", "streams of distinct elements: size, distinctness, completeness while n<=s, Sample a copy that neither the caller nor later pushes change; non-trivial: more pushes than the (positive) size",
		20000, 400000, genRes, runRes)
	engine.Reg("C19", "uniform", "many trials with s<n<=14: each position and each set of positions as often as it should be (Chernoff bound 1e-15 per cell, chi-square at 9 sigma); every case is non-trivial",
		64, 800, genUni(12, 2000000), runUni, engine.FreshOnly())
	engine.Reg("C19", "uniform-huge", "streams of 1000 to 300000 into reservoirs of any smaller size: tenths, head and tail of the stream; every case is non-trivial",
		48, 600, genUniHuge, runUni, engine.FreshOnly())
	engine.Reg("C19", "uniform-long", "streams of up to 400: each position and each tenth of the stream; every case is non-trivial",
		32, 400, genUni(400, 2000000), runUni, engine.FreshOnly())
	engine.Reg("C19", "uniform-equal", "many trials with streams of up to five different values (numbers, strings, slices, shared pointers, nil): how many of each the sample holds, against drawing without replacement (Chernoff bound 1e-15 per composition); non-trivial: two or more values",
		200, 4000, genTie, runTie, engine.FreshOnly())
}
