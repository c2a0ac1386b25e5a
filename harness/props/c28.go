package props

import (
	"fmt"
	"regexp"
	"strings"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"pgregory.net/rapid"
)

// C28 reuses contCase: String of containers after generated histories.

func genPrint(large bool) func(t *rapid.T) contCase {
	return func(t *rapid.T) contCase { return drawPrint(t, large) }
}

func drawPrint(t *rapid.T, large bool) contCase {
	c := contCase{Kind: rapid.SampledFrom([]string{"skiplist", "rb", "avl"}).Draw(t, "kind")}
	if c.Kind == "skiplist" {
		drawSkip(t, &c.Sk)
		if c.Sk.ML > 12 {
			c.Sk.ML = 12
		}
	}
	big := rapid.SampledFrom([]float64{1, 1, 1e6, 1e12, 1e-3, 1e-9}).Draw(t, "scale")
	hi := rapid.SampledFrom([]int{2, 12, 1000}).Draw(t, "range")
	lo := rapid.SampledFrom([]int{0, 0, -hi}).Draw(t, "low")
	g := rapid.Map(rapid.IntRange(lo, hi), func(i int) float64 { return float64(i) * big })
	if rapid.Bool().Draw(t, "any") {
		g = orderProfile(t, true).g
		if c.Kind == "skiplist" {
			g = orderProfile(t, false).g // lines with infinities could not be read back
		}
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		switch r := rapid.IntRange(0, 99).Draw(t, "op"); {
		case r < 60:
			return Op{O: "add", X: []F{F(g.Draw(t, "x"))}}
		case r < 85:
			return Op{O: "rem", N: rapid.IntRange(0, 1<<16).Draw(t, "i")}
		case r < 96:
			return Op{O: "remv", X: []F{F(g.Draw(t, "x"))}}
		default:
			return Op{O: "clear"}
		}
	})
	if large {
		c.Ops = nil
		k, sizes := rapid.IntRange(1, 4).Draw(t, "parts"), []int{100, 300, 1000, 1600}
		if c.Kind == "skiplist" {
			sizes = []int{20, 50, 100, 150} // drawing takes quadratic time, on each level
		}
		for i := 0; i < k; i++ {
			p := &Pat{
				Kind: rapid.SampledFrom([]string{"uni", "dup", "up", "down", "zigzag", "const", "saw", "organ", "walk"}).Draw(t, "pat"),
				N:    rapid.SampledFrom(sizes).Draw(t, "n") + rapid.IntRange(0, 50).Draw(t, "more"),
				Seed: uint64(rapid.IntRange(0, 1<<30).Draw(t, "seed")),
				A:    1, B: F(rapid.SampledFrom([]float64{2, 100, 1e6}).Draw(t, "b")), M: rapid.IntRange(2, 12).Draw(t, "m"),
			}
			c.Ops = append(c.Ops, Op{O: "pat", P: p, N: rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "mode")})
			for j := rapid.IntRange(0, 20).Draw(t, "removals"); j > 0; j-- {
				c.Ops = append(c.Ops, Op{O: "rem", N: rapid.IntRange(0, 1<<16).Draw(t, "i")})
			}
		}
		return c
	}
	n := rapid.SampledFrom([]int{0, 3, 10, 25, 60}).Draw(t, "len")
	c.Ops = rapid.SliceOfN(opGen, n, 2*n+4).Draw(t, "ops")
	return c
}

// drawn is the documented drawing of the subtree: the right child above, the left one below, joined by lines.
func drawn(n treeNode, prefix string, tail bool, out *[]string, depth int) error {
	if n == nil {
		return nil
	}
	if depth > 5000 {
		return fail("tree deeper than 5000")
	}
	l, err := n.Left()
	if err != nil {
		return fail("Left: %v", err)
	}
	r, err := n.Right()
	if err != nil {
		return fail("Right: %v", err)
	}
	above, below, joint := "    ", "│   ", "┌── "
	if tail {
		above, below, joint = "│   ", "    ", "└── "
	}
	if err := drawn(asTree(r), prefix+above, false, out, depth+1); err != nil {
		return err
	}
	*out = append(*out, prefix+joint+fmt.Sprintf("%f", n.Value()))
	return drawn(asTree(l), prefix+below, true, out, depth+1)
}

func checkDrawing(s order.Statistic, text string, m *contModel) error {
	var want []string
	if len(m.s) > 0 {
		r, err := root(s)
		if err != nil {
			return err
		}
		if err := drawn(r, "", true, &want, 0); err != nil {
			return err
		}
	}
	if len(want) != len(m.s) {
		return fail("Left and Right reach %d of %d values", len(want), len(m.s))
	}
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if text == "" {
		got = nil
	}
	if len(got) != len(want) {
		return fail("%d lines for %d values:\n%s", len(got), len(m.s), short(text))
	}
	for i, w := range want {
		if got[i] != w {
			return fail("line %d is %q, want %q; all:\n%s", i, got[i], w, text)
		}
		v := m.s[len(m.s)-1-i]
		if t := strings.TrimPrefix(w[strings.LastIndex(w, " ")+1:], "-"); t != strings.TrimPrefix(fmt.Sprintf("%f", v), "-") {
			return fail("line %d is %q, the value there should be %f", i, w, v)
		}
	}
	return nil
}

var levelItem = regexp.MustCompile(`^\d\.\d+e[+-]\d+`)

// readLevel finds the positions of the values that a line shows; text is what follows the node at pos. A dash in front of a
// value can be its sign or belong to the link, which the values themselves tell.
func readLevel(text string, pos int, vals []string, at []int) ([]int, error) {
	k := len(text) - len(strings.TrimLeft(text, "-"))
	if k == 0 {
		return nil, fail("no link after position %d", pos)
	}
	text = text[k:]
	if text == "tail" {
		if pos+k != len(vals)+1 {
			return nil, fail("it spans %d positions for %d values", pos+k, len(vals))
		}
		return at, nil
	}
	it := levelItem.FindString(text)
	if it == "" {
		return nil, fail("no value after position %d, but %q", pos, short(text))
	}
	var err error
	for sign := 0; sign < 2; sign++ {
		to, v := pos+k-sign, strings.Repeat("-", sign)+it
		if to == pos {
			continue
		}
		switch {
		case to > len(vals):
			err = fail("it shows %s at position %d of %d", v, to, len(vals))
		case vals[to-1] != v:
			err = fail("it shows %s at position %d, want %s", v, to, vals[to-1])
		default:
			var res []int
			if res, err = readLevel(text[len(it):], to, vals, append(at[:len(at):len(at)], to)); err == nil {
				return res, nil
			}
		}
	}
	return nil, err
}

func short(s string) string {
	if len(s) > 400 {
		return s[:200] + "..." + s[len(s)-200:]
	}
	return s
}

func checkLevels(text string, m *contModel) error {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	vals := make([]string, len(m.s))
	for i, v := range m.s {
		vals[i] = fmt.Sprintf("%.9e", v)
	}
	below := map[int]bool{}
	for i := len(lines) - 1; i >= 0; i-- {
		ln := lines[i]
		if !strings.HasPrefix(ln, "head") {
			return fail("line %d is %q; model %v", i, short(ln), brief(m.s))
		}
		at, err := readLevel(ln[4:], 0, vals, nil)
		if err != nil {
			return fail("line %d: %v: %q; model %v", i, err, short(ln), brief(m.s))
		}
		here := map[int]bool{}
		for _, p := range at {
			here[p] = true
			if i < len(lines)-1 && !below[p] {
				return fail("line %d shows %s at position %d, the one below does not: %q", i, vals[p-1], p, short(ln))
			}
		}
		if i == len(lines)-1 && len(here) != len(m.s) {
			return fail("the lowest level shows %d of %d values: %q", len(here), len(m.s), short(ln))
		}
		below = here
	}
	return nil
}

func runPrint(c contCase, x *X) error {
	s, err := buildCont(c.Kind, c.Sk, nil)
	if err != nil {
		return fail("constructor: %v", err)
	}
	m := &contModel{}
	levels := 0
	if c.Kind == "skiplist" {
		if levels = c.Sk.ML; levels == 0 {
			levels = 12
		}
	}
	check := func(i int) error {
		str := s.(fmt.Stringer)
		text := str.String()
		if again := str.String(); again != text {
			return fail("step %d: String twice:\n%s\n%s", i, text, again)
		}
		var err error
		switch s.(type) {
		case *avl.Tree, *rb.Tree:
			err = checkDrawing(s, text, m)
		default:
			if n := strings.Count(text, "\n"); n != levels {
				return fail("step %d: %d lines for %d levels:\n%s", i, n, levels, text)
			}
			err = checkLevels(text, m)
		}
		if err != nil {
			return fail("step %d: %s: %v", i, c.Kind, err)
		}
		return nil
	}
	if err := check(-1); err != nil {
		return err
	}
	removed, most := false, 0
	num := func(op Op) float64 {
		v := float64(op.X[0])
		if v == 0 && c.Kind == "skiplist" {
			return 0 // the sign of zero does not matter to the order, but is drawn
		}
		return v
	}
	one := func(op Op) {
		switch op.O {
		case "add":
			s.Add(num(op))
			m.add(num(op))
		case "rem":
			if len(m.s) > 0 {
				v := m.s[op.N%len(m.s)]
				s.Remove(v)
				m.remove(v)
				removed = true
			}
		case "remv":
			s.Remove(num(op))
			removed = m.remove(num(op)) || removed
		case "clear":
			s.Clear()
			m.s = nil
		}
		most = max(most, len(m.s))
	}
	for i, op := range c.Ops {
		for _, o := range contOps(op, m) {
			one(o)
		}
		if op.O == "pat" || i%3 == 0 && most < 100 || len(c.Ops)-i < 4 && most < 100 || i == len(c.Ops)-1 {
			if err := check(i); err != nil {
				return err
			}
		}
	}
	x.Label(c.Kind)
	if removed && most > 3 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C28", "drawings", "generated additions, removals and clears: a tree's String is the drawing of what Left, Right and Value report, a skip list's String is read back and compared with a sorted list, level by level; non-trivial: a removal, and more than three values at some time",
		60000, 1200000, genPrint(false), runPrint)
	engine.Reg("C28", "large", "the same with hundreds to thousands of values; non-trivial: as there",
		600, 12000, genPrint(true), runPrint)
}
