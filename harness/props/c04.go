package props

import (
	"math"
	"reflect"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile/order"
	"github.com/alexander-yu/stream/quantile/ost/avl"
	"github.com/alexander-yu/stream/quantile/ost/rb"
	"pgregory.net/rapid"
)

type treeNode interface {
	Left() (order.Node, error)
	Right() (order.Node, error)
	Size() int
	Value() float64
}

func asTree(n order.Node) treeNode {
	if n == nil {
		return nil
	}
	if v := reflect.ValueOf(n); v.Kind() == reflect.Ptr && v.IsNil() {
		return nil
	}
	return n.(treeNode)
}

type walkRes struct {
	size, height int
}

// walk checks order, sizes and (AVL) heights and balance of the subtree; out collects the values in order.
func walk(n treeNode, avlTree bool, out *[]float64, depth int) (walkRes, error) {
	if n == nil {
		return walkRes{0, -1}, nil
	}
	if depth > 5000 {
		return walkRes{}, fail("tree deeper than 5000")
	}
	l, err := n.Left()
	if err != nil {
		return walkRes{}, fail("Left: %v", err)
	}
	r, err := n.Right()
	if err != nil {
		return walkRes{}, fail("Right: %v", err)
	}
	lr, err := walk(asTree(l), avlTree, out, depth+1)
	if err != nil {
		return lr, err
	}
	*out = append(*out, n.Value())
	rr, err := walk(asTree(r), avlTree, out, depth+1)
	if err != nil {
		return rr, err
	}
	res := walkRes{lr.size + rr.size + 1, max(lr.height, rr.height) + 1}
	if n.Size() != res.size {
		return res, fail("node %v reports size %d, its subtree has %d", n.Value(), n.Size(), res.size)
	}
	if avlTree {
		if d := lr.height - rr.height; d > 1 || d < -1 {
			return res, fail("node %v: child heights %d and %d", n.Value(), lr.height, rr.height)
		}
		if h, ok := n.(interface{ Height() int }); ok && h.Height() != res.height {
			return res, fail("node %v reports height %d, actual %d", n.Value(), h.Height(), res.height)
		}
	}
	return res, nil
}

// root finds the node whose subtree is the whole tree through the public Select.
func root(s order.Statistic) (treeNode, error) {
	n := s.Size()
	if n == 0 {
		return nil, nil
	}
	try := func(k int) treeNode {
		nd := asTree(s.Select(k))
		if nd != nil && nd.Size() == n {
			return nd
		}
		return nil
	}
	for d := 0; d <= n; d++ {
		for _, k := range []int{n/2 + d, n/2 - d} {
			if k >= 0 && k < n {
				if r := try(k); r != nil {
					return r, nil
				}
			}
		}
	}
	return nil, fail("no node of size %d among %d elements", n, n)
}

func checkTree(s order.Statistic, m *contModel) error {
	n := len(m.s)
	if s.Size() != n {
		return fail("Size is %d, model %d", s.Size(), n)
	}
	if n == 0 {
		return nil
	}
	at, isAVL := s.(*avl.Tree)
	r, err := root(s)
	if err != nil {
		return err
	}
	var vals []float64
	res, err := walk(r, isAVL, &vals, 0)
	if err != nil {
		return err
	}
	for i, v := range vals {
		if v != m.s[i] {
			return fail("in-order value %d is %v, model %v", i, v, m.s[i])
		}
	}
	if len(vals) != n {
		return fail("%d nodes for %d values", len(vals), n)
	}
	// height counts levels (a single node has 1)
	levels := res.height + 1
	var bound float64
	if isAVL {
		bound = 1.4405 * math.Log2(float64(n)+2)
		if at.Height() != res.height {
			return fail("Tree.Height() is %d, actual %d", at.Height(), res.height)
		}
	} else {
		bound = 2*math.Log2(float64(n)+1) + 1
	}
	if float64(levels) > bound {
		return fail("%d levels for %d values, bound %.2f", levels, n, bound)
	}
	return nil
}

func genTree(big bool) func(t *rapid.T) contCase {
	return func(t *rapid.T) contCase {
		c := contCase{Kind: rapid.SampledFrom([]string{"rb", "avl"}).Draw(t, "kind")}
		pr := orderProfile(t, true)
		pn := 60
		if big {
			pn = 4000
		}
		opGen := rapid.Custom(func(t *rapid.T) Op {
			r := rapid.IntRange(0, 99).Draw(t, "op")
			switch {
			case r < 30:
				return Op{O: "add", X: []F{F(pr.g.Draw(t, "x"))}}
			case r < 55:
				return Op{O: "rem", N: rapid.IntRange(0, 1<<16).Draw(t, "i")}
			case r < 62:
				return Op{O: "remv", X: []F{F(pr.g.Draw(t, "x"))}}
			case r < 98:
				return Op{O: "pat", P: drawPat(t, pr, pn), N: rapid.IntRange(0, 3).Draw(t, "mode")}
			default:
				return Op{O: "clear"}
			}
		})
		min := lengthScale(t, 0, 0, 8, 20)
		if big {
			min = lengthScale(t, 0, 0, 3)
		}
		c.Ops = rapid.SliceOfN(opGen, min, 3*min+12).Draw(t, "ops")
		return c
	}
}

func runTree(big bool) func(c contCase, x *X) error {
	return func(c contCase, x *X) error {
		var s order.Statistic = &avl.Tree{}
		if c.Kind == "rb" {
			s = &rb.Tree{}
		}
		m := &contModel{}
		n, removed, maxN := 0, 0, 0
		for i, op0 := range c.Ops {
			for _, op := range contOps(op0, m) {
				n++
				switch op.O {
				case "add":
					s.Add(float64(op.X[0]))
					m.add(float64(op.X[0]))
				case "rem":
					if len(m.s) == 0 {
						continue
					}
					v := m.s[op.N%len(m.s)]
					s.Remove(v)
					m.remove(v)
					removed++
				case "remv":
					s.Remove(float64(op.X[0]))
					if m.remove(float64(op.X[0])) {
						removed++
					}
				case "clear":
					s.Clear()
					m.s = nil
				}
				maxN = max(maxN, len(m.s))
				if len(m.s) < 40 || n%(1+len(m.s)/8) == 0 {
					if err := checkTree(s, m); err != nil {
						return fail("op %d (%s), %d operations: %v", i, op.O, n, err)
					}
				}
			}
		}
		if err := checkTree(s, m); err != nil {
			return fail("at the end: %v", err)
		}
		x.Label(c.Kind)
		if maxN >= 15 && removed >= 3 {
			x.Label("rebalanced after removals")
			x.NonTrivial()
		}
		if maxN >= 1000 {
			x.Label("1000 or more values")
		}
		return nil
	}
}

func init() {
	engine.Reg("C04", "shape", "random and patterned Add/Remove/Clear sequences, shape walked after (nearly) every operation; non-trivial: at least 15 values held and 3 effective removals",
		16000, 320000, genTree(false), runTree(false))
	engine.Reg("C04", "big", "the same with runs of up to 4000 values (sorted, reversed, zig-zag, equal, sliding window)",
		800, 16000, genTree(true), runTree(true))
}
