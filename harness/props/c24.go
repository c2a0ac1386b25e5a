package props

import (
	heapops "container/heap"
	"sort"

	"verif/engine"

	"github.com/alexander-yu/stream/quantile/heap"
	"pgregory.net/rapid"
)

type heapCase struct {
	Init [2][]F  `json:"init"`
	Dir  [2]bool `json:"dir"` // true: greatest first
	Ops  []Op    `json:"ops"` // N selects the heap (N%2), M[0] the item
}

func genHeap(t *rapid.T) heapCase {
	pr := orderProfile(t, true)
	var c heapCase
	for i := range c.Init {
		c.Dir[i] = rapid.Bool().Draw(t, "dir")
		if rapid.Bool().Draw(t, "hasinit") {
			c.Init[i] = rapid.SliceOfN(rapid.Map(pr.g, func(v float64) F { return F(v) }), 0, 20).Draw(t, "init")
		}
	}
	opGen := rapid.Custom(func(t *rapid.T) Op {
		o := Op{O: rapid.SampledFrom([]string{"push", "push", "push", "pop", "update", "update", "remove", "move", "drain"}).Draw(t, "op"),
			N: rapid.IntRange(0, 1).Draw(t, "h")}
		if o.O == "drain" && rapid.IntRange(0, 9).Draw(t, "really") > 0 {
			o.O = "push"
		}
		o.X = []F{F(pr.g.Draw(t, "x"))}
		o.M = []int{rapid.IntRange(0, 1000).Draw(t, "i")}
		return o
	})
	min := lengthScale(t)
	c.Ops = rapid.SliceOfN(opGen, min, 3*min+20).Draw(t, "ops")
	return c
}

func runHeap(c heapCase, x *X) error {
	ids := [2]string{"low", "high"}
	var hs [2]*heap.Heap
	var held [2][]*heap.Item // items we hold pointers to, per heap
	var anon [2][]float64    // initial values (no pointer known)
	cmps := [2]func(a, b float64) bool{}
	for i := range hs {
		cmp := func(a, b float64) bool { return a < b }
		if c.Dir[i] {
			cmp = func(a, b float64) bool { return a > b }
		}
		cmps[i] = cmp
		init := floats(c.Init[i])
		hs[i] = heap.New(ids[i], init, cmp)
		anon[i] = append([]float64(nil), init...)
		for j, v := range floats(c.Init[i]) {
			if init[j] != v {
				return fail("New changed the caller's slice")
			}
		}
	}
	contents := func(i int) []float64 {
		r := append([]float64(nil), anon[i]...)
		for _, it := range held[i] {
			r = append(r, it.Val)
		}
		sort.Slice(r, func(a, b int) bool { return cmps[i](r[a], r[b]) })
		return r
	}
	check := func(step int) error {
		for i, h := range hs {
			want := contents(i)
			if h.Len() != len(want) {
				return fail("op %d: heap %d Len %d, model %d", step, i, h.Len(), len(want))
			}
			vals := h.Values()
			if len(vals) != len(want) {
				return fail("op %d: heap %d has %d Values, model %d", step, i, len(vals), len(want))
			}
			sort.Slice(vals, func(a, b int) bool { return cmps[i](vals[a], vals[b]) })
			for j := range vals {
				if vals[j] != want[j] {
					return fail("op %d: heap %d Values %v, model %v", step, i, vals, want)
				}
			}
			if len(want) > 0 && h.Peek() != want[0] {
				return fail("op %d: heap %d Peek %v, model %v", step, i, h.Peek(), want[0])
			}
			for _, it := range held[i] {
				if it.HeapID != ids[i] {
					return fail("op %d: item in heap %s claims heap %s", step, ids[i], it.HeapID)
				}
			}
		}
		return nil
	}
	// popped maps a popped item back to the model
	popped := func(i int, it *heap.Item) error {
		for j, p := range held[i] {
			if p == it {
				held[i] = append(held[i][:j], held[i][j+1:]...)
				return nil
			}
		}
		for j, v := range anon[i] {
			if v == it.Val {
				anon[i] = append(anon[i][:j], anon[i][j+1:]...)
				return nil
			}
		}
		return fail("popped an item which the heap did not hold: %v", it.Val)
	}
	if err := check(-1); err != nil {
		return err
	}
	touched := 0
	for s, op := range c.Ops {
		i := op.N
		h := hs[i]
		v := float64(op.X[0])
		pick := func() *heap.Item {
			if len(held[i]) == 0 {
				return nil
			}
			return held[i][op.M[0]%len(held[i])]
		}
		drop := func(it *heap.Item) {
			for j, p := range held[i] {
				if p == it {
					held[i] = append(held[i][:j], held[i][j+1:]...)
					return
				}
			}
		}
		switch op.O {
		case "push":
			it := &heap.Item{Val: v}
			heapops.Push(h, it)
			held[i] = append(held[i], it)
		case "pop":
			if h.Len() == 0 {
				continue
			}
			want := contents(i)[0]
			it := heapops.Pop(h).(*heap.Item)
			if it.Val != want {
				return fail("op %d: popped %v, want %v", s, it.Val, want)
			}
			if err := popped(i, it); err != nil {
				return err
			}
		case "update":
			if it := pick(); it != nil {
				h.Update(it, v)
				if it.Val != v {
					return fail("op %d: Update left value %v", s, it.Val)
				}
				touched++
			}
		case "remove":
			if it := pick(); it != nil {
				h.Remove(it)
				drop(it)
				touched++
			}
		case "move":
			if it := pick(); it != nil {
				h.Remove(it)
				drop(it)
				heapops.Push(hs[1-i], it)
				held[1-i] = append(held[1-i], it)
				touched++
			}
		case "drain":
			for h.Len() > 0 {
				want := contents(i)[0]
				it := heapops.Pop(h).(*heap.Item)
				if it.Val != want {
					return fail("op %d: drained %v, want %v", s, it.Val, want)
				}
				if err := popped(i, it); err != nil {
					return err
				}
			}
		}
		if err := check(s); err != nil {
			return err
		}
	}
	if touched > 0 && len(held[0])+len(held[1]) > 2 {
		x.NonTrivial()
	}
	return nil
}

func init() {
	engine.Reg("C24", "ops", "two heaps with arbitrary initial values and directions, push/pop/Update/Remove/move of random items, contents compared after every operation; non-trivial: an Update or Remove of an inner item happened and more than two items remain",
		60000, 1200000, genHeap, runHeap)
}
