package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// avlWalk is a long history on one AVL variant with its reference contents. Keys are ints.
type avlWalk struct {
	w    *engine.W
	m    types.MapOperable
	live map[int]int
	step int
	// which oracles apply
	contents, balance, persist bool
	kept                       []keptVersion
}

type keptVersion struct {
	snap snapshot
	it   types.KVIterator
	left []pair
}

func (a *avlWalk) sorted() (ks []int) {
	for k := range a.live {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return
}

// keep retains the current version together with an iterator part of the way through it.
func (a *avlWalk) keep() {
	ks := a.sorted()
	it := a.m.(types.KVIterable).Iterate()
	at := 0
	if len(ks) > 0 {
		at = a.step % len(ks)
	}
	for i := 0; i < at; i++ {
		if _, _, it = it(); it == nil {
			it = func() (types.Hashable, interface{}, types.KVIterator) { return nil, nil, nil }
			break
		}
	}
	var left []pair
	for _, k := range ks[at:] {
		left = append(left, pair{types.Int(k), a.live[k]})
	}
	a.kept = append(a.kept, keptVersion{takeSnapshot(a.m.(rooted).Root()), it, left})
}

func (a *avlWalk) checkKept() string {
	for i, v := range a.kept {
		if m := v.snap.check(); m != "" {
			return errf("version %d: %s", i, m)
		}
		got, _ := drainKV(v.it, len(v.left)+64)
		if m := cmpPairs(fmt.Sprintf("iterator kept since version %d", i), got, v.left, true); m != "" {
			return m
		}
	}
	a.kept = nil
	return ""
}

func (a *avlWalk) put(k, v int) string {
	a.before()
	if err := a.m.Put(types.Int(k), v); err != nil {
		return errf("put(%d) failed: %v", k, firstLine(err))
	}
	a.live[k] = v
	return ""
}

func (a *avlWalk) remove(k int) string {
	a.before()
	want, ok := a.live[k]
	got, err := a.m.Remove(types.Int(k))
	if (err == nil) != ok || (ok && got != want) {
		return errf("remove(%d) returned %s (error %v), present=%v value %d", k, show(got), err != nil, ok, want)
	}
	delete(a.live, k)
	return ""
}

func (a *avlWalk) before() {
	a.w.Steps(1)
	a.step++
	if a.persist {
		a.keep()
	}
}

// check compares the whole tree with the reference.
func (a *avlWalk) check() string {
	root := asBinary(a.m.(rooted).Root())
	if a.balance {
		if _, m := realHeight(root, 2); m != "" {
			return m
		}
	}
	if !a.contents {
		return ""
	}
	if a.m.Size() != len(a.live) {
		return errf("size is %d, want %d", a.m.Size(), len(a.live))
	}
	ks := a.sorted()
	i, bad := 0, ""
	inorderRef(root, func(n types.BinaryTreeNode) {
		if bad == "" && (i >= len(ks) || n.Key() != types.Hashable(types.Int(ks[i])) || n.Value() != a.live[ks[i]]) {
			bad = errf("in-order entry %d is %v=%s", i, n.Key(), show(n.Value()))
		}
		i++
	})
	if bad == "" && i != len(ks) {
		bad = errf("%d nodes are reachable from the root, want %d", i, len(ks))
	}
	return bad
}

// checkDeep adds lookups of every key up to max and all iterators.
func (a *avlWalk) checkDeep(max int) string {
	if m := a.check(); m != "" || !a.contents {
		return m
	}
	var want []pair
	for _, k := range a.sorted() {
		want = append(want, pair{types.Int(k), a.live[k]})
	}
	for k := -1; k <= max; k++ {
		v, ok := a.live[k]
		g, err := a.m.Get(types.Int(k))
		if a.m.Has(types.Int(k)) != ok || (err == nil) != ok || (ok && g != v) {
			return errf("get(%d) is %s (error %v), present=%v", k, show(g), err != nil, ok)
		}
	}
	return checkMapIter(a.m, want, true)
}

// avlShape is a tree shape to be built by plain insertion.
type avlShape struct {
	l, r *avlShape
	k    int
}

// thinShape is the thinnest tree of height h allowed by the tolerance. Bit d of side chooses which side is
// the tall one at depth d.
func thinShape(h, d int, side uint) *avlShape {
	if h <= 0 {
		return nil
	}
	tall, short := thinShape(h-1, d+1, side), thinShape(h-3, d+1, side)
	if side>>uint(d)&1 == 0 {
		return &avlShape{l: tall, r: short}
	}
	return &avlShape{l: short, r: tall}
}

// fullShape is the full tree of height h, with one more leaf at the left end (extra < 0) or at the right
// end (extra > 0).
func fullShape(h, extra int) *avlShape {
	if h <= 0 {
		if extra != 0 {
			return &avlShape{}
		}
		return nil
	}
	l, r := 0, 0
	if extra < 0 {
		l = extra
	} else {
		r = extra
	}
	return &avlShape{l: fullShape(h-1, l), r: fullShape(h-1, r)}
}

func (s *avlShape) height() int {
	if s == nil {
		return 0
	}
	l, r := s.l.height(), s.r.height()
	if l > r {
		return l + 1
	}
	return r + 1
}

func (s *avlShape) copy() *avlShape {
	if s == nil {
		return nil
	}
	return &avlShape{l: s.l.copy(), r: s.r.copy()}
}

// keys numbers the nodes 1, 3, 5, ... in order and lists them level by level, an order in which plain
// insertion gives the shape.
func (s *avlShape) keys() (out []int) {
	k := 1
	var number func(n *avlShape)
	number = func(n *avlShape) {
		if n == nil {
			return
		}
		number(n.l)
		n.k = k
		k += 2
		number(n.r)
	}
	number(s)
	level := []*avlShape{s}
	for len(level) > 0 {
		var next []*avlShape
		for _, n := range level {
			if n != nil {
				out = append(out, n.k)
				next = append(next, n.l, n.r)
			}
		}
		level = next
	}
	return
}

// sparse lists the keys of the thinnest tree of height h.
func sparse(h int, side uint) []int { return thinShape(h, 0, side).keys() }

type avlKind struct {
	name string
	mk   func() types.MapOperable
}

var avlMutable = []avlKind{
	{"tree", func() types.MapOperable { return avl.NewAvlTree() }},
	{"node", func() types.MapOperable { return &nodeMap{} }},
}

var avlImmutable = []avlKind{
	{"imm-tree", func() types.MapOperable { return avl.NewImmutableAvlTree() }},
	{"imm-node", func() types.MapOperable { return &immNodeMap{} }},
}

// avlWalkJobs: long walks in every pair of orders, and every short continuation of the thinnest trees of
// each height (the states in which removals cost the most rotations).
func avlWalkJobs(q bool, kinds []avlKind, set func(a *avlWalk)) []engine.Job {
	var jobs []engine.Job
	for _, kd := range kinds {
		kd := kd
		jobs = append(jobs, job("walk-"+kd.name, func(w *engine.W) {
			canon := engine.NewCanon(false)
			var sizes []int
			for n := 1; n <= 34; n++ {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 50, 64, 100, 200, 400)
			if !q {
				sizes = append(sizes, 128, 700, 1500)
			}
			for _, n := range sizes {
				for _, up := range walkOrders {
					for _, down := range walkOrders {
						n, up, down := n, up, down
						w.Case(func() string { return fmt.Sprintf("%s: put %d keys %s, remove %s", kd.name, n, up.name, down.name) }, func() string {
							a := &avlWalk{w: w, m: kd.mk(), live: map[int]int{}}
							set(a)
							every := 1 + n/50
							at := func(i int) string {
								if i%every != 0 && i != n-1 {
									return ""
								}
								if a.persist && len(a.kept) > 40 {
									if m := a.checkKept(); m != "" {
										return m
									}
								}
								return a.check()
							}
							for i := 0; i < n; i++ {
								if m := a.put(up.at(i, n), i); m != "" {
									return m
								}
								if m := at(i); m != "" {
									return m
								}
							}
							w.Distinct(canon.Sum(a.m))
							if m := a.checkDeep(n + 1); m != "" {
								return m
							}
							for i := 0; i < n; i += 3 { // overwrite, and fail to remove
								if m := a.put(down.at(i, n), -i); m != "" {
									return m
								}
								if m := a.remove(n + i); m != "" {
									return m
								}
								if m := at(i); m != "" {
									return m
								}
							}
							for i := 0; i < n; i++ {
								if m := a.remove(down.at(i, n)); m != "" {
									return m
								}
								if m := at(i); m != "" {
									return m
								}
								if i == n/2 {
									w.Distinct(canon.Sum(a.m))
									if m := a.checkDeep(n + 1); m != "" {
										return m
									}
								}
								if i%4 == 3 { // put one back
									if m := a.put(down.at(i-2, n), i); m != "" {
										return m
									}
									if m := at(i); m != "" {
										return m
									}
								}
							}
							if m := a.checkKept(); m != "" {
								return m
							}
							return a.checkDeep(n + 1)
						})
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("up to %d keys, all sizes to 34, 25 order pairs, with overwrites, failed removals and re-insertions", sizes[len(sizes)-1])
		}))
		jobs = append(jobs, job("thin-"+kd.name, func(w *engine.W) {
			canon := engine.NewCanon(false)
			top, pairs := pick(q, 10, 12), pick(q, 8, 9)
			for h := 1; h <= top; h++ {
				for side := uint(0); side < 1<<uint(h-1); side++ {
					if h > 8 && side&(side+1) != 0 && ^side&(^side+1)&(1<<uint(h-1)-1) != 0 {
						continue // for the tallest ones only one change of side along the depth
					}
					keys := sparse(h, side)
					n := len(keys)
					build := func() (*avlWalk, string) {
						a := &avlWalk{w: w, m: kd.mk(), live: map[int]int{}}
						set(a)
						p := a.persist
						a.persist = false
						for i, k := range keys {
							if m := a.put(k, i); m != "" {
								return a, m
							}
						}
						a.persist = p
						return a, a.check()
					}
					// op x: odd x removes that key, even x puts a new one
					do := func(a *avlWalk, x int) string {
						var m string
						if x%2 == 1 {
							m = a.remove(x)
						} else {
							m = a.put(x, x)
						}
						if m == "" {
							m = a.check()
						}
						return m
					}
					for x := 0; x <= 2*n; x++ {
						x := x
						w.Case(func() string { return fmt.Sprintf("%s: thin tree %v, op %d", kd.name, keys, x) }, func() string {
							a, m := build()
							if m != "" {
								return m
							}
							if m := do(a, x); m != "" {
								return m
							}
							w.Distinct(canon.Sum(a.m))
							// then take the tree apart from the same side onwards
							for j := 0; j < n; j++ {
								k := keys[(j+x)%n]
								if _, ok := a.live[k]; ok {
									if m := a.remove(k); m != "" {
										return m
									}
									if m := a.check(); m != "" {
										return m
									}
								}
							}
							return a.checkKept()
						})
						if h > pairs {
							continue
						}
						for y := 0; y <= 2*n; y++ {
							y := y
							if y == x {
								continue
							}
							w.Case(func() string { return fmt.Sprintf("%s: thin tree %v, ops %d %d", kd.name, keys, x, y) }, func() string {
								a, m := build()
								if m != "" {
									return m
								}
								if m := do(a, x); m != "" {
									return m
								}
								if m := do(a, y); m != "" {
									return m
								}
								w.Distinct(canon.Sum(a.m))
								if m := a.checkKept(); m != "" {
									return m
								}
								return a.check()
							})
						}
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("thinnest trees of height 1..%d, every single change, every two changes up to height %d", top, pairs)
		}))
		jobs = append(jobs, job("sides-"+kd.name, func(w *engine.W) {
			canon := engine.NewCanon(false)
			top := pick(q, 10, 11)
			var parts []*avlShape
			for h := 0; h < top; h++ {
				for _, side := range []uint{0, ^uint(0), 0x5555} {
					parts = append(parts, thinShape(h, 0, side))
				}
				if h > 0 && h < 8 {
					parts = append(parts, fullShape(h, 0), fullShape(h-1, -1), fullShape(h-1, 1))
				}
			}
			count, low := 0, pick(q, 7, 8)
			probe := &avlWalk{}
			if set(probe); probe.persist {
				low -= 2
			}
			try := func(root *avlShape) {
				keys := root.keys()
				n := len(keys)
				count++
				ops := []int{0, 2 * n, root.k - 1, root.k + 1}
				for k := 1; k < 2*n; k += 2 {
					ops = append(ops, k)
				}
				for _, x := range ops {
					x := x
					w.Case(func() string { return fmt.Sprintf("%s: tree built from %v, op %d", kd.name, keys, x) }, func() string {
						a := &avlWalk{w: w, m: kd.mk(), live: map[int]int{}}
						set(a)
						p := a.persist
						a.persist = false
						for i, k := range keys {
							if m := a.put(k, i); m != "" {
								return m
							}
						}
						a.persist = p
						var m string
						if x%2 == 1 {
							m = a.remove(x)
						} else {
							m = a.put(x, x)
						}
						if m != "" {
							return m
						}
						if m := a.check(); m != "" {
							return m
						}
						if n < 64 {
							w.Distinct(canon.Sum(a.m))
						}
						if x == root.k { // and the key that took its place
							for i := 0; i < 4 && len(a.live) > 0; i++ {
								if m := a.remove(int(a.m.(rooted).Root().Key().(types.Int))); m != "" {
									return m
								}
								if m := a.check(); m != "" {
									return m
								}
							}
						}
						return a.checkKept()
					})
				}
			}
			for _, l := range parts {
				for _, r := range parts {
					d := l.height() - r.height()
					if d < -2 || d > 2 {
						continue
					}
					try(&avlShape{l: l.copy(), r: r.copy()})
					two := &avlShape{l: l, r: r}
					if h := two.height(); (d == -2 || d == 2) && h <= low {
						for _, o := range parts { // the same one level further down
							if e := o.height() - h; e == -2 || e == 2 {
								try(&avlShape{l: two.copy(), r: o.copy()})
								try(&avlShape{l: o.copy(), r: two.copy()})
							}
						}
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("%d trees made of thin, full and nearly full sides up to height %d, every removal", count, top+1)
		}))
	}
	return jobs
}
