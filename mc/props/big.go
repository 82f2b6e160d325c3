package props

import (
	"fmt"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// Large containers: filled and emptied in every pair of a few orders, with all answers checked around each
// power of two. The walks check every size in a smaller range.

type bigOrder struct {
	name string
	at   func(i, n int) int
}

// The stride is a prime that does not divide any size used.
var bigOrders = []bigOrder{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - 1 - i }},
	{"stride", func(i, n int) int { return i * 7919 % n }},
	{"outside-in", func(i, n int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}},
	{"even-odd", func(i, n int) int {
		if h := (n + 1) / 2; i < h {
			return 2 * i
		} else {
			return 2*(i-h) + 1
		}
	}},
}

// bigStop tells whether the contents are compared at this size.
func bigStop(size, n int) bool {
	if size == n || size == 0 {
		return true
	}
	for p := 64; p <= 2*n; p *= 2 {
		if size >= p-1 && size <= p+1 || size == p*3/4 || size == p*3/4+1 {
			return true
		}
	}
	return false
}

// bigWalk fills and empties in every pair of orders. All three functions get the number of the item.
func bigWalk(name string, n int, start func() (put, del func(i int) string, check func(live []bool, size int) string)) engine.Job {
	return job(name, func(w *engine.W) {
		for _, in := range bigOrders {
			for _, out := range bigOrders {
				w.Case(func() string { return fmt.Sprintf("%d items put %s and removed %s", n, in.name, out.name) }, func() string {
					put, del, check := start()
					live := make([]bool, n)
					size := 0
					for i := 0; i < n; i++ {
						k := in.at(i, n)
						if m := put(k); m != "" {
							return errf("with %d items, putting number %d: %s", size, k, m)
						}
						live[k] = true
						if size++; bigStop(size, n) {
							if m := check(live, size); m != "" {
								return errf("filled to %d items: %s", size, m)
							}
						}
					}
					for i := 0; i < n; i++ {
						k := out.at(i, n)
						if m := del(k); m != "" {
							return errf("with %d items, removing number %d: %s", size, k, m)
						}
						live[k] = false
						if size--; bigStop(size, n) {
							if m := check(live, size); m != "" {
								return errf("emptied to %d items: %s", size, m)
							}
						}
					}
					for i := 0; i < 70; i++ { // and a few more after having been large
						k := out.at(i, n)
						if m := put(k); m != "" {
							return errf("putting number %d after all were removed: %s", k, m)
						}
						live[k] = true
						size++
					}
					return check(live, size)
				})
				w.Steps(2 * n)
				w.Res.States += int64(2 * n)
				if w.OutOfTime() {
					w.Res.Exhaustive = false
					return
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d items in 25 pairs of orders, all answers compared around every power of two", n)
	})
}

func bigMap(name string, n int, mk func() types.MapOperable, key func(i int) types.Hashable, num func(k types.Hashable) int, ordered bool, extra func(m types.MapOperable) string) engine.Job {
	keys := make([]types.Hashable, n)
	for i := range keys {
		keys[i] = key(i)
	}
	return bigWalk(name, n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		m := mk()
		put = func(i int) string {
			if err := m.Put(keys[i], -i); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			if i%3 != 0 {
				return ""
			}
			if err := m.Put(keys[i], i); err != nil { // overwrite
				return errf("overwriting failed: %v", firstLine(err))
			}
			return ""
		}
		value := func(i int) int {
			if i%3 != 0 {
				return -i
			}
			return i
		}
		del = func(i int) string {
			v, err := m.Remove(keys[i])
			if err != nil || v != value(i) {
				return errf("returned %s (error %v)", show(v), err != nil)
			}
			if i%53 == 0 {
				if v, err := m.Remove(keys[i]); err == nil {
					return errf("a second time returned %s", show(v))
				}
			}
			return ""
		}
		check = func(live []bool, size int) string {
			if m.Size() != size {
				return errf("size is %d", m.Size())
			}
			for i, k := range keys {
				if !live[i] && i%211 != 0 { // errors are slow
					if _, ok := m.(trieMap); !ok && m.Has(k) {
						return errf("has(%v) is true", k)
					}
					continue
				}
				if m.Has(k) != live[i] {
					return errf("has(%v) is %v", k, !live[i])
				}
				if v, err := m.Get(k); (err == nil) != live[i] || live[i] && v != value(i) {
					return errf("get(%v) is %s (error %v)", k, show(v), err != nil)
				}
			}
			got, _ := drainKV(m.(types.KVIterable).Iterate(), size+8)
			if len(got) != size {
				return errf("iterate yields %d entries", len(got))
			}
			seen := make([]bool, n)
			last := -1
			for _, p := range got {
				i := num(p.k)
				if i < 0 || i >= n || !live[i] || seen[i] || p.v != value(i) || ordered && i < last {
					return errf("iterate yields %v: %s, which is dead, repeated or out of order", p.k, show(p.v))
				}
				seen[i] = true
				last = i
			}
			if extra != nil {
				return extra(m)
			}
			return ""
		}
		return
	})
}

func bigIntMap(name string, n int, mk func() types.MapOperable, ordered bool, extra func(m types.MapOperable) string) engine.Job {
	return bigMap(name, n, mk, func(i int) types.Hashable { return types.Int(i) }, func(k types.Hashable) int { return int(k.(types.Int)) }, ordered, extra)
}

func bigHashMaps(n int, mk func() types.MapOperable, name string) (jobs []engine.Job) {
	for _, h := range []struct {
		name string
		of   func(i int) int
	}{{"seq", func(i int) int { return i }}, {"neg", func(i int) int { return -i * 3 }}, {"fnv", func(i int) int { return types.String(fmt.Sprint(i)).Hash() }}} {
		jobs = append(jobs, bigMap("big-"+name+"-"+h.name, n, mk, func(i int) types.Hashable { return HK{i, h.of(i)} }, func(k types.Hashable) int { return k.(HK).ID }, false, nil))
	}
	return
}

func bigTrie(name string, n int) engine.Job {
	return bigMap(name, n, func() types.MapOperable { return trieMap{trie.New()} }, func(i int) types.Hashable {
		// three digits of base 30, the last one doubled for some keys: still in order
		b := []byte{byte(33 + i/900%200), byte('A' + i/30%30), byte('A' + i%30)}
		if i%7 == 0 {
			b = append(b, b[2], b[2])
		}
		return types.ByteSlice(b)
	}, func(k types.Hashable) int {
		b := k.(types.ByteSlice)
		return int(b[0]-33)*900 + int(b[1]-'A')*30 + int(b[2]-'A')
	}, true, nil)
}

// bigBalanced measures heights.
func bigBalanced(name string, n int, mk func() types.MapOperable) engine.Job {
	return bigWalk(name, n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		m := mk()
		put = func(i int) string { _ = m.Put(types.Int(i), i); return "" }
		del = func(i int) string { _, _ = m.Remove(types.Int(i)); return "" }
		check = func([]bool, int) string {
			_, msg := realHeight(asBinary(m.(rooted).Root()), 2)
			return msg
		}
		return
	})
}

// bigSnapshots keeps a version at each stop and looks at all of them again at the next ones.
func bigSnapshots() func(m types.MapOperable) string {
	var kept []snapshot
	var of types.MapOperable
	return func(m types.MapOperable) string {
		if of != m {
			of, kept = m, nil
		}
		for i, k := range kept {
			if s := k.check(); s != "" {
				return errf("version %d changed: %s", i, s)
			}
		}
		if len(kept) > 5 {
			kept = append(kept[:2:2], kept[3:]...)
		}
		kept = append(kept, takeSnapshot(m.(rooted).Root()))
		return ""
	}
}

// bigMulti: a B+Tree in which every key has dup entries.
func bigMulti(n, node, dup int, order bool) engine.Job {
	return bigWalk(fmt.Sprintf("big-node%d-dup%d", node, dup), n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		t := bptree.NewBpTree(node)
		key := func(i int) types.Int { return types.Int(i / dup * 2) }
		put = func(i int) string {
			if err := t.Add(key(i), i); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			return ""
		}
		del = func(i int) string {
			if err := t.RemoveWhere(key(i), func(v interface{}) bool { return v == i }); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			return ""
		}
		nk := (n + dup - 1) / dup
		seq := func(what string, it types.KVIterator, live []bool, cnt []int, lo, hi int, down bool) string {
			// entries of the keys lo..hi (numbers), grouped by key
			want := 0
			for k := lo; k <= hi; k++ {
				want += cnt[k]
			}
			got, _ := drainKV(it, want+8)
			if len(got) != want {
				return errf("%s yields %d entries, want %d", what, len(got), want)
			}
			seen := map[int]bool{}
			last := -1
			for _, p := range got {
				i, ok := p.v.(int)
				if !ok || i < 0 || i >= n || !live[i] || seen[i] || p.k != types.Hashable(key(i)) {
					return errf("%s yields %v: %s, which is dead or repeated", what, p.k, show(p.v))
				}
				seen[i] = true
				k := i / dup
				if k < lo || k > hi || last >= 0 && (down && k > last || !down && k < last) {
					return errf("%s yields %v out of order or range", what, p.k)
				}
				last = k
			}
			return ""
		}
		check = func(live []bool, size int) string {
			cnt := make([]int, nk)
			keys := 0
			for i, l := range live {
				if l {
					if cnt[i/dup] == 0 {
						keys++
					}
					cnt[i/dup]++
				}
			}
			if t.Size() != size {
				return errf("size is %d", t.Size())
			}
			if !order {
				for k, c := range cnt {
					x := types.Int(k * 2)
					if t.Count(x) != c || t.Has(x) != (c > 0) || t.Has(x+1) || t.Count(x-1) != 0 {
						return errf("count(%v) is %d, has is %v, want %d", x, t.Count(x), t.Has(x), c)
					}
					if k%11 == 0 || nk < 300 {
						if m := seq(fmt.Sprintf("find(%v)", x), t.Find(x), live, cnt, k, k, false); m != "" {
							return m
						}
					}
				}
				return seq("iterate", t.Iterate(), live, cnt, 0, nk-1, false)
			}
			if m := seq("iterate", t.Iterate(), live, cnt, 0, nk-1, false); m != "" {
				return m
			}
			if m := seq("backward", t.Backward(), live, cnt, 0, nk-1, true); m != "" {
				return m
			}
			ks, _ := drainK(t.Keys(), keys+8)
			if len(ks) != keys {
				return errf("keys yields %d keys, want %d", len(ks), keys)
			}
			at := []int{0, 1, nk / 3, nk/2 - 1, nk / 2, nk - 2, nk - 1}
			for _, a := range at {
				for _, b := range at {
					if a < 0 || b < 0 || a > b {
						continue
					}
					for gap := 0; gap < 2; gap++ {
						x, y := types.Int(a*2-gap), types.Int(b*2+gap)
						if m := seq(fmt.Sprintf("range(%v,%v)", x, y), t.Range(x, y), live, cnt, a, b, false); m != "" {
							return m
						}
						if x == y {
							continue
						}
						if m := seq(fmt.Sprintf("range(%v,%v)", y, x), t.Range(y, x), live, cnt, a, b, true); m != "" {
							return m
						}
					}
				}
			}
			return ""
		}
		return
	})
}

func bigMultis(q, order bool) (jobs []engine.Job) {
	for _, c := range []struct{ node, dup int }{{3, 1}, {3, 3}, {3, 40}, {5, 1}, {8, 5}, {64, 1}, {64, 200}} {
		n := pick(q, 3000, 15000)
		if c.node < 5 && c.dup < 40 { // trees of small nodes get deep
			n = pick(q, 600, 2000)
		}
		jobs = append(jobs, bigMulti(n, c.node, c.dup, order))
	}
	return
}

// bigSeq compares an iterator over ints with a sequence.
func bigSeq(what string, it types.KIterator, want []int) string {
	got, _ := drainK(it, len(want)+8)
	if len(got) != len(want) {
		return errf("%s yields %d items, want %d", what, len(got), len(want))
	}
	for i, g := range got {
		if g != types.Hashable(types.Int(want[i])) {
			return errf("%s yields %v at %d, want %d", what, g, i, want[i])
		}
	}
	return ""
}

// liveInts are the numbers of the live items, each several times if so wanted.
func liveInts(live []bool, times int) (up, down []int) {
	for i, l := range live {
		for t := 0; l && t < times; t++ {
			up = append(up, i)
		}
	}
	for i := len(up) - 1; i >= 0; i-- {
		down = append(down, up[i])
	}
	return
}

func bigSorted(n, times int) engine.Job {
	return bigWalk(fmt.Sprintf("big-sorted-%d", times), n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		s := list.NewSorted(3, times > 1)
		put = func(i int) string {
			for t := 0; t < 2; t++ { // the second one is a duplicate
				if err := s.Add(types.Int(i)); err != nil {
					return errf("failed: %v", firstLine(err))
				}
			}
			return ""
		}
		del = func(i int) string {
			for t := 0; t <= times; t++ {
				if t == times && i%53 != 0 {
					break
				}
				if err := s.Delete(types.Int(i)); (err == nil) != (t < times) {
					return errf("number %d: error %v", t, err != nil)
				}
			}
			return ""
		}
		check = func(live []bool, size int) string {
			up, down := liveInts(live, times)
			if s.Size() != len(up) {
				return errf("size is %d, want %d", s.Size(), len(up))
			}
			at := 0
			for i, l := range live {
				p, has, err := s.Find(types.Int(i))
				if err != nil || p != at || has != l || s.Has(types.Int(i)) != l {
					return errf("find(%d) is %d,%v, want %d,%v", i, p, has, at, l)
				}
				if l {
					at += times
				}
			}
			if m := bigSeq("items", s.Items(), up); m != "" {
				return m
			}
			return bigSeq("items in reverse", s.ItemsInReverse(), down)
		}
		return
	})
}

func bigList(n int) engine.Job {
	return bigWalk("big-list", n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		l := list.New(0)
		var want []int
		put = func(i int) string {
			p := len(want)
			if i%97 == 0 {
				p /= 2
			}
			want = append(want, 0)
			copy(want[p+1:], want[p:])
			want[p] = i
			if err := l.Insert(p, types.Int(i)); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			return ""
		}
		del = func(i int) string {
			p := len(want) - 1
			switch i % 97 {
			case 0:
				p /= 2
			case 1:
				p = 0
			}
			want = append(want[:p], want[p+1:]...)
			if err := l.Remove(p); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			return ""
		}
		check = func(live []bool, size int) string {
			if l.Size() != len(want) {
				return errf("size is %d", l.Size())
			}
			var down []int
			for i := range want {
				if x, err := l.Get(i); err != nil || x != types.Hashable(types.Int(want[i])) {
					return errf("get(%d) is %v", i, x)
				}
				down = append(down, want[len(want)-1-i])
			}
			if len(want) > 0 && (!l.Has(types.Int(want[len(want)-1])) || l.Has(types.Int(-1))) {
				return errf("has is wrong")
			}
			if m := bigSeq("items", l.Items(), want); m != "" {
				return m
			}
			if m := bigSeq("items in reverse", l.ItemsInReverse(), down); m != "" {
				return m
			}
			c := l.Copy()
			if !c.Equals(l) || !l.Equals(c) || c.Hash() != l.Hash() {
				return errf("the copy is not equal")
			}
			return bigSeq("items of the copy", c.Items(), want)
		}
		return
	})
}

func bigSet(name string, n int, mk func() types.Set, item func(i int) types.Hashable, num func(types.Hashable) int, ordered bool) engine.Job {
	return bigWalk("big-"+name, n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		s := mk()
		put = func(i int) string {
			for t := 0; t < 2; t++ {
				if err := s.Add(item(i)); err != nil {
					return errf("failed: %v", firstLine(err))
				}
			}
			return ""
		}
		del = func(i int) string {
			if err := s.Delete(item(i)); err != nil {
				return errf("failed: %v", firstLine(err))
			}
			if i%53 != 0 {
				return ""
			}
			if err := s.Delete(item(i)); err == nil {
				return errf("a second time succeeded")
			}
			return ""
		}
		check = func(live []bool, size int) string {
			if s.Size() != size {
				return errf("size is %d", s.Size())
			}
			for i, l := range live {
				if s.Has(item(i)) != l {
					return errf("has(%d) is %v", i, !l)
				}
			}
			got, _ := drainK(s.Items(), size+8)
			if len(got) != size {
				return errf("items yields %d", len(got))
			}
			seen := make([]bool, n)
			last := -1
			for _, g := range got {
				i := num(g)
				if i < 0 || i >= n || !live[i] || seen[i] || ordered && i < last {
					return errf("items yields %v, which is dead, repeated or out of order", g)
				}
				seen[i] = true
				last = i
			}
			return ""
		}
		return
	})
}

// bigAlgebra combines sets of every third, fifth … number out of n.
func bigAlgebra(n int, ka setKind) engine.Job {
	return job("big-"+ka.name, func(w *engine.W) {
		if ka.name == "map(bptree)" {
			n /= 4
		}
		type prog struct{ from, step, to int }
		progs := []prog{{0, 1, 0}, {0, 1, n}, {0, 2, n}, {1, 2, n}, {0, 3, n}, {n / 2, 1, n}, {0, 1, n / 2}, {n - 1, 1, n}, {0, 1, 1}, {5, 257, n}}
		mk := func(k setKind, p prog) (types.Set, []bool) {
			s := k.mk()
			in := make([]bool, n)
			for i := p.from; i < p.to; i += p.step {
				_ = s.Add(types.Int(i))
				in[i] = true
			}
			return s, in
		}
		is := func(what string, s types.Set, want func(i int) bool) string {
			size := 0
			for i := 0; i < n; i++ {
				if want(i) {
					size++
				}
				if s.Has(types.Int(i)) != want(i) {
					return errf("%s: has(%d) is %v", what, i, !want(i))
				}
			}
			got, _ := drainK(s.Items(), size+8)
			if s.Size() != size || len(got) != size {
				return errf("%s has size %d and yields %d items, want %d", what, s.Size(), len(got), size)
			}
			return ""
		}
		for _, pa := range progs {
			for _, pb := range progs {
				for _, kb := range setKinds {
					if kb.entries || kb.name == "map(bptree)" && ka.name != kb.name {
						continue
					}
					w.Case(func() string { return fmt.Sprintf("%s %v and %s %v", ka.name, pa, kb.name, pb) }, func() string {
						a, ia := mk(ka, pa)
						b, ib := mk(kb, pb)
						sub, sup, eq, over := true, true, true, false
						for i := range ia {
							sub = sub && (!ia[i] || ib[i])
							sup = sup && (!ib[i] || ia[i])
							eq = eq && ia[i] == ib[i]
							over = over || ia[i] && ib[i]
						}
						for _, r := range []struct {
							name string
							f    func() (types.Set, error)
							want func(i int) bool
						}{
							{"union", func() (types.Set, error) { return a.Union(b) }, func(i int) bool { return ia[i] || ib[i] }},
							{"intersection", func() (types.Set, error) { return a.Intersect(b) }, func(i int) bool { return ia[i] && ib[i] }},
							{"difference", func() (types.Set, error) { return a.Subtract(b) }, func(i int) bool { return ia[i] && !ib[i] }},
						} {
							c, err := r.f()
							if err != nil {
								return errf("%s failed", r.name)
							}
							if m := is(r.name, c, r.want); m != "" {
								return m
							}
						}
						if a.Subset(b) != sub || a.Superset(b) != sup || a.ProperSubset(b) != (sub && !eq) || a.ProperSuperset(b) != (sup && !eq) {
							return errf("subset %v, superset %v", a.Subset(b), a.Superset(b))
						}
						if x, ok := a.(*set.SortedSet); ok {
							if y, ok := b.(*set.SortedSet); ok && x.Overlap(y) != over {
								return errf("overlap is %v", !over)
							}
						}
						if m := is("the first operand", a, func(i int) bool { return ia[i] }); m != "" {
							return m
						}
						return is("the second operand", b, func(i int) bool { return ib[i] })
					})
					w.Steps(8)
					w.Res.States++
					if w.OutOfTime() {
						w.Res.Exhaustive = false
						return
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("100 pairs of subsets of %d items", n)
	})
}

// bigQueue pushes n items with priorities of several patterns, pops half, pushes again and pops all.
func bigQueue(name string, n int, mk func(min bool) heap.PriorityQueue, unique bool) engine.Job {
	return job("big-"+name, func(w *engine.W) {
		prios := append([]bigOrder(nil), bigOrders...)
		prios = append(prios, bigOrder{"equal", func(i, n int) int { return 7 }}, bigOrder{"few", func(i, n int) int { return i * 7 % 5 }},
			bigOrder{"extreme", func(i, n int) int { return []int{minInt, -1, 0, 1, maxInt, i - n/2}[i%6] }})
		for _, p := range prios {
			for _, min := range []bool{true, false} {
				w.Case(func() string { return fmt.Sprintf("%d items with priorities %s, min=%v", n, p.name, min) }, func() string {
					h := mk(min)
					in := make([]bool, n)
					prio := make([]int, n)
					size := 0
					count := map[int]int{} // live items per priority
					push := func(i, pr int) string {
						h.Push(pr, types.Int(i))
						if !in[i] {
							in[i], prio[i] = true, pr
							count[pr]++
							size++
						}
						if h.Size() != size {
							return errf("size is %d, want %d", h.Size(), size)
						}
						return ""
					}
					pop := func() (int, string) {
						top := h.Peek()
						x, ok := h.Pop().(types.Int)
						if !ok || top != interface{}(x) || x < 0 || int(x) >= n || !in[x] {
							return 0, errf("popped %v after peeking %v", x, top)
						}
						in[x] = false
						size--
						if count[prio[x]]--; count[prio[x]] == 0 {
							delete(count, prio[x])
						}
						if h.Size() != size {
							return 0, errf("size is %d, want %d", h.Size(), size)
						}
						return prio[x], ""
					}
					better := func(a, b int) bool { return a < b == min && a != b }
					drain := func(to int) string {
						first := true
						var last int
						for size > to {
							pr, m := pop()
							if m != "" {
								return m
							}
							if !first && better(pr, last) {
								return errf("priority %d came after %d", pr, last)
							}
							first, last = false, pr
						}
						for pr := range count {
							if !first && better(pr, last) {
								return errf("priority %d was left while %d was popped", pr, last)
							}
						}
						return ""
					}
					for i := 0; i < n; i++ {
						if m := push(i, p.at(i, n)); m != "" {
							return m
						}
						if unique && i%3 == 0 {
							if m := push(i, 0); m != "" {
								return "adding an item again: " + m
							}
						}
					}
					if m := drain(n / 2); m != "" {
						return m
					}
					for i := 0; i < n; i++ {
						if in[i] {
							continue
						}
						if m := push(i, p.at(n-1-i, n)); m != "" {
							return m
						}
					}
					if m := drain(0); m != "" {
						return m
					}
					if h.Size() != 0 || h.Peek() != nil || h.Pop() != nil {
						return errf("not empty at the end")
					}
					return ""
				})
				w.Steps(4 * n)
				w.Res.States += int64(3 * n)
			}
		}
		w.Res.Bound = fmt.Sprintf("%d items, 8 patterns of priorities, half popped and pushed again", n)
	})
}

// bigDeque fills from both ends and empties from both ends.
func bigDeque(c dequeCfg, n int) engine.Job {
	return bigWalk("big", n, func() (put, del func(i int) string, check func(live []bool, size int) string) {
		d := c.new()
		buf := make([]int, 2*n+200) // the contents are buf[lo:hi]
		lo, hi := n+100, n+100
		item := func(i int) HT { return HT{i, 0, i * 37} }
		put = func(i int) string {
			var err error
			if i%3 == 0 {
				lo--
				buf[lo] = i
				err = d.EnqueFront(item(i))
			} else {
				buf[hi] = i
				hi++
				err = d.EnqueBack(item(i))
			}
			if err != nil {
				return errf("failed: %v", firstLine(err))
			}
			return ""
		}
		del = func(i int) string {
			var got types.Hashable
			var err error
			var want int
			if i%2 == 0 {
				want = buf[lo]
				lo++
				got, err = d.DequeFront()
			} else {
				hi--
				want = buf[hi]
				got, err = d.DequeBack()
			}
			if err != nil || got != types.Hashable(item(want)) {
				return errf("took %v (error %v), want %v", got, err != nil, item(want))
			}
			return ""
		}
		seq := func(what string, it types.KIterator, down bool) string {
			got, _ := drainK(it, hi-lo+8)
			if len(got) != hi-lo {
				return errf("%s yields %d items, want %d", what, len(got), hi-lo)
			}
			for i, g := range got {
				j := lo + i
				if down {
					j = hi - 1 - i
				}
				if g != types.Hashable(item(buf[j])) {
					return errf("%s yields %v at %d", what, g, i)
				}
			}
			return ""
		}
		check = func(_ []bool, size int) string {
			if d.Size() != hi-lo {
				return errf("size is %d, want %d", d.Size(), hi-lo)
			}
			if m := seq("items", d.Items(), false); m != "" {
				return m
			}
			if m := seq("backwards", d.Backwards(), true); m != "" {
				return m
			}
			if d.Has(HT{-1, 0, 0}) {
				return errf("has an item never added")
			}
			for i := lo; i < hi; i += 1 + (hi-lo)/100 {
				if !d.Has(item(buf[i])) {
					return errf("has(%d) is false", buf[i])
				}
			}
			return ""
		}
		return
	})
}
