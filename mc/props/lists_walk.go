package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

var placePatterns = []struct {
	name string
	at   func(i, n int) int
}{
	{"front", func(i, n int) int { return 0 }},
	{"back", func(i, n int) int { return n }},
	{"middle", func(i, n int) int { return n / 2 }},
	{"stride", func(i, n int) int { return i * 7 % (n + 1) }},
	{"second", func(i, n int) int { return min(1, n) }},
	{"last but one", func(i, n int) int { return max(0, n-1) }},
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// insertAt and removeAt apply one change to the list and its model and compare the places around it.
func (o *one) insertAt(p int, x TK) string {
	if err := o.l.Insert(p, x); err != nil {
		return errf("insert(%d) into %d items failed", p, len(o.model))
	}
	o.model = append(o.model, TK{})
	copy(o.model[p+1:], o.model[p:])
	o.model[p] = x
	return o.around(p)
}

func (o *one) removeAt(p int) string {
	if err := o.l.Remove(p); err != nil {
		return errf("remove(%d) of %d items failed", p, len(o.model))
	}
	o.model = append(o.model[:p], o.model[p+1:]...)
	return o.around(p)
}

func (o *one) around(p int) string {
	n := len(o.model)
	if o.l.Size() != n {
		return errf("size is %d, want %d", o.l.Size(), n)
	}
	for _, i := range []int{-1, 0, p - 1, p, p + 1, n / 2, n - 1, n} {
		if (i < 0 || i >= n) && n%16 != 0 { // errors carry a stack, which takes time to make
			continue
		}
		v, err := o.l.Get(i)
		if in := i >= 0 && i < n; in != (err == nil) {
			return errf("get(%d) of %d items: error is %v", i, n, err != nil)
		} else if in && v != types.Hashable(o.model[i]) {
			return errf("get(%d) is %v, want %v", i, v, o.model[i])
		}
	}
	return ""
}

func (o *one) whole() string {
	got, _ := drainK(o.l.Items(), len(o.model)+8)
	return cmpItems("items", got, o.model, false)
}

// listLong: long lists grown and emptied at every pair of places, past all growth thresholds.
func listLong(q bool) engine.Job {
	return job("long", func(w *engine.W) {
		canon := engine.NewCanon(false)
		n := pick(q, 1100, 3000)
		for _, c := range []int{0, 1, 10, 100, 399, 1000} {
			for _, in := range placePatterns {
				for _, out := range placePatterns {
					c, in, out := c, in, out
					w.Case(func() string {
						return fmt.Sprintf("initial capacity %d, %d inserts at %s, removes at %s", c, n, in.name, out.name)
					}, func() string {
						o := one{l: list.New(c)}
						for i := 0; i < n; i++ {
							w.Steps(1)
							if m := o.insertAt(in.at(i, len(o.model)), TK{i, 0}); m != "" {
								return m
							}
							if i%97 == 0 || i == n-1 {
								if m := o.whole(); m != "" {
									return m
								}
							}
						}
						w.Distinct(canon.Sum(o.l))
						for i := 0; len(o.model) > 0; i++ {
							w.Steps(1)
							if m := o.removeAt(out.at(i, len(o.model)-1)); m != "" {
								return m
							}
							if i%97 == 0 || len(o.model) < 3 {
								if m := o.whole(); m != "" {
									return m
								}
								w.Distinct(canon.Sum(o.l))
							}
							if i%3 == 0 && i < n/2 { // up again
								w.Steps(1)
								if m := o.insertAt(in.at(i, len(o.model)), TK{-i, 0}); m != "" {
									return m
								}
							}
						}
						return o.observe(TK{-1, 0})
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d items, 6 initial capacities, 36 pairs of places", n)
	})
}

// listFixed: fixed lists of every size, filled, overfilled, cleared, copied and refilled.
func listFixed(q bool) engine.Job {
	return job("fixed-sizes", func(w *engine.W) {
		canon := engine.NewCanon(false)
		top := pick(q, 130, 300)
		for size := 0; size <= top+2; size++ {
			size := size
			if size > top { // two larger ones
				size = (size - top) * 400
			}
			for _, in := range placePatterns {
				for part := 0; part <= 2; part++ { // what is kept when the copy is made: nothing, half, everything
					in, part := in, part
					w.Case(func() string {
						return fmt.Sprintf("fixed size %d, inserts at %s, copied at part %d", size, in.name, part)
					}, func() string {
						o := one{l: list.Fixed(size), fixed: true, size: size}
						fill := func(base int) string {
							for i := 0; len(o.model) < size; i++ {
								w.Steps(1)
								if o.l.Full() {
									return errf("full with %d of %d items", len(o.model), size)
								}
								if m := o.insertAt(in.at(i, len(o.model)), TK{base + i, 0}); m != "" {
									return m
								}
							}
							if !o.l.Full() {
								return errf("not full with %d of %d items", len(o.model), size)
							}
							x := TK{-5, 0}
							w.Steps(5)
							if o.l.Append(x) == nil || o.l.Push(x) == nil || o.l.Insert(0, x) == nil || o.l.Insert(size/2, x) == nil || o.l.Extend(sliceIter([]types.Hashable{x})) == nil {
								return errf("a full list of size %d accepted an item", size)
							}
							return o.whole()
						}
						if m := fill(0); m != "" {
							return m
						}
						w.Distinct(canon.Sum(o.l))
						switch part {
						case 0:
							o.l.Clear()
							o.model = nil
						case 1:
							for i := 0; len(o.model) > size/2; i++ {
								w.Steps(1)
								if m := o.removeAt(in.at(i, len(o.model)-1)); m != "" {
									return m
								}
							}
						}
						if m := o.whole(); m != "" {
							return m
						}
						w.Steps(1)
						b := one{o.l.Copy(), append([]TK(nil), o.model...), true, size}
						w.Distinct(canon.Sum(o.l))
						if m := fill(1000); m != "" {
							return m
						}
						if m := b.whole(); m != "" {
							return "the copy, after refilling the list: " + m
						}
						o, b = b, o
						if m := fill(2000); m != "" {
							return "the copy: " + m
						}
						if size > 0 {
							if err := o.l.Set(size-1, TK{-6, 0}); err != nil {
								return "set failed"
							}
							o.model[size-1] = TK{-6, 0}
						}
						if m := b.whole(); m != "" {
							return "after refilling the copy: " + m
						}
						if size > 140 {
							return o.whole()
						}
						return o.observe(TK{-1, 0})
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("fixed sizes 0..%d, 400, 800; 6 places; copied empty, half full and full", top)
	})
}

// listSlices: lists built from slices and copies of growable lists share nothing with their source.
func listSlices(q bool) engine.Job {
	return job("independent", func(w *engine.W) {
		canon := engine.NewCanon(false)
		top := pick(q, 130, 300)
		for n := 0; n <= top; n++ {
			for spare := 0; spare < 4; spare++ {
				n, spare := n, spare
				mk := func() []TK {
					var r []TK
					for i := 0; i < n; i++ {
						r = append(r, TK{i, 0})
					}
					return r
				}
				change := func(l *list.List, where int) {
					w.Steps(4)
					switch where {
					case 0:
						_ = l.Append(TK{-1, 1})
						_ = l.Append(TK{-2, 1})
					case 1:
						_ = l.Insert(0, TK{-1, 1})
					case 2:
						if n > 0 {
							_ = l.Set(0, TK{-1, 1})
							_ = l.Set(n/2, TK{-1, 1})
							_ = l.Set(n-1, TK{-1, 1})
						}
					case 3:
						if n > 0 {
							_ = l.Remove(0)
						}
						_ = l.Append(TK{-1, 1})
					}
				}
				for where := 0; where < 4; where++ {
					where := where
					w.Case(func() string { return fmt.Sprintf("slice of %d, spare capacity %d, change %d", n, spare, where) }, func() string {
						src := make([]types.Hashable, n, n+spare)
						for i := range src {
							src[i] = TK{i, 0}
						}
						o := one{l: list.FromSlice(src), model: mk()}
						change(o.l, where)
						for i := range src[:n+spare] {
							want := types.Hashable(TK{i, 0})
							if i >= n {
								want = nil
							}
							if src[:n+spare][i] != want {
								return errf("changing the list changed the slice at %d to %v", i, src[:n+spare][i])
							}
						}
						o.l = list.FromSlice(src)
						for i := range src {
							src[i] = TK{-9, 0}
						}
						_ = append(src, TK{-9, 0})
						if m := o.whole(); m != "" {
							return "after changing the slice: " + m
						}
						w.Distinct(canon.Sum(o.l))
						return o.around(n / 2)
					})
					w.Case(func() string {
						return fmt.Sprintf("list of %d, capacity %d more, copied, change %d", n, spare*7, where)
					}, func() string {
						l := list.New(n + spare*7)
						if spare == 3 {
							l = list.New(0)
						}
						for i := 0; i < n; i++ {
							_ = l.Append(TK{i, 0})
						}
						o := one{l: l, model: mk()}
						b := one{l: l.Copy(), model: mk()}
						change(o.l, where)
						if m := b.whole(); m != "" {
							return "the copy, after changing the list: " + m
						}
						o.l = b.l.Copy()
						change(b.l, where)
						if m := o.whole(); m != "" {
							return "the list, after changing its copy: " + m
						}
						w.Distinct(canon.Sum(o.l))
						return ""
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("slices and lists of 0..%d items, four spare capacities, four kinds of change", top)
	})
}

// listSort: the sort adapter on long lists with repeated keys; equal items are told apart by their tags.
func listSort(q bool) engine.Job {
	return job("sort", func(w *engine.W) {
		canon := engine.NewCanon(false)
		top := pick(q, 90, 220)
		keys := []struct {
			name string
			at   func(x int) int
		}{{"distinct", func(x int) int { return x }}, {"pairs", func(x int) int { return x / 2 }}, {"few", func(x int) int { return x % 5 }}, {"equal", func(x int) int { return 4 }}, {"runs", func(x int) int { return x / 11 }}}
		mk := func(n int, k func(int) int, at func(i, n int) int, fixed bool) *one {
			o := &one{l: list.New(n), fixed: fixed, size: n}
			if fixed {
				o.l = list.Fixed(n)
			}
			for i := 0; i < n; i++ {
				x := TK{k(at(i, n)), i}
				_ = o.l.Append(x)
				o.model = append(o.model, x)
			}
			return o
		}
		for n := 0; n <= top; n++ {
			for _, k := range keys {
				for _, up := range walkOrders {
					n, k, up := n, k, up
					w.Case(func() string { return fmt.Sprintf("sort %d items, keys %s, %s", n, k.name, up.name) }, func() string {
						for _, how := range []string{"sort", "stable", "reverse"} {
							o := mk(n, k.at, up.at, n%2 == 1)
							w.Steps(1)
							s := list.NewSortable(o.l)
							if s.Len() != n {
								return errf("len is %d, want %d", s.Len(), n)
							}
							switch how {
							case "sort":
								sort.Sort(s)
							case "stable":
								sort.Stable(s)
							case "reverse":
								sort.Sort(sort.Reverse(s))
							}
							got, _ := drainK(o.l.Items(), n+8)
							if len(got) != n {
								return errf("%s left %d of %d items", how, len(got), n)
							}
							seen := map[types.Hashable]bool{}
							for i, g := range got {
								if seen[g] {
									return errf("%s repeats the item %v", how, g)
								}
								seen[g] = true
								if i == 0 {
									continue
								}
								a, b := got[i-1].(TK), g.(TK)
								if how == "reverse" {
									a, b = b, a
								}
								if b.Key < a.Key || (how == "stable" && b.Key == a.Key && b.Tag < a.Tag) {
									return errf("%s put %v before %v", how, got[i-1], g)
								}
							}
							for _, x := range o.model {
								if !seen[x] {
									return errf("%s lost the item %v", how, x)
								}
							}
							w.Distinct(canon.Sum(o.l))
						}
						return ""
					})
				}
				if n > 40 && n != 64 {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("swap and compare all pairs of %d items, keys %s", n, k.name) }, func() string {
					o := mk(n, k.at, func(i, n int) int { return i }, false)
					s := list.NewSortable(o.l)
					for i := 0; i < n; i++ {
						for j := 0; j < n; j++ {
							w.Steps(1)
							if s.Less(i, j) != (o.model[i].Key < o.model[j].Key) {
								return errf("less(%d,%d) is %v for %v and %v", i, j, s.Less(i, j), o.model[i], o.model[j])
							}
							s.Swap(i, j)
							o.model[i], o.model[j] = o.model[j], o.model[i]
							if m := o.around(i); m != "" {
								return m
							}
							if m := o.around(j); m != "" {
								return m
							}
						}
					}
					return o.whole()
				})
			}
		}
		w.Res.Bound = fmt.Sprintf("lists of 0..%d items, 5 ways of repeating keys, 5 orders; all swaps up to 40 items", top)
	})
}

// sortedRuns: three neighbouring keys with every combination of run lengths.
func sortedRuns(q bool) engine.Job {
	return job("runs", func(w *engine.W) {
		canon := engine.NewCanon(false)
		top := pick(q, 17, 24)
		for a := 0; a <= top; a++ {
			for b := 0; b <= top; b++ {
				for c := 0; c <= top; c++ {
					cnt := []int{a, b, c}
					w.Case(func() string { return fmt.Sprintf("runs %v of keys 0 2 4", cnt) }, func() string {
						o := sone{s: list.NewSorted(4, true), dups: true}
						for i := 0; i < top; i++ { // in turns, the order of the keys depending on the counts
							for j := 0; j < 3; j++ {
								if k := (j + a + 2*b) % 3; i < cnt[k] {
									w.Steps(1)
									if _, m := o.add(TK{2 * k, i}); m != "" {
										return m
									}
								}
							}
						}
						if m := o.around(); m != "" {
							return m
						}
						w.Distinct(canon.Sum(o.s))
						for i := 0; i < 6; i++ {
							k := 2 * ((i + b) % 3)
							w.Steps(1)
							p, has := o.find(k)
							if err := o.s.Delete(TK{k, 7}); (err == nil) != has {
								return errf("delete(%d): error is %v, contents %v", k, err != nil, o.model)
							}
							if has {
								o.model = append(o.model[:p:p], o.model[p+1:]...)
							}
							if m := o.around(); m != "" {
								return m
							}
						}
						return ""
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("every run length 0..%d of three keys", top)
	})
}

// around compares the contents and the position found for each of the keys -1..5.
func (o *sone) around() string {
	got, _ := drainK(o.s.Items(), len(o.model)+8)
	if m := o.cmp("items", got, false); m != "" {
		return m
	}
	for k := -1; k <= 5; k++ {
		p, has := o.find(k)
		i, h, err := o.s.Find(TK{k, 7})
		if err != nil || i != p || h != has || o.s.Has(TK{k, 7}) != has {
			return errf("find(%d) is %d,%v, want %d,%v (contents %v)", k, i, h, p, has, o.model)
		}
	}
	return ""
}
