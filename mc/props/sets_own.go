package props

import (
	"fmt"

	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// ownSet is a set no part of the library knows: a slice with the newest item first.
type ownSet struct{ items []types.Hashable }

func (s *ownSet) find(item types.Hashable) int {
	for i, x := range s.items {
		if x.Equals(item) {
			return i
		}
	}
	return -1
}

func (s *ownSet) Size() int                    { return len(s.items) }
func (s *ownSet) Has(item types.Hashable) bool { return s.find(item) >= 0 }
func (s *ownSet) Item(item types.Hashable) (types.Hashable, error) {
	if i := s.find(item); i >= 0 {
		return s.items[i], nil
	}
	return nil, fmt.Errorf("own set: %v is absent", item)
}

func (s *ownSet) Add(item types.Hashable) error {
	if s.find(item) < 0 {
		s.items = append([]types.Hashable{item}, s.items...)
	}
	return nil
}

func (s *ownSet) Delete(item types.Hashable) error {
	i := s.find(item)
	if i < 0 {
		return fmt.Errorf("own set: %v is absent", item)
	}
	s.items = append(append([]types.Hashable{}, s.items[:i]...), s.items[i+1:]...)
	return nil
}

func (s *ownSet) Extend(items types.KIterator) error {
	for item, next := items(); next != nil; item, next = next() {
		if err := s.Add(item); err != nil {
			return err
		}
	}
	return nil
}

func (s *ownSet) Items() (it types.KIterator) {
	i := 0
	it = func() (types.Hashable, types.KIterator) {
		if i >= len(s.items) {
			return nil, nil
		}
		i++
		return s.items[i-1], it
	}
	return it
}

func (s *ownSet) Equals(b types.Equatable) bool {
	o, ok := b.(*ownSet)
	if !ok || len(o.items) != len(s.items) {
		return false
	}
	for _, x := range s.items {
		if o.find(x) < 0 {
			return false
		}
	}
	return true
}

func (s *ownSet) Union(o types.Set) (types.Set, error)     { return set.Union(s, o) }
func (s *ownSet) Intersect(o types.Set) (types.Set, error) { return set.Intersect(s, o) }
func (s *ownSet) Subtract(o types.Set) (types.Set, error)  { return set.Subtract(s, o) }
func (s *ownSet) Subset(o types.Set) bool                  { return set.Subset(s, o) }
func (s *ownSet) Superset(o types.Set) bool                { return set.Superset(s, o) }
func (s *ownSet) ProperSubset(o types.Set) bool            { return set.ProperSubset(s, o) }
func (s *ownSet) ProperSuperset(o types.Set) bool          { return set.ProperSuperset(s, o) }

// ownKinds are sets of the caller's own making, alone and behind the map adapter.
var ownKinds = []setKind{
	{"own", func() types.Set { return &ownSet{} }, false, false, 3},
	{"mapset(own)", func() types.Set { return set.NewMapSet(&ownSet{}) }, true, false, 4},
}

// allKinds are the library's sets and the caller's own.
func allKinds() []setKind { return append(append([]setKind{}, setKinds...), ownKinds...) }

// strangers gives a map set items that are not map entries, at every place of an extension, and as operands of
// the set algebra: the call reports an error, what was added before stays, nothing else changes.
func strangers() engine.Job {
	return job("non-entries", func(w *engine.W) {
		const n = 5
		it := itemTypes[3]
		for _, k := range allKinds() {
			if !k.entries {
				continue
			}
			for have := uint(0); have < 1<<n; have++ {
				mk := func() types.Set { s, _ := mkSet(k, it, have, 1, n, false); return s }
				for _, x := range []types.Hashable{types.Int(1), types.String("x"), types.ByteSlice("y"), HK{1, 2}} {
					w.DistinctStr(fmt.Sprint(k.name, have, x))
					w.Case(func() string { return fmt.Sprintf("%s holding %0*b: add %T", k.name, n, have, x) }, func() string {
						w.Steps(1)
						s := mk()
						if s.Add(x) == nil {
							return "adding an item that is not a map entry reported no error"
						}
						return setIs("the map set", s, it, have, n, k.ordered)
					})
					// extend with new entries and the stranger at place p
					for p := 0; p <= n; p++ {
						w.Case(func() string {
							return fmt.Sprintf("%s holding %0*b: extend by %d entries, %T, %d entries", k.name, n, have, p, x, n-p)
						}, func() string {
							w.Steps(1)
							s := mk()
							var items []types.Hashable
							want := have
							for i := 0; i < n; i++ {
								if i == p {
									items = append(items, x)
								}
								if i < p {
									want |= 1 << i
								}
								items = append(items, it.of(i, 2))
							}
							if p == n {
								items = append(items, x)
							}
							if s.Extend((&ownSet{items}).Items()) == nil {
								return "extending by an item that is not a map entry reported no error"
							}
							return setIs("the map set", s, it, want, n, k.ordered)
						})
					}
					w.Case(func() string {
						return fmt.Sprintf("%s holding %0*b: union with a set of %T", k.name, n, have, x)
					}, func() string {
						w.Steps(1)
						s := mk()
						o := &ownSet{[]types.Hashable{x}}
						if _, err := s.Union(o); err == nil {
							return "the union of a map set with a set of other items reported no error"
						}
						if o.Size() != 1 || !o.Has(x) {
							return "the union changed its operand"
						}
						return setIs("the map set", s, it, have, n, k.ordered)
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("all contents of %d entries, 4 other items, every place of an extension", n)
		w.Sample("mapset holding 00101: extend by 2 entries, types.Int, 3 entries")
	})
}

// fromSlices makes sorted sets from all short sequences and from long ones in every order, with and without repeats.
func fromSlices(q bool) engine.Job {
	return job("from-slice", func(w *engine.W) {
		it := itemTypes[0]
		try := func(seq []int, n int) {
			w.Res.States++
			w.Case(func() string { return fmt.Sprintf("sorted set from %d items %v", len(seq), seq) }, func() string {
				w.Steps(1)
				src := make([]types.Hashable, 0, len(seq)+2)
				for _, i := range seq {
					src = append(src, it.of(i, 0))
				}
				s := set.FromSlice(src)
				in := make([]bool, n+1)
				size := 0
				for _, i := range seq {
					if !in[i] {
						in[i] = true
						size++
					}
				}
				is := func() string {
					got, _ := drainK(s.Items(), size+8)
					last := -1
					if len(got) != size || s.Size() != size {
						return errf("%d items, size %d, want %d", len(got), s.Size(), size)
					}
					for _, x := range got {
						if i := it.num(x); i <= last || !in[i] {
							return errf("yields %v", got)
						} else {
							last = i
						}
					}
					for i := range in {
						if s.Has(it.of(i, 0)) != in[i] {
							return errf("has(%v) is %v", it.of(i, 0), !in[i])
						}
					}
					return ""
				}
				if m := is(); m != "" {
					return m
				}
				// neither side sees later changes of the other
				for j, i := range seq {
					if src[j] != it.of(i, 0) {
						return "making the set changed the slice"
					}
					src[j] = it.of(n, 0)
				}
				if m := is(); m != "" {
					return "after overwriting the slice: " + m
				}
				if err := s.Add(it.of(n, 0)); err != nil {
					return "adding an item failed"
				}
				in[n] = true
				size++
				return is()
			})
		}
		items, max := 4, pick(q, 6, 7)
		var gen func(p []int)
		gen = func(p []int) {
			try(p, items)
			if len(p) < max {
				for i := 0; i < items; i++ {
					gen(append(p[:len(p):len(p)], i))
				}
			}
		}
		gen(nil)
		for n := 1; n <= pick(q, 90, 300); n++ {
			for _, o := range walkOrders {
				for rep := 1; rep <= 3; rep++ {
					var seq []int
					for i := 0; i < n; i++ {
						for r := 0; r < 1+(rep-1)*(i%2); r++ {
							seq = append(seq, o.at(i, n))
						}
					}
					try(seq, n)
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("all sequences up to length %d of %d items, longer ones in %d orders", max, items, len(walkOrders))
		w.Sample("sorted set from 3 items [2 0 2]")
	})
}
