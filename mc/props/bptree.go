package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

func init() {
	engine.Register(&engine.Property{ID: "C05", Jobs: c05jobs, Assumptions: []string{
		"node size at least two", "the relative order of entries with equal keys is not specified",
		"what remove-where reports for an absent key is not specified (only that nothing changes)"}})
	engine.Register(&engine.Property{ID: "C06", Jobs: c06jobs, Assumptions: []string{
		"node size at least two", "the relative order of entries with equal keys is not specified", "trees are not modified while iterated"}})
	engine.Register(&engine.Property{ID: "C07", Jobs: c07jobs, Assumptions: []string{"node size at least two"}})
}

// bpSys explores the multimap. The model keeps, per key, the sorted values.
type bpSys struct {
	c     *bpCfg
	t     *bptree.BpTree
	model [][]int
	n     int
}

type bpCfg struct {
	nodeSize int
	keys     []types.Hashable
	nkeys    int // keys below nkeys are added; the others are only queried and removed
	vals     int
	maxSize  int
	maxDup   int
	simple   bool // fewer operations: add and remove-all/remove-one-value only
	obs      func(s *bpSys) string
	opNames  []string
	opDo     []func(s *bpSys) string
	opOn     []func(s *bpSys) bool
	pre      []int // keys (indices) added with value 0 before exploration starts
	odd      bool  // the values are oddValues
}

// val is the value stored for index i of the model, idx the index of a stored value (or -1).
func (c *bpCfg) val(i int) interface{} {
	if c.odd {
		return oddValues[i]
	}
	return i
}

func (c *bpCfg) idx(v interface{}) int {
	if !c.odd {
		if i, ok := v.(int); ok {
			return i
		}
		return -1
	}
	for i, o := range oddValues {
		if sameVal(v, o) {
			return i
		}
	}
	return -1
}

func removeVals(xs []int, del func(int) bool) []int {
	var r []int
	for _, x := range xs {
		if !del(x) {
			r = append(r, x)
		}
	}
	return r
}

func (c *bpCfg) build() {
	add := func(name string, on func(s *bpSys) bool, f func(s *bpSys) string) {
		c.opNames = append(c.opNames, name)
		c.opOn = append(c.opOn, on)
		c.opDo = append(c.opDo, f)
	}
	for k := 0; k < c.nkeys; k++ {
		for v := 0; v < c.vals; v++ {
			k, v := k, v
			add(fmt.Sprintf("add(%v,%d)", c.keys[k], v), func(s *bpSys) bool {
				return s.n < c.maxSize && (c.maxDup == 0 || len(s.model[k]) < c.maxDup)
			}, func(s *bpSys) string {
				if err := s.t.Add(c.keys[k], c.val(v)); err != nil {
					return errf("add failed: %v", firstLine(err))
				}
				s.model[k] = append(append([]int(nil), s.model[k]...), v)
				sort.Ints(s.model[k])
				s.n++
				return ""
			})
		}
	}
	rm := func(k int, what string, del func(int) bool) {
		add(fmt.Sprintf("removeWhere(%v,%s)", c.keys[k], what), nil, func(s *bpSys) string {
			err := s.t.RemoveWhere(c.keys[k], func(v interface{}) bool { return del(c.idx(v)) })
			if err != nil && len(s.model[k]) > 0 {
				return errf("removeWhere of a present key failed: %v", firstLine(err))
			}
			left := removeVals(s.model[k], del)
			s.n -= len(s.model[k]) - len(left)
			s.model[k] = left
			return ""
		})
	}
	rep := func(k int, what string, sel func(int) bool, to int) {
		add(fmt.Sprintf("replace(%v,%s,%d)", c.keys[k], what, to), nil, func(s *bpSys) string {
			err := s.t.Replace(c.keys[k], func(v interface{}) bool { return sel(c.idx(v)) }, c.val(to))
			if err != nil && len(s.model[k]) > 0 {
				return errf("replace of a present key failed: %v", firstLine(err))
			}
			m := append([]int(nil), s.model[k]...)
			for i, x := range m {
				if sel(x) {
					m[i] = to
				}
			}
			sort.Ints(m)
			if len(m) > 0 {
				s.model[k] = m
			}
			return ""
		})
	}
	for k := range c.keys {
		rm(k, "all", func(int) bool { return true })
		if c.vals > 1 {
			rm(k, "v==0", func(v int) bool { return v == 0 })
			if !c.simple {
				rm(k, "v==1", func(v int) bool { return v == 1 })
				rep(k, "v==0", func(v int) bool { return v == 0 }, 1)
				rep(k, "all", func(int) bool { return true }, 0)
				if c.odd {
					rep(k, "all", func(int) bool { return true }, 2)
					rep(k, "v<3", func(v int) bool { return v < 3 }, 3)
				}
			}
		}
		if !c.simple {
			rm(k, "none", func(int) bool { return false })
		}
	}
}

func (c *bpCfg) new() engine.Sys {
	s := &bpSys{c: c, t: bptree.NewBpTree(c.nodeSize), model: make([][]int, len(c.keys))}
	for _, k := range c.pre {
		_ = s.t.Add(c.keys[k], c.val(0))
		s.model[k] = append(s.model[k], 0)
		s.n++
	}
	return s
}

func (s *bpSys) Roots() []interface{} { return []interface{}{s.t, s.model} }
func (s *bpSys) Enabled(op int) bool {
	on := s.c.opOn[op]
	return on == nil || on(s)
}
func (s *bpSys) Apply(op int) string {
	if m := s.c.opDo[op](s); m != "" {
		return m
	}
	if s.t.Size() != s.n {
		return errf("size is %d, want %d", s.t.Size(), s.n)
	}
	return ""
}
func (s *bpSys) Observe() string { return s.c.obs(s) }

// cmpGroups compares a yielded sequence with wanted key groups (in order); inside a group the order of
// values is free.
func (s *bpSys) cmpGroups(what string, got []pair, keys []int) string {
	i := 0
	bad := ""
	for _, k := range keys {
		want := s.model[k]
		var vs []int
		for range want {
			if i >= len(got) {
				bad = "too few entries"
				break
			}
			if !eqKey(got[i].k, s.c.keys[k]) {
				bad = errf("entry %d has key %v, want %v", i, got[i].k, s.c.keys[k])
				break
			}
			v := s.c.idx(got[i].v)
			if v < 0 {
				bad = errf("entry %d has value %v", i, got[i].v)
				break
			}
			vs = append(vs, v)
			i++
		}
		if bad != "" {
			break
		}
		sort.Ints(vs)
		for j := range vs {
			if vs[j] != want[j] {
				bad = errf("key %v has values %v, want %v", s.c.keys[k], vs, want)
			}
		}
	}
	if bad == "" && i != len(got) {
		bad = "too many entries"
	}
	if bad != "" {
		return errf("%s: %s (yielded %s)", what, bad, fmtPairs(got))
	}
	return ""
}

// obsMulti: size, has, count and find of every key (C05).
func obsMulti(s *bpSys) string {
	if s.t.Size() != s.n {
		return errf("size is %d, want %d", s.t.Size(), s.n)
	}
	for k, key := range s.c.keys {
		if got := s.t.Has(key); got != (len(s.model[k]) > 0) {
			return errf("has(%v) is %v", key, got)
		}
		if got := s.t.Count(key); got != len(s.model[k]) {
			return errf("count(%v) is %d, want %d", key, got, len(s.model[k]))
		}
		got, _ := drainKV(s.t.Find(key), len(s.model[k])+64)
		if m := s.cmpGroups(fmt.Sprintf("find(%v)", key), got, []int{k}); m != "" {
			return m
		}
	}
	got, _ := drainKV(s.t.Iterate(), s.n+64)
	return s.cmpGroups("iterate", got, upTo(len(s.c.keys)))
}

func upTo(n int) (r []int) {
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return
}

func rev(a []int) (r []int) {
	for i := len(a) - 1; i >= 0; i-- {
		r = append(r, a[i])
	}
	return
}

// obsOrder: every iterator and every range between any two keys (C06).
func obsOrder(s *bpSys) string {
	if m := obsIter(s); m != "" {
		return m
	}
	return obsRanges(s, upTo(len(s.c.keys)))
}

func obsIter(s *bpSys) string {
	all := upTo(len(s.c.keys))
	max := s.n + 64
	got, _ := drainKV(s.t.Iterate(), max)
	if m := s.cmpGroups("iterate", got, all); m != "" {
		return m
	}
	fwd := got
	got, _ = drainKV(s.t.Backward(), max)
	if m := s.cmpGroups("backward", got, rev(all)); m != "" {
		return m
	}
	keys, _ := drainK(s.t.Keys(), max)
	i := 0
	for k := range s.c.keys {
		if len(s.model[k]) == 0 {
			continue
		}
		if i >= len(keys) || !eqKey(keys[i], s.c.keys[k]) {
			return errf("keys yielded %v, entry %d should be %v", keys, i, s.c.keys[k])
		}
		i++
	}
	if i != len(keys) {
		return errf("keys yielded %v, want %d keys", keys, i)
	}
	vals, _ := drainV(s.t.Values(), max)
	items, _ := drainK(s.t.Items(), max)
	if len(vals) != len(fwd) || len(items) != len(fwd) {
		return errf("values yielded %d and items %d entries, want %d", len(vals), len(items), len(fwd))
	}
	for i := range fwd {
		e, ok := items[i].(*types.MapEntry)
		if !ok || !sameVal(vals[i], fwd[i].v) || !eqKey(e.Key, fwd[i].k) || !sameVal(e.Value, fwd[i].v) {
			return errf("values/items disagree with iterate at entry %d", i)
		}
	}
	return s.obsAtOnce(max)
}

// obsAtOnce advances iterators of every kind alternately.
func (s *bpSys) obsAtOnce(max int) string {
	all := upTo(len(s.c.keys))
	first, last := s.c.keys[0], s.c.keys[len(s.c.keys)-1]
	its := []types.KVIterator{s.t.Iterate(), s.t.Backward(), s.t.Range(first, last), s.t.Range(last, first), s.t.Iterate(), s.t.Backward()}
	got := make([][]pair, len(its))
	for open := true; open; {
		open = false
		for i := range its {
			if its[i] == nil || len(got[i]) > max {
				continue
			}
			var p pair
			if p.k, p.v, its[i] = its[i](); its[i] != nil {
				got[i] = append(got[i], p)
				open = true
			}
		}
	}
	for i := range its {
		want := all
		if i%2 == 1 {
			want = rev(all)
		}
		if m := s.cmpGroups("iterators advanced alternately", got[i], want); m != "" {
			return m
		}
	}
	return ""
}

func obsRanges(s *bpSys, pts []int) string {
	all := upTo(len(s.c.keys))
	max := s.n + 64
	for _, a := range pts {
		for _, b := range pts {
			var want []int
			if a <= b {
				want = all[a : b+1]
			} else {
				want = rev(all[b : a+1])
			}
			got, _ := drainKV(s.t.Range(s.c.keys[a], s.c.keys[b]), max)
			if m := s.cmpGroups(fmt.Sprintf("range(%v,%v)", s.c.keys[a], s.c.keys[b]), got, want); m != "" {
				return m
			}
		}
	}
	return ""
}

func bpJob(name string, c bpCfg, depth int) engine.Job {
	return job(name, func(w *engine.W) {
		cfg := c
		cfg.build()
		w.BFS(engine.Spec{New: cfg.new, Ops: cfg.opNames, MaxDepth: depth,
			Bound: fmt.Sprintf("node size %d, %d keys x %d values, up to %d entries", c.nodeSize, c.nkeys, c.vals, c.maxSize)})
	})
}

func c05jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	// few keys, many duplicates, selective predicates
	type cf struct{ ns, keys, vals, size int }
	cs := []cf{{2, 2, 2, 8}, {3, 2, 2, 9}, {2, 3, 2, 7}, {3, 3, 2, 7}, {4, 2, 2, 9}, {4, 3, 2, 7}, {5, 2, 2, 9}, {2, 1, 2, 12}, {3, 1, 2, 12}, {2, 2, 3, 6}, {3, 1, 3, 9}}
	if !q {
		cs = []cf{{2, 2, 2, 9}, {3, 2, 2, 10}, {2, 3, 2, 8}, {3, 3, 2, 8}, {4, 2, 2, 10}, {4, 3, 2, 8}, {5, 2, 2, 11}, {2, 1, 2, 13}, {3, 1, 2, 13}, {2, 2, 3, 7}, {3, 1, 3, 10}}
	}
	for _, c := range cs {
		jobs = append(jobs, bpJob(fmt.Sprintf("dups-ns%d-k%d-v%d-n%d", c.ns, c.keys, c.vals, c.size),
			bpCfg{nodeSize: c.ns, keys: ints(c.keys + 1), nkeys: c.keys, vals: c.vals, maxSize: c.size, obs: obsMulti}, 0))
	}
	// more keys, deeper trees, one value
	ds := []cf{{2, 6, 1, 7}, {2, 5, 1, 8}, {3, 6, 1, 8}, {4, 5, 1, 11}, {5, 5, 1, 11}}
	if !q {
		ds = []cf{{2, 6, 1, 9}, {3, 6, 1, 10}, {4, 6, 1, 11}, {5, 5, 1, 13}}
	}
	for _, c := range ds {
		jobs = append(jobs, bpJob(fmt.Sprintf("keys-ns%d-k%d-n%d", c.ns, c.keys, c.size),
			bpCfg{nodeSize: c.ns, keys: ints(c.keys + 1), nkeys: c.keys, vals: 1, maxSize: c.size, simple: true, obs: obsMulti}, 0))
	}
	jobs = append(jobs,
		bpJob("odd-values", bpCfg{nodeSize: 2, keys: bkeys("a", "ab", "b"), nkeys: 2, vals: len(oddValues), maxSize: pick(q, 4, 5), odd: true, obs: obsMulti}, 0),
		bpJob("same-hash", bpCfg{nodeSize: 2, keys: hashed(7, 7, 7, 7), nkeys: 3, vals: 2, maxSize: 6, obs: obsMulti}, 0))
	jobs = append(jobs, bpRuns("multi", q, obsMulti)...)
	jobs = append(jobs, bpWide(q, false)...)
	jobs = append(jobs, bigMultis(q, false)...)
	return append(jobs, bpWalks("multi", q, obsMulti)...)
}

func c06jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	type cf struct{ ns, keys, vals, size, dup int }
	cs := []cf{{2, 3, 2, 6, 0}, {3, 3, 2, 6, 0}, {2, 5, 1, 8, 0}, {3, 5, 1, 8, 0}, {4, 5, 1, 9, 0}, {5, 4, 1, 10, 0}, {2, 2, 1, 12, 0}}
	if !q {
		cs = []cf{{2, 3, 2, 7, 0}, {3, 3, 2, 7, 0}, {2, 6, 1, 8, 0}, {3, 6, 1, 8, 0}, {4, 5, 1, 10, 0}, {5, 4, 1, 11, 0}, {2, 2, 1, 12, 0}}
	}
	for _, c := range cs {
		jobs = append(jobs, bpJob(fmt.Sprintf("ns%d-k%d-v%d-n%d", c.ns, c.keys, c.vals, c.size),
			bpCfg{nodeSize: c.ns, keys: ints(c.keys + 2), nkeys: c.keys, vals: c.vals, maxSize: c.size, maxDup: c.dup, simple: true, obs: obsOrder}, 0))
	}
	jobs = append(jobs,
		bpJob("odd-values", bpCfg{nodeSize: 2, keys: bkeys("a", "ab", "b", "c"), nkeys: 2, vals: len(oddValues), maxSize: pick(q, 4, 5), odd: true, obs: obsOrder}, 0),
		bpJob("same-hash", bpCfg{nodeSize: 2, keys: hashed(7, 7, 7, 7), nkeys: 3, vals: 1, maxSize: 7, obs: obsOrder}, 0))
	jobs = append(jobs, bpRuns("order", q, obsOrder)...)
	jobs = append(jobs, bpWide(q, true)...)
	jobs = append(jobs, bigMultis(q, true)...)
	return append(jobs, bpWalks("order", q, obsOrderFew)...)
}

// obsOrderFew is obsOrder with the quadratic number of ranges thinned out for long walks: all ranges
// whose two ends lie among the first, middle and last few keys.
func obsOrderFew(s *bpSys) string {
	n := len(s.c.keys)
	if n <= 12 {
		return obsOrder(s)
	}
	if m := obsIter(s); m != "" {
		return m
	}
	var pts []int
	for i := 0; i < n; i++ {
		// some fixed places and some which move with the size of the tree
		if i < 2 || i >= n-3 || i == n/2 || i == s.n%n || i == (s.n+1)%n || i == s.n*7%n {
			pts = append(pts, i)
		}
	}
	return obsRanges(s, pts)
}

func c07jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	type cf struct{ ns, keys, vals int }
	cs := []cf{{2, 6, 1}, {3, 7, 1}, {4, 8, 1}, {2, 5, 2}, {3, 5, 2}, {5, 7, 1}}
	if !q {
		cs = []cf{{2, 8, 1}, {3, 9, 1}, {4, 9, 1}, {2, 6, 2}, {3, 6, 2}, {5, 9, 1}, {6, 9, 1}}
	}
	for _, c := range cs {
		ns := c.ns
		jobs = append(jobs, mapBFS(fmt.Sprintf("ns%d-k%d-v%d", c.ns, c.keys, c.vals), mapCfg{
			mk:   func() types.MapOperable { return bptree.NewBpMap(ns) },
			keys: ints(c.keys + 1), nkeys: c.keys, vals: c.vals, ordered: true}, 0))
	}
	jobs = append(jobs, mapBFS("strings", mapCfg{mk: func() types.MapOperable { return bptree.NewBpMap(2) },
		keys: strs("", "\x00", "a", "aa", "b", "\xff"), nkeys: 5, vals: 2, ordered: true}, 0))
	jobs = append(jobs, oddMap("odd-values", func() types.MapOperable { return bptree.NewBpMap(2) }, true))
	for _, ns := range []int{32, 48} {
		ns := ns
		jobs = append(jobs, job(fmt.Sprintf("wide-ns%d", ns), func(w *engine.W) {
			n := ns * ns * 2 / 3
			for _, up := range walkOrders {
				for _, down := range walkOrders {
					up, down := up, down
					w.Case(func() string {
						return fmt.Sprintf("node size %d: put %d keys %s, remove %s", ns, n, up.name, down.name)
					}, func() string {
						return wideMap(w, bptree.NewBpMap(ns), n, up.at, down.at)
					})
				}
			}
			w.Res.Bound = fmt.Sprintf("node size %d, %d keys, 25 order pairs", ns, n)
		}))
	}
	for _, ns := range []int{5, 16, 100} {
		ns := ns
		jobs = append(jobs, bigIntMap(fmt.Sprintf("big-ns%d", ns), pick(q, 4000, 20000), func() types.MapOperable { return bptree.NewBpMap(ns) }, true, nil))
	}
	return append(jobs, bpMapSweeps(q)...)
}

// wideMap fills and empties a map of n keys, comparing the neighbourhood of each change and, now and then,
// everything.
func wideMap(w *engine.W, m types.Map, n int, up, down func(i, n int) int) string {
	canon := engine.NewCanon(false)
	live := map[int]int{}
	near := func(k int) string {
		for j := k - 1; j <= k+1; j++ {
			want, ok := live[j]
			g, err := m.Get(types.Int(j))
			if (err == nil) != ok || m.Has(types.Int(j)) != ok || (ok && g != want) {
				return errf("get(%d) is %s (error %v), present=%v", j, show(g), err != nil, ok)
			}
		}
		if m.Size() != len(live) {
			return errf("size is %d, want %d", m.Size(), len(live))
		}
		return ""
	}
	whole := func() string {
		w.Distinct(canon.Sum(m))
		var want []pair
		for k := 0; k < n; k++ {
			if v, ok := live[k]; ok {
				want = append(want, pair{types.Int(k), v})
			}
		}
		got, _ := drainKV(m.Iterate(), len(want)+16)
		return cmpPairs("iterate", got, want, true)
	}
	for i := 0; i < n; i++ {
		k := up(i, n)
		w.Steps(2)
		if err := m.Put(types.Int(k), i); err != nil {
			return errf("put(%d) failed: %v", k, firstLine(err))
		}
		live[k] = i
		o := up(i/2, n) // and overwrite an earlier one
		if err := m.Put(types.Int(o), -i); err != nil {
			return errf("put(%d) failed: %v", o, firstLine(err))
		}
		live[o] = -i
		if x := near(k); x != "" {
			return x
		}
	}
	if x := whole(); x != "" {
		return x
	}
	for i := 0; i < n; i++ {
		k := down(i, n)
		w.Steps(1)
		if g, err := m.Remove(types.Int(k)); err != nil || g != live[k] {
			return errf("remove(%d) returned %s, want %d", k, show(g), live[k])
		}
		delete(live, k)
		if x := near(k); x != "" {
			return x
		}
		if i%(n/4) == 0 || i == n-1 || i == n/10 {
			if x := whole(); x != "" {
				return x
			}
		}
	}
	return ""
}
