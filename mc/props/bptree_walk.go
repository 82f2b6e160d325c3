package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// perms of visiting orders used by long walks.
var walkOrders = []struct {
	name string
	at   func(i, n int) int
}{
	{"asc", func(i, n int) int { return i }},
	{"desc", func(i, n int) int { return n - 1 - i }},
	{"zig", func(i, n int) int {
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	}},
	{"out", func(i, n int) int { // from the middle outwards
		m := n / 2
		if i%2 == 0 {
			return (m + i/2) % n
		}
		return (m - 1 - i/2 + n) % n
	}},
	{"even-odd", func(i, n int) int {
		h := (n + 1) / 2
		if i < h {
			return 2 * i
		}
		return 2*(i-h) + 1
	}},
}

// bpWalks: long histories with large trees, several node sizes, duplicate runs of several lengths. Each
// order of adding is combined with each order of removing; the oracle is the same as in the state graph.
func bpWalks(name string, q bool, obs func(s *bpSys) string) []engine.Job {
	var jobs []engine.Job
	sizes := []int{2, 3, 4, 5, 8, 16, 23, 63}
	if !q {
		sizes = append(sizes, 6, 7, 9, 10, 15, 17, 32, 64)
	}
	for _, ns := range sizes {
		ns := ns
		jobs = append(jobs, job(fmt.Sprintf("walk-%s-ns%d", name, ns), func(w *engine.W) {
			canon := engine.NewCanon(false)
			nk := pick(q, 30, 60)
			if ns > 8 {
				nk = pick(q, 45, 90)
			}
			for _, dups := range []int{1, 2, ns, ns + 1, 2*ns + 1} {
				if dups > 3 && nk*dups > 700 {
					nk = 700/dups + 2
				}
				for _, up := range walkOrders {
					for _, down := range walkOrders {
						nk, dups, up, down := nk, dups, up, down
						w.Case(func() string {
							return fmt.Sprintf("node size %d: add %d keys x %d %s, remove %s", ns, nk, dups, up.name, down.name)
						}, func() string {
							c := &bpCfg{nodeSize: ns, keys: ints(nk + 2), nkeys: nk, vals: 3, maxSize: 1 << 30, simple: true, obs: obs}
							s := c.new().(*bpSys)
							check := func(i, of int) string {
								if s.t.Size() != s.n {
									return errf("size is %d, want %d", s.t.Size(), s.n)
								}
								every := 1
								if s.n > 150 {
									every = of/8 + 1
								}
								if i%every == every-1 || i == of-1 {
									w.Distinct(canon.Sum(s.t))
									w.Res.Observed++
									return s.Observe()
								}
								return ""
							}
							add := func(k, v int) string {
								w.Steps(1)
								if err := s.t.Add(c.keys[k], v); err != nil {
									return errf("add(%v) failed: %v", c.keys[k], firstLine(err))
								}
								m := s.model[k]
								j := len(m)
								for j > 0 && m[j-1] > v {
									j--
								}
								m = append(m, 0)
								copy(m[j+1:], m[j:])
								m[j] = v
								s.model[k] = m
								s.n++
								return ""
							}
							rm := func(k int, del func(int) bool) string {
								w.Steps(1)
								if err := s.t.RemoveWhere(c.keys[k], func(v interface{}) bool { return del(v.(int)) }); err != nil && len(s.model[k]) > 0 {
									return errf("removeWhere(%v) failed: %v", c.keys[k], firstLine(err))
								}
								left := removeVals(s.model[k], del)
								s.n -= len(s.model[k]) - len(left)
								s.model[k] = left
								return ""
							}
							for d := 0; d < dups; d++ {
								for i := 0; i < nk; i++ {
									if m := add(up.at(i, nk), d%3); m != "" {
										return m
									}
								}
							}
							if m := s.Observe(); m != "" {
								return m
							}
							for i := 0; i < nk+2; i++ { // rewrite one of the values of each run, and of absent keys
								k := i
								if i < nk {
									k = down.at(i, nk)
								}
								w.Steps(1)
								sel := k % 3
								if err := s.t.Replace(c.keys[k], func(v interface{}) bool { return v.(int) == sel }, (sel+1)%3); err != nil && len(s.model[k]) > 0 {
									return errf("replace(%v) failed: %v", c.keys[k], firstLine(err))
								}
								for j, x := range s.model[k] {
									if x == sel {
										s.model[k][j] = (sel + 1) % 3
									}
								}
								sort.Ints(s.model[k])
								if m := check(i, nk+2); m != "" {
									return m
								}
							}
							for v := 0; v < 2; v++ { // remove some of each run, then refill half of it
								for i := 0; i < nk; i++ {
									if m := rm(down.at(i, nk), func(x int) bool { return x == v }); m != "" {
										return m
									}
									if m := check(i, nk); m != "" {
										return m
									}
								}
								for i := 0; i < nk; i++ {
									if i%2 == 0 {
										if m := add(up.at(i, nk), 2-v); m != "" {
											return m
										}
									}
								}
								if m := s.Observe(); m != "" {
									return m
								}
							}
							for i := 0; i < nk; i++ {
								if m := rm(down.at(i, nk), func(int) bool { return true }); m != "" {
									return m
								}
								if m := check(i, nk); m != "" {
									return m
								}
							}
							for i := 0; i < nk; i++ {
								if m := add(down.at(i, nk), 1); m != "" {
									return m
								}
							}
							return s.Observe()
						})
						if w.OutOfTime() {
							w.Res.Exhaustive = false
							return
						}
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("node size %d, 5x5 add/remove orders, runs of 1..%d duplicates", ns, 2*ns+1)
			w.Sample(fmt.Sprintf("node size %d: add %d keys x 2 zig, remove out", ns, nk))
		}))
	}
	return jobs
}

// bpRuns: three neighbouring keys with every combination of run lengths up to a bound, added in every
// order and either key by key or in turns, then thinned out and taken apart in every order.
func bpRuns(name string, q bool, obs func(s *bpSys) string) []engine.Job {
	var jobs []engine.Job
	perms := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}
	for _, ns := range []int{2, 3, 4, 5, 6, 8} {
		ns := ns
		max := 2*ns + 2
		if m := pick(q, 11, 14); max > m {
			max = m
		}
		jobs = append(jobs, job(fmt.Sprintf("runs-%s-ns%d", name, ns), func(w *engine.W) {
			canon := engine.NewCanon(false)
			keys := []types.Hashable{types.Int(10), types.Int(20), types.Int(30), types.Int(25)}
			for code := 0; code < (max+1)*(max+1)*(max+1); code++ {
				cnt := []int{code % (max + 1), code / (max + 1) % (max + 1), code / (max + 1) / (max + 1)}
				for pi, perm := range perms {
					for turns := 0; turns < 2; turns++ {
						cnt, perm, pi, turns := cnt, perm, pi, turns
						w.Case(func() string {
							return fmt.Sprintf("node size %d: runs %v of keys 10 20 30 added in order %v, in turns=%v", ns, cnt, perm, turns == 1)
						}, func() string {
							c := &bpCfg{nodeSize: ns, keys: keys[:3], nkeys: 3, vals: 3, maxSize: 1 << 30, simple: true, obs: obs}
							s := c.new().(*bpSys)
							add := func(k, v int) string {
								w.Steps(1)
								if err := s.t.Add(keys[k], v); err != nil {
									return errf("add(%v) failed: %v", keys[k], firstLine(err))
								}
								s.model[k] = append(s.model[k], v)
								sort.Ints(s.model[k])
								s.n++
								return ""
							}
							rm := func(k int, del func(int) bool) string {
								w.Steps(1)
								if err := s.t.RemoveWhere(keys[k], func(v interface{}) bool { return del(v.(int)) }); err != nil && len(s.model[k]) > 0 {
									return errf("removeWhere(%v) failed: %v", keys[k], firstLine(err))
								}
								left := removeVals(s.model[k], del)
								s.n -= len(s.model[k]) - len(left)
								s.model[k] = left
								w.Res.Observed++
								return s.Observe()
							}
							if turns == 0 {
								for _, k := range perm {
									for i := 0; i < cnt[k]; i++ {
										if m := add(k, i%3); m != "" {
											return m
										}
									}
								}
							} else {
								for i := 0; i < max; i++ {
									for _, k := range perm {
										if i < cnt[k] {
											if m := add(k, i%3); m != "" {
												return m
											}
										}
									}
								}
							}
							w.Distinct(canon.Sum(s.t))
							w.Res.Observed++
							if m := s.Observe(); m != "" {
								return m
							}
							for j := 0; j < 3; j++ {
								k := perms[(pi+1+turns)%6][j]
								if m := rm(k, func(v int) bool { return v == (k+j)%3 }); m != "" {
									return m
								}
							}
							w.Distinct(canon.Sum(s.t))
							if m := add(1, 2); m != "" {
								return m
							}
							for j := 0; j < 3; j++ {
								if m := rm(perms[(pi+3)%6][j], func(int) bool { return true }); m != "" {
									return m
								}
							}
							return ""
						})
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("node size %d, every run length 0..%d of three keys, 12 ways of adding", ns, max)
		}))
	}
	return jobs
}

// bpMapSweeps walks the unique-key tree up and down through all sizes.
func bpMapSweeps(q bool) []engine.Job {
	var jobs []engine.Job
	for _, ns := range []int{2, 3, 4, 5, 7, 16, 23, 63, 64} {
		ns := ns
		jobs = append(jobs, job(fmt.Sprintf("sweep-ns%d", ns), func(w *engine.W) {
			sweepMap(w, func() types.Map { return bptree.NewBpMap(ns) }, func(i int) types.Hashable { return HK{i, 0} }, pick(q, 300, 800), true)
		}))
	}
	return jobs
}

// bpWide: wide nodes with many children. Keys are added in every order, each twice when dups is set, and
// taken out in every order; the neighbourhood of each change and, now and then, the whole tree is compared.
func bpWide(q bool, order bool) []engine.Job {
	var jobs []engine.Job
	for _, ns := range []int{32, 48, 100} {
		ns := ns
		jobs = append(jobs, job(fmt.Sprintf("wide-ns%d", ns), func(w *engine.W) {
			canon := engine.NewCanon(false)
			n := ns * ns * 2 / 3
			if n > 3000 {
				n = 3000
			}
			for dups := 1; dups <= 2; dups++ {
				for _, up := range walkOrders {
					for _, down := range walkOrders {
						dups, up, down := dups, up, down
						w.Case(func() string {
							return fmt.Sprintf("node size %d: add %d keys x %d %s, remove %s", ns, n, dups, up.name, down.name)
						}, func() string {
							t := bptree.NewBpTree(ns)
							live := make([]int, n)
							total := 0
							near := func(k int) string {
								for j := k - 1; j <= k+1; j++ {
									want := 0
									if j >= 0 && j < n {
										want = live[j]
									}
									if c := t.Count(types.Int(j)); c != want || t.Has(types.Int(j)) != (want > 0) {
										return errf("count(%d) is %d, want %d", j, c, want)
									}
								}
								if t.Size() != total {
									return errf("size is %d, want %d", t.Size(), total)
								}
								return ""
							}
							whole := func() string {
								w.Res.Observed++
								w.Distinct(canon.Sum(t))
								var want []int
								for k, c := range live {
									for ; c > 0; c-- {
										want = append(want, k)
									}
								}
								same := func(what string, it types.KVIterator, want []int, back bool) string {
									got, over := drainKV(it, len(want)+16)
									if over || len(got) != len(want) {
										return errf("%s yielded %d entries, want %d", what, len(got), len(want))
									}
									for i, p := range got {
										x := want[i]
										if back {
											x = want[len(want)-1-i]
										}
										if p.k != types.Hashable(types.Int(x)) || p.v.(int)/4 != x {
											return errf("%s: entry %d is %v:%v, want key %d", what, i, p.k, p.v, x)
										}
									}
									return ""
								}
								if m := same("iterate", t.Iterate(), want, false); m != "" || !order {
									return m
								}
								if m := same("backward", t.Backward(), want, true); m != "" {
									return m
								}
								for _, r := range [][2]int{{0, n - 1}, {n / 3, n / 2}, {n / 2, n/2 + 1}, {n - 5, n + 5}} {
									lo := sort.SearchInts(want, r[0])
									hi := sort.SearchInts(want, r[1]+1)
									if m := same("range", t.Range(types.Int(r[0]), types.Int(r[1])), want[lo:hi], false); m != "" {
										return m
									}
									if m := same("range down", t.Range(types.Int(r[1]), types.Int(r[0])), want[lo:hi], true); m != "" {
										return m
									}
								}
								return ""
							}
							for d := 0; d < dups; d++ {
								for i := 0; i < n; i++ {
									k := up.at(i, n)
									w.Steps(1)
									if err := t.Add(types.Int(k), 4*k+d); err != nil {
										return errf("add(%d) failed: %v", k, firstLine(err))
									}
									live[k]++
									total++
									if m := near(k); m != "" {
										return m
									}
								}
								if m := whole(); m != "" {
									return m
								}
							}
							for i := 0; i < n; i++ {
								k := down.at(i, n)
								w.Steps(1)
								some := i%3 == 0 && dups > 1
								if err := t.RemoveWhere(types.Int(k), func(v interface{}) bool { return !some || v.(int)%4 == 0 }); err != nil {
									return errf("removeWhere(%d) failed: %v", k, firstLine(err))
								}
								if some {
									live[k]--
									total--
								} else {
									total -= live[k]
									live[k] = 0
								}
								if m := near(k); m != "" {
									return m
								}
								if i%(n/4) == 0 || i == n-1 || i == n/10 {
									if m := whole(); m != "" {
										return m
									}
								}
							}
							return ""
						})
						if w.OutOfTime() {
							w.Res.Exhaustive = false
							return
						}
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("node size %d, %d keys once and twice, 25 order pairs", ns, n)
		}))
	}
	return jobs
}
