package props

import (
	"fmt"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// c01sweeps walks tables up and down through every size, so that every growth and split threshold in
// range is crossed with every entry checked, for several families of hash values and waypoint orders.
func c01sweeps(quick bool) []engine.Job {
	type table struct {
		name string
		mk   func() types.Map
		max  int
	}
	tables := []table{
		{"linear", func() types.Map { return hashtable.NewLinearHash() }, 3300},
		{"chained1", func() types.Map { return hashtable.NewHashTable(1) }, 300},
		{"chained7", func() types.Map { return hashtable.NewHashTable(7) }, 300},
	}
	type fam struct {
		name string
		h    func(i int) int
	}
	fams := []fam{
		{"seq", func(i int) int { return i }},
		{"neg", func(i int) int { return -i - 1 }},
		{"stride", func(i int) int { return i * 32 }},
		{"same", func(i int) int { return 5 }},
		{"ends", func(i int) int {
			switch i % 4 {
			case 0:
				return minInt + i
			case 1:
				return maxInt - i
			case 2:
				return i
			}
			return -i
		}},
		{"fnv", func(i int) int { return types.String(fmt.Sprint(i)).Hash() }},
	}
	var jobs []engine.Job
	for _, t := range tables {
		for _, f := range fams {
			t, f := t, f
			max := t.max
			if quick && max > 1700 {
				max = 1700
			}
			if f.name == "same" && t.name != "linear" {
				max = 120
			}
			jobs = append(jobs, job(fmt.Sprintf("sweep-%s-%s", t.name, f.name), func(w *engine.W) {
				sweepMap(w, t.mk, func(i int) types.Hashable { return HK{i, f.h(i)} }, max, false)
			}))
		}
	}
	return jobs
}

// sweepMap drives a map through waypoint histories: grow to n, shrink to m, grow again to p, for every n
// in a full range, checking every answer; full iteration and lookups are compared at every size on the
// way up and down of the longest walks.
func sweepMap(w *engine.W, mk func() types.Map, key func(int) types.Hashable, max int, ordered bool) {
	canon := engine.NewCanon(false)
	type ref map[int]int
	checkAll := func(m types.Map, r ref, upto int) string {
		if m.Size() != len(r) {
			return errf("size is %d, want %d", m.Size(), len(r))
		}
		got, over := drainKV(m.Iterate(), len(r)+64)
		if over || len(got) != len(r) {
			return errf("iterate yielded %d entries, want %d", len(got), len(r))
		}
		seen := map[int]bool{}
		for i, p := range got {
			id := p.k.(HK).ID
			v, ok := r[id]
			if !ok || seen[id] || p.v != v {
				return errf("iterate yielded %v:%v (live=%v, repeated=%v)", p.k, p.v, ok, seen[id])
			}
			seen[id] = true
			if ordered && i > 0 && got[i-1].k.(HK).ID >= id {
				return errf("iterate out of order at %v", p.k)
			}
		}
		for i := 0; i < upto; i++ {
			v, ok := r[i]
			if m.Has(key(i)) != ok {
				return errf("has(%v) is %v", key(i), !ok)
			}
			if ok {
				if g, err := m.Get(key(i)); err != nil || g != v {
					return errf("get(%v) is %v, want %v (err %v)", key(i), g, v, err != nil)
				}
			}
		}
		return ""
	}
	// order of visiting keys: ascending, descending, and striding by a unit of the range
	orders := map[string]func(i, n int) int{
		"asc":  func(i, n int) int { return i },
		"desc": func(i, n int) int { return n - 1 - i },
		"zig": func(i, n int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		},
	}
	names := []string{"asc", "desc", "zig"}
	run := func(up, down string, n, keep int, full bool) func() string {
		return func() string {
			m, r := mk(), ref{}
			steps := 0
			defer func() { w.Steps(steps) }()
			put := func(k, v int) string {
				steps++
				if err := m.Put(key(k), v); err != nil {
					return errf("put(%v) failed: %v", key(k), firstLine(err))
				}
				r[k] = v
				if m.Size() != len(r) {
					return errf("size after put(%v) is %d, want %d", key(k), m.Size(), len(r))
				}
				if g, err := m.Get(key(k)); err != nil || g != v {
					return errf("get right after put(%v) is %v", key(k), g)
				}
				return ""
			}
			del := func(k int) string {
				steps++
				g, err := m.Remove(key(k))
				want, ok := r[k]
				if (err == nil) != ok || (ok && g != want) {
					return errf("remove(%v) returned %v (err %v), want %v", key(k), g, err != nil, want)
				}
				delete(r, k)
				if m.Size() != len(r) || m.Has(key(k)) {
					return errf("after remove(%v): size %d, want %d, has=%v", key(k), m.Size(), len(r), m.Has(key(k)))
				}
				return ""
			}
			at := func(i int) string {
				if full && (i%16 == 0 || i > n-4) || i == n-1 {
					w.Distinct(canon.Sum(m))
					return checkAll(m, r, n+2)
				}
				return ""
			}
			for i := 0; i < n; i++ {
				if d := put(orders[up](i, n), i); d != "" {
					return d
				}
				if d := at(i); d != "" {
					return d
				}
			}
			for i := 0; i < n-keep; i++ {
				if d := del(orders[down](i, n)); d != "" {
					return d
				}
				if d := at(i); d != "" {
					return d
				}
			}
			if d := checkAll(m, r, n+2); d != "" {
				return d
			}
			for i := 0; i < n+3; i++ { // re-insert everything, overwriting the kept ones
				if d := put(orders[up](i, n+3), -i); d != "" {
					return d
				}
			}
			w.Distinct(canon.Sum(m))
			return checkAll(m, r, n+4)
		}
	}
	for _, up := range names {
		for _, down := range names {
			for _, n := range []int{max, max / 2, 7} {
				for _, keep := range []int{0, 1, n / 2} {
					if w.OutOfTime() {
						w.Res.Exhaustive = false
						return
					}
					up, down, n, keep := up, down, n, keep
					w.Case(func() string { return fmt.Sprintf("up %s to %d, down %s to %d, up again", up, n, down, keep) }, run(up, down, n, keep, n == max))
				}
			}
		}
	}
	// every end size up to the limit
	for n := 0; n <= max; n++ {
		if n > 300 && n%7 != 0 && !(n >= 380 && n <= 400) {
			continue
		}
		if w.OutOfTime() {
			w.Res.Exhaustive = false
			return
		}
		n := n
		w.Case(func() string { return fmt.Sprintf("grow to %d, empty, grow", n) }, run("asc", "asc", n, 0, false))
	}
	w.Res.Bound = fmt.Sprintf("walks up to %d entries through all sizes, 9 order pairs, 3 turning points", max)
	w.Sample(fmt.Sprintf("up asc to %d, down zig to %d, up again", max, max/2))
}
