package props

import (
	"fmt"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// hashed builds keys with the given hashes.
func hashed(hs ...int) (ks []types.Hashable) {
	for i, h := range hs {
		ks = append(ks, HK{i, h})
	}
	return
}

func init() {
	engine.Register(&engine.Property{
		ID: "C01",
		Assumptions: []string{
			"keys obey their Equals/Less/Hash contract; iterators are not interleaved with modifications of the same table",
			"sizes beyond the swept ones behave like the swept ones",
		},
		Jobs: c01jobs,
	})
}

func c01jobs(tier string) []engine.Job {
	quick := tier != "thorough"
	var jobs []engine.Job
	bfs := func(name string, cfg mapCfg, depth int) {
		jobs = append(jobs, job(name, func(w *engine.W) {
			c := cfg
			w.BFS(engine.Spec{New: c.new, Ops: c.ops(), MaxDepth: depth,
				Bound: fmt.Sprintf("%d keys x %d values, %d keys never put", c.nkeys, c.vals, len(c.keys)-c.nkeys)})
		}))
	}
	type hs struct {
		name string
		h    []int
	}
	hashes := []hs{
		{"same", []int{7, 7, 7, 7, 7, 7}},
		{"sign", []int{minInt, minInt + 1, -1, 0, maxInt, 1}},
		{"mod", []int{0, 32, 64, 31, -32, 96}},
	}
	if !quick {
		hashes = []hs{
			{"same", []int{7, 7, 7, 7, 7, 7, 7}},
			{"sign", []int{minInt, minInt + 1, -1, 0, 1, maxInt, maxInt - 1}},
			{"mod", []int{0, 32, 64, 31, -32, 96, 128}},
			{"pair", []int{5, 5, -5, -5, 37, 37, 69}},
		}
	}
	caps := []int{0, 1, 2, 3, 8}
	if quick {
		caps = []int{0, 1, 2, 5}
	}
	for _, h := range hashes {
		for _, cp := range caps {
			cp := cp
			ks := hashed(h.h...)
			bfs(fmt.Sprintf("chained-%s-cap%d", h.name, cp), mapCfg{
				mk: func() types.MapOperable { return hashtable.NewHashTable(cp) }, keys: ks, nkeys: len(ks) - 1, vals: 2,
			}, 0)
		}
		ks := hashed(h.h...)
		bfs("linear-"+h.name, mapCfg{
			mk: func() types.MapOperable { return hashtable.NewLinearHash() }, keys: ks, nkeys: len(ks) - 1, vals: 2,
		}, 0)
	}
	// starting states just below a split of the linear hash table (12 entries per bucket) or a doubling
	// of the chained one
	starts := []int{380, 381, 382, 383, 384, 395, 768 - 3}
	if quick {
		starts = []int{381, 383, 395}
	}
	for _, p := range starts {
		for _, f := range []string{"seq", "same"} {
			var pre []pair
			for i := 0; i < p; i++ {
				h := i
				if f == "same" {
					h = 32 * (i % 3)
				}
				pre = append(pre, pair{HK{1000 + i, h}, i})
			}
			ks := hashed(0, 32, 64, 1, -32)
			bfs(fmt.Sprintf("linear-from%d-%s", p, f), mapCfg{
				mk: func() types.MapOperable { return hashtable.NewLinearHash() }, keys: ks, nkeys: len(ks) - 1, vals: 1, pre: pre,
			}, pick(quick, 6, 8))
		}
	}
	jobs = append(jobs,
		oddMap("chained-odd-values", func() types.MapOperable { return hashtable.NewHashTable(2) }, false),
		oddMap("linear-odd-values", func() types.MapOperable { return hashtable.NewLinearHash() }, false))
	jobs = append(jobs, bigHashMaps(pick(quick, 26000, 60000), func() types.MapOperable { return hashtable.NewLinearHash() }, "linear")...)
	jobs = append(jobs, bigHashMaps(pick(quick, 8000, 40000), func() types.MapOperable { return hashtable.NewHashTable(1) }, "chained")...)
	return append(jobs, c01sweeps(quick)...)
}
