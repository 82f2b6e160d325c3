package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

type sortedCfg struct {
	fixed bool
	size  int
	dups  bool
	keys  int
	tags  int
	max   int
	copy  bool
	read  int // keys looked up
}

// sone is a sorted list with its model: the items in ascending order.
type sone struct {
	s     *list.Sorted
	model []TK
	fixed bool
	size  int
	dups  bool
}

func (o *sone) full() bool { return o.fixed && len(o.model) >= o.size }

func (o *sone) find(k int) (int, bool) {
	i := sort.Search(len(o.model), func(i int) bool { return o.model[i].Key >= k })
	return i, i < len(o.model) && o.model[i].Key == k
}

// same tells whether the stored item may stand for the model's item: with duplicates, tags of equal
// items are interchangeable.
func (o *sone) same(got types.Hashable, want TK) bool {
	g, ok := got.(TK)
	if !ok || g.Key != want.Key {
		return false
	}
	return o.dups || g == want
}

func (o *sone) cmp(what string, got []types.Hashable, reverse bool) string {
	if len(got) != len(o.model) {
		return errf("%s yielded %v, want %v", what, got, o.model)
	}
	for i := range got {
		j := i
		if reverse {
			j = len(got) - 1 - i
		}
		if !o.same(got[i], o.model[j]) {
			return errf("%s yielded %v, want %v (reverse=%v)", what, got, o.model, reverse)
		}
	}
	return ""
}

func (o *sone) add(t TK) (err error, m string) {
	i, has := o.find(t.Key)
	err = o.s.Add(t)
	switch {
	case has && !o.dups:
		if err != nil {
			return err, errf("add(%v) of a present item failed", t)
		}
	case o.full():
		if err == nil {
			return err, errf("add(%v) to a full list of %d succeeded", t, o.size)
		}
	case err != nil:
		return err, errf("add(%v) failed with %d items (fixed=%v, size %d)", t, len(o.model), o.fixed, o.size)
	default:
		o.model = append(o.model[:i:i], append([]TK{t}, o.model[i:]...)...)
	}
	return err, ""
}

func (o *sone) observe(lo, hi int) string {
	s, n := o.s, len(o.model)
	if s.Size() != n || s.Empty() != (n == 0) || s.Full() != (o.fixed && n == o.size) {
		return errf("size %d empty %v full %v, want contents %v (fixed=%v, size %d)", s.Size(), s.Empty(), s.Full(), o.model, o.fixed, o.size)
	}
	got, _ := drainK(s.Items(), n+8)
	if m := o.cmp("items", got, false); m != "" {
		return m
	}
	got, _ = drainK(s.ItemsInReverse(), n+8)
	if m := o.cmp("items in reverse", got, true); m != "" {
		return m
	}
	if m := o.cmp("paused items", pausedK(s.Items(), n+8, s.Items, s.ItemsInReverse), false); m != "" {
		return m
	}
	if m := o.cmp("paused items in reverse", pausedK(s.ItemsInReverse(), n+8, s.Items, s.ItemsInReverse), true); m != "" {
		return m
	}
	for i := -1; i <= n; i++ {
		v, err := s.Get(i)
		if in := i >= 0 && i < n; in != (err == nil) {
			return errf("get(%d) of %d items: error is %v", i, n, err != nil)
		} else if in && !o.same(v, o.model[i]) {
			return errf("get(%d) is %v, want %v", i, v, o.model[i])
		}
	}
	for k := lo; k <= hi; k++ {
		i, has := o.find(k)
		gi, ghas, err := s.Find(TK{k, 7})
		if err != nil || gi != i || ghas != has {
			return errf("find(%d) is %d,%v (error %v), contents %v", k, gi, ghas, err != nil, o.model)
		}
		if s.Has(TK{k, 7}) != has {
			return errf("has(%d) is %v, contents %v", k, !has, o.model)
		}
		v, err := s.Item(TK{k, 7})
		if (err == nil) != has || (has && !o.same(v, o.model[i])) {
			return errf("item(%d) is %v (error %v), contents %v", k, v, err != nil, o.model)
		}
	}
	return ""
}

type sortedSys struct {
	c   *sortedCfg
	ops []listOp
	a   sone
	b   *sone
}

func (c *sortedCfg) mk() *list.Sorted {
	if c.fixed {
		return list.NewFixedSorted(c.size, c.dups)
	}
	return list.NewSorted(c.size, c.dups)
}

func (c *sortedCfg) ops() (r []listOp) {
	add := func(kind string, i, x, which int) {
		n := fmt.Sprintf("%s(%d,%d)", kind, i, x)
		if which == 1 {
			n = "other." + n
		}
		r = append(r, listOp{n, kind, i, x, which})
	}
	for x := 0; x < c.keys; x++ {
		for t := 0; t < c.tags; t++ {
			add("add", t, x, 0)
		}
		add("delete", 0, x, 0)
		add("extend", (x+c.keys-1)%c.keys, x, 0)
		if c.copy {
			add("add", 0, x, 1)
			add("delete", 0, x, 1)
		}
	}
	add("delete", 0, c.keys, 0)
	add("clear", 0, 0, 0)
	add("fromslice", 0, 0, 0)
	for i := -1; i <= c.max; i++ {
		add("remove", i, 0, 0)
	}
	if c.copy {
		add("copy", 0, 0, 0)
		add("swap", 0, 0, 0)
		add("remove", 0, 0, 1)
		add("clear", 0, 0, 1)
	}
	return
}

func (c *sortedCfg) spec(bound string, depth int) engine.Spec {
	ops := c.ops()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	return engine.Spec{Ops: names, MaxDepth: depth, Hidden: !c.copy, Bound: bound, New: func() engine.Sys {
		return &sortedSys{c: c, ops: ops, a: sone{c.mk(), nil, c.fixed, c.size, c.dups}}
	}}
}

func (s *sortedSys) on(o listOp) *sone {
	if o.which == 1 {
		return s.b
	}
	return &s.a
}

func (s *sortedSys) Enabled(op int) bool {
	o := s.ops[op]
	t := s.on(o)
	if t == nil {
		return false
	}
	switch o.kind {
	case "add":
		return t.fixed || len(t.model) < s.c.max
	case "extend":
		return t.fixed || len(t.model)+2 <= s.c.max
	case "swap":
		return s.b != nil
	case "fromslice":
		return len(t.model) > 0
	}
	return true
}

func (s *sortedSys) Apply(op int) string {
	o := s.ops[op]
	t := s.on(o)
	switch o.kind {
	case "add":
		_, m := t.add(TK{o.x, o.i})
		return m
	case "extend":
		add := []TK{{o.x, 0}, {o.i, 1}}
		// the reference adds one by one to a twin of the list until an add fails
		fail := false
		model := t.model
		for _, y := range add {
			i, has := (&sone{model: model}).find(y.Key)
			if has && !t.dups {
				continue
			}
			if t.fixed && len(model) >= t.size {
				fail = true
				break
			}
			model = append(model[:i:i], append([]TK{y}, model[i:]...)...)
		}
		err := t.s.Extend(sliceIter(items(add)))
		if (err != nil) != fail {
			return errf("extend(%v) on %v: error is %v", add, t.model, err != nil)
		}
		t.model = model
	case "delete":
		i, has := t.find(o.x)
		err := t.s.Delete(TK{o.x, 7})
		if (err == nil) != has {
			return errf("delete(%d) on %v: error is %v", o.x, t.model, err != nil)
		}
		if has {
			t.model = append(t.model[:i:i], t.model[i+1:]...)
		}
	case "remove":
		err := t.s.Remove(o.i)
		if ok := o.i >= 0 && o.i < len(t.model); ok != (err == nil) {
			return errf("remove(%d) on %v: error is %v", o.i, t.model, err != nil)
		} else if ok {
			t.model = append(t.model[:o.i:o.i], t.model[o.i+1:]...)
		}
	case "clear":
		t.s.Clear()
		t.model = nil
	case "fromslice":
		src := items(t.model)
		for i, j := 0, len(src)-1; i < j; i, j = i+1, j-1 {
			src[i], src[j] = src[j], src[i]
		}
		t.s = list.SortedFromSlice(src, t.dups)
		t.fixed = false
		for i := range src {
			src[i] = TK{70, 0}
		}
	case "copy":
		s.b = &sone{t.s.Copy(), t.model, t.fixed, t.size, t.dups}
	case "swap":
		s.a, *s.b = *s.b, s.a
	}
	return ""
}

func (s *sortedSys) Observe() string {
	if m := s.a.observe(-1, s.c.keys); m != "" {
		return m
	}
	if s.b != nil {
		if m := s.b.observe(-1, s.c.keys); m != "" {
			return "the other list: " + m
		}
	}
	return ""
}

func (s *sortedSys) Roots() []interface{} {
	r := []interface{}{s.a.s, s.a.model, s.a.fixed}
	if s.b != nil {
		r = append(r, s.b.s, s.b.model, s.b.fixed)
	}
	return r
}

func c12jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	bfs := func(name string, c sortedCfg, depth int) {
		b := fmt.Sprintf("%+v depth %d (0: closed)", c, depth)
		jobs = append(jobs, job(name, func(w *engine.W) { w.BFS(c.spec(b, depth)) }))
	}
	for size := 0; size <= 3; size++ {
		for _, dups := range []bool{false, true} {
			n := map[bool]string{false: "set", true: "dups"}[dups]
			tags := 2
			if dups {
				tags = 1
			}
			bfs(fmt.Sprintf("grow%d-%s", size, n), sortedCfg{size: size, dups: dups, keys: pick(q, 3, 4), tags: tags, max: pick(q, 4, 5)}, 0)
			bfs(fmt.Sprintf("fixed%d-%s", size, n), sortedCfg{fixed: true, size: size, dups: dups, keys: 3, tags: tags, max: max(size, 2)}, 0)
			bfs(fmt.Sprintf("copy%d-%s", size, n), sortedCfg{size: size, dups: dups, keys: 2, tags: 1, max: 3, copy: true}, pick(q, 5, 8))
			bfs(fmt.Sprintf("copyfixed%d-%s", size, n), sortedCfg{fixed: true, size: size, dups: dups, keys: 2, tags: 1, max: 3, copy: true}, pick(q, 5, 8))
		}
	}
	jobs = append(jobs, sortedSlices(pick(q, 5, 6)), sortedSweep(pick(q, 12, 60), pick(q, 100, 260)), sortedRuns(q), bigSorted(pick(q, 3000, 10000), 1), bigSorted(pick(q, 2000, 6000), 2))
	return jobs
}

// sortedSlices builds sorted lists from every short slice.
func sortedSlices(max int) engine.Job {
	return job("fromslice", func(w *engine.W) {
		canon := engine.NewCanon(false)
		var gen func(p []TK)
		gen = func(p []TK) {
			for _, dups := range []bool{false, true} {
				for _, how := range []string{"SortedFromSlice", "Extend"} {
					w.Case(func() string { return fmt.Sprintf("%s(%v, dups=%v)", how, p, dups) }, func() string {
						w.Steps(len(p))
						o := sone{dups: dups}
						if how == "Extend" {
							o.s = list.NewSorted(1, dups)
							if err := o.s.Extend(sliceIter(items(p))); err != nil {
								return errf("extend failed")
							}
						} else {
							o.s = list.SortedFromSlice(items(p), dups)
						}
						for _, t := range p {
							i, has := o.find(t.Key)
							if !has || dups {
								o.model = append(o.model[:i:i], append([]TK{t}, o.model[i:]...)...)
							}
						}
						w.Distinct(canon.Sum(o.s))
						return o.observe(-1, 4)
					})
				}
			}
			if len(p) < max {
				for k := 0; k < 4; k++ {
					gen(append(p[:len(p):len(p)], TK{k, len(p)}))
				}
			}
		}
		gen(nil)
		w.Res.Bound = fmt.Sprintf("all slices up to length %d over 4 keys", max)
	})
}

func sortedSweep(caps, n int) engine.Job {
	return job("sizes", func(w *engine.W) {
		canon := engine.NewCanon(false)
		for c := 0; c <= caps; c++ {
			for _, dups := range []bool{false, true} {
				for _, fixed := range []bool{false, true} {
					if fixed && c == 0 {
						continue
					}
					for _, up := range walkOrders {
						w.Case(func() string {
							return fmt.Sprintf("capacity %d fixed=%v dups=%v, %d adds %s", c, fixed, dups, n, up.name)
						}, func() string {
							cfg := sortedCfg{fixed: fixed, size: c, dups: dups}
							o := sone{cfg.mk(), nil, fixed, c, dups}
							for i := 0; i < n; i++ {
								w.Steps(1)
								if _, m := o.add(TK{up.at(i, n) / 3 * 2, i}); m != "" {
									return m
								}
								if i%16 == 0 || i == c || i == c-1 || i == n-1 {
									if m := o.observe(-1, n); m != "" {
										return m
									}
									w.Distinct(canon.Sum(o.s))
								}
							}
							for i := 0; i < n; i++ {
								k := up.at(n-1-i, n) / 3 * 2
								w.Steps(1)
								p, has := o.find(k)
								if err := o.s.Delete(TK{k, 7}); (err == nil) != has {
									return errf("delete(%d): error is %v, contents %v", k, err != nil, o.model)
								}
								if has {
									o.model = append(o.model[:p:p], o.model[p+1:]...)
								}
								if i%16 == 0 || len(o.model) < 3 {
									if m := o.observe(-1, 5); m != "" {
										return m
									}
									w.Distinct(canon.Sum(o.s))
								}
							}
							return o.observe(-1, 3)
						})
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("capacities 0..%d, up to %d adds in %d orders", caps, n, len(walkOrders))
	})
}
