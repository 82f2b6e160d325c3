package props

import (
	"fmt"

	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// HT is an item with a chosen hash; the tag tells equal items apart.
type HT struct {
	Key, Tag int
	H        int
}

func (k HT) Equals(o types.Equatable) bool { b, ok := o.(HT); return ok && b.Key == k.Key }
func (k HT) Less(o types.Sortable) bool    { b, ok := o.(HT); return ok && k.Key < b.Key }
func (k HT) Hash() int                     { return k.H }
func (k HT) String() string                { return fmt.Sprintf("%d%c#%d", k.Key, 'a'+rune(k.Tag), k.H) }

// fresh is an item with its own identity.
type fresh struct{ pri int }

type prioItem struct {
	item interface{}
	pri  int
}

// prioModel is a multiset of items with priorities.
type prioModel struct {
	min   bool
	items []prioItem
}

// extreme is the priority the next pop must have.
func (m *prioModel) extreme() int {
	b := m.items[0].pri
	for _, x := range m.items {
		if m.min && x.pri < b || !m.min && x.pri > b {
			b = x.pri
		}
	}
	return b
}

// at is the index of an item with extreme priority, or -1.
func (m *prioModel) at(item interface{}) int {
	e := m.extreme()
	for i, x := range m.items {
		if x.item == item && x.pri == e {
			return i
		}
	}
	return -1
}

func (m *prioModel) checkPeek(got interface{}) string {
	if len(m.items) == 0 {
		if got != nil {
			return errf("peek at an empty heap returned %v", got)
		}
		return ""
	}
	if m.at(got) < 0 {
		return errf("peek returned %v, which is not a present item of priority %d (min=%v)", show(got), m.extreme(), m.min)
	}
	return ""
}

func (m *prioModel) pop(peeked, got interface{}) string {
	if peeked != got {
		return errf("peek returned %v but the next pop %v", peeked, got)
	}
	if len(m.items) == 0 {
		if got != nil {
			return errf("popping an empty heap returned %v", got)
		}
		return ""
	}
	i := m.at(got)
	if i < 0 {
		return errf("pop returned %v, which is not a present item of priority %d (min=%v)", show(got), m.extreme(), m.min)
	}
	m.items = append(m.items[:i:i], m.items[i+1:]...)
	return ""
}

func (m *prioModel) checkItems(got []interface{}) string {
	if len(got) != len(m.items) {
		return errf("items yielded %d items, want %d", len(got), len(m.items))
	}
	left := map[interface{}]int{}
	for _, x := range m.items {
		left[x.item]++
	}
	for _, x := range got {
		if left[x] == 0 {
			return errf("items yielded %v once too often", show(x))
		}
		left[x]--
	}
	return ""
}

type heapCfg struct {
	min  bool
	make string
	hint int
	pris []int
	max  int
	same bool // also push one and the same item, and nil
}

func (c *heapCfg) new() *heap.Heap {
	if c.make == "NewHeap" {
		return heap.NewHeap(c.hint, c.min)
	}
	if c.min {
		return heap.NewMinHeap(c.hint)
	}
	return heap.NewMaxHeap(c.hint)
}

type heapOp struct {
	kind string
	pri  int
}

type heapSys struct {
	c   *heapCfg
	ops []heapOp
	h   *heap.Heap
	m   prioModel
}

func (c *heapCfg) spec(bound string, hidden bool) engine.Spec {
	ops := []heapOp{{"pop", 0}}
	for _, p := range c.pris {
		ops = append(ops, heapOp{"push", p})
		if c.same {
			ops = append(ops, heapOp{"pushsame", p}, heapOp{"pushnil", p})
		}
	}
	var names []string
	for _, o := range ops {
		names = append(names, fmt.Sprintf("%s(%d)", o.kind, o.pri))
	}
	return engine.Spec{Ops: names, Bound: bound, Hidden: hidden, New: func() engine.Sys {
		return &heapSys{c: c, ops: ops, h: c.new(), m: prioModel{min: c.min}}
	}}
}

func (s *heapSys) Enabled(op int) bool {
	return s.ops[op].kind == "pop" || len(s.m.items) < s.c.max
}

func (s *heapSys) Apply(op int) string {
	o := s.ops[op]
	var item interface{}
	switch o.kind {
	case "pop":
		p := s.h.Peek()
		if m := s.m.pop(p, s.h.Pop()); m != "" {
			return m
		}
		return s.present()
	case "push":
		item = &fresh{o.pri}
	case "pushsame":
		item = "same"
	}
	s.h.Push(o.pri, item)
	s.m.items = append(s.m.items[:len(s.m.items):len(s.m.items)], prioItem{item, o.pri})
	return s.present()
}

// present compares the contents after every operation: the roots leave the model out.
func (s *heapSys) present() string {
	if s.h.Size() != len(s.m.items) {
		return errf("size is %d, want %d", s.h.Size(), len(s.m.items))
	}
	got, _ := drainV(s.h.Items(), len(s.m.items)+4)
	return s.m.checkItems(got)
}

func (s *heapSys) Observe() string { return observeHeap(s.h, &s.m) }

func observeHeap(h *heap.Heap, m *prioModel) string {
	if h.Size() != len(m.items) {
		return errf("size is %d, want %d", h.Size(), len(m.items))
	}
	if h.MinHeap() != m.min || h.MaxHeap() == m.min {
		return errf("min heap is %v, max heap is %v, created with min=%v", h.MinHeap(), h.MaxHeap(), m.min)
	}
	if s := m.checkPeek(h.Peek()); s != "" {
		return s
	}
	got := pausedV(h.Items(), len(m.items)+4, h.Items)
	if s := m.checkItems(got); s != "" {
		return s
	}
	if err := h.Verify(); err != nil {
		return errf("the self-check reports an error")
	}
	if s := m.checkPeek(h.Peek()); s != "" || h.Size() != len(m.items) {
		return errf("after all queries: %s (size %d)", s, h.Size())
	}
	return ""
}

// The items present are in the heap itself, and were found equal to the model's after the operation.
func (s *heapSys) Roots() []interface{} { return []interface{}{s.h} }

// sizePatterns are priority sequences for walks over sizes.
var sizePatterns = []struct {
	name string
	at   func(i int) int
}{
	{"ascending", func(i int) int { return i }},
	{"descending", func(i int) int { return -i }},
	{"constant", func(i int) int { return 7 }},
	{"zigzag", func(i int) int {
		if i%2 == 0 {
			return i
		}
		return -i
	}},
	{"bits", func(i int) int {
		r := 0
		for b := 0; b < 10; b++ {
			r = r<<1 | i>>b&1
		}
		return r
	}},
	{"stride", func(i int) int { return i * 37 % 101 }},
	{"few", func(i int) int { return i * i % 5 }},
	{"extremes", func(i int) int { return []int{minInt, maxInt, 0, -1, 1, maxInt - 1, minInt + 1}[i*i%7] }},
}

func c17jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, min := range []bool{true, false} {
		kind := map[bool]string{true: "min", false: "max"}[min]
		bfs := func(name string, c heapCfg, hidden bool) {
			c.min = min
			jobs = append(jobs, job(kind+"-"+name, func(w *engine.W) { w.BFS(c.spec(fmt.Sprintf("%+v, closed", c), hidden)) }))
		}
		bfs("2p", heapCfg{make: "NewHeap", hint: 3, pris: []int{0, 1}, max: pick(q, 15, 18)}, false)
		bfs("3p", heapCfg{make: "", hint: 0, pris: []int{-1, 0, 1}, max: pick(q, 12, 13)}, false)
		bfs("extreme", heapCfg{make: "", hint: 1, pris: []int{minInt, -1, 0, 1, maxInt}, max: pick(q, 9, 10)}, false)
		bfs("distinct", heapCfg{make: "NewHeap", hint: 8, pris: []int{0, 1, 2, 3, 4, 5, 6, 7}[:pick(q, 7, 8)], max: pick(q, 7, 8)}, false)
		bfs("hidden", heapCfg{make: "NewHeap", hint: 2, pris: []int{0, 1, 2}, max: pick(q, 6, 7)}, true)
		bfs("same", heapCfg{make: "", hint: 12, pris: []int{0, 1, 2}, max: pick(q, 7, 8), same: true}, false)
		jobs = append(jobs, heapSizes(kind, min, pick(q, 600, 3000)))
	}
	return append(jobs, bigQueue("heap", pick(q, 34000, 140000), func(min bool) heap.PriorityQueue { return heap.NewHeap(0, min) }, false))
}

func heapSizes(kind string, min bool, n int) engine.Job {
	return job(kind+"-sizes", func(w *engine.W) {
		for _, hint := range []int{0, 1, 7, 16, 100} {
			for _, pat := range sizePatterns {
				for _, back := range []int{0, 2, 3} {
					w.Case(func() string {
						return fmt.Sprintf("size hint %d, %d pushes %s, a pop after every %d pushes, then all popped", hint, n, pat.name, back)
					}, func() string {
						c := heapCfg{min: min, make: "NewHeap", hint: hint}
						h := c.new()
						m := prioModel{min: min}
						pop := func() string {
							w.Steps(1)
							p := h.Peek()
							return m.pop(p, h.Pop())
						}
						for i := 0; i < n; i++ {
							w.Steps(1)
							p := pat.at(i)
							x := &fresh{p}
							h.Push(p, x)
							m.items = append(m.items, prioItem{x, p})
							if back > 0 && i%back == back-1 {
								if s := pop(); s != "" {
									return s
								}
							}
							if i%16 == 0 {
								if s := observeHeap(h, &m); s != "" {
									return s
								}
							}
						}
						w.DistinctStr(fmt.Sprint(hint, pat.name, back, min))
						for len(m.items) > 0 {
							if len(m.items)%16 == 0 {
								if s := observeHeap(h, &m); s != "" {
									return s
								}
							}
							if s := pop(); s != "" {
								return s
							}
						}
						return pop()
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("up to %d items, 8 priority patterns, 5 size hints", n)
	})
}

// The unique priority queue.

type upqCfg struct {
	min    bool
	hashes []int // one per key
	tags   int
	pris   []int
	nested bool
}

type upqSys struct {
	c   *upqCfg
	ops []upqOp
	u   *heap.UniquePQ
	m   prioModel
	has map[int]bool
}

type upqOp struct {
	kind          string
	pri, key, tag int
}

func (c *upqCfg) spec(bound string) engine.Spec {
	ops := []upqOp{{kind: "pop"}}
	for _, p := range c.pris {
		for k := range c.hashes {
			for t := 0; t < c.tags; t++ {
				ops = append(ops, upqOp{"add", p, k, t}, upqOp{"push", p, k, t})
			}
		}
	}
	var names []string
	for _, o := range ops {
		names = append(names, fmt.Sprintf("%s(%d,%d%c)", o.kind, o.pri, o.key, 'a'+rune(o.tag)))
	}
	return engine.Spec{Ops: names, Bound: bound, New: func() engine.Sys {
		u := heap.NewUnique(heap.NewHeap(2, c.min))
		if c.nested {
			u = heap.NewUnique(u)
		}
		return &upqSys{c: c, ops: ops, u: u, m: prioModel{min: c.min}, has: map[int]bool{}}
	}}
}

func (s *upqSys) Enabled(op int) bool { return true }

func (s *upqSys) Apply(op int) string {
	o := s.ops[op]
	x := HT{o.key, o.tag, 0}
	switch o.kind {
	case "pop":
		p := s.u.Peek()
		g := s.u.Pop()
		if m := s.m.pop(p, g); m != "" {
			return m
		}
		if g != nil {
			delete(s.has, g.(HT).Key)
		}
		return ""
	case "add":
		x.H = s.c.hashes[o.key]
		s.u.Add(o.pri, x)
	case "push":
		x.H = s.c.hashes[o.key]
		s.u.Push(o.pri, x)
	}
	if !s.has[o.key] {
		s.has[o.key] = true
		s.m.items = append(s.m.items[:len(s.m.items):len(s.m.items)], prioItem{x, o.pri})
	}
	return ""
}

func (s *upqSys) Observe() string {
	if s.u.Size() != len(s.m.items) {
		return errf("size is %d with %d distinct items present", s.u.Size(), len(s.m.items))
	}
	return s.m.checkPeek(s.u.Peek())
}

func (s *upqSys) Roots() []interface{} {
	// the model is a set; its order must not distinguish states
	n := len(s.c.hashes)
	m := make([]int, 2*n)
	for i := range m {
		m[i] = -1
	}
	for _, x := range s.m.items {
		k := x.item.(HT)
		m[2*k.Key], m[2*k.Key+1] = x.pri, k.Tag
	}
	return []interface{}{s.u, m}
}

func c18jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, min := range []bool{true, false} {
		kind := map[bool]string{true: "min", false: "max"}[min]
		bfs := func(name string, c upqCfg) {
			c.min = min
			jobs = append(jobs, job(kind+"-"+name, func(w *engine.W) { w.BFS(c.spec(fmt.Sprintf("%+v, closed", c))) }))
		}
		bfs("spread", upqCfg{hashes: []int{0, 1, 2, 3, 4}, tags: 1, pris: []int{0, 1, 2}})
		bfs("tags", upqCfg{hashes: []int{0, 1, 2, 0}, tags: 2, pris: []int{0, 1}})
		bfs("collide", upqCfg{hashes: []int{5, 5, 5, 5, 5}, tags: 1, pris: []int{-1, 0}})
		bfs("signs", upqCfg{hashes: []int{minInt, maxInt, -1, 0, 1}, tags: 1, pris: []int{minInt, maxInt}})
		bfs("mixed", upqCfg{hashes: []int{1, 33, 1, 65, 97}, tags: 1, pris: []int{0, 1}})
		bfs("nested", upqCfg{hashes: []int{0, 1, 0}, tags: 1, pris: []int{0, 1}, nested: true})
		if !q {
			bfs("six", upqCfg{hashes: []int{0, 1, 2, 1, 0, 3}, tags: 1, pris: []int{0, 1, 2}})
			bfs("tags3", upqCfg{hashes: []int{0, 0, 1, 1}, tags: 3, pris: []int{0, 1, 2}})
		}
		jobs = append(jobs, upqSizes(kind, min, pick(q, 300, 1200)))
	}
	return append(jobs, bigQueue("unique", pick(q, 34000, 140000), func(min bool) heap.PriorityQueue { return heap.NewUnique(heap.NewHeap(0, min)) }, true))
}

// upqSizes fills queues past the growth of the membership table, re-adding present items all the while.
func upqSizes(kind string, min bool, n int) engine.Job {
	return job(kind+"-sizes", func(w *engine.W) {
		for _, hash := range []struct {
			name string
			of   func(k int) int
		}{{"identity", func(k int) int { return k }}, {"negated", func(k int) int { return -k }}, {"mod7", func(k int) int { return k % 7 }}, {"high", func(k int) int { return k << 20 }}} {
			for _, pat := range sizePatterns {
				for _, back := range []int{0, 2, 3} {
					w.Case(func() string {
						return fmt.Sprintf("%s hashes, %d adds %s, a pop after every %d", hash.name, n, pat.name, back)
					}, func() string {
						u := heap.NewUnique(heap.NewHeap(4, min))
						m := prioModel{min: min}
						has := map[int]bool{}
						add := func(k, tag, pri int) string {
							w.Steps(1)
							x := HT{k, tag, hash.of(k)}
							u.Add(pri, x)
							if !has[k] {
								has[k] = true
								m.items = append(m.items, prioItem{x, pri})
							}
							if u.Size() != len(m.items) {
								return errf("size is %d with %d distinct items after adding %v", u.Size(), len(m.items), x)
							}
							return m.checkPeek(u.Peek())
						}
						pop := func() string {
							w.Steps(1)
							p := u.Peek()
							g := u.Pop()
							if s := m.pop(p, g); s != "" {
								return s
							}
							if g != nil {
								delete(has, g.(HT).Key)
							}
							return ""
						}
						for i := 0; i < n; i++ {
							if s := add(i, 0, pat.at(i)); s != "" {
								return s
							}
							if s := add(i/2, 1, pat.at(i+1)); s != "" {
								return s
							}
							if back > 0 && i%back == back-1 {
								if s := pop(); s != "" {
									return s
								}
							}
						}
						w.DistinctStr(fmt.Sprint(hash.name, pat.name, back))
						for len(m.items) > 0 {
							if s := pop(); s != "" {
								return s
							}
							if u.Size() != len(m.items) {
								return errf("size is %d with %d items left", u.Size(), len(m.items))
							}
						}
						if g := u.Pop(); g != nil || u.Peek() != nil {
							return errf("popping an empty queue returned %v", g)
						}
						for i := 0; i < n; i++ { // everything may come back
							if s := add(i, 0, -i); s != "" {
								return s
							}
						}
						return ""
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d keys, 8 priority patterns, 4 hash functions", n)
	})
}

func init() {
	engine.Register(&engine.Property{ID: "C17", Jobs: c17jobs, Assumptions: []string{"which of several items of equal priority is returned is not specified"}})
	engine.Register(&engine.Property{ID: "C18", Jobs: c18jobs, Assumptions: []string{"the wrapped queue starts empty", "items are hashable", "which of several items of equal priority is returned is not specified"}})
}
