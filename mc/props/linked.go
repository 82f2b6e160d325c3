package props

import (
	"fmt"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// deque is what the linked list and the unique deque have in common.
type deque interface {
	Size() int
	Items() types.KIterator
	Backwards() types.KIterator
	Has(types.Hashable) bool
	Push(types.Hashable) error
	Pop() (types.Hashable, error)
	EnqueFront(types.Hashable) error
	EnqueBack(types.Hashable) error
	DequeFront() (types.Hashable, error)
	DequeBack() (types.Hashable, error)
	First() types.Hashable
	Last() types.Hashable
}

type dequeCfg struct {
	unique bool
	zero   bool // the zero value instead of New
	hashes []int
	tags   int
	max    int
}

func (c *dequeCfg) new() deque {
	switch {
	case c.unique:
		return linked.NewUniqueDeque()
	case c.zero:
		return &linked.LinkedList{}
	}
	return linked.New()
}

// dequeModel is a sequence of items, without repetition if unique.
type dequeModel struct {
	unique bool
	items  []HT
}

func (m *dequeModel) has(key int) bool {
	for _, x := range m.items {
		if x.Key == key {
			return true
		}
	}
	return false
}

// step performs one operation on both sides.
func (m *dequeModel) step(d deque, kind string, x HT) string {
	n := len(m.items)
	switch kind {
	case "front", "back", "push":
		var err error
		switch kind {
		case "front":
			err = d.EnqueFront(x)
		case "back":
			err = d.EnqueBack(x)
		case "push":
			err = d.Push(x)
		}
		if err != nil {
			return errf("%s(%v) failed with %v items", kind, x, n)
		}
		if m.unique && m.has(x.Key) {
			return ""
		}
		if kind == "front" {
			m.items = append([]HT{x}, m.items...)
		} else {
			m.items = append(m.items[:n:n], x)
		}
		return ""
	}
	var got types.Hashable
	var err error
	switch kind {
	case "defront":
		got, err = d.DequeFront()
	case "deback":
		got, err = d.DequeBack()
	case "pop":
		got, err = d.Pop()
	}
	if (err != nil) != (n == 0) {
		return errf("%s of %d items: error is %v", kind, n, err != nil)
	}
	if n == 0 {
		return ""
	}
	i := n - 1
	if kind == "defront" {
		i = 0
	}
	if got != types.Hashable(m.items[i]) {
		return errf("%s returned %v, want %v", kind, got, m.items[i])
	}
	m.items = append(m.items[:i:i], m.items[i+1:]...)
	return ""
}

func (m *dequeModel) observe(d deque, keys int, hash func(int) int) string {
	n := len(m.items)
	if d.Size() != n {
		return errf("size is %d, want %d", d.Size(), n)
	}
	first, last := d.First(), d.Last()
	if n == 0 {
		if first != nil || last != nil {
			return errf("first %v and last %v of an empty deque", first, last)
		}
	} else if first != types.Hashable(m.items[0]) || last != types.Hashable(m.items[n-1]) {
		return errf("first is %v and last %v of %v", first, last, m.items)
	}
	cmp := func(what string, got []types.Hashable, reverse bool) string {
		ok := len(got) == n
		for i := 0; ok && i < n; i++ {
			j := i
			if reverse {
				j = n - 1 - i
			}
			ok = got[i] == types.Hashable(m.items[j])
		}
		if !ok {
			return errf("%s yielded %v, contents %v", what, got, m.items)
		}
		return ""
	}
	got, _ := drainK(d.Items(), n+4)
	if s := cmp("items", got, false); s != "" {
		return s
	}
	got, _ = drainK(d.Backwards(), n+4)
	if s := cmp("backwards", got, true); s != "" {
		return s
	}
	if s := cmp("paused items", pausedK(d.Items(), n+4, d.Items, d.Backwards), false); s != "" {
		return s
	}
	if s := cmp("paused backwards", pausedK(d.Backwards(), n+4, d.Items, d.Backwards), true); s != "" {
		return s
	}
	for k := -1; k <= keys; k++ {
		if d.Has(HT{k, 9, hash(k)}) != m.has(k) {
			return errf("has(%d) is %v, contents %v", k, !m.has(k), m.items)
		}
	}
	if l, ok := d.(*linked.LinkedList); ok {
		return chain(l, m.items)
	}
	return ""
}

// chain checks the visible nodes.
func chain(l *linked.LinkedList, items []HT) string {
	if l.Length != len(items) {
		return errf("length field is %d, want %d", l.Length, len(items))
	}
	var prev *linked.Node
	cur := l.Head
	for i := range items {
		if cur == nil {
			return errf("the chain ends after %d of %d nodes", i, len(items))
		}
		if cur.Prev != prev {
			return errf("node %d of %d has a wrong previous link", i, len(items))
		}
		if cur.Data != types.Hashable(items[i]) {
			return errf("node %d holds %v, want %v", i, cur.Data, items[i])
		}
		prev, cur = cur, cur.Next
	}
	if cur != nil {
		return errf("the chain goes on after %d nodes", len(items))
	}
	if l.Tail != prev {
		return errf("the tail is not the last of %d nodes", len(items))
	}
	return ""
}

type dequeOp struct {
	kind     string
	key, tag int
}

type dequeSys struct {
	c   *dequeCfg
	ops []dequeOp
	d   deque
	m   dequeModel
}

func (c *dequeCfg) hash(k int) int {
	if k >= 0 && k < len(c.hashes) {
		return c.hashes[k]
	}
	if len(c.hashes) > 0 && k < 0 {
		return c.hashes[0]
	}
	return k
}

func (c *dequeCfg) spec(bound string) engine.Spec {
	ops := []dequeOp{{kind: "defront"}, {kind: "deback"}, {kind: "pop"}}
	for k := range c.hashes {
		for t := 0; t < c.tags; t++ {
			for _, kind := range []string{"front", "back", "push"} {
				ops = append(ops, dequeOp{kind, k, t})
			}
		}
	}
	var names []string
	for _, o := range ops {
		names = append(names, fmt.Sprintf("%s(%d%c)", o.kind, o.key, 'a'+rune(o.tag)))
	}
	return engine.Spec{Ops: names, Bound: bound, New: func() engine.Sys {
		return &dequeSys{c: c, ops: ops, d: c.new(), m: dequeModel{unique: c.unique}}
	}}
}

func (s *dequeSys) Enabled(op int) bool {
	switch s.ops[op].kind {
	case "front", "back", "push":
		return len(s.m.items) < s.c.max || s.c.unique && s.m.has(s.ops[op].key)
	}
	return true
}

func (s *dequeSys) Apply(op int) string {
	o := s.ops[op]
	return s.m.step(s.d, o.kind, HT{o.key, o.tag, s.c.hash(o.key)})
}

func (s *dequeSys) Observe() string { return s.m.observe(s.d, len(s.c.hashes), s.c.hash) }

func (s *dequeSys) Roots() []interface{} { return []interface{}{s.d, s.m.items} }

func c19jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	bfs := func(name string, c dequeCfg) {
		jobs = append(jobs, job(name, func(w *engine.W) { w.BFS(c.spec(fmt.Sprintf("%+v, closed", c))) }))
	}
	bfs("one", dequeCfg{hashes: []int{0}, tags: 1, max: pick(q, 40, 120)})
	bfs("two", dequeCfg{hashes: []int{0, 0}, tags: 1, max: pick(q, 14, 16)})
	bfs("three", dequeCfg{hashes: []int{0, 1, 2}, tags: 1, max: pick(q, 9, 10)})
	bfs("tags", dequeCfg{hashes: []int{0, 1}, tags: 2, max: pick(q, 7, 8)})
	bfs("zero", dequeCfg{zero: true, hashes: []int{0, 1}, tags: 1, max: pick(q, 12, 14)})
	return append(jobs, dequeSizes(dequeCfg{}, pick(q, 200, 600)), bigDeque(dequeCfg{}, pick(q, 17000, 70000)))
}

func c20jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	bfs := func(name string, c dequeCfg) {
		c.unique = true
		c.max = len(c.hashes)
		jobs = append(jobs, job(name, func(w *engine.W) { w.BFS(c.spec(fmt.Sprintf("%+v, closed", c))) }))
	}
	n := pick(q, 6, 7)
	bfs("spread", dequeCfg{hashes: []int{0, 1, 2, 3, 4, 5, 6}[:n], tags: 1})
	bfs("collide", dequeCfg{hashes: []int{3, 3, 3, 3, 3, 3, 3}[:n], tags: 1})
	bfs("signs", dequeCfg{hashes: []int{minInt, maxInt, -1, 0, minInt, 1, 2}[:n], tags: 1})
	bfs("mixed", dequeCfg{hashes: []int{1, 33, 1, 65, 32, 64, 128}[:n], tags: 1})
	bfs("tags", dequeCfg{hashes: []int{0, 1, 0, 1}[:4], tags: 2})
	return append(jobs, dequeSizes(dequeCfg{unique: true}, pick(q, 200, 600)), bigDeque(dequeCfg{unique: true}, pick(q, 17000, 70000)))
}

// dequeSizes fills and empties larger deques from the ends in several patterns.
func dequeSizes(c dequeCfg, n int) engine.Job {
	pats := [][]string{{"back"}, {"front"}, {"push"}, {"back", "front"}, {"back", "back", "front"}, {"front", "push", "front"}}
	outs := [][]string{{"defront"}, {"deback"}, {"pop"}, {"defront", "deback"}, {"pop", "pop", "defront"}}
	hashes := []struct {
		name string
		of   func(k int) int
	}{{"identity", func(k int) int { return k }}, {"negated", func(k int) int { return -k }}, {"mod7", func(k int) int { return k % 7 }}, {"high", func(k int) int { return k << 20 }}}
	return job("sizes", func(w *engine.W) {
		for _, h := range hashes {
			for _, in := range pats {
				for _, out := range outs {
					for _, back := range []int{0, 2, 5} {
						w.Case(func() string {
							return fmt.Sprintf("%s hashes, %d times %v, %v after every %d, then until empty", h.name, n, in, out, back)
						}, func() string {
							d := c.new()
							m := dequeModel{unique: c.unique}
							outs := 0
							leave := func() string {
								w.Steps(1)
								outs++
								return m.step(d, out[outs%len(out)], HT{})
							}
							for i := 0; i < n; i++ {
								w.Steps(2)
								if s := m.step(d, in[i%len(in)], HT{i, 0, h.of(i)}); s != "" {
									return s
								}
								if s := m.step(d, in[(i+1)%len(in)], HT{i * 2 / 3, 1, h.of(i * 2 / 3)}); s != "" {
									return s
								}
								if back > 0 && i%back == back-1 {
									if s := leave(); s != "" {
										return s
									}
								}
								if i%20 == 19 {
									if s := m.observe(d, n, h.of); s != "" {
										return s
									}
								}
							}
							w.DistinctStr(fmt.Sprint(h.name, in, out, back))
							for len(m.items) > 0 {
								if s := leave(); s != "" {
									return s
								}
								if d.Size() != len(m.items) || len(m.items)%20 == 0 {
									if s := m.observe(d, n, h.of); s != "" {
										return s
									}
								}
							}
							if s := leave(); s != "" {
								return s
							}
							for i := 0; i < n; i += 7 {
								if s := m.step(d, in[0], HT{i, 0, h.of(i)}); s != "" {
									return s
								}
							}
							return m.observe(d, n, h.of)
						})
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d keys, %d enqueue and %d dequeue patterns, 4 hash functions", n, len(pats), len(outs))
	})
}

func init() {
	engine.Register(&engine.Property{ID: "C19", Jobs: c19jobs, Assumptions: []string{"items are not nil", "the public fields are only read"}})
	engine.Register(&engine.Property{ID: "C20", Jobs: c20jobs, Assumptions: []string{"items are not nil"}})
}
