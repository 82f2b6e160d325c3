package props

import (
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// TK is an item equal to every item with the same key; the tag tells equal items apart.
type TK struct {
	Key int
	Tag int
}

func (k TK) Equals(o types.Equatable) bool { b, ok := o.(TK); return ok && b.Key == k.Key }
func (k TK) Less(o types.Sortable) bool    { b, ok := o.(TK); return ok && k.Key < b.Key }
func (k TK) Hash() int                     { return k.Key }
func (k TK) String() string                { return fmt.Sprintf("%d%c", k.Key, 'a'+rune(k.Tag)) }

// sliceIter iterates over a slice.
func sliceIter(items []types.Hashable) types.KIterator {
	i := 0
	var it types.KIterator
	it = func() (types.Hashable, types.KIterator) {
		if i < len(items) {
			i++
			return items[i-1], it
		}
		return nil, nil
	}
	return it
}

func items(tk []TK) (r []types.Hashable) {
	for _, t := range tk {
		r = append(r, t)
	}
	return
}

func cmpItems(what string, got []types.Hashable, want []TK, reverse bool) string {
	if len(got) != len(want) {
		return errf("%s yielded %v, want %v", what, got, want)
	}
	for i := range got {
		j := i
		if reverse {
			j = len(want) - 1 - i
		}
		if got[i] != types.Hashable(want[j]) {
			return errf("%s yielded %v, want %v (reverse=%v)", what, got, want, reverse)
		}
	}
	return ""
}

// one is a list with its model.
type one struct {
	l     *list.List
	model []TK
	fixed bool
	size  int // of a fixed list
}

func (o *one) full() bool { return o.fixed && len(o.model) == o.size }

func (o *one) observe(absent TK) string {
	l := o.l
	n := len(o.model)
	if l.Size() != n {
		return errf("size is %d, want %d (%v)", l.Size(), n, o.model)
	}
	if l.Empty() != (n == 0) {
		return errf("empty is %v with %d items", l.Empty(), n)
	}
	if l.Full() != o.full() {
		return errf("full is %v with %d items (fixed=%v, size %d)", l.Full(), n, o.fixed, o.size)
	}
	got, _ := drainK(l.Items(), n+8)
	if m := cmpItems("items", got, o.model, false); m != "" {
		return m
	}
	got, _ = drainK(l.ItemsInReverse(), n+8)
	if m := cmpItems("items in reverse", got, o.model, true); m != "" {
		return m
	}
	if m := cmpItems("paused items", pausedK(l.Items(), n+8, l.Items, l.ItemsInReverse), o.model, false); m != "" {
		return m
	}
	if m := cmpItems("paused items in reverse", pausedK(l.ItemsInReverse(), n+8, l.Items, l.ItemsInReverse), o.model, true); m != "" {
		return m
	}
	for i := -1; i <= n+1; i++ {
		v, err := l.Get(i)
		if in := i >= 0 && i < n; in != (err == nil) {
			return errf("get(%d) of %d items: error is %v", i, n, err != nil)
		} else if in && v != types.Hashable(o.model[i]) {
			return errf("get(%d) is %v, want %v", i, v, o.model[i])
		}
	}
	for _, t := range append([]TK{absent}, o.model...) {
		want := false
		for _, x := range o.model {
			want = want || x.Key == t.Key
		}
		if l.Has(TK{t.Key, 7}) != want {
			return errf("has(%v) is %v, contents %v", t, !want, o.model)
		}
	}
	return ""
}

type listCfg struct {
	fixed    bool
	size     int // initial capacity or fixed size
	preload  int
	keys     int
	max      int
	sparse   bool // only front, middle and back positions
	withCopy bool
}

type listOp struct {
	name  string
	kind  string
	i, x  int
	which int
}

func (c *listCfg) ops() (r []listOp) {
	add := func(kind string, i, x, which int) {
		n := fmt.Sprintf("%s(%d,%d)", kind, i, x)
		if which == 1 {
			n = "other." + n
		}
		r = append(r, listOp{n, kind, i, x, which})
	}
	for x := 0; x < c.keys; x++ {
		add("append", 0, x, 0)
		add("push", 0, x, 0)
	}
	add("pop", 0, 0, 0)
	add("clear", 0, 0, 0)
	add("extend", 0, 0, 0)
	if c.keys > 1 {
		add("extend", 1, 0, 0)
	}
	add("extend0", 0, 0, 0)
	add("fromslice", 0, 0, 0)
	if c.sparse {
		for _, i := range []int{-2, -3, -4} { // front, middle, back
			add("insertat", i, 0, 0)
			add("removeat", i, 0, 0)
		}
	} else {
		for i := -1; i <= c.max+1; i++ {
			for x := 0; x < c.keys; x++ {
				add("insert", i, x, 0)
				add("set", i, x, 0)
			}
			add("remove", i, 0, 0)
		}
	}
	add("sort", 0, 0, 0)
	if c.withCopy {
		add("copy", 0, 0, 0)
		add("swap", 0, 0, 0)
		add("append", 0, 0, 1)
		add("pop", 0, 0, 1)
		add("set", 0, c.keys-1, 1)
		add("clear", 0, 0, 1)
	}
	return
}

type listSys struct {
	c   *listCfg
	ops []listOp
	a   one
	b   *one
}

func (c *listCfg) spec(bound string, depth int) engine.Spec {
	ops := c.ops()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	return engine.Spec{Ops: names, MaxDepth: depth, Hidden: true, Bound: bound, New: func() engine.Sys {
		s := &listSys{c: c, ops: ops}
		s.a.fixed = c.fixed
		s.a.size = c.size
		if c.fixed {
			s.a.l = list.Fixed(c.size)
		} else {
			s.a.l = list.New(c.size)
		}
		for i := 0; i < c.preload; i++ {
			_ = s.a.l.Append(TK{100 + i, 0})
			s.a.model = append(s.a.model, TK{100 + i, 0})
		}
		return s
	}}
}

func (s *listSys) on(o listOp) *one {
	if o.which == 1 {
		return s.b
	}
	return &s.a
}

func (s *listSys) Enabled(op int) bool {
	o := s.ops[op]
	t := s.on(o)
	if t == nil {
		return false
	}
	n := len(t.model)
	switch o.kind {
	case "append", "push", "insertat":
		return n < s.c.max || t.full()
	case "insert":
		return n < s.c.max || t.full() || o.i < 0 || o.i > n
	case "extend":
		return n+2 <= s.c.max || t.fixed
	case "fromslice":
		return t.fixed || s.c.withCopy
	case "removeat":
		return n > 0
	case "swap":
		return s.b != nil
	}
	return true
}

func (s *listSys) Apply(op int) string {
	o := s.ops[op]
	t := s.on(o)
	x := TK{o.x, 0}
	n := len(t.model)
	insert := func(i int) string {
		err := t.l.Insert(i, x)
		if ok := i >= 0 && i <= n && !t.full(); ok != (err == nil) {
			return errf("insert(%d) into %d items: error is %v", i, n, err != nil)
		} else if ok {
			t.model = append(t.model[:i:i], append([]TK{x}, t.model[i:]...)...)
		}
		return ""
	}
	remove := func(i int) string {
		err := t.l.Remove(i)
		if ok := i >= 0 && i < n; ok != (err == nil) {
			return errf("remove(%d) of %d items: error is %v", i, n, err != nil)
		} else if ok {
			t.model = append(t.model[:i:i], t.model[i+1:]...)
		}
		return ""
	}
	place := func(i, last int) int { return map[int]int{-2: 0, -3: last / 2, -4: last}[i] }
	switch o.kind {
	case "append", "push":
		var err error
		if o.kind == "append" {
			err = t.l.Append(x)
		} else {
			err = t.l.Push(x)
		}
		if (err != nil) != t.full() {
			return errf("%s with %d items (full=%v): error is %v", o.kind, n, t.full(), err != nil)
		}
		if err == nil {
			t.model = append(t.model[:n:n], x)
		}
	case "pop":
		v, err := t.l.Pop()
		if (err != nil) != (n == 0) {
			return errf("pop of %d items: error is %v", n, err != nil)
		}
		if err == nil {
			if v != types.Hashable(t.model[n-1]) {
				return errf("pop returned %v, want %v", v, t.model[n-1])
			}
			t.model = t.model[:n-1]
		}
	case "clear":
		t.l.Clear()
		t.model = nil
	case "extend", "extend0":
		var add []TK
		if o.kind == "extend" {
			add = []TK{{o.i, 0}, {0, 1}}
		}
		err := t.l.Extend(sliceIter(items(add)))
		fail := false
		for _, y := range add {
			if t.full() {
				fail = true
				break
			}
			t.model = append(t.model[:len(t.model):len(t.model)], y)
		}
		if fail != (err != nil) {
			return errf("extend of %d items (fixed=%v, size %d): error is %v", n, t.fixed, t.size, err != nil)
		}
	case "fromslice":
		src := items(t.model)
		if src == nil {
			src = []types.Hashable{}
		}
		src = append(src, TK{9, 9})[:n] // spare capacity behind the slice
		t.l = list.FromSlice(src)
		t.fixed = false
		for i := range src[:n+1] {
			src[:n+1][i] = TK{8, 8}
		}
	case "insert":
		return insert(o.i)
	case "remove":
		return remove(o.i)
	case "insertat":
		return insert(place(o.i, n))
	case "removeat":
		return remove(place(o.i, n-1))
	case "set":
		err := t.l.Set(o.i, x)
		if ok := o.i >= 0 && o.i < n; ok != (err == nil) {
			return errf("set(%d) of %d items: error is %v", o.i, n, err != nil)
		} else if ok {
			t.model = append([]TK(nil), t.model...)
			t.model[o.i] = x
		}
	case "sort":
		sort.Stable(list.NewSortable(t.l))
		t.model = append([]TK(nil), t.model...)
		sort.SliceStable(t.model, func(i, j int) bool { return t.model[i].Key < t.model[j].Key })
	case "copy":
		s.b = &one{t.l.Copy(), t.model, t.fixed, t.size}
	case "swap":
		s.a, *s.b = *s.b, s.a
	}
	return ""
}

func (s *listSys) Observe() string {
	if m := s.a.observe(TK{50, 0}); m != "" {
		return m
	}
	if s.b != nil {
		if m := s.b.observe(TK{50, 0}); m != "" {
			return "the other list: " + m
		}
	}
	return ""
}

func (s *listSys) Roots() []interface{} {
	r := []interface{}{s.a.l, s.a.model, s.a.fixed, s.a.size}
	if s.b != nil {
		r = append(r, s.b.l, s.b.model, s.b.fixed, s.b.size)
	}
	return r
}

func init() {
	engine.Register(&engine.Property{ID: "C11", Jobs: c11jobs, Assumptions: []string{
		"items are not nil", "a list is not extended by its own live iterator", "a fixed list extended by several items accepts them one by one"}})
	engine.Register(&engine.Property{ID: "C12", Jobs: c12jobs, Assumptions: []string{
		"items of one list are mutually comparable", "which of several equal items a delete removes is not specified"}})
}

func c11jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	bfs := func(name string, c listCfg, depth int) {
		b := fmt.Sprintf("%+v depth %d (0: closed)", c, depth)
		jobs = append(jobs, job(name, func(w *engine.W) { w.BFS(c.spec(b, depth)) }))
	}
	for size := 0; size <= 4; size++ {
		bfs(fmt.Sprintf("grow%d", size), listCfg{size: size, keys: 2, max: pick(q, 4, 5)}, 0)
		if size < 4 {
			bfs(fmt.Sprintf("fixed%d", size), listCfg{fixed: true, size: size, keys: 2, max: max(size, 2)}, 0)
			bfs(fmt.Sprintf("copy-fixed%d", size), listCfg{fixed: true, size: size, keys: 2, max: 3, withCopy: true}, pick(q, 5, 7))
		}
		if size < 3 || !q {
			bfs(fmt.Sprintf("copy-grow%d", size), listCfg{size: size, keys: 2, max: 3, withCopy: true}, pick(q, 5, 7))
		}
	}
	// around the capacities where the backing array shrinks or grows differently
	for _, p := range [][2]int{{24, 12}, {22, 11}, {22, 13}, {11, 11}, {99, 99}, {100, 100}, {100, 52}, {200, 102}} {
		bfs(fmt.Sprintf("cap%d-len%d", p[0], p[1]), listCfg{size: p[0], preload: p[1], keys: 1, max: p[1] + 4, sparse: true, withCopy: true}, pick(q, 4, 5))
	}
	bfs("fixed24", listCfg{fixed: true, size: 24, preload: 22, keys: 1, max: 24, sparse: true, withCopy: true}, pick(q, 4, 5))
	jobs = append(jobs, bigList(pick(q, 9000, 20000)))
	return append(jobs, listSweep(pick(q, 60, 140), pick(q, 140, 330)), listLong(q), listFixed(q), listSlices(q), listSort(q))
}

// listSweep grows and empties lists of every initial capacity with several position patterns.
func listSweep(caps, n int) engine.Job {
	return job("sizes", func(w *engine.W) {
		canon := engine.NewCanon(false)
		pats := []struct {
			name string
			at   func(i, n int) int
		}{{"front", func(i, n int) int { return 0 }}, {"back", func(i, n int) int { return n }}, {"middle", func(i, n int) int { return n / 2 }}, {"stride", func(i, n int) int { return i * 7 % (n + 1) }}}
		for c := 0; c <= caps; c++ {
			for _, in := range pats {
				for _, out := range pats {
					w.Case(func() string {
						return fmt.Sprintf("initial capacity %d, %d inserts at %s, removes at %s", c, n, in.name, out.name)
					}, func() string {
						o := one{l: list.New(c)}
						quick := func() string {
							got, _ := drainK(o.l.Items(), len(o.model)+8)
							return cmpItems("items", got, o.model, false)
						}
						for i := 0; i < n; i++ {
							w.Steps(1)
							p := in.at(i, len(o.model))
							if err := o.l.Insert(p, TK{i, 0}); err != nil {
								return errf("insert(%d) failed", p)
							}
							o.model = append(o.model, TK{})
							copy(o.model[p+1:], o.model[p:])
							o.model[p] = TK{i, 0}
							if i%5 == 0 || i == c || i == n-1 {
								if m := quick(); m != "" {
									return m
								}
							}
						}
						w.Distinct(canon.Sum(o.l))
						if m := o.observe(TK{-1, 0}); m != "" {
							return m
						}
						for i := 0; len(o.model) > 0; i++ {
							w.Steps(1)
							p := out.at(i, len(o.model)-1)
							if err := o.l.Remove(p); err != nil {
								return errf("remove(%d) failed", p)
							}
							o.model = append(o.model[:p], o.model[p+1:]...)
							if i%2 == 0 || len(o.model) < 30 {
								if m := quick(); m != "" {
									return m
								}
							}
							if i%9 == 8 { // and back up by one
								w.Steps(1)
								if err := o.l.Push(TK{-i, 0}); err != nil {
									return errf("push failed")
								}
								o.model = append(o.model, TK{-i, 0})
							}
							w.Distinct(canon.Sum(o.l))
						}
						return o.observe(TK{-1, 0})
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("initial capacities 0..%d, up to %d items, 16 position patterns", caps, n)
	})
}
