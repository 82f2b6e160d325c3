package props

import (
	"fmt"

	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// ent is the reference value of one key: present, and which of the explored values it holds.
type ent struct {
	has bool
	v   int8
}

// mapCfg describes a map under exploration.
type mapCfg struct {
	mk      func() types.MapOperable
	keys    []types.Hashable // in ascending order if ordered
	nkeys   int              // the first nkeys keys can be put; the rest are only looked up and removed
	vals    int              // number of distinct values per key (if several, value 0 is nil)
	values  []interface{}    // the values to put, if given (vals is their number)
	ordered bool
	maxSize int // puts of new keys are explored only below this size
	roots   func(m types.MapOperable) []interface{}
	extra   func(s *mapSys) string // additional observation
	before  func(s *mapSys) func() string
	// badKeys are keys which put must reject and which are never present.
	badKeys []types.Hashable
	// pre are entries put before the exploration starts (a non-initial starting state); they are never
	// touched by the explored operations and must stay intact.
	pre []pair
}

func (c *mapCfg) value(k, v int) interface{} {
	if c.values != nil {
		return c.values[v]
	}
	if v == 0 && c.vals > 1 {
		return nil
	}
	return k*10 + v
}

func (c *mapCfg) ops() (names []string) {
	for k := 0; k < c.nkeys; k++ {
		for v := 0; v < c.vals; v++ {
			names = append(names, fmt.Sprintf("put(%v,%s)", c.keys[k], show(c.value(k, v))))
		}
	}
	for _, k := range c.keys {
		names = append(names, fmt.Sprintf("remove(%v)", k))
	}
	for _, k := range c.badKeys {
		names = append(names, fmt.Sprintf("put-invalid(%q)", k), fmt.Sprintf("remove-invalid(%q)", k))
	}
	return
}

type mapSys struct {
	c     *mapCfg
	m     types.MapOperable
	model []ent
	n     int
}

func (c *mapCfg) new() engine.Sys {
	s := &mapSys{c: c, m: c.mk(), model: make([]ent, len(c.keys)), n: len(c.pre)}
	for _, p := range c.pre {
		_ = s.m.Put(p.k, p.v)
	}
	return s
}

func (s *mapSys) Roots() []interface{} {
	var r []interface{}
	if s.c.roots != nil {
		r = s.c.roots(s.m)
	} else {
		r = []interface{}{s.m}
	}
	return append(r, s.model)
}

func (s *mapSys) Enabled(op int) bool {
	if s.c.maxSize > 0 && s.n >= s.c.maxSize && op < s.c.nkeys*s.c.vals {
		return s.model[op/s.c.vals].has
	}
	return true
}

func (s *mapSys) put(k, v int) string {
	val := s.c.value(k, v)
	if err := s.m.Put(s.c.keys[k], val); err != nil {
		return errf("put(%v) failed: %v", s.c.keys[k], firstLine(err))
	}
	if !s.model[k].has {
		s.n++
	}
	s.model[k] = ent{true, int8(v)}
	return ""
}

func (s *mapSys) remove(k int) string {
	got, err := s.m.Remove(s.c.keys[k])
	e := s.model[k]
	if !e.has {
		if err == nil {
			return errf("remove(%v) of an absent key reported success (value %s)", s.c.keys[k], show(got))
		}
		return ""
	}
	if err != nil {
		return errf("remove(%v) of a present key failed: %v", s.c.keys[k], firstLine(err))
	}
	if want := s.c.value(k, int(e.v)); !sameVal(got, want) {
		return errf("remove(%v) returned %s, want %s", s.c.keys[k], show(got), show(want))
	}
	s.model[k] = ent{}
	s.n--
	return ""
}

func (s *mapSys) Apply(op int) string {
	var after func() string
	if s.c.before != nil {
		after = s.c.before(s)
	}
	var m string
	np := s.c.nkeys * s.c.vals
	switch {
	case op < np:
		m = s.put(op/s.c.vals, op%s.c.vals)
	case op < np+len(s.c.keys):
		m = s.remove(op - np)
	default:
		b := op - np - len(s.c.keys)
		k := s.c.badKeys[b/2]
		if b%2 == 0 {
			if err := s.m.Put(k, 1); err == nil {
				m = errf("put of the invalid key %q was accepted", k)
			}
		} else if v, err := s.m.Remove(k); err == nil {
			m = errf("remove of the invalid key %q succeeded (%s)", k, show(v))
		}
	}
	if m == "" && after != nil {
		m = after()
	}
	if m == "" && s.m.Size() != s.n {
		m = errf("size is %d, want %d", s.m.Size(), s.n)
	}
	return m
}

func firstLine(err error) string {
	s := err.Error()
	for i := 0; i < len(s) && i < 200; i++ {
		if s[i] == '\n' {
			return s[:i]
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func (s *mapSys) Observe() string {
	c := s.c
	if got := s.m.Size(); got != s.n {
		return errf("size is %d, want %d", got, s.n)
	}
	for k, key := range c.keys {
		e := s.model[k]
		if has := s.m.Has(key); has != e.has {
			return errf("has(%v) is %v, want %v", key, has, e.has)
		}
		v, err := s.m.Get(key)
		if !e.has {
			if err == nil {
				return errf("get(%v) of an absent key returned %s without error", key, show(v))
			}
			continue
		}
		if err != nil {
			return errf("get(%v) of a present key failed: %v", key, firstLine(err))
		}
		if want := c.value(k, int(e.v)); !sameVal(v, want) {
			return errf("get(%v) returned %s, want %s", key, show(v), show(want))
		}
	}
	for _, k := range c.badKeys {
		if s.m.Has(k) {
			return errf("has(%q) of an invalid key is true", k)
		}
		if v, err := s.m.Get(k); err == nil {
			return errf("get(%q) of an invalid key returned %s without error", k, show(v))
		}
	}
	want := append([]pair(nil), c.pre...)
	for k, e := range s.model {
		if e.has {
			want = append(want, pair{c.keys[k], c.value(k, int(e.v))})
		}
	}
	for _, p := range c.pre {
		if v, err := s.m.Get(p.k); err != nil || !sameVal(v, p.v) {
			return errf("get(%v) of an untouched key returned %s (err %v), want %s", p.k, show(v), err != nil, show(p.v))
		}
	}
	if m := checkMapIter(s.m, want, c.ordered); m != "" {
		return m
	}
	if c.extra != nil {
		return c.extra(s)
	}
	return ""
}

// checkMapIter compares all iterators a map offers with the wanted entries.
func checkMapIter(m interface{}, want []pair, ordered bool) string {
	max := len(want) + 64
	if it, ok := m.(types.KVIterable); ok {
		got, _ := drainKV(it.Iterate(), max)
		if d := cmpPairs("iterate", got, want, ordered); d != "" {
			return d
		}
		// two iterators at once, advanced alternately
		a, b := it.Iterate(), it.Iterate()
		var ga, gb []pair
		for a != nil || b != nil {
			if a != nil {
				var k types.Hashable
				var v interface{}
				if k, v, a = a(); a != nil {
					ga = append(ga, pair{k, v})
				}
			}
			if b != nil {
				var k types.Hashable
				var v interface{}
				if k, v, b = b(); b != nil {
					gb = append(gb, pair{k, v})
				}
			}
			if len(ga) > max || len(gb) > max {
				return "iterate does not end"
			}
		}
		if d := cmpPairs("interleaved iterate", ga, want, ordered); d != "" {
			return d
		}
		if d := cmpPairs("interleaved iterate", gb, want, ordered); d != "" {
			return d
		}
		// one iterator paused while others run to their end
		if d := cmpPairs("paused iterate", pausedKV(it.Iterate(), max, it.Iterate), want, ordered); d != "" {
			return d
		}
	}
	if it, ok := m.(types.KIterable); ok {
		got := pausedK(it.Keys(), max, it.Keys)
		var g []pair
		for _, k := range got {
			g = append(g, pair{k, 0})
		}
		var wk []pair
		for _, p := range want {
			wk = append(wk, pair{p.k, 0})
		}
		if d := cmpPairs("keys", g, wk, ordered); d != "" {
			return d
		}
	}
	if it, ok := m.(types.VIterable); ok {
		got := pausedV(it.Values(), max, it.Values)
		var g, wv []pair
		for _, v := range got {
			g = append(g, pair{types.Int(0), v})
		}
		for _, p := range want {
			wv = append(wv, pair{types.Int(0), p.v})
		}
		if d := cmpPairs("values", g, wv, ordered); d != "" {
			return d
		}
	}
	if it, ok := m.(interface{ Items() types.KIterator }); ok {
		got := pausedK(it.Items(), max, it.Items)
		var g []pair
		for _, k := range got {
			e, ok := k.(*types.MapEntry)
			if !ok {
				return errf("items yielded a %T", k)
			}
			g = append(g, pair{e.Key, e.Value})
		}
		if d := cmpPairs("items", g, want, ordered); d != "" {
			return d
		}
	}
	return ""
}

func fmtPairs(ps []pair) string {
	s := "["
	for i, p := range ps {
		if i > 0 {
			s += " "
		}
		if i > 20 {
			s += "..."
			break
		}
		s += fmt.Sprintf("%v:%s", p.k, show(p.v))
	}
	return s + "]"
}

// eqKey compares keys for identity of content, without using the code under test.
func eqKey(a, b types.Hashable) bool {
	if x, ok := a.(types.ByteSlice); ok {
		y, ok := b.(types.ByteSlice)
		return ok && string(x) == string(y)
	}
	if _, ok := b.(types.ByteSlice); ok {
		return false
	}
	return a == b
}

// cmpPairs compares sequences (ordered) or multisets (unordered) of entries.
func cmpPairs(what string, got, want []pair, ordered bool) string {
	bad := len(got) != len(want)
	if !bad {
		if ordered {
			for i := range got {
				if !eqKey(got[i].k, want[i].k) || !sameVal(got[i].v, want[i].v) {
					bad = true
					break
				}
			}
		} else if len(got) <= 24 {
			var used [24]bool
		outer:
			for _, g := range got {
				for j, x := range want {
					if !used[j] && eqKey(g.k, x.k) && sameVal(g.v, x.v) {
						used[j] = true
						continue outer
					}
				}
				bad = true
				break
			}
		} else {
			cnt := map[pair]int{}
			norm := func(p pair) pair {
				if b, ok := p.k.(types.ByteSlice); ok {
					p.k = types.String("bytes:" + string(b))
				}
				return p
			}
			for _, g := range got {
				cnt[norm(g)]++
			}
			for _, x := range want {
				cnt[norm(x)]--
			}
			for _, n := range cnt {
				bad = bad || n != 0
			}
		}
	}
	if bad {
		return errf("%s yielded %s, want %s", what, fmtPairs(got), fmtPairs(want))
	}
	return ""
}
