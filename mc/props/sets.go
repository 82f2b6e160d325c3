package props

import (
	"fmt"
	"math/bits"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// setKind is one way of having a set.
type setKind struct {
	name    string
	mk      func() types.Set
	entries bool // items must be map entries
	ordered bool
	equal   int // sets of the same non-zero number can be compared with Equals
}

var setKinds = []setKind{
	{"sorted", func() types.Set { return set.NewSortedSet(2) }, false, true, 1},
	{"sorted0", func() types.Set { return set.NewSortedSet(0) }, false, true, 1},
	{"map(linear)", func() types.Set { return set.NewSetMap(hashtable.NewLinearHash()) }, false, false, 0},
	{"map(chained)", func() types.Set { return set.NewSetMap(hashtable.NewHashTable(3)) }, false, false, 0},
	{"map(avl)", func() types.Set { return set.NewSetMap(avl.NewAvlTree()) }, false, true, 0},
	{"map(immavl)", func() types.Set { return set.NewSetMap(avl.NewImmutableAvlTree()) }, false, true, 0},
	{"map(bptree)", func() types.Set { return set.NewSetMap(bptree.NewBpMap(3)) }, false, true, 0},
	{"map(mapset)", func() types.Set { return set.NewSetMap(set.NewMapSet(set.NewSortedSet(2))) }, false, true, 0},
	{"mapset", func() types.Set { return set.NewMapSet(set.NewSortedSet(2)) }, true, true, 2},
}

// itemOf makes item number i of an item type. Items of a MapSet are map entries; the tag becomes the value.
type itemType struct {
	name    string
	entries bool
	of      func(i, tag int) types.Hashable
	num     func(h types.Hashable) int
}

var itemTypes = []itemType{
	{"int", false, func(i, tag int) types.Hashable { return types.Int(i - 2) }, func(h types.Hashable) int { return int(h.(types.Int)) + 2 }},
	{"hk", false, func(i, tag int) types.Hashable { return HK{i, 5 + 32*(i%2)} }, func(h types.Hashable) int { return h.(HK).ID }},
	{"string", false, func(i, tag int) types.Hashable { return types.String(string(rune('a' + i))) }, func(h types.Hashable) int { return int(h.(types.String)[0] - 'a') }},
	{"entry", true, func(i, tag int) types.Hashable { return &types.MapEntry{Key: types.Int(i - 2), Value: tagValue(tag)} }, func(h types.Hashable) int { return int(h.(*types.MapEntry).Key.(types.Int)) + 2 }},
}

// tagValue is the value of an entry with this tag; the tag 0 stands for nil.
func tagValue(tag int) interface{} {
	if tag == 0 {
		return nil
	}
	return tag
}

func mkSet(k setKind, it itemType, sub uint, tag, n int, down bool) (types.Set, string) {
	s := k.mk()
	for j := 0; j < n; j++ {
		i := j
		if down {
			i = n - 1 - j
		}
		if sub&(1<<i) != 0 {
			if err := s.Add(it.of(i, tag)); err != nil {
				return nil, errf("add to %s failed: %v", k.name, firstLine(err))
			}
		}
	}
	return s, ""
}

// setIs compares the contents of a set with a subset of n items.
func setIs(what string, s types.Set, it itemType, want uint, n int, ordered bool) string {
	if types.IsNil(s) {
		return what + " is nil"
	}
	if s.Size() != bits.OnesCount(want) {
		return errf("%s has size %d, want %d", what, s.Size(), bits.OnesCount(want))
	}
	got := pausedK(s.Items(), n+8, s.Items)
	var have uint
	last := -1
	for _, g := range got {
		i := it.num(g)
		if have&(1<<i) != 0 {
			return errf("%s yields %v twice", what, g)
		}
		have |= 1 << i
		if ordered && i < last {
			return errf("%s yields items out of order: %v", what, got)
		}
		last = i
	}
	if have != want {
		return errf("%s contains %0*b, want %0*b", what, n, have, n, want)
	}
	for i := 0; i < n; i++ {
		if s.Has(it.of(i, 9)) != (want&(1<<i) != 0) {
			return errf("%s: has(%v) is %v, contents %0*b", what, it.of(i, 9), want&(1<<i) == 0, n, want)
		}
	}
	return ""
}

func init() {
	engine.Register(&engine.Property{ID: "C13", Jobs: c13jobs, Assumptions: []string{
		"SetMap.Equals and SetMap.Item are documented as not implemented and are not exercised",
		"equality is asked between sets of the same kind", "items of a map set are map entries with distinct keys"}})
	engine.Register(&engine.Property{ID: "C14", Jobs: c14jobs, Assumptions: []string{
		"SetMap.Equals and SetMap.Item are documented as not implemented and are not exercised",
		"random picks are drawn until every member was seen (at most 4000 draws per state)"}})
}

func resultOrdered(k setKind) bool { return k.name[:1] == "s" || k.name == "mapset" }

// goes tells whether a kind of set takes items of this type: a map set needs map entries, and a map set
// used as a map does not take map entries as keys.
func goes(k setKind, it itemType) bool {
	if it.entries {
		return k.name != "map(mapset)"
	}
	return !k.entries
}

// algebra checks one pair of sets in all operations.
func algebra(w *engine.W, ka, kb setKind, it itemType, sa, sb uint, n int, same bool) string {
	a, m := mkSet(ka, it, sa, 1, n, false)
	if m != "" {
		return m
	}
	b := a
	if !same {
		if b, m = mkSet(kb, it, sb, 2, n, true); m != "" {
			return m
		}
	}
	intact := func(after string) string {
		if m := setIs("the first operand after "+after, a, it, sa, n, ka.ordered); m != "" {
			return m
		}
		return setIs("the second operand after "+after, b, it, sb, n, kb.ordered)
	}
	type res struct {
		name string
		f    func() (types.Set, error)
		want uint
	}
	for _, r := range []res{
		{"a.union(b)", func() (types.Set, error) { return a.Union(b) }, sa | sb},
		{"union(a,b)", func() (types.Set, error) { return set.Union(a, b) }, sa | sb},
		{"a.intersect(b)", func() (types.Set, error) { return a.Intersect(b) }, sa & sb},
		{"intersect(a,b)", func() (types.Set, error) { return set.Intersect(a, b) }, sa & sb},
		{"a.subtract(b)", func() (types.Set, error) { return a.Subtract(b) }, sa &^ sb},
		{"subtract(a,b)", func() (types.Set, error) { return set.Subtract(a, b) }, sa &^ sb},
	} {
		w.Steps(1)
		c, err := r.f()
		if err != nil {
			return errf("%s failed: %v", r.name, firstLine(err))
		}
		if m := setIs(r.name, c, it, r.want, n, resultOrdered(ka)); m != "" {
			return m
		}
		if m := intact(r.name); m != "" {
			return m
		}
		// change the result, then the operands (restoring them), watching the others
		x := it.of(n, 3) // in neither
		if err := c.Add(x); err != nil {
			return errf("adding to %s failed", r.name)
		}
		for i := 0; i < n; i++ {
			if r.want&(1<<i) != 0 {
				if err := c.Delete(it.of(i, 3)); err != nil {
					return errf("deleting from %s failed", r.name)
				}
			}
		}
		if m := intact("changing " + r.name); m != "" {
			return m
		}
		if err := a.Add(it.of(n+1, 3)); err != nil {
			return errf("adding to the first operand failed")
		}
		if b.Has(it.of(n+1, 3)) != same || c.Has(it.of(n+1, 3)) || c.Size() != 1 {
			return errf("changing the first operand after %s changed the second or the result", r.name)
		}
		if err := a.Delete(it.of(n+1, 3)); err != nil {
			return errf("deleting from the first operand failed")
		}
		if err := b.Add(it.of(n+1, 3)); err != nil {
			return errf("adding to the second operand failed")
		}
		if a.Has(it.of(n+1, 3)) != same || c.Has(it.of(n+1, 3)) || c.Size() != 1 {
			return errf("changing the second operand after %s changed the first or the result", r.name)
		}
		if err := b.Delete(it.of(n+1, 3)); err != nil {
			return errf("deleting from the second operand failed")
		}
	}
	for _, r := range []struct {
		name string
		got  func() bool
		want bool
	}{
		{"a.subset(b)", func() bool { return a.Subset(b) }, sa&^sb == 0},
		{"a.superset(b)", func() bool { return a.Superset(b) }, sb&^sa == 0},
		{"a.properSubset(b)", func() bool { return a.ProperSubset(b) }, sa&^sb == 0 && sa != sb},
		{"a.properSuperset(b)", func() bool { return a.ProperSuperset(b) }, sb&^sa == 0 && sa != sb},
		{"subset(a,b)", func() bool { return set.Subset(a, b) }, sa&^sb == 0},
		{"superset(a,b)", func() bool { return set.Superset(a, b) }, sb&^sa == 0},
		{"properSubset(a,b)", func() bool { return set.ProperSubset(a, b) }, sa&^sb == 0 && sa != sb},
		{"properSuperset(a,b)", func() bool { return set.ProperSuperset(a, b) }, sb&^sa == 0 && sa != sb},
	} {
		w.Steps(1)
		if g := r.got(); g != r.want {
			return errf("%s is %v", r.name, g)
		}
	}
	if ka.equal != 0 && ka.equal == kb.equal {
		w.Steps(1)
		if a.Equals(b) != (sa == sb) {
			return errf("a.equals(b) is %v", sa != sb)
		}
	}
	if x, ok := a.(*set.SortedSet); ok {
		if y, ok := b.(*set.SortedSet); ok {
			w.Steps(1)
			if x.Overlap(y) != (sa&sb != 0) {
				return errf("overlap is %v", sa&sb == 0)
			}
		}
		w.Steps(1)
		c := set.SortedFromSet(b)
		if m := setIs("sortedFromSet(b)", c, it, sb, n, true); m != "" {
			return m
		}
		if err := c.Add(it.of(n, 3)); err != nil {
			return errf("adding to a set made from a set failed")
		}
		if m := intact("changing a set made from the second"); m != "" {
			return m
		}
		if err := b.Add(it.of(n+1, 3)); err != nil {
			return errf("adding to the second operand failed")
		}
		if c.Has(it.of(n+1, 3)) || c.Size() != bits.OnesCount(sb)+1 {
			return errf("changing the second operand changed a set made from it")
		}
		if err := b.Delete(it.of(n+1, 3)); err != nil {
			return errf("deleting from the second operand failed")
		}
		d := x.Copy()
		for i := 0; i <= n; i++ {
			if sa&(1<<i) != 0 {
				err := d.Delete(it.of(i, 3))
				if err != nil {
					return errf("deleting from a copy failed")
				}
			}
		}
		if err := d.Add(it.of(n, 3)); err != nil {
			return errf("adding to a copy failed")
		}
		if m := intact("changing a copy"); m != "" {
			return m
		}
	}
	return intact("all predicates")
}

func c13jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, it := range itemTypes {
		for _, ka := range allKinds() {
			if !goes(ka, it) {
				continue
			}
			n := pick(q, 5, 6)
			if it.name == "string" {
				n = 3
			}
			jobs = append(jobs, job(fmt.Sprintf("%s-%s", it.name, ka.name), func(w *engine.W) {
				for _, kb := range allKinds() {
					if !goes(kb, it) {
						continue
					}
					for sa := uint(0); sa < 1<<n; sa++ {
						for sb := uint(0); sb < 1<<n; sb++ {
							w.DistinctStr(fmt.Sprint(ka.name, kb.name, sa, sb))
							w.Case(func() string {
								return fmt.Sprintf("%s items: %s %0*b with %s %0*b", it.name, ka.name, n, sa, kb.name, n, sb)
							}, func() string { return algebra(w, ka, kb, it, sa, sb, n, false) })
						}
					}
					if kb.name == ka.name {
						for sa := uint(0); sa < 1<<n; sa++ {
							w.Case(func() string {
								return fmt.Sprintf("%s items: %s %0*b with itself", it.name, ka.name, n, sa)
							}, func() string { return algebra(w, ka, kb, it, sa, sa, n, true) })
						}
					}
				}
				w.Res.Bound = fmt.Sprintf("all pairs of subsets of %d items, all kinds of second set", n)
				w.Sample(fmt.Sprintf("%s items: %s 0101 with map(linear) 0011", it.name, ka.name))
			}))
		}
	}
	// longer sets: all pairs of intervals, thinned by parity
	for _, ka := range allKinds() {
		jobs = append(jobs, setFamilies(ka))
	}
	n := pick(q, 12, 20)
	for _, ki := range []int{0, 2, 6, 8} {
		ka := setKinds[ki]
		jobs = append(jobs, job("intervals-"+ka.name, func(w *engine.W) {
			it := itemTypes[0]
			if ka.entries {
				it = itemTypes[3]
			}
			var subs []uint
			seen := map[uint]bool{}
			for l := 0; l <= n; l++ {
				for r := l; r <= n; r++ {
					for _, mask := range []uint{^uint(0), 0x5555555555555555, 0x9249249249249249} {
						s := (uint(1)<<r - 1) &^ (uint(1)<<l - 1) & mask
						if !seen[s] && (mask == ^uint(0) || l < 3) {
							seen[s] = true
							subs = append(subs, s)
						}
					}
				}
			}
			for _, sa := range subs {
				for _, sb := range subs {
					w.DistinctStr(fmt.Sprint(sa, sb))
					w.Case(func() string { return fmt.Sprintf("%s %0*b with sorted %0*b", ka.name, n, sa, n, sb) },
						func() string { return algebra(w, ka, setKinds[0], it, sa, sb, n, false) })
				}
			}
			w.Res.Bound = fmt.Sprintf("%d interval-like subsets of %d items, all pairs", len(subs), n)
		}))
	}
	for _, k := range setKinds {
		if !k.entries {
			jobs = append(jobs, bigAlgebra(pick(q, 1200, 5000), k))
		}
	}
	return append(jobs, fromSlices(q))
}

// setSys explores one set: add, delete, extend.
type setSys struct {
	k     setKind
	it    itemType
	n     int
	s     types.Set
	model uint
	tags  []int8 // value of each entry of a map set
	other *set.SortedSet
	om    uint
}

func (s *setSys) ops() (r []string) {
	for i := 0; i < s.n; i++ {
		r = append(r, fmt.Sprintf("add(%d)", i))
	}
	for i := 0; i <= s.n; i++ {
		r = append(r, fmt.Sprintf("delete(%d)", i))
	}
	r = append(r, "extend(0,1)", "extend(last,0,last)")
	if s.k.entries {
		for i := 0; i < s.n; i++ {
			r = append(r, fmt.Sprintf("put(%d,v1)", i), fmt.Sprintf("put(%d,v2)", i), fmt.Sprintf("put(%d,nil)", i),
				fmt.Sprintf("add(%d,v3)", i), fmt.Sprintf("remove(%d)", i))
		}
	}
	if s.k.equal == 1 {
		r = append(r, "copy", "swap with copy")
	}
	return
}

func (s *setSys) Enabled(op int) bool { return true }

func (s *setSys) add(i int) {
	if s.model&(1<<i) == 0 {
		s.model |= 1 << i
		s.tags[i] = 0
	}
}

func (s *setSys) Apply(op int) string {
	n := s.n
	switch {
	case op < n:
		if err := s.s.Add(s.it.of(op, 0)); err != nil {
			return errf("add(%d) failed: %v", op, firstLine(err))
		}
		s.add(op)
	case op < 2*n+1:
		i := op - n
		err := s.s.Delete(s.it.of(i, 5))
		if (err == nil) != (s.model&(1<<i) != 0) {
			return errf("delete(%d): error is %v, contents %0*b", i, err != nil, n, s.model)
		}
		s.model &^= 1 << i
		s.tags[i] = 0
	case op < 2*n+3:
		l := []int{0, 1}
		if op == 2*n+2 {
			l = []int{n - 1, 0, n - 1}
		}
		var add []types.Hashable
		for _, i := range l {
			add = append(add, s.it.of(i, 0))
			s.add(i)
		}
		if err := s.s.Extend(sliceIter(add)); err != nil {
			return errf("extend failed: %v", firstLine(err))
		}
	case s.k.entries:
		o := op - 2*n - 3
		i := o / 5
		m := s.s.(*set.MapSet)
		key := types.Int(i - 2)
		switch o % 5 {
		case 0, 1, 2:
			tag := (o%5 + 1) % 3
			if err := m.Put(key, tagValue(tag)); err != nil {
				return errf("put(%d) failed: %v", i, firstLine(err))
			}
			s.model |= 1 << i
			s.tags[i] = int8(tag)
		case 3:
			if err := s.s.Add(s.it.of(i, 3)); err != nil {
				return errf("add(%d) failed: %v", i, firstLine(err))
			}
			if s.model&(1<<i) == 0 {
				s.model |= 1 << i
				s.tags[i] = 3
			}
		case 4:
			v, err := m.Remove(key)
			if (err == nil) != (s.model&(1<<i) != 0) || (err == nil && v != tagValue(int(s.tags[i]))) {
				return errf("remove(%d) returned %s (error %v), contents %0*b, value %d", i, show(v), err != nil, n, s.model, s.tags[i])
			}
			s.model &^= 1 << i
			s.tags[i] = 0
		}
	default:
		if op == 2*n+3 {
			s.other = s.s.(*set.SortedSet).Copy()
			s.om = s.model
		} else if s.other != nil {
			x := s.s.(*set.SortedSet)
			s.s, s.other = s.other, x
			s.model, s.om = s.om, s.model
		}
	}
	return ""
}

func (s *setSys) Observe() string {
	if m := setIs("the set", s.s, s.it, s.model, s.n+1, s.k.ordered); m != "" {
		return m
	}
	if s.other != nil {
		if m := setIs("the copy", s.other, s.it, s.om, s.n+1, true); m != "" {
			return m
		}
	}
	if s.k.equal != 0 { // Item is implemented
		for i := 0; i <= s.n; i++ {
			got, err := s.s.Item(s.it.of(i, 6))
			in := s.model&(1<<i) != 0
			if in != (err == nil) || (in && s.it.num(got) != i) {
				return errf("item(%d) is %v (error %v)", i, got, err != nil)
			}
		}
	}
	if x, ok := s.s.(*set.SortedSet); ok {
		c := set.SortedFromSet(x)
		if m := setIs("the set made from the set", c, s.it, s.model, s.n+1, true); m != "" {
			return m
		}
		var full uint
		for i := 0; i <= s.n; i++ {
			if err := c.Add(s.it.of(i, 5)); err != nil {
				return errf("adding to a set made from a set failed")
			}
			full |= 1 << i
		}
		if m := setIs("the set made from the set and filled", c, s.it, full, s.n+1, true); m != "" {
			return m
		}
		if m := setIs("the set, after a set made from it changed,", x, s.it, s.model, s.n+1, true); m != "" {
			return m
		}
		return randomPick(x, s.it, s.model)
	}
	if x, ok := s.s.(*set.MapSet); ok {
		var want []pair
		for i := 0; i < s.n; i++ {
			if s.model&(1<<i) != 0 {
				want = append(want, pair{types.Int(i - 2), tagValue(int(s.tags[i]))})
			}
			v, err := x.Get(types.Int(i - 2))
			in := s.model&(1<<i) != 0
			if in != (err == nil) || (in && v != tagValue(int(s.tags[i]))) {
				return errf("get(%d) is %s (error %v), want %d", i, show(v), err != nil, s.tags[i])
			}
		}
		return checkMapIter(x, want, s.k.ordered)
	}
	return ""
}

// randomPick draws until every member was picked.
func randomPick(x *set.SortedSet, it itemType, model uint) string {
	if model == 0 {
		if v, err := x.Random(); err == nil {
			return errf("random pick from an empty set gave %v", v)
		}
		return ""
	}
	var seen uint
	for i := 0; i < 4000 && (seen != model || i < 20); i++ {
		v, err := x.Random()
		if err != nil {
			return errf("random pick failed: %v", firstLine(err))
		}
		b := uint(1) << it.num(v)
		if model&b == 0 {
			return errf("random pick gave %v which is not a member", v)
		}
		seen |= b
	}
	return ""
}

func (s *setSys) Roots() []interface{} {
	return []interface{}{s.s, s.model, s.tags, s.other, s.om}
}

func c14jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, k := range allKinds() {
		if k.name == "own" {
			continue
		}
		for _, it := range itemTypes {
			if k.entries != it.entries || it.name == "string" && q {
				continue
			}
			n := pick(q, 4, 5)
			if k.name[0] == 'm' {
				n++
			}
			if k.entries {
				n = 3
			}
			mk := func() *setSys { return &setSys{k: k, it: it, n: n, s: k.mk(), tags: make([]int8, n+1)} }
			jobs = append(jobs, job(fmt.Sprintf("set-%s-%s", k.name, it.name), func(w *engine.W) {
				w.BFS(engine.Spec{New: func() engine.Sys { return mk() }, Ops: mk().ops(), Bound: fmt.Sprintf("%d items, closed", n)})
			}))
		}
	}
	for _, sz := range []int{0, 1, 3} {
		jobs = append(jobs, mapBFS(fmt.Sprintf("mapset-as-map-%d", sz), mapCfg{
			mk:   func() types.MapOperable { return set.NewMapSet(set.NewSortedSet(sz)) },
			keys: ints(pick(q, 4, 6)), nkeys: pick(q, 3, 5), vals: 2, ordered: true}, 0))
	}
	jobs = append(jobs, oddMap("mapset-odd-values", func() types.MapOperable { return set.NewMapSet(set.NewSortedSet(0)) }, true))
	for _, k := range setKinds {
		item, num := func(i int) types.Hashable { return types.Int(i) }, func(h types.Hashable) int { return int(h.(types.Int)) }
		if k.entries {
			item = func(i int) types.Hashable { return &types.MapEntry{Key: types.Int(i), Value: i} }
			num = func(h types.Hashable) int { return int(h.(*types.MapEntry).Key.(types.Int)) }
		}
		n := pick(q, 1500, 6000)
		if k.name == "map(bptree)" {
			n /= 3
		}
		jobs = append(jobs, bigSet(k.name, n, k.mk, item, num, k.ordered))
	}
	jobs = append(jobs, bigIntMap("big-mapset-as-map", pick(q, 1500, 6000), func() types.MapOperable { return set.NewMapSet(set.NewSortedSet(0)) }, true, nil))
	return append(jobs, strangers(), fromSlices(q), setSweep(pick(q, 230, 600)), randomSweep(pick(q, 130, 400)))
}

// setSweep grows and shrinks every kind of set through larger sizes.
func setSweep(max int) engine.Job {
	return job("sizes", func(w *engine.W) {
		canon := engine.NewCanon(false)
		for _, k := range setKinds {
			for _, up := range walkOrders {
				for _, down := range walkOrders {
					w.Case(func() string { return fmt.Sprintf("%s: %d items %s, delete %s", k.name, max, up.name, down.name) }, func() string {
						of := func(i int) types.Hashable {
							if k.entries {
								return &types.MapEntry{Key: types.Int(i), Value: i}
							}
							return types.Int(i)
						}
						num := func(h types.Hashable) int {
							if e, ok := h.(*types.MapEntry); ok {
								return int(e.Key.(types.Int))
							}
							return int(h.(types.Int))
						}
						s := k.mk()
						live := make([]bool, max)
						n := 0
						check := func() string {
							if s.Size() != n {
								return errf("size is %d, want %d", s.Size(), n)
							}
							got, _ := drainK(s.Items(), n+8)
							seen := make([]bool, max)
							last := -1
							for _, g := range got {
								i := num(g)
								if i < 0 || i >= max || !live[i] || seen[i] || (k.ordered && i < last) {
									return errf("items yielded %v: repeated, dead or out of order", g)
								}
								seen[i], last = true, i
							}
							if len(got) != n {
								return errf("items yielded %d, want %d", len(got), n)
							}
							for i := range live {
								if s.Has(of(i)) != live[i] {
									return errf("has(%d) is %v", i, !live[i])
								}
							}
							w.Distinct(canon.Sum(s))
							return ""
						}
						for i := 0; i < max; i++ {
							x := up.at(i, max)
							for rep := 0; rep < 2; rep++ {
								w.Steps(1)
								if err := s.Add(of(x)); err != nil {
									return errf("add(%d) failed", x)
								}
							}
							live[x] = true
							n++
							if i%10 == 0 {
								if m := check(); m != "" {
									return m
								}
							}
						}
						for i := 0; i < max; i++ {
							w.Steps(1)
							x := down.at(i, max)
							if err := s.Delete(of(x)); err != nil {
								return errf("delete(%d) failed", x)
							}
							live[x] = false
							n--
							if i%10 == 0 || n == 0 {
								if err := s.Delete(of(x)); err == nil {
									return errf("second delete(%d) succeeded", x)
								}
								if m := check(); m != "" {
									return m
								}
							}
						}
						return ""
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("every kind of set up to %d items, 25 order pairs", max)
	})
}

// setFamilies: pairs of sets of up to 60 items, from prefixes, suffixes, single items, single gaps and strides.
func setFamilies(ka setKind) engine.Job {
	return job("families-"+ka.name, func(w *engine.W) {
		const n = 60
		all := uint(1)<<n - 1
		seen := map[uint]bool{}
		var subs []uint
		add := func(s uint) {
			if s &= all; !seen[s] {
				seen[s] = true
				subs = append(subs, s)
			}
		}
		for _, l := range []int{0, 1, 2, 5, 8, 9, 16, 17, 21, 32, 33, 45, 59, 60} {
			add(uint(1)<<l - 1)
			add(all &^ (uint(1)<<l - 1))
			add(uint(1) << l)
			add(all &^ (uint(1) << l))
		}
		for _, d := range []int{2, 3, 7} {
			for o := 0; o < d; o++ {
				var s uint
				for i := o; i < n; i += d {
					s |= 1 << i
				}
				add(s)
			}
		}
		it := itemTypes[0]
		if ka.entries {
			it = itemTypes[3]
		}
		for _, kb := range allKinds() {
			if !goes(kb, it) || kb.name == "sorted0" {
				continue
			}
			for _, sa := range subs {
				for _, sb := range subs {
					w.DistinctStr(fmt.Sprint(kb.name, sa, sb))
					w.Case(func() string { return fmt.Sprintf("%s %0*b with %s %0*b", ka.name, n, sa, kb.name, n, sb) },
						func() string { return algebra(w, ka, kb, it, sa, sb, n, false) })
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d families of subsets of %d items, all pairs", len(subs), n)
	})
}

// randomSweep picks at random from sets of every size until every member was picked, and 40 times the size.
func randomSweep(max int) engine.Job {
	return job("random", func(w *engine.W) {
		missed := 0
		for n := 0; n <= max; n++ {
			w.Case(func() string { return fmt.Sprintf("random picks from %d items", n) }, func() string {
				s := set.NewSortedSet(1)
				for i := 0; i < n; i++ {
					if err := s.Add(types.Int(i * 3)); err != nil {
						return errf("add failed")
					}
				}
				w.Steps(1)
				if n == 0 {
					if _, err := s.Random(); err == nil {
						return "random pick from an empty set succeeded"
					}
					return ""
				}
				seen := make([]bool, n)
				count := 0
				for i := 0; i < 400*n && (i < 40*n || count < n); i++ {
					w.Steps(1)
					v, err := s.Random()
					if err != nil {
						return errf("random pick from %d items failed: %v", n, firstLine(err))
					}
					x, ok := v.(types.Int)
					if !ok || x < 0 || int(x) >= 3*n || x%3 != 0 {
						return errf("random pick gave %v which is not a member", v)
					}
					if !seen[x/3] {
						seen[x/3] = true
						count++
					}
				}
				if count < n {
					missed++
				}
				w.DistinctStr(fmt.Sprint(n, count))
				return ""
			})
		}
		w.Res.Bound = fmt.Sprintf("sets of 0..%d items, picked until every member came up (%d sets left some member out)", max, missed)
	})
}
