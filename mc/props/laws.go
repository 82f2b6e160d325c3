package props

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// law checks one ordered pair against the reference comparison c (<0, 0, >0).
func law(a, b types.Hashable, c int) string {
	if a.Equals(b) != (c == 0) {
		return errf("%v equals %v is %v", a, b, c != 0)
	}
	if a.Less(b) != (c < 0) {
		return errf("%v less than %v is %v", a, b, c >= 0)
	}
	if c == 0 && a.Hash() != b.Hash() {
		return errf("%v and %v are equal but hash to %d and %d", a, b, a.Hash(), b.Hash())
	}
	return ""
}

// pairs checks all ordered pairs; the items are grouped into one case per first item.
func pairs(w *engine.W, name string, xs []types.Hashable, cmp func(i, j int) int) {
	for i := range xs {
		w.Case(func() string { return fmt.Sprintf("%s: %v against all %d", name, xs[i], len(xs)) }, func() string {
			for j := range xs {
				if m := law(xs[i], xs[j], cmp(i, j)); m != "" {
					return m
				}
			}
			return ""
		})
		w.Steps(3 * len(xs))
		w.DistinctStr(fmt.Sprintf("%s %d", name, i))
	}
}

// intType is one integer type seen through its bit patterns.
type intType struct {
	name   string
	width  int
	signed bool
	of     func(u uint64) types.Hashable
}

var intTypes = []intType{
	{"Int8", 8, true, func(u uint64) types.Hashable { return types.Int8(u) }},
	{"UInt8", 8, false, func(u uint64) types.Hashable { return types.UInt8(u) }},
	{"Int16", 16, true, func(u uint64) types.Hashable { return types.Int16(u) }},
	{"UInt16", 16, false, func(u uint64) types.Hashable { return types.UInt16(u) }},
	{"Int32", 32, true, func(u uint64) types.Hashable { return types.Int32(u) }},
	{"UInt32", 32, false, func(u uint64) types.Hashable { return types.UInt32(u) }},
	{"Int64", 64, true, func(u uint64) types.Hashable { return types.Int64(u) }},
	{"UInt64", 64, false, func(u uint64) types.Hashable { return types.UInt64(u) }},
	{"Int", 64, true, func(u uint64) types.Hashable { return types.Int(u) }},
	{"UInt", 64, false, func(u uint64) types.Hashable { return types.UInt(u) }},
}

func (t *intType) cmp(a, b uint64) int {
	if t.signed {
		s := 64 - t.width
		x, y := int64(a<<s), int64(b<<s)
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

// boundary values: every power of two and its neighbours, and every pattern over a few bytes.
func (t *intType) boundary() []uint64 {
	mask := ^uint64(0) >> (64 - t.width)
	seen := map[uint64]bool{}
	for b := 0; b < t.width; b++ {
		for d := -2; d <= 2; d++ {
			seen[(uint64(1)<<b+uint64(d))&mask] = true
			seen[(^(uint64(1)<<b)+uint64(d))&mask] = true
		}
	}
	vals := []byte{0, 1, 0x7f, 0x80, 0xff}
	n := t.width / 8
	if n > 4 {
		vals = []byte{0, 0xff}
	}
	for i := 0; i < pow(len(vals), n); i++ {
		var u uint64
		for j, k := 0, i; j < n; j, k = j+1, k/len(vals) {
			u = u<<8 | uint64(vals[k%len(vals)])
		}
		seen[u] = true
	}
	var r []uint64
	for u := range seen {
		r = append(r, u)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func pow(a, n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= a
	}
	return r
}

// words are all byte strings over an alphabet up to a length.
func words(alpha []byte, n int) [][]byte {
	r := [][]byte{{}}
	for lo := 0; n > 0; n-- {
		hi := len(r)
		for _, w := range r[lo:hi] {
			for _, c := range alpha {
				r = append(r, append(append([]byte{}, w...), c))
			}
		}
		lo = hi
	}
	return r
}

// longWords differ from a run of one byte in at most one position.
func longWords(max int) [][]byte {
	var r [][]byte
	sizes := []int{63, 64, 65, 100, 255, 256, 257, 1000}
	for n := max; n > 0; n-- {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		base := bytes.Repeat([]byte{'m'}, n)
		r = append(r, base)
		for p := 0; p < n; p++ {
			if n > max && p%31 != 0 && p < n-2 {
				continue
			}
			for _, c := range []byte{0, 0xff, 'M', 'l', 'n', 'm' | 0x80} {
				x := append([]byte{}, base...)
				x[p] = c
				r = append(r, x)
			}
		}
	}
	return r
}

func scalarJobs(q bool) (jobs []engine.Job) {
	for _, t := range intTypes {
		jobs = append(jobs, job(t.name, func(w *engine.W) {
			us := t.boundary()
			if t.width == 8 {
				us = nil
				for u := uint64(0); u < 256; u++ {
					us = append(us, u)
				}
			}
			var xs []types.Hashable
			for _, u := range us {
				xs = append(xs, t.of(u))
			}
			pairs(w, t.name, xs, func(i, j int) int { return t.cmp(us[i], us[j]) })
			w.Res.Bound = fmt.Sprintf("all pairs of %d values", len(us))
		}))
		for part := uint64(0); t.width == 16 && part < 4; part++ {
			jobs = append(jobs, job(fmt.Sprintf("%s-all-%d", t.name, part), func(w *engine.W) {
				for u := part << 14; u < (part+1)<<14; u++ {
					x := t.of(u)
					w.Case(func() string { return fmt.Sprintf("%s %v against all values", t.name, x) }, func() string {
						for v := uint64(0); v < 1<<16; v++ {
							y := t.of(v)
							if m := law(x, y, t.cmp(u, v)); m != "" {
								return m
							}
						}
						return ""
					})
					w.Steps(3 << 16)
					w.Res.States++
				}
				w.Res.Bound = "a quarter of the values against all values"
			}))
		}
	}
	strs := func(name string, of func(b []byte) types.Hashable, extra ...types.Hashable) {
		run := func(part string, ws [][]byte) {
			jobs = append(jobs, job(name+"-"+part, func(w *engine.W) {
				var xs []types.Hashable
				var all [][]byte
				for _, b := range ws { // alone and with other bytes around it
					buf := append(append([]byte("ab"), b...), "cd"...)
					xs = append(xs, of(append([]byte{}, b...)), of(buf[2:2+len(b)]))
					all = append(all, b, b)
				}
				for _, x := range extra {
					xs = append(xs, x)
					all = append(all, nil)
				}
				pairs(w, name, xs, func(i, j int) int { return bytes.Compare(all[i], all[j]) })
				for i, x := range xs {
					if b, ok := x.(types.ByteSlice); ok && !bytes.Equal(b, all[i]) {
						w.Case(func() string { return "bytes after comparing" }, func() string { return errf("comparing changed %v to %v", all[i], b) })
					}
				}
				w.Res.Bound = fmt.Sprintf("all pairs of %d values", len(xs))
			}))
		}
		run("words", words([]byte{0, 'a', 'b', 0xff}, 6))
		run("long", longWords(pick(q, 40, 70)))
		var single [][]byte
		for c := 0; c < 256; c++ {
			single = append(single, []byte{byte(c)}, []byte{'x', byte(c)})
		}
		run("bytes", single)
	}
	strs("String", func(b []byte) types.Hashable { return types.String(b) })
	strs("ByteSlice", func(b []byte) types.Hashable { return types.ByteSlice(b) }, types.ByteSlice(nil))

	jobs = append(jobs, job("types", func(w *engine.W) {
		type tv struct {
			t string
			v types.Hashable
		}
		var xs []tv
		for _, t := range intTypes {
			for _, u := range []uint64{0, 1, 'a', 0x7f, 0x80, 0xff, ^uint64(0)} {
				xs = append(xs, tv{t.name, t.of(u)})
			}
		}
		for _, s := range [][]byte{{}, {0}, {1}, []byte("a"), []byte("0"), []byte("1"), {0xff}} {
			xs = append(xs, tv{"String", types.String(s)}, tv{"ByteSlice", types.ByteSlice(s)})
		}
		for _, c := range []types.Hashable{list.New(0), list.NewSorted(0, true), linked.New(), linked.NewUniqueDeque(),
			list.FromSlice([]types.Hashable{types.Int(0)}), list.FromSlice([]types.Hashable{types.String("a")})} {
			xs = append(xs, tv{"container", c})
		}
		for i, a := range xs {
			w.Case(func() string { return fmt.Sprintf("%s %v against values of other types", a.t, a.v) }, func() string {
				for _, b := range xs {
					if a.t != b.t && a.v.Equals(b.v) {
						return errf("%s %v equals %s %v", a.t, a.v, b.t, b.v)
					}
				}
				return ""
			})
			w.Steps(len(xs))
			w.DistinctStr(fmt.Sprint(i))
		}
		w.Res.Bound = fmt.Sprintf("all pairs of %d values of 12 scalar types and containers", len(xs))
	}))
	return
}

// itemDom is an item type with its values in ascending order. make builds a value anew.
type itemDom struct {
	name string
	n    int
	make func(i int) types.Hashable
}

func itemDoms() []itemDom {
	ints := func(i int) types.Hashable { return types.Int([]int{minInt, -1, 0, 7}[i]) }
	strsv := []string{"", "a", "ab", "b"}
	return []itemDom{
		{"Int", 4, ints},
		{"UInt8", 3, func(i int) types.Hashable { return types.UInt8([]uint8{0, 1, 255}[i]) }},
		{"Int64", 3, func(i int) types.Hashable { return types.Int64([]int64{-1 << 40, 0, 1 << 40}[i]) }},
		{"UInt64", 3, func(i int) types.Hashable { return types.UInt64([]uint64{0, 1, 1 << 63}[i]) }},
		{"String", 4, func(i int) types.Hashable { return types.String(strsv[i]) }},
		{"ByteSlice", 3, func(i int) types.Hashable { return types.ByteSlice(append([]byte(nil), strsv[i]...)) }},
		{"MapEntry", 3, func(i int) types.Hashable { return &types.MapEntry{Key: types.Int(i), Value: &i} }},
		{"collide", 3, func(i int) types.Hashable { return HT{i, 0, 5} }},
		{"list", 4, func(i int) types.Hashable {
			return list.FromSlice([][]types.Hashable{{}, {types.Int(0)}, {types.Int(1)}, {types.Int(0), types.Int(0)}}[i])
		}},
		{"mixedlists", 4, func(i int) types.Hashable {
			l := linked.New()
			s := list.NewSorted(0, true)
			u := linked.NewUniqueDeque()
			switch i {
			case 0:
				return l
			case 1:
				_ = s.Add(types.Int(-3))
				return s
			case 2:
				_ = u.Push(types.Int(1))
				return u
			}
			_ = l.Push(types.Int(0))
			_ = l.Push(types.Int(0))
			return l
		}},
	}
}

// container is the common part of the list-like containers.
type container interface {
	types.IterableContainer
	types.Hashable
}

// contKind builds a container holding exactly the given sequence, or nil if it cannot.
type contKind struct {
	name string
	make func(seq []types.Hashable, extra types.Hashable) container
}

func ascending(seq []types.Hashable, strict bool) bool {
	for i := 1; i < len(seq); i++ {
		if seq[i].Less(seq[i-1]) || strict && seq[i].Equals(seq[i-1]) {
			return false
		}
	}
	return true
}

func unique(seq []types.Hashable) bool {
	for i := range seq {
		for j := 0; j < i; j++ {
			if seq[i].Equals(seq[j]) {
				return false
			}
		}
	}
	return true
}

func noM(types.Hashable) ([]byte, error)   { return nil, nil }
func noU(b []byte) (types.Hashable, error) { return nil, nil }
func reversed(s []types.Hashable) (r []types.Hashable) {
	for i := len(s) - 1; i >= 0; i-- {
		r = append(r, s[i])
	}
	return
}

var contKinds = []contKind{
	{"list", func(seq []types.Hashable, _ types.Hashable) container {
		l := list.New(0)
		for _, x := range seq {
			_ = l.Append(x)
			_, _ = l.Hash(), l.Equals(l) // computed on the way
		}
		return l
	}},
	{"list trimmed", func(seq []types.Hashable, extra types.Hashable) container {
		l := list.New(len(seq) + 3)
		for _, x := range append(append([]types.Hashable{extra}, seq...), extra) {
			_ = l.Append(x)
		}
		_ = l.Hash()
		_, _ = l.Pop()
		_ = l.Remove(0)
		return l
	}},
	{"fixed list", func(seq []types.Hashable, _ types.Hashable) container {
		l := list.Fixed(len(seq) + 1)
		for _, x := range reversed(seq) {
			_ = l.Insert(0, x)
		}
		return l
	}},
	{"marshalable list", func(seq []types.Hashable, _ types.Hashable) container {
		return list.NewMList(list.FromSlice(seq), noM, noU)
	}},
	{"sorted", func(seq []types.Hashable, extra types.Hashable) container {
		if !ascending(seq, false) {
			return nil
		}
		s := list.NewSorted(1, true)
		for _, x := range append(reversed(seq), extra) {
			_ = s.Add(x)
			_ = s.Hash()
		}
		_ = s.Delete(extra)
		if s.Size() != len(seq) {
			return nil
		}
		for i := range seq { // equal items may have been exchanged; only the order of equal ones differs
			if x, _ := s.Get(i); !x.Equals(seq[i]) {
				return nil
			}
		}
		return s
	}},
	{"sorted without duplicates", func(seq []types.Hashable, _ types.Hashable) container {
		if !ascending(seq, true) {
			return nil
		}
		s := list.NewFixedSorted(len(seq)+2, false)
		for _, x := range reversed(seq) {
			_ = s.Add(x)
		}
		return s
	}},
	{"marshalable sorted", func(seq []types.Hashable, _ types.Hashable) container {
		if !ascending(seq, false) {
			return nil
		}
		return list.NewMSorted(list.SortedFromSlice(seq, true), noM, noU)
	}},
	{"sorted set", func(seq []types.Hashable, _ types.Hashable) container {
		if !ascending(seq, true) {
			return nil
		}
		return set.FromSlice(append(reversed(seq), seq...))
	}},
	{"linked list", func(seq []types.Hashable, extra types.Hashable) container {
		l := linked.New()
		_ = l.EnqueFront(extra)
		for _, x := range seq {
			_ = l.EnqueBack(x)
			_ = l.Hash()
		}
		_, _ = l.DequeFront()
		return l
	}},
	{"unique deque", func(seq []types.Hashable, _ types.Hashable) container {
		if !unique(seq) {
			return nil
		}
		u := linked.NewUniqueDeque()
		for _, x := range reversed(seq) {
			_ = u.EnqueFront(x)
			_ = u.Hash()
		}
		return u
	}},
}

type contVal struct {
	kind string
	seq  []int
	c    container
}

func cmpSeq(a, b []int) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] - b[i]
		}
	}
	return 0
}

func (d *itemDom) contents(c container) []types.Hashable {
	r, _ := drainK(c.Items(), 1000)
	return r
}

// containers builds every kind of container for a sequence.
func (d *itemDom) containers(seq []int) (r []contVal) {
	for _, k := range contKinds {
		var items []types.Hashable
		for _, i := range seq {
			items = append(items, d.make(i))
		}
		if items == nil {
			items = []types.Hashable{}
		}
		if c := k.make(items, d.make(d.n-1)); c != nil {
			r = append(r, contVal{k.name, seq, c})
		}
	}
	return
}

func contLaw(a, b contVal) string {
	c := cmpSeq(a.seq, b.seq)
	if m := law(a.c, b.c, c); m != "" {
		return errf("%s against %s: %s", a.kind, b.kind, m)
	}
	if list.Equals(a.c, b.c) != (c == 0) || list.Less(a.c, b.c) != (c < 0) {
		return errf("list.Equals or list.Less of %s %v and %s %v is wrong", a.kind, a.c, b.kind, b.c)
	}
	if c == 0 && list.Hash(a.c) != b.c.Hash() {
		return errf("list.Hash of %s %v is %d, hash of the equal %s is %d", a.kind, a.c, list.Hash(a.c), b.kind, b.c.Hash())
	}
	return ""
}

func containerJobs(q bool) (jobs []engine.Job) {
	for _, d := range itemDoms() {
		jobs = append(jobs, job("containers-"+d.name, func(w *engine.W) {
			n := d.n
			max := 3
			if n < 4 {
				max = 4
			}
			var all []contVal
			var before [][]types.Hashable
			for l := 0; l <= max; l++ {
				for i := 0; i < pow(n, l); i++ {
					seq := make([]int, l)
					for j, k := 0, i; j < l; j, k = j+1, k/n {
						seq[j] = k % n
					}
					for _, c := range d.containers(seq) {
						all = append(all, c)
						before = append(before, d.contents(c.c))
					}
				}
			}
			for i, a := range all {
				w.Case(func() string { return fmt.Sprintf("%s of %s %v against all %d", a.kind, d.name, a.seq, len(all)) }, func() string {
					for _, b := range all {
						if m := contLaw(a, b); m != "" {
							return m
						}
					}
					return ""
				})
				w.Steps(6 * len(all))
				w.DistinctStr(fmt.Sprint(i))
			}
			w.Case(func() string { return "contents after comparing" }, func() string {
				for i, a := range all {
					got := d.contents(a.c)
					if len(got) != len(before[i]) || a.c.Size() != len(a.seq) {
						return errf("comparing changed %s %v to %v", a.kind, before[i], got)
					}
					for j := range got {
						if !sameItem(got[j], before[i][j]) {
							return errf("comparing changed %s %v to %v", a.kind, before[i], got)
						}
					}
				}
				return ""
			})
			w.Res.Bound = fmt.Sprintf("all pairs of %d containers, sequences up to length %d over %d items", len(all), max, n)
		}))
	}
	// longer sequences differing in one place, and in length
	for _, d := range itemDoms()[:6] {
		jobs = append(jobs, job("long-"+d.name, func(w *engine.W) {
			max := pick(q, 70, 130)
			var lens []int
			for n := 1; n <= max; n++ {
				lens = append(lens, n)
			}
			lens = append(lens, 127, 128, 129, 255, 256, 257, 511, 512, 513)
			for _, n := range lens {
				base := make([]int, n)
				for i := range base {
					base[i] = 1
				}
				bs := d.containers(base)
				short := d.containers(base[1:])
				for p := 0; p < n; p++ {
					if n > 130 && p > 1 && p < n-2 && p%64 != 0 {
						continue
					}
					for _, v := range []int{0, 1, 2} {
						x := append([]int(nil), base...)
						x[p] = v
						w.Case(func() string { return fmt.Sprintf("%d items of %s, item %d is %d", n, d.name, p, v) }, func() string {
							xs := d.containers(x)
							for _, a := range xs {
								for _, b := range append(bs, short...) {
									w.Steps(12)
									if m := contLaw(a, b); m != "" {
										return m
									}
									if m := contLaw(b, a); m != "" {
										return m
									}
								}
								for _, b := range xs {
									if m := contLaw(a, b); m != "" {
										return m
									}
								}
							}
							return ""
						})
						w.DistinctStr(fmt.Sprint(n, p, v))
					}
				}
			}
			w.Res.Bound = fmt.Sprintf("sequences up to length %d, and around 128, 256 and 512, differing in one place", max)
		}))
	}
	return
}

func sameItem(a, b types.Hashable) bool {
	if x, ok := a.(types.ByteSlice); ok {
		y, ok := b.(types.ByteSlice)
		return ok && bytes.Equal(x, y)
	}
	if _, ok := b.(types.ByteSlice); ok {
		return false
	}
	return a == b
}

// wrapJobs: map entries and linked list nodes compare like the key or item they carry.
func wrapJobs(q bool) (jobs []engine.Job) {
	values := []interface{}{nil, 1, "x"}
	for _, d := range itemDoms() {
		jobs = append(jobs, job("entries-"+d.name, func(w *engine.W) {
			var xs, ns []types.Hashable
			var ks, nk []int
			for k := 0; k < d.n; k++ {
				for _, v := range values {
					xs = append(xs, &types.MapEntry{Key: d.make(k), Value: v})
					ks = append(ks, k)
				}
				a, b := &linked.Node{Data: d.make(k)}, &linked.Node{Data: d.make(k)}
				a.Next, b.Prev = b, a
				ns = append(ns, a, b)
				nk = append(nk, k, k)
			}
			pairs(w, "map entry", xs, func(i, j int) int { return ks[i] - ks[j] })
			pairs(w, "node", ns, func(i, j int) int { return nk[i] - nk[j] })
			// an entry or a node against a bare key or item: as what it carries
			for i, x := range append(append([]types.Hashable{}, xs...), ns...) {
				at := append(append([]int{}, ks...), nk...)[i]
				for k := 0; k < d.n; k++ {
					w.Case(func() string { return fmt.Sprintf("%T number %d with the bare item %d", x, i, k) }, func() string {
						w.Steps(1)
						bare, own := d.make(k), d.make(at)
						if x.Equals(bare) != own.Equals(bare) || x.Less(bare) != own.Less(bare) {
							return errf("%v with %v: equals %v, less %v; what it carries says %v, %v", x, bare, x.Equals(bare), x.Less(bare), own.Equals(bare), own.Less(bare))
						}
						return ""
					})
				}
			}
			w.Case(func() string { return "entries after comparing" }, func() string {
				for i, x := range xs {
					e := x.(*types.MapEntry)
					if !e.Key.Equals(d.make(ks[i])) || e.Value != values[i%len(values)] {
						return errf("comparing changed entry %d to %v", i, e)
					}
				}
				return ""
			})
			w.Res.Bound = fmt.Sprintf("all pairs of %d entries and %d nodes", len(xs), len(ns))
		}))
	}
	return
}

func init() {
	engine.Register(&engine.Property{ID: "C21", Jobs: func(tier string) []engine.Job {
		q := tier != "thorough"
		return append(append(scalarJobs(q), containerJobs(q)...), wrapJobs(q)...)
	}, Assumptions: []string{"items of one container have one type", "map entries and nodes are compared with their own kind and with bare keys on the right", "sets kept in hash order are not list-like containers"}})
}
