package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// trieMap drives the trie through the map interface; keys are converted to fresh exact-size slices.
type trieMap struct {
	*trie.TST
}

func kb(k types.Hashable) []byte {
	b, ok := k.(types.ByteSlice)
	if !ok || b == nil {
		return nil
	}
	r := make([]byte, len(b))
	copy(r, b)
	return r
}

func (m trieMap) Size() int {
	n := 0
	for _, _, next := m.TST.Iterate()(); next != nil; _, _, next = next() {
		n++
		if n > 1<<20 {
			break
		}
	}
	return n
}
func (m trieMap) Has(k types.Hashable) bool                    { return m.TST.Has(kb(k)) }
func (m trieMap) Put(k types.Hashable, v interface{}) error    { return m.TST.Put(kb(k), v) }
func (m trieMap) Get(k types.Hashable) (interface{}, error)    { return m.TST.Get(kb(k)) }
func (m trieMap) Remove(k types.Hashable) (interface{}, error) { return m.TST.Remove(kb(k)) }

// bkeys turns strings into byte-slice keys in lexicographic order.
func bkeys(ss ...string) (ks []types.Hashable) {
	s := append([]string(nil), ss...)
	sort.Strings(s)
	for _, x := range s {
		ks = append(ks, types.ByteSlice(x))
	}
	return
}

// move puts the named keys last (keys that are never put).
type trieUniverse struct {
	name   string
	keys   []string
	absent []string
}

var trieUniverses = []trieUniverse{
	{"chain", []string{"a", "ab", "abc", "abcd", "b"}, []string{"abcde", "ac"}},
	{"fan", []string{"xa", "xb", "xc", "x", "xbb"}, []string{"xd", "y"}},
	{"same", []string{"a", "aa", "aaa", "aab", "aba"}, []string{"aaaa", "ab"}},
	{"ends", []string{"\x01", "\x01\x01", "\x01\xff", "\xff", "\xff\x01"}, []string{"\xff\xff", "\x02"}},
	{"deep", []string{"abca", "abcb", "abd", "abcab", "ab"}, []string{"abc", "abcba"}},
}

var trieUniverses6 = []trieUniverse{
	{"chain6", []string{"a", "ab", "abc", "abcd", "b", "ba"}, []string{"abcde"}},
	{"fan6", []string{"xa", "xb", "xc", "xd", "x", "xbb"}, []string{"xe"}},
	{"mix6", []string{"a", "b", "aa", "ab", "aab", "abb"}, []string{"ba"}},
	{"ends6", []string{"\x01", "\x01\x01", "\x01\xff", "\xff", "\xff\x01", "\xff\xff"}, []string{"\x80"}},
}

func (u trieUniverse) cfg(vals int) mapCfg {
	// Keys that may be put come first for the explorer; the order needed for the oracle is restored by
	// sorting positions, so the universe is given sorted with a map of which may be put.
	ks := bkeys(u.keys...)
	return mapCfg{
		mk:   func() types.MapOperable { return trieMap{trie.New()} },
		keys: append(ks, bkeys(u.absent...)...), nkeys: len(ks), vals: vals, ordered: true,
		badKeys: []types.Hashable{types.ByteSlice(nil), types.ByteSlice(""), types.ByteSlice("\x00"), types.ByteSlice("a\x00"), types.ByteSlice("\x00a"), types.ByteSlice(u.keys[0] + "\x00" + "b")},
		roots:   func(m types.MapOperable) []interface{} { return []interface{}{m.(trieMap).TST} },
	}
}

func init() {
	engine.Register(&engine.Property{ID: "C08", Jobs: c08jobs, Assumptions: []string{"the trie is not modified while iterated"}})
	engine.Register(&engine.Property{ID: "C09", Jobs: c09jobs, Assumptions: []string{"the trie is not modified while iterated"}})
	engine.Register(&engine.Property{ID: "C10", Jobs: c10jobs, Assumptions: []string{
		"the caller does not write into the bytes of a key handed out by an iterator (extending it is covered)"}})
}

func c08jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, u := range trieUniverses {
		jobs = append(jobs, mapBFS(u.name, u.cfg(pick(q, 1, 2)), 0))
	}
	us := trieUniverses6
	if q {
		us = us[:3]
	}
	for _, u := range us {
		jobs = append(jobs, mapBFS(u.name, u.cfg(1), 0))
	}
	u := trieUniverse{"values", []string{"a", "ab", "b", "abc"}, []string{"ac"}}
	jobs = append(jobs, mapBFS(u.name, u.cfg(2), 0))
	jobs = append(jobs, oddMap("odd-values", func() types.MapOperable { return trieMap{trie.New()} }, true))
	jobs = append(jobs, trieWalks("words", trieWordSet(pick(q, 3, 4)), plainTrie, trieLookups)...)
	jobs = append(jobs, trieWalks("fan255", trieFan(), plainTrie, trieLookups)...)
	jobs = append(jobs, bigTrie("big", pick(q, 6000, 30000)))
	return append(jobs, trieBytes(), trieLengths(pick(q, 80, 300)), trieVariants(pick(q, 40, 80), false))
}

// trieWordSet is every word up to length n over four bytes.
func trieWordSet(n int) (words []string) {
	for _, s := range allStrings("\x01ab\xff", n) {
		if s != "" {
			words = append(words, s)
		}
	}
	sort.Strings(words)
	return
}

// trieFan is every single byte, and every byte behind one common byte.
func trieFan() (words []string) {
	for b := 1; b < 256; b++ {
		words = append(words, string([]byte{byte(b)}))
		words = append(words, "x"+string([]byte{byte(b)}))
	}
	sort.Strings(words)
	for i := 1; i < len(words); i++ {
		if words[i] == words[i-1] {
			words = append(words[:i], words[i+1:]...)
		}
	}
	return
}

func plainTrie() (types.MapOperable, *trie.TST) {
	t := trie.New()
	return trieMap{t}, t
}

func bkey(s string) types.Hashable { return types.ByteSlice(s) }

// trieLookups compares all lookups and iterators; words are sorted.
func trieLookups(m types.MapOperable, t *trie.TST, words []string, live map[string]int) string {
	var want []pair
	for _, s := range words {
		v, ok := live[s]
		g, err := m.Get(bkey(s))
		if (err == nil) != ok || m.Has(bkey(s)) != ok || (ok && g != v) {
			return errf("get(%q) is %v, live=%v", s, show(g), ok)
		}
		if ok {
			want = append(want, pair{bkey(s), v})
		}
	}
	return checkMapIter(t, want, true)
}

// triePrefixes compares the prefix search for every prefix of every word, and for some matching nothing.
func triePrefixes(m types.MapOperable, t *trie.TST, words []string, live map[string]int) string {
	try := map[string]bool{"": true, "\x00": true, "zz": true}
	for _, s := range words {
		for i := 1; i <= len(s); i++ {
			try[s[:i]] = true
		}
		try[s+"q"] = true
		try[s+"\x00"] = true
	}
	want := map[string][]pair{}
	for _, s := range words {
		if v, ok := live[s]; ok {
			for i := 0; i <= len(s); i++ {
				want[s[:i]] = append(want[s[:i]], pair{bkey(s), v})
			}
		}
	}
	for p := range try {
		var it types.KVIterator
		if a, ok := m.(*aliasMap); ok && p != "" {
			a.with("prefixFind", bkey(p), func(b []byte) { it = t.PrefixFind(b) })
		} else {
			it = t.PrefixFind(types.ByteSlice([]byte(p)))
		}
		got, _ := drainKV(it, len(want[p])+64)
		if m := cmpPairs(fmt.Sprintf("prefixFind(%q)", p), got, want[p], true); m != "" {
			return m
		}
	}
	return ""
}

// trieWalks puts and removes a large set of words in every pair of orders.
func trieWalks(name string, sorted []string, mk func() (types.MapOperable, *trie.TST), check func(types.MapOperable, *trie.TST, []string, map[string]int) string) []engine.Job {
	return []engine.Job{job(name, func(w *engine.W) {
		canon := engine.NewCanon(false)
		n := len(sorted)
		for _, up := range walkOrders {
			for _, down := range walkOrders {
				up, down := up, down
				w.Case(func() string { return fmt.Sprintf("put %d words %s, remove %s, put again", n, up.name, down.name) }, func() string {
					m, t := mk()
					live := map[string]int{}
					look := func() string {
						w.Distinct(canon.Sum(t))
						w.Res.Observed++
						if a, ok := m.(*aliasMap); ok && a.fault != "" {
							return a.fault
						}
						return check(m, t, sorted, live)
					}
					for i := 0; i < n; i++ {
						w.Steps(1)
						s := sorted[up.at(i, n)]
						if err := m.Put(bkey(s), i); err != nil {
							return errf("put(%q) failed: %v", s, firstLine(err))
						}
						live[s] = i
						if i < 8 || i%(n/7+1) == 0 || i == n-1 {
							if x := look(); x != "" {
								return x
							}
						}
					}
					for i := 0; i < n; i++ {
						w.Steps(1)
						s := sorted[down.at(i, n)]
						if v, err := m.Remove(bkey(s)); err != nil || v != live[s] {
							return errf("remove(%q) returned %v, want %v", s, show(v), live[s])
						}
						delete(live, s)
						if i%(n/7+1) == 0 || i > n-8 {
							if x := look(); x != "" {
								return x
							}
						}
						if i%3 == 0 { // put it back with another value
							w.Steps(1)
							if err := m.Put(bkey(s), -i); err != nil {
								return errf("put(%q) again failed: %v", s, firstLine(err))
							}
							live[s] = -i
						}
					}
					return look()
				})
			}
		}
		w.Res.Bound = fmt.Sprintf("%d words, 25 order pairs", n)
		w.Sample(fmt.Sprintf("put %d words zig, remove out, put again", n))
	})}
}

// trieExact compares the trie with a set of words.
func trieExact(t *trie.TST, words map[string]int, absent ...string) string {
	var ks []string
	for k := range words {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var want []pair
	for _, k := range ks {
		if v, err := t.Get([]byte(k)); err != nil || v != words[k] || !t.Has([]byte(k)) {
			return errf("get(%q) is %v (err %v), want %d", k, show(v), err != nil, words[k])
		}
		want = append(want, pair{types.ByteSlice(k), words[k]})
	}
	for _, k := range absent {
		if _, has := words[k]; !has && t.Has([]byte(k)) {
			return errf("has(%q) is true", k)
		}
	}
	got, _ := drainKV(t.Iterate(), len(want)+16)
	return cmpPairs("iterate", got, want, true)
}

// trieBytes: every pair of byte values, as first bytes and as second bytes.
func trieBytes() engine.Job {
	return job("bytes", func(w *engine.W) {
		canon := engine.NewCanon(false)
		for x := 1; x < 256; x++ {
			for y := 1; y < 256; y++ {
				X, Y := string([]byte{byte(x)}), string([]byte{byte(y)})
				w.Case(func() string { return fmt.Sprintf("bytes %#x %#x", x, y) }, func() string {
					t := trie.New()
					live := map[string]int{}
					for i, k := range []string{X + Y, X, Y + X, "k" + X, "k" + Y} {
						w.Steps(1)
						if err := t.Put([]byte(k), i); err != nil {
							return errf("put(%q) failed: %v", k, firstLine(err))
						}
						live[k] = i
					}
					w.Distinct(canon.Sum(t))
					if m := trieExact(t, live, Y, "k", X+X, Y+Y, X+Y+X); m != "" {
						return m
					}
					for _, k := range []string{X, "k" + Y} {
						w.Steps(1)
						if v, err := t.Remove([]byte(k)); err != nil || v != live[k] {
							return errf("remove(%q) returned %v", k, show(v))
						}
						delete(live, k)
					}
					w.Distinct(canon.Sum(t))
					return trieExact(t, live, X, Y, "k"+Y, "k")
				})
			}
		}
		w.Res.Bound = "all pairs of byte values as first and as second bytes of five keys"
	})
}

// trieLengths: chains of keys, each a prefix of the next, up to a long length.
func trieLengths(n int) engine.Job {
	return job("lengths", func(w *engine.W) {
		canon := engine.NewCanon(false)
		for _, o := range walkOrders {
			for _, step := range []int{1, 7} {
				w.Case(func() string { return fmt.Sprintf("chain to length %d step %d, %s", n, step, o.name) }, func() string {
					t := trie.New()
					live := map[string]int{}
					long := strings.Repeat("abca", n/4+1)
					m := n / step
					for i := 0; i < m; i++ {
						w.Steps(1)
						k := long[:1+step*o.at(i, m)]
						if err := t.Put([]byte(k), i); err != nil {
							return errf("put of %d bytes failed: %v", len(k), firstLine(err))
						}
						live[k] = i
						w.Distinct(canon.Sum(t))
						if x := trieExact(t, live); x != "" {
							return x
						}
					}
					for i := 0; i < m; i++ {
						w.Steps(1)
						k := long[:1+step*o.at(i, m)]
						if v, err := t.Remove([]byte(k)); err != nil || v != live[k] {
							return errf("remove of %d bytes returned %v", len(k), show(v))
						}
						delete(live, k)
						w.Distinct(canon.Sum(t))
						if x := trieExact(t, live, k); x != "" {
							return x
						}
					}
					return ""
				})
			}
		}
		w.Res.Bound = fmt.Sprintf("prefix chains of keys up to %d bytes in %d orders", n, len(walkOrders))
	})
}

// trieVariants: keys of every length that differ in exactly one byte, at every position, alone and with
// various companions. Either the map operations or the prefix search is compared.
func trieVariants(top int, prefixes bool) engine.Job {
	return job("variants", func(w *engine.W) {
		canon := engine.NewCanon(false)
		lengths := []int{}
		for n := 1; n <= top; n++ {
			lengths = append(lengths, n)
		}
		lengths = append(lengths, 61, 63, 64, 65, 66, 97, 127, 128, 129, 200, 255, 256, 257, 300)
		for _, n := range lengths {
			base := strings.Repeat("mango", n/5+1)[:n]
			friends := [][]string{nil, {"zebra"}, {base + "x"}, {base + "mango"}, {base[:n/2] + "kiwi"}}
			if n > 1 {
				friends = append(friends, []string{base[:n-1]}, []string{base[:n-1], base + "\x01", "m\xff"}, []string{base[:1], base[:(n+1)/2]})
			}
			for fi, friend := range friends {
				for p := 0; p < n; p++ {
					if n > top && p > 1 && p < n-2 && p != n/2 {
						continue
					}
					for _, b := range []byte{1, base[p] - 1, base[p] + 1, 0xff} {
						n, p, b, friend := n, p, b, friend
						other := base[:p] + string([]byte{b}) + base[p+1:]
						w.Case(func() string { return fmt.Sprintf("key of %d bytes, companions %d, byte %d as %#x", n, fi, p, b) }, func() string {
							t := trie.New()
							live := map[string]int{}
							put := func(k string, v int) string {
								w.Steps(1)
								if err := t.Put([]byte(k), v); err != nil {
									return errf("put(%q) failed: %v", k, firstLine(err))
								}
								live[k] = v
								return ""
							}
							remove := func(k string) string {
								w.Steps(1)
								want, ok := live[k]
								if v, err := t.Remove([]byte(k)); (err == nil) != ok || (ok && v != want) {
									return errf("remove(%q) returned %v (error %v), present=%v", k, show(v), err != nil, ok)
								}
								delete(live, k)
								return ""
							}
							look := func() string {
								w.Res.Observed++
								if !prefixes {
									return trieExact(t, live, other, other+"x", base, base+base[:1])
								}
								for _, k := range []string{base, other} {
									for i := 0; i <= n+1; i++ {
										q := k + "x"
										if i <= n {
											q = k[:i]
										}
										var ks []string
										for x := range live {
											if strings.HasPrefix(x, q) {
												ks = append(ks, x)
											}
										}
										sort.Strings(ks)
										var want []pair
										for _, x := range ks {
											want = append(want, pair{bkey(x), live[x]})
										}
										got, _ := drainKV(t.PrefixFind(types.ByteSlice([]byte(q))), len(want)+16)
										if m := cmpPairs(fmt.Sprintf("prefixFind(%q)", q), got, want, true); m != "" {
											return m
										}
									}
								}
								return ""
							}
							steps := []func() string{
								func() string { return put(base, 1) },
								look,
								func() string {
									if _, ok := live[other]; ok {
										return ""
									}
									return remove(other)
								},
								look,
								func() string { return put(other, 2) },
								look,
								func() string { return remove(base) },
								look,
								func() string { return put(base, 3) },
								func() string { return remove(other) },
								look,
							}
							if !prefixes {
								zero := base[:p] + "\x00" + base[p+1:]
								steps = append(steps, func() string {
									if err := t.Put([]byte(zero), 9); err == nil {
										return errf("put(%q) was accepted", zero)
									}
									if _, err := t.Get([]byte(zero)); err == nil || t.Has([]byte(zero)) {
										return errf("get(%q) succeeded", zero)
									}
									if _, err := t.Remove([]byte(zero)); err == nil {
										return errf("remove(%q) succeeded", zero)
									}
									return ""
								}, look)
							}
							for i, f := range friend {
								if m := put(f, 10+i); m != "" {
									return m
								}
							}
							for _, f := range steps {
								if m := f(); m != "" {
									return m
								}
							}
							if p == n-1 {
								w.Distinct(canon.Sum(t))
							}
							return ""
						})
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("keys of 1..%d bytes, one byte changed at every position, up to 8 groups of companions; 14 lengths up to 300 at five positions", top)
	})
}

// allStrings lists every string over the alphabet up to length n.
func allStrings(alph string, n int) (r []string) {
	r = append(r, "")
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, p := range last {
			for j := 0; j < len(alph); j++ {
				next = append(next, p+alph[j:j+1])
			}
		}
		r = append(r, next...)
		last = next
	}
	return
}

func c09jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	us := append([]trieUniverse(nil), trieUniverses...)
	us = append(us, trieUniverses6...)
	us = append(us, trieUniverse{name: "odd-values", keys: []string{"a", "ab", "b"}, absent: []string{"abc"}})
	for _, u := range us {
		c := u.cfg(1)
		if u.name == "odd-values" {
			c.vals, c.values = len(oddValues), oddValues
		}
		alpha := map[byte]bool{}
		for _, k := range append(append([]string(nil), u.keys...), u.absent...) {
			for i := 0; i < len(k); i++ {
				alpha[k[i]] = true
			}
		}
		var al []byte
		for b := 0; b < 256; b++ {
			if alpha[byte(b)] {
				al = append(al, byte(b))
			}
		}
		set := map[string]bool{}
		for _, s := range allStrings(string(al), 2) {
			set[s] = true
		}
		for _, s := range []string{"\x00", "zz", "\xfe", "a\x00", u.keys[0] + "\x00", strings.Repeat("a", 40)} {
			set[s] = true
		}
		for _, k := range append(append([]string(nil), u.keys...), u.absent...) {
			for i := 0; i <= len(k); i++ {
				set[k[:i]] = true
				for _, b := range al {
					set[k[:i]+string([]byte{b})] = true
					set[k[:i]+string([]byte{b})+"zzzzzzzzzz"] = true
				}
			}
			set[k+"\x00"] = true
		}
		var prefixes []string
		for s := range set {
			prefixes = append(prefixes, s)
		}
		sort.Strings(prefixes)
		c.extra = func(s *mapSys) string {
			t := s.m.(trieMap).TST
			all := kvOf(s)
			for _, p := range prefixes {
				var want []pair
				for _, e := range all {
					if strings.HasPrefix(string(e.k.(types.ByteSlice)), p) {
						want = append(want, e)
					}
				}
				got, _ := drainKV(t.PrefixFind(types.ByteSlice([]byte(p))), len(want)+64)
				if m := cmpPairs(fmt.Sprintf("prefixFind(%q)", p), got, want, true); m != "" {
					return m
				}
			}
			got, _ := drainKV(t.PrefixFind(nil), len(all)+64)
			return cmpPairs("prefixFind(nil)", got, all, true)
		}
		jobs = append(jobs, mapBFS(u.name, c, 0))
	}
	jobs = append(jobs, trieWalks("words", trieWordSet(pick(q, 3, 4)), plainTrie, triePrefixes)...)
	jobs = append(jobs, trieWalks("fan255", trieFan(), plainTrie, triePrefixes)...)
	var chain []string
	for i := 1; i <= pick(q, 60, 200); i++ {
		chain = append(chain, strings.Repeat("abca", 60)[:i])
	}
	jobs = append(jobs, trieWalks("lengths", chain, plainTrie, triePrefixes)...)
	jobs = append(jobs, trieVariants(pick(q, 34, 60), true))
	return jobs
}

// aliasMap passes keys in buffers with a chosen surrounding, checks the operation left the whole buffer
// alone, then scribbles over it.
type aliasMap struct {
	*trie.TST
	style int
	fault string
}

const sentinel = 0xA5

// buffer returns a backing array and the key inside it. Style 0: exact size. Style 1: spare capacity
// after the key, holding other data. Style 2: also data before the key. Style 3: zero bytes before and
// after the key.
func (m *aliasMap) buffer(k types.Hashable) (all, key []byte) {
	b := k.(types.ByteSlice)
	switch m.style {
	case 0:
		all = make([]byte, len(b))
		copy(all, b)
		return all, all
	case 1:
		all = make([]byte, len(b)+4)
		copy(all, b)
		for i := len(b); i < len(all); i++ {
			all[i] = sentinel
		}
		return all, all[:len(b)]
	}
	all = make([]byte, len(b)+6)
	for i := range all {
		if m.style == 2 {
			all[i] = sentinel
		}
	}
	copy(all[2:], b)
	return all, all[2 : 2+len(b)]
}

func (m *aliasMap) with(op string, k types.Hashable, f func(key []byte)) {
	all, key := m.buffer(k)
	before := string(all)
	f(key)
	if string(all) != before && m.fault == "" {
		m.fault = errf("%s(%q) changed the caller's buffer from %q to %q", op, k, before, all)
	}
	for i := range all {
		all[i] = 'Z'
	}
}

func (m *aliasMap) Size() int { return trieMap{m.TST}.Size() }
func (m *aliasMap) Has(k types.Hashable) (r bool) {
	m.with("has", k, func(b []byte) { r = m.TST.Has(b) })
	return
}
func (m *aliasMap) Put(k types.Hashable, v interface{}) (err error) {
	m.with("put", k, func(b []byte) { err = m.TST.Put(b, v) })
	return
}
func (m *aliasMap) Get(k types.Hashable) (v interface{}, err error) {
	m.with("get", k, func(b []byte) { v, err = m.TST.Get(b) })
	return
}
func (m *aliasMap) Remove(k types.Hashable) (v interface{}, err error) {
	m.with("remove", k, func(b []byte) { v, err = m.TST.Remove(b) })
	return
}

func c10jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	us := append([]trieUniverse(nil), trieUniverses...)
	if !q {
		us = append(us, trieUniverses6...)
	}
	for _, u := range us {
		for style := 0; style < 4; style++ {
			style := style
			c := u.cfg(1)
			c.badKeys = []types.Hashable{types.ByteSlice(""), types.ByteSlice("a\x00b")}
			c.mk = func() types.MapOperable { return &aliasMap{TST: trie.New(), style: style} }
			c.roots = func(m types.MapOperable) []interface{} { return []interface{}{m.(*aliasMap).TST} }
			after := func(s *mapSys) string {
				a := s.m.(*aliasMap)
				if a.fault != "" {
					return a.fault
				}
				return ""
			}
			c.before = func(s *mapSys) func() string { return func() string { return after(s) } }
			c.extra = func(s *mapSys) string {
				a := s.m.(*aliasMap)
				all := kvOf(s)
				// prefix search with aliased buffers, scribbled before the iterator is drained
				for _, k := range s.c.keys {
					b := string(k.(types.ByteSlice))
					for i := 1; i <= len(b); i++ {
						var want []pair
						for _, e := range all {
							if strings.HasPrefix(string(e.k.(types.ByteSlice)), b[:i]) {
								want = append(want, e)
							}
						}
						var it types.KVIterator
						a.with("prefixFind", types.ByteSlice(b[:i]), func(p []byte) { it = a.TST.PrefixFind(p) })
						got, _ := drainKV(it, len(want)+64)
						if m := cmpPairs(fmt.Sprintf("prefixFind(%q) then buffer reuse", b[:i]), got, want, true); m != "" {
							return m
						}
					}
				}
				// reuse one buffer for another key, then look that key up
				for k := range s.c.keys {
					for o, e := range s.model {
						key, other := s.c.keys[k].(types.ByteSlice), s.c.keys[o].(types.ByteSlice)
						if k == o || len(key) != len(other) {
							continue
						}
						for how := 0; how < 3; how++ {
							buf := append([]byte(nil), key...)
							switch how {
							case 0:
								a.TST.Has(buf)
							case 1:
								_, _ = a.TST.Get(buf)
							case 2:
								a.TST.PrefixFind(buf)
							}
							copy(buf, other)
							for _, b := range [][]byte{append([]byte(nil), other...), buf} {
								has := a.TST.Has(b)
								v, err := a.TST.Get(b)
								it, _ := drainKV(a.TST.PrefixFind(b), len(all)+64)
								found := len(it) > 0 && eqKey(it[0].k, other)
								if has != e.has || (err == nil) != e.has || found != e.has || (e.has && v != s.c.value(o, int(e.v))) {
									return errf("after looking up %q and reusing the buffer for %q: has is %v, get is %s (error %v)", key, other, has, show(v), err != nil)
								}
							}
						}
					}
				}
				// extend every key handed out
				grow := func(got []pair) {
					for _, p := range got {
						_ = append(p.k.(types.ByteSlice), "!!!!!!"...)
					}
				}
				got, _ := drainKV(a.TST.Iterate(), len(all)+64)
				grow(got)
				got, _ = drainKV(a.TST.PrefixFind(types.ByteSlice(s.c.keys[0].(types.ByteSlice)[:1])), len(all)+64)
				grow(got)
				ks, _ := drainK(a.TST.Keys(), len(all)+64)
				for _, k := range ks {
					_ = append(k.(types.ByteSlice), "!!!!!!"...)
				}
				its, _ := drainK(a.TST.Items(), len(all)+64)
				for _, k := range its {
					_ = append(k.(*types.MapEntry).Key.(types.ByteSlice), "!!!!!!"...)
				}
				for k, e := range s.model {
					v, err := a.Get(s.c.keys[k])
					if (err == nil) != e.has || (e.has && v != s.c.value(k, int(e.v))) {
						return errf("after extending handed-out keys, get(%q) is %v (err %v)", s.c.keys[k], show(v), err != nil)
					}
				}
				if m := checkMapIter(a.TST, all, true); m != "" {
					return "after extending handed-out keys: " + m
				}
				return after(s)
			}
			jobs = append(jobs, mapBFS(fmt.Sprintf("%s-buf%d", u.name, style), c, 0))
		}
	}
	var chain []string
	for i := 1; i <= pick(q, 60, 200); i++ {
		chain = append(chain, strings.Repeat("abca", 60)[:i])
	}
	for style := 0; style < 4; style++ {
		style := style
		mk := func() (types.MapOperable, *trie.TST) {
			t := trie.New()
			return &aliasMap{TST: t, style: style}, t
		}
		both := func(m types.MapOperable, t *trie.TST, words []string, live map[string]int) string {
			its, _ := drainKV(t.Iterate(), len(live)+64)
			for _, p := range its { // extend every key handed out, to several lengths
				for _, n := range []int{1, 2, 9} {
					_ = append(p.k.(types.ByteSlice), strings.Repeat("!", n)...)
				}
			}
			if x := trieLookups(m, t, words, live); x != "" {
				return x
			}
			return triePrefixes(m, t, words, live)
		}
		jobs = append(jobs, trieWalks(fmt.Sprintf("words-buf%d", style), trieWordSet(3), mk, both)...)
		jobs = append(jobs, trieWalks(fmt.Sprintf("lengths-buf%d", style), chain, mk, both)...)
	}
	return jobs
}
