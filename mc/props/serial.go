package props

import (
	"bytes"
	"encoding"
	"fmt"
	"math"
	"strings"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// marshalType is a provided item type.
type marshalType struct {
	name  string
	width int // bits, 0 for variable length
	of    func(x uint64) types.Hashable
	// own encodes and decodes through the value's own methods
	own  func(v types.Hashable) ([]byte, error)
	back func(b []byte) (types.Hashable, error)
	pair func() (types.ItemMarshal, types.ItemUnmarshal)
	made func() types.MHashable // fresh value for MakeMarshals
	ptr  func(v types.Hashable) types.MHashable
	val  func(p types.Hashable) types.Hashable
}

func mt[T interface {
	types.Hashable
}, P interface {
	*T
	types.Hashable
	encoding.BinaryMarshaler
	encoding.BinaryUnmarshaler
}](name string, width int, of func(x uint64) T, pair func() (types.ItemMarshal, types.ItemUnmarshal)) marshalType {
	return marshalType{
		name: name, width: width, pair: pair,
		of:  func(x uint64) types.Hashable { return of(x) },
		own: func(v types.Hashable) ([]byte, error) { t := v.(T); return P(&t).MarshalBinary() },
		back: func(b []byte) (types.Hashable, error) {
			var t T
			err := P(&t).UnmarshalBinary(b)
			return t, err
		},
		made: func() types.MHashable { return any(P(new(T))).(types.MHashable) },
		ptr:  func(v types.Hashable) types.MHashable { t := v.(T); return any(P(&t)).(types.MHashable) },
		val:  func(p types.Hashable) types.Hashable { return *(p.(P)) },
	}
}

// bytesOf turns a number into a short byte string: the empty string, all one-byte strings, all two-byte
// strings, then longer ones.
func bytesOf(x uint64) []byte {
	switch {
	case x == 0:
		return []byte{}
	case x <= 256:
		return []byte{byte(x - 1)}
	case x <= 256+65536:
		y := x - 257
		return []byte{byte(y >> 8), byte(y)}
	}
	n := int(x - 257 - 65536 + 3)
	return bytes.Repeat([]byte{'a', 0, 0xff, 'z', 0x80}, n/5+1)[:n]
}

var marshalTypes = []marshalType{
	mt("Int8", 8, func(x uint64) types.Int8 { return types.Int8(x) }, types.Int8Marshals),
	mt("UInt8", 8, func(x uint64) types.UInt8 { return types.UInt8(x) }, types.UInt8Marshals),
	mt("Int16", 16, func(x uint64) types.Int16 { return types.Int16(x) }, types.Int16Marshals),
	mt("UInt16", 16, func(x uint64) types.UInt16 { return types.UInt16(x) }, types.UInt16Marshals),
	mt("Int32", 32, func(x uint64) types.Int32 { return types.Int32(x) }, types.Int32Marshals),
	mt("UInt32", 32, func(x uint64) types.UInt32 { return types.UInt32(x) }, types.UInt32Marshals),
	mt("Int64", 64, func(x uint64) types.Int64 { return types.Int64(x) }, types.Int64Marshals),
	mt("UInt64", 64, func(x uint64) types.UInt64 { return types.UInt64(x) }, types.UInt64Marshals),
	mt("Int", 64, func(x uint64) types.Int { return types.Int(x) }, types.IntMarshals),
	mt("UInt", 64, func(x uint64) types.UInt { return types.UInt(x) }, types.UIntMarshals),
	mt("String", 0, func(x uint64) types.String { return types.String(bytesOf(x)) }, types.StringMarshals),
	mt("ByteSlice", 0, func(x uint64) types.ByteSlice { return types.ByteSlice(bytesOf(x)) }, types.ByteSliceMarshals),
}

// sameValue compares two items of provided types without using their Equals.
func sameValue(a, b types.Hashable) bool {
	return eqKey(a, b)
}

func init() {
	engine.Register(&engine.Property{ID: "C15", Jobs: c15jobs, Assumptions: []string{
		"encodings damaged in other ways than truncation are not considered", "fewer than 2^32 items of less than 2^32 bytes each"}})
	engine.Register(&engine.Property{ID: "C16", Jobs: c16jobs, Assumptions: []string{
		"64-bit platform", "types of 32 bits and wider: every value is covered only for every byte in every position over the boundary bytes of the others"}})
}

func (t *marshalType) roundTrip(v types.Hashable) string {
	b, err := t.own(v)
	if err != nil {
		return errf("marshalling %v failed: %v", v, firstLine(err))
	}
	g, err := t.back(append([]byte(nil), b...))
	if err != nil || !sameValue(g, v) {
		return errf("%v marshalled to %x, unmarshalled to %v (error %v)", v, b, g, err != nil)
	}
	if !g.Equals(v) || !v.Equals(g) {
		return errf("%v and its round trip are not equal", v)
	}
	m, u := t.pair()
	b2, err := m(v)
	if err != nil {
		return errf("marshal function failed on %v", v)
	}
	g, err = u(append([]byte(nil), b2...))
	if err != nil || !sameValue(g, v) {
		return errf("marshal functions: %v became %x and then %v (error %v)", v, b2, g, err != nil)
	}
	m, u = types.MakeMarshals(t.made)
	b3, err := m(t.ptr(v))
	if err != nil {
		return errf("made marshal function failed on %v", v)
	}
	g, err = u(append([]byte(nil), b3...))
	if err != nil || !sameValue(t.val(g), v) {
		return errf("made marshal functions: %v became %x and then %v (error %v)", v, b3, g, err != nil)
	}
	return ""
}

func c16jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, t := range marshalTypes {
		jobs = append(jobs, job(t.name, func(w *engine.W) {
			one := func(x uint64) {
				w.DistinctStr(fmt.Sprint(x))
				w.Steps(3)
				v := t.of(x)
				w.Case(func() string { return fmt.Sprintf("%s(%v)", t.name, v) }, func() string { return t.roundTrip(v) })
			}
			switch t.width {
			case 8, 16:
				for x := uint64(0); x < 1<<t.width; x++ {
					one(x)
				}
				w.Res.Bound = "every value"
			case 0:
				max := uint64(257 + 65536 + 600)
				for x := uint64(0); x < max; x++ {
					one(x)
				}
				one(257 + 65536 + 70000)
				w.Res.Bound = "every byte string up to length 2, one string of each length up to 600 and one of 70003"
			default:
				nb := t.width / 8
				// every byte value in every position, over backgrounds
				for pos := 0; pos < nb; pos++ {
					for _, bg := range []uint64{0, math.MaxUint64, 0x0102030405060708, 0x8080808080808080, 0x7f7f7f7f7f7f7f7f} {
						for b := uint64(0); b < 256; b++ {
							one(bg&^(0xff<<(8*pos)) | b<<(8*pos))
						}
					}
				}
				vals := []byte{0, 1, 0x7f, 0x80, 0xff}
				n := 1
				for i := 0; i < nb; i++ {
					n *= len(vals)
				}
				for i := 0; i < n; i++ {
					var x uint64
					for j, k := 0, i; j < nb; j, k = j+1, k/len(vals) {
						x = x<<8 | uint64(vals[k%len(vals)])
					}
					one(x)
				}
				for s := 0; s < t.width; s++ {
					for d := -2; d <= 2; d++ {
						one(uint64(int64(1)<<s) + uint64(d))
						one(-uint64(int64(1)<<s) + uint64(d))
					}
				}
				w.Res.Bound = fmt.Sprintf("every byte in every position over 5 backgrounds, all %d words over %d boundary bytes, all powers of two +-2", n, len(vals))
			}
			w.Sample(fmt.Sprintf("%s(%v)", t.name, t.of(77)))
			if t.width > 0 {
				good, err := t.own(t.of(1))
				if err != nil {
					return
				}
				_, u := t.pair()
				_, um := types.MakeMarshals(t.made)
				for n := 0; n <= 24; n++ {
					if n == len(good) {
						continue
					}
					for _, fill := range []byte{0, 1, 0xff} {
						data := bytes.Repeat([]byte{fill}, n)
						w.Case(func() string { return fmt.Sprintf("%s from %d bytes", t.name, n) }, func() string {
							w.Steps(3)
							if _, err := t.back(data); err == nil {
								return errf("%d bytes were accepted for %s", n, t.name)
							}
							if _, err := u(data); err == nil {
								return errf("%d bytes were accepted by the unmarshal function of %s", n, t.name)
							}
							if _, err := um(data); err == nil {
								return errf("%d bytes were accepted by the made unmarshal function of %s", n, t.name)
							}
							return ""
						})
					}
				}
			}
		}))
		if !q && t.width == 32 {
			for part := uint64(0); part < 4; part++ {
				jobs = append(jobs, job(fmt.Sprintf("%s-all-%d", t.name, part), func(w *engine.W) {
					for hi := part << 14; hi < (part+1)<<14; hi++ {
						w.Case(func() string { return fmt.Sprintf("%s values %#x....", t.name, hi) }, func() string {
							for lo := uint64(0); lo < 1<<16; lo++ {
								v := t.of(hi<<16 | lo)
								b, err := t.own(v)
								if err != nil {
									return errf("marshalling %v failed", v)
								}
								if g, err := t.back(b); err != nil || g != v {
									return errf("%v marshalled to %x, unmarshalled to %v (error %v)", v, b, g, err != nil)
								}
							}
							return ""
						})
						w.Steps(1 << 16)
						w.Res.States += 1 << 16
					}
					w.Res.Bound = "every value of a quarter of the 32-bit range"
				}))
			}
		}
	}
	return jobs
}

// serialKind is a kind of serializable collection with a uniform handle on it.
type serialKind struct {
	name  string
	fixed bool
	mk    func(size int) serialColl
}

// serialColl is what the check needs of a collection.
type serialColl interface {
	add(v types.Hashable) error
	marshal(m types.ItemMarshal, u types.ItemUnmarshal) ([]byte, error)
	// decode makes a new collection of the same kind from bytes.
	decode(b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error)
	// decodeInto decodes into a receiver that holds a collection already.
	decodeInto(used int, v types.Hashable, b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error)
	copy() serialColl
	followUps() int
	followUp(i int, vals []types.Hashable) string // performs operation i and describes the outcome
	state() string
	content() []types.Hashable
	equals(o serialColl) bool
}

func descr(vs []types.Hashable) string {
	var b strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&b, "%T(%q);", v, fmt.Sprint(v))
	}
	return b.String()
}

type listColl struct{ *list.List }

func (l listColl) add(v types.Hashable) error { return l.Append(v) }
func (l listColl) marshal(m types.ItemMarshal, u types.ItemUnmarshal) ([]byte, error) {
	return list.NewMList(l.List, m, u).MarshalBinary()
}
func (l listColl) decode(b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	x := &list.MList{MarshalItem: m, UnmarshalItem: u}
	err := x.UnmarshalBinary(b)
	return listColl{&x.List}, err
}

const usedReceivers = 6

func usedList(used int, v types.Hashable) *list.List {
	x := list.Fixed(used)
	if used%2 == 0 {
		x = list.New(used)
	}
	for i := 0; i < used; i++ {
		_ = x.Append(v)
	}
	return x
}

func usedSorted(used int, v types.Hashable) *list.Sorted {
	x := list.NewFixedSorted(used, used < 4)
	if used%2 == 0 {
		x = list.NewSorted(used, used < 4)
	}
	for i := 0; i < used; i++ {
		_ = x.Add(v)
	}
	return x
}

func (l listColl) decodeInto(used int, v types.Hashable, b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	src := usedList(used, v)
	x := list.NewMList(src, m, u)
	was := listColl{src}.state()
	err := x.UnmarshalBinary(b)
	if err == nil && (listColl{src}).state() != was {
		err = fmt.Errorf("the list the receiver was made of changed")
	}
	return listColl{&x.List}, err
}
func (l sortedColl) decodeInto(used int, v types.Hashable, b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	src := usedSorted(used, v)
	x := list.NewMSorted(src, m, u)
	was := sortedColl{src}.state()
	err := x.UnmarshalBinary(b)
	if err == nil && (sortedColl{src}).state() != was {
		err = fmt.Errorf("the list the receiver was made of changed")
	}
	return sortedColl{x.Sorted()}, err
}
func (l setColl) decodeInto(used int, v types.Hashable, b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	y := set.NewSortedSet(used)
	if used > 0 {
		_ = y.Add(v)
	}
	x := set.NewMSortedSet(y, m, u)
	was := setColl{y}.state()
	err := x.UnmarshalBinary(b)
	if err == nil && (setColl{y}).state() != was {
		err = fmt.Errorf("the set the receiver was made of changed")
	}
	return setColl{x.SortedSet()}, err
}
func (l listColl) copy() serialColl { return listColl{l.List.Copy()} }
func (l listColl) content() []types.Hashable {
	r, _ := drainK(l.Items(), 1<<20)
	return r
}
func (l listColl) equals(o serialColl) bool { return l.Equals(o.(listColl).List) }
func (l listColl) state() string {
	c := ""
	if l.Full() {
		c = "full"
	}
	r, _ := drainK(l.ItemsInReverse(), 1<<20)
	return fmt.Sprint(l.Size(), l.Empty(), c) + descr(l.content()) + "/" + descr(r)
}
func (l listColl) followUps() int { return 5 }
func (l listColl) followUp(i int, v []types.Hashable) string {
	switch i {
	case 0:
		return fmt.Sprint(l.Append(v[0]) == nil)
	case 1:
		x, err := l.Pop()
		return fmt.Sprint(x, err == nil)
	case 2:
		return fmt.Sprint(l.Insert(0, v[1]) == nil)
	case 3:
		return fmt.Sprint(l.Remove(0) == nil)
	}
	return fmt.Sprint(l.Set(0, v[1]) == nil)
}

type sortedColl struct{ *list.Sorted }

func (l sortedColl) add(v types.Hashable) error { return l.Add(v) }
func (l sortedColl) marshal(m types.ItemMarshal, u types.ItemUnmarshal) ([]byte, error) {
	return list.NewMSorted(l.Sorted, m, u).MarshalBinary()
}
func (l sortedColl) decode(b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	x := &list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}
	err := x.UnmarshalBinary(b)
	return sortedColl{x.Sorted()}, err
}
func (l sortedColl) copy() serialColl { return sortedColl{l.Sorted.Copy()} }
func (l sortedColl) content() []types.Hashable {
	r, _ := drainK(l.Items(), 1<<20)
	return r
}
func (l sortedColl) equals(o serialColl) bool { return l.Equals(o.(sortedColl).Sorted) }
func (l sortedColl) state() string {
	r, _ := drainK(l.ItemsInReverse(), 1<<20)
	return fmt.Sprint(l.Size(), l.Empty(), l.Full()) + descr(l.content()) + "/" + descr(r)
}
func (l sortedColl) followUps() int { return 4 }
func (l sortedColl) followUp(i int, v []types.Hashable) string {
	switch i {
	case 0, 1:
		return fmt.Sprint(l.Add(v[i]) == nil)
	case 2:
		return fmt.Sprint(l.Delete(v[0]) == nil)
	}
	return fmt.Sprint(l.Remove(0) == nil)
}

type setColl struct{ *set.SortedSet }

func (l setColl) add(v types.Hashable) error { return l.Add(v) }
func (l setColl) marshal(m types.ItemMarshal, u types.ItemUnmarshal) ([]byte, error) {
	return set.NewMSortedSet(l.SortedSet, m, u).MarshalBinary()
}
func (l setColl) decode(b []byte, m types.ItemMarshal, u types.ItemUnmarshal) (serialColl, error) {
	x := &set.MSortedSet{MSorted: list.MSorted{MList: list.MList{MarshalItem: m, UnmarshalItem: u}}}
	err := x.UnmarshalBinary(b)
	return setColl{x.SortedSet()}, err
}
func (l setColl) copy() serialColl          { return setColl{l.SortedSet.Copy()} }
func (l setColl) content() []types.Hashable { return sortedColl{&l.Sorted}.content() }
func (l setColl) equals(o serialColl) bool  { return l.Equals(o.(setColl).SortedSet) }
func (l setColl) state() string             { return sortedColl{&l.Sorted}.state() }
func (l setColl) followUps() int            { return 4 }
func (l setColl) followUp(i int, v []types.Hashable) string {
	return sortedColl{&l.Sorted}.followUp(i, v)
}

var serialKinds = []serialKind{
	{"list", false, func(n int) serialColl { return listColl{list.New(n)} }},
	{"fixed-list", true, func(n int) serialColl { return listColl{list.Fixed(n)} }},
	{"sorted", false, func(n int) serialColl { return sortedColl{list.NewSorted(n, false)} }},
	{"sorted-dups", false, func(n int) serialColl { return sortedColl{list.NewSorted(n, true)} }},
	{"fixed-sorted", true, func(n int) serialColl { return sortedColl{list.NewFixedSorted(n, false)} }},
	{"fixed-sorted-dups", true, func(n int) serialColl { return sortedColl{list.NewFixedSorted(n, true)} }},
	{"set", false, func(n int) serialColl { return setColl{set.NewSortedSet(n)} }},
}

// serialCase checks one collection.
func serialCase(w *engine.W, c serialColl, t marshalType, vals []types.Hashable, deep int, fixed bool) string {
	limit := 8
	if fixed {
		limit = 1200
	}
	m, u := t.pair()
	w.Steps(2)
	before := c.state()
	b, err := c.marshal(m, u)
	if err != nil {
		return errf("marshalling failed: %v", firstLine(err))
	}
	if c.state() != before {
		return "marshalling changed the collection"
	}
	buf := append([]byte(nil), b...)
	d, err := c.decode(buf, m, u)
	if err != nil {
		return errf("unmarshalling failed: %v", firstLine(err))
	}
	for i := range buf {
		buf[i] ^= 0x5a
	}
	for i := range b {
		b[i] ^= 0x5a
	}
	if c.state() != before {
		return "overwriting the encoded bytes changed the encoded collection"
	}
	for i := range b {
		b[i] ^= 0x5a
	}
	if s := d.state(); s != before {
		return errf("decoded to %s, want %s (encoded bytes overwritten after decoding)", s, before)
	}
	if !d.equals(c) || !c.equals(d) {
		return "the decoded collection is not equal to the original"
	}
	// receivers that hold something else, and the room left in each
	room := func(c serialColl) (n int) {
		x := c.copy()
		for ; n < limit; n++ {
			if x.add(t.of(uint64(n)+300)) != nil {
				break
			}
		}
		return
	}
	free := -1
	if deep >= 0 {
		free = room(c)
	}
	for used := -1; used < usedReceivers; used++ {
		w.Steps(1)
		y := d
		if used >= 0 {
			if y, err = c.decodeInto(used, vals[1], append([]byte(nil), b...), m, u); err != nil {
				return errf("decoding into a receiver holding %d items failed", used)
			}
			if s := y.state(); s != before {
				return errf("decoded into a receiver holding %d items to %s, want %s", used, s, before)
			}
			if !y.equals(c) {
				return errf("decoded into a receiver holding %d items: not equal to the original", used)
			}
		}
		if deep < 0 {
			continue
		}
		if r := room(y); r != free {
			return errf("room for %d more items after decoding (receiver %d), was %d", r, used, free)
		}
	}
	// the same later operations on a copy of the original and on the decoded collection
	var seqs func(prefix []int) string
	seqs = func(prefix []int) string {
		if len(prefix) > 0 {
			w.Steps(2 * len(prefix))
			x := c.copy()
			y, err := c.decode(append([]byte(nil), b...), m, u)
			if err != nil {
				return "decoding a second time failed"
			}
			for _, o := range prefix {
				rx, ry := x.followUp(o, vals), y.followUp(o, vals)
				if rx != ry || x.state() != y.state() {
					return errf("after decoding, follow-up operations %v: original %s %s, decoded %s %s", prefix, rx, x.state(), ry, y.state())
				}
			}
		}
		if len(prefix) < deep {
			for o := 0; o < c.followUps(); o++ {
				if r := seqs(append(prefix[:len(prefix):len(prefix)], o)); r != "" {
					return r
				}
			}
		}
		return ""
	}
	if r := seqs(nil); r != "" {
		return r
	}
	// every truncation, as an exact slice and as the front of the whole encoding
	for k := 0; k < len(b); k++ {
		if len(b) > 2000 && k%977 != 0 && k < len(b)-3 {
			continue
		}
		w.Steps(2)
		if _, err := c.decode(append([]byte(nil), b[:k]...), m, u); err == nil {
			return errf("the first %d of %d bytes decoded without error", k, len(b))
		}
		if _, err := c.decode(b[:k], m, u); err == nil {
			return errf("the first %d of %d bytes decoded without error (with the rest behind the slice)", k, len(b))
		}
	}
	return ""
}

func c15jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, k := range serialKinds {
		jobs = append(jobs, job(k.name, func(w *engine.W) {
			for ti, t := range marshalTypes {
				xs := []uint64{1, 0xfedcba9876543281, 0}
				if t.width == 0 {
					xs = []uint64{1, 0, 400} // "\0", "", two bytes
				}
				var vals []types.Hashable
				for _, x := range xs {
					vals = append(vals, t.of(x))
				}
				max := pick(q, 3, 4)
				if !q && ti == len(marshalTypes)-1 {
					max = 5
				}
				sizes := []int{0, 2}
				if k.fixed {
					sizes = []int{0, 1, 2, 3, 5}
				}
				for _, size := range sizes {
					var gen func(p []int)
					gen = func(p []int) {
						mk := func() (serialColl, string) {
							c := k.mk(size)
							for _, i := range p {
								if err := c.add(vals[i]); err != nil && !(k.fixed && len(c.content()) == size) {
									return nil, errf("adding failed: %v", firstLine(err))
								}
							}
							return c, ""
						}
						w.Case(func() string { return fmt.Sprintf("%s size %d of %s %v", k.name, size, t.name, p) }, func() string {
							c, m := mk()
							if m != "" {
								return m
							}
							w.DistinctStr(fmt.Sprint(t.name, size, c.state()))
							return serialCase(w, c, t, vals, pick(q, 2, 3), k.fixed)
						})
						if len(p) < max && (!k.fixed || len(p) < size) {
							for i := range vals {
								gen(append(p[:len(p):len(p)], i))
							}
						}
					}
					gen(nil)
				}
				// many items, long items
				for _, n := range []int{0, 10, 100, 127, 128, 255, 256, 257, 300} {
					for _, spare := range []int{0, 3, 255, 256, 300, 1000} {
						if spare > 3 && (!k.fixed || n > 10 && n != 256) {
							continue
						}
						w.Case(func() string { return fmt.Sprintf("%s of %d %s, %d spare", k.name, n, t.name, spare) }, func() string {
							c := k.mk(n + spare)
							for i := 0; i < n; i++ {
								if err := c.add(t.of(uint64(i))); err != nil {
									return errf("adding failed: %v", firstLine(err))
								}
							}
							w.DistinctStr(fmt.Sprint("n", n, spare, t.name))
							return serialCase(w, c, t, vals, 1, k.fixed)
						})
					}
				}
				if t.width == 0 || t.name == "Int32" {
					n := 70000
					w.Case(func() string { return fmt.Sprintf("%s of a large %s collection", k.name, t.name) }, func() string {
						c := k.mk(n + 1)
						if t.width == 0 {
							if err := c.add(t.of(257 + 65536 + 70000)); err != nil {
								return "adding failed"
							}
						} else {
							for i := 0; i < n; i++ {
								if err := c.add(t.of(uint64(i))); err != nil {
									return "adding failed"
								}
							}
						}
						w.DistinctStr("large" + t.name)
						return serialCase(w, c, t, vals, -1, k.fixed)
					})
				}
			}
			w.Res.Bound = fmt.Sprintf("all sequences up to length %d over 3 values of 12 item types, all follow-up sequences of %d operations, all truncation points; larger sizes to 70000", pick(q, 3, 4), pick(q, 2, 3))
			w.Sample(k.name + " size 2 of ByteSlice [0 1]")
		}))
	}
	return append(jobs, itemErrors())
}

// itemErrors lets the caller's functions for single items fail at each item in turn: the failure comes back.
func itemErrors() engine.Job {
	return job("item-errors", func(w *engine.W) {
		const n = 6
		m, u := types.IntMarshals()
		for _, k := range serialKinds {
			for size := 1; size <= n; size++ {
				for at := 0; at < size; at++ {
					mk := func() serialColl {
						c := k.mk(size)
						for i := 0; i < size; i++ {
							_ = c.add(types.Int(i))
						}
						return c
					}
					w.DistinctStr(fmt.Sprint(k.name, size, at))
					w.Case(func() string { return fmt.Sprintf("%s of %d items, marshalling item %d fails", k.name, size, at) }, func() string {
						w.Steps(1)
						c, cause := mk(), fmt.Errorf("marshalling item %d", at)
						before, calls := c.state(), 0
						_, err := c.marshal(func(x types.Hashable) ([]byte, error) {
							calls++
							if calls-1 == at {
								return nil, cause
							}
							return m(x)
						}, u)
						if err == nil {
							return "marshalling reported no error"
						}
						if !strings.Contains(err.Error(), cause.Error()) {
							return errf("marshalling reported %v, want %v", firstLine(err), cause)
						}
						if c.state() != before {
							return "marshalling changed the collection"
						}
						return ""
					})
					w.Case(func() string { return fmt.Sprintf("%s of %d items, unmarshalling item %d fails", k.name, size, at) }, func() string {
						w.Steps(1)
						c, cause := mk(), fmt.Errorf("unmarshalling item %d", at)
						b, err := c.marshal(m, u)
						if err != nil {
							return "marshalling failed"
						}
						calls := 0
						_, err = c.decode(b, m, func(b []byte) (types.Hashable, error) {
							calls++
							if calls-1 == at {
								return nil, cause
							}
							return u(b)
						})
						if err == nil {
							return "unmarshalling reported no error"
						}
						if !strings.Contains(err.Error(), cause.Error()) {
							return errf("unmarshalling reported %v, want %v", firstLine(err), cause)
						}
						return ""
					})
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("every collection size up to %d, every item failing", n)
		w.Sample("set of 3 items, unmarshalling item 2 fails")
	})
}
