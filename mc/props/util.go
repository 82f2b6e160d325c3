// Package props holds the per-property specifications: reference models, explored operation alphabets
// and oracles. Everything goes through the public API of the library.
package props

import (
	"fmt"
	"math"

	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// HK is a hashable key whose hash value is chosen by the explorer.
type HK struct {
	ID int
	H  int
}

func (k HK) Equals(o types.Equatable) bool {
	if b, ok := o.(HK); ok {
		return k.ID == b.ID
	}
	return false
}

func (k HK) Less(o types.Sortable) bool {
	if b, ok := o.(HK); ok {
		return k.ID < b.ID
	}
	return false
}

func (k HK) Hash() int { return k.H }

func (k HK) String() string { return fmt.Sprintf("k%d#%d", k.ID, k.H) }

const (
	minInt = math.MinInt64
	maxInt = math.MaxInt64
)

func errf(format string, args ...interface{}) string { return fmt.Sprintf(format, args...) }

// val renders a stored value.
func show(v interface{}) string {
	if v == nil {
		return "nil"
	}
	return fmt.Sprint(v)
}

// slot is a value which can not be compared with ==.
type slot []int

// oddValues are values a container must neither compare nor interpret: nil, a typed nil, an uncomparable
// one, one which differs from itself and zero values.
var oddValues = []interface{}{nil, (*int)(nil), slot{1}, math.NaN(), "", false}

// sameVal reports whether a is the very value b.
func sameVal(a, b interface{}) bool {
	switch x := a.(type) {
	case int:
		y, ok := b.(int)
		return ok && x == y
	case slot:
		y, ok := b.(slot)
		return ok && len(x) == len(y) && (len(x) == 0 || &x[0] == &y[0])
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	if _, ok := b.(slot); ok {
		return false
	}
	return a == b
}

// oddMap explores a map with values of every odd kind under keys which can not be compared with ==.
func oddMap(name string, mk func() types.MapOperable, ordered bool) engine.Job {
	keys := bkeys("a", "ab", "b", "c")
	return mapBFS(name, mapCfg{mk: mk, keys: keys, nkeys: 3, vals: len(oddValues), values: oddValues, ordered: ordered}, 0)
}

// pair is one entry yielded by an iterator.
type pair struct {
	k types.Hashable
	v interface{}
}

// drainKV collects a key/value iterator, at most max entries.
func drainKV(it types.KVIterator, max int) (r []pair, over bool) {
	if it == nil {
		return nil, false
	}
	k, v, next := it()
	for next != nil {
		r = append(r, pair{k, v})
		if len(r) > max {
			return r, true
		}
		k, v, next = next()
	}
	return r, false
}

func drainK(it types.KIterator, max int) (r []types.Hashable, over bool) {
	if it == nil {
		return nil, false
	}
	k, next := it()
	for next != nil {
		r = append(r, k)
		if len(r) > max {
			return r, true
		}
		k, next = next()
	}
	return r, false
}

func drainV(it types.Iterator, max int) (r []interface{}, over bool) {
	if it == nil {
		return nil, false
	}
	v, next := it()
	for next != nil {
		r = append(r, v)
		if len(r) > max {
			return r, true
		}
		v, next = next()
	}
	return r, false
}

// pausedK drains an iterator with pauses after 1, 2, 4, … entries, in each of which every one of the others
// is opened and drained: iterators must not disturb each other.
func pausedK(it types.KIterator, max int, others ...func() types.KIterator) (r []types.Hashable) {
	pause := 1
	for it != nil && len(r) <= max {
		var k types.Hashable
		if k, it = it(); it != nil {
			r = append(r, k)
		}
		if len(r) == pause {
			pause *= 2
			for _, o := range others {
				drainK(o(), max)
			}
		}
	}
	return
}

func pausedV(it types.Iterator, max int, others ...func() types.Iterator) (r []interface{}) {
	pause := 1
	for it != nil && len(r) <= max {
		var v interface{}
		if v, it = it(); it != nil {
			r = append(r, v)
		}
		if len(r) == pause {
			pause *= 2
			for _, o := range others {
				drainV(o(), max)
			}
		}
	}
	return
}

func pausedKV(it types.KVIterator, max int, others ...func() types.KVIterator) (r []pair) {
	pause := 1
	for it != nil && len(r) <= max {
		var p pair
		if p.k, p.v, it = it(); it != nil {
			r = append(r, p)
		}
		if len(r) == pause {
			pause *= 2
			for _, o := range others {
				drainKV(o(), max)
			}
		}
	}
	return
}

func keyEq(a, b types.Hashable) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a == b
}

func job(name string, f func(w *engine.W)) engine.Job { return engine.Job{Name: name, Run: f} }

func pick(quick bool, q, t int) int {
	if quick {
		return q
	}
	return t
}
