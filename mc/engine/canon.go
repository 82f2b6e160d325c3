// Package engine contains the explicit-state exploration machinery: canonical hashing of live object
// graphs, breadth-first state-graph exploration, exhaustive case enumeration and result reporting.
package engine

import (
	"math/bits"
	"reflect"
	"sort"
	"unsafe"
)

// Hash is a 128 bit canonical hash of an object graph. It does not depend on addresses: pointers are
// numbered in the order a deterministic walk meets them, so two isomorphic graphs hash alike and
// aliasing (two slices over one array, two pointers to one node) is part of the hash.
type Hash [2]uint64

const (
	k0 = 0x9E3779B97F4A7C15
	k1 = 0xD1B54A32D192ED03
	k2 = 0xA0761D6478BD642F
	k3 = 0xE7037ED1A0B428DB
)

func mum(a, b uint64) uint64 {
	hi, lo := bits.Mul64(a, b)
	return hi ^ lo
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

// Canon computes canonical hashes. HiddenSlots also hashes slice elements between len and cap.
type Canon struct {
	HiddenSlots bool
	a, b        uint64
	ids         map[ptrKey]uint64
	plans       map[reflect.Type]walker
	lastFuncs   int
}

type walker func(p unsafe.Pointer, c *Canon)

// NewCanon makes a Canon.
func NewCanon(hidden bool) *Canon {
	return &Canon{HiddenSlots: hidden, ids: map[ptrKey]uint64{}, plans: map[reflect.Type]walker{}}
}

func (c *Canon) mix(x uint64) {
	c.a = mum(c.a^x^k0, k1+bits.RotateLeft64(x, 23))
	c.b = mum(c.b^bits.RotateLeft64(x, 37)^k2, k3^c.a)
}

// Sum hashes all roots as one graph (sharing between roots is visible).
func (c *Canon) Sum(roots ...interface{}) Hash {
	c.a, c.b = k2, k1
	clear(c.ids)
	for i := range roots {
		c.iface(unsafe.Pointer(&roots[i]), reflect.TypeOf(&roots[i]).Elem())
	}
	return Hash{c.a, c.b}
}

func (c *Canon) plan(t reflect.Type) walker {
	if w, ok := c.plans[t]; ok {
		return w
	}
	// recursion goes through this indirection
	var w walker
	c.plans[t] = func(p unsafe.Pointer, c *Canon) { w(p, c) }
	w = c.mk(t)
	c.plans[t] = w
	return w
}

func directIface(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return true
	case reflect.Struct:
		return t.NumField() == 1 && directIface(t.Field(0).Type)
	case reflect.Array:
		return t.Len() == 1 && directIface(t.Elem())
	}
	return false
}

func typeTag(t reflect.Type) uint64 {
	h := uint64(1469598103934665603)
	for _, b := range []byte(t.String()) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	return h
}

var typeTags = map[reflect.Type]uint64{}

func (c *Canon) iface(p unsafe.Pointer, t reflect.Type) {
	v := reflect.NewAt(t, p).Elem()
	if v.IsNil() {
		c.mix(11)
		return
	}
	dt := v.Elem().Type()
	tag, ok := typeTags[dt]
	if !ok {
		tag = typeTag(dt)
		typeTags[dt] = tag
	}
	c.mix(tag)
	w := c.plan(dt)
	words := (*[2]unsafe.Pointer)(p)
	if directIface(dt) {
		w(unsafe.Pointer(&words[1]), c)
	} else {
		w(words[1], c)
	}
}

func (c *Canon) id(p unsafe.Pointer, t reflect.Type) (id uint64, seen bool) {
	k := ptrKey{p, t}
	id, seen = c.ids[k]
	if !seen {
		id = uint64(len(c.ids) + 1)
		c.ids[k] = id
	}
	return
}

func (c *Canon) mk(t reflect.Type) walker {
	switch t.Kind() {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return func(p unsafe.Pointer, c *Canon) { c.mix(uint64(*(*uint8)(p))) }
	case reflect.Int16, reflect.Uint16:
		return func(p unsafe.Pointer, c *Canon) { c.mix(uint64(*(*uint16)(p))) }
	case reflect.Int32, reflect.Uint32, reflect.Float32:
		return func(p unsafe.Pointer, c *Canon) { c.mix(uint64(*(*uint32)(p))) }
	case reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Uintptr, reflect.Float64:
		return func(p unsafe.Pointer, c *Canon) { c.mix(*(*uint64)(p)) }
	case reflect.Complex64, reflect.Complex128:
		n := t.Size() / 8
		return func(p unsafe.Pointer, c *Canon) {
			for i := uintptr(0); i < n; i++ {
				c.mix(*(*uint64)(unsafe.Add(p, i*8)))
			}
		}
	case reflect.String:
		return func(p unsafe.Pointer, c *Canon) {
			s := *(*string)(p)
			c.mix(uint64(len(s)))
			for len(s) > 0 {
				var x uint64
				n := 8
				if len(s) < n {
					n = len(s)
				}
				for i := 0; i < n; i++ {
					x |= uint64(s[i]) << (8 * i)
				}
				c.mix(x)
				s = s[n:]
			}
		}
	case reflect.Ptr:
		et := t.Elem()
		var ew walker
		return func(p unsafe.Pointer, c *Canon) {
			q := *(*unsafe.Pointer)(p)
			if q == nil {
				c.mix(13)
				return
			}
			id, seen := c.id(q, et)
			c.mix(id<<8 | 17)
			if !seen {
				if ew == nil {
					ew = c.plan(et)
				}
				ew(q, c)
			}
		}
	case reflect.Interface:
		return func(p unsafe.Pointer, c *Canon) { c.iface(p, t) }
	case reflect.Slice:
		et := t.Elem()
		es := et.Size()
		var ew walker
		return func(p unsafe.Pointer, c *Canon) {
			s := (*struct {
				d        unsafe.Pointer
				len, cap int
			})(p)
			if s.d == nil {
				c.mix(19)
				return
			}
			c.mix(uint64(s.len)<<8 | 23)
			c.mix(uint64(s.cap))
			if s.cap > 0 && es > 0 {
				id, _ := c.id(s.d, t)
				c.mix(id)
			}
			if ew == nil {
				ew = c.plan(et)
			}
			n := s.len
			if c.HiddenSlots {
				n = s.cap
			}
			for i := 0; i < n; i++ {
				ew(unsafe.Add(s.d, uintptr(i)*es), c)
			}
		}
	case reflect.Array:
		ew := c.plan(t.Elem())
		n, es := t.Len(), t.Elem().Size()
		return func(p unsafe.Pointer, c *Canon) {
			for i := 0; i < n; i++ {
				ew(unsafe.Add(p, uintptr(i)*es), c)
			}
		}
	case reflect.Struct:
		type fl struct {
			off uintptr
			w   walker
		}
		var fs []fl
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Type.Size() == 0 {
				continue
			}
			fs = append(fs, fl{f.Offset, c.plan(f.Type)})
		}
		return func(p unsafe.Pointer, c *Canon) {
			for i := range fs {
				fs[i].w(unsafe.Add(p, fs[i].off), c)
			}
		}
	case reflect.Map:
		kt, vt := t.Key(), t.Elem()
		return func(p unsafe.Pointer, c *Canon) {
			m := reflect.NewAt(t, p).Elem()
			if m.IsNil() {
				c.mix(29)
				return
			}
			id, seen := c.id(*(*unsafe.Pointer)(p), t)
			c.mix(id<<8 | 31)
			if seen {
				return
			}
			c.mix(uint64(m.Len()))
			type ent struct {
				h    Hash
				k, v reflect.Value
			}
			var es []ent
			it := m.MapRange()
			for it.Next() {
				k := reflect.New(kt)
				k.Elem().Set(it.Key())
				v := reflect.New(vt)
				v.Elem().Set(it.Value())
				sub := NewCanon(c.HiddenSlots)
				sub.a, sub.b = k2, k1
				sub.plan(kt)(k.UnsafePointer(), sub)
				es = append(es, ent{Hash{sub.a, sub.b}, k, v})
			}
			sort.Slice(es, func(i, j int) bool {
				if es[i].h[0] != es[j].h[0] {
					return es[i].h[0] < es[j].h[0]
				}
				return es[i].h[1] < es[j].h[1]
			})
			for _, e := range es {
				c.mix(e.h[0])
				c.mix(e.h[1])
				c.plan(vt)(e.v.UnsafePointer(), c)
			}
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return func(p unsafe.Pointer, c *Canon) {
			q := *(*unsafe.Pointer)(p)
			if q == nil {
				c.mix(37)
				return
			}
			id, _ := c.id(q, t)
			c.mix(id<<8 | 41)
		}
	}
	return func(p unsafe.Pointer, c *Canon) { c.mix(43) }
}
