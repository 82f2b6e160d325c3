// Package vsched is a deterministic scheduler for small concurrent programs. One thread runs at a time;
// before every synchronisation operation the running thread asks which thread goes next, and the explorer
// enumerates all answers.
//
// Executions are identified by their dependency order (which operations on the same object came in which
// order), not by their interleaving: two prefixes with the same dependency order are the same state and
// are expanded once.
package vsched

import (
	"fmt"
	"iter"
	"runtime/debug"
	"strings"
	"unsafe"
)

// MaxThreads bounds the number of threads of one execution.
const MaxThreads = 16

// Clock is a vector clock.
type Clock [MaxThreads]uint32

func (c *Clock) join(d *Clock) {
	for i, v := range d {
		if v > c[i] {
			c[i] = v
		}
	}
}

// Hash identifies a dependency order.
type Hash struct{ A, B uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	x *= 0xd6e8feb86659fd93
	x ^= x >> 32
	return x
}

func (h Hash) with(v uint64) Hash {
	return Hash{mix(h.A*0x9e3779b97f4a7c15 + v + 1), mix(h.B ^ (v+0x51ed2701)*0xc2b2ae3d27d4eb4f)}
}

func (h Hash) plus(o Hash) Hash { return Hash{h.A + o.A, h.B + o.B} }

// Obj is the scheduler's view of one synchronisation object.
type Obj struct {
	run   uint64
	class uint8
	cur   summary // events of the current group
	prev  summary // everything before the current group
	Rel   Clock   // synchronises-with clock released by the object
}

type summary struct {
	h  Hash
	vc Clock
}

// Fresh tells whether the object is used for the first time in this execution and makes it current.
func (o *Obj) Fresh() bool {
	if o.run == R0.id {
		return false
	}
	*o = Obj{run: R0.id}
	return true
}

// Excl is the class of operations that commute with nothing; operations of any other equal class commute.
const Excl = 0

// Thread is one goroutine of the program.
type Thread struct {
	ID   int
	Name string
	Lib  bool // started by the code under test
	Idle bool // runs only when no other thread can
	Done bool

	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	ready   func() bool // pending operation can run; nil means always
	what    string      // pending operation
	h       Hash        // hash of the last event
	dep     Clock       // dependency order
	hb      Clock       // happens-before order of the memory model
	seq     int         // markers
	kids    uint64
	started bool
}

// Decision is one branching point of an execution.
type Decision struct{ n, choice int }

// Run is one execution.
type Run struct {
	id      uint64
	x       *Explorer
	threads []*Thread
	cur     *Thread
	to      *Thread
	depth   int
	steps   int
	preempt int
	draws   int
	trace   Hash
	abort   bool
	pruned  bool
	free    bool // branching is on
	failed  string
	log     []string
	logging bool
	seq     int
	mem     map[unsafe.Pointer]*cell
}

// R0 is the execution in progress.
var R0 *Run

var runs uint64

type abortT struct{}

// Explorer enumerates all executions of a program.
type Explorer struct {
	MaxPreempt int // bound on preemptions, negative for none
	Policy     int // non-zero: follow this scheduler; MaxPreempt bounds the deviations from it
	MaxSteps   int
	MaxStates  int
	Tick       func() bool // called once per execution; false stops the exploration

	try     bool // the program uses try-operations
	restart bool
	stack   []Decision
	visited map[visitKey]struct{}

	Execs, Steps, Terminal int64
	MaxDepth               int
	Threads                int
	Incomplete             string
}

type visitKey struct {
	h      Hash
	cur, p int16
}

// States is the number of distinct states seen.
func (x *Explorer) States() int64 { return int64(len(x.visited)) }

// Explore enumerates the executions of prog. The result is the first failure with its trace, or "".
// prog starts as the main thread and returns the check to run when nothing can move any more.
func (x *Explorer) Explore(prog func() func() string) (failure string, trace []string, again int) {
	x.visited = map[visitKey]struct{}{}
	x.stack = nil
	if x.MaxSteps == 0 {
		x.MaxSteps = 20000
	}
	if x.MaxStates == 0 {
		x.MaxStates = 20 << 20
	}
	for {
		if x.Tick != nil && !x.Tick() {
			x.Incomplete = "time"
			return "", nil, 0
		}
		r := x.exec(prog, false)
		x.Execs++
		if x.restart {
			x.restart, x.try = false, true
			x.stack, x.visited = nil, map[visitKey]struct{}{}
			continue
		}
		if r.failed != "" {
			st := append([]Decision(nil), x.stack[:min(r.depth, len(x.stack))]...)
			for i := 0; i < 5; i++ {
				x.stack = append([]Decision(nil), st...)
				r2 := x.exec(prog, true)
				if r2.failed != "" {
					again++
					trace = r2.log
				}
			}
			return r.failed, trace, again
		}
		if !r.pruned {
			x.Terminal++
		}
		for len(x.stack) > 0 {
			d := &x.stack[len(x.stack)-1]
			if d.choice+1 < d.n {
				d.choice++
				break
			}
			x.stack = x.stack[:len(x.stack)-1]
		}
		if len(x.stack) == 0 || x.Incomplete == "states" {
			return "", nil, 0
		}
	}
}

func (x *Explorer) exec(prog func() func() string, logging bool) *Run {
	runs++
	r := &Run{id: runs, x: x, free: true, logging: logging, mem: map[unsafe.Pointer]*cell{}}
	R0 = r
	var check func() string
	m := r.spawn("main", false, func() { check = prog() })
	r.to = m
	for r.to != nil {
		t := r.to
		r.to = nil
		r.cur = t
		if !t.started {
			t.started = true
			t.event(3)
		}
		t.next()
		if t.Done && r.to == nil && !r.abort && r.failed == "" {
			r.to = r.decide(nil)
		}
	}
	if r.failed == "" && !r.abort {
		var stuck []string
		for _, t := range r.threads {
			if !t.Done && !t.Lib {
				stuck = append(stuck, t.Name+" in "+t.what)
			}
		}
		if len(stuck) > 0 {
			for _, t := range r.threads {
				if !t.Done && t.Lib {
					stuck = append(stuck, t.Name+" in "+t.what)
				}
			}
			r.failed = "blocked forever: " + strings.Join(stuck, ", ")
		} else if check != nil {
			r.cur = nil
			r.failed = check()
		}
	}
	r.abort = true
	for _, t := range r.threads {
		if !t.Done {
			t.stop()
		}
	}
	x.Steps += int64(r.steps)
	x.MaxDepth = max(x.MaxDepth, r.steps)
	x.Threads = max(x.Threads, len(r.threads))
	return r
}

func (r *Run) spawn(name string, lib bool, f func()) *Thread {
	t := &Thread{ID: len(r.threads), Name: name, Lib: lib, what: "start"}
	if t.ID >= MaxThreads {
		r.fail("more goroutines than the scheduler supports")
	}
	if p := r.cur; p != nil {
		p.kids++
		t.h = p.h.with(7000 + p.kids)
		t.dep, t.hb = p.dep, p.hb
	} else {
		t.h = Hash{1, 1}
	}
	t.hb[t.ID]++
	r.threads = append(r.threads, t)
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			t.Done = true
			if e := recover(); e != nil {
				if _, ok := e.(abortT); !ok && !r.abort {
					r.failed = fmt.Sprintf("panic in %s: %v%s", t.Name, e, site())
					r.to = nil
				}
			}
			if !r.abort {
				r.note(t, "ends")
			}
		}()
		f()
	})
	return t
}

func site() string {
	seen := false
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
		}
		if seen && strings.Contains(l, "data-structures/") && !strings.HasPrefix(l, "\t") {
			return " in " + l[:max(strings.LastIndex(l, "("), 0)]
		}
	}
	return ""
}

func (r *Run) note(t *Thread, s string) {
	if r.logging {
		r.log = append(r.log, t.Name+": "+s)
	}
}

// fail ends the execution with a violation.
func (r *Run) fail(s string) {
	if r.failed == "" {
		r.failed = s
	}
	r.abort = true
	panic(abortT{})
}

// Fail reports a violation seen by the running thread.
func Fail(format string, a ...interface{}) { R0.fail(fmt.Sprintf(format, a...)) }

// enabled collects the threads that can move; the running thread comes first.
func (r *Run) enabled(cur *Thread, buf []*Thread) []*Thread {
	for _, idle := range []bool{false, true} {
		if cur != nil && cur.Idle == idle && !cur.Done && (cur.ready == nil || cur.ready()) {
			buf = append(buf, cur)
		}
		for _, t := range r.threads {
			if t != cur && t.Idle == idle && !t.Done && (t.ready == nil || t.ready()) {
				buf = append(buf, t)
			}
		}
		if len(buf) > 0 {
			break
		}
	}
	return buf
}

// decide picks the thread that runs next; nil when nothing can move or the execution is cut off.
func (r *Run) decide(cur *Thread) *Thread {
	var arr [MaxThreads]*Thread
	en := r.enabled(cur, arr[:0])
	if len(en) == 0 {
		return nil
	}
	r.steps++
	if r.steps > r.x.MaxSteps {
		r.x.Incomplete = "steps"
		r.abort, r.pruned = true, true
		return nil
	}
	for _, t := range en {
		if !t.started { // starting a thread is independent of everything
			return t
		}
	}
	curOn := cur != nil && en[0] == cur
	if !r.free {
		for _, t := range en {
			if t.ID == 0 {
				return t
			}
		}
		r.free = true // the main thread, which prepares the state, cannot go on
	}
	n := len(en)
	if r.x.Policy != 0 {
		if r.preempt >= r.x.MaxPreempt {
			n = 1
		}
		k := r.choose(n, cur, true)
		if k < 0 {
			return nil
		}
		if k > 0 {
			r.preempt++
		}
		return en[(r.prefer(en, curOn)+k)%len(en)]
	}
	if r.x.MaxPreempt >= 0 && curOn && r.preempt >= r.x.MaxPreempt {
		n = 1
	}
	k := r.choose(n, cur, true)
	if k < 0 {
		return nil
	}
	if k > 0 && curOn {
		r.preempt++
	}
	return en[k]
}

// Schedulers to deviate from.
const (
	Keep   = 1 + iota // run a thread until it blocks, then the oldest
	Newest            // always the newest thread that can move
	Oldest            // always the oldest
	Turns             // take turns
	Policies
)

// prefer is the index of the thread the scheduler picks.
func (r *Run) prefer(en []*Thread, curOn bool) int {
	best := 0
	score := func(t *Thread) int {
		switch r.x.Policy {
		case Newest:
			return t.ID
		case Oldest:
			return -t.ID
		case Turns:
			return -(t.ID - r.cur.ID - 1 + 2*MaxThreads) % MaxThreads
		}
		if curOn && t == en[0] {
			return 1
		}
		return -t.ID
	}
	for i, t := range en {
		if score(t) > score(en[best]) {
			best = i
		}
	}
	return best
}

func (r *Run) choose(n int, cur *Thread, state bool) int {
	x := r.x
	if r.depth < len(x.stack) {
		d := x.stack[r.depth]
		if d.n != n {
			x.Incomplete = "the program is not deterministic"
			r.abort, r.pruned = true, true
			return -1
		}
		r.depth++
		return d.choice
	}
	if state {
		k := visitKey{h: r.trace}
		if x.MaxPreempt >= 0 {
			k.cur, k.p = -1, int16(r.preempt)
			if x.Policy != 0 {
				cur = r.cur
			}
			if cur != nil {
				k.cur = int16(cur.ID)
			}
		}
		if _, ok := x.visited[k]; ok && !r.logging {
			r.abort, r.pruned = true, true
			return -1
		}
		if len(x.visited) >= x.MaxStates {
			x.Incomplete = "states"
			r.abort, r.pruned = true, true
			return -1
		}
		x.visited[k] = struct{}{}
	}
	x.stack = append(x.stack, Decision{n: n})
	r.depth++
	return 0
}

// point is called before an operation: it lets the scheduler run other threads first. The operation can
// run only when ready (nil: always) says so.
func point(what string, ready func() bool) *Thread {
	r := R0
	if r == nil {
		panic("vsched: operation outside of an execution")
	}
	if r.abort {
		panic(abortT{})
	}
	t := r.cur
	t.what, t.ready = what, ready
	n := r.decide(t)
	if n != t {
		r.to = n
		if !t.yield(struct{}{}) || r.abort {
			panic(abortT{})
		}
	}
	t.ready = nil
	r.note(t, what)
	return t
}

// Access is one object touched by an event.
type Access struct {
	O     *Obj
	Class uint8
}

// event records that the running thread performed an operation on the objects.
func (t *Thread) event(code uint64, acc ...Access) {
	h := t.h.with(code)
	for _, a := range acc {
		o := a.O
		o.Fresh()
		p := &o.cur
		if a.Class != Excl && a.Class == o.class {
			p = &o.prev
		}
		h = h.with(p.h.A).with(p.h.B)
		t.dep.join(&p.vc)
	}
	t.dep[t.ID]++
	t.h = h
	R0.trace = R0.trace.plus(Hash{mix(h.A), mix(h.B)})
	for _, a := range acc {
		o := a.O
		if a.Class == Excl || a.Class != o.class {
			o.prev = o.cur
			o.class = a.Class
			o.cur.h = Hash{}
			o.cur.vc = o.prev.vc
		}
		o.cur.h = o.cur.h.plus(h)
		o.cur.vc.join(&t.dep)
	}
}

// Acquire makes everything released by o happen before what the thread does next.
func (t *Thread) Acquire(o *Obj) { t.hb.join(&o.Rel) }

// Release makes what the thread did so far happen before later acquisitions of o.
func (t *Thread) Release(o *Obj) {
	o.Rel.join(&t.hb)
	t.hb[t.ID]++
}

// Event performs one operation: scheduling point, then the recorded event.
func Event(what string, code uint64, ready func() bool, acc ...Access) *Thread {
	t := point(what, ready)
	t.event(code, acc...)
	return t
}

// Free performs an operation at which no branching is needed: releasing a lock or finishing a wait-group
// member can be moved before whatever other threads do, because operations that would notice cannot run
// before it. Try-operations do notice; once a program uses one, Free operations branch too.
func Free(what string, code uint64, acc ...Access) *Thread {
	r := R0
	if r != nil && !r.x.try {
		if r.abort {
			panic(abortT{})
		}
		t := r.cur
		r.steps++
		r.note(t, what)
		t.event(code, acc...)
		return t
	}
	return Event(what, code, nil, acc...)
}

// UsesTry is called by operations that can notice whether a lock is held.
func UsesTry() {
	if r := R0; r != nil && !r.x.try && !r.abort {
		r.x.restart = true
		r.abort, r.pruned = true, true
		panic(abortT{})
	}
}

// Touch records a further event of the running thread without a scheduling point.
func Touch(t *Thread, code uint64, acc ...Access) { t.event(code, acc...) }

// Go starts a thread on behalf of the code under test.
func Go(f func()) { start(fmt.Sprintf("goroutine%d", len(R0.threads)), true, f) }

// GoNamed starts a thread of the driver.
func GoNamed(name string, f func()) { start(name, false, f) }

// GoIdle starts a thread of the driver that moves only when no other thread can.
func GoIdle(name string, f func()) { start(name, false, f).Idle = true }

func start(name string, lib bool, f func()) *Thread {
	t := Free("go "+name, 1)
	n := R0.spawn(name, lib, f)
	t.hb[t.ID]++
	return n
}

// Sequential runs f as the only thread of an execution.
func Sequential(f func()) string {
	x := &Explorer{MaxPreempt: -1, MaxSteps: 1 << 60, MaxStates: 1 << 60, visited: map[visitKey]struct{}{}}
	r := x.exec(func() func() string { f(); return nil }, false)
	R0 = nil
	return r.failed
}

// Yield is a scheduling point without effect.
func Yield() { Free("yield", 2) }

// Sleep is Yield.
func Sleep(interface{}) { Yield() }

// Choose enumerates 0..n-1.
func Choose(n int) int {
	r := R0
	if n <= 1 {
		return 0
	}
	t := r.cur
	k := 0
	if r.free && r.x.Policy != 0 {
		m := n
		if r.preempt >= r.x.MaxPreempt {
			m = 1
		}
		if k = r.choose(m, t, false); k < 0 {
			panic(abortT{})
		}
		if k > 0 {
			r.preempt++
		}
		if r.x.Policy != Keep && r.x.Policy != Oldest {
			k = (k + r.draws) % n
			r.draws++
		}
	} else if r.free {
		k = r.choose(n, t, false)
		if k < 0 {
			panic(abortT{})
		}
	}
	t.event(100 + uint64(k))
	r.note(t, fmt.Sprintf("choice %d of %d", k, n))
	return k
}

// Prepare runs the following part of the main thread without branching, until Branch is called or the
// main thread cannot go on.
func Prepare() { R0.free = false }

// Branch turns branching on again.
func Branch() { R0.free = true }

// Mark is a point in the life of a thread.
type Mark struct {
	t   int
	k   uint32
	seq int
	vc  Clock
	set bool
}

// Now is the current point of the running thread.
func Now(what string) Mark {
	t := R0.cur
	t.seq++
	R0.note(t, what)
	return Mark{t: t.ID, k: t.dep[t.ID], seq: t.seq, vc: t.dep, set: true}
}

// Set tells whether the mark was taken.
func (m Mark) Set() bool { return m.set }

// Before tells whether m comes before n in every interleaving with this dependency order.
func (m Mark) Before(n Mark) bool {
	if m.t == n.t {
		return m.seq < n.seq
	}
	return n.vc[m.t] > m.k
}

// memory accesses

type cell struct {
	w  access
	rs []access
}

type access struct {
	t  int
	at uint32
	on bool
}

func (r *Run) touch(p unsafe.Pointer, write bool) {
	t := r.cur
	if t == nil || r.abort {
		return
	}
	c := r.mem[p]
	if c == nil {
		c = &cell{}
		r.mem[p] = c
	}
	if c.w.on && c.w.t != t.ID && c.w.at > t.hb[c.w.t] {
		r.race(t, c.w.t, write, true)
	}
	if write {
		for _, a := range c.rs {
			if a.t != t.ID && a.at > t.hb[a.t] {
				r.race(t, a.t, write, false)
			}
		}
		c.w = access{t.ID, t.hb[t.ID], true}
		c.rs = c.rs[:0]
		return
	}
	for i := range c.rs {
		if c.rs[i].t == t.ID {
			c.rs[i].at = t.hb[t.ID]
			return
		}
	}
	c.rs = append(c.rs, access{t.ID, t.hb[t.ID], true})
}

func (r *Run) race(t *Thread, o int, w1, w2 bool) {
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	r.fail(fmt.Sprintf("data race: %s by %s is not ordered with %s by %s", kind(w1), t.Name, kind(w2), r.threads[o].Name))
}

// R records a read of *p.
func R[T any](p *T) *T {
	if R0 != nil && p != nil && unsafe.Sizeof(*p) > 0 {
		R0.touch(unsafe.Pointer(p), false)
	}
	return p
}

// W records a write of *p.
func W[T any](p *T) *T {
	if R0 != nil && p != nil && unsafe.Sizeof(*p) > 0 {
		R0.touch(unsafe.Pointer(p), true)
	}
	return p
}

// RM records a read of a map.
func RM[M ~map[K]V, K comparable, V any](m M) M {
	if R0 != nil && m != nil {
		R0.touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false)
	}
	return m
}

// WM records a write of a map.
func WM[M ~map[K]V, K comparable, V any](m M) M {
	if R0 != nil && m != nil {
		R0.touch(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true)
	}
	return m
}

// SameThread tells whether both marks were taken by one thread.
func (m Mark) SameThread(n Mark) bool { return m.t == n.t }
