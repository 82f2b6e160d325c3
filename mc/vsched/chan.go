package vsched

// Chan models a channel.
type Chan[T any] struct {
	o      Obj
	cap    int
	buf    []item[T]
	closed bool
	recvq  []*waiter[T] // unbuffered channels only
	sendq  []*waiter[T]
	name   string
}

type item[T any] struct {
	v  T
	hb Clock
}

// waiter is a thread blocked on an unbuffered channel.
type waiter[T any] struct {
	t     *Thread
	v     T
	ok    bool
	op    *selOp
	index int
}

// selOp is shared by all cases of one blocked operation.
type selOp struct {
	done  bool
	index int
}

// MakeChan makes a channel.
func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.cap = n[0]
	}
	return c
}

// Len is len(c).
func Len[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	Event("len(chan)", 20, nil, Access{&c.o, Excl})
	return len(c.buf)
}

// Cap is cap(c).
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.cap
}

// Case is one case of a select.
type Case interface {
	obj() *Obj
	ready(self *Thread) bool
	do(t *Thread)
	enqueue(t *Thread, op *selOp, i int)
	finish(t *Thread)
	dequeue()
	String() string
}

// SendOp is a send case.
type SendOp[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

// RecvOp is a receive case; V and Ok hold the result.
type RecvOp[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
	w  *waiter[T]
}

// SendCase makes a send case.
func SendCase[T any](c *Chan[T], v T) *SendOp[T] { return &SendOp[T]{c: c, v: v} }

// RecvCase makes a receive case.
func RecvCase[T any](c *Chan[T]) *RecvOp[T] { return &RecvOp[T]{c: c} }

func (s *SendOp[T]) String() string { return "send" }
func (s *RecvOp[T]) String() string { return "receive" }

func (s *SendOp[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}

func (s *RecvOp[T]) obj() *Obj {
	if s.c == nil {
		return nil
	}
	return &s.c.o
}

func waiting[T any](q []*waiter[T], self *Thread) bool {
	for _, w := range q {
		if w.t != self && !w.op.done {
			return true
		}
	}
	return false
}

func pop[T any](q *[]*waiter[T], self *Thread) *waiter[T] {
	for i, w := range *q {
		if w.t != self && !w.op.done {
			*q = append(append([]*waiter[T]{}, (*q)[:i]...), (*q)[i+1:]...)
			return w
		}
	}
	return nil
}

func (s *SendOp[T]) ready(self *Thread) bool {
	c := s.c
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) < c.cap || waiting(c.recvq, self)
}

func (s *RecvOp[T]) ready(self *Thread) bool {
	c := s.c
	if c == nil {
		return false
	}
	return c.closed || len(c.buf) > 0 || waiting(c.sendq, self)
}

func (s *SendOp[T]) do(t *Thread) {
	c := s.c
	if c.closed {
		panic("send on closed channel")
	}
	if w := pop(&c.recvq, t); w != nil {
		w.v, w.ok = s.v, true
		w.op.done, w.op.index = true, w.index
		w.t.hb.join(&t.hb)
		t.hb.join(&w.t.hb)
		t.hb[t.ID]++
		w.t.hb[w.t.ID]++
		return
	}
	t.Acquire(&c.o)
	c.buf = append(c.buf, item[T]{s.v, t.hb})
	t.hb[t.ID]++
}

func (s *RecvOp[T]) do(t *Thread) {
	c := s.c
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		s.V, s.Ok = it.v, true
		t.hb.join(&it.hb)
		t.Release(&c.o)
		return
	}
	if w := pop(&c.sendq, t); w != nil {
		s.V, s.Ok = w.v, true
		w.op.done, w.op.index = true, w.index
		w.ok = true
		w.t.hb.join(&t.hb)
		t.hb.join(&w.t.hb)
		t.hb[t.ID]++
		w.t.hb[w.t.ID]++
		return
	}
	t.Acquire(&c.o)
}

func (s *SendOp[T]) enqueue(t *Thread, op *selOp, i int) {
	if s.c != nil && s.c.cap == 0 {
		s.w = &waiter[T]{t: t, v: s.v, op: op, index: i}
		s.c.sendq = append(s.c.sendq, s.w)
	}
}

func (s *RecvOp[T]) enqueue(t *Thread, op *selOp, i int) {
	if s.c != nil && s.c.cap == 0 {
		s.w = &waiter[T]{t: t, op: op, index: i}
		s.c.recvq = append(s.c.recvq, s.w)
	}
}

func drop[T any](q *[]*waiter[T], w *waiter[T]) {
	for i, x := range *q {
		if x == w {
			*q = append(append([]*waiter[T]{}, (*q)[:i]...), (*q)[i+1:]...)
			return
		}
	}
}

func (s *SendOp[T]) dequeue() {
	if s.w != nil {
		drop(&s.c.sendq, s.w)
	}
}

func (s *RecvOp[T]) dequeue() {
	if s.w != nil {
		drop(&s.c.recvq, s.w)
	}
}

func (s *SendOp[T]) finish(*Thread)   {}
func (s *RecvOp[T]) finish(t *Thread) { s.V, s.Ok = s.w.v, s.w.ok }

// Select performs a select statement and returns the index of the case taken, -1 for default.
func Select(def bool, cases ...Case) int {
	acc := make([]Access, 0, len(cases))
	unbuf := false
	what := ""
	for _, c := range cases {
		what += c.String() + " "
		if o := c.obj(); o != nil {
			acc = append(acc, Access{o, Excl})
		}
		unbuf = unbuf || unbuffered(c)
	}
	if len(cases) != 1 || def {
		what = "select " + what
	}
	if def {
		what += "default"
	}
	anyReady := func(t *Thread) bool {
		for _, c := range cases {
			if c.ready(t) {
				return true
			}
		}
		return false
	}
	self := R0.cur
	var t *Thread
	if def || unbuf {
		t = Event(what, 21, nil, acc...)
	} else {
		t = Event(what, 21, func() bool { return anyReady(self) }, acc...)
	}
	if !anyReady(t) {
		if def {
			return -1
		}
		op := &selOp{}
		for i, c := range cases {
			c.enqueue(t, op, i)
		}
		point("blocked in "+what, func() bool { return op.done || anyReady(t) })
		for _, c := range cases {
			c.dequeue()
		}
		t.event(22, acc...)
		if op.done {
			cases[op.index].finish(t)
			return op.index
		}
	}
	var idx [16]int
	list := idx[:0]
	for i, c := range cases {
		if c.ready(t) {
			list = append(list, i)
		}
	}
	i := list[Choose(len(list))]
	cases[i].do(t)
	return i
}

func unbuffered(c Case) bool {
	type u interface{ unbuf() bool }
	return c.(u).unbuf()
}

func (s *SendOp[T]) unbuf() bool { return s.c != nil && s.c.cap == 0 }
func (s *RecvOp[T]) unbuf() bool { return s.c != nil && s.c.cap == 0 }

// Send is c <- v.
func Send[T any](c *Chan[T], v T) { Select(false, SendCase(c, v)) }

// Recv is <-c.
func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is the two-value form of <-c.
func Recv2[T any](c *Chan[T]) (T, bool) {
	r := RecvCase(c)
	Select(false, r)
	return r.V, r.Ok
}

// Close is close(c).
func Close[T any](c *Chan[T]) {
	if c == nil {
		panic("close of nil channel")
	}
	t := Event("close", 23, nil, Access{&c.o, Excl})
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	t.Release(&c.o)
}

// RangeInit gives the initial variables of a loop over c.
func RangeInit[T any](c *Chan[T]) (*Chan[T], T, bool) {
	var v T
	return c, v, false
}
