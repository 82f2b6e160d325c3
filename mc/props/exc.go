package props

import (
	"fmt"
	"io"
	"strings"

	"github.com/timtadh/data-structures/exc"
	"verif/mc/engine"
)

// Exception types thrown by the explored programs. excB and excC inherit from excA, which inherits from
// exc.Exception; excX and excV are throwables of their own.
type excA struct{ exc.Exception }
type excB struct{ excA }
type excC struct {
	excA
	code int
}
type excX struct {
	id   int
	data *exc.Exception
}
type excV struct{ p *exc.Exception }

func (x *excX) Exc() *exc.Exception { return x.data }
func (x *excX) Error() string       { return fmt.Sprintf("X%d %v", x.id, x.data) }
func (x *excX) Chain(e *exc.Error) exc.Throwable {
	x.data.Errors = append(x.data.Errors, e)
	return x
}
func (v excV) Exc() *exc.Exception { return v.p }
func (v excV) Error() string       { return "V" + v.p.Error() }
func (v excV) Chain(e *exc.Error) exc.Throwable {
	v.p.Errors = append(v.p.Errors, e)
	return v
}

// The types, by index; parent is the type inherited from.
var excTypes = []struct {
	name   string
	parent int
	proto  exc.Throwable
}{
	{"Exception", -1, &exc.Exception{}},
	{"A", 0, &excA{}},
	{"B", 1, &excB{}},
	{"C", 1, (*excC)(nil)},
	{"X", -1, &excX{}},
	{"V", -1, excV{}},
}

func isaRef(t, of int) bool {
	for ; t >= 0; t = excTypes[t].parent {
		if t == of {
			return true
		}
	}
	return false
}

// A statement of a program.
type stmt struct {
	kind  string // nop, throw, throwf, throwerr, throwon, throwonnil, panic, rethrow, block, seq
	typ   int    // of throw
	block *block
	then  *stmt
}

type handler struct {
	typ int
	do  stmt
}

type block struct {
	mode      int // 0 Unwind, 1 Error, 2 Exception
	body      stmt
	res       *resource // a resource block
	catches   []handler
	finallies []stmt
	early     bool // finallies declared before the catches
	twice     bool // the same block is run two times
}

// resource describes what a resource block's functions do, one entry per run.
type resource struct {
	name  string
	make  []string // ok, nil, throw, error, panic
	body  []stmt
	close []string // ok, error, throw, throwA
}

func (s stmt) String() string {
	switch s.kind {
	case "throw":
		return "throw " + excTypes[s.typ].name
	case "block":
		r := s.block.String()
		if s.then != nil {
			r += "; " + s.then.String()
		}
		return r
	}
	return s.kind
}

func (b *block) String() string {
	var r strings.Builder
	if b.res != nil {
		fmt.Fprintf(&r, "close %s{make %v; body %v; close %v}", b.res.name, b.res.make, b.res.body, b.res.close)
	} else {
		fmt.Fprintf(&r, "try {%v}", b.body)
	}
	f := func() {
		for _, x := range b.finallies {
			fmt.Fprintf(&r, " finally {%v}", x)
		}
	}
	if b.early {
		f()
	}
	for _, h := range b.catches {
		fmt.Fprintf(&r, " catch %s {%v}", excTypes[h.typ].name, h.do)
	}
	if !b.early {
		f()
	}
	r.WriteString([]string{" unwind", " error", " exception"}[b.mode])
	if b.twice {
		r.WriteString(" twice")
	}
	return r.String()
}

// The reference interpreter. An exception is a record; a panic is a string.

type refExc struct {
	id   int
	typ  int
	errs []string
}

func (e *refExc) String() string {
	if e == nil {
		return "none"
	}
	return fmt.Sprintf("%s#%d%v", excTypes[e.typ].name, e.id, e.errs)
}

type signal struct {
	exc *refExc
	pan string
}

type refEnv struct {
	log    []string
	n      int
	runsOf map[*resource]int
	// which of two exceptions leaves is free; choices says for each such place in turn whether it is
	// the earlier one
	choices []bool
	at      int
}

// earlier reports whether the earlier of two exceptions survives here.
func (v *refEnv) earlier() bool {
	if v.at == len(v.choices) {
		v.choices = append(v.choices, false)
	}
	v.at++
	return v.choices[v.at-1]
}

func (v *refEnv) logf(f string, a ...interface{}) { v.log = append(v.log, fmt.Sprintf(f, a...)) }

func (v *refEnv) fresh(typ int, what string) *refExc {
	v.n++
	return &refExc{v.n, typ, []string{fmt.Sprintf("%s%d", what, v.n)}}
}

func (v *refEnv) stmt(s stmt, cur *refExc) signal {
	switch s.kind {
	case "nop", "throwonnil":
		v.logf("%s", s.kind)
	case "throw":
		return signal{exc: v.fresh(s.typ, "e")}
	case "throwf", "throwerr", "throwon":
		return signal{exc: v.fresh(0, s.kind)}
	case "panic", "panicerr", "panicnilmap":
		return signal{pan: s.kind}
	case "rethrow":
		if cur == nil {
			v.logf("nothing to rethrow")
			return signal{}
		}
		v.n++
		cur.errs = append(cur.errs, fmt.Sprintf("r%d", v.n))
		return signal{exc: cur}
	case "block":
		if g := v.block(s.block, cur); g != (signal{}) {
			return g
		}
		if s.then != nil {
			return v.stmt(*s.then, cur)
		}
	}
	return signal{}
}

func (v *refEnv) resource(r *resource, cur *refExc) signal {
	i := v.runsOf[r]
	v.runsOf[r]++
	at := func(n int) int {
		if i < n {
			return i
		}
		return n - 1
	}
	v.logf("make %s", r.name)
	switch r.make[at(len(r.make))] {
	case "throw":
		return signal{exc: v.fresh(1, "e")}
	case "error":
		return signal{exc: v.fresh(0, "throwon")}
	case "panic":
		return signal{pan: "panic"}
	case "nil":
		v.logf("use nil")
		return v.stmt(r.body[at(len(r.body))], cur)
	}
	v.logf("use %s%d", r.name, i)
	g := v.stmt(r.body[at(len(r.body))], cur)
	if g.pan != "" {
		return g
	}
	v.logf("close %s%d", r.name, i)
	var c signal
	switch r.close[at(len(r.close))] {
	case "error":
		c = signal{exc: v.fresh(0, "throwon")}
	case "throw":
		c = signal{exc: v.fresh(0, "e")}
	case "throwA":
		c = signal{exc: v.fresh(1, "e")}
	}
	if c.exc != nil && (g.exc == nil || !v.earlier()) {
		return c
	}
	return g
}

func (v *refEnv) block(b *block, cur *refExc) signal {
	n := 1
	if b.twice {
		n = 2
	}
	for ; n > 0; n-- {
		var g signal
		if b.res != nil {
			g = v.resource(b.res, cur)
		} else {
			g = v.stmt(b.body, cur)
		}
		if g.pan != "" {
			return g
		}
		if g.exc != nil {
			for i, h := range b.catches {
				if isaRef(g.exc.typ, h.typ) {
					v.logf("catch %d of %v", i, g.exc)
					g = v.stmt(h.do, g.exc)
					if g.pan != "" {
						return g
					}
					break
				}
			}
		}
		for i, f := range b.finallies {
			v.logf("finally %d", i)
			x := v.stmt(f, cur)
			if x.pan != "" {
				return x
			}
			if x.exc != nil && (g.exc == nil || !v.earlier()) {
				g = x
			}
		}
		switch b.mode {
		case 0:
			if g.exc != nil {
				return g
			}
		case 1:
			v.logf("error %v", g.exc)
		case 2:
			v.logf("exception %v", g.exc)
		}
	}
	return signal{}
}

// The real execution.

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

type realEnv struct {
	log    []string
	n      int
	known  map[interface{}]int // throwables and wrapped errors by identity
	runsOf map[*resource]int
}

func (v *realEnv) logf(f string, a ...interface{}) { v.log = append(v.log, fmt.Sprintf(f, a...)) }

func (v *realEnv) err(msg string) *exc.Error { return &exc.Error{Err: &plainErr{msg}} }

func (v *realEnv) make(typ int) exc.Throwable {
	v.n++
	e := exc.Exception{Errors: []*exc.Error{v.err(fmt.Sprintf("e%d", v.n))}}
	var t exc.Throwable
	switch typ {
	case 0:
		t = &e
	case 1:
		t = &excA{e}
	case 2:
		t = &excB{excA{e}}
	case 3:
		t = &excC{excA{e}, v.n}
	case 4:
		t = &excX{v.n, &e}
	case 5:
		t = excV{&e}
	}
	v.known[t] = v.n
	return t
}

// name describes a throwable like the reference does.
func (v *realEnv) name(t exc.Throwable) string {
	if t == nil {
		return "none"
	}
	typ := -1
	switch t.(type) {
	case *exc.Exception:
		typ = 0
	case *excA:
		typ = 1
	case *excB:
		typ = 2
	case *excC:
		typ = 3
	case *excX:
		typ = 4
	case excV:
		typ = 5
	}
	if typ < 0 {
		return fmt.Sprintf("unknown type %T", t)
	}
	var errs []string
	for _, e := range t.Exc().Errors {
		if e == nil || e.Err == nil {
			errs = append(errs, "nil")
			continue
		}
		errs = append(errs, e.Err.Error())
	}
	id, ok := v.known[t]
	if !ok && typ == 0 && len(t.Exc().Errors) > 0 { // made by the library from an error
		e := t.Exc().Errors[0]
		if id, ok = v.known[e]; !ok {
			id, ok = v.known[e.Err]
		}
		if !ok && strings.HasPrefix(errs[0], "throwf") {
			fmt.Sscanf(errs[0], "throwf%d", &id)
			ok = true
		}
		v.known[t] = id
	}
	if !ok {
		return fmt.Sprintf("%s, not the one thrown", excTypes[typ].name)
	}
	return fmt.Sprintf("%s#%d%v", excTypes[typ].name, id, errs)
}

func (v *realEnv) stmt(s stmt, cur exc.Throwable) {
	switch s.kind {
	case "nop":
		v.logf("nop")
	case "throwonnil":
		exc.ThrowOnError(nil)
		v.logf("throwonnil")
	case "throw":
		exc.Throw(v.make(s.typ))
	case "throwf":
		v.n++
		exc.Throwf("throwf%d", v.n)
	case "throwerr":
		v.n++
		e := v.err(fmt.Sprintf("throwerr%d", v.n))
		v.known[e] = v.n
		exc.ThrowErr(e)
	case "throwon":
		v.throwOn()
	case "panic":
		panic("panic")
	case "panicerr":
		panic(&plainErr{"panicerr"})
	case "panicnilmap":
		var m map[int]int
		m[0] = 1
	case "rethrow":
		if cur == nil {
			v.logf("nothing to rethrow")
			return
		}
		v.n++
		exc.Rethrow(cur, v.err(fmt.Sprintf("r%d", v.n)))
	case "block":
		v.block(s.block, cur)
		if s.then != nil {
			v.stmt(*s.then, cur)
		}
	}
}

func (v *realEnv) throwOn() { exc.ThrowOnError(v.plain()) }

func (v *realEnv) plain() error {
	v.n++
	e := &plainErr{fmt.Sprintf("throwon%d", v.n)}
	v.known[error(e)] = v.n
	return e
}

type closer struct {
	v    *realEnv
	r    *resource
	i    int
	mode string
}

func (c *closer) Close() error {
	c.v.logf("close %s%d", c.r.name, c.i)
	switch c.mode {
	case "error":
		return c.v.plain()
	case "throw":
		exc.Throw(c.v.make(0))
	case "throwA":
		exc.Throw(c.v.make(1))
	}
	return nil
}

func (v *realEnv) resource(r *resource, cur exc.Throwable) *exc.Block {
	i := -1
	at := func(n int) int {
		if i < n {
			return i
		}
		return n - 1
	}
	return exc.Close(func() io.Closer {
		i = v.runsOf[r]
		v.runsOf[r]++
		v.logf("make %s", r.name)
		switch r.make[at(len(r.make))] {
		case "throw":
			exc.Throw(v.make(1))
		case "error":
			v.throwOn()
		case "panic":
			panic("panic")
		case "nil":
			return nil
		}
		return &closer{v, r, i, r.close[at(len(r.close))]}
	}, func(c io.Closer) {
		if c == nil {
			v.logf("use nil")
		} else {
			x := c.(*closer)
			v.logf("use %s%d", x.r.name, x.i)
		}
		v.stmt(r.body[at(len(r.body))], cur)
	})
}

func (v *realEnv) block(b *block, cur exc.Throwable) {
	var x *exc.Block
	if b.res != nil {
		x = v.resource(b.res, cur)
	} else {
		x = exc.Try(func() { v.stmt(b.body, cur) })
	}
	finallies := func() {
		for i, f := range b.finallies {
			x = x.Finally(func() {
				v.logf("finally %d", i)
				v.stmt(f, cur)
			})
		}
	}
	if b.early {
		finallies()
	}
	for i, h := range b.catches {
		x = x.Catch(excTypes[h.typ].proto, func(t exc.Throwable) {
			v.logf("catch %d of %s", i, v.name(t))
			v.stmt(h.do, t)
		})
	}
	if !b.early {
		finallies()
	}
	n := 1
	if b.twice {
		n = 2
	}
	for ; n > 0; n-- {
		switch b.mode {
		case 0:
			x.Unwind()
		case 1:
			err := x.Error()
			if err == nil {
				v.logf("error none")
			} else if t, ok := err.(exc.Throwable); ok {
				v.logf("error %s", v.name(t))
			} else {
				v.logf("error of type %T", err)
			}
		case 2:
			v.logf("exception %s", v.name(x.Exception()))
		}
	}
}

// run executes a program for real and describes how it ended.
func (v *realEnv) run(b *block) (end string) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case exc.Throwable:
			end = "unwinding " + v.name(e)
		case *plainErr:
			end = "panic panicerr"
		case error:
			if !strings.Contains(e.Error(), "nil map") {
				panic(e)
			}
			end = "panic panicnilmap"
		default:
			end = fmt.Sprintf("panic %v", e)
		}
	}()
	v.block(b, nil)
	return "returned"
}

func (v *refEnv) run(b *block) string {
	switch g := v.block(b, nil); {
	case g.pan != "":
		return "panic " + g.pan
	case g.exc != nil:
		return "unwinding " + g.exc.String()
	}
	return "returned"
}

// runProgram compares the real run with the reference.
func runProgram(w *engine.W, b *block) {
	w.Case(b.String, func() string {
		real := &realEnv{known: map[interface{}]int{}, runsOf: map[*resource]int{}}
		end := real.run(b)
		got := strings.Join(append(real.log, end), "\n")
		w.Steps(len(real.log) + 1)
		var want string
		var choices []bool
		for {
			ref := &refEnv{choices: choices, runsOf: map[*resource]int{}}
			end := ref.run(b)
			s := strings.Join(append(ref.log, end), "\n")
			if s == got {
				w.DistinctStr(got)
				return ""
			}
			if want == "" {
				want = s
			}
			// the next combination of choices
			choices = ref.choices[:ref.at]
			for len(choices) > 0 && choices[len(choices)-1] {
				choices = choices[:len(choices)-1]
			}
			if len(choices) == 0 {
				break
			}
			choices[len(choices)-1] = true
		}
		return errf("the program did\n%s\nwant\n%s", got, want)
	})
}

// Enumeration.

var nop = stmt{kind: "nop"}

func throwOf(typ int) stmt { return stmt{kind: "throw", typ: typ} }

// handlersOver are all catches of the types with the handlers.
func handlersOver(typs []int, dos []stmt) (r []handler) {
	for _, t := range typs {
		for _, d := range dos {
			r = append(r, handler{t, d})
		}
	}
	return
}

// catchLists are all lists of at most n handlers.
func catchLists(hs []handler, n int) [][]handler {
	r := [][]handler{nil}
	lo := 0
	for ; n > 0; n-- {
		hi := len(r)
		for _, l := range r[lo:hi] {
			for _, h := range hs {
				r = append(r, append(l[:len(l):len(l)], h))
			}
		}
		lo = hi
	}
	return r
}

func stmtLists(ss []stmt, n int) [][]stmt {
	r := [][]stmt{nil}
	lo := 0
	for ; n > 0; n-- {
		hi := len(r)
		for _, l := range r[lo:hi] {
			for _, s := range ss {
				r = append(r, append(l[:len(l):len(l)], s))
			}
		}
		lo = hi
	}
	return r
}

// blocks calls f with every block over the given parts.
func blocks(bodies []stmt, catches [][]handler, finallies [][]stmt, early []bool, f func(b *block)) {
	for _, body := range bodies {
		for _, c := range catches {
			for _, fin := range finallies {
				for _, e := range early {
					if e && (len(c) == 0 || len(fin) == 0) {
						continue
					}
					for mode := 0; mode < 3; mode++ {
						f(&block{mode: mode, body: body, catches: c, finallies: fin, early: e})
					}
				}
			}
		}
	}
}

func c26jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	rethrow := stmt{kind: "rethrow"}
	pan := stmt{kind: "panic"}
	bothOrders := []bool{false, true}
	late := []bool{false}

	// flat blocks: every body, up to two catches, up to two finallies
	var bodies []stmt
	bodies = append(bodies, nop)
	for t := range excTypes {
		bodies = append(bodies, throwOf(t))
	}
	for _, k := range []string{"panic", "panicerr", "panicnilmap", "throwerr", "throwon", "throwonnil", "throwf"} {
		bodies = append(bodies, stmt{kind: k})
	}
	for _, body := range bodies {
		jobs = append(jobs, job("flat-"+strings.ReplaceAll(body.String(), " ", "-"), func(w *engine.W) {
			dos := []stmt{nop, rethrow, throwOf(2), pan}
			hs := handlersOver([]int{0, 1, 2, 3, 4, 5}, dos)
			fins := stmtLists([]stmt{nop, throwOf(1), pan}, 2)
			blocks([]stmt{body}, catchLists(hs, 2), fins, bothOrders, func(b *block) { runProgram(w, b) })
			w.Res.Bound = "one block, up to 2 catches and 2 finallies"
		}))
	}
	// long lists: only the first matching catch, all finallies
	jobs = append(jobs, job("many", func(w *engine.W) {
		hs := handlersOver([]int{0, 1, 2, 4}, []stmt{nop, rethrow})
		fins := append(stmtLists([]stmt{nop, throwOf(0)}, pick(q, 3, 4)), []stmt{nop, nop, nop, nop, nop})
		blocks([]stmt{nop, throwOf(0), throwOf(2), throwOf(4)}, catchLists(hs, 3), fins, late, func(b *block) { runProgram(w, b) })
		w.Res.Bound = "one block, up to 3 catches and 3 to 5 finallies"
	}))
	// a block run twice
	jobs = append(jobs, job("twice", func(w *engine.W) {
		hs := handlersOver([]int{0, 1, 2, 5}, []stmt{nop, rethrow, throwOf(1)})
		blocks([]stmt{nop, throwOf(0), throwOf(1), throwOf(2), throwOf(5), pan}, catchLists(hs, 2), stmtLists([]stmt{nop, throwOf(1)}, 2), late, func(b *block) {
			b.twice = true
			runProgram(w, b)
		})
		w.Res.Bound = "one block run two times, up to 2 catches and 2 finallies"
	}))

	// nested blocks: inner blocks in the body, in a handler and in a finally function
	inner := func(f func(b *block)) {
		hs := handlersOver([]int{0, 1, 2}, []stmt{nop, rethrow, throwOf(2)})
		blocks([]stmt{nop, throwOf(0), throwOf(1), throwOf(2), throwOf(4), pan, rethrow}, catchLists(hs, 1), stmtLists([]stmt{nop, throwOf(1), rethrow}, 1), late, f)
	}
	outerHandlers := handlersOver([]int{0, 1, 2, 4}, []stmt{nop, rethrow, throwOf(0)})
	outerFins := stmtLists([]stmt{nop, throwOf(0)}, pick(q, 1, 2))
	var inners []*block
	inner(func(b *block) { inners = append(inners, b) })
	thens := []*stmt{nil}
	if !q {
		thens = append(thens, &stmt{kind: "throw", typ: 3})
	}
	for mode := 0; mode < 3; mode++ {
		name := []string{"unwind", "error", "exception"}[mode]
		jobs = append(jobs, job("in-body-"+name, func(w *engine.W) {
			for _, in := range inners {
				for _, then := range thens {
					for _, c := range catchLists(outerHandlers, 1) {
						for _, f := range outerFins {
							runProgram(w, &block{mode: mode, body: stmt{kind: "block", block: in, then: then}, catches: c, finallies: f})
						}
					}
				}
			}
			w.Res.Bound = "a block in the body of a block"
		}))
		jobs = append(jobs, job("in-handler-"+name, func(w *engine.W) {
			for _, in := range inners {
				for _, then := range append([]*stmt{{kind: "rethrow"}}, thens...) {
					for _, body := range []stmt{throwOf(0), throwOf(1), throwOf(2), throwOf(5)} {
						for _, catch := range []int{0, 1, 5} {
							for _, f := range outerFins {
								runProgram(w, &block{mode: mode, body: body, catches: []handler{{catch, stmt{kind: "block", block: in, then: then}}, {0, nop}}, finallies: f})
							}
						}
					}
				}
			}
			w.Res.Bound = "a block in a handler"
		}))
		jobs = append(jobs, job("in-finally-"+name, func(w *engine.W) {
			for _, in := range inners {
				for _, body := range []stmt{nop, throwOf(0), throwOf(2)} {
					for _, c := range catchLists(outerHandlers[:6], 1) {
						for _, after := range [][]stmt{nil, {nop}} {
							runProgram(w, &block{mode: mode, body: body, catches: c, finallies: append([]stmt{{kind: "block", block: in}}, after...)})
						}
					}
				}
			}
			w.Res.Bound = "a block in a finally function"
		}))
	}
	// three levels
	for part := 0; part < 6; part++ {
		jobs = append(jobs, threeLevels(q, part))
	}
	return append(jobs, excFamilyJobs(tier)...)
}

func threeLevels(q bool, part int) engine.Job {
	rethrow := stmt{kind: "rethrow"}
	late := []bool{false}
	return job(fmt.Sprintf("three-levels-%d", part), func(w *engine.W) {
		var small []*block
		hs := handlersOver([]int{0, 2}, []stmt{nop, rethrow})
		blocks([]stmt{nop, throwOf(0), throwOf(2)}, catchLists(hs, 1), stmtLists([]stmt{nop, throwOf(1), rethrow}[:pick(q, 2, 3)], 1), late, func(b *block) { small = append(small, b) })
		wrap := func(s stmt, f func(b *block)) {
			for mode := 0; mode < 3; mode++ {
				for _, c := range catchLists(hs, 1) {
					for _, fin := range stmtLists([]stmt{nop}, 1) {
						f(&block{mode: mode, body: s, catches: c, finallies: fin})
						for _, body := range []stmt{throwOf(2)} {
							f(&block{mode: mode, body: body, catches: append([]handler{{1, s}}, c...), finallies: fin})
						}
						f(&block{mode: mode, body: throwOf(0), catches: c, finallies: append([]stmt{s}, fin...)})
					}
				}
			}
		}
		for i, b := range small {
			if i%6 != part {
				continue
			}
			wrap(stmt{kind: "block", block: b}, func(b2 *block) {
				wrap(stmt{kind: "block", block: b2}, func(b3 *block) {
					runProgram(w, b3)
				})
			})
		}
		w.Res.Bound = "a sixth of the blocks nested three deep in body, handler or finally position"
	})
}

func c27jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	rethrow := stmt{kind: "rethrow"}
	makes := []string{"ok", "nil", "throw", "error", "panic"}
	closes := []string{"ok", "error", "throw", "throwA"}
	bodies := []stmt{nop, throwOf(0), throwOf(1), throwOf(4), {kind: "throwon"}, {kind: "panic"}}
	hs := handlersOver([]int{0, 1, 4}, []stmt{nop, rethrow, throwOf(2), {kind: "panic"}})
	fins := stmtLists([]stmt{nop, throwOf(0)}, 2)
	each := func(ms []string, bs []stmt, cs []string, f func(r *resource)) {
		for _, m := range ms {
			for _, b := range bs {
				for _, c := range cs {
					f(&resource{"r", []string{m}, []stmt{b}, []string{c}})
				}
			}
		}
	}
	for mode := 0; mode < 3; mode++ {
		name := []string{"unwind", "error", "exception"}[mode]
		jobs = append(jobs, job("one-"+name, func(w *engine.W) {
			each(makes, bodies, closes, func(r *resource) {
				for _, c := range catchLists(hs, 2) {
					for _, f := range fins {
						for _, early := range []bool{false, true} {
							runProgram(w, &block{mode: mode, res: r, catches: c, finallies: f, early: early})
						}
					}
				}
			})
			w.Res.Bound = "one resource block, up to 2 catches and 2 finallies"
		}))
		// the same block run twice with different outcomes
		jobs = append(jobs, job("twice-"+name, func(w *engine.W) {
			each(makes[:4], bodies[:3], closes[:3], func(a *resource) {
				each(makes, bodies[:3], closes[:3], func(b *resource) {
					for _, c := range catchLists(hs[:6], 1) {
						for _, f := range stmtLists([]stmt{nop}, 1) {
							r := &resource{"r", append(a.make[:1:1], b.make...), append(a.body[:1:1], b.body...), append(a.close[:1:1], b.close...)}
							runProgram(w, &block{mode: mode, res: r, catches: c, finallies: f, twice: true})
						}
					}
				})
			})
			w.Res.Bound = "one resource block run two times, every pair of outcomes"
		}))
		// a resource block within the body of another, and within handlers and finallies of ordinary blocks
		jobs = append(jobs, job("nested-"+name, func(w *engine.W) {
			for _, im := range []int{0, 1, 2} {
				each(makes, bodies[:5], closes, func(in *resource) {
					for _, ic := range catchLists(hs[:3], 1) {
						inner := &block{mode: im, res: &resource{"s", in.make, in.body, in.close}, catches: ic}
						each(makes[:2], []stmt{{kind: "block", block: inner}, {kind: "block", block: inner, then: &stmt{kind: "throw", typ: 1}}}, closes[:pick(q, 2, 4)], func(out *resource) {
							for _, oc := range catchLists(hs[:2], 1) {
								runProgram(w, &block{mode: mode, res: out, catches: oc, finallies: []stmt{nop}})
							}
						})
						runProgram(w, &block{mode: mode, body: throwOf(2), catches: []handler{{0, stmt{kind: "block", block: inner}}}, finallies: []stmt{nop}})
						runProgram(w, &block{mode: mode, body: nop, finallies: []stmt{{kind: "block", block: inner}, nop}})
						runProgram(w, &block{mode: mode, body: throwOf(1), finallies: []stmt{{kind: "block", block: inner}, nop}})
						runProgram(w, &block{mode: mode, body: stmt{kind: "block", block: inner}, catches: []handler{{1, rethrow}, {0, nop}}, finallies: []stmt{nop}})
					}
				})
			}
			w.Res.Bound = "resource blocks nested in bodies, handlers and finallies"
		}))
	}
	return append(jobs, closeErrorsJob(), closersJob())
}

func init() {
	engine.Register(&engine.Property{ID: "C26", Jobs: c26jobs, Assumptions: []string{
		"exception types inherit by embedding the parent as their first field", "when a finally function throws while another exception is leaving the block, either may be the one that leaves"}})
	engine.Register(&engine.Property{ID: "C27", Jobs: c27jobs, Assumptions: []string{
		"when body and close both fail, either exception may be the one that leaves", "ordinary panics are not required to close the resource"}})
}
