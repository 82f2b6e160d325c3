package props

import (
	"bytes"
	"fmt"
	"log"
	"strings"
	"sync"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"verif/mc/engine"
)

// inOrder checks that a text contains the messages one after the other.
func inOrder(text string, msgs []string) string {
	at := 0
	for i, m := range msgs {
		j := strings.Index(text[at:], m)
		if j < 0 {
			return errf("the printed text lacks message %d (%q) of %q, or has it out of order: %.200q", i, m, msgs, text)
		}
		at += j + len(m)
	}
	return ""
}

// The creation points; their names must appear in the traces.

//go:noinline
func creationPointErrors(msg string) error { return errors.Errorf("%s", msg) }

//go:noinline
func creationPointExc(msg string) *exc.Error { return exc.Errorf("%s", msg) }

//go:noinline
func creationPointFrom(err error) *exc.Error { return exc.FromError(err) }

// stackNames checks that a trace shows a function.
func stackNames(stack []byte, fn string) string {
	if len(stack) == 0 {
		return "the stack trace is empty"
	}
	if !bytes.Contains(stack, []byte(fn)) {
		return errf("the stack trace does not show %s: %.300q", fn, stack)
	}
	return ""
}

// The messages used; some contain characters with a meaning to formatting.
var errMsgs = []string{"alpha", "be%dta", "{gam, ma}", "del\nta", "épsilon", "-", ""}

// chainSys explores histories of chaining and joining.
type chainSys struct {
	max  int
	ops  []chainOp
	objs []chainObj
	pool []*exc.Error // reasons that may be chained; shared between exceptions on purpose
	lib  []error
}

type chainObj struct {
	ex   exc.Throwable // an exception, or
	er   *errors.Error // an error
	msgs []string
}

type chainOp struct {
	kind string
	i, j int
}

// kinds is "all", or "exceptions" or "errors" for only plain ones of these.
func chainSpec(kinds string, max, objs, reasons int, bound string) engine.Spec {
	var ops []chainOp
	for r := 0; r < reasons; r++ {
		switch kinds {
		case "all":
			ops = append(ops, chainOp{"new", r, 0}, chainOp{"newA", r, 0}, chainOp{"newerr", r, 0})
		case "exceptions":
			ops = append(ops, chainOp{"new", r, 0})
		case "errors":
			ops = append(ops, chainOp{"newerr", r, 0})
		}
	}
	for i := 0; i < objs; i++ {
		for r := 0; r < reasons; r++ {
			ops = append(ops, chainOp{"chain", i, r})
		}
		for j := 0; j < objs; j++ {
			ops = append(ops, chainOp{"join", i, j}, chainOp{"chainobj", i, j})
		}
		ops = append(ops, chainOp{"drop", i, 0})
	}
	var names []string
	for _, o := range ops {
		names = append(names, fmt.Sprintf("%s(%d,%d)", o.kind, o.i, o.j))
	}
	// made once: creating them records a stack trace, which is slow
	var pool []*exc.Error
	var lib []error
	for r := 0; r < reasons; r++ {
		pool = append(pool, creationPointExc(errMsgs[r]))
		if len(pool[r].Stack) > 8 { // shorter, as the trace is part of the state
			pool[r].Stack = pool[r].Stack[:8:8]
		}
		lib = append(lib, fmt.Errorf("%s", errMsgs[r]))
	}
	return engine.Spec{Ops: names, Bound: bound, Hidden: true, New: func() engine.Sys {
		return &chainSys{max: max, ops: ops, pool: pool, lib: lib, objs: make([]chainObj, 0, objs)}
	}}
}

func (s *chainSys) Enabled(op int) bool {
	o := s.ops[op]
	n := len(s.objs)
	switch o.kind {
	case "new", "newA", "newerr":
		return n < cap(s.objs)
	case "chain":
		return o.i < n && len(s.objs[o.i].msgs) < s.max
	case "chainobj":
		// an error may have another error chained to it
		return o.i < n && o.j < n && o.i != o.j && s.objs[o.i].er != nil && s.objs[o.j].er != nil &&
			len(s.objs[o.i].msgs)+len(s.objs[o.j].msgs) <= s.max
	case "join":
		return n < cap(s.objs) && o.i < n && o.j < n && s.objs[o.i].ex != nil && s.objs[o.j].ex != nil &&
			len(s.objs[o.i].msgs)+len(s.objs[o.j].msgs) <= s.max
	case "drop":
		return o.i == n-1
	}
	return false
}

func (s *chainSys) Apply(op int) string {
	o := s.ops[op]
	switch o.kind {
	case "new":
		s.objs = append(s.objs, chainObj{ex: s.pool[o.i].Exception(), msgs: []string{errMsgs[o.i]}})
	case "newA":
		s.objs = append(s.objs, chainObj{ex: &excA{*s.pool[o.i].Exception()}, msgs: []string{errMsgs[o.i]}})
	case "newerr":
		s.objs = append(s.objs, chainObj{er: &errors.Error{Errs: []error{s.lib[o.i]}}, msgs: []string{errMsgs[o.i]}})
	case "chain":
		x := &s.objs[o.i]
		if x.ex != nil {
			if t := x.ex.Chain(s.pool[o.j]); t == nil || t.Exc() != x.ex.Exc() {
				return errf("chaining returned another exception")
			}
		} else if e := x.er.Chain(s.lib[o.j]); e != error(x.er) {
			return errf("chaining returned another error")
		}
		x.msgs = append(x.msgs[:len(x.msgs):len(x.msgs)], errMsgs[o.j])
	case "chainobj":
		x, y := &s.objs[o.i], &s.objs[o.j]
		// chained by value, so that the texts stay bounded
		if e := x.er.Chain(fmt.Errorf("%s", strings.Join(y.msgs, "+"))); e != error(x.er) {
			return errf("chaining returned another error")
		}
		x.msgs = append(x.msgs[:len(x.msgs):len(x.msgs)], strings.Join(y.msgs, "+"))
	case "join":
		x, y := s.objs[o.i], s.objs[o.j]
		j := x.ex.Exc().Join(y.ex.Exc())
		if j == nil || j == x.ex.Exc() || j == y.ex.Exc() {
			return errf("joining did not return a new exception")
		}
		s.objs = append(s.objs, chainObj{ex: j, msgs: append(x.msgs[:len(x.msgs):len(x.msgs)], y.msgs...)})
	case "drop":
		s.objs = s.objs[:len(s.objs)-1]
	}
	return ""
}

func (s *chainSys) Observe() string {
	for i, x := range s.objs {
		var got []string
		var text string
		if x.ex != nil {
			for _, e := range x.ex.Exc().Errors {
				got = append(got, e.Err.Error())
				if len(e.Stack) == 0 {
					return errf("a stack trace was lost")
				}
			}
			text = x.ex.Error()
			if x.ex.Exc().String() != x.ex.Exc().Error() {
				return errf("the two texts of exception %d differ", i)
			}
		} else {
			for _, e := range x.er.Errs {
				got = append(got, e.Error())
			}
			text = x.er.Error()
			if x.er.String() != text {
				return errf("the two texts of error %d differ", i)
			}
		}
		if strings.Join(got, "\x00") != strings.Join(x.msgs, "\x00") {
			return errf("object %d carries %q, want %q", i, got, x.msgs)
		}
		if m := inOrder(text, x.msgs); m != "" {
			return m
		}
	}
	return ""
}

func (s *chainSys) Roots() []interface{} {
	var r []interface{}
	for _, x := range s.objs {
		r = append(r, strings.Join(x.msgs, "\x00"), x.ex, x.er)
	}
	return r
}

func c28jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	for _, c := range []struct {
		kinds              string
		max, objs, reasons int
	}{{"all", 4, 2, 2}, {"all", 3, 3, 1}, {"all", pick(q, 6, 8), 2, 1}, {"all", 5, 1, 3}, {"all", 9, 1, 1}, {"exceptions", 4, 3, 2}, {"exceptions", 5, 3, 2}} {
		jobs = append(jobs, job(fmt.Sprintf("histories-%s-%d-%d-%d", c.kinds, c.max, c.objs, c.reasons), func(w *engine.W) {
			w.BFS(chainSpec(c.kinds, c.max, c.objs, c.reasons, fmt.Sprintf("%s: up to %d objects of up to %d messages out of %d, closed", c.kinds, c.objs, c.max, c.reasons)))
		}))
	}
	jobs = append(jobs, job("lengths", func(w *engine.W) {
		n := pick(q, 150, 400)
		for a := 0; a <= n; a++ {
			for _, b := range []int{0, 1, 2, 3, 7, a, n} {
				w.Case(func() string { return fmt.Sprintf("%d chained errors, joined with %d", a, b) }, func() string { return longChain(a, b) })
				w.Steps(a + b)
				w.DistinctStr(fmt.Sprint(a, b))
			}
		}
		w.Res.Bound = fmt.Sprintf("up to %d errors chained one after the other, two joins of each", n)
	}))
	jobs = append(jobs, job("create", func(w *engine.W) {
		for _, msg := range errMsgs {
			for _, k := range createKinds {
				w.Case(func() string { return fmt.Sprintf("%s with message %q", k, msg) }, func() string { return createCase(k, msg) })
				w.Steps(1)
				w.DistinctStr(k + msg)
			}
		}
		w.Res.Bound = "every way of creating an error or exception, 7 messages"
	}))
	jobs = append(jobs, wrapsJob())
	jobs = append(jobs, job("surroundings", func(w *engine.W) {
		for _, others := range []int{0, 1, 2, 20, 150, 600} {
			var parked sync.WaitGroup
			hold, started := make(chan struct{}), make(chan struct{})
			for i := 0; i < others; i++ {
				parked.Add(1)
				go func() { nest(i%7*10, func() string { started <- struct{}{}; <-hold; return "" }); parked.Done() }()
				<-started
			}
			for _, depth := range []int{0, 1, 5, 40, 99, 100, 101, 300, 1500} {
				for _, kind := range createKinds {
					for _, msg := range []string{"m", strings.Repeat("long", 30)} {
						w.DistinctStr(fmt.Sprint(others, depth, kind, msg))
						w.Case(func() string {
							return fmt.Sprintf("%s of %d bytes, %d calls deep, %d other goroutines", kind, len(msg), depth, others)
						}, func() string {
							w.Steps(1)
							return nest(depth, func() string { return createCase(kind, msg) })
						})
					}
				}
			}
			close(hold)
			parked.Wait()
		}
		w.Res.Bound = "every way of creation, up to 1500 calls deep, beside up to 600 other goroutines"
		w.Sample("throwf of 1 bytes, 100 calls deep, 20 other goroutines")
	}))
	jobs = append(jobs, job("formats", func(w *engine.W) {
		args := []struct {
			f    string
			a    []interface{}
			want string
		}{{"plain", nil, "plain"}, {"100%%", nil, "100%"}, {"%d", []interface{}{7}, "7"}, {"%v and %q", []interface{}{"x", "y"}, `x and "y"`},
			{"%[2]d %[1]d", []interface{}{1, 2}, "2 1"}, {"%v", []interface{}{nil}, "<nil>"}, {"%s%s", []interface{}{"", "z"}, "z"}, {"", nil, ""}}
		for _, x := range args {
			w.Case(func() string { return fmt.Sprintf("format %q of %v", x.f, x.a) }, func() string {
				e, ok := errors.Errorf(x.f, x.a...).(*errors.Error)
				if !ok || len(e.Errs) != 1 || e.Errs[0].Error() != x.want {
					return errf("errors.Errorf carries %v, want %q", e, x.want)
				}
				f := exc.Errorf(x.f, x.a...)
				if f.Err.Error() != x.want {
					return errf("exc.Errorf carries %q, want %q", f.Err, x.want)
				}
				t := exc.Try(func() { exc.Throwf(x.f, x.a...) }).Exception()
				if t == nil || len(t.Exc().Errors) != 1 || t.Exc().Errors[0].Err.Error() != x.want {
					return errf("exc.Throwf carries %v, want %q", t, x.want)
				}
				return ""
			})
			w.Steps(3)
			w.DistinctStr(x.f)
		}
		lens := []int{}
		for n := 0; n <= 300; n++ {
			lens = append(lens, n)
		}
		for n := 512; n <= 65536; n *= 2 {
			lens = append(lens, n-1, n, n+1)
		}
		for _, n := range lens {
			w.Case(func() string { return fmt.Sprintf("a message of %d bytes", n) }, func() string {
				msg := strings.Repeat("longmsg-", n/8+1)[:n]
				if n > 0 {
					msg = msg[:n-1] + "$"
				}
				for _, x := range []struct {
					f string
					a []interface{}
				}{{"%s", []interface{}{msg}}, {msg, nil}} {
					e, ok := errors.Errorf(x.f, x.a...).(*errors.Error)
					if !ok || len(e.Errs) != 1 || e.Errs[0].Error() != msg || len(e.Stack) == 0 || !strings.Contains(e.Error(), msg) {
						return errf("errors.Errorf does not carry the message and a stack trace")
					}
					f := exc.Errorf(x.f, x.a...)
					if f.Err.Error() != msg || len(f.Stack) == 0 || !strings.Contains(f.Error(), msg) || !strings.Contains(f.Exception().Error(), msg) {
						return errf("exc.Errorf does not carry the message and a stack trace")
					}
					t := exc.Try(func() { exc.Throwf(x.f, x.a...) }).Exception()
					if t == nil || len(t.Exc().Errors) != 1 || t.Exc().Errors[0].Err.Error() != msg || len(t.Exc().Errors[0].Stack) == 0 || !strings.Contains(t.Error(), msg) {
						return errf("exc.Throwf does not carry the message and a stack trace")
					}
				}
				p := &plainErr{msg}
				f := exc.FromError(p)
				if f.Err != error(p) || len(f.Stack) == 0 || !strings.Contains(f.Error(), msg) {
					return errf("exc.FromError does not carry the error and a stack trace")
				}
				return ""
			})
			w.Steps(7)
			w.DistinctStr(fmt.Sprint("length ", n))
		}
		named := map[string][]interface{}{"not-found": {"key"}, "not-found-in-bucket": {"key"}, "invalid-key": {"key", "why"},
			"tst-error": {"the %s %d", "what", 3}, "negative-size": {}, "bptree-error": {"the %s %d", "what", 3}}
		for name, a := range named {
			w.Case(func() string { return "named error " + name }, func() string {
				f, ok := errors.Errors[name]
				if !ok {
					return errf("no such error")
				}
				e, ok := f(a...).(*errors.Error)
				if !ok || len(e.Errs) != 1 || e.Errs[0].Error() == "" || len(e.Stack) == 0 {
					return errf("%s made %v", name, e)
				}
				var want []string
				switch name {
				case "not-found-in-bucket":
					want = []string{"key"}
				case "invalid-key":
					want = []string{"key", "why"}
				case "tst-error", "bptree-error":
					want = []string{"the what 3"}
				}
				if strings.Contains(e.Errs[0].Error(), "%!") {
					return errf("badly formatted: %v", e.Errs[0])
				}
				return inOrder(e.Error(), want)
			})
			w.Steps(1)
			w.DistinctStr(name)
		}
		w.Case(func() string { return "nil errors" }, func() string {
			if (*errors.Error)(nil).Error() == "" || (*exc.Error)(nil).Error() == "" {
				return errf("a nil error prints nothing")
			}
			_ = (&errors.Error{}).Error()
			_ = (&exc.Exception{}).Error()
			return ""
		})
		w.Res.Bound = "formatted messages, messages of up to 65537 bytes and the named errors"
	}))
	jobs = append(jobs, job("log", func(w *engine.W) {
		var out bytes.Buffer
		log.SetOutput(&out)
		for _, level := range []string{"DEBUG", "INFO", ""} {
			for _, skip := range []int{0, 1, 2} { // nothing, this level, another level is skipped
				for _, msg := range errMsgs {
					w.Case(func() string { return fmt.Sprintf("log %q at level %q, skip %d", msg, level, skip) }, func() string {
						out.Reset()
						for k := range errors.SkipLogging {
							delete(errors.SkipLogging, k)
						}
						switch skip {
						case 1:
							errors.SkipLogging[level] = true
						case 2:
							errors.SkipLogging["other"] = true
						}
						errors.Logf(level, "<%s|%d>", msg, 42)
						want := "<" + msg + "|42>"
						if got := strings.Contains(out.String(), want); got != (skip != 1) {
							return errf("logged %q, want %q: %v", out.String(), want, skip != 1)
						}
						if skip != 1 && !strings.Contains(out.String(), level) {
							return errf("logged %q without its level %q", out.String(), level)
						}
						return ""
					})
					w.Steps(1)
					w.DistinctStr(fmt.Sprint(level, skip, msg))
				}
			}
		}
		w.Res.Bound = "levels, skipped levels and messages"
	}))
	return jobs
}

// longChain chains a errors, joins the result twice with b others and chains once more to everything.
func longChain(a, b int) string {
	names := func(tag string, n int) (r []string) {
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprintf("<%s%d>", tag, i))
		}
		return
	}
	build := func(msgs []string) *exc.Exception {
		x := &exc.Exception{}
		for _, m := range msgs {
			x.Chain(&exc.Error{Err: &plainErr{m}, Stack: []byte("s")})
		}
		return x
	}
	carries := func(what string, x *exc.Exception, want ...[]string) string {
		var all []string
		for _, l := range want {
			all = append(all, l...)
		}
		var got []string
		for _, e := range x.Errors {
			got = append(got, e.Err.Error())
		}
		if strings.Join(got, "") != strings.Join(all, "") {
			return errf("%s carries %q, want %q", what, got, all)
		}
		return inOrder(x.Error(), all)
	}
	A, B, C := names("a", a), names("b", b), names("c", b)
	x, y := build(A), build(B)
	j := x.Join(y)
	k := x.Join(build(C))
	self := x.Join(x)
	for i, e := range []*exc.Exception{j, k, self} {
		if e == nil || e == x || e == y {
			return errf("join number %d did not return a new exception", i)
		}
	}
	x.Chain(&exc.Error{Err: &plainErr{"<x>"}})
	j.Chain(&exc.Error{Err: &plainErr{"<j>"}})
	k.Chain(&exc.Error{Err: &plainErr{"<k>"}})
	self.Chain(&exc.Error{Err: &plainErr{"<self>"}})
	for _, e := range []*exc.Exception{j, k, self} { // the joins are independent of the inputs
		if m := carries("the second input", y, B); m != "" {
			return m
		}
		kept := append([]*exc.Error(nil), e.Errors...)
		for i := range e.Errors {
			e.Errors[i] = nil
		}
		for _, m := range []string{carries("the first input, the join being cleared,", x, A, []string{"<x>"}), carries("the second input, the join being cleared,", y, B)} {
			if m != "" {
				return m
			}
		}
		copy(e.Errors, kept)
	}
	for _, m := range []string{carries("the first exception", x, A, []string{"<x>"}), carries("the first join", j, A, B, []string{"<j>"}),
		carries("the second join", k, A, C, []string{"<k>"}), carries("the join with itself", self, A, A, []string{"<self>"})} {
		if m != "" {
			return m
		}
	}
	e := &errors.Error{}
	for _, m := range A {
		e.Chain(&plainErr{m})
	}
	if len(e.Errs) != a {
		return errf("the error carries %d errors, want %d", len(e.Errs), a)
	}
	return inOrder(e.Error(), A)
}

var createKinds = []string{"errors", "exc", "from", "exception", "throwf", "throwerr", "throwon", "nested"}

func createCase(kind, msg string) string {
	excErr := func(e *exc.Error, fn string) string {
		if e == nil || e.Err == nil || e.Err.Error() != msg {
			return errf("carries %v, want %q", e, msg)
		}
		if m := stackNames(e.Stack, fn); m != "" {
			return m
		}
		if e.String() != e.Error() {
			return errf("the two texts differ")
		}
		return inOrder(e.Error(), []string{msg, fn})
	}
	thrown := func(t exc.Throwable, fn string) string {
		if t == nil || len(t.Exc().Errors) != 1 {
			return errf("threw %v", t)
		}
		if m := inOrder(t.Error(), []string{msg}); m != "" {
			return m
		}
		return excErr(t.Exc().Errors[0], fn)
	}
	switch kind {
	case "errors":
		e, ok := creationPointErrors(msg).(*errors.Error)
		if !ok || len(e.Errs) != 1 || e.Errs[0].Error() != msg {
			return errf("carries %v, want %q", e, msg)
		}
		if m := stackNames(e.Stack, "creationPointErrors"); m != "" {
			return m
		}
		return inOrder(e.Error(), []string{msg, "creationPointErrors"})
	case "exc":
		return excErr(creationPointExc(msg), "creationPointExc")
	case "from":
		x := &plainErr{msg}
		e := creationPointFrom(x)
		if e.Err != error(x) {
			return errf("the wrapped error is another one")
		}
		return excErr(e, "creationPointFrom")
	case "exception":
		e := creationPointExc(msg)
		x := e.Exception()
		if len(x.Errors) != 1 || x.Errors[0] != e || x.Exc() != x {
			return errf("the exception carries %v", x.Errors)
		}
		return thrown(x, "creationPointExc")
	case "throwf":
		return thrown(exc.Try(func() { exc.Throwf("%s", msg) }).Exception(), "createCase")
	case "throwerr":
		e := creationPointExc(msg)
		t := exc.Try(func() { exc.ThrowErr(e) }).Exception()
		if t == nil || len(t.Exc().Errors) != 1 || t.Exc().Errors[0] != e {
			return errf("threw %v", t)
		}
		return thrown(t, "creationPointExc")
	case "throwon":
		x := &plainErr{msg}
		t := exc.Try(func() { exc.ThrowOnError(x) }).Exception()
		if t == nil || len(t.Exc().Errors) != 1 || t.Exc().Errors[0].Err != error(x) {
			return errf("threw %v", t)
		}
		return thrown(t, "createCase")
	case "nested": // an error of the library chained to another keeps its own text and trace
		a := creationPointErrors(msg).(*errors.Error)
		b := creationPointErrors("second").(*errors.Error)
		first := append([]byte(nil), a.Stack...)
		if e := a.Chain(b); e != error(a) {
			return errf("chaining returned another error")
		}
		if len(a.Errs) != 2 || a.Errs[1] != error(b) || !bytes.Equal(a.Stack, first) {
			return errf("carries %v", a.Errs)
		}
		return inOrder(a.Error(), []string{msg, "second"})
	}
	return "unknown kind"
}

// wrapsJob wraps errors of every kind, several times over, and looks at the text, the wrapped error and the trace.
func wrapsJob() engine.Job {
	return job("wraps", func(w *engine.W) {
		kinds := []struct {
			name, text string
			make       func() error
		}{
			{"plain", "plain text", func() error { return &plainErr{"plain text"} }},
			{"formatted", "formatted 7", func() error { return fmt.Errorf("formatted %d", 7) }},
			{"wrapped", "outer: inner", func() error { return fmt.Errorf("outer: %w", &plainErr{"inner"}) }},
			{"library", "library text", func() error { return creationPointErrors("library text") }},
			{"library error", "exc text", func() error { return creationPointExc("exc text") }},
			{"exception", "thrown", func() error { e := oneException(); return &e }},
			{"exception type", "thrown", func() error { return &lvl3{lvl2{lvl1{oneException()}}} }},
			{"empty text", "", func() error { return &plainErr{""} }},
		}
		for _, k := range kinds {
			for depth := 0; depth < 6; depth++ {
				for _, how := range []string{"from", "throwon", "chain", "chainexc"} {
					w.Case(func() string { return fmt.Sprintf("%s error wrapped %d times, then %s", k.name, depth, how) }, func() string {
						err := k.make()
						for i := 0; i < depth; i++ {
							w.Steps(1)
							e := wrapPoint(err)
							if e == nil || e.Err != err {
								return errf("wrap number %d carries another error", i)
							}
							if m := stackNames(e.Stack, "wrapPoint"); m != "" {
								return m
							}
							if m := inOrder(e.Error(), []string{k.text, "wrapPoint"}); m != "" {
								return m
							}
							err = e
						}
						w.Steps(1)
						switch how {
						case "from":
							e := creationPointFrom(err)
							if e == nil || e.Err != err || error(e) == err {
								return errf("wrapping carries another error")
							}
							if m := stackNames(e.Stack, "creationPointFrom"); m != "" {
								return m
							}
							return inOrder(e.Error(), []string{k.text, "creationPointFrom"})
						case "throwon":
							t := exc.Try(func() { throwPoint(err) }).Exception()
							if t == nil {
								return errf("nothing was thrown")
							}
							if t, ok := t.(error); ok && t == err { // an exception may be thrown as it is
								return ""
							}
							if len(t.Exc().Errors) != 1 || t.Exc().Errors[0].Err != err {
								return errf("threw something that does not carry the error")
							}
							if m := stackNames(t.Exc().Errors[0].Stack, "throwPoint"); m != "" {
								return m
							}
							return inOrder(t.Error(), []string{k.text})
						case "chain":
							e := creationPointErrors("first").(*errors.Error)
							if e.Chain(err) != error(e) || len(e.Errs) != 2 || e.Errs[1] != err {
								return errf("chaining carries another error")
							}
							if m := stackNames(e.Stack, "creationPointErrors"); m != "" {
								return m
							}
							return inOrder(e.Error(), []string{"first", k.text})
						case "chainexc":
							x := creationPointExc("first").Exception()
							r := wrapPoint(err)
							x.Chain(r)
							if len(x.Errors) != 2 || x.Errors[1] != r || x.Errors[0].Err.Error() != "first" {
								return errf("chaining carries another error")
							}
							return inOrder(x.Error(), []string{"first", k.text, "wrapPoint"})
						}
						return ""
					})
					w.DistinctStr(fmt.Sprint(k.name, depth, how))
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d kinds of errors wrapped up to 5 times, 4 uses", len(kinds))
	})
}

//go:noinline
func wrapPoint(err error) *exc.Error { return exc.FromError(err) }

//go:noinline
func throwPoint(err error) { exc.ThrowOnError(err) }

func init() {
	engine.Register(&engine.Property{ID: "C28", Jobs: c28jobs, Assumptions: []string{"exceptions are not copied by value after they were chained to"}})
}

// nest calls f this many calls deep.
//
//go:noinline
func nest(depth int, f func() string) string {
	if depth == 0 {
		return f()
	}
	return nest(depth-1, f)
}
