package props

import (
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
	"verif/mc/engine"
)

// Errors of many kinds that creation, body and close may report.
var closeErrors = []struct {
	name string
	make func() error
}{
	{"plain", func() error { return &plainErr{"plain"} }},
	{"formatted", func() error { return fmt.Errorf("formatted: %w", io.EOF) }},
	{"EOF", func() error { return io.EOF }},
	{"unexpected EOF", func() error { return io.ErrUnexpectedEOF }},
	{"closed pipe", func() error { return io.ErrClosedPipe }},
	{"closed file", func() error { return os.ErrClosed }},
	{"already closed", func() error { return &os.PathError{Op: "close", Path: "x", Err: os.ErrClosed} }},
	{"not exist", func() error { return os.ErrNotExist }},
	{"syscall", func() error { return syscall.EINTR }},
	{"syscall 0", func() error { return syscall.Errno(0) }},
	{"library", func() error { return errors.Errorf("library") }},
	{"empty library", func() error { return &errors.Error{} }},
	{"exc error", func() error { return exc.Errorf("exc error") }},
	{"empty exc error", func() error { return &exc.Error{} }},
	{"exception", func() error { e := oneException(); return &e }},
	{"empty exception", func() error { return &exc.Exception{} }},
	{"lvl2", func() error { return &lvl2{lvl1{oneException()}} }},
	{"X", func() error { e := oneException(); return &excX{1, &e} }},
	{"nil pointer", func() error { return (*nilErr)(nil) }},
	{"empty text", func() error { return &plainErr{""} }},
}

type nilErr struct{}

func (e *nilErr) Error() string { return "nil pointer" }

// carriesError tells whether a thrown value is an error or contains it.
func carriesError(left interface{}, err error) bool {
	t, ok := left.(exc.Throwable)
	if !ok {
		return false
	}
	if e, ok := left.(error); ok && e == err {
		return true
	}
	for _, e := range t.Exc().Errors {
		if e != nil && (e.Err == err || error(e) == err) {
			return true
		}
	}
	return false
}

type countCloser struct {
	n   *int
	err error
}

func (c *countCloser) Close() error { *c.n++; return c.err }

// closeErrorsJob lets each phase of a resource block report every kind of error.
func closeErrorsJob() engine.Job {
	return job("errors", func(w *engine.W) {
		for _, k := range closeErrors {
			for phase := 0; phase < 3; phase++ {
				for mode := 0; mode < 3; mode++ {
					for handler := 0; handler < 4; handler++ { // none, nothing matches, catches, rethrows
						for fins := 0; fins < 3; fins++ {
							w.Case(func() string {
								return fmt.Sprintf("%s error from %s, mode %d, handler %d, %d finallies", k.name, []string{"creation", "body", "close"}[phase], mode, handler, fins)
							}, func() string {
								err := k.make()
								closed, used, fin, early := 0, 0, 0, false
								var caught exc.Throwable
								c := &countCloser{n: &closed}
								if phase == 2 {
									c.err = err
								}
								b := exc.Close(func() io.Closer {
									if phase == 0 {
										exc.ThrowOnError(err)
									}
									return c
								}, func(x io.Closer) {
									used++
									if x != io.Closer(c) || closed != 0 {
										early = true
									}
									if phase == 1 {
										exc.ThrowOnError(err)
									}
								})
								want := 1
								if phase == 0 {
									want = 0
								}
								on := func(x exc.Throwable) {
									caught = x
									early = early || closed != want
									if handler == 3 {
										exc.Rethrow(x, &exc.Error{Err: io.EOF})
									}
								}
								switch handler {
								case 1:
									b.Catch(&side2{}, on)
								case 2, 3:
									b.Catch(&side2{}, func(exc.Throwable) { early = true }).Catch(&exc.Exception{}, on).Catch(&excX{}, on)
								}
								for i := 0; i < fins; i++ {
									b.Finally(func() { fin++; early = early || closed != want })
								}
								w.Steps(1)
								left := runMode(b, mode)
								if closed != want || used != map[bool]int{true: 0, false: 1}[phase == 0] || fin != fins {
									return errf("closed %d times, body ran %d times, finallies ran %d times", closed, used, fin)
								}
								if early {
									return "the resource was closed too early or too late"
								}
								if handler >= 2 && (caught == nil || !carriesError(caught, err)) {
									return errf("the handler got %T which does not carry the error", caught)
								}
								if handler < 2 && caught != nil {
									return errf("a handler for another type ran")
								}
								if handler == 2 && left != nil {
									return errf("%T left the block after it was handled", left)
								}
								if handler != 2 && !carriesError(left, err) {
									return errf("%T left the block, which does not carry the error", left)
								}
								return ""
							})
							w.DistinctStr(fmt.Sprint(k.name, phase, mode, handler, fins))
						}
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d kinds of errors from creation, body or close", len(closeErrors))
	})
}

// Closers of several kinds.
type (
	funcCloser  func() error
	valueCloser struct {
		n    *int
		junk []int // not comparable
	}
	nilCloser   struct{}
	mapCloser   map[string]int
	emptyCloser struct{}
	intCloser   int
)

var closerCalls int // calls of the closers that have no room for a counter

func (f funcCloser) Close() error  { return f() }
func (v valueCloser) Close() error { *v.n++; return nil }
func (n *nilCloser) Close() error  { closerCalls++; return nil }
func (m mapCloser) Close() error   { m["closed"]++; return nil }
func (emptyCloser) Close() error   { closerCalls++; return nil }
func (intCloser) Close() error     { closerCalls++; return nil }

// closersJob uses resources of every kind of type, many at once and one after the other.
func closersJob() engine.Job {
	return job("closers", func(w *engine.W) {
		kinds := []struct {
			name string
			make func() (io.Closer, func() int)
		}{
			{"pointer", func() (io.Closer, func() int) { n := 0; return &countCloser{n: &n}, func() int { return n } }},
			{"func", func() (io.Closer, func() int) {
				n := 0
				return funcCloser(func() error { n++; return nil }), func() int { return n }
			}},
			{"value", func() (io.Closer, func() int) {
				n := 0
				return valueCloser{n: &n, junk: []int{1}}, func() int { return n }
			}},
			{"nil pointer", func() (io.Closer, func() int) {
				closerCalls = 0
				return (*nilCloser)(nil), func() int { return closerCalls }
			}},
			{"map", func() (io.Closer, func() int) { m := mapCloser{}; return m, func() int { return m["closed"] } }},
			{"empty", func() (io.Closer, func() int) {
				closerCalls = 0
				return emptyCloser{}, func() int { return closerCalls }
			}},
			{"int", func() (io.Closer, func() int) {
				closerCalls = 0
				return intCloser(0), func() int { return closerCalls }
			}},
		}
		for _, k := range kinds {
			for _, throws := range []bool{false, true} {
				for mode := 0; mode < 3; mode++ {
					w.Case(func() string { return fmt.Sprintf("a %s closer, body throws %v, mode %d", k.name, throws, mode) }, func() string {
						c, count := k.make()
						thrown := &lvl1{oneException()}
						during := 0
						w.Steps(1)
						left := runMode(exc.Close(func() io.Closer { return c }, func(io.Closer) {
							during = count()
							if throws {
								exc.Throw(thrown)
							}
						}), mode)
						if during != 0 || count() != 1 {
							return errf("closed %d times during and %d times after the body", during, count())
						}
						if throws != (left != nil) || throws && left != interface{}(thrown) {
							return errf("%v left the block", left)
						}
						return ""
					})
					w.DistinctStr(fmt.Sprint(k.name, throws, mode))
				}
			}
		}
		// resources within each other; one level fails, one level catches
		for depth := 1; depth <= 24; depth++ {
			for fail := -1; fail < depth; fail++ { // body of that level throws after the inner block ended
				for closeFail := -1; closeFail < depth; closeFail++ {
					for at := -1; at < depth; at++ {
						if depth > 8 && at >= 0 && at%5 != 0 && at != depth-1 {
							continue
						}
						w.Case(func() string {
							return fmt.Sprintf("%d nested resources, body %d throws, close of %d fails, level %d catches", depth, fail, closeFail, at)
						}, func() string { w.Steps(depth); return nestedClose(depth, fail, closeFail, at) })
					}
				}
			}
			w.DistinctStr(fmt.Sprint(depth))
		}
		w.Res.Bound = "7 kinds of closers; up to 24 nested resources"
	})
}

func nestedClose(depth, fail, closeFail, at int) string {
	var log, want []string
	err := &plainErr{"close"}
	thrown := &lvl1{oneException()}
	var level func(i int)
	level = func(i int) {
		if i == depth {
			return
		}
		n := 0
		var e error
		if i == closeFail {
			e = err
		}
		b := exc.Close(func() io.Closer {
			log = append(log, fmt.Sprint("make ", i))
			return funcCloser(func() error {
				n++
				log = append(log, fmt.Sprint("close ", i, " ", n))
				return e
			})
		}, func(io.Closer) {
			level(i + 1)
			if i == fail {
				exc.Throw(thrown)
			}
		})
		if i == at {
			b.Catch(&exc.Exception{}, func(exc.Throwable) { log = append(log, fmt.Sprint("catch ", i)) })
		}
		b.Finally(func() { log = append(log, fmt.Sprint("finally ", i)) }).Unwind()
	}
	left := exc.Try(func() { level(0) }).Exception()
	// the reference: pending tells whether an exception is leaving
	pending := false
	for i := 0; i < depth; i++ {
		want = append(want, fmt.Sprint("make ", i))
	}
	for i := depth - 1; i >= 0; i-- {
		if i == fail && !pending {
			pending = true
		}
		want = append(want, fmt.Sprint("close ", i, " ", 1))
		if i == closeFail {
			pending = true
		}
		if i == at && pending {
			want = append(want, fmt.Sprint("catch ", i))
			pending = false
		}
		want = append(want, fmt.Sprint("finally ", i))
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return errf("the blocks did %v, want %v", log, want)
	}
	if pending != (left != nil) {
		return errf("%v left the blocks", left)
	}
	return ""
}
