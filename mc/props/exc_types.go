package props

import (
	"fmt"
	"io"

	"github.com/timtadh/data-structures/exc"
	"verif/mc/engine"
)

// A larger family of exception types: a line of descent ten levels deep, side branches with further fields, and types
// that stand alone.
type (
	lvl1  struct{ exc.Exception }
	lvl2  struct{ lvl1 }
	lvl3  struct{ lvl2 }
	lvl4  struct{ lvl3 }
	lvl5  struct{ lvl4 }
	lvl6  struct{ lvl5 }
	lvl7  struct{ lvl6 }
	lvl8  struct{ lvl7 }
	lvl9  struct{ lvl8 }
	lvl10 struct{ lvl9 }

	side1 struct {
		exc.Exception
		code int
		why  string
	}
	side2 struct {
		side1
		more []int
	}
	side3 struct {
		lvl2
		other error
	}
	side4 struct {
		side3
		m map[string]int
	}
	side5 struct {
		lvl6
		p *side4
	}
	twin1 struct{ exc.Exception } // built exactly like lvl1, but not related to it
	twin2 struct{ lvl1 }          // built exactly like lvl2
	wide1 struct {
		exc.Exception
		a, b, c, d, e, f, g, h int
		s, t                   string
	}
	wide2 struct {
		wide1
		exc.Throwable // a second embedded type is not a parent
		x             [4]int
		p, q, r       *wide1
	}
)

func (w *wide2) Exc() *exc.Exception              { return &w.Exception }
func (w *wide2) Error() string                    { return w.Exception.Error() }
func (w *wide2) Chain(e *exc.Error) exc.Throwable { w.Exception.Chain(e); return w }

type excKind struct {
	name   string
	parent int
	make   func(e exc.Exception) exc.Throwable
}

var excFamily = []excKind{
	{"Exception", -1, func(e exc.Exception) exc.Throwable { return &e }},
	{"lvl1", 0, func(e exc.Exception) exc.Throwable { return &lvl1{e} }},
	{"lvl2", 1, func(e exc.Exception) exc.Throwable { return &lvl2{lvl1{e}} }},
	{"lvl3", 2, func(e exc.Exception) exc.Throwable { return &lvl3{lvl2{lvl1{e}}} }},
	{"lvl4", 3, func(e exc.Exception) exc.Throwable { return &lvl4{lvl3{lvl2{lvl1{e}}}} }},
	{"lvl5", 4, func(e exc.Exception) exc.Throwable { x := &lvl5{}; x.Exception = e; return x }},
	{"lvl6", 5, func(e exc.Exception) exc.Throwable { x := &lvl6{}; x.Exception = e; return x }},
	{"lvl7", 6, func(e exc.Exception) exc.Throwable { x := &lvl7{}; x.Exception = e; return x }},
	{"lvl8", 7, func(e exc.Exception) exc.Throwable { x := &lvl8{}; x.Exception = e; return x }},
	{"lvl9", 8, func(e exc.Exception) exc.Throwable { x := &lvl9{}; x.Exception = e; return x }},
	{"lvl10", 9, func(e exc.Exception) exc.Throwable { x := &lvl10{}; x.Exception = e; return x }},
	{"side1", 0, func(e exc.Exception) exc.Throwable { return &side1{e, 1, "x"} }},
	{"side2", 11, func(e exc.Exception) exc.Throwable { return &side2{side1{e, 1, "x"}, []int{1}} }},
	{"side3", 2, func(e exc.Exception) exc.Throwable { return &side3{lvl2{lvl1{e}}, io.EOF} }},
	{"side4", 13, func(e exc.Exception) exc.Throwable { return &side4{side3{lvl2{lvl1{e}}, io.EOF}, nil} }},
	{"side5", 6, func(e exc.Exception) exc.Throwable { x := &side5{}; x.Exception = e; return x }},
	{"wide1", 0, func(e exc.Exception) exc.Throwable { return &wide1{Exception: e} }},
	{"wide2", 16, func(e exc.Exception) exc.Throwable { x := &wide2{}; x.Exception = e; return x }},
	{"twin1", 0, func(e exc.Exception) exc.Throwable { return &twin1{e} }},
	{"twin2", 1, func(e exc.Exception) exc.Throwable { return &twin2{lvl1{e}} }},
	{"X", -1, func(e exc.Exception) exc.Throwable { return &excX{1, &e} }},
	{"V", -1, func(e exc.Exception) exc.Throwable { return excV{&e} }},
}

func familyIsa(t, of int) bool {
	for ; t >= 0; t = excFamily[t].parent {
		if t == of {
			return true
		}
	}
	return false
}

func oneException() exc.Exception {
	return exc.Exception{Errors: []*exc.Error{{Err: &plainErr{"thrown"}}}}
}

// excFamilyJobs checks which handler is chosen for every thrown type and every list of caught types, and blocks with
// many handlers, many finally functions or deep nesting.
func excFamilyJobs(tier string) []engine.Job {
	q := tier != "thorough"
	return []engine.Job{
		reasonsJob(),
		job("family", func(w *engine.W) {
			n := len(excFamily)
			var walk func(list []int)
			walk = func(list []int) {
				for t := range excFamily {
					for mode := 0; mode < 3; mode++ {
						w.Case(func() string { return familyDesc(t, list, mode) }, func() string { return familyCase(t, list, mode) })
						w.Steps(1)
					}
				}
				w.DistinctStr(fmt.Sprint(list))
				if len(list) == pick(q, 3, 4) {
					return
				}
				for c := 0; c < n; c++ {
					walk(append(list[:len(list):len(list)], c))
				}
			}
			walk(nil)
			w.Res.Bound = fmt.Sprintf("%d exception types up to 10 levels deep, all lists of up to %d catches", n, pick(q, 3, 4))
		}),
		job("lengths", func(w *engine.W) {
			for n := 0; n <= pick(q, 60, 150); n++ {
				for at := -1; at < n; at++ {
					for _, fin := range []int{0, 1, n} {
						for do := 0; do < 3; do++ {
							w.Case(func() string {
								return fmt.Sprintf("%d catches of which number %d matches, %d finallies, the handler %s", n, at, fin, []string{"returns", "throws", "rethrows"}[do])
							}, func() string { return longBlock(n, at, fin, do) })
							w.Steps(1)
							w.DistinctStr(fmt.Sprint(n, at, fin, do))
						}
					}
				}
			}
			for depth := 1; depth <= pick(q, 90, 200); depth++ {
				for at := -1; at < depth; at++ {
					w.Case(func() string {
						return fmt.Sprintf("%d nested blocks, the exception is caught by number %d from inside and rethrown before", depth, at)
					}, func() string { return deepBlocks(depth, at) })
					w.Steps(1)
					w.DistinctStr(fmt.Sprint(depth, at))
				}
			}
			w.Res.Bound = fmt.Sprintf("up to %d catches and finallies, up to %d nested blocks", pick(q, 60, 150), pick(q, 90, 200))
		}),
	}
}

func familyDesc(t int, list []int, mode int) string {
	s := "throw " + excFamily[t].name + ", catch"
	for _, c := range list {
		s += " " + excFamily[c].name
	}
	return s + []string{" unwind", " error", " exception"}[mode]
}

// runMode runs a block in one of the three ways and returns what left it.
func runMode(b *exc.Block, mode int) (left interface{}) {
	switch mode {
	case 0:
		defer func() { left = recover() }()
		b.Unwind()
	case 1:
		if e := b.Error(); e != nil {
			return e
		}
	case 2:
		if e := b.Exception(); e != nil {
			return e
		}
	}
	return nil
}

func familyCase(t int, list []int, mode int) string {
	thrown := excFamily[t].make(oneException())
	ran, fin := -1, 0
	var got exc.Throwable
	b := exc.Try(func() { exc.Throw(thrown) })
	want := -1
	for i, c := range list {
		if want < 0 && familyIsa(t, c) {
			want = i
		}
		b.Catch(excFamily[c].make(exc.Exception{}), func(x exc.Throwable) {
			if ran >= 0 {
				ran = 1000
				return
			}
			ran, got = i, x
		})
	}
	b.Finally(func() { fin++ })
	left := runMode(b, mode)
	if ran != want {
		return errf("catch number %d ran, want %d", ran, want)
	}
	if want >= 0 && (got != thrown || left != nil) {
		return errf("the handler got another exception, or %v left the block", left)
	}
	if want < 0 && left != interface{}(thrown) {
		return errf("%v left the block instead of the exception thrown", left)
	}
	if fin != 1 {
		return errf("the finally function ran %d times", fin)
	}
	return ""
}

func longBlock(n, at, fin, do int) string {
	thrown := &lvl3{lvl2{lvl1{oneException()}}}
	next := &side1{Exception: oneException()}
	reason := &exc.Error{Err: &plainErr{"again"}}
	var log []int
	b := exc.Try(func() { exc.Throw(thrown) })
	for i := 0; i < n; i++ {
		var proto exc.Throwable = &side2{} // does not match
		if i == at {
			proto = &lvl2{}
		} else if i > at && at >= 0 {
			proto = &lvl1{} // matches too, but is declared later
		}
		b.Catch(proto, func(x exc.Throwable) {
			log = append(log, i)
			switch do {
			case 1:
				exc.Throw(next)
			case 2:
				exc.Rethrow(x, reason)
			}
		})
	}
	for i := 0; i < fin; i++ {
		b.Finally(func() { log = append(log, 1000+i) })
	}
	left := b.Exception()
	var want []int
	if at >= 0 {
		want = append(want, at)
	}
	for i := 0; i < fin; i++ {
		want = append(want, 1000+i)
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return errf("the functions run are %v, want %v", log, want)
	}
	switch {
	case at >= 0 && do == 0:
		if left != nil {
			return errf("%v left the block", left)
		}
	case at >= 0 && do == 1:
		if left != exc.Throwable(next) {
			return errf("%v left the block", left)
		}
	default:
		if left != exc.Throwable(thrown) {
			return errf("%v left the block", left)
		}
		if at >= 0 && (len(thrown.Errors) != 2 || thrown.Errors[1] != reason) {
			return errf("the exception carries %d errors", len(thrown.Errors))
		}
	}
	return ""
}

func deepBlocks(depth, at int) string {
	thrown := &lvl3{lvl2{lvl1{oneException()}}}
	var log []int
	var left exc.Throwable
	var level func(i int)
	level = func(i int) {
		if i < 0 {
			exc.Throw(thrown)
		}
		b := exc.Try(func() { level(i - 1) }).Catch(&lvl1{}, func(x exc.Throwable) {
			log = append(log, i)
			if i != at {
				exc.Rethrow(x, &exc.Error{Err: &plainErr{fmt.Sprint(i)}})
			}
		}).Finally(func() { log = append(log, 1000+i) })
		if i == depth-1 {
			left = b.Exception()
		} else {
			b.Unwind()
		}
	}
	level(depth - 1)
	var want []int
	for i := 0; i < depth; i++ {
		if at < 0 || i <= at {
			want = append(want, i)
		}
		want = append(want, 1000+i)
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		return errf("the functions run are %v, want %v", log, want)
	}
	n := depth
	if at >= 0 {
		n = at
	}
	if len(thrown.Errors) != n+1 {
		return errf("the exception carries %d errors, want %d", len(thrown.Errors), n+1)
	}
	for i := 0; i < n; i++ {
		if thrown.Errors[i+1].Err.Error() != fmt.Sprint(i) {
			return errf("error %d is %v", i+1, thrown.Errors[i+1].Err)
		}
	}
	if (left != nil) != (at < 0) || left != nil && left != exc.Throwable(thrown) {
		return errf("%v left the blocks", left)
	}
	return ""
}

// reasonsJob rethrows exceptions of every type, carrying several errors, with reasons of every kind.
func reasonsJob() engine.Job {
	return job("reasons", func(w *engine.W) {
		reasons := []struct {
			name string
			make func() *exc.Error
		}{
			{"made by hand", func() *exc.Error { return &exc.Error{Err: io.EOF, Stack: []byte("s")} }},
			{"without stack", func() *exc.Error { return &exc.Error{Err: io.EOF} }},
			{"without error", func() *exc.Error { return &exc.Error{Stack: []byte("s")} }},
			{"empty", func() *exc.Error { return &exc.Error{} }},
			{"formatted", func() *exc.Error { return exc.Errorf("why %d", 3) }},
			{"from an error", func() *exc.Error { return exc.FromError(io.EOF) }},
			{"from a reason", func() *exc.Error { return exc.FromError(exc.Errorf("inner")) }},
			{"from an exception", func() *exc.Error { return exc.FromError(&lvl1{oneException()}) }},
		}
		for t := range excFamily {
			for carried := 0; carried <= 9; carried++ {
				for _, r := range reasons {
					for times := 1; times <= 3; times++ {
						for mode := 0; mode < 3; mode++ {
							w.Case(func() string {
								return fmt.Sprintf("%s carrying %d errors, rethrown %d times with a reason %s", excFamily[t].name, carried, times, r.name)
							}, func() string {
								var want []*exc.Error
								e := exc.Exception{}
								for i := 0; i < carried; i++ {
									x := &exc.Error{Err: &plainErr{fmt.Sprint(i)}}
									e.Errors = append(e.Errors, x)
									want = append(want, x)
								}
								thrown := excFamily[t].make(e)
								f := func() { exc.Throw(thrown) }
								for i := 0; i < times-1; i++ {
									reason, g := r.make(), f
									want = append(want, reason)
									f = func() {
										exc.Try(g).Catch(excFamily[t].make(exc.Exception{}), func(x exc.Throwable) { exc.Rethrow(x, reason) }).Unwind()
									}
								}
								reason := r.make()
								want = append(want, reason)
								w.Steps(times)
								left := runMode(exc.Try(f).Catch(excFamily[t].make(exc.Exception{}), func(x exc.Throwable) { exc.Rethrow(x, reason) }), mode)
								if left != interface{}(thrown) {
									return errf("%T left the block instead of the exception thrown", left)
								}
								got := thrown.Exc().Errors
								if len(got) != len(want) {
									return errf("the exception carries %d errors, want %d", len(got), len(want))
								}
								for i := range got {
									if got[i] != want[i] {
										return errf("error %d of the exception is another one", i)
									}
								}
								return ""
							})
						}
						w.DistinctStr(fmt.Sprint(t, carried, r.name, times))
					}
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d exception types carrying up to 9 errors, rethrown up to 3 times with %d kinds of reasons", len(excFamily), len(reasons))
	})
}
