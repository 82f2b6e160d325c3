// Package cprops has the properties of concurrent code, decided by enumerating schedules.
package cprops

import (
	"fmt"
	"strings"

	"verif/mc/engine"
	"verif/mc/vsched"
)

// Instrumented tells whether the packages under test were rewritten for the scheduler.
var Instrumented = true

type job = engine.Job

// explorer runs scenarios for one job and adds up what they covered.
type explorer struct {
	w          *engine.W
	preempt    int
	policy     int
	scenarios  int
	skipped    int
	maxSteps   int
	maxThr     int
	bySchedule []string
}

func newExplorer(w *engine.W) *explorer { return &explorer{w: w, preempt: -1} }

// run explores all schedules of one scenario.
func (e *explorer) run(name string, prog func() func() string) {
	w := e.w
	if !Instrumented || w.OutOfTime() {
		e.skipped++
		return
	}
	x := &vsched.Explorer{MaxPreempt: e.preempt, Policy: e.policy}
	if e.policy != 0 {
		x.MaxSteps = 200000
	}
	w.Journal(name)
	n := 0
	x.Tick = func() bool {
		n++
		if n%64 == 0 {
			w.Journal(name)
			return !w.OutOfTime()
		}
		return true
	}
	fail, trace, again := x.Explore(prog)
	e.scenarios++
	w.Res.States += x.States()
	w.Res.Transitions += x.Steps
	w.Res.Traces += x.Execs
	w.Res.Observed += x.Terminal
	w.Res.MaxDepth = max(w.Res.MaxDepth, x.MaxDepth)
	e.maxThr = max(e.maxThr, x.Threads)
	w.Sample(fmt.Sprintf("%s: %d states, %d executions, %d complete", name, x.States(), x.Execs, x.Terminal))
	if x.Incomplete != "" {
		w.Res.Exhaustive = false
		w.Res.Notes = append(w.Res.Notes, name+": incomplete: "+x.Incomplete)
	}
	if fail != "" {
		if again == 0 {
			w.Res.Exhaustive = false
			w.Res.Notes = append(w.Res.Notes, fmt.Sprintf("%s: not reproduced (%d of 5): %s", name, again, fail))
			return
		}
		w.Violate(append([]string{"scenario " + name}, trace...), fail, name, fmt.Sprintf("%d of 5", again))
	}
}

func (e *explorer) finish(bound string) {
	w := e.w
	w.Res.Bound = fmt.Sprintf("%s; %d scenarios, up to %d threads, all schedules", bound, e.scenarios, e.maxThr)
	if e.policy != 0 {
		w.Res.Bound = fmt.Sprintf("%s; %d scenarios, up to %d threads, all schedules with at most %d deviations from each of %d schedulers", bound, e.scenarios, e.maxThr, e.preempt, vsched.Policies-1)
	} else if e.preempt >= 0 {
		w.Res.Bound += fmt.Sprintf(" with at most %d preemptions", e.preempt)
	}
	if e.skipped > 0 {
		w.Res.Exhaustive = false
		why := "out of time"
		if !Instrumented {
			why = "the sources could not be rewritten for the scheduler"
		}
		w.Res.Notes = append(w.Res.Notes, fmt.Sprintf("%d scenarios not run: %s", e.skipped, why))
	}
}

// programs enumerates the multisets of thread programs with the given numbers of actions in total, at most
// maxThreads threads. Programs are strings over the alphabet.
func programs(alphabet string, total, maxThreads int, ok func(threads []string) bool) [][]string {
	var words []string
	var gen func(prefix string)
	gen = func(prefix string) {
		if len(prefix) > 0 {
			words = append(words, prefix)
		}
		if len(prefix) == total {
			return
		}
		for _, c := range alphabet {
			gen(prefix + string(c))
		}
	}
	gen("")
	var out [][]string
	var pick func(from, left int, cur []string)
	pick = func(from, left int, cur []string) {
		if left == 0 {
			if ok(cur) {
				out = append(out, append([]string{}, cur...))
			}
			return
		}
		if len(cur) == maxThreads {
			return
		}
		for i := from; i < len(words); i++ {
			if len(words[i]) <= left {
				pick(i, left-len(words[i]), append(cur, words[i]))
			}
		}
	}
	pick(0, total, nil)
	return out
}

func pick(quick bool, q, t int) int {
	if quick {
		return q
	}
	return t
}

func count(threads []string, c string) int { return strings.Count(strings.Join(threads, ""), c) }
