package cprops

import (
	"fmt"
	"strings"

	"github.com/timtadh/data-structures/pool"

	"verif/mc/engine"
	s "verif/mc/vsched"
)

// task is one submission and the task it hands over.
type task struct {
	call, ret     s.Mark
	err           error
	runs          int
	start, finish s.Mark
	worker        int
}

type span struct {
	call, ret s.Mark
	unlock    s.Mark // WaitLock: the call of Unlock
	n         int    // WaitCount: the answer
}

// history is what one execution of a client program showed.
type history struct {
	p     *pool.Pool
	tasks []*task
	stops []*span
	locks []*span
	cnts  []*span
	gates []*s.Chan[int]
}

func (h *history) do(gate *s.Chan[int]) {
	t := &task{}
	h.tasks = append(h.tasks, t)
	t.call = s.Now("calls Do")
	t.err = h.p.Do(func() {
		t.runs++
		if t.runs > 1 {
			s.Fail("a task ran twice")
		}
		t.start = s.Now("task starts")
		if gate != nil {
			s.Recv(gate)
		}
		t.finish = s.Now("task finishes")
	})
	t.ret = s.Now("Do returned")
}

func (h *history) stop() {
	x := &span{call: s.Now("calls Stop")}
	h.stops = append(h.stops, x)
	h.p.Stop()
	x.ret = s.Now("Stop returned")
}

func (h *history) waitLock(inside func()) {
	x := &span{call: s.Now("calls WaitLock")}
	h.locks = append(h.locks, x)
	h.p.WaitLock()
	x.ret = s.Now("WaitLock returned")
	if inside != nil {
		inside()
	}
	x.unlock = s.Now("calls Unlock")
	h.p.Unlock()
}

func (h *history) waitCount() {
	x := &span{call: s.Now("calls WaitCount")}
	h.cnts = append(h.cnts, x)
	x.n = h.p.WaitCount()
	x.ret = s.Now("WaitCount returned")
}

func (h *history) act(prog string) {
	for _, c := range prog {
		switch c {
		case 'D':
			h.do(nil)
		case 'S':
			h.stop()
		case 'L':
			h.waitLock(nil)
		case 'C':
			h.waitCount()
		}
	}
}

// checkTasks is what C23 demands of a finished execution.
func (h *history) checkTasks() string {
	for _, t := range h.tasks {
		if t.err == nil && t.runs != 1 {
			return fmt.Sprintf("a task was accepted and ran %d times", t.runs)
		}
		if t.err == nil && !t.finish.Set() {
			return "an accepted task did not finish"
		}
		if t.err != nil && t.runs != 0 {
			return "a task ran although its submission reported an error"
		}
		if t.err != nil {
			stopped := false
			for _, x := range h.stops {
				stopped = stopped || !t.ret.Before(x.call)
			}
			if !stopped {
				return "a submission reported an error although the pool was not stopped: " + strings.SplitN(t.err.Error(), "\n", 2)[0]
			}
		}
		if len(h.stops) > 0 && t.err == nil {
			after := true
			for _, x := range h.stops {
				after = after && x.ret.Before(t.call)
			}
			if after {
				return "a submission was accepted after Stop returned"
			}
		}
	}
	if len(h.stops) > 0 {
		some := false
		for _, x := range h.stops {
			all := true
			for _, t := range h.tasks {
				if t.err == nil && !t.finish.Before(x.ret) {
					all = false
				}
			}
			some = some || all
		}
		if !some {
			return "no Stop call waited for all accepted tasks to finish"
		}
	}
	return ""
}

// accounted tells whether the task's end had been taken into account before m: its worker went on to another
// task, or an operation that waits for it returned.
func (h *history) accounted(t *task, m s.Mark) bool {
	if !t.finish.Set() {
		return false
	}
	for _, o := range h.tasks {
		if o != t && o.start.Set() && o.start.SameThread(t.finish) && t.finish.Before(o.start) && o.start.Before(m) {
			return true
		}
	}
	for _, l := range h.locks {
		if l.ret.Set() && t.finish.Before(l.ret) && l.ret.Before(m) {
			return true
		}
	}
	return false
}

// checkWaits is what C24 demands of a finished execution.
func (h *history) checkWaits() string {
	for _, l := range h.locks {
		for _, t := range h.tasks {
			if t.err != nil {
				continue
			}
			switch {
			case t.finish.Set() && t.finish.Before(l.ret):
			case l.unlock.Before(t.ret) && l.unlock.Before(t.start):
			case t.ret.Before(l.ret):
				return "WaitLock returned although an accepted task had not finished"
			case !l.unlock.Before(t.start) && !t.finish.Before(l.ret):
				return "a task ran between WaitLock and Unlock, or could have"
			default:
				return "a submission was accepted between WaitLock and Unlock"
			}
		}
	}
	for _, c := range h.cnts {
		low, high, sure := 0, 0, false
		for _, t := range h.tasks {
			if c.ret.Before(t.call) || t.err != nil && t.ret.Before(c.call) {
				continue
			}
			if !h.accounted(t, c.call) {
				high++
			}
			if t.err == nil && t.ret.Before(c.call) && c.ret.Before(t.finish) {
				low++
				sure = true
			}
		}
		if sure {
			// it had to wait for the end of some task, which is not outstanding any more
			woke := false
			for _, t := range h.tasks {
				if t.err == nil && t.finish.Set() && !c.ret.Before(t.finish) && !h.accounted(t, c.call) {
					woke = true
				}
			}
			if !woke {
				return fmt.Sprintf("WaitCount returned %d although tasks were outstanding and none had finished", c.n)
			}
			high--
		}
		if c.n < low || c.n > high {
			return fmt.Sprintf("WaitCount returned %d, but between %d and %d tasks were outstanding", c.n, low, high)
		}
	}
	return ""
}

// client runs a client program: one thread per element.
func client(workers int, threads []string, check func(h *history) string) func() func() string {
	return func() func() string {
		h := &history{p: pool.New(workers)}
		for i, t := range threads[1:] {
			t := t
			s.GoNamed(fmt.Sprintf("client%d", i+1), func() { h.act(t) })
		}
		h.act(threads[0])
		return func() string { return check(h) }
	}
}

// full runs clients against a pool whose queues are full: the main thread fills them without branching and
// blocks in one more submission.
func full(workers int, threads []string, check func(h *history) string) func() func() string {
	return func() func() string {
		s.Prepare()
		h := &history{p: pool.New(workers)}
		for i, t := range threads {
			t := t
			s.GoNamed(fmt.Sprintf("client%d", i+1), func() { h.act(t) })
		}
		for i := 0; i < workers*100+1; i++ {
			h.do(nil)
		}
		s.Branch()
		return func() string { return check(h) }
	}
}

// gated runs clients against tasks that end one after the other when their gate opens. With idle the gates
// open only when nothing else can move.
func gated(workers, tasks int, threads []string, idle bool, check func(h *history) string) func() func() string {
	return func() func() string {
		h := &history{p: pool.New(workers)}
		var gates []*s.Chan[int]
		for i := 0; i < tasks; i++ {
			gates = append(gates, s.MakeChan[int](1))
			h.do(gates[i])
		}
		for i, t := range threads {
			t := t
			s.GoNamed(fmt.Sprintf("client%d", i+1), func() { h.act(t) })
		}
		if idle {
			s.GoIdle("opener", func() {
				var waiting map[*span]bool
				for i, g := range gates {
					s.Event("everything waits", 60, nil)
					now := map[*span]bool{}
					for _, c := range h.cnts {
						if !c.ret.Set() {
							now[c] = true
							if waiting[c] && h.tasks[i-1].finish.Set() {
								s.Fail("WaitCount did not return although a task finished while it was waiting")
							}
						}
					}
					waiting = now
					s.Send(g, 1)
				}
			})
		} else {
			for _, g := range gates {
				s.Send(g, 1)
			}
		}
		return func() string { return check(h) }
	}
}

func checkC23(h *history) string { return h.checkTasks() }

func checkC24(h *history) string { return h.checkWaits() }

// scenario is one program to explore.
type scenario struct {
	name string
	prog func() func() string
}

// split turns a list of scenarios into jobs.
func split(name string, parts, preempt int, bound string, list []scenario) []job {
	var js []job
	for k := 0; k < parts; k++ {
		k := k
		n := name
		if parts > 1 {
			n = fmt.Sprintf("%s.%d", name, k)
		}
		js = append(js, job{Name: n, Run: func(w *engine.W) {
			e := newExplorer(w)
			e.preempt = preempt
			for i, sc := range list {
				if i%parts == k {
					e.run(sc.name, sc.prog)
				}
			}
			e.finish(bound)
		}})
	}
	return js
}

func suffix(preempt int) string {
	if preempt < 0 {
		return ""
	}
	return fmt.Sprintf("-p%d", preempt)
}

func clients(alphabet string, workers, total, maxThreads, parts, preempt int, ok func([]string) bool, check func(h *history) string) []job {
	var list []scenario
	for _, p := range programs(alphabet, total, maxThreads, ok) {
		list = append(list, scenario{fmt.Sprintf("workers=%d clients=%s", workers, strings.Join(p, "|")), client(workers, p, check)})
	}
	return split(fmt.Sprintf("clients-%dw-%da-%s%s", workers, total, alphabet, suffix(preempt)), parts, preempt,
		fmt.Sprintf("%d workers, all client programs of %d actions from %s in at most %d threads", workers, total, alphabet, maxThreads), list)
}

func fulls(alphabet string, workers, total, maxThreads, parts, preempt int, ok func([]string) bool, check func(h *history) string) []job {
	var list []scenario
	for _, p := range programs(alphabet, total, maxThreads, ok) {
		list = append(list, scenario{fmt.Sprintf("full queues, workers=%d clients=%s", workers, strings.Join(p, "|")), full(workers, p, check)})
	}
	return split(fmt.Sprintf("full-%dw-%da%s", workers, total, suffix(preempt)), parts, preempt,
		fmt.Sprintf("%d workers with full queues and a blocked submission, all client programs of %d actions from %s in at most %d threads", workers, total, alphabet, maxThreads), list)
}

func gates(alphabet string, workers, tasks, total, maxThreads, parts, preempt int, ok func([]string) bool, check func(h *history) string) []job {
	var list []scenario
	for _, p := range programs(alphabet, total, maxThreads, ok) {
		for _, idle := range []bool{true, false} {
			list = append(list, scenario{fmt.Sprintf("workers=%d gated tasks=%d clients=%s idle=%v", workers, tasks, strings.Join(p, "|"), idle), gated(workers, tasks, p, idle, check)})
		}
	}
	return split(fmt.Sprintf("gated-%dw-%dt-%da%s", workers, tasks, total, suffix(preempt)), parts, preempt,
		fmt.Sprintf("%d workers, %d tasks ending one by one, all client programs of %d actions from %s in at most %d threads", workers, tasks, total, alphabet, maxThreads), list)
}

// larges runs larger pools and many tasks under several schedulers. Programs are words over the actions;
// a digit N stands for tasks/N submissions.
func larges(name string, delay int, workers, tasks []int, progs []string, check func(h *history) string) []job {
	return []job{{Name: fmt.Sprintf("large-%s-d%d", name, delay), Run: func(w *engine.W) {
		e := newExplorer(w)
		e.preempt = delay
		for _, n := range workers {
			for _, k := range tasks {
				for _, p := range progs {
					for e.policy = 1; e.policy < s.Policies; e.policy++ {
						var threads []string
						for _, t := range strings.Split(p, "|") {
							for d := 1; d <= 3; d++ {
								t = strings.ReplaceAll(t, fmt.Sprint(d), strings.Repeat("D", k/d))
							}
							threads = append(threads, t)
						}
						e.run(fmt.Sprintf("workers=%d tasks=%d clients=%s scheduler=%d", n, k, p, e.policy), client(n, threads, check))
					}
				}
			}
		}
		e.policy = 1
		e.finish(fmt.Sprintf("workers %v, tasks %v, clients %v", workers, tasks, progs))
	}}}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C23",
		Assumptions: []string{
			"tasks do not call the pool and do not panic",
			"sync, channels, select, goroutines and math/rand behave as documented; schedules are sequentially consistent, and unordered conflicting memory accesses are reported as races",
			"with several concurrent Stop calls, at least one of them waits for the tasks",
		},
		Jobs: func(tier string) []job {
			q := tier != "thorough"
			var js []job
			any := func(t []string) bool { return count(t, "D") > 0 }
			every := func(t []string) bool { return true }
			js = append(js, fulls("DS", 2, 1, 2, 2, 1, every, checkC23)...)
			js = append(js, clients("DS", 2, 4, 3, 8, -1, any, checkC23)...)
			js = append(js, fulls("DS", 1, 1, 2, 1, 2, every, checkC23)...)
			js = append(js, fulls("DS", 1, 2, 2, 1, 1, every, checkC23)...)
			js = append(js, fulls("DS", 2, 2, 2, 1, 0, every, checkC23)...)
			for total := 1; total <= 3; total++ {
				js = append(js, clients("DS", 1, total, 3, 1, -1, any, checkC23)...)
				js = append(js, clients("DS", 2, total, 3, 1, -1, any, checkC23)...)
				js = append(js, clients("DS", 3, total, 3, 1, -1, any, checkC23)...)
			}
			js = append(js, clients("DS", 1, 4, 4, 1, -1, any, checkC23)...)
			progs := []string{"1S", "1SD", "S1", "2|2S", "2S|2S", "3|3|3S", "1|S"}
			js = append(js, larges("many", 0, []int{1, 2, 3, 4, 5, 8, 12}, []int{0, 1, 2, 3, 5, 8, 13, 50, 99, 100, 101, 102, 150, 201, 302, 420}, progs, checkC23)...)
			js = append(js, larges("few", 1, []int{4, 5, 8, 12}, []int{1, 2, 3, 5}, progs, checkC23)...)
			js = append(js, larges("wide", pick(q, 3, 4), []int{3, 4}, []int{2, 3}, progs, checkC23)...)
			js = append(js, larges("five", 2, []int{5, 8}, []int{2, 4}, progs, checkC23)...)
			js = append(js, larges("deep", pick(q, 1, 2), []int{1}, []int{103}, progs, checkC23)...)
			js = append(js, larges("long", 1, []int{1, 2}, []int{17, 40}, progs, checkC23)...)
			js = append(js, clients("DS", 3, 4, 3, 4, 2, any, checkC23)...)
			js = append(js, clients("DS", 2, 5, 3, 4, 1, any, checkC23)...)
			if !q {
				js = append(js, clients("DS", 1, 5, 3, 8, -1, any, checkC23)...)
				js = append(js, clients("DS", 2, 5, 3, 16, 3, any, checkC23)...)
				js = append(js, clients("DS", 3, 4, 3, 16, 4, any, checkC23)...)
				js = append(js, clients("DS", 2, 6, 4, 16, 1, any, checkC23)...)
				js = append(js, fulls("DS", 1, 2, 2, 7, 2, every, checkC23)...)
				js = append(js, fulls("DS", 2, 2, 2, 7, 1, every, checkC23)...)
			}
			return js
		},
	})
	engine.Register(&engine.Property{
		ID: "C24",
		Assumptions: []string{
			"tasks do not call the pool and do not panic; a client does not submit or wait while it holds the wait lock itself",
			"sync, channels, select, goroutines and math/rand behave as documented; schedules are sequentially consistent, and unordered conflicting memory accesses are reported as races",
		},
		Jobs: func(tier string) []job {
			q := tier != "thorough"
			var js []job
			any := func(t []string) bool { return count(t, "D") > 0 && count(t, "L")+count(t, "C") > 0 }
			every := func(t []string) bool { return true }
			js = append(js, clients("DLC", 2, 4, 3, 8, -1, any, checkC24)...)
			js = append(js, gates("DLC", 2, 3, 2, 2, 8, 2, every, checkC24)...)
			js = append(js, gates("DLC", 2, 2, 2, 2, 1, -1, every, checkC24)...)
			js = append(js, fulls("LC", 1, 1, 2, 1, 1, every, checkC24)...)
			js = append(js, fulls("LC", 2, 1, 2, 1, 0, every, checkC24)...)
			js = append(js, fulls("LC", 1, 2, 2, 5, 1, every, checkC24)...)
			js = append(js, clients("DLC", 1, 4, 3, 4, -1, any, checkC24)...)
			js = append(js, clients("DLCS", 2, 4, 3, 4, 1, any, checkC24)...)
			js = append(js, clients("DLCS", 3, 3, 3, 1, 3, any, checkC24)...)
			for n := 1; n <= 2; n++ {
				for total := 2; total <= 3; total++ {
					js = append(js, clients("DLCS", n, total, 3, 1, -1, any, checkC24)...)
				}
				for tasks := 1; tasks <= 3; tasks++ {
					js = append(js, gates("DLC", n, tasks, 1, 2, 1, -1, every, checkC24)...)
					if n == 1 || tasks == 1 {
						js = append(js, gates("DLC", n, tasks, 2, 2, 1, -1, every, checkC24)...)
					}
				}
			}
			progs := []string{"1L1", "1C", "1|L", "1|CC", "2|2L", "2L|2L", "2|2|LC", "1L1S|C"}
			js = append(js, larges("many", 0, []int{1, 2, 3, 4, 5, 8, 12}, []int{0, 1, 2, 3, 5, 8, 13, 50, 99, 100, 101, 102, 150, 201, 302, 420}, progs, checkC24)...)
			js = append(js, larges("few", 1, []int{4, 5, 8, 12}, []int{1, 2, 3, 5}, progs, checkC24)...)
			js = append(js, larges("wide", pick(q, 3, 4), []int{3, 4}, []int{2, 3}, progs, checkC24)...)
			js = append(js, larges("five", 2, []int{5, 8}, []int{2, 4}, progs, checkC24)...)
			js = append(js, larges("deep", pick(q, 1, 2), []int{1}, []int{103}, progs, checkC24)...)
			js = append(js, larges("long", 1, []int{1, 2}, []int{17, 40}, progs, checkC24)...)
			if !q {
				js = append(js, clients("DLCS", 2, 4, 3, 16, -1, any, checkC24)...)
				js = append(js, clients("DLCS", 1, 5, 3, 16, 3, any, checkC24)...)
				js = append(js, gates("DLC", 2, 3, 2, 2, 15, -1, every, checkC24)...)
				js = append(js, gates("DLC", 2, 2, 3, 3, 16, 3, every, checkC24)...)
				js = append(js, fulls("LC", 1, 1, 2, 2, 2, every, checkC24)...)
				js = append(js, fulls("LC", 1, 2, 2, 5, 2, every, checkC24)...)
				js = append(js, fulls("LC", 2, 1, 2, 2, 1, every, checkC24)...)
			}
			return js
		},
	})
}
