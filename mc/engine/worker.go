package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Job is one independently explorable part of a property; each job runs in its own process.
type Job struct {
	Name string
	Run  func(w *W)
}

// Property is what the props packages register.
type Property struct {
	ID          string
	Jobs        func(tier string) []Job
	Assumptions []string
}

var registry = map[string]*Property{}

// Register adds a property to the registry.
func Register(p *Property) { registry[p.ID] = p }

// Lookup finds a registered property.
func Lookup(id string) *Property { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Violation describes one failing history or case.
type Violation struct {
	Property   string   `json:"property"`
	Job        string   `json:"job"`
	Tier       string   `json:"tier"`
	Trace      []string `json:"trace"`
	What       string   `json:"what"`
	Signature  string   `json:"signature"`
	Reproduced string   `json:"reproduced,omitempty"`
}

// Result is what one job measured.
type Result struct {
	Job         string      `json:"job"`
	States      int64       `json:"states"`
	Transitions int64       `json:"transitions"`
	Traces      int64       `json:"traces"`
	Observed    int64       `json:"observations"`
	MaxDepth    int         `json:"max_depth"`
	Exhaustive  bool        `json:"exhaustive"`
	Bound       string      `json:"bound"`
	Samples     []string    `json:"samples"`
	Violations  []Violation `json:"violations"`
	WallS       float64     `json:"wall_s"`
	Done        bool        `json:"done"`
	Notes       []string    `json:"notes,omitempty"`
}

// W is the context of a running job.
type W struct {
	Property string
	Tier     string
	Seed     int64
	Res      Result
	Deadline time.Time

	journal  []byte
	progress atomic.Int64
	start    time.Time
	out      string
	distinct map[Hash]struct{}
}

// Quick tells whether this is the quick tier.
func (w *W) Quick() bool { return w.Tier != "thorough" }

// Pick returns q on the quick tier and t on the thorough tier.
func (w *W) Pick(q, t int) int {
	if w.Quick() {
		return q
	}
	return t
}

const journalSize = 1 << 16

// StepLimit is how long a single step of the code under test may take before it is reported as not
// terminating. Steps normally take microseconds.
var StepLimit = 90 * time.Second

func init() {
	if d, err := time.ParseDuration(os.Getenv("MC_STEPLIMIT")); err == nil && d > 0 {
		StepLimit = d
	}
}

// HeapLimit is the live heap above which the job is stopped; the explorer itself stays far below it.
const HeapLimit = 3000 << 20

// RunJob runs one job in this process and writes its result to out.
func RunJob(p *Property, job Job, tier string, seed int64, out, journal string, budget time.Duration) {
	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2500 << 20)
	w := &W{Property: p.ID, Tier: tier, Seed: seed, out: out, start: time.Now()}
	w.Deadline = w.start.Add(budget)
	w.Res.Job = job.Name
	w.Res.Exhaustive = true
	if journal != "" {
		f, err := os.OpenFile(journal, os.O_RDWR|os.O_CREATE, 0o644)
		if err == nil {
			if f.Truncate(journalSize) == nil {
				m, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
				if err == nil {
					w.journal = m
				}
			}
			f.Close()
		}
	}
	go w.watch()
	func() {
		defer func() {
			if e := recover(); e != nil {
				if e == errStop {
					return
				}
				panic(e)
			}
		}()
		job.Run(w)
	}()
	w.Res.Done = true
	w.write()
}

var errStop = fmt.Errorf("stop")

func (w *W) write() {
	w.Res.WallS = time.Since(w.start).Seconds()
	b, _ := json.Marshal(w.Res)
	_ = os.WriteFile(w.out+".tmp", b, 0o644)
	_ = os.Rename(w.out+".tmp", w.out)
}

func (w *W) watch() {
	last := int64(-1)
	since := time.Now()
	for {
		time.Sleep(250 * time.Millisecond)
		n := w.progress.Load()
		if n != last {
			last, since = n, time.Now()
		} else if time.Since(since) > StepLimit {
			os.WriteFile(w.out+".hang", w.journalText(), 0o644)
			os.Exit(70)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > HeapLimit {
			os.WriteFile(w.out+".mem", w.journalText(), 0o644)
			os.Exit(71)
		}
	}
}

func (w *W) journalText() []byte {
	if w.journal == nil {
		return nil
	}
	n := int(w.journal[0]) | int(w.journal[1])<<8
	return append([]byte(nil), w.journal[2:2+n]...)
}

// Journal records what is about to run, so that a crash or hang of the process can be attributed.
func (w *W) Journal(s string) {
	w.progress.Add(1)
	if w.journal == nil {
		return
	}
	n := copy(w.journal[2:], s)
	w.journal[0], w.journal[1] = byte(n), byte(n>>8)
}

// JournalBytes is Journal for a byte path.
func (w *W) JournalBytes(tag string, path []byte) {
	w.progress.Add(1)
	if w.journal == nil {
		return
	}
	n := copy(w.journal[2:], tag)
	n += copy(w.journal[2+n:], path)
	w.journal[0], w.journal[1] = byte(n), byte(n>>8)
}

// saveOps stores the operation names next to the result, for decoding a crash journal.
func (w *W) saveOps(ops []string) {
	b, _ := json.Marshal(ops)
	_ = os.WriteFile(w.out+".ops", b, 0o644)
}

// OutOfTime tells whether the job's time budget is used up.
func (w *W) OutOfTime() bool { return time.Now().After(w.Deadline) }

// Sample keeps a few written-out cases.
func (w *W) Sample(s string) {
	if len(w.Res.Samples) < 6 {
		w.Res.Samples = append(w.Res.Samples, s)
	}
}

// Violate records a violation and stops the job.
func (w *W) Violate(trace []string, what, sig, repro string) {
	w.Res.Violations = append(w.Res.Violations, Violation{
		Property: w.Property, Job: w.Res.Job, Tier: w.Tier, Trace: trace, What: what, Signature: sig, Reproduced: repro,
	})
	panic(errStop)
}

// Guard runs f and turns a panic of the code under test into a description.
func Guard(f func() string) (res string) {
	defer func() {
		if e := recover(); e != nil {
			if e == errStop {
				panic(e)
			}
			res = fmt.Sprintf("panic: %v%s", e, panicSite())
		}
	}()
	return f()
}

func panicSite() string {
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	seen := false
	for i := 0; i < len(lines); i++ {
		if strings.HasPrefix(lines[i], "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(lines[i], "/repo/") {
			s := strings.TrimSpace(lines[i])
			if k := strings.Index(s, " +0x"); k > 0 {
				s = s[:k]
			}
			return " at " + s
		}
	}
	return ""
}
