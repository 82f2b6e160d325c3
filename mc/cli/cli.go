// Package cli is the command line of the checkers: it runs the model-checking jobs of one property.
//
//	mc check  -prop C01 -tier quick -verif /verif      run all jobs, write evidence, report violations
//	mc job    -prop C01 -tier quick -job NAME -out F   run one job (used internally and for replay)
//	mc list
package cli

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/engine"
)

// Main is the command.
func Main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc check|job|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	verif := fs.String("verif", ".", "directory of the verification framework")
	job := fs.String("job", "", "job name")
	out := fs.String("out", "", "result file")
	journal := fs.String("journal", "", "journal file")
	work := fs.String("work", "", "scratch directory")
	only := fs.String("only", "", "substring filter on job names (debugging)")
	budget := fs.Duration("budget", 0, "time budget per job")
	fs.Parse(os.Args[2:])
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 150 * time.Second
		if *tier == "thorough" {
			*budget = 700 * time.Second
		}
	}
	switch os.Args[1] {
	case "list":
		for _, id := range engine.IDs() {
			for _, j := range engine.Lookup(id).Jobs(*tier) {
				fmt.Println(id, j.Name)
			}
		}
	case "job":
		p := engine.Lookup(*prop)
		if p == nil {
			os.Exit(2)
		}
		for _, j := range p.Jobs(*tier) {
			if j.Name == *job {
				engine.RunJob(p, j, *tier, seed, *out, *journal, *budget)
				return
			}
		}
		os.Exit(2)
	case "check":
		os.Exit(check(*prop, *tier, *verif, *work, *only, seed, *budget))
	default:
		os.Exit(2)
	}
}

func check(id, tier, verif, work, only string, seed int64, budget time.Duration) int {
	p := engine.Lookup(id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	start := time.Now()
	if work == "" {
		d, err := os.MkdirTemp("", "mc-"+id+"-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		work = d
		defer os.RemoveAll(d)
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var jobs []engine.Job
	for _, j := range p.Jobs(tier) {
		if only == "" || strings.Contains(j.Name, only) {
			jobs = append(jobs, j)
		}
	}
	total := 600 * time.Second // for all jobs together
	if tier == "thorough" {
		total = 760 * time.Second
	}
	results := make([]*engine.Result, len(jobs))
	errs := make([]string, len(jobs))
	par := runtime.NumCPU()
	if n, e := strconv.Atoi(os.Getenv("MC_PAR")); e == nil && n > 0 {
		par = n
	}
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), id)
	// Once a violation was found the verdict is known: no further job is started and the running ones get a little time
	// to finish.
	ctx, stop := context.WithCancel(context.Background())
	defer stop()
	grace := 10 * time.Second
	if os.Getenv("MC_FAILFAST") != "" {
		grace = 0
	}
	found := make(chan bool)
	var once sync.Once
	decided := func() {
		once.Do(func() {
			close(found)
			time.AfterFunc(grace, stop)
		})
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			select {
			case <-found:
				return
			default:
			}
			b := budget
			if left := total - time.Since(start); left < b {
				b = max(left, 5*time.Second)
			}
			results[i], errs[i] = runJob(ctx, self, id, tier, work, jobs[i].Name, i, seed, b)
			if results[i] != nil {
				for _, v := range results[i].Violations {
					if matchKnown(known, v) == "" {
						decided()
					}
				}
			}
		}(i)
	}
	wg.Wait()
	failed := false
	for i, e := range errs {
		if e != "" {
			fmt.Fprintf(os.Stderr, "job %s: %s\n", jobs[i].Name, e)
			failed = true
		}
	}
	var viol []engine.Violation
	var states, trans, traces, obs int64
	exhaustive := true
	var samples []string
	var bounds []map[string]interface{}
	var notes []string
	printed := map[string]bool{}
	for _, r := range results {
		if r == nil {
			exhaustive = false
			continue
		}
		states += r.States
		trans += r.Transitions
		traces += r.Traces
		obs += r.Observed
		exhaustive = exhaustive && r.Exhaustive
		if len(r.Samples) > 0 && len(samples) < 8 {
			samples = append(samples, r.Job+": "+r.Samples[0])
		}
		bounds = append(bounds, map[string]interface{}{
			"job": r.Job, "states": r.States, "transitions": r.Transitions, "traces": r.Traces,
			"max_depth": r.MaxDepth, "exhaustive": r.Exhaustive, "bound": r.Bound, "wall_s": round(r.WallS),
		})
		for _, n := range r.Notes {
			notes = append(notes, r.Job+": "+n)
		}
		for _, v := range r.Violations {
			if k := matchKnown(known, v); k != "" {
				if !printed[k] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
					printed[k] = true
				}
				continue
			}
			viol = append(viol, v)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Trace) < len(viol[j].Trace) })
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"states_fully_observed": obs, "samples": samples, "exhaustive": exhaustive, "jobs": bounds, "notes": notes,
		},
		"assumptions": p.Assumptions, "wall_s": round(time.Since(start).Seconds()), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d jobs, %d states, %d transitions, %d traces, exhaustive=%v, %.1fs\n", id, tier, len(jobs), states, trans, traces, exhaustive, time.Since(start).Seconds())
	if len(viol) > 0 {
		os.MkdirAll(filepath.Join(verif, "replays"), 0o755)
		rp := filepath.Join(verif, "replays", id+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		for i, v := range viol {
			if i >= 5 {
				break
			}
			fmt.Printf("  %s: %s\n    %s\n", v.Job, v.What, strings.Join(v.Trace, " ; "))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if failed {
		return 2
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func runJob(ctx context.Context, self, id, tier, work, name string, i int, seed int64, budget time.Duration) (*engine.Result, string) {
	for attempt := 0; ; attempt++ {
		out := filepath.Join(work, fmt.Sprintf("job%d.%d.json", i, attempt))
		jr := filepath.Join(work, fmt.Sprintf("job%d.%d.journal", i, attempt))
		cmd := exec.CommandContext(ctx, self, "job", "-prop", id, "-tier", tier, "-job", name, "-out", out, "-journal", jr, "-budget", budget.String())
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		var eb bytes.Buffer
		cmd.Stderr = &limited{b: &eb, n: 1 << 16}
		cmd.Stdout = cmd.Stderr
		err := cmd.Run()
		if b, e := os.ReadFile(out); e == nil && err == nil {
			var r engine.Result
			if json.Unmarshal(b, &r) == nil && r.Done {
				os.Remove(jr)
				return &r, ""
			}
		}
		if ctx.Err() != nil {
			return nil, ""
		}
		// The worker died: a fatal error, a hang or memory exhaustion in the code under test.
		where := journalText(jr)
		what := "worker process died"
		if _, e := os.Stat(out + ".hang"); e == nil {
			what = "operation did not terminate"
		} else if _, e := os.Stat(out + ".mem"); e == nil {
			what = "operation used unbounded memory"
		} else if s := eb.String(); s != "" {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") {
					what = "crash: " + l
					break
				}
			}
		}
		tr := decodeJournal(where, out+".ops")
		if attempt < 1 && what != "operation did not terminate" {
			continue // confirm by running again
		}
		if what == "worker process died" {
			return nil, fmt.Sprintf("worker failed: %v: %s", err, eb.String())
		}
		return &engine.Result{Job: name, Violations: []engine.Violation{{
			Property: id, Job: name, Tier: tier, Trace: tr, What: what, Reproduced: fmt.Sprint(attempt+1, " runs"),
		}}}, ""
	}
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func journalText(f string) string {
	b, err := os.ReadFile(f)
	if err != nil || len(b) < 2 {
		return ""
	}
	n := int(b[0]) | int(b[1])<<8
	if n > len(b)-2 {
		n = len(b) - 2
	}
	return string(b[2 : 2+n])
}

func decodeJournal(s, opsFile string) []string {
	if !strings.HasPrefix(s, "bfs:") {
		return []string{s}
	}
	var ops []string
	if b, err := os.ReadFile(opsFile); err == nil {
		json.Unmarshal(b, &ops)
	}
	var r []string
	for _, b := range []byte(s[4:]) {
		switch {
		case b == 255:
			r = append(r, "<all queries>")
		case int(b) < len(ops):
			r = append(r, ops[b])
		default:
			r = append(r, fmt.Sprintf("op#%d", b))
		}
	}
	return r
}

type known struct{ job, match, text string }

// loadKnown reads known-findings.txt. Lines:
//
//	known: property=<id> job=<job> match=<substring of the violation text> :: <what fails>
//	fixed: property=<id> <commit> <what failed>      (informational, suppresses nothing)
func loadKnown(f, id string) []known {
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var r []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		head, text, ok := strings.Cut(l, " :: ")
		if !ok {
			continue
		}
		k := known{text: text}
		_, rest, _ := strings.Cut(head, "job=")
		job, match, _ := strings.Cut(rest, " match=")
		k.job, k.match = job, match
		if k.job != "" && k.match != "" {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []known, v engine.Violation) string {
	for _, k := range ks {
		if k.job == v.Job && strings.Contains(strings.Join(v.Trace, " ; ")+" => "+v.What, k.match) {
			return k.text
		}
	}
	return ""
}
