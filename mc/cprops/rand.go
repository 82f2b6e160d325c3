package cprops

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	trand "github.com/timtadh/data-structures/rand"

	"verif/mc/engine"
	s "verif/mc/vsched"
)

// draw performs one operation on a generator; the alphabet is shared by the real and the plain generator.
func draw(r *rand.Rand, c byte) string {
	switch c {
	case 'I':
		return fmt.Sprint(r.Int63())
	case 'U':
		return fmt.Sprint(r.Uint64())
	case 'N':
		return fmt.Sprint(r.Intn(10))
	case 'F':
		return fmt.Sprint(r.Float64())
	case 'P':
		return fmt.Sprint(r.Perm(3))
	case 'S':
		r.Seed(5)
		return ""
	case 'T':
		r.Seed(-9)
		return ""
	case 'u':
		return fmt.Sprint(r.Uint32())
	case 'i':
		return fmt.Sprint(r.Int31())
	case 'j':
		return fmt.Sprint(r.Int())
	case 'n':
		return fmt.Sprint(r.Int63n(1<<40 + 7))
	case 'm':
		return fmt.Sprint(r.Int31n(1 << 20))
	case 'f':
		return fmt.Sprint(r.Float32())
	case 'G':
		return fmt.Sprint(r.NormFloat64())
	case 'E':
		return fmt.Sprint(r.ExpFloat64())
	case 'R':
		b := make([]byte, 3)
		n, err := r.Read(b)
		return fmt.Sprint(b, n, err)
	case 'H':
		a := []int{1, 2, 3, 4}
		r.Shuffle(4, func(i, j int) { a[i], a[j] = a[j], a[i] })
		return fmt.Sprint(a)
	}
	panic("unknown operation")
}

type randOp struct {
	op        byte
	call, ret s.Mark
	res       string
}

// linearize looks for an order of the calls, consistent with the order in which they happened, in which a
// plain generator gives the same answers.
func linearize(seed int64, ops []*randOp, memo map[string]string) string {
	n := len(ops)
	done := make([]bool, n)
	var seq []byte
	var want []string
	ref := func(seq string) string { // answer to the last operation of seq
		if v, ok := memo[seq]; ok {
			return v
		}
		r := rand.New(rand.NewSource(seed))
		v := ""
		for i := range seq {
			v = draw(r, seq[i])
		}
		memo[seq] = v
		return v
	}
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == n {
			return true
		}
		for i, o := range ops {
			if done[i] {
				continue
			}
			ok := true
			for j, p := range ops {
				if !done[j] && j != i && p.ret.Before(o.call) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			seq = append(seq, o.op)
			if ref(string(seq)) == o.res {
				done[i] = true
				if rec(k + 1) {
					return true
				}
				done[i] = false
			}
			seq = seq[:len(seq)-1]
		}
		return false
	}
	if rec(0) {
		return ""
	}
	for _, o := range ops {
		want = append(want, string(o.op)+"="+o.res)
	}
	return "no order of the calls explains the numbers drawn: " + strings.Join(want, " ")
}

func randClient(seed int64, threads []string, memo map[string]string) func() func() string {
	return func() func() string {
		r := trand.ThreadSafeRand(seed)
		var ops []*randOp
		act := func(prog string) {
			for i := range prog {
				o := &randOp{op: prog[i], call: s.Now("calls " + prog[i:i+1])}
				ops = append(ops, o)
				o.res = draw(r, prog[i])
				o.ret = s.Now("got " + o.res)
			}
		}
		for i, t := range threads[1:] {
			t := t
			s.GoNamed(fmt.Sprintf("client%d", i+1), func() { act(t) })
		}
		act(threads[0])
		return func() string { return linearize(seed, ops, memo) }
	}
}

func init() {
	engine.Register(&engine.Property{
		ID: "C25",
		Assumptions: []string{
			"methods of rand.Rand that keep state outside the source (Read) are used from one goroutine only",
			"math/rand itself is the reference; sync behaves as documented; unordered conflicting memory accesses are reported as races",
		},
		Jobs: func(tier string) []job {
			q := tier != "thorough"
			js := []job{seqJob("sequences", q), seedJob("seeds", q), longJob("long", q)}
			total := 4
			if !q {
				total = 5
			}
			for t := 2; t <= total; t++ {
				var list []scenario
				alphabet := "IUNFS"
				if t >= 4 {
					alphabet = "IUS"
				}
				for _, p := range programs(alphabet, t, 3, func(t []string) bool { return len(t) > 1 }) {
					for _, seed := range []int64{1, -7} {
						list = append(list, scenario{fmt.Sprintf("seed=%d draws=%s", seed, strings.Join(p, "|")), randClient(seed, p, map[string]string{})})
					}
				}
				parts := 1
				if t >= 4 {
					parts = 4
				}
				js = append(js, split(fmt.Sprintf("draws-%d", t), parts, -1, fmt.Sprintf("all client programs of %d calls from %s in 2 or 3 threads, 2 seeds", t, alphabet), list)...)
			}
			return js
		},
	})
}

// alone runs f as a single thread, with or without the scheduler.
func alone(f func()) string {
	if Instrumented {
		return s.Sequential(f)
	}
	return engine.Guard(func() string { f(); return "" })
}

func seqJob(name string, q bool) job {
	return job{Name: name, Run: func(w *engine.W) {
		const alphabet = "IUuijNnmFfPGEHRST"
		depth := 3
		if !q {
			depth = 4
		}
		seeds := []int64{0, 1, -1, 42, math.MaxInt64, math.MinInt64, 1<<31 - 1, 1 << 31}
		words := []string{""}
		for d := 0; d < depth; d++ {
			var next []string
			for _, p := range words {
				for i := range alphabet {
					next = append(next, p+alphabet[i:i+1])
				}
			}
			words = next
			if d+1 < depth {
				continue
			}
			for _, p := range words {
				p := p
				w.Case(func() string { return p }, func() string {
					what := ""
					if f := alone(func() {
						for _, seed := range seeds {
							r, ref := trand.ThreadSafeRand(seed), rand.New(rand.NewSource(seed))
							for i := range p {
								a, b := draw(r, p[i]), draw(ref, p[i])
								w.Steps(1)
								if a != b && what == "" {
									what = fmt.Sprintf("seed %d, calls %s: call %d gave %s, a plain generator %s", seed, p, i, a, b)
								}
							}
						}
					}); f != "" {
						return f
					}
					return what
				})
				if w.OutOfTime() {
					w.Res.Exhaustive = false
					return
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("all sequences of %d calls from %d operations (all draws, Read, Seed), %d seeds", depth, len(alphabet), len(seeds))
	}}
}

// longJob alternates between two calls for a long time.
func longJob(name string, q bool) job {
	return job{Name: name, Run: func(w *engine.W) {
		const alphabet = "IUuijNnmFfPGEHR"
		n := pick(q, 1500, 10000)
		for a := range alphabet {
			for b := range alphabet {
				a, b := alphabet[a], alphabet[b]
				w.Case(func() string { return fmt.Sprintf("%d times %c%c", n, a, b) }, func() string {
					what := ""
					if f := alone(func() {
						r, ref := trand.ThreadSafeRand(3), rand.New(rand.NewSource(3))
						for i := 0; i < n && what == ""; i++ {
							for _, c := range []byte{a, b} {
								w.Steps(1)
								if x, y := draw(r, c), draw(ref, c); x != y {
									what = fmt.Sprintf("round %d: %c gave %s, a plain generator %s", i, c, x, y)
								}
							}
						}
						for k := 0; k < 300 && a == b && what == ""; k++ {
							w.Steps(1)
							if x, y := fmt.Sprint(r.Perm(k), r.Intn(k+1), r.Int63n(int64(k)<<40+1)), fmt.Sprint(ref.Perm(k), ref.Intn(k+1), ref.Int63n(int64(k)<<40+1)); x != y {
								what = fmt.Sprintf("Perm(%d), Intn(%d) and Int63n gave %s, a plain generator %s", k, k+1, x, y)
							}
						}
					}); f != "" {
						return f
					}
					return what
				})
				if w.OutOfTime() {
					w.Res.Exhaustive = false
					return
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("%d rounds of every pair of %d draws", n, len(alphabet))
	}}
}

func seedJob(name string, q bool) job {
	return job{Name: name, Run: func(w *engine.W) {
		n := int64(2000)
		if !q {
			n = 50000
		}
		for seed := -n; seed <= n; seed++ {
			seed := seed
			w.Case(func() string { return fmt.Sprint("seed ", seed) }, func() string {
				what := ""
				if f := alone(func() {
					r, ref := trand.ThreadSafeRand(seed), rand.New(rand.NewSource(seed))
					k := 4
					if seed%50 == 0 {
						k = 1500 // more than the length of the generator's state
					}
					for i := 0; i < k; i++ {
						w.Steps(1)
						if a, b := r.Uint64(), ref.Uint64(); a != b && what == "" {
							what = fmt.Sprintf("draw %d gave %d, a plain generator %d", i, a, b)
						}
					}
					r.Seed(seed + 1)
					ref.Seed(seed + 1)
					for i := 0; i < 3; i++ {
						if a, b := r.Int63(), ref.Int63(); a != b && what == "" {
							what = fmt.Sprintf("draw %d after re-seeding gave %d, a plain generator %d", i, a, b)
						}
					}
				}); f != "" {
					return f
				}
				return what
			})
			if w.OutOfTime() {
				w.Res.Exhaustive = false
				return
			}
		}
		w.Res.Bound = fmt.Sprintf("all seeds from %d to %d, 4 draws (1500 for every 50th), re-seed, 3 draws", -n, n)
	}}
}
