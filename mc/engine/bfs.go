package engine

import (
	"fmt"
	"time"
)

// Sys is one live system under exploration: the real object together with its reference model.
type Sys interface {
	// Enabled tells whether operation op belongs to the explored space in this state.
	Enabled(op int) bool
	// Apply performs operation op on the implementation and on the model and compares the answers.
	// It returns a description of the disagreement, or "".
	Apply(op int) string
	// Observe compares all queries and iterations of the implementation with the model.
	Observe() string
	// Roots are the values whose object graph, together, is the state.
	Roots() []interface{}
}

// Spec describes a state graph.
type Spec struct {
	New      func() Sys
	Ops      []string
	MaxDepth int // 0: until closure
	// MaxStates stops the exploration (reported as not exhaustive); 0 means no limit.
	MaxStates int
	Hidden    bool // hash slots between len and cap as well
	Bound     string
	// NoConformance skips the final replay of maximal histories with observation after each step.
	NoConformance bool
	// ConformanceMax limits the number of maximal histories replayed (0 = all).
	ConformanceMax int
}

const observeOp = 255

type edge struct {
	parent int32
	op     uint8
	depth  uint16
	leaf   bool
}

// BFS explores the state graph of spec breadth first. Every new state is reached by re-executing its
// shortest history from scratch on a fresh object, so no cloning of the implementation is involved.
func (w *W) BFS(spec Spec) {
	if len(spec.Ops) > 250 {
		panic("too many operations")
	}
	w.saveOps(spec.Ops)
	canon := NewCanon(spec.Hidden)
	visited := map[Hash]int32{}
	var nodes []edge
	var states, transitions int64

	path := func(i int32) []byte {
		n := nodes[i].depth
		p := make([]byte, n)
		for j := int(n) - 1; j >= 0; j-- {
			p[j] = nodes[i].op
			i = nodes[i].parent
		}
		return p
	}
	render := func(p []byte) []string {
		var r []string
		for _, b := range p {
			if b == observeOp {
				r = append(r, "<all queries>")
			} else {
				r = append(r, spec.Ops[b])
			}
		}
		return r
	}
	step := func(s Sys, b byte) string {
		if b == observeOp {
			return Guard(s.Observe)
		}
		return Guard(func() string { return s.Apply(int(b)) })
	}
	// replay executes a history; disagreements are returned with the index of the failing step.
	replay := func(p []byte) (Sys, string, int) {
		s := spec.New()
		for i, b := range p {
			if m := step(s, b); m != "" {
				return s, m, i
			}
		}
		return s, "", -1
	}
	fail := func(p []byte, what string) {
		const times = 5
		n := 0
		for i := 0; i < times; i++ {
			_, m, _ := replay(p)
			if m != "" {
				n++
			}
		}
		tr := render(p)
		w.Res.States += states
		w.Res.Transitions += transitions
		w.Violate(tr, what, "", fmt.Sprintf("%d/%d re-runs", n, times))
	}
	add := func(s Sys, parent int32, op uint8, p []byte) {
		h := canon.Sum(s.Roots()...)
		if _, ok := visited[h]; ok {
			return
		}
		var d uint16
		if parent >= 0 {
			d = nodes[parent].depth + 1
			nodes[parent].leaf = false
		}
		id := int32(len(nodes))
		visited[h] = id
		nodes = append(nodes, edge{parent, op, d, true})
		states++
		if int(d) > w.Res.MaxDepth {
			w.Res.MaxDepth = int(d)
		}
		w.Res.Observed++
		if m := Guard(s.Observe); m != "" {
			fail(append(append([]byte(nil), p...), observeOp), m)
			return
		}
		h2 := canon.Sum(s.Roots()...)
		if h2 != h {
			if _, ok := visited[h2]; !ok {
				id2 := int32(len(nodes))
				visited[h2] = id2
				nodes[id].leaf = false
				nodes = append(nodes, edge{id, observeOp, d + 1, true})
				states++
			}
		}
	}
	s0, _, _ := replay(nil)
	add(s0, -1, 0, nil)
	last := time.Now()
	expanded := 0
loop:
	for i := int32(0); int(i) < len(nodes); i++ {
		if spec.MaxDepth > 0 && int(nodes[i].depth) >= spec.MaxDepth {
			break // breadth first: all remaining are at least as deep
		}
		if spec.MaxStates > 0 && len(nodes) > spec.MaxStates {
			w.Res.Exhaustive = false
			w.Res.Notes = append(w.Res.Notes, "state limit reached")
			break
		}
		p := path(i)
		buf := append(append([]byte(nil), p...), 0)
		s, m, _ := replay(p)
		if m != "" { // nondeterministic implementation
			fail(p, m)
			continue
		}
		for op := range spec.Ops {
			if s == nil {
				s, _, _ = replay(p)
			}
			if !s.Enabled(op) {
				continue
			}
			buf[len(p)] = byte(op)
			w.JournalBytes("bfs:", buf)
			transitions++
			if m := step(s, byte(op)); m != "" {
				fail(buf, m)
				s = nil
				continue
			}
			add(s, i, uint8(op), buf)
			s = nil
		}
		expanded++
		if expanded%64 == 0 && time.Since(last) > 500*time.Millisecond {
			last = time.Now()
			if w.OutOfTime() {
				w.Res.Exhaustive = false
				w.Res.Notes = append(w.Res.Notes, "time budget reached")
				break loop
			}
		}
	}
	w.Res.States += states
	w.Res.Transitions += transitions
	if spec.MaxDepth > 0 {
		w.Res.Bound = spec.Bound + fmt.Sprintf("; all histories up to length %d", spec.MaxDepth)
	} else {
		w.Res.Bound = spec.Bound + "; state graph explored until no new state appeared"
	}
	// Conformance pass: replay every maximal history (a leaf of the search tree), now with all queries
	// after every single step instead of only at the end.
	if !spec.NoConformance {
		n := 0
		for i := len(nodes) - 1; i >= 0; i-- {
			if !nodes[i].leaf {
				continue
			}
			if spec.ConformanceMax > 0 && n >= spec.ConformanceMax {
				break
			}
			if w.OutOfTime() {
				w.Res.Notes = append(w.Res.Notes, "time budget reached during conformance pass")
				break
			}
			p := path(int32(i))
			var q []byte
			for _, b := range p {
				q = append(q, b)
				if b != observeOp {
					q = append(q, observeOp)
				}
			}
			w.JournalBytes("bfs:", q)
			if _, m, k := replay(q); m != "" {
				fail(q[:k+1], m)
			}
			n++
			w.Res.Traces++
		}
	}
	if len(nodes) > 0 {
		w.Sample(fmt.Sprintf("%v", render(path(int32(len(nodes)-1)))))
		w.Sample(fmt.Sprintf("%v", render(path(int32(len(nodes)/2)))))
	}
}
