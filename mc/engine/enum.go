package engine

import "fmt"

// Case runs one enumerated case. f returns a description of the disagreement or "". The case is
// re-run five times before it is reported. It is reported even if none of these fails: the run itself was
// one, and a package may keep state from one case to the next.
func (w *W) Case(desc func() string, f func() string) {
	if w.OutOfTime() {
		w.Res.Exhaustive = false
		w.Res.Notes = append(w.Res.Notes, "out of time before: "+desc())
		panic(errStop)
	}
	w.Journal(desc())
	w.Res.Traces++
	m := Guard(f)
	if m == "" {
		return
	}
	n := 0
	for i := 0; i < 5; i++ {
		if Guard(f) != "" {
			n++
		}
	}
	w.Violate([]string{desc()}, m, "", fmt.Sprintf("%d/5 re-runs", n))
}

// Steps counts operations performed on the implementation.
func (w *W) Steps(n int) { w.Res.Transitions += int64(n) }

// Distinct counts a configuration as a state if it was not met before in this job.
func (w *W) Distinct(h Hash) bool {
	if w.distinct == nil {
		w.distinct = map[Hash]struct{}{}
	}
	if _, ok := w.distinct[h]; ok {
		return false
	}
	w.distinct[h] = struct{}{}
	w.Res.States++
	return true
}

// DistinctStr is Distinct for a textual configuration.
func (w *W) DistinctStr(s string) bool {
	var c Canon
	c.a, c.b = k2, k1
	c.mix(uint64(len(s)))
	for i := 0; i < len(s); i += 8 {
		var x uint64
		for j := i; j < len(s) && j < i+8; j++ {
			x |= uint64(s[j]) << (8 * (j - i))
		}
		c.mix(x)
	}
	return w.Distinct(Hash{c.a, c.b})
}
