package props

import (
	"fmt"

	"github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// nodeMap drives the node-level API (a nil node is the empty tree) through the map interface.
type nodeMap struct{ n *avl.AvlNode }

func (m *nodeMap) Size() int                                 { return m.n.Size() }
func (m *nodeMap) Has(k types.Hashable) bool                 { return m.n.Has(k) }
func (m *nodeMap) Iterate() types.KVIterator                 { return m.n.Iterate() }
func (m *nodeMap) Keys() types.KIterator                     { return m.n.Keys() }
func (m *nodeMap) Values() types.Iterator                    { return m.n.Values() }
func (m *nodeMap) Root() types.TreeNode                      { return m.n }
func (m *nodeMap) Get(k types.Hashable) (interface{}, error) { return m.n.Get(k) }
func (m *nodeMap) Put(k types.Hashable, v interface{}) error {
	had := m.n.Has(k)
	n, updated := m.n.Put(k, v)
	m.n = n
	if updated != had {
		return errors.Errorf("put reported updated=%v, key was present=%v", updated, had)
	}
	return nil
}
func (m *nodeMap) Remove(k types.Hashable) (interface{}, error) {
	n, v, err := m.n.Remove(k)
	m.n = n // also valid after an error
	return v, err
}

// immNodeMap is the same for the immutable nodes. keepOnError selects whether the node returned by a
// failed removal replaces the current one (both are legitimate uses).
type immNodeMap struct {
	n           *avl.ImmutableAvlNode
	keepOnError bool
}

func (m *immNodeMap) Size() int                                 { return m.n.Size() }
func (m *immNodeMap) Has(k types.Hashable) bool                 { return m.n.Has(k) }
func (m *immNodeMap) Iterate() types.KVIterator                 { return m.n.Iterate() }
func (m *immNodeMap) Keys() types.KIterator                     { return m.n.Keys() }
func (m *immNodeMap) Values() types.Iterator                    { return m.n.Values() }
func (m *immNodeMap) Root() types.TreeNode                      { return m.n }
func (m *immNodeMap) Get(k types.Hashable) (interface{}, error) { return m.n.Get(k) }
func (m *immNodeMap) Put(k types.Hashable, v interface{}) error {
	had := m.n.Has(k)
	n, updated := m.n.Put(k, v)
	m.n = n
	if updated != had {
		return errors.Errorf("put reported updated=%v, key was present=%v", updated, had)
	}
	return nil
}
func (m *immNodeMap) Remove(k types.Hashable) (interface{}, error) {
	n, v, err := m.n.Remove(k)
	if err == nil || !m.keepOnError {
		m.n = n
	}
	return v, err
}

type rooted interface{ Root() types.TreeNode }

func asBinary(t types.TreeNode) types.BinaryTreeNode {
	if types.IsNil(t) {
		return nil
	}
	return t.(types.BinaryTreeNode)
}

// inorderRef walks a binary tree recursively through Left and Right.
func inorderRef(n types.BinaryTreeNode, f func(types.BinaryTreeNode)) {
	if n == nil || isNilNode(n) {
		return
	}
	inorderRef(n.Left(), f)
	f(n)
	inorderRef(n.Right(), f)
}

func isNilNode(n types.TreeNode) bool {
	switch x := n.(type) {
	case nil:
		return true
	case *avl.AvlNode:
		return x == nil
	case *avl.ImmutableAvlNode:
		return x == nil
	}
	return false
}

func kvOf(s *mapSys) (want []pair) {
	for k, e := range s.model {
		if e.has {
			want = append(want, pair{s.c.keys[k], s.c.value(k, int(e.v))})
		}
	}
	return
}

// checkRootNodes: the nodes reachable from the root are exactly the live entries, in search order.
func checkRootNodes(s *mapSys) string {
	root := s.m.(rooted).Root()
	if isNilNode(root) {
		if s.n != 0 {
			return errf("root is nil but %d entries are live", s.n)
		}
		return ""
	}
	var got []pair
	inorderRef(root.(types.BinaryTreeNode), func(n types.BinaryTreeNode) { got = append(got, pair{n.Key(), n.Value()}) })
	return cmpPairs("in-order walk from the root", got, kvOf(s), true)
}

type heighted interface{ Height() int }

// realHeight checks balance below n and returns its real height.
func realHeight(n types.BinaryTreeNode, tol int) (int, string) {
	if isNilNode(n) {
		return 0, ""
	}
	l, m := realHeight(n.Left(), tol)
	if m != "" {
		return 0, m
	}
	r, m := realHeight(n.Right(), tol)
	if m != "" {
		return 0, m
	}
	h := l + 1
	if r > l {
		h = r + 1
	}
	if l-r > tol || r-l > tol {
		return h, errf("node %v: subtree heights %d and %d", n.Key(), l, r)
	}
	if x, ok := n.(heighted); ok && x.Height() != h {
		return h, errf("node %v reports height %d, real height %d", n.Key(), x.Height(), h)
	}
	return h, ""
}

func checkBalance(s *mapSys) string {
	root := s.m.(rooted).Root()
	if isNilNode(root) {
		return ""
	}
	_, m := realHeight(root.(types.BinaryTreeNode), 2)
	return m
}

func ints(n int) (ks []types.Hashable) {
	for i := 0; i < n; i++ {
		ks = append(ks, types.Int(i))
	}
	return
}

func strs(ss ...string) (ks []types.Hashable) {
	for _, s := range ss {
		ks = append(ks, types.String(s))
	}
	return
}

func init() {
	engine.Register(&engine.Property{ID: "C02", Jobs: c02jobs, Assumptions: []string{
		"keys are comparable with one another (one type per tree)", "iterators are not used across modifications of the mutable tree"}})
	engine.Register(&engine.Property{ID: "C03", Jobs: c03jobs, Assumptions: []string{
		"concurrent readers of a retained version are covered by showing that no operation writes to memory reachable from it"}})
	engine.Register(&engine.Property{ID: "C04", Jobs: c04jobs, Assumptions: []string{
		"a tolerance of two between subtree heights is the documented design of this implementation"}})
}

func mapBFS(name string, cfg mapCfg, depth int) engine.Job {
	return job(name, func(w *engine.W) {
		c := cfg
		w.BFS(engine.Spec{New: c.new, Ops: c.ops(), MaxDepth: depth,
			Bound: fmt.Sprintf("%d keys x %d values, %d further keys only queried/removed", c.nkeys, c.vals, len(c.keys)-c.nkeys)})
	})
}

func c02jobs(tier string) []engine.Job {
	q := tier != "thorough"
	tree := func() types.MapOperable { return avl.NewAvlTree() }
	node := func() types.MapOperable { return &nodeMap{} }
	n1, n2 := 9, 6
	if !q {
		n1, n2 = 11, 7
	}
	walks := avlWalkJobs(q, avlMutable, func(a *avlWalk) { a.contents = true })
	n := pick(q, 8000, 40000)
	return append([]engine.Job{
		bigIntMap("big-tree", n, tree, true, nil), bigIntMap("big-node", n, node, true, nil),
		mapBFS("tree-1val", mapCfg{mk: tree, keys: ints(n1), nkeys: n1, vals: 1, ordered: true, extra: checkRootNodes}, 0),
		mapBFS("tree-2val", mapCfg{mk: tree, keys: ints(n2 + 1), nkeys: n2, vals: 2, ordered: true, extra: checkRootNodes}, 0),
		mapBFS("node-1val", mapCfg{mk: node, keys: ints(n1), nkeys: n1, vals: 1, ordered: true, extra: checkRootNodes}, 0),
		mapBFS("node-2val", mapCfg{mk: node, keys: ints(n2 + 1), nkeys: n2, vals: 2, ordered: true, extra: checkRootNodes}, 0),
		mapBFS("tree-strings", mapCfg{mk: tree, keys: strs("", "\x00", "a", "aa", "ab", "b", "\xff"), nkeys: 6, vals: 2, ordered: true, extra: checkRootNodes}, 0),
		mapBFS("tree-hashkeys", mapCfg{mk: tree, keys: hashed(7, 7, -1, minInt, 7, 0), nkeys: 5, vals: 2, ordered: true, extra: checkRootNodes}, 0),
		oddMap("tree-odd-values", tree, true), oddMap("node-odd-values", node, true),
	}, walks...)
}

// snapshot captures everything visible of a version: shape, heights, keys and values.
type snapshot struct {
	root types.TreeNode
	text string
}

func describe(n types.BinaryTreeNode) string {
	if isNilNode(n) {
		return "."
	}
	h := -1
	if x, ok := n.(heighted); ok {
		h = x.Height()
	}
	return "(" + describe(n.Left()) + fmt.Sprintf(" %v=%s/%d ", n.Key(), show(n.Value()), h) + describe(n.Right()) + ")"
}

func takeSnapshot(t types.TreeNode) snapshot {
	if isNilNode(t) {
		return snapshot{nil, "."}
	}
	return snapshot{t, describe(t.(types.BinaryTreeNode))}
}

func (s snapshot) check() string {
	if s.root == nil {
		return ""
	}
	if now := describe(s.root.(types.BinaryTreeNode)); now != s.text {
		return errf("a retained version changed from %s to %s", s.text, now)
	}
	return ""
}

// persistBefore opens, before an operation, one iterator per position of the current version and keeps
// the version; afterwards the version must look the same and every iterator must finish as it would have.
func persistBefore(s *mapSys) func() string {
	snap := takeSnapshot(s.m.(rooted).Root())
	want := kvOf(s)
	type part struct {
		it   types.KVIterator
		left []pair
	}
	var its []part
	for i := 0; i <= len(want); i++ {
		it := s.m.(types.KVIterable).Iterate()
		for j := 0; j < i; j++ {
			_, _, it = it()
		}
		its = append(its, part{it, want[i:]})
	}
	oldModel := append([]ent(nil), s.model...)
	return func() string {
		if m := snap.check(); m != "" {
			return m
		}
		for i, p := range its {
			if p.it == nil {
				return errf("iterator ended after %d entries", i)
			}
			got, _ := drainKV(p.it, len(p.left)+64)
			if m := cmpPairs(fmt.Sprintf("iterator opened before the operation and resumed at entry %d", i), got, p.left, true); m != "" {
				return m
			}
		}
		// branching: the old version still answers queries and produces correct, independent new versions
		if n, ok := snap.root.(*avl.ImmutableAvlNode); ok && n != nil {
			for k, key := range s.c.keys {
				if n.Has(key) != oldModel[k].has {
					return errf("retained version: has(%v) is wrong", key)
				}
			}
		}
		return ""
	}
}

// branchCheck applies every operation to the current root without installing the result, and checks the
// root did not change: versions can branch.
func branchCheck(s *mapSys) string {
	root := s.m.(rooted).Root()
	n, ok := root.(*avl.ImmutableAvlNode)
	if !ok {
		return errf("root is a %T", root)
	}
	snap := takeSnapshot(root)
	for k, key := range s.c.keys {
		a, upd := n.Put(key, "branch")
		if upd != s.model[k].has {
			return errf("put(%v) on a version reported updated=%v", key, upd)
		}
		if v, err := a.Get(key); err != nil || v != "branch" {
			return errf("put(%v) on a version produced a version without it", key)
		}
		if a == n {
			return errf("put(%v) on a version returned the same node", key)
		}
		if m := snap.check(); m != "" {
			return errf("put(%v) on a version: %s", key, m)
		}
		snapA := takeSnapshot(a)
		b, _, err := n.Remove(key)
		if (err == nil) != s.model[k].has {
			return errf("remove(%v) on a version: err=%v", key, err)
		}
		if err == nil && b.Has(key) {
			return errf("remove(%v) on a version left the key", key)
		}
		c, _, err := a.Remove(key)
		if err != nil {
			return errf("remove(%v) from a branched version failed", key)
		}
		if c.Has(key) || c.Size() != a.Size()-1 {
			return errf("remove(%v) from a branched version is wrong", key)
		}
		if m := snap.check(); m != "" {
			return errf("remove(%v) on a version: %s", key, m)
		}
		if m := snapA.check(); m != "" {
			return errf("remove(%v) on a branched version: %s", key, m)
		}
	}
	return checkRootNodes(s)
}

func c03jobs(tier string) []engine.Job {
	q := tier != "thorough"
	tree := func() types.MapOperable { return avl.NewImmutableAvlTree() }
	node := func() types.MapOperable { return &immNodeMap{} }
	nodeKeep := func() types.MapOperable { return &immNodeMap{keepOnError: true} }
	n1, n2 := 8, 5
	if !q {
		n1, n2 = 10, 7
	}
	mk := func(name string, mkf func() types.MapOperable, nk, absent, vals int) engine.Job {
		return mapBFS(name, mapCfg{mk: mkf, keys: ints(nk + absent), nkeys: nk, vals: vals, ordered: true, before: persistBefore, extra: branchCheck}, 0)
	}
	walks := avlWalkJobs(q, avlImmutable, func(a *avlWalk) { a.contents, a.persist = true, true })
	n := pick(q, 8000, 40000)
	return append([]engine.Job{
		bigIntMap("big-tree", n, tree, true, bigSnapshots()), bigIntMap("big-node", n, node, true, bigSnapshots()),
		mk("tree-1val", tree, n1, 0, 1), mk("tree-2val", tree, n2, 1, 2),
		mk("node-1val", node, n1, 0, 1), mk("node-2val", node, n2, 1, 2),
		mk("nodekeep-1val", nodeKeep, n1, 0, 1), mk("nodekeep-2val", nodeKeep, n2, 1, 2),
		mapBFS("tree-strings", mapCfg{mk: tree, keys: strs("", "\x00", "a", "aa", "b", "\xff"), nkeys: 5, vals: 2, ordered: true, before: persistBefore, extra: branchCheck}, 0),
		oddMap("tree-odd-values", tree, true), oddMap("node-odd-values", node, true),
	}, walks...)
}

func c04jobs(tier string) []engine.Job {
	q := tier != "thorough"
	n := 10
	if !q {
		n = 12
	}
	mk := func(name string, mkf func() types.MapOperable, n int) engine.Job {
		return mapBFS(name, mapCfg{mk: mkf, keys: ints(n), nkeys: n, vals: 1, ordered: true, extra: checkBalance}, 0)
	}
	jobs := []engine.Job{
		mk("tree", func() types.MapOperable { return avl.NewAvlTree() }, n),
		mk("node", func() types.MapOperable { return &nodeMap{} }, n-1),
		mk("imm-tree", func() types.MapOperable { return avl.NewImmutableAvlTree() }, n),
		mk("imm-node", func() types.MapOperable { return &immNodeMap{} }, n-1),
	}
	for i, mk := range []func() types.MapOperable{
		func() types.MapOperable { return avl.NewAvlTree() },
		func() types.MapOperable { return &nodeMap{} },
		func() types.MapOperable { return avl.NewImmutableAvlTree() },
		func() types.MapOperable { return &immNodeMap{} }} {
		jobs = append(jobs, bigBalanced(fmt.Sprint("big-", i), pick(q, 33000, 140000), mk))
	}
	jobs = append(jobs, avlWalkJobs(q, avlMutable, func(a *avlWalk) { a.balance = true })...)
	return append(jobs, avlWalkJobs(q, avlImmutable, func(a *avlWalk) { a.balance = true })...)
}
