package props

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
	"verif/mc/engine"
)

// gnode is a node of an arbitrary ordered tree.
type gnode struct {
	id      int
	kids    []*gnode
	unknown bool // cannot count its children
	next    *gnode
}

func (n *gnode) Key() types.Hashable { return types.Int(n.id) }
func (n *gnode) Value() interface{}  { return n.id * 10 }
func (n *gnode) Children() types.TreeNodeIterator {
	i := 0
	var it types.TreeNodeIterator
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i < len(n.kids) {
			i++
			return n.kids[i-1], it
		}
		return nil, nil
	}
	return it
}
func (n *gnode) GetChild(i int) types.TreeNode {
	if n.unknown {
		panic("no indexed access")
	}
	return n.kids[i]
}
func (n *gnode) ChildCount() int {
	if n.unknown {
		return -1
	}
	return len(n.kids)
}

// bnode is a binary node whose child access is the library's.
type bnode struct {
	id          int
	left, right *bnode
}

func (n *bnode) Key() types.Hashable { return types.Int(n.id) }
func (n *bnode) Value() interface{}  { return n.id * 10 }
func (n *bnode) Left() types.BinaryTreeNode {
	if n.left == nil {
		return nil
	}
	return n.left
}
func (n *bnode) Right() types.BinaryTreeNode {
	if n.right == nil {
		return nil
	}
	return n.right
}
func (n *bnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *bnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *bnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }

// shapes calls f for every forest of exactly n nodes, encoded as a balanced sequence: true opens a node.
func shapes(n int, f func(enc []bool)) {
	enc := make([]bool, 0, 2*n)
	var rec func(open, left int)
	rec = func(open, left int) {
		if open == 0 && left == 0 {
			f(enc)
			return
		}
		if left > 0 {
			enc = append(enc, true)
			rec(open+1, left-1)
			enc = enc[:len(enc)-1]
		}
		if open > 0 {
			enc = append(enc, false)
			rec(open-1, left)
			enc = enc[:len(enc)-1]
		}
	}
	rec(0, n)
}

// ordered decodes a forest of n nodes into the tree of n+1 nodes with that forest below the root.
func ordered(enc []bool) *gnode {
	root := &gnode{id: 0}
	stack := []*gnode{root}
	id := 0
	for _, open := range enc {
		if open {
			id++
			n := &gnode{id: id}
			top := stack[len(stack)-1]
			top.kids = append(top.kids, n)
			stack = append(stack, n)
		} else {
			stack = stack[:len(stack)-1]
		}
	}
	return root
}

// binary decodes a forest of n nodes into a binary tree of n nodes (first child left, next sibling right).
func binary(enc []bool) *bnode {
	var id, i int
	var forest func() *bnode
	forest = func() *bnode {
		if i >= len(enc) || !enc[i] {
			return nil
		}
		i++
		id++
		n := &bnode{id: id}
		n.left = forest()
		i++ // the closing mark
		n.right = forest()
		return n
	}
	return forest()
}

func encStr(enc []bool) string {
	b := make([]byte, len(enc))
	for i, o := range enc {
		b[i] = ')'
		if o {
			b[i] = '('
		}
	}
	return string(b)
}

func drainT(it types.TreeNodeIterator, max int) (r []types.TreeNode) {
	n, next := it()
	for next != nil {
		r = append(r, n)
		if len(r) > max {
			return
		}
		n, next = next()
	}
	return
}

// pausedT drains a traversal with pauses after 1, 2, 4, … nodes, in each of which the others run to their end.
func pausedT(it types.TreeNodeIterator, max int, others ...types.TreeNodeIterator) (r []types.TreeNode) {
	pause := 1
	for it != nil && len(r) <= max {
		var n types.TreeNode
		if n, it = it(); it != nil {
			r = append(r, n)
		}
		if len(r) == pause && len(others) > 0 {
			pause *= 2
			drainT(others[0], max)
			others = others[1:]
		}
	}
	return
}

// kidsOf are the children in order, obtained independently of the code under test where possible.
type kidsOf func(types.TreeNode) []types.TreeNode

func refPre(n types.TreeNode, kids kidsOf, r []types.TreeNode) []types.TreeNode {
	r = append(r, n)
	for _, k := range kids(n) {
		r = refPre(k, kids, r)
	}
	return r
}

func refPost(n types.TreeNode, kids kidsOf, r []types.TreeNode) []types.TreeNode {
	for _, k := range kids(n) {
		r = refPost(k, kids, r)
	}
	return append(r, n)
}

func refIn(n types.BinaryTreeNode, r []types.TreeNode) []types.TreeNode {
	if l := n.Left(); !types.IsNil(l) {
		r = refIn(l, r)
	}
	r = append(r, n)
	if l := n.Right(); !types.IsNil(l) {
		r = refIn(l, r)
	}
	return r
}

func sameNodes(what string, got, want []types.TreeNode) string {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(got); i++ {
		ok = got[i] == want[i]
	}
	if !ok {
		return errf("%s visits %s, want %s", what, nodeKeys(got), nodeKeys(want))
	}
	return ""
}

func nodeKeys(ns []types.TreeNode) string {
	s := "["
	for i, n := range ns {
		if i > 0 {
			s += " "
		}
		if n == nil {
			s += "nil"
		} else {
			s += fmt.Sprint(n.Key())
		}
	}
	return s + "]"
}

// childAccess checks that iteration, index and count agree with the reference at every node.
func childAccess(nodes []types.TreeNode, kids kidsOf) string {
	for _, n := range nodes {
		want := kids(n)
		if m := sameNodes(errf("child iteration of %v", n.Key()), drainT(n.Children(), len(want)+4), want); m != "" {
			return m
		}
		if n.ChildCount() != len(want) {
			return errf("child count of %v is %d, want %d", n.Key(), n.ChildCount(), len(want))
		}
		for i, k := range want {
			if n.GetChild(i) != k {
				return errf("child %d of %v is %v, want %v", i, n.Key(), n.GetChild(i).Key(), k.Key())
			}
		}
	}
	return ""
}

// kvSame checks that a traversal turned into a key/value iteration yields the nodes' keys and values.
func kvSame(what string, it types.TreeNodeIterator, want []types.TreeNode) string {
	got, _ := drainKV(types.MakeKVIteratorFromTreeNodeIterator(it), len(want)+4)
	if len(got) != len(want) {
		return errf("%s as key/value iteration yields %d entries, want %d", what, len(got), len(want))
	}
	for i, p := range got {
		if !p.k.Equals(want[i].Key()) || p.v != want[i].Value() {
			return errf("%s as key/value iteration yields %v: %v at %d", what, p.k, p.v, i)
		}
	}
	return ""
}

// walkTree checks all general traversals of a tree.
func walkTree(root types.TreeNode, kids kidsOf, indexed bool) string {
	pre := refPre(root, kids, nil)
	max := len(pre) + 4
	if m := sameNodes("pre-order", drainT(tree.TraverseTreePreOrder(root), max), pre); m != "" {
		return m
	}
	if m := kvSame("pre-order", tree.TraverseTreePreOrder(root), pre); m != "" {
		return m
	}
	// a traversal is not disturbed by others which start and end while it is under way
	between := func() []types.TreeNodeIterator {
		r := []types.TreeNodeIterator{tree.TraverseTreePreOrder(root), tree.TraverseTreePreOrder(root)}
		if indexed {
			r = append(r, tree.TraverseTreePostOrder(root), tree.TraverseTreePostOrder(root))
		}
		return append(r, tree.TraverseTreePreOrder(root))
	}
	if m := sameNodes("paused pre-order", pausedT(tree.TraverseTreePreOrder(root), max, between()...), pre); m != "" {
		return m
	}
	if indexed {
		if m := sameNodes("paused post-order", pausedT(tree.TraverseTreePostOrder(root), max, between()...), refPost(root, kids, nil)); m != "" {
			return m
		}
	}
	if indexed {
		if m := sameNodes("post-order", drainT(tree.TraverseTreePostOrder(root), max), refPost(root, kids, nil)); m != "" {
			return m
		}
	}
	return ""
}

func walkBinary(root types.BinaryTreeNode, kids kidsOf) string {
	want := refIn(root, nil)
	if m := sameNodes("in-order", drainT(tree.TraverseBinaryTreeInOrder(root), len(want)+4), want); m != "" {
		return m
	}
	if m := kvSame("in-order", tree.TraverseBinaryTreeInOrder(root), want); m != "" {
		return m
	}
	// two traversals of one tree at once do not disturb each other
	a, b := tree.TraverseBinaryTreeInOrder(root), tree.TraverseTreePreOrder(root)
	pre := refPre(root, kids, nil)
	for i := range want {
		var x, y types.TreeNode
		x, a = a()
		y, b = b()
		if a == nil || b == nil || x != want[i] || y != pre[i] {
			return errf("interleaved in-order and pre-order traversals diverge at node %d", i)
		}
	}
	in := func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder(root) }
	if m := sameNodes("paused in-order", pausedT(in(), len(want)+4, in(), in(), tree.TraverseTreePreOrder(root), in()), want); m != "" {
		return m
	}
	if m := walkTree(root, kids, true); m != "" {
		return m
	}
	return childAccess(want, kids)
}

func binaryKids(n types.TreeNode) (r []types.TreeNode) {
	b := n.(types.BinaryTreeNode)
	if l := b.Left(); l != nil {
		r = append(r, l)
	}
	if l := b.Right(); l != nil {
		r = append(r, l)
	}
	return
}

func gnodeKids(n types.TreeNode) (r []types.TreeNode) {
	for _, k := range n.(*gnode).kids {
		r = append(r, k)
	}
	return
}

func c22jobs(tier string) []engine.Job {
	q := tier != "thorough"
	var jobs []engine.Job
	maxN := pick(q, 12, 14)
	for n := 1; n <= maxN; n++ {
		jobs = append(jobs, job(fmt.Sprintf("binary-%d", n), func(w *engine.W) {
			shapes(n, func(enc []bool) {
				w.Case(func() string { return "binary tree " + encStr(enc) }, func() string {
					return walkBinary(binary(enc), binaryKids)
				})
				w.Res.States++
				w.Steps(8 * n)
			})
			w.Res.Bound = fmt.Sprintf("all binary tree shapes of %d nodes", n)
		}))
		jobs = append(jobs, job(fmt.Sprintf("ordered-%d", n), func(w *engine.W) {
			shapes(n-1, func(enc []bool) {
				for _, unknown := range []string{"none", "all", "odd"} {
					w.Case(func() string { return "ordered tree (" + encStr(enc) + "), nodes unable to count: " + unknown }, func() string {
						root := ordered(enc)
						all := refPre(root, gnodeKids, nil)
						for i, x := range all {
							x.(*gnode).unknown = unknown == "all" || unknown == "odd" && i%2 == 1
						}
						return walkTree(root, gnodeKids, unknown == "none")
					})
					w.Res.States++
					w.Steps(3 * n)
				}
			})
			w.Res.Bound = fmt.Sprintf("all ordered tree shapes of %d nodes", n)
		}))
	}
	jobs = append(jobs, job("degenerate", func(w *engine.W) {
		max := pick(q, 400, 2000)
		sizes := []int{}
		for n := 1; n <= max; n++ {
			sizes = append(sizes, n)
		}
		for n := 512; n <= 8192; n *= 2 {
			sizes = append(sizes, n-1, n, n+1)
		}
		for _, n := range sizes {
			for _, shape := range []string{"left", "right", "zigzag", "star", "chain", "broom"} {
				w.Case(func() string { return fmt.Sprintf("%s of %d nodes", shape, n) }, func() string {
					if shape == "left" || shape == "right" || shape == "zigzag" {
						var root *bnode
						for i := n; i > 0; i-- {
							x := &bnode{id: i}
							if shape == "left" || shape == "zigzag" && i%2 == 0 {
								x.left = root
							} else {
								x.right = root
							}
							root = x
						}
						return walkBinary(root, binaryKids)
					}
					root := &gnode{}
					at := root
					for i := 1; i < n; i++ {
						x := &gnode{id: i}
						at.kids = append(at.kids, x)
						if shape == "chain" || shape == "broom" && i < n/2 {
							at = x
						}
					}
					return walkTree(root, gnodeKids, true)
				})
				w.Res.States++
				w.Steps(4 * n)
			}
		}
		for _, wide := range []int{2, 3, 9, 16, 17, 40, 130} {
			for deep := 1; deep <= 40; deep++ {
				for at := 0; at < 3; at++ {
					w.Case(func() string { return fmt.Sprintf("%d levels of %d children, going on at %d/2", deep, wide, at) }, func() string {
						root := &gnode{}
						cur, id := root, 0
						for l := 0; l < deep; l++ {
							for i := 0; i < wide; i++ {
								id++
								cur.kids = append(cur.kids, &gnode{id: id})
							}
							cur = cur.kids[(wide-1)*at/2]
						}
						return walkTree(root, gnodeKids, true)
					})
					w.Res.States++
					w.Steps(4 * wide * deep)
				}
			}
		}
		w.Res.Bound = fmt.Sprintf("chains, stars and brooms up to %d nodes and around each power of two up to 8192; up to 40 levels of up to 130 children", max)
	}))
	jobs = append(jobs, job("empty", func(w *engine.W) {
		none := map[string]func() types.TreeNodeIterator{
			"in-order of nil":                          func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder(nil) },
			"pre-order of nil":                         func() types.TreeNodeIterator { return tree.TraverseTreePreOrder(nil) },
			"post-order of nil":                        func() types.TreeNodeIterator { return tree.TraverseTreePostOrder(nil) },
			"in-order of a nil node":                   func() types.TreeNodeIterator { return tree.TraverseBinaryTreeInOrder((*bnode)(nil)) },
			"pre-order of a nil node":                  func() types.TreeNodeIterator { return tree.TraverseTreePreOrder((*gnode)(nil)) },
			"post-order of a nil node":                 func() types.TreeNodeIterator { return tree.TraverseTreePostOrder((*gnode)(nil)) },
			"pre-order of an empty AVL tree":           func() types.TreeNodeIterator { return tree.TraverseTreePreOrder(avl.NewAvlTree().Root()) },
			"post-order of an empty AVL tree":          func() types.TreeNodeIterator { return tree.TraverseTreePostOrder(avl.NewAvlTree().Root()) },
			"pre-order of an empty immutable AVL tree": func() types.TreeNodeIterator { return tree.TraverseTreePreOrder(avl.NewImmutableAvlTree().Root()) },
			"post-order of an empty immutable tree":    func() types.TreeNodeIterator { return tree.TraverseTreePostOrder(avl.NewImmutableAvlTree().Root()) },
			"children of a nil binary node":            func() types.TreeNodeIterator { return types.MakeChildrenIterator(nil) },
			"children of a nil AVL node":               func() types.TreeNodeIterator { return (*avl.AvlNode)(nil).Children() },
			"children of a nil immutable AVL node":     func() types.TreeNodeIterator { return (*avl.ImmutableAvlNode)(nil).Children() },
			"children of a nil trie node":              func() types.TreeNodeIterator { return (*trie.TSTNode)(nil).Children() },
			"children of a trie leaf":                  func() types.TreeNodeIterator { return trie.NewTSTNode('x').Children() },
		}
		var names []string
		for name := range none {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			f := none[name]
			w.Case(func() string { return name }, func() string {
				if n, next := f()(); next != nil || n != nil {
					return errf("%s yields a node", name)
				}
				if got, _ := drainKV(types.MakeKVIteratorFromTreeNodeIterator(f()), 3); len(got) != 0 {
					return errf("%s yields an entry", name)
				}
				return ""
			})
			w.Steps(2)
			w.Res.States++
		}
		w.Res.Bound = "every traversal of every kind of empty tree"
	}))
	jobs = append(jobs, chainJob(pick(q, 5, 6), pick(q, 3, 3)))
	for _, imm := range []bool{false, true} {
		name := map[bool]string{false: "avl", true: "immutable-avl"}[imm]
		jobs = append(jobs, job(name, func(w *engine.W) {
			n := pick(q, 8, 9)
			canon := engine.NewCanon(false)
			permute(n, func(p []int) {
				for _, drop := range []int{0, 1, n / 2} {
					w.Case(func() string { return fmt.Sprintf("%s tree after putting %v and removing the first %d", name, p, drop) }, func() string {
						var t interface {
							Put(types.Hashable, interface{}) error
							Remove(types.Hashable) (interface{}, error)
							Root() types.TreeNode
						}
						if imm {
							t = avl.NewImmutableAvlTree()
						} else {
							t = avl.NewAvlTree()
						}
						for _, k := range p {
							_ = t.Put(types.Int(k), k)
						}
						for _, k := range p[:drop] {
							_, _ = t.Remove(types.Int(k))
						}
						w.Steps(n + drop)
						w.Distinct(canon.Sum(t))
						return walkBinary(t.Root().(types.BinaryTreeNode), binaryKids)
					})
				}
			})
			w.Res.Bound = fmt.Sprintf("all insertion orders of %d keys, up to %d removed", n, n/2)
		}))
	}
	jobs = append(jobs, job("trie", func(w *engine.W) {
		ws := words([]byte("abc"), 2)[1:]
		canon := engine.NewCanon(false)
		max := pick(q, 5, 6)
		var pickWords func(chosen [][]byte, from int)
		pickWords = func(chosen [][]byte, depth int) {
			if depth > 0 {
				w.Case(func() string { return fmt.Sprintf("trie of %q", chosen) }, func() string {
					t := trie.New()
					for i, k := range chosen {
						_ = t.Put(append([]byte{}, k...), i)
					}
					w.Steps(len(chosen))
					w.Distinct(canon.Sum(t))
					for _, n := range trieNodes(t) {
						if m := trieNode(n); m != "" {
							return m
						}
					}
					return ""
				})
			}
			if depth == max {
				return
			}
			for _, x := range ws {
				used := false
				for _, c := range chosen {
					used = used || string(c) == string(x)
				}
				if !used {
					pickWords(append(chosen[:depth:depth], x), depth+1)
				}
			}
		}
		pickWords(nil, 0)
		w.Res.Bound = fmt.Sprintf("all orders of putting up to %d of %d words", max, len(ws))
	}))
	return jobs
}

// trieNode checks child access and traversals from one node; the traversals are compared with ones
// following child iteration recursively.
func trieNode(n *trie.TSTNode) string {
	kids := drainT(n.Children(), 8)
	seen := map[types.TreeNode]bool{}
	for _, k := range kids {
		if seen[k] || types.IsNil(k) {
			return errf("a child is nil or iterated twice")
		}
		seen[k] = true
	}
	if n.ChildCount() != len(kids) {
		return errf("child count is %d, iteration yields %d", n.ChildCount(), len(kids))
	}
	for i, k := range kids {
		if n.GetChild(i) != k {
			return errf("child %d is not the one iterated at that position", i)
		}
	}
	if n.Internal() != (len(kids) > 0) {
		return errf("internal is %v with %d children", n.Internal(), len(kids))
	}
	// the node's fields of the node type are its children
	fields := 0
	v := reflect.ValueOf(n).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf(n) && !f.IsNil() {
			fields++
		}
	}
	if fields != 0 && fields != len(kids) {
		return errf("%d child links but %d children iterated", fields, len(kids))
	}
	return walkTree(n, func(x types.TreeNode) []types.TreeNode { return drainT(x.Children(), 8) }, true)
}

// trieNodes finds the trie's nodes by their type.
func trieNodes(t *trie.TST) (r []*trie.TSTNode) {
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			if v.Type() == reflect.TypeOf((*trie.TSTNode)(nil)) {
				r = append(r, (*trie.TSTNode)(v.UnsafePointer()))
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice, reflect.Array:
			if k := v.Type().Elem().Kind(); k == reflect.Ptr || k == reflect.Struct || k == reflect.Interface {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Map:
			for it := v.MapRange(); it.Next(); {
				walk(it.Value())
			}
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		}
	}
	walk(reflect.ValueOf(t))
	return
}

// permute calls f with every permutation of 0..n-1.
func permute(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// chainJob chains every combination of up to k iterators of up to m nodes each.
func chainJob(k, m int) engine.Job {
	return job("chain", func(w *engine.W) {
		mk := func(lens []int, kind int) ([]types.TreeNodeIterator, []types.TreeNode) {
			var its []types.TreeNodeIterator
			var want []types.TreeNode
			id := 0
			for _, n := range lens {
				var ns []types.TreeNode
				for i := 0; i < n; i++ {
					id++
					ns = append(ns, &gnode{id: id})
				}
				want = append(want, ns...)
				switch kind {
				case 0: // one closure yielding all
					i := 0
					var it types.TreeNodeIterator
					it = func() (types.TreeNode, types.TreeNodeIterator) {
						if i < len(ns) {
							i++
							return ns[i-1], it
						}
						return nil, nil
					}
					its = append(its, it)
				case 1: // a new closure for every position
					var at func(i int) types.TreeNodeIterator
					at = func(i int) types.TreeNodeIterator {
						return func() (types.TreeNode, types.TreeNodeIterator) {
							if i < len(ns) {
								return ns[i], at(i + 1)
							}
							return nil, nil
						}
					}
					its = append(its, at(0))
				}
			}
			return its, want
		}
		try := func(lens []int) {
			for kind := 0; kind < 2; kind++ {
				w.Case(func() string { return fmt.Sprintf("chain of iterators of lengths %v (kind %d)", lens, kind) }, func() string {
					its, want := mk(lens, kind)
					if s := sameNodes("the chain", drainT(types.ChainTreeNodeIterators(its...), len(want)+4), want); s != "" {
						return s
					}
					its, want = mk(lens, kind)
					c := types.ChainTreeNodeIterators(its[len(its)-1])
					for i := len(its) - 2; i >= 0; i-- {
						c = types.ChainTreeNodeIterators(its[i], c)
					}
					if s := sameNodes("the chain of chains", drainT(c, len(want)+4), want); s != "" {
						return s
					}
					its, want = mk(lens, kind)
					return kvSame("the chain", types.ChainTreeNodeIterators(its...), want)
				})
				w.Steps(3 * len(lens))
				w.Res.States++
			}
		}
		for n := 1; n <= 80; n++ { // long chains: all iterators alike, or all but one
			for _, all := range []int{0, 1, 2} {
				lens := make([]int, n)
				for i := range lens {
					lens[i] = all
				}
				try(lens)
				for i := range lens {
					lens[i] = (all + 1) % 3
					try(lens)
					lens[i] = all
				}
			}
		}
		var rec func(lens []int)
		rec = func(lens []int) {
			if len(lens) > 0 {
				try(lens)
			}
			if len(lens) == k {
				return
			}
			for n := 0; n <= m; n++ {
				rec(append(lens[:len(lens):len(lens)], n))
			}
		}
		rec(nil)
		w.Res.Bound = fmt.Sprintf("all chains of up to %d iterators of up to %d nodes, chains of up to 80", k, m)
	})
}

func init() {
	engine.Register(&engine.Property{ID: "C22", Jobs: c22jobs, Assumptions: []string{
		"binary nodes report a missing child as nil", "at least one iterator is chained", "the tree does not change while it is traversed"}})
}
