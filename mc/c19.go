package main

// C19: Walk against the reflective reachable set, with every pruning decision.

import (
	"fmt"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
)

type rnode struct {
	n    ast.Node
	kids []*rnode
	size int
}

func reachTree(n ast.Node, budget *int) *rnode {
	r := &rnode{n: n, size: 1}
	*budget--
	if *budget < 0 {
		return r
	}
	eachChild(n, func(c ast.Node) {
		k := reachTree(c, budget)
		r.kids = append(r.kids, k)
		r.size += k.size
	})
	return r
}

type walkEvent struct {
	n     ast.Node // nil for a closing call
	depth int
}

type walkRec struct {
	log     *[]walkEvent
	decline map[int]bool
	count   *int
	depth   int
	self    ast.Node
	fail    *string
}

func (w *walkRec) Visit(n ast.Node) astutils.Visitor {
	if n == nil {
		*w.log = append(*w.log, walkEvent{nil, w.depth})
		return nil
	}
	*w.log = append(*w.log, walkEvent{n, w.depth + 1})
	k := *w.count
	*w.count++
	if w.decline[k] {
		return nil
	}
	c := *w
	c.depth++
	c.self = n
	return &c
}

func walkWith(root ast.Node, decline map[int]bool) []walkEvent {
	var log []walkEvent
	cnt := 0
	astutils.Walk(&walkRec{log: &log, decline: decline, count: &cnt}, root)
	return log
}

func sameEvents(a, b []walkEvent) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showEvents(l []walkEvent) string {
	s := ""
	for _, e := range l {
		if e.n == nil {
			s += fmt.Sprintf(" nil%d", e.depth)
		} else {
			s += fmt.Sprintf(" %T@%d", e.n, e.depth)
		}
	}
	return s
}

// opC19: the first byte selects the pruning: 0 none and every single node, 1 also every pair.
func opC19(in []byte) (bool, *Fail) {
	if len(in) == 0 {
		return false, nil
	}
	src := in[1:]
	tree, errs := parse(src)
	if tree == nil {
		return false, nil
	}
	return judgeWalk(tree, fmt.Sprintf("source %q", src), len(errs) == 0, in[0] == 1)
}

// judgeWalk: the complete walk below tree and every single pruning; ordered: siblings come by where
// they start; pairs: also every pair of prunings.
func judgeWalk(tree ast.Node, label string, ordered, pairs bool) (bool, *Fail) {
	budget := 20000
	root := reachTree(tree, &budget)
	if budget < 0 {
		return true, failf("%s: the tree is cyclic or shares nodes", label)
	}
	// expected order of the children: by where they start
	full := walkWith(tree, nil)
	var i int
	var why string
	var check func(r *rnode, depth int)
	visited := map[ast.Node]int{}
	for _, e := range full {
		if e.n != nil {
			visited[e.n]++
		}
	}
	var all func(r *rnode)
	total := 0
	all = func(r *rnode) {
		total++
		if visited[r.n] != 1 && why == "" {
			why = fmt.Sprintf("%T is reachable and visited %d times", r.n, visited[r.n])
		}
		for _, k := range r.kids {
			all(k)
		}
	}
	all(root)
	if why == "" && len(visited) != total {
		why = fmt.Sprintf("%d nodes are reachable, %d visited", total, len(visited))
	}
	check = func(r *rnode, depth int) {
		if why != "" {
			return
		}
		if i >= len(full) || full[i].n != r.n || full[i].depth != depth {
			why = fmt.Sprintf("call %d should visit %T at depth %d", i, r.n, depth)
			return
		}
		i++
		left := append([]*rnode{}, r.kids...)
		lastOff := -1
		for len(left) > 0 && why == "" {
			// the child visited next
			k := -1
			for j, c := range left {
				if i < len(full) && full[i].n == c.n {
					k = j
				}
			}
			if k < 0 {
				why = fmt.Sprintf("call %d should visit a child of %T", i, r.n)
				return
			}
			if ordered {
				if off := left[k].n.Start().Offset; off < lastOff {
					why = fmt.Sprintf("children of %T are visited out of source order: offset %d after %d", r.n, off, lastOff)
					return
				} else {
					lastOff = off
				}
			}
			c := left[k]
			left = append(left[:k:k], left[k+1:]...)
			check(c, depth+1)
		}
		if why == "" {
			if i >= len(full) || full[i].n != nil || full[i].depth != depth {
				why = fmt.Sprintf("call %d should close %T with nil", i, r.n)
				return
			}
			i++
		}
	}
	check(root, 1)
	if why == "" && i != len(full) {
		why = fmt.Sprintf("%d calls, %d expected", len(full), i)
	}
	if why != "" {
		return true, failf("%s: %s\ncalls:%s", label, why, showEvents(full))
	}
	// prunings
	expect := func(dec map[int]bool) []walkEvent {
		var out []walkEvent
		k := 0
		skip := 0
		for _, e := range full {
			if skip > 0 { // inside a declined subtree, up to and including its closing call
				if e.n == nil && e.depth == skip {
					skip = 0
				}
				continue
			}
			out = append(out, e)
			if e.n != nil {
				if dec[k] {
					skip = e.depth
				}
				k++
			}
		}
		return out
	}
	n := len(visited)
	try := func(dec map[int]bool) *Fail {
		got, want := walkWith(tree, dec), expect(dec)
		if !sameEvents(got, want) {
			return failf("%s, declining visits %v:\nwant%s\ngot %s", label, dec, showEvents(want), showEvents(got))
		}
		return nil
	}
	for a := 0; a < n; a++ {
		if f := try(map[int]bool{a: true}); f != nil {
			return true, f
		}
		if pairs {
			for b := a + 1; b < n; b++ {
				if f := try(map[int]bool{a: true, b: true}); f != nil {
					return true, f
				}
			}
		}
	}
	return n > 2, nil
}

func init() {
	name := reg("C19.walk", opC19)
	reg19 := reg("C19.synth", opC19synth)
	addCheck("C19", "exploration", "trees of all generated schemas and of all lexeme sequences (accepted or not) of the stated bounds; for each, the complete walk and every pruning decision that declines one node (for the richest schemas also every pair); non-trivial: more than two nodes visited", func(c *Ctx) {
		pre := func(b byte, s string) []byte { return append([]byte{b}, s...) }
		var l []string
		com := []string{"", " ; x\n", "; y\n; z\n", "\n\n; w\n"}
		for _, p := range rich() {
			for _, a := range com {
				for _, z := range com {
					l = append(l, string(pre(1, a+p.src()+z)))
				}
			}
		}
		for _, s := range goodSchemas() {
			l = append(l, string(pre(1, s)))
		}
		for i := 0; i < len(rich()); i++ { // comments between all rules and after entries
			p := rich()[i]
			for g := 0; g <= len(p.toks); g++ {
				if !p.gaps[g] {
					l = append(l, string(pre(0, joinLay(p.toks, p.gaps, true, map[int]string{g: " ;c\n"}))))
				}
			}
		}
		synth := reg19
		var sl []string
		for _, t := range synthTrees(c.Thorough) {
			sl = append(sl, string(t))
		}
		c.List("trees assembled from the node types: every type, every filling of its fields, every type in every field of every type", synth, sl)
		c.List("one schema per construct, with comments around, all single and pairwise prunings", name, l)
		for k := 0; k <= 3; k++ {
			for _, x := range synCtxs {
				syms := synCore
				if k == 3 && !c.Thorough {
					syms = synMini
				}
				c.Words(fmt.Sprintf("all %d-lexeme sequences (of %d) in %q..%q", k, len(syms), x.pre, x.post), name, syms, k, "\x00"+x.pre, " ", x.post)
			}
		}
		c.eachSchema(name, func(p *printed, b []byte, _ int) []byte { return append(append(b, 0), p.src()...) }, 1, func(s genSet) int {
			if c.Thorough {
				return min(s.depth, 6)
			}
			return map[string]int{"all constructs": 2, "mid alphabet": 3, "small alphabet": 4, "tiny alphabet": 5}[s.name]
		})
		var ed []string
		for _, p := range rich() {
			for _, e := range edits(p.toks[:min(len(p.toks), c.tier(10, 40))], synCore) {
				ed = append(ed, "\x00"+e)
			}
		}
		c.List("one-edit neighbours of the rich schemas", name, ed)
	})
}
