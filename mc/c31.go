package main

// C31: the ends of the nodes of accepted sources, against the tokens of the reference scanner.

import (
	"fmt"
	"sort"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/token"
)

// exactEnd: the node is one word (names, type keywords, whole numbers) whose end can be no other than the end of the word.
func exactEnd(n ast.Node, t rtok) bool {
	switch n.(type) {
	case *ast.IntegerLiteral, *ast.UintLiteral:
		return len(t.kinds) == 1 && t.kinds[0] == token.INT && n.Start().Offset == t.off
	case *ast.Identifier, *ast.IntegerType, *ast.NegativeIntegerType, *ast.UintType, *ast.FloatType, *ast.TstrType, *ast.BytesType, *ast.BstrType, *ast.BooleanType, *ast.NullType:
		return true
	}
	return false
}

func isComment(n ast.Node) bool {
	switch n.(type) {
	case *ast.Comment, *ast.CommentGroup:
		return true
	}
	return false
}

// opC31: a source; when it is accepted, the end of every node is judged.
func opC31(in []byte) (bool, *Fail) {
	tree, errs := parse(in)
	if len(errs) > 0 || tree == nil {
		return false, nil
	}
	toks := refLex(in)
	// the token covering an offset
	at := func(off int) (rtok, bool) {
		i := sort.Search(len(toks), func(i int) bool { return toks[i].end > off })
		if i < len(toks) && toks[i].off <= off {
			return toks[i], true
		}
		return rtok{}, false
	}
	lineStart := []int{0}
	for i, b := range in {
		if b == '\n' {
			lineStart = append(lineStart, i+1)
		}
	}
	sane := func(p token.Position) bool {
		return p.Offset >= 0 && p.Offset <= len(in) && p.Line >= 1 && p.Line <= len(lineStart) && lineStart[p.Line-1]+p.Column-1 == p.Offset
	}
	n := 0
	var why string
	var judge func(x ast.Node)
	judge = func(x ast.Node) {
		if why != "" {
			return
		}
		n++
		if g, ok := x.(*ast.CommentGroup); ok && len(g.List) == 0 {
			return
		}
		s, e := x.Start(), x.End()
		fail := func(f string, a ...any) {
			why = fmt.Sprintf("%T starting at offset %d ends at offset %d (%d:%d): ", x, s.Offset, e.Offset, e.Line, e.Column) + fmt.Sprintf(f, a...)
		}
		var kids []ast.Node
		eachChild(x, func(c ast.Node) { kids = append(kids, c) })
		if !sane(e) {
			fail("no position of the source")
			return
		}
		if e.Offset < s.Offset {
			fail("before its start")
			return
		}
		if len(kids) == 0 {
			t, ok := at(s.Offset)
			if ok && e.Offset > t.end {
				fail("behind its text, which ends at %d", t.end)
				return
			}
			if ok && exactEnd(x, t) && e.Offset != t.end {
				fail("its text ends at %d", t.end)
				return
			}
		}
		var real []ast.Node
		for _, k := range kids {
			if !isComment(k) {
				real = append(real, k)
			}
		}
		sort.SliceStable(real, func(i, j int) bool { return real[i].Start().Offset < real[j].Start().Offset })
		for i, k := range real {
			ke := k.End()
			if ke.Offset > e.Offset {
				fail("before the end of the %T in it, %d", k, ke.Offset)
				return
			}
			if k.Start().Offset < s.Offset {
				fail("the %T in it starts before it, at %d", k, k.Start().Offset)
				return
			}
			if i+1 < len(real) && ke.Offset > real[i+1].Start().Offset {
				why = fmt.Sprintf("%T starting at offset %d ends at offset %d, behind the start of the following %T at %d", k, k.Start().Offset, ke.Offset, real[i+1], real[i+1].Start().Offset)
				return
			}
		}
		for _, k := range kids {
			judge(k)
		}
	}
	for _, r := range tree.Rules {
		judge(r)
	}
	if why == "" && len(tree.Rules) > 0 {
		if e := tree.End(); !sane(e) {
			why = fmt.Sprintf("the file ends at offset %d (%d:%d), no position of the source", e.Offset, e.Line, e.Column)
		}
	}
	// following rules
	var last ast.Node
	for _, r := range tree.Rules {
		if why == "" && last != nil && !isComment(r) && last.End().Offset > r.Start().Offset {
			why = fmt.Sprintf("%T ends at offset %d, behind the start of the following %T at %d", last, last.End().Offset, r, r.Start().Offset)
		}
		if !isComment(r) {
			last = r
		}
	}
	if why != "" {
		return true, failf("source %q: %s", in, why)
	}
	return n > 0, nil
}

func init() {
	name := reg("C31.ends", opC31)
	addCheck("C31", "exploration", "the accepted ones among all lexeme sequences up to the stated length in each stated context, and all schemas of the grammar up to the stated size in three comma styles and several layouts; every node of every tree is judged; non-trivial: accepted, with at least one node", func(c *Ctx) {
		exploreTokens(c, name)
		f := func(p *printed, b []byte, v int) []byte {
			s, _ := p.text(layoutSep((v + 3) % len(layoutSeps)))
			return append(b, s...)
		}
		c.eachSchema(name, f, c.tier(1, len(layoutSeps)), nil)
		c.chainsAndPumps(name, 1, f)
		exploreFiles(c, name)
	})
}
