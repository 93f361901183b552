package main

// Very deep nestings: a short description (count, opening, middle, closing, how many closings are
// left out) is expanded to a source too long to list. Any bounded stack must survive them.

import (
	"fmt"
	"strings"
	"sync"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
)

type deepCase struct {
	n                int
	open, mid, close string
	cut              int
}

func (d deepCase) String() string {
	return fmt.Sprintf("%d %q %q %q %d", d.n, d.open, d.mid, d.close, d.cut)
}

func (d deepCase) source() []byte {
	return []byte("a = " + strings.Repeat(d.open, d.n) + d.mid + strings.Repeat(d.close, max(0, d.n-d.cut)) + "\nk = 1\n")
}

func parseDeep(in []byte) (d deepCase, ok bool) {
	_, err := fmt.Sscanf(string(in), "%d %q %q %q %d", &d.n, &d.open, &d.mid, &d.close, &d.cut)
	return d, err == nil
}

var deepMu sync.Mutex // one huge source at a time

// opC06deep: parsing, walking and formatting survive any depth.
func opC06deep(in []byte) (bool, *Fail) {
	d, ok := parseDeep(in)
	if !ok {
		return false, nil
	}
	if d.n > 200000 {
		deepMu.Lock()
		defer deepMu.Unlock()
	}
	tree, errs := parse(d.source())
	if tree == nil && len(errs) == 0 {
		return true, failf("neither a tree nor diagnostics")
	}
	if tree == nil {
		return true, nil
	}
	astutils.Walk(&countVisitor{}, tree)
	for _, r := range tree.Rules {
		_, _ = r.Start(), r.End()
		if x, ok := r.(*ast.Rule); ok && x.Value != nil && d.n <= 1000 { // the indented text grows with the square of the depth
			_ = astutils.Format(x.Value)
		}
	}
	for _, e := range errs[:min(len(errs), 1000)] {
		_, _, _ = e.Start(), e.End(), e.Error()
	}
	return true, nil
}

// opC10deep: a closed nesting below the documented limit is accepted, with all its levels.
func opC10deep(in []byte) (bool, *Fail) {
	d, ok := parseDeep(in)
	if !ok || d.cut != 0 {
		return false, nil
	}
	if d.n > 200000 {
		deepMu.Lock()
		defer deepMu.Unlock()
	}
	tree, errs := parse(d.source())
	if len(errs) > 0 {
		s := errString(errs)
		return true, failf("well-formed nesting rejected: %s", s[:min(len(s), 300)])
	}
	if len(tree.Rules) != 2 {
		return true, failf("%d rules instead of 2", len(tree.Rules))
	}
	// one construct per level: follow the deepest child
	levels := 0
	var n ast.Node = tree.Rules[0].(*ast.Rule).Value
	for n != nil {
		var next ast.Node
		eachChild(n, func(c ast.Node) {
			switch c.(type) {
			case *ast.UintLiteral, *ast.Identifier, *ast.Comment: // bounds, tag heads, keys and leaves
			default:
				next = c
			}
		})
		levels++
		n = next
	}
	want := d.n * deepLevels[d.open]
	if d.mid != "k" {
		want++
	}
	if levels != want {
		return true, failf("%d levels instead of %d", levels, want)
	}
	return true, nil
}

// deepLevels: tree levels of one repetition.
var deepLevels = map[string]int{"(": 1, "[": 1, "{": 1, "#6.1(": 1, "[? ": 2, "[* ": 2, "[1*2 ": 2, "~": 1, "& ": 1, "int / ": 1, "int // ": 1, "(k : ": 2, "{k => ": 2, "(k : [ ? ": 4}

var deepUnits = []deepCase{{0, "(", "int", ")", 0}, {0, "[", "int", "]", 0}, {0, "{", "int", "}", 0}, {0, "#6.1(", "int", ")", 0}, {0, "[? ", "int", "]", 0}, {0, "[* ", "int", "]", 0}, {0, "[1*2 ", "int", "]", 0}, {0, "~", "k", "", 0}, {0, "& ", "k", "", 0}, {0, "int / ", "int", "", 0}, {0, "int // ", "int", "", 0}, {0, "(k : ", "int", ")", 0}, {0, "{k => ", "int", "}", 0}, {0, "(k : [ ? ", "int", "])", 0}}

// exploreDeep lists every unit at every depth.
func exploreDeep(c *Ctx, op string, depths []int, cuts bool, more ...deepCase) {
	var l []string
	for _, u := range append(append([]deepCase{}, deepUnits...), more...) {
		for _, n := range depths {
			for _, cut := range []int{0, 1, n} {
				if cut == 0 && (op != "C10.deep" || n*deepLevels[u.open] < 99000) || cut > 0 && cuts {
					l = append(l, deepCase{n, u.open, u.mid, u.close, cut}.String())
				}
			}
		}
	}
	c.List(fmt.Sprintf("%d constructs nested to each of the depths %v", len(deepUnits)+len(more), depths), op, l)
}

var deepMore = []deepCase{{0, "k : ", "int", "", 0}, {0, "? ", "int", "", 0}, {0, "* ", "int", "", 0}, {0, "1 .. ", "2", "", 0}, {0, "tstr .size ", "1", "", 0}, {0, "tstr .regexp ", "k", "", 0}, {0, "int .lt ", "k", "", 0}, {0, "uint .bits ", "k", "", 0}, {0, ";c\n", "int", "", 0}, {0, "int, ", "int", "", 0}, {0, "b = int ", "", "", 0}, {0, ") ", "", "", 0}, {0, "\"t\" ", "int", "", 0}, {0, "! ", "", "", 0}}
