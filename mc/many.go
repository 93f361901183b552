package main

// One construct more often than any bound the parser sets itself: as entries of one list and as rules.

import (
	"fmt"
	"strings"
)

// manyVals: every phrase, leaf and construct.
func manyVals() []*M {
	l := append(append(append([]*M{}, allAtoms()...), allLeaves()...), richModels()...)
	for _, w := range chainWraps() {
		l = append(l, w.f(id("x")))
	}
	for _, m := range shapes([]string{"?", "*", "1*2"}, []string{"", "k:"}, shapeVals()[:4]) {
		l = append(l, m)
	}
	return l
}

// opC10many: "value place count": that many copies of a value in one place, each of which must have the
// tree of a single one.
func opC10many(in []byte) (bool, *Fail) {
	var v, n int
	var box string
	if k, _ := fmt.Sscanf(string(in), "%d %s %d", &v, &box, &n); k != 3 || v < 0 || v >= len(manyVals()) {
		return false, nil
	}
	m := manyVals()[v]
	manySlots <- true // large trees, few at a time
	defer func() { <-manySlots }()
	sup := ""
	for _, r := range support() {
		sup += printFile(mk("file", "", r), 0).src() + "\n"
	}
	var src string
	pick := func(t *N) []*N { return t.C }
	var want []string
	name := strings.TrimRight(box, "+?*:")
	unit := []*M{m}
	style, com, comma := 0, "", ","
	switch strings.TrimPrefix(box, name) {
	case "+": // a comment in every gap
		com = " ; c\n"
	case "*": // followed, without a comma, by an entry with an indicator
		unit = append(unit, mk("occ", "*", typ("int")))
	case "?":
		unit = append(unit, mk("opt", "", typ("int")))
	case ":":
		unit = append(unit, mk("entry", ":", id("zz"), typ("int")))
	}
	if len(unit) > 1 {
		if style, comma = 1, " "; needsComma(unit[1], m) {
			comma = ","
		}
	}
	lay := func(p *printed) string {
		if com == "" {
			return p.src()
		}
		fixed := fixedGaps(p.toks)
		s, _ := p.text(func(i int) string {
			if fixed[i] {
				return " "
			}
			return com
		})
		return s
	}
	if name == "rules" {
		switch m.K {
		case "opt", "occ", "entry", "choice//":
			m = mk("array", "", m)
		}
		one := printFile(mk("file", "", mk("rule", "=", id("r"), m)), 0)
		body := lay(one)
		body = body[strings.Index(body, "=")-1:]
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "r%d%s%s\n", i, strings.TrimRight(body, "\n"), com)
		}
		src = sup + b.String()
		want = append(want, flatten(one.tree).C[0].C[1].String())
		pick = func(t *N) []*N {
			var l []*N
			for _, r := range t.C {
				if r.K == "rule" && len(r.C) > 1 && r.C[0].V != "" && r.C[0].V[0] == 'r' {
					l = append(l, r.C[1])
				}
			}
			return l
		}
	} else {
		one := printFile(mk("file", "", mk("rule", "=", id("r"), mk(name, "", unit...))), style)
		t := one.toks
		body := strings.TrimSpace(lay(one))
		body = body[strings.Index(body, t[2])+1 : len(body)-1]
		src = "r = " + t[2] + strings.Repeat(body+comma+com+" ", n) + t[len(t)-1] + "\n" + sup
		l := flatten(one.tree).C[0].C[1].C
		if len(l) != len(unit) {
			return false, nil
		}
		for _, x := range l {
			want = append(want, x.String())
		}
		pick = func(t *N) []*N {
			if len(t.C) == 0 || len(t.C[0].C) < 2 {
				return nil
			}
			return t.C[0].C[1].C
		}
	}
	tree, errs := parse([]byte(src))
	if len(errs) > 0 {
		return true, failf("%d copies (%s) rejected: %.300q...\n%d diagnostics, first: %s", n, box, src, len(errs), errString(errs[:1]))
	}
	got := pick(flatten(canon(tree)))
	if len(got) != n*len(want) {
		return true, failf("%d copies (%s) gave %d: %.300q...", n, box, len(got), src)
	}
	for i, g := range got {
		if com != "" {
			g = dropComments(g)
		}
		if s := g.String(); s != want[i%len(want)] {
			return true, failf("copy %d of %d (%s) in %.300q...\ngot  %s\nwant %s", i+1, n, box, src, s, want[i%len(want)])
		}
	}
	return true, nil
}

var manySlots = make(chan bool, 4)

// dropComments removes comment nodes.
func dropComments(n *N) *N {
	c := *n
	c.C = nil
	for _, x := range n.C {
		if x.K != "comment" && x.K != "comments" {
			c.C = append(c.C, dropComments(x))
		}
	}
	return &c
}

// manyCases: every value, every place in turn.
func manyCases(thorough, comments bool) []string {
	var l []string
	boxes := []string{"group", "array", "map", "rules"}
	for i := range manyVals() {
		if b := boxes[i%3]; !comments && (thorough || i%3 == 1) {
			l = append(l, fmt.Sprintf("%d %s %d", i, b+string("*?:"[i/3%3]), 100200))
			if thorough {
				l = append(l, fmt.Sprintf("%d %s %d", i, b+string("*?:"[(i/3+1)%3]), 100200), fmt.Sprintf("%d %s %d", i, b+string("*?:"[(i/3+2)%3]), 100200))
			}
		}
		for j, b := range boxes {
			if comments {
				b += "+"
			}
			if thorough || j == i%4 {
				l = append(l, fmt.Sprintf("%d %s %d", i, b, 100200))
			}
		}
	}
	return l
}

var n10many = reg("C10.many", opC10many)
var n16many = reg("C16.many", opC10many)
