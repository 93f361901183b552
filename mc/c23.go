package main

// C23: comments around rules and after keyed entries.

import (
	"fmt"
	"strconv"
	"strings"
)

// commentView lists what the tree says about comments: the file's entries in order, and every keyed
// entry in source order with its trailing comment.
func commentView(t *N) string {
	var file, ents []string
	tail := func(n *N) string {
		s := ""
		for _, c := range n.C {
			if c.K == "comment" {
				s += " " + strconv.Quote(c.V)
			}
		}
		return s
	}
	var walk func(n *N)
	walk = func(n *N) {
		if n.K == "entry" {
			ents = append(ents, n.C[0].V+tail(n))
		}
		for _, c := range n.C {
			walk(c)
		}
	}
	for _, c := range t.C {
		switch c.K {
		case "comment":
			file = append(file, strconv.Quote(c.V))
		case "comments":
			for _, x := range c.C {
				file = append(file, strconv.Quote(x.V))
			}
		case "rule":
			file = append(file, "rule "+c.C[0].V+tail(c))
			walk(c)
		default:
			file = append(file, c.K)
		}
	}
	return strings.Join(file, " | ") + " || " + strings.Join(ents, " | ")
}

// opC23: the expected view, NUL, the source.
func opC23(in []byte) (bool, *Fail) {
	want, src, ok := strings.Cut(string(in), "\x00")
	if !ok {
		return false, nil
	}
	tree, errs := parse([]byte(src))
	if len(errs) > 0 {
		return false, nil // C10 and C16 judge acceptance
	}
	if got := commentView(canon(tree)); got != want {
		return true, failf("source %q\nrules and comments, then keyed entries:\n got  %s\n want %s", src, got, want)
	}
	return true, nil
}

// cbase is a schema with the gaps where comments are judged.
type cbase struct {
	p    *printed
	gaps []int       // token indexes before which comments are put
	at   map[int]*N  // gap -> the rule or entry that ends there, if any
	rule map[int]int // first token of a rule -> its number
}

func newCbase(m *M, style int) *cbase {
	pr := &printer{style: style, gaps: map[int]bool{}, ends: map[*N]int{}}
	t := pr.print(m)
	b := &cbase{p: &printed{pr.toks, t, pr.gaps}, at: map[int]*N{}, rule: map[int]int{}}
	n := len(pr.toks)
	gap := map[int]bool{0: true, n: true}
	for i, r := range t.C {
		b.rule[r.P.Offset] = i
		gap[r.P.Offset] = true
		b.at[pr.ends[r]] = r
	}
	var walk func(x *N)
	walk = func(x *N) {
		for _, c := range x.C {
			walk(c)
		}
		if x.K != "entry" {
			return
		}
		e := pr.ends[x]
		if e < n && pr.toks[e] == "," {
			e++
		}
		if e < n && strings.Contains("//", pr.toks[e]) {
			return
		}
		gap[e] = true
		b.at[e] = x
	}
	walk(t)
	for i := 0; i <= n; i++ {
		if gap[i] {
			b.gaps = append(b.gaps, i)
		}
	}
	return b
}

// filler: pieces of layout; a piece starting with ';' is a comment, ended by the next piece.
type filler []string

func (f filler) String() string { return strings.Join(f, "") }

// view builds the source and the expected view.
func (b *cbase) view(buf []byte, fill map[int]filler, sep string) []byte {
	var src strings.Builder
	attached := map[*N]string{}
	top := map[int][]string{} // rule number -> comments before it
	nrules := len(b.p.tree.C)
	cur := 0
	for i := 0; i <= len(b.p.toks); i++ {
		if r, ok := b.rule[i]; ok {
			cur = r
		}
		if f, ok := fill[i]; ok {
			r, isTop := b.rule[i]
			if i == len(b.p.toks) {
				r, isTop = nrules, true
			}
			same := i > 0
			for _, x := range f {
				switch {
				case x[0] == ';':
					if n := b.at[i]; same && n != nil && attached[n] == "" {
						attached[n] = " " + strconv.Quote(x[1:])
					} else if isTop {
						top[r] = append(top[r], strconv.Quote(x[1:]))
					}
				case strings.Contains(x, "\n"):
					same = false
				}
			}
			src.WriteString(f.String())
		} else if i > 0 && i < len(b.p.toks) && !b.p.gaps[i] {
			src.WriteString(sep)
		}
		if i < len(b.p.toks) {
			src.WriteString(b.p.toks[i])
		}
	}
	_ = cur
	var file, ents []string
	var walk func(n *N)
	walk = func(n *N) {
		if n.K == "entry" {
			ents = append(ents, n.C[0].V+attached[n])
		}
		for _, c := range n.C {
			walk(c)
		}
	}
	for i, r := range b.p.tree.C {
		file = append(file, top[i]...)
		file = append(file, "rule "+r.C[0].V+attached[r])
		walk(r)
	}
	file = append(file, top[nrules]...)
	buf = append(buf, strings.Join(file, " | ")+" || "+strings.Join(ents, " | ")...)
	buf = append(buf, 0)
	return append(buf, src.String()...)
}

func init() {
	name := reg("C23.comments", opC23)
	fillers := []filler{{" ", ";c1", "\n"}, {"\n", ";c1", "\n"}, {";c1", "\n"}, {" ", ";c1", "\n", ";c2", "\n"}, {"\n\n", "; c1 ", "\n\n  ", ";c2;;", "\n"}, {" ", ";", "\n"}, {"\t", "; é x = int \" (", "\n"}, {" ", ";a", "\n\n", ";b", "\n", ";c", "\n"}, {"\r\n", "; c1", "\n\t\r\n", ";2", "\n \n"}, {" ", ";c1\x00\x7f\\n", "\n"}, {"\n", ";a", "\n", ";", "\n", ";b", "\n"}, {"\n", ";", "\n", ";", "\n"}, {" ", ";", "\n", "; ", "\n", ";a", "\n", ";a", "\n"}, {" ", "; \r", "\n", ";\r", "\n"}, {"\n", ";;", "\n", ";=", "\n", ";;", "\n"}}
	few := []filler{fillers[0], fillers[1], fillers[3]}
	addCheck("C23", "exploration", "every schema of the stated sets with every filler of comments in every gap next to a rule or behind a keyed entry, pairs of gaps with pairs of fillers, and every assignment of {no comment, same line, next line, both} to the first gaps; the tree's comments compared with the layout's; non-trivial: the source was accepted and its comments judged", func(c *Ctx) {
		run := func(what string, bs []*cbase, fl []filler) {
			var st []int64
			tot := int64(0)
			for _, b := range bs {
				st = append(st, tot)
				tot += int64((len(b.gaps) + 1) * len(fl) * 2)
			}
			c.Enum(what, name, tot, func(i int64, buf []byte) []byte {
				lo, hi := 0, len(st)
				for hi-lo > 1 {
					if m := (lo + hi) / 2; st[m] <= i {
						lo = m
					} else {
						hi = m
					}
				}
				b, k := bs[lo], int(i-st[lo])
				sep := []string{" ", "\n"}[k%2]
				f := fl[k/2%len(fl)]
				g := k / 2 / len(fl)
				fill := map[int]filler{}
				if g < len(b.gaps) {
					fill[b.gaps[g]] = f
				} else {
					for _, x := range b.gaps {
						fill[x] = f
					}
				}
				return b.view(buf, fill, sep)
			})
		}
		pairs := func(what string, bs []*cbase, fl []filler) {
			type job struct {
				b    *cbase
				x, y int
			}
			var js []job
			for _, b := range bs {
				for x := range b.gaps {
					for y := 0; y < x; y++ {
						js = append(js, job{b, b.gaps[x], b.gaps[y]})
					}
				}
			}
			n := len(fl)
			c.Enum(what, name, int64(len(js)*n*n), func(i int64, buf []byte) []byte {
				j := js[int(i)/n/n]
				return j.b.view(buf, map[int]filler{j.x: fl[int(i)%n], j.y: fl[int(i)/n%n]}, " ")
			})
		}
		e := func(k string, v *M) *M { return mk("entry", ":", id(k), v) }
		r := func(n string, v *M) *M { return mk("rule", "=", id(n), v) }
		file := func(rs ...*M) *M { return mk("file", "", rs...) }
		hand := []*M{
			file(), file(r("a", typ("int"))), file(r("a", typ("int")), r("b", id("a")), r("c", txt("x"))),
			file(r("a", mk("group", "", e("k", typ("int")), e("l", typ("tstr")), e("m", mk("group", "", e("n", typ("int")), e("o", typ("uint"))))))),
			file(r("a", mk("map", "", mk("entry", "=>", num("1"), typ("int")), mk("opt", "", e("l", typ("tstr"))), mk("occ", "*", e("m", mk("array", "", e("n", typ("int")))))))),
			file(r("a", mk("array", "", e("k", mk("choice/", "", typ("int"), typ("tstr"))), e("l", mk("range", "..", num("1"), num("5"))), e("m", mk("ctl", ".size", typ("tstr"), num("3"))), e("n", mk("tag", "6.32")), e("o", mk("tag", "6.32", typ("int")))))),
			file(r("a", mk("choice/", "", typ("int"), typ("tstr"))), r("b", mk("range", "..", num("1"), num("5"))), r("c", mk("ctl", ".size", typ("tstr"), num("3"))), r("d", mk("tag", "6")), r("e", mk("group", "")), r("f", mk("choice//", "", id("a"), id("b"))), r("g", mk("unwrap", "", id("e"))), r("h", mk("enum", "", id("e"))), r("i", flt("1.5", "1.5")), r("j", boo("true"))),
			mk("file", "", mk("rule", "/=", id("a"), typ("int")), mk("rule", "//=", id("b"), mk("group", "", e("k", typ("int")))), mk("rule", "/=", id("a"), typ("tstr"))),
		}
		var hb, rb []*cbase
		for _, m := range hand {
			for s := 0; s < 3; s++ {
				hb = append(hb, newCbase(m, s))
			}
		}
		e2 := []*M{}
		for _, a := range append(allAtoms(), allLeaves()...) {
			e2 = append(e2, fileOf(a, "="), fileOf(mk("group", "", e("k", a), e("l", a)), "="))
		}
		for _, m := range e2 {
			for s := 0; s < 3; s++ {
				rb = append(rb, newCbase(m, s))
			}
		}
		run("hand-picked schemas, every filler in every gap and in all gaps", hb, fillers)
		run("every leaf and atom as rule and entry value, every filler in every gap and in all gaps", rb, fillers)
		pairs("hand-picked schemas, pairs of gaps", hb, fillers)
		if c.Thorough {
			pairs("every leaf and atom, pairs of gaps", rb, few)
		}
		// every assignment of four fillings to up to k gaps
		k := c.tier(6, 8)
		type job struct {
			b    *cbase
			base int64
		}
		var js []job
		tot := int64(0)
		for _, b := range hb {
			n := int64(1)
			for range b.gaps[:min(k, len(b.gaps))] {
				n *= 4
			}
			js = append(js, job{b, tot})
			tot += n
		}
		c.Enum(fmt.Sprintf("hand-picked schemas, all assignments of 4 fillings to the first %d gaps", k), name, tot, func(i int64, buf []byte) []byte {
			x := len(js) - 1
			for js[x].base > i {
				x--
			}
			b := js[x].b
			i -= js[x].base
			fill := map[int]filler{}
			for _, g := range b.gaps[:min(k, len(b.gaps))] {
				if d := i % 4; d > 0 {
					fill[g] = few[d-1]
				}
				i /= 4
			}
			return b.view(buf, fill, " ")
		})
		// many comments in one gap
		var many []filler
		for k := 4; k <= c.tier(40, 300); k++ {
			many = append(many, manyComments(k))
		}
		for _, k := range []int{63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025} {
			many = append(many, manyComments(k))
		}
		run("hand-picked schemas, up to 1025 comments in every gap", hb, many)
		run("one schema, many thousand comments in every gap", hb[:1], []filler{manyComments(4096), manyComments(10001), manyComments(32769), manyComments(65537), manyComments(100003)})
		// nested constructs: every gap alone and all gaps
		in := func(m *M, style, v int, buf []byte) []byte {
			b := newCbase(m, style)
			f := few[v%len(few)]
			fill := map[int]filler{}
			switch g := v/len(few) - 1; {
			case g < 0:
				for _, x := range b.gaps {
					fill[x] = f
				}
			case g < len(b.gaps):
				fill[b.gaps[g]] = f
			default:
				return nil
			}
			return b.view(buf, fill, []string{" ", "\n"}[v/len(few)%2])
		}
		file1 := func(m *M, style, v int, buf []byte) []byte { return in(fileOf(m, "="), style, v, buf) }
		cl := chainLeaves()
		c.eachChain(name, 1, cl, 3, 6*len(few), file1)
		c.eachChain(name, 2, cl, 3, c.tier(1, 6)*len(few), file1)
		c.eachChain(name, 3, cl[:c.tier(1, 6)], 3, c.tier(1, 2)*len(few), file1)
		if c.Thorough {
			c.eachChain(name, 4, cl[:1], 3, 1, file1)
		}
		var ps []*M
		for _, m := range pumped(false) {
			if m.nodes() < c.tier(900, 6000) {
				ps = append(ps, m)
			}
		}
		for _, m := range shapes([]string{"", "?", "1*2", "*"}, []string{"", "k:", "1=>"}, shapeVals()) {
			for _, box := range []string{"group", "array", "map"} {
				ps = append(ps, fileOf(mk(box, "", m, mk("entry", ":", id("z"), typ("int"))), "="), fileOf(mk(box, "", mk("entry", ":", id("z"), typ("int")), m), "="), fileOf(mk(box, "", m), "="))
			}
		}
		for _, m := range richModels() {
			ps = append(ps, fileOf(m, "="))
		}
		np := int64(len(ps))
		nf := int64(len(few))
		c.Enum("repeated and neighbouring constructs, rich values, comments in all gaps", name, np*3*nf, func(i int64, buf []byte) []byte {
			return in(ps[i%np], int(i/np%3), int(i/np/3), buf)
		})
		c.Enum("rich values and neighbouring constructs, comments in each of the first 8 gaps", name, np*8*nf, func(i int64, buf []byte) []byte {
			if ps[i%np].nodes() > 60 {
				return nil
			}
			return in(ps[i%np], int(i%3), int(nf+i/np), buf)
		})
		tw := twins(c.Thorough)
		nt := int64(len(tw))
		c.Enum(fmt.Sprintf("the same phrase twice and more often side by side (%d schemas), comments in all gaps", nt), name, nt*nf, func(i int64, buf []byte) []byte {
			return in(fileDef(tw[i%nt]), int(i%3), int(i/nt), buf)
		})
		lm := literalModels(c.Thorough, id("x"))
		nl := int64(len(lm))
		c.Enum(fmt.Sprintf("many values of every kind of literal (%d schemas), comments in all gaps and in each of the first 4", nl), name, nl*5*nf, func(i int64, buf []byte) []byte {
			return in(fileOf(lm[i%nl], "="), int(i%3), int(i/nl), buf)
		})
		for _, s := range genSets(c.Thorough) {
			d := min(s.depth, c.tier(3, 4))
			if s.name == "all constructs" {
				d = 2
			}
			for n := 1; n <= d; n++ {
				vals := s.g.value(n)
				// bases are built one schema at a time
				c.Enum(fmt.Sprintf("schemas: %s, size %d, all gaps", s.name, n), name, int64(len(vals)*3*len(few)), func(i int64, buf []byte) []byte {
					b := newCbase(fileOf(vals[int(i)/3/len(few)], "="), int(i)%3)
					fill := map[int]filler{}
					for _, g := range b.gaps {
						fill[g] = few[int(i)/3%len(few)]
					}
					return b.view(buf, fill, " ")
				})
				c.Enum(fmt.Sprintf("schemas: %s, size %d, each of the first 12 gaps", s.name, n), name, int64(len(vals)*12), func(i int64, buf []byte) []byte {
					b := newCbase(fileOf(vals[int(i)/12], "="), int(i)%3)
					g := int(i) % 12
					if g >= len(b.gaps) {
						return nil
					}
					return b.view(buf, map[int]filler{b.gaps[g]: few[int(i/3)%len(few)]}, " ")
				})
			}
		}
	})
}

// manyComments: k comments, the first on the line, some after blank lines, indented, empty or equal to the one before.
func manyComments(k int) filler {
	f := filler{" "}
	for i := 0; i < k; i++ {
		switch {
		case i%7 == 3:
			f = append(f, "\n\n  ")
		case i > 0:
			f = append(f, "\n")
		}
		f = append(f, []string{"; " + strconv.Itoa(i), ";", "; same", "; same"}[i%4])
	}
	return append(f, "\n")
}
