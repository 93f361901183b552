package main

// C16: every gap (and every pair of gaps) of every schema, every filler.

import (
	"bytes"
	"fmt"
	"strings"
)

// opC16: base source, NUL, the same tokens in another layout.
func opC16(in []byte) (bool, *Fail) {
	f := bytes.SplitN(in, []byte{0}, 2)
	if len(f) != 2 {
		return false, nil
	}
	t1, e1 := parse(f[0])
	t2, e2 := parse(f[1])
	if (len(e1) > 0) != (len(e2) > 0) {
		return true, failf("%q: %d diagnostics %s\n%q: %d diagnostics %s", f[0], len(e1), errString(e1), f[1], len(e2), errString(e2))
	}
	if len(e1) > 0 {
		return true, nil
	}
	a, b := flattenComments(canon(t1)).String(), flattenComments(canon(t2)).String()
	if a != b {
		return true, failf("%q\n gives %s\n%q\n gives %s", f[0], a, f[1], b)
	}
	return true, nil
}

var fillers = []string{"\n", "\t", "\r\n", " \n\t\r\n  ", " ;c\n", "\n; c\n", " ;\n", " ; a\n; b\n\n", "\n\n ;x = int ( \" \n\t", ";c\r\n", "\n;c1\n\n;c2\n ;c3\n"}

// fixedGaps finds the gaps of a token list inside tag heads and occurrence indicators.
func fixedGaps(toks []string) map[int]bool {
	g := map[int]bool{}
	num := func(s string) bool { return s != "" && s[0] >= '0' && s[0] <= '9' }
	for i := 1; i < len(toks); i++ {
		a, b := toks[i-1], toks[i]
		star := func(s string) bool { return s == "*" || s == "+" }
		if a == "#" || a[0] == '#' || num(a) && i > 1 && toks[i-2] == "#" || num(a) && star(b) || star(a) && num(b) {
			g[i] = true
		}
	}
	return g
}

func joinLay(toks []string, gaps map[int]bool, glue bool, fill map[int]string) string {
	var b strings.Builder
	for i := 0; i <= len(toks); i++ {
		f, ok := fill[i]
		switch {
		case ok:
			b.WriteString(f)
		case i > 0 && i < len(toks) && !(glue && gaps[i]):
			b.WriteByte(' ')
		}
		if i < len(toks) {
			b.WriteString(toks[i])
		}
	}
	return b.String()
}

// wsFillers: every whitespace string of up to k characters.
func wsFillers(k int) []string {
	var out []string
	cur := []string{""}
	for n := 0; n < k; n++ {
		var next []string
		for _, s := range cur {
			for _, w := range []string{" ", "\t", "\r", "\n"} {
				next = append(next, s+w)
			}
		}
		out = append(out, next...)
		cur = next
	}
	return out
}

// longFillers: long runs of whitespace and comments, and comments of every kind of content.
func longFillers(dense int) []string {
	var out []string
	for _, n := range append(upTo(dense)[3:], 40, 41, 64, 80, 81, 100, 255, 256, 257, 1000, 4096) {
		out = append(out, strings.Repeat(" ", n), strings.Repeat("\n", n), strings.Repeat("\t", n), strings.Repeat("\r\n", n), "\n"+strings.Repeat(" ", n), " ;"+strings.Repeat("c", n)+"\n", strings.Repeat(" ;c\n", n), "\n"+strings.Repeat(" ", n)+";c\n")
	}
	for _, s := range []string{"", ";", ";;", "\"", "\"\"", "(", ")", "]", "}", "= int", "a = int", "//", ",", "?", "*", "\t", "\r", "é", "\\", "#6.1(", "1", "..", ":", "=>", "'", "\xff", "\x00", "%d %s", "TODO: x", "go:build x", "cddlc:ignore", "eslint-disable", "{{.}}", " = ", "-", "~", "&"} {
		out = append(out, " ;"+s+"\n", " ; "+s+"\r\n", "\n;"+s+"\n\n")
	}
	return out
}

func init() {
	name := reg("C16.layout", opC16)
	addCheck("C16", "exploration", "every schema of the stated sets with every filler in every gap, every pair of gaps with every pair of the stated fillers, and the same filler in all gaps; compared with the base layout; non-trivial: both layouts were parsed and compared", func(c *Ctx) {
		c.List("every construct more than 100000 times, each with a comment behind it", n16many, manyCases(c.Thorough, true))
		type base struct {
			toks []string
			gaps map[int]bool
			glue bool
		}
		emit := func(buf []byte, s base, fill map[int]string) []byte {
			buf = append(buf, joinLay(s.toks, s.gaps, s.glue, nil)...)
			buf = append(buf, 0)
			return append(buf, joinLay(s.toks, s.gaps, s.glue, fill)...)
		}
		single := func(what string, bs []base, fl []string) {
			// index: (base, gap, filler) and the filler in all gaps
			var starts []int64
			tot := int64(0)
			for _, s := range bs {
				starts = append(starts, tot)
				tot += int64(len(s.toks)+2) * int64(len(fl))
			}
			c.Enum(fmt.Sprintf("%s: %d schemas, every gap and all gaps at once, %d fillers", what, len(bs), len(fl)), name, tot, func(i int64, b []byte) []byte {
				lo, hi := 0, len(starts)
				for hi-lo > 1 {
					m := (lo + hi) / 2
					if starts[m] <= i {
						lo = m
					} else {
						hi = m
					}
				}
				s := bs[lo]
				i -= starts[lo]
				f := fl[i%int64(len(fl))]
				g := int(i / int64(len(fl)))
				if g == len(s.toks)+1 { // all
					m := map[int]string{}
					for k := 0; k <= len(s.toks); k++ {
						if !s.gaps[k] {
							m[k] = f
						}
					}
					return emit(b, s, m)
				}
				if s.gaps[g] {
					return nil
				}
				return emit(b, s, map[int]string{g: f})
			})
		}
		var rs []base
		for _, p := range rich() {
			rs = append(rs, base{p.toks, p.gaps, true})
		}
		single("one schema per construct", rs, fillers)
		single("one schema per construct, all whitespace", rs, wsFillers(c.tier(3, 4)))
		// two and three comments in one gap, their starts in every relation of columns
		type cmt struct {
			s     base
			g, k1 int
		}
		var cs []cmt
		cols := []string{"same", "left", "right", "start"}
		for _, s := range rs {
			for g := 0; g <= len(s.toks); g++ {
				if !s.gaps[g] {
					for k := range cols {
						cs = append(cs, cmt{s, g, k})
					}
				}
			}
		}
		c.Enum("one schema per construct, two and three comments in every gap, in every relation of columns, the first on the line or below it", name, int64(len(cs))*16, func(i int64, b []byte) []byte {
			x := cs[i%int64(len(cs))]
			i /= int64(len(cs))
			pre := joinLay(x.s.toks[:x.g], x.s.gaps, true, map[int]string{x.g: []string{" ", "\n   "}[i%2]})
			col := len(pre) - strings.LastIndexByte(pre, '\n') - 1
			at := func(k int) string {
				switch cols[k] {
				case "left":
					return strings.Repeat(" ", max(col-1, 0))
				case "right":
					return strings.Repeat(" ", col+1)
				case "start":
					return ""
				}
				return strings.Repeat(" ", col)
			}
			f := []string{" ", "\n   "}[i%2] + ";c\n" + at(x.k1) + ";d\n"
			if i/2%2 == 1 {
				f += at(int(i/4)) + ";e\n"
			} else if i >= 4 {
				return nil
			}
			return emit(b, x.s, map[int]string{x.g: f})
		})
		// comments of every few lengths in sequence, and every byte inside and at the end of a comment
		var seqs []string
		bodies := []string{"", "x", " ", "yy", "a = int"}
		for _, a := range bodies {
			for _, sep := range []string{"\n", "\n ", "\n\n"} {
				for _, b := range bodies {
					seqs = append(seqs, " ;"+a+sep+";"+b+"\n", "\n;"+a+sep+";"+b+"\n\n")
					for _, d := range bodies[:3] {
						seqs = append(seqs, " ;"+a+sep+";"+b+"\n;"+d+"\n", "\n;"+a+sep+";"+b+sep+";"+d+"\n;"+a+"\n")
					}
				}
			}
		}
		single("one schema per construct, sequences of comments of every few lengths", rs, seqs)
		var bys []string
		for x := 0; x < 256; x++ {
			if x != '\n' {
				y := string([]byte{byte(x)})
				bys = append(bys, " ;"+y+"\n", " ;a"+y+"b\n", "\n;"+y+y+"\r\n")
			}
		}
		single("one schema per construct, every byte in a comment", rs, bys)
		single("one schema per construct, long layouts and comment contents", rs, longFillers(c.tier(30, 130)))
		for _, s := range genSets(c.Thorough) {
			d := map[string]int{"all constructs": 2, "mid alphabet": 3, "small alphabet": c.tier(3, 4), "tiny alphabet": c.tier(5, 6)}[s.name]
			for n := 1; n <= d; n++ {
				var bs []base
				for _, v := range s.g.value(n) {
					for style := 0; style < 3; style++ {
						if style > 0 && !hasListIn(v, style) {
							continue
						}
						m := mk("file", "", mk("rule", "=", id("r"), v), mk("rule", "=", id("x"), typ("tstr")), mk("rule", "=", id("g"), mk("group", "", typ("int"))), mk("rule", "=", id("n"), num("3")), mk("rule", "=", id("k"), num("3")))
						if strings.Contains(s.name, "small") || strings.Contains(s.name, "tiny") {
							m = mk("file", "", mk("rule", "=", id("x"), typ("tstr")), mk("rule", "=", id("g"), v))
						}
						p := printFile(m, style)
						bs = append(bs, base{p.toks, p.gaps, true})
					}
				}
				fl := []string{"\n", " ;c\n", "\n; c\n"}
				if n == d && s.name == "all constructs" && !c.Thorough {
					fl = fl[1:2]
				}
				single(fmt.Sprintf("%s, size %d", s.name, n), bs, fl)
			}
		}
		// tokens on their own lines, in columns related to the token before
		tw := twins(c.Thorough)
		var al []*printed
		for i, m := range tw {
			if c.Thorough || i%3 == 0 {
				al = append(al, printFile(fileDef(m), i%2))
			}
		}
		al = append(rich(), al...)
		c.Enum(fmt.Sprintf("%d schemas, every token or every other token on its own line in a column related to the one before, with and without comments, %d layouts", len(al), alignModes), name, int64(len(al))*alignModes*2, func(i int64, b []byte) []byte {
			p := al[i/2/alignModes]
			s, fill := base{p.toks, p.gaps, true}, map[int]string{}
			sep := p.alignSep(int(i / 2 % alignModes))
			for k := range p.toks {
				if !p.gaps[k] {
					fill[k] = sep(k)
					if i%2 == 1 {
						fill[k] = strings.Replace(sep(k), "\n", " ;c\n", 1)
					}
				}
			}
			return emit(b, s, fill)
		})
		type algn struct {
			s base
			g int
		}
		var ag []algn
		for _, s := range rs {
			for g := 1; g < len(s.toks); g++ {
				if !s.gaps[g] {
					ag = append(ag, algn{s, g})
				}
			}
		}
		for _, s := range genSets(false)[:2] {
			for _, v := range s.g.value(1 + len(s.name)%2) { // small values of the wide alphabets
				p := printFile(fileOf(v, "="), 0)
				for g := 1; g < len(p.toks) && p.toks[g] != "x"; g++ {
					if !p.gaps[g] {
						ag = append(ag, algn{base{p.toks, p.gaps, true}, g})
					}
				}
			}
		}
		c.Enum(fmt.Sprintf("each of %d gaps: the next token on another line, in each of 6 columns related to the token before, with and without a comment", len(ag)), name, int64(len(ag))*18, func(i int64, b []byte) []byte {
			x := ag[i/18]
			pre := joinLay(x.s.toks[:x.g-1], x.s.gaps, true, map[int]string{x.g - 1: " "})
			if x.s.gaps[x.g-1] {
				pre = pre[:len(pre)-1]
			}
			st, w := len(pre), len(x.s.toks[x.g-1])
			col := max([]int{st - 1, st, st + 1, st + w - 1, st + w, st + w + 1}[i%6], 0)
			return emit(b, x.s, map[int]string{x.g: []string{"\n", " ;c\n", "\n;c\n\n"}[i/6%3] + strings.Repeat(" ", col)})
		})
		lm := literalModels(c.Thorough, id("x"))
		lf := []string{" ;c\n", "\n", "\n; c\n\n"}
		nl, gl := int64(len(lm)), int64(c.tier(5, 24))
		c.Enum(fmt.Sprintf("many values of every kind of literal (%d schemas), 3 fillers, all gaps at once and each of the first %d", nl, gl-1), name, nl*3*gl, func(i int64, b []byte) []byte {
			f, g, i := lf[i%3], i/3%gl, i/3/gl
			p := printFile(mk("file", "", mk("rule", "=", id("r"), lm[i]), mk("rule", "=", id("x"), typ("tstr")), mk("rule", "=", id("g"), mk("group", "", typ("int")))), int(i%3))
			s, fill := base{p.toks, p.gaps, true}, map[int]string{}
			for k := 0; k < len(p.toks); k++ {
				if !s.gaps[k] && (g == 0 || int(g)+2 == k) { // the gaps behind the assignment
					fill[k] = f
				}
			}
			if len(fill) == 0 {
				return nil
			}
			return emit(b, s, fill)
		})
		// deep nestings of one construct and of two taking turns
		ws := chainWraps()
		deep := append(upTo(c.tier(33, 70))[2:], 40, 63, 64, 65, 66, 70)
		nd, nw := int64(len(deep)), int64(len(ws))
		c.Enum(fmt.Sprintf("each of %d constructs nested up to 70 deep, alone and taking turns with the next, comments in all gaps, all but one, and in one gap near the middle", nw), name, nw*2*nd*12, func(i int64, b []byte) []byte {
			mode := int(i % 12)
			i /= 12
			d := deep[i%nd]
			i /= nd
			v, w := ws[i/2], ws[i/2]
			if i%2 == 1 {
				w = ws[(i/2+5)%nw]
			}
			m := id("x")
			for j := 0; j < d; j++ {
				if j%2 == 0 {
					m = v.f(m)
				} else {
					m = w.f(m)
				}
			}
			p := printFile(fileOf(m, "="), 0)
			s, fill := base{p.toks, p.gaps, true}, map[int]string{}
			var mid int // the innermost phrase
			for k, t := range p.toks {
				if t == "x" {
					mid = k
					break
				}
			}
			for k := 0; k <= len(p.toks); k++ {
				if !p.gaps[k] && (mode < 2 || mode < 10 && k == mid-3+mode-2 || mode == 10 && k > mid || mode == 11 && k%3 == 0) {
					fill[k] = []string{" ;c\n", "\n;c\n;d\n"}[mode&1]
				}
			}
			if len(fill) == 0 {
				return nil
			}
			return emit(b, s, fill)
		})
		// two phrases joined, a comment in every gap
		jv := shapeVals()
		joints := []func(a, b *M) *M{
			func(a, b *M) *M { return mk("choice/", "", a, b) }, func(a, b *M) *M { return mk("group", "", mk("choice//", "", a, b)) }, func(a, b *M) *M { return mk("array", "", a, b) }, func(a, b *M) *M { return mk("map", "", mk("entry", "=>", num("1"), a), mk("entry", ":", id("l"), b)) },
			func(a, b *M) *M { return mk("array", "", mk("choice/", "", a, b), a) }, func(a, b *M) *M { return mk("choice/", "", a, typ("int"), b) }, func(a, b *M) *M { return mk("array", "", mk("opt", "", a), mk("occ", "1*2", b)) },
		}
		type joint struct {
			s base
			g int
		}
		var js []joint
		for _, j := range joints {
			for _, a := range jv {
				for _, b := range jv {
					if (a.K == "choice/" || b.K == "choice/") && j(typ("int"), typ("int")).K == "choice/" {
						continue
					}
					p := printFile(fileOf(j(a, b), "="), 0)
					for g := -1; g < len(p.toks); g++ {
						if g < 0 || !p.gaps[g] && g > 2 && p.toks[g-1] != ";" {
							js = append(js, joint{base{p.toks, p.gaps, true}, g})
						}
						if g > 2 && p.toks[g] == "x" && p.toks[min(g+1, len(p.toks)-1)] == "=" { // the rules the phrase refers to
							break
						}
					}
				}
			}
		}
		c.Enum(fmt.Sprintf("pairs of %d phrases in %d joints, a comment in every gap and in all", len(jv), len(joints)), name, int64(len(js)), func(i int64, b []byte) []byte {
			x := js[i]
			if x.g >= 0 {
				return emit(b, x.s, map[int]string{x.g: " ;c\n"})
			}
			fill := map[int]string{}
			for k := 0; k < len(x.s.toks); k++ {
				if !x.s.gaps[k] {
					fill[k] = " ;c\n"
				}
			}
			return emit(b, x.s, fill)
		})
		// pairs of gaps
		pf := []string{"\n", " ;c\n", "\n;d\n"}
		for _, s := range rs {
			s := s
			n := int64(len(s.toks) + 1)
			k := int64(len(pf))
			c.Enum(fmt.Sprintf("all pairs of gaps of %.40q", strings.Join(s.toks, " ")), name, n*n*k*k, func(i int64, b []byte) []byte {
				g, h := int(i%n), int(i/n%n)
				i /= n * n
				if g >= h || s.gaps[g] || s.gaps[h] {
					return nil
				}
				return emit(b, s, map[int]string{g: pf[i%k], h: pf[i/k]})
			})
		}
		// rejected and accepted one-edit neighbours
		var bs []base
		for _, m := range illTyped() {
			p := printFile(m, 0)
			bs = append(bs, base{p.toks, p.gaps, true})
		}
		single("ill-typed operands, missing names and repeated definitions", bs, append([]string{"\r\n", " ;x\n;\n"}, fillers...))
		bs = nil
		for _, p := range rich() {
			for _, e := range editToks(p.toks[:min(len(p.toks), 14)], synCore) {
				bs = append(bs, base{e, fixedGaps(e), false})
			}
		}
		single("one-edit neighbours", bs, []string{"\n", "\n;c\n"})
	})
}

func hasListIn(m *M, style int) bool {
	if (m.K == "group" || m.K == "array" || m.K == "map") && (len(m.C) > 1 || style == 2 && len(m.C) > 0) {
		return true
	}
	for _, c := range m.C {
		if hasListIn(c, style) {
			return true
		}
	}
	return false
}

// editToks lists the one-edit neighbours of a token list as token lists.
func editToks(toks []string, syms []string) [][]string {
	var out [][]string
	for i := 0; i <= len(toks); i++ {
		for _, s := range syms {
			if strings.HasSuffix(s, "\n") {
				continue
			}
			out = append(out, append(append(append([]string{}, toks[:i]...), s), toks[i:]...))
			if i < len(toks) {
				u := append([]string{}, toks...)
				u[i] = s
				out = append(out, u)
			}
		}
		if i < len(toks) {
			out = append(out, append(append([]string{}, toks[:i]...), toks[i+1:]...))
		}
		if i+1 < len(toks) {
			u := append([]string{}, toks...)
			u[i], u[i+1] = u[i+1], u[i]
			out = append(out, u)
		}
	}
	return out
}

// illTyped: schemas rejected for what they mean, and their accepted counterparts.
func illTyped() []*M {
	var out []*M
	ops := []*M{num("1"), flt("2.5", "2.5"), id("n"), id("fp"), id("x"), id("g"), id("nowhere"), txt("t"), boo("true"), typ("int"), typ("tstr"), typ("null"), mk("group", "", typ("int"))}
	for _, a := range ops {
		for _, b := range ops {
			for _, e := range []*M{mk("range", "..", a, b), mk("range", "...", a, b), mk("ctl", ".size", a, b), mk("ctl", ".lt", a, b), mk("ctl", ".eq", a, b), mk("ctl", ".regexp", a, b), mk("ctl", ".bits", a, b)} {
				out = append(out, fileOf(e, "="))
				if e.K == "range" {
					out = append(out, fileOf(mk("array", "", typ("int"), mk("entry", ":", id("k"), e)), "/="))
				}
			}
		}
	}
	for _, v := range richModels() {
		d := fileOf(v, "=")
		d.C = append(d.C, mk("rule", "=", id("r"), v))
		out = append(out, d, mk("file", "", mk("rule", "=", id("r"), v)))
	}
	return out
}
