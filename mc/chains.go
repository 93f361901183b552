package main

// Nesting chains and pumped schemas: every sequence of enclosing constructs up to a length around
// every small phrase, and single constructs repeated far beyond the enumerated sizes.

import "fmt"

type wrap struct {
	name string
	f    func(*M) *M
}

func chainWraps() []wrap {
	ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
	arr := func(m *M) *M { return mk("entry", "=>", id("k"), m) }
	ch := func(ms ...*M) *M { // nested choices are one chain
		r := mk("choice/", "")
		for _, m := range ms {
			if m.K == "choice/" {
				r.C = append(r.C, m.C...)
			} else {
				r.C = append(r.C, m)
			}
		}
		return r
	}
	return []wrap{
		{"(t)", func(m *M) *M { return mk("group", "", m) }},
		{"(k: t)", func(m *M) *M { return mk("group", "", ent("k", m)) }},
		{"(p: int, k: t)", func(m *M) *M { return mk("group", "", ent("p", typ("int")), ent("k", m)) }},
		{"[t]", func(m *M) *M { return mk("array", "", m) }},
		{"[t, int]", func(m *M) *M { return mk("array", "", m, typ("int")) }},
		{"[int, t]", func(m *M) *M { return mk("array", "", typ("int"), m) }},
		{"[? t]", func(m *M) *M { return mk("array", "", mk("opt", "", m)) }},
		{"[* t]", func(m *M) *M { return mk("array", "", mk("occ", "*", m)) }},
		{"[2*5 t, + int]", func(m *M) *M { return mk("array", "", mk("occ", "2*5", m), mk("occ", "+", typ("int"))) }},
		{"[k: t]", func(m *M) *M { return mk("array", "", ent("k", m)) }},
		{"[? k: t, l: int]", func(m *M) *M { return mk("array", "", mk("opt", "", ent("k", m)), ent("l", typ("int"))) }},
		{"{k: t}", func(m *M) *M { return mk("map", "", ent("k", m)) }},
		{"{k => t}", func(m *M) *M { return mk("map", "", arr(m)) }},
		{"{1: t, k: int}", func(m *M) *M { return mk("map", "", mk("entry", ":", num("1"), m), ent("k", typ("int"))) }},
		{"{? k: t}", func(m *M) *M { return mk("map", "", mk("opt", "", ent("k", m))) }},
		{"{* k => t}", func(m *M) *M { return mk("map", "", mk("occ", "*", arr(m))) }},
		{"{0*1 1 => t}", func(m *M) *M { return mk("map", "", mk("occ", "0*1", mk("entry", "=>", num("1"), m))) }},
		{"#6.32(t)", func(m *M) *M { return mk("tag", "6.32", m) }},
		{"t / int", func(m *M) *M { return ch(m, typ("int")) }},
		{"int / t", func(m *M) *M { return ch(typ("int"), m) }},
		{"7 / t / \"t\"", func(m *M) *M { return ch(num("7"), m, txt("t")) }},
		{"(t // int)", func(m *M) *M { return mk("group", "", mk("choice//", "", m, typ("int"))) }},
		{"[int // k: t]", func(m *M) *M { return mk("array", "", mk("choice//", "", typ("int"), ent("k", m))) }},
		{"&(k: t)", func(m *M) *M { return mk("enum", "", mk("group", "", ent("k", m))) }},
		{"[~g, t]", func(m *M) *M { return mk("array", "", mk("unwrap", "", id("g")), m) }},
		{"{? int, t}", func(m *M) *M { return mk("map", "", mk("opt", "", typ("int")), m) }},
	}
}

func chainLeaves() []*M {
	return []*M{id("x"), num("7"), txt("t"), flt("1.5", "1.5"), boo("true"), typ("int"), mk("group", ""), mk("array", ""), mk("map", ""),
		mk("range", "..", num("1"), num("2")), mk("range", "...", id("n"), num("9")), mk("ctl", ".size", typ("tstr"), num("4")), mk("ctl", ".lt", typ("int"), num("5")),
		mk("ctl", ".regexp", typ("tstr"), txt("a")), mk("ctl", ".bits", typ("uint"), mk("enum", "", id("g"))), mk("unwrap", "", id("g")), mk("enum", "", id("g")), mk("tag", "6.1")}
}

// eachChain enumerates all chains of exactly k constructs around every leaf; the index runs over
// styles and variants as well.
func (c *Ctx) eachChain(op string, k int, leaves []*M, styles, variants int, mkInput func(m *M, style, variant int, buf []byte) []byte) {
	ws := chainWraps()
	nw, nl := int64(len(ws)), int64(len(leaves))
	n := nl * int64(styles) * int64(variants)
	for i := 0; i < k; i++ {
		n *= nw
	}
	c.Enum(fmt.Sprintf("all nestings of %d of %d constructs around %d phrases, %d comma styles, %d layouts", k, nw, nl, styles, variants), op, n, func(i int64, b []byte) []byte {
		m := leaves[i%nl]
		i /= nl
		for j := 0; j < k; j++ {
			m = ws[i%nw].f(m)
			i /= nw
		}
		return mkInput(m, int(i%int64(styles)), int(i/int64(styles)), b)
	})
}

// chains is the usual selection: shallow nestings around every phrase, deeper ones around few.
func (c *Ctx) chains(op string, variants int, mkInput func(m *M, style, variant int, buf []byte) []byte) {
	l := chainLeaves()
	c.eachChain(op, 1, l, 3, variants, mkInput)
	c.eachChain(op, 2, l, 3, variants, mkInput)
	if c.Thorough {
		c.eachChain(op, 3, l, 3, variants, mkInput)
		c.eachChain(op, 4, l[:4], 3, 1, mkInput)
		c.eachChain(op, 5, l[:1], 1, 1, mkInput)
		return
	}
	c.eachChain(op, 3, l[:3], 3, 1, mkInput)
	c.eachChain(op, 4, l[:1], 1, 1, mkInput)
}

// pumped lists one construct repeated: nested (alone and alternating with every other), in a list,
// in a choice, and as many rules.
func pumped(thorough bool) []*M {
	ws := chainWraps()
	var out []*M
	depths := append(upTo(40), 65, 130, 260)
	widths := append(upTo(70), 129, 257, 520)
	lengths := append(upTo(80), 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 5000, 70000)
	if thorough {
		depths = append(upTo(140), 260, 520)
		widths = append(upTo(270), 520, 1100, 4200)
		lengths = append(upTo(600), 1023, 1024, 1025, 4096, 5000, 70000)
	}
	for i, w := range ws {
		for _, d := range depths {
			m := id("x")
			for j := 0; j < d; j++ {
				m = w.f(m)
			}
			out = append(out, fileOf(m, "="))
		}
		for j, v := range ws {
			if i == j {
				continue
			}
			m := id("x")
			for q := 0; q < 6; q++ {
				m = v.f(w.f(m))
			}
			out = append(out, fileOf(m, "="))
		}
	}
	one := func(i int) []*M {
		k := id(fmt.Sprintf("key%d", i))
		return []*M{typ("int"), num(fmt.Sprint(i)), id("x"), txt(fmt.Sprintf("t%d", i)), mk("entry", ":", k, typ("tstr")), mk("entry", "=>", id("k"), num(fmt.Sprint(i))), mk("entry", ":", num(fmt.Sprint(i)), id("x")),
			mk("opt", "", mk("entry", ":", k, typ("int"))), mk("occ", "1*2", typ("int")), mk("unwrap", "", id("g")), mk("range", "..", num(fmt.Sprint(i)), num(fmt.Sprint(i+1))), mk("tag", fmt.Sprintf("6.%d", i), typ("int")), mk("group", "", typ("int"))}
	}
	for kind := range one(0) {
		for _, n := range append(append([]int{}, widths...), 1100, 5300, 10500, 20500, 66000) {
			if n > 600 && !(thorough && n < 5000) && (kind != 0 && kind != 4 && kind != 2 || n > 11000 && !thorough) {
				continue
			}
			var es []*M
			for i := 0; i < n; i++ {
				es = append(es, one(i)[kind])
			}
			for _, b := range []string{"group", "array", "map"} {
				out = append(out, fileOf(mk(b, "", es...), "="))
			}
			if n > 1 && n < 5000 && es[0].K != "entry" && es[0].K != "opt" && es[0].K != "occ" {
				out = append(out, fileOf(mk("choice/", "", es...), "="))
			}
			if n > 1 && n < 5000 && es[0].K != "opt" && es[0].K != "occ" {
				out = append(out, fileOf(mk("group", "", mk("choice//", "", es...)), "="))
			}
			f := mk("file", "")
			for i, e := range es {
				if e.K == "entry" || e.K == "opt" || e.K == "occ" {
					e = mk("array", "", e)
				}
				f.C = append(f.C, mk("rule", []string{"=", "/=", "//="}[i%3], id(fmt.Sprintf("rule%d", i)), e))
			}
			f.C = append(f.C, support()...)
			out = append(out, f)
		}
	}
	// long names, texts and numbers
	for _, n := range lengths {
		s := ""
		for len(s) < n {
			s += "abcdefghij"
		}
		s = s[:n]
		out = append(out, mk("file", "", mk("rule", "=", id(s), typ("int")), mk("rule", "=", id("r"), id(s))), fileOf(txt(s), "="), fileOf(mk("array", "", mk("entry", ":", id(s), typ("int")), txt(s), typ("int")), "="))
	}
	return out
}

// upTo: 1 to n.
func upTo(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i + 1
	}
	return l
}

// shapes: entries with every indicator, every kind of key and every kind of value.
func shapes(occs []string, keys []string, vals []*M) []*M {
	var out []*M
	for _, v := range vals {
		for _, k := range keys {
			e := v
			switch k {
			case "k:":
				e = mk("entry", ":", id("k"), v)
			case "k=>":
				e = mk("entry", "=>", id("k"), v)
			case "1:":
				e = mk("entry", ":", num("1"), v)
			case "1=>":
				e = mk("entry", "=>", num("1"), v)
			}
			for _, o := range occs {
				switch o {
				case "":
					out = append(out, e)
				case "?":
					out = append(out, mk("opt", "", e))
				default:
					out = append(out, mk("occ", o, e))
				}
			}
		}
	}
	return out
}

func shapeVals() []*M {
	e := func(k string, v *M) *M { return mk("entry", ":", id(k), v) }
	return []*M{id("x"), num("7"), typ("int"), txt("t"), flt("1.5", "1.5"), mk("group", ""), mk("group", "", e("k", typ("int"))), mk("group", "", id("x"), e("l", id("x"))), mk("map", "", e("k", typ("int"))), mk("map", "", mk("entry", "=>", num("1"), typ("int")), mk("opt", "", id("x"))),
		mk("array", "", typ("int")), mk("array", ""), mk("choice/", "", id("x"), typ("int")), mk("range", "..", num("1"), num("9")), mk("ctl", ".size", typ("tstr"), num("4")), mk("ctl", ".bits", typ("uint"), id("g")), mk("tag", "6.1"), mk("tag", "6.1", mk("group", "", id("x"))), mk("unwrap", "", id("g")), mk("enum", "", id("g")), mk("enum", "", mk("group", "", e("k", num("1"))))}
}

// neighbours enumerates all pairs and triples of entries side by side in every kind of list.
func (c *Ctx) neighbours(op string, variants int, mkInput func(p *printed, buf []byte, variant int) []byte) {
	run := func(what string, k int, l []*M, styles []int) {
		boxes := []string{"group", "array", "map"}
		n := int64(len(l))
		tot := int64(3 * len(styles) * variants)
		for i := 0; i < k; i++ {
			tot *= n
		}
		c.Enum(fmt.Sprintf("%s: all %d neighbouring entries of %d shapes in 3 kinds of list, %d comma styles, %d layouts", what, k, n, len(styles), variants), op, tot, func(i int64, b []byte) []byte {
			m := mk(boxes[i%3], "")
			i /= 3
			for j := 0; j < k; j++ {
				m.C = append(m.C, l[i%n])
				i /= n
			}
			return mkInput(printFile(fileOf(m, "="), styles[i%int64(len(styles))]), b, int(i/int64(len(styles))))
		})
	}
	vs := shapeVals()
	if c.Thorough {
		run("full", 2, shapes([]string{"", "?", "*", "+", "1*2", "2*", "*3"}, []string{"", "k:", "k=>", "1:", "1=>"}, vs), []int{0, 1, 2})
		run("many", 3, shapes([]string{"", "?", "1*2"}, []string{"", "k:"}, vs), []int{0, 1})
		return
	}
	run("full", 2, shapes([]string{"", "?", "1*2"}, []string{"", "k:", "1=>"}, vs), []int{0, 1})
	run("few", 3, shapes([]string{"", "?"}, []string{"", "k:"}, []*M{vs[0], vs[1], vs[6], vs[9], vs[13], vs[16]}), []int{0, 1})
}

// chainsAndPumps runs both over an operation that takes a printed schema.
func (c *Ctx) chainsAndPumps(op string, variants int, mkInput func(p *printed, buf []byte, variant int) []byte) {
	c.neighbours(op, 1, mkInput)
	c.chains(op, variants, func(m *M, style, v int, b []byte) []byte { return mkInput(printFile(fileOf(m, "="), style), b, v) })
	ps := pumped(c.Thorough)
	n := int64(len(ps))
	c.Enum("pumped depths, widths, rule counts and lengths, 3 comma styles", op, n*3, func(i int64, b []byte) []byte {
		return mkInput(printFile(ps[i%n], int(i/n)), b, 0)
	})
}

// nodes counts the nodes of a model.
func (m *M) nodes() int {
	n := 1
	for _, c := range m.C {
		n += c.nodes()
	}
	return n
}
