package main

// C11: every unparenthesised operator expression up to a size, in every context, against the grouping
// the binding strengths give it.

import "fmt"

func c11type1s() []*M {
	l := []*M{
		id("x"), num("7"), txt("t"), typ("int"),
		mk("unwrap", "", id("g")), mk("enum", "", id("g")),
		mk("range", "..", num("1"), num("2")), mk("range", "...", id("n"), num("9")), mk("range", "..", num("1"), id("n")), mk("range", "..", id("n"), id("n")), mk("range", "..", flt("1.5", "1.5"), flt("2.25", "2.25")),
		mk("ctl", ".size", typ("tstr"), num("4")), mk("ctl", ".size", typ("uint"), mk("unwrap", "", id("n"))), mk("ctl", ".regexp", typ("tstr"), txt("a")), mk("ctl", ".regexp", typ("tstr"), id("x")),
		mk("ctl", ".bits", typ("uint"), mk("enum", "", id("g"))), mk("ctl", ".bits", mk("unwrap", "", id("x")), id("g")), mk("ctl", ".bits", mk("enum", "", id("g")), id("g")),
		mk("ctl", ".lt", typ("int"), num("5")), mk("ctl", ".ge", typ("float"), flt("2.5", "2.5")), mk("ctl", ".eq", typ("uint"), id("n")), mk("ctl", ".ne", typ("int"), id("n")),
		mk("tag", "6.1", typ("int")), mk("array", "", typ("int")),
	}
	for i := range l {
		l[i] = sp(l[i])
	}
	return l
}

// c11ctx wraps an item; group items may carry keys, occurrences and //, the others only type choices.
type c11ctx struct {
	name string
	kind int // 0 type choice, 1 rule value (// of choices), 2 group item, 3 group item without //
	wrap func(m *M) *M
}

func c11ctxs() []c11ctx {
	in := func(k string, pre, post []*M) func(*M) *M {
		return func(m *M) *M {
			return mk("file", "", append([]*M{mk("rule", "=", id("r"), &M{K: k, C: append(append(append([]*M{}, pre...), m), post...)})}, support()...)...)
		}
	}
	val := func(f func(*M) *M) func(*M) *M { return func(m *M) *M { return fileOf(f(m), "=") } }
	e := []*M{mk("entry", ":", id("k"), typ("int"))}
	return []c11ctx{
		{"rule value", 1, val(func(m *M) *M { return m })},
		{"//= rule value", 1, func(m *M) *M { return fileOf(m, "//=") }},
		{"group", 2, in("group", nil, nil)},
		{"array", 2, in("array", nil, nil)},
		{"map", 2, in("map", nil, nil)},
		{"group in array entry", 2, val(func(m *M) *M {
			return mk("array", "", typ("int"), mk("entry", ":", id("k"), mk("group", "", m)), typ("tstr"))
		})},
		{"enumerated group", 2, val(func(m *M) *M { return mk("enum", "", mk("group", "", m)) })},
		{"tag body", 0, val(func(m *M) *M { return mk("tag", "6.32", m) })},
		{"size argument", 0, val(func(m *M) *M { return mk("ctl", ".size", typ("tstr"), mk("group", "", m)) })},
		{"last array entry", 3, in("array", e, nil)},
		{"first array entry", 3, in("array", nil, []*M{typ("bool")})},
		{"middle map entry", 3, in("map", e, e)},
		{"first of a group, before an occurrence", 3, in("group", nil, []*M{mk("occ", "*", typ("bool"))})},
		{"after an occurrence", 3, in("group", []*M{mk("occ", "1*2", mk("entry", ":", id("k"), typ("int")))}, []*M{mk("opt", "", typ("bool"))})},
	}
}

func init() {
	name := reg("C11.expr", opC10)
	known := reg("C11.alternatives", func(in []byte) (bool, *Fail) {
		nt, f := opC10(in)
		if f != nil {
			for i, b := range in {
				if b == 0 {
					f.Key = string(in[:i])
					break
				}
			}
		}
		return nt, f
	})
	addCheck("C11", "exploration", "all operator expressions without parentheses up to the stated number of operands over the stated operand phrases, in every context and in three comma styles, each with the grouping its binding strengths give; non-trivial: parsed and compared", func(c *Ctx) {
		full := func() *gen {
			return newGen(nil, c11type1s(), []*M{id("k"), num("1")}, []string{":", "=>"}, []string{"?", "*", "1*2"}, nil, nil)
		}
		mid := func() *gen {
			l := c11type1s()
			var t []*M
			for _, i := range []int{0, 1, 4, 5, 6, 8, 11, 16, 18, 20} {
				t = append(t, l[i])
			}
			return newGen(nil, t, []*M{id("k")}, []string{":"}, []string{"?", "+"}, nil, nil)
		}
		small := func() *gen {
			l := c11type1s()
			return newGen(nil, []*M{l[0], l[6]}, []*M{id("k")}, []string{":"}, []string{"*"}, nil, nil)
		}
		run := func(set string, g *gen, depth int) {
			for _, x := range c11ctxs() {
				for n := 1; n <= depth; n++ {
					var vals []*M
					switch x.kind {
					case 0:
						vals = g.choice(n)
					case 1:
						vals = g.value(n)
					case 2:
						vals = g.item(n)
					case 3:
						vals = g.entry(n)
					}
					c.Enum(fmt.Sprintf("%s, %d operands, %s, 3 comma styles", x.name, n, set), name, int64(len(vals))*3, func(i int64, b []byte) []byte {
						return withTree(printFile(x.wrap(vals[i/3]), int(i%3)), b, false, spaces)
					})
				}
			}
		}
		run("24 operand phrases", full(), c.tier(2, 3))
		run("10 operand phrases", mid(), c.tier(3, 4))
		run("2 operand phrases", small(), c.tier(7, 8))
		// every literal and keyword, every atom and bracket as operand
		var every []*M
		for _, m := range append(append(append(allLeaves(), allAtoms()...), shapeVals()...), mk("group", "", mk("choice/", "", typ("int"), typ("nil"))), mk("tag", "6.256"), mk("tag", "6.65536", typ("int")), num("0"), flt("0.0", "0"), txt("int")) {
			if m.K != "choice/" {
				every = append(every, sp(m))
			}
		}
		run(fmt.Sprintf("%d operand phrases", len(every)), newGen(nil, every, []*M{id("k")}, []string{":"}, []string{"?"}, nil, nil), 2)
		x0 := sp(id("x"))
		for _, m := range every {
			// m at one, two or all places of expressions of up to 4 operands
			run(fmt.Sprintf("a name and %.40s", printFile(fileOf(m, "="), 0).src()), newGen(nil, []*M{x0, m}, []*M{id("k")}, []string{":"}, []string{"?"}, nil, nil), c.tier(3, 4))
		}
		// prefix operators before every kind of operand, and before each other
		var pre []*M
		prim := []*M{id("x"), num("7"), flt("1.5", "1.5"), txt("t"), boo("true"), typ("int"), typ("tstr"), mk("tag", "6.1"), mk("tag", "6"), mk("tag", "6.1", id("x")), mk("tag", "6.1", mk("choice/", "", id("x"), typ("int"))), mk("group", ""), mk("group", "", mk("entry", ":", id("k"), num("1")), id("x")), mk("array", "", typ("int")), mk("map", "", mk("entry", ":", id("k"), typ("int")))}
		for _, p := range []string{"unwrap", "enum"} {
			for _, q := range []string{"", "unwrap", "enum"} {
				for _, v := range prim {
					if q != "" {
						v = mk(q, "", v)
					}
					pre = append(pre, sp(mk(p, "", v)))
				}
			}
		}
		run("90 prefixed operands", newGen(nil, pre, []*M{id("k")}, []string{":"}, []string{"?", "1*2"}, nil, nil), 1)
		run("45 prefixed operands", newGen(nil, append(append(append([]*M{sp(id("x")), sp(mk("range", "..", num("1"), num("2")))}, pre[:15]...), pre[45:60]...), pre[15:30:30]...), []*M{id("k")}, []string{":"}, []string{"?"}, nil, nil), 2)
		// .bits with every prefixed operand as its target
		var bits []*M
		for _, p := range pre {
			for _, q := range []*M{id("g"), mk("enum", "", id("g")), mk("unwrap", "", id("g"))} {
				bits = append(bits, sp(mk("ctl", ".bits", p, q)))
			}
		}
		run(fmt.Sprintf("%d prefixed targets of .bits", len(bits)), newGen(nil, bits, []*M{id("k")}, []string{":"}, []string{"?", "1*2"}, nil, nil), 1)
		// alternatives of several entries
		var l []string
		ent := func(k string) *M { return mk("entry", ":", id(k), typ("int")) }
		for _, br := range []string{"group", "array", "map"} {
			alt := func(ms ...*M) *M { return mk("group", "", ms...) }
			for _, cs := range [][]*M{{alt(ent("a"), ent("b")), ent("c")}, {ent("a"), alt(ent("b"), ent("c"))}, {alt(ent("a"), ent("b")), alt(ent("c"), ent("d"))}} {
				// printed without the parentheses of the alternatives
				p := &printer{gaps: map[int]bool{}}
				body := &N{K: "choice//"}
				p.put("r")
				p.put("=")
				o := map[string]string{"group": "()", "array": "[]", "map": "{}"}[br]
				p.put(o[:1])
				for i, a := range cs {
					if i > 0 {
						p.put("//")
					}
					if a.K == "group" {
						g := &N{K: "group"}
						p.items(a.C, g)
						body.C = append(body.C, g)
					} else {
						body.C = append(body.C, p.print(a))
					}
				}
				p.put(o[1:])
				t := &N{K: "file", C: []*N{{K: "rule", C: []*N{{K: "id", V: "r"}, {K: br, C: []*N{body}}}}}}
				l = append(l, string(withTree(&printed{p.toks, t, p.gaps}, nil, false, spaces)))
			}
		}
		c.List("alternatives of several entries", known, l)
	})
}
