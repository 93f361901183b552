package main

// C13: undefined references. Reference model: the references of a file are the names that are not
// rule names and not keys before a colon; a reference is missing iff no rule of the file or of the
// session defines it and it does not start with $.

import (
	"encoding/json"
	"fmt"
	"strings"

	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
)

type refPos struct {
	Name           string
	Off, Line, Col int
	OK             bool // defined, or exempt
	Loose          bool // left bound of a range whose right bound is missing: may be mentioned
}

type c13case struct {
	Env  []string `json:",omitempty"`
	Src  string
	Refs []refPos
}

func parseEnv(e *env.Environment, src string) parser.ErrorList {
	_, errs := parser.NewParser(lexer.NewLexer([]byte(src)), parser.WithEnv(e)).ParseFile()
	return errs
}

func opC13f(in []byte) (bool, *Fail) {
	var cs c13case
	if json.Unmarshal(in, &cs) != nil {
		return false, nil
	}
	e := env.NewEnvironment()
	for _, s := range cs.Env {
		parseEnv(e, s)
	}
	errs := parseEnv(e, cs.Src)
	at := map[int]refPos{}
	for _, r := range cs.Refs {
		at[r.Off] = r
	}
	hit := map[int]bool{}
	for _, d := range errs {
		p := d.Start()
		r, ok := at[p.Offset]
		if !ok {
			return true, failf("schema: %s\nreport %q at %d:%d points at no reference", cs.Src, d.Error(), p.Line, p.Column)
		}
		if r.OK {
			if r.Loose {
				continue
			}
			return true, failf("schema: %s (session %q)\n%s at %d:%d needs no report but %q was reported", cs.Src, cs.Env, r.Name, r.Line, r.Col, d.Error())
		}
		if !strings.Contains(d.Error(), r.Name) {
			return true, failf("schema: %s\nreport %q at the missing reference %s does not name it", cs.Src, d.Error(), r.Name)
		}
		if p.Line != r.Line || p.Column != r.Col {
			return true, failf("schema: %s\nreport at %d:%d, the reference %s is at %d:%d", cs.Src, p.Line, p.Column, r.Name, r.Line, r.Col)
		}
		hit[r.Off] = true
	}
	for _, r := range cs.Refs {
		if !r.OK && !hit[r.Off] {
			return true, failf("schema: %s (session %q)\n%s at %d:%d is defined nowhere and not reported: %s", cs.Src, cs.Env, r.Name, r.Line, r.Col, errString(errs))
		}
	}
	return len(cs.Refs) > 0, nil
}

// refsOf walks the model and its placed tree together and collects the references.
func refsOf(m *M, n *N, defined func(string) bool, out []refPos) []refPos {
	ok := func(s string) bool { return strings.HasPrefix(s, "$") || defined(s) }
	if m.K == "id" {
		return append(out, refPos{Name: m.V, Off: n.P.Offset, Line: n.P.Line, Col: n.P.Column, OK: ok(m.V)})
	}
	for i, c := range m.C {
		if i == 0 && (m.K == "rule" || m.K == "entry" && m.V == ":") {
			continue
		}
		k := len(out)
		out = refsOf(c, n.C[i], defined, out)
		if m.K == "range" && i == 0 && c.K == "id" && m.C[1].K == "id" && !ok(m.C[1].V) {
			out[k].Loose = true
		}
	}
	return out
}

func defsOf(m *M) []string {
	var l []string
	for _, r := range m.C {
		l = append(l, r.C[0].V)
	}
	return l
}

func c13json(m *M, sess []*M, b []byte) []byte { return c13lay(m, sess, 0, b) }

// c13lay: 0 a line break after every seventh token, 1 all on one line, 2 every token on its own
// line, 3 a line break after every third.
func c13lay(m *M, sess []*M, lay int, b []byte) []byte {
	defs := map[string]bool{}
	cs := c13case{}
	for _, s := range sess {
		for _, d := range defsOf(s) {
			defs[d] = true
		}
		cs.Env = append(cs.Env, printFile(s, 0).src())
	}
	for _, d := range defsOf(m) {
		defs[d] = true
	}
	src, t := printFile(m, 0).lay(func(i int) string {
		if i == 0 {
			return ""
		}
		if n := []int{7, 1 << 40, 1, 3}[lay]; i%n == 0 {
			return "\n "
		}
		return " "
	})
	cs.Src = src
	cs.Refs = refsOf(m, t, func(s string) bool { return defs[s] }, nil)
	j, _ := json.Marshal(&cs)
	return append(b, j...)
}

// useCtxs: a value using the reference in every position a name may stand.
func useCtxs(r func() *M) []*M {
	ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
	return []*M{
		r(), mk("group", "", r()), mk("array", "", r()), mk("map", "", r()), mk("array", "", typ("int"), r(), typ("int")),
		mk("map", "", ent("p", r())), mk("array", "", ent("p", typ("int")), ent("q", r())), mk("group", "", ent("p", r()), ent("q", typ("int"))),
		mk("map", "", mk("entry", "=>", r(), typ("int"))), mk("map", "", mk("entry", "=>", num("1"), r())),
		mk("map", "", mk("entry", ":", num("1"), r())), mk("map", "", mk("opt", "", ent("p", r()))), mk("map", "", mk("opt", "", mk("entry", "=>", r(), r()))),
		mk("array", "", mk("opt", "", r())), mk("array", "", mk("occ", "*", r())), mk("array", "", mk("occ", "1*2", r())), mk("array", "", mk("occ", "+", ent("p", r()))),
		mk("choice/", "", r(), typ("int")), mk("choice/", "", typ("int"), r()), mk("choice/", "", typ("int"), typ("tstr"), r()), mk("choice//", "", r(), typ("int")), mk("choice//", "", typ("int"), r()),
		mk("group", "", mk("choice//", "", ent("p", typ("int")), ent("q", r()))), mk("array", "", mk("choice/", "", typ("int"), r())),
		mk("unwrap", "", r()), mk("enum", "", r()), mk("array", "", mk("unwrap", "", r())), mk("map", "", ent("p", mk("unwrap", "", r()))), mk("enum", "", mk("group", "", ent("p", r()))),
		mk("tag", "6.1", r()), mk("tag", "6.1", mk("choice/", "", typ("int"), r())), mk("tag", "6.1", mk("array", "", r())),
		mk("ctl", ".size", typ("tstr"), r()), mk("ctl", ".size", typ("uint"), mk("group", "", r())), mk("ctl", ".bits", typ("uint"), r()), mk("ctl", ".bits", r(), typ("int")), mk("ctl", ".bits", typ("bstr"), mk("enum", "", r())),
		mk("ctl", ".bits", typ("bstr"), mk("unwrap", "", r())),
		mk("array", "", mk("array", "", mk("map", "", ent("p", mk("array", "", mk("opt", "", r())))))),
	}
}

func init() {
	// positions that only take a reference to a number or a text
	numCtxs := func(r func() *M) []*M {
		ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
		l := []*M{mk("range", "..", num("1"), r()), mk("range", "...", r(), num("9")), mk("range", "..", r(), r())}
		for _, op := range []string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"} {
			l = append(l, mk("ctl", op, typ("int"), r()))
		}
		for _, x := range []*M{mk("range", "..", num("1"), r()), mk("range", "..", r(), num("2")), mk("ctl", ".lt", typ("uint"), r())} {
			l = append(l, mk("array", "", x, typ("int")), mk("map", "", ent("p", x)), mk("choice/", "", typ("tstr"), x), mk("tag", "6.2", x), mk("ctl", ".size", typ("tstr"), mk("group", "", x)))
		}
		return l
	}
	fltCtxs := func(r func() *M) []*M {
		return []*M{mk("range", "..", flt("1.5", "1.5"), r()), mk("range", "...", r(), flt("9.5", "9.5")), mk("ctl", ".lt", typ("float"), r()), mk("array", "", mk("range", "..", flt("1.5", "1.5"), r()))}
	}
	txtCtxs := func(r func() *M) []*M {
		return []*M{mk("ctl", ".regexp", typ("tstr"), r()), mk("array", "", mk("ctl", ".regexp", typ("text"), r()), typ("int")), mk("choice/", "", mk("ctl", ".regexp", typ("tstr"), r()), typ("int"))}
	}
	name := reg("C13.refs", opC13f)
	addCheck("C13", "exploration", "every use position times every way of defining (or not defining) the name, every order of the rules, and all files of up to three rules over three names; non-trivial: the file contains a reference that was judged", func(c *Ctx) {
		type fam struct {
			ctxs func(func() *M) []*M
			vals []*M
		}
		fams := []fam{
			{useCtxs, []*M{typ("int"), num("3"), mk("group", "", mk("entry", ":", id("z"), typ("int"))), mk("array", "", typ("int")), mk("choice/", "", typ("int"), typ("tstr")), mk("enum", "", mk("group", "", mk("entry", ":", id("z"), num("1"))))}},
			{numCtxs, []*M{num("3"), num("0"), hexn("0x1F", "31")}},
			{fltCtxs, []*M{flt("2.5", "2.5")}},
			{txtCtxs, []*M{txt("[a-z]"), txt("")}},
		}
		names := []string{"a", "a-b", "a.b", "_x", "@y", "$s", "$$p", "integer", "z", "truely", "A"}
		var cases [][]byte
		add := func(m *M, sess ...*M) { cases = append(cases, c13json(m, sess, nil)) }
		rule := func(n, as string, v *M) *M { return mk("rule", as, id(n), v) }
		file := func(rs ...*M) *M { return mk("file", "", rs...) }
		for _, f := range fams {
			for _, nm := range names {
				nm := nm
				for _, u := range f.ctxs(func() *M { return id(nm) }) {
					for _, ua := range []string{"=", "/=", "//="} {
						use := rule("r", ua, u)
						add(file(use))
						for _, v := range f.vals {
							for _, as := range []string{"=", "/=", "//="} {
								d := rule(nm, as, v)
								add(file(use, d))
								add(file(d, use))
								add(file(use), file(d))
								add(file(use), file(rule("o", "=", typ("int")), d))
								add(file(use), file(rule("o", "=", typ("int"))), file(d))
								// a different name that contains or extends it
								add(file(use, rule(nm+"x", as, v)))
								add(file(use, rule("x"+nm, as, v)), file(rule(nm+"-y", as, v)))
							}
							// defined only as a key
							add(file(use, rule("m", "=", mk("map", "", mk("entry", ":", id(nm), v)))))
							add(file(rule("m", "=", mk("map", "", mk("entry", ":", id(nm), v))), use))
							// self reference and two uses
							add(file(use, rule("s", "=", u), rule(nm, "=", v)))
							add(file(rule("s", "=", u), use))
						}
					}
				}
				if f.vals[0].K == "type" {
					for _, u := range f.ctxs(func() *M { return id(nm) }) {
						add(file(rule(nm, "=", u)))
						add(file(rule(nm, "/=", u)))
					}
				}
			}
		}
		c.Enum("every use position x name x definition", name, int64(len(cases)), func(i int64, b []byte) []byte { return append(b, cases[i]...) })
		// spellings: every short name undefined, defined, and next to a rule of another spelling
		sn := append(shortNames(c.tier(3, 4)), wordNames()...)
		spellUse := []func(n string) *M{
			func(n string) *M { return id(n) }, func(n string) *M { return mk("array", "", typ("int"), id(n)) }, func(n string) *M { return mk("map", "", mk("entry", ":", id(n), id(n))) },
			func(n string) *M { return mk("map", "", mk("entry", "=>", id(n), typ("int"))) }, func(n string) *M { return mk("range", "..", num("1"), id(n)) }, func(n string) *M { return mk("range", "..", id(n), num("9")) }, func(n string) *M { return mk("ctl", ".lt", typ("int"), id(n)) },
			func(n string) *M { return mk("ctl", ".regexp", typ("tstr"), id(n)) }, func(n string) *M { return mk("unwrap", "", id(n)) }, func(n string) *M { return mk("enum", "", id(n)) }, func(n string) *M { return mk("choice/", "", typ("int"), id(n)) }, func(n string) *M { return mk("tag", "6.1", id(n)) },
		}
		val := func(k int) *M {
			if k == 7 {
				return txt("t")
			}
			return num("3")
		}
		ns, nu := int64(len(sn)), int64(len(spellUse))
		c.Enum(fmt.Sprintf("every one of %d spellings of a name in %d positions, 6 definition states", ns, nu), name, ns*nu*6, func(i int64, b []byte) []byte {
			n := sn[i%ns]
			i /= ns
			use, d := rule("zz", "=", spellUse[i%nu](n)), rule(n, "=", val(int(i%nu)))
			switch i / nu {
			case 0:
				return c13json(file(use), nil, b)
			case 1:
				return c13json(file(use, d), nil, b)
			case 2:
				return c13json(file(d, use), nil, b)
			case 3:
				return c13json(file(use), []*M{file(d)}, b)
			case 4:
				return c13json(file(use, rule(n, "/=", val(int(i%nu)))), nil, b)
			default:
				return c13json(file(use, rule(n, "//=", val(int(i%nu)))), nil, b)
			}
		})
		// every kind of definition, among any number of other rules
		kinds := append(append(append([]*M{}, allLeaves()...), richModels()...), shapeVals()...)
		for _, w := range chainWraps() {
			kinds = append(kinds, w.f(typ("null")), w.f(num("7")))
		}
		others := append([]int{0}, upTo(c.tier(17, 70))...)
		others = append(others, 31, 32, 33, 64)
		kUse := append(append([]func(n string) *M{}, spellUse[:4]...), spellUse[8:]...)
		nk, nko, nku := int64(len(kinds)), int64(len(others)), int64(len(kUse))
		c.Enum(fmt.Sprintf("%d kinds of definition in %d positions among up to 64 other rules, 5 arrangements, 3 assignments", nk, nku), name, nk*nko*nku*15, func(i int64, b []byte) []byte {
			v := kinds[i%nk]
			i /= nk
			use := rule("zz", "=", kUse[i%nku]("nm"))
			i /= nku
			var os []*M
			for j := 0; j < others[i%nko]; j++ {
				os = append(os, rule(fmt.Sprintf("o%d", j), "=", kinds[j%8]))
			}
			i /= nko
			d := rule("nm", []string{"=", "/=", "//="}[i%3], v)
			h := len(os) / 2
			switch i / 3 {
			case 0:
				return c13json(file(append(append(append([]*M{use}, os[:h]...), d), append(os[h:], support()...)...)...), nil, b)
			case 1:
				return c13json(file(append(append(append([]*M{d}, os...), use), support()...)...), nil, b)
			case 2:
				return c13json(file(append(append(os, d, use), support()...)...), nil, b)
			case 3:
				return c13json(file(append(os[:h:h], use)...), []*M{file(append(append(os[h:], d), support()...)...)}, b)
			default:
				return c13json(file(append(os, use)...), nil, b) // not defined
			}
		})
		pn := append(shortNames(2), wordNames()...)
		if c.Thorough {
			pn = append(shortNames(3), wordNames()...)
		}
		np := int64(len(pn))
		c.Enum(fmt.Sprintf("all pairs of %d spellings: one defined, the other used", np), name, np*np, func(i int64, b []byte) []byte {
			u, d := pn[i%np], pn[i/np]
			if i%2 == 0 {
				return c13json(file(rule("zz", "=", id(u)), rule(d, "=", typ("int"))), nil, b)
			}
			return c13json(file(rule("zz", "=", mk("array", "", id(u)))), []*M{file(rule(d, "=", typ("int")))}, b)
		})
		// every nesting of constructs around an undefined and a defined name
		leaves := []*M{id("u1"), id("x"), mk("range", "..", num("1"), id("u2")), mk("range", "..", id("u3"), num("2")), mk("ctl", ".lt", typ("int"), id("u4")), mk("ctl", ".regexp", typ("tstr"), id("u5")), mk("unwrap", "", id("u6")), mk("enum", "", id("u7")), mk("entry", "=>", id("u8"), id("u9"))}
		in13 := func(m *M, style, v int, b []byte) []byte { return c13json(fileOf(m, "="), nil, b) }
		c.eachChain(name, 1, leaves[:8], 1, 1, in13)
		c.eachChain(name, 2, leaves[:8], 1, 1, in13)
		c.eachChain(name, 3, leaves[:c.tier(2, 8)], 1, 1, in13)
		for _, m := range append(upTo(c.tier(60, 280))[2:], 100, 257, 300, 1000) { // many references, one missing, at every tenth place
			m := m
			c.Enum(fmt.Sprintf("files of %d rules in a ring, one rule missing", m), name, 21, func(i int64, b []byte) []byte {
				f := file()
				for k := 0; k < m; k++ {
					if i > 0 && k == int(i-1)*(m-1)/19 {
						continue
					}
					f.C = append(f.C, rule(fmt.Sprintf("r%d", k), "=", id(fmt.Sprintf("r%d", (k*7+1)%m))))
				}
				return c13json(f, nil, b)
			})
		}
		// many references to few names: in one rule and in many, one of the names missing
		bulk := []func(n string) *M{
			func(n string) *M { return id(n) }, func(n string) *M { return mk("entry", ":", id("k"), id(n)) }, func(n string) *M { return mk("range", "..", num("1"), id(n)) },
			func(n string) *M { return mk("range", "..", id(n), num("9")) }, func(n string) *M { return mk("ctl", ".lt", typ("int"), id(n)) }, func(n string) *M { return mk("unwrap", "", id(n)) },
			func(n string) *M { return mk("opt", "", id(n)) }, func(n string) *M { return mk("tag", "6.1", id(n)) }, func(n string) *M { return mk("ctl", ".size", typ("tstr"), mk("group", "", id(n))) },
		}
		counts := append(upTo(c.tier(70, 300))[1:], 129, 257, 301, 1025, 4100)
		if c.Thorough {
			counts = append(counts, 16400, 33000, 66000, 132000)
		}
		nb, nc := int64(len(bulk)), int64(len(counts))
		manyRefs := func(u func(string) *M, n int, arr int64, lay int, b []byte) []byte {
			refs := make([]*M, n)
			for j := range refs {
				nm := "miss"
				switch arr % 4 {
				case 1: // the last one only
					if j < n-1 {
						nm = "have"
					}
				case 2: // alternating
					if j%2 == 0 {
						nm = "have"
					}
				case 3: // all different
					nm = fmt.Sprintf("n%d", j)
				}
				refs[j] = u(nm)
			}
			f := file(rule("have", "=", num("3")))
			if arr < 4 {
				f.C = append(f.C, rule("zz", "=", mk("array", "", refs...)))
			} else {
				for j, r := range refs {
					f.C = append(f.C, rule(fmt.Sprintf("r%d", j), "=", mk("array", "", r, typ("int"))))
				}
			}
			return c13lay(f, nil, lay, b)
		}
		c.Enum(fmt.Sprintf("up to %d references to one or two names in %d positions, 8 arrangements, 3 layouts", counts[len(counts)-1], nb), name, nb*nc*8*3, func(i int64, b []byte) []byte {
			return manyRefs(bulk[i/3%nb], counts[i/3/nb%nc], i/3/nb/nc, int(i%3), b)
		})
		huge := []int{70000}
		if c.Thorough {
			huge = append(huge, 110000, 270000)
		}
		c.Enum(fmt.Sprintf("%d references in %d positions, 8 arrangements", huge, nb), name, nb*8*int64(len(huge)), func(i int64, b []byte) []byte {
			return manyRefs(bulk[i%nb], huge[i/nb/8], i/nb%8, 0, b)
		})
		// every generated schema with all, some and none of the names it uses defined
		sup := support()
		part := func(what string, vals []*M, wrapped bool) {
			nv, nd := int64(len(vals)), int64(len(sup)+2)
			c.Enum(fmt.Sprintf("%s: %d values, all, all but one and none of their names defined, 4 layouts", what, nv), name, nv*nd*4, func(i int64, b []byte) []byte {
				v := vals[i%nv]
				i /= nv
				if wrapped {
					v = v.C[0].C[1]
				}
				f := file(rule("r", "=", v))
				for j, s := range sup {
					if d := i % nd; d == nd-1 || int(d) == j {
						continue
					}
					f.C = append(f.C, s)
				}
				return c13lay(f, nil, int(i/nd), b)
			})
		}
		for _, s := range genSets(c.Thorough) {
			for k := 1; k <= s.depth; k++ {
				part(fmt.Sprintf("%s, size %d", s.name, k), s.g.value(k), false)
			}
		}
		part("every value of the palettes", scalarModels(), true)
		part("the same phrase twice and more often side by side", twins(c.Thorough), false)
		lm := literalModels(c.Thorough, id("u"))
		nl := int64(len(lm))
		c.Enum(fmt.Sprintf("many values of every kind of literal beside a name that is not defined (%d values)", nl), name, nl, func(i int64, b []byte) []byte {
			return c13json(file(append(support(), rule("zz", "=", lm[i]))...), nil, b)
		})
		// names next to each other: one defined, the other used
		np2 := editNames(c.Thorough)
		ne := int64(len(np2))
		c.Enum(fmt.Sprintf("%d pairs of a name and a neighbour of its spelling, one defined, the other used, 3 places", ne), name, ne*6, func(i int64, b []byte) []byte {
			d, u := np2[i%ne][0], np2[i%ne][1]
			i /= ne
			if i&1 == 1 {
				d, u = u, d
			}
			switch i / 2 {
			case 0:
				return c13json(file(rule("zz", "=", id(u)), rule(d, "=", typ("int"))), nil, b)
			case 1:
				return c13json(file(rule("zz", "=", mk("array", "", mk("entry", ":", id(d), id(u))))), []*M{file(rule(d, "=", typ("int")))}, b)
			}
			return c13json(file(rule(d, "=", mk("group", "", typ("int"))), rule("zz", "=", mk("map", "", id(d), mk("opt", "", id(u))))), nil, b)
		})
		// pairs of use positions in one file, one or both names defined
		n := int64(len(useCtxs(func() *M { return id("a") })))
		c.Enum("all pairs of use positions, 4 definition states, 6 orders", name, n*n*4*3, func(i int64, b []byte) []byte {
			u1 := useCtxs(func() *M { return id("a") })[i%n]
			i /= n
			u2 := useCtxs(func() *M { return id("b") })[i%n]
			i /= n
			rs := []*M{rule("r", "=", u1), rule("s", "=", u2)}
			if i&1 != 0 {
				rs = append(rs, rule("a", "=", typ("int")))
			}
			if i&2 != 0 {
				rs = append(rs, rule("b", "/=", typ("int")))
			}
			i >>= 2
			if i == 1 {
				rs[0], rs[len(rs)-1] = rs[len(rs)-1], rs[0]
			} else if i == 2 {
				for l, r := 0, len(rs)-1; l < r; l, r = l+1, r-1 {
					rs[l], rs[r] = rs[r], rs[l]
				}
			}
			return c13json(file(rs...), nil, b)
		})
		// nested use positions: every position inside every enclosing construct
		wraps := []func(*M) *M{
			func(m *M) *M { return mk("array", "", typ("int"), m, typ("tstr")) }, func(m *M) *M { return mk("map", "", mk("entry", ":", id("p"), m)) },
			func(m *M) *M { return mk("group", "", mk("opt", "", mk("entry", ":", id("p"), m))) }, func(m *M) *M { return mk("tag", "6.3", m) },
			func(m *M) *M { return mk("array", "", mk("occ", "1*2", m)) }, func(m *M) *M { return mk("ctl", ".size", typ("tstr"), mk("group", "", m)) },
			func(m *M) *M { return mk("enum", "", mk("group", "", mk("entry", ":", id("p"), m))) }, func(m *M) *M { return mk("map", "", mk("entry", "=>", num("1"), m)) },
		}
		all := []func(func() *M) []*M{useCtxs, numCtxs, fltCtxs, txtCtxs}
		var nested [][]byte
		for k, f := range all {
			for _, nm := range []string{"a", "$a"} {
				nm := nm
				for _, u := range f(func() *M { return id(nm) }) {
					if u.K == "choice//" {
						continue
					}
					for _, w := range wraps {
						for _, w2 := range append(wraps, func(m *M) *M { return m }) {
							use := rule("r", "=", w2(w(u)))
							def := rule(nm, "=", []*M{typ("int"), num("3"), flt("2.5", "2.5"), txt("t")}[k])
							nested = append(nested, c13json(file(use), nil, nil), c13json(file(use, def), nil, nil), c13json(file(def, use), nil, nil), c13json(file(use), []*M{file(def)}, nil))
						}
					}
				}
			}
		}
		c.Enum("use positions nested in up to two enclosing constructs", name, int64(len(nested)), func(i int64, b []byte) []byte { return append(b, nested[i]...) })
		// all files of up to 4 rules with distinct names over values that reference the names
		vals := func() []*M {
			var l []*M
			for _, nm := range []string{"a", "b", "c", "d"} {
				nm := nm
				l = append(l, id(nm), mk("array", "", mk("occ", "*", id(nm))), mk("map", "", mk("entry", ":", id(nm), typ("int"))))
			}
			return append(l, typ("int"), mk("choice/", "", id("a"), id("c")), mk("map", "", mk("entry", ":", id("a"), id("b")), mk("entry", "=>", id("c"), id("d"))))
		}()
		perm := [][]string{{"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"a", "c"}, {"c", "b"}, {"a", "b", "c"}, {"c", "b", "a"}, {"b", "c", "a"}}
		if c.Thorough {
			perm = append(perm, []string{"a", "b", "c", "d"}, []string{"d", "b", "a", "c"}, []string{"a", "b", "d", "e"})
		}
		for _, ns := range perm {
			ns := ns
			k := int64(len(vals))
			tot := int64(1)
			for range ns {
				tot *= k * 2
			}
			c.Enum(fmt.Sprintf("all files defining %v over %d values, 2 assignments", ns, k), name, tot, func(i int64, b []byte) []byte {
				m := file()
				for _, nm := range ns {
					as := []string{"=", "/="}[i%2]
					i /= 2
					m.C = append(m.C, rule(nm, as, vals[i%k]))
					i /= k
				}
				return c13json(m, nil, b)
			})
		}
	})
}
