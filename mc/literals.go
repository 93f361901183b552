package main

// Many values of every kind of literal, each beside names, inside lists and in front of what follows it.

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// wideInts: small numbers, the neighbourhoods of the powers of two and ten, and numbers with a meaning
// in the notation, in the four radixes.
func wideInts(thorough bool) []*M {
	var vals []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			vals = append(vals, s)
		}
	}
	for i := 0; i <= 300; i++ {
		add(fmt.Sprint(i))
	}
	pows := func(base int64, max int) {
		b := big.NewInt(1)
		for i := 0; i <= max; i++ {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(b, big.NewInt(d))
				if x.Sign() >= 0 && x.IsInt64() {
					add(x.String())
				}
			}
			b = new(big.Int).Mul(b, big.NewInt(base))
		}
	}
	pows(2, 63)
	pows(10, 18)
	for _, s := range []string{"1001", "1004", "1010", "1040", "55798", "55799", "55800", "55801", "15309736", "12345", "123456789", "1234567890123456789", "9223372036854775807", "0x7fffffffffffffff"[2:3]} {
		add(s)
	}
	var out []*M
	for i, s := range vals {
		out = append(out, num(s))
		n, _ := new(big.Int).SetString(s, 10)
		sp := []string{"0x" + n.Text(16), "0X" + strings.ToUpper(n.Text(16)), "0b" + n.Text(2), "0o" + n.Text(8), "0x00" + n.Text(16)}
		for j, x := range sp {
			if x[1] == 'X' {
				x = "0x" + x[2:]
			}
			if thorough || j == i%len(sp) {
				out = append(out, hexn(x, s))
			}
		}
	}
	return out
}

func wideFloats() []*M {
	var out []*M
	for _, a := range []string{"0", "1", "2", "9", "10", "15", "16", "99", "100", "127", "128", "255", "256", "1000", "32767", "65504", "65535", "65536", "16777216", "16777217", "4294967295", "9007199254740993", "9223372036854775807", "18446744073709551616"} {
		for _, b := range []string{"0", "00", "1", "5", "25", "05", "125", "50", "3333333333333333", "99999999999999999999", "000001"} {
			s := a + "." + b
			f, err := strconv.ParseFloat(s, 64)
			if err == nil {
				out = append(out, flt(s, strconv.FormatFloat(f, 'g', -1, 64)))
			}
		}
	}
	return out
}

// wideTexts: every one- and some two-character texts, every word and operator of the notation, and long ones.
func wideTexts() []*M {
	var out []*M
	for b := 1; b < 128; b++ {
		if c := rune(b); c != '"' && c != '\n' && c != '\r' {
			for _, s := range []string{string(c), string(c) + string(c), "a" + string(c), string(c) + "a", " " + string(c) + " "} {
				out = append(out, txt(s))
			}
		}
	}
	for k := range refKeywords {
		out = append(out, txt(k), txt(k+" "))
	}
	sortModels(out)
	for _, s := range []string{"x = int", "; comment", "[1, 2]", "{a: 1}", "#6.1(int)", "1..2", "a/b", "a//b", "$$x", "~x", "&x", "\\n", "\\\\", "\\u00e9", "\u00e9", "\u2028", "\U0001f600", "[a-z]+", "^$", "(a|b)*", "%s", "%d%%", "0x1F", "1.5", "null", "'", "`", "a b c", strings.Repeat("n", 255), strings.Repeat("n", 256), strings.Repeat("q ", 2100)} {
		out = append(out, txt(s))
	}
	return out
}

func sortModels(l []*M) {
	s := make([]string, len(l))
	for i, m := range l {
		s[i] = m.V
	}
	sortStrings(s)
	for i := range l {
		l[i] = txt(s[i])
	}
}

// literalModels: every value in every place around names; u is the name used beside it.
func literalModels(thorough bool, u *M) []*M {
	var out []*M
	ent := func(k, v *M) *M { return mk("entry", ":", k, v) }
	both := func(l *M) []*M {
		return []*M{
			mk("array", "", l, u, typ("int")), mk("array", "", u, l), mk("map", "", ent(id("p"), l), ent(id("q"), u), mk("opt", "", ent(id("o"), u))), mk("choice/", "", l, u), mk("choice/", "", typ("int"), u, l, u),
			mk("group", "", mk("choice//", "", ent(id("p"), l), ent(id("q"), u))), mk("array", "", mk("opt", "", l), u), mk("array", "", mk("occ", "*", l), u), mk("map", "", mk("entry", "=>", u, l), u), mk("tag", "6.1", mk("array", "", l, u)),
		}
	}
	ints := wideInts(thorough)
	for i, l := range ints {
		ls := both(l)
		ls = append(ls, mk("map", "", mk("entry", "=>", l, u), ent(id("z"), u)), mk("map", "", ent(l, u), u), mk("array", "", mk("opt", "", ent(l, u)), u), mk("array", "", mk("range", "..", num("0"), l), u), mk("array", "", u, mk("range", "...", l, num("9223372036854775807"))),
			mk("map", "", ent(id("p"), mk("ctl", ".lt", typ("int"), l)), ent(id("q"), u)), mk("array", "", mk("ctl", ".size", typ("tstr"), l), u), mk("array", "", mk("ctl", ".size", typ("bstr"), mk("group", "", mk("range", "..", num("0"), l))), mk("opt", "", u)), mk("map", "", mk("entry", "=>", l, mk("group", "", u, ent(l, u)))))
		if l.W == "" {
			n := l.V
			ls = append(ls, mk("tag", "6."+n, u), mk("tag", "6."+n, mk("group", "", u, ent(id("p"), u))), mk("array", "", mk("tag", "6."+n, mk("array", "", mk("tag", "6.1", u), u)), u), mk("map", "", ent(id("p"), mk("tag", "6."+n, mk("map", "", ent(id("q"), u)))), u),
				mk("array", "", mk("tag", "6."+n, mk("choice/", "", typ("int"), u)), mk("opt", "", u)), mk("array", "", mk("tag", "6."+n), u),
				mk("array", "", mk("occ", n+"*", u), u), mk("array", "", mk("occ", "*"+n, u), typ("int")), mk("map", "", mk("occ", n+"*"+n, ent(id("k"), u)), ent(id("l"), u)), mk("group", "", u, mk("occ", "0*"+n, mk("group", "", u))), mk("array", "", mk("occ", n+"*9223372036854775807", mk("unwrap", "", id("g"))), u))
		}
		if thorough {
			out = append(out, ls...)
			continue
		}
		for j, m := range ls { // small and large values everywhere, those between in turns
			if v, err := strconv.ParseInt(l.V, 10, 64); err != nil || v < 34 || v > 300 || (i+j)%4 == 0 {
				out = append(out, m)
			}
		}
	}
	for _, l := range wideFloats() {
		out = append(out, both(l)...)
		out = append(out, mk("array", "", mk("range", "..", flt("0.0", "0"), l), u), mk("array", "", mk("ctl", ".lt", typ("float"), l), u))
	}
	for i, l := range wideTexts() {
		for j, m := range append(both(l), mk("map", "", mk("entry", "=>", u, l), ent(id("p"), u)), mk("array", "", mk("ctl", ".regexp", typ("tstr"), l), u)) {
			if thorough || (i+j)%2 == 0 {
				out = append(out, m)
			}
		}
	}
	return out
}

// nameModels: files that use every short and every odd name in every place, defined and, for keys and rules, undefined.
func nameModels(thorough bool) []*M {
	k := 2
	if thorough {
		k = 3
	}
	taken := map[string]bool{"r": true}
	for _, s := range support() {
		taken[s.C[0].V] = true
	}
	var out []*M
	rule := func(n string, v *M) *M { return mk("rule", "=", id(n), v) }
	ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
	for i, n := range append(shortNames(k), wordNames()...) {
		if taken[n] {
			continue
		}
		u := id(n)
		uses := []*M{
			u, mk("array", "", typ("int"), u, typ("tstr")), mk("map", "", ent(n, u)), mk("map", "", u, ent("k", u)), mk("map", "", mk("entry", "=>", u, typ("int"))), mk("array", "", mk("opt", "", u), u), mk("array", "", mk("occ", "1*2", u), mk("occ", "*", ent(n, u))),
			mk("choice/", "", u, typ("int"), u), mk("group", "", mk("choice//", "", ent(n, typ("int")), u)), mk("array", "", mk("unwrap", "", u), u), mk("map", "", ent("e", mk("enum", "", u)), ent(n, mk("enum", "", mk("group", "", u)))), mk("tag", "6.1", u), mk("tag", "6.1", mk("array", "", ent(n, u))),
			mk("array", "", mk("range", "..", num("1"), u), u), mk("map", "", ent(n, mk("range", "...", u, num("9")))), mk("array", "", mk("range", "..", u, u)), mk("ctl", ".lt", typ("int"), u), mk("array", "", mk("ctl", ".ge", typ("uint"), u), u), mk("array", "", mk("ctl", ".size", typ("tstr"), mk("group", "", u)), typ("int")),
			mk("array", "", mk("ctl", ".size", typ("bstr"), u), u), mk("ctl", ".bits", typ("bstr"), u), mk("array", "", mk("ctl", ".regexp", typ("tstr"), u), typ("int")), mk("map", "", mk("opt", "", mk("entry", "=>", num("1"), u)), mk("group", "", u)),
		}
		for j, v := range uses {
			if !thorough && len(n) == 2 && (i+j)%5 != 0 {
				continue
			}
			def := num("3")
			if j == len(uses)-2 {
				def = txt("t")
			}
			f := fileOf(v, "=")
			if j%2 == 0 {
				f.C = append(f.C, rule(n, def))
			} else {
				f.C = append([]*M{rule(n, def)}, f.C...)
			}
			out = append(out, f)
		}
		for _, v := range []*M{mk("map", "", ent(n, typ("int")), mk("opt", "", ent(n, id("x")))), mk("group", "", mk("choice//", "", ent("a", typ("int")), ent(n, num("1"))))} {
			out = append(out, fileOf(v, "="))
		}
		if n[0] == '$' {
			out = append(out, fileOf(mk("array", "", u, ent(n, u), mk("opt", "", u)), "="), fileOf(mk("choice/", "", typ("int"), u), "/="))
		}
	}
	return out
}

// twins: every phrase twice and more often side by side, in lists, as values, in choices and one level apart.
func twins(thorough bool) []*M {
	ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
	ps := append(append([]*M{}, allLeaves()...), allAtoms()...)
	for _, n := range []int{4, 5, 6, 8, 16, 33, 64, 129, 300} {
		ps = append(ps, txt(strings.Repeat("q", n)), id(strings.Repeat("n", n)), id("$$"+strings.Repeat("n", n)), txt(strings.Repeat("\u00e9 ", n)))
	}
	ps = append(ps, num("0"), num("1"), num("9223372036854775807"), hexn("0x7fffffffffffffff", "9223372036854775807"), flt("0.0", "0"), flt("123456.789", "123456.789"), txt(" "), txt("x"), txt("int"), id("k"), id("n"), id("undefined-name"), mk("group", ""), mk("array", ""), mk("map", ""))
	leaves := len(ps)
	for i, w := range chainWraps() {
		for j, l := range []*M{id("x"), num("7"), txt("long text"), typ("int")} {
			if thorough || (i+j)%2 == 0 {
				ps = append(ps, w.f(l))
			}
		}
	}
	var out []*M
	for i, p := range ps {
		out = append(out, mk("array", "", p, p), mk("array", "", p, p, p), mk("array", "", p, typ("int"), p), mk("array", "", typ("int"), p, p, typ("tstr")), mk("group", "", p, p), mk("map", "", ent("k", p), ent("k", p)), mk("map", "", ent("k", p), ent("l", p)), mk("array", "", ent("k", p), ent("k", p), ent("k", p)),
			mk("map", "", mk("opt", "", ent("k", p)), ent("k", p)), mk("array", "", mk("opt", "", p), mk("opt", "", p)), mk("array", "", mk("occ", "*", p), mk("occ", "*", p)), mk("array", "", mk("occ", "2*5", p), p), mk("array", "", p, mk("array", "", p)), mk("array", "", mk("array", "", p), mk("array", "", p)), mk("array", "", mk("map", "", ent("k", p)), mk("map", "", ent("k", p)), mk("group", "", ent("k", p))),
			mk("array", "", mk("tag", "6.1", p), mk("tag", "6.1", p)), mk("tag", "6.1", mk("array", "", mk("tag", "6.1", p))), mk("map", "", ent("k", mk("array", "", p, p)), ent("k", mk("array", "", p, p))), mk("group", "", p, p, mk("group", "", p, p)), mk("array", "", mk("opt", "", mk("group", "", p, p)), mk("group", "", p, p)))
		if p.K != "choice/" {
			out = append(out, mk("choice/", "", p, p), mk("choice/", "", p, p, p), mk("choice/", "", typ("int"), p, p), mk("choice/", "", p, p, typ("int"), p), mk("array", "", mk("choice/", "", p, p), mk("choice/", "", p, p)), mk("group", "", mk("choice//", "", mk("choice/", "", p, p), mk("choice/", "", p, p))))
		}
		out = append(out, mk("group", "", mk("choice//", "", p, p)), mk("array", "", mk("choice//", "", p, p, p)), mk("map", "", mk("choice//", "", ent("k", p), ent("k", p))))
		if i < leaves && (p.K == "id" || p.K == "int") {
			out = append(out, mk("map", "", mk("entry", "=>", p, p)), mk("map", "", mk("entry", "=>", p, p), mk("entry", "=>", p, p)), mk("map", "", mk("occ", "*", mk("entry", "=>", p, p)), mk("opt", "", mk("entry", "=>", p, p))))
		}
	}
	return out
}

// fileDef is fileOf with a definition for every long name in the value.
func fileDef(v *M) *M {
	f := fileOf(v, "=")
	done := map[string]bool{}
	var walk func(m *M)
	walk = func(m *M) {
		if m.K == "id" && len(m.V) >= 4 && m.V[0] != '$' && !done[m.V] {
			done[m.V] = true
			f.C = append(f.C, mk("rule", "=", id(m.V), typ("uint")))
		}
		for _, c := range m.C {
			walk(c)
		}
	}
	walk(v)
	return f
}
