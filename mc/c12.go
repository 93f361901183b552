package main

// C12: literal values, every context times every spelling of a value grid. The expected tree is the
// model's tree of the context with the value, computed with big integers and exact rationals.

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

// opC12: source, NUL, "must" or "may" (a value no 64-bit type holds may or must be reported), NUL, expected tree.
func opC12(in []byte) (bool, *Fail) {
	f := bytes.SplitN(in, []byte{0}, 3)
	if len(f) != 3 {
		return false, nil
	}
	src, mode, want := f[0], string(f[1]), string(f[2])
	tree, errs := parse(src)
	if len(errs) > 0 {
		if mode == "must" {
			return true, failf("representable literal rejected: %s\n%s", src, errString(errs))
		}
		return true, nil
	}
	if mode == "reject" {
		return true, failf("a literal that cannot be represented is accepted: %s\ngot %s", src, flatten(canon(tree)))
	}
	if got := flatten(canon(tree)).String(); got != want {
		return true, failf("schema: %s\nwant %s\ngot  %s", src, want, got)
	}
	return true, nil
}

const phInt, phFlt, phTxt = "424242", "4242.5", "@@@"

func c12IntCtxs() []*M {
	v := func() *M { return num(phInt) }
	ent := func(k string, m *M) *M { return mk("entry", ":", id(k), m) }
	return []*M{
		v(), mk("array", "", v()), mk("group", "", v()), mk("map", "", v()), mk("array", "", typ("int"), v(), typ("int")),
		mk("map", "", ent("a", v())), mk("group", "", ent("a", v()), ent("b", typ("int"))), mk("map", "", mk("entry", "=>", id("k"), v())),
		mk("map", "", mk("entry", ":", v(), typ("int"))), mk("map", "", mk("entry", "=>", v(), typ("int"))), mk("array", "", mk("opt", "", mk("entry", ":", v(), typ("int")))),
		mk("map", "", mk("occ", "*", mk("entry", "=>", v(), typ("int")))),
		mk("array", "", mk("opt", "", v())), mk("array", "", mk("occ", "2*3", v())), mk("array", "", mk("occ", "+", v())),
		mk("choice/", "", v(), typ("int")), mk("choice/", "", typ("int"), v()), mk("choice//", "", typ("int"), v()), mk("choice//", "", v(), typ("tstr")),
		mk("range", "..", v(), num("9223372036854775807")), mk("range", "..", num("0"), v()), mk("range", "...", id("n"), v()), mk("range", "...", v(), id("n")),
		mk("ctl", ".size", typ("tstr"), v()), mk("ctl", ".size", typ("bytes"), mk("group", "", mk("range", "..", num("0"), v()))), mk("ctl", ".size", typ("uint"), mk("group", "", v())),
		mk("ctl", ".lt", typ("int"), v()), mk("ctl", ".ge", typ("uint"), v()), mk("ctl", ".eq", typ("float"), v()), mk("ctl", ".ne", typ("int"), v()), mk("ctl", ".le", typ("int"), v()), mk("ctl", ".gt", typ("int"), v()),
		mk("tag", "6.1", v()), mk("enum", "", mk("group", "", ent("a", v()), ent("b", num("1")))), mk("tag", phInt), mk("tag", phInt, typ("int")),
		mk("array", "", mk("occ", phInt+"*", typ("int"))), mk("array", "", mk("occ", phInt+"*9", typ("int"))), mk("array", "", mk("occ", "*"+phInt, typ("int"))), mk("array", "", mk("occ", "0*"+phInt, ent("a", typ("int")))), mk("array", "", mk("occ", phInt+"*"+phInt, typ("int"))),
		mk("ctl", ".bits", typ("uint"), v()), mk("array", "", ent("a", mk("array", "", ent("b", mk("choice/", "", typ("null"), v()))))),
	}
}

func tagNumCtxs() []*M {
	return []*M{mk("tag", "6."+phInt), mk("tag", "6."+phInt, typ("tstr")), mk("array", "", mk("tag", "6."+phInt, typ("tstr")), typ("int")), mk("choice/", "", mk("tag", "0."+phInt), mk("tag", "7."+phInt)), mk("tag", "6."+phInt, mk("tag", "6.1", typ("int")))}
}

func c12FltCtxs() []*M {
	v := func() *M { return flt(phFlt, phFlt) }
	return []*M{
		v(), mk("array", "", v()), mk("group", "", typ("int"), v(), typ("int")), mk("map", "", mk("entry", ":", id("a"), v())), mk("map", "", mk("entry", "=>", id("k"), v())), mk("array", "", mk("opt", "", v())), mk("array", "", mk("occ", "2*3", v())),
		mk("choice/", "", v(), typ("int")), mk("choice/", "", typ("int"), v()), mk("range", "..", v(), flt("9.5", "9.5")), mk("range", "...", flt("0.5", "0.5"), v()), mk("range", "..", v(), id("fp")),
		mk("ctl", ".lt", typ("float"), v()), mk("ctl", ".ge", typ("float"), v()), mk("ctl", ".eq", typ("float"), v()), mk("ctl", ".ne", typ("int"), v()), mk("tag", "6.1", v()), mk("enum", "", mk("group", "", mk("entry", ":", id("a"), v()))),
	}
}

func c12TxtCtxs() []*M {
	v := func() *M { return txt(phTxt) }
	return []*M{
		v(), mk("array", "", v()), mk("group", "", typ("int"), v(), typ("int")), mk("map", "", mk("entry", ":", id("a"), v())), mk("array", "", mk("opt", "", v())), mk("array", "", mk("occ", "2*3", v())),
		mk("choice/", "", v(), typ("int")), mk("choice/", "", typ("int"), v()), mk("choice//", "", typ("int"), v()), mk("ctl", ".regexp", typ("tstr"), v()), mk("tag", "6.1", v()), mk("enum", "", mk("group", "", mk("entry", ":", id("a"), v()))),
	}
}

type litVal struct{ spell, value, mode string }

func intSpellings(v *big.Int, full bool) []litVal {
	mode := "must"
	if v.BitLen() > 64 {
		mode = "reject"
	} else if v.BitLen() > 63 {
		mode = "may"
	}
	d := v.String()
	h := v.Text(16)
	l := []litVal{{d, d, mode}, {"0x" + h, d, mode}}
	if up := strings.ToUpper(h); up != h {
		l = append(l, litVal{"0x" + up, d, mode})
	}
	if full {
		l = append(l, litVal{"0b" + v.Text(2), d, mode}, litVal{"0o" + v.Text(8), d, mode}, litVal{"0x00" + h, d, mode}, litVal{"0b0" + v.Text(2), d, mode}, litVal{"0o0" + v.Text(8), d, mode})
	}
	return l
}

// intGrid: small numbers and the neighbourhood of every power of two and ten.
func intGrid(small int64) []*big.Int {
	var l []*big.Int
	seen := map[string]bool{}
	add := func(v *big.Int) {
		if v.Sign() >= 0 && !seen[v.String()] {
			seen[v.String()] = true
			l = append(l, v)
		}
	}
	for i := int64(0); i <= small; i++ {
		add(big.NewInt(i))
	}
	for _, base := range []int64{2, 10} {
		n := 130
		if base == 10 {
			n = 40
		}
		p := big.NewInt(1)
		for i := 0; i < n; i++ {
			for d := int64(-2); d <= 2; d++ {
				add(new(big.Int).Add(p, big.NewInt(d)))
			}
			p = new(big.Int).Mul(p, big.NewInt(base))
		}
	}
	return l
}

func fltSpell(s string) litVal {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(s)
	}
	f, _ := r.Float64()
	mode := "must"
	max := new(big.Rat).SetFloat64(1.7976931348623157e308)
	half := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 970))
	if r.Cmp(new(big.Rat).Add(max, half)) >= 0 {
		mode = "reject"
	}
	return litVal{s, strconv.FormatFloat(f, 'g', -1, 64), mode}
}

func init() {
	name := reg("C12.literal", opC12)
	addCheck("C12", "exploration", "every literal spelling of the stated grid in every stated context, compared with the exact value computed by big-integer and rational arithmetic; non-trivial: parsed and judged", func(c *Ctx) {
		type tmpl struct{ src, tree string }
		mkT := func(ms []*M) (l []tmpl) {
			for _, m := range ms {
				p := printFile(fileOf(m, "="), 0)
				l = append(l, tmpl{p.src(), p.tree.String()})
			}
			return
		}
		phase := func(what string, ts []tmpl, ph string, vals []litVal) {
			n := int64(len(ts))
			c.Enum(fmt.Sprintf("%s: %d spellings in %d contexts", what, len(vals), len(ts)), name, n*int64(len(vals)), func(i int64, b []byte) []byte {
				t, v := ts[i%n], vals[i/n]
				src := strings.ReplaceAll(t.src, ph, v.spell)
				b = append(b, src...)
				b = append(b, 0)
				b = append(b, v.mode...)
				b = append(b, 0)
				q := strconv.Quote(v.value)
				return append(b, strings.ReplaceAll(t.tree, ph, q[1:len(q)-1])...)
			})
		}
		ints := mkT(c12IntCtxs())
		var all, dec []litVal
		for _, v := range intGrid(int64(c.tier(300, 3000))) {
			s := intSpellings(v, true)
			all = append(all, s...)
			dec = append(dec, s[0])
		}
		phase("integers", ints, phInt, all)
		phase("tag numbers", mkT(tagNumCtxs()), phInt, dec)
		var dense []litVal
		for i := int64(0); i < int64(c.tier(70000, 1100000)); i++ {
			dense = append(dense, intSpellings(big.NewInt(i), true)...)
		}
		phase("every small integer", ints[:1], phInt, dense)
		// floats
		var fl []litVal
		digs := func(n int) (l []string) {
			for k, lim := 1, 10; k <= n; k, lim = k+1, lim*10 {
				for i := 0; i < lim; i++ {
					l = append(l, fmt.Sprintf("%0*d", k, i))
				}
			}
			return
		}
		for _, a := range append(digs(1), "10", "99", "123", "1000", "4503599627370496", "9007199254740993", "9007199254740992", "9007199254740991", "18446744073709551616", "123456789012345678901234567890") {
			for _, b := range digs(c.tier(2, 3)) {
				fl = append(fl, fltSpell(a+"."+b))
			}
		}
		for _, s := range []string{"0.1", "0.3", "3.141592653589793", "2.718281828459045235360287", "1.7976931348623157", "0.000000000000000000000000000001", "1.00000000000000011102230246251565404236316680908203125", "1.000000000000000111022302462515654042363166809082031250001", "1.00000000000000011102230246251565404236316680908203124"} {
			fl = append(fl, fltSpell(s))
		}
		for _, k := range []int{20, 100, 306, 307, 308, 309, 310, 322, 323, 324, 325, 400} {
			for _, d := range []string{"1", "2", "4", "5", "9", "17976931348623157", "17976931348623158", "17976931348623159"} {
				fl = append(fl, fltSpell(d+strings.Repeat("0", k)+".0"), fltSpell("0."+strings.Repeat("0", k)+d), fltSpell(strings.Repeat("9", k)+"."+d))
			}
		}
		flt := mkT(c12FltCtxs())
		phase("floats", flt, phFlt, fl)
		var fd []litVal
		for _, a := range digs(3) {
			if len(a) > 1 && a[0] == '0' {
				continue
			}
			for _, b := range digs(c.tier(2, 3)) {
				fd = append(fd, fltSpell(a+"."+b))
			}
		}
		phase("every short float", flt[:1], phFlt, fd)
		// texts
		syms := []string{"a", " ", "\t", "\\", ";", "/", "'", "é", "(", "0", "\r", "=", "\u2028", "😀", "%", "#", "n", "\x7f", "\x01"}
		var tx []litVal
		for k := 0; k <= c.tier(2, 3); k++ {
			n := 1
			for i := 0; i < k; i++ {
				n *= len(syms)
			}
			for i := 0; i < n; i++ {
				s, x := "", i
				for j := 0; j < k; j++ {
					s += syms[x%len(syms)]
					x /= len(syms)
				}
				tx = append(tx, litVal{s, s, "must"})
			}
		}
		for r := rune(1); r < 0x2100; r++ {
			if r != '"' && r != '\n' && utf8.ValidRune(r) {
				tx = append(tx, litVal{string(r), string(r), "must"})
			}
		}
		for _, s := range []string{strings.Repeat("x", 5000), "true", "int", "1..2", "a = int"} {
			tx = append(tx, litVal{s, s, "must"})
		}
		phase("texts", mkT(c12TxtCtxs()), phTxt, tx)
		var bo []string
		for _, p := range c12TxtCtxs() {
			for _, v := range []string{"true", "false"} {
				if p.K == "ctl" {
					continue
				}
				m := replaceLeaf(p, boo(v))
				pr := printFile(fileOf(m, "="), 0)
				bo = append(bo, pr.src()+"\x00must\x00"+pr.tree.String())
			}
		}
		c.List("booleans in every context", name, bo)
		// both parts of a tag and both bounds of an occurrence together
		var both []string
		small := []string{"0", "1", "2", "6", "7", "9", "10", "32", "100", "255", "256", "65535", "4294967295", "4294967296", "9223372036854775807"}
		for _, a := range small {
			for _, b := range small {
				for _, m := range []*M{mk("tag", a+"."+b, typ("int")), mk("tag", a+"."+b), mk("array", "", mk("occ", a+"*"+b, typ("int"))), mk("range", "..", num(a), num(b)), mk("map", "", mk("entry", ":", num(a), num(b)))} {
					pr := printFile(fileOf(m, "="), 0)
					both = append(both, pr.src()+"\x00must\x00"+pr.tree.String())
				}
			}
		}
		c.List("pairs of numbers: tag parts, occurrence bounds, range bounds, key and value", name, both)
	})
}

func replaceLeaf(m, v *M) *M {
	if m.K == "text" {
		return v
	}
	n := *m
	n.C = nil
	for _, c := range m.C {
		n.C = append(n.C, replaceLeaf(c, v))
	}
	return &n
}
