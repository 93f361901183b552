package main

// C01-C05: the scanner.

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// scanAll scans to end-of-file; nil, false when the token bound of C01 is exceeded.
func scanAll(src []byte) ([]itok, bool) {
	l := lexer.NewLexer(src)
	out := make([]itok, 0, 16)
	for i := 0; i <= len(src); i++ {
		t, p, s := l.Scan()
		out = append(out, itok{t, p, s})
		if t == token.EOF {
			return out, true
		}
	}
	return out, false
}

func showToks(ts []itok) string {
	var b strings.Builder
	for _, t := range ts {
		fmt.Fprintf(&b, "%v@%d(%d:%d) %q  ", t.tok, t.pos.Offset, t.pos.Line, t.pos.Column, t.lit)
	}
	return b.String()
}

func opC01(in []byte) (bool, *Fail) {
	l := lexer.NewLexer(in)
	n := 0
	for {
		t, p, lit := l.Scan()
		if t == token.EOF {
			for k := 0; k < 3; k++ {
				t2, p2, lit2 := l.Scan()
				if t2 != token.EOF || p2 != p || lit2 != lit {
					return true, failf("after end-of-file at %+v a further request returned %v at %+v %q", p, t2, p2, lit2)
				}
			}
			return n > 0, nil
		}
		n++
		if n > len(in) {
			return true, failf("no end-of-file after %d tokens of %d bytes", n, len(in))
		}
	}
}

// opC02 needs no reference scanner: it lays the reported tokens over the source.
func opC02(in []byte) (bool, *Fail) {
	ts, ok := scanAll(in)
	if !ok {
		return true, failf("no end-of-file within %d tokens", len(in)+1)
	}
	at := 0
	for k, t := range ts {
		off := t.pos.Offset
		if off < at || off > len(in) {
			return true, failf("token %d (%v %q) at offset %d overlaps the previous one ending at %d or lies outside: %s", k, t.tok, t.lit, off, at, showToks(ts))
		}
		for _, b := range in[at:off] {
			if !isWS(b) {
				return true, failf("source byte %q before token %d at offset %d belongs to no token: %s", b, k, off, showToks(ts))
			}
		}
		rest := in[off:]
		switch {
		case t.tok == token.EOF:
			if len(rest) != 0 || t.lit != "" {
				return true, failf("end-of-file at %d of %d with literal %q", off, len(in), t.lit)
			}
			at = off
			continue
		case t.tok == token.TEXT_LITERAL:
			body := `"` + t.lit
			if strings.ContainsAny(t.lit, "\"\n") || !bytes.HasPrefix(rest, []byte(body)) {
				return true, failf("text literal %q at %d is not the source text %q", t.lit, off, rest)
			}
			at = off + len(body)
			if at < len(in) && in[at] == '"' {
				at++
			} else if at < len(in) && in[at] != '\n' {
				return true, failf("text literal %q at %d stops before its closing quote or line end", t.lit, off)
			}
		case t.tok == token.COMMENT:
			body := ";" + t.lit
			if !bytes.HasPrefix(rest, []byte(body)) {
				return true, failf("comment %q at %d is not the source text %q", t.lit, off, rest)
			}
			at = off + len(body)
			if at < len(in) && in[at] != '\n' {
				return true, failf("comment %q at %d stops before the line end", t.lit, off)
			}
		default:
			if t.lit == "" {
				return true, failf("token %v at %d has an empty literal", t.tok, off)
			}
			if bytes.HasPrefix(rest, []byte(t.lit)) {
				at = off + len(t.lit)
				break
			}
			r, w := utf8.DecodeRune(rest)
			if t.tok == token.ILLEGAL && t.lit == "�" && r == utf8.RuneError && w == 1 {
				at = off + 1
				break
			}
			return true, failf("literal %q of %v at %d is not the source text %q", t.lit, t.tok, off, rest)
		}
	}
	if at != len(in) {
		for _, b := range in[at:] {
			if !isWS(b) {
				return true, failf("bytes from %d on belong to no token", at)
			}
		}
	}
	return len(ts) > 1, nil
}

func kindOK(t itok, r rtok) bool {
	if r.kinds == nil {
		return true
	}
	for _, k := range r.kinds {
		if k == t.tok {
			return true
		}
	}
	return false
}

func opC03(in []byte) (bool, *Fail) {
	ts, ok := scanAll(in)
	if !ok {
		return true, failf("no end-of-file within %d tokens", len(in)+1)
	}
	rs := refLex(in)
	for i, r := range rs {
		if i >= len(ts) || !kindOK(ts[i], r) || ts[i].lit != r.lit {
			return true, failf("token %d: want %v %q at %d, got %s", i, r.kinds, r.lit, r.off, showToks(ts))
		}
	}
	if len(ts) != len(rs) {
		return true, failf("want %d tokens, got %s", len(rs), showToks(ts))
	}
	return len(ts) > 1, nil
}

// opC04 judges positions against the source only: offset is where the token's own text stands
// (found by laying tokens out in order), line and column follow from the offset.
func opC04(in []byte) (bool, *Fail) {
	ts, ok := scanAll(in)
	if !ok {
		return true, failf("no end-of-file within %d tokens", len(in)+1)
	}
	rs := refLex(in)
	prev := -1
	at, line, nl := 0, 1, -1 // line and last line end of in[:at]
	for i, t := range ts {
		p := t.pos
		if p.Offset <= prev || p.Offset > len(in) {
			return true, failf("offset of token %d does not increase or is outside: %s", i, showToks(ts))
		}
		prev = p.Offset
		for ; at < p.Offset; at++ {
			if in[at] == '\n' {
				line, nl = line+1, at
			}
		}
		col := p.Offset - nl
		if p.Line != line || p.Column != col {
			return true, failf("token %d %v %q at offset %d: want %d:%d, got %d:%d", i, t.tok, t.lit, p.Offset, line, col, p.Line, p.Column)
		}
		if i < len(rs) && len(ts) == len(rs) && p.Offset != rs[i].off {
			return true, failf("token %d %v %q starts at %d, reported %d", i, t.tok, t.lit, rs[i].off, p.Offset)
		}
	}
	return len(ts) > 1, nil
}

// single bytes and characters, at least one per branch of the lexical rules
var lexSyms = []string{"a", "x", "b", "o", "E", "0", "1", "9", ".", "-", "_", "$", "@", "\"", ";", ":", "(", ")", "{", "}", "[", "]", "+", "*", "<", ">", "#", "~", "=", ",", "&", "/", "?", "\\", "'", "!", "%", " ", "\t", "\r", "\n", "é", "€", "😀", "\xff", "\x80", "\xc3", "\xe2\x82", "\uFFFD", "\uFEFF", "\x00", "\x7f", "\u00a0", "\u0663", "\v", "\f", "\u2028"}

// reduced alphabet for deeper words: one symbol per behaviourally distinct class
var lexCore = []string{"a", "x", "0", "1", ".", "-", "\"", ";", "=", ">", "/", "(", " ", "\n", "\r", "é", "\xff", "$"}
var lexTiny = []string{"a", "0", ".", "\"", ";", "/", "=", "\n", " ", "\xff"}

func lexemes() []string {
	l := []string{}
	for k := range refKeywords {
		l = append(l, k)
	}
	for k := range refControls {
		l = append(l, k)
	}
	for _, p := range refPunct {
		l = append(l, p.s)
	}
	sortStrings(l)
	l = append(l, "a", "ab", "abc", "a-b", "a.b", "$s", "$$g", "@x", "_u", "int8", "integer", "tru", "trueish", "float1", "float128", "nul", "INT", "Text",
		"text_literal", "IDENT", "ILLEGAL", "EOF", "COMMENT", "in", "in-t", "true.", "any-", "0", "7", "10", "007", "0x1F", "0xff", "0b101", "0o17", "0X1F", "08", "1.5", "0.0", "10.25", "00.10",
		`"t"`, `""`, `"a b"`, `"é"`, `"\"`, `";"`, ";c\n", ";\n", "; \"x\" \r\n", ".foo", ".siz", ".sizes", ".SIZE", ".andd", "\"u", "\xff", "é", "�", "\\", "'", "!", ".")
	return l
}

var lexJoin = []string{"", " ", "\n", "\r\n", "\t", "  ", "\n\n\t", ";c\n", " ; c \n"}

func exploreLex(c *Ctx, op string) {
	// every single byte and byte pair
	c.Enum("all 1-byte sources", op, 256, func(i int64, b []byte) []byte { return append(b, byte(i)) })
	c.Enum("all 2-byte sources", op, 65536, func(i int64, b []byte) []byte { return append(b, byte(i), byte(i>>8)) })
	if c.Thorough {
		c.Enum("all 3-byte sources", op, 1<<24, func(i int64, b []byte) []byte { return append(b, byte(i), byte(i>>8), byte(i>>16)) })
	}
	c.List("empty source", op, []string{""})
	for k := 1; k <= 4; k++ {
		c.Words(fmt.Sprintf("all words of %d symbols (%d-symbol alphabet)", k, len(lexSyms)), op, lexSyms, k, "", "", "")
	}
	for k := 4; k <= c.tier(5, 6); k++ {
		c.Words(fmt.Sprintf("all words of %d symbols (%d-symbol core alphabet)", k, len(lexCore)), op, lexCore, k, "", "", "")
	}
	for k := 6; k <= c.tier(6, 8); k++ {
		c.Words(fmt.Sprintf("all words of %d symbols (%d-symbol tiny alphabet)", k, len(lexTiny)), op, lexTiny, k, "", "", "")
	}
	// every character, in every kind of place
	uc := [][2]string{{"", ""}, {"a", " b"}, {"1", ""}, {"", "1"}, {"1.", "\n"}, {"0x", "f"}, {"", "a"}, {"\"", "\" x"}, {";", "\nx"}, {"$", "="}, {"a-", "-a"}, {"/", ">"}, {".s", "e"}, {"0", ".0"}}
	un0 := int64(len(uc))
	c.Enum(fmt.Sprintf("every Unicode code point (surrogates in their three-byte form), %d places", un0), op, un0*0x110000, func(i int64, b []byte) []byte {
		r, x := rune(i/un0), uc[i%un0]
		b = append(b, x[0]...)
		if 0xd800 <= r && r < 0xe000 {
			b = append(b, 0xe0|byte(r>>12), 0x80|byte(r>>6)&0x3f, 0x80|byte(r)&0x3f)
		} else {
			b = utf8.AppendRune(b, r)
		}
		return append(b, x[1]...)
	})
	// lexemes in context
	lx := lexemes()
	n := int64(len(lx))
	for _, j := range lexJoin {
		j := j
		c.Enum(fmt.Sprintf("all lexeme pairs joined by %q", j), op, n*n, func(i int64, b []byte) []byte {
			b = append(b, lx[i%n]...)
			b = append(b, j...)
			return append(b, lx[i/n]...)
		})
	}
	for _, j := range []string{"", " "}[:c.tier(1, 2)] {
		j := j
		c.Enum(fmt.Sprintf("all lexeme triples joined by %q", j), op, n*n*n, func(i int64, b []byte) []byte {
			b = append(b, lx[i%n]...)
			b = append(b, j...)
			i /= n
			b = append(b, lx[i%n]...)
			b = append(b, j...)
			return append(b, lx[i/n]...)
		})
	}
	// a lexeme after every joiner sequence of length 2 (line accounting)
	wsSeq := []string{" ", "\t", "\r", "\n", ";c\n", "é", "\"é\"", "\xff", ";\xff\n", "a"}
	m := int64(len(wsSeq))
	for k := 1; k <= c.tier(5, 6); k++ {
		k := k
		tot := int64(1)
		for q := 0; q < k; q++ {
			tot *= m
		}
		c.Enum(fmt.Sprintf("all layouts of %d pieces before a token", k), op, tot, func(i int64, b []byte) []byte {
			for q := 0; q < k; q++ {
				b = append(b, wsSeq[i%m]...)
				i /= m
			}
			return append(b, "zz"...)
		})
	}
	// pumped sources: every symbol, lexeme and core pair repeated, also with a one-byte tail
	reps := []int{7, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097}
	if c.Thorough {
		reps = append(reps, 8191, 16384, 65535, 65536, 65537)
	}
	units := append(append([]string{}, lexSyms...), lx...)
	for _, a := range lexCore {
		for _, b := range lexCore {
			units = append(units, a+b)
		}
	}
	tails := []string{"", "a", "\"", "\n", "\n ab \"t"}
	un, rn, tn := int64(len(units)), int64(len(reps)), int64(len(tails))
	c.Enum("repeated symbols and lexemes up to 4 KiB (64 KiB thorough)", op, un*rn*tn, func(i int64, b []byte) []byte {
		u := units[i%un]
		i /= un
		r := reps[i%rn]
		for len(b) < r {
			b = append(b, u...)
		}
		return append(b, tails[i/rn]...)
	})
	c.List("sources around size thresholds: number of lines, tokens, blanks and characters, line length, token length", op, thresholds(c))
	// tokens of every length
	type form struct{ pre, unit, post string }
	fs := []form{{"", "a", ""}, {"", "ab-", "c"}, {"x", ".y", ""}, {"$", "a", ""}, {"$$", "g", ""}, {"", "é", ""}, {"a", "1", ""}, {"", "9", ""}, {"0", "7", ""}, {"0x", "f", ""}, {"0x", "0", "1"}, {"0b", "10", ""}, {"0o", "7", ""}, {"1.", "5", ""}, {"", "3", ".25"}, {"0.", "0", "1"},
		{"\"", "x", "\""}, {"\"", "é", "\""}, {"\"", "\\", "\""}, {"\"", " ", "\""}, {"\"", "x", "\n"}, {"\"", ";", "\" "}, {";", "c", "\n"}, {";", ";", "\r\n"}, {";", "\"", "\n"}, {";", "é", "\n"}, {".", "z", ""}, {".size", "s", ""}, {"int", "t", ""}, {"", "\xff", ""}, {"", " ", ""}, {"", "\t", ""}, {"", "\n", ""}, {"", "\r\n", ""}, {"", ".", ""}, {"", "/", ""}, {"", "=", ">"}, {"", "-", "1"}, {"\"", "\xff", "\""}, {";", "\xff", "\n"}}
	ctx := []form{{"", "", ""}, {"", "", " b"}, {"a = ", "", "\nc \"d\""}, {"\n  ", "", ",1"}, {"int;c\n\"", "", ""}}
	fn, cn, ln := int64(len(fs)), int64(len(ctx)), int64(c.tier(320, 4200))
	c.Enum(fmt.Sprintf("%d forms of tokens of every length up to %d units, %d contexts", fn, ln, cn), op, fn*cn*ln, func(i int64, b []byte) []byte {
		f, x := fs[i%fn], ctx[i/fn%cn]
		b = append(append(b, x.pre...), f.pre...)
		for n := i / fn / cn; n >= 0; n-- {
			b = append(b, f.unit...)
		}
		return append(append(b, f.post...), x.post...)
	})
	// long single tokens
	c.List("long single tokens", op, longTokens(c.tier(5000, 70000)))
}

// thresholds builds sources whose counts stand at and around the sizes where counters and
// buffers of an implementation end.
func thresholds(c *Ctx) []string {
	var l []string
	ns := []int{127, 128, 129, 255, 256, 257, 999, 1000, 1001, 9999, 10000, 10001, 32767, 32768, 32769, 65534, 65535, 65536, 65537}
	if c.Thorough {
		ns = append(ns, 99999, 100000, 100001, 131071, 131072, 131073, 262143, 262144, 262145, 1<<20-1, 1<<20, 1<<20+1)
	}
	units := []string{"\n", "\r\n", " ", "\t", "a", "a ", "a\n", ";\n", "; c \n", "1", "\"\"", "(", "//", "é", "\"x\"\n", "a = 1\n", "$"}
	for _, n := range ns {
		for _, u := range units {
			if len(u) > 1 && n > 40000 && !c.Thorough && u != "a\n" && u != ";\n" && u != "é" {
				continue
			}
			l = append(l, strings.Repeat(u, n)+"\n ab \"t\" 0x1 ;z\nq", strings.Repeat(u, n)+" ab 1.5 \"é\" /= ;z")
		}
		l = append(l, `"`+strings.Repeat("x", n)+"\" b ;c\nd", `"`+strings.Repeat("é", n/2)+"\" b ;c\nd", ";"+strings.Repeat("c", n)+"\nb \"d\"", "x = \""+strings.Repeat("x", n))
	}
	return l
}

func longTokens(n int) []string {
	var l []string
	for k := 1; k <= n; k = k*2 + k%3 {
		l = append(l, strings.Repeat("a", k), strings.Repeat("9", k), `"`+strings.Repeat("x", k)+`"`, `"`+strings.Repeat("x", k), ";"+strings.Repeat("c", k), "0x"+strings.Repeat("f", k), "1."+strings.Repeat("0", k), "."+strings.Repeat("z", k), strings.Repeat(" ", k)+"a", strings.Repeat("\n", k)+"a", strings.Repeat("a-", k)+"a")
	}
	return l
}

func init() {
	rule := "inputs are enumerated completely within the phases listed (alphabet words, lexeme pairs and triples under each joiner, layouts, repetitions); a case is non-trivial when the source yields at least one token besides end-of-file"
	ends := reg("C01.ends", func(in []byte) (bool, *Fail) {
		l := lexer.NewLexer(in)
		t, at, lit := l.Scan()
		n := 0
		for ; t != token.EOF; n++ {
			if n > len(in) {
				return true, failf("no end-of-file after %d tokens of %d bytes", n, len(in))
			}
			t, at, lit = l.Scan()
		}
		errs := len(l.Errors)
		for k := 1; k <= 70000; k++ {
			if t, p, s := l.Scan(); t != token.EOF || p != at || s != lit {
				return true, failf("request %d after end-of-file at %+v returned %v at %+v %q", k, at, t, p, s)
			}
		}
		if len(l.Errors) != errs {
			return true, failf("requests after end-of-file reported %d further errors", len(l.Errors)-errs)
		}
		return n > 0, nil
	})
	for id, op := range map[string]Op{"C01": opC01, "C02": opC02, "C03": opC03, "C04": opC04} {
		name := reg(id+".scan", op)
		id := id
		addCheck(id, "exploration", rule, func(c *Ctx) {
			exploreLex(c, name)
			if id == "C01" || id == "C04" {
				c.List("end-of-file requested up to 70,000 times", ends, append([]string{"", "a", "\n", "a = 1\n", "\"u", ";c", "x\xff", "\r\n\t ", "1..", "a\n\nb ", "é", "\xe2\x82"}, goodSchemas()...))
			}
		})
	}
	initC05()
}

var _ = parser.NewParser
