package main

// C32: the kinds of tokens, their spellings and classes, over every kind number and every short spelling.
// C33: the texts of positions, ranges, diagnostics and nodes.

import (
	"fmt"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// spelled: every kind that stands for one fixed text.
func spelled() map[token.Token]string {
	m := map[token.Token]string{token.PERIOD: "."}
	for s, t := range refKeywords {
		m[t] = s
	}
	for s, t := range refControls {
		m[t] = s
	}
	for _, p := range refPunct {
		m[p.t] = p.s
	}
	return m
}

// others: the kinds that stand for many texts or for none.
var otherKinds = []token.Token{token.ILLEGAL, token.EOF, token.COMMENT, token.IDENT, token.TEXT_LITERAL, token.UNEXPECTED, token.EOL}

var numKinds = map[token.Token]bool{token.INT: true, token.UINT: true, token.NINT: true, token.FLOAT: true, token.FLOAT16: true, token.FLOAT32: true, token.FLOAT64: true}

// strength: the binding order the grammar needs, weakest first.
var strength = [][]token.Token{
	{token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN},
	{token.GROUP_CHOICE},
	{token.COMMA},
	{token.ZERO_OR_MORE, token.ONE_OR_MORE, token.OPTIONAL},
	{token.ARROW_MAP, token.COLON},
	{token.TYPE_CHOICE},
	{token.INCLUSIVE_BOUND, token.EXCLUSIVE_BOUND, token.SIZE, token.BITS, token.REGEXP, token.LT, token.LE, token.GT, token.GE, token.EQ, token.NE, token.CBOR, token.CBORSEQ, token.WITHIN, token.AND, token.DEFAULT, token.PLUS, token.CAT, token.DET, token.ABNF, token.ABNFB, token.FEATURE},
	{token.AMPERSAND, token.UNWRAP},
}

// opC32kind: a kind number in decimal.
func opC32kind(in []byte) (bool, *Fail) {
	i, err := strconv.Atoi(string(in))
	if err != nil {
		return false, nil
	}
	t := token.Token(i)
	sp := spelled()
	known := map[token.Token]bool{}
	for k := range sp {
		known[k] = true
	}
	for _, k := range otherKinds {
		known[k] = true
	}
	str := t.String()
	if str == "" {
		return true, failf("kind %d has no name", i)
	}
	if w, ok := sp[t]; ok && str != w {
		return true, failf("kind %d is named %q, its spelling is %q", i, str, w)
	}
	if known[t] {
		for k := range known {
			if k != t && k.String() == str {
				return true, failf("kinds %d and %d are both named %q", i, int(k), str)
			}
		}
	}
	_, isCtl := refControls[str]
	if got, want := t.IsControlOp(), known[t] && isCtl; got != want {
		return true, failf("IsControlOp of %s (%d) is %v", str, i, got)
	}
	if got, want := t.IsNumeric(), numKinds[t]; got != want {
		return true, failf("IsNumeric of %s (%d) is %v", str, i, got)
	}
	words := []string{"", "0", "1", "-1", "1.5", "0x1F", "x", str, str + "x", "int", "uint", "nint", "float", "float16", "float32", "float64", "text_literal", "tstr", "text", "INT", "Int", " int", "int ", "tex"}
	for _, w := range words {
		want := false
		switch {
		case numKinds[t]:
			want = w != sp[t]
		case t == token.TEXT_LITERAL:
			want = true
		}
		if got := t.IsLiteral(w); got != want {
			return true, failf("IsLiteral(%q) of %s (%d) is %v", w, str, i, got)
		}
	}
	// binding strength against every kind of the order
	lvl := func(x token.Token) int {
		for l, ks := range strength {
			for _, k := range ks {
				if k == x {
					return l + 1
				}
			}
		}
		return 0
	}
	if lvl(t) == 0 && t.Precedence() != token.LOWEST {
		return true, failf("%s (%d) binds with strength %d but is no operator", str, i, t.Precedence())
	}
	for _, ks := range strength {
		for _, k := range ks {
			a, b := lvl(t), lvl(k)
			p, q := t.Precedence(), k.Precedence()
			if (a < b) != (p < q) || (a == b) != (p == q) {
				return true, failf("%s (%d) binds with strength %d, %s with %d", str, i, p, k, q)
			}
		}
	}
	return known[t], nil
}

// opC32word: any text; its kind as the scanner's table of words gives it.
func opC32word(in []byte) (bool, *Fail) {
	want, nt := token.IDENT, false
	if t, ok := refKeywords[string(in)]; ok {
		want, nt = t, true
	}
	if t, ok := refControls[string(in)]; ok {
		want, nt = t, true
	}
	if got := token.Lookup(string(in)); got != want {
		return true, failf("Lookup(%q) is %s (%d), not %s", in, got, int(got), want)
	}
	// the same through the scanner, for texts that are one token
	if rs := refLex(in); len(rs) == 2 && rs[0].off == 0 && rs[0].end == len(in) && len(rs[0].kinds) == 1 && len(in) > 0 {
		tok, _, _ := lexer.NewLexer(in).Scan()
		if sp, ok := spelled()[tok]; ok && !numKinds[tok] && sp != string(in) {
			return true, failf("%q is scanned as %s", in, tok)
		}
		if tok != rs[0].kinds[0] {
			return true, failf("%q is scanned as %s, not %s", in, tok, rs[0].kinds[0])
		}
		if _, ok := spelled()[tok]; ok && !numKinds[tok] {
			if tok.String() != string(in) {
				return true, failf("%q is scanned as a token named %q", in, tok)
			}
			nt = true
		}
	}
	// classes of names
	n := &ast.Identifier{Name: string(in)}
	dollars := 0
	for dollars < len(in) && in[dollars] == '$' {
		dollars++
	}
	if n.IsPlug() != (dollars >= 2) || n.IsSocket() != (dollars == 1) {
		return true, failf("name %q: IsSocket %v, IsPlug %v", in, n.IsSocket(), n.IsPlug())
	}
	return nt || dollars > 0, nil
}

// ---- C33 ----

var posInts = []int{0, 1, 2, 9, 10, 99, 100, 255, 256, 1000, 65535, 65536, 1<<31 - 1, 1 << 31, 1 << 40}
var posFiles = []string{"", "a.cddl", "dir/b c.cddl", "1", "a:b", "é%d"}

func posAt(in []byte) (l []int, ok bool) {
	for _, f := range strings.Split(string(in), ",") {
		n, err := strconv.Atoi(f)
		if err != nil {
			return nil, false
		}
		l = append(l, n)
	}
	return l, true
}

// opC33pos: indices file,offset,line,column,shift: one position, its text, and the position a distance behind it.
func opC33pos(in []byte) (bool, *Fail) {
	l, ok := posAt(in)
	if !ok || len(l) != 5 {
		return false, nil
	}
	p := token.Position{Filename: posFiles[l[0]], Offset: posInts[l[1]], Line: posInts[l[2]], Column: posInts[l[3]]}
	want := strconv.Itoa(p.Line)
	if p.Filename != "" {
		want = p.Filename + ":" + want
	}
	if p.Column > 0 {
		want += ":" + strconv.Itoa(p.Column)
	}
	if got := p.String(); got != want {
		return true, failf("position %#v is printed %q, not %q", p, got, want)
	}
	d := posInts[l[4]]
	w := p
	w.Offset += d
	w.Column += d
	if got := p.To(d); got != w {
		return true, failf("%d behind %#v is %#v", d, p, got)
	}
	return true, nil
}

var spanRe = regexp.MustCompile(`^line (\d+), column (\d+)(?: to line (\d+), column (\d+)| ~ (\d+))$`)

// readSpan reads the text of a range back.
func readSpan(s string) (l [4]int, ok bool) {
	m := spanRe.FindStringSubmatch(s)
	if m == nil {
		return l, false
	}
	at := func(i int) int { n, _ := strconv.Atoi(m[i]); return n }
	l[0], l[1] = at(1), at(2)
	if m[5] != "" {
		l[2], l[3] = l[0], at(5)
	} else {
		l[2], l[3] = at(3), at(4)
	}
	return l, true
}

var diagMsgs = []string{"", "m", "missing type 'x'", "50% of %s %d\n", "é\x00", "a\nb", strings.Repeat("long ", 60)}
var diagPre = []string{"parser", "lexer", "", "p%s"}

func mkDiag(l []int) *parser.Error {
	fs, fe := "", ""
	if (l[2]+l[4])%3 > 0 { // of a named file
		fs = posFiles[1+l[2]%2]
	}
	if (l[3]+l[5])%3 > 0 {
		fe = posFiles[1+l[2]%2]
	}
	return &parser.Error{Prefix: diagPre[l[0]], Msg: diagMsgs[l[1]], Range: token.PositionRange{
		Start: token.Position{Filename: fs, Offset: posInts[l[2]] + 5, Line: posInts[l[2]], Column: posInts[l[3]]},
		End:   token.Position{Filename: fe, Offset: posInts[l[4]] + 7, Line: posInts[l[4]], Column: posInts[l[5]]}}}
}

// opC33diag: indices prefix,message,line,column,line,column: one diagnostic.
func opC33diag(in []byte) (bool, *Fail) {
	l, ok := posAt(in)
	if !ok || len(l) != 6 {
		return false, nil
	}
	e := mkDiag(l)
	if e.Start() != e.Range.Start || e.End() != e.Range.End {
		return true, failf("%#v starts at %v and ends at %v", e, e.Start(), e.End())
	}
	if s := e.Error(); s != e.String() || !strings.Contains(s, e.Msg) || !strings.HasPrefix(s, e.Prefix) {
		return true, failf("%#v has the text %q, as an error %q", e, e.String(), s)
	}
	d := e.Diagnostic()
	i := strings.LastIndex(d, "line ")
	if i >= 0 {
		if j := strings.LastIndex(d[:i], " to "); j >= 0 && j+4 == i {
			i = strings.LastIndex(d[:j], "line ")
		}
	}
	if i < 0 || !strings.HasPrefix(d, e.Error()) {
		return true, failf("%#v is described as %q", e, d)
	}
	got, ok := readSpan(d[i:])
	if want := [4]int{posInts[l[2]], posInts[l[3]], posInts[l[4]], posInts[l[5]]}; !ok || got != want {
		return true, failf("%#v is described as %q", e, d)
	}
	if n := parser.NewError(e.Msg, e.Range.Start, e.Range.End); n.Msg != e.Msg || n.Range != e.Range || !strings.Contains(n.Error(), e.Msg) {
		return true, failf("NewError gives %#v", n)
	}
	return true, nil
}

// opC33list: one byte per diagnostic, an index of its message and place; equal diagnostics as one or as several.
func opC33list(in []byte) (bool, *Fail) {
	if ok, f := listOf(in, nil); f != nil {
		return ok, f
	}
	return listOf(in, map[byte]*parser.Error{})
}

func listOf(in []byte, known map[byte]*parser.Error) (bool, *Fail) {
	var l parser.ErrorList
	want := ""
	for _, b := range in {
		e := known[b]
		if e == nil {
			e = mkDiag([]int{int(b) % len(diagPre), 1 + int(b)%2, 1 + int(b)%7, 1 + int(b)%5, 1 + int(b)%6, 1 + int(b)%4})
			if known != nil {
				known[b] = e
			}
		}
		l = append(l, e)
		want += e.Error() + "\n"
	}
	if l.String() != want || l.Error() != want || l.Diagnostic() != want {
		return true, failf("a list of %d diagnostics reads %q, not %q", len(l), l.String(), want)
	}
	if len(l) == 0 {
		if l.Collect() != nil || l.Start() != (token.Position{}) || l.End() != (token.Position{}) {
			return true, failf("an empty list of diagnostics collects to %v", l.Collect())
		}
		return true, nil
	}
	if l.Start() != l[0].Start() || l.End() != l[len(l)-1].End() {
		return true, failf("a list of %d diagnostics spans %v to %v", len(l), l.Start(), l.End())
	}
	c := l.Collect()
	if len(c) != len(l) {
		return true, failf("%d of %d diagnostics are collected", len(c), len(l))
	}
	for i := range c {
		if c[i] != l[i] {
			return true, failf("collecting changes diagnostic %d of %d", i, len(l))
		}
	}
	return true, nil
}

var comTexts = []string{"", "a", " x ", "é", "%s%d", ";", "\t", "a longer comment"}

// opC33com: one letter per comment of a group.
func opC33com(in []byte) (bool, *Fail) {
	g := &ast.CommentGroup{}
	for i, b := range in {
		k := int(b - 'a')
		if k < 0 || k >= len(comTexts) {
			return false, nil
		}
		g.List = append(g.List, &ast.Comment{Pos: token.Position{Offset: 9 * i, Line: i + 1, Column: 1}, Text: comTexts[k]})
	}
	if f := ownText(in, g); f != nil {
		return true, f
	}
	if s, again := g.String(), g.String(); s != again || len(g.List) != len(in) {
		return true, failf("%q: a group of comments reads %q, then %q", in, s, again)
	}
	var none *ast.CommentGroup
	if none.String() != "" {
		return true, failf("no group of comments reads %q", none.String())
	}
	return len(in) > 0, nil
}

// opC33src: a source; the list, the diagnostics and the formatted nodes its parse gives.
func opC33src(in []byte) (bool, *Fail) {
	lex := lexer.NewLexer(in)
	prs := parser.NewParser(lex)
	tree, errs := prs.ParseFile()
	if got := prs.Errors(); len(got) != len(errs) {
		return true, failf("%q: the parser holds %d diagnostics, parsing returned %d", in, len(got), len(errs))
	} else {
		for i := range got {
			if got[i] != errs[i] {
				return true, failf("%q: the parser holds another diagnostic %d than parsing returned", in, i)
			}
		}
	}
	if lex.ErrCount != len(lex.Errors) {
		return true, failf("%q: the scanner counts %d errors and lists %d", in, lex.ErrCount, len(lex.Errors))
	}
	lines := 0
	for i, e := range errs {
		d := e.Diagnostic()
		k := strings.LastIndex(d, " at line ")
		if k < 0 || !strings.HasPrefix(d, e.Error()) {
			return true, failf("%q: diagnostic %d reads %q", in, i, d)
		}
		got, ok := readSpan(d[k+4:])
		if want := [4]int{e.Start().Line, e.Start().Column, e.End().Line, e.End().Column}; !ok || got != want {
			return true, failf("%q: diagnostic %d at %v reads %q", in, i, want, d)
		}
		lines++
	}
	if len(errs) > 0 {
		text := errs.String()
		for i, e := range errs {
			k := strings.Index(text, e.Error()+"\n")
			if k != 0 {
				return true, failf("%q: diagnostic %d of %d is missing in the text of the list", in, i, len(errs))
			}
			text = text[len(e.Error())+1:]
		}
		if text != "" {
			return true, failf("%q: the text of the list ends with %q", in, text)
		}
	} else if errs != nil {
		return true, failf("%q: an empty list of diagnostics is not nil", in)
	}
	n := 0
	var why *Fail
	if tree == nil {
		return lines > 0, nil
	}
	var size func(x ast.Node) int // the nodes below x; large nodes are left out, their text grows with the square of their depth
	big := map[ast.Node]bool{}
	size = func(x ast.Node) int {
		t := 1
		eachChild(x, func(c ast.Node) { t += size(c) })
		big[x] = t > 150
		return t
	}
	size(tree)
	reachable(tree, func(x ast.Node) {
		if why != nil || big[x] {
			return
		}
		n++
		if why = ownText(in, x); why != nil {
			return
		}
		s := astutils.Format(x)
		need := []string{}
		kind := fmt.Sprintf("%T", x)
		kind = kind[strings.LastIndex(kind, ".")+1:]
		pos := func(p token.Position) {
			need = append(need, fmt.Sprintf("Column: %d,", p.Column), fmt.Sprintf("Line: %d ", p.Line))
		}
		switch v := x.(type) {
		case *ast.Identifier:
			kind = "Ident"
			need = append(need, "'"+v.Name+"'")
			pos(v.Pos)
		case *ast.IntegerLiteral:
			need = append(need, fmt.Sprintf("'%d'", v.Literal))
			pos(v.Pos)
		case *ast.FloatLiteral:
			need = append(need, fmt.Sprintf("'%f'", v.Literal))
			pos(v.Start())
		case *ast.IntegerType:
			need = append(need, "'"+v.Token.String()+"'")
			pos(v.Pos)
		case *ast.FloatType:
			need = append(need, "'"+v.Token.String()+"'")
			pos(v.Pos)
		case *ast.Enumeration:
			pos(v.Pos)
			if !isNil(v.Value) {
				need = append(need, "Value: ", inner(v.Value))
			}
		case *ast.TypeChoice:
			pos(v.Pos)
			if !isNil(v.First) && !isNil(v.Second) {
				need = append(need, "First", inner(v.First), "Second", inner(v.Second))
			}
		case *ast.Group:
			pos(v.Pos)
			need = append(need, fmt.Sprintf("Entries: %d\n", len(v.Entries)))
		}
		if !strings.Contains(s[:min(len(s), 40)], kind) {
			why = failf("%q: a %s is formatted as %q", in, kind, s)
			return
		}
		rest := s
		for _, w := range need {
			k := strings.Index(rest, w)
			if k < 0 {
				why = failf("%q: a %T is formatted as %q, without %q in its place", in, x, s, w)
				return
			}
			rest = rest[k+len(w):]
		}
	})
	if why != nil {
		return true, why
	}
	return lines > 0 || n > 2, nil
}

// ownText: the texts that files, names and groups of comments give of themselves.
func ownText(in []byte, x ast.Node) *Fail {
	switch v := x.(type) {
	case *ast.CommentGroup:
		want := ""
		for _, c := range v.List {
			want += c.Text + "\n"
		}
		if s := v.String(); s != want {
			return failf("%q: a group of %d comments reads %q, not %q", in, len(v.List), s, want)
		}
	case *ast.Identifier:
		if s := v.String(); !strings.Contains(s, " "+v.Name+" ") {
			return failf("%q: the name %q reads %q", in, v.Name, s)
		}
	case *ast.CDDL:
		s := v.String()
		for _, r := range v.Rules {
			want := ""
			switch e := r.(type) {
			case *ast.Rule:
				want = " " + e.Name.Name + " "
			case *ast.Comment:
				want = e.Text
			}
			k := strings.Index(s, want)
			if k < 0 {
				return failf("%q: the file reads %q, without %q in its place", in, s, want)
			}
			s = s[k+len(want):]
		}
	}
	return nil
}

// inner is a part of the text of a node that does not depend on its indentation: up to its first line break.
func inner(n ast.Node) string {
	s := astutils.Format(n)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	return s
}

func init() {
	kind := reg("C32.kind", opC32kind)
	word := reg("C32.word", opC32word)
	addCheck("C32", "exploration", "every kind number from far below to far above the range in use, against every other kind; every text up to the stated length over the stated alphabets, every known spelling and all its one-edit neighbours; non-trivial: a kind in use, a spelling with a meaning, a name with a class", func(c *Ctx) {
		c.Enum("kind numbers", kind, 3000, func(i int64, b []byte) []byte { return strconv.AppendInt(b, i-1000, 10) })
		var odd []string
		for _, n := range []int64{-1 << 63, -1 << 31, -1 << 32, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 4, 1<<63 - 1, 1<<32 + 60, 256 + 5, 65536 + 5} {
			odd = append(odd, strconv.FormatInt(n, 10))
		}
		c.List("extreme kind numbers", kind, odd)
		all := make([]string, 256)
		for i := range all {
			all[i] = string([]byte{byte(i)})
		}
		for k := 0; k <= 2; k++ {
			c.Words(fmt.Sprintf("all texts of %d bytes", k), word, all, k, "", "", "")
		}
		low := strings.Split("abcdefghijklmnopqrstuvwxyz0123456789._-$@", "")
		c.Words("texts of 3 name characters", word, low, 3, "", "", "")
		c.Words("texts of 4 name characters", word, low, 4, "", "", "")
		if c.Thorough {
			c.Words("texts of 5 letters", word, low[:26], 5, "", "", "")
			c.Words("texts of 5 letters behind a period", word, low[:26], 5, ".", "", "")
		} else {
			c.Words("texts of 5 letters of type keywords", word, strings.Split("abefilnorstux", ""), 5, "", "", "")
		}
		c.Words("texts of 3 letters behind a period", word, low[:26], 3, ".", "", "")
		c.Words("texts of 4 letters behind a period", word, low[:26], 4, ".", "", "")
		var l []string
		for _, s := range spelled() {
			l = append(l, s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s), s+s)
			for i := 0; i <= len(s); i++ {
				for b := 0; b < 256; b++ {
					l = append(l, s[:i]+string([]byte{byte(b)})+s[i:])
					if i < len(s) {
						l = append(l, s[:i]+string([]byte{byte(b)})+s[i+1:])
					}
				}
				if i < len(s) {
					l = append(l, s[:i]+s[i+1:])
				}
				if i+1 < len(s) {
					l = append(l, s[:i]+s[i+1:i+2]+s[i:i+1]+s[i+2:])
				}
			}
		}
		for _, k := range otherKinds {
			l = append(l, k.String(), strings.ToLower(k.String()))
		}
		for n := 1; n <= 80; n++ {
			for _, s := range []string{"$", "a", ".", "$a", "int", ".size", "_", "@"} {
				l = append(l, strings.Repeat(s, n), "$"+strings.Repeat(s, n), "$$"+strings.Repeat(s, n))
			}
		}
		c.List("known spellings, their one-edit neighbours, long names", word, l)
	})
	pos := reg("C33.pos", opC33pos)
	diag := reg("C33.diag", opC33diag)
	list := reg("C33.list", opC33list)
	com := reg("C33.comments", opC33com)
	src := reg("C33.src", opC33src)
	addCheck("C33", "exploration", "every position, range and diagnostic over the stated values; every list of diagnostics up to the stated length and long ones; the diagnostics and all formatted nodes of every lexeme sequence of the stated bounds and of all generated schemas; non-trivial: a diagnostic or more than two nodes", func(c *Ctx) {
		join := func(b []byte, i int64, dims ...int) []byte {
			for k, d := range dims {
				if k > 0 {
					b = append(b, ',')
				}
				b = strconv.AppendInt(b, i%int64(d), 10)
				i /= int64(d)
			}
			return b
		}
		P := len(posInts)
		c.Enum("positions", pos, int64(len(posFiles)*P*P*P*P), func(i int64, b []byte) []byte { return join(b, i, len(posFiles), P, P, P, P) })
		c.Enum("diagnostics", diag, int64(len(diagPre)*len(diagMsgs)*P*P*P*P), func(i int64, b []byte) []byte { return join(b, i, len(diagPre), len(diagMsgs), P, P, P, P) })
		sy := strings.Split("0123456", "")
		for k := 0; k <= c.tier(5, 7); k++ {
			c.Words(fmt.Sprintf("lists of %d diagnostics", k), list, sy, k, "", "", "")
		}
		var long []string
		for n := 6; n <= 300; n++ {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i)
			}
			long = append(long, string(b), strings.Repeat("\x03", n))
		}
		for _, n := range []int{999, 1000, 1001, 1023, 1024, 1025, 4096, 10000} {
			long = append(long, strings.Repeat("\x01\x02\x05", n/3+1)[:n])
		}
		c.List("long lists", list, long)
		for k := 0; k <= c.tier(5, 6); k++ {
			c.Words(fmt.Sprintf("groups of %d comments", k), com, strings.Split("abcdefgh", ""), k, "", "", "")
		}
		long = nil
		for n := 6; n <= 300; n++ {
			long = append(long, strings.Repeat("b", n), strings.Repeat("a", n), strings.Repeat("abc", n/3), strings.Repeat("hgh", n/2))
		}
		c.List("long groups of comments", com, append(long, strings.Repeat("cb", 5000)))
		for k := 0; k <= 3; k++ {
			for _, x := range synCtxs {
				syms := synCore
				if k == 3 && !c.Thorough {
					syms = synMini
				}
				c.Words(fmt.Sprintf("all %d-lexeme sequences (of %d) in %q..%q", k, len(syms), x.pre, x.post), src, syms, k, x.pre, " ", x.post)
			}
		}
		f := func(p *printed, b []byte, v int) []byte {
			s, _ := p.text(layoutSep((v + 3) % len(layoutSeps)))
			return append(b, s...)
		}
		c.eachSchema(src, f, 1, nil)
		c.chainsAndPumps(src, 1, f)
		var ps []string
		for _, m := range append(append(allLeaves(), allAtoms()...), richModels()...) {
			ps = append(ps, printFile(fileOf(m, "="), 0).src())
		}
		c.List("what Print writes for every node of one schema per construct", reg33print, ps)
	})
}

var reg33print = reg("C33.print", opC33print)
var printMu sync.Mutex

// opC33print: what Print writes to the standard output is the textual form of the node and a line break.
func opC33print(in []byte) (bool, *Fail) {
	tree, _ := parse(in)
	if tree == nil {
		return false, nil
	}
	var want strings.Builder
	var all []ast.Node
	reachable(tree, func(x ast.Node) {
		all = append(all, x)
		want.WriteString(astutils.Format(x) + "\n")
	})
	printMu.Lock()
	defer printMu.Unlock()
	f, err := os.CreateTemp(os.Getenv("MC_TMP"), "print")
	if err != nil {
		return false, nil
	}
	defer os.Remove(f.Name())
	defer f.Close()
	old := os.Stdout
	os.Stdout = f
	func() {
		defer func() { os.Stdout = old }()
		for _, x := range all {
			astutils.Print(x)
		}
	}()
	got, _ := os.ReadFile(f.Name())
	if string(got) != want.String() {
		return true, failf("%q: the nodes are printed as %q, their textual forms are %q", in, got, want.String())
	}
	return true, nil
}
