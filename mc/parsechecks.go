package main

// C06-C11, C17 (library part), C18, C19: the parser and the tree.

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

var nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()

// reachable lists every node reachable from n through exported fields, parents first, in field order.
func reachable(n ast.Node, f func(ast.Node)) {
	if isNil(n) {
		return
	}
	f(n)
	eachChild(n, func(c ast.Node) { reachable(c, f) })
}

// eachChild calls f for the nodes directly below n.
func eachChild(n ast.Node, f func(ast.Node)) {
	v := reflect.ValueOf(n)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct {
		reachFields(v, f)
	}
}

func reachFields(v reflect.Value, f func(ast.Node)) {
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).IsExported() {
			reachVal(v.Field(i), f)
		}
	}
}

func reachVal(v reflect.Value, f func(ast.Node)) {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			reachVal(v.Index(i), f)
		}
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() && v.CanInterface() {
			if n, ok := v.Interface().(ast.Node); ok {
				f(n)
			}
		}
	}
}

type countVisitor struct{ n int }

func (c *countVisitor) Visit(n ast.Node) astutils.Visitor { c.n++; return c }

// opC06: parsing, spans, walking and formatting never crash; something is always returned.
func opC06(in []byte) (bool, *Fail) {
	tree, errs := parse(in)
	if tree == nil && len(errs) == 0 {
		return true, failf("neither a tree nor diagnostics")
	}
	if len(errs) == 0 && tree != nil && len(tree.Rules) == 0 && len(refLex(in)) > 1 {
		return true, failf("a non-empty source gave an empty tree and no diagnostics")
	}
	if tree == nil {
		return true, nil
	}
	nodes := 0
	reachable(tree, func(n ast.Node) {
		nodes++
		_ = n.Start()
		_ = n.End()
		_ = astutils.Format(n)
	})
	astutils.Walk(&countVisitor{}, tree)
	for _, e := range errs {
		_, _, _ = e.Start(), e.End(), e.Error()
	}
	return nodes > 1, nil
}

func lexicalError(in []byte) bool {
	for _, t := range refLex(in) {
		if t.illegal || t.unclosed {
			return true
		}
	}
	return false
}

func opC07(in []byte) (bool, *Fail) {
	bad := lexicalError(in)
	if !bad {
		return false, nil
	}
	_, errs := parse(in)
	if len(errs) == 0 {
		return true, failf("the source has a lexical error and is accepted without diagnostics")
	}
	return true, nil
}

func balanced(rs []rtok) string {
	var st []string
	for _, t := range rs {
		if len(t.kinds) != 1 {
			continue
		}
		switch t.kinds[0] {
		case token.LPAREN, token.LBRACK, token.LBRACE:
			st = append(st, t.lit)
		case token.RPAREN, token.RBRACK, token.RBRACE:
			if len(st) == 0 {
				return "closing " + t.lit + " without opening"
			}
			o := st[len(st)-1]
			if o+t.lit != "()" && o+t.lit != "[]" && o+t.lit != "{}" {
				return o + " closed by " + t.lit
			}
			st = st[:len(st)-1]
		}
	}
	if len(st) > 0 {
		return st[len(st)-1] + " is never closed"
	}
	return ""
}

// opC08: accepted means balanced and complete.
func opC08(in []byte) (bool, *Fail) {
	tree, errs := parse(in)
	if len(errs) > 0 {
		return false, nil
	}
	if why := balanced(refLex(in)); why != "" {
		return true, failf("accepted although %s", why)
	}
	var walk func(n *N) *N
	walk = func(n *N) *N {
		if n.K == "NIL" || n.K == "bad" || strings.HasPrefix(n.K, "unknown") {
			return n
		}
		if n.K == "occ" && strings.HasPrefix(n.V, "?") {
			return n
		}
		for _, c := range n.C {
			if w := walk(c); w != nil {
				return w
			}
		}
		return nil
	}
	t := canon(tree)
	if b := walk(t); b != nil {
		return true, failf("accepted with a missing operand or placeholder: %s", t)
	}
	return len(t.C) > 0, nil
}

// tokenContent is the written content, comments and commas aside: one entry per token.
func tokenContent(in []byte) []string {
	var out []string
	rs := refLex(in)
	for i, t := range rs {
		if len(t.kinds) != 1 {
			out = append(out, "?"+t.lit)
			continue
		}
		switch k := t.kinds[0]; k {
		case token.COMMENT, token.COMMA, token.EOF:
		case token.TEXT_LITERAL:
			out = append(out, strconv.Quote(t.lit))
		case token.COLON, token.ARROW_MAP:
			out = append(out, ":")
		case token.ASSIGN, token.TYPE_CHOICE_ASSIGN, token.GROUP_CHOICE_ASSIGN:
			out = append(out, "=")
		case token.INT:
			if t.lit == "int" {
				out = append(out, "int")
				break
			}
			v, err := strconv.ParseUint(t.lit, 0, 64)
			if err != nil {
				out = append(out, "!"+t.lit)
				break
			}
			out = append(out, strconv.FormatUint(v, 10))
		case token.FLOAT:
			if t.lit == "float" {
				out = append(out, "float")
				break
			}
			if i > 0 && rs[i-1].lit == "#" {
				a, b, _ := strings.Cut(t.lit, ".")
				x, _ := strconv.ParseUint(a, 0, 64)
				y, _ := strconv.ParseUint(b, 0, 64)
				out = append(out, fmt.Sprintf("%d.%d", x, y))
				break
			}
			v, err := strconv.ParseFloat(t.lit, 64)
			if err != nil {
				out = append(out, "!"+t.lit)
				break
			}
			out = append(out, "f"+strconv.FormatFloat(v, 'g', -1, 64))
		default:
			out = append(out, t.lit)
		}
	}
	return out
}

// treeContent linearises the tree in source order in the same vocabulary.
func treeContent(n *N, out []string) []string {
	kids := func(sep string) {
		for i, c := range n.C {
			if i > 0 && sep != "" {
				out = append(out, sep)
			}
			out = treeContent(c, out)
		}
	}
	switch n.K {
	case "file":
		kids("")
	case "rule":
		kids("=")
	case "entry":
		kids(":")
	case "id", "type", "int", "uint", "bool":
		out = append(out, n.V)
	case "float":
		out = append(out, "f"+n.V)
	case "text":
		out = append(out, strconv.Quote(n.V))
	case "group", "array", "map":
		br := map[string]string{"group": "()", "array": "[]", "map": "{}"}[n.K]
		out = append(out, br[:1])
		kids("")
		out = append(out, br[1:])
	case "choice/", "choice//":
		kids(n.K[6:])
	case "range", "ctl":
		kids(n.V)
	case "opt":
		out = append(out, "?")
		kids("")
	case "unwrap":
		out = append(out, "~")
		kids("")
	case "enum":
		out = append(out, "&")
		kids("")
	case "tag":
		out = append(out, "#")
		if n.V != "" {
			out = append(out, n.V)
		}
		if len(n.C) > 0 {
			out = append(out, "(")
			kids("")
			out = append(out, ")")
		}
	case "occ":
		lo, hi, _ := strings.Cut(n.V, "..")
		o := n.Node.(*ast.NMOccurrence)
		if o.N != nil && o.N.Pos.Offset < o.Pos.Offset {
			out = append(out, lo)
		} else if want := map[token.Token]string{token.ZERO_OR_MORE: "0", token.ONE_OR_MORE: "1"}[o.Token]; want != lo {
			out = append(out, "implicit bound "+lo)
		}
		out = append(out, o.Token.String())
		if hi != "inf" {
			out = append(out, hi)
		}
		kids("")
	case "comment", "comments":
	default:
		out = append(out, "<"+n.K+">")
		kids("")
	}
	return out
}

// opC09: what was written is what the tree holds.
func opC09(in []byte) (bool, *Fail) {
	tree, errs := parse(in)
	if len(errs) > 0 {
		return false, nil
	}
	a, b := tokenContent(in), treeContent(flattenComments(canon(tree)), nil)
	if strings.Join(a, " ") != strings.Join(b, " ") {
		return true, failf("written: %s\nin tree: %s\ntree: %s", strings.Join(a, " "), strings.Join(b, " "), canon(tree))
	}
	return len(b) > 0, nil
}

// flattenComments removes comment children only.
func flattenComments(n *N) *N {
	m := &N{K: n.K, V: n.V, P: n.P, Node: n.Node}
	for _, c := range n.C {
		if c.K != "comment" && c.K != "comments" {
			m.C = append(m.C, flattenComments(c))
		}
	}
	return m
}

// opC17: every diagnostic points at a token.
func opC17(in []byte) (bool, *Fail) {
	_, errs := parse(in)
	if len(errs) == 0 {
		return false, nil
	}
	starts := map[int]bool{}
	for _, t := range refLex(in) {
		starts[t.off] = true
		if t.unclosed {
			starts[t.end] = true // an unclosed text is reported at the end of its line
		}
	}
	for i, e := range errs {
		p := e.Start()
		if q := e.End(); q.Offset < p.Offset || q.Offset > len(in) {
			return true, failf("diagnostic %d (%s) starts at offset %d and ends at %d", i, e.Error(), p.Offset, q.Offset)
		}
		if strings.TrimSpace(e.Error()) == "" {
			return true, failf("diagnostic %d has no message", i)
		}
		if !starts[p.Offset] {
			return true, failf("diagnostic %d (%s) starts at offset %d, where no token starts", i, e.Error(), p.Offset)
		}
		if w := offsetPos(in, p.Offset); w.Line != p.Line || w.Column != p.Column {
			return true, failf("diagnostic %d (%s) at offset %d is %d:%d but reports %d:%d", i, e.Error(), p.Offset, w.Line, w.Column, p.Line, p.Column)
		}
	}
	return true, nil
}

// opC10: source, NUL, expected tree.
func opC10(in []byte) (bool, *Fail) {
	i := bytes.IndexByte(in, 0)
	if i < 0 {
		return false, nil
	}
	src, want := in[:i], string(in[i+1:])
	tree, errs := parse(src)
	if len(errs) > 0 {
		return true, failf("well-formed schema rejected: %s\n%s", src, errString(errs))
	}
	if got := flatten(canon(tree)).String(); got != want {
		return true, failf("schema: %s\nwant %s\ngot  %s", src, want, got)
	}
	return true, nil
}

// opC18: source, NUL, expected tree with positions.
func opC18(in []byte) (bool, *Fail) {
	i := bytes.IndexByte(in, 0)
	if i < 0 {
		return false, nil
	}
	src, want := in[:i], string(in[i+1:])
	tree, errs := parse(src)
	if len(errs) > 0 {
		return false, nil // C10's matter
	}
	f := flatten(canon(tree))
	if got := f.PString(); got != want {
		if stripPos(got) != stripPos(want) {
			return false, nil // structure is C10's matter
		}
		return true, failf("schema: %q\nwant %s\ngot  %s", src, want, got)
	}
	return true, nil
}

func stripPos(s string) string {
	var b strings.Builder
	q := false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			q = !q
		}
		if !q && (c == '@' || c == '#') {
			for i+1 < len(s) && (s[i+1] >= '0' && s[i+1] <= '9' || s[i+1] == ':' || s[i+1] == '-') {
				i++
			}
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// ---- exploration of token sequences ----

var synLex = []string{"a", "b", "int", "uint", "tstr", "bstr", "bool", "null", "float", `"t"`, "1", "2.5", "true", "(", ")", "[", "]", "{", "}", ",", ":", "=>", "=", "/=", "/", "//", "?", "*", "+", "~", "&", "#", "#6.2", "2*5", "3*2", "4*", "*0", "..", "...", ".size", ".regexp", ".bits", ".lt", ".eq", ";c\n", "!", "\"u\n", ".foo", "-", "any"}
var synCore = []string{"a", "int", "tstr", `"t"`, "1", "2.5", "(", ")", "[", "]", "{", "}", ",", ":", "=", "/", "//", "?", "*", "~", "&", "#", "..", ".size", ".regexp", ".lt", ";c\n"}
var synMini = []string{"a", "int", "1", "(", ")", "]", "}", ",", ":", "=", "/", "//", "*", "~", "..", ".size", "#", ";c\n"}

type synCtx struct{ pre, post string }

var synCtxs = []synCtx{{"", ""}, {"a = ", ""}, {"a = ", " b = int"}, {"a = (", ""}, {"a = ( ", " )"}, {"a = [ ", " ]"}, {"a = { ", " }"}, {"a = ( a : ", " ) b = a"}, {"a = #6.1( ", " )"}, {"a = [ ? ", " ]"}, {"a = [ 1*2 ", " , int ]"}, {"b = 1 a = b .. ", ""}, {"a = tstr .size ", " b = 1"}, {"a = tstr .regexp ", ""}, {"a = & ", " b = (c : 1)"}, {"a = ~ ", ""}, {"a = int / ", " / tstr"}, {"a = { 1 : int , ", " , b => int } b = 2"},
	{"a /= ", ""}, {"a //= ", " b = 1"}, {"a /= int .lt ", " a //= 1"}, {"a = ( 1 : ", " )"}, {"a = [ * ", " ]"}, {"a = { ? b => ", " } b = 1"}, {"a = uint .bits ", ""}, {"a = ( b : int // ", " )"}, {"a = ~ & ", " .bits a"}, {"; c\na = ", " ; d\n"}}

func exploreTokens(c *Ctx, op string) {
	for k := 0; k <= 3; k++ {
		for _, x := range synCtxs {
			syms := synLex
			if k == 3 && !c.Thorough {
				syms = synCore
			}
			c.Words(fmt.Sprintf("all %d-lexeme sequences (of %d) in %q..%q", k, len(syms), x.pre, x.post), op, syms, k, x.pre, " ", x.post)
		}
	}
	for i, x := range synCtxs {
		if c.Thorough {
			c.Words(fmt.Sprintf("all 4-lexeme sequences (of %d) in %q..%q", len(synCore), x.pre, x.post), op, synCore, 4, x.pre, " ", x.post)
		} else if i < 7 {
			c.Words(fmt.Sprintf("all 4-lexeme sequences (of %d) in %q..%q", len(synMini), x.pre, x.post), op, synMini, 4, x.pre, " ", x.post)
		}
	}
	// one-edit neighbourhood of well-formed schemas
	base := rich()
	ed := []string{}
	for _, p := range base {
		ed = append(ed, edits(p.toks, synLex)...)
	}
	c.List("all single-token deletions, insertions, substitutions and swaps of the rich schemas", op, ed)
	if c.Thorough {
		for i := 5; i < 7 && i < len(synCtxs); i++ {
			x := synCtxs[i]
			c.Words(fmt.Sprintf("all 5-lexeme sequences (of %d) in %q..%q", len(synMini), x.pre, x.post), op, synMini, 5, x.pre, " ", x.post)
		}
	}
}

// edits lists the one-edit neighbours of a token list.
func edits(toks []string, syms []string) []string {
	var out []string
	j := func(t []string) { out = append(out, strings.Join(t, " ")) }
	for i := 0; i <= len(toks); i++ {
		for _, s := range syms {
			t := append(append(append([]string{}, toks[:i]...), s), toks[i:]...)
			j(t)
			if i < len(toks) {
				u := append([]string{}, toks...)
				u[i] = s
				j(u)
			}
		}
		if i < len(toks) {
			j(append(append([]string{}, toks[:i]...), toks[i+1:]...))
			j(toks[:i])
		}
		if i+1 < len(toks) {
			u := append([]string{}, toks...)
			u[i], u[i+1] = u[i+1], u[i]
			j(u)
		}
	}
	return out
}

// rich: one schema per construct and a few combinations.
func rich() []*printed {
	var ps []*printed
	for _, v := range richModels() {
		ps = append(ps, printFile(fileOf(v, "="), 0))
	}
	return ps
}

func richModels() []*M {
	var l []*M
	add := func(v *M) { l = append(l, v) }
	for _, a := range allAtoms() {
		add(a)
	}
	e := func(k string, v *M) *M { return mk("entry", ":", id(k), v) }
	add(mk("group", "", e("k", typ("int")), mk("opt", "", e("l", id("x"))), mk("occ", "2*5", typ("tstr"))))
	add(mk("array", "", mk("choice/", "", typ("int"), txt("t"), flt("1.5", "1.5")), mk("occ", "*", e("k", mk("unwrap", "", id("g")))), id("g")))
	add(mk("map", "", mk("entry", "=>", num("1"), mk("choice/", "", boo("true"), typ("null"))), mk("occ", "+", mk("entry", "=>", id("k"), mk("array", "", typ("bstr"))))))
	add(mk("tag", "6.32", mk("choice/", "", typ("tstr"), mk("group", "", typ("int")))))
	add(mk("choice//", "", id("x"), mk("group", "", e("k", typ("int")))))
	add(mk("enum", "", mk("group", "", e("k", num("1")), e("l", num("2")))))
	return l
}

// scalarModels puts every value of a palette in the place of every literal, name, bound and tag
// head of the rich schemas (and every pair of values in the places of two bounds).
func scalarModels() []*M {
	ints := []*M{num("0"), num("1"), num("2"), num("3"), num("9"), num("10"), num("64"), num("255"), num("256"), num("65535"), num("65536"), num("4294967296"), num("9223372036854775807"), hexn("0x0", "0"), hexn("0xFF", "255"), hexn("0xabcd", "43981"), hexn("0b0", "0"), hexn("0b11111111", "255"), hexn("0o7", "7"), hexn("0o777", "511")}
	flts := []*M{flt("0.0", "0"), flt("1.0", "1"), flt("0.5", "0.5"), flt("10.25", "10.25"), flt("255.0", "255"), flt("65536.5", "65536.5"), flt("3.14159", "3.14159")}
	txts := []*M{txt(""), txt("a"), txt(" "), txt("  x "), txt(";"), txt("//"), txt("("), txt("é"), txt("\\"), txt("int"), txt("x"), txt("1"), txt("\t"), txt("$"), txt(strings.Repeat("ab ", 100))}
	names := []string{"x", "r", "n1", "a-b", "a.b", "_u", "@x", "int8", "ints", "tstrx", "trueish", "X", "g1", "long-name-with.all_kinds@of$characters0123456789"}
	occN := []string{"", "0", "1", "2", "3", "5", "10", "64", "100", "256", "65536"}
	var out []*M
	// paths to leaves
	var put func(root *M, path []int, x *M) *M
	put = func(root *M, path []int, x *M) *M {
		if len(path) == 0 {
			return x
		}
		c := *root
		c.C = append([]*M{}, root.C...)
		c.C[path[0]] = put(c.C[path[0]], path[1:], x)
		return &c
	}
	emit := func(m *M, extra ...*M) {
		for _, as := range []string{"=", "/="} {
			f := fileOf(m, as)
			f.C = append(f.C, extra...)
			out = append(out, f)
		}
	}
	defs := map[string]*M{}
	for _, r := range support() {
		defs[r.C[0].V] = r.C[1]
	}
	for _, root := range append(richModels(), id("x"), num("7"), flt("1.5", "1.5"), txt("t"), mk("tag", "6.32", typ("int")),
		mk("map", "", mk("entry", ":", id("k"), id("x")), mk("occ", "*3", mk("entry", "=>", num("1"), num("2"))), mk("opt", "", mk("entry", ":", num("1"), txt("t"))))) {
		var walk func(m *M, path []int)
		walk = func(m *M, path []int) {
			path = path[:len(path):len(path)]
			switch m.K {
			case "int":
				for _, x := range ints {
					emit(put(root, path, x))
				}
			case "float":
				for _, x := range flts {
					emit(put(root, path, x))
				}
			case "text":
				for _, x := range txts {
					emit(put(root, path, x))
				}
			case "bool":
				emit(put(root, path, boo("true")))
				emit(put(root, path, boo("false")))
			case "id":
				for _, n := range names {
					if d := defs[m.V]; d != nil && defs[n] == nil && n != "r" {
						emit(put(root, path, id(n)), mk("rule", "=", id(n), d))
					}
				}
			case "occ":
				for _, lo := range occN {
					for _, hi := range occN {
						x := *m
						x.V = lo + "*" + hi
						emit(put(root, path, &x))
					}
				}
			case "tag":
				for _, v := range []string{"0", "1", "6", "7", "6.0", "6.1", "6.9", "6.10", "6.23", "6.24", "6.255", "6.256", "6.65535", "6.4294967296", "7.25"} {
					x := *m
					x.V = v
					emit(put(root, path, &x))
				}
			case "range":
				pal := ints
				if m.C[0].K == "float" {
					pal = flts
				}
				if m.C[0].K == m.C[1].K && m.C[0].K != "id" {
					for _, a := range pal {
						for _, b := range pal {
							x := *m
							x.C = []*M{a, b}
							emit(put(root, path, &x))
						}
					}
				}
			}
			for i, c := range m.C {
				walk(c, append(path, i))
			}
		}
		walk(root, nil)
	}
	return out
}

// ---- exploration of well-formed schemas ----

type wf struct {
	p      *printed
	values int
}

// eachSchema enumerates the generated schemas: every set, every size, every comma style.
func (c *Ctx) eachSchema(op string, mkInput func(p *printed, buf []byte, variant int) []byte, variants int, skipSet func(s genSet) int) {
	for _, s := range genSets(c.Thorough) {
		depth := s.depth
		if skipSet != nil {
			depth = skipSet(s)
		}
		for n := 1; n <= depth; n++ {
			vals := s.g.value(n)
			st := int64(3)
			tot := int64(len(vals)) * st * int64(variants)
			c.Enum(fmt.Sprintf("schemas: %s, size %d, 3 comma styles, %d layouts", s.name, n, variants), op, tot, func(i int64, b []byte) []byte {
				v := vals[i%int64(len(vals))]
				i /= int64(len(vals))
				style := int(i % st)
				if style > 0 && !hasList(v, style) {
					return nil // same text as style 0
				}
				return mkInput(printFile(fileOf(v, "="), style), b, int(i/st))
			})
			if c.stop.Load() || c.timeUp() {
				return
			}
		}
	}
	sc := scalarModels()
	n := int64(len(sc))
	c.Enum(fmt.Sprintf("every value of the palettes at every literal, name, bound and tag head (%d schemas), 3 comma styles, %d layouts", n, variants), op, n*3*int64(variants), func(i int64, b []byte) []byte {
		v := sc[i%n]
		i /= n
		return mkInput(printFile(v, int(i%3)), b, int(i/3))
	})
	tw := twins(c.Thorough)
	nt := int64(len(tw))
	c.Enum(fmt.Sprintf("the same phrase twice and more often side by side (%d schemas)", nt), op, nt*3, func(i int64, b []byte) []byte {
		return mkInput(printFile(fileDef(tw[i/3]), int(i%3)), b, int(i%int64(variants)))
	})
	nm := nameModels(c.Thorough)
	nn := int64(len(nm))
	c.Enum(fmt.Sprintf("names of every kind in every place (%d schemas)", nn), op, nn, func(i int64, b []byte) []byte {
		return mkInput(printFile(nm[i], int(i%3)), b, int(i%int64(variants)))
	})
	lm := literalModels(c.Thorough, id("x"))
	nl := int64(len(lm))
	c.Enum(fmt.Sprintf("many values of every kind of literal beside names (%d schemas)", nl), op, nl, func(i int64, b []byte) []byte {
		return mkInput(printFile(fileOf(lm[i], "="), int(i%3)), b, int(i%int64(variants)))
	})
}

// aligned enumerates schemas in the layouts of alignSep.
func (c *Ctx) aligned(op string, mkInput func(p *printed, sep func(int) string, buf []byte) []byte) {
	part := func(what string, vals []*M, file bool) {
		n := int64(len(vals))
		c.Enum(fmt.Sprintf("%s (%d schemas), every token or every other token on its own line in a column related to the one before, %d layouts", what, n, alignModes), op, n*alignModes, func(i int64, b []byte) []byte {
			v := vals[i/alignModes]
			if !file {
				v = fileDef(v)
			}
			p := printFile(v, int(i/alignModes%3))
			return mkInput(p, p.alignSep(int(i%alignModes)), b)
		})
	}
	part("every value of the palettes", scalarModels(), true)
	part("repeated and neighbouring constructs", twins(c.Thorough), false)
	for _, s := range genSets(c.Thorough) {
		for n := 1; n <= min(s.depth, map[string]int{"all constructs": c.tier(1, 2), "mid alphabet": c.tier(2, 3), "small alphabet": 3}[s.name]); n++ {
			part(fmt.Sprintf("%s, size %d", s.name, n), s.g.value(n), false)
		}
	}
}

// hasList: some group has members, so that comma styles differ.
func hasList(m *M, style int) bool {
	if (m.K == "group" || m.K == "array" || m.K == "map") && (len(m.C) > 1 || style == 2 && len(m.C) > 0) {
		return true
	}
	for _, c := range m.C {
		if hasList(c, style) {
			return true
		}
	}
	return style == 2 // the support rules contain a group
}

func withTree(p *printed, buf []byte, pos bool, sep func(int) string) []byte {
	s, t := p.lay(sep)
	buf = append(buf, s...)
	buf = append(buf, 0)
	if pos {
		return append(buf, t.PString()...)
	}
	return append(buf, t.String()...)
}

func spaces(i int) string {
	if i == 0 {
		return ""
	}
	return " "
}

// layouts for C18: deterministic, different at every gap
var layoutSeps = [][]string{{" "}, {"\n"}, {"\n\n  ", " ", "\t"}, {" ", "\r\n", "  ", "\n\t"}, {"\n", "   "}}

func layoutSep(k int) func(int) string {
	l := layoutSeps[k]
	return func(i int) string {
		if i == 0 && k < 2 {
			return ""
		}
		return l[i%len(l)]
	}
}

func init() {
	n06deep := reg("C06.deep", opC06deep)
	rule := "all lexeme sequences up to the stated length in each stated context, plus the complete one-edit neighbourhood of a schema per construct; "
	for _, x := range []struct {
		id   string
		op   Op
		rule string
	}{
		{"C06", opC06, "non-trivial: the parse yields at least one node"},
		{"C07", opC07, "non-trivial: the source has a lexical error"},
		{"C08", opC08, "non-trivial: the source is accepted"},
		{"C09", opC09, "non-trivial: the source is accepted"},
	} {
		x := x
		name := reg(x.id+".source", x.op)
		addCheck(x.id, "exploration", rule+x.rule, func(c *Ctx) {
			if x.id == "C07" {
				exploreLexErrors(c, name)
			}
			exploreTokens(c, name)
			if x.id == "C06" {
				exploreBytes(c, name)
				exploreDeep(c, n06deep, []int{1000, c.tier(5000, 10000)}, true, deepMore...)
				exploreDeep(c, n06deep, []int{c.tier(100001, 99999), 130000}[:c.tier(1, 2)], false, deepMore...)
				var huge []string
				for _, u := range []deepCase{{3000000, "(", "int", ")", 3000000}, {3000000, "[", "", "", 0}, {2200000, "? ", "int", "", 0}, {2200000, "~", "k", "", 0}} {
					huge = append(huge, u.String())
				}
				if c.Thorough {
					for _, u := range []deepCase{{2200000, "& ", "k", "", 0}, {2200000, "{", "", "", 0}, {2200000, "1/", "1", "", 0}, {2200000, "* ", "k", "", 0}} {
						huge = append(huge, u.String())
					}
				}
				c.List("constructs nested millions of levels deep", n06deep, huge)
			}
			if x.id != "C07" {
				c.bracketEdits(name)
			}
			if x.id == "C08" || x.id == "C09" {
				f := func(p *printed, b []byte, _ int) []byte { return append(b, p.src()...) }
				c.eachSchema(name, f, 1, nil)
				c.chainsAndPumps(name, 1, f)
			}
		})
	}
	n10 := reg("C10.schema", opC10)
	n10deep := reg("C10.deep", opC10deep)
	addCheck("C10", "exploration", "all schemas of the grammar up to the stated size over the stated alphabets, in three comma styles, each with the tree the grammar derives; non-trivial: the schema was parsed and compared", func(c *Ctx) {
		f := func(p *printed, b []byte, _ int) []byte { return withTree(p, b, false, spaces) }
		c.eachSchema(n10, f, 1, nil)
		c.chainsAndPumps(n10, 1, f)
		c.aligned(n10, func(p *printed, sep func(int) string, b []byte) []byte { return withTree(p, b, false, sep) })
		exploreFiles(c, n10)
		c.List("every construct more than 100000 times, as entries of a list and as rules", n10many, manyCases(c.Thorough, false))
		exploreDeep(c, n10deep, append(upTo(130), 200, 300, 520, 1000, 1030, 4100, 10000, 20000, 40000), false)
	})
	n18 := reg("C18.schema", opC18)
	addCheck("C18", "exploration", "all schemas of the grammar up to the stated size, in three comma styles and five layouts, compared with the positions of the printed tokens; non-trivial: accepted with the expected structure, all node positions compared", func(c *Ctx) {
		c.eachSchema(n18, func(p *printed, b []byte, v int) []byte { return withTree(p, b, true, layoutSep(v)) }, c.tier(3, len(layoutSeps)), func(s genSet) int {
			if c.Thorough {
				return s.depth
			}
			return s.depth
		})
		c.aligned(n18, func(p *printed, sep func(int) string, b []byte) []byte { return withTree(p, b, true, sep) })
		c.chainsAndPumps(n18, c.tier(2, len(layoutSeps)), func(p *printed, b []byte, v int) []byte {
			return withTree(p, b, true, layoutSep((v+1)%len(layoutSeps)))
		})
	})
}

// tokGroup is a rule's tokens and the tokens of the rules behind it.
type tokGroup struct{ toks, rest []string }

// bracketEdits explores, for every generated nesting, every bracket replaced by each other bracket,
// dropped, doubled and turned into a comma, every other token dropped or doubled, and every
// truncation, each with and without the rules behind it.
func (c *Ctx) bracketEdits(op string) {
	run := func(what string, gs []tokGroup) {
		const per = 20
		var starts []int64
		tot := int64(0)
		for _, g := range gs {
			starts = append(starts, tot)
			tot += int64(len(g.toks)) * per
		}
		br := []string{"(", ")", "[", "]", "{", "}", ",", ""}
		c.Enum(fmt.Sprintf("%s: %d schemas, every bracket replaced, dropped and doubled, every token dropped and doubled, every truncation, with and without further rules", what, len(gs)), op, tot, func(i int64, b []byte) []byte {
			k := sort.Search(len(starts), func(j int) bool { return starts[j] > i }) - 1
			g := gs[k]
			i -= starts[k]
			at, e := int(i/per), int(i%per)
			rest := e&1 == 1
			e >>= 1
			t := g.toks[at]
			isBr := len(t) == 1 && strings.Contains("()[]{}", t)
			put := func(s string) {
				if s != "" {
					if len(b) > 0 {
						b = append(b, ' ')
					}
					b = append(b, s...)
				}
			}
			if len(g.toks) > 40 && !isBr && at%7 != 3 { // long schemas: mostly the brackets
				return nil
			}
			if e < 8 && (br[e] == t || !isBr && e != 7) {
				return nil
			}
			for _, x := range g.toks[:at] {
				put(x)
			}
			switch {
			case e < 8:
				put(br[e])
			case e == 8:
				put(t)
				put(t)
			}
			if e < 9 { // otherwise truncated
				for _, x := range g.toks[at+1:] {
					put(x)
				}
			}
			if rest {
				for _, x := range g.rest {
					put(x)
				}
			}
			return b
		})
	}
	group := func(m *M, style int) tokGroup {
		f := fileOf(m, "=")
		one, all := printFile(mk("file", "", f.C[0]), style), printFile(f, style)
		return tokGroup{one.toks, all.toks[len(one.toks):]}
	}
	ws, ls := chainWraps(), chainLeaves()
	var gs []tokGroup
	for _, l := range append(append([]*M{}, ls...), shapeVals()...) {
		for _, w := range ws {
			for style := 0; style < 3; style++ {
				gs = append(gs, group(w.f(l), style))
			}
		}
	}
	run("1 construct around every phrase", gs)
	gs = nil
	for _, l := range ls[:c.tier(4, len(ls))] {
		for _, v := range ws {
			for _, w := range ws {
				gs = append(gs, group(v.f(w.f(l)), 0))
			}
		}
	}
	run("2 constructs around a phrase", gs)
	gs = nil
	for _, u := range ws {
		for _, v := range ws {
			for _, w := range ws {
				gs = append(gs, group(u.f(v.f(w.f(ls[0]))), 0))
			}
		}
	}
	run("3 constructs around a name", gs)
	gs = nil
	for i, m := range scalarModels() {
		if i%2 == 0 {
			gs = append(gs, group(m.C[0].C[1], 0))
		}
	}
	run("every value of the palettes", gs)
	// longer lists and deeper nestings
	gs = nil
	lens := append(upTo(c.tier(20, 40))[1:], 31, 32, 33, 63, 64, 65, 66)
	if c.Thorough {
		lens = append(lens, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257)
	}
	kinds := []func(i int) *M{
		func(int) *M { return typ("int") }, func(i int) *M { return num(fmt.Sprint(i)) }, func(i int) *M { return mk("entry", ":", id(fmt.Sprintf("k%d", i)), typ("tstr")) }, func(i int) *M { return mk("opt", "", mk("entry", ":", num(fmt.Sprint(i)), id("x"))) },
		func(int) *M { return mk("group", "", typ("int")) }, func(int) *M { return mk("array", "", id("x")) }, func(int) *M { return mk("map", "", mk("entry", ":", id("k"), typ("int"))) }, func(int) *M { return mk("tag", "6.1", typ("int")) }, func(i int) *M { return []*M{mk("group", ""), mk("array", ""), mk("map", "")}[i%3] },
	}
	for _, n := range lens {
		for ki, k := range kinds {
			var es []*M
			for i := 0; i < n; i++ {
				es = append(es, k(i))
			}
			for bi, b := range []string{"group", "array", "map"} {
				gs = append(gs, group(mk(b, "", es...), (n+ki+bi)%2))
				if n < 10 {
					gs = append(gs, group(mk("array", "", typ("int"), mk(b, "", es...), typ("int")), 1))
				}
			}
			if es[0].K != "opt" && es[0].K != "entry" {
				gs = append(gs, group(mk("choice/", "", es...), 0))
			}
		}
	}
	run("lists and choices of many entries", gs)
	gs = nil
	for i, w := range ws {
		for _, d := range append(upTo(c.tier(12, 40))[3:], 16, 17, 24, 25, 31, 32, 33, 40, 64, 65, 70) {
			m := ls[0]
			for j := 0; j < d; j++ {
				if j%2 == 1 {
					m = ws[(i+d)%len(ws)].f(m)
				} else {
					m = w.f(m)
				}
			}
			gs = append(gs, group(m, 0))
		}
	}
	run("many constructs inside each other", gs)
	if c.Thorough {
		for _, x := range ws {
			gs = nil
			for _, u := range ws {
				for _, v := range ws {
					for _, w := range ws {
						gs = append(gs, group(x.f(u.f(v.f(w.f(ls[0])))), 0))
					}
				}
			}
			run("4 constructs around a name, the outermost "+x.name, gs)
		}
	}
}

// exploreBytes: byte-level words, fed to the parser.
func exploreBytes(c *Ctx, op string) {
	c.Enum("all 2-byte sources", op, 65536, func(i int64, b []byte) []byte { return append(b, byte(i), byte(i>>8)) })
	c.Enum("all 2-byte rule values", op, 65536, func(i int64, b []byte) []byte { return append(append(b, "a="...), byte(i), byte(i>>8)) })
	c.Words("all 3-symbol words", op, lexSyms, 3, "", "", "")
	c.Words("all 3-symbol rule values", op, lexSyms, 3, "a = ", "", "")
	// deep nesting and long chains
	var l []string
	for _, u := range []struct{ open, mid, close string }{{"(", "int", ")"}, {"[", "int", "]"}, {"{", "int", "}"}, {"#6.1(", "int", ")"}, {"? ", "int", ""}, {"* ", "int", ""}, {"1*2 ", "int", ""}, {"~", "a", ""}, {"& ", "a", ""}, {"int / ", "int", ""}, {"int // ", "int", ""}, {"k : ", "int", ""}, {"(k : [ ? ", "int", "])"}, {"1 .. ", "2", ""}, {"tstr .size ", "1", ""}, {";c\n", "int", ""}, {"int, ", "int", ""}, {"\"t\" ", "int", ""}, {"b = int ", "", ""}} {
		for _, n := range append(upTo(c.tier(40, 130)), 100, c.tier(300, 1000), c.tier(500, 5000)) {
			for _, cut := range []int{0, 1, n} {
				l = append(l, "a = "+strings.Repeat(u.open, n)+u.mid+strings.Repeat(u.close, n-min(cut, n)), "a = ["+strings.Repeat(u.open, n)+u.mid+strings.Repeat(u.close, n-min(cut, n))+"]")
			}
		}
	}
	c.List("deep nestings and long chains, closed or cut", op, l)
}

// exploreLexErrors puts every kind of lexical error at every gap of the rich schemas.
func exploreLexErrors(c *Ctx, op string) {
	var l []string
	bad := []string{"!", "\xff", "é", "\x00", "\\", "%", ".foo", ".siz", "\"u\n", "\"\n", "'", "�", "\uFEFF", "\u00a0"}
	for _, p := range rich() {
		for i := 0; i <= len(p.toks); i++ {
			for _, b := range bad {
				for _, sp := range []string{" ", "\n", ""} {
					t := strings.Join(p.toks[:i], " ") + sp + b + sp + strings.Join(p.toks[i:], " ")
					l = append(l, t)
				}
			}
			l = append(l, strings.Join(p.toks[:i], " ")+" \"u", strings.Join(p.toks[:i], " ")+" \"", strings.Join(p.toks[:i], " ")+" .foo")
		}
	}
	c.List("every lexical error at every gap of the rich schemas", op, l)
	// texts that are not closed: every last bytes, every way to end the line
	ends := []string{"", "\n", "\r\n", "\n\n", "\r\n\"", "\n\" = int", "\r\nb = int\r\n"}
	pres := []string{"a = ", "a = [ ", "a = \"t\" / ", "a = { k : ", "a = tstr .regexp ", "", "a = int ", "a = ;c\n"}
	last := int64(257 * 257)
	c.Enum("open texts: every last two bytes, 7 line ends, 8 contexts", op, last*int64(len(ends)*len(pres)), func(i int64, b []byte) []byte {
		b = append(append(b, pres[i%int64(len(pres))]...), '"')
		i /= int64(len(pres))
		e := ends[i%int64(len(ends))]
		i /= int64(len(ends))
		for _, x := range []int64{i % 257, i / 257} {
			if x == '"' || x == '\n' {
				return nil
			}
			if x < 256 {
				b = append(b, byte(x))
			}
		}
		return append(b, e...)
	})
	// a lexical error anywhere in a long file, and many of them
	var m []string
	for _, n := range append(upTo(c.tier(62, 130)), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 999, 1000, 1001, 1024, 4096) {
		for _, x := range []string{"!", ".foo", "\"u\n", "\xff", "\"u\r\n"} {
			r := strings.Repeat("r = int\n", n)
			m = append(m, r+"b = "+x, strings.Repeat("\n", n)+"b = int "+x, strings.Repeat(";c\n", n)+x, "b = "+x+" "+r, strings.Repeat(x+" ", n), "b = ["+strings.Repeat("int, ", n)+x+"]", "b = int ;"+strings.Repeat("c", n)+"\n"+x, "b = "+strings.Repeat(" ", n)+x+" int", "b = \""+strings.Repeat("t", n)+"\""+x)
		}
	}
	c.List("lexical errors behind and before long texts, and repeated", op, m)
}

// exploreFiles: several rules in sequence, all assignment forms.
func exploreFiles(c *Ctx, op string) {
	vals := []*M{typ("int"), num("7"), txt("t"), id("x"), mk("group", "", mk("entry", ":", id("k"), typ("int"))), mk("array", "", typ("int"), typ("tstr")), mk("choice/", "", id("x"), num("1")), mk("range", "..", num("1"), num("2")), mk("tag", "6.1"), mk("unwrap", "", id("g")), mk("enum", "", id("g")), mk("choice//", "", id("x"), id("g")), mk("map", "", mk("occ", "*", mk("entry", "=>", id("k"), typ("int")))), mk("ctl", ".lt", typ("int"), num("5"))}
	as := []string{"=", "/=", "//="}
	nv, na := int64(len(vals)), int64(len(as))
	one := nv * na
	c.Enum("all files of three rules (14 values, 3 assignments)", op, one*one*nv, func(i int64, b []byte) []byte {
		m := mk("file", "")
		for _, nm := range []string{"r1", "r2", "r3"} {
			v := vals[i%nv]
			i /= nv
			a := "="
			if nm != "r3" {
				a = as[i%na]
				i /= na
			}
			m.C = append(m.C, mk("rule", a, id(nm), v))
		}
		m.C = append(m.C, support()...)
		return withTree(printFile(m, 0), b, false, spaces)
	})
}

func parseWith(src []byte, e *env.Environment) (*ast.CDDL, parser.ErrorList) {
	return parser.NewParser(lexer.NewLexer(src), parser.WithEnv(e)).ParseFile()
}

func newEnv() *env.Environment { return env.NewEnvironment() }
