package main

// Model of CDDL schemas over the documented constructs: every schema up to a size is generated
// from the grammar, printed with a chosen comma style and layout, and carries the tree the
// grammar gives it.

import (
	"strings"

	"github.com/HannesKimara/cddlc/token"
)

// M is a model node. K is the construct, V its value or operator, C its parts.
//
//	leaf: type/id/int/float/text/bool (V = spelling, W = value when it differs)
//	group array map; entry (V separator; C[0] key, C[1] value); opt; occ (V spelling)
//	choice/ choice//; range; ctl; tag (V spelling); unwrap; enum; rule (V assign; C[0] name, C[1] value); file
type M struct {
	K, V, W string
	C       []*M
	size    int
}

func mk(k, v string, c ...*M) *M {
	m := &M{K: k, V: v, C: c, size: 1}
	for _, x := range c {
		m.size += x.size
	}
	return m
}
func leaf(k, v string) *M { return &M{K: k, V: v, size: 1} }

// ptok is a printed token; glue says it must not be separated from the previous one.
type printer struct {
	toks  []string
	style int          // 0: commas, 1: no commas, 2: commas and trailing comma
	gaps  map[int]bool // gaps (index of the following token) inside a tag head or occurrence indicator
	ends  map[*N]int   // index after the last token of each node
}

func (p *printer) put(s string) int { p.toks = append(p.toks, s); return len(p.toks) - 1 }

// print emits tokens and returns the expected tree; P.Offset holds the index of the first token.
func (p *printer) print(m *M) *N {
	n := &N{K: m.K, V: m.V}
	defer func() {
		if p.ends != nil {
			p.ends[n] = len(p.toks)
		}
	}()
	n.P.Offset = len(p.toks)
	kid := func(c *M) { n.C = append(n.C, p.print(c)) }
	switch m.K {
	case "file":
		for _, c := range m.C {
			kid(c)
		}
	case "rule":
		kid(m.C[0])
		p.put(m.V)
		n.V = ""
		kid(m.C[1])
	case "type", "id", "int", "float", "bool":
		p.put(m.V)
		if m.W != "" {
			n.V = m.W
		}
	case "text":
		p.put(`"` + m.V + `"`)
	case "group", "array", "map":
		br := map[string]string{"group": "()", "array": "[]", "map": "{}"}[m.K]
		p.put(br[:1])
		p.items(m.C, n)
		p.put(br[1:])
	case "entry":
		kid(m.C[0])
		n.C[0].K = "id" // integer keys appear as names
		p.put(m.V)
		n.V = ""
		kid(m.C[1])
	case "opt":
		p.put("?")
		kid(m.C[0])
	case "occ":
		lo, op, hi := splitOcc(m.V)
		if lo != "" {
			n.X = append(n.X, token.Position{Offset: p.put(lo)})
			p.gaps[len(p.toks)] = true
		}
		p.put(op)
		if hi != "" {
			p.gaps[len(p.toks)] = true
			n.X = append(n.X, token.Position{Offset: p.put(hi)})
		}
		n.V = occValue(m.V)
		kid(m.C[0])
	case "choice/", "choice//":
		for i, c := range m.C {
			if i > 0 {
				p.put(m.K[6:])
			}
			kid(c)
		}
		n.V = ""
	case "range", "ctl":
		kid(m.C[0])
		p.put(m.V)
		kid(m.C[1])
	case "tag":
		p.put("#")
		if m.V != "" {
			p.gaps[len(p.toks)] = true
			n.X = append(n.X, token.Position{Offset: p.put(m.V)})
		}
		if len(m.C) > 0 {
			p.gaps[len(p.toks)] = true
			p.put("(")
			kid(m.C[0])
			p.put(")")
		}
	case "unwrap":
		p.put("~")
		kid(m.C[0])
	case "enum":
		p.put("&")
		kid(m.C[0])
	default:
		panic("print " + m.K)
	}
	return n
}

// items prints group members, with commas as the style says.
func (p *printer) items(cs []*M, n *N) {
	for i, c := range cs {
		n.C = append(n.C, p.print(c))
		last := i == len(cs)-1
		switch {
		case p.style == 2, p.style == 0 && !last:
			p.put(",")
		case p.style == 1 && !last && needsComma(c, cs[i+1]):
			p.put(",")
		}
	}
}

// needsComma: without a comma the two entries would read as something else.
func needsComma(a, b *M) bool {
	for a.K == "choice//" || a.K == "choice/" || a.K == "entry" || a.K == "opt" || a.K == "occ" || a.K == "range" || a.K == "ctl" {
		a = a.C[len(a.C)-1]
	}
	first := firstTok(b)
	if a.K == "int" && (first == "*" || first == "+") {
		return true // 1 * x
	}
	if a.K == "tag" && len(a.C) == 0 {
		return true // #6 (..), # 6
	}
	return false
}

func firstTok(m *M) string {
	p := &printer{gaps: map[int]bool{}}
	p.print(m)
	return p.toks[0]
}

func splitOcc(v string) (lo, op, hi string) {
	i := strings.IndexAny(v, "*+")
	return v[:i], v[i : i+1], v[i+1:]
}

func occValue(v string) string {
	lo, op, hi := splitOcc(v)
	if lo == "" {
		lo = "0"
		if op == "+" {
			lo = "1"
		}
	}
	if hi == "" {
		hi = "inf"
	}
	return lo + ".." + hi
}

// printed is one concrete schema.
type printed struct {
	toks []string
	tree *N
	gaps map[int]bool
}

func printFile(m *M, style int) *printed {
	p := &printer{style: style, gaps: map[int]bool{}}
	t := p.print(m)
	return &printed{p.toks, t, p.gaps}
}

// src joins the tokens with single spaces; tag heads and occurrence indicators stay in one piece.
func (p *printed) src() string { s, _ := p.text(spaces); return s }

// lay joins tokens with sep(i) before token i and sets real positions in the expected tree.
func (p *printed) lay(sep func(i int) string) (string, *N) {
	s, offs := p.text(sep)
	at := make([]token.Position, len(offs)) // offsets ascend
	line, start, k := 1, 0, 0
	for i, o := range offs {
		for ; k < o; k++ {
			if s[k] == '\n' {
				line, start = line+1, k+1
			}
		}
		at[i] = token.Position{Offset: o, Line: line, Column: o - start + 1}
	}
	return s, place2(p.tree, at)
}

// alignModes is the number of layouts of alignSep.
const alignModes = 10

// alignSep puts tokens on lines of their own, each in a column related to the start or the end of the
// token before it: below its start, one to the left or right of that, below its end or one to the right;
// modes above 4 do so for every other token only.
func (p *printed) alignSep(mode int) func(i int) string {
	seps := make([]string, len(p.toks))
	col, start, w := 0, 0, 0
	for i, t := range p.toks {
		switch {
		case p.gaps[i]:
		case mode >= 5 && (i+mode)%2 == 0:
			if i > 0 {
				seps[i] = " "
				col++
			}
		default:
			if i > 0 || mode == 5 {
				at := max([]int{start, start + 1, start - 1, start + w, start + w + 1}[mode%5], 0)
				seps[i] = "\n" + strings.Repeat(" ", at)
				col = at
			}
		}
		start, w = col, len(t)
		col += w
	}
	return func(i int) string { return seps[i] }
}

// text prints the tokens and says where each stands.
func (p *printed) text(sep func(i int) string) (string, []int) {
	var b strings.Builder
	offs := make([]int, len(p.toks))
	for i, t := range p.toks {
		if !p.gaps[i] {
			b.WriteString(sep(i))
		}
		offs[i] = b.Len()
		b.WriteString(t)
	}
	return b.String(), offs
}

func place2(n *N, at []token.Position) *N {
	m := &N{K: n.K, V: n.V}
	if n.P.Offset < len(at) {
		m.P = at[n.P.Offset]
	}
	for _, x := range n.X {
		m.X = append(m.X, at[x.Offset])
	}
	for _, c := range n.C {
		m.C = append(m.C, place2(c, at))
	}
	return m
}

// ---- generation ----

type gen struct {
	leaves []*M // single-node types
	atoms  []*M // ranges, controls, bare tags, unwraps, enums: fixed small phrases
	keys   []*M
	seps   []string
	occs   []string
	boxes  []string // group array map
	tags   []string
	memo   map[string][]*M
}

func newGen(leaves, atoms, keys []*M, seps, occs, boxes, tags []string) *gen {
	return &gen{leaves, atoms, keys, seps, occs, boxes, tags, map[string][]*M{}}
}

func key(k string, n int) string { return k + string(rune('0'+n)) }

// type1 of exactly size n
func (g *gen) type1(n int) []*M {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[key("t", n)]; ok {
		return r
	}
	var r []*M
	if n == 1 {
		r = append(r, g.leaves...)
		r = append(r, g.atoms...)
	}
	if n == 1 {
		for _, b := range g.boxes {
			r = append(r, &M{K: b, size: 1})
		}
	}
	if n >= 2 {
		for _, b := range g.boxes {
			for _, body := range g.body(n - 1) {
				r = append(r, &M{K: b, C: body, size: n})
			}
		}
		for _, t := range g.tags {
			for _, c := range g.choice(n - 1) {
				r = append(r, &M{K: "tag", V: t, C: []*M{c}, size: n})
			}
		}
		for _, b := range []string{"enum"} {
			for _, body := range g.body(n - 2) {
				if len(g.boxes) > 0 && g.boxes[0] == "group" {
					r = append(r, &M{K: b, C: []*M{{K: "group", C: body, size: n - 1}}, size: n})
				}
			}
		}
	}
	g.memo[key("t", n)] = r
	return r
}

// choice: a type or a / chain of total size n (the chain itself counts nothing)
func (g *gen) choice(n int) []*M {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[key("c", n)]; ok {
		return r
	}
	r := append([]*M{}, g.type1(n)...)
	for _, seq := range g.seqs(n, 2, g.type1) {
		r = append(r, &M{K: "choice/", C: seq, size: n})
	}
	g.memo[key("c", n)] = r
	return r
}

// seqs: sequences of at least min parts with total size n
func (g *gen) seqs(n, min int, f func(int) []*M) [][]*M {
	var r [][]*M
	if min <= 1 {
		for _, a := range f(n) {
			r = append(r, []*M{a})
		}
	}
	for k := 1; k < n; k++ {
		m := min - 1
		if m < 1 {
			m = 1
		}
		for _, a := range f(k) {
			for _, rest := range g.seqs(n-k, m, f) {
				r = append(r, append([]*M{a}, rest...))
			}
		}
	}
	return r
}

func (g *gen) keyed(n int) []*M {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[key("k", n)]; ok {
		return r
	}
	r := append([]*M{}, g.choice(n)...)
	for _, k := range g.keys {
		for _, s := range g.seps {
			for _, v := range g.choice(n - 1) {
				r = append(r, &M{K: "entry", V: s, C: []*M{k, v}, size: n})
			}
		}
	}
	g.memo[key("k", n)] = r
	return r
}

func (g *gen) entry(n int) []*M {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[key("e", n)]; ok {
		return r
	}
	r := append([]*M{}, g.keyed(n)...)
	for _, o := range g.occs {
		for _, v := range g.keyed(n - 1) {
			if o == "?" {
				r = append(r, &M{K: "opt", C: []*M{v}, size: n})
			} else {
				r = append(r, &M{K: "occ", V: o, C: []*M{v}, size: n})
			}
		}
	}
	g.memo[key("e", n)] = r
	return r
}

// item: an entry or a // chain of entries
func (g *gen) item(n int) []*M {
	if n <= 0 {
		return nil
	}
	if r, ok := g.memo[key("i", n)]; ok {
		return r
	}
	r := append([]*M{}, g.entry(n)...)
	for _, seq := range g.seqs(n, 2, g.entry) {
		r = append(r, &M{K: "choice//", C: seq, size: n})
	}
	g.memo[key("i", n)] = r
	return r
}

func (g *gen) body(n int) [][]*M {
	var r [][]*M
	for _, seq := range g.seqs(n, 1, g.item) {
		if len(seq) > 1 {
			bad := false
			for _, s := range seq {
				bad = bad || s.K == "choice//" // alternatives of several entries: see DESIGN.md
			}
			if bad {
				continue
			}
		}
		r = append(r, seq)
	}
	return r
}

// value of a rule: a choice, or a // chain of choices
func (g *gen) value(n int) []*M {
	r := append([]*M{}, g.choice(n)...)
	for _, seq := range g.seqs(n, 2, g.choice) {
		r = append(r, &M{K: "choice//", C: seq, size: n})
	}
	return r
}

func sp(m *M) *M { // a fixed phrase counts as one node
	c := *m
	c.size = 1
	return &c
}

func typ(s string) *M { return leaf("type", s) }
func id(s string) *M  { return leaf("id", s) }
func num(s string) *M { return leaf("int", s) }
func flt(s, v string) *M {
	m := leaf("float", s)
	m.W = v
	return m
}
func txt(s string) *M     { return leaf("text", s) }
func boo(s string) *M     { return leaf("bool", s) }
func hexn(s, v string) *M { m := num(s); m.W = v; return m }

var allTypes = []string{"int", "uint", "nint", "float", "float16", "float32", "float64", "tstr", "text", "bstr", "bytes", "bool", "null", "nil"}

// support defines the names the generated schemas use; appended to every schema.
func support() []*M {
	return []*M{
		mk("rule", "=", id("x"), typ("tstr")),
		mk("rule", "=", id("n"), num("3")),
		mk("rule", "=", id("k"), typ("uint")),
		mk("rule", "=", id("fp"), flt("8.5", "8.5")),
		mk("rule", "=", id("g"), mk("group", "", mk("entry", ":", id("q"), typ("int")))),
	}
}

// allAtoms: every fixed phrase once.
func allAtoms() []*M {
	l := []*M{
		mk("range", "..", num("1"), num("2")), mk("range", "...", num("0"), hexn("0x1F", "31")), mk("range", "..", flt("1.5", "1.5"), flt("2.25", "2.25")),
		mk("range", "..", id("n"), num("9")), mk("range", "...", num("1"), id("n")), mk("range", "..", id("n"), id("n")),
		mk("ctl", ".size", typ("bstr"), num("4")), mk("ctl", ".size", typ("bytes"), num("4")), mk("ctl", ".size", typ("uint"), num("4")), mk("ctl", ".size", typ("tstr"), id("n")),
		mk("ctl", ".size", typ("bstr"), mk("group", "", mk("range", "..", num("1"), num("63")))),
		mk("ctl", ".regexp", typ("tstr"), txt("[a-z]+")), mk("ctl", ".regexp", typ("text"), id("x")),
		mk("ctl", ".bits", typ("bstr"), id("g")), mk("ctl", ".bits", typ("uint"), id("g")),
		mk("tag", "6.32"), mk("tag", "6"), mk("unwrap", "", id("g")), mk("enum", "", id("g")),
	}
	for _, op := range []string{".lt", ".le", ".gt", ".ge", ".eq", ".ne"} {
		l = append(l, mk("ctl", op, typ("int"), num("5")), mk("ctl", op, typ("uint"), id("n")), mk("ctl", op, typ("float"), flt("2.5", "2.5")))
	}
	for i := range l {
		l[i] = sp(l[i])
	}
	return l
}

func allLeaves() []*M {
	var l []*M
	for _, t := range allTypes {
		l = append(l, typ(t))
	}
	return append(l, id("x"), id("g"), id("$sock"), id("$$plug"), num("7"), hexn("0x1F", "31"), hexn("0b101", "5"), hexn("0o17", "15"), flt("1.5", "1.5"), txt("t"), txt(""), boo("true"), boo("false"))
}

// genSets: alphabets from wide and shallow to narrow and deep.
type genSet struct {
	name  string
	g     *gen
	depth int
}

func genSets(thorough bool) []genSet {
	d := func(q, t int) int {
		if thorough {
			return t
		}
		return q
	}
	all := func() *gen {
		return newGen(allLeaves(), allAtoms(), []*M{id("k"), num("1")}, []string{":", "=>"}, []string{"?", "*", "+", "2*", "*3", "2*5", "0*0"}, []string{"group", "array", "map"}, []string{"6.32", "6"})
	}
	mid := func() *gen {
		return newGen([]*M{typ("int"), id("x"), num("7")}, []*M{sp(mk("range", "..", num("1"), num("2"))), sp(mk("ctl", ".size", typ("tstr"), num("4"))), sp(mk("unwrap", "", id("g")))}, []*M{id("k")}, []string{":"}, []string{"?", "*", "2*3"}, []string{"group", "array"}, []string{"6.1"})
	}
	small := func() *gen {
		return newGen([]*M{id("x"), num("7")}, []*M{sp(mk("unwrap", "", id("g")))}, []*M{id("k")}, []string{":"}, []string{"*"}, []string{"group"}, nil)
	}
	tiny := func() *gen {
		return newGen([]*M{id("x")}, nil, []*M{id("k")}, []string{":"}, []string{"?"}, []string{"group"}, nil)
	}
	return []genSet{{"all constructs", all(), d(2, 3)}, {"mid alphabet", mid(), d(4, 4)}, {"small alphabet", small(), d(5, 6)}, {"tiny alphabet", tiny(), d(6, 8)}}
}

// files wraps a rule value into a complete file.
func fileOf(v *M, assign string) *M {
	return mk("file", "", append([]*M{mk("rule", assign, id("r"), v)}, support()...)...)
}
