package main

// C14: the symbol table as a write-once map (explicit-state exploration of the map model, every
// history replayed on the implementation), and first-definition-wins in files and sessions.

import (
	"bytes"
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/HannesKimara/cddlc/ast"
	env "github.com/HannesKimara/cddlc/environment"
	"github.com/HannesKimara/cddlc/token"
)

// an environment operation is one byte: env(1 bit) | kind(2 bits) | name(2 bits) | value(1 bit)
var envNames = []string{"a", "b", "", "$a"}

type envModel [2]map[int]int

func (m *envModel) clone() envModel {
	var r envModel
	for i := range m {
		r[i] = map[int]int{}
		for k, v := range m[i] {
			r[i][k] = v
		}
	}
	return r
}

func (m *envModel) key() string { return fmt.Sprint(m[0], m[1]) }

// step returns what the operation must answer: added/refused, exists, value index (-1 none)
func (m *envModel) step(op byte) (int, bool) {
	e, kind, name, val := int(op&1), int(op>>1&3), int(op>>3&3), int(op>>5&1)
	cur, ok := m[e][name]
	switch kind {
	case 0:
		if ok {
			return 0, false
		}
		m[e][name] = val
		return 0, true
	case 1:
		return 0, ok
	default:
		if !ok {
			return -1, false
		}
		return cur, true
	}
}

// envPals: the values under several readings, which must make no difference: distinct texts, names of
// each other and of undefined names, equal nodes at one place, none, and nodes of every kind.
var envPals = [6][2][4][2]ast.Node{}

func init() {
	for p := range envPals {
		for e := range envPals[p] {
			for n := range envPals[p][e] {
				for v := range envPals[p][e][n] {
					pos := token.Position{Offset: n*8 + v, Line: 1 + n, Column: 1 + v}
					id := func(s string) ast.Node { return &ast.Identifier{Pos: pos, Name: s} }
					var x ast.Node
					switch p {
					case 0:
						x = &ast.TextLiteral{Token: token.TEXT_LITERAL, Literal: fmt.Sprintf("%d.%d.%d", e, n, v)}
					case 1:
						x = id(envNames[(n+v)%4])
					case 2:
						x = id("undefined")
					case 3:
						x = &ast.IntegerLiteral{Token: token.INT, Literal: 1}
					case 4: // names without a value
						if v == 1 {
							x = (*ast.Identifier)(nil)
						}
					default:
						x = []ast.Node{&ast.Group{Pos: pos}, &ast.TstrType{Pos: pos}, &ast.TypeChoice{Pos: pos, First: id("a"), Second: id("b")}, &ast.FloatLiteral{}, &ast.Range{Pos: pos, From: id("b"), To: id("a")}, &ast.Map{Pos: pos}, &ast.BooleanLiteral{}, &ast.Enumeration{Pos: pos, Value: id("a")}}[n*2+v]
					}
					envPals[p][e][n][v] = x
				}
			}
		}
	}
}

func opC14env(in []byte) (bool, *Fail) {
	for p := range envPals {
		if nt, f := c14env(in, &envPals[p]); f != nil {
			f.Msg = fmt.Sprintf("values of kind %d: %s", p, f.Msg)
			return nt, f
		}
	}
	return true, nil
}

func c14env(in []byte, envVals *[2][4][2]ast.Node) (bool, *Fail) {
	m := envModel{map[int]int{}, map[int]int{}}
	es := [2]*env.Environment{env.NewEnvironment(), env.NewEnvironment()}
	do := func(op byte, i int) *Fail {
		e, kind, name, val := int(op&1), int(op>>1&3), int(op>>3&3), int(op>>5&1)
		want, wok := m.step(op)
		n := envNames[name]
		switch kind {
		case 0:
			err := es[e].Add(n, envVals[e][name][val])
			if (err == nil) != wok {
				return failf("operation %d of %v: Add(%q) gave %v, want accepted=%v", i, in, n, err, wok)
			}
			if err != nil && err != env.ErrSymbolExists {
				return failf("operation %d of %v: Add(%q) refused with %v", i, in, n, err)
			}
		case 1:
			if got := es[e].Exists(n); got != wok {
				return failf("operation %d of %v: Exists(%q)=%v, want %v", i, in, n, got, wok)
			}
		default:
			got := es[e].Get(n)
			if !wok {
				if !isNil(got) {
					return failf("operation %d of %v: Get(%q)=%v, want nothing", i, in, n, got)
				}
			} else if got != envVals[e][name][want] {
				return failf("operation %d of %v: Get(%q)=%v, want value %d", i, in, n, got, want)
			}
		}
		return nil
	}
	for i, op := range in {
		if f := do(op, i); f != nil {
			return true, f
		}
	}
	for e := byte(0); e < 2; e++ { // the final state, completely
		for n := byte(0); n < 4; n++ {
			if f := do(e|1<<1|n<<3, len(in)); f != nil {
				return true, f
			}
			if f := do(e|2<<1|n<<3, len(in)); f != nil {
				return true, f
			}
		}
	}
	return true, nil
}

// opC14sess: sources separated by NUL; every definition's value is a text literal naming it or a
// construct containing it, so that the kept definition can be told.
func opC14sess(in []byte) (bool, *Fail) {
	e := env.NewEnvironment()
	first := map[string]string{}
	any := false
	for si, src := range bytes.Split(in, []byte{0}) {
		tree, errs := parseWith(src, e)
		_ = tree
		// the reference reading of the source: NAME OP VALUE [WORD ...] rules on separate lines
		var wantDup []int
		off := 0
		for _, line := range strings.SplitAfter(string(src), "\n") {
			f := strings.Fields(line)
			if len(f) >= 3 && !strings.Contains(line, "!!") {
				name, op, val := f[0], f[1], f[2]
				if val[0] != '"' && val[0] != 't' {
					val = f[3]
				}
				if _, dup := first[name]; dup {
					any = true
					if op == "=" {
						wantDup = append(wantDup, off)
					}
				} else {
					first[name] = strings.Trim(val, `"`)
				}
			}
			off += len(line)
		}
		bad := bytes.Contains(src, []byte("!!"))
		if bad {
			if len(errs) == 0 {
				return true, failf("source %d (%q) is malformed and accepted", si, src)
			}
		} else {
			got := map[int]int{}
			for _, d := range errs {
				got[d.Start().Offset]++
			}
			if len(errs) != len(wantDup) {
				return true, failf("session %q: source %d has %d repeated definitions, %d diagnostics: %s", in, si, len(wantDup), len(errs), errString(errs))
			}
			for _, o := range wantDup {
				if got[o] != 1 {
					return true, failf("session %q: source %d: the repeated definition at offset %d is reported %d times: %s", in, si, o, got[o], errString(errs))
				}
			}
		}
		names := []string{"a", "b", "c", "$s"}
		for n := range first {
			if len(first) > 4 || !strings.Contains("a b c $s", n) {
				names = append(names, n)
			}
		}
		for _, n := range names {
			w, ok := first[n]
			if e.Exists(n) != ok {
				return true, failf("session %q after source %d: Exists(%s)=%v, want %v", in, si, n, e.Exists(n), ok)
			}
			v := e.Get(n)
			if !ok {
				if !isNil(v) {
					return true, failf("session %q after source %d: %s has a value", in, si, n)
				}
				continue
			}
			if got := canon(v).String(); !strings.Contains(got, `text="`+w+`"`) && !strings.Contains(got, `id="`+w+`"`) {
				return true, failf("session %q after source %d: %s maps to %s, want the definition with %q", in, si, n, got, w)
			}
		}
	}
	return any, nil
}

// opC14keep: a separator (a line break or NUL, which starts another source), then definitions of nm
// and om, one per field: every = after the first definition of a name is reported at its name, once,
// nothing else is, and each name keeps its first definition.
func opC14keep(in []byte) (bool, *Fail) {
	if len(in) < 2 {
		return false, nil
	}
	defs := strings.Split(string(in[1:]), "\x01")
	var srcs []string
	type rep struct{ src, off int }
	want := map[rep]bool{}
	first := map[string][2]int{} // source and offset of the first definition
	for i, d := range defs {
		if i == 0 || in[0] == 0 {
			srcs = append(srcs, "")
		}
		k := len(srcs) - 1
		if srcs[k] != "" {
			srcs[k] += string(in[0])
		}
		n, rest, _ := strings.Cut(d, " ")
		if _, ok := first[n]; !ok {
			first[n] = [2]int{k, len(srcs[k])}
		} else if strings.HasPrefix(rest, "= ") {
			want[rep{k, len(srcs[k])}] = true
		}
		srcs[k] += d
	}
	e := newEnv()
	kept := map[string]string{}
	for k, s := range srcs {
		tree, errs := parseWith([]byte(s), e)
		for _, d := range errs {
			r := rep{k, d.Start().Offset}
			if !want[r] {
				return true, failf("sources %q: %q at offset %d of source %d is not due, or reported twice", srcs, d.Error(), r.off, k)
			}
			delete(want, r)
		}
		for n, f := range first {
			if f[0] != k {
				continue
			}
			for _, r := range tree.Rules {
				if ru, ok := r.(*ast.Rule); ok && ru.Name.Name == n && ru.Name.Pos.Offset == f[1] {
					kept[n] = canon(ru.Value).PString()
					if v := e.Get(n); v != ru.Value {
						return true, failf("sources %q: after source %d %s maps to %v, want its first definition %s", srcs, k, n, v, kept[n])
					}
				}
			}
		}
	}
	for r := range want {
		return true, failf("sources %q: the repeated definition at offset %d of source %d is not reported", srcs, r.off, r.src)
	}
	for n := range first {
		if _, ok := kept[n]; !ok {
			return true, failf("sources %q: no rule for the first definition of %s in the tree", srcs, n)
		}
		if v := e.Get(n); isNil(v) || canon(v).PString() != kept[n] || !e.Exists(n) {
			return true, failf("sources %q: at the end %s maps to %v, want its first definition %s", srcs, n, v, kept[n])
		}
	}
	return true, nil
}

// opC14names: two names, NUL separated, in one table.
func opC14names(in []byte) (bool, *Fail) {
	a, b, ok := strings.Cut(string(in), "\x00")
	if !ok {
		return false, nil
	}
	e := env.NewEnvironment()
	va, vb := envPals[0][0][0][0], envPals[0][0][1][1]
	if err := e.Add(a, va); err != nil {
		return true, failf("adding %q to an empty table gave %v", a, err)
	}
	if e.Exists(b) != (a == b) {
		return true, failf("after adding %q: Exists(%q)=%v", a, b, e.Exists(b))
	}
	if got := e.Get(b); a != b && !isNil(got) || a == b && got != va {
		return true, failf("after adding %q: Get(%q)=%v", a, b, got)
	}
	err := e.Add(b, vb)
	if (err == nil) != (a != b) {
		return true, failf("after adding %q: adding %q gave %v", a, b, err)
	}
	if e.Get(a) != va || a != b && e.Get(b) != vb || !e.Exists(a) || !e.Exists(b) {
		return true, failf("after adding %q and %q the table holds %v and %v", a, b, e.Get(a), e.Get(b))
	}
	return true, nil
}

func init() {
	namesOp := reg("C14.names", opC14names)
	envOp := reg("C14.env", opC14env)
	sess := reg("C14.session", opC14sess)
	keep := reg("C14.keep", opC14keep)
	addCheck("C14", "model_checking", "states: contents of two write-once maps over four names and two values per name; transitions: add, exists, get; every history up to the stated length is replayed on the implementation and every answer and the complete final state compared; then every session of up to the stated number of definitions in every split into sources", func(c *Ctx) {
		// explicit-state search of the model
		ops := []byte{}
		for op := 0; op < 64; op++ {
			k := op >> 1 & 3
			if k == 3 || k != 0 && op>>5&1 == 1 {
				continue
			}
			ops = append(ops, byte(op))
		}
		init := envModel{map[int]int{}, map[int]int{}}
		seen := map[string]bool{init.key(): true}
		frontier := []envModel{init}
		trans := 0
		maxDepth := 0
		for len(frontier) > 0 {
			var next []envModel
			for _, s := range frontier {
				for _, op := range ops {
					t := s.clone()
					t.step(op)
					trans++
					if k := t.key(); !seen[k] {
						seen[k] = true
						next = append(next, t)
					}
				}
			}
			frontier = next
			maxDepth++
		}
		c.res.Extra["states"] = len(seen)
		c.res.Extra["transitions"] = trans
		c.res.Extra["depth_of_complete_state_space"] = maxDepth
		var traces atomic.Int64
		hist := func(name string, al []byte, k int) {
			b := int64(len(al))
			n := int64(1)
			for i := 0; i < k; i++ {
				n *= b
			}
			before := c.res.Evaluations
			c.Enum(name, envOp, n, func(i int64, buf []byte) []byte {
				for j := 0; j < k; j++ {
					buf = append(buf, al[i%b])
					i /= b
				}
				return buf
			})
			traces.Add(c.res.Evaluations - before)
		}
		for k := 0; k <= 3; k++ {
			hist(fmt.Sprintf("all histories of %d operations (2 tables, 4 names, 2 values)", k), ops, k)
		}
		if c.Thorough {
			hist("all histories of 4 operations (2 tables, 4 names, 2 values)", ops, 4)
		}
		var small []byte // one table, 2 names
		for _, op := range ops {
			if op&1 == 0 && op>>3&3 < 2 {
				small = append(small, op)
			}
		}
		hist(fmt.Sprintf("all histories of %d operations (1 table, 2 names, 2 values)", c.tier(6, 7)), small, c.tier(6, 7))
		// every model state is entered by every transition once: a path to each state, then each operation
		var paths [][]byte
		type node struct {
			m envModel
			p []byte
		}
		seen2 := map[string]bool{init.key(): true}
		q := []node{{init, nil}}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, op := range ops {
				t := x.m.clone()
				t.step(op)
				p := append(append([]byte{}, x.p...), op)
				paths = append(paths, p)
				if k := t.key(); !seen2[k] {
					seen2[k] = true
					q = append(q, node{t, p})
				}
			}
		}
		before := c.res.Evaluations
		c.Enum("every transition of the complete state space, replayed", envOp, int64(len(paths)), func(i int64, b []byte) []byte { return append(b, paths[i]...) })
		traces.Add(c.res.Evaluations - before)
		// spellings
		pn := append(append(shortNames(c.tier(2, 3)), wordNames()...), "", " ", "a ", " a", "\t", "é", "É", "e\u0301", "\xff", "a\n", "int", "INT", "ſ", "K", "k", "İ", "ß", "ss")
		np := int64(len(pn))
		before0 := c.res.Evaluations
		c.Enum(fmt.Sprintf("all pairs of %d spellings in one table", np), namesOp, np*np, func(i int64, b []byte) []byte {
			return append(append(append(b, pn[i%np]...), 0), pn[i/np]...)
		})
		traces.Add(c.res.Evaluations - before0)
		sp := append(shortNames(2), wordNames()...)
		ns := int64(len(sp))
		c.Enum(fmt.Sprintf("all pairs of %d spellings as rules, in one source and in two", ns), sess, ns*ns*2, func(i int64, b []byte) []byte {
			return append(b, fmt.Sprintf("%s = \"0\"%s%s = [ \"1\" ]\n", sp[i%ns], []string{"\n", "\x00"}[i/ns/ns], sp[i/ns%ns])...)
		})
		en := editNames(c.Thorough)
		ne := int64(len(en))
		c.Enum(fmt.Sprintf("%d pairs of a name and a neighbour of its spelling in one table", ne), namesOp, ne*2, func(i int64, b []byte) []byte {
			p := en[i/2]
			return append(append(append(b, p[i%2]...), 0), p[1-i%2]...)
		})
		c.Enum(fmt.Sprintf("%d pairs of a name and a neighbour of its spelling as rules", ne), sess, ne*2, func(i int64, b []byte) []byte {
			p := en[i/2]
			return append(b, fmt.Sprintf("%s = \"0\"%s%s = [ \"1\" ]\n", p[i%2], []string{"\n", "\x00"}[i/2%2], p[1-i%2])...)
		})
		// every kind of value, defined first and again
		var kv []string
		for _, m := range append(append(append(append([]*M{}, allLeaves()...), allAtoms()...), richModels()...), shapeVals()...) {
			if s := printFile(mk("file", "", mk("rule", "=", id("q"), m)), 0).src(); !strings.Contains(s, "zz") {
				kv = append(kv, strings.TrimPrefix(s, "q = "))
			}
		}
		var sup []string
		for _, r := range support() {
			sup = append(sup, printFile(mk("file", "", r), 0).src())
		}
		nk := int64(len(kv))
		as := []string{"=", "/=", "//="}
		c.Enum(fmt.Sprintf("%d kinds of value defined, then any of them again, every assignment, in one source and in two", nk), keep, nk*nk*18, func(i int64, b []byte) []byte {
			v, w := kv[i%nk], kv[i/nk%nk]
			i /= nk * nk
			b = append(b, "\n\x00"[i&1])
			i >>= 1
			b = append(append(b, strings.Join(sup, "\x01")...), 1)
			return append(b, "nm "+as[i%3]+" "+v+"\x01nm "+as[i/3]+" "+w...)
		})
		dn := append(upTo(c.tier(70, 300)), 127, 128, 129, 255, 256, 257, 1000, 1025, 4100, 66000)
		dv := []string{"int", `"t"`, "[ int ]", "( k : int )", "7", "tstr / int", "om"}
		c.Enum(fmt.Sprintf("up to %d definitions of one or two names again, on one line, on lines and in sources of their own", dn[len(dn)-1]), keep, int64(len(dn)*len(dv))*12, func(i int64, b []byte) []byte {
			n := dn[i%int64(len(dn))]
			i /= int64(len(dn))
			v := dv[i%int64(len(dv))]
			i /= int64(len(dv))
			if n > 5000 && (i%3 == 2 || v != dv[0]) {
				return nil
			}
			b = append(b, " \n\x00"[i%3])
			b = append(b, "om = 5\x01nm = "...)
			b = append(b, v...)
			for j := 0; j < n; j++ {
				w, a := "nm", "="
				if i/3&1 == 1 && j%2 == 1 {
					w = "om"
				}
				if i/6 == 1 && j%3 == 1 {
					a = as[1+j/3%2]
				}
				b = append(b, 1)
				b = append(b, w+" "+a+" "+dv[j%len(dv)]...)
			}
			return b
		})
		forms := []string{"name%d", "$name%d", "$$name%d", "n.%d-x", "@n_%d", "n%d" + strings.Repeat("y", 40), "$$" + strings.Repeat("y", 70) + "%d"}
		for _, m := range []int{30, 300, 3000, 20000} { // many names, one defined twice
			m, spots := m, int64(20)
			if m > 3000 {
				spots = 3
			}
			c.Enum(fmt.Sprintf("sessions of %d names of %d forms, one of them defined again", m, len(forms)), sess, spots*2*int64(len(forms))*3, func(i int64, b []byte) []byte {
				spot, two := i%spots, i/spots%2
				i /= spots * 2
				f, as := forms[i%int64(len(forms))], []string{"=", "/=", "//="}[i/int64(len(forms))]
				for k := 0; k < m; k++ {
					b = append(b, fmt.Sprintf(f+" = \"%d\"\n", k, k)...)
				}
				if two > 0 {
					b = append(b, 0)
				}
				n := int(spot) * (m - 1) / int(spots-1)
				b = append(b, fmt.Sprintf(f+" "+as+" \"again\"\n", n)...)
				return append(b, fmt.Sprintf(f+" = \"again\"\n", n)...)
			})
		}
		// sessions
		vals := []string{`"%d"`, `[ "%d" ]`, `( "%d" )`}
		ases := []string{"=", "/=", "//="}
		for n := 1; n <= c.tier(5, 6); n++ {
			nv, nn := int64(len(vals)), int64(2)
			if n >= 5 {
				nv = 1
			}
			tot := int64(1)
			for i := 0; i < n; i++ {
				tot *= nv * nn * 3
			}
			tot <<= n - 1
			before := c.res.Evaluations
			c.Enum(fmt.Sprintf("all sessions of %d definitions of 2 names, every split into sources", n), sess, tot, func(i int64, b []byte) []byte {
				split := i & (1<<(n-1) - 1)
				i >>= n - 1
				for k := 0; k < n; k++ {
					name := []string{"a", "b"}[i%nn]
					i /= nn
					as := ases[i%3]
					i /= 3
					v := vals[i%nv]
					i /= nv
					b = append(b, name...)
					b = append(b, ' ')
					b = append(b, as...)
					b = append(b, ' ')
					b = append(b, fmt.Sprintf(v, k)...)
					if k < n-1 && split>>k&1 == 1 {
						b = append(b, 0)
					} else {
						b = append(b, '\n')
					}
				}
				return b
			})
			traces.Add(c.res.Evaluations - before)
		}
		for n := 1; n <= c.tier(4, 5); n++ {
			tot := int64(1)
			for i := 0; i < n; i++ {
				tot *= 12
			}
			before := c.res.Evaluations
			c.Enum(fmt.Sprintf("all sessions of %d definitions of 2 names as texts or as names of other rules, every split into sources", n), sess, tot<<(n-1), func(i int64, b []byte) []byte {
				split := i & (1<<(n-1) - 1)
				i >>= n - 1
				for k := 0; k < n; k++ {
					b = append(b, fmt.Sprintf("t%d = \"oft%d\"\n", k, k)...)
				}
				for k := 0; k < n; k++ {
					b = append(b, fmt.Sprintf("%s %s ", []string{"a", "b"}[i%2], ases[i/2%3])...)
					b = append(b, fmt.Sprintf([]string{`"%d"`, "t%d"}[i/6%2], k)...)
					i /= 12
					if k < n-1 && split>>k&1 == 1 {
						b = append(b, 0)
					} else {
						b = append(b, '\n')
					}
				}
				return b
			})
			traces.Add(c.res.Evaluations - before)
		}
		// rejected rules in between define nothing; other constructs, sockets
		lines := []string{"a = \"%d\"\n", "a /= \"%d\"\n", "b = [ \"%d\" ]\n", "$s /= \"%d\"\n", "$s = \"%d\"\n", "c = { \"%d\" }\n"}
		bads := []string{"a = [ !!\n", "b = !!\n", "a = 1 .. 2.5 ; !!\n", "c = tstr .lt 3 ; !!\n", "a = ( int !!", "a !! int", "b = #6.1( int ] ; !!"}
		var l []string
		elems := append(append([]string{}, lines...), bads...)
		for _, a := range elems {
			for _, b := range elems {
				for _, d := range elems {
					for _, e := range elems[:c.tier(4, len(elems))] {
						s := ""
						for k, x := range []string{a, b, d, e} {
							if k > 0 {
								s += "\x00"
							}
							if strings.Contains(x, "%d") {
								x = fmt.Sprintf(x, k)
							}
							s += x
						}
						l = append(l, s)
					}
				}
			}
		}
		before = c.res.Evaluations
		c.List("all sessions of 4 sources with rejected sources in between", sess, l)
		traces.Add(c.res.Evaluations - before)
		c.res.Extra["traces_validated_against_impl"] = traces.Load()
	})
}
