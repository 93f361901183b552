package main

// C20, wide tasks: everything the library offers, on many sources: every construct, literals of many
// lengths, deep and wide nests, accepted and rejected. Two such tasks beside each other touch whatever the
// library keeps outside of its instances.

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"sync"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/ast/astutils"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/runtime/validators"
	"github.com/HannesKimara/cddlc/token"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

type textVisit struct{ b *strings.Builder }

func (v textVisit) Visit(n ast.Node) astutils.Visitor {
	if isNil(n) {
		return nil
	}
	s, e := n.Start(), n.End()
	r := token.PositionRange{Start: s, End: e}
	fmt.Fprintf(v.b, "%s %s %s %s|", s.String(), e.String(), r.String(), s.To(3).String())
	switch x := n.(type) {
	case *ast.Identifier:
		fmt.Fprint(v.b, x.String(), x.IsSocket(), x.IsPlug())
	case *ast.CommentGroup:
		v.b.WriteString(x.String())
	}
	return v
}

// c20text collects what positions, nodes, token kinds and diagnostics say about themselves.
func c20text(src string) string {
	var b strings.Builder
	l := lexer.NewLexer([]byte(src))
	for i := 0; i <= len(src)+1; i++ {
		t, p, lit := l.Scan()
		fmt.Fprint(&b, t.String(), p.String(), t.Precedence(), t.IsNumeric(), t.IsLiteral(lit), t.IsControlOp(), token.Lookup(lit), " ")
		if t == token.EOF {
			break
		}
	}
	p := parser.NewParser(lexer.NewLexer([]byte(src)))
	tree, errs := p.ParseFile()
	for _, e := range errs {
		fmt.Fprintf(&b, "%s|%s|%s|%s %s\n", e.Error(), e.String(), e.Diagnostic(), e.Start().String(), e.End().String())
	}
	fmt.Fprintf(&b, "%s|%s|%s|%s %s %d\n", errs.Error(), errs.String(), errs.Diagnostic(), errs.Start().String(), errs.End().String(), len(p.Errors()))
	if tree != nil {
		for _, r := range tree.Rules {
			if !isNil(r) {
				astutils.Walk(textVisit{&b}, r)
			}
		}
	}
	return b.String()
}

// c20sizes runs the remaining helpers of generated code.
func c20sizes(k string) string {
	var b strings.Builder
	n := uint(k[0] % 17)
	for _, v := range []any{int8(1), uint16(2), int32(3), uint64(4), float32(5), 6.0, "text", []byte("b"), true, struct{ a, b int }{}, [3]int{}, &b, map[string]int{}, complex(1, 2)} {
		fmt.Fprint(&b, validators.CheckSize(v, n), validators.CheckSize(v, 2*n), reflect.TypeOf(v), " ")
	}
	for _, ok := range []bool{true, false} {
		func() {
			defer func() { fmt.Fprint(&b, recover(), " ") }()
			validators.MustBool(ok)
		}()
		func() {
			defer func() { fmt.Fprint(&b, recover(), " ") }()
			if ok {
				validators.MustNotErr(nil)
			} else {
				validators.MustNotErr(fmt.Errorf("e%s", k))
			}
		}()
	}
	for _, o := range []string{"", "camelcase", "snakecase", k} {
		fmt.Fprint(&b, gogen.Options{CaseConversion: o}.Valid(), " ")
	}
	return b.String()
}

var wideOnce struct {
	sync.Once
	l []string
}

const wideChunk = 60

// wideSrcs: the sources of the wide tasks.
func wideSrcs() []string {
	wideOnce.Do(func() {
		var l []string
		sup := ""
		for _, r := range support() {
			sup += printFile(mk("file", "", r), 0).src() + "\n"
		}
		vals := append(append(append([]*M{}, allAtoms()...), richModels()...), shapeVals()...)
		for _, w := range chainWraps() {
			for _, d := range []int{1, 2, 9, 34} {
				m := id("x")
				for i := 0; i < d; i++ {
					m = w.f(m)
				}
				vals = append(vals, m)
			}
		}
		for i, m := range vals {
			s := printFile(mk("file", "", mk("rule", "=", id("nm"), m), mk("rule", "/=", id("$nm"), m)), i%3).src()
			l = append(l, "; one\n; two\n"+strings.ReplaceAll(s, "\n", " ; end\n")+" ; a\n;b\n"+sup, "z = (1: int, 2 : "+strings.TrimPrefix(strings.Split(s, "\n")[0], "nm = ")+" , ; c\n k: tstr ; d\n)")
		}
		for _, p := range rich() {
			for i := range p.toks {
				l = append(l, strings.Join(p.toks[:i], " ")+" "+strings.Join(p.toks[min(i+1, len(p.toks)):], " "), strings.Join(p.toks[:i], "\n"))
			}
		}
		var names []string
		for _, n := range []int{1, 2, 3, 5, 8, 12, 16, 17, 24, 25, 32, 33, 40, 48, 64, 65, 80, 100, 128, 129, 200, 256, 257, 400, 512, 513, 1024, 1025, 2048, 4096, 4097, 9000} {
			names = append(names, strings.Repeat("abcdefg-hi", n/10+1)[:n-1]+"z")
		}
		for _, f := range famCtx {
			for _, n := range names {
				l = append(l, strings.ReplaceAll(f, "%", n))
			}
		}
		for k := 0; k < 6; k++ {
			all := famSrcs(fmt.Sprint(len(famCtx)+k), false)
			for i := 0; i < len(all); i += 41 {
				l = append(l, all[i])
			}
		}
		for _, n := range []int{9, 40, 130, 300} {
			l = append(l, strings.Repeat("a = int\n", n), strings.Repeat("; c\n", n), "a = ("+strings.Repeat("k: int, ", n)+")", "a = [ "+strings.Repeat("x, ", n), "a = "+strings.Repeat("1 / ", n)+"2", strings.Repeat("! ", n), "a = \""+strings.Repeat("é", n)+"\"", strings.Repeat("a = \"x\n", n), "a = "+strings.Repeat("0", n)+"1", "a = 1."+strings.Repeat("9", n))
		}
		wideOnce.l = l
	})
	return wideOnce.l
}

func wideCount() int { return (len(wideSrcs()) + wideChunk - 1) / wideChunk }

var addrs = regexp.MustCompile("0x[0-9a-f]{6,}")

// noAddr leaves out addresses, which differ between processes.
func noAddr(s string) string { return addrs.ReplaceAllString(s, "0x") }

// c20wide runs everything on one chunk of the sources.
func c20wide(chunk int) string {
	l := wideSrcs()
	l = l[chunk*wideChunk : min(len(l), (chunk+1)*wideChunk)]
	var b strings.Builder
	for _, s := range l {
		func() {
			defer func() {
				if r := recover(); r != nil {
					b.WriteString("panic " + noAddr(fmt.Sprint(r)))
				}
			}()
			b.WriteString(c20hash(noAddr(c20text(s))) + " ")
			t, errs := parse([]byte(s))
			b.WriteString(c20hash(noAddr(dumpTree(errs))+astutils.Format(t)+c20walk(t)) + " ")
			b.WriteString(c20hash(c20gen(t, "q")))
		}()
		b.WriteString("\n")
	}
	return b.String()
}
