package main

// Canonical view of the implementation's syntax tree.

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/HannesKimara/cddlc/ast"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	"github.com/HannesKimara/cddlc/token"
)

// N is a canonical node: kind, value, children; P is where it starts.
type N struct {
	K, V string
	C    []*N
	P    token.Position
	X    []token.Position // where inner numbers start: occurrence bounds, tag number
	Node ast.Node
}

func isNil(n ast.Node) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// canon converts a node. Missing mandatory children appear as kind "NIL".
func canon(n ast.Node) *N {
	if isNil(n) {
		return &N{K: "NIL"}
	}
	r := &N{Node: n}
	kid := func(c ast.Node) { r.C = append(r.C, canon(c)) }
	switch x := n.(type) {
	case *ast.CDDL:
		r.K = "file"
		for _, e := range x.Rules {
			kid(e)
		}
		return r
	case *ast.Rule:
		r.K = "rule"
		if x.Name == nil {
			kid(nil)
		} else {
			kid(x.Name)
		}
		kid(x.Value)
		if x.TrailingComment != nil {
			kid(x.TrailingComment)
		}
	case *ast.Entry:
		r.K = "entry"
		if x.Name == nil {
			kid(nil)
		} else {
			kid(x.Name)
		}
		kid(x.Value)
		if x.TrailingComment != nil {
			kid(x.TrailingComment)
		}
	case *ast.Identifier:
		r.K, r.V = "id", x.Name
	case *ast.Group:
		r.K = "group"
		for _, e := range x.Entries {
			kid(e)
		}
	case *ast.Array:
		r.K = "array"
		for _, e := range x.Rules {
			kid(e)
		}
	case *ast.Map:
		r.K = "map"
		for _, e := range x.Rules {
			kid(e)
		}
	case *ast.TypeChoice:
		r.K = "choice" + x.Token.String()
		kid(x.First)
		kid(x.Second)
	case *ast.GroupChoice:
		r.K = "choice//"
		kid(x.First)
		kid(x.Second)
	case *ast.Unwrap:
		r.K = "unwrap"
		kid(x.Item)
	case *ast.Enumeration:
		r.K = "enum"
		kid(x.Value)
	case *ast.Optional:
		r.K = "opt"
		kid(x.Item)
	case *ast.NMOccurrence:
		r.K = "occ"
		lo, hi := "?", "inf"
		if x.N != nil {
			lo = strconv.FormatUint(x.N.Literal, 10)
		}
		if x.M != nil {
			hi = strconv.FormatUint(x.M.Literal, 10)
		}
		r.V = lo + ".." + hi
		if x.N != nil && x.N.Pos.Offset < x.Pos.Offset {
			r.X = append(r.X, x.N.Start())
		}
		if x.M != nil {
			r.X = append(r.X, x.M.Start())
		}
		kid(x.Item)
	case *ast.Range:
		r.K, r.V = "range", x.Token.String()
		kid(x.From)
		kid(x.To)
	case *ast.SizeOperatorControl:
		r.K, r.V = "ctl", x.Token.String()
		kid(x.Type)
		kid(x.Size)
	case *ast.Regexp:
		r.K, r.V = "ctl", x.Token.String()
		if x.Base == nil {
			kid(nil)
		} else {
			kid(x.Base)
		}
		kid(x.Regex)
	case *ast.Bits:
		r.K, r.V = "ctl", x.Token.String()
		kid(x.Base)
		kid(x.Contstraint)
	case *ast.ComparatorOpControl:
		r.K, r.V = "ctl", x.Token.String()
		kid(x.Left)
		kid(x.Right)
	case *ast.Tag:
		r.K = "tag"
		if x.Major != nil {
			r.V = strconv.FormatUint(x.Major.Literal, 10)
			r.X = append(r.X, x.Major.Start())
		}
		if x.TagNumber != nil {
			r.V += "." + strconv.FormatUint(x.TagNumber.Literal, 10)
		}
		if !isNil(x.Item) {
			kid(x.Item)
		}
	case *ast.BooleanType, *ast.TstrType, *ast.BytesType, *ast.BstrType, *ast.NullType, *ast.IntegerType, *ast.NegativeIntegerType, *ast.UintType, *ast.FloatType:
		r.K, r.V = "type", typeToken(n).String()
	case *ast.BooleanLiteral:
		r.K, r.V = "bool", strconv.FormatBool(x.Bool)
	case *ast.IntegerLiteral:
		r.K, r.V = "int", strconv.FormatInt(x.Literal, 10)
	case *ast.UintLiteral:
		r.K, r.V = "uint", strconv.FormatUint(x.Literal, 10)
	case *ast.FloatLiteral:
		r.K, r.V = "float", strconv.FormatFloat(x.Literal, 'g', -1, 64)
	case *ast.TextLiteral:
		r.K, r.V = "text", x.Literal
	case *ast.Comment:
		r.K, r.V = "comment", x.Text
	case *ast.CommentGroup:
		r.K = "comments"
		for _, e := range x.List {
			kid(e)
		}
	case *ast.BadNode:
		r.K = "bad"
		kid(x.Base)
		return r
	default:
		r.K = fmt.Sprintf("unknown:%T", n)
	}
	r.P = startOf(n)
	return r
}

// startOf asks the node, tolerating nodes whose parts are missing.
func startOf(n ast.Node) (p token.Position) {
	defer func() {
		if recover() != nil {
			p = token.Position{Offset: -999}
		}
	}()
	return n.Start()
}

func typeToken(n ast.Node) token.Token {
	f := reflect.ValueOf(n).Elem().FieldByName("Token")
	return token.Token(f.Int())
}

// flatten merges chains of the same choice operator (their nesting direction carries no meaning)
// and drops comments.
func flatten(n *N) *N {
	m := &N{K: n.K, V: n.V, P: n.P, X: n.X, Node: n.Node}
	for _, c := range n.C {
		if c.K == "comment" || c.K == "comments" {
			continue
		}
		f := flatten(c)
		if strings.HasPrefix(n.K, "choice") && f.K == n.K {
			m.C = append(m.C, f.C...)
		} else {
			m.C = append(m.C, f)
		}
	}
	return m
}

func (n *N) String() string {
	var b strings.Builder
	n.write(&b, false)
	return b.String()
}

// PString is String with positions.
func (n *N) PString() string {
	var b strings.Builder
	n.write(&b, true)
	return b.String()
}

func (n *N) write(b *strings.Builder, pos bool) {
	b.WriteString(n.K)
	if n.V != "" || n.K == "text" {
		b.WriteByte('=')
		b.WriteString(strconv.Quote(n.V))
	}
	if pos {
		if n.K != "file" {
			fmt.Fprintf(b, "@%d:%d:%d", n.P.Offset, n.P.Line, n.P.Column)
		}
		for _, x := range n.X {
			fmt.Fprintf(b, "#%d:%d:%d", x.Offset, x.Line, x.Column)
		}
	}
	if len(n.C) > 0 || n.K == "group" || n.K == "array" || n.K == "map" {
		b.WriteByte('(')
		for i, c := range n.C {
			if i > 0 {
				b.WriteByte(' ')
			}
			c.write(b, pos)
		}
		b.WriteByte(')')
	}
}

func eqTree(a, b *N) bool {
	if a.K != b.K || a.V != b.V || len(a.C) != len(b.C) {
		return false
	}
	for i := range a.C {
		if !eqTree(a.C[i], b.C[i]) {
			return false
		}
	}
	return true
}

// dumpTree is a full dump of every exported field reachable from the tree.
func dumpTree(v any) string {
	var b strings.Builder
	dumpVal(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpVal(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 400 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		dumpVal(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpVal(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Slice:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			dumpVal(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

func errString(errs parser.ErrorList) string {
	var b strings.Builder
	for _, e := range errs {
		fmt.Fprintf(&b, "[%d:%d..%d:%d %s]", e.Start().Line, e.Start().Column, e.End().Line, e.End().Column, e.Error())
	}
	return b.String()
}

func parse(src []byte) (*ast.CDDL, parser.ErrorList) {
	return parser.NewParser(lexer.NewLexer(src)).ParseFile()
}

func goodSchemas() []string {
	return []string{
		"a = int\nb = a / tstr\n",
		"person = [name: tstr, ? age: uint .size 4, * tags: tstr] ; c\n; d\nx = #6.32(tstr)\n",
		"g = (a: int // b: \"x\")\nm = {1: 0..10, k => ~g}\nk = &g\n$s /= 1.5\n",
		"é\xff = \"unterminated\n", "r = tstr .regexp \"a.b\" u = bstr .bits x x = 0x1F..0b1",
	}
}

func offsetPos(src []byte, off int) token.Position {
	line, col := 1, off+1
	for i := 0; i < off && i < len(src); i++ {
		if src[i] == '\n' {
			line, col = line+1, off-i
		}
	}
	return token.Position{Offset: off, Line: line, Column: col}
}
