package main

// Reference scanner: an independent statement of the lexical rules the documentation and the
// CDDL grammar give, written as one maximal-munch function per token class over byte offsets.

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/HannesKimara/cddlc/token"
)

// rtok is one expected token. kinds lists the acceptable kinds (nil = any, where the rules are silent).
type rtok struct {
	kinds    []token.Token
	off, end int // source extent
	lit      string
	line     int
	col      int
	illegal  bool
	unclosed bool
}

var refKeywords = map[string]token.Token{
	"int": token.INT, "uint": token.UINT, "nint": token.NINT,
	"float": token.FLOAT, "float16": token.FLOAT16, "float32": token.FLOAT32, "float64": token.FLOAT64,
	"tstr": token.TSTR, "text": token.TEXT, "bytes": token.BYTES, "bstr": token.BSTR,
	"bool": token.BOOL, "true": token.TRUE, "false": token.FALSE, "nil": token.NIL, "null": token.NULL, "any": token.ANY,
}

var refControls = map[string]token.Token{
	".size": token.SIZE, ".bits": token.BITS, ".regexp": token.REGEXP, ".cbor": token.CBOR, ".cborseq": token.CBORSEQ,
	".within": token.WITHIN, ".and": token.AND, ".lt": token.LT, ".le": token.LE, ".gt": token.GT, ".ge": token.GE,
	".eq": token.EQ, ".ne": token.NE, ".default": token.DEFAULT, ".plus": token.PLUS, ".cat": token.CAT, ".det": token.DET,
	".abnf": token.ABNF, ".abnfb": token.ABNFB, ".feature": token.FEATURE,
}

// longest spelling first
var refPunct = []struct {
	s string
	t token.Token
}{
	{"//=", token.GROUP_CHOICE_ASSIGN}, {"...", token.EXCLUSIVE_BOUND},
	{"//", token.GROUP_CHOICE}, {"/=", token.TYPE_CHOICE_ASSIGN}, {"=>", token.ARROW_MAP}, {"..", token.INCLUSIVE_BOUND},
	{"-", token.MINUS}, {"?", token.OPTIONAL}, {":", token.COLON}, {"(", token.LPAREN}, {")", token.RPAREN},
	{"{", token.LBRACE}, {"}", token.RBRACE}, {"[", token.LBRACK}, {"]", token.RBRACK}, {"+", token.ONE_OR_MORE},
	{"*", token.ZERO_OR_MORE}, {"<", token.LEFT_ANGLE_BRACKET}, {">", token.RIGHT_ANGLE_BRACKET}, {"#", token.HASH},
	{"~", token.UNWRAP}, {"=", token.ASSIGN}, {",", token.COMMA}, {"&", token.AMPERSAND}, {"/", token.TYPE_CHOICE},
}

func alpha(b byte) bool   { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' }
func digit(b byte) bool   { return b >= '0' && b <= '9' }
func idStart(b byte) bool { return alpha(b) || b == '@' || b == '_' || b == '$' }
func isWS(b byte) bool    { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }

func one(t token.Token) []token.Token { return []token.Token{t} }

func span(s []byte, i int, f func(byte) bool) int {
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

// refLex returns the expected tokens, ending with end-of-file.
func refLex(s []byte) []rtok {
	var out []rtok
	i, line, nl := 0, 1, -1
	for {
		for i < len(s) && isWS(s[i]) {
			if s[i] == '\n' {
				line, nl = line+1, i
			}
			i++
		}
		t := rtok{off: i, line: line, col: i - nl}
		if i >= len(s) {
			t.end, t.kinds = i, one(token.EOF)
			return append(out, t)
		}
		c := s[i]
		switch {
		case idStart(c):
			e := span(s, i, func(b byte) bool { return idStart(b) || digit(b) || b == '-' || b == '.' })
			t.end, t.lit, t.kinds = e, string(s[i:e]), one(token.IDENT)
			if k, ok := refKeywords[t.lit]; ok {
				t.kinds = one(k)
			}
		case c == '0' && i+1 < len(s) && strings.IndexByte("xbo", s[i+1]) >= 0:
			set := map[byte]string{'x': "0123456789abcdefABCDEF", 'b': "01", 'o': "01234567"}[s[i+1]]
			e := span(s, i+2, func(b byte) bool { return strings.IndexByte(set, b) >= 0 })
			t.end, t.lit, t.kinds = e, string(s[i:e]), one(token.INT)
			if e == i+2 {
				t.kinds = nil // a prefix without digits is no number; how it is classed is open
			}
		case digit(c):
			e := span(s, i, digit)
			n := 0
			for e+1 < len(s) && s[e] == '.' && digit(s[e+1]) {
				e = span(s, e+1, digit)
				n++
			}
			t.end, t.lit, t.kinds = e, string(s[i:e]), one(token.INT)
			if n == 1 {
				t.kinds = one(token.FLOAT)
			} else if n > 1 {
				t.kinds = nil // several fractional parts: open
			}
		case c == ';':
			e := span(s, i, func(b byte) bool { return b != '\n' })
			t.end, t.lit, t.kinds = e, string(s[i+1:e]), one(token.COMMENT)
		case c == '"':
			e := span(s, i+1, func(b byte) bool { return b != '\n' && b != '"' })
			t.lit, t.kinds, t.end = string(s[i+1:e]), one(token.TEXT_LITERAL), e+1
			if e >= len(s) || s[e] == '\n' {
				t.unclosed, t.end = true, e
			}
		case c == '.' && i+1 < len(s) && alpha(s[i+1]):
			e := span(s, i+1, alpha)
			t.end, t.lit = e, string(s[i:e])
			if k, ok := refControls[t.lit]; ok {
				t.kinds = one(k)
			} else {
				t.kinds, t.illegal = one(token.ILLEGAL), true
			}
		default:
			for _, p := range refPunct {
				if strings.HasPrefix(string(s[i:min(len(s), i+3)]), p.s) {
					t.end, t.lit, t.kinds = i+len(p.s), p.s, one(p.t)
					break
				}
			}
			if t.kinds == nil {
				if c == '.' {
					t.end, t.lit, t.kinds = i+1, ".", one(token.PERIOD)
					if r, _ := utf8.DecodeRune(s[i+1:]); unicode.IsLetter(r) {
						t.kinds = []token.Token{token.PERIOD, token.ILLEGAL}
					}
					break
				}
				r, w := utf8.DecodeRune(s[i:])
				t.end, t.lit, t.kinds, t.illegal = i+w, string(r), one(token.ILLEGAL), true
			}
		}
		out = append(out, t)
		i = t.end
	}
}

// itok is what the implementation returned.
type itok struct {
	tok token.Token
	pos token.Position
	lit string
}
