From 87c27ff31c97d583a2821723c362cfa9020e8ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 01/50] fix: lexer advances over undecodable bytes and U+FFFD
 instead of looping

---
 lexer/lexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..4b0178e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From 93fe65253c3ac96ec5eeb43c095e0db6e2bc0fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:12 +0000
Subject: [PATCH 02/50] fix: unterminated text literal keeps its text and does
 not panic when empty

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b0178e..123a5a2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -319,7 +319,7 @@ func (l *Lexer) scanString() string {
 	for {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
 			l.next()
-- 
2.43.0


From ef94f711fdc9d719a833febdbc754975484fb7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 03/50] fix: lexer does not write into the spare capacity of
 the caller's slice

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 123a5a2..4d97f71 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,7 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	src = append(src[:len(src):len(src)], 32) // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From 7843cc085606b7a1d78487692fbe76ccaf60a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:14 +0000
Subject: [PATCH 04/50] fix: a number is a float only when digits follow its
 decimal point

---
 lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4d97f71..0906541 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -280,9 +280,9 @@ func (l *Lexer) scanNumber() (token.Token, string) {
 	tok = token.INT
 
 	// TODO : Add support for all number types, int, floats
-	for unicode.IsDigit(l.chr) || l.chr == '.' && unicode.IsDigit(rune(l.peek())) {
+	for isDigit(l.chr) || l.chr == '.' && isDigit(rune(l.peek())) {
 		l.next()
-		if l.chr == '.' && l.peek() != '.' { // check that its not part of a bound .., ...
+		if l.chr == '.' && isDigit(rune(l.peek())) { // check that its not part of a bound .., ...
 			tok = token.FLOAT
 		}
 	}
-- 
2.43.0


From b245f76675337d71760b95996a277323fd0bb2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 05/50] fix: unknown control operators are illegal tokens, not
 identifiers

---
 lexer/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0906541..fa66be3 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -172,6 +172,9 @@ func (l *Lexer) Scan() (tok token.Token, pos token.Position, lit string) {
 				lit = fmt.Sprintf("%s%s", string(chr), copString)
 
 				tok = token.Lookup(lit)
+				if tok == token.IDENT { // not a known control operator
+					tok = token.ILLEGAL
+				}
 			} else {
 				tok = token.PERIOD
 			}
-- 
2.43.0


From 328d4d8b5ba072d3712c815c651816076a117b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:16 +0000
Subject: [PATCH 06/50] fix: text_literal and the numeric end marker are not
 keywords

---
 token/token.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..5f8fade 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,9 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		if i == numeric_end || i == TEXT_LITERAL { // these have no keyword spelling
+			continue
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From 7f6892f1493083107da9637e14900731a72cef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 07/50] fix: lexer errors carry line and column

---
 lexer/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index fa66be3..030bcdf 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -384,7 +384,9 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	lenLines := len(l.lineOffsets)
+	pos := token.Position{Offset: offset, Line: lenLines, Column: offset - l.lineOffsets[lenLines-1]}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
-- 
2.43.0


From 9dcd9e7971dbfcce7af6ef5e346b8b6dc36f5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 08/50] fix: lexer errors anywhere in the source are reported
 by the parser

---
 parser/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..d7c6ff2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -95,6 +90,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		p.next()
 	}
 
+	for _, lexErr := range p.lexer.Errors {
+		p.errorHandler(p.error(lexErr.Msg, lexErr.Pos, lexErr.Pos))
+	}
+
 	for _, task := range p.tasks {
 		err := task()
 		if err != nil {
-- 
2.43.0


From 8ee0040a3563ffc1008be16cbaa8f34147a4a748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 09/50] fix: the token after a trailing rule comment is not
 skipped

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d7c6ff2..d33ae4c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -172,7 +172,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From efd2c85a1c0757295d429ca5b0a7b102cfdb1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 10/50] fix: malformed .regexp and .bits operands are diagnosed
 instead of panicking

---
 parser/parser.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d33ae4c..1088ee3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -565,7 +565,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
@@ -594,7 +594,6 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -648,14 +647,6 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
 
-func wrapBadNode(node ast.Node) *ast.BadNode {
-	return &ast.BadNode{
-		Pos:    node.Start(),
-		Base:   node,
-		EndPos: node.End(),
-	}
-}
-
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
-- 
2.43.0


From a17e2af8558667f397f2a62b770e962247078e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:19 +0000
Subject: [PATCH 11/50] fix: End of unbounded occurrences, bare tags and
 incomplete rules does not panic

---
 ast/occurrence.go |  2 +-
 ast/rule.go       |  3 +++
 ast/tag.go        | 10 +++++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..a60cda6 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -31,7 +31,7 @@ func (nm *NMOccurrence) Start() token.Position {
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	return nm.Item.End()
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/rule.go b/ast/rule.go
index 285334c..5d024f9 100644
--- a/ast/rule.go
+++ b/ast/rule.go
@@ -15,6 +15,9 @@ func (r *Rule) Start() token.Position {
 	return r.Name.Start()
 }
 func (r *Rule) End() token.Position {
+	if r.Value == nil { // the value could not be parsed
+		return r.Name.End()
+	}
 	return r.Value.End()
 }
 
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..2dff2b9 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1) // length of #
 }
-- 
2.43.0


From 470fd6fda3b540ee313118574a8eefb404cef9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:20 +0000
Subject: [PATCH 12/50] fix: comparison controls keep their left operand

---
 parser/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1088ee3..81487eb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -715,8 +715,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -726,7 +724,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -736,7 +734,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From e28b044346e4049086503ff619f22f58ba3a714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:21 +0000
Subject: [PATCH 13/50] fix: a tag without its closing parenthesis is reported

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 81487eb..64a4e62 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -111,7 +111,7 @@ func (p *Parser) expectPeek(tok token.Token) bool {
 		return false
 	}
 	p.next()
-	return false
+	return true
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -446,7 +446,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if !p.expectPeek(token.RPAREN) {
+			return tagBase, p.errorTokenExpected(p.peekPos, token.RPAREN)
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From ef608c41166290204236207f8321a2ffae83585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 14/50] fix: range bounds that are neither numbers nor names
 are reported

---
 parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 64a4e62..4908b0b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -753,6 +753,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -817,6 +819,11 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	if err != nil {
 		return b, err
 	}
+	switch to.(type) {
+	case *ast.IntegerLiteral, *ast.FloatLiteral, *ast.Identifier:
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.INT, token.FLOAT, token.IDENT)
+	}
 	b.To = to
 
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
@@ -876,6 +883,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.INT, token.IDENT)
 	}
 
 	return b, nil
@@ -921,6 +930,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.FLOAT, token.IDENT)
 	}
 
 	return b, nil
-- 
2.43.0


From 582391357b49ee97da26215bd59a1f600796ecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:23 +0000
Subject: [PATCH 15/50] fix: a named lower bound is checked against a literal
 upper bound

---
 parser/parser.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 4908b0b..839dfd1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -830,6 +830,14 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 		valLeft := p.environment.Get(left.Name)
 		to := b.To
 		switch val := to.(type) {
+		case *ast.IntegerLiteral:
+			if _, ok := valLeft.(*ast.FloatLiteral); ok {
+				return p.error("cannot use integer literal as upper bound to float range", val.Start(), val.End())
+			}
+		case *ast.FloatLiteral:
+			if _, ok := valLeft.(*ast.IntegerLiteral); ok {
+				return p.error("cannot use float literal as upper bound to int range", val.Start(), val.End())
+			}
 		case *ast.Identifier:
 			valRight := p.environment.Get(val.Name)
 			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
-- 
2.43.0


From fb60cb6ee154f74b3e3babae8f4b5933dbae4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:24 +0000
Subject: [PATCH 16/50] fix: comparison controls report a non-numeric argument

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 839dfd1..d1b6f96 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -729,8 +729,8 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+		return nil, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
-- 
2.43.0


From 28008d488833e4ce0a42ac4994f817fda90bacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 17/50] fix: .size is accepted on bytes like on its synonym
 bstr

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d1b6f96..ae4a4fa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -543,7 +543,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 
 	switch val := left.(type) {
-	case *ast.BstrType, *ast.UintType, *ast.TstrType:
+	case *ast.BstrType, *ast.BytesType, *ast.UintType, *ast.TstrType:
 		sop.Type = val
 	default:
 		err := p.errorUnsupportedTypes(sop.Pos, p.currliteral, token.TSTR, token.BSTR, token.UINT)
-- 
2.43.0


From 6c00c22f474888f31122ebdfc096e3cd0875e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 18/50] fix: types used as unkeyed group and array entries are
 not dropped

---
 ast/group_entry.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)
 create mode 100644 ast/group_entry.go

diff --git a/ast/group_entry.go b/ast/group_entry.go
new file mode 100644
index 0000000..c64964d
--- /dev/null
+++ b/ast/group_entry.go
@@ -0,0 +1,29 @@
+package ast
+
+// Any type may stand as an unkeyed entry of a group or array, e.g. [int, tstr].
+
+func (*Array) groupEntry()               {}
+func (*BadNode) groupEntry()             {}
+func (*BooleanType) groupEntry()         {}
+func (*BooleanLiteral) groupEntry()      {}
+func (*BstrType) groupEntry()            {}
+func (*BytesType) groupEntry()           {}
+func (*Bits) groupEntry()                {}
+func (*ComparatorOpControl) groupEntry() {}
+func (*Regexp) groupEntry()              {}
+func (*SizeOperatorControl) groupEntry() {}
+func (*FloatType) groupEntry()           {}
+func (*FloatLiteral) groupEntry()        {}
+func (*GroupChoice) groupEntry()         {}
+func (*IntegerType) groupEntry()         {}
+func (*NegativeIntegerType) groupEntry() {}
+func (*IntegerLiteral) groupEntry()      {}
+func (*Map) groupEntry()                 {}
+func (*NullType) groupEntry()            {}
+func (*Tag) groupEntry()                 {}
+func (*TextLiteral) groupEntry()         {}
+func (*TstrType) groupEntry()            {}
+func (*TypeChoice) groupEntry()          {}
+func (*UintType) groupEntry()            {}
+func (*UintLiteral) groupEntry()         {}
+func (*Unwrap) groupEntry()              {}
-- 
2.43.0


From 260c5bfd94a73b9615dbbe20dbe63a9d04e11e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 19/50] fix: operands extend exactly as far as their operator
 binds

---
 parser/parser.go | 41 ++++++++++++++++++++++-------------------
 token/token.go   |  2 +-
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ae4a4fa..e7288c6 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -144,7 +144,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -351,11 +351,14 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(token.COLON.Precedence())
 	if err != nil {
 		return val, err
 	}
 	rule.Value = val
+	if p.peekToken == token.COMMA {
+		p.next()
+	}
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
@@ -375,7 +378,7 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(tc.Token.Precedence() - 1) // TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -390,7 +393,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(gc.Token.Precedence() - 1) // TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -406,7 +409,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(un.Token.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -441,7 +444,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.LOWEST)
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -461,7 +464,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(enum.Token.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -505,7 +508,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.OPTIONAL.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -551,7 +554,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence() - 1)
 	if err != nil {
 		return sop, err
 	}
@@ -578,7 +581,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence() - 1)
 	if err != nil {
 		return r, err
 	}
@@ -594,7 +597,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence() - 1)
 	if err != nil {
 		return b, err
 	}
@@ -627,7 +630,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -655,7 +658,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -673,7 +676,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -734,7 +737,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence() - 1)
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -799,7 +802,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.ZERO_OR_MORE.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
@@ -815,7 +818,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence() - 1)
 	if err != nil {
 		return b, err
 	}
@@ -859,7 +862,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence() - 1)
 	if err != nil {
 		return b, err
 	}
@@ -906,7 +909,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence() - 1)
 	if err != nil {
 		return b, err
 	}
diff --git a/token/token.go b/token/token.go
index 5f8fade..21beb0a 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From 5d31d36a4832ac57b690918f5ebfbf7cbb14cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 20/50] fix: an occurrence indicator without lower bound starts
 a new entry after an omitted comma

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index e7288c6..e21e959 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -206,6 +206,11 @@ func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
 
 	for p.currToken != token.COMMA && precedence < p.peekToken.Precedence() {
 		ledFn := p.leds[p.peekToken]
+		if p.peekToken == token.ZERO_OR_MORE || p.peekToken == token.ONE_OR_MORE {
+			if _, ok := exp.(*ast.IntegerLiteral); !ok { // not a lower bound, starts the next entry
+				return exp, nil
+			}
+		}
 		if ledFn == nil {
 			return exp, nil
 		}
-- 
2.43.0


From 2a33fc22789911a3aa889bdcf205d72c2f66051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:41 +0000
Subject: [PATCH 21/50] fix: integer keys and tag numbers report where they
 start

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e21e959..2fe9883 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -343,7 +343,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  p.pos,
+			Pos:  val.Pos,
 			Name: fmt.Sprintf("%d", val.Literal),
 		}
 	default:
@@ -436,7 +436,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
@@ -501,7 +501,7 @@ func (p *Parser) parseFloatTag() (*ast.Tag, errors.Diagnostic) {
 	}
 
 	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint}
-	tag.TagNumber = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: numberUint}
+	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint}
 
 	return tag, nil
 }
-- 
2.43.0


From 404e39fc9dadd06c63a3a8920614f43456faaa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:42 +0000
Subject: [PATCH 22/50] fix: rules defined with /= and //= can be referenced

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 2fe9883..62b0050 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -165,6 +165,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		_ = p.environment.Add(rule.Name.Name, entry) // extending an existing name is not a redeclaration
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From 886bbc96374bc4ece8c2ccbd7191bcd34a25d75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 23/50] fix: Walk visits every kind of node the parser produces

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..9922bcf 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,9 +22,25 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
 	case *ast.BooleanType:
 		// pass
 
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BytesType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +95,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -173,6 +199,9 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.Second)
 		}
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.UintLiteral:
 		// pass
 
-- 
2.43.0


From d0285f6f6a68b1acd3252a9f104e667d4b90e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 24/50] fix: comments may stand between any two tokens

---
 parser/parser.go | 59 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 62b0050..e445f12 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -69,6 +69,9 @@ type Parser struct {
 	// the error handling function
 	errorHandler func(err errors.Diagnostic)
 
+	// tokens scanned beyond the peeked token while looking past comments
+	pending []lexer.TokenSer
+
 	// hold tasks to be run after the completed ast build.
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
@@ -455,6 +458,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
+		for p.peekToken == token.COMMENT {
+			p.next()
+		}
 		if !p.expectPeek(token.RPAREN) {
 			return tagBase, p.errorTokenExpected(p.peekPos, token.RPAREN)
 		}
@@ -635,7 +641,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	g.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RPAREN {
+	for p.skipComments(); p.currToken != token.RPAREN; p.skipComments() {
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -654,6 +660,13 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	return g, nil
 }
 
+// skipComments moves past comments to the next entry or closing token
+func (p *Parser) skipComments() {
+	for p.currToken == token.COMMENT {
+		p.next()
+	}
+}
+
 func isSameLineTokens(tok1, tok2 token.Position) bool {
 	return tok1.Line == tok2.Line
 }
@@ -663,7 +676,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RBRACE {
+	for p.skipComments(); p.currToken != token.RBRACE; p.skipComments() {
 		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
@@ -681,7 +694,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	arr.Pos = p.pos
 	p.next()
 
-	for p.currToken != token.RBRACK {
+	for p.skipComments(); p.currToken != token.RBRACK; p.skipComments() {
 		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
@@ -981,7 +994,45 @@ func (p *Parser) next() {
 	p.currToken = p.peekToken
 	p.currliteral = p.peekLiteral
 	p.pos = p.peekPos
-	p.peekToken, p.peekPos, p.peekLiteral = p.lexer.Scan()
+	p.peekToken, p.peekPos, p.peekLiteral = p.scan()
+}
+
+// scan returns the next token, leaving out comments in the middle of an expression. Comments before
+// and after rules and group entries are returned.
+func (p *Parser) scan() (token.Token, token.Position, string) {
+	if len(p.pending) == 0 {
+		for {
+			tok, pos, lit := p.lexer.Scan()
+			p.pending = append(p.pending, lexer.TokenSer{Pos: pos, Token: tok, Literal: lit})
+			if tok != token.COMMENT {
+				break
+			}
+		}
+		if last := len(p.pending) - 1; expectsOperand(p.currToken) || continuesExpression(p.pending[last].Token) {
+			p.pending = p.pending[last:]
+		}
+	}
+	next := p.pending[0]
+	p.pending = p.pending[1:]
+	return next.Token, next.Pos, next.Literal
+}
+
+// expectsOperand reports whether a construct cannot end with the token
+func expectsOperand(tok token.Token) bool {
+	switch tok {
+	case token.LPAREN, token.LBRACK, token.LBRACE, token.ASSIGN, token.ARROW_MAP, token.COLON:
+		return true
+	}
+	return tok != token.COMMA && tok.Precedence() > token.LOWEST
+}
+
+// continuesExpression reports whether the token can only stand after an operand
+func continuesExpression(tok token.Token) bool {
+	switch tok {
+	case token.ASSIGN, token.ZERO_OR_MORE, token.ONE_OR_MORE, token.OPTIONAL, token.UNWRAP, token.AMPERSAND:
+		return tok == token.ASSIGN
+	}
+	return tok.Precedence() > token.LOWEST
 }
 
 func (p *Parser) registerNud(tok token.Token, fn nudParseFn) {
-- 
2.43.0


From 6b4aeff37747789e9f724db6fb4b501c3f5c1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 25/50] fix: String returns an error instead of writing
 malformed Go

---
 transforms/codegen/golang/gen.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..6cc0ac8 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -3,9 +3,11 @@
 package gogen
 
 import (
+	"bytes"
 	"fmt"
 	gast "go/ast"
 	"go/format"
+	"go/parser"
 	"go/token"
 	"io"
 )
@@ -81,7 +83,15 @@ func (g *Generator) String(output io.Writer) (err error) {
 		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
-	return format.Node(output, g.fset, g.file)
+	var out bytes.Buffer
+	if err := format.Node(&out, g.fset, g.file); err != nil {
+		return err
+	}
+	if _, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.SkipObjectResolution); err != nil {
+		return fmt.Errorf("schema cannot be expressed in Go: %w", err)
+	}
+	_, err = out.WriteTo(output)
+	return err
 }
 
 // Package returns the name of the generated golang package
-- 
2.43.0


From 705c310365cfc12fea14ffbfe3e2f00d6ae78d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 26/50] fix: receiver of Valid is a valid identifier for every
 rule name

---
 transforms/codegen/golang/gen_grouped.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..7d91b0e 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent("self")
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
-- 
2.43.0


From 0351faf1909642c1de0482b05751ab248400d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 27/50] fix: text literals are quoted in generated Go

---
 transforms/codegen/golang/gen_literals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..f2f1267 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -11,7 +11,7 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
-- 
2.43.0


From 424f9d978cf2dba637ee17a6a4e7a32137859690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 28/50] fix: whole float literals stay floats in generated Go

---
 transforms/codegen/golang/gen_literals.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index f2f1267..23b6445 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -3,6 +3,7 @@ package gogen
 import (
 	gast "go/ast"
 	"go/token"
+	"math"
 	"strconv"
 
 	"github.com/HannesKimara/cddlc/ast"
@@ -16,9 +17,13 @@ func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 }
 
 func (g *Generator) transpileFloatLiteral(fl *ast.FloatLiteral) *gast.BasicLit {
+	value := strconv.FormatFloat(fl.Literal, 'f', -1, 64)
+	if fl.Literal == math.Trunc(fl.Literal) {
+		value += ".0" // keep it a floating-point constant
+	}
 	return &gast.BasicLit{
 		Kind:  token.FLOAT,
-		Value: strconv.FormatFloat(fl.Literal, 'f', -1, 64),
+		Value: value,
 	}
 }
 
-- 
2.43.0


From 4d71243d64d724948fcf1d55d5e52b902e18594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 29/50] fix: no Valid method is generated on literal rules

---
 transforms/codegen/golang/gen_grouped.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7d91b0e..33d0075 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -59,6 +59,10 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 		// stct.spec = decl
 		g.file.Decls = append(g.file.Decls, decl)
 
+		if declToken == token.VAR { // no methods on variables
+			break
+		}
+
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
 		valDecl := g.bundleValidators(stct.validators, val)
-- 
2.43.0


From f8cc9ae7608e2fc750ab9ce17187b92e72119827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 30/50] fix: null is generated as a type

---
 transforms/codegen/golang/gen_base_types.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..06629aa 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -20,10 +20,8 @@ func (g *Generator) transpileBytesType(bt *ast.BytesType) *gast.ArrayType {
 	}
 }
 
-func (g *Generator) transpileNullType(nt *ast.NullType) *gast.Ident {
-	return &gast.Ident{
-		Name: "nil",
-	}
+func (g *Generator) transpileNullType(nt *ast.NullType) *gast.StructType {
+	return &gast.StructType{Fields: &gast.FieldList{}} // nil is not a type
 }
 
 func (g *Generator) transpileIntegerType(it *ast.IntegerType) *gast.Ident {
-- 
2.43.0


From 54ba8371d51eb2abe44007af580f91c14bedc0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 31/50] fix: all primitive types are generated

---
 transforms/codegen/golang/gen_base_types.go | 25 +++++++++++++++++++++
 transforms/codegen/golang/gen_grouped.go    |  6 +++++
 2 files changed, 31 insertions(+)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index 06629aa..b37fd15 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -41,3 +42,27 @@ func (g *Generator) transpileBoolType(bt *ast.BooleanType) *gast.Ident {
 		Name: "bool",
 	}
 }
+
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	name := "float64"
+	if ft.Token == token.FLOAT16 || ft.Token == token.FLOAT32 {
+		name = "float32"
+	}
+	return &gast.Ident{
+		Name: name,
+	}
+}
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 33d0075..01d2477 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -252,6 +252,12 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileNullType(val)), nil
 	case *ast.IntegerType:
 		return newStructure(g.transpileIntegerType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
 	case *ast.UintType:
 		return newStructure(g.transpileUintType(val)), nil
 	case *ast.IntegerLiteral:
-- 
2.43.0


From bc4273b18de096d4bbb1f95081b6d96017a14b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 32/50] fix: only cddlc.json and cddlc.yaml are taken as
 configuration

---
 cmd/cddlc/commands/generate.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..be04661 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -97,16 +97,14 @@ func GenerateCmd(cCtx *cli.Context) error {
 }
 
 func loadConfigFromDir(dir string) (*config.Config, error) {
-	files, err := filepath.Glob(filepath.Join(dir, "cddlc.*"))
-	if err != nil {
-		return nil, err
-	}
-
-	if len(files) == 0 {
-		return nil, errNoConfiguration
+	for _, name := range []string{"cddlc.json", "cddlc.yaml"} {
+		conf, err := config.LoadConfig(filepath.Join(dir, name))
+		if !errors.Is(err, os.ErrNotExist) {
+			return conf, err
+		}
 	}
 
-	return config.LoadConfig(files[0])
+	return nil, errNoConfiguration
 }
 
 func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
-- 
2.43.0


From 1f17ebade82b330fae3ccc2c22c24dedd81b2f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 33/50] fix: the default configuration names a package

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..1782a42 100644
--- a/config/config.go
+++ b/config/config.go
@@ -87,6 +87,7 @@ func NewDefaultConfig() *Config {
 
 func newDefaultBuildConfig() *BuildConfig {
 	return &BuildConfig{
+		Package:   "dist",
 		SourceDir: ".",
 		OutDir:    "dist/",
 	}
-- 
2.43.0


From 2d997252333b7fd5edbdb58b5b6d091fe83fca4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 34/50] fix: generate reports generator and write errors and
 keeps earlier output when it fails

---
 cmd/cddlc/commands/generate.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index be04661..ed99187 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -107,20 +107,19 @@ func loadConfigFromDir(dir string) (*config.Config, error) {
 	return nil, errNoConfiguration
 }
 
-func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
+func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) (err error) {
+	defer func() {
+		if r := recover(); r != nil { // the generator panics on constructs it does not support
+			err = fmt.Errorf("failed to generate code for `%s`: %v", filepath, r)
+		}
+	}()
+
 	gen := gogen.NewGenerator(pkgName)
 	src, err := readSource(filepath)
 	if err != nil {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -136,12 +135,25 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 
 	gen.Visit(cddl)
 
-	err = addBuildHeader(out)
+	// render completely before touching the output so that a failure leaves an earlier version alone
+	var rendered bytes.Buffer
+	err = addBuildHeader(&rendered)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	if err = gen.String(&rendered); err != nil {
+		return err
+	}
+
+	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		return err
+	}
+	if _, err = rendered.WriteTo(out); err != nil {
+		out.Close()
+		return err
+	}
+	return out.Close()
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From 82bd886080fd4e81ecffebedd9a1821c3a4c28f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:54 +0000
Subject: [PATCH 35/50] fix: the upper bound of an occurrence is not taken for
 its item

---
 parser/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e445f12..ea00255 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -814,10 +814,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	p.next()
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From 091cd171f5a4e158862761af138705b7eb3bbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:29 +0000
Subject: [PATCH 36/50] fix: a number after an occurrence indicator and
 whitespace is its item, not its upper bound

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index ea00255..308c126 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -804,7 +804,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
 	}
 
-	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) {
+	// an upper bound follows its indicator without whitespace, otherwise the number is the item or its key
+	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) && p.peekPos.Offset == p.pos.Offset+1 {
 		p.next()
 		rightN, err := p.parseUintType()
 		if err != nil {
-- 
2.43.0


From 762b685c21967c52c295e6fbca262ba1ac4efe08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 37/50] fix: sockets used as range bounds are not reported as
 undefined

---
 parser/parser.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 308c126..0fdf85e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -850,6 +850,9 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	p.tasks = append(p.tasks, func() errors.Diagnostic {
 		valLeft := p.environment.Get(left.Name)
 		to := b.To
+		if right, ok := to.(*ast.Identifier); ok && (p.isUnboundSocket(left.Name) || p.isUnboundSocket(right.Name)) {
+			return nil
+		}
 		switch val := to.(type) {
 		case *ast.IntegerLiteral:
 			if _, ok := valLeft.(*ast.FloatLiteral); ok {
@@ -872,6 +875,11 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	return b, nil
 }
 
+// isUnboundSocket reports whether name is a socket or plug that no rule has extended yet
+func (p *Parser) isUnboundSocket(name string) bool {
+	return strings.HasPrefix(name, "$") && !p.environment.Exists(name)
+}
+
 func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Diagnostic) {
 	b := &ast.Range{
 		Pos:   p.pos,
@@ -898,6 +906,9 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			if p.isUnboundSocket(right.Name) {
+				return nil
+			}
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
@@ -945,6 +956,9 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 		identEnd := right.End()
 
 		p.tasks = append(p.tasks, func() errors.Diagnostic {
+			if p.isUnboundSocket(right.Name) {
+				return nil
+			}
 			if !p.environment.Exists(right.Name) {
 				return p.error(fmt.Sprintf("identifier %s referenced does not exist", ident), identStart, identEnd)
 			}
-- 
2.43.0


From a598a6bb17d8f15f4b783de2c47d46323676f3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 38/50] fix: comparison controls report a type as their
 argument

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0fdf85e..05b3b2f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -751,7 +751,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+	if !(p.peekToken.IsNumeric() && p.peekToken.IsLiteral(p.peekLiteral)) && p.peekToken != token.IDENT {
 		return nil, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
-- 
2.43.0


From c10d20ce217993201920389e96cf688945b146de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 39/50] fix: generator refuses a package name that is not an
 identifier

---
 transforms/codegen/golang/gen.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 6cc0ac8..c2ebbee 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -87,9 +87,13 @@ func (g *Generator) String(output io.Writer) (err error) {
 	if err := format.Node(&out, g.fset, g.file); err != nil {
 		return err
 	}
-	if _, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.SkipObjectResolution); err != nil {
+	parsed, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.SkipObjectResolution)
+	if err != nil {
 		return fmt.Errorf("schema cannot be expressed in Go: %w", err)
 	}
+	if parsed.Name.Name != g.pkg {
+		return fmt.Errorf("invalid package name `%s`", g.pkg)
+	}
 	_, err = out.WriteTo(output)
 	return err
 }
-- 
2.43.0


From 149c2ff4b2e1363382a163b269bd1b51250dfe05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 40/50] fix: init never writes into a configuration created
 meanwhile

---
 cmd/cddlc/commands/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..71c96b8 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -26,7 +26,7 @@ func getFileHandle(name string) (io.Writer, error) {
 		// file exists
 		return nil, errors.New("existing configuration for project found in " + fp)
 	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
+		return os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
 	default:
 		return nil, err
 	}
-- 
2.43.0


From fe3b5b5fbdd709077315d06cb155585715940791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 41/50] fix: configuration with anything after its document is
 an error

---
 config/config.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index 1782a42..1c03d12 100644
--- a/config/config.go
+++ b/config/config.go
@@ -5,6 +5,7 @@ package config
 import (
 	"encoding/json"
 	"errors"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -102,9 +103,15 @@ func LoadConfig(path string) (*Config, error) {
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-		err = json.NewDecoder(fh).Decode(config)
+		dec := json.NewDecoder(fh)
+		if err = dec.Decode(config); err == nil {
+			err = atEnd(dec)
+		}
 	case cDDLC_YAML:
-		err = yaml.NewDecoder(fh).Decode(config)
+		dec := yaml.NewDecoder(fh)
+		if err = dec.Decode(config); err == nil {
+			err = atEnd(dec)
+		}
 	default:
 		err = errors.New("unknown config file base: " + base)
 	}
@@ -115,3 +122,15 @@ func LoadConfig(path string) (*Config, error) {
 
 	return config, nil
 }
+
+// atEnd reports an error unless dec has nothing left to decode
+func atEnd(dec interface{ Decode(v interface{}) error }) error {
+	var rest interface{}
+	switch err := dec.Decode(&rest); {
+	case err == io.EOF:
+		return nil
+	case err != nil:
+		return err
+	}
+	return errors.New("config file holds more than one document")
+}
-- 
2.43.0


From 391c38dd657a05919979530ea7e88df0dbcffea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:21 +0000
Subject: [PATCH 42/50] fix: a null build in the configuration is an error, not
 a crash

---
 config/config.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/config/config.go b/config/config.go
index 1c03d12..424a36f 100644
--- a/config/config.go
+++ b/config/config.go
@@ -119,6 +119,11 @@ func LoadConfig(path string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	for _, build := range config.Builds {
+		if build == nil {
+			return nil, errors.New("config file holds an empty build")
+		}
+	}
 
 	return config, nil
 }
-- 
2.43.0


From 0f8fe35946df434accd3b1e6207fbc20634090e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 43/50] fix: an argument holding */ ended the header comment of
 generated files

---
 cmd/cddlc/commands/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index ed99187..ef92da0 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -157,7 +157,9 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) (err err
 }
 
 func addBuildHeader(f io.Writer) error {
-	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
+	command := filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ")
+	command = strings.ReplaceAll(command, "*/", "* /") // would end the comment
+	header := "/*\n  File generated using `" + command + "`. DO NOT EDIT\n*/\n\n"
 
 	_, err := f.Write([]byte(header))
 	if err != nil {
-- 
2.43.0


From 0a5589459385f9147d54b826db45217e3ea3b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:23 +0000
Subject: [PATCH 44/50] fix: sources nested millions of levels deep overflowed
 the stack

---
 parser/parser.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 05b3b2f..b4def00 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -15,6 +15,9 @@ import (
 	env "github.com/HannesKimara/cddlc/environment"
 )
 
+// maxDepth bounds the nesting of expressions, so that no source exhausts the stack
+const maxDepth = 100000
+
 type taskFn func() errors.Diagnostic
 
 type nudParseFn func() (ast.Node, errors.Diagnostic)
@@ -72,6 +75,9 @@ type Parser struct {
 	// tokens scanned beyond the peeked token while looking past comments
 	pending []lexer.TokenSer
 
+	// number of expressions being parsed inside each other
+	depth int
+
 	// hold tasks to be run after the completed ast build.
 	// used mostly to check types in type specific operators that may not exist in the environment at first pass
 	tasks []taskFn
@@ -185,6 +191,12 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 // TODO(HannesKimara): func(p *Parser) parseEntryShould(precedence, should ast.Node) (ast.Node, error)
 
 func (p *Parser) parseEntry(precedence int) (ast.Node, errors.Diagnostic) {
+	p.depth++
+	defer func() { p.depth-- }()
+	if p.depth > maxDepth {
+		return nil, p.error(fmt.Sprintf("exceeded the maximum nesting depth of %d", maxDepth), p.pos, p.pos)
+	}
+
 	// TODO(HannesKimara): in error handling return an ast.BadNode that encapsulates the section when returning the error
 	var exp ast.Node
 	if p.currToken == token.COMMENT { // TODO(HannesKimara): use this :- commentgroup, preceding and trailing comments
-- 
2.43.0


From cff4f02de570b9847d0cd6d7298b9e409bf840da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 45/50] fix: empty groups, arrays and maps had no end position

---
 ast/array.go | 2 +-
 ast/group.go | 2 +-
 ast/map.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..92cbfd0 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -15,7 +15,7 @@ func (a *Array) Start() token.Position {
 
 func (a *Array) End() token.Position {
 	if len(a.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return a.Pos.To(1) // behind the opening bracket
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
diff --git a/ast/group.go b/ast/group.go
index 54d6d41..44b82ae 100644
--- a/ast/group.go
+++ b/ast/group.go
@@ -18,7 +18,7 @@ func (g *Group) Start() token.Position {
 
 func (g *Group) End() token.Position {
 	if len(g.Entries) == 0 {
-		return token.Position{Offset: -1}
+		return g.Pos.To(1) // behind the opening bracket
 	}
 	return g.Entries[len(g.Entries)-1].End()
 }
diff --git a/ast/map.go b/ast/map.go
index 8461b02..dc57438 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -14,7 +14,7 @@ func (m *Map) Start() token.Position {
 
 func (m *Map) End() token.Position {
 	if len(m.Rules) == 0 {
-		return token.Position{Offset: -1}
+		return m.Pos.To(1) // behind the opening bracket
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
-- 
2.43.0


From fe882fb1a160344b630d2f3239afc0801e083028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:59 +0000
Subject: [PATCH 46/50] fix: bstr, nil and the sized float types ended beside
 their text

---
 ast/bytes.go | 2 +-
 ast/float.go | 6 +++++-
 ast/null.go  | 5 ++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ast/bytes.go b/ast/bytes.go
index 38ac0cc..ab0b7ac 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -27,5 +27,5 @@ func (b *BstrType) Start() token.Position {
 }
 
 func (b *BstrType) End() token.Position {
-	return b.Pos.To(5) // length of `bytes`
+	return b.Pos.To(4) // length of `bstr`
 }
diff --git a/ast/float.go b/ast/float.go
index db4952c..aece2b6 100644
--- a/ast/float.go
+++ b/ast/float.go
@@ -16,7 +16,11 @@ func (ft *FloatType) Start() token.Position {
 }
 
 func (ft *FloatType) End() token.Position {
-	return ft.Pos.To(5) // TODO: support bases float64, 32, 16
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32, token.FLOAT64:
+		return ft.Pos.To(7)
+	}
+	return ft.Pos.To(5) // length of `float`
 }
 
 // FloatLiteral represesnts the AST Node for float type token i.e. 3.412
diff --git a/ast/null.go b/ast/null.go
index 6768003..2206eb6 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -13,5 +13,8 @@ func (nt *NullType) Start() token.Position {
 }
 
 func (nt *NullType) End() token.Position {
-	return nt.Pos.To(4) // lenth of `null`
+	if nt.Token == token.NIL {
+		return nt.Pos.To(3) // length of `nil`
+	}
+	return nt.Pos.To(4) // length of `null`
 }
-- 
2.43.0


From c2658834dcc5f4f8debe450f093618c3f1ec2bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 47/50] fix: numbers not written in plain decimal ended beside
 their text

---
 ast/identifier.go   |  8 ++++++--
 ast/integer.go      |  4 ++++
 ast/uint_literal.go |  4 ++++
 parser/parser.go    | 14 +++++++++-----
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ast/identifier.go b/ast/identifier.go
index 3139dd6..b41572c 100644
--- a/ast/identifier.go
+++ b/ast/identifier.go
@@ -8,8 +8,9 @@ import (
 
 // Identifer represents the AST Node for named identifiers
 type Identifier struct {
-	Pos  token.Position
-	Name string
+	Pos    token.Position
+	EndPos token.Position `json:"-"` // behind a key that is written as a number
+	Name   string
 }
 
 func (i *Identifier) String() string {
@@ -21,6 +22,9 @@ func (i *Identifier) Start() token.Position {
 }
 
 func (i *Identifier) End() token.Position {
+	if i.EndPos.Line > 0 {
+		return i.EndPos
+	}
 	return i.Pos.To(len(i.Name))
 }
 
diff --git a/ast/integer.go b/ast/integer.go
index 3c1ac8b..dda18dc 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -36,6 +36,7 @@ func (nt *NegativeIntegerType) End() token.Position {
 // IntegerLiteral represents the AST Node for an integer literal i.e 3
 type IntegerLiteral struct {
 	Pos     token.Position
+	EndPos  token.Position `json:"-"` // behind the literal as it is written
 	Token   token.Token
 	Literal int64
 }
@@ -45,5 +46,8 @@ func (il *IntegerLiteral) Start() token.Position {
 }
 
 func (il *IntegerLiteral) End() token.Position {
+	if il.EndPos.Line > 0 {
+		return il.EndPos
+	}
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 01995e5..dc8aad2 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -9,6 +9,7 @@ import (
 // IntegerLiteral represents the AST Node for an integer literal i.e 3
 type UintLiteral struct {
 	Pos     token.Position
+	EndPos  token.Position `json:"-"` // behind the literal as it is written
 	Token   token.Token
 	Literal uint64
 }
@@ -18,5 +19,8 @@ func (ul *UintLiteral) Start() token.Position {
 }
 
 func (ul *UintLiteral) End() token.Position {
+	if ul.EndPos.Line > 0 {
+		return ul.EndPos
+	}
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
diff --git a/parser/parser.go b/parser/parser.go
index b4def00..8b186ff 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -322,6 +322,7 @@ func (p *Parser) parseUintLiteral() (*ast.UintLiteral, errors.Diagnostic) {
 		}
 		return &ast.UintLiteral{
 			Pos:     p.pos,
+			EndPos:  p.pos.To(len(p.currliteral)),
 			Token:   p.currToken,
 			Literal: lit,
 		}, nil
@@ -359,8 +360,9 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 		ident = val
 	case *ast.IntegerLiteral:
 		ident = &ast.Identifier{
-			Pos:  val.Pos,
-			Name: fmt.Sprintf("%d", val.Literal),
+			Pos:    val.Pos,
+			EndPos: val.EndPos,
+			Name:   fmt.Sprintf("%d", val.Literal),
 		}
 	default:
 		err := p.errorUnsupportedTypes(p.pos, p.currliteral, token.IDENT, token.INT)
@@ -452,7 +454,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return nil, p.error("failed to parse tag major", p.pos, p.pos)
 		}
-		tagBase.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: major}
+		tagBase.Major = &ast.UintLiteral{Pos: p.pos, EndPos: p.pos.To(len(p.currliteral)), Token: p.currToken, Literal: major}
 	case token.FLOAT:
 		p.next()
 		tagB, err := p.parseFloatTag()
@@ -519,8 +521,8 @@ func (p *Parser) parseFloatTag() (*ast.Tag, errors.Diagnostic) {
 		return nil, p.error(err.Error(), p.pos, p.pos)
 	}
 
-	tag.Major = &ast.UintLiteral{Pos: p.pos, Token: p.currToken, Literal: majorUint}
-	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), Token: p.currToken, Literal: numberUint}
+	tag.Major = &ast.UintLiteral{Pos: p.pos, EndPos: p.pos.To(len(sections[0])), Token: p.currToken, Literal: majorUint}
+	tag.TagNumber = &ast.UintLiteral{Pos: p.pos.To(len(sections[0]) + 1), EndPos: p.pos.To(len(p.currliteral)), Token: p.currToken, Literal: numberUint}
 
 	return tag, nil
 }
@@ -637,6 +639,7 @@ func (p *Parser) parseIntegerLiteral() (*ast.IntegerLiteral, errors.Diagnostic)
 		}
 		return &ast.IntegerLiteral{
 			Pos:     p.pos,
+			EndPos:  p.pos.To(len(p.currliteral)),
 			Token:   p.currToken,
 			Literal: lit,
 		}, nil
@@ -809,6 +812,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		}
 		leftU = &ast.UintLiteral{
 			Pos:     val.Pos,
+			EndPos:  val.EndPos,
 			Token:   token.UINT,
 			Literal: uint64(val.Literal),
 		}
-- 
2.43.0


From 26c99e8fcd061c8dcc71d81cfd8aec4b0416035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 48/50] fix: validating a configuration with an empty plugin
 crashed

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 424a36f..9e4fd02 100644
--- a/config/config.go
+++ b/config/config.go
@@ -68,6 +68,9 @@ type Config struct {
 
 func (c *Config) Valid() error {
 	for _, plugin := range c.Plugins {
+		if plugin == nil {
+			return errors.New("config holds an empty plugin")
+		}
 		err := plugin.Valid()
 		if err != nil {
 			return err
-- 
2.43.0


From fe22c0879a99af43220051798b55467ade76b477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 49/50] fix: generated size checks lacked the import they need,
 and rendering twice repeated it

---
 transforms/codegen/golang/gen.go          | 16 ++++++++++------
 transforms/codegen/golang/gen_grouped.go  |  1 +
 transforms/codegen/golang/gen_operator.go |  2 --
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index c2ebbee..a8ea16d 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -70,21 +70,20 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
-	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
+	file := *g.file // the declarations may be rendered again
 
-	if len(g.file.Imports) > 0 {
+	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-		for _, spec := range g.file.Imports {
+		for _, spec := range g.imports {
 			importDecl.Specs = append(importDecl.Specs, spec)
 		}
 
-		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
+		file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
 	var out bytes.Buffer
-	if err := format.Node(&out, g.fset, g.file); err != nil {
+	if err := format.Node(&out, g.fset, &file); err != nil {
 		return err
 	}
 	parsed, err := parser.ParseFile(token.NewFileSet(), "", out.Bytes(), parser.SkipObjectResolution)
@@ -104,6 +103,11 @@ func (g *Generator) Package() string {
 }
 
 func (g *Generator) addImport(value string, name string) {
+	for _, im := range g.imports {
+		if im.Path.Value == "\""+value+"\"" { // already imported
+			return
+		}
+	}
 	var ident *gast.Ident
 	if name != "" { // nullable ident to prevent space on generated output
 		ident = gast.NewIdent(name)
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 01d2477..19c89e4 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -112,6 +112,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 	}
 
 	if len(validators) > 0 {
+		g.addImport(VALIDATOR_PKG, "")
 		for _, validator := range validators {
 			ex := &gast.ExprStmt{
 				X: &validator,
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 5b861d0..308cb57 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -38,8 +38,6 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	default:
 		panic("fix later")
 	}
-	g.addImport(VALIDATOR_PKG, "")
-
 	log.Println("Len validators: ", len(stct.validators))
 
 	return stct, nil
-- 
2.43.0


From 800a0e39e8711d0870843fb2469bad95d8c6c70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:55 +0000
Subject: [PATCH 50/50] fix: no case conversion of the generator options was
 known

---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..104ae11 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -37,7 +37,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 }
 
 func init() {
-	converters := make(map[string]stringConverter)
+	converters = make(map[string]stringConverter)
 
 	converters["camelcase"] = strcase.ToCamel
 	converters["snakecase"] = strcase.ToSnake
-- 
2.43.0

