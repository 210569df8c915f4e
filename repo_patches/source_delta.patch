From df606479440b404f2674dda2a9d6bec015e6fc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 01/37] fix: parse infix operands and assignment values with
 their own precedence

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 61eb7f7..850209a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -395,7 +395,7 @@ func (p *Parser) parseAssignStmt() ast.Statement {
 		return nil
 	}
 
-	stmt.Value = p.parseExpression(SUM)
+	stmt.Value = p.parseExpression(LOWEST)
 
 	return stmt
 }
@@ -762,6 +762,8 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		Left:     left,
 	}
 
+	precedence := precedences[p.curToken.Type]
+
 	p.nextToken() // skip operator
 
 	if p.curTokenIs(token.RBRACES) {
@@ -769,7 +771,7 @@ func (p *Parser) parseInfixExp(left ast.Expression) ast.Expression {
 		return nil
 	}
 
-	exp.Right = p.parseExpression(SUM)
+	exp.Right = p.parseExpression(precedence)
 
 	return exp
 }
-- 
2.43.0


From 877e9585e51f62cf031878ce35affb2c242b2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:51 +0000
Subject: [PATCH 02/37] fix: report integer modulo by zero as an error instead
 of panicking

---
 evaluator/evaluator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index b4fcc06..0a56d85 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -844,6 +844,10 @@ func (e *Evaluator) evalIntegerInfixExp(
 
 		return &object.Int{Value: leftVal / rightVal}
 	case "%":
+		if rightVal == 0 {
+			return e.newError(leftNode, fail.ErrDivisionByZero)
+		}
+
 		return &object.Int{Value: leftVal % rightVal}
 	case "==":
 		return nativeBoolToBooleanObject(leftVal == rightVal)
-- 
2.43.0


From b5c23c0371981a16d413e5be0f2887de6e8a23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:52 +0000
Subject: [PATCH 03/37] fix: negate every boolean and nil value, not only the
 shared instances

---
 evaluator/evaluator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 0a56d85..938023e 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -946,12 +946,10 @@ func (e *Evaluator) evalBangOperatorExp(
 	right object.Object,
 	node ast.Node,
 ) object.Object {
-	switch right {
-	case FALSE:
-		return TRUE
-	case TRUE:
-		return FALSE
-	case NIL:
+	switch right := right.(type) {
+	case *object.Bool:
+		return nativeBoolToBooleanObject(!right.Value)
+	case *object.Nil:
 		return TRUE
 	}
 
-- 
2.43.0


From f66189f223071495bc55185d6d60a206d742b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 04/37] fix: decrement floats below one and negative floats
 correctly

---
 object/float.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/object/float.go b/object/float.go
index 00ae395..dc78d15 100644
--- a/object/float.go
+++ b/object/float.go
@@ -2,6 +2,7 @@ package object
 
 import (
 	"fmt"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -42,25 +43,15 @@ func (f *Float) SubtractFromFloat(num uint) error {
 		return nil
 	}
 
-	nums := strings.Split(strValue, ".")
-
-	// Parse the integer part
-	intPart, err := strconv.ParseUint(nums[0], 10, 64)
-	if err != nil {
-		return err
+	// Subtract on the decimal representation, so that 4.4 - 1 is 3.4
+	dec, ok := new(big.Rat).SetString(strValue)
+	if !ok {
+		return fmt.Errorf("could not parse '%s' as a decimal number", strValue)
 	}
 
-	// Subtract the uint value from the integer part
-	intPart -= uint64(num)
-
-	// Combine the modified integer part and the decimal part
-	resultStr := fmt.Sprintf("%d.%s", intPart, nums[1])
+	dec.Sub(dec, new(big.Rat).SetFrac64(int64(num), 1))
 
-	// Parse the result back to float64
-	result, err := strconv.ParseFloat(resultStr, 64)
-	if err != nil {
-		return err
-	}
+	result, _ := dec.Float64()
 
 	f.Value = result
 
-- 
2.43.0


From 4488652f178dd8fdd0f472b29409f8a6719ddea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:45 +0000
Subject: [PATCH 05/37] fix: keep '}}' at the beginning of a text run

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 942a59f..2cbc1b1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -117,7 +117,7 @@ func (l *Lexer) NextToken() token.Token {
 		return tok
 	}
 
-	if l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
+	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
 		return l.bracesToken(token.RBRACES, "}}")
 	}
 
-- 
2.43.0


From 66796e83d66b14586bbfa5615e2fed0ea3fda416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:46 +0000
Subject: [PATCH 06/37] fix: end comments only at '--}}' and reject
 unterminated ones

---
 lexer/lexer.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 2cbc1b1..662fe92 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -110,8 +110,12 @@ func (l *Lexer) NextToken() token.Token {
 		tok := l.bracesToken(token.LBRACES, "{{")
 
 		if l.char == '-' && l.peekChar() == '-' {
-			l.skipComment()
-			return l.NextToken()
+			if l.skipComment() {
+				return l.NextToken()
+			}
+
+			// the comment is never closed
+			tok.Type = token.ILLEGAL
 		}
 
 		return tok
@@ -573,23 +577,24 @@ func (l *Lexer) skipWhitespace() {
 	}
 }
 
-func (l *Lexer) skipComment() {
+// skipComment moves the lexer past the end of the comment. It
+// returns false when the comment doesn't have the closing "--}}".
+func (l *Lexer) skipComment() bool {
 	for l.char != 0 {
-		if l.char != '-' || l.peekChar() != '-' {
+		if !strings.HasPrefix(l.input[l.pos:], "--}}") {
 			l.readChar()
 			continue
 		}
 
+		l.isHTML = true
+
 		l.readChar() // skip "-"
 		l.readChar() // skip "-"
+		l.readChar() // skip "}"
+		l.readChar() // skip "}"
 
-		if l.char == '}' || l.peekChar() == '}' {
-			break
-		}
+		return true
 	}
 
-	l.isHTML = true
-
-	l.readChar() // skip "}"
-	l.readChar() // skip "}"
+	return false
 }
-- 
2.43.0


From b0d84aaba4d275824a53fa22d3be42341ef52c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:48 +0000
Subject: [PATCH 07/37] fix: emit both escaped braces literally when a third
 one follows

---
 lexer/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 662fe92..a12f1d1 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -520,6 +520,11 @@ func (l *Lexer) readHTML() string {
 			out.Truncate(out.Len() - 1)
 		}
 
+		if escapedBraces {
+			out.WriteByte(l.char)
+			l.readChar() // skip first brace
+		}
+
 		out.WriteByte(l.char)
 		l.readChar()
 	}
-- 
2.43.0


From f2df783fca72e83d21c90a08c1f11678c1db4342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 08/37] fix: don't treat a NUL byte as the end of input or move
 past the end

---
 lexer/lexer.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index a12f1d1..e88fef6 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -101,7 +101,7 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.char == 0 {
+	if l.isEOF() {
 		l.tokenBegins()
 		return l.newToken(token.EOF, "")
 	}
@@ -454,7 +454,7 @@ func (l *Lexer) readString() string {
 
 	pos := l.pos
 
-	for l.char != 0 {
+	for !l.isEOF() {
 		prevChar := l.char
 
 		l.readChar()
@@ -508,7 +508,7 @@ func (l *Lexer) readHTML() string {
 	var out bytes.Buffer
 	l.tokenBegins()
 
-	for l.isHTML && l.char != 0 {
+	for l.isHTML && !l.isEOF() {
 		isDirective, escapedDir := l.isDirectiveToken()
 		areBraces, escapedBraces := l.areBracesToken()
 
@@ -540,7 +540,17 @@ func (l *Lexer) prevChar() byte {
 	return 0
 }
 
+// isEOF reports whether the whole input is consumed. The current
+// character can't tell it because a NUL byte is a valid character.
+func (l *Lexer) isEOF() bool {
+	return l.pos >= len(l.input)
+}
+
 func (l *Lexer) readChar() {
+	if l.readPos > len(l.input) {
+		return
+	}
+
 	l.prevLine = l.line
 
 	if l.readPos >= len(l.input) {
@@ -585,7 +595,7 @@ func (l *Lexer) skipWhitespace() {
 // skipComment moves the lexer past the end of the comment. It
 // returns false when the comment doesn't have the closing "--}}".
 func (l *Lexer) skipComment() bool {
-	for l.char != 0 {
+	for !l.isEOF() {
 		if !strings.HasPrefix(l.input[l.pos:], "--}}") {
 			l.readChar()
 			continue
-- 
2.43.0


From cdd19dfc1ce9da04f6033aaf013ad1972bb76e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 09/37] fix: advance past an illegal character instead of
 returning it forever

---
 lexer/lexer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index e88fef6..31e21e5 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -3,6 +3,7 @@ package lexer
 import (
 	"bytes"
 	"strings"
+	"unicode/utf8"
 
 	token "github.com/textwire/textwire/v2/token"
 )
@@ -147,8 +148,17 @@ func (l *Lexer) bracesToken(tok token.TokenType, literal string) token.Token {
 }
 
 func (l *Lexer) illegalToken() token.Token {
+	pos := l.pos
+
 	l.tokenBegins()
-	return l.newToken(token.ILLEGAL, string(l.char))
+
+	_, size := utf8.DecodeRuneInString(l.input[pos:])
+
+	for i := 0; i < size; i++ {
+		l.readChar() // skip the whole illegal character
+	}
+
+	return l.newToken(token.ILLEGAL, l.input[pos:l.pos])
 }
 
 func (l *Lexer) directiveToken() token.Token {
-- 
2.43.0


From 061123f71751d375f0774b4b1f51c84f9a1a1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:09 +0000
Subject: [PATCH 10/37] fix: name the @each and @dump tokens in error messages

---
 token/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/token/utils.go b/token/utils.go
index cb1b181..eb82ba6 100644
--- a/token/utils.go
+++ b/token/utils.go
@@ -53,6 +53,7 @@ var tokens = [...]string{
 	RESERVE:     "@reserve",
 	INSERT:      "@insert",
 	FOR:         "@for",
+	EACH:        "@each",
 	BREAK:       "@break",
 	CONTINUE:    "@continue",
 	BREAK_IF:    "@breakIf",
@@ -63,6 +64,7 @@ var tokens = [...]string{
 	END:         "@end",
 	COMPONENT:   "@component",
 	SLOT:        "@slot",
+	DUMP:        "@dump",
 }
 
 func String(t TokenType) string {
-- 
2.43.0


From a0fefec488c0887e388fe07b4ca53a6cd0d918cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 11/37] fix: parse empty bodies and require @end for blocks,
 inserts and slots

---
 parser/parser.go | 60 ++++++++++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 850209a..d952527 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -584,8 +584,6 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			if !p.expectPeek(token.RPAREN) { // move to ")"
 				return nil
 			}
-
-			p.nextToken() // skip ")"
 		}
 
 		slots = append(slots, &ast.SlotStmt{
@@ -594,14 +592,23 @@ func (p *Parser) parseSlots() []*ast.SlotStmt {
 			Body:  p.parseBlockStmt(),
 		})
 
-		p.nextToken() // skip block statement
-		p.nextToken() // skip "@end"
+		if !p.expectPeek(token.END) { // move to "@end" of the slot
+			return nil
+		}
 
-		for p.curTokenIs(token.HTML) {
-			p.nextToken() // skip whitespace
+		for p.peekTokenIs(token.HTML) {
+			p.nextToken() // move to whitespace
+		}
+
+		if p.peekTokenIs(token.SLOT) {
+			p.nextToken() // move to "@slot"
 		}
 	}
 
+	if !p.expectPeek(token.END) { // move to "@end" of the component
+		return nil
+	}
+
 	return slots
 }
 
@@ -665,8 +672,11 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 	}
 
 	if hasBody {
-		p.nextToken() // skip ")"
 		stmt.Block = p.parseBlockStmt()
+
+		if !p.expectPeek(token.END) { // move to "@end"
+			return nil
+		}
 	}
 
 	p.inserts[stmt.Name.Value] = stmt
@@ -812,8 +822,6 @@ func (p *Parser) parseIfStmt() *ast.IfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Consequence = p.parseBlockStmt()
 
 	for p.peekTokenIs(token.ELSE_IF) {
@@ -846,7 +854,12 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "@elseif"
+	tok := p.curToken // "@elseif"
+
+	if !p.expectPeek(token.LPAREN) { // move to "("
+		return nil
+	}
+
 	p.nextToken() // skip "("
 
 	condition := p.parseExpression(LOWEST)
@@ -855,10 +868,8 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	return &ast.ElseIfStmt{
-		Token:       p.curToken,
+		Token:       tok,
 		Condition:   condition,
 		Consequence: p.parseBlockStmt(),
 	}
@@ -866,7 +877,6 @@ func (p *Parser) parseElseIfStmt() *ast.ElseIfStmt {
 
 func (p *Parser) parseAlternativeBlock() *ast.BlockStmt {
 	p.nextToken() // move to "@else"
-	p.nextToken() // skip "@else"
 
 	alt := p.parseBlockStmt()
 
@@ -913,12 +923,10 @@ func (p *Parser) parseForStmt() *ast.ForStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -955,12 +963,10 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip ")"
-
 	stmt.Block = p.parseBlockStmt()
 
 	if p.peekTokenIs(token.ELSE) {
-		p.nextToken() // skip "@else"
+		p.nextToken() // move to "@else"
 		stmt.Alternative = p.parseBlockStmt()
 	}
 
@@ -971,21 +977,19 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 	return stmt
 }
 
+// parseBlockStmt parses statements that follow the current token
+// up to "@else", "@elseif" or "@end", which stays the peek token.
 func (p *Parser) parseBlockStmt() *ast.BlockStmt {
-	stmt := &ast.BlockStmt{Token: p.curToken}
+	stmt := &ast.BlockStmt{Token: p.peekToken}
+
+	for !p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END, token.EOF, token.ILLEGAL) {
+		p.nextToken() // move to the next statement
 
-	for !p.curTokenIs(token.END) {
 		block := p.parseStatement()
 
 		if block != nil {
 			stmt.Statements = append(stmt.Statements, block)
 		}
-
-		if p.peekTokenIs(token.ELSE, token.ELSE_IF, token.END) {
-			break
-		}
-
-		p.nextToken() // skip statement
 	}
 
 	return stmt
-- 
2.43.0


From f3bb8b0f40dedaf06dadcfff8c41551460095f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:01 +0000
Subject: [PATCH 12/37] fix: require the closing parenthesis and braces of
 every statement

---
 parser/parser.go | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d952527..125eeaf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -157,10 +157,8 @@ func (p *Parser) parseStatement() ast.Statement {
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
-	case token.LBRACES:
-		return p.parseEmbeddedCode()
-	case token.SEMI:
-		return p.parseEmbeddedCode()
+	case token.LBRACES, token.SEMI:
+		return p.parseBracesStmt()
 	case token.IF:
 		return p.parseIfStmt()
 	case token.FOR:
@@ -192,6 +190,22 @@ func (p *Parser) parseStatement() ast.Statement {
 	}
 }
 
+// parseBracesStmt parses one of the statements inside of "{{ }}", which
+// must be followed by the closing braces or by the next statement.
+func (p *Parser) parseBracesStmt() ast.Statement {
+	stmt := p.parseEmbeddedCode()
+
+	if stmt == nil || p.peekTokenIs(token.SEMI) {
+		return stmt
+	}
+
+	if !p.curTokenIs(token.RBRACES) && !p.expectPeek(token.RBRACES) { // move to "}}"
+		return nil
+	}
+
+	return stmt
+}
+
 func (p *Parser) parseEmbeddedCode() ast.Statement {
 	p.nextToken() // skip "{{" or ";" or "("
 
@@ -416,6 +430,10 @@ func (p *Parser) parseUseStmt() ast.Statement {
 		Value: p.parseAliasPathShortcut("layouts"),
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.useStmt = stmt
 
 	return stmt
@@ -434,6 +452,10 @@ func (p *Parser) parseBreakIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -450,6 +472,10 @@ func (p *Parser) parseContinueIfStmt() ast.Statement {
 
 	stmt.Condition = p.parseExpression(LOWEST)
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	return stmt
 }
 
@@ -628,6 +654,10 @@ func (p *Parser) parseReserveStmt() ast.Statement {
 		Value: p.curToken.Literal,
 	}
 
+	if !p.expectPeek(token.RPAREN) { // move to ")"
+		return nil
+	}
+
 	p.reserves[stmt.Name.Value] = stmt
 
 	return stmt
@@ -661,6 +691,10 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		p.nextToken() // skip ","
 		stmt.Argument = p.parseExpression(LOWEST)
 
+		if !p.expectPeek(token.RPAREN) { // move to ")"
+			return nil
+		}
+
 		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
-- 
2.43.0


From 2c7d0308ecced7c63a98cf77858965df0ee54474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 13/37] fix: stop parsing a malformed object literal instead of
 looping forever

---
 parser/parser.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 125eeaf..fac3f80 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -363,20 +363,24 @@ func (p *Parser) parseObjectLiteral() ast.Expression {
 		if p.peekTokenIs(token.COLON) {
 			p.nextToken() // move to ":"
 			p.nextToken() // skip to ":"
-
-			obj.Pairs[key] = p.parseExpression(LOWEST)
-		} else {
-			obj.Pairs[key] = p.parseExpression(LOWEST)
 		}
 
-		if p.peekTokenIs(token.RBRACE) {
-			p.nextToken() // skip "}"
-			break
+		val := p.parseExpression(LOWEST)
+
+		if val == nil {
+			return nil
 		}
 
+		obj.Pairs[key] = val
+
 		if p.peekTokenIs(token.COMMA) {
 			p.nextToken() // move to ","
 			p.nextToken() // skip ","
+			continue
+		}
+
+		if !p.expectPeek(token.RBRACE) { // move to "}"
+			return nil
 		}
 	}
 
-- 
2.43.0


From 9b3408a30c43101c4af17310e3e66bc4ac46d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:34 +0000
Subject: [PATCH 14/37] fix: report every illegal token, wherever it appears

---
 parser/parser.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index fac3f80..4374a29 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -127,12 +127,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 		stmt := p.parseStatement()
 
 		if p.curTokenIs(token.ILLEGAL) {
-			p.newError(
-				p.curToken.ErrorLine(),
-				fail.ErrIllegalToken,
-				p.curToken.Literal,
-			)
-			return nil
+			return nil // the error is already recorded
 		}
 
 		if stmt == nil {
@@ -277,6 +272,14 @@ func (p *Parser) newError(line uint, msg string, args ...any) {
 func (p *Parser) nextToken() {
 	p.curToken = p.peekToken
 	p.peekToken = p.l.NextToken()
+
+	if p.peekTokenIs(token.ILLEGAL) {
+		p.newError(
+			p.peekToken.ErrorLine(),
+			fail.ErrIllegalToken,
+			p.peekToken.Literal,
+		)
+	}
 }
 
 func (p *Parser) parseIdentifier() ast.Expression {
-- 
2.43.0


From 7ed22a59a4fbe322748b3e016611b8cfdfd11ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 15/37] fix: keep the whitespace that follows a component
 without slots

---
 parser/parser.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 4374a29..f784cb1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -523,13 +523,10 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	if p.peekTokenIs(token.SLOT) {
 		p.nextToken() // skip ")"
 		stmt.Slots = p.parseSlots()
-	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) {
+	} else if p.peekTokenIs(token.HTML) && isWhitespace(p.peekToken.Literal) && p.slotFollowsPeek() {
 		p.nextToken() // skip ")"
-
-		if p.peekTokenIs(token.SLOT) {
-			p.nextToken() // skip whitespace
-			stmt.Slots = p.parseSlots()
-		}
+		p.nextToken() // skip whitespace
+		stmt.Slots = p.parseSlots()
 	}
 
 	p.components = append(p.components, stmt)
@@ -537,6 +534,14 @@ func (p *Parser) parseComponentStmt() ast.Statement {
 	return stmt
 }
 
+// slotFollowsPeek tells if the token after the peek token is "@slot"
+func (p *Parser) slotFollowsPeek() bool {
+	lookahead := *p.l
+	next := lookahead.NextToken()
+
+	return next.Type == token.SLOT
+}
+
 func (p *Parser) parseAliasPathShortcut(shortenTo string) string {
 	name := p.curToken.Literal
 
-- 
2.43.0


From f6803d1426ee3afba016140814b3e172f101b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:03 +0000
Subject: [PATCH 16/37] fix: limit nesting depth so that a template cannot
 exhaust the stack

---
 fail/fail.go     |  2 ++
 parser/parser.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index dd7897b..8df094c 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -26,6 +26,8 @@ const (
 	ErrExpectedComponentName     = "expected component name, got empty string instead"
 	ErrUndefinedComponent        = "component '%s' is not defined. Check if component exists"
 	ErrUndefinedInsert           = "insert with the name '%s' is not defined in layout. Check if you have a matching reserve statement with the same name"
+	ErrNestingTooDeep            = "statements or expressions are nested too deep, the limit is %d"
+	ErrExpressionTooLong         = "expression is too long, the limit is %d operators"
 	ErrDuplicateInserts          = "duplicate insert statements with the name '%s' found"
 
 	// Evaluator (interpreter) errors
diff --git a/parser/parser.go b/parser/parser.go
index f784cb1..9605af5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -30,6 +30,16 @@ const (
 	POSTFIX       // X++ or X--
 )
 
+const (
+	// maxNesting is the maximum depth of nested statements and
+	// expressions. Without the limit a template can exhaust the stack.
+	maxNesting = 10_000
+
+	// maxChain is the maximum number of operators applied one
+	// after another in a single expression.
+	maxChain = 100_000
+)
+
 var precedences = map[token.TokenType]int{
 	token.QUESTION: TERNARY,
 	token.EQ:       EQ,
@@ -54,6 +64,7 @@ type Parser struct {
 	l        *lexer.Lexer
 	errors   []*fail.Error
 	filepath string
+	nesting  int
 
 	curToken  token.Token
 	peekToken token.Token
@@ -149,6 +160,12 @@ func (p *Parser) ParseProgram() *ast.Program {
 }
 
 func (p *Parser) parseStatement() ast.Statement {
+	if !p.enterNesting() {
+		return nil
+	}
+
+	defer p.leaveNesting()
+
 	switch p.curToken.Type {
 	case token.HTML:
 		return p.parseHTMLStmt()
@@ -1053,7 +1070,29 @@ func (p *Parser) parseExpressionStmt() ast.Statement {
 	return result
 }
 
+// enterNesting returns false when the code is nested too deep
+func (p *Parser) enterNesting() bool {
+	if p.nesting >= maxNesting {
+		p.newError(p.curToken.ErrorLine(), fail.ErrNestingTooDeep, maxNesting)
+		return false
+	}
+
+	p.nesting++
+
+	return true
+}
+
+func (p *Parser) leaveNesting() {
+	p.nesting--
+}
+
 func (p *Parser) parseExpression(precedence int) ast.Expression {
+	if !p.enterNesting() {
+		return nil
+	}
+
+	defer p.leaveNesting()
+
 	prefix := p.prefixParseFns[p.curToken.Type]
 
 	if prefix == nil {
@@ -1066,6 +1105,7 @@ func (p *Parser) parseExpression(precedence int) ast.Expression {
 	}
 
 	leftExp := prefix()
+	chain := 0
 
 	for !p.peekTokenIs(token.RBRACES, token.SEMI, token.RPAREN) && precedence < p.peekPrecedence() {
 		infix := p.infixParseFns[p.peekToken.Type]
@@ -1074,6 +1114,11 @@ func (p *Parser) parseExpression(precedence int) ast.Expression {
 			return leftExp
 		}
 
+		if chain++; chain > maxChain {
+			p.newError(p.peekToken.ErrorLine(), fail.ErrExpressionTooLong, maxChain)
+			return nil
+		}
+
 		p.nextToken()
 
 		leftExp = infix(leftExp)
-- 
2.43.0


From db750a63d64ad6591acd0398297cdd79e3aa6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:11 +0000
Subject: [PATCH 17/37] fix: skip consecutive comments without recursion

---
 lexer/lexer.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 31e21e5..60cc42a 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -102,24 +102,23 @@ func (l *Lexer) NextToken() token.Token {
 		l.skipWhitespace()
 	}
 
-	if l.isEOF() {
-		l.tokenBegins()
-		return l.newToken(token.EOF, "")
-	}
-
-	if l.char == '{' && l.peekChar() == '{' {
+	for l.char == '{' && l.peekChar() == '{' {
 		tok := l.bracesToken(token.LBRACES, "{{")
 
-		if l.char == '-' && l.peekChar() == '-' {
-			if l.skipComment() {
-				return l.NextToken()
-			}
+		if l.char != '-' || l.peekChar() != '-' {
+			return tok
+		}
 
+		if !l.skipComment() {
 			// the comment is never closed
 			tok.Type = token.ILLEGAL
+			return tok
 		}
+	}
 
-		return tok
+	if l.isEOF() {
+		l.tokenBegins()
+		return l.newToken(token.EOF, "")
 	}
 
 	if !l.isHTML && l.char == '}' && l.peekChar() == '}' && l.countCurlyBraces == 0 {
-- 
2.43.0


From b307e4f8bd1f3f1154ec15e2e87ca789e98936d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:39 +0000
Subject: [PATCH 18/37] fix: evaluate @for clauses once per pass, allow absent
 ones and honour @break in @else

---
 evaluator/evaluator.go | 81 ++++++++++++++++++++++++++----------------
 fail/fail.go           |  1 +
 2 files changed, 52 insertions(+), 30 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 938023e..1d7efbc 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -284,30 +284,20 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Object {
 	newEnv := object.NewEnclosedEnv(env)
 
-	var init object.Object
 	var blocks bytes.Buffer
 
 	if node.Init != nil {
-		if init = e.Eval(node.Init, newEnv); isError(init) {
+		if init := e.Eval(node.Init, newEnv); isError(init) {
 			return init
 		}
 	}
 
-	// evaluate alternative block if user's condition is false
-	if node.Condition != nil {
-		cond := e.Eval(node.Condition, newEnv)
-
-		if isError(cond) {
-			return cond
-		}
-
-		if !isTruthy(cond) && node.Alternative != nil {
-			return e.Eval(node.Alternative, newEnv)
-		}
+	if node.Condition == nil {
+		return e.newError(node, fail.ErrForMustHaveCondition)
 	}
 
 	// loop through the block until the user's condition is false
-	for {
+	for isFirstPass := true; ; isFirstPass = false {
 		cond := e.Eval(node.Condition, newEnv)
 
 		if isError(cond) {
@@ -315,6 +305,11 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 		}
 
 		if !isTruthy(cond) {
+			// evaluate alternative block if user's condition is false at entry
+			if isFirstPass && node.Alternative != nil {
+				return e.Eval(node.Alternative, newEnv)
+			}
+
 			break
 		}
 
@@ -326,33 +321,59 @@ func (e *Evaluator) evalForStmt(node *ast.ForStmt, env *object.Env) object.Objec
 
 		blocks.WriteString(block.String())
 
-		post := e.Eval(node.Post, newEnv)
+		if hasBreakStmt(block) {
+			break
+		}
 
-		if isError(post) {
+		if post := e.evalForPost(node, newEnv); isError(post) {
 			return post
 		}
+	}
 
-		if node.Init == nil || node.Post == nil {
-			continue
-		}
+	return &object.HTML{Value: blocks.String()}
+}
 
-		varName := node.Init.(*ast.AssignStmt).Name.Value
+// evalForPost evaluates the post statement of the for loop and assigns
+// its result to the variable that the statement increments or decrements,
+// or to the variable from the init statement for any other expression.
+func (e *Evaluator) evalForPost(node *ast.ForStmt, env *object.Env) object.Object {
+	if node.Post == nil {
+		return NIL
+	}
 
-		err := newEnv.Set(varName, post)
-		if err != nil {
-			return e.newError(node, "%s", err.Error())
-		}
+	post := e.Eval(node.Post, env)
 
-		if hasBreakStmt(block) {
-			break
-		}
+	if isError(post) {
+		return post
+	}
 
-		if hasContinueStmt(block) {
-			continue
+	expStmt, ok := node.Post.(*ast.ExpressionStmt)
+
+	if !ok {
+		return NIL // the assignment is already done
+	}
+
+	var varName string
+
+	if init, ok := node.Init.(*ast.AssignStmt); ok {
+		varName = init.Name.Value
+	}
+
+	if postfix, ok := expStmt.Expression.(*ast.PostfixExp); ok {
+		if ident, ok := postfix.Left.(*ast.Identifier); ok {
+			varName = ident.Value
 		}
 	}
 
-	return &object.HTML{Value: blocks.String()}
+	if varName == "" {
+		return NIL
+	}
+
+	if err := env.Set(varName, post); err != nil {
+		return e.newError(node, "%s", err.Error())
+	}
+
+	return NIL
 }
 
 func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Object {
diff --git a/fail/fail.go b/fail/fail.go
index 8df094c..33570de 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -44,6 +44,7 @@ const (
 	ErrVariableTypeMismatch    = "cannot assign variable '%s' of type '%s' to type '%s'"
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
+	ErrForMustHaveCondition    = "the '@for' loop must have a condition"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
-- 
2.43.0


From c2d680fe5bd529dbc9c7d7196e5711892c1231fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:46 +0000
Subject: [PATCH 19/37] fix: report iterating a non-array in @each as an error

---
 evaluator/evaluator.go | 8 +++++++-
 fail/fail.go           | 1 +
 parser/parser.go       | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 1d7efbc..7467ef9 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -388,7 +388,13 @@ func (e *Evaluator) evalEachStmt(node *ast.EachStmt, env *object.Env) object.Obj
 		return arrObj
 	}
 
-	elems := arrObj.(*object.Array).Elements
+	arr, ok := arrObj.(*object.Array)
+
+	if !ok {
+		return e.newError(node, fail.ErrEachMustHaveArray, arrObj.Type())
+	}
+
+	elems := arr.Elements
 	elemsLen := len(elems)
 
 	// evaluate alternative block if array is empty
diff --git a/fail/fail.go b/fail/fail.go
index 33570de..bd9ae95 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -45,6 +45,7 @@ const (
 	ErrDotOperatorNotSupported = "the dot operator is not supported for type '%s'"
 	ErrPropertyNotFound        = "property '%s' not found in type '%s'"
 	ErrForMustHaveCondition    = "the '@for' loop must have a condition"
+	ErrEachMustHaveArray       = "cannot iterate over type '%s' with the '@each' loop"
 	ErrDivisionByZero          = "division by zero error. The right-hand side of the division operator must not be zero"
 
 	// Functions
diff --git a/parser/parser.go b/parser/parser.go
index 9605af5..49e1be5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1007,7 +1007,9 @@ func (p *Parser) parseEachStmt() *ast.EachStmt {
 		return nil
 	}
 
-	p.nextToken() // skip "("
+	if !p.expectPeek(token.IDENT) { // move to the loop variable
+		return nil
+	}
 
 	stmt.Var = &ast.Identifier{
 		Token: p.curToken, // identifier
-- 
2.43.0


From 1d198c006651881afd306cda0fa9b8d26c73bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 20/37] fix: report property access on non-objects and empty
 property names as errors

---
 evaluator/evaluator.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 7467ef9..7693225 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"html"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/ctx"
@@ -563,8 +564,9 @@ func (e *Evaluator) evalObjectIndexExp(
 		return pair
 	}
 
-	// make first letter lowercase on idx
-	idxUpper := strings.ToUpper(idx[:1]) + idx[1:]
+	// make first letter uppercase on idx
+	_, size := utf8.DecodeRuneInString(idx)
+	idxUpper := strings.ToUpper(idx[:size]) + idx[size:]
 
 	if pair, ok = objObj.Pairs[idxUpper]; !ok {
 		return e.newError(node, fail.ErrPropertyNotFound, idx, object.OBJ_OBJ)
@@ -580,9 +582,15 @@ func (e *Evaluator) evalDotExp(node *ast.DotExp, env *object.Env) object.Object
 		return left
 	}
 
+	obj, ok := left.(*object.Obj)
+
+	if !ok {
+		return e.newError(node, fail.ErrDotOperatorNotSupported, left.Type())
+	}
+
 	key := node.Key.(*ast.Identifier)
 
-	return e.evalObjectIndexExp(left.(*object.Obj), key.Value, node)
+	return e.evalObjectIndexExp(obj, key.Value, node)
 }
 
 func (e *Evaluator) evalString(node *ast.StringLiteral, _ *object.Env) object.Object {
-- 
2.43.0


From 00a5a110351178aa9b5e604dc14c515799330e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:48 +0000
Subject: [PATCH 21/37] fix: look up object keys by the exact text of a string
 literal

---
 evaluator/evaluator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 7693225..faaba26 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -531,7 +531,14 @@ func (e *Evaluator) evalIndexExp(
 	case left.Is(object.ARR_OBJ) && idx.Is(object.INT_OBJ):
 		return e.evalArrayIndexExp(left, idx)
 	case left.Is(object.OBJ_OBJ) && idx.Is(object.STR_OBJ):
-		return e.evalObjectIndexExp(left.(*object.Obj), idx.(*object.Str).Value, node.Index)
+		key := idx.(*object.Str).Value
+
+		// the value of a string literal is HTML-escaped, the key is not
+		if literal, ok := node.Index.(*ast.StringLiteral); ok {
+			key = literal.Value
+		}
+
+		return e.evalObjectIndexExp(left.(*object.Obj), key, node.Index)
 	}
 
 	return e.newError(node, fail.ErrIndexNotSupported, left.Type())
-- 
2.43.0


From 06ca1cdd35859fcf3258fdeffdbe4b387d38bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 22/37] fix: make string built-ins work on characters and
 reject out-of-range counts

---
 evaluator/str_func.go | 34 +++++++++++++++++++++++++---------
 evaluator/utils.go    | 13 +++++++------
 fail/fail.go          |  1 +
 3 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/evaluator/str_func.go b/evaluator/str_func.go
index 7f5b215..902f4bc 100644
--- a/evaluator/str_func.go
+++ b/evaluator/str_func.go
@@ -14,6 +14,9 @@ import (
 
 const defaultCharTrim = "\t \n\r"
 
+// maxRepeatLen is the maximum length of a string produced by repetition
+const maxRepeatLen = 10_000_000
+
 // strLenFunc returns the length of the given string
 func strLenFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Str).Value
@@ -94,7 +97,8 @@ func strCapitalizeFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Objec
 		return &object.Str{Value: ""}, nil
 	}
 
-	newVal := strings.ToUpper(val[:1]) + val[1:]
+	_, size := utf8.DecodeRuneInString(val)
+	newVal := strings.ToUpper(val[:size]) + val[size:]
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -148,11 +152,9 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		return nil, errors.New(msg)
 	}
 
-	val := receiver.(*object.Str).Value
-	limit := int(firstArg.Value)
-
-	if limit >= utf8.RuneCountInString(val) {
-		return &object.Str{Value: val}, nil
+	if firstArg.Value < 0 {
+		msg := fmt.Sprintf(fail.ErrFuncArgOutOfRange, "truncate", object.STR_OBJ)
+		return nil, errors.New(msg)
 	}
 
 	ellipsis := "..."
@@ -168,7 +170,14 @@ func strTruncateFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Obje
 		}
 	}
 
-	newVal := val[:firstArg.Value] + ellipsis
+	val := receiver.(*object.Str).Value
+	chars := []rune(val)
+
+	if firstArg.Value >= int64(len(chars)) {
+		return &object.Str{Value: val}, nil
+	}
+
+	newVal := string(chars[:firstArg.Value]) + ellipsis
 
 	return &object.Str{Value: newVal}, nil
 }
@@ -204,7 +213,7 @@ func strAtFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object) (o
 		index = len(chars) + index
 	}
 
-	if index >= len(chars) {
+	if index < 0 || index >= len(chars) {
 		return &object.Nil{}, nil
 	}
 
@@ -276,7 +285,14 @@ func strRepeatFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Object
 	}
 
 	val := receiver.(*object.Str).Value
-	repeated := strings.Repeat(val, int(firstArg.Value))
+	count := firstArg.Value
+
+	if count < 0 || count > maxRepeatLen || int(count)*len(val) > maxRepeatLen {
+		msg := fmt.Sprintf(fail.ErrFuncArgOutOfRange, "repeat", object.STR_OBJ)
+		return nil, errors.New(msg)
+	}
+
+	repeated := strings.Repeat(val, int(count))
 
 	return &object.Str{Value: repeated}, nil
 }
diff --git a/evaluator/utils.go b/evaluator/utils.go
index 4893614..f66ad0b 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -98,10 +98,6 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 		val = receiver.(*object.Int).String()
 	}
 
-	if !utils.StrIsInt(val) {
-		return &object.Str{Value: val}, nil
-	}
-
 	separator := "."
 	decimals := 2
 
@@ -132,11 +128,16 @@ func addDecimals(receiver object.Object, objType object.ObjectType, args ...obje
 		decimals = int(decimalArg.Value)
 	}
 
-	zeros := strings.Repeat("0", decimals)
+	if decimals < 0 || decimals > maxRepeatLen {
+		msg := fmt.Sprintf(fail.ErrFuncArgOutOfRange, "decimal", objType)
+		return nil, errors.New(msg)
+	}
 
-	if decimals == 0 {
+	if decimals == 0 || !utils.StrIsInt(val) {
 		return &object.Str{Value: val}, nil
 	}
 
+	zeros := strings.Repeat("0", decimals)
+
 	return &object.Str{Value: val + separator + zeros}, nil
 }
diff --git a/fail/fail.go b/fail/fail.go
index bd9ae95..6e3dd82 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -55,6 +55,7 @@ const (
 	ErrFuncFirstArgStr    = "first argument for function '%s' on type '%s' must be a STRING"
 	ErrFuncSecondArgInt   = "second argument for function '%s' on type '%s' must be an INTEGER"
 	ErrFuncSecondArgStr   = "second argument for function '%s' on type '%s' must be a STRING"
+	ErrFuncArgOutOfRange  = "argument for function '%s' on type '%s' is out of range"
 	ErrFuncMaxArgs        = "function '%s' on type '%s' accepts a maximum of '%d' arguments"
 
 	// Template errors
-- 
2.43.0


From 18c7b031affb72957da3b07c472c03d8de472890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 23/37] fix: clamp the start of slice() to its end

---
 evaluator/array_func.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index e913f39..5cf78b4 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -126,6 +126,10 @@ func arraySliceFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Objec
 		end = elemsLen
 	}
 
+	if start > end {
+		start = end
+	}
+
 	return &object.Array{Elements: elems[start:end]}, nil
 }
 
-- 
2.43.0


From 0b60377a962f54e434d6e59c091ace6217a63db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 24/37] fix: return zero as the absolute value of negative zero

---
 evaluator/float_func.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evaluator/float_func.go b/evaluator/float_func.go
index 6374d7c..9bc6d6b 100644
--- a/evaluator/float_func.go
+++ b/evaluator/float_func.go
@@ -24,11 +24,7 @@ func floatStrFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (o
 func floatAbsFunc(_ *ctx.EvalCtx, receiver object.Object, _ ...object.Object) (object.Object, error) {
 	val := receiver.(*object.Float).Value
 
-	if val < 0 {
-		return &object.Float{Value: -val}, nil
-	}
-
-	return receiver, nil
+	return &object.Float{Value: math.Abs(val)}, nil
 }
 
 // floatCeilFunc returns the rounded up value of a float to the nearest integer
-- 
2.43.0


From e901b13bbf3aa4c2fe8dc750a12d014fa9318320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 25/37] fix: compare array elements by structure in contains()

---
 evaluator/array_func.go | 14 +-------------
 evaluator/utils.go      | 42 +++++++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/evaluator/array_func.go b/evaluator/array_func.go
index 5cf78b4..5a2cc25 100644
--- a/evaluator/array_func.go
+++ b/evaluator/array_func.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
-	"reflect"
 	"time"
 
 	"github.com/textwire/textwire/v2/ctx"
@@ -174,18 +173,7 @@ func arrayContainsFunc(_ *ctx.EvalCtx, receiver object.Object, args ...object.Ob
 	target := args[0]
 
 	for _, el := range elems {
-		isObj := el.Type() == object.OBJ_OBJ && target.Type() == object.OBJ_OBJ
-		isArr := el.Type() == object.ARR_OBJ && target.Type() == object.ARR_OBJ
-
-		if isObj || isArr {
-			if reflect.DeepEqual(el, target) {
-				return &object.Bool{Value: true}, nil
-			}
-
-			continue
-		}
-
-		if el.Val() == target.Val() {
+		if isEqual(el, target) {
 			return &object.Bool{Value: true}, nil
 		}
 	}
diff --git a/evaluator/utils.go b/evaluator/utils.go
index f66ad0b..9cdfc6d 100644
--- a/evaluator/utils.go
+++ b/evaluator/utils.go
@@ -67,6 +67,48 @@ func hasControlStmt(obj object.Object, controlType object.ObjectType) bool {
 	return false
 }
 
+// isEqual checks if two objects have the same type and content
+func isEqual(a, b object.Object) bool {
+	if a.Type() != b.Type() {
+		return false
+	}
+
+	switch a := a.(type) {
+	case *object.Array:
+		b := b.(*object.Array)
+
+		if len(a.Elements) != len(b.Elements) {
+			return false
+		}
+
+		for i, elem := range a.Elements {
+			if !isEqual(elem, b.Elements[i]) {
+				return false
+			}
+		}
+
+		return true
+	case *object.Obj:
+		b := b.(*object.Obj)
+
+		if len(a.Pairs) != len(b.Pairs) {
+			return false
+		}
+
+		for key, pair := range a.Pairs {
+			other, ok := b.Pairs[key]
+
+			if !ok || !isEqual(pair, other) {
+				return false
+			}
+		}
+
+		return true
+	}
+
+	return a.Val() == b.Val()
+}
+
 // hasCustomFunc checks if the object has a custom function
 func hasCustomFunc(customFunc *config.Func, t object.ObjectType, funcName string) bool {
 	if customFunc == nil {
-- 
2.43.0


From c3718063259302ac04074ea51766337441c3224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:15 +0000
Subject: [PATCH 26/37] fix: convert nil pointers and named types, reject
 unsupported values at any depth

---
 object/utils.go | 161 ++++++++++++++++++++++++++----------------------
 1 file changed, 89 insertions(+), 72 deletions(-)

diff --git a/object/utils.go b/object/utils.go
index 0dccc70..4f9487e 100644
--- a/object/utils.go
+++ b/object/utils.go
@@ -4,111 +4,128 @@ import (
 	"reflect"
 )
 
+// converter turns Go values into objects. It remembers the references that
+// are being converted to detect values which contain themselves.
+type converter struct {
+	visiting map[visit]bool
+}
+
+type visit struct {
+	ptr uintptr
+	len int
+	typ reflect.Type
+}
+
+// NativeToObject converts a Go value to an object. It returns nil when
+// the value or any value inside of it has an unsupported type.
 func NativeToObject(val any) Object {
-	switch v := val.(type) {
-	case string:
-		return &Str{Value: v}
-	case bool:
-		return &Bool{Value: v}
-	case float32:
-		return &Float{Value: float64(v)}
-	case float64:
-		return &Float{Value: v}
-	case int64:
-		return &Int{Value: v}
-	case int:
-		return &Int{Value: int64(v)}
-	case int8:
-		return &Int{Value: int64(v)}
-	case int16:
-		return &Int{Value: int64(v)}
-	case int32:
-		return &Int{Value: int64(v)}
-	case uint:
-		return &Int{Value: int64(v)}
-	case uint8:
-		return &Int{Value: int64(v)}
-	case uint16:
-		return &Int{Value: int64(v)}
-	case uint32:
-		return &Int{Value: int64(v)}
-	case uint64:
-		return &Int{Value: int64(v)}
-	case nil:
+	c := &converter{visiting: make(map[visit]bool)}
+	return c.toObject(reflect.ValueOf(val))
+}
+
+func (c *converter) toObject(val reflect.Value) Object {
+	switch val.Kind() {
+	case reflect.Invalid:
 		return &Nil{}
+	case reflect.String:
+		return &Str{Value: val.String()}
+	case reflect.Bool:
+		return &Bool{Value: val.Bool()}
+	case reflect.Float32, reflect.Float64:
+		return &Float{Value: val.Float()}
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return &Int{Value: val.Int()}
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return &Int{Value: int64(val.Uint())}
+	case reflect.Struct:
+		return c.structToObject(val)
+	case reflect.Slice, reflect.Map, reflect.Pointer:
+		return c.referenceToObject(val)
+	case reflect.Interface:
+		return c.toObject(val.Elem())
 	}
 
-	valType := reflect.TypeOf(val)
+	return nil
+}
 
-	switch valType.Kind() {
-	case reflect.Struct:
-		return nativeStructToObject(val)
+func (c *converter) referenceToObject(val reflect.Value) Object {
+	v := visit{ptr: val.Pointer(), typ: val.Type()}
+
+	if val.Kind() == reflect.Slice {
+		v.len = val.Len()
+	}
+
+	if c.visiting[v] {
+		return nil // the value contains itself
+	}
+
+	c.visiting[v] = true
+	defer delete(c.visiting, v)
+
+	switch val.Kind() {
 	case reflect.Slice:
-		return nativeSliceToArrayObject(convertToInterfaceSlice(val))
+		return c.sliceToArray(val)
 	case reflect.Map:
-		return nativeMapToObject(val)
-	case reflect.Pointer:
-		// NativeToObject is used recursively to handle pointers
-		return NativeToObject(reflect.ValueOf(val).Elem().Interface())
+		return c.mapToObject(val)
 	}
 
-	return nil
+	return c.toObject(val.Elem())
 }
 
-func nativeMapToObject(val any) Object {
-	obj := &Obj{Pairs: make(map[string]Object)}
+func (c *converter) sliceToArray(val reflect.Value) Object {
+	arr := &Array{}
 
-	valValue := reflect.ValueOf(val)
+	for i := 0; i < val.Len(); i++ {
+		elem := c.toObject(val.Index(i))
 
-	for _, key := range valValue.MapKeys() {
-		obj.Pairs[key.String()] = NativeToObject(valValue.MapIndex(key).Interface())
+		if elem == nil {
+			return nil
+		}
+
+		arr.Elements = append(arr.Elements, elem)
 	}
 
-	return obj
+	return arr
 }
 
-func convertToInterfaceSlice(slice any) []any {
-	s := reflect.ValueOf(slice)
-
-	if s.Kind() != reflect.Slice {
-		panic("InterfaceSlice() given a non-slice type")
+func (c *converter) mapToObject(val reflect.Value) Object {
+	if val.Type().Key().Kind() != reflect.String {
+		return nil
 	}
 
-	ret := make([]any, s.Len())
+	obj := &Obj{Pairs: make(map[string]Object)}
+
+	for _, key := range val.MapKeys() {
+		pair := c.toObject(val.MapIndex(key))
+
+		if pair == nil {
+			return nil
+		}
 
-	for i := 0; i < s.Len(); i++ {
-		ret[i] = s.Index(i).Interface()
+		obj.Pairs[key.String()] = pair
 	}
 
-	return ret
+	return obj
 }
 
-func nativeStructToObject(val any) Object {
+func (c *converter) structToObject(val reflect.Value) Object {
 	obj := &Obj{Pairs: make(map[string]Object)}
 
-	valType := reflect.TypeOf(val)
-
-	for i := 0; i < valType.NumField(); i++ {
-		field := valType.Field(i)
+	for i := 0; i < val.NumField(); i++ {
+		field := val.Type().Field(i)
 
 		if !field.IsExported() {
 			continue
 		}
 
-		fieldVal := reflect.ValueOf(val).Field(i).Interface()
+		pair := c.toObject(val.Field(i))
 
-		obj.Pairs[field.Name] = NativeToObject(fieldVal)
-	}
-
-	return obj
-}
-
-func nativeSliceToArrayObject(slice []any) *Array {
-	arr := &Array{}
+		if pair == nil {
+			return nil
+		}
 
-	for _, val := range slice {
-		arr.Elements = append(arr.Elements, NativeToObject(val))
+		obj.Pairs[field.Name] = pair
 	}
 
-	return arr
+	return obj
 }
-- 
2.43.0


From 4ef21920e1d3bce351f2e1f138e39fa4a5d1cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 27/37] fix: print objects and report unsupported data in a
 fixed order

---
 object/env.go | 13 ++++++++++++-
 object/obj.go | 23 +++++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/object/env.go b/object/env.go
index ab23e83..8d09a80 100644
--- a/object/env.go
+++ b/object/env.go
@@ -3,6 +3,7 @@ package object
 import (
 	"errors"
 	"fmt"
+	"sort"
 
 	fail "github.com/textwire/textwire/v2/fail"
 )
@@ -26,7 +27,17 @@ func NewEnclosedEnv(outer *Env) *Env {
 func EnvFromMap(data map[string]any) (*Env, *fail.Error) {
 	env := NewEnv()
 
-	for key, val := range data {
+	keys := make([]string, 0, len(data))
+
+	for key := range data {
+		keys = append(keys, key)
+	}
+
+	// with several faulty values always report the same one
+	sort.Strings(keys)
+
+	for _, key := range keys {
+		val := data[key]
 		obj := NativeToObject(val)
 
 		if obj == nil {
diff --git a/object/obj.go b/object/obj.go
index ee2dad8..0fae450 100644
--- a/object/obj.go
+++ b/object/obj.go
@@ -3,6 +3,7 @@ package object
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -22,8 +23,8 @@ func (o *Obj) String() string {
 	idx := 0
 	last := len(o.Pairs) - 1
 
-	for key, pair := range o.Pairs {
-		out.WriteString(key + ": " + pair.String())
+	for _, key := range o.sortedKeys() {
+		out.WriteString(key + ": " + o.Pairs[key].String())
 
 		if idx != last {
 			out.WriteString(", ")
@@ -48,11 +49,11 @@ func (o *Obj) Dump(ident int) string {
 
 	insideSpaces := strings.Repeat("  ", ident)
 
-	for key, pair := range o.Pairs {
+	for _, key := range o.sortedKeys() {
 		out.WriteString(insideSpaces)
 		out.WriteString(`<span class="textwire-prop">"` + key + `"</span>`)
 		out.WriteString(": ")
-		out.WriteString(pair.Dump(ident))
+		out.WriteString(o.Pairs[key].Dump(ident))
 		out.WriteString(",\n")
 	}
 
@@ -61,6 +62,20 @@ func (o *Obj) Dump(ident int) string {
 	return out.String()
 }
 
+// sortedKeys returns the property names in the order
+// in which they are printed
+func (o *Obj) sortedKeys() []string {
+	keys := make([]string, 0, len(o.Pairs))
+
+	for key := range o.Pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 func (o *Obj) Val() any {
 	result := make(map[string]any)
 
-- 
2.43.0


From c5d02b7ef39f8a21a3dad69ccf4a5d0d8ba19f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 28/37] fix: evaluate object and component entries in a fixed
 order and report their errors

---
 ast/object_literal.go  | 19 +++++++++++++++++--
 evaluator/evaluator.go | 17 ++++++++++++-----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/ast/object_literal.go b/ast/object_literal.go
index d32af14..5076252 100644
--- a/ast/object_literal.go
+++ b/ast/object_literal.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"bytes"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/textwire/textwire/v2/token"
@@ -25,8 +26,8 @@ func (ol *ObjectLiteral) String() string {
 
 	pairs := []string{}
 
-	for key, value := range ol.Pairs {
-		k := fmt.Sprintf(`"%s": %s`, key, value.String())
+	for _, key := range ol.SortedKeys() {
+		k := fmt.Sprintf(`"%s": %s`, key, ol.Pairs[key].String())
 		pairs = append(pairs, k)
 	}
 
@@ -38,6 +39,20 @@ func (ol *ObjectLiteral) String() string {
 
 }
 
+// SortedKeys returns the keys in the order in which
+// their values must be evaluated
+func (ol *ObjectLiteral) SortedKeys() []string {
+	keys := make([]string, 0, len(ol.Pairs))
+
+	for key := range ol.Pairs {
+		keys = append(keys, key)
+	}
+
+	sort.Strings(keys)
+
+	return keys
+}
+
 func (os *ObjectLiteral) Line() uint {
 	return os.Token.ErrorLine()
 }
diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index faaba26..8335b1d 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -260,14 +260,16 @@ func (e *Evaluator) evalComponentStmt(node *ast.ComponentStmt, env *object.Env)
 	newEnv := object.NewEnclosedEnv(env)
 
 	if node.Argument != nil {
-		for key, arg := range node.Argument.Pairs {
-			val := e.Eval(arg, env)
+		for _, key := range node.Argument.SortedKeys() {
+			val := e.Eval(node.Argument.Pairs[key], env)
 
 			if isError(val) {
 				return val
 			}
 
-			newEnv.Set(key, val)
+			if err := newEnv.Set(key, val); err != nil {
+				return e.newError(node, "%s", err.Error())
+			}
 		}
 	}
 
@@ -494,6 +496,11 @@ func (e *Evaluator) evalDumpStmt(node *ast.DumpStmt, env *object.Env) object.Obj
 
 	for _, arg := range node.Arguments {
 		val := e.Eval(arg, env)
+
+		if isError(val) {
+			return val
+		}
+
 		values = append(values, val.Dump(0))
 	}
 
@@ -661,8 +668,8 @@ func (e *Evaluator) evalArrayLiteral(
 func (e *Evaluator) evalObjectLiteral(node *ast.ObjectLiteral, env *object.Env) object.Object {
 	pairs := make(map[string]object.Object)
 
-	for key, value := range node.Pairs {
-		valueObj := e.Eval(value, env)
+	for _, key := range node.SortedKeys() {
+		valueObj := e.Eval(node.Pairs[key], env)
 
 		if isError(valueObj) {
 			return valueObj
-- 
2.43.0


From cd276696bc9cdc0d3a6f24360036135c67f3eee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 29/37] fix: report unsupported results of custom functions as
 errors

---
 evaluator/evaluator.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 8335b1d..9d0863a 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -777,30 +777,41 @@ func (e *Evaluator) evalCallExp(
 		case object.STR_OBJ:
 			fun := e.ctx.CustomFunc.Str[funcName]
 			res := fun(receiverObj.String(), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(res, node)
 		case object.ARR_OBJ:
 			fun := e.ctx.CustomFunc.Arr[funcName]
 			nativeElems := e.objectsToNativeType(receiverObj.(*object.Array).Elements)
 			res := fun(nativeElems, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(res, node)
 		case object.INT_OBJ:
 			fun := e.ctx.CustomFunc.Int[funcName]
 			res := fun(int(receiverObj.(*object.Int).Value), nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(res, node)
 		case object.FLOAT_OBJ:
 			fun := e.ctx.CustomFunc.Float[funcName]
 			res := fun(receiverObj.(*object.Float).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(res, node)
 		case object.BOOL_OBJ:
 			fun := e.ctx.CustomFunc.Bool[funcName]
 			res := fun(receiverObj.(*object.Bool).Value, nativeArgs...)
-			return object.NativeToObject(res)
+			return e.customFuncResult(res, node)
 		}
 	}
 
 	return e.newError(node, fail.ErrNoFuncForThisType, node.Function.Value, receiverObj.Type())
 }
 
+// customFuncResult converts the value returned by a custom function
+func (e *Evaluator) customFuncResult(res any, node *ast.CallExp) object.Object {
+	obj := object.NativeToObject(res)
+
+	if obj == nil {
+		return e.newError(node, fail.ErrUnsupportedType, res)
+	}
+
+	return obj
+}
+
 func (e *Evaluator) objectsToNativeType(args []object.Object) []any {
 	var result []any
 
-- 
2.43.0


From 7d2741d324761369d521c4032ecb37030504b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 30/37] fix: give every component use its own program and fill
 all slot placeholders

---
 ast/program.go   | 31 +++++++++++++++++--------------
 ast/utils.go     | 23 ++++++++++++++++-------
 parser/parser.go | 14 ++++++++++++--
 3 files changed, 45 insertions(+), 23 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index 22e1ec8..e8b87d1 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -13,6 +13,7 @@ type Program struct {
 	UseStmt    *UseStmt
 	Statements []Statement
 	Components []*ComponentStmt
+	Slots      []*SlotStmt // placeholders of a component file
 	Reserves   map[string]*ReserveStmt
 	Inserts    map[string]*InsertStmt
 	Pos        token.Position
@@ -76,41 +77,43 @@ func (p *Program) ApplyLayout(prog *Program) {
 	p.Statements = []Statement{p.UseStmt}
 }
 
+// ApplyComponent attaches the component program to the first use of the
+// component that doesn't have one. Every use needs its own program because
+// the slot bodies are written into it.
 func (p *Program) ApplyComponent(name string, prog *Program, progFilePath string) *fail.Error {
 	for _, comp := range p.Components {
-		if comp.Name.Value != name {
+		if comp.Name.Value != name || comp.Block != nil {
 			continue
 		}
 
-		duplicateName, times := findDuplicateSlot(comp.Slots)
+		duplicate, times := findDuplicateSlot(comp.Slots)
 
 		if times > 0 {
-			if name == "" {
-				return fail.New(prog.Line(), progFilePath, "parser",
-					fail.ErrDuplicateDefaultSlotUsage, times, name)
-			}
-
-			return fail.New(prog.Line(), progFilePath, "parser",
-				fail.ErrDuplicateSlotUsage, duplicateName, times, name)
+			return fail.New(duplicate.Line(), progFilePath, "parser",
+				fail.ErrDuplicateSlotUsage, duplicate.Name.Value, times, name)
 		}
 
 		for _, slot := range comp.Slots {
-			idx := findSlotStmtIndex(prog.Statements, slot.Name.Value)
+			placeholders := findSlotStmts(prog.Slots, slot.Name.Value)
 
-			if idx == -1 {
+			if len(placeholders) == 0 {
 				if slot.Name.Value == "" {
-					return fail.New(prog.Line(), progFilePath, "parser",
+					return fail.New(slot.Line(), progFilePath, "parser",
 						fail.ErrDefaultSlotNotDefined, name)
 				}
 
-				return fail.New(prog.Line(), progFilePath, "parser",
+				return fail.New(slot.Line(), progFilePath, "parser",
 					fail.ErrSlotNotDefined, slot.Name.Value, name)
 			}
 
-			prog.Statements[idx].(*SlotStmt).Body = slot.Body
+			for _, placeholder := range placeholders {
+				placeholder.Body = slot.Body
+			}
 		}
 
 		comp.Block = prog
+
+		return nil
 	}
 
 	return nil
diff --git a/ast/utils.go b/ast/utils.go
index 528b829..a21444b 100644
--- a/ast/utils.go
+++ b/ast/utils.go
@@ -16,19 +16,28 @@ func findSlotStmtIndex(stmts []Statement, slotName string) int {
 	return -1
 }
 
-func findDuplicateSlot(slots []*SlotStmt) (string, int) {
-	counts := make(map[string]int)
+func findSlotStmts(slots []*SlotStmt, slotName string) []*SlotStmt {
+	var result []*SlotStmt
 
 	for _, slot := range slots {
-		counts[slot.Name.Value]++
+		if slot.Name.Value == slotName {
+			result = append(result, slot)
+		}
 	}
 
-	// find the first slot name that has a count greater than 1
-	for name, times := range counts {
+	return result
+}
+
+// findDuplicateSlot returns the first slot whose name is used
+// more than once and the number of times it is used
+func findDuplicateSlot(slots []*SlotStmt) (*SlotStmt, int) {
+	for _, slot := range slots {
+		times := len(findSlotStmts(slots, slot.Name.Value))
+
 		if times > 1 {
-			return name, times
+			return slot, times
 		}
 	}
 
-	return "", 0
+	return nil, 0
 }
diff --git a/parser/parser.go b/parser/parser.go
index 49e1be5..45df504 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -74,6 +74,7 @@ type Parser struct {
 
 	useStmt    *ast.UseStmt
 	components []*ast.ComponentStmt
+	slots      []*ast.SlotStmt
 	inserts    map[string]*ast.InsertStmt
 	reserves   map[string]*ast.ReserveStmt
 }
@@ -152,6 +153,7 @@ func (p *Parser) ParseProgram() *ast.Program {
 	}
 
 	prog.Components = p.components
+	prog.Slots = p.slots
 	prog.Inserts = p.inserts
 	prog.UseStmt = p.useStmt
 	prog.Reserves = p.reserves
@@ -580,10 +582,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 	tok := p.curToken
 
 	if !p.peekTokenIs(token.LPAREN) {
-		return &ast.SlotStmt{
+		stmt := &ast.SlotStmt{
 			Token: tok, // "@slot"
 			Name:  &ast.StringLiteral{Value: ""},
 		}
+
+		p.slots = append(p.slots, stmt)
+
+		return stmt
 	}
 
 	p.nextToken() // skip "@slot"
@@ -598,10 +604,14 @@ func (p *Parser) parseSlotStmt() *ast.SlotStmt {
 		return nil
 	}
 
-	return &ast.SlotStmt{
+	stmt := &ast.SlotStmt{
 		Token: tok, // "@slot"
 		Name:  slotName,
 	}
+
+	p.slots = append(p.slots, stmt)
+
+	return stmt
 }
 
 func (p *Parser) parseDumpStmt() *ast.DumpStmt {
-- 
2.43.0


From 84fa22323c391bc3e11f1088b6ab5c9425a4c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 31/37] fix: report the same fault when several inserts or
 files are faulty

---
 ast/program.go    | 19 +++++++++++++------
 parser_utils.go   | 13 ++++++++++++-
 token/position.go |  9 +++++++++
 3 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/ast/program.go b/ast/program.go
index e8b87d1..9d99f93 100644
--- a/ast/program.go
+++ b/ast/program.go
@@ -127,18 +127,25 @@ func (p *Program) HasUseStmt() bool {
 	return p.UseStmt != nil
 }
 
+// checkUndefinedInsert reports the first insert in the
+// file that doesn't have a matching reserve statement
 func (p *Program) checkUndefinedInsert(inserts map[string]*InsertStmt) *fail.Error {
-	for name := range inserts {
+	var undefined *InsertStmt
+
+	for name, insert := range inserts {
 		if _, ok := p.Reserves[name]; ok {
 			continue
 		}
 
-		line := inserts[name].Line()
-		path := inserts[name].FilePath
-		name := inserts[name].Name.Value
+		if undefined == nil || insert.Token.Pos.IsBefore(undefined.Token.Pos) {
+			undefined = insert
+		}
+	}
 
-		return fail.New(line, path, "parser", fail.ErrUndefinedInsert, name)
+	if undefined == nil {
+		return nil
 	}
 
-	return nil
+	return fail.New(undefined.Line(), undefined.FilePath, "parser",
+		fail.ErrUndefinedInsert, undefined.Name.Value)
 }
diff --git a/parser_utils.go b/parser_utils.go
index 906b8f4..87d8295 100644
--- a/parser_utils.go
+++ b/parser_utils.go
@@ -3,6 +3,7 @@ package textwire
 import (
 	"errors"
 	"os"
+	"sort"
 
 	"github.com/textwire/textwire/v2/ast"
 	"github.com/textwire/textwire/v2/fail"
@@ -44,7 +45,17 @@ func parseProgram(absPath string) (*ast.Program, *fail.Error, error) {
 func parsePrograms(paths map[string]string) (map[string]*ast.Program, *fail.Error) {
 	var result = map[string]*ast.Program{}
 
-	for name, absPath := range paths {
+	names := make([]string, 0, len(paths))
+
+	for name := range paths {
+		names = append(names, name)
+	}
+
+	// with several faulty files always report the same one
+	sort.Strings(names)
+
+	for _, name := range names {
+		absPath := paths[name]
 		prog, failErr, parseErr := parseProgram(absPath)
 		if parseErr != nil {
 			return nil, fail.FromError(parseErr, 0, absPath, "template")
diff --git a/token/position.go b/token/position.go
index 101a3c0..d2ff927 100644
--- a/token/position.go
+++ b/token/position.go
@@ -25,3 +25,12 @@ func (p Position) Contains(line uint, col uint) bool {
 
 	return true
 }
+
+// IsBefore checks if the position starts before the other one
+func (p Position) IsBefore(other Position) bool {
+	if p.StartLine != other.StartLine {
+		return p.StartLine < other.StartLine
+	}
+
+	return p.StartCol < other.StartCol
+}
-- 
2.43.0


From 01ef3e3a3f34bd0cc701074f2c9acef2e4367fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 32/37] fix: build template paths independently of earlier
 string evaluations

---
 files.go    | 8 +++-----
 textwire.go | 9 ---------
 2 files changed, 3 insertions(+), 14 deletions(-)

diff --git a/files.go b/files.go
index 379ee3f..6454b3e 100644
--- a/files.go
+++ b/files.go
@@ -7,13 +7,11 @@ import (
 	"strings"
 )
 
+// getFullPath returns the absolute path of the given file. When appendExt
+// is true, filename is a name of a template in the template directory.
 func getFullPath(filename string, appendExt bool) (string, error) {
-	if usesTemplates {
-		filename = joinPaths(userConfig.TemplateDir, filename)
-	}
-
 	if appendExt {
-		filename += userConfig.TemplateExt
+		filename = joinPaths(userConfig.TemplateDir, filename) + userConfig.TemplateExt
 	}
 
 	absPath, err := filepath.Abs(filename)
diff --git a/textwire.go b/textwire.go
index d384894..8c1d828 100644
--- a/textwire.go
+++ b/textwire.go
@@ -13,9 +13,6 @@ import (
 var userConfig = config.New("templates", ".tw.html", "", false)
 var customFunc = config.NewFunc()
 
-// usesTemplates is a flag to check if user uses Textwire templates or not
-var usesTemplates = false
-
 func NewTemplate(opt *config.Config) (*Template, error) {
 	Configure(opt)
 
@@ -34,8 +31,6 @@ func NewTemplate(opt *config.Config) (*Template, error) {
 }
 
 func EvaluateString(inp string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	prog, errs := parseStr(inp)
 
 	if len(errs) != 0 {
@@ -60,8 +55,6 @@ func EvaluateString(inp string, data map[string]any) (string, error) {
 }
 
 func EvaluateFile(absPath string, data map[string]any) (string, error) {
-	usesTemplates = false
-
 	content, err := fileContent(absPath)
 	if err != nil {
 		return "", fail.FromError(err, 0, absPath, "template").Error()
@@ -126,8 +119,6 @@ func RegisterBoolFunc(name string, fn config.BoolCustomFunc) error {
 }
 
 func Configure(opt *config.Config) {
-	usesTemplates = true
-
 	if opt == nil {
 		return
 	}
-- 
2.43.0


From fd05216073ab2cc03b719d17996a274b3564984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 33/37] fix: don't use the text of native errors as a format

---
 fail/fail.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fail/fail.go b/fail/fail.go
index 6e3dd82..b9be9ac 100644
--- a/fail/fail.go
+++ b/fail/fail.go
@@ -154,5 +154,10 @@ func FromError(err error, line uint, absPath, origin string, args ...any) *Error
 		return nil
 	}
 
+	// without arguments the error text is not a format, it may contain "%"
+	if len(args) == 0 {
+		return New(line, absPath, origin, "%s", err.Error())
+	}
+
 	return New(line, absPath, origin, err.Error(), args...)
 }
-- 
2.43.0


From d94961cec166a43f8cf5e49cbe07f33030d327d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 34/37] fix: match the extension and derive template names from
 the path

---
 files.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/files.go b/files.go
index 6454b3e..85fc51a 100644
--- a/files.go
+++ b/files.go
@@ -46,7 +46,7 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		if info.IsDir() || !strings.Contains(path, userConfig.TemplateExt) {
+		if info.IsDir() || !strings.HasSuffix(info.Name(), userConfig.TemplateExt) {
 			return nil
 		}
 
@@ -56,7 +56,13 @@ func findTextwireFiles() (map[string]string, error) {
 			return err
 		}
 
-		result[nameFromPath(path)] = absPath
+		name, err := nameFromPath(path)
+
+		if err != nil {
+			return err
+		}
+
+		result[name] = absPath
 
 		return nil
 	})
@@ -68,8 +74,15 @@ func findTextwireFiles() (map[string]string, error) {
 	return result, nil
 }
 
-func nameFromPath(path string) string {
-	name := strings.Replace(path, userConfig.TemplateDir+"/", "", 1)
-	name = strings.Replace(name, userConfig.TemplateExt, "", 1)
-	return name
+// nameFromPath returns the path relative to the
+// template directory without the extension
+func nameFromPath(path string) (string, error) {
+	name, err := filepath.Rel(userConfig.TemplateDir, path)
+	if err != nil {
+		return "", err
+	}
+
+	name = strings.TrimSuffix(name, userConfig.TemplateExt)
+
+	return filepath.ToSlash(name), nil
 }
-- 
2.43.0


From 73ac64d0a1cf5a25dd587d5e4ea67a76d4c37293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 35/37] fix: load templates from an absolute template directory

---
 files.go    | 10 ++++++++++
 textwire.go |  4 +---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/files.go b/files.go
index 85fc51a..e5d3479 100644
--- a/files.go
+++ b/files.go
@@ -22,6 +22,16 @@ func getFullPath(filename string, appendExt bool) (string, error) {
 	return absPath, nil
 }
 
+// normalizeDir cleans up the path to the template directory. A leading slash
+// is only kept for an existing directory, otherwise the path is relative.
+func normalizeDir(dir string) string {
+	if info, err := os.Stat(dir); err == nil && info.IsDir() && filepath.IsAbs(dir) {
+		return filepath.Clean(dir)
+	}
+
+	return strings.Trim(dir, "/")
+}
+
 func joinPaths(path1, path2 string) string {
 	return strings.TrimRight(path1, "/") + "/" + strings.TrimLeft(path2, "/")
 }
diff --git a/textwire.go b/textwire.go
index 8c1d828..71c2b5a 100644
--- a/textwire.go
+++ b/textwire.go
@@ -1,8 +1,6 @@
 package textwire
 
 import (
-	"strings"
-
 	"github.com/textwire/textwire/v2/config"
 	"github.com/textwire/textwire/v2/ctx"
 	"github.com/textwire/textwire/v2/evaluator"
@@ -124,7 +122,7 @@ func Configure(opt *config.Config) {
 	}
 
 	if opt.TemplateDir != "" {
-		userConfig.TemplateDir = strings.Trim(opt.TemplateDir, "/")
+		userConfig.TemplateDir = normalizeDir(opt.TemplateDir)
 	}
 
 	if opt.TemplateExt != "" {
-- 
2.43.0


From a0a6c75bd0aae316bc1c4235dec58195236fdc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 36/37] fix: report an insert inside of another one with the
 same name

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 45df504..b8319bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -723,6 +723,9 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		return nil
 	}
 
+	// an insert inside of this one must not have its name either
+	p.inserts[stmt.Name.Value] = stmt
+
 	hasBody := true
 
 	if p.peekTokenIs(token.COMMA) {
@@ -734,7 +737,6 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 			return nil
 		}
 
-		p.inserts[stmt.Name.Value] = stmt
 		hasBody = false
 
 		return stmt
@@ -752,8 +754,6 @@ func (p *Parser) parseInsertStmt() ast.Statement {
 		}
 	}
 
-	p.inserts[stmt.Name.Value] = stmt
-
 	return stmt
 }
 
-- 
2.43.0


From 3e5f144bfdbe376aa94c16e9a38a08bba8b9342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 37/37] fix: report a use statement inside of an insert instead
 of overflowing the stack

---
 evaluator/evaluator.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index 9d0863a..f809246 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -21,7 +21,8 @@ var (
 )
 
 type Evaluator struct {
-	ctx *ctx.EvalCtx
+	ctx      *ctx.EvalCtx
+	inLayout bool // whether a layout is being evaluated
 }
 
 func New(ctx *ctx.EvalCtx) *Evaluator {
@@ -192,11 +193,13 @@ func (e *Evaluator) evalUseStmt(node *ast.UseStmt, env *object.Env) object.Objec
 		return e.newError(node, fail.ErrUseStmtMustHaveProgram)
 	}
 
-	if node.Program.IsLayout && node.Program.HasUseStmt() {
+	if e.inLayout || node.Program.IsLayout && node.Program.HasUseStmt() {
 		return e.newError(node, fail.ErrUseStmtNotAllowed)
 	}
 
+	e.inLayout = true
 	layoutContent := e.Eval(node.Program, env)
+	e.inLayout = false
 
 	if isError(layoutContent) {
 		return layoutContent
-- 
2.43.0

