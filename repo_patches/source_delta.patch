From 69902ba343d4d18d9c5d4c6f70ef52e4336c3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:07 +0000
Subject: [PATCH 01/51] fix: lexer: a NUL character no longer ends the input
 silently

---
 lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..49599f8 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,8 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+// eof is not a character: every byte, including NUL, may occur in the input
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
@@ -248,6 +249,8 @@ func (l *lexer) advance() {
 		l.cur.line++
 		l.cur.col = 0
 	case eof:
+		// there is nothing to consume
+		return
 	default:
 		l.cur.col++
 	}
-- 
2.43.0


From 34cf4404e0cde8c1637bd42f050353ea052ce7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:09 +0000
Subject: [PATCH 02/51] fix: lexer: take the width of peeked runes into account

---
 lexer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 49599f8..d447acd 100644
--- a/lexer.go
+++ b/lexer.go
@@ -83,11 +83,21 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.consumed()
+}
+
+// consumed returns the byte offset up to which the input was consumed,
+// that is, cur.pos without the runes we have only peeked at
+func (l *lexer) consumed() int {
+	pos := l.cur.pos
+	for i := 0; i <= l.peekCount; i++ {
+		pos -= l.peekRunes[i].w
+	}
+	return pos
 }
 
 func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
+	endpos := l.consumed()
 	w := len(l.input[l.start.pos:])
 	if endpos-l.start.pos > w {
 		endpos = l.start.pos + w
-- 
2.43.0


From 7d7276bb0c8d627f1ab4aefb4383066756673914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/51] fix: lexer: read quoted strings and names as MySQL does

A backslash escapes any character in a string (not just the quote) and is
an ordinary character in a quoted name; values are decoded byte by byte.
---
 lexer.go | 57 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/lexer.go b/lexer.go
index d447acd..1701ca3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -291,28 +291,38 @@ OUTER:
 	return IDENT
 }
 
-func unescapeQuotes(s string, quot rune) string {
+// unescapeQuotes returns the text denoted by a quoted string or a quoted identifier.
+// The first and the last bytes of s are the quotes.
+//
+// https://dev.mysql.com/doc/refman/5.6/en/string-literals.html
+func unescapeQuotes(s string, quot byte) string {
 	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
-
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
-				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+	s = s[1 : len(s)-1]
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case c == quot: // doubled quote
+			i++
+		case c == '\\' && quot != '`' && i+1 < len(s):
+			i++
+			switch c = s[i]; c {
+			case '0':
+				c = 0
+			case 'b':
+				c = '\b'
+			case 'n':
+				c = '\n'
+			case 'r':
+				c = '\r'
+			case 't':
+				c = '\t'
+			case 'Z':
+				c = 26
+			case '%', '_': // these keep the backslash
+				buf.WriteByte('\\')
 			}
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(c)
 	}
 	return buf.String()
 }
@@ -322,14 +332,13 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
-				r = l.next()
-			}
+		} else if r == '\\' && pair != '`' {
+			// whatever follows is escaped
+			l.next()
 		} else if r == pair {
 			if l.peek() == pair {
 				// it is escape
-				r = l.next()
+				l.next()
 			} else {
 				return nil
 			}
-- 
2.43.0


From f5aa434e041c5c83bae32ad7993fe27850d13dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 04/51] fix: lexer: exponents may carry a plus sign

---
 lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 1701ca3..d8a8494 100644
--- a/lexer.go
+++ b/lexer.go
@@ -392,7 +392,7 @@ func (l *lexer) runNumber() {
 	switch l.peek() {
 	case 'E', 'e':
 		l.advance()
-		if l.peek() == '-' {
+		if r := l.peek(); r == '-' || r == '+' {
 			l.advance()
 		}
 		l.runDigit()
-- 
2.43.0


From fa7744e680d2f91d0a0b5d31359edf97cb64c9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:45 +0000
Subject: [PATCH 05/51] fix: lexer: /*/ opens a comment, it does not close it

---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index d8a8494..6ad9a1c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -169,6 +169,7 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
+				l.advance() // so that it is not taken for the '*' of the closing "*/"
 				l.runCComment()
 				l.emit(ctx, COMMENT_IDENT)
 			default:
-- 
2.43.0


From 76a14d12d591f8607320dbc613985135c8a35395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 06/51] fix: parser: report every syntax error as a ParseError

---
 parser.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..079f2c6 100644
--- a/parser.go
+++ b/parser.go
@@ -1258,11 +1258,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1286,7 +1286,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	t := ctx.peek()
+	if t.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1300,7 +1301,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, t, `statement already has index type declared (%s)`, typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From afd97c7d66e8909e7b72c16b347da75f86e19f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 07/51] fix: parser: reject ENUM and SET columns with broken or
 missing values

---
 parser.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 079f2c6..b97b61e 100644
--- a/parser.go
+++ b/parser.go
@@ -625,6 +625,15 @@ func (p *Parser) parseTableColumnSpec(ctx *parseCtx, col model.TableColumn) erro
 	}
 
 	col.SetType(coltyp)
+
+	switch coltyp {
+	case model.ColumnTypeEnum, model.ColumnTypeSet:
+		// these are meaningless without their values
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != LPAREN {
+			return newParseError(ctx, t, "expected LPAREN (%s values)", coltyp)
+		}
+	}
 	return p.parseColumnOption(ctx, col, colopt)
 }
 
@@ -886,9 +895,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From a48478472461699beee5171ab2c3c127f89726ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 08/51] fix: parser: reject a size that does not follow the
 column type

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index b97b61e..5fa7937 100644
--- a/parser.go
+++ b/parser.go
@@ -827,6 +827,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int) error {
 	f = f | coloptNull | coloptDefault | coloptAutoIncrement | coloptKey | coloptComment
 	pos := 0
+	first := true // no option was seen yet
 	check := func(_f int) bool {
 		if pos > _f {
 			return false
@@ -841,6 +842,9 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case LPAREN:
+			if !first {
+				return newParseError(ctx, t, "the size or the values must follow the type")
+			}
 			if check(coloptSize) {
 				ctx.skipWhiteSpaces()
 				t := ctx.next()
@@ -875,7 +879,7 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				t = ctx.next()
 				if t.Type == RPAREN {
 					col.SetLength(model.NewLength(tlen))
-					continue
+					break
 				} else if t.Type != COMMA {
 					return newParseError(ctx, t, "expected COMMA (decimal size)")
 				}
@@ -1027,6 +1031,7 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		default:
 			return newParseError(ctx, t, "unexpected column option %s", t.Type)
 		}
+		first = false
 	}
 }
 
-- 
2.43.0


From 24adead84a3c21f22c809413511d25192891c3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 09/51] fix: parser: only take a name for CHARACTER SET and
 COLLATE

---
 parser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser.go b/parser.go
index 5fa7937..6de9285 100644
--- a/parser.go
+++ b/parser.go
@@ -915,12 +915,20 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected SET")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCharacterSet(v.Value)
+			switch v := ctx.next(); v.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCharacterSet(v.Value)
+			default:
+				return newParseError(ctx, v, "expected character set name")
+			}
 		case COLLATE:
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCollation(v.Value)
+			switch v := ctx.next(); v.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCollation(v.Value)
+			default:
+				return newParseError(ctx, v, "expected collation name")
+			}
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
 				return newParseError(ctx, t, "cannot apply UNSIGNED")
-- 
2.43.0


From 91f0fb0cd87e7ec96defbab59899ae70c1eba8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 10/51] fix: parser: only take CURRENT_TIMESTAMP, in any letter
 case, for ON UPDATE

---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 6de9285..4bb50d9 100644
--- a/parser.go
+++ b/parser.go
@@ -967,8 +967,12 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected ON UPDATE")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			switch v := ctx.next(); v.Type {
+			case CURRENT_TIMESTAMP:
+				col.SetAutoUpdate(strings.ToUpper(v.Value))
+			default:
+				return newParseError(ctx, v, "expected CURRENT_TIMESTAMP")
+			}
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
-- 
2.43.0


From 8315f4e2adf91482cc4abcf8a2b2207a808b389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 11/51] fix: parser: accept CREATE TEMPORARY TABLE

---
 parser.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 4bb50d9..d5a9554 100644
--- a/parser.go
+++ b/parser.go
@@ -213,7 +213,7 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 			return nil, err
 		}
 		return nil, errors.Ignorable(nil)
-	case TABLE:
+	case TABLE, TEMPORARY:
 		return p.parseCreateTable(ctx)
 	default:
 		return nil, newParseError(ctx, t, "expected DATABASE or TABLE")
@@ -255,13 +255,8 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 
 // http://dev.mysql.com/doc/refman/5.6/en/create-table.html
 func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
-	if t := ctx.next(); t.Type != TABLE {
-		return nil, errors.New(`expected TABLE`)
-	}
-
 	var table model.Table
 
-	ctx.skipWhiteSpaces()
 	var temporary bool
 	if t := ctx.peek(); t.Type == TEMPORARY {
 		ctx.advance()
@@ -269,6 +264,18 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		temporary = true
 	}
 
+	if t := ctx.next(); t.Type != TABLE {
+		return nil, newParseError(ctx, t, "expected TABLE")
+	}
+	ctx.skipWhiteSpaces()
+
+	// we also accept the keyword after TABLE
+	if t := ctx.peek(); t.Type == TEMPORARY {
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		temporary = true
+	}
+
 	// IF NOT EXISTS
 	var notexists bool
 	if ctx.peek().Type == IF {
-- 
2.43.0


From f0555dfffb081562fb026a2cf223a85621f62a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 12/51] fix: parser: accept further fields after a FULLTEXT
 index

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d5a9554..51d8089 100644
--- a/parser.go
+++ b/parser.go
@@ -1422,7 +1422,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From 9f1e71a33fbffffc628d551a170ea085bb72b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 13/51] fix: parser: accept SPATIAL KEY

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 51d8089..6f2f6b6 100644
--- a/parser.go
+++ b/parser.go
@@ -1174,9 +1174,9 @@ func (p *Parser) parseColumnIndexSpatialKey(ctx *parseCtx, index model.Index) er
 		return newParseError(ctx, t, "expected SPATIAL")
 	}
 
-	// optional INDEX
+	// optional INDEX or KEY
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type == INDEX {
+	if t := ctx.peek(); t.Type == INDEX || t.Type == KEY {
 		ctx.advance()
 	}
 
-- 
2.43.0


From 3375f175eec98ea68825cbe08cdbdd2d39ae1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 14/51] fix: parser: allow spaces around the prefix length of
 an index column

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 6f2f6b6..6396e01 100644
--- a/parser.go
+++ b/parser.go
@@ -995,6 +995,7 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				if t := ctx.next(); t.Type != LPAREN {
 					return newParseError(ctx, t, "expected LPAREN")
 				}
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != RPAREN {
 					return newParseError(ctx, t, "expected RPAREN")
 				}
@@ -1379,6 +1380,7 @@ OUTER:
 		ctx.skipWhiteSpaces()
 		switch t = ctx.next(); t.Type {
 		case LPAREN:
+			ctx.skipWhiteSpaces()
 			t := ctx.next()
 			if t.Type != NUMBER {
 				return newParseError(ctx, t, "expected NUMBER")
@@ -1394,6 +1396,7 @@ OUTER:
 		}
 
 		// optional sort direction
+		ctx.skipWhiteSpaces()
 		switch t = ctx.peek(); t.Type {
 		case ASC:
 			ctx.advance()
-- 
2.43.0


From 41e355d991d93ce3abc8f0d268e775c454de7067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 15/51] fix: parser: keep the name of the DELAY_KEY_WRITE
 option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 6396e01..c5cda73 100644
--- a/parser.go
+++ b/parser.go
@@ -747,7 +747,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From 9e692e65dcfbef22248f3365ee8d6f91397c941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 16/51] fix: parser: report an unterminated quote in an ignored
 statement

---
 parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser.go b/parser.go
index c5cda73..9f0aa74 100644
--- a/parser.go
+++ b/parser.go
@@ -181,6 +181,13 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					// we may ignore characters that we do not know, but not a
+					// quote that is never closed: it hides the rest of the input
+					if strings.IndexAny(t.Value, "'\"`") == 0 {
+						return nil, newParseError(ctx, t, "unterminated quote")
+					}
+					ctx.advance()
 				default:
 					ctx.advance()
 				}
-- 
2.43.0


From b8539cc08347ec753bad79091ea6701de22fe55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:50 +0000
Subject: [PATCH 17/51] fix: parser: do not drop tokens after CREATE DATABASE
 and CREATE TABLE ... LIKE

---
 parser.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9f0aa74..5b74828 100644
--- a/parser.go
+++ b/parser.go
@@ -256,7 +256,14 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+
+	ctx.skipWhiteSpaces()
+	switch t := ctx.peek(); t.Type {
+	case EOF, SEMICOLON:
+		ctx.advance()
+	default:
+		return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
+	}
 	return database, nil
 }
 
@@ -320,6 +327,8 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		switch t := ctx.peek(); t.Type {
 		case EOF, SEMICOLON:
 			ctx.advance()
+		default:
+			return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
 		}
 		return table, nil
 	case IF:
-- 
2.43.0


From d8dd8a1211ece6fe829c42ec83157705377fab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 18/51] fix: parser: read the options of CREATE DATABASE

---
 parser.go | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/parser.go b/parser.go
index 5b74828..79aa092 100644
--- a/parser.go
+++ b/parser.go
@@ -257,14 +257,40 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 
 	database.SetIfNotExists(notexists)
 
-	ctx.skipWhiteSpaces()
-	switch t := ctx.peek(); t.Type {
-	case EOF, SEMICOLON:
-		ctx.advance()
-	default:
-		return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
+	for {
+		// [DEFAULT] {CHARACTER SET | COLLATE} [=] name: we check these, but
+		// make no use of them
+		ctx.skipWhiteSpaces()
+		t := ctx.next()
+		if t.Type == DEFAULT {
+			ctx.skipWhiteSpaces()
+			if t = ctx.next(); t.Type == EOF || t.Type == SEMICOLON {
+				return nil, newParseError(ctx, t, "expected CHARACTER or COLLATE")
+			}
+		}
+		switch t.Type {
+		case EOF, SEMICOLON:
+			return database, nil
+		case CHARACTER:
+			if _, err := p.parseIdents(ctx, SET); err != nil {
+				return nil, err
+			}
+		case CHARSET, COLLATE:
+		default:
+			return nil, newParseError(ctx, t, "expected CHARACTER, COLLATE, SEMICOLON or EOF")
+		}
+
+		ctx.skipWhiteSpaces()
+		if ctx.peek().Type == EQUAL {
+			ctx.advance()
+			ctx.skipWhiteSpaces()
+		}
+		switch t := ctx.next(); t.Type {
+		case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+		default:
+			return nil, newParseError(ctx, t, "expected character set or collation name")
+		}
 	}
-	return database, nil
 }
 
 // http://dev.mysql.com/doc/refman/5.6/en/create-table.html
-- 
2.43.0


From 15ea8d90dd90f1440975604cc0fbc21af09d2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 19/51] fix: parser: remember that a table option was quoted
 with backquotes

---
 parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 79aa092..666f8c2 100644
--- a/parser.go
+++ b/parser.go
@@ -700,7 +700,7 @@ func (p *Parser) parseCreateTableOptionValue(ctx *parseCtx, table model.Table, n
 		}
 		var quotes bool
 		switch t.Type {
-		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
+		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BACKTICK_IDENT:
 			quotes = true
 		}
 		table.AddOption(model.NewTableOption(name, t.Value, quotes))
@@ -725,7 +725,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case ENGINE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case AUTO_INCREMENT:
@@ -753,7 +753,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			default:
 				return newParseError(ctx, t, "expected CHARACTER or COLLATE")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case CHARACTER:
@@ -761,11 +761,11 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			if t := ctx.next(); t.Type != SET {
 				return newParseError(ctx, t, "expected SET")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case COLLATE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case CHECKSUM:
-- 
2.43.0


From ce1ead6f2d533974d857c72714b2e171af83b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 20/51] fix: format: escape quotes in names and literals

---
 format/format.go      | 21 ++++++---------------
 internal/util/util.go | 16 +++++++++++++---
 2 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/format/format.go b/format/format.go
index 02a8159..9975b57 100644
--- a/format/format.go
+++ b/format/format.go
@@ -92,9 +92,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(util.Quote(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +214,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +222,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +280,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(util.Quote(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +301,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(util.Quote(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..3d9e6b3 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,17 @@
 package util
 
-// Backquote surrounds the given string in backquotes
+import "strings"
+
+// Backquote surrounds the given string in backquotes. Backquotes in the
+// string are doubled.
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
+}
+
+// Quote makes a string literal of the given string. Quotes and backslashes
+// in the string are doubled.
+func Quote(s string) string {
+	s = strings.Replace(s, `\`, `\\`, -1)
+	s = strings.Replace(s, `'`, `''`, -1)
+	return "'" + s + "'"
 }
-- 
2.43.0


From eac3e13313dcba620669be75f8d7bcc230483672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 21/51] fix: diff: escape quotes in names

---
 diff/diff.go | 80 ++++++++++++++++++++++++++--------------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..f9d758d 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -159,9 +160,9 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		if !ok {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
-		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
-		buf.WriteString("`;")
+		buf.WriteString("DROP TABLE ")
+		buf.WriteString(util.Backquote(table.Name()))
+		buf.WriteString(";")
 	}
 
 	return buf.WriteTo(dst)
@@ -283,16 +284,16 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP COLUMN `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP COLUMN ")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
-		buf.WriteString("`;")
+		buf.WriteString(util.Backquote(col.Name()))
+		buf.WriteString(";")
 	}
 
 	return buf.WriteTo(dst)
@@ -382,16 +383,15 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD COLUMN ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
-			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
-			buf.WriteString("`")
+			buf.WriteString(" AFTER ")
+			buf.WriteString(util.Backquote(beforeCol.Name()))
 		} else {
 			buf.WriteString(" FIRST")
 		}
@@ -422,11 +422,11 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
-		buf.WriteString("` ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" CHANGE COLUMN ")
+		buf.WriteString(util.Backquote(afterColumnStmt.Name()))
+		buf.WriteString(" ")
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
 		}
@@ -452,9 +452,9 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			if buf.Len() > 0 {
 				buf.WriteByte('\n')
 			}
-			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
-			buf.WriteString("` DROP PRIMARY KEY;")
+			buf.WriteString("ALTER TABLE ")
+			buf.WriteString(util.Backquote(ctx.from.Name()))
+			buf.WriteString(" DROP PRIMARY KEY;")
 			continue
 		}
 
@@ -469,31 +469,31 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP FOREIGN KEY `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP FOREIGN KEY ")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
-		buf.WriteString("`;")
+		buf.WriteString(";")
 	}
 	// drop index after drop CONSTRAINT
 	for _, indexStmt := range lazy {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` DROP INDEX `")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.Backquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.Backquote(indexStmt.Name()))
 		}
 
-		buf.WriteString("`;")
+		buf.WriteString(";")
 	}
 
 	return buf.WriteTo(dst)
@@ -517,9 +517,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
@@ -530,9 +530,9 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
-		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
-		buf.WriteString("` ADD ")
+		buf.WriteString("ALTER TABLE ")
+		buf.WriteString(util.Backquote(ctx.from.Name()))
+		buf.WriteString(" ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 2411147bcdfafa4f84ad035b6fa16b33e5a8d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 22/51] fix: source: escape quotes in the names of listed
 tables

---
 source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..af983c1 100644
--- a/source.go
+++ b/source.go
@@ -17,6 +17,7 @@ import (
 
 	"github.com/go-sql-driver/mysql"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 )
 
 // SchemaSource is the interface used for objects that provide us with
@@ -219,7 +220,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE " + util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From ba7eb0c121290297c16e29ecc92e5e88ab5888b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 23/51] fix: source: escape quotes in the names of listed
 tables (gofmt)

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index af983c1..e5df2f4 100644
--- a/source.go
+++ b/source.go
@@ -220,7 +220,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE " + util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From db2348ebba9aca47cd4cf2297930f94635ddbedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 24/51] fix: format: do not indent REFERENCES in the middle of
 a line

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 9975b57..11f027e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -397,6 +397,7 @@ func formatIndex(ctx *fmtCtx, index model.Index) error {
 
 	if ref := index.Reference(); ref != nil {
 		newctx := ctx.clone()
+		newctx.curIndent = ""
 		newctx.dst = &buf
 
 		buf.WriteByte(' ')
-- 
2.43.0


From 39821657b0d3f1ff1e0fe1761172817c48901565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 25/51] fix: format: keep the sort direction of referenced
 columns

---
 format/format.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/format/format.go b/format/format.go
index 11f027e..ec919fd 100644
--- a/format/format.go
+++ b/format/format.go
@@ -430,6 +430,13 @@ func formatReference(ctx *fmtCtx, r model.Reference) error {
 			buf.WriteString(col.Length())
 			buf.WriteByte(')')
 		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0


From 378d138399243e90df76c64a8e3144b9c5438d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 26/51] fix: format: do not print an ENUM or SET without values

---
 format/format.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/format.go b/format/format.go
index ec919fd..9147f07 100644
--- a/format/format.go
+++ b/format/format.go
@@ -212,6 +212,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	switch col.Type() {
 	case model.ColumnTypeEnum:
+		if !col.HasEnumValues() {
+			return errors.New(`no values in enum column`)
+		}
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteString(util.Quote(enumValue))
@@ -220,6 +223,9 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.Truncate(buf.Len() - 1)
 		buf.WriteByte(')')
 	case model.ColumnTypeSet:
+		if !col.HasSetValues() {
+			return errors.New(`no values in set column`)
+		}
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteString(util.Quote(setValue))
-- 
2.43.0


From 30587c3b2751a0190cbac0089e67bb751e77bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 27/51] fix: model: normalize both keys of a PRIMARY KEY UNIQUE
 column

---
 model/table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..03ed6ca 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,8 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From 862ffe9030c61f98a00c05b96b7e196a17373027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 28/51] fix: model: do not imply an index that is declared
 after its foreign key

---
 model/table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/model/table.go b/model/table.go
index 03ed6ca..7ca580e 100644
--- a/model/table.go
+++ b/model/table.go
@@ -191,6 +191,12 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for _, idx := range additionalIndexes {
+		seen[idx.Name()] = struct{}{}
+	}
+	for idx := range t.Indexes() {
+		seen[idx.Name()] = struct{}{}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
@@ -224,7 +230,6 @@ func (t *table) Normalize() (Table, bool) {
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
 	}
 
 	if !clone {
-- 
2.43.0


From c6d935e02b42a63f14fa341ed5b6d84587dbd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 29/51] fix: model: keep the LIKE table when normalizing

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index 7ca580e..5101d75 100644
--- a/model/table.go
+++ b/model/table.go
@@ -239,6 +239,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From 02762a684043ac63237cc31788d4ada644d9468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 30/51] fix: model: the name of a foreign key is not the name
 of an index

---
 model/table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/table.go b/model/table.go
index 5101d75..5f5540e 100644
--- a/model/table.go
+++ b/model/table.go
@@ -195,7 +195,9 @@ func (t *table) Normalize() (Table, bool) {
 		seen[idx.Name()] = struct{}{}
 	}
 	for idx := range t.Indexes() {
-		seen[idx.Name()] = struct{}{}
+		if !idx.IsForeignKey() {
+			seen[idx.Name()] = struct{}{}
+		}
 	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
-- 
2.43.0


From 1c7399089574bf04be6b9a2b25065daf26822a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 31/51] fix: model: normalize numeric and boolean defaults
 without changing their meaning or the receiver

---
 model/table_column.go | 68 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..2d6fd79 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"strconv"
+	"strings"
 )
 
 // NewLength creates a new Length which describes the
@@ -294,11 +295,44 @@ func (t *tablecol) NativeLength() Length {
 	return NewLength(strconv.Itoa(size))
 }
 
+// isNumber tells if s can be written as a number literal
+func isNumber(s string) bool {
+	digits := func() int {
+		n := 0
+		for n < len(s) && s[n] >= '0' && s[n] <= '9' {
+			n++
+		}
+		s = s[n:]
+		return n
+	}
+
+	if s != "" && (s[0] == '-' || s[0] == '+') {
+		s = s[1:]
+	}
+	if digits() == 0 {
+		return false
+	}
+	if s != "" && s[0] == '.' {
+		s = s[1:]
+		digits()
+	}
+	if s != "" && (s[0] == 'e' || s[0] == 'E') {
+		s = s[1:]
+		if s != "" && (s[0] == '-' || s[0] == '+') {
+			s = s[1:]
+		}
+		if digits() == 0 {
+			return false
+		}
+	}
+	return s == ""
+}
+
 func (t *tablecol) Normalize() (TableColumn, bool) {
 	var clone bool
 	var length Length
 	var synonym ColumnType
-	var removeQuotes bool
+	var newDefault string
 	var setDefaultNull bool
 
 	if !t.HasLength() {
@@ -327,18 +361,24 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
 			ColumnTypeFloat, ColumnTypeDouble,
-			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
-			// If numeric type then trim quote
+			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
+			ColumnTypeBool, ColumnTypeBoolean:
 			if t.IsQuotedDefault() {
-				clone = true
-				removeQuotes = true
-			}
-		case ColumnTypeBool, ColumnTypeBoolean:
-			switch t.Default() {
-			case "TRUE":
-				t.SetDefault("1", false)
-			case "FALSE":
-				t.SetDefault("0", false)
+				// If numeric type then trim quote
+				if isNumber(t.Default()) {
+					clone = true
+					newDefault = strings.ToUpper(t.Default()) // as the parser does
+				}
+			} else {
+				// TRUE and FALSE are 1 and 0
+				switch t.Default() {
+				case "TRUE":
+					clone = true
+					newDefault = "1"
+				case "FALSE":
+					clone = true
+					newDefault = "0"
+				}
 			}
 		}
 	} else {
@@ -371,8 +411,8 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 
 	col.SetNullState(nullState)
 
-	if removeQuotes {
-		col.SetDefault(t.Default(), false)
+	if newDefault != "" {
+		col.SetDefault(newDefault, false)
 	}
 
 	if setDefaultNull {
-- 
2.43.0


From da2fd3961d5ae748fc985060d8ae2a5e3827ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 32/51] fix: model: do not share mutable state with a clone

---
 model/index.go        | 19 +++++++++++++++++++
 model/table_column.go |  7 +++++++
 2 files changed, 26 insertions(+)

diff --git a/model/index.go b/model/index.go
index 3d6a117..a1bce2c 100644
--- a/model/index.go
+++ b/model/index.go
@@ -161,9 +161,28 @@ func (stmt *index) Normalize() (Index, bool) {
 func (stmt *index) Clone() Index {
 	newindex := &index{}
 	*newindex = *stmt
+	newindex.columns = cloneIndexColumns(stmt.columns)
+	if r, ok := stmt.reference.(*reference); ok {
+		newref := *r
+		newref.columns = cloneIndexColumns(r.columns)
+		newindex.reference = &newref
+	}
+	newindex.options = append([]IndexOption(nil), stmt.options...)
 	return newindex
 }
 
+func cloneIndexColumns(cols []IndexColumn) []IndexColumn {
+	var l []IndexColumn
+	for _, col := range cols {
+		if c, ok := col.(*indexColumn); ok {
+			newcol := *c
+			col = &newcol
+		}
+		l = append(l, col)
+	}
+	return l
+}
+
 func NewIndexColumn(name string) IndexColumn {
 	return &indexColumn{
 		name: name,
diff --git a/model/table_column.go b/model/table_column.go
index 2d6fd79..ff0acdd 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -424,5 +424,12 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 func (t *tablecol) Clone() TableColumn {
 	col := &tablecol{}
 	*col = *t
+	if t.length != nil {
+		l := NewLength(t.length.Length())
+		if t.length.HasDecimal() {
+			l.SetDecimal(t.length.Decimal())
+		}
+		col.length = l
+	}
 	return col
 }
-- 
2.43.0


From 5ce0766476a242f1be99ddac4a1cd00c6ffc5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 33/51] fix: model: tell apart indexes that differ in sort
 direction, parser or the place of a separator

---
 model/index.go     | 26 +++++++++++++++++++++-----
 model/reference.go |  2 +-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/model/index.go b/model/index.go
index a1bce2c..06f8f46 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,7 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -19,7 +20,9 @@ func (stmt *index) ID() string {
 	// something.
 	//
 	// In case we don't have a name, we need to know the table, the kind,
-	// the type, // the column(s), and the reference(s).
+	// the type, // the column(s), the option(s), and the reference(s).
+	// Strings are preceded by their lengths, to tell apart what would
+	// look the same otherwise.
 	name := "index"
 	if stmt.HasName() {
 		name = name + "#" + stmt.Name()
@@ -28,12 +31,12 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = lengthPrefixed(stmt.Symbol())
 	}
 
 	fmt.Fprintf(h,
 		"%s.%s.%s.%s",
-		stmt.table,
+		lengthPrefixed(stmt.table),
 		sym,
 		stmt.kind,
 		stmt.typ,
@@ -42,6 +45,10 @@ func (stmt *index) ID() string {
 		fmt.Fprintf(h, ".")
 		fmt.Fprintf(h, "%s", col.ID())
 	}
+	for opt := range stmt.Options() {
+		fmt.Fprintf(h, ".")
+		fmt.Fprintf(h, "%s=%s", lengthPrefixed(opt.Key()), lengthPrefixed(opt.Value()))
+	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
 		fmt.Fprintf(h, stmt.reference.ID())
@@ -49,6 +56,10 @@ func (stmt *index) ID() string {
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
 
+func lengthPrefixed(s string) string {
+	return strconv.Itoa(len(s)) + ":" + s
+}
+
 func (stmt *index) AddColumns(l ...IndexColumn) {
 	stmt.columns = append(stmt.columns, l...)
 }
@@ -190,10 +201,15 @@ func NewIndexColumn(name string) IndexColumn {
 }
 
 func (col *indexColumn) ID() string {
+	id := "index_column#" + lengthPrefixed(col.Name())
 	if col.HasLength() {
-		return "index_column#" + col.Name() + "-" + col.Length()
+		id = id + "-" + lengthPrefixed(col.Length())
+	}
+	// ascending is the default
+	if col.IsDescending() {
+		id = id + "-desc"
 	}
-	return "index_column#" + col.Name()
+	return id
 }
 
 func (col *indexColumn) Name() string {
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..3d5075d 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -18,7 +18,7 @@ func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
 		"%s.%s.%s.%s",
-		r.tableName,
+		lengthPrefixed(r.tableName),
 		r.match,
 		r.onDelete,
 		r.onUpdate,
-- 
2.43.0


From 6b0ef3006bebac88383b22c0b32153c572e3a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:23 +0000
Subject: [PATCH 34/51] fix: diff: report errors while writing added columns

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index f9d758d..5321710 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -332,7 +332,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -349,7 +351,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -367,7 +371,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From 7ff39f33f4871a0d8e76d3012bf067bd9061a195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 35/51] fix: diff: do not drop or add columns of a table that
 is only known by its LIKE clause

---
 diff/diff.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 5321710..e794e61 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -258,6 +258,10 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		}
 		afterStmt := stmt.(model.Table)
 
+		if beforeStmt.HasLikeTable() != afterStmt.HasLikeTable() || beforeStmt.LikeTable() != afterStmt.LikeTable() {
+			return 0, errors.Errorf(`cannot alter table %s: its LIKE clauses differ`, util.Backquote(beforeStmt.Name()))
+		}
+
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
 		for _, p := range procs {
-- 
2.43.0


From 9e4821b14de9082ff13057df29ad0c0019dd5171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 36/51] fix: diff: do not leave a table without columns when
 all of them are replaced

---
 diff/diff.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/diff/diff.go b/diff/diff.go
index e794e61..306177d 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -239,6 +239,13 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		alterTableColumns,
 		addTableIndexes,
 	}
+	addColumnsFirst := []func(*alterCtx, io.Writer) (int64, error){
+		dropTableIndexes,
+		addTableColumns,
+		dropTableColumns,
+		alterTableColumns,
+		addTableIndexes,
+	}
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
@@ -264,7 +271,12 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
-		for _, p := range procs {
+		tableProcs := procs
+		if alterCtx.fromColumns.Intersect(alterCtx.toColumns).Cardinality() == 0 {
+			// a table cannot be left without columns
+			tableProcs = addColumnsFirst
+		}
+		for _, p := range tableProcs {
 			n, err := p(alterCtx, &pbuf)
 			if err != nil {
 				return 0, errors.Wrap(err, `failed to generate alter table`)
-- 
2.43.0


From f1efa70daa6ed1135a6fe02098525e193fd79c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 37/51] fix: diff: drop foreign keys before the primary key

---
 diff/diff.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 306177d..45bb83c 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -471,12 +471,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 
 		if indexStmt.IsPrimaryKey() {
-			if buf.Len() > 0 {
-				buf.WriteByte('\n')
-			}
-			buf.WriteString("ALTER TABLE ")
-			buf.WriteString(util.Backquote(ctx.from.Name()))
-			buf.WriteString(" DROP PRIMARY KEY;")
+			lazy = append(lazy, indexStmt)
 			continue
 		}
 
@@ -508,6 +503,10 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 		}
 		buf.WriteString("ALTER TABLE ")
 		buf.WriteString(util.Backquote(ctx.from.Name()))
+		if indexStmt.IsPrimaryKey() {
+			buf.WriteString(" DROP PRIMARY KEY;")
+			continue
+		}
 		buf.WriteString(" DROP INDEX ")
 		if !indexStmt.HasName() {
 			buf.WriteString(util.Backquote(indexStmt.Symbol()))
-- 
2.43.0


From 845e47e2e9fee3ecd625a843912431fdaf5dc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 38/51] fix: lint: report errors while writing

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..c299883 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write separator`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write terminator`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 7493fb737d9aaa05fbbc93de89eee4b966312679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 39/51] fix: source: report remote hosts as an error

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index e5df2f4..380b254 100644
--- a/source.go
+++ b/source.go
@@ -72,7 +72,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From 719ae01e41b6cdc776ca5cc777626ddea173cf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 40/51] fix: source: do not take a broken connection for the
 end of the table list

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index 380b254..72589e1 100644
--- a/source.go
+++ b/source.go
@@ -230,6 +230,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to list tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From 73ff5a5c8500f8e98bac761445881d8011679a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 41/51] fix: source: do not send the ssl-* parameters to the
 server as variables

---
 source.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/source.go b/source.go
index 72589e1..2699825 100644
--- a/source.go
+++ b/source.go
@@ -135,10 +135,14 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 	// because _I_ need support for tls, I'm going to handle setting up
 	// the tls stuff, by using
 	// tls=true&ssl-ca=file=...&ssl-cert=...&ssql-secret=...
+	sslCa := cfg.Params["ssl-ca"]
+	sslCert := cfg.Params["ssl-cert"]
+	sslSecret := cfg.Params["ssl-secret"]
+	// these are for us, everything left in cfg.Params is set on the server
+	delete(cfg.Params, "ssl-ca")
+	delete(cfg.Params, "ssl-cert")
+	delete(cfg.Params, "ssl-secret")
 	if v, err := strconv.ParseBool(cfg.TLSConfig); err == nil && v {
-		sslCa := cfg.Params["ssl-ca"]
-		sslCert := cfg.Params["ssl-cert"]
-		sslSecret := cfg.Params["ssl-secret"]
 		if sslCa == "" || sslCert == "" || sslSecret == "" {
 			return nil, errors.New(`to enable tls, you must provide ssl-ca, ssl-cert, and ssl-secret parameters to the DSN`)
 		}
@@ -167,10 +171,12 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 		if err != nil {
 			return nil, errors.Wrap(err, `failed to load X509 key pair`)
 		}
-		mysql.RegisterTLSConfig(tlsName, &tls.Config{
+		if err := mysql.RegisterTLSConfig(tlsName, &tls.Config{
 			RootCAs:      rootCertPool,
 			Certificates: []tls.Certificate{certs},
-		})
+		}); err != nil {
+			return nil, errors.Wrap(err, `failed to register tls configuration`)
+		}
 		cfg.TLSConfig = tlsName
 	}
 	return cfg, nil
-- 
2.43.0


From 2813c4e23fac6e275f630a56b12333a84e7fc579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 42/51] fix: source: take plain file names as they are

---
 source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source.go b/source.go
index 2699825..c7d9f47 100644
--- a/source.go
+++ b/source.go
@@ -64,6 +64,11 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return nil, errors.Wrap(err, `failed to parse uri`)
 	}
 
+	if u.Scheme == "" && u.Host == "" {
+		// not a URI: '?', '#' and '%' are part of the file name
+		return NewLocalFileSource(uri), nil
+	}
+
 	switch strings.ToLower(u.Scheme) {
 	case "local-git":
 		// local-git:///path/to/dir?file=foo&commitish=bar
-- 
2.43.0


From 446a45648e6701a79b9d1c21045a71ab0c79da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 43/51] fix: source: do not ignore parts of local-git and file
 URIs

---
 source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source.go b/source.go
index c7d9f47..78ac721 100644
--- a/source.go
+++ b/source.go
@@ -72,6 +72,9 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	switch strings.ToLower(u.Scheme) {
 	case "local-git":
 		// local-git:///path/to/dir?file=foo&commitish=bar
+		if u.Opaque != "" || (u.Host != "" && u.Host != "localhost") {
+			return nil, errors.New(`local-git:// sources must have an absolute path and no remote host`)
+		}
 		q := u.Query()
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
 	case "file", "":
@@ -79,6 +82,9 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		if u.Host != "" && u.Host != "localhost" {
 			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
+		if u.Path == "" {
+			return nil, errors.New(`no path in file:// source`)
+		}
 		return NewLocalFileSource(u.Path), nil
 	}
 
-- 
2.43.0


From 322911587301720b13a01454d2afe7571302e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:19 +0000
Subject: [PATCH 44/51] fix: source: do not pass options to git

---
 source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source.go b/source.go
index 78ac721..a092b10 100644
--- a/source.go
+++ b/source.go
@@ -255,6 +255,11 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 }
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
+	if strings.HasPrefix(s.commitish, "-") {
+		// git would take it for an option
+		return errors.Errorf(`invalid commit %s`, s.commitish)
+	}
+
 	var out bytes.Buffer
 	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
-- 
2.43.0


From da091f1c2732a03cd80c0f438b4554124c0b7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 45/51] fix: cmd: do not touch the output file before the
 sources are read, report errors while writing it

---
 cmd/schemadiff/schemadiff.go | 36 ++++++++++++++++++++++--------------
 cmd/schemalex/schemalex.go   | 36 ++++++++++++++++++++++--------------
 cmd/schemalint/schemalint.go | 28 ++++++++++++++++------------
 3 files changed, 60 insertions(+), 40 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..379fc06 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -77,16 +78,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -98,10 +89,27 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	// The output file may be one of the sources, so it must not be touched
+	// before we are done with them
+	var dst bytes.Buffer
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	return nil
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..64c4a3d 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -76,16 +77,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -97,10 +88,27 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	// The output file may be one of the sources, so it must not be touched
+	// before we are done with them
+	var dst bytes.Buffer
+	if err := diff.Sources(
+		&dst,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	return nil
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..923111f 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,11 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -84,16 +85,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -104,9 +95,22 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	// The output file may be the source, so it must not be touched before we
+	// are done with it
+	var dst bytes.Buffer
+	if err := linter.Run(ctx, src, &dst, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
 
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, dst.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+
+	if _, err := dst.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
 	return nil
 }
-- 
2.43.0


From 29ba03141ff6473f3637d97710d864f52d0c0dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 46/51] fix: DECIMAL(M) means DECIMAL(M,0) when comparing
 columns

---
 model/table_column.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model/table_column.go b/model/table_column.go
index ff0acdd..abf83a7 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -340,6 +340,13 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			clone = true
 			length = l
 		}
+	} else if l := t.Length(); !l.HasDecimal() {
+		switch t.Type() {
+		case ColumnTypeDecimal, ColumnTypeNumeric:
+			// DECIMAL(M) means DECIMAL(M,0)
+			clone = true
+			length = NewLength(l.Length()).SetDecimal("0")
+		}
 	}
 
 	if typ := t.Type(); typ.SynonymType() != typ {
-- 
2.43.0


From 6e7c28ebe81a2996e88dc147aa7e433df57abea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 47/51] fix: model: do not take the names in a reference for a
 format

---
 model/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/index.go b/model/index.go
index 06f8f46..754559c 100644
--- a/model/index.go
+++ b/model/index.go
@@ -51,7 +51,7 @@ func (stmt *index) ID() string {
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, stmt.reference.ID())
+		fmt.Fprintf(h, "%s", stmt.reference.ID())
 	}
 	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
 }
-- 
2.43.0


From 27f946a9196e06e84d5e7fa3e45b3137503d1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 48/51] fix: source: file names with '%' or ':' are file names,
 a broken query of a git source is an error

---
 source.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/source.go b/source.go
index a092b10..0dad5aa 100644
--- a/source.go
+++ b/source.go
@@ -59,13 +59,17 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	if !hasScheme(uri) && !strings.HasPrefix(uri, "//") {
+		// not a URI: '?', '#', '%' and ':' are part of the file name
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		return nil, errors.Wrap(err, `failed to parse uri`)
 	}
 
 	if u.Scheme == "" && u.Host == "" {
-		// not a URI: '?', '#' and '%' are part of the file name
 		return NewLocalFileSource(uri), nil
 	}
 
@@ -75,7 +79,10 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		if u.Opaque != "" || (u.Host != "" && u.Host != "localhost") {
 			return nil, errors.New(`local-git:// sources must have an absolute path and no remote host`)
 		}
-		q := u.Query()
+		q, err := url.ParseQuery(u.RawQuery)
+		if err != nil {
+			return nil, errors.Wrap(err, `failed to parse query of local-git:// source`)
+		}
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
 	case "file", "":
 		// Eh, no remote host, please
@@ -91,6 +98,25 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	return nil, errors.New("invalid source")
 }
 
+// hasScheme returns true if the string starts with the scheme of a URI.
+func hasScheme(s string) bool {
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		switch {
+		case 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z':
+		case '0' <= c && c <= '9' || c == '+' || c == '-' || c == '.':
+			if i == 0 {
+				return false
+			}
+		case c == ':':
+			return i > 0
+		default:
+			return false
+		}
+	}
+	return false
+}
+
 // NewReaderSource creates a SchemaSource whose contents are read from the
 // given io.Reader.
 func NewReaderSource(src io.Reader) SchemaSource {
-- 
2.43.0


From 55b73ca344f4c10c7b068da4c3a2ae8cef456550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 49/51] fix: lint: options given to New apply to every Run

---
 lint/lint.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index c299883..f682852 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -10,7 +10,9 @@ import (
 	"github.com/schemalex/schemalex/format"
 )
 
-type Linter struct{}
+type Linter struct {
+	options []Option
+}
 type Option = schemalex.Option
 
 func WithIndent(s string, n int) Option {
@@ -18,7 +20,7 @@ func WithIndent(s string, n int) Option {
 }
 
 func New(options ...Option) *Linter {
-	return &Linter{}
+	return &Linter{options: options}
 }
 
 func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Writer, options ...Option) error {
@@ -27,6 +29,9 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 		return errors.Wrap(err, `failed to read from source`)
 	}
 
+	// the options of this run come last, as they take precedence
+	options = append(append([]Option(nil), l.options...), options...)
+
 	p := schemalex.New()
 	stmts, err := p.Parse(buf.Bytes())
 	if err != nil {
-- 
2.43.0


From 02b54a177ba62839d1ce0a1bddb70c5994beaf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 50/51] fix: table options: values that are keywords
 (INSERT_METHOD=LAST, PACK_KEYS=DEFAULT, ENGINE=MEMORY, COLLATE=binary)

---
 parser.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index 666f8c2..2bbb433 100644
--- a/parser.go
+++ b/parser.go
@@ -725,7 +725,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case ENGINE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "ENGINE", IDENT, MEMORY, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case AUTO_INCREMENT:
@@ -753,7 +753,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			default:
 				return newParseError(ctx, t, "expected CHARACTER or COLLATE")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BINARY, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case CHARACTER:
@@ -761,11 +761,11 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			if t := ctx.next(); t.Type != SET {
 				return newParseError(ctx, t, "expected SET")
 			}
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BINARY, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case COLLATE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT COLLATE", IDENT, BINARY, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT); err != nil {
 				return err
 			}
 		case CHECKSUM:
@@ -801,7 +801,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case INSERT_METHOD:
-			if err := p.parseCreateTableOptionValue(ctx, table, "INSERT_METHOD", IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "INSERT_METHOD", IDENT, NO, FIRST, LAST); err != nil {
 				return err
 			}
 		case KEY_BLOCK_SIZE:
@@ -817,7 +817,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case PACK_KEYS:
-			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT, DEFAULT); err != nil {
 				return err
 			}
 		case PASSWORD:
-- 
2.43.0


From 7e786dbb74b006ef9350d32fc7c2b4e6b792bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:56 +0000
Subject: [PATCH 51/51] fix: a reference's String shows the prefix lengths and
 directions of its columns

---
 model/reference.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/model/reference.go b/model/reference.go
index 3d5075d..f14871b 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -99,6 +99,18 @@ func (r reference) String() string {
 	var i int
 	for col := range ch {
 		buf.WriteString(util.Backquote(col.Name()))
+		if col.HasLength() {
+			buf.WriteByte('(')
+			buf.WriteString(col.Length())
+			buf.WriteByte(')')
+		}
+		if col.HasSortDirection() {
+			if col.IsAscending() {
+				buf.WriteString(" ASC")
+			} else {
+				buf.WriteString(" DESC")
+			}
+		}
 		if i < lch-1 {
 			buf.WriteString(", ")
 		}
-- 
2.43.0

