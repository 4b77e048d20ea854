From f370646e1f6c65785013560daa11b65e5e15dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 01/50] fix: do not take a NUL byte for the end of the input

---
 lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..11ab0e3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,8 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+// eof is not a valid rune, so it cannot be confused with the input (e.g. a NUL byte)
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
-- 
2.43.0


From 157e24109e83fb8acf92690a6e135af9e2cbe20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 02/50] fix: account for multi-byte look-ahead when computing
 token positions

---
 lexer.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lexer.go b/lexer.go
index 11ab0e3..60beb06 100644
--- a/lexer.go
+++ b/lexer.go
@@ -83,11 +83,20 @@ func (l *lexer) emit(ctx context.Context, typ TokenType) {
 	// when we emit, we must copy the value of cur to start
 	// but we also must adjust the position by the read-ahead offset
 	l.start = l.cur
-	l.start.pos = l.start.pos - (l.peekCount + 1)
+	l.start.pos = l.endpos()
+}
+
+// endpos returns the current position excluding read-ahead, whose rune
+// may be more than one byte wide
+func (l *lexer) endpos() int {
+	if l.peekCount < 0 {
+		return l.cur.pos
+	}
+	return l.cur.pos - l.peekRunes[l.peekCount].w
 }
 
 func (l *lexer) str() string {
-	endpos := l.cur.pos - (l.peekCount + 1)
+	endpos := l.endpos()
 	w := len(l.input[l.start.pos:])
 	if endpos-l.start.pos > w {
 		endpos = l.start.pos + w
-- 
2.43.0


From fdb373dbef8a5a295f16c1bacdf6a3410ba5555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 03/50] fix: reject unterminated comments, and do not end a
 comment at /*/

---
 lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 60beb06..6f36e8b 100644
--- a/lexer.go
+++ b/lexer.go
@@ -168,7 +168,11 @@ OUTER:
 		case '/':
 			switch c := l.peek(); c {
 			case '*':
-				l.runCComment()
+				l.advance() // this '*' can not be part of the closing "*/"
+				if err := l.runCComment(); err != nil {
+					l.emit(ctx, ILLEGAL)
+					return
+				}
 				l.emit(ctx, COMMENT_IDENT)
 			default:
 				l.emit(ctx, SLASH)
@@ -335,16 +339,16 @@ func (l *lexer) runQuote(pair rune) error {
 }
 
 // https://dev.mysql.com/doc/refman/5.6/en/comments.html
-func (l *lexer) runCComment() {
+func (l *lexer) runCComment() error {
 	for {
 		r := l.next()
 		switch r {
 		case eof:
-			return
+			return errors.New(`unexpected eof`)
 		case '*':
 			if l.peek() == '/' {
 				l.advance()
-				return
+				return nil
 			}
 		}
 	}
-- 
2.43.0


From e6c380145bf7c50b8b37f59387906f89e420a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 04/50] fix: do not skip the rest of the input silently at an
 unterminated literal

---
 parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..62d4162 100644
--- a/parser.go
+++ b/parser.go
@@ -181,6 +181,13 @@ LOOP:
 					fallthrough
 				case EOF:
 					break S1
+				case ILLEGAL:
+					// a lone unknown character (such as '@') is fine here, but
+					// a literal or a comment without an end hides the rest of the input
+					if strings.IndexAny(t.Value, "'\"`/") == 0 {
+						return nil, newParseError(ctx, t, "unterminated literal or comment")
+					}
+					ctx.advance()
 				default:
 					ctx.advance()
 				}
@@ -249,7 +256,11 @@ func (p *Parser) parseCreateDatabase(ctx *parseCtx) (model.Database, error) {
 	}
 
 	database.SetIfNotExists(notexists)
-	p.eol(ctx)
+
+	ctx.skipWhiteSpaces()
+	if t := ctx.peek(); !p.eol(ctx) {
+		return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
+	}
 	return database, nil
 }
 
-- 
2.43.0


From be54a1fe950923a7aa97ff5d7b5bd4f6ff961935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 05/50] fix: always report SQL errors as ParseErrors located at
 the offending token

---
 parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 62d4162..596c95e 100644
--- a/parser.go
+++ b/parser.go
@@ -322,7 +322,7 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 	case IF:
 		ctx.advance()
 		if _, err := p.parseIdents(ctx, NOT, EXISTS); err != nil {
-			return nil, newParseError(ctx, t, "should NOT EXISTS")
+			return nil, err
 		}
 		ctx.skipWhiteSpaces()
 		table.SetIfNotExists(true)
@@ -1269,11 +1269,11 @@ OUTER:
 		switch t := ctx.next(); t.Type {
 		case DELETE:
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
-				return errors.Wrap(err, `failed to parse ON DELETE`)
+				return err
 			}
 		case UPDATE:
 			if err := p.parseReferenceOption(ctx, r.SetOnUpdate); err != nil {
-				return errors.Wrap(err, `failed to parse ON UPDATE`)
+				return err
 			}
 			break OUTER
 		default:
@@ -1297,7 +1297,8 @@ func (p *Parser) parseColumnIndexName(ctx *parseCtx, index model.Index) error {
 
 func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type != USING {
+	t := ctx.peek()
+	if t.Type != USING {
 		return nil
 	}
 	ctx.advance()
@@ -1311,7 +1312,7 @@ func (p *Parser) parseColumnIndexType(ctx *parseCtx, index model.Index) error {
 		} else {
 			typ = "NONE"
 		}
-		return errors.Errorf(`statement already has index type declared (%s)`, typ)
+		return newParseError(ctx, t, "statement already has index type declared (%s)", typ)
 	}
 
 	ctx.skipWhiteSpaces()
-- 
2.43.0


From b67251a3c73b5d66db688f1490fa1aff4aef80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 06/50] fix: reject malformed and missing ENUM and SET value
 lists

---
 parser.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 596c95e..9361a08 100644
--- a/parser.go
+++ b/parser.go
@@ -839,6 +839,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 		pos = _f
 		return true
 	}
+	if f&(coloptEnumValues|coloptSetValues) != 0 {
+		// unlike sizes, the list of values is not optional
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != LPAREN {
+			return newParseError(ctx, t, "expected LPAREN (enum values)")
+		}
+	}
 	for {
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
@@ -897,9 +904,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From 01d9776778c34cff29f31f3cb34f1d2f1b78fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 07/50] fix: keep the name of the DELAY_KEY_WRITE table option

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9361a08..380e917 100644
--- a/parser.go
+++ b/parser.go
@@ -742,7 +742,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From b4b30c9354bab2a7807d74af9b1587c24629eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 08/50] fix: accept CREATE TEMPORARY TABLE, which is also what
 is printed

---
 parser.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 380e917..9c34cd7 100644
--- a/parser.go
+++ b/parser.go
@@ -220,10 +220,21 @@ func (p *Parser) parseCreate(ctx *parseCtx) (model.Stmt, error) {
 			return nil, err
 		}
 		return nil, errors.Ignorable(nil)
+	case TEMPORARY:
+		ctx.advance()
+		ctx.skipWhiteSpaces()
+		if t := ctx.peek(); t.Type != TABLE {
+			return nil, newParseError(ctx, t, "expected TABLE")
+		}
+		table, err := p.parseCreateTable(ctx)
+		if err != nil {
+			return nil, err
+		}
+		return table.SetTemporary(true), nil
 	case TABLE:
 		return p.parseCreateTable(ctx)
 	default:
-		return nil, newParseError(ctx, t, "expected DATABASE or TABLE")
+		return nil, newParseError(ctx, t, "expected DATABASE, TEMPORARY or TABLE")
 	}
 }
 
-- 
2.43.0


From e77d24e8ede530792b3b8e078714b9c7f48f6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 09/50] fix: accept white space around the length of an index
 column

---
 parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser.go b/parser.go
index 9c34cd7..39f0d85 100644
--- a/parser.go
+++ b/parser.go
@@ -1375,6 +1375,7 @@ OUTER:
 		ctx.skipWhiteSpaces()
 		switch t = ctx.next(); t.Type {
 		case LPAREN:
+			ctx.skipWhiteSpaces()
 			t := ctx.next()
 			if t.Type != NUMBER {
 				return newParseError(ctx, t, "expected NUMBER")
@@ -1390,6 +1391,7 @@ OUTER:
 		}
 
 		// optional sort direction
+		ctx.skipWhiteSpaces()
 		switch t = ctx.peek(); t.Type {
 		case ASC:
 			ctx.advance()
-- 
2.43.0


From 49412d69c26c4c3684202f0294175a68909a6a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 10/50] fix: accept a FULLTEXT index that is not the last field

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 39f0d85..119e763 100644
--- a/parser.go
+++ b/parser.go
@@ -1420,7 +1420,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From f07b62fcc4ace27f34237df1858daa8f6bed0ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 11/50] fix: accept SPATIAL KEY

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 119e763..bf37f4f 100644
--- a/parser.go
+++ b/parser.go
@@ -1170,9 +1170,9 @@ func (p *Parser) parseColumnIndexSpatialKey(ctx *parseCtx, index model.Index) er
 		return newParseError(ctx, t, "expected SPATIAL")
 	}
 
-	// optional INDEX
+	// optional INDEX or KEY
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type == INDEX {
+	if t := ctx.peek(); t.Type == INDEX || t.Type == KEY {
 		ctx.advance()
 	}
 
-- 
2.43.0


From bc2cded1836116456d2c9ba79dcf0c8e9c03600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 12/50] fix: check the values of CHARACTER SET, COLLATE and ON
 UPDATE in columns

---
 parser.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/parser.go b/parser.go
index bf37f4f..9d657dc 100644
--- a/parser.go
+++ b/parser.go
@@ -931,12 +931,20 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected SET")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCharacterSet(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCharacterSet(t.Value)
+			default:
+				return newParseError(ctx, t, "expected character set name")
+			}
 		case COLLATE:
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetCollation(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+				col.SetCollation(t.Value)
+			default:
+				return newParseError(ctx, t, "expected collation name")
+			}
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
 				return newParseError(ctx, t, "cannot apply UNSIGNED")
@@ -975,8 +983,14 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				return newParseError(ctx, t, "expected ON UPDATE")
 			}
 			ctx.skipWhiteSpaces()
-			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			switch t := ctx.next(); t.Type {
+			case IDENT, CURRENT_TIMESTAMP, NOW:
+				col.SetAutoUpdate(strings.ToUpper(t.Value))
+			default:
+				return newParseError(ctx, t, "expected CURRENT_TIMESTAMP")
+			}
+			// a size that follows does not belong to the column
+			pos = coloptEverythingElse
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
-- 
2.43.0


From 26d7d7b433706b87e5c4279d133467a5d4e70395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 13/50] fix: fold the case of keywords used as table option
 values

---
 parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 9d657dc..e57c740 100644
--- a/parser.go
+++ b/parser.go
@@ -663,11 +663,16 @@ func (p *Parser) parseCreateTableOptionValue(ctx *parseCtx, table model.Table, n
 			continue
 		}
 		var quotes bool
+		value := t.Value
 		switch t.Type {
 		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
 			quotes = true
+		case IDENT, BACKTICK_IDENT, NUMBER:
+		default:
+			// keywords such as DYNAMIC mean the same in any case
+			value = strings.ToUpper(value)
 		}
-		table.AddOption(model.NewTableOption(name, t.Value, quotes))
+		table.AddOption(model.NewTableOption(name, value, quotes))
 		return nil
 	}
 	return newParseError(ctx, t, "expected %v", follow)
-- 
2.43.0


From 7a41906d32c18583c730e1277e9e5717ab82a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 14/50] fix: honour escaped backslashes in literals, and keep
 their bytes intact

---
 lexer.go | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lexer.go b/lexer.go
index 6f36e8b..27b16c7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -292,28 +292,26 @@ OUTER:
 	return IDENT
 }
 
-func unescapeQuotes(s string, quot rune) string {
-	var buf bytes.Buffer
-	max := utf8.RuneCountInString(s)
-	rdr := strings.NewReader(s)
-	for i := 0; i < max; i++ {
-		r, _, _ := rdr.ReadRune()
-
-		// assume first rune and last rune are quot
-		if i == 0 || i == max-1 {
-			continue
-		}
+// unescapeQuotes strips the surrounding quotes, and resolves the escape
+// sequences that stand for quotes. Any other escape sequence is kept as is.
+func unescapeQuotes(s string, quot byte) string {
+	// first byte and last byte are quot
+	s = s[1 : len(s)-1]
 
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
+	var buf bytes.Buffer
+	for i := 0; i < len(s); i++ {
+		if i+1 < len(s) {
+			switch c := s[i+1]; {
+			case s[i] == '\\' && quot != '`':
+				if c != '\'' && c != '"' {
+					buf.WriteByte(s[i])
+				}
+				i++
+			case s[i] == quot && c == quot:
 				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
 			}
 		}
-		buf.WriteRune(r)
+		buf.WriteByte(s[i])
 	}
 	return buf.String()
 }
@@ -323,8 +321,10 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
+		} else if r == '\\' && pair != '`' {
+			// whatever follows is escaped. note that there
+			// are no escapes by backslash in identifiers
+			if l.peek() != eof {
 				r = l.next()
 			}
 		} else if r == pair {
-- 
2.43.0


From 2a954e3363186930f87ba1143bc797982b37055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 15/50] fix: escape backquotes in identifiers

---
 diff/diff.go          | 33 +++++++++++++++++----------------
 internal/util/util.go | 10 ++++++++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..acc2020 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -12,6 +12,7 @@ import (
 	"github.com/schemalex/schemalex"
 	"github.com/schemalex/schemalex/format"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -160,7 +161,7 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
 		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
+		buf.WriteString(util.EscapeBackquote(table.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -284,14 +285,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP COLUMN `")
 		col, ok := ctx.from.LookupColumn(columnName.(string))
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
+		buf.WriteString(util.EscapeBackquote(col.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -383,14 +384,14 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
 			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
+			buf.WriteString(util.EscapeBackquote(beforeCol.Name()))
 			buf.WriteString("`")
 		} else {
 			buf.WriteString(" FIRST")
@@ -423,9 +424,9 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
+		buf.WriteString(util.EscapeBackquote(afterColumnStmt.Name()))
 		buf.WriteString("` ")
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
@@ -453,7 +454,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 				buf.WriteByte('\n')
 			}
 			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
+			buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 			buf.WriteString("` DROP PRIMARY KEY;")
 			continue
 		}
@@ -470,12 +471,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP FOREIGN KEY `")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
 		}
 		buf.WriteString("`;")
 	}
@@ -485,12 +486,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP INDEX `")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
 		}
 
 		buf.WriteString("`;")
@@ -518,7 +519,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
@@ -531,7 +532,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..b0756db 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,13 @@
 package util
 
+import "strings"
+
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + EscapeBackquote(s) + "`"
+}
+
+// EscapeBackquote escapes the given string for use within backquotes
+func EscapeBackquote(s string) string {
+	return strings.Replace(s, "`", "``", -1)
 }
-- 
2.43.0


From 9dc76a40d81b00907d4d14bce28430359cd2b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:36 +0000
Subject: [PATCH 16/50] fix: escape single quotes in literals

---
 format/format.go      | 10 +++++-----
 internal/util/util.go | 24 +++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/format/format.go b/format/format.go
index 02a8159..107f5ff 100644
--- a/format/format.go
+++ b/format/format.go
@@ -93,7 +93,7 @@ func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
 		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
+		buf.WriteString(util.EscapeSingleQuote(option.Value()))
 		buf.WriteByte('\'')
 	} else {
 		buf.WriteString(option.Value())
@@ -217,7 +217,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
 			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
+			buf.WriteString(util.EscapeSingleQuote(enumValue))
 			buf.WriteByte('\'')
 			buf.WriteByte(',')
 		}
@@ -227,7 +227,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
 			buf.WriteByte('\'')
-			buf.WriteString(setValue)
+			buf.WriteString(util.EscapeSingleQuote(setValue))
 			buf.WriteByte('\'')
 			buf.WriteByte(',')
 		}
@@ -287,7 +287,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
 			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
+			buf.WriteString(util.EscapeSingleQuote(col.Default()))
 			buf.WriteByte('\'')
 		} else {
 			buf.WriteString(col.Default())
@@ -310,7 +310,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 
 	if col.HasComment() {
 		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
+		buf.WriteString(util.EscapeSingleQuote(col.Comment()))
 		buf.WriteByte('\'')
 	}
 
diff --git a/internal/util/util.go b/internal/util/util.go
index b0756db..c964bbe 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,6 +1,9 @@
 package util
 
-import "strings"
+import (
+	"bytes"
+	"strings"
+)
 
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
@@ -11,3 +14,22 @@ func Backquote(s string) string {
 func EscapeBackquote(s string) string {
 	return strings.Replace(s, "`", "``", -1)
 }
+
+// EscapeSingleQuote escapes the given string for use within single quotes.
+// Escape sequences by backslash are kept as is.
+func EscapeSingleQuote(s string) string {
+	var buf bytes.Buffer
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\'':
+			buf.WriteByte('\'')
+		case '\\':
+			buf.WriteByte('\\')
+			if i+1 < len(s) {
+				i++
+			}
+		}
+		buf.WriteByte(s[i])
+	}
+	return buf.String()
+}
-- 
2.43.0


From fe016e8c1bc92695c313b817ce22e50956447184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 17/50] fix: do not modify the receiver when normalizing a
 boolean default

---
 model/table_column.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..69832de 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -300,6 +300,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	var boolDefault string
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -336,9 +337,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		case ColumnTypeBool, ColumnTypeBoolean:
 			switch t.Default() {
 			case "TRUE":
-				t.SetDefault("1", false)
+				clone = true
+				boolDefault = "1"
 			case "FALSE":
-				t.SetDefault("0", false)
+				clone = true
+				boolDefault = "0"
 			}
 		}
 	} else {
@@ -375,6 +378,10 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		col.SetDefault(t.Default(), false)
 	}
 
+	if boolDefault != "" {
+		col.SetDefault(boolDefault, false)
+	}
+
 	if setDefaultNull {
 		col.SetDefault("NULL", false)
 	}
-- 
2.43.0


From 442a9358fbb53192515079f9069cb81c96e31565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 18/50] fix: trim quotes of defaults if and only if they are
 numbers, for BOOL as well

---
 model/table_column.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index 69832de..58f56ba 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -1,9 +1,13 @@
 package model
 
 import (
+	"regexp"
 	"strconv"
+	"strings"
 )
 
+var numberRegexp = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]+)?$`)
+
 // NewLength creates a new Length which describes the
 // length of a column
 func NewLength(v string) Length {
@@ -330,11 +334,19 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeFloat, ColumnTypeDouble,
 			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
 			// If numeric type then trim quote
-			if t.IsQuotedDefault() {
+			if t.IsQuotedDefault() && isNumber(t.Default()) {
 				clone = true
 				removeQuotes = true
 			}
 		case ColumnTypeBool, ColumnTypeBoolean:
+			if t.IsQuotedDefault() {
+				// same as numeric types
+				if isNumber(t.Default()) {
+					clone = true
+					removeQuotes = true
+				}
+				break
+			}
 			switch t.Default() {
 			case "TRUE":
 				clone = true
@@ -375,7 +387,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	col.SetNullState(nullState)
 
 	if removeQuotes {
-		col.SetDefault(t.Default(), false)
+		col.SetDefault(strings.ToUpper(t.Default()), false)
 	}
 
 	if boolDefault != "" {
@@ -388,6 +400,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	return col, true
 }
 
+// isNumber returns true if s can be written as a number literal
+func isNumber(s string) bool {
+	return numberRegexp.MatchString(s)
+}
+
 func (t *tablecol) Clone() TableColumn {
 	col := &tablecol{}
 	*col = *t
-- 
2.43.0


From 54edf7d7dcddb38073214e736411ab436117bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 19/50] fix: normalize both keys of a column that is PRIMARY
 KEY and UNIQUE

---
 model/table.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 2407946..03ed6ca 100644
--- a/model/table.go
+++ b/model/table.go
@@ -157,8 +157,7 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		switch {
-		case ncol.IsPrimary():
+		if ncol.IsPrimary() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -171,7 +170,8 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
-		case ncol.IsUnique():
+		}
+		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
 			index.SetName(ncol.Name())
-- 
2.43.0


From 0f5dd0bc5782d6a93e47029a32d07456ea432356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 20/50] fix: keep the LIKE table when normalizing

---
 model/table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table.go b/model/table.go
index 03ed6ca..7c52d9a 100644
--- a/model/table.go
+++ b/model/table.go
@@ -234,6 +234,9 @@ func (t *table) Normalize() (Table, bool) {
 	tbl := NewTable(t.Name())
 	tbl.SetIfNotExists(t.IsIfNotExists())
 	tbl.SetTemporary(t.IsTemporary())
+	if t.HasLikeTable() {
+		tbl.SetLikeTable(t.LikeTable())
+	}
 
 	for _, index := range additionalIndexes {
 		tbl.AddIndex(index)
-- 
2.43.0


From b3f4ec5f0e91e13058ff3c5c72be797709db5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 21/50] fix: do not add an implicit index if it is declared
 after its foreign key

---
 model/table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/model/table.go b/model/table.go
index 7c52d9a..b9f2785 100644
--- a/model/table.go
+++ b/model/table.go
@@ -191,6 +191,14 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for _, idx := range additionalIndexes {
+		seen[idx.Name()] = struct{}{}
+	}
+	for idx := range t.Indexes() {
+		if !idx.IsForeignKey() {
+			seen[idx.Name()] = struct{}{}
+		}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
-- 
2.43.0


From e55db8471d90e0f23751b1aa4794ef7e1a334918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 22/50] fix: do not share mutable parts between a column or an
 index and its clone

---
 model/index.go        | 21 +++++++++++++++++++++
 model/table_column.go |  6 ++++++
 2 files changed, 27 insertions(+)

diff --git a/model/index.go b/model/index.go
index 3d6a117..4555a93 100644
--- a/model/index.go
+++ b/model/index.go
@@ -161,9 +161,30 @@ func (stmt *index) Normalize() (Index, bool) {
 func (stmt *index) Clone() Index {
 	newindex := &index{}
 	*newindex = *stmt
+	newindex.columns = cloneIndexColumns(stmt.columns)
+	newindex.options = append([]IndexOption(nil), stmt.options...)
+	if r, ok := stmt.reference.(*reference); ok {
+		newref := &reference{}
+		*newref = *r
+		newref.columns = cloneIndexColumns(r.columns)
+		newindex.reference = newref
+	}
 	return newindex
 }
 
+func cloneIndexColumns(cols []IndexColumn) []IndexColumn {
+	var l []IndexColumn
+	for _, col := range cols {
+		if c, ok := col.(*indexColumn); ok {
+			newcol := &indexColumn{}
+			*newcol = *c
+			col = newcol
+		}
+		l = append(l, col)
+	}
+	return l
+}
+
 func NewIndexColumn(name string) IndexColumn {
 	return &indexColumn{
 		name: name,
diff --git a/model/table_column.go b/model/table_column.go
index 58f56ba..d35decb 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -408,5 +408,11 @@ func isNumber(s string) bool {
 func (t *tablecol) Clone() TableColumn {
 	col := &tablecol{}
 	*col = *t
+	if l := t.length; l != nil {
+		col.length = NewLength(l.Length())
+		if l.HasDecimal() {
+			col.length.SetDecimal(l.Decimal())
+		}
+	}
 	return col
 }
-- 
2.43.0


From d249837cc114fe5c9b8730b91d35bb24a245839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 23/50] fix: tell index definitions apart by direction, parser
 and unusual names

---
 model/index.go     | 19 ++++++++++++++-----
 model/reference.go |  4 ++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/model/index.go b/model/index.go
index 4555a93..1e9f953 100644
--- a/model/index.go
+++ b/model/index.go
@@ -3,6 +3,7 @@ package model
 import (
 	"crypto/sha256"
 	"fmt"
+	"strconv"
 )
 
 // NewIndex creates a new index with the given index kind.
@@ -28,11 +29,11 @@ func (stmt *index) ID() string {
 
 	sym := "none"
 	if stmt.HasSymbol() {
-		sym = stmt.Symbol()
+		sym = strconv.Quote(stmt.Symbol())
 	}
 
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		stmt.table,
 		sym,
 		stmt.kind,
@@ -40,7 +41,15 @@ func (stmt *index) ID() string {
 	)
 	for col := range stmt.Columns() {
 		fmt.Fprintf(h, ".")
-		fmt.Fprintf(h, "%s", col.ID())
+		fmt.Fprintf(h, "%q", col.ID())
+		if col.IsDescending() {
+			// ASC is the default, so it makes no difference
+			fmt.Fprintf(h, "DESC")
+		}
+	}
+	for opt := range stmt.Options() {
+		fmt.Fprintf(h, ".")
+		fmt.Fprintf(h, "%q=%q", opt.Key(), opt.Value())
 	}
 	if stmt.reference != nil {
 		fmt.Fprintf(h, ".")
@@ -193,9 +202,9 @@ func NewIndexColumn(name string) IndexColumn {
 
 func (col *indexColumn) ID() string {
 	if col.HasLength() {
-		return "index_column#" + col.Name() + "-" + col.Length()
+		return "index_column#" + strconv.Quote(col.Name()) + "-" + col.Length()
 	}
-	return "index_column#" + col.Name()
+	return "index_column#" + strconv.Quote(col.Name())
 }
 
 func (col *indexColumn) Name() string {
diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..79fde84 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -17,14 +17,14 @@ func NewReference() Reference {
 func (r *reference) ID() string {
 	h := sha256.New()
 	fmt.Fprintf(h,
-		"%s.%s.%s.%s",
+		"%q.%s.%s.%s",
 		r.tableName,
 		r.match,
 		r.onDelete,
 		r.onUpdate,
 	)
 	for col := range r.Columns() {
-		fmt.Fprintf(h, "%s", col.ID())
+		fmt.Fprintf(h, "%q", col.ID())
 		fmt.Fprintf(h, ".")
 	}
 	return fmt.Sprintf("reference#%x", h.Sum(nil))
-- 
2.43.0


From c61e76670354cce8139a73f93eac62ad32be1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 24/50] fix: lock a table while its columns, indexes and
 options are accessed

---
 model/table.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/model/table.go b/model/table.go
index b9f2785..0a6df04 100644
--- a/model/table.go
+++ b/model/table.go
@@ -73,11 +73,17 @@ func (t *table) AddColumn(v TableColumn) Table {
 }
 
 func (t *table) AddIndex(v Index) Table {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	t.indexes = append(t.indexes, v)
 	return t
 }
 
 func (t *table) AddOption(v TableOption) Table {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	t.options = append(t.options, v)
 	return t
 }
@@ -119,6 +125,9 @@ func (t *table) SetTemporary(v bool) Table {
 }
 
 func (t *table) Columns() chan TableColumn {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan TableColumn, len(t.columns))
 	for _, col := range t.columns {
 		ch <- col
@@ -128,6 +137,9 @@ func (t *table) Columns() chan TableColumn {
 }
 
 func (t *table) Indexes() chan Index {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan Index, len(t.indexes))
 	for _, idx := range t.indexes {
 		ch <- idx
@@ -137,6 +149,9 @@ func (t *table) Indexes() chan Index {
 }
 
 func (t *table) Options() chan TableOption {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan TableOption, len(t.options))
 	for _, idx := range t.options {
 		ch <- idx
-- 
2.43.0


From 69835b6708eb64dcc21be4f73bddb4d661ece8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 25/50] fix: print the differences in the order of the schema,
 not of the set

---
 diff/diff.go | 71 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index acc2020..4eb3682 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -45,6 +45,45 @@ func newDiffCtx(from, to model.Stmts) *diffCtx {
 	}
 }
 
+// inOrder returns the IDs in the given set in the order they are
+// declared, so that the output does not depend on the order of the set
+func inOrder(set mapset.Set, declared []string) []string {
+	var ids []string
+	seen := mapset.NewSet()
+	for _, id := range declared {
+		if set.Contains(id) && seen.Add(id) {
+			ids = append(ids, id)
+		}
+	}
+	return ids
+}
+
+func tableIDs(stmts model.Stmts) []string {
+	var ids []string
+	for _, stmt := range stmts {
+		if table, ok := stmt.(model.Table); ok {
+			ids = append(ids, table.ID())
+		}
+	}
+	return ids
+}
+
+func columnIDs(table model.Table) []string {
+	var ids []string
+	for col := range table.Columns() {
+		ids = append(ids, col.ID())
+	}
+	return ids
+}
+
+func indexIDs(table model.Table) []string {
+	var ids []string
+	for idx := range table.Indexes() {
+		ids = append(ids, idx.ID())
+	}
+	return ids
+}
+
 // Statements compares two model.Stmts and generates a series
 // of statements to migrate from the old one to the new one,
 // writing the result to `dst`
@@ -146,12 +185,12 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
-	for i, id := range ids.ToSlice() {
+	for i, id := range inOrder(ids, tableIDs(ctx.from)) {
 		if i > 0 {
 			buf.WriteByte('\n')
 		}
 
-		stmt, ok := ctx.from.Lookup(id.(string))
+		stmt, ok := ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -172,9 +211,9 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, tableIDs(ctx.to)) {
 		// Lookup the corresponding statement, and add its SQL
-		stmt, ok := ctx.to.Lookup(id.(string))
+		stmt, ok := ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -242,17 +281,17 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, tableIDs(ctx.to)) {
 		var stmt model.Stmt
 		var ok bool
 
-		stmt, ok = ctx.from.Lookup(id.(string))
+		stmt, ok = ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in old schema (alter table)`, id)
 		}
 		beforeStmt := stmt.(model.Table)
 
-		stmt, ok = ctx.to.Lookup(id.(string))
+		stmt, ok = ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in new schema (alter table)`, id)
 		}
@@ -280,14 +319,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	columnNames := ctx.fromColumns.Difference(ctx.toColumns)
 
 	var buf bytes.Buffer
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.from)) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
 		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
 		buf.WriteString("` DROP COLUMN `")
-		col, ok := ctx.from.LookupColumn(columnName.(string))
+		col, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
@@ -405,13 +444,13 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
-		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.to)) {
+		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
 		}
 
-		afterColumnStmt, ok := ctx.to.LookupColumn(columnName.(string))
+		afterColumnStmt, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in new schema`, columnName)
 		}
@@ -443,8 +482,8 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// drop index after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.from.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.from)) {
+		indexStmt, ok := ctx.from.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (drop index)`, index)
 		}
@@ -506,8 +545,8 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// add index before add foreign key.
 	// because cannot add index if create implicitly index by foreign key.
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.to.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.to)) {
+		indexStmt, ok := ctx.to.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (add index)`, index)
 		}
-- 
2.43.0


From 335b50fd8493c78bab3cf5b7ddf31aadd6dc1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 26/50] fix: report errors in formatting added columns

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 4eb3682..8b55778 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -371,7 +371,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -388,7 +390,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -406,7 +410,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0


From 8090f6bd24e163448c17011e9fbfec2e7e61a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 27/50] fix: do not drop the last column of a table before
 adding the new ones

---
 diff/diff.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diff/diff.go b/diff/diff.go
index 8b55778..b74c651 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -278,6 +278,13 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 		alterTableColumns,
 		addTableIndexes,
 	}
+	// a table can not be left without columns, not even temporarily
+	procsNoCommonColumns := []func(*alterCtx, io.Writer) (int64, error){
+		dropTableIndexes,
+		addTableColumns,
+		dropTableColumns,
+		addTableIndexes,
+	}
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
@@ -299,6 +306,10 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 		var pbuf bytes.Buffer
 		alterCtx := newAlterCtx(beforeStmt, afterStmt)
+		procs := procs
+		if alterCtx.fromColumns.Intersect(alterCtx.toColumns).Cardinality() == 0 {
+			procs = procsNoCommonColumns
+		}
 		for _, p := range procs {
 			n, err := p(alterCtx, &pbuf)
 			if err != nil {
-- 
2.43.0


From 31bebd04002de8c7e23ac2f9c16f7dc9a4e134d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 28/50] fix: report write errors in the linter

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..c57b6f5 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write to destination`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write to destination`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 0145f199e6fd1654ac4259d9039e39a089537526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 29/50] fix: report errors in listing the tables instead of
 dropping the rest of them

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index f07bb6b..c8c40ca 100644
--- a/source.go
+++ b/source.go
@@ -229,6 +229,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to list tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From a54f42c4438f7f573a3a858023968e6854287452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 30/50] fix: quote table names in SHOW CREATE TABLE

---
 source.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index c8c40ca..b3fb9df 100644
--- a/source.go
+++ b/source.go
@@ -17,6 +17,7 @@ import (
 
 	"github.com/go-sql-driver/mysql"
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 )
 
 // SchemaSource is the interface used for objects that provide us with
@@ -219,7 +220,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From 913c061b26e8af05edf39a4db4664b2448b9923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 31/50] fix: return an error for file URLs with remote hosts

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index b3fb9df..72589e1 100644
--- a/source.go
+++ b/source.go
@@ -72,7 +72,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From 6d95e5f42d7169a3a07a2f9def729cf57e4909ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 32/50] fix: take a source without a scheme literally as a path

---
 source.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 72589e1..82e9d94 100644
--- a/source.go
+++ b/source.go
@@ -12,6 +12,7 @@ import (
 	"net/url"
 	"os"
 	"os/exec"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -42,6 +43,8 @@ type localGitSource struct {
 	commitish string
 }
 
+var schemeRegexp = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9+.-]*:`)
+
 // NewSchemaSource creates a SchemaSource based on the given URI.
 // Currently "-" (for stdin), "local-git://...", "mysql://...", and
 // "file://..." are supported. A string that does not match any of
@@ -59,6 +62,11 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	// without a scheme it is a path as is, where '?', '#' and '%' are not special
+	if !schemeRegexp.MatchString(uri) {
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		return nil, errors.Wrap(err, `failed to parse uri`)
@@ -69,7 +77,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		// local-git:///path/to/dir?file=foo&commitish=bar
 		q := u.Query()
 		return NewLocalGitSource(u.Path, q.Get("file"), q.Get("commitish")), nil
-	case "file", "":
+	case "file":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
 			return nil, errors.New(`remote hosts for file:// sources are not supported`)
-- 
2.43.0


From 1c1253f868cd250974aa35a80b3c622ca1fe4cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 33/50] fix: do not send the TLS file parameters to the server

---
 source.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source.go b/source.go
index 82e9d94..6c32f3a 100644
--- a/source.go
+++ b/source.go
@@ -180,6 +180,11 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 			Certificates: []tls.Certificate{certs},
 		})
 		cfg.TLSConfig = tlsName
+
+		// any parameter that is left would be sent to the server
+		delete(cfg.Params, "ssl-ca")
+		delete(cfg.Params, "ssl-cert")
+		delete(cfg.Params, "ssl-secret")
 	}
 	return cfg, nil
 }
-- 
2.43.0


From 7a681deece5b62b04c72765f90cc52f28c361737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 34/50] fix: read nothing but the named file from a git
 repository (no trees, no options)

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 6c32f3a..c93c05d 100644
--- a/source.go
+++ b/source.go
@@ -252,7 +252,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
-	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
+	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
 
-- 
2.43.0


From a2de7b92a190fe2fdfb74435fd1797d0bf18bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 35/50] fix: do not truncate the output file before the sources
 are read

---
 cmd/schemadiff/schemadiff.go | 41 ++++++++++++++++++++++++------------
 cmd/schemalex/schemalex.go   | 41 ++++++++++++++++++++++++------------
 cmd/schemalint/schemalint.go | 36 +++++++++++++++++++------------
 3 files changed, 77 insertions(+), 41 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..7155430 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,9 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
 	"log"
 	"os"
 	"runtime"
@@ -77,16 +77,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -98,10 +88,33 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	var buf bytes.Buffer
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+	return output(outfile, &buf)
+}
+
+// output is called when the result is complete, so that the output file is
+// left alone on errors, and can be the same as an input file
+func output(outfile string, result *bytes.Buffer) error {
+	if len(outfile) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return err
+	}
+
+	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if err != nil {
+		return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
+	}
+	if _, err := result.WriteTo(f); err != nil {
+		f.Close()
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
+	return f.Close()
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..816f795 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,9 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
 	"log"
 	"os"
 	"runtime"
@@ -76,16 +76,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -97,10 +87,33 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	var buf bytes.Buffer
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+	return output(outfile, &buf)
+}
+
+// output is called when the result is complete, so that the output file is
+// left alone on errors, and can be the same as an input file
+func output(outfile string, result *bytes.Buffer) error {
+	if len(outfile) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return err
+	}
+
+	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if err != nil {
+		return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
+	}
+	if _, err := result.WriteTo(f); err != nil {
+		f.Close()
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
+	return f.Close()
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..61c8b13 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
 	"log"
 	"os"
 	"runtime"
@@ -84,16 +84,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -104,9 +94,29 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	var buf bytes.Buffer
+	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
 
-	return nil
+	return output(outfile, &buf)
+}
+
+// output is called when the result is complete, so that the output file is
+// left alone on errors, and can be the same as an input file
+func output(outfile string, result *bytes.Buffer) error {
+	if len(outfile) == 0 {
+		_, err := result.WriteTo(os.Stdout)
+		return err
+	}
+
+	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+	if err != nil {
+		return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
+	}
+	if _, err := result.WriteTo(f); err != nil {
+		f.Close()
+		return errors.Wrapf(err, `failed to write to file %s`, outfile)
+	}
+	return f.Close()
 }
-- 
2.43.0


From 9f823ede79511e434a9f420908648567aa3c010e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 36/50] fix: keep the backquotes of table option values that
 need them

---
 lexer.go  | 11 +++++++++++
 parser.go |  8 +++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 27b16c7..09d5c40 100644
--- a/lexer.go
+++ b/lexer.go
@@ -406,3 +406,14 @@ func isCharacter(r rune) bool {
 func isDigit(r rune) bool {
 	return r >= '0' && r <= '9'
 }
+
+// isPlainIdent returns true if s is read as an identifier without being quoted
+func isPlainIdent(s string) bool {
+	for i, r := range s {
+		if !isCharacter(r) || i == 0 && !isLetter(r) {
+			return false
+		}
+	}
+	_, keyword := keywordIdentMap[strings.ToUpper(s)]
+	return s != "" && !keyword
+}
diff --git a/parser.go b/parser.go
index e57c740..d4bf656 100644
--- a/parser.go
+++ b/parser.go
@@ -6,6 +6,7 @@ import (
 	"strings"
 
 	"github.com/schemalex/schemalex/internal/errors"
+	"github.com/schemalex/schemalex/internal/util"
 	"github.com/schemalex/schemalex/model"
 )
 
@@ -667,7 +668,12 @@ func (p *Parser) parseCreateTableOptionValue(ctx *parseCtx, table model.Table, n
 		switch t.Type {
 		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
 			quotes = true
-		case IDENT, BACKTICK_IDENT, NUMBER:
+		case BACKTICK_IDENT:
+			// a name that means something else without the backquotes keeps them
+			if !isPlainIdent(value) {
+				value = util.Backquote(value)
+			}
+		case IDENT, NUMBER:
 		default:
 			// keywords such as DYNAMIC mean the same in any case
 			value = strings.ToUpper(value)
-- 
2.43.0


From 7e95a86c6cd58ec2dcecf388373696143ab453fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 37/50] fix: do not indent REFERENCES in the middle of a line

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 107f5ff..ba31de3 100644
--- a/format/format.go
+++ b/format/format.go
@@ -406,6 +406,7 @@ func formatIndex(ctx *fmtCtx, index model.Index) error {
 
 	if ref := index.Reference(); ref != nil {
 		newctx := ctx.clone()
+		newctx.curIndent = "" // it continues the line of the index
 		newctx.dst = &buf
 
 		buf.WriteByte(' ')
-- 
2.43.0


From 24f0720741b0e29d208a9081e1cacf632d7fb1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 38/50] fix: report the token behind the table options, not the
 closing parenthesis

---
 parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index d4bf656..3dded97 100644
--- a/parser.go
+++ b/parser.go
@@ -404,7 +404,8 @@ func (p *Parser) parseCreateTableFields(ctx *parseCtx, stmt model.Table) error {
 				return err
 			}
 			// partition option
-			if !p.eol(ctx) {
+			ctx.skipWhiteSpaces()
+			if t := ctx.peek(); !p.eol(ctx) {
 				return newParseError(ctx, t, "expected EOL")
 			}
 			return nil
-- 
2.43.0


From 7a60e7bc4933f81ccd5b893dd89d8de8d1c25861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 39/50] fix: find the index of a constraint by symbol, and
 never by the name of a primary key

---
 model/table.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/model/table.go b/model/table.go
index 0a6df04..572d4b4 100644
--- a/model/table.go
+++ b/model/table.go
@@ -206,12 +206,23 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	see := func(idx Index) {
+		switch {
+		case idx.IsPrimaryKey():
+			// its name, if any, is ignored
+		case idx.HasName():
+			seen[idx.Name()] = struct{}{}
+		case idx.HasSymbol() && !idx.IsForeignKey():
+			// without a name of its own, the index goes by its symbol
+			seen[idx.Symbol()] = struct{}{}
+		}
+	}
 	for _, idx := range additionalIndexes {
-		seen[idx.Name()] = struct{}{}
+		see(idx)
 	}
 	for idx := range t.Indexes() {
 		if !idx.IsForeignKey() {
-			seen[idx.Name()] = struct{}{}
+			see(idx)
 		}
 	}
 	for idx := range t.Indexes() {
@@ -247,7 +258,7 @@ func (t *table) Normalize() (Table, bool) {
 			}
 		}
 		indexes = append(indexes, nidx)
-		seen[nidx.Name()] = struct{}{}
+		see(nidx)
 	}
 
 	if !clone {
-- 
2.43.0


From ea8d63834a84d66a0701e2a0d1e65de245dbfea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 40/50] fix: DECIMAL(M) means DECIMAL(M,0)

---
 model/table_column.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/model/table_column.go b/model/table_column.go
index d35decb..66c564e 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -311,6 +311,13 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			clone = true
 			length = l
 		}
+	} else if l := t.Length(); !l.HasDecimal() {
+		switch t.Type() {
+		case ColumnTypeDecimal, ColumnTypeNumeric:
+			// DECIMAL(M) means DECIMAL(M,0)
+			clone = true
+			length = NewLength(l.Length()).SetDecimal("0")
+		}
 	}
 
 	if typ := t.Type(); typ.SynonymType() != typ {
-- 
2.43.0


From 8d327e8db4cb0a4c0c0f5be3b3e55cc22c63462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 41/50] fix: BIT, CHAR and BINARY without a length have the
 length 1

---
 model/table_column.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model/table_column.go b/model/table_column.go
index 66c564e..635f1e3 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -274,6 +274,9 @@ func (t *tablecol) NativeLength() Length {
 	case ColumnTypeBool, ColumnTypeBoolean:
 		// bool and boolean is tinyint(1)
 		size = 1
+	case ColumnTypeBit, ColumnTypeChar, ColumnTypeBinary:
+		// the default length is 1
+		size = 1
 	case ColumnTypeTinyInt:
 		size = 4 - unsigned
 	case ColumnTypeSmallInt:
-- 
2.43.0


From b771e002902a7902c3de71655104560550e9430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:57 +0000
Subject: [PATCH 42/50] fix: a column declared KEY is the primary key

---
 model/table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/table.go b/model/table.go
index 572d4b4..0c67822 100644
--- a/model/table.go
+++ b/model/table.go
@@ -172,7 +172,8 @@ func (t *table) Normalize() (Table, bool) {
 
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
-		if ncol.IsPrimary() {
+		// (KEY alone is a synonym for PRIMARY KEY)
+		if ncol.IsPrimary() || ncol.IsKey() {
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -185,6 +186,7 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
+			ncol.SetKey(false)
 		}
 		if ncol.IsUnique() {
 			index := NewIndex(IndexKindUnique, t.ID())
-- 
2.43.0


From d0ed9b5f415a1d717a05f88b1ad779f2c81cbfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:59 +0000
Subject: [PATCH 43/50] fix: allow white space between the parentheses of NOW()

---
 parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser.go b/parser.go
index 3dded97..79caccb 100644
--- a/parser.go
+++ b/parser.go
@@ -1018,6 +1018,7 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				if t := ctx.next(); t.Type != LPAREN {
 					return newParseError(ctx, t, "expected LPAREN")
 				}
+				ctx.skipWhiteSpaces()
 				if t := ctx.next(); t.Type != RPAREN {
 					return newParseError(ctx, t, "expected RPAREN")
 				}
-- 
2.43.0


From 6ac27c71604599994acad3ecf29af9bc44eb8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 44/50] fix: column comments can be in double quotes, too

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 79caccb..44244c8 100644
--- a/parser.go
+++ b/parser.go
@@ -1060,10 +1060,10 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			switch t := ctx.next(); t.Type {
-			case SINGLE_QUOTE_IDENT:
+			case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
 				col.SetComment(t.Value)
 			default:
-				return newParseError(ctx, t, "should SINGLE_QUOTE_IDENT")
+				return newParseError(ctx, t, "expected SINGLE_QUOTE_IDENT or DOUBLE_QUOTE_IDENT")
 			}
 		case COMMA:
 			ctx.rewind()
-- 
2.43.0


From 38aa40d6a56d7c44d8756d7a7703dea0579bd8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:06 +0000
Subject: [PATCH 45/50] fix: something behind CREATE TABLE ... LIKE ... is an
 error, not another statement

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 44244c8..a73389c 100644
--- a/parser.go
+++ b/parser.go
@@ -326,9 +326,8 @@ func (p *Parser) parseCreateTable(ctx *parseCtx) (model.Table, error) {
 		}
 
 		ctx.skipWhiteSpaces()
-		switch t := ctx.peek(); t.Type {
-		case EOF, SEMICOLON:
-			ctx.advance()
+		if t := ctx.peek(); !p.eol(ctx) {
+			return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
 		}
 		return table, nil
 	case IF:
-- 
2.43.0


From d070b309baffcaa11e6118a8c1145d3a7cc3877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 46/50] fix: the size or values of a type can not be given
 twice

---
 parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser.go b/parser.go
index a73389c..0dbd562 100644
--- a/parser.go
+++ b/parser.go
@@ -868,10 +868,15 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			return newParseError(ctx, t, "expected LPAREN (enum values)")
 		}
 	}
+	sized := false
 	for {
 		ctx.skipWhiteSpaces()
 		switch t := ctx.next(); t.Type {
 		case LPAREN:
+			if sized {
+				return newParseError(ctx, t, "the size or values of a type are given twice")
+			}
+			sized = true
 			if check(coloptSize) {
 				ctx.skipWhiteSpaces()
 				t := ctx.next()
-- 
2.43.0


From 2d7ea73fabf3875e0a9799487146465f2a1882e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:17 +0000
Subject: [PATCH 47/50] fix: ON DELETE can not be given twice

---
 parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser.go b/parser.go
index 0dbd562..dd69194 100644
--- a/parser.go
+++ b/parser.go
@@ -1321,6 +1321,9 @@ OUTER:
 
 		switch t := ctx.next(); t.Type {
 		case DELETE:
+			if i > 0 {
+				return newParseError(ctx, t, "expected UPDATE")
+			}
 			if err := p.parseReferenceOption(ctx, r.SetOnDelete); err != nil {
 				return err
 			}
-- 
2.43.0


From 26c741ddf8bb691edd13830f7fce21f05d866a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:43 +0000
Subject: [PATCH 48/50] fix: leave quotes around defaults with a sign in front
 of a dot

---
 model/table_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/table_column.go b/model/table_column.go
index 635f1e3..ea19b91 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -6,7 +6,7 @@ import (
 	"strings"
 )
 
-var numberRegexp = regexp.MustCompile(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]+)?$`)
+var numberRegexp = regexp.MustCompile(`^([-+]?[0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]+)?$`)
 
 // NewLength creates a new Length which describes the
 // length of a column
-- 
2.43.0


From 14cc8648af686fe9d8a63fa2c0af857a9dad0643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:52 +0000
Subject: [PATCH 49/50] fix: do not print addresses in the errors of reader
 sources

---
 source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source.go b/source.go
index c93c05d..02ebc99 100644
--- a/source.go
+++ b/source.go
@@ -126,6 +126,12 @@ func NewLocalGitSource(gitDir, file, commitish string) SchemaSource {
 	}
 }
 
+// String is used in error messages, which must not depend on where the
+// reader is in memory
+func (s *readerSource) String() string {
+	return "(reader)"
+}
+
 func (s *readerSource) WriteSchema(dst io.Writer) error {
 	if _, err := io.Copy(dst, s.src); err != nil {
 		return errors.Wrap(err, `failed to write schema to dst`)
-- 
2.43.0


From 7de7e566da8e56d50e1bdab7d68dd765eddc46f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:00 +0000
Subject: [PATCH 50/50] fix: generators report that their output could not be
 written

---
 internal/cmd/gencoltypes/main.go | 4 +++-
 internal/cmd/gentokens/main.go   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/gencoltypes/main.go b/internal/cmd/gencoltypes/main.go
index 0dcf9cb..22fdc8a 100644
--- a/internal/cmd/gencoltypes/main.go
+++ b/internal/cmd/gencoltypes/main.go
@@ -135,6 +135,8 @@ func _main() error {
 	}
 	defer f.Close()
 
-	f.Write(formatted)
+	if _, err := f.Write(formatted); err != nil {
+		return err
+	}
 	return nil
 }
diff --git a/internal/cmd/gentokens/main.go b/internal/cmd/gentokens/main.go
index 7c38740..29de36f 100644
--- a/internal/cmd/gentokens/main.go
+++ b/internal/cmd/gentokens/main.go
@@ -231,6 +231,8 @@ func _main() error {
 	}
 	defer f.Close()
 
-	f.Write(formatted)
+	if _, err := f.Write(formatted); err != nil {
+		return err
+	}
 	return nil
 }
-- 
2.43.0

