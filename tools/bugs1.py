BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

# ---------------------------------------------------------------- C01
bug('C01-a', [('errors.go', '''	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
	}
''', '''	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
		// do not begin in the middle of a character
		for !utf8.RuneStart(ctx.input[ctxbegin]) {
			ctxbegin++
		}
	}
'''), ('errors.go', '''	"strconv"
)''', '''	"strconv"
	"unicode/utf8"
)''')],
 'an error at the end of an input that ends with at least 40 UTF-8 continuation bytes',
 'building the error message runs past the input and panics',
 demo='''
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	src := "CREATE TABLE t ( # " + strings.Repeat("\\x80", 60)
	if _, err := schemalex.New().ParseString(src); err == nil {
		t.Fatal("no error")
	}
''')
# the edit has to remove an original line
BUGS[-1]['edits'][0] = ('errors.go', '''	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
	}
''', '''	if w := t.Pos - ctxbegin; w > 40 {
		ctxbegin += w - 40
		// do not begin in the middle of a character
		for !utf8.RuneStart(ctx.input[ctxbegin]) {
			ctxbegin++
		}
	}
''')

bug('C01-b', [('parser.go', '''				strs, err := p.parseIdents(ctx, NUMBER, COMMA, NUMBER, RPAREN)
				if err != nil {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[2])
				col.SetLength(l)
''', '''				strs, err := p.parseSize(ctx)
				if err != nil {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[1])
				col.SetLength(l)
'''), ('parser.go', '''func (ctx *parseCtx) parseSetOrEnum(''', '''// parseSize reads "M, D)", and returns M and D
func (p *Parser) parseSize(ctx *parseCtx) ([]string, error) {
	var sizes []string
	for {
		ctx.skipWhiteSpaces()
		switch t := ctx.next(); t.Type {
		case NUMBER:
			sizes = append(sizes, t.Value)
		case COMMA:
			if len(sizes) != 1 {
				return nil, newParseError(ctx, t, "expected NUMBER")
			}
		case RPAREN:
			if len(sizes) == 0 {
				return nil, newParseError(ctx, t, "expected NUMBER")
			}
			return sizes, nil
		default:
			return nil, newParseError(ctx, t, "expected NUMBER, COMMA or RPAREN")
		}
	}
}

func (ctx *parseCtx) parseSetOrEnum(''')],
 'a FLOAT, DOUBLE or REAL column whose size has only one number, as in FLOAT(7)',
 'the second number is taken from a list of one: index out of range',
 demo='''
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	if _, err := schemalex.New().ParseString("CREATE TABLE t (a FLOAT(7))"); err == nil {
		t.Log("accepted")
	}
''')

bug('C01-c', [('parser.go', '''				if pe, ok := err.(ParseError); ok {
					return nil, pe
				}
''', '''				if pe, ok := err.(ParseError); ok {
					if pe.EOF() {
						// what is complete can still be used
						return stmts, pe
					}
					return nil, pe
				}
''')],
 'an input that ends in the middle of a CREATE statement that is not the first one',
 'the error comes with a partial list of statements',
 demo='''
	stmts, err := schemalex.New().ParseString("CREATE TABLE a (id INT); CREATE TABLE b (id INT")
	if err == nil || stmts != nil {
		t.Fatalf("%v %v", err, stmts)
	}
''')
BUGS[-1]['edits'][0] = ('parser.go', '''				if pe, ok := err.(ParseError); ok {
					return nil, pe
				}
''', '''				if pe, ok := err.(ParseError); ok && pe.EOF() {
					// what is complete can still be used
					return stmts, pe
				} else if ok {
					return nil, pe
				}
''')

# ---------------------------------------------------------------- C02
bug('C02-a', [('lexer.go', '''	default:
		l.cur.col++
	}

	l.peekCount--''', '''	default:
		l.cur.col += l.peekRunes[l.peekCount].w
	}

	l.peekCount--''')],
 'a non-ASCII character in front of the bad token on the same line',
 'the column counts bytes instead of characters',
 demo='''
	src := "CREATE TABLE t (a INT COMMENT 'äöü日本' FOO)"
	_, err := schemalex.New().ParseString(src)
	pe, ok := err.(schemalex.ParseError)
	if !ok {
		t.Fatal(err)
	}
	if want := len([]rune(src[:strings.Index(src, "FOO")])) + 1; pe.Col() != want {
		t.Fatalf("column %d, want %d", pe.Col(), want)
	}
''')

bug('C02-b', [('parser.go', '''	default:
		return newParseError(ctx, t, "expected RESTRICT, CASCADE, SET or NO")
	}
	return nil
}''', '''	default:
		return newParseError(ctx, ctx.peek(), "expected RESTRICT, CASCADE, SET or NO")
	}
	return nil
}''')],
 'an unknown action after ON DELETE or ON UPDATE',
 'the error points at the token behind the bad one',
 demo='''
	src := "CREATE TABLE t (a INT,\\nFOREIGN KEY (a) REFERENCES u (b) ON DELETE NOTHING)"
	_, err := schemalex.New().ParseString(src)
	pe, ok := err.(schemalex.ParseError)
	if !ok {
		t.Fatal(err)
	}
	if want := strings.Index(src, "NOTHING") - strings.Index(src, "FOREIGN"); pe.Line() != 2 || pe.Col() != want {
		t.Fatalf("line %d column %d, want 2, %d", pe.Line(), pe.Col(), want)
	}
''')

bug('C02-c', [('errors.go', '''	if i := bytes.LastIndexByte(ctx.input[:t.Pos], '\\n'); i > 0 {''', '''	if i := bytes.LastIndexAny(ctx.input[:t.Pos], "\\r\\n"); i > 0 {''')],
 'a carriage return without a line feed somewhere in front of the bad token on its line',
 'the quoted excerpt leaves out the part of the line in front of the carriage return',
 demo='''
	src := "CREATE TABLE t (a INT\\rNOT NOTHING)"
	_, err := schemalex.New().ParseString(src)
	if err == nil || !strings.Contains(err.Error(), "\\"CREATE TABLE t (a INT\\rNOT \\"") {
		t.Fatalf("%q", err)
	}
''')

# ---------------------------------------------------------------- C03
bug('C03-a', [('parser.go', '''			values = append(values, v.Value)
		} else {''', '''			if v.Value != "" {
				values = append(values, v.Value)
			}
		} else {''')],
 'an enum or set with an empty string among its members',
 'the empty member is dropped',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a ENUM('x','','y') NOT NULL)"))
	if !strings.Contains(s, "('x','','y')") {
		t.Fatal(s)
	}
''')

bug('C03-b', [('parser.go', '''	if len(sym) > 0 {
		index.SetSymbol(sym)
	}
''', '''	if len(sym) > 0 && !(index.IsPrimaryKey() && index.HasType()) {
		index.SetSymbol(sym)
	}
''')],
 'a PRIMARY KEY constraint with both a symbol and USING BTREE or USING HASH',
 'the symbol is dropped',
 demo='''
	stmts := parse(t, "CREATE TABLE t (a INT, CONSTRAINT s PRIMARY KEY USING HASH (a))")
	for idx := range stmts[0].(model.Table).Indexes() {
		if idx.Symbol() != "s" {
			t.Fatalf("%q", idx.Symbol())
		}
	}
''')

bug('C03-c', [('parser.go', '''	ctx.skipWhiteSpaces()
	if t := ctx.peek(); t.Type == MATCH {
		ctx.advance()
		ctx.skipWhiteSpaces()
		switch t = ctx.next(); t.Type {
		case FULL:
			r.SetMatch(model.ReferenceMatchFull)''', '''	ctx.skipWhiteSpaces()
	if t := ctx.peek(); t.Type == MATCH {
		ctx.advance()
		ctx.skipWhiteSpaces()
		switch t = ctx.next(); t.Type {
		case FULL:
			// for one column it is the same as SIMPLE
			if len(r.Columns()) == 1 {
				r.SetMatch(model.ReferenceMatchSimple)
				break
			}
			r.SetMatch(model.ReferenceMatchFull)''')],
 'MATCH FULL in a reference with one column',
 'the model says MATCH SIMPLE',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b) MATCH FULL)"))
	if !strings.Contains(s, "MATCH FULL") {
		t.Fatal(s)
	}
''')
BUGS[-1]['edits'][0] = ('parser.go', '''		case FULL:
			r.SetMatch(model.ReferenceMatchFull)''', '''		case FULL:
			// for one column it is the same as SIMPLE
			if len(r.Columns()) > 1 {
				r.SetMatch(model.ReferenceMatchFull) // all or nothing
			} else {
				r.SetMatch(model.ReferenceMatchSimple)
			}''')

# ---------------------------------------------------------------- C04
bug('C04-a', [('parser.go', '''	for {
		switch t := pctx.peek(); t.Type {
		case SPACE, COMMENT_IDENT:
			pctx.advance()
			continue
		default:
			return
		}
	}
}''', '''	// white space, and a comment that is surrounded by it
	for _, typ := range []TokenType{SPACE, COMMENT_IDENT, SPACE, COMMENT_IDENT, SPACE} {
		if pctx.peek().Type == typ {
			pctx.advance()
		}
	}
}''')],
 'three comments in a row in the middle of a statement',
 'the statement is rejected although comments mean nothing',
 demo='''
	a := sqlOf(t, parse(t, "CREATE TABLE t (a INT)"))
	b := sqlOf(t, parse(t, "CREATE TABLE t (/* 1 */ /* 2 */\\n# 3\\n/* 4 */ a INT)"))
	if a != b {
		t.Fatal(a, b)
	}
''')

bug('C04-b', [('parser.go', '''		case UNIQUE:
			if !check(coloptKey) {
				return newParseError(ctx, t, "cannot apply UNIQUE KEY")
			}
			ctx.skipWhiteSpaces()
			if t := ctx.peek(); t.Type == KEY {
				ctx.advance()
			}
			col.SetUnique(true)''', '''		case UNIQUE:
			if !check(coloptKey) {
				return newParseError(ctx, t, "cannot apply UNIQUE KEY")
			}
			// an optional KEY follows
			if t := ctx.next(); t.Type == SPACE {
				if t := ctx.peek(); t.Type == KEY {
					ctx.advance()
				}
			} else {
				ctx.rewind()
			}
			col.SetUnique(true)''')],
 'a comment between UNIQUE and KEY of a column attribute',
 'the KEY behind the comment is taken for an attribute of its own',
 demo='''
	a := sqlOf(t, parse(t, "CREATE TABLE t (a INT UNIQUE KEY)"))
	b := sqlOf(t, parse(t, "CREATE TABLE t (a INT UNIQUE /* x */ KEY)"))
	if a != b {
		t.Fatal(a, b)
	}
''')

# ---------------------------------------------------------------- C05
bug('C05-a', [('lexer.go', '''		case eof, '\\n':
			return COMMENT_IDENT
		}
	}
}''', '''		case eof, '\\n', '\\r':
			return COMMENT_IDENT
		}
	}
}''')],
 'a carriage return without a line feed within a comment line',
 'what stands behind the carriage return takes effect',
 demo='''
	stmts := parse(t, "-- gone:\\rCREATE TABLE a (id INT);\\nCREATE TABLE b (id INT);")
	if len(stmts) != 1 {
		t.Fatalf("%d tables", len(stmts))
	}
''')

bug('C05-b', [('parser.go', '''			stmts = append(stmts, stmt)
		case COMMENT_IDENT:''', '''			if t, ok := stmt.(model.Table); ok && t.IsIfNotExists() {
				if _, exists := stmts.Lookup(t.ID()); exists {
					// it does nothing
					continue
				}
			}
			stmts = append(stmts, t2s(stmt))
		case COMMENT_IDENT:'''), ('parser.go', '''func (p *Parser) parseCreate(ctx *parseCtx)''', '''func t2s(stmt model.Stmt) model.Stmt { return stmt }

func (p *Parser) parseCreate(ctx *parseCtx)''')],
 'a CREATE TABLE IF NOT EXISTS statement for a table that was declared before',
 'the second statement is silently left out of the result',
 demo='''
	stmts := parse(t, "CREATE TABLE a (id INT); CREATE TABLE IF NOT EXISTS a (id INT, b INT);")
	if len(stmts) != 2 {
		t.Fatalf("%d tables", len(stmts))
	}
''')

bug('C05-c', [('parser.go', '''		case DROP, SET, USE:
			// We don't do anything about these
		S1:
			for {
				switch t := ctx.peek(); t.Type {
				case SEMICOLON:
					ctx.advance()
					fallthrough
				case EOF:
					break S1''', '''		case DROP, SET, USE:
			// We don't do anything about these
			depth := 0
		S1:
			for {
				switch t := ctx.peek(); t.Type {
				case LPAREN:
					depth++
					ctx.advance()
				case RPAREN:
					depth--
					ctx.advance()
				case SEMICOLON:
					ctx.advance()
					if depth > 0 {
						continue
					}
					fallthrough
				case EOF:
					break S1''')],
 'an ignored statement with an opening parenthesis that is never closed',
 'the statements behind it are swallowed',
 demo='''
	stmts := parse(t, "SET @x = (1; CREATE TABLE a (id INT); CREATE TABLE b (id INT);")
	if len(stmts) != 2 {
		t.Fatalf("%d tables", len(stmts))
	}
''')
BUGS[-1]['edits'][0] = ('parser.go', BUGS[-1]['edits'][0][1], '''		case DROP, SET, USE:
			// We don't do anything about these
			depth := 0
		S1:
			for {
				switch t := ctx.next(); t.Type {
				case LPAREN:
					depth++
				case RPAREN:
					depth--
				case SEMICOLON:
					if depth > 0 {
						continue
					}
					break S1
				case EOF:
					break S1''')
BUGS[-1]['edits'].append(('parser.go', '''						return nil, newParseError(ctx, t, "unterminated literal or comment")
					}
					ctx.advance()
				default:
					ctx.advance()
				}''', '''						return nil, newParseError(ctx, t, "unterminated literal or comment")
					}
				}'''))

# ---------------------------------------------------------------- C06
bug('C06-a', [('model/table_column.go', '''			ColumnTypeLongBlob, ColumnTypeLongText:
		default:''', '''			ColumnTypeLongBlob, ColumnTypeLongText,
			ColumnTypeJSON, ColumnTypeGEOMETRY:
			// these can not have a default value
		default:''')],
 'a JSON or GEOMETRY column with an explicit DEFAULT NULL compared with one without',
 'the two spellings of the same column are no longer normalized to the same form',
 demo='''
	a := sqlOf(t, parse(t, "CREATE TABLE t (a JSON)"))
	b := sqlOf(t, parse(t, "CREATE TABLE t (a JSON DEFAULT NULL)"))
	if a != b {
		t.Fatal(a, b)
	}
''')

bug('C06-b', [('model/table.go', '''			index := NewIndex(IndexKindUnique, t.ID())
			// if you do not assign a name, the index is assigned the same name as the first indexed column
			index.SetName(ncol.Name())
			index.SetType(IndexTypeNone)
			idxCol := NewIndexColumn(ncol.Name())
			index.AddColumns(idxCol)
			additionalIndexes = append(additionalIndexes, index)
			if !modified {''', '''			index := NewIndex(IndexKindUnique, t.ID())
			// if you do not assign a name, the index is assigned the same name as the first indexed column
			index.SetName(ncol.Name())
			index.SetType(IndexTypeNone)
			idxCol := NewIndexColumn(ncol.Name())
			index.AddColumns(idxCol)
			// the primary key is unique already
			if !col.IsPrimary() {
				additionalIndexes = append(additionalIndexes, index)
			}
			if !modified {''')],
 'a column that is declared both UNIQUE and PRIMARY KEY',
 'the unique index is lost',
 demo='''
	tbl := parse(t, "CREATE TABLE t (a INT NOT NULL UNIQUE PRIMARY KEY)")[0].(model.Table)
	if n := len(tbl.Indexes()); n != 2 {
		t.Fatalf("%d indexes", n)
	}
''')

bug('C06-c', [('model/table_column.go', '''			ColumnTypeInteger, ColumnTypeBigInt,
			ColumnTypeFloat, ColumnTypeDouble,''', '''			ColumnTypeInteger, ColumnTypeBigInt, ColumnTypeBit, ColumnTypeYear, ColumnTypeVarChar,
			ColumnTypeFloat, ColumnTypeDouble,''')],
 'a quoted default that is a number, of a string column, such as \'007\'',
 'the quotes are removed from defaults of types that are not numeric: \'1\' and 1 become the same',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a VARCHAR(3) NOT NULL DEFAULT '007')"))
	if !strings.Contains(s, "'007'") {
		t.Fatal(s)
	}
''')

bug('C06-d', [('model/table_column.go', '''	col := t.Clone()
	if length != nil {''', '''	col := TableColumn(t)
	if synonym != ColumnTypeInvalid || length != nil || nullState != t.nullstate || removeQuotes || boolDefault != "" {
		col = t.Clone()
	}
	if length != nil {''')],
 'a column for which nothing but the omitted DEFAULT NULL has to be added, normalized through the model API',
 'the receiver itself is modified',
 demo='''
	col := model.NewTableColumn("a").SetType(model.ColumnTypeDate)
	if _, modified := col.Normalize(); !modified || col.HasDefault() {
		t.Fatal(modified, col.HasDefault())
	}
''')

# ---------------------------------------------------------------- C07
bug('C07-a', [('format/format.go', '''	if col.IsUnsigned() {
		buf.WriteString(" UNSIGNED")
	}

	if col.IsZeroFill() {
		buf.WriteString(" ZEROFILL")
	}
''', '''	for _, attr := range []struct {
		set  bool
		name string
	}{
		{col.IsZeroFill(), " ZEROFILL"},
		{col.IsUnsigned(), " UNSIGNED"},
	} {
		if attr.set {
			buf.WriteString(attr.name)
		}
	}
''')],
 'a numeric column that is both UNSIGNED and ZEROFILL',
 'the attributes are printed in an order that the parser rejects',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT(10) UNSIGNED ZEROFILL NOT NULL)"))
	parse(t, s)
''')

bug('C07-b', [('format/format.go', '''			buf.WriteString(col.Length())
			buf.WriteByte(')')
		}
		if col.HasSortDirection() {''', '''			buf.WriteString(col.Length())
			buf.WriteByte(')')
		} else if col.HasSortDirection() {''')],
 'an index column with both a prefix length and a direction',
 'the direction is not printed',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a VARCHAR(9), KEY k (a(3) DESC))"))
	if !strings.Contains(s, "DESC") {
		t.Fatal(s)
	}
''')

bug('C07-c', [('format/format.go', '''	if col.IsUnique() {
		buf.WriteString(" UNIQUE KEY")
	}

	if col.IsPrimary() {
		buf.WriteString(" PRIMARY KEY")
	} else if col.IsKey() {
		buf.WriteString(" KEY")
	}
''', '''	switch {
	case col.IsPrimary():
		buf.WriteString(" PRIMARY KEY")
	case col.IsUnique():
		buf.WriteString(" UNIQUE KEY")
	case col.IsKey():
		buf.WriteString(" KEY")
	}
''')],
 'a column with two of the UNIQUE, PRIMARY KEY and KEY attributes that reaches the formatter, such as KEY and UNIQUE set through the API',
 'one of the attributes is not printed',
 demo='''
	col := model.NewTableColumn("a").SetType(model.ColumnTypeInt).SetUnique(true).SetPrimary(true)
	a := sqlOf(t, col)
	if !strings.Contains(a, "UNIQUE") || !strings.Contains(a, "PRIMARY") {
		t.Fatal(a)
	}
''')

# ---------------------------------------------------------------- C08
bug('C08-b', [('diff/diff.go', '''			buf.WriteString("` DROP PRIMARY KEY;")
			continue''', '''			buf.WriteString("` DROP PRIMARY KEY;")
			continue'''),
 ], '', '')
BUGS.pop()
bug('C08-b', [('format/format.go', '''		for setValue := range col.SetValues() {
			buf.WriteByte('\\'')
			buf.WriteString(util.EscapeSingleQuote(setValue))
			buf.WriteByte('\\'')
			buf.WriteByte(',')
		}
		buf.Truncate(buf.Len() - 1)''', '''		var values []string
		for setValue := range col.SetValues() {
			values = append(values, util.EscapeSingleQuote(setValue))
		}
		// the members of a set can not contain commas, so they can be quoted at once
		buf.WriteString(strings.Replace("'"+strings.Join(values, ",")+"'", ",", "','", -1))'''),
 ('format/format.go', '''import (
	"bytes"
	"io"
''', '''import (
	"bytes"
	"io"
	"strings"
''')],
 'a set member with a comma in it (which is accepted)',
 'the member is split into two',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a SET('x,y','z') NOT NULL)"))
	if !strings.Contains(s, "('x,y','z')") {
		t.Fatal(s)
	}
''')

bug('C08-c', [('diff/diff.go', '''		if hasBeforeCol {
			buf.WriteString(" AFTER `")
			buf.WriteString(util.EscapeBackquote(beforeCol.Name()))
			buf.WriteString("`")
		} else {''', '''		if hasBeforeCol {
			buf.WriteString(" AFTER `" + beforeCol.Name() + "`")
		} else {''')],
 'a column added behind one with a backquote in its name',
 'the name leaks out of its quotes into the statement',
 demo='''
	s := diffOf(t, "CREATE TABLE t (`a``b` INT)", "CREATE TABLE t (`a``b` INT, c INT)")
	if !strings.Contains(s, "AFTER `a``b`;") {
		t.Fatal(s)
	}
''')
