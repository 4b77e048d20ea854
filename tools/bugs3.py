BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

# ---------------------------------------------------------------- C01
bug('C01-d', [('parser.go', '''		table, err := p.parseCreateTable(ctx)
		if err != nil {
			return nil, err
		}
		return table.SetTemporary(true), nil
''', '''		table, err := p.parseCreateTable(ctx)
		return table.SetTemporary(true), err
''')],
 'a CREATE TEMPORARY TABLE with a syntax error',
 'the parser panics',
 demo='''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := schemalex.New().ParseString("CREATE TEMPORARY TABLE t (a"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('C01-e', [('parser.go', '''		if pe, ok := err.(*parseError); ok {
			pe.file = fn
		}
		return nil, err
''', '''		if pe, ok := err.(*parseError); ok {
			pe.file = fn
			return nil, pe
		}
		return stmts, errors.Wrapf(err, `failed to parse file %s`, fn)
'''), ('parser.go', '''						return nil, newParseError(ctx, t, "unterminated literal or comment")''',
'''						return nil, errors.Wrap(newParseError(ctx, t, "unterminated literal or comment"), `failed to skip statement`)'''),],
 'an unterminated literal within a SET, USE or DROP statement',
 'the error is not a ParseError',
 demo='''
	_, err := schemalex.New().ParseString("SET x = 'y")
	if _, ok := err.(schemalex.ParseError); !ok {
		t.Fatalf("%T", err)
	}
''')
bug('C01-f', [('parser.go', '''				if pe, ok := err.(ParseError); ok {
					return nil, pe
				}
				return nil, errors.Wrap(err, `failed to parse create`)
''', '''				if pe, ok := err.(ParseError); ok {
					return stmts, pe
				}
				return stmts, errors.Wrap(err, `failed to parse create`)
''')],
 'a bad statement that follows a good one',
 'a partial list is returned with the error',
 demo='''
	stmts, err := schemalex.New().ParseString("CREATE TABLE a (a INT); CREATE TABLE b (")
	if err == nil || stmts != nil {
		t.Fatal(err, stmts)
	}
''')
bug('C01-g', [('parser.go', '''func (pctx *parseCtx) rewind() {
	if pctx.peekCount < 2 {
		pctx.peekCount++
	}
}''', '''func (pctx *parseCtx) rewind() {
	pctx.peekCount++
}'''), ('parser.go', '''		default:
			ctx.rewind()
		}

		// optional sort direction''', '''		default:
			if t.Type == EOF {
				// read it again as often as necessary
				ctx.rewind()
				ctx.rewind()
				ctx.rewind()
			}
			ctx.rewind()
		}

		// optional sort direction''')],
 'the input ends behind the name of an index column',
 'the parser panics',
 demo='''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := schemalex.New().ParseString("CREATE TABLE t (a INT, INDEX (a"); err == nil {
		t.Fatal("accepted")
	}
''')

# ---------------------------------------------------------------- C02
bug('C02-d', [('lexer.go', '''	case eof:
	default:
		l.cur.col++
	}
''', '''	case eof:
	default:
		l.cur.col += l.peekRunes[l.peekCount].w
	}
''')],
 'a non-ASCII character in front of the bad token, in the same line',
 'the column counts bytes',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE t (`\\u00e9` INT, 1)")
	pe, ok := err.(schemalex.ParseError)
	if !ok || pe.Col() != 26 {
		t.Fatal(err)
	}
''')
bug('C02-e', [('parser.go', '''		if pe, ok := err.(*parseError); ok {
			pe.file = fn
		}
''', '''		if pe, ok := err.(*parseError); ok && !pe.EOF() {
			pe.file = fn
		}
''')],
 'a file that ends too early',
 'the error does not name the file',
 imports=['io/ioutil', 'os'],
 demo='''
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("CREATE TABLE t (")
	f.Close()
	_, err = schemalex.New().ParseFile(f.Name())
	pe, ok := err.(schemalex.ParseError)
	if !ok || pe.File() != f.Name() {
		t.Fatal(err)
	}
''')
bug('C02-f', [('errors.go', '''	// if this is more than 40 chars from t.Pos, truncate it
	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
	}
''', '''	// if this is more than 40 chars from t.Pos, truncate it
	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
		// do not begin within a word
		if i := bytes.IndexByte(ctx.input[ctxbegin:t.Pos], ' '); i > 0 && i < 10 {
			ctxbegin += i + 1
		}
	}
''')] ,
 'more than 40 bytes in front of the bad token',
 'the excerpt is shorter than it has to be',
 demo='''
	sql := "CREATE TABLE t (aaaa INT, bbbb INT, cccc INT, dddd INT, eeee INT, 1)"
	_, err := schemalex.New().ParseString(sql)
	if want := sql[strings.Index(sql, "1)")-40:strings.Index(sql, "1)")]; err == nil || !strings.Contains(err.Error(), "\\"" + want + "\\"") {
		t.Fatal(err)
	}
''')
bug('C02-g', [('lexer.go', '''	if typ == EOF {
		t.EOF = true
		t.Pos = len(l.input)
	} else {''', '''	if typ == EOF {
		t.EOF = true
		t.Pos = len(bytes.TrimRight(l.input, " \\t\\r\\n"))
	} else {''')],
 'the input ends too early, with white space',
 'the excerpt is not what stands in front of the end',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE t (a   ")
	if err == nil || !strings.Contains(err.Error(), "\\"CREATE TABLE t (a   \\"") {
		t.Fatal(err)
	}
''')

# ---------------------------------------------------------------- C03
bug('C03-e', [('parser.go', '''	if len(sym) > 0 {
		index.SetSymbol(sym)
	}

	table.AddIndex(index)
	return nil
}

func (p *Parser) parseTablePrimaryKey''', '''	if len(sym) > 0 && sym != index.Name() {
		index.SetSymbol(sym)
	}

	table.AddIndex(index)
	return nil
}

func (p *Parser) parseTablePrimaryKey''')],
 'a constraint whose index has the same name as itself',
 'the symbol is lost',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT, CONSTRAINT c UNIQUE KEY c (a))")[0])
	if !strings.Contains(s, "CONSTRAINT `c`") {
		t.Fatal(s)
	}
''')
bug('C03-f', [('parser.go', '''			if err := p.parseCreateTableOptionValue(ctx, table, "STATS_PERSISTENT", NUMBER, DEFAULT); err != nil {''',
'''			if err := p.parseCreateTableOptionValue(ctx, table, "STATS_AUTO_RECALC", NUMBER, DEFAULT); err != nil {''')],
 'a table with STATS_PERSISTENT',
 'the model says STATS_AUTO_RECALC',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT) STATS_PERSISTENT=1")[0])
	if !strings.Contains(s, "STATS_PERSISTENT") {
		t.Fatal(s)
	}
''')
bug('C03-g', [('parser.go', '''		switch t = ctx.peek(); t.Type {
		case ASC:
			ctx.advance()
			col.SetSortDirection(model.SortDirectionAscending)
		case DESC:
			ctx.advance()
			col.SetSortDirection(model.SortDirectionDescending)
		}
''', '''		switch t = ctx.peek(); t.Type {
		case ASC:
			ctx.advance()
			col.SetSortDirection(model.SortDirectionAscending)
		case DESC:
			ctx.advance()
			// the column it follows
			cols[len(cols)-1].SetSortDirection(model.SortDirectionDescending)
			if col.HasLength() {
				cols[0].SetSortDirection(model.SortDirectionDescending)
			}
		}
''')],
 'an index of two columns, the second with a prefix length and DESC',
 'the direction is attached to the first column as well',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT, b VARCHAR(9), INDEX i (a, b(3) DESC))")[0])
	if !strings.Contains(s, "(`a`, `b`(3) DESC)") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C04
bug('C04-c', [('parser.go', '''				col.SetAutoUpdate(strings.ToUpper(t.Value))''', '''				col.SetAutoUpdate(t.Value)''')],
 'ON UPDATE with current_timestamp in lower case',
 'the spelling shows in the result',
 demo='''
	a := sqlOf(t, parse(t, "CREATE TABLE t (a TIMESTAMP ON UPDATE current_timestamp)")[0])
	b := sqlOf(t, parse(t, "CREATE TABLE t (a TIMESTAMP ON UPDATE CURRENT_TIMESTAMP)")[0])
	if a != b {
		t.Fatal(a, b)
	}
''')
bug('C04-d', [('parser.go', '''			case NOW:
				now := t.Value
				if t := ctx.next(); t.Type != LPAREN {''', '''			case NOW:
				now := t.Value
				if ctx.peek().Type == SPACE {
					ctx.skipWhiteSpaces()
					if t := ctx.peek(); t.Type != LPAREN {
						// without parentheses
						col.SetDefault(strings.ToUpper(now), false)
						continue
					}
				}
				if t := ctx.next(); t.Type != LPAREN {''')], '', '')
BUGS.pop()
bug('C04-e', [('parser.go', '''		case SPACE, COMMENT_IDENT:
			pctx.advance()
			continue
		default:
			return
		}
''', '''		case SPACE:
			pctx.advance()
			if t := pctx.peek(); t.Type != COMMENT_IDENT {
				return
			}
		case COMMENT_IDENT:
			pctx.advance()
			if t := pctx.peek(); t.Type != SPACE {
				return
			}
		default:
			return
		}
''')],
 'two comments next to each other, without white space between them',
 'the statement is rejected',
 demo='''
	parse(t, "CREATE/* a *//* b */TABLE t (a INT)")
''')

# ---------------------------------------------------------------- C05
bug('C05-d', [('parser.go', '''	if t := ctx.peek(); !p.eol(ctx) {
		return nil, newParseError(ctx, t, "expected SEMICOLON or EOF")
	}
	return database, nil''', '''	for !p.eol(ctx) {
		// character set, collation
	}
	return database, nil''')],
 'a CREATE DATABASE without a semicolon',
 'the table that follows is lost',
 demo='''
	stmts, err := schemalex.New().ParseString("CREATE DATABASE d\\nCREATE TABLE t (a INT);")
	if err == nil && len(stmts) != 1 {
		t.Fatal(stmts)
	}
''')
bug('C05-e', [('lexer.go', '''		r := l.next()
		switch r {
		case eof, '\\n':
			return COMMENT_IDENT
		}
''', '''		r := l.next()
		switch r {
		case eof, '\\n', '\\r':
			return COMMENT_IDENT
		}
''')],
 'a comment with a carriage return in the middle of a line',
 'what follows in the comment takes effect',
 demo='''
	if stmts := parse(t, "-- a\\rCREATE TABLE x (a INT);\\nCREATE TABLE t (a INT);"); len(stmts) != 1 {
		t.Fatal(stmts)
	}
''')
bug('C05-f', [('lexer.go', '''		case '*':
			if l.peek() == '/' {
				l.advance()
				return nil
			}
		}
	}
}''', '''		case '*':
			// any number of them
			for l.peek() == '*' {
				l.advance()
			}
			if l.next() == '/' {
				return nil
			}
		}
	}
}''')], '', '')
BUGS.pop()
bug('C05-g', [('parser.go', '''				case SEMICOLON:
					ctx.advance()
					fallthrough
				case EOF:
					break S1
''', '''				case SEMICOLON:
					ctx.advance()
					ctx.skipWhiteSpaces()
					if n := ctx.peek(); n.Type == t.Type {
						// a doubled one
						ctx.advance()
						ctx.advance()
					}
					fallthrough
				case EOF:
					break S1
''')] , '', '')
BUGS.pop()

# ---------------------------------------------------------------- C06
bug('C06-e', [('model/table.go', '''				if nidx.IsBtree() {
					index.SetType(IndexTypeBtree)
				} else if nidx.IsHash() {
					index.SetType(IndexTypeHash)
				}
				columns := []IndexColumn{}
				for c := range nidx.Columns() {
					columns = append(columns, c)
				}
				index.AddColumns(columns...)
''', '''				for c := range nidx.Columns() {
					index.AddColumns(NewIndexColumn(c.Name()))
				}
''')],
 'through the API: a foreign key with an index type or with prefix lengths',
 'the implicit index has neither',
 demo='''
	tbl := model.NewTable("t")
	tbl.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeText))
	idx := model.NewIndex(model.IndexKindForeignKey, tbl.ID())
	idx.SetSymbol("s")
	idx.AddColumns(model.NewIndexColumn("a").SetLength("7"))
	idx.SetReference(model.NewReference().SetTableName("x"))
	tbl.AddIndex(idx)
	n, _ := tbl.Normalize()
	for x := range n.Indexes() {
		for c := range x.Columns() {
			if c.Length() != "7" {
				t.Fatal(sqlOf(t, x))
			}
		}
	}
''')
bug('C06-f', [('model/table.go', '''	tbl.SetIfNotExists(t.IsIfNotExists())
	tbl.SetTemporary(t.IsTemporary())
''', '''	tbl.SetIfNotExists(t.IsIfNotExists() && !t.IsTemporary())
	tbl.SetTemporary(t.IsTemporary())
''')],
 'a temporary table with IF NOT EXISTS that needs normalization',
 'the flag is lost',
 demo='''
	tbl := model.NewTable("t").SetTemporary(true).SetIfNotExists(true)
	tbl.AddColumn(model.NewTableColumn("a").SetType(model.ColumnTypeInt))
	if n, _ := tbl.Normalize(); !n.IsIfNotExists() {
		t.Fatal("lost")
	}
''')

# ---------------------------------------------------------------- C07
bug('C07-d', [('parser.go', '''		v := ctx.next()
		if v.Type == SINGLE_QUOTE_IDENT || v.Type == DOUBLE_QUOTE_IDENT {
			values = append(values, v.Value)
		} else {''', '''		v := ctx.next()
		if v.Type == SINGLE_QUOTE_IDENT || v.Type == DOUBLE_QUOTE_IDENT {
			values = append(values, v.Value)
		} else if v.Type == RPAREN {
			// a comma behind the last value
			break OUTER
		} else {''')],
 'an ENUM without values',
 'the formatted text can not be parsed',
 demo='''
	stmts, err := schemalex.New().ParseString("CREATE TABLE t (a ENUM())")
	if err == nil {
		parse(t, sqlOf(t, stmts[0]))
	}
''')
bug('C07-e', [('format/format.go', '''	if col.IsPrimary() {
		buf.WriteString(" PRIMARY KEY")
	} else if col.IsKey() {
		buf.WriteString(" KEY")
	}
''', '''	switch {
	case col.IsPrimary():
		buf.WriteString(" PRIMARY KEY")
	case col.IsKey() && !col.IsAutoIncrement():
		// a column with AUTO_INCREMENT is one anyway
		buf.WriteString(" KEY")
	}
''')],
 'a column with AUTO_INCREMENT and KEY',
 'KEY is not in the formatted text',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT AUTO_INCREMENT KEY)")[0])
	if !strings.Contains(s, "AUTO_INCREMENT KEY") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C08
bug('C08-d', [('parser.go', '''	ctx := newParseCtx(cctx)
	ctx.input = src
	ctx.lexsrc = lex(cctx, src)
''', '''	ctx := newParseCtx(cctx)
	ctx.input = bytes.Replace(src, []byte("\\r\\n"), []byte("\\n"), -1)
	ctx.lexsrc = lex(cctx, ctx.input)
'''), ('parser.go', '''import (
''', '''import (
	"bytes"
''')],
 'a string with a CR LF',
 'the CR is lost',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT COMMENT 'x\\r\\ny')")[0])
	if !strings.Contains(s, "x\\r\\ny") {
		t.Fatalf("%q", s)
	}
''')
bug('C08-e', [('lexer.go', '''	return string(l.input[l.start.pos:endpos])''', '''	return string(bytes.Runes(l.input[l.start.pos:endpos]))''')],
 'a string or name that is not valid UTF-8',
 'its bytes are replaced',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT COMMENT 'x\\xffy')")[0])
	if !strings.Contains(s, "x\\xffy") {
		t.Fatalf("%q", s)
	}
''')
# ---------------------------------------------------------------- C09
bug('C09-d', [('lint/lint.go', '''		if err := format.SQL(dst, stmt, options...); err != nil {
			return errors.Wrap(err, `failed to format source`)
		}
''', '''		buf.Reset()
		if err := format.SQL(&buf, stmt, options...); err != nil {
			return errors.Wrap(err, `failed to format source`)
		}
		// no white space at the end of a line
		lines := bytes.Split(buf.Bytes(), []byte{'\\n'})
		for i := range lines {
			lines[i] = bytes.TrimRight(lines[i], " \\t")
		}
		if _, err := dst.Write(bytes.Join(lines, []byte{'\\n'})); err != nil {
			return errors.Wrap(err, `failed to write to destination`)
		}
''')],
 'a string with a blank in front of a line break',
 'the string is changed',
 demo='''
	s := lintOf(t, "CREATE TABLE t (a INT COMMENT 'x \\ny')")
	if !strings.Contains(s, "x \\ny") {
		t.Fatalf("%q", s)
	}
''')
bug('C09-e', [('lint/lint.go', '''	p := schemalex.New()
	stmts, err := p.Parse(buf.Bytes())
	if err != nil {
		return errors.Wrap(err, `failed to parse source`)
	}
''', '''	p := schemalex.New()
	stmts, err := p.Parse(buf.Bytes())
	if err != nil {
		return errors.Wrap(err, `failed to parse source`)
	}
	// what a table is LIKE has to be there already
	sort.SliceStable(stmts, func(i, j int) bool {
		a, ok1 := stmts[i].(model.Table)
		b, ok2 := stmts[j].(model.Table)
		return ok1 && ok2 && !a.HasLikeTable() && b.HasLikeTable()
	})
'''), ('lint/lint.go', '''	"io"

	"github.com/pkg/errors"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
''', '''	"io"
	"sort"

	"github.com/pkg/errors"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
'''), ('lint/lint.go', '''		if i != 0 {
''', '''		if i > 0 {
''')],
 'a table defined by LIKE in front of another one',
 'the order is changed',
 demo='''
	s := lintOf(t, "CREATE TABLE a (a INT); CREATE TABLE b LIKE a; CREATE TABLE c (a INT);")
	if strings.Index(s, "`b`") > strings.Index(s, "`c`") {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C10
bug('C10-c', [('model/table.go', '''			index.SetName(ncol.Name())
			index.SetType(IndexTypeNone)
			idxCol := NewIndexColumn(ncol.Name())
			index.AddColumns(idxCol)
			additionalIndexes = append(additionalIndexes, index)
			if !modified {
				clone = true
			}
			ncol = ncol.Clone()
			ncol.SetUnique(false)
''', '''			index.SetName(ncol.Name())
			index.SetType(IndexTypeNone)
			idxCol := NewIndexColumn(ncol.Name())
			if ncol.IsAutoIncrement() {
				idxCol.SetLength(ncol.Length().Length())
			}
			index.AddColumns(idxCol)
			additionalIndexes = append(additionalIndexes, index)
			clone = true
			ncol = ncol.Clone()
			ncol.SetUnique(false)
''')],
 'a column with AUTO_INCREMENT UNIQUE',
 'it is not the same as a unique key of the table',
 demo='''
	a, b := "CREATE TABLE t (a INT AUTO_INCREMENT UNIQUE)", "CREATE TABLE t (a INT AUTO_INCREMENT, UNIQUE KEY a (a))"
	if s := diffOf(t, a, b); s != "" {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C11
bug('C11-e', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		var before, after bytes.Buffer
		if err := format.SQL(&before, beforeColumnStmt); err != nil {
			return 0, err
		}
		if err := format.SQL(&after, afterColumnStmt); err != nil {
			return 0, err
		}
		// the order of the values makes no difference
		b1, b2 := before.Bytes(), after.Bytes()
		if beforeColumnStmt.HasSetValues() && afterColumnStmt.HasSetValues() {
			sort.Slice(b1, func(i, j int) bool { return b1[i] < b1[j] })
			sort.Slice(b2, func(i, j int) bool { return b2[i] < b2[j] })
		}
		if bytes.Equal(b1, b2) {
			continue
		}
'''), ('diff/diff.go', '''	"reflect"
''', '')],
 'the order of the values of a SET changes',
 'the column is not changed',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a SET('x', 'y'))", "CREATE TABLE t (a SET('y', 'x'))")
	if !strings.Contains(s, "CHANGE COLUMN") {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C12
bug('C12-d', [('diff/diff.go', '''		if indexStmt.IsForeignKey() {
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {
			buf.WriteByte('\\n')
		}
		buf.WriteString("ALTER TABLE `")
		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
		buf.WriteString("` ADD ")''', '''		if indexStmt.IsForeignKey() && indexStmt.Reference() != nil && indexStmt.Reference().TableName() != ctx.to.Name() {
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {
			buf.WriteByte('\\n')
		}
		buf.WriteString("ALTER TABLE `")
		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
		buf.WriteString("` ADD ")''')],
 'a foreign key to its own table and its explicit index behind it are added',
 'the index exists already when it is added',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a INT, b INT)", "CREATE TABLE t (a INT, b INT, CONSTRAINT c FOREIGN KEY (a) REFERENCES t (b), KEY c (a))")
	if strings.Index(s, "FOREIGN KEY") < strings.Index(s, "INDEX") {
		t.Fatal(s)
	}
''')
bug('C12-e', [('diff/diff.go', '''		if firstColumn != nil {''', ''), ], '', '')
BUGS.pop()
bug('C12-f', [('diff/diff.go', '''		sort.Slice(columnNames, func(i, j int) bool {
			icol, _ := ctx.to.LookupColumnOrder(columnNames[i])
			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
			return icol < jcol
		})
''', '''		sort.Strings(columnNames)
''')],
 'three columns in a row are added, whose names are not in alphabetical order',
 'a column is added behind one that does not exist yet',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a INT)", "CREATE TABLE t (a INT, z INT, y INT, x INT)")
	if strings.Index(s, "ADD COLUMN `y`") > strings.Index(s, "ADD COLUMN `x`") {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C13
# ---------------------------------------------------------------- C14
bug('C14-c', [('diff/diff.go', '''	if len(columnNames) > 0 {
		sort.Strings(columnNames)
		if err''', '''	if len(columnNames) > 0 {
		if err''')],
 'two columns are added at different places',
 'the order of the statements changes from run to run',
 demo='''
	seen := map[string]bool{}
	for i := 0; i < 300; i++ {
		seen[diffOf(t, "CREATE TABLE t (a INT, b INT, c INT)", "CREATE TABLE t (a INT, x INT, b INT, y INT, c INT, z INT)")] = true
	}
	if len(seen) != 1 {
		t.Fatal(len(seen))
	}
''')
# ---------------------------------------------------------------- C15
bug('C15-d', [('diff/diff.go', '''	fromStr := buf.String()
	buf.Reset()

	if err := to.WriteSchema(&buf); err != nil {
		return errors.Wrapf(err, `failed to retrieve schema from "to" source %s`, to)
	}
	return Strings(dst, fromStr, buf.String(), options...)''', '''	const bom = "\\xef\\xbb\\xbf" // of some editors
	fromStr := strings.TrimPrefix(buf.String(), bom)
	buf.Reset()

	if err := to.WriteSchema(&buf); err != nil {
		return errors.Wrapf(err, `failed to retrieve schema from "to" source %s`, to)
	}
	return Strings(dst, fromStr, strings.TrimPrefix(buf.String(), bom), options...)'''), ('diff/diff.go', '''	"sort"
''', '''	"sort"
	"strings"
''')],
 'a text that begins with a byte order mark',
 'it is diffed as a file, but rejected as a string',
 imports=['io/ioutil', 'os', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "x")
	text := "\\xef\\xbb\\xbfCREATE TABLE t (a INT)"
	ioutil.WriteFile(f, []byte(text), 0644)
	err1 := diff.Strings(&bytes.Buffer{}, "", text)
	err2 := diff.Files(&bytes.Buffer{}, os.DevNull, f)
	if (err1 == nil) != (err2 == nil) {
		t.Fatal(err1, err2)
	}
''')
# ---------------------------------------------------------------- C16
# ---------------------------------------------------------------- C17
bug('C17-d', [('source.go', '''	defer f.Close()

	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	return nil
}''', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	if err := f.Close(); err != nil {
		return errors.Wrap(err, `failed to close file`)
	}
	return nil
}''')],
 'a source that is a directory, or a destination that fails',
 'the file stays open',
 imports=['io/ioutil', 'os'],
 demo='''
	count := func() int {
		l, err := ioutil.ReadDir("/proc/self/fd")
		if err != nil {
			t.Skip(err)
		}
		return len(l)
	}
	dir := os.TempDir()
	before := count()
	for i := 0; i < 20; i++ {
		schemalex.NewLocalFileSource(dir).WriteSchema(&bytes.Buffer{})
	}
	if n := count(); n > before+10 {
		t.Fatal(before, n)
	}
''')
bug('C17-e', [('parser.go', '''	cctx, cancel := context.WithCancel(context.TODO())
	defer cancel()
''', '''	cctx, cancel := context.WithCancel(context.TODO())
'''), ('parser.go', '''				if pe, ok := err.(ParseError); ok {
					return nil, pe
				}
				return nil, errors.Wrap''', '''				cancel()
				if pe, ok := err.(ParseError); ok {
					return nil, pe
				}
				return nil, errors.Wrap'''), ('parser.go', '''		default:
			return nil, newParseError(ctx, t, "expected CREATE, COMMENT_IDENT, SEMICOLON or EOF")
		}
	}

	return stmts, nil''', '''		default:
			return nil, newParseError(ctx, t, "expected CREATE, COMMENT_IDENT, SEMICOLON or EOF")
		}
	}
	cancel()

	return stmts, nil''')],
 'a text whose first token is not a statement, and that goes on for some tokens',
 'the goroutine of the lexer stays',
 imports=['runtime', 'time'],
 demo='''
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		schemalex.New().ParseString("ALTER TABLE t ADD COLUMN a INT, ADD COLUMN b INT;")
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+20 {
		t.Fatal(before, n)
	}
''')
# ---------------------------------------------------------------- C18
bug('C18-d', [('source.go', '''		return NewLocalFileSource(u.Path), nil
	}
''', '''		return NewLocalFileSource(path.Clean(u.Path)), nil
	}
'''), ('source.go', '''	"os/exec"
''', '''	"os/exec"
	"path"
''')],
 'a file:// URL with a .. behind a symbolic link',
 'another file is read',
 imports=['io/ioutil', 'os', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "a", "b"), 0755)
	os.Symlink(filepath.Join(dir, "a", "b"), filepath.Join(dir, "l"))
	ioutil.WriteFile(filepath.Join(dir, "x"), []byte("wrong"), 0644)
	ioutil.WriteFile(filepath.Join(dir, "a", "x"), []byte("right"), 0644)
	src, err := schemalex.NewSchemaSource("file://" + dir + "/l/../x")
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.String() != "right" {
		t.Fatal(err, buf.String())
	}
''')
bug('C18-e', [('source.go', '''	// "-" is a special source, denoting stdin.
	if uri == "-" {''', '''	uri = strings.TrimSpace(uri)
	// "-" is a special source, denoting stdin.
	if len(uri) == 1 && uri[0] == '-' {''')],
 'a path that begins or ends with white space',
 'another file is read',
 imports=['io/ioutil', 'os', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ioutil.WriteFile(filepath.Join(dir, "x "), []byte("right"), 0644)
	src, err := schemalex.NewSchemaSource(filepath.Join(dir, "x "))
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.String() != "right" {
		t.Fatal(err, buf.String())
	}
''')
bug('C18-f', [('source.go', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	return nil''', '''	fi, err := f.Stat()
	if err != nil {
		return errors.Wrap(err, `failed to stat file`)
	}
	// it may grow while we read
	if _, err := io.Copy(dst, io.LimitReader(f, fi.Size())); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	return nil''')],
 'a path that is a named pipe, or a file of /proc',
 'nothing is read, without an error',
 imports=['io/ioutil', 'os', 'path/filepath', 'syscall'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "pipe")
	if err := syscall.Mkfifo(f, 0600); err != nil {
		t.Skip(err)
	}
	go ioutil.WriteFile(f, []byte("x"), 0600)
	var buf bytes.Buffer
	if err := schemalex.NewLocalFileSource(f).WriteSchema(&buf); err != nil || buf.String() != "x" {
		t.Fatal(err, buf.String())
	}
''')
# ---------------------------------------------------------------- C20
# ---------------------------------------------------------------- C22
bug('C22-d', [('model/reference.go', '''		r.tableName,
		r.match,
		r.onDelete,
		r.onUpdate,
	)
''', '''		r.tableName,
		r.match,
		r.onDelete|r.onUpdate,
		r.onUpdate,
	)
''')],
 'two references with different ON DELETE, of which the bits coincide with ON UPDATE',
 'they have the same identifier',
 demo='''
	seen := map[string]bool{}
	all := []model.ReferenceOption{model.ReferenceOptionNone, model.ReferenceOptionRestrict, model.ReferenceOptionCascade, model.ReferenceOptionSetNull, model.ReferenceOptionNoAction}
	for _, d := range all {
		for _, u := range all {
			id := model.NewReference().SetTableName("x").SetOnDelete(d).SetOnUpdate(u).ID()
			if seen[id] {
				t.Fatal(d, u)
			}
			seen[id] = true
		}
	}
''')
# ---------------------------------------------------------------- C23
bug('C23-d', [('model/table.go', '''	t.mu.RLock()
	defer t.mu.RUnlock()

	ch := make(chan TableColumn, len(t.columns))
	for _, col := range t.columns {
		ch <- col
	}
	close(ch)
	return ch''', '''	cols := t.columns
	ch := make(chan TableColumn, len(cols))
	for _, col := range cols {
		ch <- col
	}
	close(ch)
	return ch''')],
 'iteration and addition at the same time',
 'a data race',
 race=True, imports=['fmt', 'sync'],
 demo='''
	tbl := model.NewTable("t")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			tbl.AddColumn(model.NewTableColumn(fmt.Sprint(i)))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			for range tbl.Columns() {
			}
		}
	}()
	wg.Wait()
''')
bug('C23-e', [('model/table_column.go', '''	col := &tablecol{}
	*col = *t
	if l := t.length; l != nil {
		col.length = NewLength(l.Length())
		if l.HasDecimal() {
			col.length.SetDecimal(l.Decimal())
		}
	}
	return col''', '''	col := *t
	return &col''')],
 'a change of the Length of a clone',
 'the original changes as well',
 demo='''
	a := model.NewTableColumn("a").SetType(model.ColumnTypeDecimal).SetLength(model.NewLength("10"))
	b := a.Clone()
	b.Length().SetDecimal("5")
	if a.Length().HasDecimal() {
		t.Fatal("shared")
	}
''')
