import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

bug('C11-i', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		same := reflect.DeepEqual(beforeColumnStmt, afterColumnStmt)
		if same {
			continue
		}
		// the statement that adds the column before it defines it
		if beforeColumnStmt.HasDefault() && afterColumnStmt.HasDefault() && beforeColumnStmt.Type() == afterColumnStmt.Type() {
			a, b := beforeColumnStmt.Clone(), afterColumnStmt.Clone()
			a.SetDefault("", false)
			b.SetDefault("", false)
			if reflect.DeepEqual(a, b) && beforeColumnStmt.Default() == afterColumnStmt.Default() {
				continue
			}
		}
''')],
 "a default of which only the quotes change, such as DEFAULT NULL and DEFAULT 'NULL'", 'the column is not changed',
 demo='''
	out := diffOf(t, "CREATE TABLE t (a VARCHAR(9) DEFAULT NULL);", "CREATE TABLE t (a VARCHAR(9) DEFAULT 'NULL');")
	if out == "" { t.Fatal("no change") }
''')
bug('C11-j', [('diff/diff.go', '''	for _, stmt := range from {
		if cs, ok := stmt.(model.Table); ok {''', '''	for _, stmt := range from {
		if cs, ok := stmt.(model.Table); ok && !cs.IsTemporary() {''')],
 'a temporary table that is not in the new schema', 'it is not dropped',
 demo='''
	out := diffOf(t, "CREATE TEMPORARY TABLE t (a INT); CREATE TABLE u (a INT);", "CREATE TABLE u (a INT);")
	if !strings.Contains(out, "DROP TABLE `t`") { t.Fatal(out) }
''')
bug('C13-d', [('diff/diff.go', '''	indexes := ctx.fromIndexes.Difference(ctx.toIndexes)
	// drop''', '''	indexes := changedIndexes(ctx.from, ctx.fromIndexes, ctx.toIndexes)
	// drop'''), ('diff/diff.go', '''	indexes := ctx.toIndexes.Difference(ctx.fromIndexes)
''', '''	indexes := changedIndexes(ctx.from, ctx.fromIndexes, ctx.toIndexes)
	for _, id := range indexes.Difference(ctx.toIndexes).ToSlice() {
		indexes.Remove(id)
	}
	for _, id := range ctx.toIndexes.Difference(ctx.fromIndexes).ToSlice() {
		indexes.Add(id)
	}
'''), ('diff/diff.go', '''func addTableIndexes(''', '''// changedIndexes returns the indexes that have to be dropped. If the primary
// key is one of them, the foreign keys have to be as well
func changedIndexes(table model.Table, from, to mapset.Set) mapset.Set {
	changed := from.Difference(to)
	for idx := range table.Indexes() {
		if idx.IsPrimaryKey() && changed.Contains(idx.ID()) {
			for fk := range table.Indexes() {
				if fk.IsForeignKey() && (fk.HasName() || fk.HasSymbol()) {
					changed.Add(fk.ID())
				}
			}
		}
	}
	return changed
}

func addTableIndexes(''')],
 'the primary key changes in a table with a foreign key', 'the foreign key is dropped and added although it is the same',
 demo='''
	out := diffOf(t, "CREATE TABLE t (a INT, b INT, PRIMARY KEY (a), CONSTRAINT f FOREIGN KEY (b) REFERENCES u (a));", "CREATE TABLE t (a INT, b INT, PRIMARY KEY (a, b), CONSTRAINT f FOREIGN KEY (b) REFERENCES u (a));")
	if strings.Contains(out, "FOREIGN") { t.Fatal(out) }
''')
bug('C16-d', [('format/format.go', '''func formatTable(ctx *fmtCtx, table model.Table) error {
	var buf bytes.Buffer
''', '''var tableBufs = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}

func formatTable(ctx *fmtCtx, table model.Table) error {
	pooled := tableBufs.Get().(*bytes.Buffer)
	pooled.Reset()
	err := formatTableTo(ctx, table, pooled)
	tableBufs.Put(pooled)
	if err != nil {
		return err
	}
	_, err = pooled.WriteTo(ctx.dst)
	return err
}

func formatTableTo(ctx *fmtCtx, table model.Table, dst *bytes.Buffer) error {
	var buf bytes.Buffer
'''), ('format/format.go', '''			}
		}
	}

	if _, err := buf.WriteTo(ctx.dst); err != nil {
		return err
	}
	return nil
}

func formatColumnType''', '''			}
		}
	}

	if _, err := buf.WriteTo(dst); err != nil {
		return err
	}
	return nil
}

func formatColumnType'''), ('format/format.go', '''import (
''', '''import (
	"sync"
''')],
 'tables that are formatted by several goroutines', 'a buffer is used by another one while it is being written', imports=['io'],
 demo='''
	a, b := parse(t, "CREATE TABLE aa (x INT)"), parse(t, "CREATE TABLE bb (y INT)")
	want := sqlOf(t, a)
	for i := 0; i < 100; i++ {
		pr, pw := io.Pipe()
		go func() {
			pw.CloseWithError(format.SQL(pw, a))
		}()
		var got []byte
		one := make([]byte, 1)
		for {
			n, err := pr.Read(one)
			got = append(got, one[:n]...)
			if err != nil { break }
			if len(got) == 5 {
				for j := 0; j < 8; j++ { sqlOf(t, b) }
			}
		}
		if string(got) != want { t.Fatalf("%q", got) }
	}
''')
bug('C02-k', [('lexer.go', '''			if l.peek() != eof {
				r = l.next()
			}''', '''			if l.peek() != eof {
				line, col := l.cur.line, l.cur.col
				l.advance()
				l.cur.line, l.cur.col = line, col+1
			}''')],
 'a line break behind a backslash in a string, in front of the bad token', 'the line break does not count',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE t (a INT COMMENT 'x\\\\\\ny'\\n, b BAD)")
	pe, ok := err.(schemalex.ParseError)
	if !ok || pe.Line() != 3 { t.Fatal(err) }
''')
bug('C05-i', [('lexer.go', '''			if l.peek() == '/' {
				l.advance()
				return nil
			}
		}
	}
}''', '''			if c := l.next(); c == '/' {
				return nil
			} else if c == eof {
				return errors.New(`unexpected eof`)
			}
		}
	}
}''')],
 'a comment that ends with two asterisks', 'what stands between it and the end of the next comment is lost',
 demo='''
	s := parse(t, "CREATE TABLE a (x INT); /* one **/ CREATE TABLE b (x INT); /* two */ CREATE TABLE c (x INT);")
	if len(s) != 3 { t.Fatal(len(s)) }
''')
bug('C22-e', [('model/index.go', '''	for col := range stmt.Columns() {
		fmt.Fprintf(h, ".")
		fmt.Fprintf(h, "%q", col.ID())''', '''	for i, col := range stmt.columns {
		if i > 0 || !col.HasLength() {
			fmt.Fprintf(h, ".")
		}
		if i == 15 {
			break // there can be no more columns
		}
		fmt.Fprintf(h, "%q", col.ID())''')],
 'indexes of more than 15 columns (MySQL has up to 16)', 'the last ones do not count',
 demo='''
	a := parse(t, "CREATE TABLE t (a INT, KEY k (a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p))")
	b := parse(t, "CREATE TABLE t (a INT, KEY k (a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,q))")
	x, y := <-a[0].(model.Table).Indexes(), <-b[0].(model.Table).Indexes()
	if x.ID() == y.ID() { t.Fatal("same") }
''')
bug('C17-h', [('source.go', '''	if _, err := io.Copy(dst, s.src); err != nil {
		return errors.Wrap(err, `failed to write schema to dst`)
	}
	return nil''', '''	pr, pw := io.Pipe()
	go func() {
		_, err := io.Copy(pw, s.src)
		pw.CloseWithError(err)
	}()
	if _, err := io.Copy(dst, pr); err != nil {
		return errors.Wrap(err, `failed to write schema to dst`)
	}
	return nil''')],
 'a reader source whose destination fails', 'the goroutine that reads stays blocked for ever', imports=['runtime', 'time', 'errors'],
 demo='''
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		schemalex.NewReaderSource(strings.NewReader(strings.Repeat("x", 1<<20))).WriteSchema(bad{})
	}
	time.Sleep(200 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 { t.Fatal(n, m) }
''', decl='''
type bad struct{}

func (bad) Write(b []byte) (int, error) { return 0, errors.New("no") }
''')
bug('C04-h', [('lexer.go', '''			if !isSpace(l.peek()) {''', '''			if r := l.peek(); r != ' ' && r != '\\n' && r != '\\r' {''')],
 'a -- comment that begins with a tab', 'it is not taken for a comment',
 demo='''
	parse(t, "CREATE TABLE t (a INT, --\\tcomment\\n b INT)")
''')
bug('C14-e', [('parser.go', '''		return newParseError(ctx, t, "expected RESTRICT, CASCADE, SET or NO")''', '''		var expected []string
		for s := range map[string]bool{"RESTRICT": true, "CASCADE": true, "SET": true, "NO": true} {
			expected = append(expected, s)
		}
		return newParseError(ctx, t, "expected %s", strings.Join(expected, ", "))''')],
 'an unknown reference action', 'the error message is another one from run to run',
 demo='''
	var want string
	for i := 0; i < 100; i++ {
		_, err := schemalex.New().ParseString("CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES b (c) ON DELETE foo)")
		if i == 0 { want = err.Error() }
		if err.Error() != want { t.Fatal(want, err) }
	}
''')
bug('C18-j', [('source.go', '''func NewLocalGitSource(gitDir, file, commitish string) SchemaSource {
	return &localGitSource{
		dir:       gitDir,
		file:      file,''', '''func NewLocalGitSource(gitDir, file, commitish string) SchemaSource {
	return &localGitSource{
		dir:       gitDir,
		file:      path.Clean(file),'''), ('source.go', '''import (
''', '''import (
	"path"
''')],
 'a git source whose directory is a subdirectory of the repository, and whose file begins with ./', 'the file of that name at the top is read',
 sh=CMD + '''
d=$T
cd "$d"; git init -q r; cd r; git config user.email a@b; git config user.name n
mkdir sub; echo 'CREATE TABLE top (a INT);' > s.sql; echo 'CREATE TABLE sub (a INT);' > sub/s.sql
git add .; git commit -qm x
cd "$T"; ./schemalint "local-git://$d/r/sub?file=./s.sql&commitish=HEAD" | grep -q '`sub`'
''')
bug('C15-g', [('diff/diff.go', '''	return Sources(dst, schemalex.NewLocalFileSource(from), schemalex.NewLocalFileSource(to), options...)''', '''	fromSource, err := schemalex.NewSchemaSource(from)
	if err != nil {
		return errors.Wrap(err, `failed to create schema source for "from"`)
	}
	toSource, err := schemalex.NewSchemaSource(to)
	if err != nil {
		return errors.Wrap(err, `failed to create schema source for "to"`)
	}
	return Sources(dst, fromSource, toSource, options...)''')],
 'a file whose name has a colon, or is a dash', 'diffing it as a file fails, or reads standard input', imports=['os', 'bytes'],
 demo='''
	os.Chdir(t.TempDir())
	os.WriteFile("v1:old.sql", []byte("CREATE TABLE a (x INT);"), 0644)
	os.WriteFile("-", []byte("CREATE TABLE b (x INT);"), 0644)
	var b1, b2 bytes.Buffer
	if err := diff.Files(&b1, "v1:old.sql", "-"); err != nil { t.Fatal(err) }
	if err := diff.Strings(&b2, "CREATE TABLE a (x INT);", "CREATE TABLE b (x INT);"); err != nil { t.Fatal(err) }
	if b1.String() != b2.String() { t.Fatal(b1.String()) }
''')
bug('C10-f', [('model/table_column.go', '''	case ColumnTypeBigInt:
		size = 20
''', '''	case ColumnTypeBigInt:
		size = 20 - unsigned
		if !t.IsZeroFill() {
			size = 20
		}
''')], 'a BIGINT UNSIGNED ZEROFILL without a size', 'it is not the same as BIGINT(20) UNSIGNED ZEROFILL',
 demo='''
	out := diffOf(t, "CREATE TABLE t (a BIGINT UNSIGNED ZEROFILL);", "CREATE TABLE t (a BIGINT(20) UNSIGNED ZEROFILL);")
	if out != "" { t.Fatal(out) }
''')
bug('C06-i', [('model/table_column.go', '''	// avoid cloning if we don't have to
	if !clone {
		return t, false
	}

	col := t.Clone()''', '''	// avoid cloning if we don't have to
	if !clone {
		return t, false
	}
	if length == nil && synonym == ColumnTypeInvalid && !removeQuotes && !setDefaultNull && boolDefault == "" && t.tableID == "" {
		// nothing but the null state, of a column of its own
		t.SetNullState(nullState)
		return t, true
	}

	var col = t.Clone()''')],
 'a column of its own (in no table) with an explicit NULL and nothing else to normalize', 'the receiver is modified',
 demo='''
	c := model.NewTableColumn("a")
	c.SetType(model.ColumnTypeText).SetNullState(model.NullStateNull)
	c.Normalize()
	if c.NullState() != model.NullStateNull { t.Fatal("modified") }
''')
bug('C08-h', [('format/format.go', '''	switch col.Type() {
	case model.ColumnTypeEnum:
		buf.WriteString(" (")
		for enumValue := range col.EnumValues() {
			buf.WriteByte('\\'')
''', '''	switch col.Type() {
	case model.ColumnTypeEnum:
		buf.WriteString(" (")
		for raw := range col.EnumValues() {
			// trailing blanks do not count in the members
			enumValue := strings.TrimRight(raw, "\\u00a0 ")
			buf.WriteByte('\\'')
'''), ('format/format.go', '''import (
''', '''import (
	"strings"
''')],
 'an enum member that ends in blanks', 'they are lost',
 demo='''
	out := sqlOf(t, parse(t, "CREATE TABLE t (a ENUM('x ', 'y'))"))
	if !strings.Contains(out, "'x '") { t.Fatal(out) }
''')
bug('C21-g', [('cmd/schemadiff/schemadiff.go', '''	toSource, err := schemalex.NewSchemaSource(flag.Arg(1))
''', '''	toSource, err := schemalex.NewSchemaSource(strings.TrimPrefix(flag.Arg(1), "file://"))
'''), ('cmd/schemadiff/schemadiff.go', '''import (
''', '''import (
	"strings"
''')],
 'schemadiff with an escaped file:// URL (a %20, say) for the new schema', 'another file is read',
 sh=CMD + '''
d=$T
echo 'CREATE TABLE a (x INT);' > "$d/a.sql"; echo 'CREATE TABLE b (x INT);' > "$d/b c.sql"
./schemadiff "$d/a.sql" "file://$d/b%20c.sql" | grep -q 'CREATE TABLE `b`'
''')
bug('C19-h', [('source.go', '''			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
''', '''			if me, ok := err.(*mysql.MySQLError); ok && (me.Number == 1146 || me.Number == 1142) {
				continue // dropped in the meantime, or not ours
			}
			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE %s'`, util.Backquote(table))
''')],
 'the server answers that a listed table does not exist', 'the table is silently left out', 
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			return []string{"Tables"}, [][]string{{"a"}}, ""
		}
		return nil, nil, "no such table"
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err == nil {
		t.Fatal("no error")
	}
''')
