import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

# ---------------------------------------------------------------- C01
bug('C01-h', [('model/table_column.go', '''	ch := make(chan string, len(t.enumValues))''',
'''	ch := make(chan string, 255)''')],
 'an enum with more than 255 members',
 'formatting the accepted statement blocks for ever',
 imports=['fmt', 'time'],
 demo='''
	var l []string
	for i := 0; i < 300; i++ {
		l = append(l, fmt.Sprintf("'v%d'", i))
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		sqlOf(t, parse(t, "CREATE TABLE t (a ENUM("+strings.Join(l, ",")+"))"))
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("hangs")
	}
''')
bug('C01-i', [('parser.go', '''				strs, err := p.parseIdents(ctx, NUMBER, COMMA, NUMBER, RPAREN)
				if err != nil {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[2])
				col.SetLength(l)
''', '''				strs, err := p.parseIdents(ctx, NUMBER, COMMA, NUMBER, RPAREN)
				if len(strs) == 0 {
					return err
				}
				l := model.NewLength(strs[0])
				l.SetDecimal(strs[2])
				col.SetLength(l)
				if err != nil {
					return err
				}
'''), ('parser.go', '''			return nil, newParseError(ctx, t, "expected %v", idents)
		}
		strs = append(strs, t.Value)''', '''			return strs, newParseError(ctx, t, "expected %v", idents)
		}
		strs = append(strs, t.Value)''')],
 'a FLOAT, DOUBLE or REAL size that breaks off behind its first number',
 'index out of range',
 demo='''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if _, err := schemalex.New().ParseString("CREATE TABLE t (a REAL (5 5))"); err == nil {
		t.Fatal("accepted")
	}
''')
bug('C01-j', [('parser.go', '''	src, err := ioutil.ReadFile(fn)
	if err != nil {
		return nil, errors.Wrapf(err, `failed to open file %s`, fn)
	}
''', '''	f, err := os.Open(fn)
	if err != nil {
		return nil, errors.Wrapf(err, `failed to open file %s`, fn)
	}
	defer f.Close()
	src, err := ioutil.ReadAll(io.LimitReader(f, 1<<20))
	if err != nil {
		return nil, errors.Wrapf(err, `failed to open file %s`, fn)
	}
'''), ('parser.go', '''	"io/ioutil"
''', '''	"io"
	"io/ioutil"
	"os"
''')],
 'a file of more than a megabyte',
 'what is behind the first megabyte is lost, so a file is not parsed like the same text',
 imports=['io/ioutil', 'os'],
 demo='''
	f, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("CREATE TABLE a (a INT);\\n" + strings.Repeat(" ", 1<<20) + "CREATE TABLE b (a INT);\\n")
	f.Close()
	stmts, err := schemalex.New().ParseFile(f.Name())
	if err != nil || len(stmts) != 2 {
		t.Fatal(len(stmts), err)
	}
''')

# ---------------------------------------------------------------- C02
bug('C02-h', [('lexer.go', '''	default:
		l.cur.col++
	}
''', '''	case '\\t':
		l.cur.col += 8 - l.cur.col%8
	default:
		l.cur.col++
	}
''')],
 'a tab in front of the bad token on its line',
 'the column is not the character offset',
 demo='''
	_, err := schemalex.New().ParseString("\\n\\tCREATE VIEW")
	pe, ok := err.(schemalex.ParseError)
	if !ok || pe.Col() != 8 {
		t.Fatal(err)
	}
''')
bug('C02-i', [('errors.go', '''	// if this is more than 40 chars from t.Pos, truncate it
	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
	}
''', '''	// if this is more than 40 chars from t.Pos, truncate it
	if t.Pos-ctxbegin > 40 {
		ctxbegin = t.Pos - 40
		for ctxbegin < t.Pos && ctx.input[ctxbegin]&0xc0 == 0x80 {
			ctxbegin--
		}
	}
''')],
 'more than 40 bytes in front of the bad token, where the cut falls into the middle of a character',
 'the excerpt is longer than 40 bytes',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE t (a INT COMMENT '" + strings.Repeat("\\u00e9", 30) + "x' x")
	i := strings.Index(err.Error(), "\\"")
	j := strings.LastIndex(err.Error(), "\\"")
	if j-i-1 > 40 {
		t.Fatal(err)
	}
''')
bug('C02-j', [('parser.go', '''	case LIKE:
		// CREATE TABLE foo LIKE bar
		ctx.advance()
		ctx.skipWhiteSpaces()
		switch t := ctx.next(); t.Type {
		case IDENT, BACKTICK_IDENT:
			table.SetLikeTable(t.Value)
''', '''	case LIKE:
		// CREATE TABLE foo LIKE bar
		ctx.advance()
		ctx.skipWhiteSpaces()
		switch like := ctx.next(); like.Type {
		case IDENT, BACKTICK_IDENT:
			table.SetLikeTable(like.Value)
''')],
 'something else than a name behind LIKE',
 'the error points at LIKE and not at the bad token',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE t LIKE (x)")
	pe, ok := err.(schemalex.ParseError)
	if !ok || pe.Col() != 21 {
		t.Fatal(err)
	}
''')

# ---------------------------------------------------------------- C03
bug('C03-h', [('model/table_column.go', '''	t.defaultValue.Valid = true
	t.defaultValue.Value = v
''', '''	t.defaultValue.Valid = v != ""
	t.defaultValue.Value = v
''')],
 "a column with DEFAULT ''",
 'the default is lost',
 demo='''
	for col := range parse(t, "CREATE TABLE t (a CHAR(3) NOT NULL DEFAULT '')")[0].(model.Table).Columns() {
		if !col.HasDefault() {
			t.Fatal("no default")
		}
	}
''')
bug('C03-i', [('parser.go', '''		case SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT:
			quotes = true
''', '''		case SINGLE_QUOTE_IDENT:
			quotes = true
		case DOUBLE_QUOTE_IDENT:
			quotes = strings.TrimSpace(value) != ""
''')],
 'a table option with a blank string in double quotes',
 'its value loses its quotes',
 demo='''
	if s := sqlOf(t, parse(t, "CREATE TABLE t (a INT) COMMENT = \\" \\"")); !strings.Contains(s, "COMMENT = ' '") {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C04
bug('C04-f', [('lexer.go', '''			s := l.str()
			if typ, ok := keywordIdentMap[strings.ToUpper(s)]; ok {
				t = typ
			}
''', '''			s := l.str()
			typ, ok := keywordIdentMap[s]
			if !ok {
				switch s {
				case strings.ToLower(s):
					typ, ok = keywordIdentMap[strings.ToUpper(s)]
				case strings.Title(strings.ToLower(s)):
					typ, ok = keywordIdentMap[strings.ToUpper(s)]
				}
			}
			if ok {
				t = typ
			}
''')],
 'a keyword with an underscore, such as Auto_increment, or one in mixed case',
 'it is not understood as a keyword',
 demo='''
	parse(t, "cReAtE TABLE t (a INT)")
''')
bug('C04-g', [('lexer.go', '''				if !isSpace(l.peek()) {
					l.emit(ctx, DASH)
					continue OUTER
				}
''', '''				if r := l.peek(); r != ' ' && r != '\\t' && r != '\\n' {
					l.emit(ctx, DASH)
					continue OUTER
				}
''')],
 'an empty -- comment in a text with CR LF line ends',
 'the text is rejected',
 demo='''
	parse(t, "--\\r\\nCREATE TABLE t (a INT)")
''')
# ---------------------------------------------------------------- C06
bug('C06-g', [('model/table_column.go', '''	if t.HasDefault() {
		switch t.Type() {
		case ColumnTypeTinyInt, ColumnTypeSmallInt,
''', '''	if t.HasDefault() {
		switch t.Type() {
		case ColumnTypeYear, ColumnTypeBit:
			fallthrough
		case ColumnTypeTinyInt, ColumnTypeSmallInt,
'''), ('model/table_column.go', '''			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
''', '''			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
			ColumnTypeDate, ColumnTypeTime:
''')],
 'a quoted default that is a number, of a BIT, YEAR, DATE or TIME column',
 "BIT DEFAULT '1' (the character, 49) becomes the number 1",
 demo='''
	if s := sqlOf(t, parse(t, "CREATE TABLE t (a BIT(8) DEFAULT '1')")); !strings.Contains(s, "DEFAULT '1'") {
		t.Fatal(s)
	}
''')
bug('C06-h', [('model/table.go', '''	for opt := range t.Options() {
		tbl.AddOption(opt)
	}
	return tbl, true
''', '''	byID := make(map[string]bool)
	for opt := range t.Options() {
		if !byID[opt.ID()] {
			tbl.AddOption(opt)
		}
		byID[opt.ID()] = true
	}
	return tbl, true
''')],
 'a table with an option that is given twice, which needs normalization',
 'the second one, which is the one that counts, is lost',
 demo='''
	if s := sqlOf(t, parse(t, "CREATE TABLE t (a INT) COMMENT 'a' COMMENT 'b'")); !strings.HasSuffix(s, "COMMENT = 'b'") {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C08
bug('C08-g', [('internal/util/util.go', '''	return strings.Replace(s, "`", "``", -1)''', '''	if strings.HasPrefix(s, "`") && strings.HasSuffix(s, "`") {
		// has got its quotes
		s = strings.Trim(s, "`")
	}
	return strings.Replace(s, "`", "``", -1)''')],
 'a name that begins and ends with a backquote',
 'its outer backquotes are lost',
 demo='''
	if s := sqlOf(t, parse(t, "CREATE TABLE ```x``` (a INT)")); !strings.Contains(s, "```x```") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C09
bug('C09-f', [('lint/lint.go', '''	for i, stmt := range stmts {
		if i != 0 {''', '''	for i, stmt := range stmts {
		if t, ok := stmt.(model.Table); ok && t.IsTemporary() {
			continue
		}
		if i != 0 {'''), ('lint/lint.go', '''	"github.com/schemalex/schemalex/format"
''', '''	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
''')],
 'a temporary table',
 'it is left out',
 demo='''
	if s := lintOf(t, "CREATE TEMPORARY TABLE t (a INT)"); s == "" {
		t.Fatal(s)
	}
''')
# ---------------------------------------------------------------- C10
bug('C10-e', [('model/table_column.go', '''	if typ := t.Type(); typ.SynonymType() != typ {
		clone = true
		synonym = typ.SynonymType()
	}
''', '''	if typ := t.Type(); typ.SynonymType() != typ && !(t.IsUnsigned() && typ == ColumnTypeNumeric) {
		clone = true
		synonym = typ.SynonymType()
	}
''')],
 'a NUMERIC UNSIGNED column compared with a DECIMAL UNSIGNED one',
 'they are not the same',
 demo='''
	if s := diffOf(t, "CREATE TABLE t (a NUMERIC(5,2) UNSIGNED)", "CREATE TABLE t (a DECIMAL(5,2) UNSIGNED)"); s != "" {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C11
bug('C11-g', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
		if before, after := beforeColumnStmt.Clone(), afterColumnStmt.Clone(); before.Type() == after.Type() && before.HasLength() && after.HasLength() &&
			before.Length().Length() == after.Length().Length() && before.IsUnsigned() == after.IsUnsigned() {
			// the scale alone makes no difference
			after.SetLength(before.Length())
			if reflect.DeepEqual(before, after) {
				continue
			}
		}
''')],
 'a column of which nothing but the scale changes',
 'the column is not changed',
 demo='''
	if s := diffOf(t, "CREATE TABLE t (a DECIMAL(5,2))", "CREATE TABLE t (a DECIMAL(5,3))"); s == "" {
		t.Fatal(s)
	}
''')
bug('C13-c', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		var before, after bytes.Buffer
		if err := format.SQL(&before, beforeColumnStmt); err != nil {
			return 0, err
		}
		if err := format.SQL(&after, afterColumnStmt); err != nil {
			return 0, err
		}
		if strings.Join(strings.Fields(before.String()), " ") == strings.Join(strings.Fields(after.String()), " ") {
			continue
		}
'''), ('diff/diff.go', '''	"reflect"
	"sort"
''', '''	"sort"
	"strings"
''')],
 'a comment or default of which only the white space changes',
 'the change is not noticed',
 demo='''
	if s := diffOf(t, "CREATE TABLE t (a INT COMMENT 'a b')", "CREATE TABLE t (a INT COMMENT 'a  b')"); s == "" {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C14
bug('C14-d', [('diff/diff.go', '''	for i, id := range inOrder(ids, tableIDs(ctx.from)) {
		if i > 0 {
			buf.WriteByte('\\n')
		}

		stmt, ok := ctx.from.Lookup(id)
''', '''	for i, v := range ids.ToSlice() {
		if i > 0 {
			buf.WriteByte('\\n')
		}

		id := v.(string)
		stmt, ok := ctx.from.Lookup(id)
''')], 'two tables are dropped', 'the order of the statements changes from run to run', demo='''
	f := "CREATE TABLE a (a INT);CREATE TABLE b (a INT);CREATE TABLE c (a INT);CREATE TABLE d (a INT);"
	w := diffOf(t, f, "")
	for i := 0; i < 100; i++ {
		if s := diffOf(t, f, ""); s != w {
			t.Fatal(s, w)
		}
	}
''')

# ---------------------------------------------------------------- C15
bug('C15-e', [('diff/diff.go', '''	if txn {
		buf.WriteString("\\n\\nSET FOREIGN_KEY_CHECKS = 1;\\n\\nCOMMIT;")
	}
''', '''	if txn && len(from)+len(to) > 0 {
		buf.WriteString("\\n\\nSET FOREIGN_KEY_CHECKS = 1;\\n\\nCOMMIT;")
	}
''')],
 'two empty schemas with the transaction option',
 'the epilogue is missing',
 demo='''
	if s := diffOf(t, "", "", diff.WithTransaction(true)); !strings.Contains(s, "COMMIT") {
		t.Fatal(s)
	}
''')
bug('C15-f', [('diff/diff.go', '''	if err := from.WriteSchema(&buf); err != nil {
		return errors.Wrapf(err, `failed to retrieve schema from "from" source %s`, from)
	}
	fromStr := buf.String()
	buf.Reset()
''', '''	if err := from.WriteSchema(&buf); err != nil && buf.Len() == 0 {
		return errors.Wrapf(err, `failed to retrieve schema from "from" source %s`, from)
	}
	fromStr := buf.String()
	buf.Reset()
''')],
 'a source that fails after it has delivered a part',
 'a part of the schema is taken for all of it',
 decl='''
type failing struct{ r *strings.Reader }

func (f *failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err != nil {
		return n, context.Canceled
	}
	return n, nil
}
''',
 demo='''
	f := &failing{strings.NewReader("CREATE TABLE t (a INT);")}
	var buf bytes.Buffer
	if err := diff.Sources(&buf, schemalex.NewReaderSource(f), schemalex.NewReaderSource(strings.NewReader(""))); err == nil {
		t.Fatal(buf.String())
	}
''')

# ---------------------------------------------------------------- C16
bug('C16-c', [('model/reference.go', '''func (r *reference) ID() string {
	h := sha256.New()
''', '''var refHash = sha256.New()

func (r *reference) ID() string {
	h := refHash
	h.Reset()
''')],
 'two goroutines that need the identifiers of indexes with references',
 'they share a hash: a data race, and wrong identifiers',
 race=True, imports=['sync'],
 demo='''
	ref := "CREATE TABLE a (a INT, b INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES b (a), CONSTRAINT g FOREIGN KEY (b) REFERENCES b (b));"
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				var buf bytes.Buffer
				if diff.Strings(&buf, ref, ref); buf.Len() > 0 {
					t.Error(buf.String())
				}
			}
		}()
	}
	wg.Wait()
''')

# ---------------------------------------------------------------- C18
bug('C18-g', [('source.go', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''', '''	// this is a schema, not a dump of the data
	if _, err := io.Copy(dst, io.LimitReader(f, 4<<20)); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''')],
 'a file of more than four megabytes',
 'its end is lost',
 imports=['io/ioutil', 'os'],
 demo='''
	f, err := ioutil.TempFile("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(strings.Repeat("x", 5<<20))
	f.Close()
	var buf bytes.Buffer
	if err := schemalex.NewLocalFileSource(f.Name()).WriteSchema(&buf); err != nil || buf.Len() != 5<<20 {
		t.Fatal(err, buf.Len())
	}
''')
bug('C18-h', [('source.go', '''	cmd.Stdout = &out
	cmd.Dir = s.dir
''', '''	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Dir = s.dir
''')],
 'a git that writes a warning to its standard error',
 'the warning is part of the schema',
 imports=['io/ioutil', 'os', 'os/exec', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	c := exec.Command("sh", "-c", "git init -q . && echo 'SELECT' > f && git add f && git -c user.name=a -c user.email=a@b commit -qm x && git branch HEAD2 && git branch f && cp .git/refs/heads/f .git/refs/tags/f")
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	_ = filepath.Join
	var buf bytes.Buffer
	if err := schemalex.NewLocalGitSource(dir, "f", "f").WriteSchema(&buf); err != nil || buf.String() != "SELECT\\n" {
		t.Fatal(err, buf.String())
	}
''')
bug('C18-i', [('source.go', '''	if uri == "-" {
		return NewReaderSource(os.Stdin), nil
	}
''', '''	if strings.TrimSpace(uri) == "-" || uri == "/dev/stdin" {
		return NewReaderSource(os.Stdin), nil
	}
''')],
 'a file whose name is a dash with white space',
 'standard input is read instead',
 imports=['io/ioutil', 'os'],
 demo='''
	dir, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	wd, _ := os.Getwd()
	os.Chdir(dir)
	defer os.Chdir(wd)
	ioutil.WriteFile(" -", []byte("x"), 0600)
	src, err := schemalex.NewSchemaSource(" -")
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.String() != "x" {
		t.Fatal(err, buf.String())
	}
''')

# ---------------------------------------------------------------- C20
bug('C20-d', [('lint/lint.go', '''		if _, err := dst.Write([]byte{';'}); err != nil {
			return errors.Wrap(err, `failed to write to destination`)
		}
''', '''		if _, err := dst.Write([]byte{';'}); err != nil && i < len(stmts)-1 {
			return errors.Wrap(err, `failed to write to destination`)
		}
''')],
 'a destination that fails at the very last byte',
 'no error is returned',
 decl='''
type short struct{ n int }

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.n {
		n := s.n
		s.n = 0
		return n, context.Canceled
	}
	s.n -= len(p)
	return len(p), nil
}
''',
 demo='''
	sql := "CREATE TABLE t (a INT)"
	n := len(lintOf(t, sql))
	if err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(sql)), &short{n - 1}); err == nil {
		t.Fatal("no error")
	}
''')

# ---------------------------------------------------------------- C22
bug('C22-f', [('model/reference.go', '''		fmt.Fprintf(h, "%q", col.ID())
		fmt.Fprintf(h, ".")
''', '''		fmt.Fprintf(h, "%q", col.Name())
		fmt.Fprintf(h, ".")
''')],
 'two references that differ in the length of a column',
 'they have the same identifier',
 demo='''
	a, b := model.NewReference(), model.NewReference()
	a.SetTableName("t")
	b.SetTableName("t")
	a.AddColumns(model.NewIndexColumn("c").SetLength("1"))
	b.AddColumns(model.NewIndexColumn("c").SetLength("2"))
	if a.ID() == b.ID() {
		t.Fatal()
	}
''')

# ---------------------------------------------------------------- C23
bug('C23-f', [('model/table.go', '''	idx, ok := t.columnNameToIndex[id]
	if !ok || idx == 0 {
		return nil, false
	}

	return t.columns[idx-1], true
''', '''	var before TableColumn
	for _, col := range t.columns {
		if col.ID() == id {
			return before, before != nil
		}
		if col.NullState() != NullStateNull || !col.IsPrimary() {
			before = col
		}
	}
	return nil, false
''')],
 'a column behind one that is NULL PRIMARY KEY (built through the API)',
 'its predecessor is another column than the one in front of it',
 demo='''
	tbl := model.NewTable("t")
	tbl.AddColumn(model.NewTableColumn("a"))
	tbl.AddColumn(model.NewTableColumn("b").SetPrimary(true).SetNullState(model.NullStateNull))
	tbl.AddColumn(model.NewTableColumn("c"))
	if col, ok := tbl.LookupColumnBefore("tablecol#c"); !ok || col.Name() != "b" {
		t.Fatal(col)
	}
''')

# ---------------------------------------------------------------- C24

# ---------------------------------------------------------------- C19
bug('C19-d', [('source.go', '''	defer db.Close()

	tableRows''', '''	defer db.Close()
	db.SetMaxOpenConns(1) // all from the same session

	tableRows''')],
 'a server with at least one table',
 'the second query waits for ever for the connection of the first',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			return []string{"Tables"}, [][]string{{"a"}}, ""
		}
		return []string{"Table", "Create Table"}, [][]string{{"a", "CREATE TABLE `a` (`x` int)"}}, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan error)
	go func() { done <- src.WriteSchema(&bytes.Buffer{}) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(20 * time.Second):
		t.Fatal("hangs")
	}
''')
bug('C19-e', [('source.go', '''		if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
		}
		// TODO remove''', '''		if strings.HasPrefix(table, "_") {
			// left behind by online schema changes (_foo_gho, _foo_old)
			continue
		}
		if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
		}
		// TODO remove''')],
 'a table whose name begins with an underscore',
 'the table is left out',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			return []string{"Tables"}, [][]string{{"_a"}}, ""
		}
		return []string{"Table", "Create Table"}, [][]string{{"_a", "CREATE TABLE `_a` (`x` int)"}}, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.Len() == 0 {
		t.Fatal(err, buf.String())
	}
''')
bug('C19-f', [('source.go', '''"SHOW CREATE TABLE "+util.Backquote(table)).Scan''', '''fmt.Sprintf("SHOW CREATE TABLE "+util.Backquote(table))).Scan''')],
 'a table with a percent sign in its name',
 'the name is sent in another form',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		switch q {
		case "SHOW TABLES":
			return []string{"Tables"}, [][]string{{"100%s"}}, ""
		case "SHOW CREATE TABLE `100%s`":
			return []string{"Table", "Create Table"}, [][]string{{"100%s", "CREATE TABLE `100%s` (`x` int)"}}, ""
		}
		return nil, nil, "no such table"
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.Len() == 0 {
		t.Fatal(err, buf.String())
	}
''')
bug('C19-g', [('source.go', '''	for tableRows.Next() {
		if err = tableRows.Scan(&table); err != nil {
			return errors.Wrap(err, `failed to scan tables`)
		}
''', '''	seen := make(map[string]bool)
	for tableRows.Next() {
		if err = tableRows.Scan(&table); err != nil {
			return errors.Wrap(err, `failed to scan tables`)
		}
		if seen[strings.ToLower(table)] {
			continue
		}
		seen[strings.ToLower(table)] = true
''')],
 'two tables whose names differ in nothing but case',
 'the second one is left out',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			return []string{"Tables"}, [][]string{{"a"}, {"A"}}, ""
		}
		return []string{"Table", "Create Table"}, [][]string{{"x", "CREATE TABLE `x` (`x` int)"}}, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || strings.Count(buf.String(), "CREATE") != 2 {
		t.Fatal(err, buf.String())
	}
''')
# ---------------------------------------------------------------- C24
bug('C24-d', [('source.go', '''	return sql.Open("mysql", cfg.FormatDSN())''', '''	if cfg.DBName == "" {
		// nothing to list without one
		cfg.DBName = cfg.User
	}
	return sql.Open("mysql", cfg.FormatDSN())''')],
 'a DSN without a database',
 'the connection asks for a database named like the user',
 decl=MYSQL.replace('''	if _, err := readPacket(c, &seq); err != nil {
		return
	}
	ok :=''', '''	if b, err := readPacket(c, &seq); err != nil {
		return
	} else {
		s.mu.Lock()
		s.login = string(b)
		s.mu.Unlock()
	}
	ok :=''').replace("	open  int\n", "	open  int\n	login string\n"), imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		return []string{"Tables"}, nil, ""
	})
	src, err := schemalex.NewSchemaSource(strings.Replace(strings.Replace(s.dsn(), "/db", "/", 1), "root", "someone", 1))
	if err != nil {
		t.Fatal(err)
	}
	src.WriteSchema(&bytes.Buffer{})
	s.mu.Lock()
	defer s.mu.Unlock()
	if strings.Count(s.login, "someone") != 1 {
		t.Fatalf("%q", s.login)
	}
''')
bug('C24-e', [('source.go', '''		delete(cfg.Params, "ssl-ca")
''', '''		for k := range cfg.Params {
			if strings.HasPrefix(k, "ssl") {
				delete(cfg.Params, k)
			}
		}
		delete(cfg.Params, "ssl-ca")
''')], 'x', 'x', demo='t.Fatal()')
BUGS.pop()
# ---------------------------------------------------------------- C21
bug('C21-d', [('cmd/schemalint/schemalint.go', '''	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)''', '''	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY, 0644)''')],
 'schemalint with an output file that was longer before',
 'the end of the old content is left in the file',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql
head -c 5000 /dev/zero | tr '\\0' x > out
./schemalint -o out a.sql || exit 1
grep -q xxx out && exit 1
exit 0
''')
bug('C21-e', [('cmd/schemadiff/schemadiff.go', '''	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
''', '''	if outfile == flag.Arg(0) || outfile == flag.Arg(1) {
		outfile = ""
	}
	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
''')],
 'schemadiff whose output file is one of its inputs',
 'the result goes to standard output instead',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql
echo 'CREATE TABLE b (x INT);' > b.sql
./schemadiff -o b.sql a.sql b.sql || exit 1
grep -q COMMIT b.sql || exit 1
''')
bug('C21-f', [('cmd/schemalex/schemalex.go', '''	if err := _main(); err != nil {
		log.Fatal(err)
	}
''', '''	if err := _main(); err != nil {
		log.SetOutput(os.Stdout)
		log.Fatal(err)
	}
''')],
 'schemalex with a source that can not be parsed',
 'the error is written to standard output',
 sh=CMD + '''
echo 'CREATE TABLE a (x' > a.sql
[ -z "$(./schemalex a.sql a.sql 2>/dev/null)" ] || exit 1
''')
# ---------------------------------------------------------------- C17
bug('C17-f', [('parser.go', '''	cctx, cancel := context.WithCancel(context.TODO())
	defer cancel()
''', '''	cctx, cancel := context.WithCancel(context.TODO())
	if len(src) < 1<<12 {
		// a longer one may still be read by the lexer
		defer cancel()
	}
	_ = cancel
''')],
 'an error in a text of more than 4 kB',
 'the goroutine of the lexer stays',
 imports=['runtime', 'time'],
 demo='''
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		schemalex.New().ParseString("x" + strings.Repeat(" y", 1<<12))
	}
	time.Sleep(300 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 {
		t.Fatal(n, m)
	}
''')
bug('C17-g', [('source.go', '''	if err := cmd.Run(); err != nil {
		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
	}

	return NewReaderSource(&out).WriteSchema(dst)
''', '''	cmd.Stdout = nil
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return errors.Wrap(err, `failed to create pipe`)
	}
	if err := cmd.Start(); err != nil {
		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
	}
	if _, err := out.ReadFrom(io.LimitReader(pipe, 1<<26)); err != nil {
		return errors.Wrapf(err, `failed to read from git command: %s`, cmd.Args)
	}
	if out.Len() > 0 {
		// git has found it
		return NewReaderSource(&out).WriteSchema(dst)
	}
	if err := cmd.Wait(); err != nil {
		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
	}
	return nil
''')],
 'a git source that can be read',
 'the git process is not waited for, and the pipe stays open',
 imports=['io/ioutil', 'os', 'os/exec'],
 demo='''
	dir, err := ioutil.TempDir("", "")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	c := exec.Command("sh", "-c", "git init -q . && echo 'SELECT' > f && git add f && git -c user.name=a -c user.email=a@b commit -qm x")
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	count := func() int {
		l, _ := ioutil.ReadDir("/proc/self/fd")
		return len(l)
	}
	n := count()
	for i := 0; i < 10; i++ {
		var buf bytes.Buffer
		if err := schemalex.NewLocalGitSource(dir, "f", "HEAD").WriteSchema(&buf); err != nil || buf.String() != "SELECT\\n" {
			t.Fatal(err, buf.String())
		}
	}
	if m := count(); m > n+5 {
		t.Fatal(n, m)
	}
''')
# ---------------------------------------------------------------- C07
bug('C07-f', [('format/format.go', '''			if opt.Key() != "WITH PARSER" {
				continue
			}
			buf.WriteByte(' ')
''', '''			if opt.Key() != "WITH PARSER" || lch > 1 {
				continue
			}
			buf.WriteByte(' ')
''')],
 'a FULLTEXT index of several columns with a parser',
 'the parser is not in the formatted text',
 demo='''
	if s := sqlOf(t, parse(t, "CREATE TABLE t (a TEXT, b TEXT, FULLTEXT KEY f (a, b) WITH PARSER ngram)")); !strings.Contains(s, "WITH PARSER") {
		t.Fatal(s)
	}
''')
bug('C05-f', [('parser.go', '''				case SEMICOLON:
					ctx.advance()
					fallthrough
				case EOF:
					break S1
''', '''				case SEMICOLON:
					ctx.advance()
					if tok := ctx.peek(); tok.Type == SET {
						continue
					}
					fallthrough
				case EOF:
					break S1
''')], 'x', 'x', demo='')
BUGS.pop()
bug('C05-g', [('parser.go', '''		case DROP, SET, USE:
			// We don't do anything about these
		S1:
			for {
				switch t := ctx.peek(); t.Type {
				case SEMICOLON:
''', '''		case DROP, SET, USE:
			// We don't do anything about these
			drop := t.Type == DROP
			var names []string
		S1:
			for {
				switch t := ctx.peek(); t.Type {
				case IDENT, BACKTICK_IDENT, TABLE:
					names = append(names, t.Value)
					ctx.advance()
				case SEMICOLON:
					for i := len(stmts) - 1; i >= 0 && drop && len(names) == 2; i-- {
						if table, ok := stmts[i].(model.Table); ok && table.Name() == names[1] {
							stmts = append(stmts[:i], stmts[i+1:]...)
						}
					}
''')],
 'a DROP of one name behind the CREATE TABLE of that name',
 'the table is not in the result, which has one table less than the script has CREATE TABLE statements',
 demo='''
	if stmts := parse(t, "CREATE TABLE a (a INT); DROP TABLE a;"); len(stmts) != 1 {
		t.Fatal(len(stmts))
	}
''')
bug('C05-h', [('lexer.go', '''			if typ, ok := keywordIdentMap[strings.ToUpper(s)]; ok {
				t = typ
			}
''', '''			if typ, ok := keywordIdentMap[strings.ToUpper(s)]; ok {
				t = typ
			}
			if strings.EqualFold(s, "delimiter") {
				// a command of the client
				l.runToEOL()
				t = COMMENT_IDENT
			}
''')],
 'a table or column named delimiter',
 'the rest of the line is taken for a comment',
 demo='''
	if _, err := schemalex.New().ParseString("CREATE TABLE delimiter (a INT)"); err != nil {
		t.Fatal(err)
	}
''')
