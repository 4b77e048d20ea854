BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

MYSQL = r'''
// a tiny MySQL server: tables in order, a reply per query
type fakeSrv struct {
	ln    net.Listener
	reply func(q string) (cols []string, rows [][]string, err string)
	mu    sync.Mutex
	open  int
}

func startSrv(t *testing.T, reply func(q string) ([]string, [][]string, string)) *fakeSrv {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &fakeSrv{ln: ln, reply: reply}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.open++
			s.mu.Unlock()
			go func() {
				s.serve(c)
				c.Close()
				s.mu.Lock()
				s.open--
				s.mu.Unlock()
			}()
		}
	}()
	return s
}

func (s *fakeSrv) dsn() string { return "mysql://root@tcp(" + s.ln.Addr().String() + ")/db" }

func (s *fakeSrv) left() int {
	for i := 0; i < 100; i++ {
		s.mu.Lock()
		n := s.open
		s.mu.Unlock()
		if n == 0 {
			return 0
		}
		time.Sleep(10 * time.Millisecond)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

func packet(c net.Conn, seq *byte, b []byte) {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), *seq}
	*seq++
	c.Write(append(h, b...))
}

func readPacket(c net.Conn, seq *byte) ([]byte, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(c, h); err != nil {
		return nil, err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	_, err := io.ReadFull(c, b)
	*seq = h[3] + 1
	return b, err
}

func lenc(s string) []byte {
	if len(s) < 251 {
		return append([]byte{byte(len(s))}, s...)
	}
	return append([]byte{0xfc, byte(len(s)), byte(len(s) >> 8)}, s...)
}

func (s *fakeSrv) serve(c net.Conn) {
	var seq byte
	hs := append([]byte{10}, "5.7.0\x00"...)
	hs = append(hs, 1, 0, 0, 0)
	hs = append(hs, "abcdefgh\x00"...)
	hs = append(hs, 0x01, 0xa2, 33, 2, 0, 0x08, 0, 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, "ijklmnopqrst\x00mysql_native_password\x00"...)
	packet(c, &seq, hs)
	if _, err := readPacket(c, &seq); err != nil {
		return
	}
	ok := []byte{0, 0, 0, 2, 0, 0, 0}
	packet(c, &seq, ok)
	eof := []byte{0xfe, 0, 0, 2, 0}
	for {
		b, err := readPacket(c, &seq)
		if err != nil || len(b) == 0 || b[0] == 1 {
			return
		}
		if b[0] != 3 {
			packet(c, &seq, ok)
			continue
		}
		cols, rows, msg := s.reply(string(b[1:]))
		if msg != "" {
			packet(c, &seq, append([]byte{0xff, 0x7a, 0x04, '#', '4', '2', 'S', '0', '2'}, msg...))
			continue
		}
		packet(c, &seq, []byte{byte(len(cols))})
		for _, n := range cols {
			d := []byte{}
			for _, x := range []string{"def", "", "", "", n, ""} {
				d = append(d, lenc(x)...)
			}
			packet(c, &seq, append(d, 0x0c, 33, 0, 0xff, 0xff, 0, 0, 0xfd, 0, 0, 0, 0, 0))
		}
		packet(c, &seq, eof)
		for _, r := range rows {
			d := []byte{}
			for _, v := range r {
				d = append(d, lenc(v)...)
			}
			packet(c, &seq, d)
		}
		packet(c, &seq, eof)
	}
}
'''
MYIMP = ['io', 'net', 'sync', 'time']

# ---------------------------------------------------------------- C08 (continued)
bug('C08-a', [('parser.go', '''				col.SetComment(t.Value)''', '''				col.SetComment(strings.TrimSpace(t.Value))''')],
 'a column comment that begins or ends with white space',
 'the white space is lost',
 demo='''
	s := sqlOf(t, parse(t, "CREATE TABLE t (a INT COMMENT ' x\\\\n\\n')"))
	if !strings.Contains(s, "' x\\\\n\\n'") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C09
bug('C09-a', [('lint/lint.go', '''	stmts, err := p.Parse(buf.Bytes())''', '''	stmts, err := p.Parse(bytes.Replace(buf.Bytes(), []byte("\\r\\n"), []byte("\\n"), -1))''')],
 'a string with a carriage return and a line feed in it',
 'the linted schema has another content',
 demo='''
	s := lintOf(t, "CREATE TABLE t (\\r\\n a INT COMMENT 'x\\r\\ny'\\r\\n);\\r\\n")
	if !strings.Contains(s, "'x\\r\\ny'") {
		t.Fatalf("%q", s)
	}
''')

bug('C09-b', [('format/format.go', '''			buf.WriteByte('\\n')
			if err := formatTableColumn(newctx, col); err != nil {
				return err
			}
''', '''			var cbuf bytes.Buffer
			colctx := newctx.clone()
			colctx.curIndent = ""
			colctx.dst = &cbuf
			if err := formatTableColumn(colctx, col); err != nil {
				return err
			}
			// indent every line of it
			buf.WriteString(strings.Replace("\\n"+cbuf.String(), "\\n", "\\n"+newctx.curIndent, -1))
'''), ('format/format.go', '''import (
	"bytes"
	"io"
''', '''import (
	"bytes"
	"io"
	"strings"
''')],
 'a string with a line feed in it, formatted with an indent',
 'the indent gets into the string, and grows with every run',
 demo='''
	var buf bytes.Buffer
	src := schemalex.NewReaderSource(strings.NewReader("CREATE TABLE t (a INT COMMENT 'x\\ny')"))
	if err := lint.New().Run(context.Background(), src, &buf, lint.WithIndent(" ", 2)); err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(buf.String(), "'x\\ny'") {
		t.Fatal(buf.String())
	}
''')

bug('C09-c', [('lint/lint.go', '''	for i, stmt := range stmts {
		if i != 0 {''', '''	for i, stmt := range stmts {
		if s, _ := stmts.Lookup(stmt.ID()); s != stmt {
			// declared twice
			continue
		}
		if i != 0 {''')],
 'a schema that declares a table name twice',
 'the second declaration is not printed',
 demo='''
	s := lintOf(t, "CREATE TABLE t (a INT); CREATE TEMPORARY TABLE t (b INT);")
	if strings.Count(s, "CREATE") != 2 {
		t.Fatal(s)
	}
''')
BUGS[-1]['edits'][0] = ('lint/lint.go', '''	for i, stmt := range stmts {
		if i != 0 {''', '''	for _, stmt := range stmts {
		if s, _ := stmts.Lookup(stmt.ID()); s != stmt {
			// declared twice
			continue
		}
		if stmt != stmts[0] {''')

# ---------------------------------------------------------------- C10
bug('C10-a', [('model/columns_gen.go', '''	case ColumnTypeReal:
		return ColumnTypeDouble
	}
	return c''', '''	case ColumnTypeReal:
		return ColumnTypeFloat
	}
	return c''')],
 'a REAL column compared with a DOUBLE or FLOAT one',
 'equivalent columns differ, and columns of different types are the same',
 demo='''
	if s := diffOf(t, "CREATE TABLE t (a REAL)", "CREATE TABLE t (a DOUBLE)"); s != "" {
		t.Fatal(s)
	}
''')

bug('C10-b', [('model/table.go', '''			index.SetName(ncol.Name())
			index.SetType(IndexTypeNone)''', '''			index.SetName(ncol.Name())
			if n := len(additionalIndexes); n > 0 && additionalIndexes[n-1].Name() > index.Name() {
				// names that are generated are numbered
				index.SetName(ncol.Name() + "_2")
			}
			index.SetType(IndexTypeNone)''')], '', '')
BUGS.pop()
bug('C10-b', [('model/table_column.go', '''	case ColumnTypeSmallInt:
		size = 6 - unsigned''', '''	case ColumnTypeSmallInt:
		size = 6 - unsigned
		if t.IsZeroFill() {
			// implies UNSIGNED
			size = 5
		}''')], '', '')
BUGS.pop()
bug('C10-b', [('model/table_column.go', '''	if t.IsUnsigned() {
		unsigned++
	}
	var size int''', '''	if t.IsUnsigned() && !t.IsZeroFill() {
		unsigned++
	}
	var size int''')],
 'an integer column that is both UNSIGNED and ZEROFILL and has no size',
 'it is not the same as the one with its native size',
 demo='''
	if s := diffOf(t, "CREATE TABLE t (a INT UNSIGNED ZEROFILL)", "CREATE TABLE t (a INT(10) UNSIGNED ZEROFILL)"); s != "" {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C11
bug('C11-a', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		if same, err := sameColumn(beforeColumnStmt, afterColumnStmt); err != nil {
			return 0, err
		} else if same {
			continue
		}
'''), ('diff/diff.go', '''func dropTableIndexes(''', '''// sameColumn compares the definitions, in which the case of words makes no difference
func sameColumn(a, b model.TableColumn) (bool, error) {
	var abuf, bbuf bytes.Buffer
	if err := format.SQL(&abuf, a); err != nil {
		return false, err
	}
	if err := format.SQL(&bbuf, b); err != nil {
		return false, err
	}
	return strings.EqualFold(abuf.String(), bbuf.String()), nil
}

func dropTableIndexes('''), ('diff/diff.go', '''	"reflect"
	"sort"
''', '''	"sort"
	"strings"
''')],
 'a column whose old and new definition differ in nothing but the case of a string (default, comment, enum or set member)',
 'the column is not changed',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a ENUM('x','y') DEFAULT 'x')", "CREATE TABLE t (a ENUM('x','Y') DEFAULT 'x')")
	if !strings.Contains(s, "CHANGE COLUMN") {
		t.Fatalf("%q", s)
	}
''')

bug('C11-b', [('diff/diff.go', '''		if hasBeforeCol {
			buf.WriteString(" AFTER `")''', '''		if order, _ := ctx.to.LookupColumnOrder(stmt.ID()); hasBeforeCol && order == len(ctx.to.Columns())-1 {
			// it is appended
		} else if hasBeforeCol {
			buf.WriteString(" AFTER `")''')],
 '', '', demo='')
BUGS.pop()

bug('C11-b', [('diff/diff.go', '''	for _, v := range ctx.toColumns.Intersect(ctx.fromColumns).ToSlice() {
		columnName := v.(string)
		if nextColumnName, ok := beforeToNext[columnName]; ok {''', '''	for col := range ctx.from.Columns() {
		columnName := col.ID()
		if nextColumnName, ok := beforeToNext[columnName]; ok && nextColumnName < columnName {
			// it has the same place when it is added with the others below
			continue
		} else if ok {''')],
 '', '', demo='')
BUGS.pop()

bug('C11-b', [('model/table.go', '''	for opt := range t.Options() {
		tbl.AddOption(opt)
	}
	return tbl, true''', '''	for opt := range t.Options() {
		tbl.AddOption(opt)
	}
	return tbl, true''')], '', '')
BUGS.pop()

bug('C11-b', [('diff/diff.go', '''		if indexStmt.IsForeignKey() {
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {''', '''		if indexStmt.IsForeignKey() {
			if n := len(lazy); n > 0 && lazy[n-1].Reference().ID() == indexStmt.Reference().ID() {
				// the same constraint again
				lazy = lazy[:n-1]
			}
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {''')], '', '')
BUGS.pop()

bug('C11-b', [('diff/diff.go', '''		if indexStmt.IsForeignKey() {
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {''', '''		if ref := indexStmt.Reference(); ref != nil && ref.TableName() != ctx.to.Name() {
			lazy = append(lazy, indexStmt)
			continue
		}
		if buf.Len() > 0 {''')],
 'a foreign key that references its own table, added together with an index of its own that stands behind it',
 'the foreign key is added before the index it needs, whose name is then taken by the implicit index',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a INT, b INT, KEY b (b))",
		"CREATE TABLE t (a INT, b INT, KEY b (b), CONSTRAINT k FOREIGN KEY (a) REFERENCES t (b), UNIQUE KEY k (a))")
	if strings.Index(s, "UNIQUE INDEX `k`") > strings.Index(s, "FOREIGN KEY") {
		t.Fatal(s)
	}
''')
BUGS[-1]['id'] = 'C12-c'; BUGS[-1]['prop'] = 'C12'

# ---------------------------------------------------------------- C12
bug('C12-a', [('diff/diff.go', '''			icol, _ := ctx.to.LookupColumnOrder(columnNames[i])
			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
			return icol < jcol''', '''			// a column stands behind the one it comes after
			if nextToBefore[columnNames[i]] == columnNames[j] {
				return false
			}
			return nextToBefore[columnNames[j]] == columnNames[i] || columnNames[i] < columnNames[j]''')],
 'three or more new columns in a row whose names are not in alphabetical order',
 'a column is added behind one that does not exist yet',
 demo='''
	for _, names := range []string{"d c b e", "z y x w", "m z a q b", "c a b d", "x c a b y"} {
		var to []string
		for _, n := range strings.Fields(names) {
			to = append(to, n+" INT")
		}
		for i := 0; i < 20; i++ {
			s := diffOf(t, "CREATE TABLE t (id INT)", "CREATE TABLE t (id INT, "+strings.Join(to, ", ")+")")
			have := map[string]bool{"id": true}
			for _, l := range strings.Split(s, "\\n") {
				f := strings.Split(l, "`")
				if !have[f[5]] {
					t.Fatalf("%s: %s", l, s)
				}
				have[f[3]] = true
			}
		}
	}
''')

bug('C12-b', [('diff/diff.go', '''		if indexStmt.HasSymbol() {
			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
		} else {
			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
		}
		buf.WriteString("`;")
	}
	// drop index after drop CONSTRAINT''', '''		if indexStmt.HasName() {
			buf.WriteString(util.EscapeBackquote(indexStmt.Name()))
		} else {
			buf.WriteString(util.EscapeBackquote(indexStmt.Symbol()))
		}
		buf.WriteString("`;")
	}
	// drop index after drop CONSTRAINT''')],
 'dropping a foreign key that has both a symbol and an index name',
 'the statement names the index, and not the constraint',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a INT, CONSTRAINT c FOREIGN KEY n (a) REFERENCES u (b))", "CREATE TABLE t (a INT, KEY c (a))")
	if !strings.Contains(s, "DROP FOREIGN KEY `c`") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C13
bug('C13-a', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		if equalColumns(beforeColumnStmt, afterColumnStmt) {
			continue
		}
'''), ('diff/diff.go', '''func dropTableIndexes(''', '''func equalColumns(a, b model.TableColumn) bool {
	if a.HasLength() != b.HasLength() || a.HasLength() && !reflect.DeepEqual(a.Length(), b.Length()) {
		return false
	}
	if a.Type() != b.Type() || a.NullState() != b.NullState() {
		return false
	}
	if a.IsAutoIncrement() != b.IsAutoIncrement() || a.IsBinary() != b.IsBinary() ||
		a.IsKey() != b.IsKey() || a.IsUnsigned() != b.IsUnsigned() || a.IsZeroFill() != b.IsZeroFill() {
		return false
	}
	if a.HasDefault() != b.HasDefault() || a.Default() != b.Default() || a.IsQuotedDefault() != b.IsQuotedDefault() {
		return false
	}
	if a.Comment() != b.Comment() || a.AutoUpdate() != b.AutoUpdate() ||
		a.CharacterSet() != b.CharacterSet() || a.Collation() != b.Collation() {
		return false
	}
	values := func(ch chan string) map[string]bool {
		m := make(map[string]bool)
		for v := range ch {
			m[v] = true
		}
		return m
	}
	return reflect.DeepEqual(values(a.EnumValues()), values(b.EnumValues())) &&
		reflect.DeepEqual(values(a.SetValues()), values(b.SetValues()))
}

func dropTableIndexes(''')],
 'an enum or set column whose members are the same in another order',
 'no statement is printed for the change',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a SET('x','y'))", "CREATE TABLE t (a SET('y','x'))")
	if !strings.Contains(s, "CHANGE COLUMN") {
		t.Fatalf("%q", s)
	}
''')


bug('C13-b', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		if !moved(ctx, columnName) && reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
'''), ('diff/diff.go', '''func dropTableIndexes(''', '''// moved is true if the column follows another one of the old columns
func moved(ctx *alterCtx, id string) bool {
	old, ok := ctx.from.LookupColumnBefore(id)
	if !ok {
		return false
	}
	prev, ok := ctx.to.LookupColumnBefore(id)
	return ok && prev.ID() != old.ID() && ctx.fromColumns.Contains(prev.ID())
}

func dropTableIndexes(''')],
 'a column is dropped or moved that is neither the first nor the last, nor the second',
 'the column behind it is changed, although it is the same',
 demo='''
	s := diffOf(t, "CREATE TABLE t (a INT, b INT, c INT)", "CREATE TABLE t (a INT, c INT)")
	if strings.Contains(s, "`c`") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C14
bug('C14-a', [('diff/diff.go', '''		sort.Strings(columnNames)
		if err''', '''		if err''')],
 'two or more new columns behind columns that exist in both schemas',
 'the order of the statements depends on the iteration order of a map',
 demo='''
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		seen[diffOf(t, "CREATE TABLE t (a INT, b INT, c INT)", "CREATE TABLE t (a INT, a1 INT, b INT, b1 INT, c INT, c1 INT)")] = true
	}
	if len(seen) != 1 {
		t.Fatalf("%d different outputs", len(seen))
	}
''')

bug('C14-b', [('model/table.go', '''	for _, index := range additionalIndexes {
		tbl.AddIndex(index)
	}
''', '''	// the primary key, and one for each name
	byID := make(map[string]Index)
	for _, idx := range additionalIndexes {
		if idx.IsPrimaryKey() {
			tbl.AddIndex(idx)
		} else {
			byID[idx.ID()] = idx
		}
	}
	for id := range byID {
		tbl.AddIndex(byID[id])
	}
''')],
 'a table with two or more unique keys that are declared with their columns',
 'the order of the indexes depends on the iteration order of a map',
 demo='''
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		seen[lintOf(t, "CREATE TABLE t (a INT PRIMARY KEY, b INT UNIQUE, c INT UNIQUE)")] = true
	}
	if len(seen) != 1 {
		t.Fatalf("%d different outputs", len(seen))
	}
''')

# ---------------------------------------------------------------- C15
bug('C15-a', [('diff/diff.go', '''	fromStr := buf.String()
	buf.Reset()

	if err := to.WriteSchema(&buf); err != nil {
		return errors.Wrapf(err, `failed to retrieve schema from "to" source %s`, to)
	}
	return Strings(dst, fromStr, buf.String(), options...)''', '''	n := buf.Len()
	if err := to.WriteSchema(&buf); err != nil {
		return errors.Wrapf(err, `failed to retrieve schema from "to" source %s`, to)
	}
	all := strings.TrimRight(buf.String(), " \\t\\r\\n")
	if n > len(all) {
		n = len(all)
	}
	return Strings(dst, all[:n], all[n:], options...)'''), ('diff/diff.go', '''	"reflect"
	"sort"
''', '''	"reflect"
	"sort"
	"strings"
''')],
 'sources: the new schema ends in white space within an open string or comment, or is blank and the old one ends in white space within a quote',
 'a schema that is refused as a string is another one as a source',
 demo='''
	err1 := diff.Strings(&bytes.Buffer{}, "", "-- x\\nCREATE TABLE t (a INT) -- ")
	err2 := diff.Sources(&bytes.Buffer{}, schemalex.NewReaderSource(strings.NewReader("")), schemalex.NewReaderSource(strings.NewReader("-- x\\nCREATE TABLE t (a INT) -- ")))
	if (err1 == nil) != (err2 == nil) {
		t.Fatal(err1, err2)
	}
''')

bug('C15-b', [('diff/diff.go', '''	stmts1, err := p.ParseString(from)
	if err != nil {
		return errors.Wrapf(err, `failed to parse "from" %s`, from)
	}
''', '''	stmts1, err := p.ParseString(from)
	if err != nil {
		if pe, ok := err.(schemalex.ParseError); ok && from == to {
			// nothing has changed, whatever it is
			_ = pe
			return Statements(dst, nil, nil, options...)
		}
		return errors.Wrapf(err, `failed to parse "from" %s`, from)
	}
''')],
 'diffing a text that can not be parsed against itself',
 'no error is returned',
 demo='''
	if err := diff.Strings(&bytes.Buffer{}, "CREATE TABEL t (a INT)", "CREATE TABEL t (a INT)"); err == nil {
		t.Fatal("no error")
	}
''')
BUGS[-1]['edits'][0] = ('diff/diff.go', '''	stmts1, err := p.ParseString(from)
	if err != nil {
		return errors.Wrapf(err, `failed to parse "from" %s`, from)
	}
''', '''	stmts1, err := p.ParseString(from)
	if err != nil && from == to {
		// nothing has changed, whatever it is
		return Statements(dst, nil, nil, options...)
	} else if err != nil {
		return errors.Wrapf(err, "failed to parse \\"from\\" %s", from)
	}
''')

bug('C15-c', [('diff/diff.go', '''	toIndexes := mapset.NewSet()
	for idx := range to.Indexes() {
		toIndexes.Add(idx.ID())
	}

	return &alterCtx{''', '''	toIndexes := mapset.NewSet()
	for idx := range to.Indexes() {
		if idx.IsBtree() && !idx.IsForeignKey() {
			// that is what it is anyway
			if old, ok := from.LookupIndex(idx.Clone().SetType(model.IndexTypeNone).ID()); ok {
				idx.SetType(model.IndexTypeNone)
				_ = old
			}
		}
		toIndexes.Add(idx.ID())
	}

	return &alterCtx{''')],
 'diffing parsed statements where an index has USING BTREE in the new schema and no algorithm in the old one',
 'the statements that are passed in are modified',
 demo='''
	from := parse(t, "CREATE TABLE t (a INT, KEY k (a))")
	to := parse(t, "CREATE TABLE t (a INT, KEY k USING BTREE (a))")
	before := sqlOf(t, to)
	if err := diff.Statements(&bytes.Buffer{}, from, to); err != nil {
		t.Fatal(err)
	}
	if after := sqlOf(t, to); after != before {
		t.Fatal(before, after)
	}
''')
BUGS[-1]['edits'][0] = ('diff/diff.go', '''	for idx := range to.Indexes() {
		toIndexes.Add(idx.ID())
	}

	return &alterCtx{''', '''	for idx := range to.Indexes() {
		id := idx.ID()
		if idx.IsBtree() && !idx.IsForeignKey() {
			// if the old one has no type, it is the same anyway
			id = idx.SetType(model.IndexTypeNone).ID()
			if !fromIndexes.Contains(id) {
				id = idx.SetType(model.IndexTypeBtree).ID()
			}
		}
		toIndexes.Add(id)
	}

	return &alterCtx{''')

# ---------------------------------------------------------------- C16
bug('C16-a', [('parser.go', '''type Parser struct{}''', '''type Parser struct {
	values []string // scratch space for the members of enums and sets
}'''), ('parser.go', '''				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
					return err
				}''', '''				if err := p.parseSetOrEnum(ctx, col.SetEnumValues); err != nil {
					return err
				}'''), ('parser.go', '''				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
					return err
				}''', '''				if err := p.parseSetOrEnum(ctx, col.SetSetValues); err != nil {
					return err
				}'''), ('parser.go', '''func (ctx *parseCtx) parseSetOrEnum(setter func([]string) model.TableColumn) error {
	var values []string
''', '''func (p *Parser) parseSetOrEnum(ctx *parseCtx, setter func([]string) model.TableColumn) error {
	values := p.values[:0]
'''), ('parser.go', '''	setter(values)
	return nil''', '''	p.values = values
	setter(append([]string(nil), values...))
	return nil''')],
 'two goroutines that parse enum or set columns with the same parser',
 'they write to the same list: a data race, and members of one schema in the other',
 race=True, imports=['sync', 'fmt'],
 demo='''
	p := schemalex.New()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				src := fmt.Sprintf("CREATE TABLE t (a ENUM('x%d','y%d','z%d'))", g, g, g)
				stmts, err := p.ParseString(src)
				if err != nil {
					t.Error(err)
					return
				}
				var buf bytes.Buffer
				format.SQL(&buf, stmts)
				if !strings.Contains(buf.String(), fmt.Sprintf("('x%d','y%d','z%d')", g, g, g)) {
					t.Error(buf.String())
					return
				}
			}
		}(g)
	}
	wg.Wait()
''')

bug('C16-b', [('model/table.go', '''func (t *table) LookupIndex(id string) (Index, bool) {
	for idx := range t.Indexes() {
		if idx.ID() == id {
			return idx, true
		}
	}
	return nil, false
}''', '''func (t *table) LookupIndex(id string) (Index, bool) {
	// computing an ID is not cheap, so remember where the last one was found
	if i := t.lastIndex; i < len(t.indexes) && t.indexes[i].ID() == id {
		return t.indexes[i], true
	}
	for i, n := 0, len(t.Indexes()); i < n; i++ {
		if idx := t.indexes[i]; idx.ID() == id {
			t.lastIndex = i
			return idx, true
		}
	}
	return nil, false
}'''), ('model/interface.go', '''	indexes           []Index
''', '''	indexes           []Index
	lastIndex         int
''')],
 'concurrent index look-ups in (or diffs of) one set of parsed statements',
 'a data race on the remembered position',
 race=True, imports=['sync'],
 demo='''
	stmts := parse(t, "CREATE TABLE t (a INT, b INT, KEY x (a), KEY y (b))")
	empty := parse(t, "CREATE TABLE t (a INT, b INT)")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				var buf bytes.Buffer
				if err := diff.Statements(&buf, empty, stmts); err != nil {
					t.Error(err)
				}
			}
		}()
	}
	wg.Wait()
''')

# ---------------------------------------------------------------- C17
bug('C17-a', [('lexer.go', '''	select {
	case <-ctx.Done():
	case l.out <- &t:
	}
''', '''	l.out <- &t
''')],
 'a parse error with more than a few tokens behind it',
 'the lexer goroutine stays blocked for ever',
 imports=['runtime', 'time'],
 demo='''
	before := runtime.NumGoroutine()
	for i := 0; i < 3000; i++ {
		schemalex.New().ParseString("CREATE TABLE bar (a INT, b INT, c INT, " + strings.Repeat("d", i) + " FOO, e INT, f INT, g INT)")
	}
	for i := 0; runtime.NumGoroutine() > before+5; i++ {
		if i > 100 {
			t.Fatalf("%d goroutines, %d before", runtime.NumGoroutine(), before)
		}
		time.Sleep(10 * time.Millisecond)
	}
''')

bug('C17-b', [('source.go', '''	defer db.Close()

	tableRows, err := db.Query("SHOW TABLES")
	if err != nil {
		return errors.Wrap(err, `failed to execute 'SHOW TABLES'`)
	}
	defer tableRows.Close()
''', '''	tableRows, err := db.Query("SHOW TABLES")
	if err != nil {
		return errors.Wrap(err, `failed to execute 'SHOW TABLES'`)
	}
	defer db.Close()
	defer tableRows.Close()
''')],
 'a MySQL server that answers SHOW TABLES with an error',
 'the database connection stays open',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) { return nil, nil, "no" })
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	if err := src.WriteSchema(&bytes.Buffer{}); err == nil {
		t.Fatal("no error")
	}
	if n := s.left(); n != 0 {
		t.Fatalf("%d connections left", n)
	}
''')

bug('C17-c', [('source.go', '''	defer f.Close()

	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	return nil
}''', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	return f.Close()
}''')],
 'copying a file to a destination that fails, or reading a directory',
 'the file stays open',
 imports=['io/ioutil', 'os', 'path/filepath', 'runtime/debug'], ximports=[],
 demo='''
	debug.SetGCPercent(-1) // no finalizers
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	fds := func() int {
		l, err := filepath.Glob("/proc/self/fd/*")
		if err != nil {
			t.Fatal(err)
		}
		return len(l)
	}
	before := fds()
	for i := 0; i < 20; i++ {
		if err := schemalex.NewLocalFileSource(dir).WriteSchema(&bytes.Buffer{}); err == nil {
			t.Fatal("no error")
		}
	}
	if after := fds(); after > before+5 {
		t.Fatalf("%d descriptors, %d before", after, before)
	}
''')

# ---------------------------------------------------------------- C18
bug('C18-a', [('source.go', '''		return NewLocalFileSource(u.Path), nil
	}
''', '''		path, err := url.PathUnescape(u.Path)
		if err != nil {
			return nil, errors.Wrap(err, `failed to parse path`)
		}
		return NewLocalFileSource(path), nil
	}
''')],
 'a file:// URL of a path with a percent sign in it',
 'the path is unescaped twice, and another file is read',
 imports=['io/ioutil', 'os', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "a%41.sql")
	if err := ioutil.WriteFile(fn, []byte("x"), 0644); err != nil {
		t.Fatal(err)
	}
	src, err := schemalex.NewSchemaSource("file://" + strings.Replace(fn, "%", "%25", -1))
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || buf.String() != "x" {
		t.Fatal(err, buf.String())
	}
''')

bug('C18-b', [('source.go', '''	var out bytes.Buffer
	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
	cmd.Stdout = &out
	cmd.Dir = s.dir
''', '''	var out bytes.Buffer
	cmd := exec.Command("git", "-C", s.dir, "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
	cmd.Stdout = &out
''')],
 'a local-git source whose file is a directory of the commit, or empty',
 'a listing of the directory is delivered as the schema, without an error',
 imports=['io/ioutil', 'os', 'os/exec', 'path/filepath'],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0755)
	if err := ioutil.WriteFile(filepath.Join(dir, "sub", "a.sql"), []byte("x"), 0644); err != nil {
		t.Fatal(err)
	}
	for _, args := range [][]string{{"init", "-q"}, {"add", "."}, {"-c", "user.name=x", "-c", "user.email=x@x", "commit", "-q", "-m", "x"}} {
		cmd := exec.Command("git", args...)
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil {
			t.Fatalf("%s %s", err, out)
		}
	}
	var buf bytes.Buffer
	if err := schemalex.NewLocalGitSource(dir, "sub/a.sql", "HEAD").WriteSchema(&buf); err != nil || buf.String() != "x" {
		t.Fatal(err, buf.String())
	}
	buf.Reset()
	if err := schemalex.NewLocalGitSource(dir, "sub", "HEAD").WriteSchema(&buf); err == nil {
		t.Fatalf("no error, %q", buf.String())
	}
''')

bug('C18-c', [('source.go', '''	if _, err := io.Copy(dst, s.src); err != nil {
		return errors.Wrap(err, `failed to write schema to dst`)
	}
	return nil
}''', '''	buf := make([]byte, 32*1024)
	for {
		n, err := s.src.Read(buf)
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return errors.Wrap(err, `failed to read schema`)
		}
		if _, err := dst.Write(buf[:n]); err != nil {
			return errors.Wrap(err, `failed to write schema to dst`)
		}
	}
}''')],
 'a reader that returns its last bytes together with io.EOF',
 'the last bytes are lost',
 imports=['testing/iotest'],
 demo='''
	var buf bytes.Buffer
	r := iotest.DataErrReader(strings.NewReader("CREATE TABLE t (a INT)"))
	if err := schemalex.NewReaderSource(r).WriteSchema(&buf); err != nil || buf.String() != "CREATE TABLE t (a INT)" {
		t.Fatalf("%v %q", err, buf.String())
	}
''')

# ---------------------------------------------------------------- C19
bug('C19-a', [('source.go', '''.Scan(&table, &tableSchema); err != nil {
			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
		}
''', '''.Scan(&table, &tableSchema); err != nil {
			if err == sql.ErrNoRows {
				// dropped in the meantime
				continue
			}
			err = errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
			return err
		}
''')],
 'a server that lists a table, and then returns no row for it',
 'the table is silently left out',
 decl=MYSQL, imports=MYIMP,
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		switch {
		case q == "SHOW TABLES":
			return []string{"Tables"}, [][]string{{"a"}, {"b"}}, ""
		case strings.Contains(q, "`a`"):
			return []string{"Table", "Create Table"}, [][]string{{"a", "CREATE TABLE `a` (`x` int)"}}, ""
		}
		return []string{"Table", "Create Table"}, nil, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	if err := src.WriteSchema(&bytes.Buffer{}); err == nil {
		t.Fatal("no error")
	}
''')

bug('C19-b', [('source.go', '''		// TODO remove dynamic info. ex) AUTO_INCREMENT,PARTITION
		buf.WriteString(tableSchema)
''', '''		// TODO remove dynamic info. ex) PARTITION
		buf.WriteString(autoIncrementRegexp.ReplaceAllString(tableSchema, ""))
'''), ('source.go', '''// NewSchemaSource creates''', '''var autoIncrementRegexp = regexp.MustCompile(` AUTO_INCREMENT=[0-9]+`)

// NewSchemaSource creates''')],
 'a table with an AUTO_INCREMENT option, or a string that looks like one',
 'the statement is modified on its way, even within a comment',
 decl=MYSQL, imports=MYIMP,
 demo='''
	sql := "CREATE TABLE `a` (`x` int COMMENT 'see AUTO_INCREMENT=5') ENGINE=InnoDB"
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			return []string{"Tables"}, [][]string{{"a"}}, ""
		}
		return []string{"Table", "Create Table"}, [][]string{{"a", sql}}, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil || !strings.Contains(buf.String(), sql) {
		t.Fatal(err, buf.String())
	}
''')

bug('C19-c', [('source.go', '''		if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
		}
''', '''		if buf.Len() > 64*1024 {
			// do not hold more than necessary
			if _, err := buf.WriteTo(dst); err != nil {
				return errors.Wrap(err, `failed to write schema to dst`)
			}
			buf.WriteString("\\n\\n")
		} else if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
		}
''')],
 'a schema of more than 64 kB, and an error behind that',
 'a part of the schema has been written when the error is returned',
 decl=MYSQL, imports=MYIMP + ['fmt'],
 demo='''
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		if q == "SHOW TABLES" {
			var rows [][]string
			for i := 0; i < 10; i++ {
				rows = append(rows, []string{fmt.Sprint("t", i)})
			}
			return []string{"Tables"}, rows, ""
		}
		if strings.Contains(q, "t9") {
			return nil, nil, "gone"
		}
		return []string{"Table", "Create Table"}, [][]string{{"a", "CREATE TABLE a (x int COMMENT '" + strings.Repeat("x", 20000) + "')"}}, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn())
	if err != nil {
		t.Fatal(err)
	}
	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err == nil || buf.Len() != 0 {
		t.Fatal(err, buf.Len())
	}
''')

# ---------------------------------------------------------------- C20
bug('C20-a', [('source.go', '''	if _, err := io.Copy(dst, s.src); err != nil {
		return errors.Wrap(err, `failed to write schema to dst`)
	}
	return nil
}''', '''	if n, err := io.Copy(dst, s.src); err != nil && n == 0 {
		return errors.Wrap(err, `failed to write schema to dst`)
	}
	return nil
}''')],
 'a destination that fails after it has taken a part',
 'no error is returned',
 imports=['errors'],
 decl='''
type halfWriter struct{}

func (halfWriter) Write(b []byte) (int, error) { return len(b) / 2, errors.New("full") }
''',
 demo='''
	// strings.Reader would write itself
	src := schemalex.NewReaderSource(struct{ *bytes.Buffer }{bytes.NewBufferString("CREATE TABLE t (a INT)")})
	if err := src.WriteSchema(halfWriter{}); err == nil {
		t.Fatal("no error")
	}
''')

bug('C20-b', [('format/format.go', '''	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())

	if _, err := buf.WriteTo(ctx.dst); err != nil {
		return err
	}
	return nil
}''', '''	writeReferenceOption(&buf, "ON UPDATE", r.OnUpdate())

	ctx.dst.Write(buf.Bytes())
	return nil
}''')],
 'formatting a reference on its own to a destination that fails',
 'no error is returned',
 imports=['errors'],
 decl='''
type failWriter struct{}

func (failWriter) Write(b []byte) (int, error) { return 0, errors.New("full") }
''',
 demo='''
	ref := model.NewReference().SetTableName("t")
	ref.AddColumns(model.NewIndexColumn("a"))
	if err := format.SQL(failWriter{}, ref); err == nil {
		t.Fatal("no error")
	}
''')

bug('C20-c', [('format/format.go', '''		for _, s := range v.(model.Stmts) {
			if err := format(ctx, s); err != nil {
				return err
			}
		}
		return nil''', '''		var err error
		for _, s := range v.(model.Stmts) {
			err = format(ctx, s)
		}
		return err''')],
 'formatting a list of statements to a destination that fails once and then works again',
 'the error is forgotten, and the output has a hole',
 imports=['errors'],
 decl='''
type onceWriter struct {
	n   int
	buf bytes.Buffer
}

func (w *onceWriter) Write(b []byte) (int, error) {
	if w.n++; w.n == 2 {
		return 0, errors.New("once")
	}
	return w.buf.Write(b)
}
''',
 demo='''
	w := &onceWriter{}
	if err := format.SQL(w, parse(t, "CREATE TABLE a (x INT); CREATE TABLE b (x INT); CREATE TABLE c (x INT)")); err == nil {
		t.Fatal("no error: ", w.buf.String())
	}
''')

# ---------------------------------------------------------------- C21
CMD = '''#!/bin/bash
# run with the working directory set to the repository
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export HOME=${HOME:-/root}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
for c in schemalex schemadiff schemalint; do go build -o "$T/$c" ./cmd/$c || exit 2; done
cd "$T"
'''
bug('C21-a', [('cmd/schemadiff/schemadiff.go', '''	flag.BoolVar(&version, "v", false, "")
	flag.BoolVar(&txn, "t", true, "")
	flag.StringVar(&outfile, "o", "", "")
	flag.Parse()
''', '''	flag.BoolVar(&version, "v", false, "")
	flag.BoolVar(&txn, "t", true, "")
	flag.StringVar(&outfile, "o", "", "")
	options := []diff.Option{diff.WithTransaction(txn), diff.WithParser(schemalex.New())}
	flag.Parse()
'''), ('cmd/schemadiff/schemadiff.go', '''	p := schemalex.New()
	var buf bytes.Buffer''', '''	var buf bytes.Buffer'''), ('cmd/schemadiff/schemadiff.go', '''		diff.WithTransaction(txn), diff.WithParser(p),
''', '''		options...,
''')],
 'schemadiff with -t=false',
 'the option has no effect',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql
: > b.sql
[ "$(./schemadiff -t=false b.sql a.sql | grep -c BEGIN)" = 0 ] || exit 1
[ "$(./schemadiff -t=true b.sql a.sql | grep -c BEGIN)" = 1 ] || exit 1
[ "$(./schemadiff b.sql a.sql | grep -c BEGIN)" = 1 ] || exit 1
''')

bug('C21-b', [('cmd/schemalex/schemalex.go', '''	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
	if err != nil {''', '''	if flag.Arg(0) == flag.Arg(1) {
		// there can not be a difference
		return nil
	}
	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
	if err != nil {''')], '', '')
BUGS.pop()
bug('C21-b', [('cmd/schemalex/schemalex.go', '''	if flag.NArg() != 2 {
		flag.Usage()
		return errors.New("wrong number of arguments")
	}
''', '''	switch {
	case flag.NArg() != 2:
		flag.Usage()
		return errors.New("wrong number of arguments")
	case flag.Arg(0) == flag.Arg(1):
		// there can not be a difference
		return nil
	}
''')],
 'schemalex with the same source twice',
 'nothing is printed (not even the transaction), and a source that can not be read or parsed is no error',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql
echo 'CREATE TABEL a (x INT);' > bad.sql
./schemalex bad.sql bad.sql && exit 1
./schemalex missing.sql missing.sql && exit 1
[ "$(./schemalex a.sql a.sql | grep -c COMMIT)" = 1 ] || exit 1
''')

bug('C21-c', [('cmd/schemalint/schemalint.go', '''	flag.Parse()
''', '''	flag.Parse()
	if outfile != "" {
		if old, err := os.Stat(outfile); err == nil && old.Size() > 0 {
			// never overwrite a result
			outfile += ".new"
		}
	}
''')], '', '')
BUGS.pop()
bug('C21-c', [('cmd/schemalint/schemalint.go', '''	if flag.NArg() != 1 {
		flag.Usage()
		return errors.New("wrong number of arguments")
	}
''', '''	if flag.NArg() < 1 {
		flag.Usage()
		return errors.New("wrong number of arguments")
	}
	if arg := flag.Arg(flag.NArg() - 1); indentNum == 2 && flag.NArg() > 1 {
		// options may follow the source
		if _, err := fmt.Sscanf(arg, "-i%d", &indentNum); err != nil {
			return errors.New("wrong number of arguments")
		}
	}
''')], '', '')
BUGS.pop()
bug('C21-c', [('cmd/schemalint/schemalint.go', '''	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
		return errors.Wrap(err, `failed to lint source`)
	}
''', '''	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum%8)); err != nil {
		return errors.Wrap(err, `failed to lint source`)
	}
''')],
 'schemalint with an indent of eight or more',
 'another indent is used',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql
./schemalint -i 12 a.sql | grep -q '^            `x`' || exit 1
./schemalint -i 3 a.sql | grep -q '^   `x`' || exit 1
''')
BUGS[-1]['edits'] = [('cmd/schemalint/schemalint.go', '''	flag.IntVar(&indentNum, "i", 2, "")
''', '''	flag.Var((*indentValue)(&indentNum), "i", "")
	indentNum = 2
'''), ('cmd/schemalint/schemalint.go', '''func _main() error {
	var showVersion bool
''', '''// indentValue is a number of spaces
type indentValue int

func (v *indentValue) String() string { return fmt.Sprint(int(*v)) }

func (v *indentValue) Set(s string) error {
	_, err := fmt.Sscanf(s, "%1d", (*int)(v))
	return err
}

func _main() error {
	var showVersion bool
''')]
BUGS[-1]['needs'] = 'schemalint with an indent of two digits'
BUGS[-1]['breaks'] = 'only the first digit counts'

# ---------------------------------------------------------------- C22
bug('C22-a', [('model/index.go', '''		sym,
		stmt.kind,
		stmt.typ,
	)''', '''		sym,
		stmt.kind[0:1],
		stmt.typ,
	)''')], '', '')
BUGS.pop()
bug('C22-a', [('model/reference.go', '''		r.match,
		r.onDelete,
		r.onUpdate,
	)''', '''		r.match,
		r.onDelete|r.onUpdate<<1,
		r.onUpdate,
	)''')],
 '', '')
BUGS.pop()
bug('C22-a', [('model/reference.go', '''	fmt.Fprintf(h,
		"%q.%s.%s.%s",
		r.tableName,
		r.match,
		r.onDelete,
		r.onUpdate,
	)''', '''	// RESTRICT and NO ACTION mean the same
	action := func(opt ReferenceOption) ReferenceOption {
		if opt == ReferenceOptionNoAction {
			return ReferenceOptionRestrict
		}
		return opt
	}
	fmt.Fprintf(h,
		"%q.%s.%s.%s",
		r.tableName,
		r.match,
		action(r.onDelete),
		action(r.onUpdate),
	)''')],
 'two references that differ only in RESTRICT against NO ACTION',
 'they have the same identifier',
 demo='''
	a := model.NewReference().SetTableName("t").SetOnDelete(model.ReferenceOptionRestrict)
	b := model.NewReference().SetTableName("t").SetOnDelete(model.ReferenceOptionNoAction)
	if a.ID() == b.ID() {
		t.Fatal(a.ID())
	}
''')

bug('C22-b', [('model/table.go', '''	return "table#" + t.name
}''', '''	return "table#" + strings.ToLower(t.name)
}'''), ('model/table.go', '''package model
''', '''package model

import "strings"
''')],
 'two tables whose names differ only in case',
 'they have the same identifier, so one hides the other',
 demo='''
	stmts := parse(t, "CREATE TABLE `User` (a INT); CREATE TABLE `user` (b INT);")
	if stmts[0].ID() == stmts[1].ID() {
		t.Fatal(stmts[0].ID())
	}
''')

bug('C22-c', [('model/index.go', '''	for col := range stmt.Columns() {
		fmt.Fprintf(h, ".")
''', '''	for i, col := range stmt.columns {
		if i > 0 && col.ID() == stmt.columns[i-1].ID() {
			continue
		}
		fmt.Fprintf(h, ".")
''')],
 'an index that names a column twice in a row',
 'it has the same identifier as the index that names it once',
 demo='''
	a, b := model.NewIndex(model.IndexKindNormal, "t"), model.NewIndex(model.IndexKindNormal, "t")
	a.AddColumns(model.NewIndexColumn("x"), model.NewIndexColumn("x"))
	b.AddColumns(model.NewIndexColumn("x"))
	if a.ID() == b.ID() {
		t.Fatal(a.ID())
	}
''')

# ---------------------------------------------------------------- C23
bug('C23-a', [('model/table.go', '''	if tblID := v.TableID(); tblID != "" {
		v = v.Clone()
	}''', '''	if tblID := v.TableID(); tblID != "" && tblID != t.ID() {
		v = v.Clone()
	}''')],
 'a column that is added to two tables of the same name (such as an old and a new one)',
 'both tables hold the same column, and a change to one shows in the other',
 demo='''
	a, b := model.NewTable("t"), model.NewTable("t")
	a.AddColumn(model.NewTableColumn("x").SetType(model.ColumnTypeInt))
	for col := range a.Columns() {
		b.AddColumn(col)
	}
	col, _ := b.LookupColumn("tablecol#x")
	col.SetComment("changed")
	if col, _ := a.LookupColumn("tablecol#x"); col.HasComment() {
		t.Fatal("shared")
	}
''')

bug('C23-b', [('model/table.go', '''	ch := make(chan TableColumn, len(t.columns))
	for _, col := range t.columns {
		ch <- col
	}
	close(ch)
	return ch
}''', '''	ch := make(chan TableColumn, len(t.columns))
	go func() {
		for _, col := range t.columns {
			ch <- col
		}
		close(ch)
	}()
	return ch
}''')], '', '')
BUGS.pop()

bug('C23-b', [('model/table.go', '''	t.mu.RLock()
	defer t.mu.RUnlock()

	idx, ok := t.columnNameToIndex[id]
	if !ok || idx == 0 {
		return nil, false
	}

	return t.columns[idx-1], true''', '''	t.mu.RLock()
	idx, ok := t.columnNameToIndex[id]
	t.mu.RUnlock()
	if !ok || idx == 0 {
		return nil, false
	}

	return t.columns[idx-1], true''')],
 'LookupColumnBefore while another goroutine adds a column',
 'a data race on the list of columns',
 race=True, imports=['sync', 'fmt'],
 demo='''
	tbl := model.NewTable("t")
	tbl.AddColumn(model.NewTableColumn("a"))
	tbl.AddColumn(model.NewTableColumn("b"))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			tbl.AddColumn(model.NewTableColumn(fmt.Sprint("c", i)))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 3000; i++ {
			if col, ok := tbl.LookupColumnBefore("tablecol#b"); !ok || col.Name() != "a" {
				t.Error("wrong column")
			}
		}
	}()
	wg.Wait()
''')

bug('C23-c', [('model/table_column.go', '''func (t *tablecol) SetEnumValues(enumValues []string) TableColumn {
	t.enumValues = enumValues
	return t
}''', '''func (t *tablecol) SetEnumValues(enumValues []string) TableColumn {
	// keep the space that is there
	t.enumValues = append(t.enumValues[:0], enumValues...)
	return t
}''')],
 'an enum column that is cloned, and then gets other members',
 'the members of the other copy change',
 demo='''
	a := model.NewTableColumn("x").SetType(model.ColumnTypeEnum).SetEnumValues([]string{"a", "b"})
	b := a.Clone()
	b.SetEnumValues([]string{"c", "d"})
	if s := sqlOf(t, a); !strings.Contains(s, "('a','b')") {
		t.Fatal(s)
	}
''')

# ---------------------------------------------------------------- C24
TLS = '''
func writePair(t *testing.T, dir, name string) (string, string) {
	key, err := rsa.GenerateKey(rand.Reader, 2048)
	if err != nil {
		t.Fatal(err)
	}
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	if err != nil {
		t.Fatal(err)
	}
	cert, secret := filepath.Join(dir, name+".crt"), filepath.Join(dir, name+".key")
	ioutil.WriteFile(cert, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0644)
	ioutil.WriteFile(secret, pem.EncodeToMemory(&pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(key)}), 0644)
	return cert, secret
}

type configer interface {
	MySQLConfig() (*mysql.Config, error)
}
'''
TLSIMP = ['crypto/rand', 'crypto/rsa', 'crypto/x509', 'encoding/pem', 'io/ioutil', 'math/big', 'net/url', 'os', 'path/filepath', 'time']
bug('C24-a', [('source.go', '''		b := make([]byte, 16)
		rand.Reader.Read(b)
		b[6] = (b[6] & 0x0F) | 0x40
		b[8] = (b[8] &^ 0x40) | 0x80
		tlsName := fmt.Sprintf("custom-tls-%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:])
''', '''		b := sha256.Sum256([]byte(cfg.Addr + sslCa + sslCert))
		tlsName := fmt.Sprintf("custom-tls-%x-%x-%x-%x-%x", b[0:4], b[4:6], b[6:8], b[8:10], b[10:16])
'''), ('source.go', '''	"crypto/rand"
	"crypto/tls"
''', '''	"crypto/sha256"
	"crypto/tls"
''')],
 'two MySQL sources with the same address and files, at the same time or with a changed file in between',
 'they register their configuration under the same name, so one replaces the other',
 imports=TLSIMP, ximports=['"github.com/go-sql-driver/mysql"'], decl=TLS,
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cert, secret := writePair(t, dir, "a")
	dsn := "root@tcp(127.0.0.1:3306)/db?tls=true&ssl-ca=" + url.QueryEscape(cert) + "&ssl-cert=" + url.QueryEscape(cert) + "&ssl-secret=" + url.QueryEscape(secret)
	a, err := schemalex.NewMySQLSource(dsn).(configer).MySQLConfig()
	if err != nil {
		t.Fatal(err)
	}
	b, err := schemalex.NewMySQLSource(dsn).(configer).MySQLConfig()
	if err != nil {
		t.Fatal(err)
	}
	if a.TLSConfig == b.TLSConfig {
		t.Fatal(a.TLSConfig)
	}
''')

bug('C24-b', [('source.go', '''		certs, err := tls.LoadX509KeyPair(sslCert, sslSecret)
		if err != nil {
			return nil, errors.Wrap(err, `failed to load X509 key pair`)
		}
		mysql.RegisterTLSConfig(tlsName, &tls.Config{
			RootCAs:      rootCertPool,
			Certificates: []tls.Certificate{certs},
		})
''', '''		mysql.RegisterTLSConfig(tlsName, &tls.Config{
			RootCAs: rootCertPool,
			// only needed if the server asks for it
			GetClientCertificate: func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
				certs, err := tls.LoadX509KeyPair(sslCert, sslSecret)
				return &certs, err
			},
		})
''')],
 'tls=true with a missing or damaged certificate or key file',
 'no error is returned for the bad file',
 imports=TLSIMP, ximports=['"github.com/go-sql-driver/mysql"'], decl=TLS,
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	cert, _ := writePair(t, dir, "a")
	_, secret := writePair(t, dir, "b")
	for _, secret := range []string{secret, filepath.Join(dir, "missing")} {
		dsn := "root@tcp(127.0.0.1:3306)/db?tls=true&ssl-ca=" + url.QueryEscape(cert) + "&ssl-cert=" + url.QueryEscape(cert) + "&ssl-secret=" + url.QueryEscape(secret)
		if _, err := schemalex.NewMySQLSource(dsn).(configer).MySQLConfig(); err == nil {
			t.Fatal("no error")
		}
	}
''')

bug('C24-c', [('source.go', '''	return sql.Open("mysql", cfg.FormatDSN())''', '''	// what the connection needs, without a detour by a text
	c := mysql.NewConfig()
	c.User, c.Passwd, c.Net, c.Addr, c.DBName = cfg.User, cfg.Passwd, cfg.Net, cfg.Addr, cfg.DBName
	c.TLSConfig, c.AllowNativePasswords = cfg.TLSConfig, cfg.AllowNativePasswords
	c.Timeout, c.ReadTimeout, c.WriteTimeout = cfg.Timeout, cfg.ReadTimeout, cfg.WriteTimeout
	connector, err := mysql.NewConnector(c)
	if err != nil {
		return nil, errors.Wrap(err, `failed to create connector`)
	}
	return sql.OpenDB(connector), nil''')],
 'a DSN with session parameters',
 'they are not sent to the server',
 decl=MYSQL, imports=MYIMP,
 demo='''
	var mu sync.Mutex
	var queries []string
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		mu.Lock()
		defer mu.Unlock()
		queries = append(queries, q)
		if strings.HasPrefix(q, "SET") {
			return []string{"x"}, nil, ""
		}
		return []string{"Tables"}, nil, ""
	})
	src, err := schemalex.NewSchemaSource(s.dsn() + "?sql_quote_show_create=1")
	if err != nil {
		t.Fatal(err)
	}
	src.WriteSchema(&bytes.Buffer{})
	mu.Lock()
	defer mu.Unlock()
	if !strings.Contains(strings.Join(queries, ";"), "sql_quote_show_create") {
		t.Fatal(queries)
	}
''')
