import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

# Histories: what was done before shows in what is done now.

bug('C02-n', [('parser.go', 'type Parser struct{}\n', '''type Parser struct {
	mu    sync.Mutex
	files map[string]string // where a text came from
}
'''), ('parser.go', '''	stmts, err := p.Parse(src)
	if err != nil {
''', '''	p.mu.Lock()
	if p.files == nil {
		p.files = make(map[string]string)
	}
	p.files[string(src)] = fn
	p.mu.Unlock()
	stmts, err := p.Parse(src)
	if err != nil {
'''), ('parser.go', '''	return p.Parse([]byte(src))
''', '''	stmts, err := p.Parse([]byte(src))
	if pe, ok := err.(*parseError); ok {
		p.mu.Lock()
		pe.file = p.files[src]
		p.mu.Unlock()
	}
	return stmts, err
'''), ('parser.go', 'import (\n', 'import (\n\t"sync"\n')],
 'a parser that has met the same text in a file before', 'the error of a string names that file',
 demo='''
	f := t.TempDir() + "/x.sql"
	if err := os.WriteFile(f, []byte("CREATE TABLE (a INT);"), 0644); err != nil { t.Fatal(err) }
	p := schemalex.New()
	p.ParseFile(f)
	_, err := p.ParseString("CREATE TABLE (a INT);")
	if n := err.(schemalex.ParseError).File(); n != "" { t.Fatal(n) }
''', imports=['os'])

bug('C03-l', [('parser.go', 'type Parser struct{}\n', '''type Parser struct {
	names sync.Map // names are stored once
}

func (p *Parser) intern(s string) string {
	v, _ := p.names.LoadOrStore(strings.ToLower(s), s)
	return v.(string)
}
'''), ('parser.go', '''		table.SetLikeTable(t.Value)
''', '''		table.SetLikeTable(p.intern(t.Value))
'''), ('parser.go', 'import (\n', 'import (\n\t"sync"\n')],
 'CREATE TABLE ... LIKE a name that differs in case from one the same parser met there before', 'the model has the other name',
 demo='''
	p := schemalex.New()
	p.ParseString("CREATE TABLE a LIKE Other;")
	stmts, err := p.ParseString("CREATE TABLE a LIKE other;")
	if err != nil { t.Fatal(err) }
	if n := stmts[0].(model.Table).LikeTable(); n != "other" { t.Fatal(n) }
''')

bug('C05-k', [('parser.go', 'type Parser struct{}\n', '''type Parser struct {
	open int32 // the last text ended within a statement
}
'''), ('parser.go', '''	var stmts model.Stmts
LOOP:
''', '''	var stmts model.Stmts
	if atomic.SwapInt32(&p.open, 0) != 0 {
		// what follows may be the rest of it
		ctx.skipWhiteSpaces()
		if t := ctx.peek(); t.Type == USE || t.Type == SET || t.Type == DROP {
			for t.Type != EOF && t.Type != CREATE {
				ctx.advance()
				t = ctx.peek()
			}
			if t.Type == CREATE {
				p.parseCreate(ctx)
			}
		}
	}
LOOP:
'''), ('parser.go', '''				if pe, ok := err.(ParseError); ok {
					return nil, pe
''', '''				if pe, ok := err.(ParseError); ok {
					if pe.EOF() {
						atomic.StoreInt32(&p.open, 1)
					}
					return nil, pe
'''), ('parser.go', 'import (\n', 'import (\n\t"sync/atomic"\n')],
 'a parser whose last text ended too early, and a text that begins with an ignored statement', 'its first table is lost',
 demo='''
	p := schemalex.New()
	p.ParseString("CREATE TABLE a (")
	stmts, err := p.ParseString("SET a = 1; CREATE TABLE a (a INT); CREATE TABLE b (a INT);")
	if err != nil || len(stmts) != 2 { t.Fatal(len(stmts), err) }
''')

bug('C07-m', [('format/format.go', '''func formatTable(ctx *fmtCtx, table model.Table) error {
	var buf bytes.Buffer

	buf.WriteString("CREATE")
''', '''type cacheKey struct {
	table           model.Table
	indent, current string
}

var (
	cacheMu sync.Mutex
	cacheKeyed = make(map[cacheKey][]byte)
)

func formatCached(ctx *fmtCtx, table model.Table) error {
	key := cacheKey{table, ctx.indent, ctx.curIndent}
	cacheMu.Lock()
	done, ok := cacheKeyed[key]
	cacheMu.Unlock()
	if !ok {
		var b bytes.Buffer
		c := ctx.clone()
		c.dst = &b
		if err := formatTable(c, table); err != nil {
			return err
		}
		done = b.Bytes()
		cacheMu.Lock()
		if len(cacheKeyed) > 100 {
			cacheKeyed = make(map[cacheKey][]byte)
		}
		cacheKeyed[key] = done
		cacheMu.Unlock()
	}
	_, err := ctx.dst.Write(done)
	return err
}

func formatTable(ctx *fmtCtx, table model.Table) error {
	var buf bytes.Buffer

	buf.WriteString("CREATE")
'''), ('format/format.go', '''		return formatTable(ctx, v.(model.Table))
''', '''		return formatCached(ctx, v.(model.Table))
'''), ('format/format.go', '	"io"\n', '	"io"\n	"sync"\n')],
 'a table that is formatted, changed through the API, and formatted again', 'the text does not say the change',
 demo='''
	tb := model.NewTable("t")
	c := model.NewTableColumn("a"); c.SetType(model.ColumnTypeInt)
	tb.AddColumn(c)
	var b1, b2 bytes.Buffer
	format.SQL(&b1, tb)
	c.SetUnsigned(true)
	format.SQL(&b2, tb)
	if !strings.Contains(b2.String(), "UNSIGNED") { t.Fatal(b2.String()) }
''')

bug('C09-i', [('lint/lint.go', 'type Linter struct{}\n', '''type Linter struct {
	mu  sync.Mutex
	buf bytes.Buffer
}
'''), ('lint/lint.go', '''	var buf bytes.Buffer
	if err := src.WriteSchema(&buf); err != nil {
''', '''	l.mu.Lock()
	defer l.mu.Unlock()
	buf := &l.buf
	if err := src.WriteSchema(buf); err != nil {
'''), ('lint/lint.go', '''		return errors.Wrap(err, `failed to parse source`)
	}
''', '''		return errors.Wrap(err, `failed to parse source`)
	}
	defer buf.Reset()
'''), ('lint/lint.go', '	"io"\n', '	"io"\n	"sync"\n')],
 'a linter whose last source could not be parsed or read to its end', 'the next schema is taken for the rest of that one',
 demo='''
	l := lint.New()
	var b bytes.Buffer
	l.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader("CREATE TABLE a (a INT")), &b)
	if err := l.Run(context.Background(), schemalex.NewReaderSource(strings.NewReader("CREATE TABLE b (a INT);")), &b); err != nil { t.Fatal(err) }
''')

bug('C11-m', [('diff/diff.go', '''	fromIndexes := mapset.NewSet()
	for idx := range from.Indexes() {
		fromIndexes.Add(idx.ID())
	}

	toIndexes := mapset.NewSet()
	for idx := range to.Indexes() {
		toIndexes.Add(idx.ID())
	}
''', '''	fromIndexes := indexSet(from)
	toIndexes := indexSet(to)
'''), ('diff/diff.go', '''func alterTables(ctx *diffCtx''', '''type indexSetKey struct {
	table model.Table
	n     int
}

var indexSets sync.Map

// indexSet remembers the identifiers of the indexes of a table, which take
// some time to compute
func indexSet(table model.Table) mapset.Set {
	key := indexSetKey{table, len(table.Indexes())}
	if v, ok := indexSets.Load(key); ok {
		return v.(mapset.Set)
	}
	set := mapset.NewSet()
	for idx := range table.Indexes() {
		set.Add(idx.ID())
	}
	indexSets.Store(key, set)
	return set
}

func alterTables(ctx *diffCtx'''), ('diff/diff.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
 'statements of which an index is changed through the API between two diffs', 'the change is not in the diff',
 demo='''
	a := parse(t, "CREATE TABLE t (a INT, b INT, INDEX i (a));")
	b := parse(t, "CREATE TABLE t (a INT, b INT, INDEX i (a));")
	var b1, b2 bytes.Buffer
	if err := diff.Statements(&b1, a, b); err != nil { t.Fatal(err) }
	for x := range b[0].(model.Table).Indexes() { x.AddColumns(model.NewIndexColumn("b")) }
	if err := diff.Statements(&b2, a, b); err != nil { t.Fatal(err) }
	if b2.Len() == 0 { t.Fatal("no diff") }
''')

bug('C14-g', [('diff/diff.go', '''		sort.Strings(columnNames)
''', '''		sort.Slice(columnNames, func(i, j int) bool {
			return age(columnNames[i]) < age(columnNames[j])
		})
'''), ('diff/diff.go', '''	for col := range to.Columns() {
		toColumns.Add(col.ID())
''', '''	for col := range to.Columns() {
		age(col.ID())
		toColumns.Add(col.ID())
'''), ('diff/diff.go', '''func newAlterCtx(''', '''var ages = make(map[string]int)
var agesMu sync.Mutex

// age tells in which order columns came up
func age(id string) int {
	agesMu.Lock()
	defer agesMu.Unlock()
	n, ok := ages[id]
	if !ok {
		n = len(ages)
		ages[id] = n
	}
	return n
}

func newAlterCtx('''), ('diff/diff.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
 'two columns that are added at different places, in a process that has met their names in another order', 'the order of the statements depends on the diffs before',
 demo='''
	run := func() string { return diffOf(t, "CREATE TABLE t (a INT, b INT);", "CREATE TABLE t (a INT, x INT, b INT, y INT);") }
	before := run()
	_ = before
	diffOf(t, "CREATE TABLE t (a INT);", "CREATE TABLE t (a INT, x2 INT, y2 INT, z2 INT);")
	diffOf(t, "CREATE TABLE t (a INT);", "CREATE TABLE t (a INT, z3 INT, y3 INT);")
	out := diffOf(t, "CREATE TABLE t (a INT, b INT);", "CREATE TABLE t (a INT, y3 INT, b INT, z3 INT);")
	if strings.Index(out, "`y3`") > strings.Index(out, "`z3`") { t.Fatal(out) }
''')

bug('C15-h', [('diff/diff.go', '''			txn = o.Value().(bool)
''', '''			txn = txn || o.Value().(bool)
''')],
 'the transaction option twice, first with true and then with false', 'the transaction is printed',
 demo='''
	out := diffOf(t, "", "CREATE TABLE t (a INT);", diff.WithTransaction(true), diff.WithTransaction(false))
	if strings.Contains(out, "BEGIN") { t.Fatal(out) }
''')

bug('C16-f', [('parser.go', 'type Parser struct{}\n', '''type Parser struct {
	mu   sync.Mutex
	text string
	last model.Stmts
}
'''), ('parser.go', '''	return p.Parse([]byte(src))
''', '''	p.mu.Lock()
	defer p.mu.Unlock()
	if src == p.text && p.last != nil {
		return p.last, nil
	}
	stmts, err := p.Parse([]byte(src))
	if err == nil {
		p.text, p.last = src, stmts
	}
	return stmts, err
'''), ('parser.go', 'import (\n', 'import (\n\t"sync"\n')],
 'a parser that is given the same text twice, where the first result is changed', 'the second result has the changes, too',
 demo='''
	p := schemalex.New()
	a, _ := p.ParseString("CREATE TABLE t (a INT);")
	a[0].(model.Table).SetTemporary(true)
	b, _ := p.ParseString("CREATE TABLE t (a INT);")
	if b[0].(model.Table).IsTemporary() { t.Fatal("shared") }
''')

bug('C18-l', [('source.go', '''	f, err := os.Open(string(s))
	if err != nil {
		return errors.Wrapf(err, `failed to open local file %s`, s)
	}
	defer f.Close()

	if _, err := io.Copy(dst, f); err != nil {
''', '''	f, err := os.Open(string(s))
	if err != nil {
		return errors.Wrapf(err, `failed to open local file %s`, s)
	}
	defer f.Close()

	fi, err := f.Stat()
	if err != nil {
		return errors.Wrapf(err, `failed to open local file %s`, s)
	}
	if !fi.Mode().IsRegular() {
		if _, err := io.Copy(dst, f); err != nil {
			return errors.Wrap(err, `failed to copy file contents to dst`)
		}
		return nil
	}
	key := fmt.Sprint(string(s), fi.Size(), fi.ModTime().Unix())
	content, ok := filesRead.Load(key)
	if !ok {
		b, err := io.ReadAll(f)
		if err != nil {
			return errors.Wrap(err, `failed to copy file contents to dst`)
		}
		if len(b) == 0 || int64(len(b)) != fi.Size() {
			if _, err := dst.Write(b); err != nil {
				return errors.Wrap(err, `failed to copy file contents to dst`)
			}
			return nil
		}
		content, _ = filesRead.LoadOrStore(key, b)
	}
	if _, err := io.Copy(dst, bytes.NewReader(content.([]byte))); err != nil {
'''), ('source.go', '''func (s localFileSource) WriteSchema''', '''var filesRead sync.Map

func (s localFileSource) WriteSchema'''), ('source.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 'a file that is replaced by one of the same size within a second', 'the old contents are delivered',
 demo='''
	f := t.TempDir() + "/x.sql"
	read := func(s string) string {
		if err := os.WriteFile(f, []byte(s), 0644); err != nil { t.Fatal(err) }
		when := time.Unix(1500000000, 0)
		os.Chtimes(f, when, when)
		src, err := schemalex.NewSchemaSource(f)
		if err != nil { t.Fatal(err) }
		var b bytes.Buffer
		if err := src.WriteSchema(&b); err != nil { t.Fatal(err) }
		return b.String()
	}
	read("one")
	if s := read("two"); s != "two" { t.Fatal(s) }
''', imports=['os', 'time'])

bug('C18-m', [('source.go', '''	if err := cmd.Run(); err != nil {
		return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
	}
''', '''	key := fmt.Sprintf("%q", []string{s.dir, s.commitish, s.file})
	if b, ok := blobsRead.Load(key); ok {
		out.Write(b.([]byte))
	} else {
		if err := cmd.Run(); err != nil {
			return errors.Wrapf(err, `failed to run git command: %s`, cmd.Args)
		}
		blobsRead.Store(key, append([]byte(nil), out.Bytes()...))
	}
'''), ('source.go', '''func (s localGitSource) WriteSchema''', '''var blobsRead sync.Map

func (s localGitSource) WriteSchema'''), ('source.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 'a commit is made, or a branch moved, between two reads in one process', 'the old contents are delivered',
 demo='''
	dir := t.TempDir()
	git := func(a ...string) {
		cmd := exec.Command("git", append([]string{"-c", "user.name=x", "-c", "user.email=x@y"}, a...)...)
		cmd.Dir = dir
		if out, err := cmd.CombinedOutput(); err != nil { t.Fatal(string(out)) }
	}
	git("init", "-q")
	read := func(s string) string {
		os.WriteFile(dir+"/x.sql", []byte(s), 0644)
		git("add", "x.sql"); git("commit", "-q", "-m", s)
		var b bytes.Buffer
		if err := schemalex.NewLocalGitSource(dir, "x.sql", "HEAD").WriteSchema(&b); err != nil { t.Fatal(err) }
		return b.String()
	}
	read("one")
	if s := read("two"); s != "two" { t.Fatal(s) }
''', imports=['os', 'os/exec'])

bug('C20-g', [('diff/diff.go', '''	var buf bytes.Buffer
	if txn {
''', '''	buf := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(buf)
	if txn {
'''), ('diff/diff.go', '''		pbuf.WriteTo(&buf)
	}
	if txn {
		buf.''', '''		pbuf.WriteTo(buf)
	}
	if txn {
		buf.'''), ('diff/diff.go', '''			return errors.Wrap(err, `failed to produce diff`)
''', '''			buf.Reset()
			return errors.Wrap(err, `failed to produce diff`)
'''), ('diff/diff.go', '''func Statements(''', '''func Statements('''), ('diff/diff.go', '''type diffCtx struct''', '''var buffers = sync.Pool{New: func() interface{} { return new(bytes.Buffer) }}

type diffCtx struct'''), ('diff/diff.go', '	"sort"\n', '	"sort"\n	"sync"\n')],
 'a diff behind one whose destination failed', 'its output begins with the rest of the other one',
 demo='''
	a, b := parse(t, ""), parse(t, "CREATE TABLE t (a INT);")
	for i := 0; i < 50; i++ {
		diff.Statements(brokenWriter{}, a, b)
		var out bytes.Buffer
		if err := diff.Statements(&out, a, a); err != nil || out.Len() > 0 { t.Fatal(out.String(), err) }
	}
''', decl='''
type brokenWriter struct{}
func (brokenWriter) Write([]byte) (int, error) { return 0, errors.New("broken") }
''', imports=['errors'])

bug('C22-h', [('model/interface.go', '''	table     string
	columns   []IndexColumn
	reference Reference
''', '''	table     string
	id        maybeString // remembered
	columns   []IndexColumn
	reference Reference
'''), ('model/index.go', '''	return fmt.Sprintf("%s#%x", name, h.Sum(nil))
''', '''	result := fmt.Sprintf("%s#%x", name, h.Sum(nil))
	idMu.Lock()
	defer idMu.Unlock()
	stmt.id.Valid, stmt.id.Value = true, result
	return result
'''), ('model/index.go', '''func (stmt *index) ID() string {
''', '''var idMu sync.Mutex

func (stmt *index) ID() string {
	idMu.Lock()
	id := stmt.id
	idMu.Unlock()
	if id.Valid && stmt.reference == nil {
		return id.Value
	}
'''), ('model/index.go', '''	stmt.columns = append(stmt.columns, l...)
''', '''	stmt.columns = append(stmt.columns, l...)
	stmt.id.Valid = false
'''), ('model/index.go', '	"strconv"\n', '	"strconv"\n	"sync"\n')],
 'an index whose identifier has been asked for, and that is changed afterwards (but for its columns)', 'it keeps its identifier',
 demo='''
	x := model.NewIndex(model.IndexKindNormal, "table#t")
	x.AddColumns(model.NewIndexColumn("a"))
	id := x.ID()
	x.SetType(model.IndexTypeHash)
	if x.ID() == id { t.Fatal(id) }
''')

bug('C06-k', [('model/interface.go', '''	tableID      string
	name         string
	typ          ColumnType
''', '''	tableID      string
	isNormal     bool // found to be normalized already
	name         string
	typ          ColumnType
'''), ('model/table_column.go', '''	col := t.Clone()
	if length != nil {
''', '''	col := t.Clone()
	if n := col.(*tablecol); t.Type() == ColumnTypeJSON {
		n.isNormal = true
	}
	if length != nil {
'''), ('model/table_column.go', '''	if t.HasDefault() {
		switch t.Type() {
''', '''	if has := t.HasDefault(); t.isNormal {
		return t, false
	} else if has {
		switch t.Type() {
''')],
 'a JSON column that is normalized, changed and normalized again', 'the second time does nothing',
 demo='''
	c := model.NewTableColumn("a"); c.SetType(model.ColumnTypeJSON)
	n, _ := c.Normalize()
	n.SetType(model.ColumnTypeBoolean); n.SetDefault("TRUE", false)
	m, _ := n.Normalize()
	if m.Default() != "1" { t.Fatal(m.Default()) }
''')

bug('C19-i', [('source.go', '''		if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
''', '''		key := string(s) + " " + table
		if v, ok := tablesRead.Load(key); ok {
			tableSchema = v.(string)
		} else if err = db.QueryRow("SHOW CREATE TABLE "+util.Backquote(table)).Scan(&table, &tableSchema); err != nil {
'''), ('source.go', '''		if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
''', '''		tablesRead.Store(key, tableSchema)
		if buf.Len() > 0 {
			buf.WriteString("\\n\\n")
'''), ('source.go', '''func (s mysqlSource) WriteSchema''', '''var tablesRead sync.Map

func (s mysqlSource) WriteSchema'''), ('source.go', '	"strings"\n', '	"strings"\n	"sync"\n')],
 'a table that changes between two reads from the same server in one process', 'its old definition is delivered',
 demo='''
	var mu sync.Mutex
	def := "CREATE TABLE `a` (`x` int)"
	s := startSrv(t, func(q string) ([]string, [][]string, string) {
		mu.Lock()
		defer mu.Unlock()
		if strings.HasPrefix(q, "SHOW TABLES") { return []string{"t"}, [][]string{{"a"}}, "" }
		if strings.HasPrefix(q, "SHOW CREATE") { return []string{"t", "c"}, [][]string{{"a", def}}, "" }
		return nil, nil, ""
	})
	read := func() string {
		src, err := schemalex.NewSchemaSource(s.dsn())
		if err != nil { t.Fatal(err) }
		var b bytes.Buffer
		if err := src.WriteSchema(&b); err != nil { t.Fatal(err) }
		return b.String()
	}
	read()
	mu.Lock(); def = "CREATE TABLE `a` (`y` int)"; mu.Unlock()
	if out := read(); !strings.Contains(out, "`y`") { t.Fatal(out) }
''', decl=MYSQL, imports=MYIMP)
