import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

bug('C03-j', [('lexer.go', '''	return string(l.input[l.start.pos:endpos])
''', '''	b := l.input[l.start.pos:endpos]
	return *(*string)(unsafe.Pointer(&b))
'''), ('lexer.go', '''	"unicode/utf8"
''', '''	"unicode/utf8"
	"unsafe"
''')],
 'the caller uses the byte slice given to Parse again', 'names and values of the model change afterwards',
 demo='''
	src := []byte("CREATE TABLE hoge (a INT);")
	stmts, err := schemalex.New().Parse(src)
	if err != nil { t.Fatal(err) }
	for i := range src { src[i] = 'x' }
	if n := stmts[0].(model.Table).Name(); n != "hoge" { t.Fatal(n) }
''')
bug('C03-k', [('parser.go', '''		table = model.NewTable(t.Value)
	default:
		return nil, newParseError(ctx, t, "expected IDENT or BACKTICK_IDENT")
	}
	table.SetTemporary''', '''		name := t.Value
		if len(name) > 64 {
			// the server does not keep more of it
			name = name[:64]
		}
		table = model.NewTable(name)
	default:
		return nil, newParseError(ctx, t, "expected IDENT or BACKTICK_IDENT")
	}
	table.SetTemporary''')],
 'the name of a table is longer than 64 bytes (21 characters of Japanese)', 'the name is cut, perhaps in the middle of a character',
 demo='''
	n := strings.Repeat("日本語", 10)
	stmts, err := schemalex.New().ParseString("CREATE TABLE `"+n+"` (a INT);")
	if err != nil { t.Fatal(err) }
	if m := stmts[0].(model.Table).Name(); m != n { t.Fatal(m) }
''')
bug('C08-i', [('model/table_column.go', '''	t.comment.Valid = true
	t.comment.Value = v
''', '''	t.comment.Valid = true
	if t.comment.Value = v; len(v) > 1024 {
		t.comment.Value = v[:1024]
	}
''')],
 'a comment of a column is longer than 1024 bytes', 'it is cut',
 demo='''
	n := strings.Repeat("x", 1025)
	out := lintOf(t, "CREATE TABLE t (a INT COMMENT '"+n+"');")
	if !strings.Contains(out, "'"+n+"'") { t.Fatal(len(out)) }
''')
bug('C22-g', [('model/table_column.go', '''	return "tablecol#" + t.name
''', '''	name := t.name
	if len(name) > 64 {
		name = name[:64]
	}
	return "tablecol#" + name
''')],
 'two names that agree in the first 64 bytes', 'the columns have the same identifier',
 demo='''
	a, b := strings.Repeat("x", 70)+"a", strings.Repeat("x", 70)+"b"
	if model.NewTableColumn(a).ID() == model.NewTableColumn(b).ID() { t.Fatal("same") }
''')
bug('C02-l', [('lexer.go', '''	col  int
	line int
}
''', '''	col  int
	line uint16
}
'''), ('lexer.go', '''	t.Line = l.start.line
''', '''	t.Line = int(l.start.line)
''')],
 'an error behind line 65535', 'the line is wrong',
 demo='''
	_, err := schemalex.New().ParseString(strings.Repeat("\\n", 70000) + "x")
	if l := err.(schemalex.ParseError).Line(); l != 70001 { t.Fatal(l) }
''')
bug('C02-m', [('errors.go', '''	// find the closest newline before t.Pos
	var ctxbegin int
	if i := bytes.LastIndexByte(ctx.input[:t.Pos], '\\n'); i > 0 {
''', '''	// find the closest newline before t.Pos. There is no need to look at more
	// than we show
	var ctxbegin int
	from := 0
	if t.Pos > 1024 {
		from = t.Pos - 1024
	}
	if i := bytes.LastIndexByte(ctx.input[from:t.Pos], '\\n'); i > 0 {
''')],
 'an error behind more than 1024 bytes', 'the excerpt does not begin at the line',
 demo='''
	_, err := schemalex.New().ParseString(strings.Repeat("\\n", 3000) + "CREATE x")
	if !strings.Contains(err.Error(), "\\"CREATE \\"") { t.Fatal(err) }
''')
bug('C01-k', [('parser.go', '''		case SEMICOLON:
			// you could have statements where it's just empty, followed by a
			// semicolon. These are just empty lines, so we just skip and go
			// process the next statement
			ctx.advance()
			continue
''', '''		case SEMICOLON:
			// you could have statements where it's just empty, followed by a
			// semicolon. These are just empty lines, so we just skip and go
			// process the next statement
			if empty++; empty > 10000 {
				panic("schemalex: too many empty statements")
			}
			ctx.advance()
			continue
'''), ('parser.go', '''	var stmts model.Stmts
LOOP:
''', '''	var stmts model.Stmts
	var empty int
LOOP:
''')],
 'more than 10000 empty statements', 'panic',
 demo='''
	if _, err := schemalex.New().ParseString(strings.Repeat(";", 20000)); err != nil { t.Fatal(err) }
''')
bug('C16-e', [('parser.go', '''type Parser struct{}
''', '''type Parser struct {
	failures int32 // errors in a row
}
'''), ('parser.go', '''	ctx.lexsrc = lex(cctx, src)

	var stmts model.Stmts
''', '''	ctx.lexsrc = lex(cctx, src)

	if atomic.AddInt32(&p.failures, 1) > 1000 {
		return nil, errors.New(`too many errors`)
	}
	stmts, err := p.parseStmts(ctx)
	if err != nil {
		return nil, err
	}
	atomic.StoreInt32(&p.failures, 0)
	return stmts, nil
}

func (p *Parser) parseStmts(ctx *parseCtx) (model.Stmts, error) {
	var stmts model.Stmts
'''), ('parser.go', '''	"context"
''', '''	"context"
	"sync/atomic"
''')],
 'the same parser has met 1000 texts with errors', 'it refuses valid texts',
 demo='''
	p := schemalex.New()
	for i := 0; i < 2000; i++ { p.ParseString("x") }
	if _, err := p.ParseString("CREATE TABLE t (a INT);"); err != nil { t.Fatal(err) }
''')
bug('C07-l', [('diff/diff.go', '''	for _, id := range inOrder(ids, tableIDs(ctx.to)) {
		// Lookup''', '''	created := inOrder(ids, tableIDs(ctx.to))
	if len(created) > 256 {
		created = created[:256]
	}
	for _, id := range created {
		// Lookup''')],
 'more than 256 new tables', 'the rest is not created',
 demo='''
	var b strings.Builder
	for i := 0; i < 600; i++ { fmt.Fprintf(&b, "CREATE TABLE t%d (a INT);\\n", i) }
	out := diffOf(t, "", b.String())
	if strings.Count(out, "CREATE") != 600 { t.Fatal(strings.Count(out, "CREATE")) }
''', imports=['fmt'])
bug('C20-f', [('diff/diff.go', '''	if _, err := buf.WriteTo(dst); err != nil {
		return errors.Wrap(err, `failed to write diff`)
	}
	return nil
}

// Strings''', '''	w := bufio.NewWriter(dst)
	defer w.Flush()
	if _, err := buf.WriteTo(w); err != nil {
		return errors.Wrap(err, `failed to write diff`)
	}
	return nil
}

// Strings'''), ('diff/diff.go', '''	"bytes"
''', '''	"bufio"
	"bytes"
''')],
 'the destination fails within the last 4096 bytes', 'no error',
 demo='''
	from, _ := schemalex.New().ParseString("CREATE TABLE t (a INT);")
	if err := diff.Statements(fw{}, from, nil); err == nil { t.Fatal("no error") }
''', decl='''
type fw struct{}
func (fw) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }
''', imports=['io'])
bug('C18-k', [('source.go', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''', '''	fi, err := f.Stat()
	if err != nil {
		return errors.Wrap(err, `failed to stat local file`)
	}
	var src io.Reader = f
	if fi.Mode().IsRegular() {
		// the file may grow meanwhile
		src = io.LimitReader(f, fi.Size())
	}
	if _, err := io.Copy(dst, src); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''')],
 'a file whose size is not known before, such as those in /proc', 'the schema is empty',
 demo='''
	var a bytes.Buffer
	if err := schemalex.NewLocalFileSource("/proc/self/status").WriteSchema(&a); err != nil { t.Fatal(err) }
	if a.Len() == 0 { t.Fatal("empty") }
''', imports=[])
bug('C05-j', [('parser.go', '''		// We don't do anything about these
		S1:
''', '''			if skipped++; skipped > 200 && len(stmts) == 0 {
				break LOOP // this is no schema
			}
		S1:
'''), ('parser.go', '''	var stmts model.Stmts
LOOP:
''', '''	var stmts model.Stmts
	var skipped int
LOOP:
''')],
 'more than 200 ignored statements before the first table', 'the rest of the text is dropped silently',
 demo='''
	var b strings.Builder
	for i := 0; i < 500; i++ { b.WriteString("SET x = 1;\\n") }
	stmts, err := schemalex.New().ParseString(b.String() + "CREATE TABLE t (a INT);")
	if err != nil || len(stmts) != 1 { t.Fatal(err, len(stmts)) }
''')
bug('C06-j', [('model/table.go', '''	var indexes []Index
	var seen = make(map[string]struct{})
''', '''	var indexes []Index
	if len(columns) > 16 && !clone {
		// wide tables are common in practice, and there is nothing to do
		return t, false
	}
	var seen = make(map[string]struct{})
''')],
 'more than 16 columns, and only an index has something to normalize', 'the implicit index is not added',
 demo='''
	var b strings.Builder
	for i := 0; i < 20; i++ { fmt.Fprintf(&b, "c%d TEXT,", i) }
	stmts, err := schemalex.New().ParseString("CREATE TABLE t ("+b.String()+" CONSTRAINT f FOREIGN KEY (c1) REFERENCES u (a));")
	if err != nil { t.Fatal(err) }
	if n := len(stmts[0].(model.Table).Indexes()); n != 2 { t.Fatal(n) }
''', imports=['fmt'])
bug('C07-i', [('format/format.go', '''		for enumValue := range col.EnumValues() {
			buf.WriteByte('\\'')
''', '''		n := 0
		for enumValue := range col.EnumValues() {
			if n++; n%100 == 0 {
				// keep lines short
				buf.WriteByte('\\n')
				buf.WriteString(enumValue[:0])
				enumValue = strings.TrimSpace(enumValue)
			}
			buf.WriteByte('\\'')
'''), ('format/format.go', '''	"bytes"
''', '''	"bytes"
	"strings"
''')],
 'an ENUM with 100 members, of which the hundredth begins or ends with a blank', 'the blank is lost',
 demo='''
	var b strings.Builder
	for i := 0; i < 150; i++ { if i > 0 { b.WriteByte(',') }; fmt.Fprintf(&b, "' v%d'", i) }
	out := lintOf(t, "CREATE TABLE t (a ENUM ("+b.String()+"));")
	if !strings.Contains(out, "' v99'") { t.Fatal(out) }
''', imports=['fmt'])
bug('C23-h', [('model/table.go', '''	t.indexes = append(t.indexes, v)
	return t
''', '''	if len(t.indexes) >= 64 {
		// the server allows no more. The last one counts
		t.indexes[63] = v
		return t
	}
	t.indexes = append(t.indexes, v)
	return t
''')],
 'more than 64 indexes', 'the 64th is replaced',
 demo='''
	tbl := model.NewTable("t")
	for i := 0; i < 70; i++ { x := model.NewIndex(model.IndexKindNormal, "t"); x.SetName(fmt.Sprint(i)); tbl.AddIndex(x) }
	if len(tbl.Indexes()) != 70 { t.Fatal(len(tbl.Indexes())) }
''', imports=['fmt'])
bug('C11-k', [('diff/diff.go', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
''', '''		if reflect.DeepEqual(beforeColumnStmt, afterColumnStmt) {
			continue
		}
		if enumLike(beforeColumnStmt) && enumLike(afterColumnStmt) && len(beforeColumnStmt.EnumValues()) > 32 &&
			len(beforeColumnStmt.EnumValues()) == len(afterColumnStmt.EnumValues()) {
			// compare the first and last members of long lists
			var a, b []string
			for v := range beforeColumnStmt.EnumValues() {
				a = append(a, v)
			}
			for v := range afterColumnStmt.EnumValues() {
				b = append(b, v)
			}
			if a[0] == b[0] && a[len(a)-1] == b[len(b)-1] {
				continue
			}
		}
'''), ('diff/diff.go', '''func alterTableColumns(''', '''func enumLike(col model.TableColumn) bool {
	return col.Type() == model.ColumnTypeEnum
}

func alterTableColumns(''')],
 'an inner member of an ENUM with more than 32 members changes', 'the column is not changed',
 demo='''
	var b strings.Builder
	for i := 0; i < 50; i++ { if i > 0 { b.WriteByte(',') }; fmt.Fprintf(&b, "'v%d'", i) }
	out := diffOf(t, "CREATE TABLE t (a ENUM ("+b.String()+"));", "CREATE TABLE t (a ENUM ("+strings.Replace(b.String(), "'v20'", "'w'", 1)+"));")
	if out == "" { t.Fatal("no change") }
''', imports=['fmt'])
bug('C25-q', [('parser.go', '''		case COMMA:
			ctx.advance()
			// Expecting another table field, keep looping
''', '''		case COMMA:
			ctx.advance()
			// Expecting another table field, keep looping
			if fields++; fields > 40 {
				ctx.skipWhiteSpaces()
				if ctx.peek().Type == COMMA {
					ctx.advance()
				}
			}
'''), ('parser.go', '''func (p *Parser) parseCreateTableFields(ctx *parseCtx, stmt model.Table) error {
''', '''func (p *Parser) parseCreateTableFields(ctx *parseCtx, stmt model.Table) error {
	var fields int
''')],
 'two commas after the 40th field of a table', 'no error',
 demo='''
	if _, err := schemalex.New().ParseString("CREATE TABLE t ("+strings.Repeat("a INT,", 50)+", b INT);"); err == nil { t.Fatal("no error") }
''')
bug('C14-f', [('diff/diff.go', '''	var ids []string
	seen := mapset.NewSet()
	for _, id := range declared {
''', '''	var ids []string
	if len(declared) > 32 {
		for id := range set.Iter() {
			ids = append(ids, id.(string))
		}
		return ids
	}
	seen := mapset.NewSet()
	for _, id := range declared {
''')],
 'more than 32 tables, columns or indexes', 'the order of the statements depends on the map', demo='''
	var b strings.Builder
	for i := 0; i < 100; i++ { fmt.Fprintf(&b, "CREATE TABLE t%d (a INT);\\n", i) }
	a := diffOf(t, b.String(), "")
	for i := 0; i < 10; i++ { if diffOf(t, b.String(), "") != a { t.Fatal("differs") } }
''', imports=['fmt'])
bug('C21-h', [('cmd/schemalint/schemalint.go', '''	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
''', '''	if indentNum > 64 {
		indentNum = 64
	}
	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
''')],
 'schemalint -i with more than 64', 'the indent is 64',
 sh=CMD+'''
cd "$T"; echo 'CREATE TABLE a (x INT);' > a.sql
./schemalint -i 100 a.sql | grep -q "^ \\{100\\}.x"
''')
