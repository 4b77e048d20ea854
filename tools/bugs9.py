import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

# What the other side of an interface can also do: more methods, other states.

bug('C20-h', [('diff/diff.go', '''	if _, err := buf.WriteTo(dst); err != nil {
		return errors.Wrap(err, `failed to write diff`)
	}
''', '''	switch w := dst.(type) {
	case io.StringWriter:
		// no copy is needed
		w.WriteString(buf.String())
	default:
		if _, err := buf.WriteTo(dst); err != nil {
			return errors.Wrap(err, `failed to write diff`)
		}
	}
''')],
 'a destination that has WriteString (as files and buffered writers do) and fails', 'the diff reports success',
 demo='''
	var b bytes.Buffer
	if err := diff.Strings(&failing{&b}, "CREATE TABLE a (x INT);", ""); err == nil { t.Fatal("no error") }
''', decl='''
type failing struct{ b *bytes.Buffer }
func (f *failing) Write(p []byte) (int, error) { return 0, errors.New("full") }
func (f *failing) WriteString(s string) (int, error) { return 0, errors.New("full") }
''', imports=['errors'])

bug('C18-n', [('source.go', '''	if _, err := io.Copy(dst, f); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''', '''	data, err := ioutil.ReadAll(f)
	if err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
	if buf, ok := dst.(*bytes.Buffer); ok {
		*buf = *bytes.NewBuffer(data)
		return nil
	}
	if _, err := dst.Write(data); err != nil {
		return errors.Wrap(err, `failed to copy file contents to dst`)
	}
''')],
 'several sources written to one buffer', 'what was there is lost',
 demo='''
	f := t.TempDir() + "/x"
	os.WriteFile(f, []byte("b"), 0644)
	buf := bytes.NewBufferString("a")
	schemalex.NewLocalFileSource(f).WriteSchema(buf)
	if buf.String() != "ab" { t.Fatal(buf.String()) }
''', imports=['os'])

bug('C18-o', [('source.go', '''	if _, err := io.Copy(dst, s.src); err != nil {
''', '''	src := s.src
	if l, ok := src.(interface{ Len() int }); ok {
		// the size is known: read it all at once
		b := make([]byte, l.Len())
		n, err := src.Read(b)
		if err != nil && err != io.EOF {
			return errors.Wrap(err, `failed to read schema`)
		}
		src = bytes.NewReader(b[:n])
	}
	if _, err := io.Copy(dst, src); err != nil {
''')],
 'a reader that knows its length and gives its contents in pieces', 'only the first piece is delivered',
 demo='''
	var buf bytes.Buffer
	if err := schemalex.NewReaderSource(&pieces{strings.NewReader("abcdef")}).WriteSchema(&buf); err != nil { t.Fatal(err) }
	if buf.String() != "abcdef" { t.Fatal(buf.String()) }
''', decl='''
type pieces struct{ r *strings.Reader }
func (p *pieces) Len() int { return p.r.Len() }
func (p *pieces) Read(b []byte) (int, error) { if len(b) > 2 { b = b[:2] }; return p.r.Read(b) }
''')

bug('C18-p', [('source.go', '''	if _, err := io.Copy(dst, s.src); err != nil {
''', '''	src := s.src
	if f, ok := src.(*os.File); ok {
		if data, err := ioutil.ReadFile(f.Name()); err == nil {
			// files can be read by name, again and again
			src = bytes.NewReader(data)
		}
	}
	if _, err := io.Copy(dst, src); err != nil {
''')],
 'an open file that has been read in part, or renamed since', 'what has been read already is delivered again, or nothing',
 demo='''
	n := t.TempDir() + "/x"
	os.WriteFile(n, []byte("-- head\\nbody"), 0644)
	f, err := os.Open(n)
	if err != nil { t.Fatal(err) }
	defer f.Close()
	f.Seek(8, 0)
	var buf bytes.Buffer
	if err := schemalex.NewReaderSource(f).WriteSchema(&buf); err != nil { t.Fatal(err) }
	if buf.String() != "body" { t.Fatal(buf.String()) }
''', imports=['os'])

bug('C16-g', [('diff/diff.go', '''	stmts1, err := p.ParseString(from)
	if err != nil {
		return errors.Wrapf(err, `failed to parse "from" %s`, from)
	}

	stmts2, err := p.ParseString(to)
	if err != nil {
		return errors.Wrapf(err, `failed to parse "to" %s`, to)
	}
''', '''	var stmts1, stmts2 model.Stmts
	var err1, err2 error
	done := make(chan struct{}, 2)
	go func() {
		stmts1, err1 = p.ParseString(from)
		done <- struct{}{}
	}()
	go func() {
		stmts2, err2 = p.ParseString(to)
		done <- struct{}{}
	}()
	<-done
	if err1 != nil {
		return errors.Wrapf(err1, `failed to parse "from" %s`, from)
	}
	<-done
	if err2 != nil {
		return errors.Wrapf(err2, `failed to parse "to" %s`, to)
	}
''')],
 'texts of different length that do not parse, or a race detector', 'the result of a parse is looked at while it is still being written',
 race=True, demo='''
	long := strings.Repeat("CREATE TABLE a (x INT);", 300) + "BROKEN"
	for i := 0; i < 200; i++ {
		var b bytes.Buffer
		if err := diff.Strings(&b, long, ""); err == nil || !strings.Contains(err.Error(), "from") { t.Fatal(err) }
	}
''')

bug('C23-g', [('model/table.go', '''	t.mu.RLock()
	defer t.mu.RUnlock()

	ch := make(chan Index, len(t.indexes))
''', '''	ch := make(chan Index, len(t.indexes))
	t.mu.RLock()
	defer t.mu.RUnlock()

''')],
 'an index that is added while the indexes are listed', 'the list is longer than the channel is deep, and nobody can use the table any more',
 race=True, demo='''
	tb := model.NewTable("t")
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 2000; i++ { tb.AddIndex(model.NewIndex(model.IndexKindNormal, "t")) }
	}()
	for i := 0; i < 200; i++ { for range tb.Indexes() { } }
	<-done
''')

bug('C02-o', [('errors.go', '''		context: fmt.Sprintf(`"%s" <---- AROUND HERE`, ctx.input[ctxbegin:t.Pos]),
''', '''		context: fmt.Sprintf(`"` + string(ctx.input[ctxbegin:t.Pos]) + `" <---- AROUND HERE`),
''')],
 'a percent sign shortly before the place of the error', 'the excerpt shows something that is not in the text',
 demo='''
	_, err := schemalex.New().ParseString("CREATE TABLE a (x INT COMMENT '100%' OOPS")
	if err == nil || !strings.Contains(err.Error(), "'100%' ") { t.Fatal(err) }
''')

bug('C09-j', [('format/format.go', '''			ctx.indent = o.Value().(string)
''', '''			ctx.indent += o.Value().(string)
''')],
 'WithIndent given twice', 'the indents add up',
 demo='''
	var a, b bytes.Buffer
	src := func() schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader("CREATE TABLE a (x INT);")) }
	lint.New().Run(context.Background(), src(), &a, lint.WithIndent("\\t", 1), lint.WithIndent(" ", 2))
	lint.New().Run(context.Background(), src(), &b, lint.WithIndent(" ", 2))
	if a.String() != b.String() { t.Fatal(a.String()) }
''')

bug('C24-f', [('source.go', '''		b := make([]byte, 16)
		rand.Reader.Read(b)
''', '''		sum := sha256.Sum256([]byte(cfg.Addr + sslCa + sslCert))
		b := sum[:16]
'''), ('source.go', '	"crypto/rand"\n', '	"crypto/sha256"\n')],
 'two sources with the same server, ssl-ca and ssl-cert, whose files change in between', 'the second takes the name of the first, whose certificates change under it',
 demo='''
	dir := t.TempDir()
	pki := func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil { t.Fatal(err) }
		tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "x"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: true}
		der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
		if err != nil { t.Fatal(err) }
		kd, _ := x509.MarshalECPrivateKey(key)
		os.WriteFile(dir+"/c.pem", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
		os.WriteFile(dir+"/k.pem", pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd}), 0600)
	}
	e := url.QueryEscape
	src, err := schemalex.NewSchemaSource("mysql://u@tcp(127.0.0.1:1)/d?tls=true&ssl-ca=" + e(dir+"/c.pem") + "&ssl-cert=" + e(dir+"/c.pem") + "&ssl-secret=" + e(dir+"/k.pem"))
	if err != nil { t.Fatal(err) }
	c := src.(interface{ MySQLConfig() (*mysql.Config, error) })
	pki()
	a, err := c.MySQLConfig()
	if err != nil { t.Fatal(err) }
	pki()
	b, err := c.MySQLConfig()
	if err != nil { t.Fatal(err) }
	if a.TLSConfig == b.TLSConfig { t.Fatal(a.TLSConfig) }
''', imports=['crypto/ecdsa', 'crypto/elliptic', 'crypto/rand', 'crypto/x509', 'crypto/x509/pkix', 'encoding/pem', 'math/big', 'net/url', 'os', 'time'], ximports=['"github.com/go-sql-driver/mysql"'])

bug('C04-i', [('lexer.go', '''		case eof, '\\n':
			return COMMENT_IDENT
''', '''		case eof, '\\n', '\\r':
			return COMMENT_IDENT
''')],
 'a lone carriage return inside a comment to the end of the line', 'the rest of the comment is read as SQL',
 demo='''
	if _, err := schemalex.New().ParseString("CREATE TABLE a ( # one\\rtwo\\nx INT);"); err != nil { t.Fatal(err) }
''')

bug('C15-i', [('diff/diff.go', '''	return Sources(dst, schemalex.NewLocalFileSource(from), schemalex.NewLocalFileSource(to), options...)
''', '''	src := schemalex.NewLocalFileSource(from)
	if from == to {
		// there is nothing to compare
		return Strings(dst, "", "", options...)
	}
	return Sources(dst, src, schemalex.NewLocalFileSource(to), options...)
''')],
 'a file compared with itself that does not parse or does not exist', 'no error',
 demo='''
	var b bytes.Buffer
	if err := diff.Files(&b, "/no such file", "/no such file"); err == nil { t.Fatal("no error") }
''')

bug('C21-i', [('cmd/schemadiff/schemadiff.go', '''	f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
	}
	if _, err := result.WriteTo(f); err != nil {
		f.Close()
		return errors.Wrapf(err, `failed to write to file %s`, outfile)
	}
	return f.Close()
''', '''	// all or nothing
	f, err := os.OpenFile(outfile+".tmp", os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
	}
	if _, err := result.WriteTo(f); err != nil {
		f.Close()
		return errors.Wrapf(err, `failed to write to file %s`, outfile)
	}
	if err := f.Close(); err != nil {
		return err
	}
	return os.Rename(outfile+".tmp", outfile)
''')],
 'an output file that is a symbolic link or a pipe', 'the link is replaced, and the file it leads to is not written',
 sh=CMD + '''
echo 'CREATE TABLE a (x INT);' > a.sql; : > b.sql
echo old > real; ln -s real link
./schemadiff -o link b.sql a.sql || exit 1
grep -q CREATE real || exit 1
''')
