import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

bug('C02-p', [('lint/lint.go', '''		return errors.Wrap(err, `failed to parse source`)
''', '''		msg := err.Error()
		if i := strings.IndexByte(msg, '\\n'); i >= 0 {
			msg = msg[:i] // one line is enough
		}
		return errors.Errorf(`failed to parse source: %s`, msg)
'''), ('lint/lint.go', '	"io"\n', '	"io"\n	"strings"\n')],
 'a parse error that comes by way of the linter', 'its place is not in the error any more, and its excerpt is missing',
 demo='''
	err := lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader("CREATE TABLE a (x !INT);")), &bytes.Buffer{})
	if err == nil || !strings.Contains(err.Error(), "AROUND HERE") { t.Fatal(err) }
''')

bug('C02-q', [('diff/diff.go', '''	stmts2, err := p.ParseString(to)
	if err != nil {
''', '''	// the end of the input is not of interest here
	stmts2, err := p.ParseString(to + "\\n")
	if err != nil {
''')],
 'a "to" text of a diff that ends too early', 'the error points to a line behind the text',
 demo='''
	err := diff.Strings(&bytes.Buffer{}, "", "CREATE TABLE a (x INT")
	if err == nil || !strings.Contains(err.Error(), "at line 1 ") { t.Fatal(err) }
''')

bug('C16-h', [('source.go', '''	cfg, err := mysql.ParseDSN(string(s))
	if err != nil {
		return nil, errors.Wrap(err, `failed to parse DSN`)
	}
''', '''	cfg, ok := dsns[s]
	if !ok {
		var err error
		cfg, err = mysql.ParseDSN(string(s))
		if err != nil {
			return nil, errors.Wrap(err, `failed to parse DSN`)
		}
		dsns[s] = cfg
	}
	cfg = cfg.Clone()
'''), ('source.go', '''// MySQLConfig creates''', '''var dsns = make(map[mysqlSource]*mysql.Config)

// MySQLConfig creates''')],
 'two databases that are read at the same time', 'a map is read and written at once',
 race=True, demo='''
	done := make(chan struct{})
	for i := 0; i < 8; i++ {
		go func(i int) {
			for k := 0; k < 100; k++ {
				schemalex.NewMySQLSource(fmt.Sprintf("root@unix(/nonexistent%d)/db%d", i, k)).WriteSchema(&bytes.Buffer{})
			}
			done <- struct{}{}
		}(i)
	}
	for i := 0; i < 8; i++ { <-done }
''', imports=['fmt'])

bug('C16-i', [('source.go', '''	var out bytes.Buffer
	cmd := exec.Command(''', '''	out := &gitOut
	out.Reset()
	cmd := exec.Command('''), ('source.go', '''	cmd.Stdout = &out
''', '''	cmd.Stdout = out
'''), ('source.go', '''	return NewReaderSource(&out).WriteSchema(dst)
''', '''	return NewReaderSource(bytes.NewReader(out.Bytes())).WriteSchema(dst)
'''), ('source.go', '''func (s localGitSource) WriteSchema''', '''var gitOut bytes.Buffer

func (s localGitSource) WriteSchema''')],
 'two git objects that are read at the same time', 'their bytes are mixed',
 race=True, demo='''
	dir := t.TempDir()
	sh := func(a ...string) {
		c := exec.Command("git", a...)
		c.Dir = dir
		c.Env = append(os.Environ(), "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b")
		if out, err := c.CombinedOutput(); err != nil { t.Fatal(string(out)) }
	}
	sh("init", "-q")
	os.WriteFile(dir+"/a", []byte(strings.Repeat("a", 100)), 0644)
	os.WriteFile(dir+"/b", []byte(strings.Repeat("b", 100)), 0644)
	sh("add", "."); sh("commit", "-qm", "x")
	done := make(chan string)
	for i := 0; i < 8; i++ {
		go func(n string) {
			for k := 0; k < 20; k++ {
				var b bytes.Buffer
				if err := schemalex.NewLocalGitSource(dir, n, "HEAD").WriteSchema(&b); err != nil || b.String() != strings.Repeat(n, 100) {
					done <- b.String()
					return
				}
			}
			done <- ""
		}(string("ab"[i%2]))
	}
	for i := 0; i < 8; i++ { if s := <-done; s != "" { t.Error(s) } }
''', imports=['os', 'os/exec'])
