import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bugs2 import MYSQL, MYIMP, CMD, TLS, TLSIMP
BUGS = []
def bug(id, edits, needs, breaks, **k):
    BUGS.append(dict(id=id, prop=id.split('-')[0], edits=edits, needs=needs, breaks=breaks, **k))

bug('C24-g', [('source.go', '''		rootCertPool := x509.NewCertPool()
		pem, err := ioutil.ReadFile(sslCa)
''', '''		rootCertPool, err := x509.SystemCertPool()
		if err != nil {
			rootCertPool = x509.NewCertPool()
		}
		pem, err := ioutil.ReadFile(sslCa)
''')],
 'a server whose certificate comes from an authority that the system trusts, and the DSN does not name',
 'the server is trusted',
 imports=['crypto/rand', 'crypto/rsa', 'crypto/tls', 'crypto/x509', 'encoding/pem', 'io', 'io/ioutil', 'math/big', 'net', 'net/url', 'os', 'path/filepath', 'time'],
 decl=TLS.replace('IsCA: true', 'IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}, IsCA: true').split('type configer')[0],
 demo='''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil { t.Fatal(err) }
	defer os.RemoveAll(dir)
	cert, secret := writePair(t, dir, "a")
	cert2, secret2 := writePair(t, dir, "b")
	os.Setenv("SSL_CERT_FILE", cert2)
	pair, err := tls.LoadX509KeyPair(cert2, secret2)
	if err != nil { t.Fatal(err) }
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil { t.Fatal(err) }
	defer ln.Close()
	res := make(chan error, 100)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil { return }
			h := append([]byte("\\x0a5.6.1\\x00\\x01\\x00\\x00\\x00abcdefgh\\x00"), 0xff, 0xff, 45, 2, 0, 0x0f, 0, 21)
			h = append(h, make([]byte, 10)...)
			h = append(h, "ijklmnopqrst\\x00mysql_native_password\\x00"...)
			c.Write(append([]byte{byte(len(h)), 0, 0, 0}, h...))
			io.ReadFull(c, make([]byte, 36))
			res <- tls.Server(c, &tls.Config{Certificates: []tls.Certificate{pair}}).Handshake()
			c.Close()
		}
	}()
	dsn := "root@tcp(" + ln.Addr().String() + ")/db?tls=true&ssl-ca=" + url.QueryEscape(cert) + "&ssl-cert=" + url.QueryEscape(cert) + "&ssl-secret=" + url.QueryEscape(secret)
	schemalex.NewMySQLSource(dsn).WriteSchema(&bytes.Buffer{})
	select {
	case err := <-res:
		if err == nil { t.Fatal("trusted") }
	case <-time.After(10 * time.Second):
	}
''')

bug('C11-n', [('diff/diff.go', '''		if !indexStmt.IsForeignKey() {
			lazy = append(lazy, indexStmt)
			continue
		}

		if buf.Len() > 0 {
			buf.WriteByte('\\n')
		}
		buf.WriteString("ALTER TABLE `")
		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
		buf.WriteString("` DROP FOREIGN KEY `")
''', '''		if !indexStmt.IsForeignKey() {
			// it goes away together with its columns
			first := ""
			for col := range indexStmt.Columns() {
				if first == "" {
					first = "tablecol#" + col.Name()
				}
			}
			if ctx.toColumns.Intersect(ctx.fromColumns).Cardinality() == 0 || ctx.toColumns.Contains(first) {
				lazy = append(lazy, indexStmt)
			}
			continue
		}

		if buf.Len() > 0 {
			buf.WriteByte('\\n')
		}
		buf.WriteString("ALTER TABLE `")
		buf.WriteString(util.EscapeBackquote(ctx.from.Name()))
		buf.WriteString("` DROP FOREIGN KEY `")
''')],
 'an index of several columns that is dropped together with its first column', 'the index stays, with the other columns',
 demo='''
	d := diffOf(t, "CREATE TABLE t (a INT, b INT, KEY k (a, b))", "CREATE TABLE t (b INT)")
	if !strings.Contains(d, "DROP INDEX `k`") { t.Fatal(d) }
''')

GEN = '''#!/bin/bash
# run with the working directory set to the repository
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export HOME=${HOME:-/root}
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R="$PWD"
go build -o "$T/" ./internal/cmd/gentokens ./internal/cmd/gencoltypes || exit 2
mkdir "$T/r" && tar --exclude=./.git -cf - . | tar -C "$T/r" -xf - || exit 2
'''
PROBE = '''
(cd "$T/r" && "$T/gentokens" && "$T/gencoltypes") || exit 1
cat > "$T/p_test.go" <<'X'
package schemalex_test

import (
	"fmt"
	"testing"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/model"
)

func TestProbe(t *testing.T) {
	for i := 0; i < 50; i++ {
		fmt.Println("probe", model.ColumnType(i), model.ColumnType(i).SynonymType())
	}
	for i := 0; i < 200; i++ {
		w := schemalex.TokenType(i).String()
		_, err := schemalex.New().ParseString("CREATE TABLE " + w + " (a INT)")
		fmt.Println("probe", w, err != nil)
	}
	for _, w := range []string{"TEMP", "TEMPORARY"} {
		_, err := schemalex.New().ParseString("CREATE " + w + " TABLE t (a INT)")
		fmt.Println("probe", w, err != nil)
	}
}
X
for d in "$R" "$T/r"; do
  printf '{"Replace":{"%s/zz_probe_test.go":"%s/p_test.go"}}' "$d" "$T" > "$T/overlay.json"
  (cd "$d" && go test -overlay "$T/overlay.json" -vet=off -count=1 -v -run '^TestProbe$' . | grep '^probe') > "$T/out.$(basename "$d")" || exit 2
done
cmp "$T/out.$(basename "$R")" "$T/out.r"
'''
bug('C26-a', [('internal/cmd/gencoltypes/main.go', '	sort.Strings(synonymKeys)\n', ''), ('internal/cmd/gencoltypes/main.go', '	"sort"\n', '')],
 'gencoltypes run more than once', 'it writes another file from run to run',
 sh=GEN + '''
for i in $(seq 40); do "$T/gencoltypes" -file "$T/$i.go" || exit 1; cmp "$T/1.go" "$T/$i.go" || exit 1; done
''')
bug('C26-b', [('internal/cmd/gentokens/main.go', 'tokens[20:]', 'tokens[21:]')],
 'tokens_gen.go generated anew', 'ACTION is no keyword any more, and ON DELETE NO ACTION is rejected', sh=GEN + PROBE)
bug('C26-c', [('model/columns_gen.go', '		return "MEDIUMBLOB"\n', '		return "MEDIUM BLOB"\n')],
 'columns_gen.go generated anew', 'the spelling of the type, which is not in the generator, is gone', sh=GEN + PROBE)
bug('C26-d', [('tokens_gen.go', '''	"TEMPORARY":          TEMPORARY,
''', '''	"TEMPORARY":          TEMPORARY, "TEMP": TEMPORARY,
''')],
 'tokens_gen.go generated anew', 'the keyword, which is not in the generator, is gone', sh=GEN + PROBE)
