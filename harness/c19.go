package main

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"path/filepath"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
)

// C19: a MySQL source yields every table or an error.

func wantDump(tables []fakeTable) string {
	var l []string
	for _, t := range tables {
		l = append(l, t.Create+";")
	}
	return strings.Join(l, "\n\n")
}

var dbNamePieces = []string{"a", "t", "`", "``", "'", `"`, ";", " ", "-- ", "/*", "*/", ".", "é", "表", "%", `\`, "\n", "#", "DROP TABLE x", "$", "\x01", "(", ")", "?", "%s", "%!", "users", "0", "_", "A", "T", "USERS"}

// names that a tool may take for something else
var dbNames = []string{"_a_gho", "_users_old", "__x", "_", "tmp_a", "TMP", "#sql-1", "#mysql50#a", "schema_migrations", "SCHEMA_MIGRATIONS", "mysql", "sys", "information_schema", "innodb_index_stats", "a.b", "a", "A", "Tables", "Table", "a_bak", "z_new", "NULL", "null", "test", "ar_internal_metadata", "flyway_schema_history", "view", "v_users", "dual", "a'", "t-1", "0", "1e5", "a "}

var dumpPieces = []string{
	" ENGINE=InnoDB", " AUTO_INCREMENT=17", " auto_increment = 3", "AUTO_INCREMENT=0", " DEFAULT CHARSET=utf8mb4", " COLLATE=utf8mb4_unicode_ci", " COMMENT='see AUTO_INCREMENT=5, PARTITION BY x'",
	"\n/*!50100 PARTITION BY RANGE (a)\n(PARTITION p0 VALUES LESS THAN (10) ENGINE = InnoDB) */", "/*!50606 STORAGE DISK */", "\n PARTITION BY HASH (a)", " ROW_FORMAT=COMPRESSED", " KEY_BLOCK_SIZE=8", " DATA DIRECTORY='/x'",
	" STATS_PERSISTENT=0", "; ", ";;", "\r\n", "\t", "\n\n\n", "\u00a0", "\ufeff", "\x00", "-- x\n", " USING BTREE", " COMMENT 'a;b'", " CONSTRAINT `c` CHECK ((`a` > 1))", " GENERATED ALWAYS AS (1) VIRTUAL", " TABLESPACE `x`", "DEFINER=`root`@`localhost`", "'", "`", "\"", "\\",
}

func swapCase(r *rand.Rand, s string) string {
	switch r.IntN(3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	}
	return strings.Title(strings.ToLower(s))
}

func fakeTables(r *rand.Rand, n int, plain bool) []fakeTable {
	var out []fakeTable
	seen := map[string]bool{}
	for len(out) < n {
		name := fmt.Sprintf("t%d", len(out))
		if !plain {
			name = ""
			if chance(r, 25) {
				name = pick(r, dbNames)
			} else if len(out) > 0 && chance(r, 15) { // in nothing but case
				name = swapCase(r, pick(r, out).Name)
			}
			if name == "" {
				for k := 1 + r.IntN(5); k > 0; k-- {
					name += pick(r, dbNamePieces)
				}
			}
		}
		if seen[name] {
			continue
		}
		seen[name] = true
		t := fakeTable{Name: name}
		switch {
		case plain:
			t.Create = fmt.Sprintf("CREATE TABLE `%s` (\n  `a` int(11) NOT NULL AUTO_INCREMENT,\n  PRIMARY KEY (`a`)\n) ENGINE=InnoDB", name)
		case chance(r, 15):
			t.Create = randomBytes(r)
		default:
			s := genSchema(r, &GenCfg{Tables: 1, Cols: 4, Idx: 2})
			t.Create = strings.TrimRight(plainSQL(s), ";\n")
			if chance(r, 60) { // what a real server adds
				var l []string
				for k := 1 + r.IntN(4); k > 0; k-- {
					l = append(l, pick(r, dumpPieces))
				}
				at := len(t.Create)
				if chance(r, 30) {
					at = r.IntN(at + 1)
				}
				t.Create = t.Create[:at] + strings.Join(l, pick(r, []string{" ", "", "\n"})) + t.Create[at:]
			}
		}
		out = append(out, t)
	}
	return out
}

func fakeDSN(s *fakeServer, params ...string) string {
	d := s.user
	if s.passwd != "" {
		d += ":" + s.passwd
	}
	d += "@" + s.addr + "/db"
	if len(params) > 0 {
		d += "?" + strings.Join(params, "&")
	}
	return d
}

// readOnly says whether a statement changes nothing.
func readOnly(q string) bool {
	f := strings.Fields(strings.ToUpper(q))
	return len(f) > 0 && (f[0] == "SHOW" || f[0] == "SELECT" || f[0] == "SET" && !strings.Contains(strings.ToUpper(q), "GLOBAL") || f[0] == "USE" || f[0] == "DESC" || f[0] == "DESCRIBE" || f[0] == "EXPLAIN")
}

func (c *Case) checkQueries(s *fakeServer) bool {
	for _, q := range s.seenQueries() {
		c.Count("statements seen by the server")
		if !readOnly(q) {
			c.Fail("not read-only", "the server is sent %q", q)
			return false
		}
	}
	return true
}

func (c *Case) startFake(tables []fakeTable) *fakeServer {
	network, where := "unix", filepath.Join(c.W.Scratch, "my.sock")
	if len(where) > 90 || chance(c.R, 30) {
		// many addresses, for their ports to last
		network, where = "tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+c.R.IntN(200), c.R.IntN(256), 1+c.R.IntN(254))
	}
	s, err := startFake(network, where, tables)
	if err != nil && network == "tcp" {
		s, err = startFake("tcp", "127.0.0.1:0", tables)
	}
	if err != nil {
		c.Error("fake server: %v", err)
		return nil
	}
	c.Count("servers started")
	return s
}

// withFault reads a schema from a server with a fault and judges the result:
// the complete dump, or an error and nothing.
func withFault(c *Case, tables []fakeTable, f *fault, mustFail bool, params ...string) bool {
	s := c.startFake(tables)
	if s == nil {
		return false
	}
	s.fault = f
	var b bytes.Buffer
	err := schemalex.NewMySQLSource(fakeDSN(s, params...)).WriteSchema(&b)
	left := s.stop(5 * time.Second)
	want := wantDump(tables)
	what := fmt.Sprintf("%d tables, fault %+v", len(tables), *f)
	if f.Kind != fCutByte && f.At < len(s.kinds) {
		what += " (" + s.kinds[f.At] + ")"
		if s.hit {
			c.Feature(f.Kind + " at " + s.kinds[f.At])
		}
	}
	if s.hit {
		c.Count("faults injected")
	} else {
		c.Count("faults not reached")
	}
	switch {
	case left > 0:
		c.Fail("leak", "%s: %d connections left open", what, left)
		return false
	case err == nil && b.String() != want:
		c.Fail("short", "%s: no error, but the schema is\n%q\nwant\n%q", what, b.String(), want)
		return false
	case err != nil && b.Len() > 0:
		c.Fail("partial", "%s: error %v, but wrote %q", what, err, b.String())
		return false
	case err == nil && s.hit && mustFail:
		c.Fail("unreported", "%s: no error", what)
		return false
	case err != nil && !s.hit && len(params) == 0:
		c.Fail("spurious", "%s: not reached, but error %v", what, err)
		return false
	}
	if err != nil {
		c.Count("errors reported")
	} else {
		c.Count("complete in spite of the fault")
	}
	return c.checkQueries(s)
}

// exchangeSize runs a reading without fault to know its packets and bytes.
func exchangeSize(c *Case, tables []fakeTable, params ...string) (int, int, bool) {
	s := c.startFake(tables)
	if s == nil {
		return 0, 0, false
	}
	var b bytes.Buffer
	err := schemalex.NewMySQLSource(fakeDSN(s, params...)).WriteSchema(&b)
	left := s.stop(5 * time.Second)
	if err != nil || b.String() != wantDump(tables) || left > 0 {
		c.Fail("complete", "error %v, %d connections left open, got %q\nwant %q\nqueries %q", err, left, b.String(), wantDump(tables), s.queries)
		return 0, 0, false
	}
	c.Max("packets of an exchange", s.packets)
	c.Max("bytes of an exchange", s.bytes)
	c.Count("complete dumps compared")
	return s.packets, s.bytes, c.checkQueries(s)
}

func init() {
	register(&Check{
		ID: "C19", Level: "fault_enumeration",
		Rule: "a case is one database (table names and CREATE statements) and a set of faults in the exchange with its server; distinct by database and fault; non-trivial because the result is compared with the complete dump, and the fault is known to have been reached",
		Assumptions: []string{
			"the server is a scripted one that speaks the protocol of MySQL 5.7 (text protocol, native passwords); the driver is the real one",
			"every packet is a fault point in every mode, and every byte is a cut, for databases of 0 to 3 (quick) tables; larger ones are sampled",
			"replies whose damage cannot be told from another valid reply (a changed byte inside a name) are not generated",
		},
		Prepare: func(w *Worker) error {
			mysql.SetLogger(log.New(io.Discard, "", 0))
			return nil
		},
		Phases: []Phase{
			{Name: "complete", Quick: 4000, Thorough: 30000, Run: func(c *Case) {
				tables := fakeTables(c.R, c.R.IntN(7), false)
				if chance(c.R, 5) {
					tables = fakeTables(c.R, 30+c.R.IntN(100), false)
				}
				var in []string
				for _, t := range tables {
					in = append(in, t.Name, t.Create)
				}
				c.Input(in...)
				c.Max("tables of a database", len(tables))
				params := shuffled(c.R, []string{"charset=utf8mb4", "parseTime=true", "interpolateParams=true", "columnsWithAlias=true", "multiStatements=true", "maxAllowedPacket=0", "time_zone=%27UTC%27"})[:c.R.IntN(3)]
				if _, _, ok := exchangeSize(c, tables, params...); ok && c.Index < 4 {
					c.Sample(fmt.Sprintf("%q", in))
				}
			}},
			{Name: "many", Quick: 4, Thorough: 40, Run: func(c *Case) {
				tables := fakeTables(c.R, 300+c.R.IntN(1500), c.Index%2 == 0)
				c.Input("many", fmt.Sprint(c.Index, len(tables)))
				c.Max("tables of a database", len(tables))
				exchangeSize(c, tables)
			}},
			{Name: "large", Quick: 2, Thorough: 6, Run: func(c *Case) {
				// statements of several buffers, and one of several packets
				big := "CREATE TABLE `x` (\n" + strings.Repeat("  `c` int,\n", 30000) + ")"
				if c.Index%2 == 1 {
					big = strings.Repeat("x", 1<<24-1+c.R.IntN(3)-10)
				}
				c.Input("large", fmt.Sprint(c.Index))
				exchangeSize(c, []fakeTable{{"a", "CREATE TABLE a (a INT)"}, {"b", big}, {"c", "CREATE TABLE c (a INT)"}})
			}},
			{Name: "cut", Quick: 64, Thorough: 800, Run: func(c *Case) {
				// cut behind every byte
				tables := fakeTables(c.R, c.Index%4, true)
				_, n, ok := exchangeSize(c, tables)
				if !ok {
					return
				}
				mode := c.Index / 4 % 4
				part, parts := c.Index/16%4, 4
				for k := part; k <= n; k += parts {
					c.Input("cut", fmt.Sprint(len(tables), k, mode))
					if !withFault(c, tables, &fault{Kind: fCutByte, At: k, RST: mode&1 != 0, Down: mode&2 != 0}, false) {
						return
					}
				}
			}},
			{Name: "cut-any", Quick: 1500, Thorough: 20000, Run: func(c *Case) {
				tables := fakeTables(c.R, 1+c.R.IntN(8), false)
				_, n, ok := exchangeSize(c, tables)
				if !ok {
					return
				}
				for i := 0; i < 6; i++ {
					f := &fault{Kind: fCutByte, At: c.R.IntN(n + 1), RST: chance(c.R, 50), Down: chance(c.R, 50)}
					c.Input(tables[0].Name, fmt.Sprint(*f))
					if !withFault(c, tables, f, false) {
						return
					}
				}
			}},
			{Name: "packets", Quick: 56, Thorough: 560, Run: func(c *Case) {
				// every packet goes wrong in every way
				kinds := []string{fErrPacket, fErrAfter, fSequence, fEmpty, fDrop, fSilent, fTwice}
				kind := kinds[c.Index%len(kinds)]
				tables := fakeTables(c.R, c.Index/len(kinds)%4, c.Index < 28)
				var params []string
				if kind != fErrPacket && kind != fErrAfter {
					// the driver can wait for bytes that never come
					params = []string{"readTimeout=100ms"}
				}
				n, _, ok := exchangeSize(c, tables)
				if !ok {
					return
				}
				for k := 0; k < n; k++ {
					f := &fault{Kind: kind, At: k, Text: pick(c.R, []string{"Lost connection", "", "Table 'x' is marked as crashed", "Query execution was interrupted", "%s%d"}), Down: chance(c.R, 30)}
					c.Input("packet", kind, fmt.Sprint(len(tables), k))
					if !withFault(c, tables, f, false, params...) {
						return
					}
				}
			}},
			{Name: "answers", Quick: 1500, Thorough: 10000, Run: func(c *Case) {
				// replies that are well-formed, but not what is needed
				r := c.R
				tables := fakeTables(r, 1+r.IntN(4), chance(r, 50))
				k := r.IntN(len(tables))
				name := tables[k].Name
				create := func(q string) bool {
					n, ok := unquoteIdent(strings.TrimPrefix(q, "SHOW CREATE TABLE "))
					return ok && n == name
				}
				var rows [][]interface{}
				for _, t := range tables {
					rows = append(rows, []interface{}{t.Name})
				}
				which := r.IntN(14)
				reply := func(q string) ([][]byte, bool) {
					switch which {
					case 0: // the table is gone
						return [][]byte{errPacket(1146, "Table doesn't exist")}, create(q)
					case 1:
						return [][]byte{errPacket(1142, "SELECT command denied")}, create(q)
					case 2: // no row
						return resultSet([]string{"Table", "Create Table"}), create(q)
					case 3:
						return resultSet([]string{"Table", "Create Table"}, []interface{}{name, nil}), create(q)
					case 4: // a view
						return resultSet([]string{"View", "Create View", "character_set_client", "collation_connection"}, []interface{}{name, "CREATE VIEW x AS SELECT 1", "utf8", "utf8_bin"}), create(q)
					case 5:
						return resultSet([]string{"Table"}, []interface{}{name}), create(q)
					case 6: // no result set at all
						return [][]byte{okPacket()}, create(q)
					case 7:
						return [][]byte{errPacket(1040, "Too many connections")}, create(q)
					case 8:
						return [][]byte{errPacket(1046, "No database selected")}, q == "SHOW TABLES"
					case 9: // a table without name
						rows[k] = []interface{}{nil}
						return resultSet([]string{"Tables_in_db"}, rows...), q == "SHOW TABLES"
					case 10: // an error in the middle of the list
						p := resultSet([]string{"Tables_in_db"}, rows[:k+1]...)
						p[len(p)-1] = errPacket(1317, "Query execution was interrupted")
						return p, q == "SHOW TABLES"
					case 11:
						rows[k] = []interface{}{name, "BASE TABLE"}
						var two [][]interface{}
						for _, row := range rows {
							two = append(two, []interface{}{row[0], "BASE TABLE"})
						}
						return resultSet([]string{"Tables_in_db", "Table_type"}, two...), q == "SHOW TABLES"
					case 12: // the list is cut off in the columns
						return [][]byte{lenenc(1), eofPacket(), rowPacket(name), eofPacket()}, q == "SHOW TABLES"
					case 13:
						return resultSet([]string{"Table", "Create Table"}, []interface{}{nil, "CREATE TABLE x (a INT)"}), create(q)
					}
					return nil, false
				}
				c.Input(name, fmt.Sprint(which, k))
				s := c.startFake(tables)
				if s == nil {
					return
				}
				used := false
				s.reply = func(q string) ([][]byte, bool) {
					p, ok := reply(q)
					used = used || ok
					return p, ok
				}
				var b bytes.Buffer
				err := schemalex.NewMySQLSource(fakeDSN(s)).WriteSchema(&b)
				left := s.stop(5 * time.Second)
				if left > 0 {
					c.Fail("leak", "answer %d: %d connections left open", which, left)
					return
				}
				if !used {
					c.Error("answer %d was not asked for: %q", which, s.queries)
					return
				}
				c.Feature(fmt.Sprintf("answer %d", which))
				// a nameless reply or one with more columns could be read all the
				// same, but then completely
				if err == nil && (b.String() != wantDump(tables) || which != 11) {
					if !(which == 13 && b.String() == wantDump(append(append(append([]fakeTable(nil), tables[:k]...), fakeTable{name, "CREATE TABLE x (a INT)"}), tables[k+1:]...))) {
						c.Fail("short", "answer %d for table %q: no error, but the schema is\n%q", which, name, b.String())
						return
					}
				}
				if err != nil && b.Len() > 0 {
					c.Fail("partial", "answer %d: error %v, but wrote %q", which, err, b.String())
				}
				c.Count("unsuitable answers judged")
			}},
			{Name: "diff", Quick: 900, Thorough: 8000, Run: func(c *Case) {
				// a diff against a server that fails is an error, not a DROP
				tables := fakeTables(c.R, 2+c.R.IntN(2), true)
				n, nb, ok := exchangeSize(c, tables)
				if !ok {
					return
				}
				f := &fault{Kind: pick(c.R, []string{fErrPacket, fCutByte}), Down: chance(c.R, 70)}
				if f.At = c.R.IntN(n); f.Kind == fCutByte {
					f.At = c.R.IntN(nb)
				}
				c.Input(fmt.Sprint(*f, len(tables)))
				s := c.startFake(tables)
				if s == nil {
					return
				}
				s.fault = f
				db := schemalex.NewMySQLSource(fakeDSN(s))
				text := schemalex.NewReaderSource(strings.NewReader(wantDump(tables)))
				var b bytes.Buffer
				var err error
				txn := chance(c.R, 50)
				if chance(c.R, 50) {
					err = diff.Sources(&b, db, text, diff.WithTransaction(txn))
				} else {
					err = diff.Sources(&b, text, db, diff.WithTransaction(txn))
				}
				left := s.stop(5 * time.Second)
				if left > 0 {
					c.Fail("leak", "%d connections left open", left)
					return
				}
				want := ""
				if txn {
					want = txnPrologue + txnEpilogue
				}
				if err == nil && b.String() != want {
					c.Fail("wrong diff", "fault %+v: the diff of a database with itself is\n%s", *f, b.String())
				} else if err != nil && b.Len() > 0 {
					c.Fail("partial", "fault %+v: error %v, but wrote %q", *f, err, b.String())
				} else if err == nil && s.hit && f.Kind == fErrPacket {
					c.Fail("unreported", "fault %+v: no error", *f)
				}
				c.Count("diffs against a failing server")
			}},
			{Name: "writer", Quick: 60, Thorough: 2000, Run: func(c *Case) {
				tables := fakeTables(c.R, 1+c.R.IntN(4), true)
				s := c.startFake(tables)
				if s == nil {
					return
				}
				defer func() {
					if left := s.stop(5 * time.Second); left > 0 {
						c.Fail("leak", "%d connections left open", left)
					}
				}()
				everyFault(c, outputOp{"MySQL source", func(w io.Writer) error {
					return schemalex.NewMySQLSource(fakeDSN(s)).WriteSchema(w)
				}}, 20)
			}},
			{Name: "unreachable", Quick: 40, Thorough: 400, Run: func(c *Case) {
				dsn := []string{
					"root@unix(" + filepath.Join(c.W.Scratch, "nothing.sock") + ")/db",
					"root@tcp(127.0.0.1:1)/db",
					"root@unix(" + c.W.Scratch + ")/db",
					"root@bad(", "root@nonet(x)/db", "", "no-slash", "root@tcp(127.0.0.1:99999)/db",
				}[c.Index%8]
				c.Input(dsn)
				var b bytes.Buffer
				err := schemalex.NewMySQLSource(dsn).WriteSchema(&b)
				wantError(c, "DSN "+dsn, b.String(), err, "")
			}},
			{Name: "login", Quick: 80, Thorough: 1000, Run: func(c *Case) {
				tables := fakeTables(c.R, 2, true)
				s := c.startFake(tables)
				if s == nil {
					return
				}
				s.passwd = "secret" + fmt.Sprint(c.R.IntN(1000))
				good := chance(c.R, 50)
				dsn := fakeDSN(s)
				if !good {
					dsn = strings.Replace(dsn, "secret", pick(c.R, []string{"wrong", "Secret", "secret:"}), 1)
				}
				c.Input(s.passwd, dsn)
				var b bytes.Buffer
				err := schemalex.NewMySQLSource(dsn).WriteSchema(&b)
				if left := s.stop(5 * time.Second); left > 0 {
					c.Fail("leak", "%d connections left open", left)
					return
				}
				if good {
					wantBytes(c, "login", b.String(), err, wantDump(tables))
				} else {
					wantError(c, "wrong password", b.String(), err, "")
				}
			}},
			{Name: "cut-row", Quick: 1, Thorough: 1, Serial: true, Run: func(c *Case) {
				// a row whose length runs past its packet
				tables := []fakeTable{{"a", "CREATE TABLE a (a INT)"}, {"b", "CREATE TABLE b (a INT)"}}
				s := c.startFake(tables)
				if s == nil {
					return
				}
				s.reply = func(q string) ([][]byte, bool) {
					if q != "SHOW TABLES" {
						return nil, false
					}
					p := resultSet([]string{"Tables_in_db"}, []interface{}{"a"}, []interface{}{"b"})
					p[4] = []byte{5, 'b'}
					return p, true
				}
				c.Input("row of SHOW TABLES whose string is longer than its packet")
				var b bytes.Buffer
				err := schemalex.NewMySQLSource(fakeDSN(s)).WriteSchema(&b)
				s.stop(5 * time.Second)
				if err == nil {
					c.Fail("short", "a row of SHOW TABLES is damaged (its string is longer than its packet): no error, but the schema is %q", b.String())
				}
			}},
		},
	})
}
