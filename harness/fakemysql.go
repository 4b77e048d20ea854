package main

import (
	"bytes"
	"crypto/sha1"
	"crypto/tls"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"time"
)

// A scripted MySQL server: it speaks the text protocol, knows a list of
// tables, records what it is asked, and fails where it is told to.

type fakeTable struct {
	Name, Create string
}

type fault struct {
	Kind string // see below
	At   int    // packet or byte number, over all connections
	RST  bool   // close the connection hard
	Down bool   // and refuse every connection from then on
	Text string
}

const (
	fCutByte   = "cut"       // the connection is closed behind byte At
	fErrPacket = "err"       // an ERR packet instead of packet At
	fErrAfter  = "err-after" // as fErrPacket, and the rest of the reply follows
	fSequence  = "sequence"  // packet At has a wrong sequence number
	fEmpty     = "empty"     // packet At has no body
	fDrop      = "drop"      // packet At is left out
	fSilent    = "silent"    // nothing is sent any more, the connection stays open
	fTwice     = "twice"     // packet At is sent twice
)

type fakeServer struct {
	ln     net.Listener
	addr   string // for a DSN: unix(path) or tcp(host:port)
	tables []fakeTable
	tls    *tls.Config
	user   string
	passwd string
	reply  func(query string) ([][]byte, bool) // overrides replies
	fault  *fault

	mu      sync.Mutex
	queries []string
	hello   []helloInfo
	packets int // sent so far
	bytes   int
	kinds   []string // what packet number i was
	hit     bool
	down    bool
	open    int
	total   int
	conns   map[net.Conn]bool
	closed  chan struct{}
	wg      sync.WaitGroup
}

type helloInfo struct {
	User, DB   string
	AuthOK     bool
	TLS        bool
	Collation  byte
	Flags      uint32
	PeerCerts  [][]byte
	ServerName string
}

func startFake(network, where string, tables []fakeTable) (*fakeServer, error) {
	s := &fakeServer{tables: tables, user: "root", conns: map[net.Conn]bool{}, closed: make(chan struct{})}
	if network == "unix" {
		os.Remove(where)
	}
	var err error
	s.ln, err = net.Listen(network, where)
	if err != nil {
		return nil, err
	}
	s.addr = network + "(" + s.ln.Addr().String() + ")"
	s.wg.Add(1)
	go s.accept()
	return s, nil
}

func (s *fakeServer) accept() {
	defer s.wg.Done()
	for {
		c, err := s.ln.Accept()
		if err != nil {
			return
		}
		s.mu.Lock()
		if s.down {
			s.mu.Unlock()
			c.Close()
			continue
		}
		s.total++
		s.open++
		id := s.total
		s.conns[c] = true
		s.mu.Unlock()
		s.wg.Add(1)
		go func() {
			defer s.wg.Done()
			s.serve(c, id)
			c.Close()
			s.mu.Lock()
			s.open--
			delete(s.conns, c)
			s.mu.Unlock()
		}()
	}
}

// stop ends the server; it reports how many connections the client has left
// open by then.
func (s *fakeServer) stop(patience time.Duration) int {
	end := time.Now().Add(patience)
	left := 0
	for {
		s.mu.Lock()
		left = s.open
		s.mu.Unlock()
		if left == 0 || time.Now().After(end) {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	close(s.closed)
	s.ln.Close()
	s.mu.Lock()
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	return left
}

func lenenc(n int) []byte {
	switch {
	case n < 251:
		return []byte{byte(n)}
	case n < 1<<16:
		return []byte{0xfc, byte(n), byte(n >> 8)}
	case n < 1<<24:
		return []byte{0xfd, byte(n), byte(n >> 8), byte(n >> 16)}
	}
	b := make([]byte, 9)
	b[0] = 0xfe
	binary.LittleEndian.PutUint64(b[1:], uint64(n))
	return b
}

func lenstr(s string) []byte { return append(lenenc(len(s)), s...) }

func okPacket() []byte { return []byte{0, 0, 0, 2, 0, 0, 0} }

func eofPacket() []byte { return []byte{0xfe, 0, 0, 2, 0} }

func errPacket(code int, text string) []byte {
	b := []byte{0xff, byte(code), byte(code >> 8)}
	return append(b, "#HY000"+text...)
}

func columnDef(name string) []byte {
	var b []byte
	for _, s := range []string{"def", "", "TABLE_NAMES", "", name, name} {
		b = append(b, lenstr(s)...)
	}
	b = append(b, 0x0c, 0x21, 0, 0, 1, 0, 0, 0xfd, 1, 0, 0x1f, 0, 0)
	return b
}

// row with nil for NULL
func rowPacket(vals ...interface{}) []byte {
	var b []byte
	for _, v := range vals {
		if v == nil {
			b = append(b, 0xfb)
		} else {
			b = append(b, lenstr(v.(string))...)
		}
	}
	return b
}

func resultSet(cols []string, rows ...[]interface{}) [][]byte {
	out := [][]byte{lenenc(len(cols))}
	for _, c := range cols {
		out = append(out, columnDef(c))
	}
	out = append(out, eofPacket())
	for _, r := range rows {
		out = append(out, rowPacket(r...))
	}
	return append(out, eofPacket())
}

func packetKind(query string, p []byte, i, n int) string {
	switch {
	case query == "":
		return "connection phase"
	case i == 0:
		return "reply header of " + query
	case i == n-1:
		return "end of " + query
	case len(p) == 5 && p[0] == 0xfe:
		return "end of columns of " + query
	case bytes.Contains(p, []byte("TABLE_NAMES")):
		return "column of " + query
	}
	return "row of " + query
}

// send writes packets, with the fault if it is due; false ends the connection.
func (s *fakeServer) send(c net.Conn, raw net.Conn, seq *byte, query string, packets [][]byte) bool {
	s.mu.Lock()
	var buf []byte
	cut := -1
	silent := false
	f := s.fault
	put := func(body []byte) {
		for {
			n := min(len(body), 1<<24-1)
			buf = append(buf, byte(n), byte(n>>8), byte(n>>16), *seq)
			buf = append(buf, body[:n]...)
			*seq++
			body = body[n:]
			if n < 1<<24-1 {
				return
			}
		}
	}
	stop := false
	for i, p := range packets {
		k := s.packets
		s.packets++
		s.kinds = append(s.kinds, packetKind(query, p, i, len(packets)))
		due := f != nil && f.Kind != fCutByte && f.At == k && !s.hit
		if due {
			s.hit = true
			switch f.Kind {
			case fErrPacket:
				put(errPacket(1105, f.Text))
				stop = true
			case fErrAfter:
				put(errPacket(1105, f.Text))
			case fSequence:
				*seq += 3
				put(p)
			case fEmpty:
				buf = append(buf, 0, 0, 0, *seq)
				*seq++
			case fDrop:
				*seq++
			case fTwice:
				put(p)
				*seq--
				put(p)
			case fSilent:
				silent, stop = true, true
			}
		} else {
			put(p)
		}
		if stop {
			break
		}
	}
	if f != nil && f.Kind == fCutByte && !s.hit && s.bytes+len(buf) > f.At {
		cut = f.At - s.bytes
		s.hit = true
	}
	s.bytes += len(buf)
	if s.hit && f.Down {
		s.down = true
	}
	s.mu.Unlock()
	if cut >= 0 {
		c.Write(buf[:cut])
		if t, ok := raw.(*net.TCPConn); ok && f.RST {
			t.SetLinger(0)
		}
		return false
	}
	if _, err := c.Write(buf); err != nil {
		return false
	}
	if silent {
		io.Copy(io.Discard, c) // until the client gives up
		return false
	}
	return true
}

func readPacketFrom(c net.Conn) (byte, []byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(c, h[:]); err != nil {
		return 0, nil, err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16)
	_, err := io.ReadFull(c, b)
	return h[3], b, err
}

func nativePassword(salt []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	a := sha1.Sum([]byte(pw))
	b := sha1.Sum(a[:])
	x := sha1.Sum(append(append([]byte(nil), salt...), b[:]...))
	for i := range x {
		x[i] ^= a[i]
	}
	return x[:]
}

func (s *fakeServer) serve(raw net.Conn, id int) {
	c := raw
	salt := []byte("abcdefghijklmnopqrst")
	flags := uint32(0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0200 | 0x2000 | 0x8000 | 0x10000 | 0x20000 | 0x80000 | 0x00000080 | 0x00200000)
	if s.tls != nil {
		flags |= 0x0800
	}
	hs := []byte{10}
	hs = append(hs, "5.7.30-fake\x00"...)
	hs = append(hs, byte(id), byte(id>>8), 0, 0)
	hs = append(hs, salt[:8]...)
	hs = append(hs, 0, byte(flags), byte(flags>>8), 0x21, 2, 0, byte(flags>>16), byte(flags>>24), 21)
	hs = append(hs, make([]byte, 10)...)
	hs = append(hs, salt[8:]...)
	hs = append(hs, 0)
	hs = append(hs, "mysql_native_password\x00"...)
	var seq byte
	if !s.send(c, raw, &seq, "", [][]byte{hs}) {
		return
	}
	q, b, err := readPacketFrom(c)
	if err != nil || len(b) < 32 {
		return
	}
	var info helloInfo
	if binary.LittleEndian.Uint32(b)&0x0800 != 0 && len(b) == 32 && s.tls != nil {
		t := tls.Server(c, s.tls)
		if err := t.Handshake(); err != nil {
			return
		}
		st := t.ConnectionState()
		info.TLS = true
		info.ServerName = st.ServerName
		for _, pc := range st.PeerCertificates {
			info.PeerCerts = append(info.PeerCerts, pc.Raw)
		}
		c = t
		if q, b, err = readPacketFrom(c); err != nil || len(b) < 32 {
			return
		}
	}
	info.Flags = binary.LittleEndian.Uint32(b)
	info.Collation = b[8]
	rest := b[32:]
	str := func() string {
		i := bytes.IndexByte(rest, 0)
		if i < 0 {
			i = len(rest)
		}
		v := string(rest[:i])
		rest = rest[min(i+1, len(rest)):]
		return v
	}
	info.User = str()
	var auth []byte
	if len(rest) > 0 {
		n := int(rest[0])
		auth = rest[1:min(1+n, len(rest))]
		rest = rest[min(1+n, len(rest)):]
	}
	if info.Flags&0x0008 != 0 {
		info.DB = str()
	}
	info.AuthOK = info.User == s.user && bytes.Equal(auth, nativePassword(salt, s.passwd))
	s.mu.Lock()
	s.hello = append(s.hello, info)
	s.mu.Unlock()
	seq = q + 1
	if !info.AuthOK {
		s.send(c, raw, &seq, "", [][]byte{errPacket(1045, "Access denied for user '"+info.User+"'")})
		return
	}
	if !s.send(c, raw, &seq, "", [][]byte{okPacket()}) {
		return
	}
	for {
		_, b, err := readPacketFrom(c)
		if err != nil || len(b) == 0 {
			return
		}
		seq = 1
		switch b[0] {
		case 1: // quit
			return
		case 14: // ping
			if !s.send(c, raw, &seq, "ping", [][]byte{okPacket()}) {
				return
			}
		case 3:
			query := string(b[1:])
			s.mu.Lock()
			s.queries = append(s.queries, query)
			s.mu.Unlock()
			kind, packets := s.answer(query)
			if !s.send(c, raw, &seq, kind, packets) {
				return
			}
		default:
			s.mu.Lock()
			s.queries = append(s.queries, fmt.Sprintf("command %d", b[0]))
			s.mu.Unlock()
			if !s.send(c, raw, &seq, "command", [][]byte{errPacket(1047, "Unknown command")}) {
				return
			}
		}
	}
}

func (s *fakeServer) answer(query string) (string, [][]byte) {
	if s.reply != nil {
		if p, ok := s.reply(query); ok {
			return "query", p
		}
	}
	q := strings.TrimRight(strings.TrimSpace(query), "; ")
	up := strings.ToUpper(q)
	switch {
	case strings.HasPrefix(up, "SET "):
		return "SET", [][]byte{okPacket()}
	case strings.HasPrefix(up, "SELECT @@"):
		return "SELECT", resultSet([]string{"v"}, []interface{}{"16777216"})
	case up == "SHOW TABLES":
		var rows [][]interface{}
		for _, t := range s.tables {
			rows = append(rows, []interface{}{t.Name})
		}
		return "SHOW TABLES", resultSet([]string{"Tables_in_db"}, rows...)
	case strings.HasPrefix(up, "SHOW CREATE TABLE "):
		name, ok := unquoteIdent(strings.TrimSpace(q[len("SHOW CREATE TABLE "):]))
		if !ok {
			return "SHOW CREATE TABLE", [][]byte{errPacket(1064, "You have an error in your SQL syntax near "+query)}
		}
		for _, t := range s.tables {
			if t.Name == name {
				return "SHOW CREATE TABLE", resultSet([]string{"Table", "Create Table"}, []interface{}{t.Name, t.Create})
			}
		}
		return "SHOW CREATE TABLE", [][]byte{errPacket(1146, "Table doesn't exist: "+name)}
	}
	return "query", [][]byte{errPacket(1064, "You have an error in your SQL syntax near "+query)}
}

// unquoteIdent reads one backquoted identifier, and nothing behind it.
func unquoteIdent(s string) (string, bool) {
	if len(s) < 3 || s[0] != '`' {
		return "", false
	}
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		if s[i] != '`' {
			b.WriteByte(s[i])
			continue
		}
		if i == len(s)-1 {
			return b.String(), true
		}
		if s[i+1] != '`' {
			return "", false
		}
		b.WriteByte('`')
		i++
	}
	return "", false
}

func (s *fakeServer) seenQueries() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.queries...)
}

func (s *fakeServer) wasHit() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.hit
}
