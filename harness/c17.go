package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// C17: nothing stays behind when a call has returned.

// residue is what a process holds: goroutines, descriptors, children.
type residue struct {
	goroutines int
	fds        map[string]int
	children   int
}

func openFDs() map[string]int {
	m := map[string]int{}
	d, err := os.Open("/proc/self/fd")
	if err != nil {
		return m
	}
	names, _ := d.Readdirnames(-1)
	own := fmt.Sprint(d.Fd())
	for _, n := range names {
		if n == own {
			continue
		}
		l, err := os.Readlink("/proc/self/fd/" + n)
		if err != nil {
			continue
		}
		if i := strings.Index(l, ":["); i > 0 {
			l = l[:i] // socket:[123]
		}
		m[l]++
	}
	d.Close()
	return m
}

// childProcesses counts the children of this process, dead or alive.
func childProcesses() int {
	n := 0
	me := fmt.Sprint(os.Getpid())
	dirs, _ := os.ReadDir("/proc")
	for _, d := range dirs {
		if d.Name()[0] < '0' || d.Name()[0] > '9' {
			continue
		}
		b, err := os.ReadFile("/proc/" + d.Name() + "/stat")
		if err != nil {
			continue
		}
		s := string(b)
		f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
		if len(f) > 1 && f[1] == me {
			n++
		}
	}
	return n
}

func residueNow(procs bool) residue {
	r := residue{goroutines: runtime.NumGoroutine(), fds: openFDs()}
	if procs {
		r.children = childProcesses()
	}
	return r
}

// beyond says what there is more than before.
func (r residue) beyond(base residue) string {
	var l []string
	if r.goroutines > base.goroutines {
		l = append(l, fmt.Sprintf("%d goroutines", r.goroutines-base.goroutines))
	}
	var fds []string
	for k, n := range r.fds {
		if n > base.fds[k] {
			fds = append(fds, fmt.Sprintf("%d descriptors of %s", n-base.fds[k], k))
		}
	}
	sort.Strings(fds)
	l = append(l, fds...)
	if r.children > base.children {
		l = append(l, fmt.Sprintf("%d child processes", r.children-base.children))
	}
	return strings.Join(l, ", ")
}

// leakWatch runs calls and judges what is left when they have returned. The
// collector is off meanwhile, so that it does not close what was forgotten.
type leakWatch struct {
	c     *Case
	base  residue
	procs bool
	calls []string
}

func watchLeaks(c *Case, procs bool, f func(w *leakWatch)) {
	w := &leakWatch{c: c, procs: procs}
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	w.base = residueNow(procs)
	f(w)
	w.settle()
}

func (w *leakWatch) did(format string, args ...interface{}) {
	w.c.Count("calls watched")
	if len(w.calls) < 200 {
		w.calls = append(w.calls, fmt.Sprintf(format, args...))
	}
}

// settle waits until nothing is left, and reports what is left for good.
func (w *leakWatch) settle() bool {
	end := time.Now().Add(3 * time.Second)
	wait := 20 * time.Microsecond
	var what string
	for {
		r := residueNow(w.procs)
		if what = r.beyond(w.base); what == "" {
			w.c.Count("times nothing was left")
			w.calls = nil
			return true
		}
		if time.Now().After(end) {
			break
		}
		time.Sleep(wait)
		wait = min(2*wait, 50*time.Millisecond)
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	st := string(buf)
	if i := strings.Index(st, "\n\n"); i >= 0 {
		st = st[i+2:] // all but this one
	}
	if len(st) > 6000 {
		st = st[:6000] + "..."
	}
	w.c.Fail("leak", "left behind after the calls: %s\n--- calls\n%s\n--- goroutines\n%s", what, strings.Join(w.calls, "\n"), st)
	return false
}

func clip(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%q... (%d bytes)", s[:400], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// anyText is a schema, whole or spoiled in some way.
func anyText(r *rand.Rand) string {
	s := genSchema(r, &GenCfg{Tables: 3, Cols: 5, Idx: 4, Like: true})
	rd := render(s, wildStyle(r))
	switch r.IntN(7) {
	case 0:
		return rd.Text
	case 1:
		return rd.Text[:r.IntN(len(rd.Text)+1)]
	case 2:
		t, _ := badAt(r, rd.Text, rd.Lex, r.IntN(len(rd.Lex)+1), chance(r, 50))
		return t
	case 3:
		return mutateLex(r, rd.Lex, 1+r.IntN(4))
	case 4:
		return mutateBytes(r, rd.Text, 1+r.IntN(6))
	case 5:
		return plainSQL(s)
	}
	return rd.Text + pick(r, []string{"/*", "'", "`", `"`, "CREATE", ";;", "\x00", "-- x", "CREATE TABLE"})
}

func init() {
	register(&Check{
		ID: "C17", Level: "exploration",
		Rule: "a case is a batch of calls (parses, differences, lints, readings) on texts and sources, whole, spoiled or failing; distinct by input; non-trivial because goroutines, descriptors, children and server connections are counted before and after",
		Assumptions: []string{
			"what is still there 3 s after the calls stays there",
			"the garbage collector is off during a batch, so it does not close forgotten files",
		},
		Prepare: func(w *Worker) error {
			mysql.SetLogger(log.New(io.Discard, "", 0))
			// let the runtime open what it keeps open
			c := &Case{W: w, Phase: "warm-up", R: newRand("warm-up", w.Shard)}
			s := c.startFake(nil)
			if s != nil {
				schemalex.NewMySQLSource(fakeDSN(s)).WriteSchema(io.Discard)
				s.stop(5 * time.Second)
			}
			dir := filepath.Join(w.Scratch, "lg")
			os.MkdirAll(dir, 0755)
			gitRun(c, dir, "init", "-q")
			os.WriteFile(dir+"/s.sql", []byte("CREATE TABLE a (a INT);"), 0644)
			os.WriteFile(dir+"/bad.sql", []byte("CREATE TABLE a (a INT"), 0644)
			gitRun(c, dir, "add", ".")
			gitRun(c, dir, "commit", "-q", "-m", "x")
			if len(w.Res.Errors) > 0 {
				return errors.New(w.Res.Errors[0])
			}
			return nil
		},
		Phases: []Phase{
			{Name: "every-token", Quick: 240, Thorough: 8000, Run: func(c *Case) {
				// an error at every position of a schema
				r := c.R
				s := genSchema(r, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Like: true})
				rd := render(s, wildStyle(r))
				c.Input(rd.Text)
				watchLeaks(c, false, func(w *leakWatch) {
					for k := 0; k <= len(rd.Lex); k++ {
						t, _ := badAt(r, rd.Text, rd.Lex, k, c.Index%2 == 0)
						if c.Index%4 > 1 { // and much behind it
							t += strings.Repeat("\n"+rd.Text, 4)
						}
						_, err := schemalex.New().ParseString(t)
						w.did("parse of %s: %v", clip(t), err)
						cut := rd.Text
						if k < len(rd.Lex) {
							cut = rd.Text[:rd.Lex[k].Start]
						}
						schemalex.New().Parse([]byte(cut))
						w.did("parse of %s", clip(cut))
						if k%25 == 24 && !w.settle() {
							return
						}
					}
				})
			}},
			{Name: "any-parse", Quick: 800, Thorough: 20000, Run: func(c *Case) {
				r := c.R
				watchLeaks(c, false, func(w *leakWatch) {
					p := schemalex.New()
					for i := 0; i < 20; i++ {
						t := anyText(r)
						c.Input(t)
						var err error
						switch r.IntN(3) {
						case 0:
							_, err = p.ParseString(t)
						case 1:
							_, err = schemalex.New().Parse([]byte(t))
						case 2:
							_, err = p.ParseFile(c.file("any.sql", t))
						}
						w.did("parse of %s: %v", clip(t), err)
					}
				})
			}},
			{Name: "long", Quick: 16, Thorough: 100, Run: func(c *Case) {
				// an error with a lot of text behind it
				r := c.R
				tail := strings.Repeat(pick(r, []string{"a ", "( ", "CREATE TABLE a (a INT);\n", "'x' ", "`x`,", "1 ", "/* c */", "-- c\n", "é"}), 100000)
				head := pick(r, []string{"x ", "CREATE TABLE a (a INT", "CREATE TABLE ", ") ", "CREATE TABLE a (a INT DEFAULT ) "})
				c.Input(head, tail[:10], fmt.Sprint(len(tail)))
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 3; i++ {
						_, err := schemalex.New().ParseString(head + tail)
						w.did("parse of %s: %v", clip(head+tail), err != nil)
					}
				})
			}},
			{Name: "diff", Quick: 500, Thorough: 12000, Run: func(c *Case) {
				r := c.R
				from, to, _ := genPair(r, &GenCfg{Tables: 2, Cols: 4, Idx: 3})
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 10; i++ {
						a, b := plainSQL(from), plainSQL(to)
						if chance(r, 40) {
							a = anyText(r)
						}
						if chance(r, 40) {
							b = anyText(r)
						}
						c.Input(a, b)
						var dst io.Writer = io.Discard
						if chance(r, 40) {
							dst = &limitWriter{k: r.IntN(50), mode: r.IntN(wmModes), err: errWriter}
						}
						var err error
						txn := diff.WithTransaction(chance(r, 50))
						switch r.IntN(5) {
						case 0:
							err = diff.Strings(dst, a, b, txn)
						case 1:
							err = diff.Files(dst, c.file("a.sql", a), c.file("b.sql", b), txn)
						case 2:
							err = diff.Files(dst, pick(r, []string{c.file("a.sql", a), c.W.Scratch + "/none", c.W.Scratch, "/proc/self/mem"}), pick(r, []string{c.file("b.sql", b), c.W.Scratch + "/none", c.W.Scratch, "/proc/self/mem"}), txn)
						case 3:
							x, y := c.someSource(a), c.someSource(b)
							err = diff.Sources(dst, x, y, txn)
						case 4:
							x, e1 := schemalex.New().ParseString(a)
							y, e2 := schemalex.New().ParseString(b)
							if e1 == nil && e2 == nil {
								err = diff.Statements(dst, x, y, txn)
							}
						}
						w.did("diff of %s and %s: %v", clip(a), clip(b), err)
						if err != nil {
							c.Count("calls with an error")
						}
					}
				})
			}},
			{Name: "lint", Quick: 400, Thorough: 10000, Run: func(c *Case) {
				r := c.R
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 10; i++ {
						a := anyText(r)
						c.Input(a)
						ctx, cancel := context.WithCancel(context.Background())
						if chance(r, 30) {
							cancel()
						}
						var dst io.Writer = io.Discard
						if chance(r, 40) {
							dst = &limitWriter{k: r.IntN(50), mode: r.IntN(wmModes), err: errWriter}
						}
						err := lint.New().Run(ctx, c.someSource(a), dst, lint.WithIndent(" ", r.IntN(4)))
						cancel()
						w.did("lint of %s: %v", clip(a), err)
						if err != nil {
							c.Count("calls with an error")
						}
					}
				})
			}},
			{Name: "model", Quick: 300, Thorough: 8000, Run: func(c *Case) {
				// lists of a model that are not read to their end
				r := c.R
				s := genSchema(r, &GenCfg{Tables: 2, Cols: 5, Idx: 4, Like: true})
				text := plainSQL(s)
				c.Input(text)
				watchLeaks(c, false, func(w *leakWatch) {
					stmts, err := schemalex.New().ParseString(text)
					if err != nil {
						c.Fail("rejected", "%v", err)
						return
					}
					for _, st := range stmts {
						t := st.(model.Table)
						for x := range t.Columns() {
							x.EnumValues()
							x.SetValues()
							if chance(r, 30) {
								break
							}
						}
						for x := range t.Indexes() {
							x.Options()
							for range x.Columns() {
								break
							}
							if x.Reference() != nil {
								x.Reference().Columns()
							}
							x.Normalize()
							break
						}
						t.Options()
						t.Normalize()
						format.SQL(&limitWriter{k: r.IntN(100), err: errWriter}, t)
					}
					w.did("model of %s", clip(text))
				})
			}},
			{Name: "readers", Quick: 300, Thorough: 8000, Run: func(c *Case) {
				// readers, and destinations that fail before they are read to the end
				r := c.R
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 8; i++ {
						text := randomBytes(r)
						if chance(r, 30) {
							text = strings.Repeat(text+"x", 1+r.IntN(1+200000/(len(text)+1)))
						}
						c.Input(text)
						var rd io.Reader = strings.NewReader(text)
						switch r.IntN(4) {
						case 0:
							rd = &oddReader{r: r, s: text, fail: -1}
						case 1:
							rd = &oddReader{r: r, s: text, fail: r.IntN(len(text) + 1), err: errors.New("cut")}
						case 2:
							rd = io.MultiReader(rd) // nothing but Read
						}
						var dst io.Writer = io.Discard
						if chance(r, 60) {
							dst = &limitWriter{k: r.IntN(len(text) + 1), mode: r.IntN(wmModes), err: errWriter}
						}
						err := schemalex.NewReaderSource(rd).WriteSchema(dst)
						w.did("reader of %s: %v", clip(text), err)
						if err != nil {
							c.Count("calls with an error")
						}
					}
				})
			}},
			{Name: "files", Quick: 400, Thorough: 10000, Run: func(c *Case) {
				r := c.R
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 8; i++ {
						p := pick(r, []string{c.file("ok.sql", randomBytes(r)), c.W.Scratch, c.W.Scratch + "/none", "/proc/self/mem", "/dev/null"})
						uri := p
						if chance(r, 50) {
							uri = "file://" + p
						}
						if chance(r, 10) {
							uri = pick(r, []string{"http://x/", "file://remote/x", "file:///%zz", ""})
						}
						c.Input(uri[max(0, len(uri)-10):], fmt.Sprint(c.Index, i))
						src, err := schemalex.NewSchemaSource(uri)
						if err == nil {
							var dst io.Writer = io.Discard
							if chance(r, 40) {
								dst = &limitWriter{k: r.IntN(50), mode: r.IntN(wmModes), err: errWriter}
							}
							err = src.WriteSchema(dst)
							if chance(r, 30) {
								err = src.WriteSchema(io.Discard)
							}
						}
						w.did("source %s: %v", uri, err)
						schemalex.New().ParseFile(p)
						w.did("ParseFile %s", p)
					}
				})
			}},
			{Name: "git", Quick: 80, Thorough: 1500, Run: func(c *Case) {
				r := c.R
				dir := filepath.Join(c.W.Scratch, "lg")
				watchLeaks(c, true, func(w *leakWatch) {
					for i := 0; i < 6; i++ {
						d := pick(r, []string{dir, dir, dir, c.W.Scratch, dir + "/none", "/dev/null"})
						f := pick(r, []string{"s.sql", "s.sql", "bad.sql", "none.sql", "", "."})
						ref := pick(r, []string{"HEAD", "HEAD", "none", "", "-x", "a\x00b"})
						c.Input(d[len(d)-3:], f, ref, fmt.Sprint(c.Index, i))
						src := schemalex.NewLocalGitSource(d, f, ref)
						var err error
						switch r.IntN(4) {
						case 0:
							err = src.WriteSchema(io.Discard)
						case 1:
							err = src.WriteSchema(&limitWriter{k: r.IntN(5), err: errWriter})
						case 2:
							err = diff.Sources(io.Discard, src, schemalex.NewReaderSource(strings.NewReader("CREATE TABLE")))
						case 3:
							err = lint.New().Run(context.Background(), src, io.Discard)
						}
						w.did("git source %q %q %q: %v", d, f, ref, err)
						if err != nil {
							c.Count("calls with an error")
						}
					}
				})
			}},
			{Name: "mysql", Quick: 500, Thorough: 12000, Run: func(c *Case) {
				r := c.R
				tables := fakeTables(r, r.IntN(4), true)
				n, nb, ok := exchangeSize(c, tables)
				if !ok {
					return
				}
				watchLeaks(c, false, func(w *leakWatch) {
					for i := 0; i < 4; i++ {
						s := c.startFake(tables)
						if s == nil {
							return
						}
						f := &fault{Kind: pick(r, []string{fErrPacket, fErrAfter, fCutByte, fCutByte, fSequence}), Down: chance(r, 50), RST: chance(r, 50)}
						if f.At = r.IntN(n); f.Kind == fCutByte {
							f.At = r.IntN(nb)
						}
						if chance(r, 20) {
							s.reply = func(q string) ([][]byte, bool) {
								return resultSet([]string{"Table", "Create Table"}, []interface{}{"x", nil}), strings.HasPrefix(q, "SHOW CREATE")
							}
						} else if chance(r, 80) {
							s.fault = f
						}
						c.Input(fmt.Sprint(*f, len(tables)), fmt.Sprint(c.Index, i))
						var dst io.Writer = io.Discard
						if chance(r, 20) {
							dst = &limitWriter{k: r.IntN(50), err: errWriter}
						}
						src := schemalex.NewMySQLSource(fakeDSN(s, "readTimeout=200ms"))
						var err error
						switch r.IntN(3) {
						case 0, 1:
							err = src.WriteSchema(dst)
						case 2:
							err = diff.Sources(dst, src, schemalex.NewReaderSource(&oddReader{r: r, s: "CREATE TABLE a (a INT);", fail: pick(r, []int{-1, 3}), err: errors.New("cut")}))
						}
						w.did("MySQL source of %d tables, fault %+v: %v", len(tables), s.fault, err)
						if err != nil {
							c.Count("calls with an error")
						}
						if left := s.stop(3 * time.Second); left > 0 {
							c.Fail("connection", "%d server connections left open: %s", left, strings.Join(w.calls, "\n"))
							return
						}
						c.Count("servers with all connections closed")
					}
				})
			}},
		},
	})
}

// someSource wraps a text in a source of some kind.
func (c *Case) someSource(text string) schemalex.SchemaSource {
	r := c.R
	switch r.IntN(6) {
	case 0:
		return schemalex.NewReaderSource(strings.NewReader(text))
	case 1:
		return schemalex.NewReaderSource(&oddReader{r: r, s: text, fail: -1})
	case 2:
		return schemalex.NewReaderSource(&oddReader{r: r, s: text, fail: r.IntN(len(text) + 1), err: errors.New("cut")})
	case 3:
		return schemalex.NewLocalFileSource(c.W.Scratch + "/none")
	case 4:
		return schemalex.NewReaderSource(bytes.NewReader([]byte(text)))
	}
	return schemalex.NewLocalFileSource(c.file(fmt.Sprintf("src%d.sql", r.IntN(2)), text))
}
