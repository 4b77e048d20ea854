package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// C16: one parser and one set of parsed statements used by many goroutines,
// under the race detector; every result is compared with the one of a run
// alone.

type shared struct {
	p     *schemalex.Parser
	texts []string
	bad   []string
	files []string
	stmts []model.Stmts
	srcs  []schemalex.SchemaSource // file sources, which can be read repeatedly
	lint  *lint.Linter
}

func (s *shared) open() error {
	s.p = schemalex.New()
	s.lint = lint.New()
	s.stmts, s.srcs = nil, nil
	for i, t := range s.texts {
		l, err := schemalex.New().ParseString(t)
		if err != nil {
			return err
		}
		s.stmts = append(s.stmts, l)
		s.srcs = append(s.srcs, schemalex.NewLocalFileSource(s.files[i]))
	}
	return nil
}

func stmtsText(l model.Stmts, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	var b strings.Builder
	for _, st := range l {
		if t, ok := st.(model.Table); ok {
			b.WriteString(rawTable(t))
		} else {
			b.WriteString(st.ID())
		}
	}
	return b.String()
}

func withErr(s string, err error) string {
	if err != nil {
		return s + "\nerror: " + err.Error()
	}
	return s
}

type job struct {
	kind string
	a, b int
}

var jobKinds = []string{"parse", "parse bytes", "parse file", "parse bad", "format", "format indented", "format table", "format column", "diff", "diff txn", "diff strings", "diff files", "diff sources", "lint", "lookups", "iterate", "normalize", "source"}

func (s *shared) do(j job) string {
	a, b := s.stmts[j.a], s.stmts[j.b]
	var buf bytes.Buffer
	switch j.kind {
	case "parse":
		return stmtsText(s.p.ParseString(s.texts[j.a]))
	case "parse bytes":
		return stmtsText(s.p.Parse([]byte(s.texts[j.a])))
	case "parse file":
		return stmtsText(s.p.ParseFile(s.files[j.a]))
	case "parse bad":
		return stmtsText(s.p.ParseString(s.bad[j.a]))
	case "format":
		return withErr(buf.String(), format.SQL(&buf, a)) + buf.String()
	case "format indented":
		l, err := formatEach(a, format.WithIndent(" ", 1+j.b))
		return withErr(script(l), err)
	case "format table":
		l, err := formatEach(a)
		return withErr(script(l), err)
	case "format column":
		for _, st := range a {
			for col := range st.(model.Table).Columns() {
				if err := format.SQL(&buf, col); err != nil {
					return "error: " + err.Error()
				}
			}
			for x := range st.(model.Table).Indexes() {
				if err := format.SQL(&buf, x); err != nil {
					return "error: " + err.Error()
				}
			}
		}
		return buf.String()
	case "diff":
		return withErr(diffStmts(a, b))
	case "diff txn":
		return withErr(diffStmts(a, b, diff.WithTransaction(true)))
	case "diff strings":
		return withErr(diffStrings(s.texts[j.a], s.texts[j.b], diff.WithParser(s.p)))
	case "diff files":
		err := diff.Files(&buf, s.files[j.a], s.files[j.b], diff.WithParser(s.p))
		return withErr(buf.String(), err)
	case "diff sources":
		err := diff.Sources(&buf, s.srcs[j.a], s.srcs[j.b], diff.WithParser(s.p))
		return withErr(buf.String(), err)
	case "lint":
		err := s.lint.Run(context.Background(), s.srcs[j.a], &buf, lint.WithIndent(" ", 2))
		return withErr(buf.String(), err)
	case "lookups":
		var o strings.Builder
		for _, st := range b {
			got, ok := a.Lookup(st.ID())
			fmt.Fprintln(&o, st.ID(), ok)
			if !ok {
				continue
			}
			t, u := got.(model.Table), st.(model.Table)
			for col := range u.Columns() {
				x, ok := t.LookupColumn(col.ID())
				n, _ := t.LookupColumnOrder(col.ID())
				y, ok2 := t.LookupColumnBefore(col.ID())
				fmt.Fprintln(&o, col.ID(), ok, n, ok2)
				if ok {
					fmt.Fprintln(&o, rawCol(x))
				}
				if ok2 {
					fmt.Fprintln(&o, rawCol(y))
				}
			}
			for x := range u.Indexes() {
				y, ok := t.LookupIndex(x.ID())
				fmt.Fprintln(&o, x.ID(), ok)
				if ok {
					fmt.Fprintln(&o, rawIdx(y))
				}
			}
		}
		return o.String()
	case "iterate":
		return stmtsText(a, nil)
	case "normalize":
		var o strings.Builder
		for _, st := range a {
			n, modified := st.(model.Table).Normalize()
			fmt.Fprintln(&o, modified, rawTable(n))
			for col := range st.(model.Table).Columns() {
				m, modified := col.Normalize()
				fmt.Fprintln(&o, modified, rawCol(m), rawCol(col.Clone()))
			}
			for x := range st.(model.Table).Indexes() {
				fmt.Fprintln(&o, rawIdx(x.Clone()))
			}
		}
		return o.String()
	case "source":
		err := s.srcs[j.a].WriteSchema(&buf)
		return withErr(buf.String(), err)
	}
	return "?"
}

func newShared(r *rand.Rand, dir string) (*shared, error) {
	s := &shared{}
	cfg := &GenCfg{Tables: 3, Cols: 5, Idx: 4, Hostile: chance(r, 40), Like: true}
	sch := genValid(r, cfg)
	for i := 0; i < 3; i++ {
		t := render(sch, wildStyle(r)).Text
		s.texts = append(s.texts, t)
		s.bad = append(s.bad, mutateBytes(r, t, 3))
		f := filepath.Join(dir, fmt.Sprintf("s%d.sql", i))
		if err := os.WriteFile(f, []byte(t), 0644); err != nil {
			return nil, err
		}
		s.files = append(s.files, f)
		for k := 0; k < 3; k++ {
			if n, e := editOnce(r, cfg, sch, false); n != nil && e != nil {
				sch = n
			}
		}
	}
	return s, nil
}

// concurrently runs jobs alone and together and returns what differs.
func concurrently(r *rand.Rand, dir string, togetherFirst bool, note func(string, int)) (string, error) {
	s, err := newShared(r, dir)
	if err != nil {
		return "", err
	}
	var jobs []job
	focus := ""
	if chance(r, 30) {
		focus = pick(r, jobKinds) // a storm of one kind
	}
	for i := 0; i < 24; i++ {
		k := pick(r, jobKinds)
		if focus != "" && chance(r, 80) {
			k = focus
		}
		jobs = append(jobs, job{k, r.IntN(len(s.texts)), r.IntN(len(s.texts))})
	}
	want := make([]string, len(jobs))
	alone := func() error {
		o := *s
		if err := o.open(); err != nil {
			return err
		}
		for i, j := range jobs {
			want[i] = o.do(j)
		}
		return nil
	}
	if !togetherFirst {
		if err := alone(); err != nil {
			return "", err
		}
	}
	if err := s.open(); err != nil {
		return "", err
	}
	procs := 1 + r.IntN(8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	note(fmt.Sprintf("GOMAXPROCS=%d", procs), 1)
	n := 2 + r.IntN(7)
	got := make([][]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		order := r.Perm(len(jobs))
		yields := r.IntN(3)
		got[g] = make([]string, len(jobs))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for k, i := range order {
				got[g][i] = s.do(jobs[i])
				if yields > 0 && k%(yields+1) == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if togetherFirst {
		if err := alone(); err != nil {
			return "", err
		}
	}
	for g := range got {
		for i, j := range jobs {
			note("concurrent calls compared", 1)
			note("job:"+j.kind, 1)
			if got[g][i] != want[i] {
				return fmt.Sprintf("goroutine %d of %d: %s (%d, %d) gives another result than alone\n%s\n--- texts\n%s\n%s", g, n, j.kind, j.a, j.b, firstDiff(got[g][i], want[i]), s.texts[j.a], s.texts[j.b]), nil
			}
		}
	}
	note("texts", 0)
	return "", nil
}

func init() {
	children["c16"] = func(args []string) {
		// a process whose very first use of the library is concurrent
		n, _ := strconv.Atoi(args[1])
		r := newRand(args[0], "c16 child", n)
		dir := args[2]
		what, err := concurrently(r, dir, true, func(string, int) {})
		if err != nil {
			fmt.Println("rejected:", err)
			os.Exit(1)
		}
		if what != "" {
			fmt.Println(what)
			os.Exit(1)
		}
		os.Exit(0)
	}
	register(&Check{
		ID: "C16", Level: "exploration",
		Rule: "a case is a set of three related schemas and 24 calls on them, issued by 2 to 8 goroutines in different orders on shared objects; distinct by texts; non-trivial because every concurrent result is compared with the result of the same call alone while the race detector watches",
		Assumptions: []string{
			"interleavings are the ones the Go scheduler produced under varied GOMAXPROCS and yields",
			"the statements are only read; SetX methods are not called concurrently",
		},
		Phases: []Phase{
			{Name: "first-use", Quick: 64, Thorough: 1500, Run: func(c *Case) {
				self, _ := os.Executable()
				dir, err := os.MkdirTemp(c.W.Scratch, "c16")
				if err != nil {
					c.Error("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				cmd := exec.Command(self, "-child", "c16", fmt.Sprint(c.W.Seed), fmt.Sprint(c.Index), dir)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 history_size=5")
				var out, errb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &errb
				err = cmd.Run()
				c.Count("processes started")
				if err != nil {
					c.Input(fmt.Sprint(c.Index))
					s := errb.String()
					switch {
					case strings.Contains(s, "WARNING: DATA RACE") && repoRaceFrame.MatchString(s):
						c.Fail("data-race", "%s", s)
					case out.Len() > 0:
						c.Fail("result", "%s", out.String())
					case strings.Contains(s, repoPath) && (strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:")):
						c.Fail("crash", "%s", s)
					default:
						c.Error("child: %v %s", err, s)
					}
				}
			}},
			{Name: "shared", Quick: 320, Thorough: 12000, Run: func(c *Case) {
				dir, err := os.MkdirTemp(c.W.Scratch, "c16")
				if err != nil {
					c.Error("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				what, err := concurrently(c.R, dir, c.Index%2 == 0, func(n string, k int) {
					if strings.HasPrefix(n, "job:") || strings.HasPrefix(n, "GOMAX") {
						c.Feature(n)
					} else if k > 0 {
						c.CountN(n, k)
					}
				})
				b, _ := os.ReadFile(filepath.Join(dir, "s0.sql"))
				d, _ := os.ReadFile(filepath.Join(dir, "s2.sql"))
				c.Input(string(b), string(d))
				c.Sample(string(b))
				if err != nil {
					c.Fail("rejected", "%v", err)
				} else if what != "" {
					c.Fail("result", "%s", what)
				}
			}},
			{Name: "sources", Quick: 24, Thorough: 1500, Run: func(c *Case) {
				// sources that can be read again and again are read by many at once
				r := c.R
				mysql.SetLogger(log.New(io.Discard, "", 0))
				type source struct {
					name string
					src  schemalex.SchemaSource
					want string
				}
				var l []source
				text := func() string { return plainSQL(genSchema(r, &GenCfg{Tables: 2, Cols: 3, Idx: 2})) }
				for i := 0; i < 3; i++ {
					t := text()
					if i == 2 {
						t = randomBytes(r)
					}
					f := c.file(fmt.Sprintf("shared%d.sql", i), t)
					l = append(l, source{"file", schemalex.NewLocalFileSource(f), t})
					if x, err := schemalex.NewSchemaSource("file://" + f); err == nil {
						l = append(l, source{"file URL", x, t})
					}
				}
				dir, err := os.MkdirTemp(c.W.Scratch, "c16git")
				if err != nil {
					c.Error("%v", err)
					return
				}
				defer os.RemoveAll(dir)
				if chance(r, 50) {
					h := genHistory(c, dir)
					if h == nil {
						return
					}
					for k := 0; k < 3; k++ {
						ref := pick(r, sortedKeys(h.refs))
						files := h.commits[h.refs[ref]]
						if len(files) == 0 {
							continue
						}
						file := pick(r, sortedKeys(files))
						l = append(l, source{"git", schemalex.NewLocalGitSource(dir, file, ref), files[file]})
					}
				}
				tables := []fakeTable{{"a", "CREATE TABLE a (a INT)"}, {"b", "CREATE TABLE b (b INT)"}, {"c", strings.TrimRight(text(), ";\n")}}
				s := c.startFake(tables)
				if s == nil {
					return
				}
				defer s.stop(5 * time.Second)
				for _, p := range [][]string{nil, {"readTimeout=30s"}} {
					l = append(l, source{"mysql", schemalex.NewMySQLSource(fakeDSN(s, p...)), wantDump(tables)})
				}
				ps := c.pkis()
				if len(ps) == 0 {
					return
				}
				var names sync.Map
				var bad sync.Map
				start := make(chan struct{})
				var wg sync.WaitGroup
				for g := 0; g < 6; g++ {
					q := newRand(r.Uint64())
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						for n := 0; n < 10; n++ {
							if chance(q, 30) { // certificates
								p := pick(q, ps)
								m, ok := schemalex.NewMySQLSource("u@tcp(127.0.0.1:1)/db?" + strings.Join(p.params("true"), "&")).(configurer)
								if !ok {
									continue
								}
								cfg, err := m.MySQLConfig()
								if err != nil {
									bad.Store("tls", fmt.Sprintf("no configuration: %v", err))
								} else if _, twice := names.LoadOrStore(cfg.TLSConfig, true); twice {
									bad.Store("tls", fmt.Sprintf("the name %q is given twice", cfg.TLSConfig))
								}
								continue
							}
							x := pick(q, l)
							got, err := readInto(q.IntN(nDestinations), x.src)
							if err != nil || got != x.want {
								bad.Store(x.name, fmt.Sprintf("read by many at once: %s (error %v)\nwant %s", short(got), err, short(x.want)))
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for _, x := range l {
					c.Input(x.name, x.want)
					c.Feature("shared source: " + x.name)
				}
				c.CountN("reads of shared sources", 60)
				bad.Range(func(k, v interface{}) bool {
					c.Fail("result", "%v: %v", k, v)
					return true
				})
			}},
			{Name: "long-lived", Quick: 12, Thorough: 100, Run: func(c *Case) {
				// one parser and what it has been through
				p := schemalex.New()
				n := pick(c.R, []int{300, 1100, 4200})
				var texts, want []string
				for i := 0; i < 30; i++ {
					t := plainSQL(genSchema(c.R, &GenCfg{Tables: 1, Cols: 2, Idx: 1}))
					if i%2 == 0 {
						t = pick(c.R, []string{"x", "CREATE", "CREATE TABLE t (", "CREATE TABLE t (a INT) ENGINE", "'", t + " x", mutateBytes(c.R, t, 2)})
					}
					texts = append(texts, t)
					want = append(want, stmtsText(schemalex.New().ParseString(t)))
					c.Input(t)
				}
				good, bad := c.Index%3 == 0, c.Index%3 == 1 // only such texts, or both
				var wg sync.WaitGroup
				for g := 0; g < 4; g++ {
					r := newRand(c.R.Uint64())
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < n/4; k++ {
							i := r.IntN(len(texts))
							if good {
								i |= 1
							} else if bad {
								i &^= 1
							}
							p.ParseString(texts[i])
						}
					}()
				}
				wg.Wait()
				c.CountN("calls of one parser", n)
				for i, t := range texts {
					if got := stmtsText(p.ParseString(t)); got != want[i] {
						c.Fail("result", "after %d calls, the parser says something else than a new one\n%s\n--- text\n%s", n, firstDiff(got, want[i]), t)
						return
					}
					var a, b bytes.Buffer
					ea, eb := diff.Strings(&a, t, texts[1], diff.WithParser(p)), diff.Strings(&b, t, texts[1])
					if fmt.Sprint(ea) != fmt.Sprint(eb) || a.String() != b.String() {
						c.Fail("result", "after %d calls, a diff with the parser is another one: %v, %v\n%s", n, ea, eb, firstDiff(a.String(), b.String()))
						return
					}
				}
			}},
			{Name: "many-parses", Quick: 40, Thorough: 1000, Run: func(c *Case) {
				// one parser, many texts at once, good ones and bad ones
				var texts []string
				for i := 0; i < 40; i++ {
					t := render(genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Hostile: true, Like: true}), wildStyle(c.R)).Text
					if chance(c.R, 40) {
						t = mutateBytes(c.R, t, 1+c.R.IntN(4))
					}
					texts = append(texts, t)
					c.Input(t)
				}
				want := make([]string, len(texts))
				got := make([]string, len(texts))
				p := schemalex.New()
				var wg sync.WaitGroup
				for i := range texts {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						got[i] = stmtsText(p.ParseString(texts[i]))
					}(i)
				}
				wg.Wait()
				for i := range texts {
					want[i] = stmtsText(schemalex.New().ParseString(texts[i]))
					c.Count("concurrent calls compared")
					if got[i] != want[i] {
						c.Fail("result", "%s\n--- input\n%s", firstDiff(got[i], want[i]), texts[i])
						return
					}
				}
			}},
		},
	})
}

var _ = io.Discard
