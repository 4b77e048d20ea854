package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
)

// C14: the same input again and again.

// c14pair makes the two texts of a case, big enough for an order to vary.
func c14pair(r *rand.Rand) (string, string) {
	switch r.IntN(10) {
	case 0: // a broken text
		s := genSchema(r, &GenCfg{Tables: 3, Cols: 5, Idx: 4})
		return mutateLex(r, render(s, plainStyle()).Lex, 2), plainSQL(genValid(r, &GenCfg{Tables: 2, Cols: 3, Idx: 2}))
	case 1: // several indexes without names to drop
		t := &Table{Name: "t"}
		for i := 0; i < 6; i++ {
			t.Cols = append(t.Cols, &Col{Name: fmt.Sprintf("c%d", i), Type: "INT"})
		}
		u := t.clone()
		for i := 0; i < 6; i++ {
			t.Idx = append(t.Idx, &Index{Kind: pick(r, []string{"NORMAL", "UNIQUE", "FULLTEXT"}), Cols: []IdxCol{{Name: t.Cols[i].Name}}})
		}
		return plainSQL(&Schema{Tables: []*Table{t}}), plainSQL(&Schema{Tables: []*Table{u}})
	case 2: // everything is new, everything goes
		return plainSQL(genValid(r, &GenCfg{Tables: 12, Cols: 3, Idx: 2, Like: true})), plainSQL(genValid(r, &GenCfg{Tables: 12, Cols: 3, Idx: 2, Like: true}))
	case 3: // other columns and indexes throughout
		mk := func() string {
			t := &Table{Name: "t"}
			for i, n := 0, 1+r.IntN(15); i < n; i++ {
				t.Cols = append(t.Cols, &Col{Name: fmt.Sprintf("c%d", r.IntN(40)), Type: pick(r, types[:5]).Name})
			}
			seen := nameSet{}
			var cols []*Col
			for _, c := range t.Cols {
				if seen.take(c.Name) {
					cols = append(cols, c)
				}
			}
			t.Cols = cols
			for i, n := 0, r.IntN(10); i < n; i++ {
				t.Idx = append(t.Idx, &Index{Kind: "NORMAL", Name: sp(fmt.Sprintf("i%d", r.IntN(30))), Cols: genIdxCols(r, t, 3, false)})
			}
			for i, n := 0, r.IntN(4); i < n; i++ {
				t.Idx = append(t.Idx, &Index{Kind: "FOREIGN", Symbol: sp(fmt.Sprintf("fk%d", r.IntN(9))), Cols: []IdxCol{{Name: pick(r, t.Cols).Name}}, Ref: &Ref{Table: "p", Cols: []IdxCol{{Name: "id"}}}})
			}
			return plainSQL(&Schema{Tables: []*Table{t}})
		}
		return mk(), mk()
	}
	from, to, _ := genPair(r, &GenCfg{Tables: 6, Cols: 12, Idx: 8, Hostile: chance(r, 30), Like: true})
	return render(from, wildStyle(r)).Text, render(to, wildStyle(r)).Text
}

// outputs is everything that can be printed about two texts.
func outputs(a, b string) string {
	var w bytes.Buffer
	rec := func(what string, err error) { fmt.Fprintf(&w, "\n== %s: %v\n", what, err) }
	for _, p := range [][2]string{{a, b}, {b, a}} {
		rec("diff", diff.Strings(&w, p[0], p[1]))
		rec("diff txn", diff.Strings(&w, p[0], p[1], diff.WithTransaction(true)))
		stmts, err := schemalex.New().ParseString(p[0])
		rec("parse", err)
		if err == nil {
			rec("format", format.SQL(&w, stmts))
			rec("format indented", format.SQL(&w, stmts, format.WithIndent(" ", 2)))
			for _, st := range stmts {
				fmt.Fprintf(&w, "%s\n", st.ID())
			}
		}
		t, err := lintText(p[0])
		w.WriteString(t)
		rec("lint", err)
		t, err = lintText(p[0], lint.WithIndent("\t", 1))
		w.WriteString(t)
		rec("lint indented", err)
	}
	return w.String()
}

// breakingReader gives the first bytes of a text and then an error.
type breakingReader struct {
	text  string
	left  *int // what has been given so far, in memory of its own
	after int
}

func (b *breakingReader) Read(p []byte) (int, error) {
	if *b.left >= b.after {
		return 0, errors.New("the reader breaks")
	}
	n := copy(p, b.text[*b.left:b.after])
	*b.left += n
	return n, nil
}

func init() {
	children["c14"] = func(args []string) {
		// seed, phase, index, n
		n, _ := strconv.Atoi(args[2])
		idx, _ := strconv.Atoi(args[1])
		wr := bufio.NewWriter(os.Stdout)
		defer wr.Flush()
		for k := 0; k < n; k++ {
			a, b := c14pair(newRand(args[0], "c14", idx, k))
			fmt.Fprintf(wr, "%016x\n", hashString(outputs(a, b)))
		}
	}
	register(&Check{
		ID: "C14", Level: "exploration",
		Rule: "a case is a pair of texts (or a batch of pairs handed to several processes); distinct by texts; non-trivial because all printed forms of it are produced many times and compared byte by byte",
		Assumptions: []string{
			"an order that depends on map iteration, scheduling or the process shows with the number of repetitions made: each pair is repeated at least 12 times in one process, some also in 4 other processes",
		},
		Phases: []Phase{
			{Name: "repeated", Quick: 400, Thorough: 60000, Run: func(c *Case) {
				a, b := c14pair(c.R)
				c.Input(a, b)
				want := outputs(a, b)
				if strings.Contains(want, "== diff: <nil>") {
					c.Count("pairs with a diff")
				} else {
					c.Count("pairs with an error")
				}
				c.Max("bytes of output for one pair", len(want))
				c.Sample(want)
				for n := 0; n < 11; n++ {
					c.Count("repetitions")
					if got := outputs(a, b); got != want {
						c.Fail("differs", "repetition %d prints something else\n%s\n--- a\n%s\n--- b\n%s", n+1, firstDiff(got, want), a, b)
						return
					}
				}
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 40 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				from, to, _ := bigPair(c.R, g)
				a, b := plainSQL(from), plainSQL(to)
				c.Input(a, b)
				c.Feature("big: " + g.String())
				want := outputs(a, b)
				for n := 0; n < 2; n++ {
					c.Count("repetitions")
					if got := outputs(a, b); got != want {
						c.Fail("differs", "repetition %d prints something else\n%s\n--- a\n%s\n--- b\n%s", n+1, firstDiff(got, want), a, b)
						return
					}
				}
			}},
			{Name: "diff-only-many-times", Quick: 1500, Thorough: 60000, Run: func(c *Case) {
				a, b := c14pair(c.R)
				c.Input(a, b)
				s1, err1 := schemalex.New().ParseString(a)
				s2, err2 := schemalex.New().ParseString(b)
				if err1 != nil || err2 != nil {
					return
				}
				want, err := diffStmts(s1, s2)
				for n := 0; n < 40; n++ {
					c.Count("repetitions")
					got, err2 := diffStmts(s1, s2)
					if got != want || fmt.Sprint(err) != fmt.Sprint(err2) {
						c.Fail("differs", "repetition %d prints something else (errors %v, %v)\n%s\n--- a\n%s\n--- b\n%s", n+1, err, err2, firstDiff(got, want), a, b)
						return
					}
				}
			}},
			{Name: "errors", Quick: 700, Thorough: 40000, Run: func(c *Case) {
				// what is said about texts that are refused
				r := c.R
				s := genSchema(r, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Like: true})
				rd := render(s, wildStyle(r))
				lex := plainLex(rd.Lex)
				for k := 0; k < 40; k++ {
					var t string
					switch r.IntN(4) {
					case 0:
						t = rd.Text[:r.IntN(len(rd.Text)+1)]
					case 1:
						t = mutateLex(r, rd.Lex, 1)
					case 2:
						t, _ = badAt(r, rd.Text, rd.Lex, r.IntN(len(rd.Lex)+1), chance(r, 50))
					case 3:
						t = lexText(editLexemes(r, lex, 1))
					}
					c.Input(t)
					_, want := schemalex.New().ParseString(t)
					if want == nil {
						continue
					}
					c.Count("errors repeated")
					for n := 0; n < 5; n++ {
						_, err := schemalex.New().ParseString(t)
						if err == nil || err.Error() != want.Error() {
							c.Fail("error", "repetition %d says something else about a text\n%v\n%v\n--- text\n%s", n+1, want, err, t)
							return
						}
					}
				}
			}},
			{Name: "failing-sources", Quick: 60, Thorough: 4000, Run: func(c *Case) {
				// what is said about sources that fail, each made afresh: nothing in it may
				// depend on where things are in memory
				dir := c.W.Scratch
				a, _ := c14pair(c.R)
				after := c.R.IntN(len(a) + 1)
				closed := filepath.Join(dir, "closed.sql")
				if err := os.WriteFile(closed, []byte(a), 0644); err != nil {
					c.Error("%v", err)
					return
				}
				kinds := []struct {
					name string
					make func() schemalex.SchemaSource
				}{
					{"reader", func() schemalex.SchemaSource {
						return schemalex.NewReaderSource(&breakingReader{text: a, left: new(int), after: after})
					}},
					{"reader by value", func() schemalex.SchemaSource {
						return schemalex.NewReaderSource(struct{ io.Reader }{&breakingReader{text: a, left: new(int), after: after}})
					}},
					{"closed file", func() schemalex.SchemaSource {
						f, err := os.Open(closed)
						if err == nil {
							f.Close()
						}
						return schemalex.NewReaderSource(f)
					}},
					{"missing file", func() schemalex.SchemaSource { return schemalex.NewLocalFileSource(filepath.Join(dir, "missing.sql")) }},
					{"directory", func() schemalex.SchemaSource { return schemalex.NewLocalFileSource(dir) }},
					{"git", func() schemalex.SchemaSource { return schemalex.NewLocalGitSource(dir, "missing.sql", "HEAD") }},
					{"dsn", func() schemalex.SchemaSource { return schemalex.NewMySQLSource("no dsn") }},
					{"server", func() schemalex.SchemaSource {
						return schemalex.NewMySQLSource("root@unix(" + dir + "/missing.sock)/db")
					}},
				}
				good := func() schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader("")) }
				for _, k := range kinds {
					c.Input(k.name, fmt.Sprint(after), a)
					say := func() string {
						var w bytes.Buffer
						err1 := diff.Sources(&w, k.make(), good())
						err2 := diff.Sources(&w, good(), k.make())
						err3 := diff.Sources(&w, k.make(), k.make())
						err4 := k.make().WriteSchema(&w)
						return fmt.Sprintf("%v\n%v\n%v\n%v\n", err1, err2, err3, err4)
					}
					want := say()
					if strings.Contains(want, "<nil>") {
						c.Error("%s did not fail: %s", k.name, want)
						return
					}
					c.Feature("failing source: " + k.name)
					for n := 0; n < 4; n++ {
						c.Count("errors of sources repeated")
						if got := say(); got != want {
							c.Fail("source "+k.name, "repetition %d says something else about a source that fails\n%s\n%s", n+1, want, got)
							break
						}
					}
				}
			}},
			{Name: "parallel", Quick: 64, Thorough: 10000, Run: func(c *Case) {
				a, b := c14pair(c.R)
				c.Input(a, b)
				want := outputs(a, b)
				defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
				for _, p := range []int{1, 2, 8} {
					runtime.GOMAXPROCS(p)
					var wg sync.WaitGroup
					got := make([]string, 6)
					for g := range got {
						wg.Add(1)
						go func() {
							defer wg.Done()
							got[g] = outputs(a, b)
						}()
					}
					wg.Wait()
					for _, g := range got {
						c.Count("repetitions in parallel")
						if g != want {
							c.Fail("differs", "with GOMAXPROCS=%d, in parallel, something else is printed\n%s\n--- a\n%s\n--- b\n%s", p, firstDiff(g, want), a, b)
							return
						}
					}
				}
			}},
			{Name: "processes", Quick: 8, Thorough: 300, Run: func(c *Case) {
				const n = 30
				var want []string
				for k := 0; k < n; k++ {
					a, b := c14pair(newRand(fmt.Sprint(c.W.Seed), "c14", c.Index, k))
					c.Input(a, b)
					want = append(want, fmt.Sprintf("%016x", hashString(outputs(a, b))))
				}
				self, _ := os.Executable()
				for i, env := range [][]string{{"GOMAXPROCS=1"}, {"GOMAXPROCS=3", "GOGC=10"}, {"GOMAXPROCS=8", "TZ=Asia/Tokyo", "LANG=ja_JP.UTF-8"}, {"GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1"}} {
					cmd := exec.Command(self, "-child", "c14", fmt.Sprint(c.W.Seed), fmt.Sprint(c.Index), fmt.Sprint(n))
					cmd.Env = append(os.Environ(), env...)
					cmd.Dir = c.W.Scratch
					out, err := cmd.Output()
					if err != nil {
						c.Error("child: %v", err)
						return
					}
					got := strings.Fields(string(out))
					if len(got) != n {
						c.Error("child printed %d hashes", len(got))
						return
					}
					for k := range got {
						c.Count("pairs compared across processes")
						if got[k] != want[k] {
							a, b := c14pair(newRand(fmt.Sprint(c.W.Seed), "c14", c.Index, k))
							c.Fail("process", "another process (number %d, %v) prints something else for pair %d\n--- a\n%s\n--- b\n%s", i, env, k, a, b)
							return
						}
					}
				}
			}},
		},
	})
}
