package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

// The twin is this program, built against a copy of the repository whose
// generated files have been generated anew. Both answer the same questions.
type twin struct {
	in   io.WriteCloser
	out  *bufio.Reader
	cmd  *exec.Cmd
	dead error
}

var (
	theTwin  *twin
	twinOnce sync.Once
)

func init() {
	children["c26"] = func([]string) {
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		out := bufio.NewWriter(os.Stdout)
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			var q []string
			if err := json.Unmarshal(line, &q); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			var raw [][]byte
			for _, s := range q {
				b := make([]byte, 0, len(s))
				for _, r := range s { // bytes as runes, for JSON
					b = append(b, byte(r))
				}
				raw = append(raw, b)
			}
			js, _ := json.Marshal(asRunes(c26answer(raw)))
			out.Write(append(js, '\n'))
			out.Flush()
		}
	}
}

func asRunes(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

func (c *Case) twin() *twin {
	twinOnce.Do(func() {
		p := filepath.Join(c.W.BinDir, "twin")
		if _, err := os.Stat(p); err != nil {
			return // judged by the phase tree
		}
		cmd := exec.Command(p, "-child", "c26")
		in, err := cmd.StdinPipe()
		if err != nil {
			c.Error("twin: %v", err)
			return
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			c.Error("twin: %v", err)
			return
		}
		cmd.Stderr = os.Stderr
		if err := cmd.Start(); err != nil {
			c.Error("twin: %v", err)
			return
		}
		theTwin = &twin{in: in, out: bufio.NewReaderSize(out, 1<<20), cmd: cmd}
	})
	return theTwin
}

// ask gives the twin's answer.
func (t *twin) ask(q ...string) (string, error) {
	if t.dead != nil {
		return "", t.dead
	}
	var l []string
	for _, s := range q {
		l = append(l, asRunes(s))
	}
	js, _ := json.Marshal(l)
	timer := time.AfterFunc(60*time.Second, func() { t.cmd.Process.Kill() })
	defer timer.Stop()
	t.in.Write(append(js, '\n'))
	line, err := t.out.ReadBytes('\n')
	if err != nil {
		t.dead = fmt.Errorf("the program with the regenerated files ends: %v", err)
		return "", t.dead
	}
	var s string
	if err := json.Unmarshal(line, &s); err != nil {
		t.dead = err
		return "", err
	}
	b := make([]byte, 0, len(s))
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b), nil
}

// c26answer is what the package says to a question.
func c26answer(q [][]byte) string {
	switch string(q[0]) {
	case "tables":
		return strings.Join(c26tables(), "\n")
	case "pair":
		return outputs(string(q[1]), string(q[2]))
	}
	var w bytes.Buffer
	for _, text := range q[1:] {
		stmts, err := schemalex.New().Parse(text)
		fmt.Fprintf(&w, "%d statements, %v\n", len(stmts), err)
		for _, st := range stmts {
			fmt.Fprintf(&w, "%s %v\n", st.ID(), format.SQL(&w, st))
			t, ok := st.(model.Table)
			if !ok {
				continue
			}
			for col := range t.Columns() {
				fmt.Fprintf(&w, "%s %d %s\n", col.ID(), col.Type(), col.Type())
			}
		}
	}
	return w.String()
}

// c26tables lists what is in the generated tables.
func c26tables() []string {
	var l []string
	add := func(f string, a ...interface{}) { l = append(l, fmt.Sprintf(f, a...)) }
	for i := -3; i < 600; i++ {
		tok := schemalex.NewToken(schemalex.TokenType(i), fmt.Sprint("v", i))
		add("token %d %s %d %q %d %d %d %v", i, schemalex.TokenType(i), tok.Type, tok.Value, tok.Pos, tok.Line, tok.Col, tok.EOF)
	}
	add("max %d", model.ColumnTypeMax)
	for i := -3; i < 100; i++ {
		t := model.ColumnType(i)
		add("column type %d %s %d", i, t, t.SynonymType())
		add("index kind %d %s", i, model.IndexKind(i))
		add("index type %d %s", i, model.IndexType(i))
		add("reference match %d %s", i, model.ReferenceMatch(i))
		add("reference option %d %s", i, model.ReferenceOption(i))
		func() {
			defer func() {
				if e := recover(); e != nil {
					add("normalizing panics")
				}
			}()
			n, mod := model.NewTableColumn("c").SetType(t).Normalize()
			var b bytes.Buffer
			err := format.SQL(&b, n)
			add("normalized %d %v %s %v", i, mod, b.String(), err)
		}()
	}
	return l
}

// c26words are words that may be in the tables, and others.
func (c *Case) c26words() []string {
	seen := map[string]bool{}
	var l []string
	for i := 0; i < 600; i++ {
		w := schemalex.TokenType(i).String()
		if w == "(invalid)" || seen[w] {
			continue
		}
		seen[w] = true
		l = append(l, w)
	}
	for _, w := range []string{"foo", "NO", "ON", "ACTIONS", "PARTITION", "FIRST", "AFTER", "GENERATED", "VIRTUAL", "STORED", "DEC", "FIXED", "NCHAR", "SERIAL", "POINT", "BEFORE", "invalid", "space", "dot", "GEOMETRYCOLLECTION"} {
		if !seen[w] {
			seen[w] = true
			l = append(l, w)
		}
	}
	// the strings of the generated files, before and after
	text, err := os.ReadFile(filepath.Join(filepath.Dir(c.W.BinDir), "gen.words"))
	if err != nil {
		c.Error("%v", err)
	}
	for _, m := range regexp.MustCompile("\"([A-Za-z_][A-Za-z0-9_]*)\"").FindAllStringSubmatch(string(text), -1) {
		if w := m[1]; !seen[w] && !seen[strings.ToUpper(w)] {
			seen[w] = true
			l = append(l, w)
		}
	}
	c.Max("words", len(l))
	return l
}

var c26contexts = []string{
	"CREATE TABLE t (%s INT)", "CREATE TABLE %s (a INT)", "CREATE TABLE t (a %s)", "CREATE TABLE t (a %s(3))", "CREATE TABLE t (a %s(3,2))",
	"CREATE TABLE t (a %s('x'))", "CREATE TABLE t (a INT %s)", "CREATE TABLE t (a VARCHAR(3) %s utf8)", "CREATE TABLE t (a INT DEFAULT %s)",
	"CREATE TABLE t (a INT, %s k (a))", "CREATE TABLE t (a INT, %s KEY (a))", "CREATE TABLE t (a INT, KEY %s (a))", "CREATE TABLE t (a INT, KEY k (%s))",
	"CREATE TABLE t (a INT, KEY k (a %s))", "CREATE TABLE t (a INT, KEY k (a) USING %s)", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b) MATCH %s)",
	"CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b) ON DELETE %s)", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES u (b) ON DELETE SET %s)",
	"CREATE TABLE t (a INT, CONSTRAINT c %s KEY (a))", "CREATE TABLE t (a INT, CONSTRAINT %s UNIQUE (a))",
	"CREATE TABLE t (a INT) %s = 1", "CREATE TABLE t (a INT) %s 'x'", "CREATE TABLE t (a INT) %s = %s", "CREATE TABLE t (a INT) DEFAULT %s = utf8", "CREATE TABLE t (a INT) ROW_FORMAT = %s",
	"%s TABLE t (a INT)", "CREATE %s t (a INT)", "CREATE %s TABLE t (a INT)", "CREATE TABLE t %s u", "CREATE TABLE %s NOT EXISTS t (a INT)", "CREATE TABLE IF %s EXISTS t (a INT)",
	"%s x; CREATE TABLE t (a INT)", "CREATE DATABASE %s", "CREATE TABLE t (a TIMESTAMP ON UPDATE %s)", "CREATE TABLE t (a TIMESTAMP DEFAULT %s())",
}

// c26compare puts a question to both.
func c26compare(c *Case, q ...string) bool {
	t := c.twin()
	if t == nil {
		c.Count("questions without a twin")
		return false
	}
	var raw [][]byte
	for _, s := range q {
		raw = append(raw, []byte(s))
	}
	mine := c26answer(raw)
	c.Input(q...)
	theirs, err := t.ask(q...)
	if err != nil {
		c.Fail("twin", "%v\n--- question\n%s", err, strings.Join(q, "\n"))
		return false
	}
	c.Sample(q[len(q)-1])
	c.Count("answers compared")
	c.CountN("bytes of answers compared", len(mine))
	if mine != theirs {
		c.Fail("differs", "generating the code anew changes the answer\n%s\n--- question\n%s", firstDiff(theirs, mine), strings.Join(q, "\n"))
		return false
	}
	return true
}

var generatedLine = regexp.MustCompile(`(?m)^// Code generated .* DO NOT EDIT\.$`)

func init() {
	register(&Check{
		ID: "C26", Level: "exploration",
		Rule: "a case is a question put to the program twice, once with the generated files as they are and once with them generated anew, or a run of a generator; distinct by question; non-trivial because whole answers and files are compared",
		Assumptions: []string{
			"the generated code is judged by what a program built with it does, not by its text: a difference that shows in no question asked is not seen",
			"stringer and go are the installed ones",
		},
		Phases: []Phase{
			{Name: "tree", Quick: 1, Thorough: 1, Serial: true, Run: func(c *Case) {
				base := filepath.Dir(c.W.BinDir)
				gen := filepath.Join(base, "gen")
				logText, err := os.ReadFile(base + "/gen.log")
				if err != nil {
					c.Error("%v", err)
					return
				}
				c.Input("tree")
				if strings.Count(string(logText), "rc 0\n") != 3 {
					c.Fail("generate", "building the generators, generating and building the result do not all succeed:\n%s", logText)
					return
				}
				var after []string
				filepath.Walk(gen, func(p string, fi os.FileInfo, err error) error {
					if err != nil {
						c.Error("%v", err)
						return err
					}
					if !fi.Mode().IsRegular() {
						return nil
					}
					rel, _ := filepath.Rel(gen, p)
					after = append(after, "./"+rel)
					if !strings.HasSuffix(p, ".go") {
						return nil
					}
					text, err := os.ReadFile(p)
					if err != nil {
						c.Error("%v", err)
						return err
					}
					isGen, isNew := generatedLine.Match(text), fi.ModTime().Year() > 2001
					if isGen {
						c.Count("generated files")
					}
					if isGen != isNew {
						c.Fail("stale", "%s: says that it is generated: %v; is written by go generate: %v", rel, isGen, isNew)
					}
					return nil
				})
				sort.Strings(after)
				before, err := os.ReadFile(base + "/gen.before")
				if err != nil {
					c.Error("%v", err)
					return
				}
				want := strings.Fields(string(before))
				sort.Strings(want)
				if g, w := strings.Join(after, "\n"), strings.Join(want, "\n"); g != w {
					c.Fail("files", "go generate leaves other files\n%s", firstDiff(g, w))
				}
			}},
			{Name: "generators", Quick: 60, Thorough: 1500, Run: func(c *Case) {
				// the same bytes every time, wherever they go
				r := c.R
				g := []struct{ name, file, pkg string }{{"gentokens", "tokens_gen.go", "schemalex"}, {"gencoltypes", "model/columns_gen.go", "model"}}[c.Index%2]
				want, err := os.ReadFile(filepath.Join(filepath.Dir(c.W.BinDir), "gen", g.file))
				bin := filepath.Join(c.W.BinDir, g.name)
				if _, err2 := os.Stat(bin); err != nil || err2 != nil {
					return // judged by the phase tree
				}
				dir := filepath.Join(c.W.Scratch, "g")
				os.RemoveAll(dir)
				os.MkdirAll(dir+"/model", 0755)
				run := func(args ...string) (string, error) {
					cmd := exec.Command(bin, args...)
					cmd.Dir = dir
					cmd.Env = append(os.Environ(), fmt.Sprint("GOMAXPROCS=", 1+r.IntN(8)))
					out, err := cmd.CombinedOutput()
					c.Count("runs of generators")
					return string(out), err
				}
				file, args := dir+"/"+g.file, []string(nil)
				switch c.Index / 2 % 5 {
				case 1:
					file = dir + "/x y.go"
					args = []string{"-file", file}
				case 2:
					args = []string{"-package", "other"}
					re := regexp.MustCompile(`(?m)^package ` + g.pkg + `$`)
					if n := len(re.FindAllIndex(want, -1)); n != 1 {
						c.Fail("package", "%d package clauses in %s", n, g.file)
						return
					}
					want = re.ReplaceAll(want, []byte("package other"))
				case 3: // over something longer
					if err := os.WriteFile(file, bytes.Repeat([]byte("x\n"), 50000), 0644); err != nil {
						c.Error("%v", err)
						return
					}
				case 4: // where nothing can be written
					l := []string{dir, dir + "/no/such/place"}
					if haveDevFull() {
						l = append(l, devFullLink(c, dir))
					}
					file := pick(r, l)
					c.Input(g.name, "fails", file[len(file)-4:])
					out, err := run("-file", file)
					if fi, err2 := os.Lstat(file); err == nil && err2 == nil && fi.Mode().IsRegular() {
						return // a link replaced by a file
					}
					if err == nil {
						c.Fail("unwritten", "%s -file %s succeeds (output %q)", g.name, file, out)
					}
					c.Count("failing runs of generators")
					return
				}
				c.Input(g.name, fmt.Sprint(args), fmt.Sprint(c.Index))
				out, err := run(args...)
				if err != nil {
					c.Fail("fails", "%s %q: %v %s", g.name, args, err, out)
					return
				}
				got, err := os.ReadFile(file)
				if err != nil || !bytes.Equal(got, want) {
					c.Fail("bytes", "%s %q does not write the same as go generate (error %v)\n%s", g.name, args, err, firstDiff(string(got), string(want)))
					return
				}
				c.Count("generated texts compared")
			}},
			{Name: "tables", Quick: 8, Thorough: 8, Run: func(c *Case) {
				c26compare(c, "tables")
			}},
			{Name: "words", Quick: 2 * len(c26contexts), Thorough: 6 * len(c26contexts), Run: func(c *Case) {
				ctx := c26contexts[c.Index%len(c26contexts)]
				for _, w := range c.c26words() {
					switch c.Index / len(c26contexts) {
					case 0:
					case 1:
						w = strings.ToLower(w)
					default:
						b := []byte(w)
						for i := range b {
							if chance(c.R, 50) {
								b[i] = strings.ToLower(string(b[i]))[0]
							}
						}
						w = string(b)
					}
					if !c26compare(c, "parse", strings.ReplaceAll(ctx, "%s", w)) {
						return
					}
				}
			}},
			{Name: "schemas", Quick: 1500, Thorough: 20000, Run: func(c *Case) {
				a, b := c14pair(c.R)
				c26compare(c, "pair", a, b)
			}},
			{Name: "mutants", Quick: 3000, Thorough: 40000, Run: func(c *Case) {
				a, _ := c14pair(c.R)
				q := []string{"parse"}
				for i := 0; i < 4; i++ {
					q = append(q, mutateBytes(c.R, a, 1+c.R.IntN(3)))
				}
				var soup []string
				for i := 0; i < 12; i++ {
					soup = append(soup, soupToken(c.R))
				}
				q = append(q, strings.Join(soup, " "), "CREATE TABLE t (a INT) "+strings.Join(soup[:4], " "))
				c26compare(c, q...)
			}},
		},
	})
}
