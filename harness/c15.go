package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/model"
)

// C15: one diff, asked for in many ways.

var errReader = errors.New("the reader fails")

type failingReader struct {
	r io.Reader
}

func (f *failingReader) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = errReader
	}
	return n, err
}

// rawStmts writes out every observable of a list of statements.
func rawStmts(l model.Stmts) string {
	var b strings.Builder
	for _, st := range l {
		switch x := st.(type) {
		case model.Table:
			b.WriteString(rawTable(x))
		case model.Database:
			fmt.Fprintf(&b, "database %q %v\n", x.Name(), x.IsIfNotExists())
		default:
			fmt.Fprintf(&b, "%T\n", st)
		}
	}
	return b.String()
}

// side is one of the two inputs of a diff.
type side struct {
	text string
	ok   bool // it can be parsed
}

// breakText makes a text that can not be parsed.
func breakText(r *rand.Rand, s *Schema) string {
	rd := render(s, wildStyle(r))
	if len(rd.Lex) == 0 {
		return "CREATE"
	}
	text, _ := badAt(r, rd.Text, rd.Lex, r.IntN(len(rd.Lex)+1), chance(r, 30))
	return text
}

type asked struct {
	name string
	f    func(w io.Writer, opts ...diff.Option) error
}

func agree(c *Case, from, to side, stmtsToo bool) {
	show := func() string { return fmt.Sprintf("--- from\n%s\n--- to\n%s", from.text, to.text) }
	ff, tf := c.file("from file.sql", from.text), c.file("to.sql", to.text)
	parser := newParser(from.text)
	nsrc := 0
	src := func(s string) schemalex.SchemaSource {
		switch c.R.IntN(3) {
		case 0:
			return schemalex.NewReaderSource(strings.NewReader(s))
		case 1:
			return schemalex.NewReaderSource(iotest.OneByteReader(strings.NewReader(s)))
		}
		nsrc++
		f := filepath.Join(c.W.Scratch, fmt.Sprintf("src%d.sql", nsrc))
		os.WriteFile(f, []byte(s), 0644)
		x, err := schemalex.NewSchemaSource(pick(c.R, []string{"", "file://"}) + f)
		if err != nil {
			c.Error("%v", err)
			return schemalex.NewReaderSource(strings.NewReader(s))
		}
		return x
	}
	ways := []asked{
		{"Strings", func(w io.Writer, o ...diff.Option) error { return diff.Strings(w, from.text, to.text, o...) }},
		{"Files", func(w io.Writer, o ...diff.Option) error { return diff.Files(w, ff, tf, o...) }},
		{"Sources", func(w io.Writer, o ...diff.Option) error { return diff.Sources(w, src(from.text), src(to.text), o...) }},
		{"Strings with a parser", func(w io.Writer, o ...diff.Option) error {
			return diff.Strings(w, from.text, to.text, append(o[:len(o):len(o)], diff.WithParser(parser))...)
		}},
		{"Files with a parser", func(w io.Writer, o ...diff.Option) error {
			return diff.Files(w, ff, tf, append([]diff.Option{diff.WithParser(parser)}, o...)...)
		}},
		{"Sources with a parser", func(w io.Writer, o ...diff.Option) error {
			return diff.Sources(w, src(from.text), src(to.text), append([]diff.Option{diff.WithParser(parser)}, o...)...)
		}},
	}
	if from.text == to.text { // one file, one source
		one := schemalex.NewLocalFileSource(ff)
		ways = append(ways,
			asked{"Files, one file", func(w io.Writer, o ...diff.Option) error { return diff.Files(w, ff, ff, o...) }},
			asked{"Sources, one source", func(w io.Writer, o ...diff.Option) error { return diff.Sources(w, one, one, o...) }},
			asked{"Sources, one file", func(w io.Writer, o ...diff.Option) error {
				return diff.Sources(w, one, schemalex.NewLocalFileSource(ff), o...)
			}})
		c.Count("texts compared with themselves")
	}
	s1, e1 := newParser(from.text).ParseString(from.text)
	s2, e2 := newParser(to.text).ParseString(to.text)
	if (e1 == nil) != from.ok || (e2 == nil) != to.ok {
		c.Fail("parse", "parsing: %v, %v; expected %v, %v to be valid\n%s", e1, e2, from.ok, to.ok, show())
		return
	}
	var raw1, raw2 string
	if e1 == nil && e2 == nil {
		raw1, raw2 = rawStmts(s1), rawStmts(s2)
		ways = append(ways, asked{"Statements", func(w io.Writer, o ...diff.Option) error { return diff.Statements(w, s1, s2, o...) }})
		ways = append(ways, asked{"Statements again", func(w io.Writer, o ...diff.Option) error { return diff.Statements(w, s1, s2, o...) }})
	}
	optsets := []struct {
		name string
		txn  bool
		o    []diff.Option
	}{
		{"no options", false, nil},
		{"transaction", true, []diff.Option{diff.WithTransaction(true)}},
		{"transaction off", false, []diff.Option{diff.WithTransaction(false)}},
		{"transaction on, then off", false, []diff.Option{diff.WithTransaction(true), diff.WithTransaction(false)}},
		{"transaction off, then on", true, []diff.Option{diff.WithTransaction(false), diff.WithTransaction(true)}},
		{"transaction twice, with a parser", true, []diff.Option{diff.WithTransaction(true), diff.WithParser(schemalex.New()), diff.WithTransaction(true)}},
	}
	var plain string
	var failed bool
	for i, w := range ways {
		for j, o := range optsets {
			if j > 2 && c.R.IntN(4) > 0 {
				continue
			}
			var out bytes.Buffer
			err := w.f(&out, o.o...)
			c.Count("diffs")
			c.Feature(w.name + ", " + o.name)
			if err != nil && out.Len() > 0 {
				c.Fail("partial", "%s (%s) failed (%v), but wrote %q\n%s", w.name, o.name, err, out.String(), show())
				return
			}
			if i == 0 && j == 0 {
				plain, failed = out.String(), err != nil
				if want := !from.ok || !to.ok; want && !failed {
					c.Fail("accepted", "a text that can not be parsed is diffed\n%s", show())
					return
				}
				if failed {
					c.Count("failing pairs")
				} else {
					c.Count("pairs with a diff")
				}
				continue
			}
			if (err != nil) != failed {
				c.Fail("fails", "%s (%s): error %v; Strings without options failed: %v\n%s", w.name, o.name, err, failed, show())
				return
			}
			if err != nil {
				continue
			}
			want := plain
			if o.txn {
				want = txnPrologue
				if plain != "" {
					want += "\n\n" + plain
				}
				want += txnEpilogue
			}
			if out.String() != want {
				c.Fail("output", "%s (%s) prints something else\n%s\n%s", w.name, o.name, firstDiff(out.String(), want), show())
				return
			}
		}
	}
	if raw1 != "" || raw2 != "" {
		if a, b := rawStmts(s1), rawStmts(s2); a != raw1 || b != raw2 {
			c.Fail("modified", "diffing modified its inputs\n%s\n%s\n%s", firstDiff(a, raw1), firstDiff(b, raw2), show())
			return
		}
		// and what they say, to another diff
		if again, err := diffStmts(s1, s2); err == nil && again != plain {
			c.Fail("modified", "a later diff of the same statements prints something else\n%s\n%s", firstDiff(again, plain), show())
			return
		}
	}
	for f, s := range map[string]string{ff: from.text, tf: to.text} {
		if b, err := os.ReadFile(f); err != nil || string(b) != s {
			c.Fail("modified", "the file %s was modified (%v)", f, err)
			return
		}
	}
}

// edges are put in front of or behind a text.
var edges = []string{"\xef\xbb\xbf", "\ufeff\n", "\xff\xfe", "\x00", "\x1a", "\x04", "#!/usr/bin/mysql\n", "\\", "\r", "\n\n\n", "\f", "\v", "\u00a0", "\u2028", "--", "-- ", "--\n", "#", "/*", "/**/", ";", ";;", "'", "`", "\"", "delimiter ;\n", "DELIMITER $$\n", "BEGIN;\n", "\nCOMMIT;\n", "SET FOREIGN_KEY_CHECKS = 0;\n", "SET", "USE", "use x", "DROP", "CREATE", "/*!40101 SET NAMES utf8 */;\n", "\x1f\x8b\b", "mysql://a@b/c", "file:///", "$x", "${x}", "$(x)", "%s", "%d%n", "{{x}}", "&lt;", "?"}

func dupTables(l model.Stmts) []string {
	seen := map[string]bool{}
	var dup []string
	for _, st := range l {
		if t, ok := st.(model.Table); ok {
			if seen[t.ID()] {
				dup = append(dup, t.Name())
			}
			seen[t.ID()] = true
		}
	}
	return dup
}

func init() {
	register(&Check{
		ID: "C15", Level: "exploration",
		Rule: "a case is a pair of inputs, valid or not; distinct by texts; non-trivial because every entry point and option is asked and all answers are compared",
		Assumptions: []string{
			"messages of errors may differ between entry points; that there is one may not",
		},
		Phases: []Phase{
			{Name: "valid-pairs", Quick: 2500, Thorough: 100000, Run: func(c *Case) {
				from, to, _ := genPair(c.R, &GenCfg{Tables: 4, Cols: 5, Idx: 4, Hostile: chance(c.R, 40), Like: true})
				st := plainStyle
				if chance(c.R, 40) {
					st = func() *Style { return wildStyle(c.R) }
				}
				a, b := render(from, st()).Text, render(to, st()).Text
				c.Input(a, b)
				c.Sample(a + "\n-- to --\n" + b)
				agree(c, side{a, true}, side{b, true}, true)
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 40 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				from, to, _ := bigPair(c.R, g)
				a, b := plainSQL(from), plainSQL(to)
				c.Input(a, b)
				c.Feature("big: " + g.String())
				agree(c, side{a, true}, side{b, true}, true)
			}},
			{Name: "broken-pairs", Quick: 900, Thorough: 40000, Run: func(c *Case) {
				from, to, _ := genPair(c.R, &GenCfg{Tables: 3, Cols: 4, Idx: 3, Like: true})
				a, b := side{render(from, wildStyle(c.R)).Text, true}, side{render(to, wildStyle(c.R)).Text, true}
				k := 1 + c.R.IntN(3)
				if k&1 != 0 {
					a = side{breakText(c.R, from), false}
				}
				if k&2 != 0 {
					b = side{breakText(c.R, to), false}
				}
				c.Input(a.text, b.text)
				agree(c, a, b, false)
			}},
			{Name: "databases-and-noise", Quick: 500, Thorough: 20000, Run: func(c *Case) {
				from, to, _ := genPair(c.R, &GenCfg{Tables: 2, Cols: 3, Idx: 2})
				noise := func() string {
					return pick(c.R, []string{"", "CREATE DATABASE a;\n", "CREATE DATABASE IF NOT EXISTS `x``y`;", "SET NAMES utf8;\n", "USE a;", "DROP TABLE IF EXISTS x;", "-- c\n", ";;;", "/* c */"})
				}
				a, b := noise()+plainSQL(from)+noise(), noise()+plainSQL(to)+noise()
				c.Input(a, b)
				agree(c, side{a, true}, side{b, true}, true)
			}},
			{Name: "wild-texts", Quick: 1500, Thorough: 60000, Run: func(c *Case) {
				// texts of which nobody knows whether they can be parsed: all must agree
				from, to, _ := genPair(c.R, &GenCfg{Tables: 2, Cols: 3, Idx: 2, Hostile: chance(c.R, 30), Like: true})
				wild := func(s *Schema) side {
					rd := render(s, wildStyle(c.R))
					t := rd.Text
					switch c.R.IntN(5) {
					case 0:
						t = pick(c.R, edges) + t
					case 1:
						t += pick(c.R, edges)
					case 2:
						t = mutateLex(c.R, rd.Lex, 1+c.R.IntN(2))
					case 3:
						t = mutateBytes(c.R, t, 1+c.R.IntN(2))
					}
					st, err := schemalex.New().ParseString(t)
					if err == nil && len(dupTables(st)) > 0 {
						t = "CREATE TABLE `other` (a INT)"
					}
					return side{t, err == nil}
				}
				a, b := wild(from), wild(to)
				if chance(c.R, 25) {
					b = a
				}
				if a.ok && b.ok {
					c.Count("wild pairs that can be parsed")
				}
				c.Input(a.text, b.text)
				agree(c, a, b, true)
			}},
			{Name: "same-twice", Quick: 500, Thorough: 20000, Run: func(c *Case) {
				// one and the same text on both sides, which proves nothing about it
				s := genValid(c.R, &GenCfg{Tables: 3, Cols: 4, Idx: 3, Hostile: chance(c.R, 40), Like: true})
				x := side{render(s, wildStyle(c.R)).Text, true}
				switch c.R.IntN(4) {
				case 0:
					x = side{breakText(c.R, s), false}
				case 1:
					// an index without a name, which can not be dropped, but nobody asks for it
					x.text += "\n;CREATE TABLE `zz unnamed` (a INT, b INT, INDEX (a), UNIQUE (b));"
				}
				c.Input(x.text)
				agree(c, x, x, true)
				if c.failed || !x.ok {
					return
				}
				st, err := schemalex.New().ParseString(x.text)
				if err != nil {
					return
				}
				if d, err := diffStmts(st, st); err != nil || d != "" {
					c.Fail("same", "statements differ from themselves: %q (error %v)\n%s", d, err, x.text)
				}
			}},
			{Name: "undroppable", Quick: 400, Thorough: 15000, Run: func(c *Case) {
				// pairs that can be parsed, but not diffed: an index without a name goes
				from, to, _ := genPair(c.R, &GenCfg{Tables: 3, Cols: 4, Idx: 3, Like: true})
				drop := "CREATE TABLE `zz unnamed` (a INT, b INT" + pick(c.R, []string{", INDEX (a)", ", UNIQUE (b, a)", ", FULLTEXT (a)", ", FOREIGN KEY (a) REFERENCES x (y)"})
				a, b := plainSQL(from), plainSQL(to)
				with, without := drop+");\n", "CREATE TABLE `zz unnamed` (a INT, b INT);\n"
				if chance(c.R, 50) {
					a, b = with+a, without+b
				} else {
					a, b = a+"\n;"+with, b+"\n;"+without
				}
				c.Input(a, b)
				agree(c, side{a, true}, side{b, true}, true)
			}},
			{Name: "odd-file-names", Quick: 300, Thorough: 10000, Run: func(c *Case) {
				// to Files, a name is a path and nothing else
				r := c.R
				from, to, _ := genPair(r, &GenCfg{Tables: 2, Cols: 3, Idx: 2})
				a, b := plainSQL(from), plainSQL(to)
				if chance(r, 20) {
					b = breakText(r, to)
				}
				dir, old := filepath.Join(c.W.Scratch, "odd"), ""
				os.RemoveAll(dir)
				old, err := os.Getwd()
				if err != nil || os.MkdirAll(dir, 0755) != nil || os.Chdir(dir) != nil {
					c.Error("no directory to work in: %v", err)
					return
				}
				defer os.Chdir(old)
				names := []string{"-", "v1:old.sql", "mysql:x", "file:a.sql", "file:%2e", "a b", "a%41", "a?b=c", "a#b", "~", "$HOME", "*", "local-git:?file=x", "é", "\xff", " a", "a ", "http:x", "--", "@", "a\nb"}
				n1, n2 := pick(r, names), pick(r, names)
				if n1 == n2 {
					n2 += "2"
				}
				if os.WriteFile(n1, []byte(a), 0644) != nil || os.WriteFile(n2, []byte(b), 0644) != nil {
					c.Error("can not write %q or %q", n1, n2)
					return
				}
				c.Input(n1, n2, a, b)
				opt := diff.WithTransaction(chance(r, 50))
				var w1, w2 bytes.Buffer
				e1 := diff.Strings(&w1, a, b, opt)
				e2 := diff.Files(&w2, n1, n2, opt)
				c.Count("diffs of files with odd names")
				if (e1 == nil) != (e2 == nil) || w1.String() != w2.String() {
					c.Fail("name", "Files(%q, %q): error %v, Strings: %v\n%s\n--- from\n%s\n--- to\n%s", n1, n2, e2, e1, firstDiff(w2.String(), w1.String()), a, b)
				}
			}},
			{Name: "failing-sources", Quick: 400, Thorough: 10000, Run: func(c *Case) {
				from, to, _ := genPair(c.R, &GenCfg{Tables: 2, Cols: 3, Idx: 2})
				a, b := plainSQL(from), plainSQL(to)
				c.Input(a, b)
				good := func(s string) schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader(s)) }
				bad := func(s string) schemalex.SchemaSource {
					switch c.R.IntN(4) {
					case 0:
						return schemalex.NewLocalFileSource(filepath.Join(c.W.Scratch, "no such file"))
					case 1:
						return schemalex.NewLocalFileSource(c.W.Scratch)
					case 2:
						return schemalex.NewReaderSource(&failingReader{strings.NewReader(s)})
					}
					return schemalex.NewReaderSource(&failingReader{strings.NewReader(s[:c.R.IntN(len(s)+1)])})
				}
				for k := 1; k < 4; k++ {
					x, y := good(a), good(b)
					if k&1 != 0 {
						x = bad(a)
					}
					if k&2 != 0 {
						y = bad(b)
					}
					var out bytes.Buffer
					err := diff.Sources(&out, x, y, diff.WithTransaction(chance(c.R, 50)))
					c.Count("diffs of failing sources")
					if err == nil || out.Len() > 0 {
						c.Fail("source", "failing source (%d): error %v, written %q\n--- from\n%s\n--- to\n%s", k, err, out.String(), a, b)
						return
					}
				}
				var out bytes.Buffer
				if err := diff.Files(&out, filepath.Join(c.W.Scratch, "no such file"), c.file("x.sql", b)); err == nil || out.Len() > 0 {
					c.Fail("source", "a missing file: error %v, written %q", err, out.String())
				}
			}},
		},
	})
}
