package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

// C01: any input. Crashes, hangs and memory are watched by the supervisor.

var c01parser = schemalex.New()
var c01last model.Stmts // the statements accepted before

func anyInput(c *Case, src string, file bool) bool {
	in := []byte(src)
	t0 := time.Now()
	p := c01parser
	if hist != nil {
		p = newParser(src)
		t0 = time.Now()
	}
	stmts, err := p.Parse(in)
	c.Max("milliseconds for one parse", int(time.Since(t0).Milliseconds()))
	c.Max("bytes in one input", len(src))
	c.Count("inputs parsed")
	if string(in) != src {
		c.Fail("input-modified", "parsing modified its input\n--- input\n%q", src)
		return false
	}
	if err != nil && stmts != nil {
		c.Fail("both", "statements (%d) and an error: %v\n--- input\n%q", len(stmts), err, src)
		return false
	}
	stmts2, err2 := schemalex.New().ParseString(src)
	if (err == nil) != (err2 == nil) || len(stmts) != len(stmts2) || err != nil && (stmts2 != nil || err.Error() != err2.Error()) {
		c.Fail("string", "as bytes: %d statements, error %v\nas string: %d statements, error %v\n--- input\n%q", len(stmts), err, len(stmts2), err2, src)
		return false
	}
	if err != nil {
		c.Count("inputs rejected")
		for _, e := range []error{err, err2} {
			pe, ok := e.(schemalex.ParseError)
			if !ok {
				c.Fail("type", "%T is no ParseError: %v\n--- input\n%q", e, e, src)
				return false
			}
			if pe.Line() < 1 || pe.Line() > 1+strings.Count(src, "\n") || pe.Col() < 0 || pe.Col() > len(src)+1 || pe.Message() == "" || pe.File() != "" || pe.Error() == "" {
				c.Fail("details", "line %d column %d file %q message %q\n--- input\n%q", pe.Line(), pe.Col(), pe.File(), pe.Message(), src)
				return false
			}
		}
		if i := strings.Index(err.Error(), "expected "); i > 0 && len(err.Error()) < 200 {
			m := err.Error()[i:]
			if j := strings.Index(m, " at line"); j > 0 {
				m = m[:j]
			}
			if f := strings.Fields(m); len(f) > 3 {
				m = strings.Join(f[:3], " ")
			}
			c.Feature("error: " + m)
		}
	}
	if file {
		name := filepath.Join(c.W.Scratch, "any.sql")
		if err := os.WriteFile(name, []byte(src), 0644); err != nil {
			c.Error("%v", err)
			return false
		}
		s3, err3 := schemalex.New().ParseFile(name)
		c.Count("files parsed")
		if (err3 == nil) != (err == nil) || len(s3) != len(stmts) || err3 != nil && s3 != nil {
			c.Fail("file", "as bytes: %d statements, error %v\nas file: %d statements, error %v\n--- input\n%q", len(stmts), err, len(s3), err3, src)
			return false
		}
		if err3 != nil {
			pe, ok := err3.(schemalex.ParseError)
			if !ok {
				c.Fail("type", "from a file: %T is no ParseError: %v\n--- input\n%q", err3, err3, src)
				return false
			}
			a := err.(schemalex.ParseError)
			if pe.File() != name || pe.Line() != a.Line() || pe.Col() != a.Col() || pe.Message() != a.Message() || pe.EOF() != a.EOF() {
				c.Fail("file", "as bytes: %v\nas file: %v\n--- input\n%q", err, err3, src)
				return false
			}
		}
	}
	if err != nil {
		return true
	}
	c.Count("inputs accepted")
	c.CountN("statements accepted", len(stmts))
	for i, st := range stmts {
		if st == nil {
			c.Fail("nil", "statement %d is nil\n--- input\n%q", i, src)
			return false
		}
		switch st.(type) {
		case model.Table, model.Database:
		default:
			c.Fail("kind", "statement %d is a %T\n--- input\n%q", i, st, src)
			return false
		}
	}
	if len(stmts) == 0 {
		return true
	}
	var b bytes.Buffer
	format.SQL(&b, stmts)
	format.SQL(&b, stmts, format.WithIndent(" ", 3))
	b.Reset()
	for _, p := range [][2]model.Stmts{{stmts, stmts}, {stmts, nil}, {nil, stmts}, {c01last, stmts}, {stmts, c01last}} {
		diff.Statements(&b, p[0], p[1], diff.WithTransaction(true))
		c.Count("diffs of accepted inputs")
	}
	c01last = stmts
	return true
}

// alphabets for short inputs
var c01short = []byte("a'\"`/*-#;(),.\\\x000\n =\xff")

var longPieces = []string{"(", ")", "'", "`", "\"", "/*", "*/", "--", "-- ", "#", "\n", " ", ",", ";", "a", "1", ".", "-", "+", "\\", "''", "``", "\\'", "a ", "CREATE ", "CREATE TABLE ", "CREATE TABLE a (", "CREATE TABLE a (b INT);", "DROP a;", "SET ", "`a` INT,", "DEFAULT 1 ", "NOT NULL ", "\x00", "\xff", "é", "😀", "IF NOT EXISTS ", "/**/", "--\n", "CREATE DATABASE a;", "@", "1.1", "e5"}

// lists of things: name, before, an item (# is its number), between, behind,
// and how many there may be (the time it takes to compare indexes and tables is
// quadratic in their number, of which real schemas have few)
var itemKinds = [][]string{
	{"enum members", "CREATE TABLE a (b ENUM(", "'v#'", ",", "))"},
	{"set members", "CREATE TABLE a (b SET(", "'v#'", ",", ") NOT NULL)"},
	{"columns", "CREATE TABLE a (", "c# INT", ",", ")"},
	{"indexes", "CREATE TABLE a (b INT,", "KEY k# (b)", ",", ")", "600"},
	{"foreign keys", "CREATE TABLE a (b INT,", "CONSTRAINT k# FOREIGN KEY (b) REFERENCES c (d)", ",", ")", "600"},
	{"unique columns", "CREATE TABLE a (", "c# INT UNIQUE", ",", ")", "600"},
	{"columns of an index", "CREATE TABLE a (b INT, KEY k (", "c#", ",", "))"},
	{"columns of a reference", "CREATE TABLE a (b INT, FOREIGN KEY k (b) REFERENCES x (", "c#", ",", "))"},
	{"table options", "CREATE TABLE a (b INT) ", "COMMENT = '#'", ",", ""},
	{"column attributes", "CREATE TABLE a (b INT ", "COMMENT '#'", " ", ")"},
	{"tables", "", "CREATE TABLE t# (a INT)", ";", "", "4000"},
	{"tables by LIKE", "", "CREATE TABLE t# LIKE x", ";", "", "4000"},
	{"databases", "", "CREATE DATABASE d#", ";", ""},
	{"drops", "", "DROP TABLE t#", ";", ""},
	{"names in a drop", "DROP TABLE ", "t#", ",", ";CREATE TABLE a (b INT)"},
	{"comments", "CREATE TABLE a (", "/* # */", "", "b INT)"},
	{"lines of comment", "CREATE TABLE a (b INT)", "-- #", "\n", "\n;"},
	{"empty statements", "CREATE TABLE a (b INT)", ";", "", "CREATE TABLE c (b INT)"},
}

func manyItems(kind, n int) string {
	k := itemKinds[kind]
	if len(k) > 5 {
		if m, _ := strconv.Atoi(k[5]); n > m {
			n = m
		}
	}
	var b strings.Builder
	b.WriteString(k[1])
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(k[3])
		}
		b.WriteString(strings.Replace(k[2], "#", strconv.Itoa(i), -1))
	}
	b.WriteString(k[4])
	return b.String()
}

func init() {
	sink := plainSQL(sinkSchema())
	sinkR := render(sinkSchema(), plainStyle())
	register(&Check{
		ID: "C01", Level: "exploration",
		Rule: "a case is a byte sequence; distinct by bytes; non-trivial in that each is parsed as bytes and string (often as a file), its outcome judged, and, if it is accepted, formatted and diffed",
		Assumptions: []string{
			"a hang is a case that makes no progress for the supervisor's limit, runaway memory is more than its limit",
		},
		Phases: []Phase{
			{Name: "all-of-two-bytes", Quick: 257, Thorough: 257, Run: func(c *Case) {
				if c.Index == 256 {
					anyInput(c, "", true)
					return
				}
				c.Input(string([]byte{byte(c.Index)}))
				if !anyInput(c, string([]byte{byte(c.Index)}), true) {
					return
				}
				for b := 0; b < 256; b++ {
					src := string([]byte{byte(c.Index), byte(b)})
					c.Input(src)
					if !anyInput(c, src, false) {
						return
					}
				}
			}},
			{Name: "short-over-special-bytes", Quick: len(c01short) * len(c01short), Thorough: len(c01short) * len(c01short) * len(c01short), Run: func(c *Case) {
				n := len(c01short)
				pre := []byte{c01short[c.Index%n], c01short[c.Index/n%n]}
				if c.W.Tier == "thorough" {
					pre = append(pre, c01short[c.Index/n/n])
				}
				step := 1
				if c.W.Tier == "quick" {
					step = 7
				}
				for i := c.R.IntN(step); i < n*n; i += step {
					src := string(pre) + string([]byte{c01short[i%n], c01short[i/n]})
					if i%n == 0 {
						c.Input(src)
					}
					if !anyInput(c, src, false) {
						return
					}
				}
			}},
			{Name: "short-inside-a-table", Quick: 400, Thorough: 8000, Run: func(c *Case) {
				// what may stand in a column definition, and at other places
				ctx := [][2]string{{"CREATE TABLE a (b INT ", ");"}, {"CREATE TABLE a (b INT", ")"}, {"CREATE TABLE a (b ENUM(", ")"}, {"CREATE TABLE a (b INT) ", ";"}, {"CREATE TABLE a (b INT, ", ");"}, {"CREATE TABLE ", " (b INT)"}, {"SET ", ";CREATE TABLE a (b INT)"}, {"", "CREATE TABLE a (b INT)"}, {"CREATE DATABASE a", ""}, {"CREATE TABLE a (b INT, KEY (b", "));"}, {"CREATE TABLE a (b VARCHAR(", "));"}, {"CREATE TABLE a (b INT, FOREIGN KEY (b) REFERENCES c (d) ", ");"}}
				x := ctx[c.Index%len(ctx)]
				for i := 0; i < 60; i++ {
					mid := soupToken(c.R)
					for chance(c.R, 55) {
						mid += pick(c.R, []string{" ", "", "\n"}) + soupToken(c.R)
					}
					src := x[0] + mid + x[1]
					c.Input(src)
					if !anyInput(c, src, false) {
						return
					}
				}
			}},
			{Name: "truncations", Quick: len(sink) + 1, Thorough: len(sink) + 1, Run: func(c *Case) {
				src := sink[:c.Index]
				c.Input(src)
				if !anyInput(c, src, c.Index%20 == 0) {
					return
				}
				for _, t := range []string{"\x00", "'", "`", "/*", "*", "\xff", ";", ")", "(", ",", "--", "#x", " ", "\\"} {
					if !anyInput(c, src+t, false) {
						return
					}
				}
			}},
			{Name: "one-token-off", Quick: len(sinkR.Lex), Thorough: len(sinkR.Lex), Run: func(c *Case) {
				l := sinkR.Lex[c.Index]
				toks := append([]string{""}, append(append([]string{}, soupWords...), soupOther...)...)
				for i, t := range toks {
					if c.W.Tier == "quick" && i%3 != c.Index%3 {
						continue
					}
					src := sink[:l.Start] + t + sink[l.End:]
					c.Input(src)
					if !anyInput(c, src, false) {
						return
					}
				}
			}},
			{Name: "token-soup", Quick: 50000, Thorough: 2500000, Run: func(c *Case) {
				var b strings.Builder
				if chance(c.R, 70) {
					b.WriteString(pick(c.R, []string{"CREATE TABLE a (", "CREATE TABLE a (b INT,", "CREATE TABLE a (b INT ", "CREATE TABLE a (b INT) ", "CREATE TABLE IF ", "CREATE DATABASE ", "CREATE TABLE a LIKE ", "DROP ", "SET "}))
				}
				for n := c.R.IntN(30); n >= 0; n-- {
					b.WriteString(soupToken(c.R))
					b.WriteString(pick(c.R, []string{" ", " ", " ", "", "\n"}))
				}
				c.Input(b.String())
				c.Sample(b.String())
				anyInput(c, b.String(), chance(c.R, 3))
			}},
			{Name: "mutated-tokens", Quick: 30000, Thorough: 1500000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 4, Hostile: true, Like: true})
				src := mutateLex(c.R, render(s, plainStyle()).Lex, 1+c.R.IntN(4))
				c.Input(src)
				c.Sample(src)
				anyInput(c, src, chance(c.R, 3))
			}},
			{Name: "mutated-bytes", Quick: 30000, Thorough: 1500000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 4, Hostile: true, Like: true})
				src := mutateBytes(c.R, render(s, wildStyle(c.R)).Text, 1+c.R.IntN(5))
				c.Input(src)
				c.Sample(src)
				anyInput(c, src, chance(c.R, 3))
			}},
			{Name: "noise", Quick: 20000, Thorough: 1000000, Run: func(c *Case) {
				b := make([]byte, c.R.IntN(200))
				for i := range b {
					switch c.R.IntN(3) {
					case 0:
						b[i] = byte(c.R.IntN(256))
					case 1:
						b[i] = c01short[c.R.IntN(len(c01short))]
					default:
						b[i] = " abcCREATEtable(),;"[c.R.IntN(19)]
					}
				}
				c.Input(string(b))
				anyInput(c, string(b), chance(c.R, 3))
			}},
			{Name: "long", Quick: len(longPieces) * 2, Thorough: len(longPieces) * 8, Run: func(c *Case) {
				p := longPieces[c.Index%len(longPieces)]
				pre := []string{"", "CREATE TABLE a (", "CREATE TABLE a (b INT) COMMENT = '", "SET x = ", "/*", "CREATE TABLE a (b INT DEFAULT ", "CREATE TABLE `", "CREATE TABLE a (b ENUM("}[c.Index/len(longPieces)%8]
				n := 200000
				if c.W.Tier == "thorough" {
					n = 3000000
				}
				src := pre + strings.Repeat(p, n/len(p))
				c.Input(src)
				anyInput(c, src, true)
			}},
			{Name: "runs", Quick: 12000, Thorough: 600000, Run: func(c *Case) {
				// one byte or piece again and again, in a quote, in a comment or bare, at the end or not
				var b strings.Builder
				switch c.R.IntN(3) {
				case 0:
					text := sink
					if chance(c.R, 50) {
						text = plainSQL(genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Like: true}))
					}
					b.WriteString(text[:c.R.IntN(len(text)+1)])
				case 1:
					b.WriteString(pick(c.R, []string{"CREATE TABLE a (", "CREATE TABLE a (b INT,", "CREATE TABLE a (b INT ", "CREATE TABLE a (b INT) ", "CREATE ", "CREATE DATABASE ", "CREATE TABLE a LIKE ", "DROP ", "SET ", "CREATE TABLE a (b VARCHAR(", "CREATE TABLE a (b ENUM(", "CREATE TABLE a (b INT DEFAULT "}))
				}
				q := pick(c.R, [][2]string{{"", ""}, {"", ""}, {"# ", "\n"}, {"-- ", "\n"}, {"/*", "*/"}, {"'", "'"}, {"\"", "\""}, {"`", "`"}, {"\n", "\n"}, {"\r", "\r"}})
				b.WriteString(q[0])
				piece := pick(c.R, longPieces)
				if chance(c.R, 50) {
					piece = string([]byte{byte(c.R.IntN(256))})
				}
				b.WriteString(strings.Repeat(piece, 1+c.R.IntN(pick(c.R, []int{5, 50, 130, 600}))))
				if chance(c.R, 50) {
					b.WriteString(q[1])
					if chance(c.R, 60) {
						b.WriteString(soupToken(c.R))
					}
				}
				c.Input(b.String())
				c.Sample(b.String())
				anyInput(c, b.String(), chance(c.R, 3))
			}},
			{Name: "many-items", Quick: len(itemKinds) * 2, Thorough: len(itemKinds) * 6, Run: func(c *Case) {
				n := []int{300, 2100, 9000, 40000, 70000, 140000}[c.Index/len(itemKinds)]
				src := manyItems(c.Index%len(itemKinds), n+c.R.IntN(50))
				c.Input(src)
				c.Max("items in one list", n)
				c.Feature("many " + itemKinds[c.Index%len(itemKinds)][0])
				anyInput(c, src, true)
			}},
			{Name: "megabytes", Quick: 12, Thorough: 60, Run: func(c *Case) {
				// something that counts behind a lot that does not, or a lot that counts
				n := []int{1100000, 2200000, 4300000, 8500000, 17000000}[c.Index/12]
				pad := [][2]string{{"", " "}, {"/*", "x"}, {"", "-- some text\n"}, {"", ";"}, {"", "DROP TABLE x;"}, {"", "CREATE TABLE a (b INT);\n"}, {"SET x = '", "yz"}, {"#", "a"}, {"", "\r\n"}, {"CREATE TABLE x (a INT COMMENT '", "abc def "}, {"", "/* c */"}, {"CREATE DATABASE `", "q"}}[c.Index%12]
				end := map[string]string{"/*": "*/", "#": "\n", "SET x = '": "';", "CREATE TABLE x (a INT COMMENT '": "');", "CREATE DATABASE `": "`;"}[pad[0]]
				src := pad[0] + strings.Repeat(pad[1], n/len(pad[1])) + end + "CREATE TABLE zz (a INT);"
				if chance(c.R, 30) {
					src += " CREATE TABLE"
				}
				c.Input(pad[0] + pad[1] + " repeated")
				anyInput(c, src, true)
			}},
			{Name: "nesting", Quick: 40, Thorough: 400, Run: func(c *Case) {
				var b strings.Builder
				p := []string{pick(c.R, longPieces), pick(c.R, longPieces), pick(c.R, longPieces)}
				for b.Len() < 100000 {
					b.WriteString(p[c.R.IntN(3)])
				}
				c.Input(b.String())
				anyInput(c, b.String(), false)
			}},
		},
	})
}
