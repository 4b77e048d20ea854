package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// C05: scripts in which table statements stand among others.

var noiseStrings = []string{"x", "it''s", `it\'s`, "; CREATE TABLE sneaky (a int);", "-- ", "/* ", "*/", "`", `"`, "\n", "#", `\\`, "日本", "CREATE TABLE s2 (b int)", "--", "*", "/", "\x00"}

// noiseLit is a complete literal, identifier or comment with markers inside.
func noiseLit(r *rand.Rand) string {
	in := ""
	for n := r.IntN(3); n >= 0; n-- {
		in += pick(r, noiseStrings)
	}
	switch r.IntN(6) {
	case 0, 1:
		return "'" + in + "'"
	case 2:
		return `"` + strings.ReplaceAll(in, `"`, `""`) + `"`
	case 3:
		return "`" + strings.ReplaceAll(strings.ReplaceAll(in, "`", "``"), "\n", " ") + "`"
	case 4:
		return "/*" + strings.ReplaceAll(in, "*/", "* /") + "*/"
	default:
		return pick(r, []string{"-- ", "#"}) + strings.ReplaceAll(in, "\n", " ") + "\n"
	}
}

// noiseStmt is a statement that has no effect on the result.
func noiseStmt(r *rand.Rand) string {
	gap := func() string {
		if chance(r, 30) {
			return " " + noiseLit(r) + " "
		}
		return pick(r, []string{" ", "\n", "  ", "\t"})
	}
	cased := func(s string) string {
		if chance(r, 30) {
			return strings.ToLower(s)
		}
		return s
	}
	switch r.IntN(8) {
	case 0:
		s := cased("SET") + gap() + pick(r, []string{"NAMES", "@x =", "@@session.sql_mode =", "foreign_key_checks =", "CHARACTER SET", "x ="}) + gap()
		for n := r.IntN(3); n > 0; n-- {
			s += pick(r, []string{"1", "0", "utf8", "@OLD", "ON", "DEFAULT", ",", "(", ")", "=", "-1", "+", "CREATE", "TABLE", "*", "/ 2", "|", ":=", "!", "?", "%"}) + gap()
		}
		if chance(r, 60) {
			s += noiseLit(r)
		}
		return s + gap() + ";"
	case 1:
		return cased("USE") + gap() + pick(r, []string{"db", "`my db`", "`;`", "`it's`", "test"}) + gap() + ";"
	case 2:
		s := cased("DROP") + gap() + pick(r, []string{"TABLE", "DATABASE", "VIEW", "TABLE IF EXISTS", "TEMPORARY TABLE"}) + gap() + pick(r, []string{"a", "`x;y`", "`CREATE TABLE z (a int);`", "a, b, `c d`", "`it's`"})
		return s + gap() + ";"
	case 3:
		gap = func() string { // white space and comments only
			if chance(r, 30) {
				return " " + noiseLit2(r) + " "
			}
			return pick(r, []string{" ", "\n", "  ", "\t"})
		}
		return cased("CREATE") + gap() + cased("DATABASE") + gap() + pick(r, []string{"", "IF NOT EXISTS "}) + pick(r, []string{"db", "`my db`", "`;`", "`a``b`"}) + pick(r, []string{"", " ", "\n"}) + ";"
	case 4:
		return ";"
	case 5:
		return noiseLit2(r)
	default:
		return noiseLit2(r) + ";"
	}
}

// noiseLit2 is a comment, or nothing.
func noiseLit2(r *rand.Rand) string {
	for i := 0; i < 20; i++ {
		s := noiseLit(r)
		if s[0] == '/' || s[0] == '-' || s[0] == '#' {
			return s
		}
	}
	return ""
}

// scriptWithNoise writes the tables of a schema among ignored statements.
func scriptWithNoise(r *rand.Rand, s *Schema) string {
	var b strings.Builder
	noise := func() {
		for n := r.IntN(4); n > 0; n-- {
			b.WriteString(noiseStmt(r))
			b.WriteString(pick(r, []string{"\n", " ", "", "\n\n", "\r\n"}))
		}
	}
	noise()
	for _, t := range s.Tables {
		st := plainStyle()
		if chance(r, 30) {
			st = wildStyle(r)
		}
		st.EmptyStmts = false
		rd := render(&Schema{Tables: []*Table{t}}, &Style{R: st.R, Case: st.Case, Gaps: st.Gaps, Comments: st.Comments, IdentQuotes: st.IdentQuotes, StringQuotes: st.StringQuotes, Noise: st.Noise, AttrOrder: st.AttrOrder, HostileComments: true})
		b.WriteString(rd.Text)
		if rd.Lex[len(rd.Lex)-1].Text != ";" {
			b.WriteString(";")
		}
		b.WriteString(pick(r, []string{"\n", " ", "", "\n\n"}))
		noise()
	}
	return b.String()
}

func smallCfg() *GenCfg { return &GenCfg{Tables: 4, Cols: 3, Idx: 2, Hostile: true, Like: true} }

// tails that nothing can be made of
var badTails = []string{"'", `"`, "`", "/*", "/* ", "/*/", "/**", "'it", `"say`, "`na", "'x\\'", "'x''", "`a``", `"a""`, "/* x *", "'\\", "'ends in backslash\\", "/* -- ", "' -- x\n", "'#", "`/* */", "'*/", "/*'"}

func init() {
	register(&Check{
		ID: "C05", Level: "exploration",
		Rule: "a case is a script; distinct by text; non-trivial when it holds at least one table statement or a tail that must be refused",
		Assumptions: []string{
			"the ignored statements are the ones the parser documents as ignored: SET, USE, DROP, CREATE DATABASE, comments and empty statements",
			"lone characters such as @ or ! are legal inside SET, USE and DROP",
		},
		Phases: []Phase{
			{Name: "scripts", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				s := genSchema(c.R, smallCfg())
				if len(s.Tables) > 1 && chance(c.R, 25) {
					// the same name twice, with IF NOT EXISTS or without, with the same definition or not
					i, j := c.R.IntN(len(s.Tables)), c.R.IntN(len(s.Tables))
					if i != j && chance(c.R, 30) {
						cp := *s.Tables[i]
						s.Tables[j] = &cp
					}
					s.Tables[j].Name = s.Tables[i].Name
					s.Tables[j].IfNot = chance(c.R, 50)
					c.Count("scripts with a table name twice")
				}
				text := scriptWithNoise(c.R, s)
				c.Input(text)
				c.Sample(text)
				c.Count("scripts")
				c.CountN("table statements expected", len(s.Tables))
				_, got, ok := parseOK(c, text)
				if !ok {
					return
				}
				if len(got.Tables) != len(s.Tables) {
					c.Fail("lost", "%d tables instead of %d\n--- input\n%s", len(got.Tables), len(s.Tables), text)
					return
				}
				if g, w := schemaFP(got), schemaFP(normSchema(s)); g != w {
					c.Fail("changed", "%s\n--- input\n%s", firstDiff(g, w), text)
				}
			}},
			{Name: "much-noise", Quick: 3 * len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				// very many ignored statements, or very long ones
				n := bigGrid[c.Index%len(bigGrid)].N
				part := func() string {
					if chance(c.R, 30) {
						return ""
					}
					if chance(c.R, 50) {
						one := noiseStmt(c.R) + "\n"
						if chance(c.R, 50) {
							return strings.Repeat(one, min(n, 400000/len(one)))
						}
						var b strings.Builder
						for i := 0; i < n && b.Len() < 400000; i++ {
							b.WriteString(noiseStmt(c.R) + "\n")
						}
						return b.String()
					}
					w := strings.Repeat(pick(c.R, []string{"x", "é", ";", "CREATE TABLE q (a INT);", "\n", " "}), n)
					return strings.Replace(pick(c.R, []string{"/* %s */", "SET x = '%s';", "USE `%s`;", "DROP TABLE `a`, `%s`;", "CREATE DATABASE `%s`;", "SET x = \"%s\";"}), "%s", w, 1)
				}
				k := 1 + c.R.IntN(3)
				text := part()
				for i := 0; i < k; i++ {
					text += fmt.Sprintf("CREATE TABLE t%d (x INT);", i) + part()
				}
				c.Input(text)
				c.Count("scripts")
				c.Max("bytes of a script", len(text))
				c.CountN("table statements expected", k)
				stmts, err := newParser(text).ParseString(text)
				if err != nil || len(stmts) != k {
					c.Fail("lost", "%d tables instead of %d (error %v)\n--- input\n%s", len(stmts), k, err, clip(text))
					return
				}
				for i, st := range stmts {
					if st.ID() != fmt.Sprintf("table#t%d", i) {
						c.Fail("order", "statement %d is %s", i, st.ID())
						return
					}
				}
			}},
			{Name: "noise-between-two", Quick: 12000, Thorough: 400000, Run: func(c *Case) {
				n := noiseStmt(c.R)
				text := "CREATE TABLE a (x INT);" + n + "CREATE TABLE b (y INT);"
				c.Input(text)
				c.Count("scripts")
				stmts, err := newParser(text).ParseString(text)
				if err != nil {
					c.Fail("rejected", "%v\n--- input\n%q", err, text)
					return
				}
				if len(stmts) != 2 || stmts[0].ID() != "table#a" || stmts[1].ID() != "table#b" {
					c.Fail("lost", "%d statements\n--- input\n%q", len(stmts), text)
				}
			}},
			{Name: "hidden-statements", Quick: 200, Thorough: 2000, Run: func(c *Case) {
				// SQL inside quotes and comments never takes effect
				hidden := "CREATE TABLE sneaky (a int);"
				wraps := []string{"/* %s */", "-- %s\n", "# %s\n", "--\t%s\n", "/*! %s */", "/**%s**/", "SET x = '%s';", `SET x = "%s";`, "SET x = `%s`;", "USE `%s`;", "DROP TABLE `%s`;", "CREATE DATABASE `%s`;", "SET x = '''%s';", `SET x = '\'%s';`, `SET x = "\"%s";`, "DROP TABLE a /* ; */ /* %s */;", "SET x = 1 -- %s\n;", "SET x = 1 # %s\n;"}
				for _, w := range wraps {
					for _, pre := range []string{"", "CREATE TABLE a (x INT);", "CREATE TABLE a (x INT)"} {
						if pre == "CREATE TABLE a (x INT)" && !strings.HasPrefix(w, "/") && !strings.HasPrefix(w, "-") && !strings.HasPrefix(w, "#") {
							continue
						}
						text := pre + fmt.Sprintf(w, strings.Repeat(hidden, 1+c.Index%3)+strings.Repeat(" ", c.Index/3%7))
						if c.Index >= 100 {
							text += ";CREATE TABLE z (q INT)"
						}
						c.Input(text)
						c.Count("scripts with hidden statements")
						want := 0
						if pre != "" {
							want++
						}
						if c.Index >= 100 {
							want++
						}
						stmts, err := newParser(text).ParseString(text)
						if err != nil || len(stmts) != want {
							c.Fail("hidden", "%d statements instead of %d (error %v)\n--- input\n%q", len(stmts), want, err, text)
							return
						}
					}
				}
			}},
			{Name: "bad-tails", Quick: 9000, Thorough: 300000, Run: func(c *Case) {
				var head string
				switch c.R.IntN(4) {
				case 0:
					head = scriptWithNoise(c.R, genSchema(c.R, smallCfg()))
				case 1:
					head = pick(c.R, []string{"CREATE TABLE a (x INT);", "CREATE TABLE a (x INT)", "CREATE TABLE a LIKE b;", "CREATE TABLE a LIKE b ", "CREATE TABLE a (x INT) ENGINE=InnoDB ", ""})
				case 2:
					head = pick(c.R, []string{"SET x = ", "DROP TABLE ", "USE ", "CREATE DATABASE d ", "CREATE DATABASE d;", "SET ", "SET a, b = 1 + ", "DROP DATABASE IF EXISTS x, "})
				default:
					head = "CREATE TABLE a (x INT);" + noiseStmt(c.R)
				}
				tail := pick(c.R, badTails)
				if chance(c.R, 30) {
					// more text that the open quote swallows
					more := pick(c.R, []string{"; CREATE TABLE b (y INT);", "\n", " x ", ";;;", "日本"})
					tail += more
				}
				text := head + tail
				c.Input(text)
				c.Count("scripts with an open tail")
				c.Feature("tail:" + tail)
				stmts, err := newParser(text).ParseString(text)
				if err == nil {
					c.Fail("shortened", "accepted with %d statements although the tail is open\n--- input\n%q", len(stmts), text)
					return
				}
				if stmts != nil {
					c.Fail("partial", "an error and %d statements\n--- input\n%q", len(stmts), text)
				}
			}},
			{Name: "stray-nul", Quick: 6000, Thorough: 200000, Run: func(c *Case) {
				// a NUL byte outside quotes is never the end of the input
				s := genSchema(c.R, &GenCfg{Tables: 3, Cols: 3, Idx: 2, Like: true})
				rd := render(s, plainStyle())
				k := c.R.IntN(len(rd.Lex) + 1)
				at := len(rd.Text)
				if k < len(rd.Lex) {
					at = rd.Lex[k].Start
				}
				text := rd.Text[:at] + "\x00" + rd.Text[at:]
				c.Input(text)
				c.Count("scripts with a NUL byte")
				stmts, err := newParser(text).ParseString(text)
				if err == nil {
					c.Fail("shortened", "accepted with %d statements although a NUL byte stands at %d\n--- input\n%q", len(stmts), at, text)
				} else if stmts != nil {
					c.Fail("partial", "an error and %d statements\n--- input\n%q", len(stmts), text)
				}
			}},
			{Name: "many-tables", Quick: 8, Thorough: 60, Run: func(c *Case) {
				var b strings.Builder
				n := 2000 + c.R.IntN(3000)
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "CREATE TABLE t%d (x INT);", i)
					if i%7 == 0 {
						b.WriteString(noiseStmt(c.R))
					}
				}
				c.Input(b.String())
				c.CountN("table statements expected", n)
				stmts, err := newParser(b.String()).ParseString(b.String())
				if err != nil || len(stmts) != n {
					c.Fail("lost", "%d tables instead of %d (error %v)", len(stmts), n, err)
					return
				}
				for i, st := range stmts {
					if st.ID() != fmt.Sprintf("table#t%d", i) {
						c.Fail("order", "statement %d is %s", i, st.ID())
						return
					}
				}
			}},
		},
	})
}
