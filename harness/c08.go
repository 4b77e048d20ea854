package main

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/diff"
)

// C08: contents of quotes, read back from every kind of output by a reader
// that knows MySQL's rules and nothing else.

type position struct {
	name  string
	ident bool
	set   func(t *Table, v string)
}

var positions = []position{
	{"column comment", false, func(t *Table, v string) { t.Cols[0].Comment = sp(v) }},
	{"default", false, func(t *Table, v string) { t.Cols[1].Def = &Default{defString, v} }},
	{"enum member", false, func(t *Table, v string) { t.Cols[2].Vals = []string{"first", v, "last"} }},
	{"set member", false, func(t *Table, v string) { t.Cols[3].Vals = []string{v} }},
	{"option COMMENT", false, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"COMMENT", v, true}) }},
	{"option CONNECTION", false, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"CONNECTION", v, true}) }},
	{"option DATA DIRECTORY", false, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"DATA DIRECTORY", v, true}) }},
	{"option PASSWORD", false, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"PASSWORD", v, true}) }},
	{"table name", true, func(t *Table, v string) { t.Name = v }},
	{"column name", true, func(t *Table, v string) {
		old := t.Cols[0].Name
		t.Cols[0].Name = v
		for _, x := range t.Idx {
			for i := range x.Cols {
				if x.Cols[i].Name == old {
					x.Cols[i].Name = v
				}
			}
		}
	}},
	{"last column name", true, func(t *Table, v string) { t.Cols[len(t.Cols)-1].Name = v }},
	{"index name", true, func(t *Table, v string) { t.Idx[0].Name = sp(v) }},
	{"unique symbol", true, func(t *Table, v string) { t.Idx[1].Symbol, t.Idx[1].Name = sp(v), nil }},
	{"foreign key symbol", true, func(t *Table, v string) { t.Idx[2].Symbol = sp(v) }},
	{"foreign key name", true, func(t *Table, v string) { t.Idx[2].Symbol, t.Idx[2].Name = nil, sp(v) }},
	{"referenced table", true, func(t *Table, v string) { t.Idx[2].Ref.Table = v }},
	{"referenced column", true, func(t *Table, v string) { t.Idx[2].Ref.Cols[0].Name = v }},
	{"parser", true, func(t *Table, v string) { t.Idx[3].Parser = sp(v) }},
	{"fulltext name", true, func(t *Table, v string) { t.Idx[3].Name = sp(v) }},
	{"column charset", true, func(t *Table, v string) { t.Cols[0].Charset = sp(v) }},
	{"column collation", true, func(t *Table, v string) { t.Cols[0].Collate = sp(v) }},
	{"option ENGINE", true, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"ENGINE", v, false}) }},
	{"option DEFAULT CHARACTER SET", true, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"DEFAULT CHARACTER SET", v, false}) }},
	{"option DEFAULT COLLATE", true, func(t *Table, v string) { t.Opts = append(t.Opts, Opt{"DEFAULT COLLATE", v, false}) }},
	{"unique column name", true, func(t *Table, v string) { t.Cols[4].Name, t.Cols[4].Unique = v, true }},
}

func victim() *Table {
	return &Table{Name: "victim", Cols: []*Col{
		{Name: "v0", Type: "VARCHAR", Len: sp("10")}, {Name: "v1", Type: "VARCHAR", Len: sp("10")},
		{Name: "v2", Type: "ENUM", Vals: []string{"x"}}, {Name: "v3", Type: "SET", Vals: []string{"y"}},
		{Name: "v4", Type: "INT"}, {Name: "v5", Type: "INT"},
	}, Idx: []*Index{
		{Kind: "NORMAL", Name: sp("ix0"), Cols: []IdxCol{{Name: "v0"}, {Name: "v1"}}},
		{Kind: "UNIQUE", Name: sp("ix1"), Cols: []IdxCol{{Name: "v1"}}},
		{Kind: "FOREIGN", Symbol: sp("fk0"), Cols: []IdxCol{{Name: "v4"}}, Ref: &Ref{Table: "o", Cols: []IdxCol{{Name: "id"}}}},
		{Kind: "FULLTEXT", Name: sp("ix3"), Cols: []IdxCol{{Name: "v1"}}},
	}}
}

// contents lists what is put into quotes: every byte, every pair of special
// characters, every atom in several surroundings.
var contents = func() []string {
	var out []string
	for i := 1; i < 256; i++ {
		out = append(out, string([]byte{byte(i)}), "a"+string([]byte{byte(i)})+"b")
	}
	special := []string{"'", `"`, "`", ";", "\n", "--", "-- ", "#", "/*", "*/", "\r", "\x00", "\t", ",", ")", "(", "é", " ", "\\\\", "\\n", "\\0", "\\%", "%"}
	for _, a := range special {
		for _, b := range special {
			out = append(out, a+b)
		}
		out = append(out, a+a+a, "x"+a, a+"x", a+a+"x")
	}
	for r := rune(0x80); r < 0x110000; r += 1 + r/7 {
		if r < 0xd800 || r > 0xdfff {
			out = append(out, string(r))
		}
	}
	out = append(out, hostileNames...)
	out = append(out, stringAtoms...)
	out = append(out, strings.Repeat("'", 40), strings.Repeat("`", 40), strings.Repeat("\\\\", 40), strings.Repeat("x", 70000), "'); DROP TABLE victim; -- ", "` int); DROP TABLE victim; -- ", "\\\\'); DROP TABLE victim; -- ", "*/ DROP TABLE victim; /*")
	return out
}()

// readBack reads an output independently and compares it with the schema.
func readBack(c *Case, what, out string, want []*Table) bool {
	stmts, err := parseSQL(out)
	if err != nil {
		c.Fail("leak", "%s can not be read back: %v\n--- output\n%s", what, err, out)
		return false
	}
	i := 0
	for _, s := range stmts {
		if s.Op != "CREATE" || !s.Semi || i >= len(want) {
			c.Fail("leak", "%s holds a statement that does not belong there: %s\n--- output\n%s", what, s.Text, out)
			return false
		}
		if g, w := tableFP(normTable(s.Create)), tableFP(normTable(want[i])); g != w {
			c.Fail("content", "%s does not say what was given\n%s\n--- output\n%s", what, firstDiff(g, w), out)
			return false
		}
		i++
	}
	if i != len(want) {
		c.Fail("lost", "%s has %d statements instead of %d\n--- output\n%s", what, i, len(want), out)
		return false
	}
	c.Count("outputs read back")
	return true
}

// survives takes a schema through the formatter, the linter and the differ.
func survives(c *Case, s *Schema, text string) bool {
	stmts, err := newParser(text).ParseString(text)
	if err != nil {
		c.Fail("rejected", "a valid schema is rejected: %v\n--- input\n%s", err, text)
		return false
	}
	f, err := formatEach(stmts)
	if err != nil {
		c.Fail("format", "%v\n--- input\n%s", err, text)
		return false
	}
	if !readBack(c, "the formatted SQL", script(f), s.Tables) {
		return false
	}
	l, err := lintText(text)
	if err != nil {
		c.Fail("lint", "%v\n--- input\n%s", err, text)
		return false
	}
	if !readBack(c, "the lint output", l, s.Tables) {
		return false
	}
	// created, dropped, and built up column by column
	d, err := diffStrings("", text)
	if err != nil {
		c.Fail("diff", "%v\n--- input\n%s", err, text)
		return false
	}
	if !readBack(c, "the diff from nothing", d, s.Tables) {
		return false
	}
	stub := &Schema{}
	for _, t := range s.Tables {
		if t.Like == nil {
			stub.Tables = append(stub.Tables, &Table{Name: t.Name, Cols: []*Col{{Name: "stub column", Type: "INT"}}})
		}
	}
	cols := &Schema{}
	for _, t := range s.Tables {
		if t.Like == nil {
			cols.Tables = append(cols.Tables, t)
		}
	}
	colText := plainSQL(cols)
	for _, p := range []struct {
		what     string
		from, to *Schema
		ft, tt   string
	}{
		{"the diff to nothing", s, &Schema{}, text, ""},
		{"the diff that builds the tables up", stub, cols, plainSQL(stub), colText},
		{"the diff that takes the tables down", cols, stub, colText, plainSQL(stub)},
	} {
		out, err := diffStrings(p.ft, p.tt, diff.WithTransaction(c.R.IntN(2) == 0))
		if err != nil {
			if f, _ := mustFail(p.from, p.to); f {
				c.Count("diffs refused (unnamed index)")
				continue
			}
			c.Fail("diff", "%s: %v\n--- from\n%s\n--- to\n%s", p.what, err, p.ft, p.tt)
			return false
		}
		st, err := parseSQL(out)
		if err != nil {
			c.Fail("leak", "%s can not be read back: %v\n--- output\n%s", p.what, err, out)
			return false
		}
		db := newDB(p.from)
		err = db.run(st)
		if err == nil {
			err = compareDB(db, p.from, p.to)
		}
		if err != nil {
			c.Fail("content", "%s does not say what was given: %v\n--- output\n%s", p.what, err, out)
			return false
		}
		c.Count("diffs read back")
	}
	return true
}

func init() {
	register(&Check{
		ID: "C08", Level: "exploration",
		Rule: "a case puts one content into one quoted position of a table; distinct by text; non-trivial because the content is looked up again, by an independent reader, in six outputs (format, lint, and four diffs)",
		Assumptions: []string{
			"contents are compared after escape sequences are resolved as MySQL does (NO_BACKSLASH_ESCAPES off)",
			"a backslash in front of a quote character or of a non-ASCII byte is left out of the generated contents; the quote alone and the pair of backslashes are in",
		},
		Phases: []Phase{
			{Name: "position-content-grid", Quick: len(positions) * 24, Thorough: len(positions) * 24, Run: func(c *Case) {
				p := positions[c.Index/24]
				for k := c.Index % 24; k < len(contents); k += 24 {
					v := contents[k]
					if v == "" && p.ident || !p.ident && !rawOK(v) || p.name == "option CONNECTION" && len(v) > 50000 {
						continue
					}
					if (strings.Contains(p.name, "charset") || strings.Contains(p.name, "collation")) && len(v) > 50000 {
						continue
					}
					t := victim()
					p.set(t, v)
					if !validTable(t) {
						continue
					}
					c.Feature("position:" + p.name)
					c.Count("contents placed")
					s := &Schema{Tables: []*Table{{Name: "bystander", Cols: threeCols()}, t}}
					if t.Name == "bystander" {
						continue
					}
					text := render(s, &Style{R: c.R, StringQuotes: true}).Text
					c.Input(text)
					if !survives(c, s, text) {
						return
					}
				}
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 40 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				s := bigSchema(c.R, g)
				text := render(s, plainStyle()).Text
				c.Input(text)
				c.Feature("big: " + g.String())
				survives(c, s, text)
			}},
			{Name: "random", Quick: 3000, Thorough: 120000, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 3, Cols: 6, Idx: 4, Hostile: true, Like: true})
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				c.Sample(text)
				countFeatures(c, s)
				survives(c, s, text)
			}},
		},
	})
	_ = fmt.Sprint
}
