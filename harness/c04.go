package main

import (
	"reflect"
	"strings"

	"github.com/schemalex/schemalex/model"
)

// C04: spellings of the same schema must be indistinguishable afterwards.

// sinkTables hold every production of the dialect at least once.
func sinkTables() []*Table {
	var all []*Table
	t := &Table{Name: "sink_types"}
	for i, ti := range types {
		c := baseCol("c_"+strings.ToLower(ti.Name), ti.Name)
		if ti.Size || ti.DecOpt {
			c.Len = sp("12")
		}
		if ti.Dec2 {
			c.Len, c.Dec = sp("8"), sp("2")
		}
		if ti.DecOpt && i%2 == 0 {
			c.Dec = sp("1")
		}
		c.Unsigned, c.Zerofill = ti.Num, ti.Num && i%2 == 0
		c.Binary = ti.Char && i%2 == 0
		if ti.Char {
			c.Charset, c.Collate = sp("utf8"), sp("utf8_bin")
		}
		switch i % 5 {
		case 0:
			c.Null = nullNot
		case 1:
			c.Null, c.Def = nullNull, &Default{defKeyword, "NULL"}
		case 2:
			c.Def = &Default{defString, "x"}
		case 3:
			c.Def = &Default{defNumber, "1.5E3"}
		case 4:
			c.Def = &Default{defKeyword, "TRUE"}
		}
		if ti.Name == "DATETIME" {
			c.Def, c.OnUpdate = &Default{defKeyword, "NOW()"}, sp("CURRENT_TIMESTAMP")
		}
		if ti.Name == "TIMESTAMP" {
			c.Def, c.OnUpdate = &Default{defKeyword, "CURRENT_TIMESTAMP"}, sp("NOW")
		}
		if ti.Name == "BOOL" {
			c.Def = &Default{defKeyword, "FALSE"}
		}
		if i%3 == 0 {
			c.Comment = sp("a comment")
		}
		t.Cols = append(t.Cols, c)
	}
	t.Cols[4].AutoInc, t.Cols[4].Primary = true, true
	t.Cols[5].Unique = true
	t.Cols[6].Key = true
	all = append(all, t)
	t = &Table{Name: "sink idx", IfNot: true, Cols: threeCols()}
	for i, k := range []string{"PRIMARY", "NORMAL", "UNIQUE", "FULLTEXT", "SPATIAL"} {
		x := &Index{Kind: k, Name: sp("ix" + k), Cols: []IdxCol{{Name: "a", Len: sp("3"), Dir: "ASC"}, {Name: "b", Dir: "DESC"}}}
		if k == "PRIMARY" {
			x.Name, x.Symbol = nil, sp("pksym")
		}
		if k == "UNIQUE" {
			x.Symbol = sp("uqsym")
		}
		if i < 3 {
			x.Using = []string{"BTREE", "HASH"}[i%2]
		}
		if k == "FULLTEXT" {
			x.Parser = sp("ngram")
		}
		t.Idx = append(t.Idx, x)
	}
	for i, m := range []string{"FULL", "PARTIAL", "SIMPLE", ""} {
		acts := []string{"RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
		t.Idx = append(t.Idx, &Index{Kind: "FOREIGN", Symbol: sp("fk" + m), Cols: []IdxCol{{Name: "a"}}, Ref: &Ref{Table: "sink_types", Cols: []IdxCol{{Name: "c_int"}}, Match: m, OnDelete: acts[i], OnUpdate: acts[3-i]}})
	}
	all = append(all, t)
	all = append(all, &Table{Name: "sink_like", Temp: true, Like: sp("sink idx")})
	t = &Table{Name: "sink_opts", Temp: true, Cols: threeCols()}
	for _, k := range optKeys {
		o := Opt{Key: k, Val: "1"}
		switch k {
		case "ENGINE":
			o.Val = "InnoDB"
		case "DEFAULT CHARACTER SET":
			o.Val = "utf8"
		case "DEFAULT COLLATE":
			o.Val = "utf8_bin"
		case "COMMENT", "CONNECTION", "DATA DIRECTORY", "INDEX DIRECTORY", "PASSWORD":
			o.Val, o.Quoted = `it's "x"`, true
		case "ROW_FORMAT":
			o.Val = "COMPRESSED"
		case "STATS_PERSISTENT":
			o.Val = "DEFAULT"
		case "INSERT_METHOD":
			o.Val = "something"
		}
		t.Opts = append(t.Opts, o)
	}
	return append(all, t)
}

func sinkSchema() *Schema { return &Schema{Tables: sinkTables()} }

// parsedText is a text with everything that can be observed of it.
type parsedText struct {
	text  string
	stmts model.Stmts
	fp    string
	sql   []string
}

func observe(c *Case, text string) *parsedText {
	stmts, err := newParser(text).ParseString(text)
	if err != nil {
		c.Fail("rejected", "%v\n--- input\n%s", err, text)
		return nil
	}
	m, err := exStmts(stmts)
	if err != nil {
		c.Fail("model", "%v\n--- input\n%s", err, text)
		return nil
	}
	f, err := formatEach(stmts)
	if err != nil {
		c.Fail("format", "%v\n--- input\n%s", err, text)
		return nil
	}
	return &parsedText{text, stmts, schemaFP(m), f}
}

// sameResult compares what two texts parse to, in every observable way.
func sameResult(c *Case, a, b string) bool {
	pa := observe(c, a)
	return pa != nil && sameAs(c, pa, b)
}

func sameAs(c *Case, pa *parsedText, b string) bool {
	pb := observe(c, b)
	if pb == nil {
		return false
	}
	a := pa.text
	c.Count("spellings compared")
	if pa.fp != pb.fp {
		c.Fail("models", "two spellings parse to different models\n%s\n--- one\n%s\n--- two\n%s", firstDiff(pa.fp, pb.fp), a, b)
		return false
	}
	if !reflect.DeepEqual(pa.sql, pb.sql) {
		c.Fail("formats", "two spellings are formatted differently\n%s\n--- one\n%s\n--- two\n%s", firstDiff(script(pa.sql), script(pb.sql)), a, b)
		return false
	}
	for _, p := range [][2]*parsedText{{pa, pb}, {pb, pa}} {
		d, err := diffStmts(p[0].stmts, p[1].stmts)
		if err != nil || d != "" {
			c.Fail("diff", "the diff between two spellings is not empty: %q (error %v)\n--- one\n%s\n--- two\n%s", d, err, p[0].text, p[1].text)
			return false
		}
	}
	return true
}

var gapKinds = []string{"", " ", "\n", "\t", "\r\n", "  \n\n\t ", "/* c */", "/**/", "/***/", "-- x\n", "--\n", "--\r\n", "--\tx\n", "--\r\r\n", "-- x\r\n", "#\n", "#\r\n", "\r", "# x\n", " /* ';`\" */ ", "/*\n*/", "\n-- it's; \"`\n"}

var sinkLex = func() []Placed { return render(sinkSchema(), plainStyle()).Lex }()

func joinWith(lex []Placed, at int, gap string) string {
	var b strings.Builder
	for i, l := range lex {
		if i > 0 && !l.Glue {
			if i == at {
				b.WriteString(gap)
			} else {
				b.WriteString(" ")
			}
		}
		b.WriteString(l.Text)
	}
	if at == len(lex) {
		b.WriteString(gap)
	}
	return b.String()
}

func init() {
	base := joinWith(sinkLex, -1, "")
	wordCases := []func(string) string{strings.ToLower, strings.ToUpper, func(s string) string {
		b := []byte(strings.ToLower(s))
		for i := 0; i < len(b); i += 2 {
			b[i] = strings.ToUpper(s)[i]
		}
		return string(b)
	}}
	register(&Check{
		ID: "C04", Level: "exploration",
		Rule: "a case is a pair of texts of one schema; pairs are distinct when the respelled text differs, and non-trivial because both texts hold tables and every observation (model, formatted SQL, diff both ways) is compared",
		Assumptions: []string{
			"escape sequences inside strings are content, not spelling: \\n and a real line break may give different models; only the quoting of quote characters varies",
			"character set names keep their case",
		},
		Phases: []Phase{
			{Name: "every-gap", Quick: len(sinkLex), Thorough: len(sinkLex), Run: func(c *Case) {
				at := c.Index + 1
				pa := observe(c, base)
				if pa == nil {
					return
				}
				for _, g := range gapKinds {
					if g == "" && (at == len(sinkLex) || needGap(sinkLex[at-1].Lex, sinkLex[at].Lex)) {
						continue
					}
					if at < len(sinkLex) && sinkLex[at].Glue {
						continue
					}
					text := joinWith(sinkLex, at, g)
					c.Input(text)
					c.Count("gap variants")
					if !sameAs(c, pa, text) {
						return
					}
				}
			}},
			{Name: "every-keyword-case", Quick: len(sinkLex), Thorough: len(sinkLex), Run: func(c *Case) {
				l := sinkLex[c.Index]
				if l.Kind != lkWord {
					return
				}
				if i := c.Index; i > 1 && (l.Text == "InnoDB" || l.Text == "something" || l.Text == "utf8" || l.Text == "utf8_bin") {
					return // a name, not a keyword
				}
				pa := observe(c, base)
				if pa == nil {
					return
				}
				for _, f := range wordCases {
					lex := append([]Placed(nil), sinkLex...)
					lex[c.Index].Text = f(l.Text)
					text := joinWith(lex, -1, "")
					c.Input(text)
					c.Count("keyword case variants")
					if !sameAs(c, pa, text) {
						return
					}
				}
			}},
			{Name: "sink-respelled", Quick: 400, Thorough: 8000, Run: func(c *Case) {
				text := render(sinkSchema(), wildStyle(c.R)).Text
				c.Input(text)
				sameResult(c, base, text)
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 40 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				s := bigSchema(c.R, g)
				a, b := plainSQL(s), render(s, wildStyle(c.R)).Text
				c.Input(a, b)
				c.Feature("big: " + g.String())
				sameResult(c, a, b)
			}},
			{Name: "wide-gaps", Quick: 6 * len(bigGrid), Thorough: 100 * len(bigGrid), Run: func(c *Case) {
				// a gap that is very long, or made of very many parts
				n := bigGrid[c.Index%len(bigGrid)].N
				at := 1 + c.R.IntN(len(sinkLex))
				if at < len(sinkLex) && sinkLex[at].Glue {
					return
				}
				g := strings.Repeat(pick(c.R, []string{" ", "\n", "\t", "\r\n", "/* c */", "-- x\n", "# x\n", "/**/ "}), n)
				if chance(c.R, 40) {
					g = pick(c.R, []string{"/*%s*/", "-- %s\n", "# %s\n", " %s "})
					x := pick(c.R, []string{"x", " ", "*", "é", "-", "'"})
					if g == " %s " {
						x = " "
					}
					g = strings.Replace(g, "%s", strings.Repeat(x, n), 1)
				}
				pa := observe(c, base)
				if pa == nil {
					return
				}
				text := joinWith(sinkLex, at, g)
				c.Input(text)
				c.Count("gaps respelled")
				sameAs(c, pa, text)
			}},
			{Name: "random", Quick: 7000, Thorough: 250000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 3, Cols: 6, Idx: 4, Hostile: true, Like: true, Wide: true})
				for !validSchema(s) {
					s = genSchema(c.R, &GenCfg{Tables: 3, Cols: 6, Idx: 4, Hostile: true, Like: true, Wide: true})
				}
				a, b := render(s, wildStyle(c.R)).Text, render(s, wildStyle(c.R)).Text
				if chance(c.R, 30) {
					a = plainSQL(s)
				}
				c.Input(a, b)
				countFeatures(c, s)
				c.Sample(a + "\n-- is the same as --\n" + b)
				sameResult(c, a, b)
			}},
		},
	})
}
