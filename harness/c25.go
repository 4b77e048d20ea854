package main

import (
	"math/rand/v2"
	"strings"
)

// C25: near misses of the grammar. Every text is read by the parser and by
// the reader of dialect.go; they have to agree on whether it is a schema, and
// on which.

var editLex = func() []Lex {
	var out []Lex
	for _, w := range sortedKeys(reserved) {
		switch w {
		case "SELECT", "AFTER", "ORDER", "BY", "GROUP", "BEGIN", "COMMIT", "AND", "OR", "IN", "IS", "AS", "FROM", "WHERE", "INTO", "VALUES", "INSERT", "ALTER", "ADD", "CHANGE", "COLUMN":
			continue // names to this parser, words to others
		}
		out = append(out, Lex{Text: w, Kind: lkWord})
	}
	for _, s := range []string{"(", ")", ",", ";", "="} {
		out = append(out, Lex{Text: s, Kind: lkPunct})
	}
	return append(out, Lex{Text: "xx", Kind: lkWord}, Lex{Text: "`y y`", Kind: lkIdent}, Lex{Text: "'s'", Kind: lkString}, Lex{Text: `"d"`, Kind: lkString}, Lex{Text: "7", Kind: lkNumber}, Lex{Text: "1.5", Kind: lkNumber})
}()

func lexText(l []Lex) string {
	var b strings.Builder
	for i, x := range l {
		if i > 0 && !x.Glue {
			b.WriteByte(' ')
		}
		b.WriteString(x.Text)
	}
	return b.String()
}

func plainLex(l []Placed) []Lex {
	var out []Lex
	for _, p := range l {
		out = append(out, p.Lex)
	}
	return out
}

// bothRead lets both readers judge the lexemes.
func bothRead(c *Case, l []Lex) bool {
	want, v, why := readDialect(l)
	if v == vUnsure {
		c.Count("not judged")
		return true
	}
	for _, text := range []string{lexText(l), tightText(l)} {
		if !judged(c, text, want, v, why) {
			return false
		}
	}
	return true
}

// tightText has blanks only where they are needed.
func tightText(l []Lex) string {
	var b strings.Builder
	for i, x := range l {
		if i > 0 && x.Kind != lkPunct && l[i-1].Kind != lkPunct && !x.Glue {
			b.WriteByte(' ')
		}
		b.WriteString(x.Text)
	}
	return b.String()
}

func judged(c *Case, text string, want *Schema, v verdict, why string) bool {
	stmts, err := newParser(text).ParseString(text)
	if v == vEither {
		if c.Count("texts that may be refused"); err != nil {
			return true
		}
		c.Count("and are not")
	} else if v == vRefused {
		c.Count("malformed texts")
		if err == nil {
			c.Fail("accepted", "accepted, although it is malformed (%s)\n--- input\n%s", why, text)
			return false
		}
		if stmts != nil {
			c.Fail("partial", "statements with an error: %v\n--- input\n%s", err, text)
			return false
		}
		return true
	}
	if v == vValid {
		c.Count("well-formed texts")
	}
	if err != nil {
		c.Fail("rejected", "%v\n--- input\n%s", err, text)
		return false
	}
	got, err := exStmts(stmts)
	if err != nil {
		c.Fail("model", "%v\n--- input\n%s", err, text)
		return false
	}
	if g, w := schemaFP(got), schemaFP(normSchema(want)); g != w {
		c.Fail("differs", "the model is not what the text says\n%s\n--- input\n%s", firstDiff(g, w), text)
		return false
	}
	return true
}

func spliced(l []Lex, i, j int, by ...Lex) []Lex {
	out := append([]Lex(nil), l[:i]...)
	out = append(out, by...)
	return append(out, l[j:]...)
}

// editLexemes makes a few changes.
func editLexemes(r *rand.Rand, l []Lex, n int) []Lex {
	for ; n > 0 && len(l) > 1; n-- {
		i := r.IntN(len(l))
		span := func(max int) int { return min(len(l), i+1+r.IntN(max)) }
		switch r.IntN(9) {
		case 0:
			l = spliced(l, i, i+1)
		case 1:
			l = spliced(l, i, i, l[i])
		case 2:
			if i+1 < len(l) {
				l = spliced(l, i, i+2, l[i+1], l[i])
			}
		case 3:
			l = spliced(l, i, i+1, pick(r, editLex))
		case 4:
			l = spliced(l, i, i, pick(r, editLex))
		case 5: // a run goes
			l = spliced(l, i, span(6))
		case 6: // a run comes twice
			j := span(6)
			l = spliced(l, j, j, l[i:j]...)
		case 7: // a run goes elsewhere
			j := span(6)
			run := append([]Lex(nil), l[i:j]...)
			l = spliced(l, i, j)
			k := r.IntN(len(l) + 1)
			if chance(r, 60) {
				k = min(len(l), max(0, i-8+r.IntN(16)))
			}
			l = spliced(l, k, k, run...)
		case 8: // one lexeme for another one of the text
			l = spliced(l, i, i+1, pick(r, l))
		}
	}
	return l
}

// columnTexts and the like are short texts of every construct.
func shortTexts() [][]Lex {
	var out [][]Lex
	add := func(t *Table) {
		out = append(out, plainLex(render(&Schema{Tables: []*Table{t}}, plainStyle()).Lex))
	}
	for _, t := range sinkTables() {
		for _, c := range t.Cols {
			if t.Name == "sink_types" {
				add(&Table{Name: "t", Cols: []*Col{c}})
			}
		}
		for _, x := range t.Idx {
			add(&Table{Name: "t", Cols: threeCols()[:1], Idx: []*Index{x}})
		}
		if t.Like != nil {
			add(t)
		}
		for i := range t.Opts {
			add(&Table{Name: "t", Cols: threeCols()[:1], Opts: []Opt{t.Opts[i], t.Opts[(i+1)%len(t.Opts)]}})
		}
	}
	two := render(&Schema{Tables: []*Table{{Name: "a", Cols: threeCols()[:1]}, {Name: "b", Cols: threeCols()[:2], Temp: true, IfNot: true}, {Name: "c", Like: sp("a")}, {Name: "d", Cols: threeCols()[:1]}}}, plainStyle()).Lex
	out = append(out, plainLex(two))
	for _, f := range []string{"FULLTEXT ( aa )", "SPATIAL INDEX xx ( aa )", "KEY ( aa )", "UNIQUE ( aa , bb )", "PRIMARY KEY ( aa )", "CONSTRAINT UNIQUE xx ( aa )", "FOREIGN KEY ( aa ) REFERENCES cc ( dd )", "FOREIGN KEY xx ( aa ) REFERENCES cc ( dd ) ON UPDATE CASCADE",
		"bb INT NOT NULL", "bb DECIMAL ( 5 )", "bb BOOL DEFAULT TRUE", "bb YEAR", "bb INT DEFAULT xx"} {
		out = append(out, lexFields("CREATE TABLE tt ( aa TEXT , "+f+" , zz BLOB )"))
	}
	out = append(out, lexFields("CREATE TABLE tt ( aa INT ) ENGINE xx DEFAULT CHARSET xx ; CREATE TABLE uu ( bb INT )"))
	out = append(out, lexFields("CREATE DATABASE IF NOT EXISTS xx ; USE xx ; SET names = utf8 ; DROP TABLE IF EXISTS tt ; CREATE TABLE tt ( aa INT )"))
	return out
}

// lexFields takes lexemes with blanks between them.
func lexFields(s string) (l []Lex) {
	for _, f := range strings.Fields(s) {
		k := lkWord
		switch {
		case strings.Contains(";(),=.", f):
			k = lkPunct
		case f[0] == '\'' || f[0] == '"':
			k = lkString
		case f[0] == '`':
			k = lkIdent
		case f[0] >= '0' && f[0] <= '9':
			k = lkNumber
		}
		l = append(l, Lex{Text: f, Kind: k})
	}
	return
}

// clauses go in at every place, right or wrong.
var clauses = func() (out [][]Lex) {
	for _, s := range []string{"USING BTREE", "USING HASH", "NOT NULL", "ON DELETE CASCADE", "ON DELETE SET DEFAULT", "ON UPDATE SET NULL", "ON UPDATE NO ACTION", "ON UPDATE CURRENT_TIMESTAMP", "MATCH FULL", "MATCH SIMPLE",
		"( 5 )", "( 5 , 2 )", "( 's' )", "( xx )", "( )", "( xx ( 5 ) DESC )", ", xx", ", 's'", ", 5", ", xx INT", ", KEY ( xx )", ", CONSTRAINT xx", "COMMENT 's'", "COMMENT = 's'", "DEFAULT 7", "DEFAULT xx", "DEFAULT NULL", "CHARACTER SET xx", "COLLATE xx",
		"DEFAULT CHARSET xx", "DEFAULT COLLATE = xx", "WITH PARSER xx", "IF NOT EXISTS", "IF EXISTS", "REFERENCES xx ( yy )", "LIKE xx", "( LIKE xx )", "CONSTRAINT xx", "UNIQUE KEY", "UNIQUE INDEX", "PRIMARY KEY", "FOREIGN KEY", "FULLTEXT KEY", "KEY ( xx )",
		"ENGINE = xx", "ENGINE xx", "AUTO_INCREMENT = 7", "ROW_FORMAT = DYNAMIC", "DATA DIRECTORY = 's'", "= 7", "= xx", "= 's'", "UNSIGNED ZEROFILL", "CREATE TABLE", "CREATE TABLE xx ( yy INT )", "; CREATE TABLE", "; DROP TABLE xx", "SET xx = 7 ;", "BINARY CHARACTER SET xx", "KEY_BLOCK_SIZE = 7", "xx yy", ". xx"} {
		out = append(out, lexFields(s))
	}
	return
}()

func init() {
	texts := shortTexts()
	type place struct{ text, at int }
	var places []place
	for i, l := range texts {
		for at := range l {
			places = append(places, place{i, at})
		}
		places = append(places, place{i, len(l)})
	}
	register(&Check{
		ID: "C25", Level: "exploration",
		Rule: "a case is a list of lexemes that is a few edits away from a valid schema; distinct by text; non-trivial because the parser's answer (refusal, or the complete model) is compared with an independent reading of the same lexemes, which says nothing about a text only where the dialect is open",
		Assumptions: []string{
			"a column attribute that is given twice counts as MySQL has it: the last one",
			"what MySQL takes and the dialect does not, and what the dialect takes although MySQL does not (FLOAT(n), YEAR(4), USING twice, a second COLLATE, stray commas between table options, foreign keys without REFERENCES, TABLE TEMPORARY), may be refused, but must mean what it says if it is not",
			"not judged: inline references, CHECK, index comments, non-reserved words as names, strings in a row as a default, two columns with one name",
		},
		Phases: []Phase{
			{Name: "every-edit", Quick: len(places), Thorough: len(places), Run: func(c *Case) {
				p := places[c.Index]
				l := texts[p.text]
				try := func(l []Lex) bool {
					c.Input(lexText(l))
					return bothRead(c, l)
				}
				for _, x := range clauses {
					if !try(spliced(l, p.at, p.at, x...)) || p.at < len(l) && !try(spliced(l, p.at, p.at+1, x...)) {
						return
					}
				}
				for _, x := range editLex {
					if !try(spliced(l, p.at, p.at, x)) {
						return
					}
					if p.at < len(l) && !try(spliced(l, p.at, p.at+1, x)) {
						return
					}
				}
				for j := p.at; j <= len(l); j++ { // every run goes, or comes twice
					if !try(spliced(l, p.at, j)) || !try(spliced(l, j, j, l[p.at:j]...)) {
						return
					}
				}
				for j := p.at + 1; j < len(l); j++ { // every exchange
					m := append([]Lex(nil), l...)
					m[p.at], m[j] = m[j], m[p.at]
					if !try(m) {
						return
					}
				}
			}},
			{Name: "random-edits", Quick: 60000, Thorough: 3000000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Like: true})
				st := wildStyle(c.R)
				l := editLexemes(c.R, plainLex(render(s, st).Lex), 1+c.R.IntN(3))
				c.Input(lexText(l))
				c.Sample(lexText(l))
				bothRead(c, l)
			}},
			{Name: "big", Quick: 4 * len(bigPairGrid), Thorough: 100 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				l := plainLex(render(bigSchema(c.R, g), plainStyle()).Lex)
				if len(l) > 40 && chance(c.R, 70) { // near the end
					k := len(l) - 40
					l = append(l[:k:k], editLexemes(c.R, l[k:], 1+c.R.IntN(2))...)
				} else {
					l = editLexemes(c.R, l, 1+c.R.IntN(3))
				}
				c.Input(lexText(l))
				c.Feature("big: " + g.String())
				bothRead(c, l)
			}},
			{Name: "clause-pairs", Quick: 40000, Thorough: 1500000, Run: func(c *Case) {
				// clauses of one text in another
				a, b := pick(c.R, texts), pick(c.R, texts)
				i, j := c.R.IntN(len(a)+1), c.R.IntN(len(b))
				l := spliced(a, i, min(len(a), i+c.R.IntN(3)), b[j:min(len(b), j+1+c.R.IntN(8))]...)
				c.Input(lexText(l))
				bothRead(c, l)
			}},
		},
	})
}
