package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
)

// C02: where errors point. A token no statement can contain is put into a
// valid text, or the text is cut off, so that the place of the error is known.

// no production of CREATE TABLE contains any of these
var badTokens = []string{"!", "@", "?", "%", "]", "[", "{", "}", "|", "&", "~", "^", ":", "<", ">", "\\", "$", "*", "/", ".", "+", "\x00", "\x01", "\x7f", "\xff", "é", "日", "😀", "\u00a0", "\u2028", "@@x", "!= 1"}

// the place of a byte offset, by the convention of the package: lines count
// from 1, columns from 1 on the first line and from 0 below it.
func place(text string, at int) (line, col int) {
	line = 1 + strings.Count(text[:at], "\n")
	b := strings.LastIndexByte(text[:at], '\n') + 1
	col = 0
	for i := b; i < at; {
		_, w := utf8.DecodeRuneInString(text[i:])
		i += w
		col++
	}
	if line == 1 {
		col++
	}
	return
}

// excerptOK says whether e is what may be quoted for an error at offset at:
// the text of the line in front of it, or its last 40 bytes.
func excerptOK(text string, at int, e string) bool {
	b := strings.LastIndexByte(text[:at], '\n') + 1
	want := text[b:at]
	if len(want) > 40 {
		want = want[len(want)-40:]
	}
	if e == want {
		return true
	}
	// pinned peculiarities: a line break at the very start or at the very end
	// of the input does not begin a new excerpt
	nl := b - 1
	if nl == 0 || nl >= 0 && nl == len(text)-1 {
		b2 := 0
		if at-b2 > 40 {
			b2 = at - 40
		}
		return e == text[b2:at]
	}
	return false
}

func excerptOf(msg string) (string, bool) {
	i := strings.LastIndex(msg, "\" <---- AROUND HERE")
	if i < 0 {
		return "", false
	}
	j := strings.Index(msg, "\n    \"")
	if j < 0 || j+6 > i {
		return "", false
	}
	return msg[j+6 : i], true
}

// checkError compares an error with the place it has to name.
func checkError(c *Case, text string, at int, wantEOF bool, file string) bool {
	var err error
	if file == "" {
		_, err = newParser(text).ParseString(text)
	} else {
		_, err = newParser(text).ParseFile(file)
	}
	line, col := place(text, at)
	where := fmt.Sprintf("offset %d, line %d column %d\n--- input\n%q\n%s", at, line, col, text, text)
	if err == nil {
		c.Fail("accepted", "accepted, although there is an error at %s", where)
		return false
	}
	pe, ok := err.(schemalex.ParseError)
	if !ok {
		c.Fail("type", "%T is no ParseError: %v\nerror at %s", err, err, where)
		return false
	}
	c.Count("errors located")
	if line > 1 {
		c.Count("errors below the first line")
	}
	if pe.Line() != line || pe.Col() != col {
		c.Fail("position", "reported at line %d column %d (%s)\nerror at %s", pe.Line(), pe.Col(), pe.Message(), where)
		return false
	}
	if pe.EOF() != wantEOF {
		c.Fail("eof", "EOF is %v (%s)\nerror at %s", pe.EOF(), pe.Message(), where)
		return false
	}
	e, ok := excerptOf(err.Error())
	if !ok || !excerptOK(text, at, e) {
		c.Fail("excerpt", "the excerpt is %q\nerror at %s", e, where)
		return false
	}
	if pe.File() != file {
		c.Fail("file", "the file is %q instead of %q\nerror at %s", pe.File(), file, where)
		return false
	}
	msg := err.Error()
	if !strings.Contains(msg, fmt.Sprintf(" at line %d column %d", line, col)) || wantEOF != strings.Contains(msg, fmt.Sprintf("column %d (at EOF)\n", col)) || !strings.Contains(msg, pe.Message()) || pe.Message() == "" {
		c.Fail("message", "the message is %q\nerror at %s", msg, where)
		return false
	}
	if file != "" && !strings.Contains(msg, " in file "+file+" at line ") {
		c.Fail("message", "the message does not name the file %q: %q", file, msg)
		return false
	}
	if chance(c.R, 2) {
		return checkThrough(c, text, pe, where)
	}
	return true
}

// checkThrough looks for the place in the errors of what parses on behalf of the user.
func checkThrough(c *Case, text string, want schemalex.ParseError, where string) bool {
	var w bytes.Buffer
	good := "CREATE TABLE good (x INT);"
	f, g := c.file("through.sql", text), c.file("good.sql", good)
	rd := func(s string) schemalex.SchemaSource { return schemalex.NewReaderSource(strings.NewReader(s)) }
	ways := []struct {
		name string
		f    func() error
	}{
		{"diff.Strings, from", func() error { return diff.Strings(&w, text, good) }},
		{"diff.Strings, to", func() error { return diff.Strings(&w, good, text) }},
		{"diff.Strings, both", func() error { return diff.Strings(&w, text, text, diff.WithTransaction(true)) }},
		{"diff.Files, from", func() error { return diff.Files(&w, f, g) }},
		{"diff.Files, to", func() error { return diff.Files(&w, g, f) }},
		{"diff.Sources, from", func() error { return diff.Sources(&w, rd(text), rd(good)) }},
		{"diff.Sources, to", func() error { return diff.Sources(&w, rd(good), schemalex.NewLocalFileSource(f)) }},
		{"lint", func() error { return lint.New().Run(context.Background(), rd(text), &w) }},
		{"lint, file", func() error {
			return lint.New().Run(context.Background(), schemalex.NewLocalFileSource(f), &w, lint.WithIndent(" ", 2))
		}},
	}
	for _, way := range ways {
		err := way.f()
		if err == nil {
			c.Fail("accepted", "%s: accepted, although there is an error at %s", way.name, where)
			return false
		}
		var pe schemalex.ParseError
		for e := err; e != nil; {
			if x, ok := e.(schemalex.ParseError); ok {
				pe = x
				break
			}
			x, ok := e.(interface{ Cause() error })
			if !ok {
				break
			}
			e = x.Cause()
		}
		if pe == nil {
			c.Fail("cause", "%s: no ParseError is the cause of %T %v\nerror at %s", way.name, err, err, where)
			return false
		}
		if pe.Line() != want.Line() || pe.Col() != want.Col() || pe.EOF() != want.EOF() || pe.Message() != want.Message() {
			c.Fail("cause", "%s: the error is reported at line %d column %d (%s)\nerror at %s", way.name, pe.Line(), pe.Col(), pe.Message(), where)
			return false
		}
		if e, ok := excerptOf(pe.Error()); !ok || !strings.HasSuffix(err.Error(), pe.Error()) {
			c.Fail("message", "%s: the message does not end with the excerpt %q: %q\nerror at %s", way.name, e, err.Error(), where)
			return false
		}
	}
	c.Count("errors located through diff and lint")
	return true
}

func (c *Case) file(name, text string) string {
	f := filepath.Join(c.W.Scratch, name)
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		c.Error("%v", err)
	}
	return f
}

// badAt puts a bad token in front of lexeme k, or in its place.
func badAt(r *rand.Rand, text string, lex []Placed, k int, replace bool) (string, int) {
	bad := pick(r, badTokens)
	start, end := len(text), len(text)
	if k < len(lex) {
		start, end = lex[k].Start, lex[k].Start
		if replace {
			end = lex[k].End
		}
	}
	pre, post := " ", " "
	if k < len(lex) && lex[k].Glue {
		// only a character that can not continue the lexeme in front
		pre, bad = "", pick(r, []string{"!", "?", "%", "]", "[", "{", "}", "|", "&", "~", "^", ":", "<", ">", "\\", "\x00", "\x01"})
	}
	return text[:start] + pre + bad + post + text[end:], start + len(pre)
}

func spread(r *rand.Rand) *Style {
	st := wildStyle(r)
	if chance(r, 50) {
		st.NewlineHeavy = true
	}
	if chance(r, 30) {
		st = plainStyle()
	}
	return st
}

func init() {
	var sinkTextLex *Rendering
	sinkTextLex = render(sinkSchema(), plainStyle())
	register(&Check{
		ID: "C02", Level: "exploration",
		Rule: "a case is a valid text with one token that no statement can contain, or cut off between two lexemes; distinct by text; non-trivial because line, column, EOF flag, excerpt and file of the error are all compared with the known place",
		Assumptions: []string{
			"a tab counts as one column; columns are counted from 1 on the first line and from 0 on all others, which the existing tests pin",
			"an excerpt may reach back over a line break that is the very first or very last byte of the input",
			"what is called bad is a token that occurs in no production (lone special characters), so that it is the first token at which the text can not be continued",
			"a literal or comment without an end is reported where it starts, without the EOF flag",
		},
		Phases: []Phase{
			{Name: "sink-every-gap", Quick: len(sinkTextLex.Lex) + 1, Thorough: len(sinkTextLex.Lex) + 1, Run: func(c *Case) {
				for _, replace := range []bool{false, true} {
					for n := 0; n < 6; n++ {
						text, at := badAt(c.R, sinkTextLex.Text, sinkTextLex.Lex, c.Index, replace)
						c.Input(text)
						c.Count("bad tokens inserted")
						if !checkError(c, text, at, false, "") {
							return
						}
					}
				}
			}},
			{Name: "random-gap", Quick: 60000, Thorough: 2500000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Hostile: true, Like: true})
				rd := render(s, spread(c.R))
				text, at := badAt(c.R, rd.Text, rd.Lex, c.R.IntN(len(rd.Lex)+1), chance(c.R, 40))
				c.Input(text)
				c.Sample(text)
				c.Count("bad tokens inserted")
				if !checkError(c, text, at, false, "") {
					return
				}
				if c.Index%10 == 0 {
					name := pick(c.R, []string{"schema.sql", "odd name.sql", "日本.sql", "at line 3", "%s.sql"})
					checkError(c, text, at, false, c.file(name, text))
				}
			}},
			{Name: "far", Quick: 3 * len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				// an error behind much text, on a line that is far down or long
				g := bigGrid[c.Index%len(bigGrid)]
				var text, pre string
				var at int
				switch c.Index / len(bigGrid) % 3 {
				case 0:
					rd := render(bigSchema(c.R, g), spread(c.R))
					k := c.R.IntN(len(rd.Lex) + 1)
					if chance(c.R, 50) {
						k = len(rd.Lex) - c.R.IntN(min(len(rd.Lex), 30))
					}
					text, at = badAt(c.R, rd.Text, rd.Lex, k, chance(c.R, 40))
				case 1:
					n := g.N * pick(c.R, []int{1, 1, 2, 70})
					if n > 150000 {
						n = g.N
					}
					pre = strings.Repeat(pick(c.R, []string{"\n", "\r\n", " ", ";", "-- x\n", "# x\n", "/* x */", "/*\n*/", ";\n", "\t", "/* 日本 */ ", "SET x = 'a\nb';"}), n)
				case 2:
					pre = pick(c.R, []string{"/* ", "SET x = '", "-- ", "SET `", "SET \""})
					w := strings.Repeat(pick(c.R, []string{"x", "é", "\n", "日", "a\nb", "''", "\t"}), g.N)
					if pre == "-- " {
						w = strings.ReplaceAll(w, "\n", "n")
					}
					pre += w + map[string]string{"/* ": " */", "SET x = '": "';", "-- ": "\n", "SET `": "`;", "SET \"": "\";"}[pre]
					pre += strings.Repeat(pick(c.R, []string{"", "\n", " ", "/* c */"}), c.R.IntN(4))
				}
				if pre != "" {
					rd := render(&Schema{Tables: []*Table{{Name: "t", Cols: threeCols()}}}, spread(c.R))
					t, a := badAt(c.R, rd.Text, rd.Lex, c.R.IntN(len(rd.Lex)+1), chance(c.R, 40))
					text, at = pre+t, len(pre)+a
				}
				c.Input(text)
				c.Feature("far: " + g.String())
				c.Count("bad tokens inserted")
				c.Max("bytes before the error", at)
				checkError(c, text, at, false, "")
			}},
			{Name: "cut", Quick: 40000, Thorough: 1500000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Hostile: true, Like: true})
				st := spread(c.R)
				rd := render(s, st)
				k := 1 + c.R.IntN(len(rd.Lex))
				if k == len(rd.Lex) {
					k--
				}
				if k < 1 || complete(rd, s, k) {
					c.Count("cuts that leave a valid text")
					return
				}
				text := rd.Text[:rd.Lex[k-1].End]
				n := c.R.IntN(4)
				if rd.Lex[k].Glue {
					n = 0 // NOW takes no white space in front of (
				}
				switch n {
				case 0:
				case 1:
					text = rd.Text[:rd.Lex[k].Start]
				case 2:
					text += pick(c.R, []string{"\n", " ", "\n\n", " \n\t ", "\r\n", "\n "})
				default:
					text += " " + pick(c.R, []string{"/* c */", "-- c\n", "# c", "-- c", "/* a\n b */ ", "-- x\n-- y\n  ", "/* 日本 */"})
				}
				c.Input(text)
				c.Sample(text)
				c.Count("texts cut off")
				file := ""
				if c.Index%10 == 0 {
					file = c.file("cut.sql", text)
				}
				checkError(c, text, len(text), true, file)
			}},
			{Name: "sink-cut", Quick: len(sinkTextLex.Lex), Thorough: len(sinkTextLex.Lex), Run: func(c *Case) {
				k := c.Index
				if k < 1 || complete(sinkTextLex, sinkSchema(), k) {
					return
				}
				for _, tail := range []string{"", "\n", " ", "\n  ", " /* c */", "\n# c", "\n-- c\n"} {
					if sinkTextLex.Lex[k].Glue && tail != "" {
						continue
					}
					text := sinkTextLex.Text[:sinkTextLex.Lex[k-1].End] + tail
					c.Input(text)
					c.Count("texts cut off")
					if !checkError(c, text, len(text), true, "") {
						return
					}
				}
			}},
			{Name: "open-literals", Quick: 15000, Thorough: 500000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 3, Idx: 2, Hostile: true, Like: true})
				rd := render(s, spread(c.R))
				k := c.R.IntN(len(rd.Lex))
				at := rd.Lex[k].Start
				if rd.Lex[k].Glue {
					return
				}
				pre := rd.Text[:at] + " "
				tail := pick(c.R, []string{"'", `"`, "`", "/*", "'x", "`x\n", "/* x\n\n", "'日本", `"\"`, "'it''s", "/*/"})
				text := pre + tail
				c.Input(text)
				c.Count("literals left open")
				checkError(c, text, len(pre), false, "")
			}},
		},
	})
}

// complete says whether the first k lexemes make a valid text.
func complete(rd *Rendering, s *Schema, k int) bool {
	if k >= len(rd.Lex) {
		return true
	}
	at := 0
	for i, b := range rd.StmtAt {
		if b <= k {
			at = i
		}
	}
	start := rd.StmtAt[at]
	if k == start {
		return true
	}
	if rd.Lex[k-1].Text == ";" && rd.Lex[k-1].Kind == lkPunct {
		return true
	}
	t := s.Tables[at]
	if t.Like != nil {
		// CREATE TABLE a LIKE b
		return rd.Lex[k-2].Kind == lkWord && strings.EqualFold(rd.Lex[k-2].Text, "LIKE") && k-1-start >= 4
	}
	// behind the closing parenthesis, between options
	depth := 0
	for i := start; i < k; i++ {
		if rd.Lex[i].Kind == lkPunct {
			switch rd.Lex[i].Text {
			case "(":
				depth++
			case ")":
				depth--
				if depth == 0 && (i+1 >= len(rd.Lex) || !rd.Lex[i+1].Glue) && i == closing(rd, start) {
					return optionsComplete(rd, i+1, k)
				}
			}
		}
	}
	return false
}

// closing finds the parenthesis that ends the field list.
func closing(rd *Rendering, start int) int {
	depth := 0
	for i := start; i < len(rd.Lex); i++ {
		if rd.Lex[i].Kind != lkPunct {
			continue
		}
		switch rd.Lex[i].Text {
		case "(":
			depth++
		case ")":
			if depth--; depth == 0 {
				return i
			}
		}
	}
	return -1
}

// optionsComplete reads table options from one lexeme to another.
func optionsComplete(rd *Rendering, from, to int) bool {
	words := [][]string{{"DEFAULT", "CHARACTER", "SET"}, {"DEFAULT", "CHARSET"}, {"CHARACTER", "SET"}, {"DEFAULT", "COLLATE"}, {"COLLATE"}, {"DATA", "DIRECTORY"}, {"INDEX", "DIRECTORY"}}
	for i := from; i < to; {
		n := 1
		for _, w := range words {
			ok := i+len(w) <= len(rd.Lex)
			for k := range w {
				ok = ok && strings.EqualFold(rd.Lex[i+k].Text, w[k])
			}
			if ok {
				n = len(w)
				break
			}
		}
		i += n
		if i < len(rd.Lex) && rd.Lex[i].Text == "=" && rd.Lex[i].Kind == lkPunct {
			i++
		}
		i++ // the value
		if i > to {
			return false
		}
		if i == to {
			return true
		}
		if rd.Lex[i].Text == "," && rd.Lex[i].Kind == lkPunct {
			i++
			if i == to {
				return false // a comma promises another option
			}
		}
	}
	return true
}
