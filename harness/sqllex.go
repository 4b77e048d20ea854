package main

// An independent reader for the SQL the tools print: a lexer that follows
// MySQL's rules for literals and identifiers, and a parser for the statements
// a migration consists of. It knows nothing about the repository's parser.

import (
	"fmt"
	"strings"
)

type tok struct {
	kind string // word, number, ident, string, punct, end
	text string // raw value for ident and string
	pos  int
	quot byte
}

func sqlLex(src string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '`':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(src) {
					return nil, fmt.Errorf("unterminated identifier at %d", i)
				}
				if src[j] == '`' {
					if j+1 < len(src) && src[j+1] == '`' {
						b.WriteByte('`')
						j += 2
						continue
					}
					break
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{kind: "ident", text: b.String(), pos: i})
			i = j + 1
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(src) {
					return nil, fmt.Errorf("unterminated literal at %d", i)
				}
				if src[j] == '\\' {
					if j+1 >= len(src) {
						return nil, fmt.Errorf("unterminated literal at %d", i)
					}
					if n := src[j+1]; n == '\'' || n == '"' {
						b.WriteByte(n)
					} else {
						b.WriteByte('\\')
						b.WriteByte(n)
					}
					j += 2
					continue
				}
				if src[j] == c {
					if j+1 < len(src) && src[j+1] == c {
						b.WriteByte(c)
						j += 2
						continue
					}
					break
				}
				b.WriteByte(src[j])
				j++
			}
			out = append(out, tok{kind: "string", text: b.String(), pos: i, quot: c})
			i = j + 1
		case c >= '0' && c <= '9' || (c == '-' || c == '+' || c == '.') && i+1 < len(src) && (src[i+1] >= '0' && src[i+1] <= '9' || c != '.' && src[i+1] == '.'):
			j := i + 1
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			if j < len(src) && (src[j] == 'e' || src[j] == 'E') {
				j++
				if j < len(src) && (src[j] == '-' || src[j] == '+') {
					j++
				}
				for j < len(src) && src[j] >= '0' && src[j] <= '9' {
					j++
				}
			}
			out = append(out, tok{kind: "number", text: src[i:j], pos: i})
			i = j
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i + 1
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] == '_' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			out = append(out, tok{kind: "word", text: src[i:j], pos: i})
			i = j
		case strings.IndexByte("(),;=", c) >= 0:
			out = append(out, tok{kind: "punct", text: string(c), pos: i})
			i++
		default:
			return nil, fmt.Errorf("unexpected byte %q at %d", c, i)
		}
	}
	out = append(out, tok{kind: "end", pos: len(src)})
	return out, nil
}

// Stmt is one statement as read back from the tools' output.
type Stmt struct {
	Op     string // CREATE, DROP, ALTER, BEGIN, COMMIT, SET
	Table  string
	Alter  string // DROP COLUMN, ADD COLUMN, CHANGE COLUMN, DROP PRIMARY KEY, DROP FOREIGN KEY, DROP INDEX, ADD INDEX
	Name   string // column, index or constraint the ALTER names
	After  *string
	First  bool
	Col    *Col
	Idx    *Index
	Create *Table
	Text   string
	Start  int
	End    int
	Semi   bool
}

type sqlParser struct {
	src string
	t   []tok
	i   int
}

type sqlError struct{ msg string }

func (p *sqlParser) fail(format string, args ...interface{}) {
	t := p.t[p.i]
	end := t.pos + 60
	if end > len(p.src) {
		end = len(p.src)
	}
	panic(sqlError{fmt.Sprintf(format, args...) + fmt.Sprintf(" at byte %d: %q", t.pos, p.src[t.pos:end])})
}

func (p *sqlParser) isWord(w string) bool {
	return p.t[p.i].kind == "word" && strings.EqualFold(p.t[p.i].text, w)
}

func (p *sqlParser) words(ws string) bool {
	f := strings.Fields(ws)
	for k, w := range f {
		if p.i+k >= len(p.t) || p.t[p.i+k].kind != "word" || !strings.EqualFold(p.t[p.i+k].text, w) {
			return false
		}
	}
	p.i += len(f)
	return true
}

func (p *sqlParser) need(ws string) {
	if !p.words(ws) {
		p.fail("expected %s", ws)
	}
}

func (p *sqlParser) punct(s string) bool {
	if p.t[p.i].kind == "punct" && p.t[p.i].text == s {
		p.i++
		return true
	}
	return false
}

func (p *sqlParser) needPunct(s string) {
	if !p.punct(s) {
		p.fail("expected %q", s)
	}
}

// ident reads an identifier. Names that need it must be in backquotes.
func (p *sqlParser) ident() string {
	t := p.t[p.i]
	if t.kind == "ident" {
		p.i++
		return t.text
	}
	if t.kind == "word" && plainIdent(t.text) {
		p.i++
		return t.text
	}
	p.fail("expected an identifier")
	return ""
}

func (p *sqlParser) str() string {
	t := p.t[p.i]
	if t.kind != "string" {
		p.fail("expected a string")
	}
	p.i++
	return t.text
}

func (p *sqlParser) number() string {
	t := p.t[p.i]
	if t.kind != "number" {
		p.fail("expected a number")
	}
	p.i++
	return t.text
}

func (p *sqlParser) idxCols() []IdxCol {
	p.needPunct("(")
	var out []IdxCol
	for {
		c := IdxCol{Name: p.ident()}
		if p.punct("(") {
			c.Len = sp(p.number())
			p.needPunct(")")
		}
		if p.words("ASC") {
			c.Dir = "ASC"
		} else if p.words("DESC") {
			c.Dir = "DESC"
		}
		out = append(out, c)
		if !p.punct(",") {
			break
		}
	}
	p.needPunct(")")
	return out
}

func (p *sqlParser) atIndex() bool {
	t := p.t[p.i]
	if t.kind != "word" {
		return false
	}
	switch strings.ToUpper(t.text) {
	case "CONSTRAINT", "PRIMARY", "INDEX", "KEY", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN":
		return true
	}
	return false
}

func (p *sqlParser) action() string {
	for _, a := range []string{"RESTRICT", "CASCADE", "SET NULL", "NO ACTION"} {
		if p.words(a) {
			return a
		}
	}
	p.fail("expected a reference action")
	return ""
}

func (p *sqlParser) using(x *Index) {
	if p.words("USING") {
		if x.Using != "" {
			p.fail("two index types")
		}
		switch {
		case p.words("BTREE"):
			x.Using = "BTREE"
		case p.words("HASH"):
			x.Using = "HASH"
		default:
			p.fail("expected BTREE or HASH")
		}
	}
}

func (p *sqlParser) index() *Index {
	x := &Index{}
	if p.words("CONSTRAINT") {
		if t := p.t[p.i]; t.kind == "ident" || t.kind == "word" && plainIdent(t.text) {
			x.Symbol = sp(p.ident())
		}
	}
	switch {
	case p.words("PRIMARY KEY"):
		x.Kind = "PRIMARY"
	case p.words("UNIQUE"):
		x.Kind = "UNIQUE"
		_ = p.words("INDEX") || p.words("KEY")
	case p.words("FOREIGN KEY"):
		x.Kind = "FOREIGN"
	case p.words("FULLTEXT"):
		x.Kind = "FULLTEXT"
		_ = p.words("INDEX") || p.words("KEY")
	case p.words("SPATIAL"):
		x.Kind = "SPATIAL"
		_ = p.words("INDEX") || p.words("KEY")
	case p.words("INDEX"), p.words("KEY"):
		x.Kind = "NORMAL"
	default:
		p.fail("expected an index definition")
	}
	if x.Symbol != nil && x.Kind != "PRIMARY" && x.Kind != "UNIQUE" && x.Kind != "FOREIGN" {
		p.fail("CONSTRAINT in front of %s", x.Kind)
	}
	if t := p.t[p.i]; t.kind == "ident" || t.kind == "word" && plainIdent(t.text) {
		x.Name = sp(p.ident())
	}
	p.using(x)
	x.Cols = p.idxCols()
	p.using(x)
	if p.words("WITH PARSER") {
		if x.Kind != "FULLTEXT" {
			p.fail("WITH PARSER on a %s index", x.Kind)
		}
		x.Parser = sp(p.ident())
	}
	if p.words("REFERENCES") {
		if x.Kind != "FOREIGN" {
			p.fail("REFERENCES on a %s index", x.Kind)
		}
		r := &Ref{Table: p.ident(), Cols: p.idxCols()}
		if p.words("MATCH") {
			for _, m := range []string{"FULL", "PARTIAL", "SIMPLE"} {
				if p.words(m) {
					r.Match = m
				}
			}
			if r.Match == "" {
				p.fail("expected FULL, PARTIAL or SIMPLE")
			}
		}
		for {
			if p.words("ON DELETE") {
				r.OnDelete = p.action()
			} else if p.words("ON UPDATE") {
				r.OnUpdate = p.action()
			} else {
				break
			}
		}
		x.Ref = r
	}
	return x
}

func (p *sqlParser) nameValue() string {
	t := p.t[p.i]
	switch {
	case t.kind == "ident", t.kind == "string":
		p.i++
		return t.text
	case t.kind == "word":
		p.i++
		return t.text
	}
	p.fail("expected a name")
	return ""
}

// colDef reads a column definition; it stops in front of anything that can
// not be part of one.
func (p *sqlParser) colDef() *Col {
	c := &Col{Name: p.ident()}
	t := p.t[p.i]
	if t.kind != "word" || typeByName[strings.ToUpper(t.text)] == nil {
		p.fail("expected a column type")
	}
	p.i++
	c.Type = strings.ToUpper(t.text)
	ti := typeByName[c.Type]
	if ti.List {
		p.needPunct("(")
		for {
			c.Vals = append(c.Vals, p.str())
			if !p.punct(",") {
				break
			}
		}
		p.needPunct(")")
	} else if p.punct("(") {
		c.Len = sp(p.number())
		if p.punct(",") {
			c.Dec = sp(p.number())
		}
		p.needPunct(")")
		if !ti.Size && !ti.Dec2 && !ti.DecOpt && c.Type != "TINYINT" || ti.Size && c.Dec != nil || ti.Dec2 && c.Dec == nil {
			p.fail("%s does not take that size", c.Type)
		}
	}
	seen := map[string]bool{}
	once := func(k string) {
		if seen[k] {
			p.fail("%s twice", k)
		}
		seen[k] = true
	}
	for {
		switch {
		case p.words("UNSIGNED"):
			once("UNSIGNED")
			c.Unsigned = true
		case p.words("ZEROFILL"):
			once("ZEROFILL")
			c.Zerofill = true
		case p.words("BINARY"):
			once("BINARY")
			c.Binary = true
		case p.words("CHARACTER SET"):
			once("CHARACTER SET")
			c.Charset = sp(p.nameValue())
		case p.words("COLLATE"):
			once("COLLATE")
			c.Collate = sp(p.nameValue())
		case p.words("ON UPDATE"):
			once("ON UPDATE")
			if p.t[p.i].kind != "word" {
				p.fail("expected a function after ON UPDATE")
			}
			c.OnUpdate = sp(strings.ToUpper(p.t[p.i].text))
			p.i++
		case p.words("NOT NULL"):
			once("NULL")
			c.Null = nullNot
		case p.words("NULL"):
			once("NULL")
			c.Null = nullNull
		case p.words("DEFAULT"):
			once("DEFAULT")
			t := p.t[p.i]
			p.i++
			switch {
			case t.kind == "string":
				c.Def = &Default{defString, t.text}
			case t.kind == "number":
				c.Def = &Default{defNumber, strings.ToUpper(t.text)}
			case t.kind == "word" && strings.EqualFold(t.text, "NOW"):
				p.needPunct("(")
				p.needPunct(")")
				c.Def = &Default{defKeyword, "NOW()"}
			case t.kind == "word" && (strings.EqualFold(t.text, "NULL") || strings.EqualFold(t.text, "TRUE") || strings.EqualFold(t.text, "FALSE") || strings.EqualFold(t.text, "CURRENT_TIMESTAMP")):
				c.Def = &Default{defKeyword, strings.ToUpper(t.text)}
			default:
				p.i--
				p.fail("expected a default value")
			}
		case p.words("AUTO_INCREMENT"):
			once("AUTO_INCREMENT")
			c.AutoInc = true
		case p.words("UNIQUE"):
			once("UNIQUE")
			p.words("KEY")
			c.Unique = true
		case p.words("PRIMARY KEY"):
			once("PRIMARY")
			c.Primary = true
		case p.words("KEY"):
			once("KEY")
			c.Key = true
		case p.words("COMMENT"):
			once("COMMENT")
			c.Comment = sp(p.str())
		default:
			return c
		}
	}
}

var optKeys = []string{"ENGINE", "AUTO_INCREMENT", "AVG_ROW_LENGTH", "DEFAULT CHARACTER SET", "DEFAULT COLLATE", "CHECKSUM", "COMMENT", "CONNECTION", "DATA DIRECTORY", "DELAY_KEY_WRITE", "INDEX DIRECTORY",
	"INSERT_METHOD", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "PACK_KEYS", "PASSWORD", "ROW_FORMAT", "STATS_AUTO_RECALC", "STATS_PERSISTENT", "STATS_SAMPLE_PAGES"}

func (p *sqlParser) option() (Opt, bool) {
	for _, k := range optKeys {
		if !p.words(k) {
			continue
		}
		p.punct("=")
		t := p.t[p.i]
		p.i++
		switch {
		case t.kind == "string":
			return Opt{Key: k, Val: t.text, Quoted: true}, true
		case t.kind == "ident":
			return Opt{Key: k, Val: t.text}, true
		case t.kind == "number":
			return Opt{Key: k, Val: t.text}, true
		case t.kind == "word": // which of them would need quotes is up to the server's version
			return Opt{Key: k, Val: t.text}, true
		}
		p.i--
		p.fail("bad value for %s", k)
	}
	return Opt{}, false
}

func (p *sqlParser) create() *Table {
	t := &Table{}
	if p.words("TEMPORARY") {
		t.Temp = true
	}
	p.need("TABLE")
	if p.words("IF NOT EXISTS") {
		t.IfNot = true
	}
	t.Name = p.ident()
	if p.words("LIKE") {
		t.Like = sp(p.ident())
		return t
	}
	p.needPunct("(")
	for {
		if p.atIndex() {
			t.Decl = append(t.Decl, -1-len(t.Idx))
			t.Idx = append(t.Idx, p.index())
		} else {
			t.Decl = append(t.Decl, len(t.Cols))
			t.Cols = append(t.Cols, p.colDef())
		}
		if !p.punct(",") {
			break
		}
	}
	p.needPunct(")")
	for {
		o, ok := p.option()
		if !ok {
			break
		}
		t.Opts = append(t.Opts, o)
		p.punct(",")
	}
	return t
}

func (p *sqlParser) alter(s *Stmt) {
	p.need("ALTER TABLE")
	s.Op = "ALTER"
	s.Table = p.ident()
	switch {
	case p.words("DROP COLUMN"):
		s.Alter = "DROP COLUMN"
		s.Name = p.ident()
	case p.words("ADD COLUMN"):
		s.Alter = "ADD COLUMN"
		s.Col = p.colDef()
		s.Name = s.Col.Name
		if p.words("FIRST") {
			s.First = true
		} else if p.words("AFTER") {
			s.After = sp(p.ident())
		}
	case p.words("CHANGE COLUMN"):
		s.Alter = "CHANGE COLUMN"
		s.Name = p.ident()
		s.Col = p.colDef()
		if p.words("FIRST") {
			s.First = true
		} else if p.words("AFTER") {
			s.After = sp(p.ident())
		}
	case p.words("DROP PRIMARY KEY"):
		s.Alter = "DROP PRIMARY KEY"
	case p.words("DROP FOREIGN KEY"):
		s.Alter = "DROP FOREIGN KEY"
		s.Name = p.ident()
	case p.words("DROP INDEX"):
		s.Alter = "DROP INDEX"
		s.Name = p.ident()
	case p.words("ADD"):
		s.Alter = "ADD INDEX"
		s.Idx = p.index()
		if s.Idx.Name != nil {
			s.Name = *s.Idx.Name
		} else if s.Idx.Symbol != nil {
			s.Name = *s.Idx.Symbol
		}
	default:
		p.fail("unknown ALTER")
	}
}

// parseSQL reads a whole script.
func parseSQL(src string) (stmts []*Stmt, err error) {
	toks, err := sqlLex(src)
	if err != nil {
		return nil, err
	}
	p := &sqlParser{src: src, t: toks}
	defer func() {
		if e := recover(); e != nil {
			se, ok := e.(sqlError)
			if !ok {
				panic(e)
			}
			err = fmt.Errorf("%s", se.msg)
		}
	}()
	for p.t[p.i].kind != "end" {
		s := &Stmt{Start: p.t[p.i].pos}
		switch {
		case p.isWord("CREATE"):
			p.i++
			s.Op = "CREATE"
			s.Create = p.create()
			s.Table = s.Create.Name
		case p.words("DROP TABLE"):
			s.Op = "DROP"
			s.Table = p.ident()
		case p.isWord("ALTER"):
			p.alter(s)
		case p.words("BEGIN"):
			s.Op = "BEGIN"
		case p.words("COMMIT"):
			s.Op = "COMMIT"
		case p.words("SET FOREIGN_KEY_CHECKS"):
			p.needPunct("=")
			s.Op = "SET FOREIGN_KEY_CHECKS " + p.number()
		default:
			p.fail("unknown statement")
		}
		s.End = p.t[p.i].pos
		if p.punct(";") {
			s.Semi = true
			s.End = p.t[p.i-1].pos + 1
		} else if p.t[p.i].kind != "end" {
			p.fail("expected a semicolon")
		}
		s.Text = src[s.Start:s.End]
		stmts = append(stmts, s)
	}
	return stmts, nil
}
