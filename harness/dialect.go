package main

// An independent reader of the dialect: it takes the lexemes of a text and
// says what they declare, that they declare nothing (no statement of the
// grammar has them), or that it does not judge them.

import (
	"fmt"
	"strings"
)

type verdict int

const (
	vValid verdict = iota
	vRefused
	vEither // refused, or taken with this meaning: MySQL does, or the dialect is lenient
	vUnsure
)

type dialectReader struct {
	l      []Lex
	i      int
	unsure string
	either string
}

type refusedAt struct{ why string }
type unsureAt struct{ why string }

// words of MySQL that may be a name without quotes
var softWords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ACTION AUTO_INCREMENT AVG_ROW_LENGTH BIT BOOL BOOLEAN BTREE CHARSET CHECKSUM COMMENT COMPACT COMPRESSED CONNECTION DATA DATE DATETIME DELAY_KEY_WRITE DIRECTORY DISK DYNAMIC ENGINE ENUM FIRST FIXED FULL
		GEOMETRY HASH INSERT_METHOD JSON KEY_BLOCK_SIZE LAST MAX_ROWS MEMORY MIN_ROWS NO NOW PACK_KEYS PARSER PARTIAL PASSWORD REDUNDANT ROW_FORMAT SIMPLE STATS_AUTO_RECALC STATS_PERSISTENT STATS_SAMPLE_PAGES STORAGE TABLESPACE
		TEMPORARY TEXT TIME TIMESTAMP YEAR`) {
		m[w] = true
	}
	return m
}()

func (d *dialectReader) refuse(why string) { panic(refusedAt{why}) }
func (d *dialectReader) doubt(why string)  { panic(unsureAt{why}) }

// maybe: the dialect may refuse this.
func (d *dialectReader) maybe(why string) {
	if d.either == "" {
		d.either = why
	}
}

func (d *dialectReader) end() bool { return d.i >= len(d.l) }

func (d *dialectReader) peek() Lex {
	if d.end() {
		return Lex{Kind: -1}
	}
	return d.l[d.i]
}

// keyword gives the word at the place, if it is one of the dialect.
func (d *dialectReader) keyword() string {
	if t := d.peek(); t.Kind == lkWord {
		if w := strings.ToUpper(t.Text); reserved[w] {
			return w
		}
	}
	return ""
}

func (d *dialectReader) word(ws ...string) bool {
	save := d.i
	for _, w := range ws {
		if d.keyword() != w {
			d.i = save
			return false
		}
		d.i++
	}
	return true
}

func (d *dialectReader) must(ws ...string) {
	for _, w := range ws {
		if !d.word(w) {
			d.refuse("no " + w)
		}
	}
}

func (d *dialectReader) punct(s string) bool {
	if t := d.peek(); t.Kind == lkPunct && t.Text == s {
		d.i++
		return true
	}
	return false
}

func (d *dialectReader) mustPunct(s string) {
	if !d.punct(s) {
		d.refuse("no " + s)
	}
}

// name reads an identifier; ok is false when there is none.
func (d *dialectReader) name() (string, bool) {
	t := d.peek()
	switch {
	case t.Kind == lkIdent:
		d.i++
		return strings.ReplaceAll(t.Text[1:len(t.Text)-1], "``", "`"), true
	case t.Kind == lkWord && d.keyword() == "":
		d.i++
		return t.Text, true
	}
	return "", false
}

func (d *dialectReader) mustName() string {
	s, ok := d.name()
	if !ok {
		if softWords[d.keyword()] {
			d.doubt("a word of MySQL as a name")
		}
		d.refuse("no name")
	}
	return s
}

func (d *dialectReader) str() (string, bool) {
	t := d.peek()
	if t.Kind != lkString {
		return "", false
	}
	d.i++
	return rawOf(t.Text), true
}

// rawOf gives the raw string of a literal.
func rawOf(lit string) string {
	q, s := lit[0], lit[1:len(lit)-1]
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\' && i+1 < len(s):
			if s[i+1] != '\'' && s[i+1] != '"' {
				b.WriteByte('\\')
			}
			i++
			b.WriteByte(s[i])
		case s[i] == q:
			i++
			b.WriteByte(q)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (d *dialectReader) integer() string {
	t := d.peek()
	if t.Kind != lkNumber {
		d.refuse("no number")
	}
	if !isDigits(t.Text) {
		d.maybe("a number that is no integer")
	}
	d.i++
	return t.Text
}

func (d *dialectReader) eol() {
	if !d.end() && !d.punct(";") {
		d.refuse("more behind the statement")
	}
}

func (d *dialectReader) script() *Schema {
	s := &Schema{}
	for !d.end() {
		switch {
		case d.punct(";"):
		case d.keyword() == "DROP" || d.keyword() == "SET" || d.keyword() == "USE":
			for !d.end() && !d.punct(";") {
				d.i++
			}
		case d.word("CREATE"):
			switch {
			case d.word("DATABASE"):
				d.word("IF", "NOT", "EXISTS")
				d.mustName()
				if !d.end() && d.peek().Text != ";" {
					d.doubt("database options")
				}
				d.eol()
			case d.word("TEMPORARY", "TABLE"):
				s.Tables = append(s.Tables, d.table(true))
			case d.word("TABLE"):
				s.Tables = append(s.Tables, d.table(false))
			default:
				d.refuse("nothing to create")
			}
		default:
			d.refuse("no statement")
		}
	}
	return s
}

func (d *dialectReader) table(temp bool) *Table {
	t := &Table{Temp: temp}
	if d.word("TEMPORARY") {
		d.maybe("TABLE TEMPORARY")
		t.Temp = true
	}
	if d.word("IF", "NOT", "EXISTS") {
		t.IfNot = true
	}
	t.Name = d.mustName()
	if d.word("LIKE") {
		t.Like = sp(d.mustName())
		d.eol()
		return t
	}
	if d.word("IF", "NOT", "EXISTS") {
		t.IfNot = true
	}
	d.mustPunct("(")
	if d.word("LIKE") {
		d.maybe("(LIKE x)")
		t.Like = sp(d.mustName())
		d.mustPunct(")")
		d.eol()
		return t
	}
	for {
		d.field(t)
		if d.punct(")") {
			break
		}
		d.mustPunct(",")
	}
	d.options(t)
	d.eol()
	seen := map[string]bool{}
	for _, c := range t.Cols {
		if k := strings.ToLower(c.Name); seen[k] {
			d.unsure = "two columns of one name"
		} else {
			seen[k] = true
		}
	}
	return t
}

func (d *dialectReader) field(t *Table) {
	x := &Index{}
	if d.word("CONSTRAINT") {
		if s, ok := d.name(); ok {
			x.Symbol = sp(s)
		}
		switch k := d.keyword(); {
		case k == "PRIMARY" || k == "UNIQUE" || k == "FOREIGN":
		case k == "CHECK" || softWords[k]:
			d.doubt("CONSTRAINT " + k)
		default:
			d.refuse("no constraint")
		}
	}
	switch {
	case d.word("PRIMARY"):
		d.must("KEY")
		x.Kind = "PRIMARY"
	case d.word("UNIQUE"):
		x.Kind = "UNIQUE"
		_ = d.word("KEY") || d.word("INDEX")
	case d.word("INDEX"), d.word("KEY"):
		x.Kind = "NORMAL"
	case d.word("FULLTEXT"), d.word("SPATIAL"):
		x.Kind = strings.ToUpper(d.l[d.i-1].Text)
		_ = d.word("KEY") || d.word("INDEX")
	case d.word("FOREIGN"):
		d.must("KEY")
		x.Kind = "FOREIGN"
	case d.keyword() == "CHECK":
		d.doubt("CHECK")
	default:
		t.Cols = append(t.Cols, d.column())
		return
	}
	if s, ok := d.name(); ok {
		x.Name = sp(s)
	} else if softWords[d.keyword()] {
		d.doubt("a word of MySQL as a name")
	}
	using := func() {
		if !d.word("USING") {
			return
		}
		if x.Using != "" {
			d.maybe("USING twice")
		}
		switch {
		case d.word("BTREE"):
			x.Using = "BTREE"
		case d.word("HASH"):
			x.Using = "HASH"
		default:
			d.refuse("no index type")
		}
	}
	plain := x.Kind == "PRIMARY" || x.Kind == "UNIQUE" || x.Kind == "NORMAL"
	if plain {
		using()
	}
	x.Cols = d.idxCols()
	if plain {
		using()
	}
	if x.Kind == "FULLTEXT" && d.word("WITH") {
		d.must("PARSER")
		x.Parser = sp(d.mustName())
	}
	switch k := d.keyword(); {
	case k == "KEY_BLOCK_SIZE" || k == "COMMENT":
		d.doubt("index option " + k)
	case k == "WITH" && x.Kind == "FULLTEXT", k == "USING" && plain:
		d.doubt("an option twice")
	}
	if x.Kind == "FOREIGN" {
		if d.word("REFERENCES") {
			x.Ref = d.reference()
		} else {
			d.maybe("a foreign key to nowhere")
		}
	}
	t.Idx = append(t.Idx, x)
}

func (d *dialectReader) reference() *Ref {
	r := &Ref{Table: d.mustName()}
	if t := d.peek(); t.Text != "(" {
		d.doubt("a reference without columns")
	}
	r.Cols = d.idxCols()
	if d.word("MATCH") {
		switch {
		case d.word("FULL"), d.word("PARTIAL"), d.word("SIMPLE"):
			r.Match = strings.ToUpper(d.l[d.i-1].Text)
		default:
			d.refuse("MATCH what")
		}
	}
	action := func() string {
		switch {
		case d.word("RESTRICT"):
			return "RESTRICT"
		case d.word("CASCADE"):
			return "CASCADE"
		case d.word("SET", "NULL"):
			return "SET NULL"
		case d.word("SET", "DEFAULT"):
			d.refuse("an action that the model does not know")
		case d.word("NO", "ACTION"):
			return "NO ACTION"
		}
		d.refuse("no action")
		return ""
	}
	if d.word("ON", "DELETE") {
		r.OnDelete = action()
	}
	if d.word("ON", "UPDATE") {
		r.OnUpdate = action()
		if r.OnDelete == "" && d.word("ON", "DELETE") {
			d.maybe("ON UPDATE before ON DELETE")
			r.OnDelete = action()
		}
	}
	return r
}

func (d *dialectReader) idxCols() (l []IdxCol) {
	d.mustPunct("(")
	for {
		if d.peek().Text == "(" {
			d.refuse("an expression as an index, which the model does not know")
		}
		c := IdxCol{Name: d.mustName()}
		if d.punct("(") {
			c.Len = sp(d.integer())
			d.mustPunct(")")
		}
		if d.word("ASC") {
			c.Dir = "ASC"
		} else if d.word("DESC") {
			c.Dir = "DESC"
		}
		l = append(l, c)
		if d.punct(")") {
			return
		}
		d.mustPunct(",")
	}
}

func (d *dialectReader) column() *Col {
	c := &Col{Name: d.mustName()}
	ti := typeByName[d.keyword()]
	if ti == nil {
		if t := d.peek(); t.Kind == lkWord && !reserved[strings.ToUpper(t.Text)] {
			d.refuse("no type")
		}
		d.refuse("no type")
	}
	c.Type = ti.Name
	d.i++
	if ti.List {
		d.mustPunct("(")
		c.Vals = []string{}
		for {
			s, ok := d.str()
			if !ok {
				d.refuse("no value")
			}
			c.Vals = append(c.Vals, s)
			if d.punct(")") {
				break
			}
			d.mustPunct(",")
		}
	}
	// what has gone by: 1 size, 2 UNSIGNED, 3 ZEROFILL, 4 BINARY, 5 anything else
	at := 0
	nameLike := func() *string {
		if s, ok := d.str(); ok {
			return sp(s)
		}
		if d.word("BINARY") {
			return sp(d.l[d.i-1].Text)
		}
		return sp(d.mustName())
	}
	for {
		switch k := d.keyword(); {
		case d.punct("("):
			if at == 0 && c.Len == nil && (ti.Name == "YEAR" || ti.Name == "BLOB") {
				d.maybe("a size that MySQL takes")
			} else if at >= 1 || c.Len != nil || !ti.Size && !ti.Dec2 && !ti.DecOpt {
				d.refuse("a size out of place")
			}
			if c.Charset != nil || c.Collate != nil {
				d.maybe("a size behind CHARACTER SET")
			}
			c.Len = sp(d.integer())
			if ti.Dec2 && d.peek().Text == ")" {
				d.maybe("FLOAT(n)")
			} else if ti.Dec2 || ti.DecOpt && d.peek().Text == "," {
				d.mustPunct(",")
				c.Dec = sp(d.integer())
			}
			d.mustPunct(")")
			at = 1
		case k == "UNSIGNED" || k == "ZEROFILL":
			if ti.Name == "YEAR" && at < 5 {
				d.maybe("YEAR UNSIGNED")
			} else if at == 5 || !ti.Num {
				d.refuse(k + " out of place")
			}
			p := 2
			if k == "ZEROFILL" {
				p = 3
			}
			if at > p {
				d.maybe("ZEROFILL UNSIGNED")
			}
			d.i++
			c.Unsigned, c.Zerofill, at = c.Unsigned || p == 2, c.Zerofill || p == 3, max(at, p)
		case k == "BINARY":
			if ti.List && at < 5 {
				d.maybe("ENUM BINARY")
			} else if at == 5 || !ti.Char {
				d.refuse("BINARY out of place")
			}
			d.i++
			c.Binary, at = true, 4
		case k == "CHARACTER" || k == "CHARSET":
			if c.Charset != nil {
				d.maybe("CHARACTER SET twice")
			}
			if d.word("CHARSET") {
				d.maybe("CHARSET of a column")
			} else {
				d.must("CHARACTER", "SET")
			}
			c.Charset = nameLike()
		case k == "COLLATE":
			if c.Collate != nil {
				d.maybe("COLLATE twice")
			}
			d.i++
			c.Collate = nameLike()
		case k == "NOT":
			d.must("NOT", "NULL")
			c.Null, at = nullNot, 5
		case k == "NULL":
			d.i++
			c.Null, at = nullNull, 5
		case k == "ON":
			d.must("ON", "UPDATE")
			if d.word("CURRENT_TIMESTAMP") || d.word("NOW") {
				c.OnUpdate = sp(strings.ToUpper(d.l[d.i-1].Text))
			} else if s, ok := d.name(); ok {
				d.maybe("ON UPDATE x")
				c.OnUpdate = sp(strings.ToUpper(s))
			} else {
				d.refuse("ON UPDATE what")
			}
			if d.peek().Text == "(" {
				d.doubt("ON UPDATE NOW()")
			}
			at = 5
		case k == "DEFAULT":
			d.i++
			at = 5
			d.deflt(c)
		case k == "AUTO_INCREMENT":
			d.i++
			c.AutoInc, at = true, 5
		case k == "UNIQUE":
			d.i++
			d.word("KEY")
			c.Unique, at = true, 5
		case k == "PRIMARY":
			d.must("PRIMARY", "KEY")
			c.Primary, at = true, 5
		case k == "KEY":
			d.i++
			c.Key, at = true, 5
		case k == "COMMENT":
			d.i++
			s, ok := d.str()
			if !ok {
				d.refuse("no comment")
			}
			c.Comment, at = sp(s), 5
		case k == "REFERENCES" || k == "CHECK" || k == "CONSTRAINT" || k == "STORAGE":
			d.doubt("column " + k)
		default:
			if t := d.peek(); t.Kind == lkPunct && (t.Text == "," || t.Text == ")") {
				return c
			}
			d.refuse("no attribute")
		}
	}
}

func (d *dialectReader) deflt(c *Col) {
	if s, ok := d.str(); ok {
		c.Def = &Default{defString, s}
		if d.peek().Kind == lkString {
			d.doubt("strings in a row")
		}
		return
	}
	t := d.peek()
	switch k := d.keyword(); {
	case t.Kind == lkNumber:
		d.i++
		c.Def = &Default{defNumber, strings.ToUpper(t.Text)}
	case k == "NULL" || k == "TRUE" || k == "FALSE" || k == "CURRENT_TIMESTAMP":
		d.i++
		c.Def = &Default{defKeyword, k}
		if d.peek().Text == "(" {
			d.doubt("a default with parentheses")
		}
	case k == "NOW":
		d.i++
		n := d.peek()
		d.mustPunct("(")
		if !n.Glue || d.peek().Kind == lkNumber {
			d.doubt("NOW ()")
		}
		d.mustPunct(")")
		c.Def = &Default{defKeyword, "NOW()"}
	case t.Kind == lkWord && k == "":
		d.i++
		c.Def = &Default{defString, t.Text}
	default:
		d.refuse("no default")
	}
}

func (d *dialectReader) options(t *Table) {
	if d.end() || d.peek().Text == ";" {
		return
	}
	if d.peek().Text == "," {
		d.maybe("a comma in front of the options")
		for d.punct(",") {
		}
		if d.end() || d.peek().Text == ";" {
			d.refuse("a comma and no option")
		}
	}
	for {
		d.option(t)
		if d.end() || d.peek().Kind == lkPunct && d.peek().Text == ";" {
			return
		}
		if d.punct(",") {
			for d.punct(",") {
				d.maybe("two commas")
			}
		}
	}
}

func (d *dialectReader) option(t *Table) {
	k := d.keyword()
	if k == "" {
		d.refuse("no option")
	}
	d.i++
	key := k
	kind := "number"
	switch k {
	case "ENGINE":
		kind = "name"
	case "DEFAULT":
		switch {
		case d.word("CHARSET"), d.word("CHARACTER", "SET"):
			key = "DEFAULT CHARACTER SET"
		case d.word("COLLATE"):
			key = "DEFAULT COLLATE"
		default:
			d.refuse("DEFAULT what")
		}
		kind = "name"
	case "CHARACTER":
		d.must("SET")
		key, kind = "DEFAULT CHARACTER SET", "name"
	case "CHARSET":
		d.maybe("CHARSET")
		key, kind = "DEFAULT CHARACTER SET", "name"
	case "COLLATE":
		key, kind = "DEFAULT COLLATE", "name"
	case "COMMENT", "CONNECTION", "PASSWORD":
		kind = "string"
	case "DATA", "INDEX":
		d.must("DIRECTORY")
		key, kind = k+" DIRECTORY", "string"
	case "INSERT_METHOD":
		kind = "word"
	case "ROW_FORMAT":
		kind = "format"
	case "STATS_AUTO_RECALC", "STATS_PERSISTENT":
		kind = "stats"
	case "PACK_KEYS":
		kind = "pack"
	case "AUTO_INCREMENT", "AVG_ROW_LENGTH", "CHECKSUM", "DELAY_KEY_WRITE", "KEY_BLOCK_SIZE", "MAX_ROWS", "MIN_ROWS", "STATS_SAMPLE_PAGES":
	case "TABLESPACE", "UNION", "STORAGE":
		d.doubt("option " + k)
	default:
		d.refuse("no option")
	}
	d.punct("=")
	o := Opt{Key: key}
	w := d.keyword()
	switch kind {
	case "number":
		o.Val = d.integer()
	case "name":
		if d.peek().Kind == lkString || w == "BINARY" || w == "DEFAULT" || softWords[w] {
			d.doubt("a name that MySQL takes")
		}
		o.Val = d.mustName()
	case "string":
		s, ok := d.str()
		if !ok {
			d.refuse("no string")
		}
		o.Val, o.Quoted = s, true
	case "word":
		if w == "NO" || w == "FIRST" || w == "LAST" {
			d.maybe("INSERT_METHOD " + w)
		}
		t := d.peek()
		if t.Kind != lkWord || w != "" && w != "NO" && w != "FIRST" && w != "LAST" {
			d.refuse("no word")
		}
		d.i++
		o.Val = t.Text
	case "format":
		switch w {
		case "DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT":
		default:
			d.refuse("no row format")
		}
		d.i++
		o.Val = w
	case "stats":
		if d.word("DEFAULT") {
			o.Val = "DEFAULT"
		} else {
			o.Val = d.integer()
		}
	case "pack":
		if t := d.peek(); t.Kind == lkWord && w == "" || w == "DEFAULT" {
			d.maybe("PACK_KEYS x")
			d.i++
			o.Val = t.Text
		} else {
			o.Val = d.integer()
		}
	}
	t.Opts = append(t.Opts, o)
}

// readDialect reads a list of lexemes.
func readDialect(l []Lex) (s *Schema, v verdict, why string) {
	d := &dialectReader{l: l}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case refusedAt:
			s, v, why = nil, vRefused, fmt.Sprintf("%s at lexeme %d", e.why, d.i)
			if d.unsure != "" {
				v, why = vUnsure, d.unsure
			}
		case unsureAt:
			s, v, why = nil, vUnsure, e.why
		default:
			panic(e)
		}
	}()
	s = d.script()
	if d.unsure != "" {
		return nil, vUnsure, d.unsure
	}
	if d.either != "" {
		return s, vEither, d.either
	}
	return s, vValid, ""
}
