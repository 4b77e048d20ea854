package main

// Rendering of abstract schemas as SQL text. A rendering is a list of lexemes
// with gaps between them, so that the checks know where every lexeme starts.

import (
	"math/rand/v2"
	"strings"
)

type lexKind int

const (
	lkWord lexKind = iota
	lkIdent
	lkString
	lkNumber
	lkPunct
)

type Lex struct {
	Text string
	Kind lexKind
	Glue bool // no gap before this one
}

// Style decides how a schema is spelled. With a nil generator everything is
// spelled in the plainest way.
type Style struct {
	R *rand.Rand
	// what may vary
	Case, Gaps, Comments, IdentQuotes, StringQuotes, Noise, AttrOrder, EmptyStmts bool
	NewlineHeavy                                                                  bool
	HostileComments                                                               bool
}

func plainStyle() *Style { return &Style{} }

func wildStyle(r *rand.Rand) *Style {
	return &Style{R: r, Case: true, Gaps: true, Comments: true, IdentQuotes: true, StringQuotes: true, Noise: true, AttrOrder: true, EmptyStmts: true, HostileComments: true}
}

func (s *Style) yes(on bool, pct int) bool { return on && s.R != nil && chance(s.R, pct) }

type out struct {
	st  *Style
	lex []Lex
}

func (o *out) word(ws ...string) {
	for _, w := range ws {
		for _, f := range strings.Fields(w) {
			if o.st.Case && o.st.R != nil {
				switch o.st.R.IntN(4) {
				case 0:
					f = strings.ToLower(f)
				case 1:
					b := []byte(f)
					for i := range b {
						if chance(o.st.R, 50) {
							b[i] = strings.ToLower(f)[i]
						}
					}
					f = string(b)
				}
			}
			o.lex = append(o.lex, Lex{Text: f, Kind: lkWord})
		}
	}
}

func (o *out) punct(s string) { o.lex = append(o.lex, Lex{Text: s, Kind: lkPunct}) }
func (o *out) glued(s string) { o.lex = append(o.lex, Lex{Text: s, Kind: lkPunct, Glue: true}) }

func (o *out) number(s string) { o.lex = append(o.lex, Lex{Text: s, Kind: lkNumber}) }

// words that the dialect gives a meaning: these need quotes as identifiers
var reserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`ACTION AUTO_INCREMENT AVG_ROW_LENGTH BIGINT BINARY BIT BLOB BOOL BOOLEAN BTREE CASCADE CHAR CHARACTER CHARSET CHECK CHECKSUM COLLATE COMMENT COMPACT
		COMPRESSED CONNECTION CONSTRAINT CREATE CURRENT_TIMESTAMP DATA DATABASE DATE DATETIME DECIMAL DEFAULT DELAY_KEY_WRITE DELETE DIRECTORY DISK DOUBLE DROP DYNAMIC ENGINE ENUM EXISTS
		FALSE FIRST FIXED FLOAT FOREIGN FULL FULLTEXT GEOMETRY HASH IF INDEX INSERT_METHOD INT INTEGER JSON KEY KEY_BLOCK_SIZE LAST LIKE LONGBLOB LONGTEXT MATCH MAX_ROWS MEDIUMBLOB MEDIUMINT
		MEDIUMTEXT MEMORY MIN_ROWS NO NOT NULL NUMERIC ON PACK_KEYS PARTIAL PARSER PASSWORD PRIMARY REAL REDUNDANT REFERENCES RESTRICT ROW_FORMAT SET SIMPLE SMALLINT SPATIAL STATS_AUTO_RECALC
		STATS_PERSISTENT STATS_SAMPLE_PAGES STORAGE TABLE TABLESPACE TEMPORARY TEXT TIME TIMESTAMP TINYBLOB TINYINT TINYTEXT TRUE UNION UNIQUE UNSIGNED UPDATE USE USING VARBINARY VARCHAR YEAR
		WITH ZEROFILL ASC DESC NOW
		SELECT AFTER ORDER BY GROUP BEGIN COMMIT AND OR IN IS AS FROM WHERE INTO VALUES INSERT ALTER ADD CHANGE COLUMN`) {
		m[w] = true
	}
	return m
}()

func plainIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		letter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		digit := c >= '0' && c <= '9'
		if !letter && (i == 0 || !digit && c != '_') {
			return false
		}
	}
	return s != "" && !reserved[strings.ToUpper(s)]
}

func btick(s string) string { return "`" + strings.ReplaceAll(s, "`", "``") + "`" }

func (o *out) ident(s string) {
	if plainIdent(s) && (o.st.R == nil && false || o.st.yes(o.st.IdentQuotes, 50)) {
		o.lex = append(o.lex, Lex{Text: s, Kind: lkWord})
		return
	}
	o.lex = append(o.lex, Lex{Text: btick(s), Kind: lkIdent})
}

// quoteRaw writes a raw string as a literal.
func quoteRaw(r *rand.Rand, raw string, vary bool) string {
	q := byte('\'')
	if vary && chance(r, 40) {
		q = '"'
	}
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(raw); i++ {
		c := raw[i]
		switch {
		case c == '\\':
			b.WriteByte(c)
			i++
			b.WriteByte(raw[i])
		case c == q:
			if vary && chance(r, 50) {
				b.WriteByte('\\')
			} else {
				b.WriteByte(q)
			}
			b.WriteByte(c)
		case c == '\'' || c == '"':
			if vary && chance(r, 30) {
				b.WriteByte('\\')
			}
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (o *out) str(raw string) {
	o.lex = append(o.lex, Lex{Text: quoteRaw(o.st.R, raw, o.st.R != nil && o.st.StringQuotes), Kind: lkString})
}

// nameLike: a character set or collation of a column, which may be written as
// an identifier or as a string
func (o *out) nameLike(s string) {
	if o.st.yes(o.st.IdentQuotes, 25) && !strings.ContainsAny(s, "\\'\"") {
		o.str(s)
		return
	}
	o.ident(s)
}

func (o *out) optional(word string, pct int) {
	if o.st.yes(o.st.Noise, pct) {
		o.word(word)
	}
}

func (o *out) either(def, alt string) {
	if o.st.yes(o.st.Noise, 50) {
		o.word(alt)
	} else {
		o.word(def)
	}
}

func (o *out) size(c *Col) {
	if c.Len == nil {
		return
	}
	o.punct("(")
	o.number(*c.Len)
	if c.Dec != nil {
		o.punct(",")
		o.number(*c.Dec)
	}
	o.punct(")")
}

func (o *out) col(c *Col) {
	o.ident(c.Name)
	o.word(c.Type)
	if c.Vals != nil {
		o.punct("(")
		for i, v := range c.Vals {
			if i > 0 {
				o.punct(",")
			}
			o.str(v)
		}
		o.punct(")")
	}
	// fixed part: size, UNSIGNED, ZEROFILL, BINARY, in this order
	var fixed, free, roaming []func()
	if c.Len != nil {
		fixed = append(fixed, func() { o.size(c) })
	}
	if c.Unsigned {
		fixed = append(fixed, func() { o.word("UNSIGNED") })
	}
	if c.Zerofill {
		fixed = append(fixed, func() { o.word("ZEROFILL") })
	}
	if c.Binary {
		fixed = append(fixed, func() { o.word("BINARY") })
	}
	if c.Charset != nil {
		roaming = append(roaming, func() { o.word("CHARACTER SET"); o.nameLike(*c.Charset) })
	}
	if c.Collate != nil {
		roaming = append(roaming, func() { o.word("COLLATE"); o.nameLike(*c.Collate) })
	}
	if c.OnUpdate != nil {
		free = append(free, func() { o.word("ON UPDATE", *c.OnUpdate) })
	}
	switch c.Null {
	case nullNull:
		free = append(free, func() { o.word("NULL") })
	case nullNot:
		free = append(free, func() { o.word("NOT NULL") })
	}
	if c.Def != nil {
		free = append(free, func() {
			o.word("DEFAULT")
			switch {
			case c.Def.Kind == defString:
				if plainIdent(c.Def.Val) && o.st.yes(o.st.StringQuotes, 25) {
					o.lex = append(o.lex, Lex{Text: c.Def.Val, Kind: lkWord})
				} else {
					o.str(c.Def.Val)
				}
			case c.Def.Kind == defNumber:
				v := c.Def.Val
				if o.st.yes(o.st.Case, 50) {
					v = strings.ToLower(v)
				}
				o.number(v)
			case c.Def.Val == "NOW()":
				o.word("NOW")
				o.glued("(")
				o.punct(")")
			default:
				o.word(c.Def.Val)
			}
		})
	}
	if c.AutoInc {
		free = append(free, func() { o.word("AUTO_INCREMENT") })
	}
	if c.Unique {
		free = append(free, func() {
			o.word("UNIQUE")
			if c.Key || o.st.yes(o.st.Noise, 40) {
				o.word("KEY")
			}
		})
	}
	if c.Primary {
		free = append(free, func() { o.word("PRIMARY KEY") })
	}
	if c.Key {
		free = append(free, func() { o.word("KEY") })
	}
	if c.Comment != nil {
		free = append(free, func() { o.word("COMMENT"); o.str(*c.Comment) })
	}
	if o.st.R != nil && o.st.AttrOrder {
		free = shuffled(o.st.R, free)
		seq := append(append([]func(){}, fixed...), free...)
		for _, f := range roaming {
			at := o.st.R.IntN(len(seq) + 1)
			seq = append(seq[:at], append([]func(){f}, seq[at:]...)...)
		}
		for _, f := range seq {
			f()
		}
		return
	}
	for _, l := range [][]func(){fixed, roaming, free} {
		for _, f := range l {
			f()
		}
	}
}

func (o *out) idxCols(l []IdxCol) {
	o.punct("(")
	for i, c := range l {
		if i > 0 {
			o.punct(",")
		}
		o.ident(c.Name)
		if c.Len != nil {
			o.punct("(")
			o.number(*c.Len)
			o.punct(")")
		}
		if c.Dir != "" {
			o.word(c.Dir)
		}
	}
	o.punct(")")
}

func (o *out) index(x *Index) {
	symOK := x.Kind == "PRIMARY" || x.Kind == "UNIQUE" || x.Kind == "FOREIGN"
	if x.Symbol != nil && symOK {
		o.word("CONSTRAINT")
		o.ident(*x.Symbol)
	} else if symOK && o.st.yes(o.st.Noise, 15) {
		o.word("CONSTRAINT")
	}
	switch x.Kind {
	case "PRIMARY":
		o.word("PRIMARY KEY")
	case "NORMAL":
		o.either("INDEX", "KEY")
	case "UNIQUE":
		o.word("UNIQUE")
		switch {
		case o.st.yes(o.st.Noise, 33):
		case o.st.yes(o.st.Noise, 50):
			o.word("KEY")
		default:
			o.word("INDEX")
		}
	case "FULLTEXT", "SPATIAL":
		o.word(x.Kind)
		switch {
		case o.st.yes(o.st.Noise, 33):
		case o.st.yes(o.st.Noise, 50):
			o.word("KEY")
		default:
			o.word("INDEX")
		}
	case "FOREIGN":
		o.word("FOREIGN KEY")
	}
	if x.Name != nil {
		o.ident(*x.Name)
	}
	after := x.Using != "" && o.st.yes(o.st.Noise, 50)
	if x.Using != "" && !after {
		o.word("USING", x.Using)
	}
	o.idxCols(x.Cols)
	if after {
		o.word("USING", x.Using)
	}
	if x.Parser != nil {
		o.word("WITH PARSER")
		o.ident(*x.Parser)
	}
	if r := x.Ref; r != nil {
		o.word("REFERENCES")
		o.ident(r.Table)
		o.idxCols(r.Cols)
		if r.Match != "" {
			o.word("MATCH", r.Match)
		}
		if r.OnDelete != "" {
			o.word("ON DELETE", r.OnDelete)
		}
		if r.OnUpdate != "" {
			o.word("ON UPDATE", r.OnUpdate)
		}
	}
}

func (o *out) opt(p Opt) {
	switch p.Key {
	case "DEFAULT CHARACTER SET":
		switch {
		case o.st.yes(o.st.Noise, 33):
			o.word("DEFAULT CHARSET")
		case o.st.yes(o.st.Noise, 50):
			o.word("CHARACTER SET")
		default:
			o.word("DEFAULT CHARACTER SET")
		}
	case "DEFAULT COLLATE":
		o.either("DEFAULT COLLATE", "COLLATE")
	default:
		o.word(p.Key)
	}
	if !o.st.yes(o.st.Noise, 40) {
		o.punct("=")
	}
	switch {
	case p.Quoted:
		o.str(p.Val)
	case kwOpts[p.Key] && !isDigits(p.Val):
		o.word(p.Val)
	case isDigits(p.Val) && p.Key != "ENGINE" && p.Key != "DEFAULT CHARACTER SET" && p.Key != "DEFAULT COLLATE":
		o.number(p.Val)
	case p.Key == "INSERT_METHOD" || p.Key == "PACK_KEYS":
		o.lex = append(o.lex, Lex{Text: p.Val, Kind: lkWord})
	default:
		o.ident(p.Val)
	}
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func (o *out) table(t *Table) {
	o.word("CREATE")
	late := t.Temp && o.st.yes(o.st.Noise, 0)
	if t.Temp && !late {
		o.word("TEMPORARY")
	}
	o.word("TABLE")
	ifLate := t.IfNot && t.Like == nil && o.st.yes(o.st.Noise, 10)
	if t.IfNot && !ifLate {
		o.word("IF NOT EXISTS")
	}
	o.ident(t.Name)
	if t.Like != nil {
		o.word("LIKE")
		o.ident(*t.Like)
		return
	}
	if ifLate {
		o.word("IF NOT EXISTS")
	}
	o.punct("(")
	decl := t.Decl
	if decl == nil {
		for i := range t.Cols {
			decl = append(decl, i)
		}
		for i := range t.Idx {
			decl = append(decl, -1-i)
		}
	}
	for i, d := range decl {
		if i > 0 {
			o.punct(",")
		}
		if d >= 0 {
			o.col(t.Cols[d])
		} else {
			o.index(t.Idx[-1-d])
		}
	}
	o.punct(")")
	for i, p := range t.Opts {
		if i > 0 && !o.st.yes(o.st.Noise, 40) {
			o.punct(",")
		}
		o.opt(p)
	}
}

var commentAtoms = []string{"x", " some words ", "'", `"`, "`", ";", "CREATE TABLE sneaky (a int);", "DROP TABLE a;", "--", "#", "/*", "*", "/", "(", ")", ",", `\`, "日本語", "😀", "\x01", "it's", "\xff", "* /", "!40101 SET x=1", "\t", "\r"}

func commentText(r *rand.Rand, hostile bool) string {
	if !hostile {
		return pick(r, []string{"note", " a comment ", "x y"})
	}
	var b strings.Builder
	for n := r.IntN(5); n > 0; n-- {
		b.WriteString(pick(r, commentAtoms))
	}
	return b.String()
}

// gap returns what stands between two lexemes; need says that it may not be
// empty.
func (st *Style) gap(need bool) string {
	r := st.R
	if r == nil || !st.Gaps {
		if need {
			return " "
		}
		return ""
	}
	var b strings.Builder
	n := 0
	switch k := r.IntN(10); {
	case k < 3:
		n = 0
	case k < 8:
		n = 1
	default:
		n = 1 + r.IntN(4)
	}
	for ; n > 0; n-- {
		if st.Comments && chance(r, 15) {
			b.WriteString(st.comment())
			continue
		}
		ws := []string{" ", " ", "\n", "\t", "\r\n", "  ", "\n\n", " \n\t "}
		if st.NewlineHeavy && chance(r, 40) {
			b.WriteString("\n")
		} else {
			b.WriteString(pick(r, ws))
		}
	}
	if need && b.Len() == 0 {
		return " "
	}
	return b.String()
}

func (st *Style) comment() string {
	r := st.R
	txt := commentText(r, st.HostileComments)
	switch r.IntN(5) {
	case 0, 1:
		return "/*" + strings.ReplaceAll(txt+pick(r, []string{"", "*", "\n"}), "*/", "* /") + "*/"
	case 2:
		return "--" + pick(r, []string{" ", "\t", " ", "\r"}) + strings.ReplaceAll(txt, "\n", " ") + "\n"
	case 3:
		return "#" + strings.ReplaceAll(txt, "\n", " ") + "\n"
	default:
		return pick(r, []string{"--\n", "--\n", "--\r\n", "--\t\n", "#\n", "#\r\n"})
	}
}

func wordish(k lexKind) bool { return k == lkWord || k == lkNumber }

// needGap says whether two lexemes would run into each other.
func needGap(a, b Lex) bool {
	if b.Glue {
		return false
	}
	if wordish(a.Kind) && wordish(b.Kind) {
		return true
	}
	if a.Kind == lkNumber && strings.HasPrefix(b.Text, ".") {
		return true
	}
	// `a``b` and 'a''b' would be one literal
	if (a.Kind == lkIdent || a.Kind == lkString) && a.Text[len(a.Text)-1] == b.Text[0] {
		return true
	}
	return false
}

type Placed struct {
	Lex
	Start, End int // byte offsets
}

// join lays the lexemes out as text.
func (st *Style) join(b *strings.Builder, lex []Lex) []Placed {
	var out []Placed
	for i, l := range lex {
		if i > 0 && !l.Glue {
			need := needGap(lex[i-1], l)
			if st.R == nil || !st.Gaps {
				if l.Kind != lkPunct || need {
					b.WriteString(" ")
				}
			} else {
				b.WriteString(st.gap(need))
			}
		}
		p := Placed{Lex: l, Start: b.Len()}
		b.WriteString(l.Text)
		p.End = b.Len()
		out = append(out, p)
	}
	return out
}

type Rendering struct {
	Text   string
	Lex    []Placed
	StmtAt []int // index of the first lexeme of each table statement
}

func lexTable(t *Table, st *Style) []Lex {
	o := &out{st: st}
	o.table(t)
	return o.lex
}

// render writes a whole schema; the last semicolon is sometimes left out.
func render(s *Schema, st *Style) *Rendering {
	var b strings.Builder
	rd := &Rendering{}
	if st.R != nil && st.Gaps {
		b.WriteString(st.gap(false))
	}
	for i, t := range s.Tables {
		if st.yes(st.EmptyStmts, 10) {
			b.WriteString(";" + st.gap(false))
		}
		rd.StmtAt = append(rd.StmtAt, len(rd.Lex))
		lex := lexTable(t, st)
		if i < len(s.Tables)-1 || st.R == nil || !chance(st.R, 20) {
			lex = append(lex, Lex{Text: ";", Kind: lkPunct})
		}
		rd.Lex = append(rd.Lex, st.join(&b, lex)...)
		if st.R == nil || !st.Gaps {
			b.WriteString("\n")
		} else {
			b.WriteString(st.gap(false))
		}
	}
	rd.Text = b.String()
	return rd
}

func plainSQL(s *Schema) string { return render(s, plainStyle()).Text }
