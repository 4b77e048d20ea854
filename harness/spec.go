package main

// The abstract schema the checks work with, independent of the repository's
// model package. Strings are kept in raw form, which is what stands between
// the quotes with the escapes of quote characters resolved and every other
// backslash pair left alone; decode() gives the characters MySQL would store.

import (
	"fmt"
	"regexp"
	"strings"
)

type Schema struct{ Tables []*Table }

type Table struct {
	Name        string
	Temp, IfNot bool
	Like        *string
	Cols        []*Col
	Idx         []*Index
	Opts        []Opt
	// order in which columns (>=0) and indexes (<0, -1-i) are declared; nil = columns first
	Decl []int
}

type Opt struct {
	Key, Val string
	Quoted   bool
}

const (
	nullNone = iota
	nullNull
	nullNot
)

const (
	defString  = "string" // quoted, or a bare word
	defNumber  = "number"
	defKeyword = "keyword" // NULL, TRUE, FALSE, CURRENT_TIMESTAMP, NOW()
)

type Default struct{ Kind, Val string }

type Col struct {
	Name                       string
	Type                       string
	Len, Dec                   *string
	Unsigned, Zerofill, Binary bool
	Charset, Collate           *string
	Null                       int
	Def                        *Default
	OnUpdate                   *string
	AutoInc                    bool
	Unique, Primary, Key       bool
	Comment                    *string
	Vals                       []string // ENUM and SET
}

type IdxCol struct {
	Name string
	Len  *string
	Dir  string // "", ASC, DESC
}

type Ref struct {
	Table                     string
	Cols                      []IdxCol
	Match, OnDelete, OnUpdate string
}

type Index struct {
	Kind         string // PRIMARY, NORMAL, UNIQUE, FULLTEXT, SPATIAL, FOREIGN
	Name, Symbol *string
	Using        string
	Cols         []IdxCol
	Parser       *string
	Ref          *Ref
}

func sp(s string) *string { return &s }

func clonep(p *string) *string {
	if p == nil {
		return nil
	}
	return sp(*p)
}

func (c *Col) clone() *Col {
	n := *c
	n.Len, n.Dec, n.Charset, n.Collate, n.OnUpdate, n.Comment = clonep(c.Len), clonep(c.Dec), clonep(c.Charset), clonep(c.Collate), clonep(c.OnUpdate), clonep(c.Comment)
	if c.Def != nil {
		d := *c.Def
		n.Def = &d
	}
	n.Vals = append([]string(nil), c.Vals...)
	return &n
}

func cloneIC(l []IdxCol) []IdxCol {
	var out []IdxCol
	for _, c := range l {
		c.Len = clonep(c.Len)
		out = append(out, c)
	}
	return out
}

func (x *Index) clone() *Index {
	n := *x
	n.Name, n.Symbol, n.Parser = clonep(x.Name), clonep(x.Symbol), clonep(x.Parser)
	n.Cols = cloneIC(x.Cols)
	if x.Ref != nil {
		r := *x.Ref
		r.Cols = cloneIC(x.Ref.Cols)
		n.Ref = &r
	}
	return &n
}

func (t *Table) clone() *Table {
	n := &Table{Name: t.Name, Temp: t.Temp, IfNot: t.IfNot, Like: clonep(t.Like)}
	for _, c := range t.Cols {
		n.Cols = append(n.Cols, c.clone())
	}
	for _, x := range t.Idx {
		n.Idx = append(n.Idx, x.clone())
	}
	n.Opts = append([]Opt(nil), t.Opts...)
	n.Decl = append([]int(nil), t.Decl...)
	return n
}

func (s *Schema) clone() *Schema {
	n := &Schema{}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.clone())
	}
	return n
}

func (t *Table) col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (s *Schema) table(name string) *Table {
	for _, t := range s.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// decode resolves the escape sequences of a raw string as MySQL does.
func decode(raw string) string {
	if !strings.Contains(raw, `\`) {
		return raw
	}
	var b strings.Builder
	for i := 0; i < len(raw); i++ {
		if raw[i] != '\\' || i+1 == len(raw) {
			b.WriteByte(raw[i])
			continue
		}
		i++
		switch raw[i] {
		case '0':
			b.WriteByte(0)
		case 'b':
			b.WriteByte('\b')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'Z':
			b.WriteByte(26)
		case '%', '_':
			b.WriteByte('\\')
			b.WriteByte(raw[i])
		default:
			b.WriteByte(raw[i])
		}
	}
	return b.String()
}

func optq(p *string) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprintf("%q", *p)
}

// colFP writes out everything a column definition says.
func colFP(c *Col) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %s", c.Name, c.Type)
	if c.Vals != nil {
		b.WriteString(" vals[")
		for i, v := range c.Vals {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%q", decode(v))
		}
		b.WriteString("]")
	}
	if c.Len != nil {
		fmt.Fprintf(&b, " len=%s", *c.Len)
	}
	if c.Dec != nil {
		fmt.Fprintf(&b, " dec=%s", *c.Dec)
	}
	if c.Unsigned {
		b.WriteString(" unsigned")
	}
	if c.Zerofill {
		b.WriteString(" zerofill")
	}
	if c.Binary {
		b.WriteString(" binary")
	}
	if c.Charset != nil {
		fmt.Fprintf(&b, " charset=%q", *c.Charset)
	}
	if c.Collate != nil {
		fmt.Fprintf(&b, " collate=%q", *c.Collate)
	}
	if c.OnUpdate != nil {
		fmt.Fprintf(&b, " onupdate=%q", strings.ToUpper(*c.OnUpdate))
	}
	fmt.Fprintf(&b, " null=%d", c.Null)
	if c.Def != nil {
		v := c.Def.Val
		if c.Def.Kind == defString {
			v = decode(v)
		} else {
			v = strings.ToUpper(v)
		}
		k := "literal"
		if c.Def.Kind == defString {
			k = "string"
		}
		fmt.Fprintf(&b, " default=%s:%q", k, v)
	}
	if c.AutoInc {
		b.WriteString(" autoinc")
	}
	if c.Unique {
		b.WriteString(" unique")
	}
	if c.Primary {
		b.WriteString(" primary")
	}
	if c.Key {
		b.WriteString(" key")
	}
	if c.Comment != nil {
		fmt.Fprintf(&b, " comment=%q", decode(*c.Comment))
	}
	return b.String()
}

func icFP(l []IdxCol) string {
	var out []string
	for _, c := range l {
		s := fmt.Sprintf("%q", c.Name)
		if c.Len != nil {
			s += "(" + *c.Len + ")"
		}
		if c.Dir == "DESC" {
			s += " DESC"
		}
		out = append(out, s)
	}
	return strings.Join(out, ",")
}

// idxFP writes out everything an index definition says (ASC is the default).
func idxFP(x *Index) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s name=%s symbol=%s using=%s (%s)", x.Kind, optq(x.Name), optq(x.Symbol), x.Using, icFP(x.Cols))
	if x.Parser != nil {
		fmt.Fprintf(&b, " parser=%q", *x.Parser)
	}
	if r := x.Ref; r != nil {
		cols := append([]IdxCol(nil), r.Cols...)
		for i := range cols {
			cols[i].Dir = "" // means nothing here
		}
		fmt.Fprintf(&b, " ref=%q(%s) match=%s del=%s upd=%s", r.Table, icFP(cols), r.Match, r.OnDelete, r.OnUpdate)
	}
	return b.String()
}

var kwOpts = map[string]bool{"ROW_FORMAT": true, "STATS_AUTO_RECALC": true, "STATS_PERSISTENT": true}

func optFP(o Opt) string {
	v := o.Val
	if o.Quoted {
		v = decode(v)
	} else if kwOpts[o.Key] {
		v = strings.ToUpper(v)
	}
	return fmt.Sprintf("%s=%v:%q", o.Key, o.Quoted, v)
}

// tableFP writes out a table completely, one line per part.
func tableFP(t *Table) string {
	var b strings.Builder
	fmt.Fprintf(&b, "table %q temp=%v ifnot=%v like=%s\n", t.Name, t.Temp, t.IfNot, optq(t.Like))
	for _, c := range t.Cols {
		fmt.Fprintf(&b, "  col %s\n", colFP(c))
	}
	for _, x := range t.Idx {
		fmt.Fprintf(&b, "  idx %s\n", idxFP(x))
	}
	for _, o := range t.Opts {
		fmt.Fprintf(&b, "  opt %s\n", optFP(o))
	}
	return b.String()
}

func schemaFP(s *Schema) string {
	var b strings.Builder
	for _, t := range s.Tables {
		b.WriteString(tableFP(t))
	}
	return b.String()
}

// ---- what the types accept

type typeInfo struct {
	Name    string
	Size    bool // (n)
	Dec2    bool // (n,m), both required
	DecOpt  bool // (n[,m])
	Num     bool // UNSIGNED, ZEROFILL
	Char    bool // BINARY
	List    bool // value list
	NoNullD bool // no implied DEFAULT NULL
	Integer bool
	Numeric bool
	BoolT   bool
}

var types = []typeInfo{
	{Name: "BIT", Size: true},
	{Name: "TINYINT", Size: true, Num: true, Numeric: true},
	{Name: "SMALLINT", Size: true, Num: true, Numeric: true},
	{Name: "MEDIUMINT", Size: true, Num: true, Numeric: true},
	{Name: "INT", Size: true, Num: true, Numeric: true},
	{Name: "INTEGER", Size: true, Num: true, Numeric: true},
	{Name: "BIGINT", Size: true, Num: true, Numeric: true},
	{Name: "REAL", Dec2: true, Num: true, Numeric: true},
	{Name: "DOUBLE", Dec2: true, Num: true, Numeric: true},
	{Name: "FLOAT", Dec2: true, Num: true, Numeric: true},
	{Name: "DECIMAL", DecOpt: true, Num: true, Numeric: true},
	{Name: "NUMERIC", DecOpt: true, Num: true, Numeric: true},
	{Name: "DATE"},
	{Name: "TIME", Size: true},
	{Name: "TIMESTAMP", Size: true},
	{Name: "DATETIME", Size: true},
	{Name: "YEAR"},
	{Name: "CHAR", Size: true, Char: true},
	{Name: "VARCHAR", Size: true, Char: true},
	{Name: "BINARY", Size: true},
	{Name: "VARBINARY", Size: true},
	{Name: "TINYBLOB", NoNullD: true},
	{Name: "BLOB", NoNullD: true},
	{Name: "MEDIUMBLOB", NoNullD: true},
	{Name: "LONGBLOB", NoNullD: true},
	{Name: "TINYTEXT", Size: true, Char: true, NoNullD: true},
	{Name: "TEXT", Size: true, Char: true, NoNullD: true},
	{Name: "MEDIUMTEXT", Size: true, Char: true, NoNullD: true},
	{Name: "LONGTEXT", Size: true, Char: true, NoNullD: true},
	{Name: "ENUM", List: true},
	{Name: "SET", List: true},
	{Name: "BOOLEAN", BoolT: true},
	{Name: "BOOL", BoolT: true},
	{Name: "JSON"},
	{Name: "GEOMETRY"},
}

var typeByName = func() map[string]*typeInfo {
	m := map[string]*typeInfo{}
	for i := range types {
		m[types[i].Name] = &types[i]
	}
	return m
}()

// ---- reference normalization, written from the documented rules

var synonyms = map[string]string{"BOOL": "TINYINT", "BOOLEAN": "TINYINT", "INTEGER": "INT", "NUMERIC": "DECIMAL", "REAL": "DOUBLE"}

var numLit = regexp.MustCompile(`^([-+]?[0-9]+(\.[0-9]*)?|\.[0-9]+)([eE]-?[0-9]+)?$`) // as the lexer reads numbers: no sign in front of a dot

func normCol(c *Col) *Col {
	n := c.clone()
	ti := typeByName[c.Type]
	if n.Len == nil {
		u := 0
		if c.Unsigned {
			u = 1
		}
		switch c.Type {
		case "BOOL", "BOOLEAN":
			n.Len = sp("1")
		case "TINYINT":
			n.Len = sp(fmt.Sprint(4 - u))
		case "SMALLINT":
			n.Len = sp(fmt.Sprint(6 - u))
		case "MEDIUMINT":
			n.Len = sp(fmt.Sprint(9 - u))
		case "INT", "INTEGER":
			n.Len = sp(fmt.Sprint(11 - u))
		case "BIGINT":
			n.Len = sp("20")
		case "DECIMAL", "NUMERIC":
			n.Len, n.Dec = sp("10"), sp("0")
		case "BIT", "CHAR", "BINARY":
			n.Len = sp("1")
		}
	} else if n.Dec == nil && (c.Type == "DECIMAL" || c.Type == "NUMERIC") {
		n.Dec = sp("0")
	}
	if s, ok := synonyms[c.Type]; ok {
		n.Type = s
	}
	if n.Null == nullNull {
		n.Null = nullNone
	}
	switch {
	case n.Def == nil:
		if n.Null != nullNot && !ti.NoNullD {
			n.Def = &Default{defKeyword, "NULL"}
		}
	case n.Def.Kind == defString:
		if (ti.Numeric || ti.BoolT) && numLit.MatchString(n.Def.Val) {
			n.Def = &Default{defNumber, strings.ToUpper(n.Def.Val)}
		}
	case ti.BoolT && strings.EqualFold(n.Def.Val, "TRUE"):
		n.Def = &Default{defNumber, "1"}
	case ti.BoolT && strings.EqualFold(n.Def.Val, "FALSE"):
		n.Def = &Default{defNumber, "0"}
	}
	return n
}

func normTable(t *Table) *Table {
	if t.Like != nil {
		n := t.clone()
		return n
	}
	n := &Table{Name: t.Name, Temp: t.Temp, IfNot: t.IfNot, Opts: append([]Opt(nil), t.Opts...)}
	taken := map[string]bool{}
	for _, c := range t.Cols {
		nc := normCol(c)
		if nc.Primary || nc.Key {
			nc.Primary, nc.Key = false, false
			n.Idx = append(n.Idx, &Index{Kind: "PRIMARY", Cols: []IdxCol{{Name: nc.Name}}})
		}
		if nc.Unique {
			nc.Unique = false
			n.Idx = append(n.Idx, &Index{Kind: "UNIQUE", Name: sp(nc.Name), Cols: []IdxCol{{Name: nc.Name}}})
			taken[nc.Name] = true
		}
		n.Cols = append(n.Cols, nc)
	}
	for _, x := range t.Idx {
		if n := idxName(x); x.Kind != "FOREIGN" && n != "" {
			taken[n] = true // (the name of a primary key is ignored)
		}
	}
	for _, x := range t.Idx {
		if x.Kind == "FOREIGN" && x.Symbol != nil && !taken[*x.Symbol] {
			n.Idx = append(n.Idx, &Index{Kind: "NORMAL", Name: sp(*x.Symbol), Using: x.Using, Cols: cloneIC(x.Cols)})
		}
		n.Idx = append(n.Idx, x.clone())
		if x.Kind == "FOREIGN" && x.Name != nil {
			taken[*x.Name] = true
		}
	}
	return n
}

func normSchema(s *Schema) *Schema {
	n := &Schema{}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, normTable(t))
	}
	return n
}
