package main

// Reading the repository's model into the abstract form, through its public
// interfaces only.

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/model"
)

func exIdxCols(ch chan model.IndexColumn) []IdxCol {
	var out []IdxCol
	for c := range ch {
		ic := IdxCol{Name: c.Name()}
		if c.HasLength() {
			ic.Len = sp(c.Length())
		}
		switch {
		case c.IsAscending():
			ic.Dir = "ASC"
		case c.IsDescending():
			ic.Dir = "DESC"
		}
		out = append(out, ic)
	}
	return out
}

var refAction = map[model.ReferenceOption]string{
	model.ReferenceOptionNone: "", model.ReferenceOptionRestrict: "RESTRICT", model.ReferenceOptionCascade: "CASCADE",
	model.ReferenceOptionSetNull: "SET NULL", model.ReferenceOptionNoAction: "NO ACTION",
}

func exIndex(x model.Index) *Index {
	n := &Index{Kind: "?"}
	kinds := 0
	for k, on := range map[string]bool{"PRIMARY": x.IsPrimaryKey(), "NORMAL": x.IsNormal(), "UNIQUE": x.IsUnique(), "FULLTEXT": x.IsFullText(), "SPATIAL": x.IsSpatial(), "FOREIGN": x.IsForeignKey()} {
		if on {
			n.Kind = k
			kinds++
		}
	}
	if kinds != 1 {
		n.Kind = fmt.Sprintf("?%d kinds", kinds)
	}
	if x.HasName() {
		n.Name = sp(x.Name())
	}
	if x.HasSymbol() {
		n.Symbol = sp(x.Symbol())
	}
	switch {
	case x.IsBtree():
		n.Using = "BTREE"
	case x.IsHash():
		n.Using = "HASH"
	}
	n.Cols = exIdxCols(x.Columns())
	for o := range x.Options() {
		if o.Key() == "WITH PARSER" && n.Parser == nil {
			n.Parser = sp(o.Value())
		} else {
			n.Kind += " option " + o.Key() + "=" + o.Value()
		}
	}
	if r := x.Reference(); r != nil {
		n.Ref = &Ref{Table: r.TableName(), Cols: exIdxCols(r.Columns()), OnDelete: refAction[r.OnDelete()], OnUpdate: refAction[r.OnUpdate()]}
		switch {
		case r.MatchFull():
			n.Ref.Match = "FULL"
		case r.MatchPartial():
			n.Ref.Match = "PARTIAL"
		case r.MatchSimple():
			n.Ref.Match = "SIMPLE"
		}
	}
	return n
}

func exCol(c model.TableColumn) *Col {
	n := &Col{Name: c.Name(), Type: c.Type().String()}
	if c.HasLength() {
		n.Len = sp(c.Length().Length())
		if c.Length().HasDecimal() {
			n.Dec = sp(c.Length().Decimal())
		}
	}
	n.Unsigned, n.Zerofill, n.Binary = c.IsUnsigned(), c.IsZeroFill(), c.IsBinary()
	if c.HasCharacterSet() {
		n.Charset = sp(c.CharacterSet())
	}
	if c.HasCollation() {
		n.Collate = sp(c.Collation())
	}
	switch c.NullState() {
	case model.NullStateNull:
		n.Null = nullNull
	case model.NullStateNotNull:
		n.Null = nullNot
	}
	if c.HasDefault() {
		n.Def = &Default{Kind: defKeyword, Val: c.Default()}
		if c.IsQuotedDefault() {
			n.Def.Kind = defString
		}
	}
	if c.HasAutoUpdate() {
		n.OnUpdate = sp(c.AutoUpdate())
	}
	n.AutoInc, n.Unique, n.Primary, n.Key = c.IsAutoIncrement(), c.IsUnique(), c.IsPrimary(), c.IsKey()
	if c.HasComment() {
		n.Comment = sp(c.Comment())
	}
	if c.HasEnumValues() {
		for v := range c.EnumValues() {
			n.Vals = append(n.Vals, v)
		}
		if n.Type != "ENUM" {
			n.Type += " with enum values"
		}
	}
	if c.HasSetValues() {
		for v := range c.SetValues() {
			n.Vals = append(n.Vals, v)
		}
		if n.Type != "SET" {
			n.Type += " with set values"
		}
	}
	return n
}

func exTable(t model.Table) *Table {
	n := &Table{Name: t.Name(), Temp: t.IsTemporary(), IfNot: t.IsIfNotExists()}
	if t.HasLikeTable() {
		n.Like = sp(t.LikeTable())
	}
	for c := range t.Columns() {
		n.Cols = append(n.Cols, exCol(c))
	}
	for x := range t.Indexes() {
		n.Idx = append(n.Idx, exIndex(x))
	}
	for o := range t.Options() {
		v := o.Value()
		if !o.NeedQuotes() && len(v) > 1 && v[0] == '`' && v[len(v)-1] == '`' {
			v = strings.ReplaceAll(v[1:len(v)-1], "``", "`") // a name that needs its quotes keeps them
		}
		n.Opts = append(n.Opts, Opt{Key: o.Key(), Val: v, Quoted: o.NeedQuotes()})
	}
	return n
}

func exStmts(l model.Stmts) (*Schema, error) {
	s := &Schema{}
	for _, st := range l {
		t, ok := st.(model.Table)
		if !ok {
			return nil, fmt.Errorf("statement %T is not a table", st)
		}
		s.Tables = append(s.Tables, exTable(t))
	}
	return s, nil
}

// ---- building model objects from the abstract form, as an API user would

var colTypes = func() map[string]model.ColumnType {
	m := map[string]model.ColumnType{}
	for i := model.ColumnTypeInvalid + 1; i < model.ColumnTypeMax; i++ {
		m[i.String()] = i
	}
	return m
}()

func buildCol(c *Col) model.TableColumn {
	m := model.NewTableColumn(c.Name)
	fillCol(m, c)
	return m
}

// fillCol says what the column is; seen is looked at in between, with a
// history.
func fillCol(m model.TableColumn, c *Col, seen ...interface{}) {
	touch := func() { touch(append(seen, m)...) }
	touch()
	m.SetType(colTypes[c.Type])
	touch()
	if c.Len != nil {
		l := model.NewLength(*c.Len)
		if c.Dec != nil {
			l.SetDecimal(*c.Dec)
		}
		m.SetLength(l)
	}
	touch()
	switch c.Type {
	case "ENUM":
		m.SetEnumValues(append([]string(nil), c.Vals...))
	case "SET":
		m.SetSetValues(append([]string(nil), c.Vals...))
	}
	touch()
	m.SetUnsigned(c.Unsigned).SetZeroFill(c.Zerofill).SetBinary(c.Binary)
	touch()
	if c.Charset != nil {
		m.SetCharacterSet(*c.Charset)
	}
	touch()
	if c.Collate != nil {
		m.SetCollation(*c.Collate)
	}
	touch()
	switch c.Null {
	case nullNull:
		m.SetNullState(model.NullStateNull)
	case nullNot:
		m.SetNullState(model.NullStateNotNull)
	}
	touch()
	if c.Def != nil {
		m.SetDefault(c.Def.Val, c.Def.Kind == defString)
	}
	touch()
	if c.OnUpdate != nil {
		m.SetAutoUpdate(*c.OnUpdate)
	}
	touch()
	m.SetAutoIncrement(c.AutoInc).SetUnique(c.Unique).SetPrimary(c.Primary).SetKey(c.Key)
	touch()
	if c.Comment != nil {
		m.SetComment(*c.Comment)
	}
	touch()
}

func buildIdxCols(l []IdxCol) []model.IndexColumn {
	var out []model.IndexColumn
	for _, c := range l {
		m := model.NewIndexColumn(c.Name)
		touch(m)
		if c.Len != nil {
			m.SetLength(*c.Len)
		}
		touch(m)
		switch c.Dir {
		case "ASC":
			m.SetSortDirection(model.SortDirectionAscending)
		case "DESC":
			m.SetSortDirection(model.SortDirectionDescending)
		}
		out = append(out, m)
	}
	return out
}

var idxKinds = map[string]model.IndexKind{"PRIMARY": model.IndexKindPrimaryKey, "NORMAL": model.IndexKindNormal, "UNIQUE": model.IndexKindUnique, "FULLTEXT": model.IndexKindFullText, "SPATIAL": model.IndexKindSpatial, "FOREIGN": model.IndexKindForeignKey}

var refOpts = map[string]model.ReferenceOption{"": model.ReferenceOptionNone, "RESTRICT": model.ReferenceOptionRestrict, "CASCADE": model.ReferenceOptionCascade, "SET NULL": model.ReferenceOptionSetNull, "NO ACTION": model.ReferenceOptionNoAction}

var refMatches = map[string]model.ReferenceMatch{"": model.ReferenceMatchNone, "FULL": model.ReferenceMatchFull, "PARTIAL": model.ReferenceMatchPartial, "SIMPLE": model.ReferenceMatchSimple}

func buildRef(r *Ref) model.Reference {
	m := model.NewReference()
	fillRef(m, r)
	return m
}

func fillRef(m model.Reference, r *Ref, seen ...interface{}) {
	touch := func() { touch(append(seen, m)...) }
	touch()
	m.SetTableName(r.Table)
	touch()
	addIdxCols(m, r.Cols, touch)
	touch()
	m.SetMatch(refMatches[r.Match])
	touch()
	m.SetOnDelete(refOpts[r.OnDelete])
	touch()
	m.SetOnUpdate(refOpts[r.OnUpdate])
	touch()
}

// addIdxCols adds columns to an index or a reference: all at once, or, with a
// history, also one by one.
func addIdxCols(m model.ColumnContainer, l []IdxCol, touch func()) {
	if hist == nil || hist.r.IntN(2) == 0 {
		m.AddColumns(buildIdxCols(l)...)
		return
	}
	for i := range l {
		m.AddColumns(buildIdxCols(l[i : i+1])...)
		touch()
	}
}

func buildIndex(x *Index, tableID string) model.Index {
	m := model.NewIndex(idxKinds[x.Kind], tableID)
	fillIndex(m, x)
	return m
}

func fillIndex(m model.Index, x *Index, seen ...interface{}) {
	touch := func() { touch(append(seen, m)...) }
	touch()
	if x.Name != nil {
		m.SetName(*x.Name)
		touch()
	}
	if x.Symbol != nil {
		m.SetSymbol(*x.Symbol)
		touch()
	}
	switch x.Using {
	case "BTREE":
		m.SetType(model.IndexTypeBtree)
	case "HASH":
		m.SetType(model.IndexTypeHash)
	}
	touch()
	addIdxCols(m, x.Cols, touch)
	touch()
	if x.Parser != nil {
		m.AddOption(model.NewIndexOption("WITH PARSER", *x.Parser, true))
		touch()
	}
	if x.Ref != nil {
		if hist != nil && hist.r.IntN(2) == 0 {
			ref := model.NewReference()
			m.SetReference(ref)
			fillRef(ref, x.Ref, append(seen, m)...)
		} else {
			m.SetReference(buildRef(x.Ref))
		}
		touch()
	}
}

func buildTable(t *Table) model.Table {
	m := model.NewTable(t.Name)
	touch(m)
	m.SetTemporary(t.Temp)
	touch(m)
	m.SetIfNotExists(t.IfNot)
	touch(m)
	if t.Like != nil {
		m.SetLikeTable(*t.Like)
		touch(m)
	}
	// with a history, some are added before it is said what they are
	var late []func()
	when := func(f func()) {
		switch {
		case hist == nil, hist.r.IntN(2) == 0:
			f()
		default:
			late = append(late, f)
		}
	}
	for _, c := range t.Cols {
		if hist == nil || hist.r.IntN(2) == 0 {
			m.AddColumn(buildCol(c))
		} else {
			mc := model.NewTableColumn(c.Name)
			m.AddColumn(mc)
			for mc = range m.Columns() { // the one it has
			}
			when(func() { fillCol(mc, c, m) })
		}
		touch(m)
	}
	for _, x := range t.Idx {
		if hist == nil || hist.r.IntN(2) == 0 {
			m.AddIndex(buildIndex(x, m.ID()))
		} else {
			mx := model.NewIndex(idxKinds[x.Kind], m.ID())
			m.AddIndex(mx)
			for mx = range m.Indexes() {
			}
			when(func() { fillIndex(mx, x, m) })
		}
		touch(m)
	}
	for _, f := range late {
		f()
	}
	for _, o := range t.Opts {
		v := o.Val
		if !o.Quoted && (!isDigits(v) || o.Key == "ENGINE" || o.Key == "DEFAULT CHARACTER SET" || o.Key == "DEFAULT COLLATE") && !kwOpts[o.Key] && !plainIdent(v) {
			v = btick(v)
		}
		m.AddOption(model.NewTableOption(o.Key, v, o.Quoted))
		touch(m)
	}
	return m
}
