package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/schemalex/schemalex/model"
)

// C22: an identifier stands for one definition.

// idTable remembers, for a worker, which definition an identifier stood for.
type idTable struct {
	byID, byDef map[string]string
}

func (w *Worker) ids(kind string) *idTable {
	if w.idTables == nil {
		w.idTables = map[string]*idTable{}
	}
	if w.idTables[kind] == nil {
		w.idTables[kind] = &idTable{map[string]string{}, map[string]string{}}
	}
	return w.idTables[kind]
}

// see checks an (identifier, definition) pair against all pairs seen so far.
func (t *idTable) see(c *Case, id, def string) bool {
	c.Count("identifiers observed")
	if old, ok := t.byID[id]; ok && old != def {
		c.Fail("collision", "one identifier %s for two definitions\n%s\n%s", id, old, def)
		return false
	}
	if old, ok := t.byDef[def]; ok && old != id {
		c.Fail("split", "two identifiers for one definition %s\n%s\n%s", def, old, id)
		return false
	}
	if len(t.byID) < 400000 {
		t.byID[id] = def
		t.byDef[def] = id
	}
	return true
}

// idxDef is what an index identifier has to tell.
func idxDef(table string, x *Index) string {
	y := x.clone()
	if y.Ref != nil {
		for i := range y.Ref.Cols {
			y.Ref.Cols[i].Dir = "" // means nothing in a reference
		}
	}
	return fmt.Sprintf("%q %s", table, idxFP(y))
}

func refDef(r *Ref) string { return idxFP(&Index{Ref: r}) }

// confusing names are made of the pieces identifiers are made of
var idPieces = []string{".", "#", "-", `"`, "none", "index", "index_column", "tablecol#", "table#", "1", "10", "(", ")", ",", "a", "b", "DESC", "ASC", "NORMAL", "PrimaryKey", "Btree", "=", "WITH PARSER", "`", `\`, `\"`, "reference", "\n", "\x00", "\xff", "é", " ", "%q", "%!s(MISSING)", "index#", "Restrict", "None", "IndexKindNormal", "IndexTypeNone"}

func confusing(r *rand.Rand) string {
	s := ""
	for n := r.IntN(4); n >= 0; n-- {
		s += pick(r, idPieces)
	}
	return s
}

func confusingP(r *rand.Rand, pct int) *string {
	if chance(r, pct) {
		return sp(confusing(r))
	}
	return nil
}

func confusingCols(r *rand.Rand, dir bool) []IdxCol {
	var out []IdxCol
	for n := r.IntN(3); n >= 0; n-- {
		ic := IdxCol{Name: confusing(r)}
		if chance(r, 40) {
			ic.Len = sp(pick(r, []string{"1", "10", "0", "100", "2"}))
		}
		if dir {
			ic.Dir = pick(r, []string{"", "ASC", "DESC"})
		}
		out = append(out, ic)
	}
	return out
}

func confusingIndex(r *rand.Rand) (string, *Index) {
	x := &Index{Kind: pick(r, []string{"PRIMARY", "NORMAL", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN"}), Name: confusingP(r, 50), Symbol: confusingP(r, 50), Using: pick(r, []string{"", "BTREE", "HASH"}), Cols: confusingCols(r, true), Parser: confusingP(r, 20)}
	if chance(r, 40) {
		x.Ref = confusingRef(r)
	}
	return confusing(r), x
}

func confusingRef(r *rand.Rand) *Ref {
	act := []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
	return &Ref{Table: confusing(r), Cols: confusingCols(r, false), Match: pick(r, []string{"", "FULL", "PARTIAL", "SIMPLE"}), OnDelete: pick(r, act), OnUpdate: pick(r, act)}
}

// nudge changes a definition just a little, moving text between its parts.
func nudge(r *rand.Rand, table string, x *Index) (string, *Index) {
	y := x.clone()
	moveStr := func(a, b *string) {
		if len(*a) > 0 {
			k := r.IntN(len(*a)) + 1
			*b += (*a)[len(*a)-k:]
			*a = (*a)[:len(*a)-k]
		} else {
			*a, *b = *b, *a
		}
	}
	switch r.IntN(14) {
	case 0:
		y.Name, y.Symbol = y.Symbol, y.Name
	case 1:
		if len(y.Cols) > 1 {
			y.Cols[0], y.Cols[1] = y.Cols[1], y.Cols[0]
		}
	case 2: // two columns become one
		if len(y.Cols) > 1 {
			y.Cols[0].Name += pick(r, []string{"", ".", `"."`, "-", ","}) + y.Cols[1].Name
			y.Cols = append(y.Cols[:1:1], y.Cols[2:]...)
		}
	case 3: // the length becomes part of the name
		c := &y.Cols[r.IntN(len(y.Cols))]
		if c.Len != nil {
			c.Name += pick(r, []string{"-", "", "(", `"-`}) + *c.Len
			c.Len = nil
		} else {
			c.Len = sp("1")
		}
	case 4:
		if len(y.Cols) > 1 {
			moveStr(&y.Cols[0].Name, &y.Cols[1].Name)
		}
	case 5:
		if y.Name != nil && y.Symbol != nil {
			moveStr(y.Name, y.Symbol)
		} else if y.Name != nil && *y.Name == "" {
			y.Name = nil
		} else if y.Name == nil {
			y.Name = sp("")
		}
	case 6:
		if y.Symbol == nil {
			y.Symbol = sp(pick(r, []string{"none", "", `"none"`}))
		} else {
			y.Symbol = nil
		}
	case 7:
		c := &y.Cols[r.IntN(len(y.Cols))]
		c.Dir = pick(r, []string{"", "ASC", "DESC"})
	case 8:
		y.Using = pick(r, []string{"", "BTREE", "HASH"})
	case 9:
		y.Kind = pick(r, []string{"PRIMARY", "NORMAL", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN"})
	case 10:
		if y.Parser == nil {
			y.Parser = sp(pick(r, []string{"", "ngram", "a"}))
		} else {
			y.Parser = nil
		}
	case 11: // a column of the index becomes one of the reference
		if y.Ref != nil && len(y.Cols) > 1 {
			l := y.Cols[len(y.Cols)-1]
			l.Dir = ""
			y.Ref.Cols = append([]IdxCol{l}, y.Ref.Cols...)
			y.Cols = y.Cols[:len(y.Cols)-1]
		}
	case 12:
		if y.Ref != nil {
			y.Ref = nudgeRef(r, y.Ref)
		} else {
			y.Ref = &Ref{}
		}
	default:
		moveStr(&table, &y.Cols[0].Name)
	}
	return table, y
}

func nudgeRef(r *rand.Rand, x *Ref) *Ref {
	y := (&Index{Ref: x}).clone().Ref
	act := []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
	switch r.IntN(7) {
	case 0:
		y.OnDelete, y.OnUpdate = y.OnUpdate, y.OnDelete
	case 1:
		y.OnDelete = pick(r, act)
	case 2:
		y.OnUpdate = pick(r, act)
	case 3:
		y.Match = pick(r, []string{"", "FULL", "PARTIAL", "SIMPLE"})
	case 4:
		if len(y.Cols) > 1 {
			y.Cols[0], y.Cols[1] = y.Cols[1], y.Cols[0]
		} else if len(y.Cols) > 0 {
			y.Table, y.Cols[0].Name = y.Cols[0].Name, y.Table
		}
	case 5:
		if len(y.Cols) > 1 {
			y.Cols[0].Name += pick(r, []string{"", ".", `"`, `"."`}) + y.Cols[1].Name
			y.Cols = append(y.Cols[:1:1], y.Cols[2:]...)
		}
	default:
		if len(y.Cols) > 0 {
			y.Cols[len(y.Cols)-1].Name += y.Table
		}
		y.Table += "x"
	}
	return y
}

func seeIndex(c *Case, table string, x *Index) bool {
	c.Input(idxDef(table, x))
	m := buildIndex(x, table)
	id := m.ID()
	if id != m.ID() || id != m.Clone().ID() {
		c.Fail("unstable", "the identifier of %s changes", idxFP(x))
		return false
	}
	return c.W.ids("index").see(c, id, idxDef(table, x))
}

func init() {
	register(&Check{
		ID: "C22", Level: "exploration",
		Rule: "an input is one definition (index, reference, table, column, database) or one schema whose objects are looked up; distinct by definition; every identifier is compared with all those the worker has seen",
		Assumptions: []string{
			"ascending order is the default: ASC and no direction are the same definition",
			"directions inside REFERENCES (...) mean nothing and are left out",
		},
		Phases: []Phase{
			{Name: "grid", Quick: 1, Thorough: 1, Serial: true, Run: func(c *Case) {
				for _, table := range []string{"t", "u", "table#t", ""} {
					for _, x := range idxGrid {
						if !seeIndex(c, table, x) {
							return
						}
					}
				}
			}},
			{Name: "confusing", Quick: 60000, Thorough: 2500000, Run: func(c *Case) {
				table, x := confusingIndex(c.R)
				if !seeIndex(c, table, x) {
					return
				}
				for k := 0; k < 6; k++ {
					table, x = nudge(c.R, table, x)
					if !seeIndex(c, table, x) {
						return
					}
				}
			}},
			{Name: "wide", Quick: 6000, Thorough: 200000, Run: func(c *Case) {
				// a small change anywhere in an index of many columns
				r := c.R
				_, x := confusingIndex(r)
				x.Cols = nil
				for i, n := 0, 1+r.IntN(pick(r, []int{4, 8, 16, 17, 32, 33, 64, 65, 130, 300})); i < n; i++ {
					x.Cols = append(x.Cols, IdxCol{Name: fmt.Sprintf("c%d", i)})
				}
				if chance(r, 40) {
					x.Ref = confusingRef(r)
					x.Ref.Cols = append([]IdxCol(nil), x.Cols...)
				}
				c.Max("columns of an index", len(x.Cols))
				if !seeIndex(c, "t", x) {
					return
				}
				for k := 0; k < 4; k++ {
					y := x.clone()
					cols := &y.Cols
					if y.Ref != nil && chance(r, 50) {
						cols = &y.Ref.Cols
					}
					i := r.IntN(len(*cols))
					if chance(r, 40) {
						i = len(*cols) - 1
					}
					switch r.IntN(6) {
					case 0:
						(*cols)[i].Name += "x"
					case 1:
						(*cols)[i].Len = sp("7")
					case 2:
						if cols == &y.Cols { // it means nothing in a reference
							(*cols)[i].Dir = "DESC"
						}
					case 3:
						*cols = append((*cols)[:i:i], (*cols)[i+1:]...)
					case 4:
						*cols = append(*cols, (*cols)[i])
					case 5:
						j := r.IntN(len(*cols))
						(*cols)[i], (*cols)[j] = (*cols)[j], (*cols)[i]
					}
					if !seeIndex(c, "t", y) {
						return
					}
					if y.Ref != nil && !c.W.ids("reference").see(c, buildRef(y.Ref).ID(), refDef(y.Ref)) {
						return
					}
				}
			}},
			{Name: "references", Quick: 40000, Thorough: 1500000, Run: func(c *Case) {
				x := confusingRef(c.R)
				for k := 0; k < 6; k++ {
					c.Input("ref", refDef(x))
					if !c.W.ids("reference").see(c, buildRef(x).ID(), refDef(x)) {
						return
					}
					x = nudgeRef(c.R, x)
				}
			}},
			{Name: "edits", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
				cfg := &GenCfg{Tables: 1, Cols: 6, Idx: 6, Hostile: true}
				t := genTable(c.R, cfg, "t", nameSet{}, []string{"o", "p"})
				for _, x := range t.Idx {
					y := x.clone()
					ed := idxEdits[c.R.IntN(len(idxEdits))]
					ed.f(c.R, cfg, t, y)
					a, b := buildIndex(x, "table#t"), buildIndex(y, "table#t")
					same := idxDef("t", x) == idxDef("t", y)
					c.Input(idxFP(x), idxFP(y))
					c.Count("edited pairs compared")
					if same != (a.ID() == b.ID()) {
						c.Fail("pair", "same definition %v, same identifier %v (%s)\n%s\n%s", same, a.ID() == b.ID(), ed.name, idxFP(x), idxFP(y))
						return
					}
					if x.Ref != nil && y.Ref != nil && (refDef(x.Ref) == refDef(y.Ref)) != (a.Reference().ID() == b.Reference().ID()) {
						c.Fail("pair", "references: %s and %s", refDef(x.Ref), refDef(y.Ref))
						return
					}
				}
			}},
			{Name: "big", Quick: 3 * len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				// long names and long lists that differ in one place
				g := bigGrid[c.Index%len(bigGrid)]
				s := bigSchema(c.R, g)
				u, _ := bigEdit(c.R, s, g)
				c.Input(schemaFP(s), schemaFP(u))
				c.Feature("big: " + g.String())
				var all []*Table
				all = append(append(all, s.Tables...), u.Tables...)
				tabs, cols, idxs := map[string]string{}, map[string]string{}, map[string]string{}
				see := func(m map[string]string, id, def string) bool {
					c.Count("identifiers observed")
					if old, ok := m[id]; ok && old != def {
						c.Fail("collision", "one identifier %s for two definitions\n%s\n%s", clip(id), clip(old), clip(def))
						return false
					}
					m[id] = def
					return true
				}
				for _, t := range all {
					m := model.NewTable(t.Name)
					if !see(tabs, m.ID(), t.Name) {
						return
					}
					for _, x := range t.Cols {
						if !see(cols, model.NewTableColumn(x.Name).ID(), x.Name) {
							return
						}
					}
					for _, x := range t.Idx {
						b := buildIndex(x, m.ID())
						if !see(idxs, b.ID(), idxDef(t.Name, x)) {
							return
						}
						if r := b.Reference(); r != nil && !see(idxs, r.ID(), refDef(x.Ref)) {
							return
						}
					}
				}
				same := func(m map[string]string, what string) bool { // equal definitions, equal identifiers
					seen := map[string]string{}
					for id, def := range m {
						if old, ok := seen[def]; ok && !strings.HasPrefix(def, "ref") && old != id {
							c.Fail("split", "two identifiers for one %s %s\n%s\n%s", what, clip(def), clip(old), clip(id))
							return false
						}
						seen[def] = id
					}
					return true
				}
				_ = same(tabs, "table") && same(cols, "column") && same(idxs, "index")
			}},
			{Name: "names", Quick: 20000, Thorough: 500000, Run: func(c *Case) {
				n := confusing(c.R)
				if chance(c.R, 30) {
					n = pick(c.R, hostileNames)
				}
				c.Input("name", n)
				t := model.NewTable(n)
				t2 := model.NewTable(n)
				t2.SetTemporary(true).SetIfNotExists(true).SetLikeTable("z").AddColumn(model.NewTableColumn("q"))
				col, col2 := model.NewTableColumn(n), model.NewTableColumn(n)
				col2.SetType(model.ColumnTypeBlob).SetNullState(model.NullStateNotNull)
				col2.SetTableID("table#other")
				d, d2 := model.NewDatabase(n), model.NewDatabase(n)
				d2.SetIfNotExists(true)
				// tables and databases stand in the same list of statements
				ids := c.W.ids("statement")
				if !ids.see(c, t.ID(), fmt.Sprintf("table %q", n)) || !ids.see(c, t2.ID(), fmt.Sprintf("table %q", n)) || !ids.see(c, d.ID(), fmt.Sprintf("database %q", n)) ||
					!ids.see(c, d2.ID(), fmt.Sprintf("database %q", n)) {
					return
				}
				cols := c.W.ids("column")
				if !cols.see(c, col.ID(), n) || !cols.see(c, col2.ID(), n) {
					return
				}
			}},
			{Name: "lookups", Quick: 6000, Thorough: 200000, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 5, Cols: 8, Idx: 6, Hostile: true, Like: true, Wide: true})
				if c.Index%50 == 0 {
					s = bigSchema(c.R, pick(c.R, bigGrid))
				}
				var stmts model.Stmts
				if chance(c.R, 50) {
					var err error
					text := plainSQL(s)
					c.Input(text)
					c.Sample(text)
					if stmts, err = newParser(text).ParseString(text); err != nil {
						c.Fail("rejected", "%v\n%s", err, text)
						return
					}
				} else {
					c.Input(schemaFP(s))
					for _, t := range s.Tables {
						stmts = append(stmts, buildTable(t))
					}
					if chance(c.R, 30) {
						stmts = append(stmts, model.NewDatabase(s.Tables[0].Name))
					}
				}
				for _, st := range stmts {
					got, ok := stmts.Lookup(st.ID())
					c.Count("look-ups")
					if !ok || got != st {
						c.Fail("lookup", "statement %q: found %v, other object %v", st.ID(), ok, got != st)
						return
					}
					t, isTable := st.(model.Table)
					if !isTable {
						continue
					}
					for col := range t.Columns() {
						got, ok := t.LookupColumn(col.ID())
						c.Count("look-ups")
						if !ok || got != col {
							c.Fail("lookup", "column %q: found %v, other object %v", col.ID(), ok, got != col)
							return
						}
					}
					seen := map[string]int{}
					for x := range t.Indexes() {
						seen[x.ID()]++
					}
					for x := range t.Indexes() {
						got, ok := t.LookupIndex(x.ID())
						c.Count("look-ups")
						if !ok || got != x && seen[x.ID()] == 1 {
							c.Fail("lookup", "index %q: found %v, other object %v", x.ID(), ok, got != x)
							return
						}
					}
					for _, miss := range []string{t.ID() + "x", "", t.Name(), strings.ToUpper(t.ID()) + " "} {
						if _, ok := t.LookupColumn("tablecol#nosuch" + miss); ok {
							c.Fail("lookup", "found a column for %q", miss)
							return
						}
						if _, ok := t.LookupIndex(miss); ok {
							c.Fail("lookup", "found an index for %q", miss)
							return
						}
						if _, ok := stmts.Lookup("nosuch" + miss); ok {
							c.Fail("lookup", "found a statement for %q", miss)
							return
						}
					}
				}
			}},
		},
	})
}
