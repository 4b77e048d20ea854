package main

// A small DDL executor: it applies the statements of a migration, one after
// the other, to an abstract schema and complains about a statement that can
// not be executed where it stands.

import (
	"fmt"
	"sort"
	"strings"
)

type DB struct {
	Tables []*Table // normalized
	later  []*Stmt
}

func newDB(s *Schema) *DB { return &DB{Tables: normSchema(s).Tables} }

func (db *DB) table(name string) *Table {
	for _, t := range db.Tables {
		if t.Name == name {
			return t
		}
	}
	return nil
}

// idxName is the name an index other than a foreign key goes by ("" = none).
func idxName(x *Index) string {
	if x.Kind == "PRIMARY" {
		return ""
	}
	if x.Name != nil {
		return *x.Name
	}
	if x.Symbol != nil {
		return *x.Symbol
	}
	return ""
}

// fkName is the name a foreign key is dropped by.
func fkName(x *Index) string {
	if x.Symbol != nil {
		return *x.Symbol
	}
	if x.Name != nil {
		return *x.Name
	}
	return ""
}

func (t *Table) findIdx(name string) int {
	for i, x := range t.Idx {
		if x.Kind != "FOREIGN" && x.Kind != "PRIMARY" && idxName(x) == name && name != "" {
			return i
		}
	}
	return -1
}

func (t *Table) findFK(name string) int {
	for i, x := range t.Idx {
		if x.Kind == "FOREIGN" && fkName(x) == name && name != "" {
			return i
		}
	}
	return -1
}

func (t *Table) findPK() int {
	for i, x := range t.Idx {
		if x.Kind == "PRIMARY" {
			return i
		}
	}
	return -1
}

func (t *Table) colAt(name string) int {
	for i, c := range t.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

func (db *DB) checkIdxCols(t *Table, x *Index) error {
	for _, c := range x.Cols {
		if t.colAt(c.Name) < 0 {
			return fmt.Errorf("index on column %q, which does not exist", c.Name)
		}
	}
	return nil
}

// addIndex adds an index and what comes with it.
func (db *DB) addIndex(t *Table, x *Index) error {
	if err := db.checkIdxCols(t, x); err != nil {
		return err
	}
	switch x.Kind {
	case "PRIMARY":
		if t.findPK() >= 0 {
			return fmt.Errorf("second primary key")
		}
	case "FOREIGN":
		if n := fkName(x); n != "" && t.findFK(n) >= 0 {
			return fmt.Errorf("foreign key %q exists already", n)
		}
		if x.Symbol != nil && t.findIdx(*x.Symbol) < 0 {
			t.Idx = append(t.Idx, &Index{Kind: "NORMAL", Name: sp(*x.Symbol), Cols: cloneIC(x.Cols)})
		}
	default:
		if n := idxName(x); n != "" && t.findIdx(n) >= 0 {
			return fmt.Errorf("index %q exists already", n)
		}
	}
	t.Idx = append(t.Idx, x.clone())
	return nil
}

// exec executes one statement; rest are the statements after it.
func (db *DB) exec(s *Stmt, rest []*Stmt) error {
	switch {
	case s.Op == "BEGIN" || s.Op == "COMMIT" || strings.HasPrefix(s.Op, "SET "):
		return nil
	case s.Op == "DROP":
		for i, t := range db.Tables {
			if t.Name == s.Table {
				db.Tables = append(db.Tables[:i:i], db.Tables[i+1:]...)
				return nil
			}
		}
		return fmt.Errorf("table %q does not exist", s.Table)
	case s.Op == "CREATE":
		if db.table(s.Table) != nil {
			return fmt.Errorf("table %q exists already", s.Table)
		}
		if s.Create.Like != nil {
			if db.table(*s.Create.Like) == nil {
				return fmt.Errorf("table %q is like %q, which does not exist (yet)", s.Table, *s.Create.Like)
			}
		} else {
			seen := map[string]bool{}
			for _, c := range s.Create.Cols {
				if seen[c.Name] {
					return fmt.Errorf("column %q twice", c.Name)
				}
				seen[c.Name] = true
			}
			for _, x := range s.Create.Idx {
				if err := db.checkIdxCols(s.Create, x); err != nil {
					return err
				}
			}
			names := map[string]bool{}
			for _, x := range normTable(s.Create).Idx {
				n := "I" + idxName(x)
				if x.Kind == "FOREIGN" {
					n = "F" + fkName(x)
				} else if x.Kind == "PRIMARY" {
					n = "PRIMARY"
				}
				if len(n) > 1 {
					if names[n] {
						return fmt.Errorf("key %q twice", n)
					}
					names[n] = true
				}
			}
		}
		db.Tables = append(db.Tables, normTable(s.Create))
		return nil
	}
	t := db.table(s.Table)
	if t == nil {
		return fmt.Errorf("table %q does not exist", s.Table)
	}
	switch s.Alter {
	case "DROP COLUMN":
		at := t.colAt(s.Name)
		if at < 0 {
			return fmt.Errorf("column %q does not exist", s.Name)
		}
		if len(t.Cols) == 1 {
			return fmt.Errorf("column %q is the last column of the table", s.Name)
		}
		t.Cols = append(t.Cols[:at:at], t.Cols[at+1:]...)
		var idx []*Index
		for _, x := range t.Idx {
			var keep []IdxCol
			for _, c := range x.Cols {
				if c.Name != s.Name {
					keep = append(keep, c)
				}
			}
			if len(keep) != len(x.Cols) && x.Kind == "FOREIGN" {
				return fmt.Errorf("column %q is part of foreign key %q", s.Name, fkName(x))
			}
			x.Cols = keep
			if len(keep) > 0 {
				idx = append(idx, x)
			}
		}
		t.Idx = idx
	case "ADD COLUMN", "CHANGE COLUMN":
		at := t.colAt(s.Name)
		if s.Alter == "ADD COLUMN" {
			if at >= 0 {
				return fmt.Errorf("column %q exists already", s.Name)
			}
		} else {
			if at < 0 {
				return fmt.Errorf("column %q does not exist", s.Name)
			}
			if s.Col.Name != s.Name && t.colAt(s.Col.Name) >= 0 {
				return fmt.Errorf("column %q exists already", s.Col.Name)
			}
		}
		n := normCol(s.Col)
		if n.Primary || n.Key || n.Unique {
			// what stands in a column definition makes an index
			if n.Primary || n.Key {
				n.Primary, n.Key = false, false
				if t.findPK() >= 0 {
					return fmt.Errorf("second primary key")
				}
				t.Idx = append(t.Idx, &Index{Kind: "PRIMARY", Cols: []IdxCol{{Name: n.Name}}})
			}
			if n.Unique {
				n.Unique = false
				t.Idx = append(t.Idx, &Index{Kind: "UNIQUE", Name: sp(n.Name), Cols: []IdxCol{{Name: n.Name}}})
			}
		}
		if s.Alter == "CHANGE COLUMN" && !s.First && s.After == nil {
			t.Cols[at] = n
			break
		}
		if at >= 0 {
			t.Cols = append(t.Cols[:at:at], t.Cols[at+1:]...)
		}
		pos := len(t.Cols)
		if s.First {
			pos = 0
		} else if s.After != nil {
			if pos = t.colAt(*s.After) + 1; pos == 0 {
				return fmt.Errorf("after column %q, which does not exist", *s.After)
			}
		}
		t.Cols = append(t.Cols[:pos:pos], append([]*Col{n}, t.Cols[pos:]...)...)
	case "DROP PRIMARY KEY":
		at := t.findPK()
		if at < 0 {
			return fmt.Errorf("there is no primary key")
		}
		t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
	case "DROP FOREIGN KEY":
		at := t.findFK(s.Name)
		if at < 0 {
			return fmt.Errorf("foreign key %q does not exist", s.Name)
		}
		t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
	case "DROP INDEX":
		at := t.findIdx(s.Name)
		if at < 0 {
			return fmt.Errorf("index %q does not exist", s.Name)
		}
		if fk := t.findFK(s.Name); fk >= 0 && t.Idx[fk].Symbol != nil {
			for _, l := range rest {
				if l.Alter == "DROP FOREIGN KEY" && l.Table == s.Table && l.Name == s.Name {
					return fmt.Errorf("index %q is dropped before the foreign key it belongs to", s.Name)
				}
			}
		}
		t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
	case "ADD INDEX":
		return db.addIndex(t, s.Idx)
	default:
		return fmt.Errorf("unknown statement")
	}
	return nil
}

// run executes a whole migration.
func (db *DB) run(stmts []*Stmt) error {
	for i, s := range stmts {
		if err := db.exec(s, stmts[i+1:]); err != nil {
			return fmt.Errorf("statement %d (%s): %v", i+1, s.Text, err)
		}
	}
	return nil
}

func sortedIdx(t *Table) []string {
	var out []string
	for _, x := range t.Idx {
		out = append(out, idxFP(x))
	}
	sort.Strings(out)
	return out
}

// compareDB says how a migrated database differs from the schema wanted.
func compareDB(db *DB, from, to *Schema) error {
	nf, nt := normSchema(from), normSchema(to)
	for _, t := range db.Tables {
		if nt.table(t.Name) == nil {
			return fmt.Errorf("table %q is left over", t.Name)
		}
	}
	for _, want := range nt.Tables {
		got := db.table(want.Name)
		if got == nil {
			return fmt.Errorf("table %q is missing", want.Name)
		}
		old := nf.table(want.Name)
		if old == nil {
			if a, b := tableFPx(got), tableFPx(want); a != b {
				return fmt.Errorf("created table differs:\ngot  %swant %s", a, b)
			}
			continue
		}
		if want.Like != nil || old.Like != nil {
			continue
		}
		for _, c := range got.Cols {
			if want.col(c.Name) == nil {
				return fmt.Errorf("column %q.%q is left over", want.Name, c.Name)
			}
		}
		for i, c := range want.Cols {
			g := got.col(c.Name)
			if g == nil {
				return fmt.Errorf("column %q.%q is missing", want.Name, c.Name)
			}
			if a, b := colFP(g), colFP(c); a != b {
				return fmt.Errorf("column differs in table %q:\ngot  %s\nwant %s", want.Name, a, b)
			}
			if old.col(c.Name) == nil {
				at := got.colAt(c.Name)
				a, b := "(first)", "(first)"
				if at > 0 {
					a = got.Cols[at-1].Name
				}
				if i > 0 {
					b = want.Cols[i-1].Name
				}
				if a != b {
					return fmt.Errorf("added column %q.%q stands after %q, not after %q", want.Name, c.Name, a, b)
				}
			}
		}
		a, b := strings.Join(sortedIdx(got), "\n     "), strings.Join(sortedIdx(want), "\n     ")
		if a != b {
			return fmt.Errorf("indexes of table %q differ:\ngot  %s\nwant %s", want.Name, a, b)
		}
	}
	return nil
}

// tableFPx is tableFP with the indexes in a fixed order.
func tableFPx(t *Table) string {
	n := t.clone()
	sort.SliceStable(n.Idx, func(i, j int) bool { return idxFP(n.Idx[i]) < idxFP(n.Idx[j]) })
	return tableFP(n)
}

// mustFail says whether an index without a name would have to be dropped.
func mustFail(from, to *Schema) (bool, string) {
	nf, nt := normSchema(from), normSchema(to)
	for _, f := range nf.Tables {
		t := nt.table(f.Name)
		if t == nil {
			continue
		}
		have := map[string]bool{}
		for _, x := range t.Idx {
			have[idxFP(x)] = true
		}
		for _, x := range f.Idx {
			if x.Kind != "PRIMARY" && x.Name == nil && x.Symbol == nil && !have[idxFP(x)] {
				return true, fmt.Sprintf("table %q index %s", f.Name, idxFP(x))
			}
		}
	}
	return false, ""
}
