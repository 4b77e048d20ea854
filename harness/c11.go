package main

import (
	"fmt"
	"sort"
	"strings"
)

// C11, C12 and C13: the diff is read back with the harness's own SQL reader
// and executed on the old schema.

// migration is one diff that was produced and read back.
type migration struct {
	From, To         *Schema
	FromText, ToText string
	Kinds            []string
	Out              string
	Stmts            []*Stmt
	MustFail         bool
	Why              string
	Err              error
}

func (m *migration) String() string {
	return fmt.Sprintf("edits %s\n--- from\n%s\n--- to\n%s\n--- diff\n%s", strings.Join(m.Kinds, ", "), m.FromText, m.ToText, m.Out)
}

// migrate diffs two schemas. The second result is false when there is nothing
// more to look at.
func migrate(c *Case, from, to *Schema, kinds []string, st func() *Style) (*migration, bool) {
	m := &migration{From: from, To: to, Kinds: kinds}
	m.FromText, m.ToText = render(from, st()).Text, render(to, st()).Text
	c.Input(m.FromText, m.ToText)
	m.MustFail, m.Why = mustFail(from, to)
	m.Out, m.Err = diffStrings(m.FromText, m.ToText)
	c.Count("diffs")
	if m.Err != nil {
		c.Count("diffs refused")
		return m, true
	}
	stmts, err := parseSQL(m.Out)
	if err != nil {
		c.Fail("unreadable", "the diff can not be read: %v\n%s", err, m)
		return m, false
	}
	m.Stmts = stmts
	for _, s := range stmts {
		c.Count("statements: " + s.Op + " " + s.Alter)
	}
	c.Max("statements in a diff", len(stmts))
	return m, true
}

// checkResult is C11.
func checkResult(c *Case, m *migration) bool {
	switch {
	case m.Err != nil && !m.MustFail:
		c.Fail("refused", "no diff is given (%v), although no index without a name goes\n%s", m.Err, m)
		return false
	case m.Err == nil && m.MustFail:
		c.Fail("not-refused", "a diff is given, although an index without a name would have to be dropped: %s\n%s", m.Why, m)
		return false
	case m.Err != nil:
		return true
	}
	db := newDB(m.From)
	if err := db.run(m.Stmts); err != nil {
		c.Fail("execution", "%v\n%s", err, m)
		return false
	}
	c.CountN("statements executed", len(m.Stmts))
	if err := compareDB(db, m.From, m.To); err != nil {
		c.Fail("result", "%v\n%s", err, m)
		return false
	}
	return true
}

// checkSequence is C12.
func checkSequence(c *Case, m *migration) bool {
	if m.Err != nil {
		return true
	}
	db := newDB(m.From)
	for i, s := range m.Stmts {
		if !s.Semi {
			c.Fail("semicolon", "statement %d has no semicolon: %s\n%s", i+1, s.Text, m)
			return false
		}
		if i > 0 && !strings.Contains(m.Out[m.Stmts[i-1].End:s.Start], "\n") {
			c.Fail("line", "statement %d does not start on a line of its own: %s\n%s", i+1, s.Text, m)
			return false
		}
		if err := db.exec(s, m.Stmts[i+1:]); err != nil {
			c.Fail("execution", "statement %d can not be executed: %v\n%s\n%s", i+1, err, s.Text, m)
			return false
		}
		c.Count("statements executed")
	}
	return true
}

// checkMinimal is C13.
func checkMinimal(c *Case, m *migration) bool {
	if m.Err != nil {
		return true
	}
	nf, nt := normSchema(m.From), normSchema(m.To)
	touched := map[string]int{}
	fail := func(s *Stmt, format string, args ...interface{}) bool {
		c.Fail("not-minimal", "%s: %s\n%s", s.Text, fmt.Sprintf(format, args...), m)
		return false
	}
	for _, s := range m.Stmts {
		f, t := nf.table(s.Table), nt.table(s.Table)
		var what string
		switch s.Op {
		case "CREATE":
			if f != nil {
				return fail(s, "the table exists in the old schema")
			}
			what = "create table"
		case "DROP":
			if t != nil {
				return fail(s, "the table exists in the new schema")
			}
			what = "drop table"
		default:
			if f == nil || t == nil {
				return fail(s, "the table does not exist on both sides")
			}
			hasIdx := func(t *Table, fp string) bool {
				for _, x := range t.Idx {
					if idxFP(x) == fp {
						return true
					}
				}
				return false
			}
			switch s.Alter {
			case "ADD COLUMN":
				if f.col(s.Name) != nil {
					return fail(s, "the old table has the column")
				}
				what = "column " + s.Name
			case "DROP COLUMN":
				if t.col(s.Name) != nil {
					return fail(s, "the new table has the column")
				}
				what = "column " + s.Name
			case "CHANGE COLUMN":
				a, b := f.col(s.Name), t.col(s.Name)
				if a == nil || b == nil {
					return fail(s, "the column does not exist on both sides")
				}
				if s.Col.Name != s.Name {
					return fail(s, "the column is renamed")
				}
				if colFP(a) == colFP(b) {
					return fail(s, "the column is the same on both sides")
				}
				what = "column " + s.Name
			case "ADD INDEX":
				fp := idxFP(s.Idx)
				if hasIdx(f, fp) {
					return fail(s, "the old table has the index")
				}
				if !hasIdx(t, fp) {
					return fail(s, "the new table does not have such an index")
				}
				what = "add index " + fp
			case "DROP PRIMARY KEY", "DROP FOREIGN KEY", "DROP INDEX":
				at := -1
				switch s.Alter {
				case "DROP PRIMARY KEY":
					at = f.findPK()
				case "DROP FOREIGN KEY":
					at = f.findFK(s.Name)
				default:
					at = f.findIdx(s.Name)
				}
				if at < 0 {
					return fail(s, "the old table has no such index")
				}
				if hasIdx(t, idxFP(f.Idx[at])) {
					return fail(s, "the new table has the index as well")
				}
				what = "drop index " + idxFP(f.Idx[at])
			default:
				return fail(s, "unexpected statement")
			}
		}
		key := s.Table + "\x00" + what
		if touched[key]++; touched[key] > 1 {
			return fail(s, "touched for the second time")
		}
		c.Count("statements judged")
	}
	return true
}

// arrangements are all sequences of distinct columns out of n, but the empty one.
func arrangements(n int) [][]int {
	var out [][]int
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) > 0 {
			out = append(out, append([]int(nil), cur...))
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	sort.SliceStable(out, func(i, j int) bool { return len(out[i]) < len(out[j]) })
	return out
}

// names chosen so that their alphabetical order is none of the usual ones
var arrNames = []string{"m", "b", "z", "a", "k`", "Q"}

func arrTable(a []int) *Table {
	t := &Table{Name: "t"}
	for _, i := range a {
		t.Cols = append(t.Cols, &Col{Name: arrNames[i], Type: "INT"})
	}
	return t
}

var arr4 = arrangements(4)
var arr5 = arrangements(5)
var arr6 = arrangements(6)

// indexUniverse are the indexes whose sets are migrated into each other.
func indexUniverse() []*Index {
	c := func(n ...string) (l []IdxCol) {
		for _, x := range n {
			l = append(l, IdxCol{Name: x})
		}
		return
	}
	ref := func(t string) *Ref { return &Ref{Table: t, Cols: c("id")} }
	return []*Index{
		{Kind: "PRIMARY", Cols: c("a")},
		{Kind: "PRIMARY", Cols: c("a", "b")},
		{Kind: "NORMAL", Name: sp("k"), Cols: c("a")},
		{Kind: "NORMAL", Name: sp("k"), Cols: c("b")},
		{Kind: "NORMAL", Name: sp("k"), Cols: c("a"), Using: "BTREE"},
		{Kind: "UNIQUE", Name: sp("k"), Cols: c("a")},
		{Kind: "UNIQUE", Name: sp("u"), Cols: c("b"), Symbol: sp("us")},
		{Kind: "UNIQUE", Symbol: sp("us"), Cols: c("b")},
		{Kind: "FULLTEXT", Name: sp("ft"), Cols: c("b")},
		{Kind: "FULLTEXT", Name: sp("ft"), Cols: c("b"), Parser: sp("ngram")},
		{Kind: "FOREIGN", Symbol: sp("fk"), Cols: c("a"), Ref: ref("p")},
		{Kind: "FOREIGN", Symbol: sp("fk"), Cols: c("a"), Ref: ref("q")},
		{Kind: "FOREIGN", Symbol: sp("fk"), Cols: c("b"), Ref: ref("p")},
		{Kind: "FOREIGN", Symbol: sp("fk2"), Cols: c("a"), Ref: ref("p")},
		{Kind: "NORMAL", Name: sp("fk"), Cols: c("a")},
		{Kind: "UNIQUE", Symbol: sp("fk"), Cols: c("a")},
		{Kind: "PRIMARY", Name: sp("fk"), Cols: c("a")},
		{Kind: "UNIQUE", Name: sp("fk"), Cols: c("a")},
		{Kind: "FOREIGN", Name: sp("fn"), Cols: c("a"), Ref: ref("p")},
		{Kind: "NORMAL", Cols: c("a")},
		{Kind: "FOREIGN", Cols: c("b"), Ref: ref("p")},
	}
}

// indexSets are all valid sets of up to n indexes of the universe.
func indexSets(n int) []*Table {
	u := indexUniverse()
	var out []*Table
	var rec func(from int, cur []*Index)
	rec = func(from int, cur []*Index) {
		t := &Table{Name: "t", Cols: []*Col{{Name: "a", Type: "INT"}, {Name: "b", Type: "TEXT"}, {Name: "c", Type: "INT"}}}
		for _, x := range cur {
			t.Idx = append(t.Idx, x.clone())
		}
		if validTable(t) {
			out = append(out, t)
		}
		if len(cur) == n {
			return
		}
		for i := from; i < len(u); i++ {
			rec(i+1, append(cur[:len(cur):len(cur)], u[i]))
		}
	}
	rec(0, nil)
	return out
}

var idxSets2 = indexSets(2)
var idxSets3 = indexSets(3)

var migrationGrid = indexGrid()

func migrationPhases(check func(c *Case, m *migration) bool) []Phase {
	one := func(c *Case, from, to *Schema, kinds []string, st func() *Style) {
		m, ok := migrate(c, from, to, kinds, st)
		if ok {
			check(c, m)
		}
	}
	tab := func(ts ...*Table) *Schema { return &Schema{Tables: ts} }
	phases := []Phase{
		{Name: "column-arrangements", Quick: len(arr4) * len(arr4), Thorough: len(arr5) * len(arr5), Run: func(c *Case) {
			arr := arr4
			if c.W.Tier == "thorough" {
				arr = arr5
			}
			a, b := arr[c.Index/len(arr)], arr[c.Index%len(arr)]
			one(c, tab(arrTable(a)), tab(arrTable(b)), []string{"arrangement"}, plainStyle)
		}},
		{Name: "long-arrangements", Quick: 4000, Thorough: 300000, Run: func(c *Case) {
			a, b := pick(c.R, arr6), pick(c.R, arr6)
			from, to := arrTable(a), arrTable(b)
			for _, t := range []*Table{from, to} {
				for _, col := range t.Cols {
					if chance(c.R, 20) {
						col.Type = "TEXT"
					}
				}
			}
			one(c, tab(from), tab(to), []string{"arrangement"}, plainStyle)
		}},
		{Name: "index-sets", Quick: len(idxSets2) * len(idxSets2), Thorough: len(idxSets3) * len(idxSets3), Run: func(c *Case) {
			l := idxSets2
			if c.W.Tier == "thorough" {
				l = idxSets3
			}
			a, b := l[c.Index/len(l)].clone(), l[c.Index%len(l)].clone()
			if chance(c.R, 30) {
				c.R.Shuffle(len(a.Idx), func(i, j int) { a.Idx[i], a.Idx[j] = a.Idx[j], a.Idx[i] })
			}
			one(c, tab(a), tab(b), []string{"index sets"}, plainStyle)
		}},
		{Name: "large-index-sets", Quick: 5000, Thorough: 100000, Run: func(c *Case) {
			a, b := pick(c.R, idxSets3).clone(), pick(c.R, idxSets3).clone()
			// columns go and come along with the indexes
			for _, t := range []*Table{a, b} {
				c.R.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
				if chance(c.R, 30) {
					t.dropCol(t.colAt(pick(c.R, []string{"a", "b", "c"})))
				}
				if chance(c.R, 30) {
					c.R.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
				}
			}
			if !validTable(a) || !validTable(b) {
				return
			}
			one(c, tab(a), tab(b), []string{"index sets and columns"}, plainStyle)
		}},
		{Name: "column-definitions", Quick: len(types) * len(colAttrs), Thorough: len(types) * len(colAttrs), Run: func(c *Case) {
			typ := types[c.Index/len(colAttrs)].Name
			z := &Col{Name: "z", Type: "INT"}
			i := c.Index % len(colAttrs)
			l := attrCols(typ, i)
			for k, b := range l {
				a := pick(c.R, l)
				if k%3 == 0 {
					a = baseCol("c", typ)
				} else if k%3 == 1 {
					a = pick(c.R, append(attrCols(pick(c.R, types).Name, c.R.IntN(len(colAttrs))), baseCol("c", typ)))
				}
				if chance(c.R, 50) {
					a, b = b, a
				}
				one(c, tab(&Table{Name: "t", Cols: []*Col{a, z}}), tab(&Table{Name: "t", Cols: []*Col{b, z}}), []string{"column definitions"}, plainStyle)
			}
		}},
		{Name: "index-definitions", Quick: len(migrationGrid), Thorough: len(migrationGrid) * 20, Run: func(c *Case) {
			t := func(x *Index) *Table {
				return &Table{Name: "t", Cols: []*Col{{Name: "a", Type: "TEXT"}, {Name: "b", Type: "TEXT"}, {Name: "c", Type: "TEXT"}}, Idx: []*Index{x.clone()}}
			}
			i := c.Index % len(migrationGrid)
			j := c.R.IntN(len(migrationGrid))
			if chance(c.R, 70) {
				j = (i + 1 + c.R.IntN(12)) % len(migrationGrid)
			}
			a, b := t(migrationGrid[i]), t(migrationGrid[j])
			if !validTable(a) || !validTable(b) {
				return
			}
			one(c, tab(a), tab(b), []string{"index definitions"}, plainStyle)
		}},
		{Name: "random-pairs", Quick: 20000, Thorough: 600000, Run: func(c *Case) {
			from, to, kinds := genPair(c.R, &GenCfg{Tables: 3, Cols: 5, Idx: 4, Hostile: chance(c.R, 40), Like: true})
			if !columnPair(from, to) {
				c.Count("pairs with a LIKE table on both sides left out")
				return
			}
			for _, k := range kinds {
				c.Feature("edit: " + k)
			}
			st := plainStyle
			if chance(c.R, 30) {
				st = func() *Style { return wildStyle(c.R) }
			}
			m, ok := migrate(c, from, to, kinds, st)
			if ok && check(c, m) {
				c.Sample(m.String())
			}
		}},
		{Name: "wide-tables", Quick: 300, Thorough: 20000, Run: func(c *Case) {
			from, to, kinds := genPair(c.R, &GenCfg{Tables: 2, Cols: 30, Idx: 15, Wide: true})
			if columnPair(from, to) {
				one(c, from, to, kinds, plainStyle)
			}
		}},
		{Name: "big", Quick: 2 * len(bigPairGrid), Thorough: 100 * len(bigPairGrid), Run: func(c *Case) {
			g := bigPairGrid[c.Index%len(bigPairGrid)]
			from, to, kinds := bigPair(c.R, g)
			c.Feature("big: " + g.String())
			for _, k := range kinds {
				c.Feature(k)
			}
			one(c, from, to, kinds, plainStyle)
		}},
		{Name: "many-tables", Quick: 100, Thorough: 5000, Run: func(c *Case) {
			from, to, kinds := genPair(c.R, &GenCfg{Tables: 25, Cols: 3, Idx: 2, Like: true})
			if columnPair(from, to) {
				one(c, from, to, kinds, plainStyle)
			}
		}},
	}
	return phases
}

var migrationAssumptions = []string{
	"the harness's interpreter of DROP/CREATE/ALTER TABLE knows tables, columns, indexes, foreign keys and the index a named foreign key brings with it; AUTO_INCREMENT needing a key and the order of foreign keys across tables are not modelled",
	"names are compared exactly; a foreign key without a symbol goes by its index name",
}

func init() {
	register(&Check{ID: "C11", Level: "exploration",
		Rule:        "a case is a pair of schemas (enumerated column arrangements and index sets, random schemas and edits of them); distinct by texts; non-trivial because the printed diff is executed and the outcome compared, or its refusal judged",
		Assumptions: migrationAssumptions, Phases: migrationPhases(checkResult)})
}
