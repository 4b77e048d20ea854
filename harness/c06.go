package main

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/model"
)

// C06: normalization, watched from outside: the receiver before and after,
// the result, the flag, and the result of doing it again.

// rawCol writes out every observable of a column, without any folding.
func rawCol(c model.TableColumn) string {
	x := exCol(c)
	d := "-"
	if x.Def != nil {
		d = fmt.Sprintf("%s:%q", x.Def.Kind, x.Def.Val)
	}
	return fmt.Sprintf("%s|%s|%q|%s|len%s.%s|u%v z%v b%v|cs%s co%s|n%d|d%s|ou%s|ai%v uq%v pk%v k%v|cm%s|%q", c.ID(), c.TableID(), x.Name, x.Type, optq(x.Len), optq(x.Dec),
		x.Unsigned, x.Zerofill, x.Binary, optq(x.Charset), optq(x.Collate), x.Null, d, optq(x.OnUpdate), x.AutoInc, x.Unique, x.Primary, x.Key, optq(x.Comment), x.Vals)
}

func rawIdx(x model.Index) string { return x.ID() + "|" + idxRawFP(exIndex(x)) }

// idxRawFP is idxFP with the directions as they are.
func idxRawFP(x *Index) string {
	s := idxFP(x)
	for _, c := range x.Cols {
		s += "," + c.Dir
	}
	if x.Ref != nil {
		for _, c := range x.Ref.Cols {
			s += "," + c.Dir
		}
	}
	return s
}

// rawTable writes out every observable of a table.
func rawTable(t model.Table) string {
	var b strings.Builder
	like := "-"
	if t.HasLikeTable() {
		like = fmt.Sprintf("%q", t.LikeTable())
	}
	fmt.Fprintf(&b, "%s|%q|temp=%v|ifnot=%v|like=%s\n", t.ID(), t.Name(), t.IsTemporary(), t.IsIfNotExists(), like)
	for c := range t.Columns() {
		b.WriteString(rawCol(c) + "\n")
	}
	for x := range t.Indexes() {
		b.WriteString(rawIdx(x) + "\n")
	}
	for o := range t.Options() {
		fmt.Fprintf(&b, "%q=%v:%q\n", o.Key(), o.NeedQuotes(), o.Value())
	}
	return b.String()
}

// normColumn watches the normalization of one column.
func normColumn(c *Case, col *Col) bool {
	return normColumnOf(c, col, "table#owner") && normColumnOf(c, col, "")
}

func normColumnOf(c *Case, col *Col, owner string) bool {
	m := buildCol(col)
	if owner != "" {
		m.SetTableID(owner)
	}
	before := rawCol(m)
	n, modified := m.Normalize()
	c.Count("column normalizations")
	if after := rawCol(m); after != before {
		c.Fail("receiver", "normalizing modified the receiver\nbefore %s\nafter  %s", before, after)
		return false
	}
	got := rawCol(n)
	want := normCol(col)
	if g, w := colFP(exCol(n)), colFP(want); g != w {
		c.Fail("canonical", "normal form of %s\ngot  %s\nwant %s", colFP(col), g, w)
		return false
	}
	if n.TableID() != owner || n.Name() != col.Name {
		c.Fail("owner", "the normal form of %s belongs to %q", colFP(col), n.TableID())
		return false
	}
	if modified != (got != before) {
		c.Fail("flag", "modified=%v\nbefore %s\nresult %s", modified, before, got)
		return false
	}
	if !modified && n != m {
		c.Fail("flag", "not modified, but another object is returned: %s", before)
		return false
	}
	if modified {
		c.Count("columns modified")
	} else {
		c.Count("columns already normal")
	}
	n2, again := n.Normalize()
	if g2 := rawCol(n2); g2 != got || again {
		c.Fail("idempotent", "normalizing twice (modified=%v)\nonce  %s\ntwice %s", again, got, g2)
		return false
	}
	if after := rawCol(n); after != got {
		c.Fail("receiver", "normalizing again modified the receiver\nbefore %s\nafter  %s", got, after)
		return false
	}
	return true
}

// normTableModel watches the normalization of one table.
func normTableModel(c *Case, m model.Table, want string) bool {
	before := rawTable(m)
	var cols []model.TableColumn
	for x := range m.Columns() {
		cols = append(cols, x)
	}
	n, modified := m.Normalize()
	c.Count("table normalizations")
	if after := rawTable(m); after != before {
		c.Fail("receiver", "normalizing modified the receiver\n%s", firstDiff(after, before))
		return false
	}
	i := 0
	for x := range m.Columns() {
		if x != cols[i] {
			c.Fail("receiver", "column %d of the receiver was exchanged", i)
			return false
		}
		i++
	}
	got := rawTable(n)
	if g := tableFP(exTable(n)); g != want {
		c.Fail("canonical", "normal form of\n%s%s", before, firstDiff(g, want))
		return false
	}
	if modified != (got != before) || !modified && n != m {
		c.Fail("flag", "modified=%v, same object %v\nbefore %s\nresult %s", modified, n == m, before, got)
		return false
	}
	// look-ups in the result agree with its order
	k := 0
	for x := range n.Columns() {
		y, ok := n.LookupColumn(x.ID())
		at, _ := n.LookupColumnOrder(x.ID())
		if !ok || y != x || at != k {
			c.Fail("lookup", "column %s is found at %d instead of %d", x.ID(), at, k)
			return false
		}
		if x.TableID() != n.ID() {
			c.Fail("owner", "column %s belongs to %q", x.ID(), x.TableID())
			return false
		}
		k++
	}
	if modified {
		c.Count("tables modified")
	} else {
		c.Count("tables already normal")
	}
	n2, again := n.Normalize()
	if g2 := rawTable(n2); g2 != got || again {
		c.Fail("idempotent", "normalizing twice (modified=%v)\n%s", again, firstDiff(g2, got))
		return false
	}
	return true
}

var defaultGrid = func() []*Default {
	out := []*Default{nil}
	for _, v := range []string{"0", "1", "-1", "+1", "00", "007", "1.", ".5", "-.5", "1.5", "1e5", "1E5", "1e-5", "2.5e-3", "", " ", "1 ", " 1", "1x", "x1", "--1", "+-1", ".", "-", "+", "e5", "1e", "1e+5", "0x1F", "1,5", "1_0", "TRUE", "true", "FALSE", "false", "NULL", "null", "CURRENT_TIMESTAMP", "١", "1\n", "\n1", "1;", "'1'", `1\0`, "123456789012345678901234567890", "inf", "NaN"} {
		out = append(out, &Default{defString, v})
	}
	for _, v := range []string{"0", "1", "-1", "1.5", "1E5", "00"} {
		out = append(out, &Default{defNumber, v})
	}
	for _, v := range []string{"NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP", "NOW()"} {
		out = append(out, &Default{defKeyword, v})
	}
	return out
}()

func init() {
	register(&Check{
		ID: "C06", Level: "exploration",
		Rule: "a case is a column or table definition; distinct by definition; non-trivial because receiver, result, flag and second normalization of each are compared with an independent normalizer",
		Assumptions: []string{
			"columns that are both PRIMARY and carry DEFAULT NULL keep it (pinned by the existing tests)",
			"a normalized table may share index objects with its receiver",
		},
		Phases: []Phase{
			{Name: "attribute-triples", Quick: len(types) * len(colAttrs), Thorough: len(types) * len(colAttrs), Run: func(c *Case) {
				typ := types[c.Index/len(colAttrs)].Name
				a := colAttrs[c.Index%len(colAttrs)]
				for _, b := range colAttrs {
					for _, d := range colAttrs {
						col := baseCol("c", typ)
						a.set(col)
						b.set(col)
						d.set(col)
						c.Input(typ, a.name, b.name, d.name)
						if !normColumn(c, col) {
							return
						}
					}
				}
			}},
			{Name: "defaults", Quick: len(types), Thorough: len(types), Run: func(c *Case) {
				for _, d := range defaultGrid {
					for null := nullNone; null <= nullNot; null++ {
						for bits := 0; bits < 8; bits++ {
							col := baseCol("c", types[c.Index].Name)
							col.Null, col.Unsigned, col.AutoInc = null, bits&1 != 0, bits&2 != 0
							if bits&4 != 0 {
								col.Len = sp("3")
							}
							if d != nil {
								e := *d
								col.Def = &e
							}
							c.Input(colFP(col), fmt.Sprint(bits, null))
							if !normColumn(c, col) {
								return
							}
						}
					}
				}
			}},
			{Name: "tables-built", Quick: 25000, Thorough: 600000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 6, Idx: 6, Hostile: true, Like: true})
				for _, t := range s.Tables {
					t.Decl = nil
					if chance(c.R, 30) {
						// tables that need little change
						t = normTable(t)
						if chance(c.R, 40) && len(t.Idx) > 0 {
							t.Idx = t.Idx[:len(t.Idx)-1]
						}
						if chance(c.R, 40) && len(t.Cols) > 0 {
							x := pick(c.R, t.Cols)
							switch c.R.IntN(3) {
							case 0:
								x.Unique = true
							case 1:
								x.Null = nullNull
							case 2:
								x.Primary = true
							}
						}
					}
					c.Input(tableFP(t))
					m := buildTable(t)
					for _, col := range t.Cols {
						if !normColumn(c, col) {
							return
						}
					}
					if !normTableModel(c, m, tableFP(normTable(t))) {
						return
					}
				}
			}},
			{Name: "big", Quick: 3 * len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				g := bigGrid[c.Index%len(bigGrid)]
				s := bigSchema(c.R, g)
				c.Feature("big: " + g.String())
				for _, t := range s.Tables {
					t.Decl = nil
					if g.Dim == "columns" && chance(c.R, 60) {
						// nothing to do but for one place
						t = normTable(t)
						switch c.R.IntN(4) {
						case 0:
							t.Idx = append(t.Idx, &Index{Kind: "FOREIGN", Symbol: sp("fk_new"), Cols: []IdxCol{{Name: t.Cols[0].Name}}, Ref: &Ref{Table: "p", Cols: []IdxCol{{Name: "id"}}}})
						case 1:
							pick(c.R, t.Cols).Unique = true
						case 2:
							pick(c.R, t.Cols).Null = nullNull
						}
						if !validTable(t) {
							return
						}
					}
					c.Input(tableFP(t))
					for _, col := range t.Cols[:min(len(t.Cols), 20)] {
						if !normColumn(c, col) {
							return
						}
					}
					if !normTableModel(c, buildTable(t), tableFP(normTable(t))) {
						return
					}
				}
			}},
			{Name: "index-sets", Quick: len(idxSets3), Thorough: len(idxSets3) * 20, Run: func(c *Case) {
				t := idxSets3[c.Index%len(idxSets3)].clone()
				for k := 0; k < 4; k++ {
					c.Input(tableFP(t))
					if !normTableModel(c, buildTable(t), tableFP(normTable(t))) {
						return
					}
					c.R.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
					if k == 1 {
						pick(c.R, t.Cols).Unique = true
						if !validTable(t) {
							return
						}
					}
				}
			}},
			{Name: "tables-parsed", Quick: 6000, Thorough: 150000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 3, Cols: 6, Idx: 5, Hostile: true, Like: true})
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				countFeatures(c, s)
				c.Sample(text)
				stmts, err := newParser(text).ParseString(text)
				if err != nil || len(stmts) != len(s.Tables) {
					c.Fail("rejected", "%d statements, error %v\n--- input\n%s", len(stmts), err, text)
					return
				}
				for i, st := range stmts {
					if !normTableModel(c, st.(model.Table), tableFP(normTable(s.Tables[i]))) {
						return
					}
				}
			}},
			{Name: "distinct", Quick: 40000, Thorough: 1500000, Run: func(c *Case) {
				// one attribute changed: equal afterwards if and only if it means the same
				cfg := &GenCfg{Hostile: true}
				a := genCol(c.R, cfg, "c")
				b := a.clone()
				ed := colEdits[c.R.IntN(len(colEdits))]
				ed.f(c.R, cfg, b)
				c.Input(colFP(a), colFP(b))
				na, _ := buildCol(a).Normalize()
				nb, _ := buildCol(b).Normalize()
				same := colFP(normCol(a)) == colFP(normCol(b))
				fa, err1 := formatOne(na)
				fb, err2 := formatOne(nb)
				if err1 != nil || err2 != nil {
					c.Fail("format", "%v, %v", err1, err2)
					return
				}
				if same {
					c.Count("pairs that mean the same")
				} else {
					c.Count("pairs that mean different things")
				}
				if got := rawCol(na) == rawCol(nb); got && !same {
					c.Fail("collapsed", "%s and %s have one normal form", colFP(a), colFP(b))
				} else if !same && fa == fb && a.Key == b.Key { // (KEY is the table's business)
					c.Fail("collapsed", "%s and %s have normal forms that are printed alike: %s", colFP(a), colFP(b), fa)
				}
			}},
		},
	})
}
