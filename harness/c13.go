package main

import "fmt"

// C13: the diff touches only what differs, and a single edit touches exactly
// the one thing that was edited.

// onlyThis compares what the statements touch with what differs.
func onlyThis(c *Case, m *migration) bool {
	if m.Err != nil {
		if !m.MustFail {
			c.Fail("refused", "%v\n%s", m.Err, m)
			return false
		}
		return true
	}
	want := map[string]bool{}
	nf, nt := normSchema(m.From), normSchema(m.To)
	for _, f := range nf.Tables {
		if nt.table(f.Name) == nil {
			want["DROP "+f.Name] = true
		}
	}
	for _, t := range nt.Tables {
		f := nf.table(t.Name)
		if f == nil {
			want["CREATE "+t.Name] = true
			continue
		}
		q := fmt.Sprintf(" %q ", t.Name)
		for _, col := range f.Cols {
			if g := t.col(col.Name); g == nil {
				want["DROP COLUMN"+q+col.Name] = true
			} else if colFP(g) != colFP(col) {
				want["CHANGE COLUMN"+q+col.Name] = true
			}
		}
		for _, col := range t.Cols {
			if f.col(col.Name) == nil {
				want["ADD COLUMN"+q+col.Name] = true
			}
		}
		fi, ti := map[string]bool{}, map[string]bool{}
		for _, x := range f.Idx {
			fi[idxFP(x)] = true
		}
		for _, x := range t.Idx {
			ti[idxFP(x)] = true
			if !fi[idxFP(x)] {
				want["ADD INDEX"+q+idxFP(x)] = true
			}
		}
		for _, x := range f.Idx {
			if !ti[idxFP(x)] {
				want["DROP INDEX"+q+idxFP(x)] = true
			}
		}
	}
	got := map[string]bool{}
	for _, s := range m.Stmts {
		key := s.Op + " " + s.Table
		if s.Op == "ALTER" {
			q := fmt.Sprintf(" %q ", s.Table)
			f := nf.table(s.Table)
			switch s.Alter {
			case "ADD INDEX":
				key = "ADD INDEX" + q + idxFP(s.Idx)
			case "DROP PRIMARY KEY":
				key = "DROP INDEX" + q + idxFP(f.Idx[f.findPK()])
			case "DROP FOREIGN KEY":
				key = "DROP INDEX" + q + idxFP(f.Idx[f.findFK(s.Name)])
			case "DROP INDEX":
				key = "DROP INDEX" + q + idxFP(f.Idx[f.findIdx(s.Name)])
			default:
				key = s.Alter + q + s.Name
			}
		}
		got[key] = true
	}
	for k := range want {
		if !got[k] {
			c.Fail("missing", "nothing is printed for: %s\n%s", k, m)
			return false
		}
	}
	for k := range got {
		if !want[k] {
			c.Fail("extra", "printed without need: %s\n%s", k, m)
			return false
		}
	}
	if len(got) == 0 {
		// an index that its foreign key brings along anyway
		c.Count("edits without a meaning")
		return true
	}
	c.Count("single edits judged")
	return true
}

func init() {
	single := func(c *Case, from, to *Schema, kind string) {
		if chance(c.R, 50) {
			from, to, kind = to, from, "reverse "+kind
		}
		c.Feature("edit: " + kind)
		m, ok := migrate(c, from, to, []string{kind}, plainStyle)
		if ok && checkMinimal(c, m) && onlyThis(c, m) {
			c.Sample(m.String())
		}
	}
	cfg := func(c *Case) *GenCfg { return &GenCfg{Tables: 3, Cols: 5, Idx: 4, Hostile: chance(c.R, 40)} }
	phases := append(migrationPhases(checkMinimal),
		Phase{Name: "single-column-edits", Quick: 500 * len(colEdits), Thorough: 30000 * len(colEdits), Run: func(c *Case) {
			ed := colEdits[c.Index%len(colEdits)]
			for n := 0; n < 50; n++ {
				from := genValid(c.R, cfg(c))
				if len(from.Tables) == 0 {
					continue
				}
				to := from.clone()
				t := pick(c.R, to.Tables)
				col := pick(c.R, t.Cols)
				before := colFP(normCol(col))
				if !ed.f(c.R, cfg(c), col) || colFP(normCol(col)) == before || !validSchema(to) {
					continue
				}
				single(c, from, to, "column "+ed.name)
				return
			}
		}},
		Phase{Name: "single-index-edits", Quick: 500 * len(idxEdits), Thorough: 30000 * len(idxEdits), Run: func(c *Case) {
			ed := idxEdits[c.Index%len(idxEdits)]
			for n := 0; n < 200; n++ {
				from := genValid(c.R, cfg(c))
				if len(from.Tables) == 0 {
					continue
				}
				to := from.clone()
				t := pick(c.R, to.Tables)
				if len(t.Idx) == 0 {
					continue
				}
				x := pick(c.R, t.Idx)
				before := idxFP(x)
				if !ed.f(c.R, cfg(c), t, x) || idxFP(x) == before || !validSchema(to) {
					continue
				}
				single(c, from, to, "index "+ed.name)
				return
			}
		}},
		Phase{Name: "single-edits", Quick: 6000, Thorough: 300000, Run: func(c *Case) {
			for n := 0; n < 50; n++ {
				from := genValid(c.R, cfg(c))
				if to, e := editOnce(c.R, cfg(c), from, true); to != nil {
					single(c, from, to, e.Kind)
					return
				}
			}
		}},
		Phase{Name: "reorderings", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
			// the order of tables, columns and indexes is nothing to migrate
			from := genValid(c.R, cfg(c))
			to := from.clone()
			c.R.Shuffle(len(to.Tables), func(i, j int) { to.Tables[i], to.Tables[j] = to.Tables[j], to.Tables[i] })
			for _, t := range to.Tables {
				c.R.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
				c.R.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
				t.Decl = nil
			}
			m, ok := migrate(c, from, to, []string{"reordered"}, plainStyle)
			if !ok {
				return
			}
			if m.Err != nil || len(m.Stmts) > 0 {
				c.Fail("order", "statements for nothing but another order (error %v)\n%s", m.Err, m)
			}
			c.Count("reorderings judged")
		}},
	)
	register(&Check{ID: "C13", Level: "exploration",
		Rule:        "a case is a pair of schemas (enumerated arrangements and definitions, random edits, or one single edit); distinct by texts; non-trivial because every printed statement is compared with the objects that differ",
		Assumptions: append([]string{"the columns of one table are not judged by their order, which the differ does not migrate"}, migrationAssumptions...), Phases: phases})
}
