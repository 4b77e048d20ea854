package main

import "github.com/schemalex/schemalex/diff"

func init() {
	c12 := append(migrationPhases(checkSequence), Phase{Name: "like-and-transaction", Quick: 4000, Thorough: 200000, Run: func(c *Case) {
		// tables defined by LIKE on both sides, and the wrapper
		from, to, kinds := genPair(c.R, &GenCfg{Tables: 4, Cols: 3, Idx: 2, Like: true})
		m := &migration{From: from, To: to, Kinds: kinds}
		m.FromText, m.ToText = plainSQL(from), plainSQL(to)
		c.Input(m.FromText, m.ToText)
		for _, t := range from.Tables {
			if u := to.table(t.Name); u != nil && (t.Like != nil || u.Like != nil) && (t.Like == nil || u.Like == nil || *t.Like != *u.Like) {
				return // how a table becomes like another one is not modelled
			}
		}
		m.Out, m.Err = diffStrings(m.FromText, m.ToText, diff.WithTransaction(true))
		if m.Err != nil {
			return
		}
		stmts, err := parseSQL(m.Out)
		if err != nil {
			c.Fail("unreadable", "the diff can not be read: %v\n%s", err, m)
			return
		}
		m.Stmts = stmts
		checkSequence(c, m)
	}})
	register(&Check{ID: "C12", Level: "exploration",
		Rule:        "a case is a pair of schemas (enumerated column arrangements and index sets, random schemas and edits of them); distinct by texts; non-trivial because every printed statement is judged at its place",
		Assumptions: migrationAssumptions, Phases: c12})
}
