package main

import (
	"math/rand/v2"
	"strings"

	"github.com/schemalex/schemalex/diff"
)

// C10: different declarations of the same schema.

// equivalent declares a schema in another way.
func equivalent(r *rand.Rand, s *Schema, note func(string)) *Schema {
	n := s.clone()
	do := func(what string) bool {
		if chance(r, 60) {
			note(what)
			return true
		}
		return false
	}
	for _, t := range n.Tables {
		if t.Like != nil {
			continue
		}
		t.Decl = nil
		for _, c := range t.Cols {
			ti := typeByName[c.Type]
			// implied widths
			if c.Len == nil {
				if w := normCol(&Col{Name: "x", Type: c.Type, Unsigned: c.Unsigned}); w.Len != nil && !ti.BoolT && do("width written out") {
					c.Len, c.Dec = w.Len, w.Dec
				}
			} else {
				w := normCol(&Col{Name: "x", Type: c.Type, Unsigned: c.Unsigned})
				switch {
				case ti.DecOpt && c.Dec == nil && do("scale written out"):
					c.Dec = sp("0")
				case ti.DecOpt && c.Dec != nil && *c.Dec == "0" && do("scale left out"):
					c.Dec = nil
				}
				dec := c.Dec
				if ti.DecOpt && dec == nil {
					dec = sp("0")
				}
				if w.Len != nil && *w.Len == *c.Len && optq(w.Dec) == optq(dec) && do("width left out") {
					c.Len, c.Dec = nil, nil
				}
			}
			// synonyms
			switch c.Type {
			case "INT":
				if do("INTEGER for INT") {
					c.Type = "INTEGER"
				}
			case "INTEGER":
				if do("INT for INTEGER") {
					c.Type = "INT"
				}
			case "DECIMAL":
				if do("NUMERIC for DECIMAL") {
					c.Type = "NUMERIC"
				}
			case "NUMERIC":
				if do("DECIMAL for NUMERIC") {
					c.Type = "DECIMAL"
				}
			case "DOUBLE":
				if do("REAL for DOUBLE") {
					c.Type = "REAL"
				}
			case "REAL":
				if do("DOUBLE for REAL") {
					c.Type = "DOUBLE"
				}
			case "BOOL":
				if do("BOOLEAN for BOOL") {
					c.Type = "BOOLEAN"
				} else if do("TINYINT(1) for BOOL") {
					c.Type, c.Len, c.Def = "TINYINT", sp("1"), normCol(c).Def
				}
			case "BOOLEAN":
				if do("TINYINT(1) for BOOLEAN") {
					c.Type, c.Len, c.Def = "TINYINT", sp("1"), normCol(c).Def
				}
			case "TINYINT":
				if c.Len != nil && *c.Len == "1" && !c.Unsigned && !c.Zerofill && !c.AutoInc && (c.Def == nil || c.Def.Kind != defKeyword || c.Def.Val == "NULL") && do("BOOL for TINYINT(1)") {
					c.Type, c.Len = "BOOL", nil
				}
			}
			ti = typeByName[c.Type]
			// NULL and DEFAULT NULL
			switch c.Null {
			case nullNone:
				if do("NULL written out") {
					c.Null = nullNull
				}
			case nullNull:
				if do("NULL left out") {
					c.Null = nullNone
				}
			}
			if c.Null != nullNot && !ti.NoNullD {
				if c.Def == nil && do("DEFAULT NULL written out") {
					c.Def = &Default{defKeyword, "NULL"}
				} else if c.Def != nil && c.Def.Kind == defKeyword && c.Def.Val == "NULL" && do("DEFAULT NULL left out") {
					c.Def = nil
				}
			}
			// quotes around numbers
			if c.Def != nil && (ti.Numeric || ti.BoolT) {
				if c.Def.Kind == defNumber && do("number in quotes") {
					c.Def.Kind = defString
				} else if c.Def.Kind == defString && numLit.MatchString(c.Def.Val) && do("number without quotes") {
					c.Def = &Default{defNumber, strings.ToUpper(c.Def.Val)}
				}
			}
			if c.Def != nil && ti.BoolT {
				switch {
				case c.Def.Kind == defKeyword && c.Def.Val == "TRUE" && do("1 for TRUE"):
					c.Def = &Default{defNumber, "1"}
				case c.Def.Kind == defKeyword && c.Def.Val == "FALSE" && do("0 for FALSE"):
					c.Def = &Default{defString, "0"}
				case c.Def.Kind == defNumber && c.Def.Val == "1" && do("TRUE for 1"):
					c.Def = &Default{defKeyword, "TRUE"}
				case c.Def.Kind == defNumber && c.Def.Val == "0" && do("FALSE for 0"):
					c.Def = &Default{defKeyword, "FALSE"}
				}
			}
			// keys on the column
			switch {
			case (c.Primary || c.Key) && do("PRIMARY KEY as an index"):
				c.Primary, c.Key = false, false
				t.Idx = append(t.Idx, &Index{Kind: "PRIMARY", Cols: []IdxCol{{Name: c.Name}}})
			case c.Primary && do("KEY for PRIMARY KEY"):
				c.Primary, c.Key = false, true
			case c.Key && do("PRIMARY KEY for KEY"):
				c.Primary, c.Key = true, false
			}
			if c.Unique && do("UNIQUE as an index") {
				c.Unique = false
				t.Idx = append([]*Index{{Kind: "UNIQUE", Name: sp(c.Name), Cols: []IdxCol{{Name: c.Name}}}}, t.Idx...)
			}
		}
		// indexes that are just a key on a column
		var idx []*Index
		for _, x := range t.Idx {
			if len(x.Cols) == 1 && x.Cols[0].Len == nil && x.Cols[0].Dir != "DESC" && x.Using == "" && x.Symbol == nil {
				c := t.col(x.Cols[0].Name)
				if x.Kind == "PRIMARY" && x.Name == nil && do("PRIMARY KEY on the column") {
					c.Primary = chance(r, 70)
					c.Key = !c.Primary
					continue
				}
				if x.Kind == "UNIQUE" && x.Name != nil && *x.Name == c.Name && !c.Unique && do("UNIQUE on the column") {
					c.Unique = true
					continue
				}
			}
			idx = append(idx, x)
		}
		t.Idx = idx
		// indexes of constraints
		have := map[string]bool{}
		for _, x := range normTable(t).Idx {
			have[idxFP(x)] = true
		}
		for _, x := range append([]*Index(nil), t.Idx...) {
			if x.Kind != "FOREIGN" || x.Symbol == nil {
				continue
			}
			impl := &Index{Kind: "NORMAL", Name: sp(*x.Symbol), Using: x.Using, Cols: cloneIC(x.Cols)}
			at := -1
			for i, y := range t.Idx {
				if idxFP(y) == idxFP(impl) {
					at = i
				}
			}
			if at >= 0 && do("constraint index left out") {
				t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
			} else if at < 0 && have[idxFP(impl)] && do("constraint index written out") {
				t.Idx = append(t.Idx, impl)
			}
		}
		if len(t.Idx) > 1 && do("indexes reordered") {
			r.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
		}
		for _, x := range t.Idx {
			for i := range x.Cols {
				if x.Cols[i].Dir == "ASC" {
					x.Cols[i].Dir = ""
				} else if x.Cols[i].Dir == "" && chance(r, 30) {
					note("ASC written out")
					x.Cols[i].Dir = "ASC"
				}
			}
		}
		if len(t.Opts) > 1 && do("options reordered") {
			r.Shuffle(len(t.Opts), func(i, j int) { t.Opts[i], t.Opts[j] = t.Opts[j], t.Opts[i] })
		}
		if len(t.Idx) > 0 && chance(r, 30) {
			note("columns and indexes interleaved")
			ci, xi := 0, 0
			for ci < len(t.Cols) || xi < len(t.Idx) {
				if xi < len(t.Idx) && (ci == len(t.Cols) || chance(r, 40)) {
					t.Decl = append(t.Decl, -1-xi)
					xi++
				} else {
					t.Decl = append(t.Decl, ci)
					ci++
				}
			}
		}
	}
	if len(n.Tables) > 1 && do("tables reordered") {
		m := n.clone()
		r.Shuffle(len(m.Tables), func(i, j int) { m.Tables[i], m.Tables[j] = m.Tables[j], m.Tables[i] })
		n = m
	}
	return n
}

// meaning is a fingerprint that does not depend on the order of indexes,
// options and tables.
func meaning(s *Schema) string {
	m := map[string]string{}
	var names []string
	for _, t := range normSchema(s).Tables {
		n := t.clone()
		var o []string
		for _, p := range n.Opts {
			o = append(o, optFP(p))
		}
		n.Opts = nil
		sortStrings(o)
		m[t.Name] = tableFPx(n) + strings.Join(o, ";")
		names = append(names, t.Name)
	}
	sortStrings(names)
	var b strings.Builder
	for _, n := range names {
		b.WriteString(m[n])
	}
	return b.String()
}

func emptyDiff(c *Case, what, a, b string) bool {
	for _, p := range [][2]string{{a, b}, {b, a}} {
		d, err := diffStrings(p[0], p[1])
		c.Count("diffs that had to be empty")
		if err != nil || d != "" {
			c.Fail("not-empty", "%s: diff %q (error %v)\n--- from\n%s\n--- to\n%s", what, d, err, p[0], p[1])
			return false
		}
		d, err = diffStrings(p[0], p[1], diff.WithTransaction(true))
		if err != nil || d != txnPrologue+txnEpilogue {
			c.Fail("wrapper", "%s, with transaction: diff %q (error %v)\n--- from\n%s\n--- to\n%s", what, d, err, p[0], p[1])
			return false
		}
	}
	return true
}

func init() {
	register(&Check{
		ID: "C10", Level: "exploration",
		Rule: "a case is a pair of declarations of one schema; distinct by texts; non-trivial because each holds at least one table; every diff is computed in both directions, with and without the transaction",
		Assumptions: []string{
			"equivalence is the documented normalization: the harness transforms declarations only along it and checks with its own normalizer that the meaning stayed the same",
		},
		Phases: []Phase{
			{Name: "type-attribute-pairs", Quick: len(types) * len(colAttrs), Thorough: len(types) * len(colAttrs), Run: func(c *Case) {
				typ := types[c.Index/len(colAttrs)].Name
				for _, col := range attrCols(typ, c.Index%len(colAttrs)) {
					s := &Schema{Tables: []*Table{{Name: "t", Cols: []*Col{col, {Name: "z", Type: "INT"}}}}}
					for k := 0; k < 3; k++ {
						e := equivalent(c.R, s, c.Feature)
						if meaning(e) != meaning(s) {
							c.Error("the transformation changed the meaning:\n%s\n%s", meaning(s), meaning(e))
							return
						}
						a, b := plainSQL(s), plainSQL(e)
						c.Input(a, b)
						if !emptyDiff(c, "equivalent declarations", a, b) {
							return
						}
					}
				}
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 60 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				s := bigSchema(c.R, g)
				a := render(s, plainStyle()).Text
				e := equivalent(c.R, s, c.Feature)
				if meaning(e) != meaning(s) {
					c.Error("the transformation changed the meaning:\n%s\n%s", meaning(s), meaning(e))
					return
				}
				b := render(e, wildStyle(c.R)).Text
				c.Input(a, b)
				c.Feature("big: " + g.String())
				emptyDiff(c, "equivalent declarations", a, b)
			}},
			{Name: "random", Quick: 2500, Thorough: 150000, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 3, Cols: 6, Idx: 5, Hostile: chance(c.R, 50), Like: true, Wide: chance(c.R, 5)})
				a := render(s, wildStyle(c.R)).Text
				c.Input(a)
				countFeatures(c, s)
				if !emptyDiff(c, "the schema and itself", a, a) || !emptyDiff(c, "the schema and a respelling", a, render(s, wildStyle(c.R)).Text) {
					return
				}
				stmts, err := newParser(a).ParseString(a)
				if err != nil {
					c.Fail("rejected", "%v\n--- input\n%s", err, a)
					return
				}
				f, err := formatEach(stmts)
				if err != nil {
					c.Fail("format", "%v\n--- input\n%s", err, a)
					return
				}
				if !emptyDiff(c, "the schema and its formatted form", a, script(f)) {
					return
				}
				for k := 0; k < 2; k++ {
					e := equivalent(c.R, s, c.Feature)
					if meaning(e) != meaning(s) {
						c.Error("the transformation changed the meaning:\n%s\n%s", meaning(s), meaning(e))
						return
					}
					if !validSchema(&Schema{Tables: e.Tables}) && !likeOnly(e) {
						continue
					}
					b := render(e, wildStyle(c.R)).Text
					c.Input(a, b)
					c.Sample(a + "\n-- means the same as --\n" + b)
					if !emptyDiff(c, "equivalent declarations", a, b) {
						return
					}
				}
			}},
		},
	})
}

// likeOnly says that a schema is invalid at most for the order of its tables.
func likeOnly(s *Schema) bool {
	for _, t := range s.Tables {
		if !validTable(t) {
			return false
		}
	}
	return true
}
