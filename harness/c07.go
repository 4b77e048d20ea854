package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/model"
)

// C07: formatting and parsing are inverse to each other.

var indents = []format.Option{nil, format.WithIndent(" ", 2), format.WithIndent("\t", 1), format.WithIndent(" ", 0), format.WithIndent("", 3), format.WithIndent("   ", 4)}

// roundTrip formats parsed statements, parses the result and compares.
func roundTrip(c *Case, stmts model.Stmts, origin string) bool {
	m, err := exStmts(stmts)
	if err != nil {
		c.Fail("model", "%v\n--- input\n%s", err, origin)
		return false
	}
	want := schemaFP(m)
	plain, err := formatEach(stmts)
	if err != nil {
		c.Fail("format", "accepted, but can not be formatted: %v\n--- input\n%s", err, origin)
		return false
	}
	for k, o := range indents {
		if k > 1 && c.R.IntN(3) > 0 {
			continue
		}
		var opts []format.Option
		if o != nil {
			opts = append(opts, o)
		}
		f, err := formatEach(stmts, opts...)
		if err != nil {
			c.Fail("format", "accepted, but can not be formatted: %v\n--- input\n%s", err, origin)
			return false
		}
		text := script(f)
		back, err := newParser(text).ParseString(text)
		if err != nil {
			c.Fail("reparse", "the formatted SQL is rejected: %v\n--- formatted\n%s\n--- input\n%s", err, text, origin)
			return false
		}
		c.Count("round trips")
		bm, err := exStmts(back)
		if err != nil {
			c.Fail("model", "%v\n--- formatted\n%s", err, text)
			return false
		}
		if got := schemaFP(bm); got != want {
			c.Fail("changed", "the formatted SQL means something else\n%s\n--- formatted\n%s\n--- input\n%s", firstDiff(got, want), text, origin)
			return false
		}
		again, err := formatEach(back)
		if err != nil || script(again) != script(plain) {
			c.Fail("unstable", "formatting the formatted SQL gives other bytes (error %v)\n%s\n--- input\n%s", err, firstDiff(script(again), script(plain)), origin)
			return false
		}
	}
	// formatting the list at once gives the concatenation
	var all bytes.Buffer
	if err := format.SQL(&all, stmts); err != nil || all.String() != strings.Join(plain, "") {
		c.Fail("list", "formatting the statements as a list differs from formatting them one by one (error %v)\n--- input\n%s", err, origin)
		return false
	}
	return true
}

func formatOne(v interface{}) (string, error) {
	earlierFormats(v)
	var b bytes.Buffer
	err := format.SQL(&b, v)
	return b.String(), err
}

// builtTrip formats objects that were built through the API.
func builtTrip(c *Case, t *Table) bool {
	t = t.clone()
	for _, col := range t.Cols {
		if col.Primary {
			col.Key = false // says the same as PRIMARY KEY, and is not printed
		}
	}
	m := buildTable(t)
	text, err := formatOne(m)
	if err != nil {
		c.Fail("format", "a table made through the API can not be formatted: %v\n%s", err, tableFP(t))
		return false
	}
	c.Count("built tables formatted")
	_, got, ok := parseOK(c, text)
	if !ok {
		return false
	}
	want := tableFP(normTable(t))
	if g := schemaFP(got); g != want {
		c.Fail("built", "a table made through the API is formatted as something else\n%s\n--- formatted\n%s", firstDiff(g, want), text)
		return false
	}
	if t.Like != nil {
		return true
	}
	// columns and indexes on their own
	for _, col := range t.Cols {
		f, err := formatOne(buildCol(col))
		if err != nil {
			c.Fail("format", "a column made through the API can not be formatted: %v\n%s", err, colFP(col))
			return false
		}
		c.Count("built columns formatted")
		one := &Table{Name: "t", Cols: []*Col{col}}
		_, got, ok := parseOK(c, "CREATE TABLE t ("+f+")")
		if !ok {
			return false
		}
		if g, w := schemaFP(got), tableFP(normTable(one)); g != w {
			c.Fail("built", "a column made through the API is formatted as something else\n%s\n--- formatted\n%s", firstDiff(g, w), f)
			return false
		}
	}
	for _, x := range t.Idx {
		f, err := formatOne(buildIndex(x, "table#t"))
		if err != nil {
			c.Fail("format", "an index made through the API can not be formatted: %v\n%s", err, idxFP(x))
			return false
		}
		c.Count("built indexes formatted")
		one := &Table{Name: "t", Idx: []*Index{x}}
		_, got, ok := parseOK(c, "CREATE TABLE t ("+f+")")
		if !ok {
			return false
		}
		if g, w := schemaFP(got), tableFP(normTable(one)); g != w {
			c.Fail("built", "an index made through the API is formatted as something else\n%s\n--- formatted\n%s", firstDiff(g, w), f)
			return false
		}
		if x.Ref == nil || x.Kind != "FOREIGN" {
			continue
		}
		// its reference on its own: formatted, and as it names itself
		r := buildIndex(x, "table#t").Reference()
		if f, err = formatOne(r); err != nil {
			c.Fail("format", "a reference made through the API can not be formatted: %v\n%s", err, idxFP(x))
			return false
		}
		for _, f := range []string{f, r.String()} {
			one := x.clone()
			if f == r.String() {
				for i := range one.Ref.Cols { // it leaves those out
					one.Ref.Cols[i].Len, one.Ref.Cols[i].Dir = nil, ""
				}
			}
			c.Count("built references printed")
			var keys []string
			for _, k := range x.Cols {
				keys = append(keys, btick(k.Name))
			}
			_, got, ok := parseOK(c, "CREATE TABLE t (FOREIGN KEY ("+strings.Join(keys, ", ")+") "+f+")")
			if !ok {
				return false
			}
			one.Symbol, one.Name, one.Using, one.Parser = nil, nil, "", nil
			for i := range one.Cols {
				one.Cols[i].Len, one.Cols[i].Dir = nil, ""
			}
			if g, w := schemaFP(got), tableFP(normTable(&Table{Name: "t", Idx: []*Index{one}})); g != w {
				c.Fail("built", "a reference made through the API is printed as something else\n%s\n--- printed\n%s", firstDiff(g, w), f)
				return false
			}
		}
	}
	return true
}

func init() {
	register(&Check{
		ID: "C07", Level: "exploration",
		Rule: "an input is a text that was accepted, or an abstract table handed to the model API; distinct by text; non-trivial because each one is formatted, parsed again and compared field by field",
		Assumptions: []string{
			"statements are formatted one by one and joined with semicolons, because the formatter of a list is pinned by the existing tests to add none",
			"objects made through the API are ones the dialect can express (a value for every ENUM, no UNSIGNED on a DATE, raw strings with complete escapes)",
		},
		Phases: []Phase{
			{Name: "type-attribute-pairs", Quick: len(types) * len(colAttrs), Thorough: len(types) * len(colAttrs), Run: func(c *Case) {
				typ := types[c.Index/len(colAttrs)].Name
				for _, col := range attrCols(typ, c.Index%len(colAttrs)) {
					t := &Table{Name: "t", Cols: []*Col{col}}
					text := plainSQL(&Schema{Tables: []*Table{t}})
					c.Input(text)
					if stmts, _, ok := parseOK(c, text); !ok || !roundTrip(c, stmts, text) || !builtTrip(c, t) {
						return
					}
				}
			}},
			{Name: "index-grid", Quick: len(idxGrid), Thorough: len(idxGrid), Run: func(c *Case) {
				t := &Table{Name: "t", Cols: threeCols(), Idx: []*Index{idxGrid[c.Index]}}
				text := plainSQL(&Schema{Tables: []*Table{t}})
				c.Input(text)
				if stmts, _, ok := parseOK(c, text); !ok || !roundTrip(c, stmts, text) {
					return
				}
				builtTrip(c, t)
			}},
			{Name: "random", Quick: 5000, Thorough: 150000, Run: func(c *Case) {
				s := genSchema(c.R, hostileCfg())
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				countFeatures(c, s)
				c.Sample(text)
				if stmts, _, ok := parseOK(c, text); ok {
					roundTrip(c, stmts, text)
				}
			}},
			{Name: "big", Quick: 2 * len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				g := bigGrid[c.Index%len(bigGrid)]
				s := bigSchema(c.R, g)
				text := render(s, plainStyle()).Text
				c.Input(text)
				c.Feature("big: " + g.String())
				if stmts, _, ok := parseOK(c, text); ok && roundTrip(c, stmts, text) {
					s.Tables[0].Decl = nil
					builtTrip(c, s.Tables[0])
				}
			}},
			{Name: "built", Quick: 4000, Thorough: 120000, Run: func(c *Case) {
				s := genSchema(c.R, hostileCfg())
				for _, t := range s.Tables {
					if !validTable(t) {
						continue
					}
					t.Decl = nil
					c.Input(tableFP(t))
					if !builtTrip(c, t) {
						return
					}
				}
			}},
			{Name: "defaults", Quick: len(types), Thorough: len(types), Run: func(c *Case) {
				// texts that are almost numbers, or almost words
				vals := map[string]bool{}
				for _, d := range defaultGrid {
					if d != nil && d.Kind == defString {
						vals[d.Val] = true
					}
				}
				for _, sign := range []string{"", "-", "+"} {
					for _, m := range []string{"1", "1.", ".1", "1.5", "."} {
						for _, e := range []string{"", "e5", "E-5", "e+5", "e"} {
							vals[sign+m+e] = true
						}
					}
				}
				for _, v := range sortedKeys(vals) {
					col := baseCol("c", types[c.Index].Name)
					col.Def = &Default{defString, v}
					t := &Table{Name: "t", Cols: []*Col{col}}
					c.Input(colFP(col))
					if !builtTrip(c, t) {
						return
					}
					text := render(&Schema{Tables: []*Table{t}}, plainStyle()).Text
					if stmts, _, ok := parseOK(c, text); !ok || !roundTrip(c, stmts, text) {
						return
					}
				}
			}},
			{Name: "databases", Quick: 1000, Thorough: 20000, Run: func(c *Case) {
				n, not := pick(c.R, hostileNames), chance(c.R, 50)
				if chance(c.R, 50) {
					n = confusing(c.R)
				}
				if n == "" {
					return
				}
				c.Input(n, fmt.Sprint(not))
				d := model.NewDatabase(n).SetIfNotExists(not)
				if d.Name() != n || d.IsIfNotExists() != not {
					c.Fail("database", "%q, IF NOT EXISTS %v: it says %q, %v", n, not, d.Name(), d.IsIfNotExists())
					return
				}
				f, err := formatOne(d)
				want := []string{"CREATE", "DATABASE", "IF", "NOT", "EXISTS", n}
				if !not {
					want = []string{"CREATE", "DATABASE", n}
				}
				var got []string
				toks, terr := sqlLex(strings.TrimSuffix(f, ";"))
				for _, t := range toks[:max(0, len(toks)-1)] {
					got = append(got, t.text)
				}
				if err != nil || terr != nil || !strings.HasSuffix(f, ";") || strings.Join(got, "\x00") != strings.Join(want, "\x00") || toks[len(toks)-2].kind != "ident" {
					c.Fail("database", "database %q, IF NOT EXISTS %v, is formatted as %q (error %v %v)", n, not, f, err, terr)
					return
				}
				// such a statement is skipped, all of it and nothing else
				text := f + "CREATE TABLE t (a INT)"
				stmts, err := newParser(text).ParseString(text)
				if err != nil || len(stmts) != 1 {
					c.Fail("database", "%d statements, error %v\n%s", len(stmts), err, text)
				}
			}},
			{Name: "mutated", Quick: 60000, Thorough: 3000000, Run: func(c *Case) {
				// texts next to valid ones; whatever is accepted must round-trip
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 3, Idx: 2, Hostile: chance(c.R, 30), Like: true})
				rd := render(s, plainStyle())
				var text string
				if chance(c.R, 60) {
					text = mutateLex(c.R, rd.Lex, 1+c.R.IntN(3))
				} else {
					text = mutateBytes(c.R, rd.Text, 1+c.R.IntN(3))
				}
				stmts, err := newParser(text).ParseString(text)
				if err != nil {
					c.Count("mutants rejected")
					return
				}
				c.Input(text)
				c.Count("mutants accepted")
				c.Feature(fmt.Sprintf("mutants with %d statements", len(stmts)))
				roundTrip(c, stmts, text)
			}},
		},
	})
}
