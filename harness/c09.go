package main

import (
	"fmt"
	"strings"

	"github.com/schemalex/schemalex/lint"
)

// C09: the linter's output, compared with an independently read form of it.

// gapsEqual compares two outputs that may differ only in the white space in
// front of lines, and returns the indents found in the second one.
func gapsEqual(a, b string) (indents []string, err error) {
	ta, err := sqlLex(a)
	if err != nil {
		return nil, fmt.Errorf("default output: %v", err)
	}
	tb, err := sqlLex(b)
	if err != nil {
		return nil, fmt.Errorf("indented output: %v", err)
	}
	if len(ta) != len(tb) {
		return nil, fmt.Errorf("%d tokens instead of %d", len(tb), len(ta))
	}
	endA, endB := 0, 0
	for i := range ta {
		ga, gb := a[endA:ta[i].pos], b[endB:tb[i].pos]
		if n := strings.LastIndexByte(gb, '\n'); n >= 0 {
			if !strings.HasSuffix(ga, "\n") || gb[:n+1] != ga {
				return nil, fmt.Errorf("the white space in front of %q is %q instead of %q and an indent", tb[i].text, gb, ga)
			}
			if strings.Trim(gb[n+1:], " \t") != "" {
				return nil, fmt.Errorf("odd indent %q", gb[n+1:])
			}
			indents = append(indents, gb[n+1:])
		} else if ga != gb {
			return nil, fmt.Errorf("the white space in front of %q is %q instead of %q", tb[i].text, gb, ga)
		}
		la, lb := tokenText(a, ta, i), tokenText(b, tb, i)
		if la != lb {
			return nil, fmt.Errorf("%q instead of %q", lb, la)
		}
		endA, endB = ta[i].pos+len(la), tb[i].pos+len(lb)
	}
	return indents, nil
}

// tokenText is the source text of a token (without white space after it).
func tokenText(src string, t []tok, i int) string {
	if t[i].kind == "end" {
		return ""
	}
	end := len(src)
	if i+1 < len(t) {
		end = t[i+1].pos
	}
	return strings.TrimRight(src[t[i].pos:end], " \t\r\n")
}

// fieldCount is the number of lines of a table's body.
func fieldCount(t *Table) int {
	n := normTable(t)
	return len(n.Cols) + len(n.Idx)
}

func lintCase(c *Case, s *Schema, a, b string) { lintCaseOpt(c, s, a, b, true) }

func lintCaseOpt(c *Case, s *Schema, a, b string, diffToo bool) {
	la, err := lintText(a)
	if err != nil {
		c.Fail("rejected", "lint fails: %v\n--- input\n%s", err, a)
		return
	}
	c.Count("texts linted")
	if b != "" {
		lb, err := lintText(b)
		if err != nil {
			c.Fail("rejected", "lint fails: %v\n--- input\n%s", err, b)
			return
		}
		if la != lb {
			c.Fail("spelling", "two spellings lint differently\n%s\n--- one\n%s\n--- two\n%s", firstDiff(la, lb), a, b)
			return
		}
	}
	// exactly the statements, in order
	stmts, err := parseSQL(la)
	if err != nil {
		c.Fail("unreadable", "the output can not be read back: %v\n--- output\n%s", err, la)
		return
	}
	if len(stmts) != len(s.Tables) {
		c.Fail("statements", "%d statements instead of %d\n--- output\n%s\n--- input\n%s", len(stmts), len(s.Tables), la, a)
		return
	}
	end := 0
	for i, st := range stmts {
		if st.Op != "CREATE" || !st.Semi {
			c.Fail("statements", "statement %d is not a CREATE TABLE with a semicolon\n--- output\n%s", i+1, la)
			return
		}
		if g, w := tableFP(st.Create), tableFP(normTable(s.Tables[i])); g != w {
			c.Fail("content", "statement %d is not the canonical form of the declaration\n%s\n--- output\n%s\n--- input\n%s", i+1, firstDiff(g, w), la, a)
			return
		}
		if gap := la[end:st.Start]; strings.Trim(gap, "\n") != "" || i > 0 && gap == "" {
			c.Fail("layout", "%q between statements\n--- output\n%s", gap, la)
			return
		}
		end = st.End
	}
	if rest := la[end:]; strings.Trim(rest, "\n") != "" {
		c.Fail("layout", "%q after the last statement\n--- output\n%s", rest, la)
		return
	}
	c.CountN("statements read back", len(stmts))
	// a fixed point
	again, err := lintText(la)
	if err != nil || again != la {
		c.Fail("not-stable", "linting the output changes it (error %v)\n%s\n--- output\n%s", err, firstDiff(again, la), la)
		return
	}
	for _, p := range [][2]string{{a, la}, {la, a}} {
		if !diffToo {
			break
		}
		d, err := diffStrings(p[0], p[1])
		if err != nil || d != "" {
			c.Fail("diff", "the output does not mean the same as the input: diff %q (error %v)\n--- input\n%s\n--- output\n%s", d, err, a, la)
			return
		}
	}
	// the indent
	for k := 0; k < 2; k++ {
		is := pick(c.R, []string{" ", "\t", "  ", "", " \t", "    "})
		in := pick(c.R, []int{-3, 0, 1, 2, 3, 4, 8, 17, 33, 65, 101, 129, 300})
		opts := []lint.Option{lint.WithIndent(is, in)}
		if chance(c.R, 30) { // the last one counts
			opts = []lint.Option{lint.WithIndent(pick(c.R, []string{" ", "\t", "x"}), c.R.IntN(5)), opts[0]}
			c.Count("indents given twice")
		}
		li, err := lintText(a, opts...)
		if err != nil {
			c.Fail("indent", "lint fails with indent %q*%d: %v\n--- input\n%s", is, in, err, a)
			return
		}
		n := in
		if n < 1 {
			n = 1
		}
		want := strings.Repeat(is, n)
		ind, err := gapsEqual(la, li)
		if err != nil {
			c.Fail("indent", "indent %q*%d changes more than the white space in front of lines: %v\n--- output\n%s", is, in, err, li)
			return
		}
		body, with, bare := 0, 0, 0
		for _, t := range s.Tables {
			body += fieldCount(t)
		}
		for _, x := range ind {
			switch x {
			case want:
				with++
			case "":
				bare++
			default:
				c.Fail("indent", "a line is indented by %q instead of %q\n--- output\n%s", x, want, li)
				return
			}
		}
		if want != "" && with != body {
			c.Fail("indent", "%d lines are indented instead of %d\n--- output\n%s", with, body, li)
			return
		}
		back, err := lintText(li)
		if err != nil || back != la {
			c.Fail("indent", "the indented output does not lint back to the plain one (error %v)\n--- output\n%s", err, li)
			return
		}
		c.Count("indents checked")
	}
}

func init() {
	register(&Check{
		ID: "C09", Level: "exploration",
		Rule: "a case is a schema in two spellings; distinct by text; non-trivial because the output is read back statement by statement and linted again",
		Assumptions: []string{
			"the separation of statements by a blank line is taken as given, its exact form is not part of the property",
		},
		Phases: []Phase{
			{Name: "sink", Quick: 60, Thorough: 2000, Run: func(c *Case) {
				s := sinkSchema()
				a := render(s, wildStyle(c.R)).Text
				c.Input(a)
				lintCase(c, s, a, render(s, wildStyle(c.R)).Text)
			}},
			{Name: "random", Quick: 6000, Thorough: 250000, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 4, Cols: 6, Idx: 4, Hostile: true, Like: true, Wide: true})
				a, b := render(s, wildStyle(c.R)).Text, render(s, wildStyle(c.R)).Text
				c.Input(a, b)
				countFeatures(c, s)
				c.Sample(a)
				lintCase(c, s, a, b)
			}},
			{Name: "big", Quick: len(bigGrid), Thorough: 60 * len(bigGrid), Run: func(c *Case) {
				g := bigGrid[c.Index%len(bigGrid)]
				s := bigSchema(c.R, g)
				a, b := render(s, wildStyle(c.R)).Text, render(s, plainStyle()).Text
				c.Input(a, b)
				c.Feature("big: " + g.String())
				lintCase(c, s, a, b)
			}},
			{Name: "with-ignored-statements", Quick: 1500, Thorough: 40000, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 4, Cols: 3, Idx: 2, Hostile: true, Like: true})
				a, b := scriptWithNoise(c.R, s), scriptWithNoise(c.R, s)
				c.Input(a, b)
				lintCase(c, s, a, b)
			}},
			{Name: "declared-twice", Quick: 800, Thorough: 20000, Run: func(c *Case) {
				// a name may be declared more than once (such as with IF NOT EXISTS
				// or as a temporary table); lint prints what is there
				s := genValid(c.R, &GenCfg{Tables: 3, Cols: 4, Idx: 2, Hostile: chance(c.R, 50), Like: true})
				for k := 1 + c.R.IntN(3); k > 0 && len(s.Tables) > 0; k-- {
					var x *Table
					if chance(c.R, 40) {
						x = pick(c.R, s.Tables).clone()
					} else {
						x = genTable(c.R, &GenCfg{Cols: 3, Idx: 2}, "x", nameSet{}, nil)
						if !validTable(x) {
							continue
						}
						x.Name = pick(c.R, s.Tables).Name
					}
					if chance(c.R, 50) {
						x.IfNot = !x.IfNot
					}
					if chance(c.R, 30) {
						x.Temp = !x.Temp
					}
					at := c.R.IntN(len(s.Tables) + 1)
					s.Tables = append(s.Tables[:at:at], append([]*Table{x}, s.Tables[at:]...)...)
				}
				a, b := scriptWithNoise(c.R, s), render(s, wildStyle(c.R)).Text
				c.Input(a, b)
				lintCaseOpt(c, s, a, b, false)
			}},
			{Name: "nothing", Quick: 40, Thorough: 400, Run: func(c *Case) {
				a := scriptWithNoise(c.R, &Schema{})
				c.Input(a)
				lintCase(c, &Schema{}, a, "")
			}},
		},
	})
}
