package main

import (
	"fmt"

	"github.com/schemalex/schemalex"
)

// C03: what is parsed is compared, field by field, with the schema the text
// was generated from.

type colAttr struct {
	name string
	set  func(c *Col)
	ok   func(ti *typeInfo) bool
}

func anyType(ti *typeInfo) bool { return true }

var colAttrs = []colAttr{
	{"size", func(c *Col) { c.Len = sp("7") }, func(ti *typeInfo) bool { return ti.Size || ti.DecOpt }},
	{"scale", func(c *Col) { c.Len, c.Dec = sp("9"), sp("3") }, func(ti *typeInfo) bool { return ti.Dec2 || ti.DecOpt }},
	{"unsigned", func(c *Col) { c.Unsigned = true }, func(ti *typeInfo) bool { return ti.Num }},
	{"zerofill", func(c *Col) { c.Zerofill = true }, func(ti *typeInfo) bool { return ti.Num }},
	{"binary", func(c *Col) { c.Binary = true }, func(ti *typeInfo) bool { return ti.Char }},
	{"charset", func(c *Col) { c.Charset = sp("utf8") }, anyType},
	{"collate", func(c *Col) { c.Collate = sp("utf8_bin") }, anyType},
	{"null", func(c *Col) { c.Null = nullNull }, anyType},
	{"not null", func(c *Col) { c.Null = nullNot }, anyType},
	{"default string", func(c *Col) { c.Def = &Default{defString, "it's"} }, anyType},
	{"default empty", func(c *Col) { c.Def = &Default{defString, ""} }, anyType},
	{"default number", func(c *Col) { c.Def = &Default{defNumber, "-1.5"} }, anyType},
	{"default quoted number", func(c *Col) { c.Def = &Default{defString, "10"} }, anyType},
	{"default null", func(c *Col) { c.Def = &Default{defKeyword, "NULL"} }, anyType},
	{"default true", func(c *Col) { c.Def = &Default{defKeyword, "TRUE"} }, anyType},
	{"default false", func(c *Col) { c.Def = &Default{defKeyword, "FALSE"} }, anyType},
	{"default now", func(c *Col) { c.Def = &Default{defKeyword, "NOW()"} }, anyType},
	{"default current_timestamp", func(c *Col) { c.Def = &Default{defKeyword, "CURRENT_TIMESTAMP"} }, anyType},
	{"on update", func(c *Col) { c.OnUpdate = sp("CURRENT_TIMESTAMP") }, anyType},
	{"auto_increment", func(c *Col) { c.AutoInc = true }, anyType},
	{"unique", func(c *Col) { c.Unique = true }, anyType},
	{"primary", func(c *Col) { c.Primary = true }, anyType},
	{"key", func(c *Col) { c.Key = true }, anyType},
	{"comment", func(c *Col) { c.Comment = sp(`a "quoted" 'comment'`) }, anyType},
	{"empty comment", func(c *Col) { c.Comment = sp("") }, anyType},
}

func baseCol(name, typ string) *Col {
	c := &Col{Name: name, Type: typ}
	if typeByName[typ].List {
		c.Vals = []string{"a", "b c", ""}
	}
	return c
}

// attrCols makes the columns of a type for every pair of attributes.
func attrCols(typ string, i int) []*Col {
	ti := typeByName[typ]
	a := colAttrs[i]
	if !a.ok(ti) {
		return nil
	}
	var out []*Col
	for j := i; j < len(colAttrs); j++ {
		b := colAttrs[j]
		if !b.ok(ti) {
			continue
		}
		c := baseCol("c", typ)
		a.set(c)
		b.set(c)
		out = append(out, c)
	}
	return out
}

func compareParsed(c *Case, s *Schema, text string) bool {
	_, got, ok := parseOK(c, text)
	if !ok {
		return false
	}
	g, w := schemaFP(got), schemaFP(normSchema(s))
	c.Count("models compared")
	if g != w {
		c.Fail("differs", "the model is not what the text says\n%s\n--- input\n%s", firstDiff(g, w), text)
		return false
	}
	return true
}

// indexGrid enumerates index definitions.
func indexGrid() []*Index {
	var out []*Index
	cols := [][]IdxCol{{{Name: "a"}}, {{Name: "a", Len: sp("10")}}, {{Name: "a", Dir: "ASC"}, {Name: "b", Dir: "DESC"}}, {{Name: "b", Len: sp("5"), Dir: "DESC"}, {Name: "a"}, {Name: "c", Len: sp("1")}}}
	for _, kind := range []string{"PRIMARY", "NORMAL", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN"} {
		for _, name := range []*string{nil, sp("nm"), sp("odd `name'")} {
			for _, sym := range []*string{nil, sp("sym"), sp("odd sym")} {
				if sym != nil && (kind == "NORMAL" || kind == "FULLTEXT" || kind == "SPATIAL") {
					continue
				}
				for _, using := range []string{"", "BTREE", "HASH"} {
					if using != "" && (kind == "FULLTEXT" || kind == "SPATIAL" || kind == "FOREIGN") {
						continue
					}
					for _, cs := range cols {
						x := &Index{Kind: kind, Name: name, Symbol: sym, Using: using, Cols: cs}
						switch kind {
						case "FULLTEXT":
							out = append(out, x)
							y := x.clone()
							y.Parser = sp("ngram")
							out = append(out, y)
						case "FOREIGN":
							out = append(out, x)
							for _, m := range []string{"", "FULL", "PARTIAL", "SIMPLE"} {
								for _, d := range []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"} {
									for _, u := range []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"} {
										y := x.clone()
										y.Ref = &Ref{Table: "other", Cols: []IdxCol{{Name: "x"}, {Name: "y", Len: sp("3")}}, Match: m, OnDelete: d, OnUpdate: u}
										out = append(out, y)
									}
								}
							}
						default:
							out = append(out, x)
						}
					}
				}
			}
		}
	}
	return out
}

func threeCols() []*Col {
	return []*Col{{Name: "a", Type: "INT", Null: nullNot}, {Name: "b", Type: "VARCHAR", Len: sp("20")}, {Name: "c", Type: "TEXT"}}
}

func hostileCfg() *GenCfg {
	return &GenCfg{Tables: 4, Cols: 7, Idx: 5, Hostile: true, Like: true, Wide: true}
}

var idxGrid = indexGrid()

func init() {
	register(&Check{
		ID: "C03", Level: "exploration",
		Rule: "an input is a rendered schema; inputs are distinct when their texts differ and non-trivial because every text holds at least one table that was compared field by field",
		Assumptions: []string{
			"the generator covers the dialect the parser documents; syntax it does not support (CHECK, generated columns, partitions, index comments) is outside the property",
			"the comparison reads the model through its public accessors and undoes nothing but the documented normalization, which is written again in the harness",
		},
		Phases: []Phase{
			{Name: "type-attribute-pairs", Quick: len(types) * len(colAttrs), Thorough: len(types) * len(colAttrs), Run: func(c *Case) {
				typ := types[c.Index/len(colAttrs)].Name
				for _, col := range attrCols(typ, c.Index%len(colAttrs)) {
					for k := 0; k < 3; k++ {
						st := plainStyle()
						if k > 0 {
							st = wildStyle(c.R)
						}
						s := &Schema{Tables: []*Table{{Name: "t", Cols: []*Col{{Name: "before", Type: "INT"}, col.clone(), {Name: "after", Type: "INT"}}}}}
						text := render(s, st).Text
						c.Input(text)
						c.Count("column definitions")
						if !compareParsed(c, s, text) {
							return
						}
					}
				}
			}},
			{Name: "index-grid", Quick: len(idxGrid), Thorough: len(idxGrid), Run: func(c *Case) {
				x := idxGrid[c.Index]
				for k := 0; k < 2; k++ {
					st := plainStyle()
					if k > 0 {
						st = wildStyle(c.R)
					}
					s := &Schema{Tables: []*Table{{Name: "t", Cols: threeCols(), Idx: []*Index{x}}}}
					text := render(s, st).Text
					c.Input(text)
					c.Count("index definitions")
					if !compareParsed(c, s, text) {
						return
					}
				}
			}},
			{Name: "random", Quick: 12000, Thorough: 400000, Run: func(c *Case) {
				s := genSchema(c.R, hostileCfg())
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				countFeatures(c, s)
				c.Max("input bytes", len(text))
				c.Sample(text)
				compareParsed(c, s, text)
			}},
			{Name: "big", Quick: 2 * len(bigGrid), Thorough: 100 * len(bigGrid), Run: func(c *Case) {
				g := bigGrid[c.Index%len(bigGrid)]
				s := bigSchema(c.R, g)
				st := plainStyle()
				if chance(c.R, 50) {
					st = wildStyle(c.R)
				}
				text := render(s, st).Text
				c.Input(text)
				c.Feature("big: " + g.String())
				compareParsed(c, s, text)
			}},
			{Name: "buffer", Quick: 1500, Thorough: 50000, Run: func(c *Case) {
				// the caller goes on to use its buffer
				s := genSchema(c.R, &GenCfg{Tables: 3, Cols: 5, Idx: 4, Hostile: true, Like: true})
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				buf := []byte(text)
				stmts, err := schemalex.New().Parse(buf)
				if err != nil {
					c.Fail("rejected", "%v\n--- input\n%s", err, text)
					return
				}
				if string(buf) != text {
					c.Fail("buffer", "the parser writes to its input\n%s", text)
					return
				}
				other := render(genSchema(c.R, &GenCfg{Tables: 3, Cols: 5, Idx: 4}), wildStyle(c.R)).Text
				for i := range buf {
					buf[i] = other[i%len(other)]
				}
				again, err := schemalex.New().Parse(buf[:min(len(buf), len(other))])
				got, err2 := exStmts(stmts)
				if err2 != nil {
					c.Fail("model", "%v\n--- input\n%s", err2, text)
					return
				}
				c.Count("models read after their buffer was used again")
				if g, w := schemaFP(got), schemaFP(normSchema(s)); g != w {
					c.Fail("buffer", "the model changes with the buffer\n%s\n--- input\n%s", firstDiff(g, w), text)
					return
				}
				want, werr := schemalex.New().ParseString(string(buf[:min(len(buf), len(other))]))
				if (err == nil) != (werr == nil) {
					c.Fail("buffer", "the same buffer with another text: error %v instead of %v", err, werr)
					return
				}
				if err == nil {
					a, _ := exStmts(again)
					b, _ := exStmts(want)
					if a != nil && b != nil && schemaFP(a) != schemaFP(b) {
						c.Fail("buffer", "the same buffer with another text gives another model\n%s", firstDiff(schemaFP(a), schemaFP(b)))
					}
				}
			}},
			{Name: "long", Quick: 16, Thorough: 200, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 60, Cols: 40, Idx: 12, Hostile: true, Like: true})
				for len(s.Tables) < 30 {
					s = genSchema(c.R, &GenCfg{Tables: 60, Cols: 40, Idx: 12, Hostile: true, Like: true})
				}
				// one table with very many columns
				for i := 0; i < 600; i++ {
					t := s.Tables[0]
					if t.Like != nil {
						break
					}
					t.Cols = append(t.Cols, genCol(c.R, hostileCfg(), fmt.Sprintf("extra_%d", i)))
					t.Decl = nil
				}
				text := render(s, wildStyle(c.R)).Text
				c.Input(text)
				countFeatures(c, s)
				c.Max("input bytes", len(text))
				compareParsed(c, s, text)
			}},
		},
	})
}
