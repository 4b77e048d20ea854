package main

// Edits of schemas: a migration is tested with pairs of schemas that share
// most of their parts.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// validTable says whether MySQL could hold the table, as far as names and
// columns of indexes go.
func validTable(t *Table) bool {
	if t.Like != nil {
		return true
	}
	if len(t.Cols) == 0 {
		return false
	}
	cols := nameSet{}
	for _, c := range t.Cols {
		if !cols.take(c.Name) {
			return false
		}
	}
	names, syms, pk := nameSet{}, nameSet{}, 0
	explicit := nameSet{}
	for _, c := range t.Cols {
		if c.Primary || c.Key {
			pk++
		}
		if c.Unique {
			if !names.take(c.Name) {
				return false
			}
			explicit.take(c.Name)
		}
	}
	unnamed := map[string]bool{}
	for _, x := range t.Idx {
		if len(x.Cols) == 0 {
			return false
		}
		seen := nameSet{}
		for _, c := range x.Cols {
			if t.col(c.Name) == nil || !seen.take(c.Name) {
				return false
			}
		}
		switch x.Kind {
		case "PRIMARY":
			pk++
			continue
		case "FOREIGN":
			if n := fkName(x); n != "" && !syms.take(n) {
				return false
			}
		default:
			if n := idxName(x); n != "" {
				if !names.take(n) {
					return false
				}
				explicit.take(n)
			}
		}
		if x.Name == nil && x.Symbol == nil {
			fp := idxFP(x)
			if unnamed[fp] {
				return false
			}
			unnamed[fp] = true
		}
	}
	if pk > 1 {
		return false
	}
	// names of foreign keys' own indexes are not names of anything else
	for _, x := range t.Idx {
		if x.Kind == "FOREIGN" && x.Name != nil {
			k := strings.ToLower(*x.Name)
			if names[k] {
				return false
			}
			for _, y := range t.Idx {
				if y != x && y.Symbol != nil && strings.EqualFold(*y.Symbol, *x.Name) {
					return false
				}
			}
		}
		if x.Kind == "UNIQUE" && x.Symbol != nil && x.Name != nil {
			// the symbol of a unique key with a name of its own
			for _, y := range t.Idx {
				if y != x && y.Kind == "FOREIGN" && y.Symbol != nil && strings.EqualFold(*y.Symbol, *x.Symbol) {
					return false
				}
			}
		}
		// exact spelling decides whether a constraint finds its index
		if x.Kind == "FOREIGN" && x.Symbol != nil && explicit[strings.ToLower(*x.Symbol)] && !hasExactIndex(t, *x.Symbol) {
			return false
		}
	}
	return true
}

func hasExactIndex(t *Table, name string) bool {
	for _, c := range t.Cols {
		if c.Unique && c.Name == name {
			return true
		}
	}
	for _, x := range t.Idx {
		// the index of a constraint is found by its own name
		if x.Kind != "FOREIGN" && x.Kind != "PRIMARY" && idxName(x) == name {
			return true
		}
	}
	return false
}

func validSchema(s *Schema) bool {
	names := nameSet{}
	for _, t := range s.Tables {
		if !names.take(t.Name) || !validTable(t) {
			return false
		}
		if t.Like != nil && !names[strings.ToLower(*t.Like)] {
			return false
		}
	}
	return true
}

func (t *Table) dropCol(at int) {
	name := t.Cols[at].Name
	t.Cols = append(t.Cols[:at:at], t.Cols[at+1:]...)
	t.Decl = nil
	var idx []*Index
	for _, x := range t.Idx {
		var keep []IdxCol
		var rk []IdxCol
		for i, c := range x.Cols {
			if c.Name != name {
				keep = append(keep, c)
				if x.Ref != nil && i < len(x.Ref.Cols) {
					rk = append(rk, x.Ref.Cols[i])
				}
			}
		}
		x.Cols = keep
		if x.Ref != nil {
			x.Ref.Cols = rk
		}
		if len(keep) > 0 {
			idx = append(idx, x)
		}
	}
	t.Idx = idx
}

// Edit is one change of a schema.
type Edit struct {
	Kind  string // what was done
	Table string
	Col   string // the column it concerns, or
	Idx   bool   // an index
}

func usedNames(t *Table) (cols, idx, syms nameSet) {
	cols, idx, syms = nameSet{}, nameSet{}, nameSet{}
	for _, c := range t.Cols {
		cols.take(c.Name)
		if c.Unique {
			idx.take(c.Name)
		}
	}
	for _, x := range t.Idx {
		if x.Name != nil {
			idx.take(*x.Name)
		}
		if x.Symbol != nil {
			idx.take(*x.Symbol)
			syms.take(*x.Symbol)
		}
	}
	return
}

// colEdits change one thing about a column; they return "" when they do not
// apply or would not change the meaning.
var colEdits = []struct {
	name string
	f    func(r *rand.Rand, cfg *GenCfg, c *Col) bool
}{
	{"type", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		n := genCol(r, cfg, c.Name)
		n.Unique, n.Primary, n.Key = c.Unique, c.Primary, c.Key
		*c = *n
		return true
	}},
	{"size", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		ti := typeByName[c.Type]
		switch {
		case ti.Size, ti.DecOpt:
			c.Len = sp(genInt(r, 200))
			return true
		case ti.Dec2:
			c.Len, c.Dec = sp(genInt(r, 30)), sp(fmt.Sprint(r.IntN(9)))
			return true
		}
		return false
	}},
	{"scale", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Dec == nil {
			return false
		}
		c.Dec = sp(*c.Dec + "1")
		return true
	}},
	{"unsigned", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		c.Unsigned = !c.Unsigned
		return typeByName[c.Type].Num
	}},
	{"zerofill", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		c.Zerofill = !c.Zerofill
		return typeByName[c.Type].Num
	}},
	{"binary", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		c.Binary = !c.Binary
		return typeByName[c.Type].Char
	}},
	{"charset", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if !typeByName[c.Type].Char {
			return false
		}
		if c.Charset != nil && chance(r, 40) {
			c.Charset = nil
		} else {
			c.Charset = sp(pickName(r, cfg, charsets))
		}
		return true
	}},
	{"collate", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if !typeByName[c.Type].Char {
			return false
		}
		if c.Collate != nil && chance(r, 40) {
			c.Collate = nil
		} else {
			c.Collate = sp(pickName(r, cfg, collations))
		}
		return true
	}},
	{"null", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Null == nullNot {
			c.Null = nullNone
		} else {
			c.Null = nullNot
		}
		return true
	}},
	{"default", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Def != nil && chance(r, 40) {
			c.Def = nil
		} else {
			c.Def = genDefault(r, cfg, typeByName[c.Type])
		}
		return true
	}},
	{"on update", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.OnUpdate != nil {
			c.OnUpdate = nil
		} else {
			c.OnUpdate = sp("CURRENT_TIMESTAMP")
		}
		return c.Type == "TIMESTAMP" || c.Type == "DATETIME"
	}},
	{"auto_increment", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		c.AutoInc = !c.AutoInc
		return typeByName[c.Type].Num
	}},
	{"comment", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Comment != nil && chance(r, 40) {
			c.Comment = nil
		} else {
			c.Comment = sp(genRaw(r, cfg))
		}
		return true
	}},
	{"comment slightly", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Comment == nil {
			c.Comment = sp(pick(r, []string{"", " ", "abc", "NULL"}))
		} else if !strings.ContainsAny(*c.Comment, "\\'\"") {
			c.Comment = sp(nearMiss(r, *c.Comment))
		}
		return true
	}},
	{"default slightly", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if c.Def == nil || c.Def.Kind != defString || strings.ContainsAny(c.Def.Val, "\\'\"") {
			return false
		}
		c.Def = &Default{defString, nearMiss(r, c.Def.Val)}
		return true
	}},
	{"value slightly", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if len(c.Vals) == 0 {
			return false
		}
		at := r.IntN(len(c.Vals))
		v := c.Vals[at]
		if strings.ContainsAny(v, "\\'\"") {
			return false
		}
		c.Vals = append([]string(nil), c.Vals...)
		c.Vals[at] = nearMiss(r, v)
		return true
	}},
	{"values", func(r *rand.Rand, cfg *GenCfg, c *Col) bool {
		if len(c.Vals) == 0 {
			return false
		}
		switch k := r.IntN(3); {
		case k == 0 && len(c.Vals) > 1:
			c.Vals[0], c.Vals[1] = c.Vals[1], c.Vals[0]
		case k == 1 && len(c.Vals) > 1:
			c.Vals = c.Vals[:len(c.Vals)-1]
		default:
			c.Vals = append(c.Vals, "added value")
		}
		return true
	}},
}

// nearMiss changes as little as possible about a string; what it returns is
// nothing the string could be a spelling of.
func nearMiss(r *rand.Rand, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return pick(r, []string{" ", "0", "NULL", "a"})
	}
	at := r.IntN(len(rs))
	switch r.IntN(8) {
	case 0, 1, 2: // the case of a letter, or of all
		if chance(r, 30) {
			if u := strings.ToUpper(s); u != s {
				return u
			}
			return strings.ToLower(s)
		}
		for i := range rs {
			c := &rs[(at+i)%len(rs)]
			switch {
			case *c >= 'a' && *c <= 'z':
				*c -= 'a' - 'A'
				return string(rs)
			case *c >= 'A' && *c <= 'Z':
				*c += 'a' - 'A'
				return string(rs)
			}
		}
		return s
	case 3:
		return s + " "
	case 4:
		return " " + s
	case 5:
		return string(rs[:len(rs)-1])
	case 6:
		return s + string(rs[at:at+1])
	}
	return s + pick(r, []string{"0", ",", ";", "\n", "\t", "-- ", "é"})
}

var idxEdits = []struct {
	name string
	f    func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool
}{
	{"columns", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		x.Cols = genIdxCols(r, t, 3, true)
		if x.Ref != nil {
			x.Ref.Cols = nil
			for i := range x.Cols {
				x.Ref.Cols = append(x.Ref.Cols, IdxCol{Name: fmt.Sprintf("rc%d", i)})
			}
		}
		return true
	}},
	{"column order", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if len(x.Cols) < 2 {
			return false
		}
		x.Cols[0], x.Cols[1] = x.Cols[1], x.Cols[0]
		return true
	}},
	{"prefix", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		c := &x.Cols[r.IntN(len(x.Cols))]
		if c.Len != nil && chance(r, 40) {
			c.Len = nil
		} else {
			c.Len = sp(genInt(r, 500))
		}
		return x.Kind != "FOREIGN"
	}},
	{"direction", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		c := &x.Cols[r.IntN(len(x.Cols))]
		if c.Dir == "DESC" {
			c.Dir = ""
		} else {
			c.Dir = "DESC"
		}
		return x.Kind != "FOREIGN"
	}},
	{"using", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		old := x.Using
		x.Using = pick(r, []string{"", "BTREE", "HASH"})
		return old != x.Using && (x.Kind == "PRIMARY" || x.Kind == "NORMAL" || x.Kind == "UNIQUE")
	}},
	{"kind", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Symbol != nil || x.Using != "" || x.Parser != nil {
			return false
		}
		old := x.Kind
		x.Kind = pick(r, []string{"NORMAL", "UNIQUE", "FULLTEXT", "SPATIAL"})
		return old != x.Kind && old != "PRIMARY" && old != "FOREIGN"
	}},
	{"name", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Kind == "PRIMARY" || x.Name == nil {
			return false
		}
		_, idx, _ := usedNames(t)
		x.Name = sp(idx.fresh(r, cfg))
		return true
	}},
	{"symbol", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Symbol == nil {
			return false
		}
		_, idx, _ := usedNames(t)
		x.Symbol = sp(idx.fresh(r, cfg))
		return true
	}},
	{"parser", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Parser != nil {
			x.Parser = nil
		} else {
			x.Parser = sp("ngram")
		}
		return x.Kind == "FULLTEXT"
	}},
	{"ref table", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Ref == nil {
			return false
		}
		x.Ref.Table += "x"
		return true
	}},
	{"ref columns", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Ref == nil || len(x.Ref.Cols) == 0 {
			return false
		}
		x.Ref.Cols[r.IntN(len(x.Ref.Cols))].Name += "x"
		return true
	}},
	{"ref match", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Ref == nil {
			return false
		}
		x.Ref.Match = pick(r, []string{"", "FULL", "PARTIAL", "SIMPLE"})
		return true
	}},
	{"on delete", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Ref == nil {
			return false
		}
		x.Ref.OnDelete = pick(r, []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"})
		return true
	}},
	{"on update", func(r *rand.Rand, cfg *GenCfg, t *Table, x *Index) bool {
		if x.Ref == nil {
			return false
		}
		x.Ref.OnUpdate = pick(r, []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"})
		return true
	}},
}

// editOnce changes one thing. It returns nil when the attempt came to nothing.
func editOnce(r *rand.Rand, cfg *GenCfg, s *Schema, single bool) (*Schema, *Edit) {
	n := s.clone()
	var cands []*Table
	for _, t := range n.Tables {
		if t.Like == nil {
			cands = append(cands, t)
		}
	}
	e := &Edit{}
	switch k := r.IntN(100); {
	case k < 4: // add a table
		names := nameSet{}
		var others []string
		for _, t := range n.Tables {
			names.take(t.Name)
			others = append(others, t.Name)
		}
		t := genTable(r, cfg, names.fresh(r, cfg), nameSet{}, others)
		at := r.IntN(len(n.Tables) + 1)
		if t.Like != nil {
			at = len(n.Tables)
		}
		n.Tables = append(n.Tables[:at:at], append([]*Table{t}, n.Tables[at:]...)...)
		e.Kind, e.Table = "add table", t.Name
	case k < 8: // drop a table
		if len(n.Tables) == 0 {
			return nil, nil
		}
		at := r.IntN(len(n.Tables))
		e.Kind, e.Table = "drop table", n.Tables[at].Name
		n.Tables = append(n.Tables[:at:at], n.Tables[at+1:]...)
	case k < 10 && !single: // rename a table
		if len(n.Tables) == 0 {
			return nil, nil
		}
		n.Tables[r.IntN(len(n.Tables))].Name += "2"
		e.Kind = "rename table"
	case k < 12 && !single: // reorder the tables
		r.Shuffle(len(n.Tables), func(i, j int) { n.Tables[i], n.Tables[j] = n.Tables[j], n.Tables[i] })
		e.Kind = "reorder tables"
	default:
		if len(cands) == 0 {
			return nil, nil
		}
		t := pick(r, cands)
		e.Table = t.Name
		colNames, _, _ := usedNames(t)
		switch k := r.IntN(100); {
		case k < 15:
			name := colNames.fresh(r, cfg)
			at := r.IntN(len(t.Cols) + 1)
			t.Cols = append(t.Cols[:at:at], append([]*Col{genCol(r, cfg, name)}, t.Cols[at:]...)...)
			t.Decl = nil
			e.Kind, e.Col = "add column", name
		case k < 25:
			at := r.IntN(len(t.Cols))
			c := t.Cols[at]
			if single {
				if c.Unique || c.Primary || c.Key {
					return nil, nil
				}
				for _, x := range t.Idx {
					for _, ic := range x.Cols {
						if ic.Name == c.Name {
							return nil, nil
						}
					}
				}
			}
			e.Kind, e.Col = "drop column", c.Name
			t.dropCol(at)
		case k < 29 && !single: // several columns in a row
			at := r.IntN(len(t.Cols) + 1)
			for i := 2 + r.IntN(6); i > 0; i-- {
				t.Cols = append(t.Cols[:at:at], append([]*Col{genCol(r, cfg, colNames.fresh(r, cfg))}, t.Cols[at:]...)...)
			}
			t.Decl = nil
			e.Kind = "add columns"
		case k < 32 && !single: // all columns replaced
			t.Idx = nil
			t.Decl = nil
			m := 1 + r.IntN(4)
			t.Cols = nil
			for i := 0; i < m; i++ {
				t.Cols = append(t.Cols, genCol(r, cfg, colNames.fresh(r, cfg)))
			}
			e.Kind = "replace all columns"
		case k < 35 && !single:
			r.Shuffle(len(t.Cols), func(i, j int) { t.Cols[i], t.Cols[j] = t.Cols[j], t.Cols[i] })
			t.Decl = nil
			e.Kind = "reorder columns"
		case k < 37 && !single:
			r.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
			t.Decl = nil
			e.Kind = "reorder indexes"
		case k < 40 && !single: // key on the column or as an index of its own
			c := pick(r, t.Cols)
			if chance(r, 50) {
				c.Unique = !c.Unique
			} else {
				c.Primary, c.Key = !c.Primary && !c.Key, false
				if c.Primary && chance(r, 30) {
					c.Primary, c.Key = false, true
				}
			}
			e.Kind = "column key"
		case k < 70:
			c := pick(r, t.Cols)
			before := colFP(normCol(c))
			ed := colEdits[r.IntN(len(colEdits))]
			if !ed.f(r, cfg, c) || colFP(normCol(c)) == before {
				return nil, nil
			}
			e.Kind, e.Col = "column "+ed.name, c.Name
		case k < 80:
			_, idx, syms := usedNames(t)
			hasPK := normTable(t).findPK() >= 0
			x := genIndex(r, cfg, t, idx, syms, nil, &hasPK)
			at := r.IntN(len(t.Idx) + 1)
			t.Idx = append(t.Idx[:at:at], append([]*Index{x}, t.Idx[at:]...)...)
			t.Decl = nil
			e.Kind, e.Idx = "add index", true
		case k < 88:
			if len(t.Idx) == 0 {
				return nil, nil
			}
			at := r.IntN(len(t.Idx))
			t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
			t.Decl = nil
			e.Kind, e.Idx = "drop index", true
		default:
			if len(t.Idx) == 0 {
				return nil, nil
			}
			x := pick(r, t.Idx)
			before := idxFP(x)
			ed := idxEdits[r.IntN(len(idxEdits))]
			if !ed.f(r, cfg, t, x) || idxFP(x) == before {
				return nil, nil
			}
			e.Kind, e.Idx = "index "+ed.name, true
		}
	}
	if !validSchema(n) {
		return nil, nil
	}
	return n, e
}

// genValid makes a schema that is valid in the sense of validSchema.
func genValid(r *rand.Rand, cfg *GenCfg) *Schema {
	for {
		if s := genSchema(r, cfg); validSchema(s) {
			return s
		}
	}
}

// genPair makes two schemas, most often related ones.
func genPair(r *rand.Rand, cfg *GenCfg) (from, to *Schema, kinds []string) {
	from = genValid(r, cfg)
	switch k := r.IntN(100); {
	case k < 10: // unrelated, apart from names
		to = genValid(r, cfg)
		for i, t := range to.Tables {
			if i < len(from.Tables) && chance(r, 70) && t.Like == nil && from.Tables[i].Like == nil {
				old := t.Name
				t.Name = from.Tables[i].Name
				for _, u := range to.Tables {
					if u.Like != nil && *u.Like == old {
						u.Like = sp(t.Name)
					}
				}
			}
		}
		if !validSchema(to) {
			return genPair(r, cfg)
		}
		return from, to, []string{"unrelated"}
	case k < 13:
		return from, &Schema{}, []string{"to nothing"}
	case k < 16:
		return &Schema{}, from, []string{"from nothing"}
	}
	to = from
	for n := 1 + r.IntN(8); n > 0; n-- {
		if x, e := editOnce(r, cfg, to, false); x != nil {
			to = x
			kinds = append(kinds, e.Kind)
		}
	}
	if chance(r, 50) {
		from, to = to, from
		for i := range kinds {
			kinds[i] = "reverse " + kinds[i]
		}
	}
	return from, to, kinds
}

// columnPair says that no table that stands in both is defined by LIKE.
func columnPair(from, to *Schema) bool {
	for _, t := range from.Tables {
		if u := to.table(t.Name); u != nil && (t.Like != nil || u.Like != nil) {
			return false
		}
	}
	return true
}
