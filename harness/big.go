package main

// Schemas with one dimension far beyond what is usual: a limit, a buffer, a
// cache or a fast path somewhere takes effect only there.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

type bigKind struct {
	Dim string
	N   int
}

func (b bigKind) String() string { return fmt.Sprintf("%s %d", b.Dim, b.N) }

func bigGridOf(counts, lens []int) []bigKind {
	var out []bigKind
	for _, d := range []string{"tables", "columns", "indexes", "members", "index columns", "options", "foreign keys"} {
		for _, n := range counts {
			out = append(out, bigKind{d, n})
		}
	}
	for _, d := range []string{"table name", "column names", "index names", "strings", "words"} {
		for _, n := range lens {
			out = append(out, bigKind{d, n})
		}
	}
	return out
}

// a grid with sizes around the usual limits
var bigGrid = bigGridOf([]int{17, 33, 65, 101, 129, 257, 520, 1030}, []int{65, 130, 257, 520, 1030, 4100, 17000, 66000})

// the same for what takes time proportional to the square
var bigPairGrid = bigGridOf([]int{17, 33, 65, 101, 129, 257, 520}, []int{65, 130, 257, 1030, 4100, 66000})

// longWord makes words of about n bytes that differ in few characters only.
type longWord struct {
	unit []rune
	at   int // where they differ
	n    int
}

func newLongWord(r *rand.Rand, n int) *longWord {
	unit := []rune(pick(r, []string{"x", "x", "abc_", "日本語", "é", "a b", "😀", "Xy", "a`b", "0x"}))
	var w []rune
	for l := 0; l < n; {
		for _, c := range unit {
			w = append(w, c)
			l += len(string(c))
		}
	}
	at := len(w) // at the end
	switch r.IntN(4) {
	case 0:
		at = 0
	case 1:
		at = r.IntN(len(w))
	}
	return &longWord{unit: w, at: at}
}

func (l *longWord) word(i int) string {
	return string(l.unit[:l.at]) + fmt.Sprintf("_%d_", i) + string(l.unit[l.at:])
}

// bigSchema makes a valid schema without LIKE whose first table, or whose list
// of tables, is big.
func bigSchema(r *rand.Rand, g bigKind) *Schema {
	for {
		if s := bigSchemaOnce(r, g); validSchema(s) {
			return s
		}
	}
}

func bigCol(r *rand.Rand, name string) *Col {
	return genCol(r, &GenCfg{Hostile: chance(r, 10)}, name)
}

func bigSchemaOnce(r *rand.Rand, g bigKind) *Schema {
	cfg := &GenCfg{Tables: 2, Cols: 4, Idx: 2, Hostile: chance(r, 20), NoFlags: true}
	s := genValid(r, cfg)
	t := s.Tables[0]
	t.Decl = nil
	switch g.Dim {
	case "tables":
		small := &GenCfg{Cols: 2, Idx: 1, NoFlags: true, NoOpts: true}
		for i := len(s.Tables); i < g.N; i++ {
			s.Tables = append(s.Tables, genTable(r, small, fmt.Sprintf("big_%d", i), nameSet{fmt.Sprint(i): true}, nil))
			for _, x := range s.Tables[i].Idx {
				if x.Symbol != nil { // symbols of foreign keys are names of the schema
					x.Symbol = sp(fmt.Sprintf("%s_%d", *x.Symbol, i))
				}
			}
		}
		r.Shuffle(len(s.Tables), func(i, j int) { s.Tables[i], s.Tables[j] = s.Tables[j], s.Tables[i] })
	case "columns":
		for i := len(t.Cols); i < g.N; i++ {
			t.Cols = append(t.Cols, bigCol(r, fmt.Sprintf("big_%d", i)))
		}
	case "indexes", "foreign keys":
		for i := 0; i < g.N; i++ {
			name := fmt.Sprintf("big_%d", i)
			x := &Index{Kind: pick(r, []string{"NORMAL", "UNIQUE", "FULLTEXT"}), Cols: genIdxCols(r, t, 2, false), Name: sp(name)}
			if g.Dim == "foreign keys" {
				x = &Index{Kind: "FOREIGN", Symbol: sp(name), Cols: genIdxCols(r, t, 1, true), Ref: &Ref{Table: fmt.Sprintf("p%d", r.IntN(9)), Cols: []IdxCol{{Name: "id"}}}}
			} else if x.Kind == "UNIQUE" && chance(r, 30) {
				x.Name, x.Symbol = nil, x.Name
			}
			t.Idx = append(t.Idx, x)
		}
		r.Shuffle(len(t.Idx), func(i, j int) { t.Idx[i], t.Idx[j] = t.Idx[j], t.Idx[i] })
	case "members":
		c := &Col{Name: "big_members", Type: pick(r, []string{"ENUM", "SET"})}
		for i := 0; i < g.N; i++ {
			v := fmt.Sprintf("m%d", i)
			if chance(r, 30) {
				v = pick(r, []string{" ", "''", `"`, ",", "é", "", "日本", `\\`, "A"}) + v + pick(r, []string{" ", "", ")", "`", ";", ", ", `\n`})
			}
			c.Vals = append(c.Vals, v)
		}
		at := r.IntN(len(t.Cols) + 1)
		t.Cols = append(t.Cols[:at:at], append([]*Col{c}, t.Cols[at:]...)...)
	case "index columns":
		for i := len(t.Cols); i < g.N; i++ {
			t.Cols = append(t.Cols, &Col{Name: fmt.Sprintf("big_%d", i), Type: "INT"})
		}
		x := &Index{Kind: pick(r, []string{"NORMAL", "UNIQUE", "FOREIGN", "FULLTEXT"}), Name: sp("big_index")}
		for _, i := range r.Perm(len(t.Cols)) {
			ic := IdxCol{Name: t.Cols[i].Name}
			if x.Kind != "FOREIGN" && chance(r, 20) {
				ic.Len = sp(genInt(r, 200))
			}
			x.Cols = append(x.Cols, ic)
		}
		if x.Kind == "FOREIGN" {
			x.Name, x.Symbol = nil, x.Name
			x.Ref = &Ref{Table: "p"}
			for i := range x.Cols {
				x.Ref.Cols = append(x.Ref.Cols, IdxCol{Name: fmt.Sprintf("r%d", i)})
			}
		}
		t.Idx = append(t.Idx, x)
	case "options":
		for len(t.Opts) < g.N {
			t.Opts = append(t.Opts, genOpts(r, cfg)...)
		}
		t.Opts = t.Opts[:g.N]
	case "table name":
		w := newLongWord(r, g.N)
		for i, t := range s.Tables {
			t.Name = w.word(i)
		}
		for i := 0; i < 3; i++ {
			s.Tables = append(s.Tables, &Table{Name: w.word(10 + i), Cols: []*Col{bigCol(r, "a")}, Idx: []*Index{{Kind: "FOREIGN", Symbol: sp(fmt.Sprintf("fk_%d", i)), Cols: []IdxCol{{Name: "a"}}, Ref: &Ref{Table: w.word(i), Cols: []IdxCol{{Name: "a"}}}}}})
		}
	case "column names":
		w := newLongWord(r, g.N)
		for i := 0; i < 5; i++ {
			t.Cols = append(t.Cols, bigCol(r, w.word(i)))
		}
		t.Idx = append(t.Idx, &Index{Kind: "NORMAL", Name: sp("big_index"), Cols: genIdxCols(r, t, 5, false)})
	case "index names":
		w := newLongWord(r, g.N)
		for i := 0; i < 4; i++ {
			x := &Index{Kind: pick(r, []string{"NORMAL", "UNIQUE", "FULLTEXT", "FOREIGN"}), Cols: genIdxCols(r, t, 1, true), Name: sp(w.word(i))}
			if x.Kind == "FOREIGN" {
				x.Symbol, x.Name = x.Name, nil
				x.Ref = &Ref{Table: "p", Cols: []IdxCol{{Name: "id"}}}
			} else if x.Kind == "UNIQUE" && chance(r, 50) {
				x.Symbol, x.Name = x.Name, nil
			}
			t.Idx = append(t.Idx, x)
		}
	case "strings":
		w := newLongWord(r, g.N)
		q := func(i int) string { // a raw string
			s := w.word(i)
			if chance(r, 50) {
				s = strings.Replace(s, fmt.Sprintf("_%d_", i), pick(r, []string{"'", `"`, `\\`, `\n`, ";", "\n", "é"})+fmt.Sprint(i), 1)
			}
			return s
		}
		t.Cols = append(t.Cols, &Col{Name: "big_comment", Type: "INT", Comment: sp(q(1))},
			&Col{Name: "big_default", Type: "TEXT", Def: &Default{Kind: defString, Val: q(2)}},
			&Col{Name: "big_enum", Type: "ENUM", Vals: []string{q(3), "short", q(4)}},
			&Col{Name: "big_set", Type: "SET", Vals: []string{"short", q(5)}})
		t.Opts = append(t.Opts, Opt{Key: pick(r, []string{"COMMENT", "CONNECTION", "DATA DIRECTORY", "PASSWORD"}), Val: q(6), Quoted: true})
	case "words":
		// numbers and other things that are not quoted
		digits := strings.Repeat(pick(r, []string{"1", "90", "123"}), g.N)[:g.N]
		t.Cols = append(t.Cols, &Col{Name: "big_len", Type: "VARCHAR", Len: sp(digits)},
			&Col{Name: "big_number", Type: "DECIMAL", Len: sp("1" + digits), Dec: sp("2" + digits), Def: &Default{Kind: defNumber, Val: "-" + digits + ".5"}},
			&Col{Name: "big_charset", Type: "CHAR", Len: sp("3"), Charset: sp("c" + digits), Collate: sp("d" + digits)})
		t.Opts = append(t.Opts, Opt{Key: "MAX_ROWS", Val: digits}, Opt{Key: "ENGINE", Val: "e" + digits})
		t.Idx = append(t.Idx, &Index{Kind: "NORMAL", Name: sp("big_index"), Cols: []IdxCol{{Name: "big_charset", Len: sp("4" + digits)}}})
	default:
		panic(g.Dim)
	}
	return s
}

// changeRune changes one character of a word, so that it stays valid there.
func changeRune(r *rand.Rand, w string) string {
	l := []rune(w)
	for n := 0; n < 50 && len(l) > 0; n++ {
		i := r.IntN(len(l))
		if c := l[i]; c == 'x' || c >= 'a' && c <= 'm' || c >= '0' && c <= '8' || c == '_' || c == 0x65e5 || c == 0xe9 {
			if i > 0 && l[i-1] == '\\' {
				continue
			}
			l[i]++
			return string(l)
		}
	}
	return w + "z"
}

// bigEdit changes the big schema once, in the dimension that is big.
func bigEdit(r *rand.Rand, s *Schema, g bigKind) (*Schema, string) {
	for try := 0; try < 200; try++ {
		n := s.clone()
		what := bigEditOnce(r, n, g)
		if what != "" && validSchema(n) && meaning(n) != meaning(s) {
			return n, "big: " + what
		}
	}
	return s, "none"
}

func bigTable(s *Schema, is func(*Table) bool) *Table {
	for _, t := range s.Tables {
		if is(t) {
			return t
		}
	}
	return s.Tables[0]
}

func bigEditOnce(r *rand.Rand, s *Schema, g bigKind) string {
	switch g.Dim {
	case "tables", "table name":
		if len(s.Tables) == 0 {
			return ""
		}
		at := r.IntN(len(s.Tables))
		switch r.IntN(4) {
		case 0:
			s.Tables = append(s.Tables[:at:at], s.Tables[at+1:]...)
			return "table dropped"
		case 1:
			t := s.Tables[at].clone()
			t.Name = changeRune(r, t.Name)
			for _, x := range t.Idx {
				if x.Symbol != nil {
					x.Symbol = sp(*x.Symbol + "n")
				}
			}
			s.Tables = append(s.Tables[:at:at], append([]*Table{t}, s.Tables[at:]...)...)
			return "table added"
		case 2:
			k := 1 + r.IntN(len(s.Tables))
			s.Tables = s.Tables[k-1:]
			return "many tables dropped"
		}
		t := s.Tables[at]
		t.Decl = nil
		t.Cols = append(t.Cols, bigCol(r, "added"))
		return "column added somewhere"
	case "columns", "column names":
		t := bigTable(s, func(t *Table) bool { return len(t.Cols) >= 5 })
		at := r.IntN(len(t.Cols))
		switch r.IntN(4) {
		case 0:
			if len(t.Cols) < 2 {
				return ""
			}
			t.dropCol(at)
			return "column dropped"
		case 1:
			t.Cols = append(t.Cols[:at:at], append([]*Col{bigCol(r, changeRune(r, t.Cols[at].Name))}, t.Cols[at:]...)...)
			return "column added"
		case 2:
			k := r.IntN(len(t.Cols) - at)
			for ; k > 0; k-- {
				t.dropCol(at)
			}
			return "many columns dropped"
		}
		old := t.Cols[at]
		t.Cols[at] = bigCol(r, old.Name)
		return "column changed"
	case "indexes", "foreign keys", "index names":
		t := bigTable(s, func(t *Table) bool { return len(t.Idx) >= 4 })
		if len(t.Idx) == 0 {
			return ""
		}
		at := r.IntN(len(t.Idx))
		switch r.IntN(3) {
		case 0:
			t.Idx = append(t.Idx[:at:at], t.Idx[at+1:]...)
			return "index dropped"
		case 1:
			x := t.Idx[at].clone()
			if x.Name != nil {
				x.Name = sp(changeRune(r, *x.Name))
			}
			if x.Symbol != nil {
				x.Symbol = sp(changeRune(r, *x.Symbol))
			}
			t.Idx = append(t.Idx[:at:at], append([]*Index{x}, t.Idx[at:]...)...)
			return "index added"
		}
		t.Idx[at].Cols = genIdxCols(r, t, 1, true)
		if x := t.Idx[at]; x.Ref != nil {
			x.Ref.Cols = x.Ref.Cols[:1]
			x.Ref.Cols[0].Name = pick(r, []string{"id", "other"})
		}
		return "index changed"
	case "members":
		for _, t := range s.Tables {
			for _, c := range t.Cols {
				if c.Name != "big_members" {
					continue
				}
				if len(c.Vals) < 2 {
					return ""
				}
				i, j := r.IntN(len(c.Vals)), r.IntN(len(c.Vals))
				switch r.IntN(4) {
				case 0:
					c.Vals = append(c.Vals[:i:i], c.Vals[i+1:]...)
					return "member dropped"
				case 1:
					c.Vals = append(c.Vals[:i:i], append([]string{"new"}, c.Vals[i:]...)...)
					return "member added"
				case 2:
					c.Vals[i], c.Vals[j] = c.Vals[j], c.Vals[i]
					return "members swapped"
				}
				c.Vals[i] = changeRune(r, c.Vals[i])
				return "member changed"
			}
		}
	case "index columns":
		for _, t := range s.Tables {
			for _, x := range t.Idx {
				if len(x.Cols) < 10 {
					continue
				}
				i, j := r.IntN(len(x.Cols)), r.IntN(len(x.Cols))
				switch r.IntN(3) {
				case 0:
					x.Cols = append(x.Cols[:i:i], x.Cols[i+1:]...)
					if x.Ref != nil {
						x.Ref.Cols = append(x.Ref.Cols[:i:i], x.Ref.Cols[i+1:]...)
					}
					return "column of an index dropped"
				case 1:
					x.Cols[i], x.Cols[j] = x.Cols[j], x.Cols[i]
					return "columns of an index swapped"
				}
				if x.Ref != nil {
					x.Ref.Cols[i].Name += "x"
				} else {
					x.Cols[i].Len = sp(genInt(r, 99))
				}
				return "column of an index changed"
			}
		}
	case "options":
		// the differ does not migrate them; a column next to them
		t := s.Tables[0]
		t.Cols = append(t.Cols, bigCol(r, "added"))
		return "column added"
	case "strings", "words":
		var l []*Col
		for _, t := range s.Tables {
			for _, c := range t.Cols {
				if strings.HasPrefix(c.Name, "big_") {
					l = append(l, c)
				}
			}
		}
		if len(l) == 0 {
			return ""
		}
		switch c := pick(r, l); {
		case c.Comment != nil:
			c.Comment = sp(changeRune(r, *c.Comment))
		case c.Def != nil && chance(r, 60):
			c.Def.Val = changeRune(r, c.Def.Val)
		case c.Vals != nil:
			i := r.IntN(len(c.Vals))
			c.Vals[i] = changeRune(r, c.Vals[i])
		case c.Charset != nil && chance(r, 60):
			c.Charset = sp(changeRune(r, *c.Charset))
		case c.Dec != nil && chance(r, 50):
			c.Dec = sp(changeRune(r, *c.Dec))
		case c.Len != nil:
			c.Len = sp(changeRune(r, *c.Len))
		}
		return "word changed"
	}
	return ""
}

// bigPair makes two schemas, one of which at least is big.
func bigPair(r *rand.Rand, g bigKind) (from, to *Schema, kinds []string) {
	from = bigSchema(r, g)
	switch k := r.IntN(100); {
	case k < 10:
		return from, &Schema{}, []string{"big: to nothing"}
	case k < 25:
		return &Schema{}, from, []string{"big: from nothing"}
	}
	to = from
	for n := pick(r, []int{1, 1, 2, 5}); n > 0; n-- {
		x, kind := bigEdit(r, to, g)
		to, kinds = x, append(kinds, kind)
	}
	if chance(r, 50) {
		from, to = to, from
	}
	return
}
