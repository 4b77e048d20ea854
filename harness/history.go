package main

// Histories. A case of a "history: ..." phase does what the case of the phase
// without a history does, but nothing it uses is fresh: its parsers and
// linters have read other texts before (the same text, that text cut short,
// in another case, damaged, twice; as a string, as bytes and from a file),
// what came of those was formatted, normalized, diffed, looked through and
// then changed through the API; a diff is made after other diffs, some of
// which failed; and an object that is built through the API is looked at
// after each step of the building. None of it may show in what the case sees,
// and the oracle of the phase, which knows nothing of the history, says so.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

type History struct {
	r    *rand.Rand
	c    *Case
	file string
	busy bool
	left int // how much may be looked at
}

// hist is nil in cases without a history.
var hist *History

type limitedWriter struct{ n int }

var errFull = errors.New("full")

func (w *limitedWriter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, errFull
	}
	w.n -= len(p)
	return len(p), nil
}

type failingSource struct {
	text string
	err  error
}

func (s failingSource) WriteSchema(w io.Writer) error {
	io.WriteString(w, s.text)
	return s.err
}

// quietly does what is not what the case is about.
func (h *History) quietly(f func()) {
	if h.busy {
		return
	}
	h.busy = true
	defer func() {
		h.busy = false
		if h.c.W.Check.ID != "C01" {
			recover() // what goes wrong here is C01's business
		}
	}()
	f()
}

func otherCase(s string) string {
	return strings.Map(func(x rune) rune {
		if unicode.IsUpper(x) {
			return unicode.ToLower(x)
		}
		return unicode.ToUpper(x)
	}, s)
}

const otherText = "CREATE TABLE `t` (`a` INT, `b` VARCHAR(20) DEFAULT 'x', PRIMARY KEY (`a`), KEY `ix0` (`b` (5)));\nSET a = 1;\nCREATE TEMPORARY TABLE t0 LIKE t;\nCREATE TABLE t1 (id INT UNIQUE, CONSTRAINT fk0 FOREIGN KEY (id) REFERENCES t (a) ON DELETE CASCADE) ENGINE = InnoDB;\n"

// related gives a text that a parser may have read before text.
func (h *History) related(text string) string {
	r := h.r
	switch r.IntN(11) {
	case 0, 1:
		return text
	case 2: // it ends too early
		return text[:r.IntN(len(text)+1)]
	case 3:
		return otherCase(text)
	case 4:
		return mutateBytes(r, text, 1+r.IntN(3))
	case 5:
		return text + ";\n" + text
	case 6:
		return "CREATE TABLE a ("
	case 7:
		return otherText
	case 8:
		return otherText + "CREATE TABLE a (a INT, KEY ("
	case 9:
		return strings.Repeat("\n", r.IntN(9)) + strings.Repeat(" ", r.IntN(9)) + text
	default: // one character is another one
		if len(text) == 0 {
			return text
		}
		b := []byte(text)
		for range 1 + r.IntN(3) {
			b[r.IntN(len(b))] = "abz019`'\"(),; \n/*-#."[r.IntN(20)]
		}
		return string(b)
	}
}

// lookAt asks for everything an object can say.
func (h *History) lookAt(objs ...interface{}) {
	for _, o := range objs {
		h.left -= 1
		if t, ok := o.(model.Table); ok {
			h.left -= 10 + len(t.Columns()) + len(t.Indexes())
		}
		var b bytes.Buffer
		format.SQL(&b, o)
		format.SQL(&b, o, format.WithIndent(pick(h.r, []string{" ", "\t"}), h.r.IntN(3)))
		switch m := o.(type) {
		case model.TableColumn:
			m.ID()
			exCol(m)
			m.NativeLength()
			if n, changed := m.Normalize(); changed && n != m {
				n.ID()
				n.SetComment("seen").SetAutoIncrement(true)
			}
			cl := m.Clone()
			exCol(cl)
			cl.SetComment("seen").SetType(model.ColumnTypeGEOMETRY)
		case model.Index:
			m.ID()
			exIndex(m)
			if n, changed := m.Normalize(); changed && n != m {
				n.ID()
				n.SetName("seen")
			}
			cl := m.Clone()
			cl.ID()
			cl.SetName("seen").SetSymbol("seen")
			cl.AddColumns(model.NewIndexColumn("seen"))
			if ref := m.Reference(); ref != nil {
				_ = ref.ID() + ref.String()
			}
		case model.Reference:
			_ = m.ID() + m.String()
			exIdxCols(m.Columns())
		case model.IndexColumn:
			m.ID()
		case model.Table:
			m.ID()
			s := exTable(m)
			for _, col := range s.Cols {
				id := model.NewTableColumn(col.Name).ID()
				m.LookupColumn(id)
				m.LookupColumnOrder(id)
				m.LookupColumnBefore(id)
			}
			m.LookupColumn("tablecol#nosuch")
			m.LookupIndex("index#nosuch")
			for x := range m.Indexes() {
				m.LookupIndex(x.ID())
			}
			n, _ := m.Normalize()
			exTable(n)
			diff.Statements(&b, model.Stmts{m}, model.Stmts{n})
			diff.Statements(&b, model.Stmts{model.NewTable(m.Name())}, model.Stmts{m})
			diff.Statements(&b, model.Stmts{m}, model.Stmts{model.NewTable(m.Name())})
		}
	}
}

// touch is called while an object is built: it is looked at, and goes on
// being built.
func touch(objs ...interface{}) {
	if hist == nil || hist.busy || hist.left < 0 || hist.r.IntN(2) == 0 {
		return
	}
	hist.quietly(func() { hist.lookAt(objs...) })
	hist.c.Count("half-built objects looked at")
}

// changeCol changes a column.
func changeCol(r *rand.Rand, m model.TableColumn) {
	switch r.IntN(6) {
	case 0, 1:
		m.SetType(colTypes[pick(r, types).Name])
	case 2:
		m.SetNullState(pick(r, []model.NullState{model.NullStateNone, model.NullStateNull, model.NullStateNotNull}))
	case 3:
		m.SetDefault(pick(r, []string{"NULL", "TRUE", "FALSE", "0", "1", "1.0", "", "CURRENT_TIMESTAMP"}), chance(r, 40))
	default:
		pick(r, colMutations)(m)
	}
}

// spoil changes what a parse gave.
func (h *History) spoil(l model.Stmts) {
	for _, st := range l {
		t, ok := st.(model.Table)
		if !ok {
			continue
		}
		for col := range t.Columns() {
			if chance(h.r, 50) {
				changeCol(h.r, col)
			}
		}
		for x := range t.Indexes() {
			if chance(h.r, 50) {
				pick(h.r, idxMutations)(x)
			}
		}
		if chance(h.r, 50) {
			t.SetTemporary(!t.IsTemporary()).SetIfNotExists(!t.IsIfNotExists())
		}
		if chance(h.r, 30) {
			t.SetLikeTable("spoiled")
		}
		if chance(h.r, 50) {
			t.AddColumn(model.NewTableColumn("spoiled").SetType(model.ColumnTypeInt))
			t.AddIndex(model.NewIndex(model.IndexKindNormal, t.ID()))
			t.AddOption(model.NewTableOption("ENGINE", "spoiled", false))
		}
	}
}

// use does with the result of a parse what users do.
func (h *History) use(l model.Stmts) {
	var b bytes.Buffer
	switch h.r.IntN(4) {
	case 0:
		format.SQL(&b, l, format.WithIndent(" ", h.r.IntN(4)))
	case 1:
		format.SQL(&limitedWriter{h.r.IntN(60)}, l, format.WithIndent("\t", 1+h.r.IntN(3)))
	case 2:
		diff.Statements(&b, l, l)
		diff.Statements(&limitedWriter{h.r.IntN(60)}, nil, l)
	case 3:
		for _, st := range l {
			h.lookAt(st)
		}
	}
	if chance(h.r, 70) {
		h.spoil(l)
	}
}

// read has a parser read a text in one of the ways there are.
func (h *History) read(p *schemalex.Parser, text string) {
	var l model.Stmts
	var err error
	switch h.r.IntN(3) {
	case 0:
		l, err = p.ParseString(text)
	case 1:
		buf := []byte(text)
		l, err = p.Parse(buf)
		if chance(h.r, 30) && err != nil {
			clear(buf)
		}
	case 2:
		os.WriteFile(h.file, []byte(text), 0644)
		l, err = p.ParseFile(h.file)
		os.Remove(h.file)
	}
	if err != nil {
		if pe, ok := err.(schemalex.ParseError); ok {
			_ = pe.Error() + pe.Message() + pe.File()
			pe.Line()
			pe.Col()
			pe.EOF()
		}
		h.c.Count("earlier texts that failed")
		return
	}
	h.c.Count("earlier texts that parsed")
	h.use(l)
}

// some is how often something was done before.
func (h *History) some() int {
	if chance(h.r, 4) {
		return 4 + h.r.IntN(30)
	}
	return 1 + h.r.IntN(3)
}

// newParser gives a parser for text.
func newParser(text string) *schemalex.Parser {
	h := hist
	if h == nil || h.busy || len(text) > 1<<18 {
		return schemalex.New()
	}
	p := schemalex.New()
	h.quietly(func() {
		for range h.some() {
			q := p
			if chance(h.r, 20) {
				q = schemalex.New()
			}
			h.read(q, h.related(text))
		}
	})
	h.c.Count("parsers with a history")
	return p
}

// newLinter gives a linter for text.
func newLinter(text string) *lint.Linter {
	h := hist
	if h == nil || h.busy || len(text) > 1<<18 {
		return lint.New()
	}
	l := lint.New()
	h.quietly(func() {
		for range h.some() {
			var src schemalex.SchemaSource = schemalex.NewReaderSource(strings.NewReader(h.related(text)))
			var dst io.Writer = io.Discard
			switch h.r.IntN(4) {
			case 0:
				src = failingSource{h.related(text), errFull}
			case 1:
				dst = &limitedWriter{h.r.IntN(len(text) + 10)}
			}
			if l.Run(context.Background(), src, dst, lint.WithIndent(pick(h.r, []string{" ", "\t", "  "}), h.r.IntN(4))) != nil {
				h.c.Count("earlier lints that failed")
			} else {
				h.c.Count("earlier lints that went well")
			}
		}
	})
	return l
}

// earlierDiffs makes other diffs before one of from and to.
func earlierDiffs(from, to string) {
	h := hist
	if h == nil || h.busy || len(from)+len(to) > 1<<18 {
		return
	}
	h.quietly(func() {
		for range 1 + h.r.IntN(2) {
			a, b := from, to
			if chance(h.r, 50) {
				a, b = b, a
			}
			if chance(h.r, 40) {
				a = h.related(a)
			}
			if chance(h.r, 40) {
				b = h.related(b)
			}
			var dst io.Writer = io.Discard
			if chance(h.r, 40) {
				dst = &limitedWriter{h.r.IntN(120)}
			}
			if diff.Strings(dst, a, b, diff.WithTransaction(chance(h.r, 50))) != nil {
				h.c.Count("earlier diffs that failed")
			} else {
				h.c.Count("earlier diffs that went well")
			}
		}
	})
}

// earlierDiffsOf does so with the statements themselves.
func earlierDiffsOf(from, to model.Stmts) {
	h := hist
	if h == nil || h.busy {
		return
	}
	h.quietly(func() {
		var dst io.Writer = io.Discard
		if chance(h.r, 40) {
			dst = &limitedWriter{h.r.IntN(120)}
		}
		switch h.r.IntN(4) {
		case 0:
			diff.Statements(dst, to, from, diff.WithTransaction(chance(h.r, 50)))
		case 1:
			diff.Statements(dst, from, from)
		case 2:
			diff.Statements(dst, nil, to)
		case 3:
			diff.Statements(dst, from, to, diff.WithTransaction(chance(h.r, 50)))
		}
	})
}

// earlierFormats formats an object in other ways before.
func earlierFormats(o interface{}) {
	h := hist
	if h == nil || h.busy {
		return
	}
	h.quietly(func() {
		format.SQL(&limitedWriter{h.r.IntN(80)}, o, format.WithIndent("\t", h.r.IntN(3)))
		format.SQL(io.Discard, o, format.WithIndent("    ", h.r.IntN(3)))
	})
}

type histPhase struct {
	name     string
	quick    int
	thorough int
}

// addHistories adds a copy with a history of some of a check's phases.
func addHistories(id string, l ...histPhase) {
	ck := checks[id]
	for _, hp := range l {
		var of *Phase
		for i := range ck.Phases {
			if ck.Phases[i].Name == hp.name {
				of = &ck.Phases[i]
			}
		}
		if of == nil {
			panic("no phase " + hp.name + " in " + id)
		}
		run := of.Run
		ck.Phases = append(ck.Phases, Phase{Name: "history: " + hp.name, Quick: hp.quick, Thorough: hp.thorough, Serial: of.Serial, Run: func(c *Case) {
			hist = &History{r: newRand(c.W.Seed, c.W.Check.ID, c.Phase, c.Index, "history"), c: c, left: 3000, file: filepath.Join(c.W.Scratch, "history.sql")}
			defer func() { hist = nil }()
			run(c)
		}})
	}
}

func init() {
	addHistories("C01", histPhase{"mutated-tokens", 6000, 300000}, histPhase{"token-soup", 4000, 200000})
	addHistories("C02", histPhase{"random-gap", 6000, 300000}, histPhase{"cut", 5000, 200000}, histPhase{"open-literals", 2000, 80000})
	addHistories("C03", histPhase{"random", 3000, 100000}, histPhase{"index-grid", 600, 600})
	addHistories("C04", histPhase{"random", 1500, 50000})
	addHistories("C05", histPhase{"scripts", 3000, 100000}, histPhase{"noise-between-two", 3000, 100000}, histPhase{"bad-tails", 2000, 80000}, histPhase{"stray-nul", 1000, 40000})
	addHistories("C06", histPhase{"tables-built", 5000, 150000}, histPhase{"tables-parsed", 1500, 40000})
	addHistories("C07", histPhase{"random", 1000, 30000}, histPhase{"built", 1200, 40000}, histPhase{"mutated", 6000, 300000})
	addHistories("C08", histPhase{"random", 700, 30000})
	addHistories("C09", histPhase{"random", 2000, 80000}, histPhase{"with-ignored-statements", 500, 15000})
	addHistories("C10", histPhase{"random", 600, 30000})
	for _, id := range []string{"C11", "C12", "C13"} {
		addHistories(id, histPhase{"random-pairs", 2500, 100000})
	}
	addHistories("C15", histPhase{"valid-pairs", 500, 20000}, histPhase{"broken-pairs", 300, 10000})
	addHistories("C20", histPhase{"diff", 40, 3000}, histPhase{"format", 40, 3000}, histPhase{"lint", 20, 1500})
	addHistories("C22", histPhase{"confusing", 6000, 200000}, histPhase{"references", 3000, 100000}, histPhase{"edits", 2500, 80000}, histPhase{"lookups", 1500, 50000})
	addHistories("C25", histPhase{"random-edits", 8000, 300000})
}

// ---- schemas that are changed between two diffs

// changeInPlace changes parsed statements through the API, in ways that leave
// them a schema.
func changeInPlace(r *rand.Rand, l model.Stmts) (kinds []string) {
	for range 1 + r.IntN(3) {
		st := pick(r, l)
		t, ok := st.(model.Table)
		if !ok || t.HasLikeTable() {
			continue
		}
		var cols []model.TableColumn
		for x := range t.Columns() {
			cols = append(cols, x)
		}
		var idx []model.Index
		for x := range t.Indexes() {
			idx = append(idx, x)
		}
		var names []string
		for _, x := range cols {
			names = append(names, x.Name())
		}
		unused := func(x model.ColumnContainer) (string, bool) {
			has := nameSet{}
			for _, ic := range exIdxCols(x.Columns()) {
				has.take(ic.Name)
			}
			for _, n := range names {
				if has.take(n) {
					return n, true
				}
			}
			return "", false
		}
		did := func(k string) { kinds = append(kinds, k) }
		switch r.IntN(9) {
		case 0:
			x := genCol(r, &GenCfg{}, pick(r, []string{"added", "an added one"}))
			x.Primary, x.Key, x.Unique, x.AutoInc = false, false, false, false
			if _, has := t.LookupColumn(model.NewTableColumn(x.Name).ID()); !has {
				t.AddColumn(buildCol(x))
				did("column added")
			}
		case 1:
			if len(cols) > 0 {
				x := model.NewIndex(pick(r, []model.IndexKind{model.IndexKindNormal, model.IndexKindUnique}), t.ID())
				x.SetName(pick(r, []string{"added", "an added one"}))
				x.AddColumns(model.NewIndexColumn(pick(r, names)))
				t.AddIndex(x)
				did("index added")
			}
		case 2, 3:
			if len(cols) > 0 {
				x := pick(r, cols)
				switch r.IntN(4) {
				case 0:
					x.SetComment(pick(r, []string{"changed", "changed again"}))
				case 1:
					x.SetNullState(model.NullStateNotNull)
				case 2:
					x.SetType(model.ColumnTypeInt).SetUnsigned(true)
				case 3:
					x.SetZeroFill(!x.IsZeroFill())
				}
				did("column changed")
			}
		default:
			if len(idx) == 0 {
				break
			}
			x := pick(r, idx)
			ref := x.Reference()
			switch r.IntN(8) {
			case 0:
				if x.HasName() {
					x.SetName(pick(r, []string{"renamed", "a renamed one"}))
					did("index renamed")
				}
			case 1:
				x.SetType(pick(r, []model.IndexType{model.IndexTypeBtree, model.IndexTypeHash, model.IndexTypeNone}))
				did("index type")
			case 2:
				if ics := x.Columns(); len(ics) > 0 {
					ic := <-ics
					switch r.IntN(2) {
					case 0:
						ic.SetLength(pick(r, []string{"3", "4"}))
					case 1:
						ic.SetSortDirection(pick(r, []model.IndexColumnSortDirection{model.SortDirectionDescending, model.SortDirectionAscending, model.SortDirectionNone}))
					}
					did("index column changed")
				}
			case 3:
				if ref != nil {
					ref.SetOnDelete(model.ReferenceOptionCascade)
					did("reference changed")
				}
			case 4:
				if ref != nil {
					ref.SetTableName("another one")
					did("reference changed")
				}
			case 5:
				if x.HasSymbol() {
					x.SetSymbol(pick(r, []string{"resigned", "a resigned one"}))
					did("symbol changed")
				}
			default:
				if n, ok := unused(x); ok {
					x.AddColumns(model.NewIndexColumn(n))
					if ref != nil {
						ref.AddColumns(model.NewIndexColumn(n))
					}
					did("index column added")
				}
			}
		}
	}
	return kinds
}

// changedInPlace diffs schemas, changes one of them through the API, and
// hands it on with the text it now is.
func changedInPlace(c *Case, judge func(changed, other model.Stmts, text, otherText string, s, o *Schema, kinds []string) bool) {
	from, to, _ := genPair(c.R, &GenCfg{Tables: 2, Cols: 5, Idx: 5, Hostile: chance(c.R, 20)})
	if chance(c.R, 50) {
		to = from
	}
	otherText := render(to, plainStyle()).Text
	a, _, ok := parseOK(c, render(from, plainStyle()).Text)
	b, o, ok2 := parseOK(c, otherText)
	if !ok || !ok2 || len(a) == 0 {
		return
	}
	var kinds []string
	for range 1 + c.R.IntN(3) {
		// what is to be forgotten
		for range 1 + c.R.IntN(2) {
			switch c.R.IntN(4) {
			case 0:
				diffStmts(b, a)
			case 1:
				diffStmts(a, a)
			case 2:
				formatEach(a)
			default:
				diffStmts(a, b)
			}
		}
		kinds = append(kinds, changeInPlace(c.R, a)...)
		f, err := formatEach(a)
		if err != nil {
			c.Count("changed schemas left out: no text")
			return
		}
		text := script(f)
		a2, err := schemalex.New().ParseString(text)
		if err != nil {
			c.Count("changed schemas left out: not parsed")
			return
		}
		f2, err := formatEach(a2)
		s, e1 := exStmts(a2)
		sa, e2 := exStmts(a)
		if err != nil || e1 != nil || e2 != nil || script(f2) != text || schemaFP(s) != schemaFP(sa) || !validSchema(s) {
			c.Count("changed schemas left out: the text says something else")
			return
		}
		c.Input(text, otherText)
		c.Count("changed schemas")
		for _, k := range kinds {
			c.Feature("changed in place: " + k)
		}
		if !judge(a, b, text, otherText, s, o, kinds) {
			return
		}
	}
}

// addChangedInPlace adds the phase to a migration check.
func addChangedInPlace(id string, check func(c *Case, m *migration) bool) {
	ck := checks[id]
	ck.Phases = append(ck.Phases, Phase{Name: "changed-in-place", Quick: 4000, Thorough: 150000, Run: func(c *Case) {
		changedInPlace(c, func(changed, other model.Stmts, text, otherText string, s, o *Schema, kinds []string) bool {
			for _, back := range []bool{false, true} {
				m := &migration{From: s, To: o, FromText: text, ToText: otherText, Kinds: kinds}
				x, y := changed, other
				if back {
					m.From, m.To, m.FromText, m.ToText = o, s, otherText, text
					x, y = other, changed
				}
				if !columnPair(m.From, m.To) {
					c.Count("pairs with a LIKE table on both sides left out")
					return false
				}
				m.MustFail, m.Why = mustFail(m.From, m.To)
				m.Out, m.Err = diffStmts(x, y)
				c.Count("diffs")
				if m.Err == nil {
					var err error
					if m.Stmts, err = parseSQL(m.Out); err != nil {
						c.Fail("unreadable", "the diff can not be read: %v\n%s", err, m)
						return false
					}
				}
				if !check(c, m) {
					return false
				}
			}
			return true
		})
	}})
}

func init() {
	addChangedInPlace("C11", checkResult)
	addChangedInPlace("C12", checkSequence)
	addChangedInPlace("C13", checkMinimal)
	c15 := checks["C15"]
	c15.Phases = append(c15.Phases, Phase{Name: "changed-in-place", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
		changedInPlace(c, func(changed, other model.Stmts, text, otherText string, s, o *Schema, kinds []string) bool {
			for _, back := range []bool{false, true} {
				x, y, xt, yt := changed, other, text, otherText
				if back {
					x, y, xt, yt = y, x, yt, xt
				}
				txn := diff.WithTransaction(chance(c.R, 50))
				got, err := diffStmts(x, y, txn)
				want, werr := diffStrings(xt, yt, txn)
				c.Count("diffs")
				if (err != nil) != (werr != nil) || got != want {
					c.Fail("output", "Statements with statements that were changed through the API (%s): error %v, Strings: error %v\n%s\n--- from\n%s\n--- to\n%s", strings.Join(kinds, ", "), err, werr, firstDiff(got, want), xt, yt)
					return false
				}
			}
			return true
		})
	}})
	c16 := checks["C16"]
	c16.Phases = append(c16.Phases, Phase{Name: "results", Quick: 600, Thorough: 20000, Run: func(c *Case) {
		// what is done with a result shows in no other result
		text := render(genSchema(c.R, &GenCfg{Tables: 3, Cols: 5, Idx: 4, Hostile: true, Like: true}), wildStyle(c.R)).Text
		c.Input(text)
		p, q := schemalex.New(), schemalex.New()
		parse := func() (model.Stmts, error) {
			switch c.R.IntN(4) {
			case 0:
				return p.Parse([]byte(text))
			case 1:
				return p.ParseFile(c.file("text.sql", text))
			case 2:
				return q.ParseString(text)
			}
			return p.ParseString(text)
		}
		h := &History{r: c.R, c: c}
		first, err := parse()
		want := stmtsText(first, err)
		var second model.Stmts
		if chance(c.R, 50) {
			second, _ = parse()
		}
		if chance(c.R, 50) {
			var b bytes.Buffer
			diff.Strings(&b, text, text, diff.WithParser(p))
		}
		for range 1 + c.R.IntN(3) {
			h.spoil(first)
		}
		if second != nil {
			if got := stmtsText(second, nil); got != want {
				c.Fail("result", "the result of one call shows in that of another\n%s\n--- text\n%s", firstDiff(got, want), text)
				return
			}
		}
		for range 2 {
			l, err := parse()
			c.Count("results compared")
			if got := stmtsText(l, err); got != want {
				c.Fail("result", "what was done with an earlier result shows in a later one\n%s\n--- text\n%s", firstDiff(got, want), text)
				return
			}
			h.spoil(l)
		}
	}})
}

// ---- objects and what they went through

// wentThrough gives tables that were parsed or built, normalized, copied,
// looked at and changed, and for each one that says the same and was just
// built.
func wentThrough(c *Case, judge func(old, fresh model.Table) bool) {
	h := &History{r: c.R, c: c, left: 1 << 30}
	r := c.R
	s := genSchema(r, &GenCfg{Tables: 2, Cols: 5, Idx: 5, Hostile: chance(r, 30), Like: true})
	for _, t := range s.Tables {
		t.Decl = nil
	}
	var l model.Stmts
	if chance(r, 50) {
		l, _ = schemalex.New().ParseString(render(s, plainStyle()).Text)
	} else {
		for _, t := range s.Tables {
			l = append(l, buildTable(t))
		}
	}
	for _, st := range l {
		t := st.(model.Table)
		for range 1 + r.IntN(4) {
			if chance(r, 60) {
				h.lookAt(t)
			}
			if chance(r, 40) {
				t, _ = t.Normalize()
				c.Count("went on with the normal form")
			}
			if chance(r, 30) {
				// a table of copies
				u := model.NewTable(t.Name()).SetTemporary(t.IsTemporary()).SetIfNotExists(t.IsIfNotExists())
				if t.HasLikeTable() {
					u.SetLikeTable(t.LikeTable())
				}
				for x := range t.Columns() {
					switch r.IntN(3) {
					case 0:
						x = x.Clone()
					case 1:
						x, _ = x.Normalize()
					}
					u.AddColumn(x)
				}
				for x := range t.Indexes() {
					switch r.IntN(3) {
					case 0:
						x = x.Clone()
					case 1:
						x, _ = x.Normalize()
					}
					u.AddIndex(x)
				}
				for x := range t.Options() {
					u.AddOption(x)
				}
				t = u
				c.Count("went on with copies")
			}
			for x := range t.Columns() {
				if chance(r, 30) {
					if chance(r, 50) {
						h.lookAt(x)
					}
					changeCol(r, x)
					c.Count("columns changed")
				}
			}
			for x := range t.Indexes() {
				if chance(r, 30) {
					if chance(r, 50) {
						h.lookAt(x)
					}
					pick(r, idxMutations)(x)
					c.Count("indexes changed")
				}
			}
			switch r.IntN(8) {
			case 0:
				t.SetTemporary(!t.IsTemporary())
			case 1:
				t.SetIfNotExists(!t.IsIfNotExists())
			case 2:
				t.AddColumn(buildCol(genCol(r, &GenCfg{}, fmt.Sprintf("added%d", len(t.Columns())))))
			case 3:
				x := model.NewIndex(model.IndexKindNormal, t.ID())
				x.AddColumns(model.NewIndexColumn("added"))
				t.AddIndex(x)
			}
			now := exTable(t)
			if !sayable(now) {
				c.Count("left out: can not be built at once")
				break
			}
			c.Input(tableFP(now))
			c.Count("compared with one that was just built")
			if !judge(t, buildTable(now)) {
				return
			}
		}
	}
}

// sayable says whether buildTable makes all of it.
func sayable(t *Table) bool {
	for _, x := range t.Cols {
		if _, ok := colTypes[x.Type]; !ok {
			return false
		}
	}
	for _, x := range t.Idx {
		if _, ok := idxKinds[x.Kind]; !ok {
			return false
		}
	}
	return true
}

func init() {
	add := func(id string, quick, thorough int, judge func(c *Case, old, fresh model.Table) bool) {
		ck := checks[id]
		ck.Phases = append(ck.Phases, Phase{Name: "went-through", Quick: quick, Thorough: thorough, Run: func(c *Case) {
			wentThrough(c, func(old, fresh model.Table) bool { return judge(c, old, fresh) })
		}})
	}
	add("C06", 3000, 100000, func(c *Case, old, fresh model.Table) bool {
		a, ma := old.Normalize()
		b, mb := fresh.Normalize()
		if ra, rb := rawTable(a), rawTable(b); ra != rb || ma != mb {
			c.Fail("history", "the normal form of a table that went through something (modified=%v) is not that of one that says the same (modified=%v)\n%s\n--- table\n%s", ma, mb, firstDiff(ra, rb), rawTable(old))
			return false
		}
		ch := fresh.Columns()
		for x := range old.Columns() {
			y := <-ch
			a, ma := x.Normalize()
			b, mb := y.Normalize()
			if ra, rb := rawCol(a), rawCol(b); ra != rb || ma != mb {
				c.Fail("history", "the normal form of a column that went through something (modified=%v) is not that of one that says the same (modified=%v)\ngot  %s\nwant %s\ncolumn %s", ma, mb, ra, rb, rawCol(x))
				return false
			}
		}
		return true
	})
	add("C07", 2500, 80000, func(c *Case, old, fresh model.Table) bool {
		for _, o := range indents {
			var a, b bytes.Buffer
			var opts []format.Option
			if o != nil {
				opts = append(opts, o)
			}
			ea, eb := format.SQL(&a, old, opts...), format.SQL(&b, fresh, opts...)
			if (ea != nil) != (eb != nil) || ea == nil && a.String() != b.String() {
				c.Fail("history", "a table that went through something is formatted otherwise (%v) than one that says the same (%v)\n%s", ea, eb, firstDiff(a.String(), b.String()))
				return false
			}
		}
		return true
	})
	add("C22", 3000, 100000, func(c *Case, old, fresh model.Table) bool {
		if old.ID() != fresh.ID() {
			c.Fail("history", "table %q: %s and %s", old.Name(), old.ID(), fresh.ID())
			return false
		}
		cc := fresh.Columns()
		for x := range old.Columns() {
			if y := <-cc; x.ID() != y.ID() {
				c.Fail("history", "column %q: %s and %s", x.Name(), x.ID(), y.ID())
				return false
			}
		}
		ch := fresh.Indexes()
		for x := range old.Indexes() {
			y := <-ch
			if x.ID() != y.ID() {
				c.Fail("history", "an index that went through something has an identifier of its own: %s and %s\n%s", x.ID(), y.ID(), idxFP(exIndex(x)))
				return false
			}
			if r, s := x.Reference(), y.Reference(); r != nil && r.ID() != s.ID() {
				c.Fail("history", "a reference that went through something has an identifier of its own: %s and %s\n%s", r.ID(), s.ID(), idxFP(exIndex(x)))
				return false
			}
			if g, ok := old.LookupIndex(y.ID()); !ok || g.ID() != x.ID() {
				c.Fail("history", "the index is not found by its identifier %s\n%s", y.ID(), idxFP(exIndex(x)))
				return false
			}
		}
		return true
	})
}
