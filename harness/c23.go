package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/schemalex/schemalex/model"
)

// C23: tables against a sequential model, clones against each other, and
// concurrent histories against the rules of an append-only list. The harness
// is built with the race detector.

// colMutations change a column in place, through every way there is.
var colMutations = []func(m model.TableColumn){
	func(m model.TableColumn) { m.SetType(model.ColumnTypeGEOMETRY) },
	func(m model.TableColumn) { m.SetLength(model.NewLength("777")) },
	func(m model.TableColumn) {
		if m.HasLength() {
			m.Length().SetDecimal("77")
		}
	},
	func(m model.TableColumn) { m.SetCharacterSet("changed") },
	func(m model.TableColumn) { m.SetCollation("changed") },
	func(m model.TableColumn) { m.SetDefault("changed", true) },
	func(m model.TableColumn) { m.SetComment("changed") },
	func(m model.TableColumn) { m.SetAutoUpdate("CHANGED") },
	func(m model.TableColumn) { m.SetEnumValues([]string{"changed"}) },
	func(m model.TableColumn) { m.SetSetValues([]string{"changed", "twice"}) },
	func(m model.TableColumn) { m.SetNullState(model.NullStateNotNull) },
	func(m model.TableColumn) { m.SetAutoIncrement(!m.IsAutoIncrement()) },
	func(m model.TableColumn) { m.SetBinary(!m.IsBinary()) },
	func(m model.TableColumn) { m.SetKey(!m.IsKey()) },
	func(m model.TableColumn) { m.SetPrimary(!m.IsPrimary()) },
	func(m model.TableColumn) { m.SetUnique(!m.IsUnique()) },
	func(m model.TableColumn) { m.SetUnsigned(!m.IsUnsigned()) },
	func(m model.TableColumn) { m.SetZeroFill(!m.IsZeroFill()) },
}

var idxMutations = []func(m model.Index){
	func(m model.Index) { m.SetName("changed") },
	func(m model.Index) { m.SetSymbol("changed") },
	func(m model.Index) { m.SetType(model.IndexTypeHash) },
	func(m model.Index) { m.AddColumns(model.NewIndexColumn("changed")) },
	func(m model.Index) { m.AddOption(model.NewIndexOption("WITH PARSER", "changed", true)) },
	func(m model.Index) {
		for c := range m.Columns() {
			c.SetLength("777")
		}
	},
	func(m model.Index) {
		for c := range m.Columns() {
			c.SetSortDirection(model.SortDirectionDescending)
		}
	},
	func(m model.Index) {
		if r := m.Reference(); r != nil {
			r.SetTableName("changed")
		}
	},
	func(m model.Index) {
		if r := m.Reference(); r != nil {
			r.SetMatch(model.ReferenceMatchPartial).SetOnDelete(model.ReferenceOptionSetNull).SetOnUpdate(model.ReferenceOptionNoAction)
		}
	},
	func(m model.Index) {
		if r := m.Reference(); r != nil {
			r.AddColumns(model.NewIndexColumn("changed"))
		}
	},
	func(m model.Index) {
		if r := m.Reference(); r != nil {
			for c := range r.Columns() {
				c.SetLength("777")
			}
		}
	},
	func(m model.Index) { m.SetReference(model.NewReference().SetTableName("changed")) },
}

// tabModel is what a table should contain.
type tabModel struct {
	m    model.Table
	cols []string // identifiers in order
	raw  map[string]string
	objs map[string]model.TableColumn
	idx  []model.Index
	opts []model.TableOption
}

func (t *tabModel) check(c *Case) bool {
	c.Count("table states checked")
	i := 0
	var prev model.TableColumn
	for col := range t.m.Columns() {
		if i >= len(t.cols) || col.ID() != t.cols[i] {
			c.Fail("order", "column %d of %s is %s\nwant %q", i, t.m.ID(), col.ID(), t.cols)
			return false
		}
		if g, w := rawCol(col), t.raw[col.ID()]; g != w {
			c.Fail("isolation", "column %d of %s\ngot  %s\nwant %s", i, t.m.ID(), g, w)
			return false
		}
		if o := t.objs[col.ID()]; o != col {
			c.Fail("identity", "column %s of %s is another object than before", col.ID(), t.m.ID())
			return false
		}
		got, ok := t.m.LookupColumn(col.ID())
		if !ok || got != col {
			c.Fail("lookup", "LookupColumn(%q): %v", col.ID(), ok)
			return false
		}
		at, ok := t.m.LookupColumnOrder(col.ID())
		if !ok || at != i {
			c.Fail("lookup", "LookupColumnOrder(%q) = %d, %v instead of %d", col.ID(), at, ok, i)
			return false
		}
		before, ok := t.m.LookupColumnBefore(col.ID())
		if ok != (i > 0) || ok && before != prev || !ok && before != nil {
			c.Fail("lookup", "LookupColumnBefore(%q) = %v, %v", col.ID(), before, ok)
			return false
		}
		prev = col
		i++
	}
	if i != len(t.cols) {
		c.Fail("order", "%d columns instead of %d", i, len(t.cols))
		return false
	}
	i = 0
	for x := range t.m.Indexes() {
		if i >= len(t.idx) || x != t.idx[i] {
			c.Fail("order", "index %d of %s is %s", i, t.m.ID(), x.ID())
			return false
		}
		i++
	}
	if i != len(t.idx) {
		c.Fail("order", "%d indexes instead of %d", i, len(t.idx))
		return false
	}
	i = 0
	for o := range t.m.Options() {
		if i >= len(t.opts) || o != t.opts[i] {
			c.Fail("order", "option %d of %s is %s", i, t.m.ID(), o.ID())
			return false
		}
		i++
	}
	if i != len(t.opts) {
		c.Fail("order", "%d options instead of %d", i, len(t.opts))
		return false
	}
	if _, ok := t.m.LookupColumn("tablecol#no such column"); ok {
		c.Fail("lookup", "found a column that is not there")
		return false
	}
	return true
}

// loose is a column outside of tables, or a clone.
type loose struct {
	m   model.TableColumn
	raw string
}

// mutate changes a column and records what it should be now; the change is
// replayed on an object built from scratch, so that the record does not
// depend on what is shared.
func mutateRecorded(r *rand.Rand, m model.TableColumn) {
	colMutations[r.IntN(len(colMutations))](m)
}

func history(c *Case) {
	r := c.R
	cfg := &GenCfg{Hostile: true}
	names := nameSet{}
	var tabs []*tabModel
	sameName := chance(r, 25) // such as the old and the new state of one table
	for i := 0; i < 3; i++ {
		name := fmt.Sprintf("t%d", i)
		if sameName {
			name = "t"
		}
		tabs = append(tabs, &tabModel{m: model.NewTable(name), raw: map[string]string{}, objs: map[string]model.TableColumn{}})
	}
	var out []*loose
	log := ""
	note := func(f string, a ...interface{}) { log += fmt.Sprintf(f, a...) + "\n" }
	add := func(t *tabModel, m model.TableColumn) bool {
		if _, dup := t.raw[m.ID()]; dup {
			return true
		}
		owned := m.TableID() != ""
		before := rawCol(m)
		if ret := t.m.AddColumn(m); ret != t.m {
			c.Fail("chain", "AddColumn returns another table")
			return false
		}
		if !owned {
			// what was unowned becomes the table's
			for i, l := range out {
				if l.m == m {
					out = append(out[:i:i], out[i+1:]...)
					break
				}
			}
		} else if rawCol(m) != before {
			c.Fail("isolation", "adding a copy to a second table changed the first\nbefore %s\nafter  %s", before, rawCol(m))
			return false
		}
		got, ok := t.m.LookupColumn(m.ID())
		if !ok {
			c.Fail("lookup", "the column just added is not found: %s", m.ID())
			return false
		}
		if owned == (got == m) {
			c.Fail("copied", "column %s had an owner: %v, is the same object: %v", m.ID(), owned, got == m)
			return false
		}
		if got.TableID() != t.m.ID() {
			c.Fail("owner", "column %s of %s belongs to %q", m.ID(), t.m.ID(), got.TableID())
			return false
		}
		x := exCol(got)
		if a, b := colFP(x), colFP(exCol(m)); a != b {
			c.Fail("copied", "the copy differs\ngot  %s\nwant %s", a, b)
			return false
		}
		t.cols = append(t.cols, m.ID())
		t.raw[m.ID()] = rawCol(got)
		t.objs[m.ID()] = got
		return true
	}
	owned := func() (*tabModel, string) {
		t := pick(r, tabs)
		if len(t.cols) == 0 {
			return nil, ""
		}
		return t, pick(r, t.cols)
	}
	for step := 20 + r.IntN(60); step > 0; step-- {
		switch k := r.IntN(12); {
		case k < 3:
			t := pick(r, tabs)
			name := names.fresh(r, cfg)
			note("add new %q to %s", name, t.m.ID())
			if !add(t, buildCol(genCol(r, cfg, name))) {
				return
			}
		case k < 5: // to a second table
			if t, id := owned(); t != nil {
				u := pick(r, tabs)
				note("add %s of %s to %s", id, t.m.ID(), u.m.ID())
				if u != t && !add(u, t.objs[id]) {
					return
				}
			}
		case k < 6: // a free column
			name := names.fresh(r, cfg)
			m := buildCol(genCol(r, cfg, name))
			out = append(out, &loose{m, rawCol(m)})
			note("new free column %q", name)
		case k < 8: // a clone
			if len(out) > 0 && chance(r, 40) {
				m := pick(r, out).m.Clone()
				out = append(out, &loose{m, rawCol(m)})
				note("clone of a free column")
			} else if t, id := owned(); t != nil {
				m := t.objs[id].Clone()
				if rawCol(m) != t.raw[id] {
					c.Fail("clone", "a clone differs\ngot  %s\nwant %s", rawCol(m), t.raw[id])
					return
				}
				out = append(out, &loose{m, rawCol(m)})
				note("clone of %s in %s", id, t.m.ID())
			}
		case k < 9: // a free column gets a place
			if len(out) > 0 {
				l := pick(r, out)
				t := pick(r, tabs)
				note("add free %s to %s", l.m.ID(), t.m.ID())
				if !add(t, l.m) {
					return
				}
			}
		case k < 11: // a change
			if len(out) > 0 && chance(r, 50) {
				l := pick(r, out)
				mutateRecorded(r, l.m)
				l.raw = rawCol(l.m)
				note("change of free %s", l.m.ID())
			} else if t, id := owned(); t != nil {
				mutateRecorded(r, t.objs[id])
				t.raw[id] = rawCol(t.objs[id])
				note("change of %s in %s", id, t.m.ID())
			}
		default:
			t := pick(r, tabs)
			if chance(r, 50) {
				x := model.NewIndex(model.IndexKindNormal, t.m.ID())
				x.SetName(names.fresh(r, cfg))
				t.m.AddIndex(x)
				t.idx = append(t.idx, x)
				if got, ok := t.m.LookupIndex(x.ID()); !ok || got != x {
					c.Fail("lookup", "the index just added is not found")
					return
				}
			} else {
				o := model.NewTableOption(names.fresh(r, cfg), "1", false)
				t.m.AddOption(o)
				t.opts = append(t.opts, o)
			}
		}
		c.Count("history steps")
		for _, t := range tabs {
			if !t.check(c) {
				c.Sample(log)
				return
			}
		}
		for _, l := range out {
			if g := rawCol(l.m); g != l.raw {
				c.Fail("isolation", "a free column or clone changed\ngot  %s\nwant %s\n--- history\n%s", g, l.raw, log)
				return
			}
		}
	}
	c.Input(log)
	c.Sample(log)
}

// appendLog checks a concurrent history of additions and observations.
type event struct {
	start, end int64
	id         string
	at         int // order found
	found      bool
	before     string // predecessor found
	hasBefore  bool
	snap       []string // a whole iteration
	kind       string
}

func concurrentAdds(c *Case) {
	r := c.R
	var clock int64
	tick := func() int64 { return atomic.AddInt64(&clock, 1) }
	t := model.NewTable("t")
	other := model.NewTable("o")
	adders, readers := 2+r.IntN(4), 1+r.IntN(4)
	per := 5 + r.IntN(25)
	procs := 1 + r.IntN(8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	// some columns belong to another table already
	shared := make([][]model.TableColumn, adders)
	for a := range shared {
		for i := 0; i < per; i++ {
			col := model.NewTableColumn(fmt.Sprintf("c%d_%d", a, i))
			if i%3 == 0 {
				other.AddColumn(col)
			}
			shared[a] = append(shared[a], col)
		}
	}
	ids := func() []string {
		var l []string
		for a := 0; a < adders; a++ {
			for i := 0; i < per; i++ {
				l = append(l, fmt.Sprintf("tablecol#c%d_%d", a, i))
			}
		}
		return l
	}()
	var mu sync.Mutex
	var all []event
	var addEv = map[string]event{}
	var wg sync.WaitGroup
	var done int32
	start := make(chan struct{})
	for a := 0; a < adders; a++ {
		wg.Add(1)
		jit := newRand(c.W.Seed, c.Phase, c.Index, "adder", a)
		go func(a int) {
			defer wg.Done()
			<-start
			var evs []event
			for i := 0; i < per; i++ {
				e := event{id: shared[a][i].ID(), start: tick()}
				t.AddColumn(shared[a][i])
				e.end = tick()
				evs = append(evs, e)
				if jit.IntN(4) == 0 {
					t.AddIndex(model.NewIndex(model.IndexKindNormal, t.ID()).SetName(fmt.Sprintf("i%d_%d", a, i)))
				}
				if jit.IntN(4) == 0 {
					t.AddOption(model.NewTableOption(fmt.Sprintf("o%d_%d", a, i), "", false))
				}
				if jit.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
			mu.Lock()
			for _, e := range evs {
				addEv[e.id] = e
			}
			mu.Unlock()
		}(a)
	}
	var rg sync.WaitGroup
	for b := 0; b < readers; b++ {
		rg.Add(1)
		jit := newRand(c.W.Seed, c.Phase, c.Index, "reader", b)
		go func() {
			defer rg.Done()
			<-start
			var evs []event
			for n := 0; n < 400 && (n < 20 || atomic.LoadInt32(&done) == 0); n++ {
				e := event{id: pick(jit, ids)}
				switch jit.IntN(6) {
				case 0:
					e.kind, e.start = "order", tick()
					e.at, e.found = t.LookupColumnOrder(e.id)
					e.end = tick()
				case 1:
					e.kind, e.start = "column", tick()
					var col model.TableColumn
					col, e.found = t.LookupColumn(e.id)
					e.end = tick()
					if e.found && col.ID() != e.id {
						e.kind = "wrong column"
					}
				case 2:
					e.kind, e.start = "before", tick()
					var col model.TableColumn
					col, e.hasBefore = t.LookupColumnBefore(e.id)
					e.end = tick()
					if e.hasBefore {
						e.before = col.ID()
					}
				case 3:
					e.kind, e.start = "columns", tick()
					for col := range t.Columns() {
						e.snap = append(e.snap, col.ID())
					}
					e.end = tick()
				case 4:
					e.kind, e.start = "indexes", tick()
					for x := range t.Indexes() {
						e.snap = append(e.snap, x.Name())
					}
					e.end = tick()
				default:
					e.kind, e.start = "options", tick()
					for o := range t.Options() {
						e.snap = append(e.snap, o.Key())
					}
					e.end = tick()
				}
				evs = append(evs, e)
				if jit.IntN(3) == 0 {
					runtime.Gosched()
				}
			}
			mu.Lock()
			all = append(all, evs...)
			mu.Unlock()
		}()
	}
	close(start)
	wg.Wait()
	atomic.StoreInt32(&done, 1)
	rg.Wait()
	// the final order
	var final []string
	pos := map[string]int{}
	for col := range t.Columns() {
		if _, dup := pos[col.ID()]; dup {
			c.Fail("twice", "column %s stands in the table twice", col.ID())
			return
		}
		pos[col.ID()] = len(final)
		final = append(final, col.ID())
	}
	c.Input(fmt.Sprint(final))
	c.CountN("concurrent additions", len(ids))
	c.CountN("concurrent observations", len(all))
	c.Feature(fmt.Sprintf("GOMAXPROCS=%d", procs))
	if len(final) != len(ids) {
		c.Fail("lost", "%d columns of %d are in the table", len(final), len(ids))
		return
	}
	for i, id := range final {
		at, ok := t.LookupColumnOrder(id)
		col, ok2 := t.LookupColumn(id)
		if !ok || at != i || !ok2 || col.ID() != id || col.TableID() != t.ID() {
			c.Fail("lookup", "%s is found at %d instead of %d", id, at, i)
			return
		}
		if owner, ok := other.LookupColumn(id); ok && (owner == col || owner.TableID() != other.ID()) {
			c.Fail("copied", "%s is shared by two tables", id)
			return
		}
	}
	// real time order of additions
	byEnd := make([]event, 0, len(addEv))
	for _, e := range addEv {
		byEnd = append(byEnd, e)
	}
	sort.Slice(byEnd, func(i, j int) bool { return byEnd[i].end < byEnd[j].end })
	for i, x := range byEnd {
		for _, y := range byEnd[i+1:] {
			if x.end < y.start && pos[x.id] > pos[y.id] {
				c.Fail("order", "%s was added before %s, but stands behind it", x.id, y.id)
				return
			}
		}
	}
	overlaps := 0
	for _, e := range all {
		a := addEv[e.id]
		switch e.kind {
		case "wrong column":
			c.Fail("lookup", "look-up of %s gives another column", e.id)
			return
		case "order", "column":
			if e.found && a.start > e.end || !e.found && a.end < e.start {
				c.Fail("linearizability", "%s found %v at [%d,%d], added at [%d,%d]", e.id, e.found, e.start, e.end, a.start, a.end)
				return
			}
			if e.kind == "order" && e.found && e.at != pos[e.id] {
				c.Fail("order", "%s was at %d, is at %d", e.id, e.at, pos[e.id])
				return
			}
			if a.start < e.end && e.start < a.end {
				overlaps++
			}
		case "before":
			p := pos[e.id]
			if e.hasBefore && (p == 0 || e.before != final[p-1]) {
				c.Fail("order", "before %s was %s, is not now", e.id, e.before)
				return
			}
			if e.hasBefore && a.start > e.end || !e.hasBefore && p > 0 && a.end < e.start {
				c.Fail("linearizability", "predecessor of %s: found %v at [%d,%d], added at [%d,%d]", e.id, e.hasBefore, e.start, e.end, a.start, a.end)
				return
			}
		case "columns":
			for i, id := range e.snap {
				if i >= len(final) || final[i] != id {
					c.Fail("order", "an iteration saw %s at %d", id, i)
					return
				}
				if addEv[id].start > e.end {
					c.Fail("linearizability", "an iteration saw %s before it was added", id)
					return
				}
			}
			for _, x := range byEnd {
				if x.end < e.start && pos[x.id] >= len(e.snap) {
					c.Fail("linearizability", "an iteration missed %s, which was in the table", x.id)
					return
				}
			}
			if len(e.snap) > 0 && len(e.snap) < len(final) {
				overlaps++
			}
		}
	}
	prefix := func(kind string, final []string) bool {
		for _, e := range all {
			if e.kind != kind {
				continue
			}
			for i, id := range e.snap {
				if i >= len(final) || final[i] != id {
					c.Fail("order", "an iteration over the %s saw %s at %d", kind, id, i)
					return false
				}
			}
		}
		return true
	}
	var fi, fo []string
	for x := range t.Indexes() {
		fi = append(fi, x.Name())
	}
	for o := range t.Options() {
		fo = append(fo, o.Key())
	}
	if !prefix("indexes", fi) || !prefix("options", fo) {
		return
	}
	c.CountN("observations in the middle of additions", overlaps)
}

func init() {
	register(&Check{
		ID: "C23", Level: "exploration",
		Rule: "a case is a history of operations on tables, or a clone with one change; distinct by history (concurrent: by the order the columns ended up in); non-trivial because the whole state is compared with a model after every step",
		Assumptions: []string{
			"no column name is added to one table twice",
			"a column is changed by one goroutine at a time; a column that has no table yet is added by one goroutine at a time",
			"interleavings are the ones the Go scheduler produced under varied GOMAXPROCS and random yields, with the race detector watching every access",
		},
		Phases: []Phase{
			{Name: "clones", Quick: len(types) * len(colMutations), Thorough: len(types) * len(colMutations), Run: func(c *Case) {
				typ := types[c.Index/len(colMutations)].Name
				mut := colMutations[c.Index%len(colMutations)]
				for _, a := range colAttrs {
					col := baseCol("c", typ)
					a.set(col)
					c.Input(typ, a.name, fmt.Sprint(c.Index%len(colMutations)))
					for _, side := range []int{0, 1, 2} {
						x := buildCol(col)
						y := x.Clone()
						if side == 2 {
							// the normal form is a clone as well
							n, modified := x.Normalize()
							if !modified {
								continue
							}
							y = n
						}
						rx, ry := rawCol(x), rawCol(y)
						if side != 2 && rx != ry {
							c.Fail("clone", "a clone differs\ngot  %s\nwant %s", ry, rx)
							return
						}
						if side == 1 {
							mut(y)
						} else {
							mut(x)
						}
						c.Count("clones changed")
						if side == 1 && rawCol(x) != rx || side != 1 && rawCol(y) != ry {
							c.Fail("isolation", "a change of one shows in the other (%d, mutation %d, %s)\n%s\n%s", side, c.Index%len(colMutations), a.name, rawCol(x), rawCol(y))
							return
						}
					}
				}
			}},
			{Name: "index-clones", Quick: 900, Thorough: len(idxGrid), Run: func(c *Case) {
				x := idxGrid[c.Index*7919%len(idxGrid)]
				for k, mut := range idxMutations {
					c.Input(idxFP(x), fmt.Sprint(k))
					for _, side := range []int{0, 1} {
						a := buildIndex(x, "t")
						b := a.Clone()
						ra, rb := rawIdx(a), rawIdx(b)
						if ra != rb {
							c.Fail("clone", "a clone differs\ngot  %s\nwant %s", rb, ra)
							return
						}
						if side == 0 {
							mut(a)
						} else {
							mut(b)
						}
						c.Count("clones changed")
						if side == 1 && rawIdx(a) != ra || side == 0 && rawIdx(b) != rb {
							c.Fail("isolation", "a change of one shows in the other (%d, mutation %d)\n%s\n%s", side, k, rawIdx(a), rawIdx(b))
							return
						}
						// clones grow independently
						a, b = buildIndex(x, "t"), nil
						b = a.Clone()
						a.AddColumns(model.NewIndexColumn("one"))
						b.AddColumns(model.NewIndexColumn("two"))
						last := func(m model.Index) string {
							n := ""
							for ic := range m.Columns() {
								n = ic.Name()
							}
							return n
						}
						if last(a) != "one" || last(b) != "two" {
							c.Fail("isolation", "columns added to clones overwrite each other: %s, %s", last(a), last(b))
							return
						}
					}
				}
			}},
			{Name: "many", Quick: 60, Thorough: 600, Run: func(c *Case) {
				// very many columns, indexes and options in one table, and in its normal form
				r := c.R
				n := bigGrid[c.Index%8].N
				t := model.NewTable("t")
				var cols, idxs, opts []string
				for len(cols) < n || len(idxs) < n || len(opts) < n {
					switch k := r.IntN(3); {
					case k == 0 && len(cols) < n:
						x := buildCol(genCol(r, &GenCfg{}, fmt.Sprintf("c%d", len(cols))))
						t.AddColumn(x)
						cols = append(cols, x.ID())
					case k == 1 && len(idxs) < n:
						x := model.NewIndex(model.IndexKindNormal, "t")
						x.SetName(fmt.Sprintf("i%d", len(idxs)))
						t.AddIndex(x)
						idxs = append(idxs, x.ID())
					case k == 2 && len(opts) < n:
						t.AddOption(model.NewTableOption(fmt.Sprintf("k%d", len(opts)), "v", false))
						opts = append(opts, fmt.Sprintf("k%d", len(opts)))
					}
				}
				c.Input(fmt.Sprint(n), fmt.Sprint(c.Index))
				for _, m := range []model.Table{t, func() model.Table { m, _ := t.Normalize(); return m }()} {
					var gc, gi, gopt []string
					for x := range m.Columns() {
						gc = append(gc, x.ID())
					}
					for x := range m.Indexes() {
						gi = append(gi, x.ID())
					}
					for x := range m.Options() {
						gopt = append(gopt, x.Key())
					}
					c.CountN("list entries compared", 3*n)
					for _, p := range [][2][]string{{cols, gc}, {idxs, gi}, {opts, gopt}} {
						if strings.Join(p[0], " ") != strings.Join(p[1], " ") {
							c.Fail("lost", "%d of %d are there, or in another order: %s", len(p[1]), len(p[0]), firstDiff(strings.Join(p[1], "\n"), strings.Join(p[0], "\n")))
							return
						}
					}
					for i, id := range cols {
						at, ok := m.LookupColumnOrder(id)
						x, ok2 := m.LookupColumn(id)
						b, ok3 := m.LookupColumnBefore(id)
						if !ok || at != i || !ok2 || x.ID() != id || ok3 != (i > 0) || ok3 && b.ID() != cols[i-1] {
							c.Fail("lookup", "column %d of %d is found at %d", i, n, at)
							return
						}
					}
				}
				x := model.NewIndex(model.IndexKindNormal, "t")
				for i := 0; i < n; i++ {
					x.AddColumns(model.NewIndexColumn(cols[i]))
					x.AddOption(model.NewIndexOption(opts[i], "v", false))
				}
				y := x.Clone()
				for _, z := range []model.Index{x, y} {
					i := 0
					for ic := range z.Columns() {
						if i >= n || ic.Name() != cols[i] {
							c.Fail("lost", "column %d of an index", i)
							return
						}
						i++
					}
					j := 0
					for o := range z.Options() {
						if j >= n || o.Key() != opts[j] {
							c.Fail("lost", "option %d of an index", j)
							return
						}
						j++
					}
					if i != n || j != n {
						c.Fail("lost", "%d and %d of %d entries of an index", i, j, n)
						return
					}
				}
			}},
			{Name: "histories", Quick: 500, Thorough: 15000, Run: history},
			{Name: "concurrent", Quick: 2500, Thorough: 60000, Run: concurrentAdds},
		},
	})
}
