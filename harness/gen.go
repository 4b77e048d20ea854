package main

// Random schemas of the supported dialect.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

type GenCfg struct {
	Tables    int // at most
	Cols      int
	Idx       int
	Hostile   bool // odd names and contents
	Like      bool
	NoOpts    bool
	NoFlags   bool
	NoUnnamed bool // every index that can have a name has one
	Wide      bool // now and then a very long table
	Valid     bool // only what the model API considers valid (no effect on the grammar)
}

var plainNames = []string{"id", "name", "user_id", "created_at", "title", "body", "qty", "price", "status", "kind_of", "ref_id", "a", "b", "c1", "x2", "Account", "orderItem", "hoge", "fuga", "piyo", "delimiter", "source", "begin", "go", "_x", "end"}

var hostileNames = []string{
	"select", "table", "index", "key", "primary", "order by", "a b", "a.b", "日本語", "名前", "é", "a`b", "`", "``", "a``", "it's", `say "hi"`, "semi;colon", "-- dash", "/* c */", "# hash",
	"line\nbreak", "tab\tbed", `back\slash`, `trailing\`, "none", "table#x", "tablecol#y", "1abc", "123", "_lead", "$dollar", "a,b", "(paren)", "null", "NULL", "default", "x'); DROP TABLE y; --", "emoji😀", "%s", "%d%%", "\x7f", "A", "create", "x.none", `"`, `'`, "a\r\nb",
	"delimiter", "DELIMITER", "source", "go", "GO", "begin", "END", "commit", "use", "quit", "exit", "help", "set", "lock", "unlock", "call", "do", "if", "show", "start", "print", "alter", "insert", "_", "_shadow_gho", "__x", "x_", "#tmp",
	"AFTER", "first", "unique", "constraint", "foreign", "full text", "BEGIN", "engine", "comment",
}

func genName(r *rand.Rand, cfg *GenCfg) string {
	if cfg.Hostile && chance(r, 30) {
		n := pick(r, hostileNames)
		if chance(r, 30) {
			n += pick(r, plainNames)
		}
		return n
	}
	n := pick(r, plainNames)
	if chance(r, 50) {
		n += fmt.Sprintf("_%d", r.IntN(30))
	}
	return n
}

type nameSet map[string]bool

func (s nameSet) fresh(r *rand.Rand, cfg *GenCfg) string {
	for i := 0; ; i++ {
		n := genName(r, cfg)
		if i > 20 {
			n += fmt.Sprintf("_%d", i)
		}
		k := strings.ToLower(n)
		if n == "" || s[k] {
			continue
		}
		s[k] = true
		return n
	}
}

func (s nameSet) take(n string) bool {
	k := strings.ToLower(n)
	if s[k] {
		return false
	}
	s[k] = true
	return true
}

var stringAtoms = []string{
	"", "a", "hoge", "some text", "日本語", "é", "😀", "'", `"`, "`", "''", `""`, `\\`, `\n`, `\t`, `\0`, `\Z`, `\%`, `\_`, `\r`, `\b`, `\q`, ";", "--", "-- ", "/*", "*/", "#", "\n", "\r\n", "\t", " ",
	"CREATE TABLE x (a int);", ")", "(", ",", "%s", "%", "\x01", "\x7f", "NULL", "0", "-1", "1e5", "DROP TABLE t;", "\\\\'", "\\\\\"", "=", "COMMENT 'x'", "\xc3\xa9", "0x41", "b'1'",
}

// genRaw makes a raw string: quote characters stand for themselves, and a
// backslash always starts a pair that is no escaped quote.
func genRaw(r *rand.Rand, cfg *GenCfg) string {
	if !cfg.Hostile || chance(r, 45) {
		return pick(r, []string{"hoge", "a", "some comment", "x y z", "", "0", "1", "active", "2020-01-01", "foo,bar"})
	}
	var b strings.Builder
	for n := r.IntN(5); n >= 0; n-- {
		if chance(r, 12) {
			// an arbitrary byte or rune
			switch r.IntN(3) {
			case 0:
				b.WriteRune(rune(1 + r.IntN(0x2fff)))
			case 1:
				if c := byte(r.IntN(256)); c != '\\' {
					b.WriteByte(c)
				}
			default:
				if c := byte(r.IntN(256)); c != '\'' && c != '"' {
					b.WriteByte('\\')
					b.WriteByte(c)
				}
			}
			continue
		}
		b.WriteString(pick(r, stringAtoms))
	}
	s := b.String()
	if rawOK(s) {
		return s
	}
	return "fallback " + fmt.Sprint(r.IntN(100))
}

func rawOK(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' {
			if i+1 == len(s) || s[i+1] == '\'' || s[i+1] == '"' || s[i+1] >= 0x80 {
				// a pair with half of a rune would depend on how bytes are grouped
				return false
			}
			i++
		}
	}
	return true
}

func genInt(r *rand.Rand, max int) string { return fmt.Sprint(1 + r.IntN(max)) }

func genNumber(r *rand.Rand) string {
	return pick(r, []string{"0", "1", "-1", "+1", "42", "3.14", ".5", "-2.5", "1.", "1e5", "1E5", "2.5e-3", "00", "007", "123456789012345678901234567890", "-0", "+3.0", "9e9"})
}

var charsets = []string{"utf8", "latin1", "utf8mb4", "sjis", "odd charset", "a`b"}
var collations = []string{"utf8_bin", "latin1_swedish_ci", "utf8mb4_unicode_ci", "odd.coll", "x`y"}

func genCol(r *rand.Rand, cfg *GenCfg, name string) *Col {
	ti := &types[r.IntN(len(types))]
	c := &Col{Name: name, Type: ti.Name}
	if chance(r, 50) {
		switch {
		case ti.Size:
			c.Len = sp(genInt(r, 64))
			if chance(r, 15) {
				nl := normCol(&Col{Name: "x", Type: ti.Name})
				if nl.Len != nil {
					c.Len = clonep(nl.Len)
				}
			}
		case ti.Dec2:
			c.Len, c.Dec = sp(genInt(r, 30)), sp(fmt.Sprint(r.IntN(20)))
		case ti.DecOpt:
			c.Len = sp(genInt(r, 30))
			if chance(r, 60) {
				c.Dec = sp(pick(r, []string{"0", fmt.Sprint(r.IntN(20))}))
			}
		}
	}
	if ti.List {
		seen := map[string]bool{}
		for n := 1 + r.IntN(5); n > 0; n-- {
			v := genRaw(r, cfg)
			if !seen[decode(v)] {
				seen[decode(v)] = true
				c.Vals = append(c.Vals, v)
			}
		}
	}
	if ti.Num {
		c.Unsigned = chance(r, 35)
		c.Zerofill = chance(r, 15)
	}
	if ti.Char {
		c.Binary = chance(r, 15)
	}
	if ti.Char || ti.List {
		if chance(r, 20) {
			c.Charset = sp(pickName(r, cfg, charsets))
		}
		if chance(r, 20) {
			c.Collate = sp(pickName(r, cfg, collations))
		}
	}
	c.Null = pick(r, []int{nullNone, nullNone, nullNull, nullNot, nullNot})
	if chance(r, 45) {
		c.Def = genDefault(r, cfg, ti)
	}
	if (ti.Name == "TIMESTAMP" || ti.Name == "DATETIME") && chance(r, 40) {
		c.OnUpdate = sp(pick(r, []string{"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP", "NOW", "LOCALTIMESTAMP"}))
	}
	if ti.Num && chance(r, 12) {
		c.AutoInc = true
	}
	if chance(r, 30) {
		c.Comment = sp(genRaw(r, cfg))
	}
	return c
}

func pickName(r *rand.Rand, cfg *GenCfg, l []string) string {
	if cfg.Hostile {
		return pick(r, l)
	}
	return pick(r, l[:3])
}

func genDefault(r *rand.Rand, cfg *GenCfg, ti *typeInfo) *Default {
	switch k := r.IntN(10); {
	case k < 2:
		return &Default{defKeyword, "NULL"}
	case k < 4 && (ti.Name == "TIMESTAMP" || ti.Name == "DATETIME"):
		return &Default{defKeyword, pick(r, []string{"CURRENT_TIMESTAMP", "NOW()"})}
	case k < 5 && ti.BoolT, k == 4:
		return &Default{defKeyword, pick(r, []string{"TRUE", "FALSE"})}
	case k < 8 && (ti.Numeric || ti.BoolT), k == 5:
		if chance(r, 35) {
			return &Default{defString, genNumber(r)} // quoted number
		}
		return &Default{defNumber, genNumber(r)}
	default:
		return &Default{defString, genRaw(r, cfg)}
	}
}

// names that are in use by the indexes of a table
type idxNames struct {
	names nameSet
}

func genIdxCols(r *rand.Rand, t *Table, max int, plain bool) []IdxCol {
	n := 1 + r.IntN(max)
	if len(t.Cols) >= 40 && chance(r, 40) {
		n = 1 + r.IntN(len(t.Cols)) // a table as wide as this has wide indexes
	}
	var out []IdxCol
	for _, i := range r.Perm(len(t.Cols)) {
		if len(out) == n {
			break
		}
		ic := IdxCol{Name: t.Cols[i].Name}
		if !plain {
			if chance(r, 25) {
				ic.Len = sp(genInt(r, 200))
			}
			ic.Dir = pick(r, []string{"", "", "", "ASC", "DESC"})
		}
		out = append(out, ic)
	}
	return out
}

func genIndex(r *rand.Rand, cfg *GenCfg, t *Table, names nameSet, syms nameSet, others []string, hasPK *bool) *Index {
	kinds := []string{"PRIMARY", "NORMAL", "NORMAL", "NORMAL", "UNIQUE", "UNIQUE", "FULLTEXT", "SPATIAL", "FOREIGN", "FOREIGN", "FOREIGN"}
	x := &Index{Kind: pick(r, kinds)}
	if x.Kind == "PRIMARY" {
		if *hasPK {
			x.Kind = "NORMAL"
		} else {
			*hasPK = true
		}
	}
	x.Cols = genIdxCols(r, t, 3, x.Kind == "FOREIGN" && chance(r, 80))
	switch x.Kind {
	case "PRIMARY", "NORMAL", "UNIQUE":
		x.Using = pick(r, []string{"", "", "BTREE", "HASH"})
	}
	switch x.Kind {
	case "PRIMARY":
		if chance(r, 15) {
			x.Name = sp(names.fresh(r, cfg))
		}
		if chance(r, 15) {
			x.Symbol = sp(syms.fresh(r, cfg))
		}
	case "UNIQUE":
		named := cfg.NoUnnamed || chance(r, 80)
		if chance(r, 25) {
			s := syms.fresh(r, cfg)
			if names.take(s) {
				x.Symbol = sp(s)
			}
		}
		if named && (x.Symbol == nil || chance(r, 60)) {
			x.Name = sp(names.fresh(r, cfg))
			if x.Symbol != nil && chance(r, 25) {
				x.Name = sp(*x.Symbol)
			}
		}
	case "FOREIGN":
		sym := cfg.NoUnnamed || chance(r, 75)
		if sym {
			s := syms.fresh(r, cfg)
			if names[strings.ToLower(s)] && !chance(r, 50) {
				// an index with that name exists: the constraint uses it
				s = syms.fresh(r, cfg)
			}
			x.Symbol = sp(s)
			// the implied index
			if names.take(s) && chance(r, 8) {
				x.Name = sp(s)
			}
		}
		if x.Name == nil && (chance(r, 25) || !sym && chance(r, 60)) {
			x.Name = sp(names.fresh(r, cfg))
		}
		if chance(r, 95) {
			ref := &Ref{Table: genName(r, cfg)}
			if len(others) > 0 && chance(r, 70) {
				ref.Table = pick(r, others)
			}
			for i := range x.Cols {
				ic := IdxCol{Name: genName(r, cfg)}
				if i == 0 && chance(r, 50) {
					ic.Name = "id"
				}
				if chance(r, 6) {
					ic.Len = sp(genInt(r, 90))
				}
				ref.Cols = append(ref.Cols, ic)
			}
			ref.Match = pick(r, []string{"", "", "", "FULL", "PARTIAL", "SIMPLE"})
			act := []string{"", "", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"}
			ref.OnDelete, ref.OnUpdate = pick(r, act), pick(r, act)
			x.Ref = ref
		}
	default:
		if cfg.NoUnnamed || chance(r, 85) {
			x.Name = sp(names.fresh(r, cfg))
		}
		if x.Kind == "FULLTEXT" && chance(r, 30) {
			x.Parser = sp(pickName(r, cfg, []string{"ngram", "mecab", "my_parser", "odd parser", "p`q"}))
		}
	}
	return x
}

var engineNames = []string{"InnoDB", "MyISAM", "innodb", "odd engine", "memory", "x`y"}

func genOpts(r *rand.Rand, cfg *GenCfg) []Opt {
	all := []func() Opt{
		func() Opt { return Opt{Key: "ENGINE", Val: pickName(r, cfg, engineNames)} },
		func() Opt { return Opt{Key: "AUTO_INCREMENT", Val: genInt(r, 9999)} },
		func() Opt { return Opt{Key: "AVG_ROW_LENGTH", Val: genInt(r, 999)} },
		func() Opt { return Opt{Key: "DEFAULT CHARACTER SET", Val: pickName(r, cfg, charsets)} },
		func() Opt { return Opt{Key: "DEFAULT COLLATE", Val: pickName(r, cfg, collations)} },
		func() Opt { return Opt{Key: "CHECKSUM", Val: fmt.Sprint(r.IntN(2))} },
		func() Opt { return Opt{Key: "COMMENT", Val: genRaw(r, cfg), Quoted: true} },
		func() Opt { return Opt{Key: "CONNECTION", Val: genRaw(r, cfg), Quoted: true} },
		func() Opt { return Opt{Key: "DATA DIRECTORY", Val: genRaw(r, cfg), Quoted: true} },
		func() Opt { return Opt{Key: "DELAY_KEY_WRITE", Val: fmt.Sprint(r.IntN(2))} },
		func() Opt { return Opt{Key: "INDEX DIRECTORY", Val: genRaw(r, cfg), Quoted: true} },
		func() Opt { return Opt{Key: "INSERT_METHOD", Val: "something"} },
		func() Opt { return Opt{Key: "KEY_BLOCK_SIZE", Val: genInt(r, 64)} },
		func() Opt { return Opt{Key: "MAX_ROWS", Val: genInt(r, 9999)} },
		func() Opt { return Opt{Key: "MIN_ROWS", Val: genInt(r, 99)} },
		func() Opt { return Opt{Key: "PACK_KEYS", Val: fmt.Sprint(r.IntN(2))} },
		func() Opt { return Opt{Key: "PASSWORD", Val: genRaw(r, cfg), Quoted: true} },
		func() Opt {
			return Opt{Key: "ROW_FORMAT", Val: pick(r, []string{"DEFAULT", "DYNAMIC", "FIXED", "COMPRESSED", "REDUNDANT", "COMPACT"})}
		},
		func() Opt { return Opt{Key: "STATS_AUTO_RECALC", Val: pick(r, []string{"DEFAULT", "0", "1"})} },
		func() Opt { return Opt{Key: "STATS_PERSISTENT", Val: pick(r, []string{"DEFAULT", "0", "1"})} },
		func() Opt { return Opt{Key: "STATS_SAMPLE_PAGES", Val: genInt(r, 64)} },
	}
	var out []Opt
	n := 0
	switch k := r.IntN(10); {
	case k < 4:
	case k < 9:
		n = 1 + r.IntN(4)
	default:
		n = len(all)
	}
	for _, i := range r.Perm(len(all))[:n] {
		out = append(out, all[i]())
		if chance(r, 5) { // twice: allowed, and the last one counts
			out = append(out, all[i]())
		}
	}
	return out
}

func genTable(r *rand.Rand, cfg *GenCfg, name string, syms nameSet, others []string) *Table {
	t := &Table{Name: name}
	if !cfg.NoFlags {
		t.Temp = chance(r, 8)
		t.IfNot = chance(r, 15)
	}
	if cfg.Like && len(others) > 0 && chance(r, 12) {
		t.Like = sp(pick(r, others))
		return t
	}
	colNames, idxNames := nameSet{}, nameSet{}
	n := 1 + r.IntN(cfg.Cols)
	if cfg.Wide && chance(r, 3) {
		n = 40 + r.IntN(200)
	}
	hasPK := false
	for i := 0; i < n; i++ {
		c := genCol(r, cfg, colNames.fresh(r, cfg))
		if !hasPK && chance(r, 8) {
			// two ways to say the same
			c.Key = chance(r, 30)
			c.Primary = !c.Key || chance(r, 10)
			hasPK = true
		}
		if chance(r, 8) && idxNames.take(c.Name) {
			c.Unique = true
		}
		t.Cols = append(t.Cols, c)
	}
	nx := 0
	if cfg.Idx > 0 {
		nx = r.IntN(cfg.Idx + 1)
	}
	seenUnnamed := map[string]bool{}
	for i := 0; i < nx; i++ {
		x := genIndex(r, cfg, t, idxNames, syms, others, &hasPK)
		if x.Name == nil && x.Symbol == nil {
			if fp := idxFP(x); seenUnnamed[fp] {
				continue
			} else {
				seenUnnamed[fp] = true
			}
		}
		t.Idx = append(t.Idx, x)
	}
	// now and then, the index a constraint implies is spelled out
	for _, x := range append([]*Index(nil), t.Idx...) {
		if x.Kind != "FOREIGN" || x.Symbol == nil || !chance(r, 20) {
			continue
		}
		dup := false
		for _, y := range t.Idx {
			if y != x && (y.Name != nil && *y.Name == *x.Symbol || y.Kind != "FOREIGN" && y.Symbol != nil && *y.Symbol == *x.Symbol) {
				dup = true
			}
		}
		for _, c := range t.Cols {
			if c.Unique && c.Name == *x.Symbol {
				dup = true
			}
		}
		if !dup {
			y := &Index{Kind: pick(r, []string{"NORMAL", "UNIQUE"}), Name: sp(*x.Symbol), Cols: cloneIC(x.Cols)}
			if chance(r, 50) {
				y.Cols = genIdxCols(r, t, 3, false)
			}
			at := r.IntN(len(t.Idx) + 1)
			t.Idx = append(t.Idx[:at], append([]*Index{y}, t.Idx[at:]...)...)
		}
	}
	if !cfg.NoOpts {
		t.Opts = genOpts(r, cfg)
	}
	if chance(r, 20) && len(t.Idx) > 0 {
		// columns and indexes interleaved
		var ci, xi int
		for ci < len(t.Cols) || xi < len(t.Idx) {
			if xi < len(t.Idx) && (ci == len(t.Cols) || chance(r, 40)) {
				t.Decl = append(t.Decl, -1-xi)
				xi++
			} else {
				t.Decl = append(t.Decl, ci)
				ci++
			}
		}
	}
	return t
}

func genSchema(r *rand.Rand, cfg *GenCfg) *Schema {
	s := &Schema{}
	names, syms := nameSet{}, nameSet{}
	var others []string
	n := 1 + r.IntN(cfg.Tables)
	for i := 0; i < n; i++ {
		t := genTable(r, cfg, names.fresh(r, cfg), syms, others)
		s.Tables = append(s.Tables, t)
		others = append(others, t.Name)
	}
	return s
}

// features lists what a schema exercises, for the evidence.
func features(s *Schema, f func(string)) {
	for _, t := range s.Tables {
		if t.Like != nil {
			f("table:LIKE")
		}
		if t.Temp {
			f("table:TEMPORARY")
		}
		if t.IfNot {
			f("table:IF NOT EXISTS")
		}
		for _, c := range t.Cols {
			f("type:" + c.Type)
			for n, on := range map[string]bool{"unsigned": c.Unsigned, "zerofill": c.Zerofill, "binary": c.Binary, "charset": c.Charset != nil, "collate": c.Collate != nil,
				"on update": c.OnUpdate != nil, "auto_increment": c.AutoInc, "unique": c.Unique, "primary": c.Primary, "key": c.Key, "comment": c.Comment != nil, "size": c.Len != nil, "scale": c.Dec != nil,
				"null": c.Null == nullNull, "not null": c.Null == nullNot} {
				if on {
					f("col:" + n)
				}
			}
			if c.Def != nil {
				f("default:" + c.Def.Kind)
			}
		}
		for _, x := range t.Idx {
			f("index:" + x.Kind)
			if x.Using != "" {
				f("index:USING " + x.Using)
			}
			if x.Name == nil && x.Symbol == nil {
				f("index:unnamed")
			}
			if x.Symbol != nil {
				f("index:symbol")
			}
			if x.Parser != nil {
				f("index:WITH PARSER")
			}
			if x.Ref != nil {
				if x.Ref.Match != "" {
					f("ref:MATCH " + x.Ref.Match)
				}
				if x.Ref.OnDelete != "" {
					f("ref:ON DELETE " + x.Ref.OnDelete)
				}
				if x.Ref.OnUpdate != "" {
					f("ref:ON UPDATE " + x.Ref.OnUpdate)
				}
			}
		}
		for _, o := range t.Opts {
			f("option:" + o.Key)
		}
	}
}
