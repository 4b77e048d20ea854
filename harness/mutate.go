package main

// Mutations of texts: near misses of the grammar.

import (
	"math/rand/v2"
	"strings"
)

var soupWords = strings.Fields("CREATE TABLE TEMPORARY IF NOT EXISTS DATABASE DROP SET USE LIKE PRIMARY KEY UNIQUE INDEX FULLTEXT SPATIAL FOREIGN CONSTRAINT REFERENCES MATCH FULL PARTIAL SIMPLE ON DELETE UPDATE RESTRICT CASCADE NULL NO ACTION " +
	"USING BTREE HASH WITH PARSER CHECK DEFAULT AUTO_INCREMENT COMMENT CHARACTER COLLATE CHARSET UNSIGNED ZEROFILL BINARY CURRENT_TIMESTAMP NOW TRUE FALSE ENGINE ROW_FORMAT UNION TABLESPACE STORAGE MAX_ROWS AVG_ROW_LENGTH CHECKSUM " +
	"CONNECTION DATA DIRECTORY DELAY_KEY_WRITE INSERT_METHOD FIRST LAST KEY_BLOCK_SIZE MIN_ROWS PACK_KEYS PASSWORD STATS_AUTO_RECALC STATS_PERSISTENT STATS_SAMPLE_PAGES ASC DESC DYNAMIC FIXED COMPRESSED " +
	"INT VARCHAR DECIMAL ENUM BOOL TEXT TIMESTAMP JSON GEOMETRY DOUBLE BIT YEAR BLOB")

var soupOther = []string{"(", ")", ",", ";", "=", ".", "`a`", "`x y`", "``", "`", "'s'", "''", "'", `"d"`, `"`, "a", "b", "foo", "_x", "1", "0", "-1", "1.5", "1e5", "+", "-", "--", "-- c\n", "#", "# c\n", "/*", "*/", "/* c */", "/*/", "@", "\\", "\x00", "\xff", "é", "日", "😀", "\n", "\r\n", "\t", "!", "%", "$", "?", "[", "]", "{", "}", "<", ">", "&", "|", "~", "^", ":", "\u2028", "\ufeff", "\ufffd", "10", "999999999999999999999", "1.2.3", "e", "E5", "0x1F", "'\\''", "'\\", "`a``b`", "\"a\"\"b\""}

func soupToken(r *rand.Rand) string {
	if chance(r, 60) {
		w := pick(r, soupWords)
		if chance(r, 20) {
			w = strings.ToLower(w)
		}
		return w
	}
	return pick(r, soupOther)
}

// mutateLex changes the list of lexemes of a rendering and writes it again.
func mutateLex(r *rand.Rand, lex []Placed, n int) string {
	l := append([]Placed(nil), lex...)
	for ; n > 0 && len(l) > 0; n-- {
		i := r.IntN(len(l))
		switch r.IntN(7) {
		case 0: // delete
			l = append(l[:i:i], l[i+1:]...)
		case 1: // duplicate
			l = append(l[:i+1:i+1], l[i:]...)
		case 2: // swap
			j := r.IntN(len(l))
			l[i], l[j] = l[j], l[i]
		case 3: // replace
			l[i] = Placed{Lex: Lex{Text: soupToken(r)}}
		case 4: // insert
			l = append(l[:i:i], append([]Placed{{Lex: Lex{Text: soupToken(r)}}}, l[i:]...)...)
		case 5: // a run is deleted
			j := i + r.IntN(6)
			if j > len(l) {
				j = len(l)
			}
			l = append(l[:i:i], l[j:]...)
		case 6: // a run is copied elsewhere
			j := i + r.IntN(8)
			if j > len(l) {
				j = len(l)
			}
			run := append([]Placed(nil), l[i:j]...)
			k := r.IntN(len(l) + 1)
			l = append(l[:k:k], append(run, l[k:]...)...)
		}
	}
	var b strings.Builder
	for i, x := range l {
		if i > 0 && !x.Glue {
			b.WriteString(" ")
		}
		b.WriteString(x.Text)
	}
	return b.String()
}

// mutateBytes changes single bytes of a text.
func mutateBytes(r *rand.Rand, s string, n int) string {
	b := []byte(s)
	for ; n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(r.IntN(256))
		case 2:
			b = append(b[:i:i], append([]byte(soupToken(r)), b[i:]...)...)
		case 3:
			b = b[:i]
		case 4:
			j := i + r.IntN(20)
			if j > len(b) {
				j = len(b)
			}
			b = append(b, b[i:j]...)
		}
	}
	return string(b)
}
