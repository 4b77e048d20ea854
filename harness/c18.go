package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/go-sql-driver/mysql"
	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/lint"
)

// C18: sources deliver exactly the bytes they name.

// readSource resolves a source string and reads it.
func readSource(uri string) (string, error) {
	src, err := schemalex.NewSchemaSource(uri)
	if err != nil {
		if src != nil {
			return "", fmt.Errorf("BOTH a source and an error: %v", err)
		}
		return "", err
	}
	if src == nil {
		return "", errors.New("NEITHER a source nor an error")
	}
	return readInto(int(hashString(uri)%nDestinations), src)
}

// readerFrom has io.ReaderFrom, reads in small pieces, and can do nothing else.
type readerFrom struct{ b []byte }

func (w *readerFrom) Write(p []byte) (int, error) {
	w.b = append(w.b, p...)
	return len(p), nil
}

func (w *readerFrom) ReadFrom(rd io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 300)
	for {
		k, err := rd.Read(buf)
		w.b = append(w.b, buf[:k]...)
		n += int64(k)
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// plainWriter can do nothing but write.
type plainWriter struct{ b []byte }

func (w *plainWriter) Write(p []byte) (int, error) {
	n := len(w.b)
	w.b = append(w.b, p...)
	return len(w.b) - n, nil
}

const nDestinations = 12

const heldBefore = "held before;\n"

// readInto reads a source into one of many kinds of destinations, some of which hold something
// already: what is returned is what the source added, which must not depend on the destination.
func readInto(kind int, src schemalex.SchemaSource) (string, error) {
	added := func(all string, err error) (string, error) {
		if !strings.HasPrefix(all, heldBefore) {
			return "(the destination lost what it held: " + short(all) + ")", err
		}
		return all[len(heldBefore):], err
	}
	switch kind {
	case 0:
		b := bytes.NewBufferString(heldBefore)
		err := src.WriteSchema(b)
		return added(b.String(), err)
	case 1: // with room left, and in part read
		b := bytes.NewBuffer(make([]byte, 0, 1000))
		b.WriteString("gone" + heldBefore)
		b.Next(4)
		err := src.WriteSchema(b)
		return added(b.String(), err)
	case 2:
		var b strings.Builder
		b.WriteString(heldBefore)
		err := src.WriteSchema(&b)
		return added(b.String(), err)
	case 3: // with a buffer that has bytes in it
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, 64)
		w.WriteString(heldBefore)
		err := src.WriteSchema(w)
		w.Flush()
		return added(b.String(), err)
	case 4:
		w := &readerFrom{b: []byte(heldBefore)}
		err := src.WriteSchema(w)
		return added(string(w.b), err)
	case 5:
		var b bytes.Buffer
		err := src.WriteSchema(struct{ io.Writer }{&b})
		return b.String(), err
	case 6: // two sources, one after the other
		var b bytes.Buffer
		if err := schemalex.NewReaderSource(strings.NewReader(heldBefore)).WriteSchema(&b); err != nil {
			return "(a reader of a string fails)", err
		}
		err := src.WriteSchema(&b)
		return added(b.String(), err)
	case 7:
		rd, w := io.Pipe()
		got := make(chan string)
		go func() {
			var b bytes.Buffer
			io.Copy(&b, iotest.HalfReader(rd))
			got <- b.String()
		}()
		err := src.WriteSchema(w)
		w.Close()
		return <-got, err
	case 8: // a file, behind what it holds
		f, err := os.CreateTemp("", "verif-dst")
		if err != nil {
			return "(no temporary file)", err
		}
		defer os.Remove(f.Name())
		defer f.Close()
		f.WriteString(heldBefore + "to be overwritten")
		f.Truncate(int64(len(heldBefore)))
		f.Seek(int64(len(heldBefore)), io.SeekStart)
		err = src.WriteSchema(f)
		all, err2 := os.ReadFile(f.Name())
		if err2 != nil {
			return "(unreadable temporary file)", err2
		}
		return added(string(all), err)
	case 9:
		w := &plainWriter{}
		err := src.WriteSchema(w)
		return string(w.b), err
	}
	var b bytes.Buffer
	err := src.WriteSchema(&b)
	return b.String(), err
}

// openStates makes readers the standard library has, in a state other than their first.
func openStates(c *Case, text string) (io.Reader, string, string, func()) {
	r := c.R
	skip := r.IntN(len(text) + 1)
	if chance(r, 30) {
		skip = 0
	}
	rest, what := text[skip:], fmt.Sprintf("%d of %d bytes read before", skip, len(text))
	nop := func() {}
	drop := func(rd io.Reader) io.Reader {
		io.CopyN(io.Discard, rd, int64(skip))
		return rd
	}
	switch r.IntN(15) {
	case 0:
		return drop(strings.NewReader(text)), rest, "strings.Reader, " + what, nop
	case 1:
		return drop(bytes.NewReader([]byte(text))), rest, "bytes.Reader, " + what, nop
	case 2:
		return drop(bytes.NewBufferString(text)), rest, "bytes.Buffer, " + what, nop
	case 3:
		return drop(bufio.NewReaderSize(strings.NewReader(text), 16+r.IntN(5000))), rest, "bufio.Reader, " + what, nop
	case 4:
		return io.LimitReader(strings.NewReader(text), int64(skip)), text[:skip], "limited to the first bytes, " + what, nop
	case 5:
		n := r.IntN(len(text) - skip + 1)
		return io.NewSectionReader(strings.NewReader(text), int64(skip), int64(n)), text[skip : skip+n], "io.SectionReader, " + what, nop
	case 6:
		return io.MultiReader(strings.NewReader(text[:skip]), strings.NewReader(""), strings.NewReader(rest)), text, "io.MultiReader", nop
	case 7:
		return io.TeeReader(strings.NewReader(text), io.Discard), text, "io.TeeReader", nop
	case 8:
		return lenReader{iotest.HalfReader(strings.NewReader(text)), len(text)}, text, "a reader with Len that gives pieces", nop
	case 9: // says nothing true about its length
		return lenReader{strings.NewReader(text), r.IntN(2*len(text) + 2)}, text, "a reader with a Len of its own", nop
	case 10:
		return lenReader{iotest.DataErrReader(strings.NewReader(text)), len(text)}, text, "a reader with Len, and data with EOF", nop
	}
	name := c.file(fmt.Sprintf("open%d.sql", r.IntN(4)), text)
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		c.Error("%v", err)
		return strings.NewReader(text), text, "", nop
	}
	done := func() { f.Close(); os.Remove(name); os.Remove(name + ".moved") }
	switch r.IntN(4) {
	case 0:
		f.Seek(int64(skip), io.SeekStart)
		return f, rest, "os.File, " + what, done
	case 1: // somebody else has the name now
		os.Rename(name, name+".moved")
		os.WriteFile(name, []byte("another file"), 0644)
		return f, text, "os.File, renamed", done
	case 2:
		os.Remove(name)
		return drop(f), rest, "os.File, removed, " + what, done
	}
	f.Seek(0, io.SeekEnd)
	f.WriteString("more")
	f.Seek(int64(skip), io.SeekStart)
	return f, rest + "more", "os.File, grown, " + what, done
}

// lenReader has a Len.
type lenReader struct {
	io.Reader
	n int
}

func (l lenReader) Len() int { return l.n }

func (l lenReader) Size() int64 { return int64(l.n) }

func oddContract(err error) bool {
	return err != nil && (strings.HasPrefix(err.Error(), "BOTH") || strings.HasPrefix(err.Error(), "NEITHER"))
}

func randomBytes(r *rand.Rand) string {
	switch r.IntN(8) {
	case 0:
		return ""
	case 1:
		return pick(r, []string{"\n", "\r\n", "\x00", "\xef\xbb\xbf", "\xff\xfe", " ", "%", "-", "\x1a"})
	case 2: // longer than any buffer on the way
		b := make([]byte, 30000+r.IntN(200000))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case 3, 4:
		b := make([]byte, r.IntN(400))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	}
	s := plainSQL(genSchema(r, &GenCfg{Tables: 2, Cols: 3, Idx: 1}))
	switch r.IntN(4) {
	case 0:
		s = strings.Replace(s, "\n", "\r\n", -1)
	case 1:
		s = "\xef\xbb\xbf" + s
	case 2:
		s += pick(r, []string{"\n\n\n", " ", "\x00", "\r", "\t"})
	}
	return s
}

var namePieces = []string{"a", "b", "schema", ".sql", "?", "#", "%", "%41", "%zz", " ", "-", "+", "&", "=", ":", "@", "é", "日本", "\xff", "\n", "\t", "'", `"`, "`", `\`, "*", "$HOME", "~", "!", ";", "(", ")", "[", "]", "{", "}", "|", "<", ">", ",", ".", "file=", "HEAD", "mysql", "x?file=a", "\x01", "..."}

func oddName(r *rand.Rand) string {
	for {
		s := ""
		for n := 1 + r.IntN(4); n > 0; n-- {
			s += pick(r, namePieces)
		}
		if s != "." && s != ".." && len(s) < 200 {
			return s
		}
	}
}

// plainName says whether a name carries nothing that looks like a scheme.
func plainName(s string) bool {
	i := strings.IndexByte(s, ':')
	if i <= 0 {
		return s != "-" && s != ""
	}
	for _, ch := range s[:i] {
		if ch < 128 && (ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.ContainsRune("+.-", ch)) {
			continue
		}
		return true
	}
	return false
}

// fileURL spells a path as a file URL in one of the ways RFC 3986 allows.
func fileURL(r *rand.Rand, scheme, path string) string {
	p := (&url.URL{Path: path}).EscapedPath()
	if chance(r, 40) { // escapes are allowed everywhere
		var b strings.Builder
		for i := 0; i < len(path); i++ {
			ch := path[i]
			plain := ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9' || strings.IndexByte("-._~/", ch) >= 0
			if !plain || ch != '/' && chance(r, 30) {
				fmt.Fprintf(&b, pick(r, []string{"%%%02X", "%%%02x"}), ch)
			} else {
				b.WriteByte(ch)
			}
		}
		p = b.String()
	}
	return pick(r, []string{scheme + "://", scheme + "://", scheme + "://localhost"}) + p
}

// oddReader returns its content in an odd, but legal way, and can fail.
type oddReader struct {
	r     *rand.Rand
	s     string
	fail  int // -1: never
	err   error
	reads int
	zeros int
}

func (o *oddReader) Read(p []byte) (int, error) {
	o.reads++
	if len(p) == 0 {
		return 0, nil
	}
	if o.fail == 0 {
		return 0, o.err
	}
	if len(o.s) == 0 {
		return 0, io.EOF
	}
	if o.zeros < 20 && chance(o.r, 10) {
		o.zeros++
		return 0, nil
	}
	n := len(p)
	if chance(o.r, 50) {
		n = 1 + o.r.IntN(min(n, 64))
	}
	n = min(n, len(o.s))
	if o.fail > 0 {
		n = min(n, o.fail)
		o.fail -= n
	}
	copy(p, o.s[:n])
	o.s = o.s[n:]
	if o.fail == 0 && chance(o.r, 50) {
		return n, o.err // with the last bytes
	}
	if len(o.s) == 0 && o.fail < 0 && chance(o.r, 50) {
		return n, io.EOF
	}
	return n, nil
}

// oddReaderTo has io.WriterTo as well.
type oddReaderTo struct{ *oddReader }

func (o oddReaderTo) WriteTo(w io.Writer) (int64, error) {
	var n int64
	buf := make([]byte, 100)
	for {
		k, err := o.oddReader.Read(buf)
		if k > 0 {
			m, werr := w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

func init() {
	children["stdin-source"] = func(args []string) {
		src, err := schemalex.NewSchemaSource("-")
		if err != nil || src == nil {
			fmt.Fprintln(os.Stderr, "resolve:", src, err)
			os.Exit(3)
		}
		if err := src.WriteSchema(os.Stdout); err != nil {
			fmt.Fprintln(os.Stderr, "read:", err)
			os.Exit(4)
		}
	}
}

func selfChild(name string, args ...string) *exec.Cmd {
	self, _ := os.Executable()
	return exec.Command(self, append([]string{"-child", name}, args...)...)
}

func short(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func wantBytes(c *Case, what, got string, err error, want string) bool {
	if err != nil {
		c.Fail("unreadable", "%s: %v\nwant %s", what, err, short(want))
		return false
	}
	if got != want {
		c.Fail("bytes", "%s: got %s\nwant %s", what, short(got), short(want))
		return false
	}
	c.Count("contents compared")
	c.Max("bytes read", len(want))
	return true
}

func wantError(c *Case, what, got string, err error, prefix string) bool {
	if oddContract(err) {
		c.Fail("contract", "%s: %v", what, err)
		return false
	}
	if err == nil {
		c.Fail("no-error", "%s: no error, and %s", what, short(got))
		return false
	}
	if !strings.HasPrefix(prefix, got) {
		c.Fail("bytes", "%s: error %v, but wrote %s", what, err, short(got))
		return false
	}
	c.Count("errors expected and seen")
	return true
}

// gitHistory is a repository and what it must contain.
type gitHistory struct {
	dir     string
	commits []map[string]string // path -> content
	shas    []string
	refs    map[string]int // name -> commit
	staged  map[string]string
}

// genHistory builds a repository by `git fast-import`.
func genHistory(c *Case, dir string) *gitHistory {
	r := c.R
	h := &gitHistory{dir: dir, refs: map[string]int{}}
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0755); err != nil {
		c.Error("%v", err)
		return nil
	}
	gitRun(c, dir, "init", "-q")
	var names []string
	for n := 1 + r.IntN(4); n > 0; n-- {
		s := oddName(r)
		if chance(r, 40) {
			s = oddName(r) + "/" + s
		}
		clash := false
		for _, old := range names {
			clash = clash || old == s || strings.HasPrefix(old, s+"/") || strings.HasPrefix(s, old+"/")
		}
		if !clash && !strings.HasPrefix(s, "-/") {
			names = append(names, s)
		}
	}
	if len(names) == 0 {
		names = []string{"s.sql"}
	}
	cur := map[string]string{}
	for n := 1 + r.IntN(4); n > 0; n-- {
		for _, s := range names {
			if chance(r, 70) {
				cur[s] = randomBytes(r)
			} else if chance(r, 20) {
				delete(cur, s)
			}
		}
		if len(cur) == 0 {
			cur[names[0]] = randomBytes(r)
		}
		cp := map[string]string{}
		for k, v := range cur {
			cp[k] = v
		}
		h.commits = append(h.commits, cp)
	}
	var in bytes.Buffer
	data := func(s string) { fmt.Fprintf(&in, "data %d\n%s\n", len(s), s) }
	for i, files := range h.commits {
		fmt.Fprintf(&in, "commit refs/heads/main\nmark :%d\ncommitter v <v@example.com> %d +0000\n", i+1, 1700000000+i)
		data("commit")
		if i > 0 {
			fmt.Fprintf(&in, "from :%d\n", i)
		}
		in.WriteString("deleteall\n")
		for _, p := range sortedKeys(files) {
			fmt.Fprintf(&in, "M 100644 inline %s\n", gitQuote(p))
			data(files[p])
		}
	}
	for i := range h.commits {
		if chance(r, 40) {
			b := fmt.Sprintf("%s%d", pick(r, []string{"br", "feature/x", "b-r", "é", "b.r+", "x#y", "a&b", "a=b", "a%41", "HEADs"}), i)
			fmt.Fprintf(&in, "reset refs/heads/%s\nfrom :%d\n\n", b, i+1)
			h.refs[b] = i
			h.refs["refs/heads/"+b] = i
		}
		if chance(r, 40) {
			t := fmt.Sprintf("v1.%d", i)
			fmt.Fprintf(&in, "tag %s\nfrom :%d\ntagger v <v@example.com> 1700000100 +0000\n", t, i+1)
			data("t")
			h.refs[t] = i
			h.refs["tags/"+t] = i
		}
	}
	if chance(r, 40) {
		// a tag and a branch of one name: git says so, and takes the tag
		i, j := r.IntN(len(h.commits)), r.IntN(len(h.commits))
		fmt.Fprintf(&in, "reset refs/heads/both\nfrom :%d\n\nreset refs/tags/both\nfrom :%d\n\n", i+1, j+1)
		h.refs["both"], h.refs["tags/both"], h.refs["heads/both"] = j, j, i
		c.Count("ambiguous names")
	}
	cmd := exec.Command("git", "fast-import", "--quiet", "--export-marks="+dir+"/.git/marks")
	cmd.Dir = dir
	cmd.Stdin = &in
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Error("fast-import: %v\n%s", err, out)
		return nil
	}
	b, err := os.ReadFile(dir + "/.git/marks")
	if err != nil {
		c.Error("%v", err)
		return nil
	}
	h.shas = make([]string, len(h.commits))
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var m int
		var sha string
		fmt.Sscanf(l, ":%d %s", &m, &sha)
		if m >= 1 && m <= len(h.shas) {
			h.shas[m-1] = sha
		}
	}
	last := len(h.commits) - 1
	head := last
	if chance(r, 30) { // a detached HEAD somewhere in the past
		head = r.IntN(len(h.commits))
		os.WriteFile(dir+"/.git/HEAD", []byte(h.shas[head]+"\n"), 0644)
	} else {
		os.WriteFile(dir+"/.git/HEAD", []byte("ref: refs/heads/main\n"), 0644)
	}
	h.refs["HEAD"], h.refs["@"] = head, head
	h.refs["main"], h.refs["refs/heads/main"], h.refs["heads/main"] = last, last, last
	for i, sha := range h.shas {
		h.refs[sha] = i
		h.refs[sha[:12]] = i
		h.refs[strings.ToUpper(sha)] = i
		if i <= head {
			h.refs[fmt.Sprintf("HEAD~%d", head-i)] = i
			h.refs["HEAD"+strings.Repeat("^", head-i)] = i
		}
		h.refs[fmt.Sprintf("main~%d", last-i)] = i
	}
	h.refs["main@{0}"] = last
	delete(h.refs, "main@{0}") // no reflog after an import
	// attributes and settings that must not change what is read
	os.MkdirAll(dir+"/.git/info", 0755)
	os.WriteFile(dir+"/.git/info/attributes", []byte("* text eol=crlf ident diff=up export-subst\n"), 0644)
	gitRun(c, dir, "config", "diff.up.textconv", "tr a-z A-Z <")
	gitRun(c, dir, "config", "core.autocrlf", "true")
	if chance(r, 50) {
		// the work tree says something else
		for p := range h.commits[last] {
			os.MkdirAll(filepath.Dir(dir+"/"+p), 0755)
			os.WriteFile(dir+"/"+p, []byte("CREATE TABLE worktree (a INT);"), 0644)
		}
	}
	return h
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// gitQuote is the C-style quoting of fast-import.
func gitQuote(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		ch := p[i]
		switch {
		case ch == '"' || ch == '\\':
			b.WriteByte('\\')
			b.WriteByte(ch)
		case ch < 32 || ch > 126:
			fmt.Fprintf(&b, "\\%03o", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func gitURL(r *rand.Rand, dir, file, commitish string) string {
	q := "file=" + url.QueryEscape(file) + "&commitish=" + url.QueryEscape(commitish)
	if chance(r, 50) {
		q = "commitish=" + url.QueryEscape(commitish) + "&file=" + strings.Replace(url.QueryEscape(file), "+", "%20", -1)
	}
	return "local-git://" + (&url.URL{Path: dir}).EscapedPath() + "?" + q
}

func init() {
	register(&Check{
		ID: "C18", Level: "exploration",
		Rule: "a case is one source (string, file, reader or repository) with its content; distinct by name and content; non-trivial because the bytes delivered are compared with what was put there, or an expected error is seen",
		Assumptions: []string{
			"query and fragment of a file:// URL are not part of the path",
			"git is installed; commit-ish spellings are those git resolves",
			"file permissions are not tested (checks run as root); unreadable files are missing ones, directories and files whose reads fail (/proc/self/mem)",
		},
		Phases: []Phase{
			{Name: "files", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				r := c.R
				dir := filepath.Join(c.W.Scratch, "f")
				os.RemoveAll(dir)
				rel := oddName(r)
				if chance(r, 30) {
					rel = oddName(r) + "/" + rel
				}
				path := filepath.Join(dir, rel)
				text := randomBytes(r)
				if err := os.MkdirAll(filepath.Dir(path), 0755); err != nil {
					c.Error("%v", err)
					return
				}
				if err := os.WriteFile(path, []byte(text), 0644); err != nil {
					c.Error("%v", err)
					return
				}
				// what a cut off or decoded name would find
				for _, decoy := range decoys(rel) {
					p := filepath.Join(dir, decoy)
					if p != path && strings.HasPrefix(p, dir+"/") {
						if _, err := os.Lstat(p); err != nil {
							os.WriteFile(p, []byte("decoy"), 0644)
							c.Count("decoys")
						}
					}
				}
				c.Input(rel, text)
				var got string
				var err error
				var what string
				switch c.Index % 6 {
				case 0:
					what = "path " + fmt.Sprintf("%q", path)
					got, err = readSource(path)
				case 1:
					u := fileURL(r, pick(r, []string{"file", "file", "FILE", "File"}), path)
					what = "URL " + u
					got, err = readSource(u)
				case 2:
					// relative to the working directory
					old, _ := os.Getwd()
					if e := os.Chdir(dir); e != nil {
						c.Error("%v", e)
						return
					}
					p := rel
					if !plainName(p) {
						p = "./" + p
					}
					what = "relative path " + fmt.Sprintf("%q", p)
					got, err = readSource(p)
					os.Chdir(old)
				case 3:
					what = "NewLocalFileSource " + fmt.Sprintf("%q", path)
					var b bytes.Buffer
					err = schemalex.NewLocalFileSource(path).WriteSchema(&b)
					got = b.String()
				case 4:
					// a symbolic link
					l := filepath.Join(dir, "link-to-it")
					os.Symlink(path, l)
					what = "link"
					got, err = readSource(l)
				case 5:
					// a pipe delivers in pieces
					l := filepath.Join(dir, "named-pipe")
					if e := syscall.Mkfifo(l, 0600); e != nil {
						c.Error("%v", e)
						return
					}
					done := make(chan struct{})
					cuts := []int{r.IntN(len(text) + 1), r.IntN(len(text) + 1)}
					go func() {
						defer close(done)
						f, e := os.OpenFile(l, os.O_WRONLY, 0)
						if e != nil {
							return
						}
						defer f.Close()
						a, b := min(cuts[0], cuts[1]), max(cuts[0], cuts[1])
						f.WriteString(text[:a])
						f.WriteString(text[a:b])
						f.WriteString(text[b:])
					}()
					what = "named pipe"
					got, err = readSource(l)
					if err != nil {
						// let the writer go
						if f, e := os.OpenFile(l, os.O_RDONLY|syscall.O_NONBLOCK, 0); e == nil {
							defer f.Close()
						}
					}
					<-done
				}
				c.Feature(strings.Fields(what)[0])
				if wantBytes(c, what, got, err, text) && c.Index < 20 {
					c.Sample(what)
				}
			}},
			{Name: "path-spellings", Quick: 1500, Thorough: 50000, Run: func(c *Case) {
				// the same names mean what the file system says, whatever they look like
				r := c.R
				dir := filepath.Join(c.W.Scratch, "p")
				os.RemoveAll(dir)
				parts := []string{"a", "b", "c d", "..x", "a.sql", "~", "*"}
				dirs := []string{dir}
				for i := 0; i < 6; i++ {
					p := pick(r, dirs) + "/" + pick(r, parts)
					if _, err := os.Lstat(p); err == nil {
						continue
					}
					switch r.IntN(3) {
					case 0:
						os.MkdirAll(p, 0755)
						dirs = append(dirs, p)
					case 1:
						os.MkdirAll(dir, 0755)
						to := pick(r, dirs)
						if rel, err := filepath.Rel(filepath.Dir(p), to); err == nil && chance(r, 50) {
							if e, err := filepath.EvalSymlinks(filepath.Dir(p)); err == nil && e == filepath.Dir(p) {
								to = rel
							}
						}
						if os.Symlink(to, p) == nil {
							dirs = append(dirs, p)
						}
					}
				}
				os.MkdirAll(dir, 0755)
				for i, d := range dirs {
					for _, n := range []string{"x", "y.sql"} {
						if i == 0 || chance(r, 70) {
							os.WriteFile(d+"/"+n, []byte(fmt.Sprintf("-- %d in %s\n", i, d)), 0644)
						}
					}
				}
				p := pick(r, dirs)
				for n := r.IntN(5); n > 0; n-- {
					// mostly along what is there
					next := []string{".", "..", "", pick(r, parts)}
					ents, _ := os.ReadDir(p)
					for _, e := range ents {
						if !e.Type().IsRegular() {
							next = append(next, e.Name(), e.Name(), e.Name()+pick(r, []string{"/..", "/../.", "//.."}))
						}
					}
					p += pick(r, []string{"/", "/", "//", "/./"}) + pick(r, next)
				}
				p += pick(r, []string{"/", "//", "/./", "/../", "/.//"}) + pick(r, []string{"x", "y.sql", "x", "x/", "x/.", "x/../y.sql"})
				inside := func(p string) bool { // nothing else is of interest
					e, err := filepath.EvalSymlinks(p)
					return err != nil || strings.HasPrefix(e, dir+"/")
				}
				want, werr := os.ReadFile(p)
				if werr == nil && !inside(p) {
					return
				}
				if werr == nil {
					c.Count("spellings of a file")
					if clean, e := os.ReadFile(filepath.Clean(p)); e != nil || string(clean) != string(want) {
						c.Count("spellings that mean something else when cleaned")
					}
				} else {
					c.Count("spellings of nothing")
				}
				c.Input(p)
				spell := func(p string) (string, string, error) {
					switch r.IntN(5) {
					case 0:
						var b bytes.Buffer
						err := schemalex.NewLocalFileSource(p).WriteSchema(&b)
						return "NewLocalFileSource " + p, b.String(), err
					case 1, 2:
						u := fileURL(r, "file", p)
						got, err := readSource(u)
						return "URL " + u, got, err
					case 3:
						old, _ := os.Getwd()
						d := pick(r, dirs)
						if os.Chdir(d) != nil {
							return "path " + p, string(want), werr
						}
						defer os.Chdir(old)
						e, _ := filepath.EvalSymlinks(d)
						rel := "./" + strings.Repeat("../", strings.Count(e, "/")) + p[1:]
						got, err := readSource(rel)
						return "relative path " + rel, got, err
					}
					got, err := readSource(p)
					return "path " + p, got, err
				}
				for k := 0; k < 3; k++ {
					what, got, err := spell(p)
					if werr != nil {
						if !wantError(c, what, got, err, "") {
							return
						}
					} else if !wantBytes(c, what, got, err, string(want)) {
						return
					}
				}
			}},
			{Name: "missing", Quick: 800, Thorough: 20000, Run: func(c *Case) {
				r := c.R
				dir := filepath.Join(c.W.Scratch, "m")
				os.RemoveAll(dir)
				os.MkdirAll(dir+"/sub", 0755)
				rel := oddName(r)
				for _, d := range decoys(rel) {
					if d != rel && !strings.Contains(d, "/") && d != "" && d != "." && d != ".." {
						os.WriteFile(dir+"/"+d, []byte("decoy"), 0644)
					}
				}
				os.WriteFile(dir+"/plain", []byte("x"), 0644)
				os.Symlink("loop", dir+"/loop")
				os.Symlink("nowhere", dir+"/dangling")
				p := pick(r, []string{dir + "/" + rel, dir + "/" + rel, dir, dir + "/sub", dir + "/plain/x", dir + "/loop", dir + "/dangling", "/proc/self/mem", dir + "/" + strings.Repeat("n", 300), dir + "/a\x00b", dir + "/"})
				c.Input(p)
				var got string
				var err error
				what := fmt.Sprintf("unreadable %q", p)
				switch r.IntN(5) {
				case 0:
					got, err = readSource(fileURL(r, "file", p))
				case 1:
					var b bytes.Buffer
					err = schemalex.NewLocalFileSource(p).WriteSchema(&b)
					got = b.String()
				case 2:
					what = "diff of " + what
					var b bytes.Buffer
					f := c.file("ok.sql", "CREATE TABLE a (a INT);")
					if chance(r, 50) {
						err = diff.Files(&b, f, p)
					} else {
						err = diff.Files(&b, p, f)
					}
					got = b.String()
				case 3:
					what = "ParseFile of " + what
					st, e := schemalex.New().ParseFile(p)
					if err = e; st != nil {
						got = fmt.Sprint(st)
					}
				default:
					got, err = readSource(p)
				}
				wantError(c, what, got, err, "")
			}},
			{Name: "strings", Quick: 4000, Thorough: 100000, Run: func(c *Case) {
				// strings that name nothing: an error, and never a nil source
				r := c.R
				s := ""
				switch r.IntN(7) {
				case 0:
					s = pick(r, []string{"http", "https", "ftp", "git", "postgres", "sqlite", "mysqlx", "mysql+tcp", "local-gitx", "files", "ssh", "c", "x.y", "data", "localgit", "local-git+ssh"}) + pick(r, []string{"://", ":", ":/", "://localhost/", ":///"}) + oddName(r)
				case 1:
					s = "file://" + pick(r, []string{"example.com", "remote", "127.0.0.2", "localhost:80", "a.b.c", "[::1]", "localhost.example.com"}) + "/etc/hostname"
				case 2:
					s = "file://" + pick(r, []string{"/%zz", "/%", "/a%4", "%zz/x", "/\x7f", "/a\nb", "[/x"})
				case 3:
					s = "local-git://" + c.W.Scratch + "/no-such-directory?" + pick(r, []string{"", "file=a", "commitish=HEAD", "file=a&commitish=HEAD", "file=%zz&commitish=x", "file=a;commitish=b"})
				case 4:
					s = pick(r, []string{"", "file:", "file://", "local-git:", "local-git://", "mysql:", "mysql:/", "mysql", "file", "local-git", ":", "://", "-x", "--", " -", "- ", "-\n", "/-", "?", "#", "%", "file:///", "file:relative", "file://relative/x", "local-git:relative?file=a&commitish=HEAD", "mysql:x@tcp(127.0.0.1:1)/db", "MYSQL:x", "\x00", "file://localhost", "\xff:", "é://x"})
				case 5:
					s = oddName(r) + pick(r, []string{"", ":", "://"}) + oddName(r)
				case 6:
					s = c.W.Scratch + "/nothing-here-" + oddName(r)
				}
				c.Input(s)
				// mysql:// names a server; that is another phase
				if strings.HasPrefix(s, "mysql://") || s == "-" {
					return
				}
				got, err := readSource(s)
				wantError(c, fmt.Sprintf("source string %q", s), got, err, "")
			}},
			{Name: "mysql", Quick: 400, Thorough: 10000, Run: func(c *Case) {
				// mysql:// strings are DSNs, kept as they are
				r := c.R
				dsn := genDSN(r)
				c.Input(dsn)
				src, err := schemalex.NewSchemaSource("mysql://" + dsn)
				if err != nil || src == nil {
					c.Fail("mysql", "mysql://%s: source %v, error %v", dsn, src, err)
					return
				}
				m, ok := src.(interface {
					MySQLConfig() (*mysql.Config, error)
				})
				if !ok {
					c.Fail("mysql", "mysql://%s is no MySQL source: %T", dsn, src)
					return
				}
				cfg, err := m.MySQLConfig()
				want, werr := mysql.ParseDSN(dsn)
				if (err == nil) != (werr == nil) {
					c.Fail("mysql", "mysql://%s: error %v, want %v", dsn, err, werr)
					return
				}
				if err == nil && cfgText(cfg) != cfgText(want) {
					c.Fail("mysql", "mysql://%s: %s\nwant %s", dsn, cfgText(cfg), cfgText(want))
					return
				}
				if err != nil {
					var b bytes.Buffer
					if err := src.WriteSchema(&b); err == nil || b.Len() > 0 {
						c.Fail("no-error", "mysql://%s: error %v, wrote %q", dsn, err, b.String())
						return
					}
				}
				c.Count("DSNs compared")
			}},
			{Name: "readers", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				r := c.R
				text := randomBytes(r)
				o := &oddReader{r: r, s: text, fail: -1}
				if chance(r, 50) {
					o.fail = r.IntN(len(text) + 1)
					o.err = pick(r, []error{errors.New("reader fails"), io.ErrUnexpectedEOF, io.ErrNoProgress, os.ErrClosed, context.Canceled, fmt.Errorf("wrapped: %w", io.EOF), syscall.EIO, io.ErrClosedPipe})
				}
				k := o.fail
				c.Input(text, fmt.Sprint(k, o.err))
				var rd io.Reader = o
				if chance(r, 30) {
					rd = oddReaderTo{o}
				}
				got, err := readInto(r.IntN(nDestinations), schemalex.NewReaderSource(rd))
				c.Max("reads of one source", o.reads)
				if k >= 0 {
					c.Feature("failing reader")
					wantError(c, fmt.Sprintf("reader failing after %d of %d bytes with %v", k, len(text), o.err), got, err, text[:k])
				} else {
					c.Feature("reader")
					wantBytes(c, "reader", got, err, text)
				}
			}},
			{Name: "open-readers", Quick: 3000, Thorough: 100000, Run: func(c *Case) {
				// what a reader has left is what it names, whatever else it can do
				rd, want, what, done := openStates(c, randomBytes(c.R))
				defer done()
				c.Input(what, want)
				c.Feature("open reader: " + strings.SplitN(what, ",", 2)[0])
				kind := c.R.IntN(nDestinations)
				c.Feature(fmt.Sprint("destination ", kind))
				got, err := readInto(kind, schemalex.NewReaderSource(rd))
				wantBytes(c, what, got, err, want)
			}},
			{Name: "half-schema", Quick: 1500, Thorough: 30000, Run: func(c *Case) {
				// a reader that fails between statements must not become a
				// shorter schema
				r := c.R
				s := genValid(r, &GenCfg{Tables: 3, Cols: 3, Idx: 1})
				text := plainSQL(s)
				k := r.IntN(len(text) + 1)
				if chance(r, 60) { // right behind a statement
					if i := strings.LastIndex(text[:k], ";"); i > 0 {
						k = i + 1
					}
				}
				mk := func() schemalex.SchemaSource {
					return schemalex.NewReaderSource(&oddReader{r: r, s: text, fail: k, err: errors.New("cut")})
				}
				ok := schemalex.NewReaderSource(strings.NewReader(text))
				c.Input(text, fmt.Sprint(k))
				var b bytes.Buffer
				var err error
				var what string
				switch r.IntN(3) {
				case 0:
					what, err = "diff from", diff.Sources(&b, mk(), ok)
				case 1:
					what, err = "diff to", diff.Sources(&b, ok, mk())
				case 2:
					what, err = "lint of", lint.New().Run(context.Background(), mk(), &b)
				}
				c.Feature(what)
				wantError(c, fmt.Sprintf("%s a source cut at %d of %d", what, k, len(text)), b.String(), err, "")
			}},
			{Name: "stdin", Quick: 40, Thorough: 400, Run: func(c *Case) {
				text := randomBytes(c.R)
				c.Input(text)
				cmd := selfChild("stdin-source")
				var out, eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &eb
				if c.Index%2 == 0 {
					cmd.Stdin = &oddReader{r: c.R, s: text, fail: -1}
				} else {
					f, err := os.Open(c.file("stdin", text))
					if err != nil {
						c.Error("%v", err)
						return
					}
					defer f.Close()
					cmd.Stdin = f
				}
				if err := cmd.Run(); err != nil {
					c.Fail("stdin", "source -: %v %s", err, eb.String())
					return
				}
				wantBytes(c, "standard input", out.String(), nil, text)
			}},
			{Name: "stdin-error", Quick: 4, Thorough: 10, Run: func(c *Case) {
				// reading standard input fails: a directory, and a closed one
				cmd := selfChild("stdin-source")
				c.Input("stdin-error", fmt.Sprint(c.Index))
				var out, eb bytes.Buffer
				cmd.Stdout, cmd.Stderr = &out, &eb
				f, err := os.Open([]string{c.W.Scratch, "/proc/self/mem"}[c.Index%2])
				if err != nil {
					c.Error("%v", err)
					return
				}
				defer f.Close()
				cmd.Stdin = f
				err = cmd.Run()
				wantError(c, "standard input that cannot be read", out.String(), err, "")
			}},
			{Name: "git", Quick: 160, Thorough: 3000, Run: func(c *Case) {
				r := c.R
				base := filepath.Join(c.W.Scratch, "g")
				os.RemoveAll(base)
				dir := filepath.Join(base, pick(r, []string{"repo", "re po", "re%41po", "re?po", "re#po", "é", "a+b", "a&b=c", "-"}))
				h := genHistory(c, dir)
				if h == nil {
					return
				}
				refs := sortedKeys(h.refs)
				for i := 0; i < 12; i++ {
					ref := pick(r, refs)
					files := h.commits[h.refs[ref]]
					file := pick(r, sortedKeys(files))
					want := files[file]
					c.Input(ref, file, want)
					var got string
					var err error
					what := fmt.Sprintf("git %q %q %q", dir, file, ref)
					if chance(r, 50) {
						u := gitURL(r, dir, file, ref)
						what += " as " + u
						got, err = readSource(u)
					} else {
						got, err = readInto(r.IntN(nDestinations), schemalex.NewLocalGitSource(dir, file, ref))
					}
					c.Feature("git")
					if !wantBytes(c, what, got, err, want) {
						return
					}
				}
				// paths from a directory below the top of the work tree
				for i := 0; i < 4; i++ {
					ref := pick(r, refs)
					files := h.commits[h.refs[ref]]
					file := pick(r, sortedKeys(files))
					sub := pick(r, []string{"sub", "a", "x/y"})
					if j := strings.IndexByte(file, '/'); j > 0 && chance(r, 60) {
						sub = file[:j]
					}
					d := filepath.Join(dir, sub)
					if file == sub || strings.HasPrefix(sub, file+"/") {
						continue
					}
					if os.MkdirAll(d, 0755) != nil {
						continue // a file of the work tree is in the way
					}
					rel, err := filepath.Rel("/"+sub, "/"+file)
					if err != nil {
						c.Error("%v", err)
						return
					}
					want, ask := files[file], file // from the top, wherever one is
					if chance(r, 70) {
						ask = rel
						if !strings.HasPrefix(rel, "../") {
							ask = "./" + rel
						}
					}
					c.Input(ref, d, ask)
					c.Count("files asked for below the top")
					got, err := readSource(gitURL(r, d, ask, ref))
					if !wantBytes(c, fmt.Sprintf("git %q %q %q", d, ask, ref), got, err, want) {
						return
					}
				}
				// what is not there
				for i := 0; i < 5; i++ {
					ref := pick(r, refs)
					files := h.commits[h.refs[ref]]
					file := pick(r, sortedKeys(files))
					d := dir
					switch r.IntN(6) {
					case 0:
						ref = pick(r, []string{"no-such-ref", "HEAD~99", strings.Repeat("0", 40), "-p", "--", "HEAD^{tree}^{commit}", "HEAD HEAD", "\x01"})
					case 1:
						file = "no-such-file" + file
					case 2: // in another commit only
						all := map[string]bool{}
						for _, cm := range h.commits {
							for p := range cm {
								all[p] = true
							}
						}
						for p := range files {
							delete(all, p)
						}
						if len(all) == 0 {
							continue
						}
						file = pick(r, sortedKeys(all))
						c.Count("files of other commits asked for")
					case 3: // a directory
						if j := strings.IndexByte(file, '/'); j > 0 {
							file = file[:j]
						} else {
							file = ""
						}
					case 4:
						d = base
					case 5:
						d = dir + "-missing"
					}
					var b bytes.Buffer
					err := schemalex.NewLocalGitSource(d, file, ref).WriteSchema(&b)
					if !wantError(c, fmt.Sprintf("git %q %q %q", d, file, ref), b.String(), err, "") {
						return
					}
				}
			}},
			{Name: "git-index", Quick: 16, Thorough: 200, Run: func(c *Case) {
				// without a commit, the staged content
				r := c.R
				dir := filepath.Join(c.W.Scratch, "gi")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				gitRun(c, dir, "init", "-q")
				one, two, three := "1"+randomBytes(r), "2"+randomBytes(r), "3"+randomBytes(r)
				os.WriteFile(dir+"/s.sql", []byte(one), 0644)
				gitRun(c, dir, "add", "s.sql")
				gitRun(c, dir, "commit", "-q", "-m", "x")
				os.WriteFile(dir+"/s.sql", []byte(two), 0644)
				gitRun(c, dir, "add", "s.sql")
				os.WriteFile(dir+"/s.sql", []byte(three), 0644)
				c.Input(one, two, three)
				got, err := readSource("local-git://" + dir + "?file=s.sql")
				if !wantBytes(c, "staged file", got, err, two) {
					return
				}
				got, err = readSource("local-git://" + dir + "?file=s.sql&commitish=HEAD")
				if !wantBytes(c, "committed file", got, err, one) {
					return
				}
				got, err = readSource(dir + "/s.sql")
				wantBytes(c, "file of the work tree", got, err, three)
			}},
			{Name: "git-talks", Quick: 6, Thorough: 30, Serial: true, Run: func(c *Case) {
				// what git says besides is not part of the schema
				r := c.R
				dir := filepath.Join(c.W.Scratch, "gt")
				os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				gitRun(c, dir, "init", "-q")
				text := randomBytes(r)
				os.WriteFile(dir+"/s.sql", []byte(text), 0644)
				gitRun(c, dir, "add", "s.sql")
				gitRun(c, dir, "commit", "-q", "-m", "x")
				for _, kv := range shuffled(r, [][2]string{{"GIT_TRACE", "1"}, {"GIT_TRACE_SETUP", "1"}, {"GIT_TRACE2", "1"}, {"GIT_PAGER", "tr a-z A-Z"}, {"GIT_TRACE_PERFORMANCE", "1"}, {"PAGER", "sed s/a/b/"}, {"LANG", "de_DE.UTF-8"}})[:3] {
					if old, ok := os.LookupEnv(kv[0]); ok {
						defer os.Setenv(kv[0], old)
					} else {
						defer os.Unsetenv(kv[0])
					}
					os.Setenv(kv[0], kv[1])
				}
				c.Input(text)
				got, err := readSource("local-git://" + dir + "?file=s.sql&commitish=HEAD")
				if !wantBytes(c, "git that traces", got, err, text) {
					return
				}
				got, err = readSource("local-git://" + dir + "?file=nothing&commitish=HEAD")
				wantError(c, "git that traces, and fails", got, err, "")
			}},
			{Name: "large", Quick: 6, Thorough: 60, Run: func(c *Case) {
				// contents beyond every buffer and limit one could think of
				r := c.R
				b := make([]byte, []int{1 << 20, 3 << 20, 5 << 20, 9 << 20, 17 << 20, 33 << 20}[c.Index%6]+r.IntN(5000)-2500)
				if c.Index/6%2 == 0 {
					unit := []byte("CREATE TABLE t (a INT NOT NULL, b VARCHAR (20));\n")
					for i := range b {
						b[i] = unit[i%len(unit)]
					}
				} else {
					for i := range b {
						b[i] = byte(r.IntN(256))
					}
				}
				text := string(b)
				c.Input("large", fmt.Sprint(c.Index, len(text)))
				dir := filepath.Join(c.W.Scratch, "big")
				os.RemoveAll(dir)
				defer os.RemoveAll(dir)
				os.MkdirAll(dir, 0755)
				path := dir + "/s.sql"
				os.WriteFile(path, b, 0644)
				gitRun(c, dir, "init", "-q")
				gitRun(c, dir, "add", "s.sql")
				gitRun(c, dir, "commit", "-q", "-m", "x")
				for _, s := range []string{path, "file://" + path, "local-git://" + dir + "?file=s.sql&commitish=HEAD", "local-git://" + dir + "?file=s.sql"} {
					got, err := readSource(s)
					if !wantBytes(c, "large content of "+s, got, err, text) {
						return
					}
				}
				var out bytes.Buffer
				err := schemalex.NewReaderSource(strings.NewReader(text)).WriteSchema(&out)
				if !wantBytes(c, "large reader", out.String(), err, text) {
					return
				}
				out.Reset()
				err = schemalex.NewReaderSource(&oddReader{r: r, s: text, fail: -1}).WriteSchema(&out)
				if !wantBytes(c, "large odd reader", out.String(), err, text) {
					return
				}
				cmd := selfChild("stdin-source")
				cmd.Stdin = bytes.NewReader(b)
				o, err := cmd.Output()
				wantBytes(c, "large standard input", string(o), err, text)
			}},
			{Name: "no-git", Quick: 2, Thorough: 2, Serial: true, Run: func(c *Case) {
				// no git program, or one that fails after some output
				old := os.Getenv("PATH")
				defer os.Setenv("PATH", old)
				bin := filepath.Join(c.W.Scratch, "bin")
				os.MkdirAll(bin, 0755)
				if c.Index == 1 {
					os.WriteFile(bin+"/git", []byte("#!/bin/sh\nprintf 'CREATE TABLE a (a INT);'\nexit 3\n"), 0755)
				}
				os.Setenv("PATH", bin)
				c.Input("no-git", fmt.Sprint(c.Index))
				var b bytes.Buffer
				err := schemalex.NewLocalGitSource(c.W.Scratch, "a", "HEAD").WriteSchema(&b)
				wantError(c, "git source with a broken git", b.String(), err, "")
			}},
		},
	})
}

// decoys are the names that a wrong reading of a name would find.
func decoys(name string) []string {
	var out []string
	for _, sep := range []string{"?", "#", " ", "\n", "&", "+"} {
		if i := strings.Index(name, sep); i > 0 {
			out = append(out, name[:i])
		}
	}
	if s, err := url.PathUnescape(name); err == nil && s != name && !strings.Contains(s, "\x00") {
		out = append(out, s)
	}
	if s, err := url.QueryUnescape(name); err == nil && s != name && !strings.Contains(s, "\x00") {
		out = append(out, s)
	}
	out = append(out, strings.TrimSpace(name), strings.Replace(name, "+", " ", -1), url.PathEscape(name))
	var keep []string
	for _, s := range out {
		if s != "" && s != name && len(s) < 200 && !strings.Contains(s, "/") {
			keep = append(keep, s)
		}
	}
	return keep
}

func cfgText(c *mysql.Config) string {
	d := *c
	d.TLSConfig = c.TLSConfig
	loc := ""
	if c.Loc != nil {
		loc = c.Loc.String()
	}
	var ps []string
	for _, k := range sortedKeys(c.Params) {
		ps = append(ps, fmt.Sprintf("%q=%q", k, c.Params[k]))
	}
	return fmt.Sprintf("user %q password %q net %q addr %q db %q params %v collation %q loc %q max %d key %q tls %q timeouts %v %v %v flags %v %v %v %v %v %v %v %v %v %v", c.User, c.Passwd, c.Net, c.Addr, c.DBName, ps, c.Collation, loc, c.MaxAllowedPacket, c.ServerPubKey, c.TLSConfig, c.Timeout, c.ReadTimeout, c.WriteTimeout,
		c.AllowAllFiles, c.AllowCleartextPasswords, c.AllowNativePasswords, c.AllowOldPasswords, c.CheckConnLiveness, c.ClientFoundRows, c.ColumnsWithAlias, c.InterpolateParams, c.MultiStatements, c.ParseTime)
}

// genDSN makes data source names (without TLS files).
func genDSN(r *rand.Rand) string {
	if chance(r, 15) { // not one at all
		return pick(r, []string{"", "x", "@", "user@tcp(", "user@tcp(h:1", "user@unknown(h)/x?a", "/db?collation=%zz", "user:pw@", "u@tcp(a)b/c", "/db?timeout=x", "/db?parseTime=maybe", "/db?tls=%zz", "/db?allowAllFiles=2"})
	}
	s := ""
	if chance(r, 80) {
		s = pick(r, []string{"root", "us er", "u@x", "üser", "u%41"})
		if chance(r, 60) {
			s += ":" + pick(r, []string{"pw", "p:w", "p@w", "p/w", "p?w", "p%41", "", "p w", "ü"})
		}
		s += "@"
	}
	s += pick(r, []string{"", "tcp", "tcp(127.0.0.1:3306)", "tcp(db.example.com)", "unix(/tmp/my.sock)", "tcp([::1]:99)", "tcp(h:1)"})
	s += "/" + pick(r, []string{"", "db", "d-b", "d b", "d%41b", "Ü"})
	var ps []string
	for _, p := range shuffled(r, []string{"charset=utf8mb4,utf8", "collation=utf8_bin", "timeout=3s", "readTimeout=2s", "parseTime=true", "sql_mode=%27ANSI%27", "loc=UTC", "multiStatements=false", "maxAllowedPacket=1000", "autocommit=1", "time_zone=%27%2B09%3A00%27", "tls=skip-verify", "tls=preferred", "tls=false", "x=y", "ssl-ca=a", "clientFoundRows=true", "allowNativePasswords=false", "interpolateParams=true"}) {
		if chance(r, 15) {
			ps = append(ps, p)
		}
	}
	if len(ps) > 0 {
		s += "?" + strings.Join(ps, "&")
	}
	return s
}
