package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// C20: writers that fail at every possible byte.

var errWriter = errors.New("the writer fails here")

// limitWriter accepts k bytes and then fails in one of several ways, all of
// which the contract of io.Writer allows.
type limitWriter struct {
	k     int
	mode  int
	err   error
	got   []byte
	fails int
}

const (
	wmPartial   = iota // takes what fits of the failing write
	wmNothing          // takes nothing of the failing write
	wmOnce             // as partial, but fails one time only
	wmOnceNone         // as nothing, but fails one time only
	wmAllAndErr        // takes all of the write that reaches the limit, and fails
	wmModes
)

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.fails > 0 {
		if w.mode == wmOnce || w.mode == wmOnceNone || w.mode == wmAllAndErr {
			w.got = append(w.got, p...)
			return len(p), nil
		}
		w.fails++
		return 0, w.err
	}
	if len(w.got)+len(p) <= w.k {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.fails++
	switch w.mode {
	case wmPartial, wmOnce:
		n := w.k - len(w.got)
		w.got = append(w.got, p[:n]...)
		return n, w.err
	case wmAllAndErr:
		w.got = append(w.got, p...)
		return len(p), w.err
	}
	return 0, w.err
}

// richWriter has the other methods writers may have.
type richWriter struct{ *limitWriter }

func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richWriter) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	buf := make([]byte, 7)
	for {
		m, err := r.Read(buf)
		if m > 0 {
			k, werr := w.Write(buf[:m])
			n += int64(k)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// faultAt lets an operation write to a writer that fails at byte k.
func faultAt(c *Case, what, want string, k, mode int, rich bool, werr error, op func(w io.Writer) error) bool {
	lw := &limitWriter{k: k, mode: mode, err: werr}
	var w io.Writer = lw
	if rich {
		w = richWriter{lw}
	}
	err := op(w)
	c.Count("writers tried")
	fail := func(kind, format string, args ...interface{}) bool {
		c.Fail(kind, "%s: writer failing at byte %d of %d (mode %d, extra methods %v, error %v): %s\n--- complete output\n%s", what, k, len(want), mode, rich, werr, fmt.Sprintf(format, args...), want)
		return false
	}
	if lw.fails > 0 {
		c.Count("faults injected")
		if err == nil {
			return fail("unreported", "no error is returned, %d bytes were written", len(lw.got))
		}
	} else if err != nil {
		return fail("spurious", "the writer did not fail, but an error is returned: %v", err)
	} else if string(lw.got) != want {
		return fail("incomplete", "no error, but the writer got %q", lw.got)
	}
	if !strings.HasPrefix(want, string(lw.got)) {
		return fail("prefix", "what was written is no prefix of the output: %q", lw.got)
	}
	if lw.fails == 0 && k < len(want) {
		return fail("missing", "fewer bytes were written than the output has: %q", lw.got)
	}
	return true
}

type outputOp struct {
	name string
	f    func(w io.Writer) error
}

var writerErrors = []error{errWriter, io.EOF, io.ErrShortWrite, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled}

// everyFault lets an operation fail at every byte (or, if there are many, at
// some of them) in every mode.
func everyFault(c *Case, op outputOp, max int) bool {
	var b bytes.Buffer
	if err := op.f(&b); err != nil {
		c.Error("%s: %v", op.name, err)
		return false
	}
	want := b.String()
	c.Feature(op.name)
	c.Input(op.name, want)
	c.Max("bytes of output", len(want))
	var at []int
	if len(want) < max {
		for k := 0; k <= len(want); k++ {
			at = append(at, k)
		}
		c.Count("outputs cut at every byte")
	} else {
		for i := 0; i < max; i++ {
			at = append(at, c.R.IntN(len(want)))
		}
		at = append(at, 0, 1, len(want)-1, len(want), len(want)+1)
	}
	for _, k := range at {
		m := c.R.IntN(wmModes)
		for j := 0; j < 2; j++ {
			if !faultAt(c, op.name, want, k, (m+j)%wmModes, chance(c.R, 30), pick(c.R, writerErrors), op.f) {
				return false
			}
		}
	}
	return true
}

func diffOps(r *rand.Rand, c *Case, from, to *Schema) []outputOp {
	a, b := plainSQL(from), plainSQL(to)
	s1, err1 := newParser(a).ParseString(a)
	s2, err2 := schemalex.New().ParseString(b)
	if err1 != nil || err2 != nil {
		return nil
	}
	ff, tf := c.file("from.sql", a), c.file("to.sql", b)
	return []outputOp{
		{"diff.Strings", func(w io.Writer) error { return diff.Strings(w, a, b) }},
		{"diff.Strings with transaction", func(w io.Writer) error { return diff.Strings(w, a, b, diff.WithTransaction(true)) }},
		{"diff.Statements", func(w io.Writer) error { return diff.Statements(w, s1, s2) }},
		{"diff.Statements with transaction", func(w io.Writer) error { return diff.Statements(w, s1, s2, diff.WithTransaction(true)) }},
		{"diff.Files", func(w io.Writer) error { return diff.Files(w, ff, tf, diff.WithTransaction(chance(r, 50))) }},
		{"diff.Sources", func(w io.Writer) error {
			return diff.Sources(w, schemalex.NewReaderSource(strings.NewReader(a)), schemalex.NewLocalFileSource(tf))
		}},
	}
}

func init() {
	register(&Check{
		ID: "C20", Level: "fault_enumeration",
		Rule: "a case is one kind of output (diff, format, lint, source copy) with a writer failing at each of its bytes; distinct by output; non-trivial because the fault is injected and the returned error and the bytes that arrived are judged",
		Assumptions: []string{
			"writers keep the contract of io.Writer: they return an error when they take less than they were given",
			"every byte is a fault point for outputs of up to 400 bytes (quick); longer ones are sampled",
		},
		Phases: []Phase{
			{Name: "diff", Quick: 300, Thorough: 20000, Run: func(c *Case) {
				from, to, _ := genPair(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3, Like: true})
				ops := diffOps(c.R, c, from, to)
				if len(ops) == 0 {
					return
				}
				op := ops[c.Index%len(ops)]
				if op.name == "diff.Files" {
					txn := chance(c.R, 50)
					ff, tf := c.file("from.sql", plainSQL(from)), c.file("to.sql", plainSQL(to))
					op.f = func(w io.Writer) error { return diff.Files(w, ff, tf, diff.WithTransaction(txn)) }
				}
				if op.f(io.Discard) != nil {
					return
				}
				everyFault(c, op, 400)
			}},
			{Name: "empty-diff", Quick: 20, Thorough: 200, Run: func(c *Case) {
				s := genValid(c.R, &GenCfg{Tables: 2, Cols: 4, Idx: 3})
				for _, op := range diffOps(c.R, c, s, s) {
					if op.name == "diff.Files" {
						continue
					}
					if !everyFault(c, op, 400) {
						return
					}
				}
			}},
			{Name: "format", Quick: 300, Thorough: 20000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 2, Cols: 5, Idx: 4, Like: true, Hostile: chance(c.R, 30)})
				var opts []format.Option
				if chance(c.R, 60) {
					opts = append(opts, format.WithIndent(pick(c.R, []string{" ", "\t"}), 1+c.R.IntN(4)))
				}
				stmts, err := newParser(plainSQL(s)).ParseString(plainSQL(s))
				if err != nil {
					c.Fail("rejected", "%v", err)
					return
				}
				if c.Index%3 == 0 {
					everyFault(c, outputOp{"format.SQL of statements", func(w io.Writer) error { return format.SQL(w, stmts, opts...) }}, 600)
					return
				}
				for _, st := range stmts {
					t := st.(model.Table)
					ops := []outputOp{{"format.SQL of a table", func(w io.Writer) error { return format.SQL(w, t, opts...) }}}
					for x := range t.Columns() {
						ops = append(ops, outputOp{"format.SQL of a column", func(w io.Writer) error { return format.SQL(w, x, opts...) }})
					}
					for x := range t.Indexes() {
						ops = append(ops, outputOp{"format.SQL of an index", func(w io.Writer) error { return format.SQL(w, x, opts...) }})
						if r := x.Reference(); r != nil {
							ops = append(ops, outputOp{"format.SQL of a reference", func(w io.Writer) error { return format.SQL(w, r, opts...) }})
						}
					}
					for x := range t.Options() {
						ops = append(ops, outputOp{"format.SQL of an option", func(w io.Writer) error { return format.SQL(w, x, opts...) }})
					}
					for i, op := range ops {
						if i > 0 && !chance(c.R, 50) {
							continue
						}
						if !everyFault(c, op, 300) {
							return
						}
					}
				}
			}},
			{Name: "big", Quick: len(bigPairGrid), Thorough: 20 * len(bigPairGrid), Run: func(c *Case) {
				g := bigPairGrid[c.Index%len(bigPairGrid)]
				s := bigSchema(c.R, g)
				text := plainSQL(s)
				stmts, err := schemalex.New().ParseString(text)
				if err != nil {
					c.Fail("rejected", "%v", err)
					return
				}
				c.Feature("big: " + g.String())
				for _, op := range []outputOp{
					{"format.SQL of statements", func(w io.Writer) error { return format.SQL(w, stmts) }},
					{"format.SQL of a table", func(w io.Writer) error { return format.SQL(w, stmts[0]) }},
					{"Linter.Run", func(w io.Writer) error {
						return lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), w)
					}},
					{"diff.Strings from nothing", func(w io.Writer) error { return diff.Strings(w, "", text) }},
					{"diff.Strings to nothing", func(w io.Writer) error { return diff.Strings(w, text, "", diff.WithTransaction(true)) }},
				} {
					if !everyFault(c, op, 3) {
						return
					}
				}
			}},
			{Name: "sink", Quick: 5, Thorough: 5, Run: func(c *Case) {
				// every construct of the dialect, cut at every byte
				text := plainSQL(sinkSchema())
				stmts, err := schemalex.New().ParseString(text)
				if err != nil {
					c.Fail("rejected", "%v", err)
					return
				}
				ops := []outputOp{
					{"format.SQL of statements", func(w io.Writer) error { return format.SQL(w, stmts) }},
					{"format.SQL of statements, indented", func(w io.Writer) error { return format.SQL(w, stmts, format.WithIndent(" ", 2)) }},
					{"Linter.Run", func(w io.Writer) error {
						return lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), w, lint.WithIndent("\t", 1))
					}},
					{"diff.Strings from nothing", func(w io.Writer) error { return diff.Strings(w, "", text) }},
					{"diff.Strings to nothing", func(w io.Writer) error { return diff.Strings(w, text, "", diff.WithTransaction(true)) }},
				}
				everyFault(c, ops[c.Index], 1<<20)
			}},
			{Name: "objects", Quick: 12, Thorough: 12, Run: func(c *Case) {
				ops := []outputOp{
					{"format.SQL of a database", func(w io.Writer) error { return format.SQL(w, model.NewDatabase("d`b")) }},
					{"format.SQL of a database, if not exists", func(w io.Writer) error {
						return format.SQL(w, model.NewDatabase("db").SetIfNotExists(true))
					}},
					{"format.SQL of a column type", func(w io.Writer) error { return format.SQL(w, model.ColumnType(1+c.Index%20)) }},
				}
				for _, op := range ops {
					if op.f(io.Discard) != nil {
						continue
					}
					if !everyFault(c, op, 1000) {
						return
					}
				}
			}},
			{Name: "lint", Quick: 160, Thorough: 10000, Run: func(c *Case) {
				s := genSchema(c.R, &GenCfg{Tables: 3, Cols: 4, Idx: 3, Like: true})
				text := render(s, wildStyle(c.R)).Text
				if chance(c.R, 20) {
					text = "CREATE DATABASE a;\n" + text
				}
				var opts []lint.Option
				if chance(c.R, 60) {
					opts = append(opts, lint.WithIndent(" ", 1+c.R.IntN(3)))
				}
				everyFault(c, outputOp{"Linter.Run", func(w io.Writer) error {
					return lint.New().Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), w, opts...)
				}}, 500)
			}},
			{Name: "sources", Quick: 200, Thorough: 5000, Run: func(c *Case) {
				n := c.R.IntN(300)
				if chance(c.R, 15) {
					n = 60000 + c.R.IntN(60000) // more than one buffer of io.Copy
				}
				b := make([]byte, n)
				for i := range b {
					b[i] = byte(c.R.IntN(256))
				}
				f := c.file("src.bin", string(b))
				for _, op := range []outputOp{
					{"reader source", func(w io.Writer) error {
						return schemalex.NewReaderSource(struct{ io.Reader }{bytes.NewReader(b)}).WriteSchema(w)
					}},
					{"reader source with WriteTo", func(w io.Writer) error {
						return schemalex.NewReaderSource(bytes.NewReader(b)).WriteSchema(w)
					}},
					{"file source", func(w io.Writer) error { return schemalex.NewLocalFileSource(f).WriteSchema(w) }},
				} {
					max := 200
					if n > 1000 {
						max = 20
					}
					if !everyFault(c, op, max) {
						return
					}
				}
			}},
			{Name: "git-source", Quick: 8, Thorough: 60, Run: func(c *Case) {
				dir := c.W.Scratch + "/repo"
				if _, err := os.Stat(dir); err != nil {
					gitRun(c, c.W.Scratch, "init", "-q", dir)
				}
				text := plainSQL(genSchema(c.R, &GenCfg{Tables: 1, Cols: 1}))
				c.file("repo/s.sql", text)
				gitRun(c, dir, "add", "s.sql")
				gitRun(c, dir, "commit", "-q", "--allow-empty", "-m", "x")
				everyFault(c, outputOp{"git source", func(w io.Writer) error { return schemalex.NewLocalGitSource(dir, "s.sql", "HEAD").WriteSchema(w) }}, 30)
			}},
		},
	})
}

// gitRun runs git inside a scratch directory.
func gitRun(c *Case, dir string, args ...string) string {
	cmd := exec.Command("git", append([]string{"-c", "user.name=v", "-c", "user.email=v@example.com", "-c", "init.defaultBranch=main", "-c", "core.autocrlf=false", "-c", "commit.gpgsign=false"}, args...)...)
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.Error("git %v: %v\n%s", args, err, out)
	}
	return string(out)
}
