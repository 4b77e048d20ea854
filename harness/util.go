package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

var _ = io.Discard

// parseOK parses a text that must be accepted.
func parseOK(c *Case, text string) (model.Stmts, *Schema, bool) {
	stmts, err := newParser(text).ParseString(text)
	if err != nil {
		c.Fail("rejected", "a valid schema is rejected: %v\n--- input\n%s", err, text)
		return nil, nil, false
	}
	s, err := exStmts(stmts)
	if err != nil {
		c.Fail("model", "%v\n--- input\n%s", err, text)
		return nil, nil, false
	}
	return stmts, s, true
}

// formatEach formats every statement on its own.
func formatEach(l model.Stmts, opts ...format.Option) ([]string, error) {
	var out []string
	for _, st := range l {
		earlierFormats(st)
		var b bytes.Buffer
		if err := format.SQL(&b, st, opts...); err != nil {
			return nil, err
		}
		out = append(out, b.String())
	}
	return out, nil
}

func script(l []string) string {
	var b strings.Builder
	for _, s := range l {
		b.WriteString(s)
		b.WriteString(";\n")
	}
	return b.String()
}

func diffStrings(from, to string, opts ...diff.Option) (string, error) {
	earlierDiffs(from, to)
	var b bytes.Buffer
	err := diff.Strings(&b, from, to, opts...)
	return b.String(), err
}

func diffStmts(from, to model.Stmts, opts ...diff.Option) (string, error) {
	earlierDiffsOf(from, to)
	var b bytes.Buffer
	err := diff.Statements(&b, from, to, opts...)
	return b.String(), err
}

func lintText(text string, opts ...lint.Option) (string, error) {
	var b bytes.Buffer
	err := newLinter(text).Run(context.Background(), schemalex.NewReaderSource(strings.NewReader(text)), &b, opts...)
	return b.String(), err
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("got  %s\nwant %s", x, y)
		}
	}
	return "(equal)"
}

func countFeatures(c *Case, s *Schema) {
	features(s, c.Feature)
	n := 0
	for _, t := range s.Tables {
		n += len(t.Cols)
		c.Max("columns in a table", len(t.Cols))
		c.CountN("columns generated", len(t.Cols))
		c.CountN("indexes generated", len(t.Idx))
		c.CountN("options generated", len(t.Opts))
	}
	c.CountN("tables generated", len(s.Tables))
}

const (
	txnPrologue = "\nBEGIN;\n\nSET FOREIGN_KEY_CHECKS = 0;"
	txnEpilogue = "\n\nSET FOREIGN_KEY_CHECKS = 1;\n\nCOMMIT;"
)

func sortStrings(l []string) { sort.Strings(l) }
