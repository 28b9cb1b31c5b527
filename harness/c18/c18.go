// Package c18: write failures are never swallowed.
package c18

import (
	"bytes"
	"context"
	"io"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

// check runs f with an output that accepts everything and with one that refuses at some point.
func check(f func(w io.Writer) error) {
	all := &hlib.Writer{Limit: -1}
	if err := f(all); err != nil {
		vsym.Assert(false, "an error although the output accepts everything: "+err.Error())
	}
	if len(all.Got) == 0 {
		vsym.Reach("nothing to write")
		return
	}
	refuse(f, all, &hlib.Writer{Limit: vsym.Pick("limit", len(all.Got)+1), Once: vsym.Pick("once", 2) == 1})
}

func refuse(f func(w io.Writer) error, all, w *hlib.Writer) {
	err := f(w)
	if w.Limit < len(all.Got) {
		vsym.Assert(w.Refused > 0, "the output is complete without having been accepted")
		vsym.Assert(err != nil, "the output refuses a write, but no error")
		vsym.Reach("refused")
		return
	}
	if err != nil {
		vsym.Assert(false, "an error although the output accepts everything: "+err.Error())
	}
	vsym.Assert(bytes.Equal(w.Got, all.Got), "another output")
	vsym.Reach("accepted")
}

// H1Format: everything the formatter prints.
func H1Format() {
	t := hlib.Build(hlib.FullTable("t"))
	var v interface{}
	switch vsym.Pick("object", 10) {
	case 0:
		v = t
	case 1:
		v = model.NewDatabase("d")
	case 2:
		v = model.ColumnTypeTinyInt
	case 3:
		for c := range t.Columns() {
			if v == nil || vsym.Pick("next", 2) == 1 {
				v = c
			}
		}
	case 4:
		for x := range t.Indexes() {
			if v == nil || vsym.Pick("next", 2) == 1 {
				v = x
			}
		}
	case 5:
		for x := range t.Indexes() {
			if x.Reference() != nil {
				v = x.Reference()
			}
		}
	case 6:
		v = <-t.Options()
	case 7:
		v = model.Stmts{model.NewDatabase("d"), hlib.Build(hlib.Table{Name: "u", HasLike: true, Like: "t"}), model.NewDatabase("e")}
	case 8:
		v = hlib.Build(hlib.Table{Name: "u", Cols: []hlib.Col{hlib.ColID("a")}})
	case 9:
		d := model.NewDatabase("d")
		d.SetIfNotExists(true)
		v = d
	}
	var opts []format.Option
	if vsym.Pick("indent", 2) == 1 {
		opts = append(opts, format.WithIndent(" ", 2))
	}
	check(func(w io.Writer) error { return format.SQL(w, v, opts...) })
}

// H2Lint: linting scripts of several statements.
func H2Lint() {
	src := []string{"", ";", "CREATE TABLE t (a INT)", "CREATE TABLE t (a INT); CREATE TABLE u LIKE t; create table v (b text, key (b(2)))"}[vsym.Pick("script", 4)]
	var opts []lint.Option
	if vsym.Pick("indent", 2) == 1 {
		opts = append(opts, lint.WithIndent("\t", 1))
	}
	check(func(w io.Writer) error {
		return lint.New().Run(context.Background(), &hlib.Source{S: src}, w, opts...)
	})
}

// H3Diff: comparisons that drop, create and alter.
func H3Diff() {
	vs := []string{"", "CREATE TABLE t (a INT)", "CREATE TABLE t (a INT, b INT); CREATE TABLE u LIKE t", "CREATE TABLE v (a INT, KEY k (a))"}
	a, b := vs[vsym.Pick("from", 4)], vs[vsym.Pick("to", 4)]
	var opts []diff.Option
	if vsym.Pick("transaction", 2) == 1 {
		opts = append(opts, diff.WithTransaction(true))
	}
	switch vsym.Pick("call", 3) {
	case 0:
		check(func(w io.Writer) error { return diff.Strings(w, a, b, opts...) })
	case 1:
		check(func(w io.Writer) error {
			return diff.Sources(w, &hlib.Source{S: a}, &hlib.Source{S: b}, opts...)
		})
	case 2:
		p := schemalex.New()
		x, err1 := p.ParseString(a)
		y, err2 := p.ParseString(b)
		vsym.Assert(err1 == nil && err2 == nil, "refused")
		check(func(w io.Writer) error { return diff.Statements(w, x, y, opts...) })
	}
}

// H4Unprintable: what cannot be printed is an error, wherever it is, whatever the output accepts.
func H4Unprintable() {
	c := hlib.Col{Name: "c"}
	x := hlib.Idx{Kind: model.IndexKindNormal}
	var v interface{}
	switch vsym.Pick("object", 9) {
	case 0:
		v = hlib.BuildCol(c)
	case 1:
		c.Type = model.ColumnTypeEnum
		v = hlib.Build(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), c}})
	case 2:
		c.Type = model.ColumnTypeSet
		v = model.Stmts{hlib.Build(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("a")}}), model.NewDatabase("d")}
	case 3:
		v = hlib.BuildIdx(x, "t")
	case 4:
		v = hlib.Build(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a")}, Idxs: []hlib.Idx{x, {Kind: model.IndexKindNormal, Cols: hlib.On("a")}}})
	case 5:
		v = model.ColumnTypeInvalid
	case 6:
		v = model.ColumnTypeMax
	case 7:
		v = "a string"
	case 8:
		v = nil
	}
	w := &hlib.Writer{Limit: 20 * vsym.Pick("limit", 3)}
	vsym.Assert(format.SQL(w, v) != nil, "what cannot be printed is no error")
	vsym.Reach("refused")
}

// H5LintFailures: a linter whose source fails or cannot be parsed reports an error and writes nothing.
func H5LintFailures() {
	s := &hlib.Source{}
	switch vsym.Pick("failure", 5) {
	case 4:
		l := hlib.Failures()
		s.S, s.Fails, s.Err = "CREATE TABLE t (a INT);", true, l[vsym.Pick("error", len(l))]
	case 0:
		s.Fails = true
	case 1:
		s.S, s.Fails = "CREATE TABLE t (a INT);", true
	case 2:
		s.S = "CREATE TABLE t (a INT); CREATE TABLE"
	case 3:
		s.S = "CREATE TABLE t (a INT); CREATE TABLE u (`a"
	}
	w := &hlib.Writer{Limit: -1}
	err := lint.New().Run(context.Background(), s, w)
	vsym.Assert(err != nil, "the linter reports no error")
	vsym.Assert(len(w.Got) == 0, "the linter writes although it fails")
	vsym.Reach("refused")
}

// H6Errors: outputs that refuse with errors of all sorts.
func H6Errors() {
	l := hlib.Failures()
	e := l[vsym.Pick("error", len(l))]
	const a, b = "CREATE TABLE t (a INT)", "CREATE TABLE t (b INT); CREATE TABLE u LIKE t"
	var f func(w io.Writer) error
	switch vsym.Pick("what", 4) {
	case 0:
		t := hlib.Build(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Opts: []hlib.Opt{{Key: "ENGINE", Val: "x"}}})
		f = func(w io.Writer) error { return format.SQL(w, t) }
	case 1:
		f = func(w io.Writer) error { return lint.New().Run(context.Background(), &hlib.Source{S: b}, w) }
	case 2:
		f = func(w io.Writer) error { return diff.Strings(w, a, b, diff.WithTransaction(true)) }
	case 3:
		f = func(w io.Writer) error { return diff.Sources(w, &hlib.Source{S: a}, &hlib.Source{S: b}) }
	}
	all := &hlib.Writer{Limit: -1}
	vsym.Assert(f(all) == nil, "an error although the output accepts everything")
	refuse(f, all, &hlib.Writer{Limit: vsym.Pick("limit", 4) * len(all.Got) / 4, Once: vsym.Pick("once", 2) == 1, Err: e})
}

// H7Large: outputs that refuse at some place of something large.
func H7Large() {
	t := hlib.LargeTable("t")
	src := hlib.SQL(t)
	var f func(w io.Writer) error
	switch vsym.Pick("call", 3) {
	case 0:
		x := hlib.Build(t)
		f = func(w io.Writer) error { return format.SQL(w, x) }
	case 1:
		f = func(w io.Writer) error {
			return lint.New().Run(context.Background(), &hlib.Source{S: src}, w)
		}
	case 2:
		f = func(w io.Writer) error { return diff.Strings(w, "", src) }
	}
	all := &hlib.Writer{Limit: -1}
	vsym.Assert(f(all) == nil, "an error although the output accepts everything")
	n := len(all.Got)
	refuse(f, all, &hlib.Writer{Limit: []int{0, n / 2, n - 1}[vsym.Pick("limit", 3)], Once: vsym.Pick("once", 2) == 1})
}
