// Package c17: a failed comparison or parse reports an error and writes nothing.
package c17

import (
	"bytes"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

func options() []diff.Option {
	switch vsym.Pick("options", 3) {
	case 1:
		return []diff.Option{diff.WithTransaction(true)}
	case 2:
		return []diff.Option{diff.WithTransaction(false), diff.WithParser(schemalex.New())}
	}
	return nil
}

// refused asserts an error and no output.
func refused(err error, w *hlib.Writer, what string) {
	vsym.Assert(err != nil, what+": no error")
	vsym.Assert(len(w.Got) == 0 && w.Writes == 0, what+": output")
	vsym.Reach("refused")
}

func parses(src string) bool {
	_, err := schemalex.New().ParseString(src)
	return err == nil
}

const good = "CREATE TABLE t (a INT, b INT);\nCREATE TABLE u (a INT);"
const other = "CREATE TABLE t (a INT, KEY (a));"

// scripts are what a source may deliver; most of them cannot be read.
var scripts = []string{
	good, other, "", " \n-- nothing\n;",
	"CREATE TABLE t (a INT, b INT", "CREATE TABLE t (a INT));", "CREATE TABLE t (a);", "CREATE TABLE t (a INT) ENGINE",
	"CREATE TABLE t (a INT, KEY);", "CREATE TABLE t (a INT, 'x' INT);", "x", "CREATE TABLE t (a INT COMMENT 'x", "DROP TABLE `t",
	"CREATE TABLE t LIKE", "CREATE TABLE t LIKE u;", "CREATE DATABASE", "CREATE TABLE t (a INT) \x00",
}

// H1Sources: every two scripts, from sources that fail before, during or after delivering them, or do not fail.
func H1Sources() {
	var src [2]*hlib.Source
	bad := false
	for i := range src {
		s := scripts[vsym.Pick("script", len(scripts))]
		src[i] = &hlib.Source{S: s}
		if vsym.Pick("fails", 2) == 1 {
			src[i].Fails = true
			src[i].S = s[:vsym.Pick("delivered", 3)*len(s)/2]
		}
		bad = bad || src[i].Fails || !parses(src[i].S)
	}
	w := &hlib.Writer{Limit: -1}
	opts := options()
	err := diff.Sources(w, src[0], src[1], opts...)
	if bad {
		refused(err, w, "a side cannot be read")
		return
	}
	var buf bytes.Buffer
	err2 := diff.Strings(&buf, src[0].S, src[1].S, opts...)
	vsym.Assert((err == nil) == (err2 == nil), "comparing sources and comparing what they deliver differ")
	if err != nil {
		refused(err, w, "not comparable")
		return
	}
	vsym.Assert(len(w.Got) == buf.Len(), "comparing sources and comparing what they deliver differ")
	vsym.Reach("compared")
}

// H2Scripts: scripts cut anywhere, or with any byte anywhere, on either side.
func H2Scripts() {
	s := "CREATE TABLE t (a INT(3) DEFAULT 'x', PRIMARY KEY (`a`)) ENGINE=e;"
	at := vsym.Pick("at", len(s)+1)
	switch vsym.Pick("what", 2) {
	case 0:
		s = s[:at]
	case 1:
		s = s[:at] + string([]byte{vsym.Byte("byte")}) + s[at:]
	}
	ok := parses(s)
	w := &hlib.Writer{Limit: -1}
	var err error
	if vsym.Pick("side", 2) == 0 {
		err = diff.Strings(w, s, good)
	} else {
		err = diff.Strings(w, good, s)
	}
	if !ok {
		refused(err, w, "a side cannot be parsed")
	} else if err != nil {
		refused(err, w, "not comparable")
	} else {
		vsym.Reach("compared")
	}
}

// broken makes a table that cannot be printed.
func broken(name string, n int) hlib.Table {
	t := hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	switch n {
	case 0:
		t.Cols[1].Type = model.ColumnTypeInvalid
	case 1:
		t.Cols[1].Type = model.ColumnTypeMax
	case 2:
		t.Cols[1].Type, t.Cols[1].HasLen, t.Cols[1].Len = model.ColumnTypeEnum, false, ""
	case 3:
		t.Cols[1].Type = model.ColumnTypeSet
	case 4:
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindNormal, HasName: true, Name: "k"}}
	case 5:
		t.Cols[0].Type = model.ColumnTypeInvalid
	case 6:
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, HasName: true, Name: "k", Ref: &hlib.Ref{Table: "o"}}}
	}
	return t
}

// H3Unprintable: schemas that need something created, added or changed that cannot be printed, with
// other changes before and after it.
func H3Unprintable() {
	vsym.MapOrder(true)
	n := vsym.Pick("broken", 7)
	bad := broken("t", n)
	was := bad
	was.Cols = append([]hlib.Col{}, bad.Cols...)
	was.Idxs = nil
	var from, to []hlib.Table
	to = append(to, bad)
	switch vsym.Pick("how", 4) {
	case 0: // created
	case 1: // changed, or the index added
		for i := range was.Cols {
			was.Cols[i] = hlib.ColID(was.Cols[i].Name)
		}
		from = append(from, was)
	case 2: // a column added
		vsym.Assume(n != 4 && n != 6)
		was.Cols = []hlib.Col{hlib.ColID("z")}
		bad.Cols = append([]hlib.Col{hlib.ColID("z")}, bad.Cols...)
		to[0] = bad
		from = append(from, was)
	case 3: // a column added in front
		vsym.Assume(n == 5)
		was.Cols = []hlib.Col{hlib.ColID("b")}
		from = append(from, was)
	}
	for _, name := range []string{"y", "z"} {
		switch vsym.Pick("neighbour", 4) {
		case 1:
			from = append(from, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
		case 2:
			to = append(to, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
		case 3:
			from = append(from, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
			to = append(to, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("b")}})
		}
	}
	w := &hlib.Writer{Limit: -1}
	err := diff.Statements(w, hlib.BuildAll(from), hlib.BuildAll(to), options()...)
	refused(err, w, "the new schema cannot be printed")
}

// H4Impossible: migrations that cannot be expressed, with other changes before and after.
func H4Impossible() {
	vsym.MapOrder(true)
	from := []hlib.Table{{Name: "t", Cols: []hlib.Col{hlib.ColID("a")}}}
	to := []hlib.Table{{Name: "t", Cols: []hlib.Col{hlib.ColID("a")}}}
	switch vsym.Pick("impossible", 5) {
	case 0: // an index without a name is dropped
		from[0].Idxs = []hlib.Idx{{Kind: model.IndexKindNormal, Cols: hlib.On("a")}}
	case 1: // a foreign key without a name is dropped
		from[0].Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("a")}}}
	case 2:
		from[0] = hlib.Table{Name: "t", HasLike: true, Like: "o"}
	case 3:
		to[0] = hlib.Table{Name: "t", HasLike: true, Like: "o"}
	case 4:
		from[0] = hlib.Table{Name: "t", HasLike: true, Like: "o"}
		to[0] = hlib.Table{Name: "t", HasLike: true, Like: "p"}
	}
	for _, name := range []string{"y", "z"} {
		switch vsym.Pick("neighbour", 4) {
		case 1:
			from = append(from, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
		case 2:
			to = append(to, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
		case 3:
			from = append(from, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a")}})
			to = append(to, hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("b")}})
		}
	}
	w := &hlib.Writer{Limit: -1}
	refused(diff.Strings(w, hlib.SQL(from...), hlib.SQL(to...), options()...), w, "the migration cannot be expressed")
}

// H5Files: files that are missing, cannot be opened, break or do not parse, on either side.
func H5Files() {
	vfs.Reset()
	var names [2]string
	bad := false
	for i := range names {
		names[i] = []string{"a.sql", "b.sql"}[i]
		switch vsym.Pick("file is", 8) {
		case 0:
			vfs.Add(names[i], good)
		case 1:
			vfs.Add(names[i], "CREATE TABLE t (a INT, KEY k (a));")
		case 2: // missing
			bad = true
		case 3:
			vfs.Add(names[i], good).NoOpen = true
			bad = true
		case 4: // breaks after something that parses, or after nothing
			vfs.Add(names[i], good[:vsym.Pick("delivered", 2)*len(good)]).Breaks = true
			bad = true
		case 5:
			vfs.Add(names[i], good[:40])
			bad = true
		case 6:
			vfs.Add(names[i], "")
		case 7:
			vfs.Add(names[i], "").Dir = true
			bad = true
		}
	}
	w := &hlib.Writer{Limit: -1}
	err := diff.Files(w, names[0], names[1], options()...)
	if bad {
		refused(err, w, "a file cannot be read")
		return
	}
	vsym.Assert(err == nil, "two good files cannot be compared")
	vsym.Reach("compared")
}

// H6Failures: sources that fail with errors of all sorts, before, during or after delivering a good script.
func H6Failures() {
	l := hlib.Failures()
	e := l[vsym.Pick("error", len(l))]
	s := []string{good, other, ""}[vsym.Pick("script", 3)]
	bad := &hlib.Source{S: s[:vsym.Pick("delivered", 3)*len(s)/2], Fails: true, Err: e}
	fine := &hlib.Source{S: []string{good, ""}[vsym.Pick("other", 2)]}
	w := &hlib.Writer{Limit: -1}
	var err error
	if vsym.Pick("side", 2) == 0 {
		err = diff.Sources(w, bad, fine, options()...)
	} else {
		err = diff.Sources(w, fine, bad, options()...)
	}
	refused(err, w, "a source fails")
}

// H7Large: a side that is large, and cannot be read or parsed because of what is at its end or in its middle.
func H7Large() {
	side := [2]*hlib.Source{{S: other}, {S: good}}
	if vsym.Pick("many", 2) == 1 {
		for i := hlib.Amount(); i > 0; i-- {
			side[0].S += "CREATE TABLE v" + hlib.Itoa(i) + " (a INT);"
		}
	} else {
		side[0].S = hlib.SQL(hlib.LargeTable("t")) + ";"
	}
	x := side[vsym.Pick("side", 2)]
	switch vsym.Pick("bad", 4) {
	case 0:
		x.Fails = true
	case 1:
		x.S = x.S[:len(x.S)-2]
	case 2:
		x.S += "CREATE"
	case 3:
		x.S = "'" + x.S + "CREATE TABLE x"
	}
	var opts []diff.Option
	if vsym.Pick("swap", 2) == 1 {
		side[0], side[1] = side[1], side[0]
		opts = append(opts, diff.WithTransaction(true))
	}
	vsym.Assume(x.Fails || !parses(x.S))
	w := &hlib.Writer{Limit: -1}
	refused(diff.Sources(w, side[0], side[1], opts...), w, "a large side cannot be read")
}
