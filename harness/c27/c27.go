// Package c27: every way of asking for the same thing gives the same result.
package c27

import (
	"bytes"
	"context"
	"strings"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

func agree(a, b model.Stmts, ea, eb error, file string) {
	vsym.Assert((ea == nil) == (eb == nil), "one way of parsing fails, another does not")
	if ea != nil {
		vsym.Assert(len(a) == 0 && len(b) == 0, "statements along with an error")
		p, ok1 := ea.(schemalex.ParseError)
		q, ok2 := eb.(schemalex.ParseError)
		vsym.Assert(ok1 && ok2, "an error is not a parse error")
		vsym.Assert(vsym.StrEq(p.Message(), q.Message()) && p.Line() == q.Line() && p.Col() == q.Col() && p.EOF() == q.EOF(), "two ways of parsing report different errors")
		vsym.Assert(p.File() == "" && q.File() == file, "a parse error has the wrong file name")
		if file == "" {
			vsym.Assert(vsym.StrEq(ea.Error(), eb.Error()), "two ways of parsing report different errors")
		}
		vsym.Reach("error")
		return
	}
	hlib.SameTables(hlib.ReadTables(a), hlib.ReadTables(b), "parsed in another way")
	vsym.Reach("parsed")
}

func parse(src string) {
	vfs.Reset()
	vfs.Add("f.sql", src)
	p := schemalex.New()
	a, ea := p.ParseString(src)
	b, eb := p.Parse([]byte(src))
	agree(a, b, ea, eb, "")
	c, ec := p.ParseFile("f.sql")
	agree(a, c, ea, ec, "f.sql")
}

// H1Parse: bytes, strings and files with any byte at any place.
func H1Parse() {
	src := "CREATE TABLE `t` (a INT DEFAULT 'x' /* c */,\nKEY k (a) -- d\n) COMMENT = 'y'; DROP TABLE q;\r\nCREATE TABLE u LIKE t"
	at := vsym.Pick("at", len(src)+1)
	x := vsym.Str("x", 1)
	if vsym.Pick("instead", 2) == 1 && at < len(src) {
		parse(src[:at] + x + src[at+1:])
		return
	}
	parse(src[:at] + x + src[at:])
}

// H2Empty: what is hardly there.
func H2Empty() {
	parse(vsym.Str("x", vsym.Pick("len", 3)))
}

// sides are two schemas whose comparison leaves no choice of order: at most one thing of a sort.
func sides(v string) (from, to []hlib.Table) {
	sorts := []string{"drop column", "add column", "change column", "drop index", "add index", "drop table", "create table"}
	one := -1
	if !vsym.Thorough() {
		one = vsym.Pick("difference", len(sorts)+2) // any one, or all, or none
	}
	differ := func(k int) bool {
		if one < 0 {
			return vsym.Pick(sorts[k], 2) == 1
		}
		return one == k || one == len(sorts)
	}
	a := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	b := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	if differ(0) {
		a.Cols = append(a.Cols, hlib.ColID("c"+v))
	}
	if differ(1) {
		b.Cols = append(b.Cols, hlib.ColID("d"))
	}
	if differ(2) {
		b.Cols[1].HasCmt, b.Cols[1].Cmt = true, v
	}
	if differ(3) {
		a.Idxs = append(a.Idxs, hlib.Idx{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: hlib.On("a")})
	}
	if differ(4) {
		b.Idxs = append(b.Idxs, hlib.Idx{Kind: model.IndexKindPrimaryKey, Cols: hlib.On("b")})
	}
	from, to = []hlib.Table{a}, []hlib.Table{b}
	if differ(5) {
		from = append(from, hlib.Table{Name: "x" + v, Cols: a.Cols})
	}
	if differ(6) {
		to = append([]hlib.Table{{Name: "n", Cols: a.Cols}}, to...)
	}
	return from, to
}

// H6Texts: texts, line ends, byte order marks and other things at both ends.
func H6Texts() {
	x := vsym.Str("x", 2)
	vsym.Assume(x[0] < 0x80 && x[1] < 0x80)
	src := []string{"", "\xef\xbb\xbf", "\xff\xfe", "#!", "\r\n", "\\", "--", "/*!1 "}[vsym.Pick("before", 8)]
	switch vsym.Pick("at", 3) {
	case 0:
		src += "CREATE TABLE t (a TEXT COMMENT '" + x + "')"
	case 1:
		src += "CREATE TABLE `" + x + "` (a INT)"
	case 2:
		src += "CREATE TABLE t (a INT" + x + ")"
	}
	src += []string{"", ";", "\x1a", "\x00", "\r\n\r\n", "--", "/*"}[vsym.Pick("behind", 7)]
	parse(src)
}

// H3Diff: statements, strings, files and sources of all sorts, options in any order.
func H3Diff() {
	v := vsym.Str("v", 1)
	from, to := sides(v)
	src, dst := hlib.SQL(from...), hlib.SQL(to...)
	if bad := vsym.Pick("bad", 4); bad&1 != 0 {
		src += " x"
		if bad == 3 {
			dst = "CREATE TABLE t"
		}
	} else if bad == 2 {
		dst += "'"
	}
	txn := vsym.Pick("transaction", 2) == 1
	var opts []diff.Option
	switch vsym.Pick("options", 5) {
	case 4:
		opts = append(opts, diff.WithTransaction(!txn), diff.WithTransaction(txn))
	case 0:
		if txn {
			opts = append(opts, diff.WithTransaction(true))
		}
	case 1:
		opts = append(opts, diff.WithTransaction(txn))
	case 2:
		opts = append(opts, diff.WithTransaction(txn), diff.WithParser(schemalex.New()))
	case 3:
		opts = append(opts, diff.WithParser(schemalex.New()), diff.WithTransaction(txn))
	}
	vfs.Reset()
	vfs.Add("a.sql", src)
	vfs.Add("b.sql", dst)
	vfs.Add("/b.sql", dst)
	var want bytes.Buffer
	p := schemalex.New()
	a, err1 := p.ParseString(src)
	b, err2 := p.ParseString(dst)
	bad := err1 != nil || err2 != nil
	if !bad {
		if err := diff.Statements(&want, a, b, opts...); err != nil {
			vsym.Assert(false, "cannot compare statements: "+err.Error())
		}
	}
	ways := 5
	var got bytes.Buffer
	var err error
	switch vsym.Pick("way", ways) {
	case 0:
		err = diff.Strings(&got, src, dst, opts...)
	case 1:
		err = diff.Files(&got, "a.sql", "b.sql", opts...)
	case 2:
		err = diff.Sources(&got, schemalex.NewLocalFileSource("a.sql"), schemalex.NewReaderSource(strings.NewReader(dst)), opts...)
	case 3:
		err = diff.Sources(&got, &hlib.Source{S: src}, &hlib.Source{S: dst}, opts...)
	case 4:
		s, e1 := schemalex.NewSchemaSource("a.sql")
		d, e2 := schemalex.NewSchemaSource("file:///b.sql")
		vsym.Assert(e1 == nil && e2 == nil, "a file is refused")
		err = diff.Sources(&got, s, d, opts...)
	}
	vsym.Assert((err != nil) == bad, "one way of comparing fails, another does not")
	vsym.Assert(vsym.StrEq(got.String(), want.String()), "two ways of comparing give different migrations")
	if bad {
		vsym.Reach("error")
		return
	}
	vsym.Reach("compared")
}

func text(v interface{}, opts ...format.Option) string {
	var buf bytes.Buffer
	if err := format.SQL(&buf, v, opts...); err != nil {
		vsym.Assert(false, "cannot be printed: "+err.Error())
	}
	return buf.String()
}

// H4Parts: what is printed for a part alone means what it means within the whole.
func H4Parts() {
	n := &hlib.Near{Left: 1, Wide: true, Opts: true}
	if vsym.Thorough() {
		n.Left = 2
	}
	want := n.Table("t")
	l, err := schemalex.New().ParseString(hlib.SQL(want))
	vsym.Assert(err == nil && len(l) == 1, "refused")
	t, ok := l[0].(model.Table)
	vsym.Assert(ok, "not a table")
	norm := hlib.NormTable(want)
	var opts []format.Option
	if vsym.Pick("indent", 2) == 1 {
		opts = append(opts, format.WithIndent(" ", 2))
	}
	i := 0
	for c := range t.Columns() {
		one := hlib.ReadCreates("CREATE TABLE `x` ("+text(c, opts...)+");", "a column")
		vsym.Assert(len(one) == 1 && len(one[0].Cols) == 1, "a column alone is something else")
		hlib.SameCol(one[0].Cols[0], norm.Cols[i], "a column alone")
		vsym.Assert(vsym.StrEq(text(c.Type()), hlib.NameOfType(norm.Cols[i].Type)), "a column type alone is something else")
		i++
	}
	i = 0
	for x := range t.Indexes() {
		one := hlib.ReadCreates("CREATE TABLE `x` ("+text(x, opts...)+");", "an index")
		vsym.Assert(len(one) == 1 && len(one[0].Idxs) == 1, "an index alone is something else")
		hlib.SameIdx(one[0].Idxs[0], norm.Idxs[i], "an index alone")
		if r := x.Reference(); r != nil {
			for _, s := range []string{text(r, opts...), r.String()} {
				one := hlib.ReadCreates("CREATE TABLE `x` (CONSTRAINT `f` FOREIGN KEY (`c`) "+s+");", "a reference")
				vsym.Assert(len(one) == 1 && len(one[0].Idxs) == 1, "a reference alone is something else")
				y := norm.Idxs[i]
				y.HasSym, y.Sym, y.HasName, y.Name, y.Type, y.Cols = true, "f", false, "", 0, hlib.On("c")
				hlib.SameIdx(one[0].Idxs[0], y, "a reference alone")
			}
		}
		i++
	}
	i = 0
	for o := range t.Options() {
		one := hlib.ReadCreates("CREATE TABLE `x` (`a` INT) "+text(o, opts...)+";", "an option")
		vsym.Assert(len(one) == 1 && len(one[0].Opts) == 1, "an option alone is something else")
		got := one[0].Opts[0]
		vsym.Assert(got.Key == norm.Opts[i].Key && vsym.StrEq(got.Val, norm.Opts[i].Val) && got.Quoted == norm.Opts[i].Quoted, "an option alone is another one")
		i++
	}
	vsym.Reach("printed")
}

// H5Whole: printing a list is printing its statements one by one, and linting is that with terminators;
// options given to the linter when it is made are options of every run.
func H5Whole() {
	v := vsym.Str("v", 1)
	var l []hlib.Table
	for i := 0; i < 3; i++ {
		name := []string{"t", v, "u"}[i]
		sorts := 3
		if i == 0 || vsym.Thorough() {
			sorts = 4
		}
		switch vsym.Pick("table", sorts) {
		case 0:
			continue
		case 3:
			l = append(l, hlib.FullTable(name))
		case 2:
			l = append(l, hlib.Table{Name: name, HasLike: true, Like: v})
		case 1:
			l = append(l, hlib.Table{Name: name, Temp: true, Cols: []hlib.Col{{Name: v, Type: model.ColumnTypeInt, Primary: true}}})
		}
	}
	src := hlib.SQL(l...)
	stmts, err := schemalex.New().ParseString(src)
	vsym.Assert(err == nil && len(stmts) == len(l), "refused")
	by, n := "", 0
	var fo []format.Option
	var lo []lint.Option
	switch vsym.Pick("indent", 3) {
	case 1:
		by, n = vsym.Str("by", 1), 1+vsym.Pick("n", 2)
		fo, lo = append(fo, format.WithIndent(by, n)), append(lo, lint.WithIndent(by, n))
	case 2:
		by, n = "\t ", 3
		fo, lo = append(fo, format.WithIndent(by, n)), append(lo, lint.WithIndent(by, n))
	}
	one, linted := "", ""
	for i, s := range stmts {
		out := text(s, fo...)
		one += out
		if i > 0 {
			linted += "\n\n"
		}
		linted += out + ";"
	}
	vsym.Assert(vsym.StrEq(text(stmts, fo...), one), "a list is printed as something else than its statements")
	var buf bytes.Buffer
	var src2 schemalex.SchemaSource = &hlib.Source{S: src}
	if vsym.Pick("source", 2) == 1 {
		src2 = schemalex.NewReaderSource(strings.NewReader(src))
	}
	switch vsym.Pick("options", 2) {
	case 0:
		err = lint.New().Run(context.Background(), src2, &buf, lo...)
	case 1:
		linter := lint.New(lo...)
		if vsym.Pick("again", 2) == 1 {
			linter.Run(context.Background(), &hlib.Source{S: src}, &bytes.Buffer{})
		}
		err = linter.Run(context.Background(), src2, &buf)
	}
	vsym.Assert(err == nil, "the linter refuses")
	vsym.Assert(vsym.StrEq(buf.String(), linted), "linting prints something else than its statements")
	vsym.Reach("linted")
}

// H7Large: scripts that are large in any one way, whole or cut.
func H7Large() {
	src := hlib.SQL(hlib.LargeTable("t"))
	if vsym.Pick("cut", 2) == 1 {
		src = src[:len(src)-1-vsym.Pick("by", 8)]
	}
	parse(src)
}
