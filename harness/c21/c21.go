// Package c21: linting rewrites layout only.
package c21

import (
	"bytes"
	"context"

	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/lint"
	"github.com/schemalex/schemalex/model"
)

func run(src string, opts ...lint.Option) string {
	var buf bytes.Buffer
	if err := lint.New().Run(context.Background(), &hlib.Source{S: src}, &buf, opts...); err != nil {
		vsym.Assert(false, "the linter refuses: "+src+": "+err.Error())
	}
	return buf.String()
}

// indented puts the indentation where it belongs: after every line end outside of quotes that is
// followed by a column or an index.
func indented(s, by string) string {
	var out []byte
	var quo byte
	depth := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		out = append(out, c)
		switch {
		case quo != 0:
			if c == '\\' && quo != '`' && i+1 < len(s) {
				i++
				out = append(out, s[i])
			} else if c == quo {
				quo = 0
			}
		case c == '`' || c == '\'' || c == '"':
			quo = c
		case c == '(':
			depth++
		case c == ')':
			depth--
		case c == '\n' && depth == 1 && i+1 < len(s) && s[i+1] != ')':
			out = append(out, by...)
		}
	}
	return string(out)
}

func check(src string, want []hlib.Table) {
	plain := run(src)
	vsym.Observe("out", plain)
	hlib.SameTables(hlib.ReadCreates(plain, "linted"), hlib.NormTables(want), "linted")
	vsym.Assert(vsym.StrEq(run(plain), plain), "linting the output gives another text")
	var by string
	var opt lint.Option
	switch vsym.Pick("indent", 5) {
	case 0:
		by, opt = " ", lint.WithIndent(" ", 1)
	case 1:
		by, opt = "\t\t", lint.WithIndent("\t", 2)
	case 2:
		by, opt = " \t \t \t", lint.WithIndent(" \t", 3)
	case 3:
		by, opt = "", lint.WithIndent("", 2)
	case 4:
		by, opt = "               ", lint.WithIndent("   ", 5)
	}
	out := run(src, opt)
	vsym.Assert(vsym.StrEq(out, indented(plain, by)), "the indentation changes something else than the start of lines, or is not what was asked for: "+out)
	vsym.Assert(vsym.StrEq(run(out, opt), out), "linting the output with the same indentation gives another text")
	vsym.Assert(vsym.StrEq(run(out), plain), "the indentation changes what is read back")
	vsym.Reach("linted")
}

func one(t hlib.Table) { check(hlib.SQL(t), []hlib.Table{t}) }

// H1Scripts: scripts of up to three statements of all sorts in every layout.
func H1Scripts() {
	s := &hlib.Script{}
	var want []hlib.Table
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	n := vsym.Pick("statements", max+1)
	for i := 0; i < n; i++ {
		var t hlib.Table
		switch vsym.Pick("statement", 7) {
		case 0:
			t = hlib.FullTable("f")
		case 1:
			t = hlib.Table{Name: "l", Temp: true, HasLike: true, Like: "f"}
		case 2:
			t = hlib.Table{Name: "p", Cols: []hlib.Col{{Name: "i", Type: model.ColumnTypeInteger, Primary: true}, {Name: "j", Type: model.ColumnTypeBool, Unique: true}}, Idxs: []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "fk", Cols: hlib.On("j"), Ref: &hlib.Ref{Table: "f", Cols: hlib.On("id")}}}}
		case 3:
			t = hlib.Table{Name: "o", Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeText, Null: model.NullStateNotNull}}, Opts: []hlib.Opt{{Key: "ENGINE", Val: "InnoDB"}, {Key: "COMMENT", Val: "a\nb", Quoted: true}}}
		case 4:
			s.K("DROP", "TABLE")
			s.Q("f")
			s.P(";")
			continue
		case 5:
			s.P(";")
			continue
		case 6:
			s.K("CREATE", "DATABASE")
			s.Q("d")
			s.P(";")
			continue
		}
		s.WriteTable(t)
		if i < n-1 || vsym.Pick("terminated", 2) == 1 {
			s.P(";")
		}
		want = append(want, t)
	}
	check(s.Styled(), want)
}

// H2Layout: a script with every separator at every place.
func H2Layout() {
	t := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), {Name: "b", Type: model.ColumnTypeEnum, Enum: []string{"x", "y"}, Null: model.NullStateNotNull, HasDef: true, Def: "x", DefQuoted: true}}, Idxs: []hlib.Idx{{Kind: model.IndexKindUnique, HasName: true, Name: "u", Cols: []hlib.IdxCol{{Name: "a", Dir: 2}}}}}
	u := hlib.Table{Name: "u", HasLike: true, Like: "t"}
	s := &hlib.Script{}
	s.WriteTable(t)
	s.P(";")
	s.WriteTable(u)
	check(s.Anywhere(), []hlib.Table{t, u})
}

// H3Columns: columns of every type.
func H3Columns() {
	t := hlib.AnyType()
	c := hlib.Col{Name: "c"}
	hlib.AnySize(&c, t, 1)
	switch vsym.Pick("what", 2) {
	case 0:
		hlib.AnyNull(&c)
		hlib.SetDefault(&c, vsym.Pick("default", 3)*3)
	case 1:
		hlib.AnyFlags(&c, t)
	}
	one(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("z")}})
}

// H4Indexes: every kind of index and reference.
func H4Indexes() {
	var x hlib.Idx
	hlib.AnyHead(&x)
	x.Cols = hlib.AnyIdxCols(1, "a")
	if x.Kind == model.IndexKindForeignKey {
		x.Ref = &hlib.Ref{Table: "o", Cols: hlib.On("x", "y"), OnDelete: hlib.AnyAction("on delete")}
	}
	one(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: []hlib.Idx{x, {Kind: model.IndexKindNormal, HasName: true, Name: "last", Cols: hlib.On("b")}}})
}

// H5Texts: names and literals with any characters, line ends and parentheses among them.
func H5Texts() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	v := vsym.Str("text", vsym.Pick("len", n+1))
	t := hlib.Table{Name: "t", Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeChar, HasLen: true, Len: "3", Null: model.NullStateNotNull}, hlib.ColID("z")}}
	switch vsym.Pick("place", 6) {
	case 0:
		t.Name = v
	case 1:
		t.Cols[0].Name = v
	case 2:
		t.Cols[0].HasDef, t.Cols[0].Def, t.Cols[0].DefQuoted = true, v, true
	case 3:
		t.Cols[0].HasCmt, t.Cols[0].Cmt = true, v
	case 4:
		t.Opts = []hlib.Opt{{Key: "COMMENT", Val: v, Quoted: true}}
	case 5:
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindNormal, HasName: true, Name: v, Cols: hlib.On("a")}}
	}
	one(t)
}

// H6Near: rich tables with any two parts changed.
func H6Near() {
	n := &hlib.Near{Left: 2, Opts: vsym.Thorough(), Wide: vsym.Thorough()}
	t := n.Table("t")
	src := hlib.SQL(t)
	opt := lint.WithIndent(" ", 2)
	out := run(src, opt)
	vsym.Assert(vsym.StrEq(out, indented(run(src), "  ")), "the indentation changes something else than the start of lines, or is not what was asked for: "+out)
	hlib.SameTables(hlib.ReadCreates(out, "linted"), hlib.NormTables([]hlib.Table{t}), "linted")
	vsym.Assert(vsym.StrEq(run(out, opt), out), "linting the output gives another text")
	vsym.Reach("near")
}

// H7Indent: any white space, repeated any number of times.
func H7Indent() {
	var t hlib.Table
	switch vsym.Pick("table", 4) {
	case 0:
		t = hlib.FullTable("t")
	case 1:
		t = hlib.FullTable("t")
		t.Temp, t.IfNot = true, true
	case 2:
		t = hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a")}}
	case 3:
		t = hlib.Table{Name: "t", HasLike: true, Like: "u"}
	}
	src := hlib.SQL(t)
	s := vsym.Str("indent", vsym.Pick("len", 3))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')
	}
	n := []int{-1, 0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 33, 64, 100}[vsym.Pick("times", 17)]
	by := s
	for i := 1; i < n; i++ {
		by += s
	}
	out := run(src, lint.WithIndent(s, n))
	vsym.Assert(vsym.StrEq(out, indented(run(src), by)), "the indentation changes something else than the start of lines, or is not what was asked for: "+out)
	hlib.SameTables(hlib.ReadCreates(out, "linted"), hlib.NormTables([]hlib.Table{t}), "linted")
	vsym.Reach("indented")
}

// H8Large: tables that are large in any one way.
func H8Large() {
	t := hlib.LargeTable("t")
	check(hlib.SQL(t), []hlib.Table{t})
}
