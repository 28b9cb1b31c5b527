// Package c08: printed SQL reads back as the same schema.
package c08

import (
	"bytes"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// print formats the statements one by one, each terminated.
func print(l model.Stmts, opts ...format.Option) string {
	var buf bytes.Buffer
	for _, s := range l {
		if err := format.SQL(&buf, s, opts...); err != nil {
			vsym.Assert(false, "cannot format: "+err.Error())
		}
		buf.WriteString(";\n")
	}
	return buf.String()
}

// check parses, prints, reads the output with an independent reader and with the parser, and prints again.
func check(src string) {
	l, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	var opts []format.Option
	if vsym.Pick("indent", 2) == 1 {
		opts = append(opts, format.WithIndent("\t ", 2))
	}
	want := hlib.ReadTables(l)
	out := print(l, opts...)
	vsym.Observe("out", out)
	hlib.SameTables(hlib.ReadCreates(out, "formatted"), want, "read back independently")
	again, err := schemalex.New().ParseString(out)
	if err != nil {
		vsym.Assert(false, "the output is refused: "+out+": "+err.Error())
	}
	hlib.SameTables(hlib.ReadTables(again), want, "read back")
	vsym.Assert(vsym.StrEq(print(again, opts...), out), "formatting again gives another text")
	vsym.Reach("printed")
}

func one(c hlib.Col) {
	check(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("z")}}))
}

// H1Types: every type and size with every flag.
func H1Types() {
	t := hlib.AnyType()
	c := hlib.Col{Name: "c"}
	hlib.AnySize(&c, t, 2)
	hlib.AnyFlags(&c, t)
	hlib.AnyNull(&c)
	one(c)
}

// H2Defaults: every type with every default.
func H2Defaults() {
	c := hlib.Col{Name: "c", Type: hlib.AnyType().Type}
	hlib.Fix(&c)
	hlib.AnyNull(&c)
	hlib.AnyDefault(&c)
	one(c)
}

// H3Attributes: every combination of the other attributes.
func H3Attributes() {
	c := hlib.Col{Name: "c", Type: []model.ColumnType{model.ColumnTypeInt, model.ColumnTypeVarChar, model.ColumnTypeTimestamp}[vsym.Pick("host", 3)]}
	hlib.AnyNull(&c)
	hlib.AnyDefault(&c)
	hlib.AnyKeys(&c)
	one(c)
}

// H4Indexes: every kind of index with every part.
func H4Indexes() {
	var x hlib.Idx
	hlib.AnyHead(&x)
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	x.Cols = hlib.AnyIdxCols(n)
	if x.Kind == model.IndexKindForeignKey {
		x.Ref = &hlib.Ref{Table: "o", Cols: hlib.On("x")}
	}
	check(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: []hlib.Idx{x}}))
}

// H5References: every reference.
func H5References() {
	x := hlib.Idx{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "s", Cols: hlib.On("a", "b")}
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	x.Ref = hlib.AnyRef(hlib.Bytes("table", 1), hlib.AnyIdxCols(n))
	check(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: []hlib.Idx{x}}))
}

// H6Tables: flags, LIKE and every pair of options.
func H6Tables() {
	t := hlib.Table{Name: hlib.Bytes("table", 1)}
	t.Temp = vsym.Pick("temporary", 2) == 1
	t.IfNot = vsym.Pick("if not exists", 2) == 1
	if vsym.Pick("like", 2) == 1 {
		t.HasLike, t.Like = true, hlib.Bytes("like", 1)
	} else {
		t.Cols = []hlib.Col{hlib.ColID("a")}
		n := vsym.Pick("options", 3)
		for i := 0; i < n; i++ {
			if i == 0 || vsym.Thorough() {
				t.Opts = append(t.Opts, hlib.AnyOpt(1))
			} else {
				t.Opts = append(t.Opts, hlib.Opt{Key: "COMMENT", Val: hlib.Bytes("string", 1), Quoted: true})
			}
		}
	}
	check(hlib.SQL(t))
}

// H7Scripts: lists of whole tables, with any layout.
func H7Scripts() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	s := &hlib.Script{}
	for k := 1 + vsym.Pick("tables", n+1); k > 0; k-- {
		switch vsym.Pick("table", 3) {
		case 0:
			s.WriteTable(hlib.FullTable("f"))
		case 1:
			s.WriteTable(hlib.Table{Name: "l", HasLike: true, Like: "f"})
		case 2:
			s.WriteTable(hlib.Table{Name: "p", Cols: []hlib.Col{{Name: "i", Type: model.ColumnTypeInteger, Primary: true}, {Name: "j", Type: model.ColumnTypeBool}}, Idxs: []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "fk", Cols: hlib.On("j"), Ref: &hlib.Ref{Table: "f", Cols: hlib.On("id")}}}})
		}
		s.P(";")
	}
	check(s.Styled())
}

// H8Near: a rich table with any two parts changed.
func H8Near() {
	n := &hlib.Near{Left: 2, Opts: true, Wide: vsym.Thorough()}
	src := hlib.SQL(n.Table("t"))
	l, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	want := hlib.ReadTables(l)
	out := print(l)
	hlib.SameTables(hlib.ReadCreates(out, "formatted"), want, "read back independently")
	again, err := schemalex.New().ParseString(out)
	if err != nil {
		vsym.Assert(false, "the output is refused: "+out+": "+err.Error())
	}
	vsym.Assert(vsym.StrEq(print(again), out), "formatting again gives another text")
	vsym.Reach("printed")
}

// H9Built: schemas that were put together by hand, and not normalised: what is printed says what was built.
func H9Built() {
	var t hlib.Table
	if vsym.Pick("rich", 2) == 1 {
		n := &hlib.Near{Left: 1, Opts: true, Wide: true}
		t = n.Table("t")
	} else {
		c := hlib.Col{Name: "c", Type: []model.ColumnType{model.ColumnTypeInt, model.ColumnTypeVarChar, model.ColumnTypeTimestamp}[vsym.Pick("host", 3)]}
		hlib.AnyNull(&c)
		if k := vsym.Pick("default", 3); k > 0 {
			c.HasDef, c.Def, c.DefQuoted = true, "1", k == 1
		}
		hlib.AnyKeys(&c)
		if c.Primary {
			c.Unique = vsym.Pick("unique too", 2) == 1
		}
		t = hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("z")}}
	}
	var opts []format.Option
	if vsym.Pick("indent", 2) == 1 {
		opts = append(opts, format.WithIndent("\t ", 2))
	}
	out := print(hlib.BuildAll([]hlib.Table{t}), opts...)
	vsym.Observe("out", out)
	hlib.SameTables(hlib.ReadCreates(out, "formatted"), []hlib.Table{t}, "read back independently")
	l, err := schemalex.New().ParseString(out)
	if err != nil {
		vsym.Assert(false, "the output is refused: "+out+": "+err.Error())
	}
	hlib.SameTables(hlib.ReadTables(l), hlib.NormTables([]hlib.Table{t}), "read back")
	vsym.Reach("built")
}

// HASubsets: columns with any set of attributes.
func HASubsets() {
	c := hlib.AnySubset(model.ColumnTypeBigInt, model.ColumnTypeChar)
	vsym.Assume(!c.Key || !c.Unique && !c.Primary) // UNIQUE takes a KEY that follows, and PRIMARY KEY says it already
	t := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), c}}
	out := print(hlib.BuildAll([]hlib.Table{t}))
	hlib.SameTables(hlib.ReadCreates(out, "formatted"), []hlib.Table{t}, "read back independently")
	l, err := schemalex.New().ParseString(out)
	if err != nil {
		vsym.Assert(false, "the output is refused: "+out+": "+err.Error())
	}
	hlib.SameTables(hlib.ReadTables(l), hlib.NormTables([]hlib.Table{t}), "read back")
	vsym.Reach("printed")
}

// HBLarge: tables that are large in any one way.
func HBLarge() { check(hlib.SQL(hlib.LargeTable("t"))) }
