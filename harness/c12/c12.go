// Package c12: a schema compared with itself gives no migration.
package c12

import (
	"bytes"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// itself compares a script with itself, read twice, and the statements with themselves.
func itself(src string) {
	var buf bytes.Buffer
	if err := diff.Strings(&buf, src, src); err != nil {
		vsym.Assert(false, "cannot compare with itself: "+src+": "+err.Error())
	}
	vsym.Assert(buf.Len() == 0, "compared with itself: "+src+": "+buf.String())
	l, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	if err := diff.Statements(&buf, l, l); err != nil {
		vsym.Assert(false, "cannot compare with itself: "+src+": "+err.Error())
	}
	vsym.Assert(buf.Len() == 0, "the same statements compared: "+src+": "+buf.String())
	vsym.Reach("compared")
}

// H1Columns: every column.
func H1Columns() {
	t := hlib.AnyType()
	c := hlib.Col{Name: "c"}
	hlib.AnySize(&c, t, 1)
	if vsym.Pick("what", 2) == 0 {
		hlib.AnyFlags(&c, t)
	} else {
		hlib.AnyNull(&c)
		hlib.AnyDefault(&c)
	}
	itself(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("z")}}))
}

// H2Attributes: every combination of the other attributes.
func H2Attributes() {
	c := hlib.Col{Name: hlib.Bytes("name", 1), Type: model.ColumnTypeTimestamp}
	hlib.AnyNull(&c)
	hlib.AnyKeys(&c)
	if vsym.Pick("default", 2) == 1 {
		hlib.SetDefault(&c, 1)
	}
	itself(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("zz")}}))
}

// H9Texts: texts at every place of a column of every type that takes some.
func H9Texts() {
	c := hlib.Col{Name: "c", Type: []model.ColumnType{model.ColumnTypeEnum, model.ColumnTypeSet, model.ColumnTypeVarChar, model.ColumnTypeInt, model.ColumnTypeTimestamp}[vsym.Pick("type", 5)]}
	hlib.Fix(&c)
	x := hlib.Bytes("x", 2)
	switch vsym.Pick("at", 3) {
	case 0:
		c.HasDef, c.Def, c.DefQuoted = true, x, true
	case 1:
		c.HasCmt, c.Cmt = true, x
	case 2:
		vsym.Assume(c.Type == model.ColumnTypeEnum || c.Type == model.ColumnTypeSet)
		hlib.SetVals(&c, []string{"b", x, "a"})
		if vsym.Pick("default", 2) == 1 {
			c.HasDef, c.Def, c.DefQuoted = true, x, true
		}
	}
	itself(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{c, hlib.ColID("z")}}))
}

// H3Indexes: every index, alone or with one that has the same name or columns.
func H3Indexes() {
	vsym.MapOrder(vsym.Thorough())
	var x hlib.Idx
	hlib.AnyHead(&x)
	if vsym.Thorough() {
		x.Cols = hlib.AnyIdxCols(2, "a", "b")
	} else {
		x.Cols = hlib.AnyIdxCols(1, "a", "b")
	}
	if x.Kind == model.IndexKindForeignKey && vsym.Pick("reference", 2) == 1 {
		x.Ref = &hlib.Ref{Table: "o", Cols: hlib.On("x")}
	}
	t := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: []hlib.Idx{x}}
	switch vsym.Pick("other", 3) {
	case 1:
		t.Idxs = append(t.Idxs, x)
	case 2:
		t.Idxs = append(t.Idxs, hlib.Idx{Kind: model.IndexKindNormal, HasName: x.HasName, Name: x.Name, Cols: hlib.On("a")})
	}
	itself(hlib.SQL(t))
}

// H4References: every reference.
func H4References() {
	x := hlib.Idx{Kind: model.IndexKindForeignKey, Cols: hlib.On("a")}
	x.HasSym = vsym.Pick("symbol", 2) == 1
	if x.HasSym {
		x.Sym = "s"
	}
	x.Ref = hlib.AnyRef(hlib.Bytes("table", 1), hlib.AnyIdxCols(1))
	itself(hlib.SQL(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: []hlib.Idx{x}}))
}

// H5Tables: lists of tables, also with the same names, flags and options.
func H5Tables() {
	vsym.MapOrder(true)
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	var l []hlib.Table
	for k := vsym.Pick("tables", max+1); k > 0; k-- {
		var t hlib.Table
		name := []string{"f", "g"}[vsym.Pick("name", 2)]
		switch vsym.Pick("table", 5) {
		case 0:
			t = hlib.FullTable(name)
			t.Cols = t.Cols[:2]
			t.Idxs = t.Idxs[:3]
		case 1:
			t = hlib.Table{Name: name, HasLike: true, Like: "f"}
		case 2:
			t = hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("a")}}
		case 3:
			t = hlib.Table{Name: name, Temp: true, Cols: []hlib.Col{hlib.ColID("a")}, Opts: []hlib.Opt{{Key: "COMMENT", Val: "x", Quoted: true}, {Key: "COMMENT", Val: "y", Quoted: true}}}
		case 4:
			t = hlib.Table{Name: name, Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeInt, Primary: true}, {Name: "b", Type: model.ColumnTypeInt, Unique: true}}, Idxs: []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "b", Cols: hlib.On("b"), Ref: &hlib.Ref{Table: "f", Cols: hlib.On("a")}}}}
		}
		l = append(l, t)
	}
	itself(hlib.SQL(l...))
}

// H7Whole: whole tables.
func H7Whole() {
	l := []hlib.Table{hlib.FullTable("f"), hlib.FullTable("g")}
	itself(hlib.SQL(l[:1+vsym.Pick("tables", 2)]...))
}

// H6Anything: any script the parser accepts, made of pieces in any order.
func H6Anything() {
	pieces := []string{"a", "`b`", "INT", "(", ")", ",", "KEY", "PRIMARY", "UNIQUE", "DEFAULT", "1", "'s'", "NULL", "NOT", "ENUM", "REFERENCES", "FOREIGN", "CONSTRAINT", "COMMENT", "=", ";", "LIKE"}
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	src := []string{"CREATE TABLE t (a INT", "CREATE TABLE t (a INT, ", "CREATE TABLE t (a INT)", "CREATE TABLE t "}[vsym.Pick("start", 4)]
	for k := vsym.Pick("pieces", max+1); k > 0; k-- {
		src += " " + pieces[vsym.Pick("piece", len(pieces))]
	}
	src += []string{"", ")", " INT)", " (a))"}[vsym.Pick("end", 4)]
	if _, err := schemalex.New().ParseString(src); err != nil {
		return
	}
	itself(src)
}

// H8Near: rich tables with any two parts changed.
func H8Near() {
	n := &hlib.Near{Left: 2, Wide: vsym.Thorough()}
	src := hlib.SQL(n.Table("t"))
	var buf bytes.Buffer
	if err := diff.Strings(&buf, src, src); err != nil {
		vsym.Assert(false, "cannot compare with itself: "+src+": "+err.Error())
	}
	vsym.Assert(buf.Len() == 0, "compared with itself: "+src+": "+buf.String())
	vsym.Reach("near")
}

// HALarge: tables that are large in any one way.
func HALarge() { itself(hlib.SQL(hlib.LargeTable("t"))) }
