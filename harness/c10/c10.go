// Package c10: normalisation is idempotent and leaves its input alone.
package c10

import (
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

func checkCol(c hlib.Col) {
	m := hlib.BuildCol(c)
	n, changed := m.Normalize()
	got := hlib.ReadCol(n)
	hlib.SameCol(hlib.ReadCol(m), c, "the column normalised")
	hlib.SameCol(got, hlib.NormCol(c), "its normal form")
	vsym.Assert(changed != hlib.EqCol(got, c), "'changed' says the opposite of what happened to the column")
	if !changed {
		vsym.Assert(n == m, "unchanged, but not the receiver")
	}
	again, changed := n.Normalize()
	vsym.Assert(!changed, "normalising a second time reports a change")
	hlib.SameCol(hlib.ReadCol(again), got, "normalised twice")
	hlib.SameCol(hlib.ReadCol(m), c, "the column normalised")
	vsym.Reach("normalised")
}

func checkTable(t hlib.Table) {
	m := hlib.Build(t)
	n, changed := m.Normalize()
	got := hlib.ReadTable(n)
	hlib.SameTable(hlib.ReadTable(m), t, "the table normalised")
	hlib.SameTable(got, hlib.NormTable(t), "its normal form")
	vsym.Assert(changed != hlib.EqTable(got, t), "'changed' says the opposite of what happened to the table")
	if !changed {
		vsym.Assert(n == m, "unchanged, but not the receiver")
	}
	for i, c := range got.Cols {
		k, ok := n.LookupColumnOrder("tablecol#" + c.Name)
		vsym.Assert(ok && k == i, "a column of the normal form is looked up at another place")
	}
	again, changed := n.Normalize()
	vsym.Assert(!changed, "normalising a second time reports a change")
	hlib.SameTable(hlib.ReadTable(again), got, "normalised twice")
	hlib.SameTable(hlib.ReadTable(m), t, "the table normalised")
	vsym.Reach("normalised")
}

// H1Types: columns of every type, size, sign and other flags.
func H1Types() {
	t := hlib.AnyType()
	c := hlib.Col{Name: "c"}
	hlib.AnySize(&c, t, 2)
	hlib.AnyFlags(&c, t)
	hlib.AnyNull(&c)
	checkCol(c)
}

// H2Defaults: columns of every type with every nullability and default.
func H2Defaults() {
	c := hlib.Col{Name: "c", Type: hlib.AnyType().Type}
	hlib.Fix(&c)
	hlib.AnyNull(&c)
	n := 3
	if vsym.Thorough() {
		n = 5
	}
	switch k := vsym.Pick("default", hlib.Defaults+2); k {
	case hlib.Defaults:
		c.HasDef, c.Def, c.DefQuoted = true, vsym.Str("text", vsym.Pick("len", n+1)), true
	case hlib.Defaults + 1:
		c.HasDef, c.Def = true, vsym.Str("text", vsym.Pick("len", n))
		for i := 0; i < len(c.Def); i++ {
			vsym.Assume(c.Def[i] < 0x80)
		}
	default:
		hlib.SetDefault(&c, k)
	}
	checkCol(c)
}

// H3Attributes: the other attributes of a column in every combination.
func H3Attributes() {
	c := hlib.Col{Name: "c", Type: []model.ColumnType{model.ColumnTypeInteger, model.ColumnTypeVarChar, model.ColumnTypeTimestamp, model.ColumnTypeBool}[vsym.Pick("host", 4)]}
	hlib.AnyNull(&c)
	hlib.AnyKeys(&c)
	if vsym.Pick("default", 2) == 1 {
		hlib.SetDefault(&c, 1)
	}
	checkCol(c)
}

func cols() []hlib.Col {
	var out []hlib.Col
	n := 1 + vsym.Pick("columns", 2)
	for i := 0; i < n; i++ {
		c := hlib.Col{Name: []string{"a", "b"}[i]}
		switch vsym.Pick("column", 4) {
		case 0: // nothing to do
			c.Type, c.Null = model.ColumnTypeDate, model.NullStateNotNull
		case 1:
			c.Type = model.ColumnTypeInteger
		case 2:
			c.Type, c.HasLen, c.Len, c.HasDef, c.Def = model.ColumnTypeInt, true, "11", true, "1"
		case 3:
			c.Type, c.Null, c.HasDef, c.Def = model.ColumnTypeBool, model.NullStateNull, true, "TRUE"
		}
		c.Primary = vsym.Pick("primary", 2) == 1
		c.Unique = vsym.Pick("unique", 2) == 1
		if i == 0 {
			c.Key = vsym.Pick("key", 2) == 1
		}
		out = append(out, c)
	}
	return out
}

// H4Tables: inline keys together with indexes and foreign keys whose names may collide.
func H4Tables() {
	t := hlib.Table{Name: "t", Cols: cols()}
	names := []string{"a", "x"}
	max := 1
	if vsym.Thorough() {
		max = 2
	}
	for k := vsym.Pick("indexes", max+1); k > 0; k-- {
		x := hlib.Idx{Cols: hlib.On("a")}
		switch vsym.Pick("index", 4) {
		case 0:
			x.Kind = model.IndexKindForeignKey
			if vsym.Pick("reference", 2) == 1 {
				x.Ref = &hlib.Ref{Table: "o", Cols: hlib.On("p"), OnDelete: model.ReferenceOptionCascade}
			}
			if vsym.Pick("symbol", 2) == 1 {
				x.HasSym, x.Sym = true, names[vsym.Pick("which", 2)]
			}
		case 1:
			x.Kind = model.IndexKindPrimaryKey
		case 2:
			x.Kind, x.Type = model.IndexKindUnique, model.IndexTypeHash
			if vsym.Pick("symbol", 2) == 1 {
				x.HasSym, x.Sym = true, names[vsym.Pick("which", 2)]
			}
		case 3:
			x.Kind, x.HasParser, x.Parser = model.IndexKindFullText, true, "p"
		}
		if x.Kind != model.IndexKindPrimaryKey && vsym.Pick("named", 2) == 1 {
			x.HasName, x.Name = true, names[vsym.Pick("name", 2)]
		}
		t.Idxs = append(t.Idxs, x)
	}
	checkTable(t)
}

// H5Kept: everything else of a table is kept.
func H5Kept() {
	t := hlib.FullTable(vsym.Str("table", 1))
	t.Temp = vsym.Pick("temporary", 2) == 1
	t.IfNot = vsym.Pick("if not exists", 2) == 1
	if vsym.Pick("normal", 2) == 1 {
		t.Cols = []hlib.Col{hlib.ColID("a")}
		if vsym.Pick("indexes", 2) == 0 {
			t.Idxs = nil
		} else {
			t.Idxs = t.Idxs[:3]
		}
	}
	t.Opts = nil
	for k := vsym.Pick("options", 3); k > 0; k-- {
		t.Opts = append(t.Opts, hlib.Opt{Key: vsym.Str("key", 1), Val: vsym.Str("value", 1), Quoted: vsym.Pick("quoted", 2) == 1})
	}
	if vsym.Pick("like", 2) == 1 {
		// not what the parser makes, but what can be built
		t.HasLike, t.Like = true, vsym.Str("like", 1)
		t.Idxs, t.Cols = nil, []hlib.Col{hlib.ColID("a")}
		if vsym.Pick("columns", 2) == 1 {
			t.Cols = nil
		}
	}
	checkTable(t)
}

// H6Parsed: what the parser returns is normal already.
func H6Parsed() {
	c := hlib.Col{Name: "c", Type: hlib.AnyType().Type}
	hlib.Fix(&c)
	hlib.AnyNull(&c)
	hlib.AnyDefault(&c)
	c.Primary = vsym.Pick("primary", 2) == 1
	c.Unique = vsym.Pick("unique", 2) == 1
	t := hlib.Table{Name: "t", Cols: []hlib.Col{c}}
	if vsym.Pick("foreign key", 2) == 1 {
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: []string{"c", "d"}[vsym.Pick("symbol", 2)], Cols: hlib.On("c"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("p")}}}
	}
	l, err := schemalex.New().ParseString(hlib.SQL(t))
	if err != nil {
		vsym.Assert(false, "refused: "+err.Error())
	}
	m := l[0].(model.Table)
	was := hlib.ReadTable(m)
	n, changed := m.Normalize()
	vsym.Assert(!changed && n == m, "the parser returns what is not normal")
	hlib.SameTable(hlib.ReadTable(n), was, "parsed and normalised again")
	vsym.Reach("normalised")
}

// H7Near: rich tables with any two parts changed.
func H7Near() {
	n := &hlib.Near{Left: 2, Opts: true, Wide: vsym.Thorough()}
	checkTable(n.Table("t"))
}

// H8Subsets: columns with any set of attributes, alone and in a table.
func H8Subsets() {
	c := hlib.AnySubset(model.ColumnTypeInteger, model.ColumnTypeTimestamp, model.ColumnTypeVarChar)
	if vsym.Pick("alone", 2) == 1 {
		checkCol(c)
		return
	}
	checkTable(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), c}})
}

// H9Large: tables that are large in any one way.
func H9Large() { checkTable(hlib.LargeTable("t")) }
