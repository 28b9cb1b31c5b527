// Package c28: a migration ends with the new schema, and the way back with the old one.
package c28

import (
	"bytes"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// valid assumes that the keys of a table have different names.
func valid(l []hlib.Table) {
	for _, t := range l {
		for j, x := range t.Idxs {
			for _, y := range t.Idxs[:j] {
				vsym.Assume(x.Kind != model.IndexKindPrimaryKey || y.Kind != model.IndexKindPrimaryKey)
				a, named := hlib.KeyName(x)
				b, other := hlib.KeyName(y)
				fk := x.Kind == model.IndexKindForeignKey
				vsym.Assume(fk != (y.Kind == model.IndexKindForeignKey) || !named || !other || a != b)
			}
		}
	}
}

// nameless tells whether something without a name would have to be dropped.
func nameless(from, to []hlib.Table) bool {
	for _, a := range from {
		for _, b := range to {
			if a.Name != b.Name {
				continue
			}
			for _, x := range a.Idxs {
				if _, named := hlib.KeyName(x); named || x.Kind == model.IndexKindPrimaryKey {
					continue
				}
				in := false
				for _, y := range b.Idxs {
					in = vsym.Or(in, hlib.AlikeIdx(x, y))
				}
				if !in {
					return true
				}
			}
		}
	}
	return false
}

// migrate migrates db to a schema; it tells whether that can be done.
func migrate(db *hlib.DB, to []hlib.Table, txn bool) bool {
	norm := hlib.NormTables(to)
	var buf bytes.Buffer
	var err error
	if txn {
		err = diff.Strings(&buf, hlib.SQL(db.Tables...), hlib.SQL(to...), diff.WithTransaction(true))
	} else {
		err = diff.Strings(&buf, hlib.SQL(db.Tables...), hlib.SQL(to...))
	}
	if nameless(db.Tables, norm) {
		vsym.Assert(err != nil, "no error although a key cannot be dropped by name")
		vsym.Assert(buf.Len() == 0, "an error and output")
		vsym.Reach("error")
		return false
	}
	if err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	var l []hlib.Stmt
	for _, s := range hlib.ReadSQL(buf.String(), "migration") {
		switch s.Op {
		case "begin", "commit", "checks 0", "checks 1":
			vsym.Assert(txn, "a transaction nobody asked for")
			continue
		}
		l = append(l, s)
	}
	db.Apply(l)
	vsym.Assert(len(db.Tables) == len(norm), "the migration ends with "+hlib.Itoa(len(db.Tables))+" tables instead of "+hlib.Itoa(len(norm)))
	for _, t := range norm {
		at := -1
		for i := range db.Tables {
			if vsym.StrEq(db.Tables[i].Name, t.Name) {
				at = i
			}
		}
		vsym.Assert(at >= 0, "the migration ends without a table")
		got := db.Tables[at]
		hlib.SameKeys(got.Idxs, t.Idxs, "after the migration")
		vsym.Assert(len(got.Cols) == len(t.Cols), "after the migration a table has "+hlib.Itoa(len(got.Cols))+" columns instead of "+hlib.Itoa(len(t.Cols)))
		for i := range got.Cols {
			hlib.SameCol(got.Cols[i], t.Cols[i], "after the migration: column "+hlib.Itoa(i))
		}
	}
	// nothing is left to do
	vsym.MapOrder(false)
	buf.Reset()
	if err := diff.Strings(&buf, hlib.SQL(db.Tables...), hlib.SQL(to...)); err != nil {
		vsym.Assert(false, "cannot compare after the migration: "+err.Error())
	}
	vsym.Assert(buf.Len() == 0, "after the migration there is something left to do: "+buf.String())
	return true
}

// walk goes through schemas one after the other.
func walk(l ...[]hlib.Table) {
	for _, s := range l {
		valid(hlib.NormTables(s))
	}
	txn := vsym.Pick("transaction", 2) == 1
	db := &hlib.DB{Tables: hlib.NormTables(l[0])}
	for _, s := range l[1:] {
		if !migrate(db, s, txn) {
			return
		}
	}
	vsym.Reach("migrated")
}

// H1Near: a rich table with any part changed on either side, next to a table that stays, comes or goes; there and back.
func H1Near() {
	left := 0
	if vsym.Thorough() {
		left = 1
	}
	a := []hlib.Table{(&hlib.Near{Left: left, Tag: "from "}).Table("t")}
	b := []hlib.Table{(&hlib.Near{Left: 1, Wide: left == 0, Tag: "to "}).Table("t")}
	switch vsym.Pick("other", 3) {
	case 0:
		a = append(a, version("u", 0))
	case 1:
		b = append([]hlib.Table{version("u", 1)}, b...)
	case 2:
		a, b = append(a, version("u", 0)), append(b, version("u", 2))
	}
	walk(a, b, a)
}

// version makes versions of a table.
func version(name string, v int) hlib.Table {
	t := hlib.Table{Name: name}
	switch v {
	case 0:
		t.Cols = []hlib.Col{
			{Name: "a", Type: model.ColumnTypeBigInt, HasLen: true, Len: "20", Null: model.NullStateNotNull, AutoInc: true},
			{Name: "b", Type: model.ColumnTypeVarChar, HasLen: true, Len: "20", HasDef: true, Def: "x", DefQuoted: true, HasCmt: true, Cmt: "it's"},
		}
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindPrimaryKey, Cols: hlib.On("a")},
			{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: []hlib.IdxCol{{Name: "b", HasLen: true, Len: "4"}}},
		}
	case 1:
		t.Cols = []hlib.Col{
			{Name: "n", Type: model.ColumnTypeDate},
			{Name: "b", Type: model.ColumnTypeEnum, Enum: []string{"x", "y;"}, Unique: true},
			{Name: "m", Type: model.ColumnTypeText},
			{Name: "c", Type: model.ColumnTypeDecimal, HasLen: true, Len: "5", HasDec: true, Dec: "2", Unsigned: true},
		}
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindUnique, HasName: true, Name: "k", Cols: hlib.On("c", "n"), Type: model.IndexTypeHash},
			{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: hlib.On("c"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("k"), OnDelete: model.ReferenceOptionCascade}},
		}
	case 2:
		t.Cols = []hlib.Col{{Name: "c", Type: model.ColumnTypeInt, Primary: true}, {Name: "z", Type: model.ColumnTypeBlob}}
	case 3:
		t.Cols = []hlib.Col{{Name: "a", Type: model.ColumnTypeInt}, {Name: "n", Type: model.ColumnTypeInt, Unique: true}, {Name: "b", Type: model.ColumnTypeInt}}
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: hlib.On("n"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("k")}},
			{Kind: model.IndexKindPrimaryKey, HasSym: true, Sym: "p", Cols: hlib.On("n", "a")},
			{Kind: model.IndexKindFullText, HasName: true, Name: "k", Cols: hlib.On("b")},
		}
	}
	return t
}

// H2Chain: any few schemas of two tables in four versions, or without them, one after the other.
func H2Chain() {
	steps := 3
	if vsym.Thorough() {
		steps = 4
	}
	var l [][]hlib.Table
	for i := 0; i < steps; i++ {
		var s []hlib.Table
		if v := vsym.Pick("t", 5); v > 0 {
			s = append(s, version("t", v-1))
		}
		if i < 2 || vsym.Thorough() {
			if v := vsym.Pick("v", 3); v > 0 {
				s = append(s, version("v", v))
			}
		}
		l = append(l, s)
	}
	walk(l...)
}

// H3Names: the same with arbitrary names at all places, that may be the same.
func H3Names() {
	x, y := vsym.Str("x", 1), vsym.Str("y", 1)
	at := vsym.Pick("at", 4)
	var side [2]hlib.Table
	for i, n := range []string{x, y} {
		names := []string{"t", "c", "k", "f"}
		names[at] = n
		t := hlib.Table{Name: names[0], Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID(names[1])}}
		vsym.Assume(names[1] != "a")
		t.Idxs = []hlib.Idx{
			{Kind: model.IndexKindNormal, HasName: true, Name: names[2], Cols: hlib.On(names[1], "a")},
			{Kind: model.IndexKindForeignKey, HasSym: true, Sym: names[3], Cols: hlib.On("a"), Ref: &hlib.Ref{Table: names[0], Cols: hlib.On(names[1])}},
		}
		side[i] = t
	}
	walk(side[:1], side[1:], side[:1])
}

// H4Orders: the same in whatever order sets are walked.
func H4Orders() {
	vsym.MapOrder(true)
	var l [][]hlib.Table
	a, b := vsym.Pick("from", 4), vsym.Pick("to", 4)
	vsym.Assume(vsym.Thorough() || a != 1 && b != 1 || a == 0 || b == 0)
	l = append(l, []hlib.Table{version("t", a)}, []hlib.Table{version("t", b)})
	valid(hlib.NormTables(l[0]))
	valid(hlib.NormTables(l[1]))
	migrate(&hlib.DB{Tables: hlib.NormTables(l[0])}, l[1], false)
	vsym.Reach("migrated")
}

// H5Large: long lists of columns or keys that differ at some place, or everywhere, and back.
func H5Large() {
	from, to := hlib.ChangeOf([]int{17, 40}[vsym.Pick("amount", 2)])
	walk([]hlib.Table{from}, []hlib.Table{to}, []hlib.Table{from})
}
