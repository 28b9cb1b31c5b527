// Package c09: names and literals never break out of their quotes.
package c09

import (
	"bytes"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/format"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// text is an arbitrary name or literal. The fixed part makes it different from every other.
func text() string {
	n := 3
	if vsym.Thorough() {
		n = 5
	}
	return vsym.Str("text", vsym.Pick("len", n+1))
}

// places is the number of places of a table that can hold any text.
const places = 19

// put puts v at a place of a table.
func put(t *hlib.Table, n int, v string) {
	t.Name = "t"
	t.Cols = []hlib.Col{hlib.ColID("a"), {Name: "b", Type: model.ColumnTypeVarChar, HasLen: true, Len: "9", Null: model.NullStateNotNull}, hlib.ColID("c")}
	idx := func(k model.IndexKind) *hlib.Idx {
		t.Idxs = []hlib.Idx{{Kind: k, HasName: true, Name: "i", Cols: hlib.On("a", "b")}}
		return &t.Idxs[0]
	}
	fk := func() *hlib.Idx {
		x := idx(model.IndexKindForeignKey)
		x.HasSym, x.Sym, x.Ref = true, "s", &hlib.Ref{Table: "o", Cols: hlib.On("x", "y")}
		return x
	}
	c := &t.Cols[1]
	switch n {
	case 0:
		t.Name = v
	case 1:
		c.Name = v
	case 2:
		c.HasCS, c.CS = true, v
	case 3:
		c.HasColl, c.Coll = true, v
	case 4:
		c.HasDef, c.Def, c.DefQuoted = true, v, true
	case 5:
		c.HasCmt, c.Cmt = true, v
	case 6:
		c.Type, c.HasLen, c.Enum = model.ColumnTypeEnum, false, []string{"p", v, "q"}
		c.Len = ""
	case 7:
		c.Type, c.HasLen, c.Set = model.ColumnTypeSet, false, []string{v, "q"}
		c.Len = ""
	case 8:
		idx(model.IndexKindNormal).Name = v
	case 9:
		idx(model.IndexKindNormal).Cols[1].Name = v
	case 10:
		x := idx(model.IndexKindUnique)
		x.HasSym, x.Sym = true, v
	case 11:
		x := idx(model.IndexKindFullText)
		x.HasParser, x.Parser = true, v
	case 12:
		fk().Sym = v
	case 13:
		fk().Name = v
	case 14:
		fk().Ref.Table = v
	case 15:
		fk().Ref.Cols[0].Name = v
	case 16:
		t.Opts = []hlib.Opt{{Key: "COMMENT", Val: v, Quoted: true}, {Key: "ENGINE", Val: "e"}}
	case 17:
		t.Opts = []hlib.Opt{{Key: "DEFAULT CHARACTER SET", Val: v, Quoted: true}}
	case 18:
		*t = hlib.Table{Name: "t", HasLike: true, Like: v}
	}
}

// H1Format: a definition printed by the formatter, for any text at any place.
func H1Format() {
	var t hlib.Table
	put(&t, vsym.Pick("place", places), text())
	var buf bytes.Buffer
	if err := format.SQL(&buf, hlib.Build(t)); err != nil {
		vsym.Assert(false, "cannot format: "+err.Error())
	}
	vsym.Observe("sql", buf.String())
	got := hlib.ReadCreates(buf.String()+";", "formatted")
	hlib.SameTables(got, []hlib.Table{t}, "read back")
	vsym.Reach("printed")
}

// H2Database: the one other statement the formatter prints.
func H2Database() {
	d := model.NewDatabase(text())
	var buf bytes.Buffer
	if err := format.SQL(&buf, d); err != nil {
		vsym.Assert(false, "cannot format: "+err.Error())
	}
	l, ok := hlib.Lexemes(buf.String())
	vsym.Assert(ok && len(l) == 4, "CREATE DATABASE has extra tokens")
	vsym.Assert(l[0].Kind == 'w' && l[0].V == "CREATE" && l[1].Kind == 'w' && l[1].V == "DATABASE" && l[3].Kind == ';', "not CREATE DATABASE")
	vsym.Assert(l[2].Kind == 'q' && vsym.StrEq(l[2].V, d.Name()), "another database name")
	vsym.Reach("printed")
}

func migrate(from, to []hlib.Table) []hlib.Stmt {
	var buf bytes.Buffer
	if err := diff.Statements(&buf, hlib.BuildAll(from), hlib.BuildAll(to)); err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	vsym.Observe("sql", buf.String())
	return hlib.ReadSQL(buf.String(), "migration")
}

func is(s hlib.Stmt, op, table string) {
	vsym.Assert(s.Op == op, "not "+op)
	vsym.Assert(vsym.StrEq(s.Table, table), op+": another table")
}

// H3Tables: a table with any text at any place is created or dropped.
func H3Tables() {
	var t hlib.Table
	put(&t, vsym.Pick("place", places), text())
	l := migrate(nil, []hlib.Table{t})
	vsym.Assert(len(l) == 1, "creating a table takes one statement")
	is(l[0], "create", t.Name)
	hlib.SameTable(l[0].Def, t, "created")
	l = migrate([]hlib.Table{t}, nil)
	vsym.Assert(len(l) == 1, "dropping a table takes one statement")
	is(l[0], "drop table", t.Name)
	vsym.Reach("printed")
}

// H4Alterations: every kind of alteration of a table of any name.
func H4Alterations() {
	v := text()
	name := "t"
	field := "f"
	if vsym.Pick("which", 2) == 0 {
		name = v
	} else {
		field = v
	}
	vsym.Assume(field != "a" && field != "b")
	base := hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	more := base
	idx := func(x hlib.Idx) { more.Idxs = []hlib.Idx{x} }
	f := hlib.ColID(field)
	one := func(a, b hlib.Table, op string) hlib.Stmt {
		l := migrate([]hlib.Table{a}, []hlib.Table{b})
		vsym.Assert(len(l) == 1, op+" takes one statement")
		is(l[0], op, name)
		return l[0]
	}
	switch vsym.Pick("alteration", 9) {
	case 0: // at the end
		more.Cols = []hlib.Col{base.Cols[0], base.Cols[1], f}
		s := one(base, more, "add column")
		hlib.SameCol(s.Col, f, "added")
		vsym.Assert(s.HasAfter && s.After == "b", "not added after the column before it")
		s = one(more, base, "drop column")
		vsym.Assert(vsym.StrEq(s.Name, field), "another column dropped")
	case 1: // in front
		more.Cols = []hlib.Col{f, base.Cols[0], base.Cols[1]}
		s := one(base, more, "add column")
		hlib.SameCol(s.Col, f, "added")
		vsym.Assert(s.First, "not added in front")
	case 2: // after a column of that name
		base.Cols = []hlib.Col{f}
		more.Cols = []hlib.Col{f, hlib.ColID("a")}
		s := one(base, more, "add column")
		hlib.SameCol(s.Col, hlib.ColID("a"), "added")
		vsym.Assert(s.HasAfter && vsym.StrEq(s.After, field), "not added after the column before it")
	case 3: // changed
		g := f
		g.HasCmt, g.Cmt = true, v
		base.Cols = []hlib.Col{f, hlib.ColID("a")}
		more.Cols = []hlib.Col{g, hlib.ColID("a")}
		s := one(base, more, "change column")
		hlib.SameCol(s.Col, g, "changed")
		vsym.Assert(vsym.StrEq(s.Name, field), "another column changed")
	case 4:
		idx(hlib.Idx{Kind: model.IndexKindUnique, HasName: true, Name: field, Cols: hlib.On("a")})
		s := one(base, more, "add index")
		hlib.SameIdx(s.Idx, more.Idxs[0], "added")
		s = one(more, base, "drop index")
		vsym.Assert(vsym.StrEq(s.Name, field), "another index dropped")
	case 5:
		idx(hlib.Idx{Kind: model.IndexKindUnique, HasSym: true, Sym: field, Cols: hlib.On("a")})
		s := one(base, more, "add index")
		hlib.SameIdx(s.Idx, more.Idxs[0], "added")
		s = one(more, base, "drop index")
		vsym.Assert(vsym.StrEq(s.Name, field), "another index dropped")
	case 6:
		idx(hlib.Idx{Kind: model.IndexKindForeignKey, HasSym: true, Sym: field, Cols: hlib.On("a"), Ref: &hlib.Ref{Table: v, Cols: hlib.On(v)}})
		s := one(base, more, "add index")
		hlib.SameIdx(s.Idx, more.Idxs[0], "added")
		s = one(more, base, "drop foreign key")
		vsym.Assert(vsym.StrEq(s.Name, field), "another foreign key dropped")
	case 7:
		idx(hlib.Idx{Kind: model.IndexKindForeignKey, HasName: true, Name: field, Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}})
		s := one(base, more, "add index")
		hlib.SameIdx(s.Idx, more.Idxs[0], "added")
		s = one(more, base, "drop foreign key")
		vsym.Assert(vsym.StrEq(s.Name, field), "another foreign key dropped")
	case 8:
		idx(hlib.Idx{Kind: model.IndexKindPrimaryKey, Cols: []hlib.IdxCol{{Name: "a"}, {Name: v}}})
		s := one(base, more, "add index")
		hlib.SameIdx(s.Idx, more.Idxs[0], "added")
		one(more, base, "drop primary key")
	}
	vsym.Reach("printed")
}

// H5Parsed: text that comes out of the parser, in every way to write it, survives being printed.
func H5Parsed() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	b := vsym.Str("raw", n)
	var lit string
	s := &hlib.Script{}
	name := "c"
	s.K("CREATE", "TABLE")
	s.W("t")
	s.P("(")
	place := vsym.Pick("place", 4)
	q := "'"
	if place == 0 {
		q = "`"
	} else if vsym.Pick("quote", 2) == 1 && place != 2 {
		q = "\""
	}
	lit = q + b
	for i := vsym.Pick("more", 3); i > 0; i-- {
		lit += string([]byte{q[0], '\\', 'x'}[vsym.Pick("byte", 3)])
	}
	lit += q
	if place == 0 {
		s.W(lit)
	} else {
		s.W(name)
	}
	s.K("CHAR", "NOT", "NULL")
	switch place {
	case 1:
		s.K("DEFAULT")
		s.W(lit)
	case 2:
		s.K("COMMENT")
		s.W(lit)
	}
	s.P(")")
	if place == 3 {
		s.K("COMMENT")
		s.P("=")
		s.W(lit)
	}
	l, err := schemalex.New().ParseString(s.Plain())
	if err != nil {
		return
	}
	var buf bytes.Buffer
	for _, st := range l {
		if err := format.SQL(&buf, st); err != nil {
			vsym.Assert(false, "cannot format: "+err.Error())
		}
		buf.WriteByte(';')
	}
	hlib.SameTables(hlib.ReadCreates(buf.String(), "formatted"), hlib.ReadTables(l), "read back")
	vsym.Reach("printed")
}

// H6Large: names and literals of any length, with any byte at some place.
func H6Large() {
	t := hlib.LargeTable("t")
	l := migrate(nil, []hlib.Table{t})
	vsym.Assert(len(l) == 1, "creating a table takes one statement")
	is(l[0], "create", t.Name)
	hlib.SameTable(l[0].Def, t, "created")
	vsym.Reach("printed")
}
