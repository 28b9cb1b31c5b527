// Package c23: the objects of the model keep consistent books.
package c23

import (
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// id is the ID of a column of some name.
func id(name string) string { return model.NewTableColumn(name).ID() }

// books checks everything a table says about its columns.
func books(t model.Table, want []hlib.Col, absent []string, what string) {
	var got []model.TableColumn
	for c := range t.Columns() {
		got = append(got, c)
	}
	vsym.Assert(len(got) == len(want), what+": another number of columns")
	for i, c := range got {
		hlib.SameCol(hlib.ReadCol(c), want[i], what+": column")
		vsym.Assert(c.TableID() == t.ID(), what+": a column says it belongs to another table")
		l, ok := t.LookupColumn(id(want[i].Name))
		vsym.Assert(ok && l == c, what+": looking a column up gives another one, or none")
		n, ok := t.LookupColumnOrder(id(want[i].Name))
		vsym.Assert(ok && n == i, what+": the position of a column is not the one it has when iterating")
		b, ok := t.LookupColumnBefore(id(want[i].Name))
		if i == 0 {
			vsym.Assert(!ok && b == nil, what+": there is a column before the first one")
		} else {
			vsym.Assert(ok && b == got[i-1], what+": the column before another one is not the one it follows when iterating")
		}
	}
	for _, n := range absent {
		_, ok1 := t.LookupColumn(id(n))
		_, ok2 := t.LookupColumnOrder(id(n))
		_, ok3 := t.LookupColumnBefore(id(n))
		vsym.Assert(!ok1 && !ok2 && !ok3, what+": a column that is not there is found")
	}
	i := 0
	for c := range t.Columns() {
		vsym.Assert(i < len(got) && c == got[i], what+": iterating again gives other columns")
		i++
	}
	vsym.Assert(i == len(got), what+": iterating again gives fewer columns")
}

func has(l []hlib.Col, name string) bool {
	for _, c := range l {
		if c.Name == name {
			return true
		}
	}
	return false
}

// H1Tables: any sequence of building steps on two tables, with names of arbitrary bytes.
func H1Tables() {
	names := []string{"a", vsym.Str("name", 1), "tablecol#" + vsym.Str("name", 1)}
	vsym.Assume(names[0] != names[1])
	steps := 4
	if vsym.Thorough() {
		steps = 5
	}
	var ts [2]model.Table
	var want [2][]hlib.Col
	var idxs, opts [2]int
	other := "t" + names[1]
	if vsym.Pick("same name", 2) == 1 {
		other = "t"
		steps--
	}
	for i := range ts {
		ts[i] = model.NewTable([]string{"t", other}[i])
	}
	vsym.Assert((ts[0].ID() != ts[1].ID()) == (other != "t"), "two tables of different names share an ID, or two of the same name do not")
	for s := 0; s < steps; s++ {
		k := vsym.Pick("table", 2)
		t := ts[k]
		switch vsym.Pick("step", 6) {
		case 0: // a new column
			n := names[vsym.Pick("which name", len(names))]
			vsym.Assume(!has(want[k], n))
			c := hlib.ColID(n)
			c.HasCmt, c.Cmt = true, string(rune('0'+s))
			r := t.AddColumn(hlib.BuildCol(c))
			vsym.Assert(r == t, "adding a column returns another table")
			want[k] = append(want[k], c)
		case 1: // a column of the other table
			o := 1 - k
			vsym.Assume(len(want[o]) > 0)
			at := vsym.Pick("at", len(want[o]))
			vsym.Assume(!has(want[k], want[o][at].Name))
			i := 0
			for c := range ts[o].Columns() {
				if i == at {
					t.AddColumn(c)
				}
				i++
			}
			want[k] = append(want[k], want[o][at])
		case 2: // change a column of the table
			vsym.Assume(len(want[k]) > 0)
			at := vsym.Pick("at", len(want[k]))
			i := 0
			for c := range t.Columns() {
				if i == at {
					c.SetComment("changed").SetUnsigned(true).SetLength(model.NewLength("7"))
				}
				i++
			}
			c := want[k][at]
			c.HasCmt, c.Cmt, c.Unsigned, c.HasLen, c.Len = true, "changed", true, true, "7"
			want[k] = append(append(append([]hlib.Col(nil), want[k][:at]...), c), want[k][at+1:]...)
		case 3:
			x := model.NewIndex(model.IndexKindNormal, t.ID())
			x.AddColumns(model.NewIndexColumn(names[1]))
			t.AddIndex(x)
			idxs[k]++
		case 4:
			t.AddOption(model.NewTableOption("ENGINE", names[1], false))
			opts[k]++
		case 5: // iterate, but not to the end
			for range t.Columns() {
				break
			}
			for range t.Indexes() {
				break
			}
			for range t.Options() {
				break
			}
		}
	}
	for k, t := range ts {
		var absent []string
		for _, n := range names {
			if !has(want[k], n) {
				absent = append(absent, n)
			}
		}
		books(t, want[k], append(absent, "", "zz"), []string{"first table", "second table"}[k])
		for again := 0; again < 2; again++ {
			i, o := 0, 0
			for x := range t.Indexes() {
				vsym.Assert(x.Name() == "" && !x.HasName(), "an index has a name")
				i++
			}
			for range t.Options() {
				o++
			}
			vsym.Assert(i == idxs[k] && o == opts[k], "indexes or options are lost or invented")
		}
		// tables can be changed after they have been looked at
		last := hlib.ColID("last")
		t.AddColumn(hlib.BuildCol(last))
		books(t, append(want[k], last), append(absent, "", "zz"), "after another column")
	}
	vsym.Reach("built")
}

// set changes one thing of a column, the same in its description.
func set(m model.TableColumn, c hlib.Col, v string) hlib.Col {
	var r model.TableColumn
	on := v == "" || v[0]&1 == 0
	switch vsym.Pick("setter", 21) {
	case 0:
		t := hlib.Types[vsym.Pick("type", 3)].Type
		r, c.Type = m.SetType(t), t
	case 1:
		r, c.HasLen, c.Len, c.HasDec, c.Dec = m.SetLength(model.NewLength(v)), true, v, false, ""
	case 2:
		r, c.HasLen, c.Len, c.HasDec, c.Dec = m.SetLength(model.NewLength("3").SetDecimal(v)), true, "3", true, v
	case 3:
		r, c.HasCS, c.CS = m.SetCharacterSet(v), true, v
	case 4:
		r, c.HasColl, c.Coll = m.SetCollation(v), true, v
	case 5:
		r, c.HasDef, c.Def, c.DefQuoted = m.SetDefault(v, on), true, v, on
	case 6:
		r, c.HasCmt, c.Cmt = m.SetComment(v), true, v
	case 7:
		r, c.HasOnUpd, c.OnUpd = m.SetAutoUpdate(v), true, v
	case 8:
		r, c.Enum = m.SetEnumValues([]string{v, "x"}), []string{v, "x"}
	case 9:
		r, c.Set = m.SetSetValues([]string{v}), []string{v}
	case 10:
		s := []model.NullState{model.NullStateNone, model.NullStateNull, model.NullStateNotNull}[vsym.Pick("null", 3)]
		r, c.Null = m.SetNullState(s), s
	case 11:
		r, c.AutoInc = m.SetAutoIncrement(on), on
	case 12:
		r, c.Binary = m.SetBinary(on), on
	case 13:
		r, c.Key = m.SetKey(on), on
	case 14:
		r, c.Primary = m.SetPrimary(on), on
	case 15:
		r, c.Unique = m.SetUnique(on), on
	case 16:
		r, c.Unsigned = m.SetUnsigned(on), on
	case 17:
		r, c.Zerofill = m.SetZeroFill(on), on
	case 18:
		r = m.SetTableID("table#" + v)
		vsym.Assert(vsym.StrEq(m.TableID(), "table#"+v), "the table of a column is not the one that was set")
	case 19: // the length that is there
		vsym.Assume(c.HasLen)
		m.Length().SetDecimal(v)
		r, c.HasDec, c.Dec = m, true, v
	case 20: // a length that was set before
		l := model.NewLength("5")
		r = m.SetLength(l)
		c.HasLen, c.Len, c.HasDec, c.Dec = true, "5", false, ""
	}
	vsym.Assert(r == m, "a setter returns another column")
	return c
}

// H2Columns: any few setters on a column, then on its clone or on itself: the other one is not affected.
func H2Columns() {
	v := vsym.Str("v", vsym.Pick("len", 2))
	c := hlib.ColID(hlib.PickStr("name", "c", v))
	m := hlib.BuildCol(c)
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	for i := 0; i < n; i++ {
		c = set(m, c, v)
	}
	hlib.SameCol(hlib.ReadCol(m), c, "column")
	tableID := m.TableID()
	k := m.Clone()
	hlib.SameCol(hlib.ReadCol(k), c, "clone of a column")
	vsym.Assert(k != m, "a clone is the column itself")
	vsym.Assert(k.ID() == m.ID() && k.TableID() == tableID, "a clone has another ID or table")
	a, b := m, k
	if vsym.Pick("change", 2) == 0 {
		a, b = k, m
	}
	d := set(a, c, "y"+v)
	hlib.SameCol(hlib.ReadCol(a), d, "changed column")
	hlib.SameCol(hlib.ReadCol(b), c, "the column next to a changed one")
	vsym.Assert(b.TableID() == tableID, "the table of a column changes along with that of another column")
	vsym.Reach("changed")
}

// change changes one thing of an index, the same in its description.
func change(m model.Index, x hlib.Idx, v string) hlib.Idx {
	x.Cols = append([]hlib.IdxCol(nil), x.Cols...)
	if x.Ref != nil {
		r := *x.Ref
		r.Cols = append([]hlib.IdxCol(nil), r.Cols...)
		x.Ref = &r
	}
	last := func(l []hlib.IdxCol, cc model.ColumnContainer) (*hlib.IdxCol, model.IndexColumn) {
		var c model.IndexColumn
		for c = range cc.Columns() {
		}
		return &l[len(l)-1], c
	}
	n := 9
	if x.Ref != nil {
		n = 15
	}
	switch vsym.Pick("change", n) {
	case 0:
		vsym.Assert(m.SetSymbol(v) == m, "a setter returns another index")
		x.HasSym, x.Sym = true, v
	case 1:
		vsym.Assert(m.SetName(v) == m, "a setter returns another index")
		x.HasName, x.Name = true, v
	case 2:
		t := []model.IndexType{model.IndexTypeNone, model.IndexTypeBtree, model.IndexTypeHash}[vsym.Pick("type", 3)]
		m.SetType(t)
		x.Type = t
	case 3:
		m.AddColumns(model.NewIndexColumn(v))
		x.Cols = append(x.Cols, hlib.IdxCol{Name: v})
	case 4:
		m.AddColumns(model.NewIndexColumn(v).SetLength("2"), model.NewIndexColumn("z"))
		x.Cols = append(x.Cols, hlib.IdxCol{Name: v, HasLen: true, Len: "2"}, hlib.IdxCol{Name: "z"})
	case 5:
		vsym.Assume(!x.HasParser)
		m.AddOption(model.NewIndexOption("WITH PARSER", v, true))
		x.HasParser, x.Parser = true, v
	case 6:
		c, mc := last(x.Cols, m)
		mc.SetLength(v)
		c.HasLen, c.Len = true, v
	case 7:
		c, mc := last(x.Cols, m)
		mc.SetSortDirection(model.SortDirectionDescending)
		c.Dir = 2
	case 8:
		r := model.NewReference().SetTableName(v)
		m.SetReference(r)
		x.Ref = &hlib.Ref{Table: v}
	case 9:
		m.Reference().SetTableName(v)
		x.Ref.Table = v
	case 10:
		o := []model.ReferenceMatch{model.ReferenceMatchNone, model.ReferenceMatchFull, model.ReferenceMatchPartial, model.ReferenceMatchSimple}[vsym.Pick("match", 4)]
		m.Reference().SetMatch(o)
		x.Ref.Match = o
	case 11:
		m.Reference().SetOnDelete(model.ReferenceOptionCascade)
		x.Ref.OnDelete = model.ReferenceOptionCascade
	case 12:
		m.Reference().SetOnUpdate(model.ReferenceOptionSetNull)
		x.Ref.OnUpdate = model.ReferenceOptionSetNull
	case 13:
		m.Reference().AddColumns(model.NewIndexColumn(v))
		x.Ref.Cols = append(x.Ref.Cols, hlib.IdxCol{Name: v})
	case 14:
		vsym.Assume(len(x.Ref.Cols) > 0)
		c, mc := last(x.Ref.Cols, m.Reference())
		mc.SetLength(v)
		mc.SetSortDirection(model.SortDirectionAscending)
		c.HasLen, c.Len, c.Dir = true, v, 1
	}
	return x
}

// H3Indexes: any few changes of an index, then of its clone or of itself, then of the other one: they do not affect each other.
func H3Indexes() {
	kinds := 2
	if vsym.Thorough() {
		kinds = 6
	}
	v := vsym.Str("v", 1)
	kind := []model.IndexKind{model.IndexKindNormal, model.IndexKindForeignKey, model.IndexKindPrimaryKey, model.IndexKindUnique, model.IndexKindFullText, model.IndexKindSpatial}[vsym.Pick("kind", kinds)]
	x := hlib.Idx{Kind: kind, Cols: hlib.On("c", "d", "e")[:1+vsym.Pick("columns", 3)]}
	if kind == model.IndexKindForeignKey {
		x.Ref = &hlib.Ref{Table: "u", Cols: hlib.On("f", "g", "h")[:vsym.Pick("referenced", 4)]}
	}
	m := hlib.BuildIdx(x, "t")
	n := 1
	if vsym.Thorough() {
		n += vsym.Pick("more", 2)
	}
	for i := 0; i < n; i++ {
		x = change(m, x, v)
	}
	hlib.SameIdx(hlib.ReadIdx(m), x, "index")
	k := m.Clone()
	hlib.SameIdx(hlib.ReadIdx(k), x, "clone of an index")
	vsym.Assert(k.ID() == m.ID(), "a clone has another ID")
	a, b := m, k
	if vsym.Pick("which", 2) == 0 {
		a, b = k, m
	}
	y := change(a, x, "y"+v)
	hlib.SameIdx(hlib.ReadIdx(a), y, "changed index")
	hlib.SameIdx(hlib.ReadIdx(b), x, "the index next to a changed one")
	if n == 1 && vsym.Pick("both", 2) == 1 {
		z := change(b, x, "z"+v)
		hlib.SameIdx(hlib.ReadIdx(a), y, "the index next to a changed one")
		hlib.SameIdx(hlib.ReadIdx(b), z, "changed index")
	}
	vsym.Reach("changed")
}

// H4Lookup: statements, indexes are found by their IDs, the first one if there are several, and IDs tell names and kinds apart.
func H4Lookup() {
	a, b := vsym.Str("a", 1+vsym.Pick("len a", 2)), vsym.Str("b", 1+vsym.Pick("len b", 2))
	vsym.Assume(a != b)
	l := model.Stmts{model.NewDatabase(a), model.NewTable(a), model.NewTableColumn(a), model.NewTable(b), model.NewTableColumn(b), model.NewDatabase(b), model.NewTable(a)}
	for i, s := range l {
		got, ok := l.Lookup(s.ID())
		if i == 6 {
			i = 1
		}
		vsym.Assert(ok && got == l[i], "looking a statement up gives another one")
	}
	_, ok := l.Lookup("table#" + a + b + a)
	vsym.Assert(!ok, "a statement that is not there is found")
	t := model.NewTable("t")
	var xs []model.Index
	for _, n := range []string{a, b} {
		x := model.NewIndex(model.IndexKindNormal, t.ID())
		x.SetName(n)
		x.AddColumns(model.NewIndexColumn("c"))
		t.AddIndex(x)
		xs = append(xs, x)
	}
	for _, x := range xs {
		got, ok := t.LookupIndex(x.ID())
		vsym.Assert(ok && got == x, "looking an index up gives another one")
	}
	x := model.NewIndex(model.IndexKindUnique, t.ID())
	x.SetName(a)
	x.AddColumns(model.NewIndexColumn("c"))
	_, ok = t.LookupIndex(x.ID())
	vsym.Assert(!ok, "an index that is not there is found")
	vsym.Reach("looked up")
}

// H5Normalised: a normalised table is another table: changing it, or what it was made from, does not affect the other.
func H5Normalised() {
	v := vsym.Str("v", 1)
	c := hlib.ColID("c")
	c.Null = model.NullStateNull
	d := hlib.ColID("d")
	d.Primary = true
	src := hlib.Table{Name: "t", Cols: []hlib.Col{c, d}, Idxs: []hlib.Idx{{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: hlib.On("c")},
		{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: hlib.On("c", "d"), Ref: &hlib.Ref{Table: "u", Cols: hlib.On("e", "f")}}},
		Opts: []hlib.Opt{{Key: "ENGINE", Val: "InnoDB"}}}
	m := hlib.Build(src)
	n, changed := m.Normalize()
	vsym.Assert(changed && n != m, "harness: nothing to normalise")
	norm := hlib.NormTable(src)
	hlib.SameTable(hlib.ReadTable(n), norm, "normalised table")
	a, b, wa, wb := m, n, src, norm
	if vsym.Pick("change", 2) == 0 {
		a, b, wa, wb = n, m, norm, src
	}
	switch vsym.Pick("how", 4) {
	case 0:
		e := hlib.ColID(v)
		vsym.Assume(v != "c" && v != "d")
		a.AddColumn(hlib.BuildCol(e))
		wa.Cols = append(append([]hlib.Col(nil), wa.Cols...), e)
	case 1:
		x := hlib.Idx{Kind: model.IndexKindUnique, HasName: true, Name: v, Cols: hlib.On("c")}
		a.AddIndex(hlib.BuildIdx(x, a.ID()))
		wa.Idxs = append(append([]hlib.Idx(nil), wa.Idxs...), x)
	case 2:
		a.AddOption(model.NewTableOption("COMMENT", v, true))
		wa.Opts = append(append([]hlib.Opt(nil), wa.Opts...), hlib.Opt{Key: "COMMENT", Val: v, Quoted: true})
	case 3: // a column that was rewritten
		i := 0
		for col := range a.Columns() {
			if i == 0 {
				col.SetComment(v)
				if col.HasLength() {
					col.Length().SetDecimal(v)
				}
			}
			i++
		}
		wa.Cols = append([]hlib.Col(nil), wa.Cols...)
		wa.Cols[0].HasCmt, wa.Cols[0].Cmt = true, v
		if wa.Cols[0].HasLen {
			wa.Cols[0].HasDec, wa.Cols[0].Dec = true, v
		}
	}
	hlib.SameTable(hlib.ReadTable(a), wa, "changed table")
	hlib.SameTable(hlib.ReadTable(b), wb, "the table next to a changed one")
	vsym.Reach("changed")
}

// H6Order: using a table in any way, any number of times, neither reorders nor loses what it holds.
func H6Order() {
	v := vsym.Str("v", 1)
	t := model.NewTable("t" + v)
	t.SetTemporary(vsym.Pick("temporary", 2) == 1)
	t.SetIfNotExists(vsym.Pick("if not exists", 2) == 1)
	if vsym.Thorough() && vsym.Pick("like", 2) == 1 {
		t.SetLikeTable(v)
	}
	kinds := []model.IndexKind{model.IndexKindNormal, model.IndexKindForeignKey, model.IndexKindPrimaryKey, model.IndexKindUnique, model.IndexKindFullText, model.IndexKindSpatial}
	var cols []model.TableColumn
	var idxs []model.Index
	var opts []model.TableOption
	for _, n := range []string{"z", "a", v + "m"} {
		c := model.NewTableColumn(n)
		if n == "a" {
			c.SetPrimary(vsym.Pick("primary", 2) == 1)
		}
		t.AddColumn(c)
		cols = append(cols, c)
	}
	for i := 0; i < 3; i++ {
		x := model.NewIndex(kinds[vsym.Pick("kind", len(kinds))], t.ID())
		x.SetName([]string{"y", v, "b"}[i])
		if i == 1 {
			x.SetSymbol("s")
		}
		x.AddColumns(model.NewIndexColumn([]string{"z", "a", "z"}[i]))
		if x.IsForeignKey() {
			r := model.NewReference()
			r.SetTableName("r")
			r.AddColumns(model.NewIndexColumn("q"))
			x.SetReference(r)
		}
		t.AddIndex(x)
		idxs = append(idxs, x)
	}
	for i, k := range []string{"ENGINE", "COMMENT", "CHARACTER SET"} {
		o := model.NewTableOption(k, v, i == 1)
		t.AddOption(o)
		opts = append(opts, o)
	}
	// The columns are those added, or copies of them; from here on they stay the same.
	i := 0
	for c := range t.Columns() {
		vsym.Assert(i < len(cols), "columns are invented")
		hlib.SameCol(hlib.ReadCol(c), hlib.ReadCol(cols[i]), "column")
		cols[i] = c
		i++
	}
	vsym.Assert(i == len(cols), "columns are lost")
	before := hlib.ReadTable(t)
	uses := 1
	if vsym.Thorough() {
		uses = 2
	}
	for u := 0; u < uses; u++ {
		switch vsym.Pick("use", 6) {
		case 0:
			t.Normalize()
		case 1:
			for x := range t.Indexes() {
				x.ID()
				x.Normalize()
				x.Clone()
			}
		case 2:
			for c := range t.Columns() {
				c.Normalize()
				c.Clone()
			}
		case 3:
			t.LookupIndex(idxs[2].ID())
			t.LookupIndex("none")
		case 4:
			t.LookupColumn(cols[2].ID())
			t.LookupColumnBefore(cols[2].ID())
			t.LookupColumnOrder(cols[2].ID())
		case 5:
			for range t.Indexes() {
				break
			}
			for range t.Columns() {
				break
			}
			for range t.Options() {
				break
			}
		}
	}
	for again := 0; again < 2; again++ {
		i = 0
		for c := range t.Columns() {
			vsym.Assert(i < len(cols) && c == cols[i], "iterating gives other columns, or in another order")
			i++
		}
		vsym.Assert(i == len(cols), "columns are lost")
		i = 0
		for x := range t.Indexes() {
			vsym.Assert(i < len(idxs) && x == idxs[i], "iterating gives other indexes, or in another order")
			i++
		}
		vsym.Assert(i == len(idxs), "indexes are lost")
		i = 0
		for o := range t.Options() {
			vsym.Assert(i < len(opts) && o == opts[i], "iterating gives other options, or in another order")
			i++
		}
		vsym.Assert(i == len(opts), "options are lost")
	}
	hlib.SameTable(hlib.ReadTable(t), before, "table that was only read")
	vsym.Reach("used")
}

// H7Twice: lookups agree with iteration even when several columns share a name.
func H7Twice() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	v := vsym.Str("v", 1)
	names := []string{"a", v, "c"}
	vsym.Assume(v != "a" && v != "c")
	t := model.NewTable("t")
	var want []string
	for i := 0; i < n; i++ {
		name := names[vsym.Pick("which name", len(names))]
		t.AddColumn(model.NewTableColumn(name))
		want = append(want, name)
	}
	var got []model.TableColumn
	for c := range t.Columns() {
		vsym.Assert(len(got) < n && c.Name() == want[len(got)], "iterating gives other columns")
		got = append(got, c)
	}
	vsym.Assert(len(got) == n, "columns are lost")
	for _, name := range names {
		there := false
		for _, w := range want {
			if w == name {
				there = true
			}
		}
		c, ok1 := t.LookupColumn(id(name))
		at, ok2 := t.LookupColumnOrder(id(name))
		b, ok3 := t.LookupColumnBefore(id(name))
		vsym.Assert(ok1 == there && ok2 == there, "a column is found that is not there, or not found though it is")
		if !there {
			vsym.Assert(!ok3, "there is a column before one that is not there")
			continue
		}
		vsym.Assert(at >= 0 && at < n && got[at] == c && want[at] == name, "the position of a column is not the one it has when iterating")
		if at == 0 {
			vsym.Assert(!ok3, "there is a column before the first one")
		} else {
			vsym.Assert(ok3 && b == got[at-1], "the column before another one is not the one it follows when iterating")
		}
	}
	vsym.Reach("looked up")
}

// H8Large: tables of many columns, clones of what is large.
func H8Large() {
	want := hlib.Many("c", hlib.Amount())
	at := hlib.Place("x", len(want))
	want[at].Name = "!" + hlib.Bytes("x", 1)
	t := model.NewTable("t")
	for _, c := range want {
		t.AddColumn(hlib.BuildCol(c))
	}
	books(t, want, []string{"zz"}, "many columns")
	vsym.Reach("many")
}
