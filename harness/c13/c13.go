// Package c13: migrating columns yields exactly the new column list.
package c13

import (
	"bytes"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// migrate compares two lists of columns, runs the migration and checks what it does and where it ends.
func migrate(from, to []hlib.Col) {
	old, new := hlib.Table{Name: "t", Cols: from}, hlib.Table{Name: "t", Cols: to}
	var buf bytes.Buffer
	if err := diff.Strings(&buf, hlib.SQL(old), hlib.SQL(new)); err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	old, new = hlib.NormTable(old), hlib.NormTable(new)
	l := hlib.ReadSQL(buf.String(), "migration")
	// nothing is touched that does not change, and nothing twice
	for i, s := range l {
		var name string
		switch s.Op {
		case "add column":
			name = s.Col.Name
			_, was := find(old.Cols, name)
			_, is := find(new.Cols, name)
			vsym.Assert(!was && is, "a column is added that does not appear")
		case "drop column":
			name = s.Name
			_, was := find(old.Cols, name)
			_, is := find(new.Cols, name)
			vsym.Assert(was && !is, "a column is dropped that does not disappear")
		case "change column":
			name = s.Name
			a, was := find(old.Cols, name)
			b, is := find(new.Cols, name)
			vsym.Assert(was && is, "a column is changed that is not in both tables")
			vsym.Assert(!hlib.EqCol(a, b), "a column is changed that did not change")
		default:
			vsym.Assert(false, "not a statement about columns: "+s.Op)
		}
		for _, r := range l[:i] {
			vsym.Assert(!vsym.StrEq(name, r.Name+r.Col.Name) || r.Op == "change column" || s.Op == "change column", "a column is touched twice")
		}
	}
	db := &hlib.DB{Tables: []hlib.Table{old}}
	db.Apply(l)
	got := db.Tables[0].Cols
	vsym.Assert(len(got) == len(new.Cols), "the migration ends with "+hlib.Itoa(len(got))+" columns instead of "+hlib.Itoa(len(new.Cols)))
	if ordered(old.Cols, new.Cols) {
		for i := range got {
			hlib.SameCol(got[i], new.Cols[i], "column "+hlib.Itoa(i)+" after the migration")
		}
		vsym.Reach("ordered")
	} else {
		for _, c := range got {
			w, ok := find(new.Cols, c.Name)
			vsym.Assert(ok, "a column is left that is not wanted")
			hlib.SameCol(c, w, "a column after the migration")
		}
		vsym.Reach("reordered")
	}
}

func find(l []hlib.Col, name string) (hlib.Col, bool) {
	for _, c := range l {
		if vsym.StrEq(c.Name, name) {
			return c, true
		}
	}
	return hlib.Col{}, false
}

// ordered says whether the columns in both lists are in the same order.
func ordered(a, b []hlib.Col) bool {
	at := 0
	for _, c := range a {
		for i, d := range b {
			if vsym.StrEq(c.Name, d.Name) {
				if i < at {
					return false
				}
				at = i
			}
		}
	}
	return true
}

// permute puts a list in an arbitrary order.
func permute(l []hlib.Col) []hlib.Col {
	var out []hlib.Col
	l = append([]hlib.Col{}, l...)
	for len(l) > 0 {
		i := 0
		if len(l) > 1 {
			i = vsym.Pick("next", len(l))
		}
		out = append(out, l[i])
		l = append(l[:i], l[i+1:]...)
	}
	return out
}

// lists makes any two lists of columns of the given names: each in one of the ways 0 only old,
// 1 only new, 2 both, 3 both and changed, 4 neither; the old in the given order, the new in any.
func lists(names []string, ways int, any bool) {
	var from, to []hlib.Col
	for _, n := range names {
		c := hlib.ColID(n)
		switch vsym.Pick("column", ways) {
		case 0:
			from = append(from, c)
		case 1:
			to = append(to, c)
		case 2:
			from = append(from, c)
			to = append(to, c)
		case 3:
			from = append(from, c)
			c.Type, c.Len, c.Unsigned = model.ColumnTypeBigInt, "20", true
			to = append(to, c)
		}
	}
	vsym.Assume(len(from) > 0 && len(to) > 0)
	if any {
		to = permute(to)
	}
	migrate(from, to)
}

// H1Lists: every two lists of up to three columns, in every order, some of them changed.
func H1Lists() {
	vsym.MapOrder(true)
	lists([]string{"b", "a", "c"}, 4, true)
}

// H9Similar: columns whose names are much alike.
func H9Similar() {
	all := [][]string{{"a", "a_", "A"}, {"a", "ab", "b"}, {"a", " a", "a "}, {"`", "``", "```"}, {"a", "a,", "a;"}, {"1", "10", "01"}, {"first", "after", "x"}, {"tablecol", "tablecol#a", "a"}, {"e", "é", "e'"}, {"\\", "\\\\", "\\`"}}
	lists(all[vsym.Pick("names", len(all))], 4, true)
}

// H2Longer: every two lists of more columns, unchanged, in every order, walked in one order.
func H2Longer() {
	if vsym.Thorough() {
		lists([]string{"c", "e", "b", "a", "d"}, 3, true)
		return
	}
	lists([]string{"c", "d", "b", "a"}, 3, true)
}

// H8LongRuns: the same with more columns, walked in one order.
func H8LongRuns() {
	names := []string{"d", "b", "e", "a", "c", "g", "f"}
	if vsym.Thorough() {
		names = append(names, "i", "h")
	}
	runs(names)
}

// H3Runs: runs of new columns between old ones, with internal collections walked in every order.
func H3Runs() {
	vsym.MapOrder(true)
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	runs([]string{"d", "b", "e", "a", "c"}[:n])
}

func runs(names []string) {
	var from, to []hlib.Col
	for _, x := range names {
		c := hlib.ColID(x)
		to = append(to, c)
		if vsym.Pick("old", 2) == 1 {
			from = append(from, c)
		}
	}
	vsym.Assume(len(from) > 0)
	if vsym.Pick("other way", 2) == 1 {
		migrate(to, from)
		return
	}
	migrate(from, to)
}

// H4Changes: a column of any type, size and flags becomes another.
func H4Changes() {
	var l [2]hlib.Col
	for i := range l {
		t := hlib.Types[[]int{4, 10, 18, 29}[vsym.Pick("type", 4)]]
		c := &l[i]
		c.Name = "c"
		hlib.AnySize(c, t, 1)
		if i == 1 {
			hlib.AnyFlags(c, t)
			hlib.AnyNull(c)
		}
	}
	z := hlib.ColID("z")
	migrate([]hlib.Col{l[0], z}, []hlib.Col{l[1], z})
}

// H5Attributes: any one other attribute changes.
func H5Attributes() {
	var l [2]hlib.Col
	t := []model.ColumnType{model.ColumnTypeInt, model.ColumnTypeTimestamp}[vsym.Pick("type", 2)]
	part := vsym.Pick("part", 4)
	for i := range l {
		c := &l[i]
		c.Name, c.Type = "c", t
		switch part {
		case 0:
			hlib.AnyNull(c)
			hlib.AnyDefault(c)
		case 1:
			c.HasCmt = vsym.Pick("comment", 2) == 1
			if c.HasCmt {
				c.Cmt = hlib.Bytes("comment", vsym.Pick("len", 2))
			}
		case 2:
			c.AutoInc = vsym.Pick("auto increment", 2) == 1
		case 3:
			if vsym.Pick("on update", 2) == 1 {
				c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
			}
		}
	}
	migrate([]hlib.Col{hlib.ColID("z"), l[0]}, []hlib.Col{hlib.ColID("z"), l[1]})
}

// H6Names: columns of arbitrary names, some of which may be the same on both sides.
func H6Names() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	side := func(tag string) []hlib.Col {
		var out []hlib.Col
		for k := 1 + vsym.Pick(tag+" columns", 2); k > 0; k-- {
			c := hlib.ColID(vsym.Str(tag, n))
			for _, d := range out {
				vsym.Assume(c.Name != d.Name)
			}
			out = append(out, c)
		}
		return out
	}
	migrate(side("old"), side("new"))
}

// H7Near: a rich list of columns becomes one with any two parts changed, or the other way round; and any
// list with one part changed becomes another.
func H7Near() {
	var from, to []hlib.Col
	switch vsym.Pick("way", 3) {
	case 0:
		from, to = (&hlib.Near{}).Cols(), (&hlib.Near{Left: 2, Wide: vsym.Thorough()}).Cols()
	case 1:
		from, to = (&hlib.Near{Left: 2, Wide: vsym.Thorough()}).Cols(), (&hlib.Near{}).Cols()
	case 2:
		from, to = (&hlib.Near{Left: 1, Tag: "from "}).Cols(), (&hlib.Near{Left: 1, Tag: "to "}).Cols()
	}
	for _, l := range [][]hlib.Col{from, to} {
		for i := range l { // the keys columns stand for are not of interest here
			l[i].Primary, l[i].Unique, l[i].Key = false, false, false
		}
	}
	migrate(from, to)
}

// HALarge: long lists of columns that differ at some place, or everywhere.
func HALarge() {
	from, to := hlib.Change()
	migrate(from.Cols, to.Cols)
}
