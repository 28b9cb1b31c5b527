// Package c15: every table is dropped, created or altered exactly when needed.
package c15

import (
	"bytes"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// version makes a version of a table; different versions differ.
func version(name string, v int) hlib.Table {
	t := hlib.Table{Name: name, Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
	switch v {
	case 1:
		t.Cols[0].HasCmt, t.Cols[0].Cmt = true, "x;"
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: hlib.On("a")}, {Kind: model.IndexKindPrimaryKey, Cols: hlib.On("b")}}
		t.Opts = []hlib.Opt{{Key: "ENGINE", Val: "InnoDB"}}
	case 2:
		t.Cols = []hlib.Col{hlib.ColID("a")}
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "s", Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}}}
		t.IfNot = true
	case 3:
		t.Cols = []hlib.Col{hlib.ColID("c"), hlib.ColID("b"), hlib.ColID("d")}
	case 4:
		t.Cols[1].HasDef, t.Cols[1].Def = true, "1"
	case 5:
		t.Cols = t.Cols[:1]
	case 6:
		t.Cols = t.Cols[:1]
		t.Cols[0].Type = model.ColumnTypeBigInt
	}
	return t
}

func find(l []hlib.Table, name string) (hlib.Table, bool) {
	for _, t := range l {
		if vsym.StrEq(t.Name, name) {
			return t, true
		}
	}
	return hlib.Table{}, false
}

// check reads a migration and compares what it does to each table with what is needed.
func check(out string, from, to []hlib.Table) {
	l := hlib.ReadSQL(out, "migration")
	if len(out) > 0 {
		vsym.Assert(out[len(out)-1] == ';', "the migration does not end with its last statement")
		vsym.Assert(out[0] != ' ' && out[0] != '\n', "the migration does not start with its first statement")
	}
	phase := 0
	dropped, created, altered := map[string]int{}, map[string]int{}, map[string]int{}
	last, any := "", false
	for _, s := range l {
		_, old := find(from, s.Table)
		t, wanted := find(to, s.Table)
		switch s.Op {
		case "drop table":
			vsym.Assert(phase == 0, "a table is dropped after others are created or altered")
			vsym.Assert(old && !wanted, "a table is dropped that does not disappear")
			dropped[s.Table]++
			vsym.Assert(dropped[s.Table] == 1, "a table is dropped twice")
		case "create":
			vsym.Assert(phase <= 1, "a table is created after others are altered")
			phase = 1
			vsym.Assert(!old && wanted, "a table is created that does not appear")
			created[s.Table]++
			vsym.Assert(created[s.Table] == 1, "a table is created twice")
			hlib.SameTable(s.Def, hlib.NormTable(t), "created")
		case "begin", "commit", "checks 0", "checks 1":
			vsym.Assert(false, "a transaction nobody asked for")
		default:
			phase = 2
			vsym.Assert(old && wanted, "a table is altered that is not on both sides")
			if !any || !vsym.StrEq(s.Table, last) {
				altered[s.Table]++
				vsym.Assert(altered[s.Table] == 1, "a table is altered in two places")
			}
			last, any = s.Table, true
		}
	}
	for _, t := range from {
		if _, stays := find(to, t.Name); !stays {
			vsym.Assert(dropped[t.Name] == 1, "a table that disappears is not dropped")
		}
	}
	for _, t := range to {
		old, was := find(from, t.Name)
		if !was {
			vsym.Assert(created[t.Name] == 1, "a table that appears is not created")
			continue
		}
		same := hlib.AlikeTable(hlib.NormTable(old), hlib.NormTable(t))
		vsym.Assert((altered[t.Name] == 0) == same, "a table is altered although it did not change, or the other way round")
	}
	vsym.Reach("read")
}

func run(from, to []hlib.Table) {
	var buf bytes.Buffer
	err := diff.Strings(&buf, hlib.SQL(from...), hlib.SQL(to...))
	if err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	check(buf.String(), from, to)
}

func reverse(l []hlib.Table) {
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
}

func schemas(names []string, versions []int) {
	vsym.MapOrder(true)
	var side [2][]hlib.Table
	temp := vsym.Pick("temporary", len(names)+1)
	for i := range side {
		for k, n := range names {
			if v := vsym.Pick("table", len(versions)+1); v > 0 {
				t := version(n, versions[v-1])
				t.Temp = k+1 == temp
				side[i] = append(side[i], t)
			}
		}
	}
	if vsym.Pick("order", 2) == 1 {
		reverse(side[1])
	}
	run(side[0], side[1])
}

// H1Three: every two schemas of three tables with similar names in two versions.
func H1Three() {
	if vsym.Thorough() {
		schemas([]string{"a", "ab", "A"}, []int{5, 6, 2})
		return
	}
	schemas([]string{"a", "ab", "A"}, []int{5, 6})
}

// H2Versions: every two schemas of two tables with five versions.
func H2Versions() {
	if vsym.Thorough() {
		schemas([]string{"b`", "b"}, []int{0, 1, 2, 3, 4})
		return
	}
	schemas([]string{"b`", "b"}, []int{0, 1, 2})
}

// H3Names: tables of any name on either side.
func H3Names() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	a, b := vsym.Str("old", vsym.Pick("old len", n+1)), vsym.Str("new", vsym.Pick("new len", n+1))
	v := vsym.Pick("version", 2)
	vsym.Assume(a != "o" && b != "o")
	run([]hlib.Table{version("o", 0), version(a, 0)}, []hlib.Table{version(b, v), version("o", 0)})
}

// H4Full: complete definitions of created tables of all sorts.
func H4Full() {
	vsym.MapOrder(true)
	from := []hlib.Table{version("x", 0)}
	var to []hlib.Table
	if vsym.Pick("keep", 2) == 1 {
		to = append(to, version("x", vsym.Pick("version", 2)))
	}
	for _, n := range []string{"m", "n"} {
		var t hlib.Table
		switch vsym.Pick("table", 6) {
		case 0:
			continue
		case 1:
			t = hlib.FullTable(n)
		case 2:
			t = hlib.Table{Name: n, HasLike: true, Like: "x"}
		case 5:
			t = hlib.Table{Name: n, Temp: true, IfNot: n == "n", HasLike: true, Like: "x"}
		case 3:
			t = version(n, 2)
			t.Temp = true
		case 4:
			t = hlib.Table{Name: n, Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeInteger, Primary: true}, {Name: "e", Type: model.ColumnTypeSet, Set: []string{";", "'"}, Unique: true}}}
		}
		to = append(to, t)
	}
	if vsym.Pick("side", 2) == 1 {
		run(to, from)
		return
	}
	run(from, to)
}

// H5Large: many tables of which one differs, is new or goes, or most do.
func H5Large() {
	n := hlib.Amount()
	at := hlib.Place("x", n)
	what := vsym.Pick("what", 4)
	var from, to []hlib.Table
	for i := 0; i < n; i++ {
		name := "t" + hlib.Itoa(i)
		a, b := version(name, i%3), version(name, i%3)
		if i == at {
			b = version(name, 3)
		}
		if what < 3 || i == at {
			from = append(from, a)
		}
		if what < 2 || i != at {
			to = append(to, b)
		}
	}
	if what == 1 {
		to[at], to[0] = to[0], to[at]
	}
	if vsym.Pick("side", 2) == 1 {
		from, to = to, from
	}
	run(from, to)
	vsym.Reach("large")
}
