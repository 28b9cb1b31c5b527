// Package c14: migrating indexes yields exactly the new keys, in a safe order.
package c14

import (
	"bytes"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

func in(x hlib.Idx, l []hlib.Idx) bool {
	r := false
	for _, y := range l {
		r = vsym.Or(r, hlib.AlikeIdx(x, y))
	}
	return r
}

// migrate compares two tables, runs the migration and checks what it does and where it ends.
func migrate(old, new hlib.Table) {
	var buf bytes.Buffer
	err := diff.Statements(&buf, hlib.BuildAll([]hlib.Table{old}), hlib.BuildAll([]hlib.Table{new}))
	nameless := false // something without a name would have to be dropped
	for _, x := range old.Idxs {
		if _, named := hlib.KeyName(x); !named && x.Kind != model.IndexKindPrimaryKey && !in(x, new.Idxs) {
			nameless = true
		}
	}
	if err != nil {
		vsym.Assert(nameless, "cannot compare: "+err.Error())
		vsym.Assert(buf.Len() == 0, "an error and output")
		vsym.Reach("error")
		return
	}
	vsym.Assert(!nameless, "no error although a key cannot be dropped by name")
	l := hlib.ReadSQL(buf.String(), "migration")
	phase, lastFK, lastDrop := 0, -1, -1
	for i, s := range l {
		switch s.Op {
		case "drop foreign key", "drop index", "drop primary key":
			vsym.Assert(phase == 0, "a key is dropped after columns are touched or keys are added")
			if s.Op == "drop foreign key" {
				vsym.Assert(lastDrop < 0, "an index is dropped before a foreign key")
				lastFK = i
			} else {
				lastDrop = i
			}
		case "add column", "drop column", "change column":
			vsym.Assert(phase <= 1, "columns are touched after keys are added")
			phase = 1
		case "add index":
			phase = 2
			vsym.Assert(!in(s.Idx, old.Idxs), "a key is added that was there before")
			vsym.Assert(in(s.Idx, new.Idxs), "a key is added that is not wanted")
			if s.Idx.Kind == model.IndexKindForeignKey {
				for _, r := range l[i:] {
					vsym.Assert(r.Op != "add index" || r.Idx.Kind == model.IndexKindForeignKey, "an index is added after a foreign key")
				}
			}
		default:
			vsym.Assert(false, "unexpected statement: "+s.Op)
		}
	}
	_ = lastFK
	db := &hlib.DB{Tables: []hlib.Table{old}}
	db.Apply(l)
	got := db.Tables[0]
	hlib.SameKeys(got.Idxs, new.Idxs, "after the migration")
	vsym.Assert(len(got.Cols) == len(new.Cols), "columns differ after the migration")
	// what did not change is still the same object: it was not dropped on the way
	drops := 0
	for _, s := range l {
		if s.Op == "drop foreign key" || s.Op == "drop index" || s.Op == "drop primary key" {
			drops++
		}
	}
	kept := 0
	for _, x := range old.Idxs {
		if in(x, new.Idxs) {
			kept++
		}
	}
	vsym.Assert(drops == len(old.Idxs)-kept, "a key is dropped that did not change")
	vsym.Reach("migrated")
}

func table(l ...hlib.Idx) hlib.Table {
	return hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}, Idxs: l}
}

// index is an index with every part its kind may have.
func index(k model.IndexKind) hlib.Idx {
	x := hlib.Idx{Kind: k, Cols: []hlib.IdxCol{{Name: "a"}, {Name: "b", HasLen: true, Len: "4"}}}
	if k != model.IndexKindPrimaryKey {
		x.HasName, x.Name = true, "n"
	}
	switch k {
	case model.IndexKindForeignKey:
		x.HasSym, x.Sym = true, "s"
		x.Ref = &hlib.Ref{Table: "o", Cols: []hlib.IdxCol{{Name: "x"}, {Name: "y", HasLen: true, Len: "3"}}}
	case model.IndexKindFullText:
		x.HasParser, x.Parser = true, "p"
	}
	return x
}

// differences is the number of ways two indexes of a kind can differ.
const differences = 17

func change(x *hlib.Idx, n int) bool {
	fk := x.Kind == model.IndexKindForeignKey
	if x.Ref != nil {
		r := *x.Ref
		r.Cols = append([]hlib.IdxCol{}, r.Cols...)
		x.Ref = &r
	}
	x.Cols = append([]hlib.IdxCol{}, x.Cols...)
	switch n {
	case 0:
		return true
	case 1:
		x.Kind = hlib.Kinds[vsym.Pick("to kind", len(hlib.Kinds))]
		if x.Kind == model.IndexKindForeignKey && x.Ref == nil {
			x.Ref = &hlib.Ref{Table: "o", Cols: hlib.On("x")}
		}
		if x.Kind != model.IndexKindForeignKey {
			x.Ref = nil
		}
		if x.Kind != model.IndexKindFullText {
			x.HasParser, x.Parser = false, ""
		}
		if x.Kind == model.IndexKindPrimaryKey {
			x.HasName, x.Name = false, ""
		}
	case 2:
		x.Name += vsym.Str("name", 1)
		return x.HasName
	case 3:
		x.HasName, x.Name = false, ""
		return x.Kind != model.IndexKindPrimaryKey
	case 4:
		x.HasSym, x.Sym = true, vsym.Str("symbol", 1)
		return fk || x.Kind == model.IndexKindUnique || x.Kind == model.IndexKindPrimaryKey
	case 5:
		x.HasSym, x.Sym = false, ""
		return fk
	case 6:
		x.Type = []model.IndexType{model.IndexTypeBtree, model.IndexTypeHash}[vsym.Pick("using", 2)]
		return !fk && x.Kind != model.IndexKindFullText && x.Kind != model.IndexKindSpatial
	case 7:
		x.Cols = x.Cols[:1]
	case 8:
		x.Cols[0], x.Cols[1] = x.Cols[1], x.Cols[0]
	case 9:
		x.Cols[1].Len = hlib.Digits("prefix", 1)
	case 10:
		x.Cols[1].HasLen, x.Cols[1].Len = false, ""
	case 11:
		x.Cols[0].Dir = vsym.Pick("direction", 3)
	case 12:
		x.Parser = hlib.Bytes("parser", 1)
		if vsym.Pick("parser", 2) == 0 {
			x.HasParser, x.Parser = false, ""
		}
		return x.Kind == model.IndexKindFullText
	case 13:
		if fk {
			x.Ref.Table += vsym.Str("table", vsym.Pick("len", 2))
		}
		return fk
	case 14:
		if fk {
			switch vsym.Pick("referenced", 4) {
			case 0:
				x.Ref.Cols[0], x.Ref.Cols[1] = x.Ref.Cols[1], x.Ref.Cols[0]
			case 1:
				x.Ref.Cols[0].Name = vsym.Str("column", 1)
			case 2:
				x.Ref.Cols[0].Dir = vsym.Pick("direction", 3)
			case 3:
				x.Ref.Cols[1].Len = hlib.Digits("prefix", 1)
			}
		}
		return fk
	case 15:
		if fk {
			r := hlib.AnyRef("o", x.Ref.Cols)
			x.Ref = r
		}
		return fk
	case 16:
		x.Ref = nil
		return fk
	}
	return true
}

// H1Differences: an index of every kind and a variant of it that differs in any one respect, or does not.
func H1Differences() {
	x := index(hlib.Kinds[vsym.Pick("kind", len(hlib.Kinds))])
	y := x
	vsym.Assume(change(&y, vsym.Pick("difference", differences)))
	if vsym.Pick("direction", 2) == 0 {
		migrate(table(x), table(y))
	} else {
		migrate(table(y), table(x))
	}
}

// H2TwoDifferences: both sides differ from the same index, each in any one respect.
func H2TwoDifferences() {
	k := []model.IndexKind{model.IndexKindForeignKey, model.IndexKindUnique, model.IndexKindFullText}
	n := 1
	if vsym.Thorough() {
		n = 3
	}
	x := index(k[vsym.Pick("kind", n)])
	y := x
	a := vsym.Pick("difference", differences)
	b := vsym.Pick("difference", differences)
	vsym.Assume(a < b && a > 1 && (vsym.Thorough() || a != 15 && b != 15))
	vsym.Assume(change(&x, a))
	vsym.Assume(change(&y, b))
	migrate(table(x), table(y))
}

// H3Sets: any two sets of keys, over columns that appear and disappear, however collections are walked.
func H3Sets() {
	vsym.MapOrder(true)
	all := []hlib.Idx{
		{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "s", Cols: hlib.On("b"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}},
		{Kind: model.IndexKindNormal, HasName: true, Name: "s", Cols: hlib.On("b")},
		{Kind: model.IndexKindPrimaryKey, Cols: hlib.On("a")},
		{Kind: model.IndexKindUnique, HasSym: true, Sym: "u", Cols: hlib.On("c")},
		{Kind: model.IndexKindForeignKey, HasName: true, Name: "f", Cols: hlib.On("c"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}},
	}
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	var side [2]hlib.Table
	for i := range side {
		t := &side[i]
		t.Name, t.Cols = "t", []hlib.Col{hlib.ColID("a")}
		b := vsym.Pick("b", 2) == 1
		c := vsym.Pick("c", 2) == 1
		if b {
			t.Cols = append(t.Cols, hlib.ColID("b"))
		}
		if c {
			t.Cols = append(t.Cols, hlib.ColID("c"))
		}
		for _, x := range all[:n] {
			if x.Cols[0].Name == "b" && !b || x.Cols[0].Name == "c" && !c {
				continue
			}
			if vsym.Pick("key", 2) == 1 {
				t.Idxs = append(t.Idxs, x)
			}
		}
	}
	migrate(side[0], side[1])
}

// H4Names: keys told apart by an arbitrary text at any one place.
func H4Names() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	v, w := vsym.Str("old", vsym.Pick("old len", n+1)), vsym.Str("new", vsym.Pick("new len", n+1))
	place := vsym.Pick("place", 9)
	var side [2]hlib.Table
	for i, s := range []string{v, w} {
		x := index(model.IndexKindForeignKey)
		cols := []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}
		switch place {
		case 0:
			x.Sym = s
		case 1:
			x.Name = s
		case 2:
			x.Ref.Table = s
		case 3:
			x.Ref.Cols[0].Name = s
		case 4:
			x.Ref.Cols[1].Name = s
		case 5:
			x = index(model.IndexKindFullText)
			x.Parser = s
		case 6:
			x = index(model.IndexKindUnique)
			x.HasName, x.Name, x.HasSym, x.Sym = false, "", true, s
		case 7:
			x = index(model.IndexKindNormal)
			x.Name = s
		case 8:
			// columns by one name and by two
			x = index(model.IndexKindNormal)
			x.Cols = hlib.On("a", "b")
			if i == 1 {
				x.Cols = hlib.On(s)
				vsym.Assume(s != "a" && s != "b")
				cols = append(cols, hlib.ColID(s))
			}
		}
		side[i] = hlib.Table{Name: "t", Cols: cols, Idxs: []hlib.Idx{x}}
	}
	migrate(side[0], side[1])
}

// H5Parsed: the same through the parser: an implied index goes with its foreign key.
func H5Parsed() {
	vsym.MapOrder(true)
	var side [2]hlib.Table
	for i := range side {
		t := &side[i]
		*t = hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
		switch vsym.Pick("inline", 3) {
		case 1:
			t.Cols[0].Primary = true
		case 2:
			t.Cols[0].Unique = true
		}
		if vsym.Pick("foreign key", 2) == 1 {
			t.Idxs = append(t.Idxs, hlib.Idx{Kind: model.IndexKindForeignKey, HasSym: true, Sym: []string{"a", "s"}[vsym.Pick("symbol", 2)], Cols: hlib.On("a"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("x")}})
		}
		if vsym.Pick("index", 2) == 1 {
			t.Idxs = append(t.Idxs, hlib.Idx{Kind: model.IndexKindNormal, HasName: true, Name: "s", Cols: hlib.On([]string{"a", "b"}[vsym.Pick("on", 2)])})
		}
	}
	old, new := hlib.NormTable(side[0]), hlib.NormTable(side[1])
	var buf bytes.Buffer
	if err := diff.Strings(&buf, hlib.SQL(side[0]), hlib.SQL(side[1])); err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	db := &hlib.DB{Tables: []hlib.Table{old}}
	db.Apply(hlib.ReadSQL(buf.String(), "migration"))
	hlib.SameKeys(db.Tables[0].Idxs, new.Idxs, "after the migration")
	vsym.Reach("migrated")
}

// H6Near: rich keys become others: any two parts changed, or one on either side.
func H6Near() {
	var from, to []hlib.Idx
	switch vsym.Pick("way", 3) {
	case 0:
		from, to = (&hlib.Near{}).Idxs(), (&hlib.Near{Left: 2}).Idxs()
	case 1:
		from, to = (&hlib.Near{Left: 2}).Idxs(), (&hlib.Near{}).Idxs()
	case 2:
		from, to = (&hlib.Near{Left: 1, Tag: "from "}).Idxs(), (&hlib.Near{Left: 1, Tag: "to "}).Idxs()
	}
	var side [2]hlib.Table
	for i, l := range [][]hlib.Idx{from, to} {
		for j, x := range l { // keys of a table have different names
			for _, y := range l[:j] {
				vsym.Assume(x.Kind != model.IndexKindPrimaryKey || y.Kind != model.IndexKindPrimaryKey)
				a, named := hlib.KeyName(x)
				b, other := hlib.KeyName(y)
				vsym.Assume(!named || !other || a != b)
			}
		}
		side[i] = hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b"), hlib.ColID("c")}, Idxs: l}
	}
	migrate(side[0], side[1])
}

// H7Whole: columns and keys, inline or not, change together, through the parser: the plain rich table
// becomes one with any two parts changed, or the other way round.
func H7Whole() {
	from, to := (&hlib.Near{}).Table("t"), (&hlib.Near{Left: 2, Wide: vsym.Thorough(), Tag: "to "}).Table("t")
	if vsym.Pick("side", 2) == 1 {
		from, to = to, from
	}
	src, dst := hlib.SQL(from), hlib.SQL(to)
	old, new := hlib.NormTable(from), hlib.NormTable(to)
	for _, t := range []hlib.Table{old, new} {
		for j, x := range t.Idxs { // keys of a table have different names
			for _, y := range t.Idxs[:j] {
				vsym.Assume(x.Kind != model.IndexKindPrimaryKey || y.Kind != model.IndexKindPrimaryKey)
				a, named := hlib.KeyName(x)
				b, other := hlib.KeyName(y)
				fk := x.Kind == model.IndexKindForeignKey
				vsym.Assume(fk != (y.Kind == model.IndexKindForeignKey) || !named || !other || a != b)
			}
		}
	}
	nameless := false // something without a name would have to be dropped
	for _, x := range old.Idxs {
		if _, named := hlib.KeyName(x); !named && x.Kind != model.IndexKindPrimaryKey && !in(x, new.Idxs) {
			nameless = true
		}
	}
	var buf bytes.Buffer
	if err := diff.Strings(&buf, src, dst); err != nil {
		vsym.Assert(nameless, "cannot compare: "+err.Error())
		vsym.Assert(buf.Len() == 0, "an error and output")
		vsym.Reach("error")
		return
	}
	vsym.Assert(!nameless, "no error although a key cannot be dropped by name")
	db := &hlib.DB{Tables: []hlib.Table{old}}
	db.Apply(hlib.ReadSQL(buf.String(), "migration"))
	hlib.SameKeys(db.Tables[0].Idxs, new.Idxs, "after the migration")
	got := db.Tables[0].Cols
	vsym.Assert(len(got) == len(new.Cols), "after the migration there are other columns")
	for i := range got {
		hlib.SameCol(got[i], new.Cols[i], "after the migration: column "+hlib.Itoa(i))
	}
	vsym.Reach("migrated")
}

// H8Large: long lists of keys that differ at some place, or everywhere.
func H8Large() {
	from, to := hlib.Change()
	vsym.Assume(len(from.Idxs)+len(to.Idxs) > 0)
	migrate(from, to)
}
