// Package hlib holds what the harnesses share: descriptions of schemas that are independent of the
// code under analysis, a writer of scripts, a reader of SQL, the reference normalisation and a
// reference interpreter of migrations.
package hlib

import (
	"strconv"

	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// Col describes a column.
type Col struct {
	Name      string
	Type      model.ColumnType
	HasLen    bool
	Len       string
	HasDec    bool
	Dec       string
	Unsigned  bool
	Zerofill  bool
	Binary    bool
	HasCS     bool
	CS        string
	HasColl   bool
	Coll      string
	Enum      []string
	Set       []string
	Null      model.NullState
	HasDef    bool
	Def       string
	DefQuoted bool
	HasOnUpd  bool
	OnUpd     string
	AutoInc   bool
	Unique    bool
	Key       bool
	Primary   bool
	HasCmt    bool
	Cmt       string
}

// IdxCol is a column of an index: Dir is 0, 1 (ascending) or 2 (descending).
type IdxCol struct {
	Name   string
	HasLen bool
	Len    string
	Dir    int
}

// Ref describes a reference: the match and actions are the numbers of the model.
type Ref struct {
	Table    string
	Cols     []IdxCol
	Match    model.ReferenceMatch
	OnDelete model.ReferenceOption
	OnUpdate model.ReferenceOption
}

// Idx describes an index or constraint.
type Idx struct {
	Kind      model.IndexKind
	HasSym    bool
	Sym       string
	HasName   bool
	Name      string
	Type      model.IndexType
	Cols      []IdxCol
	HasParser bool
	Parser    string
	Ref       *Ref
}

// Opt is a table option.
type Opt struct {
	Key, Val string
	Quoted   bool
}

// Table describes a CREATE TABLE statement.
type Table struct {
	Name    string
	Temp    bool
	IfNot   bool
	HasLike bool
	Like    string
	Cols    []Col
	Idxs    []Idx
	Opts    []Opt
}

// ReadCol describes what the accessors of a column say.
func ReadCol(c model.TableColumn) Col {
	var r Col
	r.Name = c.Name()
	r.Type = c.Type()
	if c.HasLength() {
		r.HasLen = true
		l := c.Length()
		r.Len = l.Length()
		if l.HasDecimal() {
			r.HasDec = true
			r.Dec = l.Decimal()
		}
	}
	r.Unsigned = c.IsUnsigned()
	r.Zerofill = c.IsZeroFill()
	r.Binary = c.IsBinary()
	if c.HasCharacterSet() {
		r.HasCS, r.CS = true, c.CharacterSet()
	}
	if c.HasCollation() {
		r.HasColl, r.Coll = true, c.Collation()
	}
	if c.HasEnumValues() {
		for v := range c.EnumValues() {
			r.Enum = append(r.Enum, v)
		}
	}
	if c.HasSetValues() {
		for v := range c.SetValues() {
			r.Set = append(r.Set, v)
		}
	}
	r.Null = c.NullState()
	if c.HasDefault() {
		r.HasDef, r.Def, r.DefQuoted = true, c.Default(), c.IsQuotedDefault()
	}
	if c.HasAutoUpdate() {
		r.HasOnUpd, r.OnUpd = true, c.AutoUpdate()
	}
	r.AutoInc = c.IsAutoIncrement()
	r.Unique = c.IsUnique()
	r.Key = c.IsKey()
	r.Primary = c.IsPrimary()
	if c.HasComment() {
		r.HasCmt, r.Cmt = true, c.Comment()
	}
	return r
}

func readIdxCols(cc model.ColumnContainer) []IdxCol {
	var out []IdxCol
	for c := range cc.Columns() {
		var r IdxCol
		r.Name = c.Name()
		if c.HasLength() {
			r.HasLen, r.Len = true, c.Length()
		}
		if c.HasSortDirection() {
			vsym.Assert(c.IsAscending() != c.IsDescending(), "a sort direction is both or neither of ascending and descending")
			r.Dir = 1
			if c.IsDescending() {
				r.Dir = 2
			}
		} else {
			vsym.Assert(!c.IsAscending() && !c.IsDescending(), "no sort direction, but ascending or descending")
		}
		out = append(out, r)
	}
	return out
}

// ReadIdx describes what the accessors of an index say.
func ReadIdx(x model.Index) Idx {
	var r Idx
	kinds := 0
	k := func(is bool, kind model.IndexKind) {
		if is {
			kinds++
			r.Kind = kind
		}
	}
	k(x.IsPrimaryKey(), model.IndexKindPrimaryKey)
	k(x.IsNormal(), model.IndexKindNormal)
	k(x.IsUnique(), model.IndexKindUnique)
	k(x.IsFullText(), model.IndexKindFullText)
	k(x.IsSpatial(), model.IndexKindSpatial)
	k(x.IsForeignKey(), model.IndexKindForeignKey)
	vsym.Assert(kinds == 1, "an index is of "+strconv.Itoa(kinds)+" kinds")
	if x.HasSymbol() {
		r.HasSym, r.Sym = true, x.Symbol()
	}
	if x.HasName() {
		r.HasName, r.Name = true, x.Name()
	}
	switch {
	case x.IsBtree():
		r.Type = model.IndexTypeBtree
	case x.IsHash():
		r.Type = model.IndexTypeHash
	}
	vsym.Assert(x.HasType() == (r.Type != model.IndexTypeNone), "HasType disagrees with the index type")
	r.Cols = readIdxCols(x)
	for o := range x.Options() {
		if o.Key() == "WITH PARSER" && !r.HasParser {
			r.HasParser, r.Parser = true, o.Value()
		} else {
			vsym.Assert(false, "unexpected index option "+o.Key())
		}
	}
	if f := x.Reference(); f != nil {
		ref := &Ref{Table: f.TableName(), Cols: readIdxCols(f), OnDelete: f.OnDelete(), OnUpdate: f.OnUpdate()}
		switch {
		case f.MatchFull():
			ref.Match = model.ReferenceMatchFull
		case f.MatchPartial():
			ref.Match = model.ReferenceMatchPartial
		case f.MatchSimple():
			ref.Match = model.ReferenceMatchSimple
		}
		r.Ref = ref
	}
	return r
}

// ReadTable describes what the accessors of a table say.
func ReadTable(t model.Table) Table {
	var r Table
	r.Name = t.Name()
	r.Temp = t.IsTemporary()
	r.IfNot = t.IsIfNotExists()
	if t.HasLikeTable() {
		r.HasLike, r.Like = true, t.LikeTable()
	}
	for c := range t.Columns() {
		r.Cols = append(r.Cols, ReadCol(c))
	}
	for x := range t.Indexes() {
		r.Idxs = append(r.Idxs, ReadIdx(x))
	}
	for o := range t.Options() {
		r.Opts = append(r.Opts, Opt{o.Key(), o.Value(), o.NeedQuotes()})
	}
	return r
}

// ReadTables describes the tables among statements; anything else is a failure.
func ReadTables(l model.Stmts) []Table {
	var out []Table
	for _, s := range l {
		t, ok := s.(model.Table)
		vsym.Assert(ok, "a statement that is not a table")
		out = append(out, ReadTable(t))
	}
	return out
}

func maybe(has bool, v string) string {
	if !has {
		return ""
	}
	return v
}

func eqs(a, b string, what string) { vsym.Assert(vsym.StrEq(a, b), what+" differs") }

func eqb(a, b bool, what string) { vsym.Assert(a == b, what+" differs") }

func eqStrs(a, b []string, what string) {
	vsym.Assert(len(a) == len(b), what+": "+strconv.Itoa(len(a))+" instead of "+strconv.Itoa(len(b)))
	for i := range a {
		eqs(a[i], b[i], what+" "+strconv.Itoa(i))
	}
}

// SameCol asserts that got is want.
func SameCol(got, want Col, what string) {
	what += ": "
	eqs(got.Name, want.Name, what+"name")
	vsym.Assert(got.Type == want.Type, what+"type differs")
	eqb(got.HasLen, want.HasLen, what+"presence of a length")
	eqs(got.Len, want.Len, what+"length")
	eqb(got.HasDec, want.HasDec, what+"presence of decimals")
	eqs(got.Dec, want.Dec, what+"decimals")
	eqb(got.Unsigned, want.Unsigned, what+"sign")
	eqb(got.Zerofill, want.Zerofill, what+"zerofill")
	eqb(got.Binary, want.Binary, what+"binary")
	eqb(got.HasCS, want.HasCS, what+"presence of a character set")
	eqs(got.CS, want.CS, what+"character set")
	eqb(got.HasColl, want.HasColl, what+"presence of a collation")
	eqs(got.Coll, want.Coll, what+"collation")
	eqStrs(got.Enum, want.Enum, what+"enum values")
	eqStrs(got.Set, want.Set, what+"set values")
	vsym.Assert(got.Null == want.Null, what+"nullability differs")
	eqb(got.HasDef, want.HasDef, what+"presence of a default")
	eqs(got.Def, want.Def, what+"default")
	eqb(got.DefQuoted, want.DefQuoted, what+"quoting of the default")
	eqb(got.HasOnUpd, want.HasOnUpd, what+"presence of ON UPDATE")
	eqs(got.OnUpd, want.OnUpd, what+"ON UPDATE")
	eqb(got.AutoInc, want.AutoInc, what+"AUTO_INCREMENT")
	eqb(got.Unique, want.Unique, what+"UNIQUE")
	eqb(got.Key, want.Key, what+"KEY")
	eqb(got.Primary, want.Primary, what+"PRIMARY KEY")
	eqb(got.HasCmt, want.HasCmt, what+"presence of a comment")
	eqs(got.Cmt, want.Cmt, what+"comment")
}

func sameIdxCols(got, want []IdxCol, what string) {
	vsym.Assert(len(got) == len(want), what+": number of columns differs")
	for i := range got {
		w := what + " column " + strconv.Itoa(i)
		eqs(got[i].Name, want[i].Name, w+" name")
		eqb(got[i].HasLen, want[i].HasLen, w+" presence of a prefix length")
		eqs(got[i].Len, want[i].Len, w+" prefix length")
		vsym.Assert(got[i].Dir == want[i].Dir, w+" direction differs")
	}
}

// SameIdx asserts that got is want.
func SameIdx(got, want Idx, what string) {
	vsym.Assert(got.Kind == want.Kind, what+": kind differs")
	eqb(got.HasSym, want.HasSym, what+": presence of a symbol")
	eqs(got.Sym, want.Sym, what+": symbol")
	eqb(got.HasName, want.HasName, what+": presence of a name")
	eqs(got.Name, want.Name, what+": name")
	vsym.Assert(got.Type == want.Type, what+": index type differs")
	sameIdxCols(got.Cols, want.Cols, what)
	eqb(got.HasParser, want.HasParser, what+": presence of a parser")
	eqs(got.Parser, want.Parser, what+": parser")
	eqb(got.Ref != nil, want.Ref != nil, what+": presence of a reference")
	if got.Ref != nil {
		eqs(got.Ref.Table, want.Ref.Table, what+": referenced table")
		sameIdxCols(got.Ref.Cols, want.Ref.Cols, what+" reference")
		vsym.Assert(got.Ref.Match == want.Ref.Match, what+": match differs")
		vsym.Assert(got.Ref.OnDelete == want.Ref.OnDelete, what+": ON DELETE differs")
		vsym.Assert(got.Ref.OnUpdate == want.Ref.OnUpdate, what+": ON UPDATE differs")
	}
}

// SameTable asserts that got is want.
func SameTable(got, want Table, what string) {
	eqs(got.Name, want.Name, what+": table name")
	eqb(got.Temp, want.Temp, what+": TEMPORARY")
	eqb(got.IfNot, want.IfNot, what+": IF NOT EXISTS")
	eqb(got.HasLike, want.HasLike, what+": presence of LIKE")
	eqs(got.Like, want.Like, what+": LIKE")
	vsym.Assert(len(got.Cols) == len(want.Cols), what+": "+strconv.Itoa(len(got.Cols))+" columns instead of "+strconv.Itoa(len(want.Cols)))
	for i := range got.Cols {
		SameCol(got.Cols[i], want.Cols[i], what+": column "+strconv.Itoa(i))
	}
	vsym.Assert(len(got.Idxs) == len(want.Idxs), what+": "+strconv.Itoa(len(got.Idxs))+" indexes instead of "+strconv.Itoa(len(want.Idxs)))
	for i := range got.Idxs {
		SameIdx(got.Idxs[i], want.Idxs[i], what+": index "+strconv.Itoa(i))
	}
	vsym.Assert(len(got.Opts) == len(want.Opts), what+": "+strconv.Itoa(len(got.Opts))+" options instead of "+strconv.Itoa(len(want.Opts)))
	for i := range got.Opts {
		w := what + ": option " + strconv.Itoa(i)
		eqs(got.Opts[i].Key, want.Opts[i].Key, w+" key")
		eqs(got.Opts[i].Val, want.Opts[i].Val, w+" value")
		eqb(got.Opts[i].Quoted, want.Opts[i].Quoted, w+" quoting")
	}
}

// SameTables asserts that got is want, in order.
func SameTables(got, want []Table, what string) {
	vsym.Assert(len(got) == len(want), what+": "+strconv.Itoa(len(got))+" tables instead of "+strconv.Itoa(len(want)))
	for i := range got {
		SameTable(got[i], want[i], what+": table "+strconv.Itoa(i))
	}
}
