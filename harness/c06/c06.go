// Package c06: indexes and foreign keys are read faithfully.
package c06

import (
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

func parse(src string) hlib.Table {
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	l := hlib.ReadTables(stmts)
	vsym.Assert(len(l) == 1, "not one table")
	return l[0]
}

var col = hlib.Col{Name: "x", Type: model.ColumnTypeDate, Null: model.NullStateNotNull}
var last = hlib.Idx{Kind: model.IndexKindUnique, HasName: true, Name: "u", Cols: []hlib.IdxCol{{Name: "y", Dir: 2}}}

func check(src string, x hlib.Idx) {
	got := parse(src)
	want := hlib.NormTable(hlib.Table{Name: "t", Cols: []hlib.Col{col}, Idxs: []hlib.Idx{x, last}})
	hlib.SameTable(got, want, "parsed")
	vsym.Reach("parsed")
}

// wrap puts an index between a column and another index.
func wrap(def func(s *hlib.Script)) *hlib.Script {
	s := &hlib.Script{}
	s.K("CREATE", "TABLE")
	s.W("t")
	s.P("(")
	s.WriteCol(col)
	s.P(",")
	def(s)
	s.P(",")
	s.WriteIdx(last)
	s.P(")")
	return s
}

// columns adds a list of 1 to max columns.
func columns(s *hlib.Script, tag string, max int) []hlib.IdxCol {
	var out []hlib.IdxCol
	n := 1 + vsym.Pick(tag+" columns", max)
	s.P("(")
	for i := 0; i < n; i++ {
		if i > 0 {
			s.P(",")
		}
		var c hlib.IdxCol
		var tok hlib.Tok
		if i == 0 {
			c.Name, tok = hlib.Name(tag, 1)
			s.T(tok)
		} else {
			c.Name = "c"
			s.W("c")
		}
		if vsym.Pick("prefix", 2) == 1 {
			c.HasLen, c.Len = true, hlib.Digits("prefix length", 1)
			s.P("(")
			s.W(c.Len)
			s.P(")")
		}
		c.Dir = vsym.Pick("direction", 3)
		switch c.Dir {
		case 1:
			s.K("ASC")
		case 2:
			s.K("DESC")
		}
		out = append(out, c)
	}
	s.P(")")
	return out
}

// head adds CONSTRAINT, the kind, and the name.
func head(s *hlib.Script, x *hlib.Idx) {
	kinds := []model.IndexKind{model.IndexKindPrimaryKey, model.IndexKindUnique, model.IndexKindForeignKey, model.IndexKindNormal, model.IndexKindFullText, model.IndexKindSpatial}
	k := vsym.Pick("kind", len(kinds))
	x.Kind = kinds[k]
	if k < 3 {
		switch vsym.Pick("constraint", 3) {
		case 1:
			s.K("CONSTRAINT")
		case 2:
			s.K("CONSTRAINT")
			var tok hlib.Tok
			x.HasSym = true
			x.Sym, tok = hlib.Name("symbol", 1)
			s.T(tok)
		}
	}
	noise := func() {
		switch vsym.Pick("word", 3) {
		case 1:
			s.K("KEY")
		case 2:
			s.K("INDEX")
		}
	}
	switch x.Kind {
	case model.IndexKindPrimaryKey:
		s.K("PRIMARY", "KEY")
	case model.IndexKindUnique:
		s.K("UNIQUE")
		noise()
	case model.IndexKindForeignKey:
		s.K("FOREIGN", "KEY")
	case model.IndexKindNormal:
		s.K([]string{"KEY", "INDEX"}[vsym.Pick("word", 2)])
	case model.IndexKindFullText:
		s.K("FULLTEXT")
		noise()
	case model.IndexKindSpatial:
		s.K("SPATIAL")
		noise()
	}
	if vsym.Pick("named", 2) == 1 {
		var tok hlib.Tok
		x.HasName = true
		x.Name, tok = hlib.Name("name", 1)
		s.T(tok)
	}
}

func using(s *hlib.Script, x *hlib.Idx) {
	x.Type = model.IndexTypeBtree
	if vsym.Pick("algorithm", 2) == 1 {
		x.Type = model.IndexTypeHash
		s.K("USING", "HASH")
		return
	}
	s.K("USING", "BTREE")
}

// H1Kinds: every kind of index, with and without symbol, name, index type and parser.
func H1Kinds() {
	var x hlib.Idx
	s := wrap(func(s *hlib.Script) {
		head(s, &x)
		typed := x.Kind != model.IndexKindFullText && x.Kind != model.IndexKindSpatial && x.Kind != model.IndexKindForeignKey
		where := 0
		if typed {
			where = vsym.Pick("using", 3)
		}
		if where == 1 {
			using(s, &x)
		}
		s.P("(")
		s.W("a")
		s.P(",")
		s.Q("b")
		s.P(")")
		x.Cols = []hlib.IdxCol{{Name: "a"}, {Name: "b"}}
		if where == 2 {
			using(s, &x)
		}
		if x.Kind == model.IndexKindFullText && vsym.Pick("parser", 2) == 1 {
			var tok hlib.Tok
			s.K("WITH", "PARSER")
			x.HasParser = true
			x.Parser, tok = hlib.Name("parser", 1)
			s.T(tok)
		}
		if x.Kind == model.IndexKindForeignKey {
			x.Ref = &hlib.Ref{Table: "r", Cols: []hlib.IdxCol{{Name: "d"}}}
			s.WriteRef(x.Ref)
		}
	})
	check(s.Styled(), x)
}

// H2Columns: every list of columns with prefix lengths and directions, in every kind of list.
func H2Columns() {
	var x hlib.Idx
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	s := wrap(func(s *hlib.Script) {
		switch vsym.Pick("list", 6) {
		case 0:
			x.Kind = model.IndexKindNormal
			s.K("KEY")
			x.Cols = columns(s, "column", max)
		case 1:
			x.Kind = model.IndexKindPrimaryKey
			s.K("PRIMARY", "KEY")
			x.Cols = columns(s, "column", max)
		case 2:
			x.Kind = model.IndexKindFullText
			s.K("FULLTEXT")
			x.Cols = columns(s, "column", max)
		case 3:
			x.Kind = model.IndexKindSpatial
			s.K("SPATIAL")
			x.Cols = columns(s, "column", max)
		case 4:
			x.Kind = model.IndexKindForeignKey
			s.K("CONSTRAINT")
			s.W("f")
			x.HasSym, x.Sym = true, "f"
			s.K("FOREIGN", "KEY")
			x.Cols = columns(s, "column", max)
			x.Ref = &hlib.Ref{Table: "r", Cols: []hlib.IdxCol{{Name: "d"}}}
			s.WriteRef(x.Ref)
		case 5:
			x.Kind = model.IndexKindForeignKey
			x.Cols = []hlib.IdxCol{{Name: "d"}}
			s.K("FOREIGN", "KEY")
			s.P("(")
			s.W("d")
			s.P(")")
			s.K("REFERENCES")
			s.W("r")
			x.Ref = &hlib.Ref{Table: "r", Cols: columns(s, "column", max)}
		}
	})
	check(s.Tight(1), x)
}

// H3References: every reference clause.
func H3References() {
	x := hlib.Idx{Kind: model.IndexKindForeignKey, Cols: []hlib.IdxCol{{Name: "a"}}}
	s := wrap(func(s *hlib.Script) {
		if vsym.Pick("symbol", 2) == 1 {
			s.K("CONSTRAINT")
			s.W("f")
			x.HasSym, x.Sym = true, "f"
		}
		s.K("FOREIGN", "KEY")
		s.P("(")
		s.W("a")
		s.P(")")
		if vsym.Pick("reference", 2) == 0 {
			return
		}
		r := &hlib.Ref{Cols: []hlib.IdxCol{{Name: "b"}, {Name: "c"}}}
		var tok hlib.Tok
		s.K("REFERENCES")
		r.Table, tok = hlib.Name("table", 1)
		s.T(tok)
		s.P("(")
		s.W("b")
		s.P(",")
		s.W("c")
		s.P(")")
		switch vsym.Pick("match", 4) {
		case 1:
			s.K("MATCH", "FULL")
			r.Match = model.ReferenceMatchFull
		case 2:
			s.K("MATCH", "PARTIAL")
			r.Match = model.ReferenceMatchPartial
		case 3:
			s.K("MATCH", "SIMPLE")
			r.Match = model.ReferenceMatchSimple
		}
		action := func(tag string) model.ReferenceOption {
			n := vsym.Pick(tag, 5)
			if n == 0 {
				return model.ReferenceOptionNone
			}
			s.K("ON", tag)
			switch n {
			case 1:
				s.K("RESTRICT")
				return model.ReferenceOptionRestrict
			case 2:
				s.K("CASCADE")
				return model.ReferenceOptionCascade
			case 3:
				s.K("SET", "NULL")
				return model.ReferenceOptionSetNull
			}
			s.K("NO", "ACTION")
			return model.ReferenceOptionNoAction
		}
		r.OnDelete = action("DELETE")
		r.OnUpdate = action("UPDATE")
		x.Ref = r
	})
	check(s.Styled(), x)
}

// H4Layout: indexes with every part, with every separator at every place.
func H4Layout() {
	var x hlib.Idx
	s := wrap(func(s *hlib.Script) {
		switch vsym.Pick("index", 5) {
		case 0:
			x = hlib.Idx{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "s", HasName: true, Name: "n", Cols: []hlib.IdxCol{{Name: "a", HasLen: true, Len: "3", Dir: 2}, {Name: "b"}},
				Ref: &hlib.Ref{Table: "r", Cols: []hlib.IdxCol{{Name: "d", Dir: 1}}, Match: model.ReferenceMatchFull, OnDelete: model.ReferenceOptionSetNull, OnUpdate: model.ReferenceOptionNoAction}}
		case 1:
			x = hlib.Idx{Kind: model.IndexKindFullText, HasName: true, Name: "n", Cols: []hlib.IdxCol{{Name: "a"}}, HasParser: true, Parser: "p"}
		case 2:
			x = hlib.Idx{Kind: model.IndexKindPrimaryKey, HasSym: true, Sym: "s", Type: model.IndexTypeHash, Cols: []hlib.IdxCol{{Name: "a", Dir: 1}}}
		case 3:
			x = hlib.Idx{Kind: model.IndexKindNormal, HasName: true, Name: "n", Type: model.IndexTypeBtree, Cols: []hlib.IdxCol{{Name: "a", HasLen: true, Len: "10", Dir: 1}}}
		case 4:
			x = hlib.Idx{Kind: model.IndexKindSpatial, HasName: true, Name: "n", Cols: []hlib.IdxCol{{Name: "a"}, {Name: "b"}}}
		}
		s.WriteIdx(x)
	})
	check(s.Anywhere(), x)
}

// H5Implied: the index a foreign key with a symbol implies, unless it is declared anywhere.
func H5Implied() {
	t := hlib.Table{Name: "t", Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeInt, HasLen: true, Len: "1", Null: model.NullStateNotNull}, {Name: "b", Type: model.ColumnTypeInt, HasLen: true, Len: "1", Null: model.NullStateNotNull}}}
	names := []string{"a", "b", "f"}
	if vsym.Pick("unique", 2) == 1 {
		t.Cols[vsym.Pick("which", 2)].Unique = true
	}
	n := 1 + vsym.Pick("indexes", 3)
	for i := 0; i < n; i++ {
		x := hlib.Idx{Cols: []hlib.IdxCol{{Name: names[vsym.Pick("on", 2)]}}}
		k := vsym.Pick("kind", 3)
		switch k {
		case 0:
			x.Kind = model.IndexKindForeignKey
			x.Ref = &hlib.Ref{Table: "r", Cols: []hlib.IdxCol{{Name: "d"}}}
			x.HasSym, x.Sym = true, names[vsym.Pick("symbol", 3)]
		case 1:
			x.Kind = model.IndexKindNormal
			x.HasName, x.Name = true, names[vsym.Pick("name", 3)]
		case 2:
			x.Kind = model.IndexKindForeignKey
			x.Ref = &hlib.Ref{Table: "r", Cols: []hlib.IdxCol{{Name: "d"}}}
			x.HasName, x.Name = true, names[vsym.Pick("name", 3)]
		}
		t.Idxs = append(t.Idxs, x)
	}
	// one symbol names one foreign key
	for i, x := range t.Idxs {
		for _, y := range t.Idxs[:i] {
			vsym.Assume(!(x.HasSym && y.HasSym && x.Sym == y.Sym))
		}
	}
	got := parse(hlib.SQL(t))
	hlib.SameTable(got, hlib.NormTable(t), "parsed")
	vsym.Reach("parsed")
}

// H6Near: rich indexes with any two (deep: three) parts changed.
func H6Near() {
	n := &hlib.Near{Left: 2}
	if vsym.Thorough() {
		n.Left = 3
	}
	t := hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b"), hlib.ColID("c")}, Idxs: n.Idxs()}
	hlib.SameTable(parse(hlib.SQL(t)), hlib.NormTable(t), "parsed")
	vsym.Reach("near")
}

// H7Large: tables that are large in any one way.
func H7Large() {
	t := hlib.LargeTable("t")
	hlib.SameTable(parse(hlib.SQL(t)), hlib.NormTable(t), "parsed")
	vsym.Reach("large")
}
