// Package c11: equivalent spellings of a schema compare as equal, different schemas do not.
package c11

import (
	"bytes"

	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// compare asserts that the migration between two scripts is empty exactly if the tables they describe
// have the same normal form.
func compare(a, b string, ta, tb hlib.Table) {
	var buf bytes.Buffer
	err := diff.Strings(&buf, a, b)
	same := hlib.AlikeTable(hlib.NormTable(ta), hlib.NormTable(tb))
	if err != nil {
		vsym.Assert(!same, "spellings of the same schema are not comparable: "+err.Error())
		return
	}
	vsym.Assert((buf.Len() == 0) == same, "spellings "+a+" and "+b+": migration "+buf.String())
	if buf.Len() == 0 {
		vsym.Reach("same")
	} else {
		vsym.Reach("different")
	}
}

func tables(ta, tb hlib.Table) { compare(hlib.SQL(ta), hlib.SQL(tb), ta, tb) }

func columns(a, b hlib.Col) {
	tables(hlib.Table{Name: "t", Cols: []hlib.Col{a, hlib.ColID("z")}}, hlib.Table{Name: "t", Cols: []hlib.Col{b, hlib.ColID("z")}})
}

// size gives a column a type and a size that matters.
func size(c *hlib.Col, t hlib.TypeName) {
	c.Type = t.Type
	hlib.Fix(c)
	switch t.Size {
	case 1:
		if n := vsym.Pick("size", 3); n > 0 {
			c.HasLen, c.Len = true, hlib.Digits("len", n)
		}
	case 2:
		if vsym.Pick("size", 2) == 1 {
			c.HasLen, c.Len, c.HasDec, c.Dec = true, hlib.Digits("len", 1), true, hlib.Digits("dec", 1)
		}
	case 3:
		if n := vsym.Pick("size", 4); n > 0 {
			c.HasLen, c.Len = true, hlib.Digits("len", 1)
			if n == 2 {
				c.Len += "0"
			}
			if n > 1 {
				c.HasDec, c.Dec = true, hlib.Digits("dec", 1)
			}
		}
	}
	if t.Num {
		c.Unsigned = vsym.Pick("unsigned", 2) == 1
	}
}

// H1Types: every two types with every two sizes and signs.
func H1Types() {
	a, b := hlib.Col{Name: "c"}, hlib.Col{Name: "c"}
	ta := hlib.AnyType()
	tb := hlib.AnyType()
	if !vsym.Thorough() {
		// types of the same family
		family := func(t hlib.TypeName) int { return t.Size*4 + len(t.Name)*0 }
		vsym.Assume(ta.Num == tb.Num && ta.Char == tb.Char && family(ta) == family(tb) || ta.Num && tb.Size == 0)
	}
	size(&a, ta)
	size(&b, tb)
	columns(a, b)
}

func def(c *hlib.Col, n int) {
	if vsym.Thorough() {
		n++
	}
	switch k := vsym.Pick("default", 8); k {
	case 0:
	case 1:
		c.HasDef, c.Def, c.DefQuoted = true, hlib.Bytes("text", vsym.Pick("len", n+1)), true
	case 2:
		c.HasDef, c.Def = true, hlib.Digits("number", 1)
	case 3:
		c.HasDef, c.Def = true, "-"+hlib.Digits("number", 1)
	case 4:
		c.HasDef, c.Def = true, "NULL"
	case 5:
		c.HasDef, c.Def = true, "TRUE"
	case 6:
		c.HasDef, c.Def = true, "FALSE"
	case 7:
		c.HasDef, c.Def = true, "CURRENT_TIMESTAMP"
	}
}

// H2Defaults: every two ways to give (or not) a default and nullability, on every type.
func H2Defaults() {
	t := hlib.AnyType().Type
	if !vsym.Thorough() {
		// one of each family
		switch t {
		case model.ColumnTypeInt, model.ColumnTypeDecimal, model.ColumnTypeFloat, model.ColumnTypeBit, model.ColumnTypeTimestamp,
			model.ColumnTypeChar, model.ColumnTypeLongText, model.ColumnTypeBlob, model.ColumnTypeEnum, model.ColumnTypeJSON:
		default:
			vsym.Assume(false)
		}
	}
	a, b := hlib.Col{Name: "c", Type: t}, hlib.Col{Name: "c", Type: t}
	hlib.Fix(&a)
	hlib.Fix(&b)
	hlib.AnyNull(&a)
	def(&a, 2)
	hlib.AnyNull(&b)
	def(&b, 1)
	columns(a, b)
}

// H3Booleans: the boolean types and literals against the numbers they stand for.
func H3Booleans() {
	var l [2]hlib.Col
	for i := range l {
		c := &l[i]
		c.Name = "c"
		c.Type = []model.ColumnType{model.ColumnTypeBool, model.ColumnTypeBoolean, model.ColumnTypeTinyInt, model.ColumnTypeInt}[vsym.Pick("type", 4)]
		if (c.Type == model.ColumnTypeTinyInt || c.Type == model.ColumnTypeInt) && vsym.Pick("size", 2) == 1 {
			c.HasLen, c.Len = true, hlib.Digits("len", 1)
		}
		hlib.AnyNull(c)
		def(c, 1-i)
	}
	columns(l[0], l[1])
}

// keys adds up to n keys, inline or not.
func keys(t *hlib.Table, n int) {
	for i := range t.Cols {
		switch vsym.Pick("inline", 4) {
		case 1:
			t.Cols[i].Primary = true
		case 2:
			t.Cols[i].Unique = true
		case 3:
			t.Cols[i].Primary, t.Cols[i].Unique = true, true
		}
	}
	for k := vsym.Pick("keys", n+1); k > 0; k-- {
		var x hlib.Idx
		x.Cols = hlib.On([]string{"a", "b"}[vsym.Pick("on", 2)])
		switch vsym.Pick("key", 4) {
		case 0:
			x.Kind = model.IndexKindPrimaryKey
		case 1:
			x.Kind, x.HasName, x.Name = model.IndexKindUnique, true, x.Cols[0].Name
		case 2:
			x.Kind, x.HasName, x.Name = model.IndexKindNormal, true, "a"
		case 3:
			x.Kind, x.HasName, x.Name, x.Cols[0].Dir = model.IndexKindUnique, true, "a", vsym.Pick("direction", 3)
		}
		// one key of a kind on a column
		for _, y := range t.Idxs {
			vsym.Assume(y.Kind != x.Kind || y.Cols[0].Name != x.Cols[0].Name)
		}
		for _, c := range t.Cols {
			vsym.Assume(!(c.Primary && x.Kind == model.IndexKindPrimaryKey && c.Name == x.Cols[0].Name))
			vsym.Assume(!(c.Unique && x.Kind == model.IndexKindUnique && c.Name == x.Cols[0].Name))
		}
		t.Idxs = append(t.Idxs, x)
	}
}

// H4Inline: keys declared with the column or on their own.
func H4Inline() {
	var l [2]hlib.Table
	for i := range l {
		t := &l[i]
		a := hlib.Col{Name: "a", Type: model.ColumnTypeInt, Null: model.NullStateNotNull}
		t.Name, t.Cols = "t", []hlib.Col{a}
		n := 2 - i
		if vsym.Thorough() {
			n = 2
		}
		keys(t, n)
		t.Cols = append(t.Cols, hlib.ColID("b"))
		if i == 1 && vsym.Pick("order", 2) == 1 {
			for x, y := 0, len(t.Idxs)-1; x < y; x, y = x+1, y-1 {
				t.Idxs[x], t.Idxs[y] = t.Idxs[y], t.Idxs[x]
			}
		}
	}
	tables(l[0], l[1])
}

// H5Implied: the index a named foreign key implies, spelled out or not, anywhere among the indexes.
func H5Implied() {
	var l [2]hlib.Table
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	for i := range l {
		t := &l[i]
		*t = hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a"), hlib.ColID("b")}}
		on := hlib.On("a")
		var used [4]bool
		for k := vsym.Pick("indexes", max+1); k > 0; k-- {
			n := vsym.Pick("index", 4)
			vsym.Assume(!used[n])
			used[n] = true
			x := hlib.Idx{Cols: on}
			switch n {
			case 0:
				x.Kind, x.HasSym, x.Sym, x.Ref = model.IndexKindForeignKey, true, "s", &hlib.Ref{Table: "o", Cols: hlib.On("x")}
			case 1: // what it implies, or not quite
				x.Kind, x.HasName, x.Name = model.IndexKindNormal, true, "s"
				switch vsym.Pick("differs", 4) {
				case 1:
					x.Cols = hlib.On("b")
				case 2:
					x.Kind = model.IndexKindUnique
				case 3:
					x.Cols = []hlib.IdxCol{{Name: "a", Dir: 1}}
				}
			case 2: // another name
				x.Kind, x.HasName, x.Name = model.IndexKindNormal, true, "r"
			case 3:
				x.Kind, x.HasName, x.Name, x.HasSym, x.Sym = model.IndexKindUnique, true, "q", true, "s2"
			}
			t.Idxs = append(t.Idxs, x)
		}
	}
	tables(l[0], l[1])
}

// H6Layout: the same table in any layout.
func H6Layout() {
	t := hlib.FullTable("t")
	if vsym.Pick("parts", 2) == 0 {
		t.Cols, t.Idxs = t.Cols[:3], t.Idxs[:1]
	} else {
		t.Cols, t.Opts = t.Cols[3:], nil
		t.Idxs = t.Idxs[3:]
	}
	s := &hlib.Script{}
	s.WriteTable(t)
	s.P(";")
	other := s.Anywhere()
	if vsym.Pick("side", 2) == 0 {
		compare(s.Plain(), other, t, t)
	} else {
		compare(other, s.Plain(), t, t)
	}
}

// H7Parts: any two variants of any other part of a column.
func H7Parts() {
	var l [2]hlib.Col
	t := hlib.Types[[]int{4, 18, 29, 14, 11}[vsym.Pick("host", 5)]]
	part := vsym.Pick("part", 5)
	for i := range l {
		c := &l[i]
		c.Name, c.Type, c.Null = "c", t.Type, model.NullStateNotNull
		switch part {
		case 0:
			hlib.Fix(c)
			hlib.AnyFlags(c, t)
		case 1:
			if t.Size != 4 {
				vsym.Assume(t.Size == 1 && t.Type != model.ColumnTypeTimestamp)
				c.HasLen, c.Len = true, hlib.Digits("len", 2)
			} else {
				hlib.AnySize(c, t, 2)
			}
		case 2:
			hlib.Fix(c)
			c.HasCmt = vsym.Pick("comment", 2) == 1
			if c.HasCmt {
				c.Cmt = hlib.Bytes("comment", vsym.Pick("len", 3))
			}
		case 3:
			hlib.Fix(c)
			c.AutoInc = vsym.Pick("auto increment", 2) == 1
			if vsym.Pick("on update", 2) == 1 {
				c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
			}
		case 4:
			hlib.Fix(c)
			c.HasColl, c.Coll = t.Char, ""
			if t.Char {
				c.Coll = hlib.Bytes("coll", 1)
			}
			c.HasCS = t.Char
			if t.Char {
				c.CS = hlib.Bytes("cs", 1)
			}
		}
	}
	columns(l[0], l[1])
}

// H8Near: a rich table and what it is normalised to, and the plain rich table against any other one (deep: with two parts changed).
func H8Near() {
	n := &hlib.Near{Left: 2, Wide: vsym.Thorough()}
	if vsym.Pick("against", 2) == 0 {
		t := n.Table("t")
		for i := range t.Idxs { // two keys of a kind on a column, one of them inline, are not told apart
			for _, c := range t.Cols {
				x := t.Idxs[i]
				vsym.Assume(!(c.Primary && x.Kind == model.IndexKindPrimaryKey) && !(c.Unique && x.Kind == model.IndexKindUnique))
			}
		}
		compare(hlib.SQL(t), hlib.SQL(hlib.NormTable(t)), t, t)
		return
	}
	if !vsym.Thorough() {
		n.Left = 1
	}
	a := (&hlib.Near{}).Table("t")
	b := n.Table("t")
	if vsym.Pick("side", 2) == 0 {
		a, b = b, a
	}
	tables(a, b)
}

// H9Numbers: widths left out or given, signs, filled with zeros or not, of every numeric type.
func H9Numbers() {
	t := hlib.AnyType()
	vsym.Assume(t.Num)
	var l [2]hlib.Col
	for i := range l {
		c := &l[i]
		c.Name, c.Type, c.Null = "c", t.Type, model.NullStateNotNull
		c.Unsigned, c.Zerofill = vsym.Pick("unsigned", 2) == 1, vsym.Pick("zerofill", 2) == 1
		if i == 1 && (t.Size == 1 || t.Size == 3) {
			if n := vsym.Pick("size", 3); n > 0 {
				c.HasLen, c.Len = true, hlib.Digits("len", n)
			}
		}
	}
	columns(l[0], l[1])
}

// HAQuoted: defaults in quotes and without, on every type.
func HAQuoted() {
	t := hlib.AnyType().Type
	var l [2]hlib.Col
	for i := range l {
		c := &l[i]
		c.Name, c.Type = "c", t
		hlib.Fix(c)
		c.HasDef = true
		switch vsym.Pick("default", 3) {
		case 0:
			c.Def = hlib.Digits("number", 1)
		case 1:
			c.Def, c.DefQuoted = hlib.Digits("number", 1), true
		case 2:
			c.Def, c.DefQuoted = hlib.Digits("number", 1)+".5", vsym.Pick("quoted", 2) == 1
		}
	}
	columns(l[0], l[1])
}

// HBLarge: tables that are large in any one way and what they are normalised to, or with something
// changed at some place.
func HBLarge() {
	if vsym.Pick("changed", 2) == 1 {
		tables(hlib.Change())
		return
	}
	t := hlib.LargeTable("t")
	compare(hlib.SQL(t), hlib.SQL(hlib.NormTable(t)), t, t)
}
