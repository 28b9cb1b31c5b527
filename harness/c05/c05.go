// Package c05: column definitions are read faithfully.
package c05

import (
	"strings"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// parse reads the script, which must be one table.
func parse(src string) hlib.Table {
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	l := hlib.ReadTables(stmts)
	vsym.Assert(len(l) == 1, "not one table")
	return l[0]
}

var before = hlib.Col{Name: "x", Type: model.ColumnTypeDate, Null: model.NullStateNotNull}
var after = hlib.Col{Name: "y", Type: model.ColumnTypeInt, HasLen: true, Len: "7", HasCmt: true, Cmt: "c", Null: model.NullStateNotNull}

// check parses a table of three columns, the middle one given, and compares.
func check(src string, c hlib.Col) {
	got := parse(src)
	want := hlib.NormTable(hlib.Table{Name: "t", Cols: []hlib.Col{before, c, after}})
	hlib.SameTable(got, want, "parsed")
	vsym.Observe("def", got.Cols[1].Def)
}

func wrap(def func(s *hlib.Script)) *hlib.Script {
	s := &hlib.Script{}
	s.K("CREATE", "TABLE")
	s.W("t")
	s.P("(")
	s.WriteCol(before)
	s.P(",")
	def(s)
	s.P(",")
	s.WriteCol(after)
	s.P(")")
	return s
}

// size adds a length and notes it.
func size(s *hlib.Script, t hlib.TypeName, c *hlib.Col) {
	form := 0 // none, (n), (m,d)
	switch t.Size {
	case 1:
		form = vsym.Pick("size", 2)
	case 2:
		form = 2 * vsym.Pick("size", 2)
	case 3:
		form = vsym.Pick("size", 3)
	case 4:
		var vals []string
		n := 1 + vsym.Pick("values", 2)
		s.P("(")
		for i := 0; i < n; i++ {
			if i > 0 {
				s.P(",")
			}
			v, tok := hlib.Lit("value", 1)
			s.T(tok)
			vals = append(vals, v)
		}
		s.P(")")
		if t.Type == model.ColumnTypeEnum {
			c.Enum = vals
		} else {
			c.Set = vals
		}
		return
	}
	if form == 0 {
		return
	}
	c.HasLen = true
	c.Len = hlib.Digits("len", 2)
	s.P("(")
	s.W(c.Len)
	if form == 2 {
		c.HasDec = true
		c.Dec = hlib.Digits("dec", 1)
		s.P(",")
		s.W(c.Dec)
	}
	s.P(")")
}

// H1Types: every type with every size form, sign, zero fill, binary, character set and collation.
func H1Types() {
	t := hlib.Types[vsym.Pick("type", len(hlib.Types))]
	c := hlib.Col{Name: "c", Type: t.Type}
	s := wrap(func(s *hlib.Script) {
		s.W("c")
		s.K(t.Name)
		size(s, t, &c)
		if t.Num {
			if vsym.Pick("unsigned", 2) == 1 {
				c.Unsigned = true
				s.K("UNSIGNED")
			}
			if vsym.Pick("zerofill", 2) == 1 {
				c.Zerofill = true
				s.K("ZEROFILL")
			}
		}
		if t.Char && vsym.Pick("binary", 2) == 1 {
			c.Binary = true
			s.K("BINARY")
		}
		if t.Char || t.Size == 4 {
			switch vsym.Pick("charset", 3) {
			case 1:
				s.K("CHARACTER", "SET")
				c.HasCS, c.CS = true, name(s, "cs")
			case 2:
				s.K("COLLATE")
				c.HasColl, c.Coll = true, name(s, "coll")
			}
		}
		if vsym.Pick("null", 2) == 1 {
			s.K("NOT", "NULL")
			c.Null = model.NullStateNotNull
		}
	})
	check(s.Styled(), c)
	vsym.Reach("parsed")
}

// name adds a character set or collation name.
func name(s *hlib.Script, tag string) string {
	switch vsym.Pick(tag+" form", 4) {
	case 0:
		w := hlib.Word(tag, 1)
		s.W(w)
		return w
	case 1:
		v := hlib.Bytes(tag, 1)
		s.Q(v)
		return v
	case 2:
		v, t := hlib.Lit(tag, 1)
		s.T(t)
		return v
	}
	s.W("binary")
	return "binary"
}

const attrs = 13

// attr adds the n-th attribute. key groups attributes that exclude each other.
func attr(s *hlib.Script, n int, c *hlib.Col) (key int) {
	switch n {
	case 0:
		s.K("NOT", "NULL")
		c.Null = model.NullStateNotNull
		return 0
	case 1:
		s.K("NULL")
		c.Null = model.NullStateNull
		return 0
	case 2:
		s.K("DEFAULT")
		v, t := hlib.Lit("default", 1)
		s.T(t)
		c.HasDef, c.Def, c.DefQuoted = true, v, true
		return 1
	case 3:
		s.K("DEFAULT")
		d := hlib.Digits("number", 1)
		num := d
		switch vsym.Pick("number form", 4) {
		case 1:
			num = "-" + d
		case 2:
			num = d + "." + d
		case 3:
			num = d + "E+" + d
		}
		s.W(num)
		c.HasDef, c.Def = true, num
		return 1
	case 4:
		k := []string{"NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP"}[vsym.Pick("constant", 4)]
		s.K("DEFAULT", k)
		c.HasDef, c.Def = true, k
		return 1
	case 5:
		s.K("DEFAULT")
		s.T(hlib.Tok{S: "NOW", Kw: true, Word: true, Glue: true})
		s.P("(", ")")
		c.HasDef, c.Def = true, "NOW()"
		return 1
	case 6:
		s.K("AUTO_INCREMENT")
		c.AutoInc = true
		return 2
	case 7:
		s.K("UNIQUE")
		if vsym.Pick("key", 2) == 1 {
			s.K("KEY")
		}
		c.Unique = true
		return 3
	case 8:
		s.K("PRIMARY", "KEY")
		c.Primary = true
		return 4
	case 9:
		s.K("KEY")
		c.Key = true
		return 5
	case 10:
		s.K("COMMENT")
		v := hlib.Bytes("comment", 1)
		s.L(v)
		c.HasCmt, c.Cmt = true, v
		return 6
	case 11:
		s.K("ON", "UPDATE", "CURRENT_TIMESTAMP")
		c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
		return 7
	}
	s.K("DEFAULT")
	w := hlib.Word("word", 1)
	s.W(w)
	c.HasDef, c.Def, c.DefQuoted = true, w, true
	return 1
}

var hosts = []int{4, 18, 14} // INT, VARCHAR, TIMESTAMP

// H2Attributes: every sequence of attributes, in any order, on a number, a string and a time.
func H2Attributes() {
	t := hlib.Types[hosts[vsym.Pick("host", len(hosts))]]
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	n := vsym.Pick("attributes", max+1)
	c := hlib.Col{Name: "c", Type: t.Type}
	s := wrap(func(s *hlib.Script) {
		s.W("c")
		s.K(t.Name)
		seen := map[int]bool{}
		for i := 0; i < n; i++ {
			k := vsym.Pick("attribute", attrs)
			g := attr(s, k, &c)
			vsym.Assume(!seen[g])
			// UNIQUE KEY would be read as UNIQUE followed by its own KEY
			vsym.Assume(!(g == 5 && seen[3]))
			seen[g] = true
		}
	})
	check(s.Tight(n%2), c)
	vsym.Reach("parsed")
}

// full is a column with every attribute that goes together.
func full(s *hlib.Script, char bool) hlib.Col {
	c := hlib.Col{Name: "c"}
	s.W("c")
	if char {
		s.K("VARCHAR")
		s.P("(")
		s.W("20")
		s.P(")")
		s.K("BINARY", "CHARACTER", "SET")
		s.W("utf8")
		s.K("COLLATE")
		s.W("utf8_bin")
		s.K("NOT", "NULL", "DEFAULT")
		s.L("it's")
		s.K("UNIQUE", "KEY", "COMMENT")
		s.L("say \"x\"")
		c.Type, c.HasLen, c.Len, c.Binary, c.HasCS, c.CS, c.HasColl, c.Coll = model.ColumnTypeVarChar, true, "20", true, true, "utf8", true, "utf8_bin"
		c.Null, c.HasDef, c.Def, c.DefQuoted, c.Unique, c.HasCmt, c.Cmt = model.NullStateNotNull, true, "it's", true, true, true, "say \"x\""
		return c
	}
	s.K("DECIMAL")
	s.P("(")
	s.W("10")
	s.P(",")
	s.W("2")
	s.P(")")
	s.K("UNSIGNED", "ZEROFILL", "ON", "UPDATE", "CURRENT_TIMESTAMP", "DEFAULT")
	s.T(hlib.Tok{S: "NOW", Kw: true, Word: true, Glue: true})
	s.P("(", ")")
	s.K("NULL", "AUTO_INCREMENT", "PRIMARY", "KEY", "COMMENT")
	s.L("")
	c.Type, c.HasLen, c.Len, c.HasDec, c.Dec, c.Unsigned, c.Zerofill = model.ColumnTypeDecimal, true, "10", true, "2", true, true
	c.HasOnUpd, c.OnUpd, c.HasDef, c.Def, c.Null, c.AutoInc, c.Primary, c.HasCmt = true, "CURRENT_TIMESTAMP", true, "NOW()", model.NullStateNull, true, true, true
	return c
}

// H3Layout: a column with all attributes, with every separator at every place.
func H3Layout() {
	var c hlib.Col
	s := wrap(func(s *hlib.Script) { c = full(s, vsym.Pick("char", 2) == 1) })
	check(s.Anywhere(), c)
	vsym.Reach("parsed")
}

// H4Normalised: the documented normal form of defaults on every type.
func H4Normalised() {
	t := hlib.Types[vsym.Pick("type", len(hlib.Types))]
	c := hlib.Col{Name: "c", Type: t.Type}
	s := wrap(func(s *hlib.Script) {
		s.W("c")
		s.K(t.Name)
		if t.Size == 4 {
			s.P("(")
			s.L("a")
			s.P(")")
			if t.Type == model.ColumnTypeEnum {
				c.Enum = []string{"a"}
			} else {
				c.Set = []string{"a"}
			}
		}
		switch vsym.Pick("default", 4) {
		case 0:
			attr(s, vsym.Pick("null", 2), &c)
		case 1:
			attr(s, 4, &c)
		case 2:
			n := vsym.Pick("len", 3)
			v := hlib.Bytes("text", n)
			s.K("DEFAULT")
			s.L(v)
			c.HasDef, c.Def, c.DefQuoted = true, v, true
		case 3:
			v := "1" + hlib.Bytes("text", 2)
			s.K("DEFAULT")
			s.L(v)
			c.HasDef, c.Def, c.DefQuoted = true, v, true
		}
	})
	check(s.Plain(), c)
	vsym.Reach("parsed")
}

// H5Case: every letter of the keywords in either case.
func H5Case() {
	words := [][]string{
		{"INT", "UNSIGNED", "ZEROFILL", "NOT", "NULL", "AUTO_INCREMENT"},
		{"DATETIME", "NULL", "DEFAULT", "CURRENT_TIMESTAMP", "ON", "UPDATE", "CURRENT_TIMESTAMP"},
		{"INTEGER", "DEFAULT", "TRUE", "UNIQUE", "KEY"},
		{"BOOL", "DEFAULT", "FALSE", "PRIMARY", "KEY"},
	}
	which := vsym.Pick("words", len(words))
	l := words[which]
	at := vsym.Pick("word", len(l))
	c := hlib.Col{Name: "c"}
	switch which {
	case 0:
		c.Type, c.Unsigned, c.Zerofill, c.Null, c.AutoInc = model.ColumnTypeInt, true, true, model.NullStateNotNull, true
	case 1:
		c.Type, c.Null, c.HasDef, c.Def, c.HasOnUpd, c.OnUpd = model.ColumnTypeDateTime, model.NullStateNull, true, "CURRENT_TIMESTAMP", true, "CURRENT_TIMESTAMP"
	case 2:
		c.Type, c.HasDef, c.Def, c.Unique = model.ColumnTypeInteger, true, "TRUE", true
	case 3:
		c.Type, c.HasDef, c.Def, c.Primary = model.ColumnTypeBool, true, "FALSE", true
	}
	s := wrap(func(s *hlib.Script) {
		s.W("c")
		for i, w := range l {
			if i == at {
				b := []byte(w)
				for j, x := range b {
					if x != '_' {
						b[j] = vsym.IteByte(vsym.Bool("lower"), x+32, x)
					}
				}
				w = string(b)
			}
			s.W(w)
		}
	})
	check(s.Plain(), c)
	vsym.Reach("parsed")
}

// H6Names: every column name and comment up to a length.
func H6Names() {
	max := 2
	if vsym.Thorough() {
		max = 4
	}
	c := hlib.Col{Type: model.ColumnTypeChar, HasLen: true, Len: "3", Null: model.NullStateNotNull, HasCmt: true}
	s := wrap(func(s *hlib.Script) {
		var tok hlib.Tok
		c.Name, tok = hlib.Name("name", 1+vsym.Pick("len", max))
		s.T(tok)
		s.K("CHAR")
		s.P("(")
		s.W("3")
		s.P(")")
		s.K("NOT", "NULL", "COMMENT")
		c.Cmt = hlib.Bytes("comment", vsym.Pick("comment len", max+1))
		s.L(c.Cmt)
	})
	check(s.Plain(), c)
	vsym.Reach("parsed")
}

// H7Near: rich columns with any two (deep: three) parts changed.
func H7Near() {
	n := &hlib.Near{Left: 2, Wide: true}
	t := hlib.Table{Name: "t", Cols: n.Cols()}
	hlib.SameTable(parse(hlib.SQL(t)), hlib.NormTable(t), "parsed")
	vsym.Reach("near")
}

// words that mean something where they are not quoted.
var words = []string{"NULL", "TRUE", "FALSE", "CURRENT_TIMESTAMP", "NOW()", "NOW", "DEFAULT", "BINARY", "KEY", "PRIMARY", "UNIQUE", "COMMENT", "0", "1", "-1", "NONE", "utf8", "b'0'", "0x0", "INT", "ENUM"}

// H8Words: words that mean something, in any case, are names and texts like others when quoted.
func H8Words() {
	w := words[vsym.Pick("word", len(words))]
	if vsym.Pick("case", 2) == 1 {
		w = strings.ToLower(w)
	}
	c := hlib.Col{Name: "c", Type: model.ColumnTypeVarChar, HasLen: true, Len: "9"}
	switch vsym.Pick("at", 7) {
	case 0:
		c.Name = w
	case 1:
		c.HasDef, c.Def, c.DefQuoted = true, w, true
	case 2:
		c.HasCmt, c.Cmt = true, w
	case 3:
		c.HasCS, c.CS = true, w
	case 4:
		c.HasColl, c.Coll = true, w
	case 5:
		hlib.SetValsOf(&c, model.ColumnTypeEnum, []string{"a", w})
		c.HasDef, c.Def, c.DefQuoted = true, w, true
	case 6:
		c = hlib.Col{Name: "c", Type: []model.ColumnType{model.ColumnTypeInt, model.ColumnTypeTimestamp, model.ColumnTypeDecimal}[vsym.Pick("type", 3)], HasDef: true, Def: w, DefQuoted: true}
	}
	check(wrap(func(s *hlib.Script) { s.WriteCol(c) }).Plain(), c)
	vsym.Reach("parsed")
}

// H9Large: tables that are large in any one way.
func H9Large() {
	t := hlib.LargeTable("t")
	hlib.SameTable(parse(hlib.SQL(t)), hlib.NormTable(t), "parsed")
	vsym.Reach("large")
}
