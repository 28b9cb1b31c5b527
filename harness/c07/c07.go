// Package c07: scripts are read statement by statement, nothing lost or invented.
package c07

import (
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

func parse(src string) []hlib.Table {
	stmts, err := schemalex.New().ParseString(src)
	if err != nil {
		vsym.Assert(false, "refused: "+src+": "+err.Error())
	}
	return hlib.ReadTables(stmts)
}

var col = hlib.Col{Name: "x", Type: model.ColumnTypeDate, Null: model.NullStateNotNull}

// sentinel is the table put around what is examined.
func sentinel(name string) hlib.Table {
	return hlib.Table{Name: name, Cols: []hlib.Col{col}, Opts: []hlib.Opt{{Key: "ENGINE", Val: "e"}}}
}

func check(src string, want []hlib.Table) {
	hlib.SameTables(parse(src), hlib.NormTables(want), "parsed")
	vsym.Reach("parsed")
}

// tableHead adds CREATE ... TABLE ... name.
func tableHead(s *hlib.Script, t *hlib.Table) {
	s.K("CREATE")
	switch vsym.Pick("temporary", 3) {
	case 1:
		s.K("TEMPORARY")
		t.Temp = true
		s.K("TABLE")
	case 2:
		s.K("TABLE", "TEMPORARY")
		t.Temp = true
	default:
		s.K("TABLE")
	}
	ifnot := vsym.Pick("if not exists", 3)
	if ifnot == 1 {
		s.K("IF", "NOT", "EXISTS")
		t.IfNot = true
	}
	var tok hlib.Tok
	t.Name, tok = hlib.Name("table", 1)
	s.T(tok)
	if ifnot == 2 {
		s.K("IF", "NOT", "EXISTS")
		t.IfNot = true
	}
}

// H1Heads: table names, flags and LIKE, with statements before and after.
func H1Heads() {
	var t hlib.Table
	s := &hlib.Script{}
	s.WriteTable(sentinel("p"))
	s.P(";")
	tableHead(s, &t)
	if vsym.Pick("like", 2) == 1 {
		vsym.Assume(s.Toks[len(s.Toks)-1].S != "EXISTS")
		s.K("LIKE")
		var tok hlib.Tok
		t.HasLike = true
		t.Like, tok = hlib.Name("like table", 1)
		s.T(tok)
	} else {
		s.P("(")
		s.WriteCol(col)
		s.P(")")
		t.Cols = []hlib.Col{col}
	}
	s.P(";")
	s.WriteTable(sentinel("q"))
	if vsym.Pick("terminated", 2) == 1 {
		s.P(";")
	}
	check(s.Styled(), []hlib.Table{sentinel("p"), t, sentinel("q")})
}

type optForm struct {
	words []string // as written
	key   string   // as recorded
	kinds string   // n number, w word, q backquoted, s string, or a constant
}

var optForms = []optForm{
	{[]string{"ENGINE"}, "ENGINE", "wqsY"},
	{[]string{"AUTO_INCREMENT"}, "AUTO_INCREMENT", "n"},
	{[]string{"AVG_ROW_LENGTH"}, "AVG_ROW_LENGTH", "n"},
	{[]string{"DEFAULT", "CHARSET"}, "DEFAULT CHARACTER SET", "wqsB"},
	{[]string{"DEFAULT", "CHARACTER", "SET"}, "DEFAULT CHARACTER SET", "wqsB"},
	{[]string{"CHARACTER", "SET"}, "DEFAULT CHARACTER SET", "wqsB"},
	{[]string{"DEFAULT", "COLLATE"}, "DEFAULT COLLATE", "wqsB"},
	{[]string{"COLLATE"}, "DEFAULT COLLATE", "wqsB"},
	{[]string{"CHECKSUM"}, "CHECKSUM", "n"},
	{[]string{"COMMENT"}, "COMMENT", "s"},
	{[]string{"CONNECTION"}, "CONNECTION", "s"},
	{[]string{"DATA", "DIRECTORY"}, "DATA DIRECTORY", "s"},
	{[]string{"DELAY_KEY_WRITE"}, "DELAY_KEY_WRITE", "n"},
	{[]string{"INDEX", "DIRECTORY"}, "INDEX DIRECTORY", "s"},
	{[]string{"INSERT_METHOD"}, "INSERT_METHOD", "wNIL"},
	{[]string{"KEY_BLOCK_SIZE"}, "KEY_BLOCK_SIZE", "n"},
	{[]string{"MAX_ROWS"}, "MAX_ROWS", "n"},
	{[]string{"MIN_ROWS"}, "MIN_ROWS", "n"},
	{[]string{"PACK_KEYS"}, "PACK_KEYS", "nwD"},
	{[]string{"PASSWORD"}, "PASSWORD", "s"},
	{[]string{"ROW_FORMAT"}, "ROW_FORMAT", "DFXCRM"},
	{[]string{"STATS_AUTO_RECALC"}, "STATS_AUTO_RECALC", "nD"},
	{[]string{"STATS_PERSISTENT"}, "STATS_PERSISTENT", "nD"},
	{[]string{"STATS_SAMPLE_PAGES"}, "STATS_SAMPLE_PAGES", "n"},
}

// option adds an option.
func option(s *hlib.Script, t *hlib.Table) {
	f := optForms[vsym.Pick("option", len(optForms))]
	s.K(f.words...)
	if vsym.Pick("equals", 2) == 1 {
		s.P("=")
	}
	o := hlib.Opt{Key: f.key}
	switch k := f.kinds[vsym.Pick("value", len(f.kinds))]; k {
	case 'n':
		o.Val = hlib.Digits("number", 2)
		s.W(o.Val)
	case 'w':
		o.Val = hlib.Word("word", 1)
		s.W(o.Val)
	case 'q':
		o.Val, o.Quoted = hlib.Bytes("quoted", 1), true
		s.Q(o.Val)
	case 's':
		var tok hlib.Tok
		o.Quoted = true
		o.Val, tok = hlib.Lit("string", 1)
		s.T(tok)
	default:
		o.Val = hlib.OptConst(k)
		s.W(o.Val)
	}
	t.Opts = append(t.Opts, o)
}

// H2Options: every sequence of table options.
func H2Options() {
	t := hlib.Table{Name: "t", Cols: []hlib.Col{col}}
	s := &hlib.Script{}
	s.WriteTable(t)
	max := 1
	if vsym.Thorough() {
		max = 2
	}
	n := 1 + vsym.Pick("options", max)
	for i := 0; i < n; i++ {
		if i > 0 && vsym.Pick("comma", 2) == 1 {
			s.P(",")
		}
		option(s, &t)
	}
	end := vsym.Pick("end", 3)
	want := []hlib.Table{t}
	if end > 0 {
		s.P(";")
	}
	if end == 2 {
		s.WriteTable(sentinel("q"))
		want = append(want, sentinel("q"))
	}
	check(s.Styled(), want)
}

// H3Pairs: every pair of options, the second with a fixed value.
func H3Pairs() {
	t := hlib.Table{Name: "t", Cols: []hlib.Col{col}}
	s := &hlib.Script{}
	s.WriteTable(t)
	for i := 0; i < 2; i++ {
		if i > 0 && vsym.Pick("comma", 2) == 1 {
			s.P(",")
		}
		f := optForms[vsym.Pick("option", len(optForms))]
		s.K(f.words...)
		o := hlib.Opt{Key: f.key}
		switch f.kinds[0] {
		case 'n':
			o.Val = "5"
			s.W("5")
		case 'w':
			o.Val = "w"
			s.W("w")
		case 's':
			o.Val, o.Quoted = "v", true
			s.L("v")
		default:
			o.Val = "DEFAULT"
			s.W("DEFAULT")
		}
		t.Opts = append(t.Opts, o)
	}
	check(s.Plain(), []hlib.Table{t})
}

const others = 12

// other adds something that is not a table.
func other(s *hlib.Script, n int, more bool) {
	switch n {
	case 0:
		s.K("CREATE", "DATABASE")
		if vsym.Pick("if", 2) == 1 {
			s.K("IF", "NOT", "EXISTS")
		}
		_, tok := hlib.Name("database", 1)
		s.T(tok)
		switch vsym.Pick("db option", 5) {
		case 1:
			s.K("DEFAULT", "CHARACTER", "SET")
			s.P("=")
			s.W("utf8")
		case 2:
			s.K("CHARACTER", "SET")
			s.W("utf8")
			s.K("COLLATE")
			s.W("utf8_bin")
		case 3:
			s.K("DEFAULT", "CHARSET")
			s.L("utf8")
		case 4:
			s.K("DEFAULT", "COLLATE")
			s.P("=")
			s.Q("utf8_bin")
		}
	case 1:
		s.K("DROP", "TABLE", "IF", "EXISTS")
		_, tok := hlib.Name("dropped", 1)
		s.T(tok)
	case 2:
		s.K("SET")
		s.W("names")
		_, tok := hlib.Lit("names", 1)
		s.T(tok)
	case 3:
		s.K("USE")
		_, tok := hlib.Name("used", 1)
		s.T(tok)
	case 4:
		s.K("SET")
		s.P("@", "@")
		s.W("x")
		s.P("=")
		s.L(";create table w (a int);")
	case 5:
		s.P("/* create table w (a int); */")
	case 6:
		s.P("-- create table w (a int);\n")
	case 7:
		s.P("# create table w (a int);\n")
	case 8:
		s.K("DROP", "DATABASE")
		s.Q(";")
	case 9:
		s.K("DROP", "TABLE")
		s.W("a")
		s.P(",")
		s.W("b")
	case 10:
	case 11:
		s.P("/*" + hlib.Bytes("comment", 2) + "x*/")
	}
	if more || n < 5 || n >= 8 && n != 11 {
		s.P(";")
	}
}

// H4Others: what is not a table contributes nothing and swallows nothing.
func H4Others() {
	s := &hlib.Script{}
	var want []hlib.Table
	table := func(name string) {
		s.WriteTable(sentinel(name))
		s.P(";")
		want = append(want, sentinel(name))
	}
	table("p")
	max := 1
	if vsym.Thorough() {
		max = 2
	}
	n := vsym.Pick("others", max) + 1
	for i := 0; i < n; i++ {
		k := vsym.Pick("other", others)
		if k == 11 {
			// the comment must not end early
			s2 := &hlib.Script{}
			other(s2, k, false)
			c := s2.Toks[0].S
			vsym.Assume(!(c[2] == '*' && c[3] == '/'))
			s.Toks = append(s.Toks, s2.Toks...)
		} else {
			other(s, k, false)
		}
		if i == 0 && n > 1 {
			table("r")
		}
	}
	table("q")
	check(s.Plain(), want)
}

// H5Sequences: sequences of tables and other statements, terminated or not at the end.
func H5Sequences() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	n := vsym.Pick("statements", max+1)
	s := &hlib.Script{}
	var want []hlib.Table
	names := []string{"a", "b", "c", "d"}
	fill := []string{"", " ", "\n", ";", "/**/", "-- \n"}
	src := fill[vsym.Pick("start", len(fill))]
	for i := 0; i < n; i++ {
		s = &hlib.Script{}
		switch vsym.Pick("statement", 6) {
		case 0:
			s.WriteTable(sentinel(names[i]))
			want = append(want, sentinel(names[i]))
		case 1:
			t := hlib.Table{Name: names[i], HasLike: true, Like: "l"}
			s.WriteTable(t)
			want = append(want, t)
		case 2:
			s.K("CREATE", "DATABASE")
			s.W("d")
		case 3:
			s.K("USE")
			s.W("d")
		case 4:
			t := hlib.Table{Name: names[i], Temp: true, Cols: []hlib.Col{col}}
			s.WriteTable(t)
			want = append(want, t)
		case 5:
			s.K("DROP", "TABLE")
			s.W("d")
		}
		src += s.Tight(0)
		if i < n-1 || vsym.Pick("terminated", 2) == 1 {
			src += ";"
		}
	}
	src += fill[vsym.Pick("finish", len(fill))]
	check(src, want)
}

// H6Layout: a script of everything with every separator at every place.
func H6Layout() {
	s := &hlib.Script{}
	t := hlib.Table{Name: "t", Temp: true, IfNot: true, Cols: []hlib.Col{col}, Opts: []hlib.Opt{{Key: "DEFAULT CHARACTER SET", Val: "utf8"}, {Key: "COMMENT", Val: "x;", Quoted: true}}}
	l := hlib.Table{Name: "m", HasLike: true, Like: "l"}
	s.K("CREATE", "DATABASE", "IF", "NOT", "EXISTS")
	s.W("d")
	s.K("DEFAULT", "CHARACTER", "SET")
	s.P("=")
	s.W("utf8")
	s.P(";")
	s.K("CREATE", "TEMPORARY", "TABLE", "IF", "NOT", "EXISTS")
	s.W("t")
	s.P("(")
	s.WriteCol(col)
	s.P(")")
	s.K("DEFAULT", "CHARSET")
	s.P("=")
	s.W("utf8")
	s.P(",")
	s.K("COMMENT")
	s.L("x;")
	s.P(";", ";")
	s.WriteTable(l)
	s.P(";")
	s.K("USE")
	s.W("d")
	check(s.Anywhere(), []hlib.Table{t, l})
}

// H7Near: rich tables with any two parts changed, between two others.
func H7Near() {
	n := &hlib.Near{Left: 2, Opts: true, Wide: vsym.Thorough()}
	l := []hlib.Table{sentinel("before"), n.Table("t"), sentinel("after")}
	check(hlib.SQL(l...), l)
	vsym.Reach("near")
}

// H8Skipped: whatever words a statement that is skipped consists of, it contributes nothing and swallows nothing.
func H8Skipped() {
	few := []string{"", "create", "TABLE", "`q2`", "'create table w (a int);'", "(", ")", ",", "DROP", "USE", "a", "1"}
	src := "CREATE TABLE p (x DATE NOT NULL) ENGINE = e;"
	src += []string{"DROP", "SET", "USE"}[vsym.Pick("verb", 3)]
	w := hlib.Vocabulary[vsym.Pick("word", len(hlib.Vocabulary))]
	vsym.Assume(w != ";")
	src += " " + w + " " + few[vsym.Pick("word", len(few))]
	if vsym.Thorough() {
		src += " " + few[vsym.Pick("word", len(few))]
	}
	if vsym.Pick("end", 2) == 1 {
		check(src, []hlib.Table{sentinel("p")})
		return
	}
	check(src+[]string{";", "\n;\n"}[vsym.Pick("layout", 2)]+"CREATE TABLE q (x DATE NOT NULL) ENGINE = e", []hlib.Table{sentinel("p"), sentinel("q")})
}

// H9Large: tables that are large in any one way, and many statements.
func H9Large() {
	if vsym.Pick("many", 2) == 0 {
		t := hlib.LargeTable("t")
		check(hlib.SQL(t)+";"+hlib.SQL(sentinel("u")), []hlib.Table{t, sentinel("u")})
		return
	}
	n := hlib.Amount()
	at, c := hlib.Place("x", n), hlib.Bytes("x", 1)
	var want []hlib.Table
	src := ""
	for i := 0; i < n; i++ {
		t := sentinel("t" + hlib.Itoa(i))
		if i == at {
			t.Name = "!" + c
		}
		switch i % 4 {
		case 0:
			t.Opts = nil
		case 1:
			src += "DROP TABLE " + hlib.Backquoted(t.Name) + ";\n"
		case 2:
			src += "SET x = 1; -- y\n"
		}
		src += hlib.SQL(t) + ";"
		want = append(want, t)
	}
	check(src, want)
	vsym.Reach("many")
}
