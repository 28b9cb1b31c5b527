// Package c03: parsing any input ends with a schema or a parse error.
package c03

import (
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// check parses the script: an error must be of the documented kind, and a schema must be the one that
// an independent reader finds in the script.
func check(src string) bool {
	l, err := schemalex.New().ParseString(src)
	if err != nil {
		pe, ok := err.(schemalex.ParseError)
		vsym.Assert(ok, "not a parse error: "+err.Error()+" for "+src)
		vsym.Assert(len(l) == 0, "statements as well as an error")
		vsym.Assert(pe.Line() >= 1 && pe.Message() != "" && pe.Error() != "", "an empty parse error")
		vsym.Reach("rejected")
		return false
	}
	want, ok := hlib.ReadScript(src)
	vsym.Assert(ok, "accepted what is not SQL: "+src)
	hlib.SameTables(hlib.ReadTables(l), hlib.NormTables(want), "accepted with missing or other pieces: "+src+": ")
	vsym.Reach("accepted")
	return true
}

// vocabulary are the lexemes that mean something to the parser, and some that do not.
var vocabulary = hlib.Vocabulary

// few are those that open or close something, one of each sort.
var few = []string{"z1", "`q2`", "'s3'", "5", "(", ")", ",", "=", ";", "INT", "ENUM", "NULL", "NOT", "DEFAULT", "KEY", "PRIMARY", "UNIQUE", "SET", "CHARACTER", "ON", "UPDATE", "REFERENCES", "COMMENT", "LIKE", "IF", "USING", "WITH", "ENGINE"}

// starts are scripts that end in the middle of something.
var starts = []string{
	"", "CREATE", "CREATE TABLE", "CREATE TABLE t", "CREATE TABLE t LIKE u", "CREATE TABLE t (", "CREATE TABLE t (a", "CREATE TABLE t (a INT",
	"CREATE TABLE t (a DECIMAL(", "CREATE TABLE t (a DECIMAL(5", "CREATE TABLE t (a DOUBLE(5", "CREATE TABLE t (a ENUM(", "CREATE TABLE t (a ENUM('x'", "CREATE TABLE t (a VARCHAR(5)", "CREATE TABLE t (a VARCHAR(5) CHARACTER SET", "CREATE TABLE t (a VARCHAR(5) COLLATE",
	"CREATE TABLE t (a INT NOT NULL DEFAULT", "CREATE TABLE t (a TIMESTAMP DEFAULT NOW", "CREATE TABLE t (a TIMESTAMP ON UPDATE", "CREATE TABLE t (a INT COMMENT", "CREATE TABLE t (a INT PRIMARY", "CREATE TABLE t (a INT UNIQUE",
	"CREATE TABLE t (a INT,", "CREATE TABLE t (a INT, CONSTRAINT", "CREATE TABLE t (a INT, CONSTRAINT s", "CREATE TABLE t (a INT, KEY", "CREATE TABLE t (a INT, KEY k", "CREATE TABLE t (a INT, KEY k (", "CREATE TABLE t (a INT, KEY k (a", "CREATE TABLE t (a INT, KEY k (a (5", "CREATE TABLE t (a INT, KEY k (a)", "CREATE TABLE t (a INT, KEY k USING",
	"CREATE TABLE t (a INT, FULLTEXT KEY k (a)", "CREATE TABLE t (a INT, FULLTEXT KEY k (a) WITH PARSER", "CREATE TABLE t (a INT, SPATIAL", "CREATE TABLE t (a INT, UNIQUE", "CREATE TABLE t (a INT, PRIMARY", "CREATE TABLE t (a INT, FOREIGN", "CREATE TABLE t (a INT, FOREIGN KEY (a)",
	"CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES o (x)", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES o (x) ON DELETE", "CREATE TABLE t (a INT, FOREIGN KEY (a) REFERENCES o (x) ON DELETE CASCADE",
	"CREATE TABLE t (a INT)", "CREATE TABLE t (a INT) ENGINE", "CREATE TABLE t (a INT) ENGINE=x", "CREATE TABLE t (a INT) DEFAULT", "CREATE TABLE t (a INT) COMMENT=", "CREATE TABLE t (a INT) ROW_FORMAT", "CREATE TABLE t (a INT) DATA",
	"CREATE DATABASE", "CREATE DATABASE d", "CREATE DATABASE d DEFAULT CHARACTER SET", "DROP TABLE", "DROP TABLE t;", "CREATE TABLE IF", "CREATE TABLE t IF",
}

// ends close what may be open.
var ends = []string{"", ")", "))", " INT)", " (a))"}

// H1Next: every two lexemes in the middle of everything.
func H1Next() {
	src := starts[vsym.Pick("start", len(starts))]
	src += " " + vocabulary[vsym.Pick("lexeme", len(vocabulary))]
	if n := vsym.Pick("end", len(ends)+len(few)); n < len(ends) {
		src += ends[n]
	} else {
		m := 2
		if vsym.Thorough() {
			m = len(ends)
		}
		src += " " + few[n-len(ends)] + ends[vsym.Pick("end", m)]
	}
	check(src)
}

// H2Sequences: every sequence of a few lexemes in the middle of the main constructs.
func H2Sequences() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	src := []string{"CREATE TABLE t (", "CREATE TABLE t (a INT", "CREATE TABLE t (a INT,", "CREATE TABLE t (a INT)"}[vsym.Pick("start", 4)]
	for k := vsym.Pick("lexemes", max+1); k > 0; k-- {
		src += " " + few[vsym.Pick("lexeme", len(few))]
	}
	check(src + []string{"", ")"}[vsym.Pick("end", 2)])
}

func script() *hlib.Script {
	s := &hlib.Script{}
	s.K("CREATE", "DATABASE", "IF", "NOT", "EXISTS")
	s.Q("d")
	s.K("DEFAULT", "CHARACTER", "SET")
	s.W("utf8")
	s.P(";")
	t := hlib.FullTable("t")
	t.Idxs = append(t.Idxs, hlib.Idx{Kind: model.IndexKindSpatial, HasName: true, Name: "sp", Cols: hlib.On("u")}, hlib.Idx{Kind: model.IndexKindUnique, HasSym: true, Sym: "y", HasName: true, Name: "uq", Type: model.IndexTypeHash, Cols: hlib.On("u", "d")})
	t.Opts = append(t.Opts, hlib.Opt{Key: "ROW_FORMAT", Val: "COMPACT"})
	s.WriteTable(t)
	s.P(";")
	s.K("CREATE", "TABLE")
	s.Q("l")
	s.K("LIKE")
	s.Q("t")
	s.P(";")
	s.K("DROP", "TABLE")
	s.Q("x")
	return s
}

// lists is a script where everything that can be repeated is.
func lists() *hlib.Script {
	s := &hlib.Script{}
	t := hlib.Table{Name: "t", Cols: []hlib.Col{
		{Name: "a", Type: model.ColumnTypeSet, Set: []string{"x", "y", "z"}, HasDef: true, Def: "x", DefQuoted: true},
		hlib.ColID("b"),
	}}
	x := []hlib.IdxCol{{Name: "a", HasLen: true, Len: "2", Dir: 1}, {Name: "b"}, {Name: "c", Dir: 2}}
	t.Idxs = []hlib.Idx{
		{Kind: model.IndexKindPrimaryKey, HasSym: true, Sym: "p", Cols: hlib.On("a", "b", "c")},
		{Kind: model.IndexKindFullText, Cols: x},
		{Kind: model.IndexKindForeignKey, Cols: hlib.On("a", "b", "c"), Ref: &hlib.Ref{Table: "o", Cols: hlib.On("p", "q", "r"), OnUpdate: model.ReferenceOptionNoAction}},
	}
	t.Opts = []hlib.Opt{{Key: "MAX_ROWS", Val: "1"}, {Key: "DATA DIRECTORY", Val: "d", Quoted: true}, {Key: "DEFAULT COLLATE", Val: "c"}}
	s.WriteTable(t)
	s.P(";", ";")
	s.WriteTable(hlib.Table{Name: "u", Cols: []hlib.Col{hlib.ColID("a")}})
	s.K("ENGINE")
	s.P("=", "e", ",")
	s.K("MAX_ROWS")
	s.P("1", ",")
	s.K("DEFAULT", "COLLATE")
	s.P("=", "c", ";")
	s.K("DROP", "TABLE")
	s.Q("x")
	s.P(";")
	return s
}

// H3Edits: a script of everything with a lexeme lost, repeated, swapped with the next, replaced or added.
func H3Edits() {
	s := script()
	if vsym.Pick("script", 2) == 1 {
		s = lists()
	}
	vsym.Assert(check(s.Plain()), "the script itself is rejected")
	words := few
	if vsym.Thorough() {
		words = vocabulary
	}
	at := vsym.Pick("at", len(s.Toks))
	l := append([]hlib.Tok{}, s.Toks[:at]...)
	t, rest := s.Toks[at], s.Toks[at+1:]
	switch n := vsym.Pick("edit", 4+2*len(words)); {
	case n == 0:
	case n == 1:
		l = append(l, t, t)
	case n == 2:
		if len(rest) > 0 {
			l, rest = append(l, rest[0], t), rest[1:]
		}
	case n == 3:
		rest = nil
	case n < 4+len(words):
		l = append(l, hlib.Tok{S: words[n-4]})
	default:
		l = append(l, hlib.Tok{S: words[n-4-len(words)]}, t)
	}
	s = &hlib.Script{Toks: append(l, rest...)}
	check(s.Plain())
}

// H6Lost: a script of everything with two lexemes lost.
func H6Lost() {
	s := script()
	at := vsym.Pick("at", len(s.Toks)-1)
	next := 6
	if vsym.Thorough() || at+1+next > len(s.Toks) {
		next = len(s.Toks) - at - 1
	}
	other := at + 1 + vsym.Pick("other", next)
	l := append([]hlib.Tok{}, s.Toks[:at]...)
	l = append(l, s.Toks[at+1:other]...)
	s = &hlib.Script{Toks: append(l, s.Toks[other+1:]...)}
	check(s.Plain())
}

// H7Runs: a script of everything with a run of lexemes lost or replaced by a single one.
func H7Runs() {
	s := script()
	if vsym.Pick("script", 2) == 1 {
		s = lists()
	}
	max, words := 6, []string{"", ",", "(", ")", ";", "z1", "'s3'"}
	if vsym.Thorough() {
		max, words = 12, append([]string{""}, few...)
	}
	at := vsym.Pick("at", len(s.Toks)-2)
	if n := len(s.Toks) - at; max > n-1 {
		max = n - 1
	}
	n := 2 + vsym.Pick("run", max)
	l := append([]hlib.Tok{}, s.Toks[:at]...)
	if w := words[vsym.Pick("word", len(words))]; w != "" {
		l = append(l, hlib.Tok{S: w})
	}
	s = &hlib.Script{Toks: append(l, s.Toks[at+n:]...)}
	check(s.Plain())
}

// H4Bytes: a script of everything with any byte added, lost or put in the place of another, or cut anywhere.
func H4Bytes() {
	src := script().Plain()
	at := vsym.Pick("at", len(src))
	switch vsym.Pick("edit", 4) {
	case 0:
		src = src[:at]
	case 1:
		src = src[:at] + src[at+1:]
	case 2:
		src = src[:at] + string([]byte{vsym.Byte("byte")}) + src[at:]
	case 3:
		src = src[:at] + string([]byte{vsym.Byte("byte")}) + src[at+1:]
	}
	check(src)
}

// H5Anything: any few bytes in the middle of everything.
func H5Anything() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	src := starts[vsym.Pick("start", len(starts))] + " " + vsym.Str("bytes", vsym.Pick("len", n+1)) + ends[vsym.Pick("end", len(ends))]
	check(src)
}

// H8Large: scripts that are large in any one way, with any byte at some place.
func H8Large() {
	src := hlib.SQL(hlib.LargeTable("t")) + ";" + hlib.SQL(hlib.Table{Name: "u", Cols: []hlib.Col{hlib.ColID("a")}})
	at := []int{14, len(src) / 2, len(src) - 20, len(src) - 1}[vsym.Pick("at", 4)]
	x := []string{"", ",", "'", ")"}[vsym.Pick("insert", 4)]
	check(src[:at] + x + src[at:])
}
