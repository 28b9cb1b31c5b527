// Package c04: parse errors point at the offending place.
package c04

import (
	"strings"
	"unicode/utf8"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/vfs"
	"github.com/schemalex/schemalex/internal/vsym"
)

// lineCol is the position convention: lines from 1; columns count characters, from 1 on the first
// line and from 0 on later ones.
func lineCol(s string) (int, int) {
	line, col := 1, 1
	for i := 0; i < len(s); {
		_, w := utf8.DecodeRuneInString(s[i:])
		if s[i] == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		i += w
	}
	return line, col
}

// told checks everything an error says about the place pos of the script.
func told(pe schemalex.ParseError, src string, pos int, file string) {
	line, col := lineCol(src[:pos])
	at := " (line " + hlib.Itoa(pe.Line()) + " column " + hlib.Itoa(pe.Col()) + "): " + pe.Message() + ": " + src
	vsym.Assert(pe.Line() == line && pe.Col() == col, "the error is not where the offending text is"+at)
	vsym.Assert(pe.EOF() == (pos == len(src)), "wrong about the end of the input"+at)
	vsym.Assert(pe.File() == file, "wrong file name")
	msg := pe.Error()
	vsym.Assert(strings.Contains(msg, pe.Message()), "the message is not in the text")
	vsym.Assert(strings.Contains(msg, "line "+hlib.Itoa(line)), "the line is not in the text")
	vsym.Assert(strings.Contains(msg, "column "+hlib.Itoa(col)), "the column is not in the text")
	vsym.Assert(file == "" || strings.Contains(msg, file), "the file is not in the text")
	// the source text just before: as much as is on the same line, up to 20 bytes
	from := pos
	for from > 0 && src[from-1] != '\n' && pos-from < 20 {
		from--
	}
	vsym.Assert(strings.Contains(msg, src[from:pos]), "the source text is not in the text")
	vsym.Reach("told")
}

func parse(src string) schemalex.ParseError {
	_, err := schemalex.New().ParseString(src)
	if err == nil {
		return nil
	}
	pe, ok := err.(schemalex.ParseError)
	vsym.Assert(ok, "not a parse error: "+err.Error())
	return pe
}

func script(kind int) *hlib.Script {
	s := &hlib.Script{}
	switch kind {
	case 0:
		s.K("CREATE", "DATABASE", "IF", "NOT", "EXISTS")
		s.Q("d")
		s.K("DEFAULT", "CHARACTER", "SET")
		s.W("utf8")
		s.P(";")
		s.WriteTable(hlib.Table{Name: "é", Temp: true, HasLike: true, Like: "t"})
		s.P(";")
		s.WriteTable(hlib.Table{Name: "t", Cols: []hlib.Col{hlib.ColID("a\nb")}, Opts: []hlib.Opt{{Key: "AVG_ROW_LENGTH", Val: "7"}, {Key: "COMMENT", Val: "x\n\ny", Quoted: true}, {Key: "DATA DIRECTORY", Val: "x", Quoted: true}}})
	case 1:
		s.WriteTable(hlib.FullTable("t"))
	}
	return s
}

// place is a layout: what to put before each lexeme, and where they start.
func place(s *hlib.Script, gap func(i int) string) (string, []int) {
	var b []byte
	var at []int
	for i, t := range s.Toks {
		if i > 0 && !s.Toks[i-1].Glue {
			b = append(b, gap(i)...)
		}
		at = append(at, len(b))
		b = append(b, t.S...)
	}
	return string(b), append(at, len(b))
}

var unknown = []string{"\x00", "*", "?", "\xff", "é"}

// H1Unknown: a character that means nothing anywhere in a script, in some layouts.
func H1Unknown() {
	s := script(vsym.Pick("script", 2))
	style := vsym.Pick("style", 4)
	at := vsym.Pick("at", len(s.Toks)+1)
	n := vsym.Pick("unknown", len(unknown))
	src, pos := place(s, func(i int) string {
		switch {
		case style == 1 && i%3 == 0:
			return "\n\t"
		case style == 2:
			return "/*é\n*/ "
		case style == 3 && i%2 == 0:
			return " -- é\r\n"
		}
		return " "
	})
	p := pos[at]
	src = src[:p] + unknown[n] + src[p:]
	pe := parse(src)
	vsym.Assert(pe != nil, "accepted with an unknown character: "+src)
	told(pe, src, p, "")
}

// H2Layout: any separator anywhere before an unknown character.
func H2Layout() {
	s := script(0)
	where := vsym.Pick("where", len(s.Toks)-1) + 1
	fill := hlib.Filler(vsym.Pick("filler", hlib.Fillers))
	src, pos := place(s, func(i int) string {
		if i == where {
			return fill
		}
		return " "
	})
	far := len(s.Toks)
	if vsym.Pick("near", 2) == 1 && where+1 < far {
		far = where + 1
	}
	p := pos[far]
	src = src[:p] + "*" + src[p:]
	pe := parse(src)
	vsym.Assert(pe != nil, "accepted with an unknown character: "+src)
	told(pe, src, p, "")
}

// H3Truncated: a script cut anywhere between lexemes, with anything invisible at the end.
func H3Truncated() {
	s := script(vsym.Pick("script", 2))
	src, pos := place(s, func(i int) string { return []string{" ", "\n"}[i%2] })
	src = src[:pos[vsym.Pick("at", len(s.Toks))]]
	switch vsym.Pick("end", 5) {
	case 0:
		src = strings.TrimRight(src, " \n")
	case 1:
	case 2:
		src += "\n\n é"[:2]
	case 3:
		src += " /* é\n */"
	case 4:
		src += "-- " + string([]byte{vsym.Byte("comment")})
	}
	if pe := parse(src); pe != nil {
		told(pe, src, len(src), "")
	} else {
		vsym.Reach("complete")
	}
}

// H4Unterminated: a script cut inside of a quotation.
func H4Unterminated() {
	s := script(vsym.Pick("script", 2))
	src, pos := place(s, func(i int) string { return []string{" ", "\n"}[i%2] })
	at := vsym.Pick("at", len(s.Toks))
	vsym.Assume(s.Toks[at].Quo != 0)
	cut := pos[at] + 1 + vsym.Pick("cut", len(s.Toks[at].S)-1)
	rest := src[pos[at]:cut]
	src = src[:cut]
	pe := parse(src)
	if _, closed := hlib.Lexemes(rest); closed {
		// what is left is a shorter quotation
		return
	}
	vsym.Assert(pe != nil, "accepted with an open quote: "+src)
	told(pe, src, pos[at], "")
	vsym.Reach("open")
}

var words = []string{"z1", "`q2`", "'s3'", "5", "(", ")", ",", "=", ";", "INT", "ENUM", "NULL", "NOT", "DEFAULT", "KEY", "SET", "CHARACTER", "UPDATE", "COMMENT", "LIKE", "USING", "WITH", "ENGINE", "SELECT"}

// H5Edits: a lexeme lost, repeated, replaced or added: an error is at a lexeme of the script, not
// before the change and not after the place where an independent reader gives up.
func H5Edits() {
	s := script(vsym.Pick("script", 2))
	at := vsym.Pick("at", len(s.Toks))
	l := append([]hlib.Tok{}, s.Toks[:at]...)
	t, rest := s.Toks[at], s.Toks[at+1:]
	switch n := vsym.Pick("edit", 2+2*len(words)); {
	case n == 0:
	case n == 1:
		l = append(l, t, t)
	case n < 2+len(words):
		l = append(l, hlib.Tok{S: words[n-2]})
	default:
		l = append(l, hlib.Tok{S: words[n-2-len(words)]}, t)
	}
	s = &hlib.Script{Toks: append(l, rest...)}
	src, pos := place(s, func(i int) string { return []string{" ", " \n"}[i%2] })
	pe := parse(src)
	if pe == nil {
		return
	}
	where := -1
	line, col, from := 1, 1, 0
	for i, p := range pos {
		if l, c := lineCol(src[from:p]); l > 1 {
			line, col = line+l-1, c
		} else {
			col += c - 1
		}
		from = p
		if i >= at && pe.Line() == line && pe.Col() == col {
			where = p
			break
		}
	}
	vsym.Assert(where >= 0, "the error is not at a lexeme from the change on (line "+hlib.Itoa(pe.Line())+" column "+hlib.Itoa(pe.Col())+"): "+pe.Message()+": "+src)
	told(pe, src, where, "")
	if last := hlib.Unreadable(src); last >= 0 {
		vsym.Assert(where <= last, "the error is after the place where the script stops being one (line "+hlib.Itoa(pe.Line())+" column "+hlib.Itoa(pe.Col())+"): "+pe.Message()+": "+src)
		vsym.Reach("bounded")
	}
}

// H6Files: the same from a file.
func H6Files() {
	vfs.Reset()
	s := script(0)
	src, pos := place(s, func(i int) string { return " \n"[i%2 : i%2+1] })
	at := vsym.Pick("at", len(s.Toks)+1)
	p := pos[at]
	if vsym.Pick("how", 2) == 0 {
		src = src[:p] + "*" + src[p:]
	} else {
		src = src[:p]
		p = len(src)
	}
	file := []string{"x.sql", "/a b/%s.sql", "~"}[vsym.Pick("file", 3)]
	n := vfs.Add(file, src)
	what := vsym.Pick("file is", 3)
	n.NoOpen, n.Breaks = what == 1, what == 2
	l, err := schemalex.New().ParseFile(file)
	if what != 0 {
		vsym.Assert(err != nil && len(l) == 0, "no error for a file that cannot be read")
		vsym.Reach("unreadable")
		return
	}
	l2, err2 := schemalex.New().ParseString(src)
	vsym.Assert((err == nil) == (err2 == nil) && len(l) == len(l2), "a file parses in another way than its text")
	if err == nil {
		hlib.SameTables(hlib.ReadTables(l), hlib.ReadTables(l2), "file")
		vsym.Reach("read")
		return
	}
	pe, ok := err.(schemalex.ParseError)
	vsym.Assert(ok, "not a parse error: "+err.Error())
	told(pe, src, p, file)
}

// H7Text: the text before the place may be anything that is invisible.
func H7Text() {
	n := 3
	if vsym.Thorough() {
		n = 6
	}
	b := vsym.Str("comment", n)
	for i := 0; i < n; i++ {
		vsym.Assume(b[i] != '*')
	}
	src := "CREATE TABLE t (a INT /*" + b + "*/ ,"
	p := len(src)
	src += ")"
	pe := parse(src)
	vsym.Assert(pe != nil, "accepted")
	told(pe, src, p, "")
}

// H8Large: the error is far into the script: after a long line, many lines, a long comment, word or
// quotation with any byte in it, or many tables.
func H8Large() {
	n := hlib.Length()
	var before string
	switch vsym.Pick("long", 7) {
	case 0:
		before = strings.Repeat(" ", n) + vsym.Str("byte", 1)
		vsym.Assume(before[n] == ' ' || before[n] == '\n' || before[n] == '\t' || before[n] == '\r')
	case 1:
		before = strings.Repeat("\n", n)
	case 2:
		before = "/*" + strings.Repeat("ab\n é", n/5) + vsym.Str("byte", 1) + " */"
		vsym.Assume(before[len(before)-4] != '*')
	case 3:
		before = "-- " + strings.Repeat("ab é", n/4) + "\n"
	case 4:
		before = "CREATE TABLE `" + strings.Repeat("ab\n é", n/5) + "` (a INT); "
	case 5:
		before = "CREATE TABLE " + strings.Repeat("ab_", n/3) + " (a INT); "
	case 6:
		for i := hlib.Amount(); i > 0; i-- {
			before += "CREATE TABLE t" + hlib.Itoa(i) + " (a INT);" + []string{"\n", " "}[i%2]
		}
	}
	after := "CREATE TABLE t (a INT ,"
	if vsym.Pick("after", 2) == 1 {
		after = "CREATE TABLE t (\n  a INT ,"
	}
	src := before + after
	p := len(src)
	src += []string{"", ")", ")" + strings.Repeat("x ", n)}[vsym.Pick("rest", 3)]
	pe := parse(src)
	vsym.Assert(pe != nil, "accepted")
	told(pe, src, p, "")
}
