// Package c01: the scanner accounts for every byte of the script.
package c01

import (
	"strconv"
	"unicode/utf8"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vsym"
)

// lineCol is the position convention of the scanner: lines from 1; columns count characters, from 1
// on the first line and from 0 on later ones.
func lineCol(s string) (int, int) {
	line, col := 1, 1
	for i := 0; i < len(s); {
		_, w := utf8.DecodeRuneInString(s[i:])
		if s[i] == '\n' {
			line++
			col = 0
		} else {
			col++
		}
		i += w
	}
	return line, col
}

func isQuote(b byte) bool { return b == '\'' || b == '"' || b == '`' }

// closing returns the length of the quoted text at the start of s, or -1 if it never ends.
func closing(s string) int {
	q := s[0]
	for i := 1; i < len(s); i++ {
		switch {
		case s[i] == '\\' && q != '`':
			i++
		case s[i] == q:
			if i+1 < len(s) && s[i+1] == q {
				i++
				continue
			}
			return i + 1
		}
	}
	return -1
}

func check(src string) {
	toks := schemalex.VerifLex([]byte(src))
	vsym.Assert(len(toks) > 0, "no token at all")
	pos := 0
	for i, t := range toks {
		vsym.Assert(t.Pos == pos, "token "+strconv.Itoa(i)+" does not start where the previous one ended")
		l, c := lineCol(src[:pos])
		vsym.Assert(t.Line == l && t.Col == c, "token "+strconv.Itoa(i)+" has the wrong line or column")
		last := i == len(toks)-1
		if t.Type == schemalex.EOF {
			vsym.Assert(last && pos == len(src) && t.EOF, "end of input announced in the wrong place")
			vsym.Reach("eof")
			return
		}
		vsym.Assert(!t.EOF, "end of input flag on an ordinary token")
		if last {
			// only an unterminated quotation may end the scan early
			vsym.Assert(t.Type == schemalex.ILLEGAL && pos < len(src) && isQuote(src[pos]) && closing(src[pos:]) < 0, "the scan stopped before the end of the input")
			vsym.Assert(t.Value == src[pos:], "unterminated quotation has the wrong text")
			vsym.Reach("unterminated")
			return
		}
		end := toks[i+1].Pos
		vsym.Assert(end > pos && end <= len(src), "token "+strconv.Itoa(i)+" covers no text or text outside the input")
		raw := src[pos:end]
		switch t.Type {
		case schemalex.SINGLE_QUOTE_IDENT, schemalex.DOUBLE_QUOTE_IDENT, schemalex.BACKTICK_IDENT:
			vsym.Assert(isQuote(raw[0]) && closing(src[pos:]) == len(raw), "quotation does not end at its closing quote")
			vsym.Reach("quoted")
		default:
			vsym.Assert(t.Value == raw, "token text differs from the input it covers")
			if t.Type == schemalex.ILLEGAL {
				_, w := utf8.DecodeRuneInString(raw)
				vsym.Assert(w == len(raw), "an unknown character is more than one character")
				vsym.Reach("illegal")
			}
		}
		pos = end
	}
}

// H1AnyBytes: every byte string up to the bound.
func H1AnyBytes() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	src := vsym.Str("src", vsym.Pick("len", n+1))
	check(src)
}

// pieces are texts of all sorts.
var pieces = []string{"a", "7", " ", "\t", "\n", "\r\n", "é", "'é\n'", "`\n`", "\"x\\\"\"", "/*\n*/", "/**/", "#c\n", "-- \n", "--x", "1.5e-3", "-", "(", "\xff", "\x00", "世", "\u00a0", "KEY"}

// H2Pieces: any few texts one after the other, and any byte behind the last.
func H2Pieces() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	src := ""
	for k := 1 + vsym.Pick("pieces", n); k > 0; k-- {
		src += pieces[vsym.Pick("piece", len(pieces))]
	}
	if vsym.Pick("then", 2) == 1 {
		src += vsym.Str("byte", 1)
	}
	check(src)
}

// H3Long: long lexemes of all sorts with any byte in them, and what follows.
func H3Long() {
	n := []int{17, 70, 130, 260, 1030}[vsym.Pick("length", 5)]
	b := make([]byte, n)
	fill := []string{"a", "7", " ", "\n", "x_1", "/*", "é"}[vsym.Pick("of", 7)]
	for i := range b {
		b[i] = fill[i%len(fill)]
	}
	around := [][2]string{{"", ""}, {"'", "'"}, {"`", "`"}, {"/*", "*/"}, {"#", "\n"}, {"-- ", "\n"}, {"1.", "e5"}}[vsym.Pick("around", 7)]
	src := around[0] + string(b) + around[1]
	at := []int{1, len(src) / 2, len(src) - 1}[vsym.Pick("at", 3)]
	check(src[:at] + vsym.Str("byte", 1) + src[at+1:] + " KEY")
}
