// Package c02: every lexeme gets the right kind and the right decoded value.
package c02

import (
	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/internal/vsym"
)

func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		b[i] = vsym.IteByte(vsym.And(c >= 'a', c <= 'z'), c-32, c)
	}
	return string(b)
}

func wordByte(c byte) bool {
	return vsym.Or(vsym.Or(vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= 'A', c <= 'Z')), vsym.Or(vsym.And(c >= '0', c <= '9'), c == '_'))
}

func letter(c byte) bool {
	return vsym.Or(vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= 'A', c <= 'Z'))
}

// inCase is the word with every letter in an arbitrary case.
func inCase(w string) string {
	b := []byte(w)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = vsym.IteByte(vsym.Bool("lower"), c+32, c)
		}
	}
	return string(b)
}

func first(src string) *schemalex.Token {
	toks := schemalex.VerifLex([]byte(src))
	vsym.Assert(len(toks) > 0, "no token")
	return toks[0]
}

// H1Keywords: every keyword, in every letter case, before every possible next byte.
func H1Keywords() {
	k := keywords[vsym.Pick("keyword", len(keywords))]
	w := inCase(k.word)
	next := vsym.Byte("next")
	t := first(w + string([]byte{next}))
	if wordByte(next) {
		vsym.Assert(t.Value == w+string([]byte{next}), "a longer word was cut short")
		vsym.Assert(vsym.Or(t.Type == schemalex.IDENT, t.Type != k.typ), "a longer word is taken for the keyword")
		vsym.Reach("longer")
		return
	}
	vsym.Assert(t.Type == k.typ, "keyword "+k.word+" gets another kind")
	vsym.Assert(t.Value == w, "keyword "+k.word+" has the wrong text")
	vsym.Reach("keyword")
}

// H2Words: every word up to a length: it is a keyword exactly when the table says so.
func H2Words() {
	max := 6
	if vsym.Thorough() {
		max = 12
	}
	n := 1 + vsym.Pick("len", max)
	w := vsym.Str("word", n)
	ok := letter(w[0])
	for i := 1; i < n; i++ {
		ok = vsym.And(ok, wordByte(w[i]))
	}
	vsym.Assume(ok)
	t := first(w + " ")
	vsym.Assert(t.Value == w, "a word is not read whole")
	u := upper(w)
	want := schemalex.IDENT
	for _, k := range keywords {
		if len(k.word) == n && u == k.word {
			want = k.typ
			break
		}
	}
	vsym.Assert(t.Type == want, "a word gets the wrong kind")
	vsym.Reach("word")
}

// decode gives the text a quoted string or name denotes; ok is false if it is not closed or ends
// before the end of s.
func decode(s string) (string, bool) {
	q := s[0]
	var out []byte
	i := 1
	for i < len(s) {
		c := s[i]
		if c == q {
			if i+1 < len(s) && s[i+1] == q {
				out = append(out, q)
				i += 2
				continue
			}
			return string(out), i == len(s)-1
		}
		if c == '\\' && q != '`' {
			i++
			if i == len(s) {
				return "", false
			}
			switch e := s[i]; e {
			case '0':
				out = append(out, 0)
			case 'b':
				out = append(out, 8)
			case 't':
				out = append(out, 9)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 'Z':
				out = append(out, 26)
			case '%', '_':
				out = append(out, '\\', e)
			default:
				out = append(out, e)
			}
			i++
			continue
		}
		out = append(out, c)
		i++
	}
	return "", false
}

// H3Quoted: quoted strings and names with arbitrary content.
func H3Quoted() {
	max := 3
	if vsym.Thorough() {
		max = 5
	}
	qi := vsym.Pick("quote", 3)
	q := "'\"`"[qi : qi+1]
	body := vsym.Str("body", vsym.Pick("len", max+1))
	lit := q + body + q
	want, ok := decode(lit)
	vsym.Assume(ok)
	tail := []string{"", " x", ","}[vsym.Pick("tail", 3)]
	toks := schemalex.VerifLex([]byte(lit + tail))
	t := toks[0]
	kinds := []schemalex.TokenType{schemalex.SINGLE_QUOTE_IDENT, schemalex.DOUBLE_QUOTE_IDENT, schemalex.BACKTICK_IDENT}
	vsym.Assert(t.Type == kinds[qi], "quoted text gets the wrong kind")
	vsym.Assert(t.Value == want, "quoted text is decoded wrongly")
	vsym.Assert(len(toks) > 1 && toks[1].Pos == len(lit), "quoted text does not end at its closing quote")
	vsym.Observe("value", t.Value)
	vsym.Reach("quoted")
}

// H4QuotedLong: backslashes, quotes and multi-byte characters inside longer text.
func H4QuotedLong() {
	qi := vsym.Pick("quote", 3)
	q := "'\"`"[qi]
	n := 6
	if vsym.Thorough() {
		n = 8
	}
	b := []byte{q}
	for i := 0; i < n; i++ {
		switch vsym.Pick("piece", 5) {
		case 0:
			b = append(b, '\\')
		case 1:
			b = append(b, q)
		case 2:
			b = append(b, "n"...)
		case 3:
			b = append(b, "é"...)
		case 4:
			b = append(b, "\xff"...)
		}
	}
	b = append(b, q)
	want, ok := decode(string(b))
	vsym.Assume(ok)
	toks := schemalex.VerifLex(b)
	vsym.Assert(toks[0].Value == want, "quoted text is decoded wrongly")
	vsym.Assert(len(toks) == 2 && toks[1].Type == schemalex.EOF, "quoted text does not end at its closing quote")
	vsym.Reach("long")
}

func digits(name string, min, max int) string {
	s := vsym.Str(name, min+vsym.Pick(name+".n", max-min+1))
	ok := true
	for i := 0; i < len(s); i++ {
		ok = vsym.And(ok, vsym.And(s[i] >= '0', s[i] <= '9'))
	}
	vsym.Assume(ok)
	return s
}

// H5Numbers: integers, decimals and exponents, before any byte that cannot continue a number.
func H5Numbers() {
	s := []string{"", "-", "+"}[vsym.Pick("sign", 3)]
	switch vsym.Pick("mantissa", 3) {
	case 0:
		s += digits("int", 1, 3)
	case 1:
		s += digits("int", 1, 2) + "." + digits("frac", 0, 2)
	case 2:
		vsym.Assume(s == "")
		s += "." + digits("frac", 1, 2)
	}
	switch vsym.Pick("exp", 4) {
	case 1:
		s += "e" + digits("e", 1, 2)
	case 2:
		s += "E-" + digits("e", 1, 2)
	case 3:
		s += "E+" + digits("e", 1, 2)
	}
	next := vsym.Byte("next")
	vsym.Assume(!wordByte(next))
	vsym.Assume(next != '.')
	t := first(s + string([]byte{next}))
	vsym.Assert(t.Type == schemalex.NUMBER, "a number gets the wrong kind")
	vsym.Assert(t.Value == s, "a number is not read whole")
	vsym.Reach("number")
}

// H6Comments: comments are swallowed whole, whatever they contain.
func H6Comments() {
	max := 3
	if vsym.Thorough() {
		max = 5
	}
	body := vsym.Str("body", vsym.Pick("len", max+1))
	var src, open string
	switch kind := vsym.Pick("kind", 4); kind {
	case 3: // dashes with other white space behind them
		open = "--" + []string{"\t", "\r", "\n"}[vsym.Pick("space", 3)]
		src = open
		if open != "--\n" {
			for i := 0; i < len(body); i++ {
				vsym.Assume(body[i] != '\n')
			}
			src += body + "\n"
		}
	case 0, 1:
		for i := 0; i < len(body); i++ {
			vsym.Assume(body[i] != '\n')
		}
		open = []string{"#", "-- "}[kind]
		src = open + body + "\n"
	case 2:
		open = "/*"
		for i := 0; i+1 < len(body); i++ {
			vsym.Assume(!(body[i] == '*' && body[i+1] == '/'))
		}
		src = open + body + "*/"
	}
	toks := schemalex.VerifLex([]byte("a" + src + "b"))
	vsym.Assert(len(toks) == 4, "a comment is not one token")
	vsym.Assert(toks[1].Type == schemalex.COMMENT_IDENT && toks[1].Value == src, "a comment is not swallowed whole")
	vsym.Assert(toks[2].Type == schemalex.IDENT && toks[2].Value == "b", "the text after a comment is disturbed")
	vsym.Reach("comment")
}

// H7Punctuation: single character tokens.
func H7Punctuation() {
	c := vsym.Byte("c")
	n := vsym.Byte("next")
	t := first(string([]byte{c, n}))
	kind := func(b byte, k schemalex.TokenType) {
		if c == b {
			vsym.Assert(t.Type == k && t.Value == string([]byte{b}), "wrong token for "+string(rune(b)))
			vsym.Reach("punct" + string(rune(b)))
		}
	}
	kind('(', schemalex.LPAREN)
	kind(')', schemalex.RPAREN)
	kind(';', schemalex.SEMICOLON)
	kind(',', schemalex.COMMA)
	kind('=', schemalex.EQUAL)
	digit := n >= '0' && n <= '9'
	if !digit {
		kind('.', schemalex.DOT)
		kind('+', schemalex.PLUS)
		if n != '-' {
			kind('-', schemalex.DASH)
		}
	}
	if n != '*' {
		kind('/', schemalex.SLASH)
	}
}

// H8Unknown: a byte that begins no token and is no white space is a token of its own, whatever is around it.
func H8Unknown() {
	c := vsym.Byte("c")
	vsym.Assume(c < 0x80 || c >= 0xf8) // other bytes may begin characters
	vsym.Assume(!wordByte(c) && c != ' ' && c != '\t' && c != '\n' && c != '\r')
	for _, p := range []byte("'\"`/-#();,.+=") {
		vsym.Assume(c != p)
	}
	before := []string{"", " ", "a", "1", "'x'", ")", "\n"}[vsym.Pick("before", 7)]
	after := []string{"", " ", "a", "1", "'x'", ")", "\n", "\xff"}[vsym.Pick("after", 8)]
	toks := schemalex.VerifLex([]byte(before + string([]byte{c}) + after))
	found := false
	for _, t := range toks {
		if t.Pos == len(before) {
			found = true
			vsym.Assert(t.Type != schemalex.SPACE && t.Type != schemalex.COMMENT_IDENT && t.Type != schemalex.EOF, "an unknown byte passes as white space")
			vsym.Assert(t.Value == string([]byte{c}), "an unknown byte has the text of something else")
		}
	}
	vsym.Assert(found, "an unknown byte is no token")
	vsym.Reach("unknown")
}

// H9Long: long words, numbers, strings and comments, whole.
func H9Long() {
	n := []int{17, 70, 130, 260, 1030, 4100}[vsym.Pick("length", 6)]
	b := make([]byte, n)
	fill := []string{"a", "select", "x_1", "7", "'", "é", "\\\\", "`"}
	f := fill[vsym.Pick("of", len(fill))]
	for i := range b {
		b[i] = f[i%len(f)]
	}
	at := []int{0, n / 2, n - 1}[vsym.Pick("at", 3)]
	x := vsym.Str("byte", 1)
	s := string(b[:at]) + x + string(b[at+1:])
	isWord, isNumber := letter(s[0]), true
	for i := 0; i < n; i++ {
		isWord = vsym.And(isWord, wordByte(s[i]))
		isNumber = vsym.And(isNumber, vsym.And(s[i] >= '0', s[i] <= '9'))
	}
	switch vsym.Pick("sort", 4) {
	case 0:
		vsym.Assume(isWord)
		t := first(s + " ")
		vsym.Assert(t.Type == schemalex.IDENT && vsym.StrEq(t.Value, s), "a long word is not read whole")
		vsym.Reach("word")
	case 1:
		vsym.Assume(isNumber)
		t := first(s + "." + s + " ")
		vsym.Assert(t.Type == schemalex.NUMBER && vsym.StrEq(t.Value, s+"."+s), "a long number is not read whole")
		vsym.Reach("number")
	case 2:
		q := []byte{'\'', '"', '`'}[vsym.Pick("quote", 3)]
		s = string([]byte{q}) + s + string([]byte{q})
		want, ok := decode(s)
		vsym.Assume(ok)
		t := first(s + " ")
		vsym.Assert(t.Type == map[byte]schemalex.TokenType{'\'': schemalex.SINGLE_QUOTE_IDENT, '"': schemalex.DOUBLE_QUOTE_IDENT, '`': schemalex.BACKTICK_IDENT}[q], "a long quotation gets another kind")
		vsym.Assert(vsym.StrEq(t.Value, want), "a long quotation has another value")
		vsym.Reach("quoted")
	case 3:
		vsym.Assume(x != "\n" && x != "*")
		open, end := "/*", "*/"
		if vsym.Pick("line", 2) == 1 {
			open, end = "#", "\n"
		}
		t := first(open + s + end + "KEY")
		vsym.Assert(t.Type == schemalex.COMMENT_IDENT && vsym.StrEq(t.Value, open+s+end), "a long comment is not read whole")
		vsym.Reach("comment")
	}
}
