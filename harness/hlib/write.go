package hlib

import (
	"strconv"

	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// Tok is a lexeme of a script.
type Tok struct {
	S    string
	Kw   bool // a keyword: may be written in any letter case
	Word bool // keyword, plain name or number: needs a separator from another such
	Quo  byte // quote it ends with: needs a separator from a lexeme starting with the same
	Glue bool // nothing may come between it and the next lexeme
}

// Script is a sequence of lexemes.
type Script struct{ Toks []Tok }

// K adds keywords.
func (s *Script) K(words ...string) {
	for _, w := range words {
		s.Toks = append(s.Toks, Tok{S: w, Kw: true, Word: true})
	}
}

// P adds punctuation.
func (s *Script) P(p ...string) {
	for _, w := range p {
		s.Toks = append(s.Toks, Tok{S: w})
	}
}

// W adds plain names or numbers.
func (s *Script) W(w string) { s.Toks = append(s.Toks, Tok{S: w, Word: true}) }

// Q adds a name in backquotes.
func (s *Script) Q(name string) { s.Toks = append(s.Toks, Tok{S: Backquoted(name), Quo: '`'}) }

// L adds a string literal.
func (s *Script) L(v string) { s.Toks = append(s.Toks, Tok{S: Quoted(v, '\''), Quo: '\''}) }

// T adds a lexeme.
func (s *Script) T(t Tok) { s.Toks = append(s.Toks, t) }

// Backquoted is the quoted form of a name.
func Backquoted(name string) string {
	b := []byte{'`'}
	for i := 0; i < len(name); i++ {
		if name[i] == '`' {
			b = append(b, '`')
		}
		b = append(b, name[i])
	}
	return string(append(b, '`'))
}

// Quoted is a string literal with the given quote.
func Quoted(v string, q byte) string {
	b := []byte{q}
	for i := 0; i < len(v); i++ {
		if v[i] == q || v[i] == '\\' {
			b = append(b, v[i])
		}
		b = append(b, v[i])
	}
	return string(append(b, q))
}

func casing(w string, mode int) string {
	b := []byte(w)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' && (mode == 1 || mode == 2 && i%2 == 1) {
			b[i] = c + 32
		}
	}
	return string(b)
}

// needGap says whether two lexemes cannot be adjacent.
func needGap(a, b Tok) bool {
	return a.Word && b.Word || a.Quo != 0 && b.Quo == a.Quo
}

// Plain is the script with single spaces between lexemes.
func (s *Script) Plain() string { return s.spaced(0, -1, "") }

func (s *Script) spaced(mode, at int, fill string) string {
	b := []byte{}
	for i, t := range s.Toks {
		if i > 0 && !s.Toks[i-1].Glue {
			if i == at {
				b = append(b, fill...)
			} else {
				b = append(b, ' ')
			}
		}
		w := t.S
		if t.Kw && mode != 0 {
			w = casing(w, mode)
		}
		b = append(b, w...)
	}
	if at == len(s.Toks) {
		b = append(b, fill...)
	}
	return string(b)
}

// Tight is the script with as few separators as possible.
func (s *Script) Tight(mode int) string {
	b := []byte{}
	for i, t := range s.Toks {
		if i > 0 && needGap(s.Toks[i-1], t) {
			b = append(b, ' ')
		}
		w := t.S
		if t.Kw && mode != 0 {
			w = casing(w, mode)
		}
		b = append(b, w...)
	}
	return string(b)
}

// Fillers are ways to separate lexemes.
const Fillers = 9

// Filler is the n-th way.
func Filler(n int) string {
	switch n {
	case 0:
		return "\n"
	case 1:
		return "\t \r\n"
	case 2:
		return "/**/"
	case 3:
		return "/*" + string([]byte{vsym.Byte("comment")}) + " */"
	case 4:
		return "/***/ "
	case 5:
		return " -- ;'" + string([]byte{vsym.Byte("comment")}) + "\n"
	case 6:
		return "#`" + string([]byte{vsym.Byte("comment")}) + "\n"
	case 7:
		return " /* ; */ -- \n "
	}
	return "\r"
}

// Case is the letter case of keywords: upper, lower or mixed.
func Case() int { return vsym.Pick("case", 3) }

// Styled is the script in one of a few whole layouts.
func (s *Script) Styled() string {
	switch vsym.Pick("style", 4) {
	case 0:
		return s.Plain()
	case 1:
		return s.Tight(1)
	case 2:
		return s.spaced(2, -1, "")
	}
	return s.Tight(0)
}

// Anywhere is the script with one arbitrary separator at an arbitrary place.
func (s *Script) Anywhere() string {
	at := vsym.Pick("gap", len(s.Toks)+1)
	if at > 0 && at < len(s.Toks) && s.Toks[at-1].Glue {
		return s.spaced(1, -1, "")
	}
	f := Filler(vsym.Pick("filler", Fillers))
	if at == 0 {
		return f + s.spaced(1, -1, "")
	}
	return s.spaced(1, at, f)
}

// Names

func letterByte(c byte) bool {
	return vsym.Or(vsym.And(c >= 'a', c <= 'z'), vsym.And(c >= 'A', c <= 'Z'))
}

func wordByte(c byte) bool {
	return vsym.Or(letterByte(c), vsym.Or(vsym.And(c >= '0', c <= '9'), c == '_'))
}

// Word is an arbitrary plain name: "z" and n arbitrary word characters.
func Word(tag string, n int) string {
	w := vsym.Str(tag, n)
	for i := 0; i < n; i++ {
		vsym.Assume(wordByte(w[i]))
	}
	return "z" + w
}

// Bytes is a string of n arbitrary bytes, ASCII unless the bounds are deep.
func Bytes(tag string, n int) string {
	s := vsym.Str(tag, n)
	if !vsym.Thorough() {
		for i := 0; i < n; i++ {
			vsym.Assume(s[i] < 0x80)
		}
	}
	return s
}

// Name is an arbitrary name, plain or quoted, and the lexeme for it.
func Name(tag string, n int) (string, Tok) {
	if vsym.Pick(tag+" quoted", 2) == 0 {
		w := Word(tag, n)
		return w, Tok{S: w, Word: true}
	}
	v := Bytes(tag, n)
	return v, Tok{S: Backquoted(v), Quo: '`'}
}

// Lit is an arbitrary string and the lexeme for it.
func Lit(tag string, n int) (string, Tok) {
	v := Bytes(tag, n)
	q := byte('\'')
	if vsym.Pick(tag+" quote", 2) == 1 {
		q = '"'
	}
	return v, Tok{S: Quoted(v, q), Quo: q}
}

// Digits is a string of n arbitrary digits.
func Digits(tag string, n int) string {
	b := make([]byte, n)
	for i := range b {
		c := vsym.Byte(tag)
		vsym.Assume(vsym.And(c >= '0', c <= '9'))
		b[i] = c
	}
	return string(b)
}

// Types

// TypeName is a column type and its name.
type TypeName struct {
	Type model.ColumnType
	Name string
	Size int // 0 none, 1 optional (n), 2 mandatory (m,d) if any, 3 optional (m[,d]), 4 values
	Num  bool
	Char bool
}

// Types lists the column types and what may follow them.
var Types = []TypeName{
	{model.ColumnTypeBit, "BIT", 1, false, false},
	{model.ColumnTypeTinyInt, "TINYINT", 1, true, false},
	{model.ColumnTypeSmallInt, "SMALLINT", 1, true, false},
	{model.ColumnTypeMediumInt, "MEDIUMINT", 1, true, false},
	{model.ColumnTypeInt, "INT", 1, true, false},
	{model.ColumnTypeInteger, "INTEGER", 1, true, false},
	{model.ColumnTypeBigInt, "BIGINT", 1, true, false},
	{model.ColumnTypeReal, "REAL", 2, true, false},
	{model.ColumnTypeDouble, "DOUBLE", 2, true, false},
	{model.ColumnTypeFloat, "FLOAT", 2, true, false},
	{model.ColumnTypeDecimal, "DECIMAL", 3, true, false},
	{model.ColumnTypeNumeric, "NUMERIC", 3, true, false},
	{model.ColumnTypeDate, "DATE", 0, false, false},
	{model.ColumnTypeTime, "TIME", 1, false, false},
	{model.ColumnTypeTimestamp, "TIMESTAMP", 1, false, false},
	{model.ColumnTypeDateTime, "DATETIME", 1, false, false},
	{model.ColumnTypeYear, "YEAR", 0, false, false},
	{model.ColumnTypeChar, "CHAR", 1, false, true},
	{model.ColumnTypeVarChar, "VARCHAR", 1, false, true},
	{model.ColumnTypeBinary, "BINARY", 1, false, false},
	{model.ColumnTypeVarBinary, "VARBINARY", 1, false, false},
	{model.ColumnTypeTinyBlob, "TINYBLOB", 0, false, false},
	{model.ColumnTypeBlob, "BLOB", 0, false, false},
	{model.ColumnTypeMediumBlob, "MEDIUMBLOB", 0, false, false},
	{model.ColumnTypeLongBlob, "LONGBLOB", 0, false, false},
	{model.ColumnTypeTinyText, "TINYTEXT", 1, false, true},
	{model.ColumnTypeText, "TEXT", 1, false, true},
	{model.ColumnTypeMediumText, "MEDIUMTEXT", 1, false, true},
	{model.ColumnTypeLongText, "LONGTEXT", 1, false, true},
	{model.ColumnTypeEnum, "ENUM", 4, false, false},
	{model.ColumnTypeSet, "SET", 4, false, false},
	{model.ColumnTypeBoolean, "BOOLEAN", 0, false, false},
	{model.ColumnTypeBool, "BOOL", 0, false, false},
	{model.ColumnTypeJSON, "JSON", 0, false, false},
	{model.ColumnTypeGEOMETRY, "GEOMETRY", 0, false, false},
}

// NameOfType is the keyword of a type.
func NameOfType(t model.ColumnType) string {
	for _, x := range Types {
		if x.Type == t {
			return x.Name
		}
	}
	return "?"
}

// WriteCol adds the definition of a column, written the obvious way.
func (s *Script) WriteCol(c Col) {
	s.Q(c.Name)
	s.K(NameOfType(c.Type))
	vals := c.Enum
	if len(vals) == 0 {
		vals = c.Set
	}
	if len(vals) > 0 {
		s.P("(")
		for i, v := range vals {
			if i > 0 {
				s.P(",")
			}
			s.L(v)
		}
		s.P(")")
	} else if c.HasLen {
		s.P("(")
		s.W(c.Len)
		if c.HasDec {
			s.P(",")
			s.W(c.Dec)
		}
		s.P(")")
	}
	if c.Unsigned {
		s.K("UNSIGNED")
	}
	if c.Zerofill {
		s.K("ZEROFILL")
	}
	if c.Binary {
		s.K("BINARY")
	}
	if c.HasCS {
		s.K("CHARACTER", "SET")
		s.Q(c.CS)
	}
	if c.HasColl {
		s.K("COLLATE")
		s.Q(c.Coll)
	}
	switch c.Null {
	case model.NullStateNull:
		s.K("NULL")
	case model.NullStateNotNull:
		s.K("NOT", "NULL")
	}
	if c.HasDef {
		s.K("DEFAULT")
		if c.DefQuoted {
			s.L(c.Def)
		} else {
			s.W(c.Def)
		}
	}
	if c.HasOnUpd {
		s.K("ON", "UPDATE")
		s.K(c.OnUpd)
	}
	if c.AutoInc {
		s.K("AUTO_INCREMENT")
	}
	if c.Unique {
		s.K("UNIQUE", "KEY")
	}
	if c.Primary {
		s.K("PRIMARY", "KEY")
	}
	if c.Key {
		s.K("KEY")
	}
	if c.HasCmt {
		s.K("COMMENT")
		s.L(c.Cmt)
	}
}

func (s *Script) writeIdxCols(l []IdxCol) {
	s.P("(")
	for i, c := range l {
		if i > 0 {
			s.P(",")
		}
		s.Q(c.Name)
		if c.HasLen {
			s.P("(")
			s.W(c.Len)
			s.P(")")
		}
		switch c.Dir {
		case 1:
			s.K("ASC")
		case 2:
			s.K("DESC")
		}
	}
	s.P(")")
}

func (s *Script) action(what string, o model.ReferenceOption) {
	switch o {
	case model.ReferenceOptionNone:
		return
	case model.ReferenceOptionRestrict:
		s.K("ON", what, "RESTRICT")
	case model.ReferenceOptionCascade:
		s.K("ON", what, "CASCADE")
	case model.ReferenceOptionSetNull:
		s.K("ON", what, "SET", "NULL")
	case model.ReferenceOptionNoAction:
		s.K("ON", what, "NO", "ACTION")
	}
}

// WriteIdx adds the definition of an index or constraint.
func (s *Script) WriteIdx(x Idx) {
	if x.HasSym {
		s.K("CONSTRAINT")
		s.Q(x.Sym)
	}
	switch x.Kind {
	case model.IndexKindPrimaryKey:
		s.K("PRIMARY", "KEY")
	case model.IndexKindNormal:
		s.K("KEY")
	case model.IndexKindUnique:
		s.K("UNIQUE", "KEY")
	case model.IndexKindFullText:
		s.K("FULLTEXT", "KEY")
	case model.IndexKindSpatial:
		s.K("SPATIAL", "KEY")
	case model.IndexKindForeignKey:
		s.K("FOREIGN", "KEY")
	}
	if x.HasName {
		s.Q(x.Name)
	}
	switch x.Type {
	case model.IndexTypeBtree:
		s.K("USING", "BTREE")
	case model.IndexTypeHash:
		s.K("USING", "HASH")
	}
	s.writeIdxCols(x.Cols)
	if x.HasParser {
		s.K("WITH", "PARSER")
		s.Q(x.Parser)
	}
	if x.Ref != nil {
		s.WriteRef(x.Ref)
	}
}

// WriteRef adds a REFERENCES clause.
func (s *Script) WriteRef(r *Ref) {
	s.K("REFERENCES")
	s.Q(r.Table)
	s.writeIdxCols(r.Cols)
	switch r.Match {
	case model.ReferenceMatchFull:
		s.K("MATCH", "FULL")
	case model.ReferenceMatchPartial:
		s.K("MATCH", "PARTIAL")
	case model.ReferenceMatchSimple:
		s.K("MATCH", "SIMPLE")
	}
	s.action("DELETE", r.OnDelete)
	s.action("UPDATE", r.OnUpdate)
}

// WriteTable adds a CREATE TABLE statement, without terminator.
func (s *Script) WriteTable(t Table) {
	s.K("CREATE")
	if t.Temp {
		s.K("TEMPORARY")
	}
	s.K("TABLE")
	if t.IfNot {
		s.K("IF", "NOT", "EXISTS")
	}
	s.Q(t.Name)
	if t.HasLike {
		s.K("LIKE")
		s.Q(t.Like)
		return
	}
	s.P("(")
	n := 0
	for _, c := range t.Cols {
		if n > 0 {
			s.P(",")
		}
		n++
		s.WriteCol(c)
	}
	for _, x := range t.Idxs {
		if n > 0 {
			s.P(",")
		}
		n++
		s.WriteIdx(x)
	}
	s.P(")")
	for _, o := range t.Opts {
		s.K(o.Key)
		s.P("=")
		if o.Quoted {
			s.L(o.Val)
		} else {
			s.W(o.Val)
		}
	}
}

// SQL is the script of tables, each terminated.
func SQL(l ...Table) string {
	s := &Script{}
	for _, t := range l {
		s.WriteTable(t)
		s.P(";")
	}
	return s.Plain()
}

// Itoa is strconv.Itoa.
func Itoa(n int) string { return strconv.Itoa(n) }
