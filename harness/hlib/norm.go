package hlib

import "github.com/schemalex/schemalex/model"

// The documented normalisation, written down independently of the code under analysis.

func isInt(t model.ColumnType) bool {
	switch t {
	case model.ColumnTypeTinyInt, model.ColumnTypeSmallInt, model.ColumnTypeMediumInt, model.ColumnTypeInt, model.ColumnTypeInteger, model.ColumnTypeBigInt, model.ColumnTypeBool, model.ColumnTypeBoolean:
		return true
	}
	return false
}

// IsNumeric tells the numeric types (BIT excepted).
func IsNumeric(t model.ColumnType) bool {
	switch t {
	case model.ColumnTypeReal, model.ColumnTypeDouble, model.ColumnTypeFloat, model.ColumnTypeDecimal, model.ColumnTypeNumeric:
		return true
	}
	return isInt(t)
}

// IsBlob tells the types that have no default.
func IsBlob(t model.ColumnType) bool {
	return t >= model.ColumnTypeTinyBlob && t <= model.ColumnTypeLongText
}

func defaultWidth(t model.ColumnType, unsigned bool) (string, bool) {
	signed, uns := "", ""
	switch t {
	case model.ColumnTypeBool, model.ColumnTypeBoolean:
		signed, uns = "1", "1"
	case model.ColumnTypeTinyInt:
		signed, uns = "4", "3"
	case model.ColumnTypeSmallInt:
		signed, uns = "6", "5"
	case model.ColumnTypeMediumInt:
		signed, uns = "9", "8"
	case model.ColumnTypeInt, model.ColumnTypeInteger:
		signed, uns = "11", "10"
	case model.ColumnTypeBigInt:
		signed, uns = "20", "20"
	case model.ColumnTypeDecimal, model.ColumnTypeNumeric:
		signed, uns = "10", "10"
	default:
		return "", false
	}
	if t == model.ColumnTypeBool || t == model.ColumnTypeBoolean {
		return signed, true
	}
	if unsigned {
		return uns, true
	}
	return signed, true
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// isNumberText tells number literals: [+-] digits [. digits] [e [+-] digits]
func isNumberText(s string) bool {
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		i++
	}
	n := i
	for i < len(s) && isDigit(s[i]) {
		i++
	}
	if i == n {
		return false
	}
	if i < len(s) && s[i] == '.' {
		i++
		for i < len(s) && isDigit(s[i]) {
			i++
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		n = i
		for i < len(s) && isDigit(s[i]) {
			i++
		}
		if i == n {
			return false
		}
	}
	return i == len(s)
}

func upperASCII(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// NormCol is the documented normal form of a column.
func NormCol(c Col) Col {
	if w, ok := defaultWidth(c.Type, c.Unsigned); ok && !c.HasLen {
		c.HasLen, c.Len = true, w
	}
	numeric := IsNumeric(c.Type)
	switch c.Type {
	case model.ColumnTypeBool, model.ColumnTypeBoolean:
		c.Type = model.ColumnTypeTinyInt
	case model.ColumnTypeInteger:
		c.Type = model.ColumnTypeInt
	case model.ColumnTypeNumeric:
		c.Type = model.ColumnTypeDecimal
	case model.ColumnTypeReal:
		c.Type = model.ColumnTypeDouble
	}
	if c.Type == model.ColumnTypeDecimal && !c.HasDec {
		c.HasDec, c.Dec = true, "0"
	}
	if c.Null == model.NullStateNull {
		c.Null = model.NullStateNone
	}
	switch {
	case c.HasDef && numeric && c.DefQuoted:
		if isNumberText(c.Def) {
			c.Def, c.DefQuoted = upperASCII(c.Def), false
		}
	case c.HasDef && numeric && c.Def == "TRUE":
		c.Def = "1"
	case c.HasDef && numeric && c.Def == "FALSE":
		c.Def = "0"
	case !c.HasDef && c.Null != model.NullStateNotNull && !IsBlob(c.Type):
		c.HasDef, c.Def, c.DefQuoted = true, "NULL", false
	}
	return c
}

// NormTable is the documented normal form of a table: columns are normalised, inline PRIMARY and
// UNIQUE keys become indexes (before the others, in column order), and a foreign key with a symbol
// implies an index of that name (placed before it) unless there is one already.
func NormTable(t Table) Table {
	if t.HasLike {
		return t
	}
	var inline []Idx
	cols := make([]Col, len(t.Cols))
	for i, c := range t.Cols {
		c = NormCol(c)
		if c.Primary {
			inline = append(inline, Idx{Kind: model.IndexKindPrimaryKey, Cols: []IdxCol{{Name: c.Name}}})
			c.Primary = false
		}
		if c.Unique {
			inline = append(inline, Idx{Kind: model.IndexKindUnique, HasName: true, Name: c.Name, Cols: []IdxCol{{Name: c.Name}}})
			c.Unique = false
		}
		cols[i] = c
	}
	t.Cols = cols
	idxs := inline
	for _, x := range t.Idxs {
		if x.Kind == model.IndexKindForeignKey && x.HasSym {
			found := false
			for _, y := range inline {
				if y.Name == x.Sym {
					found = true
				}
			}
			for _, y := range t.Idxs {
				if y.Kind != model.IndexKindForeignKey && y.Name == x.Sym {
					found = true
				}
			}
			if !found {
				idxs = append(idxs, Idx{Kind: model.IndexKindNormal, HasName: true, Name: x.Sym, Type: x.Type, Cols: x.Cols})
			}
		}
		idxs = append(idxs, x)
	}
	t.Idxs = idxs
	return t
}

// NormTables normalises all of them.
func NormTables(l []Table) []Table {
	out := make([]Table, len(l))
	for i, t := range l {
		out[i] = NormTable(t)
	}
	return out
}
