package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// Generators of arbitrary parts of a schema.

// AnyType picks a type.
func AnyType() TypeName { return Types[vsym.Pick("type", len(Types))] }

// AnySize gives the column type t with any size t takes: lengths of n digits, up to n values.
func AnySize(c *Col, t TypeName, n int) {
	c.Type = t.Type
	form := 0
	switch t.Size {
	case 1:
		form = vsym.Pick("size", 2)
	case 2:
		form = 2 * vsym.Pick("size", 2)
	case 3:
		form = vsym.Pick("size", 3)
	case 4:
		var vals []string
		for k := 1 + vsym.Pick("values", n); k > 0; k-- {
			vals = append(vals, Bytes("value", 1))
		}
		SetVals(c, vals)
	}
	if form > 0 {
		c.HasLen, c.Len = true, Digits("len", n)
	}
	if form == 2 {
		c.HasDec, c.Dec = true, Digits("dec", 1)
	}
}

// SetVals gives the values of an ENUM or SET.
func SetVals(c *Col, vals []string) {
	if c.Type == model.ColumnTypeEnum {
		c.Enum = vals
	} else {
		c.Set = vals
	}
}

// Fix gives values to an ENUM or SET that has none.
func Fix(c *Col) {
	if (c.Type == model.ColumnTypeEnum || c.Type == model.ColumnTypeSet) && len(c.Enum)+len(c.Set) == 0 {
		SetVals(c, []string{"a"})
	}
}

// AnyFlags picks sign, zero fill, binary, character set and collation as far as t takes them.
func AnyFlags(c *Col, t TypeName) {
	if t.Num {
		c.Unsigned = vsym.Pick("unsigned", 2) == 1
		c.Zerofill = vsym.Pick("zerofill", 2) == 1
	}
	if t.Char {
		c.Binary = vsym.Pick("binary", 2) == 1
	}
	if t.Char || t.Size == 4 {
		switch vsym.Pick("charset", 3) {
		case 1:
			c.HasCS, c.CS = true, Bytes("cs", 1)
		case 2:
			c.HasColl, c.Coll = true, Bytes("coll", 1)
		}
	}
}

// AnyNull picks the nullability.
func AnyNull(c *Col) {
	c.Null = []model.NullState{model.NullStateNone, model.NullStateNotNull, model.NullStateNull}[vsym.Pick("null", 3)]
}

// Defaults is the number of forms of defaults.
const Defaults = 8

// SetDefault gives the n-th form of default; form 0 is none.
func SetDefault(c *Col, n int) {
	c.HasDef = n > 0
	switch n {
	case 1:
		c.Def, c.DefQuoted = Bytes("default", 1), true
	case 2:
		c.Def, c.DefQuoted = "", true
	case 3:
		c.Def = Digits("number", 1)
	case 4:
		c.Def = "-" + Digits("number", 1) + ".5E+1"
	case 5:
		c.Def = []string{"NULL", "TRUE", "FALSE"}[vsym.Pick("constant", 3)]
	case 6:
		c.Def = "CURRENT_TIMESTAMP"
	case 7:
		c.Def = "NOW()"
	}
}

// AnyDefault picks a default.
func AnyDefault(c *Col) { SetDefault(c, vsym.Pick("default", Defaults)) }

// AnyKeys picks the other attributes of a column.
func AnyKeys(c *Col) {
	c.AutoInc = vsym.Pick("auto increment", 2) == 1
	switch vsym.Pick("key", 4) {
	case 1:
		c.Unique = true
	case 2:
		c.Primary = true
	case 3:
		c.Key = true
	}
	if vsym.Pick("on update", 2) == 1 {
		c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
	}
	switch vsym.Pick("comment", 3) {
	case 1:
		c.HasCmt = true
	case 2:
		c.HasCmt, c.Cmt = true, Bytes("comment", 1)
	}
}

// AnySubset is a column with any set of attributes, as far as its type takes them, none of them arbitrary.
func AnySubset(hosts ...model.ColumnType) Col {
	t := typeName(hosts[vsym.Pick("host", len(hosts))])
	c := Col{Name: "c", Type: t.Type}
	Fix(&c)
	if t.Size == 1 && !t.Num {
		c.HasLen, c.Len = true, "9"
	}
	on := func(tag string) bool { return vsym.Pick(tag, 2) == 1 }
	if t.Num {
		c.Unsigned, c.Zerofill = on("unsigned"), on("zerofill")
	} else if t.Char {
		c.Binary = on("binary")
		if on("collate") {
			c.HasCS, c.CS, c.HasColl, c.Coll = true, "b", true, "b"
		}
	}
	AnyNull(&c)
	if on("default") {
		c.HasDef, c.Def, c.DefQuoted = true, "1", true
	}
	c.AutoInc, c.Primary, c.Unique, c.Key = on("auto increment"), on("primary"), on("unique"), on("key")
	if on("on update") {
		c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
	}
	if on("comment") {
		c.HasCmt, c.Cmt = true, "x"
	}
	return c
}

// AnyIdxCols picks 1 to max columns among names, or of any name if there are none.
func AnyIdxCols(max int, names ...string) []IdxCol {
	var out []IdxCol
	for k := 1 + vsym.Pick("columns", max); k > 0; k-- {
		var c IdxCol
		if len(names) > 0 {
			c.Name = names[vsym.Pick("column", len(names))]
		} else {
			c.Name = Bytes("column", 1)
		}
		if vsym.Pick("prefix", 2) == 1 {
			c.HasLen, c.Len = true, Digits("prefix length", 1)
		}
		c.Dir = vsym.Pick("direction", 3)
		out = append(out, c)
	}
	return out
}

// Kinds of indexes.
var Kinds = []model.IndexKind{
	model.IndexKindPrimaryKey, model.IndexKindNormal, model.IndexKindUnique,
	model.IndexKindFullText, model.IndexKindSpatial, model.IndexKindForeignKey,
}

// AnyHead picks kind, symbol, name, index type and parser of an index.
func AnyHead(x *Idx) {
	x.Kind = Kinds[vsym.Pick("kind", len(Kinds))]
	switch x.Kind {
	case model.IndexKindPrimaryKey, model.IndexKindUnique, model.IndexKindForeignKey:
		if vsym.Pick("symbol", 2) == 1 {
			x.HasSym, x.Sym = true, Bytes("symbol", 1)
		}
	}
	if x.Kind != model.IndexKindPrimaryKey && vsym.Pick("named", 2) == 1 {
		x.HasName, x.Name = true, Bytes("name", 1)
	}
	switch x.Kind {
	case model.IndexKindPrimaryKey, model.IndexKindNormal, model.IndexKindUnique:
		x.Type = []model.IndexType{model.IndexTypeNone, model.IndexTypeBtree, model.IndexTypeHash}[vsym.Pick("using", 3)]
	case model.IndexKindFullText:
		if vsym.Pick("parser", 2) == 1 {
			x.HasParser, x.Parser = true, Bytes("parser", 1)
		}
	}
}

// AnyRef picks a reference to the table with any match and actions.
func AnyRef(table string, cols []IdxCol) *Ref {
	r := &Ref{Table: table, Cols: cols}
	r.Match = []model.ReferenceMatch{model.ReferenceMatchNone, model.ReferenceMatchFull, model.ReferenceMatchPartial, model.ReferenceMatchSimple}[vsym.Pick("match", 4)]
	r.OnDelete = AnyAction("on delete")
	r.OnUpdate = AnyAction("on update")
	return r
}

// AnyAction picks an action.
func AnyAction(tag string) model.ReferenceOption {
	return []model.ReferenceOption{model.ReferenceOptionNone, model.ReferenceOptionRestrict, model.ReferenceOptionCascade, model.ReferenceOptionSetNull, model.ReferenceOptionNoAction}[vsym.Pick(tag, 5)]
}

// OptForm is a table option: its key as recorded and how its value may be.
type OptForm struct{ Key, Kinds string }

// OptForms lists the table options: n number, w word, s string, or the first letter of a constant.
var OptForms = []OptForm{
	{"ENGINE", "wsY"}, {"AUTO_INCREMENT", "n"}, {"AVG_ROW_LENGTH", "n"},
	{"DEFAULT CHARACTER SET", "wsB"}, {"DEFAULT COLLATE", "wsB"}, {"CHECKSUM", "n"},
	{"COMMENT", "s"}, {"CONNECTION", "s"}, {"DATA DIRECTORY", "s"}, {"DELAY_KEY_WRITE", "n"},
	{"INDEX DIRECTORY", "s"}, {"INSERT_METHOD", "wNIL"}, {"KEY_BLOCK_SIZE", "n"}, {"MAX_ROWS", "n"},
	{"MIN_ROWS", "n"}, {"PACK_KEYS", "nwD"}, {"PASSWORD", "s"}, {"ROW_FORMAT", "DFXCRM"},
	{"STATS_AUTO_RECALC", "nD"}, {"STATS_PERSISTENT", "nD"}, {"STATS_SAMPLE_PAGES", "n"},
}

// OptConst are the constant values of options by letter.
func OptConst(k byte) string {
	switch k {
	case 'D':
		return "DEFAULT"
	case 'F':
		return "FIXED"
	case 'X':
		return "DYNAMIC"
	case 'C':
		return "COMPRESSED"
	case 'R':
		return "REDUNDANT"
	case 'Y':
		return "MEMORY"
	case 'B':
		return "binary"
	case 'N':
		return "NO"
	case 'I':
		return "FIRST"
	case 'L':
		return "LAST"
	}
	return "COMPACT"
}

// AnyOpt picks a table option with strings of n bytes.
func AnyOpt(n int) Opt {
	f := OptForms[vsym.Pick("option", len(OptForms))]
	o := Opt{Key: f.Key}
	switch k := f.Kinds[vsym.Pick("value", len(f.Kinds))]; k {
	case 'n':
		o.Val = Digits("number", n)
	case 'w':
		o.Val = Word("word", n)
	case 's':
		o.Val, o.Quoted = Bytes("string", n-vsym.Pick("shorter", 2)), true
	default:
		o.Val = OptConst(k)
	}
	return o
}

// Parsing

// ColID is a plain column.
func ColID(name string) Col {
	return Col{Name: name, Type: model.ColumnTypeInt, HasLen: true, Len: "11", Null: model.NullStateNotNull}
}

// On is a list of plain index columns.
func On(names ...string) []IdxCol {
	var out []IdxCol
	for _, n := range names {
		out = append(out, IdxCol{Name: n})
	}
	return out
}

// FullTable is a table with a bit of everything.
func FullTable(name string) Table {
	return Table{
		Name: name, IfNot: true,
		Cols: []Col{
			{Name: "id", Type: model.ColumnTypeBigInt, Unsigned: true, Null: model.NullStateNotNull, AutoInc: true},
			{Name: "s", Type: model.ColumnTypeVarChar, HasLen: true, Len: "20", HasCS: true, CS: "utf8", HasColl: true, Coll: "utf8_bin", HasDef: true, Def: "it's", DefQuoted: true, HasCmt: true, Cmt: "say \"x\" \\ `y`"},
			{Name: "e", Type: model.ColumnTypeEnum, Enum: []string{"a", "b'", ""}, Null: model.NullStateNotNull, HasDef: true, Def: "a", DefQuoted: true},
			{Name: "d", Type: model.ColumnTypeDecimal, HasLen: true, Len: "10", HasDec: true, Dec: "2", HasDef: true, Def: "-1.5"},
			{Name: "w", Type: model.ColumnTypeTimestamp, Null: model.NullStateNull, HasDef: true, Def: "CURRENT_TIMESTAMP", HasOnUpd: true, OnUpd: "CURRENT_TIMESTAMP"},
			{Name: "u", Type: model.ColumnTypeInt, Unique: true},
		},
		Idxs: []Idx{
			{Kind: model.IndexKindPrimaryKey, Cols: On("id"), Type: model.IndexTypeBtree},
			{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: []IdxCol{{Name: "s", HasLen: true, Len: "4", Dir: 2}, {Name: "d"}}},
			{Kind: model.IndexKindFullText, HasName: true, Name: "ft", Cols: On("s"), HasParser: true, Parser: "ngram"},
			{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "fk", Cols: On("d"), Ref: &Ref{Table: "o", Cols: On("id"), Match: model.ReferenceMatchFull, OnDelete: model.ReferenceOptionSetNull, OnUpdate: model.ReferenceOptionCascade}},
		},
		Opts: []Opt{{"ENGINE", "InnoDB", false}, {"DEFAULT CHARACTER SET", "utf8", false}, {"COMMENT", "it's", true}},
	}
}
