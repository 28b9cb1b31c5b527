// Package c29: a database that has the schema needs no migration.
package c29

import (
	"bytes"
	"strings"

	schemalex "github.com/schemalex/schemalex"
	"github.com/schemalex/schemalex/diff"
	"github.com/schemalex/schemalex/internal/vharness/hlib"
	"github.com/schemalex/schemalex/internal/vstub/sql"
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// server is a MySQL server: what it would print for SHOW CREATE TABLE.
type server struct {
	eight bool // as version 8 does, or as version 5.7
	odd   bool // something is spelled so that the server changes more than the spelling, or what is not covered here
}

func text(s string) string {
	var b []byte
	b = append(b, '\'')
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case 0:
			b = append(b, '\\', '0')
		case '\n':
			b = append(b, '\\', 'n')
		case '\r':
			b = append(b, '\\', 'r')
		case '\\':
			b = append(b, '\\', '\\')
		case '\'':
			b = append(b, '\'', '\'')
		default:
			b = append(b, s[i])
		}
	}
	return string(append(b, '\''))
}

func integer(s string) bool {
	if len(s) > 1 && s[0] == '-' {
		s = s[1:]
	}
	if len(s) == 0 || s[0] == '0' && len(s) > 1 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

func (m *server) column(c hlib.Col, primary bool) string {
	s := hlib.Backquoted(c.Name) + " "
	isInt := false
	size := c.Len
	if c.HasDec {
		size += "," + c.Dec
	}
	name := strings.ToLower(hlib.NameOfType(c.Type))
	signed, unsigned := "", ""
	switch c.Type {
	case model.ColumnTypeTinyInt:
		signed, unsigned = "4", "3"
	case model.ColumnTypeSmallInt:
		signed, unsigned = "6", "5"
	case model.ColumnTypeMediumInt:
		signed, unsigned = "9", "8"
	case model.ColumnTypeInt, model.ColumnTypeInteger:
		name, signed, unsigned = "int", "11", "10"
	case model.ColumnTypeBigInt:
		signed, unsigned = "20", "20"
	case model.ColumnTypeBool, model.ColumnTypeBoolean:
		name, size = "tinyint", "1"
		isInt = true
		if c.Unsigned {
			m.odd = true
		}
	case model.ColumnTypeReal:
		name = "double"
	case model.ColumnTypeDecimal, model.ColumnTypeNumeric:
		name = "decimal"
		switch {
		case !c.HasLen:
			size = "10,0"
		case !c.HasDec:
			size += ",0"
		}
	case model.ColumnTypeBit, model.ColumnTypeChar, model.ColumnTypeBinary, model.ColumnTypeVarChar, model.ColumnTypeVarBinary:
		if !c.HasLen {
			m.odd = true
		}
	case model.ColumnTypeYear:
		m.odd = true
	}
	if signed != "" {
		isInt = true
		width := signed
		if c.Unsigned {
			width = unsigned
		}
		switch {
		case m.eight && !c.Zerofill && !(name == "tinyint" && size == "1"):
			if size != "" && size != width {
				m.odd = true // the server forgets it
			}
			size = ""
		case size == "":
			size = width
		}
	}
	text7 := c.Type >= model.ColumnTypeTinyText && c.Type <= model.ColumnTypeLongText
	if text7 && c.HasLen {
		m.odd = true
	}
	s += name
	vals := c.Enum
	if len(vals) == 0 {
		vals = c.Set
	}
	switch {
	case len(vals) > 0:
		s += "("
		for i, v := range vals {
			if i > 0 {
				s += ","
			}
			s += text(v)
			if strings.HasSuffix(v, " ") {
				m.odd = true
			}
		}
		s += ")"
	case size != "":
		s += "(" + size + ")"
	}
	if c.Unsigned {
		s += " unsigned"
	}
	if c.Zerofill {
		s += " zerofill"
		if !c.Unsigned {
			m.odd = true
		}
	}
	if c.Binary || c.Key || c.HasColl && !c.HasCS {
		m.odd = true
	}
	if c.HasCS {
		s += " CHARACTER SET " + c.CS
	}
	if c.HasColl {
		s += " COLLATE " + c.Coll
	}
	notNull := c.Null == model.NullStateNotNull
	if (primary || c.Primary || c.AutoInc) && !notNull {
		m.odd = true
	}
	stamp := c.Type == model.ColumnTypeTimestamp
	switch {
	case notNull:
		s += " NOT NULL"
	case stamp:
		s += " NULL"
		if !m.eight && c.Null == model.NullStateNone {
			m.odd = true
		}
	}
	blob := hlib.IsBlob(c.Type) || c.Type == model.ColumnTypeJSON || c.Type == model.ColumnTypeGEOMETRY
	now := stamp || c.Type == model.ColumnTypeDateTime
	switch {
	case c.HasDef && c.Def == "NULL" && !c.DefQuoted:
		if notNull || blob {
			m.odd = true
		}
		s += " DEFAULT NULL"
	case c.HasDef && c.Def == "CURRENT_TIMESTAMP" && !c.DefQuoted:
		if !now {
			m.odd = true
		}
		s += " DEFAULT CURRENT_TIMESTAMP"
	case c.HasDef:
		def := c.Def
		switch {
		case blob || c.AutoInc || c.Type == model.ColumnTypeBit:
			m.odd = true
		case isInt && !c.DefQuoted && def == "TRUE":
			def = "1"
		case isInt && !c.DefQuoted && def == "FALSE":
			def = "0"
		case isInt:
			m.odd = m.odd || !integer(def)
		case name == "decimal":
			digits := 0
			if at := strings.IndexByte(def, '.'); at >= 0 {
				digits = len(def) - at - 1
				m.odd = m.odd || !integer(def[:at]) || digits > 0 && !integer("1"+def[at+1:])
			} else {
				m.odd = m.odd || !integer(def)
			}
			if c.HasDec && c.Dec != hlib.Itoa(digits) || !c.HasDec && digits > 0 {
				m.odd = true
			}
		case hlib.IsNumeric(c.Type):
			m.odd = m.odd || !integer(def)
		case !c.DefQuoted:
			m.odd = true
		case len(vals) > 0: // one of the values
			in := false
			for _, v := range vals {
				in = in || v == def
			}
			m.odd = m.odd || !in
		}
		s += " DEFAULT " + text(def)
	case !notNull && !hlib.IsBlob(c.Type):
		s += " DEFAULT NULL"
	}
	if c.HasOnUpd {
		if !now {
			m.odd = true
		}
		s += " ON UPDATE CURRENT_TIMESTAMP"
	}
	if c.AutoInc {
		if !isInt {
			m.odd = true
		}
		s += " AUTO_INCREMENT"
	}
	if c.HasCmt {
		if c.Cmt == "" {
			m.odd = true
		}
		s += " COMMENT " + text(c.Cmt)
	}
	return s
}

func (m *server) on(l []hlib.IdxCol) string {
	s := " ("
	for i, c := range l {
		if i > 0 {
			s += ","
		}
		s += hlib.Backquoted(c.Name)
		if c.HasLen {
			s += "(" + c.Len + ")"
		}
		if c.Dir == 2 {
			s += " DESC"
			if !m.eight {
				m.odd = true
			}
		}
	}
	return s + ")"
}

// begins tells whether an index starts with some columns.
func begins(x hlib.Idx, cols []hlib.IdxCol) bool {
	if x.Kind == model.IndexKindForeignKey || x.Kind == model.IndexKindFullText || x.Kind == model.IndexKindSpatial || len(x.Cols) < len(cols) {
		return false
	}
	for i, c := range cols {
		if x.Cols[i].Name != c.Name || x.Cols[i].HasLen {
			return false
		}
	}
	return true
}

func (m *server) show(t hlib.Table, tail string) string {
	s := "CREATE TABLE " + hlib.Backquoted(t.Name) + " (\n"
	var keys []hlib.Idx
	primary := map[string]bool{}
	for _, c := range t.Cols {
		if c.Primary {
			keys = append(keys, hlib.Idx{Kind: model.IndexKindPrimaryKey, Cols: hlib.On(c.Name)})
		}
		if c.Unique {
			keys = append(keys, hlib.Idx{Kind: model.IndexKindUnique, HasName: true, Name: c.Name, Cols: hlib.On(c.Name)})
		}
	}
	keys = append(keys, t.Idxs...)
	names := map[string]bool{}
	syms := map[string]bool{}
	pks := 0
	for _, x := range keys {
		switch {
		case x.Kind == model.IndexKindPrimaryKey:
			pks++
			for _, c := range x.Cols {
				primary[c.Name] = true
			}
			m.odd = m.odd || x.HasSym || x.HasName
		case x.Kind == model.IndexKindForeignKey:
			m.odd = m.odd || !x.HasSym || x.HasName || x.Type != model.IndexTypeNone || syms[x.Sym] || x.Sym == ""
			syms[x.Sym] = true
		default:
			m.odd = m.odd || !x.HasName || x.HasSym || names[x.Name] || x.HasParser
			names[x.Name] = true
		}
	}
	m.odd = m.odd || pks > 1
	for i, c := range t.Cols {
		if i > 0 {
			s += ",\n"
		}
		s += "  " + m.column(c, primary[c.Name])
	}
	kind := func(k model.IndexKind, word string) {
		for _, x := range keys {
			if x.Kind != k {
				continue
			}
			s += ",\n  " + word
			if x.HasName {
				s += " " + hlib.Backquoted(x.Name)
			}
			s += m.on(x.Cols)
			switch x.Type {
			case model.IndexTypeBtree:
				s += " USING BTREE"
			case model.IndexTypeHash:
				s += " USING HASH"
			}
		}
	}
	kind(model.IndexKindPrimaryKey, "PRIMARY KEY")
	kind(model.IndexKindUnique, "UNIQUE KEY")
	kind(model.IndexKindNormal, "KEY")
	for _, x := range keys {
		if x.Kind == model.IndexKindForeignKey && !names[x.Sym] {
			found := false
			for _, y := range keys {
				found = found || begins(y, x.Cols)
			}
			if !found {
				s += ",\n  KEY " + hlib.Backquoted(x.Sym) + m.on(x.Cols)
			}
		}
	}
	kind(model.IndexKindFullText, "FULLTEXT KEY")
	kind(model.IndexKindSpatial, "SPATIAL KEY")
	for _, x := range keys {
		if x.Kind != model.IndexKindForeignKey {
			continue
		}
		for _, c := range append(append([]hlib.IdxCol(nil), x.Cols...), x.Ref.Cols...) {
			m.odd = m.odd || c.HasLen || c.Dir == 2
		}
		s += ",\n  CONSTRAINT " + hlib.Backquoted(x.Sym) + " FOREIGN KEY" + m.on(x.Cols) + " REFERENCES " + hlib.Backquoted(x.Ref.Table) + m.on(x.Ref.Cols)
		for i, o := range []model.ReferenceOption{x.Ref.OnDelete, x.Ref.OnUpdate} {
			on := []string{" ON DELETE ", " ON UPDATE "}[i]
			switch o {
			case model.ReferenceOptionCascade:
				s += on + "CASCADE"
			case model.ReferenceOptionSetNull:
				s += on + "SET NULL"
			case model.ReferenceOptionNoAction:
				s += on + "NO ACTION"
			case model.ReferenceOptionRestrict:
				m.odd = true
			}
		}
		m.odd = m.odd || x.Ref.Match != model.ReferenceMatchNone
	}
	return s + "\n)" + tail
}

// tails are what a server prints behind the definitions.
var tails = []string{
	" ENGINE=InnoDB DEFAULT CHARSET=utf8",
	" ENGINE=InnoDB AUTO_INCREMENT=12 DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci",
	" ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_bin ROW_FORMAT=DYNAMIC COMMENT='it''s \\\\ a; table'",
	" ENGINE=MyISAM AVG_ROW_LENGTH=7 MAX_ROWS=9 MIN_ROWS=1 DEFAULT CHARSET=latin1 PACK_KEYS=1 CHECKSUM=1 DELAY_KEY_WRITE=1",
	" ENGINE=InnoDB DEFAULT CHARSET=utf8\n/*!50100 PARTITION BY HASH (`a`)\nPARTITIONS 4 */",
	" ENGINE=InnoDB DEFAULT CHARSET=utf8 STATS_PERSISTENT=0 STATS_AUTO_RECALC=1 STATS_SAMPLE_PAGES=7",
	" ENGINE=InnoDB DEFAULT CHARSET=utf8 KEY_BLOCK_SIZE=8 INSERT_METHOD=LAST",
	" ENGINE=MRG_MyISAM DEFAULT CHARSET=utf8 DATA DIRECTORY='/d/' INDEX DIRECTORY='/i/'",
}

func database(defs ...sql.Table) schemalex.SchemaSource {
	sql.The = &sql.Database{Tables: defs}
	s, err := schemalex.NewSchemaSource("mysql://u:p@tcp(h:1)/d")
	vsym.Assert(err == nil, "a database source is refused")
	return s
}

// compare compares a file with a database, one way or the other.
func compare(file string, def sql.Table, side int) (string, error) {
	var buf bytes.Buffer
	var a, b schemalex.SchemaSource = &hlib.Source{S: file}, database(sql.Table{Name: "q", Def: "CREATE TABLE `q` (\n  `i` int(11) DEFAULT NULL\n) ENGINE=InnoDB DEFAULT CHARSET=utf8"}, def)
	if side == 1 {
		a, b = b, a
	}
	err := diff.Sources(&buf, a, b)
	return buf.String(), err
}

func same(t hlib.Table, tail string) {
	m := &server{eight: vsym.Pick("version", 2) == 1}
	def := m.show(t, tail)
	vsym.Assume(!m.odd)
	out, err := compare("CREATE TABLE q (i INT);\n"+hlib.SQL(t), sql.Table{Name: t.Name, Def: def}, vsym.Pick("side", 2))
	if err != nil {
		vsym.Assert(false, "cannot compare with a database that has the schema: "+err.Error())
	}
	vsym.Assert(len(out) == 0, "a database that has the schema gives a migration: "+out)
	vsym.Reach("same")
}

// H1Near: a rich table with any two parts changed.
func H1Near() {
	n := &hlib.Near{Left: 2, Wide: vsym.Thorough()}
	same(n.Table("t"), tails[0])
}

// H2Tails: whatever is printed behind the definitions.
func H2Tails() {
	n := &hlib.Near{Left: 0}
	t := n.Table("t" + vsym.Str("name", 1))
	t.Opts = nil
	same(t, tails[vsym.Pick("tail", len(tails))])
}

// H3Columns: a column of every type with every combination of attributes.
func H3Columns() {
	ty := hlib.AnyType()
	c := hlib.Col{Name: "c", Type: ty.Type}
	hlib.AnySize(&c, ty, 1)
	hlib.Fix(&c)
	hlib.AnyFlags(&c, ty)
	if c.HasCS { // names of character sets and collations are words
		c.CS = "utf8"
	}
	if c.HasColl {
		c.Coll = "utf8_bin"
	}
	hlib.AnyNull(&c)
	hlib.AnyDefault(&c)
	if vsym.Pick("on update", 2) == 1 {
		vsym.Assume(c.Type == model.ColumnTypeTimestamp || c.Type == model.ColumnTypeDateTime)
		c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
	}
	if vsym.Thorough() {
		hlib.AnyKeys(&c)
		if vsym.Pick("comment", 2) == 1 {
			c.HasCmt, c.Cmt = true, vsym.Str("comment", 1)
		}
	}
	same(hlib.Table{Name: "t", Cols: []hlib.Col{c, {Name: "z", Type: model.ColumnTypeDate}}}, tails[0])
}

// H4Texts: texts of any bytes.
func H4Texts() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	x := vsym.Str("x", n)
	t := hlib.Table{Name: "t", Cols: []hlib.Col{{Name: "a", Type: model.ColumnTypeVarChar, HasLen: true, Len: "9"}}}
	c := &t.Cols[0]
	switch vsym.Pick("at", 5) {
	case 0:
		c.HasDef, c.Def, c.DefQuoted = true, x, true
	case 1:
		c.HasCmt, c.Cmt = true, x
	case 2:
		vsym.Assume(x[n-1] != ' ')
		c.Type, c.HasLen, c.Len, c.Enum = model.ColumnTypeEnum, false, "", []string{x, "other"}
	case 3:
		c.Name = x
	case 4:
		t.Idxs = []hlib.Idx{{Kind: model.IndexKindUnique, HasName: true, Name: x, Cols: hlib.On("a")}}
	}
	same(t, tails[0])
}

// H5Changed: a genuine change is found, and nothing else.
func H5Changed() {
	n := &hlib.Near{Left: 1}
	plain, t := (&hlib.Near{}).Table("t"), n.Table("t")
	file, shown := plain, t
	if vsym.Pick("changed", 2) == 1 {
		file, shown = t, plain
	}
	m := &server{}
	def := m.show(shown, tails[0])
	if m.odd {
		return
	}
	m.show(file, "")
	vsym.Assume(!m.odd)
	side := vsym.Pick("side", 2)
	out, err := compare("CREATE TABLE q (i INT);\n"+hlib.SQL(file), sql.Table{Name: "t", Def: def}, side)
	if err != nil {
		vsym.Assert(false, "cannot compare: "+err.Error())
	}
	vsym.Assert((len(out) == 0) == hlib.AlikeTable(hlib.NormTable(file), hlib.NormTable(shown)), "a migration although nothing changed, or none although something did: "+out)
	from, to := file, shown
	if side == 1 {
		from, to = to, from
	}
	db := &hlib.DB{Tables: []hlib.Table{hlib.NormTable(from)}}
	db.Apply(hlib.ReadSQL(out, "migration"))
	hlib.SameKeys(db.Tables[0].Idxs, hlib.NormTable(to).Idxs, "after the migration")
	for i, c := range hlib.NormTable(to).Cols {
		hlib.SameCol(db.Tables[0].Cols[i], c, "after the migration: column")
	}
	vsym.Reach("changed")
}

// H6Large: tables that are large in any one way.
func H6Large() { same(hlib.LargeTable("t"), tails[0]) }
