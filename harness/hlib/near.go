package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// Tables that differ from a given rich table in at most a given number of ways. This reaches every
// combination of that many parts, wherever in the table they are, at a fraction of the cost of all
// combinations of all parts.

// Near makes such tables: Left is how many ways are left.
type Near struct {
	Left int
	Wide bool // more types, and every part of every column and index
	Opts bool // more table options
	Tag  string
}

// Way picks one of n ways of doing something, of which 0 is the plain one.
func (n *Near) Way(tag string, ways int) int {
	if n.Left == 0 {
		return 0
	}
	v := vsym.Pick(n.Tag+tag, ways)
	if v != 0 {
		n.Left--
	}
	return v
}

func (n *Near) flip(tag string, b *bool) {
	if n.Way(tag, 2) == 1 {
		*b = !*b
	}
}

// text makes s an arbitrary one.
func (n *Near) text(tag string, s *string) {
	if n.Way(tag, 2) == 1 {
		*s = Bytes(n.Tag+tag+" text", 1)
	}
}

var nearTypes = []model.ColumnType{
	model.ColumnTypeInt, model.ColumnTypeVarChar, model.ColumnTypeTinyInt, model.ColumnTypeBool, model.ColumnTypeInteger,
	model.ColumnTypeDecimal, model.ColumnTypeDouble, model.ColumnTypeTimestamp, model.ColumnTypeText,
	model.ColumnTypeEnum, model.ColumnTypeSet, model.ColumnTypeBit,
}

func (n *Near) col(tag string, c Col) Col {
	plain := c.Type
	was := typeName(plain)
	if n.Wide {
		if k := n.Way(tag+".type", len(Types)+1); k > 0 {
			c.Type = Types[k-1].Type
		}
	} else if k := n.Way(tag+".type", len(nearTypes)+1); k > 0 {
		c.Type = nearTypes[k-1]
	}
	t := typeName(c.Type)
	if c.Type != plain {
		if t.Size != was.Size {
			c.HasLen, c.Len, c.HasDec, c.Dec = false, "", false, ""
		}
		if !t.Num {
			c.Unsigned = false
		}
		Fix(&c)
	}
	if t.Size == 1 || t.Size == 3 {
		if n.Way(tag+".size", 2) == 1 {
			if c.HasLen {
				c.HasLen, c.Len = false, ""
			} else {
				c.HasLen, c.Len = true, "7"
			}
		}
	}
	if t.Size == 2 || t.Size == 3 {
		if n.Way(tag+".decimals", 2) == 1 {
			c.HasLen, c.Len, c.HasDec, c.Dec = true, "9", true, "2"
		}
	}
	if t.Size == 4 {
		switch n.Way(tag+".values", 4) {
		case 3:
			SetVals(&c, []string{"c", Bytes(n.Tag+tag+" values", 2), "b"})
		case 1:
			SetVals(&c, []string{"a", Bytes(n.Tag+tag+" value", 1)})
		case 2:
			SetVals(&c, []string{"a", "", "a,b", "c"})
		}
	}
	if t.Num {
		n.flip(tag+".unsigned", &c.Unsigned)
		n.flip(tag+".zerofill", &c.Zerofill)
	}
	if t.Char {
		n.flip(tag+".binary", &c.Binary)
	}
	if t.Char || t.Size == 4 {
		if n.Way(tag+".charset", 2) == 1 {
			c.HasCS, c.CS = true, "utf8"
		}
		if n.Way(tag+".collate", 2) == 1 {
			c.HasColl, c.Coll = true, "utf8_bin"
		}
	}
	if k := n.Way(tag+".null", 3); k > 0 {
		c.Null = (c.Null + model.NullState(k)) % 3
	}
	if k := n.Way(tag+".default", 8); k == 7 {
		c.HasDef, c.Def, c.DefQuoted = true, Bytes(n.Tag+tag+" default", 2), true
	} else if k > 0 {
		c.HasDef = true
		c.Def, c.DefQuoted = []string{"v", "12", "", "3", "TRUE", "NULL"}[k-1], k <= 3
	}
	if n.Way(tag+".on update", 2) == 1 {
		c.HasOnUpd, c.OnUpd = true, "CURRENT_TIMESTAMP"
	}
	n.flip(tag+".auto increment", &c.AutoInc)
	switch n.Way(tag+".key", 4) {
	case 1:
		c.Unique = true
	case 2:
		c.Primary = true
	case 3:
		c.Key = true
	}
	switch n.Way(tag+".comment", 3) {
	case 1:
		c.HasCmt = true
	case 2:
		c.HasCmt, c.Cmt = true, Bytes(n.Tag+tag+" comment", 1)
	}
	return c
}

func typeName(t model.ColumnType) TypeName {
	for _, x := range Types {
		if x.Type == t {
			return x
		}
	}
	return TypeName{}
}

func (n *Near) idxCols(tag string, l []IdxCol, more string) []IdxCol {
	for i := range l {
		t := tag + "." + Itoa(i)
		if n.Way(t+".prefix", 2) == 1 {
			l[i].HasLen, l[i].Len = !l[i].HasLen, "5"
			if !l[i].HasLen {
				l[i].Len = ""
			}
		}
		if k := n.Way(t+".direction", 3); k > 0 {
			l[i].Dir = (l[i].Dir + k) % 3
		}
	}
	switch n.Way(tag+".columns", 5) {
	case 4:
		if more == "y" {
			l = On("z", "x", "y")
		} else {
			l = On("c", "a", "b")
		}
	case 1:
		l = append(l, IdxCol{Name: more})
	case 2:
		l = append([]IdxCol{{Name: more, HasLen: true, Len: "6", Dir: 2}}, l...)
	case 3:
		if len(l) > 1 {
			l = l[1:]
		} else {
			l = []IdxCol{{Name: more}}
		}
	}
	return l
}

// idx gives the index; false means there is none.
func (n *Near) idx(tag string, x Idx, more string) (Idx, bool) {
	switch k := n.Way(tag+".kind", 7); k {
	case 0:
	case 6:
		return x, false
	default:
		was := x.Kind
		at := 0
		for i := range Kinds {
			if Kinds[i] == x.Kind {
				at = i
			}
		}
		x.Kind = Kinds[(at+k)%len(Kinds)]
		if was == model.IndexKindForeignKey {
			x.Ref = nil
			x.HasName, x.Name = true, x.Sym
		}
		if x.Kind == model.IndexKindForeignKey {
			x.Ref = &Ref{Table: "o", Cols: On("x")}
			x.HasSym, x.Sym = true, "sy"+tag
		}
		if was == model.IndexKindPrimaryKey {
			x.HasName, x.Name = true, "na"+tag
		}
		if x.Kind == model.IndexKindPrimaryKey {
			x.HasName, x.Name = false, ""
		}
		if x.Kind == model.IndexKindNormal || x.Kind == model.IndexKindFullText || x.Kind == model.IndexKindSpatial {
			x.HasSym, x.Sym = false, ""
		}
		if x.Kind == model.IndexKindFullText || x.Kind == model.IndexKindSpatial || x.Kind == model.IndexKindForeignKey {
			x.Type = model.IndexTypeNone
		}
	}
	switch x.Kind {
	case model.IndexKindPrimaryKey, model.IndexKindUnique, model.IndexKindForeignKey:
		switch n.Way(tag+".symbol", 3) {
		case 1:
			x.HasSym = !x.HasSym
			x.Sym = ""
			if x.HasSym {
				x.Sym = "sy" + tag
			}
		case 2:
			x.HasSym, x.Sym = true, Bytes(n.Tag+tag+" symbol", 1)
		}
	}
	if x.Kind != model.IndexKindPrimaryKey {
		switch n.Way(tag+".name", 3) {
		case 1:
			x.HasName = !x.HasName
			x.Name = ""
			if x.HasName {
				x.Name = "na" + tag
			}
		case 2:
			x.HasName, x.Name = true, Bytes(n.Tag+tag+" name", 1)
		}
	}
	switch x.Kind {
	case model.IndexKindPrimaryKey, model.IndexKindNormal, model.IndexKindUnique:
		if k := n.Way(tag+".using", 3); k > 0 {
			x.Type = []model.IndexType{model.IndexTypeBtree, model.IndexTypeHash}[k-1]
		}
	case model.IndexKindFullText:
		if n.Way(tag+".parser", 2) == 1 {
			x.HasParser, x.Parser = true, "ngram"
		}
	}
	x.Cols = n.idxCols(tag, append([]IdxCol{}, x.Cols...), more)
	if x.Ref != nil {
		r := *x.Ref
		n.text(tag+".reference", &r.Table)
		r.Cols = n.idxCols(tag+".referenced", append([]IdxCol{}, r.Cols...), "y")
		if k := n.Way(tag+".match", 4); k > 0 {
			r.Match = []model.ReferenceMatch{model.ReferenceMatchFull, model.ReferenceMatchPartial, model.ReferenceMatchSimple}[k-1]
		}
		if k := n.Way(tag+".on delete", 5); k > 0 {
			r.OnDelete = actions[k-1]
		}
		if k := n.Way(tag+".on update", 5); k > 0 {
			r.OnUpdate = actions[k-1]
		}
		x.Ref = &r
	}
	return x, true
}

var actions = []model.ReferenceOption{model.ReferenceOptionRestrict, model.ReferenceOptionCascade, model.ReferenceOptionSetNull, model.ReferenceOptionNoAction}

// opts picks the options: any option before or after another one.
func (n *Near) opts() []Opt {
	l := []Opt{{"ENGINE", "InnoDB", false}}
	if !n.Opts {
		return l
	}
	forms := 0
	for _, f := range OptForms {
		forms += len(f.Kinds)
	}
	for i := 0; i < 2; i++ {
		k := n.Way("option"+Itoa(i), forms+1)
		if k == 0 {
			continue
		}
		for _, f := range OptForms {
			if k > len(f.Kinds) {
				k -= len(f.Kinds)
				continue
			}
			o := Opt{Key: f.Key}
			switch kind := f.Kinds[k-1]; kind {
			case 'n':
				o.Val = "1"
			case 'w':
				o.Val = "w"
			case 's':
				o.Val, o.Quoted = "it's", true
			default:
				o.Val = OptConst(kind)
			}
			if i == 0 {
				l = append([]Opt{o}, l...)
			} else {
				l = append(l, o)
			}
			break
		}
	}
	return l
}

// Cols picks the columns.
func (n *Near) Cols() []Col {
	l := []Col{
		{Name: "a", Type: model.ColumnTypeBigInt, HasLen: true, Len: "20", Unsigned: true, Null: model.NullStateNotNull},
		{Name: "b", Type: model.ColumnTypeVarChar, HasLen: true, Len: "20", HasDef: true, Def: "d", DefQuoted: true},
		{Name: "c", Type: model.ColumnTypeInt},
	}
	for i := range l {
		if i == 1 || n.Wide {
			l[i] = n.col(l[i].Name, l[i])
		} else {
			n.flip(l[i].Name+".zerofill", &l[i].Zerofill)
			if n.Way(l[i].Name+".comment", 2) == 1 {
				l[i].HasCmt, l[i].Cmt = true, "it's"
			}
			switch n.Way(l[i].Name+".key", 3) {
			case 1:
				l[i].Unique = true
			case 2:
				l[i].Primary = true
			}
			if n.Way(l[i].Name+".default", 2) == 1 {
				l[i].HasDef, l[i].Def, l[i].DefQuoted = true, "1", true
			}
		}
	}
	if at := n.Way("column", len(l)+2); at > 0 {
		l = append(l[:at-1], append([]Col{{Name: "d", Type: model.ColumnTypeDate}}, l[at-1:]...)...)
	}
	return l
}

// Idxs picks the indexes.
func (n *Near) Idxs() []Idx {
	var l []Idx
	for i, x := range []Idx{
		{Kind: model.IndexKindPrimaryKey, Cols: On("a")},
		{Kind: model.IndexKindNormal, HasName: true, Name: "k", Cols: []IdxCol{{Name: "b", HasLen: true, Len: "4"}, {Name: "a"}}},
		{Kind: model.IndexKindForeignKey, HasSym: true, Sym: "f", Cols: On("c"), Ref: &Ref{Table: "o", Cols: On("x"), OnDelete: model.ReferenceOptionCascade}},
	} {
		if y, ok := n.idx("i"+Itoa(i), x, []string{"b", "c", "a"}[i]); ok {
			l = append(l, y)
		}
	}
	return l
}

// Table picks the table.
func (n *Near) Table(name string) Table {
	t := Table{Name: name}
	n.flip("temporary", &t.Temp)
	n.flip("if not exists", &t.IfNot)
	t.Cols = n.Cols()
	t.Idxs = n.Idxs()
	t.Opts = n.opts()
	return t
}
