package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// Amounts of things, and lengths of texts, beyond limits that programs are fond of.
var (
	amounts = []int{17, 40, 70, 130}
	lengths = []int{17, 70, 260, 1030, 4100}
)

// Amount is a number of things, up to 70 unless the bounds are deep.
func Amount() int {
	n := len(amounts) - 1
	if vsym.Thorough() {
		n++
	}
	return amounts[vsym.Pick("amount", n)]
}

// Length is a number of bytes, up to 1030 unless the bounds are deep.
func Length() int {
	n := len(lengths) - 1
	if vsym.Thorough() {
		n++
	}
	return lengths[vsym.Pick("length", n)]
}

// Place is one of the places 0 to n-1: the first, one in the middle or the last.
func Place(tag string, n int) int { return []int{0, n / 2, n - 1}[vsym.Pick(tag+" place", 3)] }

// Long is a text of n bytes, one of which (the first, one in the middle or the last) is arbitrary.
func Long(tag string, n int) string { return long(n, Place(tag, n), Bytes(tag, 1)) }

func long(n, at int, x string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_012345"[(i+i/59)%58]
	}
	return string(b[:at]) + x + string(b[at+1:])
}

// LongWord is a plain name of n bytes, one of which is an arbitrary one of those it may have.
func LongWord(tag string, n int) string {
	x := vsym.Str(tag, 1)
	vsym.Assume(wordByte(x[0]))
	return "z" + long(n-1, Place(tag, n-1), x)
}

// Number is a number of up to 5 arbitrary digits.
func Number(tag string) string { return Digits(tag, 1+vsym.Pick(tag+" digits", 5)) }

// Many are n columns.
func Many(prefix string, n int) []Col {
	var l []Col
	for i := 0; i < n; i++ {
		c := ColID(prefix + Itoa(i))
		if i%3 == 1 {
			c = Col{Name: c.Name, Type: model.ColumnTypeVarChar, HasLen: true, Len: Itoa(i + 1), HasCmt: true, Cmt: Itoa(i)}
		}
		l = append(l, c)
	}
	return l
}

// ManyKeys are n keys of sorts: names, symbols and columns differ.
func ManyKeys(prefix string, n int, cols []Col) []Idx {
	var l []Idx
	for i := 0; i < n; i++ {
		x := Idx{HasName: true, Name: prefix + Itoa(i), Cols: []IdxCol{{Name: cols[i%len(cols)].Name}, {Name: cols[(i+1)%len(cols)].Name}}}
		switch i % 3 {
		case 0:
			x.Kind = model.IndexKindNormal
		case 1:
			x.Kind = model.IndexKindUnique
		case 2:
			x.Kind = model.IndexKindForeignKey
			x.HasName, x.Name, x.HasSym, x.Sym = false, "", true, "f"+Itoa(i)
			x.Ref = &Ref{Table: "o" + Itoa(i), Cols: On("x", "y")}
		}
		l = append(l, x)
	}
	return l
}

// larges is the number of ways to be large.
const larges = 19

// LargeTable is a table that is large in one of many ways.
func LargeTable(name string) Table {
	t := Table{Name: name, Cols: []Col{ColID("a"), {Name: "b", Type: model.ColumnTypeVarChar, HasLen: true, Len: "9"}, ColID("c")}}
	c := &t.Cols[1]
	key := func(k model.IndexKind) *Idx {
		t.Idxs = []Idx{{Kind: k, HasName: true, Name: "i", Cols: On("a", "b")}}
		return &t.Idxs[0]
	}
	fk := func() *Idx {
		x := key(model.IndexKindForeignKey)
		x.HasSym, x.Sym, x.Ref = true, "s", &Ref{Table: "o", Cols: On("x", "y"), OnDelete: model.ReferenceOptionCascade}
		return x
	}
	switch vsym.Pick("large", larges) {
	case 0:
		t.Name = name + Long("x", Length())
	case 1:
		c.Name = Long("x", Length()) + "!"
	case 2:
		c.HasDef, c.Def, c.DefQuoted = true, Long("x", Length()), true
	case 3:
		c.HasCmt, c.Cmt = true, Long("x", Length())
	case 4:
		c.HasCS, c.CS, c.HasColl, c.Coll = true, LongWord("x", Length()), true, LongWord("y", 40)
	case 5:
		v := Long("x", Length())
		SetValsOf(c, model.ColumnTypeEnum, []string{"p", v, v + "q", "r"})
	case 6, 7:
		n := Amount()
		x, at := Bytes("x", 1), Place("x", n)
		var l []string
		for i := 0; i < n; i++ {
			v := "v" + Itoa(i)
			if i == at {
				v = "w" + x
			}
			l = append(l, v)
		}
		SetValsOf(c, []model.ColumnType{model.ColumnTypeEnum, model.ColumnTypeSet}[vsym.Pick("set", 2)], l)
	case 8:
		n := Amount()
		t.Cols = Many("c", n)
		t.Cols[Place("x", n)].Name = "!" + Bytes("x", 1)
	case 9:
		n := Amount()
		t.Idxs = ManyKeys("k", n, t.Cols)
		x := &t.Idxs[Place("x", n)]
		if x.HasName {
			x.Name = "!" + Bytes("x", 1)
		} else {
			x.Sym = "!" + Bytes("x", 1)
		}
	case 10:
		n := Amount()
		t.Cols = Many("c", n)
		x := key(model.IndexKindUnique)
		x.Cols = nil
		for i, c := range t.Cols {
			x.Cols = append(x.Cols, IdxCol{Name: c.Name, Dir: 2 * (i % 2)})
		}
	case 11:
		n := Amount()
		x := fk()
		x.Ref.Cols = nil
		for i := 0; i < n; i++ {
			x.Ref.Cols = append(x.Ref.Cols, IdxCol{Name: "r" + Itoa(i)})
		}
	case 12:
		key(model.IndexKindNormal).Name = Long("x", Length())
	case 13:
		x := fk()
		x.Sym, x.Ref.Table = Long("x", Length()), Long("y", 70)
	case 14:
		x := key(model.IndexKindFullText)
		x.HasParser, x.Parser = true, Long("x", Length())
	case 15:
		t.Opts = []Opt{{"ENGINE", "InnoDB", false}, {"COMMENT", Long("x", Length()), true}, {"CONNECTION", "y", true}}
	case 16:
		for n := Amount(); n > 0; n-- {
			t.Opts = append(t.Opts, Opt{"AVG_ROW_LENGTH", Itoa(n), false}, Opt{"COMMENT", Itoa(n), true})
		}
	case 17: // any size of any type
		ty := AnyType()
		vsym.Assume(ty.Size >= 1 && ty.Size <= 3)
		c.Type, c.Len, c.HasLen = ty.Type, Number("size"), true
		if ty.Size == 2 || ty.Size == 3 && vsym.Pick("decimals", 2) == 1 {
			c.HasDec, c.Dec = true, Digits("decimals", 1+vsym.Pick("decimal digits", 2))
		}
	case 18: // any number elsewhere
		switch vsym.Pick("number at", 5) {
		case 0:
			c.Type, c.HasLen, c.Len, c.HasDef, c.Def = model.ColumnTypeInt, false, "", true, Number("default")
		case 1:
			c.HasDef, c.Def, c.DefQuoted = true, Number("default"), true
		case 2:
			c := &key([]model.IndexKind{model.IndexKindNormal, model.IndexKindPrimaryKey, model.IndexKindUnique}[vsym.Pick("kind", 3)]).Cols[1]
			c.HasLen, c.Len = true, Number("prefix")
		case 3:
			c := &fk().Ref.Cols[0]
			c.HasLen, c.Len = true, Number("prefix")
		case 4:
			t.Opts = []Opt{{[]string{"AUTO_INCREMENT", "AVG_ROW_LENGTH", "MAX_ROWS"}[vsym.Pick("option", 3)], Number("option"), false}}
		}
	}
	return t
}

// SetValsOf makes a column an enumeration or a set of values.
func SetValsOf(c *Col, t model.ColumnType, vals []string) {
	*c = Col{Name: c.Name, Type: t}
	SetVals(c, vals)
}

// Change is a large list of columns or keys and the same with something at some place different.
func Change() (from, to Table) { return ChangeOf(Amount()) }

// ChangeOf is a list of n columns or keys and the same with something at some place different.
func ChangeOf(n int) (from, to Table) {
	from = Table{Name: "t", Cols: Many("c", n)}
	to = Table{Name: "t", Cols: Many("c", n)}
	at := Place("change", n)
	what := vsym.Pick("what", 10)
	vsym.Assume(what < 8 || n == 17)
	if what >= 4 && what != 8 {
		from.Cols, to.Cols = from.Cols[:5], to.Cols[:5]
		from.Idxs, to.Idxs = ManyKeys("k", n, from.Cols), ManyKeys("k", n, to.Cols)
	}
	switch what {
	case 0: // one less
		to.Cols = append(to.Cols[:at:at], to.Cols[at+1:]...)
	case 1: // another
		to.Cols[at].HasCmt, to.Cols[at].Cmt = true, "!"+Bytes("x", 1)
	case 2: // all but one are new
		to.Cols = append(append(Many("d", at), to.Cols[at]), Many("e", n-at-1)...)
	case 3: // all are new
		to.Cols = Many("d", n)
	case 4:
		to.Idxs = append(to.Idxs[:at:at], to.Idxs[at+1:]...)
	case 5:
		to.Idxs[at].Cols[1].Dir = 2
	case 6: // all are new
		to.Idxs = ManyKeys("k", n, from.Cols[1:])
	case 7: // the same
	case 8: // another size
		for i, c := range []*Col{&from.Cols[at], &to.Cols[at]} {
			*c = Col{Name: c.Name, Type: model.ColumnTypeVarChar, HasLen: true, Len: Digits("size", 3-i)}
		}
		if vsym.Pick("digits", 2) == 1 {
			to.Cols[at].Len = Digits("size", 3)
		}
	case 9: // another prefix
		for _, x := range []*Idx{&from.Idxs[at], &to.Idxs[at]} {
			x.Cols[1].HasLen, x.Cols[1].Len = true, Digits("prefix", 3)
		}
	}
	if vsym.Pick("reverse", 2) == 1 {
		return to, from
	}
	return from, to
}
