package hlib

import "github.com/schemalex/schemalex/model"

// BuildCol makes the column with the setters of the model.
func BuildCol(c Col) model.TableColumn {
	m := model.NewTableColumn(c.Name)
	m.SetType(c.Type)
	if c.HasLen {
		l := model.NewLength(c.Len)
		if c.HasDec {
			l.SetDecimal(c.Dec)
		}
		m.SetLength(l)
	}
	m.SetUnsigned(c.Unsigned)
	m.SetZeroFill(c.Zerofill)
	m.SetBinary(c.Binary)
	if c.HasCS {
		m.SetCharacterSet(c.CS)
	}
	if c.HasColl {
		m.SetCollation(c.Coll)
	}
	if len(c.Enum) > 0 {
		m.SetEnumValues(c.Enum)
	}
	if len(c.Set) > 0 {
		m.SetSetValues(c.Set)
	}
	m.SetNullState(c.Null)
	if c.HasDef {
		m.SetDefault(c.Def, c.DefQuoted)
	}
	if c.HasOnUpd {
		m.SetAutoUpdate(c.OnUpd)
	}
	m.SetAutoIncrement(c.AutoInc)
	m.SetUnique(c.Unique)
	m.SetKey(c.Key)
	m.SetPrimary(c.Primary)
	if c.HasCmt {
		m.SetComment(c.Cmt)
	}
	return m
}

func buildIdxCols(to model.ColumnContainer, l []IdxCol) {
	for _, c := range l {
		m := model.NewIndexColumn(c.Name)
		if c.HasLen {
			m.SetLength(c.Len)
		}
		switch c.Dir {
		case 1:
			m.SetSortDirection(model.SortDirectionAscending)
		case 2:
			m.SetSortDirection(model.SortDirectionDescending)
		}
		to.AddColumns(m)
	}
}

// BuildIdx makes the index of a table.
func BuildIdx(x Idx, table string) model.Index {
	m := model.NewIndex(x.Kind, table)
	if x.HasSym {
		m.SetSymbol(x.Sym)
	}
	if x.HasName {
		m.SetName(x.Name)
	}
	m.SetType(x.Type)
	buildIdxCols(m, x.Cols)
	if x.HasParser {
		m.AddOption(model.NewIndexOption("WITH PARSER", x.Parser, true))
	}
	if x.Ref != nil {
		r := model.NewReference()
		r.SetTableName(x.Ref.Table)
		r.SetMatch(x.Ref.Match)
		r.SetOnDelete(x.Ref.OnDelete)
		r.SetOnUpdate(x.Ref.OnUpdate)
		buildIdxCols(r, x.Ref.Cols)
		m.SetReference(r)
	}
	return m
}

// Build makes the table with the setters of the model.
func Build(t Table) model.Table {
	m := model.NewTable(t.Name)
	m.SetTemporary(t.Temp)
	m.SetIfNotExists(t.IfNot)
	if t.HasLike {
		m.SetLikeTable(t.Like)
	}
	for _, c := range t.Cols {
		m.AddColumn(BuildCol(c))
	}
	for _, x := range t.Idxs {
		m.AddIndex(BuildIdx(x, m.ID()))
	}
	for _, o := range t.Opts {
		m.AddOption(model.NewTableOption(o.Key, o.Val, o.Quoted))
	}
	return m
}

// BuildAll makes a schema.
func BuildAll(l []Table) model.Stmts {
	var out model.Stmts
	for _, t := range l {
		out = append(out, Build(t))
	}
	return out
}
