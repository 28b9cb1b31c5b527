package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
	"github.com/schemalex/schemalex/model"
)

// A reference interpreter of migrations: what MySQL would make of a table, statement by statement.

// DB is a schema.
type DB struct{ Tables []Table }

func (d *DB) table(name, op string) *Table {
	for i := range d.Tables {
		if vsym.StrEq(d.Tables[i].Name, name) {
			return &d.Tables[i]
		}
	}
	vsym.Assert(false, op+": there is no such table")
	return nil
}

func colAt(t *Table, name string) int {
	for i := range t.Cols {
		if vsym.StrEq(t.Cols[i].Name, name) {
			return i
		}
	}
	return -1
}

// KeyName is what an index is dropped by.
func KeyName(x Idx) (string, bool) {
	if x.Kind == model.IndexKindForeignKey {
		if x.HasSym {
			return x.Sym, true
		}
		return x.Name, x.HasName
	}
	if x.HasName {
		return x.Name, true
	}
	return x.Sym, x.HasSym
}

// Apply runs statements that alter, create or drop tables and asserts that each can be run.
func (d *DB) Apply(l []Stmt) {
	for _, s := range l {
		switch s.Op {
		case "create":
			for i := range d.Tables {
				vsym.Assert(!vsym.StrEq(d.Tables[i].Name, s.Table), "a table is created that exists")
			}
			d.Tables = append(d.Tables, s.Def)
		case "drop table":
			t := d.table(s.Table, s.Op)
			for i := range d.Tables {
				if &d.Tables[i] == t {
					d.Tables = append(d.Tables[:i], d.Tables[i+1:]...)
					break
				}
			}
		case "add column":
			t := d.table(s.Table, s.Op)
			vsym.Assert(colAt(t, s.Col.Name) < 0, "a column is added that exists")
			at := len(t.Cols)
			if s.First {
				at = 0
			} else if s.HasAfter {
				at = colAt(t, s.After) + 1
				vsym.Assert(at > 0, "a column is added after one that does not exist (yet)")
			}
			cols := append([]Col{}, t.Cols[:at]...)
			cols = append(cols, s.Col)
			t.Cols = append(cols, t.Cols[at:]...)
		case "drop column":
			t := d.table(s.Table, s.Op)
			i := colAt(t, s.Name)
			vsym.Assert(i >= 0, "a column is dropped that does not exist")
			vsym.Assert(len(t.Cols) > 1, "the last column of a table is dropped")
			for _, x := range t.Idxs {
				for _, c := range x.Cols {
					vsym.Assert(!vsym.StrEq(c.Name, s.Name), "a column is dropped that a key still uses")
				}
			}
			cols := append([]Col{}, t.Cols[:i]...)
			t.Cols = append(cols, t.Cols[i+1:]...)
		case "change column":
			t := d.table(s.Table, s.Op)
			i := colAt(t, s.Name)
			vsym.Assert(i >= 0, "a column is changed that does not exist")
			if !vsym.StrEq(s.Name, s.Col.Name) {
				vsym.Assert(colAt(t, s.Col.Name) < 0, "a column is renamed to one that exists")
			}
			cols := append([]Col{}, t.Cols[:i]...)
			rest := t.Cols[i+1:]
			if s.First {
				rest = append(append([]Col{}, cols...), rest...)
				cols = nil
			} else if s.HasAfter {
				all := append(append([]Col{}, cols...), rest...)
				k := -1
				for j := range all {
					if vsym.StrEq(all[j].Name, s.After) {
						k = j
					}
				}
				vsym.Assert(k >= 0, "a column is moved after one that does not exist")
				cols, rest = append([]Col{}, all[:k+1]...), all[k+1:]
			}
			cols = append(cols, s.Col)
			t.Cols = append(cols, rest...)
		case "add index":
			t := d.table(s.Table, s.Op)
			for _, c := range s.Idx.Cols {
				vsym.Assert(colAt(t, c.Name) >= 0, "a key is added on a column that does not exist")
			}
			name, named := KeyName(s.Idx)
			fk := s.Idx.Kind == model.IndexKindForeignKey
			for _, x := range t.Idxs {
				vsym.Assert(s.Idx.Kind != model.IndexKindPrimaryKey || x.Kind != model.IndexKindPrimaryKey, "a second primary key is added")
				if n, has := KeyName(x); has && named && fk == (x.Kind == model.IndexKindForeignKey) && x.Kind != model.IndexKindPrimaryKey && s.Idx.Kind != model.IndexKindPrimaryKey {
					vsym.Assert(!vsym.StrEq(n, name), "a key is added although one of that name exists")
				}
			}
			t.Idxs = append(t.Idxs, s.Idx)
		case "drop index", "drop foreign key", "drop primary key":
			t := d.table(s.Table, s.Op)
			at := -1
			for i, x := range t.Idxs {
				kind := "drop index"
				switch x.Kind {
				case model.IndexKindPrimaryKey:
					kind = "drop primary key"
				case model.IndexKindForeignKey:
					kind = "drop foreign key"
				}
				if kind != s.Op {
					continue
				}
				n, has := KeyName(x)
				if s.Op == "drop primary key" || has && vsym.StrEq(n, s.Name) {
					at = i
					break
				}
			}
			vsym.Assert(at >= 0, s.Op+": there is no such key")
			idxs := append([]Idx{}, t.Idxs[:at]...)
			t.Idxs = append(idxs, t.Idxs[at+1:]...)
		default:
			vsym.Assert(false, "unexpected statement: "+s.Op)
		}
	}
}

// SameKeys asserts that two lists hold the same keys in any order.
func SameKeys(got, want []Idx, what string) {
	vsym.Assert(len(got) == len(want), what+": "+Itoa(len(got))+" keys instead of "+Itoa(len(want)))
	vsym.Assert(within(got, want), what+": a key that is not wanted")
	vsym.Assert(within(want, got), what+": a key is missing or different")
}
