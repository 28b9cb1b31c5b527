package hlib

import (
	"github.com/schemalex/schemalex/internal/vsym"
)

// Equality as a truth value, without branching on what is compared.

func all(l ...bool) bool {
	r := true
	for _, b := range l {
		r = vsym.And(r, b)
	}
	return r
}

// EqStrs says whether two lists are equal.
func EqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, vsym.StrEq(a[i], b[i]))
	}
	return r
}

// EqCol says whether two columns are equal.
func EqCol(a, b Col) bool {
	return all(vsym.StrEq(a.Name, b.Name), a.Type == b.Type, a.HasLen == b.HasLen, vsym.StrEq(a.Len, b.Len),
		a.HasDec == b.HasDec, vsym.StrEq(a.Dec, b.Dec), a.Unsigned == b.Unsigned, a.Zerofill == b.Zerofill,
		a.Binary == b.Binary, a.HasCS == b.HasCS, vsym.StrEq(a.CS, b.CS), a.HasColl == b.HasColl, vsym.StrEq(a.Coll, b.Coll),
		EqStrs(a.Enum, b.Enum), EqStrs(a.Set, b.Set), a.Null == b.Null, a.HasDef == b.HasDef, vsym.StrEq(a.Def, b.Def),
		a.DefQuoted == b.DefQuoted, a.HasOnUpd == b.HasOnUpd, vsym.StrEq(a.OnUpd, b.OnUpd), a.AutoInc == b.AutoInc,
		a.Unique == b.Unique, a.Key == b.Key, a.Primary == b.Primary, a.HasCmt == b.HasCmt, vsym.StrEq(a.Cmt, b.Cmt))
}

func eqIdxCols(a, b []IdxCol, dir bool) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		d := a[i].Dir == b[i].Dir
		if !dir {
			d = (a[i].Dir == 2) == (b[i].Dir == 2)
		}
		r = all(r, vsym.StrEq(a[i].Name, b[i].Name), a[i].HasLen == b[i].HasLen, vsym.StrEq(a[i].Len, b[i].Len), d)
	}
	return r
}

func eqIdx(a, b Idx, dir bool) bool {
	r := all(a.Kind == b.Kind, a.HasSym == b.HasSym, vsym.StrEq(a.Sym, b.Sym), a.HasName == b.HasName, vsym.StrEq(a.Name, b.Name),
		a.Type == b.Type, eqIdxCols(a.Cols, b.Cols, dir), a.HasParser == b.HasParser, vsym.StrEq(a.Parser, b.Parser), (a.Ref == nil) == (b.Ref == nil))
	if a.Ref != nil && b.Ref != nil {
		r = all(r, vsym.StrEq(a.Ref.Table, b.Ref.Table), eqIdxCols(a.Ref.Cols, b.Ref.Cols, dir), a.Ref.Match == b.Ref.Match,
			a.Ref.OnDelete == b.Ref.OnDelete, a.Ref.OnUpdate == b.Ref.OnUpdate)
	}
	return r
}

// EqIdx says whether two indexes are equal in every detail.
func EqIdx(a, b Idx) bool { return eqIdx(a, b, true) }

// AlikeIdx says whether two indexes mean the same: ascending is what a column is without direction.
func AlikeIdx(a, b Idx) bool { return eqIdx(a, b, false) }

// EqTable says whether two tables are equal in every detail.
func EqTable(a, b Table) bool {
	if len(a.Cols) != len(b.Cols) || len(a.Idxs) != len(b.Idxs) || len(a.Opts) != len(b.Opts) {
		return false
	}
	r := all(vsym.StrEq(a.Name, b.Name), a.Temp == b.Temp, a.IfNot == b.IfNot, a.HasLike == b.HasLike, vsym.StrEq(a.Like, b.Like))
	for i := range a.Cols {
		r = vsym.And(r, EqCol(a.Cols[i], b.Cols[i]))
	}
	for i := range a.Idxs {
		r = vsym.And(r, EqIdx(a.Idxs[i], b.Idxs[i]))
	}
	for i := range a.Opts {
		r = all(r, vsym.StrEq(a.Opts[i].Key, b.Opts[i].Key), vsym.StrEq(a.Opts[i].Val, b.Opts[i].Val), a.Opts[i].Quoted == b.Opts[i].Quoted)
	}
	return r
}

// within says whether every index of a means the same as one of b.
func within(a, b []Idx) bool {
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = vsym.Or(in, AlikeIdx(x, y))
		}
		r = vsym.And(r, in)
	}
	return r
}

// AlikeTable says whether two tables have the same columns in the same order and the same keys in any order.
func AlikeTable(a, b Table) bool {
	if len(a.Cols) != len(b.Cols) {
		return false
	}
	r := vsym.StrEq(a.Name, b.Name)
	for i := range a.Cols {
		r = vsym.And(r, EqCol(a.Cols[i], b.Cols[i]))
	}
	return all(r, within(a.Idxs, b.Idxs), within(b.Idxs, a.Idxs))
}
