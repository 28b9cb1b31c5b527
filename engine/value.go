package main

import (
	"fmt"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// V is a runtime value. Integers, booleans and floats live in n; everything else, and symbolic
// scalars (*Term), in x.
type V struct {
	n uint64
	x any
}

type Agg struct{ f []V } // struct or array

// SStr is a string with at least one symbolic byte; its length is concrete.
type SStr struct{ b []*Term }

// AStr is a string that shares its bytes with a byte slice (made through package unsafe): it is
// read when it is looked at.
type AStr struct {
	s  []V
	ts *Terms
}

func aliasStr(s []V, ts *Terms) V {
	if len(s) == 0 {
		return V{}
	}
	return V{x: &AStr{s, ts}}
}

// now gives the present text of a string.
func (a *AStr) now() V {
	c := make([]byte, len(a.s))
	for i := range a.s {
		if a.s[i].x != nil {
			out := make([]*Term, len(a.s))
			for i := range a.s {
				if t, ok := a.s[i].x.(*Term); ok {
					out[i] = t
				} else {
					out[i] = a.ts.bytes[byte(a.s[i].n)]
				}
			}
			return V{x: &SStr{out}}
		}
		c[i] = byte(a.s[i].n)
	}
	return V{x: string(c)}
}

type Iface struct {
	rt *rtype
	v  V
}

type Closure struct {
	fn  *cfn
	env []V
	nat func(m *M, args []V) V // builtin or native closure
}

type Tuple []V

type sdata struct{ s []V } // unsafe.SliceData
type strdata struct{ s V } // unsafe.StringData

type rtype struct {
	t       types.Type
	id      int
	isAgg   bool
	methods map[string]*cfn
	impl    map[*rtype]bool
	name    string
}

type unsupported struct{ msg string }

type targetPanic struct {
	v     V // interface value
	where string
}

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func intV(i int) V { return V{n: uint64(int64(i))} }

func strV(s string) V {
	if s == "" {
		return V{}
	}
	return V{x: s}
}

type intKind struct {
	w      uint8
	signed bool
}

func kindOf(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	case types.Bool, types.UntypedBool:
		return intKind{1, false}, true
	}
	return intKind{}, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isAggType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// norm truncates a concrete integer to its kind.
func norm(n uint64, k intKind) uint64 {
	if k.w >= 64 {
		return n
	}
	if k.signed {
		return uint64(sext(n&mask(k.w), k.w))
	}
	return n & mask(k.w)
}

func (m *M) term(v V, k intKind) *Term {
	if v.x == nil {
		return m.ts.konst(k.w, v.n)
	}
	t := v.x.(*Term)
	if t.w != k.w {
		panic(fmt.Sprintf("width mismatch %d %d", t.w, k.w))
	}
	return t
}

func fromTerm(t *Term, k intKind) V {
	if t.op == oConst {
		return V{n: norm(t.k, k)}
	}
	return V{x: t}
}

func (m *M) boolTerm(v V) *Term {
	if v.x == nil {
		return m.ts.boolc(v.n != 0)
	}
	return v.x.(*Term)
}

func fromBool(t *Term) V {
	if t.op == oConst {
		return V{n: t.k}
	}
	return V{x: t}
}

// ---------------------------------------------------------------- strings

func strLen(v V) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case *AStr:
		return len(s.s)
	}
	panic(fmt.Sprintf("strLen %T", v.x))
}

func concreteStr(v V) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *AStr:
		return concreteStr(s.now())
	}
	return "", false
}

func (m *M) strAt(v V, i int) V {
	switch s := v.x.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		return fromTerm(s.b[i], intKind{8, false})
	case *AStr:
		return s.s[i]
	}
	panic("strAt")
}

func strSlice(v V, lo, hi int) V {
	switch s := v.x.(type) {
	case nil:
		return v
	case string:
		return strV(s[lo:hi])
	case *SStr:
		return mkStr(s.b[lo:hi])
	case *AStr:
		return aliasStr(s.s[lo:hi], s.ts)
	}
	panic("strSlice")
}

func mkStr(b []*Term) V {
	for _, t := range b {
		if t.op != oConst {
			return V{x: &SStr{b}}
		}
	}
	c := make([]byte, len(b))
	for i, t := range b {
		c[i] = byte(t.k)
	}
	return strV(string(c))
}

func (m *M) strTerms(v V) []*Term {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = m.ts.bytes[s[i]]
		}
		return out
	case *SStr:
		return s.b
	case *AStr:
		return m.strTerms(s.now())
	}
	panic(fmt.Sprintf("strTerms %T", v.x))
}

func (m *M) strConcat(a, b V) V {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	if s, ok := a.x.(*AStr); ok {
		a = s.now()
	}
	if s, ok := b.x.(*AStr); ok {
		b = s.now()
	}
	sa, oka := a.x.(string)
	sb, okb := b.x.(string)
	if oka && okb {
		return V{x: sa + sb}
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	out := make([]*Term, 0, len(ta)+len(tb))
	out = append(out, ta...)
	return V{x: &SStr{append(out, tb...)}}
}

func (m *M) strEq(a, b V) *Term {
	if strLen(a) != strLen(b) {
		return m.ts.tt[0]
	}
	if ca, ok := concreteStr(a); ok {
		if cb, ok := concreteStr(b); ok {
			return m.ts.boolc(ca == cb)
		}
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	r := m.ts.tt[1]
	for i := range ta {
		e := m.ts.Eq(ta[i], tb[i])
		if e.isFalse() {
			return e
		}
		if m.p != nil && !e.isConst() {
			if v, ok := m.p.quick(e); ok {
				if !v {
					return m.ts.tt[0]
				}
				continue
			}
		}
		r = m.ts.And(r, e)
	}
	return r
}

func (m *M) strLess(a, b V) *Term {
	if ca, ok := concreteStr(a); ok {
		if cb, ok := concreteStr(b); ok {
			return m.ts.boolc(ca < cb)
		}
	}
	ta, tb := m.strTerms(a), m.strTerms(b)
	n := len(ta)
	if len(tb) < n {
		n = len(tb)
	}
	r := m.ts.boolc(len(ta) < len(tb))
	for i := n - 1; i >= 0; i-- {
		r = m.ts.Ite(m.ts.Eq(ta[i], tb[i]), r, m.ts.Ult(ta[i], tb[i]))
	}
	return r
}

// strBytes makes a fresh byte slice from a string.
func (m *M) strBytes(v V) []V {
	switch s := v.x.(type) {
	case nil:
		return []V{}
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}
		return out
	case *SStr:
		out := make([]V, len(s.b))
		for i, t := range s.b {
			out[i] = fromTerm(t, intKind{8, false})
		}
		return out
	case *AStr:
		return append([]V{}, s.s...)
	}
	panic("strBytes")
}

func (m *M) bytesStr(b []V) V {
	sym := false
	for i := range b {
		if b[i].x != nil {
			sym = true
			break
		}
	}
	if !sym {
		if len(b) == 0 {
			return V{}
		}
		c := make([]byte, len(b))
		for i := range b {
			c[i] = byte(b[i].n)
		}
		return V{x: string(c)}
	}
	out := make([]*Term, len(b))
	for i := range b {
		if b[i].x == nil {
			out[i] = m.ts.bytes[byte(b[i].n)]
		} else {
			out[i] = b[i].x.(*Term)
		}
	}
	return V{x: &SStr{out}}
}

// evalStr renders a string under the path's model.
func (m *M) evalStr(v V, model []byte) string {
	switch s := v.x.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SStr:
		c := make([]byte, len(s.b))
		for i, t := range s.b {
			c[i] = byte(m.ts.eval(t, model))
		}
		return string(c)
	case *AStr:
		return m.evalStr(s.now(), model)
	}
	return fmt.Sprintf("<%T>", v.x)
}

// ---------------------------------------------------------------- aggregates

func copyV(v V) V {
	if a, ok := v.x.(*Agg); ok {
		n := &Agg{make([]V, len(a.f))}
		for i := range a.f {
			if _, ok := a.f[i].x.(*Agg); ok {
				n.f[i] = copyV(a.f[i])
			} else {
				n.f[i] = a.f[i]
			}
		}
		return V{x: n}
	}
	return v
}

func zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := &Agg{make([]V, u.NumFields())}
		for i := range a.f {
			ft := u.Field(i).Type()
			if isAggType(ft) {
				a.f[i] = zero(ft)
			}
		}
		return V{x: a}
	case *types.Array:
		a := &Agg{make([]V, u.Len())}
		if isAggType(u.Elem()) {
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return V{x: a}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return V{x: tp}
	}
	return V{}
}

// store writes v (already owned by the caller when aggregate) into a slot, logging the old value.
func (m *M) store(p *V, v V) {
	if src, ok := v.x.(*Agg); ok {
		if dst, ok := p.x.(*Agg); ok {
			if len(dst.f) == len(src.f) {
				if dst == src {
					return
				}
				for i := range src.f {
					m.store(&dst.f[i], src.f[i])
				}
				return
			}
		}
		v = copyV(v)
	}
	m.undo = append(m.undo, undoRec{p, *p, nil})
	*p = v
}

type undoRec struct {
	p   *V
	old V
	fn  func()
}

func (m *M) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:0]
}

// eqV compares two values of static type t.
func (m *M) eqV(t types.Type, a, b V) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			return m.ts.boolc(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		if k, ok := kindOf(t); ok {
			if a.x == nil && b.x == nil {
				return m.ts.boolc(a.n == b.n)
			}
			return m.ts.Eq(m.term(a, k), m.term(b, k))
		}
		if u.Kind() == types.UnsafePointer {
			return m.ts.boolc(a.x == b.x)
		}
		if u.Kind() == types.UntypedNil {
			return m.ts.boolc(a.x == nil && b.x == nil)
		}
	case *types.Pointer, *types.Chan, *types.Map:
		return m.ts.boolc(a.x == b.x)
	case *types.Slice:
		return m.ts.boolc((a.x == nil) == (b.x == nil))
	case *types.Signature:
		return m.ts.boolc((a.x == nil) == (b.x == nil))
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return m.ts.boolc(a.x == nil && b.x == nil)
		}
		ia, ib := a.x.(*Iface), b.x.(*Iface)
		if ia.rt != ib.rt {
			return m.ts.tt[0]
		}
		if !types.Comparable(ia.rt.t) {
			m.rtPanic("runtime error: comparing uncomparable type " + ia.rt.t.String())
		}
		return m.eqV(ia.rt.t, ia.v, ib.v)
	case *types.Struct:
		r := m.ts.tt[1]
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.ts.And(r, m.eqV(u.Field(i).Type(), a.x.(*Agg).f[i], b.x.(*Agg).f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		r := m.ts.tt[1]
		for i := 0; i < int(u.Len()); i++ {
			r = m.ts.And(r, m.eqV(u.Elem(), a.x.(*Agg).f[i], b.x.(*Agg).f[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	}
	panic(unsupported{"comparison of " + t.String()})
}

// ---------------------------------------------------------------- maps

type Map struct {
	kt, vt types.Type
	idx    map[any]int
	ents   []ment
	n      int
	nsym   int
	born   int64
}

type ment struct {
	k, v V
	live bool
	sym  bool
}

type aggKey string
type ifKey struct {
	rt *rtype
	k  any
}

// canonKey gives a Go-comparable key for a fully concrete value.
func canonKey(t types.Type, v V) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concreteStr(v)
			return s, ok
		}
		if v.x != nil {
			if _, ok := v.x.(*Term); ok {
				return nil, false
			}
			return v.x, true
		}
		return v.n, true
	case *types.Pointer, *types.Chan:
		return v.x, true
	case *types.Interface:
		if v.x == nil {
			return nil, true
		}
		i := v.x.(*Iface)
		k, ok := canonKey(i.rt.t, i.v)
		return ifKey{i.rt, k}, ok
	case *types.Struct:
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			k, ok := canonKey(u.Field(i).Type(), v.x.(*Agg).f[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return aggKey(s), true
	case *types.Array:
		s := ""
		for i := range v.x.(*Agg).f {
			k, ok := canonKey(u.Elem(), v.x.(*Agg).f[i])
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v;", k, k)
		}
		return aggKey(s), true
	}
	panic(unsupported{"map key " + t.String()})
}

func (m *M) newMap(t *types.Map) *Map {
	return &Map{kt: t.Key(), vt: t.Elem(), idx: map[any]int{}, born: m.runID}
}

// find returns the entry holding key k, forking when symbolic keys make it uncertain.
func (m *M) mapFind(mp *Map, k V) int {
	if mp == nil {
		return -1
	}
	ck, ok := canonKey(mp.kt, k)
	if ok {
		if i, ok := mp.idx[ck]; ok {
			// the bytes of a key may have been overwritten since
			if _, ok := mp.ents[i].k.x.(*AStr); !ok || m.decide(m.eqV(mp.kt, mp.ents[i].k, k)) {
				return i
			}
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if !e.live || ok && !e.sym {
			continue
		}
		if m.decide(m.eqV(mp.kt, e.k, k)) {
			return i
		}
	}
	return -1
}

// mapLookup returns value and presence; symbolic keys into scalar tables do not fork.
func (m *M) mapLookup(mp *Map, k V, vt types.Type) (V, V) {
	if mp == nil {
		return zero(vt), V{}
	}
	if _, ok := canonKey(mp.kt, k); !ok || mp.nsym > 0 {
		if vk, scalar := kindOf(vt); scalar && (mp.n > 8) {
			val := m.ts.konst(vk.w, 0)
			found := m.ts.tt[0]
			for i := range mp.ents {
				e := &mp.ents[i]
				if !e.live {
					continue
				}
				eq := m.eqV(mp.kt, e.k, k)
				if eq.isFalse() {
					continue
				}
				if q, known := m.p.quick(eq); known && !q {
					continue
				}
				val = m.ts.Ite(eq, m.term(e.v, vk), val)
				found = m.ts.Or(found, eq)
			}
			return fromTerm(val, vk), fromBool(found)
		}
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return zero(vt), V{}
	}
	return copyV(mp.ents[i].v), V{n: 1}
}

func (m *M) mapTouch(mp *Map) {
	if mp.born == m.runID {
		return
	}
	old := *mp
	old.ents = append([]ment(nil), mp.ents...)
	oi := make(map[any]int, len(mp.idx))
	for k, v := range mp.idx {
		oi[k] = v
	}
	old.idx = oi
	born := mp.born
	mp.born = m.runID
	m.undo = append(m.undo, undoRec{fn: func() { *mp = old; mp.born = born }})
}

func (m *M) mapSet(mp *Map, k, v V) {
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	m.mapTouch(mp)
	if i := m.mapFind(mp, k); i >= 0 {
		mp.ents[i].v = copyV(v)
		return
	}
	ck, ok := canonKey(mp.kt, k)
	mp.ents = append(mp.ents, ment{copyV(k), copyV(v), true, !ok})
	if ok {
		mp.idx[ck] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
	mp.n++
}

func (m *M) mapDelete(mp *Map, k V) {
	if mp == nil {
		return
	}
	m.mapTouch(mp)
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	if ck, ok := canonKey(mp.kt, mp.ents[i].k); ok {
		delete(mp.idx, ck)
	} else {
		mp.nsym--
	}
	mp.ents[i].live = false
	mp.n--
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}
