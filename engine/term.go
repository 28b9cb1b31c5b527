package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Term is a hash-consed expression over 8-bit input variables. Width 1 terms are booleans.
type Op uint8

const (
	oConst Op = iota
	oVar
	oAdd
	oSub
	oMul
	oUDiv
	oURem
	oSDiv
	oSRem
	oAnd
	oOr
	oXor
	oNot
	oNeg
	oShl
	oLShr
	oAShr
	oEq
	oUlt
	oSlt
	oIte
	oExtract // low w bits of a, shifted right by k
	oZExt
	oSExt
)

var opName = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "=", "bvult", "bvslt", "ite", "extract", "zext", "sext"}

const (
	vNone  = -1
	vMulti = -2
)

type Term struct {
	op      Op
	w       uint8
	v       int32 // variable the term depends on: vNone, vMulti, or the index
	id      uint32
	k       uint64
	a, b, c *Term
	bits    *[4]uint64 // truth table for booleans over one variable
	tab     []uint64   // value table for wider terms over one variable
	stamp   uint64     // memo stamp for eval
	val     uint64
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c *Term
}

type Terms struct {
	tab   map[termKey]*Term
	next  uint32
	stamp uint64
	tt    [2]*Term // false,true
	bytes [256]*Term
}

func newTerms() *Terms {
	t := &Terms{tab: make(map[termKey]*Term, 1<<12)}
	for i := range t.bytes {
		t.bytes[i] = t.konst(8, uint64(i))
	}
	t.tt[0] = t.konst(1, 0)
	t.tt[1] = t.konst(1, 1)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (ts *Terms) mk(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	key := termKey{op, w, k, a, b, c}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	v := int32(vNone)
	add := func(x *Term) {
		if x == nil || x.v == vNone || x.v == v {
			return
		}
		if v == vNone {
			v = x.v
		} else {
			v = vMulti
		}
	}
	add(a)
	add(b)
	add(c)
	if op == oVar {
		v = int32(k)
	}
	ts.next++
	t := &Term{op: op, w: w, v: v, id: ts.next, k: k, a: a, b: b, c: c}
	ts.tab[key] = t
	return t
}

func (ts *Terms) konst(w uint8, k uint64) *Term { return ts.mk(oConst, w, k&mask(w), nil, nil, nil) }
func (ts *Terms) boolc(b bool) *Term {
	if b {
		return ts.tt[1]
	}
	return ts.tt[0]
}
func (ts *Terms) variable(i int) *Term { return ts.mk(oVar, 8, uint64(i), nil, nil, nil) }

func (t *Term) isConst() bool { return t.op == oConst }
func (t *Term) isTrue() bool  { return t.op == oConst && t.w == 1 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == oConst && t.w == 1 && t.k == 0 }

func evalOp(op Op, w uint8, k uint64, aw uint8, a, b, c uint64) uint64 {
	m := mask(w)
	switch op {
	case oAdd:
		return (a + b) & m
	case oSub:
		return (a - b) & m
	case oMul:
		return (a * b) & m
	case oUDiv:
		if b == 0 {
			return m
		}
		return (a / b) & m
	case oURem:
		if b == 0 {
			return a
		}
		return (a % b) & m
	case oSDiv:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			if sa < 0 {
				return 1
			}
			return m
		}
		if sb == -1 {
			return uint64(-sa) & m
		}
		return uint64(sa/sb) & m
	case oSRem:
		sa, sb := sext(a, w), sext(b, w)
		if sb == 0 {
			return a
		}
		if sb == -1 {
			return 0
		}
		return uint64(sa%sb) & m
	case oAnd:
		return a & b
	case oOr:
		return a | b
	case oXor:
		return a ^ b
	case oNot:
		return ^a & m
	case oNeg:
		return -a & m
	case oShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case oLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case oAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	case oEq:
		return b2u(a == b)
	case oUlt:
		return b2u(a < b)
	case oSlt:
		return b2u(sext(a, aw) < sext(b, aw))
	case oIte:
		if a != 0 {
			return b
		}
		return c
	case oExtract:
		return (a >> k) & m
	case oZExt:
		return a
	case oSExt:
		return uint64(sext(a, aw)) & m
	}
	panic("evalOp")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) build(op Op, w uint8, k uint64, a, b, c *Term) *Term {
	if a.isConst() && (b == nil || b.isConst()) && (c == nil || c.isConst()) {
		var bk, ck uint64
		if b != nil {
			bk = b.k
		}
		if c != nil {
			ck = c.k
		}
		return ts.konst(w, evalOp(op, w, k, a.w, a.k, bk, ck))
	}
	return ts.mk(op, w, k, a, b, c)
}

func (ts *Terms) Not(a *Term) *Term {
	if a.op == oConst {
		return ts.konst(a.w, ^a.k)
	}
	if a.op == oNot {
		return a.a
	}
	return ts.mk(oNot, a.w, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.op == oConst {
		a, b = b, a
	}
	if b.op == oConst {
		if b.k == 0 {
			return b
		}
		if b.k == mask(b.w) {
			return a
		}
		return ts.build(oAnd, a.w, 0, a, b, nil)
	}
	if a == b {
		return a
	}
	if a.w == 1 && (a.op == oNot && a.a == b || b.op == oNot && b.a == a) {
		return ts.tt[0]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.build(oAnd, a.w, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.op == oConst {
		a, b = b, a
	}
	if b.op == oConst {
		if b.k == 0 {
			return a
		}
		if b.k == mask(b.w) {
			return b
		}
		return ts.build(oOr, a.w, 0, a, b, nil)
	}
	if a == b {
		return a
	}
	if a.w == 1 && (a.op == oNot && a.a == b || b.op == oNot && b.a == a) {
		return ts.tt[1]
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.build(oOr, a.w, 0, a, b, nil)
}

func (ts *Terms) Xor(a, b *Term) *Term {
	if a == b {
		return ts.konst(a.w, 0)
	}
	if a.op == oConst {
		a, b = b, a
	}
	if b.op == oConst && b.k == 0 {
		return a
	}
	if a.w == 1 && b.isTrue() {
		return ts.Not(a)
	}
	return ts.build(oXor, a.w, 0, a, b, nil)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.tt[1]
	}
	if a.op == oConst {
		a, b = b, a
	}
	if b.op == oConst {
		if a.op == oConst {
			return ts.boolc(a.k == b.k)
		}
		if a.w == 1 {
			if b.k == 1 {
				return a
			}
			return ts.Not(a)
		}
		switch a.op {
		case oZExt:
			if b.k > mask(a.a.w) {
				return ts.tt[0]
			}
			return ts.Eq(a.a, ts.konst(a.a.w, b.k))
		case oSExt:
			n := ts.konst(a.a.w, b.k)
			if uint64(sext(n.k, n.w))&mask(a.w) != b.k {
				return ts.tt[0]
			}
			return ts.Eq(a.a, n)
		case oIte:
			bc, cc := a.b.op == oConst, a.c.op == oConst
			if bc && cc {
				switch {
				case a.b.k == b.k && a.c.k == b.k:
					return ts.tt[1]
				case a.b.k == b.k:
					return a.a
				case a.c.k == b.k:
					return ts.Not(a.a)
				}
				return ts.tt[0]
			}
			if bc {
				if a.b.k == b.k {
					return ts.Or(a.a, ts.Eq(a.c, b))
				}
				return ts.And(ts.Not(a.a), ts.Eq(a.c, b))
			}
			if cc {
				if a.c.k == b.k {
					return ts.Or(ts.Not(a.a), ts.Eq(a.b, b))
				}
				return ts.And(a.a, ts.Eq(a.b, b))
			}
		}
		return ts.build(oEq, 1, 0, a, b, nil)
	}
	if a.op == oZExt && b.op == oZExt && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.build(oEq, 1, 0, a, b, nil)
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.tt[0]
	}
	if a.op == oZExt {
		if b.op == oZExt && b.a.w == a.a.w {
			return ts.Ult(a.a, b.a)
		}
		if b.op == oConst {
			if b.k > mask(a.a.w) {
				return ts.tt[1]
			}
			return ts.Ult(a.a, ts.konst(a.a.w, b.k))
		}
	} else if b.op == oZExt && a.op == oConst {
		if a.k > mask(b.a.w) {
			return ts.tt[0]
		}
		return ts.Ult(ts.konst(b.a.w, a.k), b.a)
	}
	if b.op == oConst && b.k == 0 {
		return ts.tt[0]
	}
	return ts.build(oUlt, 1, 0, a, b, nil)
}

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.tt[0]
	}
	if a.op == oZExt {
		if b.op == oZExt && b.a.w == a.a.w {
			return ts.Ult(a.a, b.a)
		}
		if b.op == oConst {
			s := sext(b.k, b.w)
			if s <= 0 {
				return ts.tt[0]
			}
			if uint64(s) > mask(a.a.w) {
				return ts.tt[1]
			}
			return ts.Ult(a.a, ts.konst(a.a.w, uint64(s)))
		}
	} else if b.op == oZExt && a.op == oConst {
		s := sext(a.k, a.w)
		if s < 0 {
			return ts.tt[1]
		}
		if uint64(s) > mask(b.a.w) {
			return ts.tt[0]
		}
		return ts.Ult(ts.konst(b.a.w, uint64(s)), b.a)
	}
	return ts.build(oSlt, 1, 0, a, b, nil)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == oConst {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == oNot {
		return ts.Ite(c.a, b, a)
	}
	if a.w == 1 {
		if a.isTrue() {
			return ts.Or(c, b)
		}
		if a.isFalse() {
			return ts.And(ts.Not(c), b)
		}
		if b.isTrue() {
			return ts.Or(ts.Not(c), a)
		}
		if b.isFalse() {
			return ts.And(c, a)
		}
	}
	if a.op == oZExt && b.op == oZExt && a.a.w == b.a.w {
		return ts.ZExt(ts.Ite(c, a.a, b.a), a.w)
	}
	return ts.build(oIte, a.w, 0, c, a, b)
}

func (ts *Terms) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == oZExt {
		a = a.a
	}
	return ts.build(oZExt, w, 0, a, nil, nil)
}

func (ts *Terms) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == oZExt {
		return ts.ZExt(a.a, w)
	}
	return ts.build(oSExt, w, 0, a, nil, nil)
}

func (ts *Terms) Extract(a *Term, lo uint64, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if lo == 0 && (a.op == oZExt || a.op == oSExt) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return ts.Extract(a.a, 0, w)
		}
		if a.op == oZExt {
			return ts.ZExt(a.a, w)
		}
		return ts.SExt(a.a, w)
	}
	return ts.build(oExtract, w, lo, a, nil, nil)
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	switch op {
	case oAnd:
		return ts.And(a, b)
	case oOr:
		return ts.Or(a, b)
	case oXor:
		return ts.Xor(a, b)
	case oEq:
		return ts.Eq(a, b)
	case oUlt:
		return ts.Ult(a, b)
	case oSlt:
		return ts.Slt(a, b)
	case oAdd:
		if a.op == oConst {
			a, b = b, a
		}
		if b.op == oConst {
			if b.k == 0 {
				return a
			}
			if a.op == oAdd && a.b.op == oConst {
				return ts.Bin(oAdd, a.a, ts.konst(a.w, a.b.k+b.k))
			}
		}
	case oSub:
		if b.op == oConst {
			return ts.Bin(oAdd, a, ts.konst(a.w, -b.k))
		}
		if a == b {
			return ts.konst(a.w, 0)
		}
	case oShl, oLShr, oAShr:
		if b.op == oConst && b.k == 0 {
			return a
		}
	case oMul:
		if a.op == oConst {
			a, b = b, a
		}
		if b.op == oConst && b.k == 1 {
			return a
		}
		if b.op == oConst && b.k == 0 {
			return b
		}
	}
	return ts.build(op, a.w, 0, a, b, nil)
}

// table returns the value of a one-variable term for all 256 values of its variable.
func (t *Term) table() []uint64 {
	if t.tab != nil {
		return t.tab
	}
	out := make([]uint64, 256)
	switch t.op {
	case oVar:
		for i := range out {
			out[i] = uint64(i)
		}
	default:
		get := func(x *Term) []uint64 {
			if x == nil || x.v == vNone {
				return nil
			}
			return x.table()
		}
		ta, tb, tc := get(t.a), get(t.b), get(t.c)
		var ka, kb, kc uint64
		var aw uint8
		if t.a != nil {
			ka, aw = t.a.k, t.a.w
		}
		if t.b != nil {
			kb = t.b.k
		}
		if t.c != nil {
			kc = t.c.k
		}
		for i := range out {
			if ta != nil {
				ka = ta[i]
			}
			if tb != nil {
				kb = tb[i]
			}
			if tc != nil {
				kc = tc[i]
			}
			out[i] = evalOp(t.op, t.w, t.k, aw, ka, kb, kc)
		}
	}
	t.tab = out
	return out
}

// truth returns the set of values of the variable for which a one-variable boolean term is true.
func (t *Term) truth() *[4]uint64 {
	if t.bits == nil {
		var b [4]uint64
		for i, v := range t.table() {
			if v != 0 {
				b[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		t.bits = &b
	}
	return t.bits
}

// eval computes a term under a full assignment.
func (ts *Terms) eval(t *Term, model []byte) uint64 {
	ts.stamp++
	return ts.eval1(t, model)
}

func (ts *Terms) eval1(t *Term, model []byte) uint64 {
	switch t.op {
	case oConst:
		return t.k
	case oVar:
		return uint64(model[t.k])
	}
	if t.tab != nil {
		return t.tab[model[t.v]]
	}
	if t.stamp == ts.stamp {
		return t.val
	}
	var r uint64
	if t.op == oIte {
		if ts.eval1(t.a, model) != 0 {
			r = ts.eval1(t.b, model)
		} else {
			r = ts.eval1(t.c, model)
		}
	} else {
		a := ts.eval1(t.a, model)
		var b uint64
		if t.b != nil {
			if t.w == 1 && t.a.w == 1 && (t.op == oAnd && a == 0 || t.op == oOr && a == 1) {
				r = a
				t.stamp, t.val = ts.stamp, r
				return r
			}
			b = ts.eval1(t.b, model)
		}
		r = evalOp(t.op, t.w, t.k, t.a.w, a, b, 0)
	}
	t.stamp, t.val = ts.stamp, r
	return r
}

func (ts *Terms) varsOf(t *Term, set map[int32]bool, seen map[*Term]bool) {
	if t == nil || t.v == vNone {
		return
	}
	if t.v >= 0 {
		set[t.v] = true
		return
	}
	if seen[t] {
		return
	}
	seen[t] = true
	ts.varsOf(t.a, set, seen)
	ts.varsOf(t.b, set, seen)
	ts.varsOf(t.c, set, seen)
}

// smt prints the term as SMT-LIB, sharing subterms through let-free define-funs numbered by id.
type smtPrinter struct {
	sb   *strings.Builder
	done map[*Term]string
	n    int
}

func sortOf(w uint8) string {
	if w == 1 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (p *smtPrinter) ref(t *Term) string {
	switch t.op {
	case oConst:
		if t.w == 1 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case oVar:
		return fmt.Sprintf("v%d", t.k)
	}
	if s, ok := p.done[t]; ok {
		return s
	}
	var e string
	switch t.op {
	case oNot:
		if t.w == 1 {
			e = "(not " + p.ref(t.a) + ")"
		} else {
			e = "(bvnot " + p.ref(t.a) + ")"
		}
	case oNeg:
		e = "(bvneg " + p.ref(t.a) + ")"
	case oAnd, oOr, oXor:
		n := opName[t.op]
		if t.w == 1 {
			n = n[2:]
		}
		e = "(" + n + " " + p.ref(t.a) + " " + p.ref(t.b) + ")"
	case oIte:
		e = "(ite " + p.ref(t.a) + " " + p.ref(t.b) + " " + p.ref(t.c) + ")"
	case oExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.k+uint64(t.w)-1, t.k, p.ref(t.a))
	case oZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	case oSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, p.ref(t.a))
	default:
		e = "(" + opName[t.op] + " " + p.ref(t.a) + " " + p.ref(t.b) + ")"
	}
	name := fmt.Sprintf("t%d", p.n)
	p.n++
	fmt.Fprintf(p.sb, "(define-fun %s () %s %s)\n", name, sortOf(t.w), e)
	p.done[t] = name
	return name
}

type dom [4]uint64

func (d *dom) has(v byte) bool { return d[v>>6]>>(v&63)&1 == 1 }
func (d *dom) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d dom) and(o *[4]uint64) dom {
	return dom{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d dom) andNot(o *[4]uint64) dom {
	return dom{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d *dom) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }

// pick returns a member, preferring values that read well in a report.
func (d *dom) pick() byte {
	for _, r := range [...][2]byte{{'a', 'z'}, {'0', '9'}, {' ', '~'}} {
		for c := int(r[0]); c <= int(r[1]); c++ {
			if d.has(byte(c)) {
				return byte(c)
			}
		}
	}
	for c := 0; c < 256; c++ {
		if d.has(byte(c)) {
			return byte(c)
		}
	}
	return 0
}

func (d *dom) smt(v int) string {
	var parts []string
	for i := 0; i < 256; {
		if !d.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j < 255 && d.has(byte(j+1)) {
			j++
		}
		switch {
		case i == j:
			parts = append(parts, fmt.Sprintf("(= v%d (_ bv%d 8))", v, i))
		case i == 0 && j == 255:
			return "true"
		default:
			parts = append(parts, fmt.Sprintf("(and (bvule (_ bv%d 8) v%d) (bvule v%d (_ bv%d 8)))", i, v, v, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}
