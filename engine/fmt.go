package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"
)

// format implements the subset of fmt's verbs the code under analysis uses, over symbolic strings.
func (m *M) format(fr *frame, f V, args []V) V {
	out := V{}
	lit := func(v V) { out = m.strConcat(out, v) }
	if a, ok := f.x.(*AStr); ok {
		f = a.now()
	}
	n := strLen(f)
	argi := 0
	isPct := func(i int) bool {
		if s, ok := f.x.(string); ok {
			return s[i] == '%'
		}
		return m.decide(m.ts.Eq(f.x.(*SStr).b[i], m.ts.bytes['%']))
	}
	at := func(i int) byte {
		return byte(m.concretize(m.strAt(f, i), intKindByte))
	}
	for i := 0; i < n; {
		j := i
		for j < n && !isPct(j) {
			j++
		}
		if j > i {
			lit(strSlice(f, i, j))
		}
		if j >= n {
			break
		}
		i = j + 1
		var plus, minus, sharp, zeroPad, space bool
		wid, prec := -1, -1
	flags:
		for i < n {
			switch at(i) {
			case '+':
				plus = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '0':
				zeroPad = true
			case ' ':
				space = true
			default:
				break flags
			}
			i++
		}
		if i < n && at(i) == '*' {
			i++
			if argi < len(args) {
				wid = int(int64(m.concretize(args[argi].x.(*Iface).v, intKindInt)))
				argi++
			}
		}
		for i < n && at(i) >= '0' && at(i) <= '9' {
			if wid < 0 {
				wid = 0
			}
			wid = wid*10 + int(at(i)-'0')
			i++
		}
		if i < n && at(i) == '.' {
			i++
			prec = 0
			for i < n && at(i) >= '0' && at(i) <= '9' {
				prec = prec*10 + int(at(i)-'0')
				i++
			}
		}
		if i >= n {
			lit(strV("%!(NOVERB)"))
			break
		}
		verb := at(i)
		i++
		if verb == '%' {
			lit(strV("%"))
			continue
		}
		if argi >= len(args) {
			lit(strV("%!" + string(rune(verb)) + "(MISSING)"))
			continue
		}
		a := args[argi]
		argi++
		s := m.fmtArg(fr, verb, a, plus, sharp, space, zeroPad, wid, prec)
		if wid >= 0 {
			w := m.runeCount(fr, s)
			if w < wid {
				pad := " "
				if zeroPad && !minus {
					pad = "0"
				}
				p := strV(strings.Repeat(pad, wid-w))
				if minus {
					s = m.strConcat(s, p)
				} else {
					s = m.strConcat(p, s)
				}
			}
		}
		lit(s)
	}
	if argi < len(args) {
		lit(strV("%!(EXTRA "))
		for k := argi; k < len(args); k++ {
			if k > argi {
				lit(strV(", "))
			}
			if args[k].x == nil {
				lit(strV("<nil>"))
				continue
			}
			lit(strV(m.typeName(args[k].x.(*Iface).rt.t) + "="))
			lit(m.fmtArg(fr, 'v', args[k], false, false, false, false, -1, -1))
		}
		lit(strV(")"))
	}
	return out
}

func (m *M) runeCount(fr *frame, s V) int {
	if c, ok := concreteStr(s); ok {
		return len([]rune(c))
	}
	n := 0
	for strLen(s) > 0 {
		_, w := m.decodeRune(fr, s)
		s = strSlice(s, w, strLen(s))
		n++
	}
	return n
}

func (m *M) typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (m *M) hexStr(s V, upper bool) V {
	if c, ok := concreteStr(s); ok {
		const lo, up = "0123456789abcdef", "0123456789ABCDEF"
		d := lo
		if upper {
			d = up
		}
		b := make([]byte, 0, 2*len(c))
		for i := 0; i < len(c); i++ {
			b = append(b, d[c[i]>>4], d[c[i]&15])
		}
		return strV(string(b))
	}
	ts := m.ts
	digit := func(t *Term) *Term {
		a := byte('a' - 10)
		if upper {
			a = 'A' - 10
		}
		return ts.Bin(oAdd, t, ts.Ite(ts.Ult(t, ts.bytes[10]), ts.bytes['0'], ts.bytes[a]))
	}
	var out []*Term
	for _, t := range m.strTerms(s) {
		hi, ok := m.hexCache[t]
		if !ok {
			hi = [2]*Term{digit(ts.Bin(oLShr, t, ts.bytes[4])), digit(ts.And(t, ts.bytes[15]))}
			m.hexCache[t] = hi
		}
		out = append(out, hi[0], hi[1])
	}
	return mkStr(out)
}

func (m *M) quoteStr(fr *frame, s V) V {
	if c, ok := concreteStr(s); ok {
		return strV(strconv.Quote(c))
	}
	return m.callArgs(fr, m.stdFunc("strconv", "Quote"), nil, []V{s})
}

func (m *M) fmtArg(fr *frame, verb byte, a V, plus, sharp, space, zero bool, wid, prec int) V {
	if a.x == nil {
		switch verb {
		case 'v', 'T':
			return strV("<nil>")
		}
		return strV("%!" + string(rune(verb)) + "(<nil>)")
	}
	iv := a.x.(*Iface)
	t := iv.rt.t
	if verb == 'T' {
		return strV(m.typeName(t))
	}
	if verb == 'p' {
		return strV("0xc000010000")
	}
	if !(verb == 'v' && sharp) && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X') {
		// %+v on pkg/errors prints a stack; only the message part is kept
		for _, name := range []string{"Error", "String"} {
			f := m.methodByName(iv.rt, name)
			if f == nil || f.fn.Signature.Params().Len() != 0 || f.fn.Signature.Results().Len() != 1 || !isString(f.fn.Signature.Results().At(0).Type()) {
				continue
			}
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr && iv.v.x == nil {
				return strV("<nil>")
			}
			if name == "Error" || types.Implements(t, stringerType) {
				s := m.callArgs(fr, f, nil, []V{iv.v})
				return m.fmtString(fr, verb, s, sharp, prec)
			}
		}
	}
	return m.fmtPlain(fr, verb, t, iv.v, plus, sharp, space, zero, wid, prec, 0)
}

var stringerType = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func (m *M) fmtString(fr *frame, verb byte, s V, sharp bool, prec int) V {
	if prec >= 0 && verb != 'x' && verb != 'X' {
		n, i := 0, 0
		for i < strLen(s) && n < prec {
			_, w := m.decodeRune(fr, strSlice(s, i, strLen(s)))
			i += w
			n++
		}
		s = strSlice(s, 0, i)
	}
	switch verb {
	case 's', 'v':
		if verb == 'v' && sharp {
			return m.quoteStr(fr, s)
		}
		return s
	case 'q':
		return m.quoteStr(fr, s)
	case 'x', 'X':
		return m.hexStr(s, verb == 'X')
	}
	return m.strConcat(strV("%!"+string(rune(verb))+"(string="), m.strConcat(s, strV(")")))
}

func (m *M) fmtPlain(fr *frame, verb byte, t types.Type, v V, plus, sharp, space, zero bool, wid, prec, depth int) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.fmtString(fr, verb, v, sharp, prec)
		}
		if u.Info()&types.IsBoolean != 0 {
			if verb == 'v' || verb == 't' {
				if m.decideV(v) {
					return strV("true")
				}
				return strV("false")
			}
			break
		}
		if u.Info()&types.IsFloat != 0 {
			f := math.Float64frombits(v.n)
			fm := verb
			if verb == 'v' {
				fm = 'g'
			}
			if verb == 'f' && prec < 0 {
				prec = 6
			}
			return strV(strconv.FormatFloat(f, fm, prec, 64))
		}
		if k, ok := kindOf(t); ok {
			if verb == 'c' {
				if v.x != nil {
					if m.decide(m.ts.Ult(v.x.(*Term), m.ts.konst(k.w, 0x80))) {
						return mkStr([]*Term{m.ts.Extract(v.x.(*Term), 0, 8)})
					}
				}
				return strV(string(rune(int64(m.concretize(v, k)))))
			}
			if verb == 'q' {
				return strV(strconv.QuoteRune(rune(int64(m.concretize(v, k)))))
			}
			n := m.concretize(v, k)
			base := 10
			switch verb {
			case 'd', 'v':
			case 'x', 'X':
				base = 16
			case 'o':
				base = 8
			case 'b':
				base = 2
			case 'U':
				return strV("U+" + strings.ToUpper(strconv.FormatUint(n, 16)))
			default:
				return strV("%!" + string(rune(verb)) + "(" + u.Name() + "=" + strconv.FormatInt(int64(n), 10) + ")")
			}
			var s string
			if k.signed {
				s = strconv.FormatInt(int64(n), base)
				if plus && int64(n) >= 0 {
					s = "+" + s
				}
			} else {
				s = strconv.FormatUint(n, base)
			}
			if verb == 'X' {
				s = strings.ToUpper(s)
			}
			return strV(s)
		}
	case *types.Slice:
		ek, isInt := kindOf(u.Elem())
		if isInt && ek.w == 8 && !ek.signed && verb != 'v' && verb != 'd' {
			return m.fmtString(fr, verb, m.bytesStr(sl(v)), sharp, prec)
		}
		return m.fmtList(fr, verb, u.Elem(), sl(v), depth)
	case *types.Array:
		ek, isInt := kindOf(u.Elem())
		f := v.x.(*Agg).f
		if isInt && ek.w == 8 && !ek.signed && verb != 'v' && verb != 'd' {
			return m.fmtString(fr, verb, m.bytesStr(f), sharp, prec)
		}
		return m.fmtList(fr, verb, u.Elem(), f, depth)
	case *types.Interface:
		return m.fmtArg(fr, verb, v, plus, sharp, space, zero, wid, prec)
	case *types.Struct:
		out := strV("{")
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				out = m.strConcat(out, strV(" "))
			}
			if plus {
				out = m.strConcat(out, strV(u.Field(i).Name()+":"))
			}
			out = m.strConcat(out, m.fmtArg(fr, verb, V{x: &Iface{m.rt(u.Field(i).Type()), v.x.(*Agg).f[i]}}, plus, sharp, space, zero, wid, prec))
		}
		return m.strConcat(out, strV("}"))
	case *types.Pointer:
		if v.x == nil {
			return strV("<nil>")
		}
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Array:
				return m.strConcat(strV("&"), m.fmtPlain(fr, verb, u.Elem(), *m.deref(v), plus, sharp, space, zero, wid, prec, 1))
			}
		}
		return strV("0xc000010000")
	case *types.Signature, *types.Chan:
		return strV("0xc000010000")
	}
	m.unsup("fmt verb %%%c on %s", verb, t)
	return V{}
}

func (m *M) fmtList(fr *frame, verb byte, et types.Type, l []V, depth int) V {
	out := strV("[")
	for i := range l {
		if i > 0 {
			out = m.strConcat(out, strV(" "))
		}
		e := l[i]
		if _, ok := et.Underlying().(*types.Interface); !ok {
			e = V{x: &Iface{m.rt(et), e}}
		}
		out = m.strConcat(out, m.fmtArg(fr, verb, e, false, false, false, false, -1, -1))
	}
	return m.strConcat(out, strV("]"))
}

func fmtSprintf(m *M, fr *frame, args []V) V {
	return m.format(fr, args[0], sl(args[1]))
}

func (m *M) sprint(fr *frame, args []V, ln bool) V {
	out := V{}
	prevStr := true
	for i, a := range args {
		isStr := a.x != nil && isString(a.x.(*Iface).rt.t) && types.Identical(a.x.(*Iface).rt.t.Underlying(), types.Typ[types.String])
		if i > 0 && (ln || !isStr && !prevStr) {
			out = m.strConcat(out, strV(" "))
		}
		out = m.strConcat(out, m.fmtArg(fr, 'v', a, false, false, false, false, -1, -1))
		prevStr = isStr
	}
	if ln {
		out = m.strConcat(out, strV("\n"))
	}
	return out
}

func fmtSprint(m *M, fr *frame, args []V) V   { return m.sprint(fr, sl(args[0]), false) }
func fmtSprintln(m *M, fr *frame, args []V) V { return m.sprint(fr, sl(args[0]), true) }

func (m *M) writeTo(fr *frame, w V, s V) V {
	if w.x == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	iv := w.x.(*Iface)
	f := m.methodByName(iv.rt, "Write")
	if f == nil {
		m.unsup("Fprintf to %s", iv.rt.t)
	}
	return m.callArgs(fr, f, nil, []V{iv.v, {x: m.strBytes(s)}})
}

func fmtFprintf(m *M, fr *frame, args []V) V {
	w := args[0]
	return m.writeTo(fr, w, m.format(fr, args[1], sl(args[2])))
}
func fmtFprint(m *M, fr *frame, args []V) V {
	w := args[0]
	return m.writeTo(fr, w, m.sprint(fr, sl(args[1]), false))
}
func fmtFprintln(m *M, fr *frame, args []V) V {
	w := args[0]
	return m.writeTo(fr, w, m.sprint(fr, sl(args[1]), true))
}

func fmtErrorf(m *M, fr *frame, args []V) V {
	f := args[0]
	fs, _ := concreteStr(f)
	a := sl(args[1])
	s := m.format(fr, strV(strings.ReplaceAll(fs, "%w", "%v")), a)
	p := m.prog.ImportedPackage("fmt")
	if strings.Contains(fs, "%w") {
		// the wrapped operand is the one at the position of the verb
		idx := strings.Count(strings.ReplaceAll(fs[:strings.Index(fs, "%w")], "%%", ""), "%")
		if idx < len(a) && a[idx].x != nil {
			t := p.Type("wrapError").Type()
			pt := types.NewPointer(t)
			return V{x: &Iface{m.rt(pt), V{x: newSlot(V{x: &Agg{[]V{s, a[idx]}}})}}}
		}
	}
	return m.callArgs(fr, m.stdFunc("errors", "New"), nil, []V{s})
}
