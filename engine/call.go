package main

import (
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// callee prepares a call: function, environment and evaluated arguments (for go and defer).
func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame) (*cfn, []V, func(m *M, args []V) V, []V) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.opnd(a))
	}
	eval := func(fr *frame, extra int) []V {
		out := make([]V, extra, len(args)+extra)
		for i := range args {
			out = append(out, fr.get(&args[i]))
		}
		return out
	}
	if cc.IsInvoke() {
		x := c.opnd(cc.Value)
		meth := cc.Method
		return func(fr *frame) (*cfn, []V, func(m *M, args []V) V, []V) {
			v := fr.get(&x)
			if v.x == nil {
				fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			i := v.x.(*Iface)
			a := eval(fr, 1)
			a[0] = i.v
			return fr.m.lookupMethod(i.rt, meth), nil, nil, a
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(f, cc)
		return func(fr *frame) (*cfn, []V, func(m *M, args []V) V, []V) {
			return nil, nil, func(m *M, args []V) V { return b(fr, args) }, eval(fr, 0)
		}
	case *ssa.Function:
		cf := c.m.fn(f)
		return func(fr *frame) (*cfn, []V, func(m *M, args []V) V, []V) { return cf, nil, nil, eval(fr, 0) }
	}
	x := c.opnd(cc.Value)
	return func(fr *frame) (*cfn, []V, func(m *M, args []V) V, []V) {
		v := fr.get(&x)
		if v.x == nil {
			fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		cl := v.x.(*Closure)
		return cl.fn, cl.env, cl.nat, eval(fr, 0)
	}
}

func (c *compiler) call(i *ssa.Call) op {
	dst := c.regs[i]
	cc := &i.Call
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.opnd(a))
	}
	n := len(args)
	if cc.IsInvoke() {
		x := c.opnd(cc.Value)
		meth := cc.Method
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			iv := v.x.(*Iface)
			f := fr.m.lookupMethod(iv.rt, meth)
			mk := fr.g.mark()
			a := fr.g.alloc(n + 1)
			a[0] = iv.v
			for j := range args {
				a[j+1] = fr.get(&args[j])
			}
			r := fr.m.callArgs(fr, f, nil, a)
			fr.g.release(mk)
			fr.regs[dst] = r
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		b := c.builtin(f, cc)
		return func(fr *frame) {
			var buf [4]V
			a := buf[:0]
			for j := range args {
				a = append(a, fr.get(&args[j]))
			}
			fr.regs[dst] = b(fr, a)
		}
	case *ssa.Function:
		cf := c.m.fn(f)
		return func(fr *frame) {
			mk := fr.g.mark()
			a := fr.g.alloc(n)
			for j := range args {
				a[j] = fr.get(&args[j])
			}
			r := fr.m.callArgs(fr, cf, nil, a)
			fr.g.release(mk)
			fr.regs[dst] = r
		}
	}
	x := c.opnd(cc.Value)
	return func(fr *frame) {
		v := fr.get(&x)
		if v.x == nil {
			fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		cl := v.x.(*Closure)
		mk := fr.g.mark()
		a := fr.g.alloc(n)
		for j := range args {
			a[j] = fr.get(&args[j])
		}
		var r V
		if cl.nat != nil {
			r = cl.nat(fr.m, append([]V(nil), a...))
		} else {
			r = fr.m.callArgs(fr, cl.fn, cl.env, a)
		}
		fr.g.release(mk)
		fr.regs[dst] = r
	}
}

func (m *M) callV(fr *frame, v V, args ...V) V {
	cl := v.x.(*Closure)
	if cl.nat != nil {
		return cl.nat(m, args)
	}
	return m.callArgs(fr, cl.fn, cl.env, args)
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(fr *frame, args []V) V {
	m := c.m
	switch b.Name() {
	case "len":
		t := cc.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			n := p.Elem().Underlying().(*types.Array).Len()
			return func(fr *frame, args []V) V { return V{n: uint64(n)} }
		}
		switch t := t.(type) {
		case *types.Basic:
			return func(fr *frame, args []V) V { return intV(strLen(args[0])) }
		case *types.Slice:
			return func(fr *frame, args []V) V {
				s, _ := args[0].x.([]V)
				return intV(len(s))
			}
		case *types.Map:
			return func(fr *frame, args []V) V {
				mp, _ := args[0].x.(*Map)
				if mp == nil {
					return V{}
				}
				return intV(mp.n)
			}
		case *types.Chan:
			return func(fr *frame, args []V) V {
				ch, _ := args[0].x.(*Chan)
				if ch == nil {
					return V{}
				}
				return intV(len(ch.buf))
			}
		case *types.Array:
			n := t.Len()
			return func(fr *frame, args []V) V { return V{n: uint64(n)} }
		}
	case "cap":
		switch t := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return func(fr *frame, args []V) V {
				s, _ := args[0].x.([]V)
				return intV(cap(s))
			}
		case *types.Chan:
			return func(fr *frame, args []V) V {
				ch, _ := args[0].x.(*Chan)
				if ch == nil {
					return V{}
				}
				return intV(ch.cap)
			}
		case *types.Array:
			n := t.Len()
			return func(fr *frame, args []V) V { return V{n: uint64(n)} }
		case *types.Pointer:
			n := t.Elem().Underlying().(*types.Array).Len()
			return func(fr *frame, args []V) V { return V{n: uint64(n)} }
		}
	case "append":
		if len(cc.Args) == 1 {
			return func(fr *frame, args []V) V { return args[0] }
		}
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			m.unsup("append to %s", cc.Args[0].Type())
		}
		et := st.Elem()
		agg := isAggType(et)
		fromStr := isString(cc.Args[1].Type())
		return func(fr *frame, args []V) V {
			var add []V
			if fromStr {
				add = fr.m.strBytes(args[1])
			} else {
				add, _ = args[1].x.([]V)
			}
			if len(add) == 0 {
				return args[0]
			}
			s, _ := args[0].x.([]V)
			return V{x: fr.m.appendV(s, add, agg, et)}
		}
	case "copy":
		fromStr := isString(cc.Args[1].Type())
		return func(fr *frame, args []V) V {
			dst, _ := args[0].x.([]V)
			var src []V
			if fromStr {
				src = fr.m.strBytes(args[1])
			} else {
				src, _ = args[1].x.([]V)
			}
			n := len(dst)
			if len(src) < n {
				n = len(src)
			}
			tmp := make([]V, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyV(src[i])
			}
			for i := 0; i < n; i++ {
				fr.m.store(&dst[i], tmp[i])
			}
			return intV(n)
		}
	case "delete":
		return func(fr *frame, args []V) V {
			mp, _ := args[0].x.(*Map)
			fr.m.mapDelete(mp, args[1])
			return V{}
		}
	case "clear":
		return func(fr *frame, args []V) V {
			switch x := args[0].x.(type) {
			case *Map:
				fr.m.mapTouch(x)
				x.idx = map[any]int{}
				x.ents = nil
				x.n, x.nsym = 0, 0
			case []V:
				et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					fr.m.store(&x[i], zero(et))
				}
			}
			return V{}
		}
	case "panic":
		return func(fr *frame, args []V) V { panic(&targetPanic{v: args[0]}) }
	case "recover":
		return func(fr *frame, args []V) V {
			cf := fr.caller
			if cf != nil && cf.paniced && cf.panicV != nil {
				v := cf.panicV.v
				cf.panicV = nil
				return v
			}
			return V{}
		}
	case "close":
		return func(fr *frame, args []V) V {
			ch, _ := args[0].x.(*Chan)
			fr.m.closeChan(ch)
			return V{}
		}
	case "print", "println":
		return func(fr *frame, args []V) V { return V{} }
	case "min", "max":
		isMin := b.Name() == "min"
		t := cc.Args[0].Type()
		k, ok := kindOf(t)
		str := isString(t)
		if !ok && !str {
			m.unsup("min/max on %s", t)
		}
		return func(fr *frame, args []V) V {
			r := args[0]
			for _, a := range args[1:] {
				var lt *Term // a < r
				if str {
					lt = fr.m.strLess(a, r)
					if fr.m.decide(lt) == isMin {
						r = a
					}
					continue
				}
				x, y := fr.m.term(a, k), fr.m.term(r, k)
				if k.signed {
					lt = fr.m.ts.Slt(x, y)
				} else {
					lt = fr.m.ts.Ult(x, y)
				}
				if isMin {
					r = fromTerm(fr.m.ts.Ite(lt, x, y), k)
				} else {
					r = fromTerm(fr.m.ts.Ite(lt, y, x), k)
				}
			}
			return r
		}
	case "ssa:wrapnilchk":
		return func(fr *frame, args []V) V {
			if args[0].x == nil {
				fr.m.rtPanic("value method called using nil pointer")
			}
			return args[0]
		}
	case "SliceData":
		return func(fr *frame, args []V) V {
			s, _ := args[0].x.([]V)
			if s == nil {
				return V{}
			}
			return V{x: sdata{s}}
		}
	case "StringData":
		return func(fr *frame, args []V) V { return V{x: strdata{args[0]}} }
	case "String":
		k, _ := kindOf(cc.Args[1].Type())
		std := c.c.fn.Pkg != nil && !strings.Contains(strings.SplitN(c.c.fn.Pkg.Pkg.Path(), "/", 2)[0], ".")
		return func(fr *frame, args []V) V {
			n := int(fr.m.concretize(args[1], k))
			switch d := args[0].x.(type) {
			case nil:
				return V{}
			case sdata:
				if std {
					return fr.m.bytesStr(d.s[:n]) // strings.Builder and the like only append
				}
				return aliasStr(d.s[:n], fr.m.ts)
			case *V:
				return aliasStr(unsafe.Slice(d, n), fr.m.ts)
			case strdata:
				return strSlice(d.s, 0, n)
			}
			fr.m.unsup("unsafe.String")
			return V{}
		}
	case "Slice":
		k, _ := kindOf(cc.Args[1].Type())
		return func(fr *frame, args []V) V {
			n := int(fr.m.concretize(args[1], k))
			switch d := args[0].x.(type) {
			case nil:
				return V{}
			case sdata:
				return V{x: d.s[:n]}
			case *V:
				return V{x: unsafe.Slice(d, n)}
			case strdata:
				return V{x: fr.m.strBytes(strSlice(d.s, 0, n))}
			}
			fr.m.unsup("unsafe.Slice")
			return V{}
		}
	}
	m.unsup("builtin %s", b.Name())
	return nil
}

// appendV follows the growth and aliasing behaviour of append.
func (m *M) appendV(s, add []V, agg bool, et types.Type) []V {
	n := len(s)
	need := n + len(add)
	if need <= cap(s) {
		r := s[:need]
		tmp := add
		if agg {
			tmp = make([]V, len(add))
			for i := range add {
				tmp[i] = copyV(add[i])
			}
		}
		for i := range tmp {
			m.undo = append(m.undo, undoRec{p: &r[n+i], old: r[n+i]})
			r[n+i] = tmp[i]
		}
		return r
	}
	c := cap(s) * 2
	if c < need {
		c = need
	}
	if cap(s) == 0 && need < 8 {
		if k, ok := kindOf(et); ok && k.w == 8 {
			c = 8
		}
	}
	r := make([]V, need, c)
	if agg {
		for i := range s {
			r[i] = copyV(s[i])
		}
		for i := range add {
			r[n+i] = copyV(add[i])
		}
		rest := r[:c]
		for i := need; i < c; i++ {
			rest[i] = zero(et)
		}
	} else {
		copy(r, s)
		copy(r[n:], add)
	}
	return r
}
