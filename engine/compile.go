package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *M) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			k, _ := kindOf(t)
			if k.signed {
				return V{n: uint64(c.Int64())}
			}
			return V{n: c.Uint64()}
		case b.Info()&types.IsFloat != 0:
			return V{n: math.Float64bits(c.Float64())}
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return strV(constant.StringVal(c.Value))
			}
			return strV(string(rune(c.Int64())))
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return V{}
	}
	m.unsup("constant of type %s", t)
	return V{}
}

type compiler struct {
	m    *M
	c    *cfn
	regs map[ssa.Value]int32
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.m.constV(v)}
	case *ssa.Global:
		return opnd{-1, V{x: c.m.global(v)}}
	case *ssa.Function:
		return opnd{-1, V{x: &Closure{fn: c.m.fn(v)}}}
	case *ssa.Builtin:
		return opnd{-1, V{}}
	}
	r, ok := c.regs[v]
	if !ok {
		c.m.unsup("no register for %s in %s", v.Name(), c.c.name)
	}
	return opnd{r: r}
}

func (m *M) compile(f *cfn) {
	fn := f.fn
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		m.unsup("function without Go code: %s", f.name)
	}
	m.covered[fn] = true
	c := &compiler{m: m, c: f, regs: map[ssa.Value]int32{}}
	n := int32(0)
	for _, p := range fn.Params {
		c.regs[p] = n
		n++
	}
	f.nparams = len(fn.Params)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				c.regs[v] = n
				n++
			}
		}
	}
	fvBase := n
	for _, v := range fn.FreeVars {
		c.regs[v] = n
		n++
	}
	f.nregs = int(n)
	f.blocks = make([]*cblock, len(fn.Blocks))
	for i := range fn.Blocks {
		f.blocks[i] = &cblock{phiKind: map[int32]types.Type{}}
	}
	for i, b := range fn.Blocks {
		c.block(b, f.blocks[i])
	}
	if len(fn.FreeVars) > 0 {
		nfv := len(fn.FreeVars)
		pre := func(fr *frame) {
			copy(fr.regs[fvBase:int(fvBase)+nfv], fr.env)
		}
		for _, bi := range []int{0} {
			f.blocks[bi].ops = append([]op{pre}, f.blocks[bi].ops...)
			f.blocks[bi].pure = false
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				f.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		f.hasDefer = true
	}
	c.regions()
	f.compiled = true
}

func (c *compiler) block(b *ssa.BasicBlock, cb *cblock) {
	cb.pure = true
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			cb.phiKind[c.regs[i]] = i.Type()
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.Jump:
			cb.term = tJump
			cb.succ[0] = c.edge(b, b.Succs[0])
			continue
		case *ssa.If:
			cb.term = tIf
			cb.cond = c.opnd(i.Cond)
			cb.succ[0] = c.edge(b, b.Succs[0])
			cb.succ[1] = c.edge(b, b.Succs[1])
			continue
		case *ssa.Return:
			cb.term = tReturn
			for _, r := range i.Results {
				cb.ret = append(cb.ret, c.opnd(r))
			}
			continue
		case *ssa.Panic:
			cb.term = tPanic
			cb.cond = c.opnd(i.X)
			cb.pure = false
			continue
		}
		for _, o := range ins.Operands(nil) {
			if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && !c.m.inited[g.Pkg] && c.m.initialises(g) && !initExempt[g.String()] {
				name := g.String()
				cb.ops = append(cb.ops, func(fr *frame) {
					if fr.m.p != nil || !fr.m.inited[g.Pkg] {
						if !fr.m.inited[g.Pkg] {
							fr.m.unsup("package variable %s is not initialised in the model", name)
						}
					}
				})
				cb.pure = false
			}
		}
		if !c.pureInstr(ins) {
			cb.pure = false
		}
		var o op
		func() {
			defer func() {
				if r := recover(); r != nil {
					u, ok := r.(unsupported)
					if !ok {
						panic(r)
					}
					o = func(fr *frame) { panic(u) }
				}
			}()
			o = c.instr(ins)
		}()
		if o != nil {
			cb.ops = append(cb.ops, o)
		}
	}
}

func (c *compiler) edge(from, to *ssa.BasicBlock) edge {
	e := edge{to: int32(to.Index)}
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	// If both branches of an If go to the same block, phis see two predecessor entries with the
	// same block; go/ssa guarantees distinct edges in order, handled by the caller's order.
	if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] {
		c.m.unsup("degenerate branch in %s", c.c.name)
	}
	for _, ins := range to.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		e.moves = append(e.moves, phiMove{c.regs[p], c.opnd(p.Edges[idx])})
	}
	return e
}

func (c *compiler) pureInstr(ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.BinOp:
		switch i.Op {
		case token.QUO, token.REM:
			k, ok := i.Y.(*ssa.Const)
			return ok && k.Value != nil && constant.Sign(k.Value) != 0
		case token.SHL, token.SHR:
			_, ok := i.Y.(*ssa.Const)
			k, isInt := kindOf(i.Y.Type())
			return ok || isInt && !k.signed
		case token.EQL, token.NEQ:
			_, iface := i.X.Type().Underlying().(*types.Interface)
			return !iface || isNilConst(i.X) || isNilConst(i.Y)
		}
		return true
	case *ssa.UnOp:
		if i.Op == token.MUL {
			switch i.X.(type) {
			case *ssa.Global, *ssa.Alloc, *ssa.FreeVar:
				return true
			}
			return false
		}
		return i.Op != token.ARROW
	case *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Extract, *ssa.Field, *ssa.MakeInterface:
		return true
	case *ssa.Convert:
		_, a := kindOf(i.X.Type())
		_, b := kindOf(i.Type())
		return a && b
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
		if f := i.Call.StaticCallee(); f != nil {
			return c.m.pureFn(f, 0)
		}
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

var pureCache = map[*ssa.Function]bool{}
var pureMu sync.Mutex

// pureFn reports whether a function is a loop-free, side-effect-free computation on scalars.
func (m *M) pureFn(f *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	pureMu.Lock()
	r, ok := pureCache[f]
	pureMu.Unlock()
	if ok {
		return r
	}
	r = func() bool {
		if m.fn(f).intr != nil || len(f.FreeVars) > 0 {
			return false
		}
		if f.Pkg != nil {
			f.Pkg.Build()
		}
		if f.Blocks == nil || f.Recover != nil || len(f.Blocks) > 60 {
			return false
		}
		res := f.Signature.Results()
		if res.Len() == 0 {
			return false
		}
		for i := 0; i < res.Len(); i++ {
			if _, ok := kindOf(res.At(i).Type()); !ok {
				return false
			}
		}
		cc := &compiler{m: m}
		for _, b := range f.Blocks {
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return false
				}
			}
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Phi:
					if _, ok := kindOf(i.Type()); !ok {
						return false
					}
				case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.DebugRef:
				case *ssa.Call:
					g := i.Call.StaticCallee()
					if g == f {
						return false
					}
					if g != nil {
						if !m.pureFn(g, depth+1) {
							return false
						}
					} else if !cc.pureInstr(ins) {
						return false
					}
				case *ssa.UnOp:
					if i.Op == token.MUL {
						if _, ok := i.X.(*ssa.Global); !ok {
							return false
						}
					} else if i.Op == token.ARROW {
						return false
					}
				default:
					if !cc.pureInstr(ins) {
						return false
					}
				}
			}
		}
		return true
	}()
	pureMu.Lock()
	pureCache[f] = r
	pureMu.Unlock()
	return r
}

// regions finds, for every branching block, the acyclic side-effect-free blocks it dominates.
func (c *compiler) regions() {
	fn := c.c.fn
	// reverse postorder numbers
	num := make([]int, len(fn.Blocks))
	var post []int
	seen := make([]bool, len(fn.Blocks))
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		num[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		cb := c.c.blocks[b.Index]
		if cb.term != tIf || !seen[b.Index] {
			continue
		}
		in := map[int32]bool{}
		var order []int32
		// candidates in RPO order
		cand := map[int]bool{}
		for _, s := range b.Succs {
			cand[s.Index] = true
		}
		for len(cand) > 0 && len(order) < 400 {
			best := -1
			for x := range cand {
				if best < 0 || num[x] < num[best] {
					best = x
				}
			}
			delete(cand, best)
			x := fn.Blocks[best]
			cx := c.c.blocks[best]
			if !cx.pure || x == b || num[best] <= num[b.Index] || in[int32(best)] {
				continue
			}
			ok := true
			for _, p := range x.Preds {
				if p != b && !in[int32(p.Index)] {
					ok = false
					break
				}
			}
			for _, s := range x.Succs {
				if num[s.Index] <= num[best] && s == x {
					ok = false
				}
			}
			if cx.term == tReturn {
				// merging returns only pays off for scalars
				for _, r := range x.Instrs[len(x.Instrs)-1].(*ssa.Return).Results {
					if _, scalar := kindOf(r.Type()); !scalar {
						ok = false
					}
				}
				if len(cx.ret) == 0 || c.c.hasDefer {
					ok = false
				}
			}
			if !ok {
				continue
			}
			in[int32(best)] = true
			order = append(order, int32(best))
			for _, s := range x.Succs {
				if num[s.Index] > num[best] {
					cand[s.Index] = true
				}
			}
		}
		// An exit through a back edge is fine; a region is useful if non-empty.
		if len(order) > 0 {
			sort.Slice(order, func(i, j int) bool { return num[order[i]] < num[order[j]] })
			cb.region = &region{order: order, in: in}
		}
	}
}

// ---------------------------------------------------------------- instructions

func (c *compiler) instr(ins ssa.Instruction) op {
	m := c.m
	switch i := ins.(type) {
	case *ssa.Alloc:
		dst := c.regs[i]
		et := i.Type().Underlying().(*types.Pointer).Elem()
		if isAggType(et) {
			return func(fr *frame) { fr.regs[dst] = V{x: newSlot(zero(et))} }
		}
		return func(fr *frame) { fr.regs[dst] = V{x: new(V)} }
	case *ssa.BinOp:
		return c.binop(i)
	case *ssa.UnOp:
		return c.unop(i)
	case *ssa.Store:
		a, v := c.opnd(i.Addr), c.opnd(i.Val)
		if isAggType(i.Val.Type()) {
			return func(fr *frame) { fr.m.store(fr.ptr(&a), fr.get(&v)) }
		}
		return func(fr *frame) {
			p := fr.ptr(&a)
			fr.m.undo = append(fr.m.undo, undoRec{p: p, old: *p})
			*p = fr.get(&v)
		}
	case *ssa.FieldAddr:
		dst, x, f := c.regs[i], c.opnd(i.X), i.Field
		return func(fr *frame) {
			p := fr.ptr(&x)
			a, ok := p.x.(*Agg)
			if !ok {
				fr.m.unsup("field address of opaque object %s in %s", i.X.Type(), fr.fn.name)
			}
			fr.regs[dst] = V{x: &a.f[f]}
		}
	case *ssa.Field:
		dst, x, f := c.regs[i], c.opnd(i.X), i.Field
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).x.(*Agg).f[f] }
	case *ssa.IndexAddr:
		return c.indexAddr(i)
	case *ssa.Index:
		return c.index(i)
	case *ssa.Lookup:
		dst, x, k := c.regs[i], c.opnd(i.X), c.opnd(i.Index)
		mt := i.X.Type().Underlying().(*types.Map)
		vt := mt.Elem()
		ok := i.CommaOk
		return func(fr *frame) {
			mp, _ := fr.get(&x).x.(*Map)
			v, found := fr.m.mapLookup(mp, fr.get(&k), vt)
			if ok {
				fr.regs[dst] = V{x: Tuple{v, found}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := c.opnd(i.Map), c.opnd(i.Key), c.opnd(i.Value)
		return func(fr *frame) {
			mp, _ := fr.get(&x).x.(*Map)
			fr.m.mapSet(mp, fr.get(&k), fr.get(&v))
		}
	case *ssa.MakeMap:
		dst := c.regs[i]
		mt := i.Type().Underlying().(*types.Map)
		return func(fr *frame) { fr.regs[dst] = V{x: fr.m.newMap(mt)} }
	case *ssa.MakeSlice:
		dst, l, cp := c.regs[i], c.opnd(i.Len), c.opnd(i.Cap)
		et := i.Type().Underlying().(*types.Slice).Elem()
		agg := isAggType(et)
		lk, _ := kindOf(i.Len.Type())
		ck, _ := kindOf(i.Cap.Type())
		return func(fr *frame) {
			n := int64(fr.m.concretize(fr.get(&l), lk))
			k := int64(fr.m.concretize(fr.get(&cp), ck))
			if n < 0 || k < n {
				fr.m.rtPanic("runtime error: makeslice: len out of range")
			}
			if k > 1<<22 {
				fr.m.unsup("slice of %d elements", k)
			}
			s := make([]V, n, k)
			if agg {
				for j := range s[:k] {
					s[:k][j] = zero(et)
				}
			}
			fr.regs[dst] = V{x: s}
		}
	case *ssa.MakeChan:
		dst, s := c.regs[i], c.opnd(i.Size)
		k, _ := kindOf(i.Size.Type())
		return func(fr *frame) {
			n := fr.m.concretize(fr.get(&s), k)
			fr.regs[dst] = V{x: &Chan{cap: int(n), elem: i.Type().Underlying().(*types.Chan).Elem()}}
		}
	case *ssa.MakeClosure:
		dst := c.regs[i]
		f := m.fn(i.Fn.(*ssa.Function))
		var b []opnd
		for _, x := range i.Bindings {
			b = append(b, c.opnd(x))
		}
		return func(fr *frame) {
			env := make([]V, len(b))
			for j := range b {
				env[j] = fr.get(&b[j])
			}
			fr.regs[dst] = V{x: &Closure{fn: f, env: env}}
		}
	case *ssa.MakeInterface:
		dst, x := c.regs[i], c.opnd(i.X)
		rt := m.rt(i.X.Type())
		return func(fr *frame) { fr.regs[dst] = V{x: &Iface{rt, fr.get(&x)}} }
	case *ssa.ChangeInterface:
		dst, x := c.regs[i], c.opnd(i.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.ChangeType:
		dst, x := c.regs[i], c.opnd(i.X)
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case *ssa.Convert:
		return c.convert(i.X, i.Type(), c.regs[i])
	case *ssa.MultiConvert:
		return c.convert(i.X, i.Type(), c.regs[i])
	case *ssa.SliceToArrayPointer:
		m.unsup("slice to array pointer")
	case *ssa.Extract:
		dst, x, n := c.regs[i], c.opnd(i.Tuple), i.Index
		return func(fr *frame) { fr.regs[dst] = fr.get(&x).x.(Tuple)[n] }
	case *ssa.TypeAssert:
		return c.typeAssert(i)
	case *ssa.Slice:
		return c.slice(i)
	case *ssa.Range:
		dst, x := c.regs[i], c.opnd(i.X)
		if isString(i.X.Type()) {
			return func(fr *frame) { fr.regs[dst] = V{x: &strIter{s: fr.get(&x)}} }
		}
		noOrder := c.c.noOrder
		return func(fr *frame) {
			mp, _ := fr.get(&x).x.(*Map)
			it := &mapIter{mp: mp, ordered: !fr.m.mapOrd || noOrder}
			if mp != nil {
				it.n = len(mp.ents)
				for j := range mp.ents {
					if mp.ents[j].live {
						it.rest = append(it.rest, j)
					}
				}
			}
			fr.regs[dst] = V{x: it}
		}
	case *ssa.Next:
		return c.next(i)
	case *ssa.Call:
		return c.call(i)
	case *ssa.Defer:
		mk := c.callee(&i.Call)
		if i.DeferStack != nil {
			m.unsup("defer inside a range-over-func body")
		}
		return func(fr *frame) {
			f, env, nat, args := mk(fr)
			fr.defers = append(fr.defers, deferred{f, env, nat, args})
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.m.runDefers(fr)
			if fr.paniced && fr.panicV != nil {
				p := fr.panicV
				panic(p)
			}
			fr.paniced = false
		}
	case *ssa.Go:
		mk := c.callee(&i.Call)
		return func(fr *frame) {
			f, env, nat, args := mk(fr)
			fr.m.spawn(f, env, nat, args)
		}
	case *ssa.Send:
		ch, x := c.opnd(i.Chan), c.opnd(i.X)
		return func(fr *frame) {
			cc, _ := fr.get(&ch).x.(*Chan)
			fr.m.send(cc, fr.get(&x))
		}
	case *ssa.Select:
		return c.sel(i)
	}
	m.unsup("instruction %T", ins)
	return nil
}

func newSlot(v V) *V { return &v }

func (fr *frame) ptr(o *opnd) *V {
	v := fr.get(o)
	p, ok := v.x.(*V)
	if !ok {
		if v.x == nil {
			fr.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		fr.m.unsup("pointer of kind %T in %s", v.x, fr.fn.name)
	}
	return p
}

func (c *compiler) unop(i *ssa.UnOp) op {
	m := c.m
	dst, x := c.regs[i], c.opnd(i.X)
	switch i.Op {
	case token.MUL:
		if isAggType(i.Type()) {
			return func(fr *frame) { fr.regs[dst] = copyV(*fr.ptr(&x)) }
		}
		if cv, ok := i.X.(*ssa.Convert); ok && isUnsafe(cv.X.Type()) {
			// *(*string)(unsafe.Pointer(&b)) and the other way round
			str := isString(i.Type())
			sl, isSl := i.Type().Underlying().(*types.Slice)
			if isSl {
				k, _ := kindOf(sl.Elem())
				isSl = k.w == 8
			}
			if str || isSl {
				return func(fr *frame) {
					v := *fr.ptr(&x)
					switch s := v.x.(type) {
					case []V:
						if str {
							v = aliasStr(s, fr.m.ts)
						}
					case string, *SStr:
						if isSl {
							v = V{x: fr.m.strBytes(v)}
						}
					case *AStr:
						if isSl {
							v = V{x: s.s}
						}
					}
					fr.regs[dst] = v
				}
			}
		}
		return func(fr *frame) {
			v := fr.regs
			p := fr.get(&x)
			if s, ok := p.x.(*V); ok {
				v[dst] = *s
				return
			}
			if sp, ok := p.x.(*symElem); ok {
				v[dst] = fr.m.readElem(sp.s, sp.idx, sp.k)
				return
			}
			fr.ptr(&x)
		}
	case token.NOT:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.regs[dst] = V{n: v.n ^ 1}
			} else {
				fr.regs[dst] = fromBool(fr.m.ts.Not(v.x.(*Term)))
			}
		}
	case token.SUB, token.XOR:
		if isFloat(i.Type()) {
			return func(fr *frame) {
				fr.regs[dst] = V{n: math.Float64bits(-math.Float64frombits(fr.get(&x).n))}
			}
		}
		k, ok := kindOf(i.Type())
		if !ok {
			m.unsup("unary %s on %s", i.Op, i.Type())
		}
		neg := i.Op == token.SUB
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				if neg {
					fr.regs[dst] = V{n: norm(-v.n, k)}
				} else {
					fr.regs[dst] = V{n: norm(^v.n, k)}
				}
				return
			}
			t := v.x.(*Term)
			if neg {
				fr.regs[dst] = fromTerm(fr.m.ts.build(oNeg, k.w, 0, t, nil, nil), k)
			} else {
				fr.regs[dst] = fromTerm(fr.m.ts.Not(t), k)
			}
		}
	case token.ARROW:
		ok := i.CommaOk
		return func(fr *frame) {
			cc, _ := fr.get(&x).x.(*Chan)
			v, o := fr.m.recv(cc, i.X.Type().Underlying().(*types.Chan).Elem())
			if ok {
				fr.regs[dst] = V{x: Tuple{v, boolV(o)}}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	m.unsup("unary operator %s", i.Op)
	return nil
}

func (c *compiler) binop(i *ssa.BinOp) op {
	m := c.m
	dst, x, y := c.regs[i], c.opnd(i.X), c.opnd(i.Y)
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		ne := i.Op == token.NEQ
		if k, ok := kindOf(t); ok {
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if a.x == nil && b.x == nil {
					if (a.n == b.n) != ne {
						fr.regs[dst] = V{n: 1}
					} else {
						fr.regs[dst] = V{}
					}
					return
				}
				r := fr.m.ts.Eq(fr.m.term(a, k), fr.m.term(b, k))
				if ne {
					r = fr.m.ts.Not(r)
				}
				fr.regs[dst] = fromBool(r)
			}
		}
		if isNilConst(i.X) || isNilConst(i.Y) {
			if isNilConst(i.X) {
				x = y
			}
			if _, basic := i.X.Type().Underlying().(*types.Basic); !basic {
				return func(fr *frame) { fr.regs[dst] = boolV((fr.get(&x).x == nil) != ne) }
			}
		}
		yt := i.Y.Type()
		_, xi := t.Underlying().(*types.Interface)
		_, yi := yt.Underlying().(*types.Interface)
		if xi != yi {
			// mixed interface / concrete comparison
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if !xi {
					a = V{x: &Iface{fr.m.rt(t), a}}
				}
				if !yi {
					b = V{x: &Iface{fr.m.rt(yt), b}}
				}
				it := t
				if !xi {
					it = yt
				}
				r := fr.m.eqV(it, a, b)
				if ne {
					r = fr.m.ts.Not(r)
				}
				fr.regs[dst] = fromBool(r)
			}
		}
		return func(fr *frame) {
			r := fr.m.eqV(t, fr.get(&x), fr.get(&y))
			if ne {
				r = fr.m.ts.Not(r)
			}
			fr.regs[dst] = fromBool(r)
		}
	}
	if isString(t) {
		switch i.Op {
		case token.ADD:
			return func(fr *frame) { fr.regs[dst] = fr.m.strConcat(fr.get(&x), fr.get(&y)) }
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			o := i.Op
			return func(fr *frame) {
				a, b := fr.get(&x), fr.get(&y)
				if o == token.GTR || o == token.LEQ {
					a, b = b, a
				}
				r := fr.m.strLess(a, b)
				if o == token.LEQ || o == token.GEQ {
					r = fr.m.ts.Not(r)
				}
				fr.regs[dst] = fromBool(r)
			}
		}
	}
	if isFloat(t) {
		o := i.Op
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			a, b := math.Float64frombits(fr.get(&x).n), math.Float64frombits(fr.get(&y).n)
			var r float64
			switch o {
			case token.ADD:
				r = a + b
			case token.SUB:
				r = a - b
			case token.MUL:
				r = a * b
			case token.QUO:
				r = a / b
			case token.LSS:
				fr.regs[dst] = boolV(a < b)
				return
			case token.LEQ:
				fr.regs[dst] = boolV(a <= b)
				return
			case token.GTR:
				fr.regs[dst] = boolV(a > b)
				return
			case token.GEQ:
				fr.regs[dst] = boolV(a >= b)
				return
			default:
				fr.m.unsup("float operator %s", o)
			}
			if f32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = V{n: math.Float64bits(r)}
		}
	}
	k, ok := kindOf(t)
	if !ok {
		m.unsup("binary %s on %s", i.Op, t)
	}
	o := i.Op
	sym := func(fr *frame, a, b V) V { return fr.m.symBin(o, k, a, b) }
	switch o {
	case token.ADD:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.x == nil && b.x == nil {
				fr.regs[dst] = V{n: norm(a.n+b.n, k)}
				return
			}
			fr.regs[dst] = sym(fr, a, b)
		}
	case token.SUB:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.x == nil && b.x == nil {
				fr.regs[dst] = V{n: norm(a.n-b.n, k)}
				return
			}
			fr.regs[dst] = sym(fr, a, b)
		}
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			if a.x == nil && b.x == nil {
				var r bool
				if k.signed {
					switch o {
					case token.LSS:
						r = int64(a.n) < int64(b.n)
					case token.GTR:
						r = int64(a.n) > int64(b.n)
					case token.LEQ:
						r = int64(a.n) <= int64(b.n)
					default:
						r = int64(a.n) >= int64(b.n)
					}
				} else {
					switch o {
					case token.LSS:
						r = a.n < b.n
					case token.GTR:
						r = a.n > b.n
					case token.LEQ:
						r = a.n <= b.n
					default:
						r = a.n >= b.n
					}
				}
				fr.regs[dst] = boolV(r)
				return
			}
			fr.regs[dst] = sym(fr, a, b)
		}
	case token.SHL, token.SHR:
		yk, _ := kindOf(i.Y.Type())
		return func(fr *frame) {
			a, b := fr.get(&x), fr.get(&y)
			fr.regs[dst] = fr.m.shift(o, k, yk, a, b)
		}
	}
	return func(fr *frame) {
		a, b := fr.get(&x), fr.get(&y)
		if a.x == nil && b.x == nil {
			fr.regs[dst] = fr.m.concBin(o, k, a.n, b.n)
			return
		}
		fr.regs[dst] = sym(fr, a, b)
	}
}

func (m *M) concBin(o token.Token, k intKind, a, b uint64) V {
	switch o {
	case token.MUL:
		return V{n: norm(a*b, k)}
	case token.AND:
		return V{n: norm(a&b, k)}
	case token.OR:
		return V{n: norm(a|b, k)}
	case token.XOR:
		return V{n: norm(a^b, k)}
	case token.AND_NOT:
		return V{n: norm(a&^b, k)}
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic("runtime error: integer divide by zero")
		}
		if k.signed {
			if int64(b) == -1 {
				if o == token.QUO {
					return V{n: norm(-a, k)}
				}
				return V{}
			}
			if o == token.QUO {
				return V{n: norm(uint64(int64(a)/int64(b)), k)}
			}
			return V{n: norm(uint64(int64(a)%int64(b)), k)}
		}
		if o == token.QUO {
			return V{n: norm(a/b, k)}
		}
		return V{n: norm(a%b, k)}
	}
	m.unsup("operator %s", o)
	return V{}
}

func (m *M) symBin(o token.Token, k intKind, av, bv V) V {
	ts := m.ts
	a, b := m.term(av, k), m.term(bv, k)
	less := func(a, b *Term) *Term {
		if k.signed {
			return ts.Slt(a, b)
		}
		return ts.Ult(a, b)
	}
	switch o {
	case token.ADD:
		return fromTerm(ts.Bin(oAdd, a, b), k)
	case token.SUB:
		return fromTerm(ts.Bin(oSub, a, b), k)
	case token.MUL:
		return fromTerm(ts.Bin(oMul, a, b), k)
	case token.AND:
		return fromTerm(ts.And(a, b), k)
	case token.OR:
		return fromTerm(ts.Or(a, b), k)
	case token.XOR:
		return fromTerm(ts.Xor(a, b), k)
	case token.AND_NOT:
		return fromTerm(ts.And(a, ts.Not(b)), k)
	case token.LSS:
		return fromBool(less(a, b))
	case token.GTR:
		return fromBool(less(b, a))
	case token.LEQ:
		return fromBool(ts.Not(less(b, a)))
	case token.GEQ:
		return fromBool(ts.Not(less(a, b)))
	case token.QUO, token.REM:
		if m.decide(ts.Eq(b, ts.konst(k.w, 0))) {
			m.rtPanic("runtime error: integer divide by zero")
		}
		op := oUDiv
		if o == token.REM {
			op = oURem
		}
		if k.signed {
			op += 2
		}
		return fromTerm(ts.build(op, k.w, 0, a, b, nil), k)
	}
	m.unsup("operator %s", o)
	return V{}
}

func (m *M) shift(o token.Token, k, yk intKind, a, b V) V {
	if b.x != nil {
		b = V{n: m.concretize(b, yk)}
	}
	if yk.signed && int64(b.n) < 0 {
		m.rtPanic("runtime error: negative shift amount")
	}
	if a.x == nil {
		if o == token.SHL {
			if b.n >= 64 {
				return V{}
			}
			return V{n: norm(a.n<<b.n, k)}
		}
		if k.signed {
			s := b.n
			if s > 63 {
				s = 63
			}
			return V{n: uint64(int64(a.n) >> s)}
		}
		if b.n >= 64 {
			return V{}
		}
		return V{n: a.n >> b.n}
	}
	t := a.x.(*Term)
	op := oShl
	if o == token.SHR {
		op = oLShr
		if k.signed {
			op = oAShr
		}
	}
	n := b.n
	if n > uint64(k.w) {
		n = uint64(k.w)
	}
	return fromTerm(m.ts.Bin(op, t, m.ts.konst(k.w, n)), k)
}

// symElem is the address of an element at a symbolic index, used only for reading.
type symElem struct {
	s   []V
	idx *Term
	k   intKind
}

// readElem reads s[idx] as an if-then-else over the possible indexes.
func (m *M) readElem(s []V, idx *Term, k intKind) V {
	// group equal constants into ranges over the index
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		same := true
		for i := lo + 1; i < hi; i++ {
			if s[i] != s[lo] {
				same = false
				break
			}
		}
		if same {
			return m.term(s[lo], k)
		}
		mid := (lo + hi) / 2
		return m.ts.Ite(m.ts.Ult(idx, m.ts.konst(idx.w, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	return fromTerm(build(0, len(s)), k)
}

// boundsIdx checks an index; the result is concrete unless sym is allowed.
func (m *M) boundsIdx(v V, k intKind, n int, allowSym bool) (int, *Term) {
	if v.x == nil {
		i := int64(v.n)
		if i < 0 || i >= int64(n) {
			m.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := v.x.(*Term)
	var ok *Term
	if n > 0 && k.w < 64 && uint64(n) > mask(k.w) && !k.signed {
		ok = m.ts.tt[1]
	} else {
		ok = m.ts.Ult(t, m.ts.konst(k.w, uint64(n)))
	}
	if !m.decide(ok) {
		m.rtPanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	if c, ok := m.p.constUnder(t); ok {
		return int(c), nil
	}
	if allowSym {
		return 0, t
	}
	return int(m.concretize(v, k)), nil
}

func (c *compiler) indexAddr(i *ssa.IndexAddr) op {
	dst, x, ix := c.regs[i], c.opnd(i.X), c.opnd(i.Index)
	k, _ := kindOf(i.Index.Type())
	var et types.Type
	isPtr := false
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Pointer:
		isPtr = true
		et = u.Elem().Underlying().(*types.Array).Elem()
	}
	ek, scalar := kindOf(et)
	readOnly := scalar
	if readOnly {
		for _, r := range *i.Referrers() {
			u, ok := r.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				readOnly = false
				break
			}
		}
	}
	return func(fr *frame) {
		var s []V
		if isPtr {
			s = fr.ptr(&x).x.(*Agg).f
		} else {
			s, _ = fr.get(&x).x.([]V)
		}
		iv := fr.get(&ix)
		if iv.x == nil && iv.n < uint64(len(s)) {
			fr.regs[dst] = V{x: &s[iv.n]}
			return
		}
		n, t := fr.m.boundsIdx(iv, k, len(s), readOnly)
		if t != nil {
			fr.regs[dst] = V{x: &symElem{s, t, ek}}
			return
		}
		fr.regs[dst] = V{x: &s[n]}
	}
}

func (c *compiler) index(i *ssa.Index) op {
	dst, x, ix := c.regs[i], c.opnd(i.X), c.opnd(i.Index)
	k, _ := kindOf(i.Index.Type())
	if isString(i.X.Type()) {
		return func(fr *frame) {
			s := fr.get(&x)
			n := strLen(s)
			iv := fr.get(&ix)
			j, t := fr.m.boundsIdx(iv, k, n, true)
			if t != nil {
				fr.regs[dst] = fr.m.readElem(fr.m.strBytes(s), t, intKind{8, false})
				return
			}
			fr.regs[dst] = fr.m.strAt(s, j)
		}
	}
	at, ok := i.X.Type().Underlying().(*types.Array)
	if !ok {
		c.m.unsup("index of %s", i.X.Type())
	}
	ek, scalar := kindOf(at.Elem())
	return func(fr *frame) {
		a := fr.get(&x).x.(*Agg)
		j, t := fr.m.boundsIdx(fr.get(&ix), k, len(a.f), scalar)
		if t != nil {
			fr.regs[dst] = fr.m.readElem(a.f, t, ek)
			return
		}
		fr.regs[dst] = a.f[j]
	}
}

func (c *compiler) slice(i *ssa.Slice) op {
	dst, x := c.regs[i], c.opnd(i.X)
	var lo, hi, mx opnd
	hasLo, hasHi, hasMax := i.Low != nil, i.High != nil, i.Max != nil
	var lk, hk, mk intKind
	if hasLo {
		lo = c.opnd(i.Low)
		lk, _ = kindOf(i.Low.Type())
	}
	if hasHi {
		hi = c.opnd(i.High)
		hk, _ = kindOf(i.High.Type())
	}
	if hasMax {
		mx = c.opnd(i.Max)
		mk, _ = kindOf(i.Max.Type())
	}
	str := isString(i.X.Type())
	_, isPtr := i.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		m := fr.m
		var s []V
		var sv V
		var length, capacity int
		if str {
			sv = fr.get(&x)
			length = strLen(sv)
			capacity = length
		} else if isPtr {
			s = fr.ptr(&x).x.(*Agg).f
			length, capacity = len(s), len(s)
		} else {
			sv = fr.get(&x)
			s, _ = sv.x.([]V)
			length, capacity = len(s), cap(s)
		}
		l, h, mm := int64(0), int64(length), int64(capacity)
		if hasLo {
			l = int64(m.concretize(fr.get(&lo), lk))
		}
		if hasHi {
			h = int64(m.concretize(fr.get(&hi), hk))
		}
		if hasMax {
			mm = int64(m.concretize(fr.get(&mx), mk))
		}
		if l < 0 || h < l || mm < h || mm > int64(capacity) {
			m.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, capacity))
		}
		if str {
			fr.regs[dst] = strSlice(sv, int(l), int(h))
			return
		}
		if s == nil {
			fr.regs[dst] = V{}
			return
		}
		fr.regs[dst] = V{x: s[l:h:mm]}
	}
}

type strIter struct {
	s V
	i int
}

type mapIter struct {
	mp      *Map
	rest    []int
	n       int
	ordered bool
}

func (c *compiler) next(i *ssa.Next) op {
	dst, it := c.regs[i], c.opnd(i.Iter)
	if i.IsString {
		return func(fr *frame) {
			si := fr.get(&it).x.(*strIter)
			if si.i >= strLen(si.s) {
				fr.regs[dst] = V{x: Tuple{V{}, V{}, V{}}}
				return
			}
			pos := si.i
			r, w := fr.m.decodeRune(fr, strSlice(si.s, si.i, strLen(si.s)))
			si.i += w
			fr.regs[dst] = V{x: Tuple{V{n: 1}, intV(pos), r}}
		}
	}
	tt := i.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	zeroOf := func(t types.Type) V {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return V{}
		}
		return zero(t)
	}
	return func(fr *frame) {
		mi := fr.get(&it).x.(*mapIter)
		for {
			// drop entries deleted meanwhile
			live := mi.rest[:0]
			for _, j := range mi.rest {
				if mi.mp.ents[j].live {
					live = append(live, j)
				}
			}
			mi.rest = live
			if len(mi.rest) == 0 {
				fr.regs[dst] = V{x: Tuple{V{}, zeroOf(kt), zeroOf(vt)}}
				return
			}
			pick := 0
			if !mi.ordered && len(mi.rest) > 1 {
				pick = fr.m.choose("!maporder", len(mi.rest))
			}
			j := mi.rest[pick]
			mi.rest = append(append([]int(nil), mi.rest[:pick]...), mi.rest[pick+1:]...)
			e := &mi.mp.ents[j]
			fr.regs[dst] = V{x: Tuple{V{n: 1}, copyV(e.k), copyV(e.v)}}
			return
		}
	}
}

// choose makes a fresh symbolic choice in [0,n) and forks over it.
func (m *M) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if m.p == nil {
		return 0
	}
	t := m.p.newVar(name, n)
	for i := 0; i < n-1; i++ {
		if m.decide(m.ts.Eq(t, m.ts.bytes[i])) {
			return i
		}
	}
	return n - 1
}

func (m *M) decodeRune(fr *frame, s V) (V, int) {
	if cs, ok := concreteStr(s); ok {
		r, w := utf8.DecodeRuneInString(cs)
		return V{n: uint64(int64(r))}, w
	}
	if a, ok := s.x.(*AStr); ok {
		s = a.now()
	}
	b := s.x.(*SStr).b[0]
	if m.decide(m.ts.Ult(b, m.ts.bytes[0x80])) {
		return fromTerm(m.ts.ZExt(b, 32), intKind{32, true}), 1
	}
	f := m.stdFunc("unicode/utf8", "DecodeRuneInString")
	r := m.callArgs(fr, f, nil, []V{s}).x.(Tuple)
	return r[0], int(m.concretize(r[1], intKind{64, true}))
}

func (m *M) stdFunc(pkg, name string) *cfn {
	p := m.prog.ImportedPackage(pkg)
	if p == nil {
		m.unsup("package %s not loaded", pkg)
	}
	f := p.Func(name)
	if f == nil {
		m.unsup("%s.%s not found", pkg, name)
	}
	return m.fn(f)
}

func (c *compiler) typeAssert(i *ssa.TypeAssert) op {
	m := c.m
	dst, x := c.regs[i], c.opnd(i.X)
	rt := m.rt(i.AssertedType)
	it, isIface := i.AssertedType.Underlying().(*types.Interface)
	ok := i.CommaOk
	return func(fr *frame) {
		v := fr.get(&x)
		var res V
		good := false
		if v.x != nil {
			iv := v.x.(*Iface)
			if isIface {
				if fr.m.implements(iv.rt, it, rt) {
					res, good = v, true
				}
			} else if iv.rt == rt {
				res, good = iv.v, true
			}
		}
		if ok {
			if !good {
				res = zero(i.AssertedType)
			}
			fr.regs[dst] = V{x: Tuple{res, boolV(good)}}
			return
		}
		if !good {
			d := "nil"
			if v.x != nil {
				d = v.x.(*Iface).rt.name
			}
			fr.m.rtPanic("interface conversion: interface is " + d + ", not " + rt.name)
		}
		fr.regs[dst] = res
	}
}

func (c *compiler) convert(xv ssa.Value, to types.Type, dst int32) op {
	m := c.m
	x := c.opnd(xv)
	from := xv.Type()
	fk, fi := kindOf(from)
	tk, ti := kindOf(to)
	switch {
	case fi && ti:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x == nil {
				fr.regs[dst] = V{n: norm(v.n, tk)}
				return
			}
			fr.regs[dst] = fromTerm(fr.m.convTerm(v.x.(*Term), fk, tk), tk)
		}
	case isString(to) && isString(from):
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	case isString(to) && fi:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x != nil {
				t := fr.m.convTerm(v.x.(*Term), fk, intKind{32, true})
				if fr.m.decide(fr.m.ts.Ult(t, fr.m.ts.konst(32, 0x80))) {
					fr.regs[dst] = mkStr([]*Term{fr.m.ts.Extract(t, 0, 8)})
					return
				}
				v = V{n: fr.m.concretize(v, fk)}
			}
			fr.regs[dst] = strV(string(rune(int64(v.n))))
		}
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			ek, _ := kindOf(s.Elem())
			if ek.w == 8 {
				return func(fr *frame) {
					b, _ := fr.get(&x).x.([]V)
					fr.regs[dst] = fr.m.bytesStr(b)
				}
			}
			return func(fr *frame) {
				b, _ := fr.get(&x).x.([]V)
				out := V{}
				for _, r := range b {
					if r.x != nil {
						t := r.x.(*Term)
						if fr.m.decide(fr.m.ts.Ult(t, fr.m.ts.konst(32, 0x80))) {
							out = fr.m.strConcat(out, mkStr([]*Term{fr.m.ts.Extract(t, 0, 8)}))
							continue
						}
						r = V{n: fr.m.concretize(r, ek)}
					}
					out = fr.m.strConcat(out, strV(string(rune(int64(r.n)))))
				}
				fr.regs[dst] = out
			}
		}
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			ek, _ := kindOf(s.Elem())
			if ek.w == 8 {
				return func(fr *frame) { fr.regs[dst] = V{x: fr.m.strBytes(fr.get(&x))} }
			}
			return func(fr *frame) {
				sv := fr.get(&x)
				out := []V{}
				for strLen(sv) > 0 {
					r, w := fr.m.decodeRune(fr, sv)
					out = append(out, r)
					sv = strSlice(sv, w, strLen(sv))
				}
				fr.regs[dst] = V{x: out}
			}
		}
	case isFloat(to) && fi:
		return func(fr *frame) {
			v := fr.get(&x)
			if v.x != nil {
				fr.m.unsup("symbolic integer to float")
			}
			if fk.signed {
				fr.regs[dst] = V{n: math.Float64bits(float64(int64(v.n)))}
			} else {
				fr.regs[dst] = V{n: math.Float64bits(float64(v.n))}
			}
		}
	case isFloat(from) && ti:
		return func(fr *frame) {
			f := math.Float64frombits(fr.get(&x).n)
			if tk.signed {
				fr.regs[dst] = V{n: norm(uint64(int64(f)), tk)}
			} else {
				fr.regs[dst] = V{n: norm(uint64(f), tk)}
			}
		}
	case isFloat(from) && isFloat(to):
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	}
	_, fp := from.Underlying().(*types.Pointer)
	_, tp := to.Underlying().(*types.Pointer)
	fu := isUnsafe(from)
	tu := isUnsafe(to)
	if (fp || fu) && (tp || tu) {
		return func(fr *frame) { fr.regs[dst] = fr.get(&x) }
	}
	m.unsup("conversion %s to %s", from, to)
	return nil
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (m *M) convTerm(t *Term, fk, tk intKind) *Term {
	switch {
	case tk.w == fk.w:
		return t
	case tk.w < fk.w:
		return m.ts.Extract(t, 0, tk.w)
	case fk.signed:
		return m.ts.SExt(t, tk.w)
	}
	return m.ts.ZExt(t, tk.w)
}
