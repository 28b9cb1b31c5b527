package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// M is one interpreter instance (one per worker).
type M struct {
	prog    *ssa.Program
	ts      *Terms
	p       *Path
	sol     *Solver
	st      Stats
	fns     map[*ssa.Function]*cfn
	globals map[*ssa.Global]*V
	rts     typeutil.Map
	nrt     int
	undo    []undoRec
	runID   int64
	inited  map[*ssa.Package]bool
	stores  map[*ssa.Package]map[*ssa.Global]bool
	cur     *G
	gs      []*G
	runq    []*G
	steps   int64
	limit   int64
	locks   map[*V]*lockState
	reach   map[string]bool
	obs     []obsRec
	hp      *hparams
	covered map[*ssa.Function]bool
	mapOrd  bool
	sched   int // remaining preemptions in schedule exploration; <0 off
	opaque  bool
	spins   map[string]int
	frozenE map[string]V
	leakOK  bool
	tracing bool
	known   map[string]bool
	memFork int
	freeG   []*G
	pinned  bool
	fatal   bool
	badInit map[*ssa.Package]string
	rawFns  map[*ssa.Function]*cfn
	hexCache map[*Term][2]*Term
}

type obsRec struct {
	name string
	v    V
}

type hparams struct {
	tier  int
	param int
}

type cfn struct {
	fn       *ssa.Function
	name     string
	nregs    int
	nparams  int
	blocks   []*cblock
	intr     intrinsic
	hasDefer bool
	compiled bool
	noOrder  bool
}

type intrinsic func(m *M, fr *frame, args []V) V

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
)

type opnd struct {
	r int32
	c V
}

type phiMove struct {
	dst int32
	src opnd
}

type edge struct {
	to    int32
	moves []phiMove
}

type op func(fr *frame)

type cblock struct {
	ops     []op
	pure    bool
	term    termKind
	cond    opnd
	succ    [2]edge
	ret     []opnd
	loop    bool
	region  *region
	phiKind map[int32]types.Type // types of phi destinations
}

type frame struct {
	m       *M
	g       *G
	fn      *cfn
	regs    []V
	env     []V
	caller  *frame
	defers  []deferred
	panicV  *targetPanic
	paniced bool
	result  V
	depth   int
}

type deferred struct {
	fn   *cfn
	env  []V
	nat  func(m *M, args []V) V
	args []V
}

func newM(prog *ssa.Program) *M {
	m := &M{prog: prog, ts: newTerms(), fns: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{}, stores: map[*ssa.Package]map[*ssa.Global]bool{}, covered: map[*ssa.Function]bool{}, reach: map[string]bool{}, limit: 1 << 62, sched: -1, frozenE: map[string]V{}, rawFns: map[*ssa.Function]*cfn{}, hexCache: map[*Term][2]*Term{}, locks: map[*V]*lockState{}, hp: &hparams{}, badInit: map[*ssa.Package]string{}}
	m.sol = newSolver()
	return m
}

func (m *M) rt(t types.Type) *rtype {
	if r := m.rts.At(t); r != nil {
		return r.(*rtype)
	}
	m.nrt++
	r := &rtype{t: t, id: m.nrt, isAgg: isAggType(t), methods: map[string]*cfn{}, impl: map[*rtype]bool{}, name: t.String()}
	m.rts.Set(t, r)
	return r
}

func (m *M) unsup(format string, args ...any) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

func (m *M) rtPanic(msg string) {
	panic(&targetPanic{v: m.errorIface(msg)})
}

// errorIface makes a runtime-error-like interface value carrying a message.
func (m *M) errorIface(msg string) V {
	return V{x: &Iface{rt: m.rt(types.Typ[types.String]), v: strV(msg)}}
}

func (m *M) decide(t *Term) bool {
	if t.op == oConst {
		return t.k != 0
	}
	if m.p == nil {
		m.unsup("symbolic branch outside a path")
	}
	return m.p.branch(t)
}

func (m *M) decideV(v V) bool {
	if v.x == nil {
		return v.n != 0
	}
	return m.decide(v.x.(*Term))
}

// concretize forks over the feasible values of a symbolic integer.
func (m *M) concretize(v V, k intKind) uint64 {
	if v.x == nil {
		return v.n
	}
	t := v.x.(*Term)
	if c, ok := m.p.constUnder(t); ok {
		return norm(c, k)
	}
	for i := 0; i < 300; i++ {
		c := m.p.pickValue(t)
		if m.decide(m.ts.Eq(t, m.ts.konst(t.w, c))) {
			return norm(c, k)
		}
		if c, ok := m.p.constUnder(t); ok {
			return norm(c, k)
		}
	}
	m.unsup("integer with too many values used as an address or size")
	return 0
}

// pickValue gives some value of t consistent with the path; it must not depend on the model
// while a recorded prefix is being replayed, so it prefers domain order.
func (p *Path) pickValue(t *Term) uint64 {
	if t.v >= 0 && !p.inMult[t.v] {
		tab := t.table()
		d := &p.doms[t.v]
		for i := 0; i < 256; i++ {
			if d.has(byte(i)) {
				return tab[i]
			}
		}
	}
	return p.recorded(func() uint64 { return p.ts.eval(t, p.model) })
}

// recorded makes a model-dependent value part of the decision log, so that replays agree.
func (p *Path) recorded(f func() uint64) uint64 {
	var v uint64
	if p.pos < len(p.prefix) {
		for i := 0; i < 8; i++ {
			v |= uint64(p.prefix[p.pos+i]) << (8 * i)
		}
	} else {
		v = f()
	}
	for i := 0; i < 8; i++ {
		p.log = append(p.log, byte(v>>(8*i)))
	}
	p.pos = len(p.log)
	return v
}

func (m *M) global(g *ssa.Global) *V {
	if p, ok := m.globals[g]; ok {
		return p
	}
	v := zero(g.Type().(*types.Pointer).Elem())
	p := &v
	m.globals[g] = p
	return p
}

// initialises reports whether the package initialiser assigns this global.
func (m *M) initialises(g *ssa.Global) bool {
	pkg := g.Pkg
	s, ok := m.stores[pkg]
	if !ok {
		s = map[*ssa.Global]bool{}
		m.stores[pkg] = s
		pkg.Build()
		for _, mem := range pkg.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(f.Name(), "init") {
				continue
			}
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, o := range i.Operands(nil) {
						if gg, ok := (*o).(*ssa.Global); ok {
							s[gg] = true
						}
					}
				}
			}
		}
	}
	return s[g]
}

func (m *M) lookupMethod(rt *rtype, meth *types.Func) *cfn {
	key := meth.Id()
	if f, ok := rt.methods[key]; ok {
		return f
	}
	sel := m.prog.MethodSets.MethodSet(rt.t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		m.unsup("method %s not found on %s", meth.Name(), rt.t)
	}
	f := m.prog.MethodValue(sel)
	if f == nil {
		m.unsup("no code for method %s of %s", meth.Name(), rt.t)
	}
	c := m.fn(f)
	rt.methods[key] = c
	return c
}

func (m *M) methodByName(rt *rtype, name string) *cfn {
	ms := m.prog.MethodSets.MethodSet(rt.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := m.prog.MethodValue(ms.At(i))
			if f == nil {
				return nil
			}
			return m.fn(f)
		}
	}
	return nil
}

func (m *M) implements(rt *rtype, it *types.Interface, irt *rtype) bool {
	if b, ok := rt.impl[irt]; ok {
		return b
	}
	b := types.Implements(rt.t, it)
	rt.impl[irt] = b
	return b
}

// fn returns the (lazily compiled) code of a function.
func (m *M) fn(f *ssa.Function) *cfn {
	if c, ok := m.fns[f]; ok {
		return c
	}
	c := &cfn{fn: f, name: fnName(f), nparams: len(f.Params)}
	m.fns[f] = c
	if f.Synthetic == "package initializer" {
		c.intr = nop // run explicitly, in dependency order
		return c
	}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
	} else if s := f.String(); intrinsics[s] != nil {
		c.intr = intrinsics[s]
	} else if i := intrinsicByPrefix(m, f, c.name); i != nil {
		c.intr = i
	}
	c.noOrder = orderFree(c.name)
	return c
}

func orderFree(name string) bool {
	if strings.HasPrefix(name, "(*github.com/deckarep/golang-set.") || strings.HasPrefix(name, "(github.com/deckarep/golang-set.") {
		for _, s := range []string{"ToSlice", "Iter", "Iterator", "Each", "String", "Pop", "MarshalJSON", "PowerSet"} {
			if strings.Contains(name, ")."+s) {
				return false
			}
		}
		return true
	}
	return false
}

// ---------------------------------------------------------------- execution

func (g *G) alloc(n int) []V {
	if g.sp+n > len(g.slab) {
		g.slabs = append(g.slabs, slabRec{g.slab, g.sp})
		sz := 1 << 13
		if n > sz {
			sz = n
		}
		g.slab = make([]V, sz)
		g.sp = 0
	}
	r := g.slab[g.sp : g.sp+n : g.sp+n]
	g.sp += n
	return r
}

type slabRec struct {
	s  []V
	sp int
}

type mark struct{ nslabs, sp int }

func (g *G) mark() mark { return mark{len(g.slabs), g.sp} }
func (g *G) release(k mark) {
	if len(g.slabs) > k.nslabs {
		g.slab = g.slabs[k.nslabs].s
		g.slabs = g.slabs[:k.nslabs]
	}
	g.sp = k.sp
}

// callArgs invokes a function with already evaluated arguments.
func (m *M) callArgs(caller *frame, f *cfn, env []V, args []V) V {
	if f.intr != nil {
		return f.intr(m, caller, args)
	}
	if !f.compiled {
		m.compile(f)
	}
	var g *G
	depth := 0
	if caller != nil {
		g = caller.g
		depth = caller.depth + 1
	} else {
		g = m.cur
	}
	if depth > 3000 {
		panic(pathEnd{"hang: recursion deeper than 3000 calls in " + f.name})
	}
	mk := g.mark()
	regs := g.alloc(f.nregs)
	clear(regs[len(args):])
	copy(regs, args)
	fr := g.frame(depth)
	*fr = frame{m: m, g: g, fn: f, regs: regs, env: env, caller: caller, depth: depth}
	if f.hasDefer {
		// deferred closures may look at this frame after deeper frames were reused
		fr = &frame{m: m, g: g, fn: f, regs: regs, env: env, caller: caller, depth: depth}
		m.runWithDefers(fr)
	} else {
		m.run(fr)
	}
	r := fr.result
	g.release(mk)
	return r
}

func (g *G) frame(depth int) *frame {
	for len(g.frames) <= depth {
		g.frames = append(g.frames, &frame{})
	}
	return g.frames[depth]
}

func (m *M) runWithDefers(fr *frame) {
	func() {
		defer func() {
			if fr.paniced {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			fr.panicV = tp
			fr.paniced = true
		}()
		m.run(fr)
	}()
	if fr.paniced {
		m.runDefers(fr)
		if fr.panicV != nil {
			panic(fr.panicV)
		}
		// recovered
		if rb := fr.fn.fn.Recover; rb != nil {
			fr.paniced = false
			m.runFrom(fr, int(rb.Index))
		} else {
			res := fr.fn.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = V{}
			case 1:
				fr.result = zero(res.At(0).Type())
			default:
				fr.result = zero(res)
			}
		}
	}
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				fr.panicV = tp
				fr.paniced = true
			}()
			if d.nat != nil {
				d.nat(m, d.args)
				return
			}
			m.callArgs(fr, d.fn, d.env, d.args)
		}()
	}
}

func (m *M) run(fr *frame) { m.runFrom(fr, 0) }

func (m *M) runFrom(fr *frame, start int) {
	f := fr.fn
	b := f.blocks[start]
	for {
		m.steps += int64(len(b.ops)) + 1
		if m.steps > m.limit {
			panic(pathEnd{"hang: step limit in " + f.name})
		}
		for _, o := range b.ops {
			o(fr)
		}
		switch b.term {
		case tJump:
			b = fr.take(&b.succ[0])
		case tIf:
			c := fr.get(&b.cond)
			if c.x == nil {
				if c.n != 0 {
					b = fr.take(&b.succ[0])
				} else {
					b = fr.take(&b.succ[1])
				}
				continue
			}
			t := c.x.(*Term)
			if v, ok := m.p.quick(t); ok {
				if v {
					b = fr.take(&b.succ[0])
				} else {
					b = fr.take(&b.succ[1])
				}
				continue
			}
			if b.region != nil {
				nb, done := m.runRegion(fr, b, t)
				if done {
					return
				}
				b = nb
				continue
			}
			if m.decide(t) {
				b = fr.take(&b.succ[0])
			} else {
				b = fr.take(&b.succ[1])
			}
		case tReturn:
			switch len(b.ret) {
			case 0:
				fr.result = V{}
			case 1:
				fr.result = fr.get(&b.ret[0])
			default:
				t := make(Tuple, len(b.ret))
				for i := range b.ret {
					t[i] = fr.get(&b.ret[i])
				}
				fr.result = V{x: t}
			}
			return
		case tPanic:
			v := fr.get(&b.cond)
			panic(&targetPanic{v: v, where: f.name})
		}
	}
}

func (fr *frame) get(o *opnd) V {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

func (fr *frame) take(e *edge) *cblock {
	switch len(e.moves) {
	case 0:
	case 1:
		fr.regs[e.moves[0].dst] = fr.get(&e.moves[0].src)
	default:
		var buf [8]V
		tmp := buf[:0]
		for i := range e.moves {
			tmp = append(tmp, fr.get(&e.moves[i].src))
		}
		for i := range e.moves {
			fr.regs[e.moves[i].dst] = tmp[i]
		}
	}
	return fr.fn.blocks[e.to]
}

// ---------------------------------------------------------------- merging of side-effect-free regions

type region struct {
	order []int32 // blocks of the region in reverse postorder
	in    map[int32]bool
}

type inEdge struct {
	e *edge
	g *Term
}

// mergeable computes the ITE of values under guards; ok is false if they are not scalars.
func (m *M) mergeVals(t types.Type, vals []V, gs []*Term) (V, bool) {
	same := true
	for i := 1; i < len(vals); i++ {
		if vals[i] != vals[0] {
			same = false
			break
		}
	}
	if same {
		return vals[0], true
	}
	k, ok := kindOf(t)
	if !ok {
		return V{}, false
	}
	acc := m.term(vals[len(vals)-1], k)
	for i := len(vals) - 2; i >= 0; i-- {
		acc = m.ts.Ite(gs[i], m.term(vals[i], k), acc)
	}
	return fromTerm(acc, k), true
}

func hashable(v V) bool {
	switch v.x.(type) {
	case []V, Tuple, sdata, strdata:
		return false
	}
	return true
}

func (m *M) runRegion(fr *frame, b *cblock, cond *Term) (*cblock, bool) {
	f := fr.fn
	r := b.region
	type exit struct {
		block int32
		in    []inEdge
		guard *Term
	}
	incoming := map[int32][]inEdge{}
	var exits []*exit
	addEdge := func(e *edge, g *Term) {
		if g.isFalse() {
			return
		}
		if v, ok := m.p.quick(g); ok && !v {
			return
		}
		if r.in[e.to] {
			incoming[e.to] = append(incoming[e.to], inEdge{e, g})
			return
		}
		for _, x := range exits {
			if x.block == e.to {
				x.in = append(x.in, inEdge{e, g})
				x.guard = m.ts.Or(x.guard, g)
				return
			}
		}
		exits = append(exits, &exit{e.to, []inEdge{{e, g}}, g})
	}
	addEdge(&b.succ[0], cond)
	addEdge(&b.succ[1], m.ts.Not(cond))
	type retx struct {
		g    *Term
		vals []V
	}
	var rets []retx
	for _, bi := range r.order {
		ins := incoming[bi]
		if len(ins) == 0 {
			continue
		}
		blk := f.blocks[bi]
		// phis
		guard := ins[0].g
		for _, in := range ins[1:] {
			guard = m.ts.Or(guard, in.g)
		}
		if len(ins) == 1 {
			fr.take(ins[0].e)
		} else if n := len(ins[0].e.moves); n > 0 {
			out := make([]V, n)
			for j := 0; j < n; j++ {
				vals := make([]V, len(ins))
				gs := make([]*Term, len(ins))
				for i, in := range ins {
					vals[i] = fr.get(&in.e.moves[j].src)
					gs[i] = in.g
					if !hashable(vals[i]) {
						return m.forkRegion(fr, b, cond)
					}
				}
				v, ok := m.mergeVals(blk.phiKind[ins[0].e.moves[j].dst], vals, gs)
				if !ok {
					return m.forkRegion(fr, b, cond)
				}
				out[j] = v
			}
			for j := 0; j < n; j++ {
				fr.regs[ins[0].e.moves[j].dst] = out[j]
			}
		}
		m.steps += int64(len(blk.ops)) + 1
		for _, o := range blk.ops {
			o(fr)
		}
		switch blk.term {
		case tJump:
			addEdge(&blk.succ[0], guard)
		case tIf:
			c := m.boolTerm(fr.get(&blk.cond))
			addEdge(&blk.succ[0], m.ts.And(guard, c))
			addEdge(&blk.succ[1], m.ts.And(guard, m.ts.Not(c)))
		case tReturn:
			vals := make([]V, len(blk.ret))
			for i := range blk.ret {
				vals[i] = fr.get(&blk.ret[i])
				if !hashable(vals[i]) {
					return m.forkRegion(fr, b, cond)
				}
			}
			rets = append(rets, retx{guard, vals})
		}
	}
	m.st.regionMerges++
	// merge returns
	var mergedRet []V
	var retGuard *Term
	if len(rets) > 0 {
		n := len(rets[0].vals)
		gs := make([]*Term, len(rets))
		retGuard = m.ts.tt[0]
		for i, x := range rets {
			gs[i] = x.g
			retGuard = m.ts.Or(retGuard, x.g)
		}
		res := f.fn.Signature.Results()
		for j := 0; j < n; j++ {
			vals := make([]V, len(rets))
			for i, x := range rets {
				vals[i] = x.vals[j]
			}
			v, ok := m.mergeVals(res.At(j).Type(), vals, gs)
			if !ok {
				return m.forkRegion(fr, b, cond)
			}
			mergedRet = append(mergedRet, v)
		}
	}
	finishRet := func() {
		switch len(mergedRet) {
		case 0:
			fr.result = V{}
		case 1:
			fr.result = mergedRet[0]
		default:
			fr.result = V{x: Tuple(mergedRet)}
		}
	}
	total := len(exits)
	if retGuard != nil {
		total++
	}
	for i, x := range exits {
		last := i == total-1
		if last || m.decide(x.guard) {
			// merge the phis of the exit block
			if len(x.in) == 1 {
				return fr.take(x.in[0].e), false
			}
			n := len(x.in[0].e.moves)
			if n == 0 {
				return f.blocks[x.block], false
			}
			out := make([]V, n)
			pk := f.blocks[x.block].phiKind
			for j := 0; j < n; j++ {
				vals := make([]V, len(x.in))
				gs := make([]*Term, len(x.in))
				ok := true
				for i, in := range x.in {
					vals[i] = fr.get(&in.e.moves[j].src)
					gs[i] = in.g
					ok = ok && hashable(vals[i])
				}
				var v V
				if ok {
					v, ok = m.mergeVals(pk[x.in[0].e.moves[j].dst], vals, gs)
				}
				if !ok {
					// not mergeable: fork over the incoming edges
					for k, in := range x.in {
						if k == len(x.in)-1 || m.decide(in.g) {
							return fr.take(in.e), false
						}
					}
				}
				out[j] = v
			}
			for j := 0; j < n; j++ {
				fr.regs[x.in[0].e.moves[j].dst] = out[j]
			}
			return f.blocks[x.block], false
		}
	}
	finishRet()
	return nil, true
}

func (m *M) forkRegion(fr *frame, b *cblock, cond *Term) (*cblock, bool) {
	if m.decide(cond) {
		return fr.take(&b.succ[0]), false
	}
	return fr.take(&b.succ[1]), false
}

var _ = fmt.Sprint
