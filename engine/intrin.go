package main

import (
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intKindInt = intKind{64, true}
var intKindByte = intKind{8, false}

// vsymPath is the package whose functions harnesses call.
const vsymPath = "github.com/schemalex/schemalex/internal/vsym"

// initExempt lists package variables that may be read although their package initialiser is not run.
var initExempt = map[string]bool{
	"internal/bytealg.MaxLen":        true,
	"internal/bytealg.MaxBruteForce": true,
	"internal/cpu.X86":               true,
}

var intrinsics map[string]intrinsic

func nop(m *M, fr *frame, args []V) V { return V{} }

func lockOp(f func(m *M, p *V)) intrinsic {
	return func(m *M, fr *frame, args []V) V {
		p, ok := args[0].x.(*V)
		if !ok {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		f(m, p)
		return V{}
	}
}

func (m *M) lowerUpper(s V, lo, hi byte) V {
	b := m.strTerms(s)
	out := make([]*Term, len(b))
	for i, t := range b {
		// letters are exactly one bit (0x20) apart
		in := m.ts.And(m.ts.Not(m.ts.Ult(t, m.ts.bytes[lo])), m.ts.Not(m.ts.Ult(m.ts.bytes[hi], t)))
		out[i] = m.ts.Ite(in, m.ts.Xor(t, m.ts.bytes[0x20]), t)
	}
	return mkStr(out)
}

// caseFold implements strings.ToUpper/ToLower; non-ASCII content is left to the library code.
func caseFold(upper bool) intrinsic {
	name := "ToLower"
	if upper {
		name = "ToUpper"
	}
	return func(m *M, fr *frame, args []V) V {
		if s, ok := concreteStr(args[0]); ok {
			if upper {
				return strV(strings.ToUpper(s))
			}
			return strV(strings.ToLower(s))
		}
		ascii := m.ts.tt[1]
		for _, t := range m.strTerms(args[0]) {
			ascii = m.ts.And(ascii, m.ts.Ult(t, m.ts.bytes[0x80]))
		}
		if m.decide(ascii) {
			if upper {
				return m.lowerUpper(args[0], 'a', 'z')
			}
			return m.lowerUpper(args[0], 'A', 'Z')
		}
		p := m.prog.ImportedPackage("strings")
		f := p.Func(name)
		c := m.rawFns[f]
		if c == nil {
			c = &cfn{fn: f, name: "strings." + name}
			m.rawFns[f] = c
		}
		return m.callArgs(fr, c, nil, args)
	}
}

func (m *M) indexByte(b []*Term, c *Term) V {
	for i, t := range b {
		if m.decide(m.ts.Eq(t, c)) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (m *M) sliceTerms(v V) []*Term {
	s, _ := v.x.([]V)
	out := make([]*Term, len(s))
	for i := range s {
		out[i] = m.term(s[i], intKindByte)
	}
	return out
}

func (m *M) indexSub(s, sub []*Term) V {
	for i := 0; i+len(sub) <= len(s); i++ {
		eq := m.ts.tt[1]
		for j := range sub {
			eq = m.ts.And(eq, m.ts.Eq(s[i+j], sub[j]))
			if eq.isFalse() {
				break
			}
		}
		if m.decide(eq) {
			return intV(i)
		}
	}
	return intV(-1)
}

func (m *M) countByte(b []*Term, c *Term) V {
	n := m.ts.konst(64, 0)
	for _, t := range b {
		n = m.ts.Bin(oAdd, n, m.ts.ZExt(m.ts.Ite(m.ts.Eq(t, c), m.ts.bytes[1], m.ts.bytes[0]), 64))
	}
	return fromTerm(n, intKindInt)
}

func (m *M) compareBytes(a, b []*Term) V {
	eq, lt := m.ts.boolc(len(a) == len(b)), m.ts.boolc(len(a) < len(b))
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		e := m.ts.Eq(a[i], b[i])
		lt = m.ts.Ite(e, lt, m.ts.Ult(a[i], b[i]))
		eq = m.ts.And(eq, e)
	}
	k := func(i int) *Term { return m.ts.konst(64, uint64(int64(i))) }
	return fromTerm(m.ts.Ite(eq, k(0), m.ts.Ite(lt, k(-1), k(1))), intKindInt)
}

func atomicLoad(m *M, fr *frame, args []V) V {
	m.preempt()
	return copyV(*m.deref(args[0]))
}

func (m *M) deref(v V) *V {
	p, ok := v.x.(*V)
	if !ok {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

func atomicStore(m *M, fr *frame, args []V) V {
	m.preempt()
	m.store(m.deref(args[0]), args[1])
	return V{}
}

func atomicAdd(w uint8, signed bool) intrinsic {
	k := intKind{w, signed}
	return func(m *M, fr *frame, args []V) V {
		m.preempt()
		p := m.deref(args[0])
		v := fromTerm(m.ts.Bin(oAdd, m.term(*p, k), m.term(args[1], k)), k)
		m.store(p, v)
		return v
	}
}

func atomicCAS(t types.Type) intrinsic {
	return func(m *M, fr *frame, args []V) V {
		m.preempt()
		p := m.deref(args[0])
		if m.decide(m.eqV(t, *p, args[1])) {
			m.store(p, args[2])
			return V{n: 1}
		}
		return V{}
	}
}

func atomicSwap(m *M, fr *frame, args []V) V {
	m.preempt()
	p := m.deref(args[0])
	old := copyV(*p)
	m.store(p, args[1])
	return old
}

// field returns the address of the n-th field of the struct p points to.
func field(m *M, v V, n int) V { return V{x: &m.deref(v).x.(*Agg).f[n]} }

func lastField(m *M, v V) V {
	f := m.deref(v).x.(*Agg).f
	return V{x: &f[len(f)-1]}
}

func onLast(f intrinsic) intrinsic {
	return func(m *M, fr *frame, args []V) V {
		a := append([]V{lastField(m, args[0])}, args[1:]...)
		return f(m, fr, a)
	}
}

func bitFn(w uint8, f func(uint64) int) intrinsic {
	return func(m *M, fr *frame, args []V) V {
		n := m.concretize(args[0], intKind{w, false})
		return intV(f(n))
	}
}

func init() {
	intrinsics = map[string]intrinsic{
		// no GODEBUG settings
		"(*internal/godebug.Setting).Value":         func(m *M, fr *frame, args []V) V { return strV("") },
		"(*internal/godebug.Setting).IncNonDefault": func(m *M, fr *frame, args []V) V { return V{} },
		// synchronisation
		"(*sync.Mutex).Lock":        lockOp(func(m *M, p *V) { m.lock(p, true) }),
		"(*sync.Mutex).Unlock":      lockOp(func(m *M, p *V) { m.unlock(p, true) }),
		"(*sync.RWMutex).Lock":      lockOp(func(m *M, p *V) { m.lock(p, true) }),
		"(*sync.RWMutex).Unlock":    lockOp(func(m *M, p *V) { m.unlock(p, true) }),
		"(*sync.RWMutex).RLock":     lockOp(func(m *M, p *V) { m.lock(p, false) }),
		"(*sync.RWMutex).RUnlock":   lockOp(func(m *M, p *V) { m.unlock(p, false) }),
		"(*sync.Mutex).TryLock": func(m *M, fr *frame, args []V) V {
			m.preempt()
			l := m.lockOf(m.deref(args[0]))
			if l.writer || l.readers > 0 {
				return V{}
			}
			l.writer = true
			return V{n: 1}
		},
		"(*sync.WaitGroup).Add": func(m *M, fr *frame, args []V) V {
			p := m.deref(args[0])
			l := m.lockOf(p)
			l.readers += int(int64(args[1].n))
			if l.readers < 0 {
				m.rtPanic("sync: negative WaitGroup counter")
			}
			if l.readers == 0 {
				for _, g := range l.waiting {
					m.ready(g)
				}
				l.waiting = nil
			}
			return V{}
		},
		"(*sync.WaitGroup).Wait": func(m *M, fr *frame, args []V) V {
			m.preempt()
			l := m.lockOf(m.deref(args[0]))
			for l.readers > 0 {
				l.waiting = append(l.waiting, m.cur)
				m.block("WaitGroup.Wait")
			}
			return V{}
		},
		"(*sync.Pool).Get": func(m *M, fr *frame, args []V) V {
			m.preempt()
			l := m.lockOf(m.deref(args[0]))
			if n := len(l.pool); n > 0 { // as it is on a single processor
				v := l.pool[n-1]
				l.pool = l.pool[:n-1]
				return v
			}
			f := m.deref(args[0]).x.(*Agg).f
			n := f[len(f)-1]
			if n.x == nil {
				return V{}
			}
			return m.callV(fr, n)
		},
		"(*sync.Pool).Put": func(m *M, fr *frame, args []V) V {
			m.preempt()
			if args[1].x != nil {
				l := m.lockOf(m.deref(args[0]))
				l.pool = append(l.pool, args[1])
			}
			return V{}
		},
		"(*sync/atomic.Value).Load": func(m *M, fr *frame, args []V) V {
			m.preempt()
			return *m.deref(field(m, args[0], 0))
		},
		"(*sync/atomic.Value).Store": func(m *M, fr *frame, args []V) V {
			m.preempt()
			if args[1].x == nil {
				m.rtPanic("sync/atomic: store of nil value into Value")
			}
			m.store(m.deref(field(m, args[0], 0)), args[1])
			return V{}
		},
		"(*sync/atomic.Value).CompareAndSwap": func(m *M, fr *frame, args []V) V {
			m.preempt()
			p := m.deref(field(m, args[0], 0))
			it := types.NewInterfaceType(nil, nil)
			if m.decide(m.eqV(it, *p, args[1])) {
				m.store(p, args[2])
				return V{n: 1}
			}
			return V{}
		},
		"runtime.Gosched": func(m *M, fr *frame, args []V) V { m.preempt(); return V{} },

		// strings
		"strings.ToUpper": caseFold(true),
		"strings.ToLower": caseFold(false),
		"internal/bytealg.IndexByteString": func(m *M, fr *frame, args []V) V {
			if s, ok := concreteStr(args[0]); ok && args[1].x == nil {
				return intV(strings.IndexByte(s, byte(args[1].n)))
			}
			return m.indexByte(m.strTerms(args[0]), m.term(args[1], intKindByte))
		},
		"internal/bytealg.IndexByte": func(m *M, fr *frame, args []V) V {
			return m.indexByte(m.sliceTerms(args[0]), m.term(args[1], intKindByte))
		},
		"internal/bytealg.IndexString": func(m *M, fr *frame, args []V) V {
			return m.indexSub(m.strTerms(args[0]), m.strTerms(args[1]))
		},
		"internal/bytealg.Index": func(m *M, fr *frame, args []V) V {
			return m.indexSub(m.sliceTerms(args[0]), m.sliceTerms(args[1]))
		},
		"internal/bytealg.CountString": func(m *M, fr *frame, args []V) V {
			return m.countByte(m.strTerms(args[0]), m.term(args[1], intKindByte))
		},
		"internal/bytealg.Count": func(m *M, fr *frame, args []V) V {
			return m.countByte(m.sliceTerms(args[0]), m.term(args[1], intKindByte))
		},
		"internal/bytealg.Compare": func(m *M, fr *frame, args []V) V {
			return m.compareBytes(m.sliceTerms(args[0]), m.sliceTerms(args[1]))
		},
		"internal/bytealg.CompareString": func(m *M, fr *frame, args []V) V {
			return m.compareBytes(m.strTerms(args[0]), m.strTerms(args[1]))
		},
		"internal/bytealg.Equal": func(m *M, fr *frame, args []V) V {
			return fromBool(m.strEq(m.bytesStr(sl(args[0])), m.bytesStr(sl(args[1]))))
		},
		"bytes.Equal": func(m *M, fr *frame, args []V) V {
			return fromBool(m.strEq(m.bytesStr(sl(args[0])), m.bytesStr(sl(args[1]))))
		},
		"internal/bytealg.MakeNoZero": func(m *M, fr *frame, args []V) V {
			n := int(m.concretize(args[0], intKindInt))
			return V{x: make([]V, n)}
		},
		"internal/stringslite.Clone": func(m *M, fr *frame, args []V) V { return args[0] },
		"strings.Clone":              func(m *M, fr *frame, args []V) V { return args[0] },
		"internal/abi.NoEscape":      func(m *M, fr *frame, args []V) V { return args[0] },
		"internal/abi.Escape":        func(m *M, fr *frame, args []V) V { return args[0] },
		"(*strings.Builder).copyCheck": nop,

		// runtime
		"runtime.Callers":         func(m *M, fr *frame, args []V) V { return V{} },
		"runtime.KeepAlive":       nop,
		"runtime.SetFinalizer":    nop,
		"runtime.GC":              nop,
		"runtime.NumGoroutine":    func(m *M, fr *frame, args []V) V { return intV(len(m.gs)) },
		"internal/godebug.New":    func(m *M, fr *frame, args []V) V { return V{x: newSlot(zero(fr.fn.fn.Signature))} },
		"runtime/debug.Stack":     func(m *M, fr *frame, args []V) V { return V{} },
		"github.com/pkg/errors.callers": func(m *M, fr *frame, args []V) V {
			return V{x: newSlot(V{})}
		},
		"internal/race.Acquire":      nop,
		"internal/race.Release":      nop,
		"internal/race.ReleaseMerge": nop,
		"internal/race.Enable":       nop,
		"internal/race.Disable":      nop,
		"internal/race.Read":         nop,
		"internal/race.Write":        nop,
		"internal/race.ReadRange":    nop,
		"internal/race.WriteRange":   nop,

		// sorting
		"sort.Slice":       sortSlice("pdqsort_func"),
		"sort.SliceStable": sortSlice("stable_func"),

		"reflect.DeepEqual": func(m *M, fr *frame, args []V) V {
			return fromBool(m.deepEqual(types.NewInterfaceType(nil, nil), args[0], args[1], 0))
		},

		// bits
		"math/bits.Len":             bitFn(64, bits.Len64),
		"math/bits.Len64":           bitFn(64, bits.Len64),
		"math/bits.Len32":           bitFn(32, bits.Len64),
		"math/bits.TrailingZeros64": bitFn(64, bits.TrailingZeros64),
		"math/bits.TrailingZeros32": bitFn(32, func(x uint64) int { return bits.TrailingZeros32(uint32(x)) }),
		"math/bits.OnesCount64":     bitFn(64, bits.OnesCount64),
		"math/bits.LeadingZeros64":  bitFn(64, bits.LeadingZeros64),

		// formatted printing
		"fmt.Sprintf":  fmtSprintf,
		"fmt.Sprint":   fmtSprint,
		"fmt.Sprintln": fmtSprintln,
		"fmt.Fprintf":  fmtFprintf,
		"fmt.Fprint":   fmtFprint,
		"fmt.Fprintln": fmtFprintln,
		"fmt.Errorf":   fmtErrorf,
		"fmt.Appendf": func(m *M, fr *frame, args []V) V {
			s := m.format(fr, args[1], sl(args[2]))
			return V{x: m.appendV(sl(args[0]), m.strBytes(s), false, types.Typ[types.Uint8])}
		},
		"strconv.Itoa": func(m *M, fr *frame, args []V) V {
			return strV(itoa(int64(m.concretize(args[0], intKindInt))))
		},
	}
	for _, t := range []struct {
		n      string
		w      uint8
		signed bool
		t      types.Type
	}{{"Int32", 32, true, types.Typ[types.Int32]}, {"Int64", 64, true, types.Typ[types.Int64]}, {"Uint32", 32, false, types.Typ[types.Uint32]}, {"Uint64", 64, false, types.Typ[types.Uint64]}, {"Uintptr", 64, false, types.Typ[types.Uintptr]}, {"Bool", 1, false, types.Typ[types.Bool]}, {"Pointer", 0, false, types.Typ[types.UnsafePointer]}} {
		intrinsics["sync/atomic.Load"+t.n] = atomicLoad
		intrinsics["sync/atomic.Store"+t.n] = atomicStore
		intrinsics["sync/atomic.Add"+t.n] = atomicAdd(t.w, t.signed)
		intrinsics["sync/atomic.CompareAndSwap"+t.n] = atomicCAS(t.t)
		intrinsics["sync/atomic.Swap"+t.n] = atomicSwap
		p := "(*sync/atomic." + t.n + ")."
		tt := t.t
		if t.n == "Bool" {
			// stored as uint32 inside atomic.Bool
			intrinsics[p+"Load"] = onLast(func(m *M, fr *frame, args []V) V {
				m.preempt()
				return V{n: m.deref(args[0]).n & 1}
			})
			intrinsics[p+"Store"] = onLast(func(m *M, fr *frame, args []V) V {
				m.preempt()
				m.store(m.deref(args[0]), V{n: b2u(m.decideV(args[1]))})
				return V{}
			})
			continue
		}
		if t.n == "Pointer" {
			p = "(*sync/atomic.Pointer[T])."
		}
		intrinsics[p+"Load"] = onLast(atomicLoad)
		intrinsics[p+"Store"] = onLast(atomicStore)
		intrinsics[p+"Add"] = onLast(atomicAdd(t.w, t.signed))
		intrinsics[p+"CompareAndSwap"] = onLast(atomicCAS(tt))
		intrinsics[p+"Swap"] = onLast(atomicSwap)
	}
	vsymIntrinsics()
}

func itoa(n int64) string {
	var b [24]byte
	i := len(b)
	neg := n < 0
	u := uint64(n)
	if neg {
		u = -u
	}
	for {
		i--
		b[i] = byte('0' + u%10)
		u /= 10
		if u == 0 {
			break
		}
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func sl(v V) []V {
	s, _ := v.x.([]V)
	return s
}

func intrinsicByPrefix(m *M, f *ssa.Function, name string) intrinsic {
	return nil
}

func sortSlice(impl string) intrinsic {
	return func(m *M, fr *frame, args []V) V {
		if args[0].x == nil {
			m.rtPanic("sort.Slice of nil")
		}
		s := sl(args[0].x.(*Iface).v)
		swap := V{x: &Closure{nat: func(m *M, a []V) V {
			i, j := int(int64(a[0].n)), int(int64(a[1].n))
			t := copyV(s[i])
			m.store(&s[i], copyV(s[j]))
			m.store(&s[j], t)
			return V{}
		}}}
		f := m.stdFunc("sort", impl)
		ls := V{x: &Agg{[]V{args[1], swap}}}
		if impl == "stable_func" {
			return m.callArgs(fr, f, nil, []V{ls, intV(len(s))})
		}
		return m.callArgs(fr, f, nil, []V{ls, {}, intV(len(s)), intV(bits.Len(uint(len(s))))})
	}
}

// deepEqual builds the conjunction of field equalities; pointers are followed.
func (m *M) deepEqual(t types.Type, a, b V, depth int) *Term {
	if depth > 60 {
		m.unsup("reflect.DeepEqual on a deep structure")
	}
	no, yes := m.ts.tt[0], m.ts.tt[1]
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return m.ts.boolc(a.x == nil && b.x == nil)
		}
		ia, ib := a.x.(*Iface), b.x.(*Iface)
		if ia.rt != ib.rt {
			return no
		}
		return m.deepEqual(ia.rt.t, ia.v, ib.v, depth+1)
	case *types.Pointer:
		if a.x == b.x {
			return yes
		}
		if a.x == nil || b.x == nil {
			return no
		}
		return m.deepEqual(u.Elem(), *m.deref(a), *m.deref(b), depth+1)
	case *types.Slice:
		if (a.x == nil) != (b.x == nil) {
			return no
		}
		sa, sb := sl(a), sl(b)
		if len(sa) != len(sb) {
			return no
		}
		r := yes
		for i := range sa {
			r = m.ts.And(r, m.deepEqual(u.Elem(), sa[i], sb[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Struct:
		r := yes
		for i := 0; i < u.NumFields(); i++ {
			r = m.ts.And(r, m.deepEqual(u.Field(i).Type(), a.x.(*Agg).f[i], b.x.(*Agg).f[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		r := yes
		for i := 0; i < int(u.Len()); i++ {
			r = m.ts.And(r, m.deepEqual(u.Elem(), a.x.(*Agg).f[i], b.x.(*Agg).f[i], depth+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Map:
		if (a.x == nil) != (b.x == nil) {
			return no
		}
		if a.x == nil {
			return yes
		}
		ma, mb := a.x.(*Map), b.x.(*Map)
		if ma.n != mb.n {
			return no
		}
		r := yes
		for i := range ma.ents {
			if !ma.ents[i].live {
				continue
			}
			j := m.mapFind(mb, ma.ents[i].k)
			if j < 0 {
				return no
			}
			r = m.ts.And(r, m.deepEqual(u.Elem(), ma.ents[i].v, mb.ents[j].v, depth+1))
		}
		return r
	case *types.Signature:
		return m.ts.boolc(a.x == nil && b.x == nil)
	}
	return m.eqV(t, a, b)
}

// ---------------------------------------------------------------- harness interface

func vsymIntrinsics() {
	add := func(name string, f intrinsic) { intrinsics[vsymPath+"."+name] = f }
	add("Byte", func(m *M, fr *frame, args []V) V {
		return V{x: m.p.newVar(m.evalName(args[0]), 0)}
	})
	add("Choose", func(m *M, fr *frame, args []V) V {
		n := int(int64(args[1].n))
		if n <= 1 {
			return V{}
		}
		if n > 256 {
			m.unsup("Choose over more than 256 values")
		}
		return V{x: m.ts.ZExt(m.p.newVar(m.evalName(args[0]), n), 64)}
	})
	add("Bool", func(m *M, fr *frame, args []V) V {
		t := m.p.newVar(m.evalName(args[0]), 2)
		return fromBool(m.ts.Eq(t, m.ts.bytes[1]))
	})
	add("Pick", func(m *M, fr *frame, args []V) V { // Choose with immediate forking
		n := int(int64(args[1].n))
		if n <= 1 {
			return V{}
		}
		t := m.p.newVar(m.evalName(args[0]), n)
		for i := 0; i < n-1; i++ {
			if m.decide(m.ts.Eq(t, m.ts.bytes[i])) {
				return intV(i)
			}
		}
		return intV(n - 1)
	})
	add("Assume", func(m *M, fr *frame, args []V) V {
		m.p.assume(m.boolTerm(args[0]))
		return V{}
	})
	add("Assert", func(m *M, fr *frame, args []V) V {
		n := len(m.p.fails)
		msg := m.evalStr(args[1], m.p.model)
		defer func() {
			for i := n; i < len(m.p.fails); i++ {
				if m.p.fails[i].msg == msg {
					m.p.fails[i].msg = m.evalStr(args[1], m.p.fails[i].model)
				}
			}
		}()
		m.p.assert(m.boolTerm(args[0]), msg)
		return V{}
	})
	add("Reach", func(m *M, fr *frame, args []V) V {
		m.reach[m.evalStr(args[0], m.p.model)] = true
		return V{}
	})
	add("Observe", func(m *M, fr *frame, args []V) V {
		m.obs = append(m.obs, obsRec{m.evalStr(args[0], m.p.model), args[1]})
		return V{}
	})
	add("Thorough", func(m *M, fr *frame, args []V) V { return boolV(m.hp.tier > 0) })
	add("MapOrder", func(m *M, fr *frame, args []V) V { m.mapOrd = args[0].n != 0; return V{} })
	add("Sched", func(m *M, fr *frame, args []V) V { m.sched = int(int64(args[0].n)); return V{} })
	add("Opaque", func(m *M, fr *frame, args []V) V { m.opaque = args[0].n != 0; return V{} })
	add("Quiesce", func(m *M, fr *frame, args []V) V { return intV(m.quiesce()) })
	add("Symbolic", func(m *M, fr *frame, args []V) V { return V{n: 1} })
	add("Param", func(m *M, fr *frame, args []V) V { return intV(m.hp.param) })
	// Ite and friends build terms without forking.
	add("And", func(m *M, fr *frame, args []V) V {
		return fromBool(m.ts.And(m.boolTerm(args[0]), m.boolTerm(args[1])))
	})
	add("Or", func(m *M, fr *frame, args []V) V {
		return fromBool(m.ts.Or(m.boolTerm(args[0]), m.boolTerm(args[1])))
	})
	add("StrEq", func(m *M, fr *frame, args []V) V { return fromBool(m.strEq(args[0], args[1])) })
	add("IteByte", func(m *M, fr *frame, args []V) V {
		return fromTerm(m.ts.Ite(m.boolTerm(args[0]), m.term(args[1], intKindByte), m.term(args[2], intKindByte)), intKindByte)
	})
}

func (m *M) evalName(v V) string {
	s, ok := concreteStr(v)
	if !ok {
		return "?"
	}
	return s
}
