package main

import (
	"go/types"
	"iter"

	"golang.org/x/tools/go/ssa"
)

type gstate uint8

const (
	gRunnable gstate = iota
	gBlocked
	gDone
)

// G is a goroutine of the program under analysis, run as a coroutine.
type G struct {
	slab   []V
	sp     int
	slabs  []slabRec
	frames []*frame

	id    int
	main  bool
	state gstate
	why   string
	next  func() (struct{}, bool)
	stop  func()
	yield func(struct{}) bool
	crash *targetPanic
}

type killed struct{}

type waitGrp struct {
	g     *G
	fired bool
	idx   int
	v     V
	ok    bool
}

type waiter struct {
	grp *waitGrp
	idx int
	v   V
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []V
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	born   int64
}

type lockState struct {
	writer  bool
	readers int
	waiting []*G
	pool    []V // of a sync.Pool
}

func (m *M) newG(main bool) *G {
	var g *G
	if n := len(m.freeG); n > 0 {
		g = m.freeG[n-1]
		m.freeG = m.freeG[:n-1]
		g.release(mark{})
		*g = G{slab: g.slab, frames: g.frames}
	} else {
		g = &G{}
	}
	g.id = len(m.gs)
	g.main = main
	m.gs = append(m.gs, g)
	return g
}

func (m *M) spawn(f *cfn, env []V, nat func(m *M, args []V) V, args []V) {
	if m.p == nil {
		m.unsup("goroutine started during package initialisation")
	}
	g := m.newG(false)
	if len(m.gs) > 200 {
		m.unsup("more than 200 goroutines")
	}
	args = append([]V(nil), args...)
	seq := iter.Seq[struct{}](func(yield func(struct{}) bool) {
		g.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killed); ok {
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					g.crash = tp
					return
				}
				panic(r)
			}
		}()
		if nat != nil {
			nat(m, args)
			return
		}
		m.callArgs(nil, f, env, args)
	})
	g.next, g.stop = iter.Pull(seq)
	g.why = "start"
	m.runq = append(m.runq, g)
	m.preempt()
}

// killAll ends suspended goroutines of the finished path.
func (m *M) killAll() {
	for _, g := range m.gs {
		if g.main {
			continue
		}
		if g.stop != nil {
			func() {
				defer func() { recover() }()
				g.stop()
			}()
		}
		g.next, g.stop, g.yield = nil, nil, nil
		m.freeG = append(m.freeG, g)
	}
	for i, g := range m.gs {
		if g.main {
			m.freeG = append(m.freeG, g)
		}
		m.gs[i] = nil
	}
	m.gs = m.gs[:0]
	m.runq = m.runq[:0]
	m.cur = nil
}

// preempt is called before every visible operation; in schedule exploration it may switch.
func (m *M) preempt() {
	if m.sched <= 0 || len(m.runq) == 0 {
		return
	}
	k := m.choose("!sched", len(m.runq)+1)
	if k == 0 {
		return
	}
	m.sched--
	g := m.cur
	t := m.runq[k-1]
	m.runq = append(m.runq[:k-1:k-1], m.runq[k:]...)
	m.runq = append([]*G{t}, m.runq...)
	m.pinned = true
	g.state = gRunnable
	m.runq = append(m.runq, g)
	m.switchOut(g)
}

func (m *M) block(why string) {
	g := m.cur
	g.state = gBlocked
	g.why = why
	m.switchOut(g)
}

func (m *M) ready(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		m.runq = append(m.runq, g)
	}
}

func (m *M) switchOut(g *G) {
	if g.main {
		m.drive(g)
		return
	}
	if !g.yield(struct{}{}) {
		panic(killed{})
	}
}

// drive runs other goroutines until g is chosen (or, for g == nil, until none is runnable).
func (m *M) drive(g *G) {
	for {
		if len(m.runq) == 0 {
			if g == nil {
				return
			}
			panic(pathEnd{"deadlock: all goroutines are asleep (" + g.why + ")"})
		}
		i := 0
		if m.pinned {
			m.pinned = false
		} else if m.sched >= 0 && len(m.runq) > 1 {
			i = m.choose("!next", len(m.runq))
		}
		t := m.runq[i]
		m.runq = append(m.runq[:i:i], m.runq[i+1:]...)
		m.cur = t
		if t == g {
			return
		}
		_, alive := t.next()
		if !alive {
			t.state = gDone
			if t.crash != nil {
				tp := t.crash
				t.crash = nil
				m.cur = m.gs[0]
				m.fatal = true
				panic(tp)
			}
		}
	}
}

// quiesce lets everything else run as far as it can and counts the goroutines left.
func (m *M) quiesce() int {
	save := m.cur
	m.drive(nil)
	m.cur = save
	n := 0
	for _, g := range m.gs {
		if g != save && g.state == gBlocked {
			n++
		}
	}
	return n
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.grp.fired {
			return w
		}
	}
	return nil
}

func (m *M) fire(w *waiter, v V, ok bool) {
	w.grp.fired = true
	w.grp.idx = w.idx
	w.grp.v = v
	w.grp.ok = ok
	m.ready(w.grp.g)
}

func pending(q []*waiter) bool {
	for _, w := range q {
		if !w.grp.fired {
			return true
		}
	}
	return false
}

func (ch *Chan) canSend() bool {
	return ch.closed || len(ch.buf) < ch.cap || pending(ch.recvq)
}

func (ch *Chan) canRecv() bool {
	return ch.closed || len(ch.buf) > 0 || pending(ch.sendq)
}

func (m *M) doSend(ch *Chan, v V) {
	if ch.closed {
		m.rtPanic("send on closed channel")
	}
	if w := popWaiter(&ch.recvq); w != nil {
		m.fire(w, copyV(v), true)
		return
	}
	ch.buf = append(ch.buf, copyV(v))
}

func (m *M) doRecv(ch *Chan) (V, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if w := popWaiter(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.v)
			m.fire(w, V{}, true)
		}
		return v, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		v := w.v
		m.fire(w, V{}, true)
		return v, true
	}
	return zero(ch.elem), false
}

func (m *M) send(ch *Chan, v V) {
	m.preempt()
	if ch == nil {
		m.block("send on nil channel")
		return
	}
	if ch.canSend() {
		m.doSend(ch, v)
		return
	}
	grp := &waitGrp{g: m.cur}
	ch.sendq = append(ch.sendq, &waiter{grp: grp, v: copyV(v)})
	m.block("chan send")
	if !grp.ok {
		m.rtPanic("send on closed channel")
	}
}

func (m *M) recv(ch *Chan, et types.Type) (V, bool) {
	if m.sched > 0 {
		m.preempt()
	}
	if ch == nil {
		m.block("receive from nil channel")
		return V{}, false
	}
	if ch.canRecv() {
		return m.doRecv(ch)
	}
	grp := &waitGrp{g: m.cur}
	ch.recvq = append(ch.recvq, &waiter{grp: grp})
	m.block("chan receive")
	return grp.v, grp.ok
}

func (m *M) closeChan(ch *Chan) {
	m.preempt()
	if ch == nil {
		m.rtPanic("close of nil channel")
	}
	if ch.closed {
		m.rtPanic("close of closed channel")
	}
	ch.closed = true
	for w := popWaiter(&ch.recvq); w != nil; w = popWaiter(&ch.recvq) {
		m.fire(w, zero(ch.elem), false)
	}
	for w := popWaiter(&ch.sendq); w != nil; w = popWaiter(&ch.sendq) {
		m.fire(w, V{}, false)
	}
}

func (c *compiler) sel(i *ssa.Select) op {
	dst := c.regs[i]
	type scase struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var cases []scase
	nrecv := 0
	for _, s := range i.States {
		sc := scase{ch: c.opnd(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if sc.send {
			sc.v = c.opnd(s.Send)
		} else {
			nrecv++
		}
		cases = append(cases, sc)
	}
	blocking := i.Blocking
	return func(fr *frame) {
		m := fr.m
		m.preempt()
		chans := make([]*Chan, len(cases))
		var rdy []int
		for j := range cases {
			chans[j], _ = fr.get(&cases[j].ch).x.(*Chan)
			if chans[j] == nil {
				continue
			}
			if cases[j].send && chans[j].canSend() || !cases[j].send && chans[j].canRecv() {
				rdy = append(rdy, j)
			}
		}
		idx := -1
		var rv V
		var rok bool
		switch {
		case len(rdy) > 0:
			k := 0
			if m.sched >= 0 && len(rdy) > 1 {
				k = m.choose("!select", len(rdy))
			}
			idx = rdy[k]
			if cases[idx].send {
				m.doSend(chans[idx], fr.get(&cases[idx].v))
			} else {
				rv, rok = m.doRecv(chans[idx])
			}
		case blocking:
			grp := &waitGrp{g: m.cur}
			for j := range cases {
				if chans[j] == nil {
					continue
				}
				w := &waiter{grp: grp, idx: j}
				if cases[j].send {
					w.v = copyV(fr.get(&cases[j].v))
					chans[j].sendq = append(chans[j].sendq, w)
				} else {
					chans[j].recvq = append(chans[j].recvq, w)
				}
			}
			m.block("select")
			idx = grp.idx
			if cases[idx].send {
				if !grp.ok {
					m.rtPanic("send on closed channel")
				}
			} else {
				rv, rok = grp.v, grp.ok
			}
		}
		out := make(Tuple, 0, 2+nrecv)
		out = append(out, intV(idx), boolV(rok))
		for j := range cases {
			if cases[j].send {
				continue
			}
			if j == idx {
				out = append(out, rv)
			} else {
				out = append(out, zero(cases[j].et))
			}
		}
		fr.regs[dst] = V{x: out}
	}
}

func (m *M) lockOf(p *V) *lockState {
	l := m.locks[p]
	if l == nil {
		l = &lockState{}
		m.locks[p] = l
	}
	return l
}

func (m *M) lock(p *V, write bool) {
	m.preempt()
	l := m.lockOf(p)
	for l.writer || write && l.readers > 0 {
		l.waiting = append(l.waiting, m.cur)
		m.block("mutex lock")
	}
	if write {
		l.writer = true
	} else {
		l.readers++
	}
}

func (m *M) unlock(p *V, write bool) {
	l := m.lockOf(p)
	if write {
		if !l.writer {
			panic(pathEnd{"fatal: unlock of unlocked mutex"})
		}
		l.writer = false
	} else {
		if l.readers == 0 {
			panic(pathEnd{"fatal: RUnlock of unlocked RWMutex"})
		}
		l.readers--
	}
	w := l.waiting
	l.waiting = nil
	for _, g := range w {
		m.ready(g)
	}
	m.preempt()
}
