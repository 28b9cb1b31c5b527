package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type inputVar struct {
	Name string `json:"name"`
	Val  int    `json:"val"`
}

type finding struct {
	Harness string     `json:"harness"`
	Kind    string     `json:"kind"`
	Msg     string     `json:"msg"`
	Where   string     `json:"where,omitempty"`
	Inputs  []inputVar `json:"inputs"`
}

type sample struct {
	Inputs []inputVar
	Obs    []string
}

type result struct {
	harness  string
	stats    Stats
	finds    []finding
	incon    map[string]int
	reach    map[string]bool
	samples  []sample
	complete bool
	wall     time.Duration
	maxSteps int64
	vars     int
	covered  map[string]bool
}

type explorer struct {
	pr      *program
	tier    int
	workers []*M
	limit   int64
}

func (x *explorer) initWorker(m *M) error {
	for _, p := range x.pr.order {
		if !initAllowed(p.Pkg.Path()) {
			continue
		}
		p.Build()
		f := p.Func("init")
		if f == nil {
			m.inited[p] = true
			continue
		}
		m.inited[p] = true
		err := func() (err error) {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case unsupported:
						err = fmt.Errorf("initialising %s: %s", p.Pkg.Path(), r.msg)
					case *targetPanic:
						err = fmt.Errorf("initialising %s: panic %v", p.Pkg.Path(), r.v)
					default:
						panic(r)
					}
				}
			}()
			c := &cfn{fn: f, name: p.Pkg.Path() + ".init", nparams: 0}
			m.gs = m.gs[:0]
			m.cur = m.newG(true)
			m.callArgs(nil, c, nil, nil)
			return nil
		}()
		m.killAll()
		m.undo = m.undo[:0]
		if err != nil {
			if x.pr.repo[p] || os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, err)
			}
			if x.pr.repo[p] {
				return err
			}
			m.badInit[p] = err.Error()
		}
	}
	m.fns = map[*ssa.Function]*cfn{} // recompile: globals of unlisted packages checked afresh
	m.covered = map[*ssa.Function]bool{}
	return nil
}

func newExplorer(pr *program, tier, nworkers int, limit int64) (*explorer, error) {
	x := &explorer{pr: pr, tier: tier, limit: limit}
	var wg sync.WaitGroup
	errs := make([]error, nworkers)
	x.workers = make([]*M, nworkers)
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := newM(pr.prog)
			m.hp.tier = tier
			errs[i] = x.initWorker(m)
			x.workers[i] = m
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return nil, e
		}
	}
	return x, nil
}

const maxFinds = 12

func (x *explorer) run(name string, budget time.Duration) *result {
	fn := x.pr.main.Func(name)
	res := &result{harness: name, incon: map[string]int{}, reach: map[string]bool{}, covered: map[string]bool{}}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := []workItem{{}}
	active := 0
	stop := false
	t0 := time.Now()
	deadline := t0.Add(budget)
	seen := map[string]int{}
	res.complete = true
	var wg sync.WaitGroup
	for wi, m := range x.workers {
		wg.Add(1)
		go func(wi int, m *M) {
			defer wg.Done()
			m.st = Stats{}
			m.covered = map[*ssa.Function]bool{}
			for f, c := range m.fns {
				if c.compiled {
					c.compiled = false // so that coverage is recorded per harness
					_ = f
				}
			}
			n := 0
			for {
				mu.Lock()
				for len(work) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(work) == 0 && active == 0 {
					cond.Broadcast()
					mu.Unlock()
					break
				}
				// take from the end (depth first); idle workers naturally share the stack
				it := work[len(work)-1]
				work = work[:len(work)-1]
				active++
				mu.Unlock()
				var pend []workItem
				p := m.runPath(fn, it, x.limit, func(w workItem) { pend = append(pend, w) })
				n++
				mu.Lock()
				work = append(work, pend...)
				active--
				if m.steps > res.maxSteps {
					res.maxSteps = m.steps
				}
				if len(p.vars) > res.vars {
					res.vars = len(p.vars)
				}
				for _, f := range p.fails {
					key := f.kind + "|" + f.msg + "|" + f.where
					seen[key]++
					if seen[key] <= 3 && len(res.finds) < maxFinds {
						res.finds = append(res.finds, finding{name, f.kind, f.msg, f.where, p.inputs(f.model)})
					}
				}
				for _, s := range p.incon {
					res.incon[s]++
				}
				for r := range m.reach {
					res.reach[r] = true
				}
				if p.ok && len(p.fails) == 0 && (len(res.samples) < 24 || n%97 == 0 && len(res.samples) < 60) {
					s := sample{Inputs: p.inputs(p.model)}
					for _, o := range m.obs {
						s.Obs = append(s.Obs, o.name+"="+strconv.Quote(m.evalStr(o.v, p.model)))
					}
					res.samples = append(res.samples, s)
				}
				if time.Now().After(deadline) && (len(work) > 0 || active > 0) {
					if len(work) > 0 {
						res.complete = false
					}
					stop = true
				}
				if len(res.finds) >= maxFinds {
					stop = true
					if len(work) > 0 {
						res.complete = false
					}
				}
				cond.Broadcast()
				mu.Unlock()
				if m.p = nil; len(m.ts.tab) > 600000 {
					m.ts = newTerms()
					m.hexCache = map[*Term][2]*Term{}
				}
			}
			mu.Lock()
			res.stats.add(&m.st)
			for f := range m.covered {
				if f.Pkg != nil && x.pr.repo[f.Pkg] {
					res.covered[fnName(f)] = true
				}
			}
			mu.Unlock()
		}(wi, m)
	}
	wg.Wait()
	if len(work) > 0 {
		res.complete = false
	}
	res.wall = time.Since(t0)
	return res
}

func (p *Path) inputs(model []byte) []inputVar {
	var out []inputVar
	for i, v := range p.vars {
		if strings.HasPrefix(v.name, "!") {
			continue
		}
		x := byte(0)
		if i < len(model) {
			x = model[i]
		}
		out = append(out, inputVar{v.name, int(x)})
	}
	return out
}

func (m *M) runPath(fn *ssa.Function, it workItem, limit int64, push func(workItem)) (p *Path) {
	m.runID++
	p = &Path{ts: m.ts, sol: m.sol, st: &m.st, prefix: it.prefix, model: append([]byte(nil), it.model...), push: push, inMult: map[int32]bool{}}
	m.p = p
	m.steps = 0
	m.limit = limit
	m.reach = map[string]bool{}
	m.obs = nil
	clear(m.locks)
	m.mapOrd, m.sched, m.opaque, m.pinned, m.fatal = false, -1, false, false, false
	m.gs = m.gs[:0]
	m.cur = m.newG(true)
	m.st.paths++
	defer func() {
		m.st.steps += m.steps
		r := recover()
		if r != nil {
			switch r := r.(type) {
			case pathEnd:
				switch {
				case r.reason == "assume":
					m.st.infeasible++
				case r.reason == "assert":
				case strings.HasPrefix(r.reason, "hang"):
					p.fails = append(p.fails, failure{kind: "hang", msg: r.reason, model: append([]byte(nil), p.model...)})
				case strings.HasPrefix(r.reason, "deadlock"):
					p.fails = append(p.fails, failure{kind: "deadlock", msg: r.reason, model: append([]byte(nil), p.model...)})
				default:
					p.fails = append(p.fails, failure{kind: "fatal", msg: r.reason, model: append([]byte(nil), p.model...)})
				}
			case *targetPanic:
				p.fails = append(p.fails, failure{kind: "panic", msg: m.panicText(r.v), where: r.where, model: append([]byte(nil), p.model...)})
			case unsupported:
				p.incon = append(p.incon, "unsupported: "+r.msg)
			default:
				p.incon = append(p.incon, fmt.Sprintf("engine failure: %v", r))
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					p.incon = append(p.incon, fmt.Sprintf("engine failure in cleanup: %v", r))
				}
			}()
			m.killAll()
		}()
		m.rollback()
	}()
	m.callArgs(nil, m.fn(fn), nil, nil)
	p.ok = true
	return p
}

func (m *M) panicText(v V) string {
	if v.x == nil {
		return "panic(nil)"
	}
	iv := v.x.(*Iface)
	if isString(iv.rt.t) {
		return m.evalStr(iv.v, m.p.model)
	}
	return "panic of type " + iv.rt.name
}

func sortedKeys[T any](mp map[string]T) []string {
	var out []string
	for k := range mp {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
