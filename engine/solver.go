package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Stats struct {
	paths, infeasible, steps          int64
	smtQueries, smtSat, smtUnsat      int64
	smtUnknown                        int64
	smtNanos                          int64
	assertTotal, assertSMT, assertConst int64
	branchTable, branchModel          int64
	crossChecks, crossBad             int64
	regionMerges                      int64
}

func (s *Stats) add(o *Stats) {
	s.paths += o.paths
	s.infeasible += o.infeasible
	s.steps += o.steps
	s.smtQueries += o.smtQueries
	s.smtSat += o.smtSat
	s.smtUnsat += o.smtUnsat
	s.smtUnknown += o.smtUnknown
	s.smtNanos += o.smtNanos
	s.assertTotal += o.assertTotal
	s.assertSMT += o.assertSMT
	s.assertConst += o.assertConst
	s.branchTable += o.branchTable
	s.branchModel += o.branchModel
	s.crossChecks += o.crossChecks
	s.crossBad += o.crossBad
	s.regionMerges += o.regionMerges
}

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	nvars int
	bin   string
	tmo   int
}

func newSolver() *Solver { return &Solver{bin: z3Binary(), tmo: 20000} }

func z3Binary() string {
	for _, b := range []string{"z3-new", "z3"} {
		if p, err := exec.LookPath(b); err == nil {
			return p
		}
	}
	return "z3"
}

var solverProcs int64

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReader(o)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	atomic.AddInt64(&solverProcs, 1)
	s.nvars = 0
	_, err = fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmo)
	return err
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

type satResult int

const (
	rUnsat satResult = iota
	rSat
	rUnknown
)

// check decides the conjunction of conds under the domains of the variables they mention.
// On sat it returns values for those variables.
func (s *Solver) check(st *Stats, doms []dom, vars []int32, conds []*Term) (satResult, map[int32]byte) {
	t0 := time.Now()
	defer func() { st.smtNanos += int64(time.Since(t0)) }()
	st.smtQueries++
	for try := 0; ; try++ {
		r, m, err := s.check1(doms, vars, conds)
		if err == nil {
			switch r {
			case rSat:
				st.smtSat++
			case rUnsat:
				st.smtUnsat++
			default:
				st.smtUnknown++
			}
			return r, m
		}
		s.close()
		if try > 1 {
			st.smtUnknown++
			return rUnknown, nil
		}
	}
}

func (s *Solver) check1(doms []dom, vars []int32, conds []*Term) (satResult, map[int32]byte, error) {
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return rUnknown, nil, err
		}
	}
	var sb strings.Builder
	for s.nvars < len(doms) {
		fmt.Fprintf(&sb, "(declare-const v%d (_ BitVec 8))\n", s.nvars)
		s.nvars++
	}
	sb.WriteString("(push 1)\n")
	p := &smtPrinter{sb: &sb, done: map[*Term]string{}}
	for _, v := range vars {
		if d := doms[v].smt(int(v)); d != "true" {
			sb.WriteString("(assert " + d + ")\n")
		}
	}
	for _, c := range conds {
		r := p.ref(c)
		sb.WriteString("(assert " + r + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return rUnknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return rUnknown, nil, err
	}
	res := rUnknown
	var model map[int32]byte
	switch line {
	case "sat":
		res = rSat
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&q, "v%d ", v)
			}
			q.WriteString("))\n")
			if _, err := io.WriteString(s.in, q.String()); err != nil {
				return rUnknown, nil, err
			}
			txt, err := s.readSexp()
			if err != nil {
				return rUnknown, nil, err
			}
			model = parseModel(txt)
		} else {
			model = map[int32]byte{}
		}
	case "unsat":
		res = rUnsat
	case "unknown", "timeout":
	default:
		return rUnknown, nil, fmt.Errorf("solver said %q", line)
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		return rUnknown, nil, err
	}
	return res, model, nil
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		if l = strings.TrimSpace(l); l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parseModel(s string) map[int32]byte {
	m := map[int32]byte{}
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		v, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
		if err != nil {
			continue
		}
		var x uint64
		if strings.HasPrefix(f[i+1], "#x") {
			x, _ = strconv.ParseUint(f[i+1][2:], 16, 64)
		} else if strings.HasPrefix(f[i+1], "#b") {
			x, _ = strconv.ParseUint(f[i+1][2:], 2, 64)
		}
		m[int32(v)] = byte(x)
	}
	return m
}

// ---------------------------------------------------------------- path state

type varInfo struct {
	name string
	n    int // size of choice (0 = byte)
}

const (
	dFalse byte = iota // both sides feasible, false taken
	dTrue
	dForcedFalse // solver showed the other side infeasible
	dForcedTrue
)

type workItem struct {
	prefix []byte
	model  []byte
}

type obligation struct {
	msg  string
	cond *Term
}

type failure struct {
	kind  string // assert, panic, hang, deadlock
	msg   string
	model []byte
	where string
}

// Path is the state of one symbolic execution.
type Path struct {
	ts     *Terms
	sol    *Solver
	st     *Stats
	vars   []varInfo
	doms   []dom
	model  []byte // satisfies all constraints so far
	multi  []*Term
	mvars  [][]int32 // variables of each multi constraint
	inMult map[int32]bool
	prefix []byte
	pos    int
	log    []byte
	push   func(workItem)
	fails  []failure
	incon  []string
	steps  int64
	ok     bool
}

type pathEnd struct{ reason string }

func (p *Path) newVar(name string, n int) *Term {
	i := len(p.vars)
	p.vars = append(p.vars, varInfo{name, n})
	d := dom{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	if n > 0 && n < 256 {
		d = dom{}
		for j := 0; j < n; j++ {
			d[j>>6] |= 1 << (uint(j) & 63)
		}
	}
	p.doms = append(p.doms, d)
	if len(p.model) <= i {
		v := byte(0)
		if n == 0 {
			v = 'a' + byte(i%26)
		}
		p.model = append(p.model, v)
	}
	if !p.doms[i].has(p.model[i]) {
		p.model[i] = p.doms[i].pick()
	}
	return p.ts.variable(i)
}

// relevant collects the multi constraints connected to the variables in set.
func (p *Path) relevant(set map[int32]bool) []*Term {
	if len(p.multi) == 0 {
		return nil
	}
	used := make([]bool, len(p.multi))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, vs := range p.mvars {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range vs {
				if set[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p.multi[i])
				for _, v := range vs {
					set[v] = true
				}
			}
		}
	}
	return out
}

func sortedVars(set map[int32]bool) []int32 {
	out := make([]int32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (p *Path) solve(cond *Term) (satResult, map[int32]byte) {
	set := map[int32]bool{}
	p.ts.varsOf(cond, set, map[*Term]bool{})
	rel := p.relevant(set)
	return p.sol.check(p.st, p.doms, sortedVars(set), append(rel, cond))
}

func (p *Path) withModel(m map[int32]byte) []byte {
	out := append([]byte(nil), p.model...)
	for v, b := range m {
		out[v] = b
	}
	return out
}

// addConstraint records a condition known to be consistent and satisfied by p.model.
func (p *Path) addConstraint(c *Term) {
	if c.isConst() {
		return
	}
	if c.v >= 0 {
		p.doms[c.v] = p.doms[c.v].and(c.truth())
		return
	}
	if c.op == oAnd && c.w == 1 {
		p.addConstraint(c.a)
		p.addConstraint(c.b)
		return
	}
	if c.op == oNot && c.a.op == oOr {
		p.addConstraint(p.ts.Not(c.a.a))
		p.addConstraint(p.ts.Not(c.a.b))
		return
	}
	for _, m := range p.multi {
		if m == c {
			return
		}
	}
	set := map[int32]bool{}
	p.ts.varsOf(c, set, map[*Term]bool{})
	p.multi = append(p.multi, c)
	p.mvars = append(p.mvars, sortedVars(set))
	for v := range set {
		p.inMult[v] = true
	}
}

// quick returns the value of a boolean condition if the domains alone decide it.
func (p *Path) quick(c *Term) (val, known bool) {
	if c.isConst() {
		return c.k == 1, true
	}
	if c.v >= 0 {
		d := &p.doms[c.v]
		t := d.and(c.truth())
		if t.empty() {
			return false, true
		}
		f := d.andNot(c.truth())
		if f.empty() {
			return true, true
		}
		return false, false
	}
	switch c.op {
	case oNot:
		v, ok := p.quick(c.a)
		return !v, ok
	case oAnd:
		if v, ok := p.quick(c.a); ok && !v {
			return false, true
		}
		if v, ok := p.quick(c.b); ok && !v {
			return false, true
		}
		va, oka := p.quick(c.a)
		vb, okb := p.quick(c.b)
		if oka && okb {
			return va && vb, true
		}
	case oOr:
		va, oka := p.quick(c.a)
		if oka && va {
			return true, true
		}
		vb, okb := p.quick(c.b)
		if okb && vb {
			return true, true
		}
		if oka && okb {
			return va || vb, true
		}
	}
	return false, false
}

// constUnder returns the single value a term can take under the domains, if there is one.
func (p *Path) constUnder(t *Term) (uint64, bool) {
	if t.isConst() {
		return t.k, true
	}
	if t.v < 0 {
		return 0, false
	}
	if t.w == 1 {
		v, ok := p.quick(t)
		return b2u(v), ok
	}
	tab := t.table()
	d := &p.doms[t.v]
	var val uint64
	first := true
	for i := 0; i < 256; i++ {
		if d.has(byte(i)) {
			if first {
				val, first = tab[i], false
			} else if tab[i] != val {
				return 0, false
			}
		}
	}
	return val, !first
}

// branch decides a symbolic condition, exploring the other side later when feasible.
func (p *Path) branch(c *Term) bool {
	if v, ok := p.quick(c); ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		switch d {
		case dTrue:
			p.addConstraint(c)
		case dFalse:
			p.addConstraint(p.ts.Not(c))
		}
		return d == dTrue || d == dForcedTrue
	}
	v := p.ts.eval(c, p.model) == 1
	other := c
	if v {
		other = p.ts.Not(c)
	}
	var om []byte
	if c.v >= 0 && !p.inMult[c.v] {
		p.st.branchTable++
		var d dom
		if v {
			d = p.doms[c.v].andNot(c.truth())
		} else {
			d = p.doms[c.v].and(c.truth())
		}
		om = append([]byte(nil), p.model...)
		om[c.v] = d.pick()
		if p.st.branchTable%257 == 0 { // cross-check the truth-table procedure against the solver
			p.st.crossChecks++
			if r, _ := p.solve(other); r == rUnsat {
				p.st.crossBad++
			}
		}
	} else {
		om = p.cheapModel(other)
		if om == nil {
			r, m := p.solve(other)
			switch r {
			case rSat:
				om = p.withModel(m)
				if p.ts.eval(other, om) != 1 {
					p.incon = append(p.incon, "solver model does not satisfy its query")
					om = nil
				}
			case rUnknown:
				p.incon = append(p.incon, "solver gave no answer for a branch")
			}
		}
	}
	if om == nil {
		if v {
			p.log = append(p.log, dForcedTrue)
		} else {
			p.log = append(p.log, dForcedFalse)
		}
		// implied by the path: no constraint needed, but it narrows later queries
		p.pos = len(p.log)
		return v
	}
	base := len(p.log)
	pre := make([]byte, base+1)
	copy(pre, p.log)
	if v {
		pre[base] = dFalse
		p.log = append(p.log, dTrue)
		p.addConstraint(c)
	} else {
		pre[base] = dTrue
		p.log = append(p.log, dFalse)
		p.addConstraint(p.ts.Not(c))
	}
	p.push(workItem{pre, om})
	p.pos = len(p.log)
	return v
}

// cheapModel tries to satisfy c by changing one variable of it; any hit is a genuine model.
func (p *Path) cheapModel(c *Term) []byte {
	set := map[int32]bool{}
	p.ts.varsOf(c, set, map[*Term]bool{})
	if len(set) > 6 {
		return nil
	}
	m := append([]byte(nil), p.model...)
	for _, v := range sortedVars(set) {
		old := m[v]
		cands := []byte{p.doms[v].pick()}
		for o := range set {
			if o != v {
				cands = append(cands, m[o])
			}
		}
		for _, x := range cands {
			if x == old || !p.doms[v].has(x) {
				continue
			}
			m[v] = x
			if p.ts.eval(c, m) == 1 && p.satisfies(m, v) {
				p.st.branchModel++
				return m
			}
		}
		m[v] = old
	}
	return nil
}

func (p *Path) satisfies(m []byte, changed int32) bool {
	if !p.inMult[changed] {
		return true
	}
	for i, c := range p.multi {
		hit := false
		for _, v := range p.mvars[i] {
			if v == changed {
				hit = true
				break
			}
		}
		if hit && p.ts.eval(c, m) != 1 {
			return false
		}
	}
	return true
}

// assume restricts the path; it ends the path if the condition cannot hold.
func (p *Path) assume(c *Term) {
	if v, ok := p.quick(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if p.pos < len(p.prefix) {
		// replay: outcome recorded
		p.pos++
		p.log = append(p.log, dTrue)
		p.addConstraint(c)
		return
	}
	if p.ts.eval(c, p.model) != 1 {
		if c.v >= 0 && !p.inMult[c.v] {
			d := p.doms[c.v].and(c.truth())
			p.model[c.v] = d.pick()
		} else if m := p.cheapModel(c); m != nil {
			p.model = m
		} else {
			r, m := p.solve(c)
			if r == rUnknown {
				p.incon = append(p.incon, "solver gave no answer for an assumption")
			}
			if r != rSat {
				panic(pathEnd{"assume"})
			}
			p.model = p.withModel(m)
		}
	}
	p.log = append(p.log, dTrue)
	p.pos = len(p.log)
	p.addConstraint(c)
}

// assert checks an obligation; it records a failure with a model when it can be violated.
func (p *Path) assert(c *Term, msg string) {
	p.st.assertTotal++
	if c.isConst() {
		p.st.assertConst++
		if c.k == 0 {
			p.fails = append(p.fails, failure{kind: "assert", msg: msg, model: append([]byte(nil), p.model...)})
			panic(pathEnd{"assert"})
		}
		return
	}
	inPrefix := p.pos < len(p.prefix)
	if inPrefix {
		// discharged (or reported) by the path this one was forked from
		d := p.prefix[p.pos]
		p.pos++
		p.log = append(p.log, d)
		if d == dTrue {
			p.addConstraint(c)
		}
		return
	}
	p.st.assertSMT++
	neg := p.ts.Not(c)
	r, m := p.solve(neg)
	switch r {
	case rUnknown:
		p.incon = append(p.incon, "solver gave no answer for obligation: "+msg)
	case rSat:
		p.fails = append(p.fails, failure{kind: "assert", msg: msg, model: p.withModel(m)})
		// continue with the rest of the path where the obligation holds
		p.assume(c)
		return
	}
	p.log = append(p.log, dForcedTrue)
	p.pos = len(p.log)
}
