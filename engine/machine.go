package main

import (
	"fmt"
	"go/token"
	"math"
	"math/bits"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Defer struct {
	next *Defer
	ci   *CInstr
	fn   Value // resolved callee closure or nil for static
	args []Value
	cf   *CFunc
}

type Panic struct {
	val       Value
	msg       string
	runtime   bool
	recovered bool
	prev      *Panic
	where     string
}

type Frame struct {
	fn     *CFunc
	regs   []Value
	blk    int
	pc     int
	gen    uint32
	dst    int32
	defers *Defer
	pan    *Panic
	isDef  bool // called as a deferred function
	cont   func(m *M, ret Value) Value
	rem    []Value // for intrinsics with continuation
}

type Dec struct {
	v   bool
	add bool
	aux uint64
}

type trailEnt struct {
	o   *Obj
	i   int32
	old Value
	fn  func()
}

type Choice struct {
	stack  []*Frame
	trail  int
	pcLen  int
	domLen int
	nvars  int
	nins   int
	nobs   int
	tpos   int
	dec    []Dec // decisions of the re-executed instruction
	model  []uint64
	steps  int64
	held   int
	opSeq  int
	nlog   int
	mon    *Monitor
}

type domUndo struct {
	v   int32
	old ByteSet
}

type Input struct {
	Name string
	Kind string
	t    *Term   // scalar
	bs   []Value // string / bytes
	k    uint64  // concrete choice
}

type Obs struct {
	Label string
	V     Value
	ti    *TI
}

// M is one symbolic machine (one worker).
type M struct {
	p     *Prog
	tt    *TypeTab
	T     *Terms
	sol   *Solver
	globs []*Obj

	stack []*Frame
	gen   uint32
	trail []trailEnt
	nobj  uint32

	pc      []*Term
	dom     []ByteSet
	domTr   []domUndo
	coup    []int32
	model   []uint64
	choices []*Choice
	trace   []Dec
	tpos    int
	itrail  int
	itpos   int
	ipc     int
	idom    int
	ivars   int
	iins    int
	iobs    int
	iheld   int
	ilog    int
	ifr     *Frame // frame snapshot at instr start (lazy)

	inputs []Input
	obs    []Obs
	logs   []string

	steps, pathSteps, maxSteps int64
	forks                      int
	merges                     int
	res                        *JobResult
	job                        *Job
	deadline                   time.Time
	funcs                      map[*CFunc]bool
	initing                    bool
	fnCount                    map[*CFunc]int64

	// environment
	pools          map[*Obj][]Value
	rng            uint64
	mon            *Monitor
	held           int
	ftok           map[string]*Term
	pv             []int32
	hand           []uint64
	known          map[*Term]bool
	sched          *Sched
	donateTo       *Sched
	mguard         *Term
	donate         func(prefix []Dec) bool
	nchoiceDonated int
}

func (m *M) top() *Frame { return m.stack[len(m.stack)-1] }

func (m *M) newObj(n int, ti *TI) *Obj {
	m.nobj++
	return &Obj{slots: make([]Value, n), gen: m.gen, id: m.nobj, ti: ti}
}

func (m *M) alloc(ti *TI) *Obj {
	o := m.newObj(ti.slots, ti)
	zeroSlots(ti, o.slots)
	return o
}

func (m *M) set(o *Obj, i int, v Value) {
	if o.gen != m.gen {
		m.trail = append(m.trail, trailEnt{o: o, i: int32(i), old: o.slots[i]})
	}
	if m.mon != nil && m.mon.tracks(o) {
		m.mon.write(m, o, i, v)
	}
	o.slots[i] = v
}

func (m *M) undoFn(f func()) { m.trail = append(m.trail, trailEnt{fn: f}) }

func (m *M) rollback(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		e := &m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			e.o.slots[e.i] = e.old
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:n]
}

func (m *M) get(f *Frame, r int32) Value {
	if r >= 0 {
		return f.regs[r]
	}
	if r > globBase {
		return f.fn.consts[^r]
	}
	return Value{r: m.globObj(int(globBase - r))}
}

func (m *M) globObj(i int) *Obj {
	for i >= len(m.globs) {
		m.globs = append(m.globs, nil)
	}
	o := m.globs[i]
	if o == nil {
		m.p.gmu.Lock()
		g := m.p.gl[i]
		m.p.gmu.Unlock()
		ti := m.tt.Of(g.Type()).elem
		o = m.alloc(ti)
		o.gen = 0
		o.name = g.String()
		o.shared = true
		m.globs[i] = o
	}
	return o
}

// ---------- deciding

func (m *M) addPC(c *Term) {
	if c.isK() {
		return
	}
	if c.op == OBAnd {
		m.addPC(c.args[0])
		m.addPC(c.args[1])
		return
	}
	if v := m.T.byteVar(c); v >= 0 {
		s := m.T.setOf(c)
		nd := m.dom[v].and(*s)
		if nd != m.dom[v] {
			m.domTr = append(m.domTr, domUndo{int32(v), m.dom[v]})
			m.dom[v] = nd
		}
		return
	}
	m.pc = append(m.pc, c)
	for _, v := range c.vars {
		m.coup[v]++
	}
}

func (m *M) truncPC(n, d, nv int) {
	for i := len(m.pc) - 1; i >= n; i-- {
		for _, v := range m.pc[i].vars {
			m.coup[v]--
		}
	}
	m.pc = m.pc[:n]
	for i := len(m.domTr) - 1; i >= d; i-- {
		m.dom[m.domTr[i].v] = m.domTr[i].old
	}
	m.domTr = m.domTr[:d]
	_ = nv
}

// sat decides PC and c. Returns 1/0/-1 and a model for the whole PC.
func (m *M) sat(c *Term) (int, []uint64) {
	if c.isK() {
		if c.k == 0 {
			return 0, nil
		}
		return 1, m.model
	}
	if m.T.Eval(c, m.model) != 0 {
		m.sol.st.Model++
		return 1, m.model
	}
	if v := m.T.byteVar(c); v >= 0 {
		s := m.dom[v].and(*m.T.setOf(c))
		if s.empty() {
			m.sol.st.Domain++
			return 0, nil
		}
		if m.coup[v] == 0 {
			m.sol.st.Domain++
			mod := append([]uint64(nil), m.model...)
			mod[v] = s.first()
			return 1, mod
		}
	}
	// independence slicing
	in := map[int32]bool{}
	for _, v := range c.vars {
		in[v] = true
	}
	used := make([]bool, len(m.pc))
	cs := []*Term{}
	for {
		ch := false
		for i, t := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range t.vars {
					in[v] = true
				}
			}
		}
		if !ch {
			break
		}
	}
	for i, t := range m.pc {
		if used[i] {
			cs = append(cs, t)
		}
	}
	cs = append(cs, c)
	r := m.sol.Check(cs, m.dom, nil)
	if r.res == 1 {
		mod := append([]uint64(nil), m.model...)
		for v, x := range r.model {
			if int(v) < len(mod) {
				mod[v] = x
			}
		}
		// the model must satisfy what was asked (guards the encoding)
		for _, t := range cs {
			if m.T.Eval(t, mod) == 0 {
				m.res.note("solver model does not satisfy encoding: " + t.String())
				return -1, nil
			}
		}
		return 1, mod
	}
	return r.res, nil
}

type pathEnd struct{ why string }

func (m *M) decide(c *Term) bool { return m.decideAux(c, 0) }

func (m *M) decideV(v Value) bool {
	if t, ok := v.r.(*Term); ok {
		return m.decide(t)
	}
	return v.n != 0
}

func (m *M) decideAux(c *Term, aux uint64) bool {
	if c.isK() {
		return c.k != 0
	}
	if m.tpos < len(m.trace) {
		d := m.trace[m.tpos]
		m.tpos++
		if d.add {
			if d.v {
				m.addPC(c)
			} else {
				m.addPC(m.T.Not(c))
			}
		}
		return d.v
	}
	if m.initing {
		panic(unsup("symbolic decision in init"))
	}
	cur := m.T.Eval(c, m.model) != 0
	same, other := c, m.T.Not(c)
	if !cur {
		same, other = other, same
	}
	r, mod := m.sat(other)
	if r == -1 {
		m.res.undecided("branch")
	}
	if r != 1 {
		// when undecided, the other side is given up, not this one's condition
		m.trace = append(m.trace, Dec{v: cur, aux: aux, add: r == -1})
		m.tpos++
		if r == -1 {
			m.addPC(same)
		}
		return cur
	}
	m.forks++
	tail := append([]Dec(nil), m.trace[m.itpos:m.tpos]...)
	tail = append(tail, Dec{v: !cur, add: true, aux: aux})
	m.pushChoice(tail, mod)
	m.trace = append(m.trace, Dec{v: cur, add: true, aux: aux})
	m.tpos++
	m.addPC(same)
	return cur
}

func (f *Frame) clone() *Frame {
	c := *f
	c.regs = append([]Value(nil), f.regs...)
	return &c
}

func (m *M) pushChoice(dec []Dec, mod []uint64) {
	if m.stack[len(m.stack)-1] != m.ifr {
		panic(unsup("decision after frame change"))
	}
	st := make([]*Frame, len(m.stack))
	copy(st, m.stack)
	st[len(st)-1] = m.ifr.clone() // m.ifr is the live top frame, unmodified so far in this instruction
	ch := &Choice{stack: st, trail: m.itrail, pcLen: m.ipc, domLen: m.idom, nvars: m.ivars, nins: m.iins, nobs: m.iobs, tpos: m.itpos, dec: dec, model: mod, steps: m.pathSteps, held: m.iheld, nlog: m.ilog}
	ch.mon = m.mon
	m.choices = append(m.choices, ch)
	m.gen++
	m.ifr.gen = m.gen
}

// concretize picks every feasible value of t in turn.
func (m *M) concretize(t *Term) uint64 {
	if t.lo == t.hi {
		return t.lo
	}
	for n := 0; ; n++ {
		var k uint64
		if m.tpos < len(m.trace) {
			k = m.trace[m.tpos].aux
		} else {
			k = m.T.Eval(t, m.model)
			if n > 5000 {
				panic(unsup("too many values in concretisation"))
			}
		}
		if m.decideAux(m.T.Eq(t, m.T.Const(t.w, k)), k) {
			return k
		}
	}
}

func (m *M) cint(v Value) uint64 {
	if t, ok := v.r.(*Term); ok {
		return m.concretize(t)
	}
	return v.n
}

// toTerm gives the term of a scalar register value.
func (m *M) toTerm(ti *TI, v Value) *Term {
	switch r := v.r.(type) {
	case *Term:
		return r
	case nil:
		switch ti.kind {
		case KBool:
			return m.T.Bool(v.n != 0)
		case KInt:
			return m.T.Const(ti.w, v.n)
		case KFloat:
			return m.T.Const(wF64, v.n)
		}
	}
	panic(unsup("toTerm %s of %T", ti, v.r))
}

func (m *M) byteTerm(v Value) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return m.T.Const(8, v.n)
}

// ---------- symbolic inputs

func (m *M) newVar(w uint8, name string) *Term { return m.newVarTo(w, mask(w), name) }

func (m *M) newVarTo(w uint8, top uint64, name string) *Term {
	idx := 0
	if n := len(m.pv); n > 0 {
		idx = int(m.pv[n-1]) + 1
	}
	for idx < len(m.T.vars) && (m.T.vars[idx].w != w || m.T.vars[idx].hi != top) {
		idx++
	}
	var t *Term
	if idx < len(m.T.vars) {
		t = m.T.vars[idx]
	} else {
		t = m.T.Var(w, top, name)
		idx = int(t.k)
	}
	for len(m.dom) <= idx {
		m.dom = append(m.dom, ByteSet{})
		m.coup = append(m.coup, 0)
	}
	m.dom[idx] = m.T.dom0[idx]
	replay := m.tpos < len(m.trace)
	def := uint64(0)
	if w == 8 {
		def = min('a', top)
	}
	if replay && m.hand != nil {
		if k := len(m.pv); k < len(m.hand) {
			def = m.hand[k]
		}
		replay = false
	}
	if idx >= len(m.model) || !replay {
		mod := m.model
		for len(mod) <= idx {
			mod = append(mod, 0)
		}
		mod[idx] = def
		m.model = mod
	}
	m.pv = append(m.pv, int32(idx))
	return t
}

// ---------- panics

func (m *M) rtPanic(msg string) {
	m.startPanic(&Panic{val: m.runtimeErr(msg), msg: "runtime error: " + msg, runtime: true})
}

func (m *M) startPanic(p *Panic) {
	f := m.top()
	p.where = m.where()
	p.prev = f.pan
	f.pan = p
	m.unwind()
}

func (m *M) where() string {
	s := ""
	for i := len(m.stack) - 1; i >= 0 && i > len(m.stack)-6; i-- {
		f := m.stack[i]
		if f.fn == nil || f.fn.fn == nil {
			continue
		}
		pos := ""
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].code) {
			p := m.p.ssa.Fset.Position(f.fn.blocks[f.blk].code[f.pc].in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf("@%s:%d", base(p.Filename), p.Line)
			}
		}
		s += f.fn.fn.Name() + pos + " < "
	}
	return s
}

func base(s string) string {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '/' {
			return s[i+1:]
		}
	}
	return s
}

type uncaught struct{ p *Panic }

// unwind runs deferred calls of panicking frames. The top frame has pan set.
func (m *M) unwind() {
	for {
		f := m.own()
		p := f.pan
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			m.callDeferred(d)
			return
		}
		// no more defers: leave the frame
		if len(m.stack) == 1 {
			panic(uncaught{p})
		}
		isDef := f.isDef
		m.stack = m.stack[:len(m.stack)-1]
		g := m.own()
		if isDef && g.pan != nil {
			// a deferred call panicked while its caller was panicking
			p.prev = g.pan
		}
		g.pan = p
	}
}

// own returns the top frame, private to the current state.
func (m *M) own() *Frame {
	i := len(m.stack) - 1
	f := m.stack[i]
	if f.gen != m.gen {
		f = f.clone()
		f.gen = m.gen
		m.stack[i] = f
	}
	return f
}

func (m *M) callDeferred(d *Defer) {
	n := len(m.stack)
	m.invoke(d.ci, d.cf, d.fn, d.args, -1)
	if len(m.stack) > n {
		m.own().isDef = true
	} else {
		// intrinsic finished at once
		m.afterDeferred()
	}
}

// afterDeferred: the deferred call of the top frame has returned.
func (m *M) afterDeferred() {
	f := m.own()
	if f.pan == nil {
		return // normal RunDefers: instruction re-executes
	}
	if f.pan.recovered {
		f.pan = nil
		if f.fn.recov >= 0 {
			f.blk, f.pc = f.fn.recov, 0
			return
		}
		// no named results: return zero values
		var rv Value
		switch len(f.fn.results) {
		case 0:
		case 1:
			rv = zeroOf(f.fn.results[0])
		default:
			s := make([]Value, len(f.fn.results))
			for i, t := range f.fn.results {
				s[i] = zeroOf(t)
			}
			rv = Value{r: &Agg{s}}
		}
		m.doReturn(rv)
		return
	}
	m.unwind()
}

func (m *M) doReturn(rv Value) {
	f := m.top()
	m.stack = m.stack[:len(m.stack)-1]
	if f.cont != nil {
		rv = f.cont(m, rv)
	}
	if len(m.stack) == 0 {
		return
	}
	g := m.own()
	if f.isDef {
		m.afterDeferred()
		return
	}
	if f.dst >= 0 {
		g.regs[f.dst] = rv
	}
	g.pc++
}

// ---------- calls

func (m *M) call(cf *CFunc, args []Value, free []Value, dst int32) *Frame {
	if cf.noBody {
		panic(unsup("no body: %s", cf.name))
	}
	if len(m.stack) > 5000 {
		panic(unsup("stack depth"))
	}
	f := &Frame{fn: cf, regs: make([]Value, cf.nregs), gen: m.gen, dst: dst}
	for i, p := range cf.params {
		f.regs[p] = args[i]
	}
	for i, p := range cf.free {
		f.regs[p] = free[i]
	}
	if m.fnCount != nil {
		m.fnCount[cf]++
	}
	m.stack = append(m.stack, f)
	return f
}

// invoke starts a call. If it completes at once (intrinsic/builtin) the result
// is stored in dst of the current top frame and pc is advanced by the caller.
func (m *M) invoke(ci *CInstr, cf *CFunc, fn Value, args []Value, dst int32) bool {
	if cf == nil && ci != nil && ci.blt != "" && fn.r == nil {
		rv, done := m.builtin(ci, args)
		if done && dst >= 0 {
			m.own().regs[dst] = rv
		}
		return done
	}
	var free []Value
	if cf == nil {
		c, ok := fn.r.(*Closure)
		if !ok || c == nil {
			if _, isB := fn.r.(*ssa.Builtin); isB {
				panic(unsup("builtin value"))
			}
			m.rtPanic("invalid memory address or nil pointer dereference")
			return false
		}
		free = c.free
		if c.meth != nil {
			args = append([]Value{c.meth.recv}, args...)
			cf = m.p.Func(c.meth.fn)
		} else {
			cf = m.p.Func(c.fn)
		}
	}
	if cf.intr != nil {
		if m.fnCount != nil {
			m.fnCount[cf]++
		}
		n := len(m.stack)
		topb := m.stack[n-1]
		rv, done := cf.intr(m, args)
		if done {
			if dst >= 0 {
				m.own().regs[dst] = rv
			}
			return true
		}
		// frame pushed (result goes to dst) or panic started
		if len(m.stack) == n+1 && m.stack[n-1] == topb || len(m.stack) > n {
			if m.stack[n].dst == -2 {
				m.stack[n].dst = dst
			}
		}
		return false
	}
	cf = m.p.Func(cf.fn)
	m.call(cf, args, free, dst)
	return false
}

func (m *M) goCall(f *Frame, ci *CInstr) (cf *CFunc, fn Value, args []Value, ok bool) {
	if ci.flag { // invoke mode
		rcv := m.get(f, ci.a)
		if rcv.r == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
			return nil, Value{}, nil, false
		}
		ifc := rcv.r.(*Iface)
		fn := m.tt.method(ifc.t, ci.mname, ci.mpkg)
		if fn == nil {
			panic(unsup("no method %s on %s", ci.mname, ifc.t))
		}
		args = make([]Value, 0, len(ci.xs)+1)
		args = append(args, ifc.v)
		for _, x := range ci.xs {
			args = append(args, m.get(f, x))
		}
		return m.p.Func(fn), Value{}, args, true
	}
	args = make([]Value, len(ci.xs))
	for i, x := range ci.xs {
		args[i] = m.get(f, x)
	}
	if ci.fn != nil {
		return ci.fn, Value{}, args, true
	}
	if ci.blt != "" {
		return nil, Value{}, args, true
	}
	return nil, m.get(f, ci.a), args, true
}

// ---------- main loop

func (m *M) runPath() {
	var limit = m.maxSteps
	for len(m.stack) > 0 {
		f := m.stack[len(m.stack)-1]
		if f.gen != m.gen {
			f = f.clone()
			f.gen = m.gen
			m.stack[len(m.stack)-1] = f
		}
		m.steps++
		m.pathSteps++
		if m.pathSteps > limit {
			panic(stepLimit{})
		}
		if m.steps&0xfff == 0 {
			if time.Now().After(m.deadline) {
				panic(timeUp{})
			}
			if m.sched != nil && len(m.choices) > 1 && atomic.LoadInt32(&m.sched.idle) > 0 {
				m.donateOldest(m.sched)
			}
		}
		m.itrail = len(m.trail)
		m.itpos = m.tpos
		m.ipc = len(m.pc)
		m.idom = len(m.domTr)
		m.ivars = len(m.pv)
		m.iins = len(m.inputs)
		m.iobs = len(m.obs)
		m.iheld = m.held
		m.ilog = len(m.logs)
		m.ifr = f
		m.step(f, &f.fn.blocks[f.blk].code[f.pc])
	}
}

type stepLimit struct{}
type timeUp struct{}

func (m *M) jump(f *Frame, to int) {
	b := f.fn.blocks[to]
	if n := len(b.phis); n > 0 {
		pi := 0
		for i, p := range b.preds {
			if p == f.blk {
				pi = i
				break
			}
		}
		in := b.phiIn[pi]
		if n == 1 {
			f.regs[b.phis[0]] = m.get(f, in[0])
		} else {
			var tmp [16]Value
			t := tmp[:0]
			for _, s := range in {
				t = append(t, m.get(f, s))
			}
			for i, d := range b.phis {
				f.regs[d] = t[i]
			}
		}
	}
	f.blk, f.pc = to, 0
}

// jumpEdge is for If with both successors equal (distinct preds entries).
func (m *M) step(f *Frame, ci *CInstr) {
	switch ci.op {
	case CJump:
		m.jump(f, ci.succ[0])
		return
	case CIf:
		c := m.get(f, ci.a)
		if t, ok := c.r.(*Term); ok {
			if mi := f.fn.blocks[f.blk].merge; mi != nil && ci.succ[0] != ci.succ[1] && m.tryMerge(f, ci, t, mi) {
				m.merges++
				return
			}
			if m.decide(t) {
				m.jump(f, ci.succ[0])
			} else {
				m.jump(f, ci.succ[1])
			}
			return
		}
		if c.n != 0 {
			m.jump(f, ci.succ[0])
		} else {
			m.jump(f, ci.succ[1])
		}
		return
	case CReturn:
		if f.pan != nil && f.pan.recovered {
			f.pan = nil
		}
		var rv Value
		switch len(ci.xs) {
		case 0:
		case 1:
			rv = m.get(f, ci.xs[0])
		default:
			s := make([]Value, len(ci.xs))
			for i, x := range ci.xs {
				s[i] = m.get(f, x)
			}
			rv = Value{r: &Agg{s}}
		}
		m.doReturn(rv)
		return
	case CCall:
		if ci.fn != nil && ci.fn.intr == nil && !ci.flag {
			cf := ci.fn
			if !cf.ready.Load() {
				cf = m.p.Func(cf.fn)
			}
			if cf.noBody {
				panic(unsup("no body: %s", cf.name))
			}
			if len(m.stack) > 20000 {
				panic(unsup("stack depth"))
			}
			nf := &Frame{fn: cf, regs: make([]Value, cf.nregs), gen: m.gen, dst: ci.dst}
			for i, p := range cf.params {
				nf.regs[p] = m.get(f, ci.xs[i])
			}
			if m.fnCount != nil {
				m.fnCount[cf]++
			}
			m.stack = append(m.stack, nf)
			return
		}
		cf, fn, args, ok := m.goCall(f, ci)
		if !ok {
			return
		}
		if m.invoke(ci, cf, fn, args, ci.dst) {
			m.own().pc++
		}
		return
	case CRunDefers:
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			n := len(m.stack)
			m.invoke(d.ci, d.cf, d.fn, d.args, -1)
			if len(m.stack) > n {
				m.own().isDef = true
			}
			return
		}
		f.pc++
		return
	case CPanic:
		v := m.get(f, ci.a)
		m.startPanic(&Panic{val: v, msg: m.panicMsg(v)})
		return
	case CDefer:
		cf, fn, args, ok := m.goCall(f, ci)
		if !ok {
			return
		}
		f.defers = &Defer{next: f.defers, ci: ci, cf: cf, fn: fn, args: args}
		f.pc++
		return
	}
	v, ok := m.eval(f, ci)
	if !ok {
		return // panic started or frame pushed
	}
	if ci.dst >= 0 {
		f.regs[ci.dst] = v
	}
	f.pc++
}

func (m *M) panicMsg(v Value) string {
	if i, ok := v.r.(*Iface); ok && i != nil {
		if i.t.kind == KString {
			if s, ok := i.v.r.(string); ok {
				return s
			}
			return "<symbolic string>"
		}
		return i.t.String()
	}
	return "nil"
}

const nilDeref = "invalid memory address or nil pointer dereference"

// eval executes a non-control instruction. ok=false: control was transferred.
func (m *M) eval(f *Frame, ci *CInstr) (Value, bool) {
	switch ci.op {
	case CLoad:
		p := m.get(f, ci.a)
		o, _ := p.r.(*Obj)
		if o == nil {
			if sa, ok := p.r.(*symAddr); ok {
				return m.symLoad(ci.ti, sa), true
			}
			if p.r != nil {
				panic(unsup("load through %T", p.r))
			}
			m.rtPanic(nilDeref)
			return Value{}, false
		}
		if m.mon != nil && m.mon.tracks(o) {
			m.mon.read(m, o, int(p.n), ci.ti.slots)
		}
		if ci.ti.isAgg() {
			return fromSlots(ci.ti, o.slots[p.n:int(p.n)+ci.ti.slots]), true
		}
		return o.slots[p.n], true
	case CStore:
		p := m.get(f, ci.a)
		o, _ := p.r.(*Obj)
		if o == nil {
			if p.r != nil {
				panic(unsup("store through %T", p.r))
			}
			m.rtPanic(nilDeref)
			return Value{}, false
		}
		m.storeTI(o, int(p.n), ci.ti, m.get(f, ci.b))
		return Value{}, true
	case CAlloc:
		return Value{r: m.alloc(ci.ti)}, true
	case CFieldAddr:
		p := m.get(f, ci.a)
		if p.r == nil {
			m.rtPanic(nilDeref)
			return Value{}, false
		}
		p.n += uint64(ci.n)
		return p, true
	case CField:
		a := m.get(f, ci.a).r.(*Agg)
		return fromSlots(ci.ti, a.s[ci.n:ci.n+max(ci.ti.slots, 0)]), true
	case CExtractT:
		a := m.get(f, ci.a).r.(*Agg)
		return a.s[ci.n], true
	case CChangeType:
		return m.get(f, ci.a), true
	case CBin:
		a, b := m.get(f, ci.a), m.get(f, ci.b)
		if ci.flag && b.r != nil {
			return Value{}, true // Flush: the rest of the buffer counts as dropped
		}
		return m.binop(ci, a, b)
	case CUn:
		return m.unop(ci, m.get(f, ci.a)), true
	case CConvert:
		return m.convert(ci.ti, ci.ti2, m.get(f, ci.a)), true
	case CIndexAddr:
		x := m.get(f, ci.a)
		i := m.get(f, ci.b)
		var ln, off int
		if ci.flag {
			if x.r == nil {
				m.rtPanic(nilDeref)
				return Value{}, false
			}
			ln, off = ci.n, int(x.n)
		} else {
			ln, off = slcLen(x), slcOff(x)
		}
		ix, ok := m.index(i, ci.ti2, ln)
		if !ok {
			return Value{}, false
		}
		if t, isT := ix.r.(*Term); isT {
			// delay: load of scalar elements can become a table
			if ci.loadOnly && ci.ti.slots == 1 && (ci.ti.kind == KInt || ci.ti.kind == KBool) && x.r != nil {
				return Value{r: &symAddr{o: x.r.(*Obj), off: off, n: ln, idx: t}}, true
			}
			k := m.concretize(t)
			return Value{r: x.r, n: uint64(off + int(k)*ci.ti.slots)}, true
		}
		return Value{r: x.r, n: uint64(off + int(ix.n)*ci.ti.slots)}, true
	case CIndex:
		x := m.get(f, ci.a)
		i := m.get(f, ci.b)
		if ci.ti.kind == KString {
			ix, ok := m.index(i, ci.ti2, strLen(x))
			if !ok {
				return Value{}, false
			}
			if t, isT := ix.r.(*Term); isT {
				return m.selectBytes(strBytes(x), t), true
			}
			return strByte(x, int(ix.n)), true
		}
		a := x.r.(*Agg)
		ix, ok := m.index(i, ci.ti2, ci.ti.alen)
		if !ok {
			return Value{}, false
		}
		e := ci.ti.elem
		if t, isT := ix.r.(*Term); isT {
			if e.slots == 1 && (e.kind == KInt || e.kind == KBool) {
				return m.selectVals(e, a.s[:ci.ti.alen], t), true
			}
			k := m.concretize(t)
			return fromSlots(e, a.s[int(k)*e.slots:]), true
		}
		return fromSlots(e, a.s[int(ix.n)*e.slots:]), true
	case CLookup:
		x := m.get(f, ci.a)
		i := m.get(f, ci.b)
		if ci.ti.kind == KString {
			ix, ok := m.index(i, ci.ti2, strLen(x))
			if !ok {
				return Value{}, false
			}
			if t, isT := ix.r.(*Term); isT {
				return m.selectBytes(strBytes(x), t), true
			}
			return strByte(x, int(ix.n)), true
		}
		mo, _ := x.r.(*MapObj)
		v, found := m.mapGet(mo, ci.ti, i)
		if !found {
			v = zeroOf(ci.ti.elem)
		}
		if ci.flag {
			return Value{r: &Agg{[]Value{v, bv(found)}}}, true
		}
		return v, true
	case CMakeIface:
		v := m.get(f, ci.a)
		return Value{r: &Iface{ci.ti, v}}, true
	case CMakeClosure:
		fr := make([]Value, len(ci.xs))
		for i, x := range ci.xs {
			fr[i] = m.get(f, x)
		}
		c := m.get(f, ci.a).r.(*Closure)
		return Value{r: &Closure{fn: c.fn, free: fr}}, true
	case CMakeMap:
		m.nobj++
		return Value{r: &MapObj{idx: map[any]int{}, gen: m.gen, id: m.nobj, ti: ci.ti}}, true
	case CMakeSlice:
		ln := int(int64(m.cint(m.get(f, ci.a))))
		cp := int(int64(m.cint(m.get(f, ci.b))))
		if ln < 0 || cp < ln {
			m.rtPanic("makeslice: len out of range")
			return Value{}, false
		}
		if cp > 1<<20 {
			panic(unsup("makeslice %d", cp))
		}
		return m.makeSlice(ci.ti, ln, cp), true
	case CMapUpdate:
		x := m.get(f, ci.a)
		mo, _ := x.r.(*MapObj)
		if mo == nil {
			m.rtPanic("assignment to entry in nil map")
			return Value{}, false
		}
		m.mapSet(mo, m.get(f, ci.b), m.get(f, ci.c))
		return Value{}, true
	case CRange:
		x := m.get(f, ci.a)
		it := &IterObj{pos: m.newObj(1, nil)}
		if ci.ti.kind == KString {
			it.s, it.str = x, true
		} else {
			it.m, _ = x.r.(*MapObj)
		}
		return Value{r: it}, true
	case CNext:
		return m.next(m.get(f, ci.a).r.(*IterObj)), true
	case CSlice:
		return m.slice(f, ci)
	case CSliceToArr:
		x := m.get(f, ci.a)
		if slcLen(x) < ci.ti.alen {
			m.rtPanic("cannot convert slice to array pointer: length")
			return Value{}, false
		}
		return Value{r: x.r, n: uint64(slcOff(x))}, true
	case CTypeAssert:
		return m.typeAssert(ci, m.get(f, ci.a))
	case CUnsup:
		panic(unsup("%s", ci.blt))
	}
	panic(unsup("op %d", ci.op))
}

// symAddr is the address of arr[idx] with a symbolic, in-range index; it is
// only produced when every use is a load.
type symAddr struct {
	o   *Obj
	off int
	n   int
	idx *Term
}

func (m *M) symLoad(ti *TI, p *symAddr) Value {
	if m.mon != nil && m.mon.tracks(p.o) {
		m.mon.read(m, p.o, p.off, p.n)
	}
	return m.selectVals(ti, p.o.slots[p.off:p.off+p.n], p.idx)
}

func (m *M) storeTI(o *Obj, off int, ti *TI, v Value) {
	if ti.isAgg() {
		s := v.r.(*Agg).s
		for i := range s {
			m.set(o, off+i, s[i])
		}
		return
	}
	m.set(o, off, v)
}

// index does the bounds check.
func (m *M) index(i Value, ti *TI, ln int) (Value, bool) {
	if t, ok := i.r.(*Term); ok {
		t64 := t
		if t.w < 64 {
			if ti.signed {
				t64 = m.T.Sext(t, 64)
			} else {
				t64 = m.T.Zext(t, 64)
			}
		}
		if !m.decide(m.T.Ult(t64, m.T.Const(64, uint64(ln)))) {
			m.rtPanic("index out of range")
			return Value{}, false
		}
		return Value{r: t64}, true
	}
	k := i.n
	if ti.signed && ti.w < 64 {
		k = uint64(sext(k, ti.w))
	}
	if k >= uint64(ln) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(k), ln))
		return Value{}, false
	}
	return Value{n: k}, true
}

func (m *M) selectBytes(b []Value, t *Term) Value {
	return m.selectVals(m.p.byteTI, b, t)
}

func (m *M) selectVals(e *TI, vals []Value, t *Term) Value {
	all := true
	for i := range vals {
		if vals[i].r != nil {
			all = false
			break
		}
	}
	if all {
		tb := make([]uint64, len(vals))
		for i := range vals {
			tb[i] = vals[i].n
		}
		w := e.w
		if e.kind == KBool {
			x := m.T.Table(t, tb, 1)
			return tv(m.T.Eq(x, m.T.Const(1, 1)))
		}
		return tv(m.T.Table(t, tb, w))
	}
	r := m.toTerm(e, vals[len(vals)-1])
	for i := len(vals) - 2; i >= 0; i-- {
		r = m.T.Ite(m.T.Eq(t, m.T.Const(t.w, uint64(i))), m.toTerm(e, vals[i]), r)
	}
	return tv(r)
}

func (m *M) makeSlice(e *TI, ln, cp int) Value {
	o := m.newObj(cp*e.slots, e)
	if e.kind == KString || e.isAgg() {
		for i := 0; i < cp; i++ {
			zeroSlots(e, o.slots[i*e.slots:(i+1)*e.slots])
		}
	}
	return mkSlice(o, 0, ln, cp)
}

func (m *M) slice(f *Frame, ci *CInstr) (Value, bool) {
	x := m.get(f, ci.a)
	if f.fn.name == "(*bufio.Writer).Flush" {
		// Model: after a partial write bufio keeps the unwritten bytes but
		// returns its error forever, so they are never seen. Dropping them
		// keeps the number of buffered bytes concrete.
		for i := range ci.xs {
			if ci.xs[i] != -1<<30 {
				if t, ok := m.get(f, ci.xs[i]).r.(*Term); ok && t != nil && x.r != nil {
					return mkSlice(x.r.(*Obj), slcOff(x), 0, 0), true
				}
			}
		}
	}
	g := func(i int, def int) int {
		if ci.xs[i] == -1<<30 {
			return def
		}
		return int(int64(m.cint(m.get(f, ci.xs[i]))))
	}
	if ci.ti.kind == KString {
		n := strLen(x)
		lo, hi := g(0, 0), g(1, n)
		if lo < 0 || hi < lo || hi > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
			return Value{}, false
		}
		return subStr(x, lo, hi), true
	}
	var ln, cp, off int
	var es int
	if ci.ti.kind == KPtr {
		if x.r == nil {
			m.rtPanic(nilDeref)
			return Value{}, false
		}
		ln = ci.ti.elem.alen
		cp = ln
		off = int(x.n)
		es = ci.ti.elem.elem.slots
	} else {
		ln, cp, off = slcLen(x), slcCap(x), slcOff(x)
		es = ci.ti.elem.slots
	}
	lo, hi := g(0, 0), g(1, ln)
	mx := g(2, cp)
	if lo < 0 || hi < lo || mx < hi || mx > cp {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cp))
		return Value{}, false
	}
	if x.r == nil {
		return Value{}, true
	}
	return mkSlice(x.r.(*Obj), off+lo*es, hi-lo, mx-lo), true
}

func (m *M) typeAssert(ci *CInstr, x Value) (Value, bool) {
	ti := ci.ti
	i, _ := x.r.(*Iface)
	ok := false
	var v Value
	if ti.kind == KIface {
		if i != nil && m.tt.implements(i.t, ti) {
			ok, v = true, x
		}
	} else if i != nil && i.t == ti {
		ok, v = true, i.v
	}
	if ci.flag {
		if !ok {
			v = zeroOf(ti)
		}
		return Value{r: &Agg{[]Value{v, bv(ok)}}}, true
	}
	if !ok {
		s := "nil"
		if i != nil {
			s = i.t.String()
		}
		m.rtPanic("interface conversion: interface is " + s + ", not " + ti.String())
		return Value{}, false
	}
	return v, true
}

// ---------- operators

func (m *M) binop(ci *CInstr, a, b Value) (Value, bool) {
	ti := ci.ti
	switch ci.tok {
	case token.EQL:
		return tv(m.eq(ti, a, b, ci.ti2)), true
	case token.NEQ:
		return tv(m.T.Not(m.eq(ti, a, b, ci.ti2))), true
	}
	switch ti.kind {
	case KInt:
		if a.r == nil && b.r == nil {
			return m.intop(ci, ti, a.n, b.n)
		}
		return m.symIntOp(ci, ti, a, b)
	case KString:
		switch ci.tok {
		case token.ADD:
			return concat(a, b), true
		case token.LSS:
			return tv(m.strLess(a, b)), true
		case token.GTR:
			return tv(m.strLess(b, a)), true
		case token.LEQ:
			return tv(m.T.Not(m.strLess(b, a))), true
		case token.GEQ:
			return tv(m.T.Not(m.strLess(a, b))), true
		}
	case KFloat:
		x, y := m.toTerm(ti, a), m.toTerm(ti, b)
		var r *Term
		switch ci.tok {
		case token.ADD:
			r = m.T.fop(OFAdd, wF64, 0, x, y)
		case token.SUB:
			r = m.T.fop(OFSub, wF64, 0, x, y)
		case token.MUL:
			r = m.T.fop(OFMul, wF64, 0, x, y)
		case token.QUO:
			r = m.T.fop(OFDiv, wF64, 0, x, y)
		case token.LSS:
			return tv(m.T.fop(OFLt, 0, 0, x, y)), true
		case token.LEQ:
			return tv(m.T.fop(OFLe, 0, 0, x, y)), true
		case token.GTR:
			return tv(m.T.fop(OFLt, 0, 0, y, x)), true
		case token.GEQ:
			return tv(m.T.fop(OFLe, 0, 0, y, x)), true
		}
		if r != nil {
			if ti.f32 {
				r = m.T.fop(OF32, wF64, 0, r)
			}
			return tv(r), true
		}
	case KBool:
		x, y := m.toTerm(ti, a), m.toTerm(ti, b)
		switch ci.tok {
		case token.AND, token.LAND:
			return tv(m.T.And(x, y)), true
		case token.OR, token.LOR:
			return tv(m.T.Or(x, y)), true
		}
	}
	panic(unsup("binop %s on %s", ci.tok, ti))
}

func (m *M) intop(ci *CInstr, ti *TI, a, b uint64) (Value, bool) {
	mk := mask(ti.w)
	switch ci.tok {
	case token.ADD:
		return Value{n: (a + b) & mk}, true
	case token.SUB:
		return Value{n: (a - b) & mk}, true
	case token.MUL:
		return Value{n: (a * b) & mk}, true
	case token.QUO, token.REM:
		if b == 0 {
			m.rtPanic("integer divide by zero")
			return Value{}, false
		}
		if ti.signed {
			x, y := sext(a, ti.w), sext(b, ti.w)
			if y == -1 {
				if ci.tok == token.QUO {
					return Value{n: -a & mk}, true
				}
				return Value{}, true
			}
			if ci.tok == token.QUO {
				return Value{n: uint64(x/y) & mk}, true
			}
			return Value{n: uint64(x%y) & mk}, true
		}
		if ci.tok == token.QUO {
			return Value{n: a / b}, true
		}
		return Value{n: a % b}, true
	case token.AND:
		return Value{n: a & b}, true
	case token.OR:
		return Value{n: a | b}, true
	case token.XOR:
		return Value{n: a ^ b}, true
	case token.AND_NOT:
		return Value{n: a &^ b}, true
	case token.SHL, token.SHR:
		if ci.ti2.signed && sext(b, ci.ti2.w) < 0 {
			m.rtPanic("negative shift amount")
			return Value{}, false
		}
		if ci.tok == token.SHL {
			if b >= 64 {
				return Value{}, true
			}
			return Value{n: a << b & mk}, true
		}
		if ti.signed {
			return Value{n: uint64(sext(a, ti.w)>>min(b, 63)) & mk}, true
		}
		if b >= 64 {
			return Value{}, true
		}
		return Value{n: a >> b}, true
	}
	var r bool
	if ti.signed {
		x, y := sext(a, ti.w), sext(b, ti.w)
		switch ci.tok {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		}
	} else {
		switch ci.tok {
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		}
	}
	return bv(r), true
}

func (m *M) symIntOp(ci *CInstr, ti *TI, a, b Value) (Value, bool) {
	T := m.T
	x := m.toTerm(ti, a)
	if ci.tok == token.SHL || ci.tok == token.SHR {
		y := m.toTerm(ci.ti2, b)
		if ci.ti2.signed && !y.isK() {
			if m.decide(T.Slt(y, T.Const(y.w, 0))) {
				m.rtPanic("negative shift amount")
				return Value{}, false
			}
		} else if y.isK() && ci.ti2.signed && sext(y.k, y.w) < 0 {
			m.rtPanic("negative shift amount")
			return Value{}, false
		}
		// bring the amount to x's width, saturating
		if y.w > x.w {
			big := T.Ule(T.Const(y.w, uint64(x.w)), y)
			y = T.Ite(big, T.Const(x.w, uint64(min(uint64(x.w), mask(x.w)))), T.Extract(y, 0, x.w))
		} else {
			y = T.Zext(y, x.w)
		}
		if ci.tok == token.SHL {
			return tv(T.Shl(x, y)), true
		}
		if ti.signed {
			return tv(T.Ashr(x, y)), true
		}
		return tv(T.Lshr(x, y)), true
	}
	y := m.toTerm(ti, b)
	switch ci.tok {
	case token.ADD:
		return tv(T.Add(x, y)), true
	case token.SUB:
		return tv(T.Sub(x, y)), true
	case token.MUL:
		return tv(T.Mul(x, y)), true
	case token.QUO, token.REM:
		if m.decide(T.Eq(y, T.Const(y.w, 0))) {
			m.rtPanic("integer divide by zero")
			return Value{}, false
		}
		if ti.signed {
			// prefer the unsigned form when the path implies non-negative
			if y.isK() && sext(y.k, y.w) > 0 && x.hi > mask(x.w)>>1 {
				z := T.Const(x.w, 0)
				if m.decide(T.Slt(x, z)) {
					nx := T.Neg(x)
					if ci.tok == token.QUO {
						return tv(T.Neg(T.UDiv(nx, y))), true
					}
					return tv(T.Neg(T.URem(nx, y))), true
				}
				if ci.tok == token.QUO {
					return tv(T.UDiv(x, y)), true
				}
				return tv(T.URem(x, y)), true
			}
			if ci.tok == token.QUO {
				return tv(T.SDiv(x, y)), true
			}
			return tv(T.SRem(x, y)), true
		}
		if ci.tok == token.QUO {
			return tv(T.UDiv(x, y)), true
		}
		return tv(T.URem(x, y)), true
	case token.AND:
		return tv(T.bitop(OAnd, x, y)), true
	case token.OR:
		return tv(T.bitop(OOr, x, y)), true
	case token.XOR:
		return tv(T.bitop(OXor, x, y)), true
	case token.AND_NOT:
		return tv(T.bitop(OAnd, x, T.BNot(y))), true
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if ci.tok == token.GTR || ci.tok == token.GEQ {
			x, y = y, x
		}
		strict := ci.tok == token.LSS || ci.tok == token.GTR
		switch {
		case ti.signed && strict:
			return tv(T.Slt(x, y)), true
		case ti.signed:
			return tv(T.Sle(x, y)), true
		case strict:
			return tv(T.Ult(x, y)), true
		}
		return tv(T.Ule(x, y)), true
	}
	panic(unsup("symIntOp %s", ci.tok))
}

func (m *M) unop(ci *CInstr, a Value) Value {
	ti := ci.ti
	if t, ok := a.r.(*Term); ok {
		switch ci.tok {
		case token.NOT:
			return tv(m.T.Not(t))
		case token.SUB:
			if ti.kind == KFloat {
				return tv(m.T.fop(OFNeg, wF64, 0, t))
			}
			return tv(m.T.Neg(t))
		case token.XOR:
			return tv(m.T.BNot(t))
		}
		panic(unsup("unop"))
	}
	switch ci.tok {
	case token.NOT:
		return Value{n: 1 - a.n}
	case token.SUB:
		if ti.kind == KFloat {
			return fv(-math.Float64frombits(a.n))
		}
		return Value{n: -a.n & mask(ti.w)}
	case token.XOR:
		return Value{n: ^a.n & mask(ti.w)}
	}
	panic(unsup("unop %s", ci.tok))
}

// eq is == on register values.
func (m *M) eq(ti *TI, a, b Value, ti2 *TI) *Term {
	T := m.T
	if ti2 != nil && ti.kind == KIface && ti2.kind != KIface {
		b = Value{r: &Iface{ti2, b}}
	} else if ti2 != nil && ti2.kind == KIface && ti.kind != KIface {
		a = Value{r: &Iface{ti, a}}
		ti = ti2
	}
	switch ti.kind {
	case KBool, KInt:
		if a.r == nil && b.r == nil {
			return T.Bool(a.n == b.n)
		}
		if _, ok := a.r.(*Term); !ok && a.r != nil {
			return T.Bool(a == b)
		}
		return T.Eq(m.toTerm(ti, a), m.toTerm(ti, b))
	case KFloat:
		return T.fop(OFEq, 0, 0, m.toTerm(ti, a), m.toTerm(ti, b))
	case KString:
		return m.strEq(a, b)
	case KPtr, KUnsafe, KChan:
		return T.Bool(a.r == b.r && a.n == b.n)
	case KMap, KFunc:
		return T.Bool(isNilRef(a) == isNilRef(b) && (isNilRef(a) || a.r == b.r))
	case KSlice:
		return T.Bool(a.r == nil && b.r == nil)
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return T.Bool(x == y)
		}
		if x.t != y.t {
			return T.False
		}
		return m.eq(x.t, x.v, y.v, nil)
	case KStruct:
		p, q := a.r.(*Agg).s, b.r.(*Agg).s
		r := T.True
		for i := range ti.fields {
			fl := &ti.fields[i]
			if fl.name == "_" {
				continue
			}
			r = T.And(r, m.eq(fl.ti, fromSlots(fl.ti, p[fl.off:]), fromSlots(fl.ti, q[fl.off:]), nil))
			if r == T.False {
				break
			}
		}
		return r
	case KArray:
		p, q := a.r.(*Agg).s, b.r.(*Agg).s
		r := T.True
		e := ti.elem
		for i := 0; i < ti.alen; i++ {
			r = T.And(r, m.eq(e, fromSlots(e, p[i*e.slots:]), fromSlots(e, q[i*e.slots:]), nil))
		}
		return r
	}
	panic(unsup("eq on %s", ti))
}

func isNilRef(v Value) bool {
	switch x := v.r.(type) {
	case nil:
		return true
	case *Closure:
		return x == nil
	case *MapObj:
		return x == nil
	}
	return false
}

func (m *M) strEq(a, b Value) *Term {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return m.T.Bool(x == y)
	}
	if strLen(a) != strLen(b) {
		return m.T.False
	}
	n := strLen(a)
	r := m.T.True
	for i := 0; i < n; i++ {
		p, q := strByte(a, i), strByte(b, i)
		if p.r == nil && q.r == nil {
			if p.n != q.n {
				return m.T.False
			}
			continue
		}
		r = m.T.And(r, m.T.Eq(m.byteTerm(p), m.byteTerm(q)))
		if r == m.T.False {
			return r
		}
	}
	return r
}

func (m *M) strLess(a, b Value) *Term {
	x, ok1 := concStr(a)
	y, ok2 := concStr(b)
	if ok1 && ok2 {
		return m.T.Bool(x < y)
	}
	n := min(strLen(a), strLen(b))
	r := m.T.Bool(strLen(a) < strLen(b))
	for i := n - 1; i >= 0; i-- {
		p, q := m.byteTerm(strByte(a, i)), m.byteTerm(strByte(b, i))
		r = m.T.Or(m.T.Ult(p, q), m.T.And(m.T.Eq(p, q), r))
	}
	return r
}

func (m *M) convert(from, to *TI, v Value) Value {
	T := m.T
	switch {
	case from.kind == KInt && to.kind == KInt:
		if t, ok := v.r.(*Term); ok {
			if to.w <= from.w {
				return tv(T.Extract(t, 0, to.w))
			}
			if from.signed {
				return tv(T.Sext(t, to.w))
			}
			if s, ok := m.zextDom(t, to.w); ok {
				return tv(s)
			}
			return tv(T.Zext(t, to.w))
		}
		if v.r != nil {
			return v
		}
		if from.signed {
			return Value{n: uint64(sext(v.n, from.w)) & mask(to.w)}
		}
		return Value{n: v.n & mask(to.w)}
	case from.kind == KInt && to.kind == KFloat:
		t := m.toTerm(from, v)
		if from.w < 64 {
			if from.signed {
				t = T.Sext(t, 64)
			} else {
				t = T.Zext(t, 64)
			}
		}
		op := OFFromS
		if !from.signed {
			op = OFFromU
		}
		r := T.fop(op, wF64, 0, t)
		if to.f32 {
			r = T.fop(OF32, wF64, 0, r)
		}
		return tv(r)
	case from.kind == KFloat && to.kind == KInt:
		t := m.toTerm(from, v)
		op := OFToS
		if !to.signed && to.w == 64 {
			op = OFToU
		}
		return tv(T.Extract(T.fop(op, 64, 0, t), 0, to.w))
	case from.kind == KFloat && to.kind == KFloat:
		if to.f32 && !from.f32 {
			return tv(T.fop(OF32, wF64, 0, m.toTerm(from, v)))
		}
		return v
	case to.kind == KString && from.kind == KSlice:
		if from.elem.w == 8 {
			if v.r == nil {
				return Value{r: ""}
			}
			o, off, n := slcObj(v), slcOff(v), slcLen(v)
			if m.mon != nil && m.mon.tracks(o) {
				m.mon.read(m, o, off, n)
			}
			return mkStr(o.slots[off : off+n])
		}
		if from.elem.w == 32 {
			out := Value{r: ""}
			for i := 0; i < slcLen(v); i++ {
				out = concat(out, m.runeToStr(slcObj(v).slots[slcOff(v)+i], true))
			}
			return out
		}
	case to.kind == KSlice && from.kind == KString:
		if to.elem.w == 8 {
			b := strBytes(v)
			o := m.newObj(len(b), to.elem)
			copy(o.slots, b)
			return mkSlice(o, 0, len(b), len(b))
		}
		if to.elem.w == 32 {
			var rs []Value
			for i := 0; i < strLen(v); {
				r, w := m.decodeRune(v, i)
				rs = append(rs, r)
				i += w
			}
			o := m.newObj(len(rs), to.elem)
			copy(o.slots, rs)
			return mkSlice(o, 0, len(rs), len(rs))
		}
	case to.kind == KString && from.kind == KInt:
		return m.runeToStr(m.convert(from, m.p.int64TI, v), false)
	case to.kind == from.kind:
		return v
	case from.kind == KPtr && to.kind == KUnsafe, from.kind == KUnsafe && to.kind == KPtr:
		return v
	case from.kind == KUnsafe && to.kind == KInt, from.kind == KInt && to.kind == KUnsafe:
		return v
	}
	panic(unsup("convert %s to %s", from, to))
}

// zextDom widens v+k of a byte variable without wrap under its current domain.
func (m *M) zextDom(t *Term, w uint8) (*Term, bool) {
	if t.op != OLin || len(t.args) != 1 || t.w != 8 {
		return nil, false
	}
	v := m.T.byteVar(t)
	if v < 0 || t.args[0].op != OVar || t.coef[0] != 1 {
		return nil, false
	}
	d := m.dom[v]
	k := sext(t.k, 8)
	for b := 0; b < 256; b++ {
		if d.has(uint64(b)) {
			x := int64(b) + k
			if x < 0 || x > 255 {
				return nil, false
			}
		}
	}
	var l linAcc
	l.k = uint64(k)
	l.add(m.T.Zext(t.args[0], w), 1)
	return m.T.lin(w, &l), true
}

// runeToStr is string(rune) with forking on the encoded length.
func (m *M) runeToStr(v Value, is32 bool) Value {
	t, ok := v.r.(*Term)
	if !ok {
		x := int64(v.n)
		if is32 {
			x = sext(v.n, 32)
		}
		if x < 0 || x > 0x10ffff {
			return Value{r: "\uFFFD"}
		}
		return Value{r: string(rune(x))}
	}
	T := m.T
	w := t.w
	K := func(k uint64) *Term { return T.Const(w, k) }
	by := func(x *Term) Value { return tv(T.Extract(x, 0, 8)) }
	if m.decide(T.Ult(t, K(0x80))) {
		return mkStr([]Value{by(t)})
	}
	cont := func(sh uint64) Value {
		return tv(T.Add(T.Const(8, 0x80), T.Zext(T.Extract(t, sh, 6), 8)))
	}
	if m.decide(T.Ult(t, K(0x800))) {
		return mkStr([]Value{tv(T.Add(T.Const(8, 0xC0), T.Zext(T.Extract(t, 6, 5), 8))), cont(0)})
	}
	bad := T.Or(T.Ult(K(0x10ffff), t), T.And(T.Ule(K(0xd800), t), T.Ule(t, K(0xdfff))))
	if m.decide(bad) {
		return Value{r: "\uFFFD"}
	}
	if m.decide(T.Ult(t, K(0x10000))) {
		return mkStr([]Value{tv(T.Add(T.Const(8, 0xE0), T.Zext(T.Extract(t, 12, 4), 8))), cont(6), cont(0)})
	}
	return mkStr([]Value{tv(T.Add(T.Const(8, 0xF0), T.Zext(T.Extract(t, 18, 3), 8))), cont(12), cont(6), cont(0)})
}

// decodeRune decodes at position i of string v (forking on validity classes).
func (m *M) decodeRune(v Value, i int) (Value, int) {
	n := strLen(v)
	if s, ok := v.r.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		return Value{n: uint64(uint32(r))}, w
	}
	T := m.T
	allc := true
	var buf [4]byte
	k := 0
	for ; k < 4 && i+k < n; k++ {
		b := strByte(v, i+k)
		if b.r != nil {
			allc = false
			break
		}
		buf[k] = byte(b.n)
		if k == 0 && b.n < 0x80 {
			return b, 1
		}
	}
	if allc {
		r, w := utf8.DecodeRune(buf[:k])
		return Value{n: uint64(uint32(r))}, w
	}
	B := func(j int) *Term { return m.byteTerm(strByte(v, i+j)) }
	K := func(k uint64) *Term { return T.Const(8, k) }
	in := func(t *Term, lo, hi uint64) *Term { return T.And(T.Ule(K(lo), t), T.Ule(t, K(hi))) }
	b0 := B(0)
	if m.decide(T.Ult(b0, K(0x80))) {
		return tv(T.Zext(b0, 32)), 1
	}
	bad := Value{n: 0xFFFD}
	if n-i < 2 || !m.decide(in(b0, 0xC2, 0xF4)) {
		return bad, 1
	}
	b1 := B(1)
	x := func(t *Term, w uint8) *Term { return T.Zext(T.Extract(t, 0, w), 32) }
	if m.decide(T.Ult(b0, K(0xE0))) {
		if !m.decide(in(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return tv(T.Add(T.MulK(x(b0, 5), 64), x(b1, 6))), 2
	}
	if n-i < 3 {
		return bad, 1
	}
	if m.decide(T.Ult(b0, K(0xF0))) {
		ok1 := T.Ite(T.Eq(b0, K(0xE0)), in(b1, 0xA0, 0xBF), T.Ite(T.Eq(b0, K(0xED)), in(b1, 0x80, 0x9F), in(b1, 0x80, 0xBF)))
		if !m.decide(ok1) {
			return bad, 1
		}
		b2 := B(2)
		if !m.decide(in(b2, 0x80, 0xBF)) {
			return bad, 1
		}
		return tv(T.Add(T.Add(T.MulK(x(b0, 4), 4096), T.MulK(x(b1, 6), 64)), x(b2, 6))), 3
	}
	if n-i < 4 {
		return bad, 1
	}
	ok1 := T.Ite(T.Eq(b0, K(0xF0)), in(b1, 0x90, 0xBF), T.Ite(T.Eq(b0, K(0xF4)), in(b1, 0x80, 0x8F), in(b1, 0x80, 0xBF)))
	if !m.decide(ok1) {
		return bad, 1
	}
	b2, b3 := B(2), B(3)
	if !m.decide(in(b2, 0x80, 0xBF)) || !m.decide(in(b3, 0x80, 0xBF)) {
		return bad, 1
	}
	return tv(T.Add(T.Add(T.MulK(x(b0, 3), 1<<18), T.MulK(x(b1, 6), 4096)), T.Add(T.MulK(x(b2, 6), 64), x(b3, 6)))), 4
}

func (m *M) next(it *IterObj) Value {
	i := int(it.pos.slots[0].n)
	if it.str {
		if i >= strLen(it.s) {
			return Value{r: &Agg{[]Value{bv(false), {}, {}}}}
		}
		r, w := m.decodeRune(it.s, i)
		m.set(it.pos, 0, iv(i+w))
		return Value{r: &Agg{[]Value{bv(true), iv(i), r}}}
	}
	if it.m != nil {
		if m.mon != nil && m.mon.tracksM(it.m) {
			m.mon.readMap(m, it.m)
		}
		for i < len(it.m.ents) && it.m.dead[i] {
			i++
		}
		if i < len(it.m.ents) {
			e := it.m.ents[i]
			m.set(it.pos, 0, iv(i+1))
			return Value{r: &Agg{[]Value{bv(true), e.k, e.v}}}
		}
	}
	return Value{r: &Agg{[]Value{bv(false), {}, {}}}}
}

// ---------- maps

func keyOf(ti *TI, v Value) (any, bool) {
	switch ti.kind {
	case KString:
		s, ok := concStr(v)
		return s, ok
	case KBool, KInt, KFloat:
		if v.r != nil {
			return nil, false
		}
		return v.n, true
	case KPtr, KChan, KUnsafe:
		return struct {
			r any
			n uint64
		}{v.r, v.n}, true
	case KIface:
		i, _ := v.r.(*Iface)
		if i == nil {
			return nil, true
		}
		k, ok := keyOf(i.t, i.v)
		return struct {
			t *TI
			k any
		}{i.t, k}, ok
	case KStruct:
		s := v.r.(*Agg).s
		var ks [6]any
		if len(ti.fields) > 6 {
			return nil, false
		}
		for i := range ti.fields {
			f := &ti.fields[i]
			k, ok := keyOf(f.ti, fromSlots(f.ti, s[f.off:]))
			if !ok {
				return nil, false
			}
			ks[i] = k
		}
		return ks, true
	}
	return nil, false
}

func (m *M) mapFind(mo *MapObj, k Value) int {
	if mo == nil {
		return -1
	}
	kt := mo.ti.key
	key, ok := keyOf(kt, k)
	if ok && !mo.symKey {
		if i, ok := mo.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range mo.ents {
		if mo.dead[i] {
			continue
		}
		if m.decide(m.eq(kt, mo.ents[i].k, k, nil)) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mo *MapObj, ti *TI, k Value) (Value, bool) {
	if m.mon != nil && mo != nil && m.mon.tracksM(mo) {
		m.mon.readMap(m, mo)
	}
	i := m.mapFind(mo, k)
	if i < 0 {
		return Value{}, false
	}
	return mo.ents[i].v, true
}

func (m *M) mapSet(mo *MapObj, k, v Value) {
	i := m.mapFind(mo, k)
	if m.mon != nil && !mo.sync && m.mon.tracksM(mo) {
		m.mon.writeMap(m, mo, k, v)
	}
	log := mo.gen != m.gen
	if i >= 0 {
		old := mo.ents[i].v
		if log {
			m.undoFn(func() { mo.ents[i].v = old })
		}
		mo.ents[i].v = v
		return
	}
	key, conc := keyOf(mo.ti.key, k)
	n := len(mo.ents)
	oldSym := mo.symKey
	mo.ents = append(mo.ents, MapEnt{k, v})
	mo.dead = append(mo.dead, false)
	mo.nlive++
	if conc {
		mo.idx[key] = n
	} else {
		mo.symKey = true
	}
	if log {
		m.undoFn(func() {
			mo.ents = mo.ents[:n]
			mo.dead = mo.dead[:n]
			mo.nlive--
			mo.symKey = oldSym
			if conc {
				delete(mo.idx, key)
			}
		})
	}
}

func (m *M) mapDelete(mo *MapObj, k Value) {
	if mo == nil {
		return
	}
	i := m.mapFind(mo, k)
	if i < 0 {
		return
	}
	if m.mon != nil && !mo.sync && m.mon.tracksM(mo) {
		m.mon.writeMap(m, mo, Value{}, Value{})
	}
	key, conc := keyOf(mo.ti.key, mo.ents[i].k)
	mo.dead[i] = true
	mo.nlive--
	if conc {
		delete(mo.idx, key)
	}
	m.undoFn(func() {
		mo.dead[i] = false
		mo.nlive++
		if conc {
			mo.idx[key] = i
		}
	})
}

// ---------- merging

type mergeFail struct{}

func (m *M) tryMerge(f *Frame, ci *CInstr, cond *Term, mi *MergeInfo) (ok bool) {
	// the outcome is part of the trace so that replays follow the same course
	if m.tpos < len(m.trace) {
		d := m.trace[m.tpos]
		m.tpos++
		if !d.v {
			return false
		}
	} else {
		if mi.off {
			m.trace = append(m.trace, Dec{})
			m.tpos++
			return false
		}
		m.trace = append(m.trace, Dec{v: true})
		m.tpos++
	}
	tp := m.tpos
	fn := f.fn
	head := f.blk
	type edge struct {
		from int
		g    *Term
	}
	guards := map[int]*Term{}
	var joinEdges []edge
	var rets []edge
	T := m.T
	add := func(from, to int, g *Term) {
		if g == T.False {
			return
		}
		if to == mi.join {
			joinEdges = append(joinEdges, edge{from, g})
			return
		}
		if o := guards[to]; o != nil {
			guards[to] = T.Or(o, g)
		} else {
			guards[to] = g
		}
	}
	// per-block incoming edges for phis inside the region
	inEdges := map[int][]edge{}
	note := func(from, to int, g *Term) {
		if g != T.False {
			inEdges[to] = append(inEdges[to], edge{from, g})
		}
	}
	save := make([]Value, len(f.regs))
	copy(save, f.regs)
	obj := m.nobj
	defer func() {
		if r := recover(); r != nil {
			if _, isF := r.(mergeFail); !isF {
				if _, isU := r.(Unsup); !isU {
					panic(r)
				}
			}
			copy(f.regs, save)
			f.blk = head
			m.nobj = obj
			m.tpos = tp
			m.trace = m.trace[:tp]
			m.trace[tp-1].v = false
			mi.fail()
			ok = false
		}
	}()
	add(head, ci.succ[0], cond)
	note(head, ci.succ[0], cond)
	add(head, ci.succ[1], T.Not(cond))
	note(head, ci.succ[1], T.Not(cond))
	mergePhis := func(blk int, ins []edge) {
		b := fn.blocks[blk]
		if len(b.phis) == 0 {
			return
		}
		out := make([]Value, len(b.phis))
		for pi, d := range b.phis {
			_ = d
			var acc Value
			for k := len(ins) - 1; k >= 0; k-- {
				e := ins[k]
				idx := -1
				for j, p := range b.preds {
					if p == e.from {
						idx = j
					}
				}
				v := m.get(f, b.phiIn[idx][pi])
				if k == len(ins)-1 {
					acc = v
					continue
				}
				acc = m.iteVal(e.g, b.phiTI[pi], v, acc)
			}
			out[pi] = acc
		}
		for pi, d := range b.phis {
			f.regs[d] = out[pi]
		}
	}
	for _, blk := range mi.region {
		g := guards[blk]
		if g == nil {
			continue
		}
		mergePhis(blk, inEdges[blk])
		b := fn.blocks[blk]
		for i := range b.code {
			c := &b.code[i]
			if i == len(b.code)-1 {
				switch c.op {
				case CJump:
					add(blk, c.succ[0], g)
					note(blk, c.succ[0], g)
					continue
				case CIf:
					cv := m.toTerm(m.p.boolTI, m.get(f, c.a))
					add(blk, c.succ[0], T.And(g, cv))
					note(blk, c.succ[0], T.And(g, cv))
					add(blk, c.succ[1], T.And(g, T.Not(cv)))
					note(blk, c.succ[1], T.And(g, T.Not(cv)))
					continue
				case CReturn:
					rets = append(rets, edge{blk, g})
					continue
				}
			}
			m.mguard = g
			v := m.pureEval(f, c)
			if c.dst >= 0 {
				f.regs[c.dst] = v
			}
		}
	}
	if mi.join == -1 {
		if len(rets) == 0 {
			panic(mergeFail{})
		}
		n := len(fn.results)
		out := make([]Value, n)
		for k := len(rets) - 1; k >= 0; k-- {
			b := fn.blocks[rets[k].from]
			r := &b.code[len(b.code)-1]
			for i, x := range r.xs {
				v := m.get(f, x)
				if k == len(rets)-1 {
					out[i] = v
				} else {
					out[i] = m.iteVal(rets[k].g, fn.results[i], v, out[i])
				}
			}
		}
		if f.defers != nil || f.pan != nil {
			panic(mergeFail{})
		}
		atomic.AddInt32(&mi.wins, 1)
		var rv Value
		switch n {
		case 0:
		case 1:
			rv = out[0]
		default:
			rv = Value{r: &Agg{out}}
		}
		m.doReturn(rv)
		return true
	}
	if len(joinEdges) == 0 {
		panic(mergeFail{})
	}
	// group duplicate edges from one block
	mergePhis(mi.join, joinEdges)
	atomic.AddInt32(&mi.wins, 1)
	f.blk, f.pc = mi.join, 0
	return true
}

// iteVal merges two register values under guard g, or fails.
func (m *M) iteVal(g *Term, ti *TI, a, b Value) Value {
	if sameVal(a, b) {
		return a
	}
	switch ti.kind {
	case KBool:
		return tv(m.T.Ite(g, m.toTerm(ti, a), m.toTerm(ti, b)))
	case KInt:
		if ti.w == 64 && ti.signed && ti.String() == "int" {
			panic(mergeFail{})
		}
		return tv(m.T.Ite(g, m.toTerm(ti, a), m.toTerm(ti, b)))
	}
	panic(mergeFail{})
}

func sameVal(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.r.(type) {
	case nil:
		return b.r == nil
	case string:
		y, ok := b.r.(string)
		return ok && x == y
	case *Term, *Obj, *MapObj, *SStr, *Agg, *Closure:
		return a.r == b.r
	case *Iface:
		y, ok := b.r.(*Iface)
		return ok && (x == y || x != nil && y != nil && x.t == y.t && sameVal(x.v, y.v))
	}
	return false
}

// pureEval evaluates a pure instruction speculatively; anything that could
// panic or decide fails the merge.
func (m *M) pureEval(f *Frame, ci *CInstr) Value {
	switch ci.op {
	case CLoad:
		p := m.get(f, ci.a)
		o, _ := p.r.(*Obj)
		if o == nil {
			if sa, ok := p.r.(*symAddr); ok {
				return m.symLoad(ci.ti, sa)
			}
			panic(mergeFail{})
		}
		if m.mon != nil && m.mon.tracks(o) {
			m.mon.read(m, o, int(p.n), ci.ti.slots)
		}
		if ci.ti.isAgg() {
			return fromSlots(ci.ti, o.slots[p.n:int(p.n)+ci.ti.slots])
		}
		return o.slots[p.n]
	case CFieldAddr:
		p := m.get(f, ci.a)
		if p.r == nil {
			panic(mergeFail{})
		}
		p.n += uint64(ci.n)
		return p
	case CBin:
		a, b := m.get(f, ci.a), m.get(f, ci.b)
		if ci.flag && b.r != nil {
			return Value{}
		}
		switch ci.tok {
		case token.QUO, token.REM:
			if ci.ti.kind == KInt && (b.r != nil || b.n == 0) {
				panic(mergeFail{})
			}
			if ci.ti.kind == KInt && ci.ti.signed && a.r != nil {
				T := m.T
				x, y := m.toTerm(ci.ti, a), m.toTerm(ci.ti, b)
				if ci.tok == token.QUO {
					return tv(T.SDiv(x, y))
				}
				return tv(T.SRem(x, y))
			}
		case token.SHL, token.SHR:
			if b.r != nil {
				panic(mergeFail{})
			}
			if ci.ti2.signed && sext(b.n, ci.ti2.w) < 0 {
				panic(mergeFail{})
			}
		}
		v, ok := m.binop(ci, a, b)
		if !ok {
			panic(mergeFail{})
		}
		return v
	case CUn:
		return m.unop(ci, m.get(f, ci.a))
	case CConvert:
		if !(ci.ti.kind == KInt || ci.ti.kind == KFloat) || !(ci.ti2.kind == KInt || ci.ti2.kind == KFloat) {
			panic(mergeFail{})
		}
		return m.convert(ci.ti, ci.ti2, m.get(f, ci.a))
	case CChangeType:
		return m.get(f, ci.a)
	case CExtractT, CField:
		v, _ := m.eval(f, ci)
		return v
	case CIndex, CIndexAddr:
		i := m.get(f, ci.b)
		if i.r != nil {
			return m.pureIndex(f, ci, i.r.(*Term))
		}
		var ln int
		x := m.get(f, ci.a)
		switch {
		case ci.op == CIndex && ci.ti.kind == KString:
			ln = strLen(x)
		case ci.op == CIndex:
			ln = ci.ti.alen
		case ci.flag:
			if x.r == nil {
				panic(mergeFail{})
			}
			ln = ci.n
		default:
			ln = slcLen(x)
		}
		k := i.n
		if ci.ti2.signed && ci.ti2.w < 64 {
			k = uint64(sext(k, ci.ti2.w))
		}
		if k >= uint64(ln) {
			panic(mergeFail{})
		}
		v, _ := m.eval(f, ci)
		return v
	case CCall:
		args := make([]Value, len(ci.xs))
		for i, x := range ci.xs {
			args[i] = m.get(f, x)
		}
		v, ok := m.builtin(ci, args)
		if !ok {
			panic(mergeFail{})
		}
		return v
	}
	panic(mergeFail{})
}

// pureIndex indexes with a symbolic index known to be in range under the
// block's guard.
func (m *M) pureIndex(f *Frame, ci *CInstr, t *Term) Value {
	x := m.get(f, ci.a)
	T := m.T
	if t.w < 64 {
		if ci.ti2.signed {
			t = T.Sext(t, 64)
		} else {
			t = T.Zext(t, 64)
		}
	}
	var vals []Value
	var e *TI
	switch {
	case ci.op == CIndex && ci.ti.kind == KString:
		vals, e = strBytes(x), m.p.byteTI
	case ci.op == CIndex:
		e = ci.ti.elem
		vals = x.r.(*Agg).s
	default:
		e = ci.ti
		if !ci.loadOnly || x.r == nil {
			panic(mergeFail{})
		}
		o, ok := x.r.(*Obj)
		if !ok {
			panic(mergeFail{})
		}
		if ci.flag {
			vals = o.slots[x.n : int(x.n)+ci.n*e.slots]
		} else {
			vals = o.slots[slcOff(x) : slcOff(x)+slcLen(x)*e.slots]
		}
	}
	if e.slots != 1 || e.kind != KInt && e.kind != KBool || len(vals) == 0 {
		panic(mergeFail{})
	}
	n := uint64(len(vals))
	if t.hi >= n {
		c := T.Not(T.Ult(t, T.Const(64, n)))
		v := T.byteVar(c)
		if c != T.False {
			if v < 0 || m.mguard == nil || T.byteVar(m.mguard) != v {
				panic(mergeFail{})
			}
			bad := m.dom[v].and(*T.setOf(c)).and(*T.setOf(m.mguard))
			if !bad.empty() {
				panic(mergeFail{})
			}
		}
	}
	if ci.op == CIndexAddr {
		off := slcOff(x)
		if ci.flag {
			off = int(x.n)
		}
		return Value{r: &symAddr{o: x.r.(*Obj), off: off, n: len(vals), idx: t}}
	}
	return m.selectVals(e, vals, t)
}

var _ = bits.Len
