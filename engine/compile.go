package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type COp uint8

const (
	CNop COp = iota
	CAlloc
	CBin
	CUn
	CLoad
	CCall
	CChangeType
	CConvert
	CDefer
	CExtractT
	CField
	CFieldAddr
	CIf
	CIndex
	CIndexAddr
	CJump
	CLookup
	CMakeClosure
	CMakeIface
	CMakeMap
	CMakeSlice
	CMapUpdate
	CNext
	CPanic
	CRange
	CReturn
	CRunDefers
	CSlice
	CSliceToArr
	CStore
	CTypeAssert
	CChangeIface
	CUnsup
)

type CInstr struct {
	op       COp
	tok      token.Token
	dst      int32
	a, b     int32
	c        int32
	xs       []int32
	ti       *TI // main type (operand or result, per op)
	ti2      *TI
	n        int
	flag     bool
	fn       *CFunc
	call     *ssa.CallCommon
	mname    string
	mpkg     *types.Package
	succ     [2]int
	in       ssa.Instruction
	blt      string
	loadOnly bool
}

type CEdge struct {
	dst, src []int32
}

type CBlock struct {
	code  []CInstr
	phis  []int32 // dst regs
	phiTI []*TI
	phiIn [][]int32 // per pred index -> sources
	preds []int
	succs []int
	merge *MergeInfo // for blocks ending in If
}

type MergeInfo struct {
	region []int // topological order, excluding head and join
	join   int   // -1: virtual exit
	fails  int32
	wins   int32
	off    bool
}

type CFunc struct {
	fn      *ssa.Function
	name    string
	once    sync.Once
	blocks  []*CBlock
	nregs   int
	params  []int32
	free    []int32
	consts  []Value
	results []*TI
	rtuple  *TI
	recov   int
	intr    Intrinsic
	dbg     string
	hits    int64
	noBody  bool
	ready   atomic.Bool
	inRepo  bool
}

const globBase = -(1 << 24)

type Prog struct {
	ssa                                                        *ssa.Program
	tt                                                         *TypeTab
	mu                                                         sync.RWMutex
	funcs                                                      map[*ssa.Function]*CFunc
	globs                                                      map[*ssa.Global]int
	gmu                                                        sync.Mutex
	gl                                                         []*ssa.Global
	intr                                                       map[string]Intrinsic
	repo                                                       func(*ssa.Function) bool
	sizes                                                      types.Sizes
	solverMS                                                   int
	nopFunc                                                    *CFunc
	byteTI, boolTI, int64TI, uint64TI, floatTI, anyTI          *TI
	errStrTI, errStrPtrTI, wrapErrTI, wrapErrPtrTI             *TI
	poolTI, anyMapTI, rangeTabTI, rvalTI, sfieldTI, rtypePtrTI *TI
}

// intrFor finds the model of fn, if any.
func (p *Prog) intrFor(c *CFunc) Intrinsic {
	if c.name == "reflect.TypeFor" && len(c.fn.TypeArgs()) == 1 {
		ti := p.tt.Of(c.fn.TypeArgs()[0])
		return func(m *M, a []Value) (Value, bool) { return m.rtypeIface(ti), true }
	}
	if i := p.intr[c.name]; i != nil {
		return i
	}
	// package initialisers called from package initialisers are run separately
	if c.fn.Name() == "init" && c.fn.Synthetic == "package initializer" {
		return nil
	}
	return nil
}

func (p *Prog) Func(fn *ssa.Function) *CFunc {
	p.mu.RLock()
	c := p.funcs[fn]
	p.mu.RUnlock()
	if c == nil {
		p.mu.Lock()
		c = p.funcs[fn]
		if c == nil {
			c = &CFunc{fn: fn, name: fn.String()}
			if o := fn.Origin(); o != nil {
				c.name = o.String()
			}
			c.intr = p.intrFor(c)
			c.inRepo = p.repo(fn)
			p.funcs[fn] = c
		}
		p.mu.Unlock()
	}
	if c.intr == nil {
		c.once.Do(func() { p.compile(c); c.ready.Store(true) })
	}
	return c
}

func (p *Prog) global(g *ssa.Global) int {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	i, ok := p.globs[g]
	if !ok {
		i = len(p.gl)
		p.globs[g] = i
		p.gl = append(p.gl, g)
	}
	return i
}

func constValue(tt *TypeTab, c *ssa.Const) Value {
	ti := tt.Of(c.Type())
	if c.Value == nil {
		return zeroOf(ti)
	}
	switch ti.kind {
	case KBool:
		return Value{n: b2u(constant.BoolVal(c.Value))}
	case KString:
		return Value{r: constant.StringVal(c.Value)}
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.f32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	}
	return Value{r: unsupVal("const " + c.String())}
}

type unsupVal string

func (p *Prog) compile(c *CFunc) {
	fn := c.fn
	if len(fn.Blocks) == 0 {
		c.noBody = true
		return
	}
	tt := p.tt
	regs := map[ssa.Value]int32{}
	newReg := func(v ssa.Value) int32 {
		r := int32(c.nregs)
		c.nregs++
		regs[v] = r
		return r
	}
	for _, x := range fn.Params {
		c.params = append(c.params, newReg(x))
	}
	for _, x := range fn.FreeVars {
		c.free = append(c.free, newReg(x))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newReg(v)
			}
		}
	}
	cidx := map[ssa.Value]int32{}
	addConst := func(v ssa.Value, x Value) int32 {
		i := int32(len(c.consts))
		c.consts = append(c.consts, x)
		cidx[v] = ^i
		return ^i
	}
	ref := func(v ssa.Value) int32 {
		if v == nil {
			return addConst(v, Value{})
		}
		if r, ok := regs[v]; ok {
			return r
		}
		if r, ok := cidx[v]; ok {
			return r
		}
		switch x := v.(type) {
		case *ssa.Const:
			return addConst(v, constValue(tt, x))
		case *ssa.Function:
			return addConst(v, Value{r: &Closure{fn: x}})
		case *ssa.Global:
			return int32(globBase - p.global(x))
		case *ssa.Builtin:
			return addConst(v, Value{r: x})
		}
		panic(fmt.Sprintf("ref %T", v))
	}
	if fn.Signature.Results() != nil {
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			c.results = append(c.results, tt.Of(fn.Signature.Results().At(i).Type()))
		}
	}
	for _, b := range fn.Blocks {
		cb := &CBlock{}
		c.blocks = append(c.blocks, cb)
		for _, q := range b.Preds {
			cb.preds = append(cb.preds, q.Index)
		}
		for _, q := range b.Succs {
			cb.succs = append(cb.succs, q.Index)
		}
		cb.phiIn = make([][]int32, len(b.Preds))
	}
	for bi, b := range fn.Blocks {
		cb := c.blocks[bi]
		for _, in := range b.Instrs {
			ci := CInstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.Phi:
				cb.phis = append(cb.phis, regs[x])
				cb.phiTI = append(cb.phiTI, tt.Of(x.Type()))
				for i, e := range x.Edges {
					cb.phiIn[i] = append(cb.phiIn[i], ref(e))
				}
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				ci.op = CAlloc
				ci.ti = tt.Of(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				ci.op, ci.tok = CBin, x.Op
				// see the model of bufio's Flush in (*M).slice
				ci.flag = x.Op == token.SUB && c.name == "(*bufio.Writer).Flush"
				ci.a, ci.b = ref(x.X), ref(x.Y)
				ci.ti = tt.Of(x.X.Type())
				ci.ti2 = tt.Of(x.Y.Type())
			case *ssa.UnOp:
				ci.a = ref(x.X)
				ci.ti = tt.Of(x.Type())
				ci.flag = x.CommaOk
				switch x.Op {
				case token.MUL:
					ci.op = CLoad
				case token.ARROW:
					ci.op, ci.blt = CUnsup, "channel receive"
				default:
					ci.op, ci.tok = CUn, x.Op
				}
			case *ssa.Call:
				p.compileCall(&ci, x.Common(), ref)
				ci.op = CCall
			case *ssa.Defer:
				p.compileCall(&ci, x.Common(), ref)
				ci.op = CDefer
				if x.DeferStack != nil {
					ci.op, ci.blt = CUnsup, "defer stack"
				}
			case *ssa.Go:
				ci.op, ci.blt = CUnsup, "go statement"
			case *ssa.ChangeType:
				ci.op, ci.a = CChangeType, ref(x.X)
			case *ssa.ChangeInterface:
				ci.op, ci.a = CChangeType, ref(x.X)
			case *ssa.Convert:
				ci.op, ci.a = CConvert, ref(x.X)
				ci.ti, ci.ti2 = tt.Of(x.X.Type()), tt.Of(x.Type())
			case *ssa.MultiConvert:
				ci.op, ci.blt = CUnsup, "multiconvert"
			case *ssa.Extract:
				ci.op, ci.a, ci.n = CExtractT, ref(x.Tuple), x.Index
			case *ssa.Field:
				ci.op, ci.a = CField, ref(x.X)
				st := tt.Of(x.X.Type())
				ci.n = st.fields[x.Field].off
				ci.ti = st.fields[x.Field].ti
			case *ssa.FieldAddr:
				ci.op, ci.a = CFieldAddr, ref(x.X)
				st := tt.Of(x.X.Type().Underlying().(*types.Pointer).Elem())
				ci.n = st.fields[x.Field].off
			case *ssa.If:
				ci.op, ci.a = CIf, ref(x.Cond)
				ci.succ = [2]int{b.Succs[0].Index, b.Succs[1].Index}
			case *ssa.Jump:
				ci.op = CJump
				ci.succ[0] = b.Succs[0].Index
			case *ssa.Index:
				ci.op, ci.a, ci.b = CIndex, ref(x.X), ref(x.Index)
				ci.ti = tt.Of(x.X.Type())
				ci.ti2 = tt.Of(x.Index.Type())
			case *ssa.IndexAddr:
				ci.op, ci.a, ci.b = CIndexAddr, ref(x.X), ref(x.Index)
				ci.ti2 = tt.Of(x.Index.Type())
				t := tt.Of(x.X.Type())
				ci.loadOnly = onlyLoaded(x)
				if t.kind == KPtr {
					ci.flag = true
					ci.n = t.elem.alen
					ci.ti = t.elem.elem
				} else {
					ci.ti = t.elem
				}
			case *ssa.Lookup:
				ci.op, ci.a, ci.b = CLookup, ref(x.X), ref(x.Index)
				ci.ti = tt.Of(x.X.Type())
				ci.ti2 = tt.Of(x.Index.Type())
				ci.flag = x.CommaOk
			case *ssa.MakeClosure:
				ci.op = CMakeClosure
				ci.mname = ""
				for _, v := range x.Bindings {
					ci.xs = append(ci.xs, ref(v))
				}
				ci.a = ref(x.Fn.(*ssa.Function))
			case *ssa.MakeInterface:
				ci.op, ci.a = CMakeIface, ref(x.X)
				ci.ti = tt.Of(x.X.Type())
			case *ssa.MakeMap:
				ci.op = CMakeMap
				ci.ti = tt.Of(x.Type())
			case *ssa.MakeSlice:
				ci.op, ci.a, ci.b = CMakeSlice, ref(x.Len), ref(x.Cap)
				ci.ti = tt.Of(x.Type()).elem
			case *ssa.MapUpdate:
				ci.op, ci.a, ci.b, ci.c = CMapUpdate, ref(x.Map), ref(x.Key), ref(x.Value)
			case *ssa.Next:
				ci.op, ci.a, ci.flag = CNext, ref(x.Iter), x.IsString
			case *ssa.Range:
				ci.op, ci.a = CRange, ref(x.X)
				ci.ti = tt.Of(x.X.Type())
			case *ssa.Panic:
				ci.op, ci.a = CPanic, ref(x.X)
			case *ssa.Return:
				ci.op = CReturn
				for _, v := range x.Results {
					ci.xs = append(ci.xs, ref(v))
				}
			case *ssa.RunDefers:
				ci.op = CRunDefers
			case *ssa.Slice:
				ci.op, ci.a = CSlice, ref(x.X)
				ci.ti = tt.Of(x.X.Type())
				ci.xs = []int32{-1 << 30, -1 << 30, -1 << 30}
				if x.Low != nil {
					ci.xs[0] = ref(x.Low)
				}
				if x.High != nil {
					ci.xs[1] = ref(x.High)
				}
				if x.Max != nil {
					ci.xs[2] = ref(x.Max)
				}
			case *ssa.SliceToArrayPointer:
				ci.op, ci.a = CSliceToArr, ref(x.X)
				ci.ti = tt.Of(x.Type()).elem
			case *ssa.Store:
				ci.op, ci.a, ci.b = CStore, ref(x.Addr), ref(x.Val)
				ci.ti = tt.Of(x.Val.Type())
			case *ssa.TypeAssert:
				ci.op, ci.a, ci.flag = CTypeAssert, ref(x.X), x.CommaOk
				ci.ti = tt.Of(x.AssertedType)
			default:
				ci.op, ci.blt = CUnsup, fmt.Sprintf("%T", in)
			}
			cb.code = append(cb.code, ci)
		}
	}
	c.recov = -1
	if fn.Recover != nil {
		c.recov = fn.Recover.Index
	}
	p.findMerges(c)
}

func (p *Prog) compileCall(ci *CInstr, cc *ssa.CallCommon, ref func(ssa.Value) int32) {
	ci.call = cc
	ci.a = -1 << 30
	if cc.IsInvoke() {
		ci.a = ref(cc.Value)
		ci.mname = cc.Method.Name()
		ci.mpkg = cc.Method.Pkg()
		ci.flag = true
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		ci.blt = b.Name()
		if len(cc.Args) > 0 {
			ci.ti = p.tt.Of(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			ci.ti2 = p.tt.Of(cc.Args[1].Type())
		}
	} else if f, ok := cc.Value.(*ssa.Function); ok {
		ci.fn = p.FuncLazy(f)
		if f.Synthetic == "package initializer" {
			ci.fn = p.nopFunc
		}
	} else {
		ci.a = ref(cc.Value)
	}
	for _, v := range cc.Args {
		ci.xs = append(ci.xs, ref(v))
	}
}

// FuncLazy returns the CFunc without compiling its body.
func (p *Prog) FuncLazy(fn *ssa.Function) *CFunc {
	p.mu.RLock()
	c := p.funcs[fn]
	p.mu.RUnlock()
	if c != nil {
		return c
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	c = p.funcs[fn]
	if c == nil {
		c = &CFunc{fn: fn, name: fn.String()}
		if o := fn.Origin(); o != nil {
			c.name = o.String()
		}
		c.intr = p.intrFor(c)
		c.inRepo = p.repo(fn)
		p.funcs[fn] = c
	}
	return c
}

// ---------- regions that can be merged instead of forked

func pureInstr(ci *CInstr) bool {
	switch ci.op {
	case CBin, CUn, CLoad, CChangeType, CConvert, CExtractT, CField, CFieldAddr, CIndex, CIndexAddr:
		return true
	case CCall:
		return ci.blt == "len" || ci.blt == "cap"
	case CLookup:
		return false
	}
	return false
}

func (p *Prog) findMerges(c *CFunc) {
	n := len(c.blocks)
	pure := make([]bool, n) // all but the terminator is pure
	for i, b := range c.blocks {
		pure[i] = true
		for j := range b.code {
			ci := &b.code[j]
			if j == len(b.code)-1 && (ci.op == CIf || ci.op == CJump || ci.op == CReturn) {
				break
			}
			if !pureInstr(ci) {
				pure[i] = false
				break
			}
		}
		if len(b.code) > 24 {
			pure[i] = false
		}
	}
	for i, b := range c.blocks {
		if len(b.code) == 0 || b.code[len(b.code)-1].op != CIf {
			continue
		}
		b.merge = c.region(i, pure)
	}
}

// region finds a small acyclic pure region from head to a join block (or to
// the function's returns).
func (c *CFunc) region(head int, pure []bool) *MergeInfo {
	best := (*MergeInfo)(nil)
	// candidate joins: reachable blocks, tried in increasing distance; -1 last
	reach := []int{}
	seen := map[int]bool{head: true}
	q := append([]int{}, c.blocks[head].succs...)
	for len(q) > 0 && len(reach) < 24 {
		x := q[0]
		q = q[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		reach = append(reach, x)
		if pure[x] {
			q = append(q, c.blocks[x].succs...)
		}
	}
	cands := append(append([]int{}, reach...), -1)
	for _, j := range cands {
		if r := c.tryRegion(head, j, pure); r != nil {
			best = r
			break
		}
	}
	return best
}

func (c *CFunc) tryRegion(head, join int, pure []bool) *MergeInfo {
	state := map[int]int{}
	var order []int
	ok := true
	var visit func(x int)
	visit = func(x int) {
		if !ok || x == join {
			return
		}
		if x == head {
			ok = false
			return
		}
		switch state[x] {
		case 1:
			ok = false // cycle
			return
		case 2:
			return
		}
		if !pure[x] || len(order) > 16 {
			ok = false
			return
		}
		last := c.blocks[x].code[len(c.blocks[x].code)-1]
		if last.op == CReturn && join != -1 {
			ok = false
			return
		}
		state[x] = 1
		for _, s := range c.blocks[x].succs {
			visit(s)
		}
		state[x] = 2
		order = append(order, x)
	}
	for _, s := range c.blocks[head].succs {
		visit(s)
	}
	if !ok {
		return nil
	}
	// every region block must be entered only from head or the region
	inR := map[int]bool{}
	for _, x := range order {
		inR[x] = true
	}
	for _, x := range order {
		for _, pr := range c.blocks[x].preds {
			if pr != head && !inR[pr] {
				return nil
			}
		}
	}
	if join == -1 {
		for _, x := range order {
			b := c.blocks[x]
			if len(b.succs) == 0 && b.code[len(b.code)-1].op != CReturn {
				return nil
			}
		}
	}
	// reverse postorder
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	return &MergeInfo{region: order, join: join}
}

func (mi *MergeInfo) fail() {
	if atomic.AddInt32(&mi.fails, 1) > 64 && atomic.LoadInt32(&mi.wins) == 0 {
		mi.off = true
	}
}

func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.UnOp:
			if u.Op != token.MUL {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}
