package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"
)

// Intrinsic models a function. done=false means a frame was pushed (with
// dst==-2 to be patched) or a panic was started.
type Intrinsic func(m *M, a []Value) (Value, bool)

func nop(m *M, a []Value) (Value, bool) { return Value{}, true }

func (m *M) pushCall(cl Value, args []Value, cont func(m *M, ret Value) Value) (Value, bool) {
	c := cl.r.(*Closure)
	if c.meth != nil {
		args = append([]Value{c.meth.recv}, args...)
		return m.pushFn(m.p.Func(c.meth.fn), args, nil, cont)
	}
	return m.pushFn(m.p.Func(c.fn), args, c.free, cont)
}

func (m *M) pushFn(cf *CFunc, args, free []Value, cont func(m *M, ret Value) Value) (Value, bool) {
	if cf.intr != nil {
		v, ok := cf.intr(m, args)
		if !ok {
			panic(unsup("nested pushing intrinsic %s", cf.name))
		}
		if cont != nil {
			v = cont(m, v)
		}
		return v, true
	}
	f := m.call(cf, args, free, -2)
	f.cont = cont
	return Value{}, false
}

func intrinsics() map[string]Intrinsic {
	t := map[string]Intrinsic{}
	for _, n := range []string{
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Disable", "internal/race.Enable", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Read", "internal/race.Write", "internal/race.ReleaseMerge", "internal/race.Errors",
		"internal/msan.Read", "internal/asan.Read",
		"time.initLocal", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register",
		"sync.runtime_registerPoolCleanup", "sync.init", "strings.init.bogus",
		"(*sync.noCopy).Lock", "(*sync.noCopy).Unlock",
	} {
		t[n] = nop
	}
	t["(*internal/godebug.Setting).Value"] = func(m *M, a []Value) (Value, bool) { return sv(""), true }
	t["internal/godebug.New"] = func(m *M, a []Value) (Value, bool) { return Value{}, true }

	t["time.runtimeNano"] = func(m *M, a []Value) (Value, bool) { return iv(1), true }
	// ----- bytealg
	type bs struct{ m *M }
	sl := func(m *M, v Value) []Value { return m.sliceVals(v, 1) }
	indexByte := func(m *M, b []Value, c Value) Value {
		for i := range b {
			if b[i].r == nil && c.r == nil {
				if b[i].n == c.n {
					return iv(i)
				}
				continue
			}
			if m.decide(m.T.Eq(m.byteTerm(b[i]), m.byteTerm(c))) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	lastIndexByte := func(m *M, b []Value, c Value) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if m.decide(m.T.Eq(m.byteTerm(b[i]), m.byteTerm(c))) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	count := func(m *M, b []Value, c Value) Value {
		n := 0
		for i := range b {
			if m.decide(m.T.Eq(m.byteTerm(b[i]), m.byteTerm(c))) {
				n++
			}
		}
		return iv(n)
	}
	eqB := func(m *M, x, y []Value) *Term {
		if len(x) != len(y) {
			return m.T.False
		}
		return m.strEq(mkStr(x), mkStr(y))
	}
	index := func(m *M, x, y []Value) Value {
		for i := 0; i+len(y) <= len(x); i++ {
			if m.decide(eqB(m, x[i:i+len(y)], y)) {
				return iv(i)
			}
		}
		return iv(-1)
	}
	compare := func(m *M, x, y []Value) Value {
		a, b := mkStr(x), mkStr(y)
		if m.decide(m.strEq(a, b)) {
			return iv(0)
		}
		if m.decide(m.strLess(a, b)) {
			return iv(-1)
		}
		return iv(1)
	}
	for _, p := range []string{"internal/bytealg.", "bytes.", "internal/stringslite.", "strings."} {
		str := strings.HasPrefix(p, "internal/strings") || p == "strings."
		if p == "internal/bytealg." {
			t[p+"IndexByte"] = func(m *M, a []Value) (Value, bool) { return indexByte(m, sl(m, a[0]), a[1]), true }
			t[p+"IndexByteString"] = func(m *M, a []Value) (Value, bool) { return indexByte(m, strBytes(a[0]), a[1]), true }
			t[p+"LastIndexByte"] = func(m *M, a []Value) (Value, bool) { return lastIndexByte(m, sl(m, a[0]), a[1]), true }
			t[p+"LastIndexByteString"] = func(m *M, a []Value) (Value, bool) { return lastIndexByte(m, strBytes(a[0]), a[1]), true }
			t[p+"Count"] = func(m *M, a []Value) (Value, bool) { return count(m, sl(m, a[0]), a[1]), true }
			t[p+"CountString"] = func(m *M, a []Value) (Value, bool) { return count(m, strBytes(a[0]), a[1]), true }
			t[p+"Compare"] = func(m *M, a []Value) (Value, bool) { return compare(m, sl(m, a[0]), sl(m, a[1])), true }
			t[p+"CompareString"] = func(m *M, a []Value) (Value, bool) { return compare(m, strBytes(a[0]), strBytes(a[1])), true }
			t[p+"Equal"] = func(m *M, a []Value) (Value, bool) { return tv(eqB(m, sl(m, a[0]), sl(m, a[1]))), true }
			t[p+"Index"] = func(m *M, a []Value) (Value, bool) { return index(m, sl(m, a[0]), sl(m, a[1])), true }
			t[p+"IndexString"] = func(m *M, a []Value) (Value, bool) { return index(m, strBytes(a[0]), strBytes(a[1])), true }
			t[p+"MakeNoZero"] = func(m *M, a []Value) (Value, bool) {
				n := int(m.cint(a[0]))
				return m.makeSlice(m.p.byteTI, n, n), true
			}
			continue
		}
		if str {
			t[p+"Index"] = func(m *M, a []Value) (Value, bool) { return index(m, strBytes(a[0]), strBytes(a[1])), true }
			t[p+"IndexByte"] = func(m *M, a []Value) (Value, bool) { return indexByte(m, strBytes(a[0]), a[1]), true }
		} else {
			t[p+"Index"] = func(m *M, a []Value) (Value, bool) { return index(m, sl(m, a[0]), sl(m, a[1])), true }
			t[p+"IndexByte"] = func(m *M, a []Value) (Value, bool) { return indexByte(m, sl(m, a[0]), a[1]), true }
			t[p+"Equal"] = func(m *M, a []Value) (Value, bool) { return tv(eqB(m, sl(m, a[0]), sl(m, a[1]))), true }
		}
	}
	id := func(m *M, a []Value) (Value, bool) { return a[0], true }
	t["internal/abi.NoEscape"] = id
	t["internal/abi.Escape"] = id
	t["strings.noescape"] = id
	t["internal/stringslite.Clone"] = id
	t["strings.Clone"] = id
	t["(*strings.Builder).copyCheck"] = nop

	// ----- math
	f1 := func(name string, mode uint64) {
		t[name] = func(m *M, a []Value) (Value, bool) {
			return tv(m.T.fop(OFRnd, wF64, mode, m.fterm(a[0]))), true
		}
	}
	f1("math.Round", 0)
	f1("math.Trunc", 1)
	f1("math.Floor", 2)
	f1("math.Ceil", 3)
	f1("math.RoundToEven", 4)
	t["math.Abs"] = func(m *M, a []Value) (Value, bool) { return tv(m.T.fop(OFAbs, wF64, 0, m.fterm(a[0]))), true }
	t["math.IsNaN"] = func(m *M, a []Value) (Value, bool) { return tv(m.T.fop(OFIsNaN, 0, 0, m.fterm(a[0]))), true }
	t["math.Float64bits"] = func(m *M, a []Value) (Value, bool) {
		if x, ok := a[0].r.(*Term); ok {
			if x.op == OFFromBits {
				return Value{r: x.args[0]}, true
			}
			return tv(m.T.fop(OFToBits, 64, 0, x)), true
		}
		return a[0], true
	}
	t["math.Float64frombits"] = func(m *M, a []Value) (Value, bool) {
		if x, ok := a[0].r.(*Term); ok {
			return tv(m.T.fop(OFFromBits, wF64, 0, x)), true
		}
		return a[0], true
	}
	t["math.Float32bits"] = func(m *M, a []Value) (Value, bool) {
		if a[0].r != nil {
			panic(unsup("symbolic Float32bits"))
		}
		return Value{n: uint64(math.Float32bits(float32(math.Float64frombits(a[0].n))))}, true
	}
	t["math.Float32frombits"] = func(m *M, a []Value) (Value, bool) {
		if a[0].r != nil {
			panic(unsup("symbolic Float32frombits"))
		}
		return fv(float64(math.Float32frombits(uint32(a[0].n)))), true
	}
	fn1 := func(name string, f func(float64) float64) {
		t[name] = func(m *M, a []Value) (Value, bool) {
			if a[0].r != nil {
				panic(unsup("symbolic %s", name))
			}
			return fv(f(math.Float64frombits(a[0].n))), true
		}
	}
	fn1("math.Sqrt", math.Sqrt)
	fn1("math.Log", math.Log)
	fn1("math.Log10", math.Log10)
	fn1("math.Exp", math.Exp)

	// ----- strconv
	fmtInt := func(signed bool) Intrinsic {
		return func(m *M, a []Value) (Value, bool) {
			base := int(m.cint(a[1]))
			return m.formatInt(a[0], base, signed), true
		}
	}
	t["strconv.FormatInt"] = fmtInt(true)
	t["strconv.FormatUint"] = fmtInt(false)
	t["strconv.Itoa"] = func(m *M, a []Value) (Value, bool) { return m.formatInt(a[0], 10, true), true }
	app := func(signed bool) Intrinsic {
		return func(m *M, a []Value) (Value, bool) {
			s := m.formatInt(a[1], int(m.cint(a[2])), signed)
			return m.appendVals(m.p.byteTI, a[0], strBytes(s)), true
		}
	}
	t["strconv.AppendInt"] = app(true)
	t["strconv.AppendUint"] = app(false)
	t["strconv.FormatFloat"] = func(m *M, a []Value) (Value, bool) {
		return m.formatFloat(a[0], byte(m.cint(a[1])), int(int64(m.cint(a[2]))), int(int64(m.cint(a[3])))), true
	}
	t["strconv.AppendFloat"] = func(m *M, a []Value) (Value, bool) {
		s := m.formatFloat(a[1], byte(m.cint(a[2])), int(int64(m.cint(a[3]))), int(int64(m.cint(a[4]))))
		return m.appendVals(m.p.byteTI, a[0], strBytes(s)), true
	}
	// ParseFloat is replaced by its contract: native on concrete text; the
	// inverse of FormatFloat on its tokens; otherwise handled digit-wise.
	t["strconv.ParseFloat"] = func(m *M, a []Value) (Value, bool) { return m.parseFloat(a[0], int(m.cint(a[1]))) }
	t["strconv.quoteWith"] = func(m *M, a []Value) (Value, bool) {
		if s, ok := concStr(a[0]); ok {
			return sv(strconv.Quote(s)), true
		}
		return sv("\"<symbolic>\""), true
	}

	// ----- fmt
	t["fmt.Errorf"] = fmtErrorf
	t["fmt.Sprintf"] = func(m *M, a []Value) (Value, bool) { return m.sprintf(a[0], m.ifaces(a[1])), true }
	t["fmt.Sprint"] = func(m *M, a []Value) (Value, bool) {
		r := sv("")
		for _, x := range m.ifaces(a[0]) {
			r = concat(r, m.fmtArg('v', x, ""))
		}
		return r, true
	}
	t["fmt.Fprintf"] = func(m *M, a []Value) (Value, bool) { panic(unsup("fmt.Fprintf")) }

	// ----- unicode
	for _, n := range []string{"unicode.Is", "unicode.is16", "unicode.is32"} {
		_ = n
	}
	t["unicode.Is"] = unicodeIs
	t["unicode/utf8.DecodeRuneInString"] = func(m *M, a []Value) (Value, bool) {
		if strLen(a[0]) == 0 {
			return tuple(Value{n: 0xFFFD}, iv(0)), true
		}
		r, w := m.decodeRune(a[0], 0)
		return tuple(r, iv(w)), true
	}
	t["unicode/utf8.DecodeRune"] = func(m *M, a []Value) (Value, bool) {
		b := sl(m, a[0])
		if len(b) == 0 {
			return tuple(Value{n: 0xFFFD}, iv(0)), true
		}
		if len(b) > 4 {
			b = b[:4]
		}
		r, w := m.decodeRune(mkStr(b), 0)
		return tuple(r, iv(w)), true
	}
	t["unicode/utf8.AppendRune"] = func(m *M, a []Value) (Value, bool) {
		return m.appendVals(m.p.byteTI, a[0], strBytes(m.runeToStr(a[1], true))), true
	}
	t["unicode/utf8.EncodeRune"] = func(m *M, a []Value) (Value, bool) {
		s := strBytes(m.runeToStr(a[1], true))
		if slcLen(a[0]) < len(s) {
			m.rtPanic("index out of range")
			return Value{}, false
		}
		for i, b := range s {
			m.set(slcObj(a[0]), slcOff(a[0])+i, b)
		}
		return iv(len(s)), true
	}

	// ----- sync
	t["(*sync.Mutex).Lock"] = func(m *M, a []Value) (Value, bool) { m.held++; m.lockState(a[0], 1); return Value{}, true }
	t["(*sync.Mutex).Unlock"] = func(m *M, a []Value) (Value, bool) { m.held--; m.lockState(a[0], 0); return Value{}, true }
	t["(*sync.Mutex).TryLock"] = func(m *M, a []Value) (Value, bool) { m.held++; m.lockState(a[0], 1); return bv(true), true }
	t["(*sync.RWMutex).Lock"] = t["(*sync.Mutex).Lock"]
	t["(*sync.RWMutex).Unlock"] = t["(*sync.Mutex).Unlock"]
	t["(*sync.RWMutex).RLock"] = func(m *M, a []Value) (Value, bool) { m.rheld(a[0], true); return Value{}, true }
	t["(*sync.RWMutex).RUnlock"] = func(m *M, a []Value) (Value, bool) { m.rheld(a[0], false); return Value{}, true }
	t["(*sync.Once).Do"] = func(m *M, a []Value) (Value, bool) {
		o := a[0].r.(*Obj)
		i := int(a[0].n)
		if m.rawGet(o, i).n != 0 {
			m.mon.onced(m, o, i, false, true)
			return Value{}, true
		}
		m.rawSet(o, i, Value{n: 1})
		m.mon.onced(m, o, i, true, true)
		return m.pushCall(a[1], nil, func(m *M, r Value) Value {
			m.mon.onced(m, o, i, true, false)
			m.mon.onced(m, o, i, false, true)
			return r
		})
	}
	t["(*sync.Pool).Get"] = poolGet
	t["(*sync.Pool).Put"] = poolPut
	smap := func(m *M, p Value) *MapObj {
		o := p.r.(*Obj)
		i := int(p.n)
		if mo, ok := o.slots[i].r.(*MapObj); ok {
			return mo
		}
		m.nobj++
		mo := &MapObj{idx: map[any]int{}, gen: m.gen, id: m.nobj, ti: m.p.anyMapTI, sync: true}
		m.rawSet(o, i, Value{r: mo})
		return mo
	}
	t["(*sync.Map).Load"] = func(m *M, a []Value) (Value, bool) {
		mo := smap(m, a[0])
		i := m.mapFind(mo, a[1])
		if i < 0 {
			return tuple(Value{}, bv(false)), true
		}
		return tuple(mo.ents[i].v, bv(true)), true
	}
	t["(*sync.Map).Store"] = func(m *M, a []Value) (Value, bool) {
		m.mon.publish(m, a[2])
		m.mapSet(smap(m, a[0]), a[1], a[2])
		return Value{}, true
	}
	t["(*sync.Map).LoadOrStore"] = func(m *M, a []Value) (Value, bool) {
		mo := smap(m, a[0])
		i := m.mapFind(mo, a[1])
		if i >= 0 {
			return tuple(mo.ents[i].v, bv(true)), true
		}
		m.mon.publish(m, a[2])
		m.mapSet(mo, a[1], a[2])
		return tuple(a[2], bv(false)), true
	}
	t["(*sync.Map).Delete"] = func(m *M, a []Value) (Value, bool) { m.mapDelete(smap(m, a[0]), a[1]); return Value{}, true }
	t["(*sync.Map).Range"] = func(m *M, a []Value) (Value, bool) { panic(unsup("sync.Map.Range")) }

	// ----- atomics
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		for _, p := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			t[p+"Load"+ty] = func(m *M, a []Value) (Value, bool) {
				m.atomic(a[0], false)
				return m.rawGet(a[0].r.(*Obj), int(a[0].n)), true
			}
			t[p+"Store"+ty] = func(m *M, a []Value) (Value, bool) {
				m.atomic(a[0], true)
				m.mon.publish(m, a[1])
				m.rawSet(a[0].r.(*Obj), int(a[0].n), a[1])
				return Value{}, true
			}
			t[p+"Swap"+ty] = func(m *M, a []Value) (Value, bool) {
				m.atomic(a[0], true)
				o := m.rawGet(a[0].r.(*Obj), int(a[0].n))
				m.mon.publish(m, a[1])
				m.rawSet(a[0].r.(*Obj), int(a[0].n), a[1])
				return o, true
			}
			t[p+"Add"+ty] = func(m *M, a []Value) (Value, bool) {
				m.atomic(a[0], true)
				o := m.rawGet(a[0].r.(*Obj), int(a[0].n))
				if o.r != nil || a[1].r != nil {
					panic(unsup("symbolic atomic add"))
				}
				v := Value{n: (o.n + a[1].n) & mask(w)}
				m.rawSet(a[0].r.(*Obj), int(a[0].n), v)
				return v, true
			}
			t[p+"CompareAndSwap"+ty] = func(m *M, a []Value) (Value, bool) {
				m.atomic(a[0], true)
				o := m.rawGet(a[0].r.(*Obj), int(a[0].n))
				if o.r == a[1].r && o.n == a[1].n {
					m.mon.publish(m, a[2])
					m.rawSet(a[0].r.(*Obj), int(a[0].n), a[2])
					return bv(true), true
				}
				return bv(false), true
			}
		}
	}
	t["(*sync/atomic.Value).Load"] = func(m *M, a []Value) (Value, bool) {
		m.atomic(a[0], false)
		return m.rawGet(a[0].r.(*Obj), int(a[0].n)), true
	}
	t["(*sync/atomic.Value).Store"] = func(m *M, a []Value) (Value, bool) {
		m.atomic(a[0], true)
		m.mon.publish(m, a[1])
		m.rawSet(a[0].r.(*Obj), int(a[0].n), a[1])
		return Value{}, true
	}
	// errors (reflectlite)
	t["internal/reflectlite.TypeOf"] = func(m *M, a []Value) (Value, bool) {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return Value{}, true
		}
		return m.rtypeIface(i.t), true
	}
	t["errors.Is"] = func(m *M, a []Value) (Value, bool) { panic(unsup("errors.Is")) }
	delete(t, "errors.Is")
	addReflect(t)
	addVsym(t)
	_ = bs{}
	return t
}

func (m *M) rawGet(o *Obj, i int) Value { return o.slots[i] }
func (m *M) rawSet(o *Obj, i int, v Value) {
	if o.gen != m.gen {
		m.trail = append(m.trail, trailEnt{o: o, i: int32(i), old: o.slots[i]})
	}
	o.slots[i] = v
}

func (m *M) atomic(p Value, write bool) {
	if m.mon != nil {
		m.mon.atomic(m, p.r.(*Obj), int(p.n), write)
	}
}

func (m *M) lockState(p Value, v uint64) {
	o, ok := p.r.(*Obj)
	if !ok {
		return
	}
	old := m.rawGet(o, int(p.n))
	if v == 1 && old.n == 1 && old.r == nil {
		m.report("deadlock: mutex locked twice")
	}
	m.rawSet(o, int(p.n), Value{n: v})
	if m.mon != nil {
		m.mon.lock(m, o, int(p.n), v == 1, true)
	}
}
func (m *M) rheld(p Value, on bool) {
	if o, ok := p.r.(*Obj); ok && m.mon != nil {
		m.mon.lock(m, o, int(p.n), on, false)
	}
}

func poolGet(m *M, a []Value) (Value, bool) {
	o := a[0].r.(*Obj)
	// the pool's free list lives in slot 0 (noCopy has no slots; first is local)
	ps, _ := m.rawGet(o, int(a[0].n)).r.([]Value)
	if n := len(ps); n > 0 {
		v := ps[n-1]
		m.rawSet(o, int(a[0].n), Value{r: ps[: n-1 : n-1]})
		return v, true
	}
	ti := m.p.poolTI
	for _, f := range ti.fields {
		if f.name == "New" {
			fn := o.slots[int(a[0].n)+f.off]
			if isNilRef(fn) {
				return Value{}, true
			}
			return m.pushCall(fn, nil, nil)
		}
	}
	return Value{}, true
}

// pooled is the object a pool's entry points to.
func pooled(v Value) *Obj {
	if i, ok := v.r.(*Iface); ok && i != nil {
		o, _ := i.v.r.(*Obj)
		return o
	}
	return nil
}

func poolPut(m *M, a []Value) (Value, bool) {
	if a[1].r == nil {
		return Value{}, true
	}
	o := a[0].r.(*Obj)
	ps, _ := m.rawGet(o, int(a[0].n)).r.([]Value)
	if m.mon != nil {
		for _, v := range ps {
			if p := pooled(v); p != nil && p == pooled(a[1]) {
				m.report("monitor: the same value put into a pool twice")
			}
		}
	}
	np := append(ps[:len(ps):len(ps)], a[1])
	m.rawSet(o, int(a[0].n), Value{r: np})
	m.mon.publishPool(m, a[1])
	return Value{}, true
}

func (m *M) fterm(v Value) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}
	return m.T.Const(wF64, v.n)
}

// formatInt: decimal text of a possibly symbolic integer; forks on sign and
// digit count, the digits stay symbolic.
func (m *M) formatInt(v Value, base int, signed bool) Value {
	t, ok := v.r.(*Term)
	if !ok {
		if signed {
			return sv(strconv.FormatInt(int64(v.n), base))
		}
		return sv(strconv.FormatUint(v.n, base))
	}
	if base != 10 {
		return m.fmtBase(t, uint64(base), signed)
	}
	T := m.T
	var out []Value
	if signed && m.decide(T.Slt(t, T.Const(64, 0))) {
		out = append(out, Value{n: '-'})
		t = T.Neg(t)
	}
	return mkStr(append(out, m.digits(t, 10)...))
}

func (m *M) fmtBase(t *Term, b uint64, signed bool) Value {
	var out []Value
	if signed && m.decide(m.T.Slt(t, m.T.Const(64, 0))) {
		out = append(out, Value{n: '-'})
		t = m.T.Neg(t)
	}
	return mkStr(append(out, m.digits(t, b)...))
}

func (m *M) digits(t *Term, b uint64) []Value {
	T := m.T
	n := 1
	p := b
	for {
		if m.decide(T.Ult(t, T.Const(64, p))) {
			break
		}
		n++
		if p > math.MaxUint64/b {
			break
		}
		p *= b
	}
	out := make([]Value, n)
	q := t
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if i == 0 {
			d = q
			if d.hi >= b {
				// known by the branch: top digit is a single digit
				d = T.URem(q, T.Const(64, b))
			}
		} else {
			d = T.URem(q, T.Const(64, b))
			q = T.UDiv(q, T.Const(64, b))
		}
		c := T.Extract(d, 0, 8)
		if b <= 10 {
			out[i] = tv(T.Add(c, T.Const(8, '0')))
		} else {
			out[i] = tv(T.Ite(T.Ult(c, T.Const(8, 10)), T.Add(c, T.Const(8, '0')), T.Add(c, T.Const(8, 'a'-10))))
		}
	}
	return out
}

// Symbolic floats are written as opaque tokens; parsing a token gives the
// float back (the documented contract of shortest formatting).
func (m *M) formatFloat(v Value, f byte, prec, bits int) Value {
	t, ok := v.r.(*Term)
	if !ok {
		return sv(strconv.FormatFloat(math.Float64frombits(v.n), f, prec, bits))
	}
	if prec != -1 {
		panic(unsup("symbolic FormatFloat with precision"))
	}
	T := m.T
	if m.decide(T.fop(OFIsNaN, 0, 0, t)) {
		return sv("NaN")
	}
	if m.decide(T.fop(OFEq, 0, 0, t, T.FConst(math.Inf(1)))) {
		return sv("+Inf")
	}
	if m.decide(T.fop(OFEq, 0, 0, t, T.FConst(math.Inf(-1)))) {
		return sv("-Inf")
	}
	key := fmt.Sprintf("7.%d%de77", bits, t.id+1000000)
	if m.ftok == nil {
		m.ftok = map[string]*Term{}
	}
	if bits == 32 {
		t = T.fop(OF32, wF64, 0, t)
	}
	m.ftok[key] = t
	return sv(key)
}

func (m *M) parseFloat(s Value, bits int) (Value, bool) {
	mk := func(err string) Value {
		return m.mkErr(sv("strconv.ParseFloat: " + err))
	}
	if c, ok := concStr(s); ok {
		if t := m.ftok[c]; t != nil {
			return tuple(tv(t), Value{}), true
		}
		f, err := strconv.ParseFloat(c, bits)
		if err != nil {
			return tuple(fv(f), mk(err.Error())), true
		}
		return tuple(fv(f), Value{}), true
	}
	// [sign] digits [. digits], value < 2^53, at most 15 fraction digits: strconv's
	// exact path, value = float64(mantissa) / 10^frac. Other syntax is an error
	// where a byte can be in no number at all; what is left is enumerated.
	b := strBytes(s)
	T := m.T
	is := func(x *Term, set string) *Term {
		c := T.False
		for i := 0; i < len(set); i++ {
			c = T.Or(c, T.Eq(x, T.Const(8, uint64(set[i]))))
		}
		return c
	}
	syntax := func() (Value, bool) { return tuple(fv(0), mk("invalid syntax")), true }
	each := func() (Value, bool) {
		for _, v := range b {
			if m.decide(T.Not(is(m.byteTerm(v), "+-eEpPxXiInNaAfFtTyYbBcCdD_0123456789."))) {
				return syntax()
			}
		}
		c := make([]byte, len(b))
		for i, v := range b {
			c[i] = byte(m.concretize(m.byteTerm(v)))
		}
		f, err := strconv.ParseFloat(string(c), bits)
		if err != nil {
			return tuple(fv(f), mk(err.Error())), true
		}
		return tuple(fv(f), Value{}), true
	}
	dot := -1
	mant := T.Const(64, 0)
	nd := 0
	frac := 0
	neg := false
	isD := func(x *Term) *Term { return T.And(T.Ule(T.Const(8, '0'), x), T.Ule(x, T.Const(8, '9'))) }
	for i, v := range b {
		x := m.byteTerm(v)
		if m.decide(isD(x)) {
			mant = T.Add(T.MulK(mant, 10), T.Zext(T.Sub(x, T.Const(8, '0')), 64))
			nd++
			if dot >= 0 {
				frac++
			}
			continue
		}
		if dot < 0 && m.decide(T.Eq(x, T.Const(8, '.'))) {
			dot = i
			continue
		}
		if i == 0 {
			if m.decide(T.Eq(x, T.Const(8, '-'))) {
				neg = true
				continue
			}
			if m.decide(T.Eq(x, T.Const(8, '+'))) {
				continue
			}
		}
		if m.decide(T.Not(is(x, "+-eEpPxXiInNaAfFtTyY_.bBcCdD"))) {
			return syntax()
		}
		if len(b) > 8 {
			panic(unsup("symbolic ParseFloat syntax"))
		}
		return each()
	}
	if nd == 0 {
		return syntax()
	}
	if nd > 15 || bits == 32 && nd > 7 {
		panic(unsup("symbolic ParseFloat with more than 15 digits"))
	}
	f := T.fop(OFFromU, wF64, 0, mant)
	if frac > 0 {
		f = T.fop(OFDiv, wF64, 0, f, T.FConst(math.Pow10(frac)))
	}
	if bits == 32 {
		f = T.fop(OF32, wF64, 0, f) // one more rounding of a quotient does no harm: 53 >= 2*24+2
	}
	if neg {
		f = T.fop(OFNeg, wF64, 0, f)
	}
	return tuple(tv(f), Value{}), true
}

func (m *M) ifaces(v Value) []Value { return append([]Value(nil), m.sliceVals(v, 1)...) }

// fmtArg formats one operand; symbolic or composite operands give an opaque
// marker except for %s/%v of strings and %d/%v of integers.
func (m *M) fmtArg(verb byte, x Value, flags string) Value {
	i, _ := x.r.(*Iface)
	if i == nil {
		return sv("<nil>")
	}
	switch i.t.kind {
	case KString:
		if verb == 's' || verb == 'v' {
			if m.tt.method(i.t, "String", nil) == nil && m.tt.method(i.t, "Error", nil) == nil {
				return i.v
			}
		}
		if s, ok := concStr(i.v); ok && verb == 'q' {
			return sv(strconv.Quote(s))
		}
	case KInt:
		if (verb == 'd' || verb == 'v') && flags == "" && m.tt.method(i.t, "String", nil) == nil {
			v := i.v
			if i.t.w < 64 {
				if t, ok := v.r.(*Term); ok {
					if i.t.signed {
						v = tv(m.T.Sext(t, 64))
					} else {
						v = tv(m.T.Zext(t, 64))
					}
				} else if i.t.signed {
					v = Value{n: uint64(sext(v.n, i.t.w))}
				}
			}
			return m.formatInt(v, 10, i.t.signed)
		}
		if i.v.r == nil && verb != 'v' && verb != 's' {
			f := "%" + flags + string(verb)
			if i.t.signed {
				return sv(fmt.Sprintf(f, sext(i.v.n, i.t.w)))
			}
			return sv(fmt.Sprintf(f, i.v.n))
		}
	case KBool:
		if i.v.r == nil {
			return sv(fmt.Sprint(i.v.n != 0))
		}
	case KFloat:
		if i.v.r == nil && flags == "" && (verb == 'v' || verb == 'g') {
			return sv(strconv.FormatFloat(math.Float64frombits(i.v.n), 'g', -1, 64))
		}
		if i.v.r == nil {
			return sv(fmt.Sprintf("%"+flags+string(verb), math.Float64frombits(i.v.n)))
		}
	}
	return sv("<" + i.t.String() + ">")
}

func (m *M) sprintf(f Value, args []Value) Value {
	s, ok := concStr(f)
	if !ok {
		return sv("<fmt>")
	}
	out := sv("")
	ai := 0
	for i := 0; i < len(s); {
		j := strings.IndexByte(s[i:], '%')
		if j < 0 {
			out = concat(out, sv(s[i:]))
			break
		}
		out = concat(out, sv(s[i:i+j]))
		i += j + 1
		k := i
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			break
		}
		flags, verb := s[i:k], s[k]
		i = k + 1
		if verb == '%' {
			out = concat(out, sv("%"))
			continue
		}
		if ai >= len(args) {
			out = concat(out, sv("%!"+string(verb)+"(MISSING)"))
			continue
		}
		out = concat(out, m.fmtArg(verb, args[ai], flags))
		ai++
	}
	return out
}

func fmtErrorf(m *M, a []Value) (Value, bool) {
	args := m.ifaces(a[1])
	s, _ := concStr(a[0])
	// error texts are stubbed: symbolic operands are not expanded
	msg := sv("error: " + s)
	if strings.Contains(s, "%w") {
		// find the wrapped operand
		n := 0
		for i := 0; i < len(s)-1; i++ {
			if s[i] == '%' {
				i++
				if s[i] == '%' {
					continue
				}
				for i < len(s)-1 && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
					i++
				}
				if s[i] == 'w' && n < len(args) {
					if m.p.wrapErrTI == nil {
						panic(unsup("wrapError"))
					}
					o := m.newObj(2, m.p.wrapErrTI)
					o.slots[0] = msg
					o.slots[1] = args[n]
					return Value{r: &Iface{m.p.wrapErrPtrTI, Value{r: o}}}, true
				}
				n++
			}
		}
	}
	return m.mkErr(msg), true
}

// unicodeIs: membership in a range table as a disjunction of intervals.
func unicodeIs(m *M, a []Value) (Value, bool) {
	// read the table from memory
	o := a[0].r.(*Obj)
	off := int(a[0].n)
	type rg struct{ lo, hi, st uint64 }
	var rs []rg
	for i, f := range m.p.rangeTabTI.fields {
		if i > 1 {
			break
		}
		s := o.slots[off+f.off]
		for _, x := range chunk(m.sliceVals(s, 3), 3) {
			rs = append(rs, rg{x[0].n, x[1].n, x[2].n})
		}
	}
	t, ok := a[1].r.(*Term)
	if !ok {
		r := uint64(uint32(a[1].n))
		for _, g := range rs {
			if r < g.lo {
				return bv(false), true
			}
			if r <= g.hi {
				return bv((r-g.lo)%g.st == 0), true
			}
		}
		return bv(false), true
	}
	T := m.T
	res := T.False
	for _, g := range rs {
		if g.hi < t.lo || g.lo > t.hi {
			continue
		}
		c := T.And(T.Ule(T.Const(32, g.lo), t), T.Ule(t, T.Const(32, g.hi)))
		if c == T.False {
			continue
		}
		if g.st != 1 {
			c = T.And(c, T.Eq(T.URem(T.Sub(t, T.Const(32, g.lo)), T.Const(32, g.st)), T.Const(32, 0)))
		}
		res = T.Or(res, c)
	}
	return tv(res), true
}

func chunk(v []Value, n int) [][]Value {
	var out [][]Value
	for i := 0; i+n <= len(v); i += n {
		out = append(out, v[i:i+n])
	}
	return out
}

var _ = unicode.MaxRune
