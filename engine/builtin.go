package main

import (
	"go/types"
)

func (m *M) sliceVals(v Value, es int) []Value {
	if v.r == nil {
		return nil
	}
	off, n := slcOff(v), slcLen(v)
	if m.mon != nil && m.mon.tracks(slcObj(v)) {
		m.mon.read(m, slcObj(v), off, n*es)
	}
	return slcObj(v).slots[off : off+n*es]
}

func (m *M) builtin(ci *CInstr, args []Value) (Value, bool) {
	switch ci.blt {
	case "len":
		switch ci.ti.kind {
		case KString:
			return iv(strLen(args[0])), true
		case KSlice:
			return iv(slcLen(args[0])), true
		case KMap:
			if mo, _ := args[0].r.(*MapObj); mo != nil {
				if m.mon != nil && m.mon.tracksM(mo) {
					m.mon.readMap(m, mo)
				}
				return iv(mo.nlive), true
			}
			return iv(0), true
		case KArray:
			return iv(ci.ti.alen), true
		case KPtr:
			return iv(ci.ti.elem.alen), true
		}
	case "cap":
		switch ci.ti.kind {
		case KSlice:
			return iv(slcCap(args[0])), true
		case KArray:
			return iv(ci.ti.alen), true
		case KPtr:
			return iv(ci.ti.elem.alen), true
		}
	case "append":
		var add []Value
		if len(args) == 1 {
			return args[0], true
		}
		if ci.ti2.kind == KString {
			add = strBytes(args[1])
		} else {
			add = m.sliceVals(args[1], ci.ti.elem.slots)
		}
		return m.appendVals(ci.ti.elem, args[0], add), true
	case "copy":
		var src []Value
		es := ci.ti.elem.slots
		if ci.ti2.kind == KString {
			src = strBytes(args[1])
		} else {
			src = m.sliceVals(args[1], es)
		}
		n := len(src)
		if d := slcLen(args[0]) * es; d < n {
			n = d
		}
		if n > 0 {
			o, off := slcObj(args[0]), slcOff(args[0])
			if ci.ti2.kind != KString && slcObj(args[1]) == o {
				src = append([]Value(nil), src...)
			}
			for i := 0; i < n; i++ {
				m.set(o, off+i, src[i])
			}
		}
		if es == 0 {
			return iv(min(slcLen(args[0]), slcLen(args[1]))), true
		}
		return iv(n / es), true
	case "delete":
		mo, _ := args[0].r.(*MapObj)
		m.mapDelete(mo, args[1])
		return Value{}, true
	case "clear":
		if ci.ti.kind == KMap {
			if mo, _ := args[0].r.(*MapObj); mo != nil {
				for i := range mo.ents {
					if !mo.dead[i] {
						m.mapDelete(mo, mo.ents[i].k)
					}
				}
			}
			return Value{}, true
		}
		if ci.ti.kind == KSlice && args[0].r != nil {
			z := make([]Value, ci.ti.elem.slots)
			zeroSlots(ci.ti.elem, z)
			o, off := slcObj(args[0]), slcOff(args[0])
			for i := 0; i < slcLen(args[0])*ci.ti.elem.slots; i++ {
				m.set(o, off+i, z[i%len(z)])
			}
		}
		return Value{}, true
	case "print", "println":
		return Value{}, true
	case "recover":
		f := m.top()
		// f is the frame calling recover; it must be a deferred call of a panicking frame
		if f.isDef && len(m.stack) >= 2 {
			g := m.stack[len(m.stack)-2]
			if g.pan != nil && !g.pan.recovered {
				p := *g.pan
				p.recovered = true
				if g.gen != m.gen {
					g = g.clone()
					g.gen = m.gen
					m.stack[len(m.stack)-2] = g
				}
				g.pan = &p
				return p.val, true
			}
		}
		return Value{}, true
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = m.minmax(ci.ti, r, a, ci.blt == "min")
		}
		return r, true
	case "ssa:wrapnilchk":
		if args[0].r == nil {
			m.rtPanic(nilDeref)
			return Value{}, false
		}
		return args[0], true
	case "String": // unsafe.String(ptr, len)
		n := int(m.cint(args[1]))
		if n == 0 {
			return Value{r: ""}, true
		}
		o := args[0].r.(*Obj)
		return mkStr(o.slots[args[0].n : int(args[0].n)+n]), true
	case "SliceData":
		if args[0].r == nil {
			return Value{}, true
		}
		return Value{r: args[0].r, n: uint64(slcOff(args[0]))}, true
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Value{}, true
		}
		o := m.newObj(len(b), m.p.byteTI)
		copy(o.slots, b)
		return Value{r: o}, true
	case "Slice": // unsafe.Slice(ptr, len)
		n := int(m.cint(args[1]))
		if args[0].r == nil {
			return Value{}, true
		}
		return mkSlice(args[0].r.(*Obj), int(args[0].n), n, n), true
	}
	panic(unsup("builtin %s on %v", ci.blt, ci.ti))
}

func (m *M) minmax(ti *TI, a, b Value, mn bool) Value {
	switch ti.kind {
	case KInt:
		x, y := m.toTerm(ti, a), m.toTerm(ti, b)
		var c *Term
		if ti.signed {
			c = m.T.Slt(y, x)
		} else {
			c = m.T.Ult(y, x)
		}
		if !c.isK() && ti.String() == "int" {
			c = m.T.Bool(m.decide(c))
		}
		if mn {
			return tv(m.T.Ite(c, y, x))
		}
		return tv(m.T.Ite(c, x, y))
	case KString:
		l := m.decide(m.strLess(b, a))
		if l == mn {
			return b
		}
		return a
	case KFloat:
		x, y := m.toTerm(ti, a), m.toTerm(ti, b)
		c := m.decide(m.T.fop(OFLt, 0, 0, y, x))
		if c == mn {
			return b
		}
		return a
	}
	panic(unsup("min/max %s", ti))
}

func growCap(old, need int) int {
	if old == 0 {
		if need < 8 {
			return need
		}
		return need
	}
	d := old * 2
	if old >= 256 {
		d = old + (old+768)/4
	}
	return max(d, need)
}

func (m *M) appendVals(e *TI, s Value, add []Value) Value {
	es := e.slots
	n := slcLen(s)
	k := 0
	if es > 0 {
		k = len(add) / es
	}
	if s.r != nil && n+k <= slcCap(s) {
		o, off := slcObj(s), slcOff(s)
		if k > 0 && cap(add) > 0 && len(o.slots) > 0 {
			// possible overlap with itself
			add = append([]Value(nil), add...)
		}
		for i := range add {
			m.set(o, off+n*es+i, add[i])
		}
		return mkSlice(o, off, n+k, slcCap(s))
	}
	if k == 0 {
		return s
	}
	c := growCap(slcCap(s), n+k)
	ns := m.makeSlice(e, n+k, c)
	o := ns.r.(*Obj)
	if s.r != nil {
		if m.mon != nil && m.mon.tracks(slcObj(s)) {
			m.mon.read(m, slcObj(s), slcOff(s), n*es)
		}
		copy(o.slots, slcObj(s).slots[slcOff(s):slcOff(s)+n*es])
	}
	copy(o.slots[n*es:], add)
	return ns
}

func (m *M) bytesSlice(b []Value) Value {
	o := m.newObj(len(b), m.p.byteTI)
	copy(o.slots, b)
	return mkSlice(o, 0, len(b), len(b))
}

func tuple(vs ...Value) Value { return Value{r: &Agg{vs}} }

// mkErr builds an error value of type *errors.errorString.
func (m *M) mkErr(msg Value) Value {
	o := m.newObj(1, m.p.errStrTI)
	o.slots[0] = msg
	return Value{r: &Iface{m.p.errStrPtrTI, Value{r: o}}}
}

func (m *M) runtimeErr(msg string) Value {
	return m.mkErr(Value{r: "runtime error: " + msg})
}

func (p *Prog) lookupType(pkg, name string) *TI {
	for _, x := range p.ssa.AllPackages() {
		if x.Pkg.Path() == pkg {
			if o := x.Pkg.Scope().Lookup(name); o != nil {
				return p.tt.Of(o.Type())
			}
		}
	}
	return nil
}

var _ = types.Identical
