package main

import (
	"go/types"
	"reflect"
	"sort"
)

// reflect.Value is represented by its register aggregate, slot 0 holding *RV.

type RV struct {
	ti   *TI
	o    *Obj
	off  int
	addr bool
	v    Value
	ro   bool
}

func (m *M) mkRV(rv *RV) Value {
	s := make([]Value, m.p.rvalTI.slots)
	if rv != nil {
		s[0] = Value{r: rv}
	}
	return Value{r: &Agg{s}}
}

func rvOf(v Value) *RV {
	a, _ := v.r.(*Agg)
	if a == nil || len(a.s) == 0 {
		return nil
	}
	r, _ := a.s[0].r.(*RV)
	return r
}

func (m *M) rvLoad(rv *RV) Value {
	if rv.o == nil {
		if rv.ti.isAgg() && rv.v.r == nil {
			return zeroOf(rv.ti)
		}
		return rv.v
	}
	if m.mon != nil && m.mon.tracks(rv.o) {
		m.mon.read(m, rv.o, rv.off, rv.ti.slots)
	}
	return fromSlots(rv.ti, rv.o.slots[rv.off:rv.off+rv.ti.slots])
}

func (m *M) rtypeIface(ti *TI) Value {
	return Value{r: &Iface{m.p.rtypePtrTI, Value{r: ti}}}
}

func typeArg(v Value) *TI {
	switch x := v.r.(type) {
	case *TI:
		return x
	case *Iface:
		if x == nil {
			return nil
		}
		t, _ := x.v.r.(*TI)
		return t
	}
	return nil
}

func rkind(ti *TI) reflect.Kind {
	switch ti.kind {
	case KBool:
		return reflect.Bool
	case KString:
		return reflect.String
	case KPtr:
		return reflect.Pointer
	case KUnsafe:
		return reflect.UnsafePointer
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	case KFunc:
		return reflect.Func
	case KIface:
		return reflect.Interface
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	}
	if b, ok := ti.u.(*types.Basic); ok {
		switch b.Kind() {
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		}
	}
	return reflect.Invalid
}

func tiBits(ti *TI) int {
	if ti.f32 {
		return 32
	}
	if ti.kind == KFloat {
		return 64
	}
	return int(ti.w)
}

func tiName(ti *TI) string {
	switch t := types.Unalias(ti.t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func tiPkgPath(ti *TI) string {
	if t, ok := types.Unalias(ti.t).(*types.Named); ok && t.Obj().Pkg() != nil {
		return t.Obj().Pkg().Path()
	}
	return ""
}

func typeString(ti *TI) string {
	return types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
}

type reflPanic struct{ msg string }

func (m *M) rvNeed(v Value, op string) *RV {
	rv := rvOf(v)
	if rv == nil {
		panic(reflPanic{"reflect: call of reflect.Value." + op + " on zero Value"})
	}
	return rv
}

func (m *M) rvField(rv *RV, i int) *RV {
	if rv.ti.kind != KStruct {
		panic(reflPanic{"reflect: call of reflect.Value.Field on " + rv.ti.String() + " Value"})
	}
	if i < 0 || i >= len(rv.ti.fields) {
		panic(reflPanic{"reflect: Field index out of range"})
	}
	f := &rv.ti.fields[i]
	ro := rv.ro || !f.exported
	if rv.o != nil {
		return &RV{ti: f.ti, o: rv.o, off: rv.off + f.off, addr: rv.addr, ro: ro}
	}
	a := m.rvLoad(rv).r.(*Agg)
	return &RV{ti: f.ti, v: fromSlots(f.ti, a.s[f.off:f.off+f.ti.slots]), ro: ro}
}

func (m *M) rvElem(rv *RV) *RV {
	switch rv.ti.kind {
	case KIface:
		i, _ := m.rvLoad(rv).r.(*Iface)
		if i == nil {
			return nil
		}
		return &RV{ti: i.t, v: i.v, ro: rv.ro}
	case KPtr:
		p := m.rvLoad(rv)
		if p.r == nil {
			return nil
		}
		o, ok := p.r.(*Obj)
		if !ok {
			panic(unsup("reflect Elem through %T", p.r))
		}
		return &RV{ti: rv.ti.elem, o: o, off: int(p.n), addr: true, ro: rv.ro}
	}
	panic(reflPanic{"reflect: call of reflect.Value.Elem on " + rv.ti.String() + " Value"})
}

func (m *M) rvSet(rv *RV, x Value) {
	if !rv.addr || rv.o == nil {
		panic(reflPanic{"reflect: reflect.Value.Set using unaddressable value"})
	}
	if rv.ro {
		panic(reflPanic{"reflect: reflect.Value.Set using value obtained using unexported field"})
	}
	m.storeTI(rv.o, rv.off, rv.ti, x)
}

func (m *M) structField(ti *TI, i int, index []int) Value {
	f := &ti.fields[i]
	st := m.p.sfieldTI
	s := make([]Value, st.slots)
	zeroSlots(st, s)
	for _, sf := range st.fields {
		switch sf.name {
		case "Name":
			s[sf.off] = sv(f.name)
		case "PkgPath":
			s[sf.off] = sv(f.pkgPath)
		case "Type":
			s[sf.off] = m.rtypeIface(f.ti)
		case "Tag":
			s[sf.off] = sv(f.tag)
		case "Index":
			o := m.newObj(len(index), m.p.int64TI)
			for k, x := range index {
				o.slots[k] = iv(x)
			}
			s[sf.off] = mkSlice(o, 0, len(index), len(index))
		case "Anonymous":
			s[sf.off] = bv(f.embedded)
		}
	}
	return Value{r: &Agg{s}}
}

func (m *M) isZero(ti *TI, v Value) *Term {
	T := m.T
	switch ti.kind {
	case KBool:
		return T.Not(m.toTerm(ti, v))
	case KInt:
		return T.Eq(m.toTerm(ti, v), T.Const(ti.w, 0))
	case KFloat:
		t := m.toTerm(ti, v)
		if t.op == OFFromBits {
			return T.Eq(t.args[0], T.Const(64, 0))
		}
		return T.Eq(T.fop(OFToBits, 64, 0, t), T.Const(64, 0))
	case KString:
		return T.Bool(strLen(v) == 0)
	case KStruct:
		r := T.True
		s := v.r.(*Agg).s
		for i := range ti.fields {
			f := &ti.fields[i]
			r = T.And(r, m.isZero(f.ti, fromSlots(f.ti, s[f.off:f.off+f.ti.slots])))
		}
		return r
	case KArray:
		r := T.True
		s := v.r.(*Agg).s
		for i := 0; i < ti.alen; i++ {
			r = T.And(r, m.isZero(ti.elem, fromSlots(ti.elem, s[i*ti.elem.slots:(i+1)*ti.elem.slots])))
		}
		return r
	case KSlice:
		return T.Bool(v.r == nil)
	}
	return T.Bool(isNilRef(v) && v.n == 0)
}

// deepEq follows reflect.DeepEqual and yields one formula.
func (m *M) deepEq(ti *TI, a, b Value, seen map[[2]any]bool) *Term {
	T := m.T
	switch ti.kind {
	case KBool, KInt, KFloat, KString:
		return m.eq(ti, a, b, nil)
	case KPtr:
		if a.r == b.r && a.n == b.n {
			return T.True
		}
		if a.r == nil || b.r == nil {
			return T.False
		}
		x, ok1 := a.r.(*Obj)
		y, ok2 := b.r.(*Obj)
		if !ok1 || !ok2 {
			return T.False
		}
		key := [2]any{[2]any{x, a.n}, [2]any{y, b.n}}
		if seen[key] {
			return T.True
		}
		seen[key] = true
		return m.deepEq(ti.elem, fromSlots(ti.elem, x.slots[a.n:int(a.n)+ti.elem.slots]), fromSlots(ti.elem, y.slots[b.n:int(b.n)+ti.elem.slots]), seen)
	case KSlice:
		if (a.r == nil) != (b.r == nil) || slcLen(a) != slcLen(b) {
			return T.False
		}
		es := ti.elem.slots
		x, y := m.sliceVals(a, es), m.sliceVals(b, es)
		r := T.True
		for i := 0; i < slcLen(a); i++ {
			r = T.And(r, m.deepEq(ti.elem, fromSlots(ti.elem, x[i*es:(i+1)*es]), fromSlots(ti.elem, y[i*es:(i+1)*es]), seen))
			if r == T.False {
				return r
			}
		}
		return r
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return T.Bool(x == y)
		}
		if x.t != y.t {
			return T.False
		}
		return m.deepEq(x.t, x.v, y.v, seen)
	case KStruct:
		p, q := a.r.(*Agg).s, b.r.(*Agg).s
		r := T.True
		for i := range ti.fields {
			f := &ti.fields[i]
			r = T.And(r, m.deepEq(f.ti, fromSlots(f.ti, p[f.off:f.off+f.ti.slots]), fromSlots(f.ti, q[f.off:f.off+f.ti.slots]), seen))
			if r == T.False {
				return r
			}
		}
		return r
	case KArray:
		p, q := a.r.(*Agg).s, b.r.(*Agg).s
		es := ti.elem.slots
		r := T.True
		for i := 0; i < ti.alen; i++ {
			r = T.And(r, m.deepEq(ti.elem, fromSlots(ti.elem, p[i*es:(i+1)*es]), fromSlots(ti.elem, q[i*es:(i+1)*es]), seen))
		}
		return r
	case KFunc:
		return T.Bool(isNilRef(a) && isNilRef(b))
	}
	panic(unsup("DeepEqual of %s", ti))
}

func addReflect(t map[string]Intrinsic) {
	// reg wraps an intrinsic so that reflect panics become Go panics.
	reg := func(name string, f func(m *M, a []Value) Value) {
		t[name] = func(m *M, a []Value) (v Value, ok bool) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if p, is := r.(reflPanic); is {
							v = Value{r: p}
							return
						}
						panic(r)
					}
				}()
				v, ok = f(m, a), true
			}()
			if !ok {
				p := v.r.(reflPanic)
				m.startPanic(&Panic{val: m.mkErr(sv(p.msg)), msg: p.msg, runtime: true})
				return Value{}, false
			}
			return v, true
		}
	}
	V := func(name string, f func(m *M, rv *RV, a []Value) Value) {
		reg("(reflect.Value)."+name, func(m *M, a []Value) Value { return f(m, m.rvNeed(a[0], name), a[1:]) })
	}
	Ty := func(name string, f func(m *M, ti *TI, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(m *M, a []Value) Value { return f(m, typeArg(a[0]), a[1:]) })
	}

	reg("reflect.ValueOf", func(m *M, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return m.mkRV(nil)
		}
		return m.mkRV(&RV{ti: i.t, v: i.v})
	})
	reg("reflect.TypeOf", func(m *M, a []Value) Value {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return Value{}
		}
		return m.rtypeIface(i.t)
	})
	reg("reflect.DeepEqual", func(m *M, a []Value) Value {
		return tv(m.deepEq(m.p.anyTI, a[0], a[1], map[[2]any]bool{}))
	})
	reg("reflect.New", func(m *M, a []Value) Value {
		ti := typeArg(a[0])
		return m.mkRV(&RV{ti: m.tt.PtrTo(ti), v: Value{r: m.alloc(ti)}})
	})
	reg("reflect.Zero", func(m *M, a []Value) Value {
		ti := typeArg(a[0])
		return m.mkRV(&RV{ti: ti, v: zeroOf(ti)})
	})
	reg("reflect.Indirect", func(m *M, a []Value) Value {
		rv := rvOf(a[0])
		if rv == nil || rv.ti.kind != KPtr {
			return a[0]
		}
		return m.mkRV(m.rvElem(rv))
	})
	mkmap := func(m *M, a []Value) Value {
		m.nobj++
		ti := typeArg(a[0])
		return m.mkRV(&RV{ti: ti, v: Value{r: &MapObj{idx: map[any]int{}, gen: m.gen, id: m.nobj, ti: ti}}})
	}
	reg("reflect.MakeMap", mkmap)
	reg("reflect.MakeMapWithSize", mkmap)
	reg("reflect.MakeSlice", func(m *M, a []Value) Value {
		ti := typeArg(a[0])
		return m.mkRV(&RV{ti: ti, v: m.makeSlice(ti.elem, int(m.cint(a[1])), int(m.cint(a[2])))})
	})
	reg("reflect.PointerTo", func(m *M, a []Value) Value { return m.rtypeIface(m.tt.PtrTo(typeArg(a[0]))) })
	t["reflect.PtrTo"] = t["reflect.PointerTo"]
	reg("reflect.SliceOf", func(m *M, a []Value) Value { return m.rtypeIface(m.tt.SliceOf(typeArg(a[0]))) })
	reg("reflect.ArrayOf", func(m *M, a []Value) Value {
		return m.rtypeIface(m.tt.Of(types.NewArray(typeArg(a[1]).t, int64(m.cint(a[0])))))
	})
	reg("reflect.Copy", func(m *M, a []Value) Value {
		d, s := m.rvNeed(a[0], "Copy"), m.rvNeed(a[1], "Copy")
		var src []Value
		var n int
		if s.ti.kind == KString {
			src = strBytes(m.rvLoad(s))
			n = len(src)
		} else if s.ti.kind == KArray {
			src = m.rvLoad(s).r.(*Agg).s
			n = s.ti.alen
		} else {
			sl := m.rvLoad(s)
			src = append([]Value(nil), m.sliceVals(sl, s.ti.elem.slots)...)
			n = slcLen(sl)
		}
		var o *Obj
		var off, dn int
		if d.ti.kind == KArray {
			o, off, dn = d.o, d.off, d.ti.alen
		} else {
			sl := m.rvLoad(d)
			o, off, dn = slcObj(sl), slcOff(sl), slcLen(sl)
		}
		n = min(n, dn)
		for i := 0; i < n*d.ti.elem.slots; i++ {
			m.set(o, off+i, src[i])
		}
		return iv(n)
	})
	reg("reflect.Append", func(m *M, a []Value) Value {
		s := m.rvNeed(a[0], "Append")
		cur := m.rvLoad(s)
		for _, x := range chunk(m.sliceVals(a[1], m.p.rvalTI.slots), m.p.rvalTI.slots) {
			e := m.rvAssign(s.ti.elem, x[0].r.(*RV))
			sl := make([]Value, s.ti.elem.slots)
			flatInto(s.ti.elem, e, sl)
			cur = m.appendVals(s.ti.elem, cur, sl)
		}
		return m.mkRV(&RV{ti: s.ti, v: cur})
	})

	// --- Value
	reg("(reflect.Value).IsValid", func(m *M, a []Value) Value { return bv(rvOf(a[0]) != nil) })
	reg("(reflect.Value).Kind", func(m *M, a []Value) Value {
		rv := rvOf(a[0])
		if rv == nil {
			return Value{}
		}
		return Value{n: uint64(rkind(rv.ti))}
	})
	reg("(reflect.Value).CanSet", func(m *M, a []Value) Value {
		rv := rvOf(a[0])
		return bv(rv != nil && rv.addr && !rv.ro)
	})
	reg("(reflect.Value).CanAddr", func(m *M, a []Value) Value {
		rv := rvOf(a[0])
		return bv(rv != nil && rv.addr)
	})
	V("CanInterface", func(m *M, rv *RV, a []Value) Value { return bv(!rv.ro) })
	V("Type", func(m *M, rv *RV, a []Value) Value { return m.rtypeIface(rv.ti) })
	V("Elem", func(m *M, rv *RV, a []Value) Value { return m.mkRV(m.rvElem(rv)) })
	V("NumField", func(m *M, rv *RV, a []Value) Value { return iv(len(rv.ti.fields)) })
	V("Field", func(m *M, rv *RV, a []Value) Value { return m.mkRV(m.rvField(rv, int(int64(m.cint(a[0]))))) })
	V("FieldByIndex", func(m *M, rv *RV, a []Value) Value {
		for k, x := range m.sliceVals(a[0], 1) {
			if k > 0 && rv.ti.kind == KPtr && rv.ti.elem.kind == KStruct {
				rv = m.rvElem(rv)
				if rv == nil {
					panic(reflPanic{"reflect: indirection through nil pointer to embedded struct"})
				}
			}
			rv = m.rvField(rv, int(x.n))
		}
		return m.mkRV(rv)
	})
	V("FieldByName", func(m *M, rv *RV, a []Value) Value {
		s, _ := concStr(a[0])
		for i := range rv.ti.fields {
			if rv.ti.fields[i].name == s {
				return m.mkRV(m.rvField(rv, i))
			}
		}
		return m.mkRV(nil)
	})
	V("Len", func(m *M, rv *RV, a []Value) Value {
		v := m.rvLoad(rv)
		switch rv.ti.kind {
		case KSlice:
			return iv(slcLen(v))
		case KString:
			return iv(strLen(v))
		case KArray:
			return iv(rv.ti.alen)
		case KMap:
			if mo, _ := v.r.(*MapObj); mo != nil {
				return iv(mo.nlive)
			}
			return iv(0)
		}
		panic(reflPanic{"reflect: call of reflect.Value.Len on " + rv.ti.String() + " Value"})
	})
	V("Cap", func(m *M, rv *RV, a []Value) Value {
		if rv.ti.kind == KArray {
			return iv(rv.ti.alen)
		}
		return iv(slcCap(m.rvLoad(rv)))
	})
	V("Index", func(m *M, rv *RV, a []Value) Value {
		i := int(int64(m.cint(a[0])))
		bad := reflPanic{"reflect: index out of range"}
		switch rv.ti.kind {
		case KSlice:
			v := m.rvLoad(rv)
			if i < 0 || i >= slcLen(v) {
				panic(bad)
			}
			e := rv.ti.elem
			return m.mkRV(&RV{ti: e, o: slcObj(v), off: slcOff(v) + i*e.slots, addr: true, ro: rv.ro})
		case KArray:
			if i < 0 || i >= rv.ti.alen {
				panic(bad)
			}
			e := rv.ti.elem
			if rv.o != nil {
				return m.mkRV(&RV{ti: e, o: rv.o, off: rv.off + i*e.slots, addr: rv.addr, ro: rv.ro})
			}
			s := m.rvLoad(rv).r.(*Agg).s
			return m.mkRV(&RV{ti: e, v: fromSlots(e, s[i*e.slots:(i+1)*e.slots]), ro: rv.ro})
		case KString:
			v := m.rvLoad(rv)
			if i < 0 || i >= strLen(v) {
				panic(bad)
			}
			return m.mkRV(&RV{ti: m.p.byteTI, v: strByte(v, i), ro: rv.ro})
		}
		panic(reflPanic{"reflect: call of reflect.Value.Index on " + rv.ti.String() + " Value"})
	})
	V("IsNil", func(m *M, rv *RV, a []Value) Value {
		v := m.rvLoad(rv)
		switch rv.ti.kind {
		case KSlice, KPtr, KUnsafe, KChan:
			return bv(v.r == nil)
		case KMap, KFunc:
			return bv(isNilRef(v))
		case KIface:
			i, _ := v.r.(*Iface)
			return bv(i == nil)
		}
		panic(reflPanic{"reflect: call of reflect.Value.IsNil on " + rv.ti.String() + " Value"})
	})
	V("IsZero", func(m *M, rv *RV, a []Value) Value { return tv(m.isZero(rv.ti, m.rvLoad(rv))) })
	V("Addr", func(m *M, rv *RV, a []Value) Value {
		if !rv.addr {
			panic(reflPanic{"reflect.Value.Addr of unaddressable value"})
		}
		return m.mkRV(&RV{ti: m.tt.PtrTo(rv.ti), v: Value{r: rv.o, n: uint64(rv.off)}, ro: rv.ro})
	})
	V("Interface", func(m *M, rv *RV, a []Value) Value {
		if rv.ro {
			panic(reflPanic{"reflect.Value.Interface: cannot return value obtained from unexported field or method"})
		}
		v := m.rvLoad(rv)
		if rv.ti.kind == KIface {
			return v
		}
		return Value{r: &Iface{rv.ti, v}}
	})
	reg("reflect.TypeAssert", func(m *M, a []Value) Value { panic(unsup("reflect.TypeAssert")) })
	kindCheck := func(rv *RV, op string, ks ...Kind) {
		for _, k := range ks {
			if rv.ti.kind == k {
				return
			}
		}
		panic(reflPanic{"reflect: call of reflect.Value." + op + " on " + rv.ti.String() + " Value"})
	}
	V("Bool", func(m *M, rv *RV, a []Value) Value { kindCheck(rv, "Bool", KBool); return m.rvLoad(rv) })
	V("Int", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "Int", KInt)
		if !rv.ti.signed {
			panic(reflPanic{"reflect: call of reflect.Value.Int on " + rv.ti.String() + " Value"})
		}
		return m.convert(rv.ti, m.p.int64TI, m.rvLoad(rv))
	})
	V("Uint", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "Uint", KInt)
		if rv.ti.signed {
			panic(reflPanic{"reflect: call of reflect.Value.Uint on " + rv.ti.String() + " Value"})
		}
		return m.convert(rv.ti, m.p.uint64TI, m.rvLoad(rv))
	})
	V("Float", func(m *M, rv *RV, a []Value) Value { kindCheck(rv, "Float", KFloat); return m.rvLoad(rv) })
	V("String", func(m *M, rv *RV, a []Value) Value {
		if rv.ti.kind != KString {
			return sv("<" + typeString(rv.ti) + " Value>")
		}
		return m.rvLoad(rv)
	})
	V("Bytes", func(m *M, rv *RV, a []Value) Value {
		v := m.rvLoad(rv)
		if rv.ti.kind == KArray {
			if !rv.addr {
				panic(reflPanic{"reflect.Value.Bytes of unaddressable byte array"})
			}
			return mkSlice(rv.o, rv.off, rv.ti.alen, rv.ti.alen)
		}
		kindCheck(rv, "Bytes", KSlice)
		return v
	})
	V("NumMethod", func(m *M, rv *RV, a []Value) Value { return iv(numMethod(m, rv.ti)) })
	V("Pointer", func(m *M, rv *RV, a []Value) Value {
		v := m.rvLoad(rv)
		if v.r == nil {
			return Value{}
		}
		switch o := v.r.(type) {
		case *Obj:
			if rv.ti.kind == KPtr && rv.ti.elem.slots == 0 {
				return Value{n: 0xc000000000} // all zero-size objects share an address
			}
			return Value{n: 0xc100000000 + uint64(o.id)<<24 + v.n*8}
		case *MapObj:
			return Value{n: 0xc100000000 + uint64(o.id)<<24}
		}
		panic(unsup("reflect Pointer of %T", v.r))
	})
	t["(reflect.Value).UnsafePointer"] = t["(reflect.Value).Pointer"]
	V("Set", func(m *M, rv *RV, a []Value) Value {
		x := m.rvNeed(a[0], "Set")
		if x.ro {
			panic(reflPanic{"reflect: reflect.Set using value obtained using unexported field"})
		}
		m.rvSet(rv, m.rvAssign(rv.ti, x))
		return Value{}
	})
	V("SetZero", func(m *M, rv *RV, a []Value) Value { m.rvSet(rv, zeroOf(rv.ti)); return Value{} })
	V("SetBool", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetBool", KBool)
		m.rvSet(rv, a[0])
		return Value{}
	})
	V("SetInt", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetInt", KInt)
		m.rvSet(rv, m.convert(m.p.int64TI, rv.ti, a[0]))
		return Value{}
	})
	V("SetUint", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetUint", KInt)
		m.rvSet(rv, m.convert(m.p.uint64TI, rv.ti, a[0]))
		return Value{}
	})
	V("SetFloat", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetFloat", KFloat)
		m.rvSet(rv, m.convert(m.p.floatTI, rv.ti, a[0]))
		return Value{}
	})
	V("SetString", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetString", KString)
		m.rvSet(rv, a[0])
		return Value{}
	})
	V("SetBytes", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetBytes", KSlice)
		m.rvSet(rv, a[0])
		return Value{}
	})
	V("SetLen", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetLen", KSlice)
		v := m.rvLoad(rv)
		n := int(int64(m.cint(a[0])))
		if n < 0 || n > slcCap(v) {
			panic(reflPanic{"reflect: slice length out of range in SetLen"})
		}
		if v.r == nil {
			return Value{}
		}
		m.rvSet(rv, mkSlice(slcObj(v), slcOff(v), n, slcCap(v)))
		return Value{}
	})
	V("SetCap", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "SetCap", KSlice)
		v := m.rvLoad(rv)
		n := int(int64(m.cint(a[0])))
		if n < slcLen(v) || n > slcCap(v) {
			panic(reflPanic{"reflect: slice capacity out of range in SetCap"})
		}
		m.rvSet(rv, mkSlice(slcObj(v), slcOff(v), slcLen(v), n))
		return Value{}
	})
	V("Grow", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "Grow", KSlice)
		v := m.rvLoad(rv)
		n := int(int64(m.cint(a[0])))
		if n < 0 {
			panic(reflPanic{"reflect.Value.Grow: negative len"})
		}
		if slcLen(v)+n > slcCap(v) {
			e := rv.ti.elem
			c := growCap(slcCap(v), slcLen(v)+n)
			ns := m.makeSlice(e, slcLen(v), c)
			if v.r != nil {
				copy(ns.r.(*Obj).slots, slcObj(v).slots[slcOff(v):slcOff(v)+slcLen(v)*e.slots])
			}
			m.rvSet(rv, ns)
		}
		return Value{}
	})
	V("Slice", func(m *M, rv *RV, a []Value) Value {
		kindCheck(rv, "Slice", KSlice, KString)
		v := m.rvLoad(rv)
		i, j := int(int64(m.cint(a[0]))), int(int64(m.cint(a[1])))
		if rv.ti.kind == KString {
			if i < 0 || j < i || j > strLen(v) {
				panic(reflPanic{"reflect.Value.Slice: string slice index out of bounds"})
			}
			return m.mkRV(&RV{ti: rv.ti, v: subStr(v, i, j)})
		}
		if i < 0 || j < i || j > slcCap(v) {
			panic(reflPanic{"reflect.Value.Slice: slice index out of bounds"})
		}
		if v.r == nil {
			return m.mkRV(&RV{ti: rv.ti})
		}
		return m.mkRV(&RV{ti: rv.ti, v: mkSlice(slcObj(v), slcOff(v)+i*rv.ti.elem.slots, j-i, slcCap(v)-i)})
	})
	V("MapIndex", func(m *M, rv *RV, a []Value) Value {
		mo, _ := m.rvLoad(rv).r.(*MapObj)
		v, ok := m.mapGet(mo, rv.ti, m.rvLoad(m.rvNeed(a[0], "MapIndex")))
		if !ok {
			return m.mkRV(nil)
		}
		return m.mkRV(&RV{ti: rv.ti.elem, v: v})
	})
	V("SetMapIndex", func(m *M, rv *RV, a []Value) Value {
		mo, _ := m.rvLoad(rv).r.(*MapObj)
		m.mapSet(mo, m.rvAssign(rv.ti.key, m.rvNeed(a[0], "SetMapIndex")), m.rvAssign(rv.ti.elem, m.rvNeed(a[1], "SetMapIndex")))
		return Value{}
	})
	V("MapRange", func(m *M, rv *RV, a []Value) Value { panic(unsup("reflect MapRange")) })
	V("Convert", func(m *M, rv *RV, a []Value) Value {
		to := typeArg(a[0])
		v := m.rvLoad(rv)
		if to.kind == KIface {
			return m.mkRV(&RV{ti: to, v: m.rvAssign(to, rv)})
		}
		return m.mkRV(&RV{ti: to, v: m.convert(rv.ti, to, v)})
	})
	V("OverflowInt", func(m *M, rv *RV, a []Value) Value {
		t := m.toTerm(m.p.int64TI, a[0])
		if rv.ti.w >= 64 {
			return bv(false)
		}
		return tv(m.T.Not(m.T.Eq(m.T.Sext(m.T.Extract(t, 0, rv.ti.w), 64), t)))
	})
	V("OverflowUint", func(m *M, rv *RV, a []Value) Value {
		t := m.toTerm(m.p.uint64TI, a[0])
		if rv.ti.w >= 64 {
			return bv(false)
		}
		return tv(m.T.Not(m.T.Ule(t, m.T.Const(64, mask(rv.ti.w)))))
	})

	// --- Type
	Ty("Kind", func(m *M, ti *TI, a []Value) Value { return Value{n: uint64(rkind(ti))} })
	Ty("Elem", func(m *M, ti *TI, a []Value) Value {
		if ti.elem == nil {
			panic(reflPanic{"reflect: Elem of invalid type " + ti.String()})
		}
		return m.rtypeIface(ti.elem)
	})
	Ty("Key", func(m *M, ti *TI, a []Value) Value { return m.rtypeIface(ti.key) })
	Ty("Len", func(m *M, ti *TI, a []Value) Value { return iv(ti.alen) })
	Ty("NumField", func(m *M, ti *TI, a []Value) Value {
		if ti.kind != KStruct {
			panic(reflPanic{"reflect: NumField of non-struct type " + ti.String()})
		}
		return iv(len(ti.fields))
	})
	Ty("Field", func(m *M, ti *TI, a []Value) Value {
		i := int(int64(m.cint(a[0])))
		if ti.kind != KStruct || i < 0 || i >= len(ti.fields) {
			panic(reflPanic{"reflect: Field of non-struct type or out of bounds"})
		}
		return m.structField(ti, i, []int{i})
	})
	Ty("FieldByName", func(m *M, ti *TI, a []Value) Value {
		s, _ := concStr(a[0])
		for i := range ti.fields {
			if ti.fields[i].name == s {
				return tuple(m.structField(ti, i, []int{i}), bv(true))
			}
		}
		return tuple(zeroOf(m.p.sfieldTI), bv(false))
	})
	Ty("Name", func(m *M, ti *TI, a []Value) Value { return sv(tiName(ti)) })
	Ty("PkgPath", func(m *M, ti *TI, a []Value) Value { return sv(tiPkgPath(ti)) })
	Ty("String", func(m *M, ti *TI, a []Value) Value { return sv(typeString(ti)) })
	Ty("Bits", func(m *M, ti *TI, a []Value) Value { return iv(tiBits(ti)) })
	Ty("Size", func(m *M, ti *TI, a []Value) Value {
		return iv(int(m.p.sizes.Sizeof(ti.t)))
	})
	Ty("NumMethod", func(m *M, ti *TI, a []Value) Value { return iv(numMethod(m, ti)) })
	Ty("Comparable", func(m *M, ti *TI, a []Value) Value { return bv(types.Comparable(ti.t)) })
	Ty("Implements", func(m *M, ti *TI, a []Value) Value { return bv(m.tt.implements(ti, typeArg(a[0]))) })
	Ty("AssignableTo", func(m *M, ti *TI, a []Value) Value { return bv(types.AssignableTo(ti.t, typeArg(a[0]).t)) })
	Ty("ConvertibleTo", func(m *M, ti *TI, a []Value) Value { return bv(types.ConvertibleTo(ti.t, typeArg(a[0]).t)) })
	// internal/reflectlite types share the representation
	for _, n := range []string{"Elem", "Kind", "Implements", "AssignableTo", "Comparable", "Name", "String", "PkgPath"} {
		t["(internal/reflectlite.rtype)."+n] = t["(*reflect.rtype)."+n]
	}
	reg("(reflect.StructTag).Lookup", func(m *M, a []Value) Value {
		s, ok1 := concStr(a[0])
		k, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			panic(unsup("symbolic struct tag"))
		}
		v, ok := reflect.StructTag(s).Lookup(k)
		return tuple(sv(v), bv(ok))
	})
	reg("(reflect.StructTag).Get", func(m *M, a []Value) Value {
		s, ok1 := concStr(a[0])
		k, ok2 := concStr(a[1])
		if !ok1 || !ok2 {
			panic(unsup("symbolic struct tag"))
		}
		return sv(reflect.StructTag(s).Get(k))
	})
	for _, n := range []string{"Type", "Kind", "IsNil", "Elem", "Set", "IsValid", "Len"} {
		t["(internal/reflectlite.Value)."+n] = t["(reflect.Value)."+n]
	}
	t["internal/reflectlite.ValueOf"] = t["reflect.ValueOf"]
}

func numMethod(m *M, ti *TI) int {
	if it, ok := ti.u.(*types.Interface); ok {
		return it.NumMethods()
	}
	ms := m.tt.prog.MethodSets.MethodSet(ti.t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

// rvAssign converts x to the register form of type ti for assignment.
func (m *M) rvAssign(ti *TI, x *RV) Value {
	v := m.rvLoad(x)
	if ti == x.ti {
		return v
	}
	if ti.kind == KIface {
		if x.ti.kind == KIface {
			return v
		}
		if !m.tt.implements(x.ti, ti) {
			panic(reflPanic{"reflect.Set: value of type " + x.ti.String() + " is not assignable to type " + ti.String()})
		}
		return Value{r: &Iface{x.ti, v}}
	}
	if types.AssignableTo(x.ti.t, ti.t) {
		return v
	}
	panic(reflPanic{"reflect.Set: value of type " + x.ti.String() + " is not assignable to type " + ti.String()})
}

var _ = sort.Ints
