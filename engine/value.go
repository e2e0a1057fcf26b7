package main

import (
	"fmt"
	"math"

	"golang.org/x/tools/go/ssa"
)

// Value is one slot: concrete scalars in n; *Term for symbolic scalars; or a
// reference in r (string, *SStr, *Obj, *MapObj, *Closure, *Iface, *Agg, ...).
type Value struct {
	n uint64
	r any
}

type SStr struct{ b []Value } // string with at least one symbolic byte

type Agg struct{ s []Value }

type Iface struct {
	t *TI
	v Value
}

type Closure struct {
	fn   *ssa.Function
	free []Value
	meth *boundMeth
}

type boundMeth struct {
	recv Value
	fn   *ssa.Function
}

type Obj struct {
	slots  []Value
	gen    uint32
	id     uint32
	shared bool // published to package-level state / created by earlier operation
	ti     *TI
	name   string
}

type MapEnt struct {
	k, v Value
}

type MapObj struct {
	ents   []MapEnt
	dead   []bool
	idx    map[any]int // concrete keys
	nlive  int
	symKey bool
	gen    uint32
	id     uint32
	ti     *TI
	shared bool
	sync   bool // inside a sync.Map
}

type IterObj struct {
	pos *Obj
	m   *MapObj
	s   Value
	str bool
}

const (
	slcLenBits = 21
	slcOffBits = 22
)

func mkSlice(o *Obj, off, ln, cp int) Value {
	if ln >= 1<<slcLenBits || cp >= 1<<slcLenBits || off >= 1<<slcOffBits {
		panic(unsup("slice too large"))
	}
	return Value{n: uint64(off)<<(2*slcLenBits) | uint64(ln)<<slcLenBits | uint64(cp), r: o}
}
func slcOff(v Value) int { return int(v.n >> (2 * slcLenBits)) }
func slcLen(v Value) int { return int(v.n >> slcLenBits & (1<<slcLenBits - 1)) }
func slcCap(v Value) int { return int(v.n & (1<<slcLenBits - 1)) }
func slcObj(v Value) *Obj {
	if v.r == nil {
		return nil
	}
	return v.r.(*Obj)
}

type Unsup struct{ msg string }

func unsup(f string, a ...any) Unsup { return Unsup{fmt.Sprintf(f, a...)} }

func (v Value) term() *Term {
	t, _ := v.r.(*Term)
	return t
}

func tv(t *Term) Value {
	if t.op == OConst {
		return Value{n: t.k}
	}
	return Value{r: t}
}

func bv(b bool) Value    { return Value{n: b2u(b)} }
func iv(i int) Value     { return Value{n: uint64(int64(i))} }
func fv(f float64) Value { return Value{n: math.Float64bits(f)} }
func sv(s string) Value  { return Value{r: s} }

// zeroOf gives the register form of the zero value.
func zeroOf(ti *TI) Value {
	switch ti.kind {
	case KString:
		return Value{r: ""}
	case KStruct, KArray:
		s := make([]Value, ti.slots)
		zeroSlots(ti, s)
		return Value{r: &Agg{s}}
	case KTuple:
		s := make([]Value, len(ti.fields))
		for i := range s {
			s[i] = zeroOf(ti.fields[i].ti)
		}
		return Value{r: &Agg{s}}
	}
	return Value{}
}

func zeroSlots(ti *TI, s []Value) {
	switch ti.kind {
	case KString:
		s[0] = Value{r: ""}
	case KStruct:
		for i := range ti.fields {
			f := &ti.fields[i]
			zeroSlots(f.ti, s[f.off:f.off+f.ti.slots])
		}
	case KArray:
		if ti.elem.slots == 0 {
			return
		}
		k := ti.elem.kind
		if k == KString || k == KStruct || k == KArray {
			for i := 0; i < ti.alen; i++ {
				zeroSlots(ti.elem, s[i*ti.elem.slots:(i+1)*ti.elem.slots])
			}
		}
	}
}

// flatten writes the register form v of type ti to slots.
func flatInto(ti *TI, v Value, dst []Value) {
	if ti.isAgg() {
		copy(dst, v.r.(*Agg).s)
		return
	}
	dst[0] = v
}

func fromSlots(ti *TI, s []Value) Value {
	if ti.isAgg() {
		c := make([]Value, ti.slots)
		copy(c, s)
		return Value{r: &Agg{c}}
	}
	return s[0]
}

// ---------- strings

func strLen(v Value) int {
	switch s := v.r.(type) {
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	case nil:
		return 0
	}
	panic(unsup("strLen of %T", v.r))
}

func strByte(v Value, i int) Value {
	switch s := v.r.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(unsup("strByte"))
}

func mkStr(b []Value) Value {
	sym := false
	for i := range b {
		if b[i].r != nil {
			sym = true
			break
		}
	}
	if !sym {
		x := make([]byte, len(b))
		for i := range b {
			x[i] = byte(b[i].n)
		}
		return Value{r: string(x)}
	}
	c := make([]Value, len(b))
	copy(c, b)
	return Value{r: &SStr{c}}
}

func strBytes(v Value) []Value {
	switch s := v.r.(type) {
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i].n = uint64(s[i])
		}
		return b
	case *SStr:
		return s.b
	case nil:
		return nil
	}
	panic(unsup("strBytes"))
}

func subStr(v Value, lo, hi int) Value {
	switch s := v.r.(type) {
	case string:
		return Value{r: s[lo:hi]}
	case *SStr:
		for i := lo; i < hi; i++ {
			if s.b[i].r != nil {
				return Value{r: &SStr{s.b[lo:hi]}}
			}
		}
		return mkStr(s.b[lo:hi])
	}
	panic(unsup("substr"))
}

func concat(a, b Value) Value {
	x, ok1 := a.r.(string)
	y, ok2 := b.r.(string)
	if ok1 && ok2 {
		return Value{r: x + y}
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := strBytes(a), strBytes(b)
	c := make([]Value, 0, len(p)+len(q))
	c = append(c, p...)
	c = append(c, q...)
	return Value{r: &SStr{c}}
}

func concStr(v Value) (string, bool) {
	switch s := v.r.(type) {
	case string:
		return s, true
	case nil:
		return "", true
	}
	return "", false
}
