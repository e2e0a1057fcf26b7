package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
)

type FieldTI struct {
	name     string
	off      int
	ti       *TI
	embedded bool
	exported bool
	pkgPath  string
	tag      string
}

// TI is the canonical run-time description of a Go type.
type TI struct {
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	f32    bool
	slots  int
	elem   *TI
	key    *TI
	alen   int
	fields []FieldTI
	id     int

	mu      sync.Mutex
	meth    map[string]*ssa.Function
	rmeths  []rmeth
	rmethOK bool
	impl    map[*TI]bool
	ptr     *TI
	sl      *TI
	str     string
}

type rmeth struct {
	name string
	fn   *ssa.Function
	sel  *types.Selection
}

type TypeTab struct {
	mu    sync.RWMutex
	fast  map[types.Type]*TI
	canon typeutil.Map
	n     int
	prog  *ssa.Program
}

func NewTypeTab(p *ssa.Program) *TypeTab {
	tt := &TypeTab{fast: map[types.Type]*TI{}, prog: p}
	tt.canon.SetHasher(typeutil.MakeHasher())
	return tt
}

func (tt *TypeTab) Of(t types.Type) *TI {
	tt.mu.RLock()
	x := tt.fast[t]
	tt.mu.RUnlock()
	if x != nil {
		return x
	}
	tt.mu.Lock()
	defer tt.mu.Unlock()
	return tt.of(t)
}

func (tt *TypeTab) of(t0 types.Type) *TI {
	if x := tt.fast[t0]; x != nil {
		return x
	}
	t := types.Unalias(t0)
	if v := tt.canon.At(t); v != nil {
		x := v.(*TI)
		tt.fast[t0] = x
		tt.fast[t] = x
		return x
	}
	x := &TI{t: t, u: t.Underlying(), id: tt.n}
	tt.n++
	tt.canon.Set(t, x)
	tt.fast[t0] = x
	tt.fast[t] = x
	x.slots = 1
	switch u := x.u.(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			x.kind = KBool
		case types.Int, types.UntypedInt, types.Int64:
			x.kind, x.w, x.signed = KInt, 64, true
		case types.Int8:
			x.kind, x.w, x.signed = KInt, 8, true
		case types.Int16:
			x.kind, x.w, x.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			x.kind, x.w, x.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			x.kind, x.w = KInt, 64
		case types.Uint8:
			x.kind, x.w = KInt, 8
		case types.Uint16:
			x.kind, x.w = KInt, 16
		case types.Uint32:
			x.kind, x.w = KInt, 32
		case types.Float64, types.UntypedFloat:
			x.kind, x.w = KFloat, wF64
		case types.Float32:
			x.kind, x.w, x.f32 = KFloat, wF64, true
		case types.String, types.UntypedString:
			x.kind = KString
		case types.UnsafePointer:
			x.kind = KUnsafe
		case types.UntypedNil:
			x.kind = KPtr
		default:
			x.kind = KComplex
		}
	case *types.Pointer:
		x.kind = KPtr
	case *types.Slice:
		x.kind = KSlice
	case *types.Map:
		x.kind = KMap
	case *types.Chan:
		x.kind = KChan
	case *types.Signature:
		x.kind = KFunc
	case *types.Interface:
		x.kind = KIface
	case *types.Struct:
		x.kind = KStruct
	case *types.Array:
		x.kind = KArray
	case *types.Tuple:
		x.kind = KTuple
	case *types.TypeParam:
		x.kind = KInvalid
	default:
		x.kind = KInvalid
	}
	// Second phase (recursive types are fine: pointers are already canonical).
	switch u := x.u.(type) {
	case *types.Pointer:
		x.elem = tt.of(u.Elem())
	case *types.Slice:
		x.elem = tt.of(u.Elem())
	case *types.Chan:
		x.elem = tt.of(u.Elem())
	case *types.Map:
		x.key = tt.of(u.Key())
		x.elem = tt.of(u.Elem())
	case *types.Array:
		x.elem = tt.of(u.Elem())
		x.alen = int(u.Len())
		x.slots = x.alen * x.elem.slots
	case *types.Struct:
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			ft := tt.of(f.Type())
			pp := ""
			if !f.Exported() && f.Pkg() != nil {
				pp = f.Pkg().Path()
			}
			x.fields = append(x.fields, FieldTI{name: f.Name(), off: off, ti: ft, embedded: f.Embedded(), exported: f.Exported(), pkgPath: pp, tag: u.Tag(i)})
			off += ft.slots
		}
		x.slots = off
	case *types.Tuple:
		off := 0
		for i := 0; i < u.Len(); i++ {
			ft := tt.of(u.At(i).Type())
			x.fields = append(x.fields, FieldTI{off: i, ti: ft})
			off++
		}
		x.slots = off
	}
	return x
}

func (tt *TypeTab) PtrTo(x *TI) *TI {
	x.mu.Lock()
	p := x.ptr
	x.mu.Unlock()
	if p == nil {
		p = tt.Of(types.NewPointer(x.t))
		x.mu.Lock()
		x.ptr = p
		x.mu.Unlock()
	}
	return p
}
func (tt *TypeTab) SliceOf(x *TI) *TI {
	x.mu.Lock()
	p := x.sl
	x.mu.Unlock()
	if p == nil {
		p = tt.Of(types.NewSlice(x.t))
		x.mu.Lock()
		x.sl = p
		x.mu.Unlock()
	}
	return p
}

func (x *TI) String() string {
	x.mu.Lock()
	defer x.mu.Unlock()
	if x.str == "" {
		x.str = types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
	}
	return x.str
}

func (x *TI) isAgg() bool { return x.kind == KStruct || x.kind == KArray }

// method finds the concrete method for an interface call.
func (tt *TypeTab) method(x *TI, name string, pkg *types.Package) *ssa.Function {
	key := name
	if pkg != nil && !token_IsExported(name) {
		key = pkg.Path() + "." + name
	}
	x.mu.Lock()
	f, ok := x.meth[key]
	x.mu.Unlock()
	if ok {
		return f
	}
	ms := tt.prog.MethodSets.MethodSet(x.t)
	sel := ms.Lookup(pkg, name)
	if sel != nil {
		f = tt.prog.MethodValue(sel)
	}
	x.mu.Lock()
	if x.meth == nil {
		x.meth = map[string]*ssa.Function{}
	}
	x.meth[key] = f
	x.mu.Unlock()
	return f
}

func token_IsExported(s string) bool { return len(s) > 0 && s[0] >= 'A' && s[0] <= 'Z' }

func (tt *TypeTab) implements(x, iface *TI) bool {
	x.mu.Lock()
	r, ok := x.impl[iface]
	x.mu.Unlock()
	if ok {
		return r
	}
	it, _ := iface.u.(*types.Interface)
	if it == nil {
		panic(fmt.Sprint("implements: not an interface ", iface.t))
	}
	r = types.Implements(x.t, it)
	x.mu.Lock()
	if x.impl == nil {
		x.impl = map[*TI]bool{}
	}
	x.impl[iface] = r
	x.mu.Unlock()
	return r
}
