package props

import (
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

var nameType = reflect.TypeOf(xml.Name{})

// fill gives every exported field below v a value: symbolic numbers, flags and
// strings of one byte, pointers to filled values and slices of n(depth) elements.
func fill(v reflect.Value, depth int, n func(depth int) int) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(vsym.String("s", 1))
	case reflect.Bool:
		v.SetBool(vsym.Bool("b"))
	case reflect.Int, reflect.Int64:
		v.SetInt(vsym.Int64("i"))
	case reflect.Int32:
		v.SetInt(int64(vsym.Int32("i")))
	case reflect.Uint64:
		v.SetUint(vsym.Uint64("u"))
	case reflect.Uint32:
		v.SetUint(uint64(vsym.Uint32("u")))
	case reflect.Uint16:
		v.SetUint(uint64(vsym.Uint16("u")))
	case reflect.Uint8:
		v.SetUint(uint64(vsym.Byte("u")))
	case reflect.Float64:
		f := vsym.Float64("f")
		vsym.Assume(f == f) // not NaN, which equals nothing
		v.SetFloat(f)
	case reflect.Float32:
		v.SetFloat(0.5)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		fill(p.Elem(), depth+1, n)
		v.Set(p)
	case reflect.Slice:
		k := n(depth)
		s := reflect.MakeSlice(v.Type(), k, k)
		for i := 0; i < k; i++ {
			fill(s.Index(i), depth+1, n)
		}
		v.Set(s)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				fill(v.Field(i), depth, n)
			}
		}
	default:
		panic("fill: " + v.Kind().String())
	}
}

// sameTree asserts that a and b hold equal values in trees of the same shape
// that share no memory. A nil and an empty slice count as the same.
func sameTree(a, b reflect.Value, what string) {
	switch a.Kind() {
	case reflect.String:
		vsym.Assert(vsym.EqString(a.String(), b.String()), "equal: "+what)
	case reflect.Bool:
		vsym.Assert(a.Bool() == b.Bool(), "equal: "+what)
	case reflect.Int, reflect.Int64, reflect.Int32:
		vsym.Assert(a.Int() == b.Int(), "equal: "+what)
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		vsym.Assert(a.Uint() == b.Uint(), "equal: "+what)
	case reflect.Float64, reflect.Float32:
		vsym.Assert(a.Float() == b.Float(), "equal: "+what)
	case reflect.Ptr:
		vsym.Assert(a.IsNil() == b.IsNil(), "present: "+what)
		if a.IsNil() {
			return
		}
		vsym.Assert(a.Pointer() != b.Pointer(), "own memory: "+what)
		sameTree(a.Elem(), b.Elem(), what)
	case reflect.Slice:
		vsym.Assert(a.Len() == b.Len(), "length: "+what)
		if a.Len() == 0 {
			return
		}
		vsym.Assert(a.Pointer() != b.Pointer(), "own memory: "+what)
		for i := 0; i < a.Len(); i++ {
			sameTree(a.Index(i), b.Index(i), what)
		}
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				sameTree(a.Field(i), b.Field(i), t.Name()+"."+t.Field(i).Name)
			}
		}
	default:
		panic("sameTree: " + a.Kind().String())
	}
}

// checkParents asserts that every parent link below m describes the tree.
func checkParents(m *mpd.MPD) {
	for i, p := range m.Periods {
		vsym.Assert(p.Parent() == m, "parent of period")
		idx, err := p.GetIndex()
		vsym.Assert(err == nil && idx == i, "index of period")
		checkPeriodParents(p)
	}
}

func checkPeriodParents(p *mpd.Period) {
	for _, as := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
		for _, a := range as {
			vsym.Assert(a.Parent() == p, "parent of adaptation set")
			checkSetParents(a)
		}
	}
}

func checkSetParents(a *mpd.AdaptationSetType) {
	for _, r := range a.Representations {
		vsym.Assert(r.Parent() == a, "parent of representation")
		checkRepParents(r)
	}
}

func checkRepParents(r *mpd.RepresentationType) {
	for _, s := range r.SubRepresentations {
		vsym.Assert(s.Parent() == r, "parent of sub-representation")
	}
}
