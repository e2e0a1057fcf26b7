package props

import (
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// one fills only field i of v, and everything below it.
func one(v reflect.Value, i int) {
	if v.Type().Field(i).PkgPath == "" {
		fill(v.Field(i), 1, small)
	}
}

func small(depth int) int {
	if depth <= 1 {
		return 2
	}
	return 1
}

// pick fills one field of the struct v, all of them or none.
func pick(v reflect.Value, all bool) {
	n := v.Type().NumField()
	k := 1
	if all {
		k = 2
	}
	switch i := vsym.Choose("field", n+k); {
	case i < n:
		one(v, i)
	case i == n+1:
		fill(v, 0, func(int) int { return 1 })
	}
}

// H_T03_mpd: an MPD with any one of its fields and everything below it set to any
// values: the clone has the same, in memory of its own.
func H_T03_mpd() {
	m := &mpd.MPD{}
	pick(reflect.ValueOf(m).Elem(), false)
	m.SetParents()
	c := mpd.Clone(m)
	vsym.Assert(c != m, "another MPD")
	sameTree(reflect.ValueOf(m).Elem(), reflect.ValueOf(c).Elem(), "")
	checkParents(c)
	checkParents(m)
	vsym.Reach("end")
}

// H_T03_period: the same for a period.
func H_T03_period() {
	m := mpd.NewMPD("dynamic")
	p := &mpd.Period{}
	pick(reflect.ValueOf(p).Elem(), false)
	m.AppendPeriod(p)
	m.SetParents()
	c := p.Clone()
	vsym.Assert(c != p, "another period")
	sameTree(reflect.ValueOf(p).Elem(), reflect.ValueOf(c).Elem(), "")
	checkPeriodParents(c)
	checkParents(m)
	vsym.Reach("end")
}

// H_T03_set: the same for an adaptation set.
func H_T03_set() {
	p := mpd.NewPeriod()
	a := &mpd.AdaptationSetType{}
	pick(reflect.ValueOf(a).Elem(), true)
	p.AppendAdaptationSet(a)
	p.SetParents()
	c := a.Clone()
	vsym.Assert(c != a, "another set")
	sameTree(reflect.ValueOf(a).Elem(), reflect.ValueOf(c).Elem(), "")
	checkSetParents(c)
	checkPeriodParents(p)
	vsym.Reach("end")
}

// H_T03_shared: what occurs at several places of the original, or is the first
// field of something else, is cloned at each of them.
func H_T03_shared() {
	m := mpd.NewMPD("static")
	d := mpd.NewDescriptor("a", vsym.String("v", 1), "")
	m.EssentialProperties = append(m.EssentialProperties, d, d)
	m.SupplementalProperties = m.EssentialProperties
	dur := mpd.Duration(vsym.Int64("d"))
	m.MinBufferTime, m.MaxSegmentDuration = &dur, &dur
	p := mpd.NewPeriod()
	p.Start, p.Duration = &dur, &dur
	p.SupplementalProperties = m.EssentialProperties[:1]
	m.AppendPeriod(p)
	c := mpd.Clone(m)
	sameTree(reflect.ValueOf(m).Elem(), reflect.ValueOf(c).Elem(), "")
	checkParents(c)
	vsym.Reach("end")
}

// H_T03_xml: a clone is written as the same document, and after it is changed the
// original still is; and the other way round.
func H_T03_xml() {
	m := &mpd.MPD{}
	t := reflect.TypeOf(*m)
	i := vsym.Choose("field", t.NumField())
	if t.Field(i).Name == "XMLName" {
		return
	}
	plain(reflect.ValueOf(m).Elem().Field(i), "v")
	m.SetParents()
	before, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "write")
	c := mpd.Clone(m)
	s, err := c.WriteToString("", false)
	vsym.Assert(err == nil && s == before, "the same document")
	a, b := m, c
	if vsym.Choose("change", 2) == 1 {
		a, b = c, m
	}
	scramble(reflect.ValueOf(b).Elem())
	s, err = a.WriteToString("", false)
	vsym.Assert(err == nil && s == before, "the same document after the other one changed")
	vsym.Reach("end")
}

// plain is fill with fixed values, all strings being w.
func plain(v reflect.Value, w string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(w)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(1e9)
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(7)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(1.5)
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		plain(p.Elem(), w)
		v.Set(p)
	case reflect.Slice:
		s := reflect.MakeSlice(v.Type(), 1, 1)
		plain(s.Index(0), w)
		v.Set(s)
	case reflect.Struct:
		if v.Type() == nameType {
			return
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				plain(v.Field(i), w)
			}
		}
	}
}

// scramble changes every value below v.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		v.SetString("changed")
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(v.Int() + 1)
	case reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		v.SetUint(v.Uint() + 1)
	case reflect.Float64, reflect.Float32:
		v.SetFloat(v.Float() + 1)
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				scramble(v.Field(i))
			}
		}
	}
}

// H_T03_words: an MPD with everything set and every string being any one of the
// string constants in the code: clones of it, its period and its set have the same.
func H_T03_words() {
	w := words[vsym.Choose("word", len(words))]
	m := &mpd.MPD{}
	plain(reflect.ValueOf(m).Elem(), w)
	m.SetParents()
	p := m.Periods[0]
	a := p.AdaptationSets[0]
	c, pc, ac := mpd.Clone(m), p.Clone(), a.Clone()
	sameTree(reflect.ValueOf(m).Elem(), reflect.ValueOf(c).Elem(), "")
	sameTree(reflect.ValueOf(p).Elem(), reflect.ValueOf(pc).Elem(), "")
	sameTree(reflect.ValueOf(a).Elem(), reflect.ValueOf(ac).Elem(), "")
	vsym.Reach("end")
}
