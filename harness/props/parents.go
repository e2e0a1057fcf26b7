package props

import (
	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// shape is the number of children at every level of a tree; the children of a
// node are numbered, so that no two levels need to be alike.
type shape struct {
	periods [][]int // per period and adaptation set: representations
	empty   int     // empty adaptation sets in the last period, with a representation each
	subs    int     // sub-representations of every representation
}

func pickShape(max int) (s shape) {
	n := vsym.Choose("periods", 3)
	for i := 0; i < n; i++ {
		var p []int
		k := vsym.Choose("sets", max+1)
		for j := 0; j < k; j++ {
			p = append(p, vsym.Choose("representations", max+1))
		}
		s.periods = append(s.periods, p)
	}
	s.subs = vsym.Choose("sub-representations", 3)
	if n > 0 {
		s.empty = vsym.Choose("empty sets", 2)
	}
	return
}

// build makes the tree, with the Append operations (top down or bottom up) or
// with plain slices.
func (s shape) build(how int) *mpd.MPD {
	m := mpd.NewMPD("static")
	for i, sets := range s.periods {
		p := mpd.NewPeriod()
		if how == 0 {
			m.AppendPeriod(p)
		}
		for _, reps := range sets {
			a := mpd.NewAdaptationSet()
			if how == 0 {
				p.AppendAdaptationSet(a)
			}
			for k := 0; k < reps; k++ {
				s.rep(a, how)
			}
			if how == 1 {
				p.AppendAdaptationSet(a)
			} else if how == 2 {
				p.AdaptationSets = append(p.AdaptationSets, a)
			}
		}
		if i == len(s.periods)-1 && how == 2 {
			for k := 0; k < s.empty; k++ {
				a := mpd.NewAdaptationSet()
				s.rep(a, how)
				p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, a)
			}
		}
		if how == 1 {
			m.AppendPeriod(p)
		} else if how == 2 {
			m.Periods = append(m.Periods, p)
		}
	}
	return m
}

func (s shape) rep(a *mpd.AdaptationSetType, how int) {
	r := mpd.NewRepresentation()
	if how == 0 {
		a.AppendRepresentation(r)
	}
	for l := 0; l < s.subs; l++ {
		sr := mpd.NewSubRepresentation()
		if how == 2 {
			r.SubRepresentations = append(r.SubRepresentations, sr)
		} else {
			r.AppendSubRepresentation(sr)
		}
	}
	if how == 1 {
		a.AppendRepresentation(r)
	} else if how == 2 {
		a.Representations = append(a.Representations, r)
	}
}

// text is the document of the tree.
func (s shape) text() string {
	t := "<MPD>"
	for i, sets := range s.periods {
		t += "<Period>"
		for _, reps := range sets {
			t += "<AdaptationSet>"
			for k := 0; k < reps; k++ {
				t += s.repText()
			}
			t += "</AdaptationSet>"
		}
		if i == len(s.periods)-1 {
			for k := 0; k < s.empty; k++ {
				t += "<EmptyAdaptationSet>" + s.repText() + "</EmptyAdaptationSet>"
			}
		}
		t += "</Period>"
	}
	return t + "</MPD>"
}

func (s shape) repText() string {
	t := "<Representation>"
	for l := 0; l < s.subs; l++ {
		t += "<SubRepresentation/>"
	}
	return t + "</Representation>"
}

// checkShape asserts that m has the children s says.
func (s shape) check(m *mpd.MPD, empty int) {
	vsym.Assert(len(m.Periods) == len(s.periods), "number of periods")
	for i, sets := range s.periods {
		p := m.Periods[i]
		vsym.Assert(len(p.AdaptationSets) == len(sets), "number of adaptation sets")
		for j, reps := range sets {
			vsym.Assert(len(p.AdaptationSets[j].Representations) == reps, "number of representations")
			for _, r := range p.AdaptationSets[j].Representations {
				vsym.Assert(len(r.SubRepresentations) == s.subs, "number of sub-representations")
			}
		}
		if i == len(s.periods)-1 {
			vsym.Assert(len(p.EmptyAdaptationSets) == empty, "number of empty adaptation sets")
		}
	}
}

func shapeTier() int {
	if vsym.Thorough() {
		return 3
	}
	return 2
}

// H_T02_append: a tree built with the Append operations, top down or bottom up.
func H_T02_append() {
	s := pickShape(shapeTier())
	m := s.build(vsym.Choose("how", 2))
	s.check(m, 0)
	checkParents(m)
	vsym.Reach("end")
}

// H_T02_set: a tree made of plain slices has no parents, and all of them once
// they are set, from the MPD, per period, per set or per representation.
func H_T02_set() {
	s := pickShape(shapeTier())
	m := s.build(2)
	for _, p := range m.Periods {
		vsym.Assert(p.Parent() == nil, "no parent of period")
		_, err := p.GetIndex()
		vsym.Assert(err == mpd.ErrParentNotSet, "no index")
		for _, a := range p.AdaptationSets {
			vsym.Assert(a.Parent() == nil, "no parent of adaptation set")
			for _, r := range a.Representations {
				vsym.Assert(r.Parent() == nil, "no parent of representation")
				for _, sr := range r.SubRepresentations {
					vsym.Assert(sr.Parent() == nil, "no parent of sub-representation")
				}
				_, err := r.GetInit()
				vsym.Assert(err == mpd.ErrParentNotSet, "no initialization")
				_, err = r.GetMedia()
				vsym.Assert(err == mpd.ErrParentNotSet, "no media")
			}
		}
	}
	switch vsym.Choose("level", 4) {
	case 0:
		m.SetParents()
		checkParents(m)
	case 1:
		for _, p := range m.Periods {
			p.SetParents()
			vsym.Assert(p.Parent() == nil, "parent of period untouched")
			checkPeriodParents(p)
		}
	case 2:
		for _, p := range m.Periods {
			for _, a := range p.AdaptationSets {
				a.SetParents()
				vsym.Assert(a.Parent() == nil, "parent of set untouched")
				checkSetParents(a)
			}
		}
	case 3:
		for _, p := range m.Periods {
			for _, a := range p.AdaptationSets {
				for _, r := range a.Representations {
					r.SetParents()
					vsym.Assert(r.Parent() == nil, "parent of representation untouched")
					checkRepParents(r)
				}
			}
		}
	}
	s.check(m, s.empty)
	vsym.Reach("end")
}

// H_T02_read: a tree that was read.
func H_T02_read() {
	s := pickShape(2)
	var m *mpd.MPD
	var err error
	if vsym.Choose("from", 2) == 0 {
		m, err = mpd.ReadFromString(s.text())
	} else {
		m, err = mpd.MPDFromBytes([]byte(s.text()))
	}
	vsym.Assert(err == nil, "read")
	s.check(m, s.empty)
	checkParents(m)
	vsym.Reach("end")
}

// H_T02_clone: clones of an MPD, a period and an adaptation set, with or without
// parents in the original, which keeps its own.
func H_T02_clone() {
	s := pickShape(2)
	how := vsym.Choose("how", 3)
	m := s.build(how)
	if how == 2 && vsym.Choose("set", 2) == 1 {
		m.SetParents()
		how = 0
	}
	e := 0
	if len(s.periods) > 0 {
		e = len(m.Periods[len(m.Periods)-1].EmptyAdaptationSets)
	}
	c := mpd.Clone(m)
	vsym.Assert(c != m, "another MPD")
	s.check(c, e)
	checkParents(c)
	for _, p := range m.Periods {
		pc := p.Clone()
		vsym.Assert(pc != p && pc.Parent() == nil, "the clone of a period is in no MPD")
		vsym.Assert(len(pc.AdaptationSets) == len(p.AdaptationSets) && len(pc.EmptyAdaptationSets) == len(p.EmptyAdaptationSets), "number of sets in the clone")
		checkPeriodParents(pc)
		for _, a := range p.AdaptationSets {
			ac := a.Clone()
			vsym.Assert(ac != a && ac.Parent() == nil, "the clone of a set is in no period")
			vsym.Assert(len(ac.Representations) == len(a.Representations), "number of representations in the clone")
			checkSetParents(ac)
		}
	}
	s.check(m, e)
	if how != 2 {
		checkParents(m)
	}
	vsym.Reach("end")
}

// H_T02_ops: any sequence of up to 4 (thorough: 6) operations that append new
// periods, append clones, append a period to a second MPD, or set all parents:
// every period reports the MPD it was last put into.
func H_T02_ops() {
	ms := []*mpd.MPD{mpd.NewMPD("static"), mpd.NewMPD("dynamic")}
	var owner []int // by period in order of creation
	var all []*mpd.Period
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	for i := 0; i < n; i++ {
		switch vsym.Choose("op", 6) {
		case 0:
			p := mpd.NewPeriod()
			ms[0].AppendPeriod(p)
			all, owner = append(all, p), append(owner, 0)
		case 1: // a period with a set that has a representation
			p := mpd.NewPeriod()
			a := mpd.NewAdaptationSet()
			a.AppendRepresentation(mpd.NewRepresentation())
			p.AppendAdaptationSet(a)
			ms[1].AppendPeriod(p)
			all, owner = append(all, p), append(owner, 1)
		case 2: // move the first period of the first MPD to the second
			if len(ms[0].Periods) == 0 {
				return
			}
			p := ms[0].Periods[0]
			ms[0].Periods = ms[0].Periods[1:]
			ms[1].AppendPeriod(p)
			for j := range all {
				if all[j] == p {
					owner[j] = 1
				}
			}
		case 3: // append a clone of the last period
			k := len(ms[1].Periods)
			if k == 0 {
				return
			}
			p := ms[1].Periods[k-1].Clone()
			ms[0].AppendPeriod(p)
			all, owner = append(all, p), append(owner, 0)
		case 4:
			ms[0].SetParents()
			ms[1].SetParents()
		case 5: // go on with a clone of the first MPD; the old one keeps its periods
			old := ms[0]
			ms[0] = mpd.Clone(old)
			checkParents(old)
			j := 0
			for i, p := range all {
				if owner[i] == 0 {
					vsym.Assert(p.Parent() == old, "the original keeps its parents")
				}
			}
			var a2 []*mpd.Period
			var o2 []int
			for i, p := range all {
				if owner[i] == 1 {
					a2, o2 = append(a2, p), append(o2, 1)
				}
			}
			for ; j < len(ms[0].Periods); j++ {
				a2, o2 = append(a2, ms[0].Periods[j]), append(o2, 0)
			}
			all, owner = a2, o2
		}
		checkParents(ms[0])
		checkParents(ms[1])
		for j, p := range all {
			vsym.Assert(p.Parent() == ms[owner[j]], "parent of every period")
		}
		vsym.Assert(len(ms[0].Periods)+len(ms[1].Periods) == len(all), "no period lost")
	}
	vsym.Reach("end")
}

// H_T02_stale: links left over from earlier, right or wrong, make no difference:
// in a tree whose links are all missing, all right or all wrong but for those of
// any two nodes, every link below the MPD, period, set or representation is right
// once they are set there, and in a clone.
func H_T02_stale() {
	m := mpd.NewMPD("static")
	other := mpd.NewMPD("static")
	op, oa, or := mpd.NewPeriod(), mpd.NewAdaptationSet(), mpd.NewRepresentation()
	back := vsym.Choose("links", 3)
	nodes := 0
	first := vsym.Choose("node", 18)
	second := vsym.Choose("node", 18)
	if second < first {
		return
	}
	s1, s2 := vsym.Choose("link", 3), vsym.Choose("link", 3)
	state := func() int {
		nodes++
		switch nodes - 1 {
		case first:
			return s1
		case second:
			return s2
		}
		return back
	}
	for i := 0; i < 2; i++ {
		p := mpd.NewPeriod()
		p.SetParent([]*mpd.MPD{nil, m, other}[state()])
		m.Periods = append(m.Periods, p)
		for j := 0; j < 2; j++ {
			a := mpd.NewAdaptationSet()
			a.SetParent([]*mpd.Period{nil, p, op}[state()])
			if i == 1 && j == 1 {
				p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, a)
			} else {
				p.AdaptationSets = append(p.AdaptationSets, a)
			}
			n := 2
			if i == 0 && j == 0 || i == 1 && j == 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				r := mpd.NewRepresentation()
				r.SetParent([]*mpd.AdaptationSetType{nil, a, oa}[state()])
				a.Representations = append(a.Representations, r)
				for l := 0; l < 2-k; l++ {
					sr := mpd.NewSubRepresentation()
					q := []*mpd.RepresentationType{nil, r, or}[0]
					if l == 0 {
						q = []*mpd.RepresentationType{nil, r, or}[state()]
					}
					sr.SetParent(q)
					r.SubRepresentations = append(r.SubRepresentations, sr)
				}
			}
		}
	}
	switch vsym.Choose("level", 5) {
	case 0:
		m.SetParents()
		checkParents(m)
	case 1:
		for _, p := range m.Periods {
			p.SetParents()
			checkPeriodParents(p)
		}
	case 2:
		for _, p := range m.Periods {
			for _, as := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
				for _, a := range as {
					a.SetParents()
					checkSetParents(a)
				}
			}
		}
	case 3:
		for _, a := range append(append([]*mpd.AdaptationSetType{}, m.Periods[0].AdaptationSets...), m.Periods[1].EmptyAdaptationSets...) {
			for _, r := range a.Representations {
				r.SetParents()
				checkRepParents(r)
			}
		}
	case 4:
		checkParents(mpd.Clone(m))
		checkPeriodParents(m.Periods[1].Clone())
		checkSetParents(m.Periods[0].AdaptationSets[1].Clone())
	}
	vsym.ObserveInt("nodes", nodes)
	vsym.Reach("end")
}
