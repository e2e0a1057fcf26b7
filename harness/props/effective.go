package props

import (
	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// text is a string of 0 to n arbitrary bytes.
func upTo(name string, n int) string {
	return vsym.String(name, vsym.Choose(name+" length", n+1))
}

// repTree is a representation with or without an adaptation set, that with or
// without a period, whose values must never show.
func repTree() (r *mpd.RepresentationType, a *mpd.AdaptationSetType) {
	r = mpd.NewRepresentation()
	parents := vsym.Choose("parents", 3)
	if parents == 0 {
		return r, nil
	}
	a = mpd.NewAdaptationSet()
	other := mpd.NewRepresentation() // a sibling
	other.MimeType, other.Codecs = "other", "other"
	other.SegmentTemplate = &mpd.SegmentTemplateType{Media: "other"}
	other.ContentProtections = []*mpd.ContentProtectionType{mpd.NewContentProtection()}
	a.AppendRepresentation(other)
	a.AppendRepresentation(r)
	if parents == 2 {
		p := mpd.NewPeriod()
		p.AppendAdaptationSet(a)
	}
	return r, a
}

// H_T04_strings: MIME type and codecs.
func H_T04_strings() {
	r, a := repTree()
	r.MimeType, r.Codecs = upTo("mime", 2), upTo("codecs", 2)
	var am, ac string
	if a != nil {
		am, ac = upTo("set mime", 2), upTo("set codecs", 2)
		a.MimeType, a.Codecs = am, ac
	}
	wantM, wantC := r.MimeType, r.Codecs
	if wantM == "" {
		wantM = am
	}
	if wantC == "" {
		wantC = ac
	}
	vsym.Assert(vsym.EqString(r.GetMimeType(), wantM), "MIME type")
	vsym.Assert(vsym.EqString(r.GetCodecs(), wantC), "codecs")
	if a != nil {
		vsym.Assert(vsym.EqString(a.GetMimeType(), am), "MIME type of the set")
		vsym.Assert(vsym.EqString(a.GetCodecs(), ac), "codecs of the set")
	}
	vsym.Reach("end")
}

// H_T04_protection: content protection, with up to two entries in each place.
func H_T04_protection() {
	r, a := repTree()
	make := func(n int) (l []*mpd.ContentProtectionType) {
		for i := 0; i < n; i++ {
			l = append(l, mpd.NewContentProtection())
		}
		return
	}
	r.ContentProtections = make(vsym.Choose("own", 3))
	if vsym.Choose("own empty", 2) == 1 && len(r.ContentProtections) == 0 {
		r.ContentProtections = []*mpd.ContentProtectionType{}
	}
	want := r.ContentProtections
	if a != nil {
		a.ContentProtections = make(vsym.Choose("of set", 3))
		if len(want) == 0 {
			want = a.ContentProtections
		}
		g := a.GetContentProtections()
		vsym.Assert(len(g) == len(a.ContentProtections), "protections of the set")
		for i := range g {
			vsym.Assert(g[i] == a.ContentProtections[i], "each protection of the set")
		}
	}
	got := r.GetContentProtections()
	vsym.Assert(len(got) == len(want), "protections")
	for i := range got {
		vsym.Assert(got[i] == want[i], "each protection")
	}
	vsym.Reach("end")
}

// refReplace replaces the identifiers of a template from left to right.
func refReplace(t, id, bandwidth string) string {
	const rid, bw = "$RepresentationID$", "$Bandwidth$"
	var out []byte
	for i := 0; i < len(t); {
		switch {
		case len(t)-i >= len(rid) && t[i:i+len(rid)] == rid:
			out = append(out, id...)
			i += len(rid)
		case len(t)-i >= len(bw) && t[i:i+len(bw)] == bw:
			out = append(out, bandwidth...)
			i += len(bw)
		default:
			out = append(out, t[i])
			i++
		}
	}
	return string(out)
}

// decimal is n in decimal digits.
func decimal(n uint64) string {
	var b []byte
	for {
		b = append([]byte{byte('0' + n%10)}, b...)
		n /= 10
		if n == 0 {
			return string(b)
		}
	}
}

// tmpl is a template of up to n pieces: identifiers and other text.
func tmpl(name string, n int) string {
	t := ""
	k := vsym.Choose(name+" pieces", n+1)
	for i := 0; i < k; i++ {
		switch vsym.Choose(name+" piece", 6) {
		case 0:
			t += "$RepresentationID$"
		case 1:
			t += "$Bandwidth$"
		case 2:
			t += "$Number$"
		case 3:
			t += "$Time%05d$"
		case 4:
			t += "a/"
		case 5:
			b := vsym.String(name+" byte", 1)
			vsym.Assume(b[0] != '$')
			t += b
		}
	}
	return t
}

// H_T04_template: the segment template and the initialization and media names of
// up to 2 (thorough: 3) pieces.
func H_T04_template() {
	r, a := repTree()
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	var st *mpd.SegmentTemplateType
	media := vsym.Choose("media", 2) == 1
	make := func() *mpd.SegmentTemplateType {
		t := mpd.NewSegmentTemplate()
		if media {
			t.Media = tmpl("template", n)
			t.Initialization = "not this"
		} else {
			t.Initialization = tmpl("template", n)
			t.Media = "not this"
		}
		return t
	}
	where := vsym.Choose("where", 4) // nowhere, set, representation, both
	if where&2 != 0 {
		r.SegmentTemplate = make()
		st = r.SegmentTemplate
	}
	if where&1 != 0 && a != nil {
		if st != nil {
			a.SegmentTemplate = &mpd.SegmentTemplateType{Media: "set", Initialization: "set"}
		} else {
			a.SegmentTemplate = make()
			st = a.SegmentTemplate
		}
	}
	switch vsym.Choose("id", 3) {
	case 0:
		r.Id = upTo("id", 2)
	case 1:
		r.Id = "$Bandwidth$"
	case 2:
		r.Id = "$RepresentationID$"
	}
	bw := []uint32{0, 9, 4294967295}[vsym.Choose("bandwidth", 3)]
	r.Bandwidth = bw
	vsym.Assert(r.GetSegmentTemplate() == st, "segment template")
	if a != nil {
		vsym.Assert(a.GetSegmentTemplate() == a.SegmentTemplate, "segment template of the set")
	}
	get := r.GetInit
	if media {
		get = r.GetMedia
	}
	got, err := get()
	switch {
	case a == nil:
		vsym.Assert(err == mpd.ErrParentNotSet && got == "", "no parent")
	case st == nil:
		vsym.Assert(err == mpd.ErrSegmentTemplateNotSet && got == "", "no template")
	default:
		vsym.Assert(err == nil, "no error")
		t := st.Initialization
		if media {
			t = st.Media
		}
		vsym.Assert(vsym.EqString(got, refReplace(t, r.Id, decimal(uint64(bw)))), "name")
	}
	vsym.Reach("end")
}

// H_T04_bandwidth: every bandwidth is written in decimal.
func H_T04_bandwidth() {
	r := mpd.NewRepresentation()
	a := mpd.NewAdaptationSet()
	a.AppendRepresentation(r)
	r.Bandwidth = vsym.Uint32("bandwidth")
	r.SegmentTemplate = &mpd.SegmentTemplateType{Media: "m$Bandwidth$-$Number$", Initialization: "i$Bandwidth$"}
	i, err := r.GetInit()
	vsym.Assert(err == nil, "no error")
	m, err := r.GetMedia()
	vsym.Assert(err == nil, "no error")
	d := decimal(uint64(r.Bandwidth))
	vsym.Assert(vsym.EqString(i, "i"+d), "initialization")
	vsym.Assert(vsym.EqString(m, "m"+d+"-$Number$"), "media")
	vsym.Reach("end")
}
