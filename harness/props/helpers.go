package props

import (
	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// H_T05_ranges: byte ranges for any sizes of at least one byte.
func H_T05_ranges() {
	r := mpd.NewRepresentation()
	in, sx := vsym.Uint32("init size"), vsym.Uint32("index size")
	vsym.Assume(vsym.And(in > 0, sx > 0))
	exact := vsym.Choose("exact", 2) == 1
	r.SetSegmentBase(in, sx, exact)
	sb := r.SegmentBase
	vsym.Assert(sb != nil && sb.Initialization != nil, "segment base")
	if vsym.Choose("which", 2) == 0 {
		b, e, ok := byteRange(sb.Initialization.Range)
		vsym.Assert(ok, "initialization range")
		vsym.Assert(b == 0, "initialization from the first byte")
		vsym.Assert(e == uint64(in)-1, "end of initialization")
	} else {
		b, e, ok := byteRange(sb.IndexRange)
		vsym.Assert(ok, "index range")
		vsym.Assert(b == uint64(in), "index after the initialization")
		vsym.Assert(e == uint64(in)+uint64(sx)-1, "end of index")
	}
	vsym.Assert(sb.IndexRangeExact == exact, "exact flag")
	vsym.Assert(sb.Initialization.SourceURL == "" && sb.RepresentationIndex == nil && sb.Timescale == nil && sb.PresentationTimeOffset == nil, "nothing else")
	vsym.Reach("end")
}

// byteRange reads a range of the form first-last, in decimal without leading zeros.
func byteRange(s string) (first, last uint64, ok bool) {
	i := 0
	num := func() (n uint64) {
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n = n*10 + uint64(s[i]-'0')
			i++
		}
		ok = ok && i > k && i-k < 19 && (i == k+1 || s[k] != '0')
		return
	}
	ok = true
	first = num()
	ok = ok && i < len(s) && s[i] == '-'
	i++
	last = num()
	return first, last, ok && i == len(s)
}

// H_T05_timescale: any timescale, set over none, another one or the default.
func H_T05_timescale() {
	var s mpd.SegmentBaseType
	vsym.Assert(s.GetTimescale() == 1, "default")
	n := vsym.Choose("times", 2) + 1
	for i := 0; i < n; i++ {
		t := vsym.Uint32("timescale")
		s.SetTimescale(t)
		vsym.Assert(s.GetTimescale() == t, "timescale")
		vsym.Assert((s.Timescale == nil) == (t == 1), "the default is left out")
		// one value per segment base, not shared with another one
		var o mpd.SegmentBaseType
		o.SetTimescale(77)
		vsym.Assert(s.GetTimescale() == t, "timescale stays")
	}
	st := mpd.NewSegmentTemplate()
	t := vsym.Uint32("template timescale")
	st.SetTimescale(t)
	vsym.Assert(st.GetTimescale() == t, "timescale of a template")
	vsym.Reach("end")
}

// H_T05_profiles: up to 3 profiles of up to 2 (thorough: 3) bytes without comma
// are added to up to 2 that are there.
func H_T05_profiles() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	profile := func() string {
		p := vsym.String("profile", vsym.Choose("profile length", n)+1)
		for i := range p {
			vsym.Assume(p[i] != ',')
		}
		return p
	}
	var have []string
	var l mpd.ListOfProfilesType
	text := ""
	for i, k := 0, vsym.Choose("there", 3); i < k; i++ {
		p := profile()
		have = append(have, p)
		if i > 0 {
			text += ","
		}
		text += p
	}
	l = mpd.ListOfProfilesType(text)
	for i, k := 0, vsym.Choose("adds", 2)+1; i < k; i++ {
		p := profile()
		found := false
		for _, h := range have {
			if h == p {
				found = true
			}
		}
		if !found {
			if len(have) > 0 {
				text += ","
			}
			text += p
			have = append(have, p)
		}
		before := string(l)
		r := l.AddProfile(p)
		vsym.Assert(vsym.EqString(string(l), before), "the list itself stays")
		l = r
		vsym.Assert(vsym.EqString(string(l), text), "the list with the profile")
		vsym.Assert(vsym.EqString(string(l.AddProfile(p)), text), "added once only")
	}
	vsym.Reach("end")
}

// H_T05_constructors: what constructors are given, and nothing else.
func H_T05_constructors() {
	a, b, c := vsym.String("a", 2), vsym.String("b", 1), vsym.String("c", 1)
	n, k := vsym.Uint32("n"), vsym.Uint32("k")
	switch vsym.Choose("constructor", 12) {
	case 0:
		got := mpd.NewRepresentationWithID(a, b, c, int(n))
		vsym.Assert(vsym.DeepEqual(got, &mpd.RepresentationType{Id: a, Bandwidth: n,
			RepresentationBaseType: mpd.RepresentationBaseType{Codecs: b, MimeType: c}}), "representation")
	case 1:
		got := mpd.NewAudioRepresentation(a, b, c, int(n), int(k))
		vsym.Assert(got.AudioSamplingRate != nil && vsym.EqString(string(*got.AudioSamplingRate), decimal(uint64(k))), "sampling rate")
		got.AudioSamplingRate = nil
		vsym.Assert(vsym.DeepEqual(got, &mpd.RepresentationType{Id: a, Bandwidth: n,
			RepresentationBaseType: mpd.RepresentationBaseType{Codecs: b, MimeType: c}}), "audio representation")
	case 2:
		h := vsym.Uint32("height")
		got := mpd.NewVideoRepresentation(a, b, c, "30000/1001", int(n), int(k), int(h))
		vsym.Assert(vsym.DeepEqual(got, &mpd.RepresentationType{Id: a, Bandwidth: n,
			RepresentationBaseType: mpd.RepresentationBaseType{Codecs: b, MimeType: c, FrameRate: "30000/1001", Width: k, Height: h}}), "video representation")
	case 3:
		f := vsym.Bool("alignment")
		got := mpd.NewAdaptationSetWithParams(a, b, f, n)
		vsym.Assert(vsym.DeepEqual(got, &mpd.AdaptationSetType{ContentType: mpd.RFC6838ContentTypeType(a), SegmentAlignment: f,
			RepresentationBaseType: mpd.RepresentationBaseType{MimeType: b, StartWithSAP: n}}), "adaptation set")
	case 4:
		vsym.Assert(vsym.DeepEqual(mpd.NewDescriptor(a, b, c), &mpd.DescriptorType{SchemeIdUri: mpd.AnyURI(a), Value: b, Id: c}), "descriptor")
	case 5:
		vsym.Assert(vsym.DeepEqual(mpd.NewRole(a), &mpd.DescriptorType{SchemeIdUri: "urn:mpeg:dash:role:2011", Value: a}), "role")
	case 6:
		vsym.Assert(vsym.DeepEqual(mpd.NewBaseURL(a), &mpd.BaseURLType{Value: mpd.AnyURI(a)}), "base URL")
	case 7:
		got := mpd.NewMPD(a)
		vsym.Assert(got.Type != nil && vsym.EqString(*got.Type, a) && vsym.EqString(got.GetType(), a), "type")
		vsym.Assert(vsym.DeepEqual(got, &mpd.MPD{Type: &a, XMLNs: mpd.DASH_NAMESPACE}), "MPD")
		vsym.Assert((&mpd.MPD{}).GetType() == "static", "default type")
	case 8:
		vsym.Assert(*mpd.Ptr(n) == n && vsym.EqString(*mpd.Ptr(a), a), "pointer")
		p, q := mpd.Ptr(n), mpd.Ptr(n)
		*p = 3
		vsym.Assert(*q == n, "own pointer")
	case 9:
		s := vsym.Int32("seconds")
		vsym.Assert(int64(*mpd.Seconds2DurPtr(int(s))) == int64(s)*1e9, "seconds")
	case 10:
		vsym.Assert(vsym.DeepEqual(mpd.NewSCTE214ContentIdentifier(a, b), &mpd.SCTE214ContentIdentifierType{Type: a, Value: b}), "content identifier")
	case 11:
		vsym.Assert(vsym.DeepEqual(mpd.NewPeriod(), &mpd.Period{}) && vsym.DeepEqual(mpd.NewAdaptationSet(), &mpd.AdaptationSetType{}) &&
			vsym.DeepEqual(mpd.NewRepresentation(), &mpd.RepresentationType{}) && vsym.DeepEqual(mpd.NewSubRepresentation(), &mpd.SubRepresentationType{}) &&
			vsym.DeepEqual(mpd.NewSegmentTemplate(), &mpd.SegmentTemplateType{}) && vsym.DeepEqual(mpd.NewSegmentList(), &mpd.SegmentListType{}) &&
			vsym.DeepEqual(mpd.NewSegmentTimeline(), &mpd.SegmentTimelineType{}) && vsym.DeepEqual(mpd.NewInitializationSet(), &mpd.InitializationSetType{}) &&
			vsym.DeepEqual(mpd.NewPreselection(), &mpd.PreselectionType{}) && vsym.DeepEqual(mpd.NewContentProtection(), &mpd.ContentProtectionType{}) &&
			vsym.DeepEqual(mpd.NewProducerReferenceTime(), &mpd.ProducerReferenceTimeType{}) && vsym.DeepEqual(mpd.NewUIntVWithID(), &mpd.UIntVWithIDType{}), "empty")
	}
	vsym.Reach("end")
}
