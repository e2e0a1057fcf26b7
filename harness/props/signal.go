package props

import (
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// The namespaces of SCTE 35: the canonical one, and the one before it.
var scteSpaces = []string{"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016"}

var scteMode int

// splice is an MPD with a value for one field of any element of SCTE 35, or for
// all of them. The elements are in one of the two namespaces, or in both by turns.
func splice(g *values, all bool) (*mpd.MPD, string) {
	var ts []string
	for i := range schema {
		if schema[i].free && schema[i].home != "-" {
			ts = append(ts, schema[i].name)
		}
	}
	scteTurn = 0
	scteMode = vsym.Choose("namespaces", 3)
	switch scteMode {
	case 0:
		scteUsed = scteSpaces[:1]
	case 1:
		scteUsed = scteSpaces[1:]
	case 2:
		scteUsed = scteSpaces
	}
	defer func() { scteUsed = scteSpaces[:1] }()
	t := ts[vsym.Choose("type", len(ts))]
	m, v := locus(t)
	fs := fieldsOf(t)
	if all {
		for i := range fs {
			g.put(v, &fs[i], g.mark)
		}
		return m, t
	}
	if i := vsym.Choose("field", len(fs)+1); i < len(fs) {
		g.put(v, &fs[i], g.mark)
	}
	return m, t
}

// spliced asserts that a document with the model m is read as m, with the
// namespaces of the elements, and that this is written as it was.
func spliced(m *mpd.MPD, st style) {
	n := wireMPD(m)
	s := n.styled(st)
	vsym.Observe("doc", s)
	r, err := mpd.ReadFromString(s)
	vsym.Assert(err == nil, "is read")
	if err != nil {
		return
	}
	sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	w, err := r.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	vsym.Observe("written", w)
	sameNode(parse(w), n)
	vsym.Reach("end")
}

// H_M05_one: any value in any one field of any element of SCTE 35, with prefixes
// for the namespaces, or with declarations of default namespaces where all are
// in the canonical one (thorough: wherever they are).
func H_M05_one() {
	m, _ := splice(sparse(), false)
	local := false
	if vsym.Thorough() {
		local = vsym.Choose("form", 2) == 1
	} else {
		local = scteMode == 0
	}
	spliced(m, style{local: local})
}

// H_M05_all: values in all fields of any element of SCTE 35.
func H_M05_all() {
	m, _ := splice(&values{dense: true}, true)
	spliced(m, style{local: vsym.Choose("form", 2) == 1, prefixed: vsym.Choose("root", 2) == 1})
}

// H_M05_written: any value in any one field of any element of SCTE 35, made by
// hand.
func H_M05_written() {
	m, _ := splice(sparse(), false)
	s, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	vsym.Observe("doc", s)
	sameNode(parse(s), wireMPD(m))
	vsym.Reach("end")
}

// H_M05_inner: the content of an extension is kept as it is.
func H_M05_inner() {
	inner := []string{
		"<a/>", "<a></a>", `<a b="1"><c>x</c></a>`, "text", "a &amp; b", "<!-- c --><a/>", "<![CDATA[<]]>", "<?p q?>",
		`<x:a xmlns:x="urn:x"><x:b x:c="1"/></x:a>`, `<a xmlns="urn:x"><b/></a>`, " ", "\n <a/>\n", "&#x41;&lt;", "<Ext><Ext/></Ext>", "<a/><b/><a/>",
	}
	k := vsym.Choose("inner", len(inner))
	s := inner[k] + string([]byte{letter("more")})
	ns := scteSpaces[vsym.Choose("namespace", 2)]
	open := []string{
		`<s:Signal xmlns:s="` + ns + `"><s:SpliceInfoSection><s:Ext>`,
		`<Signal xmlns="` + ns + `"><SpliceInfoSection><Ext>`,
	}
	end := []string{"</s:Ext></s:SpliceInfoSection></s:Signal>", "</Ext></SpliceInfoSection></Signal>"}
	f := vsym.Choose("form", 2)
	doc := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period><EventStream schemeIdUri="u"><Event>` + open[f] + s + end[f] + "</Event></EventStream></Period></MPD>"
	ext := func(doc string) string {
		r, err := mpd.ReadFromString(doc)
		vsym.Assert(err == nil, "is read")
		if err != nil {
			return ""
		}
		e := r.Periods[0].EventStreams[0].Events[0]
		vsym.Assert(e.Signal != nil && e.Signal.SpliceInfoSection != nil && e.Signal.SpliceInfoSection.Ext != nil, "the elements are there")
		x := e.Signal.SpliceInfoSection.Ext
		vsym.Assert(vsym.EqString(x.XMLName.Space, ns), "its namespace")
		vsym.Assert(vsym.EqString(x.InnerXML, s), "its content, verbatim")
		w, err := r.WriteToString("", false)
		vsym.Assert(err == nil, "is written")
		return w
	}
	ext(ext(doc))
	vsym.Reach("end")
}

// H_M05_recognised: any scheme of about the length of those of SCTE 35 is one of
// them or not.
func H_M05_recognised() {
	uris := []string{"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin"}
	n := []int{0, 1, 20, 23, 24, 25, 27, 28, 29}
	s := vsym.String("scheme", n[vsym.Choose("length", len(n))])
	is := false
	for _, u := range uris {
		if s == u {
			is = true
		}
	}
	es := &mpd.EventStreamType{SchemeIdUri: mpd.AnyURI(s)}
	vsym.Assert(es.IsSCTE35() == is, "one of the schemes or not")
	if is {
		vsym.Reach("is")
	} else {
		vsym.Reach("is not")
	}
}

// H_M05_schemes: the scheme that a document gives its events.
func H_M05_schemes() {
	uris := []string{"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin"}
	k := vsym.Choose("scheme", 3)
	b := []byte(uris[k])
	i := vsym.Choose("place", len(b))
	c := vsym.Byte("character")
	vsym.Assume(c > ' ' && c < 0x7f && c != '<' && c != '&' && c != '"')
	b[i] = c
	doc := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period><EventStream schemeIdUri="` + string(b) + `"><Event/></EventStream></Period></MPD>`
	r, err := mpd.ReadFromString(doc)
	vsym.Assert(err == nil, "is read")
	if err != nil {
		return
	}
	es := r.Periods[0].EventStreams[0]
	vsym.Assert(es.IsSCTE35() == (c == uris[k][i]), "one of the schemes or not")
	vsym.Reach("end")
}

// H_M05_section: the splice information of an event, however it is carried.
func H_M05_section() {
	e := &mpd.EventType{}
	var direct, wrapped *mpd.SpliceInfoSectionType
	if vsym.Choose("direct", 2) == 1 {
		direct = mpd.NewSpliceInfoSection()
		direct.PtsAdjustment = 1 + uint64(vsym.Byte("pts"))
		e.SpliceInfoSection = direct
	}
	switch vsym.Choose("signal", 4) {
	case 1:
		e.Signal = mpd.NewSignal()
	case 2:
		e.Signal = mpd.NewSignal()
		wrapped = mpd.NewSpliceInfoSection()
		wrapped.Tier = mpd.Ptr(vsym.Uint16("tier"))
		e.Signal.SpliceInfoSection = wrapped
	case 3:
		e.Signal = mpd.NewSignal()
		e.Signal.Binary = mpd.NewBinary("/DA=")
	}
	want := wrapped
	if want == nil {
		want = direct
	}
	vsym.Assert(e.SpliceInfo() == want, "the splice information")
	m := &mpd.MPD{XMLNs: mpd.DASH_NAMESPACE, Periods: []*mpd.Period{{EventStreams: []*mpd.EventStreamType{{Events: []*mpd.EventType{e}}}}}}
	s, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	r, err := mpd.ReadFromString(s)
	vsym.Assert(err == nil, "is read")
	if err != nil {
		return
	}
	got := r.Periods[0].EventStreams[0].Events[0].SpliceInfo()
	vsym.Assert((got == nil) == (want == nil), "there is one or not")
	if got != nil && want != nil {
		sameModel(reflect.ValueOf(want).Elem(), reflect.ValueOf(got).Elem(), "SpliceInfoSectionType")
	}
	vsym.Reach("end")
}

func printable(name string, max int) string {
	s := vsym.String(name, vsym.Choose(name+" length", max+1))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	return s
}

func canonical(n xml.Name, local string) {
	vsym.Assert(n.Space == scteSpaces[0] && n.Local == local, "the name of a new "+local)
}

// H_M05_constructors: what the constructors make has the name and the values it
// should, and is written and read as that.
func H_M05_constructors() {
	sig, sec := mpd.NewSignal(), mpd.NewSpliceInfoSection()
	canonical(sig.XMLName, "Signal")
	canonical(sec.XMLName, "SpliceInfoSection")
	e := &mpd.EventType{Signal: sig}
	switch vsym.Choose("constructor", 11) {
	case 0:
		s := printable("value", 2)
		b := mpd.NewBinary(s)
		canonical(b.XMLName, "Binary")
		vsym.Assert(vsym.EqString(b.Value, s) && b.SignalType == "", "the value of a new Binary")
		sig.Binary = b
		sec = nil
	case 1:
		sec.SpliceNull = mpd.NewSpliceNull()
		canonical(sec.SpliceNull.XMLName, "SpliceNull")
	case 2:
		sec.SpliceSchedule = mpd.NewSpliceSchedule()
		canonical(sec.SpliceSchedule.XMLName, "SpliceSchedule")
		vsym.Assert(len(sec.SpliceSchedule.Events) == 0, "no events in a new SpliceSchedule")
	case 3:
		sec.SpliceInsert = mpd.NewSpliceInsert()
		canonical(sec.SpliceInsert.XMLName, "SpliceInsert")
	case 4:
		sec.TimeSignal = mpd.NewTimeSignal()
		canonical(sec.TimeSignal.XMLName, "TimeSignal")
	case 5:
		sec.BandwidthReservation = mpd.NewBandwidthReservation()
		canonical(sec.BandwidthReservation.XMLName, "BandwidthReservation")
	case 6:
		id := vsym.Uint32("identifier")
		sec.PrivateCommand = mpd.NewPrivateCommand(id)
		canonical(sec.PrivateCommand.XMLName, "PrivateCommand")
		vsym.Assert(sec.PrivateCommand.Identifier == id, "the identifier of a new PrivateCommand")
		vsym.Assume(id < 1000)
	case 7:
		sec.TimeSignal = mpd.NewTimeSignal()
		sec.TimeSignal.SpliceTime = mpd.NewSpliceTime()
		canonical(sec.TimeSignal.SpliceTime.XMLName, "SpliceTime")
		vsym.Assert(sec.TimeSignal.SpliceTime.PtsTime == nil, "no time in a new SpliceTime")
	case 8:
		auto, d := vsym.Bool("auto"), vsym.Uint64("duration")
		sec.SpliceInsert = mpd.NewSpliceInsert()
		b := mpd.NewBreakDuration(auto, d)
		canonical(b.XMLName, "BreakDuration")
		vsym.Assert(b.AutoReturn == auto && b.Duration == d, "the values of a new BreakDuration")
		sec.SpliceInsert.BreakDuration = b
		vsym.Assume(d < 1000)
	case 9:
		d := mpd.NewSegmentationDescriptor()
		canonical(d.XMLName, "SegmentationDescriptor")
		sec.SegmentationDescriptors = append(sec.SegmentationDescriptors, d)
	case 10:
		s := printable("value", 2)
		u := mpd.NewSegmentationUpid(s)
		canonical(u.XMLName, "SegmentationUpid")
		vsym.Assert(vsym.EqString(u.Value, s), "the value of a new SegmentationUpid")
		d := mpd.NewSegmentationDescriptor()
		d.SegmentationUpids = append(d.SegmentationUpids, u)
		sec.SegmentationDescriptors = append(sec.SegmentationDescriptors, d)
	}
	sig.SpliceInfoSection = sec
	m := &mpd.MPD{XMLNs: mpd.DASH_NAMESPACE, Periods: []*mpd.Period{{EventStreams: []*mpd.EventStreamType{{Events: []*mpd.EventType{e}}}}}}
	spliced(m, style{})
	s, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	sameNode(parse(s), wireMPD(m))
}

// H_M05_identifier: a content identifier of SCTE 214 with any short type and
// value, and of another namespace, which is none.
func H_M05_identifier() {
	t, v := printable("type", 1), printable("value", 2)
	c := mpd.NewSCTE214ContentIdentifier(t, v)
	vsym.Assert(vsym.EqString(c.Type, t) && vsym.EqString(c.Value, v) && len(c.AnyAttrs) == 0, "the values of a new ContentIdentifier")
	d := &mpd.DescriptorType{SchemeIdUri: mpd.SCTE214SchemeIdAssetIdUpid}
	d.SCTE214ContentIdentifiers = append(d.SCTE214ContentIdentifiers, c)
	p := &mpd.Period{}
	if vsym.Choose("where", 2) == 0 {
		p.AssetIdentifier = d
	} else {
		p.SupplementalProperties = append(p.SupplementalProperties, d)
	}
	spliced(&mpd.MPD{XMLNs: mpd.DASH_NAMESPACE, Periods: []*mpd.Period{p}}, style{local: vsym.Choose("form", 2) == 1})
}

// H_M05_other: an element or attribute with a name of SCTE 214 in a namespace
// that is not its own is not taken for it.
func H_M05_other() {
	ns := []byte("urn:scte:dash:scte214-extensions")
	c := vsym.Byte("character")
	vsym.Assume(c > ' ' && c < 0x7f && c != '<' && c != '&' && c != '"')
	i := vsym.Choose("place", len(ns)+3)
	same := false
	switch {
	case i < len(ns):
		same = c == ns[i]
		ns[i] = c
	case i == len(ns):
		ns = append(ns, c)
	case i == len(ns)+1:
		ns = ns[:len(ns)-1]
	default:
		ns = []byte("urn:scte:dash:2021")
	}
	doc := `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" xmlns:s="` + string(ns) + `"><Period><AssetIdentifier schemeIdUri="u"><s:ContentIdentifier type="t" value="v"/></AssetIdentifier>` +
		`<AdaptationSet s:supplementalProfiles="p" s:supplementalCodecs="c"/></Period></MPD>`
	r, err := mpd.ReadFromString(doc)
	vsym.Assert(err == nil, "is read")
	if err != nil {
		return
	}
	a, as := r.Periods[0].AssetIdentifier, r.Periods[0].AdaptationSets[0]
	if same {
		vsym.Assert(len(a.SCTE214ContentIdentifiers) == 1 && string(as.SCTE214SupplementalProfiles) == "p" && string(as.SCTE214SupplementalCodecs) == "c", "they are read")
		vsym.Reach("same")
	} else {
		vsym.Assert(len(a.SCTE214ContentIdentifiers) == 0 && string(as.SCTE214SupplementalProfiles) == "" && string(as.SCTE214SupplementalCodecs) == "", "others are not taken for them")
		vsym.Reach("other")
	}
}
