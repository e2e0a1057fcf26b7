package props

import (
	"bytes"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

const nOps = 9

// operation is one of nOps operations on m or a document with its content.
func operation(k int, m *mpd.MPD, doc string) func() {
	switch k {
	case 0:
		return func() {
			s, err := m.WriteToString("", false)
			vsym.Assert(err == nil && len(s) > 0, "is written")
		}
	case 1:
		return func() {
			var b bytes.Buffer
			_, err := m.Write(&b, "  ", true)
			vsym.Assert(err == nil && b.Len() > 0, "is written")
		}
	case 2:
		return func() {
			_, err := mpd.ReadFromString(doc)
			vsym.Assert(err == nil, "is read")
		}
	case 3:
		return func() { mpd.Clone(m) }
	case 4:
		return func() {
			_, err := mpd.WriteXML(&badDoc{A: "a", B: failing{}}, &strings.Builder{}, " ", false)
			vsym.Assert(err != nil, "fails")
		}
	case 5:
		return func() {
			e := xml.AcquireEncoder(&strings.Builder{})
			e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:x", Local: "a"}})
			e.EncodeElement(m, xml.StartElement{Name: xmlName("b")})
			xml.ReleaseEncoder(e)
		}
	case 6:
		return func() {
			_, err := mpd.ReadFromString(foreignDoc[:150])
			vsym.Assert(err != nil, "fails")
		}
	case 7:
		return func() {
			d := xml.NewDecoder(strings.NewReader(foreignDoc))
			d.Strict = false
			d.AutoClose = xml.HTMLAutoClose
			d.Entity = xml.HTMLEntity
			for {
				t, err := d.Token()
				if err != nil {
					break
				}
				xml.CopyToken(t)
			}
		}
	case 8:
		return func() {
			b, err := xml.Marshal(m)
			vsym.Assert(err == nil, "is written")
			var r mpd.MPD
			xml.Unmarshal(b, &r)
			for _, p := range m.Periods {
				p.GetStart()
				p.GetDuration()
				p.GetType()
				p.Clone()
				for _, a := range p.AdaptationSets {
					a.Clone()
					for _, r := range a.Representations {
						r.GetInit()
						r.GetMedia()
						r.GetCodecs()
					}
				}
			}
			mpd.ConvertToDateTimeMS(1700000000123).ConvertToSeconds()
			mpd.ParseDuration("PT1H2M3.5S")
		}
	}
	panic("operation")
}

// H_X10_separate: two operations at once on separate documents with all fields of
// any one element, in the same element or one in another one.
func H_X10_separate() {
	m1 := fullModel()
	d1 := wireMPD(m1).document()
	m2, d2 := mpd.Clone(m1), d1
	if vsym.Choose("other", 2) == 1 {
		m2 = sinkDoc(false)
		d2 = wireMPD(m2).document()
	}
	a := vsym.Choose("first", nOps)
	b := vsym.Choose("second", nOps)
	vsym.Parallel(operation(a, m1, d1), operation(b, m2, d2))
	vsym.Reach("end")
}

// H_X10_same: the same document is written, cloned or read by several operations
// at once.
func H_X10_same() {
	m := fullModel()
	doc := wireMPD(m).document()
	a := vsym.Choose("first", 4)
	b := vsym.Choose("second", 4)
	vsym.Parallel(operation(a, m, doc), operation(b, m, doc))
	vsym.Reach("end")
}

// H_X10_any: an MPD with any value in any one field is written or read while
// another one with the same content is.
func H_X10_any() {
	m, _ := anyField(sparse(), false)
	k := 2 * vsym.Choose("op", 2)
	doc := ""
	if k == 2 {
		doc = wireMPD(m).document()
	}
	vsym.Parallel(operation(k, m, doc), operation(k, mpd.Clone(m), doc))
	vsym.Reach("end")
}

// H_X10_three: three operations at once: what the first one gives back to the
// pools is used by one of the others only.
func H_X10_three() {
	m := [3]*mpd.MPD{sinkDoc(false), sinkDoc(false), sinkDoc(false)}
	warm := vsym.Choose("warm", 2) == 1
	var ops [3]func()
	for i := range ops {
		doc := wireMPD(m[i]).document()
		k := vsym.Choose("op", nOps)
		ops[i] = operation(k, m[i], doc)
		if warm {
			operation(k, sinkDoc(false), doc)()
		}
	}
	vsym.Parallel(ops[0], ops[1], ops[2])
	vsym.Reach("end")
}
