package props

import (
	"bytes"
	"errors"
	"reflect"
	"strconv"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// failing writes half an element and fails.
type failing struct{}

func (failing) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: "urn:x", Local: "p"}, Value: "1"})
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:y", Local: "y"}})
	return errors.New("failing")
}

type panicking struct{}

func (panicking) MarshalText() ([]byte, error) { panic("panicking") }

type badDoc struct {
	XMLName xml.Name `xml:"urn:x bad"`
	A       string   `xml:"a"`
	B       any      `xml:"b"`
}

const nBefore = 12

// foreignDoc is an MPD in which prefixes and entities are used in other ways.
const foreignDoc = `<q:MPD xmlns:q="urn:mpeg:dash:schema:mpd:2011" xmlns="urn:other" xmlns:xlink="urn:not-xlink" ` +
	`q:type="no" type="dynamic" profiles="a&amp;b"><q:Period xlink:href="h" id="p0"><x/></q:Period></q:MPD>`

// before does one of nBefore operations, some of which fail.
func before(k int) {
	switch k {
	case 0: // nothing
	case 1:
		m := sinkDoc(false)
		m.Id = "<" + dense2("id") + ">"
		_, err := m.WriteToString(" ", true)
		vsym.Assert(err == nil, "the first is written")
	case 2:
		limit := vsym.Int64("limit")
		vsym.Assume(vsym.And(limit >= 0, limit < 140))
		s := &sink{limit: limit}
		_, err := sinkDoc(false).Write(s, "\t", vsym.Choose("header", 2) == 1)
		vsym.Assert(err != nil, "the first fails")
	case 3:
		_, err := mpd.WriteXML(&badDoc{A: "a", B: failing{}}, &strings.Builder{}, "   ", false)
		vsym.Assert(err != nil, "the first fails")
	case 4:
		_, err := mpd.WriteXML(&badDoc{B: func() {}}, &strings.Builder{}, "", true)
		vsym.Assert(err != nil, "the first fails")
	case 5:
		func() {
			defer func() { recover() }()
			mpd.WriteXML(&badDoc{A: "a", B: panicking{}}, &strings.Builder{}, " ", true)
		}()
	case 6: // left unfinished
		e := xml.AcquireEncoder(&strings.Builder{})
		e.Indent("--", "\t")
		e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:mpeg:dash:schema:mpd:2011", Local: "a"},
			Attr: []xml.Attr{{Name: xml.Name{Space: "http://www.w3.org/1999/xlink", Local: "href"}, Value: "v"},
				{Name: xml.Name{Space: "urn:" + dense2("ns"), Local: "b"}, Value: "v"}}})
		e.EncodeToken(xml.StartElement{Name: xml.Name{Local: dense2("el")}})
		if vsym.Choose("text", 2) == 1 {
			e.EncodeToken(xml.CharData("t\x01"))
		}
		xml.ReleaseEncoder(e)
	case 7: // finished and closed, with an error remembered
		e := xml.AcquireEncoder(&sink{limit: 1, once: true})
		e.Indent("", "  ")
		e.EncodeToken(xml.EndElement{Name: xmlName("never")})
		e.Encode(sinkDoc(false))
		e.Close()
		e.EncodeToken(xml.Comment("after"))
		xml.ReleaseEncoder(e)
	case 8:
		_, err := mpd.ReadFromString(foreignDoc[:[]int{60, 100, 150, len(foreignDoc) - 12, len(foreignDoc) - 3}[vsym.Choose("cut", 5)]])
		vsym.Assert(err != nil, "the first fails")
	case 9:
		r, err := mpd.ReadFromString(foreignDoc)
		vsym.Assert(err == nil, "the first is read")
		if err == nil {
			c := mpd.Clone(r)
			c.Periods[0].Id = "changed"
			c.WriteToString("", false)
		}
	case 10: // other types of the same names
		type MPD struct {
			Profiles int    `xml:"type,attr"`
			Period   string `xml:",comment"`
		}
		s, err := xml.Marshal(&MPD{3, "c"})
		vsym.Assert(err == nil && string(s) == `<MPD type="3"><!--c--></MPD>`, "the first is written")
		var m MPD
		err = xml.Unmarshal([]byte(`<MPD type="4"><!--d--></MPD>`), &m)
		vsym.Assert(err == nil && m == MPD{4, "d"}, "the first is read")
	case 11: // the document does not fit the type
		var p mpd.Period
		err := xml.Unmarshal([]byte(`<Period start="PT1S" bitstreamSwitching="maybe"><AdaptationSet id="x"/></Period>`), &p)
		vsym.Assert(err != nil, "the first fails")
	}
}

// dense2 is any two letters.
func dense2(name string) string { return string([]byte{letter(name), letter(name)}) }

// reference is m written by an encoder that has written nothing before.
func reference(v any, indent string, header bool) string {
	var b strings.Builder
	if header {
		b.WriteString(xml.Header)
	}
	e := xml.NewEncoder(&b)
	e.Indent("", indent)
	err := e.Encode(v)
	vsym.Assert(err == nil, "is written afresh")
	return b.String()
}

// prior chooses a form of the two operations and does the first one.
func prior() (indent string, header bool) {
	if vsym.Choose("form", 2) == 1 {
		indent, header = "  ", true
	}
	before(vsym.Choose("before", nBefore))
	return
}

// fullModel is an MPD with values in all fields of any one element.
func fullModel() *mpd.MPD {
	m, _ := anyField(&values{dense: true, fixed: !vsym.Thorough()}, true)
	return m
}

// H_X09_written: any operation and then writing an MPD with all fields of any one
// element: the result is the same as by a new encoder and has the content of the
// model.
func H_X09_written() {
	m := fullModel()
	indent, header := prior()
	s, err := m.WriteToString(indent, header)
	vsym.Assert(err == nil, "is written")
	vsym.Observe("doc", s)
	if indent == "" {
		sameNode(parse(s), wireMPD(m))
	}
	vsym.Assert(vsym.EqString(s, reference(m, indent, header)), "the same bytes")
	vsym.Reach("end")
}

// H_X09_read: any operation and then reading: the result is the model.
func H_X09_read() {
	m := fullModel()
	before(vsym.Choose("before", nBefore))
	r, err := mpd.ReadFromString(wireMPD(m).document())
	vsym.Assert(err == nil, "is read")
	if err == nil {
		sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	}
	vsym.Reach("end")
}

// H_X09_again: writing and reading again after any operation gives the same
// again, in memory of its own.
func H_X09_again() {
	m := fullModel()
	indent, header := "", false
	if vsym.Choose("form", 2) == 1 {
		indent, header = "  ", true
	}
	s, err := m.WriteToString(indent, header)
	vsym.Assert(err == nil, "is written")
	r, err := mpd.ReadFromString(s)
	vsym.Assert(err == nil, "is read")
	before(vsym.Choose("before", nBefore))
	s2, err := m.WriteToString(indent, header)
	vsym.Assert(err == nil, "is written again")
	vsym.Assert(vsym.EqString(s, s2), "the same bytes")
	r2, err := mpd.ReadFromString(s2)
	vsym.Assert(err == nil, "is read again")
	if r != nil && r2 != nil {
		sameTree(reflect.ValueOf(r).Elem(), reflect.ValueOf(r2).Elem(), "")
	}
	vsym.Reach("end")
}

// H_X09_any: an MPD with any value in any one field is written and read the same
// twice.
func H_X09_any() {
	m, _ := anyField(sparse(), false)
	s, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	before([]int{3, 6}[vsym.Choose("before", 2)])
	s2, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written again")
	vsym.Assert(vsym.EqString(s, s2), "the same bytes")
	vsym.Reach("end")
}

// H_X09_input: overwriting the bytes read does not change the result.
func H_X09_input() {
	m, _ := anyField(&values{dense: true}, true)
	data := []byte(wireMPD(m).document())
	r, err := mpd.MPDFromBytes(data)
	vsym.Assert(err == nil, "is read")
	for i := range data {
		data[i] = 'X'
	}
	mpd.MPDFromBytes(data)
	if err == nil {
		sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	}
	vsym.Reach("end")
}

// H_X09_encoder: tokens written to an encoder taken from the pool after any
// operation, indented or not: the same bytes and errors as with a new encoder.
func H_X09_encoder() {
	n1, n2 := dense2("name"), dense2("name")
	sp := []string{"", "urn:x", "urn:mpeg:dash:schema:mpd:2011"}[vsym.Choose("space", 3)]
	toks := []xml.Token{
		xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)},
		xml.StartElement{Name: xml.Name{Space: sp, Local: n1}, Attr: []xml.Attr{{Name: xml.Name{Space: "urn:y", Local: "a"}, Value: "<" + n2}}},
		xml.StartElement{Name: xml.Name{Space: "urn:x", Local: n2}},
		xml.CharData(n1 + "&"),
		xml.EndElement{Name: xml.Name{Space: "urn:x", Local: n2}},
		xml.Comment(n1),
		xml.StartElement{Name: xml.Name{Local: n2}},
		xml.EndElement{Name: xml.Name{Local: n2}},
		xml.EndElement{Name: xml.Name{Space: sp, Local: n1}},
	}
	toks = toks[vsym.Choose("without declaration", 2) : len(toks)-vsym.Choose("unfinished", 2)]
	indent := vsym.Choose("indent", 2) == 1
	before(vsym.Choose("before", nBefore))
	run := func(e *xml.Encoder) string {
		r := ""
		if indent {
			e.Indent("", "  ")
		}
		for _, t := range toks {
			if err := e.EncodeToken(t); err != nil {
				r += err.Error()
			}
		}
		if err := e.Close(); err != nil {
			r += err.Error()
		}
		return r
	}
	var a, b strings.Builder
	e := xml.AcquireEncoder(&a)
	ra := run(e)
	xml.ReleaseEncoder(e)
	rb := run(xml.NewEncoder(&b))
	vsym.Observe("pooled", a.String())
	vsym.Assert(vsym.EqString(a.String(), b.String()), "the same bytes")
	vsym.Assert(vsym.EqString(ra, rb), "the same errors")
	vsym.Reach("end")
}

// H_X09_two: two encoders taken from the pool at once do not affect each other.
func H_X09_two() {
	before(vsym.Choose("before", nBefore))
	var a, b strings.Builder
	e, f := xml.AcquireEncoder(&a), xml.AcquireEncoder(&b)
	x, y := dense2("x"), dense2("y")
	start := func(n string) xml.Token {
		return xml.StartElement{Name: xmlName(n), Attr: []xml.Attr{{Name: xml.Name{Space: "urn:" + n, Local: "q"}, Value: "1"}}}
	}
	e.Indent("", " ")
	e.EncodeToken(start(x))
	f.EncodeToken(start(y))
	e.EncodeToken(xml.CharData(x))
	f.EncodeToken(xml.CharData(y))
	err1 := e.EncodeToken(xml.EndElement{Name: xmlName(x)})
	err2 := f.EncodeToken(xml.EndElement{Name: xmlName(y)})
	err3, err4 := e.Close(), f.Close()
	vsym.Assert(err1 == nil && err2 == nil && err3 == nil && err4 == nil, "no errors")
	for i, n := range []string{x, y} {
		r := parse([]string{a.String(), b.String()}[i])
		vsym.Assert(vsym.EqString(r.Local, n) && r.Space == "" && r.text == n && len(r.kids) == 0, "the element")
		vsym.Assert(len(r.attr) == 1 && vsym.EqString(r.attr[0].Name.Space, "urn:"+n) && r.attr[0].Name.Local == "q", "the attribute")
	}
	xml.ReleaseEncoder(e)
	xml.ReleaseEncoder(f)
	vsym.Reach("end")
}

// H_X09_names: names seen many times, and more names than are remembered, do not
// change how names are read.
func H_X09_names() {
	x, y := dense2("x"), dense2("y")
	var b bytes.Buffer
	b.WriteString("<" + x + " " + y + `="1">`)
	n := []int{0, 3, 1100}[vsym.Choose("names", 3)]
	for i := 0; i < n; i++ {
		b.WriteString("<n" + strconv.Itoa(i) + "/>")
	}
	b.WriteString("<" + y + "><" + x + ":" + y + " " + x + `="2" ` + y + `="3"/></` + y + "></" + x + ">")
	d := xml.NewDecoder(bytes.NewReader(b.Bytes()))
	var names []string
	var spaces []string
	for {
		t, err := d.RawToken()
		if err != nil {
			break
		}
		if s, ok := t.(xml.StartElement); ok {
			names, spaces = append(names, s.Name.Local), append(spaces, s.Name.Space)
			for _, a := range s.Attr {
				names = append(names, a.Name.Local)
				spaces = append(spaces, a.Name.Space)
			}
		}
	}
	want := []string{x, y}
	ws := []string{"", ""}
	for i := 0; i < n; i++ {
		want, ws = append(want, "n"+strconv.Itoa(i)), append(ws, "")
	}
	want, ws = append(want, y, y, x, y), append(ws, "", x, "", "")
	vsym.Assert(len(names) == len(want), "all names")
	for i := range names {
		if i < len(want) {
			vsym.Assert(vsym.EqString(names[i], want[i]) && vsym.EqString(spaces[i], ws[i]), "name as in the document")
		}
	}
	vsym.Reach("end")
}
