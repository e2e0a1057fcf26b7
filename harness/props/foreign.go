package props

import (
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// has tells which kinds of fields t has.
func has(fs []field, kind byte) bool {
	for i := range fs {
		if fs[i].kind == kind {
			return true
		}
	}
	return false
}

func knows(fs []field, kind byte, name string) bool {
	for i := range fs {
		if fs[i].kind == kind && fs[i].local == name {
			return true
		}
	}
	return false
}

// otherCase is s with its first letter in the other case.
func otherCase(s string) string {
	c := s[0]
	if c >= 'a' && c <= 'z' {
		c -= 'a' - 'A'
	} else {
		c += 'a' - 'A'
	}
	return string([]byte{c}) + s[1:]
}

// foreign is any name that is not among the fields of the kind, of the k-th
// fields's name or of its own.
func foreign(fs []field, kind byte, k int) string {
	var s string
	switch vsym.Choose("name", 4) {
	case 0:
		s = string([]byte{'z', letter("name")})
	case 1: // as a field, but for the case
		if k >= len(fs) || fs[k].kind != kind {
			vsym.Assume(false)
		}
		s = otherCase(fs[k].local)
	case 2: // with another letter
		if k >= len(fs) || fs[k].kind != kind {
			vsym.Assume(false)
		}
		s = fs[k].local + "z"
	case 3: // what is known elsewhere
		if kind == '@' {
			s = "schemeIdUri"
		} else {
			s = "Period"
		}
	}
	if knows(fs, kind, s) {
		vsym.Assume(false)
	}
	return s
}

// home is an MPD with all fields of any one element set, that element, its
// fields, the MPD on the wire and the element on the wire.
func home() (m *mpd.MPD, v reflect.Value, fs []field, top, at *node) {
	t := schema[vsym.Choose("type", len(schema))]
	if t.home == "-" {
		vsym.Assume(false)
	}
	g := &values{dense: true, fixed: true}
	m, v = locus(t.name)
	fs = fieldsOf(t.name)
	for i := range fs {
		g.put(v, &fs[i], g.mark)
	}
	watchedAt, watchedType = v.Addr().Pointer(), t.name
	top = wireMPD(m)
	watchedAt = 0
	return m, v, fs, top, watched
}

func readsAs(doc string, m *mpd.MPD) {
	vsym.Observe("doc", doc)
	r, err := mpd.ReadFromString(doc)
	vsym.Assert(err == nil, "is read")
	if err == nil {
		sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	}
	vsym.Reach("end")
}

// H_M04_elements: an element that its parent does not know, with content that is
// known elsewhere, between any two kinds of elements of any parent.
func H_M04_elements() {
	m, _, fs, top, at := home()
	if has(fs, '#') {
		return
	}
	k := vsym.Choose("field", len(fs)+1)
	if k < len(fs) && fs[k].kind != '<' {
		return
	}
	name := foreign(fs, '<', k)
	x := "<" + name + " id='7' value='v'>text<BaseURL>b</BaseURL><!-- c --><Period id='q'><AdaptationSet/></Period>"
	for i := range at.kids {
		if i == 0 || at.kids[i].Name != at.kids[i-1].Name {
			x += "<" + at.kids[i].Local + "/>"
		}
	}
	x += "</" + name + ">"
	pos := len(at.kids)
	for i := range at.kids {
		if k < len(fs) && at.kids[i].Local == fs[k].local {
			pos = i + vsym.Choose("after", 2)
			break
		}
	}
	at.also = map[int]string{pos: x}
	readsAs(top.document(), m)
}

// H_M04_markup: a comment with any content, an instruction and white space,
// between any two kinds of elements of any parent, and before and after text.
func H_M04_markup() {
	m, _, fs, top, at := home()
	if has(fs, '#') {
		return
	}
	k := vsym.Choose("field", len(fs)+1)
	if k < len(fs) && fs[k].kind != '<' {
		return
	}
	c := vsym.String("comment", 2)
	for i := 0; i < len(c); i++ {
		vsym.Assume(c[i] >= ' ' && c[i] < 0x7f && c[i] != '-')
	}
	x := "<!--" + c + "--><?p <a>?><!-- <Period/> ]]> -->"
	if !has(fs, '.') {
		x += "\n \t"
	}
	pos := len(at.kids)
	for i := range at.kids {
		if k < len(fs) && at.kids[i].Local == fs[k].local {
			pos = i + vsym.Choose("after", 2)
			break
		}
	}
	at.also = map[int]string{pos: x}
	readsAs(top.document(), m)
}

// H_M04_attributes: an attribute that an element does not know, unless it keeps
// all of them.
func H_M04_attributes() {
	m, _, fs, top, at := home()
	if has(fs, '+') {
		return
	}
	k := vsym.Choose("field", len(fs)+1)
	if k < len(fs) && fs[k].kind != '@' {
		return
	}
	name := foreign(fs, '@', k)
	x := " " + name + "='" + string([]byte{letter("value")}) + "'"
	switch vsym.Choose("namespace", 3) {
	case 1:
		x = " xmlns:zz='urn:zz' zz:" + x[1:]
	case 2:
		x = " xml:" + x[1:]
	}
	at.more = x
	readsAs(top.document(), m)
}

// H_M04_style: any prefix for the namespace of the MPD, attributes in another
// order and other quotes, elements without content in one tag, text in CDATA
// sections, and what is before and after the MPD.
func H_M04_style() {
	m, _, fs, top, _ := home()
	st := style{}
	b := vsym.Choose("style", 16)
	st.prefixed, st.single, st.short, st.cdata = b&1 > 0, b&2 > 0, b&4 > 0, b&8 > 0
	st.reverse = st.single && !has(fs, '+')
	if (st.cdata || st.prefixed) && has(fs, '#') {
		return
	}
	switch vsym.Choose("prolog", 3) {
	case 1:
		st.prolog = "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"
		st.epilog = "\n"
	case 2:
		st.prolog = "<!DOCTYPE MPD [<!ENTITY x \"<y/>\">]>\n<!-- - --><?p?>"
		st.epilog = "<!-- </MPD> -->"
	}
	readsAs(top.styled(st), m)
}

// H_M04_mixed: text split by a comment, an instruction, a CDATA section or an
// unknown element at any place is read as a whole.
func H_M04_mixed() {
	m, v, fs, top, at := home()
	if at.text == "" || has(fs, '#') {
		return
	}
	x := []string{"<!-- c -->", "<?p q?>", "<![CDATA[]]>", "<z>zz<BaseURL/></z>", "<![CDATA[z]]>"}
	k := vsym.Choose("between", len(x))
	i := vsym.Choose("place", len(at.text)+1)
	t := at.text
	at.text = t[:i]
	at.also = map[int]string{0: x[k] + t[i:]}
	if k == 4 {
		for l := range fs {
			if fs[l].kind == '.' {
				d := fs[l].at(v, true)
				if d.Kind() == reflect.Ptr {
					d = d.Elem()
				}
				d.SetString(t[:i] + "z" + t[i:])
			}
		}
	}
	readsAs(top.document(), m)
}

// H_M04_cut: a document of any of some kinds that ends early is an error.
func H_M04_cut() {
	ts := []string{"MPD", "Period", "BaseURLType", "EventType", "ContentProtectionType"}
	t := ts[vsym.Choose("type", len(ts))]
	g := &values{dense: true, fixed: true}
	m, v := locus(t)
	fs := fieldsOf(t)
	for i := range fs {
		if fs[i].kind != '<' || vsym.Thorough() {
			g.put(v, &fs[i], g.mark)
		}
	}
	doc := wireMPD(m).document()
	k := vsym.Choose("cut", len(doc))
	r, err := mpd.ReadFromString(doc[:k])
	vsym.Assert(err != nil && r == nil, "a document that ends early is an error")
	vsym.Reach("end")
}
