package props

import (
	"bytes"
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// carried is s as XML can carry it: every byte that is not part of a valid
// UTF-8 character that XML allows becomes U+FFFD, and so does every valid
// UTF-8 character XML does not allow.
func carried(s []byte) []byte {
	out := []byte{}
	for i := 0; i < len(s); {
		r := &rstate{b: s, i: i}
		out2 := r.char(out)
		if !r.bad {
			out = out2
			i = r.i
			continue
		}
		n := 1
		// the two noncharacters U+FFFE and U+FFFF are single characters
		if i+2 < len(s) && s[i] == 0xEF && s[i+1] == 0xBF && s[i+2] >= 0xBE && s[i+2] <= 0xBF {
			n = 3
		}
		out = append(out, 0xEF, 0xBF, 0xBD)
		i += n
	}
	return out
}

// onlyText checks that doc is one element a with that attribute b and that
// text, and nothing else.
func onlyText(doc []byte, attr string, hasAttr bool, text []byte) {
	d := decoder(doc)
	t, err := d.Token()
	vsym.Assert(err == nil, "start element reads back")
	st, ok := t.(xml.StartElement)
	vsym.Assert(ok, "document starts with its element")
	if err != nil || !ok {
		return
	}
	vsym.Assert(sameName(st.Name, xml.Name{Local: "a"}), "element name")
	if hasAttr {
		vsym.Assert(len(st.Attr) == 1, "one attribute")
		if len(st.Attr) == 1 {
			vsym.Assert(sameName(st.Attr[0].Name, xml.Name{Local: "b"}), "attribute name")
			vsym.Assert(vsym.EqString(st.Attr[0].Value, attr), "attribute value reads back")
		}
	} else {
		vsym.Assert(len(st.Attr) == 0, "no attribute")
	}
	got := []byte{}
	for {
		t, err = d.Token()
		vsym.Assert(err == nil, "element content reads back")
		if err != nil {
			return
		}
		if c, ok := t.(xml.CharData); ok {
			got = append(got, c...)
			continue
		}
		_, ok = t.(xml.EndElement)
		vsym.Assert(ok, "nothing but text")
		break
	}
	vsym.Assert(vsym.EqBytes(got, text), "text reads back")
	_, err = d.Token()
	vsym.Assert(err == io.EOF, "nothing after the element")
	vsym.Reach("end")
}

func anyText() []byte {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	return vsym.Bytes("s", vsym.Choose("len", n+1))
}

// H_X01_token_attr: an attribute value of at most 4 bytes (5 thorough) given to
// the encoder as a token.
func H_X01_token_attr() {
	s := anyText()
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	err := e.EncodeToken(xml.StartElement{Name: xmlName("a"), Attr: []xml.Attr{xmlAttr("b", string(s))}})
	err2 := e.EncodeToken(xml.EndElement{Name: xmlName("a")})
	err3 := e.Close()
	vsym.Assert(err == nil && err2 == nil && err3 == nil, "any text is accepted")
	onlyText(w.Bytes(), string(carried(s)), true, nil)
}

// H_X01_token_text: character data of at most 4 bytes (5 thorough).
func H_X01_token_text() {
	s := anyText()
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	err := e.EncodeToken(xml.StartElement{Name: xmlName("a")})
	err1 := e.EncodeToken(xml.CharData(s))
	err2 := e.EncodeToken(xml.EndElement{Name: xmlName("a")})
	err3 := e.Close()
	vsym.Assert(err == nil && err1 == nil && err2 == nil && err3 == nil, "any text is accepted")
	onlyText(w.Bytes(), "", false, carried(s))
}

type textDoc struct {
	XMLName xml.Name "xml:\"a\""
	B       string   "xml:\"b,attr\""
	T       string   "xml:\",chardata\""
}

type bytesDoc struct {
	XMLName xml.Name "xml:\"a\""
	T       []byte   "xml:\",chardata\""
}

// H_X01_struct: the same in the string fields of a struct, attribute and text.
func H_X01_struct() {
	s := anyText()
	v := textDoc{}
	attr := vsym.Choose("where", 2) == 0
	want, wantT := "", []byte{}
	if attr {
		v.B = string(s)
		want = string(carried(s))
	} else {
		v.T = string(s)
		wantT = carried(s)
	}
	b, err := xml.Marshal(&v)
	vsym.Assert(err == nil, "any text is accepted")
	onlyText(b, want, true, wantT)
	var r textDoc
	err = xml.Unmarshal(b, &r)
	vsym.Assert(err == nil, "the document reads back")
	vsym.Assert(vsym.And(vsym.EqString(r.B, want), vsym.EqString(r.T, string(wantT))), "the field reads back")
}

// H_X01_bytes: the same in a byte slice field.
func H_X01_bytes() {
	s := anyText()
	b, err := xml.Marshal(&bytesDoc{T: s})
	vsym.Assert(err == nil, "any text is accepted")
	onlyText(b, "", false, carried(s))
}

type elemDoc struct {
	XMLName xml.Name "xml:\"r\""
	A       string   "xml:\"a\""
}

// H_X01_elem: the same as the text of a string element, indented and not.
func H_X01_elem() {
	s := anyText()
	var b []byte
	var err error
	if vsym.Choose("indent", 2) == 0 {
		b, err = xml.Marshal(&elemDoc{A: string(s)})
	} else {
		b, err = xml.MarshalIndent(&elemDoc{A: string(s)}, "", " ")
	}
	vsym.Assert(err == nil, "any text is accepted")
	var r elemDoc
	err = xml.Unmarshal(b, &r)
	vsym.Assert(err == nil, "the document reads back")
	vsym.Assert(vsym.EqString(r.A, string(carried(s))), "the field reads back")
	vsym.Reach("end")
}

// H_X01_escape: text escaped on its own, in content and between quotes of
// either kind.
func H_X01_escape() {
	s := anyText()
	var w bytes.Buffer
	k := vsym.Choose("where", 4)
	pre := []string{"<a>", "<a>", "<a b='", "<a b=\""}[k]
	w.WriteString(pre)
	if k == 1 {
		xml.Escape(&w, s)
	} else {
		err := xml.EscapeText(&w, s)
		vsym.Assert(err == nil, "no error")
	}
	w.WriteString([]string{"</a>", "</a>", "'></a>", "\"></a>"}[k])
	if k < 2 {
		onlyText(w.Bytes(), "", false, carried(s))
	} else {
		onlyText(w.Bytes(), string(carried(s)), true, nil)
	}
}

type cdataDoc struct {
	XMLName xml.Name "xml:\"a\""
	T       string   "xml:\",cdata\""
}

// H_X01_cdata: text of at most 6 bytes (7 thorough) out of ], >, <, &, line
// feed and x in a field written as a CDATA section. (Such a section cannot
// carry carriage returns or illegal characters; those are outside.)
func H_X01_cdata() {
	n := 6
	if vsym.Thorough() {
		n = 7
	}
	s := vsym.Bytes("s", vsym.Choose("len", n+1))
	for _, c := range s {
		ok := vsym.Or(vsym.Or(c == ']', c == '>'), vsym.Or(c == '<', c == '&'))
		vsym.Assume(vsym.Or(ok, vsym.Or(c == '\n', c == 'x')))
	}
	b, err := xml.Marshal(&cdataDoc{T: string(s)})
	vsym.Assert(err == nil, "any text is accepted")
	onlyText(b, "", false, s)
}
