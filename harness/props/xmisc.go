package props

import (
	"bytes"
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// aroundToken writes <a>, tok, text, </a> and reports whether tok was accepted.
func aroundToken(tok xml.Token) (doc []byte, ok bool) {
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	e.EncodeToken(xml.StartElement{Name: xmlName("a")})
	err := e.EncodeToken(tok)
	e.EncodeToken(xml.CharData("t"))
	e.EncodeToken(xml.EndElement{Name: xmlName("a")})
	err2 := e.Close()
	vsym.Assert(err2 == nil, "the rest is written")
	return w.Bytes(), err == nil
}

// aroundRead reads such a document and returns the token.
func aroundRead(doc []byte) xml.Token {
	d := decoder(doc)
	t, err := d.Token()
	st, ok := t.(xml.StartElement)
	vsym.Assert(err == nil && ok && st.Name.Local == "a", "start element reads back")
	t, err = d.Token()
	vsym.Assert(err == nil, "the token reads back")
	if err != nil {
		return nil
	}
	got := xml.CopyToken(t)
	t, err = d.Token()
	c, ok := t.(xml.CharData)
	vsym.Assert(err == nil && ok && vsym.EqBytes(c, []byte("t")), "text after it reads back")
	t, err = d.Token()
	en, ok := t.(xml.EndElement)
	vsym.Assert(err == nil && ok && en.Name.Local == "a", "end element reads back")
	_, err = d.Token()
	vsym.Assert(err == io.EOF, "nothing else")
	return got
}

// afterRefusal checks that nothing of a refused token was written.
func afterRefusal(doc []byte) {
	vsym.Assert(vsym.EqBytes(doc, []byte("<a>t</a>")), "nothing of a refused token is written")
	vsym.Reach("refused")
}

// H_X06_comment: a comment of any bytes, at most 5 (6 thorough).
func H_X06_comment() {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	s := vsym.Bytes("s", vsym.Choose("len", n+1))
	doc, ok := aroundToken(xml.Comment(s))
	if !ok {
		afterRefusal(doc)
		for i := range s {
			if s[i] == '-' && (i+1 == len(s) || s[i+1] == '-') {
				return
			}
		}
		vsym.Assert(false, "a harmless comment is accepted")
		return
	}
	c, isC := aroundRead(doc).(xml.Comment)
	vsym.Assert(isC && vsym.EqBytes(c, s), "comment reads back as it was")
	vsym.Reach("accepted")
}

type commentDoc struct {
	XMLName xml.Name "xml:\"a\""
	C       string   "xml:\",comment\""
	T       string   "xml:\",chardata\""
}

// H_X06_comment_field: a comment field of any bytes, at most 5 (6 thorough). A
// final dash is followed by a space (documented).
func H_X06_comment_field() {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	s := vsym.Bytes("s", vsym.Choose("len", n+1))
	doc, err := xml.Marshal(&commentDoc{C: string(s), T: "t"})
	if err != nil {
		for i := range s {
			if i+1 < len(s) && s[i] == '-' && s[i+1] == '-' {
				vsym.Reach("refused")
				return
			}
		}
		vsym.Assert(false, "a harmless comment is accepted")
		return
	}
	if len(s) == 0 {
		vsym.Assert(vsym.EqBytes(doc, []byte("<a>t</a>")), "no comment is written")
		return
	}
	c, isC := aroundRead(doc).(xml.Comment)
	if s[len(s)-1] == '-' {
		s = append(s, ' ')
	}
	vsym.Assert(isC && vsym.EqBytes(c, s), "comment reads back as it was")
	vsym.Reach("accepted")
}

// H_X06_instruction: an instruction with any target of at most 2 ASCII bytes
// and any content of at most 4 bytes (5 thorough).
func H_X06_instruction() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	t := vsym.Bytes("target", vsym.Choose("tlen", 3))
	for _, c := range t {
		vsym.Assume(c < 0x80)
	}
	s := vsym.Bytes("s", vsym.Choose("len", n+1))
	doc, ok := aroundToken(xml.ProcInst{Target: string(t), Inst: s})
	r := &rstate{b: append(append([]byte{}, t...), '?')}
	if len(t) > 0 {
		r.nm(false)
	} else {
		r.fail()
	}
	name := !r.bad && r.i == len(t)
	if !ok {
		afterRefusal(doc)
		if name {
			for i := range s {
				if i+1 < len(s) && s[i] == '?' && s[i+1] == '>' {
					return
				}
			}
			vsym.Assert(false, "a harmless instruction is accepted")
		}
		return
	}
	vsym.Assert(name, "the target is a name")
	p, isP := aroundRead(doc).(xml.ProcInst)
	for len(s) > 0 && rspace(s[0]) {
		s = s[1:]
	}
	vsym.Assert(isP && vsym.EqString(p.Target, string(t)) && vsym.EqBytes(p.Inst, s), "instruction reads back as it was")
	vsym.Reach("accepted")
}

// H_X06_directive: a directive of at most 5 bytes (6 thorough), any bytes, or
// "D [", a hole of at most 5 (6) and "]", or "D <!--", such a hole and ">".
func H_X06_directive() {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	pre, post := "", ""
	switch vsym.Choose("frame", 3) {
	case 1:
		pre, post = "D [", "]"
	case 2:
		pre, post = "D <!--", ">"
	}
	h := vsym.Bytes("s", vsym.Choose("len", n+1))
	s := append(append([]byte(pre), h...), post...)
	doc, ok := aroundToken(xml.Directive(s))
	if !ok {
		afterRefusal(doc)
		return
	}
	d, isD := aroundRead(doc).(xml.Directive)
	r := &rstate{b: append(append([]byte{}, s...), '>')}
	want := r.decl()
	vsym.Assert(isD && !r.bad && vsym.EqBytes(d, want), "directive reads back as it was")
	vsym.Reach("accepted")
}

// H_X06_directive_accept: directives of letters, balanced brackets and closed
// quotes are accepted.
func H_X06_directive_accept() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	h := vsym.Bytes("s", vsym.Choose("len", n+1))
	q, depth := byte(0), 0
	for _, c := range h {
		vsym.Assume(c != '!')
		if q != 0 {
			if c == q {
				q = 0
			}
		} else if c == '"' {
			q = '"'
		} else if c == '\'' {
			q = '\''
		} else if c == '<' {
			depth++
		} else if c == '>' {
			depth--
			vsym.Assume(depth >= 0)
		}
	}
	vsym.Assume(q == 0 && depth == 0)
	_, ok := aroundToken(xml.Directive(append([]byte("D"), h...)))
	vsym.Assert(ok, "a harmless directive is accepted")
	vsym.Reach("end")
}

// H_X06_declaration: an XML declaration is accepted as the first token only,
// whether what came before has been flushed or not.
func H_X06_declaration() {
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	var err error
	k := vsym.Choose("before", 6)
	switch k {
	case 1:
		err = e.EncodeToken(xml.StartElement{Name: xmlName("a")})
	case 2:
		err = e.EncodeToken(xml.Comment("c"))
	case 3:
		err = e.EncodeToken(xml.CharData("\n"))
	case 4:
		err = e.EncodeToken(xml.ProcInst{Target: "p", Inst: []byte("i")})
	case 5:
		err = e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte("version='1.0'")})
	}
	vsym.Assert(err == nil, "first token is accepted")
	if vsym.Choose("flush", 2) == 1 {
		vsym.Assert(e.Flush() == nil, "flush")
	}
	err = e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte("version='1.0'")})
	vsym.Assert((err == nil) == (k == 0), "declaration only at the start")
	vsym.Reach("end")
}
