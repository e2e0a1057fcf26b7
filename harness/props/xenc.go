package props

import (
	"bytes"
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// nsURI is a namespace of one of six shapes with any letter or character in it: the
// encoder derives prefixes from the last path segment.
func nsURI(shapes int) string {
	k := vsym.Choose("uri shape", shapes)
	c := letter("uri")
	switch k {
	case 0:
		return string([]byte{'x', '/', c})
	case 1:
		return string([]byte{'y', '/', c, '/'})
	case 2:
		return string([]byte{'u', ':', c})
	case 4: // any printable character
		c = vsym.Byte("uri char")
		vsym.Assume(vsym.And(c > ' ', c < 0x7f))
		return string([]byte{'u', c})
	case 5: // a reference
		return string([]byte{'u', '&', 'l', 't', ';', c})
	}
	return string([]byte{'x', '/', 'x', 'm', 'l', c})
}

type encEl struct {
	name xml.Name
	attr []xml.Attr
	kids int
}

// anyEl is an element with or without a namespace, with or without a wished
// prefix, with up to na namespaced attributes and one plain attribute.
func anyEl(local string, na int, shapes int) encEl {
	e := encEl{name: xml.Name{Local: local}}
	k := vsym.Choose("element", 3)
	if k > 0 {
		e.name.Space = nsURI(shapes)
	}
	if k > 1 {
		e.name.Local = "p:" + local
	}
	n := vsym.Choose("attributes", na+1)
	for i := 0; i < n; i++ {
		a := xml.Attr{Name: xml.Name{Space: nsURI(shapes), Local: string([]byte{'k', '0' + byte(i)})}, Value: "v"}
		if vsym.Choose("wished", 2) == 1 {
			a.Name.Local = "p:" + a.Name.Local
		}
		e.attr = append(e.attr, a)
	}
	if n > 0 {
		e.attr = append(e.attr, xmlAttr("plain", "w"))
	}
	return e
}

func noPrefix(s string) string {
	if len(s) > 2 && s[1] == ':' {
		return s[2:]
	}
	return s
}

type encRun struct {
	w    bytes.Buffer
	e    *xml.Encoder
	els  []encEl
	plai []bool // all ancestors and itself without a namespace
	open []encEl
}

func (r *encRun) start(x encEl) {
	err := r.e.EncodeToken(xml.StartElement{Name: x.name, Attr: x.attr})
	vsym.Assert(err == nil, "start element is accepted")
	plain := x.name.Space == ""
	for _, o := range r.open {
		plain = plain && o.name.Space == ""
	}
	r.els = append(r.els, x)
	r.plai = append(r.plai, plain)
	r.open = append(r.open, x)
}

func (r *encRun) end() {
	k := len(r.open) - 1
	err := r.e.EncodeToken(xml.EndElement{Name: r.open[k].name})
	vsym.Assert(err == nil, "matching end element is accepted")
	r.open = r.open[:k]
}

func (r *encRun) check() {
	vsym.Assert(r.e.Close() == nil, "close")
	vsym.Observe("doc", r.w.String())
	d := decoder(r.w.Bytes())
	i := 0
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		st, ok := t.(xml.StartElement)
		if !ok {
			continue
		}
		vsym.Assert(i < len(r.els), "no extra element")
		if i >= len(r.els) {
			return
		}
		x := r.els[i]
		vsym.Assert(vsym.EqString(st.Name.Local, noPrefix(x.name.Local)), "element local name")
		if x.name.Space != "" {
			vsym.Assert(vsym.EqString(st.Name.Space, x.name.Space), "element namespace")
		} else if r.plai[i] {
			vsym.Assert(st.Name.Space == "", "element without namespace")
		}
		j := 0
		for _, a := range st.Attr {
			if a.Name.Space == "http://www.w3.org/2000/xmlns/" || a.Name.Space == "" && a.Name.Local == "xmlns" {
				continue
			}
			vsym.Assert(j < len(x.attr), "no extra attribute")
			if j >= len(x.attr) {
				return
			}
			vsym.Assert(vsym.EqString(a.Name.Local, noPrefix(x.attr[j].Name.Local)), "attribute local name")
			vsym.Assert(vsym.EqString(a.Name.Space, x.attr[j].Name.Space), "attribute namespace")
			vsym.Assert(vsym.EqString(a.Value, x.attr[j].Value), "attribute value")
			j++
		}
		vsym.Assert(j == len(x.attr), "all attributes")
		// no attribute, prefixed or not, may be written twice
		for p := range st.Attr {
			for q := 0; q < p; q++ {
				vsym.Assert(!sameName(st.Attr[p].Name, st.Attr[q].Name), "no attribute or declaration twice")
			}
		}
		i++
	}
	vsym.Assert(i == len(r.els), "all elements")
	vsym.Reach("end")
}

func newRun() *encRun {
	r := &encRun{}
	r.e = xml.NewEncoder(&r.w)
	return r
}

// H_X05_nest: <1><2><3/></2><4/></1>, each with any namespace or none and any
// wish for a prefix.
func H_X05_nest() {
	r := newRun()
	r.start(anyEl("a", 0, 4))
	r.start(anyEl("b", 0, 4))
	r.start(anyEl("c", 0, 4))
	r.end()
	r.end()
	r.start(anyEl("d", 0, 4))
	r.end()
	r.end()
	r.check()
}

// H_X05_attrs: <1><2/></1>, the first with up to one and the second with up to
// two namespaced attributes, and a plain one each.
func H_X05_attrs() {
	sh := 2
	if vsym.Thorough() {
		sh = 3
	}
	r := newRun()
	r.start(anyEl("a", 1, sh))
	r.start(anyEl("b", 2, sh))
	r.end()
	r.end()
	r.check()
}

// H_X05_declared: an element that declares a prefix for any namespace and, if
// it wants, its own namespace as the default, around any other element.
func H_X05_declared() {
	sh := 2
	if vsym.Thorough() {
		sh = 4
	}
	r := newRun()
	u := nsURI(sh)
	a := encEl{name: xml.Name{Space: nsURI(sh), Local: "a"}}
	if vsym.Choose("default", 2) == 1 {
		a.attr = append(a.attr, xmlAttr("xmlns", a.name.Space))
	}
	a.attr = append(a.attr, xml.Attr{Name: xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: "p"}, Value: u})
	b := anyEl("b", 1, sh)
	r.start(a)
	r.start(b)
	r.end()
	r.start(anyEl("c", 0, sh))
	r.end()
	r.end()
	r.els[0].attr = nil
	r.check()
}

// H_X05_characters: <1><2/></1>, the first with any namespace or none, and the
// second with any namespace and an attribute with any namespace: they may hold
// any printable character.
func H_X05_characters() {
	r := newRun()
	r.start(anyEl("a", 0, 6))
	b := encEl{name: xml.Name{Space: nsURI(6), Local: "b"}}
	if vsym.Choose("wish", 2) == 1 {
		b.name.Local = "p:b"
	}
	at := xml.Attr{Name: xml.Name{Space: nsURI(6), Local: "k"}, Value: "v"}
	if vsym.Choose("wish", 2) == 1 {
		at.Name.Local = "p:k"
	}
	if vsym.Choose("attribute", 2) == 1 {
		b.attr = append(b.attr, at)
	}
	r.start(b)
	r.end()
	r.end()
	r.check()
}

// H_X05_nesting: any sequence of four start or end elements with any of the
// names x and y and any of two namespaces or none: an end is accepted exactly
// when it closes the innermost open element, and closing the encoder fails
// exactly when elements are open.
func H_X05_nesting() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	var open []xml.Name
	for i := 0; i < n; i++ {
		nm := xml.Name{Local: string([]byte{letter("local")})}
		if vsym.Choose("space", 2) == 1 {
			nm.Space = string([]byte{letter("space")})
		}
		if vsym.Choose("kind", 2) == 0 {
			err := e.EncodeToken(xml.StartElement{Name: nm})
			vsym.Assert(err == nil, "start element is accepted")
			open = append(open, nm)
			continue
		}
		err := e.EncodeToken(xml.EndElement{Name: nm})
		ok := len(open) > 0 && sameName(open[len(open)-1], nm)
		vsym.Assert((err == nil) == ok, "an end is accepted exactly when it closes the innermost element")
		if err == nil && len(open) > 0 {
			open = open[:len(open)-1]
		}
	}
	err := e.Close()
	vsym.Assert((err == nil) == (len(open) == 0), "close reports open elements")
	d := decoder(w.Bytes())
	for {
		_, err := d.Token()
		if err != nil {
			vsym.Assert((err == io.EOF) == (len(open) == 0), "what was written is balanced")
			break
		}
	}
	vsym.Reach("end")
}

// H_X05_invalid: tokens without a name and values that are no tokens are
// refused, and nothing is written for them.
func H_X05_invalid() {
	var w bytes.Buffer
	e := xml.NewEncoder(&w)
	var t xml.Token
	switch vsym.Choose("token", 7) {
	case 0:
		t = xml.StartElement{}
	case 1:
		t = xml.StartElement{Name: xml.Name{Space: "u"}}
	case 2:
		t = xml.EndElement{}
	case 3:
		t = nil
	case 4:
		t = &xml.StartElement{Name: xmlName("a")}
	case 5:
		t = "a"
	case 6:
		t = xml.ProcInst{}
	}
	e.EncodeToken(xml.StartElement{Name: xmlName("a")})
	vsym.Assert(e.EncodeToken(t) != nil, "an invalid token is refused")
	vsym.Assert(e.EncodeToken(xml.EndElement{Name: xmlName("a")}) == nil, "the rest is accepted")
	vsym.Assert(e.Close() == nil, "close")
	vsym.Assert(w.String() == "<a></a>", "nothing of it is written")
	vsym.Reach("end")
}
