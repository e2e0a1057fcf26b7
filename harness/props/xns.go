package props

import (
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

type nsScope struct {
	prefix byte // 0: default
	uri    []byte
	depth  int
}

type nsDoc struct {
	b      []byte
	scopes []nsScope
	depth  int
	want   []xml.Name // element names, in document order of start tags
	ends   []xml.Name // end tags in order
	stack  []xml.Name
	raw    [][]byte
	wattr  [][]xml.Name
}

func letter(name string) byte {
	c := vsym.Byte(name)
	vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
	return c
}

// resolve walks the declarations from the innermost outwards.
func (n *nsDoc) resolve(prefix byte, isPrefixed bool) string {
	for i := len(n.scopes) - 1; i >= 0; i-- {
		s := n.scopes[i]
		if isPrefixed && s.prefix != 0 && s.prefix == prefix || !isPrefixed && s.prefix == 0 {
			return string(s.uri)
		}
	}
	if isPrefixed {
		return string([]byte{'n', prefix}) // undeclared: the prefix stands for itself
	}
	return ""
}

func (n *nsDoc) open(decls int, local byte, attrs bool) {
	n.depth++
	pre := vsym.Choose("prefixed", 2) == 1
	var p byte
	name := []byte{}
	if pre {
		p = letter("prefix")
		name = append(name, 'n', p, ':')
	}
	name = append(name, local)
	n.b = append(n.b, '<')
	n.b = append(n.b, name...)
	var names []xml.Name
	if decls&1 != 0 {
		u := vsym.Bytes("default", vsym.Choose("ulen", 2))
		for _, c := range u {
			vsym.Assume(vsym.And(c >= 'a', c <= 'z'))
		}
		n.b = append(n.b, " xmlns='"...)
		n.b = append(n.b, u...)
		n.b = append(n.b, '\'')
		n.scopes = append(n.scopes, nsScope{0, u, n.depth})
		names = append(names, xml.Name{Local: "xmlns"})
	}
	var late []byte
	var ap byte
	if attrs {
		// before the declarations on purpose: they apply all the same
		ap = letter("aprefix")
		n.b = append(n.b, ' ', 'n', ap)
		n.b = append(n.b, ":k='v' k='w'"...)
		names = append(names, xml.Name{Space: "?", Local: "k"}, xml.Name{Local: "k"})
	}
	if decls&2 != 0 {
		q, u := letter("dprefix"), letter("duri")
		late = append(late, " xmlns:n"...)
		late = append(late, q, '=', '"', u, 'u', '"')
		n.b = append(n.b, late...)
		n.scopes = append(n.scopes, nsScope{q, []byte{u, 'u'}, n.depth})
		names = append(names, xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: string([]byte{'n', q})})
	}
	if attrs {
		n.b = append(n.b, " xml:k='x'"...)
		names = append(names, xml.Name{Space: "http://www.w3.org/XML/1998/namespace", Local: "k"})
		for i := range names {
			if names[i].Space == "?" {
				names[i].Space = n.resolve(ap, true)
			}
		}
	}
	n.b = append(n.b, '>')
	w := xml.Name{Space: n.resolve(p, pre), Local: string([]byte{local})}
	n.want = append(n.want, w)
	n.wattr = append(n.wattr, names)
	n.stack = append(n.stack, w)
	n.raw = append(n.raw, name)
}

func (n *nsDoc) close() {
	k := len(n.stack) - 1
	n.b = append(n.b, "</"...)
	n.b = append(n.b, n.raw[k]...)
	n.b = append(n.b, '>')
	n.ends = append(n.ends, n.stack[k])
	n.stack, n.raw = n.stack[:k], n.raw[:k]
	for len(n.scopes) > 0 && n.scopes[len(n.scopes)-1].depth == n.depth {
		n.scopes = n.scopes[:len(n.scopes)-1]
	}
	n.depth--
}

func sameName(a, b xml.Name) bool {
	return vsym.And(vsym.EqString(a.Space, b.Space), vsym.EqString(a.Local, b.Local))
}

func (n *nsDoc) check() {
	d := decoder(n.b)
	si, ei := 0, 0
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		switch x := t.(type) {
		case xml.StartElement:
			vsym.Assert(si < len(n.want), "no extra element")
			vsym.Assert(sameName(x.Name, n.want[si]), "element namespace")
			wa := n.wattr[si]
			vsym.Assert(len(x.Attr) == len(wa), "all attributes")
			if len(x.Attr) == len(wa) {
				for i := range wa {
					vsym.Assert(sameName(x.Attr[i].Name, wa[i]), "attribute namespace")
				}
			}
			si++
		case xml.EndElement:
			vsym.Assert(ei < len(n.ends), "no extra end")
			vsym.Assert(sameName(x.Name, n.ends[ei]), "end element namespace")
			ei++
		}
	}
	vsym.Assert(si == len(n.want) && ei == len(n.ends), "all elements")
	vsym.Reach("end")
}

// H_X04_scopes: <1><2><3/></2><4/></1> where elements 1 to 3 each declare none,
// a default (any one-letter or empty namespace), a prefixed or both kinds of
// namespace, every prefix and namespace being any letter.
func H_X04_scopes() {
	n := &nsDoc{}
	n.open(vsym.Choose("decls1", 4), 'A', false)
	n.open(vsym.Choose("decls2", 4), 'B', false)
	n.open(vsym.Choose("decls3", 4), 'C', false)
	n.close()
	n.close()
	n.open(0, 'D', false)
	n.close()
	n.close()
	n.check()
}

// H_X04_attrs: <1><2/><3/></1> with prefixed, unprefixed and xml: attributes.
func H_X04_attrs() {
	n := &nsDoc{}
	n.open(vsym.Choose("decls1", 4), 'A', false)
	n.open(vsym.Choose("decls2", 4), 'B', true)
	n.close()
	n.open(0, 'C', true)
	n.close()
	n.close()
	n.check()
}
