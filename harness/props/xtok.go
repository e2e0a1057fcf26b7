package props

import (
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// A reference tokenizer for XML 1.0 content, written from the recommendation.
// It takes the freedoms the decoder documents or has by design: markup
// declarations are opaque, comments and instructions may hold any bytes, white
// space between attributes and after an instruction's target may be missing,
// and nothing is said about the document's overall structure.

type rtok struct {
	kind  byte // s e t c p d
	name  string
	attr  [][2]string
	data  []byte
	start int
	end   int // offset after the token
	self  bool
}

type rstate struct {
	b    []byte
	i    int
	bad  bool
	skip bool // outside the claim
}

func (r *rstate) fail() { r.bad = true }

func rspace(c byte) bool {
	return vsym.Or(vsym.Or(c == ' ', c == '\t'), vsym.Or(c == '\r', c == '\n'))
}
func rnameByte(c byte) bool {
	return c >= 0x80 || 'A' <= c && c <= 'Z' || 'a' <= c && c <= 'z' || '0' <= c && c <= '9' || c == '_' || c == ':' || c == '.' || c == '-'
}

func (r *rstate) sp() {
	for r.i < len(r.b) && rspace(r.b[r.i]) {
		r.i++
	}
}

// nm reads a name; qname also requires at most one colon, in the middle.
func (r *rstate) nm(qname bool) string {
	s := r.i
	colons := 0
	for r.i < len(r.b) && rnameByte(r.b[r.i]) {
		if r.b[r.i] == ':' {
			colons++
		}
		if r.b[r.i] >= 0x80 {
			r.skip = true // names outside ASCII are not part of the claim
		}
		r.i++
	}
	if s == r.i || r.i == len(r.b) {
		r.fail()
		return ""
	}
	n := r.b[s:r.i]
	c := n[0]
	if c == '-' || c == '.' || '0' <= c && c <= '9' {
		r.fail()
	}
	if qname && (colons > 1 || colons == 1 && (n[0] == ':' || n[len(n)-1] == ':')) {
		r.fail()
	}
	return string(n)
}

// ref reads a reference after its ampersand and appends its replacement.
func (r *rstate) ref(out []byte) []byte {
	b := r.b
	s := r.i
	if r.i < len(b) && b[r.i] == '#' {
		r.i++
		base := uint64(10)
		if r.i < len(b) && b[r.i] == 'x' {
			base = 16
			r.i++
		}
		v, k := uint64(0), 0
		for ; r.i < len(b) && b[r.i] != ';'; r.i++ {
			c := b[r.i]
			var d byte
			switch {
			case '0' <= c && c <= '9':
				d = c - '0'
			case base == 16 && 'a' <= c && c <= 'f':
				d = c - 'a' + 10
			case base == 16 && 'A' <= c && c <= 'F':
				d = c - 'A' + 10
			default:
				r.fail()
				return out
			}
			if v <= 0x10FFFF {
				v = v*base + uint64(d)
			}
			k++
		}
		if k == 0 || r.i == len(b) {
			r.fail()
			return out
		}
		r.i++
		if v == 9 || v == 10 || v == 13 || v >= 0x20 && v <= 0xD7FF || v >= 0xE000 && v <= 0xFFFD || v >= 0x10000 && v <= 0x10FFFF {
			switch {
			case v < 0x80:
				out = append(out, byte(v))
			case v < 0x800:
				out = append(out, byte(0xC0|v>>6), byte(0x80|v&63))
			case v < 0x10000:
				out = append(out, byte(0xE0|v>>12), byte(0x80|v>>6&63), byte(0x80|v&63))
			default:
				out = append(out, byte(0xF0|v>>18), byte(0x80|v>>12&63), byte(0x80|v>>6&63), byte(0x80|v&63))
			}
			return out
		}
		r.fail()
		return out
	}
	for r.i < len(b) && b[r.i] != ';' {
		r.i++
	}
	if r.i == len(b) {
		r.fail()
		return out
	}
	n := b[s:r.i]
	r.i++
	switch {
	case vsym.EqBytes(n, []byte("lt")):
		return append(out, '<')
	case vsym.EqBytes(n, []byte("gt")):
		return append(out, '>')
	case vsym.EqBytes(n, []byte("amp")):
		return append(out, '&')
	case vsym.EqBytes(n, []byte("apos")):
		return append(out, '\'')
	case vsym.EqBytes(n, []byte("quot")):
		return append(out, '"')
	}
	r.fail()
	return out
}

// char copies one character, which must be one XML allows.
func (r *rstate) char(out []byte) []byte {
	b := r.b[r.i:]
	c := b[0]
	cont := func(k int) bool { return k < len(b) && b[k]&0xC0 == 0x80 }
	n := 0
	switch {
	case c < 0x80:
		if c < 0x20 && c != '\t' && c != '\n' && c != '\r' {
			r.fail()
			return out
		}
		n = 1
	case c >= 0xC2 && c <= 0xDF && cont(1):
		n = 2
	case c >= 0xE0 && c <= 0xEF && cont(1) && cont(2):
		v := uint(c&15)<<12 | uint(b[1]&63)<<6 | uint(b[2]&63)
		if v < 0x800 || v >= 0xD800 && v <= 0xDFFF || v >= 0xFFFE {
			r.fail()
			return out
		}
		n = 3
	case c >= 0xF0 && c <= 0xF4 && cont(1) && cont(2) && cont(3):
		v := uint(c&7)<<18 | uint(b[1]&63)<<12 | uint(b[2]&63)<<6 | uint(b[3]&63)
		if v < 0x10000 || v > 0x10FFFF {
			r.fail()
			return out
		}
		n = 4
	default:
		r.fail()
		return out
	}
	for k := 0; k < n; k++ {
		out = append(out, b[k])
	}
	r.i += n
	return out
}

// chars reads character data up to the terminator.
//
//	quote: an attribute value up to that quote
//	'<':   text up to the next tag or the end
//	']':   a CDATA section
func (r *rstate) chars(quote byte) []byte {
	b := r.b
	out := []byte{}
	for !r.bad {
		if r.i == len(b) {
			if quote != '<' {
				r.fail()
			}
			return out
		}
		c := b[r.i]
		if quote == ']' || quote == '<' {
			if c == ']' && r.i+2 < len(b) && b[r.i+1] == ']' && b[r.i+2] == '>' {
				if quote == ']' {
					r.i += 3
					return out
				}
				r.fail()
				return out
			}
		}
		switch {
		case quote == '<' && c == '<':
			return out
		case quote != '<' && quote != ']' && c == quote:
			r.i++
			return out
		case quote != ']' && c == '<':
			r.fail()
		case quote != ']' && c == '&':
			r.i++
			out = r.ref(out)
		case c == '\r':
			out = append(out, '\n')
			r.i++
			if r.i < len(b) && b[r.i] == '\n' {
				r.i++
			}
		default:
			out = r.char(out)
		}
	}
	return out
}

func (r *rstate) has(s string) bool {
	return len(r.b)-r.i >= len(s) && vsym.EqBytes(r.b[r.i:r.i+len(s)], []byte(s))
}

// next reads one token; ok is false at the end or after a failure.
func (r *rstate) next() (t rtok, ok bool) {
	b := r.b
	t.start = r.i
	if r.i == len(b) {
		return
	}
	if b[r.i] != '<' {
		t.kind = 't'
		t.data = r.chars('<')
		t.end = r.i
		return t, !r.bad
	}
	r.i++
	switch {
	case r.i == len(b):
		r.fail()
	case b[r.i] == '/':
		r.i++
		t.kind = 'e'
		t.name = r.nm(true)
		r.sp()
		if r.i == len(b) || b[r.i] != '>' {
			r.fail()
			return
		}
		r.i++
	case b[r.i] == '?':
		r.i++
		t.kind = 'p'
		t.name = r.nm(false)
		if r.bad {
			return
		}
		if t.name == "xml" {
			r.skip = true
		}
		r.sp()
		s := r.i
		for !r.has("?>") {
			r.i++
			if r.i >= len(b) {
				r.fail()
				return
			}
		}
		t.data = b[s:r.i]
		r.i += 2
	case r.has("!--"):
		r.i += 3
		t.kind = 'c'
		s := r.i
		for !r.has("--") {
			r.i++
			if r.i >= len(b) {
				r.fail()
				return
			}
		}
		t.data = b[s:r.i]
		r.i += 2
		if r.i == len(b) || b[r.i] != '>' {
			r.fail()
			return
		}
		r.i++
	case r.has("![CDATA["):
		r.i += 8
		t.kind = 't'
		t.data = r.chars(']')
	case b[r.i] == '!':
		r.i++
		if r.i == len(b) || b[r.i] == '-' || b[r.i] == '[' {
			r.fail()
			return
		}
		c := b[r.i]
		if !('A' <= c && c <= 'Z') {
			r.skip = true // not a markup declaration at all
			r.fail()
			return
		}
		t.kind = 'd'
		t.data = r.decl()
	default:
		t.kind = 's'
		t.name = r.nm(true)
		for !r.bad {
			r.sp()
			if r.has("/>") {
				r.i += 2
				t.self = true
				break
			}
			if r.i < len(b) && b[r.i] == '>' {
				r.i++
				break
			}
			n := r.nm(true)
			r.sp()
			if r.bad || r.i == len(b) || b[r.i] != '=' {
				r.fail()
				return
			}
			r.i++
			r.sp()
			if r.i == len(b) || b[r.i] != '\'' && b[r.i] != '"' {
				r.fail()
				return
			}
			q := b[r.i]
			if q == '"' {
				q = '"'
			} else {
				q = '\''
			}
			r.i++
			t.attr = append(t.attr, [2]string{n, string(r.chars(q))})
		}
	}
	t.end = r.i
	return t, !r.bad
}

// decl reads a markup declaration after "<!": quoted literals are opaque,
// angle brackets nest, comments count as one space.
func (r *rstate) decl() []byte {
	b := r.b
	var out []byte
	q := byte(0)
	depth := 0
	for {
		if r.i >= len(b) {
			r.fail()
			return nil
		}
		c := b[r.i]
		if q == 0 && r.has("<!--") {
			r.i += 4
			for !r.has("-->") {
				r.i++
				if r.i >= len(b) {
					r.fail()
					return nil
				}
			}
			r.i += 3
			out = append(out, ' ')
			continue
		}
		r.i++
		switch {
		case q != 0:
			if c == q {
				q = 0
			}
		case c == '\'':
			q = '\''
		case c == '"':
			q = '"'
		case c == '<':
			depth++
		case c == '>':
			if depth == 0 {
				return out
			}
			depth--
		}
		out = append(out, c)
	}
}

func qname(n xml.Name) string {
	if n.Space == "" {
		return n.Local
	}
	return n.Space + ":" + n.Local
}

// checkTokens compares the decoder's raw tokens with the reference.
func checkTokens(b []byte) {
	d := decoder(b)
	r := &rstate{b: b}
	for k := 0; ; k++ {
		t, err := d.RawToken()
		want, ok := r.next()
		vsym.Assume(!r.skip)
		if !ok {
			vsym.Assert(err != nil, "an error or the end where the reference has one")
			if err == nil {
				return
			}
			vsym.Assert((err == io.EOF) == !r.bad, "malformed input is an error, not the end")
			if r.bad {
				vsym.Reach("malformed")
			} else {
				vsym.Reach("end")
			}
			return
		}
		vsym.Assert(err == nil, "well-formed input is accepted")
		if err != nil {
			return
		}
		same := false
		switch x := t.(type) {
		case xml.StartElement:
			same = want.kind == 's' && len(x.Attr) == len(want.attr) && vsym.EqString(qname(x.Name), want.name)
			if same {
				for i, a := range x.Attr {
					vsym.Assert(vsym.EqString(qname(a.Name), want.attr[i][0]), "attribute name")
					vsym.Assert(vsym.EqString(a.Value, want.attr[i][1]), "attribute value")
				}
			}
			if want.self {
				t, err := d.RawToken()
				e, ok := t.(xml.EndElement)
				vsym.Assert(err == nil && ok && vsym.EqString(qname(e.Name), want.name), "self-closing element is closed")
				vsym.Reach("self-closing")
			}
			vsym.Reach("start element")
		case xml.EndElement:
			same = want.kind == 'e' && vsym.EqString(qname(x.Name), want.name)
			vsym.Reach("end element")
		case xml.CharData:
			same = want.kind == 't' && vsym.EqBytes(x, want.data)
			vsym.Reach("text")
		case xml.Comment:
			same = want.kind == 'c' && vsym.EqBytes(x, want.data)
			vsym.Reach("comment")
		case xml.ProcInst:
			same = want.kind == 'p' && vsym.EqString(x.Target, want.name) && vsym.EqBytes(x.Inst, want.data)
			vsym.Reach("instruction")
		case xml.Directive:
			same = want.kind == 'd' && vsym.EqBytes(x, want.data)
			vsym.Reach("declaration")
		}
		vsym.Assert(same, "token is the reference's")
	}
}

// H_X03_bytes: every sequence of at most 5 bytes (7 thorough).
func H_X03_bytes() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	b := vsym.Bytes("b", vsym.Choose("len", n+1))
	checkTokens(b)
}

// H_X03_frames: 30 contexts with a hole of at most 4 bytes (5 thorough).
func H_X03_frames() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	b, _ := framed(n)
	checkTokens(b)
}

var pieces = []string{"]", ">", "\r", "\n", "&gt;", "&#93;", "&#13;", "&#x3e;", "<![CDATA[]]>", "<![CDATA[]]]]>", "<!---->", "<?p?>", "]]&"}

// H_X03_pieces: text made of any four (thorough: five) of the pieces above and
// any byte, and attribute values made of any three (four) of those without markup.
func H_X03_pieces() {
	n, k := 4, len(pieces)
	open, end := "<a>", "</a>"
	if vsym.Thorough() {
		n = 5
	}
	if vsym.Choose("where", 2) == 1 {
		n, k = n-1, 8
		open, end = "<a b='", "'/>"
	}
	b := []byte(open)
	for i := 0; i < n; i++ {
		if j := vsym.Choose("piece", k+1); j == k {
			b = append(b, vsym.Byte("byte"))
		} else {
			b = append(b, pieces[j]...)
		}
	}
	checkTokens(append(b, end...))
}

// H_X03_charref: decimal references of 7 and 20 digits and hexadecimal ones of
// 6 (and, with digits 0 to 9 only, 8 and 17), the longer ones without leading zeros: accepted up
// to 10FFFF, and rejected when larger.
func H_X03_charref() {
	lens := []int{7, 20, 6, 8, 17}
	k := vsym.Choose("form", len(lens))
	hex := k >= 2
	h := vsym.Bytes("digits", lens[k])
	v := uint64(0)
	for i, c := range h {
		dig := vsym.And(c >= '0', c <= '9')
		if hex {
			dig = vsym.Or(dig, vsym.And(k == 2, vsym.And(c >= 'A', c <= 'F')))
		}
		vsym.Assume(dig)
		if k == 0 {
			v = v*10 + uint64(c-'0')
		}
		if k == 2 {
			v = v*16 + uint64(vsym.IteByte(c <= '9', c-'0', c-'A'+10))
		}
		if i == 0 && (k == 1 || k >= 3) {
			vsym.Assume(c != '0')
			v = 0x110000
		}
	}
	s := "<a b='&#"
	if hex {
		s += "x"
	}
	b := append([]byte(s), h...)
	b = append(b, ";'/>"...)
	_, err := decoder(b).RawToken()
	legal := vsym.Or(vsym.And(v >= 0x20, v <= 0xD7FF), vsym.Or(vsym.And(v >= 0xE000, v <= 0xFFFD), vsym.And(v >= 0x10000, v <= 0x10FFFF)))
	legal = vsym.Or(legal, vsym.Or(v == 9, vsym.Or(v == 10, v == 13)))
	vsym.Assert((err == nil) == legal, "exactly the characters XML has")
	vsym.Reach("end")
}

// H_X03_charref_value: the references &#x10hhhh; and &#xhhhhh; with any four or
// five hexadecimal digits give that character.
func H_X03_charref_value() {
	n := 4 + vsym.Choose("form", 2)
	h := vsym.Bytes("digits", n)
	for _, c := range h {
		vsym.Assume(vsym.Or(vsym.And(c >= '0', c <= '9'), vsym.And(c >= 'a', c <= 'f')))
	}
	s := "<a>&#x"
	if n == 4 {
		s += "10"
	}
	b := append([]byte(s), h...)
	b = append(b, ";</a>"...)
	checkTokens(b)
}

// H_X03_decl: the XML declaration with any version of 3 and any encoding of 5
// bytes: version must be 1.0 and the encoding UTF-8 in any case.
func H_X03_decl() {
	v := vsym.Bytes("version", 3)
	e := vsym.Bytes("encoding", 5)
	for _, c := range v {
		vsym.Assume(c != '\'' && c != '?')
	}
	for _, c := range e {
		vsym.Assume(c != '"' && c != '?')
	}
	hasEnc := vsym.Choose("has encoding", 2) == 1
	s := append([]byte("<?xml version='"), v...)
	s = append(s, '\'')
	if hasEnc {
		s = append(s, " encoding=\""...)
		s = append(s, e...)
		s = append(s, '"')
	}
	s = append(s, "?><a/>"...)
	ok := vsym.EqBytes(v, []byte("1.0"))
	if hasEnc {
		l := make([]byte, 5)
		for i, c := range e {
			l[i] = vsym.IteByte(vsym.And(c >= 'A', c <= 'Z'), c+32, c)
		}
		ok = vsym.And(ok, vsym.EqBytes(l, []byte("utf-8")))
	}
	_, err := decoder(s).Token()
	vsym.Assert((err == nil) == ok, "version 1.0 and UTF-8 only")
	vsym.Reach("end")
}

type innerDoc struct {
	Inner []byte "xml:\",innerxml\""
}

// H_X03_inner: <a> with any content of at most 5 bytes (6 thorough), followed
// by </a></a>: the captured inner XML is exactly what lies between the tags.
func H_X03_inner() {
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	h := vsym.Bytes("content", vsym.Choose("len", n+1))
	b := append([]byte("<a>"), h...)
	b = append(b, "</a></a>"...)
	var v innerDoc
	err := xml.Unmarshal(b, &v)
	r := &rstate{b: b}
	depth := 0
	for {
		t, ok := r.next()
		vsym.Assume(!r.skip)
		if !ok {
			vsym.Assert(err != nil, "malformed content is an error")
			vsym.Reach("malformed")
			return
		}
		if t.kind == 's' && !t.self {
			depth++
		}
		if t.kind == 'e' {
			depth--
		}
		if depth == 0 {
			if err == nil {
				vsym.Assert(vsym.EqBytes(v.Inner, b[3:t.start]), "inner XML is the bytes between the tags")
				vsym.Reach("captured")
			}
			return
		}
	}
}
