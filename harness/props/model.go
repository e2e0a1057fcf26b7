package props

import (
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// field is one line of the schema.
type field struct {
	kind   byte
	via    []string // embedded structs on the way to it
	name   string
	space  string
	local  string
	typ    string
	mult   byte // ? * ! or 0
	nested bool // a pointer to an embedded struct is on the way
}

func linesOf(t string) (string, bool) {
	for i := range schema {
		if schema[i].name == t {
			return schema[i].lines, true
		}
	}
	return "", false
}

func isType(t string) bool { _, ok := linesOf(t); return ok }

// fieldsOf is the schema of t, with the lines of embedded types in place.
func fieldsOf(t string) []field { return addFields(nil, t, nil, false) }

func addFields(out []field, t string, via []string, nested bool) []field {
	lines, ok := linesOf(t)
	if !ok {
		panic("no type " + t)
	}
	for _, l := range strings.Split(lines, "\n") {
		w := strings.Split(l, " ")
		switch w[0] {
		case "^":
			v := append(append([]string{}, via...), w[1])
			out = addFields(out, w[1], v, nested || len(w) > 2)
		case "@", "<":
			f := field{kind: w[0][0], via: via, name: w[1], local: w[2], typ: w[3], nested: nested}
			if i := strings.IndexByte(w[2], ':'); i >= 0 {
				f.space, f.local = nsOf[w[2][:i]], w[2][i+1:]
			}
			switch c := w[3][len(w[3])-1]; c {
			case '?', '*', '!':
				f.mult, f.typ = c, w[3][:len(w[3])-1]
			}
			out = append(out, f)
		case ".", "+", "#":
			out = append(out, field{kind: w[0][0], via: via, name: w[1], nested: nested})
		}
	}
	return out
}

func byName(v reflect.Value, name string) reflect.Value {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == name {
			return v.Field(i)
		}
	}
	panic("no field " + name + " in " + t.Name())
}

// at is the field f of the struct v. Where an embedded pointer on the way is
// nil, it is set if make, and the result is not valid otherwise.
func (f *field) at(v reflect.Value, make bool) reflect.Value {
	for _, e := range f.via {
		v = byName(v, e)
		if v.Kind() == reflect.Ptr {
			if v.IsNil() {
				if !make {
					return reflect.Value{}
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
	}
	return byName(v, f.name)
}

// values makes the values of a model.
type values struct {
	dense bool   // the strings are letters, numbers digits from 1, and flags set
	fixed bool   // letters and digits are certain ones
	limit uint64 // numbers are below it, or the first or last of their range
	n     int
}

func (g *values) letter(name string) byte {
	if g.fixed {
		return 's'
	}
	return letter(name)
}

func (g *values) str() string {
	g.n++
	if g.dense {
		return string([]byte{g.letter("s"), 'a' + byte(g.n%26)})
	}
	s := vsym.String("s", 1)
	vsym.Assume(s[0] >= 0x20 && s[0] < 0x7f || s[0] == '\n' || s[0] == '\t' || s[0] == '\r')
	return s
}

func (g *values) uint(u, max uint64) uint64 {
	if g.fixed {
		return 7
	}
	if g.dense {
		vsym.Assume(u > 0 && u < 10)
		return u
	}
	if vsym.Choose("edge", 2) == 1 {
		vsym.Assume(u == 0)
		return max
	}
	vsym.Assume(u < g.limit)
	return u
}

func (g *values) int(i, min, max int64) int64 {
	if g.fixed {
		return 7
	}
	if g.dense {
		vsym.Assume(i > 0 && i < 10)
		return i
	}
	if e := vsym.Choose("edge", 3); e > 0 {
		vsym.Assume(i == 0)
		if e == 1 {
			return max
		}
		return min
	}
	vsym.Assume(i > -int64(g.limit) && i < int64(g.limit))
	return i
}

func sparse() *values {
	if vsym.Thorough() {
		return &values{limit: 100000}
	}
	return &values{limit: 100}
}

// choose is any of 0..n-1, but for dense values always the last.
func (g *values) choose(what string, n int) int {
	if g.dense {
		return n - 1
	}
	return vsym.Choose(what, n)
}

// set gives the simple value v of type typ any value.
func (g *values) set(v reflect.Value, typ string) {
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	switch typ {
	case "str":
		v.SetString(g.str())
	case "list":
		n := 1 + g.choose("items", 2)
		l := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			l.Index(i).SetString(string([]byte{g.letter("item"), 'a' + byte(i)}))
		}
		v.Set(l)
	case "bool":
		v.SetBool(g.dense || vsym.Bool("b"))
	case "u8":
		v.SetUint(g.uint(uint64(vsym.Byte("u")), math.MaxUint8))
	case "u16":
		v.SetUint(g.uint(uint64(vsym.Uint16("u")), math.MaxUint16))
	case "u32":
		v.SetUint(g.uint(uint64(vsym.Uint32("u")), math.MaxUint32))
	case "u64":
		v.SetUint(g.uint(vsym.Uint64("u"), math.MaxUint64))
	case "i32":
		v.SetInt(g.int(int64(vsym.Int32("i")), math.MinInt32, math.MaxInt32))
	case "int":
		v.SetInt(g.int(vsym.Int64("i"), math.MinInt64, math.MaxInt64))
	case "dur":
		v.SetInt([]int64{1500000000, 3600000000000}[g.choose("duration", 2)])
	case "f32":
		v.SetFloat([]float64{0.5, -3}[g.choose("float", 2)])
	case "f64", "inf":
		n := 2
		if typ == "inf" {
			n = 4
		}
		v.SetFloat([]float64{0.5, 3, math.Inf(-1), math.Inf(1)}[g.choose("float", n)])
	default:
		panic("set: " + typ)
	}
}

// put gives field f of the struct v a value; elements get those that mark
// gives them.
func (g *values) put(v reflect.Value, f *field, mark func(v reflect.Value, t string)) {
	d := f.at(v, true)
	switch f.kind {
	case '@':
		g.set(d, f.typ)
	case '.':
		g.set(d, "str")
	case '#':
		d.SetString(string([]byte{g.letter("inner")}))
	case '+':
		n := 1 + g.choose("others", 2)
		l := make([]xml.Attr, n)
		for i := range l {
			l[i] = xml.Attr{Name: xml.Name{Local: string([]byte{'o', 't', 'h', '0' + byte(i)})}, Value: g.str()}
			if i == 0 {
				l[i].Name.Space = "urn:other"
			}
		}
		d.Set(reflect.ValueOf(l))
	case '<':
		if !isType(f.typ) {
			g.set(d, f.typ)
			return
		}
		switch f.mult {
		case '?':
			d.Set(reflect.New(d.Type().Elem()))
			scte35(d.Elem(), f)
			mark(d.Elem(), f.typ)
		default:
			n := 2
			l := reflect.MakeSlice(d.Type(), n, n)
			for i := 0; i < n; i++ {
				e := l.Index(i)
				if e.Kind() == reflect.Ptr {
					e.Set(reflect.New(e.Type().Elem()))
					e = e.Elem()
				}
				scte35(e, f)
				mark(e, f.typ)
			}
			d.Set(l)
		}
	}
}

// mark gives the first attribute or the text of v a value, to tell it from others.
func (g *values) mark(v reflect.Value, t string) {
	fs := fieldsOf(t)
	for i := range fs {
		if k := fs[i].kind; (k == '@' || k == '.') && !fs[i].nested {
			g.put(v, &fs[i], nil)
			return
		}
	}
}

// locus is an MPD with one empty element of the type t in it, below as few
// others as possible, and that element.
func locus(t string) (*mpd.MPD, reflect.Value) {
	if t == "MPD" {
		m := &mpd.MPD{XMLNs: mpd.DASH_NAMESPACE}
		return m, reflect.ValueOf(m).Elem()
	}
	var home string
	for i := range schema {
		if schema[i].name == t {
			home = schema[i].home
		}
	}
	k := strings.IndexByte(home, '.')
	m, v := locus(home[:k])
	fs := fieldsOf(home[:k])
	for i := range fs {
		if f := &fs[i]; f.name == home[k+1:] && f.kind == '<' {
			d := f.at(v, true)
			if f.mult == '?' {
				d.Set(reflect.New(d.Type().Elem()))
				scte35(d.Elem(), f)
				return m, d.Elem()
			}
			d.Set(reflect.MakeSlice(d.Type(), 1, 1))
			e := d.Index(0)
			if e.Kind() == reflect.Ptr {
				e.Set(reflect.New(e.Type().Elem()))
				e = e.Elem()
			}
			scte35(e, f)
			return m, e
		}
	}
	panic("locus: " + t)
}

// scteUsed are the namespaces that elements of SCTE 35 are put in by turns.
var (
	scteUsed = scteSpaces[:1]
	scteTurn int
)

// scte35 gives the elements whose type does not fix their name, which are those
// of SCTE 35, their name.
func scte35(v reflect.Value, f *field) {
	for i := range schema {
		if schema[i].name == f.typ && schema[i].free {
			byName(v, "XMLName").Set(reflect.ValueOf(xml.Name{Space: scteUsed[scteTurn%len(scteUsed)], Local: f.local}))
			scteTurn++
		}
	}
}

// node is an element as it is on the wire.
type node struct {
	xml.Name
	attr []xml.Attr
	text string
	kids []*node

	more string         // further attributes
	also map[int]string // what is before a kid, or after all of them
}

func valueText(v reflect.Value, typ string) string {
	if lexical != nil && v.Addr().Pointer() == lexicalAt {
		return *lexical
	}
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	switch typ {
	case "str":
		return v.String()
	case "list":
		s := ""
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += v.Index(i).String()
		}
		return s
	case "bool":
		if v.Bool() {
			return "true"
		}
		return "false"
	case "u8", "u16", "u32", "u64":
		return strconv.FormatUint(v.Uint(), 10)
	case "i32", "int":
		return strconv.FormatInt(v.Int(), 10)
	case "dur":
		switch v.Int() {
		case 0:
			return "PT0S"
		case 1500000000:
			return "PT1.5S"
		}
		return "PT1H"
	case "f32", "f64", "inf":
		switch v.Float() {
		case 0:
			return "0"
		case 0.5:
			return "0.5"
		case 3:
			return "3"
		case -3:
			return "-3"
		case math.Inf(-1):
			return "-INF"
		}
		return "INF"
	}
	panic("valueText: " + typ)
}

// named is the name that v has, and en if it has none of its own.
func named(v reflect.Value, f *field, en xml.Name) xml.Name {
	for i := range schema {
		if schema[i].name == f.typ && schema[i].free {
			if x := byName(v, "XMLName").Interface().(xml.Name); x.Local != "" {
				return x
			}
		}
	}
	return en
}

// lexical, unless nil, is the text of the field at lexicalAt, whatever its value.
var (
	lexical   *string
	lexicalAt uintptr
)

// watched is the element that the struct of watchedType at watchedAt is.
var (
	watched     *node
	watchedAt   uintptr
	watchedType string
)

// zero tells whether a value that is not behind a pointer is left out.
func zero(v reflect.Value) bool {
	if lexical != nil && v.Addr().Pointer() == lexicalAt {
		return false
	}
	switch v.Kind() {
	case reflect.String, reflect.Slice:
		return v.Len() == 0
	case reflect.Bool:
		return !v.Bool()
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return v.Uint() == 0
	case reflect.Int, reflect.Int32, reflect.Int64:
		return v.Int() == 0
	case reflect.Float32, reflect.Float64:
		return v.Float() == 0
	}
	return v.IsNil()
}

// wire is the element that the schema says the struct v of type t is.
func wire(v reflect.Value, t string, name xml.Name) *node {
	n := &node{Name: name}
	if v.CanAddr() && v.Addr().Pointer() == watchedAt && t == watchedType {
		watched = n
	}
	fs := fieldsOf(t)
	for i := range fs {
		f := &fs[i]
		d := f.at(v, false)
		if !d.IsValid() {
			continue
		}
		switch f.kind {
		case '@':
			if f.mult != '!' && zero(d) {
				continue
			}
			n.attr = append(n.attr, xml.Attr{Name: xml.Name{Space: f.space, Local: f.local}, Value: valueText(d, f.typ)})
		case '+':
			for k := 0; k < d.Len(); k++ {
				n.attr = append(n.attr, d.Index(k).Interface().(xml.Attr))
			}
		case '.', '#':
			if d.Kind() == reflect.Ptr {
				if d.IsNil() {
					continue
				}
				d = d.Elem()
			}
			n.text = d.String()
		case '<':
			en := xml.Name{Space: f.space, Local: f.local}
			if en.Space == "" {
				en.Space = name.Space
			}
			switch {
			case !isType(f.typ):
				if !zero(d) {
					n.kids = append(n.kids, &node{Name: en, text: valueText(d, f.typ)})
				}
			case f.mult == '?':
				if !d.IsNil() {
					n.kids = append(n.kids, wire(d.Elem(), f.typ, named(d.Elem(), f, en)))
				}
			default:
				for k := 0; k < d.Len(); k++ {
					e := d.Index(k)
					if e.Kind() == reflect.Ptr {
						e = e.Elem()
					}
					n.kids = append(n.kids, wire(e, f.typ, named(e, f, en)))
				}
			}
		}
	}
	return n
}

func wireMPD(m *mpd.MPD) *node {
	return wire(reflect.ValueOf(m).Elem(), "MPD", xml.Name{Space: mpd.DASH_NAMESPACE, Local: "MPD"})
}

// parse is the element that doc consists of, without namespace declarations.
// Text between elements of an element without text of its own does not count.
func parse(doc string) *node {
	d := xml.NewDecoder(strings.NewReader(doc))
	top := &node{}
	open := []*node{top}
	for {
		t, err := d.Token()
		if err != nil {
			vsym.Assert(err.Error() == "EOF", "what is written is well-formed")
			break
		}
		in := open[len(open)-1]
		switch t := t.(type) {
		case xml.StartElement:
			n := &node{Name: t.Name}
			for i, a := range t.Attr {
				for k := 0; k < i; k++ {
					vsym.Assert(!sameName(a.Name, t.Attr[k].Name), "no attribute twice")
				}
				if a.Name.Space != "http://www.w3.org/2000/xmlns/" && !(a.Name.Space == "" && a.Name.Local == "xmlns") {
					n.attr = append(n.attr, a)
				}
			}
			in.kids = append(in.kids, n)
			open = append(open, n)
		case xml.EndElement:
			open = open[:len(open)-1]
		case xml.CharData:
			in.text += string(t)
		}
	}
	vsym.Assert(len(top.kids) == 1, "one root element")
	if len(top.kids) != 1 {
		return &node{}
	}
	return top.kids[0]
}

// sameNode asserts that the elements are the same, but for the order of
// attributes and of elements with different names.
func sameNode(got, want *node) {
	w := want.Local
	vsym.Assert(vsym.EqString(got.Space, want.Space), "namespace of element: "+w)
	vsym.Assert(vsym.EqString(got.Local, want.Local), "name of element: "+w)
	vsym.Assert(vsym.EqString(got.text, want.text), "text: "+w)
	vsym.Assert(len(got.attr) == len(want.attr), "as many attributes: "+w)
	for _, a := range want.attr {
		found := false
		for _, b := range got.attr {
			if a.Name == b.Name {
				found = true
				vsym.Assert(vsym.EqString(a.Value, b.Value), "value: "+w+" "+a.Name.Local)
			}
		}
		vsym.Assert(found, "attribute: "+w+" "+a.Name.Local)
	}
	vsym.Assert(len(got.kids) == len(want.kids), "as many elements: "+w)
	next := map[xml.Name]int{}
	for _, k := range want.kids {
		i := next[k.Name]
		for i < len(got.kids) && got.kids[i].Name != k.Name {
			i++
		}
		vsym.Assert(i < len(got.kids), "element: "+w+" "+k.Local)
		if i == len(got.kids) {
			continue
		}
		next[k.Name] = i + 1
		sameNode(got.kids[i], k)
	}
}

// style is how a document is written.
type style struct {
	prefixed bool // the namespace of the root is not the default one
	single   bool // attributes in single quotes
	reverse  bool // attributes in the opposite order
	short    bool // empty elements have one tag
	cdata    bool // text in CDATA sections
	local    bool // elements declare their namespace as the default one
	prolog   string
	epilog   string
}

// document is a document with the element n, in which the namespaces other than
// the default one have made-up prefixes.
func (n *node) document() string { return n.styled(style{}) }

func (n *node) styled(st style) string {
	var b strings.Builder
	prefix := map[string]string{n.Space: ""}
	if st.prefixed {
		prefix[n.Space] = "n0:"
	}
	n.prefixes(prefix)
	b.WriteString(st.prolog)
	n.write(&b, prefix, "", true, st)
	b.WriteString(st.epilog)
	return b.String()
}

func (n *node) prefixes(p map[string]string) {
	add := func(s string) {
		if _, ok := p[s]; !ok {
			p[s] = "n" + strconv.Itoa(len(p)) + ":"
		}
	}
	add(n.Space)
	for _, a := range n.attr {
		if a.Name.Space != "" {
			add(a.Name.Space)
		}
	}
	for _, k := range n.kids {
		k.prefixes(p)
	}
}

func (n *node) write(b *strings.Builder, p map[string]string, in string, root bool, st style) {
	name := p[n.Space] + n.Local
	if st.local && !root {
		name = n.Local
	}
	b.WriteString("<" + name)
	if st.local && !root && n.Space != in {
		b.WriteString(` xmlns="` + n.Space + `"`)
	}
	if !st.local || !root || !st.prefixed {
		in = n.Space
	}
	if root {
		if !st.prefixed {
			b.WriteString(` xmlns="` + n.Space + `"`)
		}
		for i := 0; i < len(p); i++ {
			for s, x := range p {
				if x == "n"+strconv.Itoa(i)+":" {
					b.WriteString(" xmlns:" + x[:len(x)-1] + `="` + s + `"`)
				}
			}
		}
	}
	q := byte('"')
	if st.single {
		q = '\''
	}
	for i := range n.attr {
		a := n.attr[i]
		if st.reverse {
			a = n.attr[len(n.attr)-1-i]
		}
		b.WriteByte(' ')
		if a.Name.Space != "" {
			b.WriteString(p[a.Name.Space])
		}
		b.WriteString(a.Name.Local + "=")
		b.WriteByte(q)
		quoted(b, a.Value)
		b.WriteByte(q)
	}
	b.WriteString(n.more)
	if st.short && n.text == "" && len(n.kids) == 0 && len(n.also) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteByte('>')
	if st.cdata && n.text != "" {
		b.WriteString("<![CDATA[" + n.text + "]]>")
	} else {
		quoted(b, n.text)
	}
	for i, k := range n.kids {
		b.WriteString(n.also[i])
		k.write(b, p, in, false, st)
	}
	b.WriteString(n.also[len(n.kids)])
	b.WriteString("</" + name + ">")
}

// quoted writes s with its special characters as references.
func quoted(b *strings.Builder, s string) {
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '<':
			b.WriteString("&lt;")
		case '&':
			b.WriteString("&amp;")
		case '"':
			b.WriteString("&quot;")
		case '\'':
			b.WriteString("&apos;")
		case '\n':
			b.WriteString("&#10;")
		case '\t':
			b.WriteString("&#x9;")
		case '\r':
			b.WriteString("&#xD;")
		default:
			b.WriteByte(c)
		}
	}
}

// sameModel asserts that the structs a and b of type t hold the same values.
// Nil and empty lists are the same, and so are nil and empty text.
func sameModel(a, b reflect.Value, t string) {
	fs := fieldsOf(t)
	for i := range fs {
		f := &fs[i]
		what := t + "." + f.name
		x, y := f.at(a, false), f.at(b, false)
		if !x.IsValid() || !y.IsValid() {
			vsym.Assert(x.IsValid() == y.IsValid(), "present: "+what)
			continue
		}
		switch f.kind {
		case '@':
			sameValue(x, y, what)
		case '+':
			l, r := declared(x), declared(y)
			vsym.Assert(len(l) == len(r), "as many: "+what)
			for k := 0; k < len(l) && k < len(r); k++ {
				vsym.Assert(sameName(l[k].Name, r[k].Name), "name: "+what)
				vsym.Assert(vsym.EqString(l[k].Value, r[k].Value), "equal: "+what)
			}
		case '.', '#':
			vsym.Assert(vsym.EqString(content(x), content(y)), "equal: "+what)
		case '<':
			switch {
			case !isType(f.typ):
				sameValue(x, y, what)
			case f.mult == '?':
				vsym.Assert(x.IsNil() == y.IsNil(), "present: "+what)
				if !x.IsNil() && !y.IsNil() {
					sameFree(x.Elem(), y.Elem(), f)
					sameModel(x.Elem(), y.Elem(), f.typ)
				}
			default:
				vsym.Assert(x.Len() == y.Len(), "as many: "+what)
				for k := 0; k < x.Len() && k < y.Len(); k++ {
					l, r := x.Index(k), y.Index(k)
					if l.Kind() == reflect.Ptr {
						l, r = l.Elem(), r.Elem()
					}
					sameFree(l, r, f)
					sameModel(l, r, f.typ)
				}
			}
		}
	}
}

// sameFree asserts that elements whose type does not fix their name have the same.
func sameFree(a, b reflect.Value, f *field) {
	x := named(a, f, xml.Name{})
	if x.Local == "" {
		return
	}
	y := named(b, f, xml.Name{})
	vsym.Assert(vsym.EqString(x.Space, y.Space) && vsym.EqString(x.Local, y.Local), "name of element: "+x.Local)
}

func content(v reflect.Value) string {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return ""
		}
		v = v.Elem()
	}
	return v.String()
}

// declared is the attributes in v that do not declare namespaces.
func declared(v reflect.Value) []xml.Attr {
	var out []xml.Attr
	for i := 0; i < v.Len(); i++ {
		a := v.Index(i).Interface().(xml.Attr)
		if a.Name.Space == "http://www.w3.org/2000/xmlns/" || a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
			continue
		}
		out = append(out, a)
	}
	return out
}

func sameValue(x, y reflect.Value, what string) {
	if x.Kind() == reflect.Ptr {
		vsym.Assert(x.IsNil() == y.IsNil(), "present: "+what)
		if x.IsNil() || y.IsNil() {
			return
		}
		x, y = x.Elem(), y.Elem()
	}
	switch x.Kind() {
	case reflect.String:
		vsym.Assert(vsym.EqString(x.String(), y.String()), "equal: "+what)
	case reflect.Bool:
		vsym.Assert(x.Bool() == y.Bool(), "equal: "+what)
	case reflect.Int, reflect.Int32, reflect.Int64:
		vsym.Assert(x.Int() == y.Int(), "equal: "+what)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		vsym.Assert(x.Uint() == y.Uint(), "equal: "+what)
	case reflect.Float32, reflect.Float64:
		vsym.Assert(x.Float() == y.Float(), "equal: "+what)
	case reflect.Slice:
		vsym.Assert(x.Len() == y.Len(), "as many: "+what)
		for i := 0; i < x.Len() && i < y.Len(); i++ {
			vsym.Assert(vsym.EqString(x.Index(i).String(), y.Index(i).String()), "equal: "+what)
		}
	default:
		panic("sameValue: " + what)
	}
}

// anyField is an MPD with a value for any one field of any type below it, or
// for all fields of it.
func anyField(g *values, all bool) (*mpd.MPD, string) {
	t := schema[vsym.Choose("type", len(schema))]
	if t.home == "-" {
		vsym.Assume(false)
	}
	m, v := locus(t.name)
	fs := fieldsOf(t.name)
	if all {
		for i := range fs {
			g.put(v, &fs[i], g.mark)
		}
		return m, t.name
	}
	i := vsym.Choose("field", len(fs)+1)
	if i < len(fs) {
		g.put(v, &fs[i], g.mark)
	}
	return m, t.name
}

// H_M02_write: an MPD with any value in any one field is written as the schema
// says.
func H_M02_write() {
	m, _ := anyField(sparse(), false)
	s, err := m.WriteToString("", false)
	vsym.Assert(err == nil, "is written")
	vsym.Observe("doc", s)
	sameNode(parse(s), wireMPD(m))
	vsym.Reach("end")
}

// H_M02_read: what the schema says an MPD with any value in any one field looks
// like is read as that MPD.
func H_M02_read() {
	m, _ := anyField(sparse(), false)
	s := wireMPD(m).document()
	vsym.Observe("doc", s)
	r, err := mpd.ReadFromString(s)
	vsym.Assert(err == nil, "is read")
	if err == nil {
		sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	}
	vsym.Reach("end")
}

// below tells whether elements of type t are only found below an element of
// type in.
func below(t, in string) bool {
	for t != in {
		if t == "MPD" || t == "-" {
			return false
		}
		for i := range schema {
			if schema[i].name == t {
				if schema[i].home == "-" {
					return false
				}
				t = schema[i].home
				break
			}
		}
		if i := strings.IndexByte(t, '.'); i >= 0 {
			t = t[:i]
		} else {
			return false
		}
	}
	return true
}

// survives asserts that writing m and reading the result gives the same model,
// and that writing that gives the same bytes, or for events, whose SCTE 35
// elements keep their namespace declarations as attributes, an equal document
// and the same bytes from then on.
func survives(m *mpd.MPD, t string) {
	indent, header := "", false
	if vsym.Choose("form", 2) == 1 {
		indent, header = "  ", true
	}
	s, err := m.WriteToString(indent, header)
	vsym.Assert(err == nil, "is written")
	vsym.Observe("doc", s)
	r, err := mpd.ReadFromString(s)
	vsym.Assert(err == nil, "is read")
	if err != nil {
		return
	}
	sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
	again, err := r.WriteToString(indent, header)
	vsym.Assert(err == nil, "is written again")
	if below(t, "EventType") {
		if indent == "" {
			sameNode(parse(again), wireMPD(m))
		}
		r, err = mpd.ReadFromString(again)
		vsym.Assert(err == nil, "is read again")
		if err != nil {
			return
		}
		s = again
		again, err = r.WriteToString(indent, header)
		vsym.Assert(err == nil, "is written a third time")
	}
	vsym.Assert(vsym.EqString(s, again), "the same bytes")
	vsym.Reach("end")
}

// H_M01_one: an MPD with any value in any one field.
func H_M01_one() {
	m, t := anyField(sparse(), false)
	survives(m, t)
}

// H_M01_all: an MPD with any values in all fields of any one element.
func H_M01_all() {
	m, t := anyField(&values{dense: true}, true)
	survives(m, t)
}

// H_M01_prefixed: a document in which the namespace of the root is bound to a
// prefix, with values in all fields of any one element, is read, and written
// with its elements in the same namespaces.
func H_M01_prefixed() {
	m, _ := anyField(&values{dense: true, fixed: true}, true)
	spliced(m, style{prefixed: true, local: vsym.Choose("form", 2) == 1})
}
