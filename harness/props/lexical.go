package props

import (
	"math"
	"reflect"
	"strconv"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// What a text means as a value of a simple type.
const (
	never = iota // it is no value: reading it is an error
	may          // Go takes it for a value: that one, or an error
	must         // it is a value of the type in XML Schema
)

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func trimmed(s string) string {
	i, k := 0, len(s)
	for i < k && isSpace(s[i]) {
		i++
	}
	for i < k && isSpace(s[k-1]) {
		k--
	}
	return s[i:k]
}

// meaning sets v, which is no pointer, to what s means. The empty text is zero
// or false.
func meaning(s string, v reflect.Value, typ string) int {
	if len(s) == 0 {
		if typ == "inf" {
			return never
		}
		return may
	}
	s = trimmed(s)
	switch typ {
	case "bool":
		switch s {
		case "true", "1":
			v.SetBool(true)
			return must
		case "false", "0":
			return must
		case "t", "T", "TRUE", "True":
			v.SetBool(true)
			return may
		case "f", "F", "FALSE", "False":
			return may
		}
		return never
	case "u8", "u16", "u32", "u64":
		u, ok := whole(s, uint64(math.MaxUint64)>>(64-v.Type().Bits()))
		if ok {
			v.SetUint(u)
			return must
		}
		if len(s) > 1 && s[0] == '+' {
			u, ok = whole(s[1:], uint64(math.MaxUint64)>>(64-v.Type().Bits()))
			if ok {
				v.SetUint(u)
				return may
			}
		}
		return never
	case "i32", "int":
		max := uint64(math.MaxInt64) >> (64 - v.Type().Bits())
		if len(s) > 1 && s[0] == '-' {
			u, ok := whole(s[1:], max+1)
			if ok {
				v.SetInt(-int64(u))
				return must
			}
			return never
		}
		if len(s) > 1 && s[0] == '+' {
			s = s[1:]
		}
		u, ok := whole(s, max)
		if ok {
			v.SetInt(int64(u))
			return must
		}
		return never
	}
	bits := 64
	if typ == "f32" {
		bits = 32
	}
	f, err := strconv.ParseFloat(s, bits)
	if err != nil {
		return never
	}
	v.SetFloat(f)
	if isDecimal(s) {
		return must
	}
	if typ == "inf" && s == "INF" {
		return must
	}
	return may
}

// whole is the number that s is, if it is made of digits and at most max.
func whole(s string, max uint64) (uint64, bool) {
	if len(s) == 0 {
		return 0, false
	}
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < '0' || c > '9' {
			return 0, false
		}
		d := uint64(c - '0')
		if n > (max-d)/10 {
			return 0, false
		}
		n = 10*n + d
	}
	return n, true
}

// isDecimal tells whether s is digits with at most one point, after at most one
// sign, with or without a decimal exponent.
func isDecimal(s string) bool {
	i := 0
	if len(s) > 0 && (s[0] == '-' || s[0] == '+') {
		i++
	}
	nd, np := 0, 0
	for ; i < len(s); i++ {
		c := s[i]
		if c >= '0' && c <= '9' {
			nd++
			continue
		}
		if c == '.' && np == 0 {
			np++
			continue
		}
		if (c == 'e' || c == 'E') && nd > 0 {
			i++
			if i < len(s) && (s[i] == '-' || s[i] == '+') {
				i++
			}
			if i == len(s) {
				return false
			}
			for ; i < len(s); i++ {
				if s[i] < '0' || s[i] > '9' {
					return false
				}
			}
			return true
		}
		return false
	}
	return nd > 0
}

func numeric(typ string) bool {
	switch typ {
	case "bool", "u8", "u16", "u32", "u64", "i32", "int", "f32", "f64", "inf":
		return true
	}
	return false
}

// number is any one field with a number or a flag of any type, or of one field
// per type of number.
func number(some bool) (m *mpd.MPD, f *field, v reflect.Value) {
	var fs []*field
	var ts []string
	seen := map[string]bool{}
	for i := range schema {
		if schema[i].home == "-" {
			continue
		}
		l := fieldsOf(schema[i].name)
		for k := range l {
			if g := &l[k]; (g.kind == '@' || g.kind == '<') && numeric(g.typ) {
				key := g.typ
				if g.mult == '?' {
					key += "?"
				}
				if some && seen[key] {
					continue
				}
				seen[key] = true
				fs, ts = append(fs, g), append(ts, schema[i].name)
			}
		}
	}
	k := vsym.Choose("field", len(fs))
	m, e := locus(ts[k])
	return m, fs[k], fs[k].at(e, true)
}

// reads asserts that an MPD whose field f, at v, has the text s is read with
// what s means in it, or not at all.
func reads(m *mpd.MPD, f *field, v reflect.Value, s string) {
	lexical, lexicalAt = &s, v.Addr().Pointer()
	doc := wireMPD(m).document()
	lexical = nil
	vsym.Observe("doc", doc)
	d := v
	if v.Kind() == reflect.Ptr {
		v.Set(reflect.New(v.Type().Elem()))
		d = v.Elem()
	}
	k := meaning(s, d, f.typ)
	r, err := mpd.ReadFromString(doc)
	if err != nil {
		vsym.Assert(k != must, "a value of the type is read: "+f.typ)
		vsym.Assert(r == nil, "nothing is returned with an error")
		vsym.Reach("error")
		return
	}
	vsym.Assert(k != never, "what is no value of the type is an error: "+f.typ)
	if k == never {
		return
	}
	vsym.Reach("value")
	if k := d.Kind(); k == reflect.Float64 || k == reflect.Float32 {
		if x := d.Float(); x != x {
			return
		}
	}
	sameModel(reflect.ValueOf(m).Elem(), reflect.ValueOf(r).Elem(), "MPD")
}

// shortText is any text without white space other than blanks and without the
// characters that need a reference in XML, which mean nothing here either.
func shortText(max int) string {
	s := vsym.String("text", vsym.Choose("length", max+1))
	for i := 0; i < len(s); i++ {
		c := s[i]
		vsym.Assume(vsym.And(vsym.And(c >= ' ', c < 0x7f), vsym.And(c != '<', vsym.And(c != '&', c != '"'))))
	}
	return s
}

var numbers = []string{"00", "007", "10", " 1", "1 ", "\n\t1\r", "\r0\n", " ", "-0", "-1", "+1", "--1", "1-", "1,5", "1.5", "1.0", ".5", "5.", "1e3", "1E-1", "1e", "0x1", "0b1", "1_0", "true", "false", "True", " true", "yes", "INF", "-INF", "+INF", " INF", "inf", "NaN", "1f", "PT1S", "1 2", "\u0661"}

// H_M03_fields: every field with a number or a flag, with any of the texts above
// and any text of at most one ASCII character.
func H_M03_fields() {
	m, f, v := number(false)
	k := vsym.Choose("text", len(numbers)+1)
	if k < len(numbers) {
		reads(m, f, v, numbers[k])
		return
	}
	reads(m, f, v, shortText(1))
}

// H_M03_texts: a field of every type of numbers, with any text of at most 2
// ASCII characters (thorough: 3), and for flags 4 (5).
func H_M03_texts() {
	m, f, v := number(true)
	n := 2
	if f.typ == "bool" {
		n = 4
	}
	if vsym.Thorough() {
		n++
	}
	reads(m, f, v, shortText(n))
}

// H_M03_range: every field with a whole number, with texts around both ends of
// the range of all such types: a minus sign or none (thorough: or a plus sign, or
// zeros), the number without its last digit, and any character (thorough: or two).
func H_M03_range() {
	m, f, v := number(false)
	if f.typ == "bool" || v.Kind() == reflect.Float64 || f.typ[0] == 'f' || f.typ == "inf" {
		return
	}
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	s := []string{"", "-", "+", "00"}[vsym.Choose("before", 2*n)]
	max := []string{"12", "25", "3276", "6553", "214748364", "429496729", "922337203685477580", "1844674407370955161"}
	s += max[vsym.Choose("number", len(max))]
	s += vsym.String("digit", 1+vsym.Choose("digits", n))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] >= ' ' && s[i] < 0x7f)
	}
	reads(m, f, v, s)
}
