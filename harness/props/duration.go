package props

import (
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// xsDur reads an xs:duration of hours, minutes and seconds; it is written from
// XML Schema Part 2, 3.2.6, and knows nothing of the code under test.
// whole is the value in seconds, frac the nanoseconds.
func xsDur(s string) (neg bool, whole, frac uint64, ok bool) {
	i := 0
	if i < len(s) && s[i] == '-' {
		neg = true
		i++
	}
	if i >= len(s) || s[i] != 'P' {
		return
	}
	i++
	if i >= len(s) || s[i] != 'T' {
		return
	}
	i++
	last := 0
	for i < len(s) {
		n, k := uint64(0), 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			n = n*10 + uint64(s[i]-'0')
			i++
			k++
		}
		if k == 0 || k > 10 || i >= len(s) {
			return
		}
		f, fk := uint64(0), 0
		if s[i] == '.' {
			i++
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				f = f*10 + uint64(s[i]-'0')
				i++
				fk++
			}
			if fk == 0 || fk > 9 || i >= len(s) || s[i] != 'S' {
				return
			}
			for ; fk < 9; fk++ {
				f *= 10
			}
		}
		r, m := 0, uint64(0)
		switch s[i] {
		case 'H':
			r, m = 1, 3600
		case 'M':
			r, m = 2, 60
		case 'S':
			r, m = 3, 1
		}
		i++
		if r <= last {
			return
		}
		last = r
		whole += n * m
		frac = f
	}
	ok = last > 0
	return
}

func checkDur(d int64) {
	x := mpd.Duration(d)
	s := x.String()
	vsym.Observe("text", s)
	neg, whole, frac, ok := xsDur(s)
	vsym.Assert(ok, "written text is an xs:duration")
	if !ok {
		return
	}
	u := uint64(d)
	if d < 0 {
		u = -u
	}
	vsym.Assert(neg == (d < 0), "sign")
	t := whole*1000000000 + frac
	if u < 500000 {
		vsym.Assert(t == u, "exact below half a millisecond")
	} else {
		// t is a whole number of milliseconds with u in [t-1/2 ms, t+1/2 ms)
		vsym.Assert(vsym.And(t+500000 > u, t <= u+500000), "nearest millisecond, halves up")
		vsym.Assert(frac%1000000 == 0, "whole milliseconds")
	}
	if u == 0 {
		vsym.Assert(s == "PT0S", "zero is PT0S")
	}
	vsym.Reach("end")
}

// H_D01_all: every int64 number of nanoseconds.
func H_D01_all() { checkDur(vsym.Int64("d")) }

// H_D01_attr: the attribute value written for a duration is its text; every
// int64 number of nanoseconds.
func H_D01_attr() {
	d := mpd.Duration(vsym.Int64("d"))
	a, err := (&d).MarshalXMLAttr(xmlName("dur"))
	vsym.Assert(err == nil, "no error")
	vsym.Assert(vsym.EqString(a.Value, d.String()), "attribute value is the text")
	vsym.Assert(a.Name.Local == "dur", "attribute name")
}

// refDur is the value an xs:duration text of the accepted form denotes, in
// whole nanoseconds; ok is false for every other text.
func refDur(s string) (total int64, ok bool) {
	const maxI = 1<<63 - 1
	if len(s) == 0 || s[0] != 'P' {
		return
	}
	i, last, inT, comp := 1, 0, false, false
	sum := uint64(0)
	over := false
	for i < len(s) {
		if s[i] == 'T' {
			if inT {
				return
			}
			inT = true
			comp = false
			i++
			continue
		}
		n, k := uint64(0), 0
		for i < len(s) && vsym.And(s[i] >= '0', s[i] <= '9') {
			if n > (1<<63)/10 {
				over = true
				n = 0
			}
			n = n*10 + uint64(s[i]-'0')
			i++
			k++
		}
		if k == 0 || i >= len(s) {
			return
		}
		f, dot := uint64(0), false
		if s[i] == '.' {
			dot = true
			i++
			fk := 0
			w := uint64(100000000)
			for i < len(s) && vsym.And(s[i] >= '0', s[i] <= '9') {
				f += uint64(s[i]-'0') * w
				w /= 10
				i++
				fk++
			}
			if fk == 0 || i >= len(s) {
				return
			}
		}
		r, m := 0, uint64(0)
		switch s[i] {
		case 'D':
			r, m = 1, 86400
		case 'H':
			r, m = 2, 3600
		case 'M':
			r, m = 3, 60
		case 'S':
			r, m = 4, 1
		}
		i++
		if r == 0 || r <= last || (r == 1) == inT || dot && r != 4 {
			return
		}
		last = r
		comp = true
		m *= 1000000000
		if n > maxI/m {
			over = true
			continue
		}
		sum += n*m + f
		if sum > maxI {
			over = true
			sum = 0
		}
	}
	if !comp || over {
		return
	}
	return int64(sum), true
}

func checkParse(s string) {
	want, ok := refDur(s)
	got, err := mpd.ParseDuration(s)
	vsym.Assert((err == nil) == ok, "accepted exactly when it denotes a duration")
	if err == nil {
		vsym.Assert(got >= 0, "never negative")
		if ok {
			vsym.Assert(int64(got) == want, "denoted value")
			vsym.Reach("accepted")
		}
	} else {
		vsym.Reach("rejected")
	}
}

// H_D02_bytes: every string of at most 6 bytes (8 in the thorough tier).
func H_D02_bytes() {
	n := 7
	if vsym.Thorough() {
		n = 9
	}
	checkParse(vsym.String("s", vsym.Choose("len", n)))
}

// digits is any digit string of at most max digits, at least min.
func digits(name string, min, max int) string {
	n := min + vsym.Choose(name+"len", max-min+1)
	s := vsym.String(name, n)
	for i := 0; i < n; i++ {
		vsym.Assume(vsym.And(s[i] >= '0', s[i] <= '9'))
	}
	return s
}

// H_D02_days: PnD with every digit string of at most 7 digits, and PnDTnH
// with at most 3 and 4 digits.
func H_D02_days() {
	if vsym.Choose("form", 2) == 0 {
		checkParse("P" + digits("n", 0, 7) + "D")
	} else {
		checkParse("P" + digits("n", 1, 3) + "DT" + digits("h", 0, 4) + "H")
	}
}

// H_D02_hours: PTnH with every digit string of at most 8 digits, and PTnHnM
// with at most 3 digits each.
func H_D02_hours() {
	if vsym.Choose("form", 2) == 0 {
		checkParse("PT" + digits("n", 0, 8) + "H")
	} else {
		checkParse("PT" + digits("n", 1, 3) + "H" + digits("m", 0, 3) + "M")
	}
}

// H_D02_huge: numbers of 18 to 22 digits in front of every designator.
func H_D02_huge() {
	u := vsym.Choose("unit", 4)
	pre := "PT"
	if u == 0 {
		pre = "P"
	}
	checkParse(pre + digits("n", 18, 22) + "DHMS"[u:u+1])
}

// H_D02_minutes: PTnM with every digit string of at most 10 digits.
func H_D02_minutes() { checkParse("PT" + digits("n", 0, 10) + "M") }

// H_D02_seconds: PTnS with every digit string of at most 11 digits.
func H_D02_seconds() { checkParse("PT" + digits("n", 0, 11) + "S") }

// H_D02_fraction: PTn.fS with at most 2 whole and 10 fraction digits.
func H_D02_fraction() {
	checkParse("PT" + digits("n", 0, 2) + "." + digits("f", 0, 10) + "S")
}

// H_D02_attr: a Duration attribute is decoded as ParseDuration decodes its
// text, and left alone on error; PTnS of two arbitrary bytes.
func H_D02_attr() {
	var d mpd.Duration
	s := "PT" + vsym.String("s", 2) + "S"
	want, err := mpd.ParseDuration(s)
	err2 := d.UnmarshalXMLAttr(xmlAttr("dur", s))
	vsym.Assert((err == nil) == (err2 == nil), "same errors")
	if err == nil {
		vsym.Assert(time.Duration(d) == want, "same value")
	}
}
