package props

import (
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// years are those that the checks are about.
var years = []int{1970, 1, 2, 3, 4, 99, 100, 101, 399, 400, 401, 1000, 1582, 1600, 1677, 1678, 1700, 1899, 1900, 1904, 1968, 1969, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2026, 2038, 2099, 2100, 2106, 2261, 2262, 2263, 2400, 4096, 9996, 9999}

func leap(y int) bool { return y%4 == 0 && y%100 != 0 || y%400 == 0 }

func monthDays(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// daysBefore is the number of days from 1970-01-01 to the first day of the month.
func daysBefore(y, m int) int64 {
	n := int64(365*(y-1970) + (y-1)/4 - (y-1)/100 + (y-1)/400 - 477)
	for k := 1; k < m; k++ {
		n += int64(monthDays(y, k))
	}
	return n
}

type instant struct {
	sec  int64 // since 1970
	text []byte
}

// two appends the digits of n, which is below 100.
func two(b []byte, n uint64) []byte { return append(b, byte('0'+n/10), byte('0'+n%10)) }

func under(name string, max int) uint64 { return vsym.Upto(name, uint64(max-1)) }

// anyInstant is any second of any day of the years above (thorough: and of the
// first and the last day of each month of every year up to 9999), and its text
// but for the fraction and zone.
func anyInstant() (t instant) {
	n := len(years)
	if vsym.Thorough() {
		n += 9999
	}
	k := vsym.Choose("year", n)
	m := 1 + vsym.Choose("month", 12)
	y, d := 0, uint64(0)
	if k < len(years) {
		y = years[k]
		d = uint64(vsym.Choose("day", monthDays(y, m)))
	} else {
		y = k - len(years) + 1
		d = uint64(vsym.Choose("day", 2) * (monthDays(y, m) - 1))
	}
	h, mi, s := under("hour", 24), under("minute", 60), under("second", 60)
	t.sec = (daysBefore(y, m)+int64(d))*86400 + int64(h)*3600 + int64(mi)*60 + int64(s)
	b := two(nil, uint64(y/100))
	b = append(two(b, uint64(y%100)), '-')
	b = append(two(b, uint64(m)), '-')
	b = append(two(b, d+1), 'T')
	b = append(two(b, h), ':')
	b = append(two(b, mi), ':')
	t.text = two(b, s)
	return
}

// H_D03_seconds: any second.
func H_D03_seconds() {
	t := anyInstant()
	s := mpd.ConvertToDateTimeS(t.sec)
	vsym.Assert(vsym.EqString(string(s), string(t.text)+"Z"), "the instant of a number of seconds")
	time.Local = time.UTC
	f, err := mpd.DateTime(string(t.text) + "Z").ConvertToSeconds()
	vsym.Assert(err == nil, "a date-time is read")
	vsym.Assert(f == float64(t.sec), "the number of seconds of an instant")
	vsym.Reach("end")
}

// milli is any number of milliseconds below 1000, and the fraction it is
// written as.
func milli() (int64, []byte) {
	switch vsym.Choose("fraction", 4) {
	case 1: // tenths
		d := 1 + under("tenth", 9)
		return 100 * int64(d), append([]byte{'.'}, byte('0'+d))
	case 2: // hundredths
		c, d := under("tenth", 10), 1+under("hundredth", 9)
		return 100*int64(c) + 10*int64(d), append([]byte{'.'}, byte('0'+c), byte('0'+d))
	case 3:
		b, c, d := under("tenth", 10), under("hundredth", 10), 1+under("thousandth", 9)
		return 100*int64(b) + 10*int64(c) + int64(d), append([]byte{'.'}, byte('0'+b), byte('0'+c), byte('0'+d))
	}
	return 0, nil
}

// H_D03_milliseconds: any millisecond.
func H_D03_milliseconds() {
	t := anyInstant()
	ms, frac := milli()
	s := mpd.ConvertToDateTimeMS(t.sec*1000 + ms)
	vsym.Assert(vsym.EqString(string(s), string(t.text)+string(frac)+"Z"), "the instant of a number of milliseconds")
	vsym.Reach("end")
}

// H_D03_fraction: any second and a number of milliseconds, read as a number of
// seconds that is off by less than 10 microseconds, or 100 for the years before
// 1426 and after 2514.
func H_D03_fraction() {
	t := anyInstant()
	ms := []int{1, 10, 100, 123, 500, 998, 999}[vsym.Choose("milliseconds", 7)]
	frac := []byte{'.', byte('0' + ms/100), byte('0' + ms/10%10), byte('0' + ms%10)}
	time.Local = time.UTC
	f, err := mpd.DateTime(string(t.text) + string(frac) + "Z").ConvertToSeconds()
	vsym.Assert(err == nil, "a date-time is read")
	x := float64(t.sec) + float64(ms)/1000
	d := f - x
	if t.sec > 1<<34 || t.sec < -1<<34 {
		vsym.Assert(d < 1e-4 && d > -1e-4, "the number of seconds of a far instant")
	} else {
		vsym.Assert(d < 1e-5 && d > -1e-5, "the number of seconds of an instant")
	}
	vsym.Reach("end")
}

// H_D03_float: any second, and a fraction of one that numbers of seconds can
// express exactly, cut to milliseconds.
func H_D03_float() {
	t := anyInstant()
	fs := []float64{0, 0.5, 0.25, 0.125, 0.0625, 0.9375, 0.03125, 0.984375, 0.0078125}
	ts := []string{"", ".5", ".25", ".125", ".062", ".937", ".031", ".984", ".007"}
	k := vsym.Choose("fraction", len(fs))
	s := mpd.ConvertToDateTime(float64(t.sec) + fs[k])
	vsym.Assert(vsym.EqString(string(s), string(t.text)+ts[k]+"Z"), "the instant of a fractional number of seconds")
	vsym.Reach("end")
}

// H_D03_zone: a date-time in another zone is the instant it denotes.
func H_D03_zone() {
	t := anyInstant()
	h, m := under("zone hours", 15), under("zone minutes", 60)
	z := []byte{'+'}
	off := int64(h)*3600 + int64(m)*60
	if vsym.Choose("sign", 2) == 1 {
		z[0] = '-'
		off = -off
	}
	z = append(two(z, h), ':')
	z = two(z, m)
	time.Local = time.UTC
	f, err := mpd.DateTime(string(t.text) + string(z)).ConvertToSeconds()
	vsym.Assert(err == nil, "a date-time is read")
	vsym.Assert(f == float64(t.sec-off), "the number of seconds of an instant in another zone")
	vsym.Reach("end")
}

func num2(b []byte, max int) bool {
	a, c := b[0], b[1]
	if a < '0' || a > '9' || c < '0' || c > '9' {
		return false
	}
	return int(a-'0')*10+int(c-'0') <= max
}

// dateTime tells whether s is a date-time of 20 characters or more; with one
// digit less, or another sign for the decimal point, Go takes it for one too.
func dateTime(s []byte) int {
	for i, c := range []byte("0000-00-00T00:00:00") {
		d := s[i] >= '0' && s[i] <= '9'
		if c == '0' && !d || c != '0' && s[i] != c {
			if i >= 11 {
				return loose(s)
			}
			return never
		}
	}
	y := int(s[0]-'0')*1000 + int(s[1]-'0')*100 + int(s[2]-'0')*10 + int(s[3]-'0')
	m := int(s[5]-'0')*10 + int(s[6]-'0')
	d := int(s[8]-'0')*10 + int(s[9]-'0')
	if m < 1 || m > 12 || d < 1 {
		return never
	}
	days := 31
	switch m {
	case 2:
		days = 28
		if leap(y) {
			days = 29
		}
	case 4, 6, 9, 11:
		days = 30
	}
	if d > days {
		return never
	}
	if !num2(s[11:], 23) || !num2(s[14:], 59) || !num2(s[17:], 59) {
		return never
	}
	i := 19
	k := must
	if s[i] == '.' || s[i] == ',' {
		if s[i] == ',' {
			k = may
		}
		i++
		n := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == n {
			return never
		}
		if i-n > 9 {
			k = may
		}
	}
	switch {
	case i+1 == len(s) && s[i] == 'Z':
		return k
	case i+6 == len(s) && (s[i] == '+' || s[i] == '-') && s[i+3] == ':':
		if num2(s[i+1:], 14) && num2(s[i+4:], 59) {
			return k
		}
		if num2(s[i+1:], 24) && num2(s[i+4:], 60) {
			return may
		}
	}
	return never
}

// loose: hours of one digit.
func loose(s []byte) int {
	if s[11] >= '0' && s[11] <= '9' && s[12] == ':' {
		return may
	}
	return never
}

// H_D03_text: date-times of several forms with any two adjacent characters in
// them replaced are read exactly when they still are date-times.
func H_D03_text() {
	forms := []string{"2024-02-29T23:59:59Z", "2023-12-31T00:00:00.25Z", "1900-01-01T12:30:30+01:00", "2000-11-30T20:10:09.999-14:00"}
	b := []byte(forms[vsym.Choose("form", len(forms))])
	i := vsym.Choose("place", len(b)-1)
	c := vsym.Bytes("characters", 2)
	vsym.Assume(vsym.And(c[0] < 0x80, c[1] < 0x80))
	b[i], b[i+1] = c[0], c[1]
	time.Local = time.UTC
	_, err := mpd.DateTime(string(b)).ConvertToSeconds()
	switch dateTime(b) {
	case must:
		vsym.Assert(err == nil, "a date-time is read")
		vsym.Reach("read")
	case never:
		vsym.Assert(err != nil, "what is no date-time is refused")
		vsym.Reach("refused")
	}
}

// H_D03_short: any text of at most 3 characters, and any part of a date-time, is
// refused.
func H_D03_short() {
	time.Local = time.UTC
	full := "2024-02-29T23:59:59.123+01:00"
	if vsym.Choose("kind", 2) == 0 {
		_, err := mpd.DateTime(vsym.String("text", vsym.Choose("length", 4))).ConvertToSeconds()
		vsym.Assert(err != nil, "what is no date-time is refused")
	} else {
		_, err := mpd.DateTime(full[:vsym.Choose("cut", len(full))]).ConvertToSeconds()
		vsym.Assert(err != nil, "a part of a date-time is refused")
		_, err = mpd.DateTime(full + string([]byte{vsym.Byte("more")})).ConvertToSeconds()
		vsym.Assert(err != nil, "a date-time with more after it is refused")
	}
	vsym.Reach("end")
}
