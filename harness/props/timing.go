package props

import (
	"errors"

	"github.com/Eyevinn/dash-mpd/mpd"

	"vharness/vsym"
)

// timed describes a period as far as its timing goes.
type timed struct {
	hasStart, hasDur bool
	start, dur       int64
}

// maxTime bounds starts and durations so that no sum of them overflows.
const maxTime = int64(1) << 59

func symDur(name string) (*mpd.Duration, int64) {
	v := vsym.Int64(name)
	vsym.Assume(vsym.And(v >= 0, v <= maxTime))
	d := mpd.Duration(v)
	return &d, v
}

// timedMPD builds an MPD with up to max periods, every mix of present and absent
// start, duration, presentation duration, update period and type.
func timedMPD(max int) (m *mpd.MPD, ps []timed, kind int) {
	kind = vsym.Choose("type", 3) // no type, static, dynamic
	m = mpd.NewMPD("static")
	switch kind {
	case 0:
		m.Type = nil
	case 2:
		m.Type = mpd.Ptr("dynamic")
	}
	n := vsym.Choose("periods", max) + 1
	for i := 0; i < n; i++ {
		p := mpd.NewPeriod()
		var t timed
		if vsym.Choose("has start", 2) == 1 {
			t.hasStart = true
			p.Start, t.start = symDur("start")
		}
		if vsym.Choose("has duration", 2) == 1 {
			t.hasDur = true
			p.Duration, t.dur = symDur("duration")
		}
		m.AppendPeriod(p)
		ps = append(ps, t)
	}
	return m, ps, kind
}

// refStart is the PeriodStart of ISO/IEC 23009-1, 5.3.2.1.
func refStart(ps []timed, i int, dynamic bool) (int64, bool) {
	if ps[i].hasStart {
		return ps[i].start, true
	}
	if i == 0 {
		return 0, !dynamic
	}
	if !ps[i-1].hasDur {
		return 0, false
	}
	s, ok := refStart(ps, i-1, dynamic)
	return s + ps[i-1].dur, ok
}

// refPeriodDur is the period's duration: the explicit one, or the time from its start
// to the next period's start or, in a static presentation, its end.
func refPeriodDur(ps []timed, i int, dynamic, hasEnd bool, end int64) (int64, bool) {
	if ps[i].hasDur {
		return ps[i].dur, true
	}
	s, ok := refStart(ps, i, dynamic)
	if !ok {
		return 0, false
	}
	if i+1 < len(ps) {
		// without a duration here, only an explicit start tells where the next one begins
		return ps[i+1].start - s, ps[i+1].hasStart
	}
	return end - s, hasEnd && !dynamic
}

func timingTier() int {
	if vsym.Thorough() {
		return 5
	}
	return 3
}

// H_T01_start: the start of every period of an MPD of up to 3 (thorough: 5) periods.
func H_T01_start() {
	m, ps, kind := timedMPD(timingTier())
	for i, p := range m.Periods {
		want, ok := refStart(ps, i, kind == 2)
		got, err := p.GetStart()
		vsym.Assert((err == nil) == ok, "a start exactly when the rules give one")
		if ok {
			vsym.Assert(int64(got) == want, "start")
		}
	}
	vsym.Reach("end")
}

// H_T01_duration: the duration of every period.
func H_T01_duration() {
	m, ps, kind := timedMPD(timingTier())
	var end int64
	hasEnd := vsym.Choose("has end", 2) == 1
	if hasEnd {
		m.MediaPresentationDuration, end = symDur("end")
	}
	for i, p := range m.Periods {
		want, ok := refPeriodDur(ps, i, kind == 2, hasEnd, end)
		got, err := p.GetDuration()
		vsym.Assert((err == nil) == ok, "a duration exactly when the rules give one")
		if ok {
			vsym.Assert(int64(got) == want, "duration")
		}
	}
	vsym.Reach("end")
}

// H_T01_type: the type of every period. A static period that has neither a start
// nor a predecessor with duration is not classified by the standard: it may
// count as regular or be an error.
func H_T01_type() {
	m, ps, kind := timedMPD(timingTier())
	mup := vsym.Choose("has minimumUpdatePeriod", 2) == 1
	if mup {
		m.MinimumUpdatePeriod, _ = symDur("mup")
	}
	for i, p := range m.Periods {
		got, err := p.GetType()
		earlyTerminated := ps[i].hasDur && (mup || i+1 < len(ps) && ps[i+1].hasStart)
		var want mpd.PeriodType
		switch {
		case ps[i].hasStart:
			want = mpd.PTRegular
			if earlyTerminated {
				want = mpd.PTEarlyTerminated
			}
		case i > 0 && ps[i-1].hasDur:
			want = mpd.PTRegularOrEarlyTerminated
			if earlyTerminated {
				want = mpd.PTEarlyTerminated
			}
		case kind == 2:
			want = mpd.PTEarlyAvailable
		case i == 0:
			want = mpd.PTRegular
		default:
			vsym.Assert(err != nil || got == mpd.PTRegular, "unclassified")
			continue
		}
		vsym.Assert(err == nil, "no error")
		vsym.Assert(got == want, "type")
	}
	vsym.Reach("end")
}

// H_T01_pure: asking for start, duration, type and index does not change the MPD
// and gives the same answer again, in any order.
func H_T01_pure() {
	m, ps, _ := timedMPD(3)
	if vsym.Choose("has end", 2) == 1 {
		m.MediaPresentationDuration, _ = symDur("end")
	}
	type ans struct {
		s, d mpd.Duration
		t    mpd.PeriodType
		i    int
		e    [4]bool
	}
	ask := func(p *mpd.Period) (a ans) {
		var e1, e2, e3, e4 error
		a.s, e1 = p.GetStart()
		a.d, e2 = p.GetDuration()
		a.t, e3 = p.GetType()
		a.i, e4 = p.GetIndex()
		a.e = [4]bool{e1 != nil, e2 != nil, e3 != nil, e4 != nil}
		return
	}
	var first []ans
	for _, p := range m.Periods {
		first = append(first, ask(p))
	}
	for i := len(ps) - 1; i >= 0; i-- {
		p := m.Periods[i]
		a := ask(p)
		vsym.Assert(a.s == first[i].s && a.d == first[i].d && a.t == first[i].t && a.i == first[i].i && a.e == first[i].e, "same answer again")
		vsym.Assert((p.Start != nil) == ps[i].hasStart && (p.Duration != nil) == ps[i].hasDur, "attributes stay")
		if ps[i].hasStart {
			vsym.Assert(int64(*p.Start) == ps[i].start, "start stays")
		}
		if ps[i].hasDur {
			vsym.Assert(int64(*p.Duration) == ps[i].dur, "duration stays")
		}
	}
	vsym.Reach("end")
}

// H_T01_orphan: a period without MPD, or no longer in it, has no start, type or
// index, and a duration only if it is explicit.
func H_T01_orphan() {
	p := mpd.NewPeriod()
	kind := vsym.Choose("orphan", 2)
	if kind == 1 {
		m := mpd.NewMPD("static")
		m.MediaPresentationDuration, _ = symDur("end")
		m.AppendPeriod(p)
		m.AppendPeriod(mpd.NewPeriod())
		m.Periods = m.Periods[1:]
	}
	if vsym.Choose("has start", 2) == 1 {
		p.Start, _ = symDur("start")
	}
	var dur int64
	if vsym.Choose("has duration", 2) == 1 {
		p.Duration, dur = symDur("duration")
	}
	_, err := p.GetIndex()
	vsym.Assert(err != nil, "no index")
	_, err = p.GetType()
	vsym.Assert(err != nil, "no type")
	_, err = p.GetStart()
	vsym.Assert(err != nil || kind == 1 && p.Start != nil, "no start")
	d, err := p.GetDuration()
	vsym.Assert((err == nil) == (p.Duration != nil), "a duration only if explicit")
	if err == nil {
		vsym.Assert(int64(d) == dur, "explicit duration")
	} else if kind == 0 {
		vsym.Assert(errors.Is(err, mpd.ErrParentNotSet), "parent not set")
	}
	vsym.Reach("end")
}

// H_T01_absolute: the absolute start is the availability start plus the start
// (whole seconds below 2^16), and an error without either.
func H_T01_absolute() {
	m := mpd.NewMPD("dynamic")
	var ast int64
	bad := false
	switch vsym.Choose("ast", 5) {
	case 0:
		bad = true
	case 1:
		m.AvailabilityStartTime = "yesterday"
		bad = true
	case 2:
		m.AvailabilityStartTime = "1970-01-01T00:00:00Z"
	case 3:
		m.AvailabilityStartTime = "2024-02-29T12:34:56Z"
		ast = 1709210096
	case 4:
		m.AvailabilityStartTime = "2024-02-29T12:34:56+02:00"
		ast = 1709210096 - 7200
	}
	p := mpd.NewPeriod()
	s := int64(vsym.Uint16("start"))
	has := vsym.Choose("has start", 2) == 1
	if has {
		p.Start = mpd.Ptr(mpd.Duration(s * 1e9))
	}
	m.AppendPeriod(p)
	got, err := p.AbsoluteStart(m)
	vsym.Assert((err == nil) == (!bad && has), "an absolute start exactly when both are known")
	if err == nil {
		vsym.Assert(got == float64(ast+s), "absolute start")
	}
	vsym.Reach("end")
}
