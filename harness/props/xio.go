package props

import (
	"errors"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

var errSink = errors.New("sink failed")

// sink delivers the first limit bytes it is given and then fails, for good or
// only once. It checks that what it delivers continues the complete output.
type sink struct {
	full  string // the complete output; not checked while empty
	limit int64
	once  bool
	short bool // the failing write reports fewer bytes than given but no error

	got    int64 // bytes delivered
	failed bool
	all    []byte
}

func (s *sink) Write(p []byte) (int, error) {
	if s.failed && !s.once {
		return 0, errSink
	}
	k := int64(len(p))
	fail := false
	if !s.failed && k > s.limit-s.got {
		vsym.Reach("sink fails") // a call: the two cases are followed separately
		k = s.limit - s.got
		fail = true
	}
	if s.full != "" {
		if s.failed {
			vsym.Assert(k == 0, "nothing is delivered after a failure")
		} else {
			vsym.Assert(s.got+int64(len(p)) <= int64(len(s.full)), "not more than the complete output")
			if s.got+int64(len(p)) > int64(len(s.full)) {
				return 0, errSink
			}
			if string(p) != s.full[s.got:s.got+int64(len(p))] {
				for j := range p {
					if p[j] != s.full[s.got+int64(j)] {
						vsym.Assert(int64(j) >= k, "what is delivered is a prefix of the complete output")
						break
					}
				}
			}
		}
	} else {
		s.all = append(s.all, p...)
	}
	if fail {
		s.failed = true
		s.got += k
		if s.short {
			return int(k), nil
		}
		return int(k), errSink
	}
	s.got += k
	return int(k), nil
}

func sinkDoc(big bool) *mpd.MPD {
	m := mpd.NewMPD("static")
	m.BaseURL = append(m.BaseURL, mpd.NewBaseURL("http://a/<b>"))
	if big {
		s := make([]byte, 1500)
		for i := range s {
			s[i] = 'a' + byte(i%26)
		}
		for i := 0; i < 4; i++ {
			m.BaseURL = append(m.BaseURL, mpd.NewBaseURL(string(s)))
		}
		long := make([]byte, 9000)
		for i := range long {
			long[i] = 'A' + byte(i%26)
		}
		m.Id = string(long)
	}
	p := mpd.NewPeriod()
	p.Id = "p\n1"
	m.AppendPeriod(p)
	return m
}

// H_X08_mpd: an MPD of 600 bytes or of 16 kB (four times the encoder's buffer),
// indented or not, with or without declaration, written to a sink that fails
// after any number of bytes, for good or once.
func H_X08_mpd() {
	m := sinkDoc(vsym.Choose("big", 2) == 1)
	indent := ""
	if vsym.Choose("indent", 2) == 1 {
		indent = "  "
	}
	header := vsym.Choose("header", 2) == 1
	full, err := m.WriteToString(indent, header)
	vsym.Assert(err == nil && len(full) > 0, "write to a string")
	checkSink(full, func(s *sink) (int, error) { return m.Write(s, indent, header) })
}

// H_X08_period: the same for a period.
func H_X08_period() {
	m := sinkDoc(false)
	full, err := m.Periods[0].WriteToString(" ")
	vsym.Assert(err == nil && len(full) > 0, "write to a string")
	checkSink(full, func(s *sink) (int, error) { return m.Periods[0].Write(s, " ") })
}

// H_X08_encoder: Encode of the bare encoder.
func H_X08_encoder() {
	m := sinkDoc(vsym.Choose("big", 2) == 1)
	full, err := xml.Marshal(m)
	vsym.Assert(err == nil && len(full) > 0, "marshal")
	checkSink(string(full), func(s *sink) (int, error) {
		n := -1
		err := xml.NewEncoder(s).Encode(m)
		if err == nil {
			n = len(full)
		}
		return n, err
	})
}

func checkSink(full string, write func(*sink) (int, error)) {
	limit := vsym.Int64("limit")
	vsym.Assume(vsym.And(limit >= 0, limit <= int64(len(full))+10))
	mode := vsym.Choose("mode", 3)
	s := &sink{full: full, limit: limit, once: mode == 1, short: mode == 2}
	n, err := write(s)
	vsym.Assert((err != nil) == (limit < int64(len(full))), "an error exactly when the sink failed")
	if err == nil {
		vsym.Assert(int64(n) == int64(len(full)), "count of bytes")
		vsym.Assert(s.got == int64(len(full)), "everything is delivered")
		vsym.Reach("complete")
	} else {
		vsym.Assert(s.failed, "the sink has failed")
		if n >= 0 {
			vsym.Assert(int64(n) == s.got, "count of bytes up to the failure")
		}
		vsym.Reach("failed")
	}
}

// H_X08_tokens: tokens written one by one, with 5000 bytes of text: a sink that
// fails after any number of bytes shows as an error at the latest on Close, and
// the error stays.
func H_X08_tokens() {
	text := make([]byte, 5000)
	for i := range text {
		text[i] = 'a'
	}
	toks := []xml.Token{
		xml.StartElement{Name: xmlName("a"), Attr: []xml.Attr{xmlAttr("b", "<>")}},
		xml.CharData(text),
		xml.Comment("c"),
		xml.ProcInst{Target: "p", Inst: []byte("i")},
		xml.Directive("D"),
		xml.EndElement{Name: xmlName("a")},
	}
	run := func(s *sink) (int, error) {
		e := xml.NewEncoder(s)
		var first error
		for _, t := range toks {
			err := e.EncodeToken(t)
			if first != nil {
				vsym.Assert(err != nil, "an error stays")
			}
			if first == nil {
				first = err
			}
		}
		err := e.Close()
		if first != nil {
			vsym.Assert(err != nil, "an error stays on close")
		} else {
			first = err
		}
		return int(s.got), first
	}
	ref := &sink{limit: 1 << 40}
	_, err := run(ref)
	vsym.Assert(err == nil, "no error without failure")
	checkSink(string(ref.all), run)
}

// H_X08_string: writing to a string gives the same bytes as writing to a sink.
func H_X08_string() {
	m := sinkDoc(true)
	header := vsym.Choose("header", 2) == 1
	full, err := m.WriteToString("\t", header)
	ref := &sink{limit: 1 << 40}
	n, err2 := m.Write(ref, "\t", header)
	vsym.Assert(err == nil && err2 == nil, "no error")
	vsym.Assert(n == len(full) && vsym.EqString(string(ref.all), full), "same bytes")
	if header {
		vsym.Assert(full[:len(xml.Header)] == xml.Header, "declaration first")
	} else {
		vsym.Assert(full[:4] == "<MPD", "element first")
	}
	vsym.Reach("end")
}
