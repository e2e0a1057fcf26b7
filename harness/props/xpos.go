package props

import (
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// checkPos reads all tokens and checks the reported positions after each.
func checkPos(b []byte, strict bool, raw bool) {
	d := decoder(b)
	d.Strict = strict
	r := &rstate{b: b}
	pos := func() int {
		o := d.InputOffset()
		line, col := d.InputPos()
		vsym.Assert(o >= 0 && o <= int64(len(b)), "offset within the input")
		if o < 0 || o > int64(len(b)) {
			return 0
		}
		wl, ws := int64(1), int64(0)
		for i := int64(0); i < o; i++ {
			nl := b[i] == '\n'
			wl = vsym.IteInt64(nl, wl+1, wl)
			ws = vsym.IteInt64(nl, i+1, ws)
		}
		vsym.Assert(int64(line) == wl, "line of the offset")
		vsym.Assert(int64(col) == o-ws+1, "column of the offset")
		return line
	}
	pos()
	self := false
	for k := 0; k < 2*len(b)+2; k++ {
		var t xml.Token
		var err error
		if raw {
			t, err = d.RawToken()
		} else {
			t, err = d.Token()
		}
		line := pos()
		if err != nil {
			if err == io.EOF {
				vsym.Reach("end")
				return
			}
			if se, ok := err.(*xml.SyntaxError); ok {
				vsym.Assert(se.Line == line, "error carries its line")
				vsym.Reach("error")
			}
			return
		}
		if raw && strict {
			if self {
				self = false
				continue
			}
			want, ok := r.next()
			vsym.Assume(!r.skip)
			if ok {
				vsym.Assert(d.InputOffset() == int64(want.end), "offset is the end of the token")
				self = want.self
				vsym.Reach("token")
			}
		}
		_ = t
	}
}

// H_X07_bytes: every sequence of at most 5 bytes (7 thorough).
func H_X07_bytes() {
	n := 5
	if vsym.Thorough() {
		n = 7
	}
	checkPos(vsym.Bytes("b", vsym.Choose("len", n+1)), true, true)
}

// H_X07_frames: 30 contexts with a hole of at most 3 bytes (4 thorough).
func H_X07_frames() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	b, _ := framed(n)
	checkPos(b, true, true)
}

// H_X07_token: the same contexts read with nesting checked and names resolved.
func H_X07_token() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	b, _ := framed(n)
	checkPos(b, true, false)
}

// H_X07_loose: the same contexts, not strict; hole of at most 2 bytes (3 thorough).
func H_X07_loose() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	b, _ := framed(n)
	checkPos(b, false, true)
}
