package props

import (
	"bytes"
	"io"

	"github.com/Eyevinn/dash-mpd/xml"

	"vharness/vsym"
)

// drain reads tokens to the end and checks what X02 says about each.
func drain(d *xml.Decoder, n int, strict bool) {
	var stack []xml.Name
	off := d.InputOffset()
	vsym.Assert(off == 0, "offset starts at 0")
	selfClose := false
	for k := 0; ; k++ {
		if k > 2*n+2 {
			vsym.Assert(false, "finitely many tokens")
			return
		}
		t, err := d.Token()
		if err != nil {
			vsym.Assert(t == nil, "no token with an error")
			if err == io.EOF {
				vsym.Reach("eof")
				if strict {
					vsym.Assert(len(stack) == 0, "every element is closed before end of file")
				}
				vsym.Assert(d.InputOffset() == int64(n), "end of file is reported after the last byte")
			} else {
				vsym.Reach("error")
			}
			t2, err2 := d.Token()
			vsym.Assert(t2 == nil, "no token after an error")
			vsym.Assert(sameErr(err, err2), "an error is returned forever")
			return
		}
		vsym.Assert(t != nil, "a token or an error")
		o := d.InputOffset()
		if strict {
			vsym.Assert(o > off || selfClose, "every token consumes input")
		} else {
			vsym.Assert(o >= off, "offsets do not decrease")
		}
		vsym.Assert(o <= int64(n), "offset within the input")
		off = o
		selfClose = false
		switch x := t.(type) {
		case xml.StartElement:
			stack = append(stack, x.Name)
			selfClose = true
		case xml.EndElement:
			vsym.Assert(len(stack) > 0, "end element has a start element")
			if len(stack) > 0 {
				s := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				vsym.Assert(vsym.EqString(s.Local, x.Name.Local) && (!strict || vsym.EqString(s.Space, x.Name.Space)), "end element closes the innermost open element")
			}
		}
	}
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a == io.EOF || b == io.EOF {
		return a == b
	}
	return vsym.EqString(a.Error(), b.Error())
}

func decoder(s []byte) *xml.Decoder { return xml.NewDecoder(bytes.NewReader(s)) }

// H_X02_bytes: every sequence of at most 6 bytes (8 thorough), strict mode.
func H_X02_bytes() {
	n := 7
	if vsym.Thorough() {
		n = 9
	}
	b := vsym.Bytes("b", vsym.Choose("len", n))
	drain(decoder(b), len(b), true)
}

// H_X02_loose: every sequence of at most 5 bytes (7 thorough), not strict.
func H_X02_loose() {
	n := 6
	if vsym.Thorough() {
		n = 8
	}
	b := vsym.Bytes("b", vsym.Choose("len", n))
	d := decoder(b)
	d.Strict = false
	drain(d, len(b), false)
}

// frames are documents with a hole, one per syntactic context of the decoder.
var frames = [][2]string{
	{"<a", "/>"},
	{"<a ", "></a>"},
	{"<a b", "/>"},
	{"<a b=", "/>"},
	{"<a b='", "'/>"},
	{"<a b=\"", "\"/>"},
	{"<a>", "</a>"},
	{"<a>&", ";</a>"},
	{"<a>&#", ";</a>"},
	{"<a>&#x", ";</a>"},
	{"<a b='&", ";'/>"},
	{"<a><![CDATA[", "]]></a>"},
	{"<a><!", "]]></a>"},
	{"<!--", "-->"},
	{"<!-", "->"},
	{"<?", "?>"},
	{"<?t", "?>"},
	{"<?xml ", "?>"},
	{"<?xml version='1.0' encoding=", "?><a/>"},
	{"<!", ">"},
	{"<!D", ">"},
	{"<!D [<", ">]>"},
	{"<!D <!--", "--> >"},
	{"<a xmlns", "/>"},
	{"<a xmlns:", "></a>"},
	{"<a xmlns:b=", "></a>"},
	{"<a xmlns='u'><b", "</a>"},
	{"<a><b></", "></a>"},
	{"</", ">"},
	{"<a:b></", ">"},
}

func framed(hole int) ([]byte, []byte) {
	f := frames[vsym.Choose("frame", len(frames))]
	h := vsym.Bytes("hole", vsym.Choose("len", hole+1))
	b := append([]byte(f[0]), h...)
	return append(b, f[1]...), h
}

// H_X02_frames: 30 contexts with a hole of at most 4 bytes (5 thorough).
func H_X02_frames() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	b, _ := framed(n)
	drain(decoder(b), len(b), true)
}

// H_X02_frames_loose: the same, not strict; hole of at most 3 bytes (4 thorough).
func H_X02_frames_loose() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	b, _ := framed(n)
	d := decoder(b)
	d.Strict = false
	drain(d, len(b), false)
}
