From c513fe4d76dcae930fa4978b16ef4dbea2f5a75a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:57:06 +0000
Subject: [PATCH 01/26] fix: write durations just below one second as PT1S, not
 PT0S

---
 mpd/duration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 3befc58..0356307 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -78,7 +78,7 @@ func (d *Duration) String() string {
 		// Time smaller than ms, return higher precision
 		w, u = fmtFrac(buf[:w], u, 9)
 		w = fmtInt(buf[:w], u)
-	case s == 0:
+	case s == 0 && ms < 1000:
 		// Time smaller than 1s, return ms
 		w, _ = fmtFrac(buf[:w], ms, 3)
 		w--
-- 
2.43.0


From 0fe4044a5f417a7509d867940d006d3e7cb8d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 02/26] fix: reject durations out of range or without a
 component after T, read seconds exactly

---
 mpd/duration.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/mpd/duration.go b/mpd/duration.go
index 0356307..ecb0853 100644
--- a/mpd/duration.go
+++ b/mpd/duration.go
@@ -3,6 +3,7 @@ package mpd
 import (
 	"math"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/Eyevinn/dash-mpd/xml"
@@ -202,6 +203,17 @@ func ParseDuration(str string) (time.Duration, error) {
 		return 0
 	}
 
+	// addUnits adds num units to total unless num is not a number or the sum
+	// is outside the range of time.Duration.
+	addUnits := func(num string, unit time.Duration) bool {
+		n, err := strconv.ParseInt(num, 10, 64)
+		if err != nil || n > int64((math.MaxInt64-total)/unit) {
+			return false
+		}
+		total += time.Duration(n) * unit
+		return true
+	}
+
 	for i < len(str) {
 		c := str[i]
 		if c == 'T' {
@@ -210,6 +222,9 @@ func ParseDuration(str string) (time.Duration, error) {
 			}
 			afterT = true
 			i++
+			if i == len(str) { // T must be followed by a component
+				return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
+			}
 			continue
 		}
 		if c == '-' {
@@ -245,7 +260,7 @@ func ParseDuration(str string) (time.Duration, error) {
 		if rank(unit) <= rank(lastUnit) {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
-		if unit != 'D' && !afterT {
+		if (unit != 'D') != afterT {
 			return 0, newParseDurationError("duration must be in the format: P[nD][T[nH][nM][nS]]")
 		}
 		if sawDot && unit != 'S' {
@@ -258,29 +273,26 @@ func ParseDuration(str string) (time.Duration, error) {
 
 		switch unit {
 		case 'D':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if !addUnits(numStr, 24*time.Hour) {
 				return 0, newParseDurationError("error parsing Days")
 			}
-			total += time.Duration(n) * 24 * time.Hour
 		case 'H':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if !addUnits(numStr, time.Hour) {
 				return 0, newParseDurationError("error parsing Hours")
 			}
-			total += time.Duration(n) * time.Hour
 		case 'M':
-			n, err := strconv.ParseUint(numStr, 10, 64)
-			if err != nil {
+			if !addUnits(numStr, time.Minute) {
 				return 0, newParseDurationError("error parsing Minutes")
 			}
-			total += time.Duration(n) * time.Minute
 		case 'S':
-			f, err := strconv.ParseFloat(numStr, 64)
-			if err != nil {
+			whole, frac, _ := strings.Cut(numStr, ".")
+			if sawDot && frac == "" || !addUnits(whole, time.Second) {
+				return 0, newParseDurationError("error parsing Seconds")
+			}
+			// nine decimals are nanoseconds, further ones are cut off
+			if !addUnits((frac + "000000000")[:9], time.Nanosecond) {
 				return 0, newParseDurationError("error parsing Seconds")
 			}
-			total += time.Duration(f * float64(time.Second))
 		}
 	}
 	if !seenAny {
-- 
2.43.0


From 5c3360c649b4bf1fa6e81d4496dd8772c9f32877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:46 +0000
Subject: [PATCH 03/26] fix: read a raw > in character data as text instead of
 returning endless empty tokens

---
 xml/xml.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/xml/xml.go b/xml/xml.go
index d044c43..1d65454 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1063,11 +1063,6 @@ Input:
 			d.ungetc('<')
 			break Input
 		}
-		// This occurs only for an unquoted attr name.
-		if b == '>' && !cdata && quote < 0 { // Possible end of tag reached
-			d.ungetc('>') // Leaving end of tag available
-			break         // returning text
-		}
 		if quote >= 0 && b == byte(quote) {
 			break Input
 		}
-- 
2.43.0


From 0e091eff08f00153234ec7ced3ef983dfdaf0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:33 +0000
Subject: [PATCH 04/26] fix: reject character references to surrogate code
 points

---
 xml/xml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/xml.go b/xml/xml.go
index 1d65454..25ef500 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -1108,7 +1108,7 @@ Input:
 					s := string(d.buf.Bytes()[start:])
 					d.buf.WriteByte(';')
 					n, err := strconv.ParseUint(s, base, 64)
-					if err == nil && n <= unicode.MaxRune {
+					if err == nil && n <= unicode.MaxRune && utf8.ValidRune(rune(n)) {
 						text = string(rune(n))
 						haveText = true
 					}
-- 
2.43.0


From 5a7d7387aba7f9d571b5176ffda952e8b4a5f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 05/26] fix: restore the line start when a line break is pushed
 back

---
 xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xml/xml.go b/xml/xml.go
index 25ef500..1dc14fe 100644
--- a/xml/xml.go
+++ b/xml/xml.go
@@ -214,6 +214,7 @@ type Decoder struct {
 	err            error
 	line           int
 	linestart      int64
+	prevLinestart  int64 // linestart before the last '\n' was read
 	offset         int64
 	unmarshalDepth int
 	nameIntern     map[string]string // per-Decoder intern map for element/attribute names
@@ -961,6 +962,7 @@ func (d *Decoder) getc() (b byte, ok bool) {
 	}
 	if b == '\n' {
 		d.line++
+		d.prevLinestart = d.linestart
 		d.linestart = d.offset + 1
 	}
 	d.offset++
@@ -1008,6 +1010,7 @@ func (d *Decoder) mustgetc() (b byte, ok bool) {
 func (d *Decoder) ungetc(b byte) {
 	if b == '\n' {
 		d.line--
+		d.linestart = d.prevLinestart
 	}
 	d.nextByte = int(b)
 	d.offset--
-- 
2.43.0


From 357ac1fdfde6ca3fccb6d714d7b079eb93035e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 06/26] fix: refuse comment tokens that contain -- or end in a
 dash

---
 xml/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index c8acede..ce0c2b0 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -270,6 +270,9 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		if bytes.Contains(t, endComment) {
 			return fmt.Errorf("xml: EncodeToken of Comment containing --> marker")
 		}
+		if bytes.Contains(t, ddBytes) || bytes.HasSuffix(t, ddBytes[:1]) {
+			return fmt.Errorf("xml: EncodeToken of Comment containing -- or ending in -")
+		}
 		p.WriteString("<!--")
 		p.Write(t)
 		p.WriteString("-->")
-- 
2.43.0


From 42962ba8eb786ed87b7c7b9b43472259dd058240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 07/26] fix: refuse directives that would not read back as a
 directive

---
 xml/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index ce0c2b0..8204e57 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -297,6 +297,9 @@ func (enc *Encoder) EncodeToken(t Token) error {
 		}
 		p.WriteString("?>")
 	case Directive:
+		if len(t) == 0 || bytes.IndexByte([]byte(`-[<>"'`), t[0]) >= 0 {
+			return fmt.Errorf("xml: EncodeToken of Directive that is empty or starts with a markup character")
+		}
 		if !isValidDirective(t) {
 			return fmt.Errorf("xml: EncodeToken of Directive containing wrong < or > markers")
 		}
@@ -317,12 +320,13 @@ func isValidDirective(dir Directive) bool {
 		depth     int
 		inquote   uint8
 		incomment bool
+		body      int // start of the comment's content
 	)
 	for i, c := range dir {
 		switch {
 		case incomment:
 			if c == '>' {
-				if n := 1 + i - len(endComment); n >= 0 && bytes.Equal(dir[n:i+1], endComment) {
+				if n := 1 + i - len(endComment); n >= body && bytes.Equal(dir[n:i+1], endComment) {
 					incomment = false
 				}
 			}
@@ -337,6 +341,7 @@ func isValidDirective(dir Directive) bool {
 		case c == '<':
 			if i+len(begComment) < len(dir) && bytes.Equal(dir[i:i+len(begComment)], begComment) {
 				incomment = true
+				body = i + len(begComment)
 			} else {
 				depth++
 			}
-- 
2.43.0


From b04c5791b44304b69b91603efe7954324c089a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:45 +0000
Subject: [PATCH 08/26] fix: refuse an XML declaration after flushed output

---
 xml/marshal.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 8204e57..7bb9ae3 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -190,6 +190,7 @@ func ReleaseEncoder(enc *Encoder) {
 	enc.p.depth = 0
 	enc.p.indentedIn = false
 	enc.p.putNewline = false
+	enc.p.started = false
 	enc.p.closed = false
 	enc.p.err = nil
 	// Truncate the elements slice without releasing its backing array.
@@ -280,7 +281,7 @@ func (enc *Encoder) EncodeToken(t Token) error {
 	case ProcInst:
 		// First token to be encoded which is also a ProcInst with target of xml
 		// is the xml declaration. The only ProcInst where target of xml is allowed.
-		if t.Target == "xml" && p.w.Buffered() != 0 {
+		if t.Target == "xml" && p.started {
 			return fmt.Errorf("xml: EncodeToken of ProcInst xml target only valid for xml declaration, first token encoded")
 		}
 		if !isNameString(t.Target) {
@@ -413,6 +414,7 @@ type printer struct {
 	indentedIn bool
 	putNewline bool
 	elements   []element
+	started    bool // something has been written
 	closed     bool
 	err        error
 }
@@ -1168,6 +1170,7 @@ func (p *printer) Write(b []byte) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(b) > 0
 		n, p.err = p.w.Write(b)
 	}
 	return n, p.err
@@ -1179,6 +1182,7 @@ func (p *printer) WriteString(s string) (n int, err error) {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = p.started || len(s) > 0
 		n, p.err = p.w.WriteString(s)
 	}
 	return n, p.err
@@ -1190,6 +1194,7 @@ func (p *printer) WriteByte(c byte) error {
 		p.err = errors.New("use of closed Encoder")
 	}
 	if p.err == nil {
+		p.started = true
 		p.err = p.w.WriteByte(c)
 	}
 	return p.err
-- 
2.43.0


From 2d235baf061fea82a9b3d89291e3a48e47671877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 09/26] fix: keep namespaces given to the encoder when a
 default or a prefix is bound anew further in

---
 xml/marshal.go | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 7bb9ae3..0678c63 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -378,6 +378,8 @@ type element struct {
 	xmlns      string
 	prefix     string
 	name       string
+	hasDefault bool   // the start tag declares a default namespace
+	defaultNS  string // the default namespace it declares
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
 }
@@ -449,7 +451,9 @@ func (p *printer) getPrefix(uri string) string {
 // createPrefix finds a prefix to use for the given namespace URI,
 // defining a new prefix if necessary. It returns the prefix.
 // If set, it will attempt to use preferred as the prefix.
-func (p *printer) createPrefix(uri, preferred string) (string, bool) {
+// A prefix bound by an enclosing element may already be used by the current
+// start tag, so it is only bound anew if rebind is set.
+func (p *printer) createPrefix(uri, preferred string, rebind bool) (string, bool) {
 	if prefix := p.getPrefix(uri); prefix != "" && (prefix == preferred || preferred == "") {
 		return prefix, false
 	}
@@ -464,10 +468,21 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 		e.nsToPrefix = make(map[string]string)
 		e.prefixToNS = make(map[string]string)
 	}
+	taken := func(prefix string) bool {
+		if rebind {
+			return e.prefixToNS[prefix] != ""
+		}
+		for i := range p.elements {
+			if p.elements[i].prefixToNS[prefix] != "" {
+				return true
+			}
+		}
+		return false
+	}
 
 	// Pick a name. Try to use the final element of the path but fall back to _.
 	prefix := preferred
-	if prefix == "" || e.prefixToNS[prefix] != "" {
+	if prefix == "" || taken(prefix) {
 		prefix = strings.TrimRight(uri, "/")
 	}
 	if i := strings.LastIndex(prefix, "/"); i >= 0 {
@@ -483,10 +498,10 @@ func (p *printer) createPrefix(uri, preferred string) (string, bool) {
 	if len(prefix) >= 3 && strings.EqualFold(prefix[:3], "xml") {
 		prefix = "_" + prefix
 	}
-	if e.prefixToNS[prefix] != "" {
+	if taken(prefix) {
 		// Name is taken. Find a better one.
 		for p.seq++; ; p.seq++ {
-			if id := prefix + "_" + strconv.Itoa(p.seq); e.prefixToNS[id] == "" {
+			if id := prefix + "_" + strconv.Itoa(p.seq); !taken(id) {
 				prefix = id
 				break
 			}
@@ -843,8 +858,8 @@ func (p *printer) writeStart(start *StartElement) error {
 		// Walk up the tree to see if a default namespace is already defined without a prefix.
 		if !spaceDefined && e.prefix == "" {
 			for i := len(p.elements) - 2; i >= 0; i-- {
-				if p.elements[i].prefix == "" && p.elements[i].xmlns == e.xmlns {
-					spaceDefined = true
+				if p.elements[i].hasDefault {
+					spaceDefined = p.elements[i].defaultNS == e.xmlns
 					break
 				}
 			}
@@ -854,7 +869,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			// Look for an xmlns:prefix="uri" attribute that matches tag
 			for _, attr := range start.Attr {
 				if attr.Name.Space == xmlnsURL && attr.Name.Local != "" && attr.Value == e.xmlns {
-					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local)
+					e.prefix, _ = p.createPrefix(attr.Value, attr.Name.Local, true)
 					spaceDefined = true
 					break
 				}
@@ -873,7 +888,7 @@ func (p *printer) writeStart(start *StartElement) error {
 	if e.prefix != "" {
 		var prefixCreated bool
 		if e.xmlns != "" && !spaceDefined {
-			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix)
+			e.prefix, prefixCreated = p.createPrefix(e.xmlns, e.prefix, true)
 		}
 		p.WriteString(e.prefix)
 		p.WriteByte(':')
@@ -888,6 +903,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			p.WriteString(` xmlns="`)
 			p.EscapeString(e.xmlns)
 			p.WriteByte('"')
+			e.hasDefault, e.defaultNS = true, e.xmlns
 		}
 	} else {
 		p.WriteString(e.name)
@@ -898,15 +914,22 @@ func (p *printer) writeStart(start *StartElement) error {
 		if attr.Name.Local == "" {
 			continue
 		}
+		if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			// Rely on it only where it is the element's own namespace.
+			e.hasDefault, e.defaultNS = true, ""
+			if attr.Value == e.xmlns {
+				e.defaultNS = e.xmlns
+			}
+		}
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
-			p.createPrefix(attr.Value, local)
+			p.createPrefix(attr.Value, local, true)
 			p.WriteString(xmlnsPrefix)
 			p.WriteByte(':')
 		} else if attr.Name.Space != "" {
 			var prefixCreated bool
-			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix)
+			prefix, prefixCreated = p.createPrefix(attr.Name.Space, prefix, false)
 			if prefixCreated {
 				p.writePrefixAttr(prefix, attr.Name.Space)
 				p.WriteByte(' ')
-- 
2.43.0


From fdecdcd9806cb41301b54589df7f6cd16cb12814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 10/26] fix: derive a period's duration from its derived start,
 and from the next period's start whatever the presentation end

---
 mpd/period.go | 43 ++++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/mpd/period.go b/mpd/period.go
index 6f09105..c3cc4c7 100644
--- a/mpd/period.go
+++ b/mpd/period.go
@@ -129,7 +129,8 @@ func (p *Period) GetStart() (Duration, error) {
 	return 0, ErrUnknownPeriodStart
 }
 
-// GetDuration returns the period's duration if specified or the MPD is single-period static.
+// GetDuration returns the period's duration if specified, and otherwise the time
+// from its start to the start of the next period or to the end of a static presentation.
 func (p *Period) GetDuration() (Duration, error) {
 	if p.Duration != nil {
 		return *p.Duration, nil
@@ -143,35 +144,27 @@ func (p *Period) GetDuration() (Duration, error) {
 	if err != nil {
 		return 0, err
 	}
-	switch m.GetType() {
-	case STATIC_TYPE:
+	var end Duration
+	switch {
+	case idx < nrPeriods-1:
+		if m.Periods[idx+1].Start == nil {
+			return 0, ErrUnknownPeriodDur
+		}
+		end = *m.Periods[idx+1].Start
+	case m.GetType() == STATIC_TYPE:
 		if m.MediaPresentationDuration == nil {
 			return 0, ErrNoMediaPresentationDuration
 		}
-		end := *m.MediaPresentationDuration
-		if idx < nrPeriods-1 {
-			if m.Periods[idx+1].Start == nil {
-				return 0, ErrUnknownPeriodDur
-			}
-			end = *m.Periods[idx+1].Start
-		}
-		if p.Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return end - *p.Start, nil
+		end = *m.MediaPresentationDuration
 	default: // dynamic
-		if p.Start == nil {
-			// Early available period
-			return 0, ErrUnknownPeriodDur
-		}
-		if idx == nrPeriods-1 {
-			return 0, ErrUnknownPeriodDur
-		}
-		if m.Periods[idx+1].Start == nil {
-			return 0, ErrUnknownPeriodDur
-		}
-		return *m.Periods[idx+1].Start - *p.Start, nil
+		return 0, ErrUnknownPeriodDur
+	}
+	start, err := p.GetStart()
+	if err != nil {
+		// Early available period
+		return 0, ErrUnknownPeriodDur
 	}
+	return end - start, nil
 }
 
 // Clone returns a deep copy of the Period with parent links set.
-- 
2.43.0


From 3a52e5b496a3eb8bfe934ddad8622a13a95bb4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 11/26] fix: set parents in empty adaptation sets too

---
 mpd/parents.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpd/parents.go b/mpd/parents.go
index 6bbc61c..dff27ef 100644
--- a/mpd/parents.go
+++ b/mpd/parents.go
@@ -14,6 +14,10 @@ func (m *MPD) SetParents() {
 				}
 			}
 		}
+		for _, a := range p.EmptyAdaptationSets {
+			a.SetParent(p)
+			a.SetParents()
+		}
 	}
 }
 
@@ -34,6 +38,10 @@ func (p *Period) SetParents() {
 			}
 		}
 	}
+	for _, a := range p.EmptyAdaptationSets {
+		a.SetParent(p)
+		a.SetParents()
+	}
 }
 
 // AppendAdaptationSet appends an AdaptationSet to the Period and sets parent pointer.
-- 
2.43.0


From 167f23b94b808bed3fd98a68b56d1c271e73f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 12/26] fix: leave the default timescale out when it is set

---
 mpd/mpd.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 3d02e9a..0ff9743 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -804,6 +804,7 @@ func (s SegmentBaseType) GetTimescale() uint32 {
 func (s *SegmentBaseType) SetTimescale(timescale uint32) {
 	if timescale == 1 {
 		s.Timescale = nil
+		return
 	}
 	s.Timescale = &timescale
 }
-- 
2.43.0


From 5bf4b9449fc987aab4adad291ad4778c79f7bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 13/26] fix: do not wrap the end of the index range at 4 GiB

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 0ff9743..2b89c0f 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -470,7 +470,7 @@ func (r *RepresentationType) Parent() *AdaptationSetType {
 // SetSegmentBase sets SegmentBaseType for RepresentationType.
 func (r *RepresentationType) SetSegmentBase(initSize, sidxSize uint32, indexRangeExact bool) {
 	initRange := fmt.Sprintf("0-%d", initSize-1)
-	indexRange := fmt.Sprintf("%d-%d", initSize, initSize+sidxSize-1)
+	indexRange := fmt.Sprintf("%d-%d", initSize, uint64(initSize)+uint64(sidxSize)-1)
 	r.SegmentBase = &SegmentBaseType{
 		IndexRange: indexRange,
 		Initialization: &URLType{
-- 
2.43.0


From 3cb778e47b8a9213fbe0d773359571507fd9af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 14/26] fix: do not panic for the inherited values of a
 representation without parent

---
 mpd/mpd.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 2b89c0f..5aff6d5 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -556,7 +556,7 @@ type RepresentationBaseType struct {
 }
 
 func (r *RepresentationType) GetSegmentTemplate() *SegmentTemplateType {
-	if r.SegmentTemplate == nil {
+	if r.SegmentTemplate == nil && r.parent != nil {
 		return r.parent.GetSegmentTemplate()
 	}
 	return r.SegmentTemplate
@@ -601,7 +601,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 
 // GetMimeType returns the representation's or its parent's mime type.
 func (r *RepresentationType) GetMimeType() string {
-	if r.MimeType == "" {
+	if r.MimeType == "" && r.parent != nil {
 		return r.parent.GetMimeType()
 	}
 	return r.MimeType
@@ -609,7 +609,7 @@ func (r *RepresentationType) GetMimeType() string {
 
 // GetCodecs returns the representation's or its parent's codecs string.
 func (r *RepresentationType) GetCodecs() string {
-	if r.Codecs == "" {
+	if r.Codecs == "" && r.parent != nil {
 		return r.parent.GetCodecs()
 	}
 	return r.Codecs
@@ -617,7 +617,7 @@ func (r *RepresentationType) GetCodecs() string {
 
 // GetContentProtections returns the representation's or its parent's content protections.
 func (r *RepresentationType) GetContentProtections() []*ContentProtectionType {
-	if len(r.ContentProtections) == 0 {
+	if len(r.ContentProtections) == 0 && r.parent != nil {
 		return r.parent.GetContentProtections()
 	}
 	return r.ContentProtections
-- 
2.43.0


From 14ffd8efca0a866a38220fa93be7567709327f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 15/26] fix: do not replace identifiers in what replaced an
 identifier

---
 mpd/mpd.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 5aff6d5..54f95dd 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -574,10 +574,16 @@ func (r *RepresentationType) GetInit() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	initialization := st.Initialization
-	initialization = strings.ReplaceAll(initialization, "$RepresentationID$", r.Id)
-	initialization = strings.ReplaceAll(initialization, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-	return initialization, nil
+	return r.replaceIdentifiers(st.Initialization), nil
+}
+
+// replaceIdentifiers replaces the ID and bandwidth identifiers of a template.
+// It does so in one pass, so that an ID cannot bring in further identifiers.
+func (r *RepresentationType) replaceIdentifiers(template string) string {
+	return strings.NewReplacer(
+		"$RepresentationID$", r.Id,
+		"$Bandwidth$", strconv.FormatUint(uint64(r.Bandwidth), 10),
+	).Replace(template)
 }
 
 // GetRepMedia returns the representation's media path with replaced ID and bandwidth identifiers.
@@ -592,11 +598,7 @@ func (r *RepresentationType) GetMedia() (string, error) {
 	if st == nil {
 		return "", ErrSegmentTemplateNotSet
 	}
-	media := st.Media
-	media = strings.ReplaceAll(media, "$RepresentationID$", r.Id)
-	media = strings.ReplaceAll(media, "$Bandwidth$", strconv.Itoa(int(r.Bandwidth)))
-
-	return media, nil
+	return r.replaceIdentifiers(st.Media), nil
 }
 
 // GetMimeType returns the representation's or its parent's mime type.
-- 
2.43.0


From 37867d648f501bbebe32c98fdde2810762c756c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 16/26] fix: read and write group labels, initialization groups
 and quality latencies under their own names

---
 mpd/mpd.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 54f95dd..1bd8d5f 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -331,20 +331,20 @@ type PlaybackRestrictionsType struct {
 	SkipAfter Duration `xml:"skipAfter,attr,omitempty"`
 }
 
-// UIntPairsWithIDType is UInt Pairs With ID.
+// UIntPairsWithIDType is UInt Pairs With ID, used for QualityLatency.
+// It therefore has no XMLName.
 type UIntPairsWithIDType struct {
-	XMLName xml.Name `xml:"UIntPairsWithID"`
-	Type    AnyURI   `xml:"type,attr,omitempty"`
-	*UIntVectorType
+	Type            AnyURI `xml:"type,attr,omitempty"`
+	*UIntVectorType `xml:",chardata"`
 }
 
-// UIntVWithIDType is UInt Vector With ID
+// UIntVWithIDType is UInt Vector With ID, used for InitializationGroup and InitializationPresentation.
+// It therefore has no XMLName.
 type UIntVWithIDType struct {
-	XMLName     xml.Name               `xml:"UIntVWithID"`
-	Id          uint32                 `xml:"id,attr"`
-	Profiles    ListOfProfilesType     `xml:"profiles,attr,omitempty"`
-	ContentType RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
-	UIntVectorType
+	Id             uint32                 `xml:"id,attr"`
+	Profiles       ListOfProfilesType     `xml:"profiles,attr,omitempty"`
+	ContentType    RFC6838ContentTypeType `xml:"contentType,attr,omitempty"`
+	UIntVectorType `xml:",chardata"`
 }
 
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
@@ -712,11 +712,11 @@ type ContentPopularityRateType struct {
 }
 
 // LabelType is Label and Group Label.
+// It therefore has no XMLName.
 type LabelType struct {
-	XMLName xml.Name `xml:"Label"`
-	Id      uint32   `xml:"id,attr,omitempty"` // default = 0
-	Lang    string   `xml:"lang,attr,omitempty"`
-	Value   string   `xml:",chardata"`
+	Id    uint32 `xml:"id,attr,omitempty"` // default = 0
+	Lang  string `xml:"lang,attr,omitempty"`
+	Value string `xml:",chardata"`
 }
 
 // ProducerReferenceTimeType is Producer Reference time.
-- 
2.43.0


From 792684e0dc748cf15fd9b846124fe15d85c3093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:22 +0000
Subject: [PATCH 17/26] fix: read and write the interval of a switching as an
 attribute

---
 mpd/mpd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 1bd8d5f..9dbd366 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -758,7 +758,7 @@ type SubsetType struct {
 // SwitchingType is Switching
 type SwitchingType struct {
 	XMLName  xml.Name          `xml:"Switching"`
-	Interval uint32            `xml:"interval"`
+	Interval uint32            `xml:"interval,attr"`
 	Type     SwitchingTypeType `xml:"type,attr,omitempty"` // default = "media"
 }
 
-- 
2.43.0


From 5ac5129dad646a0d118f204e6c5d0d3251069c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 18/26] fix: give the xlink attributes of adaptation sets and
 segment lists the xlink namespace

---
 mpd/mpd.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 9dbd366..c8e846e 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -350,10 +350,10 @@ type UIntVWithIDType struct {
 // AdaptationSetType is AdaptationSet or EmptyAdaptationSet.
 // Note that XMLName is not set, since the same structure is used also for EmptyAdaptationSet.
 type AdaptationSetType struct {
-	XlinkHref               string                 `xml:"xlink:href,attr,omitempty"`
-	XlinkActuate            string                 `xml:"xlink:actuate,attr,omitempty"` // default is "onRequest"
-	XlinkType               string                 `xml:"xlink:type,attr,omitempty"`    // fixed "simple"
-	XlinkShow               string                 `xml:"xlink:show,attr,omitempty"`    // fixed "embed"
+	XlinkHref               string                 `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
+	XlinkActuate            string                 `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default is "onRequest"
+	XlinkType               string                 `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed "simple"
+	XlinkShow               string                 `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	Id                      *uint32                `xml:"id,attr"`
 	Group                   uint32                 `xml:"group,attr,omitempty"`
 	Lang                    string                 `xml:"lang,attr,omitempty"`
@@ -847,7 +847,7 @@ type SegmentListType struct {
 	XlinkHref    string            `xml:"http://www.w3.org/1999/xlink xlink:href,attr,omitempty"`
 	XlinkActuate string            `xml:"http://www.w3.org/1999/xlink xlink:actuate,attr,omitempty"` // default = "onRequest"
 	XlinkType    string            `xml:"http://www.w3.org/1999/xlink xlink:type,attr,omitempty"`    // fixed = "simple"
-	XlinkShow    string            `xml:"xlink:show,attr,omitempty"`                                 // fixed "embed"
+	XlinkShow    string            `xml:"http://www.w3.org/1999/xlink xlink:show,attr,omitempty"`    // fixed "embed"
 	SegmentURL   []*SegmentURLType `xml:"SegmentURL"`
 	MultipleSegmentBaseType
 }
-- 
2.43.0


From 42a758a211ada1e4a38fa574d79a0576c118c11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:48 +0000
Subject: [PATCH 19/26] fix: skip attributes behind a nil embedded pointer
 instead of panicking

---
 xml/marshal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index 0678c63..9cbf546 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -648,7 +648,13 @@ func (p *printer) marshalValue(val reflect.Value, finfo *fieldInfo, startTemplat
 
 		fv := finfo.value(val, dontInitNilPointers)
 
-		if finfo.flags&fOmitEmpty != 0 && (!fv.IsValid() || isEmptyValue(fv)) {
+		if !fv.IsValid() {
+			// The field is behind an anonymous struct field that's
+			// nil. Skip it.
+			continue
+		}
+
+		if finfo.flags&fOmitEmpty != 0 && isEmptyValue(fv) {
 			continue
 		}
 
-- 
2.43.0


From 9967013f3e4bc92f306ed19a4d6c43c92124a59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:15 +0000
Subject: [PATCH 20/26] fix: keep indentation out of the text of events with
 child elements

---
 mpd/mpd.go     | 19 +++++++++++++++++++
 xml/marshal.go | 22 ++++++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index c8e846e..200b3eb 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -240,6 +240,25 @@ type EventType struct {
 	SpliceInfoSection    *SpliceInfoSectionType          `xml:"SpliceInfoSection,omitempty"` // SCTE-35 SpliceInfoSection, direct form
 }
 
+// xmlSpace is the white space of XML.
+const xmlSpace = " \t\r\n"
+
+// UnmarshalXML reads an event. White space that only separates its child elements is not its Value.
+func (e *EventType) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	type plain EventType // without this method
+	if err := d.DecodeElement((*plain)(e), &start); err != nil {
+		return err
+	}
+	hasChild := e.SelectionInfo != nil || e.ServiceDescription != nil ||
+		e.InsertPresentation != nil || e.ReplacePresentation != nil ||
+		len(e.SupplementalProperty) > 0 || len(e.EssentialProperty) > 0 ||
+		e.Signal != nil || e.SpliceInfoSection != nil
+	if hasChild && strings.Trim(e.Value, xmlSpace) == "" {
+		e.Value = ""
+	}
+	return nil
+}
+
 // SelectionInfoType is SelectionInfo
 type SelectionInfoType struct {
 	SelectionInfo string           `xml:"selectionInfo,attr,omitempty"`
diff --git a/xml/marshal.go b/xml/marshal.go
index 9cbf546..957518d 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -380,6 +380,7 @@ type element struct {
 	name       string
 	hasDefault bool   // the start tag declares a default namespace
 	defaultNS  string // the default namespace it declares
+	hasText    bool   // text was written, which indentation would add to
 	nsToPrefix map[string]string
 	prefixToNS map[string]string
 }
@@ -1054,9 +1055,15 @@ func (p *printer) marshalStruct(tinfo *typeInfo, val reflect.Value) error {
 
 		switch finfo.flags & fMode {
 		case fCDATA, fCharData:
-			emit := EscapeText
+			escape := EscapeText
 			if finfo.flags&fMode == fCDATA {
-				emit = emitCDATA
+				escape = emitCDATA
+			}
+			emit := func(w io.Writer, data []byte) error {
+				if n := len(p.elements); n > 0 && len(data) > 0 {
+					p.elements[n-1].hasText = true
+				}
+				return escape(w, data)
 			}
 			if err := s.trim(finfo.parents); err != nil {
 				return err
@@ -1264,6 +1271,17 @@ func (p *printer) writeIndent(depthDelta int) {
 		}
 		p.indentedIn = false
 	}
+	outer := len(p.elements) - 1 // the element that the indentation goes into
+	if depthDelta > 0 {
+		outer--
+	}
+	if outer >= 0 && p.elements[outer].hasText {
+		if depthDelta > 0 {
+			p.depth++
+			p.indentedIn = true
+		}
+		return
+	}
 	if p.putNewline {
 		p.WriteByte('\n')
 	} else {
-- 
2.43.0


From 4a240c1db845a6e451b79564d70ea24b97ddce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:54 +0000
Subject: [PATCH 21/26] fix: read and write lists of strings as one attribute

---
 mpd/mpd.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 200b3eb..39bc373 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1017,6 +1017,20 @@ type LeapSecondInformationType struct {
 // StringNoWhitespaceVectorType is Whitespace-separated list of no-whitespace strings
 type StringNoWhitespaceVectorType []string
 
+// MarshalXMLAttr writes the list as one attribute, with spaces between the strings.
+func (l *StringNoWhitespaceVectorType) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
+	if l == nil {
+		return xml.Attr{}, nil
+	}
+	return xml.Attr{Name: name, Value: strings.Join(*l, " ")}, nil
+}
+
+// UnmarshalXMLAttr reads the white-space-separated strings of one attribute.
+func (l *StringNoWhitespaceVectorType) UnmarshalXMLAttr(attr xml.Attr) error {
+	*l = strings.FieldsFunc(attr.Value, func(r rune) bool { return strings.ContainsRune(xmlSpace, r) })
+	return nil
+}
+
 // ContentSteeringType is Content Steering.
 type ContentSteeringType struct {
 	DefaultServiceLocation string `xml:"defaultServiceLocation,attr,omitempty"`
-- 
2.43.0


From c9eef347ae60d3f35928ddc3b6ba02431c5565c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:37 +0000
Subject: [PATCH 22/26] fix: do not repeat a namespace declaration in a start
 tag

---
 xml/marshal.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xml/marshal.go b/xml/marshal.go
index 957518d..b8705b3 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -12,6 +12,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"slices"
 	"strconv"
 	"strings"
 	"sync"
@@ -852,6 +853,8 @@ func (p *printer) writeStart(start *StartElement) error {
 	p.elements = append(p.elements, newElement(start.Name))
 	e := &p.elements[len(p.elements)-1]
 
+	var declared []Attr // namespaces that this tag declares
+
 	// Set the namespace prefix, if necessary
 	var spaceDefined bool
 	if e.xmlns != "" {
@@ -903,6 +906,7 @@ func (p *printer) writeStart(start *StartElement) error {
 		if prefixCreated {
 			p.WriteByte(' ')
 			p.writePrefixAttr(e.prefix, e.xmlns)
+			declared = append(declared, Attr{Name{Space: xmlnsURL, Local: e.prefix}, e.xmlns})
 		}
 	} else if e.xmlns != "" {
 		p.WriteString(e.name)
@@ -928,6 +932,12 @@ func (p *printer) writeStart(start *StartElement) error {
 				e.defaultNS = e.xmlns
 			}
 		}
+		if attr.Name.Space == xmlnsURL || attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix {
+			if slices.Contains(declared, attr) {
+				continue
+			}
+			declared = append(declared, attr)
+		}
 		prefix, local := splitPrefixed(attr.Name.Local)
 		p.WriteByte(' ')
 		if attr.Name.Space == xmlnsURL {
@@ -940,6 +950,7 @@ func (p *printer) writeStart(start *StartElement) error {
 			if prefixCreated {
 				p.writePrefixAttr(prefix, attr.Name.Space)
 				p.WriteByte(' ')
+				declared = append(declared, Attr{Name{Space: xmlnsURL, Local: prefix}, attr.Name.Space})
 			}
 			p.WriteString(prefix)
 			p.WriteByte(':')
-- 
2.43.0


From bb946fa43b5a7a4832cfcf418e6acd9f3431c97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:48 +0000
Subject: [PATCH 23/26] fix: convert date-times outside 1678 to 2262 to seconds
 without overflow

---
 mpd/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpd/io.go b/mpd/io.go
index 8295cd1..c99e587 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -145,5 +145,5 @@ func (dt DateTime) ConvertToSeconds() (float64, error) {
 	if err != nil {
 		return 0, err
 	}
-	return float64(t.UnixNano()) / 1_000_000_000, nil
+	return float64(t.Unix()) + float64(t.Nanosecond())/1_000_000_000, nil
 }
-- 
2.43.0


From 5bec613d519aee59abd836b73142adb4851c6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 24/26] fix: ignore white space around offsets that may be
 infinite, write minus infinity as -INF

---
 mpd/mpd.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpd/mpd.go b/mpd/mpd.go
index 39bc373..c14f660 100644
--- a/mpd/mpd.go
+++ b/mpd/mpd.go
@@ -1268,16 +1268,20 @@ func (f *FloatInf64) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
 	if fl == math.Inf(+1) {
 		return xml.Attr{Name: name, Value: "INF"}, nil
 	}
+	if fl == math.Inf(-1) {
+		return xml.Attr{Name: name, Value: "-INF"}, nil
+	}
 	val := strconv.FormatFloat(fl, 'f', -1, 64)
 	return xml.Attr{Name: name, Value: val}, nil
 }
 
 func (f *FloatInf64) UnmarshalXMLAttr(attr xml.Attr) error {
-	if attr.Value == "INF" {
+	value := strings.TrimSpace(attr.Value)
+	if value == "INF" {
 		*f = FloatInf64(math.Inf(+1))
 		return nil
 	}
-	fl, err := strconv.ParseFloat(attr.Value, 64)
+	fl, err := strconv.ParseFloat(value, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cc6c17badccad5c58aa76f56db818728a95d5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:21 +0000
Subject: [PATCH 25/26] fix: declare the prefix of an element that also has a
 default namespace declaration

---
 xml/marshal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml/marshal.go b/xml/marshal.go
index b8705b3..ab08caf 100644
--- a/xml/marshal.go
+++ b/xml/marshal.go
@@ -860,7 +860,7 @@ func (p *printer) writeStart(start *StartElement) error {
 	if e.xmlns != "" {
 		// Try to avoid needing a prefix first.
 		for _, attr := range start.Attr {
-			if attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
+			if e.prefix == "" && attr.Name.Space == "" && attr.Name.Local == xmlnsPrefix && attr.Value == e.xmlns {
 				spaceDefined = true
 				break
 			}
-- 
2.43.0


From f3993d507c6c2997176e4d484993efff3374c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:31 +0000
Subject: [PATCH 26/26] fix: keep the namespace of a document that binds it to
 a prefix

---
 mpd/io.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/mpd/io.go b/mpd/io.go
index c99e587..71325c4 100644
--- a/mpd/io.go
+++ b/mpd/io.go
@@ -27,13 +27,7 @@ func ReadFromFile(path string) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
-	mpd := MPD{}
-	err = xml.Unmarshal(data, &mpd)
-	if err != nil {
-		return nil, err
-	}
-	mpd.SetParents()
-	return &mpd, nil
+	return MPDFromBytes(data)
 }
 
 // ReadFromString reads and unmarshals an MPD from a string
@@ -48,6 +42,9 @@ func MPDFromBytes(data []byte) (*MPD, error) {
 	if err != nil {
 		return nil, err
 	}
+	if mpd.XMLNs == "" {
+		mpd.XMLNs = mpd.XMLName.Space // bound to a prefix in the document
+	}
 	mpd.SetParents()
 	return &mpd, nil
 }
-- 
2.43.0

