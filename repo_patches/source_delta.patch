From efd7d24c7f3881922c360aab976710a6ee96e7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:56 +0000
Subject: [PATCH 01/39] fix: unfold lines independently of read boundaries

The unfolder lost data, returned folds or never returned when a fold was
split over two reads, or when two folds were close together. It now
keeps its own buffer and never depends on how the input is delivered.
Read errors are kept. A fold may use a tab as well as a space.
---
 unfolder.go | 115 +++++++++++++++++++++++-----------------------------
 1 file changed, 51 insertions(+), 64 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index 70fa7b3..f07203f 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -6,78 +6,65 @@ import (
 )
 
 type unfolder struct {
-	r      io.Reader
-	bufLen int
-	buf    [2]byte
+	r          io.Reader
+	err        error
+	start, end int
+	buf        [4096]byte
 }
 
 func (u *unfolder) Read(p []byte) (int, error) {
-	var (
-		m, n int
-		err  error
-	)
-	q := p
-	if u.bufLen > 0 {
-		n = copy(p, u.buf[:u.bufLen])
-		if n > 0 {
-			u.buf[0] = u.buf[1]
-			u.bufLen -= n
-			p = p[n:]
-			m += n
-		}
+	if len(p) == 0 {
+		return 0, nil
 	}
-	for len(p) > 0 && err == nil {
-		n, err = u.r.Read(p)
-		m += n
-		p = p[:n]
-		var toRead int
-		for {
-			pos := bytes.Index(p, eol[:])
-			if pos == -1 {
-				break
-			}
-			copy(p[pos:], p[pos+3:])
-			p = p[pos:]
-			toRead += 3
+
+	for {
+		if n := u.unfold(p); n > 0 {
+			return n, nil
+		} else if u.err != nil {
+			return 0, u.err
+		}
+
+		// at most the beginning of a possible fold remains in the buffer
+		u.end = copy(u.buf[:], u.buf[u.start:u.end])
+		u.start = 0
+
+		n, err := u.r.Read(u.buf[u.end:])
+		u.end += n
+		u.err = err
+
+		if n == 0 && err == nil {
+			return 0, nil
 		}
-		p = p[len(p)-toRead:]
-		m -= toRead
 	}
-	q = q[:m]
-	for err == nil {
-		if lq := len(q); lq > 0 && q[lq-1] == '\r' {
-			u.bufLen, err = u.r.Read(u.buf[:])
-			if u.bufLen < 2 {
-				break
-			}
-			if u.buf[0] == '\n' && u.buf[1] == ' ' {
-				m--
-				if err == nil {
-					n, err = u.r.Read(q[lq-1:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
-				break
-			}
-		} else if lq > 1 && q[lq-2] == '\r' && q[lq-1] == '\n' {
-			u.bufLen, err = u.r.Read(u.buf[:1])
-			if u.bufLen < 1 {
-				break
-			}
-			if u.buf[0] == ' ' {
-				m -= 2
-				if err == nil {
-					n, err = u.Read(q[lq-2:])
-					m += n
-					u.bufLen = 0
-				}
-			} else {
+}
+
+// unfold moves data from the buffer to p, leaving out folds. It stops before
+// anything that may turn out to be a fold once more data has been read.
+func (u *unfolder) unfold(p []byte) int {
+	n := 0
+
+	for n < len(p) && u.start < u.end {
+		b := u.buf[u.start:u.end]
+		l := bytes.IndexByte(b, '\r')
+
+		if l == 0 {
+			if len(b) > 2 && b[1] == '\n' && (b[2] == ' ' || b[2] == '\t') {
+				u.start += 3
+
+				continue
+			} else if u.err == nil && (len(b) == 1 || len(b) == 2 && b[1] == '\n') {
 				break
 			}
-		} else {
-			break
+
+			l = 1
+		} else if l == -1 {
+			l = len(b)
 		}
+
+		m := copy(p[n:], b[:l])
+		n += m
+		u.start += m
 	}
-	return m, err
+
+	return n
 }
-- 
2.43.0


From b2d6b05e6d43aed09f599bbc13504dbe9e85ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:54 +0000
Subject: [PATCH 02/39] fix: report errors of the reader from Decode

A failing reader looked like the end of the stream, so Decode reported
a syntax error or an unexpected EOF. Decode now returns the reader's error.
---
 decoder.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4152d50..20374f3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -4,6 +4,8 @@ package ics // import "vimagination.zapto.org/ics"
 import (
 	"io"
 	"strings"
+
+	"vimagination.zapto.org/parser"
 )
 
 type section interface {
@@ -14,8 +16,21 @@ type section interface {
 
 // Decode decodes an iCalendar object from the given reader.
 func Decode(r io.Reader) (*Calendar, error) {
-	t := newTokeniser(&unfolder{r: r})
+	u := &unfolder{r: r}
+
+	cal, err := decode(newTokeniser(u))
+	if err != nil {
+		if u.err != nil && u.err != io.EOF {
+			err = u.err
+		}
+
+		return nil, err
+	}
+
+	return cal, nil
+}
 
+func decode(t *parser.Parser) (*Calendar, error) {
 	if p, err := t.GetPhrase(); err != nil {
 		return nil, err
 	} else if p.Type != phraseContentLine {
-- 
2.43.0


From 9706b0079c3ae9184a44b90378bdb1afa4da17cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:56 +0000
Subject: [PATCH 03/39] fix: do not panic when the stream ends inside an alarm

---
 sections_alarm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sections_alarm.go b/sections_alarm.go
index 4944994..ec8cd84 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -43,6 +43,8 @@ Loop:
 		ph, err := t.GetPhrase()
 		if err != nil {
 			return err
+		} else if ph.Type == parser.PhraseDone {
+			return io.ErrUnexpectedEOF
 		}
 
 		pt = append(pt, ph)
-- 
2.43.0


From 1b3eebb7562ad27e54b30a45afd0d5f9af57bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:48 +0000
Subject: [PATCH 04/39] fix: consume special characters of parameter values

Encode never returned for a parameter value with a quote, a caret or a
line break, because the escaped character was not skipped. Decode kept
the escape sequence in addition to the character it stands for.
---
 genParams.sh | 5 ++++-
 params.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 5c0ab1f..2ac02e7 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -343,7 +343,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -358,6 +358,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -380,6 +381,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
diff --git a/params.go b/params.go
index f5d83ba..5cb997f 100644
--- a/params.go
+++ b/params.go
@@ -1194,7 +1194,7 @@ Loop:
 			break Loop
 		case '^':
 			t.Accept("^")
-			switch t.Next() {
+			switch c := t.Next(); c {
 			case -1:
 				d = append(d, '^')
 				break Loop
@@ -1209,6 +1209,7 @@ Loop:
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
+			t.Get()
 		}
 	}
 	return string(d)
@@ -1231,6 +1232,8 @@ Loop:
 		case '"':
 			d = append(d, '^', '\'')
 		}
+		t.Next()
+		t.Get()
 	}
 	return d
 }
-- 
2.43.0


From 32717efda305e0fba51431ff49eca9937837ba2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:02 +0000
Subject: [PATCH 05/39] fix: quote URI and calendar address parameters

ALTREP, URI, DELEGATED-TO and DELEGATED-FROM have to be quoted and
Decode insists on it, but Encode wrote them without quotes. A value that
contains a quote cannot be written and is now refused.
---
 genParams.sh | 16 ++++++++++++++--
 params.go    | 16 ++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 2ac02e7..0c39087 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -232,7 +232,13 @@ source "comments.sh";
 			if [ ! -z "$vType" ]; then
 				echo "$indent	q := $vType($vName)";
 				echo;
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+				fi;
 				echo "$indent	q.encode(w)";
+				if $doubleQuote; then
+					echo "$indent	w.WriteString(\"\\\"\")";
+				fi;
 			elif [ ${#choices[@]} -eq 1 ]; then
 				echo "$indent	w.WriteString(\"${choices[0]}\")";
 				freeChoice=true;
@@ -280,13 +286,19 @@ source "comments.sh";
 					if $multiple; then
 						echo "		if err := v.valid(); err != nil {";
 						echo "			return fmt.Errorf(errValidatingType, c$type, err)";
-						echo "		}";
 					else
+						vName="q";
 						echo "	q := $vType(t)";
 						echo;
 						echo "	if err := q.valid(); err != nil {";
 						echo "		return fmt.Errorf(errValidatingType, c$type, err)";
-						echo "	}";
+					fi;
+					if $doubleQuote; then
+						echo "$indent	} else if strings.ContainsAny(${vName}.String(), nonsafeChars[:33]) {";
+						echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
+					fi;
+					echo "$indent	}";
+					if ! $multiple; then
 						echo;
 						echo "	return nil";
 					fi;
diff --git a/params.go b/params.go
index 5cb997f..6a0fc77 100644
--- a/params.go
+++ b/params.go
@@ -44,7 +44,9 @@ func (t ParamAlternativeRepresentation) encode(w writer) {
 
 	q := URI(t)
 
+	w.WriteString("\"")
 	q.encode(w)
+	w.WriteString("\"")
 }
 
 func (t ParamAlternativeRepresentation) valid() error {
@@ -52,6 +54,8 @@ func (t ParamAlternativeRepresentation) valid() error {
 
 	if err := q.valid(); err != nil {
 		return fmt.Errorf(errValidatingType, cAlternativeRepresentation, err)
+	} else if strings.ContainsAny(q.String(), nonsafeChars[:33]) {
+		return fmt.Errorf(errValidatingType, cAlternativeRepresentation, ErrInvalidValue)
 	}
 
 	return nil
@@ -194,7 +198,9 @@ func (t ParamDelegator) encode(w writer) {
 
 		q := CalendarAddress(v)
 
+		w.WriteString("\"")
 		q.encode(w)
+		w.WriteString("\"")
 	}
 }
 
@@ -202,6 +208,8 @@ func (t ParamDelegator) valid() error {
 	for _, v := range t {
 		if err := v.valid(); err != nil {
 			return fmt.Errorf(errValidatingType, cDelegator, err)
+		} else if strings.ContainsAny(v.String(), nonsafeChars[:33]) {
+			return fmt.Errorf(errValidatingType, cDelegator, ErrInvalidValue)
 		}
 	}
 
@@ -243,7 +251,9 @@ func (t ParamDelagatee) encode(w writer) {
 
 		q := CalendarAddress(v)
 
+		w.WriteString("\"")
 		q.encode(w)
+		w.WriteString("\"")
 	}
 }
 
@@ -251,6 +261,8 @@ func (t ParamDelagatee) valid() error {
 	for _, v := range t {
 		if err := v.valid(); err != nil {
 			return fmt.Errorf(errValidatingType, cDelagatee, err)
+		} else if strings.ContainsAny(v.String(), nonsafeChars[:33]) {
+			return fmt.Errorf(errValidatingType, cDelagatee, ErrInvalidValue)
 		}
 	}
 
@@ -1084,7 +1096,9 @@ func (t ParamURI) encode(w writer) {
 
 	q := URI(t)
 
+	w.WriteString("\"")
 	q.encode(w)
+	w.WriteString("\"")
 }
 
 func (t ParamURI) valid() error {
@@ -1092,6 +1106,8 @@ func (t ParamURI) valid() error {
 
 	if err := q.valid(); err != nil {
 		return fmt.Errorf(errValidatingType, cURI, err)
+	} else if strings.ContainsAny(q.String(), nonsafeChars[:33]) {
+		return fmt.Errorf(errValidatingType, cURI, ErrInvalidValue)
 	}
 
 	return nil
-- 
2.43.0


From 0321b6ef5025a1dbacf3c5b6ff565f867757d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:04 +0000
Subject: [PATCH 06/39] fix: accept finite numbers instead of NaN and infinity
 when validating

The check was inverted, so no calendar with a position could be encoded.
---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index da1d385..c25cc50 100644
--- a/types.go
+++ b/types.go
@@ -421,7 +421,7 @@ func (f Float) encode(w writer) {
 func (f Float) valid() error {
 	d := float64(f)
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
@@ -463,13 +463,13 @@ func (t TFloat) encode(w writer) {
 func (t TFloat) valid() error {
 	d := float64(t[0])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
 	d = float64(t[1])
 
-	if !math.IsNaN(d) && !math.IsInf(d, 0) {
+	if math.IsNaN(d) || math.IsInf(d, 0) {
 		return ErrInvalidFloat
 	}
 
-- 
2.43.0


From 46493ac16d4afe2d5ae6701798c4cbbb2d4277b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:20 +0000
Subject: [PATCH 07/39] fix: read the LAST-MODIFIED property

Components looked for LAST-MOD, which is not a property, so the
modification time written by Encode was dropped by Decode.
---
 sections.gen | 8 ++++----
 sections.go  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sections.gen b/sections.gen
index dba53b9..06d4903 100644
--- a/sections.gen
+++ b/sections.gen
@@ -14,7 +14,7 @@ VEVENT
 	CREATED
 	DESCRIPTION
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PRIORITY
@@ -48,7 +48,7 @@ VTODO
 	DESCRIPTION
 	DTSTART
 	GEO
-	LAST-MOD
+	LAST-MODIFIED
 	LOCATION
 	ORGANIZER
 	PERCENT-COMPLETE
@@ -79,7 +79,7 @@ VJOURNAL
 	CLASS
 	CREATED
 	DTSTART
-	LAST-MOD
+	LAST-MODIFIED
 	ORGANIZER
 	RECURRENCE-ID
 	SEQUENCE
@@ -112,7 +112,7 @@ VFREEBUSY
 	*REQUEST-STATUS
 VTIMEZONE
 	!TZID
-	LAST-MOD
+	LAST-MODIFIED
 	TZURL
 	*BEGIN:STANDARD
 	*BEGIN:DAYLIGHT
diff --git a/sections.go b/sections.go
index 741a87a..deddf38 100644
--- a/sections.go
+++ b/sections.go
@@ -327,7 +327,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cEvent, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cEvent, cLastModified)
 			}
@@ -1013,7 +1013,7 @@ Loop:
 			if err := s.Geo.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTodo, cGeo, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTodo, cLastModified)
 			}
@@ -1648,7 +1648,7 @@ Loop:
 			if err := s.DateTimeStart.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cJournal, cDateTimeStart, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cJournal, cLastModified)
 			}
@@ -2398,7 +2398,7 @@ Loop:
 			if err := s.TimezoneID.decode(params, value); err != nil {
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneID, err)
 			}
-		case "LAST-MOD":
+		case "LAST-MODIFIED":
 			if s.LastModified != nil {
 				return fmt.Errorf(errMultiple, cTimezone, cLastModified)
 			}
-- 
2.43.0


From bf102863608ffd9761147faaa5a9d60975dabd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:25 +0000
Subject: [PATCH 08/39] fix: require DURATION and REPEAT together instead of
 alone

The check of email and URI alarms was inverted. It refused alarms with
both properties or with neither, and accepted those with one.
---
 genSections.sh | 2 +-
 sections.go    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 1ef7da9..0b6e3ef 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -244,7 +244,7 @@ function printSection() {
 					echo -n " &&";
 				fi;
 				if $first; then
-					echo -n " t == (s.$(getName "$r") == nil)";
+					echo -n " t != (s.$(getName "$r") == nil)";
 					second=true;
 				else
 					echo -n " t := s.$(getName "$r") == nil;";
diff --git a/sections.go b/sections.go
index deddf38..5119466 100644
--- a/sections.go
+++ b/sections.go
@@ -3681,7 +3681,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -4001,7 +4001,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-	if t := s.Duration == nil; t == (s.Repeat == nil) {
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
-- 
2.43.0


From 2e23f9c3217f08d62deee5f66de941621c78ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:46 +0000
Subject: [PATCH 09/39] fix: do not panic on a BYDAY value that is only a sign
 and a digit

---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index c25cc50..0137dc8 100644
--- a/types.go
+++ b/types.go
@@ -788,10 +788,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 					neg = true
 					numCheck = false
 					day = day[1:]
+				}
 
-					if len(day) < 2 {
-						return ErrInvalidRecur
-					}
+				if len(day) < 2 {
+					return ErrInvalidRecur
 				}
 
 				var num int8
-- 
2.43.0


From 04b121b3e327b78aec391c1e08585a60d5923ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:48 +0000
Subject: [PATCH 10/39] fix: compare the zones of a period by name

Decode loads the zone of each end separately, so the location pointers
of a decoded period differ and Encode refused it.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 0137dc8..754a36a 100644
--- a/types.go
+++ b/types.go
@@ -554,7 +554,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location() != p.End.Location() {
+	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From ffc2a9dabdff3948bc49270a18334e40a73058f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:54 +0000
Subject: [PATCH 11/39] fix: skip nested unknown components without recursion

Each nesting level used stack, so a long run of BEGIN lines could exhaust it.
The names of nested components are also compared without regard to case now.
---
 genSections.sh | 16 +++++++++-------
 sections.go    | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 0b6e3ef..e18c6cc 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -434,7 +434,9 @@ OFS="$IFS";
 	cat <<HEREDOC
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -444,17 +446,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
diff --git a/sections.go b/sections.go
index 5119466..e521806 100644
--- a/sections.go
+++ b/sections.go
@@ -4174,7 +4174,9 @@ func (s *AlarmNone) valid() error {
 
 // decodeDummy reads unknown sections, discarding the data.
 func decodeDummy(t tokeniser, n string) error {
-	for {
+	open := []string{n}
+
+	for len(open) > 0 {
 		p, err := t.GetPhrase()
 		if err != nil {
 			return err
@@ -4184,17 +4186,17 @@ func decodeDummy(t tokeniser, n string) error {
 
 		switch strings.ToUpper(p.Data[0].Data) {
 		case "BEGIN":
-			if err := decodeDummy(t, p.Data[len(p.Data)-1].Data); err != nil {
-				return err
-			}
+			open = append(open, strings.ToUpper(p.Data[len(p.Data)-1].Data))
 		case "END":
-			if strings.ToUpper(p.Data[len(p.Data)-1].Data) == n {
-				return nil
+			if strings.ToUpper(p.Data[len(p.Data)-1].Data) != open[len(open)-1] {
+				return ErrInvalidEnd
 			}
 
-			return ErrInvalidEnd
+			open = open[:len(open)-1]
 		}
 	}
+
+	return nil
 }
 
 // Errors.
-- 
2.43.0


From f818f0337dd42c654b73e430398518da970e43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:12 +0000
Subject: [PATCH 12/39] fix: return an error when the writer accepts less than
 it was given

A write that was cut short without an error went unnoticed, and Encode
reported success for an incomplete stream.
---
 folder.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/folder.go b/folder.go
index 9dfe563..651443a 100644
--- a/folder.go
+++ b/folder.go
@@ -34,7 +34,7 @@ func (f *folder) Write(q []byte) (int, error) {
 		} else if r == '\r' {
 		} else if f.line > maxLineLength {
 			if pos > 0 {
-				m, f.err = f.w.Write(q[:pos])
+				m = f.write(q[:pos])
 				n += m
 
 				if f.err != nil {
@@ -44,7 +44,7 @@ func (f *folder) Write(q []byte) (int, error) {
 				q = q[pos:]
 			}
 
-			if _, f.err = f.w.Write(eol[:]); f.err != nil {
+			if f.write(eol[:]); f.err != nil {
 				return n, f.err
 			}
 
@@ -54,13 +54,25 @@ func (f *folder) Write(q []byte) (int, error) {
 	}
 
 	if len(q) > 0 {
-		m, f.err = f.w.Write(q)
+		m = f.write(q)
 		n += m
 	}
 
 	return n, f.err
 }
 
+func (f *folder) write(p []byte) int {
+	n, err := f.w.Write(p)
+
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+
+	f.err = err
+
+	return n
+}
+
 func (f *folder) WriteString(q string) (int, error) {
 	return f.Write([]byte(q))
 }
-- 
2.43.0


From a313ee984f774cb019a05c4956d1595ca48b9c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:17 +0000
Subject: [PATCH 13/39] fix: ignore the case of END lines and of alarm lines

Decode accepted a component name in any case after BEGIN, but only in
upper case after END. Inside an alarm, BEGIN, END and ACTION lines were
overlooked unless they were in upper case.
---
 genSections.sh    |  4 ++--
 sections.go       | 26 +++++++++++++-------------
 sections_alarm.go |  5 +++--
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index e18c6cc..78cc094 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -190,9 +190,9 @@ function printSection() {
 	done;
 	echo "		case \"END\":";
 	if [ "${sectionName:0:6}" = "VALARM" ]; then
-		echo "			if value != \"VALARM\" {";
+		echo "			if strings.ToUpper(value) != \"VALARM\" {";
 	else
-		echo "			if value != \"$sectionName\" {";
+		echo "			if strings.ToUpper(value) != \"$sectionName\" {";
 	fi;
 	echo "				return fmt.Errorf(errDecodingType, c$sName, ErrInvalidEnd)";
 	echo "			}";
diff --git a/sections.go b/sections.go
index e521806..b869e84 100644
--- a/sections.go
+++ b/sections.go
@@ -106,7 +106,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cCalendar, cProductID, err)
 			}
 		case "END":
-			if value != "VCALENDAR" {
+			if strings.ToUpper(value) != "VCALENDAR" {
 				return fmt.Errorf(errDecodingType, cCalendar, ErrInvalidEnd)
 			}
 
@@ -538,7 +538,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VEVENT" {
+			if strings.ToUpper(value) != "VEVENT" {
 				return fmt.Errorf(errDecodingType, cEvent, ErrInvalidEnd)
 			}
 
@@ -1214,7 +1214,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VTODO" {
+			if strings.ToUpper(value) != "VTODO" {
 				return fmt.Errorf(errDecodingType, cTodo, ErrInvalidEnd)
 			}
 
@@ -1817,7 +1817,7 @@ Loop:
 
 			s.RecurrenceDateTimes = append(s.RecurrenceDateTimes, e)
 		case "END":
-			if value != "VJOURNAL" {
+			if strings.ToUpper(value) != "VJOURNAL" {
 				return fmt.Errorf(errDecodingType, cJournal, ErrInvalidEnd)
 			}
 
@@ -2215,7 +2215,7 @@ Loop:
 
 			s.RequestStatus = append(s.RequestStatus, e)
 		case "END":
-			if value != "VFREEBUSY" {
+			if strings.ToUpper(value) != "VFREEBUSY" {
 				return fmt.Errorf(errDecodingType, cFreeBusy, ErrInvalidEnd)
 			}
 
@@ -2419,7 +2419,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cTimezone, cTimezoneURL, err)
 			}
 		case "END":
-			if value != "VTIMEZONE" {
+			if strings.ToUpper(value) != "VTIMEZONE" {
 				return fmt.Errorf(errDecodingType, cTimezone, ErrInvalidEnd)
 			}
 
@@ -2592,7 +2592,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "STANDARD" {
+			if strings.ToUpper(value) != "STANDARD" {
 				return fmt.Errorf(errDecodingType, cStandard, ErrInvalidEnd)
 			}
 
@@ -2771,7 +2771,7 @@ Loop:
 
 			s.TimezoneName = append(s.TimezoneName, e)
 		case "END":
-			if value != "DAYLIGHT" {
+			if strings.ToUpper(value) != "DAYLIGHT" {
 				return fmt.Errorf(errDecodingType, cDaylight, ErrInvalidEnd)
 			}
 
@@ -3014,7 +3014,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmAudio, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmAudio, ErrInvalidEnd)
 			}
 
@@ -3331,7 +3331,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmDisplay, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrInvalidEnd)
 			}
 
@@ -3665,7 +3665,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmEmail, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmEmail, ErrInvalidEnd)
 			}
 
@@ -3985,7 +3985,7 @@ Loop:
 				return fmt.Errorf(errDecodingProp, cAlarmURI, cDefaultAlarm, err)
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmURI, ErrInvalidEnd)
 			}
 
@@ -4155,7 +4155,7 @@ Loop:
 				}
 			}
 		case "END":
-			if value != "VALARM" {
+			if strings.ToUpper(value) != "VALARM" {
 				return fmt.Errorf(errDecodingType, cAlarmNone, ErrInvalidEnd)
 			}
 
diff --git a/sections_alarm.go b/sections_alarm.go
index ec8cd84..97f4f02 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -3,6 +3,7 @@ package ics
 import (
 	"errors"
 	"io"
+	"strings"
 
 	"vimagination.zapto.org/parser"
 )
@@ -49,7 +50,7 @@ Loop:
 
 		pt = append(pt, ph)
 
-		switch ph.Data[0].Data {
+		switch strings.ToUpper(ph.Data[0].Data) {
 		case "BEGIN":
 			return ErrInvalidStructure
 		case "ACTION":
@@ -57,7 +58,7 @@ Loop:
 				return ErrInvalidStructure
 			}
 
-			switch ph.Data[len(ph.Data)-1].Data {
+			switch strings.ToUpper(ph.Data[len(ph.Data)-1].Data) {
 			case "AUDIO":
 				a.AlarmType = new(AlarmAudio)
 			case "DISPLAY":
-- 
2.43.0


From 5d100aabae6b1ed5d07b3aff23acb081c89f6754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:43 +0000
Subject: [PATCH 14/39] fix: refuse an alarm that holds a nil pointer instead
 of panicking

---
 sections_alarm.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sections_alarm.go b/sections_alarm.go
index 97f4f02..578e5e5 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -103,9 +103,27 @@ func (a *Alarm) encode(w writer) {
 }
 
 func (a *Alarm) valid() error {
-	switch a.AlarmType.(type) {
-	case *AlarmAudio, *AlarmDisplay, *AlarmEmail, *AlarmURI, *AlarmNone:
-		return a.AlarmType.valid()
+	switch t := a.AlarmType.(type) {
+	case *AlarmAudio:
+		if t != nil {
+			return t.valid()
+		}
+	case *AlarmDisplay:
+		if t != nil {
+			return t.valid()
+		}
+	case *AlarmEmail:
+		if t != nil {
+			return t.valid()
+		}
+	case *AlarmURI:
+		if t != nil {
+			return t.valid()
+		}
+	case *AlarmNone:
+		if t != nil {
+			return t.valid()
+		}
 	}
 
 	return ErrInvalidAlarm
-- 
2.43.0


From b15340f8890e63c63d8c371369392f2637577a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:12 +0000
Subject: [PATCH 15/39] fix: refuse components whose properties exclude or
 require each other

Decode already refuses them, so Encode wrote calendars that could not be
read back.
---
 genSections.sh | 133 ++++++++++++++++++++++++++++---------------------
 sections.go    |  50 +++++++++++++++++--
 2 files changed, 121 insertions(+), 62 deletions(-)

diff --git a/genSections.sh b/genSections.sh
index 78cc094..d058f41 100755
--- a/genSections.sh
+++ b/genSections.sh
@@ -17,6 +17,80 @@ function addToSection() {
 	fi;
 }
 
+# isSet prints a comparison that is true when the field is (!=) or is not (==)
+# set. An empty list does not count as set.
+function isSet() {
+	for tline in "${currSection[@]}"; do
+		aline=( $tline );
+		if [ "${aline[0]}" = "$1" ] && ${aline[3]}; then
+			echo -n "len(s.$1) $2 0";
+
+			return;
+		fi;
+	done;
+	echo -n "s.$1 $2 nil";
+}
+
+function printRequirements() {
+	for req in "${requirements[@]}"; do
+		first=false;
+		declare second=false;
+		echo -n "	if";
+		reqs=( $req );
+		typ=${reqs[0]};
+		reqs[0]="";
+		reqs=( ${reqs[@]} );
+		if [ "$typ" = "AND" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " &&";
+				fi;
+				if $first; then
+					echo -n " t != ($(isSet "$(getName "$r")" "=="))";
+					second=true;
+				else
+					echo -n " t := $(isSet "$(getName "$r")" "==");";
+					first=true;
+				fi;
+			done;
+		elif [ "$typ" = "OR" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isSet "$(getName "$r")" "==")";
+			done;
+		elif [ "$typ" = "ONE" ]; then
+			for r in ${reqs[@]}; do
+				if $first; then
+					echo -n " &&";
+				fi;
+				first=true;
+				echo -n " $(isSet "$(getName "$r")" "!=")";
+			done;
+		elif [ "$typ" = "ERGO" ]; then
+			for r in ${reqs[@]}; do
+				if $second; then
+					echo -n " || ";
+				fi;
+				if $first; then
+					echo -n "$(isSet "$(getName "$r")" "==")";
+					second=true;
+				else
+					echo -n " $(isSet "$(getName "$r")" "!=") && (";
+					first=true;
+				fi;
+			done;
+			echo -n ")";
+		fi;
+		echo " {";
+		echo "		return fmt.Errorf($1, c$sName, ErrRequirementNotMet)";
+		echo "	}";
+		echo;
+	done;
+}
+
 function printSection() {
 	declare sName="$(getName $sectionName)";
 
@@ -230,63 +304,7 @@ function printSection() {
 	fi;
 
 	# check other requirements
-	for req in "${requirements[@]}"; do
-		first=false;
-		declare second=false;
-		echo -n "	if";
-		reqs=( $req );
-		typ=${reqs[0]};
-		reqs[0]="";
-		reqs=( ${reqs[@]} );
-		if [ "$typ" = "AND" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " &&";
-				fi;
-				if $first; then
-					echo -n " t != (s.$(getName "$r") == nil)";
-					second=true;
-				else
-					echo -n " t := s.$(getName "$r") == nil;";
-					first=true;
-				fi;
-			done;
-		elif [ "$typ" = "OR" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") == nil";
-			done;
-		elif [ "$typ" = "ONE" ]; then
-			for r in ${reqs[@]}; do
-				if $first; then
-					echo -n " &&";
-				fi;
-				first=true;
-				echo -n " s.$(getName "$r") != nil";
-			done;
-		elif [ "$typ" = "ERGO" ]; then
-			for r in ${reqs[@]}; do
-				if $second; then
-					echo -n " || ";
-				fi;
-				if $first; then
-					echo -n "s.$(getName "$r") == nil";
-					second=true;
-				else
-					echo -n " s.$(getName "$r") != nil && (";
-					first=true;
-				fi;
-			done;
-			echo -n ")";
-		fi;
-		echo " {";
-		echo "		return fmt.Errorf(errDecodingType, c$sName, ErrRequirementNotMet)";
-		echo "	}";
-		echo;
-	done;
+	printRequirements errDecodingType;
 
 	# end of decoder
 	echo "	return nil";
@@ -358,6 +376,7 @@ function printSection() {
 		fi;
 		echo;
 	done;
+	printRequirements errValidatingType;
 	echo "	return nil";
 	echo "}";
 	echo;
diff --git a/sections.go b/sections.go
index b869e84..85af7e9 100644
--- a/sections.go
+++ b/sections.go
@@ -864,6 +864,10 @@ func (s *Event) valid() error {
 		}
 	}
 
+	if s.DateTimeEnd != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cEvent, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -1544,6 +1548,14 @@ func (s *Todo) valid() error {
 		}
 	}
 
+	if s.Duration != nil && (s.DateTimeStart == nil) {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
+	if s.Due != nil && s.Duration != nil {
+		return fmt.Errorf(errValidatingType, cTodo, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -2431,7 +2443,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cTimezone, ErrMissingRequired)
 	}
 
-	if s.Standard == nil && s.Daylight == nil {
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
 		return fmt.Errorf(errDecodingType, cTimezone, ErrRequirementNotMet)
 	}
 
@@ -2490,6 +2502,10 @@ func (s *Timezone) valid() error {
 		}
 	}
 
+	if len(s.Standard) == 0 && len(s.Daylight) == 0 {
+		return fmt.Errorf(errValidatingType, cTimezone, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3026,7 +3042,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
@@ -3163,6 +3179,10 @@ func (s *AlarmAudio) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3343,7 +3363,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
@@ -3475,6 +3495,10 @@ func (s *AlarmDisplay) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3677,7 +3701,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmEmail, ErrRequirementNotMet)
 	}
 
@@ -3828,6 +3852,14 @@ func (s *AlarmEmail) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmEmail, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3997,7 +4029,7 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrMissingRequired)
 	}
 
-	if s.GeoLocation != nil && (s.Proximity == nil) {
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
 		return fmt.Errorf(errDecodingType, cAlarmURI, ErrRequirementNotMet)
 	}
 
@@ -4128,6 +4160,14 @@ func (s *AlarmURI) valid() error {
 		}
 	}
 
+	if len(s.GeoLocation) != 0 && (s.Proximity == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmURI, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 8b29dcd3fa1cf0c47fbebba794de3058e0896e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:30 +0000
Subject: [PATCH 16/39] fix: refuse text that is not valid UTF-8

Encode replaced the invalid bytes in text and copied them in parameters.
Format types are checked like other parameters.
---
 genParams.sh |  4 ++--
 params.go    | 18 +++++++++---------
 types.go     |  7 ++++++-
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 0c39087..05510ea 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -318,11 +318,11 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				elif [ ! -z "$regex" ]; then
-					echo "$indent	if !regex${type}.Match([]byte($vName)) {";
+					echo "$indent	if !regex${type}.MatchString(string($vName)) || !validText(string($vName)) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidValue)";
 					echo "$indent	}";
 				else
-					echo "$indent	if strings.ContainsAny(string($vName), nonsafeChars[:31]) {";
+					echo "$indent	if !validText(string($vName)) {";
 					echo "$indent		return fmt.Errorf(errValidatingType, c$type, ErrInvalidText)";
 					echo "$indent	}";
 				fi;
diff --git a/params.go b/params.go
index 6a0fc77..4bda52e 100644
--- a/params.go
+++ b/params.go
@@ -96,7 +96,7 @@ func (t ParamCommonName) encode(w writer) {
 }
 
 func (t ParamCommonName) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cCommonName, ErrInvalidText)
 	}
 
@@ -304,7 +304,7 @@ func (t ParamDirectoryEntry) encode(w writer) {
 }
 
 func (t ParamDirectoryEntry) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cDirectoryEntry, ErrInvalidText)
 	}
 
@@ -405,7 +405,7 @@ func (t ParamFormatType) encode(w writer) {
 }
 
 func (t ParamFormatType) valid() error {
-	if !regexFormatType.Match([]byte(t)) {
+	if !regexFormatType.MatchString(string(t)) || !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cFormatType, ErrInvalidValue)
 	}
 
@@ -507,7 +507,7 @@ func (t ParamLanguage) encode(w writer) {
 }
 
 func (t ParamLanguage) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cLanguage, ErrInvalidText)
 	}
 
@@ -554,7 +554,7 @@ func (t ParamMember) encode(w writer) {
 
 func (t ParamMember) valid() error {
 	for _, v := range t {
-		if strings.ContainsAny(string(v), nonsafeChars[:31]) {
+		if !validText(string(v)) {
 			return fmt.Errorf(errValidatingType, cMember, ErrInvalidText)
 		}
 	}
@@ -905,7 +905,7 @@ func (t ParamSentBy) encode(w writer) {
 }
 
 func (t ParamSentBy) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cSentBy, ErrInvalidText)
 	}
 
@@ -947,7 +947,7 @@ func (t ParamTimezoneID) encode(w writer) {
 }
 
 func (t ParamTimezoneID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cTimezoneID, ErrInvalidText)
 	}
 
@@ -1148,7 +1148,7 @@ func (t ParamID) encode(w writer) {
 }
 
 func (t ParamID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cID, ErrInvalidText)
 	}
 
@@ -1190,7 +1190,7 @@ func (t ParamAgentID) encode(w writer) {
 }
 
 func (t ParamAgentID) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return fmt.Errorf(errValidatingType, cAgentID, ErrInvalidText)
 	}
 
diff --git a/types.go b/types.go
index 754a36a..93c701b 100644
--- a/types.go
+++ b/types.go
@@ -1315,13 +1315,18 @@ func (t Text) encode(w writer) {
 }
 
 func (t Text) valid() error {
-	if strings.ContainsAny(string(t), nonsafeChars[:31]) {
+	if !validText(string(t)) {
 		return ErrInvalidText
 	}
 
 	return nil
 }
 
+// validText reports whether s is valid UTF-8 without control characters.
+func validText(s string) bool {
+	return utf8.ValidString(s) && !strings.ContainsAny(s, nonsafeChars[:31])
+}
+
 // MText contains multiple text values.
 type MText []Text
 
-- 
2.43.0


From f38f2fd3f27f056f5dfda563e465c1d13a722771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:36 +0000
Subject: [PATCH 17/39] fix: decode the escapes of the FMTTYPE parameter

---
 genParams.sh | 2 +-
 params.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/genParams.sh b/genParams.sh
index 05510ea..e2362dc 100755
--- a/genParams.sh
+++ b/genParams.sh
@@ -189,7 +189,7 @@ source "comments.sh";
 					echo "$indent		return fmt.Errorf(errDecodingType, c$type, ErrInvalidParam)";
 					echo "$indent	}";
 					echo;
-					echo "$indent	*t = Param$type(${vName}.Data)";
+					echo "$indent	*t = Param$type(decode6868(${vName}.Data))";
 				fi;
 			fi;
 			if $multiple; then
diff --git a/params.go b/params.go
index 4bda52e..5c48155 100644
--- a/params.go
+++ b/params.go
@@ -383,7 +383,7 @@ func (t *ParamFormatType) decode(vs []parser.Token) error {
 		return fmt.Errorf(errDecodingType, cFormatType, ErrInvalidParam)
 	}
 
-	*t = ParamFormatType(vs[0].Data)
+	*t = ParamFormatType(decode6868(vs[0].Data))
 
 	return nil
 }
-- 
2.43.0


From a53b6dce87c030baa00607a12aeca86f2e098775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:38 +0000
Subject: [PATCH 18/39] fix: check the range of the occurrence of BYDAY

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index 93c701b..bd8092b 100644
--- a/types.go
+++ b/types.go
@@ -1191,6 +1191,10 @@ func (r *Recur) valid() error {
 		default:
 			return ErrInvalidRecurByDay
 		}
+
+		if day.Occurrence > 53 || day.Occurrence < -53 {
+			return ErrInvalidRecurByDay
+		}
 	}
 
 	for _, monthDay := range r.ByMonthDay {
-- 
2.43.0


From 2d0002e4d785d410116cf2ce4fb736647d44e73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:41 +0000
Subject: [PATCH 19/39] fix: refuse UTC offsets of 100 hours and more

Their hours do not fit the two digits of the format.
---
 types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index bd8092b..9296b94 100644
--- a/types.go
+++ b/types.go
@@ -1570,7 +1570,11 @@ func (u UTCOffset) encode(w writer) {
 	w.Write(b)
 }
 
-func (UTCOffset) valid() error {
+func (u UTCOffset) valid() error {
+	if u <= -100*3600 || u >= 100*3600 {
+		return ErrInvalidOffset
+	}
+
 	return nil
 }
 
-- 
2.43.0


From cc3fa97c29e06277a4d430e5f833baf1b4b05aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:06 +0000
Subject: [PATCH 20/39] fix: write times in an unnamed zone as UTC

They were written with an empty TZID, which moved them when read back.
---
 types.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 9296b94..3fdc5ed 100644
--- a/types.go
+++ b/types.go
@@ -196,6 +196,8 @@ func (d DateTime) aencode(w writer) {
 func (d DateTime) encode(w writer) {
 	b := make([]byte, 0, 16)
 
+	d.Time = nameZone(d.Time)
+
 	switch d.Location() {
 	case time.UTC:
 		b = d.AppendFormat(b, dateTimeFormat)
@@ -1425,6 +1427,8 @@ func (t Time) aencode(w writer) {
 func (t Time) encode(w writer) {
 	b := make([]byte, 0, 7)
 
+	t.Time = nameZone(t.Time)
+
 	switch t.Location() {
 	case time.UTC:
 		b = t.AppendFormat(b, dateTimeFormat[9:])
@@ -1578,8 +1582,18 @@ func (u UTCOffset) valid() error {
 	return nil
 }
 
+// nameZone returns a time in an unnamed zone as UTC, as there is no name to refer
+// to its zone with.
+func nameZone(t time.Time) time.Time {
+	if t.Location().String() == "" {
+		return t.UTC()
+	}
+
+	return t
+}
+
 func writeTimezone(w writer, t time.Time) {
-	switch l := t.Location(); l {
+	switch l := nameZone(t).Location(); l {
 	case time.UTC, time.Local:
 	default:
 		w.WriteString(";TZID=")
-- 
2.43.0


From f1a551788de5e6d80ba0c6acc8310e0271310900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:08 +0000
Subject: [PATCH 21/39] fix: check and quote the zone names of times

A zone name with a special character broke the line it was written to.
---
 types.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/types.go b/types.go
index 3fdc5ed..91bcc1b 100644
--- a/types.go
+++ b/types.go
@@ -215,7 +215,7 @@ func (d DateTime) valid() error {
 		return ErrInvalidTime
 	}
 
-	return nil
+	return ParamTimezoneID(d.Location().String()).valid()
 }
 
 // Duration is a duration of time.
@@ -550,7 +550,7 @@ func (p Period) encode(w writer) {
 }
 
 func (p Period) valid() error {
-	if p.Start.IsZero() {
+	if err := p.Start.valid(); err != nil {
 		return ErrInvalidPeriodStart
 	} else if p.End.IsZero() {
 		if p.Duration.Negative {
@@ -967,7 +967,10 @@ func (r *Recur) decode(params map[string]string, data string) error {
 }
 
 func (r *Recur) aencode(w writer) {
-	writeTimezone(w, r.Until)
+	if r.UntilTime && r.Count == 0 {
+		writeTimezone(w, r.Until)
+	}
+
 	w.WriteString(":")
 	r.encode(w)
 }
@@ -1169,6 +1172,14 @@ func (r *Recur) valid() error {
 		return ErrInvalidRecurFrequency
 	}
 
+	if r.Count == 0 && !r.Until.IsZero() {
+		d := DateTime{r.Until}
+
+		if err := d.valid(); err != nil {
+			return err
+		}
+	}
+
 	for _, second := range r.BySecond {
 		if second > 60 {
 			return ErrInvalidRecurBySecond
@@ -1596,8 +1607,7 @@ func writeTimezone(w writer, t time.Time) {
 	switch l := nameZone(t).Location(); l {
 	case time.UTC, time.Local:
 	default:
-		w.WriteString(";TZID=")
-		w.WriteString(l.String())
+		ParamTimezoneID(l.String()).encode(w)
 	}
 }
 
-- 
2.43.0


From 7f113cc10b3d3191c06594d2d6af121691924432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:11 +0000
Subject: [PATCH 22/39] fix: refuse dates with a year that does not have four
 digits

---
 types.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 91bcc1b..9bcb506 100644
--- a/types.go
+++ b/types.go
@@ -143,13 +143,18 @@ func (d Date) encode(w writer) {
 }
 
 func (d Date) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(d.Year()) {
 		return ErrInvalidTime
 	}
 
 	return nil
 }
 
+// validYear reports whether y can be written with four digits.
+func validYear(y int) bool {
+	return y >= 0 && y <= 9999
+}
+
 // DateTime is a Calendar Date and Time.
 type DateTime struct {
 	time.Time
@@ -211,7 +216,7 @@ func (d DateTime) encode(w writer) {
 }
 
 func (d DateTime) valid() error {
-	if d.IsZero() {
+	if d.IsZero() || !validYear(nameZone(d.Time).Year()) {
 		return ErrInvalidTime
 	}
 
@@ -556,7 +561,7 @@ func (p Period) valid() error {
 		if p.Duration.Negative {
 			return ErrInvalidPeriodDuration
 		}
-	} else if !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
+	} else if err = p.End.valid(); err != nil || !p.End.After(p.Start.Time) || p.Start.Location().String() != p.End.Location().String() {
 		return ErrInvalidPeriodEnd
 	}
 
-- 
2.43.0


From 81b6e1fa9d175d87448104c64da973ab19ba6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:13 +0000
Subject: [PATCH 23/39] fix: refuse URIs that Decode cannot parse

Control characters in a URI ended its line.
---
 types.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 9bcb506..575b8b9 100644
--- a/types.go
+++ b/types.go
@@ -111,8 +111,8 @@ func (c CalendarAddress) encode(w writer) {
 	w.WriteString(c.URL.String())
 }
 
-func (CalendarAddress) valid() error {
-	return nil
+func (c CalendarAddress) valid() error {
+	return validURL(&c.URL)
 }
 
 // Date is a Calendar Data.
@@ -1490,8 +1490,21 @@ func (u URI) encode(w writer) {
 	w.WriteString(u.URL.String())
 }
 
-func (URI) valid() error {
-	return nil
+func (u URI) valid() error {
+	return validURL(&u.URL)
+}
+
+// validURL returns an error for a URL that cannot be read back.
+func validURL(u *url.URL) error {
+	s := u.String()
+
+	if !utf8.ValidString(s) {
+		return ErrInvalidText
+	}
+
+	_, err := url.Parse(s)
+
+	return err
 }
 
 // UTCOffset contains the offset from UTC to local time.
-- 
2.43.0


From 53b58b22f3be6e74da55596d565b8f150a45303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:31 +0000
Subject: [PATCH 24/39] fix: check UNTIL as the type it is written as

---
 types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 575b8b9..fd57367 100644
--- a/types.go
+++ b/types.go
@@ -972,7 +972,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 }
 
 func (r *Recur) aencode(w writer) {
-	if r.UntilTime && r.Count == 0 {
+	if r.UntilTime && r.Count == 0 && !r.Until.IsZero() {
 		writeTimezone(w, r.Until)
 	}
 
@@ -1178,9 +1178,13 @@ func (r *Recur) valid() error {
 	}
 
 	if r.Count == 0 && !r.Until.IsZero() {
-		d := DateTime{r.Until}
+		err := Date{r.Until}.valid()
 
-		if err := d.valid(); err != nil {
+		if r.UntilTime {
+			err = DateTime{r.Until}.valid()
+		}
+
+		if err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 946fee57cd586bc2b97e7c69a297d47c8b2fc8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:32 +0000
Subject: [PATCH 25/39] fix: write both times of a period in one zone

The zone of a period is written once, for its start. Two zones with the same
name can still be written differently.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index fd57367..0ddb86f 100644
--- a/types.go
+++ b/types.go
@@ -550,7 +550,7 @@ func (p Period) encode(w writer) {
 	if p.End.IsZero() {
 		p.Duration.encode(w)
 	} else {
-		p.End.encode(w)
+		DateTime{p.End.In(p.Start.Location())}.encode(w)
 	}
 }
 
-- 
2.43.0


From e0ad9a1d34dfe8f406fb0eaa15b0d92236625ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:17 +0000
Subject: [PATCH 26/39] fix: ignore the case of Boolean values

---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 0ddb86f..3bc3a9a 100644
--- a/types.go
+++ b/types.go
@@ -54,7 +54,7 @@ func (Binary) valid() error {
 type Boolean bool
 
 func (b *Boolean) decode(_ map[string]string, data string) error {
-	cb, err := strconv.ParseBool(data)
+	cb, err := strconv.ParseBool(strings.ToLower(data))
 	*b = Boolean(cb)
 
 	if err != nil {
-- 
2.43.0


From 3670502d6578e97942c33a3b0a0ac638b0d0600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:56 +0000
Subject: [PATCH 27/39] fix: require DURATION and REPEAT together in audio and
 display alarms

Only email and URI alarms were checked. RFC 5545 asks for it in all alarms
that may repeat.
---
 sections.gen |  2 ++
 sections.go  | 16 ++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/sections.gen b/sections.gen
index 06d4903..fe7a5e6 100644
--- a/sections.gen
+++ b/sections.gen
@@ -148,6 +148,7 @@ VALARMAUDIO
 	RELATED-TO
 	DEFAULT-ALARM
 	?GEO-LOCATION>PROXIMITY
+	?DURATION+REPEAT
 VALARMDISPLAY
 	!DESCRIPTION
 	!TRIGGER
@@ -163,6 +164,7 @@ VALARMDISPLAY
 	RELATED-TO
 	DEFAULT-ALARM
 	?GEO-LOCATION>PROXIMITY
+	?DURATION+REPEAT
 VALARMEMAIL
 	!DESCRIPTION
 	!TRIGGER
diff --git a/sections.go b/sections.go
index 85af7e9..05cedce 100644
--- a/sections.go
+++ b/sections.go
@@ -3046,6 +3046,10 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errDecodingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3183,6 +3187,10 @@ func (s *AlarmAudio) valid() error {
 		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmAudio, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3367,6 +3375,10 @@ Loop:
 		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errDecodingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
@@ -3499,6 +3511,10 @@ func (s *AlarmDisplay) valid() error {
 		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
 	}
 
+	if t := s.Duration == nil; t != (s.Repeat == nil) {
+		return fmt.Errorf(errValidatingType, cAlarmDisplay, ErrRequirementNotMet)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 641944103f3fa2114567371049f9a50a6efb83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:26 +0000
Subject: [PATCH 28/39] fix: ignore the case of the ENCODING parameter

Parameter values are case-insensitive unless said otherwise.
Binary attachments with ENCODING=base64 were rejected.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 3bc3a9a..c0deb4e 100644
--- a/types.go
+++ b/types.go
@@ -20,7 +20,7 @@ const dateTimeFormat = "20060102T150405Z"
 type Binary []byte
 
 func (b *Binary) decode(params map[string]string, data string) error {
-	if params["ENCODING"] != "BASE64" {
+	if !strings.EqualFold(params["ENCODING"], "BASE64") {
 		return ErrInvalidEncoding
 	}
 
-- 
2.43.0


From 9c6adf95a5b75bb0df641fdeb690f6bc9da06014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:28 +0000
Subject: [PATCH 29/39] fix: skip components inside alarms

Unknown components are skipped everywhere else.
Inside an alarm they made the whole calendar unreadable.
---
 sections_alarm.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sections_alarm.go b/sections_alarm.go
index 578e5e5..2e1efeb 100644
--- a/sections_alarm.go
+++ b/sections_alarm.go
@@ -48,11 +48,17 @@ Loop:
 			return io.ErrUnexpectedEOF
 		}
 
+		if strings.EqualFold(ph.Data[0].Data, "BEGIN") {
+			if err := decodeDummy(t, strings.ToUpper(ph.Data[len(ph.Data)-1].Data)); err != nil {
+				return err
+			}
+
+			continue
+		}
+
 		pt = append(pt, ph)
 
 		switch strings.ToUpper(ph.Data[0].Data) {
-		case "BEGIN":
-			return ErrInvalidStructure
 		case "ACTION":
 			if a.AlarmType != nil {
 				return ErrInvalidStructure
-- 
2.43.0


From 5b6b8649fbf0c5568062991358a9f4d19fdde7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:30 +0000
Subject: [PATCH 30/39] fix: require one T before the time part of durations

Durations such as P1D2H and PT1HT5M were accepted.
---
 types.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index c0deb4e..a244bc0 100644
--- a/types.go
+++ b/types.go
@@ -242,10 +242,18 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 		return ErrInvalidDuration
 	}
 
-	var level uint8
+	var (
+		level   uint8
+		hasTime bool
+	)
 
 	for t.Peek() != -1 {
 		if t.Accept("T") {
+			if hasTime {
+				return ErrInvalidDuration
+			}
+
+			hasTime = true
 			level = 1
 		}
 
@@ -284,7 +292,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Days = num
 			level = 1
 		case 'H':
-			if level > 1 {
+			if !hasTime || level > 1 {
 				return ErrInvalidDuration
 			}
 
@@ -293,7 +301,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Hours = num
 			level = 2
 		case 'M':
-			if level > 2 {
+			if !hasTime || level > 2 {
 				return ErrInvalidDuration
 			}
 
@@ -302,7 +310,7 @@ func (d *Duration) decode(_ map[string]string, data string) error {
 			d.Minutes = num
 			level = 3
 		case 'S':
-			if level > 3 {
+			if !hasTime || level > 3 {
 				return ErrInvalidDuration
 			}
 
-- 
2.43.0


From 5f4d88f4ff22a7bd485ad6224027e3af61485172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:38:32 +0000
Subject: [PATCH 31/39] fix: reject times with fractions of a second

The time parser accepts a fraction after the seconds.
The format has none.
---
 types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/types.go b/types.go
index a244bc0..87c0cb8 100644
--- a/types.go
+++ b/types.go
@@ -161,6 +161,10 @@ type DateTime struct {
 }
 
 func (d *DateTime) decode(params map[string]string, data string) error {
+	if strings.ContainsAny(data, ".,") {
+		return ErrInvalidTime
+	}
+
 	if tz, ok := params["TZID"]; ok {
 		l, err := time.LoadLocation(tz)
 		if err != nil {
@@ -1415,6 +1419,10 @@ type Time struct {
 }
 
 func (t *Time) decode(params map[string]string, data string) error {
+	if strings.ContainsAny(data, ".,") {
+		return ErrInvalidTime
+	}
+
 	if tz, ok := params["TZID"]; ok {
 		l, err := time.LoadLocation(tz)
 		if err != nil {
-- 
2.43.0


From 15093b9903ea5a255ee50bf02ad1aab5640cacb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:22 +0000
Subject: [PATCH 32/39] fix: require a number after the plus sign of a weekday

-MO was rejected already, +MO was read as MO.
---
 types.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/types.go b/types.go
index 87c0cb8..2062bf1 100644
--- a/types.go
+++ b/types.go
@@ -802,6 +802,7 @@ func (r *Recur) decode(params map[string]string, data string) error {
 				}
 
 				if day[0] == '+' {
+					numCheck = false
 					day = day[1:]
 				} else if day[0] == '-' {
 					neg = true
-- 
2.43.0


From cce8028b5ee9f04c6a29b50a89ceb59a07d103fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:29 +0000
Subject: [PATCH 33/39] fix: reject parameters without a name

---
 tokeniser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index 262fe04..bd9037c 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -70,7 +70,7 @@ func parseParamName(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 	t.Accept(";")
 	t.Get()
 
-	if t.AcceptRun(ianaToken) != '=' {
+	if t.Peek() == '=' || t.AcceptRun(ianaToken) != '=' {
 		t.Err = ErrInvalidContentLineParamName
 
 		return t.Error()
-- 
2.43.0


From 88ace34f064c09514b71045083d32ffb13c6b979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:47 +0000
Subject: [PATCH 34/39] fix: ignore letter case in recurrence rules

Rule part names, frequencies and weekdays are case insensitive in RFC 5545,
but only upper case was accepted.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index 2062bf1..acc78aa 100644
--- a/types.go
+++ b/types.go
@@ -658,7 +658,7 @@ type Recur struct {
 func (r *Recur) decode(params map[string]string, data string) error {
 	var freq bool
 
-	for _, rule := range strings.Split(data, ";") {
+	for _, rule := range strings.Split(strings.ToUpper(data), ";") {
 		parts := strings.SplitN(rule, "=", 2)
 
 		if len(parts) != 2 {
-- 
2.43.0


From a62d9ba26065563cd52510b8f9c0290f8ec7a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:06 +0000
Subject: [PATCH 35/39] fix: reject periods that end before they start

Decode accepted a period whose end is not after its start, or whose two ends
are in different zones. Encode refuses both, so such a calendar could be read
but not written again.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index acc78aa..30c9c56 100644
--- a/types.go
+++ b/types.go
@@ -546,7 +546,7 @@ func (p *Period) decode(params map[string]string, data string) error {
 		return fmt.Errorf("error while decoding Period End: %w", err)
 	}
 
-	return nil
+	return p.valid()
 }
 
 func (p Period) aencode(w writer) {
-- 
2.43.0


From 8bd41118a1df36d188950b72816ae0715a6ca979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:24:35 +0000
Subject: [PATCH 36/39] fix: add nothing to a text that ends in a backslash

---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index 30c9c56..a322db0 100644
--- a/types.go
+++ b/types.go
@@ -1311,6 +1311,11 @@ Loop:
 				d = append(d, '\n')
 			default:
 				d = append(d, '\\')
+
+				if c == -1 {
+					break Loop
+				}
+
 				l := utf8.EncodeRune(ru[:], c)
 				d = append(d, ru[:l]...)
 			}
-- 
2.43.0


From da449763bbecd7e78f150229228dd47e53714ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:18 +0000
Subject: [PATCH 37/39] fix: read parameters that start with a byte that is not
 UTF-8

---
 tokeniser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokeniser.go b/tokeniser.go
index bd9037c..2485aaa 100644
--- a/tokeniser.go
+++ b/tokeniser.go
@@ -99,7 +99,8 @@ func parseParamValue(t *parser.Tokeniser) (parser.Token, parser.TokenFunc) {
 
 		t.Accept("\"")
 	} else {
-
+		// looking at a byte that is not UTF-8 leaves part of it behind
+		t.Get()
 		t.ExceptRun(nonsafeChars)
 		tk.Type = tokenParamValue
 		tk.Data = t.Get()
-- 
2.43.0


From 0134df3f93fe15a67d14ffc513e1aad1f4a4dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:26:35 +0000
Subject: [PATCH 38/39] fix: do not give up on empty reads between many folds

---
 unfolder.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/unfolder.go b/unfolder.go
index f07203f..2d0ac03 100644
--- a/unfolder.go
+++ b/unfolder.go
@@ -5,6 +5,9 @@ import (
 	"io"
 )
 
+// maxEmptyReads is how many empty reads in a row end the stream.
+const maxEmptyReads = 100
+
 type unfolder struct {
 	r          io.Reader
 	err        error
@@ -17,7 +20,7 @@ func (u *unfolder) Read(p []byte) (int, error) {
 		return 0, nil
 	}
 
-	for {
+	for empty := 0; ; {
 		if n := u.unfold(p); n > 0 {
 			return n, nil
 		} else if u.err != nil {
@@ -32,8 +35,10 @@ func (u *unfolder) Read(p []byte) (int, error) {
 		u.end += n
 		u.err = err
 
-		if n == 0 && err == nil {
-			return 0, nil
+		if n > 0 {
+			empty = 0
+		} else if empty++; empty == maxEmptyReads && err == nil {
+			u.err = io.ErrNoProgress
 		}
 	}
 }
-- 
2.43.0


From 8cca97e334ecbec58355c914d326cd6d89e7c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:19 +0000
Subject: [PATCH 39/39] fix: reject coordinates that are not numbers

Decode accepted NaN and Inf as coordinates. Encode then refused the calendar.
---
 types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a322db0..4a155ec 100644
--- a/types.go
+++ b/types.go
@@ -465,7 +465,7 @@ func (t *TFloat) decode(_ map[string]string, data string) error {
 		return fmt.Errorf("error parsing TFloat[1]: %w", err)
 	}
 
-	return nil
+	return t.valid()
 }
 
 func (t TFloat) aencode(w writer) {
-- 
2.43.0

