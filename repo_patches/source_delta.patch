From 55d908aebc593f3917d11ce8032d1d47eff1099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 01/18] fix: octetcounting: a NUL byte is not the end of the
 reader

---
 octetcounting/scanner.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 7e5f2bb..92635cd 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -7,9 +7,6 @@ import (
 	"strconv"
 )
 
-// eof represents a marker byte for the end of the reader
-var eof = byte(0)
-
 // ws represents the whitespace
 var ws = byte(32)
 
@@ -41,13 +38,13 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns the byte(0) if an error occurs (or io.EOF is returned)
-func (s *Scanner) read() byte {
+// it returns false if an error occurs (or io.EOF is returned)
+func (s *Scanner) read() (byte, bool) {
 	b, err := s.r.ReadByte()
 	if err != nil {
-		return eof
+		return 0, false
 	}
-	return b
+	return b, true
 }
 
 // unread places the previously read byte back on the reader
@@ -58,7 +55,13 @@ func (s *Scanner) unread() {
 // Scan returns the next token.
 func (s *Scanner) Scan() (tok Token) {
 	// Read the next byte.
-	b := s.read()
+	b, ok := s.read()
+	if !ok {
+		s.ready = false
+		return Token{
+			typ: EOF,
+		}
+	}
 
 	if isNonZeroDigit(b) {
 		s.unread()
@@ -68,11 +71,6 @@ func (s *Scanner) Scan() (tok Token) {
 
 	// Otherwise read the individual character
 	switch b {
-	case eof:
-		s.ready = false
-		return Token{
-			typ: EOF,
-		}
 	case ws:
 		s.ready = true
 		return Token{
@@ -95,12 +93,14 @@ func (s *Scanner) Scan() (tok Token) {
 func (s *Scanner) scanMsgLen() Token {
 	// Create a buffer and read the current character into it
 	var buf bytes.Buffer
-	buf.WriteByte(s.read())
+	if b, ok := s.read(); ok {
+		buf.WriteByte(b)
+	}
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
 	for {
-		if b := s.read(); b == eof {
+		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
 			s.unread()
-- 
2.43.0


From d6cd3fa0bc98e74a3e37a9d8eac06f6609016a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 02/18] fix: octetcounting: do not read on after the reader has
 failed

---
 octetcounting/scanner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 92635cd..8780d8a 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -28,6 +28,7 @@ type Scanner struct {
 	r      *bufio.Reader
 	msglen uint64
 	ready  bool
+	failed bool // whether the reader has ended (or failed) already
 }
 
 // NewScanner returns a pointer to a new instance of Scanner.
@@ -38,10 +39,14 @@ func NewScanner(r io.Reader, maxLength int) *Scanner {
 }
 
 // read reads the next byte from the buffered reader
-// it returns false if an error occurs (or io.EOF is returned)
+// it returns false if an error occurs (or io.EOF is returned), and from then on
 func (s *Scanner) read() (byte, bool) {
+	if s.failed {
+		return 0, false
+	}
 	b, err := s.r.ReadByte()
 	if err != nil {
+		s.failed = true
 		return 0, false
 	}
 	return b, true
@@ -124,6 +129,7 @@ func (s *Scanner) scanSyslogMsg() Token {
 	n := int(s.msglen)
 	b, err := s.r.Peek(n)
 	if err != nil {
+		s.failed = true
 		return Token{
 			typ: EOF,
 			lit: b,
-- 
2.43.0


From 93f5fb2067056f1f80cca05e59720a9688622f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 03/18] fix: octetcounting: MSGLEN is made of digits only and
 does not start with 0

---
 octetcounting/scanner.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index 8780d8a..ae2f57a 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -15,12 +15,12 @@ var lt = byte(60)
 
 // isDigit returns true if the byte represents a number in [0,9]
 func isDigit(ch byte) bool {
-	return (ch >= 47 && ch <= 57)
+	return (ch >= 48 && ch <= 57)
 }
 
-// isNonZeroDigit returns true if the byte represents a number in ]0,9]
+// isNonZeroDigit returns true if the byte represents a number in [1,9]
 func isNonZeroDigit(ch byte) bool {
-	return (ch >= 48 && ch <= 57)
+	return (ch >= 49 && ch <= 57)
 }
 
 // Scanner represents the lexical scanner for octet counting transport.
-- 
2.43.0


From 9f708557c2317dbcc54642a77022a05b988c2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 04/18] fix: octetcounting: no MSGLEN gets around the maximum
 message length

---
 octetcounting/parser.go  | 4 ++--
 octetcounting/scanner.go | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index cbdbaac..c2c3b67 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -86,7 +86,7 @@ func (p *parser) run() {
 			break
 		}
 
-		if int(p.s.msglen) > p.maxMessageLength {
+		if p.maxMessageLength < 0 || p.s.msglen > uint64(p.maxMessageLength) {
 			p.emit(&syslog.Result{
 				Error: fmt.Errorf("message too long to parse. was size %d, max length %d", p.s.msglen, p.maxMessageLength),
 			})
@@ -105,7 +105,7 @@ func (p *parser) run() {
 		if tok = p.scan(); tok.typ != SYSLOGMSG {
 			e := fmt.Errorf(`found %s after "%s", expecting a %s containing %d octets`, tok, tok.lit, SYSLOGMSG, p.s.msglen)
 			// Underflow case
-			if len(tok.lit) < int(p.s.msglen) && p.bestEffort {
+			if uint64(len(tok.lit)) < p.s.msglen && p.bestEffort {
 				// Though MSGLEN was not respected, we try to parse the existing SYSLOGMSG as a RFC5424 syslog message
 				result := p.parse(tok.lit)
 				if result.Error == nil {
diff --git a/octetcounting/scanner.go b/octetcounting/scanner.go
index ae2f57a..07a6028 100644
--- a/octetcounting/scanner.go
+++ b/octetcounting/scanner.go
@@ -23,6 +23,9 @@ func isNonZeroDigit(ch byte) bool {
 	return (ch >= 49 && ch <= 57)
 }
 
+// maxDigits is the number of digits from which on a MSGLEN exceeds uint64, whatever they are
+const maxDigits = 21
+
 // Scanner represents the lexical scanner for octet counting transport.
 type Scanner struct {
 	r      *bufio.Reader
@@ -104,7 +107,8 @@ func (s *Scanner) scanMsgLen() Token {
 
 	// Read every subsequent digit character into the buffer
 	// Non-digit characters and EOF will cause the loop to exit
-	for {
+	// There is no need for more digits than those exceeding any length
+	for buf.Len() < maxDigits {
 		if b, ok := s.read(); !ok {
 			break
 		} else if !isDigit(b) {
@@ -116,6 +120,7 @@ func (s *Scanner) scanMsgLen() Token {
 	}
 
 	msglen := buf.String()
+	// It is the maximum uint64 when out of range
 	s.msglen, _ = strconv.ParseUint(msglen, 10, 64)
 
 	return Token{
-- 
2.43.0


From 02b7f473cccfeb0bd17e8cf1a4d4d9d69c4f8b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 05/18] fix: nontransparent: parsing starts from scratch with
 every reader

---
 nontransparent/parser.go    | 5 +++++
 nontransparent/parser.go.rl | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c587202..4775448 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -255,6 +255,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+	// Forget about the previous reader, if any
+	m.candidate = nil
+	m.lastChunk = nil
+	m.readError = nil
+
 	r := parser.ArbitraryReader(reader, m.trailer)
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 1dde434..5b20220 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -112,6 +112,9 @@ func NewParser(options ...syslog.ParserOption) syslog.Parser {
     return m
 }
 
+// WithMaxMessageLength does nothing for this parser
+func (m *machine) WithMaxMessageLength(length int) {}
+
 // HasBestEffort tells whether the receiving parser has best effort mode on or off.
 func (m *machine) HasBestEffort() bool {
     return m.bestEffort
@@ -146,6 +149,11 @@ func (m *machine) WithListener(f syslog.ParserListener) {
 //
 // It stops parsing when an error regarding RFC 6587 is found.
 func (m *machine) Parse(reader io.Reader) {
+    // Forget about the previous reader, if any
+    m.candidate = nil
+    m.lastChunk = nil
+    m.readError = nil
+
     r := parser.ArbitraryReader(reader, m.trailer)
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
-- 
2.43.0


From b47a45694dad7ed14732f47512751907f55fc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 06/18] fix: nontransparent: a stream not starting with a
 message is an error

---
 nontransparent/parser.go    | 28 +++++++++++++++++++++++++++-
 nontransparent/parser.go.rl | 28 +++++++++++++++++++++++++++-
 2 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index 4775448..c53bfb2 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+	"errors"
 	"io"
 
 	syslog "github.com/influxdata/go-syslog/v3"
@@ -8,6 +9,8 @@ import (
 	parser "github.com/leodido/ragel-machinery/parser"
 )
 
+var errStart = errors.New("expecting the stream to start with a message - ie., with the '<' character")
+
 const nontransparentStart int = 1
 const nontransparentError int = 0
 
@@ -22,6 +25,21 @@ type machine struct {
 	emit       syslog.ParserListener
 	readError  error
 	lastChunk  []byte // store last candidate message also if it does not ends with a trailer
+	failed     bool   // whether an error regarding RFC 6587 has been found
+}
+
+// untilFailure is a parser.Reader that ends when the machine finds an error regarding RFC 6587.
+type untilFailure struct {
+	parser.Reader
+	m *machine
+}
+
+// Read implements the parser.Reader interface.
+func (r *untilFailure) Read() ([]byte, error) {
+	if r.m.failed {
+		return nil, io.EOF
+	}
+	return r.Reader.Read()
 }
 
 // Exec implements the ragel.Parser interface.
@@ -163,6 +181,13 @@ func (m *machine) Exec(s *parser.State) (int, int) {
 		}
 	}
 
+	// The stream does not start with a message
+	if cs == nontransparentError {
+		m.failed = true
+		m.emit(&syslog.Result{
+			Error: errStart,
+		})
+	}
 	// Update parsing variables
 	s.Set(cs, p, pe, eof)
 	return p, pe
@@ -259,8 +284,9 @@ func (m *machine) Parse(reader io.Reader) {
 	m.candidate = nil
 	m.lastChunk = nil
 	m.readError = nil
+	m.failed = false
 
-	r := parser.ArbitraryReader(reader, m.trailer)
+	r := &untilFailure{parser.ArbitraryReader(reader, m.trailer), m}
 	parser.New(r, m, parser.WithStart(1)).Parse()
 }
 
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 5b20220..8e6016b 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -1,6 +1,7 @@
 package nontransparent
 
 import (
+    "errors"
     "io"
 
     parser "github.com/leodido/ragel-machinery/parser"
@@ -8,6 +9,8 @@ import (
     "github.com/influxdata/go-syslog/v3/rfc5424"
 )
 
+var errStart = errors.New("expecting the stream to start with a message - ie., with the '<' character")
+
 %%{
 machine nontransparent;
 
@@ -50,6 +53,21 @@ type machine struct{
     emit       syslog.ParserListener
     readError  error
     lastChunk  []byte // store last candidate message also if it does not ends with a trailer
+    failed     bool   // whether an error regarding RFC 6587 has been found
+}
+
+// untilFailure is a parser.Reader that ends when the machine finds an error regarding RFC 6587.
+type untilFailure struct {
+    parser.Reader
+    m *machine
+}
+
+// Read implements the parser.Reader interface.
+func (r *untilFailure) Read() ([]byte, error) {
+    if r.m.failed {
+        return nil, io.EOF
+    }
+    return r.Reader.Read()
 }
 
 // Exec implements the ragel.Parser interface.
@@ -57,6 +75,13 @@ func (m *machine) Exec(s *parser.State) (int, int) {
     // Retrieve previously stored parsing variables
     cs, p, pe, eof, data := s.Get()
     %% write exec;
+    // The stream does not start with a message
+    if cs == nontransparent_error {
+        m.failed = true
+        m.emit(&syslog.Result{
+            Error: errStart,
+        })
+    }
     // Update parsing variables
     s.Set(cs, p, pe, eof)
     return p, pe
@@ -153,8 +178,9 @@ func (m *machine) Parse(reader io.Reader) {
     m.candidate = nil
     m.lastChunk = nil
     m.readError = nil
+    m.failed = false
 
-    r := parser.ArbitraryReader(reader, m.trailer)
+    r := &untilFailure{parser.ArbitraryReader(reader, m.trailer), m}
     parser.New(r, m, parser.WithStart(%%{ write start; }%%)).Parse()
 }
 
-- 
2.43.0


From dea2f46e98f650a42c434979c955b64e2a4c1a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 07/18] fix: rfc5424: builders do not share the element and
 parameter being set

---
 rfc5424/builder.go    | 13 ++++++-------
 rfc5424/builder.go.rl | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 4aa3baa..a1821c0 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -61,10 +61,11 @@ func (e entrypoint) translate() int {
 	}
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+	return sm.setWithin("", "", from, value)
+}
+
+func (sm *SyslogMessage) setWithin(currentid, currentparamname string, from entrypoint, value string) *SyslogMessage {
 	data := []byte(value)
 	p := 0
 	pb := 0
@@ -9330,12 +9331,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
 		if _, ok := elements[id]; ok {
-			currentid = id
-			sm.set(sdpn, name)
+			sm.setWithin(id, "", sdpn, name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
-				currentparamname = name
-				sm.set(sdpv, value)
+				sm.setWithin(id, name, sdpv, value)
 			}
 		}
 	}
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 3eaccf2..7844bb3 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -151,10 +151,11 @@ func (e entrypoint) translate() int {
     }
 }
 
-var currentid string
-var currentparamname string
-
 func (sm *SyslogMessage) set(from entrypoint, value string) *SyslogMessage {
+    return sm.setWithin("", "", from, value)
+}
+
+func (sm *SyslogMessage) setWithin(currentid, currentparamname string, from entrypoint, value string) *SyslogMessage {
     data := []byte(value)
     p := 0
     pb := 0
@@ -233,12 +234,10 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
         if _, ok := elements[id]; ok {
-            currentid = id
-            sm.set(sdpn, name)
+            sm.setWithin(id, "", sdpn, name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-                currentparamname = name
-                sm.set(sdpv, value)
+                sm.setWithin(id, name, sdpv, value)
             }
         }
     }
-- 
2.43.0


From 681884aee98959a9bba409323568147cec4ee94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 08/18] fix: common: EscapeBytes does not garble multi-byte
 characters

---
 common/functions.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ce2880c..ea636fb 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -29,16 +29,17 @@ func RemoveBytes(data []byte, positions []int, offset int) []byte {
 
 // EscapeBytes adds a backslash to \, ], " characters.
 func EscapeBytes(value string) string {
-	res := ""
-	for i, c := range value {
+	res := make([]byte, 0, len(value))
+	for i := 0; i < len(value); i++ {
+		c := value[i]
 		// todo(leodido): generalize byte codes (the function should ideally accept a byte slice containing byte codes to escape)
 		if c == 92 || c == 93 || c == 34 {
-			res += `\`
+			res = append(res, '\\')
 		}
-		res += string(value[i])
+		res = append(res, c)
 	}
 
-	return res
+	return string(res)
 }
 
 // InBetween tells whether value is into [min, max] range.
-- 
2.43.0


From 2345474313e63174f6118ca6fd86af863c1e541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 09/18] fix: rfc3164: an input that does not match is always an
 error

---
 rfc3164/machine.go    | 3 +++
 rfc3164/machine.go.rl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 6dd3d29..39e1593 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -7252,6 +7252,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	}
 
 	if m.cs < firstFinal || m.cs == enFail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 4d13817..edeaae7 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -251,6 +251,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	%% write exec;
 
 	if m.cs < first_final || m.cs == en_fail {
+		if m.err == nil {
+			m.err = fmt.Errorf(errParse, m.p)
+		}
 		if m.bestEffort && output.minimal() {
 			// An error occurred but partial parsing is on and partial message is minimally valid
 			return output.export(), m.err
-- 
2.43.0


From 19f5b468968432ecef0bc6794792e85e53a02ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 10/18] fix: rfc3164: the year strategy applies when a message
 is parsed

---
 rfc3164/machine.go    | 10 +++++++---
 rfc3164/machine.go.rl | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 39e1593..deac8b9 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -33,7 +33,7 @@ type machine struct {
 	pb         int
 	err        error
 	bestEffort bool
-	yyyy       int
+	year       YearOperator
 	rfc3339    bool
 	loc        *time.Location
 	timezone   *time.Location
@@ -62,7 +62,7 @@ func (m *machine) HasBestEffort() bool {
 
 // WithYear sets the year for the Stamp timestamp of the RFC 3164 syslog message.
 func (m *machine) WithYear(o YearOperator) {
-	m.yyyy = YearOperation{o}.Operate()
+	m.year = o
 }
 
 // WithTimezone sets the time zone for the Stamp timestamp of the RFC 3164 syslog message.
@@ -1171,7 +1171,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			if m.timezone != nil {
 				t, _ = time.ParseInLocation(time.Stamp, string(m.text()), m.timezone)
 			}
-			output.timestamp = t.AddDate(m.yyyy, 0, 0)
+			yyyy := 0
+			if m.year != nil {
+				yyyy = YearOperation{m.year}.Operate()
+			}
+			output.timestamp = t.AddDate(yyyy, 0, 0)
 			if m.loc != nil {
 				output.timestamp = output.timestamp.In(m.loc)
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index edeaae7..0f3a656 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -46,7 +46,11 @@ action set_timestamp {
 		if m.timezone != nil {
 			t, _ = time.ParseInLocation(time.Stamp, string(m.text()), m.timezone)
 		}
-		output.timestamp = t.AddDate(m.yyyy, 0, 0)
+		yyyy := 0
+		if m.year != nil {
+			yyyy = YearOperation{m.year}.Operate()
+		}
+		output.timestamp = t.AddDate(yyyy, 0, 0)
 		if m.loc != nil {
 			output.timestamp = output.timestamp.In(m.loc)
 		}
@@ -171,7 +175,7 @@ type machine struct {
 	pb           int
 	err          error
 	bestEffort   bool
-	yyyy         int
+	year         YearOperator
 	rfc3339      bool
 	loc          *time.Location
 	timezone     *time.Location
@@ -206,7 +210,7 @@ func (m *machine) HasBestEffort() bool {
 
 // WithYear sets the year for the Stamp timestamp of the RFC 3164 syslog message.
 func (m *machine) WithYear(o YearOperator) {
-	m.yyyy = YearOperation{o}.Operate()
+	m.year = o
 }
 
 // WithTimezone sets the time zone for the Stamp timestamp of the RFC 3164 syslog message.
-- 
2.43.0


From 7cfc5d60c3d80214cf68edc285bd2ce88490e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:48 +0000
Subject: [PATCH 11/18] fix: rfc3164: brackets in the message text do not
 change the content

---
 rfc3164/machine.go    | 266 +++++++++++++++++++-----------------------
 rfc3164/machine.go.rl |   5 +-
 2 files changed, 121 insertions(+), 150 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index deac8b9..652f738 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -23,7 +23,7 @@ var (
 const start int = 1
 const firstFinal int = 333
 
-const enFail int = 373
+const enFail int = 372
 const enMain int = 1
 
 type machine struct {
@@ -245,8 +245,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase370
 		case 371:
 			goto stCase371
-		case 372:
-			goto stCase372
 		case 27:
 			goto stCase27
 		case 28:
@@ -859,8 +857,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto stCase331
 		case 332:
 			goto stCase332
-		case 373:
-			goto stCase373
+		case 372:
+			goto stCase372
 		}
 		goto stOut
 	stCase1:
@@ -874,7 +872,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
@@ -884,14 +882,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		m.err = fmt.Errorf(errPri, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
@@ -901,7 +899,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
@@ -911,7 +909,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
@@ -921,17 +919,17 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
-	tr333:
+	tr331:
 
 		m.err = fmt.Errorf(errRFC3339, m.p)
 		(m.p)--
 
 		{
-			goto st373
+			goto st372
 		}
 
 		goto st0
@@ -1165,7 +1163,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			(m.p)--
 
 			{
-				goto st373
+				goto st372
 			}
 		} else {
 			if m.timezone != nil {
@@ -1183,14 +1181,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 
 		goto st20
-	tr341:
+	tr339:
 
 		if t, e := time.Parse(time.RFC3339, string(m.text())); e != nil {
 			m.err = fmt.Errorf("%s [col %d]", e, m.p)
 			(m.p)--
 
 			{
-				goto st373
+				goto st372
 			}
 		} else {
 			output.timestamp = t
@@ -1284,9 +1282,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase334:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1306,9 +1304,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase335:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1328,9 +1326,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase336:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1350,9 +1348,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase337:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1372,9 +1370,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase338:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1394,9 +1392,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase339:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1416,9 +1414,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase340:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1438,9 +1436,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase341:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1460,9 +1458,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase342:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1482,9 +1480,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase343:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1504,9 +1502,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase344:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1526,9 +1524,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase345:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1548,9 +1546,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase346:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1570,9 +1568,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase347:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1592,9 +1590,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase348:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1614,9 +1612,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase349:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1636,9 +1634,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase350:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1658,9 +1656,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase351:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1680,9 +1678,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase352:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1702,9 +1700,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase353:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1724,9 +1722,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase354:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1746,9 +1744,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase355:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1768,9 +1766,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase356:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1790,9 +1788,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase357:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1812,9 +1810,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase358:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1834,9 +1832,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase359:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1856,9 +1854,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase360:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1878,9 +1876,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase361:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1900,9 +1898,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase362:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1922,9 +1920,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase363:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1944,9 +1942,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase364:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1966,9 +1964,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase365:
 		switch (m.data)[(m.p)] {
 		case 58:
-			goto tr347
+			goto tr345
 		case 91:
-			goto tr348
+			goto tr346
 		case 127:
 			goto st0
 		}
@@ -1976,7 +1974,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st0
 		}
 		goto st333
-	tr347:
+	tr345:
 
 		output.tag = string(m.text())
 
@@ -2008,7 +2006,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st0
 		}
 		goto tr42
-	tr348:
+	tr346:
 
 		output.tag = string(m.text())
 
@@ -2020,15 +2018,15 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase368:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr381
-		case 127:
 			goto tr380
+		case 127:
+			goto tr378
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto tr380
+			goto tr378
 		}
-		goto tr48
-	tr380:
+		goto tr379
+	tr378:
 
 		m.pb = m.p
 
@@ -2076,17 +2074,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof26
 		}
 	stCase26:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
+		if (m.data)[(m.p)] == 127 {
+			goto st0
 		}
 		if (m.data)[(m.p)] <= 31 {
-			goto st23
+			goto st0
 		}
-		goto tr48
-	tr48:
+		goto tr42
+	tr379:
 
 		m.pb = m.p
 
@@ -2098,7 +2093,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase369:
 		switch (m.data)[(m.p)] {
 		case 93:
-			goto tr383
+			goto tr382
 		case 127:
 			goto st23
 		}
@@ -2106,19 +2101,12 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st23
 		}
 		goto st369
-	tr383:
-
-		output.content = string(m.text())
-
-		goto st370
-	tr49:
+	tr382:
 
 		output.content = string(m.text())
 
-		m.pb = m.p
-
 		goto st370
-	tr381:
+	tr380:
 
 		m.pb = m.p
 
@@ -2134,7 +2122,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 58:
 			goto st371
 		case 93:
-			goto tr383
+			goto tr382
 		case 127:
 			goto st23
 		}
@@ -2149,9 +2137,9 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	stCase371:
 		switch (m.data)[(m.p)] {
 		case 32:
-			goto st372
+			goto st367
 		case 93:
-			goto tr383
+			goto tr382
 		case 127:
 			goto st23
 		}
@@ -2159,21 +2147,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st23
 		}
 		goto st369
-	st372:
-		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof372
-		}
-	stCase372:
-		switch (m.data)[(m.p)] {
-		case 93:
-			goto tr49
-		case 127:
-			goto st23
-		}
-		if (m.data)[(m.p)] <= 31 {
-			goto st23
-		}
-		goto tr48
 	st27:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof27
@@ -5805,7 +5778,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		case 602:
 			goto st324
 		}
-		goto tr333
+		goto tr331
 	st319:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof319
@@ -5832,7 +5805,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 561 {
 			goto st320
 		}
-		goto tr333
+		goto tr331
 	st320:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof320
@@ -5848,7 +5821,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st321
 		}
-		goto tr333
+		goto tr331
 	st321:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof321
@@ -5864,7 +5837,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if _widec == 570 {
 			goto st322
 		}
-		goto tr333
+		goto tr331
 	st322:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof322
@@ -5880,7 +5853,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 565 {
 			goto st323
 		}
-		goto tr333
+		goto tr331
 	st323:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof323
@@ -5896,14 +5869,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 569 {
 			goto st324
 		}
-		goto tr333
+		goto tr331
 	st324:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof324
 		}
 	stCase324:
 		if (m.data)[(m.p)] == 32 {
-			goto tr341
+			goto tr339
 		}
 		goto st0
 	st325:
@@ -5921,7 +5894,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		if 560 <= _widec && _widec <= 563 {
 			goto st321
 		}
-		goto tr333
+		goto tr331
 	st326:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof326
@@ -6047,18 +6020,18 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto st3
 		}
 		goto tr2
-	st373:
+	st372:
 		if (m.p)++; (m.p) == (m.pe) {
-			goto _testEof373
+			goto _testEof372
 		}
-	stCase373:
+	stCase372:
 		switch (m.data)[(m.p)] {
 		case 10:
 			goto st0
 		case 13:
 			goto st0
 		}
-		goto st373
+		goto st372
 	stOut:
 	_testEof2:
 		m.cs = 2
@@ -6252,9 +6225,6 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof371:
 		m.cs = 371
 		goto _testEof
-	_testEof372:
-		m.cs = 372
-		goto _testEof
 	_testEof27:
 		m.cs = 27
 		goto _testEof
@@ -7173,8 +7143,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	_testEof332:
 		m.cs = 332
 		goto _testEof
-	_testEof373:
-		m.cs = 373
+	_testEof372:
+		m.cs = 372
 		goto _testEof
 
 	_testEof:
@@ -7182,7 +7152,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 		if (m.p) == (m.eof) {
 			switch m.cs {
-			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372:
+			case 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371:
 
 				output.message = string(m.text())
 
@@ -7192,7 +7162,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			case 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299:
@@ -7201,7 +7171,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			case 318, 319, 320, 321, 322, 323, 325:
@@ -7210,7 +7180,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			case 20, 21, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280:
@@ -7219,7 +7189,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			case 22:
@@ -7228,7 +7198,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			case 2, 3, 330, 331, 332:
@@ -7237,14 +7207,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 				m.err = fmt.Errorf(errPri, m.p)
 				(m.p)--
 
 				{
-					goto st373
+					goto st372
 				}
 
 			}
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 0f3a656..6aef594 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -154,11 +154,12 @@ visible = print | 0x80..0xFF;
 # The first not alphanumeric character starts the content (usually containing a PID) part of the message part
 contentval = !alnum @err(err_contentstart) >mark print* %set_content @err(err_content);
 
-content = '[' contentval ']'; # todo(leodido) > support ':' and ' ' too. Also they have to match?
+# The content ends at the first closing square bracket followed by a colon and a space
+content = '[' contentval :>> (']' ':' sp); # todo(leodido) > support ':' and ' ' too. Also they have to match?
 
 mex = visible+ >mark %set_message;
 
-msg = (tag content? ':' sp)? mex;
+msg = (tag (content | ':' sp))? mex;
 
 fail := (any - [\n\r])* @err{ fgoto main; };
 
-- 
2.43.0


From 990f1186599a47941cc1e0e1749ebfc3c9a776ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:49 +0000
Subject: [PATCH 12/18] fix: rfc3164: a priority value counts only when it is
 complete

---
 rfc3164/machine.go    | 28 +++++++++-------------------
 rfc3164/machine.go.rl |  2 +-
 2 files changed, 10 insertions(+), 20 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 652f738..715766a 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -962,14 +962,16 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof3
 		}
 	stCase3:
+		if (m.data)[(m.p)] == 62 {
+			goto tr6
+		}
+		goto tr2
+	tr6:
 
 		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
 		output.prioritySet = true
 
-		if (m.data)[(m.p)] == 62 {
-			goto st4
-		}
-		goto tr2
+		goto st4
 	st4:
 		if (m.p)++; (m.p) == (m.pe) {
 			goto _testEof4
@@ -5969,15 +5971,11 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof330
 		}
 	stCase330:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		switch (m.data)[(m.p)] {
 		case 57:
 			goto st332
 		case 62:
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 56 {
 			goto st331
@@ -5993,12 +5991,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof331
 		}
 	stCase331:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 57 {
 			goto st3
@@ -6009,12 +6003,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 			goto _testEof332
 		}
 	stCase332:
-
-		output.priority = uint8(common.UnsafeUTF8DecimalCodePointsToInt(m.text()))
-		output.prioritySet = true
-
 		if (m.data)[(m.p)] == 62 {
-			goto st4
+			goto tr6
 		}
 		if 48 <= (m.data)[(m.p)] && (m.data)[(m.p)] <= 49 {
 			goto st3
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index 6aef594..fd64427 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -133,7 +133,7 @@ action err_content {
 	fgoto fail;
 }
 
-pri = ('<' prival >mark %from(set_prival) $err(err_prival) '>') @err(err_pri);
+pri = ('<' prival >mark %set_prival $err(err_prival) '>') @err(err_pri);
 
 timestamp = (datemmm sp datemday sp hhmmss) >mark %set_timestamp @err(err_timestamp);
 
-- 
2.43.0


From 74c5bda8a5c98b42b6a3e69ad6dc82dc19efcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 13/18] fix: common: RemoveBytes takes time linear in its input

---
 common/functions.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/common/functions.go b/common/functions.go
index ea636fb..a4ae476 100644
--- a/common/functions.go
+++ b/common/functions.go
@@ -19,12 +19,14 @@ func UnsafeUTF8DecimalCodePointsToInt(chars []uint8) int {
 // RemoveBytes removes byte at given positions from data byte slice, starting from the given offset.
 func RemoveBytes(data []byte, positions []int, offset int) []byte {
 	// We need a copy here to not modify original data
-	cp := append([]byte(nil), data...)
-	for i, pos := range positions {
-		at := pos - i - offset
-		cp = append(cp[:at], cp[(at+1):]...)
+	cp := make([]byte, 0, len(data))
+	from := 0
+	for _, pos := range positions {
+		at := pos - offset
+		cp = append(cp, data[from:at]...)
+		from = at + 1
 	}
-	return cp
+	return append(cp, data[from:]...)
 }
 
 // EscapeBytes adds a backslash to \, ], " characters.
-- 
2.43.0


From cbe2df9e3ca33cc97e81b9ac3c12e828caded16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 14/18] fix: rfc3164: the content is copied once, not at every
 closing bracket

---
 rfc3164/machine.go    | 10 +++++++---
 rfc3164/machine.go.rl |  6 +++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rfc3164/machine.go b/rfc3164/machine.go
index 715766a..bc81785 100644
--- a/rfc3164/machine.go
+++ b/rfc3164/machine.go
@@ -102,6 +102,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.eof = len(input)
 	m.err = nil
 	output := &syslogMessage{}
+	// The content found so far, copied once only
+	var content []byte
 
 	{
 		m.cs = start
@@ -2044,7 +2046,7 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st23
 	tr45:
 
-		output.content = string(m.text())
+		content = m.text()
 
 		goto st24
 	st24:
@@ -2105,14 +2107,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		goto st369
 	tr382:
 
-		output.content = string(m.text())
+		content = m.text()
 
 		goto st370
 	tr380:
 
 		m.pb = m.p
 
-		output.content = string(m.text())
+		content = m.text()
 
 		goto st370
 	st370:
@@ -7215,6 +7217,8 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 		}
 	}
 
+	output.content = string(content)
+
 	if m.cs < firstFinal || m.cs == enFail {
 		if m.err == nil {
 			m.err = fmt.Errorf(errParse, m.p)
diff --git a/rfc3164/machine.go.rl b/rfc3164/machine.go.rl
index fd64427..0bae2c9 100644
--- a/rfc3164/machine.go.rl
+++ b/rfc3164/machine.go.rl
@@ -78,7 +78,7 @@ action set_tag {
 }
 
 action set_content {
-	output.content = string(m.text())
+	content = m.text()
 }
 
 action set_message {
@@ -251,10 +251,14 @@ func (m *machine) Parse(input []byte) (syslog.Message, error) {
 	m.eof = len(input)
 	m.err = nil
 	output := &syslogMessage{}
+	// The content found so far, copied once only
+	var content []byte
 
 	%% write init;
 	%% write exec;
 
+	output.content = string(content)
+
 	if m.cs < first_final || m.cs == en_fail {
 		if m.err == nil {
 			m.err = fmt.Errorf(errParse, m.p)
-- 
2.43.0


From 4a989e021a9597a4b0517122f82ea4050b4573ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:07 +0000
Subject: [PATCH 15/18] fix: rfc5424: an invalid value does not erase an
 existing parameter

SetParameter with a value the grammar does not allow on a parameter that
already exists replaced its value with the empty string.
---
 rfc5424/builder.go    | 6 +++++-
 rfc5424/builder.go.rl | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index a1821c0..1c9ffc0 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9212,7 +9212,11 @@ func (sm *SyslogMessage) setWithin(currentid, currentparamname string, from entr
 
 				// Assuming SD map already exists, contains currentid key (set from outside)
 				elements := *sm.StructuredData
-				elements[currentid][string(data[pb:p])] = ""
+				name := string(data[pb:p])
+				// Do not lose the value of an already existing parameter
+				if _, ok := elements[currentid][name]; !ok {
+					elements[currentid][name] = ""
+				}
 
 			case 583:
 
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 7844bb3..fc0a52a 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -64,7 +64,11 @@ action set_sdid {
 action set_sdpn {
     // Assuming SD map already exists, contains currentid key (set from outside)
     elements := *sm.StructuredData
-    elements[currentid][string(data[pb:p])] = ""
+    name := string(data[pb:p])
+    // Do not lose the value of an already existing parameter
+    if _, ok := elements[currentid][name]; !ok {
+        elements[currentid][name] = ""
+    }
 }
 
 action markslash {
-- 
2.43.0


From c2ae63f58997bba83cf81083db3edd4d878d17e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 16/18] fix: stream parsers: best effort enabled later reaches
 the message parser

WithBestEffort on a parser that already exists changed what HasBestEffort
says and how framing errors are handled, while the messages went on being
parsed in strict mode.
---
 nontransparent/parser.go    | 4 ++++
 nontransparent/parser.go.rl | 4 ++++
 octetcounting/parser.go     | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/nontransparent/parser.go b/nontransparent/parser.go
index c53bfb2..01d24b3 100644
--- a/nontransparent/parser.go
+++ b/nontransparent/parser.go
@@ -267,6 +267,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
 	m.bestEffort = true
+	// The internal parser does not exist yet when options are applied
+	if m.internal != nil {
+		m.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/nontransparent/parser.go.rl b/nontransparent/parser.go.rl
index 8e6016b..dbb1ce9 100644
--- a/nontransparent/parser.go.rl
+++ b/nontransparent/parser.go.rl
@@ -161,6 +161,10 @@ func WithTrailer(t TrailerType) syslog.ParserOption {
 // The generic options uses it.
 func (m *machine) WithBestEffort() {
     m.bestEffort = true
+    // The internal parser does not exist yet when options are applied
+    if m.internal != nil {
+        m.internal.WithBestEffort()
+    }
 }
 
 // WithListener implements the syslog.Parser interface.
diff --git a/octetcounting/parser.go b/octetcounting/parser.go
index c2c3b67..6a0a0de 100644
--- a/octetcounting/parser.go
+++ b/octetcounting/parser.go
@@ -57,6 +57,10 @@ func (p *parser) HasBestEffort() bool {
 // The generic options uses it.
 func (p *parser) WithBestEffort() {
 	p.bestEffort = true
+	// The internal parser does not exist yet when options are applied
+	if p.internal != nil {
+		p.internal.WithBestEffort()
+	}
 }
 
 // WithListener implements the syslog.Parser interface.
-- 
2.43.0


From fb8b538c331a588d7f91d7c85a9cd79549bc0011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:52 +0000
Subject: [PATCH 17/18] fix: rfc5424: String wrote nothing, not even the nil
 value, for structured data without elements

---
 rfc5424/builder.go    | 2 +-
 rfc5424/builder.go.rl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index 1c9ffc0..f7eed49 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9380,7 +9380,7 @@ func (sm *SyslogMessage) String() (string, error) {
 	if sm.MsgID != nil {
 		mid = *sm.MsgID
 	}
-	if sm.StructuredData != nil {
+	if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
 		// Sort element identifiers
 		identifiers := make([]string, 0)
 		for k := range *sm.StructuredData {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index fc0a52a..2c6c1d2 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -283,7 +283,7 @@ func (sm *SyslogMessage) String() (string, error) {
     if sm.MsgID != nil {
         mid = *sm.MsgID
     }
-    if sm.StructuredData != nil {
+    if sm.StructuredData != nil && len(*sm.StructuredData) > 0 {
         // Sort element identifiers
         identifiers := make([]string, 0)
         for k, _ := range *sm.StructuredData {
-- 
2.43.0


From aaa37fd6a1242b44ae62ab90425628a86b4ebc53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 07:06:28 +0000
Subject: [PATCH 18/18] fix: rfc5424: setters panicked on structured data with
 nil maps

---
 rfc5424/builder.go    | 6 +++---
 rfc5424/builder.go.rl | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rfc5424/builder.go b/rfc5424/builder.go
index f7eed49..d3d6ec7 100644
--- a/rfc5424/builder.go
+++ b/rfc5424/builder.go
@@ -9198,13 +9198,13 @@ func (sm *SyslogMessage) setWithin(currentid, currentparamname string, from entr
 
 			case 518, 519, 520, 521, 522, 523, 524, 525, 526, 527, 528, 529, 530, 531, 532, 533, 534, 535, 536, 537, 538, 539, 540, 541, 542, 543, 544, 545, 546, 547, 548, 549:
 
-				if sm.StructuredData == nil {
+				if sm.StructuredData == nil || *sm.StructuredData == nil {
 					sm.StructuredData = &(map[string]map[string]string{})
 				}
 
 				id := string(data[pb:p])
 				elements := *sm.StructuredData
-				if _, ok := elements[id]; !ok {
+				if elements[id] == nil {
 					elements[id] = map[string]string{}
 				}
 
@@ -9334,7 +9334,7 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
 	// We can create parameter iff the given element id exists
 	if sm.StructuredData != nil {
 		elements := *sm.StructuredData
-		if _, ok := elements[id]; ok {
+		if elements[id] != nil {
 			sm.setWithin(id, "", sdpn, name)
 			// We can assign parameter value iff the given parameter key exists
 			if _, ok := elements[id][name]; ok {
diff --git a/rfc5424/builder.go.rl b/rfc5424/builder.go.rl
index 2c6c1d2..54520bc 100644
--- a/rfc5424/builder.go.rl
+++ b/rfc5424/builder.go.rl
@@ -50,13 +50,13 @@ action set_msgid {
 }
 
 action set_sdid {
-    if sm.StructuredData == nil {
+    if sm.StructuredData == nil || *sm.StructuredData == nil {
         sm.StructuredData = &(map[string]map[string]string{})
     }
 
     id := string(data[pb:p])
     elements := *sm.StructuredData
-    if _, ok := elements[id]; !ok {
+    if elements[id] == nil {
         elements[id] = map[string]string{}
     }
 }
@@ -237,7 +237,7 @@ func (sm *SyslogMessage) SetParameter(id string, name string, value string) Buil
     // We can create parameter iff the given element id exists
     if sm.StructuredData != nil {
         elements := *sm.StructuredData
-        if _, ok := elements[id]; ok {
+        if elements[id] != nil {
             sm.setWithin(id, "", sdpn, name)
             // We can assign parameter value iff the given parameter key exists
             if _, ok := elements[id][name]; ok {
-- 
2.43.0

