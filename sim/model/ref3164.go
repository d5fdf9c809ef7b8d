package model

// Ref3164 is what the reference recogniser says about RFC 3164 bytes.
type Ref3164 struct {
	OK   bool // the bytes conform
	Open bool // conforming or not is left open (control characters in the content)
	Why  string
	At   int // when not OK: how many bytes can still start a conforming text

	PriOK  bool // a complete "<PRIVAL>"
	Pri    int
	HasTS  bool // a complete timestamp and the space after it
	TSText bool // a complete timestamp, followed by something wrong or nothing
	R3339  string
	Mon    int
	Day    int
	H      int
	M      int
	S      int
	HasH   bool // a complete hostname and the space after it
	Host   string

	// Of a conforming text:
	Rest    string // what follows the hostname
	Split   bool   // whether the split into the following three is unambiguous
	Tag     *string
	Content *string
	Text    string
}

// Recognise3164 is a direct reading of RFC 3164's format as the README and the
// grammar files of go-syslog narrow it: "<PRI>Mmm dd hh:mm:ss HOST MSG", or an
// RFC 3339 timestamp without a fraction when rfc3339 is set, where MSG is
// "TAG: TEXT", "TAG[CONTENT]: TEXT" or TEXT.
func Recognise3164(in []byte, rfc3339 bool) (r Ref3164) {
	p := 0
	at := func(c byte) bool { return p < len(in) && in[p] == c }
	fail := func(why string) Ref3164 { r.OK, r.Why, r.At = false, why, p; return r }
	if !at('<') {
		return fail("no <")
	}
	p++
	v, n := 0, 0
	for p < len(in) && in[p] >= '0' && in[p] <= '9' && (n == 0 || v > 0 && v*10+int(in[p]-'0') <= 191) {
		v = v*10 + int(in[p]-'0')
		p++
		n++
	}
	if n == 0 || !at('>') {
		return fail("prival")
	}
	p++
	r.PriOK, r.Pri = true, v
	// TIMESTAMP
	d := func(lo, hi byte) bool {
		if p < len(in) && in[p] >= lo && in[p] <= hi {
			p++
			return true
		}
		return false
	}
	two := func(st int) int { return int(in[st]-'0')*10 + int(in[st+1]-'0') }
	hms := func() bool {
		st := p
		if d('0', '1') {
			if !d('0', '9') {
				return false
			}
		} else if !d('2', '2') || !d('0', '3') {
			return false
		}
		if !d(':', ':') || !d('0', '5') || !d('0', '9') || !d(':', ':') || !d('0', '5') || !d('0', '9') {
			return false
		}
		r.H, r.M, r.S = two(st), two(st+3), two(st+6)
		return true
	}
	valid := true
	if rfc3339 && p < len(in) && in[p] >= '0' && in[p] <= '9' {
		st := p
		for i := 0; i < 4; i++ {
			if !d('0', '9') {
				return fail("timestamp")
			}
		}
		if !d('-', '-') {
			return fail("timestamp")
		}
		if d('0', '0') {
			if !d('1', '9') {
				return fail("timestamp")
			}
		} else if !d('1', '1') || !d('0', '2') {
			return fail("timestamp")
		}
		if !d('-', '-') {
			return fail("timestamp")
		}
		switch {
		case d('0', '0'):
			if !d('1', '9') {
				return fail("timestamp")
			}
		case d('1', '2'):
			if !d('0', '9') {
				return fail("timestamp")
			}
		default:
			if !d('3', '3') || !d('0', '1') {
				return fail("timestamp")
			}
		}
		if !d('T', 'T') || !hms() {
			return fail("timestamp")
		}
		if !d('Z', 'Z') {
			if !d('+', '+') && !d('-', '-') {
				return fail("timestamp")
			}
			if d('0', '1') {
				if !d('0', '9') {
					return fail("timestamp")
				}
			} else if !d('2', '2') || !d('0', '3') {
				return fail("timestamp")
			}
			if !d(':', ':') || !d('0', '5') || !d('0', '9') {
				return fail("timestamp")
			}
		}
		r.R3339 = string(in[st:p])
		_, valid = ParseTS(r.R3339)
	} else {
		// the longest way into one of the month names
		best := 0
		for i, m := range []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"} {
			k := 0
			for k < 3 && p+k < len(in) && in[p+k] == m[k] {
				k++
			}
			if k > best {
				best = k
			}
			if k == 3 {
				r.Mon = i + 1
			}
		}
		p += best
		if best < 3 || !d(' ', ' ') {
			return fail("timestamp")
		}
		switch {
		case d(' ', ' '):
			if !d('1', '9') {
				return fail("timestamp")
			}
			r.Day = int(in[p-1] - '0')
		case d('1', '2'):
			if !d('0', '9') {
				return fail("timestamp")
			}
			r.Day = two(p - 2)
		default:
			if !d('3', '3') || !d('0', '1') {
				return fail("timestamp")
			}
			r.Day = two(p - 2)
		}
		if !d(' ', ' ') || !hms() {
			return fail("timestamp")
		}
		valid = r.Day <= DaysIn(2000, r.Mon)
	}
	if !valid {
		return fail("a day the month does not have")
	}
	r.TSText = true
	if !at(' ') {
		return fail("after timestamp")
	}
	p++
	r.HasTS = true
	st := p
	for p < len(in) && p-st < 255 && in[p] > 32 && in[p] < 127 {
		p++
	}
	if p == st || !at(' ') {
		return fail("hostname")
	}
	r.Host, r.HasH = string(in[st:p]), true
	p++
	// MSG
	rest := in[p:]
	r.Rest = string(rest)
	if len(rest) == 0 {
		return fail("no message")
	}
	visible := func(b []byte) int {
		for i, c := range b {
			if c < 32 || c == 127 {
				return i
			}
		}
		return len(b)
	}
	n = 0
	for n < len(rest) && n < 32 && rest[n] > 32 && rest[n] < 127 && rest[n] != ':' && rest[n] != '[' {
		n++
	}
	if n > 0 && n+1 < len(rest) && rest[n] == ':' && rest[n+1] == ' ' {
		// TAG: TEXT
		text := rest[n+2:]
		if len(text) == 0 {
			r.OK, r.Open = true, false // "TAG: " alone reads as a text
			r.Text = r.Rest
			return r
		}
		if k := visible(text); k < len(text) {
			p += n + 2 + k
			return fail("a control character in the message")
		}
		t := string(rest[:n])
		r.OK, r.Split, r.Tag, r.Text = true, true, &t, string(text)
		return r
	}
	if n > 0 && n < len(rest) && rest[n] == '[' {
		for i := n + 1; i+2 < len(rest); i++ {
			if rest[i] != ']' || rest[i+1] != ':' || rest[i+2] != ' ' {
				continue
			}
			c := rest[n+1 : i]
			text := rest[i+3:]
			k := visible(text)
			for _, x := range c {
				if x < 32 || x > 126 {
					r.Open = true
				}
			}
			if len(text) == 0 {
				if visible(c) < len(c) {
					break
				}
				r.OK, r.Text = true, r.Rest
				return r
			}
			if k < len(text) {
				p += i + 3 + k
				return fail("a control character in the message")
			}
			t, cs := string(rest[:n]), string(c)
			r.OK, r.Split, r.Tag, r.Content, r.Text = true, true, &t, &cs, string(text)
			return r
		}
		if k := visible(rest); k < len(rest) {
			// the content has not ended: left open where it fails
			r.Open = true
			p += k
			return fail("a control character, or an unfinished content")
		}
	}
	if k := visible(rest); k < len(rest) {
		p += k
		return fail("a control character in the message")
	}
	r.OK, r.Text = true, r.Rest
	// without a colon or bracket right after the first word nothing may read as a tag
	r.Split = n >= len(rest) || n == 0 || n == 32 && rest[n] != ':' && rest[n] != '[' || rest[n] != ':' && rest[n] != '['
	return r
}
