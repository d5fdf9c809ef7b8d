package model

import "unicode/utf8"

// Ref is what the reference recogniser says about RFC 5424 bytes.
type Ref struct {
	OK    bool // the bytes conform
	Why   string
	At    int                            // when not OK: how many bytes can still start conforming bytes
	Want  Msg                            // the values they spell (when OK)
	Multi map[string]map[string][]string // every value given for a repeated parameter name
	// Progress, for best effort:
	PriOK   bool   // a complete "<PRIVAL>"
	Pri     int    //
	VerPre  string // the digits of VERSION read (at most three)
	VerOK   bool   // VERSION complete, that is followed by a space or the end
	TSTail  *Inst  // a complete timestamp that is followed by something wrong
	HasTS   bool
	TS      *Inst
	HasHost bool
	Host    *string
	HasApp  bool
	App     *string
	HasProc bool
	Proc    *string
	HasMID  bool
	MID     *string
}

// Recognise is a direct reading of RFC 5424's grammar as the README and the
// grammar files of go-syslog narrow it (timestamps with at most six fraction
// digits, offsets up to 23:59, a message of arbitrary bytes).
func Recognise(in []byte, compliant bool) (r Ref) {
	p := 0
	fail := func(why string) Ref { r.OK, r.Why, r.At = false, why, p; return r }
	at := func(c byte) bool { return p < len(in) && in[p] == c }
	if !at('<') {
		return fail("no <")
	}
	p++
	v, n := 0, 0
	for p < len(in) && in[p] >= '0' && in[p] <= '9' && (n == 0 || v > 0 && v*10+int(in[p]-'0') <= 191) {
		v = v*10 + int(in[p]-'0')
		p++
		n++
	}
	if n == 0 || !at('>') {
		return fail("prival")
	}
	p++
	r.PriOK, r.Pri = true, v
	st := p
	for p < len(in) && p-st < 3 && in[p] >= '0' && in[p] <= '9' && !(p == st && in[p] == '0') {
		p++
	}
	r.VerPre = string(in[st:p])
	if p == st {
		return fail("version")
	}
	r.VerOK = p == len(in) || in[p] == ' '
	if !at(' ') {
		return fail("after version")
	}
	p++
	word := func() []byte {
		s := p
		for p < len(in) && in[p] != ' ' {
			p++
		}
		return in[s:p]
	}
	// TIMESTAMP
	w := word()
	if string(w) != "-" {
		i, ok := ParseTS(string(w))
		if !ok || !at(' ') {
			for n := len(w); n >= 20; n-- {
				if n > 32 {
					n = 32
				}
				if j, ok := ParseTS(string(w[:n])); ok {
					r.TSTail = &j
					break
				}
			}
			p -= len(w)
			p += viableTS(in[p:])
			return fail("timestamp")
		}
		r.TS = &i
	}
	if !at(' ') {
		return fail("after timestamp")
	}
	p++
	r.HasTS = true
	hdr := func(max int) (*string, bool) {
		st := p
		for p < len(in) && p-st < max && in[p] > 32 && in[p] < 127 {
			p++
		}
		w := in[st:p]
		if len(w) == 0 || !at(' ') {
			return nil, false
		}
		p++
		if string(w) == "-" {
			return nil, true
		}
		s := string(w)
		return &s, true
	}
	if r.Host, r.HasHost = hdr(255); !r.HasHost {
		return fail("hostname")
	}
	if r.App, r.HasApp = hdr(48); !r.HasApp {
		return fail("appname")
	}
	if r.Proc, r.HasProc = hdr(128); !r.HasProc {
		return fail("procid")
	}
	if r.MID, r.HasMID = hdr(32); !r.HasMID {
		return fail("msgid")
	}
	// STRUCTURED-DATA
	var sd map[string]map[string]string
	multi := map[string]map[string][]string{}
	if at('-') {
		p++
	} else {
		if !at('[') {
			return fail("structured data")
		}
		sd = map[string]map[string]string{}
		for at('[') {
			p++
			name := func() (string, bool) {
				s := p
				for p < len(in) && p-s < 33 && in[p] > 32 && in[p] < 127 && in[p] != '=' && in[p] != ']' && in[p] != '"' {
					p++
				}
				if p-s == 33 {
					p--
					return "", false
				}
				return string(in[s:p]), p-s >= 1
			}
			id, ok := name()
			if !ok {
				return fail("sd-id")
			}
			if _, dup := sd[id]; dup {
				return fail("duplicate sd-id")
			}
			sd[id] = map[string]string{}
			multi[id] = map[string][]string{}
			for at(' ') {
				p++
				n, ok := name()
				if !ok || !at('=') {
					return fail("param name")
				}
				p++
				if !at('"') {
					return fail("param quote")
				}
				p++
				var val []byte
				for {
					if p >= len(in) {
						return fail("param value")
					}
					c := in[p]
					if c == '"' {
						p++
						break
					}
					if c == ']' {
						return fail("unescaped ]")
					}
					if c == '\\' {
						if p+1 >= len(in) || (in[p+1] != '"' && in[p+1] != '\\' && in[p+1] != ']') {
							p++
							return fail("escape")
						}
						val = append(val, in[p+1])
						p += 2
						continue
					}
					ru, n := utf8.DecodeRune(in[p:])
					if ru == utf8.RuneError && n <= 1 {
						p += viableRune(in[p:])
						return fail("utf-8 in param value")
					}
					val = append(val, in[p:p+n]...)
					p += n
				}
				sd[id][n] = string(val)
				multi[id][n] = append(multi[id][n], string(val))
			}
			if !at(']') {
				return fail("end of element")
			}
			p++
		}
	}
	var text *string
	if p < len(in) {
		if !at(' ') {
			return fail("after structured data")
		}
		p++
		m := in[p:]
		if compliant && len(m) >= 3 && m[0] == 0xEF && m[1] == 0xBB && m[2] == 0xBF && !utf8.Valid(m) {
			for p < len(in) {
				ru, n := utf8.DecodeRune(in[p:])
				if ru == utf8.RuneError && n <= 1 {
					p += viableRune(in[p:])
					break
				}
				p += n
			}
			return fail("BOM message not UTF-8")
		}
		if len(m) > 0 {
			s := string(m)
			text = &s
		}
	}
	r.OK = true
	ver := 0
	for _, c := range []byte(r.VerPre) {
		ver = ver*10 + int(c-'0')
	}
	pri, fac, sev := r.Pri, r.Pri/8, r.Pri%8
	r.Want = Msg{Kind: "5424", Pri: &pri, Fac: &fac, Sev: &sev, Ver: ver, TS: r.TS, Host: r.Host, App: r.App, Proc: r.Proc, MID: r.MID, Text: text}
	if sd != nil {
		r.Want.SD, r.Want.SDok = sd, true
	}
	r.Multi = multi
	return r
}

// viableRune is how many bytes at the start of b can still start a character.
func viableRune(b []byte) int {
	for n := 1; n < 4 && n <= len(b); n++ {
		ok := false
		for c := 0x80; c <= 0xBF && !ok; c++ {
			for _, tail := range []string{"", "\x80", "\x80\x80"} {
				x := append(append(append([]byte(nil), b[:n]...), byte(c)), tail...)
				ru, k := utf8.DecodeRune(x)
				if k == len(x) && (ru != utf8.RuneError || k == 3) {
					ok = true
				}
			}
		}
		if !ok {
			return n - 1
		}
	}
	return min(len(b), 3)
}

// viableTS is how many bytes at the start of b can still start a TIMESTAMP. A
// day that its month does not have shows at the end.
func viableTS(b []byte) int {
	if len(b) > 0 && b[0] == '-' {
		return 1
	}
	p := 0
	set := func(lo, hi byte) bool {
		if p < len(b) && b[p] >= lo && b[p] <= hi {
			p++
			return true
		}
		return false
	}
	num := func(ranges ...string) bool { // one of the ranges "abcd": [a-b][c-d]
		st := p
		for _, r := range ranges {
			p = st
			if set(r[0], r[1]) {
				return set(r[2], r[3])
			}
		}
		return false
	}
	for i := 0; i < 4; i++ {
		if !set('0', '9') {
			return p
		}
	}
	if !set('-', '-') || !num("0019", "1102") || !set('-', '-') || !num("0019", "1209", "3301") || !set('T', 'T') ||
		!num("0109", "2203") || !set(':', ':') || !num("0509") || !set(':', ':') || !num("0509") {
		return p
	}
	if set('.', '.') {
		n := 0
		for n < 6 && set('0', '9') {
			n++
		}
		if n == 0 {
			return p
		}
	}
	if set('Z', 'Z') || !set('+', '+') && !set('-', '-') {
		return p
	}
	if num("0109", "2203") && set(':', ':') {
		num("0509")
	}
	return p
}
