package model

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Param is one structured data parameter, with the value unescaped.
type Param struct {
	N B `json:"n"`
	V B `json:"v"`
}

// Elem is one structured data element.
type Elem struct {
	ID B       `json:"id"`
	P  []Param `json:"p,omitempty"`
}

// Fields is what a sender wants to say in an RFC 5424 message. Empty header
// fields are nil values.
type Fields struct {
	Pri  int    `json:"pri"`
	Ver  int    `json:"ver"`
	TS   string `json:"ts,omitempty"`
	Host B      `json:"host,omitempty"`
	App  B      `json:"app,omitempty"`
	Proc B      `json:"proc,omitempty"`
	MID  B      `json:"mid,omitempty"`
	SD   []Elem `json:"sd,omitempty"`
	Msg  B      `json:"msg,omitempty"`
}

// Graph tells whether b is 1..max printable US-ASCII characters without space.
func Graph(b []byte, max int) bool {
	if len(b) < 1 || len(b) > max {
		return false
	}
	for _, c := range b {
		if c < 33 || c > 126 {
			return false
		}
	}
	return true
}

// SDName is the grammar of SD-IDs and PARAM-NAMEs.
func SDName(b []byte) bool {
	if !Graph(b, 32) {
		return false
	}
	for _, c := range b {
		if c == '=' || c == ']' || c == '"' {
			return false
		}
	}
	return true
}

// Valid tells whether the grammar allows these values (a value "-" would read
// back as nil, so it is excluded).
func (f Fields) Valid() bool {
	if f.Pri < 0 || f.Pri > 191 || f.Ver < 1 || f.Ver > 999 {
		return false
	}
	if f.TS != "" {
		if _, ok := ParseTS(f.TS); !ok {
			return false
		}
	}
	hdr := func(b B, max int) bool { return len(b) == 0 || (Graph(b, max) && string(b) != "-") }
	if !hdr(f.Host, 255) || !hdr(f.App, 48) || !hdr(f.Proc, 128) || !hdr(f.MID, 32) {
		return false
	}
	ids := map[string]bool{}
	for _, e := range f.SD {
		if !SDName(e.ID) || ids[string(e.ID)] {
			return false
		}
		ids[string(e.ID)] = true
		ns := map[string]bool{}
		for _, p := range e.P {
			if !SDName(p.N) || ns[string(p.N)] || !utf8.Valid(p.V) {
				return false
			}
			ns[string(p.N)] = true
		}
	}
	return true
}

// Escape escapes a parameter value.
func Escape(v []byte) []byte {
	var o []byte
	for _, c := range v {
		if c == '"' || c == '\\' || c == ']' {
			o = append(o, '\\')
		}
		o = append(o, c)
	}
	return o
}

func nilv(b B) []byte {
	if len(b) == 0 {
		return []byte("-")
	}
	return b
}

// Wire is the RFC 5424 text a sender (not the builder) writes: elements and
// parameters in the given order.
func (f Fields) Wire() []byte {
	var o []byte
	ts := f.TS
	if ts == "" {
		ts = "-"
	}
	o = append(o, fmt.Sprintf("<%d>%d %s ", f.Pri, f.Ver, ts)...)
	o = append(append(o, nilv(f.Host)...), ' ')
	o = append(append(o, nilv(f.App)...), ' ')
	o = append(append(o, nilv(f.Proc)...), ' ')
	o = append(append(o, nilv(f.MID)...), ' ')
	if len(f.SD) == 0 {
		o = append(o, '-')
	}
	for _, e := range f.SD {
		o = append(append(o, '['), e.ID...)
		for _, p := range e.P {
			o = append(append(append(append(append(o, ' '), p.N...), '=', '"'), Escape(p.V)...), '"')
		}
		o = append(o, ']')
	}
	if len(f.Msg) > 0 {
		o = append(append(o, ' '), f.Msg...)
	}
	return o
}

// SDMap is the structured data as a map.
func (f Fields) SDMap() map[string]map[string]string {
	if len(f.SD) == 0 {
		return nil
	}
	m := map[string]map[string]string{}
	for _, e := range f.SD {
		q := map[string]string{}
		for _, p := range e.P {
			q[string(p.N)] = string(p.V)
		}
		m[string(e.ID)] = q
	}
	return m
}

func sp(b B) *string {
	if len(b) == 0 {
		return nil
	}
	s := string(b)
	return &s
}

// Want is the message these fields must arrive as.
func (f Fields) Want() Msg {
	pri, fac, sev := f.Pri, f.Pri/8, f.Pri%8
	m := Msg{Kind: "5424", Pri: &pri, Fac: &fac, Sev: &sev, Ver: f.Ver,
		Host: sp(f.Host), App: sp(f.App), Proc: sp(f.Proc), MID: sp(f.MID), Text: sp(f.Msg)}
	if f.TS != "" {
		if i, ok := ParseTS(f.TS); ok {
			m.TS = &i
		}
	}
	if len(f.SD) > 0 {
		m.SD, m.SDok = f.SDMap(), true
	}
	return m
}

// ParseTS reads an RFC 5424 TIMESTAMP (without nil value), independently of
// the time package's parser.
func ParseTS(s string) (Inst, bool) {
	var z Inst
	num := func(i, n, lo, hi int) (int, bool) {
		if i+n > len(s) {
			return 0, false
		}
		v := 0
		for _, c := range []byte(s[i : i+n]) {
			if c < '0' || c > '9' {
				return 0, false
			}
			v = v*10 + int(c-'0')
		}
		return v, v >= lo && v <= hi
	}
	lit := func(i int, c byte) bool { return i < len(s) && s[i] == c }
	y, a := num(0, 4, 0, 9999)
	mo, b := num(5, 2, 1, 12)
	d, c := num(8, 2, 1, 31)
	h, e := num(11, 2, 0, 23)
	mi, f := num(14, 2, 0, 59)
	se, g := num(17, 2, 0, 59)
	if !(a && b && c && e && f && g && lit(4, '-') && lit(7, '-') && lit(10, 'T') && lit(13, ':') && lit(16, ':')) {
		return z, false
	}
	if d > DaysIn(y, mo) {
		return z, false
	}
	i := 19
	ns := 0
	if lit(i, '.') {
		i++
		st := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i-st < 1 || i-st > 6 {
			return z, false
		}
		scale := 100000000
		for _, ch := range []byte(s[st:i]) {
			ns += int(ch-'0') * scale
			scale /= 10
		}
	}
	off := 0
	switch {
	case lit(i, 'Z'):
		i++
	case lit(i, '+') || lit(i, '-'):
		oh, a := num(i+1, 2, 0, 23)
		om, b := num(i+4, 2, 0, 59)
		if !a || !b || !lit(i+3, ':') {
			return z, false
		}
		off = oh*3600 + om*60
		if s[i] == '-' {
			off = -off
		}
		i += 6
	default:
		return z, false
	}
	if i != len(s) {
		return z, false
	}
	return Inst{Sec: Epoch(y, mo, d) + int64(h*3600+mi*60+se-off), Nsec: ns, Off: off}, true
}

// Leap tells whether a (proleptic Gregorian) year is a leap year.
func Leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// DaysIn is the number of days of a month.
func DaysIn(y, m int) int {
	switch m {
	case 2:
		if Leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// Epoch is the Unix time of midnight UTC on a date.
func Epoch(y, m, d int) int64 {
	// days from civil (Howard Hinnant's algorithm)
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := (m + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return (int64(era)*146097 + int64(doe) - 719468) * 86400
}

// Diff compares a received message with the wanted one; zone offsets are
// compared only if off is set. It returns "" if they agree.
func Diff(got, want Msg, off bool) string {
	if got.Kind != want.Kind {
		return fmt.Sprintf("got %s, want a message", got.Kind)
	}
	var d []string
	add := func(f, a, b string) {
		if a != b {
			d = append(d, fmt.Sprintf("%s is %s, want %s", f, a, b))
		}
	}
	add("priority", qi(got.Pri), qi(want.Pri))
	add("facility", qi(got.Fac), qi(want.Fac))
	add("severity", qi(got.Sev), qi(want.Sev))
	add("version", fmt.Sprint(got.Ver), fmt.Sprint(want.Ver))
	ts := func(i *Inst) string {
		if i == nil {
			return "-"
		}
		j := *i
		if !off {
			j.Off = 0
		}
		return j.String()
	}
	add("timestamp", ts(got.TS), ts(want.TS))
	add("hostname", qs(got.Host), qs(want.Host))
	add("appname", qs(got.App), qs(want.App))
	add("procid", qs(got.Proc), qs(want.Proc))
	add("msgid", qs(got.MID), qs(want.MID))
	add("structured data", fmt.Sprint(got.SDok)+SDString(got.SD), fmt.Sprint(want.SDok)+SDString(want.SD))
	add("message", qs(got.Text), qs(want.Text))
	return strings.Join(d, "; ")
}

// Serialize is the reference serialisation of field values: elements and
// parameter names sorted. ts is the text of the timestamp or "-".
func Serialize(pri, ver int, ts string, host, app, proc, mid *string, sd map[string]map[string]string, sdok bool, text *string) string {
	v := func(p *string) string {
		if p == nil {
			return "-"
		}
		return *p
	}
	var b strings.Builder
	fmt.Fprintf(&b, "<%d>%d %s %s %s %s %s ", pri, ver, ts, v(host), v(app), v(proc), v(mid))
	if !sdok || len(sd) == 0 {
		b.WriteString("-")
	} else {
		ids := keys(sd)
		sort.Strings(ids)
		for _, id := range ids {
			b.WriteString("[" + id)
			for _, n := range keys(sd[id]) {
				b.WriteString(" " + n + `="` + string(Escape([]byte(sd[id][n]))) + `"`)
			}
			b.WriteString("]")
		}
	}
	if text != nil {
		b.WriteString(" " + *text)
	}
	return b.String()
}
