package world

import (
	"fmt"
	"time"

	"verifsim/model"
)

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}

// Stamp is the TIMESTAMP text.
func (f F3164) Stamp() string {
	if f.R3339 != "" {
		return f.R3339
	}
	return fmt.Sprintf("%s %2d %02d:%02d:%02d", months[(f.Mon+11)%12], f.Day, f.H, f.M, f.S)
}

// Valid tells whether these values make an unambiguous RFC 3164 message.
func (f F3164) Valid() bool {
	if f.Pri < 0 || f.Pri > 191 || !model.Graph(f.Host, 255) || string(f.Host) == "-" {
		return false
	}
	if f.R3339 != "" {
		if _, ok := model.ParseTS(f.R3339); !ok || len(f.R3339) > 19 && f.R3339[19] == '.' {
			return false
		}
	} else if f.Mon < 1 || f.Mon > 12 || f.Day < 1 || f.Day > model.DaysIn(2000, f.Mon) || f.H < 0 || f.H > 23 || f.M < 0 || f.M > 59 || f.S < 0 || f.S > 59 {
		return false
	}
	if len(f.Msg) == 0 {
		return false
	}
	for _, c := range f.Msg {
		if c < 32 || c == 127 {
			return false
		}
	}
	if len(f.Tag) == 0 {
		if f.HasC {
			return false
		}
		// must not read as a tag
		for _, c := range f.Msg {
			if c == ':' || c == '[' {
				return false
			}
		}
		return true
	}
	if len(f.Tag) > 32 || string(f.Tag) == "-" {
		return false
	}
	for _, c := range f.Tag {
		if c < 33 || c > 126 || c == ':' || c == '[' {
			return false
		}
	}
	if f.HasC {
		if len(f.Content) == 0 || string(f.Content) == "-" {
			return false
		}
		for _, c := range f.Content {
			if c < 32 || c > 126 || c == ']' {
				return false
			}
		}
	}
	return true
}

// Wire is the text the sender writes.
func (f F3164) Wire() []byte {
	o := []byte(fmt.Sprintf("<%d>%s ", f.Pri, f.Stamp()))
	o = append(append(o, f.Host...), ' ')
	if len(f.Tag) > 0 {
		o = append(o, f.Tag...)
		if f.HasC {
			o = append(append(append(o, '['), f.Content...), ']')
		}
		o = append(o, ':', ' ')
	}
	return append(o, f.Msg...)
}

// Want is the message that must come out when the timestamp takes the given
// year under the given options.
func (f F3164) Want(o Obj, year int) model.Msg {
	pri, fac, sev := f.Pri, f.Pri/8, f.Pri%8
	s := func(b B) *string {
		if len(b) == 0 {
			return nil
		}
		t := string(b)
		return &t
	}
	m := model.Msg{Kind: "3164", Pri: &pri, Fac: &fac, Sev: &sev, Host: s(f.Host), App: s(f.Tag), Proc: s(f.Content), Text: s(f.Msg)}
	if !f.HasC {
		m.Proc = nil
	}
	if f.R3339 != "" {
		i, _ := model.ParseTS(f.R3339)
		m.TS = &i
		return m
	}
	loc := Zone(o.TZ)
	if loc == nil {
		loc = time.UTC
	}
	t := time.Date(year, time.Month(f.Mon), f.Day, f.H, f.M, f.S, 0, loc)
	if l := Zone(o.Loc); l != nil {
		t = t.In(l)
	}
	i := model.InstOf(t)
	m.TS = &i
	return m
}

// F3164Gen draws a valid RFC 3164 message.
func (r *Rand) F3164Gen(r3339 bool) F3164 {
	if r.last3 != nil && r.P(15) && (r.last3.R3339 != "") == r3339 {
		f := *r.last3
		f.Host, f.Tag, f.Content, f.Msg = cloneB(f.Host), cloneB(f.Tag), cloneB(f.Content), cloneB(f.Msg)
		for n := r.PickI(0, 1, 1, 2); n > 0; n-- {
			switch r.N(7) {
			case 0:
				f.Host = r.near(f.Host, 255)
			case 1:
				f.Tag = r.near(f.Tag, 32)
			case 2:
				f.Content = r.chars("0123456789", r.In(1, 7))
				f.HasC = len(f.Tag) > 0
			case 3:
				f.HasC, f.Content = false, nil
			case 4:
				if r3339 {
					f.R3339 = f.R3339[:19] + r.Pick("Z", "+00:00", "-00:00", "+01:00", "-01:00", "+05:30")
				} else {
					f.Mon, f.Day = r.In(1, 12), r.In(1, 28)
				}
			case 5:
				f.Pri = r.In(0, 191)
			default:
				f.Msg = append(f.Msg, "x"...)
			}
		}
		if f.Valid() {
			r.last3 = &f
			return f
		}
	}
	f := r.f3164Gen(r3339)
	r.last3 = &f
	return f
}

func (r *Rand) f3164Gen(r3339 bool) F3164 {
	for {
		f := F3164{Pri: r.In(0, 191), Mon: r.In(1, 12), H: r.In(0, 23), M: r.In(0, 59), S: r.In(0, 59)}
		if len(Dict.Ints) > 0 && r.P(10) {
			f.Pri, f.Mon, f.H, f.M, f.S = r.or(30, 0, 191, f.Pri), r.or(40, 1, 12, f.Mon), r.or(30, 0, 23, f.H), r.or(30, 0, 59, f.M), r.or(30, 0, 59, f.S)
		}
		f.Day = r.or(5, 1, model.DaysIn(2001, f.Mon), r.In(1, model.DaysIn(2001, f.Mon)))
		if r.P(25) { // around the end of the year
			if r.P(50) {
				f.Mon, f.Day, f.H, f.M, f.S = 12, 31, 23, 59, r.In(0, 59)
			} else {
				f.Mon, f.Day, f.H, f.M, f.S = 1, 1, 0, 0, r.In(0, 59)*r.PickI(0, 1, 1)
			}
		}
		if r3339 {
			for {
				f.R3339 = r.TS()
				if f.R3339[19] != '.' {
					break
				}
			}
			f.Mon, f.Day, f.H, f.M, f.S = 0, 0, 0, 0, 0
		}
		f.Host = r.chars(printable, r.Len(255))
		if r.P(60) {
			f.Host = r.chars(plainch, r.In(1, 16))
		}
		f.Host = r.splice(8, f.Host, func(b B) bool { return model.Graph(b, 255) && string(b) != "-" })
		if r.P(70) {
			f.Tag = r.chars("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_./(){}<>]@", r.Len(32))
			if r.P(40) {
				f.Tag = B(r.Pick("su", "sshd", "postfix/smtpd", "CRON", "kernel", "my-app_1.2"))
			}
			f.Tag = r.splice(8, f.Tag, nil)
			if r.P(60) {
				f.HasC = true
				f.Content = r.chars("0123456789", r.In(1, 7))
				if r.P(30) {
					f.Content = r.chars("abc019-./: [", r.or(10, 1, 300, r.In(1, 60)))
				}
				f.Content = r.splice(6, f.Content, nil)
			}
		}
		switch r.W(40, 30, 30) {
		case 0:
			f.Msg = B(words[r.N(len(words))])
		case 1:
			f.Msg = r.chars(printable+" ", r.In(1, 120))
			if r.P(5) {
				f.Msg = r.chars(printable+" ", r.PickI(255, 256, 257, 1000, 1024, 1025, 2100))
			}
		default:
			n := r.In(1, 60)
			f.Msg = make([]byte, n)
			for i := range f.Msg {
				f.Msg[i] = byte(r.In(32, 255))
			}
		}
		if n, ok := r.hint(4, 1, 5000); ok {
			f.Msg = r.chars(printable+" ", n)
		}
		f.Msg = r.splice(8, f.Msg, nil)
		if len(f.Tag) == 0 {
			for i, c := range f.Msg {
				if c == ':' || c == '[' {
					f.Msg[i] = '_'
				}
			}
		}
		if f.Valid() {
			return f
		}
	}
}
