package model

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Set is one setter call on a message under construction.
type Set struct {
	M       string
	A, N, V []byte
	I       int
}

func (s Set) String() string {
	switch s.M {
	case "pri", "ver":
		return fmt.Sprintf("%s(%d)", s.M, s.I)
	case "par":
		return fmt.Sprintf("par(%s, %s, %s)", Short(s.A, 60), Short(s.N, 60), Short(s.V, 100))
	}
	return fmt.Sprintf("%s(%s)", s.M, Short(s.A, 100))
}

// ParamValue reads the text of a parameter value as a caller writes it, with
// quotes, backslashes and closing brackets escaped.
func ParamValue(b []byte) (string, bool) {
	if !utf8.Valid(b) {
		return "", false
	}
	var o []byte
	for i := 0; i < len(b); i++ {
		switch b[i] {
		case '"', ']':
			return "", false
		case '\\':
			i++
			if i == len(b) || (b[i] != '"' && b[i] != ']' && b[i] != '\\') {
				return "", false
			}
		}
		o = append(o, b[i])
	}
	return string(o), true
}

func cloneSD(m Msg) Msg {
	sd := map[string]map[string]string{}
	for id, ps := range m.SD {
		q := map[string]string{}
		for n, v := range ps {
			q[n] = v
		}
		sd[id] = q
	}
	m.SD, m.SDok = sd, true
	return m
}

// Next is the messages that may result from a setter call on a message. One
// that changes nothing, or the part it names to the value given, is the rule;
// what is left open is what SetParameter does when its element or parameter
// exists, or when only some of its arguments are valid.
func (s Set) Next(m Msg) []Msg {
	str := func(p **string, max int) []Msg {
		if Graph(s.A, max) && string(s.A) != "-" {
			v := string(s.A)
			*p = &v
		}
		return []Msg{m}
	}
	switch s.M {
	case "pri":
		if s.I >= 0 && s.I <= 191 {
			pri, fac, sev := s.I, s.I/8, s.I%8
			m.Pri, m.Fac, m.Sev = &pri, &fac, &sev
		}
	case "ver":
		if s.I >= 1 && s.I <= 999 {
			m.Ver = s.I
		}
	case "ts":
		if t, ok := ParseTS(string(s.A)); ok {
			m.TS = &t
		}
	case "host":
		return str(&m.Host, 255)
	case "app":
		return str(&m.App, 48)
	case "proc":
		return str(&m.Proc, 128)
	case "mid":
		return str(&m.MID, 32)
	case "msg":
		if len(s.A) > 0 {
			v := string(s.A)
			m.Text = &v
		}
	case "eid":
		if SDName(s.A) {
			m = cloneSD(m)
			if _, ok := m.SD[string(s.A)]; !ok {
				m.SD[string(s.A)] = map[string]string{}
			}
		}
	case "par":
		if !SDName(s.A) {
			return []Msg{m}
		}
		id, n := string(s.A), string(s.N)
		with := cloneSD(m)
		if _, ok := with.SD[id]; !ok {
			with.SD[id] = map[string]string{}
		}
		val, ok := ParamValue(s.V)
		old, has := with.SD[id][n]
		if !SDName(s.N) {
			return []Msg{m, with}
		}
		set := func(v string) Msg {
			x := cloneSD(with)
			x.SD[id][n] = v
			return x
		}
		switch {
		case ok && has:
			return []Msg{set(val), set(old)}
		case ok:
			return []Msg{set(val)}
		case has:
			return []Msg{m}
		}
		return []Msg{m, with, set("")}
	}
	return []Msg{m}
}

// CheckSet tells what is wrong with the result of a setter call, or "".
func CheckSet(before Msg, s Set, after Msg) string {
	var d []string
	for _, w := range s.Next(before) {
		x := Diff(after, w, true)
		if x == "" {
			return ""
		}
		d = append(d, x)
	}
	return fmt.Sprintf("%s on %s: %s", s, before, strings.Join(d, "; or "))
}
