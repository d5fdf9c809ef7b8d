package model

import (
	"fmt"
	"sort"
	"strings"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"
)

// Inst is an instant with its zone offset.
type Inst struct {
	Sec  int64
	Nsec int
	Off  int
}

func (i Inst) String() string { return fmt.Sprintf("%d.%09d%+d", i.Sec, i.Nsec, i.Off) }

// SameInstant compares without the zone.
func (i Inst) SameInstant(j Inst) bool { return i.Sec == j.Sec && i.Nsec == j.Nsec }

// Msg is a deep, neutral copy of a parsed message.
type Msg struct {
	Kind string // "nil", "typednil", "5424", "3164", "other"
	Pri  *int
	Fac  *int
	Sev  *int
	Ver  int
	TS   *Inst
	Host *string
	App  *string
	Proc *string
	MID  *string
	Text *string
	SD   map[string]map[string]string
	SDok bool // structured data pointer not nil
}

func ip(p *uint8) *int {
	if p == nil {
		return nil
	}
	v := int(*p)
	return &v
}

// cp copies the bytes of a string, so that the copy does not change if the
// memory behind the original does.
func cp(p *string) *string {
	if p == nil {
		return nil
	}
	s := string(append([]byte(nil), *p...))
	return &s
}

// InstOf is t as an Inst.
func InstOf(t time.Time) Inst {
	_, off := t.Zone()
	return Inst{t.Unix(), t.Nanosecond(), off}
}

// Snap copies a message.
func Snap(m syslog.Message) Msg {
	base := func(b *syslog.Base, kind string) Msg {
		o := Msg{Kind: kind, Pri: ip(b.Priority), Fac: ip(b.Facility), Sev: ip(b.Severity),
			Host: cp(b.Hostname), App: cp(b.Appname), Proc: cp(b.ProcID), MID: cp(b.MsgID), Text: cp(b.Message)}
		if b.Timestamp != nil {
			i := InstOf(*b.Timestamp)
			o.TS = &i
		}
		return o
	}
	switch t := m.(type) {
	case nil:
		return Msg{Kind: "nil"}
	case *rfc5424.SyslogMessage:
		if t == nil {
			return Msg{Kind: "typednil"}
		}
		o := base(&t.Base, "5424")
		o.Ver = int(t.Version)
		if t.StructuredData != nil {
			o.SDok = true
			o.SD = map[string]map[string]string{}
			for id, ps := range *t.StructuredData {
				q := map[string]string{}
				for n, v := range ps {
					q[*cp(&n)] = *cp(&v)
				}
				o.SD[*cp(&id)] = q
			}
		}
		return o
	case *rfc3164.SyslogMessage:
		if t == nil {
			return Msg{Kind: "typednil"}
		}
		return base(&t.Base, "3164")
	default:
		return Msg{Kind: "other"}
	}
}

func qs(p *string) string {
	if p == nil {
		return "-"
	}
	if len(*p) > 400 {
		h := uint64(1469598103934665603)
		for i := 0; i < len(*p); i++ {
			h = (h ^ uint64((*p)[i])) * 1099511628211
		}
		return fmt.Sprintf("%q...(%d bytes, hash %x)", (*p)[:60], len(*p), h)
	}
	return fmt.Sprintf("%q", *p)
}

func qi(p *int) string {
	if p == nil {
		return "-"
	}
	return fmt.Sprint(*p)
}

// String is a canonical rendering: equal messages render equally.
func (m Msg) String() string {
	if m.Kind == "nil" || m.Kind == "typednil" || m.Kind == "other" {
		return m.Kind
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s{pri=%s fac=%s sev=%s", m.Kind, qi(m.Pri), qi(m.Fac), qi(m.Sev))
	if m.Kind == "5424" {
		fmt.Fprintf(&b, " ver=%d", m.Ver)
	}
	if m.TS != nil {
		fmt.Fprintf(&b, " ts=%s", m.TS)
	}
	if m.Host != nil {
		fmt.Fprintf(&b, " host=%s", qs(m.Host))
	}
	if m.App != nil {
		fmt.Fprintf(&b, " app=%s", qs(m.App))
	}
	if m.Proc != nil {
		fmt.Fprintf(&b, " proc=%s", qs(m.Proc))
	}
	if m.MID != nil {
		fmt.Fprintf(&b, " msgid=%s", qs(m.MID))
	}
	if m.SDok {
		b.WriteString(" sd=" + SDString(m.SD))
	}
	if m.Text != nil {
		fmt.Fprintf(&b, " msg=%s", qs(m.Text))
	}
	b.WriteString("}")
	return b.String()
}

// SDString renders structured data canonically.
func SDString(sd map[string]map[string]string) string {
	var b strings.Builder
	b.WriteString("(")
	for _, id := range keys(sd) {
		fmt.Fprintf(&b, "[%q", id)
		for _, n := range keys(sd[id]) {
			fmt.Fprintf(&b, " %q=%q", n, sd[id][n])
		}
		b.WriteString("]")
	}
	b.WriteString(")")
	return b.String()
}

func keys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ErrText renders an error.
func ErrText(e error) string {
	if e == nil {
		return "<nil>"
	}
	return e.Error()
}
