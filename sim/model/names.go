package model

import (
	"fmt"
	"strings"

	syslog "github.com/influxdata/go-syslog/v3"
)

// Facility and severity names, from RFC 5427 and the documentation.
var (
	facMsg = []string{"kernel messages", "user-level messages", "mail system messages", "system daemons messages", "authorization messages",
		"messages generated internally by syslogd", "line printer subsystem messages", "network news subsystem messages", "UUCP subsystem messages",
		"clock daemon messages", "security/authorization messages", "ftp daemon messages", "NTP subsystem messages", "audit messages",
		"console messages", "clock daemon messages", "local use 0 (local0)", "local use 1 (local1)", "local use 2 (local2)", "local use 3 (local3)",
		"local use 4 (local4)", "local use 5 (local5)", "local use 6 (local6)", "local use 7 (local7)"}
	facKey = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news", "uucp", "cron", "authpriv", "ftp", "ntp", "security",
		"console", "cron2", "local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
	sevMsg = []string{"system is unusable", "action must be taken immediately", "critical conditions", "error conditions", "warning conditions",
		"normal but significant condition", "informational messages", "debug-level messages"}
	sevLvl   = []string{"emergency", "alert", "critical", "error", "warning", "notice", "informational", "debug"}
	sevShort = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}
)

// Names is what a message says about itself in words.
type Names struct {
	Valid bool
	N     [5]*string // FacilityMessage FacilityLevel SeverityMessage SeverityLevel SeverityShortLevel
}

var nameOf = [5]string{"FacilityMessage", "FacilityLevel", "SeverityMessage", "SeverityLevel", "SeverityShortLevel"}

// NamesOf asks a message for its names. With spoil set the strings behind the
// returned pointers are overwritten, as a caller who owns them may.
func NamesOf(m syslog.Message, spoil bool) Names {
	p := [5]*string{m.FacilityMessage(), m.FacilityLevel(), m.SeverityMessage(), m.SeverityLevel(), m.SeverityShortLevel()}
	n := Names{Valid: m.Valid()}
	for i, s := range p {
		n.N[i] = cp(s)
	}
	if spoil {
		for _, s := range p {
			if s != nil {
				*s = "overwritten"
			}
		}
	}
	return n
}

// CheckNames tells what is wrong with the names of a message, or "".
func CheckNames(m Msg, n Names) string {
	var d []string
	want := func(i int, v *int, tab []string) {
		g := n.N[i]
		switch {
		case v == nil:
			if g != nil {
				d = append(d, fmt.Sprintf("%s is %q without a priority", nameOf[i], *g))
			}
		case *v >= 0 && *v < len(tab):
			if g == nil {
				d = append(d, nameOf[i]+" is nil")
			} else if *g != tab[*v] && !(i == 1 && *v == 13 && *g == "audit") {
				d = append(d, fmt.Sprintf("%s is %q, want %q", nameOf[i], *g, tab[*v]))
			}
		}
	}
	want(0, m.Fac, facMsg)
	want(1, m.Fac, facKey)
	want(2, m.Sev, sevMsg)
	want(3, m.Sev, sevLvl)
	want(4, m.Sev, sevShort)
	if m.Pri != nil && (m.Fac == nil || m.Sev == nil || *m.Fac != *m.Pri/8 || *m.Sev != *m.Pri%8) {
		d = append(d, "facility and severity are not those of the priority")
	}
	ok := m.Pri != nil && *m.Pri >= 0 && *m.Pri <= 191 && (m.Kind == "3164" || m.Ver >= 1 && m.Ver <= 999)
	if n.Valid != ok {
		d = append(d, fmt.Sprintf("Valid is %v", n.Valid))
	}
	if d == nil {
		return ""
	}
	return fmt.Sprintf("%s: %s", m, strings.Join(d, "; "))
}
