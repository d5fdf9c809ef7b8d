package world

import (
	"regexp"
	"strconv"
	"strings"

	"verifsim/model"
)

var colRE = regexp.MustCompile(`\[col (\d+)\]$`)

// column is the column an error names, or -1.
func column(e string) int {
	m := colRE.FindStringSubmatch(e)
	if m == nil {
		return -1
	}
	n, err := strconv.Atoi(m[1])
	if err != nil {
		return -1
	}
	return n
}

// where5424 checks where an error says that RFC 5424 parsing stopped.
func (v *verifier) where5424(o Obj, rec *Rec) {
	if !rec.Res.HasErr {
		return
	}
	r := model.Recognise(rec.In, o.CM)
	if r.OK {
		return
	}
	v.where(rec, r.At, r.Why)
}

func (v *verifier) where3164(o Obj, rec *Rec) {
	if !rec.Res.HasErr {
		return
	}
	r := model.Recognise3164(rec.In, o.R3339)
	if r.OK || r.Open {
		return
	}
	v.where(rec, r.At, r.Why)
}

// parts are words of the errors about the parts of a message that have errors
// of their own.
var parts = map[string][]string{
	"no <":            {"priority"},
	"prival":          {"priority"},
	"version":         {"version"},
	"hostname":        {"hostname"},
	"appname":         {"app-name"},
	"procid":          {"procid"},
	"msgid":           {"msgid"},
	"structured data": {"structured data"},
	"sd-id":           {"structured data element id"},
	"duplicate sd-id": {"duplicate"},
	"param name":      {"structured data parameter"},
	"param quote":     {"structured data parameter"},
	"escape":          {"escaped"},
	"unescaped ]":     {"escaped"},
}

func (v *verifier) where(rec *Rec, at int, why string) {
	for _, w := range parts[why] {
		if !strings.Contains(rec.Res.Err, w) {
			v.add("where", "the error for %s is %q and does not name the part that failed (%s)", model.Short(rec.In, 300), rec.Res.Err, why)
		}
	}
	if c := column(rec.Res.Err); c != at {
		v.add("where", "the error for %s is %q, but the bytes stop conforming at column %d (%s)", model.Short(rec.In, 300), rec.Res.Err, at, why)
	}
}

// ref3164 compares one parse with the reference recogniser.
func (v *verifier) ref3164(o Obj, rec *Rec) {
	r := model.Recognise3164(rec.In, o.R3339)
	m := rec.Res.Msg
	in := model.Short(rec.In, 300)
	if r.Open && rec.Res.HasErr && (r.OK || m.Kind == "nil") {
		return
	}
	pri, fac, sev := r.Pri, r.Pri/8, r.Pri%8
	w := model.Msg{Kind: "3164", Pri: &pri, Fac: &fac, Sev: &sev}
	var ts *model.Inst
	var alts []model.Inst
	if r.TSText {
		f := F3164{Mon: r.Mon, Day: r.Day, H: r.H, M: r.M, S: r.S, R3339: r.R3339}
		for _, y := range stampYears(o, rec) {
			alts = append(alts, *f.Want(o, y).TS)
		}
		ts = &alts[0]
		for i := range alts {
			if m.TS != nil && *m.TS == alts[i] {
				ts = &alts[i]
			}
		}
	}
	dash := func(s string) *string {
		if s == "-" || s == "" {
			return nil
		}
		return &s
	}
	if r.OK {
		if rec.Res.HasErr {
			v.add("ref3164", "conforming bytes %s are rejected: %s", in, rec.Res.Err)
			return
		}
		w.TS, w.Host, w.Text = ts, dash(r.Host), &r.Text
		if r.Split {
			if r.Tag != nil {
				w.App = dash(*r.Tag)
			}
			if r.Content != nil {
				w.Proc = dash(*r.Content)
			}
		} else {
			// how such a text is split is left open, but nothing is invented
			w.App, w.Proc, w.Text = m.App, m.Proc, m.Text
			if m.Text == nil || !strings.HasSuffix(r.Rest, *m.Text) || m.App != nil && !strings.HasPrefix(r.Rest, *m.App) || m.Proc != nil && !strings.Contains(r.Rest, *m.Proc) {
				v.add("ref3164", "conforming bytes %s give %s", in, m)
			}
		}
		if d := model.Diff(m, w, true); d != "" {
			v.add("ref3164", "conforming bytes %s: %s", in, d)
		}
		return
	}
	if !rec.Res.HasErr && r.Open {
		// taken or not is left open, but nothing is invented
		w.TS, w.Host, w.App, w.Proc, w.Text = ts, dash(r.Host), m.App, m.Proc, m.Text
		if m.Text == nil || !strings.HasSuffix(r.Rest, *m.Text) || m.App != nil && !strings.HasPrefix(r.Rest, *m.App) || m.Proc != nil && !strings.Contains(r.Rest, "["+*m.Proc+"]") {
			v.add("ref3164", "bytes %s give %s", in, m)
		}
		if d := model.Diff(m, w, true); d != "" {
			v.add("ref3164", "bytes %s: %s", in, d)
		}
		return
	}
	if !rec.Res.HasErr {
		v.add("ref3164", "bytes that do not conform (%s) are accepted: %s as %s", r.Why, in, m)
		return
	}
	want := o.BE && r.PriOK
	if (m.Kind != "nil") != want {
		v.add("ref3164", "parse of %s (best effort: %v): message %v, want one: %v", in, o.BE, m, want)
		return
	}
	if !want {
		return
	}
	if r.HasTS {
		w.TS = ts
	} else if r.TSText && m.TS != nil {
		w.TS = ts // complete, but followed by something wrong
	}
	if r.HasH {
		w.Host = dash(r.Host)
		w.App, w.Proc, w.Text = m.App, m.Proc, m.Text // left open
		if m.App != nil && !strings.HasPrefix(r.Rest, *m.App) || m.Proc != nil && !strings.Contains(r.Rest, *m.Proc) || m.Text != nil && !strings.Contains(r.Rest, *m.Text) {
			v.add("ref3164", "best effort parse of %s gives %s", in, m)
		}
	}
	if d := model.Diff(m, w, true); d != "" {
		v.add("ref3164", "best effort parse of %s: %s", in, d)
	}
}
