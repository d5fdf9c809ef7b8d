package world

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verifsim/model"
	"verifsim/vsim"
)

// Violation is one broken expectation.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
	Sig  string `json:"sig"` // identifies the call site or history class
	Task int    `json:"task"`
	Op   int    `json:"op"`
}

// RunOut is the outcome of one simulated run.
type RunOut struct {
	V      []Violation
	O      vsim.Outcome
	Steps  int64  // steps of the run itself
	Hash   uint64 // of everything observed
	SimNS  int64
	Checks int64
	Real   bool // non-trivial by the rule of the property
}

type verifier struct {
	e     *Env
	p     *Plan
	out   []Violation
	want  map[string]bool
	cache map[string]*Rec
	task  int
	op    int
	n     int64
	objs  []Obj // the options in force
}

func (v *verifier) add(kind, format string, a ...interface{}) {
	if !v.want[kind] {
		return
	}
	v.out = append(v.out, Violation{Kind: kind, Msg: fmt.Sprintf(format, a...), Sig: kind, Task: v.task, Op: v.op})
}

type hash uint64

func (h *hash) str(s string) {
	x := uint64(*h)
	for i := 0; i < len(s); i++ {
		x = (x ^ uint64(s[i])) * 1099511628211
	}
	*h = hash((x ^ 0xff) * 1099511628211)
}

func (h *hash) num(n int64) { h.str(fmt.Sprint(n)) }

// RunPlan executes a plan and checks the kinds of expectations in want.
func RunPlan(p *Plan, want map[string]bool, st *Stats, arm []uint32) *RunOut {
	time.Local = time.FixedZone("local", p.Clock.Zone)
	e := NewEnv(p, st)
	wall := p.Clock.Start * 1e9
	mk := ""
	vsim.Run(vsim.Config{Strategy: vsim.Strategy{Kind: "rtb"}, WallStart: wall, MapSeed: p.MapSeed}, []func(){func() {
		defer func() {
			if v := recover(); v != nil && !vsim.IsAbort(v) {
				mk = fmt.Sprint(v)
			}
		}()
		vsim.OpBegin(1 << 34)
		e.MakeAll()
		vsim.OpEnd()
	}})
	out := &RunOut{}
	if mk != "" {
		out.V = []Violation{{Kind: "panic", Msg: "making the parsers panicked: " + mk, Sig: "make"}}
		return out
	}
	fs := make([]func(), len(p.Tasks))
	for i := range fs {
		fs[i] = e.Body(i)
	}
	s := p.Sched
	spawned := ""
	vsim.SpawnPanic = func(t int, v interface{}) { spawned = fmt.Sprint(v) }
	if len(fs) > 0 {
		o := vsim.Run(vsim.Config{Strategy: s, Decisions: p.Decs, RunLimit: 1 << 32, WallStart: wall, MapSeed: p.MapSeed, ArmFrom: arm}, fs)
		out.O = o
		out.Steps = o.Steps
		out.SimNS = o.SimTime
		if st != nil && !p.Race && o.Stalls > 0 {
			st.Faults["goroutine stalled"] += o.Stalls
		}
		out.Checks = 0
		if o.Deadlock && want["deadlock"] {
			out.V = append(out.V, Violation{Kind: "deadlock", Msg: fmt.Sprintf("all tasks are blocked: %v", o.Blocked), Sig: "deadlock"})
		}
		if o.RunLimit && want["hang"] {
			out.V = append(out.V, Violation{Kind: "hang", Msg: "the run does not end", Sig: "hang"})
		}
		if spawned != "" && want["panic"] {
			out.V = append(out.V, Violation{Kind: "panic", Msg: "a goroutine of the library panicked: " + spawned, Sig: "panic"})
		}
	}
	vsim.SpawnPanic = func(t int, x interface{}) {
		fmt.Fprintf(os.Stderr, "the oracle panicked: %v\n%s\n", x, debug.Stack())
		os.Exit(3)
	}
	v := &verifier{e: e, p: p, want: want, cache: map[string]*Rec{}}
	vsim.Run(vsim.Config{Strategy: vsim.Strategy{Kind: "rtb"}, WallStart: wall, MapSeed: p.MapSeed ^ 0x5555}, []func(){func() {
		v.all()
	}})
	out.V = append(out.V, v.out...)
	out.Checks = v.n
	out.Hash = v.hash(out.O)
	out.Real = v.interesting(out.O)
	return out
}

func (v *verifier) hash(o vsim.Outcome) uint64 {
	h := hash(14695981039346656037)
	h.num(o.Steps)
	h.num(int64(o.Hash))
	h.num(o.SimTime)
	var rec func(r *Rec)
	rec = func(r *Rec) {
		h.str(r.Res.String())
		h.str(r.Panic)
		h.str(r.Hang)
		h.num(r.Steps)
		for _, s := range r.Str {
			h.str(s)
		}
		if r.Stream != nil {
			for _, e := range r.Stream.Emits {
				h.str(e.Result.String())
				h.num(int64(e.Got))
			}
			for _, e := range r.Stream.Reads {
				h.num(int64(e.Got))
				h.num(int64(e.Emits))
			}
		}
		for _, x := range r.Recv {
			h.num(int64(x.Pkt))
			h.str(x.Res.String())
		}
		for _, n := range r.Nested {
			rec(n)
		}
	}
	for _, t := range v.e.recs {
		for _, r := range t {
			rec(r)
		}
	}
	return uint64(h)
}

// alone executes one operation on new objects, with nothing else going on.
func (v *verifier) alone(op *Op) *Rec {
	objs := append([]Obj(nil), v.objs...)
	for i := range objs {
		objs[i].Late = true
	}
	mini := &Plan{Prop: v.p.Prop, Clock: v.p.Clock, Objs: objs, Tasks: []Task{{Ops: []Op{*op}}}}
	e := NewEnv(mini, nil)
	e.pre = true
	e.op(0, &mini.Tasks[0].Ops[0], e.recs[0][0], false)
	return e.recs[0][0]
}

func (v *verifier) payload(be bool, p []byte) *Rec {
	k := fmt.Sprint(be) + string(p)
	if r, ok := v.cache[k]; ok {
		return r
	}
	mini := &Plan{Clock: v.p.Clock, Objs: []Obj{{K: "m5424", BE: be}}, Tasks: []Task{{Ops: []Op{{K: "parse", In: p}}}}}
	e := NewEnv(mini, nil)
	e.pre = true
	e.op(0, &mini.Tasks[0].Ops[0], e.recs[0][0], false)
	v.cache[k] = e.recs[0][0]
	return e.recs[0][0]
}

func (v *verifier) all() {
	v.objs = append([]Obj(nil), v.p.Objs...)
	for ti := range v.p.Tasks {
		for oi := range v.p.Tasks[ti].Ops {
			v.task, v.op = ti, oi
			v.check(&v.p.Tasks[ti].Ops[oi], v.e.recs[ti][oi], 0)
		}
	}
	v.task, v.op = -1, -1
	v.untouched()
	v.same()
	v.buildersAlone()
}

func (v *verifier) check(op *Op, rec *Rec, depth int) {
	v.n++
	if !rec.Done {
		return
	}
	if rec.Hang != "" {
		v.add("hang", "%s: %s", op.K, rec.Hang)
		return
	}
	if rec.Panic != "" {
		v.add("panic", "%s panicked: %s", op.K, rec.Panic)
		return
	}
	if rec.Mod {
		v.add("input-modified", "Parse changed the input bytes %s", model.Short(rec.In, 80))
	}
	if rec.Changed != "" {
		if strings.HasPrefix(rec.Changed, "error ") {
			v.add("error-changed", "%s", rec.Changed)
		} else {
			v.add("retained-changed", "%s", rec.Changed)
		}
	}
	o := Obj{}
	if op.O >= 0 && op.O < len(v.p.Objs) {
		o = v.objs[op.O]
	}
	switch op.K {
	case "conf":
		if op.O >= 0 && op.O < len(v.objs) && len(rec.Str) > 0 {
			o = applyConf(o, rec.Applied)
			v.objs[op.O] = o
			if got := rec.Str[0]; got != fmt.Sprint(o.BE) {
				v.add("config", "HasBestEffort of %s is %s, want %v", o.K, got, o.BE)
			}
		}
	case "trailer":
		if w := wantTrailer(op.In); len(rec.Str) > 1 && rec.Str[1] != w {
			v.add("config", "trailer from text %s: %s, want %s (error, name, byte, error, text, error, name)", model.Short(op.In, 60), rec.Str[1], w)
		}
		if w := wantType(op.I); len(rec.Str) > 0 && rec.Str[0] != w {
			v.add("config", "trailer type %d: %s, want %s (byte, error, text, error, name)", op.I, rec.Str[0], w)
		}
	case "parse":
		if rec.In == nil && rec.Res.Msg.Kind == "" {
			return // not executed (no such object)
		}
		v.parse(op, o, rec)
	case "repeat":
		v.repeat(op, o, rec)
	case "stream":
		if rec.Stream != nil {
			v.stream(op, o, rec, depth)
		}
	case "build":
		for _, s := range rec.Str {
			if !strings.HasPrefix(s, "ok ") && s != "invalid" {
				v.add("builder-text", "%s", s)
			}
		}
		for _, c := range rec.Sets {
			v.n++
			if c.Call.M == "rawpri" || c.Call.M == "rawver" || c.Call.M == "nopri" || c.Call.M == "nilsd" || c.Call.M == "nilel" {
				continue
			}
			if d := model.CheckSet(c.Before, c.Call, c.After); d != "" {
				v.add("setter", "%s", d)
			} else if c.Other {
				v.add("setter", "%s does not return its message", c.Call)
			}
		}
		if op.W != nil && op.W.Valid() && rec.Res.Msg.Kind != "" {
			if d := model.Diff(rec.Res.Msg, op.W.Want(), false); d != "" {
				v.add("builder-fields", "message under construction: %s", d)
			}
		}
	case "send":
		for _, s := range rec.Str {
			if !strings.HasPrefix(s, "ok ") && s != "invalid" {
				v.add("builder-text", "%s", s)
			}
		}
	case "serve", "recv":
		for _, s := range rec.Str {
			if !strings.HasPrefix(s, "ok ") && s != "invalid" {
				v.add("builder-text", "%s", s)
			}
		}
		if v.want["relay"] {
			v.relay(op, o, rec)
		} else if rec.Stream != nil {
			v.serve(op, o, rec)
		}
	}
	for _, c := range rec.Names {
		v.n++
		if d := model.CheckNames(c.M, c.N); d != "" {
			v.add("names", "%s", d)
		}
	}
	for i, n := range rec.Nested {
		v.check(rec.NestOps[i], n, depth+1)
	}
}

// repeat compares every outcome with that of a new parser that does this once.
func (v *verifier) repeat(op *Op, o Obj, rec *Rec) {
	kind := "parse-vs-fresh"
	if o.K == "octet" || o.K == "lf" || o.K == "nul" {
		kind = "reuse-diff"
	}
	y := localYear(v.p.Clock.Zone)
	if !v.want[kind] || (o.Year == "cur" || o.Year == "opnow") && (len(v.e.years) > 0 || rec.Year != [2]int{y, y}) {
		return
	}
	want := map[string]uint64{}
	for i, h := range rec.Outs {
		in := op.turn(i)
		w, ok := want[string(in)]
		if !ok {
			v.n++
			a := v.alone(&Op{K: "repeat", O: op.O, Ins: []B{in}, I: 1, Mode: op.Mode &^ 1})
			if a.Hang != "" || a.Panic != "" || len(a.Outs) != 1 {
				v.add("panic", "a new parser alone fails on %s: %s%s", model.Short(in, 200), a.Panic, a.Hang)
				return
			}
			w = a.Outs[0]
			want[string(in)] = w
		}
		if h != w {
			v.add(kind, "round %d of %d on one parser gives another outcome for %s than a new parser", i+1, op.I, model.Short(in, 200))
			return
		}
	}
}

func (v *verifier) parse(op *Op, o Obj, rec *Rec) {
	m := rec.Res.Msg
	if m.Kind == "typednil" || m.Kind == "other" {
		v.add("outcome", "Parse of %s returned a message of kind %s", model.Short(rec.In, 120), m.Kind)
		return
	}
	if v.want["outcome"] {
		nomsg, noerr := m.Kind == "nil", !rec.Res.HasErr
		if nomsg && noerr {
			v.add("outcome", "Parse of %s returned neither a message nor an error", model.Short(rec.In, 200))
		} else if !o.BE && !nomsg && !noerr {
			v.add("outcome", "strict Parse of %s returned both a message and the error %s", model.Short(rec.In, 200), rec.Res.Err)
		}
	}
	if v.want["parse-vs-fresh"] && rec.LastErr != "" {
		want := "<nil>"
		if rec.Res.HasErr {
			want = rec.Res.Err
		}
		if rec.LastErr != want {
			v.add("parse-vs-fresh", "after a Parse of %s that gave the error %s, Err gives %s", model.Short(rec.In, 200), want, rec.LastErr)
		}
	}
	if y := localYear(v.p.Clock.Zone); v.want["parse-vs-fresh"] && !((o.Year == "cur" || o.Year == "opnow") && (len(v.e.years) > 0 || rec.Year != [2]int{y, y})) {
		a := v.alone(op)
		if a.Hang != "" || a.Panic != "" {
			v.add("panic", "a new parser alone fails on %s: %s%s", model.Short(rec.In, 200), a.Panic, a.Hang)
		} else if a.Res.String() != rec.Res.String() {
			v.add("parse-vs-fresh", "Parse of %s gives %s, a new parser alone gives %s", model.Short(rec.In, 200), rec.Res, a.Res)
		}
	}
	switch o.K {
	case "m5424", "p5424":
		if v.want["ref5424"] {
			v.ref5424(o, rec)
		}
		if v.want["where"] {
			v.where5424(o, rec)
		}
		if v.want["intent"] && op.W != nil && op.W.Valid() {
			v.intent(op, o, rec)
		}
	case "m3164", "p3164":
		if v.want["ref3164"] {
			v.ref3164(o, rec)
		}
		if v.want["where"] {
			v.where3164(o, rec)
		}
		if op.W3 != nil && op.W3.Valid() && (op.W3.R3339 == "" || o.R3339) {
			if v.want["intent3164"] {
				v.intent3164(op, o, rec)
			}
			if v.want["year"] {
				v.year(op, o, rec)
			}
		}
	}
}

// ref5424 compares one parse with the reference recogniser.
func (v *verifier) ref5424(o Obj, rec *Rec) {
	r := model.Recognise(rec.In, o.CM)
	m := rec.Res.Msg
	in := model.Short(rec.In, 300)
	if r.OK {
		if rec.Res.HasErr {
			v.add("ref5424", "conforming bytes %s are rejected: %s", in, rec.Res.Err)
			return
		}
		if m.Kind == "nil" {
			v.add("ref5424", "conforming bytes %s give no message", in)
			return
		}
		if d := diffMulti(m, r); d != "" {
			v.add("ref5424", "conforming bytes %s: %s", in, d)
		}
		return
	}
	if !rec.Res.HasErr {
		v.add("ref5424", "bytes that do not conform (%s) are accepted: %s as %s", r.Why, in, m)
		return
	}
	if !o.BE {
		if m.Kind != "nil" {
			v.add("ref5424", "strict parse of %s returns an error and a message", in)
		}
		return
	}
	wantMsg := r.PriOK && r.VerPre != ""
	// A version the input ends with may be cut off, and come out as a prefix.
	atEnd := wantMsg && len(rec.In) == len(fmt.Sprintf("<%d>%s", r.Pri, r.VerPre))
	if atEnd && len(r.VerPre) == 1 && m.Kind == "nil" {
		return
	}
	if (m.Kind != "nil") != wantMsg {
		v.add("ref5424", "best effort parse of %s: message %v, want one: %v", in, m, wantMsg)
		return
	}
	if !wantMsg {
		return
	}
	ver := 0
	for _, c := range []byte(r.VerPre) {
		ver = ver*10 + int(c-'0')
	}
	if atEnd && m.Ver > 0 && strings.HasPrefix(r.VerPre, fmt.Sprint(m.Ver)) {
		ver = m.Ver
	}
	pri, fac, sev := r.Pri, r.Pri/8, r.Pri%8
	w := model.Msg{Kind: "5424", Pri: &pri, Fac: &fac, Sev: &sev, Ver: ver, TS: r.TS, Host: r.Host, App: r.App, Proc: r.Proc, MID: r.MID}
	w.SD, w.SDok, w.Text = m.SD, m.SDok, m.Text // left open
	if r.TS == nil && r.TSTail != nil && m.TS != nil {
		w.TS = r.TSTail // complete, but followed by something wrong
	}
	if d := model.Diff(m, w, true); d != "" {
		v.add("ref5424", "best effort parse of %s: %s", in, d)
	}
}

func diffMulti(m model.Msg, r model.Ref) string {
	w := r.Want
	if w.SDok && m.SDok {
		// For a repeated parameter name any of the given values may be kept.
		sd := map[string]map[string]string{}
		for id, ps := range w.SD {
			q := map[string]string{}
			for n, val := range ps {
				q[n] = val
				for _, alt := range r.Multi[id][n] {
					if g, ok := m.SD[id][n]; ok && g == alt {
						q[n] = alt
					}
				}
			}
			sd[id] = q
		}
		w.SD = sd
	}
	return model.Diff(m, w, true)
}

func eqp(a, b *string) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// intent compares a parse with what the sender of the packet meant.
func (v *verifier) intent(op *Op, o Obj, rec *Rec) {
	if len(op.In) > 0 {
		return
	}
	w := op.W.Want()
	full := op.W.Wire()
	if o.CM && !model.Recognise(full, true).OK {
		return
	}
	m := rec.Res.Msg
	if op.Cut == nil || len(rec.In) == len(full) {
		if rec.Res.HasErr {
			v.add("intent", "whole packet %s is rejected: %s", model.Short(full, 300), rec.Res.Err)
		} else if d := model.Diff(m, w, true); d != "" {
			v.add("intent", "packet %s (%s): %s", model.Short(full, 300), op.Src, d)
		}
		return
	}
	where := fmt.Sprintf("packet cut to %s", model.Short(rec.In, 300))
	if m.Kind == "nil" {
		if !rec.Res.HasErr {
			v.add("intent", "%s: neither message nor error", where)
		}
		return
	}
	if !o.BE && rec.Res.HasErr {
		v.add("intent", "%s: strict mode returns a message with an error", where)
		return
	}
	head := len(fmt.Sprintf("<%d>", op.W.Pri))
	if len(rec.In) <= head {
		v.add("intent", "%s: a message although the version did not arrive: %s", where, m)
		return
	}
	var d []string
	if m.Pri == nil || *m.Pri != *w.Pri || m.Fac == nil || *m.Fac != *w.Fac || m.Sev == nil || *m.Sev != *w.Sev {
		d = append(d, "priority")
	}
	vs := fmt.Sprint(op.W.Ver)
	if len(rec.In) > head+len(vs) {
		if m.Ver != op.W.Ver {
			d = append(d, "version")
		}
	} else if !strings.HasPrefix(vs, fmt.Sprint(m.Ver)) {
		d = append(d, "version")
	}
	if m.TS != nil && (w.TS == nil || *m.TS != *w.TS) {
		d = append(d, "timestamp")
	}
	h := func(n string, a, b *string) {
		if a != nil && !eqp(a, b) {
			d = append(d, n)
		}
	}
	h("hostname", m.Host, w.Host)
	h("appname", m.App, w.App)
	h("procid", m.Proc, w.Proc)
	h("msgid", m.MID, w.MID)
	if m.Text != nil && (w.Text == nil || !strings.HasPrefix(*w.Text, *m.Text)) {
		d = append(d, "message")
	}
	if m.SDok {
		if !w.SDok {
			d = append(d, "structured data")
		}
		for id, ps := range m.SD {
			q, ok := w.SD[id]
			if !ok {
				d = append(d, "structured data element "+id)
				continue
			}
			for n, val := range ps {
				if x, ok := q[n]; !ok || x != val {
					d = append(d, "parameter "+id+" "+n)
				}
			}
		}
	}
	if d != nil {
		v.add("intent", "%s gives %s, which is not what the sender said: %s", where, m, strings.Join(d, ", "))
	}
}

// years are the years the local clock showed during an operation: between two
// jumps time only goes forward.
func years(rec *Rec) []int {
	seg := append(append([]int{rec.Year[0]}, rec.Jumped...), rec.Year[1])
	var ys []int
	seen := map[int]bool{}
	for i := 0; i+1 < len(seg); i += 2 {
		hi := seg[i+1]
		if hi > seg[i]+1000 {
			hi = seg[i] + 1000
		}
		for y := seg[i]; y <= hi; y++ {
			if !seen[y] {
				seen[y] = true
				ys = append(ys, y)
			}
		}
	}
	return ys
}

func stampYears(o Obj, rec *Rec) []int {
	switch o.Year {
	case "":
		return []int{0}
	case "cur", "opnow":
		return years(rec)
	case "op":
		return []int{1984}
	}
	y := 0
	fmt.Sscan(o.Year, &y)
	return []int{y}
}

// year checks the timestamp of an RFC 3164 message.
func (v *verifier) year(op *Op, o Obj, rec *Rec) {
	if len(op.In) > 0 || op.Cut != nil {
		return
	}
	m := rec.Res.Msg
	if m.Kind != "3164" || m.TS == nil {
		v.add("year", "message %s gives no timestamp: %s", model.Short(rec.In, 200), rec.Res)
		return
	}
	ys := stampYears(o, rec)
	for _, y := range ys {
		if w := op.W3.Want(o, y); *w.TS == *m.TS {
			return
		}
	}
	v.add("year", "message %s (year option %q, timezone %q, locale timezone %q) parsed while the local clock showed year %v has timestamp %s, want %s",
		model.Short(rec.In, 200), o.Year, o.Loc, o.TZ, ys, m.TS, op.W3.Want(o, ys[len(ys)-1]).TS)
}

// intent3164 compares a parse with what the sender of an RFC 3164 packet meant.
func (v *verifier) intent3164(op *Op, o Obj, rec *Rec) {
	m := rec.Res.Msg
	in := model.Short(rec.In, 300)
	full := op.W3.Wire()
	ys := stampYears(o, rec)
	if string(rec.In) == string(full) {
		if rec.Res.HasErr {
			v.add("intent3164", "well-formed packet %s is rejected: %s", in, rec.Res.Err)
			return
		}
		d := ""
		for _, y := range ys {
			if d = model.Diff(m, op.W3.Want(o, y), true); d == "" {
				return
			}
		}
		v.add("intent3164", "packet %s: %s", in, d)
		return
	}
	if m.Kind == "nil" {
		if !rec.Res.HasErr {
			v.add("intent3164", "damaged packet %s gives neither a message nor an error", in)
		}
		return
	}
	if rec.Res.HasErr && !o.BE {
		v.add("intent3164", "strict parse of %s returns both a message and the error %s", in, rec.Res.Err)
		return
	}
	var d []string
	ok := false
	for _, y := range ys {
		w := op.W3.Want(o, y)
		if m.TS == nil || *m.TS == *w.TS {
			ok = true
		}
	}
	if !ok {
		d = append(d, "timestamp")
	}
	w := op.W3.Want(o, 0)
	if m.Pri != nil && *m.Pri != *w.Pri {
		d = append(d, "priority")
	}
	if m.Host != nil && !eqp(m.Host, w.Host) {
		d = append(d, "hostname")
	}
	if d != nil {
		v.add("intent3164", "damaged packet %s of %s gives %s, which is not what the sender said: %s", in, model.Short(full, 200), m, strings.Join(d, ", "))
	}
}

// expect is the model's prediction for a stream.
func (v *verifier) expect(d []byte, o Obj) model.Expect {
	if o.K == "octet" {
		max := 8192
		if o.Max != nil {
			max = *o.Max
		}
		return model.Octet(d, max, o.BE, func(p []byte) bool { return !v.payload(o.BE, p).Res.HasErr })
	}
	t := byte('\n')
	if o.K == "nul" {
		t = 0
	}
	return model.NonTransparent(d, t, o.BE)
}

func endless(s *Stream) bool {
	for _, r := range s.Reads {
		if r.K == "forever0" {
			return true
		}
	}
	return false
}

func (v *verifier) stream(op *Op, o Obj, rec *Rec, depth int) {
	sr := rec.Stream
	v.contract(op, o, sr)
	if endless(op.S) {
		return
	}
	if v.want["reuse-diff"] {
		v.reuse(op, rec)
	}
	var d []byte
	if sr.Ended {
		d = op.S.Data()[:sr.Real]
	} else {
		d, _ = op.S.Received()
	}
	x := v.expect(d, o)
	v.results(x, sr, o, d, op.S.Wrap == "" || op.S.Wrap == "same" || op.S.Wrap == "rich")
}

func (v *verifier) results(x model.Expect, sr *StreamRec, o Obj, d []byte, direct bool) {
	show := func() string { return fmt.Sprintf("%s stream %s", o.K, model.Short(d, 160)) }
	n := len(sr.Emits)
	if n > len(x.Items) {
		extra := sr.Emits[len(x.Items)]
		v.add("stream-results", "%s: %d results, want %d; the first extra one is %s", show(), n, len(x.Items), extra.Result)
		n = len(x.Items)
	}
	if n < len(x.Items) && sr.LPan == nil {
		it := x.Items[n]
		v.add("stream-results", "%s: %d results, want %d; missing: %s %s", show(), n, len(x.Items), it.What, model.Short(it.Payload, 60))
	}
	for i := 0; i < n; i++ {
		v.n++
		e, it := sr.Emits[i], x.Items[i]
		if e.NilRes {
			continue
		}
		if e.After {
			v.add("stream-results", "%s: result %d (%s) only came after Parse had returned", show(), i, it.What)
		}
		at := func() string { return fmt.Sprintf("%s: result %d (%s ending at byte %d)", show(), i, it.What, it.End) }
		switch {
		case it.Frame:
			f := v.payload(o.BE, it.Payload)
			if f.Hang != "" || f.Panic != "" {
				v.add("panic", "parsing %s: %s%s", model.Short(it.Payload, 200), f.Panic, f.Hang)
			} else if e.Result.String() != f.Res.String() {
				v.add("stream-results", "%s is %s, parsing exactly these bytes gives %s", at(), e.Result, f.Res)
			}
		case it.Parse && !it.ErrOnly:
			f := v.payload(o.BE, it.Payload)
			if !e.HasErr {
				v.add("stream-results", "%s carries no error: %s", at(), e.Result)
			} else if e.Msg.String() != f.Res.Msg.String() {
				v.add("stream-results", "%s has message %s, parsing these bytes gives %s", at(), e.Msg, f.Res.Msg)
			}
		default:
			if !e.HasErr || e.Msg.Kind != "nil" {
				v.add("stream-results", "%s is %s, want an error and no message", at(), e.Result)
			}
		}
		if e.Got < it.NotUntil {
			v.add("prompt", "%s delivered after %d bytes, but it was only complete after %d", at(), e.Got, it.NotUntil)
		}
		if it.AfterEnd && !e.Ended {
			v.add("prompt", "%s delivered before the stream had ended", at())
		}
	}
	lim := 8192
	if o.Max != nil {
		lim = *o.Max
	}
	if lim < 0 {
		lim = 0
	}
	lim = 2*lim + 8192
	mi := 0
	delivered := 0
	ahead := func(got, emits int) {
		for mi < emits && mi < len(x.Items) {
			if x.Items[mi].Frame && x.Items[mi].End > delivered {
				delivered = x.Items[mi].End
			}
			mi++
		}
		if o.K == "octet" && direct && got-delivered > lim {
			v.add("readahead", "%s: %d bytes taken beyond the last delivered frame, more than %d", show(), got-delivered, lim)
		}
	}
	must := 0
	for _, r := range sr.Reads {
		for must < len(x.Items) && x.Items[must].MustBy >= 0 && x.Items[must].MustBy <= r.Got {
			must++
		}
		if r.Emits < must {
			v.add("prompt", "%s: Read is called with %d bytes received while result %d (%s, due at byte %d) has not been delivered", show(), r.Got, r.Emits, x.Items[r.Emits].What, x.Items[r.Emits].MustBy)
			break
		}
		if r.Ended {
			v.add("read-on", "%s: Read is called again after it failed or ended", show())
			break
		}
		if x.StopAt >= 0 && r.Got >= x.StopAt {
			v.add("read-on", "%s: Read is called with %d bytes received, although the stream is beyond recovery at byte %d", show(), r.Got, x.StopAt)
			break
		}
	}
	for _, r := range sr.Reads {
		ahead(r.Got, r.Emits)
	}
	ahead(sr.Got, len(sr.Emits))
}

// contract checks how the listener was called.
func (v *verifier) contract(op *Op, o Obj, sr *StreamRec) {
	if sr.Closed {
		v.add("listener", "Parse of a %s parser closed the caller's reader", o.K)
	}
	for i, e := range sr.Emits {
		switch {
		case e.NilRes:
			v.add("listener", "listener call %d got a nil result", i)
		case e.After:
			v.add("listener", "listener call %d (%s) after Parse had returned", i, e.Result)
		case e.Task != sr.PTask:
			v.add("listener", "listener call %d on another goroutine", i)
		case e.Depth > 0:
			v.add("listener", "listener call %d inside another one", i)
		case e.SameAs >= 0:
			v.add("listener", "listener calls %d and %d got the same result object", e.SameAs, i)
		case e.Msg.Kind == "typednil" || e.Msg.Kind == "other":
			v.add("listener", "listener call %d got a message of kind %s", i, e.Msg.Kind)
		case !e.HasErr && e.Msg.Kind == "nil":
			v.add("listener", "listener call %d got neither a message nor an error", i)
		case e.HasErr && e.Msg.Kind != "nil" && !o.BE && (o.K == "octet" || i != len(sr.Emits)-1):
			v.add("listener", "listener call %d in strict mode got both a message and the error %s", i, e.Err)
		}
	}
	if sr.LPan != nil {
		if sr.Ret {
			v.add("listener", "Parse returned although %v", sr.LPan)
		} else if sr.Pan != sr.LPan {
			v.add("listener", "%v reached the caller of Parse as %v", sr.LPan, sr.Pan)
		}
		if len(sr.Emits) != sr.PanPos {
			v.add("listener", "%d listener calls after %v", len(sr.Emits)-sr.PanPos, sr.LPan)
		}
	}
}

// reuse compares a stream with the same stream on a new parser.
func (v *verifier) reuse(op *Op, rec *Rec) {
	a := v.alone(op)
	if a.Hang != "" || a.Panic != "" || a.Stream == nil {
		v.add("panic", "a new parser fails on the stream: %s%s", a.Panic, a.Hang)
		return
	}
	g, w := rec.Stream.Emits, a.Stream.Emits
	n := len(g)
	if len(w) < n {
		n = len(w)
	}
	d := model.Short(op.S.Data(), 120)
	for i := 0; i < n; i++ {
		if g[i].Result.String() != w[i].Result.String() {
			v.add("reuse-diff", "stream %s on a used parser: result %d is %s, a new parser gives %s", d, i, g[i].Result, w[i].Result)
			return
		}
	}
	if len(g) > n {
		v.add("reuse-diff", "stream %s on a used parser: %d results, a new parser gives %d; the first extra one is %s", d, len(g), len(w), g[n].Result)
	} else if len(w) > n {
		v.add("reuse-diff", "stream %s on a used parser: %d results, a new parser gives %d; the first missing one is %s", d, len(g), len(w), w[n].Result)
	} else if fmt.Sprint(rec.Stream.Pan) != fmt.Sprint(a.Stream.Pan) {
		v.add("reuse-diff", "stream %s on a used parser ends with panic %v, on a new parser with %v", d, rec.Stream.Pan, a.Stream.Pan)
	}
}

// serve compares what the server's listener got with what was sent.
func (v *verifier) serve(op *Op, o Obj, rec *Rec) {
	sr := rec.Stream
	v.contract(op, o, sr)
	if sr.LPan != nil {
		return
	}
	c := v.e.conns[op.I]
	if !Carries(c.c.Kind, v.p, op.I) {
		return
	}
	var sent []*Op
	for ti := range v.p.Tasks {
		for oi := range v.p.Tasks[ti].Ops {
			s := &v.p.Tasks[ti].Ops[oi]
			if s.K == "send" && s.I == op.I && s.W != nil {
				rc := v.e.recs[ti][oi]
				if !rc.Done || rc.Panic != "" || rc.Hang != "" || len(rc.Str) == 0 || !strings.HasPrefix(rc.Str[len(rc.Str)-1], "ok ") {
					continue // reported elsewhere
				}
				sent = append(sent, s)
			}
		}
	}
	if !sr.Ended {
		v.add("delivery", "connection %d (%s): the server stopped reading after %d bytes", op.I, c.c.Kind, sr.Got)
		return
	}
	got := 0
	for i, s := range sent {
		if i >= len(c.Frames) || c.Frames[i] > sr.Real {
			break
		}
		if got >= len(sr.Emits) {
			v.add("delivery", "connection %d (%s): message %d of %d was received but not delivered", op.I, c.c.Kind, i+1, len(sent))
			return
		}
		e := sr.Emits[got]
		got++
		if e.HasErr {
			v.add("delivery", "connection %d (%s): message %d arrives with the error %s", op.I, c.c.Kind, i+1, e.Err)
			return
		}
		if d := model.Diff(e.Msg, s.W.Want(), false); d != "" {
			v.add("delivery", "connection %d (%s): message %d: %s", op.I, c.c.Kind, i+1, d)
			return
		}
		v.n++
	}
	rest := sr.Emits[got:]
	last := 0
	if got > 0 {
		last = c.Frames[got-1]
	}
	if sr.Real > last {
		// cut inside a frame
		if c.c.Kind != "octet" {
			// a message that holds the trailer may have come in part
			t := byte('\n')
			if c.c.Kind == "nul" {
				t = 0
			}
			x := model.NonTransparent(c.buf[last:sr.Real], t, true)
			if len(rest) != len(x.Items) {
				v.add("delivery", "connection %d (%s): cut inside message %d, %d results for what was received of it, want %d", op.I, c.c.Kind, got+1, len(rest), len(x.Items))
			} else if c.buf[sr.Real-1] != t && !rest[len(rest)-1].HasErr {
				v.add("delivery", "connection %d (%s): cut inside message %d, want an error", op.I, c.c.Kind, got+1)
			}
			return
		}
		if len(rest) != 1 || !rest[0].HasErr {
			v.add("delivery", "connection %d (%s): cut inside message %d, want one more result with an error, got %d", op.I, c.c.Kind, got+1, len(rest))
		}
		return
	}
	if sr.Real == 0 && c.c.Kind == "octet" {
		return // a stream without a byte is an error of its own
	}
	if len(rest) != 0 {
		v.add("delivery", "connection %d (%s): %d results more than messages; the first is %s", op.I, c.c.Kind, len(rest), rest[0].Result)
	}
}

// untouched checks that messages still are as their last setter call left them.
func (v *verifier) untouched() {
	if !v.want["setter"] {
		return
	}
	for i := range v.e.objs {
		o := &v.e.objs[i]
		if o.last == nil {
			continue
		}
		if s := model.Snap(o.msg).String(); s != o.last.String() {
			v.add("setter", "a message changed from %s to %s without a call", o.last, s)
		}
	}
}

// same checks that messages with the same values have the same text.
func (v *verifier) same() {
	if !v.want["same-text"] {
		return
	}
	first := map[int]string{}
	for ti := range v.p.Tasks {
		for oi := range v.p.Tasks[ti].Ops {
			op := &v.p.Tasks[ti].Ops[oi]
			if op.K != "build" || op.O < 0 || op.O >= len(v.p.Objs) || v.p.Objs[op.O].Same == 0 {
				continue
			}
			g := v.p.Objs[op.O].Same
			for _, s := range v.e.recs[ti][oi].Str {
				if !strings.HasPrefix(s, "ok ") {
					continue
				}
				v.n++
				if f, ok := first[g]; !ok {
					first[g] = s
				} else if f != s {
					v.task, v.op = ti, oi
					v.add("same-text", "two messages with the same values serialise as %q and %q", f[3:], s[3:])
					return
				}
			}
		}
	}
}

// buildersAlone repeats every builder history alone.
func (v *verifier) buildersAlone() {
	if !v.want["builder-alone"] {
		return
	}
	for i, o := range v.p.Objs {
		if o.K != "b" {
			continue
		}
		var e *Env
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				op := &v.p.Tasks[ti].Ops[oi]
				if op.K != "build" || op.O != i {
					continue
				}
				if e == nil {
					mini := &Plan{Clock: v.p.Clock, Objs: []Obj{o}, Tasks: []Task{{}}}
					e = NewEnv(mini, nil)
					e.pre = true
					e.MakeAll()
				}
				one := *op
				one.O = 0
				r := &Rec{}
				e.op(0, &one, r, false)
				g := v.e.recs[ti][oi]
				if !g.Done || g.Panic != "" || g.Hang != "" {
					continue
				}
				v.task, v.op = ti, oi
				if strings.Join(g.Str, "\n") != strings.Join(r.Str, "\n") {
					v.add("builder-alone", "builder calls among others give %q, alone %q", g.Str, r.Str)
				}
			}
		}
	}
}

// Carries tells whether the framing can carry the messages sent over a
// connection: fields the grammar allows, and no record-starting '<' after a
// trailer inside a message.
func Carries(kind string, p *Plan, conn int) bool {
	t := byte('\n')
	if kind == "nul" {
		t = 0
	}
	for ti := range p.Tasks {
		for oi := range p.Tasks[ti].Ops {
			s := &p.Tasks[ti].Ops[oi]
			if s.K != "send" || s.I != conn || s.W == nil {
				continue
			}
			if !s.W.Valid() {
				return false
			}
			if kind == "octet" {
				continue
			}
			w := s.W.Wire()
			for i, c := range w {
				if c == t && (i+1 == len(w) || w[i+1] == '<') {
					return false
				}
			}
		}
	}
	return true
}

// Interesting tells whether a run counts as non-trivial for its property.
func (v *verifier) interesting(o vsim.Outcome) bool {
	emitted, stream, parse, bad, failedBefore, faults := 0, 0, 0, 0, false, 0
	after := false
	kept := 0
	for ti := range v.p.Tasks {
		for oi := range v.p.Tasks[ti].Ops {
			op, rec := &v.p.Tasks[ti].Ops[oi], v.e.recs[ti][oi]
			faults += len(op.F)
			if rec.Stream != nil {
				stream++
				for _, e := range rec.Stream.Emits {
					if e.Msg.Kind == "5424" {
						emitted++
						kept++
					}
					if e.HasErr {
						bad++
					}
				}
			}
			if op.K == "parse" && rec.Done {
				parse++
				if failedBefore {
					after = true
				}
				if rec.Res.HasErr {
					bad++
					failedBefore = true
				}
				if rec.Res.Msg.Kind != "nil" {
					kept++
				}
			}
		}
	}
	switch v.p.Prop {
	case "C01", "C02":
		return emitted > 0
	case "C03", "C04":
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				rec := v.e.recs[ti][oi]
				if rec.Stream != nil && rec.Stream.Ended && rec.Stream.Real > 0 {
					return true
				}
			}
		}
		return false
	case "C05":
		return stream > 0 && (bad > 0 || emitted > 0)
	case "C06":
		return bad > 0 && emitted > 0
	case "C07":
		return emitted > 0
	case "C08":
		n := 0
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				if rec := v.e.recs[ti][oi]; oi > 0 && rec.Stream != nil {
					n += len(rec.Stream.Emits)
				}
			}
		}
		return n > 0
	case "C09", "C10":
		return o.Preempts > 0 && len(v.p.Tasks) > 1
	case "C11":
		return kept > 1
	case "C12":
		return after
	case "C13":
		return emitted > 0
	case "C14", "C18":
		return parse > 0
	case "C15", "C21", "C22":
		return bad > 0
	case "C23":
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				for _, c := range v.e.recs[ti][oi].Sets {
					if c.Call.M != "str" && c.Before.String() == c.After.String() {
						return true
					}
				}
			}
		}
		return false
	case "C25":
		conf := false
		for ti := range v.p.Tasks {
			conf = false
			for oi := range v.p.Tasks[ti].Ops {
				if op := &v.p.Tasks[ti].Ops[oi]; op.K == "conf" && len(op.Calls) > 0 {
					conf = true
				} else if conf && (op.K == "stream" || op.K == "parse") {
					return true
				}
			}
		}
		return false
	case "C24":
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				if len(v.e.recs[ti][oi].Names) > 0 {
					return true
				}
			}
		}
		return false
	case "C26":
		return v.passed()
	case "C16":
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				for _, s := range v.e.recs[ti][oi].Str {
					if strings.Count(s, "=\"") > 1 || strings.Count(s, "[") > 1 {
						return true
					}
				}
			}
		}
		return false
	case "C17":
		return parse > 0 && (len(v.e.years) > 0 || o.SimTime > 0)
	case "C19":
		return bad > 0 || faults > 0
	case "C20":
		for ti := range v.p.Tasks {
			for oi := range v.p.Tasks[ti].Ops {
				rec := v.e.recs[ti][oi]
				if len(rec.Nested) > 0 || rec.Stream != nil && rec.Stream.LPan != nil {
					return true
				}
				op := v.p.Tasks[ti].Ops[oi]
				if rec.Stream != nil && op.S != nil && len(op.S.L) > 0 && len(rec.Stream.Emits) > op.S.L[0].At {
					return true
				}
			}
		}
		return false
	}
	return true
}
