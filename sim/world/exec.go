package world

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/nontransparent"
	"github.com/influxdata/go-syslog/v3/octetcounting"
	"github.com/influxdata/go-syslog/v3/rfc3164"
	"github.com/influxdata/go-syslog/v3/rfc5424"

	"verifsim/model"
	"verifsim/vsim"
)

// Result of one parse or one listener call.
type Result struct {
	Msg    model.Msg
	Err    string
	HasErr bool
}

func (r Result) String() string { return r.Msg.String() + " err=" + r.Err }

func result(m syslog.Message, e error) Result {
	return Result{Msg: model.Snap(m), Err: model.ErrText(e), HasErr: e != nil}
}

// Emit is one recorded listener call.
type Emit struct {
	Result
	Got    int  // bytes handed out by Read so far
	Ended  bool // the reader had ended
	Task   int
	Depth  int
	After  bool // Parse had returned
	SameAs int  // earlier call that got the same *Result, or -1
	NilRes bool
}

// ReadRec is one recorded Read call.
type ReadRec struct {
	Got   int // bytes handed out before the call
	Emits int
	Ended bool // the reader had ended before the call
}

// StreamRec is the history of one stream.
type StreamRec struct {
	Emits  []Emit
	Reads  []ReadRec
	Got    int
	Ended  bool
	PTask  int
	active bool
	depth  int
	ptrs   []*syslog.Result
	ptrAt  map[*syslog.Result]int
	Real   int         // bytes handed out when the reader ended
	Pan    interface{} // panic that reached the caller of Parse
	LPan   interface{} // what the listener or the reader panicked with
	PanPos int         // listener calls before the panic
	Closed bool        // the reader was closed
	Ret    bool
}

// Rec is the record of one operation.
type Rec struct {
	Done    bool
	Panic   string
	Hang    string
	Steps   int64
	Res     Result
	In      []byte
	Mod     bool   // input bytes changed
	LastErr string // what Err of the machine says after the parse
	Str     []string
	Stream  *StreamRec
	Year    [2]int // 3164: local years of the wall clock at start and end
	Jumped  []int  // years before and after every clock jump in between
	Changed string // a retained message changed during this operation
	Nested  []*Rec
	NestOps []*Op
	Outs    []uint64 // repeat: fingerprint of every outcome
	Sets    []SetRec
	Names   []NameRec
	Recv    []RecvRec
	Applied []Call // the options that were changed
}

// SetRec is one recorded setter call.
type SetRec struct {
	Call   model.Set
	Before model.Msg
	After  model.Msg
	Other  bool // the call did not return the message itself
}

// NameRec is one message asked for its names.
type NameRec struct {
	M model.Msg
	N model.Names
}

type keptErr struct {
	e          error
	text, what string
}

type kept struct {
	m    syslog.Message
	snap string
	what string
}

// Env is one execution of a plan.
type Env struct {
	P     *Plan
	objs  []object
	conns []*conn
	recs  [][]*Rec
	kept  [][]kept // per task
	errs  [][]keptErr
	bufs  [][]byte
	Stats *Stats
	pre   bool
	years []int
}

type object struct {
	made   bool
	mach   syslog.Machine
	par    syslog.Parser
	msg    *rfc5424.SyslogMessage
	last   *model.Msg // as the previous setter call left it
	stream *StreamRec
	listen syslog.ParserListener
	onCall func(*syslog.Result)
	same   *sameReader   // the reader of several streams
	sameb  *bufio.Reader // likewise
}

// Stats counts what a run did.
type Stats struct {
	Faults map[string]int64
	Probes map[string]int64
	Ops    map[string]int64
}

func NewStats() *Stats {
	return &Stats{map[string]int64{}, map[string]int64{}, map[string]int64{}}
}

func (e *Env) fault(k string) {
	if e.Stats != nil && !e.P.Race && !e.pre {
		e.Stats.Faults[k]++
	}
}

func (e *Env) probe(k string) {
	if e.Stats != nil && !e.P.Race && !e.pre {
		e.Stats.Probes[k]++
	}
}

// Zone resolves a zone name of a plan.
func Zone(n string) *time.Location {
	switch n {
	case "":
		return nil
	case "UTC":
		return time.UTC
	}
	if l, err := time.LoadLocation(n); err == nil {
		return l
	}
	if s, err := strconv.Atoi(n); err == nil {
		return time.FixedZone(n, s)
	}
	return time.FixedZone(n, 3600)
}

// yearDown tells for each task whether the caller's year strategy panics.
var yearDown [256]bool

func yearFails() {
	if t := vsim.Self(); t >= 0 && t < len(yearDown) && yearDown[t] {
		panic(&userPanic{"the year strategy panicked"})
	}
}

// parseDown is Parse of a caller whose year strategy panics if it is asked,
// which the caller survives; it tells whether it did.
func parseDown(m syslog.Machine, in []byte) (msg syslog.Message, err error, down bool) {
	t := vsim.Self()
	if t < 0 || t >= len(yearDown) {
		msg, err = m.Parse(in)
		return
	}
	yearDown[t] = true
	defer func() {
		yearDown[t] = false
		if v := recover(); v != nil {
			if _, ok := v.(*userPanic); !ok {
				panic(v)
			}
			down = true
		}
	}()
	msg, err = m.Parse(in)
	return
}

type callerYear struct{}

// Apply is a year strategy supplied by the caller.
func (callerYear) Apply() int {
	vsim.Point()
	yearFails()
	return 1984
}

// clockYear is a year strategy of the caller that looks at the clock.
type clockYear struct{ zone int }

func (c clockYear) Apply() int {
	vsim.Point()
	y := localYear(c.zone)
	vsim.Point()
	yearFails()
	return y
}

func rotate[T any](o []T, n int) []T {
	if len(o) == 0 {
		return o
	}
	n %= len(o)
	return append(append([]T(nil), o[n:]...), o[:n]...)
}

func newMachine(o Obj) syslog.Machine {
	var opts []syslog.MachineOption
	switch o.K {
	case "m5424", "p5424":
		if o.BE {
			opts = append(opts, rfc5424.WithBestEffort())
		}
		if o.CM {
			opts = append(opts, rfc5424.WithCompliantMsg())
		}
		opts = rotate(opts, o.Rot)
		if o.K == "p5424" {
			return rfc5424.NewParser(opts...)
		}
		return rfc5424.NewMachine(opts...)
	default:
		if o.BE {
			opts = append(opts, rfc3164.WithBestEffort())
		}
		if o.Year != "" {
			opts = append(opts, rfc3164.WithYear(yearOp(o.Year)))
		}
		if o.R3339 {
			opts = append(opts, rfc3164.WithRFC3339())
		}
		if l := Zone(o.Loc); l != nil {
			opts = append(opts, rfc3164.WithTimezone(l))
		}
		if l := Zone(o.TZ); l != nil {
			opts = append(opts, rfc3164.WithLocaleTimezone(l))
		}
		opts = append(extra3164(o), rotate(opts, o.Rot)...)
		if o.K == "p3164" {
			return rfc3164.NewParser(opts...)
		}
		return rfc3164.NewMachine(opts...)
	}
}

func newParser(o Obj, l syslog.ParserListener) syslog.Parser {
	opts := []syslog.ParserOption{syslog.WithListener(l)}
	if o.BE {
		opts = append(opts, syslog.WithBestEffort())
	}
	if o.Max != nil {
		opts = append(opts, syslog.WithMaxMessageLength(*o.Max))
	}
	var first []syslog.ParserOption
	for _, c := range o.Extra {
		switch c.M {
		case "max":
			first = append(first, syslog.WithMaxMessageLength(c.I))
		case "be":
			first = append(first, syslog.WithBestEffort())
		case "listener":
			first = append(first, syslog.WithListener(func(*syslog.Result) { panic("a listener that was replaced is called") }))
		case "trailer":
			if o.K != "octet" {
				first = append(first, nontransparent.WithTrailer(nontransparent.TrailerType(c.I)))
			}
		}
	}
	if len(o.Text) > 0 && o.K != "octet" {
		t := nontransparent.TrailerType(o.Rot % 2)
		if o.Rot%3 == 0 {
			t.UnmarshalTOML(o.Text)
		} else {
			t.UnmarshalText(o.Text)
		}
		opts = append(opts, nontransparent.WithTrailer(t))
		return nontransparent.NewParser(append(first, rotate(opts, o.Rot)...)...)
	}
	switch o.K {
	case "octet":
		return octetcounting.NewParser(append(first, rotate(opts, o.Rot)...)...)
	case "nul":
		opts = append(opts, nontransparent.WithTrailer(nontransparent.NUL))
	case "lf":
		if o.Rot%2 == 1 {
			opts = append(opts, nontransparent.WithTrailer(nontransparent.LF))
		}
	}
	return nontransparent.NewParser(append(first, rotate(opts, o.Rot)...)...)
}

func extra3164(o Obj) (l []syslog.MachineOption) {
	for _, c := range o.Extra {
		switch c.M {
		case "year":
			l = append(l, rfc3164.WithYear(yearOp(string(c.A))))
		case "loc":
			l = append(l, rfc3164.WithTimezone(Zone(string(c.A))))
		case "tz":
			l = append(l, rfc3164.WithLocaleTimezone(Zone(string(c.A))))
		case "be":
			l = append(l, rfc3164.WithBestEffort())
		case "rfc3339":
			l = append(l, rfc3164.WithRFC3339())
		}
	}
	return l
}

func yearOp(y string) rfc3164.YearOperator {
	switch y {
	case "cur":
		return rfc3164.CurrentYear{}
	case "op":
		return callerYear{}
	case "opnow":
		_, z := time.Unix(0, 0).In(time.Local).Zone()
		return clockYear{z}
	}
	n, _ := strconv.Atoi(y)
	return rfc3164.Year{YYYY: n}
}

// applyConf is o after reconfiguration calls.
func applyConf(o Obj, calls []Call) Obj {
	for _, c := range calls {
		m3164 := o.K == "m3164" || o.K == "p3164"
		switch c.M {
		case "be":
			o.BE = o.K != "b"
		case "max":
			n := c.I
			o.Max = &n
		case "year":
			if m3164 {
				o.Year = string(c.A)
			}
		case "loc":
			if m3164 {
				o.Loc = string(c.A)
			}
		case "tz":
			if m3164 {
				o.TZ = string(c.A)
			}
		case "rfc3339":
			o.R3339 = o.R3339 || m3164
		}
	}
	o.Extra = nil
	return o
}

// conf reconfigures an object between two uses.
func (e *Env) conf(op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.par == nil && o.mach == nil {
		return
	}
	var be syslog.BestEfforter
	if o.par != nil {
		be = o.par
	} else {
		be = o.mach
	}
	for _, c := range op.Calls {
		vsim.Point()
		switch c.M {
		case "be":
			be.WithBestEffort()
			e.fault("best effort switched on between uses")
		case "max":
			if o.par != nil {
				o.par.WithMaxMessageLength(c.I)
				e.fault("length limit changed between streams")
			}
		case "listener":
			if o.par != nil {
				o.par.WithListener(func(r *syslog.Result) { o.onCall(r) })
				e.fault("listener replaced between streams")
			}
		case "year":
			if m, ok := o.mach.(interface{ WithYear(rfc3164.YearOperator) }); ok {
				m.WithYear(yearOp(string(c.A)))
				e.fault("year strategy changed between messages")
				break
			}
			continue // this tree does not offer it
		case "loc":
			if m, ok := o.mach.(interface{ WithTimezone(*time.Location) }); ok {
				m.WithTimezone(Zone(string(c.A)))
				e.fault("time zone changed between messages")
				break
			}
			continue // this tree does not offer it
		case "tz":
			if m, ok := o.mach.(interface{ WithLocaleTimezone(*time.Location) }); ok {
				m.WithLocaleTimezone(Zone(string(c.A)))
				e.fault("time zone changed between messages")
				break
			}
			continue // this tree does not offer it
		case "rfc3339":
			if m, ok := o.mach.(interface{ WithRFC3339() }); ok {
				m.WithRFC3339()
				e.fault("RFC 3339 switched on between messages")
				break
			}
			continue // this tree does not offer it
		}
		rec.Applied = append(rec.Applied, c)
	}
	rec.Str = append(rec.Str, strconv.FormatBool(be.HasBestEffort()))
}

// trailer reads a trailer type from text, as from a configuration file that is
// read again, and writes it back.
func (e *Env) trailer(op *Op, rec *Rec) {
	t := nontransparent.TrailerType(op.I)
	rec.Str = append(rec.Str, typeText(t))
	in := append([]byte(nil), op.In...)
	var err error
	switch op.Mode % 3 {
	case 0:
		err = t.UnmarshalText(in)
	case 1:
		err = t.UnmarshalTOML(in)
	default:
		t, err = nontransparent.TrailerTypeFromString(string(in))
	}
	for i := range in {
		in[i] = 'x'
	}
	val, verr := t.Value()
	txt, terr := t.MarshalText()
	str := t.String()
	rec.Str = append(rec.Str, fmt.Sprintf("%v %v %d %v %s %v %s", err != nil, t, val, verr != nil, txt, terr != nil, str))
	for i := range txt {
		txt[i] = 'x' // the caller's
	}
	e.fault("trailer configured again")
}

// typeText is what a trailer type, one a caller may have made from any
// number, says of itself.
func typeText(t nontransparent.TrailerType) string {
	val, verr := t.Value()
	txt, terr := t.MarshalText()
	return fmt.Sprintf("%d %v %s %v %s", val, verr != nil, txt, terr != nil, t.String())
}

// wantType is what typeText says of the number of a trailer type.
func wantType(i int) string {
	switch i {
	case 0:
		return "10 false LF false LF"
	case 1:
		return "0 false NUL false NUL"
	}
	return "-1 true  true "
}

// wantTrailer is what trailer records for a text.
func wantTrailer(in []byte) string {
	s := string(in)
	if len(s) >= 2 && (s[0] == '"' || s[0] == '\'') && s[len(s)-1] == s[0] {
		s = s[1 : len(s)-1]
	}
	up := []byte(s)
	for i, c := range up {
		if c >= 'a' && c <= 'z' {
			up[i] = c - 32
		}
	}
	switch string(up) {
	case "LF":
		return "false LF 10 false LF false LF"
	case "NUL":
		return "false NUL 0 false NUL false NUL"
	}
	return "true  -1 true  true "
}

func (e *Env) get(i int) *object {
	if i < 0 || i >= len(e.objs) {
		return nil
	}
	o := &e.objs[i]
	if !o.made {
		e.make(i)
	}
	return o
}

func (e *Env) make(i int) {
	o := &e.objs[i]
	d := e.P.Objs[i]
	o.made = true
	switch d.K {
	case "octet", "lf", "nul":
		o.listen = func(r *syslog.Result) { o.onCall(r) }
		o.par = newParser(d, o.listen)
	case "b":
		o.msg = &rfc5424.SyslogMessage{}
		if d.W != nil {
			m, err := rfc5424.NewParser().Parse(d.W.Wire())
			if t, ok := m.(*rfc5424.SyslogMessage); ok && t != nil && err == nil {
				o.msg = t
			}
		}
		var out []string
		doCalls(o.msg, d.Calls, &out)
	default:
		o.mach = newMachine(d)
	}
}

// NewEnv prepares a plan for execution.
func NewEnv(p *Plan, st *Stats) *Env {
	e := &Env{P: p, Stats: st}
	e.objs = make([]object, len(p.Objs))
	e.recs = make([][]*Rec, len(p.Tasks))
	e.kept = make([][]kept, len(p.Tasks))
	e.errs = make([][]keptErr, len(p.Tasks))
	e.bufs = make([][]byte, len(p.Tasks))
	for i := range p.Tasks {
		e.recs[i] = make([]*Rec, len(p.Tasks[i].Ops))
		for j := range e.recs[i] {
			e.recs[i][j] = &Rec{}
		}
		e.bufs[i] = make([]byte, 0, 4096)
	}
	for i := range p.Conns {
		c := newConn(&p.Conns[i])
		c.closed = true
		for _, t := range p.Tasks {
			for _, op := range t.Ops {
				if op.K == "close" && op.I == i {
					c.closed = false
				}
			}
		}
		e.conns = append(e.conns, c)
	}
	return e
}

// MakeAll makes the objects that exist before the tasks start. It runs under
// the simulator, so that constructors see the simulated clock.
func (e *Env) MakeAll() {
	for i := range e.objs {
		if !e.P.Objs[i].Late {
			e.make(i)
		}
	}
}

// Body is the goroutine of task ti.
func (e *Env) Body(ti int) func() {
	return func() {
		for oi := range e.P.Tasks[ti].Ops {
			vsim.Point()
			e.op(ti, &e.P.Tasks[ti].Ops[oi], e.recs[ti][oi], false)
			if vsim.Aborted() {
				return
			}
		}
	}
}

// stepLimit bounds the work of one operation that handles n bytes.
func stepLimit(n int) int64 { return 60000 + int64(n)*StepsPerByte }

// StepsPerByte is the fixed multiple of the input size that the work of an
// operation may reach, in executed statements of the library.
const StepsPerByte = 400

func opBytes(op *Op) int {
	n := len(op.In)
	if op.W != nil {
		n += len(op.W.Wire())
	}
	for _, p := range op.Ins {
		n += op.I * (len(p) + 150) // StepsPerByte of nothing, too
	}
	if op.S != nil {
		n += op.S.Rep * len(op.S.Lead)
		for _, p := range op.S.Parts {
			n += len(p)
		}
		n += op.S.Trap * len(trapBytes)
		n += 64 * len(op.S.Reads)
		for _, l := range op.S.L {
			if l.Op != nil {
				n += opBytes(l.Op) + 512
			}
		}
	}
	for _, c := range op.Calls {
		n += 4*(len(c.A)+len(c.N)+len(c.V)) + 16
	}
	return n
}

// built is the size of all that the plan puts into builder o.
func (e *Env) built(o int) int {
	n := 0
	if o >= 0 && o < len(e.P.Objs) {
		n = opBytes(&Op{Calls: e.P.Objs[o].Calls, W: e.P.Objs[o].W})
	}
	var add func(op *Op)
	add = func(op *Op) {
		if op.K == "build" && op.O == o {
			n += opBytes(op)
		}
		if op.S != nil {
			for _, l := range op.S.L {
				if l.Op != nil {
					add(l.Op)
				}
			}
		}
	}
	for _, t := range e.P.Tasks {
		for i := range t.Ops {
			add(&t.Ops[i])
		}
	}
	return n
}

func (e *Env) op(ti int, op *Op, rec *Rec, nested bool) {
	if e.Stats != nil && !e.P.Race && !e.pre {
		e.Stats.Ops[op.K]++
		for _, f := range op.F {
			e.Stats.Faults[f]++
		}
	}
	limited := !nested && op.K != "serve" && op.K != "recv" && op.K != "send" && op.K != "raw" && op.K != "sleep"
	defer func() {
		if limited {
			rec.Steps = vsim.OpEnd()
		}
		if v := recover(); v != nil {
			if vsim.IsAbort(v) {
				panic(v)
			}
			if h, ok := v.(vsim.HangError); ok {
				if nested {
					panic(v)
				}
				rec.Hang = h.Error()
			} else {
				rec.Panic = fmt.Sprintf("%v", v)
			}
		}
		rec.Done = true
		if rec.Changed == "" {
			rec.Changed = e.recheck(ti)
		}
	}()
	if limited {
		limit := stepLimit(opBytes(op))
		if op.K == "build" {
			// what earlier operations put into the message is part of it
			limit = stepLimit(e.built(op.O))
		}
		if op.K == "build" && e.P.Prop != "C19" {
			// serialising may cost more than the fixed multiple (no property
			// bounds it), but it has to end
			limit = 20000000 + limit*int64(1+len(op.Calls))
		}
		if e.pre {
			limit = 1 << 40
		}
		vsim.OpBegin(limit)
	}
	switch op.K {
	case "parse":
		e.parse(ti, op, rec)
	case "repeat":
		e.repeat(ti, op, rec)
	case "stream":
		e.stream(ti, op, rec)
	case "build":
		e.build(ti, op, rec)
	case "mutate":
		e.mutate(ti, op)
	case "names":
		e.names(ti, op, rec)
	case "conf":
		e.conf(op, rec)
	case "trailer":
		e.trailer(op, rec)
	case "jump":
		from := localYear(e.P.Clock.Zone)
		vsim.Jump(op.D)
		if !e.P.Race {
			e.years = append(e.years, from, localYear(e.P.Clock.Zone))
		}
		e.fault("clock jump")
	case "sleep":
		vsim.Sleep(op.D)
	case "send":
		e.send(ti, op, rec)
	case "close":
		if op.I >= 0 && op.I < len(e.conns) {
			e.conns[op.I].close()
		}
	case "serve":
		e.serve(ti, op, rec)
	case "raw":
		e.raw(op)
	case "recv":
		e.recv(ti, op, rec)
	}
}

// recheck compares the retained messages of a task with their snapshots.
func (e *Env) recheck(ti int) string {
	for i := range e.kept[ti] {
		k := &e.kept[ti][i]
		if s := model.Snap(k.m).String(); s != k.snap {
			old := k.snap
			k.snap = s
			return fmt.Sprintf("message of %s changed from %s to %s", k.what, old, s)
		}
	}
	for i := range e.errs[ti] {
		k := &e.errs[ti][i]
		if s := k.e.Error(); s != k.text {
			old := k.text
			k.text = s
			return fmt.Sprintf("error of %s changed from %q to %q", k.what, old, s)
		}
	}
	return ""
}

// keepErr retains an error, whose text may not change either.
func (e *Env) keepErr(ti int, err error, what string) {
	if err == nil {
		return
	}
	if len(e.errs[ti]) >= 16 {
		copy(e.errs[ti][4:], e.errs[ti][12:])
		e.errs[ti] = e.errs[ti][:8]
	}
	e.errs[ti] = append(e.errs[ti], keptErr{err, model.ErrText(err), what})
}

func (e *Env) keep(ti int, m syslog.Message, what string) {
	if m == nil {
		return
	}
	s := model.Snap(m)
	if s.Kind == "typednil" || s.Kind == "other" {
		return
	}
	if len(e.kept[ti]) >= 24 { // the first are kept for good
		copy(e.kept[ti][6:], e.kept[ti][16:])
		e.kept[ti] = e.kept[ti][:14]
	}
	e.kept[ti] = append(e.kept[ti], kept{m, s.String(), what})
}

// Input is the bytes a parse operation works on: In if given, else what the
// sender wrote.
func (op *Op) Input() []byte {
	b := []byte(op.In)
	if len(b) > 0 {
		// as given
	} else if op.W != nil {
		b = op.W.Wire()
	} else if op.W3 != nil {
		b = op.W3.Wire()
	}
	if op.Cut != nil {
		c := *op.Cut
		if c < 0 {
			c = 0
		}
		if c < len(b) {
			b = b[:c]
		}
	}
	return b
}

func localYear(zone int) int {
	return time.Unix(0, vsim.Wall()).In(time.FixedZone("", zone)).Year()
}

func (e *Env) parse(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.mach == nil {
		return
	}
	in := op.Input()
	rec.In = in
	// The packet lies in a receive buffer that is reused for the next one.
	const guard = 24
	need := len(in) + guard
	buf := e.bufs[ti]
	if op.Mode == 1 || cap(buf) < need {
		buf = make([]byte, need)
		if op.Mode != 1 {
			e.bufs[ti] = buf
		}
	}
	buf = buf[:need]
	copy(buf, in)
	for i := len(in); i < need; i++ {
		buf[i] = 0x5A
	}
	rec.Year[0] = localYear(e.P.Clock.Zone)
	from := len(e.years)
	var m syslog.Message
	var err error
	if op.Mode == 2 && !e.P.Race {
		var down bool
		if m, err, down = parseDown(o.mach, buf[:len(in):need]); down {
			e.fault("year strategy panic")
			rec.In = nil
			return
		}
	} else {
		m, err = o.mach.Parse(buf[:len(in):need])
	}
	if x := lastErr(e.P.Objs[op.O], o.mach); x != nil {
		rec.LastErr = fmt.Sprint(x.Err())
	}
	rec.Year[1] = localYear(e.P.Clock.Zone)
	rec.Jumped = e.years[from:]
	rec.Res = result(m, err)
	if string(buf[:len(in)]) != string(in) {
		rec.Mod = true
	}
	for i := len(in); i < need; i++ {
		if buf[i] != 0x5A {
			rec.Mod = true
		}
	}
	e.keep(ti, m, fmt.Sprintf("parse of %s", model.Short(in, 60)))
	e.keepErr(ti, err, fmt.Sprintf("parse of %s", model.Short(in, 60)))
	// the buffer is overwritten at once
	for i := range buf {
		buf[i] ^= 0xA5
	}
}

type errer interface{ Err() error }

// lastErr is the machine if it tells the error of the last call; parsers that
// may be shared have no last call.
func lastErr(o Obj, m syslog.Machine) errer {
	if o.K == "m5424" || o.K == "m3164" {
		if x, ok := m.(errer); ok {
			return x
		}
	}
	return nil
}

// turn is the input of round i of a repeat operation.
func (op *Op) turn(i int) B {
	x := (uint64(i)+1)*0x9e3779b97f4a7c15 ^ uint64(op.D)
	x = (x ^ (x >> 29)) * 0xbf58476d1ce4e5b9
	in := op.Ins[int((x>>33)%uint64(len(op.Ins)))]
	if op.Mode&1 == 1 { // every round is different
		if at := bytes.Index(in, counter); at >= 0 {
			in = append(B(nil), in...)
			copy(in[at:], fmt.Sprintf("%0*d", len(counter), i))
		}
	}
	return in
}

var counter = []byte("@@@@@")

// repeat has one machine or stream parser work on inputs that take turns, very
// many times, and keeps some of what it returns.
func (e *Env) repeat(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.mach == nil && o.par == nil || len(op.Ins) == 0 {
		return
	}
	every := op.I/6 + 1
	max := 0
	for _, in := range op.Ins {
		if len(in) > max {
			max = len(in)
		}
	}
	buf := make([]byte, max)
	rec.Year[0] = localYear(e.P.Clock.Zone)
	from := len(e.years)
	for i := 0; i < op.I; i++ {
		vsim.Point()
		in := op.turn(i)
		h := hash(14695981039346656037)
		how := op.Mode >> 1
		if how > 3 {
			how = len(in) % 4
		}
		if o.mach != nil {
			b := buf[:len(in):len(in)]
			copy(b, in)
			m, err := o.mach.Parse(b)
			h.str(result(m, err).String())
			if x := lastErr(e.P.Objs[op.O], o.mach); x != nil {
				h.str(fmt.Sprint(x.Err()))
			}
			if i%every == 0 {
				e.keep(ti, m, fmt.Sprintf("parse number %d of %s", i+1, model.Short(in, 60)))
				e.keepErr(ti, err, fmt.Sprintf("parse number %d of %s", i+1, model.Short(in, 60)))
			}
			for k := range b {
				b[k] ^= 0xA5
			}
		} else {
			o.onCall = func(r *syslog.Result) {
				if r == nil {
					h.str("nil")
					return
				}
				h.str(result(r.Message, r.Error).String())
				if i%every == 0 {
					e.keep(ti, r.Message, fmt.Sprintf("stream number %d", i+1))
				}
				if how == 1 {
					e.fault("listener panic")
					panic(errCustom)
				}
			}
			h.str(tryParse(o.par, &endReader{b: in, how: how, e: e}))
			o.onCall = func(*syslog.Result) {}
		}
		rec.Outs = append(rec.Outs, uint64(h))
	}
	rec.Year[1] = localYear(e.P.Clock.Zone)
	rec.Jumped = e.years[from:]
}

// endReader hands out everything and then ends: 0 and 1 as it should, 2 with a
// panic, 3 with an error.
type endReader struct {
	b   []byte
	how int
	e   *Env
}

func (r *endReader) Read(b []byte) (int, error) {
	if len(r.b) > 0 || len(b) == 0 {
		n := copy(b, r.b)
		r.b = r.b[n:]
		return n, nil
	}
	switch r.how {
	case 2:
		r.e.fault("reader panic")
		panic(errCustom)
	case 3:
		r.e.fault("read error reset")
		return 0, errCustom
	}
	return 0, io.EOF
}

// tryParse runs a parser whose listener or reader may panic with errCustom.
func tryParse(p syslog.Parser, r io.Reader) (how string) {
	defer func() {
		if v := recover(); v != nil {
			if err, ok := v.(error); !ok || err != errCustom {
				panic(v)
			}
			how = "panic"
		}
	}()
	p.Parse(r)
	return "returned"
}

// errors a reader can fail with

type netErr struct{ to bool }

func (n netErr) Error() string {
	if n.to {
		return "read tcp 10.0.0.1:601: i/o timeout"
	}
	return "read tcp 10.0.0.1:601: connection reset by peer"
}
func (n netErr) Timeout() bool   { return n.to }
func (n netErr) Temporary() bool { return n.to }

var errCustom = errors.New("simulated read failure")

func readErr(k string) error {
	switch k {
	case "timeout":
		return netErr{true}
	case "reset":
		return netErr{false}
	case "econnreset":
		return syscall.ECONNRESET
	case "eintr":
		return syscall.EINTR
	case "eagain":
		return syscall.EAGAIN
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closed":
		return io.ErrClosedPipe
	case "noprogress":
		return io.ErrNoProgress
	case "short":
		return io.ErrShortBuffer
	case "wrapeof":
		return fmt.Errorf("tls: %w", io.EOF)
	case "emptytext":
		return errors.New("")
	case "eoftext":
		return errors.New("EOF")
	case "netclosed":
		return &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
	case "deadline":
		return os.ErrDeadlineExceeded
	case "canceled":
		return context.Canceled
	case "epipe":
		return &os.SyscallError{Syscall: "read", Err: syscall.EPIPE}
	case "buffull":
		return bufio.ErrBufferFull
	}
	return errCustom
}

var errKinds = []string{"timeout", "reset", "econnreset", "eintr", "eagain", "unexpected", "closed", "noprogress", "short", "wrapeof", "emptytext", "eoftext", "netclosed", "deadline", "canceled", "epipe", "custom"}

// trapBytes is what a reader offers after it has ended: whole frames for every
// framing, so that reading on becomes visible.
const trapBytes = "16 <7>7 - - - - - -16 <7>7 - - - - - -\n<7>7 - - - - - -\n<7>7 - - - - - -\x00<7>7 - - - - - -\x00"

// simReader is the simulated connection of a stream operation.
type simReader struct {
	e     *Env
	s     *Stream
	rec   *StreamRec
	data  []byte
	pos   int
	ri    int
	trap  int
	zeros int
	kind  string
	empty int // consecutive empty reads
	cur   ReadOp
	left  bool // the rest of cur, which did not fit the caller's buffer, comes next
}

type sameReader struct{ io.Reader }

// richReader is a reader that offers more than Read, as many do, all of it
// upon the same bytes.
type richReader struct {
	r    *simReader
	last byte
	has  bool // last may be taken back
	back bool // and has been
	err  error
}

func (r *richReader) Read(p []byte) (int, error) {
	if r.back && len(p) > 0 {
		r.back, r.has = false, true
		p[0] = r.last
		return 1, nil
	}
	if err := r.err; err != nil {
		r.err, r.has = nil, false
		return 0, err
	}
	n, err := r.r.Read(p)
	if r.has = n > 0; r.has {
		r.last = p[n-1]
	}
	return n, err
}

// ReadByte implements io.ByteReader.
func (r *richReader) ReadByte() (byte, error) {
	var p [1]byte
	for i := 0; i < 100; i++ {
		n, err := r.Read(p[:])
		if n == 1 {
			r.err = err
			return p[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// UnreadByte implements io.ByteScanner.
func (r *richReader) UnreadByte() error {
	if !r.has {
		return bufio.ErrInvalidUnreadByte
	}
	r.has, r.back = false, true
	return nil
}

// WriteTo implements io.WriterTo.
func (r *richReader) WriteTo(w io.Writer) (total int64, err error) {
	p := make([]byte, 512)
	for {
		n, err := r.Read(p)
		m, werr := w.Write(p[:n])
		total += int64(m)
		switch {
		case werr != nil:
			return total, werr
		case err == io.EOF:
			return total, nil
		case err != nil:
			return total, err
		}
	}
}

// Close implements io.Closer; it is for the caller to use.
func (r *richReader) Close() error {
	r.r.rec.Closed = true
	return nil
}

// Len is how much there is now, as the buffer of a connection may tell.
func (r *richReader) Len() int {
	n := 0
	if r.back {
		n = 1
	}
	return n
}

// memory is a reader from memory of the stream's data, which is neither the
// first nor the last there. Afterwards its memory is used for something else.
func memory(s *Stream) (io.Reader, func()) {
	const head, tail = "<7>1 - - - - - -\n16 <6>1 - - - - - -", "16 <5>1 - - - - - -\n<4>1 - - - - - -\n"
	data := s.Data()
	all := append(append([]byte(head), data...), tail...)
	mine := all[:len(head)+len(data)]
	skip := func(r io.Reader) io.Reader {
		if _, err := io.CopyN(ioutil.Discard, r, int64(len(head))); err != nil {
			panic(err)
		}
		return r
	}
	done := func() {
		for i := range all {
			all[i] = '#'
		}
	}
	switch s.Wrap {
	case "bytes":
		return skip(bytes.NewReader(mine)), done
	case "strings":
		return skip(strings.NewReader(string(mine))), done
	case "buffer":
		return skip(bytes.NewBuffer(mine)), done
	case "limited":
		return io.LimitReader(skip(bytes.NewReader(all)), int64(len(data))), done
	case "section":
		return io.NewSectionReader(bytes.NewReader(all), int64(len(head)), int64(len(data))), done
	}
	var rs []io.Reader
	for n := 1; len(data) > 0; n = n*3 + 1 {
		if n > len(data) {
			n = len(data)
		}
		rs = append(rs, bytes.NewReader(data[:n:n]), strings.NewReader(""))
		data = data[n:]
	}
	return io.MultiReader(rs...), done
}

func (r *simReader) scribble(p []byte, n int) {
	if r.s.Scrib {
		for i := n; i < len(p); i++ {
			p[i] = "<1>1 - - - - - -\n16 "[i%20]
		}
	}
}

// Read implements io.Reader as the plan says.
func (r *simReader) Read(p []byte) (int, error) {
	was := r.rec.Ended
	defer func() {
		if !was && r.rec.Ended {
			r.rec.Real = r.pos
		}
	}()
	return r.read(p)
}

func (r *simReader) read(p []byte) (int, error) {
	vsim.Point()
	r.rec.Reads = append(r.rec.Reads, ReadRec{Got: r.rec.Got, Emits: len(r.rec.Emits), Ended: r.rec.Ended})
	if r.rec.Ended {
		if r.trap < r.s.Trap {
			r.trap++
			n := copy(p, trapBytes)
			r.rec.Got += n
			return n, nil
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	var op ReadOp
	planned := false
	if r.left {
		op, planned, r.left = r.cur, true, false
	}
	for r.ri < len(r.s.Reads) && !planned {
		op = r.s.Reads[r.ri]
		r.ri++
		planned = true
		if op.K == "" && op.N <= 0 {
			// Readers may give up after 100 empty reads in a row.
			if r.empty++; r.empty > 90 {
				op, planned = ReadOp{}, false
			}
		} else {
			r.empty = 0
		}
	}
	if !planned {
		op.N = 512
		if r.s.Big {
			op.N = 1 << 30
		}
	}
	if op.Delay > 0 {
		r.e.fault("stalled read")
		vsim.Sleep(op.Delay)
	}
	give := func() int {
		n := op.N
		if n > len(p) {
			n = len(p)
		}
		if n > len(r.data)-r.pos {
			n = len(r.data) - r.pos
		}
		if n < 0 {
			n = 0
		}
		copy(p, r.data[r.pos:r.pos+n])
		r.scribble(p, n)
		r.pos += n
		r.rec.Got += n
		if planned && n == len(p) && n < op.N && r.pos < len(r.data) {
			// faults come at a byte, however large the caller's buffer is
			r.cur, r.left = op, true
			r.cur.N, r.cur.Delay = op.N-n, 0
		}
		return n
	}
	switch op.K {
	case "err":
		r.rec.Ended = true
		r.e.fault("read error " + op.Err)
		return 0, readErr(op.Err)
	case "dataerr":
		n := give()
		if r.left {
			return n, nil
		}
		r.rec.Ended = true
		r.e.fault("data together with read error " + op.Err)
		return n, readErr(op.Err)
	case "eof":
		r.rec.Ended = true
		r.e.fault("early EOF")
		return 0, io.EOF
	case "dataeof":
		n := give()
		if r.left {
			return n, nil
		}
		r.rec.Ended = true
		r.e.fault("data together with early EOF")
		return n, io.EOF
	case "panic":
		r.rec.Ended = true
		r.e.fault("reader panic")
		r.rec.LPan = &userPanic{fmt.Sprintf("reader panic at byte %d", r.pos)}
		r.rec.PanPos = len(r.rec.Emits)
		panic(r.rec.LPan)
	case "forever0":
		// A reader that gets stuck; in the end its connection's deadline ends it
		// (a parser may give up before).
		if r.zeros++; r.zeros > 400 {
			r.rec.Ended = true
			return 0, readErr("timeout")
		}
		r.ri-- // stays here
		if r.zeros == 1 {
			r.e.fault("hundreds of empty reads")
		}
		return 0, nil
	}
	if planned && op.N <= 0 {
		r.e.fault("empty read")
		r.scribble(p, 0)
		return 0, nil
	}
	if r.pos >= len(r.data) {
		r.rec.Ended = true
		if r.s.Ends == "err" || r.s.Ends == "dataerr" {
			r.e.fault("read error " + r.s.Err)
			return 0, readErr(r.s.Err)
		}
		return 0, io.EOF
	}
	n := give()
	if n < len(p) && n < len(r.data)-r.pos+n {
		r.e.fault("short read")
	}
	if r.pos == len(r.data) {
		switch r.s.Ends {
		case "dataeof":
			r.rec.Ended = true
			r.e.fault("last data together with EOF")
			return n, io.EOF
		case "dataerr":
			r.rec.Ended = true
			r.e.fault("last data together with read error " + r.s.Err)
			return n, readErr(r.s.Err)
		}
	}
	return n, nil
}

type userPanic struct{ s string }

func (u *userPanic) Error() string { return u.s }

// Data is the bytes of the stream.
func (s *Stream) Data() []byte {
	n := s.Rep * len(s.Lead)
	for _, p := range s.Parts {
		n += len(p)
	}
	d := make([]byte, 0, n)
	for i := 0; i < s.Rep; i++ {
		d = append(d, s.Lead...)
	}
	for _, p := range s.Parts {
		d = append(d, p...)
	}
	return d
}

// Received is the bytes a reader following the plan to its end would be given
// before it ends, and how it ends.
func (s *Stream) Received() (d []byte, how string) {
	data := s.Data()
	pos := 0
	for _, op := range s.Reads {
		n := op.N
		if n < 0 {
			n = 0
		}
		if n > len(data)-pos {
			n = len(data) - pos
		}
		switch op.K {
		case "err", "eof", "panic", "forever0":
			return data[:pos], op.K
		case "dataerr", "dataeof":
			return data[:pos+n], op.K
		}
		if op.N > 0 && pos >= len(data) {
			break // the regular end comes first
		}
		pos += n
		if pos == len(data) && (s.Ends == "dataeof" || s.Ends == "dataerr") && n > 0 {
			break
		}
	}
	return data, s.Ends
}

func (e *Env) stream(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.par == nil || op.S == nil {
		return
	}
	sr := &StreamRec{PTask: vsim.Self()}
	rec.Stream = sr
	rd := &simReader{e: e, s: op.S, rec: sr, data: op.S.Data(), kind: e.P.Objs[op.O].K}
	e.runParse(ti, o, op, rec, sr, rd)
}

func (e *Env) runParse(ti int, o *object, op *Op, rec *Rec, sr *StreamRec, rd io.Reader) {
	o.onCall = func(r *syslog.Result) {
		vsim.Point()
		em := Emit{Got: sr.Got, Ended: sr.Ended, Task: vsim.Self(), Depth: sr.depth, After: !sr.active, SameAs: -1}
		if r == nil {
			em.NilRes = true
		} else {
			em.Result = result(r.Message, r.Error)
			if i, ok := sr.ptrAt[r]; ok {
				em.SameAs = i
			}
		}
		n := len(sr.Emits)
		sr.Emits = append(sr.Emits, em)
		sr.ptrs = append(sr.ptrs, r)
		if sr.ptrAt == nil {
			sr.ptrAt = map[*syslog.Result]int{}
		}
		sr.ptrAt[r] = n
		if !sr.active {
			return
		}
		sr.depth++
		defer func() { sr.depth-- }()
		if r != nil {
			if op.To > 0 {
				e.forward(op, r.Message, n, rec)
			}
			e.keep(ti, r.Message, fmt.Sprintf("listener call %d", n))
			e.keepErr(ti, r.Error, fmt.Sprintf("listener call %d", n))
		}
		if op.S == nil {
			return
		}
		for _, a := range op.S.L {
			if a.At != n {
				continue
			}
			switch a.K {
			case "panic":
				e.fault("listener panic")
				sr.LPan = &userPanic{fmt.Sprintf("listener panic at call %d", n)}
				sr.PanPos = n + 1
				panic(sr.LPan)
			case "mutate":
				if r != nil {
					e.fault("listener mutates its result")
					mutateMsg(r.Message, n)
					for i := range e.kept[ti] {
						if e.kept[ti][i].m == r.Message {
							e.kept[ti][i].snap = model.Snap(r.Message).String()
						}
					}
					r.Message, r.Error = nil, nil
				}
			case "sleep":
				e.fault("slow listener")
				vsim.Sleep(a.D)
			case "nest":
				if a.Op != nil && !e.uses(a.Op, op.O) {
					e.fault("re-entrant listener")
					nr := &Rec{}
					rec.Nested = append(rec.Nested, nr)
					rec.NestOps = append(rec.NestOps, a.Op)
					e.op(ti, a.Op, nr, true)
				}
			}
		}
	}
	var r io.Reader = rd
	if op.S != nil {
		switch op.S.Wrap {
		case "bufio":
			r = bufio.NewReaderSize(rd, 64)
		case "bufio9k": // large enough to be used as it is
			r = bufio.NewReaderSize(rd, 9000)
		case "same": // the caller has one reader for all its streams
			if o.same == nil {
				o.same = &sameReader{}
			}
			o.same.Reader = rd
			r = o.same
		case "samebufio", "samebufio9k":
			if o.sameb == nil {
				n := 64
				if op.S.Wrap == "samebufio9k" {
					n = 9000
				}
				o.sameb = bufio.NewReaderSize(rd, n)
			}
			o.sameb.Reset(rd)
			r = o.sameb
		case "rich":
			if sim, ok := rd.(*simReader); ok {
				r = &richReader{r: sim}
				e.fault("reader with more methods")
			}
		case "bytes", "strings", "buffer", "limited", "multi", "section":
			d, how := op.S.Received()
			if n := len(op.S.Data()); len(d) == n && (how == "" || how == "eof" || how == "dataeof") {
				var done func()
				r, done = memory(op.S)
				sr.Got, sr.Real, sr.Ended = n, n, true
				e.fault("reader in memory")
				defer done()
			}
		}
	}
	if e.P.Objs[op.O].Swap {
		o.par.WithListener(func(r *syslog.Result) { o.onCall(r) })
	}
	sr.active = true
	func() {
		defer func() {
			if v := recover(); v != nil {
				if vsim.IsAbort(v) {
					panic(v)
				}
				if _, ok := v.(vsim.HangError); ok {
					panic(v)
				}
				sr.Pan = v
				if u, ok := v.(*userPanic); !ok || interface{}(u) != sr.LPan {
					rec.Panic = fmt.Sprintf("%v", v)
				}
			}
		}()
		o.par.Parse(r)
		sr.Ret = true
	}()
	sr.active = false
}

func (e *Env) uses(op *Op, o int) bool {
	if op.O == o && (op.K == "stream" || op.K == "serve") {
		return true
	}
	if op.S != nil {
		for _, l := range op.S.L {
			if l.Op != nil && e.uses(l.Op, o) {
				return true
			}
		}
	}
	return false
}

func mutateMsg(m syslog.Message, mode int) {
	if m == nil {
		return
	}
	if mode >= 2000 {
		if t, ok := m.(*rfc5424.SyslogMessage); ok && t != nil {
			t.Version = uint16(mode - 2000)
		}
		return
	}
	if mode >= 1000 {
		m.ComputeFromPriority(uint8(mode - 1000))
		return
	}
	mb := func(b *syslog.Base) {
		if b.Hostname != nil {
			*b.Hostname = "mutated"
		}
		if b.Appname != nil {
			*b.Appname += "-x"
		}
		if b.ProcID != nil {
			*b.ProcID = ""
		}
		if b.MsgID != nil {
			*b.MsgID = "m"
		}
		if b.Message != nil {
			*b.Message = "changed"
		}
		if b.Timestamp != nil {
			*b.Timestamp = b.Timestamp.Add(time.Hour)
		}
		if b.Priority != nil {
			*b.Priority = 1
		}
		if b.Facility != nil {
			*b.Facility = 23
		}
		if b.Severity != nil {
			*b.Severity = 7
		}
	}
	switch t := m.(type) {
	case *rfc5424.SyslogMessage:
		if t == nil {
			return
		}
		mb(&t.Base)
		t.Version = 998
		if t.StructuredData != nil && *t.StructuredData != nil {
			sd := *t.StructuredData
			for _, ps := range sd {
				if ps == nil {
					continue
				}
				for n := range ps {
					ps[n] = "overwritten"
				}
				ps["added"] = "x"
			}
			sd["new"] = map[string]string{"k": "v"}
			if mode%2 == 1 {
				for id := range sd {
					delete(sd, id)
				}
			}
		}
		if mode%3 == 1 {
			t.SetParameter("zz", "n", "v")
			t.SetHostname("another")
			t.SetMessage("second")
		}
	case *rfc3164.SyslogMessage:
		if t == nil {
			return
		}
		mb(&t.Base)
		if mode%3 == 1 {
			t.ComputeFromPriority(77)
		}
	}
	if mode%3 == 1 {
		model.NamesOf(m, true)
	}
}

func (e *Env) mutate(ti int, op *Op) {
	n := len(e.kept[ti])
	if n == 0 {
		return
	}
	k := &e.kept[ti][((op.I%n)+n)%n]
	e.fault("caller mutates a message")
	mutateMsg(k.m, op.Mode)
	k.snap = model.Snap(k.m).String()
}

// build runs builder calls; the texts String returns are recorded.
func (e *Env) build(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.msg == nil {
		return
	}
	if e.P.Prop == "C23" {
		e.buildEach(o, op, rec)
		return
	}
	doCalls(o.msg, op.Calls, &rec.Str)
	if e.P.Prop == "C24" {
		rec.Names = append(rec.Names, NameRec{model.Snap(o.msg), model.NamesOf(o.msg, op.I%2 == 1)})
	}
	if op.W != nil {
		rec.Res.Msg = model.Snap(o.msg)
	}
}

// buildEach runs builder calls one by one and records the message before and
// after each.
func (e *Env) buildEach(o *object, op *Op, rec *Rec) {
	if o.msg == nil {
		return
	}
	for _, c := range op.Calls {
		before := model.Snap(o.msg)
		if o.last != nil {
			before = *o.last // nobody else may have changed it
		}
		same := doCalls(o.msg, []Call{c}, &rec.Str)
		after := model.Snap(o.msg)
		o.last = &after
		rec.Sets = append(rec.Sets, SetRec{Call: model.Set{M: c.M, A: c.A, N: c.N, V: c.V, I: c.I}, Before: before, After: after, Other: !same})
	}
}

// names asks a retained or built message for its names.
func (e *Env) names(ti int, op *Op, rec *Rec) {
	n := len(e.kept[ti])
	if n == 0 {
		return
	}
	k := &e.kept[ti][((op.I%n)+n)%n]
	for i := 0; i <= op.Mode/2; i++ {
		vsim.Point()
		rec.Names = append(rec.Names, NameRec{model.Snap(k.m), model.NamesOf(k.m, op.Mode%2 == 1)})
	}
	if op.Mode%2 == 1 {
		e.fault("caller overwrites a name it was given")
	}
}

// doCalls reports whether every setter returned its receiver.
func doCalls(m *rfc5424.SyslogMessage, calls []Call, out *[]string) bool {
	var b rfc5424.Builder = m
	for _, c := range calls {
		vsim.Point()
		switch c.M {
		case "pri":
			b = b.SetPriority(uint8(c.I))
		case "ver":
			b = b.SetVersion(uint16(c.I))
		case "ts":
			b = b.SetTimestamp(string(c.A))
		case "host":
			b = b.SetHostname(string(c.A))
		case "app":
			b = b.SetAppname(string(c.A))
		case "proc":
			b = b.SetProcID(string(c.A))
		case "mid":
			b = b.SetMsgID(string(c.A))
		case "eid":
			b = b.SetElementID(string(c.A))
		case "par":
			b = b.SetParameter(string(c.A), string(c.N), string(c.V))
		case "msg":
			b = b.SetMessage(string(c.A))
		case "rawpri":
			v := uint8(c.I)
			m.Priority = &v
		case "rawver":
			m.Version = uint16(c.I)
		case "nopri":
			m.Priority = nil
		case "nilsd":
			var sd map[string]map[string]string
			m.StructuredData = &sd
		case "nilel":
			if sd := m.StructuredData; sd != nil && *sd != nil {
				(*sd)[string(c.A)] = nil
			}
		case "str":
			if out == nil {
				break
			}
			before := model.Snap(m).String()
			s, err := m.String()
			after := model.Snap(m)
			*out = append(*out, strRec(s, err, before, after, m))
		}
	}
	return b == rfc5424.Builder(m)
}

// strRec records a String call with everything the oracle needs.
func strRec(s string, err error, before string, after model.Msg, m *rfc5424.SyslogMessage) string {
	if before != after.String() {
		return "CHANGED from " + before + " to " + after.String()
	}
	valid := after.Pri != nil && *after.Pri <= 191 && after.Ver >= 1 && after.Ver <= 999
	if !valid {
		if err == nil {
			return "NOERR serialised although priority or version is missing or out of range: " + s
		}
		if s != "" {
			return "TEXT with an error: " + s
		}
		return "invalid"
	}
	if err != nil {
		return "ERR " + err.Error() + " for " + after.String()
	}
	ts := "-"
	if m.Timestamp != nil {
		ts = fmtTS(*m.Timestamp)
	}
	want := model.Serialize(*after.Pri, after.Ver, ts, after.Host, after.App, after.Proc, after.MID, after.SD, after.SDok, after.Text)
	if s != want {
		return fmt.Sprintf("DIFF got %q want %q", s, want)
	}
	return "ok " + s
}

// fmtTS writes an RFC 5424 timestamp without the formatting code of package
// time.
func fmtTS(t time.Time) string {
	y, mo, d := t.Date()
	h, mi, s := t.Clock()
	out := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, int(mo), d, h, mi, s)
	if us := t.Nanosecond() / 1000; us > 0 {
		f := fmt.Sprintf(".%06d", us)
		for f[len(f)-1] == '0' {
			f = f[:len(f)-1]
		}
		out += f
	}
	_, off := t.Zone()
	if off == 0 {
		return out + "Z"
	}
	sign := "+"
	if off < 0 {
		sign, off = "-", -off
	}
	return out + fmt.Sprintf("%s%02d:%02d", sign, off/3600, off/60%60)
}
