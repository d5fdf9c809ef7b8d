package world

import (
	"math"
	"sort"
	"strconv"

	"verifsim/model"
	"verifsim/vsim"
)

// Prop is the simulation that decides one property.
type Prop struct {
	ID    string
	Kinds []string // what a run is checked for
	Gen   func(r *Rand, p *Plan)
	Race  bool // also run in the -race build
	Quick int  // runs of the quick tier
	RaceQ int  // runs of the quick tier in the -race build
	Rule  string
	Stub  []string
}

var always = []string{"panic", "hang", "deadlock", "race", "crash"}

// Want is the set of kinds.
func (p *Prop) Want() map[string]bool {
	m := map[string]bool{}
	for _, k := range always {
		m[k] = true
	}
	for _, k := range p.Kinds {
		m[k] = true
	}
	return m
}

// Props by id.
var Props = map[string]*Prop{}

func reg(p *Prop) { Props[p.ID] = p }

// IDs in order.
func IDs() []string {
	var l []string
	for k := range Props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Generate makes the plan of one run.
func Generate(id string, seed uint64, run int, race bool) *Plan {
	r := NewRand(seed, id+"/"+strconv.Itoa(run)+"/"+strconv.FormatBool(race))
	p := &Plan{Prop: id, Seed: seed, Run: run, Race: race, MapSeed: r.U64() >> 12}
	p.Clock.Start = 1_600_000_000 + int64(r.N(50_000_000))
	p.Sched.Kind = "rtb"
	Props[id].Gen(r, p)
	for t := range p.Tasks {
		for i := range p.Tasks[t].Ops {
			if op := &p.Tasks[t].Ops[i]; op.K == "stream" && op.S != nil && r.N(400) == 0 {
				r.lead(p.Objs[op.O], op.S)
			} else if op.K == "parse" && op.O < len(p.Objs) && !race {
				if y := p.Objs[op.O].Year; (y == "op" || y == "opnow") && r.P(12) {
					op.Mode = 2
				}
			}
		}
	}
	if len(p.Tasks) > 1 {
		p.Sched = r.sched()
	}
	return p
}

func (r *Rand) sched() vsim.Strategy {
	s := vsim.Strategy{Seed: r.U64() >> 12}
	switch r.W(10, 30, 25, 10, 25) {
	case 0:
		s.Kind = "rtb"
	case 1:
		s.Kind = "rand"
		s.Mean = int64(r.PickI(1, 2, 5, 10, 30, 100, 300, 1000, 3000))
	case 2:
		s.Kind = "pct"
		s.Depth = r.In(1, 6)
		s.Len = int64(r.PickI(200, 1000, 3000, 10000, 40000))
	case 3:
		s.Kind = "rr"
		s.Mean = int64(r.PickI(1, 2, 3, 7, 20, 100))
	default:
		s.Kind = "site"
		s.Depth = r.In(1, 4)
		s.Mean = int64(r.PickI(0, 0, 0, 200, 2000))
	}
	s.PHint = r.PickI(0, 10, 30, 60)
	if r.P(25) {
		s.Stall = r.PickI(2, 10, 40)
	}
	return s
}

// ---- streams

func (r *Rand) octetObj() Obj {
	o := Obj{K: "octet", BE: r.P(55), Rot: r.N(4), Swap: r.P(10)}
	if m, ok := r.hintUp(20, 1, 70000, 3<<20); ok {
		o.Max = &m
	} else if r.P(45) {
		m := r.PickI(16, 20, 64, 100, 256, 1000, 5000, 8192, 8193, 20000, 70000, r.In(16, 600))
		if r.P(1) {
			m = r.huge()
		}
		o.Max = &m
	}
	return o
}

func (o Obj) limit() int {
	if o.Max != nil {
		return *o.Max
	}
	return 8192
}

func (r *Rand) ntObj() Obj {
	o := Obj{K: r.Pick("lf", "nul"), BE: r.P(55), Rot: r.N(4), Swap: r.P(10)}
	if r.P(15) {
		m := r.PickI(1, 10, 100, 8192)
		o.Max = &m // documented for both; only octet counting limits by it
	}
	return o
}

// framed draws a payload that can be framed (starts with '<', has a byte).
func (r *Rand) framed(pValid, max int) []byte {
	for i := 0; i < 30; i++ {
		p := r.Payload(pValid)
		if r.P(6) && max >= 30 {
			n := max
			if n > 9000 && !r.P(10) {
				n = r.In(4000, 5000)
			}
			p = r.Sized(n)
		}
		if n, ok := r.hint(8, 18, max); ok {
			p = r.Sized(n)
		}
		if r.P(2) && max > 5000 {
			p = r.Sized(r.PickI(4095, 4096, 4097, 4116, 5000))
		}
		if len(p) > 0 && p[0] == '<' && len(p) <= max {
			return p
		}
	}
	p := []byte("<1>1 - - - - - -")
	if len(p) > max {
		p = p[:max]
	}
	return p
}

func frame(p []byte) []byte { return append([]byte(strconv.Itoa(len(p))+" "), p...) }

var octetGarbage = []string{"\n", "\x00", "0", "/", " ", "<1>1 - - - - - -", "x", "012 <1>1 - -", "+5 <1>1 ", "-3 <1>", "16<1>1 - - - - - -", "16  <1>1 - - - - - -", "16 x<1>1 - - - - -", "16 \x00", "16\x00<1>1 - - - - - -", "1/ <1>1 - - - - - -", "1:6 <1>1", "3 <1>x", "16\t<1>1 - - - - - -", "16\n<1>1 - - - - - -", "1\xb2 <1>1 - - - - - -", "１６ <1>1 - - - - - -", "16,<1>1 - - - - - -", "00016 <1>1 - - - - - -", "0 <1>1", "0x10 <1>1 - - - - - -", "\r\n", "16 \n<1>1 - - - - - -", "\xef\xbb\xbf16 <1>1 - - - - - -", "9", "99", "1", " 16 <1>1 - - - - - -", "16 16 <1>1 - - - - - -", "16 0", "16 <"}

var hugeLens = []string{"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551632", "99999999999999999999", "4294967296", "4294967312", "2147483648", "10000000000000000000000000000000000000016", "9223372036854775824"}

// octetStream draws the parts of an octet-counted stream.
func (r *Rand) octetStream(o Obj, n, pValid int, garbage bool) []B {
	var ps []B
	max := o.limit()
	g := -1
	if garbage {
		g = r.N(n + 1)
	}
	for i := 0; i <= n; i++ {
		if i == g {
			if w, ok := r.word(20); ok {
				ps = append(ps, w)
			} else {
				ps = append(ps, B(octetGarbage[r.N(len(octetGarbage))]))
			}
			if r.P(30) {
				continue
			}
		}
		if i < n {
			ps = append(ps, frame(r.framed(pValid, max)))
		}
	}
	return ps
}

// ntStream draws the parts of a non-transparent stream: one part a record.
func (r *Rand) ntStream(o Obj, n, pValid int, bad bool) []B {
	t := byte('\n')
	if o.K == "nul" {
		t = 0
	}
	clean := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		for i := range c {
			if c[i] == t {
				c[i] = '_'
			}
		}
		return c
	}
	var ps []B
	if bad {
		ps = append(ps, append(clean([]byte(r.Pick("x", " ", "16 <1>1 - - - - - -", "\r", "-", "\xef\xbb\xbf<1>1 - - - - - -", ""))), t))
	}
	for i := 0; i < n; i++ {
		p := clean(r.Payload(pValid))
		if r.P(2) {
			p = r.Sized(r.PickI(4090, 4095, 4096, 4097, 5000))
		}
		if n, ok := r.hintUp(5, 18, 70000, 3<<20); ok {
			p = r.Sized(n)
		}
		if r.P(1) && r.P(30) {
			p = r.Sized(r.huge())
		}
		if len(p) == 0 || p[0] != '<' {
			p = []byte("<" + string(p))
		}
		if r.P(10) {
			p = append(p, '\r')
		}
		ps = append(ps, append(p, t))
		more := 0 // very many continuation lines
		if i == 0 && r.P(2) && r.P(40) {
			more = r.PickI(17, 33, 65, 129, 257, 513, 1025)
		}
		if n, ok := r.hint(2, 2, 1100); ok && i == 0 {
			more = n + 1
		}
		for r.P(22) || more > 0 { // continuation lines
			if more--; more > 0 {
				ps = append(ps, append(clean([]byte(r.Pick("", "a", " b"))), t))
				continue
			}
			c := clean([]byte(r.Pick("", "second line", " at x.y(Z.java:1)", "-", "\r", " <2>2 - - - - - -", "x<1>1 - - - - - -", "0", "\x00", "\n")))
			if r.P(30) {
				c = clean(r.utf(r.In(1, 30), true))
			}
			if r.P(15) { // any byte may come first
				c = clean(append([]byte{byte(r.N(r.PickI(32, 256)))}, c...))
			}
			c = clean(r.splice(15, c, nil))
			if len(c) > 0 && c[0] == '<' {
				c[0] = '('
			}
			ps = append(ps, append(c, t))
		}
	}
	return ps
}

func size(ps []B) int {
	n := 0
	for _, p := range ps {
		n += len(p)
	}
	return n
}

// reads draws how the bytes are delivered.
func (r *Rand) reads(ps []B, s *Stream, faults bool) {
	total := size(ps)
	s.Big = r.P(40)
	s.Scrib = r.P(30)
	if r.P(24) {
		s.Wrap = r.Pick("bufio", "bufio", "bufio9k", "samebufio", "samebufio9k", "same", "same", "same", "rich", "rich", "rich",
			"bytes", "strings", "buffer", "limited", "multi", "section")
	}
	stall := 0
	if faults && r.P(25) {
		stall = r.PickI(2, 10, 40)
	}
	empty := 0
	if faults && r.P(35) {
		empty = r.PickI(3, 10, 40)
	}
	add := func(n int) {
		if empty > 0 && r.P(empty) {
			k := r.PickI(1, 1, 1, 2, 5)
			if r.P(2) {
				k = r.In(50, 98)
			}
			for ; k > 0; k-- {
				s.Reads = append(s.Reads, ReadOp{})
			}
		}
		op := ReadOp{N: n}
		if stall > 0 && r.P(stall) {
			op.Delay = int64(r.PickI(1, 1000, 1000000, 1000000000, 6000000000, 40000000000, 700000000000))
			if r.P(5) {
				op.Delay = int64(r.PickI(1, 25)) * 3600 * 1000000000
			}
		}
		s.Reads = append(s.Reads, op)
	}
	switch r.W(15, 20, 15, 20, 20, 10) {
	case 0: // at once
	case 1: // byte by byte, from the start
		n := total + 1
		if n > 500 {
			n = r.In(1, 500)
		}
		for i := 0; i < n; i++ {
			add(1)
		}
	case 2: // small pieces
		m := r.In(2, 9)
		for left := total; left > 0 && len(s.Reads) < 300; {
			k := r.In(1, m)
			add(k)
			left -= k
		}
	case 3: // around the boundaries of frames or records
		carry := 0
		for _, p := range ps {
			d := r.PickI(0, 0, 1, -1, 2, -2, 3)
			k := len(p) + carry + d
			if k < 1 {
				k = 1
			}
			carry += len(p) - k
			if r.P(30) && k > 2 {
				j := r.In(1, k-1)
				add(j)
				k -= j
			}
			add(k)
		}
	case 4: // pieces of any size
		for left := total; left > 0 && len(s.Reads) < 100; {
			k := r.Len(total)
			add(k)
			left -= k
		}
	default: // fixed size
		k := r.or(40, 1, 70000, r.PickI(1, 2, 3, 7, 16, 64, 100, 512, 1024))
		for left := total; left > 0 && len(s.Reads) < 300; {
			add(k)
			left -= k
		}
	}
}

// ends draws how the stream ends after its last byte.
func (r *Rand) ends(s *Stream, pErr int) {
	s.Ends = r.Pick("eof", "eof", "dataeof")
	if r.P(pErr) {
		s.Ends = r.Pick("err", "dataerr")
		s.Err = errKinds[r.N(len(errKinds))]
	}
	s.Trap = r.PickI(0, 1, 1, 3)
}

// cut ends the stream early: the bytes after the cut never arrive.
func (r *Rand) cut(s *Stream) {
	d := s.Data()
	if len(d) == 0 {
		return
	}
	c := r.N(len(d) + 1)
	if r.P(50) { // near a boundary
		k := r.N(len(s.Parts) + 1)
		c = 0
		for _, p := range s.Parts[:k] {
			c += len(p)
		}
		c += r.PickI(-3, -2, -1, 0, 1, 2, 3, 4, 5)
	}
	if c < 0 {
		c = 0
	}
	if c > len(d) {
		c = len(d)
	}
	if r.P(55) {
		// the peer just stops sending there
		var ps []B
		left := c
		for _, p := range s.Parts {
			if left <= 0 {
				break
			}
			if len(p) > left {
				p = p[:left]
			}
			ps = append(ps, p)
			left -= len(p)
		}
		s.Parts = ps
		r.ends(s, 60)
		return
	}
	// the failure comes between reads, with more data behind it
	var rs []ReadOp
	pos := 0
	for _, op := range s.Reads {
		if op.K != "" || pos+op.N >= c {
			break
		}
		rs = append(rs, op)
		pos += op.N
	}
	for pos < c && len(rs) < 600 {
		k := c - pos
		if k > 64 || r.P(30) {
			k = r.In(1, 64)
			if k > c-pos {
				k = c - pos
			}
		}
		if k == c-pos && r.P(35) {
			rs = append(rs, ReadOp{N: k, K: r.Pick("dataerr", "dataeof"), Err: errKinds[r.N(len(errKinds))]})
			pos = -1
			break
		}
		rs = append(rs, ReadOp{N: k})
		pos += k
	}
	if pos >= 0 {
		rs = append(rs, ReadOp{K: r.Pick("err", "err", "eof"), Err: errKinds[r.N(len(errKinds))]})
	}
	s.Reads = rs
	r.ends(s, 30)
	s.Trap = r.PickI(0, 1, 2, 3)
}

func (p *Plan) obj(o Obj) int {
	p.Objs = append(p.Objs, o)
	return len(p.Objs) - 1
}

func (p *Plan) task(ops ...Op) { p.Tasks = append(p.Tasks, Task{Ops: ops}) }

// some is a small count with a tail.
func (r *Rand) some() int {
	if r.P(2) {
		r.many = true
		return r.PickI(17, 33, 65, 70, 129, 150, 260, 300)
	}
	r.many = false
	if n, ok := r.hint(3, 2, 400); ok {
		r.many = n > 8
		return n
	}
	return r.PickI(0, 1, 1, 2, 2, 3, 3, 4, 5, 8)
}

// rounds is a number of times past what small counters and tables hold.
func (r *Rand) rounds() int {
	if r.P(3) {
		return r.PickI(4100, 10010, 65537, 65540)
	}
	return r.PickI(40, 66, 70, 130, 257, 260, 300, 515, 1025, 1100)
}

// repeat is an operation that has a machine or stream parser do very much.
func (r *Rand) repeat(id int, o Obj) Op {
	op := Op{K: "repeat", O: id, I: r.rounds(), D: int64(r.N(1 << 20))}
	if v, ok := r.hint(40, 2, 1<<17); ok {
		op.I = v + 1
	}
	for k := r.PickI(1, 2, 3, 6); k > 0; k-- {
		var in B
		switch o.K {
		case "m5424", "p5424":
			in = r.Small()
			if r.P(40) {
				in = r.Payload(50)
			}
		case "m3164", "p3164":
			in = r.in3164(60)
		default:
			s := &Stream{}
			r.many = true
			if o.K == "octet" {
				s.Parts = r.octetStream(o, r.PickI(0, 1, 1, 2), 70, r.P(15))
			} else {
				s.Parts = r.ntStream(o, r.PickI(0, 1, 1, 2), 70, r.P(10))
			}
			r.many = false
			in = s.Data()
			if r.P(25) {
				in = in[:r.N(len(in)+1)]
			}
		}
		if len(in) > 400 && op.I > 50 {
			in = in[:r.In(1, 400)]
		}
		op.Ins = append(op.Ins, in)
	}
	if len(op.Ins) > 1 && op.I > 5000 {
		op.Ins = op.Ins[:1]
	}
	if r.P(30) && op.I < 20000 {
		op.Mode = 1
		f := Fields{Pri: r.In(0, 191), Ver: 1, Host: B("h@@@@@"), App: r.header(8, true), Msg: B("m")}
		switch r.N(4) {
		case 0:
			f.App = B("@@@@@")
		case 1:
			f.MID = B("id@@@@@")
		case 2:
			f.SD = []model.Elem{{ID: B("id"), P: []model.Param{{N: B("k"), V: B("v@@@@@")}}}}
		}
		if f.Host != nil && r.P(60) {
			f.Host = B("host")
			f.Msg = B("text @@@@@")
		}
		w := B(f.Wire())
		switch o.K {
		case "m3164", "p3164":
			w = B("<13>Jan  2 03:04:05 h" + r.Pick("@@@@@ app", " a@@@@@", " app[@@@@@]") + ": text")
		case "octet":
			w = frame(w)
		case "lf":
			w = append(w, '\n')
		case "nul":
			w = append(w, 0)
		}
		op.Ins = []B{w}
	}
	if o.K == "octet" || o.K == "lf" || o.K == "nul" {
		op.Mode |= r.PickI(0, 0, 1, 2, 3, 4) << 1
	}
	return op
}

// lead has a stream begin with very many small messages.
func (r *Rand) lead(o Obj, s *Stream) {
	f := Fields{Pri: r.In(0, 191), Ver: 1, App: r.header(4, true)}
	s.Rep = r.rounds()
	if v, ok := r.hint(40, 2, 1<<17); ok {
		s.Rep = v + 1
	}
	switch o.K {
	case "octet":
		s.Lead = frame(f.Wire())
	case "lf":
		s.Lead = append(f.Wire(), '\n')
	default:
		s.Lead = append(f.Wire(), 0)
	}
}

// conns draws several independent connections, each on its own stream parser.
func (r *Rand) conns(p *Plan, kind func() Obj, mk func(o Obj) *Stream) {
	n := 1 + r.W(65, 22, 13)
	for i := 0; i < n; i++ {
		o := kind()
		s := mk(o)
		p.task(Op{K: "stream", O: p.obj(o), S: s})
	}
}

// anyStream is a stream of the object's kind with every fault mixed in.
func (r *Rand) anyStream(o Obj, n, pValid int) *Stream {
	s := &Stream{}
	if o.K == "octet" {
		s.Parts = r.octetStream(o, n, pValid, r.P(15))
	} else {
		s.Parts = r.ntStream(o, n, pValid, r.P(8))
		if r.P(30) {
			s.Parts = append(s.Parts, B(r.Pick("<1>1 - - - - - - rest", "x", "<", "<34>1 2003-10-11T22:14:15Z h a - - - partial", " ")))
		}
	}
	r.reads(s.Parts, s, true)
	r.ends(s, 20)
	if r.P(35) {
		r.cut(s)
	}
	return s
}

func (r *Rand) streamObj() Obj {
	if r.P(50) {
		return r.octetObj()
	}
	return r.ntObj()
}

func init() {
	reg(&Prop{ID: "C01", Kinds: []string{"stream-results"}, Quick: 280000, Gen: genC01,
		Rule: "one run: 1-3 octet-counted connections with 0-8 frames each (any payload the frame format can carry, limits from 16 to 70000, 20% with bytes that are not a frame), delivered by a simulated reader in drawn pieces with stalls and empty reads; non-trivial: at least one frame was delivered"})
	reg(&Prop{ID: "C02", Kinds: []string{"stream-results"}, Quick: 280000, Gen: genC02,
		Rule: "one run: 1-3 LF or NUL framed connections with 0-8 messages and continuation lines, delivered in drawn pieces with stalls and empty reads; non-trivial: at least one message was delivered"})
	reg(&Prop{ID: "C03", Kinds: []string{"stream-results"}, Quick: 280000, Gen: genC03,
		Rule: "one run: 1-3 octet-counted connections cut at a drawn byte by EOF, an error, data together with an error, or a failing read followed by more data; non-trivial: the cut fell inside the stream"})
	reg(&Prop{ID: "C04", Kinds: []string{"stream-results"}, Quick: 570000, Gen: genC04,
		Rule: "one run: 1-3 LF or NUL framed connections cut at a drawn byte by EOF, an error, data together with an error, or a failing read followed by more data; non-trivial: the cut fell inside the stream"})
	reg(&Prop{ID: "C05", Kinds: []string{"stream-results", "readahead"}, Quick: 430000, Gen: genC05,
		Rule: "one run: a connection whose peer declares lengths below, at, above and far beyond a drawn limit and goes on sending; non-trivial: a frame of at least limit-2 or an excessive length occurred"})
	reg(&Prop{ID: "C06", Kinds: []string{"stream-results"}, Quick: 240000, Gen: genC06,
		Rule: "one run: connections whose payloads are damaged in transit without touching the framing; non-trivial: at least one damaged payload next to an intact one"})
	reg(&Prop{ID: "C07", Kinds: []string{"prompt", "read-on", "listener"}, Quick: 240000, Gen: genC07,
		Rule: "one run: connections of all framings whose reader records at every Read which results were out; stalls at drawn bytes, every kind of end and framing error; non-trivial: a result was due before the end"})
	reg(&Prop{ID: "C08", Kinds: []string{"reuse-diff"}, Quick: 190000, Gen: genC08,
		Rule: "one run: one parser gets 2-5 streams one after another, each ended in a drawn way including listener and reader panics, and every stream is repeated alone on a new parser; non-trivial: a later stream delivered results"})
	reg(&Prop{ID: "C20", Kinds: []string{"listener", "stream-results", "parse-vs-fresh"}, Quick: 190000, Gen: genC20,
		Rule: "one run: 1-3 connections whose listeners run nested parses and streams, change their results, stall or panic at drawn calls, and readers that panic; non-trivial: a listener acted or panicked"})
}

func genC01(r *Rand, p *Plan) {
	r.conns(p, r.octetObj, func(o Obj) *Stream {
		s := &Stream{}
		pv := 97
		if o.BE {
			pv = 75
		}
		s.Parts = r.octetStream(o, r.some(), pv, r.P(22))
		r.reads(s.Parts, s, true)
		r.ends(s, 10)
		return s
	})
}

func genC02(r *Rand, p *Plan) {
	r.conns(p, r.ntObj, func(o Obj) *Stream {
		s := &Stream{}
		s.Parts = r.ntStream(o, r.some(), 75, r.P(10))
		r.reads(s.Parts, s, true)
		r.ends(s, 10)
		return s
	})
}

func genC03(r *Rand, p *Plan) {
	r.conns(p, r.octetObj, func(o Obj) *Stream {
		s := &Stream{}
		s.Parts = r.octetStream(o, r.PickI(1, 1, 2, 3, 4), 97, r.P(3))
		r.reads(s.Parts, s, r.P(50))
		r.cut(s)
		return s
	})
}

func genC04(r *Rand, p *Plan) {
	r.conns(p, r.ntObj, func(o Obj) *Stream {
		s := &Stream{}
		s.Parts = r.ntStream(o, r.PickI(1, 1, 2, 3, 4), 80, r.P(3))
		r.reads(s.Parts, s, r.P(50))
		r.cut(s)
		return s
	})
}

func genC05(r *Rand, p *Plan) {
	n := 1 + r.W(75, 25)
	for i := 0; i < n; i++ {
		o := r.octetObj()
		if m, ok := r.hintUp(15, 1, 70000, 3<<20); ok {
			o.Max = &m
		} else if r.P(70) {
			m := r.PickI(1, 2, 3, 16, 17, 20, 44, 45, 100, 255, 256, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 10000, r.In(1, 300))
			if r.P(3) { // nothing is allowed
				m = r.PickI(0, 0, -1, -20, -8192, math.MinInt64)
			}
			o.Max = &m
		}
		max := o.limit()
		s := &Stream{}
		k := r.PickI(0, 0, 1, 1, 2, 3)
		if max < 1 {
			max, k = 0, 0
		}
		for ; k > 0; k-- {
			switch r.W(40, 60) {
			case 0:
				s.Parts = append(s.Parts, frame(r.framed(95, max)))
			default: // at or just below the limit
				n := max - r.PickI(0, 0, 0, 1, 2)
				if n >= 18 {
					s.Parts = append(s.Parts, frame(r.Sized(n)))
				} else if n >= 1 {
					s.Parts = append(s.Parts, frame([]byte("<1>1 - - - - - - x")[:n]))
				}
			}
		}
		if r.P(75) {
			l := strconv.Itoa(max + r.PickI(1, 1, 2, 10, 1000))
			if r.P(55) {
				l = hugeLens[r.N(len(hugeLens))]
			}
			if r.P(15) {
				l = string(r.chars("123456789", 1)) + string(r.chars("0123456789", r.In(1, 60)))
			}
			if r.P(6) { // an endless number
				l = "1" + string(r.chars("0123456789", 2*max+9000))
			}
			body := []byte(" <1>1 - - - - - - ")
			fill := r.or(10, 0, 70000, r.PickI(0, 20, 100, max, max+40))
			if r.P(20) {
				fill = 3*max + 9000
			}
			body = append(body, r.chars(plainch, fill)...)
			s.Parts = append(s.Parts, append(B(l), body...))
			if r.P(30) {
				s.Parts = append(s.Parts, frame(r.framed(95, max)))
			}
		}
		if size(s.Parts) > 3000 {
			s.Big = r.P(70)
			if r.P(50) {
				s.Reads = []ReadOp{{N: r.In(1, 40)}, {N: r.In(1, 3000)}, {N: 1}, {N: 1}}
			}
		} else {
			r.reads(s.Parts, s, r.P(40))
			s.Wrap = ""
		}
		r.ends(s, 20)
		if r.P(15) {
			r.cut(s)
		}
		p.task(Op{K: "stream", O: p.obj(o), S: s})
	}
}

func genC06(r *Rand, p *Plan) {
	r.conns(p, r.streamObj, func(o Obj) *Stream {
		s := &Stream{}
		n := r.PickI(2, 2, 3, 3, 4, 5, 8)
		if r.P(2) {
			n = r.PickI(20, 40, 80, 140)
		}
		n = r.or(3, 2, 200, n)
		k := 1
		if r.P(40) {
			k = r.In(1, n)
		}
		if r.P(10) {
			k = n * 3
		}
		bad := map[int]bool{}
		for ; k > 0; k-- {
			bad[r.N(n)] = true
		}
		t := byte('\n')
		if o.K == "nul" {
			t = 0
		}
		for i := 0; i < n; i++ {
			tries := 0
			for {
				w := r.Small()
				if r.P(60) {
					w = r.FieldsGen().Wire()
				}
				if bad[i] {
					w = r.Damage(w, r.PickI(1, 1, 2, 4))
					if r.P(25) {
						w = r.wordDamage(w)
					}
					if len(w) > 0 && w[0] != '<' {
						w[0] = '<'
					}
				}
				if len(w) == 0 || w[0] != '<' || o.K == "octet" && len(w) > o.limit() {
					if tries++; tries > 20 {
						w = []byte("<1>1 - - - - - -")
						if bad[i] {
							w = []byte("<1>1 - - - - -")
						}
						if o.K == "octet" && len(w) > o.limit() {
							w = w[:o.limit()]
						}
						s.Parts = append(s.Parts, frame(w))
						break
					}
					continue
				}
				if o.K == "octet" {
					s.Parts = append(s.Parts, frame(w))
				} else {
					for i := range w {
						if w[i] == t {
							w[i] = '~'
						}
					}
					s.Parts = append(s.Parts, append(w, t))
				}
				break
			}
		}
		r.reads(s.Parts, s, r.P(40))
		r.ends(s, 10)
		return s
	})
}

func genC07(r *Rand, p *Plan) {
	r.conns(p, r.streamObj, func(o Obj) *Stream {
		s := r.anyStream(o, r.PickI(1, 2, 2, 3, 4), 85)
		s.Trap = r.PickI(1, 2, 3)
		return s
	})
}

// abandon makes listener or reader panic somewhere.
func (r *Rand) abandon(s *Stream) {
	if r.P(60) {
		s.L = append(s.L, LAct{At: r.PickI(0, 0, 1, 1, 2, 3), K: "panic"})
		return
	}
	k := r.N(len(s.Reads) + 1)
	s.Reads = append(append([]ReadOp(nil), s.Reads[:k]...), ReadOp{K: "panic"})
}

func genC08(r *Rand, p *Plan) {
	nt := 1
	if r.P(15) {
		nt = 2
	}
	for t := 0; t < nt; t++ {
		o := r.streamObj()
		id := p.obj(o)
		var ops []Op
		wrap := ""
		if r.P(20) { // one reader for all the streams
			wrap = r.Pick("same", "same", "samebufio", "samebufio9k")
		}
		for k := r.or(10, 2, 20, r.PickI(2, 2, 3, 3, 4, 5)); k > 0; k-- {
			s := r.anyStream(o, r.PickI(0, 1, 1, 2, 3), 80)
			if wrap != "" {
				s.Wrap = wrap
			}
			if r.P(25) {
				r.abandon(s)
			}
			ops = append(ops, Op{K: "stream", O: id, S: s})
			if r.N(400) == 0 {
				ops = append(ops, r.repeat(id, o))
			}
		}
		p.task(ops...)
	}
}

func genC20(r *Rand, p *Plan) {
	shared := -1
	if r.P(40) {
		shared = p.obj(Obj{K: "p5424", BE: r.P(50)})
	}
	r.conns(p, r.streamObj, func(o Obj) *Stream {
		s := r.anyStream(o, r.PickI(1, 2, 3, 4), 80)
		if r.P(20) {
			r.abandon(s)
		}
		for k := r.PickI(0, 1, 1, 2, 3); k > 0; k-- {
			a := LAct{At: r.N(5)}
			switch r.W(20, 65, 15) {
			case 0:
				a.K = "mutate"
			case 1:
				a.K = "nest"
				op := Op{K: "parse", In: r.Payload(60)}
				switch {
				case shared >= 0 && r.P(40):
					op.O = shared
				case r.P(40):
					op.O = p.obj(Obj{K: r.Pick("m5424", "p5424"), BE: r.P(50), CM: r.P(20)})
				case r.P(20):
					op.O = p.obj(Obj{K: "m3164", BE: r.P(50)})
					op.In = r.F3164Gen(false).Wire()
				default:
					o2 := r.streamObj()
					op.K, op.In = "stream", nil
					op.O = p.obj(o2)
					op.S = r.anyStream(o2, r.In(1, 2), 80)
				}
				a.Op = &op
			default:
				a.K, a.D = "sleep", int64(r.PickI(1, 1000, 1000000, 90000000000))
			}
			s.L = append(s.L, a)
		}
		return s
	})
}

var _ = model.Leap
