package world

import (
	"fmt"
	"strconv"
	"time"

	"verifsim/model"
)

func init() {
	reg(&Prop{ID: "C09", Kinds: []string{"parse-vs-fresh"}, Quick: 120000, Race: true, RaceQ: 12000, Gen: genC09,
		Rule: "one run: 2-4 goroutines call Parse 1-5 times each on 1-2 shared parsers under a drawn statement-level schedule, every outcome is compared with a new parser alone; non-trivial: two goroutines used one parser and at least one switch happened inside a call"})
	reg(&Prop{ID: "C10", Kinds: []string{"parse-vs-fresh", "stream-results", "builder-alone", "builder-text", "builder-fields", "config"}, Quick: 120000, Race: true, RaceQ: 12000, Gen: genC10,
		Rule: "one run: 2-4 goroutines each build messages, parse and stream with objects of their own under a drawn statement-level schedule, every outcome is compared with the same calls alone; non-trivial: at least one switch happened inside a call"})
	reg(&Prop{ID: "C11", Kinds: []string{"retained-changed", "error-changed", "input-modified", "parse-vs-fresh", "stream-results"}, Quick: 90000, Race: true, RaceQ: 8000, Gen: genC11,
		Rule: "one run: 1-3 goroutines keep every message they get, reuse receive buffers, change messages and go on parsing and streaming; every kept message is compared with its snapshot after every operation; non-trivial: at least two messages were kept"})
	reg(&Prop{ID: "C12", Kinds: []string{"parse-vs-fresh"}, Quick: 380000, Gen: genC12,
		Rule: "one run: one machine or parser gets 2-12 inputs, most cut or damaged inside some field, every outcome is compared with a new one; non-trivial: a parse followed a failed one"})
	reg(&Prop{ID: "C13", Kinds: []string{"delivery", "builder-text", "builder-fields", "listener"}, Quick: 240000, Gen: genC13,
		Rule: "one run: clients build 1-6 messages, serialise, frame and send them over 1-3 simulated connections with chunking, latency and cuts; the server's listener is compared with the senders' fields; non-trivial: at least one message was delivered"})
	reg(&Prop{ID: "C14", Kinds: []string{"intent", "outcome"}, Quick: 380000, Gen: genC14,
		Rule: "one run: 1-4 senders send 1-4 packets each through a lossy, duplicating, reordering, delaying, truncating network to 1-3 workers sharing parsers; every parse is compared with what the sender of that packet said; non-trivial: at least one packet arrived"})
	reg(&Prop{ID: "C15", Kinds: []string{"ref5424"}, Quick: 240000, Gen: genC15,
		Rule: "one run: 6-24 packets damaged in transit (bit flips, drops, insertions, swaps, truncation, repeats) are parsed and compared with the reference recogniser; non-trivial: at least one damaged packet"})
	reg(&Prop{ID: "C16", Kinds: []string{"builder-text", "builder-fields", "same-text"}, Quick: 90000, Race: true, RaceQ: 8000, Gen: genC16,
		Rule: "one run: messages with equal values reached through different setter histories are serialised by 1-3 goroutines under drawn map iteration orders and schedules, and compared with the reference serialisation; non-trivial: a message with at least two elements or parameters was serialised"})
	reg(&Prop{ID: "C17", Kinds: []string{"year"}, Quick: 760000, Gen: genC17,
		Rule: "one run: 1-4 RFC 3164 parsers made at drawn moments parse Stamp and RFC 3339 messages while the simulated wall clock runs, is stepped forward and backward and crosses year ends; non-trivial: a parse happened in another year than its parser was made in, or after a clock step"})
	reg(&Prop{ID: "C18", Kinds: []string{"intent3164", "outcome"}, Quick: 380000, Gen: genC18,
		Rule: "one run: 1-4 senders send RFC 3164 packets through a lossy, duplicating, reordering, delaying, truncating, corrupting network to 1-3 workers sharing parsers; every parse is compared with what the sender of that packet said; non-trivial: at least one packet arrived"})
	reg(&Prop{ID: "C19", Kinds: []string{"parse-vs-fresh"}, Quick: 380000, Gen: genC19,
		Rule: "one run: hostile bytes and read failures for every parser, framing, option and builder setter under a work limit of 60000 + 400 executed statements per byte, then a well-formed message on the same objects; non-trivial: at least one malformed input"})
}

func (r *Rand) obj5424(shared bool) Obj {
	o := Obj{K: "m5424", BE: r.P(50), CM: r.P(25), Rot: r.N(2)}
	if shared {
		o.K = "p5424"
	}
	return o
}

var zones = []string{"", "", "UTC", "3600", "-18000", "19800", "50400", "-43200", "America/New_York", "Europe/Rome", "Asia/Kolkata"}

func (r *Rand) obj3164(shared bool) Obj {
	o := Obj{K: "m3164", BE: r.P(50), R3339: r.P(40), Rot: r.N(5)}
	if shared {
		o.K = "p3164"
	}
	o.Year = r.Pick("", "", "", "2019", "2019", "2024", "2024", "1970", "op", "op", "9999", "1", "0", "-1", "10000", "2100")
	if y, ok := r.hint(15, 1, 9999); ok {
		o.Year = itoa(y)
	}
	if r.P(30) {
		o.Loc = zones[r.N(len(zones))]
	}
	if r.P(30) {
		o.TZ = zones[r.N(len(zones))]
	}
	return o
}

// in3164 draws RFC 3164 bytes: valid, damaged, truncated or odd.
func (r *Rand) in3164(pValid int) []byte {
	f := r.F3164Gen(r.P(25))
	w := f.Wire()
	if r.P(pValid) {
		return w
	}
	switch r.W(30, 40, 15, 15) {
	case 0:
		return w[:r.N(len(w)+1)]
	case 1:
		return r.Damage(w, r.PickI(1, 1, 2, 3))
	case 2:
		return []byte(r.Pick("", "<", "<1>", "<13>Dec  2 16:31:03", "<13>Dec  2 16:31:03 host", "<13>Dec  2 16:31:03 host ", "<13>Dec  2 16:31:03 host app:", "<13>Dec  2 16:31:03 host app[", "<13>Dec  2 16:31:03 host app[]: x", "<13>Dec  2 16:31:03 host app[1]: x\n", "<13>Dec 32 16:31:03 host app: x", "<13>Feb 30 16:31:03 host app: x", "<13>Feb 29 16:31:03 host app: x", "<192>Dec  2 16:31:03 host app: x", "\n", "x\n<1>Jan  1 00:00:00 h t: m", "<13>2003-10-11T22:14:15Z host app: x", "<13>2003-02-30T22:14:15Z host app: x", "<13>Dec  2 16:31:03 host app x", "<13>Dec  2 16:31:03  app: x", "<13>Dec  2 16:31:03 host :", "<0>Jan  1 00:00:00 - -[-]: -"))
	default:
		n := r.In(0, 40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	}
}

func genC09(r *Rand, p *Plan) {
	n5, n3 := 1, 0
	switch r.W(50, 25, 25) {
	case 1:
		n5, n3 = 0, 1
	case 2:
		n5, n3 = 1, 1
	}
	var ids []int
	for ; n5 > 0; n5-- {
		ids = append(ids, p.obj(r.obj5424(true)))
	}
	for ; n3 > 0; n3-- {
		ids = append(ids, p.obj(r.obj3164(true)))
	}
	nt := 2 + r.W(60, 30, 10)
	if r.P(2) { // a crowd
		nt = r.PickI(5, 6, 9, 10, 17, 18, 33)
	}
	pv := r.PickI(30, 60, 90)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := r.or(5, 1, 40, r.PickI(1, 1, 2, 2, 3, 5)); k > 0; k-- {
			id := ids[r.N(len(ids))]
			op := Op{K: "parse", O: id}
			if p.Objs[id].K == "p5424" {
				op.In = r.Payload(pv)
				if r.P(40) {
					op.In = r.Small()
				}
			} else {
				op.In = r.in3164(pv)
			}
			if r.N(1500) == 0 {
				op = r.repeat(id, p.Objs[id])
			}
			ops = append(ops, op)
		}
		p.task(ops...)
	}
}

var sdids = []string{"a", "id", "exampleSDID@32473", "origin", "x-1", "zz"}
var pnames = []string{"k", "n1", "n2", "eventSource", "a", "z"}

// buildCalls draws builder calls, most of them valid.
func (r *Rand) buildCalls(n, pOdd int) []Call {
	var cs []Call
	for ; n > 0; n-- {
		odd := r.P(pOdd)
		val := func(max int) B {
			if odd {
				return r.oddText()
			}
			v := r.header(max, false)
			if v == nil {
				v = B("v")
			}
			return v
		}
		switch r.N(12) {
		case 0:
			cs = append(cs, Call{M: "pri", I: r.PickI(0, 1, 191, 34, r.N(256))})
		case 1:
			cs = append(cs, Call{M: "ver", I: r.PickI(1, 2, 999, r.N(1100), 65535)})
		case 2:
			ts := r.TS()
			if odd {
				ts = string(r.oddText())
			}
			cs = append(cs, Call{M: "ts", A: B(ts)})
		case 3:
			cs = append(cs, Call{M: "host", A: val(255)})
		case 4:
			cs = append(cs, Call{M: "app", A: val(48)})
		case 5:
			cs = append(cs, Call{M: "proc", A: val(128)})
		case 6:
			cs = append(cs, Call{M: "mid", A: val(32)})
		case 7:
			c := Call{M: "eid", A: B(sdids[r.N(len(sdids))])}
			if odd {
				c.A = r.oddText()
			}
			cs = append(cs, c)
		case 8, 9, 10:
			c := Call{M: "par", A: B(sdids[r.N(len(sdids))]), N: B(pnames[r.N(len(pnames))]), V: EscapeForBuilder(r.utf(r.In(1, 12), true))}
			if odd {
				switch r.N(3) {
				case 0:
					c.A = r.oddText()
				case 1:
					c.N = r.oddText()
				default:
					c.V = r.oddText()
				}
			}
			cs = append(cs, c)
		default:
			cs = append(cs, Call{M: "msg", A: r.text()})
		}
	}
	return cs
}

func (r *Rand) oddText() B {
	if w, ok := r.word(10); ok {
		return r.splice(100, w, nil)
	}
	switch r.N(7) {
	case 0:
		return nil
	case 1:
		return B(r.Pick(" ", "-", "a b", "\"", "]", "=", "\\", "a\\", "a\"b", "x]", "a=b", "\xff", "\xc3", "é", "\n", "\x00", "a\\x", "\\\\", "\\\"", "1985-04-12", "24:00", "1985-04-12T23:20:50.52", "<1>1 - - - - - -"))
	case 2:
		return r.chars(printable, r.PickI(32, 33, 48, 49, 128, 129, 255, 256, 300))
	case 3:
		return r.utf(r.In(1, 40), true)
	case 4:
		n := r.In(1, 20)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(r.N(256))
		}
		return b
	case 5:
		return r.Damage([]byte(r.TS()), 1)
	default:
		return r.chars(plainch, r.In(1, 40))
	}
}

func genC10(r *Rand, p *Plan) {
	nt := 2 + r.W(60, 30, 10)
	mix := r.N(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		b, m5, m3, st := -1, -1, -1, -1
		for k := r.PickI(1, 1, 2, 3, 4); k > 0; k-- {
			w := r.N(4)
			if r.P(60) {
				w = mix
			}
			switch w {
			case 0: // building
				if b < 0 || r.P(30) {
					b = p.obj(Obj{K: "b"})
					if r.P(60) {
						f := r.FieldsGen()
						op := Op{K: "build", O: b, W: &f, Calls: fieldCalls(f, r)}
						op.Calls = append(op.Calls, Call{M: "str"})
						ops = append(ops, op)
						continue
					}
				}
				op := Op{K: "build", O: b, Calls: append([]Call{{M: "pri", I: r.N(192)}, {M: "ver", I: 1}}, r.buildCalls(r.In(1, 6), 20)...)}
				op.Calls = append(op.Calls, Call{M: "str"})
				ops = append(ops, op)
			case 1:
				if m5 < 0 || r.P(20) {
					m5 = p.obj(r.obj5424(r.P(30)))
				}
				if r.N(600) == 0 {
					ops = append(ops, r.repeat(m5, p.Objs[m5]))
				}
				ops = append(ops, Op{K: "parse", O: m5, In: r.Payload(60)})
			case 2:
				if m3 < 0 || r.P(20) {
					m3 = p.obj(r.obj3164(r.P(30)))
				}
				ops = append(ops, Op{K: "parse", O: m3, In: r.in3164(60)})
			default:
				if r.P(15) {
					ops = append(ops, Op{K: "trailer", In: r.trailerText(r.Pick("lf", "nul"), r.P(60)), I: r.PickI(0, 1, 0, 1, 2, -1, 3, 10, 255, 256, -2, 1<<40), Mode: r.N(3)})
					continue
				}
				if st < 0 || r.P(30) {
					st = p.obj(r.streamObj())
				}
				ops = append(ops, Op{K: "stream", O: st, S: r.anyStream(p.Objs[st], r.In(1, 2), 80)})
			}
		}
		p.task(ops...)
	}
	if r.P(25) {
		for i := range p.Objs {
			p.Objs[i].Late = r.P(50)
		}
	}
}

func genC11(r *Rand, p *Plan) {
	nt := 1 + r.W(60, 30, 10)
	sh5, sh3 := -1, -1
	if r.P(60) {
		sh5 = p.obj(r.obj5424(true))
	}
	if r.P(40) {
		sh3 = p.obj(r.obj3164(true))
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		m5, m3, st := sh5, sh3, -1
		for k := r.PickI(2, 3, 4, 6, 8, 10); k > 0; k-- {
			switch r.W(40, 20, 20, 20) {
			case 0:
				if m5 < 0 {
					m5 = p.obj(r.obj5424(false))
				}
				ops = append(ops, Op{K: "parse", O: m5, In: r.Payload(75), Mode: r.PickI(0, 0, 0, 1)})
				if r.N(400) == 0 {
					ops = append(ops, r.repeat(m5, p.Objs[m5]))
				}
			case 1:
				if m3 < 0 {
					m3 = p.obj(r.obj3164(false))
				}
				ops = append(ops, Op{K: "parse", O: m3, In: r.in3164(75), Mode: r.PickI(0, 0, 0, 1)})
				if r.N(400) == 0 {
					ops = append(ops, r.repeat(m3, p.Objs[m3]))
				}
			case 2:
				if st < 0 || r.P(30) {
					st = p.obj(r.streamObj())
				}
				s := r.anyStream(p.Objs[st], r.In(1, 4), 85)
				for j := r.PickI(0, 0, 1, 2); j > 0; j-- {
					s.L = append(s.L, LAct{At: r.N(4), K: "mutate"})
				}
				ops = append(ops, Op{K: "stream", O: st, S: s})
			default:
				ops = append(ops, Op{K: "mutate", I: r.N(24), Mode: r.N(6)})
			}
		}
		p.task(ops...)
	}
}

func genC12(r *Rand, p *Plan) {
	k := r.W(60, 40)
	var o Obj
	if k == 0 {
		o = r.obj5424(r.P(40))
	} else {
		o = r.obj3164(r.P(40))
	}
	id := p.obj(o)
	var ops []Op
	var last B
	total := r.or(3, 2, 400, r.PickI(2, 2, 3, 4, 6, 12))
	if r.P(1) {
		total = r.PickI(40, 70, 140, 260)
	}
	for n := total; n > 0; n-- {
		op := Op{K: "parse", O: id}
		switch {
		case last != nil && r.P(20):
			op.In = last
		case k == 0:
			op.In = r.Payload(40)
			if r.P(30) { // cut inside structured data
				w := r.FieldsGen().Wire()
				op.In = w[:r.N(len(w)+1)]
			}
		default:
			op.In = r.in3164(40)
		}
		last = op.In
		ops = append(ops, op)
		if r.N(800) == 0 {
			ops = append(ops, r.repeat(id, o))
		}
	}
	p.task(ops...)
}

func genC13(r *Rand, p *Plan) {
	nc := 1 + r.W(60, 25, 15)
	for c := 0; c < nc; c++ {
		kind := r.Pick("octet", "octet", "lf", "nul")
		cn := Conn{Kind: kind, Cut: -1}
		for i := r.In(0, 6); i > 0; i-- {
			cn.Reads = append(cn.Reads, r.PickI(1, 2, 5, 30, 100, 1000, 5000))
		}
		for i := r.In(0, 4); i > 0; i-- {
			cn.Lat = append(cn.Lat, int64(r.PickI(0, 1, 1000, 1000000, 50000000)))
		}
		for i := r.In(0, 4); i > 0; i-- {
			cn.Write = append(cn.Write, r.PickI(1, 3, 10, 60, 500, 5000))
		}
		var ops []Op
		total := 0
		for k := r.PickI(1, 1, 2, 3, 4, 6); k > 0; k-- {
			f := r.FieldsGen()
			t := byte('\n')
			if kind == "nul" {
				t = 0
			}
			if kind != "octet" {
				b := f.Msg
				for i := range b {
					if b[i] == t && (i+1 >= len(b) || b[i+1] == '<') {
						b[i] = ' ' // a trailer there would end the message
					}
				}
				for i := range f.SD {
					for j := range f.SD[i].P {
						v := f.SD[i].P[j].V
						for q := range v {
							if v[q] == t && (q+1 >= len(v) || v[q+1] == '<') {
								v[q] = ' '
							}
						}
					}
				}
			}
			total += len(f.Wire()) + 5
			ops = append(ops, Op{K: "send", I: c, W: &f, D: int64(r.U64() >> 20)})
			if r.P(15) {
				ops = append(ops, Op{K: "sleep", D: int64(r.In(1, 1000000000))})
			}
		}
		ops = append(ops, Op{K: "close", I: c})
		if r.P(30) {
			cn.Cut = r.N(total + 1)
			if r.P(60) {
				cn.Err = errKinds[r.N(len(errKinds))]
			}
		}
		o := Obj{K: kind, BE: r.P(50), Rot: r.N(4)}
		if kind == "octet" {
			m := total + 1000
			o.Max = &m
		}
		id := p.obj(o)
		p.Conns = append(p.Conns, cn)
		p.Tasks = append(p.Tasks, Task{Name: "client", Ops: ops}, Task{Name: "server", Ops: []Op{{K: "serve", O: id, I: c}}})
	}
}

// packet is a datagram on its way.
type packet struct {
	op Op
	at int64
}

// network sends packets through a faulty datagram network and distributes the
// arrivals over the workers.
func (r *Rand) network(p *Plan, objs []int, send []Op, damage func(op *Op)) {
	var ps []packet
	lossy, dupy, reord, delay, trunc, dam := r.P(50), r.P(40), r.P(50), r.P(40), r.P(60), damage != nil && r.P(60)
	lost := 0
	for i, op := range send {
		at := int64(i) * 1000000
		n := 1
		if lossy && r.P(25) {
			lost++
			continue
		}
		if dupy && r.P(30) {
			n = r.In(2, 3)
		}
		for j := 0; j < n; j++ {
			o := op
			o.F = append([]string(nil), op.F...)
			if j > 0 {
				o.F = append(o.F, "packet duplicated")
			}
			t := at
			if reord && r.P(40) {
				t += int64(r.In(-5, 5)) * 1500000
				o.F = append(o.F, "packet reordered")
			}
			if delay && r.P(30) {
				t += int64(r.In(1, 1000)) * 10000000
				o.F = append(o.F, "packet delayed")
			}
			if trunc && r.P(45) {
				full := o.Input()
				c := r.N(len(full) + 1)
				o.Cut = &c
				o.F = append(o.F, "packet truncated")
			}
			if dam && r.P(50) {
				damage(&o)
				o.F = append(o.F, "packet damaged")
			}
			ps = append(ps, packet{o, t})
		}
	}
	// stable sort by arrival
	for i := 1; i < len(ps); i++ {
		for j := i; j > 0 && ps[j].at < ps[j-1].at; j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
	nw := 1 + r.W(40, 35, 25)
	ops := make([][]Op, nw)
	for i, k := range ps {
		w := r.N(nw)
		k.op.O = objs[r.N(len(objs))]
		if i == 0 {
			for ; lost > 0; lost-- {
				k.op.F = append(k.op.F, "packet lost")
			}
		}
		ops[w] = append(ops[w], k.op)
	}
	for w := range ops {
		p.task(ops[w]...)
	}
}

func genC14(r *Rand, p *Plan) {
	ids := []int{p.obj(r.obj5424(true))}
	if r.P(40) {
		ids = append(ids, p.obj(r.obj5424(true)))
	}
	var send []Op
	for s := r.In(1, 4); s > 0; s-- {
		for k := r.In(1, 4); k > 0; k-- {
			f := r.FieldsGen()
			send = append(send, Op{K: "parse", W: &f, Src: fmt.Sprintf("sender %d packet %d", s, k)})
		}
	}
	for i := len(send) - 1; i > 0; i-- {
		j := r.N(i + 1)
		send[i], send[j] = send[j], send[i]
	}
	r.network(p, ids, send, nil)
}

func genC15(r *Rand, p *Plan) {
	ids := []int{p.obj(r.obj5424(r.P(50)))}
	if r.P(60) {
		ids = append(ids, p.obj(r.obj5424(r.P(50))))
	}
	var ops []Op
	base := r.FieldsGen().Wire()
	for k := r.PickI(6, 10, 16, 24); k > 0; k-- {
		op := Op{K: "parse", O: ids[r.N(len(ids))]}
		switch r.W(25, 30, 15, 30) {
		case 3:
			op.In = r.Grammar()
			op.F = []string{"field damaged"}
		case 0:
			op.In = r.Payload(15)
			op.F = []string{"bytes damaged"}
		case 1:
			op.In = r.Damage(base, r.PickI(1, 1, 1, 2))
			op.F = []string{"bytes damaged"}
		default:
			op.In = r.wordDamage(base)
			op.F = []string{"field damaged"}
		}
		if r.P(25) {
			base = r.FieldsGen().Wire()
			if r.P(40) {
				base = r.Small()
			}
		}
		ops = append(ops, op)
	}
	p.task(ops...)
}

// nilled has the caller put a nil map into the structured data.
func (r *Rand) nilled() Call {
	if r.P(30) {
		return Call{M: "nilsd"}
	}
	return Call{M: "nilel", A: B(sdids[r.N(len(sdids))])}
}

func genC16(r *Rand, p *Plan) {
	f := r.FieldsGen()
	if r.P(70) && len(f.SD) < 2 {
		for len(f.SD) < r.In(2, 5) {
			e := model.Elem{ID: r.sdname()}
			dup := false
			for _, x := range f.SD {
				dup = dup || string(x.ID) == string(e.ID)
			}
			if dup {
				continue
			}
			seen := map[string]bool{}
			for j := r.In(0, 5); j > 0; j-- {
				n := r.sdname()
				if !seen[string(n)] {
					seen[string(n)] = true
					e.P = append(e.P, model.Param{N: n, V: r.utf(r.In(1, 10), true)})
				}
			}
			f.SD = append(f.SD, e)
		}
	}
	nt := 1 + r.W(35, 40, 25)
	ops := make([][]Op, nt)
	str := func(n int) []Call {
		var c []Call
		for ; n > 0; n-- {
			c = append(c, Call{M: "str"})
		}
		return c
	}
	// messages made before, read by everybody
	for k := r.PickI(0, 1, 1, 2); k > 0; k-- {
		id := p.obj(Obj{K: "b", Calls: r.history(f), Same: 1})
		for t := range ops {
			if r.P(80) {
				ops[t] = append(ops[t], Op{K: "build", O: id, Calls: str(r.In(1, 3))})
			}
		}
	}
	// messages made by each task
	for t := range ops {
		for k := r.PickI(0, 1, 1, 2); k > 0; k-- {
			id := p.obj(Obj{K: "b", Same: 1})
			w := f
			ops[t] = append(ops[t], Op{K: "build", O: id, W: &w, Calls: append(r.history(f), str(r.In(1, 3))...)})
		}
		if r.P(40) { // any history, also invalid messages
			id := p.obj(Obj{K: "b"})
			var cs []Call
			for k := r.In(1, 4); k > 0; k-- {
				cs = append(cs, r.buildCalls(r.In(0, 6), 25)...)
				if r.P(30) {
					cs = append(cs, Call{M: r.Pick("rawpri", "rawver", "nopri"), I: r.PickI(0, 1, 191, 192, 255, 999, 1000)})
				}
				if r.P(10) {
					cs = append(cs, r.nilled())
				}
				cs = append(cs, Call{M: "str"})
			}
			ops[t] = append(ops[t], Op{K: "build", O: id, Calls: cs})
		}
	}
	for t := range ops {
		p.task(ops[t]...)
	}
}

// history draws setter calls that end with the fields of f.
func (r *Rand) history(f Fields) []Call {
	var cs []Call
	if r.P(40) { // other values first, overwritten later
		if len(f.Host) > 0 {
			cs = append(cs, Call{M: "host", A: B("before")})
		}
		if len(f.Msg) > 0 {
			cs = append(cs, Call{M: "msg", A: B("before")})
		}
		if f.TS != "" {
			cs = append(cs, Call{M: "ts", A: B(r.TS())})
		}
		cs = append(cs, Call{M: "pri", I: r.N(192)}, Call{M: "ver", I: r.In(1, 999)})
		if r.P(50) {
			cs = append(cs, Call{M: "str"})
			cs = cs[:len(cs)-1] // (texts of intermediate values are not compared)
		}
	}
	cs = append(cs, fieldCalls(f, r)...)
	for r.P(30) { // values the grammar does not allow, discarded
		bad := B(r.Pick(" ", "a b", "\x7f", "\x00", "é", "\xff", "a\tb"))
		switch r.N(4) {
		case 0:
			cs = append(cs, Call{M: r.Pick("host", "app", "proc", "mid", "ts", "eid"), A: bad})
		case 1:
			cs = append(cs, Call{M: "pri", I: r.In(192, 255)})
		case 2:
			cs = append(cs, Call{M: "ver", I: r.PickI(0, 1000, 65535)})
		default:
			for _, e := range f.SD {
				for _, p := range e.P {
					if r.P(50) {
						cs = append(cs, Call{M: "par", A: e.ID, N: p.N, V: B(r.Pick("\"", "]", "\\", "x\\y", "\xff", "ok\"", "a]b"))})
					}
				}
			}
		}
	}
	return cs
}

// hintDur is a duration of the dictionary (nanoseconds) in seconds, or def.
func (r *Rand) hintDur(def int) int {
	if v, ok := r.hint(20, 1000000000, 1<<60); ok {
		return (v+1)/1000000000 + r.PickI(-1, 0, 1)
	}
	return def
}

func yearEnd(y int) int64 { return model.Epoch(y+1, 1, 1) }

func genC17(r *Rand, p *Plan) {
	y := r.PickI(1999, 2019, 2020, 2023, 2024, 2037, 2038, 2099, 1970, 2003)
	p.Clock.Zone = r.PickI(0, 0, 3600, -18000, 19800, 50400, -43200)
	p.Clock.Start = yearEnd(y) - int64(p.Clock.Zone) + int64(r.PickI(-1, -2, -5, 0, 1, -86400, 86400, -15000000, r.In(-40000000, 40000000)))
	if p.Clock.Start < 86400 {
		p.Clock.Start = 86400 * 200
	}
	no := r.PickI(1, 1, 2, 3, 4)
	for i := 0; i < no; i++ {
		o := r.obj3164(r.P(50))
		if r.P(60) {
			o.Year = r.Pick("cur", "cur", "cur", "opnow")
		}
		o.R3339 = r.P(35)
		o.Late = r.P(35)
		p.obj(o)
	}
	nt := 1 + r.W(60, 30, 10)
	for t := 0; t < nt; t++ {
		var ops []Op
		for k := r.PickI(1, 2, 3, 4, 6, 8); k > 0; k-- {
			switch r.W(50, 30, 20) {
			case 0:
				id := r.N(no)
				if nt > 1 { // machines are not shared, and made by one task
					o := p.Objs[id]
					if o.K == "m3164" || o.Late {
						o.Late = o.Late && r.P(50)
						if r.P(70) || o.Late {
							id = p.obj(o)
						} else {
							p.Objs[id].K = "p3164"
							p.Objs[id].Late = false
						}
					}
				}
				f := r.F3164Gen(p.Objs[id].R3339 && r.P(40))
				if f.R3339 == "" && r.P(8) {
					if yy, err := strconv.Atoi(p.Objs[id].Year); p.Objs[id].Year == "" || err == nil && model.Leap(yy) {
						f.Mon, f.Day = 2, 29
					}
				}
				ops = append(ops, Op{K: "parse", O: id, W3: &f})
			case 1:
				d := int64(r.or(15, 1, 1000000000, r.hintDur(r.PickI(1, 2, 3600, 86400, 31*86400, 366*86400, 1500*86400))))
				if r.P(50) {
					d = -d
				}
				if r.P(25) {
					d = int64(r.In(-100000000, 100000000))
				}
				ops = append(ops, Op{K: "jump", D: d * 1e9})
			default:
				ops = append(ops, Op{K: "sleep", D: int64(r.PickI(1, 2, 5, 3600, 86400, 200*86400)) * 1e9})
			}
		}
		p.task(ops...)
	}
	if nt > 1 {
		// an object still used by two tasks must be safe to share
		used := map[int]map[int]bool{}
		for ti := range p.Tasks {
			for _, op := range p.Tasks[ti].Ops {
				if op.K == "parse" {
					if used[op.O] == nil {
						used[op.O] = map[int]bool{}
					}
					used[op.O][ti] = true
				}
			}
		}
		for id := range p.Objs {
			if len(used[id]) > 1 {
				p.Objs[id].K, p.Objs[id].Late = "p3164", false
			}
		}
	}
	_ = time.UTC
}

func genC18(r *Rand, p *Plan) {
	ids := []int{p.obj(r.obj3164(true))}
	if r.P(30) {
		o := r.obj3164(true)
		o.R3339 = p.Objs[0].R3339
		ids = append(ids, p.obj(o))
	}
	var send []Op
	for s := r.In(1, 4); s > 0; s-- {
		for k := r.In(1, 4); k > 0; k-- {
			f := r.F3164Gen(p.Objs[0].R3339 && r.P(40))
			send = append(send, Op{K: "parse", W3: &f, Src: fmt.Sprintf("sender %d packet %d", s, k)})
		}
	}
	r.network(p, ids, send, func(op *Op) {
		// bytes that no RFC 3164 text may hold
		b := append([]byte(nil), op.Input()...)
		for n := r.PickI(1, 1, 1, 2, 4); n > 0; n-- {
			c := byte(r.PickI(0, 1, 9, 10, 13, 27, 31, 127, 10))
			i := r.N(len(b) + 1)
			if r.P(20) {
				i = len(b)
			}
			if i < len(b) && r.P(50) {
				b[i] = c
			} else {
				b = append(b[:i], append([]byte{c}, b[i:]...)...)
			}
		}
		op.In = b
		op.Cut = nil
	})
}

func genC19(r *Rand, p *Plan) {
	hostile := func() []byte {
		switch r.W(25, 20, 20, 15, 10, 10) {
		case 0:
			return r.Payload(10)
		case 1:
			return r.in3164(10)
		case 2:
			n := r.In(0, 80)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.N(256))
			}
			return b
		case 3: // a valid head, then repetition
			h := r.Pick("<1>1 - - - - - ", "<1>1 - - - - - [a b=\"", "<1>1 - - - - - [a", "<", "<1>1 ", "16 ", "<1>1 - ", "<13>Dec  2 16:31:03 ", "<13>Dec  2 16:31:03 h t[", "1", "<1>1 - - - - - [a b=\"\\")
			if r.P(6) { // very many elements or parameters
				h, u := "<1>1 - - - - - ", r.Pick("[%d]", "[a%d k=\"v\"]", "[%d \\")
				if r.P(50) {
					h, u = h+"[a", r.Pick(" %d=\"\"", " n%d=\"v\"")
				}
				b := []byte(h)
				for i, n := 0, r.PickI(300, 2000, 2000, 6000); i < n; i++ {
					b = append(b, fmt.Sprintf(u, i)...)
				}
				return append(b, r.Pick("", "]", " x", "] x")...)
			}
			u := r.Pick("[", "]", "\\", "\"", " ", "-", "\n", "\x00", "0", "9", "<", "[a]", " b=\"c\"", "\\\"", "é", "\xc3", "x")
			b := []byte(h)
			for n := r.or(10, 1, 12000, r.PickI(1, 5, 50, 300, 300, 2000, 2000, 12000)); n > 0; n-- {
				b = append(b, u...)
			}
			return b
		case 4:
			b := []byte(r.Payload(50))
			return r.Damage(b, r.In(1, 10))
		default:
			return append(append([]byte(nil), r.Payload(60)...), r.Payload(60)...)
		}
	}
	n := 1 + r.W(70, 20, 10)
	for t := 0; t < n; t++ {
		var ops []Op
		switch r.W(25, 20, 35, 20) {
		case 0:
			id := p.obj(r.obj5424(r.P(50)))
			for k := r.In(1, 6); k > 0; k-- {
				ops = append(ops, Op{K: "parse", O: id, In: hostile(), F: []string{"hostile bytes"}})
			}
			ops = append(ops, Op{K: "parse", O: id, In: r.FieldsGen().Wire()})
		case 1:
			id := p.obj(r.obj3164(r.P(50)))
			for k := r.In(1, 6); k > 0; k-- {
				ops = append(ops, Op{K: "parse", O: id, In: hostile(), F: []string{"hostile bytes"}})
			}
			ops = append(ops, Op{K: "parse", O: id, In: r.F3164Gen(false).Wire()})
		case 2:
			o := r.streamObj()
			if r.P(10) {
				m := r.PickI(0, 1, 2, 3, 15)
				o.Max = &m
			}
			id := p.obj(o)
			for k := r.In(1, 3); k > 0; k-- {
				s := r.anyStream(o, r.In(0, 3), 50)
				for j := r.In(0, 3); j > 0; j-- {
					h := B(hostile())
					if o.K == "octet" && r.P(60) {
						h = append(B(strconv.Itoa(len(h)+r.PickI(0, 0, -1, 1, 5))+" "), h...)
					}
					if o.K == "octet" && r.P(10) {
						h = append(B(hugeLens[r.N(len(hugeLens))]+" "), h...)
					}
					s.Parts = append(s.Parts, h)
					if i := r.N(len(s.Parts)); r.P(50) {
						s.Parts[i], s.Parts[len(s.Parts)-1] = s.Parts[len(s.Parts)-1], s.Parts[i]
					}
				}
				if r.P(8) {
					i := r.N(len(s.Reads) + 1)
					s.Reads = append(s.Reads[:i:i], ReadOp{K: "forever0"})
				}
				ops = append(ops, Op{K: "stream", O: id, S: s, F: []string{"hostile bytes"}})
			}
		default:
			id := p.obj(Obj{K: "b"})
			for k := r.In(1, 3); k > 0; k-- {
				ops = append(ops, Op{K: "build", O: id, Calls: append(r.buildCalls(r.In(1, 8), 60), Call{M: "str"}), F: []string{"hostile setter arguments"}})
			}
		}
		p.task(ops...)
	}
}
