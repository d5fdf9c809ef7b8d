package world

import (
	"fmt"
	"sort"
	"strconv"
	"unsafe"

	syslog "github.com/influxdata/go-syslog/v3"
	"github.com/influxdata/go-syslog/v3/rfc5424"

	"verifsim/model"
	"verifsim/vsim"
)

func init() {
	reg(&Prop{ID: "C26", Kinds: []string{"relay", "builder-text", "retained-changed"}, Quick: 200000, Gen: genC26,
		Rule: "one run: 1-2 chains of 1-4 relays, connected by octet-counted and non-transparent streams and datagrams with every fragmentation, delay, loss, duplication, reordering and cut; the first one receives anything, every one changes some of what it received with setters, priorities and removals, and sends it on; every arrival is compared with what was sent on; non-trivial: a message passed at least two hops"})
}

// RecvRec is one datagram that was parsed.
type RecvRec struct {
	Pkt int
	Res Result
}

// dgram is one packet of a datagram connection.
type dgram struct {
	b  []byte
	at int64
	no int
}

// frame puts one message on a connection; it returns false if the framing
// cannot carry it.
func (e *Env) frame(c *conn, text []byte, want *model.Msg) bool {
	switch c.c.Kind {
	case "octet":
		c.write([]byte(strconv.Itoa(len(text)) + " " + string(text)))
	case "lf", "nul":
		t := byte('\n')
		if c.c.Kind == "nul" {
			t = 0
		}
		for i, b := range text {
			if b == t && (i+1 == len(text) || text[i+1] == '<') {
				return false
			}
		}
		c.write(append(append([]byte(nil), text...), t))
	case "dgram":
		no := len(c.Want)
		n, lat := 1, int64(1000)
		if len(c.c.Lat) > 0 {
			lat = c.c.Lat[no%len(c.c.Lat)]
		}
		switch cyc(c.c.Write, &c.wi, 1) {
		case 0:
			n = 0
			e.fault("packet lost")
		case 2:
			n = 2
			e.fault("packet duplicated")
		case 3:
			lat += 40000000
			e.fault("packet reordered")
		}
		for ; n > 0; n-- {
			c.pkts = append(c.pkts, dgram{append([]byte(nil), text...), vsim.Mono() + lat, no})
			lat += 700000
		}
		vsim.Wake(unsafe.Pointer(&c.key))
		vsim.Point()
	}
	c.Frames = append(c.Frames, len(c.buf))
	c.Want = append(c.Want, want)
	return true
}

// wire is a message as it arrives when it is serialised and parsed.
func wire(m model.Msg) *model.Msg {
	if m.Text != nil && *m.Text == "" {
		m.Text = nil
	}
	if len(m.SD) == 0 {
		m.SD, m.SDok = nil, false
	}
	return &m
}

// edit changes a message as its owner may: setters, other priorities, and
// removal of fields, elements and parameters.
func edit(m *rfc5424.SyslogMessage, calls []Call, out *[]string) {
	for _, c := range calls {
		switch c.M {
		case "cfp":
			m.ComputeFromPriority(uint8(c.I))
		case "nil":
			switch c.I % 6 {
			case 0:
				m.Timestamp = nil
			case 1:
				m.Hostname = nil
			case 2:
				m.Appname = nil
			case 3:
				m.ProcID = nil
			case 4:
				m.MsgID = nil
			default:
				m.Message = nil
			}
		case "del", "delp", "delall":
			if m.StructuredData == nil {
				continue
			}
			sd := *m.StructuredData
			var ids []string
			for id := range sd {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for i, id := range ids {
				if c.M != "delall" && i != c.I%len(ids) {
					continue
				}
				if c.M != "delp" {
					delete(sd, id)
					continue
				}
				var ns []string
				for n := range sd[id] {
					ns = append(ns, n)
				}
				sort.Strings(ns)
				if len(ns) > 0 {
					delete(sd[id], ns[c.I/7%len(ns)])
				}
			}
		default:
			doCalls(m, []Call{c}, out)
		}
	}
}

// forward changes a received message and sends it on.
func (e *Env) forward(op *Op, msg syslog.Message, n int, rec *Rec) {
	m, ok := msg.(*rfc5424.SyslogMessage)
	if !ok || m == nil || op.To < 1 || op.To > len(e.conns) {
		return
	}
	if len(op.E) > 0 {
		edit(m, op.E[n%len(op.E)], &rec.Str)
	}
	before := model.Snap(m)
	text, err := m.String()
	rec.Str = append(rec.Str, strRec(text, err, before.String(), model.Snap(m), m))
	if err == nil && !e.frame(e.conns[op.To-1], []byte(text), wire(before)) {
		rec.Str = append(rec.Str, "ok not to be carried")
	}
}

// raw puts any bytes on a connection as one message.
func (e *Env) raw(op *Op) {
	if op.I >= 0 && op.I < len(e.conns) {
		e.frame(e.conns[op.I], op.Input(), nil)
	}
}

// recv parses the packets of a datagram connection as they arrive.
func (e *Env) recv(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.mach == nil || op.I < 0 || op.I >= len(e.conns) {
		return
	}
	c := e.conns[op.I]
	for {
		vsim.Point()
		k := -1
		for i := range c.pkts {
			if k < 0 || c.pkts[i].at < c.pkts[k].at {
				k = i
			}
		}
		if k < 0 {
			if c.closed {
				return
			}
			vsim.BlockOn(unsafe.Pointer(&c.key))
			continue
		}
		if d := c.pkts[k].at - vsim.Mono(); d > 0 {
			vsim.Sleep(d)
			continue
		}
		p := c.pkts[k]
		c.pkts = append(c.pkts[:k], c.pkts[k+1:]...)
		m, err := o.mach.Parse(p.b)
		rec.Recv = append(rec.Recv, RecvRec{p.no, result(m, err)})
		e.forward(op, m, len(rec.Recv)-1, rec)
		e.keep(ti, m, fmt.Sprintf("packet %d", p.no))
		for i := range p.b {
			p.b[i] ^= 0xA5
		}
	}
}

// relay checks what arrived at one hop.
func (v *verifier) relay(op *Op, o Obj, rec *Rec) {
	if op.I < 0 || op.I >= len(v.e.conns) {
		return
	}
	c := v.e.conns[op.I]
	for _, w := range c.Want {
		if w == nil {
			return // not from a relay
		}
	}
	name := fmt.Sprintf("connection %d (%s)", op.I, c.c.Kind)
	same := func(i int, r Result, want *model.Msg) bool {
		v.n++
		if r.HasErr {
			v.add("relay", "%s: message %d, sent on as %s, arrives with the error %s and %s", name, i+1, want, r.Err, r.Msg)
			return false
		}
		if d := model.Diff(r.Msg, *want, false); d != "" {
			v.add("relay", "%s: message %d is not as it was sent on: %s", name, i+1, d)
			return false
		}
		return true
	}
	if op.K == "recv" {
		got := map[int]int{}
		for _, r := range rec.Recv {
			got[r.Pkt]++
			if !same(r.Pkt, r.Res, c.Want[r.Pkt]) {
				return
			}
		}
		return
	}
	sr := rec.Stream
	if sr == nil || sr.LPan != nil {
		return
	}
	if !sr.Ended {
		v.add("relay", "%s: the relay stopped reading after %d bytes", name, sr.Got)
		return
	}
	got, last := 0, 0
	for i, w := range c.Want {
		if c.Frames[i] > sr.Real {
			break
		}
		if i >= len(sr.Emits) {
			v.add("relay", "%s: message %d of %d was received but not delivered", name, i+1, len(c.Want))
			return
		}
		if !same(i, sr.Emits[i].Result, w) {
			return
		}
		got, last = i+1, c.Frames[i]
	}
	rest := sr.Emits[got:]
	switch {
	case sr.Real > last && c.c.Kind == "octet":
		if len(rest) != 1 || !rest[0].HasErr {
			v.add("relay", "%s: cut inside message %d, want one more result with an error, got %d", name, got+1, len(rest))
		}
	case sr.Real > last: // a message that holds the trailer may have come in part
	case sr.Real == 0 && c.c.Kind == "octet": // a stream without a byte is an error of its own
	case len(rest) != 0:
		v.add("relay", "%s: %d results more than messages; the first is %s", name, len(rest), rest[0].Result)
	}
}

// edits draws changes that a relay makes.
func (r *Rand) edits(f Fields) []Call {
	var cs []Call
	for k := r.PickI(0, 0, 1, 1, 2, 3); k > 0; k-- {
		switch r.W(15, 15, 20, 15, 5, 30) {
		case 0:
			cs = append(cs, Call{M: "cfp", I: r.N(192)})
		case 1:
			cs = append(cs, Call{M: "nil", I: r.N(6)})
		case 2:
			cs = append(cs, Call{M: "del", I: r.N(6)})
		case 3:
			cs = append(cs, Call{M: "delp", I: r.N(64)})
			if r.P(15) {
				cs = append(cs, r.nilled())
			}
		case 4:
			cs = append(cs, Call{M: "delall"})
		default:
			cs = append(cs, r.setterCalls(1, f)...)
		}
	}
	return cs
}

func genC26(r *Rand, p *Plan) {
	shared := -1
	for chain := r.PickI(1, 1, 1, 2); chain > 0; chain-- {
		hops := r.PickI(1, 2, 2, 3, 4)
		first := len(p.Conns)
		var f Fields
		for h := 0; h <= hops; h++ {
			cn := Conn{Kind: r.Pick("octet", "octet", "lf", "nul", "dgram"), Cut: -1}
			for i := r.In(0, 4); i > 0; i-- {
				cn.Reads = append(cn.Reads, r.PickI(1, 2, 5, 30, 100, 1000, 5000))
			}
			for i := r.In(0, 4); i > 0; i-- {
				cn.Lat = append(cn.Lat, int64(r.PickI(0, 1, 1000, 1000000, 50000000)))
			}
			for i := r.In(0, 4); i > 0; i-- {
				if cn.Kind == "dgram" {
					cn.Write = append(cn.Write, r.PickI(0, 1, 1, 1, 2, 3))
				} else {
					cn.Write = append(cn.Write, r.PickI(1, 3, 10, 60, 500, 5000))
				}
			}
			if cn.Kind != "dgram" && r.P(12) {
				cn.Cut = r.N(600)
				if r.P(60) {
					cn.Err = errKinds[r.N(len(errKinds))]
				}
			}
			p.Conns = append(p.Conns, cn)
		}
		var ops []Op
		for k := r.PickI(1, 2, 3, 4, 6); k > 0; k-- {
			op := Op{K: "raw", I: first}
			if r.P(45) {
				g := r.FieldsGen()
				f = g
				op.W = &g
				if r.P(15) {
					c := r.N(len(g.Wire()) + 1)
					op.Cut = &c
					op.F = []string{"message truncated"}
				}
			} else {
				op.In = r.Payload(10)
				op.F = []string{"message damaged"}
			}
			ops = append(ops, op)
		}
		// any message that may come up fits the limit of every relay
		room := new(int)
		for i := range ops {
			*room += 2*opBytes(&ops[i]) + 20000
		}
		ops = append(ops, Op{K: "close", I: first})
		p.Tasks = append(p.Tasks, Task{Name: "source", Ops: ops})
		for h := 0; h <= hops; h++ {
			i := first + h
			be := r.P(60)
			if h == 0 {
				be = r.P(85)
			}
			o := Obj{K: p.Conns[i].Kind, BE: be, Rot: r.N(4)}
			op := Op{K: "serve", I: i}
			switch o.K {
			case "octet":
				o.Max = room
			case "dgram":
				op.K = "recv"
				o.K = r.Pick("m5424", "p5424")
				if h == 0 && r.P(10) {
					o.CM = true
				}
			}
			if o.K == "p5424" && !o.CM && shared >= 0 && r.P(60) {
				op.O = shared
			} else {
				op.O = p.obj(o)
				if o.K == "p5424" && !o.CM {
					shared = op.O
				}
			}
			ops := []Op{op}
			if h < hops {
				ops[0].To = i + 2
				for k := r.In(0, 4); k > 0; k-- {
					ed := r.edits(f)
					ops[0].E = append(ops[0].E, ed)
					*room += 2 * opBytes(&Op{Calls: ed})
				}
				ops = append(ops, Op{K: "close", I: i + 1})
			}
			p.Tasks = append(p.Tasks, Task{Name: "relay", Ops: ops})
		}
	}
}

// passed tells whether a message passed at least two hops.
func (v *verifier) passed() bool {
	for ti := range v.p.Tasks {
		for oi := range v.p.Tasks[ti].Ops {
			op, rec := &v.p.Tasks[ti].Ops[oi], v.e.recs[ti][oi]
			if (op.K == "serve" || op.K == "recv") && op.I >= 0 && op.I < len(v.e.conns) {
				w := v.e.conns[op.I].Want
				if len(w) > 0 && w[0] != nil && (len(rec.Recv) > 0 || rec.Stream != nil && len(rec.Stream.Emits) > 0) {
					return true
				}
			}
		}
	}
	return false
}
