package world

import (
	"fmt"
	"io"
	"strconv"
	"unsafe"

	"github.com/influxdata/go-syslog/v3/rfc5424"

	"verifsim/model"
	"verifsim/vsim"
)

// conn is a simulated byte-stream connection between sender and server tasks:
// written chunks become readable after their latency, in order.
type conn struct {
	c      *Conn
	buf    []byte
	ready  []int64 // arrival time of every chunk
	ends   []int   // end offset of every chunk
	sent   int
	closed bool
	closeT int64
	last   int64
	wi     int
	ri     int
	key    byte
	Frames []int        // end offset of every frame written
	Want   []*model.Msg // what was framed, as it has to arrive; nil if it is anything
	pkts   []dgram
}

func newConn(c *Conn) *conn { return &conn{c: c} }

func cyc(l []int, i *int, def int) int {
	if len(l) == 0 {
		return def
	}
	v := l[*i%len(l)]
	*i++
	return v
}

// write puts bytes on the wire in chunks.
func (c *conn) write(b []byte) {
	for i := 0; len(b) > 0; i++ {
		n := cyc(c.c.Write, &c.wi, len(b))
		if n < 1 {
			n = 1
		}
		if i > 20000 {
			n += 1000
		}
		if n > len(b) {
			n = len(b)
		}
		lat := int64(1000)
		if len(c.c.Lat) > 0 {
			lat = c.c.Lat[c.wi%len(c.c.Lat)]
		}
		at := vsim.Mono() + lat
		if at < c.last {
			at = c.last
		}
		c.last = at
		c.buf = append(c.buf, b[:n]...)
		c.ready = append(c.ready, at)
		c.ends = append(c.ends, len(c.buf))
		b = b[n:]
		vsim.Wake(unsafe.Pointer(&c.key))
		vsim.Point()
	}
}

func (c *conn) close() {
	c.closed = true
	c.closeT = c.last
	vsim.Wake(unsafe.Pointer(&c.key))
}

// serverEnd is the io.Reader the stream parser reads from.
type serverEnd struct {
	e    *Env
	c    *conn
	rec  *StreamRec
	pos  int
	seen int // chunks that have arrived
	done bool
}

func (r *serverEnd) Read(p []byte) (int, error) {
	vsim.Point()
	r.rec.Reads = append(r.rec.Reads, ReadRec{Got: r.rec.Got, Emits: len(r.rec.Emits), Ended: r.rec.Ended})
	if r.done {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	fail := func() (int, error) {
		r.done = true
		r.rec.Ended = true
		r.rec.Real = r.pos
		if r.c.c.Cut >= 0 && r.c.c.Err != "" {
			r.e.fault("connection broken: " + r.c.c.Err)
			return 0, readErr(r.c.c.Err)
		}
		if r.c.c.Cut >= 0 {
			r.e.fault("connection cut")
		}
		return 0, io.EOF
	}
	for {
		limit := len(r.c.buf)
		if r.c.c.Cut >= 0 && limit > r.c.c.Cut {
			limit = r.c.c.Cut
		}
		if r.c.c.Cut >= 0 && r.pos >= r.c.c.Cut {
			return fail()
		}
		// what has arrived by now
		avail := 0
		next := int64(-1)
		for ; r.seen < len(r.c.ready); r.seen++ {
			if t := r.c.ready[r.seen]; t > vsim.Mono() {
				next = t
				break
			}
		}
		if r.seen > 0 {
			avail = r.c.ends[r.seen-1]
		}
		if avail > limit {
			avail = limit
		}
		if avail > r.pos {
			n := cyc(r.c.c.Reads, &r.c.ri, len(p))
			if n < 1 {
				n = 1
			}
			if r.c.ri > 40000 {
				n += 1000
			}
			if n > len(p) {
				n = len(p)
			}
			if n > avail-r.pos {
				n = avail - r.pos
			} else if n < avail-r.pos {
				r.e.fault("short read")
			}
			copy(p, r.c.buf[r.pos:r.pos+n])
			r.pos += n
			r.rec.Got += n
			return n, nil
		}
		if next >= 0 {
			r.e.fault("delayed delivery")
			vsim.Sleep(next - vsim.Mono())
			continue
		}
		if r.c.closed {
			return fail()
		}
		vsim.BlockOn(unsafe.Pointer(&r.c.key))
	}
}

// send builds a message with the library's builder, serialises, frames and
// writes it.
func (e *Env) send(ti int, op *Op, rec *Rec) {
	if op.W == nil || op.I < 0 || op.I >= len(e.conns) {
		return
	}
	c := e.conns[op.I]
	m := &rfc5424.SyslogMessage{}
	calls := fieldCalls(*op.W, NewRand(uint64(op.D), "order"))
	doCalls(m, calls, &rec.Str)
	text, err := m.String()
	if err != nil {
		rec.Str = append(rec.Str, "ERR "+err.Error())
		return
	}
	rec.Str = append(rec.Str, "ok "+text)
	switch c.c.Kind {
	case "octet":
		c.write([]byte(strconv.Itoa(len(text)) + " " + text))
	case "lf":
		c.write([]byte(text + "\n"))
	case "nul":
		c.write([]byte(text + "\x00"))
	}
	c.Frames = append(c.Frames, len(c.buf))
}

// fieldCalls are setter calls that give a message the fields, in an order
// drawn from r, some of them repeated.
func fieldCalls(f Fields, r *Rand) []Call {
	var cs []Call
	cs = append(cs, Call{M: "pri", I: f.Pri}, Call{M: "ver", I: f.Ver})
	add := func(m string, v B) {
		if len(v) > 0 {
			cs = append(cs, Call{M: m, A: v})
		}
	}
	add("ts", B(f.TS))
	add("host", f.Host)
	add("app", f.App)
	add("proc", f.Proc)
	add("mid", f.MID)
	add("msg", f.Msg)
	for _, el := range f.SD {
		if len(el.P) == 0 || r.P(40) {
			cs = append(cs, Call{M: "eid", A: el.ID})
		}
		for _, p := range el.P {
			cs = append(cs, Call{M: "par", A: el.ID, N: p.N, V: EscapeForBuilder(p.V)})
		}
	}
	for i := len(cs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		cs[i], cs[j] = cs[j], cs[i]
	}
	// repeat some calls: same values, same result
	if r.P(30) {
		for k := r.In(1, 3); k > 0; k-- {
			cs = append(cs, cs[r.N(len(cs))])
		}
	}
	return cs
}

// EscapeForBuilder writes a parameter value the way SetParameter wants it:
// with ", \ and ] escaped.
func EscapeForBuilder(v []byte) B {
	var o []byte
	for _, c := range v {
		if c == '"' || c == '\\' || c == ']' {
			o = append(o, '\\')
		}
		o = append(o, c)
	}
	return o
}

func (e *Env) serve(ti int, op *Op, rec *Rec) {
	o := e.get(op.O)
	if o == nil || o.par == nil || op.I < 0 || op.I >= len(e.conns) {
		return
	}
	sr := &StreamRec{PTask: vsim.Self()}
	rec.Stream = sr
	e.runParse(ti, o, op, rec, sr, &serverEnd{e: e, c: e.conns[op.I], rec: sr})
}

var _ = fmt.Sprint
