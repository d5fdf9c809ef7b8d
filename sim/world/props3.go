package world

import (
	"fmt"
	"strings"

	"verifsim/model"
)

func init() {
	reg(&Prop{ID: "C21", Kinds: []string{"ref3164", "outcome"}, Quick: 320000, Gen: genC21,
		Rule: "one run: 6-24 RFC 3164 packets damaged in transit (bit flips, drops, insertions, swaps, truncation, repeats, fields at and over their borders) are parsed by 1-2 workers sharing parsers and compared with the reference recogniser; non-trivial: at least one packet was rejected"})
	reg(&Prop{ID: "C22", Kinds: []string{"where", "error-changed"}, Quick: 320000, Gen: genC22,
		Rule: "one run: 6-24 packets of both formats damaged or cut in transit are parsed by 1-2 workers sharing parsers, every error's column is compared with the length of the longest prefix that can still become a conforming message; non-trivial: at least one packet was rejected"})
	reg(&Prop{ID: "C23", Kinds: []string{"setter", "builder-text"}, Quick: 190000, Gen: genC23,
		Rule: "one run: 1-3 goroutines each apply 1-40 setter calls, with values at and over the borders of the grammar, to messages of their own (new, or parsed from received bytes), and every call's effect on the whole message is compared with the model; non-trivial: at least one call was discarded"})
	reg(&Prop{ID: "C24", Kinds: []string{"names"}, Quick: 190000, Race: true, RaceQ: 8000, Gen: genC24,
		Rule: "one run: 1-3 goroutines parse, build and stream messages, set priorities anew and ask any of them for their names, sometimes overwriting what they were given; non-trivial: at least one message was asked"})
	reg(&Prop{ID: "C25", Kinds: []string{"config", "stream-results", "readahead", "reuse-diff", "parse-vs-fresh", "ref5424", "ref3164", "listener"}, Quick: 160000, Gen: genC25,
		Rule: "one run: 1-3 goroutines each use 1-2 parsers made with redundant options, change best effort, length limit, listener, year and time zone options between messages and streams, and compare every outcome with that of a parser made with the options in force; non-trivial: something was parsed after a change"})
}

// nearStamp draws a Stamp timestamp with one component at or over its border.
func (r *Rand) nearStamp() string {
	mon := months[r.N(12)]
	day := fmt.Sprintf("%2d", r.In(1, 31))
	h, m, s := r.In(0, 23), r.In(0, 59), r.In(0, 59)
	f := [3]string{"%02d", "%02d", "%02d"}
	a, b, c := " ", " ", ":"
	switch r.N(11) {
	case 0:
		i := r.N(12)
		mon, day = months[i], fmt.Sprintf("%2d", model.DaysIn(2000, i+1)+r.In(0, 1))
	case 1:
		mon, day = r.Pick("Feb", "Feb", "Apr", "Jun", "Sep", "Nov", "Dec"), r.Pick("28", "29", "30", "31", "32", " 0", " 1", "00", "01", "1", "1 ")
	case 2:
		mon = r.Pick("jan", "JAN", "Jam", "Ja", "J", "", "June", "Sept", "Mai", "Jul", "Jun", "Aug", "Apr", "Mar", "May", "Mac", "Foo", "May.", "12")
	case 3:
		h = r.PickI(0, 9, 19, 20, 23, 24, 29)
	case 4:
		m = r.PickI(0, 59, 60, 61, 99)
	case 5:
		s = r.PickI(0, 59, 60, 61, 99)
	case 6:
		f[r.N(3)] = r.Pick("%d", "%03d", "%1d", "%2d")
	case 7:
		a = r.Pick("", "  ", "-", "\t")
	case 8:
		b = r.Pick("", "  ", "-", "T", ", ")
	case 9:
		c = r.Pick(".", "", "::", " ")
	default:
		return fmt.Sprintf("%s %s %02d:%02d:%02d%s", mon, day, h, m, s, r.Pick(".1", "Z", " 2019", ":", "0", " UTC", "  "))
	}
	return mon + a + day + b + fmt.Sprintf(f[0]+c+f[1]+":"+f[2], h, m, s)
}

// Grammar3164 draws an RFC 3164 message with up to two fields at or over their
// borders.
func (r *Rand) Grammar3164() []byte {
	bad := map[int]bool{r.N(6): true}
	if r.P(25) {
		bad[r.N(6)] = true
	}
	if r.P(8) {
		bad = nil
	}
	f := r.F3164Gen(r.P(25))
	out := fmt.Sprintf("<%d>", f.Pri)
	if bad[0] {
		out = r.Pick("", "<", "<<", " <") + r.Pick("", "0", "00", "01", "9", "19", "99", "100", "109", "119", "189", "190", "191", "192", "199", "200", "256", "290", "999", "1000", "0191", "1 ", "-1", "+1", "x") + r.Pick(">", ">", ">", "", ">>", "> ", ">1 ")
		if r.P(70) {
			out = "<" + r.Pick("0", "9", "19", "190", "191", "192", "199", "20", "200", "00", "01", "256") + ">"
		}
	}
	ts := f.Stamp()
	if bad[1] {
		ts = r.nearStamp()
		if r.P(30) {
			ts = r.nearTS()
		}
	}
	out += ts + " "
	host := f.Host
	if bad[2] {
		host = r.nearHeader(255)
	}
	out += string(host) + " "
	tag := f.Tag
	if bad[3] {
		tag = B(r.Pick("", "", "-", "a:", ":", "[", "a[", "]", "é", "a\x7f", "a\x00", "-a"))
		switch r.N(3) {
		case 0:
			set := plainch
			if r.P(50) {
				set = "!\"#$%&'()*+,-./0189;<=>?@AZ\\]^_`az{|}~"
			}
			tag = r.chars(set, r.PickI(1, 31, 32, 32, 33, 33, 34, 64))
		case 1:
			tag = r.nearHeader(32)
		}
	}
	out += string(tag)
	if bad[4] {
		out += r.Pick("[]: ", "[-]: ", "[1]: ", "[1]:", "[1] ", "[1]", "[1", "[", "[a b]: ", "[]]: ", "[[]: ", "[1]]: ", "[1]:x]: ", "[:]: ", "[1]: [2]: ", "[\x00]: ", "[\xff]: ", "[1] : ", "]: ", ":", ": ", ":  ", "::", ": : ", ":\t", "[\n]: ", "[a]:\x01", "[a]: \x01")
	} else if len(tag) > 0 {
		if f.HasC {
			out += "[" + string(f.Content) + "]"
		}
		out += ": "
	}
	if bad[5] {
		out += r.Pick("", "", " ", "x", "\n", "\x00", "\x7f", "\x80", "\xff", "x\n", "x\x00y", "a: b", "a[b]: c", ": ", "]: ", "é", "x\ty") + r.Pick("", "", "z", "\x01", "\x7f", "]: y")
	} else {
		out += string(f.Msg)
	}
	return []byte(out)
}

// damaged3164 draws what is left of an RFC 3164 packet.
func (r *Rand) damaged3164(base []byte) ([]byte, string) {
	switch r.W(35, 25, 15, 15, 10) {
	case 0:
		return r.Grammar3164(), "field damaged"
	case 1:
		return r.Damage(base, r.PickI(1, 1, 1, 2)), "bytes damaged"
	case 2:
		return append([]byte(nil), base[:r.N(len(base)+1)]...), "packet cut"
	case 3:
		return r.in3164(20), "bytes damaged"
	default:
		b := append([]byte(nil), base...)
		for n := r.PickI(1, 1, 2); n > 0; n-- {
			b[r.N(len(b))] = byte(r.PickI(0, 9, 10, 13, 27, 31, 32, 58, 91, 93, 127, 128, 255))
		}
		return b, "bytes damaged"
	}
}

// damaged5424 draws what is left of an RFC 5424 packet.
func (r *Rand) damaged5424(base []byte) ([]byte, string) {
	switch r.W(15, 30, 15, 30, 15) {
	case 3:
		return r.Grammar(), "field damaged"
	case 0:
		return r.Payload(15), "bytes damaged"
	case 1:
		return r.Damage(base, r.PickI(1, 1, 1, 2)), "bytes damaged"
	case 4:
		return append([]byte(nil), base[:r.N(len(base)+1)]...), "packet cut"
	default:
		return r.wordDamage(base), "field damaged"
	}
}

// far is a long packet that is damaged far from its beginning.
func (r *Rand) far(three bool) []byte {
	n := r.PickI(4090, 9990, 16380, 32760, 65530, 65530, 99990, 131060)
	n = r.In(n, n+20)
	var w []byte
	switch {
	case three:
		w = append(w, "<13>Jan  2 03:04:05 host app: "...)
	case r.P(30):
		w = append(w, "<13>1 - - - - - - \ufeff"...)
	case r.P(50):
		w = append(w, "<13>1 - h - - - [id k=\""...)
	default:
		w = append(w, "<13>1 - - - - - "...)
		for i := 0; len(w) < n; i++ {
			w = append(w, fmt.Sprintf("[id%d k=\"v\"]", i)...)
		}
	}
	for len(w) < n {
		w = append(w, "some text that goes on and on and "[:r.In(20, 34)]...)
	}
	if r.P(15) {
		return w
	}
	w = append(w, r.Pick("\x01", "\xff", "\\x", "]", "\"", "\xc3", "[", "[id1]", "\" =", "\n")...)
	return append(w, r.Pick("", "", "a", " end", "\"] end")...)
}

func (r *Rand) damagedRun(p *Plan, ids []int, nt int) {
	base3, base5 := r.F3164Gen(r.P(25)).Wire(), r.FieldsGen().Wire()
	ops := make([][]Op, nt)
	for k := r.PickI(6, 10, 16, 24); k > 0; k-- {
		op := Op{K: "parse", O: ids[r.N(len(ids))]}
		var why string
		if o := p.Objs[op.O]; r.N(400) == 0 {
			op.In, why = r.far(o.K == "p3164" || o.K == "m3164"), "bytes damaged"
		} else if o.K == "p3164" || o.K == "m3164" {
			op.In, why = r.damaged3164(base3)
			if r.P(25) {
				base3 = r.F3164Gen(r.P(25)).Wire()
			}
		} else {
			op.In, why = r.damaged5424(base5)
			if r.P(25) {
				base5 = r.FieldsGen().Wire()
			}
		}
		op.F = []string{why}
		t := r.N(nt)
		ops[t] = append(ops[t], op)
	}
	for _, o := range ops {
		p.task(o...)
	}
}

func genC21(r *Rand, p *Plan) {
	nt := r.PickI(1, 1, 1, 2)
	ids := []int{p.obj(r.obj3164(nt > 1 || r.P(50)))}
	if r.P(60) {
		ids = append(ids, p.obj(r.obj3164(nt > 1 || r.P(50))))
	}
	if r.P(20) {
		p.Objs[ids[0]].Year = "cur"
	}
	r.damagedRun(p, ids, nt)
}

func genC22(r *Rand, p *Plan) {
	nt := r.PickI(1, 1, 1, 2)
	ids := []int{p.obj(r.obj5424(nt > 1 || r.P(50)))}
	if r.P(60) {
		ids = append(ids, p.obj(r.obj3164(nt > 1 || r.P(50))))
	}
	if r.P(20) {
		ids = ids[len(ids)-1:]
	}
	r.damagedRun(p, ids, nt)
}

// setterCalls draws n setter calls on few elements and names, with values at
// and over the borders of the grammar.
func (r *Rand) setterCalls(n int, f Fields) []Call {
	ids := []B{B(sdids[r.N(len(sdids))]), r.sdname(), r.nearName(r.sdname())}
	ns := []B{B(pnames[r.N(len(pnames))]), r.sdname(), r.nearName(r.sdname())}
	for _, e := range f.SD {
		ids = append(ids, e.ID)
		for _, p := range e.P {
			ns = append(ns, p.N)
		}
	}
	hdr := func(max int) B {
		switch r.W(40, 30, 20, 10) {
		case 0:
			return B(r.nearHeader(max))
		case 1:
			if v := r.header(max, false); v != nil {
				return v
			}
			return B("-")
		case 2:
			return r.oddText()
		default:
			return r.chars(printable, max+r.PickI(-1, 0, 1))
		}
	}
	name := func(pool []B) B {
		if r.P(20) {
			if r.P(50) {
				return r.oddText()
			}
			return B(r.nearHeader(32))
		}
		return pool[r.N(len(pool))]
	}
	var cs []Call
	for ; n > 0; n-- {
		if len(cs) > 0 && r.P(8) {
			cs = append(cs, r.nearCall(cs[r.N(len(cs))]))
			continue
		}
		if r.P(1) {
			cs = append(cs, r.nilled())
			continue
		}
		switch r.W(6, 6, 12, 9, 9, 9, 9, 8, 22, 8, 6) {
		case 0:
			cs = append(cs, Call{M: "pri", I: r.or(20, 0, 255, r.PickI(0, 1, 7, 8, 190, 191, 192, 255, r.N(256)))})
		case 1:
			cs = append(cs, Call{M: "ver", I: r.or(20, 0, 65535, r.PickI(0, 1, 9, 10, 99, 100, 999, 1000, 1001, 9999, 65535, r.N(1100)))})
		case 2:
			ts := r.TS()
			if r.P(60) {
				ts = r.nearTS()
			} else if r.P(20) {
				ts = string(r.oddText())
			}
			cs = append(cs, Call{M: "ts", A: B(ts)})
		case 3:
			cs = append(cs, Call{M: "host", A: hdr(255)})
		case 4:
			cs = append(cs, Call{M: "app", A: hdr(48)})
		case 5:
			cs = append(cs, Call{M: "proc", A: hdr(128)})
		case 6:
			cs = append(cs, Call{M: "mid", A: hdr(32)})
		case 7:
			cs = append(cs, Call{M: "eid", A: name(ids)})
		case 8:
			c := Call{M: "par", A: name(ids), N: name(ns)}
			switch r.W(40, 20, 15, 10, 10, 5) {
			case 0:
				c.V = EscapeForBuilder(r.utf(r.In(0, 12), true))
			case 1:
				c.V = EscapeForBuilder(r.sdval())
			case 2:
				c.V = r.oddText()
			case 3:
				c.V = B(r.utfEdge())
			case 4:
				c.V = B(r.Pick("", "\\", "\\\\", "\\]", "]", "\"", "a\\", "\\a", "\\\\\\", "\\\\\"", "\x00", "\n", "é", "\xc3", "=", "[", "a\\\"", "\\\"a\\]b\\\\", " ", "\x7f"))
			default:
				v := r.utf(r.In(1, 10), false)
				i := r.N(len(v) + 1)
				c.V = append(append(append(B{}, v[:i]...), B(r.Pick("\\", "]", "\"", "\xff", "\xc0\x80", "\xed\xa0\x80", "\\n", "\\]"))...), v[i:]...)
			}
			cs = append(cs, c)
		case 9:
			m := r.text()
			if r.P(25) {
				m = r.oddText()
			}
			cs = append(cs, Call{M: "msg", A: m})
		default:
			cs = append(cs, Call{M: "str"})
		}
	}
	return cs
}

// nearCall is an earlier call again, as it was or with one byte of an argument
// replaced.
func (r *Rand) nearCall(c Call) Call {
	near := func(b B) B {
		if len(b) == 0 {
			return b
		}
		n := append(B{}, b...)
		i := r.PickI(0, len(n)-1, len(n)-1, r.N(len(n)))
		switch r.N(3) {
		case 0:
			n[i] ^= byte(1 + r.N(3))
		case 1:
			n[i] = byte(r.In(33, 126))
		default:
			n[i] = r.Pick(" ", "\\", "\"", "]", "=", "\x7f", "\x80", "\x00")[0]
		}
		return n
	}
	switch r.N(5) {
	case 0:
	case 1:
		c.N = near(c.N)
	case 2:
		c.V = near(c.V)
	default:
		if len(c.A) > 0 {
			c.A = near(c.A)
		} else {
			c.V = near(c.V)
		}
	}
	return c
}

func genC23(r *Rand, p *Plan) {
	nt := r.PickI(1, 1, 1, 2, 3)
	for t := 0; t < nt; t++ {
		var ops []Op
		var ids []int
		for k := r.PickI(1, 1, 2, 3); k > 0; k-- {
			o := Obj{K: "b", Late: r.P(30)}
			if r.P(35) {
				f := r.FieldsGen()
				o.W = &f
			}
			ids = append(ids, p.obj(o))
		}
		for k := r.PickI(1, 2, 3, 5); k > 0; k-- {
			id := ids[r.N(len(ids))]
			var f Fields
			if w := p.Objs[id].W; w != nil {
				f = *w
			}
			op := Op{K: "build", O: id, Calls: r.setterCalls(r.In(1, 8), f)}
			if r.P(20) {
				g := r.FieldsGen()
				op.Calls = append(op.Calls, fieldCalls(g, r)...)
			}
			if r.P(70) {
				op.Calls = append(op.Calls, Call{M: "str"})
			}
			ops = append(ops, op)
		}
		p.task(ops...)
	}
}

func genC24(r *Rand, p *Plan) {
	nt := r.PickI(1, 1, 2, 2, 3)
	s5, s3 := p.obj(r.obj5424(true)), p.obj(r.obj3164(true))
	for t := 0; t < nt; t++ {
		var ops []Op
		st := -1
		for k := r.PickI(2, 4, 6, 10, 14); k > 0; k-- {
			switch r.W(25, 20, 8, 30, 12, 8) {
			case 0:
				op := Op{K: "parse", O: s5, In: r.Payload(75)}
				if r.P(60) {
					op.In = B(fmt.Sprintf("<%d>1 - - - - - -", r.N(192)))
				}
				ops = append(ops, op)
			case 1:
				ops = append(ops, Op{K: "parse", O: s3, In: r.in3164(75)})
			case 2:
				if st < 0 {
					st = p.obj(r.streamObj())
				}
				ops = append(ops, Op{K: "stream", O: st, S: r.anyStream(p.Objs[st], r.In(1, 3), 85)})
			case 3:
				ops = append(ops, Op{K: "names", I: r.N(24), Mode: r.N(6)})
			case 4:
				// the priority set anew, or the version
				if r.P(35) {
					ops = append(ops, Op{K: "mutate", I: r.N(24), Mode: 2000 + r.PickI(0, 1, 9, 10, 99, 999, 1000, 1001, 1023, 1024, 9999, 65535, r.N(65536))})
					break
				}
				ops = append(ops, Op{K: "mutate", I: r.N(24), Mode: 1000 + r.PickI(0, 7, 8, 191, 192, 255, r.N(192), r.N(192))})
			default:
				b := p.obj(Obj{K: "b"})
				ops = append(ops, Op{K: "build", O: b, Calls: r.setterCalls(r.In(0, 3), Fields{})})
			}
		}
		p.task(append(ops, Op{K: "names", I: r.N(24), Mode: 2})...)
	}
}

// trailerText draws a text that names a trailer, or nearly does.
func (r *Rand) trailerText(k string, valid bool) B {
	t := map[string]string{"lf": "LF", "nul": "NUL"}[k]
	switch r.N(3) {
	case 0:
		t = strings.ToLower(t)
	case 1:
		b := []byte(t)
		i := r.N(len(b))
		b[i] ^= 32
		t = string(b)
	}
	if q := r.Pick("", "", "'", "\""); q != "" {
		t = q + t + q
	}
	if valid {
		return B(t)
	}
	if w, ok := r.word(10); ok {
		return w
	}
	switch r.N(3) {
	case 0:
		return B(r.Pick("", "'", "\"", "\"\"", "CR", "CRLF", "NULL", "\n", "\x00", "0", "10", "LF ", " NUL", "'LF\"", "\"NUL'", "\"LF", "NUL'", "L", "NU", "LFNUL", "''LF''", "`LF`", "UNKNOWN"))
	case 1:
		return B(r.Damage([]byte(t), 1))
	}
	return B(t)
}

// confCalls draws changes of options for an object.
func (r *Rand) confCalls(o Obj, extra bool) []Call {
	var cs []Call
	for n := r.PickI(0, 1, 1, 1, 2, 3); n > 0; n-- {
		var c Call
		switch o.K {
		case "m5424", "p5424":
			c.M = "be"
		case "m3164", "p3164":
			c.M = r.Pick("be", "year", "year", "loc", "tz", "rfc3339")
			switch c.M {
			case "year":
				c.A = B(r.Pick("2019", "2024", "1970", "op", "opnow", "cur", "9999", "1", "0", "-1", "10000", itoa(r.or(50, 1, 9999, r.In(1900, 2100)))))
			case "loc", "tz":
				c.A = B(zones[2+r.N(len(zones)-2)])
			}
		default:
			c.M = r.Pick("be", "max", "max", "listener")
			if c.M == "max" {
				c.I = r.or(20, 1, 70000, r.PickI(16, 20, 64, 100, 256, 1000, 8192, 20000, r.In(16, 600)))
			}
			if extra && o.K != "octet" && r.P(50) {
				c = Call{M: "trailer", I: r.PickI(0, 1, 1, -1, 2, 7)}
			}
		}
		cs = append(cs, c)
	}
	return cs
}

func genC25(r *Rand, p *Plan) {
	nt := r.PickI(1, 1, 1, 2, 3)
	for t := 0; t < nt; t++ {
		var ids []int
		for k := r.PickI(1, 1, 2); k > 0; k-- {
			var o Obj
			switch r.W(15, 35, 25, 25) {
			case 0:
				o = r.obj5424(r.P(50))
			case 1:
				o = r.obj3164(r.P(50))
				if r.P(20) {
					o.Year = "cur"
				}
			case 2:
				o = r.octetObj()
			default:
				o = r.ntObj()
			}
			o.BE = r.P(25)
			o.Late = r.P(30)
			if r.P(50) {
				// every option given first is given again, or not given at all
				for _, c := range r.confCalls(o, true) {
					ok := true
					switch c.M {
					case "be":
						ok = o.BE
					case "max":
						ok = o.Max != nil
					case "year":
						ok = o.Year != ""
					case "loc":
						ok = o.Loc != ""
					case "tz":
						ok = o.TZ != ""
					case "rfc3339":
						ok = o.R3339
					case "trailer":
						if len(o.Text) == 0 {
							o.Text = r.trailerText(o.K, true)
						}
					}
					if ok {
						o.Extra = append(o.Extra, c)
					}
				}
			}
			if (o.K == "lf" || o.K == "nul") && r.P(40) {
				o.Text = r.trailerText(o.K, true)
			}
			ids = append(ids, p.obj(o))
		}
		eff := map[int]Obj{}
		for _, id := range ids {
			eff[id] = p.Objs[id]
		}
		var ops []Op
		for k := r.PickI(2, 3, 4, 6, 8); k > 0; k-- {
			id := ids[r.N(len(ids))]
			o := eff[id]
			if r.P(35) {
				c := r.confCalls(o, false)
				ops = append(ops, Op{K: "conf", O: id, Calls: c})
				eff[id] = applyConf(o, c)
				continue
			}
			switch o.K {
			case "m5424", "p5424":
				ops = append(ops, Op{K: "parse", O: id, In: r.Payload(50)})
			case "m3164", "p3164":
				in := B(r.in3164(60))
				if r.P(60) {
					in = B(r.F3164Gen(o.R3339 && r.P(40)).Wire())
				}
				ops = append(ops, Op{K: "parse", O: id, In: in})
			default:
				s := r.anyStream(o, r.In(0, 3), 60)
				if o.K == "octet" && r.P(30) && o.limit() < 30000 {
					// a frame at the limit in force
					n := o.limit() + r.PickI(-1, 0, 1)
					if n >= 15 {
						b := r.Sized(n)
						s.Parts = append(s.Parts, B(fmt.Sprintf("%d %s", len(b), b)))
					}
				}
				ops = append(ops, Op{K: "stream", O: id, S: s})
			}
			if r.P(8) {
				ops = append(ops, Op{K: "trailer", In: r.trailerText(r.Pick("lf", "nul"), false), I: r.PickI(0, 1, 0, 1, 2, -1, 3, 10, 255, 256, -2, 1<<40), Mode: r.N(3)})
			}
		}
		p.task(ops...)
	}
}
