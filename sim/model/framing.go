package model

import "bytes"

// Item is one expected listener call.
type Item struct {
	Frame    bool   // a payload to be parsed: Payload holds its bytes
	Payload  []byte //
	Parse    bool   // Payload parsed decides the message (also for a cut tail)
	AnyErr   bool   // the error must not be nil, its text is free
	ErrOnly  bool   // no message
	Strict   bool   // error results of a parse carry no message
	NotUntil int    // bytes that must have been received before it may be delivered
	MustBy   int    // it must be delivered before Read is called with this many bytes received; -1: at the end
	AfterEnd bool   // only after the stream has ended
	End      int    // offset just after the frame
	What     string //
}

// Expect is what a stream must produce.
type Expect struct {
	Items   []Item
	StopAt  int // >= 0: nothing may be read once this many bytes were received
	Lenient bool
}

// OctetParser tells, for strict mode, whether a payload parses.
type PayloadOK func(p []byte) bool

// Octet is the octet counting model: what a stream of the bytes d, received
// completely and then ended (by EOF or an error), must produce.
func Octet(d []byte, max int, be bool, ok PayloadOK) Expect {
	x := Expect{StopAt: -1}
	stop := func(what string, from, at int) Expect {
		x.Items = append(x.Items, Item{ErrOnly: true, AnyErr: true, NotUntil: from, MustBy: at, End: at, What: what})
		x.StopAt = at
		return x
	}
	tail := func(it Item) Expect {
		it.AnyErr, it.NotUntil, it.MustBy, it.AfterEnd, it.End = true, len(d), -1, true, len(d)
		x.Items = append(x.Items, it)
		return x
	}
	if len(d) == 0 {
		return tail(Item{ErrOnly: true, What: "stream without a byte"})
	}
	p := 0
	for p < len(d) {
		c := d[p]
		if c < '1' || c > '9' {
			return stop("framing: no length digit", p+1, p+1)
		}
		q := p
		n := 0
		over := -1
		for q < len(d) && d[q] >= '0' && d[q] <= '9' {
			if n < 1<<40 {
				n = n*10 + int(d[q]-'0')
			}
			q++
			if n > max && over < 0 {
				over = q
			}
		}
		if q == len(d) {
			it := Item{ErrOnly: true, What: "cut in MSGLEN"}
			if over >= 0 {
				// A parser may give up as soon as the number is too large.
				it.What = "cut in an excessive MSGLEN"
				it.AnyErr, it.NotUntil, it.MustBy, it.End = true, over, -1, len(d)
				x.Items = append(x.Items, it)
				x.Lenient = true
				return x
			}
			return tail(it)
		}
		if n > max {
			return stop("framing: too long", over, q+1)
		}
		if d[q] != ' ' {
			return stop("framing: no space after MSGLEN", q+1, q+1)
		}
		s := q + 1
		if s == len(d) {
			return tail(Item{ErrOnly: true, What: "cut after the space"})
		}
		if d[s] != '<' {
			// A digit may be taken for a length, which ends at the first other
			// byte or when it exceeds every possible limit.
			at := s + 1
			if d[s] >= '1' && d[s] <= '9' {
				for at < len(d) && at < s+21 && d[at] >= '0' && d[at] <= '9' {
					at++
				}
				at++
			}
			return stop("framing: payload does not start with <", s+1, at)
		}
		if s+n > len(d) {
			it := Item{Parse: true, Payload: d[s:], Strict: !be, What: "cut in the payload"}
			if !be {
				it.ErrOnly = true
			}
			return tail(it)
		}
		e := s + n
		it := Item{Frame: true, Parse: true, Payload: d[s:e], Strict: !be, NotUntil: e, MustBy: e, End: e, What: "frame"}
		x.Items = append(x.Items, it)
		if !be && !ok(d[s:e]) {
			x.StopAt = e
			return x
		}
		p = e
	}
	return x
}

// NonTransparent is the model for records ended by a trailer.
func NonTransparent(d []byte, trailer byte, be bool) Expect {
	x := Expect{StopAt: -1}
	if len(d) == 0 {
		return x
	}
	if d[0] != '<' {
		// Records are handled whole, so this one too.
		at := -1
		if i := bytes.IndexByte(d, trailer); i >= 0 {
			at = i + 1
		}
		x.Items = append(x.Items, Item{ErrOnly: true, AnyErr: true, NotUntil: 1, MustBy: at, End: 1, What: "stream does not start with <"})
		x.StopAt = at
		return x
	}
	flush := func(from, to, must int, after bool) {
		it := Item{Frame: true, Parse: true, Payload: d[from : to-1], Strict: !be, NotUntil: to, MustBy: must, End: to, What: "message"}
		// Whether more continuation lines come is only known once the next
		// message starts or the stream ends.
		it.NotUntil = to
		it.AfterEnd = false
		x.Items = append(x.Items, it)
		_ = after
	}
	st := -1 // start of the message being collected
	p := 0
	for p < len(d) {
		q := p
		for q < len(d) && d[q] != trailer {
			q++
		}
		if q == len(d) {
			break
		}
		if d[p] == '<' {
			if st >= 0 {
				flush(st, p, q+1, false)
			}
			st = p
		}
		p = q + 1
	}
	if st >= 0 {
		flush(st, p, -1, true)
	}
	if p < len(d) {
		x.Items = append(x.Items, Item{Parse: true, Payload: d[p:], AnyErr: true, Strict: !be, NotUntil: len(d), MustBy: -1, AfterEnd: true, End: len(d), What: "unterminated rest"})
	}
	return x
}
