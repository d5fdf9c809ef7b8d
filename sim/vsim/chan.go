package vsim

import "unsafe"

// Channels of the code under test. The real channels carry the values (and the
// happens-before edges the race detector sees); waiting happens in the
// simulator. An unbuffered channel is made with room for one value, and the
// sender waits until that value has been taken.

type chState struct {
	p       uintptr
	recv    int // tasks that wait to receive
	ack     chan struct{}
	durable bool // made outside a run
}

const maxChans = 256

var (
	chans  [maxChans]chState
	nchans int
	selKey byte
)

//go:norace
func chReset() {
	k := 0
	for i := 0; i < nchans; i++ {
		if chans[i].durable {
			chans[k] = chans[i]
			chans[k].recv = 0
			k++
		}
	}
	for i := k; i < nchans; i++ {
		chans[i] = chState{}
	}
	nchans = k
}

//go:norace
func chAdd(p unsafe.Pointer, ack chan struct{}) bool {
	if nchans >= maxChans {
		return false
	}
	chans[nchans] = chState{p: uintptr(p), ack: ack, durable: !active}
	nchans++
	return true
}

//go:norace
func chFind(p unsafe.Pointer) *chState {
	for i := nchans - 1; i >= 0; i-- {
		if chans[i].p == uintptr(p) {
			return &chans[i]
		}
	}
	return nil
}

//go:norace
func chWait(s *chState, d int) {
	if s != nil {
		s.recv += d
	}
}

//go:norace
func chRecvers(s *chState) int { return s.recv }

//go:norace
func chAck(s *chState) chan struct{} { return s.ack }

func ptr[T any](c chan T) unsafe.Pointer    { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func ptrS[T any](c chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func ptrR[T any](c <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c)) }
func chWake(p unsafe.Pointer)               { Wake(p); Wake(unsafe.Pointer(&selKey)) }
func never()                                { var b byte; blockChan(unsafe.Pointer(&b)) }

// MakeChan is make(chan T, n).
func MakeChan[C ~chan T, T any](n int) C {
	if n != 0 {
		return make(C, n)
	}
	c := make(C, 1)
	if !chAdd(ptr((chan T)(c)), make(chan struct{}, 1<<10)) {
		return make(C, 1)
	}
	return c
}

// SendTo is the channel send c <- v, in two parts so that v is converted to
// the element type.
func SendTo[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active {
			c <- v
			return
		}
		Point()
		send(c, v)
		Point()
	}
}

// SelSend is SendTo for a case that Select has picked: nothing comes between.
func SelSend[T any](c chan<- T) func(T) {
	return func(v T) {
		if !active {
			c <- v
			return
		}
		send(c, v)
		Point()
	}
}

func send[T any](c chan<- T, v T) {
	if c == nil {
		for {
			never()
		}
	}
	p := ptrS(c)
	for done := false; !done; {
		select {
		case c <- v:
			done = true
		default:
			blockChan(p)
		}
	}
	chWake(p)
	if s := chFind(p); s != nil {
		for {
			select {
			case <-chAck(s):
				return
			default:
				blockChan(unsafe.Pointer(s))
			}
		}
	}
}

// Recv is <-c.
func Recv[T any](c <-chan T) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c <-chan T) (v T, ok bool) {
	if !active {
		v, ok = <-c
		return
	}
	Point()
	return SelRecv2(c)
}

// SelRecv is Recv for a case that Select has picked.
func SelRecv[T any](c <-chan T) T {
	v, _ := SelRecv2(c)
	return v
}

// SelRecv2 is Recv2 for a case that Select has picked.
func SelRecv2[T any](c <-chan T) (v T, ok bool) {
	if !active {
		v, ok = <-c
		return
	}
	if c == nil {
		for {
			never()
		}
	}
	p := ptrR(c)
	s := chFind(p)
	waiting := false
	for {
		select {
		case v, ok = <-c:
			progress()
			if waiting {
				chWait(s, -1)
			}
			taken(s, p, ok)
			return
		default:
			if !waiting {
				waiting = true
				chWait(s, 1)
				if s != nil {
					Wake(unsafe.Pointer(&selKey))
				}
			}
			blockChan(p)
		}
	}
}

func taken(s *chState, p unsafe.Pointer, ok bool) {
	if s != nil && ok {
		select {
		case chAck(s) <- struct{}{}:
		default:
		}
		Wake(unsafe.Pointer(s))
	}
	chWake(p)
	Point()
}

// Close is close(c).
func Close[T any](c chan<- T) {
	close(c)
	if active {
		chWake(ptrS(c))
		Point()
	}
}

// A Case of a select statement.
type Case struct {
	p     unsafe.Pointer
	s     *chState
	ready func() bool
	recv  bool
}

// CaseS is a case that sends to c.
func CaseS[T any](c chan<- T) Case {
	if c == nil {
		return Case{ready: func() bool { return false }}
	}
	s := chFind(ptrS(c))
	return Case{p: ptrS(c), s: s, ready: func() bool {
		if s != nil {
			return chRecvers(s) > len(c)
		}
		return len(c) < cap(c) || chClosed(ptrS(c))
	}}
}

// CaseR is a case that receives from c.
func CaseR[T any](c <-chan T) Case {
	if c == nil {
		return Case{ready: func() bool { return false }}
	}
	p := ptrR(c)
	return Case{p: p, s: chFind(p), recv: true, ready: func() bool { return len(c) > 0 || chClosed(p) }}
}

//go:norace
func progress() { rechecks = 0 }

// chClosed reads the closed flag of a channel (hchan: qcount uint, dataqsiz
// uint, buf pointer, elemsize uint16, closed uint32, ...).
//
//go:norace
func chClosed(p unsafe.Pointer) bool {
	w := unsafe.Sizeof(uintptr(0))
	return *(*uint32)(unsafe.Add(p, 3*w+4)) != 0
}

// Select waits for a case that can go on and returns its number, or -1 for
// the default.
func Select(def bool, cases ...Case) int {
	Point()
	waiting := false
	for {
		n := 0
		for i := range cases {
			if cases[i].ready() {
				n++
			}
		}
		if n > 0 {
			k := int(MapRand() % uint64(n))
			for i := range cases {
				if cases[i].ready() {
					if k == 0 {
						progress()
						if waiting {
							for j := range cases {
								if cases[j].recv {
									chWait(cases[j].s, -1)
								}
							}
						}
						return i
					}
					k--
				}
			}
		}
		if def {
			return -1
		}
		if !waiting {
			waiting = true
			for j := range cases {
				if cases[j].recv {
					chWait(cases[j].s, 1)
				}
			}
			Wake(unsafe.Pointer(&selKey))
		}
		blockChan(unsafe.Pointer(&selKey))
	}
}

// WakeChan wakes who waits for a channel.
func WakeChan[T any](c <-chan T) {
	if active {
		chWake(ptrR(c))
	}
}
