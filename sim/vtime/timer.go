package vtime

import (
	"context"
	"time"

	"verifsim/vsim"
)

// Timer is time.Timer on the simulated clock; outside a run it is a real one.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	id   int64
	real *time.Timer
}

func (t *Timer) start(d time.Duration) {
	t.id = vsim.AddTimer(int64(d), func() {
		if t.f != nil {
			vsim.Go(t.f)
			return
		}
		select {
		case t.c <- Now():
		default:
		}
		vsim.WakeChan((<-chan time.Time)(t.c))
	})
}

func newTimer(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	if !vsim.Active() {
		if f != nil {
			t.real = time.AfterFunc(d, f)
		} else {
			t.real = time.NewTimer(d)
			t.C = t.real.C
		}
		return t
	}
	if f == nil {
		t.c = make(chan time.Time, 1)
		t.C = t.c
	}
	t.start(d)
	return t
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer { return newTimer(d, nil) }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer { return newTimer(d, f) }

// After is time.After.
func After(d time.Duration) <-chan time.Time { return newTimer(d, nil).C }

// Stop is the method of time.Timer.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	was := vsim.DelTimer(t.id)
	t.drain()
	return was
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

// Reset is the method of time.Timer.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker is time.Ticker on the simulated clock; outside a run it is a real one.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	id   int64
	d    time.Duration
	real *time.Ticker
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !vsim.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	t.start()
	return t
}

func (t *Ticker) start() {
	t.id = vsim.AddTimer(int64(t.d), func() {
		select {
		case t.c <- Now():
		default:
		}
		vsim.WakeChan((<-chan time.Time)(t.c))
		t.start()
	})
}

// Stop is the method of time.Ticker.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
		return
	}
	vsim.DelTimer(t.id)
}

// Reset is the method of time.Ticker.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
		return
	}
	vsim.DelTimer(t.id)
	t.d = d
	t.start()
}

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// deadline is a context that ends at a moment of the simulated clock.
type deadline struct {
	context.Context
	at time.Time
}

func (c *deadline) Deadline() (time.Time, bool) { return c.at, true }

func (c *deadline) Err() error {
	if err := c.Context.Err(); err != nil {
		if context.Cause(c.Context) == context.DeadlineExceeded {
			return context.DeadlineExceeded
		}
		return err
	}
	return nil
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	if !vsim.Active() {
		return context.WithTimeout(parent, d)
	}
	return WithDeadline(parent, Now().Add(d))
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	if !vsim.Active() {
		return context.WithDeadline(parent, at)
	}
	ctx, cancel := context.WithCancelCause(parent)
	id := vsim.AddTimer(int64(Until(at)), func() {
		cancel(context.DeadlineExceeded)
		vsim.WakeChan(ctx.Done())
	})
	return &deadline{ctx, at}, func() {
		vsim.DelTimer(id)
		cancel(context.Canceled)
		vsim.WakeChan(ctx.Done())
	}
}
