// Package vsim is the simulator core: cooperative tasks that run one at a time
// under a seeded scheduler, a simulated clock, step accounting and coverage.
//
// Every task is a goroutine, but only the one whose turn it is executes; the
// turn moves at statement-level yield points (Y), at explicit points (Point),
// and when a task blocks, sleeps or ends. The turn is handed over by spinning
// on a plain variable with runtime.Gosched under GOMAXPROCS(1), in functions
// the race detector does not instrument: a -race build therefore sees no
// happens-before edge that the code under test did not create itself.
package vsim

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"
)

const (
	MaxTasks  = 48
	MaxSites  = 1 << 17
	maxRec    = 1 << 17
	forever   = int64(1) << 60
	unstarted = int32(-1)
)

// Task states.
const (
	stNone = iota
	stRunnable
	stBlocked
	stSleeping
	stDone
)

// Decision is one deviation from the default schedule: task T, at its K-th
// own step, hands the turn to task To. The default is to run on; a task that
// blocks or ends hands the turn to the lowest numbered runnable task.
//
// With To -2 it is the task that is stalled: it sleeps for D nanoseconds.
type Decision struct {
	T  int   `json:"t"`
	K  int64 `json:"k"`
	To int   `json:"to"`
	D  int64 `json:"d,omitempty"`
}

// Strategy picks decisions when no recorded schedule is given.
type Strategy struct {
	Kind  string `json:"kind"` // rtb, rand, pct, rr, site, replay
	Seed  uint64 `json:"seed,omitempty"`
	Mean  int64  `json:"mean,omitempty"`  // rand: mean gap; rr: quantum; site: mean gap elsewhere
	Depth int    `json:"depth,omitempty"` // pct: change points; site: armed sites
	Len   int64  `json:"len,omitempty"`   // pct: expected length of the run
	PHint int    `json:"phint,omitempty"` // percent chance to switch at an explicit point
	Stall int    `json:"stall,omitempty"` // percent of the preempted tasks that are stalled for a while
}

type task struct {
	state   int
	key     uintptr
	wake    int64
	steps   int64 // own steps before the current turn
	opBase  int64
	opLimit int64
	extra   int64 // bytes copied by the operation
	prio    int64
	aborted bool
	chan_   bool // blocked on a channel
	di, dn  int  // replay: window in decs
	name    string
}

// Config of one simulated run.
type Config struct {
	Strategy  Strategy
	Decisions []Decision // for Kind "replay"
	RunLimit  int64      // total steps
	WallStart int64      // ns since the epoch shown by the wall clock at start
	MapSeed   uint64
	ArmFrom   []uint32 // sites to arm from (strategy "site")
}

// Outcome of one simulated run.
type Outcome struct {
	Steps     int64
	Switches  int64
	Preempts  int64
	Stalls    int64
	Hash      uint64 // of the switch sequence
	SimTime   int64  // ns of simulated time
	Deadlock  bool
	RunLimit  bool
	Blocked   []string // what the tasks were doing at a deadlock
	Decisions []Decision
	Overflow  bool
	Tasks     int
}

// HangError is the panic value that ends an operation which exceeded its step
// limit.
type HangError struct{ Steps int64 }

func (h HangError) Error() string {
	return fmt.Sprintf("operation still running after %d steps", h.Steps)
}

type abortError struct{}

func (abortError) Error() string { return "vsim: run aborted" }

// IsAbort tells whether a recovered panic value is the simulator's own abort.
func IsAbort(v interface{}) bool { _, ok := v.(abortError); return ok }

var (
	fuel   int64 = forever
	hit    [MaxSites]uint8
	active bool
	turn   int32 = unstarted

	tasks    [MaxTasks]task
	ntasks   int
	live     int
	nmain    int // tasks the run began with
	rechecks int
	cur      int
	grant    int64
	total    int64 // steps of finished turns
	runLimit int64
	mono     int64
	wallOff  int64
	rng      uint64
	maprng   uint64
	strat    Strategy
	aborting bool
	deadlock bool
	limited  bool
	switches int64
	preempts int64
	stalls   int64
	shash    uint64
	lastSite int

	decs  []Decision
	rec   [maxRec]Decision
	nrec  int
	recOv bool

	pctAt  [64]int64
	npct   int
	pctLow int64

	armed  [64]uint32
	narmed int

	wg sync.WaitGroup
)

//go:norace
func next() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func mix(x uint64) {
	shash ^= x
	shash *= 0x100000001b3
	shash ^= shash >> 29
}

// Y is the yield point the instrumenter puts before every statement.
//
//go:norace
func Y(site int) {
	if hit[site&(MaxSites-1)] != 1 {
		siteSlow(site)
	}
	fuel--
	if fuel < 0 {
		lastSite = site
		slow()
	}
}

//go:norace
func siteSlow(site int) {
	s := site & (MaxSites - 1)
	if hit[s]&2 != 0 && active && !aborting {
		hit[s] = 3
		if next()%100 < 60 {
			settleQuiet() // fuel is zero now: the decrement in Y reaches the slow path
		}
		return
	}
	hit[s] |= 1
}

// Point is an explicit scheduling point of the harness (I/O calls, listener
// calls, operation boundaries).
//
//go:norace
func Point() {
	if !active {
		return
	}
	fuel--
	if fuel < 0 {
		slow()
		return
	}
	if strat.Kind == "replay" || tasks[cur].aborted {
		return
	}
	if strat.Stall > 0 && int(next()%400) < strat.Stall {
		drawStall(localSteps())
		return
	}
	if strat.PHint > 0 && int(next()%100) < strat.PHint {
		k := localSteps()
		if to := pickOther(cur); to >= 0 {
			record(cur, k, to, 0)
			preempts++
			switchTo(to)
		}
	}
}

// Gosched replaces runtime.Gosched in the code under test: a scheduling point
// at which another task must get its chance.
//
//go:norace
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	fuel--
	if fuel < 0 {
		slow()
	}
	if to := nextRunnable(cur); to >= 0 && to != cur {
		switchTo(to)
	}
}

//go:norace
func nextRunnable(from int) int {
	for i := 1; i <= ntasks; i++ {
		j := (from + i) % ntasks
		if tasks[j].state == stRunnable {
			return j
		}
	}
	return -1
}

// localSteps is the number of steps the running task has taken.
//
//go:norace
func localSteps() int64 { return tasks[cur].steps + grant - fuel }

//go:norace
func record(t int, k int64, to int, d int64) {
	if nrec < maxRec {
		rec[nrec].T, rec[nrec].K, rec[nrec].To, rec[nrec].D = t, k, to, d
		nrec++
	} else {
		recOv = true
	}
}

//go:norace
func pickOther(not int) int {
	n := 0
	for i := 0; i < ntasks; i++ {
		if i != not && tasks[i].state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(next() % uint64(n))
	for i := 0; i < ntasks; i++ {
		if i != not && tasks[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

//go:norace
func best(not int) int {
	b := -1
	for i := 0; i < ntasks; i++ {
		if i != not && tasks[i].state == stRunnable && (b < 0 || tasks[i].prio > tasks[b].prio) {
			b = i
		}
	}
	return b
}

// slow runs when the fuel of the current turn is used up.
//
//go:norace
func slow() {
	if !active {
		fuel = forever
		return
	}
	t := &tasks[cur]
	k := localSteps()
	if t.aborted {
		refill()
		return
	}
	if aborting {
		t.aborted = true
		panic(abortError{})
	}
	if k-t.opBase > t.opLimit {
		n := k - t.opBase
		t.opBase = k // the handler of the panic gets a fresh allowance
		settle()
		panic(HangError{n})
	}
	if total+(k-t.steps) > runLimit {
		limited, aborting = true, true
		t.aborted = true
		settle()
		panic(abortError{})
	}
	to := -1
	switch strat.Kind {
	case "replay":
		for t.di < t.dn && decs[t.di].K < k {
			t.di++
		}
		if t.di < t.dn && decs[t.di].K == k {
			to = decs[t.di].To
			if to == -2 {
				d := decs[t.di].D
				t.di++
				stall(d)
				return
			}
			t.di++
			if to < 0 || to >= ntasks || tasks[to].state != stRunnable || to == cur {
				to = -1
			}
		}
		if to < 0 && k-t.steps >= fairness {
			to = nextRunnable(cur)
			if to == cur {
				to = -1
			}
		}
	case "pct":
		g := total + (k - t.steps)
		for i := 0; i < npct; i++ {
			if pctAt[i] >= 0 && pctAt[i] <= g {
				pctAt[i] = -1
				pctLow--
				t.prio = pctLow
			}
		}
		if k-t.steps >= fairness {
			pctLow--
			t.prio = pctLow
		}
		if b := best(-1); b != cur {
			to = b
		}
	case "rr":
		to = nextRunnable(cur)
		if to == cur {
			to = -1
		}
	case "rand", "site":
		to = pickOther(cur)
	case "rtb":
		if k-t.steps >= fairness {
			to = pickOther(cur)
		}
	}
	if to >= 0 {
		if strat.Stall > 0 && strat.Kind != "replay" && int(next()%100) < strat.Stall {
			drawStall(k)
			return
		}
		record(cur, k, to, 0)
		preempts++
		switchTo(to)
		return
	}
	settle()
}

var stallTimes = [...]int64{1000, 1000000, 20000000, 1000000000, 20000000000, 300000000000}

//go:norace
func drawStall(k int64) {
	d := stallTimes[next()%uint64(len(stallTimes))]
	record(cur, k, -2, d)
	stall(d)
}

// stall suspends the running task for d nanoseconds, as when its thread is not
// scheduled or its machine is stopped.
//
//go:norace
func stall(d int64) {
	stalls++
	tasks[cur].state = stSleeping
	tasks[cur].wake = mono + d
	park()
}

// fairness bounds how long one task may run while others are runnable; it
// keeps a spin loop from starving the task it waits for.
const fairness = 400000

// settle closes the accounting of the current turn and starts a new one for
// the same task.
//
//go:norace
func settle() {
	settleQuiet()
	refill()
}

// refill gives the current task fuel up to its next point of interest.
//
//go:norace
func refill() {
	t := &tasks[cur]
	used := grant - fuel
	t.steps += used
	total += used
	k := t.steps
	n := int64(fairness)
	switch strat.Kind {
	case "replay":
		for t.di < t.dn && decs[t.di].K <= k {
			t.di++
		}
		if t.di < t.dn && decs[t.di].K-k < n {
			n = decs[t.di].K - k
		}
	case "pct":
		for i := 0; i < npct; i++ {
			if pctAt[i] >= 0 {
				d := pctAt[i] - total
				if d < 1 {
					d = 1
				}
				if d < n {
					n = d
				}
			}
		}
	case "rr":
		n = strat.Mean
	case "rand", "site":
		if strat.Mean > 0 {
			// a geometric-like gap with the given mean
			g := int64(1)
			u := next() >> 11
			f := float64(u) / (1 << 53)
			// -ln(1-f) without math.Log: sum of halvings is good enough here
			for f > 0.5 && g < 40 {
				f = (f - 0.5) * 2
				g++
			}
			n = 1 + int64(float64(strat.Mean)*(float64(g-1)+f*2)*0.7)
			if n > fairness {
				n = fairness
			}
		}
	}
	if r := t.opLimit - (k - t.opBase) + 1; r < n {
		n = r
	}
	if r := runLimit - total + 1; r < n {
		n = r
	}
	if n < 1 {
		n = 1
	}
	if t.aborted || aborting {
		n = 1
		if t.aborted {
			n = forever
		}
	}
	// slow() runs when fuel drops below zero, that is at the n-th step
	grant, fuel = n-1, n-1
}

// switchTo hands the turn to another task and waits until it comes back.
//
//go:norace
func switchTo(to int) {
	me := cur
	t := &tasks[me]
	used := grant - fuel
	t.steps += used
	total += used
	switches++
	mix(uint64(me)<<40 ^ uint64(to)<<32 ^ uint64(t.steps))
	giveTurn(to)
	waitTurn(me)
}

//go:norace
func giveTurn(to int) {
	cur = to
	grant, fuel = 0, 0
	refill()
	turn = int32(to)
}

//go:norace
func waitTurn(me int) {
	for turn != int32(me) {
		runtime.Gosched()
	}
	if aborting && !tasks[me].aborted {
		tasks[me].aborted = true
		fuel, grant = forever, forever
		panic(abortError{})
	}
}

// yieldAway gives up the turn because the task cannot run (it blocked, sleeps
// or ended).
//
//go:norace
func nextAfterBlock(me int) int {
	k := tasks[me].steps
	to := -1
	switch strat.Kind {
	case "replay":
		t := &tasks[me]
		for t.di < t.dn && decs[t.di].K < k {
			t.di++
		}
		if t.di < t.dn && decs[t.di].K == k {
			to = decs[t.di].To
			t.di++
			if to < 0 || to >= ntasks || tasks[to].state != stRunnable {
				to = -1
			}
		}
		if to >= 0 {
			return to
		}
	case "pct":
		to = best(me)
	case "rr":
		to = nextRunnable(me)
	default:
		to = pickOther(me)
	}
	def := -1
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stRunnable && i != me {
			def = i
			break
		}
	}
	if to < 0 {
		return def
	}
	if to != def {
		record(me, k, to, 0)
	}
	return to
}

// park blocks the running task; its state must already say why.
//
//go:norace
func park() {
	me := cur
	t := &tasks[me]
	used := grant - fuel
	// A blocking point is a step of its own, so that its decision has its own
	// place in the task's history.
	used++
	t.steps += used
	total += used
	grant, fuel = 0, 0
	to := nextAfterBlock(me)
	if to < 0 {
		to = advanceClock()
	}
	if to < 0 && tasks[me].state == stRunnable {
		to = me
	}
	if to < 0 {
		to = recheck()
	}
	if to < 0 {
		stuck()
		t.aborted = true
		fuel, grant = forever, forever
		panic(abortError{})
	}
	switches++
	mix(uint64(me)<<40 ^ uint64(to)<<32 ^ uint64(t.steps) ^ 1<<60)
	if to == me {
		refill()
		return
	}
	giveTurn(to)
	waitTurn(me)
}

// stuck ends a run in which nothing can go on. What is left of tasks which the
// code under test started for itself is not a deadlock.
//
//go:norace
func stuck() {
	aborting = true
	for i := 0; i < nmain; i++ {
		if tasks[i].state != stDone {
			deadlock = true
		}
	}
}

// recheck lets tasks that wait for channels look again, a few times, since
// packages that are not simulated may have closed a channel.
//
//go:norace
func recheck() int {
	if rechecks >= 3 {
		return -1
	}
	rechecks++
	first := -1
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].chan_ {
			tasks[i].state = stRunnable
			tasks[i].key = 0
			if first < 0 {
				first = i
			}
		}
	}
	return first
}

// A timer is something to be done at a moment of the simulated clock, by
// whoever advances it. It must not block.
type timer struct {
	at int64
	id int64
	f  func()
}

var (
	timers  [64]timer
	ntimers int
	timerID int64
	fired   int
)

// AddTimer has f called d nanoseconds from now. It returns 0 if no run is in
// progress.
//
//go:norace
func AddTimer(d int64, f func()) int64 {
	if !active || tasks[cur].aborted {
		return 0
	}
	if ntimers == len(timers) {
		panic("vsim: too many timers")
	}
	if d < 0 {
		d = 0
	}
	timerID++
	timers[ntimers] = timer{mono + d, timerID, f}
	ntimers++
	return timerID
}

// DelTimer cancels a timer and tells whether it was still to come.
//
//go:norace
func DelTimer(id int64) bool {
	for i := 0; i < ntimers; i++ {
		if timers[i].id == id {
			copy(timers[i:ntimers], timers[i+1:ntimers])
			ntimers--
			timers[ntimers] = timer{}
			return true
		}
	}
	return false
}

// advanceClock moves simulated time to the next wake-up and returns a task
// that can run then.
//
//go:norace
func advanceClock() int {
	for {
		min := int64(-1)
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stSleeping && (min < 0 || tasks[i].wake < min) {
				min = tasks[i].wake
			}
		}
		next := -1
		for i := 0; i < ntimers; i++ {
			if (min < 0 || timers[i].at <= min) && (next < 0 || timers[i].at < timers[next].at) {
				next = i
			}
		}
		if next >= 0 {
			// A task that sleeps goes on one day; without one, and after so many
			// timers that led to nothing else, nothing ever will.
			if min >= 0 {
				fired = 0
			} else if fired++; fired > 10000 {
				return -1
			}
			t := timers[next]
			DelTimer(t.id)
			if t.at > mono {
				mono = t.at
			}
			t.f()
			for i := 0; i < ntasks; i++ {
				if tasks[i].state == stRunnable {
					return i
				}
			}
			continue
		}
		if min < 0 {
			return -1
		}
		if min > mono {
			mono = min
		}
		first := -1
		for i := 0; i < ntasks; i++ {
			if tasks[i].state == stSleeping && tasks[i].wake <= mono {
				tasks[i].state = stRunnable
				if first < 0 {
					first = i
				}
			}
		}
		return first
	}
}

// Sleep suspends the task for d nanoseconds of simulated time.
//
//go:norace
func Sleep(d int64) {
	if !active || tasks[cur].aborted {
		return
	}
	if d <= 0 {
		Point()
		return
	}
	tasks[cur].state = stSleeping
	tasks[cur].wake = mono + d
	park()
}

// BlockOn suspends the task until Wake(key).
//
//go:norace
func BlockOn(key unsafe.Pointer) {
	if !active {
		runtime.Gosched()
		return
	}
	if tasks[cur].aborted {
		panic(abortError{})
	}
	tasks[cur].state = stBlocked
	tasks[cur].key = uintptr(key)
	park()
}

// blockChan is BlockOn for what waits for a channel.
//
//go:norace
func blockChan(key unsafe.Pointer) {
	if active {
		tasks[cur].chan_ = true
	}
	BlockOn(key)
	if active {
		tasks[cur].chan_ = false
	}
}

// Wake makes every task blocked on key runnable.
//
//go:norace
func Wake(key unsafe.Pointer) {
	if !active {
		return
	}
	rechecks = 0
	for i := 0; i < ntasks; i++ {
		if tasks[i].state == stBlocked && tasks[i].key == uintptr(key) {
			tasks[i].state = stRunnable
			tasks[i].key = 0
		}
	}
}

// Active tells whether a simulated run is in progress.
//
//go:norace
func Active() bool { return active }

// Aborted tells whether the running task is being torn down.
//
//go:norace
func Aborted() bool { return active && tasks[cur].aborted }

// Self is the running task.
//
//go:norace
func Self() int { return cur }

// Mono is the simulated monotonic time in nanoseconds.
//
//go:norace
func Mono() int64 { return mono }

// Wall is the simulated wall clock, in nanoseconds since the epoch.
//
//go:norace
func Wall() int64 { return mono + wallOff }

// Jump moves the wall clock by d nanoseconds without moving monotonic time.
//
//go:norace
func Jump(d int64) { wallOff += d }

// Steps is the number of steps taken in this run.
//
//go:norace
func Steps() int64 {
	if !active {
		return total
	}
	return total + grant - fuel
}

// OpBegin starts an operation of the running task that must end within limit
// steps of its own.
//
//go:norace
func OpBegin(limit int64) {
	if !active {
		return
	}
	settleQuiet()
	t := &tasks[cur]
	t.opBase = t.steps
	t.opLimit = limit
	t.extra = 0
	refill()
}

// OpEnd ends it and returns the steps it took.
//
//go:norace
func OpEnd() int64 {
	if !active {
		return 0
	}
	settleQuiet()
	t := &tasks[cur]
	n := t.steps - t.opBase
	t.opBase = t.steps
	t.opLimit = forever
	refill()
	return n
}

//go:norace
func settleQuiet() {
	t := &tasks[cur]
	used := grant - fuel
	t.steps += used
	total += used
	grant, fuel = 0, 0
}

// MapRand is the random stream that decides map iteration orders.
//
//go:norace
func MapRand() uint64 {
	maprng += 0x9e3779b97f4a7c15
	z := maprng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Go starts a new task from a running one.
//
//go:norace
func Go(f func()) {
	if !active {
		go f()
		return
	}
	if ntasks >= MaxTasks {
		panic("vsim: too many tasks")
	}
	id := ntasks
	initTask(id)
	ntasks++
	live++
	wg.Add(1)
	go body(id, f)
}

//go:norace
func initTask(id int) {
	t := &tasks[id]
	t.state = stRunnable
	t.key, t.wake, t.steps, t.opBase = 0, 0, 0, 0
	t.opLimit = forever
	t.extra = 0
	t.aborted = false
	t.chan_ = false
	t.prio = int64(next()>>16) + 1000
	t.di, t.dn = 0, 0
	if strat.Kind == "replay" {
		for t.di < len(decs) && decs[t.di].T != id {
			t.di++
		}
		t.dn = t.di
		for t.dn < len(decs) && decs[t.dn].T == id {
			t.dn++
		}
	}
}

// SpawnPanic receives panics that escape from tasks the code under test
// started itself.
var SpawnPanic func(task int, v interface{})

func body(id int, f func()) {
	defer wg.Done()
	defer finish(id)
	defer func() {
		if v := recover(); v != nil && !IsAbort(v) {
			if SpawnPanic != nil {
				SpawnPanic(id, v)
			}
		}
	}()
	waitTurn(id)
	f()
}

//go:norace
func finish(id int) {
	t := &tasks[id]
	used := grant - fuel
	if !t.aborted {
		t.steps += used + 1
		total += used + 1
	}
	t.state = stDone
	live--
	if live == 0 {
		active = false
		fuel = forever
		turn = unstarted
		return
	}
	grant, fuel = 0, 0
	to := -1
	if aborting {
		for i := 0; i < ntasks; i++ {
			if tasks[i].state != stDone {
				to = i
				break
			}
		}
	} else {
		to = nextAfterBlock(id)
		if to < 0 {
			to = advanceClock()
		}
		if to < 0 {
			to = recheck()
		}
		if to < 0 {
			stuck()
			for i := 0; i < ntasks; i++ {
				if tasks[i].state != stDone {
					to = i
					break
				}
			}
		}
	}
	switches++
	mix(uint64(id)<<40 ^ uint64(to)<<32 ^ uint64(t.steps) ^ 1<<61)
	giveTurn(to)
}

// Run executes the tasks under the simulator and returns when all have ended.
// It must be called with no run in progress.
func Run(cfg Config, fs []func()) Outcome {
	setup(cfg, len(fs))
	wg.Add(len(fs))
	for i, f := range fs {
		go body(i, f)
	}
	start()
	wg.Wait()
	return outcome()
}

//go:norace
func setup(cfg Config, n int) {
	strat = cfg.Strategy
	rng = cfg.Strategy.Seed
	maprng = cfg.MapSeed
	chReset()
	decs = cfg.Decisions
	runLimit = cfg.RunLimit
	if runLimit <= 0 {
		runLimit = forever
	}
	mono, wallOff = 0, cfg.WallStart
	ntasks, live, nmain = n, n, n
	for i := 0; i < ntimers; i++ {
		timers[i] = timer{}
	}
	ntimers, timerID, fired, rechecks = 0, 0, 0, 0
	total, switches, preempts, stalls = 0, 0, 0, 0
	aborting, deadlock, limited, recOv = false, false, false, false
	nrec = 0
	shash = 0xcbf29ce484222325
	pctLow = 0
	npct = 0
	if strat.Kind == "pct" {
		npct = strat.Depth
		if npct > len(pctAt) {
			npct = len(pctAt)
		}
		l := strat.Len
		if l < 1 {
			l = 1
		}
		for i := 0; i < npct; i++ {
			pctAt[i] = int64(next() % uint64(l))
		}
	}
	for i := 0; i < narmed; i++ {
		hit[armed[i]] = 1
	}
	narmed = 0
	if strat.Kind == "site" && len(cfg.ArmFrom) > 0 {
		for i := 0; i < strat.Depth && i < len(armed); i++ {
			s := cfg.ArmFrom[next()%uint64(len(cfg.ArmFrom))]
			armed[narmed] = s
			narmed++
			hit[s] = 3
		}
	}
	for i := 0; i < n; i++ {
		initTask(i)
	}
	active = true
}

//go:norace
func start() {
	first := 0
	if strat.Kind == "replay" {
		// the choice of the first task is recorded as a decision of task -1
		for i := range decs {
			if decs[i].T == -1 && decs[i].To >= 0 && decs[i].To < ntasks {
				first = decs[i].To
			}
		}
	} else if strat.Kind == "pct" {
		first = best(-1)
	} else {
		first = int(next() % uint64(ntasks))
	}
	if first != 0 && strat.Kind != "replay" {
		record(-1, 0, first, 0)
	}
	giveTurn(first)
}

//go:norace
func outcome() Outcome {
	for i := 0; i < narmed; i++ {
		hit[armed[i]] = 1
	}
	narmed = 0
	o := Outcome{Steps: total, Switches: switches, Preempts: preempts, Stalls: stalls, Hash: shash, SimTime: mono, Deadlock: deadlock, RunLimit: limited, Overflow: recOv, Tasks: ntasks}
	o.Decisions = make([]Decision, nrec)
	for i := 0; i < nrec; i++ {
		o.Decisions[i] = rec[i]
	}
	return o
}

// Hits returns the number of distinct instrumented sites reached so far.
//
//go:norace
func Hits() int {
	n := 0
	for i := range hit {
		if hit[i] != 0 {
			n++
		}
	}
	return n
}

// HitSites lists the sites reached so far.
//
//go:norace
func HitSites() []uint32 {
	var r []uint32
	for i := range hit {
		if hit[i] != 0 {
			r = append(r, uint32(i))
		}
	}
	return r
}

// ResetHits forgets coverage; it returns what was there.
//
//go:norace
func ResetHits() {
	for i := range hit {
		hit[i] = 0
	}
}
