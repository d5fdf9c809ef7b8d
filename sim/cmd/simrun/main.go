// Command simrun runs the simulations: one process executes plans one after
// another ("batch", "eval"), the driver ("drive") spreads runs over processes,
// confirms, minimises and reports violations and writes the evidence.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"

	"verifsim/vsim"
	"verifsim/world"
)

func main() {
	runtime.GOMAXPROCS(1)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simrun batch|eval|gen|drive|replay ...")
		os.Exit(2)
	}
	if err := world.LoadDict(os.Getenv("VERIF_DICT")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "batch":
		batch(os.Args[2:])
	case "eval":
		eval(os.Args[2])
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		run, _ := strconv.Atoi(os.Args[4])
		p := world.Generate(os.Args[2], seed, run, len(os.Args) > 5)
		d, _ := json.MarshalIndent(p, "", " ")
		fmt.Println(string(d))
	case "drive":
		os.Exit(drive(os.Args[2:]))
	case "replay":
		os.Exit(replayFile(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

// File is a replay file.
type File struct {
	Property  string           `json:"property"`
	Seed      uint64           `json:"seed"`
	Run       int              `json:"run"`
	Violation *world.Violation `json:"violation,omitempty"`
	Note      string           `json:"note,omitempty"`
	Before    []*world.Plan    `json:"before,omitempty"` // earlier runs in the same process
	Plan      *world.Plan      `json:"plan"`
}

// Answer is what evaluating a plan gives.
type Answer struct {
	V         []world.Violation
	Hash      uint64
	Decisions []vsim.Decision
	Overflow  bool
	Steps     int64
}

var armSites []uint32

// warm finds the sites this property's runs reach, from runs that do not
// depend on the seed; schedules may then be aimed at them.
func warm(id string) {
	if armSites != nil {
		return
	}
	want := map[string]bool{}
	for i := 0; i < 60; i++ {
		p := world.Generate(id, 0xA11CE, i, false)
		p.Sched.Kind = "rtb"
		world.RunPlan(p, want, nil, nil)
	}
	armSites = vsim.HitSites()
	if armSites == nil {
		armSites = []uint32{}
	}
}

// limitMemory makes an allocation out of proportion fail in this process.
func limitMemory(race bool) {
	if !race { // the race detector reserves address space
		l := syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
}

func run(p *world.Plan, st *world.Stats) *world.RunOut {
	if p.Sched.Kind == "site" {
		warm(p.Prop)
	}
	return world.RunPlan(p, world.Props[p.Prop].Want(), st, armSites)
}

func eval(path string) {
	debug.SetMaxStack(256 << 20)
	d, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var f File
	if err := json.Unmarshal(d, &f); err != nil || f.Plan == nil || world.Props[f.Plan.Prop] == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		os.Exit(2)
	}
	limitMemory(f.Plan.Race)
	if len(f.Before) > 0 {
		warm(f.Plan.Prop)
	}
	for _, p := range f.Before {
		run(p, nil)
	}
	o := run(f.Plan, nil)
	a := Answer{V: o.V, Hash: o.Hash, Decisions: o.O.Decisions, Overflow: o.O.Overflow, Steps: o.Steps}
	b, _ := json.Marshal(a)
	os.Stdout.Write(append(b, '\n'))
}

// Batch is what one process reports.
type Batch struct {
	From, To int
	Done     int
	Steps    int64
	SimSec   float64
	Checks   int64
	Switches int64
	Preempts int64
	Multi    int // runs with more than one task
	NonTriv  int
	Hashes   []uint64 // of the histories of non-trivial runs
	Inter    []uint64 // of the schedules of runs with several tasks
	Sites    []uint32
	Stats    *world.Stats
	Tally    uint64 // of all history hashes, in order
	Kinds    map[string]int64
	Known    map[string]int64
	Strats   map[string]int64
	BadRun   int
	Bad      []world.Violation
	BadDecs  []vsim.Decision
	BadOver  bool
	Sample   *world.Plan
	OpsMax   int64
}

// batch <prop> <seed> <from> <to> <race 0/1> <progress file> <all 0/1>
func batch(a []string) {
	debug.SetMaxStack(256 << 20)
	id := a[0]
	seed, _ := strconv.ParseUint(a[1], 10, 64)
	from, _ := strconv.Atoi(a[2])
	to, _ := strconv.Atoi(a[3])
	race := a[4] == "1"
	pf, err := os.OpenFile(a[5], os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	all := len(a) > 6 && a[6] == "1"
	var known []finding
	if len(a) > 7 {
		if known, err = loadKnown(a[7], id); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	limitMemory(race)
	warm(id)
	vsim.ResetHits()
	b := &Batch{From: from, To: to, Stats: world.NewStats(), BadRun: -1, Strats: map[string]int64{}}
	for i := from; i < to; i++ {
		pf.WriteAt([]byte(fmt.Sprintf("%-20d\n", i)), 0)
		p := world.Generate(id, seed, i, race)
		o := run(p, b.Stats)
		b.Done++
		b.Steps += o.Steps
		b.SimSec += float64(o.SimNS) / 1e9
		b.Checks += o.Checks
		b.Switches += o.O.Switches
		b.Preempts += o.O.Preempts
		if o.Steps > b.OpsMax {
			b.OpsMax = o.Steps
		}
		if len(p.Tasks) > 1 {
			b.Multi++
			b.Inter = append(b.Inter, o.O.Hash)
			b.Strats[p.Sched.Kind]++
		}
		if o.Real {
			b.NonTriv++
			b.Hashes = append(b.Hashes, o.Hash)
			if b.Sample == nil && i%997 > 2 {
				b.Sample = p
			}
		}
		b.Tally = b.Tally*1099511628211 ^ o.Hash
		if n := len(o.V); n > 0 && len(known) > 0 {
			o.V = unknown(o.V, known)
			if len(o.V) < n {
				if b.Known == nil {
					b.Known = map[string]int64{}
				}
				b.Known["known"] += int64(n - len(o.V))
			}
		}
		if len(o.V) > 0 {
			if all {
				if b.Kinds == nil {
					b.Kinds = map[string]int64{}
				}
				b.Kinds[o.V[0].Kind]++
				if b.Kinds[o.V[0].Kind] <= 3 {
					fmt.Fprintf(os.Stderr, "run %d: %s: %s\n", i, o.V[0].Kind, o.V[0].Msg)
				}
				if b.BadRun >= 0 {
					continue
				}
			}
			b.BadRun, b.Bad, b.BadDecs, b.BadOver = i, o.V, o.O.Decisions, o.O.Overflow
			if !all {
				break
			}
		}
	}
	b.Sites = vsim.HitSites()
	d, _ := json.Marshal(b)
	os.Stdout.Write(append(d, '\n'))
}
