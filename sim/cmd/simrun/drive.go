package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/vsim"
	"verifsim/world"
)

// The driver of a check. It never runs the code under test itself: every run,
// every confirmation and every candidate of the minimisation is a process of
// its own.

type driver struct {
	prop    *world.Prop
	tier    string
	seed    uint64
	bin     string
	race    string
	verif   string
	scratch string
	sites   string
	start   time.Time
	known   []finding
}

type finding struct {
	prop, kind string
	re         *regexp.Regexp
	text       string
}

// ---- processes

type procResult struct {
	rc      int
	out     []byte
	err     []byte
	timeout bool
}

// call runs a simulation process. It is ended when the file pf (its progress
// file) or, without one, the process as a whole, makes no progress for limit.
func call(bin string, limit time.Duration, pf string, args ...string) procResult {
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=1 exitcode=66 log_path=stderr", "GOTRACEBACK=single")
	var out, er bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &capped{b: &er, max: 1 << 16}
	if err := cmd.Start(); err != nil {
		return procResult{rc: -1, err: []byte(err.Error())}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last := ""
	since := time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	killed := false
	for {
		select {
		case <-done:
			return procResult{rc: cmd.ProcessState.ExitCode(), out: out.Bytes(), err: er.Bytes(), timeout: killed}
		case <-tick.C:
			if pf != "" {
				if d, err := os.ReadFile(pf); err == nil && string(d) != last {
					last, since = string(d), time.Now()
				}
			}
			if !killed && time.Since(since) > limit {
				killed = true
				cmd.Process.Kill()
			}
		}
	}
}

type capped struct {
	b   *bytes.Buffer
	max int
}

func (c *capped) Write(p []byte) (int, error) {
	if n := c.max - c.b.Len(); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		c.b.Write(p[:n])
	}
	return len(p), nil
}

var errHarness = fmt.Errorf("harness")

// died turns the death of a process that ran one plan into a violation.
func died(r procResult) (*world.Violation, error) {
	tail := func() string {
		s := strings.TrimSpace(string(r.err))
		if len(s) > 1500 {
			s = s[:1500]
		}
		return s
	}
	switch {
	case r.timeout:
		return &world.Violation{Kind: "hang", Sig: "hang", Msg: "the run does not end: a call into the library makes no progress"}, nil
	case r.rc == 66:
		return &world.Violation{Kind: "race", Sig: "race", Msg: tail()}, nil
	case r.rc == 3:
		return nil, fmt.Errorf("%w: %s", errHarness, tail())
	case r.rc != 0:
		return &world.Violation{Kind: "crash", Sig: "crash", Msg: fmt.Sprintf("the process dies (%d): %s", r.rc, tail())}, nil
	}
	return nil, nil
}

func (d *driver) binFor(p *world.Plan) string {
	if p.Race {
		return d.race
	}
	return d.bin
}

// eval runs plans in a fresh process; the answer is about the last.
func (d *driver) eval(before []*world.Plan, p *world.Plan, limit time.Duration) (Answer, error) {
	f := File{Property: d.prop.ID, Seed: p.Seed, Run: p.Run, Before: before, Plan: p}
	b, err := json.Marshal(f)
	if err != nil {
		return Answer{}, err
	}
	path := filepath.Join(d.scratch, fmt.Sprintf("eval-%d.json", nextID()))
	if err := os.WriteFile(path, b, 0o600); err != nil {
		return Answer{}, err
	}
	defer os.Remove(path)
	return evalFile(d.binFor(p), path, limit)
}

func evalFile(bin, path string, limit time.Duration) (Answer, error) {
	r := call(bin, limit, "", "eval", path)
	if v, err := died(r); err != nil {
		return Answer{}, err
	} else if v != nil {
		return Answer{V: []world.Violation{*v}}, nil
	}
	var a Answer
	if err := json.Unmarshal(r.out, &a); err != nil {
		return Answer{}, fmt.Errorf("%w: bad answer: %v: %s", errHarness, err, r.err)
	}
	return a, nil
}

var idMu sync.Mutex
var idN int

func nextID() int {
	idMu.Lock()
	defer idMu.Unlock()
	idN++
	return idN
}

// ---- known findings

func loadKnown(path, prop string) (fs []finding, err error) {
	d, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	for _, l := range strings.Split(string(d), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "open:") {
			continue // fixed entries suppress nothing
		}
		m := regexp.MustCompile(`^open: property=(\S+) kind=(\S+) match=/(.*)/ (.*)$`).FindStringSubmatch(l)
		if m == nil {
			return nil, fmt.Errorf("known findings: cannot read %q", l)
		}
		if m[1] != prop {
			continue
		}
		re, err := regexp.Compile(m[3])
		if err != nil {
			return nil, err
		}
		fs = append(fs, finding{m[1], m[2], re, m[4]})
	}
	return fs, nil
}

// unknown drops the violations that are known findings.
func unknown(vs []world.Violation, fs []finding) []world.Violation {
	if len(fs) == 0 {
		return vs
	}
	var out []world.Violation
	for _, v := range vs {
		hit := false
		for _, f := range fs {
			if v.Kind == f.kind && f.re.MatchString(v.Msg) {
				hit = true
			}
		}
		if !hit {
			out = append(out, v)
		}
	}
	return out
}

// ---- the search

type chunk struct {
	from, to int
	race     bool
}

type found struct {
	run    int
	from   int // of its chunk
	race   bool
	v      world.Violation
	decs   []vsim.Decision
	over   bool
	inProc bool // reported by the run itself (not by the death of the process)
}

func (f *found) less(g *found) bool {
	if g == nil {
		return true
	}
	if f.race != g.race {
		return !f.race
	}
	return f.run < g.run
}

type totals struct {
	Batch
	runs, raceRuns int
	hashes, inter  map[uint64]bool
	sites          map[uint32]bool
	sample         []*world.Plan
	tally0         []uint64
	chunks         int
	procs          int
	known          map[string]int64
	searchS        float64
	capped         bool
}

func (d *driver) search(runs, raceRuns, per int, deadline time.Time, workers int) (*found, *totals, error) {
	t := &totals{hashes: map[uint64]bool{}, inter: map[uint64]bool{}, sites: map[uint32]bool{}, known: map[string]int64{}}
	t.Stats = world.NewStats()
	t.Strats = map[string]int64{}
	var list []chunk
	add := func(n int, race bool) {
		for a := 0; a < n; a += per {
			b := a + per
			if b > n {
				b = n
			}
			list = append(list, chunk{a, b, race})
		}
	}
	if raceRuns > 0 {
		// the runs under the race detector are slower: start them first
		add(raceRuns, true)
	}
	add(runs, false)
	var mu sync.Mutex
	next := 0
	var best *found
	var herr error
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		pf := filepath.Join(d.scratch, fmt.Sprintf("progress-%d", w))
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(list) || herr != nil {
					mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					t.capped = true
					mu.Unlock()
					return
				}
				c := list[next]
				next++
				if best != nil && (c.race || !best.race && c.from > best.run) {
					mu.Unlock()
					continue
				}
				mu.Unlock()
				os.WriteFile(pf, nil, 0o600)
				bin := d.bin
				rs := "0"
				if c.race {
					bin, rs = d.race, "1"
				}
				r := call(bin, 60*time.Second, pf, "batch", d.prop.ID, strconv.FormatUint(d.seed, 10), strconv.Itoa(c.from), strconv.Itoa(c.to), rs, pf, "0", d.knownFile())
				var b Batch
				var f *found
				v, err := died(r)
				switch {
				case err != nil:
				case v != nil:
					run := -1
					if p, e := os.ReadFile(pf); e == nil {
						run, e = strconv.Atoi(strings.TrimSpace(string(p)))
						if e != nil {
							run = -1
						}
					}
					if run < 0 {
						// died before its first run: in the runs all checks of
						// this property begin with
						run = c.from
					}
					f = &found{run: run, from: c.from, race: c.race, v: *v}
				default:
					if e := json.Unmarshal(r.out, &b); e != nil {
						err = fmt.Errorf("%w: bad batch: %v: %s", errHarness, e, r.err)
						break
					}
					if b.BadRun >= 0 {
						f = &found{run: b.BadRun, from: c.from, race: c.race, v: b.Bad[0], decs: b.BadDecs, over: b.BadOver, inProc: true}
					}
				}
				mu.Lock()
				if err != nil && herr == nil {
					herr = err
				}
				if f != nil && f.less(best) {
					best = f
				}
				t.add(&b, c)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	t.searchS = time.Since(d.start).Seconds()
	return best, t, herr
}

func (t *totals) add(b *Batch, c chunk) {
	t.procs++
	if c.race {
		t.raceRuns += b.Done
	} else {
		t.runs += b.Done
	}
	t.Steps += b.Steps
	t.SimSec += b.SimSec
	t.Checks += b.Checks
	t.Switches += b.Switches
	t.Preempts += b.Preempts
	t.Multi += b.Multi
	t.NonTriv += b.NonTriv
	if b.OpsMax > t.OpsMax {
		t.OpsMax = b.OpsMax
	}
	for _, h := range b.Hashes {
		t.hashes[h] = true
	}
	for _, h := range b.Inter {
		t.inter[h] = true
	}
	for _, s := range b.Sites {
		t.sites[s] = true
	}
	for k, n := range b.Strats {
		t.Strats[k] += n
	}
	for k, n := range b.Known {
		t.known[k] += n
	}
	if b.Stats != nil {
		for k, n := range b.Stats.Faults {
			t.Stats.Faults[k] += n
		}
		for k, n := range b.Stats.Probes {
			t.Stats.Probes[k] += n
		}
		for k, n := range b.Stats.Ops {
			t.Stats.Ops[k] += n
		}
	}
	if b.Sample != nil && !c.race {
		t.sample = append(t.sample, b.Sample)
	}
}

func (d *driver) knownFile() string { return filepath.Join(d.verif, "known-findings.txt") }

// ---- after a violation

func has(a Answer, kind string) *world.Violation {
	for i := range a.V {
		if a.V[i].Kind == kind {
			return &a.V[i]
		}
	}
	return nil
}

// pin finds a form of the failing run that fails again in a fresh process.
func (d *driver) pin(f *found) (before []*world.Plan, p *world.Plan, note string, err error) {
	limit := 90 * time.Second
	p = world.Generate(d.prop.ID, d.seed, f.run, f.race)
	try := func(before []*world.Plan, q *world.Plan) (bool, Answer, error) {
		a, err := d.eval(before, q, limit)
		if err != nil {
			return false, a, err
		}
		a.V = unknown(a.V, d.known)
		return has(a, f.v.Kind) != nil, a, nil
	}
	replayed := func(decs []vsim.Decision) *world.Plan {
		q := clone(p)
		q.Decs = append([]vsim.Decision(nil), decs...)
		sort.SliceStable(q.Decs, func(i, j int) bool { return q.Decs[i].T < q.Decs[j].T })
		q.Sched = vsim.Strategy{Kind: "replay"}
		return q
	}
	if f.inProc && !f.over && len(p.Tasks) > 1 {
		q := replayed(f.decs)
		if ok, _, err := try(nil, q); err != nil || ok {
			return nil, q, "", err
		}
	}
	if ok, a, err := try(nil, p); err != nil {
		return nil, nil, "", err
	} else if ok {
		if len(p.Tasks) > 1 && !a.Overflow && len(a.Decisions) > 0 {
			q := replayed(a.Decisions)
			if ok, _, err := try(nil, q); err != nil || ok {
				return nil, q, "", err
			}
		}
		return nil, p, "", nil
	}
	// It needs what earlier runs of its process left behind.
	all := func(from int) []*world.Plan {
		var l []*world.Plan
		for i := from; i < f.run; i++ {
			l = append(l, world.Generate(d.prop.ID, d.seed, i, f.race))
		}
		return l
	}
	// few of the last ones may do
	for n := 1; ; n *= 4 {
		from := f.run - n
		if from < f.from {
			from = f.from
		}
		before = all(from)
		ok, _, err := try(before, p)
		if err != nil {
			return nil, nil, "", err
		}
		if ok {
			break
		}
		if from == f.from {
			return before, p, "not reproduced in a fresh process: the code under test depends on something the simulator does not control", nil
		}
	}
	end := time.Now().Add(20 * time.Second)
	for size := len(before) / 2; size >= 1 && time.Now().Before(end); size /= 2 {
		for at := 0; at < len(before) && time.Now().Before(end); {
			to := at + size
			if to > len(before) {
				to = len(before)
			}
			c := append(append([]*world.Plan(nil), before[:at]...), before[to:]...)
			if ok, _, err := try(c, p); err != nil {
				return nil, nil, "", err
			} else if ok {
				before = c
			} else {
				at += size
			}
		}
	}
	return before, p, "needs the state that the earlier runs (before) leave behind in the process", nil
}

func (d *driver) report(f *found, t *totals) (string, *File, int, error) {
	before, p, note, err := d.pin(f)
	if err != nil {
		return "", nil, 0, err
	}
	tried := 0
	limit := 20 * time.Second
	if f.v.Kind == "hang" {
		limit = 5 * time.Second
	}
	if !strings.HasPrefix(note, "not reproduced") {
		budget := 20 * time.Second
		if d.tier == "thorough" {
			budget = 60 * time.Second
		}
		kind := f.v.Kind
		p, tried = shrink(p, func(q *world.Plan) bool {
			a, err := d.eval(before, q, limit)
			return err == nil && has(Answer{V: unknown(a.V, d.known)}, kind) != nil
		}, time.Now().Add(budget))
	}
	v := f.v
	if a, err := d.eval(before, p, 90*time.Second); err == nil {
		if w := has(a, f.v.Kind); w != nil {
			v = *w
		}
	}
	file := &File{Property: d.prop.ID, Seed: d.seed, Run: f.run, Violation: &v, Note: note, Before: before, Plan: p}
	dir := filepath.Join(d.verif, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", nil, tried, err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-seed%d-run%d.json", d.prop.ID, v.Kind, d.seed, f.run))
	b, err := json.MarshalIndent(file, "", " ")
	if err != nil {
		return "", nil, tried, err
	}
	return path, file, tried, os.WriteFile(path, append(b, '\n'), 0o644)
}

// drive <prop> <tier> <seed> <bin> <race bin or -> <verif dir> <scratch> <sites.json> <start unix ns>
func drive(a []string) int {
	if len(a) != 9 || world.Props[a[0]] == nil {
		fmt.Fprintln(os.Stderr, "drive: bad arguments")
		return 2
	}
	seed, err := strconv.ParseUint(a[2], 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ns, _ := strconv.ParseInt(a[8], 10, 64)
	d := &driver{prop: world.Props[a[0]], tier: a[1], seed: seed, bin: a[3], race: a[4], verif: a[5], scratch: a[6], sites: a[7], start: time.Now()}
	began := time.Unix(0, ns)
	if d.known, err = loadKnown(d.knownFile(), d.prop.ID); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	runs, raceRuns, per, wall := d.prop.Quick, 0, 1000, 150*time.Second
	if d.prop.Race {
		raceRuns = d.prop.RaceQ
	}
	if d.tier == "thorough" {
		runs *= 40
		raceRuns *= 20
		per = 5000
		wall = 700 * time.Second
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			runs = n
		}
	}
	if runs/per < 16 {
		per = runs/16 + 1
	}
	best, t, err := d.search(runs, raceRuns, per, began.Add(wall), 8)
	if err != nil {
		fmt.Fprintln(os.Stderr, "error of the check:", err)
		return 2
	}
	// The same seed must give the same histories: run one chunk again.
	same := d.repeat(per)
	for _, f := range d.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop.ID, f.text)
	}
	rc := 0
	tried := 0
	var path string
	var file *File
	if best != nil {
		rc = 1
		path, file, tried, err = d.report(best, t)
		if err != nil {
			fmt.Fprintln(os.Stderr, "error of the check:", err)
			return 2
		}
	}
	if err := d.evidence(t, best, file, path, same, tried, began); err != nil {
		fmt.Fprintln(os.Stderr, "error of the check:", err)
		return 2
	}
	if rc == 1 {
		fmt.Printf("run %d of seed %d (%d candidates tried while minimising): %s: %s\n", best.run, seed, tried, file.Violation.Kind, file.Violation.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop.ID, path)
		return 1
	}
	fmt.Printf("property=%s held: %d runs (%d under the race detector), %d distinct non-trivial histories, %.0f s\n", d.prop.ID, t.runs+t.raceRuns, t.raceRuns, len(t.hashes), time.Since(began).Seconds())
	return 0
}

// repeat runs the first chunk twice more and tells whether the histories agree.
func (d *driver) repeat(per int) string {
	if per > 300 {
		per = 300
	}
	var tally []uint64
	for i := 0; i < 2; i++ {
		pf := filepath.Join(d.scratch, "progress-r")
		os.WriteFile(pf, nil, 0o600)
		r := call(d.bin, 60*time.Second, pf, "batch", d.prop.ID, strconv.FormatUint(d.seed, 10), "0", strconv.Itoa(per), "0", pf, "1", d.knownFile())
		var b Batch
		if r.rc != 0 || json.Unmarshal(r.out, &b) != nil {
			return "not checked: the process died"
		}
		tally = append(tally, b.Tally)
	}
	if tally[0] != tally[1] {
		fmt.Fprintln(os.Stderr, "warning: the same seed gave different histories")
		return fmt.Sprintf("DIFFERENT histories for the same seed in %d runs", per)
	}
	return fmt.Sprintf("%d runs repeated in another process: identical histories", per)
}

type siteInfo struct {
	Sites []struct {
		ID   uint32 `json:"id"`
		Pos  string `json:"pos"`
		Func string `json:"func"`
	} `json:"sites"`
}

func (d *driver) coverage(t *totals) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(d.sites)
	var s siteInfo
	if err != nil || json.Unmarshal(b, &s) != nil {
		return out
	}
	all, hit := map[string]int{}, map[string]int{}
	for _, x := range s.Sites {
		f := x.Pos
		if i := strings.LastIndexByte(f, ':'); i >= 0 {
			f = f[:i]
		}
		all[f]++
		if t.sites[x.ID] {
			hit[f]++
		}
	}
	for f, n := range all {
		if hit[f] > 0 {
			out[f] = fmt.Sprintf("%d of %d statements", hit[f], n)
		}
	}
	return out
}

func (d *driver) evidence(t *totals, best *found, file *File, path, same string, tried int, began time.Time) error {
	perHour := 0.0
	if t.searchS > 0 {
		perHour = float64(t.runs+t.raceRuns) / t.searchS * 3600
	}
	var samples []interface{}
	sort.Slice(t.sample, func(i, j int) bool { return t.sample[i].Run < t.sample[j].Run })
	size := 0
	for _, p := range t.sample {
		b, _ := json.Marshal(p)
		if len(b) < 6000 && size < 30000 && len(samples) < 4 {
			samples = append(samples, p)
			size += len(b)
		}
	}
	if len(samples) == 0 && len(t.sample) > 0 {
		samples = append(samples, t.sample[0])
	}
	viol := 0
	if best != nil {
		viol = 1
		samples = append(samples, map[string]interface{}{"violation": file.Violation, "replay": path, "seed": d.seed, "run": best.run, "minimisation_candidates": tried})
	}
	if samples == nil {
		samples = []interface{}{"no sample: the first process died"}
	}
	race := "no: this property is about values and progress, which the simulated scheduler decides without it"
	if d.prop.Race {
		race = fmt.Sprintf("yes: %d of the runs in a build with the Go race detector, under the same simulated scheduler", t.raceRuns)
	}
	cov := map[string]interface{}{
		"evaluations":          t.runs + t.raceRuns,
		"distinct_nontrivial":  len(t.hashes),
		"rule":                 d.prop.Rule,
		"samples":              samples,
		"runs_per_hour":        int64(perHour),
		"seed_and_runs":        fmt.Sprintf("seed %d, run numbers 0..%d (each run has a pseudo-random stream of its own, derived from property, seed and number)", d.seed, t.runs-1),
		"stopped_by_wall_cap":  t.capped,
		"simulated_seconds":    t.SimSec,
		"steps_scheduled":      t.Steps,
		"longest_run_steps":    t.OpsMax,
		"oracle_comparisons":   t.Checks,
		"faults_injected":      t.Stats.Faults,
		"operations":           t.Stats.Ops,
		"rare_events_reached":  t.Stats.Probes,
		"runs_with_many_tasks": t.Multi,
		"task_switches":        t.Switches,
		"preemptions":          t.Preempts,
		"schedulers":           t.Strats,
		"distinct_interleavings": map[string]interface{}{
			"count":   len(t.inter),
			"measure": "distinct sequences of (task, own step, next task) switches over the runs with more than one task",
		},
		"statements_reached":        d.coverage(t),
		"race_detector":             race,
		"determinism":               same,
		"change_directed_constants": fmt.Sprintf("%d integers and %d texts that /repo mentions more often than the tree these checks were written for; the generators draw from them", len(world.Dict.Ints), len(world.Dict.Strs)),
		"processes":                 t.procs,
		"real_components":           []string{"go-syslog: every package of /repo's working tree (parsers, builders, scanner, stream machines), recompiled with a scheduling point before each statement", "bufio, strings, strconv, time.Parse, fmt of the Go standard library", "github.com/leodido/ragel-machinery (not instrumented)"},
		"stub_components":           append([]string{"clock (time.Now, Sleep), goroutine scheduler, sync locks, map iteration order: the simulator", "peers, networks and io.Readers: simulated, with drawn faults", "listeners and callers: simulated tasks"}, d.prop.Stub...),
	}
	if len(t.known) > 0 {
		cov["known_findings_seen"] = t.known
	}
	ev := map[string]interface{}{
		"property": d.prop.ID, "tier": d.tier, "seed": d.seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"A sample of the schedules, faults and inputs, chosen by seeded generators; nothing is enumerated completely.",
			"Task switches happen between statements of go-syslog and at locks, reads and listener calls; below a statement only the race detector looks.",
			"The standard library, ragel-machinery and the reference models of /verif/sim/model are trusted.",
		},
		"wall_s":     time.Since(began).Seconds(),
		"violations": viol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(d.verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, d.prop.ID+".json"), append(b, '\n'), 0o644)
}

// replay <file> <bin> <race bin or -> <verif dir> <scratch>
func replayFile(a []string) int {
	if len(a) != 5 {
		return 2
	}
	b, err := os.ReadFile(a[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f File
	if err := json.Unmarshal(b, &f); err != nil || f.Plan == nil || world.Props[f.Property] == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		return 2
	}
	bin := a[1]
	if f.Plan.Race {
		bin = a[2]
	}
	var last Answer
	for i := 0; i < 2; i++ {
		ans, err := evalFile(bin, a[0], 120*time.Second)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if i > 0 && ans.Hash != last.Hash {
			fmt.Println("warning: two executions of the replay file differ")
		}
		last = ans
	}
	kind := ""
	if f.Violation != nil {
		kind = f.Violation.Kind
	}
	for _, v := range last.V {
		fmt.Printf("%s: %s\n", v.Kind, v.Msg)
		if v.Kind == kind || kind == "" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, a[0])
			return 1
		}
	}
	fmt.Println("the replay file's violation does not occur on this tree")
	return 0
}
