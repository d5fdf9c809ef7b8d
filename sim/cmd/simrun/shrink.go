package main

import (
	"encoding/json"
	"reflect"
	"time"

	"verifsim/model"
	"verifsim/world"
)

// A plan is minimised by editing its data: parts of lists and byte strings are
// removed, numbers and flags reset, and a candidate is kept when a fresh
// process still reports a violation of the same kind for it.

// slot is an editable place of a plan.
type slot struct {
	v    reflect.Value
	kind byte // 'l' list, 'b' bytes, 'n' number, 'f' flag, 'p' optional, 's' string
	task bool // the list of tasks
}

// fields that name kinds of things, and are not values to simplify
var keep = map[string]bool{"K": true, "O": true, "Prop": true, "Seed": true, "Run": true, "Race": true, "Objs": true, "Conns": true, "M": true, "Kind": true, "Same": true, "MapSeed": true, "Src": true, "Mon": true, "Day": true, "Ver": true, "Loc": true, "TZ": true, "Year": true, "Start": true, "Zone": true, "Sched": true, "Decs": true}

var numbers = map[string]bool{"N": true, "Delay": true, "D": true, "Trap": true, "Pri": true, "H": true, "S": true, "At": true, "Rot": true, "Cut": true, "Mode": true, "Rep": true}

var typB = reflect.TypeOf(model.B{})

func slots(p *world.Plan) []slot {
	var out []slot
	same := false
	for _, o := range p.Objs {
		if o.Same > 0 {
			same = true
		}
	}
	var walk func(v reflect.Value, name string, frozen bool)
	walk = func(v reflect.Value, name string, frozen bool) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if (name == "Cut" || name == "Max") && !frozen {
				out = append(out, slot{v: v, kind: 'p'})
			}
			walk(v.Elem(), name, frozen)
		case reflect.Struct:
			fz := frozen
			if op, ok := v.Addr().Interface().(*world.Op); ok {
				if same && (op.K == "build" || op.K == "str") {
					fz = true
				}
				for i := 0; i < v.NumField(); i++ {
					n := v.Type().Field(i).Name
					if n == "I" && op.K == "repeat" {
						out = append(out, slot{v: v.Field(i), kind: 'n'})
					}
					if n == "K" || n == "O" || n == "I" || n == "Src" || n == "F" {
						continue
					}
					walk(v.Field(i), n, fz || (n == "In" && (op.W != nil || op.W3 != nil)))
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				if keep[n] && !(n == "S" && v.Field(i).Kind() == reflect.Ptr) {
					if n == "Objs" || n == "Conns" {
						for j := 0; j < v.Field(i).Len(); j++ {
							walk(v.Field(i).Index(j), n, fz)
						}
					}
					continue
				}
				walk(v.Field(i), n, fz)
			}
		case reflect.Slice:
			if frozen {
				return
			}
			if same && name == "Calls" {
				return
			}
			if v.Type() == typB {
				if v.Len() > 0 {
					out = append(out, slot{v: v, kind: 'b'})
				}
				return
			}
			if v.Len() > 0 && !(same && (name == "Ops" || name == "Tasks")) && name != "Lat" && name != "Write" && !(name == "Reads" && v.Type().Elem().Kind() == reflect.Int) {
				out = append(out, slot{v: v, kind: 'l', task: name == "Tasks"})
			}
			for i := 0; i < v.Len(); i++ {
				if k := v.Index(i).Kind(); k == reflect.Struct || k == reflect.Slice {
					walk(v.Index(i), name, frozen)
				}
			}
		case reflect.Int, reflect.Int64:
			if !frozen && numbers[name] && v.Int() != 0 {
				out = append(out, slot{v: v, kind: 'n'})
			}
		case reflect.Bool:
			if !frozen && v.Bool() {
				out = append(out, slot{v: v, kind: 'f'})
			}
		case reflect.String:
			if !frozen && (name == "Wrap" || name == "TS") && v.String() != "" {
				out = append(out, slot{v: v, kind: 's'})
			}
		}
	}
	walk(reflect.ValueOf(p).Elem(), "", false)
	return out
}

func clone(p *world.Plan) *world.Plan {
	d, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := &world.Plan{}
	if err := json.Unmarshal(d, q); err != nil {
		panic(err)
	}
	return q
}

// sound tells whether a candidate still is a plan the generators could make,
// as far as the oracles rely on it.
func sound(p *world.Plan) bool {
	var op func(o *world.Op) bool
	op = func(o *world.Op) bool {
		if o.W != nil && !o.W.Valid() || o.W3 != nil && !o.W3.Valid() {
			return false
		}
		if o.S != nil {
			for i := range o.S.L {
				if o.S.L[i].K == "nest" && (o.S.L[i].Op == nil || !op(o.S.L[i].Op)) {
					return false
				}
			}
		}
		return true
	}
	for i := range p.Tasks {
		for j := range p.Tasks[i].Ops {
			if !op(&p.Tasks[i].Ops[j]) {
				return false
			}
		}
	}
	return len(p.Tasks) > 0
}

func cutSlice(v reflect.Value, from, to int) {
	n := reflect.MakeSlice(v.Type(), 0, v.Len())
	n = reflect.AppendSlice(n, v.Slice(0, from))
	n = reflect.AppendSlice(n, v.Slice(to, v.Len()))
	v.Set(n)
}

func dropTasks(p *world.Plan, from, to int) {
	m := func(t int) (int, bool) {
		switch {
		case t < from:
			return t, true
		case t < to:
			return 0, false
		}
		return t - (to - from), true
	}
	out := p.Decs[:0:0]
	for _, d := range p.Decs {
		t, ok1 := m(d.T)
		u, ok2 := m(d.To)
		if ok1 && ok2 {
			d.T, d.To = t, u
			out = append(out, d)
		}
	}
	p.Decs = out
}

// shrink minimises p; test tells whether a candidate still fails the same way.
// It returns the smallest plan found and the number of candidates tried.
func shrink(p *world.Plan, test func(*world.Plan) bool, deadline time.Time) (*world.Plan, int) {
	tried := 0
	best := clone(p)
	over := func() bool { return time.Now().After(deadline) }
	attempt := func(idx int, edit func(q *world.Plan, s slot) bool) bool {
		if over() {
			return false
		}
		q := clone(best)
		ss := slots(q)
		if idx >= len(ss) || !edit(q, ss[idx]) || !sound(q) {
			return false
		}
		tried++
		if !test(q) {
			return false
		}
		best = q
		return true
	}
	for round := 0; round < 6 && !over(); round++ {
		progress := false
		// schedule first: one decision fewer is one task switch fewer
		if len(best.Decs) > 0 {
			for size := len(best.Decs); size >= 1 && !over(); size /= 2 {
				for at := 0; at < len(best.Decs) && !over(); {
					q := clone(best)
					to := at + size
					if to > len(q.Decs) {
						to = len(q.Decs)
					}
					q.Decs = append(q.Decs[:at:at], q.Decs[to:]...)
					tried++
					if test(q) {
						best, progress = q, true
					} else {
						at += size
					}
				}
			}
		}
		for idx := 0; idx < len(slots(best)) && !over(); idx++ {
			s := slots(best)[idx]
			switch s.kind {
			case 'l', 'b':
				n := s.v.Len()
				if s.kind == 'b' && n > 0 {
					// the whole string or half of it first
					if attempt(idx, func(q *world.Plan, s slot) bool { s.v.Set(reflect.Zero(s.v.Type())); return true }) {
						progress = true
						idx--
						continue
					}
				}
				for size := (n + 1) / 2; size >= 1 && !over(); size /= 2 {
					for at := 0; !over(); {
						ss := slots(best)
						if idx >= len(ss) || ss[idx].kind != s.kind || at >= ss[idx].v.Len() {
							break
						}
						if attempt(idx, func(q *world.Plan, s slot) bool {
							to := at + size
							if to > s.v.Len() {
								to = s.v.Len()
							}
							if s.task {
								if s.v.Len() <= to-at {
									return false
								}
								dropTasks(q, at, to)
							}
							cutSlice(s.v, at, to)
							return true
						}) {
							progress = true
						} else {
							at += size
						}
					}
				}
			case 'n':
				for _, to := range []int64{0, 1, s.v.Int() / 2, s.v.Int() * 3 / 4, s.v.Int() - 100, s.v.Int() - 10, s.v.Int() - 1} {
					if to >= s.v.Int() || to < 0 {
						continue
					}
					if attempt(idx, func(q *world.Plan, s slot) bool { s.v.SetInt(to); return true }) {
						progress = true
						break
					}
				}
			case 'f':
				if attempt(idx, func(q *world.Plan, s slot) bool { s.v.SetBool(false); return true }) {
					progress = true
					idx--
				}
			case 'p', 's':
				if attempt(idx, func(q *world.Plan, s slot) bool { s.v.Set(reflect.Zero(s.v.Type())); return true }) {
					progress = true
					idx--
				}
			}
		}
		if !progress {
			break
		}
	}
	return best, tried
}
