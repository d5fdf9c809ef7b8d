package world

import (
	"encoding/json"
	"os"
)

// Dict holds constants that the code under test mentions more often than the
// code these simulations were written for did. The generators use them now and
// then, as sizes, counts, characters and texts: a changed tree is explored
// around what changed. It is empty on the tree the simulations were written
// for, and has no part in judging a run.
var Dict struct {
	Ints []int
	Strs []B
}

// LoadDict reads the dictionary the instrumenter wrote.
func LoadDict(path string) error {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var d struct {
		Ints []int64  `json:"ints"`
		Strs [][]byte `json:"strs"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return err
	}
	for _, v := range d.Ints {
		Dict.Ints = append(Dict.Ints, int(v))
	}
	for _, s := range d.Strs {
		Dict.Strs = append(Dict.Strs, B(s))
	}
	return nil
}

// hint is, with pct percent, an integer at or next to one of the dictionary
// that lies in [lo, hi]. It consumes no randomness when there is none.
func (r *Rand) hint(pct, lo, hi int) (int, bool) {
	if len(Dict.Ints) == 0 || !r.P(pct) {
		return 0, false
	}
	v := Dict.Ints[r.N(len(Dict.Ints))]
	if v < 0 {
		v = -v
	}
	v += r.PickI(-1, 0, 0, 1, 1)
	if v < lo || v > hi {
		return 0, false
	}
	return v, true
}

// hintUp is a hint in [lo, hi], or now and then one above hi up to huge: the
// rarer the larger, so that the cost of a run stays what it was.
func (r *Rand) hintUp(pct, lo, hi, huge int) (int, bool) {
	v, ok := r.hint(pct, lo, huge)
	if ok && v > hi && r.N(2*v/hi) > 0 {
		return 0, false
	}
	return v, ok
}

// or is the hint, or def.
func (r *Rand) or(pct, lo, hi, def int) int {
	if v, ok := r.hint(pct, lo, hi); ok {
		return v
	}
	return def
}

// word is, with pct percent, a text or character of the dictionary.
func (r *Rand) word(pct int) (B, bool) {
	ns := len(Dict.Strs)
	if ns+len(Dict.Ints) == 0 || !r.P(pct) {
		return nil, false
	}
	if ns > 0 && (len(Dict.Ints) == 0 || r.P(60)) {
		return cloneB(Dict.Strs[r.N(ns)]), true
	}
	v := Dict.Ints[r.N(len(Dict.Ints))]
	if v < 0 || v > 255 {
		return nil, false
	}
	return B{byte(v)}, true
}

// splice puts a word of the dictionary into b now and then: in front, at the
// end, inside or alone. ok restricts what may result.
func (r *Rand) splice(pct int, b B, ok func(B) bool) B {
	w, have := r.word(pct)
	if !have {
		return b
	}
	var c B
	switch r.N(5) {
	case 0:
		c = w
	case 1:
		c = append(w, b...)
	case 2:
		c = append(cloneB(b), w...)
	case 3:
		c = append(append(cloneB(w), b...), w...)
	default:
		i := r.N(len(b) + 1)
		c = append(cloneB(b[:i]), append(w, b[i:]...)...)
	}
	if ok != nil && !ok(c) {
		return b
	}
	return c
}
