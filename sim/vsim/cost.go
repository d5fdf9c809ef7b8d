package vsim

// Bytes copied inside one statement (append, copy, conversions, concatenation,
// calls into the standard library) count as work too: one step for eight.
// They do not move the points at which the scheduler may switch.
const bytesPerStep = 8

//go:norace
func charge(n int) {
	if n < 16 || !active {
		return
	}
	t := &tasks[cur]
	if t.aborted || aborting {
		return
	}
	t.extra += int64(n)
	if t.extra/bytesPerStep > t.opLimit {
		k := t.extra / bytesPerStep
		t.extra = 0
		panic(HangError{k})
	}
}

// CostT charges the length of a string.
func CostT[S ~string](s S) S {
	charge(len(s))
	return s
}

// CostS charges the length of a slice.
func CostS[S ~[]E, E any](s S) S {
	charge(len(s))
	return s
}

// CostA charges x += y and returns y.
func CostA[S ~string](x, y S) S {
	charge(len(x) + len(y))
	return y
}
