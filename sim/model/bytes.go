// Package model holds the executable reference models and the neutral data
// types of the simulation. Nothing here calls the code under test, except
// Snap, which only reads message structs.
package model

import (
	"encoding/json"
	"fmt"
)

// B is a byte string that is written to JSON with one character per byte
// (U+0000..U+00FF), so that replay files stay readable and exact.
type B []byte

func (b B) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return json.Marshal(string(r))
}

func (b *B) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			return fmt.Errorf("byte string holds rune %U", r)
		}
		out = append(out, byte(r))
	}
	*b = out
	return nil
}

// Short renders bytes for a report.
func Short(b []byte, n int) string {
	if len(b) <= n {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes)", b[:n], len(b))
}
