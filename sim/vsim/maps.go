package vsim

import (
	"fmt"
	"sort"
)

// Entry is one key of a map being ranged over in simulator order.
type Entry[K comparable, V any] struct {
	K K
	m map[K]V
}

// Live tells whether the key is still in the map.
func (e Entry[K, V]) Live() bool { _, ok := e.m[e.K]; return ok }

// Get returns the current value of the key.
func (e Entry[K, V]) Get() V { return e.m[e.K] }

// MapEntries lists the keys of m in an order the simulator chooses.
func MapEntries[M ~map[K]V, K comparable, V any](m M) []Entry[K, V] {
	r := make([]Entry[K, V], 0, len(m))
	for k := range m {
		r = append(r, Entry[K, V]{K: k, m: m})
	}
	sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i].K) < fmt.Sprint(r[j].K) })
	for i := len(r) - 1; i > 0; i-- {
		j := int(MapRand() % uint64(i+1))
		r[i], r[j] = r[j], r[i]
	}
	return r
}
