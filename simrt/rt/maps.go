package rt

import "sort"

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

// KV is one entry of an iterated map.
type KV[K ordered, V any, M ~map[K]V] struct {
	K K
	m M
}

func (e KV[K, V, M]) Live() bool { _, ok := e.m[e.K]; return ok }
func (e KV[K, V, M]) Val() V     { return e.m[e.K] }

// Entries lists a map's entries in an order the simulator decides.
func Entries[M ~map[K]V, K ordered, V any](m M) []KV[K, V, M] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	if n := len(keys); n > 1 && InTask() {
		switch Weighted(2, 1, 1, 2) {
		case 1: // reversed
			for i := 0; i < n/2; i++ {
				keys[i], keys[n-1-i] = keys[n-1-i], keys[i]
			}
		case 2: // rotated
			r := Choose(n)
			keys = append(append([]K(nil), keys[r:]...), keys[:r]...)
		case 3: // shuffled
			for i := 0; i < n-1; i++ {
				j := i + Choose(n-i)
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	res := make([]KV[K, V, M], len(keys))
	for i, k := range keys {
		res[i] = KV[K, V, M]{K: k, m: m}
	}
	return res
}
