package rt

import (
	"fmt"
	"sort"
)

// Orders of map iteration. All of them depend on the keys only, not on
// the insertion history or the hash seed of the process.
const (
	MapSorted  = 0
	MapReverse = 1
	MapHashed  = 2 // order of the hash of key and seed
	MapVarying = 3 // like hashed, with another seed for every iteration
)

var (
	mapPolicy int
	mapSeed   uint64
	mapCount  uint64
	mapIters  uint64
)

// SetMapOrder selects the iteration order of maps
//
//go:norace
func SetMapOrder(policy int, seed uint64) {
	mapPolicy, mapSeed, mapCount = policy, seed, 0
}

// MapIters returns the number of iterations over maps with at least two
// elements since the last call
//
//go:norace
func MapIters() uint64 {
	n := mapIters
	mapIters = 0
	return n
}

//go:norace
func iterSeed() (policy int, seed uint64) {
	mapIters++
	policy, seed = mapPolicy, mapSeed
	if policy == MapVarying {
		mapCount++
		seed = hash64(seed, mapCount)
	}
	return
}

// Iter iterates over a map in the order chosen by the simulator
type Iter[M ~map[K]V, K comparable, V any] struct {
	m    M
	keys []K
	pos  int
	k    K
	v    V
}

// It starts an iteration
func It[M ~map[K]V, K comparable, V any](m M) *Iter[M, K, V] {
	it := &Iter[M, K, V]{m: m}
	if len(m) > 0 {
		it.keys = make([]K, 0, len(m))
		for k := range m {
			it.keys = append(it.keys, k)
		}
		if len(it.keys) > 1 {
			order(it.keys)
		}
	}
	it.pos = -1
	it.Adv()
	return it
}

// MapStart starts an iteration and returns the first element
func MapStart[M ~map[K]V, K comparable, V any](m M) (K, V, *Iter[M, K, V]) {
	it := It[M, K, V](m)
	return it.k, it.v, it
}

// Ok returns false at the end
func (it *Iter[M, K, V]) Ok() bool { return it.pos < len(it.keys) }

// Key returns the current key
func (it *Iter[M, K, V]) Key() K { return it.k }

// Val returns the current value
func (it *Iter[M, K, V]) Val() V { return it.v }

// Adv moves to the next element that is still in the map
func (it *Iter[M, K, V]) Adv() {
	for it.pos++; it.pos < len(it.keys); it.pos++ {
		k := it.keys[it.pos]
		v, ok := it.m[k]
		if ok || k != k {
			it.k, it.v = k, v
			return
		}
	}
}

// Next moves to the next element and returns it
func (it *Iter[M, K, V]) Next() (K, V) {
	it.Adv()
	if it.Ok() {
		return it.k, it.v
	}
	var k K
	var v V
	return k, v
}

// KeyIter is for loops that use the key only
type keyOrder[K comparable] struct {
	keys []K
	h    []uint64
	s    []string
	mode int
}

func (o keyOrder[K]) Len() int { return len(o.keys) }
func (o keyOrder[K]) Swap(i, j int) {
	o.keys[i], o.keys[j] = o.keys[j], o.keys[i]
	if o.h != nil {
		o.h[i], o.h[j] = o.h[j], o.h[i]
	}
	if o.s != nil {
		o.s[i], o.s[j] = o.s[j], o.s[i]
	}
}
func (o keyOrder[K]) Less(i, j int) bool {
	if o.h != nil && o.h[i] != o.h[j] {
		return o.h[i] < o.h[j]
	}
	if o.s == nil {
		return false
	}
	return o.s[i] < o.s[j]
}

func order[K comparable](keys []K) {
	policy, seed := iterSeed()
	o := keyOrder[K]{keys: keys}
	ints := make([]uint64, len(keys))
	strs := make([]string, len(keys))
	isInt := true
	for i, k := range keys {
		switch v := any(k).(type) {
		case string:
			isInt = false
			strs[i] = v
		case int:
			ints[i] = uint64(v) ^ 1<<63
		case rune:
			ints[i] = uint64(v) ^ 1<<63
		case interface{ GetID() int }:
			ints[i] = uint64(v.GetID()) ^ 1<<63
		default:
			isInt = false
			strs[i] = keyText(v)
		}
	}
	switch policy {
	case MapHashed, MapVarying:
		o.h = make([]uint64, len(keys))
		for i := range keys {
			if isInt {
				o.h[i] = hash64(seed, ints[i])
			} else {
				o.h[i] = hash64(seed, hashString(strs[i]))
			}
		}
		o.s = strs
	case MapReverse, MapSorted:
		if isInt {
			o.h = ints
		} else {
			o.s = strs
		}
	}
	sort.Stable(o)
	if policy == MapReverse {
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
}

func keyText(v interface{}) string {
	switch k := v.(type) {
	case interface{ Hash() int }:
		// antlr collections
		return fmt.Sprint(k.Hash())
	}
	defer func() { recover() }()
	return fmt.Sprintf("%T %v", v, v)
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// FixTail selects whether the simulated lpg removes the last node of a
// list correctly (see DESIGN.md, known finding KF1)
var FixTail = true
