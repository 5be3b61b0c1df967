package main

import (
	"encoding/json"
	"sort"
)

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	r := rng{h}
	return r.next()
}

// sketch estimates the number of distinct values: it keeps the smallest
// hashes
type sketch struct {
	H []uint64
}

const sketchSize = 4096

func (s *sketch) add(h uint64) {
	n := len(s.H)
	if n == sketchSize && h >= s.H[n-1] {
		return
	}
	i := sort.Search(n, func(i int) bool { return s.H[i] >= h })
	if i < n && s.H[i] == h {
		return
	}
	s.H = append(s.H, 0)
	copy(s.H[i+1:], s.H[i:])
	s.H[i] = h
	if len(s.H) > sketchSize {
		s.H = s.H[:sketchSize]
	}
}

func (s *sketch) merge(o *sketch) {
	for _, h := range o.H {
		s.add(h)
	}
}

func (s *sketch) count() int {
	n := len(s.H)
	if n < sketchSize {
		return n
	}
	return int(float64(n-1) / (float64(s.H[n-1]) / (1 << 64)))
}

func mustJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}
