package main

// Stats counts what the simulated runs covered
type Stats struct {
	C map[string]int
	S *sketch
	// D: distinct values by what they are
	D map[string]map[uint64]bool
	// evaluations, and the distinct ones that are not trivial
	Eval    int
	NonTriv map[uint64]bool
	Samples []string
	// Trace is a hash of everything observed by the current run
	Trace uint64
}

func (s *Stats) trace(h uint64) { s.Trace = mix(s.Trace, h) }

func newStats() *Stats {
	return &Stats{C: map[string]int{}, S: &sketch{}, D: map[string]map[uint64]bool{}, NonTriv: map[uint64]bool{}}
}

func (s *Stats) inc(k string, n int) {
	if n != 0 {
		s.C[k] += n
	}
}

const maxDistinct = 400000

func (s *Stats) distinct(k string, h uint64) {
	m := s.D[k]
	if m == nil {
		m = map[uint64]bool{}
		s.D[k] = m
	}
	if len(m) < maxDistinct {
		m[h] = true
	}
}

// evaluation counts one evaluation
func (s *Stats) evaluation(h uint64, nontrivial bool) {
	s.Eval++
	if nontrivial && len(s.NonTriv) < maxDistinct {
		s.NonTriv[h] = true
	}
}

func (s *Stats) sample(t string) {
	if len(s.Samples) < 3 {
		s.Samples = append(s.Samples, t)
	}
}

// wire is the form in which batches report their statistics
type wire struct {
	C       map[string]int      `json:"c"`
	S       []uint64            `json:"s"`
	D       map[string][]uint64 `json:"d"`
	Eval    int                 `json:"eval"`
	NonTriv []uint64            `json:"nontriv"`
	Samples []string            `json:"samples"`
}

func keysOf(m map[uint64]bool) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

func (s *Stats) wire() wire {
	w := wire{C: s.C, S: s.S.H, Eval: s.Eval, NonTriv: keysOf(s.NonTriv), Samples: s.Samples, D: map[string][]uint64{}}
	for k, m := range s.D {
		w.D[k] = keysOf(m)
	}
	return w
}

func (s *Stats) merge(w wire) {
	for k, n := range w.C {
		if len(k) > 4 && k[:4] == "max " {
			if n > s.C[k] {
				s.C[k] = n
			}
		} else {
			s.C[k] += n
		}
	}
	s.S.merge(&sketch{w.S})
	for k, l := range w.D {
		for _, h := range l {
			s.distinct(k, h)
		}
	}
	s.Eval += w.Eval
	for _, h := range w.NonTriv {
		if len(s.NonTriv) < maxDistinct {
			s.NonTriv[h] = true
		}
	}
	for _, t := range w.Samples {
		s.sample(t)
	}
}
