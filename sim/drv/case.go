package main

import "encoding/json"

// Case is everything a simulated run is determined by
type Case struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"` // hist conc clock rset text maps
	Seed uint64 `json:"seed"`

	// Worlds: one for a history, one or more for concurrent sessions
	Graphs  []GSpec     `json:"graphs,omitempty"`
	Ctxs    []CtxSpec   `json:"ctxs,omitempty"`
	Fns     []FnDef     `json:"fns,omitempty"`
	Nested  []*Stmt     `json:"nested,omitempty"`
	Stmts   []*Stmt     `json:"stmts,omitempty"`
	Parts   []Part      `json:"parts,omitempty"`
	Ops     []Op        `json:"ops,omitempty"`
	Session []SessionOp `json:"session,omitempty"`

	// Schedules of a concurrent case, run one after the other
	Scheds []SchedSpec `json:"scheds,omitempty"`
	// Share: 1 the sessions share the graph, 2 they share the statements,
	// parsed before they start, 4 every session has its own statements,
	// parsed before
	Share int `json:"share,omitempty"`
	// NoRef: do not compare with the sessions run alone (race detection
	// only)
	NoRef bool `json:"noRef,omitempty"`
	// Wrap: property values are objects having a native value, 1 in the
	// graphs at the start, 2 those returned by the filter; 4 parameters,
	// variables and function values are marked constant
	Wrap int `json:"wrap,omitempty"`
	// Map iteration order
	Map     int    `json:"map,omitempty"`
	MapSeed uint64 `json:"mapSeed,omitempty"`

	Clock *ClockCase `json:"clock,omitempty"`
	Rset  *RsetCase  `json:"rset,omitempty"`
	Texts []string   `json:"texts,omitempty"`
}

// GSpec is an initial graph
type GSpec struct {
	Nodes []GNode `json:"nodes"`
	Edges []GEdge `json:"edges,omitempty"`
}

type GNode struct {
	Labels []string       `json:"labels,omitempty"`
	Props  map[string]Val `json:"props,omitempty"`
}

type GEdge struct {
	From  int            `json:"from"`
	To    int            `json:"to"`
	Label string         `json:"label"`
	Props map[string]Val `json:"props,omitempty"`
}

// CtxSpec is a context: with a graph, or derived from another one
type CtxSpec struct {
	Parent int            `json:"parent"` // -1: none
	Graph  int            `json:"graph"`
	Filter bool           `json:"filter,omitempty"`
	Params map[string]Val `json:"params,omitempty"`
}

// Op is an operation of a history
type Op struct {
	Kind string `json:"kind"` // stmt setvar rmvar setparam reg rel getvar
	Ctx  int    `json:"ctx"`
	S    int    `json:"s,omitempty"` // statement or pattern
	// Fresh: parse again, even if parsed before
	Fresh bool `json:"fresh,omitempty"`
	// Sub: evaluate in a context derived from Ctx for this operation
	Sub    bool           `json:"sub,omitempty"`
	Params map[string]Val `json:"params,omitempty"`
	Name   string         `json:"name,omitempty"`
	Val    *Val           `json:"val,omitempty"`
	Node   *int           `json:"node,omitempty"`
	Graph  int            `json:"graph,omitempty"`
	Fn     *FnDef         `json:"fn,omitempty"`
	Faults []Fault        `json:"faults,omitempty"`
}

// SessionOp assigns operations to sessions of a concurrent case: the
// n-th session runs the operations of Ops listed
type SessionOp struct {
	Ops []int `json:"ops"`
}

// SchedSpec describes the schedule of a concurrent case
type SchedSpec struct {
	Policy  string `json:"policy"` // sequential random pct sites replay
	Seed    uint64 `json:"seed,omitempty"`
	Gap     int    `json:"gap,omitempty"`
	Depth   int    `json:"depth,omitempty"`
	SiteMod int    `json:"siteMod,omitempty"`
	Est     uint64 `json:"est,omitempty"`
	// Switches of a recorded schedule
	Switches [][2]uint64 `json:"switches,omitempty"`

	recorded [][2]uint64
	steps    uint64
}

func (c *Case) json() []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func caseFromJSON(b []byte) (*Case, error) {
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		return nil, err
	}
	return c, nil
}

// Violation is a broken property
type Violation struct {
	Op     int    `json:"op"`
	Sched  int    `json:"sched,omitempty"`
	What   string `json:"what"`
	Detail string `json:"detail"`
}

// rng is a splitmix64 generator
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}

// p is true with a probability of a in 100
func (r *rng) p(a int) bool { return r.n(100) < a }

func mix(a, b uint64) uint64 {
	r := rng{a ^ b*0xd1342543de82ef95}
	r.next()
	return r.next()
}

func pick[T any](r *rng, l ...T) T { return l[r.n(len(l))] }
