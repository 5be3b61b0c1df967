package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"time"

	"verif.sim/rt"
)

// A batch runs consecutive cases of a search in one process. Everything
// it does is determined by its arguments.

type batchMsg struct {
	At    *int       `json:"at,omitempty"`
	Hash  uint64     `json:"hash,omitempty"`
	Viol  *Violation `json:"viol,omitempty"`
	Case  *Case      `json:"case,omitempty"`
	Stats *wire      `json:"stats,omitempty"`
}

func limits() {
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(1500 << 20) // what is measured below is not garbage
	debug.SetMaxStack(256 << 20)
	go func() {
		s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(150 * time.Millisecond)
			metrics.Read(s)
			if s[0].Value.Uint64() > 2500<<20 {
				fmt.Fprintln(os.Stderr, "fatal error: the code under test uses more than 2.5 GB of memory")
				os.Exit(4)
			}
		}
	}()
}

// protectedRun runs a case; a panic outside of an operation is a
// violation, too
func protectedRun(c *Case, st *Stats) (v *Violation) {
	return runCase(c, st)
}

func batch(prop, variant string, seed uint64, from, to int) {
	limits()
	out := bufio.NewWriter(os.Stdout)
	say := func(m batchMsg) {
		out.Write(mustJSON(m))
		out.WriteByte('\n')
		out.Flush()
	}
	st := newStats()
	for i := from; i < to; i++ {
		i := i
		say(batchMsg{At: &i})
		c := genCase(prop, variant, seed, i, rt.RaceEnabled)
		st.Trace = 0
		t0 := time.Now()
		v := protectedRun(c, st)
		st.inc("runs "+variant, 1)
		st.inc("milliseconds "+variant, int(time.Since(t0).Milliseconds()))
		if i == from {
			if b := c.json(); len(b) < 6000 {
				st.sample(string(b))
			} else {
				st.sample(string(b[:6000]) + "...")
			}
		}
		if v != nil {
			say(batchMsg{At: &i, Viol: v, Case: c})
			break
		}
		say(batchMsg{At: &i, Hash: st.Trace | 1})
	}
	w := st.wire()
	say(batchMsg{Stats: &w})
}

// Replay is what a replay file holds
type Replay struct {
	Property string `json:"property"`
	What     string `json:"what"`
	Detail   string `json:"detail"`
	Race     bool   `json:"race,omitempty"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Variant  string `json:"variant"`
	Note     string `json:"note,omitempty"`
	// cases that ran before in the same process
	Prelude []*Case `json:"prelude,omitempty"`
	Case    *Case   `json:"case"`
}

// replayResult is the outcome of a replay
type replayResult struct {
	Viol     *Violation  `json:"viol,omitempty"`
	Switches [][2]uint64 `json:"switches,omitempty"`
	Policy   string      `json:"policy,omitempty"`
}

func replay(file string, asJSON bool) {
	limits()
	var b []byte
	var err error
	if file == "-" {
		b, err = io.ReadAll(os.Stdin)
	} else {
		b, err = os.ReadFile(file)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	st := newStats()
	for _, c := range r.Prelude {
		runCase(c, st)
	}
	v := runCase(r.Case, st)
	if asJSON {
		res := replayResult{Viol: v}
		if v != nil && v.Sched < len(r.Case.Scheds) {
			res.Switches = r.Case.Scheds[v.Sched].recorded
			res.Policy = r.Case.Scheds[v.Sched].Policy
		}
		os.Stdout.Write(mustJSON(res))
		if v != nil {
			os.Exit(1)
		}
		return
	}
	if v != nil {
		fmt.Printf("operation %d: %s: %s\n", v.Op, v.What, v.Detail)
		os.Exit(1)
	}
	fmt.Println("no violation")
}
