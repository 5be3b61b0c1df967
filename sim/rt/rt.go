// Package rt is the simulator runtime. The instrumented copies of the
// code under test call it instead of the Go runtime and the standard
// library wherever something is not determined by their input: who runs
// next, the iteration order of maps, the clock, zone lookups, standard
// output. Everything it decides is a function of the settings of the run
// (Config), so a run can be repeated exactly.
//
// Only one simulated thread runs at any time. Threads are goroutines that
// hand a baton to each other at the points where the instrumented code
// calls Y. The hand-over is hidden from the race detector: in a race
// enabled build it sees only the synchronisation done by the code under
// test, so an unsynchronised access is reported in every schedule in
// which both accesses happen, no matter how far apart.
package rt

import (
	"fmt"
)

// Modes of the simulator
const (
	ModeOff   = 0
	ModeCount = 1 // a single thread; count steps and enforce the limit
	ModeSched = 2 // several threads under the scheduler
)

// StepLimit is the panic value if a run exceeds its step limit
type StepLimit struct{ Steps uint64 }

func (s StepLimit) Error() string { return fmt.Sprintf("step limit exceeded after %d steps", s.Steps) }

// Deadlock is the panic value in threads that can never continue
type Deadlock struct{ Msg string }

func (d Deadlock) Error() string { return "deadlock: " + d.Msg }

// Aborted is the panic value in the remaining threads of an aborted run
type Aborted struct{}

func (Aborted) Error() string { return "run aborted" }

// Policies of the scheduler
const (
	PolicySequential = 0 // run every thread to its end, in order
	PolicyRandom     = 1 // switch with probability 1/Gap at every step
	PolicyPCT        = 2 // random priorities with Depth change points
	PolicySites      = 3 // switch with probability 1/2 at selected sites
	PolicyReplay     = 4 // switch as given in Switches
)

// Switch is one decision of the scheduler: at the given step, continue
// with thread To
type Switch struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
	// Forced: the previous thread ended or had to wait
	Forced bool `json:"f,omitempty"`
}

// Config configures the scheduler for one run
type Config struct {
	Policy   int      `json:"policy"`
	Seed     uint64   `json:"seed"`
	Gap      int      `json:"gap,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	EstSteps uint64   `json:"est,omitempty"`
	SiteMod  int      `json:"siteMod,omitempty"`
	Switches []Switch `json:"switches,omitempty"`
	Limit    uint64   `json:"limit,omitempty"`
}

type thread struct {
	id      int
	wake    chan struct{}
	started bool
	done    bool
	stalled bool
	// blocked in a lock: not runnable until epoch changes
	blocked      bool
	blockedEpoch uint64
	prio         uint64
	steps        uint64
	// started by a go statement, on behalf of thread owner
	daemon bool
	owner  int
}

// The state of the simulator. All accesses are in functions the race
// detector does not look at; only the thread with the baton accesses it.
var (
	mode      int
	steps     uint64
	limit     uint64
	threads   []*thread
	cur       int
	epoch     uint64
	cfg       Config
	rng       uint64
	countdown uint64
	changeAt  []uint64
	nextSw    int
	// the step of the last switch
	lastSwitch uint64
	abort      bool
	deadlock   bool
	overLimit  bool
	trace      []Switch
	traceHash  uint64
	siteHash   []uint32 // per site hit counter
	allDone    chan struct{}
	// single: a counting run that has become a scheduled one, because the
	// code started goroutines; thread 0 is the caller
	single bool
	// survivors are goroutines of earlier runs that have not ended
	survivors []*thread
	grace     int
)

// SetSites sizes the table of site counters
//
//go:norace
func SetSites(n int) { siteHash = make([]uint32, n+1) }

//go:norace
func nextRand() uint64 {
	rng += 0x9e3779b97f4a7c15
	z := rng
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func hash64(a, b uint64) uint64 {
	z := a*0x9e3779b97f4a7c15 ^ (b + 0x7f4a7c159e3779b9)
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is called by the instrumented code before every statement
//
//go:norace
func Y(site int) {
	if mode == ModeOff {
		return
	}
	steps++
	if site < len(siteHash) {
		siteHash[site]++
	}
	if mode == ModeCount {
		if steps > limit {
			n := steps
			limit = ^uint64(0)
			panic(StepLimit{n})
		}
		return
	}
	yield(site)
}

//go:norace
func yield(site int) {
	me := threads[cur]
	me.steps++
	if abort {
		panicAborted()
	}
	if me.daemon && mainsDone() {
		// nobody waits for it any more
		if grace--; grace < 0 {
			park()
			return
		}
	}
	if steps > limit {
		exceeded()
	}
	to := cur
	switch cfg.Policy {
	case PolicySequential:
		return
	case PolicyRandom:
		if countdown > 0 {
			countdown--
			return
		}
		countdown = nextRand() % uint64(2*cfg.Gap)
		to = pickOther()
	case PolicyPCT:
		if len(changeAt) > 0 && steps >= changeAt[0] {
			changeAt = changeAt[1:]
			me.prio = uint64(len(changeAt)) // lower than all initial ones
			to = pickPrio()
		} else if steps-lastSwitch > 1000000 {
			// it may spin until another one goes on
			lastSwitch = steps
			low := me.prio
			for _, t := range threads {
				if t.prio < low {
					low = t.prio
				}
			}
			if low > 0 {
				me.prio = low - 1
			} else {
				me.prio = 0
				for _, t := range threads {
					if t != me {
						t.prio++
					}
				}
			}
			to = pickPrio()
		}
	case PolicySites:
		if hash64(cfg.Seed, uint64(site))%uint64(cfg.SiteMod) != 0 {
			return
		}
		if nextRand()&1 == 0 {
			return
		}
		to = pickOther()
	case PolicyReplay:
		to = replayNext(false)
		if to == -1 {
			return
		}
	}
	if to != cur {
		switchTo(to, site)
	}
}

// exceeded ends a thread that takes too many steps
//
//go:norace
func exceeded() {
	if single && !threads[cur].daemon {
		n := steps
		limit = ^uint64(0)
		panic(StepLimit{n})
	}
	abort = true
	overLimit = true
	panic(StepLimit{steps})
}

// replayNext returns the thread the recorded schedule continues with at
// this step, or -1
//
//go:norace
func replayNext(forced bool) int {
	for nextSw < len(cfg.Switches) && cfg.Switches[nextSw].Step < steps {
		nextSw++
	}
	if nextSw >= len(cfg.Switches) || cfg.Switches[nextSw].Step != steps || cfg.Switches[nextSw].Forced != forced {
		return -1
	}
	to := cfg.Switches[nextSw].To
	nextSw++
	if to >= len(threads) || to == cur || !runnable(threads[to]) {
		return -1
	}
	return to
}

//go:norace
func runnable(t *thread) bool {
	if t.done || t.stalled {
		return false
	}
	return !t.blocked || t.blockedEpoch != epoch
}

//go:norace
func pickOther() int {
	n := 0
	for _, t := range threads {
		if t.id != cur && runnable(t) {
			n++
		}
	}
	if n == 0 {
		return cur
	}
	k := int(nextRand() % uint64(n))
	for _, t := range threads {
		if t.id != cur && runnable(t) {
			if k == 0 {
				return t.id
			}
			k--
		}
	}
	return cur
}

//go:norace
func pickPrio() int {
	best := -1
	for _, t := range threads {
		if runnable(t) && (best == -1 || t.prio > threads[best].prio) {
			best = t.id
		}
	}
	if best == -1 {
		return cur
	}
	return best
}

// choose the thread to continue with when the current one cannot
//
//go:norace
func pickNext() int {
	switch cfg.Policy {
	case PolicyPCT:
		best := -1
		for _, t := range threads {
			if t.id != cur && runnable(t) && (best == -1 || t.prio > threads[best].prio) {
				best = t.id
			}
		}
		return best
	case PolicyReplay:
		if to := replayNext(true); to != -1 {
			return to
		}
		fallthrough
	case PolicySequential:
		for _, t := range threads {
			if t.id != cur && runnable(t) {
				return t.id
			}
		}
		return -1
	}
	to := pickOther()
	if to == cur {
		return -1
	}
	return to
}

//go:norace
func record(to, site int) {
	lastSwitch = steps
	if len(trace) < 200000 {
		trace = append(trace, Switch{Step: steps, To: to, Forced: site < 0})
	}
	traceHash = hash64(traceHash, uint64(to)<<32|uint64(uint32(site)))
}

//go:norace
func switchTo(to, site int) {
	record(to, site)
	me := threads[cur]
	raceDisable()
	cur = to
	threads[to].wake <- struct{}{}
	<-me.wake
	raceEnable()
	if abort {
		panicAborted()
	}
}

// panicAborted ends a thread of an aborted run
//
//go:norace
func panicAborted() {
	if single && !threads[cur].daemon {
		if overLimit {
			panic(StepLimit{steps})
		}
		panic(Deadlock{"goroutines"})
	}
	panic(Aborted{})
}

//go:norace
func mainsDone() bool {
	for _, t := range threads {
		if !t.daemon && !t.done {
			return false
		}
	}
	return true
}

// park ends a run in which only goroutines are left that wait. They go on
// in the next run.
//
//go:norace
func park() {
	me := threads[cur]
	me.blocked = false
	raceDisable()
	allDone <- struct{}{}
	<-me.wake
	raceEnable()
	if abort {
		panicAborted()
	}
}

// block gives up the baton because the current thread waits for a lock
//
//go:norace
func block(what string) {
	if mode != ModeSched {
		if mode == ModeCount {
			panic(Deadlock{what})
		}
		return
	}
	steps++
	if steps > limit && !abort {
		exceeded()
	}
	me := threads[cur]
	me.blocked = true
	me.blockedEpoch = epoch
	to := pickNext()
	if to == -1 {
		// A stalled thread may hold what this one waits for
		for _, t := range threads {
			if t.stalled && !t.done {
				to = t.id
				break
			}
		}
	}
	if to == -1 && me.daemon && mainsDone() {
		park()
		return
	}
	if to == -1 {
		// Nobody can run: the threads blocked here can never continue
		me.blocked = false
		abort = true
		deadlock = true
		panic(Deadlock{what})
	}
	switchTo(to, -1)
	me.blocked = false
}

// released notes that a lock has been released
//
//go:norace
func released() { epoch++ }

// Block, Released and Active are for package simsync
//
//go:norace
func Block(what string) bool {
	if mode == ModeOff {
		return false
	}
	block(what)
	return true
}

//go:norace
func Released() { released() }

// Stall suspends the current thread until all other threads ended or
// cannot continue without it (the session it runs for waits for it, of
// course). It returns false if other threads were
// still unfinished then, that is, they wait for this thread.
//
//go:norace
func Stall() bool {
	if mode != ModeSched {
		return true
	}
	me := threads[cur]
	me.stalled = true
	if to := pickNext(); to != -1 {
		switchTo(to, -2)
	}
	me.stalled = false
	waiting := map[int]bool{me.owner: true}
	for _, t := range threads {
		if t.stalled && !t.done {
			waiting[t.owner] = true
		}
	}
	for _, t := range threads {
		if t != me && !t.done && !t.daemon && !waiting[t.owner] {
			return false
		}
	}
	return true
}

// Current returns the id of the running thread
//
//go:norace
func Current() int {
	if mode != ModeSched || single {
		return 0
	}
	return threads[cur].owner
}

// Scheduled tells if sessions run concurrently
//
//go:norace
func Scheduled() bool { return mode == ModeSched && !single }

// Steps returns the number of steps so far
//
//go:norace
func Steps() uint64 { return steps }

//go:norace
func ThreadSteps(i int) uint64 {
	if i < len(threads) {
		return threads[i].steps
	}
	return 0
}

// StartCount switches to counting mode
//
//go:norace
func StartCount(stepLimit uint64) {
	mode = ModeCount
	steps = 0
	limit = stepLimit
	if len(survivors) > 0 {
		becomeSingle()
	}
}

// becomeSingle turns a counting run into a scheduled one. The caller goes
// on until it has to wait.
//
//go:norace
func becomeSingle() {
	n, l := steps, limit
	setup(Config{Policy: PolicySequential, Limit: l}, 1)
	steps, limit = n, l
	single = true
}

// Stop switches the simulator off, and returns the number of steps
//
//go:norace
func Stop() uint64 {
	if single && mode == ModeSched {
		n := steps
		me := threads[0]
		if !abort {
			// let the goroutines it started go on until they have to wait
			limit = ^uint64(0)
			grace = 100000
			me.done = true
			if to := pickNext(); to != -1 {
				cur = to
				raceDisable()
				threads[to].wake <- struct{}{}
				<-allDone
				raceEnable()
			}
		} else {
			for _, t := range threads[1:] {
				if !t.done {
					// they end with a panic, and the last one gives the baton back
					switchTo0(t.id)
				}
			}
		}
		keep()
		single = false
		mode = ModeOff
		return n
	}
	mode = ModeOff
	return steps
}

// switchTo0 is switchTo in an aborted run
//
//go:norace
func switchTo0(to int) {
	me := threads[cur]
	raceDisable()
	cur = to
	threads[to].wake <- struct{}{}
	<-me.wake
	raceEnable()
}

// keep notes the goroutines that have not ended
//
//go:norace
func keep() {
	survivors = nil
	for _, t := range threads {
		if t.daemon && !t.done {
			survivors = append(survivors, t)
		}
	}
}

// ExtendLimit sets the limit relative to the current step
//
//go:norace
func ExtendLimit(n uint64) { limit = steps + n }

// Outcome describes a finished scheduled run
type Outcome struct {
	Steps     uint64
	Switches  []Switch
	Hash      uint64
	Races     int
	Deadlock  bool
	StepLimit bool
	Panics    []interface{}
}

// Run runs the functions as simulated threads
func Run(c Config, fs ...func()) Outcome {
	panics := make([]interface{}, len(fs))
	races0 := raceErrors()
	setup(c, len(fs))
	fin := make(chan struct{}, len(fs))
	for i := range fs {
		i := i
		f := fs[i]
		go func() {
			defer func() { fin <- struct{}{} }()
			defer exitMain(i)
			defer func() {
				if e := recover(); e != nil {
					panics[i] = e
				}
			}()
			startMain(i)
			f()
		}()
	}
	kick()
	for range fs {
		<-fin
	}
	<-allDone
	return finish(panics, races0)
}

//go:norace
func setup(c Config, n int) {
	cfg = c
	if cfg.Gap <= 0 {
		cfg.Gap = 50
	}
	if cfg.SiteMod <= 0 {
		cfg.SiteMod = 17
	}
	rng = hash64(c.Seed, 77)
	threads = make([]*thread, 0, n)
	for i := 0; i < n; i++ {
		threads = append(threads, &thread{id: i, owner: i, wake: make(chan struct{}, 1), prio: 1<<32 + nextRand()%(1<<30)})
	}
	for _, t := range survivors {
		t.id = len(threads)
		t.blocked = false
		if t.owner >= n {
			t.owner = 0
		}
		threads = append(threads, t)
	}
	survivors = nil
	single = false
	grace = 100000
	steps = 0
	epoch = 0
	limit = c.Limit
	if limit == 0 {
		limit = 50000000
	}
	abort = false
	deadlock = false
	overLimit = false
	allDone = make(chan struct{}, 1)
	trace = nil
	traceHash = 0
	lastSwitch = 0
	nextSw = 0
	countdown = 0
	changeAt = nil
	cur = 0
	switch c.Policy {
	case PolicyRandom:
		countdown = nextRand() % uint64(2*cfg.Gap)
		cur = int(nextRand() % uint64(n))
	case PolicySites:
		cur = int(nextRand() % uint64(n))
	case PolicyPCT:
		est := c.EstSteps
		if est == 0 {
			est = 10000
		}
		for i := 0; i < c.Depth; i++ {
			changeAt = append(changeAt, 1+nextRand()%est)
		}
		for i := range changeAt {
			for j := i + 1; j < len(changeAt); j++ {
				if changeAt[j] < changeAt[i] {
					changeAt[i], changeAt[j] = changeAt[j], changeAt[i]
				}
			}
		}
		cur = pickPrio()
	case PolicyReplay:
		if len(c.Switches) > 0 && c.Switches[0].Step == 0 {
			cur = c.Switches[0].To
			nextSw = 1
			if cur >= n {
				cur = 0
			}
		}
	}
	trace = append(trace, Switch{Step: 0, To: cur})
	mode = ModeSched
}

//go:norace
func finish(panics []interface{}, races0 int) Outcome {
	mode = ModeOff
	keep()
	out := Outcome{Steps: steps, Switches: trace, Hash: traceHash, Deadlock: deadlock, StepLimit: overLimit, Panics: panics}
	out.Races = raceErrors() - races0
	return out
}

//go:norace
func startMain(i int) { start(threads[i]) }

//go:norace
func start(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
	if abort {
		panicAborted()
	}
}

//go:norace
func kick() {
	raceDisable()
	threads[cur].wake <- struct{}{}
	raceEnable()
}

//go:norace
func exitMain(i int) { exit(threads[i]) }

//go:norace
func exit(t *thread) {
	t.done = true
	t.blocked = false
	epoch++
	to := -1
	if abort {
		for k := range threads {
			// thread 0 of a single run last
			x := threads[(k+1)%len(threads)]
			if !x.done {
				to = x.id
				break
			}
		}
	} else {
		to = pickNext()
		if to == -1 {
			// Only stalled or blocked threads left
			for _, x := range threads {
				if !x.done && x.stalled {
					to = x.id
					break
				}
			}
			if to == -1 && !mainsDone() {
				for _, x := range threads {
					if !x.done {
						to = x.id
						abort = true
						deadlock = true
						break
					}
				}
			}
		}
	}
	if to == -1 {
		raceDisable()
		allDone <- struct{}{}
		raceEnable()
		return
	}
	record(to, -3)
	raceDisable()
	cur = to
	threads[to].wake <- struct{}{}
	raceEnable()
}

// SiteCounts returns the hit counters of the sites
//
//go:norace
func SiteCounts() []uint32 { return siteHash }

// Go starts a thread for a go statement of the code under test
//
//go:norace
func Go(f func()) {
	if mode == ModeCount {
		becomeSingle()
	}
	t := &thread{wake: make(chan struct{}, 1), daemon: true}
	if mode == ModeSched {
		t.id = len(threads)
		t.owner = threads[cur].owner
		t.prio = 1<<32 + nextRand()%(1<<30)
		threads = append(threads, t)
		epoch++
	} else {
		// started by the initialisation of a package
		t.prio = 1 << 32
		survivors = append(survivors, t)
	}
	go func() {
		defer exit(t)
		defer func() {
			switch e := recover().(type) {
			case nil, Aborted, Deadlock, StepLimit:
			default:
				panic(e)
			}
		}()
		start(t)
		f()
	}()
}

// Gosched lets others go on
//
//go:norace
func Gosched() {
	if mode != ModeSched {
		return
	}
	steps++
	if to := pickNext(); to != -1 {
		switchTo(to, -4)
	}
}
