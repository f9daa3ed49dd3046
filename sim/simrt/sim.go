// Package simrt is the simulator's kernel. Goroutines of the system under test are
// real goroutines, of which exactly one is released at any moment; which one, and for
// how long, is decided here and only here.
//
// In race builds this package is compiled without instrumentation, so that hand-over
// between goroutines adds no happens-before edge: only the synchronisation of the
// code under test (announced by the replacement sync package) orders its accesses.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

const never = int64(1) << 62

// Task is one goroutine of the simulated program.
type Task struct {
	ID     int
	Parent int
	resume chan struct{}
	cond   func() bool // non-nil while blocked
	why    string
	done   bool
	daemon bool // does not keep the simulation running
	idle   bool // in WaitIdle
	timer  bool // a timer's task, before the timer fires
	prio   int64
	Label  int // inherited by children; the harness uses it to tell compilations apart
	Tag    interface{}

	ran   int64 // statements and operations it executed
	since int64 // when it was last resumed
	jumps int   // clock jumps before it ended
}

// Preempt is one scheduling decision that differs from the default one (keep running
// the current task; if it cannot run, the runnable task with the lowest id; every
// fairEvery steps, the one that has not run for longest).
type Preempt struct {
	Step int64 `json:"step"`
	To   int   `json:"to"`
}

// Config describes how one run is scheduled.
type Config struct {
	Seed   uint64
	Budget int64 // steps until the run is declared not to terminate

	// Replay, if Replaying is set, is the exact list of non-default decisions.
	Replaying bool
	Replay    []Preempt

	Strategy  Strategy
	OrderSeed uint64 // orders of map iteration and select choices
	Verbose   bool
}

// Strategy is how non-replayed decisions are drawn.
type Strategy struct {
	Kind      string  `json:"kind"`       // walk, pct, seq, starve
	HotMean   int     `json:"hot_mean"`   // mean statements between preemption points in concurrent code
	LightMean int     `json:"light_mean"` // same, in all code (0: never)
	SyncP     float64 `json:"sync_p"`     // probability to switch at a synchronisation or I/O operation
	Changes   int     `json:"changes"`    // pct: number of priority changes
	Horizon   int     `json:"horizon"`    // pct: in how many statements
	Victim    int     `json:"victim"`     // starve: which task
}

// DrawStrategy picks a scheduling strategy for one run.
func DrawStrategy(r *RNG) Strategy {
	st := Strategy{HotMean: []int{2, 4, 10, 30, 100, 1000}[r.N(6)], SyncP: []float64{0.05, 0.3, 0.6, 0.9}[r.N(4)]}
	if r.P(0.3) {
		st.LightMean = []int{40, 200, 2000}[r.N(3)]
	}
	switch k := r.N(10); {
	case k < 5:
		st.Kind = "walk"
	case k < 8:
		st.Kind = "pct"
		st.Changes = 1 + r.N(6)
		st.Horizon = []int{30, 100, 400, 1500}[r.N(4)]
	case k < 9:
		st.Kind = "starve"
		st.Victim = 1 + r.N(12)
	default:
		st.Kind = "seq"
		st.HotMean, st.LightMean, st.SyncP = 0, 0, 0
	}
	return st
}

// Outcome is what happened in one run.
type Outcome struct {
	Kind   string // "", "panic", "deadlock", "budget", "fatal"
	Detail string
	Stack  string

	Steps    int64
	Switches int
	Points   int
	Tasks    int
	Trace    []Preempt
	Hash     uint64 // over every decision and every logged event
	Inter    uint64 // over the order of task switches only
	Log      []string
	Live     int // tasks never finished (only after an abort)
}

// The scheduler's state. One simulation runs at a time in a process; everything is
// touched by one released goroutine at a time.
var (
	active    bool
	aborting  bool
	steps     int64
	nextStep  int64 = never
	hot       int64
	nextHot   int64 = never
	budget    int64
	tasks     []*Task
	cur       *Task
	alive     int
	cfg       Config
	rng       *RNG
	orderRng  *RNG
	trace     []Preempt
	replayPos int
	hash      uint64
	inter     uint64
	switches  int
	points    int
	outKind   string
	outDetail string
	outStack  string
	logLines  []string
	finished  chan struct{}
	reaped    chan struct{}
	changeAt  []int64
	lowPrio   int64
	runSync   byte
	nextFair  int64
)

// Schedules are fair: every so many steps, the task that has not run for longest gets a
// turn, so that one that spins until another makes progress does so in the end.
const fairEvery = 25000

// Active reports whether the caller runs inside a simulation.
func Active() bool { return active }

// Aborting reports whether the simulation is being torn down.
func Aborting() bool { return aborting }

// Steps is the simulated time: the number of statements executed so far.
func Steps() int64 { return steps }

// Cur is the running task.
func Cur() *Task { return cur }

// Y is the yield point before every statement of packages that start goroutines.
func Y() {
	steps++
	hot++
	if hot >= nextHot || steps >= nextStep {
		point(false)
	}
}

// L is the yield point before every statement of the other packages.
func L() {
	steps++
	if steps >= nextStep {
		point(false)
	}
}

func mixHash(x uint64) { hash = (hash ^ x) * 0x100000001b3 }

// Event records something observable that happened, for the log and its hash.
func Event(s string) {
	if !active {
		return
	}
	for i := 0; i < len(s); i++ {
		hash = (hash ^ uint64(s[i])) * 0x100000001b3
	}
	if cfg.Verbose && cur != nil {
		logLines = append(logLines, fmt.Sprintf("[step %d task %d] %s", steps, cur.ID, s))
	}
}

// Op is a scheduling point at a synchronisation, I/O or callback operation.
func Op(what string) {
	if !active || aborting {
		return
	}
	steps++
	if cfg.Verbose {
		logLines = append(logLines, fmt.Sprintf("[step %d task %d] op %s", steps, cur.ID, what))
	}
	point(true)
}

func planNext() {
	if cfg.Replaying {
		nextHot = never
		nextStep = budget
		for replayPos < len(cfg.Replay) && cfg.Replay[replayPos].Step <= steps {
			replayPos++
		}
		if replayPos < len(cfg.Replay) && cfg.Replay[replayPos].Step < nextStep {
			nextStep = cfg.Replay[replayPos].Step
		}
		if nextFair < nextStep {
			nextStep = nextFair
		}
		return
	}
	nextStep = budget
	if nextFair < nextStep {
		nextStep = nextFair
	}
	nextHot = never
	st := &cfg.Strategy
	switch st.Kind {
	case "seq":
	case "pct":
		if len(changeAt) > 0 {
			nextHot = changeAt[0]
			if nextHot <= hot {
				nextHot = hot + 1
			}
		}
	default:
		if st.HotMean > 0 {
			nextHot = hot + rng.Geo(st.HotMean)
		}
		if st.LightMean > 0 {
			if at := steps + rng.Geo(st.LightMean); at < nextStep {
				nextStep = at
			}
		}
	}
}

// point is a possible preemption of a task that could continue.
func point(sync bool) {
	if aborting {
		// Unwinding: a deferred function of the code under test does not end.
		nextStep = steps + 1000000
		nextHot = never
		runtime.Goexit()
	}
	if !active {
		nextStep, nextHot = never, never
		return
	}
	points++
	if steps >= budget {
		fail("budget", fmt.Sprintf("still running after %d steps", steps), stackOf())
	}
	me := cur
	var turn *Task
	if steps >= nextFair {
		nextFair = steps - steps%fairEvery + fairEvery
		turn = neglected(me)
		if turn == nil && steps-me.since >= fairEvery && timersPending() {
			advanceClock() // it may be waiting for time to pass
		}
	}
	next := choose(me, turn, sync)
	planNext()
	if next != me {
		switchTo(me, next)
	}
}

// neglected is the runnable task other than me that has not run for longest.
func neglected(me *Task) *Task {
	var turn *Task
	for _, t := range tasks {
		if t != me && runnable(t) && (turn == nil || t.since < turn.since) {
			turn = t
		}
	}
	return turn
}

func runnable(t *Task) bool {
	if t.done {
		return false
	}
	return t.cond == nil || t.cond()
}

// choose decides who runs next. me may be blocked or done. turn, if set, is whose turn
// it is.
func choose(me, turn *Task, sync bool) *Task {
	var def *Task
	n := 0
	if runnable(me) {
		def = me
	}
	for _, t := range tasks {
		if runnable(t) {
			n++
			if def == nil {
				def = t
			}
		}
	}
	if n == 0 {
		return nil
	}
	if turn != nil {
		def = turn
	}
	pick := def
	if cfg.Replaying {
		if replayPos < len(cfg.Replay) && cfg.Replay[replayPos].Step == steps {
			want := cfg.Replay[replayPos].To
			if want < len(tasks) && runnable(tasks[want]) {
				pick = tasks[want]
			}
		}
	} else if turn != nil {
		lowPrio--
		me.prio = lowPrio
		cfg.Strategy.Victim = -1
	} else {
		pick = draw(me, def, n, sync)
	}
	if pick != def {
		if l := len(trace); l > 0 && trace[l-1].Step == steps {
			trace[l-1].To = pick.ID
		} else {
			trace = append(trace, Preempt{steps, pick.ID})
		}
	}
	return pick
}

func draw(me, def *Task, n int, sync bool) *Task {
	if n == 1 {
		return def
	}
	st := &cfg.Strategy
	blocked := def != me
	switch st.Kind {
	case "seq":
		return def
	case "pct":
		for len(changeAt) > 0 && changeAt[0] <= hot {
			changeAt = changeAt[1:]
			lowPrio--
			me.prio = lowPrio
		}
		best := def
		for _, t := range tasks {
			if runnable(t) && t.prio > best.prio {
				best = t
			}
		}
		return best
	case "starve":
		if !blocked && me.ID != st.Victim && sync && !rng.P(st.SyncP) {
			return def
		}
		k := rng.N(n)
		var victim *Task
		for _, t := range tasks {
			if !runnable(t) {
				continue
			}
			if t.ID == st.Victim {
				victim = t
				if k > 0 {
					k--
				}
				continue
			}
			if k == 0 {
				return t
			}
			k--
		}
		for _, t := range tasks {
			if t != victim && runnable(t) {
				return t
			}
		}
		return victim
	default: // walk
		if !blocked && sync && !rng.P(st.SyncP) {
			return def
		}
		k := rng.N(n)
		for _, t := range tasks {
			if runnable(t) {
				if k == 0 {
					return t
				}
				k--
			}
		}
		return def
	}
}

func switchTo(me, next *Task) {
	switches++
	mixHash(uint64(steps)<<16 ^ uint64(next.ID))
	inter = (inter ^ uint64(next.ID+1)) * 0x100000001b3
	if me != nil {
		inter = (inter ^ uint64(me.ID+1)) * 0x100000001b3
	}
	if cfg.Verbose {
		from := -1
		if me != nil {
			from = me.ID
		}
		logLines = append(logLines, fmt.Sprintf("[step %d] switch %d -> %d", steps, from, next.ID))
	}
	if me != nil {
		me.tally()
	}
	next.cond = nil
	next.since = steps
	cur = next
	raceDisable()
	next.resume <- struct{}{}
	if me != nil && !me.done {
		<-me.resume
	}
	raceEnable()
	if me != nil && !me.done && aborting {
		runtime.Goexit()
	}
}

// Block suspends the current task until cond holds. cond must only depend on
// simulated state.
func Block(cond func() bool, why string) {
	if !active {
		if !cond() {
			panic("simrt: blocking operation outside a simulation: " + why)
		}
		return
	}
	for {
		if aborting {
			runtime.Goexit()
		}
		if cond() {
			return
		}
		me := cur
		me.cond, me.why = cond, why
		steps++
		points++
		if steps >= budget {
			me.cond = nil
			fail("budget", fmt.Sprintf("still running after %d steps", steps), stackOf())
		}
		next := choose(me, nil, true)
		if next == nil {
			if !advanceClock() {
				me.cond = nil
				fail("deadlock", describeBlocked(me, why), stackOf())
			}
			continue
		}
		planNext()
		if next == me {
			me.cond = nil
			continue
		}
		switchTo(me, next)
		me.cond = nil
	}
}

func describeBlocked(me *Task, why string) string {
	parts := []string{fmt.Sprintf("task %d: %s", me.ID, why)}
	for _, t := range tasks {
		if !t.done && t != me {
			parts = append(parts, fmt.Sprintf("task %d: %s", t.ID, t.why))
		}
	}
	return "all tasks are blocked: " + strings.Join(parts, "; ")
}

func stackOf() string {
	return string(debug.Stack())
}

// fail ends the simulation from within the running task.
func fail(kind, detail, stack string) {
	if outKind == "" {
		outKind, outDetail, outStack = kind, detail, stack
	}
	aborting = true
	runtime.Goexit()
}

// Fatal ends the simulation like an unrecoverable runtime error would end the process.
func Fatal(detail string) {
	if aborting {
		return
	}
	if !active {
		panic(detail)
	}
	fail("fatal", detail, stackOf())
}

// Go starts f as a new task.
func Go(f func()) {
	if !active {
		panic("simrt: go statement outside a simulation")
	}
	if aborting {
		runtime.Goexit()
	}
	spawn(cur.Label, false, f)
}

// GoLabel starts f as a task of the harness's group label.
func GoLabel(label int, f func()) { spawn(label, false, f) }

// GoDaemon starts f as a task that is dropped when all others have ended.
func GoDaemon(f func()) {
	if !active || aborting {
		return
	}
	spawn(-1, true, f)
}

// GoTimer starts a task that waits until d simulated nanoseconds have passed or
// stopped holds, and then, in the first case, runs f. The wait is not work in progress
// for Live, but the simulation does not end before it.
func GoTimer(d int64, stopped func() bool, f func()) {
	if !active || aborting {
		return
	}
	t := newTask(cur.ID)
	t.Label, t.Tag, t.timer = cur.Label, cur.Tag, true
	alive++
	at := NowNS() + d
	go t.run(func() {
		SleepUntil(at, stopped)
		if stopped() {
			return
		}
		t.timer = false
		f()
	})
	Op("timer")
}

func spawn(label int, daemon bool, f func()) {
	t := newTask(cur.ID)
	t.Label, t.Tag, t.daemon = label, cur.Tag, daemon
	if !daemon {
		alive++
	}
	go t.run(f)
	Op("go")
}

func newTask(parent int) *Task {
	t := &Task{ID: len(tasks), Parent: parent, resume: make(chan struct{}, 1)}
	if !cfg.Replaying {
		t.prio = int64(rng.U64() >> 2)
	}
	tasks = append(tasks, t)
	return t
}

func (t *Task) run(f func()) {
	raceDisable()
	<-t.resume
	raceEnable()
	defer t.exit()
	if aborting {
		return
	}
	f()
}

func (t *Task) exit() {
	if r := recover(); r != nil {
		if outKind == "" {
			outKind = "panic"
			outDetail = describePanic(r)
			outStack = stackOf()
		}
		aborting = true
	}
	t.done = true
	t.cond = nil
	t.tally()
	t.jumps = jumps
	if !t.daemon {
		alive--
	}
	RaceReleaseMerge(unsafe.Pointer(&runSync))
	if aborting {
		raceDisable()
		reaped <- struct{}{}
		raceEnable()
		return
	}
	if alive == 0 {
		raceDisable()
		close(finished)
		raceEnable()
		return
	}
	steps++
	points++
	next := choose(t, nil, true)
	for next == nil && advanceClock() {
		next = choose(t, nil, true)
	}
	if next == nil {
		outKind, outDetail = "deadlock", describeBlocked(t, "finished")
		aborting = true
		raceDisable()
		reaped <- struct{}{}
		raceEnable()
		return
	}
	planNext()
	switchTo(t, next)
}

func describePanic(r interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("panic of type %T (its text could not be rendered)", r)
		}
	}()
	if e, ok := r.(error); ok {
		return fmt.Sprintf("panic: %s", e.Error())
	}
	return fmt.Sprintf("panic: %v", r)
}

// Run executes root as task 0 under the given schedule and returns when every task
// has ended or the run was aborted.
func Run(c Config, root func()) Outcome {
	if active {
		panic("simrt: nested simulation")
	}
	cfg = c
	rng = NewRNG(Mix(c.Seed, 0xA11CE))
	orderRng = NewRNG(Mix(c.OrderSeed, 0x0DDE5))
	steps, hot = 0, 0
	budget = c.Budget
	if budget <= 0 {
		budget = 1 << 40
	}
	tasks = make([]*Task, 0, 64)
	alive, switches, points, replayPos = 0, 0, 0, 0
	trace, logLines = nil, nil
	hash, inter = 14695981039346656037, 14695981039346656037
	outKind, outDetail, outStack = "", "", ""
	aborting = false
	finished = make(chan struct{})
	reaped = make(chan struct{}, 1)
	nextFair = fairEvery
	resetClock()
	resetChans()
	lowPrio = 0
	changeAt = nil
	if !c.Replaying && c.Strategy.Kind == "pct" {
		for i := 0; i < c.Strategy.Changes; i++ {
			changeAt = append(changeAt, int64(1+rng.N(c.Strategy.Horizon)))
		}
		for i := range changeAt {
			for j := i; j > 0 && changeAt[j] < changeAt[j-1]; j-- {
				changeAt[j], changeAt[j-1] = changeAt[j-1], changeAt[j]
			}
		}
	}
	active = true
	t := newTask(-1)
	alive++
	cur = t
	planNext()
	go t.run(root)
	t.resume <- struct{}{}

	select {
	case <-finished:
		aborting = true
	case <-reaped:
	}
	// Unwind what is left (after an abort, or daemons) one task at a time.
	live := alive
	for _, t := range tasks {
		if t.done {
			continue
		}
		nextStep = steps + 1000000
		nextHot = never
		cur = t
		t.resume <- struct{}{}
		<-reaped
	}
	RaceAcquire(unsafe.Pointer(&runSync))
	active = false
	out := Outcome{Kind: outKind, Detail: outDetail, Stack: outStack, Steps: steps, Switches: switches,
		Points: points, Tasks: len(tasks), Trace: trace, Hash: hash, Inter: inter, Log: logLines, Live: live}
	aborting = false
	nextStep, nextHot = never, never
	tasks, cur, trace, logLines = nil, nil, nil, nil
	return out
}

func (t *Task) tally() {
	t.ran += steps - t.since
	t.since = steps
}

// Left is a task that had not ended at some moment.
type Left struct {
	t     *Task
	ran   int64
	jumps int
}

// Live lists the unfinished tasks, other than the current one, for which f holds.
func Live(f func(*Task) bool) []Left {
	var l []Left
	for _, t := range tasks {
		if !t.done && !t.timer && t != cur && f(t) {
			l = append(l, Left{t, t.ran, jumps})
		}
	}
	return l
}

// Since says how much the task executed since, and whether it was waiting for
// something: everything else had come to rest before it ended.
func (l Left) Since() (int64, bool) {
	return l.t.ran - l.ran, !l.t.done || l.t.jumps > l.jumps
}

// Rand64 draws from the order stream, for the code's own random numbers.
func Rand64() uint64 {
	if orderRng == nil {
		return 0
	}
	return orderRng.U64()
}

// CPUs is the number of processors of the simulated machine.
func CPUs() int { return []int{8, 1, 2, 3, 4, 16, 64, 8}[Mix(cfg.OrderSeed, 0xC9)%8] }

// Tasks is the number of unfinished tasks.
func Tasks() int { return alive }

// Choice draws from the order stream: select cases, map orders, pools.
func Choice(n int) int {
	if n <= 1 || orderRng == nil {
		return 0
	}
	return orderRng.N(n)
}

// WaitIdle blocks the current task until no other task can run, and no timer will
// change that (or, to not wait for ever on tasks that wait for this one, exactly then).
func WaitIdle() {
	if !active || aborting {
		return
	}
	me := cur
	me.idle = true
	defer func() { me.idle = false }()
	from := jumps
	Block(func() bool {
		for _, t := range tasks {
			if t != me && !t.done && !t.idle && t.cond == nil {
				return false
			}
			if t != me && !t.done && !t.idle && t.cond != nil && t.cond() {
				return false
			}
		}
		return jumps-from >= 100 || !timersPending()
	}, "waiting for everything else to block")
}
