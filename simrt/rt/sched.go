package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
)

// Reasons a task was stopped by the simulator.
const (
	StopNone     = ""
	StopSteps    = "step-limit"  // did not finish within its budget
	StopAlloc    = "alloc-limit" // asked for more memory than its budget
	StopDeadlock = "deadlock"    // nobody can run
	StopCrash    = "crash"       // its process was killed
	StopFatal    = "fatal"       // unrecoverable runtime error
	StopExit     = "exit"        // its process ended itself, Detail is the exit code
	StopOrphan   = "orphan"      // background task left over at the end
)

const (
	stRun = iota
	stBlocked
	stSleep
	stDone
)

type task struct {
	id      int
	proc    int
	primary bool
	state   int
	waitOn  uintptr
	wakeAt  int64
	wake    chan struct{}
	done    chan struct{}
	fn      func()
	stop    string // reason, "" if not stopped
	detail  string
	exiting bool
	normal  bool
	quiet   int
	panicV  interface{}
	stack   string
	panicky bool
	steps   int64
	system  bool
}

// Outcome of one primary task.
type Outcome struct {
	OK     bool        // returned normally
	Panic  interface{} // panic value, if it panicked
	Stack  string
	Stop   string // one of the Stop reasons
	Detail string
	Steps  int64
}

func (o Outcome) String() string {
	switch {
	case o.OK:
		return "ok"
	case o.Stop != "":
		return "stopped: " + o.Stop + " " + o.Detail
	default:
		return fmt.Sprintf("panic: %v", o.Panic)
	}
}

// Budget limits one Exec.
type Budget struct {
	Steps int64 // scheduling points
	Alloc int64 // elements asked through make()
}

const maxTasks = 64

var (
	tasks     [maxTasks]*task
	ntasks    int
	cur       *task
	slice     int64
	stepsLeft int64
	allocLeft int64
	driver    chan struct{}
	primaries int

	clockNS  int64 // simulated monotonic time since the run began
	stepNS   int64 // simulated time one statement takes
	schedPol int   // scheduling policy of this run

	runSteps  int64
	switches  int64
	schedHash uint64
	trace     [1 << 14]uint64
	ntrace    int
	siteHits  [1 << 15]uint8
)

// Begin starts a run. If replay is not nil its choices are taken instead of random ones.
func Begin(seed uint64, replay []uint32) {
	rngState = seed
	nchoices = 0
	script = replay
	scripted = replay != nil
	ntasks = 0
	chanQ = nil
	cur = nil
	clockNS = 0
	stepNS = 0
	runSteps, switches, schedHash = 0, 0, 14695981039346656037
	ntrace = 0
	contended = 0
	schedPol = 0
	Terminal = nil
	FaultReset()
	clockReset()
	resetGlobals()
}

var resets []func()

// OnReset registers what sets the package-level variables of a package of the code under test.
func OnReset(f func()) { resets = append(resets, f) }

func resetGlobals() {
	for _, f := range resets {
		f()
	}
}

// SetPolicy selects how often tasks are preempted (0..4) and the time a statement takes.
func SetPolicy(pol int, ns int64) { schedPol = pol; stepNS = ns }

// InTask tells whether simulated code is running (and may block).
//
//go:norace
func InTask() bool { return cur != nil && !cur.exiting && cur.quiet == 0 }

// Quiet runs f without scheduling points, budgets or faults, inside the current task.
//
//go:norace
func Quiet(f func()) {
	t := cur
	if t == nil {
		f()
		return
	}
	t.quiet++
	defer func() { t.quiet-- }()
	f()
}

// Active tells whether faults may be injected and blocking is simulated here.
func Active() bool { return InTask() }

// Dying tells whether the current task is being torn down: its effects must not reach the world.
//
//go:norace
func Dying() bool {
	return cur != nil && cur.exiting && (cur.stop == StopCrash || cur.stop == StopExit)
}

// Exiting tells whether the current task is being torn down.
//
//go:norace
func Exiting() bool { return cur != nil && cur.exiting }

// TaskID is the number of the running task (-1 in the driver).
//
//go:norace
func TaskID() int {
	if cur == nil {
		return -1
	}
	return cur.id
}

// Proc is the simulated process of the running task.
//
//go:norace
func Proc() int {
	if cur == nil {
		return 0
	}
	return cur.proc
}

// Now is simulated time in nanoseconds since the run began.
//
//go:norace
func Now() int64 { return clockNS }

// Advance lets simulated time pass.
//
//go:norace
func Advance(ns int64) { clockNS += ns }

// Y is the scheduling point put before every statement of the code under test.
//
//go:norace
func Y(site int) {
	t := cur
	if t == nil || t.exiting || t.quiet != 0 {
		return
	}
	runSteps++
	t.steps++
	clockNS += stepNS
	if site < len(siteHits) {
		siteHits[site] = 1
	}
	stepsLeft--
	if stepsLeft < 0 {
		stopTask(t, StopSteps, "")
	}
	if t.stop != "" {
		exitTask(t)
	}
	slice--
	if slice > 0 {
		return
	}
	resched(t, site)
}

// N meters make() sizes.
func N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n T) T {
	alloc(int64(n))
	return n
}

//go:norace
func alloc(n int64) {
	t := cur
	if t == nil || t.exiting || t.quiet != 0 {
		return
	}
	if n < 0 {
		return // make panics by itself
	}
	allocLeft -= n
	if allocLeft < 0 {
		stopTask(t, StopAlloc, fmt.Sprintf("make(%d)", n))
		exitTask(t)
	}
}

//go:norace
func stopTask(t *task, why, detail string) {
	if t.stop == "" {
		t.stop = why
		t.detail = detail
	}
}

//go:norace
func exitTask(t *task) {
	t.exiting = true
	runtime.Goexit()
}

// Fatal ends the current task like an unrecoverable runtime error.
//
//go:norace
func Fatal(detail string) {
	if t := cur; t != nil && !t.exiting {
		stopTask(t, StopFatal, detail)
		exitTask(t)
	}
}

// Crash kills the current task's process: every task of it stops where it is.
//
//go:norace
func Crash(detail string) { endProcess(StopCrash, detail) }

// Exit ends the current task's process with an exit code.
//
//go:norace
func Exit(code int) { endProcess(StopExit, strconv.Itoa(code)) }

//go:norace
func endProcess(why, detail string) {
	t := cur
	if t == nil || t.exiting {
		return
	}
	for i := 0; i < ntasks; i++ {
		if o := tasks[i]; o.proc == t.proc && o.state != stDone {
			stopTask(o, why, detail)
			if o.state != stRun {
				o.state = stRun // let it run into its end
			}
		}
	}
	exitTask(t)
}

var sliceTable = [8]int64{1 << 40, 1, 2, 3, 6, 15, 50, 200}

var policies = [5][8]int{
	{1, 6, 2, 2, 2, 1, 1, 1},  // fine
	{2, 2, 2, 2, 2, 2, 2, 2},  // mixed
	{4, 1, 1, 1, 2, 4, 4, 4},  // coarse
	{1, 12, 4, 1, 0, 0, 0, 0}, // nearly every statement
	{16, 1, 1, 1, 1, 1, 2, 2}, // rare preemption
}

//go:norace
func runnable(buf *[maxTasks]*task, first *task) int {
	n := 0
	if first != nil && first.state == stRun {
		buf[n] = first
		n++
	}
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t != first && t.state == stRun {
			buf[n] = t
			n++
		}
	}
	return n
}

//go:norace
func wakeSleepers() bool {
	var best *task
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.state == stSleep && (best == nil || t.wakeAt < best.wakeAt) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.wakeAt > clockNS {
		clockNS = best.wakeAt
	}
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.state == stSleep && t.wakeAt <= clockNS {
			t.state = stRun
		}
	}
	return true
}

//go:norace
func dueSleepers() {
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.state == stSleep && t.wakeAt <= clockNS {
			t.state = stRun
		}
	}
}

// pick chooses the next task to run; nil means nobody can.
//
//go:norace
func pick(from *task, site int) *task {
	var buf [maxTasks]*task
	dueSleepers()
	n := runnable(&buf, from)
	for n == 0 {
		if !wakeSleepers() {
			return nil
		}
		n = runnable(&buf, from)
	}
	if n == 1 {
		slice = 64
		return buf[0]
	}
	k := Choose(n)
	p := &policies[schedPol]
	slice = sliceTable[Weighted(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7])]
	nx := buf[k]
	if nx != from {
		switches++
		schedHash = (schedHash ^ uint64(nx.id)<<20 ^ uint64(site)) * 1099511628211
		if ntrace < len(trace) {
			trace[ntrace] = uint64(nx.id)<<32 | uint64(site)
			ntrace++
		}
	}
	return nx
}

//go:norace
func resched(t *task, site int) {
	nx := pick(t, site)
	if nx == nil || nx == t {
		return
	}
	switchTo(t, nx)
}

//go:norace
func switchTo(t, nx *task) {
	cur = nx
	raceOff()
	nx.wake <- struct{}{}
	<-t.wake
	raceOn()
	cur = t
	if t.stop != "" && !t.exiting {
		exitTask(t)
	}
}

// Block parks the current task until Wake(on).
//
//go:norace
func Block(on uintptr) {
	t := cur
	t.state = stBlocked
	t.waitOn = on
	leave(t)
}

// Wake makes the tasks blocked on an object runnable again.
//
//go:norace
func Wake(on uintptr) {
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.state == stBlocked && t.waitOn == on {
			t.state = stRun
			t.waitOn = 0
			if slice > 3 {
				slice = 3
			}
		}
	}
}

// Sleep parks the current task for a simulated duration.
//
//go:norace
func Sleep(ns int64) {
	t := cur
	if !InTask() {
		clockNS += ns
		return
	}
	t.state = stSleep
	t.wakeAt = clockNS + ns
	leave(t)
}

//go:norace
func leave(t *task) {
	nx := pick(nil, 0)
	if nx == nil {
		deadlock()
		nx = t
	}
	if nx == t {
		if t.stop != "" {
			exitTask(t)
		}
		return
	}
	switchTo(t, nx)
}

//go:norace
func deadlock() {
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t.state != stDone {
			stopTask(t, StopDeadlock, "")
			t.state = stRun
		}
	}
}

//go:norace
func (t *task) finish() {
	t.state = stDone
	close(t.done) // ordinary edge to the driver
	if t.primary {
		primaries--
	}
	if primaries == 0 {
		// let background tasks end: they are stopped where they are
		left := false
		for i := 0; i < ntasks; i++ {
			if o := tasks[i]; o.state != stDone {
				stopTask(o, StopOrphan, "")
				o.state = stRun
				left = true
			}
		}
		if !left {
			cur = nil
			raceOff()
			driver <- struct{}{}
			raceOn()
			return
		}
	}
	nx := pick(nil, 0)
	if nx == nil {
		deadlock()
		nx = pick(nil, 0)
	}
	cur = nx
	raceOff()
	nx.wake <- struct{}{}
	raceOn()
}

func (t *task) main() {
	defer t.finish()
	defer t.catch()
	t.start()
	t.fn()
	t.returned()
}

//go:norace
func (t *task) start() {
	raceOff()
	<-t.wake
	raceOn()
	cur = t
	if t.stop != "" {
		exitTask(t)
	}
}

//go:norace
func (t *task) returned() { t.normal = true }

//go:norace
func (t *task) catch() {
	if t.normal || t.stop != "" && t.exiting {
		return
	}
	if r := recover(); r != nil {
		t.panicV = r
		t.panicky = true
		t.stack = string(debug.Stack())
	}
	t.exiting = true
}

//go:norace
func addTask(proc int, primary bool, fn func()) *task {
	if ntasks >= maxTasks {
		for i := 0; i < ntasks; i++ {
			if o := tasks[i]; o.state == stDone && !o.primary && o != cur {
				t := &task{id: i, proc: proc, primary: primary, fn: fn, wake: make(chan struct{}, 1), done: make(chan struct{})}
				tasks[i] = t
				return t
			}
		}
		Fatal("too many tasks")
		return nil
	}
	t := &task{id: ntasks, proc: proc, primary: primary, fn: fn, wake: make(chan struct{}, 1), done: make(chan struct{})}
	tasks[ntasks] = t
	ntasks++
	return t
}

// Client is one simulated client: a function and the process it belongs to.
type Client struct {
	Proc int
	Fn   func()
}

// Exec runs the clients as simulated tasks until all have ended.
func Exec(b Budget, cs ...Client) []Outcome {
	ntasks = 0
	primaries = len(cs)
	stepsLeft, allocLeft = b.Steps, b.Alloc
	driver = make(chan struct{}, 1)
	ts := make([]*task, len(cs))
	for i, c := range cs {
		ts[i] = addTask(c.Proc, true, c.Fn)
	}
	for _, t := range ts {
		go t.main()
	}
	launch()
	out := make([]Outcome, len(cs))
	for i, t := range ts {
		<-t.done
		out[i] = Outcome{OK: t.normal && t.stop == "", Panic: t.panicV, Stack: t.stack, Stop: t.stop, Detail: t.detail, Steps: t.steps}
		if t.normal && t.stop != "" {
			// stopped from outside just after finishing its work
			out[i].OK = true
			out[i].Stop = ""
		}
	}
	// a panic in a background task ends the whole program: blame the first client
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; !t.primary {
			<-t.done
			if t.panicky && len(out) > 0 && out[0].Panic == nil {
				out[0].OK, out[0].Panic, out[0].Stack = false, t.panicV, t.stack
			}
		}
	}
	return out
}

//go:norace
func launch() {
	nx := pick(nil, 0)
	cur = nx
	raceOff()
	nx.wake <- struct{}{}
	<-driver
	raceOn()
	cur = nil
}

// Call runs one function as the only client.
func Call(b Budget, fn func()) Outcome { return Exec(b, Client{0, fn})[0] }

// Spawn starts a background task of the current process (a go statement of the code under test).
//
//go:norace
func spawn(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	if cur.exiting {
		return
	}
	t := addTask(cur.proc, false, fn)
	if t != nil {
		go t.main()
		if slice > 2 {
			slice = 2
		}
	}
}

func Go0(f func())                                               { spawn(f) }
func Go1[A any](f func(A), a A)                                  { spawn(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B)                       { spawn(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C)            { spawn(func() { f(a, b, c) }) }
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) { spawn(func() { f(a, b, c, d) }) }

// Stats of the run.
func Steps() int64      { return runSteps }
func Switches() int64   { return switches }
func SchedHash() uint64 { return schedHash }

// Trace returns the context switches of the run as (task, site) pairs.
func Trace() [][2]int {
	res := make([][2]int, ntrace)
	for i := range res {
		res[i] = [2]int{int(trace[i] >> 32), int(trace[i] & 0xffffffff)}
	}
	return res
}

// SiteHits returns which scheduling points were reached in this process.
func SiteHits() []byte { return siteHits[:] }

// Contended counts blocked lock acquisitions of the run.
var contended int64

// Probe2 counts lock contention without touching shared maps.
//
//go:norace
func Probe2(string) { contended++ }

// Contended is the number of times a task had to wait for a lock in this run.
func Contended() int64 { return contended }

// Settle waits, for at most an hour of simulated time, until nothing else of the calling task's process runs
// and tells how many tasks still do.
func Settle() int {
	for ns := int64(1); ; ns *= 16 {
		n := others()
		if n == 0 || ns > 3600_000_000_000 {
			return n
		}
		Sleep(ns)
	}
}

//go:norace
func others() (n int) {
	for i := 0; i < ntasks; i++ {
		if t := tasks[i]; t != cur && !t.primary && !t.system && t.proc == cur.proc && t.state != stDone {
			n++
		}
	}
	return n
}

// System marks the calling task as one of the simulator, like a timer's: it is no goroutine of the program.
//
//go:norace
func System(yes bool) {
	if cur != nil {
		cur.system = yes
	}
}
