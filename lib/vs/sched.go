//go:build go1.21

// Package vs is a cooperative scheduler and choice recorder used to explore
// the executions of the (rewritten) code under test exhaustively.
//
// Exactly one thread runs at a time. Every synchronisation operation, file
// operation and environment question goes through Point, Wait or Choose. The
// sequence of answers determines the execution completely, so an execution
// can be replayed from its choice sequence.
//
// In -race builds this package is compiled without race instrumentation and
// its hand-offs create no happens-before edges: the only edges the detector
// sees are those the modelled primitives have, so that unsynchronised
// accesses are reported on the schedule that is explored.
package vs

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Thread is one cooperative thread.
type Thread struct {
	ID   int
	Name string

	wake chan struct{}
	pred func() bool // nil when runnable
	what string
	done bool
	idle bool // excluded from leak reports
}

// kinds of choices.
const (
	kSched = iota // which thread runs next
	kEnv          // environment answer that is a deviation from the default
	kFree         // enumerated input, costs nothing
	kSel          // which ready select case is taken
)

// Choice is one recorded decision.
type Choice struct {
	N    int32
	Pick int32
	Cost [2]int8 // cost of a non-zero pick: {schedule, environment}
	Free int32   // picks below Free cost nothing
}

// Failure describes a violation found in an execution.
type Failure struct {
	Kind   string // deadlock, panic, race, oracle, ...
	Msg    string
	Detail string
}

// Exec is the state of one execution.
type Exec struct {
	threads []*Thread
	cur     *Thread
	prefix  []int32
	choices []Choice
	steps   int64

	aborting bool
	ended    bool
	endCh    chan struct{}
	ackCh    chan struct{}
	endSync  uint64

	fail *Failure

	now       int64
	timers    []*Timer
	timerSeq  int64
	idleFires int

	chans chanTable

	outcome  []string
	traceOn  bool
	trace    []string
	diverged string

	// per execution values of the shims
	Store []any

	exitCode int
	exited   bool

	opt Options

	schedUsed, envUsed int
}

// Options configures the executions of a scenario.
type Options struct {
	FreeBlocking bool // switching at a blocking point costs nothing
	EarlyTimers  bool // timers may fire before the system is idle (a deviation)
	MaxIdleFires int  // how many timer expiries an execution may use when idle
	MaxSteps     int64
	PoolDrop     bool // sync.Pool may lose its content (a deviation)
	ClockStall   bool // two consecutive clock reads may agree (a deviation)
	ClockStep    int64
	KeepRace     bool // do not fail on reported races
}

var x *Exec

// Cur returns the running execution, or nil outside of one.
//
//go:noinline
func Cur() *Exec { return x }

// Active reports if code runs inside of an execution that is not unwinding.
//
//go:noinline
func Active() bool { return x != nil && !x.aborting }

// Aborting reports if the current execution is being unwound.
//
//go:noinline
func Aborting() bool { return x != nil && x.aborting }

// ThreadID returns the id of the running thread.
//
//go:noinline
func ThreadID() int {
	if x == nil || x.cur == nil {
		return -1
	}
	return x.cur.ID
}

// Trace adds a line to the trace of the execution when tracing.
//
//go:noinline
func Trace(format string, args ...any) {
	if x != nil && x.traceOn {
		id := -1
		if x.cur != nil {
			id = x.cur.ID
		}
		x.trace = append(x.trace, fmt.Sprintf("t%d ", id)+fmt.Sprintf(format, args...))
	}
}

// Tracing reports if a trace is being recorded.
//
//go:noinline
func Tracing() bool { return x != nil && x.traceOn }

// Outcome adds to the observed outcome of the execution.
//
//go:noinline
func Outcome(format string, args ...any) {
	if x != nil && !x.aborting {
		x.outcome = append(x.outcome, fmt.Sprintf(format, args...))
	}
}

// ---------------------------------------------------------------- running

// runExec runs body as thread 0 with the given choice prefix.
func runExec(opt Options, prefix []int32, trace bool, body func()) *Exec {
	e := &Exec{
		prefix:  prefix,
		endCh:   make(chan struct{}, 1),
		ackCh:   make(chan struct{}, 1),
		traceOn: trace,
		opt:     opt,
		now:     baseTime,
	}
	if e.opt.MaxSteps == 0 {
		e.opt.MaxSteps = 200000
	}
	if e.opt.MaxIdleFires == 0 {
		e.opt.MaxIdleFires = 64
	}
	if e.opt.ClockStep == 0 {
		e.opt.ClockStep = 1000
	}
	errs0 := raceErrors()
	x = e
	raceDisable()
	t := e.newThread("main")
	e.cur = t
	raceEnable()
	go e.threadMain(t, body, true)
	raceDisable()
	t.wake <- struct{}{}
	<-e.endCh
	raceEnable()
	RaceAcquire(unsafe.Pointer(&e.endSync))

	if n := raceErrors(); n > errs0 {
		if msg, detail := raceReport(); msg != "" && e.fail == nil && !opt.KeepRace {
			e.fail = &Failure{Kind: "race", Msg: msg, Detail: detail}
		}
	}

	// unwind whatever is left
	e.aborting = true
	for i := 0; i < len(e.threads); i++ {
		t := e.threads[i]
		if t.done {
			continue
		}
		e.cur = t
		raceDisable()
		t.wake <- struct{}{}
		<-e.ackCh
		raceEnable()
	}
	RaceAcquire(unsafe.Pointer(&e.endSync))
	for _, fn := range atExec {
		fn(e)
	}
	x = nil
	return e
}

// atExec has functions that run after each execution.
var atExec []func(*Exec)

// AtExecEnd registers a function to run after every execution.
func AtExecEnd(fn func(*Exec)) { atExec = append(atExec, fn) }

func (e *Exec) newThread(name string) *Thread {
	t := &Thread{ID: len(e.threads), Name: name, wake: make(chan struct{}, 1)}
	e.threads = append(e.threads, t)
	return t
}

func (e *Exec) threadMain(t *Thread, body func(), main bool) {
	raceDisable()
	<-t.wake
	raceEnable()
	normal := false
	defer func() {
		if !normal && !e.aborting {
			if r := recover(); r != nil {
				e.setFail(&Failure{Kind: "panic", Msg: fmt.Sprint(r), Detail: stack()})
			} else if !e.ended {
				// runtime.Goexit by code under test or Exit
				if main {
					e.ended = true
				}
			}
		} else if !normal {
			recover()
		}
		e.threadEnd(t, main)
	}()
	debug.SetPanicOnFault(true)
	if !e.aborting {
		body()
	}
	normal = true
}

func stack() string {
	s := string(debug.Stack())
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func (e *Exec) threadEnd(t *Thread, main bool) {
	t.done = true
	t.pred = nil
	RaceReleaseMerge(unsafe.Pointer(&e.endSync))
	raceDisable()
	defer raceEnable()
	if e.aborting {
		e.ackCh <- struct{}{}
		return
	}
	if main || e.fail != nil || e.ended {
		e.ended = true
		e.endCh <- struct{}{}
		return
	}
	next := e.pick(nil)
	if next == nil {
		e.ended = true
		e.endCh <- struct{}{}
		return
	}
	e.cur = next
	next.wake <- struct{}{}
}

func (e *Exec) setFail(f *Failure) {
	if e.fail == nil {
		e.fail = f
	}
}

// Fail records a violation and ends the execution.
//
//go:noinline
func Fail(kind, format string, args ...any) {
	if x == nil {
		panic(fmt.Sprintf("vs.Fail outside of an execution: "+kind+": "+format, args...))
	}
	if x.aborting {
		runtime.Goexit()
	}
	x.setFail(&Failure{Kind: kind, Msg: fmt.Sprintf(format, args...), Detail: stack()})
	x.end()
}

// Note records a violation without ending the execution.
//
//go:noinline
func Note(kind, format string, args ...any) {
	if x == nil || x.aborting {
		return
	}
	x.setFail(&Failure{Kind: kind, Msg: fmt.Sprintf(format, args...), Detail: stack()})
}

// Failed reports if a violation has been recorded.
//
//go:noinline
func Failed() bool { return x != nil && x.fail != nil }

// end ends the execution from the current thread.
func (e *Exec) end() {
	e.ended = true
	runtime.Goexit()
}

// OnExit, when it is not nil, is called instead of ending the execution. The
// thread then ends. It stands for the end of one of several processes.
var OnExit func(code int)

// Exit models os.Exit.
//
//go:noinline
func Exit(code int) {
	if x.aborting {
		runtime.Goexit()
	}
	if OnExit != nil {
		OnExit(code)
		runtime.Goexit()
	}
	x.exited, x.exitCode = true, code
	x.end()
}

// End ends the execution successfully.
//
//go:noinline
func End() {
	if x.aborting {
		runtime.Goexit()
	}
	x.end()
}

// ---------------------------------------------------------------- choices

// choose records a decision with n alternatives. picks below free cost
// nothing, others cost (cs, ce).
func (e *Exec) choose(n, free int, cs, ce int8) int {
	if n <= 1 {
		return 0
	}
	i := len(e.choices)
	pick := int32(0)
	if i < len(e.prefix) {
		pick = e.prefix[i]
		if int(pick) >= n {
			e.diverged = fmt.Sprintf("choice %d: replayed pick %d of %d", i, pick, n)
			e.setFail(&Failure{Kind: "divergence", Msg: e.diverged})
			pick = 0
		}
	}
	e.choices = append(e.choices, Choice{N: int32(n), Pick: pick, Cost: [2]int8{cs, ce}, Free: int32(free)})
	return int(pick)
}

// Choose enumerates n inputs at no cost.
//
//go:noinline
func Choose(n int) int {
	if x == nil || x.aborting {
		return 0
	}
	return x.choose(n, n, 0, 0)
}

// Deviate asks the environment a question with n answers, the first being the
// default and every other one a deviation.
//
//go:noinline
func Deviate(n int) int {
	if x == nil || x.aborting {
		return 0
	}
	return x.choose(n, 1, 0, 1)
}

// ---------------------------------------------------------------- scheduling

// pick selects the next thread to run. cur is the current thread if it is
// still able to run.
func (e *Exec) pick(cur *Thread) *Thread {
	e.steps++
	if e.steps > e.opt.MaxSteps {
		e.setFail(&Failure{Kind: "livelock", Msg: fmt.Sprintf("no end after %d steps: %s", e.steps, e.describe())})
		return nil
	}
	var buf [16]*Thread
	for {
		enabled := buf[:0]
		if cur != nil && (cur.pred == nil || cur.pred()) {
			enabled = append(enabled, cur)
		}
		start := 0
		if e.cur != nil {
			start = e.cur.ID
		}
		n := len(e.threads)
		for i := 1; i <= n; i++ {
			t := e.threads[(start+i)%n]
			if t == cur || t.done {
				continue
			}
			if t.pred == nil || t.pred() {
				enabled = append(enabled, t)
			}
		}
		if len(enabled) == 0 {
			if e.fireTimer() {
				continue
			}
			e.setFail(&Failure{Kind: "deadlock", Msg: e.describe()})
			return nil
		}
		alts := len(enabled)
		early := e.opt.EarlyTimers && len(e.timers) > 0 && e.idleFires < e.opt.MaxIdleFires
		if early {
			alts++
		}
		free := 1
		if e.opt.FreeBlocking && (cur == nil || enabled[0] != cur) {
			free = len(enabled)
		}
		p := e.choose(alts, free, 1, 0)
		if p == len(enabled) {
			e.fireTimer()
			continue
		}
		return enabled[p]
	}
}

func (e *Exec) describe() string {
	var b strings.Builder
	for _, t := range e.threads {
		if t.done {
			continue
		}
		fmt.Fprintf(&b, "[t%d %s: %s] ", t.ID, t.Name, t.what)
	}
	return b.String()
}

// yield gives control to the next thread. t is the running thread, with pred
// set if it has to wait.
func (e *Exec) yield(t *Thread, what string) {
	t.what = what
	next := e.pick(t)
	if next == nil {
		e.end()
	}
	if next == t {
		t.pred = nil
		return
	}
	e.cur = next
	RaceReleaseMerge(unsafe.Pointer(&e.endSync))
	raceDisable()
	next.wake <- struct{}{}
	<-t.wake
	raceEnable()
	if e.aborting {
		RaceAcquire(unsafe.Pointer(&e.endSync))
		runtime.Goexit()
	}
	t.pred = nil
}

// Point is a scheduling point before an operation that others can observe.
//
//go:noinline
func Point(what string) {
	e := x
	if e == nil || e.aborting {
		return
	}
	if e.traceOn {
		Trace("%s", what)
	}
	if e.ended {
		e.end()
	}
	e.yield(e.cur, what)
}

// Wait blocks the thread until pred holds.
//
//go:noinline
func Wait(what string, pred func() bool) {
	e := x
	if e == nil {
		if !pred() {
			panic("vs: blocking operation outside of an execution: " + what)
		}
		return
	}
	if e.aborting {
		return
	}
	if pred() {
		return
	}
	if e.ended {
		e.end()
	}
	t := e.cur
	t.pred = pred
	if e.traceOn {
		Trace("block: %s", what)
	}
	e.yield(t, what)
}

// Go starts a new thread.
//
//go:noinline
func Go(fn func()) { GoNamed("", fn) }

// GoNamed starts a new thread with a name.
//
//go:noinline
func GoNamed(name string, fn func()) {
	e := x
	if e == nil {
		panic("vs: go statement outside of an execution")
	}
	if e.aborting {
		return
	}
	if name == "" {
		name = caller()
	}
	t := e.newThread(name)
	t.what = "start"
	go e.threadMain(t, fn, false)
	Point("go " + name)
}

func caller() string {
	if x == nil || !x.traceOn {
		return "go"
	}
	for skip := 3; skip < 6; skip++ {
		_, file, line, ok := runtime.Caller(skip)
		if ok && !strings.Contains(file, "/vs/") {
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, line)
		}
	}
	return "go"
}

// Gosched is runtime.Gosched.
//
//go:noinline
func Gosched() { Point("gosched") }

// Live returns the names of the threads, except for the calling one, that
// have not finished.
//
//go:noinline
func Live() (out []string) {
	if x == nil {
		return nil
	}
	for _, t := range x.threads {
		if !t.done && t != x.cur && !t.idle {
			out = append(out, fmt.Sprintf("t%d %s: %s", t.ID, t.Name, t.what))
		}
	}
	return out
}

// Quiesce waits until no other thread can make a step.
//
//go:noinline
func Quiesce() {
	e := x
	if e == nil || e.aborting {
		return
	}
	me := e.cur
	Wait("quiesce", func() bool {
		for _, t := range e.threads {
			if t == me || t.done {
				continue
			}
			if t.pred == nil || t.pred() {
				return false
			}
		}
		return true
	})
}

// ---------------------------------------------------------------- statements

var stmtHook func()

// SetStmtHook sets the function called before every statement of the packages
// that were rewritten with statement points.
func SetStmtHook(fn func()) { stmtHook = fn }

// Stmt is called before every statement of such packages.
func Stmt() {
	if stmtHook != nil {
		stmtHook()
	}
}

// PoolMayDrop reports if pools may lose items.
//
//go:noinline
func PoolMayDrop() bool { return x != nil && x.opt.PoolDrop }

// Spawn starts a thread without a scheduling point.
//
//go:noinline
func Spawn(name string, fn func()) {
	e := x
	if e == nil || e.aborting {
		return
	}
	t := e.newThread(name)
	t.what = "start"
	go e.threadMain(t, fn, false)
}
