// Package rt is the simulation runtime: a seeded scheduler that runs every goroutine of the program
// under test as a task, one at a time, on a discrete-event clock.
//
// The instrumenter redirects the program's goroutines, channels, locks, timers, map accesses and file
// operations to this package. Exactly one task runs at any moment; which one, when it is pre-empted,
// which ready select case fires and in which order a map is iterated is drawn from one PRNG (or read
// from a recorded trace), so a run is a pure function of (code, scenario, seed).
package rt

import (
	"container/heap"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// S is the running simulation; nil outside of Run.
var S *Sim

// Epoch is the wall clock at simulated time zero.
var Epoch = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

type taskState uint8

const (
	stRunnable taskState = iota
	stRunning
	stBlocked
	stDone
)

// Task is one goroutine under the simulator's control.
type Task struct {
	ID      int
	Name    string
	Lib     bool // started by the code under test
	Gen     int  // process generation it belongs to
	Site    int32
	Blocked string // what it is blocked on
	BlockAt int64

	ch       chan struct{}
	state    taskState
	killed   bool
	exited   chan struct{}
	vc       VC
	prio     uint64
	kops     int
	selfKill bool
	wake     any
}

// Deviation is one recorded scheduling decision that differs from the default.
type Preempt struct {
	Step  uint64 `json:"s"`
	Idx   int    `json:"i"`
	Stall int64  `json:"stall,omitempty"`
}
type Choice struct {
	K   uint64 `json:"k"`
	Val int    `json:"v"`
}

// Trace is the sparse list of all scheduling decisions of a run that differ from the default
// (run on until blocked, then first come first served, first ready case, sorted map order).
type Trace struct {
	Preempts []Preempt `json:"preempts"`
	Choices  []Choice  `json:"choices"`
	MapSeed  uint64    `json:"map_seed"`
	Batch    bool      `json:"batch,omitempty"`
}

// Config decides one run.
type Config struct {
	Seed      uint64
	MeanGap   int  // mean number of steps between pre-emptions, 0 = never
	RandBlock bool // random choice of the next task when one blocks
	PCT       int  // >0: priority based scheduling with that many change points
	StallProb float64
	StallMax  int64 // ns
	StallMin  int64
	StallSum  int64 // all stalls of a run together never exceed this (0: no limit)
	MapShuf   bool
	Batch     bool // let timers of the same instant fire together
	Replay    *Trace
	MaxSteps  uint64
	MaxInst   uint64 // steps without the clock moving
	MaxNow    int64
	Jumps     []Jump
	Log       bool
}

// Outcome of a run.
type Outcome struct {
	Kind  string // done, crash, livelock, steps, time, deadlock, harness
	Msg   string
	Stack string
}

type Race struct {
	Map, A, B string
}

type Result struct {
	Outcome
	Trace     Trace
	Steps     uint64
	Switches  uint64
	Preempts  uint64
	Stalls    uint64
	Now       int64
	Tasks     int
	SchedHash uint64
	LogHash   uint64
	Races     []Race
	Log       []string
	Timers    uint64
}

type timer struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	gen  int
	dead bool
	lib  bool
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) {
	t := x.(*timer)
	t.idx = len(*h)
	*h = append(*h, t)
}
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	o[len(o)-1] = nil
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Sim is one run.
type Sim struct {
	cfg Config
	rng *Rand // scheduling decisions
	mix *Rand // map order

	now      int64
	tasks    []*Task
	runnable []*Task
	cur      *Task
	main     *Task
	timers   timerHeap
	seq      uint64
	gen      int

	steps     uint64
	instSteps uint64
	instFires uint64
	nextPre   uint64
	switches  uint64
	npre      uint64
	nstall    uint64
	nchoice   uint64
	ntimer    uint64
	pctLow    uint64

	trace    Trace
	repPre   []Preempt
	repPreI  int
	repCho   map[uint64]int
	schedH   uint64
	logH     uint64
	log      []string
	finished bool
	doneSent bool
	result   Outcome
	done     chan struct{}

	chans map[uintptr]*hchan
	maps  map[uintptr]*mapState
	races []Race
	raceK map[string]bool
	atomV VC

	Disk *Disk
	// Out gets what the process prints; ExitHook is called when it has exited.
	Out      func(p []byte)
	ExitHook func(code int)
	// SerialOpener serves serial.OpenPort calls of the code under test.
	SerialOpener func(name string, baud int) (io.ReadWriteCloser, error)
	nowCalls     int
	Jumped       int // jumps of the wall clock that the program could see
	forced       uint64
	stalled      int64
	stallTot     int64
	// Fatal is set by harness code to end the run with a harness error
	killing bool
	// hooks
	OnPanic func(msg, stack string)
	env     interface{}
}

// Env carries the harness's world.
func (s *Sim) Env() interface{}     { return s.env }
func (s *Sim) SetEnv(e interface{}) { s.env = e }

var sites []string

// SetSites installs the site table produced by the instrumenter.
func SetSites(s []string) { sites = s }

// SiteName resolves an instrumentation site.
func SiteName(i int32) string {
	if int(i) < len(sites) && i > 0 {
		return sites[i]
	}
	return fmt.Sprintf("site%d", i)
}

const fnvOff = 14695981039346656037
const fnvPrime = 1099511628211

func fnv(h uint64, v uint64) uint64 {
	for i := 0; i < 8; i++ {
		h ^= v & 0xff
		h *= fnvPrime
		v >>= 8
	}
	return h
}
func fnvs(h uint64, v string) uint64 {
	for i := 0; i < len(v); i++ {
		h ^= uint64(v[i])
		h *= fnvPrime
	}
	return h
}

// Run executes main as the first task of a fresh simulation and returns when main returns or the run
// ends otherwise.
func Run(cfg Config, env interface{}, main func()) *Result {
	if S != nil {
		panic("rt: nested Run")
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20_000_000
	}
	if cfg.MaxInst == 0 {
		cfg.MaxInst = 100_000
	}
	if cfg.MaxNow == 0 {
		cfg.MaxNow = int64(100 * time.Hour)
	}
	s := &Sim{cfg: cfg, env: env, rng: NewRand(cfg.Seed ^ 0x5ced5ced), done: make(chan struct{}, 1),
		chans: map[uintptr]*hchan{}, maps: map[uintptr]*mapState{}, raceK: map[string]bool{},
		schedH: fnvOff, logH: fnvOff}
	s.pctLow = 1 << 30
	s.trace.MapSeed = 0
	if cfg.MapShuf {
		s.trace.MapSeed = cfg.Seed | 1
	}
	s.trace.Batch = cfg.Batch
	if cfg.Replay != nil {
		s.repPre = cfg.Replay.Preempts
		s.repCho = map[uint64]int{}
		for _, c := range cfg.Replay.Choices {
			s.repCho[c.K] = c.Val
		}
		s.trace.MapSeed = cfg.Replay.MapSeed
		s.trace.Batch = cfg.Replay.Batch
	}
	s.mix = NewRand(s.trace.MapSeed)
	s.drawGap()
	s.Disk = NewDisk()
	S = s
	resetGlobals(cfg.Seed)
	t := s.newTask("main", false)
	s.main = t
	s.startTask(t, func() {
		main()
		s.finish("done", "", "")
	})
	s.removeRunnable(t)
	t.state = stRunning
	s.cur = t
	t.ch <- struct{}{}
	<-s.done
	s.killAll(nil)
	res := &Result{Outcome: s.result, Trace: s.trace, Steps: s.steps, Switches: s.switches, Preempts: s.npre, Stalls: s.nstall,
		Now: s.now, Tasks: len(s.tasks), SchedHash: s.schedH, LogHash: fnv(fnv(s.logH, s.schedH), s.steps), Races: s.races, Log: s.log, Timers: s.ntimer}
	S = nil
	return res
}

func (s *Sim) newTask(name string, lib bool) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Lib: lib, Gen: s.gen, ch: make(chan struct{}, 1), exited: make(chan struct{})}
	if s.cur != nil {
		t.vc = s.cur.vc.copy()
		s.cur.vc = s.cur.vc.tick(s.cur.ID)
	}
	t.vc = t.vc.tick(t.ID)
	if s.cfg.PCT > 0 && s.cfg.Replay == nil {
		t.prio = s.rng.Uint64()>>32 + (1 << 31)
	}
	s.tasks = append(s.tasks, t)
	s.runnable = append(s.runnable, t)
	return t
}

var live int64

func (s *Sim) startTask(t *Task, f func()) {
	atomic.AddInt64(&live, 1)
	go func() {
		<-t.ch
		defer close(t.exited)
		defer atomic.AddInt64(&live, -1)
		normal := false
		defer func() {
			if t.killed {
				recover()
				t.state = stDone
				if t.selfKill {
					s.exitSwitch(t)
				}
				return
			}
			if !normal {
				if r := recover(); r != nil {
					st := string(debug.Stack())
					kind := "crash"
					if harnessPanic(st) || strings.Contains(fmt.Sprint(r), "HarnessBug") {
						kind = "harness"
					}
					s.finish(kind, fmt.Sprint(r), st)
				} else {
					// runtime.Goexit by the code itself
				}
			}
			t.state = stDone
			if s.finished {
				s.signalDone()
				return
			}
			s.exitSwitch(t)
		}()
		if !t.killed {
			f()
			normal = true
		}
	}()
}

// harnessPanic tells whether a panic was raised by harness code rather than by the code under test.
func harnessPanic(stack string) bool {
	i := strings.Index(stack, "panic(")
	if i < 0 {
		return false
	}
	lines := strings.Split(stack[i:], "\n")
	for k := 2; k+1 < len(lines); k += 2 {
		fn := lines[k]
		if strings.HasPrefix(fn, "github.com/stampzilla/") {
			return false
		}
		if strings.HasPrefix(fn, "main.") || strings.HasPrefix(fn, "gozwavesim/") && !strings.HasPrefix(fn, "gozwavesim/rt.") {
			return true
		}
	}
	return false
}

// Go starts a task on behalf of the code under test.
func Go(site int32, f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.cur == nil {
		// from a timer callback
		t := s.newTask("go "+SiteName(site), true)
		s.startTask(t, f)
		return
	}
	if s.cur.killed {
		return
	}
	lib := true
	t := s.newTask("go "+SiteName(site), lib)
	s.startTask(t, f)
	s.point()
}

// Spawn starts a harness task.
func Spawn(name string, f func()) *Task {
	s := S
	t := s.newTask(name, false)
	s.startTask(t, f)
	return t
}

// SpawnLib starts a task that counts as part of the process under test (dies with it).
func SpawnLib(name string, f func()) *Task {
	s := S
	t := s.newTask(name, true)
	s.startTask(t, f)
	return t
}

func (s *Sim) finish(kind, msg, stack string) {
	if s.finished {
		return
	}
	s.finished = true
	s.result = Outcome{kind, msg, stack}
}

// signalDone tells the driver that the run is over and that this goroutine touches nothing any more.
func (s *Sim) signalDone() {
	if s.finished && !s.doneSent {
		s.doneSent = true
		s.done <- struct{}{}
	}
}

// Abort ends the run from harness code.
func (s *Sim) Abort(kind, msg string) {
	s.finish(kind, msg, "")
	if s.cur != nil {
		s.park(s.cur)
	}
}

// park blocks the goroutine of t until it is switched to (or killed).
func (s *Sim) park(t *Task) {
	s.signalDone()
	<-t.ch
	if t.killed {
		runtime.Goexit()
	}
}

func (s *Sim) exitSwitch(t *Task) {
	next := s.pickNext(t)
	if next == nil {
		s.signalDone()
		return
	}
	s.switchTo(next)
}

func (s *Sim) switchTo(next *Task) {
	s.switches++
	s.schedH = fnv(fnv(s.schedH, uint64(next.ID)), uint64(next.Site))
	next.state = stRunning
	s.cur = next
	next.ch <- struct{}{}
}

// block parks the current task until some other party makes it runnable.
func (s *Sim) block(t *Task, on string) {
	t.state = stBlocked
	t.Blocked = on
	t.BlockAt = s.now
	next := s.pickNext(t)
	if next == t {
		t.state = stRunning
		t.Blocked = ""
		s.cur = t
		return
	}
	if next == nil {
		s.park(t)
		return
	}
	s.switchTo(next)
	s.park(t)
	t.Blocked = ""
}

func (s *Sim) ready(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.state = stRunnable
	s.runnable = append(s.runnable, t)
}

func (s *Sim) removeRunnable(t *Task) {
	for i, x := range s.runnable {
		if x == t {
			s.runnable = append(s.runnable[:i], s.runnable[i+1:]...)
			return
		}
	}
}

func (s *Sim) takeRunnable(i int) *Task {
	t := s.runnable[i]
	s.runnable = append(s.runnable[:i], s.runnable[i+1:]...)
	return t
}

// pickNext chooses the task to run after the current one stopped; it moves the clock when nothing is
// runnable. nil means the run is over.
func (s *Sim) pickNext(from *Task) *Task {
	for {
		if s.finished {
			return nil
		}
		if s.trace.Batch {
			for len(s.timers) > 0 && s.timers[0].at <= s.now {
				s.fire()
				if s.finished {
					return nil
				}
			}
		}
		if n := len(s.runnable); n > 0 {
			i := 0
			if n > 1 {
				if s.cfg.PCT > 0 && s.cfg.Replay == nil {
					for k := 1; k < n; k++ {
						if s.runnable[k].prio > s.runnable[i].prio {
							i = k
						}
					}
					s.record(i)
				} else {
					i = s.choose(n, s.cfg.RandBlock)
				}
			}
			return s.takeRunnable(i)
		}
		if len(s.timers) == 0 {
			s.finish("deadlock", s.Dump(), "")
			return nil
		}
		if s.timers[0].at > s.cfg.MaxNow {
			s.finish("time", s.Dump(), "")
			return nil
		}
		s.fire()
	}
}

func (s *Sim) fire() {
	tm := heap.Pop(&s.timers).(*timer)
	if tm.at > s.now {
		s.now = tm.at
		s.instSteps = 0
		s.instFires = 0
		s.nowCalls = 0
	}
	s.instFires++
	if s.instFires > 1_000_000 {
		s.finish("livelock", "timers fire forever without the clock moving\n"+s.Dump(), "")
		return
	}
	s.ntimer++
	cur := s.cur
	s.cur = nil
	func() {
		defer func() {
			if r := recover(); r != nil {
				s.finish("harness", fmt.Sprint("event: ", r), string(debug.Stack()))
			}
		}()
		tm.fn()
	}()
	s.cur = cur
}

// choose draws (or replays) one decision among n alternatives.
func (s *Sim) choose(n int, random bool) int {
	s.nchoice++
	if s.cfg.Replay != nil {
		v := s.repCho[s.nchoice]
		if v >= n {
			v = n - 1
		}
		if v != 0 {
			s.trace.Choices = append(s.trace.Choices, Choice{s.nchoice, v})
		}
		return v
	}
	if !random {
		return 0
	}
	v := s.rng.Intn(n)
	if v != 0 {
		s.trace.Choices = append(s.trace.Choices, Choice{s.nchoice, v})
	}
	return v
}
func (s *Sim) record(v int) {
	s.nchoice++
	if v != 0 {
		s.trace.Choices = append(s.trace.Choices, Choice{s.nchoice, v})
	}
}

func (s *Sim) drawGap() {
	if s.cfg.Replay != nil {
		if s.repPreI < len(s.repPre) {
			s.nextPre = s.repPre[s.repPreI].Step
		} else {
			s.nextPre = ^uint64(0)
		}
		return
	}
	if s.cfg.MeanGap <= 0 {
		s.nextPre = ^uint64(0)
		return
	}
	g := 1 + s.rng.Intn(2*s.cfg.MeanGap)
	s.nextPre = s.steps + uint64(g)
}

// Y is the pre-emption point the instrumenter puts before every statement.
func Y(site int32) {
	s := S
	if s == nil {
		return
	}
	t := s.cur
	if t == nil {
		return
	}
	t.Site = site
	s.stepPoint(t)
}

// point is a pre-emption point inside the runtime.
func (s *Sim) point() {
	if s.cur != nil {
		s.stepPoint(s.cur)
	}
}

func (s *Sim) stepPoint(t *Task) {
	if t.killed {
		t.kops++
		if t.kops > 1_000_000 {
			panic("rt: killed task does not stop")
		}
		return
	}
	s.steps++
	s.instSteps++
	if s.steps >= s.nextPre {
		s.preempt(t)
		return
	}
	if s.instSteps > s.cfg.MaxInst {
		// that much computing takes time: let a millisecond pass
		s.instSteps = 0
		s.forced++
		s.after(int64(time.Millisecond), t.Lib, func() { s.ready(t) })
		s.block(t, "computing")
		return
	}
	if s.steps > s.cfg.MaxSteps {
		s.finish("steps", s.Dump(), "")
		s.park(t)
	}
}

func (s *Sim) preempt(t *Task) {
	var p Preempt
	n := len(s.runnable)
	if s.cfg.Replay != nil {
		p = s.repPre[s.repPreI]
		s.repPreI++
		s.drawGap()
		if p.Stall == 0 && n == 0 {
			return
		}
		if p.Stall == 0 && p.Idx >= n {
			p.Idx = n - 1
		}
	} else {
		s.drawGap()
		p.Step = s.steps
		if s.cfg.StallProb > 0 && t != s.main && s.rng.Float64() < s.cfg.StallProb {
			p.Stall = s.cfg.StallMin + int64(s.rng.Float64()*float64(s.cfg.StallMax-s.cfg.StallMin))
			if p.Stall <= 0 {
				p.Stall = 1
			}
			if s.cfg.StallSum > 0 {
				if s.stalled+p.Stall > s.cfg.StallSum {
					p.Stall = 0
				} else {
					s.stalled += p.Stall
				}
			}
		}
		if p.Stall == 0 {
			if n == 0 {
				return
			}
			p.Idx = s.rng.Intn(n)
		}
	}
	s.npre++
	s.stallTot += p.Stall
	p.Step = s.steps
	s.trace.Preempts = append(s.trace.Preempts, p)
	if s.cfg.PCT > 0 {
		s.pctLow--
		t.prio = s.pctLow
	}
	if p.Stall > 0 {
		s.nstall++
		if t == s.main {
			return
		}
		s.after(p.Stall, t.Lib, func() { s.ready(t) })
		s.block(t, "stalled")
		return
	}
	t.state = stRunnable
	next := s.takeRunnable(p.Idx)
	s.runnable = append(s.runnable, t)
	s.switchTo(next)
	s.park(t)
}

// after schedules fn on the simulated clock.
func (s *Sim) after(d int64, lib bool, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, fn: fn, gen: s.gen, lib: lib}
	heap.Push(&s.timers, t)
	return t
}
func (s *Sim) stop(t *timer) bool {
	if t.idx < 0 || t.dead {
		return false
	}
	heap.Remove(&s.timers, t.idx)
	t.idx = -1
	t.dead = true
	return true
}

// After schedules a harness event.
func (s *Sim) After(d time.Duration, fn func()) { s.after(int64(d), false, fn) }

// At schedules a harness event at an absolute simulated time.
func (s *Sim) At(at time.Duration, fn func()) { s.after(int64(at)-s.now, false, fn) }

// Now is the simulated time since the start of the run.
func (s *Sim) Now() time.Duration { return time.Duration(s.now) }

// Stalled is the sum of all stalls of tasks so far.
// MayStall tells if tasks may be held up in this run.
func (s *Sim) MayStall() bool { return s.cfg.StallProb > 0 }

func (s *Sim) Stalled() time.Duration { return time.Duration(s.stallTot) }

// Steps so far: the global event sequence number.
func (s *Sim) Steps() uint64 { return s.steps }

// InTask tells whether the caller runs in a task (not in an event).
func (s *Sim) InTask() bool { return s.cur != nil }

// Cur is the running task.
func (s *Sim) Cur() *Task { return s.cur }

// Logf adds to the run's event log (hash always, text only when Log is on). It draws no randomness.
func (s *Sim) Logf(format string, a ...interface{}) {
	m := fmt.Sprintf(format, a...)
	s.logH = fnvs(fnv(s.logH, uint64(s.now)), m)
	if s.cfg.Log {
		who := "event"
		if s.cur != nil {
			who = fmt.Sprintf("t%d", s.cur.ID)
		}
		s.log = append(s.log, fmt.Sprintf("%12.6f %6d %-6s %s", float64(s.now)/1e9, s.steps, who, m))
	}
}

// Dump describes all tasks that are alive.
func (s *Sim) Dump() string {
	var b strings.Builder
	fmt.Fprintf(&b, "t=%v steps=%d\n", time.Duration(s.now), s.steps)
	for _, t := range s.tasks {
		if t.state == stDone {
			continue
		}
		st := "runnable"
		switch t.state {
		case stRunning:
			st = "running"
		case stBlocked:
			st = "blocked on " + t.Blocked + " since " + time.Duration(t.BlockAt).String()
		}
		fmt.Fprintf(&b, "  task %d %s: %s at %s\n", t.ID, t.Name, st, SiteName(t.Site))
	}
	return b.String()
}

// LiveLib counts live tasks of the code under test by the place they were started.
func (s *Sim) LiveLib() map[string]int {
	r := map[string]int{}
	for _, t := range s.tasks {
		if t.Lib && t.state != stDone {
			r[t.Name]++
		}
	}
	return r
}

// killAll unwinds every live task except keep.
func (s *Sim) killAll(keep *Task) {
	cur := s.cur
	s.killing = true
	for _, t := range s.tasks {
		if t == keep || t.state == stDone {
			continue
		}
		s.kill(t)
	}
	s.killing = false
	s.cur = cur
}

func (s *Sim) kill(t *Task) {
	t.killed = true
	s.removeRunnable(t)
	s.cur = t
	select {
	case t.ch <- struct{}{}:
	default:
	}
	<-t.exited
	t.state = stDone
}

// Crash kills every task of the process under test, with all its timers; the caller (a harness task)
// and other harness tasks go on. Nothing but Disk survives.
func (s *Sim) Crash() {
	cur := s.cur
	s.killing = true
	for _, t := range s.tasks {
		if !t.Lib || t.state == stDone || t == cur {
			continue
		}
		s.kill(t)
	}
	s.killing = false
	s.cur = cur
	for _, tm := range append([]*timer(nil), s.timers...) {
		if tm.lib {
			s.stop(tm)
		}
	}
	s.maps = map[uintptr]*mapState{}
	s.gen++
	s.cur = nil
	initGlobals()
	s.cur = cur
}

// CrashSelf is Crash called by a task of the process itself: it does not return.
func (s *Sim) CrashSelf(after func()) {
	t := s.cur
	s.Crash()
	if after != nil {
		s.cur = nil
		after()
		s.cur = t
	}
	if t.Lib {
		t.killed, t.selfKill = true, true
		runtime.Goexit()
	}
}

// resetGlobals makes per-process randomness deterministic.
var resetHooks []func(seed uint64)

type global struct {
	pkg   int
	order int
	f     func()
}

var globals []global
var globalPkgs = map[string]int{}
var globalsSorted bool

// OnGlobal registers the code that gives a package-level variable of the code under test its initial
// value, so that every simulated process starts fresh.
func OnGlobal(pkg string, order int, f func()) {
	n, ok := globalPkgs[pkg]
	if !ok {
		n = len(globalPkgs)
		globalPkgs[pkg] = n
	}
	globals = append(globals, global{n, order, f})
	globalsSorted = false
}

func initGlobals() {
	if !globalsSorted {
		sort.SliceStable(globals, func(i, j int) bool {
			if globals[i].pkg != globals[j].pkg {
				return globals[i].pkg < globals[j].pkg
			}
			return globals[i].order < globals[j].order
		})
		globalsSorted = true
	}
	for _, g := range globals {
		g.f()
	}
}

// OnReset registers a function run at the start of each simulation.
func OnReset(f func(seed uint64)) { resetHooks = append(resetHooks, f) }

func resetGlobals(seed uint64) {
	randSrc = NewRand(seed ^ 0xabcdef12345)
	initGlobals()
	for _, f := range resetHooks {
		f(seed)
	}
}

// Notifier lets harness and runtime code block tasks on conditions.
type Notifier struct{ q []*Task }

// Wait blocks the current task until Wake.
func (n *Notifier) Wait(on string) {
	s := S
	t := s.cur
	if t == nil {
		panic("HarnessBug: wait outside of a task")
	}
	if t.killed {
		runtime.Goexit()
	}
	n.q = append(n.q, t)
	s.block(t, on)
}

// WaitFor is Wait with a limit; it reports false on timeout.
func (n *Notifier) WaitFor(on string, d time.Duration) bool {
	s := S
	t := s.cur
	if t.killed {
		runtime.Goexit()
	}
	n.q = append(n.q, t)
	timedOut := false
	tm := s.after(int64(d), t.Lib, func() {
		for i, x := range n.q {
			if x == t {
				n.q = append(n.q[:i], n.q[i+1:]...)
				timedOut = true
				s.ready(t)
				return
			}
		}
	})
	s.block(t, on)
	s.stop(tm)
	return !timedOut
}

// Wake makes all waiting tasks runnable.
func (n *Notifier) Wake() {
	q := n.q
	n.q = nil
	for _, t := range q {
		S.ready(t)
	}
}

// Rand is splitmix64.
type Rand struct{ x uint64 }

func NewRand(seed uint64) *Rand { return &Rand{seed} }
func (r *Rand) Uint64() uint64 {
	r.x += 0x9e3779b97f4a7c15
	z := r.x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		r.Uint64()
		return 0
	}
	return int(r.Uint64() % uint64(n))
}
func (r *Rand) Float64() float64 { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rand) Bool(p float64) bool {
	return r.Float64() < p
}
func (r *Rand) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.Uint64() >> 32)
	}
	return len(p), nil
}

// Killed tells whether the task's process has crashed.
func (t *Task) Killed() bool { return t.killed }

// Gen is the number of process crashes so far.
func (s *Sim) Gen() int { return s.gen }
