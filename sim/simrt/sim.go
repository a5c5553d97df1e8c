// Package simrt is the deterministic scheduler: tasks (goroutines parked and released one at a
// time), simulated time, and the choice source that decides everything.
package simrt

import (
	"container/heap"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

// Proc is a simulated operating-system process.
type Proc struct {
	Name     string
	IP       string
	Harness  bool // part of the test harness: a panic in it is a harness error
	Crashed  bool
	CrashMsg string
	Exited   bool
	ExitCode int
	Stdout   []byte
	Stderr   []byte
	Dead     bool
	OnDeath  []func()
	Env      map[string]any
}

// G is a simulated task.
type G struct {
	ID     int
	Name   string
	Proc   *Proc
	Parent *G
	Tag    int // inherited by child tasks; set by the world (e.g. session number)
	wake   chan struct{}
	deadCh chan struct{}
	killed bool
	dead   bool
	onRunq bool
	gen    uint64 // park generation: stale wake-ups are ignored
	why    string
	site   uint32
}

type timer struct {
	at   int64
	seq  uint64
	f    func()
	idx  int
	dead bool
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x any)   { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() any {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	t.idx = -1
	return t
}

// Violation of a property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	Now   int64  `json:"sim_time_ns"`
	Step  int64  `json:"step"`
}

// Sim is one simulated execution.
type Sim struct {
	Src         *Src
	now         int64
	cur         *G
	runq        []*G
	timers      timerHeap
	seq         uint64
	nextG       int
	gs          []*G
	steps       int64
	lastBudget  int64
	MaxSteps    int64
	preemptMean int
	slack       int64 // simulated time that passed while some task was computing
	MaxSlack    int64
	noPreempt   bool
	quiet       int
	done        chan struct{}
	root        *G
	ended       bool
	Status      string // "ok", "deadlock", "steps"
	HarnessErr  string
	Switches    int64
	Preempts    int64
	ilHash      uint64
	evHash      uint64
	Violations  []Violation
	Probes      map[string]int64
	Faults      map[string]int64
	Verbose     bool
	Trace       []string
	chans       map[uintptr]*chanState
	cleanup     bool
	post        bool
	Values      map[string]any
	SiteName    func(uint32) string
	idle        []*Waiter
	Distinct    map[uint64]struct{} // world-defined state measure

	// tasks held just before they use a package variable, until another one is about to use it too
	racers    []racer
	raceMean  int
	raceIn    int
	raceTicks int // timers fired since the last task was held
	slackMax  int64
}

type racer struct {
	m     any // the map it is about to use
	write bool
	g     *G
	v     uint32
	till  int64
}

var active *Sim
var budget int64 = math.MaxInt64

const holdSteps = 200_000 // how long a task is held at most

const dyingBudget = 1_000_000

// Active returns the running simulation, or nil.
func Active() *Sim { return active }

// Config of a run.
type Config struct {
	MaxSteps    int64
	PreemptMean int // mean number of preemption points between preemptions; 0: never
	Verbose     bool
	SiteName    func(uint32) string
	RaceMean    int   // mean number of uses of changing package variables between two at which a task is held; 0: never
	SlackStep   int64 // how far time may go on at once while a task is computing
	MaxSlack    int64 // and in all
}

// Run executes root as the first task and returns when it returns (or nothing can proceed).
func Run(src *Src, cfg Config, root func(*Sim)) *Sim {
	if active != nil {
		panic("simrt: nested Run")
	}
	s := &Sim{Src: src, MaxSteps: cfg.MaxSteps, done: make(chan struct{}, 1), Probes: map[string]int64{}, Faults: map[string]int64{},
		Verbose: cfg.Verbose, chans: map[uintptr]*chanState{}, Values: map[string]any{}, SiteName: cfg.SiteName, preemptMean: cfg.PreemptMean, MaxSlack: 2e9,
		raceMean: cfg.RaceMean, slackMax: 50e6,
		Distinct: map[uint64]struct{}{}}
	if cfg.SlackStep > 0 {
		s.slackMax, s.MaxSlack = cfg.SlackStep, cfg.MaxSlack
	}
	if s.raceMean > 0 {
		s.raceIn = 1 + s.Src.S.N1(2*s.raceMean)
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 20_000_000
	}
	s.ilHash, s.evHash = 1469598103934665603, 1469598103934665603
	active = s
	harness := &Proc{Name: "harness", IP: "10.9.9.9", Harness: true}
	g := s.newG(harness, nil, "root", func() {
		root(s)
		if s.Status == "" {
			s.Status = "ok"
		}
		s.finish()
	})
	s.root = g
	s.removeRunq(g)
	s.cur = g
	s.rebudget()
	g.wake <- struct{}{}
	<-s.done
	// unwind all remaining tasks
	s.cleanup = true
	for _, g := range s.gs {
		if !g.dead {
			s.kill(g)
		}
	}
	s.accountSteps()
	budget = math.MaxInt64
	s.lastBudget = budget
	active = nil
	s.post = true
	return s
}

// finish ends the simulation; called on the stack of some task, which then must unwind.
func (s *Sim) finish() {
	if !s.ended {
		s.ended = true
		s.done <- struct{}{}
	}
}

func (s *Sim) newG(p *Proc, parent *G, name string, fn func()) *G {
	s.nextG++
	g := &G{ID: s.nextG, Name: name, Proc: p, Parent: parent, wake: make(chan struct{}, 1), deadCh: make(chan struct{}, 1)}
	if parent != nil {
		g.Tag = parent.Tag
	}
	s.gs = append(s.gs, g)
	s.enq(g)
	go func() {
		<-g.wake
		defer s.gexit(g)
		defer func() {
			if r := recover(); r != nil {
				s.onPanic(g, r)
			}
		}()
		if g.killed {
			return
		}
		fn()
	}()
	return g
}

func (s *Sim) enq(g *G) {
	if g.onRunq || g.dead {
		return
	}
	g.onRunq = true
	s.runq = append(s.runq, g)
}

func (s *Sim) removeRunq(g *G) {
	for i, x := range s.runq {
		if x == g {
			s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			break
		}
	}
	g.onRunq = false
}

// Done reports whether the task has ended.
func (g *G) Done() bool { return g.dead }

// Current returns the running task.
func Current() *G {
	if active == nil {
		return nil
	}
	return active.cur
}

// Dying reports whether the current task is being unwound (its process was killed or the run ended).
func Dying() bool { return active == nil || active.cur == nil || active.cur.killed }

func (s *Sim) gexit(g *G) {
	g.dead = true
	if g.killed {
		g.deadCh <- struct{}{}
		return
	}
	if s.ended {
		// the run is over; Run() takes it from here
		return
	}
	if g == s.root {
		s.finish()
		return
	}
	next := s.pick()
	if next == nil {
		s.Status = "deadlock"
		s.finish()
		return
	}
	s.switchTo(next)
}

func (s *Sim) switchTo(g *G) {
	s.cur = g
	s.Switches++
	s.ilHash = (s.ilHash ^ uint64(g.ID)<<32 ^ uint64(g.site)) * 1099511628211
	g.wake <- struct{}{}
}

func (s *Sim) onPanic(g *G, r any) {
	if g.killed {
		return
	}
	msg := fmt.Sprintf("%v", r)
	st := string(debug.Stack())
	if g.Proc.Harness {
		if s.HarnessErr == "" {
			s.HarnessErr = msg + "\n" + st
		}
		s.Status = "harness"
		s.finish()
		return
	}
	if s.Verbose {
		s.trace(fmt.Sprintf("[%s] PANIC in %s/%s: %s\n%s", s.stamp(), g.Proc.Name, g.Name, msg, trimStack(st)))
	}
	g.Proc.CrashMsg = msg + " @ " + panicSite(st)
	g.Proc.Crashed = true
	s.killProc(g.Proc, g)
}

func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "\t") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "/sim/") {
			f := strings.TrimSpace(l)
			if i := strings.IndexByte(f, ' '); i > 0 {
				f = f[:i]
			}
			return f
		}
	}
	return "?"
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// kill unwinds a parked task synchronously.
func (s *Sim) kill(g *G) {
	if g.dead || g.killed {
		return
	}
	g.killed = true
	prev, pb := s.cur, budget
	s.cur = g
	s.removeRunq(g)
	budget = dyingBudget
	g.wake <- struct{}{}
	<-g.deadCh
	s.cur = prev
	budget = pb
}

// killProc ends a process: every task of it but self is unwound; then the death hooks run.
func (s *Sim) killProc(p *Proc, self *G) {
	if p.Dead {
		return
	}
	p.Dead = true
	s.Event("procdeath", p.Name)
	for _, g := range s.gs {
		if g.Proc == p && g != self {
			s.kill(g)
		}
	}
	for _, f := range p.OnDeath {
		f()
	}
}

// KillProc crashes a process from outside (caller must be a task of another process).
func (s *Sim) KillProc(p *Proc) { s.killProc(p, s.cur) }

// Exit ends the calling task's process.
func Exit(code int) {
	if Dying() {
		runtime.Goexit()
	}
	s := active
	g := s.cur
	g.Proc.Exited = true
	g.Proc.ExitCode = code
	s.Event("exit", g.Proc.Name, code)
	s.killProc(g.Proc, g)
	runtime.Goexit()
}

// LiveTasks counts the live tasks of a process.
func (s *Sim) LiveTasks(p *Proc) int {
	n := 0
	for _, g := range s.gs {
		if g.Proc == p && !g.dead {
			n++
		}
	}
	return n
}

// TaskDump describes live tasks of a process.
func (s *Sim) TaskDump(p *Proc) string {
	var b strings.Builder
	for _, g := range s.gs {
		if g.Proc == p && !g.dead {
			fmt.Fprintf(&b, "%s#%d[%s] ", g.Name, g.ID, g.why)
		}
	}
	return b.String()
}

// TagDump describes live tasks of a process with a tag.
func (s *Sim) TagDump(p *Proc, tag int) string {
	var b strings.Builder
	for _, g := range s.gs {
		if g.Proc == p && !g.dead && g.Tag == tag {
			fmt.Fprintf(&b, "%s#%d[%s] ", g.Name, g.ID, g.why)
		}
	}
	return b.String()
}

// Spawn starts a task in process p.
func (s *Sim) Spawn(p *Proc, name string, fn func()) *G {
	return s.newG(p, s.cur, name, fn)
}

// SpawnTagged starts a task with its own tag.
func (s *Sim) SpawnTagged(p *Proc, name string, tag int, fn func()) *G {
	g := s.newG(p, s.cur, name, fn)
	g.Tag = tag
	return g
}

// Now is the simulated time in nanoseconds since the start of the run.
func (s *Sim) Now() int64   { return s.now }
func (s *Sim) Steps() int64 { return s.steps + (s.lastBudget - budget) }

// After schedules f to run (in scheduler context: it must not block) d nanoseconds from now.
func (s *Sim) After(d int64, f func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	t := &timer{at: s.now + d, seq: s.seq, f: f}
	heap.Push(&s.timers, t)
	return t
}

// Cancel removes a timer; it reports whether it was pending.
func (s *Sim) Cancel(t *timer) bool {
	if t == nil || t.idx < 0 || t.dead {
		return false
	}
	t.dead = true
	heap.Remove(&s.timers, t.idx)
	return true
}

// Timer is a handle for After.
type Timer = timer

func (s *Sim) fireNext() {
	t := heap.Pop(&s.timers).(*timer)
	t.dead = true
	if t.at > s.now {
		s.now = t.at
	}
	t.f()
}

// pick chooses the next task to run, advancing time as needed; nil if nothing can ever run.
func (s *Sim) pick() *G {
	for len(s.runq) == 0 {
		if len(s.racers) > 0 {
			if s.raceTicks++; s.raceTicks < 200 && len(s.timers) > 0 && s.timers[0].at-s.now <= s.slackMax && s.slack < s.MaxSlack {
				s.slack += s.timers[0].at - s.now
			} else {
				s.releaseRacers(func(racer) bool { return true })
				continue
			}
		}
		if len(s.timers) == 0 {
			if len(s.idle) > 0 {
				w := s.idle
				s.idle = nil
				for _, x := range w {
					x.Ready()
				}
				continue
			}
			return nil
		}
		s.steps++
		if s.steps > s.MaxSteps {
			s.Status = "steps"
			return nil
		}
		s.fireNext()
	}
	i := 0
	if len(s.runq) > 1 && !s.noPreempt {
		i = s.Src.S.N(len(s.runq))
	}
	g := s.runq[i]
	s.removeRunq(g)
	return g
}

// park suspends the current task until it is made runnable again.
func (s *Sim) park(why string) {
	g := s.cur
	if g.killed {
		return
	}
	g.why = why
	next := s.pick()
	if next == nil {
		if s.Status == "" {
			s.Status = "deadlock"
		}
		s.finish()
		<-g.wake
		s.resumeCheck(g)
		return
	}
	if next != g {
		s.switchTo(next)
		<-g.wake
	}
	g.why = ""
	s.resumeCheck(g)
}

func (s *Sim) resumeCheck(g *G) {
	if g.killed {
		runtime.Goexit()
	}
}

func (s *Sim) accountSteps() {
	s.steps += s.lastBudget - budget
	s.lastBudget = budget
}

func (s *Sim) rebudget() {
	rem := s.MaxSteps - s.steps
	b := rem
	if s.preemptMean > 0 && !s.noPreempt && s.quiet == 0 {
		v := s.Src.S.N1(2*s.preemptMean + 1)
		if v == 0 {
			s.noPreempt = true
		} else if int64(v) < b {
			b = int64(v)
		}
	}
	if len(s.racers) > 0 {
		b = min(b, holdSteps)
	}
	if b < 0 {
		b = 0
	}
	budget = b
	s.lastBudget = b
}

// releaseRacers lets held tasks go on.
func (s *Sim) releaseRacers(f func(racer) bool) {
	var keep []racer
	for _, r := range s.racers {
		if r.g.dead || r.g.killed {
			continue
		}
		if f(r) {
			s.enq(r.g)
		} else {
			keep = append(keep, r)
		}
	}
	s.racers = keep
}

// Sh is a preemption point before a use of package variable v, which some function changes. Now and then the task
// is held here until another task is about to use the same variable, so that the two uses meet.
func Sh(site, v uint32) {
	if s := active; s != nil && s.raceMean > 0 {
		s.race(site, v, nil, false)
	}
	Y(site)
}

// Map is a point at a use of a map that other tasks may see. The task may be held here; if another task then comes to
// use the same map, and at least one of them writes, the two uses meet, which the Go runtime answers by ending the program.
func Map(site uint32, f func() any, write bool) {
	s := active
	if s == nil || s.raceMean == 0 || s.cur == nil || s.cur.killed || s.ended || s.quiet > 0 {
		return
	}
	m := mapOf(f)
	if m == nil {
		return
	}
	id := reflect.ValueOf(m).Pointer()
	for _, r := range s.racers {
		if r.m != nil && !r.g.dead && !r.g.killed && (r.write || write) && r.g.Proc == s.cur.Proc && reflect.ValueOf(r.m).Pointer() == id {
			panic(fmt.Sprintf("fatal error: concurrent map use: %s at %s, %s at %s", r.g.Name, s.site(r.g.site), s.cur.Name, s.site(site)))
		}
	}
	s.cur.site = site
	s.race(site, 0, m, write)
}

func mapOf(f func() any) (m any) {
	defer func() { recover() }()
	if m = f(); m == nil || reflect.ValueOf(m).Kind() != reflect.Map || reflect.ValueOf(m).IsNil() {
		m = nil
	}
	return m
}

func (s *Sim) race(site, v uint32, m any, write bool) {
	g := s.cur
	if g == nil || g.killed || s.ended || s.noPreempt || s.quiet > 0 {
		return
	}
	met := false
	if len(s.racers) > 0 {
		s.accountSteps()
		s.releaseRacers(func(r racer) bool {
			if r.v == v && v != 0 {
				met = true
			}
			return r.v == v && v != 0 || s.steps > r.till
		})
	}
	if met {
		s.preempt(site)
		return
	}
	if s.raceIn--; s.raceIn > 0 {
		return
	}
	s.raceIn = s.Src.S.N1(2*s.raceMean + 1)
	if s.raceIn == 0 {
		s.raceMean = 0
		return
	}
	if len(s.runq) == 0 && (len(s.timers) == 0 || s.timers[0].at-s.now > s.slackMax || s.slack >= s.MaxSlack) {
		return
	}
	s.accountSteps()
	s.raceTicks = 0
	budget = min(budget, holdSteps)
	s.lastBudget = budget
	s.racers = append(s.racers, racer{g: g, v: v, till: s.steps + holdSteps, m: m, write: write})
	if s.Verbose {
		s.trace(fmt.Sprintf("[%s] hold %s at %s", s.stamp(), g.Name, s.site(site)))
	}
	s.Probe("tasks held at package variables")
	s.park("held before a package variable")
}

// Y is a preemption point.
func Y(site uint32) {
	budget--
	if budget < 0 {
		yslow(site)
	}
}

func yslow(site uint32) {
	s := active
	if s != nil && s.cur != nil && s.cur.killed {
		// a deferred function of an unwinding task that does not come to an end
		budget = dyingBudget
		runtime.Goexit()
	}
	if s == nil || s.cur == nil || s.ended {
		budget = math.MaxInt64
		return
	}
	s.accountSteps()
	if s.steps > s.MaxSteps {
		s.Status = "steps"
		if s.Verbose {
			s.trace(fmt.Sprintf("[%s] step budget exhausted in %s at %s", s.stamp(), s.cur.Name, s.site(site)))
		}
		s.finish()
		g := s.cur
		<-g.wake
		s.resumeCheck(g)
		return
	}
	s.cur.site = site
	if len(s.racers) > 0 {
		s.releaseRacers(func(r racer) bool { return s.steps > r.till })
	}
	s.preempt(site)
	s.rebudget()
}

func (s *Sim) site(id uint32) string {
	if s.SiteName != nil {
		return s.SiteName(id)
	}
	return fmt.Sprint(id)
}

func (s *Sim) preempt(site uint32) {
	if s.noPreempt || s.quiet > 0 {
		return
	}
	g := s.cur
	for tries := 0; tries < 4; tries++ {
		n := len(s.runq)
		alts := 1 + n
		if len(s.timers) > 0 && s.timers[0].at-s.now <= s.slackMax && s.slack < s.MaxSlack {
			alts++
		}
		if alts == 1 {
			return
		}
		c := s.Src.S.N(alts)
		if c == 0 {
			return
		}
		if c <= n {
			next := s.runq[c-1]
			s.removeRunq(next)
			s.Preempts++
			if s.Verbose {
				s.trace(fmt.Sprintf("[%s] preempt %s at %s -> %s", s.stamp(), g.Name, s.site(site), next.Name))
			}
			s.enq(g)
			s.switchTo(next)
			<-g.wake
			s.resumeCheck(g)
			return
		}
		// let time pass while this task is still computing
		s.slack += s.timers[0].at - s.now
		s.fireNext()
	}
}

// Quiet runs fn without preemption (program initialisation).
func (s *Sim) Quiet(fn func()) {
	s.accountSteps()
	s.quiet++
	s.rebudget()
	fn()
	s.accountSteps()
	s.quiet--
	s.rebudget()
}

// Yield is an explicit preemption point for simulated primitives.
func Yield() { Y(0) }

// Point forces a scheduling decision (used at blocking primitives).
func Point() {
	s := active
	if s == nil || s.cur == nil || s.cur.killed || s.ended {
		return
	}
	Y(1)
}

// Sleep suspends the current task for d nanoseconds of simulated time.
func Sleep(d int64) {
	s := active
	if s == nil || Dying() {
		return
	}
	w := s.NewWaiter("sleep")
	s.After(d, w.Ready)
	w.Wait()
}

// WaitIdle suspends the current task until no task can run and no timer is pending.
func (s *Sim) WaitIdle() {
	w := s.NewWaiter("idle")
	s.idle = append(s.idle, w)
	w.Wait()
}

// A Waiter is one suspension of one task.
type Waiter struct {
	s     *Sim
	g     *G
	why   string
	fired bool
	inst  bool
	Val   any
	OK    bool
	Idx   int
}

// NewWaiter prepares to suspend the current task.
func (s *Sim) NewWaiter(why string) *Waiter { return &Waiter{s: s, g: s.cur, why: why} }

// Wait suspends until Ready is called (returns at once if it already was).
func (w *Waiter) Wait() {
	if w.fired {
		return
	}
	w.inst = true
	w.s.park(w.why)
}

// Ready makes the task runnable; only the first call counts. It reports nothing.
func (w *Waiter) Ready() {
	if w.fired {
		return
	}
	w.fired = true
	if w.inst && !w.g.dead {
		w.s.enq(w.g)
	}
}

// Fired reports whether Ready was called; Dead whether its task is gone.
func (w *Waiter) Fired() bool { return w.fired }
func (w *Waiter) Gone() bool  { return w.g.dead || w.g.killed }

// WaitQ is a FIFO queue of suspended tasks.
type WaitQ struct{ ws []*Waiter }

// Wait suspends the current task until woken, or until d ns have passed if d >= 0.
// It reports false on timeout.
func (q *WaitQ) Wait(why string, d int64) bool {
	s := active
	if s == nil || Dying() {
		return true
	}
	w := s.NewWaiter(why)
	w.OK = true
	q.ws = append(q.ws, w)
	var t *timer
	if d >= 0 {
		t = s.After(d, func() {
			if !w.fired {
				w.OK = false
				w.Ready()
			}
		})
	}
	w.Wait()
	if t != nil {
		s.Cancel(t)
	}
	if !w.OK {
		for i, x := range q.ws {
			if x == w {
				q.ws = append(q.ws[:i:i], q.ws[i+1:]...)
				break
			}
		}
	}
	return w.OK
}

// WakeOne wakes the longest waiting task; it reports whether there was one.
func (q *WaitQ) WakeOne() bool {
	for len(q.ws) > 0 {
		w := q.ws[0]
		q.ws = q.ws[1:]
		if w.fired || w.Gone() {
			continue
		}
		w.Ready()
		return true
	}
	return false
}

// WakeAll wakes every waiting task.
func (q *WaitQ) WakeAll() {
	for q.WakeOne() {
	}
}

// Len counts waiting tasks.
func (q *WaitQ) Len() int { return len(q.ws) }

// Logging, hashing, measures. None of these draws choices.

// trace notes a line of the trace. A run that will not end would fill the memory with its trace: of a long one the
// middle is dropped.
func (s *Sim) trace(line string) {
	if len(s.Trace) >= 1<<16 {
		const head, tail = 2000, 8000
		s.Trace = append(s.Trace[:head], append([]string{"... lines omitted ..."}, s.Trace[len(s.Trace)-tail:]...)...)
		clear(s.Trace[len(s.Trace):cap(s.Trace)])
	}
	if len(line) > 4000 {
		line = line[:4000] + "..."
	}
	s.Trace = append(s.Trace, line)
}

func (s *Sim) stamp() string { return fmt.Sprintf("%d.%06dms", s.now/1e6, s.now%1e6) }

// Event adds to the event hash (and the trace).
func (s *Sim) Event(kind string, args ...any) {
	h := s.evHash
	mix := func(str string) {
		for i := 0; i < len(str); i++ {
			h = (h ^ uint64(str[i])) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	mix(kind)
	h = (h ^ uint64(s.now)) * 1099511628211
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = (h ^ uint64(v)) * 1099511628211
		case int64:
			h = (h ^ uint64(v)) * 1099511628211
		case uint64:
			h = (h ^ v) * 1099511628211
		case bool:
			if v {
				h = (h ^ 1) * 1099511628211
			} else {
				h = (h ^ 2) * 1099511628211
			}
		case string:
			mix(v)
		case []byte:
			mix(string(v))
		case error:
			if v != nil {
				mix(v.Error())
			}
		case nil:
			h = (h ^ 3) * 1099511628211
		default:
			mix(fmt.Sprint(a))
		}
	}
	s.evHash = h
	if s.Verbose {
		who := ""
		if s.cur != nil {
			who = s.cur.Name
		}
		parts := make([]string, len(args))
		for i, a := range args {
			switch v := a.(type) {
			case []byte:
				if len(v) > 48 {
					parts[i] = fmt.Sprintf("%q...(%d bytes)", v[:32], len(v))
				} else {
					parts[i] = fmt.Sprintf("%q", v)
				}
			case string:
				parts[i] = fmt.Sprintf("%q", v)
			default:
				parts[i] = fmt.Sprint(a)
			}
		}
		s.trace(fmt.Sprintf("[%s] %s: %s %s", s.stamp(), who, kind, strings.Join(parts, " ")))
	}
}

// Hash identifies the event history of the run.
func (s *Sim) Hash() uint64 { return Mix(s.evHash, s.ilHash, uint64(s.now), uint64(s.steps)) }

// Interleaving identifies the sequence of task switches.
func (s *Sim) Interleaving() uint64 { return s.ilHash }

// State records a world-defined abstract state for the coverage measure.
func (s *Sim) State(vals ...uint64) { s.Distinct[Mix(vals...)] = struct{}{} }

// Probe counts that a rare condition was reached.
func (s *Sim) Probe(name string) { s.Probes[name]++ }

// Fault counts an injected fault that actually fired.
func (s *Sim) Fault(name string) { s.Faults[name]++ }

// Tracef adds a line to the trace (verbose runs only).
func (s *Sim) Tracef(f string, a ...any) {
	if s.Verbose {
		s.trace(fmt.Sprintf("[%s] "+f, append([]any{s.stamp()}, a...)...))
	}
}

// Violate records a violation.
func (s *Sim) Violate(prop, class, f string, a ...any) {
	if s.cleanup && !s.post {
		return
	}
	msg := fmt.Sprintf(f, a...)
	s.Event("VIOLATION", prop, class)
	s.Tracef("VIOLATION %s/%s: %s", prop, class, msg)
	if len(s.Violations) < 64 {
		s.Violations = append(s.Violations, Violation{prop, class, msg, s.now, s.Steps()})
	}
}

// ViolateFirst records a violation ahead of those already recorded.
func (s *Sim) ViolateFirst(prop, class, f string, a ...any) {
	n := len(s.Violations)
	s.Violate(prop, class, f, a...)
	if k := len(s.Violations); k > n {
		v := s.Violations[n]
		copy(s.Violations[1:], s.Violations[:n])
		s.Violations[0] = v
	}
}

// Cleaning reports that the run is over and tasks are being unwound.
func (s *Sim) Cleaning() bool { return s.cleanup || s.ended }

// SortedKeys of a counter map.
func SortedKeys(m map[string]int64) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Print is the builtin of that name: it writes to the process's standard error.
func Print(a ...any) {
	g := Current()
	if g == nil || Dying() || len(g.Proc.Stderr) >= 1<<16 {
		return
	}
	for _, x := range a {
		g.Proc.Stderr = append(g.Proc.Stderr, fmt.Sprint(x)...)
	}
}

// Println is the builtin of that name.
func Println(a ...any) { Print(fmt.Sprintln(a...)) }

// Missing is the panic of a call to a function that has no body and no simulation.
type Missing struct{ Name string }

// NotSimulated panics.
func NotSimulated(name string) { panic(Missing{name}) }
