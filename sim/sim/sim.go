// Package sim is the deterministic simulator: a cooperative scheduler that
// owns every interleaving, a virtual clock, and the fault decisions. Exactly
// one task runs at any moment; it can lose control only inside this package,
// and who runs next is a pure function of the run's seed (or of the recorded
// choices when replaying).
package sim

import (
	"fmt"
	"iter"
	"math"
	"runtime"
	"sort"
	"strings"
)

// S is the run in progress (nil outside a run: primitives then degrade to
// plain sequential behaviour, which is what package initialisers need).
var S *Sim

type taskState uint8

const (
	stRunnable taskState = iota
	stBlocked
	stDone
)

type Task struct {
	ID     int
	Name   string
	state  taskState
	next   func() (struct{}, bool)
	stop   func()
	yield  func(struct{}) bool
	why    string
	prio   int64
	vc     VC
	daemon bool
	Gen    int // process generation (see Sim.Crash)
	killed bool
	onDone []*Task
	// scheduling
	run int64
}

type abortT struct{}
type goexitT struct{}

// Fatal is an error the Go runtime does not let a program recover from.
type Fatal struct{ Msg string }

func (f Fatal) Error() string { return "fatal error: " + f.Msg }

var abort = abortT{}

// Strategy is how one run's scheduler behaves; drawn per run (swarm).
type Strategy struct {
	Kind    string // walk | pct | sites | fifo
	P       float64
	Depth   int
	SiteP   float64 // chance that a site is in the active subset
	StallP  float64 // chance, per switch decision, that the current task is descheduled for a while
	JumpP   float64 // chance, per switch decision, that the whole process pauses until the next timer
	PctSpan int64
}

type Config struct {
	Seed     uint64
	Strat    Strategy
	SoftMax  int64
	HardMax  int64
	StepNS   int64
	NoStall  bool
	StallMax int // longest stall class (1: 300 ns ... 8: 40 s); 0: all
	VCOn     bool
	Replay   *Trace
	Trace    bool
	NumSites int
}

// Trace is the sparse record of every decision that differs from the default.
type Trace struct {
	Sched [][2]int64            `json:"sched"`         // step -> choice
	Env   map[string][][2]int64 `json:"env,omitempty"` // fault kind -> (n-th question -> answer)
}

type Outcome struct {
	Crash    string // panic or fatal error that would kill the process
	Deadlock string
	Livelock string
	FailCls  string
	FailMsg  string
	Steps    int64
	Now      int64
	Switches int64
	Hash     uint64
	Tasks    int
	Faults   map[string]int64
	Trace    *Trace
	Log      []string
	Probes   map[string]int64
	Notes    []string
}

type timer struct {
	when int64
	seq  int64
	f    func()
	idx  int
	vc   VC
	gen  int
}

type Sim struct {
	cfg      Config
	tasks    []*Task
	runq     []*Task
	Cur      *Task
	nextTask *Task
	steps    int64
	now      int64
	nextEvt  int64
	fairAt   int64
	nextTmr  int64
	timers   []*timer
	tseq     int64
	idle     []idler // tasks waiting for quiescence
	aborting bool
	stopped  bool
	inTimer  *timer
	Gen      int

	rs  Rand // schedule
	env map[string]*envStream

	siteMode bool
	active   []bool
	pctPts   []int64
	lowPrio  int64
	pctCheck bool
	rec      [][2]int64
	rep      [][2]int64
	repPos   int

	out     Outcome
	hash    uint64
	maps    map[uintptr]*mapState
	chans   map[uintptr]*chanState
	pickCnt uint64
	spinAcc int64
	logOn   bool
	Data    map[string]any
	noFault bool
}

type envStream struct {
	n    int64
	rec  [][2]int64
	rep  map[int64]int64
	rng  Rand
	hits int64
}

const (
	maxRun      = 3000
	fairQuantum = 40
)

// Run executes main as task 0 under the configuration and returns what happened.
func Run(cfg Config, main func()) Outcome {
	if S != nil {
		panic("sim: nested run")
	}
	s := &Sim{cfg: cfg, env: map[string]*envStream{}, nextTmr: math.MaxInt64, hash: 14695981039346656037}
	s.maps = map[uintptr]*mapState{}
	s.chans = map[uintptr]*chanState{}
	s.Data = map[string]any{}
	s.out.Faults = map[string]int64{}
	s.out.Probes = map[string]int64{}
	if s.cfg.StepNS == 0 {
		s.cfg.StepNS = 50
	}
	if s.cfg.SoftMax == 0 {
		s.cfg.SoftMax = 60000
	}
	if s.cfg.HardMax == 0 {
		s.cfg.HardMax = 400000
	}
	s.fairAt = s.cfg.SoftMax
	s.rs = NewRand(cfg.Seed ^ 0x9e3779b97f4a7c15)
	s.logOn = cfg.Trace
	if cfg.Replay != nil {
		s.rep = cfg.Replay.Sched
		for k, l := range cfg.Replay.Env {
			e := s.stream(k)
			e.rep = map[int64]int64{}
			for _, p := range l {
				e.rep[p[0]] = p[1]
			}
		}
	} else {
		s.setupStrategy()
	}
	s.planNext()
	S = s
	s.spawn("main", main, false)
	s.loop()
	s.kill(func(t *Task) bool { return true })
	S = nil
	s.out.Steps, s.out.Now, s.out.Hash, s.out.Tasks = s.steps, s.now, s.hash, len(s.tasks)
	tr := &Trace{Sched: s.rec, Env: map[string][][2]int64{}}
	for k, e := range s.env {
		if len(e.rec) > 0 {
			tr.Env[k] = e.rec
		}
	}
	s.out.Trace = tr
	return s.out
}

func (s *Sim) setupStrategy() {
	st := s.cfg.Strat
	switch st.Kind {
	case "sites":
		s.siteMode = true
		n := s.cfg.NumSites + primSites
		s.active = make([]bool, n)
		for i := range s.active {
			s.active[i] = s.rs.Float() < st.SiteP
		}
	case "pct":
		span := st.PctSpan
		if span <= 0 {
			span = 2000
		}
		for i := 0; i < st.Depth; i++ {
			s.pctPts = append(s.pctPts, 1+int64(s.rs.N(int(span))))
		}
		sort.Slice(s.pctPts, func(i, j int) bool { return s.pctPts[i] < s.pctPts[j] })
	}
}

// planNext computes the next step at which Y must take the slow path.
func (s *Sim) planNext() {
	if s.aborting || s.stopped {
		s.nextEvt = 0
		return
	}
	next := int64(math.MaxInt64)
	if s.cfg.Replay != nil {
		for s.repPos < len(s.rep) && s.rep[s.repPos][0] <= s.steps {
			s.repPos++
		}
		if s.repPos < len(s.rep) {
			next = s.rep[s.repPos][0]
		}
	} else if s.steps < s.fairAt {
		switch s.cfg.Strat.Kind {
		case "walk":
			next = s.steps + s.rs.Geom(s.cfg.Strat.P)
		case "pct":
			for len(s.pctPts) > 0 && s.pctPts[0] <= s.steps {
				s.pctPts = s.pctPts[1:]
			}
			if len(s.pctPts) > 0 {
				next = s.pctPts[0]
			}
		}
	}
	if s.Cur != nil {
		q := int64(maxRun)
		if s.steps >= s.fairAt {
			q = fairQuantum
		}
		if lim := s.Cur.run + q; lim < next {
			next = lim
		}
	}
	if s.cfg.HardMax < next {
		next = s.cfg.HardMax
	}
	if s.pctCheck {
		next = s.steps + 1
	}
	if s.steps < s.fairAt && s.fairAt < next {
		next = s.fairAt
	}
	if next <= s.steps {
		next = s.steps + 1
	}
	s.nextEvt = next
}

const primSites = 64

// Y is a scheduling point.
func Y(site int) {
	s := S
	if s == nil {
		return
	}
	s.steps++
	s.now += s.cfg.StepNS
	if s.steps >= s.nextEvt || s.now >= s.nextTmr {
		s.slow(site)
	} else if s.siteMode && s.active[site+primSites] {
		s.slow(site)
	}
}

// yp is Y for the simulator's own primitives (site = small kind number).
func yp(kind int) { Y(kind - primSites) }

// primitive kinds
const (
	pkMutex = iota
	pkUnlock
	pkAtomic
	pkSend
	pkRecv
	pkSelect
	pkClose
	pkGo
	pkSyncMap
	pkPool
	pkTime
	pkIO
	pkWG
	pkCond
	pkOnce
	pkUser
)

// Prim is Y for shadow packages.
func Prim(kind int) { yp(kind) }

const (
	KMutex   = pkMutex
	KUnlock  = pkUnlock
	KAtomic  = pkAtomic
	KSyncMap = pkSyncMap
	KPool    = pkPool
	KTime    = pkTime
	KIO      = pkIO
	KWG      = pkWG
	KCond    = pkCond
	KOnce    = pkOnce
	KUser    = pkUser
)

var stallDur = []int64{300, 3_000, 40_000, 1_000_000, 20_000_000, 600_000_000, 5_000_000_000, 40_000_000_000}

func (s *Sim) slow(site int) {
	if s.inTimer != nil {
		return
	}
	t := s.Cur
	if t == nil {
		return
	}
	if s.aborting || s.stopped || t.killed {
		panic(abort)
	}
	if s.now >= s.nextTmr {
		s.fireTimers()
		if s.stopped {
			panic(abort)
		}
	}
	if s.steps >= s.cfg.HardMax {
		s.out.Livelock = fmt.Sprintf("no progress within %d steps; %s", s.steps, s.describe())
		s.stopNow()
	}
	// replay
	if s.cfg.Replay != nil {
		for s.repPos < len(s.rep) && s.rep[s.repPos][0] < s.steps {
			s.repPos++
		}
		if s.repPos < len(s.rep) && s.rep[s.repPos][0] == s.steps {
			v := s.rep[s.repPos][1]
			s.repPos++
			s.apply(site, v)
			return
		}
		s.fairness(site)
		return
	}
	if s.steps >= s.fairAt {
		s.fairness(site)
		return
	}
	v := int64(0)
	hit := s.steps >= s.nextEvt
	switch s.cfg.Strat.Kind {
	case "walk":
		if hit {
			v = s.randomSwitch()
		}
	case "sites":
		if s.siteMode && s.active[site+primSites] && s.rs.Float() < s.cfg.Strat.P {
			v = s.randomSwitch()
		}
	case "pct":
		if len(s.pctPts) > 0 && s.pctPts[0] <= s.steps {
			s.lowPrio--
			t.prio = s.lowPrio
			v = s.stallOrJump()
			if v == 0 {
				v = s.pctBest(true)
			}
		} else if s.pctCheck {
			v = s.pctBest(true)
		}
		s.pctCheck = false
	}
	if v != 0 {
		s.record(v)
		s.apply(site, v)
		return
	}
	s.fairness(site)
}

// fairness: a task that ran very long without a switch is preempted (also when
// replaying: this is a rule, not a choice), and time speeds up under pure spinning.
func (s *Sim) fairness(site int) {
	t := s.Cur
	ran := s.steps - t.run
	if s.steps >= s.fairAt && ran >= fairQuantum && len(s.runq) > 1 {
		// fair phase: the adversary rests, everybody gets the processor
		s.apply(site, 1)
		return
	}
	if ran >= maxRun {
		if len(s.runq) > 1 {
			if s.cfg.Strat.Kind == "pct" {
				s.lowPrio--
				t.prio = s.lowPrio
			}
			s.apply(site, 1)
			return
		}
		t.run = s.steps
		s.spinAcc++
		if s.nextTmr != math.MaxInt64 && s.spinAcc > 1 {
			if s.nextTmr > s.now {
				s.now = s.nextTmr
			}
			s.fireTimers()
		}
	}
	s.planNext()
}

func (s *Sim) record(v int64) { s.rec = append(s.rec, [2]int64{s.steps, v}) }

func (s *Sim) stallOrJump() int64 {
	st := &s.cfg.Strat
	if s.cfg.NoStall {
		return 0
	}
	if st.StallP > 0 && s.rs.Float() < st.StallP {
		n := len(stallDur)
		if m := s.cfg.StallMax; m > 0 {
			n = m
		}
		return -2 - int64(s.rs.N(n))
	}
	if st.JumpP > 0 && s.nextTmr != math.MaxInt64 && s.rs.Float() < st.JumpP {
		return -1
	}
	return 0
}

func (s *Sim) randomSwitch() int64 {
	if v := s.stallOrJump(); v != 0 {
		return v
	}
	n := len(s.runq)
	if n <= 1 {
		return 0
	}
	return int64(s.rs.N(n)) // 0 = stay
}

// pctBest returns the choice that selects the highest-priority runnable task.
func (s *Sim) pctBest(voluntary bool) int64 {
	best, bi := int64(math.MinInt64), 0
	for i, t := range s.runq {
		if t.prio > best {
			best, bi = t.prio, i
		}
	}
	return int64(bi)
}

// apply a voluntary decision at the current step. runq[0] is the current task.
func (s *Sim) apply(site int, v int64) {
	t := s.Cur
	switch {
	case v == 0:
		s.planNext()
	case v == -1:
		s.out.Faults["pause"]++
		if s.nextTmr != math.MaxInt64 {
			if s.nextTmr > s.now {
				s.now = s.nextTmr
			}
			s.fireTimers()
		}
		s.planNext()
	case v < -1:
		s.out.Faults["stall"]++
		k := int(-2 - v)
		if k >= len(stallDur) {
			k = len(stallDur) - 1
		}
		d := stallDur[k]
		s.note(site, t, nil)
		s.addTimer(s.now+d, func() { s.Ready(t) })
		s.block("stalled")
	default:
		if len(s.runq) <= 1 {
			s.planNext()
			return
		}
		i := int(v)
		if i >= len(s.runq) {
			i = 1 + (i-1)%(len(s.runq)-1)
		}
		n := s.runq[i]
		s.note(site, t, n)
		// rotate: current goes to the tail, n to the head
		copy(s.runq[i:], s.runq[i+1:])
		s.runq = s.runq[:len(s.runq)-1]
		copy(s.runq, s.runq[1:])
		s.runq[len(s.runq)-1] = t
		s.runq = append(s.runq, nil)
		copy(s.runq[1:], s.runq)
		s.runq[0] = n
		s.nextTask = n
		s.switchOut(t)
	}
}

func (s *Sim) note(site int, from, to *Task) {
	h := s.hash
	mix := func(x uint64) { h = (h ^ x) * 1099511628211 }
	mix(uint64(from.ID) + 1)
	mix(uint64(site + primSites + 7))
	if to != nil {
		mix(uint64(to.ID) + 1)
	}
	s.hash = h
	s.out.Switches++
}

func (s *Sim) switchOut(t *Task) {
	if !t.yield(struct{}{}) || t.killed {
		panic(abort)
	}
}

// block parks the current task until Ready.
func (s *Sim) block(why string) {
	t := s.Cur
	if s.inTimer != nil || t == nil {
		panic(Fatal{"sim: blocking operation outside a task: " + why})
	}
	if s.aborting || s.stopped || t.killed {
		panic(abort)
	}
	t.state = stBlocked
	t.why = why
	if len(s.runq) == 0 || s.runq[0] != t {
		s.rmRun(t)
	} else {
		s.runq = s.runq[1:]
	}
	s.nextTask = nil
	s.switchOut(t)
}

// Park blocks the current task; some other party must call Ready on it.
func Park(why string) {
	s := S
	if s == nil {
		panic(Fatal{"sim: would block forever outside a run: " + why})
	}
	s.block(why)
}

func (s *Sim) rmRun(t *Task) {
	for i, x := range s.runq {
		if x == t {
			s.runq = append(s.runq[:i:i], s.runq[i+1:]...)
			return
		}
	}
}

func (s *Sim) Ready(t *Task) {
	if t.state != stBlocked {
		return
	}
	t.state = stRunnable
	t.why = ""
	s.runq = append(s.runq, t)
	if s.cfg.Strat.Kind == "pct" && s.cfg.Replay == nil && s.Cur != nil && t.prio > s.Cur.prio {
		s.pctCheck = true
		s.nextEvt = s.steps + 1
	}
}

func (s *Sim) spawn(name string, fn func(), daemon bool) *Task {
	t := &Task{ID: len(s.tasks), Name: name, Gen: s.Gen, daemon: daemon}
	if s.Cur != nil && s.inTimer == nil {
		t.vc = s.vcFork(s.Cur, t.ID)
	} else if s.inTimer != nil {
		t.vc = s.inTimer.vc.Copy().Set(t.ID, 1)
	}
	if s.cfg.Strat.Kind == "pct" {
		t.prio = 1 + int64(s.rs.N(1<<30))
	}
	t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			r := recover()
			t.state = stDone
			switch v := r.(type) {
			case nil:
			case abortT, goexitT:
			case Fatal:
				if !s.aborting && s.out.Crash == "" {
					s.out.Crash = fmt.Sprintf("task %s: fatal error: %s", t.Name, v.Msg)
					s.stopped = true
				}
			default:
				if !s.aborting && s.out.Crash == "" {
					s.out.Crash = fmt.Sprintf("task %s: panic: %v%s", t.Name, v, stackHint())
					s.stopped = true
				}
			}
		}()
		fn()
	})
	s.tasks = append(s.tasks, t)
	s.runq = append(s.runq, t)
	return t
}

// stackHint names the innermost frames of the code under test.
func stackHint() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var l []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "donnie4w/gofer/") && !strings.Contains(f.Function, "/verifsim/sim") && !strings.Contains(f.Function, "/verifsim/scen") {
			fn := f.Function[strings.Index(f.Function, "gofer/")+6:]
			l = append(l, fn)
			if len(l) >= 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	if len(l) == 0 {
		return ""
	}
	return " [in " + strings.Join(l, " < ") + "]"
}

func (s *Sim) loop() {
	for !s.stopped {
		var t *Task
		if s.nextTask != nil {
			t = s.nextTask
			s.nextTask = nil
		} else {
			if len(s.runq) == 0 {
				if s.advance() {
					continue
				}
				break
			}
			i := 0
			if len(s.runq) > 1 {
				i = s.forcedPick()
			}
			if i != 0 {
				t = s.runq[i]
				copy(s.runq[1:i+1], s.runq[:i])
				s.runq[0] = t
			}
			t = s.runq[0]
			h := (s.hash ^ uint64(t.ID+1)) * 1099511628211
			s.hash = h
		}
		s.Cur = t
		t.run = s.steps
		s.spinAcc = 0
		s.planNext()
		_, more := t.next()
		s.Cur = nil
		if !more || t.state == stDone {
			t.state = stDone
			s.rmRun(t)
			for _, w := range t.onDone {
				s.joinVC(w, t)
				s.Ready(w)
			}
			t.onDone = nil
			if t.ID == 0 {
				s.stopped = true
			}
		}
	}
}

// forcedPick chooses among the runnable tasks when the current one stopped.
func (s *Sim) forcedPick() int {
	s.steps++
	if s.cfg.Replay != nil {
		for s.repPos < len(s.rep) && s.rep[s.repPos][0] < s.steps {
			s.repPos++
		}
		if s.repPos < len(s.rep) && s.rep[s.repPos][0] == s.steps {
			v := s.rep[s.repPos][1]
			s.repPos++
			if v < 0 {
				v = 0
			}
			return int(v) % len(s.runq)
		}
		return 0
	}
	if s.steps >= s.fairAt {
		return 0
	}
	v := int64(0)
	switch s.cfg.Strat.Kind {
	case "pct":
		v = s.pctBest(false)
	case "fifo":
	default:
		v = int64(s.rs.N(len(s.runq)))
	}
	if v != 0 {
		s.record(v)
	}
	return int(v)
}

type idler struct {
	t     *Task
	until int64
}

// advance the clock to the next timer; false when nothing can ever happen.
func (s *Sim) advance() bool {
	if len(s.idle) > 0 {
		first := 0
		for i, w := range s.idle {
			if w.until < s.idle[first].until {
				first = i
			}
		}
		if w := s.idle[first]; len(s.timers) == 0 || s.timers[0].when > w.until {
			s.idle = append(s.idle[:first], s.idle[first+1:]...)
			s.Ready(w.t)
			return true
		}
	}
	if len(s.timers) == 0 {
		if s.tasks[0].state != stDone {
			s.out.Deadlock = s.describe()
		}
		return false
	}
	s.steps++
	if s.steps >= s.cfg.HardMax {
		s.out.Livelock = fmt.Sprintf("no progress within %d steps; %s", s.steps, s.describe())
		s.stopped = true
		return false
	}
	if s.timers[0].when > s.now {
		s.now = s.timers[0].when
	}
	s.fireTimers()
	return true
}

func (s *Sim) describe() string {
	var l []string
	for _, t := range s.tasks {
		if t.state == stBlocked {
			l = append(l, fmt.Sprintf("%s#%d: %s", t.Name, t.ID, t.why))
		} else if t.state == stRunnable {
			l = append(l, fmt.Sprintf("%s#%d: running", t.Name, t.ID))
		}
		if len(l) > 12 {
			l = append(l, "...")
			break
		}
	}
	return strings.Join(l, "; ")
}

func (s *Sim) stopNow() {
	s.stopped = true
	panic(abort)
}

func (s *Sim) kill(sel func(*Task) bool) {
	save := s.aborting
	s.aborting = true
	s.nextEvt = 0
	for i := 0; i < len(s.tasks); i++ {
		t := s.tasks[i]
		if t.state == stDone || !sel(t) {
			continue
		}
		t.killed = true
		cur := s.Cur
		s.Cur = t
		t.stop()
		s.Cur = cur
		t.state = stDone
		s.rmRun(t)
	}
	s.aborting = save
}

// KillGeneration abruptly ends every task of the current process generation
// except the caller (a process crash); later tasks belong to a new generation.
func KillGeneration() {
	s := S
	me := s.Cur
	// deferred functions of killed tasks must not run against the simulated
	// world: every primitive panics while aborting
	s.kill(func(t *Task) bool { return t != me && t.ID != 0 })
	s.timers = nil
	s.nextTmr = math.MaxInt64
	s.idle = nil
	s.Gen++
	s.maps = map[uintptr]*mapState{}
	s.planNext()
}

// ---------------------------------------------------------------- timers

func (s *Sim) addTimer(when int64, f func()) *timer {
	s.tseq++
	t := &timer{when: when, seq: s.tseq, f: f, gen: s.Gen}
	if s.cfg.VCOn && s.Cur != nil && s.inTimer == nil {
		t.vc = s.Cur.vc.Copy()
		s.tick(s.Cur)
	}
	s.timers = append(s.timers, t)
	t.idx = len(s.timers) - 1
	s.up(t.idx)
	s.nextTmr = s.timers[0].when
	return t
}

func (s *Sim) less(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.when != b.when {
		return a.when < b.when
	}
	return a.seq < b.seq
}
func (s *Sim) swap(i, j int) {
	s.timers[i], s.timers[j] = s.timers[j], s.timers[i]
	s.timers[i].idx, s.timers[j].idx = i, j
}
func (s *Sim) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(i, p) {
			return
		}
		s.swap(i, p)
		i = p
	}
}
func (s *Sim) down(i int) {
	n := len(s.timers)
	for {
		l := 2*i + 1
		if l >= n {
			return
		}
		if l+1 < n && s.less(l+1, l) {
			l++
		}
		if !s.less(l, i) {
			return
		}
		s.swap(i, l)
		i = l
	}
}

func (s *Sim) delTimer(t *timer) bool {
	if t.idx < 0 || t.idx >= len(s.timers) || s.timers[t.idx] != t {
		return false
	}
	i := t.idx
	n := len(s.timers) - 1
	if i != n {
		s.swap(i, n)
	}
	s.timers = s.timers[:n]
	if i < n {
		s.up(i)
		s.down(i)
	}
	t.idx = -1
	s.setNextTmr()
	return true
}

func (s *Sim) setNextTmr() {
	if len(s.timers) == 0 {
		s.nextTmr = math.MaxInt64
	} else {
		s.nextTmr = s.timers[0].when
	}
}

func (s *Sim) fireTimers() {
	for len(s.timers) > 0 && s.timers[0].when <= s.now {
		t := s.timers[0]
		s.delTimer(t)
		save := s.inTimer
		s.inTimer = t
		t.f()
		s.inTimer = save
	}
	s.setNextTmr()
}

// Timer is the handle shadow/time builds on.
type Timer struct{ t *timer }

func AddTimer(d int64, f func()) *Timer {
	s := S
	if s == nil {
		panic(Fatal{"sim: timer outside a run"})
	}
	if d < 0 {
		d = 0
	}
	return &Timer{s.addTimer(satAdd(s.now, d), f)}
}

func satAdd(a, b int64) int64 {
	if a > math.MaxInt64/2-b {
		return math.MaxInt64 / 2
	}
	return a + b
}

func (t *Timer) Stop() bool {
	if S == nil || t == nil || t.t == nil {
		return false
	}
	return S.delTimer(t.t)
}

// SpawnFromTimer starts a task (usable from a timer callback).
func SpawnFromTimer(name string, f func()) {
	if S != nil {
		S.spawn(name, f, false)
	}
}

func Now() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

func Step() int64 {
	if S == nil {
		return 0
	}
	return S.steps
}

func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	yp(pkTime)
	if d <= 0 {
		return
	}
	t := s.Cur
	s.addTimer(satAdd(s.now, d), func() { s.Ready(t) })
	s.block("sleep")
}

// ---------------------------------------------------------------- tasks API

// Go is the translation of the go statement.
func Go(f func()) {
	s := S
	if s == nil {
		panic(Fatal{"sim: goroutine outside a run"})
	}
	if s.aborting {
		panic(abort)
	}
	s.spawn("go", f, false)
	yp(pkGo)
}

// Yield is runtime.Gosched: the caller goes to the back of the queue.
func Yield() {
	yp(pkUser)
	s := S
	if s == nil || s.inTimer != nil || s.Cur == nil || len(s.runq) < 2 || s.aborting || s.stopped {
		return
	}
	if s.cfg.Strat.Kind == "pct" {
		s.lowPrio--
		s.Cur.prio = s.lowPrio
	}
	s.apply(pkUser-primSites, 1)
}

func Spawn(name string, f func()) *Task { return S.spawn(name, f, false) }

// Join waits for the tasks to finish.
func Join(ts ...*Task) {
	s := S
	for _, t := range ts {
		for t.state != stDone {
			t.onDone = append(t.onDone, s.Cur)
			s.block("join " + t.Name)
		}
		s.joinVC(s.Cur, t)
	}
}

func (t *Task) Done() bool    { return t.state == stDone }
func (t *Task) Why() string   { return t.why }
func (t *Task) Blocked() bool { return t.state == stBlocked }

// WaitIdle blocks the caller until nothing is runnable and no timer is due
// within d of virtual time from now.
func WaitIdle(d int64) {
	s := S
	s.idle = append(s.idle, idler{s.Cur, satAdd(s.now, d)})
	s.block("waiting for quiescence")
}

// Live returns the tasks that have not finished (other than the caller).
func Live() []*Task {
	var l []*Task
	for _, t := range S.tasks {
		if t.state != stDone && t != S.Cur && t.ID != 0 {
			l = append(l, t)
		}
	}
	return l
}

func Current() *Task {
	if S == nil {
		return nil
	}
	return S.Cur
}

// Rec is the translation of recover(): the simulator's own control panics and
// fatal runtime errors pass through.
func Rec(r any) any {
	switch r.(type) {
	case abortT, goexitT, Fatal:
		panic(r)
	}
	return r
}

func Goexit() { panic(goexitT{}) }

// IsControl tells scenario code (which is not translated) apart.
func IsControl(r any) bool {
	switch r.(type) {
	case abortT, goexitT, Fatal:
		return true
	}
	return false
}

// Fail ends the run with a property violation.
func Fail(class, format string, a ...any) {
	s := S
	if s.aborting {
		panic(abort)
	}
	if s.out.FailCls == "" {
		s.out.FailCls = class
		s.out.FailMsg = fmt.Sprintf(format, a...)
	}
	s.stopped = true
	if s.inTimer == nil && s.Cur != nil {
		panic(abort)
	}
}

func Failed() bool { return S != nil && S.out.FailCls != "" }

func Logf(format string, a ...any) {
	s := S
	if s == nil || !s.logOn || len(s.out.Log) > 4000 {
		return
	}
	n := "-"
	if s.Cur != nil {
		n = fmt.Sprintf("%s#%d", s.Cur.Name, s.Cur.ID)
	}
	s.out.Log = append(s.out.Log, fmt.Sprintf("step=%d t=%dns %s ", s.steps, s.now, n)+fmt.Sprintf(format, a...))
}

func LogOn() bool { return S != nil && S.logOn }

// Probe counts that a rare condition was reached.
func Probe(name string) {
	if S != nil {
		S.out.Probes[name]++
	}
}

// ---------------------------------------------------------------- choices

func (s *Sim) stream(kind string) *envStream {
	e := s.env[kind]
	if e == nil {
		h := uint64(1469598103934665603)
		for i := 0; i < len(kind); i++ {
			h = (h ^ uint64(kind[i])) * 1099511628211
		}
		e = &envStream{rng: NewRand(s.cfg.Seed*0x9E3779B97F4A7C15 + h)}
		s.env[kind] = e
	}
	return e
}

// Choose asks for a fault decision: 0 (no fault) or 1..n-1 with total
// probability p. Recorded; replayable; counted when it fires.
func Choose(kind string, n int, p float64) int {
	s := S
	if s == nil {
		return 0
	}
	e := s.stream(kind)
	e.n++
	if s.cfg.Replay != nil {
		v := int(e.rep[e.n])
		if p <= 0 || n <= 1 || s.noFault || s.steps >= s.fairAt {
			return 0
		}
		if v >= n {
			v = n - 1
		}
		if v > 0 {
			s.out.Faults[kind]++
			Logf("fault %s -> %d", kind, v)
		}
		return v
	}
	if p <= 0 || n <= 1 || s.noFault || s.steps >= s.fairAt {
		return 0
	}
	if e.rng.Float() >= p {
		return 0
	}
	v := 1 + e.rng.N(n-1)
	e.rec = append(e.rec, [2]int64{e.n, int64(v)})
	s.out.Faults[kind]++
	Logf("fault %s -> %d", kind, v)
	return v
}

// Fault counts an environment fault that follows from the set-up (a full disk).
func (s *Sim) Fault(kind string) { s.out.Faults[kind]++ }

// Pick is a nondeterministic pick without a preferred value (map order, select
// order); a pure function of the seed and of how often it was asked.
func Pick(kind string, n int) int {
	if n <= 1 {
		return 0
	}
	s := S
	if s == nil {
		return 0
	}
	return s.stream(kind).rng.N(n)
}

// Addr is the address an object seems to have: like those of a program started
// again and again, they begin with the same one in every process.
func Addr(real uintptr) uintptr {
	if S == nil || real == 0 {
		return real
	}
	m, _ := S.Data["addrs"].(map[uintptr]uintptr)
	if m == nil {
		m = map[uintptr]uintptr{}
		S.Data["addrs"] = m
	}
	if m[real] == 0 {
		m[real] = 0xc000010000 + 0x30*uintptr(len(m))
	}
	return m[real]
}

// NewAddrs forgets the addresses, as a new process does.
func NewAddrs() {
	if S != nil {
		delete(S.Data, "addrs")
	}
}

func Rand64(kind string) uint64 {
	s := S
	if s == nil {
		globalRand++
		return mix64(globalRand * 0x9E3779B97F4A7C15)
	}
	return s.stream(kind).rng.U64()
}

var globalRand uint64

// NoFaults switches fault decisions off (the healing phase of a run).
func NoFaults(off bool) { S.noFault = off }

// Calm also ends scheduling adversity: from here on every task gets a fair share.
func Calm() {
	s := S
	if s.steps < s.fairAt {
		s.fairAt = s.steps
	}
	s.siteMode = false
	s.planNext()
}
