// Package scen holds the workloads and oracles: one Scenario per property. A
// program is generated from a seed, executed under the simulator, and judged
// while it runs and over its recorded history.
package scen

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	shttp "github.com/donnie4w/gofer/verifsim/shadow/http"
	sos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/sim"
	"github.com/donnie4w/gofer/verifsim/simmeta"
)

// Op is one client operation.
type Op struct {
	K string  `json:"k"`
	A []int64 `json:"a,omitempty"`
	S string  `json:"s,omitempty"`
}

func (o Op) G(i int) int64 {
	if i < len(o.A) {
		return o.A[i]
	}
	return 0
}

func (o Op) String() string {
	var b strings.Builder
	b.WriteString(o.K)
	if len(o.A) > 0 || o.S != "" {
		b.WriteByte('(')
		for i, a := range o.A {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprint(&b, a)
		}
		if o.S != "" {
			fmt.Fprintf(&b, "%q", o.S)
		}
		b.WriteByte(')')
	}
	return b.String()
}

// Prog is a generated program: parameters and the operations of each client task.
type Prog struct {
	P map[string]int64 `json:"params"`
	T [][]Op           `json:"tasks"`
	N *Prog            `json:"neighbour,omitempty"` // an independent program of the same kind run at the same time
}

func (p *Prog) G(k string) int64 { return p.P[k] }

func (p *Prog) Clone() *Prog {
	b, _ := json.Marshal(p)
	q := &Prog{}
	json.Unmarshal(b, q)
	return q
}

func (p *Prog) Ops() int {
	n := 0
	for _, t := range p.T {
		n += len(t)
	}
	if p.N != nil {
		n += p.N.Ops()
	}
	return n
}

// Parts are the program and its neighbour.
func (p *Prog) Parts() []*Prog {
	if p.N == nil {
		return []*Prog{p}
	}
	return []*Prog{p, p.N}
}

func (p *Prog) String() string {
	var ks []string
	for k := range p.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, p.P[k])
	}
	for i, t := range p.T {
		fmt.Fprintf(&b, "| T%d:", i)
		for _, o := range t {
			b.WriteByte(' ')
			b.WriteString(o.String())
		}
	}
	if p.N != nil {
		b.WriteString(" || beside: " + p.N.String())
	}
	return b.String()
}

// R is the generator's random source.
type R struct{ sim.Rand }

func NewR(seed uint64) *R { return &R{sim.NewRand(seed)} }

// In returns lo..hi inclusive.
func (r *R) In(lo, hi int64) int64 { return lo + int64(r.N(int(hi-lo+1))) }
func (r *R) P(p float64) bool      { return r.Float() < p }
func (r *R) Of(v ...int64) int64   { return v[r.N(len(v))] }

// W picks an index with the given weights.
func (r *R) W(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// Scenario decides one property.
type Scenario struct {
	ID       string
	Title    string
	Gen      func(r *R) *Prog
	Run      func(p *Prog)
	NoStall  bool // never deschedule tasks for long or pause the process (upper bounds on timing)
	StallMax int  // see sim.Config
	NoVC     bool
	Twin     int                // one run in so many has a neighbour: an independent program on objects of its own
	Alone    func(p *Prog) bool // programs that cannot have or be a neighbour
	SoftMax  int64
	HardMax  int64
	StepNS   int64
	Fifo     float64 // share of runs with plain round-robin scheduling
	Stall    float64 // share of runs with stalls/pauses (default 0.15)
	// Deadlocks and step-bound excesses count as violations unless set
	Min             map[string]int64 // lowest value parameter shrinking may try
	Keep            []string         // parameters never shrunk
	Rule            string
	Real            []string
	Stub            []string
	Quick, Thorough int // number of runs
}

var All = map[string]*Scenario{}

func Reg(s *Scenario) *Scenario {
	if All[s.ID] != nil {
		panic("duplicate scenario " + s.ID)
	}
	All[s.ID] = s
	return s
}

// Strat draws the run's scheduling strategy (swarm).
func (s *Scenario) Strat(r *R) (sim.Strategy, string) {
	var st sim.Strategy
	if r.P(s.Fifo) {
		st = sim.Strategy{Kind: "fifo"}
		return st, "fifo"
	}
	switch r.W(50, 25, 25) {
	case 0:
		st.Kind = "walk"
		st.P = []float64{0.01, 0.03, 0.06, 0.12, 0.25, 0.5}[r.N(6)]
	case 1:
		st.Kind = "sites"
		st.SiteP = []float64{0.01, 0.03, 0.08, 0.2}[r.N(4)]
		st.P = []float64{0.15, 0.4, 0.8}[r.N(3)]
	default:
		st.Kind = "pct"
		st.Depth = 1 + r.N(5)
		st.PctSpan = []int64{120, 300, 700, 1500, 4000}[r.N(5)]
	}
	share := s.Stall
	if share == 0 {
		share = 0.15
	}
	if !s.NoStall && r.P(share) {
		st.StallP = []float64{0.02, 0.1, 0.3}[r.N(3)]
		st.JumpP = []float64{0, 0.05, 0.2}[r.N(3)]
	}
	return st, st.Kind
}

// Make generates a program.
func (s *Scenario) Make(r *R) *Prog {
	p := s.Gen(r)
	if s.Twin == 0 || r.N(s.Twin) > 0 || s.Alone != nil && s.Alone(p) {
		return p
	}
	// what instances share they mostly share with others of their type
	alike := func(a, b *Prog) bool { return a.G("kt") == b.G("kt") && a.G("any") == b.G("any") }
	fit := func(n *Prog) bool { // the weakened hash is the process's
		return n.G("weak") == p.G("weak") && (s.Alone == nil || !s.Alone(n))
	}
	n := s.Gen(r)
	for i := 0; i < 12 && !alike(p, n) || i < 200 && !fit(n); i++ {
		n = s.Gen(r)
	}
	if !fit(n) {
		return p
	}
	p.N = n
	p.N.P["second"] = 1
	return p
}

func (s *Scenario) Config(seed uint64, st sim.Strategy) sim.Config {
	return sim.Config{Seed: seed, Strat: st, SoftMax: s.SoftMax, HardMax: s.HardMax, StepNS: s.StepNS,
		NoStall: s.NoStall, StallMax: s.StallMax, VCOn: !s.NoVC, NumSites: len(simmeta.Sites)}
}

func init() { sos.OnCrash = simmeta.ResetAll }

// Exec performs one run.
func (s *Scenario) Exec(p *Prog, cfg sim.Config) sim.Outcome {
	sim.SiteNames = simmeta.Sites
	shttp.SimReset()
	q := p.Clone()
	if q.N != nil && q.G("weak") != q.N.G("weak") { // a reduced program
		q.N.P["weak"] = q.G("weak")
	}
	return sim.Run(cfg, func() {
		simmeta.ResetAll()
		if q.N == nil {
			s.Run(q)
			return
		}
		sim.Join(sim.Spawn("first", func() { s.Run(q) }), sim.Spawn("second", func() { s.Run(q.N) }))
	})
}

// Class summarises how a run failed ("" when it did not).
func Class(o *sim.Outcome) (class, msg string) {
	switch {
	case o.FailCls != "":
		return o.FailCls, o.FailMsg
	case o.Crash != "":
		return "crash", o.Crash
	case o.Deadlock != "":
		return "deadlock", "nothing can run any more: " + o.Deadlock
	case o.Livelock != "":
		return "no-progress", o.Livelock
	}
	return "", ""
}

// Tasks runs the program's client tasks concurrently and waits for all.
func Tasks(p *Prog, f func(ti int, ops []Op)) {
	sim.Join(Start(p, f)...)
}

func Start(p *Prog, f func(ti int, ops []Op)) []*sim.Task {
	var ts []*sim.Task
	for i := range p.T {
		i := i
		ts = append(ts, sim.Spawn(fmt.Sprintf("T%d", i), func() { f(i, p.T[i]) }))
	}
	return ts
}

// Try runs f and reports a panic of the code under test.
func Try(f func()) (pv any) {
	defer func() {
		if r := recover(); r != nil {
			if sim.IsControl(r) {
				panic(r)
			}
			pv = r
		}
	}()
	f()
	return nil
}

// Must fails the run when f panics.
func Must(what string, f func()) {
	if pv := Try(f); pv != nil {
		sim.Fail("panic", "%s panicked: %v", what, pv)
	}
}

func logf(f string, a ...any) { sim.Logf(f, a...) }

// work is n scheduling points of client code; sleepMS moves virtual time.
func work(n int64) {
	for i := int64(0); i < n; i++ {
		sim.Prim(sim.KUser)
	}
}

func sleepMS(n int64) {
	if n > 0 {
		sim.Sleep(n * 1e6)
	}
}

const ms = int64(1e6)

// Keep remembers results that belong to the caller; Check fails if one has
// changed since it was returned.
type Keep struct {
	what   []string
	b, was [][]byte
}

func (k *Keep) Add(what string, b []byte) {
	k.what, k.b, k.was = append(k.what, what), append(k.b, b), append(k.was, append([]byte(nil), b...))
}

func (k *Keep) Check() {
	for i, b := range k.b {
		if string(b) != string(k.was[i]) {
			sim.Fail("aliased", "the %d bytes that %s returned (or was given) have changed since", len(b), k.what[i])
		}
	}
}

// Spoil overwrites bytes that the caller owns, as a caller reusing its buffer
// does.
func Spoil(b []byte) {
	for i := range b {
		b[i] ^= 0x5A
	}
}
