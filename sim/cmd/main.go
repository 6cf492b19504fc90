// Command simbin runs, shrinks and replays simulated executions.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/donnie4w/gofer/verifsim/scen"
	"github.com/donnie4w/gofer/verifsim/sim"
)

func main() {
	debug.SetMaxStack(96 << 20)
	if len(os.Args) < 2 {
		fatal("usage: simbin check|worker|fp|replay|list|one")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "list":
		var l []string
		for k := range scen.All {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	default:
		fatal("unknown command", os.Args[1])
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"simbin:"}, a...)...)
	os.Exit(2)
}

// ------------------------------------------------------------ one run

type runSpec struct {
	Idx   int64        `json:"index"`
	Seed  uint64       `json:"seed"`
	Prog  *scen.Prog   `json:"program"`
	Strat sim.Strategy `json:"strategy"`
}

func propSeed(prop string, seed uint64) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(prop); i++ {
		h = (h ^ uint64(prop[i])) * 1099511628211
	}
	return sim.Mix(seed, h)
}

func spec(s *scen.Scenario, base uint64, idx int64) runSpec {
	sd := sim.Mix(base, uint64(idx)+1)
	r := scen.NewR(sim.Mix(sd, 0xA11CE))
	p := s.Make(r)
	if selfTest {
		p = reduced(s, p, r)
	}
	st, _ := s.Strat(scen.NewR(sim.Mix(sd, 0x57A7)))
	return runSpec{idx, sd, p, st}
}

func exec1(s *scen.Scenario, r runSpec, replay *sim.Trace, trace bool) sim.Outcome {
	cfg := s.Config(r.Seed, r.Strat)
	cfg.Replay = replay
	cfg.Trace = trace
	return s.Exec(r.Prog, cfg)
}

func fingerprint(o *sim.Outcome) string {
	c, m := scen.Class(o)
	return fmt.Sprintf("%x/%d/%d/%d/%s/%s", o.Hash, o.Steps, o.Now, o.Switches, c, m)
}

// ------------------------------------------------------------ known findings

type known struct{ prop, match, text string }

func loadKnown(path, prop string) []known {
	var l []known
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		// finding: property=<id> match=<substring of the report> | <what fails>
		if !strings.HasPrefix(t, "finding:") {
			continue
		}
		t = strings.TrimSpace(strings.TrimPrefix(t, "finding:"))
		head, text, _ := strings.Cut(t, "|")
		pr, m, _ := strings.Cut(head, "match=")
		k := known{strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(pr), "property=")), strings.TrimSpace(m), strings.TrimSpace(text)}
		if k.prop == prop && k.match != "" {
			l = append(l, k)
		}
	}
	return l
}

func isKnown(l []known, cls, msg string) int {
	for i, k := range l {
		if strings.Contains(cls+": "+msg, k.match) {
			return i
		}
	}
	return -1
}

// ------------------------------------------------------------ worker

type workerOut struct {
	Runs       int64            `json:"runs"`
	NonTrivial int64            `json:"nontrivial"`
	Steps      int64            `json:"steps"`
	MaxSteps   int64            `json:"maxsteps"`
	Switches   int64            `json:"switches"`
	SimNS      int64            `json:"simns"`
	Tasks      int64            `json:"tasks"`
	OpsN       int64            `json:"ops"`
	Faults     map[string]int64 `json:"faults"`
	FaultRuns  int64            `json:"faultruns"`
	Probes     map[string]int64 `json:"probes"`
	Strats     map[string]int64 `json:"strats"`
	Known      map[int]int64    `json:"known"`
	KnownEx    map[int]string   `json:"knownex"`
	FP         map[int64]string `json:"fp"`
	Samples    []string         `json:"samples"`
	Viol       *violation       `json:"viol"`
	Last       int64            `json:"last"`
}

type violation struct {
	Spec  runSpec    `json:"spec"`
	Class string     `json:"class"`
	Msg   string     `json:"msg"`
	Trace *sim.Trace `json:"trace"`
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int64("from", 0, "")
	step := fs.Int64("step", 1, "")
	to := fs.Int64("to", 1, "")
	wall := fs.Float64("wall", 60, "")
	outF := fs.String("out", "", "")
	prog := fs.String("progress", "", "")
	stopF := fs.String("stop", "", "")
	knownF := fs.String("known", "", "")
	fps := fs.Int64("fps", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	s := scen.All[*prop]
	if s == nil {
		fatal("no scenario for", *prop)
	}
	kn := loadKnown(*knownF, *prop)
	base := propSeed(*prop, *seed)
	o := &workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Strats: map[string]int64{}, Known: map[int]int64{}, KnownEx: map[int]string{}, FP: map[int64]string{}}
	pf, err := os.OpenFile(*prog, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		fatal(err)
	}
	hf, err := os.Create(*outF + ".hash")
	if err != nil {
		fatal(err)
	}
	hw := bufio.NewWriter(hf)
	seen := map[uint64]bool{}
	t0 := time.Now()
	var pb [8]byte
	n := 0
	for i := *from; i < *to; i += *step {
		binary.LittleEndian.PutUint64(pb[:], uint64(i)+1)
		pf.WriteAt(pb[:], 0)
		n++
		if n%64 == 0 {
			if time.Since(t0).Seconds() > *wall {
				break
			}
			if b, err := os.ReadFile(*stopF); err == nil {
				if v, _ := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64); v < i {
					break
				}
			}
		}
		r := spec(s, base, i)
		out := exec1(s, r, nil, false)
		o.Runs++
		o.Steps += out.Steps
		o.MaxSteps = max(o.MaxSteps, out.Steps)
		o.Switches += out.Switches
		o.SimNS += out.Now
		o.Tasks += int64(out.Tasks)
		o.OpsN += int64(r.Prog.Ops())
		o.Strats[r.Strat.Kind]++
		fr := false
		for k, v := range out.Faults {
			o.Faults[k] += v
			fr = true
		}
		if fr {
			o.FaultRuns++
		}
		for k, v := range out.Probes {
			o.Probes[k] += v
		}
		if out.Switches >= 2 || fr {
			o.NonTrivial++
			ph := uint64(14695981039346656037)
			for _, c := range []byte(r.Prog.String()) {
				ph = (ph ^ uint64(c)) * 1099511628211
			}
			h := sim.Mix(out.Hash, ph)
			if !seen[h] && len(seen) < 4_000_000 {
				seen[h] = true
				binary.Write(hw, binary.LittleEndian, h)
			}
			if len(o.Samples) < 2 {
				o.Samples = append(o.Samples, fmt.Sprintf("run %d seed %d strategy %s: %s => %d steps, %d switches, %d tasks, %.6fs simulated, faults %v", i, r.Seed, r.Strat.Kind, trunc(r.Prog.String(), 700), out.Steps, out.Switches, out.Tasks, float64(out.Now)/1e9, out.Faults))
			}
		}
		if i < *fps {
			o.FP[i] = fingerprint(&out)
		}
		if c, m := scen.Class(&out); c != "" {
			if k := isKnown(kn, c, m); k >= 0 {
				o.Known[k]++
				if o.KnownEx[k] == "" {
					o.KnownEx[k] = trunc(c+": "+m, 300)
				}
				continue
			}
			o.Viol = &violation{r, c, m, out.Trace}
			o.Last = i
			b := []byte(strconv.FormatInt(i, 10))
			if old, err := os.ReadFile(*stopF); err == nil {
				if v, e := strconv.ParseInt(strings.TrimSpace(string(old)), 10, 64); e == nil && v < i {
					b = old
				}
			}
			os.WriteFile(*stopF+".tmp"+strconv.FormatInt(*from, 10), b, 0644)
			os.Rename(*stopF+".tmp"+strconv.FormatInt(*from, 10), *stopF)
			break
		}
	}
	hw.Flush()
	hf.Close()
	b, _ := json.Marshal(o)
	if err := os.WriteFile(*outF, b, 0644); err != nil {
		fatal(err)
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ------------------------------------------------------------ check

type replayFile struct {
	Property string       `json:"property"`
	Class    string       `json:"class"`
	Message  string       `json:"message"`
	Seed     uint64       `json:"seed"`
	Mode     string       `json:"mode"` // trace | seed
	Strategy sim.Strategy `json:"strategy"`
	Program  *scen.Prog   `json:"program"`
	Trace    *sim.Trace   `json:"trace,omitempty"`
	Steps    int64        `json:"steps"`
	Shrink   string       `json:"shrink"`
	Log      []string     `json:"log"`
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	repd := fs.String("replays", "", "")
	work := fs.String("work", "", "")
	knownF := fs.String("known", "", "")
	nruns := fs.Int64("runs", 0, "")
	wallF := fs.Float64("wall", 0, "")
	nw := fs.Int("workers", 8, "")
	fs.Parse(args)
	s := scen.All[*prop]
	if s == nil {
		fatal("no scenario for", *prop)
	}
	t0 := time.Now()
	runs, wall := int64(s.Quick), 40.0
	if *tier == "thorough" {
		runs, wall = int64(s.Thorough), 600
		if runs == 0 {
			runs = int64(s.Quick) * 60
		}
	}
	if *nruns > 0 {
		runs = *nruns
	}
	if *wallF > 0 {
		wall = *wallF
	}
	fmt.Printf("property=%s tier=%s seed=%d runs=%d workers=%d\n", *prop, *tier, *seed, runs, *nw)
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	os.MkdirAll(*work, 0755)
	stop := filepath.Join(*work, "stop")
	os.Remove(stop)
	const fps = 64
	type wk struct {
		cmd  *exec.Cmd
		out  string
		prog string
		err  error
		done chan struct{}
		buf  *strings.Builder
	}
	start := func(i int, from, step, to int64, wall float64) *wk {
		w := &wk{out: filepath.Join(*work, fmt.Sprintf("w%d.json", i)), prog: filepath.Join(*work, fmt.Sprintf("w%d.prog", i)), done: make(chan struct{}), buf: &strings.Builder{}}
		os.Remove(w.out)
		os.Remove(w.prog)
		w.cmd = exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(step), "-to", fmt.Sprint(to),
			"-wall", fmt.Sprint(wall), "-out", w.out, "-progress", w.prog, "-stop", stop, "-known", *knownF, "-fps", fmt.Sprint(fps))
		w.cmd.Stderr = &limitW{b: w.buf}
		if err := w.cmd.Start(); err != nil {
			fatal(err)
		}
		go func() { w.err = w.cmd.Wait(); close(w.done) }()
		return w
	}
	progress := func(w *wk) int64 {
		b, err := os.ReadFile(w.prog)
		if err != nil || len(b) < 8 {
			return 0
		}
		return int64(binary.LittleEndian.Uint64(b))
	}
	// wait for a worker; a run that makes no progress for a long real time is
	// trouble of the machinery, not a verdict
	wait := func(w *wk) {
		last, at := int64(-1), time.Now()
		for {
			select {
			case <-w.done:
				return
			case <-time.After(100 * time.Millisecond):
			}
			if p := progress(w); p != last {
				last, at = p, time.Now()
			} else if time.Since(at) > 90*time.Second {
				w.cmd.Process.Kill()
				fatal("watchdog: run", last-1, "did not finish in 90 s of real time")
			}
		}
	}
	var ws []*wk
	for i := 0; i < *nw; i++ {
		ws = append(ws, start(i, int64(i), int64(*nw), runs, wall))
	}
	tot := &workerOut{Faults: map[string]int64{}, Probes: map[string]int64{}, Strats: map[string]int64{}, Known: map[int]int64{}, KnownEx: map[int]string{}, FP: map[int64]string{}}
	hashes := map[uint64]bool{}
	var viol *violation
	var dead []int64
	for _, w := range ws {
		wait(w)
		b, err := os.ReadFile(w.out)
		if err != nil || w.err != nil {
			dead = append(dead, progress(w)-1)
			fmt.Fprintf(os.Stderr, "worker died at run %d: %v\n%s\n", progress(w)-1, w.err, trunc(w.buf.String(), 1500))
			continue
		}
		o := &workerOut{}
		if err := json.Unmarshal(b, o); err != nil {
			fatal(err)
		}
		tot.Runs += o.Runs
		tot.NonTrivial += o.NonTrivial
		tot.Steps += o.Steps
		tot.MaxSteps = max(tot.MaxSteps, o.MaxSteps)
		tot.Switches += o.Switches
		tot.SimNS += o.SimNS
		tot.Tasks += o.Tasks
		tot.OpsN += o.OpsN
		tot.FaultRuns += o.FaultRuns
		add := func(a, b map[string]int64) {
			for k, v := range b {
				a[k] += v
			}
		}
		add(tot.Faults, o.Faults)
		add(tot.Probes, o.Probes)
		add(tot.Strats, o.Strats)
		for k, v := range o.Known {
			tot.Known[k] += v
			tot.KnownEx[k] = o.KnownEx[k]
		}
		for k, v := range o.FP {
			tot.FP[k] = v
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, o.Samples...)
		}
		if hb, err := os.ReadFile(w.out + ".hash"); err == nil {
			for i := 0; i+8 <= len(hb); i += 8 {
				hashes[binary.LittleEndian.Uint64(hb[i:])] = true
			}
		}
		if o.Viol != nil && (viol == nil || o.Viol.Spec.Idx < viol.Spec.Idx) {
			viol = o.Viol
		}
	}
	os.Remove(stop)
	searchWall := time.Since(t0).Seconds()
	// a worker that died: does the run die by itself, every time?
	for _, d := range dead {
		if viol != nil || d < 0 {
			break
		}
		died := 0
		for k := 0; k < 2; k++ {
			w := start(100, d, 1, d+1, 60)
			wait(w)
			if w.err != nil {
				died++
			}
			os.Remove(stop)
		}
		if died == 2 {
			viol = &violation{spec(s, propSeed(*prop, *seed), d), "process-death", "the Go runtime killed the process (see the log of the check)", nil}
		} else {
			fatal("a worker died at run", d, "but the run alone does not reproduce it")
		}
	}
	// determinism: the same seeds in another process, another worker count
	detN, detBad := 0, ""
	if viol == nil {
		n := min(int64(fps), runs)
		w := start(101, 0, 1, n, 60)
		wait(w)
		os.Remove(stop)
		b, err := os.ReadFile(w.out)
		o := &workerOut{}
		if err != nil || json.Unmarshal(b, o) != nil {
			fatal("determinism check: no result:", w.buf.String())
		}
		for k, v := range o.FP {
			if tv, ok := tot.FP[k]; ok {
				detN++
				if tv != v && detBad == "" {
					detBad = fmt.Sprintf("run %d: %s vs %s", k, tv, v)
				}
			}
		}
	}
	kn := loadKnown(*knownF, *prop)
	var rf *replayFile
	var rpath string
	if viol != nil {
		rf = shrink(s, *prop, viol, time.Now().Add(45*time.Second))
		os.MkdirAll(*repd, 0755)
		rpath = filepath.Join(*repd, *prop+".json")
		b, _ := json.MarshalIndent(rf, "", " ")
		if err := os.WriteFile(rpath, b, 0644); err != nil {
			fatal(err)
		}
	}
	writeEvidence(*evid, s, *prop, *tier, *seed, tot, len(hashes), searchWall, time.Since(t0).Seconds(), detN, viol, rf, kn)
	for i, k := range kn {
		if tot.Known[i] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, k.text, tot.Known[i])
		}
	}
	fmt.Printf("runs=%d distinct=%d steps=%d longest=%d switches=%d simulated=%.3fs faults=%v wall=%.1fs\n", tot.Runs, len(hashes), tot.Steps, tot.MaxSteps, tot.Switches, float64(tot.SimNS)/1e9, tot.Faults, searchWall)
	if viol == nil {
		if detBad != "" {
			fatal("determinism check failed:", detBad)
		}
		if tot.Runs < 1 {
			fatal("no runs")
		}
		fmt.Printf("OK property=%s probes=%v\n", *prop, tot.Probes)
		return
	}
	cmd := exec.Command(self, "replay", rpath)
	ob, err := cmd.CombinedOutput()
	if ee, ok := err.(*exec.ExitError); !ok || (ee.ExitCode() != 1 && rf.Class != "process-death") {
		fmt.Fprintln(os.Stderr, string(ob))
		fatal("the violation does not replay in a fresh process")
	}
	fmt.Printf("%s: %s\n", rf.Class, rf.Message)
	fmt.Printf("program: %s\n", rf.Program)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rpath)
	os.Exit(1)
}

type limitW struct{ b *strings.Builder }

func (l *limitW) Write(p []byte) (int, error) {
	if l.b.Len() < 20000 {
		l.b.Write(p)
	}
	return len(p), nil
}

func writeEvidence(path string, s *scen.Scenario, prop, tier string, seed uint64, t *workerOut, distinct int, sw, wall float64, detN int, v *violation, rf *replayFile, kn []known) {
	if path == "" {
		return
	}
	rule := s.Rule
	if rule == "" {
		rule = "one simulated run per seed: a generated program, scheduling strategy and fault plan"
	}
	rule += "; non-trivial = at least two task switches or one injected fault; distinct by (program, sequence of scheduling decisions with their sites)"
	cov := map[string]any{
		"evaluations":                 t.Runs,
		"distinct_nontrivial":         distinct,
		"nontrivial_runs":             t.NonTrivial,
		"rule":                        rule,
		"samples":                     t.Samples,
		"simulated_runs_per_hour":     int64(float64(t.Runs) / sw * 3600),
		"seeds_per_hour":              int64(float64(t.Runs) / sw * 3600),
		"simulated_seconds":           float64(t.SimNS) / 1e9,
		"scheduling_points":           t.Steps,
		"longest_run_points":          t.MaxSteps,
		"step_bound_per_run":          s.HardMax,
		"task_switches":               t.Switches,
		"tasks_started":               t.Tasks,
		"client_operations":           t.OpsN,
		"faults_injected":             t.Faults,
		"runs_with_faults":            t.FaultRuns,
		"rare_conditions_reached":     t.Probes,
		"strategies":                  t.Strats,
		"determinism_rerun_identical": detN,
		"components_real":             s.Real,
		"components_stubbed":          s.Stub,
		"search_wall_s":               sw,
	}
	nv := 0
	if v != nil {
		nv = 1
		cov["violation"] = map[string]any{"class": rf.Class, "message": trunc(rf.Message, 2000), "seed": v.Spec.Seed, "shrink": rf.Shrink}
	}
	if len(t.Known) > 0 {
		m := map[string]int64{}
		for i, n := range t.Known {
			m[kn[i].text] = n
		}
		cov["known_findings_hit"] = m
	}
	e := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"the translation of the repository's source into simulator calls preserves its meaning (sequentially consistent memory; every shared access, lock, channel, timer and I/O call is one scheduling point)",
			"schedules and faults are sampled, not enumerated",
		},
		"wall_s": wall, "violations": nv,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fatal(err)
	}
}

func replay(args []string) {
	if len(args) < 1 {
		fatal("usage: simbin replay FILE [-v]")
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal(err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fatal(err)
	}
	s := scen.All[rf.Property]
	if s == nil {
		fatal("no scenario for", rf.Property)
	}
	var tr *sim.Trace
	if rf.Mode == "trace" {
		tr = rf.Trace
	}
	out := exec1(s, runSpec{0, rf.Seed, rf.Program, rf.Strategy}, tr, true)
	for _, l := range out.Log {
		fmt.Println("  ", l)
	}
	c, m := scen.Class(&out)
	if c == "" {
		fmt.Println("replay: no violation")
		return
	}
	fmt.Printf("replay: %s: %s\n", c, m)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	os.Exit(1)
}

// one runs a single index with its log (development aid).
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int64("i", 0, "")
	fs.Parse(args)
	s := scen.All[*prop]
	r := spec(s, propSeed(*prop, *seed), *idx)
	fmt.Println(r.Prog)
	fmt.Printf("%+v\n", r.Strat)
	out := exec1(s, r, nil, true)
	for _, l := range out.Log {
		fmt.Println("  ", l)
	}
	c, m := scen.Class(&out)
	fmt.Println(c, m)
	out.Log, out.Trace = nil, nil
	fmt.Printf("%+v\n", out)
}
