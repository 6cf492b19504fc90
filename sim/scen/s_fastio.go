package scen

import (
	"bytes"
	"os"

	"github.com/donnie4w/gofer/fastio"
	sos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// fioW is one write of a fastio run.
type fioW struct {
	data     []byte
	sync     bool
	inv, ret int64
	off      int64
	err      error
	n        int
}

func fioName(p *Prog) string {
	if p.G("second") > 0 {
		return "/work/log2"
	}
	return "/work/log"
}

func fioOpen(p *Prog, init []byte) fastio.File {
	fs := sos.TheFS()
	name := fioName(p)
	if len(init) > 0 {
		fs.Plant(name, init)
	}
	var f fastio.File
	var err error
	if p.G("open") == 0 {
		f, err = fastio.Open(name)
	} else {
		var h *sos.File
		h, err = sos.OpenFile(name, os.O_RDWR|os.O_CREATE, 0666)
		if err == nil {
			f, err = fastio.New(h)
		}
	}
	if err != nil {
		sim.Fail("open", "opening the file: %v", err)
	}
	return f
}

// fioExplain checks that file = init + pieces, where every write that reported
// success appears whole exactly once (WriteSync at its offset), and what is
// left are prefixes of failed writes. Payloads begin with distinct bytes.
func fioExplain(file, init []byte, ws []*fioW, when string) map[*fioW]int64 {
	if !bytes.HasPrefix(file, init) {
		sim.Fail("content", "%s: the bytes the file began with are gone", when)
	}
	at := map[*fioW]int64{}
	byID := map[byte]*fioW{}
	for _, w := range ws {
		if len(w.data) > 0 {
			byID[w.data[0]] = w
		}
	}
	pos := int64(len(init))
	for pos < int64(len(file)) {
		w := byID[file[pos]]
		if w == nil {
			sim.Fail("content", "%s: byte %d of the file belongs to no write (torn or interleaved)", when, pos)
		}
		if _, dup := at[w]; dup {
			sim.Fail("content", "%s: write %d is in the file twice", when, w.data[0])
		}
		at[w] = pos
		k := int64(0)
		for k < int64(len(w.data)) && pos+k < int64(len(file)) && file[pos+k] == w.data[k] {
			k++
		}
		if k < int64(len(w.data)) && w.ret > 0 && w.err == nil {
			sim.Fail("content", "%s: only %d of the %d bytes of write %d, which reported success, are in place at %d", when, k, len(w.data), w.data[0], pos)
		}
		if k < int64(len(w.data)) && w.ret == 0 && pos+k < int64(len(file)) {
			sim.Fail("content", "%s: write %d is interrupted after %d bytes by other data at %d", when, w.data[0], k, pos+k)
		}
		if w.ret > 0 && w.err != nil && k == int64(len(w.data)) {
			sim.Probe("error-but-written")
		}
		pos += k
	}
	for _, w := range ws {
		if w.ret == 0 || w.err != nil || len(w.data) == 0 {
			continue
		}
		p, ok := at[w]
		if !ok {
			sim.Fail("lost", "%s: write %d (%d bytes) returned without error but is not in the file", when, w.data[0], len(w.data))
		}
		if w.sync && w.off != p {
			sim.Fail("offset", "%s: WriteSync of %d bytes reported offset %d but the data is at %d", when, len(w.data), w.off, p)
		}
	}
	for a, pa := range at {
		for b, pb := range at {
			if a.ret > 0 && a.err == nil && b.inv > a.ret && pb < pa {
				sim.Fail("order", "%s: write %d began after write %d had returned but precedes it in the file", when, b.data[0], a.data[0])
			}
		}
	}
	return at
}

func fioRun(p *Prog, mode string) {
	fs := sos.TheFS()
	name := fioName(p)
	if p.G("second") == 0 {
		fs.ChunkP = float64(p.G("chunk")) / 100
	} else if mode == "faults" { // the faults are the first program's
		mode = "offsets"
	}
	init := pat(99, p.G("init"))
	f := fioOpen(p, init)
	var ws []*fioW
	var clock int64
	tick := func() int64 { clock++; return clock }
	id := byte(0)
	do := func(o Op, ti int) {
		id++
		d := pat(int64(id)+p.G("salt"), o.G(0))
		if len(d) > 0 {
			d[0] = id
		}
		for i := 1; i < len(d); i++ { // never continues like another payload would begin
			d[i] |= 0x80
		}
		w := &fioW{data: append([]byte(nil), d...), sync: o.K == "sync"}
		if len(d) > 0 {
			ws = append(ws, w)
		}
		w.inv = tick()
		Must(o.K, func() {
			if w.sync {
				w.off, w.err = f.WriteSync(d)
			} else {
				w.n, w.err = f.Write(d)
			}
		})
		w.ret = tick()
		if w.err == nil && !w.sync && w.n != len(d) {
			sim.Fail("count", "Write of %d bytes returned %d without an error", len(d), w.n)
		}
		if w.err != nil && mode != "faults" && mode != "close" {
			sim.Fail("error", "%s failed without any fault: %v", o.K, w.err)
		}
		if w.err != nil {
			sim.Probe("write-error")
		}
		logf("T%d %s #%d len %d -> off %d n %d err %v", ti, o.K, id, len(d), w.off, w.n, w.err)
		for i := range d {
			d[i] = 0xEE // the caller re-uses its slice
		}
		if w.err == nil && w.sync && len(d) > 0 && mode != "close" {
			got := make([]byte, len(d))
			n, err := f.ReadAt(got, w.off)
			if err == nil && (n != len(d) || !bytes.Equal(got, w.data)) {
				sim.Fail("read-back", "ReadAt(%d) right after WriteSync reported that offset gives other bytes", w.off)
			}
			if err != nil {
				sim.Fail("read-back", "ReadAt(%d, %d bytes) right after WriteSync: %v", w.off, len(d), err)
			}
		}
		if w.err == nil && !w.sync && len(d) > 0 {
			if !bytes.Contains(peek(name), w.data) {
				sim.Fail("lost", "Write of %d bytes returned without error but the file does not hold them", len(d))
			}
		}
	}
	// side is a call that must not disturb what is written
	patched := map[int64]bool{}
	side := func(o Op) {
		switch o.K {
		case "readat":
			var l []*fioW
			for _, w := range ws {
				if w.ret > 0 && w.err == nil && w.sync {
					l = append(l, w)
				}
			}
			if len(l) == 0 {
				return
			}
			w := l[o.G(0)%int64(len(l))]
			got := make([]byte, len(w.data))
			n, err := f.ReadAt(got, w.off)
			if err != nil || n != len(got) || !bytes.Equal(got, w.data) {
				sim.Fail("read-back", "ReadAt(%d, %d bytes) gives %d bytes and %v, not what WriteSync put there", w.off, len(got), n, err)
			}
		case "read":
			Must("Read", func() { f.Read(make([]byte, 1+o.G(0))) })
		case "writeat":
			at := o.G(0) * 10
			if patched[at] || at+10 > int64(len(init)) {
				return
			}
			patched[at] = true
			d := pat(200+o.G(0), 10)
			n, err := f.WriteAt(append([]byte(nil), d...), at)
			switch {
			case p.G("open") != 0 && (err != nil || n != len(d)):
				sim.Fail("error", "WriteAt inside the file: %d, %v", n, err)
			case err == nil:
				copy(init[at:], d)
			}
		}
	}
	if mode == "faults" {
		fs.Match = func(s string) bool { return s == name }
		fs.P["eio-write"] = float64(p.G("eio")) / 100
		fs.P["enospc"] = float64(p.G("nospc")) / 100
		fs.P["short-write"] = float64(p.G("short")) / 100
		if c := p.G("cap"); c > 0 && p.N == nil {
			fs.Cap = int64(len(init)) + c
		}
	}
	if mode == "crash" {
		ts := Start(p, func(ti int, ops []Op) {
			for _, o := range ops {
				work(o.G(1))
				do(o, ti)
			}
		})
		work(p.G("when"))
		_ = ts
		sim.KillGeneration()
		fs.ProcessCrash()
		sim.Probe("crash")
		fioExplain(peek(name), init, ws, "after the process died")
		return
	}
	Tasks(p, func(ti int, ops []Op) {
		for _, o := range ops {
			work(o.G(1))
			if ns := o.G(2); ns > 0 {
				sim.Sleep(ns)
			}
			if o.K == "close" {
				Must("Close", func() { f.Close() })
				continue
			}
			if o.K == "read" || o.K == "readat" || o.K == "writeat" {
				side(o)
				continue
			}
			do(o, ti)
		}
	})
	if mode == "faults" {
		sim.Calm()
		fs.Cap = 0
		for k := range fs.P {
			delete(fs.P, k)
		}
		before := len(ws)
		var ts []*sim.Task
		for i := int64(0); i < 2+p.G("after"); i++ {
			i := i
			ts = append(ts, sim.Spawn("after", func() {
				for j := int64(0); j < 1+p.G("again"); j++ {
					do(Op{K: "sync", A: []int64{12 + i + j}}, 10)
					do(Op{K: "write", A: []int64{20 + i + j}}, 10)
				}
			}))
		}
		sim.Join(ts...)
		for _, w := range ws[before:] {
			if w.err != nil {
				sim.Fail("stuck-error", "a write fails although the disk works again: %v", w.err)
			}
		}
	}
	if mode != "close" {
		Must("Close", func() {
			if err := f.Close(); err != nil {
				sim.Fail("error", "Close: %v", err)
			}
		})
	}
	sim.WaitIdle(10_000 * ms)
	fioExplain(peek(name), init, ws, "at the end")
}

func init() {
	gen := func(mode string) func(r *R) *Prog {
		return func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"open": int64(r.N(2)), "init": r.Of(0, 0, 1, 100, 5000), "salt": int64(r.N(100)), "chunk": r.Of(0, 0, 30)}}
			big := r.P(0.2)
			lo := int64(0)
			if mode == "faults" {
				lo = 3
				switch r.N(3) {
				case 0:
					p.P["eio"] = r.Of(5, 20, 50)
				case 1:
					p.P["nospc"] = r.Of(5, 20, 50)
				}
				p.P["short"] = r.Of(0, 10, 30)
				p.P["after"], p.P["again"] = r.Of(0, 1, 2, 6), r.Of(0, 0, 1, 3)
				if r.P(0.2) {
					p.P["cap"] = r.Of(10, 60, 200)
				}
			}
			nt, no := 2+r.N(4), 4
			huge := false
			switch r.N(150) {
			case 0, 1:
				nt, no, big = 9, 10, false
			case 2:
				nt, no, big = 1, 90, r.P(0.3)
			case 3:
				huge, nt, no = true, 1+r.N(3), 3
			}
			idle := r.P(0.2)
			others := mode == "offsets" && r.P(0.3)
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := "sync"
				if mode != "offsets" && r.P(0.5) || mode == "offsets" && r.P(0.25) {
					k = "write"
				}
				n := r.Of(1, 2, 3, 10, 40)
				if r.P(0.05) {
					n = 0
				}
				if big {
					n = r.Of(10, 1000, 3000, 4095, 4096, 4097, 9000)
				}
				if huge {
					n = r.Of(5, 9000, 16384, 32769, 65535, 65536, 65537, 131073, 300000, 1<<20+3)
				}
				o := Op{K: k, A: []int64{max(n, lo), r.Of(0, 0, 0, 3, 12)}}
				if others && r.P(0.3) {
					o.K, o.A[0] = []string{"readat", "read", "writeat"}[r.N(3)], int64(r.N(20))
				}
				if idle && r.P(0.4) {
					o.A = append(o.A, r.Of(1, 500, 999, 1000, 1001, 1500, 2500, ms, 1000*ms, 3600_000*ms))
				}
				return o
			})
			if mode == "crash" {
				p.P["when"] = r.In(5, 400)
			}
			if mode == "close" {
				p.T = append(p.T, []Op{{K: "close", A: []int64{0, r.In(0, 120)}}})
			}
			return p
		}
	}
	real := []string{"fastio", "bufio as shipped"}
	stub := []string{"file system (page cache, positions, O_APPEND, short writes)", "mutex, channels, timers"}
	rule := "2-5 tasks x 1-4 writes (rarely 9 x 10, or one task x 45-90) of 0-9000 bytes (rarely up to 1 MB) and pauses of a nanosecond to an hour through one File (opened fresh, with earlier content, appending or not), caller's slices overwritten after each call; "
	sub := func(modes ...string) (func(r *R) *Prog, func(p *Prog)) {
		return func(r *R) *Prog {
				k := r.N(len(modes))
				p := gen(modes[k])(r)
				p.P["mode"] = int64(k)
				return p
			}, func(p *Prog) {
				fioRun(p, modes[p.G("mode")])
			}
	}
	g, rn := sub("plain", "plain", "crash", "close")
	Reg(&Scenario{ID: "C19", Title: "fastio loses, repeats and interleaves nothing", Twin: 10, Alone: func(p *Prog) bool { return p.G("when") > 0 }, Quick: 150000, StallMax: 4, HardMax: 10000000, SoftMax: 100000,
		Rule: rule + "half of the runs complete, the others kill the process or Close the file in the middle; the file must be the start content followed by whole payloads in an order consistent with real time, with every write that returned success in it",
		Real: real, Stub: stub, Keep: []string{"mode"}, Gen: g, Run: rn})
	g, rn = sub("offsets")
	Reg(&Scenario{ID: "C20", Title: "WriteSync offsets", Twin: 10, Quick: 150000, StallMax: 4, HardMax: 10000000, SoftMax: 100000,
		Rule: rule + "each WriteSync result read back at once and compared with the final file; in three runs of ten with ReadAt of any earlier WriteSync, Read, and WriteAt over the earlier content in between",
		Real: real, Stub: stub, Keep: []string{"mode"}, Gen: g, Run: rn})
	g, rn = sub("faults")
	Reg(&Scenario{ID: "C21", Title: "fastio reports write errors to the right caller and recovers", Twin: 10, Quick: 150000, StallMax: 4, HardMax: 10000000, SoftMax: 100000,
		Rule: rule + "with failing, short and no-space writes; a write that reports success must be whole in the file (at its offset), one that failed may leave a prefix; once faults stop, writing works again with right offsets",
		Real: real, Stub: stub, Keep: []string{"mode"}, Gen: g, Run: rn})
}

func peek(name string) []byte {
	b, _ := sos.TheFS().Peek(name)
	return b
}
