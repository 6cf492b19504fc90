package scen

import (
	"bytes"
	"fmt"
	"os"

	"github.com/donnie4w/gofer/mmap"
	sos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/sim"
)

// mmW is one write of a mapped-file run: n bytes of value id at off.
type mmW struct {
	id        int
	off, n    int64
	call, ret int
	ok, sync  bool
}

// mpat is byte i of the data of write id; no byte of a write is 0.
func mpat(id int, i int64) byte { return byte(1 + (int64(id)*7+i*31+i>>9)%255) }

// has tells whether byte b of the file may come from the write.
func (w *mmW) has(b int64, v byte) bool {
	if w.off >= 0 {
		return w.off <= b && b < w.off+w.n && mpat(w.id, b-w.off) == v
	}
	for i := int64(0); i < w.n; i++ { // an append that did not return
		if mpat(w.id, i) == v {
			return true
		}
	}
	return false
}

func mmapRun(p *Prog, durable bool) {
	fs := sos.TheFS()
	size, start := p.G("size"), p.G("start")
	name := "/work/map"
	if p.G("second") > 0 {
		name = "/work/map2"
	}
	fs.Plant(name, make([]byte, size))
	open := func() (*sos.File, *mmap.Mmap) {
		f, err := sos.OpenFile(name, os.O_RDWR, 0)
		if err != nil {
			sim.Fail("harness", "open: %v", err)
		}
		var m *mmap.Mmap
		Must("NewMMAP", func() { m, err = mmap.NewMMAP(f, start) })
		if err != nil {
			sim.Fail("open", "NewMMAP(%d) of a %d byte file: %v", start, size, err)
		}
		return f, m
	}
	if !durable {
		f, _ := sos.OpenFile(name, os.O_RDWR, 0)
		Must("NewMMAP", func() {
			if _, err := mmap.NewMMAP(f, size); err == nil {
				sim.Fail("open", "NewMMAP with the start at the end of the file succeeds")
			}
			if _, err := mmap.NewMMAP(f, -1-size/2); err == nil {
				sim.Fail("open", "NewMMAP with a negative start succeeds")
			}
			fs.Plant("/work/empty", nil)
			e, _ := sos.OpenFile("/work/empty", os.O_RDWR, 0)
			if _, err := mmap.NewMMAP(e, 0); err == nil {
				sim.Fail("open", "NewMMAP of an empty file succeeds")
			}
		})
	}
	file, m := open()
	if m.FileSize() != size || int64(len(m.Bytes())) != size {
		sim.Fail("size", "FileSize %d, mapped %d, file %d", m.FileSize(), len(m.Bytes()), size)
	}
	h := &Hist{}
	var ws []*mmW
	var mustSurvive []*mmW
	id := 0
	if durable {
		fs.P["eio-msync"] = float64(p.G("eio")) / 100
	}
	body := func(ti int, ops []Op) {
		for _, o := range ops {
			work(o.G(2))
			if o.K == "flush" {
				var done []*mmW
				for _, w := range ws {
					if w.ret > 0 && w.ok {
						done = append(done, w)
					}
				}
				err := m.Flush()
				if err == nil {
					mustSurvive = append(mustSurvive, done...)
				}
				continue
			}
			id++
			data := make([]byte, o.G(0))
			for i := range data {
				data[i] = mpat(id, int64(i))
			}
			w := &mmW{id: id, n: o.G(0), off: -1}
			ws = append(ws, w)
			var err error
			switch o.K {
			case "append", "appendsync":
				hop := h.Call(ti, "append", o.G(0))
				w.call = hop.Call
				Must(o.K, func() {
					if o.K == "append" {
						w.off, err = m.Append(data)
					} else {
						w.off, err = m.AppendSync(data)
						w.sync = true
					}
				})
				switch {
				case err == nil:
					h.Ret(hop, w.off)
				case w.sync && durable:
					h.Ret(hop, -2) // the data may or may not be in place
				default:
					h.Ret(hop, -1)
				}
				w.ret = hop.Ret
				if err == nil && (w.off < start || w.off+w.n > size) {
					sim.Fail("bounds", "%s of %d bytes went to %d, outside %d..%d", o.K, w.n, w.off, start, size)
				}
			default:
				hop := h.Call(ti, "writeat", o.G(0), o.G(1))
				w.off = o.G(1)
				if w.off < 0 || w.off > 1<<62 {
					w.n = 0 // to be refused, checked by the model
				}
				w.call = hop.Call
				Must(o.K, func() {
					if o.K == "writeat" {
						err = m.WriteAt(data, int(o.G(1)))
					} else {
						err = m.WriteAtSync(data, int(o.G(1)))
						w.sync = true
					}
				})
				switch {
				case err == nil:
					h.Ret(hop, 0)
				case w.sync && durable:
					h.Ret(hop, -2)
				default:
					h.Ret(hop, -1)
				}
				w.ret = hop.Ret
			}
			for i := range data { // the caller's slice is the caller's again
				data[i] = 0
			}
			w.ok = err == nil
			if w.ok && w.sync {
				mustSurvive = append(mustSurvive, w)
			}
			if w.ok {
				sim.Probe("write-ok")
			} else {
				sim.Probe("write-refused")
			}
		}
	}
	// cover lists what byte b may hold given the writes (all), -1 = start content
	check := func(data []byte, when string, need []*mmW) {
		for _, w := range need {
			for b := w.off; b < w.off+w.n; b++ {
				if data[b] == mpat(w.id, b-w.off) {
					continue
				}
				good := false
				for _, x := range ws {
					if (x.ret == 0 || x.ret > w.call) && x.has(b, data[b]) {
						good = true
						break
					}
				}
				if !good {
					sim.Fail("content", "%s: byte %d holds %d instead of the %d that write %d(%d bytes at %d) put there", when, b, data[b], mpat(w.id, b-w.off), w.id, w.n, w.off)
				}
			}
		}
	}
	if !durable {
		Tasks(p, body)
		got := append([]byte(nil), m.Bytes()...)
		var ok []*mmW
		for _, w := range ws {
			if w.ok {
				ok = append(ok, w)
			}
		}
		check(got, "at the end", ok)
		for b, v := range got {
			if v == 0 {
				continue
			}
			good := false
			for _, w := range ok {
				good = good || w.has(int64(b), v)
			}
			if !good {
				sim.Fail("content", "byte %d holds %d, which no successful write put there", b, v)
			}
		}
		Linear("reservation", h, Model{Init: start, Key: func(s any) string { return fmt.Sprint(s) }, Step: func(s any, o *HOp) (any, bool) {
			off := s.(int64)
			if o.Name == "append" {
				if off+o.In[0] > size {
					return off, o.Out[0] == -1
				}
				return off + o.In[0], o.Out[0] == off
			}
			if o.In[1] < 0 || o.In[1] > size-o.In[0] {
				return off, o.Out[0] == -1
			}
			return max(off, o.In[1]+o.In[0]), o.Out[0] == 0
		}})
		var err error
		Must("close", func() {
			switch p.G("end") {
			case 0:
				err = m.Close()
			case 2:
				err = m.Unmap()
			default:
				err = m.UnmapAndCloseFile()
			}
		})
		if err != nil {
			sim.Fail("close", "closing the mapping: %v", err)
		}
		if !bytes.Equal(peek(name), got) {
			sim.Fail("content", "the file differs from the mapping after it was closed")
		}
		return
	}
	ts := Start(p, body)
	if p.G("when") > 0 {
		work(p.G("when"))
	} else {
		sim.Join(ts...)
		all := append([]*mmW(nil), ws...)
		var err error
		Must("Close", func() { err = m.Close() })
		if err == nil {
			for _, w := range all {
				if w.ok {
					mustSurvive = append(mustSurvive, w)
				}
			}
		}
	}
	sim.KillGeneration()
	need := append([]*mmW(nil), mustSurvive...)
	fs.PowerLoss()
	sim.S.Fault("power-loss")
	_ = file
	got := peek(name)
	if int64(len(got)) != size {
		sim.Fail("size", "the file has %d bytes after the power loss, had %d", len(got), size)
	}
	check(got, "after the power loss", need)
	if len(need) > 0 {
		sim.Probe("survivors-checked")
	}
}

func init() {
	gen := func(r *R, durable bool) *Prog {
		p := &Prog{P: map[string]int64{"size": r.Of(1, 50, 4095, 4096, 4097, 8192, 10000, 12288), "end": int64(r.N(3))}}
		if r.N(60) == 0 {
			p.P["size"] = r.Of(40000, 65536, 65537, 100001, 131072, 300000, 1<<20+1)
		}
		size := p.G("size")
		p.P["start"] = min(size-1, r.Of(0, 0, 0, 1, 20, 4000, 4096))
		if size > 40000 {
			p.P["start"] = r.Of(0, 1, 4096, 32768, 65535, size-4096, size-1)
			p.P["start"] = min(p.G("start"), size-1)
		}
		w := [][]int{{4, 2, 2, 1}, {1, 0, 0, 0}, {2, 1, 2, 1}}[r.N(3)]
		flush := 0
		if durable {
			w = [][]int{{2, 4, 1, 3}, {1, 3, 0, 0}, {1, 0, 1, 0}, {0, 2, 0, 3}}[r.N(4)]
			flush = r.N(3)
			p.P["when"] = r.Of(0, r.In(5, 60), r.In(5, 300))
			p.P["eio"] = r.Of(0, 0, 20)
		}
		w = append(append([]int(nil), w...), flush)
		lens := []int64{0, 1, 3, size / 8, size / 4, size / 3, size / 2, size}
		no := 5
		if r.N(30) == 0 && size < 20000 {
			no = 25
		}
		p.T = genOps(r, 2+r.N(3), no, func(t, i int) Op {
			k := []string{"append", "appendsync", "writeat", "writeatsync", "flush"}[r.W(w...)]
			n := min(lens[r.N(len(lens))], max(9000, size/3))
			if r.P(0.6) || no > 5 && r.P(0.8) {
				n = min(r.Of(1, 2, 5, 13, 700), max(1, size/6))
			}
			if no > 5 {
				n = min(n, max(1, size/20))
			}
			off := r.Of(0, 1, size/2, size-n, size-n+1, size, size-1, size+100, int64(r.N(int(size))), 4090, 4096)
			off = max(off, 0)
			if r.N(25) == 0 { // outside the file by far
				off = r.Of(-1, -n, -size, -1<<63, 1<<63-1, 1<<63-1-n, 1<<63-1-size, 1<<32, 1<<31)
			}
			return Op{K: k, A: []int64{n, off, r.Of(0, 0, 2, 9)}}
		})
		return p
	}
	real := []string{"mmap"}
	stub := []string{"mmap-go, msync and file system (mapping shares the simulated page cache; page-granular durability)", "mutex"}
	Reg(&Scenario{ID: "C22", Title: "mapped-file writes stay in bounds and appends are disjoint", Twin: 10, Quick: 200000, HardMax: 20000000, SoftMax: 20000,
		Rule: "2-4 tasks x 1-5 (one in thirty runs: 12-25) Append/AppendSync/WriteAt/WriteAtSync of 0..size bytes on a file of 1 byte to 3 pages (one in sixty: 40 KB to 1 MB), every byte depending on its write and its place in it, the caller's slice cleared when the call returns; reservation history linearizable, every byte of the final file explained, refused writes leave no byte",
		Real: real, Stub: stub, Min: map[string]int64{"size": 1, "start": 0, "end": 0}, Keep: []string{"size", "start"},
		Gen: func(r *R) *Prog { return gen(r, false) }, Run: func(p *Prog) { mmapRun(p, false) }})
	Reg(&Scenario{ID: "C23", Title: "synchronous mapped-file writes survive power loss", Quick: 300000, HardMax: 20000000, SoftMax: 20000,
		Rule: "the same operations with Flush and Close, msync failures, and a power loss at a random step or at the end that keeps an arbitrary subset of the dirty pages; every byte of a successful synchronous write (or write before a successful Flush/Close) must be there or have been overwritten later",
		Real: real, Stub: stub, Min: map[string]int64{"size": 1, "start": 0, "end": 0}, Keep: []string{"size", "start"},
		Gen: func(r *R) *Prog { return gen(r, true) }, Run: func(p *Prog) { mmapRun(p, true) }})
}
