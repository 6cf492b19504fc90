package scen

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/donnie4w/gofer/keystore"
	sos "github.com/donnie4w/gofer/verifsim/shadow/os"
	"github.com/donnie4w/gofer/verifsim/sim"
)

type ksIface interface {
	Write([]byte) error
	Read() ([]byte, error)
}

var ksNames = []string{"store", "store2"}

func ksOpen(fresh bool) ksIface { return ksOpenName(fresh, 0) }

func ksOpenName(fresh bool, i int64) ksIface {
	var ks ksIface
	var err error
	Must("opening the keystore", func() {
		if fresh {
			ks, err = keystore.NewKeyStore("/work/ks/a", ksNames[i])
		} else {
			ks, err = keystore.LoadKeyStore("/work/ks/a", ksNames[i])
		}
	})
	if err != nil {
		sim.Fail("open", "opening the keystore: %v", err)
	}
	return ks
}

// ksVal is the content of value v; ksID recognises it (-1 unknown).
func ksVal(p *Prog, v int64) []byte {
	n := (v*2654435761 + p.G("salt")) % 4
	if v == p.G("none") && v > 0 {
		return []byte{}
	}
	b := pat(v, []int64{3, 40, 700, p.G("big")}[n])
	return append(b, byte(v), byte(v>>8))
}

func ksID(p *Prog, b []byte, err error, vals []int64) int64 {
	for _, v := range vals {
		if bytes.Equal(b, ksVal(p, v)) {
			return v
		}
	}
	return -1
}

var registerModel = Model{Init: int64(0), Key: func(s any) string { return fmt.Sprint(s) }, Step: func(s any, o *HOp) (any, bool) {
	if o.Name == "write" {
		return o.In[0], true
	}
	return s, o.Out[0] == s.(int64)
}}

func init() {
	Reg(&Scenario{
		ID: "C24", Title: "keystore is a linearizable register that survives restarts", Quick: 50000, HardMax: 10000000, SoftMax: 20000, Stall: 0.3,
		Rule: "1-3 phases, each of 1-4 tasks x 1-4 writes (0-9000, rarely 140000, very rarely 2.5 million bytes) and reads on one or two keystores in one directory, in a quarter of the runs also reads by further objects for the same store, with a clean process restart between phases; reads linearizable over all phases, an empty store is an error",
		Real: []string{"keystore (store.go)", "util.Zlib/UnZlib, ReadFile"}, Stub: []string{"file system, x/exp/mmap", "mutex"},
		Min: map[string]int64{"phases": 1, "big": 900, "salt": 0, "stores": 1},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"phases": r.In(1, 3), "big": r.Of(900, 4096, 9000), "salt": int64(r.N(4)), "stores": r.Of(1, 1, 2), "none": r.Of(0, 0, r.In(1, 9))}}
			switch {
			case r.N(100) == 0:
				p.P["big"] = r.Of(66_000, 140_000)
				if r.N(10) == 0 {
					p.P["big"] = r.Of(1_100_000, 2_500_000)
				}
			case r.N(10) == 0: // what is stored ends near a page
				p.P["big"] = 4096*r.Of(1, 1, 2, 16) - r.In(0, 40)
			}
			n, same := int64(0), r.Of(0, 0, 0, 1, 2)
			others := r.P(0.25)
			p.T = genOps(r, 1+r.N(4), 4*int(p.G("phases")), func(t, i int) Op {
				n++
				k := "write"
				if r.P(0.5) {
					k = "read"
				}
				v := n
				if same > 0 {
					v = 1 + n%same
				}
				o := Op{K: k, A: []int64{v, int64(r.N(int(p.G("phases")))), int64(r.N(3)), int64(r.N(int(p.G("stores"))))}}
				if k == "read" && others {
					o.A = append(o.A, int64(r.N(3)))
				}
				return o
			})
			return p
		},
		Run: func(p *Prog) {
			var vals []int64
			for _, t := range p.T {
				for _, o := range t {
					if o.K == "write" {
						vals = append(vals, o.G(0))
					}
				}
			}
			hs := []*Hist{{}, {}}
			ks := make([]ksIface, 2)
			var keep Keep
			read := func(ti int, st, via int64) {
				h := hs[st]
				s := ks[st]
				if via > 0 { // another object for the same store
					s = ksOpenName(via == 1, st)
				}
				c := h.Call(ti, "read")
				var b []byte
				var err error
				Must("Read", func() { b, err = s.Read() })
				defer func() {
					if c.Call%2 == 0 {
						keep.Add("Read", b)
					} else {
						Spoil(b)
					}
				}()
				id := int64(0)
				if err == nil {
					if id = ksID(p, b, err, vals); id < 0 {
						sim.Fail("content", "Read returns %d bytes without an error that nobody wrote", len(b))
					}
				}
				h.Ret(c, id)
			}
			for ph := int64(0); ph < p.G("phases"); ph++ {
				for i := range ks {
					ks[i] = ksOpenName(ph%2 == 0, int64(i))
				}
				Tasks(p, func(ti int, ops []Op) {
					for _, o := range ops {
						if o.G(1) != ph {
							continue
						}
						work(o.G(2))
						if o.K == "read" {
							read(ti, o.G(3)%2, o.G(4))
							continue
						}
						h := hs[o.G(3)%2]
						c := h.Call(ti, "write", o.G(0))
						var err error
						b := ksVal(p, o.G(0))
						Must("Write", func() { err = ks[o.G(3)%2].Write(b) })
						if !bytes.Equal(b, ksVal(p, o.G(0))) {
							sim.Fail("content", "Write changed the caller's bytes")
						}
						if err != nil {
							sim.Fail("error", "Write: %v", err)
						}
						h.Ret(c)
						Spoil(b)
					}
				})
				sos.TheFS().ProcessCrash()
				sim.Probe("restart")
			}
			for i := range ks {
				ks[i] = ksOpenName(false, int64(i))
				read(9, int64(i), 0)
			}
			keep.Check()
			for _, h := range hs {
				Linear("not-linearizable", h, registerModel)
			}
		},
	})

	Reg(&Scenario{
		ID: "C25", Title: "keystore writes are atomic and durable across crashes and disk errors", Quick: 45000, HardMax: 5000000, SoftMax: 20000, Stall: 0.3,
		Rule: "1-3 tasks x 1-5 writes (3-9000 bytes) and reads with failing, short, no-space writes, failing sync/rename/open/stat/seek/truncate, then process death or power loss at a random step (or at the end), sometimes followed by one or two more crashes during later writes; afterwards the store must hold one whole value: the last acknowledged one or one not yet overwritten by an acknowledged one",
		Real: []string{"keystore (store.go)", "util.Zlib/UnZlib, ReadFile"}, Stub: []string{"file system with page cache, power loss and faults, x/exp/mmap", "mutex"},
		Min: map[string]int64{"big": 900, "salt": 0},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"big": r.Of(900, 4096, 9000), "salt": int64(r.N(4)), "when": r.Of(0, r.In(1, 40), r.In(1, 150)), "power": int64(r.N(2)),
				"fault": int64(r.N(12)), "prob": r.Of(10, 30, 60), "none": r.Of(0, 0, r.In(1, 9)), "again": r.Of(0, 0, 1, 2), "when2": r.Of(0, r.In(1, 60))}}
			switch {
			case r.N(100) == 0:
				p.P["big"] = r.Of(66_000, 140_000)
			case r.N(10) == 0: // what is stored ends near a page
				p.P["big"] = 4096*r.Of(1, 1, 2, 16) - r.In(0, 40)
			}
			n, same := int64(0), r.Of(0, 0, 0, 1, 2)
			p.T = genOps(r, 1+r.N(3), 5, func(t, i int) Op {
				n++
				k := "write"
				if r.P(0.25) {
					k = "read"
				}
				v := n
				if same > 0 {
					v = 1 + n%same
				}
				return Op{K: k, A: []int64{v, int64(r.N(3))}}
			})
			return p
		},
		Run: runKsCrash,
	})

	Reg(&Scenario{
		ID: "C26", Title: "account store is linearizable and survives restarts", Quick: 37000, HardMax: 5000000, SoftMax: 300000, Stall: 0.3,
		Rule: "1-3 tasks x 1-6 put/get/del/list operations on the four tables (one run in 40: with up to 140 more accounts) with arbitrary names, passwords and types; in half of the runs the process or the power dies at a random step, then Load in a new process; every table equals that of some sequential order, nothing acknowledged is lost",
		Real: []string{"keystore (keystore.go, store.go, bin.go)", "util.TEncode/TDecode, Zlib", "gothrift as shipped"}, Stub: []string{"file system, x/exp/mmap", "mutex"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"when": r.Of(0, 0, r.In(1, 60), r.In(1, 400)), "power": int64(r.N(2)), "loaderr": int64(r.N(20) / 19), "names": r.In(0, 4), "same": r.Of(0, 0, 1, 2)}}
			if r.N(40) == 0 {
				p.P["bulk"], p.P["loaderr"] = r.Of(9, 60, 140), 0
			}
			n := int64(0)
			p.T = genOps(r, 1+r.N(3), 6, func(t, i int) Op {
				n++
				k := []string{"put", "get", "del", "list"}[r.W(5, 3, 2, 1)]
				return Op{K: k, A: []int64{int64(r.N(4)), int64(r.N(3)), n, int64(r.N(3))}}
			})
			return p
		},
		Run: runAccounts,
	})
}

func runKsCrash(p *Prog) {
	fs := sos.TheFS()
	type wr struct {
		v         int64
		call, ret int
		err       error
	}
	var ws []*wr
	var vals []int64
	for _, t := range p.T {
		for _, o := range t {
			vals = append(vals, o.G(0))
		}
	}
	seq := 0
	ks := ksOpen(true)
	// the store exists durably before the run starts
	if err := ks.Write(ksVal(p, 0)); err != nil {
		sim.Fail("error", "first Write: %v", err)
	}
	vals = append(vals, 0)
	ws = append(ws, &wr{v: 0, call: -2, ret: -1})
	allowed := func(id int64, call, ret int) bool {
		for _, w := range ws {
			if w.v != id || w.call > ret {
				continue
			}
			ok := true
			for _, x := range ws {
				if x.err == nil && x.ret != 0 && w.ret != 0 && x.call > w.ret && x.ret < call {
					ok = false
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	pr := float64(p.G("prob")) / 100
	kinds := [][]string{{}, {"eio-write"}, {"enospc"}, {"short-write"}, {"eio-sync"}, {"eio-rename"}, {"open"}, {"eio-stat"}, {"eio-seek", "eio-truncate"}, {"mmap", "eio-read"}, {"eio-close"}, {"short-write", "eio-sync", "eio-rename", "open"}}[p.G("fault")%12]
	for _, k := range kinds {
		fs.P[k] = pr
	}
	faulty := len(kinds) > 0
	ts := Start(p, func(ti int, ops []Op) {
		for _, o := range ops {
			work(o.G(1))
			seq++
			call := seq
			if o.K == "read" {
				var b []byte
				var err error
				Must("Read", func() { b, err = ks.Read() })
				seq++
				if err != nil {
					if !faulty {
						sim.Fail("error", "Read without any fault: %v", err)
					}
					continue
				}
				id := ksID(p, b, err, vals)
				if id < 0 {
					sim.Fail("content", "Read returns %d bytes without an error that nobody wrote", len(b))
				}
				if !allowed(id, call, seq) {
					sim.Fail("stale", "Read returns value %d although a later Write was acknowledged before", id)
				}
				continue
			}
			w := &wr{v: o.G(0), call: call}
			ws = append(ws, w)
			var err error
			Must("Write", func() { err = ks.Write(ksVal(p, o.G(0))) })
			seq++
			w.err, w.ret = err, seq
			if err != nil && !faulty {
				sim.Fail("error", "Write without any fault: %v", err)
			}
			if err != nil {
				sim.Probe("write-error")
			}
			logf("write %d -> %v", o.G(0), err)
		}
	})
	if p.G("when") > 0 {
		work(p.G("when"))
	} else {
		sim.Join(ts...)
	}
	sim.KillGeneration()
	if p.G("power") == 1 {
		fs.PowerLoss()
		sim.S.Fault("power-loss")
	} else {
		fs.ProcessCrash()
		sim.S.Fault("process-crash")
	}
	for k := range fs.P {
		delete(fs.P, k)
	}
	logf("restart")
	ks = ksOpen(false)
	var b []byte
	var err error
	Must("Read", func() { b, err = ks.Read() })
	if err != nil {
		sim.Fail("lost", "after the crash the store cannot be read: %v", err)
	}
	id := ksID(p, b, err, vals)
	if id < 0 {
		sim.Fail("torn", "after the crash Read returns %d bytes that nobody wrote", len(b))
	}
	if !allowed(id, seq+1, seq+1) {
		sim.Fail("lost", "after the crash the store holds value %d although a later Write was acknowledged", id)
	}
	if id != 0 {
		sim.Probe("new-value-found")
	}
	// crash again, now with whatever the first crash left behind
	may := []int64{} // what a crash may bring back
	for _, v := range vals {
		if allowed(v, seq+1, seq+1) {
			may = append(may, v)
		}
	}
	for again := int64(0); again < p.G("again"); again++ {
		acked, begun := int64(-1), int64(-1)
		var werr error
		t := sim.Spawn("again", func() {
			for j := int64(0); j < 2; j++ {
				begun = 6000 + 2*again + j
				if werr = ks.Write(ksVal(p, begun)); werr != nil {
					return
				}
				acked = begun
			}
		})
		if w := p.G("when2"); w > 0 {
			work(w + 7*again)
		} else {
			sim.Join(t)
		}
		if werr != nil {
			sim.Fail("error", "Write after the restart: %v", werr)
		}
		if acked >= 0 {
			may = []int64{acked}
		}
		if begun >= 0 {
			may = append(may, begun)
		}
		sim.KillGeneration()
		if (p.G("power")+again)%2 == 0 {
			fs.PowerLoss()
			sim.S.Fault("power-loss")
		} else {
			fs.ProcessCrash()
			sim.S.Fault("process-crash")
		}
		ks = ksOpen(false)
		got, err := ks.Read()
		if err != nil {
			sim.Fail("lost", "after crash %d the store cannot be read: %v", again+2, err)
		}
		if ksID(p, got, err, may) < 0 {
			sim.Fail("torn", "after crash %d Read returns %d bytes that are none of the values %d it may hold", again+2, len(got), may)
		}
	}
	if err := ks.Write(ksVal(p, 5000)); err != nil {
		sim.Fail("error", "Write after the restart: %v", err)
	}
	if b, err := ks.Read(); err != nil || !bytes.Equal(b, ksVal(p, 5000)) {
		sim.Fail("content", "Write and Read after the restart: %d bytes, %v", len(b), err)
	}
}

// a run uses 4 consecutive ones
var acctAll = []string{"root", "", "用户\x00\n", "a very long name " + strings.Repeat("x", 300), "\xff\xfe", "Root", "root ", "0"}

func runAccounts(p *Prog) {
	fs := sos.TheFS()
	acctNames := acctAll[p.G("names") : p.G("names")+4]
	load := func() *acct {
		a := &acct{same: p.G("same")}
		Must("opening the store", func() {
			ks, err := keystore.NewKeyStore("/work/adm", "keys")
			if err != nil {
				sim.Fail("open", "NewKeyStore: %v", err)
			}
			keystore.KeyStore = ks
			s := keystore.NewStoreAdmin()
			s.Load()
			a.s = s
		})
		a.names = acctNames
		return a
	}
	a := load()
	bulk := func(i int64) (int64, string, int64) { return i % 4, fmt.Sprint("bulk-", i*i), 1 + i%100 }
	for i := int64(0); i < p.G("bulk"); i++ {
		tb, name, v := bulk(i)
		Must("put", func() { a.put(tb, name, v) })
	}
	h := &Hist{}
	type st = [16]int64
	do := func(ti int, o Op) {
		tb, k := o.G(0)%4, o.G(1)%4
		c := h.Call(ti, o.K, tb, k, o.G(2))
		Must(o.K, func() {
			switch o.K {
			case "put":
				a.put(tb, acctNames[k], o.G(2))
				h.Ret(c)
			case "del":
				a.del(tb, acctNames[k])
				h.Ret(c)
			case "get":
				h.Ret(c, a.get(tb, acctNames[k]))
			case "list":
				h.Ret(c, a.list(tb))
			}
		})
	}
	model := Model{Init: st{}, Key: func(s any) string { return fmt.Sprint(s) }, Step: func(s any, o *HOp) (any, bool) {
		x := s.(st)
		i := o.In[0]*4 + o.In[1]
		switch o.Name {
		case "put":
			x[i] = o.In[2]
		case "del":
			x[i] = 0
		case "get":
			return x, o.Ret == 0 || o.Out[0] == x[i]
		case "list":
			m := int64(0)
			for j := int64(0); j < 4; j++ {
				if x[o.In[0]*4+j] != 0 {
					m |= 1 << j
				}
			}
			return x, o.Ret == 0 || o.In[0] == 3 || o.Out[0] == m
		}
		return x, true
	}}
	ts := Start(p, func(ti int, ops []Op) {
		for _, o := range ops {
			work(o.G(3))
			do(ti, o)
		}
	})
	if p.G("when") > 0 {
		work(p.G("when"))
	} else {
		sim.Join(ts...)
	}
	a.recheck()
	sim.KillGeneration()
	if p.G("power") == 1 {
		fs.PowerLoss()
		sim.S.Fault("power-loss")
	} else {
		fs.ProcessCrash()
		sim.S.Fault("process-crash")
	}
	// every operation after the restart follows every one before it; what was
	// in progress either happened before the crash or never
	for _, o := range h.Ops {
		if o.Ret == 0 && (o.Name == "get" || o.Name == "list") {
			o.Name = "none"
		}
	}
	crash := h.Mark()
	if p.G("loaderr") == 1 {
		fs.P["mmap"] = 1
		fs.P["eio-read"] = 1
		a = load() // its Load fails to read the store
		for k := range fs.P {
			delete(fs.P, k)
		}
		have, _ := fs.Peek("/work/adm/keys")
		Must("put", func() { a.put(0, "new", 999) })
		sim.Probe("put-after-failed-load")
		a = load()
		if len(have) > 0 {
			for tb := int64(0); tb < 4; tb++ {
				for k, n := range acctNames {
					before := false
					for _, o := range h.Ops {
						if o.Name == "put" && o.Ret != 0 && o.In[0] == tb && o.In[1] == int64(k) {
							before = true
						}
						if o.Name == "del" && o.In[0] == tb && o.In[1] == int64(k) {
							before = false
							break
						}
					}
					if before && a.get(tb, n) == 0 {
						sim.Fail("failed-load", "Load could not read the store, the next Put overwrote it: an existing account is lost")
					}
				}
			}
		}
		return
	}
	a = load()
	for tb := int64(0); tb < 4; tb++ {
		do(90, Op{K: "list", A: []int64{tb, 0, 0}})
		for k := int64(0); k < 4; k++ {
			do(90, Op{K: "get", A: []int64{tb, k, 0}})
		}
	}
	for i := int64(0); i < p.G("bulk"); i++ {
		tb, name, v := bulk(i)
		Must("get", func() {
			if x := a.get(tb, name); x != v {
				sim.Fail("lost", "account %q, put before everything else as %d, is %d after the restart", name, v, x)
			}
		})
	}
	do(90, Op{K: "put", A: []int64{p.G("when") % 4, 0, 7777}})
	a = load()
	do(90, Op{K: "get", A: []int64{p.G("when") % 4, 0, 0}})
	// a pending operation may take effect before the restart only
	pend := []*HOp{}
	var fixed []*HOp
	for _, o := range h.Ops {
		if o.Ret == 0 && (o.Name == "put" || o.Name == "del") {
			pend = append(pend, o)
		} else if o.Name != "none" {
			fixed = append(fixed, o)
		}
	}
	for m := 0; m < 1<<len(pend); m++ {
		ops := append([]*HOp(nil), fixed...)
		for i, o := range pend {
			if m>>i&1 == 1 {
				c := *o
				c.Ret = crash
				ops = append(ops, &c)
			}
		}
		if ok, unknown := CheckLin(ops, model); ok || unknown {
			sim.Probe("lin-checked")
			return
		}
	}
	sort.SliceStable(h.Ops, func(i, j int) bool { return h.Ops[i].Call < h.Ops[j].Call })
	sim.Fail("not-linearizable", "no sequential order of the operations (restart at %d) explains the results:%s", crash, h.Dump())
}
