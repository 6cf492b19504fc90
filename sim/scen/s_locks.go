package scen

import (
	"bytes"
	"context"
	"io"
	"time"

	"github.com/donnie4w/gofer/lock"
	sctx "github.com/donnie4w/gofer/verifsim/shadow/context"
	ssync "github.com/donnie4w/gofer/verifsim/shadow/sync"
	"github.com/donnie4w/gofer/verifsim/sim"
)

var numKeys = []int64{0, 1, -1, 7, -9223372036854775808, 9223372036854775807, 1 << 40, -64, 1 + 1<<32, 255, 256, -1 << 31}
var strKeys = []string{"", "a", "b", "account:1", "account:2", "\x00", "key-with-a-longer-name", "z", "\xff\xfe", "\u00e9\u4e16", "a\x00", "0123456789abcdefghijklmnopqrstuvwxyz0123456789abcdefghijklmnopqrstuvwxyz"}

// numKey and strKey give the k-th key counted from off; with off >= 12 keys
// that differ in one byte only, anywhere.
func numKey(k, off int64) int64 {
	if off >= 12 {
		return 0x1122334455667788 ^ (k+1)<<(8*(off%8))
	}
	return numKeys[(k+off)%int64(len(numKeys))]
}

func strKey(k, off int64) string {
	if off >= 12 {
		b := bytes.Repeat([]byte("tenant-0/"), 1+int(off*off)%37)
		b[int(off*31)%len(b)] = byte('A' + k)
		return string(b)
	}
	return strKeys[(k+off)%int64(len(strKeys))]
}

// waiter is one Wait call of C11-C13 together with what happened to it.
type waitRec struct {
	start, end int64
	to         int64
	val        int64
	cancel     bool
	err        error
	done       bool
	puts       []int64 // values passed to CloseAndPut for this id
	closed     bool    // Close was called for this id
	cancelAt   int64
}

type awaiter interface {
	Wait(id int64, to time.Duration) (int64, error)
	WaitWithCancel(ctx context.Context, id int64, to time.Duration) (int64, bool, error)
	CloseAndPut(id int64, v int64) error
	Close(id int64) error
}

func init() {
	Reg(&Scenario{
		ID: "C09", Title: "keyed locks exclude per key and progress", Twin: 10, Quick: 600000, HardMax: 1000000, SoftMax: 20000,
		Rule: "2-5 (rarely up to 16) client tasks, up to 5 (rarely 50) times each, locking 1-8 keys of a Numlock or Strlock with 1-257 stripes (Lock, TryLock, RLock, TryRLock, release by key or by the returned mutex), one lock held at a time; holders counted inside the critical section",
		Real: []string{"lock.Numlock", "lock.Strlock", "hashmap.Map", "util.Hash64"}, Stub: []string{"sync.Mutex, sync.RWMutex (FIFO-fair or barging by seed)"},
		Min: map[string]int64{"stripes": 1}, Keep: []string{"keys"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"str": r.In(0, 1), "stripes": r.In(1, 4), "keys": r.In(1, 4), "off": r.In(0, 23)}}
			if r.N(20) == 0 {
				p.P["stripes"], p.P["keys"] = r.Of(7, 16, 64, 100, 257), r.In(2, 8)
			}
			if r.P(0.05) {
				p.P["weak"] = r.Of(1, 2, 4)
			}
			nt, no := 2+r.N(4), 5
			switch r.N(300) {
			case 0:
				nt, no = 2+r.N(2), 50
			case 1:
				nt = 8 + r.N(9)
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				k := int64(r.N(int(p.G("keys"))))
				kind := []string{"lock", "try"}[r.W(3, 1)]
				if p.G("str") == 1 {
					kind = []string{"lock", "try", "rlock", "tryr"}[r.W(3, 1, 3, 1)]
				}
				return Op{K: kind, A: []int64{k, int64(r.N(2)), int64(r.N(4)), r.Of(0, 0, 0, 1)}}
			})
			return p
		},
		Run: func(p *Prog) {
			weakHash(p)
			nl := lock.NewNumLock(int(p.G("stripes")))
			sl := lock.NewStrlock(int(p.G("stripes")))
			str := p.G("str") == 1
			w := map[int64]int{}
			rd := map[int64]int{}
			busy := map[int64]int{}  // calls and holds of the key under way
			begun := map[int64]int{} // calls of the key so far
			type failed struct {
				k      int64
				what   string
				beside map[int64]bool // keys with a call or hold under way at some point of the attempt
			}
			var refusals []failed
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					k := o.G(0)
					nk, sk := numKey(k, p.G("off")), strKey(k, p.G("off"))
					byRet := o.G(1) == 1
					write := o.K == "lock" || o.K == "try"
					beside, before := map[int64]bool{}, map[int64]int{}
					for j := int64(0); j < p.G("keys"); j++ {
						beside[j], before[j] = busy[j] > 0, begun[j]
					}
					busy[k]++
					begun[k]++
					before[k]++
					var rel func()
					got := true
					switch {
					case !str && o.K == "lock":
						m := nl.Lock(nk)
						rel = func() { nl.Unlock(nk) }
						if byRet {
							rel = m.Unlock
						}
					case !str:
						m, ok := nl.TryLock(nk)
						got = ok
						rel = func() { nl.Unlock(nk) }
						if byRet && ok {
							rel = m.Unlock
						}
					case o.K == "lock":
						m := sl.Lock(sk)
						rel = func() { sl.Unlock(sk) }
						if byRet {
							rel = m.Unlock
						}
					case o.K == "try":
						m, ok := sl.TryLock(sk)
						got = ok
						rel = func() { sl.Unlock(sk) }
						if byRet && ok {
							rel = m.Unlock
						}
					case o.K == "rlock":
						m := sl.RLock(sk)
						rel = func() { sl.RUnlock(sk) }
						if byRet {
							rel = m.RUnlock
						}
					default:
						m, ok := sl.TryRLock(sk)
						got = ok
						rel = func() { sl.RUnlock(sk) }
						if byRet && ok {
							rel = m.RUnlock
						}
					}
					if !got {
						sim.Probe("try-failed")
						for j, n := range before {
							if begun[j] > n {
								beside[j] = true
							}
						}
						refusals = append(refusals, failed{k, o.K, beside})
						busy[k]--
						continue
					}
					if write {
						w[k]++
					} else {
						rd[k]++
					}
					if w[k] > 1 || w[k] == 1 && rd[k] > 0 {
						sim.Fail("not-exclusive", "%d writers and %d readers hold the lock of key %d at once", w[k], rd[k], k)
					}
					work(o.G(2))
					sleepMS(o.G(3))
					if w[k] > 1 || w[k] == 1 && rd[k] > 0 {
						sim.Fail("not-exclusive", "%d writers and %d readers hold the lock of key %d at once", w[k], rd[k], k)
					}
					if write {
						w[k]--
					} else {
						rd[k]--
					}
					rel()
					busy[k]--
				}
			})
			// an attempt fails only because of keys that share its lock
			for _, f := range refusals {
				shares := f.beside[f.k]
				for j := int64(0); j < p.G("keys") && !shares; j++ {
					if !f.beside[j] {
						continue
					}
					if str {
						if _, ok := sl.TryLock(strKey(f.k, p.G("off"))); !ok {
							break // reported below
						}
						_, ok := sl.TryLock(strKey(j, p.G("off")))
						if shares = !ok; ok {
							sl.Unlock(strKey(j, p.G("off")))
						}
						sl.Unlock(strKey(f.k, p.G("off")))
					} else {
						if _, ok := nl.TryLock(numKey(f.k, p.G("off"))); !ok {
							break
						}
						_, ok := nl.TryLock(numKey(j, p.G("off")))
						if shares = !ok; ok {
							nl.Unlock(numKey(j, p.G("off")))
						}
						nl.Unlock(numKey(f.k, p.G("off")))
					}
				}
				if !shares {
					sim.Fail("refused", "%s of key %d failed although no call or hold of a key that shares its lock was under way", f.what, f.k)
				}
			}
			// all free: every key can be taken at once without blocking, and excludes itself
			for k := int64(0); k < p.G("keys"); k++ {
				nk, sk := numKey(k, p.G("off")), strKey(k, p.G("off"))
				if str {
					m, ok := sl.TryLock(sk)
					if !ok || m == nil {
						sim.Fail("lost-lock", "key %q cannot be locked although nobody holds a lock", sk)
					}
					if _, ok := sl.TryLock(sk); ok {
						sim.Fail("not-exclusive", "TryLock(%q) succeeds while the key is locked", sk)
					}
					if _, ok := sl.TryRLock(sk); ok {
						sim.Fail("not-exclusive", "TryRLock(%q) succeeds while the key is write-locked", sk)
					}
					sl.Unlock(sk)
					if _, ok := sl.TryRLock(sk); !ok {
						sim.Fail("lost-lock", "key %q cannot be read-locked although nobody holds a lock", sk)
					}
					if _, ok := sl.TryRLock(sk); !ok {
						sim.Fail("readers-exclude", "two readers of %q exclude each other", sk)
					}
					if _, ok := sl.TryLock(sk); ok {
						sim.Fail("not-exclusive", "TryLock(%q) succeeds while the key is read-locked", sk)
					}
					sl.RUnlock(sk)
					sl.RUnlock(sk)
				} else {
					m, ok := nl.TryLock(nk)
					if !ok || m == nil {
						sim.Fail("lost-lock", "key %d cannot be locked although nobody holds a lock", nk)
					}
					if _, ok := nl.TryLock(nk); ok {
						sim.Fail("not-exclusive", "TryLock(%d) succeeds while the key is locked", nk)
					}
					nl.Unlock(nk)
				}
			}
		},
	})

	Reg(&Scenario{
		ID: "C10", Title: "LimitLock bounds holders and hands slots on", Alone: func(p *Prog) bool { return micro(p, p.G("timeout")) < 200*time.Microsecond }, Twin: 10, Quick: 450000, HardMax: 1000000, SoftMax: 20000,
		Rule: "2-6 client tasks, up to 4 (one run in 200: 50) times each, on a LimitLock of limit 1-40 and timeout 1 ms to 61 s, holding for 0-150 ms; holders counted, timeouts checked against virtual time, slot count checked at rest",
		Real: []string{"lock.LimitLock"}, Stub: []string{"channels, select, time.After, atomics"},
		Min: map[string]int64{"limit": 1}, Keep: []string{"timeout", "us"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"limit": r.In(1, 3), "timeout": r.Of(1, 10, 10, 100)}}
			if r.N(20) == 0 {
				p.P["limit"], p.P["timeout"] = r.Of(2, 9, 40), r.Of(10, 1500, 61_000)
			}
			if r.N(4) == 0 {
				p.P["waiters"] = r.In(2, 4)
			}
			p.P["us"] = microGen(r)
			nt, no := 2+r.N(5), 4
			if r.N(200) == 0 {
				nt, no = 2+r.N(3), 50
			}
			p.T = genOps(r, nt, no, func(t, i int) Op {
				return Op{K: "lock", A: []int64{r.Of(0, 0, 0, 1, 5, 9, 10, 11, 40, 150), r.Of(0, 0, 0, 1, 3, 10, 12), int64(r.N(4))}}
			})
			return p
		},
		Run: func(p *Prog) {
			limit := int(p.G("limit"))
			to := micro(p, p.G("timeout"))
			ll := lock.NewLimitLock(limit, to)
			holders, inside, got := 0, 0, int64(0)
			Tasks(p, func(ti int, ops []Op) {
				for _, o := range ops {
					sleepMS(o.G(1))
					inside++
					peak := inside
					s0 := sim.Now()
					err := ll.Lock()
					el := sim.Now() - s0
					if inside > peak {
						peak = inside
					}
					if err != nil {
						inside--
						if el < int64(to) {
							sim.Fail("early-timeout", "Lock failed (%v) after %dns, timeout %v", err, el, to)
						}
						continue
					}
					got++
					holders++
					if holders > limit {
						sim.Fail("over-limit", "%d holders with limit %d", holders, limit)
					}
					work(o.G(2))
					sleepMS(o.G(0))
					if holders > limit {
						sim.Fail("over-limit", "%d holders with limit %d", holders, limit)
					}
					holders--
					ll.Unlock()
					inside--
				}
			})
			if c := ll.Cc(); c != 0 {
				sim.Fail("count", "Cc()=%d with no holder", c)
			}
			if c := ll.LockCount(); c != got {
				sim.Fail("count", "LockCount()=%d after %d acquisitions", c, got)
			}
			sim.Calm()
			s0 := sim.Now()
			for i := 0; i < limit; i++ {
				if err := ll.Lock(); err != nil {
					sim.Fail("lost-slot", "with nobody holding, acquisition %d of %d failed: %v", i+1, limit, err)
				}
			}
			if el := sim.Now() - s0; el >= int64(to) {
				sim.Fail("slow-slot", "with nobody holding, %d acquisitions took %dns", limit, el)
			}
			if c := ll.Cc(); c != int64(limit) {
				sim.Fail("count", "Cc()=%d with %d holders", c, limit)
			}
			s0 = sim.Now()
			if ll.Lock() == nil {
				sim.Fail("over-limit", "acquisition %d succeeded with limit %d", limit+1, limit)
			}
			if el := sim.Now() - s0; el < int64(to) || el > int64(to)+5*ms {
				sim.Fail("timeout", "Lock on a full lock returned after %dns, timeout %v", el, to)
			}
			// several waiters, each with its own timeout
			var ws []*sim.Task
			for i := int64(0); i < p.G("waiters"); i++ {
				ws = append(ws, sim.Spawn("waiter", func() {
					sim.Sleep(int64(to) * i / (2 * p.G("waiters")))
					s1 := sim.Now()
					if ll.Lock() == nil {
						sim.Fail("over-limit", "acquisition %d succeeded with limit %d", limit+1, limit)
					}
					if el := sim.Now() - s1; el < int64(to) || el > int64(to)+5*ms {
						sim.Fail("timeout", "Lock on a full lock, one of several waiting, returned after %dns, timeout %v", el, to)
					}
				}))
			}
			for _, w := range ws {
				sim.Join(w)
			}
			// a waiter gets the slot of a holder that leaves before the timeout
			t := sim.Spawn("waiter", func() {
				s1 := sim.Now()
				if err := ll.Lock(); err != nil {
					sim.Fail("no-handoff", "a slot became free after half the timeout but Lock failed: %v", err)
				}
				if el := sim.Now() - s1; el > int64(to)/2+int64(to)/4 {
					sim.Fail("slow-slot", "the freed slot was obtained after %dns", el)
				}
			})
			sim.Sleep(int64(to) / 2)
			ll.Unlock()
			sim.Join(t)
		},
	})

	genAwait := func(r *R, fast bool) *Prog {
		p := &Prog{P: map[string]int64{"stripes": r.Of(1, 2, 3, 1, 2, 3, 32), "fast": b2i(fast), "off": r.Of(0, r.In(0, 11), r.In(12, 23)), "us": microGen(r)}}
		if fast {
			p.P["expect"], p.P["used"] = r.Of(4096, 4096, 1, 3, 16), r.Of(0, 0, 1, 3, 9)
			if r.P(0.03) {
				p.P["expect"], p.P["used"] = 1<<20, r.Of(0, 30, 200)
			}
		}
		if r.P(0.1) {
			p.P["weak"] = r.Of(1, 2, 4, 16, 64)
		}
		ids := 1 + r.N(3)
		if r.N(100) == 0 {
			ids = 4 + r.N(4)
		}
		if r.N(500) == 0 {
			ids = 8 + r.N(30)
			p.P["off"] = r.In(12, 23)
		}
		n := int64(0)
		for id := 0; id < ids; id++ {
			kind := []string{"wait", "waitc", "sync"}[r.W(4, 2, 3)]
			if fast {
				kind = []string{"wait", "waitc"}[r.W(4, 2)]
			}
			to := r.Of(0, 1, 2, 50, 500, 3600_000)
			p.T = append(p.T, []Op{{K: kind, A: []int64{int64(id), to, r.Of(0, 0, 0, 1, 30), int64(r.N(3))}}})
			for j := 0; j < 1+r.N(3); j++ {
				n++
				k := []string{"put", "put", "close"}[r.N(3)]
				if j == 0 {
					k = []string{"put", "close"}[r.W(5, 1)]
				}
				// delay, how the responder knows of the waiter: 0 it does not, 1 Has, 2 wait group
				p.T = append(p.T, []Op{{K: k, A: []int64{int64(id), 1000 + n, r.Of(0, 0, 0, 1, 2, 3, 50, 500), int64(r.N(3))}}})
			}
			if kind == "waitc" && r.P(0.5) {
				p.T = append(p.T, []Op{{K: "cancel", A: []int64{int64(id), 0, r.Of(0, 1, 2, 40)}}})
			}
		}
		return p
	}
	runAwait := func(p *Prog) {
		fast := p.G("fast") == 1
		weakHash(p)
		var a awaiter
		var aw *lock.Await[int64]
		if fast {
			a = newFast(p)
		} else {
			aw = lock.NewAwait[int64](int(p.G("stripes")))
			a = aw
		}
		recs := map[int64]*waitRec{}
		wgs := map[int64]*ssync.WaitGroup{}
		ctxs := map[int64]context.Context{}
		cancels := map[int64]func(){}
		kinds := map[int64]string{}
		known := map[int64]bool{} // some responder answers once the waiter is registered
		answered := map[int64]bool{}
		begun := map[int64]int{} // calls answering the key
		for _, t := range p.T {
			for _, o := range t {
				id := o.G(0)
				switch o.K {
				case "wait", "waitc", "sync":
					recs[id] = &waitRec{}
					kinds[id] = o.K
					wg := &ssync.WaitGroup{}
					wg.Add(1)
					wgs[id] = wg
					c, cf := sctx.WithCancel(context.Background())
					ctxs[id], cancels[id] = c, cf
				}
			}
		}
		for _, t := range p.T {
			for _, o := range t {
				switch o.K {
				case "put", "close":
					if aw != nil && (o.G(3) == 1 || o.G(3) == 2 && kinds[o.G(0)] == "sync") {
						known[o.G(0)] = true
					}
				case "cancel":
					known[o.G(0)] = true
				}
			}
		}
		key := func(id int64) int64 { return numKey(id, p.G("off")) }
		ts := Start(p, func(ti int, ops []Op) {
			for _, o := range ops {
				id := o.G(0)
				rec := recs[id]
				if rec == nil { // its waiter was shrunk away
					continue
				}
				switch o.K {
				case "wait", "waitc", "sync":
					sleepMS(o.G(2))
					to := micro(p, o.G(1))
					if to == 0 && !known[id] {
						to = 2 * time.Hour // nobody is certain to answer
					}
					rec.start, rec.to = sim.Now(), int64(to)
					Must(o.K, func() {
						switch o.K {
						case "wait":
							rec.val, rec.err = a.Wait(key(id), to)
						case "waitc":
							rec.val, rec.cancel, rec.err = a.WaitWithCancel(ctxs[id], key(id), to)
						case "sync":
							rec.val, rec.err = aw.SyncWait(wgs[id], key(id), to)
						}
					})
					rec.end, rec.done = sim.Now(), true
					switch {
					case rec.cancel:
						if rec.cancelAt == 0 || rec.err == nil {
							sim.Fail("bogus-cancel", "WaitWithCancel reports cancellation (err %v) although the context was not cancelled", rec.err)
						}
					case rec.err != nil:
						if to == 0 || rec.end-rec.start < int64(to) {
							sim.Fail("early-timeout", "%s(%d) failed after %dns with timeout %v: %v", o.K, id, rec.end-rec.start, to, rec.err)
						}
					case rec.val == 0:
						if !rec.closed {
							sim.Fail("empty-result", "%s(%d) returned no value and no error although Close was not called", o.K, id)
						}
					default:
						ok := false
						for _, v := range rec.puts {
							ok = ok || v == rec.val
						}
						if !ok {
							sim.Fail("wrong-value", "%s(%d) returned %d, which was not put for it (%v)", o.K, id, rec.val, rec.puts)
						}
					}
				case "put", "close":
					sleepMS(o.G(2))
					if aw != nil && o.G(3) == 2 && kinds[id] == "sync" {
						wgs[id].Wait()
						if !aw.Has(key(id)) && begun[id] == 0 && !rec.done && (rec.to == 0 || sim.Now()-rec.start < rec.to) {
							sim.Fail("not-registered", "SyncWait(%d) signalled its wait group before it was registered", id)
						}
					} else if aw != nil && o.G(3) == 1 {
						for d := int64(1); !aw.Has(key(id)) && !rec.done && !answered[id]; d += d {
							sleepMS(min(d, 2000))
						}
					}
					begun[id]++
					wasReg := aw != nil && !answered[id] && !rec.done && aw.Has(key(id))
					if o.K == "put" {
						rec.puts = append(rec.puts, o.G(1))
						Must("CloseAndPut", func() {
							a.CloseAndPut(key(id), o.G(1))
						})
					} else {
						rec.closed = true
						Must("Close", func() { a.Close(key(id)) })
					}
					if wasReg {
						answered[id] = true
					}
				case "cancel":
					sleepMS(o.G(2))
					rec.cancelAt = sim.Now() + 1
					cancels[id]()
				}
			}
		})
		sim.Join(ts...)
		for id, rec := range recs {
			if !rec.done {
				sim.Fail("stuck", "waiter %d never returned", id)
			}
		}
	}

	// one key waited for several times in a row
	genRounds := func(r *R) *Prog {
		p := &Prog{P: map[string]int64{"stripes": r.In(1, 3), "rounds": 1, "off": r.Of(0, r.In(0, 11), r.In(12, 23)), "us": microGen(r)}}
		v := int64(0)
		for id := int64(0); id < r.In(1, 2); id++ {
			var ws []Op
			n := r.In(2, 4)
			for i := int64(0); i < n; i++ {
				ws = append(ws, Op{K: []string{"wait", "waitc", "sync"}[r.W(3, 1, 1)], A: []int64{id, r.Of(0, 0, 0, 1, 2, 3600_000), r.Of(0, 0, 0, 0, 1), r.Of(0, 0, 0, 1, 2, 5)}})
			}
			p.T = append(p.T, ws)
			for i := int64(0); i < n; i++ {
				v++
				p.T = append(p.T, []Op{{K: []string{"aput", "aclose"}[r.W(4, 1)], A: []int64{id, 1000 + v, i, r.Of(0, 0, 1)}}})
			}
			for i := int64(0); i < r.Of(0, 0, 1, 2); i++ {
				v++
				p.T = append(p.T, []Op{{K: []string{"put", "close"}[r.W(4, 1)], A: []int64{id, 1000 + v, r.Of(0, 0, 1, 2, 3)}}})
			}
		}
		return p
	}
	runRounds := func(p *Prog) {
		aw := lock.NewAwait[int64](int(p.G("stripes")))
		type st struct {
			cur    int64 // the wait in progress, or the number of finished ones
			given  map[int64]bool
			closes int
		}
		sts := map[int64]*st{}
		aimed := map[[2]int64]bool{}
		waits := map[int64]int64{}
		for _, t := range p.T {
			for _, o := range t {
				if sts[o.G(0)] == nil {
					sts[o.G(0)] = &st{cur: -1, given: map[int64]bool{}}
				}
				if o.K == "wait" || o.K == "waitc" || o.K == "sync" {
					waits[o.G(0)]++
				}
				if o.K == "aput" || o.K == "aclose" {
					aimed[[2]int64{o.G(0), o.G(2)}] = true
				}
			}
		}
		Tasks(p, func(ti int, ops []Op) {
			for i, o := range ops {
				id := o.G(0)
				s, key := sts[id], numKey(id, p.G("off"))
				switch o.K {
				case "wait", "waitc", "sync":
					sleepMS(o.G(2))
					to := micro(p, o.G(1))
					if to == 0 && !aimed[[2]int64{id, int64(i)}] {
						to = 2 * time.Hour
					}
					s.cur = int64(i)
					var v int64
					var err error
					var c bool
					ctx := context.Background()
					cancelMS := o.G(3) - 1 // of a WaitWithCancel
					if o.K == "waitc" && cancelMS >= 0 {
						var cf func()
						ctx, cf = sctx.WithCancel(ctx)
						if cancelMS == 0 {
							cf()
						} else {
							sim.Spawn("cancel", func() { sleepMS(cancelMS); cf() })
						}
					}
					t0 := sim.Now()
					Must(o.K, func() {
						switch o.K {
						case "wait":
							v, err = aw.Wait(key, to)
						case "waitc":
							v, c, err = aw.WaitWithCancel(ctx, key, to)
						default:
							v, err = aw.SyncWait(nil, key, to)
						}
					})
					switch {
					case c:
						if o.G(3) == 0 || err == nil {
							sim.Fail("bogus-cancel", "wait %d on key %d reports a cancellation that never happened, or no error (%v)", i, id, err)
						}
					case err != nil:
						if el := sim.Now() - t0; to == 0 || el < int64(to) {
							sim.Fail("early-timeout", "wait %d on key %d failed after %dns with timeout %v: %v", i, id, el, to, err)
						}
					case v == 0:
						if s.closes--; s.closes < 0 {
							sim.Fail("empty-result", "wait %d on key %d returned no value and no error, and no Close accounts for it", i, id)
						}
					default:
						if !s.given[v] {
							sim.Fail("wrong-value", "wait %d on key %d returned %d, which was not put for it, or is already delivered", i, id, v)
						}
						delete(s.given, v)
					}
					if i == len(ops)-1 {
						s.cur = 1 << 20
					}
				default:
					if o.K == "aput" || o.K == "aclose" {
						if o.G(2) >= waits[id] {
							continue
						}
						sleepMS(o.G(3))
						for d := int64(0); s.cur < o.G(2) || s.cur == o.G(2) && !aw.Has(key); d++ {
							if d < 20 {
								work(1)
							} else {
								sleepMS(min(d-19, 2000))
							}
						}
						if s.cur != o.G(2) {
							continue // somebody else answered that wait, or it timed out
						}
					} else {
						sleepMS(o.G(2))
					}
					if o.K == "aput" || o.K == "put" {
						s.given[o.G(1)] = true
						Must("CloseAndPut", func() { aw.CloseAndPut(key, o.G(1)) })
					} else {
						s.closes++
						Must("Close", func() { aw.Close(key) })
					}
				}
			}
		})
	}

	Reg(&Scenario{
		ID: "C11", Title: "Await hands each value to its waiter", Twin: 10, Quick: 24000, HardMax: 4000000, SoftMax: 400000,
		Rule: "1-3 (rarely up to 37) keys, one waiter each (Wait, WaitWithCancel, SyncWait; timeouts none to 1 h) and 1-3 responders per key putting or closing before, during and after the wait, optionally only once the waiter is registered; or 1-2 keys waited for up to 4 times in a row (some of the waits cancelled) with one responder per wait and stray ones; no-timeout waiters must return when answered",
		Real: []string{"lock.Await", "lock.Numlock", "hashmap.Map"}, Stub: []string{"channels, timers, context"},
		Min: map[string]int64{"stripes": 1}, Keep: []string{"fast", "rounds", "us", "off"},
		Gen: func(r *R) *Prog {
			if r.P(0.4) {
				return genRounds(r)
			}
			return genAwait(r, false)
		},
		Run: func(p *Prog) {
			if p.G("rounds") == 1 {
				runRounds(p)
			} else {
				runAwait(p)
			}
		},
	})
	Reg(&Scenario{
		ID: "C13", Title: "FastAwait hands each value to its waiter", Twin: 10, Quick: 400000, HardMax: 3000000, SoftMax: 400000,
		Rule: "as C11 for FastAwait, every key used once",
		Real: []string{"lock.FastAwait", "cache.BloomFilter", "hashmap.Map"}, Stub: []string{"channels, timers, context"},
		Min: map[string]int64{"stripes": 1, "expect": 1}, Keep: []string{"fast", "us", "off"},
		Gen: func(r *R) *Prog { return genAwait(r, true) },
		Run: runAwait,
	})

	// ------------------------------------------------------------ C12
	Reg(&Scenario{
		ID: "C12", Title: "Await and FastAwait: outcome and time follow the earliest event", Twin: 10, Quick: 30000, HardMax: 2000000, SoftMax: 200000, NoStall: true,
		Rule: "1-3 keys with one waiter, at most one answer and one cancellation (by call, with a cause, of a parent, or by a deadline) at chosen virtual times up to some 200 hours apart; the waiter's result and return time must be those of the earliest event whenever the events are clearly apart; calls on absent keys return within their polling bound",
		Real: []string{"lock.Await", "lock.FastAwait", "lock.Numlock", "cache.BloomFilter"}, Stub: []string{"channels, timers, context"},
		Min: map[string]int64{"stripes": 1, "expect": 1}, Keep: []string{"fast", "us", "off"},
		Gen: func(r *R) *Prog {
			p := &Prog{P: map[string]int64{"stripes": r.Of(1, 2, 3, 1, 2, 3, 32), "fast": r.In(0, 1), "off": r.Of(0, r.In(0, 11), r.In(12, 23)), "us": microGen(r)}}
			if p.G("fast") == 1 {
				p.P["expect"], p.P["used"] = r.Of(4096, 4096, 1, 3, 16), r.Of(0, 0, 1, 3, 9)
				if r.P(0.03) {
					p.P["expect"], p.P["used"] = 1<<20, r.Of(0, 30, 200)
				}
				if r.P(0.3) {
					p.P["weak"], p.P["expect"] = r.Of(1, 2, 4, 16, 64), 16
				}
			}
			for id := int64(0); id < r.In(1, 3); id++ {
				kind := []string{"wait", "waitc", "sync"}[r.W(3, 4, 2)]
				if p.G("fast") == 1 && kind == "sync" {
					kind = "waitc"
				}
				to := r.Of(0, 0, 1, 5, 60, 700, 1500, 5000)
				put := r.Of(-1, 0, 3, 300, 900, 2000, 2600, 4000)
				can := int64(-1)
				if kind == "waitc" {
					can = r.Of(-1, 0, 10, 350, 1200, 2200)
				}
				if to == 0 && put < 0 && can < 0 {
					put = 300
				}
				if r.N(6) == 0 { // long waits
					to = r.Of(0, 20_000, 45_000, 90_000, 400_000, 7200_000, 200*3600_000)
					put = r.Of(-1, 12_000, 40_000, 70_000, 1000_000, 90*3600_000)
					if kind == "waitc" {
						can = r.Of(-1, -1, 8_000, 50_000, 80_000, 30*3600_000)
					}
					if to == 0 && put < 0 && can < 0 {
						put = 70_000
					}
				}
				start := r.Of(0, 0, 0, 200, 600, 1200, 2500, 3500)
				if to == 0 && can < 0 && (put < start || p.P["expect"] < 4096 && put < start+50) {
					put = start + 400
				}
				p.T = append(p.T, []Op{{K: kind, A: []int64{id, to, start, put, can, int64(r.N(3)), r.Of(0, 0, 1, 2, 3)}}})
			}
			return p
		},
		Run: func(p *Prog) {
			fast := p.G("fast") == 1
			weakHash(p)
			var a awaiter
			var aw *lock.Await[int64]
			if fast {
				a = newFast(p)
			} else {
				aw = lock.NewAwait[int64](int(p.G("stripes")))
				a = aw
			}
			window, poll := int64(1000), int64(1)
			if fast {
				window, poll = 3000, 100
			}
			margin := int64(20)
			vague := fast && p.G("expect") < 4096
			base := sim.Now() / ms // the earlier waits took their time
			var ts []*sim.Task
			for _, t := range p.T {
				for _, o := range t {
					o := o
					id, to, start, put, can, mode := o.G(0), o.G(1), o.G(2), o.G(3), o.G(4), o.G(5)
					key := numKey(id, p.G("off"))
					ctx, cancel := sctx.WithCancel(context.Background())
					returned := int64(-1)
					switch o.G(6) {
					case 1: // it ends by its deadline
						cancel = nil
						d := time.Duration(can) * time.Millisecond
						if can < 0 {
							d = 9000 * time.Hour
						}
						ctx, _ = sctx.WithTimeout(context.Background(), d)
					case 2: // it ends with its parent
						ctx, _ = sctx.WithTimeout(context.WithValue(ctx, "k", id), 8000*time.Hour)
					case 3:
						c, f := sctx.WithCancelCause(context.Background())
						ctx, cancel = c, func() { f(io.EOF) }
					}
					if can >= 0 && cancel != nil {
						ts = append(ts, sim.Spawn("cancel", func() { sleepMS(can); cancel() }))
					}
					if put >= 0 {
						ts = append(ts, sim.Spawn("put", func() {
							sleepMS(put)
							t0 := sim.Now()
							Must("answer", func() {
								if mode == 2 {
									a.Close(key)
								} else {
									a.CloseAndPut(key, 100+id)
								}
							})
							el := (sim.Now() - t0) / ms
							if el > window+margin+window/5 {
								sim.Fail("slow-put", "answering key %d took %d ms", id, el)
							}
							if put > start+margin && returned < 0 && to == 0 && can < 0 && el > margin {
								sim.Fail("slow-put", "answering the waiting key %d took %d ms", id, el)
							}
							if fast && !vague && returned >= 0 && returned < put-margin && el > margin {
								sim.Fail("slow-put", "answering key %d, whose wait was already over, took %d ms", id, el)
							}
						}))
					}
					ts = append(ts, sim.Spawn("wait", func() {
						sleepMS(start)
						var v int64
						var err error
						var c bool
						t0 := sim.Now()
						Must(o.K, func() {
							switch o.K {
							case "wait":
								v, err = a.Wait(key, micro(p, to))
							case "waitc":
								v, c, err = a.WaitWithCancel(ctx, key, micro(p, to))
							case "sync":
								v, err = aw.SyncWait(nil, key, micro(p, to))
							}
						})
						returned = sim.Now()/ms - base
						// when each event would end the wait: [earliest, latest]
						type ev struct {
							name   string
							lo, hi int64
						}
						var evs []ev
						if to > 0 {
							evs = append(evs, ev{"timeout", start + to - b2i(p.G("us") < 0), start + to})
						}
						if put >= start && put <= start+margin && vague { // may come first and take the key for a finished one
							evs = append(evs, ev{"value?", put, start + poll + poll/5})
						} else if put >= start && put <= start+margin {
							evs = append(evs, ev{"value", put, start + poll + poll/5})
						} else if put >= start {
							evs = append(evs, ev{"value", put, put})
						} else if put >= 0 && start-put <= window-window/10 && !vague {
							evs = append(evs, ev{"value", start, start + poll + poll/5})
						} else if put >= 0 && start-put < window+window/4 { // or the filter may take the key for a finished one
							evs = append(evs, ev{"value?", start, start + poll + poll/5})
						}
						if can >= 0 {
							evs = append(evs, ev{"cancel", max(start, can), max(start, can)})
						}
						got := "value"
						if c {
							got = "cancel"
						} else if err != nil {
							got = "timeout"
							if el := sim.Now() - t0; el < int64(micro(p, to)) {
								sim.Fail("wrong-time", "%v timed out after %dns", o, el)
							}
						}
						if got == "value" {
							want := 100 + id
							if mode == 2 {
								want = 0
							}
							if v != want {
								sim.Fail("wrong-value", "%v returned %d, expected %d", o, v, want)
							}
						}
						if c && err == nil {
							sim.Fail("cancel-err", "cancelled wait returned no error")
						}
						// the outcome must be one that no other certain event clearly precedes
						var lo, hi int64
						found := false
						for _, e := range evs {
							if e.name == got || e.name == got+"?" {
								lo, hi, found = e.lo, e.hi, true
							}
						}
						if !found {
							sim.Fail("wrong-outcome", "%v ended with %s (err %v) at %d ms, which nothing explains", o, got, err, returned)
						}
						if returned < lo || returned > hi+margin {
							sim.Fail("wrong-time", "%v ended with %s at %d ms, expected %d..%d", o, got, returned, lo, hi+margin)
						}
						for _, e := range evs {
							if e.name[len(e.name)-1] != '?' && e.hi+margin < lo {
								sim.Fail("wrong-outcome", "%v ended with %s at %d ms although %s came first (by %d ms)", o, got, returned, e.name, e.hi)
							}
						}
					}))
				}
			}
			sim.Join(ts...)
			// answering a key nobody waits for is bounded
			if aw != nil {
				t0 := sim.Now()
				aw.Close(12345)
				if el := (sim.Now() - t0) / ms; el > 1300 {
					sim.Fail("slow-put", "Close of an absent key took %d ms", el)
				}
				for id := int64(0); id < 3; id++ {
					if aw.Has(numKey(id, p.G("off"))) && !hasID(p, id) {
						sim.Fail("leak", "key %d is still registered", id)
					}
				}
			}
		},
	})
}

// newFast is a FastAwait on which p.used waits on other keys are over.
func newFast(p *Prog) awaiter {
	fa := lock.NewFastAwait2[int64](uint64(p.G("expect")))
	if p.G("expect") == 1<<20 {
		fa = lock.NewFastAwait[int64]()
	}
	for i := int64(0); i < p.G("used"); i++ {
		// alike to a key to come, but for one byte
		k := numKey(i%3, p.G("off")) ^ 5<<((i*5+3)%8*8)
		if i >= 24 {
			k = -1e9 - i*7919
		}
		if i%2 == 0 {
			fa.Wait(k, 1)
		} else {
			fa.WaitWithCancel(context.Background(), k, 1)
		}
	}
	return fa
}

// micro is a timeout of about ms milliseconds: p.us microseconds more or less.
func micro(p *Prog, ms int64) time.Duration {
	d := time.Duration(ms) * time.Millisecond
	if d > 0 {
		d += time.Duration(p.G("us")) * time.Microsecond
	}
	return d
}

func microGen(r *R) int64 {
	return r.Of(0, 0, 0, 0, r.In(1, 999), -r.In(1, 999), -999)
}

func hasID(p *Prog, id int64) bool {
	for _, t := range p.T {
		for _, o := range t {
			if o.G(0) == id {
				return true
			}
		}
	}
	return false
}

// weakHash makes the process's hash functions return p.weak values only.
func weakHash(p *Prog) {
	if w := p.G("weak"); w > 0 {
		sim.S.Data["hash-weak"] = w
		sim.S.Fault("weak-hash")
	}
}
