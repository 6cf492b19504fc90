package scen

import (
	"fmt"
	"sort"
	"strings"

	"github.com/donnie4w/gofer/verifsim/sim"
)

// HOp is one completed (or still pending) operation of a history. Call and
// Ret are positions in the run's total event order.
type HOp struct {
	Task int
	Name string
	In   []int64
	Out  []int64
	Call int
	Ret  int // 0 = never returned
	Aux  any
}

func (h *HOp) String() string {
	if h.Ret == 0 {
		return fmt.Sprintf("T%d %s%v -> pending [%d,)", h.Task, h.Name, h.In, h.Call)
	}
	return fmt.Sprintf("T%d %s%v -> %v [%d,%d]", h.Task, h.Name, h.In, h.Out, h.Call, h.Ret)
}

type Hist struct {
	seq int
	Ops []*HOp
}

func (h *Hist) Call(task int, name string, in ...int64) *HOp {
	h.seq++
	o := &HOp{Task: task, Name: name, In: in, Call: h.seq}
	h.Ops = append(h.Ops, o)
	logf("call %s%v", name, in)
	return o
}

func (h *Hist) Ret(o *HOp, out ...int64) {
	h.seq++
	o.Out = out
	o.Ret = h.seq
	logf("ret  %s%v -> %v", o.Name, o.In, out)
}

// Mark gives a position in the event order.
func (h *Hist) Mark() int { h.seq++; return h.seq }

func (h *Hist) Dump() string {
	var b strings.Builder
	for _, o := range h.Ops {
		b.WriteString("\n  ")
		b.WriteString(o.String())
	}
	return b.String()
}

// Model is a sequential specification; states are immutable values with a key.
type Model struct {
	Init any
	// Step applies the operation; for a pending operation o.Ret == 0 and any
	// output is acceptable.
	Step func(st any, o *HOp) (any, bool)
	Key  func(st any) string
}

const linBudget = 400000

// CheckLin decides whether ops is linearizable. unknown: the node budget ran out.
func CheckLin(ops []*HOp, m Model) (ok, unknown bool) {
	sort.SliceStable(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	n := len(ops)
	if n == 0 {
		return true, false
	}
	inOrder := true
	for i, o := range ops {
		inOrder = inOrder && o.Ret != 0 && (i == 0 || ops[i-1].Ret < o.Call)
	}
	if inOrder {
		st := m.Init
		for _, o := range ops {
			var good bool
			if st, good = m.Step(st, o); !good {
				return false, false
			}
		}
		return true, false
	}
	words := (n + 63) / 64
	rem := make([]uint64, words)
	must := 0
	for i, o := range ops {
		rem[i/64] |= 1 << (i % 64)
		if o.Ret != 0 {
			must++
		}
	}
	seen := map[string]bool{}
	nodes := 0
	var dfs func(st any, left int) bool
	dfs = func(st any, left int) bool {
		if left == 0 {
			return true
		}
		nodes++
		if nodes > linBudget {
			unknown = true
			return false
		}
		var kb strings.Builder
		for _, w := range rem {
			for s := 0; s < 64; s += 8 {
				kb.WriteByte(byte(w >> s))
			}
		}
		kb.WriteString(m.Key(st))
		k := kb.String()
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int(^uint(0) >> 1)
		for i, o := range ops {
			if rem[i/64]&(1<<(i%64)) != 0 && o.Ret != 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range ops {
			if o.Call > minRet {
				break
			}
			if rem[i/64]&(1<<(i%64)) == 0 {
				continue
			}
			ns, good := m.Step(st, o)
			if !good {
				continue
			}
			rem[i/64] &^= 1 << (i % 64)
			l := left
			if o.Ret != 0 {
				l--
			}
			if dfs(ns, l) {
				return true
			}
			rem[i/64] |= 1 << (i % 64)
			if unknown {
				return false
			}
		}
		return false
	}
	ok = dfs(m.Init, must)
	return ok, unknown
}

// Linear fails the run when the history is not linearizable.
func Linear(class string, h *Hist, m Model) { LinearOps(class, h.Ops, m) }

func LinearOps(class string, ops []*HOp, m Model) {
	ok, unknown := CheckLin(ops, m)
	if unknown {
		sim.Probe("lin-inconclusive")
		return
	}
	sim.Probe("lin-checked")
	if !ok {
		var b strings.Builder
		for _, o := range ops {
			b.WriteString("\n  ")
			b.WriteString(o.String())
		}
		sim.Fail(class, "history has no sequential explanation:%s", b.String())
	}
}
