package sim

// WaitQ is a queue of parked tasks.
type WaitQ struct{ q []*Task }

func (w *WaitQ) Wait(why string) {
	s := S
	if s == nil || s.Cur == nil {
		panic(Fatal{"sim: would block outside a run: " + why})
	}
	t := s.Cur
	w.q = append(w.q, t)
	defer w.remove(t)
	s.block(why)
}

func (w *WaitQ) remove(t *Task) {
	for i, x := range w.q {
		if x == t {
			w.q = append(w.q[:i:i], w.q[i+1:]...)
			return
		}
	}
}

func (w *WaitQ) WakeAll() {
	if S == nil {
		return
	}
	for _, t := range w.q {
		S.Ready(t)
	}
}

// WakeOne readies one waiter, chosen by the seed.
func (w *WaitQ) Len() int { return len(w.q) }
