package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduler: exactly one interpreted goroutine runs at a time.

type gExit struct{ r any }

func (w *W) spawn(fr *frame, fn value, args []value) {
	if w.initing != nil {
		return // goroutines started by package initialisers are not modelled
	}
	g := &G{id: len(w.gs), wake: make(chan struct{}), why: "new"}
	w.gs = append(w.gs, g)
	w.wgNative.Add(1)
	go func() {
		defer w.wgNative.Done()
		<-g.wake
		if g.killed {
			g.done = true
			w.mainWake <- nil
			return
		}
		var res any
		func() {
			defer func() {
				if r := recover(); r != nil {
					res = r
				}
			}()
			w.call(g, nil, fn, args)
		}()
		g.done = true
		if _, ok := res.(killG); ok {
			w.mainWake <- nil
			return
		}
		if res != nil {
			// propagate to the path driver (goroutine 0's native stack)
			if tp, ok := res.(targetPanic); ok {
				res = violationFromPanic(w, tp, "goroutine")
			}
			w.crossPanic = res
			w.switchTo(w.gs[0], g)
			return
		}
		w.scheduleFrom(g)
	}()
	w.schedPoint(fr.g, "go")
}

// switchTo hands the token to g; called by a goroutine that will not run any more.
func (w *W) switchTo(g *G, from *G) {
	w.cur = g
	g.wake <- struct{}{}
}

// scheduleFrom is called by a finished goroutine.
func (w *W) scheduleFrom(from *G) {
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				w.crossPanic = r
				next = w.gs[0]
			}
		}()
		next = w.pickNext(nil)
	}()
	w.switchTo(next, from)
}

func (w *W) runnable() []*G {
	var r []*G
	for _, g := range w.gs {
		if g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			r = append(r, g)
		}
	}
	return r
}

// pickNext selects the next goroutine; cur is preferred when it is runnable (nil: none).
func (w *W) pickNext(cur *G) *G {
	for {
		rs := w.runnable()
		if len(rs) == 0 {
			if w.fireTimer() {
				continue
			}
			why := ""
			for _, g := range w.gs {
				if !g.done {
					why += fmt.Sprintf("g%d:%s ", g.id, g.why)
					if g.top != nil {
						why += "at " + g.top.where() + " "
					}
				}
			}
			panic(pathEnd{"deadlock", why})
		}
		if len(rs) == 1 {
			return rs[0]
		}
		// order: cur first, then round robin after the last scheduled one
		ord := make([]*G, 0, len(rs))
		base := 0
		if cur != nil {
			base = cur.id
			for _, g := range rs {
				if g == cur {
					ord = append(ord, g)
				}
			}
		}
		for k := 1; k <= len(w.gs); k++ {
			id := (base + k) % len(w.gs)
			for _, g := range rs {
				if g.id == id && g != cur {
					ord = append(ord, g)
				}
			}
		}
		if w.schedMode == 0 {
			return ord[0]
		}
		if w.schedMode == 2 { // a bounded number of deviations from the deterministic schedule
			if w.preemptions >= w.maxPreempt {
				return ord[0]
			}
			i := w.choose("sched", len(ord))
			if i > 0 {
				w.preemptions++
			}
			return ord[i]
		}
		// nondeterministic schedule with a bounded number of preemptions
		if cur != nil && ord[0] == cur {
			if w.preemptions >= w.maxPreempt {
				return cur
			}
			i := w.choose("sched", len(ord))
			if i > 0 {
				w.preemptions++
			}
			return ord[i]
		}
		return ord[w.choose("sched", len(ord))]
	}
}

// schedPoint: a visible operation; the scheduler may preempt.
func (w *W) schedPoint(g *G, why string) {
	if w.schedMode == 0 || w.initing != nil {
		return
	}
	next := w.pickNext(g)
	if next != g {
		w.transfer(g, next)
	}
}

func (w *W) yield(g *G) {
	g.ready = nil
	if len(w.runnable()) <= 1 {
		// let timers progress so spinning loops see time pass
		w.fireTimerIfIdle()
	}
	next := w.pickNextOther(g)
	if next != g {
		w.transfer(g, next)
	}
}

func (w *W) pickNextOther(g *G) *G {
	if w.schedMode != 0 && len(w.runnable()) > 1 {
		return w.pickNext(g)
	}
	return w.pickOther(g)
}

// pickOther is the next goroutine after g that can run.
func (w *W) pickOther(g *G) *G {
	rs := w.runnable()
	if len(rs) == 1 {
		return rs[0]
	}
	for k := 1; k <= len(w.gs); k++ {
		id := (g.id + k) % len(w.gs)
		for _, x := range rs {
			if x.id == id {
				return x
			}
		}
	}
	return g
}

// block suspends g until ready() holds.
func (w *W) block(g *G, why string, ready func() bool) {
	if w.initing != nil {
		if ready() {
			return
		}
		panic(unsupported{"blocking in package init"})
	}
	g.why = why
	g.ready = ready
	next := w.pickNext(g)
	if next != g {
		w.transfer(g, next)
	}
	g.ready = nil
	g.why = "running"
}

func (w *W) transfer(from, to *G) {
	saveTop := from.top
	w.cur = to
	w.switches++
	to.wake <- struct{}{}
	<-from.wake
	if from.killed {
		panic(killG{})
	}
	w.cur = from
	from.top = saveTop
	if from.id == 0 && w.crossPanic != nil {
		r := w.crossPanic
		w.crossPanic = nil
		panic(r)
	}
}

// killAll terminates the remaining interpreted goroutines at the end of a path.
func (w *W) killAll() {
	for _, g := range w.gs[1:] {
		if g.done {
			continue
		}
		g.killed = true
		g.wake <- struct{}{}
		<-w.mainWake
	}
	w.wgNative.Wait()
}

// ---- virtual time ----

type timer struct {
	at     int64
	period int64
	fire   func()
	active bool
	seq    int
}

func (w *W) addTimer(d int64, period int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{at: w.vnow + d, period: period, fire: fire, active: true, seq: len(w.timers)}
	w.timers = append(w.timers, t)
	return t
}

func (w *W) fireTimer() bool {
	var best *timer
	for _, t := range w.timers {
		if t.active && (best == nil || t.at < best.at) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	w.timerFires++
	if w.timerFires > 2000 {
		panic(pathEnd{"budget", "timer fires (no progress)"})
	}
	if best.at > w.vnow {
		w.vnow = best.at
	}
	if best.period > 0 {
		best.at = w.vnow + best.period
	} else {
		best.active = false
	}
	best.fire()
	return true
}

func (w *W) fireTimerIfIdle() { w.fireTimer() }

// ---- channels ----

func (w *W) asChan(c value) *Chan {
	ch, ok := c.(*Chan)
	if !ok {
		panic(unsupported{fmt.Sprintf("channel op on %T", c)})
	}
	return ch
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.sel != nil {
			if x.sel.fired {
				continue
			}
			x.sel.fired = true
			x.sel.idx = x.idx
		}
		return x
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if x.sel == nil || !x.sel.fired {
			return true
		}
	}
	return false
}

func (w *W) trySend(c *Chan, v value) bool {
	if c.closed {
		w.goPanicStr("send on closed channel")
	}
	if r := deq(&c.recvq); r != nil {
		if r.sel != nil {
			r.sel.v, r.sel.ok = v, true
		}
		r.v, r.ok, r.done = v, true, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf[:len(c.buf):len(c.buf)], v)
		return true
	}
	return false
}

func (w *W) tryRecv(c *Chan, elem types.Type) (value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if s := deq(&c.sendq); s != nil {
			c.buf = append(c.buf[:len(c.buf):len(c.buf)], s.v)
			s.done = true
		}
		return v, true, true
	}
	if s := deq(&c.sendq); s != nil {
		s.done = true
		return s.v, true, true
	}
	if c.closed {
		return w.zero(elem), false, true
	}
	return nil, false, false
}

func (w *W) chanSend(g *G, cv, v value) {
	c := w.asChan(cv)
	w.schedPoint(g, "send")
	if c == nil {
		w.block(g, "send on nil channel", func() bool { return false })
	}
	v = copyVal(v)
	if w.trySend(c, v) {
		return
	}
	wt := &waiter{g: g, v: v}
	c.sendq = append(c.sendq, wt)
	w.block(g, "chan send", func() bool { return wt.done || c.closed })
	if !wt.done {
		w.goPanicStr("send on closed channel")
	}
}

func (w *W) chanRecv(g *G, cv value, ct types.Type) (value, *Term) {
	c := w.asChan(cv)
	w.schedPoint(g, "recv")
	if c == nil {
		w.block(g, "recv on nil channel", func() bool { return false })
	}
	elem := ct.Underlying().(*types.Chan).Elem()
	if v, ok, done := w.tryRecv(c, elem); done {
		return v, w.tc.Bool(ok)
	}
	wt := &waiter{g: g}
	c.recvq = append(c.recvq, wt)
	w.block(g, "chan recv", func() bool { return wt.done || c.closed })
	if wt.done {
		return wt.v, w.tc.Bool(wt.ok)
	}
	return w.zero(elem), w.tc.F
}

func (w *W) chanClose(cv value) {
	c := w.asChan(cv)
	if c == nil {
		w.goPanicStr("close of nil channel")
	}
	if c.closed {
		w.goPanicStr("close of closed channel")
	}
	c.closed = true
}

func (w *W) selectOp(fr *frame, in *ssa.Select) value {
	g := fr.g
	w.schedPoint(g, "select")
	type st struct {
		c    *Chan
		send bool
		v    value
		elem types.Type
	}
	sts := make([]st, len(in.States))
	for i, s := range in.States {
		c := w.asChan(fr.get(s.Chan))
		sts[i] = st{c: c, send: s.Dir == types.SendOnly, elem: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if sts[i].send {
			sts[i].v = copyVal(fr.get(s.Send))
		}
	}
	readyAt := func(i int) bool {
		s := sts[i]
		if s.c == nil {
			return false
		}
		if s.send {
			return s.c.closed || hasWaiter(s.c.recvq) || len(s.c.buf) < s.c.cap
		}
		return len(s.c.buf) > 0 || hasWaiter(s.c.sendq) || s.c.closed
	}
	result := func(idx int, v value, ok bool) value {
		t := tuple{w.tc.BV(64, uint64(int64(idx))), w.tc.Bool(ok)}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, w.zero(s.elem))
			}
		}
		return t
	}
	var cand []int
	for i := range sts {
		if readyAt(i) {
			cand = append(cand, i)
		}
	}
	if len(cand) > 0 {
		k := cand[0]
		if len(cand) > 1 && (w.schedMode == 1 || w.schedMode == 2 && w.preemptions < w.maxPreempt || w.selectNondet) {
			i := w.choose("select", len(cand))
			if i > 0 && w.schedMode == 2 {
				w.preemptions++
			}
			k = cand[i]
		}
		s := sts[k]
		if s.send {
			w.trySend(s.c, s.v)
			return result(k, nil, false)
		}
		v, ok, _ := w.tryRecv(s.c, s.elem)
		return result(k, v, ok)
	}
	if !in.Blocking {
		// give other goroutines a chance: a polling loop must not starve them
		w.pollCount++
		if w.schedMode == 0 && w.pollCount%8 == 0 {
			w.yield(g)
		}
		return result(-1, nil, false)
	}
	sel := &selState{}
	var ws []*waiter
	for i, s := range sts {
		if s.c == nil {
			ws = append(ws, nil)
			continue
		}
		wt := &waiter{g: g, sel: sel, idx: i, v: s.v}
		ws = append(ws, wt)
		if s.send {
			s.c.sendq = append(s.c.sendq, wt)
		} else {
			s.c.recvq = append(s.c.recvq, wt)
		}
	}
	closedAt := func() int {
		for i, s := range sts {
			if s.c != nil && s.c.closed {
				return i
			}
		}
		return -1
	}
	w.block(g, "select", func() bool { return sel.fired || closedAt() >= 0 })
	if sel.fired {
		s := sts[sel.idx]
		if s.send {
			return result(sel.idx, nil, false)
		}
		return result(sel.idx, sel.v, sel.ok)
	}
	sel.fired = true
	i := closedAt()
	if sts[i].send {
		w.goPanicStr("send on closed channel")
	}
	return result(i, nil, false)
}
