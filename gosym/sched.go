package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type vclock map[int]int

func (v vclock) copy() vclock {
	n := make(vclock, len(v))
	for k, x := range v {
		n[k] = x
	}
	return n
}
func (v vclock) join(o vclock) {
	for k, x := range o {
		if x > v[k] {
			v[k] = x
		}
	}
}

type lockState struct {
	writer  *G
	readers int
	wvc     vclock // released by writers
	rvc     vclock // released by readers
	wwait   int    // writers waiting
}

type shadowCell struct {
	wg, wc int
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

func (in *Interp) lock(p Ptr) *lockState {
	l, ok := in.locks[p]
	if !ok {
		l = &lockState{wvc: vclock{}, rvc: vclock{}}
		in.locks[p] = l
	}
	return l
}

func (in *Interp) tick(g *G) {
	if g.vc != nil {
		g.vc[g.id]++
	}
}

// ---- race detection ----

func (in *Interp) onRead(c Ptr) {
	if !in.cfg.Race || !in.multi || in.inInit {
		return
	}
	switch x := (*c).(type) {
	case *StructV:
		for i := range x.f {
			in.onRead(&x.f[i])
		}
		return
	case *ArrV:
		for i := range x.e {
			in.onRead(&x.e[i])
		}
		return
	}
	in.access(c, false)
}
func (in *Interp) onWrite(c Ptr) {
	if !in.cfg.Race || !in.multi || in.inInit {
		return
	}
	switch x := (*c).(type) {
	case *StructV:
		for i := range x.f {
			in.onWrite(&x.f[i])
		}
		return
	case *ArrV:
		for i := range x.e {
			in.onWrite(&x.e[i])
		}
		return
	}
	in.access(c, true)
}
func (in *Interp) onReadObj(m *MapV) {
	if m != nil && in.cfg.Race && in.multi && !in.inInit {
		in.access(m, false)
	}
}
func (in *Interp) onWriteObj(m *MapV) {
	if m != nil && in.cfg.Race && in.multi && !in.inInit {
		in.access(m, true)
	}
}

func (in *Interp) access(k interface{}, write bool) {
	g := in.cur
	if g == nil || g.id < 0 {
		return
	}
	if n := len(g.stack); n > 0 && g.stack[n-1].f.model {
		return
	}
	s, ok := in.shadow[k]
	if !ok {
		s = &shadowCell{wg: -1}
		in.shadow[k] = s
	}
	clk := g.vc[g.id]
	pos := ""
	if len(g.stack) > 0 {
		fr := g.stack[len(g.stack)-1]
		if s.wg != g.id || s.wc != clk {
			pos = fr.f.name + " " + in.posOf(fr)
		}
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc[s.wg] {
		kind := "read"
		if write {
			kind = "write"
		}
		in.race(fmt.Sprintf("data race: write at %s, concurrent %s at %s", s.wpos, kind, pos))
	}
	if write {
		var ids []int
		for r := range s.reads {
			ids = append(ids, r)
		}
		sort.Ints(ids)
		for _, r := range ids {
			if r != g.id && s.reads[r] > g.vc[r] {
				in.race(fmt.Sprintf("data race: read at %s, concurrent write at %s", s.rpos[r], pos))
			}
		}
		if s.wg != g.id || s.wc != clk {
			s.wg, s.wc, s.wpos = g.id, clk, pos
		}
		s.reads, s.rpos = nil, nil
		return
	}
	if s.reads == nil {
		s.reads = map[int]int{}
		s.rpos = map[int]string{}
	}
	if s.reads[g.id] != clk {
		s.reads[g.id] = clk
		s.rpos[g.id] = pos
	}
}

func (in *Interp) race(msg string) {
	in.report("race", msg, nil)
}

// ---- scheduling ----

func (in *Interp) spawn(g *G, fn Value, args []Value) {
	n := &G{id: len(in.gs), vc: g.vc.copy()}
	n.vc[n.id] = 1
	in.tick(g)
	in.gs = append(in.gs, n)
	in.multi = true
	// a trampoline frame so that callValue has a caller
	old := in.cur
	in.cur = n
	root := &Frame{f: in.tramp(), regs: nil, dst: -1}
	n.stack = append(n.stack, root)
	in.goStart(n, root, fn, args)
	in.cur = old
	in.eventAt(g, "go", 1, n.id, false)
}

func (in *Interp) goStart(n *G, root *Frame, fn Value, args []Value) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				in.startPanic(n, gp.v)
				return
			}
			panic(r)
		}
	}()
	if !in.callValue(n, root, fn, args, -1, false) {
		unsup("go of blocking intrinsic")
	}
	if len(n.stack) == 1 {
		n.status = gDone
		return
	}
	// drop the trampoline
	n.stack = n.stack[1:]
}

var trampFn = &cfn{name: "go"}

func (in *Interp) tramp() *cfn { return trampFn }

func (in *Interp) onGoExit(g *G) {}

// event records a visible operation of g for the replay of the schedule.
func (in *Interp) event(g *G, op string) {
	back := 1 // calls: the caller's pc has advanced
	switch op {
	case "send", "recv", "select", "close":
		back = 0
	}
	in.eventAt(g, op, back, -1, false)
}

func (in *Interp) eventAt(g *G, op string, back, child int, async bool) {
	if in.inInit || in.cfg.SchedMode == "none" || in.cfg.SchedMode == "" || g.id < 0 {
		return
	}
	for i := len(g.stack) - 1; i >= 0; i-- {
		fr := g.stack[i]
		if fr.f.fn == nil {
			return
		}
		if fr.f.fn.Pkg != nil && fr.f.fn.Pkg.Pkg.Path() == "sync/atomic" {
			continue
		}
		if fr.f.model {
			return
		}
		pos := token.NoPos
		if g.deferPos.IsValid() && i == len(g.stack)-1 {
			pos = g.deferPos
		} else if fr.block < len(fr.f.blocks) {
			if n := fr.pc - back; n >= 0 && n < len(fr.f.blocks[fr.block]) {
				pos = fr.f.blocks[fr.block][n].ins.Pos()
			}
		}
		if !pos.IsValid() {
			return
		}
		at, ok := in.posCache[pos]
		if !ok {
			p := in.P.fset.Position(pos)
			if instrumented(p.Filename) {
				at = fmt.Sprintf("%s:%d", p.Filename, p.Line)
			}
			in.posCache[pos] = at
		}
		if at != "" {
			in.sched = append(in.sched, schedEvent{g.id, op, at, child, async})
		}
		return
	}
}

func (in *Interp) runnable(g *G) bool {
	switch g.status {
	case gRun:
		return true
	case gPred:
		return g.ready()
	}
	return false
}

// candidates lists the goroutines that can run, the default first.
func (in *Interp) candidates(cur *G, includeCur bool) []*G {
	var r []*G
	n := len(in.gs)
	if includeCur && in.runnable(cur) {
		r = append(r, cur)
	}
	for k := 1; k < n; k++ {
		g := in.gs[(cur.id+k)%n]
		if in.runnable(g) {
			r = append(r, g)
		}
	}
	if in.cfg.SchedMode == "switch" {
		// preempted goroutines stay behind, the latest first
		b := r
		if includeCur && len(r) > 0 && r[0] == cur {
			b = r[1:]
		}
		sort.SliceStable(b, func(i, j int) bool {
			x, y := b[i].demoted, b[j].demoted
			return x != y && (x == 0 || y != 0 && x > y)
		})
	}
	return r
}

// pick selects among candidates within the budget. voluntary: the default is
// the running goroutine continuing.
func (in *Interp) pick(c []*G, voluntary bool) *G {
	if len(c) == 1 {
		return c[0]
	}
	k := 0
	switch in.cfg.SchedMode {
	case "preempt":
		if voluntary {
			if in.budget > 0 {
				k = in.choose(len(c))
				if k > 0 {
					in.budget--
				}
			}
		} else {
			k = in.choose(len(c))
		}
	case "switch":
		// the budget pays for preemptions, in favour of any goroutine
		if voluntary && in.budget > 0 {
			k = in.choose(len(c))
			if k > 0 {
				in.budget--
				in.demotions++
				c[0].demoted = in.demotions
			}
		}
	case "delay":
		m := in.budget + 1
		if m > len(c) {
			m = len(c)
		}
		k = in.choose(m)
		in.budget -= k
	}
	return c[k]
}

// schedPoint is called before a visible operation. true = switched away.
func (in *Interp) schedPoint(g *G, op string) bool {
	if in.inInit || g.id < 0 {
		return false
	}
	if g.passed {
		g.passed = false
		return false
	}
	if len(in.gs) < 2 {
		return false
	}
	if in.budget <= 0 || in.cfg.SchedMode == "none" || in.cfg.SchedMode == "" {
		return false
	}
	if len(in.cfg.At) > 0 && !in.within(g) {
		return false
	}
	c := in.candidates(g, true)
	if len(c) < 2 {
		return false
	}
	n := in.pick(c, true)
	if n == g {
		return false
	}
	g.passed = true
	in.switchTo(n)
	return true
}

// within says whether g runs one of the functions that may be preempted.
func (in *Interp) within(g *G) bool {
	for _, fr := range g.stack {
		if fr.f.fn != nil && in.cfg.At[fr.f.fn.Name()] {
			return true
		}
	}
	return false
}

func (in *Interp) switchTo(n *G) {
	if n.status == gPred {
		n.status = gRun
		if n.onWake != nil {
			n.onWake()
			n.onWake = nil
		}
	}
	n.demoted = 0
	in.cur = n
}

// yield switches to another runnable goroutine (Gosched, Sleep).
func (in *Interp) yield(g *G) {
	c := in.candidates(g, false)
	if len(c) == 0 {
		if in.wakeSleeper() {
			c = in.candidates(g, false)
		}
	}
	if len(c) == 0 {
		g.spins++
		if g.spins > in.cfg.SpinLimit {
			in.report("hang", "livelock: only a spinning goroutine can run", nil)
		}
		return
	}
	g.spins = 0
	in.spinRounds++
	if in.spinRounds%(4*len(in.gs)) == 0 {
		// goroutines that spin on each other do not keep the others behind forever
		for _, x := range in.gs {
			x.demoted = 0
		}
		c = in.candidates(g, false)
	}
	if in.spinRounds > in.cfg.SpinLimit*20 {
		in.report("hang", "livelock: goroutines only spin", nil)
	}
	in.switchTo(in.pick(c, false))
}

func (in *Interp) wakeSleeper() bool {
	var best *G
	for _, g := range in.gs {
		if g.status == gSleep && (best == nil || g.wakeAt < best.wakeAt) {
			best = g
		}
	}
	ti := -1
	for i, c := range in.timers {
		if (best == nil || c.fireAt < best.wakeAt) && (ti < 0 || c.fireAt < in.timers[ti].fireAt) {
			ti = i
		}
	}
	if ti >= 0 {
		c := in.timers[ti]
		in.timers = append(append([]*ChanV(nil), in.timers[:ti]...), in.timers[ti+1:]...)
		if c.fireAt > in.clock {
			in.clock = c.fireAt
		}
		in.fire(c)
		return true
	}
	if best == nil {
		return false
	}
	if best.wakeAt > in.clock {
		in.clock = best.wakeAt
	}
	best.status = gRun
	return true
}

// disarm makes a timer channel one that does not fire any more; it tells
// whether it would have.
func (in *Interp) disarm(c *ChanV) bool {
	was := c.isTime
	c.isTime = false
	for i, o := range in.timers {
		if o == c {
			in.timers = append(append([]*ChanV(nil), in.timers[:i]...), in.timers[i+1:]...)
			break
		}
	}
	return was
}

func (in *Interp) arm(c *ChanV, d Value) {
	c.isTime, c.fireAt = true, in.clock+1
	if t := d.(*Term); t.op == OpConst {
		c.fireAt = in.clock + sext(t.val, 64)
	}
	if c.fireAt <= in.clock && !in.timersMayFire {
		in.fire(c)
	} else {
		in.timers = append(in.timers, c)
	}
}

func (in *Interp) fire(c *ChanV) {
	c.isTime = false
	if w := popWaiter(&c.recvq); w != nil {
		in.parked(w, "recv")
		in.deliver(w, in.zero(c.et), true)
		return
	}
	c.buf = append(c.buf, in.zero(c.et))
	c.bufVC = append(c.bufVC, vclock{})
}

// block parks g (its status is already set) and runs something else.
func (in *Interp) reschedule(g *G) {
	c := in.candidates(g, true)
	for len(c) == 0 {
		if !in.wakeSleeper() {
			in.deadlock(g)
		}
		c = in.candidates(g, true)
	}
	in.switchTo(in.pick(c, false))
}

func (in *Interp) deadlock(g *G) {
	msg := "deadlock: all goroutines are blocked ("
	for i, x := range in.gs {
		if x.status == gDone {
			continue
		}
		if i > 0 {
			msg += "; "
		}
		where := ""
		if len(x.stack) > 0 {
			fr := x.stack[len(x.stack)-1]
			where = fr.f.name + " " + in.posOf(fr)
		}
		msg += fmt.Sprintf("g%d %s at %s", x.id, x.waitOn, where)
	}
	in.report("deadlock", msg+")", nil)
}

// runMain drives the program until the main goroutine ends.
func (in *Interp) runMain() {
	main := in.gs[0]
	for main.status != gDone {
		g := in.cur
		if g.status != gRun {
			in.reschedule(g)
			continue
		}
		in.step(g)
	}
}

// ---- channels ----

func (in *Interp) send(g *G, fr *Frame, c *ChanV, v Value) bool {
	if c == nil {
		g.status, g.waitOn = gChan, "send on nil channel"
		return false
	}
	if in.schedPoint(g, "send") {
		return false
	}
	if c.closed {
		panic(goPanic{Iface{t: rtErrType, v: Str{s: "send on closed channel"}}})
	}
	if w := popWaiter(&c.recvq); w != nil {
		in.parked(w, "recv")
		in.event(g, "send")
		in.chanSync(g, w.g)
		in.deliver(w, copyVal(v), true)
		fr.pc++
		return in.afterOp(g)
	}
	if len(c.buf) < c.cap {
		in.event(g, "send")
		c.buf = append(c.buf, copyVal(v))
		c.bufVC = append(c.bufVC, g.vc.copy())
		in.tick(g)
		fr.pc++
		return in.afterOp(g)
	}
	w := &waiter{g: g, val: copyVal(v), selIdx: -1}
	c.sendq = append(c.sendq, w)
	g.status, g.waitOn = gChan, "chan send"
	fr.pc++ // completed by the receiver
	return false
}

func (in *Interp) afterOp(g *G) bool { return true }

func (in *Interp) chanSync(a, b *G) {
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	in.tick(a)
	in.tick(b)
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel != nil {
			if w.sel.done {
				continue
			}
			w.sel.done = true
		}
		return w
	}
	return nil
}

// parked records the completion of an operation that was waiting.
func (in *Interp) parked(w *waiter, op string) {
	if w.sel != nil {
		op = "select"
	}
	in.eventAt(w.g, op, 1, -1, true)
}

// deliver completes a parked receiver.
func (in *Interp) deliver(w *waiter, v Value, ok bool) {
	w.g.status = gRun
	w.val, w.ok = v, ok
	fr := w.g.stack[len(w.g.stack)-1]
	ci := &fr.f.blocks[fr.block][fr.pc-1]
	switch ins := ci.ins.(type) {
	case *ssa.UnOp:
		if ins.CommaOk {
			fr.regs[ci.dst] = Tuple{v, in.ts.Bool(ok)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.Select:
		fr.regs[ci.dst] = in.selResult(ins, w.selIdx, v, ok)
	}
}

// release completes a parked sender.
func (in *Interp) releaseSender(w *waiter) {
	w.g.status = gRun
	fr := w.g.stack[len(w.g.stack)-1]
	ci := &fr.f.blocks[fr.block][fr.pc-1]
	if ins, ok := ci.ins.(*ssa.Select); ok {
		fr.regs[ci.dst] = in.selResult(ins, w.selIdx, nil, false)
	}
}

func (in *Interp) tryRecv(g *G, c *ChanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		g.vc.join(c.bufVC[0])
		c.bufVC = c.bufVC[1:]
		if w := popWaiter(&c.sendq); w != nil {
			in.parked(w, "send")
			c.buf = append(c.buf, w.val)
			c.bufVC = append(c.bufVC, w.g.vc.copy())
			in.tick(w.g)
			in.releaseSender(w)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		in.parked(w, "send")
		in.chanSync(g, w.g)
		in.releaseSender(w)
		return w.val, true, true
	}
	if c.closed {
		if c.vc != nil {
			g.vc.join(c.vc)
		}
		return in.zero(c.et), false, true
	}
	return nil, false, false
}

func (in *Interp) recv(g *G, fr *Frame, ci *cinstr, ins *ssa.UnOp, c *ChanV) bool {
	if c == nil {
		g.status, g.waitOn = gChan, "receive on nil channel"
		return false
	}
	if in.schedPoint(g, "recv") {
		return false
	}
	v, ok, done := in.tryRecv(g, c)
	if done {
		in.event(g, "recv")
		if ins.CommaOk {
			fr.regs[ci.dst] = Tuple{v, in.ts.Bool(ok)}
		} else {
			fr.regs[ci.dst] = v
		}
		fr.pc++
		return true
	}
	if c.isTime && in.timersMayFire {
		// nothing else pending: time passes, the timer fires when the
		// scheduler lets it
		g.status, g.wakeAt = gSleep, in.clock+1
		in.disarm(c)
		c.buf = append(c.buf, in.zero(c.et))
		c.bufVC = append(c.bufVC, vclock{})
		g.waitOn = "timer"
		return false
	}
	c.recvq = append(c.recvq, &waiter{g: g, selIdx: -1})
	g.status, g.waitOn = gChan, "chan receive"
	fr.pc++
	return false
}

func (in *Interp) chanClose(g *G, c *ChanV) {
	if c == nil {
		panic(goPanic{in.runtimeError("close of nil channel")})
	}
	if c.closed {
		panic(goPanic{in.runtimeError("close of closed channel")})
	}
	c.closed = true
	c.vc = g.vc.copy()
	in.tick(g)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		in.parked(w, "recv")
		w.g.vc.join(c.vc)
		in.deliver(w, in.zero(c.et), false)
	}
	in.event(g, "close")
}

func (in *Interp) selResult(ins *ssa.Select, idx int, v Value, ok bool) Value {
	// (index int, recvOk bool, r_0 T_0, ...)
	t := Tuple{in.int(idx), in.ts.Bool(ok)}
	for i, st := range ins.States {
		if st.Dir == 2 { // types.RecvOnly
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

func (in *Interp) selectOp(g *G, fr *Frame, ci *cinstr, ins *ssa.Select) bool {
	if in.schedPoint(g, "select") {
		return false
	}
	var ready []int
	chans := make([]*ChanV, len(ins.States))
	timers := []int{}
	for i, st := range ins.States {
		c, _ := in.get(fr, ci.ops[2*i]).(*ChanV)
		chans[i] = c
		if c == nil {
			continue
		}
		if st.Dir == 2 {
			if len(c.buf) > 0 || c.closed || hasWaiter(c.sendq) {
				ready = append(ready, i)
			} else if c.isTime && in.timersMayFire {
				timers = append(timers, i)
			}
		} else {
			if c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq) {
				ready = append(ready, i)
			}
		}
	}
	// a pending timer may fire at any moment
	all := append(append([]int(nil), ready...), timers...)
	if len(all) > 0 && (len(ready) > 0 || in.timersMayFire) {
		if len(ready) > 0 && !in.timersMayFire {
			all = ready
		}
		n := len(all)
		k := 0
		if n > 1 {
			k = in.choose(n)
		}
		if k >= len(ready) && len(ready) == 0 && k == 0 && ins.Blocking {
			// only timers: either the timer fires now or others run first
			if c := in.candidates(g, false); len(c) > 0 && in.choose(2) == 0 {
				in.switchTo(in.pick(c, false))
				return false
			}
		}
		i := all[k]
		c := chans[i]
		in.event(g, "select")
		if ins.States[i].Dir == 2 {
			if c.isTime && len(c.buf) == 0 {
				in.disarm(c)
				fr.regs[ci.dst] = in.selResult(ins, i, in.zero(c.et), true)
			} else {
				v, ok, _ := in.tryRecv(g, c)
				fr.regs[ci.dst] = in.selResult(ins, i, v, ok)
			}
		} else {
			v := copyVal(in.get(fr, ci.ops[2*i+1]))
			if c.closed {
				panic(goPanic{Iface{t: rtErrType, v: Str{s: "send on closed channel"}}})
			}
			if w := popWaiter(&c.recvq); w != nil {
				in.parked(w, "recv")
				in.chanSync(g, w.g)
				in.deliver(w, v, true)
			} else {
				c.buf = append(c.buf, v)
				c.bufVC = append(c.bufVC, g.vc.copy())
				in.tick(g)
			}
			fr.regs[ci.dst] = in.selResult(ins, i, nil, false)
		}
		fr.pc++
		return true
	}
	if !ins.Blocking {
		in.event(g, "select")
		fr.regs[ci.dst] = in.selResult(ins, -1, nil, false)
		fr.pc++
		return true
	}
	if len(timers) > 0 {
		// park until a channel is ready or nothing else can run
		ch := chans
		st := ins.States
		g.status = gPred
		g.waitOn = "select"
		g.ready = func() bool {
			for i, s := range st {
				c := ch[i]
				if c == nil {
					continue
				}
				if s.Dir == 2 && (len(c.buf) > 0 || c.closed || hasWaiter(c.sendq)) {
					return true
				}
				if s.Dir != 2 && (c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq)) {
					return true
				}
			}
			// quiescent: let the timer fire
			for _, o := range in.gs {
				if o != g && (o.status == gRun) {
					return false
				}
			}
			for _, i := range timers {
				c := ch[i]
				in.disarm(c)
				c.buf = append(c.buf, in.zero(c.et))
				c.bufVC = append(c.bufVC, vclock{})
			}
			return true
		}
		return false
	}
	ss := &selState{}
	for i, st := range ins.States {
		c := chans[i]
		if c == nil {
			continue
		}
		w := &waiter{g: g, selIdx: i, sel: ss}
		if st.Dir == 2 {
			c.recvq = append(c.recvq, w)
		} else {
			w.val = copyVal(in.get(fr, ci.ops[2*i+1]))
			c.sendq = append(c.sendq, w)
		}
	}
	g.status, g.waitOn = gChan, "select"
	fr.pc++
	return false
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.done {
			return true
		}
	}
	return false
}
