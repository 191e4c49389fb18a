package vmodel

import (
	"context"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/zzverif/vsym"
)

// sync.Map

type table struct {
	mu   sync.Mutex
	vals map[interface{}]interface{}
	keys []interface{} // in the order of their first use
}

var tables = map[*sync.Map]*table{}

func of(m *sync.Map) *table {
	t := tables[m]
	if t == nil {
		t = &table{vals: map[interface{}]interface{}{}}
		tables[m] = t
	}
	return t
}

func (t *table) set(k, v interface{}) {
	if _, ok := t.vals[k]; !ok {
		t.keys = append(t.keys, k)
	}
	t.vals[k] = v
}

func (t *table) drop(k interface{}) {
	if _, ok := t.vals[k]; !ok {
		return
	}
	delete(t.vals, k)
	for i, o := range t.keys {
		if o == k {
			t.keys = append(append([]interface{}(nil), t.keys[:i]...), t.keys[i+1:]...)
			return
		}
	}
}

//vsym:replace (*sync.Map).Load
func MapLoad(m *sync.Map, k interface{}) (interface{}, bool) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.vals[k]
	return v, ok
}

//vsym:replace (*sync.Map).Store
func MapStore(m *sync.Map, k, v interface{}) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.set(k, v)
}

//vsym:replace (*sync.Map).Clear
func MapClear(m *sync.Map) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	t.vals, t.keys = map[interface{}]interface{}{}, nil
}

//vsym:replace (*sync.Map).LoadOrStore
func MapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	if old, ok := t.vals[k]; ok {
		return old, true
	}
	t.set(k, v)
	return v, false
}

//vsym:replace (*sync.Map).LoadAndDelete
func MapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	v, ok := t.vals[k]
	t.drop(k)
	return v, ok
}

//vsym:replace (*sync.Map).Delete
func MapDelete(m *sync.Map, k interface{}) { MapLoadAndDelete(m, k) }

//vsym:replace (*sync.Map).Swap
func MapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	old, ok := t.vals[k]
	t.set(k, v)
	return old, ok
}

//vsym:replace (*sync.Map).CompareAndSwap
func MapCompareAndSwap(m *sync.Map, k, old, v interface{}) bool {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	was, ok := t.vals[k]
	if !ok || was != old {
		return false
	}
	t.set(k, v)
	return true
}

//vsym:replace (*sync.Map).CompareAndDelete
func MapCompareAndDelete(m *sync.Map, k, old interface{}) bool {
	t := of(m)
	t.mu.Lock()
	defer t.mu.Unlock()
	was, ok := t.vals[k]
	if !ok || was != old {
		return false
	}
	t.drop(k)
	return true
}

//vsym:replace (*sync.Map).Range
func MapRange(m *sync.Map, f func(k, v interface{}) bool) {
	t := of(m)
	t.mu.Lock()
	keys := append([]interface{}(nil), t.keys...)
	t.mu.Unlock()
	for _, k := range keys {
		if v, ok := MapLoad(m, k); ok && !f(k, v) {
			return
		}
	}
}

// sync.Cond

var waiting = map[*sync.Cond][]chan struct{}{}

//vsym:replace (*sync.Cond).Wait
func CondWait(c *sync.Cond) {
	ch := make(chan struct{}, 1)
	waiting[c] = append(waiting[c], ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

//vsym:replace (*sync.Cond).Signal
func CondSignal(c *sync.Cond) {
	if w := waiting[c]; len(w) > 0 {
		waiting[c] = w[1:]
		w[0] <- struct{}{}
	}
}

//vsym:replace (*sync.Cond).Broadcast
func CondBroadcast(c *sync.Cond) {
	w := waiting[c]
	waiting[c] = nil
	for _, ch := range w {
		ch <- struct{}{}
	}
}

// atomic.Value

type cell struct {
	mu sync.Mutex
	v  interface{}
}

var cells = map[*atomic.Value]*cell{}

func in(v *atomic.Value) *cell {
	c := cells[v]
	if c == nil {
		c = new(cell)
		cells[v] = c
	}
	return c
}

//vsym:replace (*sync/atomic.Value).Load
func ValueLoad(v *atomic.Value) interface{} {
	c := in(v)
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.v
}

//vsym:replace (*sync/atomic.Value).Store
func ValueStore(v *atomic.Value, x interface{}) { ValueSwap(v, x) }

//vsym:replace (*sync/atomic.Value).Swap
func ValueSwap(v *atomic.Value, x interface{}) interface{} {
	if x == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	c := in(v)
	c.mu.Lock()
	defer c.mu.Unlock()
	old := c.v
	c.v = x
	return old
}

//vsym:replace (*sync/atomic.Value).CompareAndSwap
func ValueCompareAndSwap(v *atomic.Value, old, x interface{}) bool {
	c := in(v)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.v != old {
		return false
	}
	c.v = x
	return true
}

// Timers

//vsym:replace time.NewTimer
func NewTimer(d time.Duration) *time.Timer { return &time.Timer{C: time.After(d)} }

type later struct {
	stop chan struct{}
	f    func()
	over bool
}

var laters = map[*time.Timer]*later{}

func (l *later) run(d time.Duration) {
	stop := make(chan struct{}, 1)
	l.stop, l.over = stop, false
	after := time.After(d)
	go func() {
		select {
		case <-after:
			l.over = true
			l.f()
		case <-stop:
		}
	}()
}

func (l *later) end() bool {
	was := !l.over
	l.over = true
	if was {
		l.stop <- struct{}{}
	}
	return was
}

//vsym:replace time.AfterFunc
func AfterFunc(d time.Duration, f func()) *time.Timer {
	t := new(time.Timer)
	laters[t] = &later{f: f}
	laters[t].run(d)
	return t
}

//vsym:replace (*time.Timer).Stop
func TimerStop(t *time.Timer) bool {
	if l := laters[t]; l != nil {
		return l.end()
	}
	return vsym.Disarm(t.C)
}

//vsym:replace (*time.Timer).Reset
func TimerReset(t *time.Timer, d time.Duration) bool {
	if l := laters[t]; l != nil {
		was := l.end()
		l.run(d)
		return was
	}
	was := vsym.Disarm(t.C)
	vsym.Arm(t.C, d)
	return was
}

var ended = map[*time.Ticker]bool{}

//vsym:replace time.NewTicker
func NewTicker(d time.Duration) *time.Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &time.Ticker{C: c}
	go func() {
		for {
			time.Sleep(d)
			if ended[t] {
				return
			}
			select {
			case c <- time.Now():
			default:
			}
		}
	}()
	return t
}

//vsym:replace time.Tick
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }

//vsym:replace (*time.Ticker).Stop
func TickerStop(t *time.Ticker) { ended[t] = true }

//vsym:replace time.Until
func Until(t time.Time) time.Duration { return t.Sub(time.Now()) }

// Contexts

type ctx struct {
	parent   context.Context
	done     chan struct{}
	err      error
	over     bool
	deadline time.Time
	timed    bool
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.timed {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{}           { return c.done }
func (c *ctx) Value(k interface{}) interface{} { return c.parent.Value(k) }
func (c *ctx) Err() error                      { return c.err }

func (c *ctx) end(err error) {
	if !c.over {
		c.over, c.err = true, err
		close(c.done)
	}
}

func derive(parent context.Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	if up := parent.Done(); up != nil {
		go func() {
			select {
			case <-up:
				c.end(parent.Err())
			case <-c.done:
			}
		}()
	}
	return c
}

//vsym:replace context.WithCancel
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := derive(parent)
	return c, func() { c.end(context.Canceled) }
}

//vsym:replace context.WithTimeout
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, time.Now().Add(d))
}

//vsym:replace context.WithDeadline
func WithDeadline(parent context.Context, at time.Time) (context.Context, context.CancelFunc) {
	c := derive(parent)
	c.deadline, c.timed = at, true
	timer := time.After(at.Sub(time.Now()))
	go func() {
		select {
		case <-timer:
			c.end(context.DeadlineExceeded)
		case <-c.done:
		}
	}()
	return c, func() { c.end(context.Canceled) }
}

type valued struct {
	context.Context
	k, v interface{}
}

func (c *valued) Value(k interface{}) interface{} {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

//vsym:replace context.WithValue
func WithValue(parent context.Context, k, v interface{}) context.Context {
	return &valued{parent, k, v}
}
