//go:build go1.18

package vsym

import (
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Native replay of a schedule. Every operation that the encoding orders is
// preceded by a gate; the gates open in the recorded order.

type schedEvent struct {
	G     int
	Op    string
	Pos   string
	Child int
	Async bool
}

var (
	sc      sync.Mutex
	sw      = sync.NewCond(&sc)
	active  bool // a schedule is being followed
	events  []schedEvent
	queue   map[int][]int // goroutine -> indexes of its events
	cur     int
	holder  = -1
	ids     = map[uint64]int{}
	moved   time.Time
	freeWhy string
)

func goid() uint64 {
	var b [64]byte
	s := string(b[:runtime.Stack(b[:], false)])
	s = strings.TrimPrefix(s, "goroutine ")
	n, _ := strconv.ParseUint(s[:strings.IndexByte(s, ' ')], 10, 64)
	return n
}

// Begin starts following the schedule of the replay file, if it has one.
func Begin() {
	load()
	if len(rep.Sched) == 0 {
		return
	}
	if rep.Pace > 0 {
		beginPace()
		return
	}
	sc.Lock()
	defer sc.Unlock()
	events = rep.Sched
	queue = map[int][]int{}
	for i, e := range events {
		queue[e.G] = append(queue[e.G], i)
	}
	active = true
	ids[goid()] = 0
	holder = 0
	moved = time.Now()
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			sc.Lock()
			if !active {
				sc.Unlock()
				return
			}
			if time.Since(moved) > 2*time.Second {
				free("stuck")
			}
			sc.Unlock()
		}
	}()
}

func free(why string) {
	active = false
	freeWhy = why
	if cur < len(events) {
		println("VSYM-SCHED free at", cur, "of", len(events), why, events[cur].G, events[cur].Op, events[cur].Pos)
	} else {
		println("VSYM-SCHED followed", len(events), "events")
	}
	sw.Broadcast()
}

func step() {
	cur++
	moved = time.Now()
	if cur >= len(events) {
		free("end")
	}
	sw.Broadcast()
}

// at says whether the site "file:from:to" contains the position "file:line".
func at(site, pos string) bool {
	i := strings.LastIndexByte(site, ':')
	to, _ := strconv.Atoi(site[i+1:])
	j := strings.LastIndexByte(site[:i], ':')
	from, _ := strconv.Atoi(site[j+1 : i])
	k := strings.LastIndexByte(pos, ':')
	line, _ := strconv.Atoi(pos[k+1:])
	return site[:j] == pos[:k] && from <= line && line <= to
}

// Pt lets the goroutine's next operation proceed when it is its turn. It
// returns the event, or nil when no schedule is being followed.
func Pt(site string) *schedEvent {
	if paced {
		return pace(site)
	}
	sc.Lock()
	defer sc.Unlock()
	if !active {
		return nil
	}
	g, ok := ids[goid()]
	if !ok {
		return nil
	}
	release(g)
	if len(queue[g]) == 0 {
		for active {
			sw.Wait()
		}
		return nil
	}
	idx := queue[g][0]
	e := &events[idx]
	if !at(site, e.Pos) {
		free("expected " + e.Pos + " at " + site)
		return nil
	}
	for active && !(cur == idx && holder == -1) {
		sw.Wait()
	}
	if !active {
		return nil
	}
	queue[g] = queue[g][1:]
	if e.Async {
		// completed by the next event: let it be waiting by then
		holder = -2
		step()
		go func() {
			time.Sleep(3 * time.Millisecond)
			sc.Lock()
			if holder == -2 {
				holder = -1
			}
			sw.Broadcast()
			sc.Unlock()
		}()
		return e
	}
	holder = g
	step()
	return e
}

func release(g int) {
	if holder == g {
		holder = -1
		sw.Broadcast()
	}
}

// P is Pt in an expression.
func P[T any](site string, v T) T {
	Pt(site)
	return v
}

// Go is called before a go statement.
func Go(site string) int {
	if e := Pt(site); e != nil {
		return e.Child
	}
	return -1
}

// Enter is called first by a started goroutine.
func Enter(id int) {
	if id < 0 {
		return
	}
	if paced {
		enterPace(id)
		return
	}
	sc.Lock()
	defer sc.Unlock()
	ids[goid()] = id
	if !active || len(queue[id]) == 0 {
		return
	}
}

// Exit is called last by a started goroutine.
func Exit() {
	if paced {
		return
	}
	sc.Lock()
	defer sc.Unlock()
	if g, ok := ids[goid()]; ok {
		release(g)
	}
}

// turn gives up the token until the goroutine's next event is due.
func turn() bool {
	if paced {
		return waitPace()
	}
	sc.Lock()
	defer sc.Unlock()
	if !active {
		return false
	}
	g, ok := ids[goid()]
	if !ok {
		return false
	}
	release(g)
	for active && !(len(queue[g]) > 0 && cur == queue[g][0] && holder == -1) {
		sw.Wait()
	}
	return active
}

// Yield stands for runtime.Gosched.
func Yield(f func()) {
	if !turn() {
		f()
	}
}

// Sleep stands for time.Sleep.
func Sleep(f func(time.Duration), d time.Duration) {
	if !turn() {
		f(d)
	}
}

// A schedule that ends in a data race is followed by the clock alone, so that
// following it does not order the goroutines for the race detector: each event
// has its time. What is shared here is written before the goroutines that read
// it start, or by its own goroutine only.

type slot struct {
	id   uint64
	evs  []int
	next int
	lost bool
}

var (
	paced   bool
	began   time.Time
	perStep time.Duration
	slots   [1024]slot
)

func beginPace() {
	for i, e := range rep.Sched {
		if e.G < len(slots) {
			slots[e.G].evs = append(slots[e.G].evs, i)
		}
	}
	events = rep.Sched
	perStep = time.Duration(rep.Pace) * time.Millisecond
	began = time.Now()
	paced = true
	enterPace(0)
}

//go:norace
func enterPace(id int) {
	if id < len(slots) {
		slots[id].id = goid()
	}
}

//go:norace
func mySlot() *slot {
	id := goid()
	for i := range slots {
		if slots[i].id == id {
			return &slots[i]
		}
	}
	return nil
}

//go:norace
func waitPace() bool {
	s := mySlot()
	if s == nil || s.lost || s.next >= len(s.evs) {
		return false
	}
	time.Sleep(time.Until(began.Add(time.Duration(s.evs[s.next]+1) * perStep)))
	return true
}

//go:norace
func pace(site string) *schedEvent {
	s := mySlot()
	if s == nil || s.lost {
		return nil
	}
	if s.next >= len(s.evs) {
		// what the others do until the race comes first
		s.lost = true
		time.Sleep(time.Until(began.Add(time.Duration(len(events)+3) * perStep)))
		return nil
	}
	e := &events[s.evs[s.next]]
	if !at(site, e.Pos) {
		s.lost = true
		return nil
	}
	time.Sleep(time.Until(began.Add(time.Duration(s.evs[s.next]+1) * perStep)))
	s.next++
	return e
}
