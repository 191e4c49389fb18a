// Package h_self checks the models of the libraries against their
// documentation; the replays check them against the libraries.
package h_self

import (
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-ego/riot/zzverif/vsym"
)

//vsym:harness prop=SELF tier=quick time=60 sched=switch race=1
//vsym:bounds one use of each
//vsym:reach end
func SyncMap() {
	var m sync.Map
	n := vsym.Int("n", 1, 3)
	_, ok := m.Load("a")
	vsym.Assert(!ok, "empty map holds a key")
	var wg sync.WaitGroup
	shared := new(int)
	wg.Add(1)
	go func() {
		defer wg.Done()
		*shared = n
		m.Store("a", shared)
	}()
	for {
		if v, ok := m.Load("a"); ok {
			vsym.Assert(*v.(*int) == n, "what was stored is not seen")
			break
		}
		runtime.Gosched()
	}
	wg.Wait()
	v, loaded := m.LoadOrStore("b", n)
	vsym.Assert(!loaded && v.(int) == n, "first LoadOrStore")
	v, loaded = m.LoadOrStore("b", 7)
	vsym.Assert(loaded && v.(int) == n, "second LoadOrStore")
	seen := 0
	m.Range(func(k, v interface{}) bool { seen++; return true })
	vsym.Assert(seen == 2, "Range")
	m.Delete("b")
	_, ok = m.Load("b")
	vsym.Assert(!ok, "Delete")
	vsym.Reach("end")
}

//vsym:harness prop=SELF tier=quick time=60 sched=switch race=1
//vsym:bounds one use of each
//vsym:reach end
func Signals() {
	var (
		mu    sync.Mutex
		ready bool
		v     atomic.Value
		n32   atomic.Int32
		once  sync.Once
		wg    sync.WaitGroup
	)
	cond := sync.NewCond(&mu)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			for !ready {
				cond.Wait()
			}
			mu.Unlock()
			once.Do(func() { n32.Add(5) })
		}()
	}
	mu.Lock()
	ready = true
	cond.Broadcast()
	mu.Unlock()
	wg.Wait()
	vsym.Assert(n32.Load() == 5, "once")
	vsym.Assert(v.Load() == nil, "value")
	v.Store("x")
	vsym.Assert(v.Load().(string) == "x", "value")
	k := 3
	var rw sync.RWMutex
	vsym.Assert(rw.TryRLock(), "TryRLock")
	vsym.Assert(!rw.TryLock(), "TryLock")
	rw.RUnlock()
	wg.Go(func() { k = 4 })
	wg.Wait()
	vsym.Assert(k == 4, "Go")
	rl := rw.RLocker()
	rl.Lock()
	rl.Unlock()
	vsym.Reach("end")
}

//vsym:harness prop=SELF tier=quick time=60 sched=switch
//vsym:bounds one use of each
//vsym:reach end
func Timers() {
	start := time.Now()
	t := time.NewTimer(20 * time.Millisecond)
	<-t.C
	vsym.Assert(time.Since(start) >= 20*time.Millisecond, "timer early")
	vsym.Assert(!t.Stop(), "fired timer stopped")
	t.Reset(time.Hour)
	vsym.Assert(t.Stop(), "pending timer not stopped")
	select {
	case <-t.C:
		vsym.Fail("stopped timer fires")
	default:
	}
	done := make(chan int)
	time.AfterFunc(time.Millisecond, func() { done <- 1 })
	<-done
	ran := false
	a := time.AfterFunc(time.Hour, func() { ran = true })
	vsym.Assert(a.Stop() && !ran, "AfterFunc stop")
	tick := time.NewTicker(time.Millisecond)
	<-tick.C
	<-tick.C
	tick.Stop()
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Millisecond)
	defer cancel()
	select {
	case <-ctx.Done():
		vsym.Assert(ctx.Err() == context.DeadlineExceeded, "deadline")
	case <-time.After(time.Hour):
		vsym.Fail("no deadline")
	}
	c2, cancel2 := context.WithCancel(context.WithValue(context.Background(), "k", 1))
	vsym.Assert(c2.Err() == nil && c2.Value("k").(int) == 1, "context")
	cancel2()
	<-c2.Done()
	vsym.Assert(c2.Err() == context.Canceled, "cancel")
	vsym.Assert(time.Until(time.Now().Add(time.Hour)) > time.Minute, "until")
	vsym.Reach("end")
}

type my struct{ n int }

func (m *my) Error() string { return fmt.Sprint("my ", m.n) }

type byLen []string

func (b byLen) Len() int           { return len(b) }
func (b byLen) Less(i, j int) bool { return len(b[i]) < len(b[j]) }
func (b byLen) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }

//vsym:harness prop=SELF tier=quick time=60 sched=none
//vsym:bounds one use of each
//vsym:reach end
func Plain() {
	err := fmt.Errorf("at %d: %w", 3, io.EOF)
	vsym.Assert(err.Error() == "at 3: EOF", "message")
	vsym.Assert(errors.Is(err, io.EOF) && !errors.Is(err, io.ErrUnexpectedEOF), "Is")
	err = fmt.Errorf("x: %w", &my{4})
	var m *my
	vsym.Assert(errors.As(err, &m) && m.n == 4, "As")
	s := []string{"ccc", "a", "bb"}
	sort.Stable(sort.Reverse(byLen(s)))
	vsym.Assert(strings.Join(s, ",") == "ccc,bb,a", "Stable")
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	vsym.Assert(s[0] == "a", "Slice")
	vsym.Assert(sort.SearchStrings(s, "bb") == 1, "Search")
	vsym.Assert(sort.IsSorted(sort.StringSlice(s)), "IsSorted")
	vsym.Assert(strings.Join(strings.Fields(" a  b "), "|") == "a|b", "Fields")
	vsym.Assert(strings.Title("ab") == "Ab", "Title")
	vsym.Assert(strings.EqualFold("aB", "Ab"), "EqualFold")
	vsym.Assert(strings.TrimFunc("xax", func(r rune) bool { return r == 'x' }) == "a", "TrimFunc")
	vsym.Assert(strings.Map(func(r rune) rune { return r + 1 }, "ab") == "bc", "Map")
	vsym.Assert(strings.NewReplacer("a", "b").Replace("aa") == "bb", "Replacer")
	vsym.Assert(fmt.Sprintf("%s-%d-%v-%q-%05d-%.2f-%t-%x", "a", 1, true, "q", 42, 1.5, false, 255) == "a-1-true-\"q\"-00042-1.50-false-ff", "Sprintf")
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%s.%d", "dir", "riot", 3)
	vsym.Assert(b.String() == "dir/riot.3", "Fprintf")
	vsym.Assert(strings.Repeat("ab", 2) == "abab" && strings.Count("aaa", "a") == 3 && strings.Contains("abc", "bc"), "strings")
	r := func() (r interface{}) {
		defer func() { r = recover() }()
		var none []int
		return none[len(s)]
	}()
	vsym.Assert(r != nil, "recover")
	vsym.Reach("end")
}
