package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pathSample struct {
	Vals map[string]interface{}
	Obs  []obsRec
}

type obsRec struct {
	Name string
	Val  string
}

type obsSym struct {
	name string
	v    Value
}

// Explorer explores all paths of one harness with a pool of workers.
type Explorer struct {
	P        *Prog
	fn       *ssa.Function
	cfg      Config
	workers  int
	deadline time.Time
	solver   string
	solverTO int
	samplesN int
	tier     int

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []workItem
	busy    int
	stop    bool
	stopWhy string
	onViol  func(*violation) (stop bool)
	violMu  sync.Mutex

	// results
	Paths     int
	Infeas    int
	Truncated map[string]int
	Unsup     map[string]int
	Reached   map[string]int
	Notes     map[string]int
	Funcs     map[string]int
	Instrs    int
	FreeForks int
	IntN      int
	Forks     int
	Asserts   int
	Queries   int
	SatN      int
	UnsatN    int
	UnkN      int
	SolverT   time.Duration
	Samples   []pathSample
	Pending   int
	SolvErrs  []string
	Viols     int
	maxTrace  int
}

func (e *Explorer) push(it workItem) {
	e.mu.Lock()
	e.stack = append(e.stack, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (workItem, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop || time.Now().After(e.deadline) {
			if !e.stop {
				e.stop = true
				e.stopWhy = "time budget"
			}
			e.cond.Broadcast()
			return workItem{}, false
		}
		if n := len(e.stack); n > 0 {
			it := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.busy++
			return it, true
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return workItem{}, false
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) Run() {
	e.cond = sync.NewCond(&e.mu)
	e.Truncated = map[string]int{}
	e.Unsup = map[string]int{}
	e.Reached = map[string]int{}
	e.Notes = map[string]int{}
	e.Funcs = map[string]int{}
	e.stack = []workItem{{}}
	var wg sync.WaitGroup
	tick := time.AfterFunc(time.Until(e.deadline)+50*time.Millisecond, func() { e.cond.Broadcast() })
	defer tick.Stop()
	for w := 0; w < e.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	e.Pending = len(e.stack)
}

func (e *Explorer) worker() {
	in := newInterp(e)
	defer func() { in.sol.Close() }()
	flush := func() {
		e.mu.Lock()
		e.Queries += in.sol.Queries
		e.SatN += in.sol.SatN
		e.UnsatN += in.sol.UnsatN
		e.UnkN += in.sol.UnkN
		e.SolverT += in.sol.Time
		e.IntN += in.sol.IntN
		e.Instrs += in.instrs
		e.Forks += in.forks
		e.FreeForks += in.freeForks
		e.Asserts += in.asserts
		e.SolvErrs = append(e.SolvErrs, in.sol.errs...)
		for k, v := range in.funcsSeen {
			e.Funcs[k] += v
		}
		e.mu.Unlock()
		in.sol.IntN = 0
		in.sol.Queries, in.sol.SatN, in.sol.UnsatN, in.sol.UnkN, in.sol.Time = 0, 0, 0, 0, 0
		in.instrs, in.forks, in.asserts, in.freeForks = 0, 0, 0, 0
		in.sol.errs = nil
		in.funcsSeen = map[string]int{}
	}
	defer flush()
	n := 0
	for {
		it, ok := e.pop()
		if !ok {
			return
		}
		e.runPath(in, it)
		e.done()
		n++
		if len(in.ts.tab) > 1500000 {
			flush()
			in.sol.Close()
			in = newInterp(e)
		}
	}
}

func newInterp(e *Explorer) *Interp {
	ts := NewTermStore()
	ts.exact = e.cfg.Exact
	in := &Interp{
		P: e.P, ts: ts, sol: NewSolver(e.solver, ts, e.solverTO), cfg: e.cfg, sizes: e.P.sizes,
		fns:        map[*ssa.Function]*cfn{},
		stdGlobals: map[*ssa.Global]Ptr{},
		stdInited:  map[*ssa.Package]bool{},
		stdInit:    map[*ssa.Package]bool{},
		posCache:   map[token.Pos]string{},
		funcsSeen:  map[string]int{},
		unsupMsgs:  map[string]int{},
		push:       e.push,
		tier:       e.tier,
	}
	return in
}

func (e *Explorer) runPath(in *Interp, it workItem) {
	in.pc = in.pc[:0:0]
	in.facts = map[*Term]bool{}
	in.pcVars = map[*Term]bool{}
	in.model = it.model
	if in.model != nil {
		in.model = &Model{vals: it.model.vals, memo: map[int]evalRes{}}
	} else {
		in.model = nil
	}
	if len(it.prefix) == 0 {
		in.model = &Model{vals: map[string]uint64{}, memo: map[int]evalRes{}}
	}
	in.prefix = it.prefix
	in.pos = 0
	in.trace = nil
	in.globals = map[*ssa.Global]Ptr{}
	in.inited = map[*ssa.Package]bool{}
	in.steps = 0
	in.nameSeq = map[string]int{}
	in.inputs = nil
	in.budget = e.cfg.MaxPre
	in.sched = nil
	in.locks = map[Ptr]*lockState{}
	in.side = map[interface{}]interface{}{}
	in.clock = 0
	in.timers = nil
	in.viol = nil
	in.ended = false
	in.reached = map[string]bool{}
	in.nchan = 0
	in.shadow = map[interface{}]*shadowCell{}
	in.mapMode = 0
	in.notes = map[string]bool{}
	in.multi = false
	in.spinRounds, in.demotions = 0, 0
	in.settles = 0
	in.timersMayFire = false
	in.obs = nil
	g := &G{id: 0, vc: vclock{0: 1}}
	in.gs = []*G{g}
	in.cur = g

	status := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					status = x.why
				case unsupported:
					status = "unsupported"
					where := ""
					if in.cur != nil && len(in.cur.stack) > 0 {
						fr := in.cur.stack[len(in.cur.stack)-1]
						where = fr.f.name + " " + in.posOf(fr)
						if os.Getenv("GOSYM_DEBUG") != "" {
							for i := len(in.cur.stack) - 1; i >= 0; i-- {
								fr := in.cur.stack[i]
								where += "\n    " + fr.f.name + " " + in.posOf(fr)
							}
						}
					}
					e.mu.Lock()
					e.Unsup[x.msg+" in "+where]++
					e.mu.Unlock()
				case goPanic:
					// raised outside step (cannot be recovered by the program)
					status = "violation"
					func() {
						defer func() { recover() }()
						in.report("panic", "uncaught panic: "+in.panicString(x.v), nil)
					}()
				default:
					status = "internal"
					where := ""
					if in.cur != nil && len(in.cur.stack) > 0 {
						for i := len(in.cur.stack) - 1; i >= 0; i-- {
							fr := in.cur.stack[i]
							where += " < " + fr.f.name + " " + in.posOf(fr)
						}
					}
					if os.Getenv("GOSYM_DEBUG") != "" {
						debug.PrintStack()
					}
					e.mu.Lock()
					e.Unsup[fmt.Sprintf("internal error: %v at %s", r, where)]++
					e.mu.Unlock()
				}
			}
		}()
		in.pushCall(g, e.fn, nil, nil, -1)
		in.runMain()
		status = "done"
	}()
	e.mu.Lock()
	e.Paths++
	if len(in.trace) > e.maxTrace {
		e.maxTrace = len(in.trace)
	}
	for r := range in.reached {
		if status == "done" {
			e.Reached[r]++
		}
	}
	for r := range in.notes {
		e.Notes[r]++
	}
	takeSample := false
	switch status {
	case "done":
		takeSample = len(e.Samples) < e.samplesN && (e.Paths < e.samplesN || e.Paths%(1+e.Paths/e.samplesN) == 0)
	case "assume", "infeasible", "violation on infeasible path":
		e.Infeas++
	case "violation", "unsupported", "internal":
	default:
		e.Truncated[status]++
	}
	e.mu.Unlock()
	if takeSample {
		s := e.sample(in)
		if s != nil {
			e.mu.Lock()
			e.Samples = append(e.Samples, *s)
			e.mu.Unlock()
		}
	}
	if in.viol != nil {
		e.violMu.Lock()
		e.mu.Lock()
		stopped := e.stop
		e.Viols++
		e.mu.Unlock()
		if !stopped && e.onViol(in.viol) {
			e.mu.Lock()
			e.stop = true
			e.stopWhy = "violation"
			e.mu.Unlock()
			e.cond.Broadcast()
		}
		e.violMu.Unlock()
	}
}

// sample picks a model of a completed path: concrete inputs plus the values
// the encoding predicts for everything the harness observed.
func (e *Explorer) sample(in *Interp) *pathSample {
	if len(in.sched) > 0 && in.cfg.SchedMode != "none" {
		return nil
	}
	res, m := in.sol.Check(in.pc, nil, true)
	if res != Sat || m == nil {
		return nil
	}
	s := &pathSample{Vals: map[string]interface{}{}}
	in.fillVals(m, s.Vals)
	for _, o := range in.obs {
		str, ok := evalStr(m, o.v)
		if ok {
			s.Obs = append(s.Obs, obsRec{o.name, str})
		} else {
			s.Obs = append(s.Obs, obsRec{o.name, "?"})
		}
	}
	return s
}

func evalStr(m *Model, v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		val, ok := m.Eval(x)
		if !ok {
			return "", false
		}
		if x.w == 0 {
			return fmt.Sprint(val == 1), true
		}
		return fmt.Sprint(sext(val, x.w)), true
	case Str:
		if x.b == nil {
			return fmt.Sprintf("%q", x.s), true
		}
		var bs []byte
		for _, t := range x.b {
			val, ok := m.Eval(t)
			if !ok {
				return "", false
			}
			bs = append(bs, byte(val))
		}
		return fmt.Sprintf("%q", string(bs)), true
	}
	return "", false
}

func (in *Interp) fillVals(m *Model, vals map[string]interface{}) {
	for _, iv := range in.inputs {
		switch iv.Kind {
		case "str":
			bs := []int{}
			for _, b := range iv.B {
				x, _ := m.Eval(b)
				bs = append(bs, int(x))
			}
			vals[iv.Name] = bs
		case "bool":
			x, _ := m.Eval(iv.T)
			vals[iv.Name] = x == 1
		default:
			x, _ := m.Eval(iv.T)
			if iv.Sgn {
				vals[iv.Name] = fmt.Sprint(sext(x, iv.W))
			} else {
				vals[iv.Name] = fmt.Sprint(x)
			}
		}
	}
}

func sortedCount(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
