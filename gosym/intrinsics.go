package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type action int

const (
	actDone action = iota
	actRetry
	actFrame // a frame was pushed; its result goes to the caller
)

type intrinsic func(in *Interp, g *G, fr *Frame, a []Value) (Value, action)

var fnNameMu sync.RWMutex

// packages whose functions do nothing (logging, printing)
var stubPkgs = map[string]bool{
	"log":              true,
	"internal/race":    true,
	"internal/msan":    true,
	"internal/asan":    true,
	"runtime/debug":    true,
	"runtime/pprof":    true,
	"internal/godebug": true,
}

var noInit = map[string]bool{
	"runtime": true, "os": true, "reflect": true, "syscall": true, "time": true, "log": true, "net": true,
	"fmt": true, "sync": true, "sync/atomic": true, "internal/cpu": true, "internal/bytealg": true,
	"internal/godebug": true, "internal/poll": true, "net/http": true, "crypto/tls": true,
	"internal/reflectlite": true, "encoding/gob": true, "encoding/json": true, "math/rand": true,
}

func initAllowed(path string) bool {
	if noInit[path] {
		return false
	}
	switch path {
	case "io", "sort", "strings", "bytes", "unicode", "unicode/utf8", "strconv", "math", "math/bits",
		"internal/strconv", "container/list", "container/heap", "slices", "maps", "cmp", "bufio", "path", "path/filepath", "encoding/binary",
		"hash", "hash/fnv", "hash/crc32", "context", "internal/stringslite", "encoding/base64", "encoding/hex", "net/url":
		return true
	}
	return false
}

// the moment at which the virtual clock starts
const (
	timeBase       = int64(1700000000) * 1e9
	unixToInternal = uint64(62135596800)
)

const vs = "github.com/go-ego/riot/zzverif/vsym."

var intrinsics map[string]intrinsic

func one(f func(in *Interp, a []Value) Value) intrinsic {
	return func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) { return f(in, a), actDone }
}

func nop(in *Interp, g *G, fr *Frame, a []Value) (Value, action) { return nil, actDone }

func (in *Interp) constStr(v Value) string {
	s := v.(Str)
	if s.b == nil {
		return s.s
	}
	var sb strings.Builder
	for _, t := range s.b {
		sb.WriteByte(byte(in.conc(t)))
	}
	return sb.String()
}

func (in *Interp) inputName(v Value) string {
	n := v.(Str).s
	k := in.nameSeq[n]
	in.nameSeq[n] = k + 1
	return fmt.Sprintf("%s#%d", n, k)
}

func (in *Interp) assume(c *Term) {
	if v, ok := in.known(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.pos < len(in.prefix) {
		in.addPC(c)
		return
	}
	if in.model != nil {
		if v, ok := in.model.Eval(c); ok && v == 1 {
			in.addPC(c)
			return
		}
	}
	r, m := in.query(c)
	if r == Unsat {
		panic(pathEnd{"assume"})
	}
	if m != nil {
		in.model = m
	}
	in.addPC(c)
}

func (in *Interp) newInput(name, kind string, w uint8, sgn bool) *Term {
	t := in.ts.Var(name, w)
	in.inputs = append(in.inputs, inputVar{Name: name, Kind: kind, T: t, W: w, Sgn: sgn})
	return t
}

func (in *Interp) rangeVar(name string, w uint8, lo, hi int64) *Term {
	// constants are not represented as variables, but keep an input record
	if lo == hi {
		t := in.ts.BV(w, uint64(lo))
		in.inputs = append(in.inputs, inputVar{Name: name, Kind: "int", T: t, W: w, Sgn: true})
		return t
	}
	// small non-negative ranges use a narrow variable: cheaper for the solver
	if lo >= 0 && hi < 1<<40 && w == 64 {
		nw := uint8(8)
		for hi >= 1<<nw {
			nw++
		}
		v := in.ts.Var(name, nw)
		t := in.ts.ZExt(v, 64)
		in.inputs = append(in.inputs, inputVar{Name: name, Kind: "int", T: t, W: 64, Sgn: true})
		if lo > 0 {
			in.assume(in.ts.Not(in.ts.Bin(OpULT, v, in.ts.BV(nw, uint64(lo)))))
		}
		if hi != 1<<nw-1 {
			in.assume(in.ts.Not(in.ts.Bin(OpULT, in.ts.BV(nw, uint64(hi)), v)))
		}
		return t
	}
	t := in.newInput(name, "int", w, true)
	in.assume(in.ts.And(
		in.ts.Not(in.ts.Bin(OpSLT, t, in.ts.BV(w, uint64(lo)))),
		in.ts.Not(in.ts.Bin(OpSLT, in.ts.BV(w, uint64(hi)), t))))
	return t
}

func (in *Interp) boolArgs(v Value) []*Term {
	s := v.(Slice)
	r := make([]*Term, s.len)
	for i := range r {
		r[i] = s.arr.e[s.off+i].(*Term)
	}
	return r
}

func (in *Interp) mathUF(name string, f func(float64) float64) intrinsic {
	return nil
}

func mathFn(name string, f func(float64) float64) intrinsic {
	return one(func(in *Interp, a []Value) Value {
		t := a[0].(*Term)
		if t.op == OpConst {
			return in.f64(f(fconst(t)))
		}
		return in.ts.UF("m_"+name, 64, t)
	})
}

func mathFn2(name string, f func(a, b float64) float64) intrinsic {
	return one(func(in *Interp, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.op == OpConst && y.op == OpConst {
			return in.f64(f(fconst(x), fconst(y)))
		}
		return in.ts.UF("m_"+name, 64, x, y)
	})
}

func atomicWidth(name string) uint8 {
	switch {
	case strings.HasSuffix(name, "32"):
		return 32
	}
	return 64
}

func init() {
	intrinsics = map[string]intrinsic{
		// ---- vsym ----
		vs + "Int": one(func(in *Interp, a []Value) Value {
			return in.rangeVar(in.inputName(a[0]), 64, sext(a[1].(*Term).val, 64), sext(a[2].(*Term).val, 64))
		}),
		vs + "AnyInt": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "int", 64, true)
		}),
		vs + "Uint32": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "int", 32, false)
		}),
		vs + "Uint64": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "int", 64, false)
		}),
		vs + "Byte": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "int", 8, false)
		}),
		vs + "Bool": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "bool", 0, false)
		}),
		vs + "F32": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "f32", 32, false)
		}),
		vs + "F64": one(func(in *Interp, a []Value) Value {
			return in.newInput(in.inputName(a[0]), "f64", 64, false)
		}),
		vs + "Choice": one(func(in *Interp, a []Value) Value {
			name := in.inputName(a[0])
			n := int(a[1].(*Term).val)
			// one symbolic variable per choice; its value is decided by forking
			k := in.choose(n)
			t := in.ts.BV(64, uint64(k))
			in.inputs = append(in.inputs, inputVar{Name: name, Kind: "int", T: t, W: 64, Sgn: true})
			return t
		}),
		vs + "Str": one(func(in *Interp, a []Value) Value {
			name := in.inputName(a[0])
			lo, hi := int(a[1].(*Term).val), int(a[2].(*Term).val)
			n := lo + in.choose(hi-lo+1)
			b := make([]*Term, n)
			for i := range b {
				b[i] = in.ts.Var(fmt.Sprintf("%s[%d]", name, i), 8)
			}
			in.inputs = append(in.inputs, inputVar{Name: name, Kind: "str", B: b})
			if n == 0 {
				return Str{}
			}
			return Str{b: b}
		}),
		vs + "Assume": one(func(in *Interp, a []Value) Value { in.assume(a[0].(*Term)); return nil }),
		vs + "Assert": one(func(in *Interp, a []Value) Value {
			in.assertTerm(a[0].(*Term), in.constStr(a[1]))
			return nil
		}),
		vs + "Fail": one(func(in *Interp, a []Value) Value {
			in.assertTerm(in.ts.fls, in.constStr(a[0]))
			return nil
		}),
		vs + "Reach": one(func(in *Interp, a []Value) Value {
			in.reached[a[0].(Str).s] = true
			return nil
		}),
		vs + "And": one(func(in *Interp, a []Value) Value {
			r := in.ts.tru
			for _, t := range in.boolArgs(a[0]) {
				r = in.ts.And(r, t)
			}
			return r
		}),
		vs + "Or": one(func(in *Interp, a []Value) Value {
			r := in.ts.fls
			for _, t := range in.boolArgs(a[0]) {
				r = in.ts.Or(r, t)
			}
			return r
		}),
		vs + "Implies": one(func(in *Interp, a []Value) Value {
			return in.ts.Or(in.ts.Not(a[0].(*Term)), a[1].(*Term))
		}),
		vs + "SamePerm": one(func(in *Interp, a []Value) Value {
			x, y := in.boolArgs(a[0]), in.boolArgs(a[1])
			if len(x) != len(y) {
				return in.ts.fls
			}
			// identical terms cancel; what is left is compared by counting
			n := map[*Term]int{}
			for _, t := range x {
				n[t]++
			}
			var ry []*Term
			for _, t := range y {
				if n[t] > 0 {
					n[t]--
				} else {
					ry = append(ry, t)
				}
			}
			var rx []*Term
			for _, t := range x {
				if n[t] > 0 {
					n[t]--
					rx = append(rx, t)
				}
			}
			count := func(l []*Term, v *Term) *Term {
				c := in.ts.BV(16, 0)
				for _, t := range l {
					c = in.ts.Bin(OpAdd, c, in.ts.Ite(in.ts.Eq(t, v), in.ts.BV(16, 1), in.ts.BV(16, 0)))
				}
				return c
			}
			r := in.ts.tru
			for _, v := range rx {
				r = in.ts.And(r, in.ts.Eq(count(rx, v), count(ry, v)))
			}
			return r
		}),
		vs + "IteInt": one(func(in *Interp, a []Value) Value {
			return in.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		}),
		vs + "IteF32": one(func(in *Interp, a []Value) Value {
			return in.ts.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
		}),
		vs + "SameF32": one(func(in *Interp, a []Value) Value {
			// equal as values; the native twin allows rounding noise
			return in.ts.Or(in.ts.Eq(a[0].(*Term), a[1].(*Term)), in.ts.FEq(a[0].(*Term), a[1].(*Term)))
		}),
		vs + "Concrete": one(func(in *Interp, a []Value) Value {
			return in.ts.BV(64, in.conc(a[0].(*Term)))
		}),
		vs + "IsSymbolic":    one(func(in *Interp, a []Value) Value { return in.ts.tru }),
		vs + "MapOrder":      one(func(in *Interp, a []Value) Value { in.mapMode = int(a[0].(*Term).val); return nil }),
		vs + "TimersMayFire": one(func(in *Interp, a []Value) Value { in.timersMayFire = a[0].(*Term).IsTrue(); return nil }),
		vs + "Budget":        one(func(in *Interp, a []Value) Value { in.budget = int(a[0].(*Term).val); return nil }),
		vs + "Repeat":        one(func(in *Interp, a []Value) Value { return in.int(1) }),
		vs + "TempDir":       one(func(in *Interp, a []Value) Value { return Str{s: "/vsymtmp"} }),
		vs + "Tier":          one(func(in *Interp, a []Value) Value { return in.int(in.tier) }),
		vs + "Observe": one(func(in *Interp, a []Value) Value {
			in.obs = append(in.obs, obsSym{a[0].(Str).s, a[1].(Iface).v})
			return nil
		}),
		vs + "Settle": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			// wait until every other goroutine is blocked or finished
			if len(in.candidates(g, false)) == 0 {
				return nil, actDone
			}
			in.settles++
			if in.settles > 200000 {
				in.report("hang", "livelock: background goroutines never settle", nil)
			}
			in.switchTo(in.pick(in.candidates(g, false), false))
			return nil, actRetry
		},
		vs + "Blocked": one(func(in *Interp, a []Value) Value {
			n := 0
			for _, x := range in.gs[1:] {
				if x.status != gDone {
					n++
				}
			}
			return in.int(n)
		}),

		// ---- runtime ----
		"runtime.Gosched": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			in.yield(g)
			return nil, actDone
		},
		"runtime.GOMAXPROCS":    one(func(in *Interp, a []Value) Value { return in.int(2) }),
		"runtime.NumCPU":        one(func(in *Interp, a []Value) Value { return in.int(2) }),
		"runtime.NumGoroutine":  one(func(in *Interp, a []Value) Value { return in.int(len(in.gs)) }),
		"runtime.GC":            nop,
		"runtime.KeepAlive":     nop,
		"runtime.SetFinalizer":  nop,
		"runtime.ReadMemStats":  nop,
		"internal/abi.NoEscape": one(func(in *Interp, a []Value) Value { return a[0] }),
		"internal/abi.Escape":   one(func(in *Interp, a []Value) Value { return a[0] }),

		// ---- process exit / logging ----
		"log.Fatal":   fatal("log.Fatal"),
		"log.Fatalf":  fatal("log.Fatalf"),
		"log.Fatalln": fatal("log.Fatalln"),
		"os.Exit":     fatal("os.Exit"),
		"log.Panic":   logPanic,
		"log.Panicf":  logPanic,
		"log.Panicln": logPanic,
		"fmt.Println": tup2, "fmt.Printf": tup2, "fmt.Print": tup2, "fmt.Fprintf": tup2, "fmt.Fprintln": tup2, "fmt.Fprint": tup2,
		vs + "Sprintf": one(func(in *Interp, a []Value) Value {
			return in.sprintf(in.constStr(a[0]), in.anyArgs(a[1]))
		}),
		vs + "Sprint": one(func(in *Interp, a []Value) Value {
			r := Str{}
			args := in.anyArgs(a[0])
			for i, x := range args {
				if i > 0 && !isStrIface(x) && !isStrIface(args[i-1]) {
					r = in.strConcat(r, Str{s: " "})
				}
				r = in.strConcat(r, in.fmtVal(x, 'v'))
			}
			return r
		}),
		vs + "Sprintln": one(func(in *Interp, a []Value) Value {
			r := Str{}
			for i, x := range in.anyArgs(a[0]) {
				if i > 0 {
					r = in.strConcat(r, Str{s: " "})
				}
				r = in.strConcat(r, in.fmtVal(x, 'v'))
			}
			return in.strConcat(r, Str{s: "\n"})
		}),

		// ---- time ----
		"time.Sleep": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			d := int64(1)
			if t := a[0].(*Term); t.op == OpConst {
				d = sext(t.val, 64)
			}
			if d < 1 {
				d = 1
			}
			g.status, g.wakeAt, g.waitOn = gSleep, in.clock+d, "sleep"
			return nil, actDone
		},
		"time.Now": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			t := in.zero(in.namedType("time", "Time")).(*StructV)
			now := timeBase + in.clock
			t.f[0] = in.ts.BV(64, uint64(now%1e9))
			t.f[1] = in.ts.BV(64, uint64(now/1e9)+unixToInternal)
			return t, actDone
		},
		"internal/stringslite.Clone": one(func(in *Interp, a []Value) Value { return a[0] }),
		"strings.Clone":              one(func(in *Interp, a []Value) Value { return a[0] }),
		"time.Since": one(func(in *Interp, a []Value) Value {
			t := a[0].(*StructV)
			w, e := t.f[0].(*Term), t.f[1].(*Term)
			if w.op != OpConst || e.op != OpConst {
				return in.int(1)
			}
			return in.ts.BV(64, uint64(timeBase+in.clock-int64(w.val&(1<<30-1))-int64(e.val-unixToInternal)*1e9))
		}),
		"time.After": one(func(in *Interp, a []Value) Value {
			in.nchan++
			c := &ChanV{cap: 1, id: in.nchan, et: in.namedType("time", "Time")}
			in.arm(c, a[0])
			return c
		}),

		vs + "Disarm": one(func(in *Interp, a []Value) Value {
			c := a[0].(*ChanV)
			was := in.disarm(c)
			c.buf, c.bufVC = nil, nil
			return in.ts.Bool(was)
		}),
		vs + "Arm": one(func(in *Interp, a []Value) Value { in.arm(a[0].(*ChanV), a[1]); return nil }),
		vs + "AsTarget": one(func(in *Interp, a []Value) Value {
			err, to := a[0].(Iface), a[1].(Iface)
			et := to.t.Underlying().(*types.Pointer).Elem()
			if it, ok := et.Underlying().(*types.Interface); ok {
				if !types.Implements(err.t, it) {
					return in.ts.fls
				}
				*to.v.(Ptr) = err
				return in.ts.tru
			}
			if !types.Identical(err.t, et) {
				return in.ts.fls
			}
			*to.v.(Ptr) = copyVal(err.v)
			return in.ts.tru
		}),

		// ---- math ----
		"math.Float32bits":     one(func(in *Interp, a []Value) Value { return a[0] }),
		"math.Float32frombits": one(func(in *Interp, a []Value) Value { return a[0] }),
		"math.Float64bits":     one(func(in *Interp, a []Value) Value { return a[0] }),
		"math.Float64frombits": one(func(in *Interp, a []Value) Value { return a[0] }),
		"math.Log2":            mathFn("log2", math.Log2),
		"math.Log":             mathFn("log", math.Log),
		"math.Log10":           mathFn("log10", math.Log10),
		"math.Sqrt":            mathFn("sqrt", math.Sqrt),
		"math.Exp":             mathFn("exp", math.Exp),
		"math.Floor":           mathFn("floor", math.Floor),
		"math.Ceil":            mathFn("ceil", math.Ceil),
		"math.Trunc":           mathFn("trunc", math.Trunc),
		"math.Round":           mathFn("round", math.Round),
		"math.Log1p":           mathFn("log1p", math.Log1p),
		"math.Max":             mathFn2("max", math.Max),
		"math.Min":             mathFn2("min", math.Min),
		"math.Pow":             mathFn2("pow", math.Pow),
		"math.Mod":             mathFn2("mod", math.Mod),
		"math.Hypot":           mathFn2("hypot", math.Hypot),
		"math.IsNaN":           one(func(in *Interp, a []Value) Value { return in.ts.FIsNaN(a[0].(*Term)) }),
		"math.FMA": one(func(in *Interp, a []Value) Value {
			return in.ts.FBin("add", in.ts.FBin("mul", a[0].(*Term), a[1].(*Term)), a[2].(*Term))
		}),

		// ---- sync ----
		"(*sync.Mutex).Lock":      mutexLock,
		"(*sync.Mutex).Unlock":    mutexUnlock,
		"(*sync.Mutex).TryLock":   mutexTryLock,
		"(*sync.RWMutex).Lock":    mutexLock,
		"(*sync.RWMutex).Unlock":  mutexUnlock,
		"(*sync.RWMutex).TryLock": mutexTryLock,
		"(*sync.RWMutex).RLock":   rLock,
		"(*sync.RWMutex).TryRLock": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			l := in.lock(a[0].(Ptr))
			if in.schedPoint(g, "trylock") {
				return nil, actRetry
			}
			if l.writer != nil || l.wwait > 0 {
				return in.ts.fls, actDone
			}
			in.event(g, "rlock")
			l.readers++
			g.vc.join(l.wvc)
			return in.ts.tru, actDone
		},
		"(*sync.RWMutex).RUnlock": rUnlock,
		"(*sync.WaitGroup).Add":   wgAdd,
		"(*sync.WaitGroup).Done": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			return wgAdd(in, g, fr, []Value{a[0], in.ts.BV(64, ^uint64(0))})
		},
		"(*sync.WaitGroup).Wait": wgWait,
		"(*sync.Pool).Put":       nop,
		"(*sync.Pool).Get": func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
			s := (*a[0].(Ptr)).(*StructV)
			newf := s.f[len(s.f)-1]
			if isNilFunc(newf) {
				return Iface{}, actDone
			}
			in.callValue(g, fr, newf, nil, -1, false)
			return nil, actFrame
		},
		"(*sync.noCopy).Lock":   nop,
		"(*sync.noCopy).Unlock": nop,

		// ---- reflect / misc ----
		"internal/reflectlite.TypeOf": one(func(in *Interp, a []Value) Value { return Iface{} }),
		"reflect.TypeOf":              one(func(in *Interp, a []Value) Value { return Iface{} }),
		"internal/bytealg.MakeNoZero": one(func(in *Interp, a []Value) Value {
			n := in.concInt(a[0])
			arr := &ArrV{e: make([]Value, n)}
			for i := range arr.e {
				arr.e[i] = in.ts.BV(8, 0)
			}
			return Slice{arr, 0, n, n}
		}),
		vs + "swapAny": one(func(in *Interp, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			i, j := in.concInt(a[1]), in.concInt(a[2])
			x, y := copyVal(s.arr.e[s.off+i]), copyVal(s.arr.e[s.off+j])
			in.onWrite(&s.arr.e[s.off+i])
			in.onWrite(&s.arr.e[s.off+j])
			storeTo(&s.arr.e[s.off+i], y)
			storeTo(&s.arr.e[s.off+j], x)
			return nil
		}),
		vs + "lenAny": one(func(in *Interp, a []Value) Value { return in.int(a[0].(Iface).v.(Slice).len) }),
		vs + "Clone":  one(func(in *Interp, a []Value) Value { return in.deepCopy(a[0], map[interface{}]interface{}{}) }),
		vs + "UFHash": one(func(in *Interp, a []Value) Value {
			s := a[0].(Str)
			args := in.strBytes(s)
			if len(args) == 0 {
				return in.ts.UF("uhash0", 32, in.ts.BV(8, 0))
			}
			return in.ts.UF(fmt.Sprintf("uhash%d", len(args)), 32, args...)
		}),
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		w := w
		bw := uint8(64)
		if strings.HasSuffix(w, "32") {
			bw = 32
		}
		_ = bw
		intrinsics["sync/atomic.Load"+w] = atomicOp(func(in *Interp, p Ptr, a []Value) Value { return *p })
		intrinsics["sync/atomic.Store"+w] = atomicOp(func(in *Interp, p Ptr, a []Value) Value { *p = a[1]; return nil })
		intrinsics["sync/atomic.Add"+w] = atomicOp(func(in *Interp, p Ptr, a []Value) Value {
			*p = in.ts.Bin(OpAdd, (*p).(*Term), a[1].(*Term))
			return *p
		})
		intrinsics["sync/atomic.Swap"+w] = atomicOp(func(in *Interp, p Ptr, a []Value) Value {
			o := *p
			*p = a[1]
			return o
		})
		intrinsics["sync/atomic.CompareAndSwap"+w] = atomicOp(func(in *Interp, p Ptr, a []Value) Value {
			if in.fork(in.ts.Eq((*p).(*Term), a[1].(*Term))) {
				*p = a[2]
				return in.ts.tru
			}
			return in.ts.fls
		})
	}
	intrinsics["sync/atomic.LoadPointer"] = atomicOp(func(in *Interp, p Ptr, a []Value) Value { return *p })
	intrinsics["sync/atomic.StorePointer"] = atomicOp(func(in *Interp, p Ptr, a []Value) Value { *p = a[1]; return nil })
}

func (in *Interp) deepCopy(v Value, memo map[interface{}]interface{}) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = in.deepCopy(e, memo)
		}
		return n
	case *ArrV:
		if m, ok := memo[x]; ok {
			return m.(*ArrV)
		}
		n := &ArrV{e: make([]Value, len(x.e))}
		memo[x] = n
		for i, e := range x.e {
			n.e[i] = in.deepCopy(e, memo)
		}
		return n
	case Slice:
		if x.arr == nil {
			return x
		}
		// gob-like: only the visible part
		n := &ArrV{e: make([]Value, x.len)}
		for i := range n.e {
			n.e[i] = in.deepCopy(x.arr.e[x.off+i], memo)
		}
		return Slice{n, 0, x.len, x.len}
	case Iface:
		return Iface{x.t, in.deepCopy(x.v, memo)}
	case Ptr:
		if x == nil {
			return x
		}
		if m, ok := memo[x]; ok {
			return m.(Ptr)
		}
		n := new(Value)
		memo[x] = Ptr(n)
		*n = in.deepCopy(*x, memo)
		return Ptr(n)
	case *MapV:
		if x == nil {
			return x
		}
		n := newMap()
		for _, e := range x.liveEntries() {
			ne := &mapEntry{k: in.deepCopy(e.k, memo), v: in.deepCopy(e.v, memo)}
			n.ents = append(n.ents, ne)
			n.live++
			if ck, ok := concKey(ne.k); ok {
				n.index[ck] = ne
			} else {
				n.nsym++
			}
		}
		return n
	}
	return v
}

func (in *Interp) namedType(pkg, name string) types.Type {
	p := in.P.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s not loaded", pkg)
	}
	return p.Type(name).Type()
}

func fatal(what string) intrinsic {
	return func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
		msg := ""
		if what == "log.Fatal" || what == "log.Fatalln" {
			for _, x := range in.anyArgs(a[0]) {
				msg += " " + in.plain(x)
			}
		} else if what == "log.Fatalf" {
			if s, ok := a[0].(Str); ok {
				msg = " " + s.s
			}
		}
		in.report("exit", "the process is terminated by "+what+":"+msg, nil)
		return nil, actDone
	}
}

func (in *Interp) plain(x Iface) string {
	switch v := x.v.(type) {
	case Str:
		if v.b == nil {
			return v.s
		}
		return "<sym>"
	case *Term:
		return v.String()
	}
	if x.t == nil {
		return "nil"
	}
	return x.t.String()
}

func logPanic(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	panic(goPanic{Iface{t: types.Typ[types.String], v: Str{s: "log.Panic"}}})
}

func tup2(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	return Tuple{in.int(0), Iface{}}, actDone
}

func (in *Interp) anyArgs(v Value) []Iface {
	s := v.(Slice)
	r := make([]Iface, s.len)
	for i := range r {
		r[i] = s.arr.e[s.off+i].(Iface)
	}
	return r
}

func isStrIface(x Iface) bool {
	_, ok := x.v.(Str)
	return ok
}

func (in *Interp) fmtVal(x Iface, verb byte) Str {
	if verb == 'T' && x.t != nil {
		return Str{s: x.t.String()}
	}
	switch v := x.v.(type) {
	case Str:
		if verb == 'q' || verb == 'x' || verb == 'X' {
			if v.b != nil {
				unsup("Sprintf %%%c of symbolic string", verb)
			}
			return Str{s: fmt.Sprintf("%"+string(verb), v.s)}
		}
		return v
	case *Term:
		if b, ok := x.t.Underlying().(*types.Basic); ok {
			w, sg := intWidth(b)
			if verb != 'v' && verb != 'd' && verb != 's' && verb != 't' && w > 0 {
				f := "%" + string(verb)
				if b.Info()&types.IsFloat != 0 {
					if v.op != OpConst {
						unsup("format of symbolic float")
					}
					return Str{s: fmt.Sprintf(f, fconst(v))}
				}
				if c := in.conc(v); sg {
					return Str{s: fmt.Sprintf(f, sext(c, v.w))}
				} else {
					return Str{s: fmt.Sprintf(f, c)}
				}
			}
			if w == 0 {
				if v.op == OpConst {
					return Str{s: strconv.FormatBool(v.val == 1)}
				}
				if in.fork(v) {
					return Str{s: "true"}
				}
				return Str{s: "false"}
			}
			if b.Info()&types.IsFloat != 0 {
				if v.op == OpConst {
					return Str{s: strconv.FormatFloat(fconst(v), 'g', -1, int(v.w))}
				}
				unsup("format of symbolic float")
			}
			c := in.conc(v)
			if sg {
				return Str{s: strconv.FormatInt(sext(c, v.w), 10)}
			}
			return Str{s: strconv.FormatUint(c, 10)}
		}
	case Slice:
		if sl, ok := x.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte && verb == 's' {
				return in.convert(x.t, types.Typ[types.String], v).(Str)
			}
			r := Str{s: "["}
			for i := 0; i < v.len; i++ {
				if i > 0 {
					r = in.strConcat(r, Str{s: " "})
				}
				r = in.strConcat(r, in.fmtVal(Iface{sl.Elem(), v.arr.e[v.off+i]}, 'v'))
			}
			return in.strConcat(r, Str{s: "]"})
		}
	}
	if x.t == nil {
		return Str{s: "<nil>"}
	}
	return Str{s: "<" + x.t.String() + ">"}
}

func (in *Interp) sprintf(f string, args []Iface) Str {
	r := Str{}
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			r = in.strConcat(r, Str{s: f[i:j]})
			i = j - 1
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		if f[j] == '%' {
			r = in.strConcat(r, Str{s: "%"})
		} else if k < len(args) {
			spec := f[i : j+1]
			if len(spec) > 2 {
				// width/precision: only for concrete basic values
				a := args[k]
				switch v := a.v.(type) {
				case *Term:
					b, ok := a.t.Underlying().(*types.Basic)
					if ok {
						w, sg := intWidth(b)
						if b.Info()&types.IsFloat != 0 && v.op == OpConst {
							r = in.strConcat(r, Str{s: fmt.Sprintf(spec, fconst(v))})
						} else if w > 0 && b.Info()&types.IsFloat == 0 {
							c := in.conc(v)
							if sg {
								r = in.strConcat(r, Str{s: fmt.Sprintf(spec, sext(c, v.w))})
							} else {
								r = in.strConcat(r, Str{s: fmt.Sprintf(spec, c)})
							}
						} else {
							unsup("Sprintf %s", spec)
						}
					}
				case Str:
					if v.b != nil {
						unsup("Sprintf %s of symbolic string", spec)
					}
					r = in.strConcat(r, Str{s: fmt.Sprintf(spec, v.s)})
				default:
					r = in.strConcat(r, in.fmtVal(a, f[j]))
				}
			} else {
				r = in.strConcat(r, in.fmtVal(args[k], f[j]))
			}
			k++
		}
		i = j
	}
	return r
}

// ---- sync primitives ----

func atomicOp(f func(in *Interp, p Ptr, a []Value) Value) intrinsic {
	return func(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
		p, ok := a[0].(Ptr)
		if !ok || p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if in.schedPoint(g, "atomic") {
			return nil, actRetry
		}
		in.event(g, "atomic")
		if in.multi {
			l := in.lock(p)
			g.vc.join(l.wvc)
			r := f(in, p, a)
			l.wvc.join(g.vc)
			in.tick(g)
			return r, actDone
		}
		return f(in, p, a), actDone
	}
}

func mutexLock(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	p := a[0].(Ptr)
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := in.lock(p)
	if l.writer != nil || l.readers > 0 {
		g.status, g.waitOn = gPred, "lock"
		l.wwait++
		waiting := true
		g.ready = func() bool {
			r := l.writer == nil && l.readers == 0
			return r
		}
		_ = waiting
		g.onWake = func() { l.wwait-- }
		return nil, actRetry
	}
	if in.schedPoint(g, "lock") {
		return nil, actRetry
	}
	in.event(g, "lock")
	l.writer = g
	g.vc.join(l.wvc)
	g.vc.join(l.rvc)
	return nil, actDone
}

func mutexTryLock(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	l := in.lock(a[0].(Ptr))
	if in.schedPoint(g, "trylock") {
		return nil, actRetry
	}
	in.event(g, "lock")
	if l.writer != nil || l.readers > 0 {
		return in.ts.fls, actDone
	}
	l.writer = g
	g.vc.join(l.wvc)
	g.vc.join(l.rvc)
	return in.ts.tru, actDone
}

func mutexUnlock(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	p := a[0].(Ptr)
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := in.lock(p)
	if l.writer == nil {
		in.report("exit", "fatal error: unlock of unlocked mutex", nil)
	}
	l.writer = nil
	l.wvc = g.vc.copy()
	in.tick(g)
	in.event(g, "unlock")
	return nil, actDone
}

func rLock(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	p := a[0].(Ptr)
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := in.lock(p)
	if l.writer != nil || l.wwait > 0 {
		// a waiting writer blocks new readers, as sync.RWMutex does
		g.status, g.waitOn = gPred, "rlock"
		g.ready = func() bool { return l.writer == nil && l.wwait == 0 }
		return nil, actRetry
	}
	if in.schedPoint(g, "rlock") {
		return nil, actRetry
	}
	in.event(g, "rlock")
	l.readers++
	g.vc.join(l.wvc)
	return nil, actDone
}

func rUnlock(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	l := in.lock(a[0].(Ptr))
	if l.readers <= 0 {
		in.report("exit", "fatal error: sync: RUnlock of unlocked RWMutex", nil)
	}
	l.readers--
	l.rvc.join(g.vc)
	in.tick(g)
	in.event(g, "runlock")
	return nil, actDone
}

type wgState struct {
	n  int
	vc vclock
}

func (in *Interp) wg(p Ptr) *wgState {
	k := [2]interface{}{"wg", p}
	s, ok := in.side[k]
	if !ok {
		s = &wgState{vc: vclock{}}
		in.side[k] = s
	}
	return s.(*wgState)
}

func wgAdd(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	if in.schedPoint(g, "wg") {
		return nil, actRetry
	}
	in.event(g, "wg")
	s := in.wg(a[0].(Ptr))
	s.n += in.concInt(a[1])
	s.vc.join(g.vc)
	in.tick(g)
	if s.n < 0 {
		panic(goPanic{Iface{t: types.Typ[types.String], v: Str{s: "sync: negative WaitGroup counter"}}})
	}
	return nil, actDone
}

func wgWait(in *Interp, g *G, fr *Frame, a []Value) (Value, action) {
	s := in.wg(a[0].(Ptr))
	if s.n > 0 {
		g.status, g.waitOn = gPred, "WaitGroup.Wait"
		g.ready = func() bool { return s.n == 0 }
		return nil, actRetry
	}
	in.event(g, "wait")
	g.vc.join(s.vc)
	return nil, actDone
}

var _ = ssa.BuilderMode(0)
