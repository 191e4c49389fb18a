// Package vsym is the harness vocabulary. Under gosym every function here is
// intercepted and has a symbolic meaning; compiled natively (replay), inputs
// come from the JSON file named by VSYM_REPLAY.
package vsym

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"
)

type replayFile struct {
	Vals  map[string]interface{}
	Tier  int
	Sched []schedEvent
	Pace  int // milliseconds per event, 0 to follow the schedule by gates
}

var (
	mu   sync.Mutex
	rep  replayFile
	seq  = map[string]int{}
	once sync.Once
	tmp  string
)

func load() {
	once.Do(func() {
		b, err := ioutil.ReadFile(os.Getenv("VSYM_REPLAY"))
		if err != nil {
			fmt.Println("VSYM-ERR", err)
			os.Exit(9)
		}
		if err := json.Unmarshal(b, &rep); err != nil {
			fmt.Println("VSYM-ERR", err)
			os.Exit(9)
		}
	})
}

func get(name string) interface{} {
	load()
	mu.Lock()
	defer mu.Unlock()
	k := seq[name]
	seq[name] = k + 1
	v, ok := rep.Vals[fmt.Sprintf("%s#%d", name, k)]
	if !ok {
		fmt.Printf("VSYM-DIVERGE: no value for %s#%d\n", name, k)
		exit(4)
	}
	return v
}

func getInt(name string) int64 {
	v := get(name)
	switch x := v.(type) {
	case string:
		if i, err := strconv.ParseInt(x, 10, 64); err == nil {
			return i
		}
		u, _ := strconv.ParseUint(x, 10, 64)
		return int64(u)
	case float64:
		return int64(x)
	}
	return 0
}

func exit(code int) {
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(code)
}

// Int is an arbitrary int in [lo,hi].
func Int(name string, lo, hi int) int { return int(getInt(name)) }

// AnyInt is an arbitrary int.
func AnyInt(name string) int { return int(getInt(name)) }

// Uint32 is an arbitrary uint32.
func Uint32(name string) uint32 { return uint32(getInt(name)) }

// Uint64 is an arbitrary uint64.
func Uint64(name string) uint64 { return uint64(getInt(name)) }

// Byte is an arbitrary byte.
func Byte(name string) byte { return byte(getInt(name)) }

// Bool is an arbitrary bool.
func Bool(name string) bool { b, _ := get(name).(bool); return b }

// F32 is an arbitrary float32 (any bit pattern).
func F32(name string) float32 { return math.Float32frombits(uint32(getInt(name))) }

// F64 is an arbitrary float64.
func F64(name string) float64 { return math.Float64frombits(uint64(getInt(name))) }

// Choice is an arbitrary int in [0,n), decided immediately.
func Choice(name string, n int) int { return int(getInt(name)) }

// Str is an arbitrary byte string with lo <= len <= hi.
func Str(name string, lo, hi int) string {
	a, _ := get(name).([]interface{})
	b := make([]byte, len(a))
	for i := range a {
		b[i] = byte(a[i].(float64))
	}
	return string(b)
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		fmt.Println("VSYM-ASSUME-FALSE")
		exit(4)
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VSYM-FAIL:", msg)
		exit(3)
	}
}

// Fail is Assert(false).
func Fail(msg string) { Assert(false, msg) }

// Reach marks a point that must be reachable.
func Reach(name string) {}

// And, Or, Implies build conditions without branching.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is the disjunction.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// Implies is a -> b.
func Implies(a, b bool) bool { return !a || b }

// IteInt is c ? a : b without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IteF32 is c ? a : b without branching.
func IteF32(c bool, a, b float32) float32 {
	if c {
		return a
	}
	return b
}

// SameF32 compares values; natively rounding noise is tolerated.
func SameF32(a, b float32) bool {
	if a == b {
		return true
	}
	if a != a || b != b || math.IsInf(float64(a), 0) || math.IsInf(float64(b), 0) {
		return a != a && b != b
	}
	d := math.Abs(float64(a) - float64(b))
	m := math.Max(math.Abs(float64(a)), math.Abs(float64(b)))
	return d <= 1e-3*m+1e-6
}

// Concrete forces a value to be decided.
func Concrete(v int) int { return v }

// IsSymbolic tells the two worlds apart.
func IsSymbolic() bool { return false }

// MapOrder selects the model of map iteration order (0 insertion, 1 insertion
// or reverse, 2 every order).
func MapOrder(mode int) {}

// TimersMayFire lets timers expire at any moment.
func TimersMayFire(b bool) {}

// Budget sets the remaining scheduling budget.
func Budget(n int) {}

// Settle waits until background goroutines are idle.
func Settle() {
	if turn() {
		return
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Blocked counts other live goroutines (symbolic only).
func Blocked() int { return 0 }

// Tier is 0 for quick, 1 for thorough.
func Tier() int { load(); return rep.Tier }

// Observe records a value that the encoding predicts and the native run must
// reproduce.
func Observe(name string, v interface{}) {
	rv := reflect.ValueOf(v)
	s := ""
	switch rv.Kind() {
	case reflect.String:
		s = fmt.Sprintf("%q", rv.String())
	case reflect.Bool:
		s = fmt.Sprint(rv.Bool())
	case reflect.Float32:
		s = fmt.Sprint(int32(math.Float32bits(float32(rv.Float()))))
	case reflect.Float64:
		s = fmt.Sprint(int64(math.Float64bits(rv.Float())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s = fmt.Sprint(rv.Uint())
	default:
		s = fmt.Sprint(rv.Int())
	}
	fmt.Printf("VSYM-OBS %s %s\n", name, s)
}

// TempDir is a scratch directory removed at exit (native only).
func TempDir() string {
	if d := os.Getenv("VSYM_TMP"); d != "" {
		return d // whoever started the run removes it
	}
	if tmp == "" {
		tmp, _ = ioutil.TempDir("", "vsym")
	}
	return tmp
}

// Done ends a native run.
func Done() { exit(0) }

// SortSlice is the model of sort.Slice: insertion sort, valid for any less.
func SortSlice(x interface{}, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

// SliceIsSorted is the model of sort.SliceIsSorted.
func SliceIsSorted(x interface{}, less func(i, j int) bool) bool {
	for i := lenAny(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}

// Sprintf and the like format plain values.
func Sprintf(format string, a ...interface{}) string { return fmt.Sprintf(format, a...) }
func Sprint(a ...interface{}) string                 { return fmt.Sprint(a...) }
func Sprintln(a ...interface{}) string               { return fmt.Sprintln(a...) }

// AsTarget, Disarm and Arm serve the models of errors and time; they do
// nothing natively.
func AsTarget(err error, target interface{}) bool { return false }
func Disarm(c <-chan time.Time) bool              { return false }
func Arm(c <-chan time.Time, d time.Duration)     {}

func swapAny(x interface{}, i, j int) {}
func lenAny(x interface{}) int        { return 0 }

// UFHash is an uninterpreted hash (symbolic only).
func UFHash(s string) uint32 { return 0 }

// SamePerm reports whether the two slices hold the same values, each equally
// often, in any order.
func SamePerm(a, b []uint64) bool {
	n := map[uint64]int{}
	for _, x := range a {
		n[x]++
	}
	for _, x := range b {
		n[x]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

// Repeat is how often to repeat a step whose effect the real library may
// delay: n natively, once under gosym (its models do not delay).
func Repeat(n int) int { return n }
