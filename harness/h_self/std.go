package h_self

import (
	"bufio"
	"bytes"
	"container/heap"
	"container/list"
	"context"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/bits"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/go-ego/riot/zzverif/vsym"
)

type ints []int

func (h ints) Len() int            { return len(h) }
func (h ints) Less(i, j int) bool  { return h[i] < h[j] }
func (h ints) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *ints) Push(x interface{}) { *h = append(*h, x.(int)) }
func (h *ints) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

var errBase = errors.New("base")

type wrapped struct{ err error }

func (w wrapped) Error() string { return "w:" + w.err.Error() }
func (w wrapped) Unwrap() error { return w.err }

// What a rewrite of the code may as well use.
//
//vsym:harness prop=SELF tier=quick,thorough time=60 samples=400
//vsym:bounds library functions on inputs with one symbolic part
//vsym:reach end
func Library() {
	switch vsym.Choice("part", 11) {
	case 0:
		s := vsym.Str("s", 2, 2)
		vsym.Assume(vsym.And(s[0] >= 'a', s[0] <= 'c'))
		vsym.Assume(vsym.And(s[1] >= 'a', s[1] <= 'c'))
		vsym.Observe("index", strings.Index("xab", s))
		vsym.Observe("last", strings.LastIndex("abxab", s))
		vsym.Observe("count", strings.Count("ababcc", s))
		vsym.Observe("cmp", strings.Compare(s, "bb"))
		vsym.Observe("fold", strings.EqualFold(s, "AB"))
		vsym.Observe("has", strings.HasPrefix(s, "b") || strings.HasSuffix(s, "c"))
		vsym.Observe("any", strings.ContainsAny(s, "cd"))
		vsym.Observe("byte", strings.IndexByte(s, 'b'))
		vsym.Observe("rune", strings.ContainsRune(s, 'c'))
		vsym.Observe("bytes", bytes.Equal([]byte(s), []byte("ab")))
		vsym.Observe("bcmp", bytes.Compare([]byte(s), []byte("ab")))
	case 1:
		vsym.Observe("fields", strings.Join(strings.Fields(" a  b c "), ","))
		vsym.Observe("ff", strings.Join(strings.FieldsFunc("a,b;c", func(r rune) bool { return r == ',' || r == ';' }), "|"))
		vsym.Observe("map", strings.Map(func(r rune) rune { return unicode.ToUpper(r) }, "abc中"))
		vsym.Observe("title", strings.ToUpper("abc")+strings.ToLower("ABC")+strings.Title("abc"))
		vsym.Observe("trim", strings.TrimSpace(" a ")+strings.Trim("xax", "x")+strings.TrimLeft("xax", "x")+strings.TrimRight("xax", "x")+strings.TrimFunc("1a1", unicode.IsDigit)+strings.TrimPrefix("ab", "a")+strings.TrimSuffix("ab", "b"))
		vsym.Observe("repl", strings.NewReplacer("a", "1", "b", "2").Replace("abc")+strings.Replace("aaa", "a", "b", 2)+strings.Replace("aaa", "a", "b", -1)+strings.ReplaceAll("aaa", "a", "c"))
		vsym.Observe("split", strings.Join(strings.SplitN("a,b,c", ",", 2), "|")+strings.Join(strings.SplitAfter("a,b", ","), "|")+strings.Join(strings.Split("中文", ""), "|"))
		vsym.Observe("rep", strings.Repeat("ab", 3))
		var b strings.Builder
		b.WriteString("a")
		b.WriteByte('b')
		b.WriteRune('中')
		fmt.Fprintf(&b, "%d", 3)
		vsym.Observe("builder", b.String()+strconv.Itoa(b.Len()))
		r := strings.NewReader("hello")
		x, _ := ioutil.ReadAll(r)
		vsym.Observe("reader", string(x))
		vsym.Observe("runes", len([]rune("中a"))+utf8.RuneCountInString("中a")+utf8.RuneLen('中'))
		vsym.Observe("valid", utf8.ValidString("a\xff"))
		vsym.Observe("uni", unicode.IsLetter('a') && unicode.IsSpace(' ') && unicode.Is(unicode.Han, '中') && unicode.IsUpper('A') && unicode.IsPunct(','))
	case 2:
		v := vsym.Int("v", 0, 9)
		x := []int{5, v, 3}
		sort.Ints(x)
		vsym.Observe("ints", x[0]*100+x[1]*10+x[2])
		y := []string{"b", "a", "c"}
		sort.Strings(y)
		vsym.Observe("strings", strings.Join(y, ""))
		z := []int{v, 4, 7}
		sort.Slice(z, func(i, j int) bool { return z[i] > z[j] })
		vsym.Observe("slice", z[0]*100+z[1]*10+z[2])
		sort.SliceStable(z, func(i, j int) bool { return z[i]%2 < z[j]%2 })
		vsym.Observe("stable", z[0]*100+z[1]*10+z[2])
		sort.Sort(sort.Reverse(sort.IntSlice(x)))
		vsym.Observe("reverse", x[0])
		vsym.Observe("search", sort.SearchInts([]int{1, 3, 5}, v)+sort.SearchStrings(y, "b"))
		vsym.Observe("sorted", sort.IntsAreSorted(x) || sort.SliceIsSorted(z, func(i, j int) bool { return z[i] < z[j] }))
		f := []float64{2, 1}
		sort.Float64s(f)
		vsym.Observe("floats", f[0])
	case 3:
		h := ints{5, 2, 8}
		heap.Init(&h)
		heap.Push(&h, vsym.Int("v", 0, 9))
		vsym.Observe("heap", heap.Pop(&h).(int)*10+heap.Pop(&h).(int))
		l := list.New()
		l.PushBack(1)
		l.PushFront(2)
		n := 0
		for e := l.Front(); e != nil; e = e.Next() {
			n = n*10 + e.Value.(int)
		}
		vsym.Observe("list", n+l.Len())
	case 4:
		var b bytes.Buffer
		b.WriteString("line one\nline two\n")
		sc := bufio.NewScanner(&b)
		n := 0
		for sc.Scan() {
			n += len(sc.Text())
		}
		vsym.Observe("scan", n)
		br := bufio.NewReader(strings.NewReader("ab\ncd"))
		s, err := br.ReadString('\n')
		vsym.Observe("read", s)
		vsym.Observe("err", err == nil)
		_, err = br.ReadString('\n')
		vsym.Observe("eof", err == io.EOF)
		var w bytes.Buffer
		bw := bufio.NewWriter(&w)
		bw.WriteString("xyz")
		bw.Flush()
		vsym.Observe("writer", w.String())
		io.Copy(&w, strings.NewReader("abc"))
		vsym.Observe("copy", w.String()+string(bytes.TrimSpace([]byte(" a ")))+string(bytes.Join([][]byte{[]byte("a"), []byte("b")}, []byte(","))))
	case 5:
		v := vsym.Int("v", 0, 1000)
		u := make([]byte, 8)
		binary.LittleEndian.PutUint64(u, uint64(v))
		vsym.Observe("le", int(binary.LittleEndian.Uint64(u)))
		binary.BigEndian.PutUint32(u, uint32(v))
		vsym.Observe("be", int(binary.BigEndian.Uint32(u)))
		n := binary.PutUvarint(u, uint64(v))
		y, m := binary.Uvarint(u[:n])
		vsym.Observe("varint", int(y)*10+m)
		vsym.Observe("hex", hex.EncodeToString([]byte("ab")))
		vsym.Observe("bits", bits.Len64(uint64(v))+bits.OnesCount64(uint64(v))+bits.TrailingZeros64(uint64(v)|8))
	case 6:
		e := fmt.Errorf("more: %w", wrapped{errBase})
		vsym.Observe("is", errors.Is(e, errBase))
		var w wrapped
		vsym.Observe("as", errors.As(e, &w))
		vsym.Observe("text", e.Error())
		vsym.Observe("unwrap", errors.Unwrap(errors.Unwrap(e)) == errBase)
		vsym.Observe("fmt", fmt.Sprintf("%v  %q %x %5d|%-5d|%05d %s %t %c %T %8.3f  %v", 1, "q", 255, 3, 4, 5, []byte("b"), true, 'c', 1.5, 2.5, []string{"a"}))
		n, err := strconv.Atoi("12")
		f, _ := strconv.ParseFloat("1.5", 64)
		i, _ := strconv.ParseInt("-7", 10, 64)
		u, _ := strconv.ParseUint("7f", 16, 64)
		b, _ := strconv.ParseBool("true")
		vsym.Observe("conv", fmt.Sprint(n, err, f, i, u, b, strconv.FormatInt(77, 2), strconv.Quote("a\n"), strconv.FormatFloat(1.25, 'f', -1, 32)))
		_, err = strconv.Atoi("x")
		vsym.Observe("bad", err.Error())
	case 7:
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), my{1}, "v"))
		vsym.Observe("value", ctx.Value(my{1}).(string))
		go cancel()
		<-ctx.Done()
		vsym.Observe("err", ctx.Err() == context.Canceled)
		ctx, cancel = context.WithTimeout(context.Background(), time.Millisecond)
		defer cancel()
		select {
		case <-ctx.Done():
			vsym.Observe("late", ctx.Err() == context.DeadlineExceeded)
		}
	case 8:
		var once sync.Once
		n := 0
		for i := 0; i < 3; i++ {
			once.Do(func() { n++ })
		}
		p := sync.Pool{New: func() interface{} { return new(int) }}
		x := p.Get().(*int)
		p.Put(x)
		var c int64
		var wg sync.WaitGroup
		for i := 0; i < 3; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				atomic.AddInt64(&c, int64(i))
			}(i)
		}
		wg.Wait()
		vsym.Observe("sync", n*10+int(atomic.LoadInt64(&c)))
		var v atomic.Value
		v.Store("x")
		vsym.Observe("atomic", v.Load().(string))
		var a32 int32
		vsym.Observe("cas", atomic.CompareAndSwapInt32(&a32, 0, 5) && atomic.SwapInt32(&a32, 6) == 5)
		var a64 atomic.Int64
		a64.Store(3)
		a64.Add(2)
		var ab atomic.Bool
		ab.Store(true)
		vsym.Observe("typed", int(a64.Load())+runtime.NumCPU()*0)
		var mu sync.Mutex
		cond := sync.NewCond(&mu)
		ready := false
		go func() {
			mu.Lock()
			ready = true
			cond.Broadcast()
			mu.Unlock()
		}()
		mu.Lock()
		for !ready {
			cond.Wait()
		}
		mu.Unlock()
		runtime.Gosched()
	case 9:
		v := float64(vsym.Choice("v", 3))
		vsym.Observe("math", math.Sqrt(4)+math.Log2(8)+math.Log(math.E)+math.Pow(2, 3)+math.Floor(1.5)+math.Ceil(v)+math.Abs(-v)+math.Max(v, 1)+math.Min(v, 1)+math.Exp(0)+math.Round(2.5)+math.Mod(5, 3)+math.Trunc(1.7))
		vsym.Observe("inf", math.IsInf(math.Inf(1), 1) && math.IsNaN(math.NaN()))
		vsym.Observe("max", int64(math.MaxInt32)+int64(math.MaxInt16))
	case 10:
		m := map[string][]int{"a": {1}}
		m["b"] = append(m["b"], 2)
		delete(m, "a")
		c := make([]int, 3, 10)
		n := copy(c[1:], []int{7, 8, 9})
		vsym.Observe("core", len(m)*100+n*10+cap(c[:2:5])+c[2])
		var arr [4]int
		for i := range arr {
			arr[i] = i * i
		}
		arr2 := arr
		arr2[3] = 0
		vsym.Observe("arr", arr[3]+arr2[2])
	out:
		for i := 0; ; i++ {
			switch {
			case i == 3:
				break out
			case i == 1:
				continue out
			}
		}
		ch := make(chan int, 3)
		ch <- 1
		close(ch)
		x, ok := <-ch
		_, ok2 := <-ch
		vsym.Observe("chan", fmt.Sprint(x, ok, ok2, len(ch), cap(ch)))
		func() {
			defer func() { vsym.Observe("rec", fmt.Sprint(recover())) }()
			var none *wrapped
			none.err = nil
		}()
		func() {
			defer func() { vsym.Observe("rec2", fmt.Sprint(recover())) }()
			panic(errBase)
		}()
	}
	vsym.Reach("end")
}
