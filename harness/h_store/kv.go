package h_store

import (
	"errors"
	"os"
	"strings"

	"github.com/go-ego/riot/store"
	_ "github.com/go-ego/riot/zzverif/kvmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

var engines = []string{"ldb", "bg", "bolt"}

func open(engine, name string) store.Store {
	s, err := store.OpenStore(vsym.TempDir()+"/"+name, engine)
	vsym.Assert(err == nil && s != nil, "a supported store engine cannot be opened")
	return s
}

type op struct {
	set bool
	k   string
	v   string
}

// latest replays the history for one key.
func latest(h []op, k string) (string, bool) {
	v, ok := "", false
	for _, o := range h {
		if o.k == k {
			v, ok = o.v, o.set
		}
	}
	return v, ok
}

// do reports whether the store accepted the operation; only the empty key may
// be refused, and only by engines without one.
func do(s store.Store, o op) bool {
	// the caller's buffers are its own again as soon as the call returns
	k, v := []byte(o.k), []byte(o.v)
	var err error
	if o.set {
		err = s.Set(k, v)
	} else {
		err = s.Delete(k)
	}
	vsym.Assert(err == nil || len(o.k) == 0, "a write to an open store fails")
	for i := range k {
		k[i] = 'X'
	}
	for i := range v {
		v[i] = 'Y'
	}
	return err == nil
}

func check(s store.Store, h []op, k string) {
	want, live := latest(h, k)
	has, err := s.Has([]byte(k))
	vsym.Assert(err == nil || len(k) == 0 && !live, "asking whether a key exists fails")
	vsym.Assert(has == live, "a key exists exactly if it was set and not deleted since")
	got, err := s.Get([]byte(k))
	if live {
		vsym.Assert(err == nil, "reading a stored key fails")
		vsym.Assert(string(got) == want, "a key does not read back as its last value")
		vsym.Reach("live")
	} else {
		vsym.Assert(len(got) == 0, "an absent key reads back a value")
		vsym.Reach("absent")
	}
}

func sym(name string) op {
	o := op{k: vsym.Str("key_"+name, 0, 2), set: vsym.Bool("set_" + name)}
	if o.set {
		o.v = vsym.Str("value_"+name, 0, 1)
	}
	return o
}

//vsym:harness prop=C15 tier=quick,thorough time=90 ttime=500
//vsym:bounds each of the three engines; 3 (thorough 4) writes or deletions with arbitrary keys of 0..2 bytes and values of 0..1 bytes, then every key of 0..2 bytes is probed; the caller overwrites its buffers after each call
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end live absent
func Map() {
	e := engines[vsym.Choice("engine", 3)]
	s := open(e, "db")
	var h []op
	for i := 0; i < 3+vsym.Tier(); i++ {
		o := sym("op")
		if do(s, o) {
			h = append(h, o)
		}
	}
	check(s, h, vsym.Str("probe", 0, 2))
	vsym.Assert(s.Close() == nil, "closing a store fails")
	vsym.Reach("end")
}

//vsym:harness prop=C15 tier=quick,thorough time=90 ttime=500
//vsym:bounds each of the three engines; 3 (thorough 4) writes or deletions with arbitrary keys of 0..2 bytes; iteration that may stop at any element
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end stopped
func Iterate() {
	e := engines[vsym.Choice("engine", 3)]
	s := open(e, "db")
	var h []op
	for i := 0; i < 3+vsym.Tier(); i++ {
		o := sym("op")
		if do(s, o) {
			h = append(h, o)
		}
	}
	stop := vsym.Choice("stop", 4) - 1
	errStop := errors.New("stop")
	var seen []op
	err := s.ForEach(func(k, v []byte) error {
		seen = append(seen, op{true, string(k), string(v)})
		if len(seen)-1 == stop {
			return errStop
		}
		return nil
	})
	if stop >= 0 && len(seen) > stop {
		vsym.Assert(err == errStop, "the error that stopped an iteration is not reported")
		vsym.Assert(len(seen) == stop+1, "an iteration goes on after an error")
		vsym.Reach("stopped")
	} else {
		vsym.Assert(err == nil, "an iteration fails")
		for i, o := range h {
			want, live := latest(h, o.k)
			n := 0
			for _, x := range seen {
				if x.k == o.k {
					n++
					vsym.Assert(x.v == want, "an iteration passes a value other than the last one set")
				}
			}
			if live {
				vsym.Assert(n == 1, "an iteration does not pass every stored key once")
			} else {
				vsym.Assert(n == 0, "an iteration passes a deleted key")
			}
			_ = i
		}
	}
	for i := range seen {
		_, live := latest(h, seen[i].k)
		vsym.Assert(live, "an iteration passes a key that is not stored")
		for j := range seen {
			vsym.Assert(i == j || seen[i].k != seen[j].k, "an iteration passes a key twice")
		}
	}
	// the store is usable afterwards, and closes
	do(s, op{true, "z", "1"})
	vsym.Assert(s.Close() == nil, "closing a store fails")
	vsym.Reach("end")
}

//vsym:harness prop=C15 tier=quick,thorough time=90 ttime=500
//vsym:bounds each of the three engines; 2 (thorough 3) arbitrary writes or deletions to one of two stores, close, reopen, one more write, probe
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end live absent
func Reopen() {
	e := engines[vsym.Choice("engine", 3)]
	s := open(e, "db")
	other := open(e, "other")
	var h, g []op
	for i := 0; i < 2+vsym.Tier(); i++ {
		o := sym("op")
		if vsym.Bool("other") {
			if do(other, o) {
				g = append(g, o)
			}
		} else if do(s, o) {
			h = append(h, o)
		}
	}
	vsym.Assert(s.Close() == nil, "closing a store fails")
	s = open(e, "db")
	check(s, h, vsym.Str("probe", 0, 2))
	o := sym("late")
	if do(s, o) {
		h = append(h, o)
	}
	check(s, h, o.k)
	check(other, g, o.k)
	vsym.Assert(s.Close() == nil && other.Close() == nil, "closing a store fails")
	vsym.Reach("end")
}

//vsym:harness prop=C15 tier=quick,thorough time=60 ttime=300
//vsym:bounds each of the three engines; 2 (thorough 3) writes or deletions with keys of 61..63 bytes, of which 2 are arbitrary, and values of 400 or 401 bytes, of which 1 is arbitrary; then all are iterated over and one is probed, before and after the store is reopened
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end live absent
func Long() {
	e := engines[vsym.Choice("engine", 3)]
	s := open(e, "db")
	before, after := strings.Repeat("k", 30), strings.Repeat("l", 31)
	value := strings.Repeat("value of ten bytes. ", 10)
	var h []op
	for i := 0; i < 2+vsym.Tier(); i++ {
		o := sym("op")
		o.k, o.v = before+o.k+after, value+o.v+value
		do(s, o)
		h = append(h, o)
	}
	probe := before + vsym.Str("probe", 0, 2) + after
	for i := 0; i < 2; i++ {
		var kept []op
		vsym.Assert(s.ForEach(func(k, v []byte) error {
			kept = append(kept, op{true, string(k), string(v)})
			return nil
		}) == nil, "an iteration fails")
		for _, o := range h {
			want, live := latest(h, o.k)
			n := 0
			for _, x := range kept {
				if x.k == o.k {
					n++
					vsym.Assert(x.v == want, "an iteration passes a value other than the last one set")
				}
			}
			vsym.Assert(live == (n == 1), "an iteration does not pass every stored key once")
			vsym.Assert(live || n == 0, "an iteration passes a deleted key")
		}
		check(s, h, probe)
		vsym.Assert(s.Close() == nil, "closing a store fails")
		s = open(e, "db")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C15 tier=quick,thorough time=60
//vsym:bounds each of the three engines; a value of 1..2 arbitrary bytes, or of 2 between 38 others, is read and kept while the same or another arbitrary key is set or deleted three times, and after the store is closed
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end
func KeepValue() {
	e := engines[vsym.Choice("engine", 3)]
	s := open(e, "db")
	v := vsym.Str("value", 1, 2)
	if vsym.Bool("long") {
		v = "a value longer than " + v + "many others are."
	}
	do(s, op{true, "k", v})
	// bbolt lends memory only once a bucket no longer fits in its parent's page
	for j := 0; j < vsym.Repeat(200); j++ {
		do(s, op{true, "fill" + string(rune('a'+j)), "ZZZZZZZZZZZZZZZZ"})
	}
	got, err := s.Get([]byte("k"))
	vsym.Assert(err == nil && string(got) == v, "a key does not read back as its last value")
	for i := 0; i < 3; i++ {
		o := op{vsym.Bool("set"), vsym.Str("key", 1, 1), "XX"}
		do(s, o)
	}
	vsym.Assert(string(got) == v, "a value that was read changes when the store is written to")
	vsym.Assert(s.Close() == nil, "closing a store fails")
	vsym.Assert(string(got) == v, "a value that was read is lost when the store is closed")
	vsym.Reach("end")
}

type fake struct {
	name, path string
}

func (f *fake) Set(k, v []byte) error                    { return nil }
func (f *fake) Get(k []byte) ([]byte, error)             { return nil, nil }
func (f *fake) Delete(k []byte) error                    { return nil }
func (f *fake) Has(k []byte) (bool, error)               { return false, nil }
func (f *fake) ForEach(fn func(k, v []byte) error) error { return nil }
func (f *fake) Close() error                             { return nil }
func (f *fake) WALName() string                          { return f.path }

var errOpen = errors.New("cannot open")

func register(name string, fail bool) {
	store.RegisterStore(name, func(path string) (store.Store, error) {
		if fail {
			return nil, errOpen
		}
		return &fake{name, path}, nil
	})
}

//vsym:harness prop=C16 tier=quick,thorough time=60 ttime=300
//vsym:bounds engine name absent, empty, one of the built-in ones, a registered one (which may fail to open) or arbitrary text of up to 4 bytes; the same for the environment variable; a second argument may follow
//vsym:reach end known unknown failed
func Select() {
	for _, n := range engines {
		register(n, false)
	}
	fails := vsym.Bool("fails")
	register("mine", fails)
	pick := func(what string) (string, bool) {
		switch n := vsym.Choice(what, 7); n {
		case 0:
			return "", false
		case 1:
			return "", true
		case 2, 3, 4:
			return engines[n-2], true
		case 5:
			return "mine", true
		}
		return vsym.Str("name_"+what, 1, 4), true
	}
	arg, withArg := pick("arg")
	env, withEnv := pick("env")
	os.Unsetenv("Riot_Store_Engine")
	if withEnv {
		for i := 0; i < len(env); i++ {
			vsym.Assume(env[i] != 0)
		}
		os.Setenv("Riot_Store_Engine", env)
	}
	var args []string
	if withArg {
		args = append(args, arg)
		if vsym.Bool("second") {
			args = append(args, "bolt")
		}
	}
	want := "ldb"
	if arg != "" {
		want = arg
	} else if env != "" {
		want = env
	}
	s, err := store.OpenStore("some/path", args...)
	known := want == "mine"
	for _, n := range engines {
		known = known || want == n
	}
	switch {
	case !known:
		vsym.Assert(err != nil && s == nil, "an unknown store engine is not rejected")
		vsym.Reach("unknown")
	case want == "mine" && fails:
		vsym.Assert(err == errOpen && s == nil, "the error of an engine that cannot open is not passed on")
		vsym.Reach("failed")
	default:
		vsym.Assert(err == nil && s != nil, "a registered store engine is not opened")
		f := s.(*fake)
		vsym.Assert(f.name == want, "another store engine than the selected one is opened")
		vsym.Assert(f.path == "some/path", "the store is opened elsewhere")
		vsym.Reach("known")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C16 tier=quick,thorough time=60
//vsym:bounds the built-in engines, opened by name, through the environment or by default; opening in a folder that does not exist, then again
//vsym:assume goleveldb, badger and bbolt keep what their documentation promises (kvmodel); replays run the real libraries
//vsym:reach end
func Builtin() {
	n := vsym.Choice("engine", 4)
	name := "ldb"
	if n < 3 {
		name = engines[n]
	}
	os.Unsetenv("Riot_Store_Engine")
	path := vsym.TempDir() + "/" + vsym.Str("file", 1, 1)
	vsym.Assume(path[len(path)-1] >= 'a' && path[len(path)-1] <= 'z')
	var s store.Store
	var err error
	switch {
	case n == 3:
		s, err = store.OpenStore(path)
	case vsym.Bool("env"):
		os.Setenv("Riot_Store_Engine", name)
		s, err = store.OpenStore(path, "")
	default:
		os.Setenv("Riot_Store_Engine", "none")
		s, err = store.OpenStore(path, name)
	}
	vsym.Assert(err == nil, "a built-in store engine cannot be opened")
	_, l := s.(*store.Leveldb)
	_, b := s.(*store.Badger)
	_, o := s.(*store.Bolt)
	vsym.Assert(l == (name == "ldb") && b == (name == "bg") && o == (name == "bolt"), "another store engine than the selected one is opened")
	if o {
		vsym.Assert(s.WALName() == path, "a bolt store does not name its file")
	} else {
		vsym.Assert(s.WALName() == "", "a store without a single file names one")
	}
	vsym.Assert(s.Close() == nil, "closing a store fails")
	vsym.Reach("end")
}
