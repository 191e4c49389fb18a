package h_root

import (
	"errors"
	"sort"
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// A disk holds key-value files. It stops taking writes after a number of them,
// as when the machine fails.
type disk struct {
	files map[string]map[string]string
	open  map[string]*file
	left  int // writes until the failure, -1 for never
	age   int
	busy  sync.Mutex
	turns bool // others may come before a write
}

type file struct {
	d    *disk
	path string
	age  int
}

func (d *disk) failed() bool { return d.left == 0 }

// restart makes the disk usable again; what the old process still does is lost.
func (d *disk) restart() {
	d.age++
	d.left = -1
	d.open = map[string]*file{}
}

func (d *disk) opener(path string) (store.Store, error) {
	if d.open[path] != nil {
		return nil, errors.New("locked")
	}
	f := &file{d, path, d.age}
	d.open[path] = f
	if d.files[path] == nil {
		d.files[path] = map[string]string{}
	}
	return f, nil
}

func (f *file) usable() bool { return f.d.age == f.age && f.d.open[f.path] == f }

func (f *file) write() bool {
	if f.d.turns {
		f.d.busy.Lock()
		f.d.busy.Unlock()
	}
	if !f.usable() || f.d.left == 0 {
		return false
	}
	if f.d.left > 0 {
		f.d.left--
	}
	return true
}

var errClosed = errors.New("closed")

func (f *file) Set(k, v []byte) error {
	if !f.write() {
		return errClosed
	}
	f.d.files[f.path][string(k)] = string(v)
	return nil
}

func (f *file) Delete(k []byte) error {
	if !f.write() {
		return errClosed
	}
	delete(f.d.files[f.path], string(k))
	return nil
}

func (f *file) Get(k []byte) ([]byte, error) {
	if !f.usable() {
		return nil, errClosed
	}
	v, ok := f.d.files[f.path][string(k)]
	if !ok {
		return nil, nil
	}
	return []byte(v), nil
}

func (f *file) Has(k []byte) (bool, error) {
	if !f.usable() {
		return false, errClosed
	}
	_, ok := f.d.files[f.path][string(k)]
	return ok, nil
}

func (f *file) ForEach(fn func(k, v []byte) error) error {
	if !f.usable() {
		return errClosed
	}
	var ks []string
	for k := range f.d.files[f.path] {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := fn([]byte(k), []byte(f.d.files[f.path][k])); err != nil {
			return err
		}
	}
	return nil
}

func (f *file) Close() error {
	if f.usable() {
		delete(f.d.open, f.path)
	}
	return nil
}

func (f *file) WALName() string { return f.path }

func boot(shards, storeShards int, idOnly bool) *riot.Engine {
	o := options(shards, idOnly)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), storeShards, "disk"
	return start(o)
}

// ids and versions as the store tells them.
func stored(e *riot.Engine, ids []string) []int {
	got := make([]int, len(ids))
	for i := range got {
		got[i] = -1
	}
	all, data := e.GetDBAllDocs()
	only := e.GetDBAllIds()
	vsym.Assert(len(e.GetAllDocIds()) == len(only), "the lists of stored ids differ")
	vsym.Assert(len(all) == len(data) && len(all) == len(only), "the lists of stored ids and documents differ")
	for k, id := range all {
		i := index(ids, id)
		vsym.Assert(i >= 0 && got[i] == -1, "an unknown document is stored, or one twice")
		if i < 0 {
			return got
		}
		for v, d := range versions {
			if data[k].Fields == d.Fields {
				got[i] = v
				vsym.Assert(sameDoc(data[k], d), "a document is stored with other data")
			}
		}
		vsym.Assert(got[i] >= 0, "a document is stored without its data")
		vsym.Assert(index(only, id) >= 0, "the lists of stored ids and documents differ")
	}
	for i, id := range ids {
		vsym.Assert(e.HasDocDB(id) == (got[i] >= 0), "HasDocDB differs from what is stored")
	}
	return got
}

func sameDoc(a, b types.DocData) bool {
	if a.Content != b.Content || a.Attri != b.Attri || len(a.Labels) != len(b.Labels) || len(a.Tokens) != len(b.Tokens) {
		return false
	}
	for i := range a.Labels {
		if a.Labels[i] != b.Labels[i] {
			return false
		}
	}
	for i := range a.Tokens {
		if a.Tokens[i].Text != b.Tokens[i].Text || len(a.Tokens[i].Locations) != len(b.Tokens[i].Locations) {
			return false
		}
	}
	return true
}

func restart(steps, crash, kinds int) {
	d := &disk{files: map[string]map[string]string{}}
	d.restart()
	store.RegisterStore("disk", d.opener)
	shards, storeShards := 1+vsym.Choice("shards", 2), 1+vsym.Choice("storeShards", 3)
	ids := docIDs(2)
	e := boot(shards, storeShards, true)
	d.left = crash
	// states[i] are those document i went through, the first one flushed
	states := [][]int{{-1}, {-1}}
	last := []int{0, 0}
	for s := 0; s < steps; s++ {
		i := 0
		if s > 0 {
			i = vsym.Choice("doc", 2)
		}
		v, kind := vsym.Choice("version", kinds+1), 1
		if v == kinds {
			v, kind = -1, 2
		}
		if last[i] != 0 && (last[i] != kind || vsym.Bool("flush")) {
			e.Flush()
			last = []int{0, 0}
			if !d.failed() {
				for j := range states {
					states[j] = states[j][len(states[j])-1:]
				}
			}
		}
		if v < 0 {
			e.RemoveDoc(ids[i])
		} else {
			e.Index(ids[i], versions[v])
		}
		states[i] = append(states[i], v)
		last[i] = kind
	}
	if crash < 0 {
		e.Close()
		vsym.Assert(len(d.open) == 0, "a store is left open")
		for j := range states {
			states[j] = states[j][len(states[j])-1:]
		}
	} else {
		e.Flush()
		if d.failed() {
			vsym.Reach("crash")
		}
	}
	d.restart()
	e = boot(1+(shards+vsym.Choice("reshard", 2))%2, storeShards, false)
	now := stored(e, ids)
	for i := range ids {
		ok := false
		for _, v := range states[i] {
			ok = ok || v == now[i]
		}
		vsym.Assert(ok, "a document is in a state it never had, or an acknowledged change is lost")
	}
	e.Flush()
	check(e, ids, now, false)
	// the restarted engine goes on
	e.Index(ids[1], versions[0])
	e.RemoveDoc(ids[0])
	e.Close()
	d.restart()
	e = boot(shards, storeShards, false)
	e.Flush()
	vsym.Assert(stored(e, ids)[0] == -1 && stored(e, ids)[1] == 0, "a change after a restart is lost")
	check(e, ids, []int{-1, 0}, false)
	vsym.Reach("end")
}

//vsym:harness prop=C22 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds 1..2 shards (changing over the restart or not), 1..3 stores, 2 documents with ids that spread in three ways, histories of 3 (thorough 4) operations: index with one of 2 (thorough 3) versions or remove, flushed in between in every way (always between an addition and a removal of one id); closed and restarted twice
//vsym:assume the store keeps what it is given (C15 decides that); two unflushed operations of different kind on one id are not considered
//vsym:reach end
func Restart() { restart(3+vsym.Tier(), -1, 2+vsym.Tier()) }

//vsym:harness prop=C22 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds as Restart, with a crash after 0..3 (thorough 4) writes to the stores instead of a clean end
//vsym:assume a write to the store either happens or not; changes whose flush returned before the crash are acknowledged
//vsym:reach end crash
func Crash() { restart(3+vsym.Tier(), vsym.Choice("crash", 4+vsym.Tier()), 2) }

//vsym:harness prop=C22 tier=quick,thorough time=120 ttime=700 sched=delay pre=1 root=1
//vsym:bounds 1..2 shards, 1..2 stores, two documents stored; one or two of: update, remove, add a third one, twice update; then the machine fails as soon as Flush, or Close, returns; every schedule with up to 1 (thorough 2) delays at channel, lock and counter operations and writes to the store
//vsym:assume the store keeps what it is given (C15 decides that); two unflushed operations of different kind on one id are not considered
//vsym:reach end
func FailAfterFlush() { failAfterFlush(1 + vsym.Tier()) }

//vsym:harness prop=C22 tier=quick,thorough time=120 ttime=700 sched=switch pre=1 root=1
//vsym:bounds as FailAfterFlush, every schedule with up to 1 (thorough 2) preemptions in favour of any goroutine
//vsym:assume as FailAfterFlush
//vsym:reach end
func FailAfterFlushPreempted() { failAfterFlush(1 + vsym.Tier()) }

func failAfterFlush(budget int) {
	vsym.Budget(0)
	d := &disk{files: map[string]map[string]string{}}
	d.restart()
	store.RegisterStore("disk", d.opener)
	shards, storeShards := 1+vsym.Choice("shards", 2), 1+vsym.Choice("storeShards", 2)
	ids := []string{"1", "2", "3"}
	e := boot(shards, storeShards, true)
	e.Index(ids[0], versions[0])
	e.Index(ids[1], versions[0])
	e.Flush()
	now := []int{0, 0, -1}
	d.turns = true
	vsym.Budget(budget)
	do := vsym.Choice("do", 5)
	if do < 2 || do == 4 { // update
		e.Index(ids[0], versions[1])
		now[0] = 1
	}
	if do == 1 || do == 2 {
		e.RemoveDoc(ids[1])
		now[1] = -1
	}
	if do == 2 || do == 3 {
		e.Index(ids[2], versions[1])
		now[2] = 1
	}
	if do == 4 {
		e.Index(ids[0], versions[2])
		now[0] = 2
	}
	if vsym.Bool("close") {
		e.Close()
	} else {
		e.Flush()
	}
	d.left = 0
	vsym.Budget(0)
	d.restart()
	e = boot(shards, storeShards, false)
	got := stored(e, ids)
	for i := range ids {
		vsym.Assert(got[i] == now[i], "an acknowledged change is lost, or done halfway")
	}
	e.Flush()
	check(e, ids, now, false)
	vsym.Reach("end")
}
