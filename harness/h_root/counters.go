package h_root

import (
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// A tally is what the counters of an engine should say.
type tally struct{ docs, words, removed uint64 }

func (t *tally) add(d types.DocData) {
	t.docs++
	t.words += uint64(len(expected(d, false, 0, nil).pos))
}

func (t tally) check(e *riot.Engine) {
	vsym.Assert(e.NumIndexed() == t.docs, "the counter of documents is wrong")
	vsym.Assert(e.NumTokenAdded() == t.words, "the counter of keywords is wrong")
	vsym.Assert(e.NumRemoved() == t.removed, "the counter of removals is wrong")
	vsym.Assert(e.NumDocsIndexed() == t.docs && e.NumTokenIndexAdded() == t.words && e.NumDocsRemoved() == t.removed, "a counter differs from its old name")
}

//vsym:harness prop=C35 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds 1..2 (thorough 3) shards, with 2 stores or none (thorough also: 2 segmenter workers and a cache of 1 document); 2 documents, histories of 3 operations: index with a version of a token and a label (thorough two) that are arbitrary letters beside the words of the content, with another one, or remove, index or remove the reserved id; forced or not; flushed in between in every way (always between an addition and a removal of one id); with storage then closed and started again, and one more document
//vsym:reach end restarted reserved
func Counters() {
	o := options(1+vsym.Choice("shards", 2+vsym.Tier()), true)
	if vsym.Tier() > 0 && vsym.Bool("small") {
		o.NumGseThreads, o.IndexerOpts.DocCacheSize = 2, 1
	}
	word := func(name string) string {
		w := vsym.Str(name, 1, 1)
		vsym.Assume(w[0] >= 'a' && w[0] <= 'z')
		return w
	}
	free := types.DocData{Content: "x y", Tokens: []types.TokenData{{Text: word("token")}}, Labels: []string{word("label")}, Fields: float32(1)}
	if vsym.Tier() > 0 {
		free.Labels = append(free.Labels, word("label2"))
	}
	versions := []types.DocData{free, versions[2]}
	d := &disk{files: map[string]map[string]string{}}
	d.restart()
	stored := vsym.Bool("stored")
	if stored {
		store.RegisterStore("disk", d.opener)
		o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), 2, "disk"
	}
	e := start(o)
	ids := []string{"1", "2"}
	var t tally
	now := []int{-1, -1}
	last := []int{0, 0}
	for s := 0; s < 3; s++ {
		i := 0
		if s > 0 {
			i = vsym.Choice("doc", 2)
		}
		v := vsym.Choice("version", len(versions)+2)
		kind := 1
		if v == len(versions) {
			kind = 2
		}
		force := s == 1 && vsym.Bool("force")
		if v > len(versions) {
			vsym.Reach("reserved")
			if i == 0 {
				e.Index("0", versions[1], force)
			} else {
				e.RemoveDoc("0", force)
			}
			continue
		}
		if last[i] != 0 && (last[i] != kind || vsym.Bool("flush")) {
			e.Flush()
			t.check(e)
			last = []int{0, 0}
		}
		if kind == 1 {
			e.Index(ids[i], versions[v], force)
			t.add(versions[v])
			now[i] = v
		} else {
			e.RemoveDoc(ids[i], force)
			t.removed += uint64(o.NumShards)
			now[i] = -1
		}
		last[i] = kind
	}
	e.Flush()
	t.check(e)
	e.Flush()
	t.check(e)
	if stored {
		e.Close()
		d.restart()
		e = start(o)
		t = tally{}
		for _, v := range now {
			if v >= 0 {
				t.add(versions[v])
			}
		}
		vsym.Reach("restarted")
		e.Index(ids[1], versions[1])
		t.add(versions[1])
		e.Flush()
		t.check(e)
	}
	vsym.Reach("end")
}

//vsym:harness prop=C35 tier=quick,thorough time=120 ttime=700 sched=delay pre=1 race=1 root=1
//vsym:bounds an engine of 1..2 shards with one document, with storage or not; two clients at once, each one of: add a document, update one and force it, remove one; one of them reads the counters meanwhile; the content of the update two arbitrary letters a or spaces; every schedule with up to 1 (thorough 2) delays at channel, lock and counter operations, happens-before race detection
//vsym:reach end
func CountersMeanwhile() { countersMeanwhile(1 + vsym.Tier()) }

//vsym:harness prop=C35 tier=quick,thorough time=120 ttime=700 sched=switch pre=1 race=1 root=1
//vsym:bounds as CountersMeanwhile, every schedule with up to 1 (thorough 2) preemptions in favour of any goroutine
//vsym:reach end
func CountersPreempted() { countersMeanwhile(1 + vsym.Tier()) }

func countersMeanwhile(budget int) {
	vsym.Budget(0)
	o := options(1+vsym.Choice("shards", 2), true)
	o.NumGseThreads = 2
	if vsym.Bool("store") {
		d := &disk{files: map[string]map[string]string{}}
		d.restart()
		store.RegisterStore("disk", d.opener)
		o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), 1, "disk"
	}
	e := start(o)
	var t tally
	other := versions[3]
	other.Content = vsym.Str("content", 2, 2)
	for i := 0; i < len(other.Content); i++ {
		vsym.Assume(vsym.Or(other.Content[i] == 'a', other.Content[i] == ' '))
	}
	e.Index("1", versions[0])
	t.add(versions[0])
	e.Flush()
	t.check(e)
	before := t
	a, b := vsym.Choice("a", 3), vsym.Choice("b", 3)
	vsym.Assume(a <= b)
	do := func(k int, id string) {
		switch k {
		case 0:
			e.Index(id, versions[1])
		case 1:
			e.Index("1", other, true)
		case 2:
			e.RemoveDoc("9")
		}
	}
	for _, k := range []int{a, b} {
		switch k {
		case 0:
			t.add(versions[1])
		case 1:
			t.add(other)
		case 2:
			t.removed += uint64(o.NumShards)
		}
	}
	vsym.Budget(budget)
	done := make(chan bool, 1)
	go func() {
		do(a, "2")
		done <- true
	}()
	do(b, "3")
	was := before
	for i := 0; i < 2; i++ {
		now := tally{e.NumIndexed(), e.NumTokenAdded(), e.NumRemoved()}
		vsym.Assert(was.docs <= now.docs && was.words <= now.words && was.removed <= now.removed, "a counter falls")
		vsym.Assert(now.docs <= t.docs && now.words <= t.words && now.removed <= t.removed, "a counter is ahead of what was asked for")
		was = now
	}
	<-done
	e.Flush()
	vsym.Budget(0)
	t.check(e)
	vsym.Reach("end")
}
