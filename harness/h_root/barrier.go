package h_root

import (
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// keeper gives every document one score and keeps the fields it was asked to
// score.
type keeper struct {
	sync.Mutex
	fields map[string]int
}

func (k *keeper) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	k.Lock()
	defer k.Unlock()
	k.fields[doc.DocId] = fields.(int)
	return []float32{1}
}

// A barrier run holds documents with arbitrary fields for every version.
type barrier struct {
	e     *riot.Engine
	ids   []string
	field [4]int
	keep  *keeper
	now   []int // version of each document, -1 for none
	word  []string
}

func newBarrier(n int, stored bool) *barrier {
	o := options(1+vsym.Choice("shards", 2), true)
	o.NumGseThreads = 2
	ids := []string{"1", "2", "3"}
	if vsym.Tier() > 0 {
		o.IDOnly = vsym.Bool("idOnly")
		o.NumGseThreads = 1 + vsym.Choice("segmenters", 2)
		o.IndexerOpts.DocCacheSize = []int{100, 1}[vsym.Choice("cache", 2)]
		ids = docIDs(n)
	}
	k := &keeper{fields: map[string]int{}}
	o.DefRankOpts.ScoringCriteria = k
	if stored {
		d := &disk{files: map[string]map[string]string{}}
		d.restart()
		store.RegisterStore("disk", d.opener)
		o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), 1, "disk"
	}
	b := &barrier{e: start(o), ids: ids, word: []string{"x", "y"}, keep: k}
	for i := range b.field {
		b.field[i] = vsym.AnyInt("field")
	}
	for range b.ids {
		b.now = append(b.now, -1)
	}
	return b
}

// Version v of a document has the word x, and y if v is odd.
func (b *barrier) index(i, v int, force bool) {
	c := "x"
	if v%2 == 1 {
		c = "x y"
	}
	b.e.Index(b.ids[i], types.DocData{Content: c, Fields: b.field[v]}, force)
	b.now[i] = v
}

func (b *barrier) remove(i int, force bool) {
	b.e.RemoveDoc(b.ids[i], force)
	b.now[i] = -1
}

// visible checks the documents below n; others may be on their way.
func (b *barrier) visible(n int, count bool) {
	for k, w := range b.word {
		o := b.e.Search(types.SearchReq{Text: w})
		want := 0
		h := hits(o)
		for i, id := range b.ids[:n] {
			v := b.now[i]
			found := 0
			for _, x := range h {
				if x.id == id {
					found++
					vsym.Assert(v < 0 || b.keep.fields[id] == b.field[v], "after a flush a document is found with older data")
				}
			}
			if v >= 0 && (k == 0 || v%2 == 1) {
				want++
				vsym.Assert(found == 1, "after a flush a document added before is not found")
			} else {
				vsym.Assert(found == 0, "after a flush a document or version removed before is found")
			}
		}
		if count {
			vsym.Assert(len(h) == want && o.NumDocs == want, "after a flush the count is wrong")
		}
	}
	for i, id := range b.ids[:n] {
		vsym.Assert(b.e.HasDoc(id) == (b.now[i] >= 0), "after a flush HasDoc is wrong")
	}
}

//vsym:harness prop=C18 tier=quick,thorough time=120 ttime=500 sched=delay pre=1 root=1
//vsym:bounds one client; 1..2 shards, 2 segmenter workers, with storage or not (thorough also: 1 segmenter worker, cache size 1, id-only or full, ids that spread in three ways); two documents, then a flush, then update, remove or add, forced or not, then a flush; every schedule with up to 1 delay at channel, lock and counter operations; arbitrary fields
//vsym:reach end
func OneClient() { oneClient(1) }

//vsym:harness prop=C18 tier=thorough ttime=800 sched=switch pre=1 root=1
//vsym:bounds as OneClient, every schedule with up to 1 preemption in favour of any goroutine
//vsym:reach end
func OneClientPreempted() { oneClient(1) }

func oneClient(budget int) {
	b := newBarrier(3, vsym.Bool("store"))
	vsym.Budget(0)
	first := vsym.Bool("first")
	if first {
		vsym.Budget(budget)
	}
	b.index(0, 0, false)
	b.index(1, 1, first && vsym.Bool("force1"))
	b.e.FlushIndex()
	vsym.Budget(0)
	b.visible(3, true)
	if !first {
		vsym.Budget(budget)
		k := vsym.Choice("then", 4)
		force := vsym.Bool("force2")
		switch k {
		case 0:
			b.index(1, 2, force)
		case 1:
			b.remove(0, force)
		case 2:
			b.index(2, 3, force)
		case 3: // twice the same document
			b.index(1, 2, force)
			b.index(1, 3, false)
		}
		b.e.Flush()
		vsym.Budget(0)
		b.visible(3, true)
		vsym.Assert(b.e.NumDocsIndexed() >= 2, "the counter misses a document")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C18 tier=quick,thorough time=150 ttime=800 sched=switch pre=2 root=1
//vsym:bounds two clients, each with documents of its own; 1..2 shards, 2 segmenter workers (thorough also: 1, cache size 1, id-only or full, ids that spread in three ways), with storage or not; each adds or removes, one flushes and searches meanwhile; every schedule with up to 2 preemptions in favour of any goroutine at channel, lock and counter operations, a preempted goroutine staying behind the others; arbitrary fields
//vsym:reach end
func TwoClients() {
	twoClients(vsym.Choice("other", 2), vsym.Choice("mine", 2), 2)
}

//vsym:harness prop=C18 tier=thorough ttime=800 sched=delay pre=2 root=1
//vsym:bounds as TwoClients, every schedule with up to 2 delays
//vsym:reach end
func TwoClientsDelayed() {
	twoClients(vsym.Choice("other", 2), vsym.Choice("mine", 2), 2)
}

//vsym:harness prop=C18 tier=thorough ttime=800 sched=switch pre=3 root=1
//vsym:bounds as TwoClients with additions only, up to 3 preemptions
//vsym:reach end
func TwoClientsMore() { twoClients(0, 0, 3) }

func twoClients(other, mine, budget int) {
	vsym.Budget(0)
	b := newBarrier(3, other == 0 && vsym.Bool("store"))
	b.index(1, 1, false)
	b.e.Flush()
	vsym.Budget(budget)
	done := make(chan bool, 1)
	b.word = b.word[:1]
	go func() {
		if other == 0 {
			b.e.Index(b.ids[2], types.DocData{Content: "x", Fields: b.field[2]})
		} else {
			b.e.RemoveDoc(b.ids[2])
		}
		done <- true
	}()
	if mine == 0 {
		b.index(0, 0, false)
	} else {
		b.remove(1, false)
	}
	b.e.Flush()
	vsym.Budget(0)
	b.visible(2, false)
	<-done
	if other == 0 {
		b.now[2] = 2
	}
	b.e.Flush()
	b.visible(3, true)
	vsym.Reach("end")
}
