package h_root

import (
	"strconv"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

func small(shards int, stored bool) types.EngineOpts {
	o := options(shards, false)
	o.IndexerBufLen, o.RankerBufLen = 1, 1
	if stored {
		d := &disk{files: map[string]map[string]string{}}
		d.restart()
		store.RegisterStore("disk", d.opener)
		o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), 2, "disk"
	}
	return o
}

// ask searches meanwhile, whatever is found.
func ask(e *riot.Engine, times int, over chan bool) {
	for i := 0; i < times; i++ {
		r := e.Search(types.SearchReq{Text: "x", Orderless: i%2 == 1, Timeout: i % 3 * 100000})
		vsym.Assert(!r.Timeout, "a search times out although none takes time")
		vsym.Assert(len(hits(r)) == r.NumDocs, "the count differs from the results")
	}
	over <- true
}

// More work than fits anywhere.
//
//vsym:harness prop=C39 tier=quick,thorough time=120 ttime=600 root=1
//vsym:bounds 1..3 shards, buffers of 1 (the shards') or 1..2 (the indexers'), 1..2 workers of each kind, caches of 1..3 documents, with 2 stores or none; 6 (thorough 8) documents added in one go, every third, every one or none forced, replaced in one go while another client searches three times, flushed, half of them removed in one go, flushed; arbitrary scores
//vsym:assume the store keeps what it is given (C15 decides that)
//vsym:reach end
func Load() {
	o := small(1+vsym.Choice("shards", 3), vsym.Bool("stored"))
	o.IndexerBufLen += vsym.Choice("buffer", 2)
	o.NumGseThreads += vsym.Choice("segmenters", 2)
	more := vsym.Choice("workers", 2)
	o.NumIndexerThreads += more
	o.NumRankerThreads += more
	o.IndexerOpts.DocCacheSize = 1 + vsym.Choice("cache", 3)
	e := start(o)
	n := 6 + 2*vsym.Tier()
	every := []int{1, 3, 100}[vsym.Choice("forced", 3)]
	var ids []string
	for i := 0; i < n; i++ {
		ids = append(ids, strconv.Itoa(i+1))
		e.Index(ids[i], types.DocData{Content: "x old", Fields: float32(0)}, i%every == every-1)
	}
	over := make(chan bool, 1)
	go ask(e, 3, over)
	score := vsym.F32("score")
	vsym.Assume(score == score)
	for i, id := range ids {
		d := types.DocData{Content: "x new " + id, Fields: float32(i), Labels: []string{"l"}}
		if i == 1 {
			d.Fields = score
		}
		e.Index(id, d, i%every == 0)
	}
	e.Flush()
	full(e, ids, score)
	for i, id := range ids {
		if i%2 == 0 {
			e.RemoveDoc(id, i%every == 0)
		}
	}
	e.Flush()
	var left []string
	for i, id := range ids {
		if i%2 == 1 {
			left = append(left, id)
		}
	}
	<-over
	full(e, left, score)
	if o.UseStore {
		kept := e.GetDBAllIds()
		vsym.Assert(len(kept) == len(left), "the stores hold another number of documents")
		for _, id := range left {
			vsym.Assert(index(kept, id) >= 0, "a document is not stored")
		}
		e.Close()
	}
	vsym.Reach("end")
}

// full says that exactly these documents are found, as last indexed.
func full(e *riot.Engine, ids []string, score float32) {
	r := e.Search(types.SearchReq{Text: "x", Labels: []string{"l"}})
	h := hits(r)
	vsym.Assert(len(h) == len(ids) && r.NumDocs == len(ids), "the number of documents found is not that of those there")
	for _, x := range h {
		i := index(ids, x.id)
		vsym.Assert(i >= 0 && x.content == "x new "+x.id, "a document is found that is not there, or an old version")
		k, _ := strconv.Atoi(x.id)
		if k == 2 {
			vsym.Assert(len(x.score) == 1 && x.score[0] == score, "a document is scored with data of another")
		} else {
			vsym.Assert(len(x.score) == 1 && x.score[0] == float32(k-1), "a document is scored with data of another")
		}
	}
	for i := range h {
		for j := 0; j < i; j++ {
			vsym.Assert(h[i].id != h[j].id, "a document is found twice")
		}
	}
	vsym.Assert(e.Search(types.SearchReq{Text: "old", CountDocsOnly: true}).NumDocs == 0, "an old version is found")
	for _, id := range ids {
		vsym.Assert(e.HasDoc(id), "a document found is not indexed")
	}
}

// The same with the workers in any order.
//
//vsym:harness prop=C39 tier=quick,thorough time=100 ttime=600 root=1 sched=delay pre=1
//vsym:bounds 1..2 shards, buffers of 1, 2 segmenter workers, a cache of 1 or 2, with stores or not; 2 (thorough 3) documents added and replaced in one go, forced or not, by one client while another searches; every schedule with up to 1 (thorough 2) delays
//vsym:assume the store keeps what it is given (C15 decides that)
//vsym:reach end
func LoadDelayed() {
	o := small(1+vsym.Choice("shards", 2), vsym.Bool("stored"))
	o.NumGseThreads = 2
	o.IndexerOpts.DocCacheSize = 1 + vsym.Choice("cache", 2)
	e := start(o)
	ids := []string{"1", "2", "3"}[:2+vsym.Tier()]
	force := vsym.Bool("force")
	over := make(chan bool, 1)
	vsym.Budget(1 + vsym.Tier())
	go ask(e, 1, over)
	for _, id := range ids {
		e.Index(id, types.DocData{Content: "x old", Fields: float32(0)}, force)
	}
	for i, id := range ids {
		e.Index(id, types.DocData{Content: "x new " + id, Fields: float32(i), Labels: []string{"l"}}, i == 1)
	}
	<-over
	e.Flush()
	vsym.Budget(0)
	full(e, ids, 1)
	vsym.Reach("end")
}
