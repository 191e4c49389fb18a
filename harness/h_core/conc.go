package h_core

import (
	"strconv"
	"sync"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// world is an index holding documents 0 and 1, in versions 0 and 1; document 2
// is not indexed. The ids are arbitrary, and so are the positions of versions.
type world struct {
	ix  *core.Indexer
	ids [3]string
	loc [5]int
}

func prepared(indexType int) *world {
	caches := []int{1, 2, 100}
	w := &world{ix: newIndexer(indexType, caches[vsym.Choice("cache", len(caches))])}
	for i := range w.ids {
		w.ids[i] = symID("id")
	}
	vsym.Assume(w.ids[0] != w.ids[1] && w.ids[0] != w.ids[2] && w.ids[1] != w.ids[2])
	for i := range w.loc {
		w.loc[i] = vsym.AnyInt("loc")
	}
	w.ix.AddDocToCache(w.doc(0, 0), false)
	w.ix.AddDocToCache(w.doc(1, 1), true)
	return w
}

func (w *world) doc(i, n int) *types.DocIndex {
	d := doc(w.ids[i], n)
	d.Keywords[0].Starts = []int{w.loc[n]}
	return d
}

// act is one of the concurrent operations.
func (w *world) act(k, n int, force bool) {
	switch k {
	case 0:
		w.ix.AddDocToCache(w.doc(2, n), force)
	case 1:
		w.ix.AddDocToCache(w.doc(0, n), force)
	case 2:
		w.ix.RemoveDocToCache(w.ids[0], force)
	case 3:
		w.ix.RemoveDocToCache(w.ids[1], force)
	case 4:
		w.ix.AddDocToCache(nil, true)
	}
}

// compatible excludes an addition and a removal of one id without a flush
// between them.
func compatible(a, b int) bool { return !(a == 1 && b == 2 || a == 2 && b == 1) }

// seen checks what a search returned while the operations were running.
func (w *world) seen(docs []types.IndexedDoc, num int, acts []int) {
	vsym.Assert(num == len(docs), "the count differs from the documents found")
	has := func(k int) bool {
		for _, a := range acts {
			if a == k {
				return true
			}
		}
		return false
	}
	var n [3]int
	for i, id := range w.ids {
		for _, d := range docs {
			if d.DocId == id {
				n[i]++
				// positions are those of a version it had
				l := d.TokenLocs[0][0]
				ok := i < 2 && l == w.loc[i]
				for v := 2; v < 5; v++ {
					ok = vsym.Or(ok, vsym.And(i != 1, l == w.loc[v]))
				}
				vsym.Assert(ok, "a search returns positions the document never had")
			}
		}
	}
	vsym.Assert(n[0] <= 1 && n[1] <= 1 && n[2] <= 1 && n[0]+n[1]+n[2] == len(docs), "a search finds a document twice, or an unknown one")
	vsym.Assert(n[2] == 0 || has(0), "a search finds a document never added")
	vsym.Assert(n[0] == 1 || has(1) || has(2), "a search misses a document present all the time")
	vsym.Assert(n[1] == 1 || has(3), "a search misses a document present all the time")
}

// result checks the flushed index against the operations done.
func (w *world) result(acts []int, ns []int) {
	flushAll(w.ix)
	want := [3][]int{{0}, {1}, nil}
	for i, a := range acts {
		switch a {
		case 0:
			want[2] = append(want[2], ns[i])
		case 1:
			if len(want[0]) == 1 && want[0][0] == 0 {
				want[0] = nil
			}
			want[0] = append(want[0], ns[i])
		case 2:
			want[0] = nil
		case 3:
			want[1] = nil
		}
	}
	docs, num := w.ix.Lookup([]string{"x"}, nil, nil, false)
	vsym.Assert(num == len(docs), "the count differs from the documents found")
	total := 0
	for i, id := range w.ids {
		k := find(docs, id)
		vsym.Assert((k >= 0) == (len(want[i]) > 0), "an update is lost")
		vsym.Assert(w.ix.HasDoc(id) == (len(want[i]) > 0), "HasDoc does not tell the documents")
		if k < 0 {
			continue
		}
		total++
		found := -1
		for n := 0; n < 5; n++ {
			d, _ := w.ix.Lookup([]string{"k" + strconv.Itoa(n)}, nil, nil, false)
			if find(d, id) >= 0 {
				vsym.Assert(found < 0, "two versions of a document are indexed")
				found = n
			}
		}
		ok := false
		for _, n := range want[i] {
			ok = ok || n == found
		}
		vsym.Assert(ok, "the version of a document is none that was added last")
		vsym.Assert(len(docs[k].TokenLocs) == 1 && len(docs[k].TokenLocs[0]) == 1 && docs[k].TokenLocs[0][0] == w.loc[found], "positions of another version")
	}
	vsym.Assert(total == num, "the index holds more than the documents")
}

//vsym:harness prop=C07 tier=quick,thorough time=100 ttime=800 sched=delay pre=2
//vsym:bounds an index holding two documents, arbitrary one-byte ids, arbitrary positions; two concurrent writers, each one (thorough: the first two) of: add a new document, update one, remove one, remove the other, flush; forced or not; a concurrent search; cache sizes 1,2,100; every schedule with up to 2 delays at lock operations
//vsym:assume an addition and a removal of one id do not run concurrently without a flush between them (documented)
//vsym:reach end during
func Writers() {
	w := prepared(types.LocsIndex)
	acts, ns := []int{vsym.Choice("a", 5), vsym.Choice("b", 5)}, []int{2, 3}
	vsym.Assume(compatible(acts[0], acts[1]))
	force := []bool{vsym.Bool("fa"), vsym.Bool("fb")}
	if vsym.Tier() > 0 && vsym.Bool("more") {
		c := vsym.Choice("c", 5)
		vsym.Assume(compatible(acts[0], c) && compatible(acts[1], c))
		acts, ns, force = append(acts, c), append(ns, 4), append(force, vsym.Bool("fc"))
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		w.act(acts[0], ns[0], force[0])
		if len(acts) > 2 {
			w.act(acts[2], ns[2], force[2])
		}
	}()
	go func() {
		defer wg.Done()
		w.act(acts[1], ns[1], force[1])
	}()
	docs, num := w.ix.Lookup([]string{"x"}, nil, nil, false)
	w.seen(docs, num, acts)
	if len(docs) != 2 {
		vsym.Reach("during")
	}
	wg.Wait()
	w.result(acts, ns)
	vsym.Reach("end")
}

// Two updates wait in the cache; a flush beside another operation puts them in.
//
//vsym:harness prop=C07 tier=quick,thorough time=60 ttime=500 sched=delay pre=2
//vsym:bounds an index of two documents whose updates wait in the cache (100 documents, or 3), arbitrary ids and positions; a flush or a forced addition of a third, beside one of: a forced removal of the reserved id, of another one not there, of the second document, a flush, an addition forced or not; what the flush covers is looked up as soon as it returns; every schedule with up to 2 (thorough 3) delays at lock operations
//vsym:assume an addition and a removal of one id do not run concurrently without a flush between them (documented)
//vsym:reach end
func FlushReturns() {
	vsym.Budget(2 + vsym.Tier())
	w := &world{ix: newIndexer(types.LocsIndex, []int{100, 3}[vsym.Choice("cache", 2)])}
	for i := range w.ids {
		w.ids[i] = symID("id")
	}
	vsym.Assume(w.ids[0] != w.ids[1] && w.ids[0] != w.ids[2] && w.ids[1] != w.ids[2])
	for i := range w.loc {
		w.loc[i] = vsym.AnyInt("loc")
	}
	w.ix.AddDocToCache(w.doc(0, 0), false)
	w.ix.AddDocToCache(w.doc(1, 1), true)
	b := vsym.Choice("b", 6)
	w.ix.AddDocToCache(w.doc(0, 2), false)
	if b != 2 {
		w.ix.AddDocToCache(w.doc(1, 3), false)
	}
	third := vsym.Bool("third")
	vsym.Assume(!third || b < 4)
	done := make(chan bool, 1)
	go func() {
		switch b {
		case 0:
			w.ix.RemoveDocToCache("0", true)
		case 1:
			w.ix.RemoveDocToCache("other", true)
		case 2:
			w.ix.RemoveDocToCache(w.ids[1], true)
		case 3:
			w.ix.AddDocToCache(nil, true)
		case 4, 5:
			w.ix.AddDocToCache(w.doc(2, 4), b == 5)
		}
		done <- true
	}()
	in := func(i, n int) bool {
		docs, _ := w.ix.Lookup([]string{"k" + strconv.Itoa(n)}, nil, nil, false)
		return find(docs, w.ids[i]) >= 0
	}
	if third {
		w.act(0, 4, true)
		vsym.Assert(in(2, 4) && w.ix.HasDoc(w.ids[2]), "a forced addition is not in the index when it returns")
	} else {
		w.act(4, 0, true)
	}
	vsym.Assert(in(0, 2) && !in(0, 0) && w.ix.HasDoc(w.ids[0]), "an update is not in the index when a flush returns")
	vsym.Assert(b == 2 || in(1, 3) && !in(1, 1) && w.ix.HasDoc(w.ids[1]), "an update is not in the index when a flush returns")
	<-done
	switch {
	case b == 2 && third:
		w.result([]int{1, 3, 0}, []int{2, 0, 4})
	case b == 2:
		w.result([]int{1, 3}, []int{2, 0})
	default:
		flushAll(w.ix)
		vsym.Assert(in(0, 2) && in(1, 3) && in(2, 4) == (third || b > 3), "an update is lost")
	}
	vsym.Reach("end")
}

// Index and ranker as the engine drives them: one worker for each kind of
// operation, searches beside.
//
//vsym:harness prop=C07 tier=quick,thorough time=60 ttime=500 sched=delay pre=2
//vsym:bounds a ranker holding two documents; concurrently one added or updated, one removed, and a ranked search in the id-only or full form; every schedule with up to 2 delays
//vsym:reach end
func RankWhile() {
	idOnly := vsym.Bool("idOnly")
	r := &core.Ranker{}
	r.Init(idOnly)
	add := func(id string, score float32) { r.AddDoc(id, score, "c"+id, score) }
	var was [2]float32
	for i := range was {
		was[i] = vsym.F32("was")
		vsym.Assume(was[i] == was[i])
	}
	now := vsym.F32("now")
	vsym.Assume(now == now)
	add("1", was[0])
	add("2", was[1])
	upd, rem := []string{"2", "3"}[vsym.Choice("upd", 2)], []string{"1", "2"}[vsym.Choice("rem", 2)]
	vsym.Assume(upd != rem)
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); add(upd, now) }()
	go func() { defer wg.Done(); r.RemoveDoc(rem) }()
	docs := []types.IndexedDoc{{DocId: "1"}, {DocId: "2"}, {DocId: "3"}}
	check := func(end bool) {
		out, num := r.Rank(docs, types.RankOpts{ScoringCriteria: byField{}}, false)
		n := map[string]int{}
		one := func(id string, score float32) {
			n[id]++
			if id == upd {
				vsym.Assert(score == now || !end && id != "3" && score == was[1], "a document is scored with data it never had")
			} else {
				vsym.Assert(id != "3" && score == was[id[0]-'1'], "a document is scored with data of another")
			}
			vsym.Assert(!(end && id == rem), "a removed document is ranked")
		}
		if idOnly {
			ids := out.(types.ScoredIDs)
			vsym.Assert(len(ids) == num, "count")
			for _, d := range ids {
				one(d.DocId, d.Scores[0])
			}
		} else {
			ds := out.(types.ScoredDocs)
			vsym.Assert(len(ds) == num, "count")
			for _, d := range ds {
				one(d.DocId, d.Scores[0])
				vsym.Assert(d.Content == "c"+d.DocId && d.Attri == d.Scores[0], "content, attribute and score of a document are of different versions")
			}
		}
		for _, id := range []string{"1", "2"} {
			vsym.Assert(n[id] <= 1 && (n[id] == 1 || id == rem), "a document is lost, or ranked twice")
		}
		vsym.Assert(!end || n[upd] == 1, "an addition is lost")
	}
	check(false)
	wg.Wait()
	check(true)
	vsym.Reach("end")
}

type byField struct{}

func (byField) Score(d types.IndexedDoc, fields interface{}) []float32 {
	return []float32{fields.(float32)}
}

//vsym:harness prop=C08 tier=quick,thorough time=100 ttime=600 sched=delay pre=1 race=1 only=race
//vsym:bounds an index holding two documents, cache sizes 1,2,100, the three index types; two concurrent operations among: add, update, remove, flush (forced or not), search, logic search, HasDoc; every schedule with up to 1 delay (thorough 2), happens-before race detection on every memory access
//vsym:reach end
func IndexRaces() {
	vsym.Budget(1 + vsym.Tier())
	w := prepared(vsym.Choice("indexType", 3))
	ix := w.ix
	do := func(name string, n int) func() {
		k := vsym.Choice(name, 8)
		if k < 5 {
			f := k == 4 || vsym.Bool("force")
			return func() { w.act(k, n, f) }
		}
		return func() {
			switch k {
			case 5:
				docs, _ := ix.Lookup([]string{"x", "k1"}, nil, nil, false)
				for i := range docs {
					_ = ints(docs[i])
				}
			case 6:
				docs, _ := ix.Lookup([]string{"x"}, nil, map[string]bool{w.ids[0]: true}, false, types.Logic{Should: true, Expr: types.Expr{Should: []string{"x", "k0"}}})
				for i := range docs {
					_ = ints(docs[i])
				}
			case 7:
				ix.HasDoc(w.ids[0])
			}
		}
	}
	a, b := do("a", 2), do("b", 3)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		a()
	}()
	b()
	wg.Wait()
	vsym.Reach("end")
}

// ints reads everything a found document refers to.
func ints(d types.IndexedDoc) int {
	n := int(d.BM25) + int(d.TokenProximity) + len(d.DocId)
	for _, l := range d.TokenLocs {
		for _, x := range l {
			n += x
		}
	}
	for _, x := range d.TokenSnippetLocs {
		n += x
	}
	return n
}

//vsym:harness prop=C08 tier=quick,thorough time=60 ttime=300 sched=delay pre=1 race=1 only=race
//vsym:bounds a ranker holding two documents, id-only or full; two concurrent operations among: add, update, remove, rank, count; every schedule with up to 1 delay (thorough 2), happens-before race detection
//vsym:reach end
func RankRaces() {
	vsym.Budget(1 + vsym.Tier())
	r := &core.Ranker{}
	r.Init(vsym.Bool("idOnly"))
	r.AddDoc("1", float32(1), "c", 1)
	r.AddDoc("2", float32(2), "d", 2)
	docs := []types.IndexedDoc{{DocId: "1"}, {DocId: "2"}, {DocId: "3"}}
	do := func(k int) {
		switch k {
		case 0:
			r.AddDoc("3", float32(3), "e", 3)
		case 1:
			r.AddDoc("1", float32(4), "f", 4)
		case 2:
			r.RemoveDoc("1")
		case 3, 4:
			out, _ := r.Rank(append([]types.IndexedDoc(nil), docs...), types.RankOpts{ScoringCriteria: byField{}, ReverseOrder: true, MaxOutputs: 2}, k == 4)
			switch o := out.(type) {
			case types.ScoredIDs:
				for i := range o {
					_ = o[i].Scores[0]
				}
			case types.ScoredDocs:
				for i := range o {
					_ = o[i].Content
				}
			}
		}
	}
	a, b := vsym.Choice("a", 5), vsym.Choice("b", 5)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		do(a)
	}()
	do(b)
	wg.Wait()
	vsym.Reach("end")
}
