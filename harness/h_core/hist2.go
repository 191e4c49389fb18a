package h_core

import (
	"strconv"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// The batch is long enough that an unstable sort would reorder equal ids.
//
//vsym:harness prop=C01 tier=quick,thorough time=60
//vsym:bounds one cached batch of 14..16 additions of which three hold the same id at arbitrary positions, the others distinct ids in ascending or descending order; id already indexed or not
//vsym:reach end
func LongBatch() {
	n := 14 + vsym.Choice("len", 3)
	ix := newIndexer(vsym.Choice("indexType", 3), 100)
	desc := vsym.Bool("descending")
	indexed := vsym.Bool("indexedBefore")
	other := func(i int) string {
		if desc {
			return string(rune('z' - i))
		}
		return string(rune('b' + i))
	}
	dup := []string{"A", "k", "~"}[vsym.Choice("dup", 3)]
	p, q, r := vsym.Choice("p", n), vsym.Choice("q", n), vsym.Choice("r", n)
	vsym.Assume(p < q)
	vsym.Assume(q < r)
	if indexed {
		ix.AddDocToCache(doc(dup, 50), true)
	}
	var ops []op
	if indexed {
		ops = append(ops, op{kind: 0, id: dup, n: 50})
	}
	ids := map[string]int{}
	for i := 0; i < n; i++ {
		id := other(i)
		if i == p || i == q || i == r {
			id = dup
		}
		ix.AddDocToCache(doc(id, i), false)
		ids[id] = i
	}
	flushAll(ix)
	docs, num := ix.Lookup([]string{"x"}, nil, nil, false)
	vsym.Assert(num == len(ids) && len(docs) == len(ids), "number of searchable documents differs from the live set")
	docs, num = ix.Lookup([]string{"k" + strconv.Itoa(r)}, nil, nil, false)
	if ids[dup] == r {
		vsym.Assert(num == 1 && len(docs) == 1 && docs[0].DocId == dup, "the last of several cached versions is not the one indexed")
		docs, num = ix.Lookup([]string{"k" + strconv.Itoa(p)}, nil, nil, false)
		vsym.Assert(num == 0 && len(docs) == 0, "a superseded version is still found")
	}
	vsym.Observe("num", num)
	vsym.Reach("end")
}

// RemoveBatch removes an arbitrary subset in one or two batches and checks
// keyword lists that hold only some of the documents.
//
//vsym:harness prop=C01 tier=quick,thorough time=60
//vsym:bounds 5 documents (thorough 6), arbitrary membership in one keyword list, arbitrary removed subset, cache sizes 1,2,100, the three index types
//vsym:reach end some
func RemoveBatch() {
	n := 5
	if vsym.Tier() > 0 {
		n = 6
	}
	indexType := vsym.Choice("indexType", 3)
	ix := newIndexer(indexType, []int{1, 2, 100}[vsym.Choice("cache", 3)])
	ids := []string{"2", "10", "9", "1", "20", "100"}[:n]
	in := make([]bool, n)
	rm := make([]bool, n)
	for i, id := range ids {
		in[i] = vsym.Bool("in" + id)
		d := &types.DocIndex{DocId: id, TokenLen: 2}
		d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "x", Frequency: 1, Starts: []int{i}})
		if in[i] {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "y", Frequency: 1, Starts: []int{10 + i}})
		}
		ix.AddDocToCache(d, false)
	}
	ix.AddDocToCache(nil, true)
	for i, id := range ids {
		rm[i] = vsym.Bool("rm" + id)
		if rm[i] {
			ix.RemoveDocToCache(id, false)
		}
	}
	flushAll(ix)
	for k, key := range []string{"x", "y"} {
		docs, num := ix.Lookup([]string{key}, nil, nil, false)
		want := 0
		for i, id := range ids {
			p := find(docs, id)
			if !rm[i] && (k == 0 || in[i]) {
				want++
				vsym.Assert(p >= 0, "a live document is not found")
				if p >= 0 && indexType == types.LocsIndex {
					vsym.Assert(len(docs[p].TokenLocs) == 1 && len(docs[p].TokenLocs[0]) == 1 && docs[p].TokenLocs[0][0] == i+10*k,
						"positions belong to another document")
				}
				vsym.Reach("some")
			} else {
				vsym.Assert(p < 0, "a removed document or one without the key is found")
			}
			vsym.Assert(ix.HasDoc(id) == !rm[i], "HasDoc disagrees with the live set")
		}
		vsym.Assert(num == want && len(docs) == want, "number of results differs from the number of live documents holding the key")
		vsym.Observe("num", num)
	}
	vsym.Reach("end")
}

var _ core.Indexer
