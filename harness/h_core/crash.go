package h_core

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// strList is a list of 0..max arbitrary keys, empty and repeated ones included.
func strList(name string, max int) []string {
	n := vsym.Choice(name+"_n", max+2) - 1
	if n < 0 {
		return nil
	}
	r := make([]string, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, vsym.Str(name, 0, 1))
	}
	return r
}

func anyLogic(n int) types.Logic {
	var l types.Logic
	f := vsym.Choice("flags", 8)
	l.Must, l.Should, l.NotIn = f&1 != 0, f&2 != 0, f&4 != 0
	l.Expr.Must = strList("must", n)
	l.Expr.Should = strList("should", n)
	l.Expr.NotIn = strList("notin", n)
	return l
}

// somePositions indexes a token with locations, without, or with an empty list.
func somePositions(k int) []int {
	switch vsym.Choice("positions", 3) {
	case 0:
		return nil
	case 1:
		return []int{k}
	}
	return []int{k, k + 5}
}

func smallIndex() *core.Indexer {
	o := types.IndexerOpts{IndexType: vsym.Choice("indexType", 3), DocCacheSize: 100}
	if vsym.Bool("bm25") {
		o.BM25Parameters = &types.BM25Parameters{K1: 2, B: 0.75}
	}
	ix := &core.Indexer{}
	ix.Init(o)
	return ix
}

func sane(docs []types.IndexedDoc, n int, count int) {
	vsym.Assert(len(docs) == n, "the count differs from the documents returned")
	vsym.Assert(count == n, "a count-only query disagrees with the full query")
	vsym.Observe("n", n)
}

// Any token and label query on an index in any state.
//
//vsym:harness prop=C23 tier=quick,thorough time=90 ttime=500
//vsym:bounds an index of 0..2 documents, each with one or two keys (one, thorough each, of 0..1 arbitrary bytes) and 0..2 positions, the last possibly removed (pending or flushed); queries of 0..2 tokens and 0..1 labels of 0..1 arbitrary bytes, nil or empty lists, nil, empty, unknown or known document restriction; the three index types, with and without BM25 parameters
//vsym:reach end found none
func AnyQuery() {
	ix := smallIndex()
	n := vsym.Choice("docs", 3)
	ids := []string{"a", ""}
	for i := 0; i < n; i++ {
		d := &types.DocIndex{DocId: ids[i], TokenLen: float32(i)}
		d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "b", Frequency: 1, Starts: somePositions(1)})
		if i == 0 || vsym.Tier() > 0 {
			d.Keywords[0].Text = vsym.Str("key", 0, 1)
		}
		if i == 0 {
			d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "b", Starts: []int{3}})
			vsym.Assume(d.Keywords[0].Text != "b")
		}
		ix.AddDocToCache(d, i == n-1)
	}
	if n > 0 {
		if w := vsym.Choice("remove", 3); w > 0 {
			ix.RemoveDocToCache(ids[n-1], w == 2)
		}
	}
	tokens := strList("token", 2)
	labels := strList("label", 1)
	allow := []map[string]bool{nil, {}, {"a": true, "zz": true}}[vsym.Choice("allow", 3)]
	docs, k := ix.Lookup(tokens, labels, allow, false)
	_, c := ix.Lookup(tokens, labels, allow, true)
	sane(docs, k, c)
	if k > 0 {
		vsym.Reach("found")
	} else {
		vsym.Reach("none")
	}
	vsym.Reach("end")
}

// Any logical query.
//
//vsym:harness prop=C23 tier=quick,thorough time=90 ttime=500
//vsym:bounds an index of two documents with arbitrary memberships in two key lists, the second possibly removed (pending or flushed), or empty; every combination of the three switches, nil, empty or one-key (thorough two-key) expression lists of arbitrary 0..1-byte keys, queries of 0..1 keys, nil, empty or known document restriction
//vsym:reach end found none
func AnyLogic() {
	ix := newIndexer(types.LocsIndex, 100)
	if vsym.Bool("docs") {
		for i, id := range []string{"a", "b"} {
			d := &types.DocIndex{DocId: id, TokenLen: 1, Keywords: []types.KeywordIndex{{Text: "", Starts: []int{i}}}}
			if i == 0 {
				d.Keywords = append(d.Keywords, types.KeywordIndex{Text: "x", Starts: []int{i}})
			} else {
				d.Keywords[0].Text = "x"
			}
			ix.AddDocToCache(d, i == 1)
		}
		if w := vsym.Choice("remove", 3); w > 0 {
			ix.RemoveDocToCache("b", w == 2)
		}
	}
	l := anyLogic(1 + vsym.Tier())
	q := strList("q", 1)
	allow := []map[string]bool{nil, {}, {"a": true}}[vsym.Choice("allow", 3)]
	docs, k := ix.Lookup(q, nil, allow, false, l)
	_, c := ix.Lookup(q, nil, allow, true, l)
	sane(docs, k, c)
	if k > 0 {
		vsym.Reach("found")
	} else {
		vsym.Reach("none")
	}
	vsym.Reach("end")
}

// Queries between the steps of a history.
//
//vsym:harness prop=C23 tier=quick,thorough time=90 ttime=500
//vsym:bounds histories of 4 (thorough 5) additions (of two versions with different keys, or none), removals and flushes of two ids, cache sizes 1, 2 and 100, the three index types; after each step a query of two tokens and a label, a label alone, an unknown key, a must, a should and a not-in query
//vsym:reach end found
func QueriesInHistory() {
	ix := newIndexer(vsym.Choice("indexType", 3), []int{1, 2, 100}[vsym.Choice("cache", 3)])
	n := 4 + vsym.Tier()
	for i := 0; i < n; i++ {
		id := []string{"a", "b"}[vsym.Choice("id", 2)]
		switch vsym.Choice("op", 5) {
		case 0:
			ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: 2, Keywords: []types.KeywordIndex{
				{Text: "x", Frequency: 1, Starts: []int{0}}, {Text: "y", Frequency: 1, Starts: []int{2}}, {Text: "l"}}}, false)
		case 1:
			ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: 1, Keywords: []types.KeywordIndex{
				{Text: "y", Frequency: 1, Starts: []int{0, 7}}}}, false)
		case 2:
			ix.AddDocToCache(&types.DocIndex{DocId: id}, false)
		case 3:
			ix.RemoveDocToCache(id, false)
		case 4:
			if id == "b" {
				vsym.Assume(false)
			}
			flushAll(ix)
		}
	}
	queries(ix)
	vsym.Reach("end")
}

func queries(ix *core.Indexer) {
	one := func(tokens, labels []string, l ...types.Logic) {
		docs, k := ix.Lookup(tokens, labels, nil, false, l...)
		_, c := ix.Lookup(tokens, labels, nil, true, l...)
		sane(docs, k, c)
		if k > 0 {
			vsym.Reach("found")
		}
	}
	one([]string{"x", "y"}, []string{"l"})
	one([]string{"y", "x"}, nil)
	one(nil, []string{"l"})
	one([]string{"none", "x"}, nil)
	one([]string{"x", "y"}, nil, types.Logic{Must: true})
	one([]string{"x", "none"}, nil, types.Logic{Should: true})
	one([]string{"x"}, nil, types.Logic{NotIn: true})
	one([]string{"y"}, nil, types.Logic{Should: true, Expr: types.Expr{NotIn: []string{"x"}}})
}
