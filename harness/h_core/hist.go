// Package h_core drives the in-memory index and ranker through their exported
// API with symbolic histories, documents and queries.
package h_core

import (
	"strconv"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

type op struct {
	kind int // 0 add, 1 remove, 2 forced flush
	id   string
	n    int // position in the history, distinguishes document versions
}

func newIndexer(indexType, cache int) *core.Indexer {
	ix := &core.Indexer{}
	ix.Init(types.IndexerOpts{IndexType: indexType, DocCacheSize: cache})
	return ix
}

// doc builds version n of a document: every version carries the shared key
// "x" and a key of its own.
func doc(id string, n int) *types.DocIndex {
	return &types.DocIndex{
		DocId:    id,
		TokenLen: float32(n + 1),
		Keywords: []types.KeywordIndex{
			{Text: "x", Frequency: float32(n + 1), Starts: []int{n}},
			{Text: "k" + strconv.Itoa(n), Frequency: 1, Starts: []int{n + 100}},
		},
	}
}

func flushAll(ix *core.Indexer) {
	ix.AddDocToCache(nil, true)
	ix.RemoveDocToCache("0", true)
}

// symID is an arbitrary one-byte document id; "0" is reserved by the API.
func symID(name string) string {
	s := vsym.Str(name, 1, 1)
	vsym.Assume(s != "0")
	return s
}

func find(docs []types.IndexedDoc, id string) int {
	for i := range docs {
		if docs[i].DocId == id {
			return i
		}
	}
	return -1
}

// history runs n symbolic operations. A removal is only issued when no
// addition of the same id is waiting for a flush (documented restriction).
func history(ix *core.Indexer, n int) []op {
	var ops []op
	for i := 0; i < n; i++ {
		o := op{kind: vsym.Choice("op", 3), n: i}
		switch o.kind {
		case 0:
			o.id = symID("id")
			ix.AddDocToCache(doc(o.id, i), false)
		case 1:
			o.id = symID("id")
			for j := i - 1; j >= 0 && ops[j].kind != 2; j-- {
				if ops[j].kind == 0 {
					vsym.Assume(ops[j].id != o.id)
				}
			}
			ix.RemoveDocToCache(o.id, false)
		case 2:
			if i == 0 || ops[i-1].kind == 2 {
				vsym.Assume(false)
			}
			ix.AddDocToCache(nil, true)
		}
		ops = append(ops, o)
	}
	return ops
}

// live returns the index of the operation that last wrote each live id.
func live(ops []op) []int {
	var r []int
	for i := range ops {
		if ops[i].kind != 0 {
			continue
		}
		last := true
		for j := i + 1; j < len(ops); j++ {
			if ops[j].kind != 2 && ops[j].id == ops[i].id {
				last = false
				break
			}
		}
		if last {
			r = append(r, i)
		}
	}
	return r
}

//vsym:harness prop=C01 tier=quick,thorough time=90
//vsym:bounds histories of 5 operations (thorough 7, as far as the time goes) over add / remove / forced flush, arbitrary one-byte ids, cache sizes 1,2,3,100, the three index types
//vsym:assume a removal is not issued while an addition of the same id waits for a flush (documented); id "0" is reserved
//vsym:reach end nonempty
func History() {
	n := 5
	if vsym.Tier() > 0 {
		n = 7
	}
	caches := []int{1, 2, 3, 100}
	indexType := vsym.Choice("indexType", 3)
	ix := newIndexer(indexType, caches[vsym.Choice("cache", len(caches))])
	ops := history(ix, n)
	flushAll(ix)
	checkLive(ix, ops, indexType)
	vsym.Reach("end")
}

func checkLive(ix *core.Indexer, ops []op, indexType int) {
	lv := live(ops)
	docs, num := ix.Lookup([]string{"x"}, nil, nil, false)
	vsym.Observe("num", num)
	vsym.Assert(num == len(docs), "reported count differs from the number of returned documents")
	vsym.Assert(num == len(lv), "number of searchable documents differs from the live set")
	for _, i := range lv {
		k := find(docs, ops[i].id)
		vsym.Assert(k >= 0, "a live document is not found")
		if k < 0 {
			return
		}
		if indexType == types.LocsIndex {
			vsym.Assert(len(docs[k].TokenLocs) == 1 && len(docs[k].TokenLocs[0]) == 1 && docs[k].TokenLocs[0][0] == i,
				"a search returns positions of an older version of the document")
		}
		vsym.Reach("nonempty")
	}
	for i := range ops {
		if ops[i].kind != 0 {
			continue
		}
		isLive := false
		for _, j := range lv {
			if i == j {
				isLive = true
			}
		}
		docs, num := ix.Lookup([]string{"k" + strconv.Itoa(i)}, nil, nil, false)
		if isLive {
			vsym.Assert(num == 1 && len(docs) == 1 && docs[0].DocId == ops[i].id, "the latest version of a document is not found by its own key")
			vsym.Assert(ix.HasDoc(ops[i].id), "HasDoc denies a live document")
		} else {
			vsym.Assert(num == 0 && len(docs) == 0, "a superseded or removed version is still found")
		}
	}
	for i := range ops {
		if ops[i].kind != 1 {
			continue
		}
		readded := false
		for j := i + 1; j < len(ops); j++ {
			if ops[j].kind == 0 && ops[j].id == ops[i].id {
				readded = true
				break
			}
		}
		if !readded {
			vsym.Assert(!ix.HasDoc(ops[i].id), "HasDoc confirms a removed document")
		}
	}
}
