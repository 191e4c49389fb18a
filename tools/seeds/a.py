CORE = '''package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func kw(t string, f float32, starts ...int) types.KeywordIndex {
	return types.KeywordIndex{Text: t, Frequency: f, Starts: starts}
}

func index(kind, cache int) *Indexer {
	ix := &Indexer{}
	ix.Init(types.IndexerOpts{IndexType: kind, DocCacheSize: cache, BM25Parameters: &types.BM25Parameters{K1: 1, B: 1}})
	return ix
}

func add(ix *Indexer, id string, n float32, kws ...types.KeywordIndex) {
	ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: n, Keywords: kws}, false)
}

func flush(ix *Indexer) {
	ix.AddDocToCache(nil, true)
	ix.RemoveDocToCache("0", true)
}

func ids(d []types.IndexedDoc) (r string) {
	for _, x := range d {
		r += x.DocId + " "
	}
	return
}
'''
SEEDS = [
dict(id="C02-restrict", property="C02", pkg="core",
 edits=[("core/indexer.go", "			if _, found := docIds[baseDocId]; !found {\n				continue\n			}\n		}\n\n		iTable := 1", "			if _, found := docIds[baseDocId]; !found {\n				if len(table) > 1 && indexPointers[1] > indexPointers[0] {\n					indexPointers[1] = indexPointers[0]\n				}\n				continue\n			}\n		}\n\n		iTable := 1")],
 needs="a restriction that leaves out a document while the second posting list is longer than the first",
 breaks="the cursor of the second list jumps, so an allowed document is lost",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("y", 1))
	add(ix, "b", 1, kw("y", 1))
	add(ix, "c", 1, kw("x", 1), kw("y", 1))
	add(ix, "d", 1, kw("x", 1), kw("y", 1))
	flush(ix)
	d, _ := ix.Lookup([]string{"x", "y"}, nil, map[string]bool{"c": true}, false)
	if got := ids(d); got != "c " {
		t.Fatal(got)
	}
}
'''),
dict(id="C05-total", property="C05", pkg="core",
 edits=[("core/indexer.go", "	for _, docId := range *docs {\n		indexer.totalTokenLen -= indexer.docTokenLens[docId]\n", "	for i, docId := range *docs {\n		if i == 0 || (*docs)[i-1] < docId[:1] {\n			indexer.totalTokenLen -= indexer.docTokenLens[docId]\n		}\n")],
 needs="a batch that removes two documents whose ids share the first letter",
 breaks="the running total of lengths keeps the length of a removed document, so later scores are off",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.FrequenciesIndex, 100)
	add(ix, "a1", 5, kw("x", 1))
	add(ix, "a2", 5, kw("x", 1))
	add(ix, "c", 5, kw("x", 1))
	flush(ix)
	ix.RemoveDocToCache("a1", false)
	ix.RemoveDocToCache("a2", false)
	flush(ix)
	d, _ := ix.Lookup([]string{"x"}, nil, nil, false)
	// idf = log2(1/1+1) = 1, tf part = 2/(1+1*(1-1+1*5/5)) = 1
	if len(d) != 1 || d[0].BM25 < 0.99 || d[0].BM25 > 1.01 {
		t.Fatal(d)
	}
}
'''),
dict(id="C03-empty", property="C03", pkg="core",
 edits=[("core/indexer.go", "		if len(shouldTable) == 0 {", "		if len(shouldTable) == 0 && len(mustTable) == 0 {")],
 needs="a must clause that matches together with a should clause none of whose keys is known",
 breaks="documents without any should key are returned",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("x", 1))
	flush(ix)
	l := types.Logic{Expr: types.Expr{Must: []string{"x"}, Should: []string{"nowhere"}}}
	d, n := ix.Lookup(nil, nil, nil, false, l)
	if len(d) != 0 || n != 0 {
		t.Fatal(d)
	}
}
'''),
dict(id="C04-union", property="C04", pkg="core",
 edits=[("core/indexer.go", "			docState, ok := indexer.tableLock.docsState[docid]\n			if !ok || docState != 0 {\n				// 等待删除的文档\n				continue\n			}\n\n			if !indexer.findInNotInTable(notInTable, docid) {", "			docState, ok := indexer.tableLock.docsState[docid]\n			if i == 0 && (!ok || docState != 0) {\n				// 等待删除的文档\n				continue\n			}\n\n			if !indexer.findInNotInTable(notInTable, docid) {")],
 needs="a should query of two keys with a pending removal of a document that holds only the second key",
 breaks="a removed document is still found",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("x", 1))
	add(ix, "b", 1, kw("y", 1))
	flush(ix)
	ix.RemoveDocToCache("b", false)
	d, _ := ix.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Should: []string{"x", "y"}}})
	if got := ids(d); got != "a " {
		t.Fatal(got)
	}
}
'''),
dict(id="C14-pivot", property="C14", pkg="core",
 edits=[("core/uint64.go", "func StableDesc(data []uint64) {\n	n := len(data)\n	blockSize := 20", "func StableDesc(data []uint64) {\n	n := len(data)\n	blockSize := 19")],
 needs="", breaks="", demo="") if False else
dict(id="C14-median", property="C14", pkg="core",
 edits=[("core/uint64.go", "func siftDownDesc(data []uint64, lo, hi, first int) {\n	root := lo\n	for {\n		child := 2*root + 1\n		if child >= hi {", "func siftDownDesc(data []uint64, lo, hi, first int) {\n	root := lo\n	for {\n		child := 2*root + 1\n		if child >= hi-1 && root > 0 {")],
 needs="an input on which the descending quick sort reaches its depth limit and falls back to heap sort",
 breaks="the result is not sorted",
 demo=CORE.replace('import (\n	"testing"\n\n	"github.com/go-ego/riot/types"\n)', 'import (\n	"math/rand"\n	"testing"\n)').split("func kw")[0] + '''
func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 2000; i++ {
		d := make([]uint64, 40)
		for j := range d {
			d[j] = uint64(r.Intn(30))
		}
		heapSortDesc(d, 0, len(d))
		if !IsSortedDesc(d) {
			t.Fatal(d)
		}
	}
}
'''),
dict(id="C09-ties", property="C09", pkg="core",
 edits=[("core/ranker.go", "", "")], needs="", breaks="", demo="") if False else None,
]
SEEDS = [s for s in SEEDS if s]
