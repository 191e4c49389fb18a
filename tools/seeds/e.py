ROOT = open("/verif/tools/seeds/d.py").read().split("ROOT = '''")[1].split("'''")[0]
CORE = open("/verif/tools/seeds/a.py").read().split("CORE = '''")[1].split("'''")[0]
SEEDS = [
dict(id="C35-lost", property="C35", pkg=".", root=1, flags="-race",
 edits=[("indexer_worker.go", "			atomic.AddUint64(&engine.numTokenIndexAdded,\n				uint64(len(request.doc.Keywords)))\n", "			engine.numTokenIndexAdded += uint64(len(request.doc.Keywords))\n")],
 needs="two shards that get a document at the same time",
 breaks="one of the two additions to the counter of keywords is lost",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(4))
	for i := 0; i < 4000; i++ {
		e.Index(fmt.Sprint(i+1), types.DocData{Content: "x"})
	}
	e.Flush()
	if e.NumTokenAdded() != 4000 {
		t.Fatal(e.NumTokenAdded())
	}
}
'''),
dict(id="C35-label", property="C35", pkg=".", root=1,
 edits=[("indexer_worker.go", "				uint64(len(request.doc.Keywords)))\n", "				uint64(request.doc.TokenLen))\n")],
 needs="a document with a label, or one whose words repeat",
 breaks="keywords without positions are not counted, repeated ones twice",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	e.Index("1", types.DocData{Content: "x", Labels: []string{"l", "m"}})
	e.Flush()
	if e.NumTokenAdded() != 3 {
		t.Fatal(e.NumTokenAdded())
	}
}
'''),
dict(id="C35-reserved", property="C35", pkg=".", root=1,
 edits=[("indexer_worker.go", '		if request.docId != "0" {\n			atomic.AddUint64(&engine.numDocsRemoved, 1)\n		}\n		if request.forceUpdate {\n			atomic.AddUint64(&engine.numDocsForceUpdated, 1)\n		}\n', '		atomic.AddUint64(&engine.numDocsRemoved, 1)\n		if request.forceUpdate {\n			atomic.AddUint64(&engine.numDocsForceUpdated, 1)\n		}\n'), ("engine.go", '		atomic.AddUint64(&engine.numRemovingReqs, 1)\n	}\n\n	if force {', '	}\n	atomic.AddUint64(&engine.numRemovingReqs, 1)\n\n	if force {'), ("engine.go", "numRm == numRemoved && numRm == numRanksRemoved", "numRm == numRemoved && numRemoved >= numRanksRemoved")],
 needs="a removal of the reserved id, as to force the index to refresh",
 breaks="it is counted as the removal of a document",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	e.Index("1", types.DocData{Content: "x"})
	e.Flush()
	e.RemoveDoc("0", true)
	e.Flush()
	if e.NumRemoved() != 0 {
		t.Fatal(e.NumRemoved())
	}
}
'''),
dict(id="C01-last", property="C01", pkg="core",
 edits=[("core/indexer.go", "		if i < len(*docs)-1 && (*docs)[i].DocId", "		if i < len(*docs)-2 && (*docs)[i].DocId")],
 needs="two versions of the document with the largest id in one batch",
 breaks="both versions get into the index, where words of the replaced one find the document",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	var ix Indexer
	ix.Init(types.IndexerOpts{IndexType: types.FrequenciesIndex, DocCacheSize: 10, BM25Parameters: &types.BM25Parameters{K1: 1, B: 1}})
	add := func(id, tok string, force bool) {
		ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: 1, Keywords: []types.KeywordIndex{{tok, 1, []int{0}}}}, force)
	}
	add("1", "k1", false)
	add("2", "k2", false)
	add("2", "k3", true)
	if docs, _ := ix.Lookup([]string{"k2"}, nil, nil, false); len(docs) != 0 {
		t.Fatal(docs)
	}
}
'''),
dict(id="C03-should", property="C03", pkg="core",
 edits=[("core/indexer.go", "shouldFound := indexer.find", "shouldFound := len(mustTable) > 1 && len(shouldTable) > 1 || indexer.find")],
 needs="a logic search of two or more must and two or more should keys",
 breaks="a document with none of the should keys is found",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	var ix Indexer
	ix.Init(types.IndexerOpts{IndexType: types.FrequenciesIndex, DocCacheSize: 10, BM25Parameters: &types.BM25Parameters{K1: 1, B: 1}})
	for _, id := range []string{"1", "2"} {
		d := &types.DocIndex{DocId: id, TokenLen: 2}
		for _, k := range []string{"a", "b"} {
			d.Keywords = append(d.Keywords, types.KeywordIndex{k, 1, []int{0}})
		}
		if id == "2" {
			d.Keywords = append(d.Keywords, types.KeywordIndex{"c", 1, []int{0}}, types.KeywordIndex{"d", 1, []int{0}})
		}
		ix.AddDocToCache(d, true)
	}
	docs, _ := ix.Lookup(nil, nil, nil, false, types.Logic{Must: true, Should: true,
		Expr: types.Expr{Must: []string{"a", "b"}, Should: []string{"c", "d"}}})
	if len(docs) != 1 || docs[0].DocId != "2" {
		t.Fatal(docs)
	}
}
'''),
dict(id="C12-close", property="C12", pkg="types",
 edits=[("types/search_response.go", """func (docs ScoredIDs) Less(i, j int) bool {
	// 为了从大到小排序，这实际上实现的是 More 的功能
	min := utils.MinInt(len(docs[i].Scores), len(docs[j].Scores))
	for iScore := 0; iScore < min; iScore++ {
		if docs[i].Scores[iScore] > docs[j].Scores[iScore] {
			return true
		} else if docs[i].Scores[iScore] < docs[j].Scores[iScore] {
			return false
		}
	}
""", """func (docs ScoredIDs) Less(i, j int) bool {
	// 为了从大到小排序，这实际上实现的是 More 的功能
	min := utils.MinInt(len(docs[i].Scores), len(docs[j].Scores))
	for iScore := 0; iScore < min; iScore++ {
		if d := docs[i].Scores[iScore] - docs[j].Scores[iScore]; d > 1e-6 {
			return true
		} else if d < -1e-6 {
			return false
		}
	}
""")],
 needs="two scores that are less than a millionth apart",
 breaks="they count as equal, and the order is no longer that of the scores",
 demo='''package types

import "testing"

func TestDemo(t *testing.T) {
	a := ScoredID{DocId: "1", Scores: []float32{2e-7}}
	b := ScoredID{DocId: "2", Scores: []float32{1e-7}}
	if !(ScoredIDs{a, b}).Less(0, 1) || !(ScoredDocs{{ScoredID: a}, {ScoredID: b}}).Less(0, 1) {
		t.Fatal("the larger score does not come first")
	}
}
'''),
]
SEEDS += [
dict(id="C20-each", property="C20", pkg=".", root=1,
 edits=[("engine.go", "		case <-time.After(deadline.Sub(time.Now())):", "		case <-time.After(time.Duration(request.Timeout) * time.Millisecond):"),
        ("engine.go", "	deadline := time.Now().Add(time.Nanosecond *\n		time.Duration(NumNanosecondsInAMillisecond*request.Timeout))\n", "")],
 needs="shards that answer one after the other, each within the time allowed of the one before",
 breaks="the search goes on after its deadline",
 demo=ROOT + '''
type demoSlow map[string]time.Duration

func (s demoSlow) Score(d types.IndexedDoc, f interface{}) []float32 {
	time.Sleep(s[d.DocId])
	return []float32{1}
}

func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	a, b := demoID(1, 0, 2, "x"), demoID(2, 1, 2, "x")
	e.Index(a, types.DocData{Content: "x"})
	e.Index(b, types.DocData{Content: "x"})
	e.Flush()
	slow := demoSlow{a: 1000 * time.Millisecond, b: 3400 * time.Millisecond}
	began := time.Now()
	r := e.Search(types.SearchReq{Text: "x", Timeout: 2500, RankOpts: &types.RankOpts{ScoringCriteria: slow}})
	if time.Since(began) > 3200*time.Millisecond || !r.Timeout {
		t.Fatal(r, time.Since(began))
	}
}
'''),
dict(id="C22-leftover", property="C22", pkg=".", root=1,
 edits=[("riot.go", "			var data types.DocData\n			err := dec.Decode(&data)\n			if err != nil {\n				log.Println(\"dec.decode: \", err)\n			}\n\n			docsData = append(docsData, data)\n\n			return nil\n		})\n	}\n\n	return docsId, docsData","			err := dec.Decode(&data)\n			if err != nil {\n				log.Println(\"dec.decode: \", err)\n			}\n\n			docsData = append(docsData, data)\n\n			return nil\n		})\n	}\n\n	return docsId, docsData"),
        ("riot.go", "func (engine *Engine) GetDBAllDocs() (docsId []string, docsData []types.DocData) {\n", "func (engine *Engine) GetDBAllDocs() (docsId []string, docsData []types.DocData) {\n	var data types.DocData\n")],
 needs="a stored document that lacks what the one stored before it has",
 breaks="it is listed with the other one's attributes and labels",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	dir, _ := ioutil.TempDir("", "demo")
	defer os.RemoveAll(dir)
	o := demoOpts(1)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, dir, 1, "bolt"
	var e Engine
	e.Init(o)
	e.Index("1", types.DocData{Content: "x", Attri: "first", Labels: []string{"l"}})
	e.Index("2", types.DocData{Content: "x"})
	e.Flush()
	defer e.Close()
	ids, docs := e.GetDBAllDocs()
	for i, id := range ids {
		if (docs[i].Attri != nil) != (id == "1") || (len(docs[i].Labels) > 0) != (id == "1") {
			t.Fatal(ids, docs)
		}
	}
	if len(ids) != 2 {
		t.Fatal(ids)
	}
}
'''),
dict(id="C26-folder", property="C26", pkg="net/heartb", root=1,
 edits=[("net/heartb/heart.go", "	cmd.Dir = dir\n", "	if strings.HasPrefix(dir, \"/\") {\n		cmd.Dir = dir\n	}\n"), ("net/heartb/heart.go", "	\"sync\"\n", "	\"strings\"\n	\"sync\"\n")],
 needs="a folder given by its relative path",
 breaks="the restart command runs elsewhere",
 demo='''
package hb

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	dir, err := os.MkdirTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if os.Chdir(dir) != nil || os.Mkdir("sub", 0777) != nil {
		t.Fatal("cannot set up")
	}
	if err := restart("sub", "echo x > here"); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(dir + "/sub/here"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="C36-orderless", property="C36", pkg=".", root=1,
 edits=[("indexer_worker.go", "				DocId:            d.DocId,\n				TokenSnippetLocs: d.TokenSnippetLocs,\n				TokenLocs:        d.TokenLocs,\n			})", "				DocId:            d.DocId,\n				TokenSnippetLocs: d.TokenSnippetLocs,\n			})")],
 needs="an orderless search of an engine for ids only that keeps locations",
 breaks="the positions of the words found are missing",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	o := demoOpts(1)
	o.IDOnly = true
	o.IndexerOpts = &types.IndexerOpts{IndexType: types.LocsIndex}
	var e Engine
	e.Init(o)
	e.Index("1", types.DocData{Content: "x y", Tokens: []types.TokenData{{Text: "z", Locations: []int{3, 5}}}})
	e.Flush()
	r := e.Search(types.SearchReq{Tokens: []string{"z"}, Orderless: true}).Docs.(types.ScoredIDs)
	if len(r) != 1 || len(r[0].TokenLocs) != 1 || len(r[0].TokenLocs[0]) != 2 {
		t.Fatal(r)
	}
}
'''),
dict(id="C36-swapped", property="C36", pkg="core",
 edits=[("core/indexer.go", "				for i, t := range table[:len(tokens)] {\n					indexedDoc.TokenLocs[i] = t.locations[indexPointers[i]]\n				}", "				for i, t := range table[:len(tokens)] {\n					if i > 0 && t == table[0] {\n						continue\n					}\n					indexedDoc.TokenLocs[i] = t.locations[indexPointers[0]]\n					if p := indexPointers[i]; p < len(t.locations) && p != indexPointers[0] {\n						indexedDoc.TokenLocs[i] = t.locations[p]\n					}\n				}")],
 needs="one word searched for twice",
 breaks="the positions of the second mention are missing",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	var ix Indexer
	ix.Init(types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 10, BM25Parameters: &types.BM25Parameters{K1: 1, B: 1}})
	ix.AddDocToCache(&types.DocIndex{DocId: "1", TokenLen: 2, Keywords: []types.KeywordIndex{{"a", 0, []int{0, 4}}}}, true)
	docs, _ := ix.Lookup([]string{"a", "a"}, nil, nil, false)
	if len(docs) != 1 || len(docs[0].TokenLocs) != 2 || len(docs[0].TokenLocs[1]) != 2 {
		t.Fatal(docs)
	}
}
'''),
]
SEEDS += [
dict(id="C37-tokens", property="C37", pkg=".", root=1,
 edits=[("engine.go", "		return\n	}\n\n	for _, t := range request.Tokens {\n		tokens = append(tokens, t)\n	}\n	return\n}", "		return\n	}\n\n	return request.Tokens\n}")],
 needs="a caller that changes the words of an answer and uses the request again",
 breaks="the answer's words are the request's own list",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	e.Index("1", types.DocData{Content: "x y"})
	e.Flush()
	req := types.SearchReq{Tokens: []string{"x", "y"}}
	r := e.Search(req)
	for i := range r.Tokens {
		r.Tokens[i] = "<b>" + r.Tokens[i] + "</b>"
	}
	if req.Tokens[0] != "x" || demoIDs(e.Search(req).Docs) != "1" {
		t.Fatal(req.Tokens)
	}
}
'''),
dict(id="C37-rule", property="C37", pkg=".", root=1,
 edits=[("engine.go", "		rankOpts = *request.RankOpts\n	}\n\n	if rankOpts.ScoringCriteria == nil {\n", "		rankOpts = *request.RankOpts\n		if request.RankOpts.ScoringCriteria == nil {\n			request.RankOpts.ScoringCriteria = engine.initOptions.DefRankOpts.ScoringCriteria\n		}\n	}\n\n	if rankOpts.ScoringCriteria == nil {\n")],
 needs="ranking options without a rule, used for two engines",
 breaks="the first engine's rule is left in them and used by the second",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	e.Index("1", types.DocData{Content: "x"})
	e.Flush()
	o := &types.RankOpts{ReverseOrder: true}
	e.Search(types.SearchReq{Text: "x", RankOpts: o})
	if o.ScoringCriteria != nil {
		t.Fatal(o)
	}
}
'''),
dict(id="C38-content", property="C38", pkg="core",
 edits=[("core/ranker.go", "		ranker.lock.content = make(map[string]string)\n", "		ranker.lock.content = contents\n"), ("core/ranker.go", "// Init init ranker\n", "// contents are the texts of the documents, each of which has one ranker\nvar contents = make(map[string]string)\n\n// Init init ranker\n")],
 needs="two engines with documents of the same id",
 breaks="a document comes with the text the other engine has for its id",
 demo='''package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

type one struct{}

func (one) Score(types.IndexedDoc, interface{}) []float32 { return []float32{1} }

func TestDemo(t *testing.T) {
	var a, b Ranker
	a.Init()
	b.Init()
	a.AddDoc("1", nil, "first", nil)
	b.AddDoc("1", nil, "second", nil)
	docs, _ := a.RankDocs([]types.IndexedDoc{{DocId: "1"}}, types.RankOpts{ScoringCriteria: one{}}, false)
	if len(docs) != 1 || docs[0].Content != "first" {
		t.Fatal(docs)
	}
}
'''),
]
SEEDS += [
dict(id="C20-wedge", property="C20", pkg=".", root=1,
 edits=[("engine.go", "		chan rankerReturnReq, engine.initOptions.NumShards)", "		chan rankerReturnReq)")],
 needs="a search that times out, followed by another",
 breaks="the shard that was late waits for ever to hand over its answer",
 demo=ROOT + '''
type demoSlow struct{}

func (s demoSlow) Score(d types.IndexedDoc, f interface{}) []float32 {
	time.Sleep(time.Second)
	return []float32{1}
}

func TestDemo(t *testing.T) {
	o := demoOpts(1)
	o.NumRankerThreads = 1
	var e Engine
	e.Init(o)
	e.Index("1", types.DocData{Content: "x"})
	e.Flush()
	e.Search(types.SearchReq{Text: "x", Timeout: 100, RankOpts: &types.RankOpts{ScoringCriteria: demoSlow{}}})
	over := make(chan bool, 1)
	go func() {
		e.Search(types.SearchReq{Text: "x"})
		over <- true
	}()
	select {
	case <-over:
	case <-time.After(20 * time.Second):
		t.Fatal("the engine is stuck")
	}
}
'''),
dict(id="C39-cycle", property="C39", pkg=".", root=1,
 edits=[("segment.go", "		if request.forceUpdate {\n			for i := 0; i < engine.initOptions.NumShards; i++ {\n				if i == shard {\n					continue\n				}\n				engine.indexerAddDocChans[i] <- indexerAddDocReq{forceUpdate: true}\n			}\n		}\n		rankerRequest", "		rankerRequest"),
        ("indexer_worker.go", "		if request.doc != nil {\n			atomic.AddUint64(&engine.numTokenIndexAdded,", "		if request.doc != nil && request.forceUpdate {\n			for i := range engine.indexerAddDocChans {\n				if i != shard {\n					engine.indexerAddDocChans[i] <- indexerAddDocReq{forceUpdate: true}\n				}\n			}\n		}\n		if request.doc != nil {\n			atomic.AddUint64(&engine.numTokenIndexAdded,")],
 needs="two shards with small, full buffers that both get forced updates",
 breaks="each waits for room in the other's buffer, for ever",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	o := demoOpts(2)
	o.IndexerBufLen, o.NumGseThreads = 1, 2
	var e Engine
	e.Init(o)
	over := make(chan bool, 1)
	go func() {
		for i := 1; i < 3000; i++ {
			e.Index(fmt.Sprint(i), types.DocData{Content: "x"}, true)
		}
		e.Flush()
		over <- true
	}()
	select {
	case <-over:
	case <-time.After(60 * time.Second):
		t.Fatal("the engine is stuck")
	}
}
'''),
]
SEEDS += [
dict(id="C32-room", property="C32", pkg=".", root=1, flags="-race",
 edits=[("core/indexer.go", "	keywords := make([]string, len(tokens)+len(labels))\n	copy(keywords, tokens)\n	copy(keywords[len(tokens):], labels)\n", "	keywords := append(tokens, labels...)\n")],
 needs="a text of three words, the list of which has room for a fourth, with a label, on several shards",
 breaks="the shards write to the room behind the one list of words at the same time",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(4))
	for i := 1; i < 20; i++ {
		e.Index(fmt.Sprint(i), types.DocData{Content: "x y z", Labels: []string{"l"}})
	}
	e.Flush()
	for i := 0; i < 300; i++ {
		if n := e.Search(types.SearchReq{Text: "x y z", Labels: []string{"l"}}).NumDocs; n != 19 {
			t.Fatal(n)
		}
	}
}
'''),
dict(id="C38-lens", property="C38", pkg="core",
 edits=[("core/indexer.go", "	indexer.docTokenLens = make(map[string]float32)", "	indexer.docTokenLens = lens"), ("core/indexer.go", "// getDocId ", "// lens are the lengths of the documents, each of which has one index\nvar lens = make(map[string]float32)\n\n// getDocId ")],
 needs="two engines with documents of the same id and different length, BM25",
 breaks="the weights of one engine come from the lengths in the other",
 demo='''package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestDemo(t *testing.T) {
	ix := make([]Indexer, 2)
	for i := range ix {
		ix[i].Init(types.IndexerOpts{IndexType: types.FrequenciesIndex, DocCacheSize: 10, BM25Parameters: &types.BM25Parameters{K1: 1, B: 1}})
	}
	var was float32
	for i := range ix {
		ix[i].AddDocToCache(&types.DocIndex{DocId: "1", TokenLen: float32(2 + 50*i), Keywords: []types.KeywordIndex{{"a", 2, nil}}}, false)
		ix[i].AddDocToCache(&types.DocIndex{DocId: "2", TokenLen: 4, Keywords: []types.KeywordIndex{{"b", 4, nil}}}, true)
		docs, _ := ix[0].Lookup([]string{"a"}, nil, nil, false)
		if len(docs) != 1 || i > 0 && docs[0].BM25 != was {
			t.Fatal(docs, was)
		}
		was = docs[0].BM25
	}
}
'''),
dict(id="C37-sorted", property="C37", pkg=".", root=1,
 edits=[("segment.go", "			iTokens++\n		}", "			iTokens++\n			// positions ascend\n			for i := 1; i < len(v); i++ {\n				for j := i; j > 0 && v[j] < v[j-1]; j-- {\n					v[j], v[j-1] = v[j-1], v[j]\n				}\n			}\n		}")],
 needs="a document whose positions for a word do not ascend",
 breaks="indexing sorts the caller's own list",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	l := []int{7, 3}
	e.Index("1", types.DocData{Tokens: []types.TokenData{{Text: "x", Locations: l}}})
	e.Flush()
	if l[0] != 7 || l[1] != 3 {
		t.Fatal(l)
	}
}
'''),
dict(id="C36-named", property="C36", pkg=".", root=1,
 edits=[("engine.go", "	output.NumDocs = numDocs\n	output.Timeout = isTimeout\n\n	return\n}\n\n// Ranks rank", "	if request.Orderless {\n		output.Tokens = request.Tokens\n	}\n	output.NumDocs = numDocs\n	output.Timeout = isTimeout\n\n	return\n}\n\n// Ranks rank")],
 needs="an orderless search for ids, by text",
 breaks="the words the answer names miss those of the text",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	o := demoOpts(1)
	o.IDOnly = true
	var e Engine
	e.Init(o)
	e.Index("1", types.DocData{Content: "x y"})
	e.Flush()
	r := e.Search(types.SearchReq{Text: "x", Tokens: []string{"y"}, Orderless: true})
	if len(r.Tokens) != 2 || r.Tokens[0] != "x" || r.Tokens[1] != "y" {
		t.Fatal(r.Tokens)
	}
}
'''),
]
