import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/seeds", "a.py")).read().split("SEEDS = [")[0]) if False else None
CORE = open("/verif/tools/seeds/a.py").read().split("CORE = '''")[1].split("'''")[0]
RANK = '''package core

import (
	"math"
	"testing"

	"github.com/go-ego/riot/types"
)

type byField struct{}

func (byField) Score(d types.IndexedDoc, f interface{}) []float32 {
	if f == nil {
		return nil
	}
	return []float32{f.(float32)}
}

var _ = math.MaxInt64
'''
STORE = '''package store

import (
	"io/ioutil"
	"os"
	"testing"
	"errors"
)

var _ = errors.New

func open(t *testing.T, kind string) (Store, string) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	s, err := OpenStore(d+"/db", kind)
	if err != nil {
		os.RemoveAll(d)
		t.Fatal(err)
	}
	return s, d
}
'''
PB = '''package doc

import "testing"
'''
SEEDS = [
dict(id="C09-reverse", property="C09", pkg="core",
 edits=[("core/ranker.go", "			sort.Sort(sort.Reverse(outputDocs))\n		} else {\n			sort.Sort(outputDocs)\n		}\n		// 当用户要求只返回部分结果时返回部分结果\n		docsLen := len(outputDocs)\n		start, end := maxOutput(options, docsLen)\n\n		return outputDocs[start:end], numDocs\n	}\n\n	return outputDocs, numDocs\n}\n\nfunc (ranker *Ranker) rankOutDocs",
 "			sort.Sort(outputDocs)\n			for i, j := 0, len(outputDocs)-1; i+1 < j; i, j = i+1, j-1 {\n				outputDocs[i], outputDocs[j] = outputDocs[j], outputDocs[i]\n			}\n		} else {\n			sort.Sort(outputDocs)\n		}\n		// 当用户要求只返回部分结果时返回部分结果\n		docsLen := len(outputDocs)\n		start, end := maxOutput(options, docsLen)\n\n		return outputDocs[start:end], numDocs\n	}\n\n	return outputDocs, numDocs\n}\n\nfunc (ranker *Ranker) rankOutDocs")],
 needs="reverse order, ids only, an even number of results", breaks="the two middle results are not swapped, so the order is wrong",
 demo=RANK + '''
func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init(true)
	var in []types.IndexedDoc
	for i, id := range []string{"a", "b", "c", "d"} {
		r.AddDoc(id, float32(i))
		in = append(in, types.IndexedDoc{DocId: id})
	}
	out, _ := r.Rank(in, types.RankOpts{ScoringCriteria: byField{}, ReverseOrder: true}, false)
	s := ""
	for _, d := range out.(types.ScoredIDs) {
		s += d.DocId
	}
	if s != "abcd" {
		t.Fatal(s)
	}
}
'''),
dict(id="C10-stale", property="C10", pkg="core",
 edits=[("core/ranker.go", "		if len(content) > 1 {\n			ranker.lock.attri[docId] = content[1]", "		if len(content) > 1 && content[1] != nil {\n			ranker.lock.attri[docId] = content[1]")],
 needs="a document registered again without attributes after one with attributes", breaks="the old version's attributes are still returned",
 demo=RANK + '''
func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init()
	r.AddDoc("a", float32(1), "old", "secret")
	r.AddDoc("a", float32(1), "new", nil)
	out, _ := r.Rank([]types.IndexedDoc{{DocId: "a"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
	if d := out.(types.ScoredDocs); len(d) != 1 || d[0].Attri != nil {
		t.Fatal(d)
	}
}
'''),
dict(id="C10-remove", property="C10", pkg="core",
 edits=[("core/ranker.go", "		// new\n		delete(ranker.lock.content, docId)\n		delete(ranker.lock.attri, docId)\n", "		// new\n		if ranker.lock.attri[docId] != nil {\n			delete(ranker.lock.content, docId)\n			delete(ranker.lock.attri, docId)\n		}\n")],
 needs="a document with content and no attributes that is removed and registered again with fields only", breaks="the removed document's content comes back",
 demo=RANK + '''
func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init()
	r.AddDoc("a", float32(1), "old")
	r.RemoveDoc("a")
	r.AddDoc("a", float32(1))
	out, _ := r.Rank([]types.IndexedDoc{{DocId: "a"}}, types.RankOpts{ScoringCriteria: byField{}}, false)
	if d := out.(types.ScoredDocs); len(d) != 1 || d[0].Content != "" {
		t.Fatal(d)
	}
}
'''),
dict(id="C11-edge", property="C11", pkg="core",
 edits=[("core/ranker.go", "	start = utils.MinInt(options.OutputOffset, docsLen)\n	end = docsLen\n	return start, end", "	start = utils.MinInt(options.OutputOffset, docsLen+options.MaxOutputs+1)\n	end = docsLen\n	return start, end")],
 needs="an offset beyond the last result without a limit", breaks="ranking crashes",
 demo=RANK + '''
func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init()
	r.AddDoc("a", float32(1))
	out, n := r.Rank([]types.IndexedDoc{{DocId: "a"}}, types.RankOpts{ScoringCriteria: byField{}, OutputOffset: 5}, false)
	if d := out.(types.ScoredDocs); len(d) != 0 || n != 1 {
		t.Fatal(d)
	}
}
'''),
dict(id="C12-prefix", property="C12", pkg="types",
 edits=[("types/search_response.go", "func (docs ScoredIDs) Less(i, j int) bool {\n	// 为了从大到小排序，这实际上实现的是 More 的功能\n	min := utils.MinInt(len(docs[i].Scores), len(docs[j].Scores))\n	for iScore := 0; iScore < min; iScore++ {\n		if docs[i].Scores[iScore] > docs[j].Scores[iScore] {\n			return true\n		} else if docs[i].Scores[iScore] < docs[j].Scores[iScore] {\n			return false\n		}\n	}\n	return len(docs[i].Scores) > len(docs[j].Scores)",
  "func (docs ScoredIDs) Less(i, j int) bool {\n	// 为了从大到小排序，这实际上实现的是 More 的功能\n	min := utils.MinInt(len(docs[i].Scores), len(docs[j].Scores))\n	for iScore := 0; iScore < min; iScore++ {\n		if docs[i].Scores[iScore] > docs[j].Scores[iScore] {\n			return true\n		} else if docs[i].Scores[iScore] < docs[j].Scores[iScore] {\n			return false\n		}\n	}\n	return min > 0 && len(docs[i].Scores) > min")],
 needs="an empty score list compared with one that is not", breaks="ids and documents are ordered differently, ties are not transitive",
 demo='''package types

import "testing"

func TestDemo(t *testing.T) {
	d := ScoredIDs{{Scores: []float32{1}}, {}}
	if !d.Less(0, 1) || d.Less(1, 0) {
		t.Fatal(d)
	}
}
'''),
dict(id="C13-shared", property="C13", pkg="types",
 edits=[("types/engine_init_options.go", "	if options.IndexerOpts.BM25Parameters == nil {\n		options.IndexerOpts.BM25Parameters = &defaultBM25Parameters\n	}", "	if options.IndexerOpts.BM25Parameters == nil || options.IndexerOpts.BM25Parameters.B == 0 {\n		options.IndexerOpts.BM25Parameters = &defaultBM25Parameters\n	}")],
 needs="BM25 parameters that switch length normalisation off with B=0", breaks="the caller's parameters are replaced",
 demo='''package types

import "testing"

func TestDemo(t *testing.T) {
	o := EngineOpts{IndexerOpts: &IndexerOpts{BM25Parameters: &BM25Parameters{K1: 1.5, B: 0}}}
	o.Init()
	if p := o.IndexerOpts.BM25Parameters; p.K1 != 1.5 || p.B != 0 {
		t.Fatal(*p)
	}
}
'''),
dict(id="C15-leveldb-iter", property="C15", pkg="store",
 edits=[("store/ldb_store.go", "	for iter.Next() {\n", "	for ok := iter.First(); ok && len(iter.Key()) > 0; ok = iter.Next() {\n")],
 needs="a pair stored under the empty key", breaks="iterating ends at the empty key and misses everything",
 demo=STORE + '''
func TestDemo(t *testing.T) {
	s, d := open(t, "ldb")
	defer os.RemoveAll(d)
	defer s.Close()
	s.Set([]byte(""), []byte("1"))
	s.Set([]byte("b"), []byte("2"))
	n := 0
	s.ForEach(func(k, v []byte) error { n++; return nil })
	if n != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id="C15-badger-prefetch", property="C15", pkg="store",
 edits=[("store/badger_store.go", "		ival, err = item.ValueCopy(nil)\n		return err\n", "		ival, err = item.Value()\n		return err\n")],
 needs="a value kept after the read transaction ended while the store is written to", breaks="the value handed out is not the caller's own copy",
 demo=""),
dict(id="C15-badger-stop", property="C15", pkg="store",
 edits=[("store/badger_store.go", "			if err := fn(key, val); err != nil {\n				return err\n			}\n		}\n		return nil\n	})\n\n	return err\n}\n", "			if err = fn(key, val); err != nil {\n				break\n			}\n		}\n		return nil\n	})\n\n	return err\n}\n")],
 needs="a visitor that fails while a badger store is iterated", breaks="the error that stopped the iteration is lost",
 demo=STORE + '''
func TestDemo(t *testing.T) {
	s, d := open(t, "bg")
	defer os.RemoveAll(d)
	defer s.Close()
	s.Set([]byte("a"), []byte("1"))
	stop := errors.New("stop")
	if err := s.ForEach(func(k, v []byte) error { return stop }); err != stop {
		t.Fatal(err)
	}
}
'''),
dict(id="C16-env", property="C16", pkg="store",
 edits=[("store/store.go", "	if len(args) > 0 && args[0] != \"\" {\n		storeName = args[0]\n	} else {\n", "	if len(args) > 0 && args[0] != \"\" {\n		storeName = args[0]\n	}\n	if storeName == DefaultStore {\n")],
 needs="the default engine asked for by name while the environment names another", breaks="another engine than the one asked for is opened",
 demo=STORE + '''
func TestDemo(t *testing.T) {
	os.Setenv("Riot_Store_Engine", "bolt")
	defer os.Unsetenv("Riot_Store_Engine")
	s, d := open(t, "ldb")
	defer os.RemoveAll(d)
	defer s.Close()
	if _, ok := s.(*Leveldb); !ok {
		t.Fatalf("%T", s)
	}
}
'''),
dict(id="C27-shard", property="C27", pkg="core",
 edits=[("core/data.go", "	for _, docInfosShard := range DocInfoGroup {\n		_, found := docInfosShard.DocInfos[docId]\n		if found {\n			return true\n		}\n	}\n	return false", "	for shard := 0; shard < len(DocInfoGroup); shard++ {\n		docInfosShard, ok := DocInfoGroup[shard]\n		if !ok {\n			continue\n		}\n		if _, found := docInfosShard.DocInfos[docId]; found {\n			return true\n		}\n	}\n	return false")],
 needs="shard numbers with a gap", breaks="a document in a shard beyond the gap is reported not to exist",
 demo='''package core

import (
	"testing"

	"github.com/go-ego/riot/types"
)

func TestDemo(t *testing.T) {
	AddDocInfo(7, "a", &types.DocInfo{})
	if !IsDocExist("a") {
		t.Fatal("lost")
	}
}
'''),
dict(id="C28-sint", property="C28", pkg="net/grpc/riot-pb",
 edits=[("net/grpc/riot-pb/doc.pb.go", "		for _, num1 := range m.Locations {\n			num := uint64(num1)\n", "		for _, num1 := range m.Locations {\n			num := uint64(uint32(num1))\n")],
 needs="a token with a negative location", breaks="the encoding is not the protocol's and shorter than announced",
 demo=PB + '''
func TestDemo(t *testing.T) {
	m := &TokenData{Text: "x", Locations: []int32{-1}}
	b, err := m.Marshal()
	if err != nil {
		t.Fatal(err)
	}
	// tag, length, ten bytes
	if len(b) != 3+2+10 || b[4] != 10 {
		t.Fatal(b)
	}
}
'''),
dict(id="C28-unknown", property="C28", pkg="net/grpc/riot-pb",
 edits=[("net/grpc/riot-pb/doc.pb.go", "	if m.ForceUpdate {\n		n += 2\n	}\n	if m.XXX_unrecognized != nil {\n		n += len(m.XXX_unrecognized)\n	}\n	return n", "	if m.ForceUpdate {\n		n += 2\n	} else if m.XXX_unrecognized != nil {\n		n += len(m.XXX_unrecognized)\n	}\n	return n")],
 needs="a document with the update flag and an unknown field", breaks="the announced size is too small and encoding crashes",
 demo=PB + '''
func TestDemo(t *testing.T) {
	m := &DocReq{}
	if err := m.Unmarshal([]byte{0x38, 1, 0x78, 1}); err != nil {
		t.Fatal(err)
	}
	b, err := m.Marshal()
	if err != nil || string(b) != "\\x38\\x01\\x78\\x01" {
		t.Fatal(b, err)
	}
}
'''),
dict(id="C29-group", property="C29", pkg="net/grpc/riot-pb",
 edits=[("net/grpc/riot-pb/doc.pb.go", "		case 1:\n			iNdEx += 8\n			return iNdEx, nil\n", "		case 1:\n			_ = dAtA[iNdEx+7]\n			iNdEx += 8\n			return iNdEx, nil\n")],
 needs="an unknown fixed 64-bit field cut off at the end of the input", breaks="decoding crashes",
 demo=PB + '''
func TestDemo(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if (&Reply{}).Unmarshal([]byte{0x79, 1, 2, 3}) == nil {
		t.Fatal("accepted")
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s["demo"]]
