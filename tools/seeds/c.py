CORE = open("/verif/tools/seeds/a.py").read().split("CORE = '''")[1].split("'''")[0]
ROOT = '''package riot

import (
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/go-ego/murmur"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
)

var _ = fmt.Sprint
var _ = ioutil.TempDir
var _ = os.RemoveAll
var _ = time.Now
var _ = murmur.Sum32
var _ = store.OpenStore

type demoScore struct{}

func (demoScore) Score(d types.IndexedDoc, f interface{}) []float32 {
	if v, ok := f.(float32); ok {
		return []float32{v}
	}
	return []float32{1}
}

func demoOpts(shards int) types.EngineOpts {
	return types.EngineOpts{NotUseGse: true, NumShards: shards,
		DefRankOpts: &types.RankOpts{ScoringCriteria: demoScore{}},
		IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex}}
}

// demoID returns an id that a document with the content gets into the shard
func demoID(n, shard, shards int, content string) string {
	for i := 0; ; i++ {
		id := fmt.Sprintf("d%d-%d", n, i)
		if int(murmur.Sum32(fmt.Sprintf("%s%s", id, content)))%shards == shard {
			return id
		}
	}
}

func demoIDs(docs interface{}) string {
	var r []string
	if d, ok := docs.(types.ScoredDocs); ok {
		for _, x := range d {
			r = append(r, x.DocId)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}
'''
SEEDS = [
dict(id="C03-unknown", property="C03", pkg="core",
 edits=[("core/indexer.go", "			if found {\n				notInTable = append(notInTable, indices)\n			}", "			if !found {\n				notInTable = notInTable[:0]\n				break\n			}\n			notInTable = append(notInTable, indices)")],
 needs="an excluded key that no document has, together with one that some have",
 breaks="the whole exclusion is dropped",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("x", 1), kw("y", 1))
	add(ix, "b", 1, kw("x", 1))
	flush(ix)
	d, _ := ix.Lookup(nil, nil, nil, false, types.Logic{Expr: types.Expr{Must: []string{"x"}, NotIn: []string{"y", "z"}}})
	if got := ids(d); got != "b " {
		t.Fatal(got)
	}
}
'''),
dict(id="C04-count", property="C04", pkg="core",
 edits=[("core/indexer.go", "			docState, ok := indexer.tableLock.docsState[baseDocId]\n			if !ok || docState != 0 {\n				continue\n			}\n			indexedDoc := types.IndexedDoc{}\n\n			// 当为", "			if countDocsOnly {\n				numDocs++\n				continue\n			}\n			docState, ok := indexer.tableLock.docsState[baseDocId]\n			if !ok || docState != 0 {\n				continue\n			}\n			indexedDoc := types.IndexedDoc{}\n\n			// 当为")],
 needs="counting only, while a removal is still cached",
 breaks="a shortcut for counting counts removed documents",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("x", 1))
	add(ix, "b", 1, kw("x", 1))
	flush(ix)
	ix.RemoveDocToCache("a", false)
	if _, n := ix.Lookup([]string{"x"}, nil, nil, true); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="C06-cursor", property="C06", pkg="core",
 edits=[("core/indexer.go", "	currentMinValues = make([]int, len(currentLocations))\n	for i := 1; i < len(tokens); i++ {", "	currentMinValues = make([]int, len(currentLocations))\n	var iNext int\n	for i := 1; i < len(tokens); i++ {"),
        ("core/indexer.go", "		var iNext int\n		for iCurrent, currentLocation := range currentLocations {", "		for iCurrent, currentLocation := range currentLocations {")],
 needs="three tokens, the second at several places",
 breaks="the cursor into the third token's locations starts where the second one's stopped, so nearer locations are not considered",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.LocsIndex, 100)
	add(ix, "a", 9, kw("x", 1, 0, 5, 10), kw("y", 1, 1, 6, 11), kw("z", 1, 2, 30, 60))
	flush(ix)
	d, _ := ix.Lookup([]string{"x", "y", "z"}, nil, nil, false)
	if len(d) != 1 || d[0].TokenProximity != 0 {
		t.Fatal(d)
	}
}
'''),
dict(id="C07-unlock", property="C07", pkg="core",
 edits=[("core/ranker.go", "							TokenLocs:        d.TokenLocs,\n						})\n				}\n				numDocs++\n			}\n		} else {\n			ranker.lock.RUnlock()\n		}\n	}\n\n	return\n}\n\n// RankDocID", "							TokenLocs:        d.TokenLocs,\n						})\n				}\n				numDocs++\n			}\n		}\n	}\n\n	return\n}\n\n// RankDocID")],
 needs="ids only, a search that finds a document the ranker does not have (yet), then a change of the ranker",
 breaks="the read lock is kept for ever, the next change of the ranker waits for ever",
 demo=CORE.replace('"testing"', '"testing"\n	"time"') + '''
type one struct{}

func (one) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{1} }

func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init(true)
	r.Rank([]types.IndexedDoc{{DocId: "a"}}, types.RankOpts{ScoringCriteria: one{}}, false)
	done := make(chan bool)
	go func() { r.AddDoc("a", nil); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("AddDoc hangs")
	}
}
'''),
dict(id="C08-early", property="C08", pkg="core", flags="-race",
 edits=[("core/ranker.go", "			fs := ranker.lock.fields[d.DocId]\n			content := ranker.lock.content[d.DocId]\n			attri := ranker.lock.attri[d.DocId]\n			ranker.lock.RUnlock()\n", "			fs := ranker.lock.fields[d.DocId]\n			ranker.lock.RUnlock()\n			content := ranker.lock.content[d.DocId]\n			attri := ranker.lock.attri[d.DocId]\n")],
 needs="a search with documents at the same time as a change of the ranker",
 breaks="contents and attributes are read without the lock",
 demo=CORE + '''
type one struct{}

func (one) Score(d types.IndexedDoc, f interface{}) []float32 { return []float32{1} }

func TestDemo(t *testing.T) {
	r := &Ranker{}
	r.Init(false)
	r.AddDoc("a", nil, "x", 1)
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			r.AddDoc("a", nil, "y", i)
		}
		close(done)
	}()
	for i := 0; i < 2000; i++ {
		r.Rank([]types.IndexedDoc{{DocId: "a"}}, types.RankOpts{ScoringCriteria: one{}}, false)
	}
	<-done
}
'''),
dict(id="C17-window", property="C17", pkg=".", root=1,
 edits=[("ranker_worker.go", "			request.options.MaxOutputs += request.options.OutputOffset\n", "			// the documents skipped are spread over all shards\n			request.options.MaxOutputs += request.options.OutputOffset / engine.initOptions.NumShards\n")],
 needs="several shards, an offset with a limit, and the documents to skip all in one shard",
 breaks="a shard hands over too few documents, so documents are lost from the page",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	var want string
	for i := 0; i < 4; i++ {
		id := demoID(i, 0, 2, "x")
		e.Index(id, types.DocData{Content: "x", Fields: float32(9 - i)})
		if i == 2 {
			want = id
		}
	}
	e.Flush()
	r := e.Search(types.SearchReq{Text: "x", RankOpts: &types.RankOpts{OutputOffset: 2, MaxOutputs: 1}})
	if got := demoIDs(r.Docs); got != want {
		t.Fatal(got, want)
	}
}
'''),
dict(id="C18-forced", property="C18", pkg=".", root=1,
 edits=[("segment.go", "				if i == shard {\n					continue\n				}", "				if i == shard {\n					// it has been told with the document\n					break\n				}")],
 needs="an addition that is to be visible at once, to a shard that is not the last",
 breaks="the later shards are not told, and every Flush that follows waits for them for ever",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	e.Index(demoID(1, 0, 2, "x"), types.DocData{Content: "x"}, true)
	done := make(chan bool)
	go func() { e.Flush(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Flush hangs")
	}
}
'''),
dict(id="C19-attri", property="C19", pkg=".", root=1,
 edits=[("ranker_worker.go", "		if engine.initOptions.IDOnly {\n", "		if engine.initOptions.IDOnly || (request.content == \"\" && request.attri == nil) {\n")],
 needs="a new version that has tokens but neither content nor attributes",
 breaks="the new version is returned with the content and attributes of the old one",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	e.Index("1", types.DocData{Content: "x", Attri: 5})
	e.Flush()
	e.Index("1", types.DocData{Tokens: []types.TokenData{{Text: "x", Locations: []int{0}}}})
	e.Flush()
	r := e.Search(types.SearchReq{Text: "x"})
	d := r.Docs.(types.ScoredDocs)
	if len(d) != 1 || d[0].Content != "" || d[0].Attri != nil {
		t.Fatal(d)
	}
}
'''),
dict(id="C20-late", property="C20", pkg=".", root=1,
 edits=[("engine.go", "		case <-time.After(deadline.Sub(time.Now())):\n			isTimeout = true\n			break\n		}\n	}\n\n	if idOnly {", "		case <-time.After(deadline.Sub(time.Now())):\n			isTimeout = numDocs == 0\n			break\n		}\n	}\n\n	if idOnly {")],
 needs="a deadline that one shard meets and the other misses",
 breaks="the partial answer is not marked as such",
 demo=ROOT + '''
type demoSlow struct{ id string }

func (s demoSlow) Score(d types.IndexedDoc, f interface{}) []float32 {
	if d.DocId == s.id {
		time.Sleep(3 * time.Second)
	}
	return []float32{1}
}

func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(2))
	a, b := demoID(1, 0, 2, "x"), demoID(2, 1, 2, "x")
	e.Index(a, types.DocData{Content: "x"})
	e.Index(b, types.DocData{Content: "x"})
	e.Flush()
	r := e.Search(types.SearchReq{Text: "x", Timeout: 1000, RankOpts: &types.RankOpts{ScoringCriteria: demoSlow{b}}})
	if demoIDs(r.Docs) != a || !r.Timeout {
		t.Fatal(r)
	}
}
'''),
dict(id="C21-label", property="C21", pkg=".", root=1,
 edits=[("segment.go", "			} else {\n				// 当正文中已存在关键字时，若不判断，位置信息将会丢失\n				if _, ok := tokensMap[label]; !ok {\n					tokensMap[label] = []int{}\n				}\n			}", "			} else {\n				tokensMap[label] = []int{}\n			}")],
 needs="a label that is also a word of the text",
 breaks="the word loses its positions and its frequency",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	e.Index("1", types.DocData{Content: "x", Labels: []string{"x"}})
	e.Flush()
	r := e.Search(types.SearchReq{Text: "x"})
	d := r.Docs.(types.ScoredDocs)
	if len(d) != 1 || len(d[0].TokenLocs) != 1 || len(d[0].TokenLocs[0]) == 0 {
		t.Fatal(d)
	}
}
'''),
dict(id="C22-remove", property="C22", pkg=".", root=1,
 edits=[("engine.go", "		// 从数据库中删除\n		hash := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)", "		// 从数据库中删除\n		hash := murmur.Sum32(docId) % uint32(utils.MinInt(engine.initOptions.StoreShards, engine.initOptions.NumShards))")],
 needs="more store shards than shards, and a restart",
 breaks="a removal goes to another database than the document is in, so it is back after a restart",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	o := demoOpts(1)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, dir, 3, "ldb"
	var e Engine
	e.Init(o)
	for i := 0; i < 9; i++ {
		e.Index(fmt.Sprint("d", i), types.DocData{Content: "x"})
	}
	e.Flush()
	for i := 0; i < 9; i++ {
		e.RemoveDoc(fmt.Sprint("d", i))
	}
	e.Close()
	var f Engine
	f.Init(o)
	f.Flush()
	r := f.Search(types.SearchReq{Text: "x"})
	if r.NumDocs != 0 {
		t.Fatal(r)
	}
	f.Close()
}
'''),
dict(id="C22-ack", property="C22", pkg=".", root=1,
 edits=[("store_worker.go", "		engine.dbs[shard].Set(b, buf.Bytes())\n\n		atomic.AddUint64(&engine.numDocsStored, 1)", "		atomic.AddUint64(&engine.numDocsStored, 1)\n		engine.dbs[shard].Set(b, buf.Bytes())")],
 needs="a crash, or a search of the stored ids, after Flush returned and before the write is done",
 breaks="Flush does not wait for the last write to the store",
 demo=ROOT + '''
type demoStore struct {
	store.Store
}

func (s demoStore) Set(k, v []byte) error {
	time.Sleep(2 * time.Second)
	return s.Store.Set(k, v)
}

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	store.RegisterStore("demo", func(p string) (store.Store, error) {
		s, err := store.OpenStore(p, "ldb")
		return demoStore{s}, err
	})
	o := demoOpts(1)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, dir, 1, "demo"
	var e Engine
	e.Init(o)
	e.Index("a", types.DocData{Content: "x"})
	e.Flush()
	if !e.HasDocDB("a") {
		t.Fatal("not stored")
	}
	e.Close()
}
'''),
dict(id="C23-empty", property="C23", pkg="core",
 edits=[("core/indexer.go", "	// 当没有找到时直接返回\n	if len(table) == 0 {\n		return\n	}\n\n	// 归并", "	// 归并")],
 needs="a query without tokens and labels on an index that has documents",
 breaks="it crashes",
 demo=CORE + '''
func TestDemo(t *testing.T) {
	ix := index(types.DocIdsIndex, 100)
	add(ix, "a", 1, kw("x", 1))
	flush(ix)
	if d, n := ix.Lookup(nil, nil, nil, false); len(d) != 0 || n != 0 {
		t.Fatal(d, n)
	}
}
'''),
dict(id="C24-none", property="C24", pkg="net/grpc", root=1,
 edits=[("net/grpc/search.go", "		if len(docs) > maxOutputs {", "		if len(rpcdata) == len(config.Rpc.DistPort) && len(docs) > maxOutputs {")],
 needs="three nodes, one of which fails, the others return more than the limit together",
 breaks="the answer is not cut off at the limit",
 demo='''
package grpc

import (
	"net"
	"testing"

	"github.com/go-vgo/zlog/zlog"
	"golang.org/x/net/context"
	"google.golang.org/grpc"

	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

type node struct{ id string }

func (n *node) HeartBeat(ctx context.Context, in *pb.HeartReq) (*pb.Reply, error) { return &pb.Reply{}, nil }
func (n *node) DocInx(ctx context.Context, in *pb.DocReq) (*pb.Reply, error)      { return &pb.Reply{}, nil }
func (n *node) Delete(ctx context.Context, in *pb.DeleteReq) (*pb.Reply, error)   { return &pb.Reply{}, nil }
func (n *node) Search(ctx context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	return &pb.SearchReply{Len: 1, Docs: []*pb.Text{{Id: n.id, Attri: &pb.Attri{Ts: 1}}}}, nil
}

func TestDemo(t *testing.T) {
	zlog.InitDev()
	config = com.Config{}
	for _, id := range []string{"a", "b"} {
		lis, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		s := grpc.NewServer()
		pb.RegisterGreeterServer(s, &node{id})
		go s.Serve(lis)
		defer s.Stop()
		config.Rpc.DistPort = append(config.Rpc.DistPort, lis.Addr().String())
	}
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	config.Rpc.DistPort = append(config.Rpc.DistPort, lis.Addr().String())
	lis.Close()
	rep, err := (&eserver{}).Search(context.Background(), &pb.SearchReq{Query: "x", MaxOutputs: 1})
	if err != nil || len(rep.Docs) != 1 || rep.Len != 1 || rep.Docs[0].Id != "b" {
		t.Fatal(rep, err)
	}
}
'''),
dict(id="C25-locs", property="C25", pkg="net/grpc", root=1,
 edits=[("net/grpc/grpc.go", "	for i := 0; i < len(in.Tokens); i++ {\n		var loc []int\n		inloc", "	var loc []int\n	for i := 0; i < len(in.Tokens); i++ {\n		loc = loc[:0]\n		inloc")],
 needs="two tokens with positions in one request",
 breaks="the tokens share one array, so the first gets the positions of the second",
 demo='''
package grpc

import (
	"io/ioutil"
	"os"
	"reflect"
	"testing"

	"github.com/go-ego/riot/net/com"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/go-ego/riot/types"
)

func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	com.Searcher.Init(types.EngineOpts{NotUseGse: true, NumShards: 1, IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex}})
	addDoc(&pb.DocReq{DocId: "1", Tokens: []*pb.TokenData{{Text: "x", Locations: []int32{1, 5}}, {Text: "y", Locations: []int32{2, 7}}}})
	com.Flush()
	r := com.Searcher.Search(types.SearchReq{Tokens: []string{"x", "y"}})
	d := r.Docs.(types.ScoredDocs)
	if len(d) != 1 || !reflect.DeepEqual(d[0].TokenLocs, [][]int{{1, 5}, {2, 7}}) {
		t.Fatal(d)
	}
}
'''),
dict(id="C25-force", property="C25", pkg="net/com", root=1,
 edits=[("net/com/search.go", "	Searcher.Index(docId, data, forceUpdate)", "	Searcher.Index(docId, data)")],
 needs="a request to index at once, no flush afterwards",
 breaks="the document is not found until something else flushes the cache",
 demo='''
package com

import (
	"testing"
	"time"

	"github.com/go-ego/riot/types"
)

func TestDemo(t *testing.T) {
	Searcher.Init(types.EngineOpts{NotUseGse: true, NumShards: 1, IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 100}})
	AddDocInx("1", types.DocData{Content: "x"}, true)
	for i := 0; i < 100; i++ {
		time.Sleep(50 * time.Millisecond)
		if Searcher.Search(types.SearchReq{Text: "x"}).NumDocs == 1 {
			return
		}
	}
	t.Fatal("not found")
}
'''),
dict(id="C26-result", property="C26", pkg="net/heartb", root=1,
 edits=[("net/heartb/heart.go", "	if r.Result != 1 {", "	if r.Result <= 0 {")],
 needs="a server that answers with a number above one",
 breaks="its wrong answers are not counted as failures",
 demo='''
package hb

import (
	"testing"

	"golang.org/x/net/context"
	"google.golang.org/grpc"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
)

type client struct{ pb.GreeterClient }

func (client) HeartBeat(ctx context.Context, in *pb.HeartReq, opts ...grpc.CallOption) (*pb.Reply, error) {
	return &pb.Reply{Result: 2}, nil
}

func TestDemo(t *testing.T) {
	heart(client{})
	if rpc != 1 {
		t.Fatal(rpc)
	}
}
'''),
]
