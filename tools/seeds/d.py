CORE = open("/verif/tools/seeds/a.py").read().split("CORE = '''")[1].split("'''")[0]
ROOT = '''package riot

import (
	"fmt"
	"io/ioutil"
	"os"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/go-ego/murmur"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
)

var _ = fmt.Sprint
var _ = ioutil.TempDir
var _ = os.RemoveAll
var _ = time.Now
var _ = murmur.Sum32
var _ = store.OpenStore

type demoScore struct{}

func (demoScore) Score(d types.IndexedDoc, f interface{}) []float32 {
	if v, ok := f.(float32); ok {
		return []float32{v}
	}
	return []float32{1}
}

func demoOpts(shards int) types.EngineOpts {
	return types.EngineOpts{NotUseGse: true, NumShards: shards,
		DefRankOpts: &types.RankOpts{ScoringCriteria: demoScore{}},
		IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex}}
}

// demoID returns an id that a document with the content gets into the shard
func demoID(n, shard, shards int, content string) string {
	for i := 0; ; i++ {
		id := fmt.Sprintf("d%d-%d", n, i)
		if int(murmur.Sum32(fmt.Sprintf("%s%s", id, content)))%shards == shard {
			return id
		}
	}
}

func demoIDs(docs interface{}) string {
	var r []string
	if d, ok := docs.(types.ScoredDocs); ok {
		for _, x := range d {
			r = append(r, x.DocId)
		}
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}
'''
SEEDS = [
dict(id="C30-stop", property="C30", pkg=".", root=1,
 edits=[("segment.go", "		if !engine.stopTokens.IsStopToken(pyStr) {\n			strArr = append(strArr, pyStr)\n		}\n", "		if engine.stopTokens.IsStopToken(pyStr) {\n			continue\n		}\n		strArr = append(strArr, pyStr)\n")],
 needs="a text whose leading syllables are a stop word",
 breaks="the initial of that syllable is left out, so the document is not found by its initials",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	f, err := ioutil.TempFile("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.Write([]byte{122, 97, 105, 10})
	f.Close()
	var e Engine
	o := demoOpts(1)
	o.NotUseGse, o.GseDict, o.PinYin, o.StopTokenFile = false, "zh", true, f.Name()
	e.Init(o)
	e.Index("1", types.DocData{Content: "在路上"})
	e.Flush()
	if got := demoIDs(e.Search(types.SearchReq{Tokens: []string{"zls"}}).Docs); got != "1" {
		t.Fatal(got)
	}
}
'''),
dict(id="C31-shards", property="C31", pkg=".", root=1,
 edits=[("riot.go", "	shard := murmur.Sum32(docId) % uint32(engine.initOptions.StoreShards)\n\n	has, err", "	shard := murmur.Sum32(docId) % uint32(len(engine.indexers))\n	if shard >= uint32(len(engine.dbs)) {\n		return false\n	}\n\n	has, err")],
 needs="another number of stores than of shards, and a document that goes to another store by the one than by the other",
 breaks="HasDocDB looks into the wrong store",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	o := demoOpts(2)
	o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, dir, 3, "bolt"
	var e Engine
	e.Init(o)
	for i := 0; i < 12; i++ {
		e.Index(fmt.Sprint(i+1), types.DocData{Content: "x"})
	}
	e.Flush()
	for i := 0; i < 12; i++ {
		if !e.HasDocDB(fmt.Sprint(i + 1)) {
			t.Fatal(i + 1)
		}
	}
	e.Close()
}
'''),
dict(id="C32-options", property="C32", pkg=".", root=1, flags="-race",
 edits=[("engine.go", "		rankOpts = *request.RankOpts\n	}\n\n	if rankOpts.ScoringCriteria == nil {\n		rankOpts.ScoringCriteria = engine.initOptions.DefRankOpts.ScoringCriteria\n	}\n", "		if request.RankOpts.ScoringCriteria == nil {\n			request.RankOpts.ScoringCriteria = engine.initOptions.DefRankOpts.ScoringCriteria\n		}\n		rankOpts = *request.RankOpts\n	}\n")],
 needs="two clients that search at the same time with the same options, which name no scoring rule",
 breaks="both write the options they share",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	e.Index("1", types.DocData{Content: "x"})
	e.Flush()
	for i := 0; i < 200; i++ {
		o := &types.RankOpts{}
		done := make(chan bool)
		go func() {
			e.Search(types.SearchReq{Text: "x", RankOpts: o})
			done <- true
		}()
		e.Search(types.SearchReq{Text: "x", RankOpts: o})
		<-done
	}
}
'''),
dict(id="C33-names", property="C33", pkg="net/heartb",
 edits=[("net/heartb/heart.go", "	if len(req.Form[\"name\"]) > 0 {\n		name = req.Form[\"name\"][0]\n	}\n	kill(name)\n", "	if len(req.Form[\"name\"]) > 0 {\n		name = req.Form[\"name\"][0]\n	}\n	for _, n := range strings.Fields(name) {\n		kill(n)\n	}\n"), ("net/heartb/heart.go", "	\"os/exec\"\n", "	\"os/exec\"\n	\"strings\"\n")],
 needs="the restart page asked for a server whose name has a blank",
 breaks="every server named like a word of it is ended instead",
 demo='''package hb

import (
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "killall"), []byte("#!/bin/sh\\nfor a; do echo \\"$a\\" >> "+dir+"/killed; done\\n"), 0755)
	t.Setenv("PATH", dir)
	RestartSer(httptest.NewRecorder(), httptest.NewRequest("GET", "/restart?name=my+server", nil))
	b, _ := os.ReadFile(filepath.Join(dir, "killed"))
	if string(b) != "-9\\n--\\nmy server\\n" && string(b) != "-9\\nmy server\\n" {
		t.Fatalf("%q", b)
	}
}
'''),
dict(id="C34-delpage", property="C34", pkg="net/http", root=1,
 edits=[("net/http/http.go", "	docid := req.URL.Query().Get(\"docid\")\n", "	req.ParseForm()\n	docid := req.Form[\"docid\"][0]\n")],
 needs="a request to the page that removes a document which names none",
 breaks="the page panics and does not reply",
 demo='''package http

import (
	"net/http/httptest"
	"testing"

	"github.com/go-ego/riot/net/com"
	"github.com/go-ego/riot/types"
)

func TestDemo(t *testing.T) {
	com.Searcher.Init(types.EngineOpts{NotUseGse: true})
	DelIndex(httptest.NewRecorder(), httptest.NewRequest("GET", "/del", nil))
}
'''),
dict(id="C34-locs", property="C34", pkg=".", root=1,
 edits=[("segment.go", "			tokensMap, numTokens = engine.defaultTokens(content)\n		}\n\n		for _, t := range request.data.Tokens {\n			if !engine.stopTokens.IsStopToken(t.Text) {\n", "			tokensMap, numTokens = engine.defaultTokens(content)\n		}\n\n		for _, t := range request.data.Tokens {\n			if !engine.stopTokens.IsStopToken(t.Text) && t.Locations[0] >= 0 {\n")],
 needs="a document with a keyword that comes without positions",
 breaks="the worker that cuts documents into words panics, which ends the process",
 demo=ROOT + '''
func TestDemo(t *testing.T) {
	var e Engine
	e.Init(demoOpts(1))
	e.Index("1", types.DocData{Content: "x", Tokens: []types.TokenData{{Text: "y"}}})
	e.Flush()
}
'''),
]
