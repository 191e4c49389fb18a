package h_net

import (
	"os"
	"sort"
	"strconv"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

// mem is a store that keeps what it is given as long as the process runs.
type mem struct {
	path string
	data map[string][]byte
}

var opened = map[string]*mem{}

func openMem(path string) (store.Store, error) {
	if opened[path] == nil {
		opened[path] = &mem{path, map[string][]byte{}}
	}
	return opened[path], nil
}

func (m *mem) Set(k, v []byte) error {
	m.data[string(k)] = append([]byte(nil), v...)
	return nil
}
func (m *mem) Get(k []byte) ([]byte, error) { return m.data[string(k)], nil }
func (m *mem) Delete(k []byte) error        { delete(m.data, string(k)); return nil }
func (m *mem) Has(k []byte) (bool, error)   { _, ok := m.data[string(k)]; return ok, nil }
func (m *mem) ForEach(fn func(k, v []byte) error) error {
	var ks []string
	for k := range m.data {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if err := fn([]byte(k), m.data[k]); err != nil {
			return err
		}
	}
	return nil
}
func (m *mem) Close() error    { return nil }
func (m *mem) WALName() string { return m.path }

//vsym:harness prop=C31 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds InitEngine of the services with folder, store engine, number of stores and of shards, splitting rule, dictionary and stop words given or not, in every combination
//vsym:assume the dictionary is empty
//vsym:reach end
func InitEngine() {
	os.Chdir(vsym.TempDir())
	store.RegisterStore("mem", openMem)
	folder, stores, shards := "./riot-index", 10, 10
	var c com.Config
	if vsym.Bool("folder") {
		folder = "other"
		c.Engine.StoreFolder = folder
	}
	if vsym.Bool("stores") {
		stores = 2
		c.Engine.StoreShards = stores
	}
	if vsym.Bool("shards") {
		shards = 3
		c.Engine.NumShards = shards
	}
	if vsym.Bool("engine") {
		c.Engine.StoreEngine = "mem"
	} else {
		store.RegisterStore("ldb", openMem)
	}
	if vsym.Bool("dict") {
		c.Engine.GseDict = "en"
	}
	c.Engine.Using = 4 * vsym.Choice("using", 2)
	stop := vsym.Bool("stop")
	if stop {
		c.Engine.StopTokenFile = engmodel.StopFile("y\n")
	}
	com.InitEngine(c)
	e := &com.Searcher
	vsym.Assert(len(opened) == stores, "the service has another number of stores")
	for i := 0; i < stores; i++ {
		vsym.Assert(opened[folder+"/"+riot.StoreFilePrefix+"."+strconv.Itoa(i)] != nil, "a store is not where it was asked for")
	}
	e.Index("1", types.DocData{Content: "x y", Attri: types.Attri{Ts: 1}})
	e.RemoveDoc("other")
	e.Flush()
	vsym.Assert(e.NumRemoved() == uint64(shards), "the service has another number of shards")
	vsym.Assert(e.HasDocDB("1"), "the service does not store")
	n := func(w string) int { return e.Search(types.SearchReq{Tokens: []string{w}}).NumDocs }
	vsym.Assert(n("x") == 1, "a document is not found")
	vsym.Assert((n("y") == 1) == !stop, "the stop words are not those configured")
	vsym.Assert((n("xy") == 1) == (c.Engine.Using == 4), "the splitting rule is not the one configured")
	vsym.Reach("end")
}
