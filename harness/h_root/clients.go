package h_root

import (
	"sort"
	"sync"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// A shelf is a store for any number of goroutines.
type shelf struct {
	sync.Mutex
	path string
	data map[string][]byte
}

func openShelf(path string) (store.Store, error) {
	return &shelf{path: path, data: map[string][]byte{}}, nil
}

func (s *shelf) Set(k, v []byte) error {
	s.Lock()
	defer s.Unlock()
	s.data[string(k)] = append([]byte(nil), v...)
	return nil
}

func (s *shelf) Get(k []byte) ([]byte, error) {
	s.Lock()
	defer s.Unlock()
	return s.data[string(k)], nil
}

func (s *shelf) Delete(k []byte) error {
	s.Lock()
	defer s.Unlock()
	delete(s.data, string(k))
	return nil
}

func (s *shelf) Has(k []byte) (bool, error) {
	s.Lock()
	defer s.Unlock()
	_, ok := s.data[string(k)]
	return ok, nil
}

func (s *shelf) ForEach(fn func(k, v []byte) error) error {
	s.Lock()
	var ks []string
	m := map[string][]byte{}
	for k, v := range s.data {
		ks = append(ks, k)
		m[k] = v
	}
	s.Unlock()
	sort.Strings(ks)
	for _, k := range ks {
		if err := fn([]byte(k), m[k]); err != nil {
			return err
		}
	}
	return nil
}

func (s *shelf) Close() error    { return nil }
func (s *shelf) WALName() string { return s.path }

// A crowd is what two clients of one engine do.
type crowd struct {
	e      *riot.Engine
	idOnly bool
	stored bool
	maybe  [3]map[int]bool // versions each document may have; -1 for none
	opts   *types.RankOpts
	attri  [9]int
}

var crowdIDs = []string{"1", "2", "3"}

// text of version v: all have x, w and v; score 10*document+version
func (c *crowd) doc(i, v int) types.DocData {
	return types.DocData{Content: []string{"x w v", "x w v y", "x w v y z"}[v], Labels: []string{"l"}, Fields: float32(10*i + v), Attri: c.attri[3*i+v]}
}

// saw checks a result of a search for x.
func (c *crowd) saw(r types.SearchResp, only []bool, reverse bool) {
	h := hits(r)
	n := [3]int{}
	for k, x := range h {
		i := index(crowdIDs, x.id)
		vsym.Assert(i >= 0 && (only == nil || only[i]), "a document is returned that was not asked for")
		n[i]++
		vsym.Assert(len(x.score) == 1, "a document has no score")
		v := int(x.score[0]) - 10*i
		vsym.Assert(v >= 0 && c.maybe[i][v], "a document is scored with data it never had")
		vsym.Assert(c.idOnly || x.content == c.doc(i, v).Content && x.attri == c.attri[3*i+v], "a document is returned in parts of two versions")
		vsym.Assert(k == 0 || (h[k-1].score[0] > x.score[0]) == !reverse, "the results are not sorted")
	}
	for i := range n {
		must := only == nil || only[i]
		for v := range c.maybe[i] {
			must = must && v >= 0
		}
		vsym.Assert(n[i] <= 1, "a document is returned twice")
		// a document that is replaced may be missed meanwhile
		if must && len(c.maybe[i]) == 1 {
			vsym.Assert(n[i] == 1, "a document nobody touches is not found")
		}
	}
}

func (c *crowd) do(k int) {
	switch k {
	case 0:
		c.e.Index("3", c.doc(2, 0))
	case 1:
		c.e.Index("1", c.doc(0, 1), true)
	case 2:
		c.e.RemoveDoc("2")
	case 3:
		c.saw(c.e.Search(types.SearchReq{Text: "x"}), nil, false)
	case 4:
		c.saw(c.e.Search(types.SearchReq{Text: "x w v", Labels: []string{"l"}, DocIds: map[string]bool{"1": true, "2": true}, RankOpts: c.opts}), []bool{true, true, false}, true)
	case 5:
		c.e.Flush()
	case 6:
		has := c.e.HasDoc("1")
		vsym.Assert(has || len(c.maybe[0]) > 1, "a document that is there is said not to be")
		if c.stored {
			vsym.Assert(c.e.HasDocDB("1"), "a document that is stored is said not to be")
		}
		c.e.NumDocsIndexed()
		c.e.NumRemoved()
		c.e.NumTokenAdded()
	case 7:
		ids, docs := c.e.GetDBAllDocs()
		vsym.Assert(len(ids) == len(docs), "the lists of stored ids and documents differ")
		for k, id := range ids {
			i := index(crowdIDs, id)
			vsym.Assert(i >= 0, "an unknown document is stored")
			v := int(docs[k].Fields.(float32)) - 10*i
			vsym.Assert(v >= 0 && c.maybe[i][v], "a document is stored with data it never had")
			vsym.Assert(docs[k].Attri == c.attri[3*i+v], "a document is stored in parts of two versions")
		}
	}
}

//vsym:harness prop=C32 tier=quick,thorough time=150 ttime=800 sched=delay pre=1 race=1 root=1
//vsym:bounds an engine of 1..2 shards with two documents, id-only or full, with storage or not; two clients at once, each one of: add a document, update one and force it, remove one, search for all, search for some by three words (whose list of tokens has room for more) and a label in reverse order with options both clients share, flush, ask whether a document is indexed and stored and for the counters, list what is stored (two workers of a kind when both search); then a flush and a search; every schedule with up to 1 delay at channel, lock and counter operations, happens-before race detection; arbitrary attributes
//vsym:assume an addition and a removal of one id do not run at once
//vsym:reach end
func Clients() { clients(1) }

//vsym:harness prop=C32 tier=quick,thorough time=150 ttime=800 sched=switch pre=1 race=1 root=1
//vsym:bounds as Clients, every schedule with up to 1 preemption in favour of any goroutine, a preempted goroutine staying behind the others
//vsym:assume an addition and a removal of one id do not run at once
//vsym:reach end
func ClientsPreempted() { clients(1) }

//vsym:harness prop=C32 tier=thorough ttime=900 sched=delay pre=2 race=1 root=1
//vsym:bounds as Clients, up to 2 delays
//vsym:assume an addition and a removal of one id do not run at once
//vsym:reach end
func ClientsDelayed() { clients(2) }

func clients(budget int) {
	vsym.Budget(0)
	o := options(1+vsym.Choice("shards", 2), vsym.Bool("idOnly"))
	c := &crowd{idOnly: o.IDOnly, stored: vsym.Bool("store"), opts: &types.RankOpts{ReverseOrder: true}}
	if c.stored {
		store.RegisterStore("shelf", openShelf)
		o.UseStore, o.StoreFolder, o.StoreShards, o.StoreEngine = true, vsym.TempDir(), 2, "shelf"
	}
	n := 7
	if c.stored {
		n = 8
	}
	a, b := vsym.Choice("a", n), vsym.Choice("b", n)
	vsym.Assume(a <= b || vsym.Tier() > 0) // the two clients may be called so
	if (a == 3 || a == 4) && (b == 3 || b == 4) {
		o.NumIndexerThreads, o.NumRankerThreads = 2, 2
	}
	c.e = start(o)
	for i := range c.attri {
		c.attri[i] = vsym.AnyInt("attri")
	}
	c.maybe = [3]map[int]bool{{0: true}, {0: true}, {-1: true}}
	c.e.Index("1", c.doc(0, 0))
	c.e.Index("2", c.doc(1, 0))
	c.e.Flush()
	for _, k := range []int{a, b} {
		switch k {
		case 0:
			c.maybe[2][0] = true
		case 1:
			c.maybe[0][1] = true
		case 2:
			c.maybe[1][-1] = true
		}
	}
	vsym.Budget(budget)
	done := make(chan bool)
	go func() {
		c.do(a)
		done <- true
	}()
	c.do(b)
	<-done
	c.e.Flush()
	vsym.Budget(0)
	if a == 0 || b == 0 {
		delete(c.maybe[2], -1)
	}
	if a == 1 || b == 1 {
		delete(c.maybe[0], 0)
	}
	if a == 2 || b == 2 {
		delete(c.maybe[1], 0)
	}
	c.do(3)
	c.do(4)
	c.do(6)
	vsym.Assert(c.e.HasDoc("2") == !c.maybe[1][-1] && c.e.HasDoc("3") == c.maybe[2][0], "after a flush HasDoc is wrong")
	if c.stored {
		c.do(7)
	}
	vsym.Reach("end")
}
