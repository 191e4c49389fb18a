package h_core

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

var keys = []string{"k0", "k1", "k2"}

// corpus is what was indexed: the keys of every document.
type corpus struct {
	ids  []string
	keys [][]string
}

func (c *corpus) add(ix *core.Indexer, id string, ks []string) {
	d := &types.DocIndex{DocId: id, TokenLen: float32(2 + len(c.ids))}
	for k, t := range ks {
		d.Keywords = append(d.Keywords, types.KeywordIndex{Text: t, Frequency: 1, Starts: []int{k * 3}})
	}
	c.ids = append(c.ids, id)
	c.keys = append(c.keys, ks)
	ix.AddDocToCache(d, false)
}

// build indexes documents whose membership in each key list is arbitrary.
func build(ix *core.Indexer, ids []string, nkeys int) corpus {
	c := corpus{}
	for _, id := range ids {
		var ks []string
		for k := 0; k < nkeys; k++ {
			if vsym.Bool("has_" + id + keys[k]) {
				ks = append(ks, keys[k])
			}
		}
		c.add(ix, id, ks)
	}
	ix.AddDocToCache(nil, true)
	return c
}

// buildSym indexes n documents with arbitrary distinct ids, each holding one
// or two arbitrary distinct keys.
func buildSym(ix *core.Indexer, n int, symIds bool) corpus {
	c := corpus{}
	for i := 0; i < n; i++ {
		id := string(rune('a' + (i*2)%3))
		if symIds {
			id = symID("id")
			for _, o := range c.ids {
				vsym.Assume(o != id)
			}
		}
		ks := []string{vsym.Str("key", 1, 1)}
		if i != 1 {
			k2 := vsym.Str("key", 1, 1)
			vsym.Assume(k2 != ks[0])
			ks = append(ks, k2)
		}
		c.add(ix, id, ks)
	}
	ix.AddDocToCache(nil, true)
	return c
}

func (c corpus) hasKey(i int, key string) bool {
	r := false
	for _, k := range c.keys[i] {
		r = vsym.Or(r, k == key)
	}
	return r
}

func (c corpus) hasAll(i int, ks []string) bool {
	r := true
	for _, k := range ks {
		r = vsym.And(r, c.hasKey(i, k))
	}
	return r
}

func (c corpus) hasAny(i int, ks []string) bool {
	r := false
	for _, k := range ks {
		r = vsym.Or(r, c.hasKey(i, k))
	}
	return r
}

// occurs counts how often id is in the results, without branching.
func occurs(docs []types.IndexedDoc, id string) int {
	n := 0
	for i := range docs {
		n += vsym.IteInt(docs[i].DocId == id, 1, 0)
	}
	return n
}

func allowed(allow map[string]bool, id string) bool {
	if allow == nil {
		return true
	}
	_, ok := allow[id]
	return ok
}

// checkResults compares a result list with the documents that should be in it.
func checkResults(c corpus, want []bool, docs []types.IndexedDoc, num int, count int) {
	total := 0
	for i, id := range c.ids {
		n := occurs(docs, id)
		vsym.Assert(vsym.Implies(want[i], n >= 1), "a matching document is missing from the results")
		vsym.Assert(vsym.Implies(want[i], n <= 1), "a document is returned more than once")
		vsym.Assert(vsym.Implies(!want[i], n == 0), "a document that does not match, or is not allowed, is returned")
		total += vsym.IteInt(want[i], 1, 0)
	}
	vsym.Assert(len(docs) == total, "a result is not a known document")
	vsym.Assert(num == total, "the reported count differs from the number of matches")
	vsym.Assert(count == total, "a count-only query disagrees with the full query")
	if len(docs) > 0 {
		vsym.Reach("match")
	}
	vsym.Observe("num", num)
	vsym.Observe("len", len(docs))
}

func inOrder(n int) []string {
	all := [][]string{{"1", "10", "100", "11", "2", "20", "9"}, {"9", "20", "2", "11", "100", "10", "1"}, {"11", "10", "20", "1", "2", "9", "100"}}
	return all[vsym.Choice("order", 3)][:n]
}

func restriction(ids []string) map[string]bool {
	if vsym.Bool("restrict") {
		m := map[string]bool{"zz": true}
		for _, id := range ids {
			if vsym.Bool("allow_" + id) {
				// the value is documented to be ignored
				m[id] = id != ids[0]
			}
		}
		return m
	}
	return nil
}

func checkAnd(ix *core.Indexer, c corpus, tokens, labels []string, allow map[string]bool) {
	docs, num := ix.Lookup(tokens, labels, allow, false)
	cdocs, count := ix.Lookup(tokens, labels, allow, true)
	vsym.Assert(len(cdocs) == 0, "a count-only query returns documents")
	want := make([]bool, len(c.ids))
	for i, id := range c.ids {
		want[i] = vsym.And(allowed(allow, id), c.hasAll(i, tokens), c.hasAll(i, labels))
	}
	checkResults(c, want, docs, num, count)
	for i := 1; i < len(docs); i++ {
		vsym.Assert(docs[i-1].DocId > docs[i].DocId, "results are not in descending id order")
	}
}

//vsym:harness prop=C02 tier=quick,thorough time=60 ttime=300
//vsym:bounds 3 documents with arbitrary distinct ids (one byte) each holding one or two arbitrary keys (one byte); arbitrary query of one or two keys split over tokens and labels; cache 1,2,100; the three index types (thorough also arbitrary DocIds restriction)
//vsym:reach match end
func AndSym() {
	it := vsym.Choice("indexType", 3)
	cache := []int{2, 100, 1}[vsym.Choice("cache", 2+vsym.Tier())]
	ix := newIndexer(it, cache)
	c := buildSym(ix, 3, true)
	q := []string{vsym.Str("q", 1, 1), vsym.Str("q", 1, 1)}
	switch vsym.Choice("shape", 3) {
	case 0:
		checkAnd(ix, c, q, nil, nil)
	case 1:
		checkAnd(ix, c, q[:1], q[1:], nil)
	case 2:
		checkAnd(ix, c, q[:1], nil, map[string]bool{c.ids[0]: false, c.ids[2]: true})
	}
	vsym.Reach("end")
}

//vsym:harness prop=C02 tier=quick,thorough time=60
//vsym:bounds 3 documents with arbitrary membership in 3 key lists, cache 1,100, insertion order b c a (thorough also descending, ascending), the three index types, 10 query shapes of tokens and labels, arbitrary DocIds restriction
//vsym:reach match end
func AndSmall() {
	ix := newIndexer(vsym.Choice("indexType", 3), []int{1, 100}[vsym.Choice("cache", 2)])
	ids := [][]string{{"10", "2", "1"}, {"2", "10", "1"}, {"1", "10", "2"}}[vsym.Choice("order", 1+2*vsym.Tier())]
	c := build(ix, ids, 3)
	q := vsym.Choice("query", 11)
	tokens := [][]string{{"k0"}, {"k0", "k1"}, {"k1", "k0"}, {"k0", "k1", "k2"}, {"k2", "k0", "k1"}, nil, nil, {"k0"}, {"k0", "k1"}, {"none"}, {"k0", "none"}}[q]
	labels := [][]string{nil, nil, nil, nil, nil, {"k0"}, {"k1", "k2"}, {"k1"}, {"k2"}, nil, nil}[q]
	checkAnd(ix, c, tokens, labels, restriction(ids))
	vsym.Reach("end")
}

//vsym:harness prop=C02 tier=quick,thorough time=60 ttime=400
//vsym:bounds 6 documents (thorough 7) added in 3 orders, cache 1,3,100, arbitrary membership in 2 key lists, conjunction of both; 5 documents with an arbitrary restriction
//vsym:reach match end
func AndWide() {
	n := 6
	if vsym.Tier() > 0 {
		n = 7
	}
	ix := newIndexer(types.DocIdsIndex, []int{1, 3, 100}[vsym.Choice("cache", 3)])
	restrict := vsym.Bool("restricted")
	if restrict {
		n--
	}
	ids := inOrder(n)
	var allow map[string]bool
	if restrict {
		allow = map[string]bool{}
		for _, id := range ids {
			if vsym.Bool("allow_" + id) {
				allow[id] = true
			}
		}
	}
	c := build(ix, ids, 2)
	checkAnd(ix, c, []string{"k0", "k1"}, nil, allow)
	vsym.Reach("end")
}

// Long conjunctions, in every order of list lengths.
//
//vsym:harness prop=C02 tier=quick,thorough time=60 ttime=300
//vsym:bounds conjunctions of 3..6 keys split in every way over tokens and labels; two (thorough three) documents with arbitrary membership in the keys of one to four of the lists and none to all of the others, among 4 others that hold all keys or every second; index without or with positions
//vsym:reach match end
func AndLong() {
	n := 3 + vsym.Choice("keys", 4)
	keys := []string{"a", "b", "c", "d", "e", "f"}[:n]
	ix := newIndexer([]int{types.DocIdsIndex, types.LocsIndex}[vsym.Choice("locs", 2)], 100)
	var c corpus
	every := func(step, at int) (r []string) {
		for i := at; i < n; i += step {
			r = append(r, keys[i])
		}
		return r
	}
	some := func(name string) (r []string) {
		for i, k := range keys {
			if i < 4 && vsym.Bool(name+k) || i >= 4 && name == "x" {
				r = append(r, k)
			}
		}
		return r
	}
	c.add(ix, "5", every(1, 0))
	c.add(ix, "4", some("x"))
	c.add(ix, "2", every(2, 0))
	c.add(ix, "7", every(2, 1))
	c.add(ix, "6", some("x2"))
	c.add(ix, "1", every(1, 0))
	if vsym.Tier() > 0 {
		c.add(ix, "0a", some("x3"))
	}
	ix.AddDocToCache(nil, true)
	q := append([]string{}, keys...)
	if vsym.Bool("turned") {
		for i := range q {
			q[i] = keys[n-1-i]
		}
	}
	at := vsym.Choice("labels", n+1)
	checkAnd(ix, c, q[:at], q[at:], nil)
	vsym.Reach("end")
}

func exprChoice(name string, opts [][]string) []string { return opts[vsym.Choice(name, len(opts))] }

func matchLogic(c corpus, i int, query []string, l types.Logic) bool {
	must, should, notIn := l.Expr.Must, l.Expr.Should, l.Expr.NotIn
	if len(must) == 0 && l.Must {
		must = query
	}
	if len(should) == 0 && l.Should {
		should = query
	}
	if len(notIn) == 0 && l.NotIn {
		notIn = query
	}
	m := c.hasAll(i, must)
	if len(should) > 0 {
		m = vsym.And(m, c.hasAny(i, should))
	}
	return vsym.And(m, !c.hasAny(i, notIn))
}

func checkLogic(ix *core.Indexer, c corpus, query, labels []string, l types.Logic, allow map[string]bool) {
	docs, num := ix.Lookup(query, labels, allow, false, l)
	_, count := ix.Lookup(query, labels, allow, true, l)
	all := append(append([]string{}, query...), labels...)
	want := make([]bool, len(c.ids))
	for i, id := range c.ids {
		want[i] = vsym.And(allowed(allow, id), matchLogic(c, i, all, l))
	}
	checkResults(c, want, docs, num, count)
}

//vsym:harness prop=C03 tier=quick,thorough time=60 ttime=300
//vsym:bounds 3 documents each holding one or two arbitrary keys (one byte); every combination of Must/Should/NotIn given by flag or by an arbitrary one- or two-key expression; arbitrary query key
//vsym:assume every active clause has at least one key and at least one of Must and Should is active (an expression of only NotIn is not a documented query)
//vsym:reach match end
func LogicSym() {
	ix := newIndexer(types.DocIdsIndex, 100)
	var l types.Logic
	k := func() string { return vsym.Str("e", 1, 1) }
	switch vsym.Choice("shape", 9) {
	case 0:
		l.Must, l.Expr.Should = true, []string{k(), k()}
	case 1:
		l.Should, l.Expr.Must = true, []string{k()}
	case 2:
		l.Expr.Must, l.NotIn = []string{k(), k()}, true
	case 3:
		l.Expr.Should, l.NotIn = []string{k(), k()}, true
	case 4:
		l.Expr.Must, l.Expr.Should, l.Expr.NotIn = []string{k()}, []string{k()}, []string{k()}
	case 5:
		l.Should, l.Expr.NotIn = true, []string{k()}
	case 6:
		l.Must, l.Expr.NotIn = true, []string{k(), k()}
	case 7:
		l.Expr.Should = []string{k(), k(), k()}
	case 8:
		l.Must, l.Should, l.Expr.Must = true, true, []string{k()}
	}
	c := buildSym(ix, 3, vsym.Tier() > 0)
	checkLogic(ix, c, []string{vsym.Str("q", 1, 1)}, nil, l, nil)
	vsym.Reach("end")
}

//vsym:harness prop=C03 tier=quick,thorough time=90 ttime=400
//vsym:bounds 2 documents (thorough 3) with arbitrary membership in 3 key lists; Must/Should/NotIn flags, expression lists from {empty, one key, two keys, unknown key, known+unknown}; query of one or two keys
//vsym:assume every active clause has at least one key and at least one of Must and Should is active (an expression of only NotIn is not a documented query)
//vsym:reach match end
func LogicExpr() {
	n := 2
	if vsym.Tier() > 0 {
		n = 3
	}
	ix := newIndexer(types.DocIdsIndex, 100)
	ids := []string{"10", "1", "2"}[:n]
	var l types.Logic
	l.Must, l.Should, l.NotIn = vsym.Bool("must"), vsym.Bool("should"), vsym.Bool("notin")
	opts := [][]string{nil, {"k0"}, {"k1", "k2"}, {"none"}, {"none", "k1"}}
	l.Expr.Must = exprChoice("emust", opts)
	l.Expr.Should = exprChoice("eshould", opts)
	l.Expr.NotIn = exprChoice("enotin", opts)
	if !l.Must && !l.Should && len(l.Expr.Must) == 0 && len(l.Expr.Should) == 0 {
		vsym.Assume(false)
	}
	query := [][]string{{"k2"}, {"k0", "k1"}}[vsym.Choice("query", 2)]
	c := build(ix, ids, 3)
	checkLogic(ix, c, query, nil, l, nil)
	vsym.Reach("end")
}

// Clauses of many keys, each key in one clause.
//
//vsym:harness prop=C03 tier=quick,thorough time=60 ttime=300
//vsym:bounds must, should and not-in expressions of 0..3, 0..3 and 0..2 different keys, given by expressions or the last active one as the query by flag; one document with arbitrary membership in all keys, beside one with all keys and one with the must keys only (thorough also one with the should keys only, ids in three orders, count and index type)
//vsym:assume at least one of Must and Should is active
//vsym:reach match end
func LogicLong() {
	m, s, n := vsym.Choice("must", 4), vsym.Choice("should", 4), vsym.Choice("notin", 3)
	vsym.Assume(m+s > 0)
	keys := []string{"a", "b", "c", "d", "e", "f", "g", "h"}
	l := types.Logic{Expr: types.Expr{Must: keys[:m], Should: keys[3 : 3+s], NotIn: keys[6 : 6+n]}}
	query := []string{"z"}
	switch vsym.Choice("flag", 3) {
	case 1:
		if n > 0 {
			l.NotIn, query, l.Expr.NotIn = true, l.Expr.NotIn, nil
		} else if s > 0 {
			l.Should, query, l.Expr.Should = true, l.Expr.Should, nil
		}
	case 2:
		if m > 0 {
			l.Must, query, l.Expr.Must = true, l.Expr.Must, nil
		}
	}
	indexType, ids := types.DocIdsIndex, []string{"2", "1", "3", "4"}
	if vsym.Tier() > 0 {
		indexType = vsym.Choice("indexType", 3)
		ids = [][]string{{"2", "1", "3", "4"}, {"1", "4", "2", "3"}, {"4", "2", "1", "3"}}[vsym.Choice("order", 3)]
	}
	ix := newIndexer(indexType, 100)
	var c corpus
	var some []string
	for i, k := range keys {
		if (i < m || i >= 3 && i < 3+s || i >= 6 && i < 6+n) && vsym.Bool("in_"+k) {
			some = append(some, k)
		}
	}
	c.add(ix, ids[0], some)
	c.add(ix, ids[1], keys)
	c.add(ix, ids[2], keys[:3])
	if vsym.Tier() > 0 {
		c.add(ix, ids[3], keys[3:6])
	}
	ix.AddDocToCache(nil, true)
	checkLogic(ix, c, query, nil, l, nil)
	vsym.Reach("end")
}

//vsym:harness prop=C03 tier=quick,thorough time=90 ttime=400
//vsym:bounds 4 documents (thorough 5), two keys, must/should/notin combinations, query split over tokens and labels, arbitrary DocIds restriction, three insertion orders
//vsym:assume as LogicExpr
//vsym:reach match end
func LogicDocs() {
	n := 4
	if vsym.Tier() > 0 {
		n = 5
	}
	ix := newIndexer(vsym.Choice("indexType", 3), []int{2, 100}[vsym.Choice("cache", 2)])
	ids := inOrder(n)
	var l types.Logic
	switch vsym.Choice("shape", 7) {
	case 0:
		l.Must = true
	case 1:
		l.Should = true
	case 2:
		l.Expr.Must, l.Expr.NotIn = []string{"k0"}, []string{"k1"}
	case 3:
		l.Expr.Should, l.Expr.NotIn = []string{"k0"}, []string{"k1"}
	case 4:
		l.Expr.Must, l.Expr.Should = []string{"k0"}, []string{"k1"}
	case 5:
		l.Expr.Should = []string{"k1", "k0"}
	case 6:
		l.Expr.Must, l.Should = []string{"k1"}, true
	}
	c := build(ix, ids, 2)
	var allow map[string]bool
	if vsym.Bool("restrict") {
		allow = map[string]bool{}
		for _, id := range ids[:3] {
			if vsym.Bool("allow_" + id) {
				allow[id] = id != ids[1]
			}
		}
	}
	if vsym.Bool("labels") {
		checkLogic(ix, c, []string{"k0"}, []string{"k1"}, l, allow)
	} else {
		checkLogic(ix, c, []string{"k0", "k1"}, nil, l, allow)
	}
	vsym.Reach("end")
}

//vsym:harness prop=C04 tier=quick,thorough time=90 ttime=300
//vsym:bounds 4 documents (thorough 5) in two key lists, arbitrary subset removed but not flushed (cache 100), or flushed, all query forms
//vsym:reach pending end
func RemovePending() {
	n := 3
	if vsym.Tier() > 0 {
		n = 4
	}
	indexType := vsym.Choice("indexType", 3)
	ix := newIndexer(indexType, []int{2, 100}[vsym.Choice("cache", 2)])
	ids := inOrder(n)
	c := build(ix, ids, 2)
	kept := corpus{}
	for i, id := range ids {
		if vsym.Bool("rm_" + id) {
			ix.RemoveDocToCache(id, false)
			vsym.Assert(!ix.HasDoc(id), "HasDoc confirms a document after its removal")
			vsym.Reach("pending")
		} else {
			kept.ids = append(kept.ids, id)
			kept.keys = append(kept.keys, c.keys[i])
			vsym.Assert(ix.HasDoc(id), "HasDoc denies a live document")
		}
	}
	switch vsym.Choice("form", 7) {
	case 0:
		checkAnd(ix, kept, []string{"k0"}, nil, nil)
	case 1:
		checkAnd(ix, kept, []string{"k0"}, []string{"k1"}, nil)
	case 2:
		checkLogic(ix, kept, []string{"k0"}, nil, types.Logic{Must: true}, nil)
	case 3:
		checkLogic(ix, kept, []string{"k0", "k1"}, nil, types.Logic{Should: true}, nil)
	case 4:
		checkLogic(ix, kept, []string{"k0"}, nil, types.Logic{Expr: types.Expr{Must: []string{"k0"}, Should: []string{"k1"}}}, nil)
	case 5:
		checkLogic(ix, kept, []string{"k0"}, nil, types.Logic{Expr: types.Expr{Should: []string{"k0"}, NotIn: []string{"k1"}}}, nil)
	case 6:
		// an expression of only NotIn: no removed document may appear
		docs, _ := ix.Lookup([]string{"k0"}, nil, nil, false, types.Logic{NotIn: true})
		for _, d := range docs {
			alive := false
			for _, id := range kept.ids {
				if id == d.DocId {
					alive = true
				}
			}
			vsym.Assert(alive, "a removed document is returned by an exclusion query")
		}
	}
	vsym.Reach("end")
}

//vsym:harness prop=C04 tier=quick,thorough time=60 ttime=300
//vsym:bounds 3 documents with arbitrary ids and arbitrary keys, removal of one (thorough two) arbitrary ids (present or not) before any flush, every query form with an arbitrary query key
//vsym:reach match end
func RemoveSym() {
	ix := newIndexer(vsym.Choice("indexType", 3), 100)
	c := buildSym(ix, 3, true)
	q := vsym.Str("q", 1, 1)
	var gone []string
	for i := 0; i < 1+vsym.Choice("removals", 1+vsym.Tier()); i++ {
		r := symID("rm")
		ix.RemoveDocToCache(r, false)
		gone = append(gone, r)
		vsym.Assert(!ix.HasDoc(r), "HasDoc confirms a document after its removal")
	}
	removed := func(id string) bool {
		r := false
		for _, g := range gone {
			r = vsym.Or(r, g == id)
		}
		return r
	}
	var docs []types.IndexedDoc
	var num, count int
	l := []types.Logic{{Must: true}, {Should: true}, {Expr: types.Expr{Should: []string{q}}}}
	form := vsym.Choice("form", 4)
	if form == 0 {
		docs, num = ix.Lookup([]string{q}, nil, nil, false)
		_, count = ix.Lookup([]string{q}, nil, nil, true)
	} else {
		docs, num = ix.Lookup([]string{q}, nil, nil, false, l[form-1])
		_, count = ix.Lookup([]string{q}, nil, nil, true, l[form-1])
	}
	want := make([]bool, len(c.ids))
	for i, id := range c.ids {
		want[i] = vsym.And(!removed(id), c.hasKey(i, q))
	}
	checkResults(c, want, docs, num, count)
	vsym.Reach("end")
}
