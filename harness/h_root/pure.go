package h_root

import (
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// roomy is a list with room behind it that is the caller's.
func roomy(s ...string) []string {
	l := make([]string, len(s), len(s)+2)
	copy(l, s)
	for i := len(s); i < cap(l); i++ {
		l[:cap(l)][i] = "room"
	}
	return l
}

func question() types.SearchReq {
	req := types.SearchReq{}
	switch vsym.Choice("question", 9) {
	case 0:
		req.Text, req.Tokens = "A", roomy("b")
	case 1:
		req.Tokens, req.Labels = roomy("a", "b"), roomy("l")
	case 2:
		req.Labels = roomy("l")
		req.Tokens = roomy("b", "a", "b")
	case 3:
		req.Text = "b  a"
		req.DocIds = map[string]bool{"1": true, "3": false, "none": true}
	case 4:
		req.Text = "a b"
		req.Logic = types.Logic{Should: true, Expr: types.Expr{NotIn: roomy("l")}}
	case 5:
		req.Tokens = roomy("a")
		req.Logic = types.Logic{Expr: types.Expr{Must: roomy("b"), Should: roomy("l", "none", "a")}}
	case 6:
		req.Text, req.RankOpts = "a", &types.RankOpts{ReverseOrder: true, OutputOffset: vsym.Int("offset", -1, 2), MaxOutputs: vsym.Int("max", -1, 2)}
	case 7:
		req.Text, req.Timeout = "a", 100000
	case 8:
		req.Tokens, req.Orderless = roomy("a"), true
	}
	req.CountDocsOnly = vsym.Bool("count")
	return req
}

func kept(l []string) []string { return append([]string(nil), l[:cap(l)]...) }

func sameWords(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// A memo is all of a request, or an answer, at one moment.
type memo struct {
	words [][]string
	ids   map[string]bool
	nums  []int
}

func noted(req types.SearchReq) memo {
	m := memo{words: [][]string{{req.Text}, kept(req.Tokens), kept(req.Labels), kept(req.Logic.Expr.Must), kept(req.Logic.Expr.Should), kept(req.Logic.Expr.NotIn)}}
	m.ids = map[string]bool{}
	for id, v := range req.DocIds {
		m.ids[id] = v
	}
	if o := req.RankOpts; o != nil {
		m.nums = append(m.nums, o.OutputOffset, o.MaxOutputs)
		if o.ReverseOrder {
			m.nums = append(m.nums, 1)
		}
		if o.ScoringCriteria != nil {
			m.nums = append(m.nums, 2)
		}
	}
	return m
}

// answered notes an answer; the documents by id if their order is free.
func answered(r types.SearchResp, free bool) memo {
	m := memo{words: [][]string{kept(r.Tokens[:len(r.Tokens):len(r.Tokens)])}, nums: []int{r.NumDocs}}
	if r.Timeout {
		m.nums = append(m.nums, -1)
	}
	var docs types.ScoredDocs
	switch d := r.Docs.(type) {
	case types.ScoredDocs:
		docs = append(docs, d...)
	case types.ScoredIDs:
		for _, x := range d {
			docs = append(docs, types.ScoredDoc{ScoredID: x})
		}
	}
	for i := range docs {
		for j := i; free && j > 0 && docs[j].DocId < docs[j-1].DocId; j-- {
			docs[j], docs[j-1] = docs[j-1], docs[j]
		}
	}
	for _, d := range docs {
		attri, _ := d.Attri.(string)
		m.words = append(m.words, []string{d.DocId, d.Content, attri})
		for _, s := range d.Scores {
			m.nums = append(m.nums, int(s))
		}
		m.nums = append(m.nums, d.TokenSnippetLocs...)
		for _, l := range d.TokenLocs {
			m.nums = append(m.nums, -7)
			m.nums = append(m.nums, l...)
		}
	}
	return m
}

func (m memo) same(o memo) bool {
	if len(m.words) != len(o.words) || len(m.ids) != len(o.ids) || len(m.nums) != len(o.nums) {
		return false
	}
	for i := range m.words {
		if !sameWords(m.words[i], o.words[i]) {
			return false
		}
	}
	for id, v := range m.ids {
		if w, ok := o.ids[id]; !ok || w != v {
			return false
		}
	}
	return sameInts(m.nums, o.nums)
}

// papers notes documents.
func papers(l []types.DocData) memo {
	m := memo{}
	for _, d := range l {
		m.words = append(m.words, []string{d.Content, d.Attri.(string)}, kept(d.Labels))
		m.nums = append(m.nums, int(d.Fields.(float32)))
		for _, t := range d.Tokens {
			m.words = append(m.words, []string{t.Text})
			m.nums = append(append(m.nums, -7), t.Locations...)
		}
	}
	return m
}

func paper(id string, places ...int) types.DocData {
	d := types.DocData{Content: "paper " + id, Attri: "of " + id, Fields: float32(len(id)) + float32(places[0])}
	d.Tokens = []types.TokenData{{Text: "a", Locations: places}}
	return d
}

// Searching changes nothing, and an answer stays what it was.
//
//vsym:harness prop=C37 tier=quick,thorough time=120 ttime=600 root=1
//vsym:bounds 1..2 (thorough 3) shards, id-only or full, with or without positions; 3 documents with two words, at arbitrary positions in any order, and a label; requests of nine kinds, counting or not, whose lists have room behind them, offset and limit -1..2; then another search, an addition, a replacement or a removal (flushed), or the caller overwrites the answer; then the search again
//vsym:reach end again
func Pure() {
	idOnly := vsym.Bool("idOnly")
	o := options(1+vsym.Choice("shards", 2+vsym.Tier()), idOnly)
	if vsym.Bool("locs") {
		o.IndexerOpts.IndexType = types.LocsIndex
	}
	e := start(o)
	first := vsym.Int("place", 0, 9)
	var given []types.DocData
	for i, id := range []string{"1", "2", "3"} {
		d := paper(id, first, 20)
		d.Fields = float32(i)
		if i < 2 {
			d.Tokens = append(d.Tokens, types.TokenData{Text: "b", Locations: []int{11, vsym.Int("other", 10, 12), 1}})
		}
		if i != 1 {
			d.Labels = roomy("l")
		}
		d.Tokens = d.Tokens[:len(d.Tokens):len(d.Tokens)]
		given = append(given, d)
	}
	was := papers(given)
	for i, id := range []string{"1", "2", "3"} {
		e.Index(id, given[i])
	}
	e.Flush()
	vsym.Assert(papers(given).same(was), "indexing changes the document it is given")

	req := question()
	before := noted(req)
	r := e.Search(req)
	vsym.Assert(noted(req).same(before), "a search changes the request")
	got := answered(r, false)
	free := answered(r, true)
	switch vsym.Choice("then", 5) {
	case 0:
		e.Search(types.SearchReq{Text: "b a", RankOpts: &types.RankOpts{MaxOutputs: 1}})
	case 1:
		e.Index("4", paper("4", 3))
		e.Flush()
	case 2:
		e.Index("1", paper("1", 5))
		e.Flush()
	case 3:
		e.RemoveDoc("2")
		e.Flush()
	case 4:
		switch d := r.Docs.(type) {
		case types.ScoredDocs:
			for i := range d {
				d[i] = types.ScoredDoc{}
			}
		case types.ScoredIDs:
			for i := range d {
				d[i] = types.ScoredID{}
			}
		}
		for i := range r.Tokens {
			r.Tokens[i] = "scribble"
		}
		vsym.Assert(noted(req).same(before), "an answer is part of the request")
		again := e.Search(req)
		vsym.Assert(answered(again, true).same(free), "the same search again gives another answer")
		vsym.Reach("again")
		return
	}
	vsym.Assert(papers(given).same(was), "the engine changes a document it was given")
	vsym.Assert(answered(r, false).same(got), "an answer changes when the engine goes on")
	vsym.Assert(noted(req).same(before), "a request changes when the engine goes on")
	vsym.Reach("end")
}

// Engines share nothing.
//
//vsym:harness prop=C38 tier=quick,thorough time=120 ttime=600 root=1
//vsym:bounds two engines, of 1..2 shards each, one id-only or full, one with stored documents or none, both, other kinds of index; 2 documents of the same ids; histories of 3 (thorough 4) operations on either: index with one of 3 versions, or remove, flushed in between where an addition and a removal of one id follow each other; then both are searched, a document is removed from one and one indexed in the other, which changes no BM25 weight in the other engine; one is closed if it has a store, and the other searched again
//vsym:assume the store keeps what it is given (C15 decides that)
//vsym:reach end closed
func Two() {
	d := &disk{files: map[string]map[string]string{}}
	d.restart()
	store.RegisterStore("disk", d.opener)
	idOnly := vsym.Bool("idOnly")
	o := [2]types.EngineOpts{options(1+vsym.Choice("shards", 2), idOnly), options(1+vsym.Choice("shards", 2), false)}
	stored := vsym.Choice("stored", 3)
	for i := range o {
		if stored > 1-i {
			o[i].UseStore, o[i].StoreShards, o[i].StoreEngine = true, 1+i, "disk"
			o[i].StoreFolder = vsym.TempDir() + "/" + string(rune('a'+i))
		}
	}
	o[0].IndexerOpts.IndexType = types.FrequenciesIndex
	o[1].IndexerOpts.IndexType = types.LocsIndex
	e := [2]*riot.Engine{start(o[0]), start(o[1])}
	ids := []string{"1", "2"}
	now := [2][]int{{-1, -1}, {-1, -1}}
	last := [2][]int{{0, 0}, {0, 0}}
	for s := 0; s < 3+vsym.Tier(); s++ {
		k, i := 0, 0
		if s > 0 {
			k, i = vsym.Choice("engine", 2), vsym.Choice("doc", 2)
		}
		v, kind := vsym.Choice("version", 4), 1
		if v == 3 {
			v, kind = -1, 2
		}
		if last[k][i] != 0 && last[k][i] != kind {
			e[k].Flush()
			last[k] = []int{0, 0}
		}
		if v < 0 {
			e[k].RemoveDoc(ids[i])
		} else {
			e[k].Index(ids[i], versions[v])
		}
		now[k][i], last[k][i] = v, kind
	}
	e[0].Flush()
	e[1].Flush()
	check(e[0], ids, now[0], idOnly)
	check(e[1], ids, now[1], false)
	was := weighed(e[1])
	e[0].RemoveDoc(ids[1])
	e[0].Flush()
	now[0][1] = -1
	vsym.Assert(sameScores(weighed(e[1]), was), "what leaves one engine changes the weights in another")
	was = weighed(e[0])
	e[1].Index(ids[0], versions[2])
	e[1].Flush()
	now[1][0] = 2
	vsym.Assert(sameScores(weighed(e[0]), was), "what is indexed in one engine changes the weights in another")
	for k := range e {
		vsym.Assert(k == 1 && stored == 0 || k == 0 && stored < 2 || sameNow(e[k], ids, now[k]), "an engine stores what it was not given")
	}
	if stored > 0 {
		e[1].Close()
		check(e[0], ids, now[0], idOnly)
		if stored > 1 {
			vsym.Assert(sameNow(e[0], ids, now[0]), "closing an engine closes the store of another")
		}
		vsym.Reach("closed")
	}
	vsym.Reach("end")
}

// weighed are the BM25 scores of an engine's documents.
func weighed(e *riot.Engine) []hit {
	var all []hit
	for _, w := range []string{"x", "y"} {
		all = append(all, hits(e.Search(types.SearchReq{Text: w, RankOpts: &types.RankOpts{ScoringCriteria: types.RankByBM25{}}}))...)
	}
	return all
}

func sameScores(a, b []hit) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].id != b[i].id || a[i].score[0] != b[i].score[0] {
			return false
		}
	}
	return true
}

func sameNow(e *riot.Engine, ids []string, now []int) bool {
	got := stored(e, ids)
	for i := range got {
		if got[i] != now[i] {
			return false
		}
	}
	return true
}
