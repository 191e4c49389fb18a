// Package h_root drives the whole engine through its exported API.
package h_root

import (
	"strconv"
	"strings"
	"time"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	_ "github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

// byField scores a document by the number stored with it; documents of the
// takes set take that long.
type byField struct{ takes map[string]time.Duration }

const (
	limit  = 300 * time.Millisecond
	almost = 270 * time.Millisecond
	over   = 450 * time.Millisecond
	long   = 1200 * time.Millisecond
)

func (b byField) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	if d := b.takes[doc.DocId]; d > 0 {
		time.Sleep(d)
	}
	f, ok := fields.(float32)
	if !ok {
		return nil
	}
	return []float32{f}
}

func options(shards int, idOnly bool) types.EngineOpts {
	return types.EngineOpts{
		NotUseGse: true, NumShards: shards, NumGseThreads: 1, NumIndexerThreads: 1, NumRankerThreads: 1,
		IndexerBufLen: 10, RankerBufLen: 10, IDOnly: idOnly,
		IndexerOpts: &types.IndexerOpts{IndexType: types.DocIdsIndex, DocCacheSize: 100},
		DefRankOpts: &types.RankOpts{ScoringCriteria: byField{}},
	}
}

func start(o types.EngineOpts) *riot.Engine {
	e := &riot.Engine{}
	e.Init(o)
	return e
}

type hit struct {
	id      string
	score   []float32
	content string
	attri   interface{}
}

func hits(o types.SearchResp) []hit {
	var r []hit
	switch d := o.Docs.(type) {
	case types.ScoredDocs:
		for _, x := range d {
			r = append(r, hit{x.DocId, x.Scores, x.Content, x.Attri})
		}
	case types.ScoredIDs:
		for _, x := range d {
			r = append(r, hit{x.DocId, x.Scores, "", nil})
		}
	}
	return r
}

// odd ids are text rather than numbers.
var odd = []string{"00", "Id one", "文", "id one", "-1", "01"}

// docIDs are ids whose hashes fall into the shards in ever other ways.
func docIDs(n int) []string {
	base := vsym.Choice("ids", 3) * 10
	var ids []string
	if base == 20 {
		return odd[:n:n]
	}
	for i := 0; i < n; i++ {
		ids = append(ids, strconv.Itoa(base+i+1))
	}
	return ids
}

func window(n, off, max int) int {
	if off >= n {
		return 0
	}
	if max == 0 || max > n-off {
		return n - off
	}
	return max
}

//vsym:harness prop=C17 tier=quick,thorough time=90 ttime=600 root=1 float=exact
//vsym:bounds 1..3 shards, 3 (thorough 4) documents with arbitrary distinct non-NaN scores, ids that spread over the shards in three ways, offset and limit from none to one more than the documents, both orders, id-only or full
//vsym:assume scores come from the scoring rule and the document's own data (BM25 statistics are kept per shard)
//vsym:reach end
func Merge() {
	n := 3 + vsym.Tier()
	shards := 1 + vsym.Choice("shards", 3)
	e := start(options(shards, vsym.Bool("idOnly")))
	ids := docIDs(n)
	score := make([]float32, n)
	for i := range ids {
		score[i] = vsym.F32("score")
		vsym.Assume(score[i] == score[i])
		for j := 0; j < i; j++ {
			vsym.Assume(score[i] != score[j])
		}
		e.Index(ids[i], types.DocData{Content: "x", Fields: score[i]})
	}
	e.Flush()
	off, max := vsym.Choice("offset", n+2), vsym.Choice("max", n+2)
	rev := vsym.Bool("reverse")
	o := e.Search(types.SearchReq{Text: "x", RankOpts: &types.RankOpts{ReverseOrder: rev, OutputOffset: off, MaxOutputs: max}})
	vsym.Assert(o.NumDocs == n, "the count is not that of all matching documents")
	vsym.Assert(!o.Timeout, "a search without deadline reports a timeout")
	h := hits(o)
	vsym.Assert(len(h) == window(n, off, max), "the window has another size")
	precedes := func(a, b float32) bool { return vsym.Or(vsym.And(!rev, a > b), vsym.And(rev, a < b)) }
	var at []int
	missing := 0
	for k, x := range h {
		i := index(ids, x.id)
		vsym.Assert(i >= 0, "an unknown document is returned")
		if i < 0 {
			return
		}
		for _, j := range at {
			vsym.Assert(i != j, "a document is returned twice")
		}
		vsym.Assert(k == 0 || precedes(score[at[k-1]], score[i]), "the results are not in order")
		vsym.Assert(len(x.score) == 1 && x.score[0] == score[i], "a document is returned with another score")
		at = append(at, i)
	}
	for j := range ids {
		in := len(at) == 0
		for _, i := range at {
			in = in || i == j
		}
		if !in {
			first, last := precedes(score[j], score[at[0]]), precedes(score[at[len(at)-1]], score[j])
			vsym.Assert(vsym.Or(first, last), "a document is left out of the middle of the window")
			missing += vsym.IteInt(first, 1, 0)
		}
	}
	vsym.Assert(len(at) == 0 || missing == off, "the window starts at another place")
	vsym.Observe("n", len(h))
	vsym.Reach("end")
}

//vsym:harness prop=C17 tier=quick,thorough time=60 ttime=300 root=1
//vsym:bounds 1..3 shards, 5 documents, every non-negative 64-bit offset and limit, both orders, id-only or full; options given with the request, with a scoring rule of its own or not, or those of the engine
//vsym:reach end nonempty
func AnyWindow() {
	const n = 5
	off, max := vsym.Int("offset", 0, 1<<63-1), vsym.Int("max", 0, 1<<63-1)
	rev := vsym.Bool("reverse")
	how := vsym.Choice("options", 3)
	opts := options(1+vsym.Choice("shards", 3), vsym.Bool("idOnly"))
	req := types.SearchReq{Text: "x", RankOpts: &types.RankOpts{ReverseOrder: rev, OutputOffset: off, MaxOutputs: max}}
	switch how {
	case 1: // those of the engine
		opts.DefRankOpts = req.RankOpts
		opts.DefRankOpts.ScoringCriteria = byField{}
		req.RankOpts = nil
	case 2: // with a scoring rule of its own
		req.RankOpts.ScoringCriteria = negated{}
	}
	e := start(opts)
	for i := 0; i < n; i++ {
		e.Index(strconv.Itoa(i+1), types.DocData{Content: "x", Fields: float32(i * 7 % 5)})
	}
	e.Flush()
	o := e.Search(req)
	h := hits(o)
	vsym.Assert(o.NumDocs == n, "the count is not that of all matching documents")
	vsym.Assert(len(h) == window(n, off, max), "the window has another size")
	for k := range h {
		vsym.Assert(len(h[k].score) == 1, "a document is returned with another score")
		rank := int(h[k].score[0])
		if how == 2 {
			rank += n - 1
		}
		if !rev {
			rank = n - 1 - rank
		}
		vsym.Assert(rank == off+k, "a document is not at its place of the sorted list")
		vsym.Reach("nonempty")
	}
	vsym.Observe("n", len(h))
	vsym.Reach("end")
}

// negated scores a document the other way round.
type negated struct{}

func (negated) Score(doc types.IndexedDoc, fields interface{}) []float32 {
	return []float32{-fields.(float32)}
}

// Every form of request agrees with the documents indexed.
//
//vsym:harness prop=C17 tier=quick,thorough time=90 ttime=400 root=1
//vsym:bounds 1..3 shards, 3 (thorough 4) documents with arbitrary membership in two words and a label, ids that spread in three ways; requests by text, by token, by label, restricted to arbitrary documents, with a logical expression; sorted, or orderless or counting only, for which an offset and a limit are without meaning; id-only or full
//vsym:reach end some
func Requests() {
	n := 3 + vsym.Tier()
	idOnly := vsym.Bool("idOnly")
	e := start(options([]int{1, 2, 3}[vsym.Choice("shards", 3)], idOnly))
	ids := docIDs(n)
	var has [3][]bool
	for i, id := range ids {
		m := vsym.Choice("keys", 4)
		if i < 2 {
			m |= vsym.Choice("label", 2) << 2
		}
		d := types.DocData{Fields: float32(i)}
		var c []string
		for k, w := range []string{"x", "y"} {
			has[k] = append(has[k], m>>uint(k)&1 == 1)
			if has[k][i] {
				c = append(c, w)
			}
		}
		d.Content = strings.Join(c, " ")
		has[2] = append(has[2], m>>2 == 1)
		if has[2][i] {
			d.Labels = []string{"l"}
		}
		e.Index(id, d)
	}
	e.Flush()
	req := types.SearchReq{}
	form := vsym.Choice("form", 6)
	switch form {
	case 0:
		req.Text = "X y"
	case 1:
		req.Tokens = []string{"x"}
	case 2:
		req.Labels = []string{"l"}
	case 3:
		req.Text = "x"
		req.DocIds = map[string]bool{ids[0]: true, ids[2]: false, "none": true}
	case 4:
		req.Text = "x y"
		req.Logic = types.Logic{Should: true}
	case 5:
		req.Text = "y"
		req.Logic = types.Logic{Must: true, Expr: types.Expr{NotIn: []string{"l", "x"}}}
	}
	how := vsym.Choice("how", 3)
	req.Orderless, req.CountDocsOnly = how == 1, how == 2
	if how > 0 && form < 2 && vsym.Bool("window") {
		req.RankOpts = &types.RankOpts{OutputOffset: 1, MaxOutputs: 1}
	}
	var got []hit
	var num int
	o := e.Search(req)
	got, num = hits(o), o.NumDocs
	if how == 2 && idOnly {
		s := e.SearchID(req)
		vsym.Assert(len(s.Docs) == 0 && s.NumDocs == num, "SearchID disagrees")
	} else if how == 2 {
		s := e.SearchDoc(req)
		vsym.Assert(len(s.Docs) == 0 && s.NumDocs == num, "SearchDoc disagrees")
	}
	total := 0
	for i, id := range ids {
		w := false
		switch form {
		case 0:
			w = has[0][i] && has[1][i]
		case 1:
			w = has[0][i]
		case 2:
			w = has[2][i]
		case 3:
			w = has[0][i] && (i == 0 || i == 2)
		case 4:
			w = has[0][i] || has[1][i]
		case 5:
			w = has[1][i] && !has[2][i] && !has[0][i]
		}
		c := 0
		for _, h := range got {
			if h.id == id {
				c++
			}
		}
		if w {
			total++
		}
		vsym.Assert(how == 2 || !w || c == 1, "a matching document is missing or returned twice")
		vsym.Assert(w || c == 0, "a document that does not match is returned")
	}
	vsym.Assert(num == total, "the count is not that of all matching documents")
	vsym.Assert(how == 2 || len(got) == total, "an unknown document is returned")
	if how == 0 {
		for k := 1; k < len(got); k++ {
			vsym.Assert(got[k-1].score[0] > got[k].score[0], "the results are not sorted")
		}
	}
	if total > 0 {
		vsym.Reach("some")
	}
	vsym.Observe("n", num)
	vsym.Reach("end")
}

// A deadline passes before, or after, some shards have answered.
//
//vsym:harness prop=C20 tier=quick,thorough time=90 ttime=400 root=1 samples=3
//vsym:bounds 1..3 (thorough 4) shards, 4 (thorough 6) documents each of which takes no time, almost the deadline or much longer to score, ids that spread in three ways; no deadline, or one before or after that time; sorted or counting, id-only or full
//vsym:assume ranking fast documents takes no time against the deadline (virtual clock)
//vsym:reach end timeout partial
func Deadline() {
	n := 4 + 2*vsym.Tier()
	o := options(1+vsym.Choice("shards", 3+vsym.Tier()), vsym.Bool("idOnly"))
	takes := map[string]time.Duration{}
	o.DefRankOpts.ScoringCriteria = byField{takes}
	e := start(o)
	ids := docIDs(n)
	for i, id := range ids {
		takes[id] = []time.Duration{0, almost, long}[vsym.Choice("takes", 3)]
		e.Index(id, types.DocData{Content: "x", Fields: float32(i)})
	}
	e.Flush()
	req := types.SearchReq{Text: "x"}
	switch vsym.Choice("deadline", 3) {
	case 1:
		req.Timeout = int(limit / time.Millisecond)
	case 2:
		req.Timeout = 60000
	}
	began := time.Now()
	r := e.Search(req)
	took := time.Since(began)
	h := hits(r)
	fast, late := 0, 0
	for _, id := range ids {
		if takes[id] == 0 {
			fast++
		}
		if takes[id] == long {
			late++
		}
	}
	for k, x := range h {
		i := index(ids, x.id)
		vsym.Assert(i >= 0 && len(x.score) == 1 && x.score[0] == float32(i), "a result is not part of the full answer")
		vsym.Assert(k == 0 || h[k-1].score[0] > x.score[0], "the results are not sorted, or repeated")
	}
	vsym.Assert(r.NumDocs == len(h), "the count differs from the results")
	if req.Timeout == int(limit/time.Millisecond) {
		vsym.Assert(r.Timeout == (len(h) != n), "a timeout is reported although all shards answered, or not reported")
		vsym.Assert(fast != n || !r.Timeout, "a timeout is reported although all shards answered in time")
		vsym.Assert(took < over, "the search returns long after its deadline")
		if r.Timeout {
			vsym.Reach("timeout")
			vsym.Assert(len(h) <= n-late, "a slow shard's documents are returned")
			if len(h) > 0 {
				vsym.Reach("partial")
			}
		}
	} else {
		vsym.Assert(!r.Timeout, "a timeout is reported although all shards answered in time")
	}
	if !r.Timeout {
		vsym.Assert(len(h) == n, "a document is missing without a timeout")
	}
	if fast+late == n {
		vsym.Observe("n", len(h))
	}
	if req.Timeout > 0 {
		// the answers that came too late are in nobody's way
		again := e.Search(types.SearchReq{Text: "x", RankOpts: &types.RankOpts{ScoringCriteria: byField{}}})
		vsym.Assert(!again.Timeout && again.NumDocs == n && len(hits(again)) == n, "a search after one that timed out is not answered in full")
	}
	vsym.Reach("end")
}

func index(ids []string, id string) int {
	for i := range ids {
		if ids[i] == id {
			return i
		}
	}
	return -1
}
