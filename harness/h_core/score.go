package h_core

import (
	"math"

	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

type bdoc struct {
	id   string
	len  float32
	freq map[string]float32
}

func near(a, b float32) bool {
	d := math.Abs(float64(a) - float64(b))
	return d <= 1e-4+1e-3*math.Abs(float64(b))
}

// bm25 is the published formula with the smoothed idf the index documents.
func bm25(live []bdoc, d bdoc, tokens []string, k1, b float32) float64 {
	total := 0.0
	for _, x := range live {
		total += float64(x.len)
	}
	avg := total / float64(len(live))
	s := 0.0
	for _, t := range tokens {
		df := 0
		for _, x := range live {
			if _, ok := x.freq[t]; ok {
				df++
			}
		}
		f := float64(d.freq[t])
		if f > 0 && avg != 0 {
			idf := math.Log2(float64(len(live))/float64(df) + 1)
			s += idf * f * float64(k1+1) / (f + float64(k1)*(1-float64(b)+float64(b)*float64(d.len)/avg))
		}
	}
	return s
}

func bmIndexer(indexType int, cache int, k1, b float32) *core.Indexer {
	ix := &core.Indexer{}
	ix.Init(types.IndexerOpts{IndexType: indexType, DocCacheSize: cache, BM25Parameters: &types.BM25Parameters{K1: k1, B: b}})
	return ix
}

func starts(n int) []int {
	var r []int
	for i := 0; i < n; i++ {
		r = append(r, i*7)
	}
	return r
}

// Scores after a history of additions, updates and removals.
//
//vsym:harness prop=C05 tier=quick,thorough time=90 ttime=300
//vsym:bounds histories of 4 (thorough 5) additions/updates/removals over 3 ids, or 3 (thorough 4) on an index holding all three, with token lengths {0,3,8} and frequencies 0..2 of two tokens, cache 1 or 100 then flushed, frequency and location indexes, two parameter sets; scores compared with the formula within 0.1%
//vsym:reach scored end
func BM25History() {
	n := 4
	if vsym.Tier() > 0 {
		n = 5
	}
	it := types.FrequenciesIndex + vsym.Choice("locs", 2)
	k1, b := float32(2.0), float32(0.75)
	if vsym.Bool("params") {
		k1, b = 1.2, 0.3
	}
	ix := bmIndexer(it, []int{1, 100}[vsym.Choice("cache", 2)], k1, b)
	live := map[string]bdoc{}
	ids := []string{"10", "1", "2"}
	pending := map[string]bool{} // additions not known to be flushed
	prefill := vsym.Bool("prefill")
	if prefill {
		for i, id := range ids {
			f := i%2 + 1
			ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: float32(2 + i*5), Keywords: []types.KeywordIndex{
				{Text: "p", Frequency: float32(f), Starts: starts(f)}, {Text: "lab"}}}, false)
			live[id] = bdoc{id: id, len: float32(2 + i*5), freq: map[string]float32{"p": float32(f)}}
		}
		ix.AddDocToCache(nil, true)
		n--
	}
	for i := 0; i < n; i++ {
		w := 2
		if i > 0 {
			w = 1 + vsym.Choice("id", 3)
		}
		id := ids[w-1]
		if (i > 1 || prefill) && vsym.Bool("remove") {
			if pending[id] {
				ix.AddDocToCache(nil, true)
				pending = map[string]bool{}
			}
			ix.RemoveDocToCache(id, false)
			delete(live, id)
			continue
		}
		shape := vsym.Choice("shape", 4)
		d := bdoc{id: id, len: []float32{3, 8, 0, 5}[shape], freq: map[string]float32{}}
		fa, fb := []int{1, 2, 1, 0}[shape], []int{0, 1, 1, 3}[shape]
		di := &types.DocIndex{DocId: id, TokenLen: d.len}
		if fa > 0 {
			d.freq["p"] = float32(fa)
			di.Keywords = append(di.Keywords, types.KeywordIndex{Text: "p", Frequency: float32(fa), Starts: starts(fa)})
		}
		if fb > 0 {
			d.freq["q"] = float32(fb)
			di.Keywords = append(di.Keywords, types.KeywordIndex{Text: "q", Frequency: float32(fb), Starts: starts(fb)})
		}
		// a label: found, but without weight
		di.Keywords = append(di.Keywords, types.KeywordIndex{Text: "lab"})
		ix.AddDocToCache(di, false)
		pending[id] = true
		live[id] = d
	}
	flushAll(ix)
	var all []bdoc
	for _, id := range ids {
		if d, ok := live[id]; ok {
			all = append(all, d)
		}
	}
	for _, tokens := range [][]string{{"p"}, {"q"}, {"p", "q"}} {
		docs, _ := ix.Lookup(tokens, []string{"lab"}, nil, false)
		for _, r := range docs {
			d, ok := live[r.DocId]
			vsym.Assert(ok, "a removed document is scored")
			if ok {
				want := bm25(all, d, tokens, k1, b)
				vsym.Assert(near(r.BM25, float32(want)), "the BM25 score differs from the formula over the live documents")
				vsym.Reach("scored")
			}
		}
		vsym.Observe("n", len(docs))
	}
	vsym.Reach("end")
}

// Scores after many documents went at once.
//
//vsym:harness prop=C05 tier=quick,thorough time=60 ttime=300
//vsym:bounds 5 (thorough 6) documents of different lengths and frequencies of three tokens, each in another subset of them, an arbitrary subset removed at once, one of the others added again with another length, frequency and location indexes, cache 2 or 100 then flushed; queries of 1..4 tokens, one of them twice, with a label or not
//vsym:reach scored end
func BM25Batch() {
	n := 5 + vsym.Tier()
	it := types.FrequenciesIndex + vsym.Choice("locs", 2)
	ix := bmIndexer(it, []int{2, 100}[vsym.Choice("cache", 2)], 1.5, 0.6)
	ids := []string{"2", "10", "9", "1", "20", "100"}[:n]
	var live []bdoc
	add := func(i, more int) bdoc {
		d := bdoc{id: ids[i], len: float32(3 + 4*i + more), freq: map[string]float32{}}
		di := &types.DocIndex{DocId: ids[i], TokenLen: d.len, Keywords: []types.KeywordIndex{{Text: "lab"}}}
		for k, t := range []string{"p", "q", "r", "s"} {
			if k == 0 || (i+1+more)>>uint(k-1)&1 == 1 {
				f := 1 + (i*3+k*5+more)%4
				d.freq[t] = float32(f)
				di.Keywords = append(di.Keywords, types.KeywordIndex{Text: t, Frequency: float32(f), Starts: starts(f)})
			}
		}
		ix.AddDocToCache(di, false)
		return d
	}
	for i := range ids {
		live = append(live, add(i, 0))
	}
	ix.AddDocToCache(nil, true)
	var left []bdoc
	for i, id := range ids {
		if vsym.Bool("rm" + id) {
			ix.RemoveDocToCache(id, false)
		} else {
			left = append(left, live[i])
		}
	}
	if len(left) > 0 && vsym.Bool("again") {
		for i, id := range ids {
			if id == left[len(left)-1].id {
				left[len(left)-1] = add(i, 5)
			}
		}
	}
	flushAll(ix)
	var labels []string
	if vsym.Bool("label") {
		labels = []string{"lab"}
	}
	for _, tokens := range [][]string{{"p"}, {"q", "p"}, {"r", "p", "q"}, {"p", "p"}, {"p", "s", "r", "q"}} {
		docs, _ := ix.Lookup(tokens, labels, nil, false)
		want := 0
		for _, d := range left {
			all := true
			for _, t := range tokens {
				_, has := d.freq[t]
				all = all && has
			}
			if !all {
				continue
			}
			want++
			k := find(docs, d.id)
			vsym.Assert(k >= 0, "a matching document is missing")
			if k >= 0 {
				vsym.Assert(near(docs[k].BM25, float32(bm25(left, d, tokens, 1.5, 0.6))), "the BM25 score differs from the formula over the live documents")
				vsym.Reach("scored")
			}
		}
		vsym.Assert(len(docs) == want, "another document is scored")
	}
	vsym.Reach("end")
}

// The parameters, lengths and frequencies are arbitrary floats here. The
// solver treats float arithmetic as uninterpreted, so it proves that exactly
// this expression of exactly these operands is computed.
//
//vsym:harness prop=C05 tier=quick,thorough time=60
//vsym:bounds 3 documents, arbitrary float32 token lengths, frequencies, K1 and B (finite, lengths and frequencies positive), one removed in some cases; score of one-token queries
//vsym:assume float arithmetic uninterpreted: equality of expression trees
//vsym:reach scored end
func BM25Floats() {
	k1, b := vsym.F32("k1"), vsym.F32("b")
	pos := func(name string) float32 {
		f := vsym.F32(name)
		vsym.Assume(f > 0)
		vsym.Assume(f < 1e6)
		return f
	}
	vsym.Assume(k1 > 0)
	vsym.Assume(k1 < 100)
	vsym.Assume(b >= 0)
	vsym.Assume(b <= 1)
	ix := bmIndexer(types.FrequenciesIndex, 100, k1, b)
	ids := []string{"1", "10", "2"}
	var ln, fr [3]float32
	var total float32
	for i, id := range ids {
		ln[i], fr[i] = pos("len"), pos("freq")
		total += ln[i]
		ix.AddDocToCache(&types.DocIndex{DocId: id, TokenLen: ln[i], Keywords: []types.KeywordIndex{{Text: "p", Frequency: fr[i]}}}, false)
	}
	ix.AddDocToCache(nil, true)
	avg := total / 3
	docs, _ := ix.Lookup([]string{"p"}, nil, nil, false)
	vsym.Assert(len(docs) == 3, "a document is missing")
	for i, id := range ids {
		p := find(docs, id)
		if p < 0 {
			return
		}
		if avg != 0 {
			idf := float32(math.Log2(float64(3)/float64(3) + 1))
			want := float32(0)
			want += idf * fr[i] * (k1 + 1) / (fr[i] + k1*(1-b+b*ln[i]/avg))
			vsym.Assert(vsym.SameF32(docs[p].BM25, want), "the BM25 score differs from the formula")
			vsym.Reach("scored")
		}
	}
	vsym.Reach("end")
}

// proximity: the minimum over all choices of one location per token.
func abs(x int) int { return vsym.IteInt(x < 0, -x, x) }

func minProximity(locs [][]int, lens []int, i, prev, acc int) (best int, first bool) {
	if i == len(locs) {
		return acc, true
	}
	for _, p := range locs[i] {
		cost := acc
		if i > 0 {
			cost += abs(p - prev - lens[i-1])
		}
		v, _ := minProximity(locs, lens, i+1, p, cost)
		if !first {
			best, first = v, true
		} else {
			best = vsym.IteInt(v < best, v, best)
		}
	}
	return
}

func proximity(ix *core.Indexer, tokens []string, counts []int, max int) {
	var locs [][]int
	var lens []int
	d := &types.DocIndex{DocId: "m", TokenLen: 9}
	for i, t := range tokens {
		var l []int
		for j := 0; j < counts[i]; j++ {
			p := vsym.Int("loc", 0, max)
			if j > 0 {
				vsym.Assume(p > l[j-1])
			}
			l = append(l, p)
		}
		locs = append(locs, l)
		lens = append(lens, len(t))
		d.Keywords = append(d.Keywords, types.KeywordIndex{Text: t, Frequency: float32(len(l)), Starts: l})
	}
	ix.AddDocToCache(d, true)
	docs, num := ix.Lookup(tokens, nil, nil, false)
	vsym.Assert(num == 1 && len(docs) == 1, "the document is not found")
	if len(docs) != 1 {
		return
	}
	r := docs[0]
	best, _ := minProximity(locs, lens, 0, 0, 0)
	vsym.Assert(int(r.TokenProximity) == best, "the token proximity is not the minimum over all placements")
	vsym.Assert(len(r.TokenSnippetLocs) == len(tokens), "not one snippet location per token")
	vsym.Assert(len(r.TokenLocs) == len(tokens), "not one location list per token")
	if len(r.TokenSnippetLocs) != len(tokens) || len(r.TokenLocs) != len(tokens) {
		return
	}
	sum := 0
	for i := range tokens {
		here := false
		for _, p := range locs[i] {
			here = vsym.Or(here, p == r.TokenSnippetLocs[i])
		}
		vsym.Assert(here, "a snippet location is not a position of its token")
		if i > 0 {
			sum += abs(r.TokenSnippetLocs[i] - r.TokenSnippetLocs[i-1] - lens[i-1])
		}
		vsym.Assert(len(r.TokenLocs[i]) == len(locs[i]), "the reported positions of a token are incomplete")
		for j := range r.TokenLocs[i] {
			vsym.Assert(r.TokenLocs[i][j] == locs[i][j], "the reported positions of a token are not those indexed")
		}
	}
	vsym.Assert(sum == best, "the snippet locations do not attain the minimal proximity")
	vsym.Observe("n", len(docs))
	vsym.Reach("end")
}

//vsym:harness prop=C06 tier=quick,thorough time=60 ttime=400
//vsym:bounds 2 tokens (lengths 1..3 and 1) with 1..3 (thorough 4) arbitrary ascending positions each below 2^20
//vsym:assume positions of a token are given in ascending order (documented)
//vsym:reach end
func ProximityTwo() {
	n := 3 + vsym.Tier()
	ix := newIndexer(types.LocsIndex, 10)
	a := []string{"w", "ww", "wwww"}[vsym.Choice("tokenLen", 3)]
	proximity(ix, []string{a, "v"}, []int{1 + vsym.Choice("na", n), 1 + vsym.Choice("nb", n)}, 1<<20)
}

//vsym:harness prop=C06 tier=quick,thorough time=90 ttime=600
//vsym:bounds 3 tokens with 1..2, 1..3 and 1..2 (thorough 1..3 each) positions below 2^20; 4 tokens with 1..2 positions
//vsym:assume positions of a token are given in ascending order (documented)
//vsym:reach end
func ProximityMore() {
	ix := newIndexer(types.LocsIndex, 10)
	if vsym.Bool("four") {
		n := 2
		proximity(ix, []string{"ww", "v", "uuu", "t"}, []int{2, 1 + vsym.Choice("nb", n), 1 + vsym.Choice("nc", n), 1 + vsym.Choice("nd", n)}, 1<<20)
		return
	}
	m := 2 + vsym.Tier()
	proximity(ix, []string{"ww", "v", "uuu"}, []int{1 + vsym.Choice("na", m), 1 + vsym.Choice("nb", 3), 1 + vsym.Choice("nc", m)}, 1<<20)
}

// Documents with several candidates keep their own positions apart.
//
//vsym:harness prop=C06 tier=quick,thorough time=60
//vsym:bounds 3 documents with arbitrary positions added in arbitrary order, one may be removed; a token without positions; labels
//vsym:reach end
func LocationsPerDoc() {
	ix := newIndexer(types.LocsIndex, []int{1, 100}[vsym.Choice("cache", 2)])
	ids := inOrder(3)
	pos := map[string]int{}
	for _, id := range ids {
		p := vsym.Int("loc", 0, 1000)
		pos[id] = p
		d := &types.DocIndex{DocId: id, TokenLen: 3, Keywords: []types.KeywordIndex{
			{Text: "aa", Frequency: 1, Starts: []int{p}}, {Text: "b", Frequency: 1, Starts: []int{p + 2 + vsym.Choice("gap", 2)}}, {Text: "lab"}}}
		ix.AddDocToCache(d, false)
	}
	ix.AddDocToCache(nil, true)
	if w := vsym.Choice("rm", 4); w < 3 {
		ix.RemoveDocToCache(ids[w], false)
		delete(pos, ids[w])
		if vsym.Bool("flush") {
			flushAll(ix)
		}
	}
	var labels []string
	if vsym.Bool("label") {
		labels = []string{"lab"}
	}
	docs, _ := ix.Lookup([]string{"aa", "b"}, labels, nil, false)
	vsym.Assert(len(docs) == len(pos), "number of results differs from the number of documents")
	for _, d := range docs {
		p, ok := pos[d.DocId]
		vsym.Assert(ok, "a removed document is returned")
		if !ok || len(d.TokenLocs) != 2 || len(d.TokenSnippetLocs) != 2 {
			vsym.Fail("locations are missing")
			return
		}
		vsym.Assert(len(d.TokenLocs[0]) == 1 && d.TokenLocs[0][0] == p, "positions belong to another document")
		vsym.Assert(d.TokenSnippetLocs[0] == p, "snippet position belongs to another document")
		vsym.Assert(int(d.TokenProximity) == d.TokenLocs[1][0]-p-2, "proximity does not match the positions")
	}
	vsym.Observe("n", len(docs))
	vsym.Reach("end")
}
