package h_core

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// table scores a document by the list kept for it.
type table map[string][]float32

func (t table) Score(doc types.IndexedDoc, fields interface{}) []float32 { return t[doc.DocId] }

func num(name string) float32 {
	f := vsym.F32(name)
	vsym.Assume(f == f)
	return f
}

// before is the documented order: first score decides, larger first; equal
// scores fall through to the next; a longer list wins over its prefix.
func before(a, b []float32) bool {
	r := len(a) > len(b)
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := n - 1; i >= 0; i-- {
		r = vsym.Or(a[i] > b[i], vsym.And(a[i] == b[i], r))
	}
	return r
}

func scores(name string, max int) []float32 {
	n := vsym.Choice("len_"+name, max+1)
	var r []float32
	for i := 0; i < n; i++ {
		r = append(r, num(name))
	}
	return r
}

//vsym:harness prop=C12 tier=quick,thorough time=60 ttime=300 float=exact
//vsym:bounds three documents with score lists of length 0..2 (thorough 3), every non-NaN float32
//vsym:assume scores are not NaN
//vsym:reach end
func LessOrder() {
	m := 2 + vsym.Tier()
	a, b, c := scores("a", m), scores("b", m), scores("c", m)
	ids := types.ScoredIDs{{DocId: "1", Scores: a}, {DocId: "2", Scores: b}, {DocId: "3", Scores: c}}
	var docs types.ScoredDocs
	for _, x := range ids {
		docs = append(docs, types.ScoredDoc{ScoredID: x})
	}
	var l [3][3]bool
	s := [][]float32{a, b, c}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			l[i][j] = ids.Less(i, j)
			vsym.Assert(l[i][j] == docs.Less(i, j), "documents and ids are ordered differently")
			vsym.Assert(l[i][j] == before(s[i], s[j]), "the order is not lexicographic by descending score")
		}
		vsym.Assert(!l[i][i], "a document is ordered before itself")
	}
	vsym.Assert(!(l[0][1] && l[1][0]), "two documents are each ordered before the other")
	vsym.Assert(!(l[0][1] && l[1][2]) || l[0][2], "the order is not transitive")
	vsym.Assert(l[0][1] || l[1][0] || l[1][2] || l[2][1] || (!l[0][2] && !l[2][0]), "ties are not transitive")
	ids.Swap(0, 2)
	vsym.Assert(ids[0].DocId == "3" && ids[2].DocId == "1" && ids.Len() == 3, "Swap does not exchange two results")
	docs.Swap(1, 2)
	vsym.Assert(docs[1].DocId == "3" && docs[2].DocId == "2" && docs.Len() == 3, "Swap does not exchange two results")
	vsym.Observe("l01", l[0][1])
	vsym.Reach("end")
}

// However close two scores are.
//
//vsym:harness prop=C12 tier=quick,thorough time=60 ttime=300 float=exact
//vsym:bounds two documents of one score each, every non-NaN float32
//vsym:assume scores are not NaN
//vsym:reach end
func LessPair() {
	a, b := num("a"), num("b")
	ids := types.ScoredIDs{{DocId: "1", Scores: []float32{a}}, {DocId: "2", Scores: []float32{b}}}
	docs := types.ScoredDocs{{ScoredID: ids[0]}, {ScoredID: ids[1]}}
	vsym.Assert(ids.Less(0, 1) == (a > b), "ids are not in the order of their scores")
	vsym.Assert(docs.Less(0, 1) == (a > b), "documents are not in the order of their scores")
	vsym.Reach("end")
}

//vsym:harness prop=C12 tier=quick,thorough time=60 float=exact
//vsym:bounds three documents with arbitrary ids of 0..2 bytes
//vsym:reach end
func IdOrder() {
	var x [3]string
	for i := range x {
		x[i] = vsym.Str("id", 0, 2)
	}
	d := types.DocsIndex{{DocId: x[0]}, {DocId: x[1]}, {DocId: x[2]}}
	s := types.DocsId{x[0], x[1], x[2]}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			vsym.Assert(d.Less(i, j) == (x[i] < x[j]), "cached documents are not ordered by id")
			vsym.Assert(s.Less(i, j) == (x[i] < x[j]), "ids are not in string order")
		}
	}
	d.Swap(0, 1)
	s.Swap(0, 1)
	vsym.Assert(d[0].DocId == x[1], "Swap does not exchange two entries")
	vsym.Assert(vsym.And(s[0] == x[1], s[1] == x[0]), "Swap does not exchange two entries")
	vsym.Assert(d.Len() == 3 && s.Len() == 3, "Len is wrong")
	vsym.Reach("end")
}

func newRanker(idOnly bool) *core.Ranker {
	r := &core.Ranker{}
	r.Init(idOnly)
	return r
}

// ranked runs a query and flattens the two result types.
func ranked(r *core.Ranker, docs []types.IndexedDoc, o types.RankOpts, count bool) (out []types.ScoredID, full []types.ScoredDoc, num int, idOnly bool) {
	res, num := r.Rank(docs, o, count)
	switch x := res.(type) {
	case types.ScoredIDs:
		return x, nil, num, true
	case types.ScoredDocs:
		for _, d := range x {
			out = append(out, d.ScoredID)
		}
		return out, x, num, false
	}
	vsym.Fail("the ranker returns an unknown result type")
	return
}

//vsym:harness prop=C09 tier=quick,thorough time=60 ttime=400 float=exact
//vsym:bounds 3 (thorough 4) documents with one or two arbitrary non-NaN scores, both orders, id-only or full
//vsym:assume scores are not NaN
//vsym:reach end
func RankOrder() {
	n := 3 + vsym.Tier()
	r := newRanker(vsym.Bool("idOnly"))
	t := table{}
	var docs []types.IndexedDoc
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		s := []float32{num("s")}
		if i == 1 {
			s = append(s, num("s"))
		}
		t[id] = s
		r.AddDoc(id, i, "content-"+id, "attri-"+id)
		docs = append(docs, types.IndexedDoc{DocId: id, TokenSnippetLocs: []int{i}, TokenLocs: [][]int{{i, i + 1}}})
	}
	rev := vsym.Bool("reverse")
	out, full, total, idOnly := ranked(r, docs, types.RankOpts{ScoringCriteria: t, ReverseOrder: rev}, false)
	vsym.Assert(total == n && len(out) == n, "a scored document is missing from the ranking")
	for i := range out {
		for j := range out {
			if i < j {
				vsym.Assert(out[i].DocId != out[j].DocId, "a document is ranked twice")
			}
		}
		if i > 0 {
			if rev {
				vsym.Assert(!before(out[i-1].Scores, out[i].Scores), "results are not in ascending score order")
			} else {
				vsym.Assert(!before(out[i].Scores, out[i-1].Scores), "results are not in descending score order")
			}
		}
		k := int(out[i].DocId[0] - 'a')
		want := t[out[i].DocId]
		vsym.Assert(len(out[i].Scores) == len(want), "a document carries the scores of another")
		vsym.Assert(vsym.SameF32(out[i].Scores[0], want[0]), "a document carries the scores of another")
		vsym.Assert(len(out[i].TokenSnippetLocs) == 1 && out[i].TokenSnippetLocs[0] == k, "a document carries the snippet of another")
		vsym.Assert(len(out[i].TokenLocs) == 1 && out[i].TokenLocs[0][1] == k+1, "a document carries the locations of another")
		if !idOnly {
			vsym.Assert(full[i].Content == "content-"+out[i].DocId, "a document carries the content of another")
			vsym.Assert(full[i].Attri == "attri-"+out[i].DocId, "a document carries the attributes of another")
			vsym.Assert(full[i].Fields == k, "a document carries the fields of another")
		}
	}
	vsym.Observe("first", out[0].DocId)
	vsym.Reach("end")
}

// Long rankings use another sorting path than short ones.
//
//vsym:harness prop=C09 tier=quick,thorough time=60 ttime=400 float=exact
//vsym:bounds 14 documents (more than the insertion-sort limit), 12 with fixed distinct or tied scores, two with arbitrary scores, both orders
//vsym:assume scores are not NaN
//vsym:reach end
func RankLong() {
	const n = 14
	r := newRanker(vsym.Bool("idOnly"))
	t := table{}
	var docs []types.IndexedDoc
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		s := float32((i*5)%n/2) - 3
		if i == 4 || i == 11 {
			s = num("s")
		}
		t[id] = []float32{s}
		r.AddDoc(id, nil, "", nil)
		docs = append(docs, types.IndexedDoc{DocId: id})
	}
	rev := vsym.Bool("reverse")
	all, _, total, _ := ranked(r, docs, types.RankOpts{ScoringCriteria: t, ReverseOrder: rev}, false)
	vsym.Assert(total == n && len(all) == n, "a scored document is missing from the ranking")
	seen := map[string]bool{}
	for i := range all {
		vsym.Assert(!seen[all[i].DocId], "a document is ranked twice")
		seen[all[i].DocId] = true
		if i > 0 {
			a, b := all[i-1].Scores, all[i].Scores
			if rev {
				a, b = b, a
			}
			vsym.Assert(!before(b, a), "results are not in score order")
		}
	}
	vsym.Reach("end")
}

//vsym:harness prop=C09 tier=quick,thorough time=60 ttime=300 float=exact
//vsym:bounds 3 (thorough 4) documents with arbitrary tied or distinct non-NaN scores, arbitrary offset and limit up to one more than the number of documents, both orders, id-only or full: the page equals that window of the complete ranking and consecutive pages tile it
//vsym:reach end page
func RankPages() {
	n := 3 + vsym.Tier()
	r := newRanker(vsym.Bool("idOnly"))
	t := table{}
	var docs []types.IndexedDoc
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		t[id] = []float32{num("s")}
		r.AddDoc(id, nil, "", nil)
		docs = append(docs, types.IndexedDoc{DocId: id})
	}
	off := vsym.Concrete(vsym.Int("offset", 0, n+1))
	lim := vsym.Concrete(vsym.Int("limit", 0, n+1))
	o := types.RankOpts{ScoringCriteria: t, ReverseOrder: vsym.Bool("reverse")}
	all, _, total, _ := ranked(r, docs, o, false)
	vsym.Assert(total == n && len(all) == n, "a scored document is missing from the ranking")
	o.OutputOffset, o.MaxOutputs = off, lim
	page, _, num2, _ := ranked(r, docs, o, false)
	vsym.Assert(num2 == n, "the count depends on the requested page")
	end := n
	if lim != 0 && off+lim < n {
		end = off + lim
	}
	want := 0
	if off < end {
		want = end - off
	}
	vsym.Assert(len(page) == want, "the page does not hold the requested number of results")
	for i := range page {
		vsym.Assert(page[i].DocId == all[off+i].DocId, "the page is not that window of the complete ranking")
		vsym.Reach("page")
	}
	_, _, count, _ := ranked(r, docs, o, true)
	vsym.Assert(count == n, "a count-only ranking reports a different count")
	vsym.Observe("len", len(page))
	vsym.Reach("end")
}

//vsym:harness prop=C11 tier=quick,thorough time=60 float=exact
//vsym:bounds 0..4 documents, every non-negative 64-bit offset and limit, both orders, id-only or full
//vsym:reach end nonempty
func AnyPage() {
	n := vsym.Choice("docs", 5)
	r := newRanker(vsym.Bool("idOnly"))
	t := table{}
	var docs []types.IndexedDoc
	for i := 0; i < n; i++ {
		id := string(rune('a' + i))
		t[id] = []float32{float32(i)}
		r.AddDoc(id, nil, "", nil)
		docs = append(docs, types.IndexedDoc{DocId: id})
	}
	off, lim := vsym.AnyInt("offset"), vsym.AnyInt("limit")
	vsym.Assume(off >= 0)
	vsym.Assume(lim >= 0)
	o := types.RankOpts{ScoringCriteria: t, ReverseOrder: vsym.Bool("reverse"), OutputOffset: off, MaxOutputs: lim}
	out, _, total, _ := ranked(r, docs, o, false)
	vsym.Assert(total == n, "the count depends on the requested page")
	rest := vsym.IteInt(off < n, n-off, 0)
	want := vsym.IteInt(vsym.And(lim != 0, lim < rest), lim, rest)
	vsym.Assert(len(out) == want, "the page does not hold min(limit, what is left after the offset) results")
	if len(out) > 0 {
		first := int(out[0].DocId[0] - 'a')
		if !o.ReverseOrder {
			first = n - 1 - first
		}
		vsym.Assert(first == off, "the page does not start at the offset")
		vsym.Reach("nonempty")
	}
	vsym.Observe("len", len(out))
	vsym.Reach("end")
}

//vsym:harness prop=C10 tier=quick,thorough time=60 ttime=300 float=exact
//vsym:bounds histories of 3 (thorough 4) additions (with content and attributes, content and no attributes, content only, or fields only) and removals with arbitrary one-byte ids, id-only or full; then every id is ranked, some with an empty score
//vsym:reach end some
func RankerHistory() {
	n := 3 + vsym.Tier()
	idOnly := vsym.Bool("idOnly")
	r := newRanker(idOnly)
	probe := vsym.Str("probe", 1, 1)
	// what was last registered for the probed id since it was last removed
	exists, fields, content, attri := false, 0, 0, 0
	for i := 0; i < n; i++ {
		id, f := vsym.Str("id", 1, 1), vsym.Int("fields", 0, 100)
		same := id == probe
		switch vsym.Choice("op", 5) {
		case 0:
			c := vsym.Str("content", 1, 1)
			r.AddDoc(id, f, c, i+1)
			content, attri = vsym.IteInt(same, int(c[0])+1, content), vsym.IteInt(same, i+1, attri)
		case 1:
			c := vsym.Str("content", 1, 1)
			r.AddDoc(id, f, c, nil)
			content, attri = vsym.IteInt(same, int(c[0])+1, content), vsym.IteInt(same, 0, attri)
		case 2:
			r.AddDoc(id, f, "")
			content = vsym.IteInt(same, 0, content)
		case 3:
			r.AddDoc(id, f)
		case 4:
			r.RemoveDoc(id)
			exists = vsym.And(exists, !same)
			content, attri = vsym.IteInt(same, 0, content), vsym.IteInt(same, 0, attri)
			continue
		}
		exists = vsym.Or(exists, same)
		fields = vsym.IteInt(same, f, fields)
	}
	empty := vsym.Bool("emptyScore")
	var got []interface{}
	o := types.RankOpts{ScoringCriteria: scoreFunc(func(d types.IndexedDoc, f interface{}) []float32 {
		got = append(got, f)
		if empty {
			return nil
		}
		return []float32{1}
	})}
	out, full, total, isID := ranked(r, []types.IndexedDoc{{DocId: probe}}, o, false)
	vsym.Assert(isID == idOnly, "the result type does not follow the id-only option")
	vsym.Assert(len(out) == total, "the count differs from the number of results")
	vsym.Assert((total == 1) == vsym.And(exists, !empty), "a removed or unscored document is returned, or a live one is not")
	_, _, count, _ := ranked(r, []types.IndexedDoc{{DocId: probe}}, o, true)
	vsym.Assert(count == total, "a count-only ranking reports a different count")
	if len(got) > 0 {
		vsym.Assert(got[0].(int) == fields, "a document is scored with fields other than its latest")
	}
	if total == 1 && !idOnly {
		vsym.Assert(full[0].Fields.(int) == fields, "the latest fields are not returned")
		if c := full[0].Content; len(c) == 0 {
			vsym.Assert(content == 0, "the latest content is not returned")
		} else {
			vsym.Assert(len(c) == 1 && int(c[0])+1 == content, "the latest content is not returned")
		}
		if full[0].Attri == nil {
			vsym.Assert(attri == 0, "the latest attributes are not returned")
		} else {
			vsym.Assert(full[0].Attri.(int) == attri, "the latest attributes are not returned")
		}
		vsym.Reach("some")
	}
	vsym.Observe("total", total)
	vsym.Reach("end")
}

type scoreFunc func(d types.IndexedDoc, f interface{}) []float32

func (f scoreFunc) Score(d types.IndexedDoc, x interface{}) []float32 { return f(d, x) }

//vsym:harness prop=C10 tier=quick,thorough time=60 float=exact
//vsym:bounds 4 documents, arbitrary subset never added, removed, or scored empty, both result types
//vsym:reach end
func RankerSubset() {
	r := newRanker(vsym.Bool("idOnly"))
	t := table{}
	want := map[string]bool{}
	var docs []types.IndexedDoc
	for i := 0; i < 4; i++ {
		id := string(rune('a' + i))
		docs = append(docs, types.IndexedDoc{DocId: id})
		switch vsym.Choice("state", 4) {
		case 0:
			r.AddDoc(id, nil, "c", nil)
			t[id] = []float32{vsym.F32("s")}
			want[id] = true
		case 1:
			r.AddDoc(id, nil, "c", nil)
		case 2:
			r.AddDoc(id, nil, "c", nil)
			r.RemoveDoc(id)
			t[id] = []float32{1}
		case 3:
			t[id] = []float32{2}
		}
	}
	out, _, total, _ := ranked(r, docs, types.RankOpts{ScoringCriteria: t}, false)
	vsym.Assert(total == len(want) && len(out) == len(want), "the ranking does not hold exactly the live, scored documents")
	for _, d := range out {
		vsym.Assert(want[d.DocId], "a removed, unknown or unscored document is ranked")
	}
	_, _, count, _ := ranked(r, docs, types.RankOpts{ScoringCriteria: t}, true)
	vsym.Assert(count == total, "a count-only ranking reports a different count")
	vsym.Observe("total", total)
	vsym.Reach("end")
}
