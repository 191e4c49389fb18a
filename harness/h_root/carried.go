package h_root

import (
	"strings"

	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

var asked = [][]string{{"a"}, {"b", "a"}, {"a", "b"}, {"b"}, {"a", "a"}}

// asks is a request for words, by text or not.
func asks(words []string, text bool) types.SearchReq {
	if !text {
		return types.SearchReq{Tokens: words}
	}
	return types.SearchReq{Text: strings.ToUpper(words[0]), Tokens: words[1:]}
}

// places are the positions of one word in one document: one or two of them.
func places(name string, more bool) []int {
	l := []int{vsym.Int(name, 0, 40)}
	if more && vsym.Bool("twice") {
		l = append(l, vsym.Int(name, 0, 40))
		vsym.Assume(l[0] < l[1])
	}
	return l
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = vsym.And(same, a[i] == b[i])
	}
	return same
}

// What a search returns for a document is that document's.
//
//vsym:harness prop=C36 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds 1..3 shards, ids that spread in three ways, 2 (thorough 3) documents with contents, attributes and fields of their own and one or two words, each at 1..2 arbitrary positions of 0..40 (in quick, two only for one word of each document), one of the documents possibly replaced by a version with other data; every kind of index; searches for one or both words in both orders, or for one twice, by words or by text and words, restricted to a label, sorted in both orders, with a deadline, or orderless; full or ids only
//vsym:reach end located orderless replaced
func Carried() {
	idOnly := vsym.Bool("idOnly")
	kind := vsym.Choice("index", 3)
	o := options(1+vsym.Choice("shards", 3), idOnly)
	o.IndexerOpts.IndexType = []int{types.DocIdsIndex, types.FrequenciesIndex, types.LocsIndex}[kind]
	e := start(o)
	n := 2 + vsym.Tier()
	ids := docIDs(n)
	data := make([]types.DocData, n)
	texts := []string{"a b", "A  c b", "b, a"}
	for i, id := range ids {
		d := types.DocData{Content: texts[i], Attri: "attribute " + id, Fields: float32(i), Labels: []string{"l"}}
		d.Tokens = []types.TokenData{{Text: "a", Locations: places("a", i == 0 || vsym.Tier() > 0)}}
		if i != 1 || vsym.Bool("both") {
			d.Tokens = append(d.Tokens, types.TokenData{Text: "b", Locations: places("b", i != 0 || vsym.Tier() > 0)})
		} else {
			d.Content = "nothing"
		}
		data[i] = d
		e.Index(id, d)
	}
	if vsym.Bool("replaced") {
		d := types.DocData{Fields: float32(9), Labels: []string{"l"}}
		d.Tokens = []types.TokenData{{Text: "b", Locations: places("b", true)}, {Text: "a", Locations: []int{50}}}
		data[0] = d
		e.Index(ids[0], d)
		vsym.Reach("replaced")
	}
	e.Flush()

	k := vsym.Choice("asked", len(asked))
	words := asked[k]
	req := asks(words, k == 2 || k == 3)
	orderless := false
	switch vsym.Choice("how", 5) {
	case 1:
		req.RankOpts = &types.RankOpts{ReverseOrder: true}
	case 2:
		req.Timeout = 100000
	case 3:
		req.Orderless, orderless = true, true
	case 4:
		req.Labels = []string{"l"}
	}
	r := e.Search(req)
	vsym.Assert(len(r.Tokens) == len(words), "the words reported are not those searched for")
	if len(r.Tokens) != len(words) {
		return
	}
	for i, t := range r.Tokens {
		vsym.Assert(t == words[i], "the words reported are not those searched for")
	}
	var found types.ScoredDocs
	switch docs := r.Docs.(type) {
	case types.ScoredDocs:
		vsym.Assert(!idOnly, "an engine for ids only returns documents")
		found = docs
	case types.ScoredIDs:
		vsym.Assert(idOnly, "an engine returns ids only")
		for _, x := range docs {
			found = append(found, types.ScoredDoc{ScoredID: x})
		}
	}
	want := 0
	for _, d := range data {
		if has(d, words) {
			want++
		}
	}
	vsym.Assert(len(found) == want, "a document with all words is not found, or another one is")
	for _, x := range found {
		i := index(ids, x.DocId)
		vsym.Assert(i >= 0, "an unknown document is found")
		if i < 0 || !has(data[i], words) {
			return
		}
		d := data[i]
		if !idOnly && !orderless {
			vsym.Assert(x.Content == d.Content, "a document is returned with another content")
			vsym.Assert(x.Attri == d.Attri, "a document is returned with other attributes")
			vsym.Assert(x.Fields == d.Fields, "a document is returned with other fields")
		}
		if !orderless {
			vsym.Assert(len(x.Scores) == 1 && x.Scores[0] == d.Fields.(float32), "a document is returned with another score")
		}
		if kind != 2 {
			vsym.Assert(len(x.TokenLocs) == 0 && len(x.TokenSnippetLocs) == 0, "positions come from an index that has none")
			continue
		}
		vsym.Reach("located")
		vsym.Assert(len(x.TokenLocs) == len(r.Tokens) && len(x.TokenSnippetLocs) == len(r.Tokens), "not one list of positions for each word")
		if len(x.TokenLocs) != len(r.Tokens) || len(x.TokenSnippetLocs) != len(r.Tokens) {
			return
		}
		for k, t := range r.Tokens {
			l := placesOf(d, t)
			vsym.Assert(sameInts(x.TokenLocs[k], l), "the positions of a word are not those in the document")
			here := false
			for _, p := range l {
				here = vsym.Or(here, p == x.TokenSnippetLocs[k])
			}
			vsym.Assert(here, "a snippet is to start where the word is not")
		}
	}
	if orderless && want > 0 {
		vsym.Reach("orderless")
	}
	vsym.Observe("n", len(found))
	vsym.Reach("end")
}

func placesOf(d types.DocData, word string) []int {
	for _, t := range d.Tokens {
		if t.Text == word {
			return t.Locations
		}
	}
	return nil
}

func has(d types.DocData, words []string) bool {
	for _, w := range words {
		if placesOf(d, w) == nil {
			return false
		}
	}
	return true
}
