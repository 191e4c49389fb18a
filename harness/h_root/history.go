package h_root

import (
	"strings"

	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// versions of a document differ in every part.
var versions = []types.DocData{
	{Content: "x", Fields: float32(1), Attri: "a"},
	{Content: "y z", Labels: []string{"l"}, Fields: float32(2), Attri: 2},
	{Content: "", Tokens: []types.TokenData{{Text: "x", Locations: []int{0}}, {Text: "z"}}, Labels: []string{"z", "l"}, Fields: float32(3)},
	{Content: "x y X", Fields: float32(4), Attri: "b"},
}

var keys = []struct {
	req types.SearchReq
	in  [4]bool
}{
	{types.SearchReq{Text: "x"}, [4]bool{true, false, true, true}},
	{types.SearchReq{Text: "y"}, [4]bool{false, true, false, true}},
	{types.SearchReq{Tokens: []string{"z"}}, [4]bool{false, true, true, false}},
	{types.SearchReq{Labels: []string{"l"}}, [4]bool{false, true, true, false}},
}

// check compares every search with the version each document should have, -1
// for none.
func check(e searcher, ids []string, now []int, idOnly bool) {
	for _, q := range keys {
		o := e.Search(q.req)
		h := hits(o)
		want := 0
		for i, id := range ids {
			w := now[i] >= 0 && q.in[now[i]]
			if w {
				want++
			}
			c := 0
			for _, x := range h {
				if x.id != id {
					continue
				}
				c++
				if w {
					d := versions[now[i]]
					vsym.Assert(len(x.score) == 1 && x.score[0] == d.Fields.(float32), "a document is scored with data of another version")
					vsym.Assert(idOnly || x.content == d.Content && x.attri == d.Attri, "a document is returned with data of another version")
				}
			}
			vsym.Assert(!w || c == 1, "the latest version of a document is not found, or twice")
			vsym.Assert(w || c == 0, "a removed document or version is found")
		}
		vsym.Assert(len(h) == want && o.NumDocs == want, "the count is not that of the matching documents")
	}
	for i, id := range ids {
		vsym.Assert(e.HasDoc(id) == (now[i] >= 0), "HasDoc is wrong")
	}
}

type searcher interface {
	Search(types.SearchReq) types.SearchResp
	HasDoc(string) bool
}

//vsym:harness prop=C19 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds 1..3 shards, 2 documents with ids that spread in three ways, histories of 3 (thorough 4) operations: index with one of 4 versions differing in content, tokens, labels, fields and attributes, or remove; forced or not; flushed in between always when an addition and a removal of one id follow each other, and otherwise in every way; id-only or full, index with or without locations
//vsym:reach end replaced
func Versions() {
	idOnly := vsym.Bool("idOnly")
	o := options(1+vsym.Choice("shards", 3), idOnly)
	if vsym.Tier() > 0 && vsym.Bool("locs") {
		o.IndexerOpts.IndexType = types.LocsIndex
	}
	e := start(o)
	ids := docIDs(2)
	now := []int{-1, -1}
	last := []int{0, 0} // kind of the operation not yet flushed: 1 add, 2 remove
	steps := 3 + vsym.Tier()
	for s := 0; s < steps; s++ {
		d := 0
		if s > 0 { // the first document may be called the first
			d = vsym.Choice("doc", 2)
		}
		v := vsym.Choice("version", len(versions)+1)
		kind := 1
		if v == len(versions) {
			kind = 2
		}
		if last[d] != 0 && (last[d] != kind || vsym.Bool("flush")) {
			e.Flush()
			last = []int{0, 0}
		}
		force := s == 1 && vsym.Bool("force")
		if kind == 2 {
			e.RemoveDoc(ids[d], force)
			if now[d] >= 0 {
				vsym.Reach("replaced")
			}
			now[d] = -1
		} else {
			e.Index(ids[d], versions[v], force)
			now[d] = v
		}
		last[d] = kind
	}
	e.Flush()
	check(e, ids, now, idOnly)
	vsym.Reach("end")
}

// The content decides which shard a new document goes to.
//
//vsym:harness prop=C19 tier=quick,thorough time=120 ttime=600 root=1
//vsym:bounds 1..3 (thorough 4) shards, a document with contents of 0..2 arbitrary letters a, b or spaces, replaced by another such content, or removed first, with another document beside it
//vsym:reach end same other
func AnyContent() {
	e := start(options(1+vsym.Choice("shards", 3+vsym.Tier()), false))
	letters := func(name string) string {
		s := vsym.Str(name, 0, 2)
		for i := 0; i < len(s); i++ {
			vsym.Assume(s[i] == 'a' || s[i] == 'b' || s[i] == ' ')
		}
		return s
	}
	first, second := letters("first"), letters("second")
	e.Index("1", types.DocData{Content: first, Fields: float32(1)})
	e.Index("2", types.DocData{Content: "a b", Fields: float32(3)})
	if vsym.Bool("flush") {
		e.Flush()
		if vsym.Bool("remove") {
			e.RemoveDoc("1")
			e.Flush()
		}
	}
	e.Index("1", types.DocData{Content: second, Fields: float32(2)})
	e.Flush()
	if first == second {
		vsym.Reach("same")
	} else {
		vsym.Reach("other")
	}
	for _, w := range []string{"a", "b", "aa", "ab", "ba", "bb"} {
		want := 0
		for _, f := range strings.Fields(second) {
			if f == w {
				want = 1
			}
		}
		if strings.Replace(second, " ", "", -1) == w { // joined words are found too
			want = 1
		}
		n := 0
		for _, x := range hits(e.Search(types.SearchReq{Text: w})) {
			if x.id == "1" {
				n++
				vsym.Assert(x.score[0] == 2 && x.content == second, "the old version is returned")
			}
		}
		vsym.Assert(n == want, "the new version is not found exactly when it matches")
	}
	vsym.Reach("end")
}
