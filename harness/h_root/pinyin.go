package h_root

import (
	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

// letters is a text of up to max characters out of the alphabet.
func letters(name string, max int, alphabet string) string {
	s := vsym.Str(name, 0, max)
	for i := 0; i < len(s); i++ {
		ok := false
		for j := 0; j < len(alphabet); j++ {
			ok = vsym.Or(ok, s[i] == alphabet[j])
		}
		vsym.Assume(ok)
	}
	return s
}

// pinyin gives the leading parts of the pinyin of a text, of its syllables and
// of their initials.
func pinyin(text string) (parts []string) {
	all, first := "", ""
	for _, r := range text {
		if p := engmodel.Syllable(r); p != "" {
			all += p
			first += p[:1]
			parts = append(parts, all, first)
		}
	}
	return parts
}

//vsym:harness prop=C30 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds one document whose text is up to two (thorough three) Chinese characters out of 中 在 路, each followed by 0..1 (the first, and all in thorough, 0..2) arbitrary characters out of a, z and space; with a token, a label, stop words or none; no segmentation, the segmentation library (its dictionary empty), or tokens only with either
//vsym:assume the pinyin of single characters is the library's; lower-case text; no phrase mode
//vsym:reach end located
func Pinyin() {
	rule := []struct {
		gse   bool
		using int
	}{{false, 0}, {true, 0}, {false, 2}, {true, 2}}[vsym.Choice("rule", 4)]
	han := []string{"中", "在", "路"}
	n := vsym.Choice("n", 3+vsym.Tier())
	var d types.DocData
	for i := 0; i < n; i++ {
		rest := 1 + vsym.Tier()
		if i == 0 {
			rest = 2
		}
		d.Content += han[vsym.Choice("han", 3)] + letters("rest", rest, "az ")
	}
	d.Fields = float32(1)
	if vsym.Bool("given") {
		d.Tokens = []types.TokenData{{Text: "zai", Locations: []int{5, 9}}}
		d.Labels = []string{"z"}
	}
	o := options(1, true)
	o.IndexerOpts.IndexType = types.LocsIndex
	o.NotUseGse, o.Using, o.PinYin = !rule.gse, rule.using, true
	e := &riot.Engine{}
	var stop []string
	if rule.gse {
		if vsym.Bool("stop") {
			stop = []string{"zai", "路"}
			o.StopTokenFile = engmodel.StopFile("zai\n路\n")
		}
		var seg gse.Segmenter
		seg.LoadDict("en")
		e.WithGse(seg)
	}
	e.Init(o)
	e.Index("1", d)
	e.Flush()
	// what it has without pinyin keeps its positions
	k := expected(d, rule.gse, rule.using, stop)
	for w, pos := range k.pos {
		h := e.SearchID(types.SearchReq{Tokens: []string{w}})
		vsym.Assert(len(h.Docs) == 1, "a document is not found by its keyword")
		locs := h.Docs[0].TokenLocs
		if len(pos) == 0 {
			continue
		}
		vsym.Assert(len(locs) == 1 && len(locs[0]) == len(pos), "a keyword has another number of positions")
		for i := range pos {
			vsym.Assert(locs[0][i] == pos[i], "a keyword has another position")
		}
		vsym.Reach("located")
	}
	for _, w := range pinyin(d.Content) {
		if k.stopped(w) {
			continue
		}
		h := e.SearchID(types.SearchReq{Text: w})
		vsym.Assert(len(h.Docs) == 1, "a document is not found by its pinyin")
		if _, ok := k.pos[w]; !ok {
			k.pos[w] = nil
		}
	}
	all := ""
	for _, c := range chars(d.Content) {
		all += c
		for _, w := range []string{c, all} {
			if !k.stopped(w) {
				k.pos[w] = nil
			}
		}
	}
	if rule.gse {
		q := keywords{pos: map[string][]int{}, stop: stop}
		q.segments(d.Content)
		for w := range q.pos {
			k.pos[w] = nil
		}
	}
	vsym.Assert(e.NumTokenAdded() == uint64(len(k.pos)), "a document is indexed under too many or too few keywords")
	vsym.Reach("end")
}
