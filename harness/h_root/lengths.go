package h_root

import (
	"math"
	"strings"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// length is the length of a document: the words its text is cut into, joined
// ones too, and the tokens given with it.
func length(d types.DocData, useGse bool, using int, pinyinToo bool) int {
	cut := func(f func(k *keywords)) int {
		k := keywords{pos: map[string][]int{}}
		f(&k)
		n := 0
		for _, p := range k.pos {
			n += len(p)
		}
		return n
	}
	low := strings.ToLower(d.Content)
	segments := cut(func(k *keywords) { k.segments(d.Content) })
	n := 0
	switch {
	case !useGse && using == 0 || using == 4:
		n = cut(func(k *keywords) { k.words(strings.Split(low, " "), false) })
	case using == 0 || using == 1:
		n = segments
	case using == 3:
		n = segments + cut(func(k *keywords) { k.words(chars(low), false) })
	case using == 5 || using == 6:
		n = cut(func(k *keywords) { k.words(chars(low), using == 6) })
	}
	if using != 1 || d.Content == "" {
		n += len(d.Tokens)
	}
	if pinyinToo {
		n += 2*len(chars(d.Content)) + len(pinyin(d.Content))
		if useGse {
			n += segments
		}
	}
	return n
}

//vsym:harness prop=C05 tier=quick,thorough time=90 ttime=600 root=1
//vsym:bounds an engine that keeps frequencies or positions; one document with arbitrary content of 0..2 (thorough 3) characters out of a, B and space (behind a Chinese character or not), none, one or two tokens, each documented splitting rule and the two into characters, with and without the segmentation library (its dictionary empty) and pinyin; a second one of three tokens; the score of each keyword; default parameters or others
//vsym:assume no stop words; floating point within one in ten thousand
//vsym:reach end scored
func Lengths() {
	rule := rules[vsym.Choice("rule", len(rules))]
	d := types.DocData{Content: letters("content", 2+vsym.Tier(), "aB "), Fields: float32(1)}
	py := vsym.Bool("pinyin")
	if (rule.gse || py) && vsym.Bool("wide") {
		d.Content = "中" + d.Content
	}
	switch vsym.Choice("tokens", 3) {
	case 1:
		d.Tokens = []types.TokenData{{Text: "t", Locations: []int{7}}, {Text: "u"}}
	case 2:
		d.Tokens = []types.TokenData{{Text: "a", Locations: []int{5, 9}}}
	}
	o := options(1, true)
	o.IndexerOpts.IndexType = types.FrequenciesIndex + vsym.Choice("index", 2)
	k1, b := 2.0, 0.75
	if vsym.Bool("parameters") {
		k1, b = 1.25, 0.5
		o.IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: float32(k1), B: float32(b)}
	}
	o.NotUseGse, o.Using, o.PinYin = !rule.gse, rule.using, py
	o.DefRankOpts.ScoringCriteria = types.RankByBM25{}
	e := &riot.Engine{}
	if rule.gse {
		var seg gse.Segmenter
		seg.LoadDict("en")
		e.WithGse(seg)
	}
	e.Init(o)
	e.Index("1", d)
	e.Index("2", types.DocData{Tokens: []types.TokenData{{Text: "v"}, {Text: "w", Locations: []int{0}}, {Text: "x"}}})
	e.Flush()
	l := float64(length(d, rule.gse, rule.using, py))
	k := expected(d, rule.gse, rule.using, nil)
	for w, pos := range k.pos {
		if len(pos) == 0 || k.fuzzy[w] {
			continue
		}
		tf := float64(len(pos))
		want := math.Log2(1+2) * tf * (k1 + 1) / (tf + k1*(1-b+b*l/((l+3)/2)))
		h := e.SearchID(types.SearchReq{Tokens: []string{w}})
		vsym.Assert(len(h.Docs) == 1 && len(h.Docs[0].Scores) == 1, "a document is not found by its keyword")
		vsym.Assert(math.Abs(float64(h.Docs[0].Scores[0])/want-1) < 1e-4, "the score counts another number of words")
		vsym.Reach("scored")
	}
	vsym.Reach("end")
}
