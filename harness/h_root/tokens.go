package h_root

import (
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gse"
	"github.com/go-ego/riot"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

// rules are the documented splitting rules that do without, or with, the
// segmentation library.
var rules = []struct {
	gse   bool
	using int
}{{false, 0}, {false, 2}, {false, 4}, {true, 0}, {true, 1}, {true, 2}, {true, 3}, {true, 4}, {false, 5}, {false, 6}, {true, 5}}

// keywords are those a document should be found by, with their positions.
type keywords struct {
	pos   map[string][]int
	fuzzy map[string]bool // both rules of a combined one give the keyword
	stop  []string
}

func (k *keywords) stopped(w string) bool {
	for _, s := range k.stop {
		if s == w {
			return true
		}
	}
	return false
}

func (k *keywords) add(w string, at int) {
	if !k.stopped(w) {
		k.pos[w] = append(k.pos[w], at)
	}
}

// words numbers the keywords: each word and all up to it joined, and what
// follows it joined if more is set.
func (k *keywords) words(parts []string, more bool) {
	n, all := 0, ""
	for i, w := range parts {
		if w == "" {
			continue
		}
		all += w
		keys := []string{w, all}
		if more {
			for j := i + 2; j <= len(parts); j++ {
				keys = append(keys, strings.Join(parts[i+1:j], ""))
			}
		}
		for _, x := range keys {
			if !k.stopped(x) {
				n++
				k.add(x, n)
			}
		}
	}
}

// segments are the runs of letters and every other character by itself, at
// their byte position.
func (k *keywords) segments(text string) {
	start := -1
	for i := 0; i < len(text); {
		_, size := utf8.DecodeRuneInString(text[i:])
		letter := text[i] >= 'a' && text[i] <= 'z' || text[i] >= 'A' && text[i] <= 'Z'
		if letter && start < 0 {
			start = i
		}
		if !letter {
			if start >= 0 {
				k.add(strings.ToLower(text[start:i]), start)
				start = -1
			}
			k.add(text[i:i+size], i)
		}
		i += size
	}
	if start >= 0 {
		k.add(strings.ToLower(text[start:]), start)
	}
}

func chars(s string) (r []string) {
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

func expected(d types.DocData, useGse bool, using int, stop []string) keywords {
	k := keywords{map[string][]int{}, map[string]bool{}, stop}
	low := strings.ToLower(d.Content)
	switch {
	case !useGse && using == 0 || using == 4:
		k.words(strings.Split(low, " "), false)
	case using == 0 || using == 1:
		k.segments(d.Content)
	case using == 3 && low != "":
		k.segments(low)
		for _, c := range chars(low) {
			k.fuzzy[c] = true
		}
		k.words(chars(low), false)
		for w := range k.pos {
			k.fuzzy[w] = true
		}
	case using == 5 || using == 6:
		k.words(chars(low), using == 6)
	}
	if using != 1 || d.Content == "" {
		for _, t := range d.Tokens {
			if !k.stopped(t.Text) {
				k.pos[t.Text] = t.Locations
				delete(k.fuzzy, t.Text)
			}
		}
	}
	for _, l := range d.Labels {
		if _, ok := k.pos[l]; !ok && !k.stopped(l) {
			k.pos[l] = nil
		}
	}
	return k
}

func tokenise(name string, max int, alphabet string) {
	rule := rules[vsym.Choice("rule", len(rules))]
	d := types.DocData{Content: vsym.Str("content", 0, max), Fields: float32(1)}
	for i := 0; i < len(d.Content); i++ {
		ok := false
		for j := 0; j < len(alphabet); j++ {
			ok = vsym.Or(ok, d.Content[i] == alphabet[j])
		}
		vsym.Assume(ok)
	}
	if rule.gse && vsym.Bool("wide") {
		d.Content = "中" + d.Content
	}
	switch vsym.Choice("tokens", 3) {
	case 1:
		d.Tokens = []types.TokenData{{Text: "t", Locations: []int{7}}, {Text: "A b"}}
	case 2:
		d.Tokens = []types.TokenData{{Text: "a", Locations: []int{5, 9}}}
	}
	switch vsym.Choice("labels", 3) {
	case 1:
		d.Labels = []string{"l", "T"}
	case 2:
		d.Labels = []string{"a", "t", "l"}
	}
	o := options(1, true)
	o.IndexerOpts.IndexType = types.LocsIndex
	o.NotUseGse, o.Using = !rule.gse, rule.using
	e := &riot.Engine{}
	var stop []string
	if rule.gse {
		if vsym.Bool("stop") {
			stop = []string{"a", "l", "t"}
			o.StopTokenFile = engmodel.StopFile("a\nl\n\nt")
		}
		var seg gse.Segmenter
		seg.LoadDict("en")
		e.WithGse(seg)
	}
	e.Init(o)
	e.Index("1", d)
	e.Flush()
	k := expected(d, rule.gse, rule.using, stop)
	vsym.Assert(e.NumTokenAdded() == uint64(len(k.pos)), "a document is indexed under too many or too few keywords")
	for w, pos := range k.pos {
		h := e.SearchID(types.SearchReq{Tokens: []string{w}})

		vsym.Assert(len(h.Docs) == 1, "a document is not found by its keyword")
		if len(h.Docs) != 1 {
			return
		}
		if k.fuzzy[w] {
			continue
		}
		locs := h.Docs[0].TokenLocs
		if len(pos) == 0 {
			vsym.Assert(len(locs) == 0 || len(locs) == 1 && len(locs[0]) == 0, "a keyword without positions has some")
			continue
		}
		vsym.Assert(len(locs) == 1 && len(locs[0]) == len(pos), "a keyword has another number of positions")
		for i := range pos {
			vsym.Assert(locs[0][i] == pos[i], "a keyword has another position")
		}
		vsym.Reach("located")
	}
	// the document is found by its own text, however it is written
	own := strings.Replace(strings.ToUpper(d.Content), " ", "  ", -1)
	if !rule.gse && rule.using%4 == 0 && strings.TrimSpace(own) != "" {
		h := e.SearchID(types.SearchReq{Text: own})
		vsym.Assert(len(h.Docs) == 1, "a document is not found by its own text")
		vsym.Reach("own")
	}
	q := keywords{pos: map[string][]int{}, stop: stop}
	q.segments(d.Content)
	if rule.gse && (rule.using < 2 || rule.using == 3) && len(q.pos) > 0 {
		h := e.SearchID(types.SearchReq{Text: strings.ToUpper(d.Content), Tokens: []string{}})
		vsym.Assert(len(h.Docs) == 1, "a document is not found by its own text")
		for _, w := range h.Tokens {
			_, ok := q.pos[w]
			vsym.Assert(ok, "a query is split into other words")
		}
		h = e.SearchID(types.SearchReq{Text: d.Content, Tokens: []string{"q"}})
		vsym.Assert(len(h.Docs) == 0, "a token given with the query is ignored")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C21 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds one document with arbitrary content of 0..3 (thorough 4) characters out of a, B and space (behind a wide character or not), 3 choices of tokens and of labels each, each documented splitting rule and the two into characters, with and without the segmentation library (its dictionary empty) and stop words
//vsym:assume no multi-character dictionary words (those are the library's), no search mode of the library, where both rules of a combined one give a keyword its positions are not checked
//vsym:reach end located own
func Tokens() { tokenise("content", 3+vsym.Tier(), "aB ") }
