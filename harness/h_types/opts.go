package h_types

import (
	"runtime"

	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

// orDefault states that a number the user set is kept and an unset one gets a
// usable default.
func orDefault(what string, was, is, def int) {
	vsym.Assert(vsym.Or(was == 0, is == was), what+": a value the user set is replaced")
	vsym.Assert(vsym.Or(was != 0, is == def), what+": an unset option does not get its default")
}

type one struct{}

func (one) Score(types.IndexedDoc, interface{}) []float32 { return []float32{1} }

//vsym:harness prop=C13 tier=quick,thorough time=60 float=exact
//vsym:bounds every 64-bit value of every numeric option at once; index options absent, present without or with BM25 parameters; ranking options absent, present without or with a scoring rule; a second and third option set initialised afterwards
//vsym:reach end
func EngineDefaults() {
	o := types.EngineOpts{
		NumGseThreads:     vsym.AnyInt("NumGseThreads"),
		NumShards:         vsym.AnyInt("NumShards"),
		IndexerBufLen:     vsym.AnyInt("IndexerBufLen"),
		NumIndexerThreads: vsym.AnyInt("NumIndexerThreads"),
		RankerBufLen:      vsym.AnyInt("RankerBufLen"),
		NumRankerThreads:  vsym.AnyInt("NumRankerThreads"),
		StoreShards:       vsym.AnyInt("StoreShards"),
		Using:             vsym.AnyInt("Using"),
		NotUseGse:         vsym.Bool("NotUseGse"),
		UseStore:          vsym.Bool("UseStore"),
		StoreOnly:         vsym.Bool("StoreOnly"),
		IDOnly:            vsym.Bool("IDOnly"),
		PinYin:            vsym.Bool("PinYin"),
		GseMode:           vsym.Bool("GseMode"),
		Hmm:               vsym.Bool("Hmm"),
		GseDict:           "dict",
		StopTokenFile:     "stop",
		Model:             "model",
		StoreFolder:       "folder",
		StoreEngine:       "bg",
	}
	ix := vsym.Choice("indexer", 3)
	k1, b, cache, kind := vsym.F32("K1"), vsym.F32("B"), vsym.AnyInt("DocCacheSize"), vsym.AnyInt("IndexType")
	if ix > 0 {
		o.IndexerOpts = &types.IndexerOpts{IndexType: kind, DocCacheSize: cache}
		if ix > 1 {
			o.IndexerOpts.BM25Parameters = &types.BM25Parameters{K1: k1, B: b}
		}
	}
	rk := vsym.Choice("ranker", 3)
	off, max, rev := vsym.AnyInt("OutputOffset"), vsym.AnyInt("MaxOutputs"), vsym.Bool("ReverseOrder")
	if rk > 0 {
		o.DefRankOpts = &types.RankOpts{OutputOffset: off, MaxOutputs: max, ReverseOrder: rev}
		if rk > 1 {
			o.DefRankOpts.ScoringCriteria = one{}
		}
	}
	was := o
	wasIx, wasRk := o.IndexerOpts, o.DefRankOpts
	o.Init()

	orDefault("NumGseThreads", was.NumGseThreads, o.NumGseThreads, runtime.NumCPU())
	orDefault("NumShards", was.NumShards, o.NumShards, 8)
	orDefault("IndexerBufLen", was.IndexerBufLen, o.IndexerBufLen, runtime.NumCPU())
	orDefault("NumIndexerThreads", was.NumIndexerThreads, o.NumIndexerThreads, runtime.NumCPU())
	orDefault("RankerBufLen", was.RankerBufLen, o.RankerBufLen, runtime.NumCPU())
	orDefault("NumRankerThreads", was.NumRankerThreads, o.NumRankerThreads, runtime.NumCPU())
	orDefault("StoreShards", was.StoreShards, o.StoreShards, 8)
	vsym.Assert(o.Using == was.Using, "Using is changed")
	vsym.Assert(vsym.And(o.NotUseGse == was.NotUseGse, o.UseStore == was.UseStore, o.StoreOnly == was.StoreOnly,
		o.IDOnly == was.IDOnly, o.PinYin == was.PinYin, o.GseMode == was.GseMode, o.Hmm == was.Hmm), "a switch is changed")
	vsym.Assert(o.GseDict == "dict" && o.StopTokenFile == "stop" && o.Model == "model" && o.StoreFolder == "folder" && o.StoreEngine == "bg", "a text option is changed")

	vsym.Assert(o.IndexerOpts != nil && o.IndexerOpts.BM25Parameters != nil, "an engine is left without index options or BM25 parameters")
	switch ix {
	case 0:
		vsym.Assert(o.IndexerOpts.IndexType == types.FrequenciesIndex, "the default index does not store frequencies")
		vsym.Assert(o.IndexerOpts.BM25Parameters.K1 == 2 && o.IndexerOpts.BM25Parameters.B == 0.75, "the default BM25 parameters are not 2.0 and 0.75")
	case 1:
		vsym.Assert(o.IndexerOpts.IndexType == kind, "the index type the user set is replaced")
		vsym.Assert(o.IndexerOpts.BM25Parameters.K1 == 2 && o.IndexerOpts.BM25Parameters.B == 0.75, "the default BM25 parameters are not 2.0 and 0.75")
	case 2:
		vsym.Assert(o.IndexerOpts.IndexType == kind, "the index type the user set is replaced")
		vsym.Assert(vsym.SameF32(o.IndexerOpts.BM25Parameters.K1, k1), "the BM25 parameters the user set are replaced")
		vsym.Assert(vsym.SameF32(o.IndexerOpts.BM25Parameters.B, b), "the BM25 parameters the user set are replaced")
	}
	if wasIx != nil {
		vsym.Assert(vsym.Or(o.IndexerOpts.DocCacheSize == cache, vsym.And(cache == 0, o.IndexerOpts.DocCacheSize == 300000)), "the cache size the user set is replaced")
	}
	vsym.Assert(o.DefRankOpts != nil && o.DefRankOpts.ScoringCriteria != nil, "an engine is left without a scoring rule")
	if wasRk != nil {
		vsym.Assert(vsym.And(o.DefRankOpts.OutputOffset == off, o.DefRankOpts.MaxOutputs == max, o.DefRankOpts.ReverseOrder == rev), "the ranking options the user set are replaced")
	} else {
		vsym.Assert(!o.DefRankOpts.ReverseOrder && o.DefRankOpts.OutputOffset == 0, "the default ranking does not start at the best result")
	}
	_, isOne := o.DefRankOpts.ScoringCriteria.(one)
	_, isBM25 := o.DefRankOpts.ScoringCriteria.(types.RankByBM25)
	vsym.Assert(isOne == (rk == 2), "the scoring rule the user set is replaced")
	vsym.Assert(isBM25 == (rk != 2), "the default scoring rule is not BM25")

	again := o
	again.Init()
	vsym.Assert(vsym.And(again.NumGseThreads == o.NumGseThreads, again.NumShards == o.NumShards,
		again.IndexerBufLen == o.IndexerBufLen, again.NumIndexerThreads == o.NumIndexerThreads,
		again.RankerBufLen == o.RankerBufLen, again.NumRankerThreads == o.NumRankerThreads,
		again.StoreShards == o.StoreShards), "initialising options twice changes them")
	vsym.Assert(again.IndexerOpts.IndexType == o.IndexerOpts.IndexType && again.IndexerOpts.DocCacheSize == o.IndexerOpts.DocCacheSize, "initialising options twice changes them")

	// a later engine with no options still gets the documented defaults
	var fresh types.EngineOpts
	fresh.Init()
	vsym.Assert(fresh.IndexerOpts.IndexType == types.FrequenciesIndex, "one engine's index options leak into another's defaults")
	vsym.Assert(fresh.IndexerOpts.BM25Parameters.K1 == 2 && fresh.IndexerOpts.BM25Parameters.B == 0.75, "one engine's BM25 parameters leak into another's defaults")
	_, isBM25 = fresh.DefRankOpts.ScoringCriteria.(types.RankByBM25)
	vsym.Assert(isBM25 && !fresh.DefRankOpts.ReverseOrder && fresh.DefRankOpts.OutputOffset == 0 && fresh.DefRankOpts.MaxOutputs == 0, "one engine's ranking options leak into another's defaults")
	vsym.Observe("shards", o.NumShards)
	vsym.Reach("end")
}

//vsym:harness prop=C13 tier=quick,thorough time=60 float=exact
//vsym:bounds every index type and cache size, with and without BM25 parameters
//vsym:reach end
func IndexerDefaults() {
	kind, cache := vsym.AnyInt("IndexType"), vsym.AnyInt("DocCacheSize")
	o := types.IndexerOpts{IndexType: kind, DocCacheSize: cache}
	p := &types.BM25Parameters{K1: vsym.F32("K1"), B: vsym.F32("B")}
	k1, b := p.K1, p.B
	if vsym.Bool("params") {
		o.BM25Parameters = p
	}
	with := o.BM25Parameters != nil
	o.Init()
	orDefault("DocCacheSize", cache, o.DocCacheSize, 300000)
	vsym.Assert(o.IndexType == kind, "the index type the user set is replaced")
	if with {
		vsym.Assert(vsym.And(vsym.SameF32(o.BM25Parameters.K1, k1), vsym.SameF32(o.BM25Parameters.B, b)), "the BM25 parameters the user set are replaced")
	}
	size := o.DocCacheSize
	o.Init()
	vsym.Assert(o.DocCacheSize == size && o.IndexType == kind, "initialising options twice changes them")
	vsym.Observe("size", size)
	vsym.Reach("end")
}

//vsym:harness prop=C12 tier=quick,thorough time=60 float=exact
//vsym:bounds every float32 score and every combination of document fields
//vsym:reach end
func BM25Rule() {
	s := vsym.F32("bm25")
	r := types.RankByBM25{}.Score(types.IndexedDoc{DocId: "a", BM25: s, TokenProximity: 7}, vsym.AnyInt("fields"))
	vsym.Assert(len(r) == 1, "the BM25 rule does not score a document with one value")
	vsym.Assert(vsym.SameF32(r[0], s), "the BM25 rule does not score a document with its BM25 value")
	vsym.Reach("end")
}
