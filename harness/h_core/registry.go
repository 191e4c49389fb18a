package h_core

import (
	"github.com/go-ego/riot/core"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
)

//vsym:harness prop=C27 tier=quick,thorough time=60 ttime=300
//vsym:bounds histories of 4 (thorough 5) operations (create a shard, record a document, record an index row) on arbitrary shard numbers and arbitrary one-byte ids; every id probed
//vsym:reach end exists absent
func Registries() {
	n := 4 + vsym.Tier()
	type rec struct {
		kind  int
		shard int
		id    string
		info  *types.DocInfo
		row   *types.KeywordIndices
	}
	var h []rec
	for i := 0; i < n; i++ {
		x := rec{kind: vsym.Choice("op", 4), shard: vsym.Choice("shard", 2) * 3}
		switch x.kind {
		case 0:
			core.AddDocInfosShard(x.shard)
		case 1:
			x.id, x.info = vsym.Str("id", 1, 1), &types.DocInfo{TokenLens: float32(i)}
			core.AddDocInfo(x.shard, x.id, x.info)
		case 2:
			core.AddInvertedIndexShard(x.shard)
		case 3:
			x.id, x.row = vsym.Str("id", 1, 1), &types.KeywordIndices{DocIds: []uint64{uint64(i)}}
			core.AddKeywordIndices(x.shard, x.id, x.row)
		}
		h = append(h, x)
	}
	probe := vsym.Str("probe", 1, 1)
	want := false
	for _, x := range h {
		if x.kind == 1 {
			want = vsym.Or(want, x.id == probe)
		}
	}
	vsym.Assert(core.IsDocExist(probe) == want, "a document exists exactly if it was recorded")
	if want {
		vsym.Reach("exists")
	} else {
		vsym.Reach("absent")
	}
	for _, shard := range []int{0, 3} {
		var info *types.DocInfo
		var row *types.KeywordIndices
		docs, rows, madeD, madeR := 0, 0, false, false
		for _, x := range h {
			if x.shard != shard {
				continue
			}
			switch x.kind {
			case 0:
				madeD = true
			case 1:
				madeD = true
				docs++
				if x.id == probe {
					info = x.info
				}
			case 2:
				madeR = true
			case 3:
				madeR = true
				rows++
				if x.id == probe {
					row = x.row
				}
			}
		}
		d, ok := core.DocInfoGroup[shard]
		vsym.Assert(ok == madeD, "a document shard exists exactly if it was created or written to")
		if ok {
			vsym.Assert(d.DocInfos[probe] == info, "a shard does not hold the latest record of a document")
			vsym.Assert(d.NumDocs == uint64(docs), "a shard miscounts the recorded documents")
		}
		r, ok := core.InvertedIndexGroup[shard]
		vsym.Assert(ok == madeR, "an index shard exists exactly if it was created or written to")
		if ok {
			vsym.Assert(r.InvertedIndex[probe] == row, "a shard does not hold the latest row of a keyword")
			vsym.Assert(int(r.TotalTokenLen) == rows, "a shard miscounts the recorded rows")
		}
	}
	vsym.Observe("exists", want)
	vsym.Reach("end")
}

//vsym:harness prop=C27 tier=quick,thorough time=60 ttime=300 sched=delay pre=2 race=1
//vsym:bounds three goroutines, one recording a document, one creating a shard and recording a row, one asking for existence; delay-bounded schedules; data races reported
//vsym:reach end
func RegistriesShared() {
	done := make(chan bool, 3)
	id := vsym.Str("id", 1, 1)
	probe := vsym.Str("probe", 1, 1)
	go func() {
		core.AddDocInfo(1, id, &types.DocInfo{})
		done <- true
	}()
	go func() {
		core.AddDocInfosShard(1)
		core.AddInvertedIndexShard(1)
		core.AddKeywordIndices(1, id, &types.KeywordIndices{})
		done <- true
	}()
	seen := false
	go func() {
		seen = core.IsDocExist(probe)
		done <- true
	}()
	<-done
	<-done
	<-done
	vsym.Assert(!seen || id == probe, "a document that was never recorded exists")
	vsym.Assert(core.IsDocExist(id), "a recorded document does not exist")
	vsym.Assert(core.DocInfoGroup[1].NumDocs == 1, "creating a shard loses a recorded document")
	_, ok := core.InvertedIndexGroup[1].InvertedIndex[id]
	vsym.Assert(ok, "a recorded row is lost")
	vsym.Reach("end")
}
