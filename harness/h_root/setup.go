package h_root

import (
	"os"
	"strconv"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/store"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

//vsym:harness prop=C31 tier=quick,thorough time=120 ttime=700 root=1
//vsym:bounds New and NewEngine with 0..3 arguments, 1..3 shards, two folders; New with a configuration file that sets storage on or off, folder, 1..3 stores, engine, ids only, pinyin, segmentation, each in every combination; a dictionary of one word of two characters, or none; the engine made twice on one disk, one document each time
//vsym:assume the configuration library sets the fields the file names
//vsym:reach end file arguments
func Setup() {
	os.Chdir(vsym.TempDir())
	d := &disk{files: map[string]map[string]string{}}
	d.restart()
	store.RegisterStore("disk", d.opener)
	store.RegisterStore("ldb", d.opener)
	folder, stores, shards := riot.DefaultPath, 10, 10
	o := types.EngineOpts{}
	var args []interface{}
	file := vsym.Bool("file")
	dict := "en"
	known := vsym.Bool("dictionary")
	if known {
		dict = engmodel.DictFile("中中 100 n\n路 50 n\n")
	}
	if file {
		o = types.EngineOpts{
			NotUseGse: vsym.Bool("plain"), GseDict: dict, PinYin: vsym.Bool("pinyin"), IDOnly: vsym.Bool("idOnly"),
			UseStore: vsym.Bool("store"), StoreShards: 1 + vsym.Choice("stores", 3),
		}
		if o.UseStore && vsym.Bool("folder") {
			folder = "other"
			o.StoreFolder = folder
		}
		if vsym.Bool("engine") {
			o.StoreEngine = "disk"
		}
		stores, shards = o.StoreShards, 8
		args = []interface{}{engmodel.ConfFile(o)}
		vsym.Reach("file")
	} else {
		o.UseStore = true
		n := vsym.Choice("args", 4)
		if n > 0 {
			args = append(args, dict)
		}
		if n > 1 {
			folder = []string{"other", "some/folder"}[vsym.Choice("folder", 2)]
			args = append(args, folder)
		}
		if n > 2 {
			shards = 1 + vsym.Choice("shards", 3)
			stores = shards
			args = append(args, shards)
			vsym.Reach("arguments")
		}
	}
	make := func() *riot.Engine {
		if !file && vsym.Bool("newEngine") {
			return riot.NewEngine(args...)
		}
		return riot.New(args...)
	}
	text := "中中 x"
	for round := 0; round < 2; round++ {
		e := make()
		if !o.UseStore {
			vsym.Assert(len(d.open) == 0, "an engine without storage opens a store")
		} else {
			vsym.Assert(len(d.open) == stores, "an engine has another number of stores")
			for i := 0; i < stores; i++ {
				vsym.Assert(d.open[folder+"/"+riot.StoreFilePrefix+"."+strconv.Itoa(i)] != nil, "a store is not where it was asked for")
			}
		}
		old := round > 0 && o.UseStore
		e.Flush()
		vsym.Assert(e.HasDoc("0 1") == old, "a document is not found again by an engine made anew, or without storage")
		vsym.Assert(e.HasDocDB("0 1") == old, "a document is not stored, or without storage")
		e.Index("0 1", types.DocData{Content: text})
		e.RemoveDoc("other")
		e.Flush()
		vsym.Assert(e.NumRemoved() == uint64(shards), "an engine has another number of shards")
		vsym.Assert(e.HasDocDB("0 1") == o.UseStore, "a document is not stored, or without storage")
		r := e.Search(types.SearchReq{Text: "x"})
		vsym.Assert(r.NumDocs == 1, "a document is not found")
		if o.IDOnly {
			h, ok := r.Docs.(types.ScoredIDs)
			vsym.Assert(ok && len(h) == 1, "an engine for ids only returns something else")
		} else {
			h, ok := r.Docs.(types.ScoredDocs)
			vsym.Assert(ok && len(h) == 1 && h[0].Content == text, "an engine for documents returns something else")
		}
		vsym.Assert((e.Search(types.SearchReq{Text: "zh"}).NumDocs == 1) == false, "part of a syllable is found")
		vsym.Assert((e.Search(types.SearchReq{Text: "zhong"}).NumDocs == 1) == o.PinYin, "pinyin is on, or off, against the configuration")
		if o.NotUseGse {
			vsym.Assert(e.Search(types.SearchReq{Text: "中中x"}).NumDocs == 1, "a text is split with the library against the configuration")
		} else {
			words := e.Tokens(types.SearchReq{Text: "中中x"})
			vsym.Assert(len(words) == 2 || len(words) == 3, "a text is split without the library against the configuration")
			if !o.PinYin {
				n := e.Search(types.SearchReq{Tokens: []string{"中中"}}).NumDocs
				vsym.Assert((n == 1) == (known && (file || len(args) > 0)), "a word is known against the dictionary configured")
			}
		}
		e.Close()
		vsym.Assert(len(d.open) == 0, "a store is left open")
	}
	vsym.Reach("end")
}
