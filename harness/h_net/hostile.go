package h_net

import (
	"context"
	"encoding/json"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/netmodel"
	"github.com/go-ego/riot/zzverif/vsym"
	"github.com/go-vgo/zlog/zlog"
)

// number is a number as a client may send it, or "none" when it sends none.
func number(name string) string {
	l := []string{"none", "-1", "1", "9223372036854775807", "", "-", "-9223372036854775808", "1x"}
	return l[vsym.Choice(name, 5+3*vsym.Tier())]
}

func alive() {
	com.Flush()
	o := com.Search(com.SearchArgs{Query: "x", MaxOutputs: 5})
	d, ok := o.Docs.(types.ScoredDocs)
	vsym.Assert(ok && !o.Timeout, "the service does not answer any more")
	for _, id := range []string{"7", "8"} {
		n := 0
		for _, x := range d {
			if x.DocId == id {
				n++
			}
		}
		vsym.Assert(n == 1, "a request changes what is found of another document")
	}
}

func service() pb.GreeterClient {
	zlog.InitDev()
	opts := engineOptions()
	if vsym.Bool("docids") {
		opts.IndexerOpts.IndexType = types.DocIdsIndex
	}
	com.Searcher.Init(opts)
	com.Conf = com.Config{Engine: com.Engine{MaxOutputs: 2}}
	rpc.VerifConfig(com.Conf)
	c := dial()
	for _, id := range []string{"7", "8"} {
		_, err := c.DocInx(context.Background(), &pb.DocReq{DocId: id, Content: "x"})
		vsym.Assert(err == nil, "a document is refused")
	}
	com.Flush()
	return c
}

// searched asks any search over gRPC.
func searched(c pb.GreeterClient) {
	q := &pb.SearchReq{Query: []string{"x", "", "none", "x x", " "}[vsym.Choice("query", 5)],
		OutputOffset: int32(vsym.Int("offset", -1<<31, 1<<31-1)), MaxOutputs: int32(vsym.Int("max", -1<<31, 1<<31-1))}
	switch vsym.Choice("logic", 5) {
	case 1:
		q.Logic = &pb.Logic{Must: vsym.Bool("must"), Should: vsym.Bool("should"), NotIn: vsym.Bool("notin")}
	case 2:
		q.Logic = &pb.Logic{Should: true, Expr: &pb.Expr{Should: []string{""}}}
	case 3:
		q.Logic = &pb.Logic{Must: true, Expr: &pb.Expr{Must: []string{"x", "none"}, NotIn: []string{"x"}}}
	case 4:
		q.DocIds = map[string]bool{"none": true, "7": vsym.Bool("wanted")}
	}
	r, err := c.Search(context.Background(), q)
	vsym.Assert(err == nil && r != nil && int(r.Len) == len(r.Docs), "a search fails")
	vsym.Reach("search")
}

// looked asks for any search page.
func looked() {
	var kv []string
	if q := vsym.Choice("query", 3); q < 2 {
		kv = append(kv, "query", []string{"x", ""}[q])
	}
	for _, n := range []string{"outputOffset", "maxOutputs"} {
		if v := number(n); v != "none" {
			kv = append(kv, n, v)
		}
	}
	p := netmodel.NewPage()
	rhttp.Search(p, get("/search", kv...))
	var r rhttp.JsonResponse
	vsym.Assert(p.Status == 200 && json.Unmarshal(p.Body, &r) == nil && r.Len == len(r.Docs), "a search page fails")
	vsym.Reach("page")
}

// added sends any document over gRPC.
func added(c pb.GreeterClient) {
	q := &pb.DocReq{DocId: []string{"1", "0", ""}[vsym.Choice("id", 3)], ForceUpdate: vsym.Bool("force"),
		Content: []string{"y x", "", " "}[vsym.Choice("content", 3)]}
	if vsym.Bool("labels") {
		q.Labels = []string{"", "x", "x"}
	}
	if vsym.Bool("attri") {
		q.Attri = []byte{vsym.Byte("attri"), vsym.Byte("attri")}
	} else {
		for k := vsym.Choice("tokens", 3+vsym.Tier()); k > 0; k-- {
			t := &pb.TokenData{Text: []string{"", "x", "x"}[k-1]}
			for l := vsym.Choice("locations", 3); l > 0; l-- {
				t.Locations = append(t.Locations, int32(vsym.Int("loc", -3, 3)))
			}
			q.Tokens = append(q.Tokens, t)
		}
	}
	_, err := c.DocInx(context.Background(), q)
	vsym.Assert(err == nil, "a document is refused")
	vsym.Reach("document")
}

// posted sends any document over HTTP.
func posted() {
	var kv []string
	if id := vsym.Choice("id", 4); id < 3 {
		kv = append(kv, "docid", []string{"1", "0", ""}[id])
	}
	if q := vsym.Choice("content", 3); q < 2 {
		kv = append(kv, "query", []string{"x", ""}[q])
	}
	p := netmodel.NewPage()
	rhttp.AddIndex(p, get("/add", kv...))
	vsym.Assert(p.Status == 200, "the page to add a document fails")
	vsym.Reach("document")
}

// removed asks to remove a document that is not one of the two.
func removed(c pb.GreeterClient) {
	id := vsym.Choice("id", 4)
	if vsym.Bool("http") {
		var kv []string
		if id < 3 {
			kv = append(kv, "docid", []string{"1", "0", ""}[id])
		}
		p := netmodel.NewPage()
		rhttp.DelIndex(p, get("/del", kv...))
		vsym.Assert(p.Status == 200, "the page to remove a document fails")
	} else {
		_, err := c.Delete(context.Background(), &pb.DeleteReq{DocId: []string{"1", "0", "", "none"}[id]})
		vsym.Assert(err == nil, "a removal is refused")
	}
	vsym.Reach("removal")
}

//vsym:harness prop=C34 tier=quick,thorough time=90 ttime=400 root=1
//vsym:bounds a service with two documents, one shard, positions indexed or not; one search over gRPC with arbitrary 32 bit offset and limit, five queries, nine forms of logic, restricted or not, or over HTTP with query and each number missing or any of 4 (thorough 7) numbers; then a flush and a search
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end search page
func AnySearch() {
	c := service()
	if vsym.Bool("http") {
		looked()
	} else {
		searched(c)
	}
	alive()
	vsym.Reach("end")
}

//vsym:harness prop=C34 tier=quick,thorough time=90 ttime=400 root=1
//vsym:bounds as AnySearch, but one document over gRPC, with id, id 0 or none, forced or not, with or without content and labels, two (thorough three) tokens with up to two arbitrary positions of -3..3 or arbitrary two bytes of attributes; or over HTTP with id, id 0, an empty or no id, content or none
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end document
func AnyDocument() {
	c := service()
	if vsym.Bool("http") {
		posted()
	} else {
		added(c)
	}
	alive()
	vsym.Reach("end")
}

//vsym:harness prop=C34 tier=quick,thorough time=60 ttime=400 root=1
//vsym:bounds as AnySearch, but two (thorough three) requests, each a document over HTTP, a removal over gRPC or HTTP of a document that may be there, of id 0 or of none, or a heartbeat with an arbitrary number
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end document removal
func AnyRemoval() {
	c := service()
	for i := 0; i < 2+vsym.Tier(); i++ {
		switch vsym.Choice("request", 3) {
		case 0:
			posted()
		case 1:
			removed(c)
		case 2:
			n := int32(vsym.Int("beat", -1<<31, 1<<31-1))
			r, err := c.HeartBeat(context.Background(), &pb.HeartReq{Msg: n})
			vsym.Assert(err == nil && r.Result == n, "the heartbeat fails")
		}
		alive()
	}
	vsym.Reach("end")
}

//vsym:harness prop=C34 tier=quick,thorough time=60 ttime=400 root=1
//vsym:bounds a distributed search over gRPC, with arbitrary 32 bit offset and limit, or over HTTP, with query and each number missing or any of 4 (thorough 7) numbers, sent to 2 nodes of which any may fail, each with 0..2 documents
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end
func AnyDistributed() {
	all := nodes(2, 2, "x")
	for _, n := range all {
		n.asked = func(q, who string, o, m int, must []string, r bool) bool { return true }
	}
	overHTTP := vsym.Bool("http")
	setup(overHTTP, all)
	if overHTTP {
		var kv []string
		if vsym.Bool("query") {
			kv = append(kv, "query", "x")
		}
		for _, n := range []string{"outputOffset", "maxOutputs"} {
			if v := number(n); v != "none" {
				kv = append(kv, n, v)
			}
		}
		p := netmodel.NewPage()
		rhttp.WgDist(p, get("/dist", kv...))
		var r rhttp.JsonResponse
		vsym.Assert(p.Status == 200 && json.Unmarshal(p.Body, &r) == nil && r.Len == len(r.Docs), "a distributed search fails")
	} else {
		r, err := rpc.VerifEserver().Search(context.Background(), &pb.SearchReq{Query: "x",
			OutputOffset: int32(vsym.Int("offset", -1<<31, 1<<31-1)), MaxOutputs: int32(vsym.Int("max", -1<<31, 1<<31-1))})
		vsym.Assert(err == nil && r != nil && int(r.Len) == len(r.Docs), "a distributed search fails")
	}
	vsym.Reach("end")
}
