// Package h_net drives the network services of the engine.
package h_net

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strconv"

	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	_ "github.com/go-ego/riot/zzverif/engmodel"
	"github.com/go-ego/riot/zzverif/netmodel"
	_ "github.com/go-ego/riot/zzverif/rpcmodel"
	"github.com/go-ego/riot/zzverif/vsym"
	"github.com/go-vgo/zlog/zlog"
	"google.golang.org/grpc"
)

// doc is what a node knows of a document.
type doc struct {
	id string
	ts int64
}

func (d doc) content() string { return "c" + d.id }

// A node answers a query with the documents it holds for it.
type node struct {
	pb.GreeterServer
	docs  map[string][]doc
	fails bool
	wrong int // requests other than the one expected
	asked func(q, who string, off, max int, must []string, restricted bool) bool
}

func (n *node) Search(_ context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	if !n.asked(in.Query, in.Id+in.Time, int(in.OutputOffset), int(in.MaxOutputs), in.GetLogic().GetExpr().GetMust(), in.DocIds["r"]) {
		n.wrong++
	}
	if n.fails {
		return nil, errors.New("not well")
	}
	r := &pb.SearchReply{Len: int32(len(n.docs[in.Query]))}
	for _, d := range n.docs[in.Query] {
		r.Docs = append(r.Docs, &pb.Text{Id: d.id, Content: d.content(), Attri: &pb.Attri{Ts: d.ts, Time: "t" + d.id}})
	}
	return r, nil
}

func (n *node) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	f := req.FormValue
	off, _ := strconv.Atoi(f("outputOffset"))
	max, _ := strconv.Atoi(f("maxOutputs"))
	if req.URL.Path != "/search" || !n.asked(f("query"), f("userid")+f("time"), off, max, nil, false) {
		n.wrong++
	}
	if n.fails {
		w.WriteHeader(500)
		w.Write([]byte("not well"))
		return
	}
	r := rhttp.JsonResponse{Len: len(n.docs[f("query")])}
	for _, d := range n.docs[f("query")] {
		r.Docs = append(r.Docs, rhttp.Text{Id: d.id, Content: d.content(), Attri: types.Attri{Ts: d.ts, Time: "t" + d.id}})
	}
	b, _ := json.Marshal(&r)
	w.Write(b)
}

// serve makes a gRPC server available and returns its address.
func serve(s pb.GreeterServer) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vsym.Assert(err == nil, "cannot listen")
	g := grpc.NewServer()
	pb.RegisterGreeterServer(g, s)
	go g.Serve(l)
	return l.Addr().String()
}

// nodes makes n nodes that hold up to each documents for every query.
func nodes(n, each int, queries ...string) []*node {
	var all []*node
	id := 0
	for i := 0; i < n; i++ {
		x := &node{docs: map[string][]doc{}, fails: vsym.Bool("fails")}
		for _, q := range queries {
			most := each
			if i == 2 && vsym.Tier() == 0 {
				most = 1
			}
			k := vsym.Choice("docs", most+1)
			for j := 0; j < k; j++ {
				id++
				// ids whose order is not that of the nodes
				d := doc{string(rune('a' + id*5%8)), int64(vsym.Int("ts", 0, 120))}
				if j > 0 {
					l := x.docs[q][j-1]
					vsym.Assume(vsym.Or(l.ts > d.ts, vsym.And(l.ts == d.ts, l.id > d.id)))
				}
				x.docs[q] = append(x.docs[q], d)
			}
		}
		all = append(all, x)
	}
	return all
}

// merged checks the reply to a query.
func merged(all []*node, q string, max int, announced int, got []doc, intact bool) {
	var want []doc
	for _, n := range all {
		vsym.Assert(n.wrong == 0, "a node is asked for something else")
		if !n.fails {
			want = append(want, n.docs[q]...)
		}
	}
	size := len(want)
	if size > max {
		size = max
		vsym.Reach("cut")
	}
	vsym.Assert(intact, "a document arrives changed")
	vsym.Assert(len(got) == size, "the merged reply has another number of documents")
	vsym.Assert(announced == size, "the length announced is another")
	// every document returned stands behind exactly those that precede it
	for k, g := range got {
		before, known := 0, false
		for _, w := range want {
			if w.id == g.id {
				known = vsym.Or(known, w.ts == g.ts)
			}
			before += vsym.IteInt(vsym.Or(w.ts > g.ts, vsym.And(w.ts == g.ts, w.id > g.id)), 1, 0)
		}
		vsym.Assert(known, "a document no node returned for the query")
		vsym.Assert(before == k, "the merged documents are not the first ones in order")
	}
	if len(got) > 1 {
		vsym.Reach("several")
	}
}

func rpcDocs(r *pb.SearchReply) ([]doc, bool) {
	var got []doc
	intact := true
	for _, d := range r.Docs {
		x := doc{d.Id, d.Attri.Ts}
		intact = intact && d.Content == x.content() && d.Attri.Time == "t"+x.id
		got = append(got, x)
	}
	return got, intact
}

func httpDocs(r *rhttp.JsonResponse) ([]doc, bool) {
	var got []doc
	intact := true
	for _, d := range r.Docs {
		x := doc{d.Id, d.Attri.Ts}
		intact = intact && d.Content == x.content() && d.Attri.Time == "t"+x.id
		got = append(got, x)
	}
	return got, intact
}

// ask sends one search to all nodes, over gRPC or HTTP.
func ask(http1 bool, q string, max, off int) (int, []doc, bool) {
	if http1 {
		p := netmodel.NewPage()
		rhttp.WgDist(p, &http.Request{Method: "GET", URL: &url.URL{Path: "/dist",
			RawQuery: "userid=u&time=t&query=" + q + "&maxOutputs=" + strconv.Itoa(max) + "&outputOffset=" + strconv.Itoa(off)}})
		vsym.Assert(p.Status == 200, "a distributed search fails")
		var r rhttp.JsonResponse
		vsym.Assert(json.Unmarshal(p.Body, &r) == nil, "the reply is not JSON")
		got, intact := httpDocs(&r)
		return r.Len, got, intact
	}
	r, err := rpc.VerifEserver().Search(context.Background(), &pb.SearchReq{Id: "u", Time: "t", Query: q, MaxOutputs: int32(max), OutputOffset: int32(off),
		DocIds: map[string]bool{"r": true}, Logic: &pb.Logic{Expr: &pb.Expr{Must: []string{"m"}}}})
	vsym.Assert(err == nil && r != nil, "a distributed search fails")
	got, intact := rpcDocs(r)
	return int(r.Len), got, intact
}

func setup(overHTTP bool, all []*node) {
	conf := com.Config{Engine: com.Engine{MaxOutputs: 2, OutputOffset: 0}}
	for _, n := range all {
		if overHTTP {
			conf.Url = append(conf.Url, netmodel.Serve(n))
		} else {
			conf.Rpc.DistPort = append(conf.Rpc.DistPort, serve(n))
		}
	}
	if overHTTP {
		com.Conf = conf
	} else {
		rpc.VerifConfig(conf)
	}
	zlog.InitDev() // as the services' main does
	vsym.Settle()
}

//vsym:harness prop=C24 tier=quick,thorough time=90 ttime=600 root=1
//vsym:bounds one search over gRPC or HTTP sent to 1..3 nodes, of which any may fail, each holding 0..2 documents (quick: the third 0..1) with arbitrary times of 0..120, limits 1..3 or the configured one (2), offset 0..1
//vsym:assume a node replies with its documents in order, no more than asked for when it is the only one; gRPC, HTTP transport and JSON deliver what is sent (modelled, replays run the real ones)
//vsym:reach end cut several
func Merge() {
	all := nodes(1+vsym.Choice("nodes", 3), 2, "x")
	overHTTP := vsym.Bool("http")
	max := vsym.Choice("max", 4)
	off := vsym.Choice("off", 2)
	eff, effOff := max, off
	if max == 0 {
		eff, effOff = 2, 0
	}
	answering := 0
	for _, n := range all {
		n.asked = func(q, who string, o, m int, must []string, r bool) bool {
			return q == "x" && who == "ut" && o == effOff && m == eff && (overHTTP || r && len(must) == 1 && must[0] == "m")
		}
		if !n.fails {
			answering++
		}
	}
	for _, n := range all {
		vsym.Assume(answering > 1 || n.fails || len(n.docs["x"]) <= eff)
	}
	setup(overHTTP, all)
	announced, got, intact := ask(overHTTP, "x", max, off)
	merged(all, "x", eff, announced, got, intact)
	vsym.Reach("end")
}

//vsym:harness prop=C24 tier=quick,thorough time=120 ttime=600 sched=delay pre=1 race=1 root=1
//vsym:bounds two different searches at once, over gRPC or HTTP, sent to 2 nodes each of which may fail and holds 0..1 documents for each, with arbitrary times; every schedule with 1 delay (thorough 2); data races
//vsym:reach end several
func MergeConcurrent() {
	all := nodes(2, 1, "x", "y")
	overHTTP := vsym.Bool("http")
	for _, n := range all {
		n.asked = func(q, who string, o, m int, must []string, r bool) bool {
			return (q == "x" || q == "y") && who == "ut" && o == 0 && m == 3
		}
	}
	setup(overHTTP, all)
	done := make(chan bool)
	for _, q := range []string{"x", "y"} {
		go func(q string) {
			announced, got, intact := ask(overHTTP, q, 3, 0)
			merged(all, q, 3, announced, got, intact)
			done <- true
		}(q)
	}
	<-done
	<-done
	vsym.Reach("end")
}
