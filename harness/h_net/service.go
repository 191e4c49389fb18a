package h_net

import (
	"context"
	"encoding/json"
	"errors"
	"net"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ego/riot"
	"github.com/go-ego/riot/net/com"
	rpc "github.com/go-ego/riot/net/grpc"
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	rhttp "github.com/go-ego/riot/net/http"
	"github.com/go-ego/riot/types"
	_ "github.com/go-ego/riot/zzverif/kvmodel"
	"github.com/go-ego/riot/zzverif/netmodel"
	"github.com/go-ego/riot/zzverif/vsym"
	"github.com/go-vgo/zlog/zlog"
	"google.golang.org/grpc"
)

// A record is what the service should hold of a document.
type record struct {
	content string
	words   map[string]bool
	locs    map[string][]int
	time    string
	ts      int64
	stamped bool // the service sets the time itself
}

func engineOptions() types.EngineOpts {
	return types.EngineOpts{
		NotUseGse: true, NumShards: 1, NumGseThreads: 1, NumIndexerThreads: 1, NumRankerThreads: 1,
		IndexerBufLen: 10, RankerBufLen: 10,
		IndexerOpts: &types.IndexerOpts{IndexType: types.LocsIndex, DocCacheSize: 100},
	}
}

// dial connects to a service started by the real InitGrpc.
func dial() pb.GreeterClient {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vsym.Assert(err == nil, "cannot listen")
	a := l.Addr().String()
	l.Close()
	go rpc.InitGrpc(a)
	vsym.Settle()
	conn, err := grpc.Dial(a, grpc.WithInsecure(), grpc.WithBlock())
	vsym.Assert(err == nil, "cannot connect")
	return pb.NewGreeterClient(conn)
}

var contents = []string{"x", "X y", ""}

// send adds a document over gRPC, with everything a document may have, or
// with the content and the time only.
func send(c pb.GreeterClient, id string, full bool) record {
	n := 2
	if full {
		n = 3
	}
	r := record{content: contents[vsym.Choice("content", n)], words: map[string]bool{}, locs: map[string][]int{}}
	q := &pb.DocReq{DocId: id, Content: r.content, ForceUpdate: full && vsym.Bool("force")}
	for _, w := range strings.Fields(strings.ToLower(r.content)) {
		r.words[w] = true
	}
	if r.content == "" || full && vsym.Bool("token") {
		a, b := vsym.Int("loc", 0, 120), vsym.Int("loc", 0, 120)
		q.Tokens = []*pb.TokenData{{Text: "t", Locations: []int32{int32(a), 125}}, {Text: "u", Locations: []int32{int32(b), 126}}, {Text: "v", Locations: []int32{7}}}
		r.words["t"], r.words["u"], r.words["v"] = true, true, true
		r.locs["t"], r.locs["u"], r.locs["v"] = []int{a, 125}, []int{b, 126}, []int{7}
	}
	if full && vsym.Bool("label") {
		q.Labels = []string{"l"}
		r.words["l"] = true
	}
	r.ts, r.time = int64(vsym.Int("ts", 0, 120)), "time"+id
	q.Attri, _ = (&pb.Attri{Ts: r.ts, Time: r.time}).Marshal()
	p, err := c.DocInx(context.Background(), q)
	vsym.Assert(err == nil && p.Result == 0, "a document is refused")
	if q.ForceUpdate {
		vsym.Settle()
		vsym.Assert(com.Searcher.HasDoc(id), "a forced document is not there")
		vsym.Reach("forced")
	}
	return r
}

// post adds a document over HTTP.
func post(id string) record {
	r := record{content: contents[vsym.Choice("content", 2)], words: map[string]bool{}, locs: map[string][]int{}, stamped: true}
	for _, w := range strings.Fields(strings.ToLower(r.content)) {
		r.words[w] = true
	}
	p := netmodel.NewPage()
	rhttp.AddIndex(p, get("/add", "docid", id, "query", r.content))
	vsym.Assert(p.Status == 200, "a document is refused")
	return r
}

func get(path string, kv ...string) *http.Request {
	v := url.Values{}
	for i := 0; i < len(kv); i += 2 {
		v.Set(kv[i], kv[i+1])
	}
	return &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: v.Encode()}, Header: http.Header{}}
}

// found checks a reply: the documents expected, latest first.
func found(docs map[string]record, want []string, max int, announced int, got []*pb.Text) {
	vsym.Assert(announced == len(got), "the length announced is another")
	size := len(want)
	if size > max {
		size = max
	}
	vsym.Assert(len(got) == size, "a search over the network finds another number of documents")
	seen := map[string]bool{}
	for k, g := range got {
		r, ok := docs[g.Id]
		vsym.Assert(ok && has(want, g.Id) && !seen[g.Id], "a search over the network finds a document it should not")
		seen[g.Id] = true
		vsym.Assert(g.Content == r.content, "a document is found with another content")
		if !r.stamped {
			vsym.Assert(g.Attri.Ts == r.ts && g.Attri.Time == r.time, "a document is found with other attributes")
		} else {
			vsym.Assert(g.Attri.Ts > 1000 && g.Attri.Time != "", "a document added over HTTP has no time")
		}
		if k > 0 {
			b := got[k-1]
			vsym.Assert(vsym.Or(b.Attri.Ts > g.Attri.Ts, vsym.And(b.Attri.Ts == g.Attri.Ts, b.Id > g.Id)), "the documents are not in order of time")
		}
	}
	if len(got) > 1 {
		vsym.Reach("several")
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// search asks one query in every form over gRPC or HTTP.
func search(c pb.GreeterClient, docs map[string]record, full bool) {
	queries, forms := 2, 2
	if full {
		queries, forms = 4, 5
	}
	q := &pb.SearchReq{Query: []string{"x", "y x", "t", "l"}[vsym.Choice("query", queries)]}
	words := strings.Fields(q.Query)
	max := 2
	if full && vsym.Bool("limited") {
		max = 1 + vsym.Choice("max", 2)*4
		q.MaxOutputs = int32(max)
	}
	overHTTP := vsym.Bool("http")
	var must, not []string
	if !overHTTP {
		switch vsym.Choice("form", forms) {
		case 1:
			q.DocIds = map[string]bool{"1": true}
		case 2:
			q.Logic = &pb.Logic{}
		case 3:
			q.Logic = &pb.Logic{Must: true, Expr: &pb.Expr{Must: words, NotIn: []string{"l"}}}
			not = []string{"l"}
		case 4:
			q.Logic = &pb.Logic{Should: true, Expr: &pb.Expr{Should: []string{"y", "t"}}}
			must, words = nil, nil
		}
	}
	var want []string
	for id, r := range docs {
		ok := len(q.DocIds) == 0 || q.DocIds[id]
		for _, w := range append(words, must...) {
			ok = ok && r.words[w]
		}
		for _, w := range not {
			ok = ok && !r.words[w]
		}
		if words == nil {
			ok = ok && (r.words["y"] || r.words["t"])
		}
		if ok {
			want = append(want, id)
		}
	}
	sort.Strings(want)
	if overHTTP {
		kv := []string{"userid", "u", "query", q.Query}
		if q.MaxOutputs > 0 {
			kv = append(kv, "maxOutputs", strconv.Itoa(max))
		}
		p := netmodel.NewPage()
		rhttp.Search(p, get("/search", kv...))
		var r rhttp.JsonResponse
		vsym.Assert(json.Unmarshal(p.Body, &r) == nil, "the reply is not JSON")
		var got []*pb.Text
		for _, d := range r.Docs {
			got = append(got, &pb.Text{Id: d.Id, Content: d.Content, Attri: &pb.Attri{Ts: d.Attri.Ts, Time: d.Attri.Time}})
		}
		found(docs, want, max, r.Len, got)
		return
	}
	r, err := c.Search(context.Background(), q)
	vsym.Assert(err == nil && r != nil, "a search fails")
	found(docs, want, max, int(r.Len), r.Docs)
}

func begin() pb.GreeterClient {
	zlog.InitDev()
	com.Searcher.Init(engineOptions())
	com.Conf = com.Config{Engine: com.Engine{MaxOutputs: 2}}
	rpc.VerifConfig(com.Conf)
	return dial()
}

// positions checks where the tokens sent are said to be.
func positions(docs map[string]record) {
	for _, id := range []string{"1", "2"} {
		if docs[id].locs["t"] == nil {
			continue
		}
		for _, w := range []string{"t", "u", "v"} {
			l := docs[id].locs[w]
			o := com.Search(com.SearchArgs{Query: w, DocIds: map[string]bool{id: true}})
			d, ok := o.Docs.(types.ScoredDocs)
			vsym.Assert(ok && len(d) == 1 && len(d[0].TokenLocs) == 1 && len(d[0].TokenLocs[0]) == len(l), "the positions of a token are lost")
			for i := range l {
				vsym.Assert(d[0].TokenLocs[0][i] == l[i], "the positions of a token are changed")
			}
			vsym.Reach("located")
		}
	}
}

//vsym:harness prop=C25 tier=quick,thorough time=90 ttime=700 root=1
//vsym:bounds one document (thorough two) sent over gRPC: content of 0..2 words, with or without three tokens at arbitrary positions, a label, forcing, arbitrary time; a plain second one; then one search over gRPC (plain, restricted, with an empty, a must/not-in, a should expression) or HTTP, limited or by the configured limit
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end several forced located
func Sent() {
	c := begin()
	docs := map[string]record{}
	docs["1"] = send(c, "1", true)
	docs["2"] = send(c, "2", vsym.Tier() > 0)
	com.Flush()
	search(c, docs, true)
	positions(docs)
	vsym.Reach("end")
}

//vsym:harness prop=C25 tier=quick,thorough time=90 ttime=700 root=1
//vsym:bounds 3 (thorough 4) additions or removals of 2 documents over gRPC or HTTP in any order, flushed in between or not (always around a removal); then one search over gRPC, restricted or not, or HTTP
//vsym:assume gRPC, HTTP and JSON deliver what is sent (modelled; replays run the real ones)
//vsym:reach end several
func Requests() {
	c := begin()
	docs := map[string]record{}
	for i := 0; i < 3+vsym.Tier(); i++ {
		id := []string{"1", "2"}[vsym.Choice("id", 2)]
		flush := true
		switch vsym.Choice("op", 4) {
		case 0:
			docs[id] = send(c, id, false)
			flush = i == 0 && vsym.Bool("flush")
		case 1:
			docs[id] = post(id)
			flush = i == 0 && vsym.Bool("flush")
		case 2:
			com.Flush()
			p, err := c.Delete(context.Background(), &pb.DeleteReq{DocId: id})
			vsym.Assert(err == nil && p.Result == 0, "a removal is refused")
			delete(docs, id)
		case 3:
			com.Flush()
			rhttp.DelIndex(netmodel.NewPage(), get("/del", "docid", id))
			delete(docs, id)
		}
		if flush {
			com.Flush()
		}
	}
	com.Flush()
	search(c, docs, false)
	vsym.Reach("end")
}

// recorder is a server that records what it is sent, and may fail.
type recorder struct {
	pb.GreeterServer
	doc   *pb.DocReq
	del   *pb.DeleteReq
	q     *pb.SearchReq
	fails bool
	n     int32
}

func (s *recorder) reply() (*pb.Reply, error) {
	if s.fails {
		return nil, errors.New("not well")
	}
	return &pb.Reply{Result: s.n}, nil
}

func (s *recorder) DocInx(_ context.Context, in *pb.DocReq) (*pb.Reply, error) {
	s.doc = in
	return s.reply()
}

func (s *recorder) Delete(_ context.Context, in *pb.DeleteReq) (*pb.Reply, error) {
	s.del = in
	return s.reply()
}

func (s *recorder) Search(_ context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	s.q = in
	if s.fails {
		return nil, errors.New("not well")
	}
	return &pb.SearchReply{Len: s.n, Docs: []*pb.Text{{Id: "7", Content: "c", Attri: &pb.Attri{Ts: 5}}}}, nil
}

//vsym:harness prop=C25 tier=quick,thorough time=60 ttime=120 root=1
//vsym:bounds one call of each client function with arbitrary numbers (document ids of one or two digits), to a server that answers anything, fails, or is not there
//vsym:assume gRPC delivers what is sent (modelled; replays run the real one)
//vsym:reach end failed
func Clients() {
	zlog.InitDev()
	s := &recorder{fails: vsym.Bool("fails"), n: int32(vsym.Int("n", 0, 120))}
	absent := s.fails && vsym.Bool("absent")
	a := "127.0.0.1:1" // nobody listens there
	if !absent {
		a = serve(s)
	}
	vsym.Settle()
	switch vsym.Choice("call", 3) {
	case 0:
		id := uint64(vsym.Int("id", 1, 99))
		force, loc := vsym.Bool("force"), int32(vsym.Int("loc", 0, 120))
		r := rpc.InitGrpcc(a, rpc.Doc{DocId: id, Content: "c", Attri: []byte{8, 1}, Labels: []string{"l", "m"}, ForceUpdate: force,
			Tokens: []*pb.TokenData{{Text: "t", Locations: []int32{loc}}}})
		if s.fails {
			vsym.Assert(r == 1, "a failure to add a document is not reported")
			break
		}
		d := s.doc
		vsym.Assert(r == s.n, "the result of adding a document is another")
		vsym.Assert(len(d.DocId) == 1 && id == uint64(d.DocId[0]-'0') || len(d.DocId) == 2 && id == uint64(d.DocId[0]-'0')*10+uint64(d.DocId[1]-'0'), "a document is sent with another id")
		vsym.Assert(d.Content == "c" && len(d.Attri) == 2 && d.Attri[0] == 8 && d.Attri[1] == 1 && d.ForceUpdate == force, "a document is sent changed")
		vsym.Assert(len(d.Labels) == 2 && d.Labels[0] == "l" && d.Labels[1] == "m", "a document is sent with other labels")
		vsym.Assert(len(d.Tokens) == 1 && d.Tokens[0].Text == "t" && len(d.Tokens[0].Locations) == 1 && d.Tokens[0].Locations[0] == loc, "a document is sent with other tokens")
	case 1:
		r := rpc.InitDelGrpcc(a, "9")
		if s.fails {
			vsym.Assert(r == 1, "a failure to remove a document is not reported")
			break
		}
		vsym.Assert(r == s.n, "the result of removing a document is another")
		vsym.Assert(s.del.DocId == "9", "another document is removed")
	case 2:
		off, max := vsym.Int("off", 0, 120), vsym.Int("max", 0, 120)
		l := types.Logic{Must: vsym.Bool("must"), Should: vsym.Bool("should"), NotIn: vsym.Bool("notin"),
			Expr: types.Expr{Must: []string{"a"}, Should: []string{"b", "c"}, NotIn: []string{"d"}}}
		r, err := rpc.InitSearchRpc(a, com.SearchArgs{Id: "u", Query: "q", Time: "t", OutputOffset: off, MaxOutputs: max,
			DocIds: map[string]bool{"1": true}, Logic: l})
		if s.fails {
			vsym.Assert(err != nil, "a failed search is not reported")
			break
		}
		vsym.Assert(err == nil && r.Len == s.n && len(r.Docs) == 1 && r.Docs[0].Id == "7" && r.Docs[0].Attri.Ts == 5, "the reply to a search is another")
		q := s.q
		vsym.Assert(q.Id == "u" && q.Query == "q" && q.Time == "t" && len(q.DocIds) == 1 && q.DocIds["1"], "a search is sent changed")
		vsym.Assert(vsym.And(q.OutputOffset == int32(off), q.MaxOutputs == int32(max)), "a search is sent with another window")
		g := q.Logic
		vsym.Assert(g.Must == l.Must && g.Should == l.Should && g.NotIn == l.NotIn, "a search is sent with another logic")
		vsym.Assert(len(g.Expr.Must) == 1 && g.Expr.Must[0] == "a" && len(g.Expr.Should) == 2 && g.Expr.Should[1] == "c" && len(g.Expr.NotIn) == 1 && g.Expr.NotIn[0] == "d", "a search is sent with another expression")
	}
	if s.fails {
		vsym.Reach("failed")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C25 tier=quick,thorough time=60 ttime=600 root=1
//vsym:bounds a service set up by InitEngine that stores in 2 shards: 2 (thorough 3) additions or removals of 2 documents over gRPC or HTTP, flushed in between; closed and set up again; one search over gRPC or HTTP
//vsym:assume leveldb keeps what its documentation promises and gob what it is given, if its type is registered (modelled; replays run the real ones); the dictionary of the segmenter has no entry for the words used
//vsym:reach end several
func Restarted() {
	zlog.InitDev()
	conf := com.Config{Engine: com.Engine{MaxOutputs: 2, NumShards: 1, StoreShards: 2, GseDict: "en", StoreFolder: vsym.TempDir() + "/index"}}
	rpc.InitEngine(conf)
	c := dial()
	docs := map[string]record{}
	for i := 0; i < 2+vsym.Tier(); i++ {
		id := []string{"1", "2"}[vsym.Choice("id", 2)]
		switch vsym.Choice("op", 3) {
		case 0:
			docs[id] = send(c, id, false)
		case 1:
			docs[id] = post(id)
		case 2:
			_, err := c.Delete(context.Background(), &pb.DeleteReq{DocId: id})
			vsym.Assert(err == nil, "a removal is refused")
			delete(docs, id)
		}
		com.Flush()
	}
	com.Searcher.Close()
	com.Searcher = riot.Engine{}
	rpc.InitEngine(conf)
	search(c, docs, false)
	vsym.Reach("end")
}
