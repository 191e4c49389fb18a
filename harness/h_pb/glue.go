package h_pb

import (
	"context"
	"net"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	"github.com/go-ego/riot/zzverif/vsym"
	"google.golang.org/grpc"
)

// server records which method got what.
type server struct {
	method string
	heart  pb.HeartReq
	doc    pb.DocReq
	del    pb.DeleteReq
	search pb.SearchReq

	result int32
	reply  pb.SearchReply
	err    bool
}

type refused struct{}

func (refused) Error() string { return "refused" }

func (s *server) fail() error {
	if s.err {
		return refused{}
	}
	return nil
}

func (s *server) HeartBeat(_ context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	s.method += "HeartBeat "
	s.heart = *in
	return &pb.Reply{Result: s.result}, s.fail()
}

func (s *server) DocInx(_ context.Context, in *pb.DocReq) (*pb.Reply, error) {
	s.method += "DocInx "
	s.doc = *in
	return &pb.Reply{Result: s.result}, s.fail()
}

func (s *server) Delete(_ context.Context, in *pb.DeleteReq) (*pb.Reply, error) {
	s.method += "Delete "
	s.del = *in
	return &pb.Reply{Result: s.result}, s.fail()
}

func (s *server) Search(_ context.Context, in *pb.SearchReq) (*pb.SearchReply, error) {
	s.method += "Search "
	s.search = *in
	return &s.reply, s.fail()
}

//vsym:harness prop=C28 tier=quick,thorough time=60 ttime=120
//vsym:bounds one call of each of the four methods over one connection, in any order of two, with arbitrary numbers below 121 and texts of 0..1 bytes; a server with and without interceptor; a handler that fails or not
//vsym:assume the transport delivers the encoded request and reply of a call unchanged (gRPC itself is modelled)
//vsym:reach end failed
func Methods() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vsym.Assert(err == nil, "cannot listen")
	through := ""
	var opts []grpc.ServerOption
	intercepted := vsym.Bool("interceptor")
	if intercepted {
		opts = append(opts, grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
			through += info.FullMethod + " "
			return h(ctx, req)
		}))
	}
	s := grpc.NewServer(opts...)
	srv := &server{}
	pb.RegisterGreeterServer(s, srv)
	go s.Serve(l)
	vsym.Settle()
	conn, err := grpc.Dial(l.Addr().String(), grpc.WithInsecure(), grpc.WithBlock())
	vsym.Assert(err == nil, "cannot connect")
	c := pb.NewGreeterClient(conn)
	ctx := context.Background()
	want, seen := "", ""
	for i := 0; i < 2; i++ {
		srv.err = vsym.Bool("fails")
		srv.result = small("result")
		var err error
		var r *pb.Reply
		switch vsym.Choice("method", 4) {
		case 0:
			want, seen = want+"HeartBeat ", seen+"/doc.Greeter/HeartBeat "
			msg := small("msg")
			r, err = c.HeartBeat(ctx, &pb.HeartReq{Msg: msg})
			vsym.Assert(srv.heart.Msg == msg, "a heartbeat arrives changed")
		case 1:
			want, seen = want+"DocInx ", seen+"/doc.Greeter/DocInx "
			id, content := vsym.Str("id", 0, 1), vsym.Str("content", 0, 1)
			r, err = c.DocInx(ctx, &pb.DocReq{DocId: id, Content: content, ForceUpdate: true})
			vsym.Assert(srv.doc.DocId == id && srv.doc.Content == content && srv.doc.ForceUpdate, "a document arrives changed")
		case 2:
			want, seen = want+"Delete ", seen+"/doc.Greeter/Delete "
			id := vsym.Str("id", 0, 1)
			r, err = c.Delete(ctx, &pb.DeleteReq{DocId: id})
			vsym.Assert(srv.del.DocId == id, "a removal arrives changed")
		case 3:
			want, seen = want+"Search ", seen+"/doc.Greeter/Search "
			q, max := vsym.Str("query", 0, 1), small("max")
			n := small("len")
			srv.reply = pb.SearchReply{Len: n, Docs: []*pb.Text{{Id: q}}}
			var found *pb.SearchReply
			found, err = c.Search(ctx, &pb.SearchReq{Query: q, MaxOutputs: max})
			vsym.Assert(srv.search.Query == q && srv.search.MaxOutputs == max, "a search arrives changed")
			if err == nil {
				vsym.Assert(found.Len == n && len(found.Docs) == 1 && found.Docs[0].Id == q, "a search reply arrives changed")
			}
		}
		vsym.Assert((err != nil) == srv.err, "a call succeeds although its handler failed, or fails although it succeeded")
		if err == nil && r != nil {
			vsym.Assert(r.Result == srv.result, "a reply arrives changed")
		}
		if err != nil {
			vsym.Reach("failed")
		}
		vsym.Assert(srv.method == want, "a call reaches another method")
	}
	if intercepted {
		vsym.Assert(through == seen, "the interceptor is told another method")
	}
	conn.Close()
	s.Stop()
	vsym.Reach("end")
}

// small is a number that takes a byte to send.
func small(name string) int32 { return int32(vsym.Int(name, 1, 120)) }
