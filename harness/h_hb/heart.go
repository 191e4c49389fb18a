// Package h_hb drives the heartbeat monitor against a server whose answers
// are arbitrary.
package h_hb

import (
	"context"
	"errors"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	hb "github.com/go-ego/riot/net/heartb"
	_ "github.com/go-ego/riot/zzverif/rpcmodel"
	"github.com/go-ego/riot/zzverif/vsym"
	"google.golang.org/grpc"
)

type server struct {
	pb.GreeterServer // the other methods are never called
	n                int
	beats            int
	failed           int
	restarts         int
	dir              string
	over             chan bool
	stop             chan bool
}

// HeartBeat first compares what the monitor did so far with what the beats
// answered so far call for, then answers.
func (s *server) HeartBeat(_ context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	if s.failed > 3 {
		s.restarts++
		s.failed = 0
		vsym.Reach("restart")
	}
	done := restarted(s.dir)
	vsym.Assert(len(done) == s.restarts, "the number of restarts is wrong")
	for _, d := range done {
		vsym.Assert(d == s.dir, "the restart command ran in another folder")
	}
	vsym.Assert(strings.Contains(health(), `"health":`+string(rune('0'+s.failed))+"}"), "the health page reports another number of failures")
	if s.beats == s.n {
		vsym.Observe("restarts", s.restarts)
		s.over <- true
		<-s.stop
	}
	s.beats++
	if s.beats%3 != 1 && vsym.Bool("error") {
		s.failed++
		return nil, errors.New("not well")
	}
	r := int32(vsym.Int("result", 1, 120))
	if s.beats == 1 {
		r = int32(vsym.AnyInt("result32"))
	}
	if r != 1 {
		s.failed++
	}
	return &pb.Reply{Result: r}, nil
}

type page struct {
	body   []byte
	header http.Header
}

func (p *page) Header() http.Header         { return p.header }
func (p *page) Write(b []byte) (int, error) { p.body = append(p.body, b...); return len(b), nil }
func (p *page) WriteHeader(int)             {}

func health() string {
	p := &page{header: http.Header{}}
	hb.Health(p, nil)
	return string(p.body)
}

// restarted lists the folders the restart command ran in so far.
func restarted(dir string) []string {
	var all []string
	for _, d := range []string{dir, filepath.Dir(dir)} {
		if b, err := os.ReadFile(d + "/log"); err == nil {
			all = append(all, strings.Fields(string(b))...)
		}
	}
	return all
}

// folder makes a folder to restart in, and its parent the current one.
func folder() string {
	os.Chdir(vsym.TempDir())
	os.Mkdir("sub", 0777)
	return vsym.TempDir() + "/sub"
}

//vsym:harness prop=C26 tier=quick,thorough time=90 ttime=500
//vsym:bounds every sequence of 8 (thorough 11) heartbeats, each answered with an error or an arbitrary result (the first of 32 bits, the others 1..120); a restart command that succeeds or fails, or runs in a folder given by its relative path
//vsym:assume gRPC delivers each call and its answer; the shell runs the command (modelled; replays run the real ones)
//vsym:reach end restart
func Beats() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vsym.Assert(err == nil, "cannot listen")
	s := grpc.NewServer()
	srv := &server{n: 8 + 3*vsym.Tier(), dir: folder(), over: make(chan bool), stop: make(chan bool)}
	pb.RegisterGreeterServer(s, srv)
	go s.Serve(l)
	cmd, dir := "pwd >> log", srv.dir
	switch vsym.Choice("command", 3) {
	case 1:
		cmd += "; exit 1"
	case 2:
		dir = "sub"
	}
	go hb.Grpcc(l.Addr().String(), dir, cmd)
	<-srv.over
	vsym.Reach("end")
}

// The health page may be asked for at any moment.
//
//vsym:harness prop=C26 tier=quick,thorough time=60 ttime=300 sched=delay pre=2 race=1
//vsym:bounds three heartbeats of which any may fail, the health page asked for twice meanwhile; delay-bounded schedules; data races reported
//vsym:reach end
func HealthMeanwhile() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	vsym.Assert(err == nil, "cannot listen")
	s := grpc.NewServer()
	srv := &failing{fails: vsym.Choice("fails", 8), over: make(chan bool), stop: make(chan bool)}
	pb.RegisterGreeterServer(s, srv)
	go s.Serve(l)
	go hb.Grpcc(l.Addr().String(), "", "true")
	asked := make(chan bool)
	go func() {
		health()
		health()
		close(asked)
	}()
	<-srv.over
	<-asked
	want := srv.fails&1 + srv.fails>>1&1 + srv.fails>>2
	vsym.Assert(strings.Contains(health(), `"health":`+string(rune('0'+want))+"}"), "the health page reports another number of failures")
	vsym.Reach("end")
}

type failing struct {
	pb.GreeterServer
	fails, beats int
	over, stop   chan bool
}

func (s *failing) HeartBeat(_ context.Context, in *pb.HeartReq) (*pb.Reply, error) {
	if s.beats == 3 {
		s.over <- true
		<-s.stop
	}
	s.beats++
	if s.fails>>(s.beats-1)&1 == 1 {
		return nil, errors.New("not well")
	}
	return &pb.Reply{Result: 1}, nil
}
