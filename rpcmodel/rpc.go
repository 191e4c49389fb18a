// Package rpcmodel models the transport under the gRPC stubs: a call reaches
// the handler registered for its method at the dialled address, with the
// request and the reply passed through their wire encoding.
package rpcmodel

import (
	"context"
	"errors"
	"net"
	"strings"

	"github.com/gogo/protobuf/proto"
	"google.golang.org/grpc"
)

type message interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) error
}

type service struct {
	desc *grpc.ServiceDesc
	impl interface{}
}

var (
	services = map[*grpc.Server][]service{}
	listens  = map[string]*grpc.Server{}
	conns    = map[*grpc.ClientConn]string{}
	ports    = 0

	errUnavailable   = errors.New("rpc error: code = Unavailable")
	errUnimplemented = errors.New("rpc error: code = Unimplemented")
	errInternal      = errors.New("rpc error: code = Internal")
)

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type listener struct{ a addr }

func (l *listener) Accept() (net.Conn, error) { select {} }
func (l *listener) Close() error {
	if listens[l.a.String()] == nil {
		delete(listens, l.a.String())
	}
	return nil
}
func (l *listener) Addr() net.Addr { return l.a }

//vsym:replace net.Listen
func Listen(network, address string) (net.Listener, error) {
	if strings.HasSuffix(address, ":0") {
		ports++
		address = strings.TrimSuffix(address, "0") + string(rune('0'+ports))
	}
	if _, used := listens[address]; used {
		return nil, errors.New("address already in use")
	}
	listens[address] = nil
	return &listener{addr(address)}, nil
}

var (
	interceptor  grpc.UnaryServerInterceptor // of the server made next
	interceptors = map[*grpc.Server]grpc.UnaryServerInterceptor{}
)

//vsym:replace google.golang.org/grpc.UnaryInterceptor
func UnaryInterceptor(i grpc.UnaryServerInterceptor) grpc.ServerOption {
	interceptor = i
	return nil
}

//vsym:replace google.golang.org/grpc.NewServer
func NewServer(o ...grpc.ServerOption) *grpc.Server {
	s := new(grpc.Server)
	interceptors[s] = interceptor
	interceptor = nil
	return s
}

//vsym:replace (*google.golang.org/grpc.Server).RegisterService
func RegisterService(s *grpc.Server, d *grpc.ServiceDesc, impl interface{}) {
	services[s] = append(services[s], service{d, impl})
}

//vsym:replace google.golang.org/grpc/reflection.Register
func RegisterReflection(s *grpc.Server) {}

//vsym:replace (*google.golang.org/grpc.Server).Serve
func Serve(s *grpc.Server, l net.Listener) error {
	listens[l.Addr().String()] = s
	select {}
}

//vsym:replace (*google.golang.org/grpc.Server).Stop
func Stop(s *grpc.Server) {
	for a, x := range listens {
		if x == s {
			delete(listens, a)
		}
	}
}

//vsym:replace (*google.golang.org/grpc.Server).GracefulStop
func GracefulStop(s *grpc.Server) { Stop(s) }

//vsym:replace google.golang.org/grpc.WithInsecure
func WithInsecure() grpc.DialOption { return nil }

//vsym:replace google.golang.org/grpc.WithBlock
func WithBlock() grpc.DialOption { return nil }

//vsym:replace google.golang.org/grpc.Dial
func Dial(target string, o ...grpc.DialOption) (*grpc.ClientConn, error) {
	c := new(grpc.ClientConn)
	conns[c] = target
	return c, nil
}

//vsym:replace (*google.golang.org/grpc.ClientConn).Close
func Close(c *grpc.ClientConn) error {
	delete(conns, c)
	return nil
}

func recode(from, to interface{}) error {
	b, err := from.(message).Marshal()
	if err != nil {
		return err
	}
	return to.(message).Unmarshal(append([]byte{}, b...))
}

//vsym:replace (*google.golang.org/grpc.ClientConn).Invoke
func Invoke(c *grpc.ClientConn, ctx context.Context, method string, in, out interface{}, o ...grpc.CallOption) error {
	s := listens[conns[c]]
	if s == nil {
		return errUnavailable
	}
	for _, v := range services[s] {
		for _, m := range v.desc.Methods {
			if "/"+v.desc.ServiceName+"/"+m.MethodName != method {
				continue
			}
			r, err := m.Handler(v.impl, ctx, func(x interface{}) error { return recode(in, x) }, interceptors[s])
			if err != nil {
				return err
			}
			return recode(r, out)
		}
	}
	return errUnimplemented
}

// The registry of message names serves reflection only.

//vsym:replace github.com/gogo/protobuf/proto.RegisterType
func RegisterType(x proto.Message, name string) {}

//vsym:replace github.com/gogo/protobuf/proto.RegisterMapType
func RegisterMapType(x interface{}, name string) {}

//vsym:replace github.com/gogo/protobuf/proto.RegisterFile
func RegisterFile(name string, d []byte) {}
