// Package netmodel models HTTP, JSON and logging for the network services.
package netmodel

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	rhttp "github.com/go-ego/riot/net/http"
)

// A JSON text is modelled as a mark and the number of the value it encodes.
var encoded []rhttp.JsonResponse

func text(v interface{}) []byte {
	r, ok := v.(rhttp.JsonResponse)
	if !ok {
		r = *v.(*rhttp.JsonResponse)
	}
	r.Docs = append([]rhttp.Text(nil), r.Docs...)
	encoded = append(encoded, r)
	return []byte{0xee, byte(len(encoded))}
}

func parse(b []byte, v interface{}) error {
	if len(b) > 2 && b[len(b)-1] == '\n' {
		b = b[:len(b)-1]
	}
	if len(b) != 2 || b[0] != 0xee || b[1] == 0 || int(b[1]) > len(encoded) {
		return errors.New("invalid JSON")
	}
	r := encoded[b[1]-1]
	r.Docs = append([]rhttp.Text(nil), r.Docs...)
	*v.(*rhttp.JsonResponse) = r
	return nil
}

//vsym:replace encoding/json.Marshal
func Marshal(v interface{}) ([]byte, error) { return text(v), nil }

//vsym:replace encoding/json.Unmarshal
func Unmarshal(b []byte, v interface{}) error { return parse(b, v) }

var (
	encoders = map[*json.Encoder]io.Writer{}
	decoders = map[*json.Decoder]io.Reader{}
)

//vsym:replace encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = w
	return e
}

//vsym:replace (*encoding/json.Encoder).Encode
func Encode(e *json.Encoder, v interface{}) error {
	_, err := encoders[e].Write(append(text(v), '\n'))
	return err
}

//vsym:replace encoding/json.NewDecoder
func NewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decoders[d] = r
	return d
}

//vsym:replace (*encoding/json.Decoder).Decode
func Decode(d *json.Decoder, v interface{}) error {
	b, err := io.ReadAll(decoders[d])
	if err != nil {
		return err
	}
	return parse(b, v)
}

var handlers = map[string]http.Handler{}

// Page records what a handler writes.
type Page struct {
	Body   []byte
	H      http.Header
	Status int
}

func NewPage() *Page { return &Page{H: http.Header{}, Status: 200} }

func (p *Page) Header() http.Header         { return p.H }
func (p *Page) Write(b []byte) (int, error) { p.Body = append(p.Body, b...); return len(b), nil }
func (p *Page) WriteHeader(s int)           { p.Status = s }

// Serve makes a handler available and returns its URL.
func Serve(h http.Handler) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go http.Serve(l, h)
	return "http://" + l.Addr().String()
}

//vsym:replace github.com/go-ego/riot/zzverif/netmodel.Serve
func serveModel(h http.Handler) string {
	a := "http://node" + string(rune('0'+len(handlers)))
	handlers[a] = h
	return a
}

// answer serves a request to the node at u, whose path p makes it.
func answer(u string, make func(path string) *http.Request) (*http.Response, error) {
	for a, h := range handlers {
		if strings.HasPrefix(u, a) {
			p := NewPage()
			h.ServeHTTP(p, make(u[len(a):]))
			return &http.Response{StatusCode: p.Status, Status: "status", Body: io.NopCloser(bytes.NewReader(p.Body))}, nil
		}
	}
	return nil, errors.New("connection refused")
}

//vsym:replace (*net/http.Client).PostForm
func PostForm(c *http.Client, u string, data url.Values) (*http.Response, error) {
	return answer(u, func(path string) *http.Request {
		return &http.Request{Method: "POST", URL: &url.URL{Path: path}, Form: data, PostForm: data}
	})
}

//vsym:replace (*net/http.Client).Post
func Post(c *http.Client, u, kind string, body io.Reader) (*http.Response, error) {
	return answer(u, func(path string) *http.Request {
		return &http.Request{Method: "POST", URL: &url.URL{Path: path}, Header: http.Header{"Content-Type": {kind}}, Body: io.NopCloser(body)}
	})
}

//vsym:replace (*net/http.Client).Do
func Do(c *http.Client, req *http.Request) (*http.Response, error) {
	return answer(req.URL.Scheme+"://"+req.URL.Host+req.URL.Path, func(path string) *http.Request {
		return &http.Request{Method: req.Method, URL: &url.URL{Path: path, RawQuery: req.URL.RawQuery}, Header: req.Header, Body: req.Body}
	})
}

//vsym:replace github.com/go-vgo/zlog/zlog.Error
func LogError(msg string, err ...error) {}

//vsym:replace github.com/go-vgo/zlog/zlog.InitDev
func InitDev() {}
