package h_pb

import (
	pb "github.com/go-ego/riot/net/grpc/riot-pb"
	_ "github.com/go-ego/riot/zzverif/rpcmodel"
	"github.com/go-ego/riot/zzverif/vsym"
)

// wf is a field on the wire, as the protocol buffer specification defines it.
type wf struct {
	num int
	v   uint64 // wire type 0
	b   []byte // wire type 2
	len bool   // wire type 2
}

func varint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

// enc is an independent encoder.
func enc(fs []wf) []byte {
	var b []byte
	for _, f := range fs {
		if f.len {
			b = varint(b, uint64(f.num<<3|2))
			b = varint(b, uint64(len(f.b)))
			b = append(b, f.b...)
		} else {
			b = varint(b, uint64(f.num<<3))
			b = varint(b, f.v)
		}
	}
	return b
}

func takeVarint(b []byte) (uint64, []byte) {
	var v uint64
	for i := uint(0); i < 10; i++ {
		vsym.Assert(len(b) > 0, "the encoding is cut off")
		x := b[0]
		b = b[1:]
		v |= uint64(x&0x7f) << (7 * i)
		if x < 0x80 {
			return v, b
		}
	}
	vsym.Fail("the encoding holds an overlong number")
	return 0, nil
}

// dec is an independent decoder of what Marshal produced.
func dec(b []byte) []wf {
	var fs []wf
	for len(b) > 0 {
		var t, v uint64
		t, b = takeVarint(b)
		v, b = takeVarint(b)
		f := wf{num: vsym.Concrete(int(t >> 3))}
		switch vsym.Concrete(int(t & 7)) {
		case 0:
			f.v = v
		case 2:
			f.len = true
			n := vsym.Concrete(int(v))
			vsym.Assert(n >= 0 && n <= len(b), "the encoding is cut off")
			f.b, b = b[:n], b[n:]
		default:
			vsym.Fail("the encoding uses an unexpected wire type")
		}
		fs = append(fs, f)
	}
	return fs
}

type spec []wf

func (s *spec) num(n int, v uint64) {
	if v != 0 {
		*s = append(*s, wf{num: n, v: v})
	}
}

func (s *spec) flag(n int, v bool) {
	if v {
		*s = append(*s, wf{num: n, v: 1})
	}
}

func (s *spec) str(n int, v string) {
	if len(v) > 0 {
		s.sub(n, []byte(v))
	}
}

func (s *spec) strs(n int, v []string) {
	for _, x := range v {
		s.sub(n, []byte(x))
	}
}

func (s *spec) sub(n int, b []byte) { *s = append(*s, wf{num: n, len: true, b: b}) }

func i32(v int32) uint64 { return uint64(int64(v)) }

func tokenWire(t *pb.TokenData) (s spec) {
	s.str(1, t.Text)
	if len(t.Locations) > 0 {
		var b []byte
		for _, l := range t.Locations {
			b = varint(b, i32(l))
		}
		s.sub(2, b)
	}
	return
}

func docWire(m *pb.DocReq) (s spec) {
	s.str(1, m.DocId)
	s.str(2, m.Content)
	s.str(3, string(m.Attri))
	for _, t := range m.Tokens {
		s.sub(4, enc(tokenWire(t)))
	}
	s.strs(5, m.Labels)
	s.str(6, string(m.Fields))
	s.flag(7, m.ForceUpdate)
	return
}

func exprWire(m *pb.Expr) (s spec) {
	s.strs(1, m.Must)
	s.strs(2, m.Should)
	s.strs(3, m.NotIn)
	return
}

func logicWire(m *pb.Logic) (s spec) {
	s.flag(1, m.Must)
	s.flag(2, m.Should)
	s.flag(3, m.NotIn)
	if m.Expr != nil {
		s.sub(4, enc(exprWire(m.Expr)))
	}
	return
}

// searchWire leaves out the DocIds map.
func searchWire(m *pb.SearchReq) (s spec) {
	s.str(1, m.Id)
	s.str(2, m.Query)
	s.num(3, i32(m.OutputOffset))
	s.num(4, i32(m.MaxOutputs))
	s.str(5, m.Time)
	if m.Logic != nil {
		s.sub(7, enc(logicWire(m.Logic)))
	}
	return
}

func attriWire(m *pb.Attri) (s spec) {
	s.str(1, m.Title)
	s.str(2, m.Author)
	s.str(3, m.Time)
	s.num(4, uint64(m.Ts))
	return
}

func textWire(m *pb.Text) (s spec) {
	s.str(1, m.Id)
	s.str(2, m.Content)
	if m.Attri != nil {
		s.sub(3, enc(attriWire(m.Attri)))
	}
	return
}

func replyWire(m *pb.SearchReply) (s spec) {
	s.num(1, i32(m.Code))
	s.num(2, i32(m.Len))
	s.num(3, uint64(m.Timestamp))
	for _, t := range m.Docs {
		s.sub(4, enc(textWire(t)))
	}
	return
}

func sameWire(got []wf, want spec) {
	vsym.Assert(len(got) == len(want), "a field is missing from the encoding, or one too many is in it")
	// fields of different numbers may come in any order
	for num := 1; num < 16; num++ {
		var g, w []wf
		for _, f := range got {
			if f.num == num {
				g = append(g, f)
			}
		}
		for _, f := range want {
			if f.num == num {
				w = append(w, f)
			}
		}
		vsym.Assert(len(g) == len(w), "a field is encoded under another number")
		for i := range g {
			vsym.Assert(g[i].len == w[i].len, "a field is encoded with another wire type")
			vsym.Assert(g[i].v == w[i].v, "a number is not encoded as the protocol defines")
			vsym.Assert(string(g[i].b) == string(w[i].b), "a text or nested message is not encoded as the protocol defines")
		}
	}
}

func same32(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vsym.And(r, a[i] == b[i])
	}
	return r
}

type message interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Size() int
	Unmarshal([]byte) error
	XXX_Marshal(b []byte, deterministic bool) ([]byte, error)
	XXX_Size() int
}

// codec checks everything that does not depend on the message type; the
// decoded copies are compared by same.
func codec(m message, want spec, fresh func() message, same func(x message) bool, extra int) {
	b, err := m.Marshal()
	vsym.Assert(err == nil, "a message cannot be encoded")
	vsym.Assert(len(b) == m.Size() && m.XXX_Size() == m.Size(), "Size differs from the length of the encoding")
	sameWire(dec(b), want)
	x := fresh()
	vsym.Assert(x.Unmarshal(b) == nil, "an encoded message cannot be decoded")
	vsym.Assert(same(x), "a message does not decode to what was encoded")
	buf := make([]byte, m.Size(), m.Size()+3)
	n, err := m.MarshalTo(buf)
	vsym.Assert(err == nil && string(buf[:n]) == string(b), "MarshalTo and Marshal differ")
	y, err := m.XXX_Marshal(make([]byte, 0, m.Size()+2), false)
	vsym.Assert(err == nil && string(y) == string(b), "XXX_Marshal and Marshal differ")

	// another encoder may order fields differently and send unknown ones
	var rev spec
	seen := map[int]bool{}
	for i := len(want) - 1; i >= 0; i-- {
		if seen[want[i].num] {
			continue
		}
		seen[want[i].num] = true
		for _, f := range want {
			if f.num == want[i].num {
				rev = append(rev, f)
			}
		}
	}
	unknown := [][]byte{nil, {0x78, 0x81, 0x01}, {0x7a, 0x01, 0x05}, {0x79, 1, 2, 3, 4, 5, 6, 7, 8}, {0x7d, 1, 2, 3, 4}, {0x7b, 0x08, 0x01, 0x7c}, {0xf8, 0x01, 0x07}}[extra]
	e := append(append([]byte{}, unknown...), enc(rev)...)
	x = fresh()
	vsym.Assert(x.Unmarshal(e) == nil, "a message from another encoder cannot be decoded")
	vsym.Assert(same(x), "a message from another encoder decodes to something else")
	c, err := x.Marshal()
	vsym.Assert(err == nil && len(c) == len(b)+len(unknown) && x.Size() == len(c), "an unknown field is lost when a message is passed on")
	vsym.Assert(string(c[len(c)-len(unknown):]) == string(unknown), "an unknown field is lost when a message is passed on")
	// a cut-off message is never accepted as a complete one of the same size
	if len(b) > 0 {
		x = fresh()
		_ = x.Unmarshal(b[:len(b)-1])
	}
}

func extra() int { return vsym.Choice("unknown", 7) }

// text is a text of arbitrary content, or one whose length needs more than
// one byte.
func text(name string) string {
	long := []int{0, 127, 128, 300}[vsym.Choice("long_"+name, 4)]
	if long == 0 {
		return vsym.Str(name, 0, 1)
	}
	b := make([]byte, long)
	for i := range b {
		b[i] = byte('a' + i%26)
	}
	b[0] = vsym.Byte(name)
	return string(b)
}

func int32s(name string) int32 { return int32(vsym.Uint32(name)) }

//vsym:harness prop=C28 tier=quick,thorough time=60 ttime=300
//vsym:bounds heartbeat requests, replies and delete requests with every 32-bit number and texts of 0..1, 127, 128 or 300 bytes; any of seven unknown fields
//vsym:reach end
func SmallMessages() {
	switch vsym.Choice("message", 3) {
	case 0:
		m := &pb.HeartReq{Msg: int32s("msg")}
		var s spec
		s.num(1, i32(m.Msg))
		codec(m, s, func() message { return &pb.HeartReq{} }, func(x message) bool { return x.(*pb.HeartReq).Msg == m.Msg && m.GetMsg() == m.Msg }, extra())
	case 1:
		m := &pb.Reply{Result: int32s("result")}
		var s spec
		s.num(1, i32(m.Result))
		codec(m, s, func() message { return &pb.Reply{} }, func(x message) bool { return x.(*pb.Reply).Result == m.Result && m.GetResult() == m.Result }, extra())
	case 2:
		m := &pb.DeleteReq{DocId: text("id")}
		var s spec
		s.str(1, m.DocId)
		codec(m, s, func() message { return &pb.DeleteReq{} }, func(x message) bool {
			return x.(*pb.DeleteReq).DocId == m.DocId && m.GetDocId() == m.DocId
		}, extra())
	}
	vsym.Reach("end")
}

func token(i int) *pb.TokenData {
	t := &pb.TokenData{Text: vsym.Str("token", 0, 1)}
	n := vsym.Choice("locations", 2-i)
	for j := 0; j < n; j++ {
		t.Locations = append(t.Locations, int32s("location"))
	}
	return t
}

func sameToken(a, b *pb.TokenData) bool {
	return vsym.And(a.Text == b.Text, same32(a.Locations, b.Locations))
}

//vsym:harness prop=C28 tier=quick,thorough time=60 ttime=300
//vsym:bounds tokens with texts of 0..1, 127, 128 or 300 bytes and 0..2 (thorough 3) arbitrary 32-bit locations, or 60 concrete ones around an arbitrary one; locations sent packed or one by one
//vsym:reach end
func Tokens() {
	m := &pb.TokenData{Text: text("text")}
	n := vsym.Choice("locations", 4+vsym.Tier())
	if n == 3+vsym.Tier() {
		for j := 0; j < 60; j++ {
			m.Locations = append(m.Locations, int32(j*9))
		}
		m.Locations[31] = int32s("location")
	} else {
		for j := 0; j < n; j++ {
			m.Locations = append(m.Locations, int32s("location"))
		}
	}
	codec(m, tokenWire(m), func() message { return &pb.TokenData{} }, func(x message) bool { return sameToken(x.(*pb.TokenData), m) }, extra())
	vsym.Assert(m.GetText() == m.Text && same32(m.GetLocations(), m.Locations), "a getter returns another field")
	// the unpacked form of a repeated number
	var s spec
	for _, l := range m.Locations {
		s = append(s, wf{num: 2, v: i32(l)})
	}
	x := &pb.TokenData{}
	vsym.Assert(x.Unmarshal(enc(s)) == nil && same32(x.Locations, m.Locations), "locations sent one by one are not decoded")
	vsym.Reach("end")
}

//vsym:harness prop=C28 tier=quick,thorough time=90 ttime=400
//vsym:bounds documents with texts, attributes and fields of 0..1 (one of them 127, 128 or 300) bytes, 0..2 tokens with 0..2 arbitrary locations, 0..2 labels, either update flag; any of seven unknown fields
//vsym:reach end
func Documents() {
	m := &pb.DocReq{}
	switch vsym.Choice("part", 4) {
	case 0:
		m.DocId, m.Content = text("id"), vsym.Str("content", 0, 1)
		m.Labels = labels("label")
	case 1:
		m.DocId, m.Content = "1", text("content")
		m.Attri, m.ForceUpdate = []byte(vsym.Str("attri", 0, 1)), vsym.Bool("force")
	case 2:
		m.Attri, m.Fields = []byte(text("attri")), []byte(vsym.Str("fields", 0, 1))
		m.Labels, m.ForceUpdate = labels("label"), vsym.Bool("force")
	case 3:
		m.Fields = []byte(text("fields"))
		for i := vsym.Choice("tokens", 3); i > 0; i-- {
			m.Tokens = append(m.Tokens, token(len(m.Tokens)))
		}
	}
	same := func(x message) bool {
		d := x.(*pb.DocReq)
		r := vsym.And(d.DocId == m.DocId, d.Content == m.Content, string(d.Attri) == string(m.Attri),
			string(d.Fields) == string(m.Fields), d.ForceUpdate == m.ForceUpdate, sameStrs(d.Labels, m.Labels), len(d.Tokens) == len(m.Tokens))
		if len(d.Tokens) == len(m.Tokens) {
			for i := range d.Tokens {
				r = vsym.And(r, sameToken(d.Tokens[i], m.Tokens[i]))
			}
		}
		return r
	}
	codec(m, docWire(m), func() message { return &pb.DocReq{} }, same, extra())
	vsym.Assert(same(&pb.DocReq{DocId: m.GetDocId(), Content: m.GetContent(), Attri: m.GetAttri(), Tokens: m.GetTokens(),
		Labels: m.GetLabels(), Fields: m.GetFields(), ForceUpdate: m.GetForceUpdate()}), "a getter returns another field")
	vsym.Reach("end")
}

func labels(name string) []string {
	var r []string
	for i := vsym.Choice("n_"+name, 3); i > 0; i-- {
		r = append(r, vsym.Str(name, 0, 1))
	}
	return r
}

func sameExpr(a, b *pb.Expr) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	return vsym.And(sameStrs(a.Must, b.Must), sameStrs(a.Should, b.Should), sameStrs(a.NotIn, b.NotIn))
}

func sameLogic(a, b *pb.Logic) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	return vsym.And(a.Must == b.Must, a.Should == b.Should, a.NotIn == b.NotIn, sameExpr(a.Expr, b.Expr))
}

func expr() *pb.Expr {
	e := &pb.Expr{}
	switch vsym.Choice("clause", 3) {
	case 0:
		e.Must, e.Should = labels("must"), labels("should")
	case 1:
		e.Should, e.NotIn = labels("should"), labels("not")
	case 2:
		e.NotIn, e.Must = []string{text("not"), "x"}, labels("must")
	}
	return e
}

//vsym:harness prop=C28 tier=quick,thorough time=60 ttime=300
//vsym:bounds logic expressions with 0..2 keys per clause of 0..1 (one of 127, 128 or 300) bytes and any switches; any of seven unknown fields
//vsym:reach end
func Logics() {
	if vsym.Bool("bare") {
		m := expr()
		codec(m, exprWire(m), func() message { return &pb.Expr{} }, func(x message) bool { return sameExpr(x.(*pb.Expr), m) }, extra())
		vsym.Assert(sameExpr(&pb.Expr{Must: m.GetMust(), Should: m.GetShould(), NotIn: m.GetNotIn()}, m), "a getter returns another field")
	} else {
		m := &pb.Logic{Must: vsym.Bool("must"), Should: vsym.Bool("should"), NotIn: vsym.Bool("not")}
		if vsym.Bool("expr") {
			m.Expr = expr()
		}
		codec(m, logicWire(m), func() message { return &pb.Logic{} }, func(x message) bool { return sameLogic(x.(*pb.Logic), m) }, vsym.Choice("unknown", 2))
		vsym.Assert(sameLogic(&pb.Logic{Must: m.GetMust(), Should: m.GetShould(), NotIn: m.GetNotIn(), Expr: m.GetExpr()}, m), "a getter returns another field")
	}
	vsym.Reach("end")
}

func sameIds(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		r = vsym.And(r, ok, v == w)
	}
	return r
}

//vsym:harness prop=C28 tier=quick,thorough time=90 ttime=400
//vsym:bounds search requests with texts of 0..1 (one of 127, 128 or 300) bytes, every 32-bit offset and limit, 0..2 arbitrary allowed ids with either value, with and without logic
//vsym:reach end
func SearchRequests() {
	m := &pb.SearchReq{}
	var ids map[string]bool
	switch vsym.Choice("part", 4) {
	case 0:
		m.Id, m.OutputOffset, m.MaxOutputs = vsym.Str("id", 0, 1), int32s("offset"), int32s("max")
	case 1:
		m.Query, m.Time = text("query"), vsym.Str("time", 0, 1)
	case 2:
		ids = map[string]bool{}
		for i := vsym.Choice("ids", 3); i > 0; i-- {
			ids[vsym.Str("docId", 0, 1)] = vsym.Bool("value")
		}
		if vsym.Bool("long") {
			ids[text("docId")] = vsym.Bool("value")
		}
		m.Time = text("time")
	case 3:
		m.Id = text("id")
		m.Logic = &pb.Logic{Must: vsym.Bool("must"), NotIn: vsym.Bool("not")}
		if vsym.Bool("expr") {
			m.Logic.Expr = expr()
		}
	}
	same := func(x message) bool {
		d := x.(*pb.SearchReq)
		return vsym.And(d.Id == m.Id, d.Query == m.Query, d.Time == m.Time, d.OutputOffset == m.OutputOffset,
			d.MaxOutputs == m.MaxOutputs, sameLogic(d.Logic, m.Logic), sameIds(d.DocIds, m.DocIds))
	}
	codec(m, searchWire(m), func() message { return &pb.SearchReq{} }, same, vsym.Choice("unknown", 2))
	if ids != nil {
		m.DocIds = ids
		b, err := m.Marshal()
		vsym.Assert(err == nil && len(b) == m.Size(), "Size differs from the length of the encoding")
		n := 0
		for _, f := range dec(b) {
			if f.num != 6 {
				continue
			}
			n++
			key, val := "", uint64(0)
			for _, e := range dec(f.b) {
				switch e.num {
				case 1:
					key = string(e.b)
				case 2:
					val = e.v
				default:
					vsym.Fail("a map entry holds an unknown field")
				}
			}
			v, ok := ids[key]
			vsym.Assert(ok && v == (val == 1), "a map entry is not encoded as the protocol defines")
		}
		vsym.Assert(n == len(ids), "a map entry is missing from the encoding")
		x := &pb.SearchReq{}
		vsym.Assert(x.Unmarshal(b) == nil && same(x), "a message does not decode to what was encoded")
	}
	vsym.Assert(same(&pb.SearchReq{Id: m.GetId(), Query: m.GetQuery(), Time: m.GetTime(), OutputOffset: m.GetOutputOffset(),
		MaxOutputs: m.GetMaxOutputs(), Logic: m.GetLogic(), DocIds: m.GetDocIds()}), "a getter returns another field")
	vsym.Reach("end")
}

//vsym:harness prop=C28 tier=quick,thorough time=90 ttime=400
//vsym:bounds search replies with every 32-bit code and length and 64-bit time, 0..2 results with texts of 0..1 (one of 127, 128 or 300) bytes, with and without attributes with every 64-bit time
//vsym:reach end
func Replies() {
	sameAttri := func(a, b *pb.Attri) bool {
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil {
			return true
		}
		return vsym.And(a.Title == b.Title, a.Author == b.Author, a.Time == b.Time, a.Ts == b.Ts)
	}
	sameText := func(a, b *pb.Text) bool {
		return vsym.And(a.Id == b.Id, a.Content == b.Content, sameAttri(a.Attri, b.Attri))
	}
	switch vsym.Choice("message", 3) {
	case 0:
		m := &pb.Attri{Ts: int64(vsym.Uint64("ts"))}
		switch vsym.Choice("part", 3) {
		case 0:
			m.Title, m.Author = text("title"), vsym.Str("author", 0, 1)
		case 1:
			m.Author, m.Time = text("author"), vsym.Str("time", 0, 1)
		case 2:
			m.Time, m.Title = text("time"), vsym.Str("title", 0, 1)
		}
		codec(m, attriWire(m), func() message { return &pb.Attri{} }, func(x message) bool { return sameAttri(x.(*pb.Attri), m) }, vsym.Choice("unknown", 2))
		vsym.Assert(sameAttri(&pb.Attri{Title: m.GetTitle(), Author: m.GetAuthor(), Time: m.GetTime(), Ts: m.GetTs()}, m), "a getter returns another field")
	case 1:
		m := &pb.Text{}
		if vsym.Bool("first") {
			m.Id, m.Content = text("id"), vsym.Str("content", 0, 1)
		} else {
			m.Content = text("content")
		}
		if vsym.Bool("attri") {
			m.Attri = &pb.Attri{Title: vsym.Str("title", 0, 1)}
		}
		codec(m, textWire(m), func() message { return &pb.Text{} }, func(x message) bool { return sameText(x.(*pb.Text), m) }, extra())
		vsym.Assert(sameText(&pb.Text{Id: m.GetId(), Content: m.GetContent(), Attri: m.GetAttri()}, m), "a getter returns another field")
	case 2:
		m := &pb.SearchReply{}
		if vsym.Bool("numbers") {
			m.Code, m.Len = int32s("code"), int32s("len")
		} else {
			m.Timestamp = int64(vsym.Uint64("timestamp"))
			for i := vsym.Choice("docs", 3); i > 0; i-- {
				t := &pb.Text{Id: vsym.Str("id", 0, 1)}
				if i == 2 {
					t.Content = text("content")
				} else if vsym.Bool("attri") {
					t.Attri = &pb.Attri{Ts: 300}
				}
				m.Docs = append(m.Docs, t)
			}
		}
		same := func(x message) bool {
			d := x.(*pb.SearchReply)
			if len(d.Docs) != len(m.Docs) {
				return false
			}
			r := vsym.And(d.Code == m.Code, d.Len == m.Len, d.Timestamp == m.Timestamp)
			for i := range d.Docs {
				r = vsym.And(r, sameText(d.Docs[i], m.Docs[i]))
			}
			return r
		}
		codec(m, replyWire(m), func() message { return &pb.SearchReply{} }, same, vsym.Choice("unknown", 2))
		vsym.Assert(same(&pb.SearchReply{Code: m.GetCode(), Len: m.GetLen(), Timestamp: m.GetTimestamp(), Docs: m.GetDocs()}), "a getter returns another field")
	}
	vsym.Reach("end")
}

func messages() []message {
	return []message{&pb.HeartReq{}, &pb.DocReq{}, &pb.TokenData{}, &pb.DeleteReq{}, &pb.Reply{}, &pb.SearchReq{}, &pb.SearchReply{}, &pb.Text{}, &pb.Attri{}, &pb.Logic{}, &pb.Expr{}}
}

// accepted states what must hold of any input a decoder accepts.
func accepted(m message) {
	b, err := m.Marshal()
	vsym.Assert(err == nil && len(b) == m.Size(), "an accepted message cannot be encoded again")
}

//vsym:harness prop=C29 tier=quick,thorough time=100 ttime=600
//vsym:bounds each of the eleven message types; every input of 0..3 (thorough 4) bytes
//vsym:reach end accepted rejected
func AnyBytes() {
	m := messages()[vsym.Choice("message", 11)]
	in := []byte(vsym.Str("input", 0, 3+vsym.Tier()))
	if m.Unmarshal(in) == nil {
		accepted(m)
		vsym.Reach("accepted")
	} else {
		vsym.Reach("rejected")
	}
	vsym.Reach("end")
}

//vsym:harness prop=C29 tier=quick,thorough time=100 ttime=600
//vsym:bounds each of the eleven message types; inputs of one arbitrary byte for the tag (known or unknown field; any wire type, quick: length-delimited), a number of 9 or 10 bytes with arbitrary value (so every 64-bit length; quick: first and last two bytes arbitrary, those between all ones or all zeroes), and 0..1 (quick 0) arbitrary bytes, at the top level, inside a map entry, a nested message or a group
//vsym:reach end rejected
func AnyLength() {
	which := vsym.Choice("message", 11)
	m := messages()[which]
	nest := vsym.Choice("nest", 4)
	if _, ok := m.(*pb.SearchReq); nest == 1 && !ok {
		vsym.Assume(false)
	}
	var in []byte
	in = append(in, vsym.Byte("tag"))
	vsym.Assume(in[0] < 0x80)
	if vsym.Tier() == 0 {
		vsym.Assume(in[0]&7 == 2)
	}
	n := 9 + vsym.Choice("more", 2)
	middle := []byte{0xff, 0x80}[vsym.Choice("middle", 2-vsym.Tier())]
	for i := 0; i < n; i++ {
		if vsym.Tier() == 0 && i > 0 && i < n-2 {
			in = append(in, middle)
			continue
		}
		b := vsym.Byte("length")
		if i < n-1 {
			vsym.Assume(b >= 0x80)
		} else {
			vsym.Assume(b < 0x80)
		}
		in = append(in, b)
	}
	in = append(in, []byte(vsym.Str("rest", 0, vsym.Tier()))...)
	switch nest {
	case 1:
		in = append([]byte{0x32, byte(len(in))}, in...)
	case 2:
		in = append([]byte{0x22, byte(len(in))}, in...)
	case 3:
		in = append(append([]byte{0x7b}, in...), 0x7c)
	}
	if m.Unmarshal(in) == nil {
		accepted(m)
	} else {
		vsym.Reach("rejected")
	}
	vsym.Reach("end")
}
