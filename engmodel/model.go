// Package engmodel models what the engine uses of its environment.
package engmodel

import (
	"bufio"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"unicode/utf8"

	"github.com/go-ego/gpy"
	"github.com/go-ego/gse"
	"github.com/go-ego/riot/types"
	"github.com/go-ego/riot/zzverif/vsym"
	"github.com/shirou/gopsutil/mem"
)

//vsym:replace github.com/shirou/gopsutil/mem.VirtualMemory
func VirtualMemory() (*mem.VirtualMemoryStat, error) {
	return &mem.VirtualMemoryStat{Total: 100, Free: 50, UsedPercent: 50}, nil
}

//vsym:replace os.MkdirAll
func MkdirAll(path string, perm os.FileMode) error { return nil }

// gob passes a document record through unchanged, except that what is empty
// is left out, so that it comes back as nil or as what was there before. An encoded record is modelled as a mark and its number.

var (
	records  []types.DocData
	encoders = map[*gob.Encoder]io.Writer{}
	decoders = map[*gob.Decoder]io.Reader{}
)

// attributes says that the type of the attributes of the services is known.
var attributes bool

//vsym:replace encoding/gob.Register
func Register(v interface{}) {
	if _, ok := v.(types.Attri); ok {
		attributes = true
	}
}

// registered tells whether gob takes the value of an interface: basic types
// it knows by itself.
func registered(v interface{}) bool {
	switch v.(type) {
	case nil, bool, string, int, int64, uint64, float32, float64, []byte:
		return true
	case types.Attri:
		return attributes
	}
	return false
}

func cloned(d types.DocData) types.DocData {
	c := types.DocData{Content: d.Content, Attri: d.Attri, Fields: d.Fields, Labels: append([]string(nil), d.Labels...)}
	for _, t := range d.Tokens {
		c.Tokens = append(c.Tokens, types.TokenData{Text: t.Text, Locations: append([]int(nil), t.Locations...)})
	}
	return c
}

//vsym:replace encoding/gob.NewEncoder
func NewEncoder(w io.Writer) *gob.Encoder {
	e := new(gob.Encoder)
	encoders[e] = w
	return e
}

//vsym:replace (*encoding/gob.Encoder).Encode
func Encode(e *gob.Encoder, v interface{}) error {
	d, ok := v.(types.DocData)
	if !ok {
		d = *v.(*types.DocData)
	}
	if !registered(d.Attri) || !registered(d.Fields) {
		return errors.New("gob: type not registered for interface")
	}
	records = append(records, cloned(d))
	_, err := encoders[e].Write([]byte{0xee, byte(len(records))})
	return err
}

//vsym:replace encoding/gob.NewDecoder
func NewDecoder(r io.Reader) *gob.Decoder {
	d := new(gob.Decoder)
	decoders[d] = r
	return d
}

//vsym:replace (*encoding/gob.Decoder).Decode
func Decode(d *gob.Decoder, v interface{}) error {
	b := make([]byte, 2)
	n, _ := io.ReadFull(decoders[d], b)
	if n != 2 || b[0] != 0xee || int(b[1]) > len(records) || b[1] == 0 {
		return errors.New("gob: cannot decode")
	}
	merge(v.(*types.DocData), cloned(records[b[1]-1]))
	return nil
}

// merge decodes a record into what may hold another one: gob leaves out what
// is empty, and reuses the slices it finds.
func merge(to *types.DocData, d types.DocData) {
	if d.Content != "" {
		to.Content = d.Content
	}
	if d.Attri != nil {
		to.Attri = d.Attri
	}
	if d.Fields != nil {
		to.Fields = d.Fields
	}
	if n := len(d.Labels); n > 0 {
		if cap(to.Labels) < n {
			to.Labels = make([]string, n)
		}
		to.Labels = to.Labels[:n]
		copy(to.Labels, d.Labels)
	}
	if n := len(d.Tokens); n > 0 {
		if cap(to.Tokens) < n {
			to.Tokens = make([]types.TokenData, n)
		}
		to.Tokens = to.Tokens[:n]
		for i, t := range d.Tokens {
			at := &to.Tokens[i]
			if t.Text != "" {
				at.Text = t.Text
			}
			if m := len(t.Locations); m > 0 {
				if cap(at.Locations) < m {
					at.Locations = make([]int, m)
				}
				at.Locations = at.Locations[:m]
				copy(at.Locations, t.Locations)
			}
		}
	}
}

// The files read are the stop words and the dictionary.

var (
	texts = map[string]string{}
	rest  = map[*os.File]string{}
)

func file(name, text string) string {
	name = vsym.TempDir() + "/" + name
	if err := os.WriteFile(name, []byte(text), 0600); err != nil {
		log.Fatal(err)
	}
	return name
}

// StopFile writes a stop word file.
func StopFile(text string) string { return file("stop.txt", text) }

//vsym:replace github.com/go-ego/riot/zzverif/engmodel.StopFile
func stopFileModel(text string) string { texts["stop.txt"] = text; return "stop.txt" }

// DictFile writes a dictionary.
func DictFile(text string) string { return file("dict.txt", text) }

//vsym:replace github.com/go-ego/riot/zzverif/engmodel.DictFile
func dictFileModel(text string) string { texts["dict.txt"] = text; return "dict.txt" }

//vsym:replace os.Open
func Open(name string) (*os.File, error) {
	t, ok := texts[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	f := new(os.File)
	rest[f] = t
	return f, nil
}

//vsym:replace (*os.File).Read
func Read(f *os.File, b []byte) (int, error) {
	if rest[f] == "" {
		return 0, io.EOF
	}
	n := copy(b, rest[f])
	rest[f] = rest[f][n:]
	return n, nil
}

//vsym:replace (*os.File).Close
func CloseFile(f *os.File) error { return nil }

// Fscanln takes the words of the next line.
//
//vsym:replace fmt.Fscanln
func Fscanln(r io.Reader, a ...interface{}) (int, error) {
	line, err := r.(*bufio.Reader).ReadString('\n')
	if line == "" && err != nil {
		return 0, err
	}
	words := strings.Fields(line)
	for i, v := range a {
		if i >= len(words) {
			return i, errors.New("unexpected newline")
		}
		*v.(*string) = words[i]
	}
	if len(words) > len(a) {
		return len(a), errors.New("expected newline")
	}
	return len(a), nil
}

//vsym:replace runtime.Caller
func Caller(skip int) (uintptr, string, int, bool) { return 0, "gse/dict_util.go", 0, true }

// Cut, with an empty dictionary, gives the runs of letters and every other
// character by itself.
//
//vsym:replace (*github.com/go-ego/gse.Segmenter).Cut
func Cut(seg *gse.Segmenter, str string, hmm ...bool) []string {
	var out []string
	start := -1
	for i := 0; i < len(str); {
		_, size := utf8.DecodeRuneInString(str[i:])
		letter := str[i] >= 'a' && str[i] <= 'z' || str[i] >= 'A' && str[i] <= 'Z' || str[i] >= '0' && str[i] <= '9'
		if letter && start < 0 {
			start = i
		}
		if !letter {
			if start >= 0 {
				out = append(out, str[start:i])
				start = -1
			}
			out = append(out, str[i:i+size])
		}
		i += size
	}
	if start >= 0 {
		out = append(out, str[start:])
	}
	return out
}

// Syllable is the pinyin of the characters the harnesses use.
func Syllable(r rune) string {
	switch r {
	case '中':
		return "zhong"
	case '在':
		return "zai"
	case '路':
		return "lu"
	}
	return ""
}

// LazyConvert gives the pinyin of each Chinese character.
//
//vsym:replace github.com/go-ego/gpy.LazyConvert
func LazyConvert(s string, a *gpy.Args) []string {
	out := []string{}
	for _, r := range s {
		if p := Syllable(r); p != "" {
			out = append(out, p)
		}
	}
	return out
}

//vsym:replace os.Chdir
func Chdir(dir string) error { return nil }

// The configuration file sets the fields with a tag.

var configured types.EngineOpts

// ConfFile writes a configuration file.
func ConfFile(o types.EngineOpts) string {
	name := vsym.TempDir() + "/riot.toml"
	text := fmt.Sprintf("not_use_gse = %v\ngse_dict = %q\npin_yin = %v\nid_only = %v\nuse_store = %v\nstore_shards = %d\nstore_folder = %q\nstore_engine = %q\n",
		o.NotUseGse, o.GseDict, o.PinYin, o.IDOnly, o.UseStore, o.StoreShards, o.StoreFolder, o.StoreEngine)
	if err := os.WriteFile(name, []byte(text), 0600); err != nil {
		log.Fatal(err)
	}
	return name
}

//vsym:replace github.com/go-ego/riot/zzverif/engmodel.ConfFile
func confFileModel(o types.EngineOpts) string { configured = o; return "riot.toml" }

//vsym:replace github.com/go-vgo/gt/conf.Init
func ConfInit(name string, config interface{}) error {
	if name != "riot.toml" {
		return os.ErrNotExist
	}
	*config.(*types.EngineOpts) = configured
	return nil
}

//vsym:replace github.com/go-vgo/gt/conf.Watch
func ConfWatch(name string, config interface{}) { select {} }
