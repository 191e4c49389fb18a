package h_hb

import (
	"encoding/json"
	"errors"
	"io"
	"os/exec"
	"strconv"
	"strings"

	hb "github.com/go-ego/riot/net/heartb"
	"github.com/go-ego/riot/zzverif/vsym"
)

var ran []string

//vsym:replace os/exec.Command
func Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

//vsym:replace (*os/exec.Cmd).Run
func Run(c *exec.Cmd) error {
	if c.Path == "/bin/sh" && len(c.Args) == 3 && c.Args[1] == "-c" && strings.HasPrefix(c.Args[2], "pwd >> log") {
		d := c.Dir
		if !strings.HasPrefix(d, "/") {
			d = strings.TrimSuffix(vsym.TempDir()+"/"+strings.TrimPrefix(d, "./"), "/")
		}
		ran = append(ran, d)
		if strings.HasSuffix(c.Args[2], "exit 1") {
			return errors.New("exit status 1")
		}
		return nil
	}
	name, args := c.Path, c.Args[1:]
	if c.Path == "/bin/sh" && len(c.Args) == 3 && c.Args[1] == "-c" {
		// a command of plain words is what it says
		cmd := c.Args[2]
		for i := 0; i < len(cmd); i++ {
			ok := vsym.Or(cmd[i] == '-', cmd[i] == ' ')
			ok = vsym.Or(ok, vsym.And(cmd[i] >= '0', cmd[i] <= '9'))
			ok = vsym.Or(ok, vsym.And(cmd[i] >= 'a', cmd[i] <= 'z'))
			if !ok {
				killedOther = true
				return nil
			}
		}
		f := strings.Fields(cmd)
		if len(f) > 0 {
			name, args = f[0], f[1:]
		}
	}
	if name == "killall" || strings.HasSuffix(name, "/killall") {
		killedNames = append(killedNames, operands(args)...)
		return nil
	}
	ran = append(ran, "another command")
	killedOther = true
	return nil
}

//vsym:replace github.com/go-ego/riot/zzverif/h_hb.restarted
func restartedModel(dir string) []string { return ran }

var (
	killedNames []string
	killedOther bool
)

//vsym:replace github.com/go-ego/riot/zzverif/h_hb.folder
func folderModel() string { return vsym.TempDir() + "/sub" }

//vsym:replace github.com/go-ego/riot/zzverif/h_hb.standIn
func standInModel(dir string) {}

//vsym:replace github.com/go-ego/riot/zzverif/h_hb.killed
func killedModel(dir string) ([]string, bool) { return killedNames, killedOther }

func text(v interface{}) []byte {
	j, ok := v.(hb.Json)
	if !ok {
		j = *v.(*hb.Json)
	}
	return []byte(`{"code":` + strconv.Itoa(int(j.Code)) + `,"timestamp":` + "1700000000" + `,"health":` + strconv.Itoa(int(j.Health)) + "}")
}

//vsym:replace encoding/json.Marshal
func Marshal(v interface{}) ([]byte, error) { return text(v), nil }

var encoders = map[*json.Encoder]io.Writer{}

//vsym:replace encoding/json.NewEncoder
func NewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	encoders[e] = w
	return e
}

//vsym:replace (*encoding/json.Encoder).Encode
func Encode(e *json.Encoder, v interface{}) error {
	_, err := encoders[e].Write(append(text(v), '\n'))
	return err
}
