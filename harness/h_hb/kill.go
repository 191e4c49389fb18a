package h_hb

import (
	"net/http"
	"net/url"
	"os"
	"strings"

	hb "github.com/go-ego/riot/net/heartb"
	"github.com/go-ego/riot/zzverif/vsym"
)

// standIn puts a program in place of killall that only notes what it is asked
// to end; no other program can be found.
func standIn(dir string) {
	os.WriteFile(dir+"/killall", []byte("#!/bin/sh\nfor a; do printf '%s\\001' \"$a\"; done >> "+dir+"/killed\nprintf '\\002' >> "+dir+"/killed\n"), 0755)
	os.Setenv("PATH", dir)
	os.Chdir(dir)
}

// killed lists what was to be ended, and whether another program ran.
func killed(dir string) (names []string, other bool) {
	b, _ := os.ReadFile(dir + "/killed")
	s := string(b)
	for s != "" {
		i := strings.Index(s, "\x02")
		if i < 0 {
			return nil, true
		}
		names = append(names, operands(strings.Split(strings.TrimSuffix(s[:i], "\x01"), "\x01"))...)
		s = s[i+1:]
	}
	files, _ := os.ReadDir(dir)
	return names, len(files) > 2 // killall and its notes
}

// operands drops what killall takes as options: what starts with a dash (a
// dash alone is a name), up to a double dash, and the signal after -s.
func operands(args []string) (names []string) {
	for i := 0; i < len(args); i++ {
		switch a := args[i]; {
		case a == "--":
			return append(names, args[i+1:]...)
		case a == "-s" || a == "--signal":
			i++
		case len(a) < 2 || a[0] != '-':
			names = append(names, a)
		}
	}
	return names
}

//vsym:harness prop=C33 tier=quick,thorough time=60 ttime=400
//vsym:bounds both pages, every name of 1..3 (thorough 4) characters out of a, dash, space, ; & | > $ ( ) ' " * and line feed; the health page asked afterwards
//vsym:assume killall ends the processes with the names it is given (replays run a stand-in that notes them)
//vsym:reach end
func Kill() {
	dir := vsym.TempDir()
	standIn(dir)
	name := vsym.Str("name", 1, 3+vsym.Tier())
	for i := 0; i < len(name); i++ {
		ok := false
		for _, c := range []byte("a- ;&|>$()'\"*\n") {
			ok = vsym.Or(ok, name[i] == c)
		}
		vsym.Assume(ok)
	}
	req := &http.Request{Method: "GET", URL: &url.URL{Path: "/kill", RawQuery: "name=" + url.QueryEscape(name)}, Header: http.Header{}}
	p := &page{header: http.Header{}}
	if vsym.Bool("restart") {
		hb.RestartSer(p, req)
	} else {
		hb.KillSer(p, req)
		vsym.Assert(strings.Contains(string(p.body), `"code":0`), "the page does not answer")
	}
	names, other := killed(dir)
	vsym.Assert(!other, "a request to end a server runs something else")
	vsym.Assert(len(names) == 1 && names[0] == name, "a request to end a server ends another one, or none")
	vsym.Assert(strings.Contains(health(), `"health":0}`), "ending a server counts as a failed heartbeat")
	vsym.Reach("end")
}
