package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/go-ego/riot"

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// harness is one entry point, described by directives in its doc comment.
type harness struct {
	Pkg     string // directory under /verif/harness
	Fn      string
	Prop    string
	Tiers   string
	Time    map[string]int
	Cfg     Config
	Bounds  []string
	Assume  []string
	Reach   []string
	Native  bool // can be compiled and replayed natively
	RaceB   bool
	Root    bool
	Kinds   string // kinds of violation that count, all if empty
	Models  []string
	SampleN int
}

var dirRe = regexp.MustCompile(`^//vsym:(\w+)\s*(.*)$`)

// scanHarnesses parses the directives of every harness file.
func scanHarnesses() ([]*harness, error) {
	var out []*harness
	dirs, err := ioutil.ReadDir(filepath.Join(verifDir, "harness"))
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		files, _ := filepath.Glob(filepath.Join(verifDir, "harness", d.Name(), "*.go"))
		for _, f := range files {
			b, err := ioutil.ReadFile(f)
			if err != nil {
				return nil, err
			}
			var h *harness
			for _, line := range strings.Split(string(b), "\n") {
				if m := dirRe.FindStringSubmatch(line); m != nil {
					if h == nil {
						h = &harness{Pkg: d.Name(), Tiers: "quick,thorough", Native: true, SampleN: 12,
							Time: map[string]int{"quick": 60, "thorough": 600},
							Cfg:  Config{MaxSteps: 3000000, SchedMode: "none", SpinLimit: 2000}}
					}
					switch m[1] {
					case "harness":
						for _, kv := range strings.Fields(m[2]) {
							p := strings.SplitN(kv, "=", 2)
							switch p[0] {
							case "prop":
								h.Prop = p[1]
							case "tier":
								h.Tiers = p[1]
							case "time":
								h.Time["quick"], _ = strconv.Atoi(p[1])
							case "ttime":
								h.Time["thorough"], _ = strconv.Atoi(p[1])
							case "sched":
								h.Cfg.SchedMode = p[1]
							case "pre":
								h.Cfg.MaxPre, _ = strconv.Atoi(p[1])
							case "race":
								h.Cfg.Race = p[1] == "1"
								h.RaceB = h.Cfg.Race
							case "steps":
								h.Cfg.MaxSteps, _ = strconv.Atoi(p[1])
							case "native":
								h.Native = p[1] == "1"
							case "at":
								h.Cfg.At = map[string]bool{}
								for _, n := range strings.Split(p[1], ",") {
									h.Cfg.At[n] = true
								}
							case "only":
								h.Kinds = p[1]
							case "root":
								h.Root = p[1] == "1"
							case "float":
								h.Cfg.Exact = p[1] == "exact"
							case "samples":
								h.SampleN, _ = strconv.Atoi(p[1])
							default:
								return nil, fmt.Errorf("%s: bad directive %s", f, kv)
							}
						}
					case "bounds":
						h.Bounds = append(h.Bounds, m[2])
					case "assume":
						h.Assume = append(h.Assume, m[2])
					case "reach":
						h.Reach = append(h.Reach, strings.Fields(m[2])...)
					case "replace":
						h = nil
					}
					continue
				}
				if strings.HasPrefix(line, "func ") {
					if h != nil {
						n := strings.TrimPrefix(line, "func ")
						n = n[:strings.IndexByte(n, '(')]
						h.Fn = n
						if h.Prop == "" {
							return nil, fmt.Errorf("%s: %s has no property", f, n)
						}
						out = append(out, h)
					}
					h = nil
				}
			}
		}
	}
	return out, nil
}

// overlay maps files under /repo to files of /verif (nothing is written there).
func overlay(pkgs []string, root bool, work string) map[string]string {
	m := map[string]string{}
	add := func(dst, srcDir string) {
		files, _ := filepath.Glob(filepath.Join(srcDir, "*.go"))
		for _, f := range files {
			m[filepath.Join(repoDir, "zzverif", dst, filepath.Base(f))] = f
		}
	}
	add("vsym", filepath.Join(verifDir, "vsym"))
	add("vmodel", filepath.Join(verifDir, "vmodel"))
	add("kvmodel", filepath.Join(verifDir, "kvmodel"))
	add("rpcmodel", filepath.Join(verifDir, "rpcmodel"))
	add("engmodel", filepath.Join(verifDir, "engmodel"))
	add("netmodel", filepath.Join(verifDir, "netmodel"))
	for _, p := range pkgs {
		add(p, filepath.Join(verifDir, "harness", p))
		hooks := filepath.Join(verifDir, "harness", p, "hooks")
		filepath.Walk(hooks, func(f string, fi os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(f, ".go") {
				rel, _ := filepath.Rel(hooks, filepath.Dir(f))
				m[filepath.Join(repoDir, rel, "zzverif_"+filepath.Base(f))] = f
			}
			return nil
		})
	}
	if root {
		stub := filepath.Join(work, "info_stub.go")
		ioutil.WriteFile(stub, []byte(infoStub), 0644)
		m[filepath.Join(repoDir, "info.go")] = stub
	}
	return m
}

// info.go pulls in go-vgo/gt/info, whose module graph cannot be verified
// offline; it only reports memory and disk usage.
const infoStub = "package riot\n\nvar (\n\tInitMemUsed uint64\n\tInitDiskUsed uint64\n)\n"

// modFile writes the repository's go.mod without the unusable requirement.
func modFile(work string) (string, error) {
	b, err := ioutil.ReadFile(filepath.Join(repoDir, "go.mod"))
	if err != nil {
		return "", err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "github.com/go-vgo/gt/info ") {
			continue
		}
		out = append(out, l)
	}
	mf := filepath.Join(work, "riot.mod")
	if err := ioutil.WriteFile(mf, []byte(strings.Join(out, "\n")), 0644); err != nil {
		return "", err
	}
	s, err := ioutil.ReadFile(filepath.Join(repoDir, "go.sum"))
	if err != nil {
		return "", err
	}
	return mf, ioutil.WriteFile(filepath.Join(work, "riot.sum"), s, 0644)
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GOFLAGS=-mod=readonly")
}

func loadProg(hs []*harness, work string) (*Prog, map[string]*ssa.Package, error) {
	set := map[string]bool{}
	root := false
	var pats, pkgs []string
	for _, h := range hs {
		if !set[h.Pkg] {
			set[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
			pats = append(pats, modPath+"/zzverif/"+h.Pkg)
		}
		root = root || h.Root
	}
	pats = append(pats, modPath+"/zzverif/vmodel")
	mf, err := modFile(work)
	if err != nil {
		return nil, nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range overlay(pkgs, root, work) {
		b, err := ioutil.ReadFile(src)
		if err != nil {
			return nil, nil, err
		}
		ov[dst] = b
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir:        repoDir,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + mf},
		Overlay:    ov,
	}
	lp, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(lp, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(lp, ssa.InstantiateGenerics)
	P := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, repl: map[string]*ssa.Function{}, fset: prog.Fset, modpath: modPath, lp: lp}
	P.sizes = types.SizesFor("gc", "amd64")
	hp := map[string]*ssa.Package{}
	packages.Visit(lp, nil, func(p *packages.Package) {
		sp := prog.Package(p.Types)
		if sp == nil {
			return
		}
		P.pkgs[p.PkgPath] = sp
		if strings.HasPrefix(p.PkgPath, modPath+"/zzverif/") {
			hp[strings.TrimPrefix(p.PkgPath, modPath+"/zzverif/")] = sp
			for _, f := range p.Syntax {
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Doc == nil {
						continue
					}
					for _, c := range fd.Doc.List {
						if m := dirRe.FindStringSubmatch(c.Text); m != nil && m[1] == "replace" {
							fn := sp.Func(fd.Name.Name)
							if fn != nil {
								P.repl[strings.TrimSpace(m[2])] = fn
							}
						}
					}
				}
			}
		}
	})
	return P, hp, nil
}

// ---- native replay ----

type native struct {
	bins map[string]string // "pkg" or "pkg-race" -> binary
	work string
	hs   []*harness
	lp   []*packages.Package
	root map[string]bool // harness packages that need the root package
}

func newNative(hs []*harness, work string) *native {
	n := &native{bins: map[string]string{}, work: work, hs: hs, root: map[string]bool{}}
	for _, h := range hs {
		if h.Root {
			n.root[h.Pkg] = true
		}
	}
	return n
}

func (n *native) build(h *harness, race, sched bool) (string, error) {
	key := h.Pkg
	if race {
		key += "-race"
	}
	if sched {
		key += "-sched"
	}
	if b, ok := n.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("native build failed earlier")
		}
		return b, nil
	}
	n.bins[key] = ""
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"os\"\n\th %q\n\t\"%s/zzverif/vsym\"\n)\n\nfunc main() {\n\tvsym.Begin()\n\tswitch os.Args[1] {\n", modPath+"/zzverif/"+h.Pkg, modPath)
	for _, x := range n.hs {
		if x.Pkg == h.Pkg {
			fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", x.Fn, x.Fn)
		}
	}
	sb.WriteString("\tdefault:\n\t\tos.Exit(9)\n\t}\n\tvsym.Done()\n}\n")
	mainFile := filepath.Join(n.work, "main_"+key+".go")
	if err := ioutil.WriteFile(mainFile, []byte(sb.String()), 0644); err != nil {
		return "", err
	}
	ov := overlay([]string{h.Pkg}, n.root[h.Pkg], n.work)
	if sched {
		if n.lp == nil {
			return "", fmt.Errorf("no syntax for the gated build")
		}
		if err := rewriteAll(n.lp, n.work, ov); err != nil {
			return "", err
		}
	}
	ov[filepath.Join(repoDir, "zzverif", "replay", "main.go")] = mainFile
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
	ovf := filepath.Join(n.work, "ov_"+key+".json")
	if err := ioutil.WriteFile(ovf, b, 0644); err != nil {
		return "", err
	}
	mf, err := modFile(n.work)
	if err != nil {
		return "", err
	}
	bin := filepath.Join(n.work, "bin_"+key)
	args := []string{"build", "-modfile=" + mf, "-overlay", ovf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, modPath+"/zzverif/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	n.bins[key] = bin
	return bin, nil
}

type natResult struct {
	code    int
	out     string
	timeout bool
}

func (n *native) run(h *harness, race bool, vals map[string]interface{}, sched []schedEvent, pace, tier int, to time.Duration) (natResult, error) {
	bin, err := n.build(h, race, len(sched) > 0)
	if err != nil {
		return natResult{}, err
	}
	f, err := ioutil.TempFile(n.work, "rep")
	if err != nil {
		return natResult{}, err
	}
	b, _ := json.Marshal(map[string]interface{}{"Vals": vals, "Tier": tier, "Sched": sched, "Pace": pace})
	f.Write(b)
	f.Close()
	defer os.Remove(f.Name())
	return runBin(bin, h.Fn, f.Name(), to)
}

func runBin(bin, fn, file string, to time.Duration) (natResult, error) {
	cmd := exec.Command("timeout", "-s", "KILL", fmt.Sprint(int(to.Seconds())), bin, fn)
	tmp, err := ioutil.TempDir("", "vsym")
	if err != nil {
		return natResult{}, err
	}
	defer os.RemoveAll(tmp)
	cmd.Env = append(os.Environ(), "VSYM_REPLAY="+file, "VSYM_TMP="+tmp, "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	r := natResult{out: string(out)}
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			r.code = ee.ExitCode()
		} else {
			return r, err
		}
	}
	if r.code == 137 || r.code == 124 || r.code == -1 {
		r.timeout = true
	}
	return r, nil
}

// reproduced decides whether the native run shows the reported failure.
func reproduced(v *violation, r natResult) bool {
	switch {
	case r.code == 0, r.code == 4, r.code == 9:
		return false
	case r.code == 3:
		return true
	case r.timeout:
		return v.Kind == "deadlock" || v.Kind == "hang"
	}
	return true // panic (2), fatal error, log.Fatal (1), race (66)
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	solver := flag.String("solver", envOr("GOSYM_SOLVER", "z3-new"), "solver binary")
	timeF := flag.Int("time", 0, "override time budget (s)")
	replay := flag.String("replay", "", "replay a violation file natively")
	noEv := flag.Bool("noevidence", false, "do not write the evidence file")
	list := flag.Bool("list", false, "list harnesses")
	flag.Parse()
	all, err := scanHarnesses()
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	if *list {
		for _, h := range all {
			fmt.Println(h.Prop, h.Pkg, h.Fn, h.Tiers)
		}
		return
	}
	work, err := ioutil.TempDir("", "gosym")
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	code := 2
	func() {
		defer os.RemoveAll(work)
		if *replay != "" {
			code = doReplay(all, *replay, work)
			return
		}
		code = check(all, *prop, *only, *tier, *workers, *solver, *timeF, work, !*noEv)
	}()
	os.Exit(code)
}

func doReplay(all []*harness, file, work string) int {
	var rf struct {
		Property, Harness string
		Vals              map[string]interface{}
		Tier              int
		Kind              string
		Race              bool
		Sched             []schedEvent
	}
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	json.Unmarshal(b, &rf)
	for _, h := range all {
		if h.Pkg+"."+h.Fn == rf.Harness {
			n := newNative(all, work)
			tries := 1
			if rf.Race {
				tries = 3
			}
			if len(rf.Sched) > 0 {
				tries = 6
				P, _, err := loadProg([]*harness{h}, work)
				if err != nil {
					fmt.Println(err)
					return 2
				}
				n.lp = P.lp
			}
			code := 2
			for i := 0; i < tries && (i == 0 || code == 0); i++ {
				sched, pace := rf.Sched, 0
				if rf.Race {
					if pace = []int{1, 4}[i%2]; i >= 4 {
						sched, pace = nil, 0
					}
				}
				r, err := n.run(h, rf.Race, rf.Vals, sched, pace, rf.Tier, 30*time.Second)
				fmt.Print(r.out)
				fmt.Println("exit", r.code, err)
				code = r.code
			}
			return code
		}
	}
	return 2
}

type known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

func loadKnown(prop string) []known {
	var ks, out []known
	b, err := ioutil.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Known []known `json:"known"`
	}
	json.Unmarshal(b, &doc)
	ks = doc.Known
	for _, k := range ks {
		if k.Property == prop {
			out = append(out, k)
		}
	}
	return out
}

func check(all []*harness, prop, only, tier string, workers int, solver string, timeF int, work string, evidence bool) int {
	t0 := time.Now()
	var hs []*harness
	for _, h := range all {
		if h.Prop == prop && (only == "" || strings.Contains(h.Fn, only)) {
			if only != "" || strings.Contains(h.Tiers, tier) {
				hs = append(hs, h)
			}
		}
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", prop)
		return 2
	}
	P, hp, err := loadProg(hs, work)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	loadT := time.Since(t0)
	nat := newNative(all, work)
	nat.lp = P.lp
	kn := loadKnown(prop)
	knownHit := map[string]bool{}
	tierN := 0
	if tier == "thorough" {
		tierN = 1
	}
	ev := newEvidence(prop, tier)
	ev.assume = append(ev.assume, "encoding: go/ssa of the current source; strings and slices have concrete lengths on each path, contents symbolic; int=64 bit wrap-around; "+
		"float + - * / on symbolic operands uninterpreted (equal operands give equal results) unless the harness says float=exact, comparisons exact")
	exit := 0
	for _, h := range hs {
		fn := hp[h.Pkg].Func(h.Fn)
		hp[h.Pkg].Build()
		budget := h.Time[tier]
		if timeF > 0 {
			budget = timeF
		}
		ex := &Explorer{P: P, fn: fn, cfg: h.Cfg, workers: workers, solver: solver, solverTO: 20000,
			samplesN: h.SampleN, tier: tierN, deadline: time.Now().Add(time.Duration(budget) * time.Second)}
		var confirmed *violation
		replays := map[string]int{}
		unconf := []string{}
		total := 0
		ex.onViol = func(v *violation) bool {
			if h.Kinds != "" && v.Kind != h.Kinds {
				return false // decided by another property
			}
			key := v.Kind + "|" + v.Msg
			if replays[key] >= 4 || total >= 24 {
				return false
			}
			replays[key]++
			total++
			ok := true
			var out string
			if h.Native {
				ok = false
				to := 20 * time.Second
				tries := 1
				if len(v.Sched) > 0 {
					tries = 3
				}
				for i := 0; i < 2*tries && !ok; i++ {
					var sched []schedEvent
					pace := 0
					if v.Kind != "race" && tries > 1 {
						// follow the schedule, then let it run freely
						if i < tries {
							sched = v.Sched
						}
					} else if v.Kind == "race" && tries > 1 {
						if i < 4 {
							sched = v.Sched
							pace = []int{1, 4}[i%2]
						}
					} else if i >= tries {
						break
					}
					r, err := nat.run(h, v.Kind == "race", v.Vals, sched, pace, tierN, to)
					if err != nil {
						fmt.Println("ERROR", err)
						return false
					}
					ok = reproduced(v, r)
					out = r.out
				}
			}
			if !ok {
				unconf = append(unconf, v.Msg)
				if os.Getenv("GOSYM_DEBUG") != "" || os.Getenv("GOSYM_V") != "" {
					js, _ := json.Marshal(v)
					fmt.Printf("unconfirmed: %s\n%s\n%s\n", v.Msg, js, out)
				}
				return false
			}
			for _, k := range kn {
				re, err := regexp.Compile(k.Match)
				if err == nil && (k.Harness == "" || k.Harness == h.Fn) && re.MatchString(v.Msg) {
					if !knownHit[k.What] {
						knownHit[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					}
					return false
				}
			}
			confirmed = v
			return true
		}
		hstart := time.Now()
		ex.Run()
		hwall := time.Since(hstart)
		if confirmed != nil {
			path := saveReplay(prop, h, confirmed, tierN)
			fmt.Printf("%s.%s: %s\n  at %s\n", h.Pkg, h.Fn, confirmed.Msg, confirmed.Where)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			exit = 1
			ev.violations++
		}
		// validate the encoding: replay models of completed paths natively
		validated, mism := 0, []string{}
		if exit == 0 && h.Native && h.SampleN > 0 {
			for _, s := range ex.Samples {
				r, err := nat.run(h, false, s.Vals, nil, 0, tierN, 30*time.Second)
				if err != nil {
					mism = append(mism, err.Error())
					break
				}
				if m := compareObs(s, r); m != "" {
					mism = append(mism, m)
				} else {
					validated++
				}
			}
		}
		miss := []string{}
		for _, r := range h.Reach {
			if ex.Reached[r] == 0 {
				miss = append(miss, r)
			}
		}
		complete := ex.Pending == 0 && ex.stopWhy == "" && len(ex.Unsup) == 0 && len(ex.Truncated) == 0
		fmt.Printf("%s.%s: paths=%d infeasible=%d violations=%d asserts=%d forks=%d instrs=%d queries=%d int=%d (sat %d unsat %d unknown %d) solver=%.1fs wall=%.1fs complete=%v pending=%d validated=%d/%d\n",
			h.Pkg, h.Fn, ex.Paths, ex.Infeas, ex.Viols, ex.Asserts, ex.Forks, ex.Instrs, ex.Queries, ex.IntN, ex.SatN, ex.UnsatN, ex.UnkN,
			ex.SolverT.Seconds(), hwall.Seconds(), complete, ex.Pending, validated, len(ex.Samples))
		for _, k := range sortedCount(ex.Unsup) {
			fmt.Printf("  unsupported x%d: %s\n", ex.Unsup[k], k)
		}
		for _, k := range sortedCount(ex.Truncated) {
			fmt.Printf("  truncated x%d: %s\n", ex.Truncated[k], k)
		}
		for _, k := range sortedCount(ex.Notes) {
			fmt.Printf("  note x%d: %s\n", ex.Notes[k], k)
		}
		for _, m := range mism {
			fmt.Printf("  native mismatch: %s\n", m)
		}
		for _, u := range unconf {
			fmt.Printf("  not reproduced natively: %s\n", u)
		}
		for _, m := range miss {
			fmt.Printf("  not reached: %s\n", m)
		}
		ev.add(h, ex, complete, validated, mism, unconf, miss, hwall, budget)
		if exit == 1 {
			break
		}
		if len(miss) > 0 && len(unconf) == 0 {
			// nothing was decided: neither success nor violation
			fmt.Printf("ERROR vacuous harness %s\n", h.Fn)
			exit = 2
		}
	}
	ev.loadT = loadT
	if evidence {
		ev.write(time.Since(t0))
	}
	return exit
}

func compareObs(s pathSample, r natResult) string {
	if r.code != 0 {
		return fmt.Sprintf("native run of a passing path failed: exit %d: %s vals=%v", r.code, tail(r.out), s.Vals)
	}
	var obs []obsRec
	for _, l := range strings.Split(r.out, "\n") {
		if strings.HasPrefix(l, "VSYM-OBS ") {
			p := strings.SplitN(l, " ", 3)
			obs = append(obs, obsRec{p[1], p[2]})
		}
	}
	if len(obs) != len(s.Obs) {
		return fmt.Sprintf("observation count %d, predicted %d", len(obs), len(s.Obs))
	}
	for i := range obs {
		if s.Obs[i].Val == "?" {
			continue
		}
		if obs[i] != s.Obs[i] {
			return fmt.Sprintf("observed %v, predicted %v", obs[i], s.Obs[i])
		}
	}
	return ""
}

func tail(s string) string {
	if len(s) > 400 {
		return s[len(s)-400:]
	}
	return s
}

func saveReplay(prop string, h *harness, v *violation, tier int) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+"_"+h.Fn+".json")
	b, _ := json.MarshalIndent(map[string]interface{}{
		"Property": prop, "Harness": h.Pkg + "." + h.Fn, "Kind": v.Kind, "Msg": v.Msg, "Where": v.Where, "Stack": v.Stack,
		"Vals": v.Vals, "Sched": v.Sched, "Tier": tier, "Race": v.Kind == "race",
		"HowTo": "/verif/bin/gosym -replay " + path,
	}, "", " ")
	ioutil.WriteFile(path, b, 0644)
	return path
}

var _ = sort.Strings
