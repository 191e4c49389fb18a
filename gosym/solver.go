package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	ts      *TermStore
	stack   []*Term
	gen     int
	decl    map[string]bool
	Queries int
	Time    time.Duration
	SatN    int
	UnsatN  int
	UnkN    int
	timeout int
	log     io.Writer
	errs    []string
	intMode bool
	ints    *Solver // integer-encoding twin, started on demand
	idef    map[int]bool
	bounds  []string
	IntN    int // queries decided in the integer encoding
}

var solverGen = 0

func NewSolver(bin string, ts *TermStore, timeoutMS int) *Solver {
	s := &Solver{bin: bin, ts: ts, timeout: timeoutMS}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		f, _ := os.CreateTemp(p, "smt")
		s.log = f
	}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--global-declarations", "--force-logic=QF_UFBV", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	} else {
		args = []string{"-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout)}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.gen++
	s.decl = map[string]bool{}
	s.idef = map[int]bool{}
	s.bounds = nil
	if !strings.Contains(s.bin, "cvc5") {
		s.send("(set-option :global-declarations true)\n")
		s.send("(set-option :produce-models true)\n")
	}
}

func (s *Solver) Close() {
	if s.ints != nil {
		s.ints.Close()
		s.ints = nil
	}
	s.inRaw.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) send(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		io.WriteString(s.log, x)
	}
}

// emit makes sure t is definable and returns a reference to it.
func (s *Solver) ref(t *Term) string {
	if s.intMode {
		return s.refInt(t)
	}
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortName(t.w)))
		}
		return "|" + t.name + "|"
	}
	if t.sg == s.gen && t.def {
		return "t" + strconv.Itoa(t.id)
	}
	if t.op == OpUF && !s.decl["uf:"+t.name] {
		s.decl["uf:"+t.name] = true
		s.send(s.ts.ufs[t.name] + "\n")
	}
	body := t.smt1(s.ref)
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), body))
	t.def = true
	t.sg = s.gen
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) sync(pc []*Term) {
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		r := s.ref(pc[k])
		s.flushBounds()
		s.send("(push 1)\n(assert " + r + ")\n")
		s.stack = append(s.stack, pc[k])
	}
}

// flushBounds asserts the ranges of newly declared integer inputs. They have
// to survive a pop, so the assertion stack is rebuilt below them.
func (s *Solver) flushBounds() {
	if len(s.bounds) == 0 {
		return
	}
	n := len(s.stack)
	if n > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", n))
	}
	for _, b := range s.bounds {
		s.send(b)
	}
	s.bounds = nil
	for _, t := range s.stack {
		s.send("(push 1)\n(assert " + s.ref(t) + ")\n")
	}
}

// Check decides satisfiability of pc ∧ extra. When sat and wantModel, the
// model for all declared variables is returned.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (SatResult, *Model) {
	if !s.intMode && s.useInt(pc, extra) {
		if s.ints == nil {
			s.ints = &Solver{bin: s.bin, ts: s.ts, timeout: s.timeout, intMode: true, log: s.log}
			s.ints.start()
		}
		i := s.ints
		q0, t0, a, b, c := i.Queries, i.Time, i.SatN, i.UnsatN, i.UnkN
		r, m := i.Check(pc, extra, wantModel)
		s.Queries += i.Queries - q0
		s.Time += i.Time - t0
		s.SatN += i.SatN - a
		s.UnsatN += i.UnsatN - b
		s.UnkN += i.UnkN - c
		s.IntN++
		s.errs = append(s.errs, i.errs...)
		i.errs = nil
		return r, m
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	er := ""
	if extra != nil {
		er = s.ref(extra)
		s.flushBounds()
		s.send("(push 1)\n(assert " + er + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res SatResult
	switch line {
	case "sat":
		res = Sat
		s.SatN++
	case "unsat":
		res = Unsat
		s.UnsatN++
	default:
		res = Unknown
		s.UnkN++
		if line != "unknown" && line != "timeout" {
			s.errs = append(s.errs, line)
			if len(s.errs) < 5 {
				fmt.Fprintln(os.Stderr, "solver:", line)
			}
			// resynchronise: restart
			s.Close()
			s.start()
			return Unknown, nil
		}
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.getModel()
	}
	if extra != nil {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "error: solver died: " + err.Error()
		}
		l = strings.TrimSpace(l)
		if l == "" || l == "success" {
			continue
		}
		return l
	}
}

func (s *Solver) getModel() *Model {
	m := &Model{vals: map[string]uint64{}, memo: map[int]evalRes{}}
	var names []string
	for n := range s.decl {
		if !strings.HasPrefix(n, "uf:") {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, n := range names {
		sb.WriteString("|" + n + "| ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	txt := s.readSexp()
	parseModel(txt, m)
	return m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if inBar {
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func parseModel(txt string, m *Model) {
	// ((|a| #x00) (|b| true) ...); z3 drops bars from simple symbols
	i := 0
	n := len(txt)
	skip := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r' || txt[i] == '\t') {
			i++
		}
	}
	skip()
	if i < n && txt[i] == '(' {
		i++
	}
	for i < n {
		skip()
		if i >= n || txt[i] == ')' {
			return
		}
		if txt[i] != '(' {
			return
		}
		i++
		skip()
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for txt[j] != ' ' && txt[j] != '\n' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		skip()
		j := i
		depth := 0
		for j < n {
			if txt[j] == '(' {
				depth++
			}
			if txt[j] == ')' {
				if depth == 0 {
					break
				}
				depth--
			}
			j++
		}
		v := strings.TrimSpace(txt[i:j])
		i = j + 1
		switch {
		case v == "true":
			m.vals[name] = 1
		case v == "false":
			m.vals[name] = 0
		case strings.HasPrefix(v, "#x"):
			x, _ := strconv.ParseUint(v[2:], 16, 64)
			m.vals[name] = x
		case strings.HasPrefix(v, "#b"):
			x, _ := strconv.ParseUint(v[2:], 2, 64)
			m.vals[name] = x
		case strings.HasPrefix(v, "(- "):
			x, _ := strconv.ParseInt("-"+strings.TrimSuffix(v[3:], ")"), 10, 64)
			m.vals[name] = uint64(x)
		case v[0] >= '0' && v[0] <= '9':
			x, _ := strconv.ParseUint(v, 10, 64)
			m.vals[name] = x
		case strings.HasPrefix(v, "(_ bv"):
			f := strings.Fields(v)
			x, _ := strconv.ParseUint(f[1][2:], 10, 64)
			m.vals[name] = x
		}
	}
}
