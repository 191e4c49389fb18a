package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int // >=0 register, -1 constant
	c    Value
}

type cinstr struct {
	ins  ssa.Instruction
	dst  int
	ops  []opnd
	more interface{}
}

type cfn struct {
	fn      *ssa.Function
	blocks  [][]cinstr
	nslots  int
	params  []int
	freev   []int
	name    string
	model   bool // part of a library model: not subject to race detection
	inRepo  bool
	entered int
}

type deferred struct {
	fn   Value
	args []Value
	bi   *ssa.Builtin
	pos  token.Pos
}

type Frame struct {
	f         *cfn
	regs      []Value
	block     int
	prev      int
	pc        int
	defers    []deferred
	dst       int // destination register in the caller, -1 = discard
	retTo     func(Value)
	isDefer   bool   // frame is a deferred call
	owner     *Frame // frame whose defer list this call came from
	unwinding *panicRec
	recovered bool
}

type deferStack struct{ fr *Frame }

type panicRec struct {
	val       Iface
	recovered bool
	where     string
}

type goPanic struct{ v Iface }

type gstatus int

const (
	gRun gstatus = iota
	gPred
	gChan
	gSleep
	gDone
)

type G struct {
	id     int
	stack  []*Frame
	status gstatus
	ready  func() bool
	passed bool
	vc     vclock
	panics []*panicRec
	wakeAt int64
	onWake func()
	spins  int
	waitOn string
	name   string

	demoted  int
	deferPos token.Pos // of the defer statement of the call being made
}

// Prog is shared by all workers.
type Prog struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repl     map[string]*ssa.Function // redirects
	fset     *token.FileSet
	sizes    types.Sizes
	skipInit map[string]bool
	modpath  string
	lp       []*packages.Package
}

type Config struct {
	At         map[string]bool // functions in which goroutines may be preempted, all if empty
	MaxSteps   int
	MaxPre     int    // preemption / delay budget
	SchedMode  string // "preempt", "delay", "none"
	Race       bool
	MapOrder   string // "insertion", "both", "all"
	ReproFloat bool
	SpinLimit  int
	Exact      bool // float arithmetic exact
}

type violation struct {
	Msg    string
	Where  string
	Vals   map[string]interface{}
	Sched  []schedEvent
	Kind   string
	Stack  []string
	prefix []uint16
}

// schedEvent is a visible operation of the code under test.
type schedEvent struct {
	G     int
	Op    string
	Pos   string // file:line
	Child int    // goroutine started
	Async bool   // completed by the other side of the next event
}

// Interp is one worker's interpreter.
type Interp struct {
	P     *Prog
	ts    *TermStore
	sol   *Solver
	cfg   Config
	sizes types.Sizes
	fns   map[*ssa.Function]*cfn

	// per path
	pc        []*Term
	facts     map[*Term]bool
	model     *Model
	prefix    []uint16
	pos       int
	trace     []uint16
	globals   map[*ssa.Global]Ptr
	inited    map[*ssa.Package]bool
	gs        []*G
	cur       *G
	steps     int
	nameSeq   map[string]int
	inputs    []inputVar
	budget    int
	sched     []schedEvent
	demotions int
	posCache  map[token.Pos]string
	locks     map[Ptr]*lockState
	side      map[interface{}]interface{}
	clock     int64
	timers    []*ChanV // pending
	viol      *violation
	ended     bool
	reached   map[string]bool
	nchan     int
	shadow    map[interface{}]*shadowCell
	mapMode   int
	raceMsg   string
	notes     map[string]bool
	multi     bool
	obs       []obsSym
	tier      int
	inInit    bool

	// persistent
	stdGlobals    map[*ssa.Global]Ptr
	stdInited     map[*ssa.Package]bool
	stdInit       map[*ssa.Package]bool // those whose initialisation was executed
	push          func(item workItem)
	funcsSeen     map[string]int
	instrs        int
	forks         int
	freeForks     int
	pcVars        map[*Term]bool
	asserts       int
	unsupMsgs     map[string]int
	curFrame      *Frame
	spinRounds    int
	settles       int
	timersMayFire bool
}

type inputVar struct {
	Name string
	Kind string // int, bool, f32, f64, str
	T    *Term
	B    []*Term
	W    uint8
	Sgn  bool
	S    string
}

type workItem struct {
	prefix []uint16
	model  *Model
}

type pathEnd struct{ why string } // thrown to end a path quietly

func (in *Interp) f32(f float32) *Term { return in.ts.BV(32, uint64(math.Float32bits(f))) }
func (in *Interp) f64(f float64) *Term { return in.ts.BV(64, math.Float64bits(f)) }
func (in *Interp) int(v int) *Term     { return in.ts.BV(64, uint64(int64(v))) }

// ---------- compile ----------

func (in *Interp) compile(fn *ssa.Function) *cfn {
	if c, ok := in.fns[fn]; ok {
		return c
	}
	// Build is guarded by a sync.Once: every worker waits for completion
	if fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	c := &cfn{fn: fn, name: fn.String()}
	c.model = strings.Contains(c.name, "/zzverif/") && strings.Contains(c.name, "model.")
	if p := fn.Pkg; p != nil {
		c.inRepo = in.P.isRepo(p.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		c.inRepo = in.P.isRepo(fn.Origin().Pkg.Pkg.Path())
	} else if fn.Parent() != nil && fn.Parent().Pkg != nil {
		c.inRepo = in.P.isRepo(fn.Parent().Pkg.Pkg.Path())
	}
	slots := map[ssa.Value]int{}
	next := 0
	alloc := func(v ssa.Value) int {
		if s, ok := slots[v]; ok {
			return s
		}
		slots[v] = next
		next++
		return next - 1
	}
	for _, p := range fn.Params {
		c.params = append(c.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		c.freev = append(c.freev, alloc(p))
	}
	operand := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, c: in.constValue(x)}
		case *ssa.Function:
			return opnd{slot: -1, c: x}
		case *ssa.Builtin:
			return opnd{slot: -1, c: x}
		case *ssa.Global:
			return opnd{slot: -2, c: x}
		}
		return opnd{slot: alloc(v)}
	}
	c.blocks = make([][]cinstr, len(fn.Blocks))
	var rands [16]*ssa.Value
	for bi, b := range fn.Blocks {
		cis := make([]cinstr, 0, len(b.Instrs))
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = alloc(v)
			}
			for _, r := range ins.Operands(rands[:0]) {
				if r == nil || *r == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
					continue
				}
				ci.ops = append(ci.ops, operand(*r))
			}
			cis = append(cis, ci)
		}
		c.blocks[bi] = cis
	}
	c.nslots = next
	in.fns[fn] = c
	return c
}

func (p *Prog) isRepo(path string) bool {
	return (path == p.modpath || strings.HasPrefix(path, p.modpath+"/")) && !strings.Contains(path, "/zzverif")
}

func (p *Prog) isLocal(path string) bool {
	return path == p.modpath || strings.HasPrefix(path, p.modpath+"/")
}

func (in *Interp) get(fr *Frame, o opnd) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.slot == -2 {
		return in.global(o.c.(*ssa.Global))
	}
	return o.c
}

func (in *Interp) global(g *ssa.Global) Ptr {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if p, ok := in.stdGlobals[g]; ok {
		return p
	}
	v := new(Value)
	*v = in.zero(g.Type().(*types.Pointer).Elem())
	if in.P.isLocal(g.Pkg.Pkg.Path()) {
		in.globals[g] = v
		in.ensureInit(g.Pkg)
	} else {
		in.stdGlobals[g] = v
		if e := in.opaqueError(g); e != nil {
			*v = e
		} else if g.Name() != "init$guard" {
			in.ensureInit(g.Pkg)
			if !in.stdInit[g.Pkg] && initialises(g) {
				in.notes["not initialised: "+g.String()] = true
			}
		}
	}
	return v
}

// opaqueError is the value of a package-level error of a library whose
// initialisation is not executed: distinct from every other error.
func (in *Interp) opaqueError(g *ssa.Global) Value {
	if initAllowed(g.Pkg.Pkg.Path()) || g.Type().(*types.Pointer).Elem().String() != "error" {
		return nil
	}
	ep := in.P.pkgs["errors"]
	if ep == nil || ep.Type("errorString") == nil {
		return nil
	}
	t := ep.Type("errorString").Type()
	p := new(Value)
	*p = in.zero(t)
	(*p).(*StructV).f[0] = Str{s: g.Pkg.Pkg.Name() + "." + g.Name()}
	return Iface{t: types.NewPointer(t), v: Ptr(p)}
}

// ensureInit runs package initialisation the first time a package is touched.
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] || in.stdInited[p] {
		return
	}
	path := p.Pkg.Path()
	local := in.P.isLocal(path)
	if local {
		in.inited[p] = true
	} else {
		in.stdInited[p] = true
	}
	p.Build()
	initFn := p.Func("init")
	if initFn == nil {
		return
	}
	if !local {
		in.constInit(initFn)
		if !initAllowed(path) {
			return
		}
		in.stdInit[p] = true
	}
	in.runInit(initFn)
}

// initialises tells whether the initialisation of its package sets a variable
// to something other than a constant.
func initialises(g *ssa.Global) bool {
	initFn := g.Pkg.Func("init")
	if initFn == nil {
		return false
	}
	for _, b := range initFn.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if _, isConst := st.Val.(*ssa.Const); isConst {
					continue
				}
			}
			for _, o := range i.Operands(nil) {
				if *o == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// constInit gives the variables of a library package that are initialised with
// constants their values, also when its initialisation is not, or not fully,
// executed.
func (in *Interp) constInit(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := st.Addr.(*ssa.Global)
			c, ok2 := st.Val.(*ssa.Const)
			if ok && ok2 && g.Name() != "init$guard" {
				*in.global(g) = in.constValue(c)
			}
		}
	}
}

func (in *Interp) runInit(fn *ssa.Function) {
	// run on a private goroutine to completion, synchronously
	saved, savedGs, savedSteps := in.cur, in.gs, in.steps
	savedInit := in.inInit
	in.inInit = true
	defer func() {
		in.cur, in.gs, in.steps = saved, savedGs, savedSteps
		in.inInit = savedInit
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok && !in.P.isLocal(fn.Pkg.Pkg.Path()) {
				// a library package is left partially initialised
				in.notes["partial init of "+fn.Pkg.Pkg.Path()+": "+u.msg] = true
				return
			}
			panic(r)
		}
	}()
	g := &G{id: -1, vc: vclock{}}
	in.cur = g
	in.gs = []*G{g}
	in.steps = 0
	in.pushCall(g, fn, nil, nil, -1)
	for g.status == gRun && len(g.stack) > 0 {
		in.step(g)
	}
	if len(g.stack) > 0 {
		unsup("package init blocked: %s", fn)
	}
}

// ---------- decisions ----------

func (in *Interp) known(c *Term) (bool, bool) {
	if c.op == OpConst {
		return c.val == 1, true
	}
	if v, ok := in.facts[c]; ok {
		return v, true
	}
	if c.op == OpNot {
		if v, ok := in.facts[c.args[0]]; ok {
			return !v, true
		}
	}
	if c.op == OpAnd {
		a, ok1 := in.known(c.args[0])
		b, ok2 := in.known(c.args[1])
		if ok1 && !a || ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	}
	if c.op == OpOr {
		a, ok1 := in.known(c.args[0])
		b, ok2 := in.known(c.args[1])
		if ok1 && a || ok2 && b {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	return false, false
}

func (in *Interp) addFact(c *Term, v bool) {
	if c.op == OpConst {
		return
	}
	if _, ok := in.facts[c]; ok {
		return
	}
	in.facts[c] = v
	switch {
	case c.op == OpNot:
		in.addFact(c.args[0], !v)
	case c.op == OpAnd && v:
		in.addFact(c.args[0], true)
		in.addFact(c.args[1], true)
	case c.op == OpOr && !v:
		in.addFact(c.args[0], false)
		in.addFact(c.args[1], false)
	case c.op == OpULT && v:
		// strictness implies the converse and equality are false
		in.facts[in.ts.mk(OpULT, 0, 0, "", c.args[1], c.args[0])] = false
		in.addFact(in.ts.Eq(c.args[0], c.args[1]), false)
	case c.op == OpSLT && v:
		in.facts[in.ts.mk(OpSLT, 0, 0, "", c.args[1], c.args[0])] = false
		in.addFact(in.ts.Eq(c.args[0], c.args[1]), false)
	}
}

func (in *Interp) addPC(c *Term) {
	if c.IsTrue() {
		return
	}
	in.pc = append(in.pc, c)
	in.seeVars(c)
	in.addFact(c, true)
	if in.model != nil {
		if v, ok := in.model.Eval(c); !ok || v != 1 {
			in.model = nil
		}
	}
}

// seeVars records the variables (and subterms) the path condition mentions.
func (in *Interp) seeVars(t *Term) {
	if in.pcVars[t] {
		return
	}
	in.pcVars[t] = true
	for _, a := range t.args {
		in.seeVars(a)
	}
}

func (in *Interp) query(c *Term) (SatResult, *Model) {
	return in.sol.Check(in.pc, c, true)
}

// fork decides a branch on c, scheduling the other side when feasible.
func (in *Interp) fork(c *Term) bool {
	if v, ok := in.known(c); ok {
		return v
	}
	if in.inInit {
		unsup("fork during package init")
	}
	nc := in.ts.Not(c)
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		switch d {
		case 1:
			in.addPC(c)
			return true
		case 2: // implied by the path condition
			in.addFact(c, true)
			return true
		case 3:
			in.addFact(c, false)
			return false
		}
		in.addPC(nc)
		return false
	}
	in.forks++
	if v := c; in.model != nil && (v.op == OpVar || v.op == OpNot && v.args[0].op == OpVar) {
		if v.op == OpNot {
			v = v.args[0]
		}
		if !in.pcVars[v] {
			// a Boolean input no constraint mentions yet: both sides are
			// satisfiable by flipping it in the current model
			cur, _ := in.model.Eval(c)
			flip := &Model{vals: make(map[string]uint64, len(in.model.vals)+1), memo: map[int]evalRes{}}
			for k, x := range in.model.vals {
				flip.vals[k] = x
			}
			vv, _ := in.model.Eval(v)
			flip.vals[v.name] = 1 - vv
			mT, mF := in.model, flip
			if cur != 1 {
				mT, mF = flip, in.model
			}
			in.freeForks++
			alt := make([]uint16, len(in.trace)+1)
			copy(alt, in.trace)
			in.push(workItem{alt, mF})
			in.trace = append(in.trace, 1)
			in.pos++
			in.model = mT
			in.addPC(c)
			return true
		}
	}
	var mT, mF *Model
	canT, canF := false, false
	if in.model != nil {
		if v, ok := in.model.Eval(c); ok {
			if v == 1 {
				canT, mT = true, in.model
			} else {
				canF, mF = true, in.model
			}
		}
	}
	if !canT {
		r, m := in.query(c)
		canT, mT = r != Unsat, m
		if !canT {
			canF = true
		}
	}
	if !canF {
		r, m := in.query(nc)
		canF, mF = r != Unsat, m
	}
	if !canT && !canF {
		panic(pathEnd{"infeasible"})
	}
	if canT && canF {
		alt := make([]uint16, len(in.trace)+1)
		copy(alt, in.trace)
		alt[len(in.trace)] = 0
		in.push(workItem{alt, mF})
		in.trace = append(in.trace, 1)
		in.pos++
		in.model = mT
		in.addPC(c)
		return true
	}
	d := canT
	in.pos++
	if d {
		in.trace = append(in.trace, 2)
		if mT != nil {
			in.model = mT
		}
	} else {
		in.trace = append(in.trace, 3)
		if mF != nil {
			in.model = mF
		}
	}
	in.addFact(c, d)
	return d
}

// choose picks one of n alternatives; all are feasible.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		return int(d)
	}
	in.forks++
	for i := n - 1; i >= 1; i-- {
		alt := make([]uint16, len(in.trace)+1)
		copy(alt, in.trace)
		alt[len(in.trace)] = uint16(i)
		in.push(workItem{alt, in.model})
	}
	in.trace = append(in.trace, 0)
	in.pos++
	return 0
}

// conc concretises a term by forking over its feasible values.
func (in *Interp) conc(t *Term) uint64 {
	for {
		if t.op == OpConst {
			return t.val
		}
		// find a feasible value
		var val uint64
		if in.pos < len(in.prefix) {
			// replay: decisions are (t==val) forks; values must be reproduced
			// deterministically, so they are stored in the trace as 4 x uint16.
			val = uint64(in.prefix[in.pos])<<48 | uint64(in.prefix[in.pos+1])<<32 | uint64(in.prefix[in.pos+2])<<16 | uint64(in.prefix[in.pos+3])
			in.trace = append(in.trace, in.prefix[in.pos:in.pos+4]...)
			in.pos += 4
		} else {
			ok := false
			if in.model != nil {
				val, ok = in.model.Eval(t)
			}
			if !ok {
				r := in.ts.Var(fmt.Sprintf("cz%d", t.id), t.w)
				in.pc = append(in.pc, in.ts.Eq(r, t))
				res, m := in.sol.Check(in.pc, nil, true)
				if res != Sat {
					panic(pathEnd{"concretise: " + fmt.Sprint(res)})
				}
				in.model = m
				val = m.vals[r.name]
				in.pc = in.pc[:len(in.pc)-1]
			}
			in.trace = append(in.trace, uint16(val>>48), uint16(val>>32), uint16(val>>16), uint16(val))
			in.pos += 4
		}
		if in.fork(in.ts.Eq(t, in.ts.BV(t.w, val))) {
			return val
		}
	}
}

func (in *Interp) concInt(v Value) int {
	t := v.(*Term)
	return int(sext(in.conc(t), t.w))
}

// ---------- violations ----------

func (in *Interp) report(kind, msg string, m *Model) {
	if in.inInit {
		unsup("%s during package initialisation", msg)
	}
	v := &violation{Kind: kind, Msg: msg, Vals: map[string]interface{}{}}
	if in.cur != nil && len(in.cur.stack) > 0 {
		for i := len(in.cur.stack) - 1; i >= 0; i-- {
			fr := in.cur.stack[i]
			v.Stack = append(v.Stack, fr.f.name+" "+in.posOf(fr))
		}
		v.Where = v.Stack[0]
	}
	if m == nil {
		res, mm := in.sol.Check(in.pc, nil, true)
		if res == Unsat {
			panic(pathEnd{"violation on infeasible path"})
		}
		m = mm
	}
	if m != nil {
		in.fillVals(m, v.Vals)
	}
	v.Sched = append([]schedEvent(nil), in.sched...)
	v.prefix = append([]uint16(nil), in.trace...)
	in.viol = v
	panic(pathEnd{"violation"})
}

func (in *Interp) posOf(fr *Frame) string {
	pc := fr.pc
	if fr.block < len(fr.f.blocks) {
		b := fr.f.blocks[fr.block]
		for i := pc; i >= 0; i-- {
			if i < len(b) {
				if p := b[i].ins.Pos(); p.IsValid() {
					ps := in.P.fset.Position(p)
					return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
				}
			}
		}
	}
	if fr.f.fn == nil {
		return ""
	}
	ps := in.P.fset.Position(fr.f.fn.Pos())
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// assertTerm checks that c holds on every continuation of this path.
func (in *Interp) assertTerm(c *Term, msg string) {
	if in.pos >= len(in.prefix) {
		in.asserts++
	}
	if c.IsTrue() {
		return
	}
	if v, ok := in.known(c); ok && v {
		return
	}
	if in.pos < len(in.prefix) {
		// already decided when this prefix was first explored
		in.addFact(c, true)
		return
	}
	nc := in.ts.Not(c)
	if in.model != nil {
		if v, ok := in.model.Eval(nc); ok && v == 1 {
			in.addPCNoModel(nc)
			in.report("assert", msg, nil)
		}
	}
	r, m := in.query(nc)
	switch r {
	case Sat:
		in.addPCNoModel(nc)
		in.report("assert", msg, m)
	case Unknown:
		in.notes["solver unknown: "+msg] = true
	}
	in.addFact(c, true)
}

func (in *Interp) addPCNoModel(c *Term) { in.pc = append(in.pc, c); in.seeVars(c) }

// ---------- runtime errors / panics ----------

func (in *Interp) runtimeError(msg string) Iface {
	return Iface{t: rtErrType, v: Str{s: "runtime error: " + msg}}
}

var rtErrType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, types.NewPackage("runtime", "runtime"), "vsymError", nil), types.Typ[types.String], nil)

func (in *Interp) rtPanic(msg string) {
	panic(goPanic{in.runtimeError(msg)})
}

func (in *Interp) panicString(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case Str:
		if x.b == nil {
			return x.s
		}
		return "<symbolic string>"
	case *Term:
		return x.String()
	}
	return v.t.String()
}

// startPanic begins unwinding g.
func (in *Interp) startPanic(g *G, v Iface) {
	pr := &panicRec{val: v}
	if len(g.stack) > 0 {
		fr := g.stack[len(g.stack)-1]
		pr.where = fr.f.name + " " + in.posOf(fr)
	}
	g.panics = append(g.panics, pr)
	if os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "panic: %s at %s\n", in.panicString(v), pr.where)
	}
	// check there is some defer that could recover; if none, report with the full stack
	any := false
	for _, fr := range g.stack {
		if len(fr.defers) > 0 || fr.isDefer {
			any = true
		}
	}
	if !any {
		in.uncaught(g, pr)
	}
	g.stack[len(g.stack)-1].unwinding = pr
	in.unwind(g)
}

func (in *Interp) uncaught(g *G, pr *panicRec) {
	in.report("panic", "uncaught panic: "+in.panicString(pr.val)+" at "+pr.where, nil)
}

// unwind continues panic processing: the top frame is unwinding.
func (in *Interp) unwind(g *G) {
	for {
		if len(g.stack) == 0 {
			in.uncaught(g, g.panics[len(g.panics)-1])
		}
		fr := g.stack[len(g.stack)-1]
		pr := fr.unwinding
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			in.callDeferredNow(g, fr, d)
			if len(g.stack) > 0 && g.stack[len(g.stack)-1] != fr {
				return // deferred function now runs
			}
			// builtin/intrinsic completed inline
			if pr.recovered {
				in.finishRecovered(g, fr)
				return
			}
			continue
		}
		// pop
		g.stack = g.stack[:len(g.stack)-1]
		if len(g.stack) == 0 {
			in.uncaught(g, pr)
		}
		g.stack[len(g.stack)-1].unwinding = pr
	}
}

func (in *Interp) finishRecovered(g *G, fr *Frame) {
	fr.unwinding = nil
	g.panics = g.panics[:len(g.panics)-1]
	fr.recovered = true
	if len(fr.defers) > 0 {
		// run remaining defers normally, then return via recover block
		in.runDefersThen(g, fr)
		return
	}
	in.recoverReturn(g, fr)
}

func (in *Interp) runDefersThen(g *G, fr *Frame) {
	for len(fr.defers) > 0 {
		n := len(fr.defers)
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		in.callDeferredNow(g, fr, d)
		if g.stack[len(g.stack)-1] != fr {
			return
		}
	}
	in.recoverReturn(g, fr)
}

func (in *Interp) recoverReturn(g *G, fr *Frame) {
	fr.recovered = false
	if fr.f.fn.Recover != nil {
		fr.prev = fr.block
		fr.block = fr.f.fn.Recover.Index
		fr.pc = 0
		return
	}
	var res Value
	sig := fr.f.fn.Signature.Results()
	if sig.Len() == 1 {
		res = in.zero(sig.At(0).Type())
	} else if sig.Len() > 1 {
		res = in.zero(sig)
	}
	in.doReturn(g, fr, res)
}

// callDeferred runs d; false: it has to be retried when g runs again.
func (in *Interp) callDeferred(g *G, fr *Frame, d deferred) bool {
	g.deferPos = d.pos
	if d.bi != nil {
		in.builtin(g, fr, d.bi, d.args, nil, -1)
		g.deferPos = token.NoPos
		return true
	}
	ok := in.callValue(g, fr, d.fn, d.args, -1, true)
	g.deferPos = token.NoPos
	if !ok {
		fr.defers = append(fr.defers, d)
	}
	return ok
}

// callDeferredNow runs d without a scheduling point before it.
func (in *Interp) callDeferredNow(g *G, fr *Frame, d deferred) {
	g.passed = true
	ok := in.callDeferred(g, fr, d)
	g.passed = false
	if !ok {
		unsup("deferred call blocks while panicking")
	}
}

// doReturn pops fr and delivers res.
func (in *Interp) doReturn(g *G, fr *Frame, res Value) {
	g.stack = g.stack[:len(g.stack)-1]
	if fr.retTo != nil {
		fr.retTo(res)
	}
	if len(g.stack) == 0 {
		g.status = gDone
		in.onGoExit(g)
		return
	}
	caller := g.stack[len(g.stack)-1]
	if fr.isDefer && fr.owner == caller {
		if caller.unwinding != nil {
			if caller.unwinding.recovered {
				in.finishRecovered(g, caller)
				return
			}
			in.unwind(g)
			return
		}
		if caller.recovered {
			in.runDefersThen(g, caller)
			return
		}
		return // RunDefers instruction is re-executed
	}
	if fr.dst >= 0 {
		caller.regs[fr.dst] = res
	}
}

// ---------- calls ----------

func (in *Interp) pushCall(g *G, fn *ssa.Function, args []Value, env []Value, dst int) *Frame {
	c := in.compile(fn)
	if len(c.blocks) == 0 {
		unsup("no body: %s", fn)
	}
	if fn.Pkg != nil {
		in.ensureInit(fn.Pkg)
	}
	if len(g.stack) > 400 {
		unsup("call depth")
	}
	fr := &Frame{f: c, regs: make([]Value, c.nslots), dst: dst}
	for i, s := range c.params {
		fr.regs[s] = args[i]
	}
	for i, s := range c.freev {
		fr.regs[s] = env[i]
	}
	if c.inRepo {
		in.funcsSeen[c.name]++
	}
	g.stack = append(g.stack, fr)
	return fr
}

// callValue calls fn value. Returns false if the goroutine must retry (blocked).
func (in *Interp) callValue(g *G, fr *Frame, fv Value, args []Value, dst int, isDefer bool) bool {
	var fn *ssa.Function
	var env []Value
	switch f := fv.(type) {
	case *ssa.Function:
		fn = f
	case *Closure:
		fn, env = f.fn, f.env
	case *ssa.Builtin:
		in.builtin(g, fr, f, args, nil, dst)
		return true
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	default:
		unsup("call of %T", fv)
	}
	if fn == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if fn.Synthetic == "package initializer" {
		return true // packages are initialised lazily
	}
	name := fnName(fn)
	if r, ok := in.P.repl[name]; ok && !(fr != nil && in.isModelOf(fr, r)) {
		fn, env = r, nil
		name = fnName(fn)
	}
	if intr, ok := intrinsics[name]; ok {
		res, act := intr(in, g, fr, args)
		switch act {
		case actDone:
			if dst >= 0 {
				fr.regs[dst] = res
			}
			return true
		case actRetry:
			return false
		case actFrame:
			nf := g.stack[len(g.stack)-1]
			nf.dst = dst
			if isDefer {
				nf.isDefer, nf.owner = true, fr
			}
			return true
		}
	}
	if fn.Pkg != nil {
		if stubPkgs[fn.Pkg.Pkg.Path()] {
			sig := fn.Signature.Results()
			var res Value
			if sig.Len() == 1 {
				res = in.zero(sig.At(0).Type())
			} else if sig.Len() > 1 {
				res = in.zero(sig)
			}
			if dst >= 0 {
				fr.regs[dst] = res
			}
			return true
		}
	}
	nf := in.pushCall(g, fn, args, env, dst)
	if isDefer {
		nf.isDefer, nf.owner = true, fr
	}
	return true
}

func (in *Interp) isModelOf(fr *Frame, r *ssa.Function) bool {
	return fr.f.fn == r
}

var fnNameCache = map[*ssa.Function]string{}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	fnNameMu.RLock()
	s, ok := fnNameCache[fn]
	fnNameMu.RUnlock()
	if ok {
		return s
	}
	s = fn.String()
	fnNameMu.Lock()
	fnNameCache[fn] = s
	fnNameMu.Unlock()
	return s
}

// ---------- stepping ----------

func (in *Interp) step(g *G) {
	in.steps++
	in.instrs++
	if in.steps > in.cfg.MaxSteps {
		panic(pathEnd{"step bound"})
	}
	fr := g.stack[len(g.stack)-1]
	ci := &fr.f.blocks[fr.block][fr.pc]
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				in.startPanic(g, gp.v)
				return
			}
			panic(r)
		}
	}()
	// fast loop over plain instructions
	for {
		if !in.exec(g, fr, ci) {
			return
		}
		in.steps++
		in.instrs++
		if in.steps > in.cfg.MaxSteps {
			panic(pathEnd{"step bound"})
		}
		ci = &fr.f.blocks[fr.block][fr.pc]
	}
}

func (in *Interp) jump(fr *Frame, succ int) {
	b := fr.f.fn.Blocks[fr.block]
	to := b.Succs[succ].Index
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	// phis in parallel
	blk := fr.f.blocks[to]
	if len(blk) == 0 {
		return
	}
	if _, ok := blk[0].ins.(*ssa.Phi); !ok {
		return
	}
	pred := -1
	tb := fr.f.fn.Blocks[to]
	// choose the edge index; with duplicate edges any is fine for identical succ
	for i, p := range tb.Preds {
		if p.Index == fr.prev {
			pred = i
			break
		}
	}
	if len(b.Succs) == 2 && b.Succs[0] == b.Succs[1] {
		// two edges from the same block: pick by occurrence
		k := 0
		for i, p := range tb.Preds {
			if p.Index == fr.prev {
				if k == succ {
					pred = i
				}
				k++
			}
		}
	}
	n := 0
	var tmp [8]Value
	vals := tmp[:0]
	for n < len(blk) {
		if _, ok := blk[n].ins.(*ssa.Phi); !ok {
			break
		}
		vals = append(vals, in.get(fr, blk[n].ops[pred]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.regs[blk[i].dst] = vals[i]
	}
	fr.pc = n
}

// exec executes one instruction; returns true when execution may continue in
// the same frame without consulting the scheduler.
func (in *Interp) exec(g *G, fr *Frame, ci *cinstr) bool {
	in.curFrame = fr
	switch ins := ci.ins.(type) {
	case *ssa.Alloc:
		v := new(Value)
		*v = in.zero(ins.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = Ptr(v)

	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), in.get(fr, ci.ops[0]), in.get(fr, ci.ops[1]))

	case *ssa.UnOp:
		x := in.get(fr, ci.ops[0])
		switch ins.Op {
		case token.MUL:
			p, ok := x.(Ptr)
			if !ok {
				unsup("load via %T", x)
			}
			if p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if gl, ok := ins.X.(*ssa.Global); ok {
				in.ensureInit(gl.Pkg)
			}
			in.onRead(p)
			fr.regs[ci.dst] = copyVal(*p)
		case token.NOT:
			fr.regs[ci.dst] = in.ts.Not(x.(*Term))
		case token.SUB:
			if isFloat(ins.Type()) {
				t := x.(*Term)
				sm, _, _ := in.ts.fpParts(t.w)
				fr.regs[ci.dst] = in.ts.Bin(OpBXor, t, in.ts.BV(t.w, sm))
			} else {
				fr.regs[ci.dst] = in.ts.Neg(x.(*Term))
			}
		case token.XOR:
			fr.regs[ci.dst] = in.ts.BNot(x.(*Term))
		case token.ARROW:
			return in.recv(g, fr, ci, ins, x.(*ChanV))
		default:
			unsup("unop %v", ins.Op)
		}

	case *ssa.Store:
		p, ok := in.get(fr, ci.ops[0]).(Ptr)
		if !ok {
			unsup("store via %T", in.get(fr, ci.ops[0]))
		}
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		in.onWrite(p)
		storeTo(p, in.get(fr, ci.ops[1]))

	case *ssa.FieldAddr:
		p, ok := in.get(fr, ci.ops[0]).(Ptr)
		if !ok {
			unsup("fieldaddr via %T", in.get(fr, ci.ops[0]))
		}
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(*StructV)
		if !ok {
			unsup("fieldaddr on %T in %s", *p, fr.f.name)
		}
		fr.regs[ci.dst] = Ptr(&s.f[ins.Field])

	case *ssa.Field:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0]).(*StructV).f[ins.Field]

	case *ssa.IndexAddr:
		x := in.get(fr, ci.ops[0])
		idx := in.get(fr, ci.ops[1]).(*Term)
		switch s := x.(type) {
		case Slice:
			i := in.boundIndex(idx, ins.Index.Type(), s.len)
			fr.regs[ci.dst] = Ptr(&s.arr.e[s.off+i])
		case Ptr:
			if s == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*s).(*ArrV)
			i := in.boundIndex(idx, ins.Index.Type(), len(a.e))
			fr.regs[ci.dst] = Ptr(&a.e[i])
		default:
			unsup("indexaddr %T", x)
		}

	case *ssa.Index:
		x := in.get(fr, ci.ops[0])
		idx := in.get(fr, ci.ops[1]).(*Term)
		switch s := x.(type) {
		case *ArrV:
			i := in.boundIndex(idx, ins.Index.Type(), len(s.e))
			fr.regs[ci.dst] = s.e[i]
		case Str:
			i := in.boundIndex(idx, ins.Index.Type(), s.Len())
			fr.regs[ci.dst] = in.strByte(s, i)
		default:
			unsup("index %T", x)
		}

	case *ssa.Lookup:
		x := in.get(fr, ci.ops[0])
		if s, ok := x.(Str); ok {
			i := in.boundIndex(in.get(fr, ci.ops[1]).(*Term), ins.Index.Type(), s.Len())
			fr.regs[ci.dst] = in.strByte(s, i)
			break
		}
		m := x.(*MapV)
		mt := ins.X.Type().Underlying().(*types.Map)
		in.onReadObj(m)
		e := in.mapFind(m, mt.Key(), in.get(fr, ci.ops[1]))
		var v Value
		if e != nil {
			v = copyVal(e.v)
		} else {
			v = in.zero(mt.Elem())
		}
		if ins.CommaOk {
			v = Tuple{v, in.ts.Bool(e != nil)}
		}
		fr.regs[ci.dst] = v

	case *ssa.MapUpdate:
		m := in.get(fr, ci.ops[0]).(*MapV)
		if m == nil {
			panic(goPanic{in.runtimeError("assignment to entry in nil map")})
		}
		mt := ins.Map.Type().Underlying().(*types.Map)
		in.onWriteObj(m)
		in.mapSet(m, mt.Key(), in.get(fr, ci.ops[1]), copyVal(in.get(fr, ci.ops[2])))

	case *ssa.Phi:
		unsup("phi in middle")

	case *ssa.Jump:
		in.jump(fr, 0)
		return true

	case *ssa.If:
		if in.fork(in.get(fr, ci.ops[0]).(*Term)) {
			in.jump(fr, 0)
		} else {
			in.jump(fr, 1)
		}
		return true

	case *ssa.Return:
		var res Value
		switch len(ci.ops) {
		case 0:
		case 1:
			res = in.get(fr, ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i := range ci.ops {
				t[i] = in.get(fr, ci.ops[i])
			}
			res = t
		}
		in.doReturn(g, fr, res)
		return false

	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			in.callDeferred(g, fr, d)
			return false // re-executed until empty
		}

	case *ssa.Panic:
		v := in.get(fr, ci.ops[0]).(Iface)
		if v.t == nil {
			v = in.runtimeError("panic called with nil argument")
		}
		panic(goPanic{v})

	case *ssa.Call:
		return in.call(g, fr, ci, ins)

	case *ssa.Defer:
		d := deferred{pos: ins.Pos()}
		if b, ok := ins.Call.Value.(*ssa.Builtin); ok && !ins.Call.IsInvoke() {
			d.bi = b
			for _, o := range ci.ops[1 : 1+len(ins.Call.Args)] {
				d.args = append(d.args, in.get(fr, o))
			}
		} else {
			d.fn, d.args = in.prepCall(fr, ci, &ins.Call)
		}
		tgt := fr
		if ins.DeferStack != nil {
			if h, ok := in.get(fr, ci.ops[len(ci.ops)-1]).(deferStack); ok {
				tgt = h.fr
			}
		}
		tgt.defers = append(tgt.defers, d)

	case *ssa.Go:
		if in.schedPoint(g, "go") {
			return false
		}
		fn, args := in.prepCall(fr, ci, &ins.Call)
		fr.pc++
		in.spawn(g, fn, args)
		return false

	case *ssa.Extract:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0]).(Tuple)[ins.Index]

	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: ins.X.Type(), v: copyVal(in.get(fr, ci.ops[0]))}

	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = in.get(fr, ci.ops[0])

	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(ins.X.Type(), ins.Type(), in.get(fr, ci.ops[0]))

	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(ins.X.Type(), ins.Type(), in.get(fr, ci.ops[0]))

	case *ssa.MakeClosure:
		c := &Closure{fn: ins.Fn.(*ssa.Function)}
		for _, o := range ci.ops[1:] {
			c.env = append(c.env, in.get(fr, o))
		}
		fr.regs[ci.dst] = c

	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()

	case *ssa.MakeChan:
		n := in.concInt(in.get(fr, ci.ops[0]))
		if n < 0 {
			in.rtPanic("makechan: size out of range")
		}
		in.nchan++
		fr.regs[ci.dst] = &ChanV{cap: n, id: in.nchan, et: ins.Type().Underlying().(*types.Chan).Elem()}

	case *ssa.MakeSlice:
		l := in.get(fr, ci.ops[0]).(*Term)
		c := in.get(fr, ci.ops[1]).(*Term)
		et := ins.Type().Underlying().(*types.Slice).Elem()
		// a negative or huge length panics
		big := in.ts.BV(64, 1<<30)
		if l.w < 64 {
			l = in.ts.SExt(l, 64)
		}
		if c.w < 64 {
			c = in.ts.SExt(c, 64)
		}
		if in.fork(in.ts.Not(in.ts.Bin(OpULT, l, big))) {
			in.rtPanic("makeslice: len out of range")
		}
		if in.fork(in.ts.Not(in.ts.Bin(OpULT, c, big))) {
			in.rtPanic("makeslice: cap out of range")
		}
		n, cp := in.concInt(l), in.concInt(c)
		if n > cp {
			in.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<20 {
			unsup("makeslice of %d", cp)
		}
		a := &ArrV{e: make([]Value, cp)}
		for i := range a.e {
			a.e[i] = in.zero(et)
		}
		fr.regs[ci.dst] = Slice{a, 0, n, cp}

	case *ssa.Slice:
		fr.regs[ci.dst] = in.sliceOp(fr, ci, ins)

	case *ssa.SliceToArrayPointer:
		s := in.get(fr, ci.ops[0]).(Slice)
		n := int(ins.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		if s.off == 0 && len(s.arr.e) == n {
			v := new(Value)
			*v = s.arr
			fr.regs[ci.dst] = Ptr(v)
		} else {
			v := new(Value)
			*v = &ArrV{e: s.arr.e[s.off : s.off+n : s.off+n]}
			fr.regs[ci.dst] = Ptr(v)
		}

	case *ssa.Range:
		x := in.get(fr, ci.ops[0])
		switch m := x.(type) {
		case *MapV:
			in.onReadObj(m)
			it := &MapIter{m: m, order: m.liveEntries()}
			in.orderMap(it)
			fr.regs[ci.dst] = it
		case Str:
			fr.regs[ci.dst] = &StrIter{s: m}
		default:
			unsup("range %T", x)
		}

	case *ssa.Next:
		fr.regs[ci.dst] = in.next(ins, in.get(fr, ci.ops[0]))

	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(ins, in.get(fr, ci.ops[0]).(Iface))

	case *ssa.Send:
		return in.send(g, fr, in.get(fr, ci.ops[0]).(*ChanV), in.get(fr, ci.ops[1]))

	case *ssa.Select:
		return in.selectOp(g, fr, ci, ins)

	default:
		unsup("instruction %T", ci.ins)
	}
	fr.pc++
	return true
}

func (in *Interp) prepCall(fr *Frame, ci *cinstr, call *ssa.CallCommon) (Value, []Value) {
	fv := in.get(fr, ci.ops[0])
	args := make([]Value, 0, len(call.Args)+1)
	if call.IsInvoke() {
		recv := fv.(Iface)
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.lookupMethod(recv.t, call.Method)
		if fn == nil {
			unsup("method %s not found on %s", call.Method, recv.t)
		}
		args = append(args, copyVal(recv.v))
		fv = fn
	}
	for _, o := range ci.ops[1 : 1+len(call.Args)] {
		args = append(args, in.get(fr, o))
	}
	return fv, args
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func (in *Interp) call(g *G, fr *Frame, ci *cinstr, ins *ssa.Call) bool {
	if b, ok := ins.Call.Value.(*ssa.Builtin); ok && !ins.Call.IsInvoke() {
		args := make([]Value, 0, 4)
		for _, o := range ci.ops[1 : 1+len(ins.Call.Args)] {
			args = append(args, in.get(fr, o))
		}
		in.builtin(g, fr, b, args, ins, ci.dst)
		fr.pc++
		return true
	}
	if ins.Call.IsInvoke() {
		if rv, ok := in.get(fr, ci.ops[0]).(Iface); ok && rv.t == rtErrType {
			// Error() on a runtime error value
			fr.regs[ci.dst] = rv.v
			fr.pc++
			return true
		}
	}
	fv, args := in.prepCall(fr, ci, &ins.Call)
	pc := fr.pc
	fr.pc++
	n := len(g.stack)
	if !in.callValue(g, fr, fv, args, ci.dst, false) {
		fr.pc = pc
		return false
	}
	// intrinsic completed without frame change: continue
	return len(g.stack) == n && g.stack[n-1] == fr && g.status == gRun && in.cur == g && fr.unwinding == nil && !in.ended
}

func (in *Interp) boundIndex(idx *Term, it types.Type, n int) int {
	b := it.Underlying().(*types.Basic)
	_, signed := intWidth(b)
	if idx.op == OpConst {
		var i int64
		if signed {
			i = sext(idx.val, idx.w)
		} else {
			i = int64(idx.val)
		}
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	var c *Term
	if idx.w < 64 && signed {
		idx = in.ts.SExt(idx, 64)
	} else if idx.w < 64 {
		idx = in.ts.ZExt(idx, 64)
	}
	c = in.ts.Bin(OpULT, idx, in.ts.BV(64, uint64(n)))
	if !in.fork(c) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(in.conc(idx))
}

func (in *Interp) sliceOp(fr *Frame, ci *cinstr, ins *ssa.Slice) Value {
	x := in.get(fr, ci.ops[0])
	k := 1
	var lo, hi, max Value
	// Operands(): X, Low, High, Max (nil entries are kept as placeholders)
	if ins.Low != nil {
		lo = in.get(fr, ci.ops[k])
	}
	k++
	if ins.High != nil {
		hi = in.get(fr, ci.ops[k])
	}
	k++
	if ins.Max != nil {
		max = in.get(fr, ci.ops[k])
	}
	var length, capacity int
	switch s := x.(type) {
	case Str:
		length, capacity = s.Len(), s.Len()
	case Slice:
		length, capacity = s.len, s.cap
	case Ptr:
		if s == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		length = len((*s).(*ArrV).e)
		capacity = length
	default:
		unsup("slice of %T", x)
	}
	ext := func(v Value, def int) *Term {
		if v == nil {
			return in.int(def)
		}
		t := v.(*Term)
		if t.w < 64 {
			return in.ts.SExt(t, 64)
		}
		return t
	}
	l, h, m := ext(lo, 0), ext(hi, length), ext(max, capacity)
	// 0 <= l <= h <= m <= cap
	okm := in.ts.Bin(OpULE, m, in.int(capacity))
	okh := in.ts.Bin(OpULE, h, m)
	okl := in.ts.Bin(OpULE, l, h)
	if !in.fork(okm) || !in.fork(okh) || !in.fork(okl) {
		in.rtPanic("slice bounds out of range")
	}
	li, hi2, mi := in.concInt(l), in.concInt(h), in.concInt(m)
	switch s := x.(type) {
	case Str:
		return in.strSlice(s, li, hi2)
	case Slice:
		if s.arr == nil {
			return Slice{}
		}
		return Slice{s.arr, s.off + li, hi2 - li, mi - li}
	case Ptr:
		return Slice{(*s).(*ArrV), li, hi2 - li, mi - li}
	}
	return nil
}

func (in *Interp) orderMap(it *MapIter) {
	switch in.mapMode {
	case 0:
	case 1: // one of insertion/reverse, chosen once per path
		k, ok := in.side["maporder"]
		if !ok {
			k = in.choose(2)
			in.side["maporder"] = k
		}
		if k.(int) == 1 {
			for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
				it.order[i], it.order[j] = it.order[j], it.order[i]
			}
		}
	case 2: // every order
		for i := 0; i < len(it.order)-1; i++ {
			j := i + in.choose(len(it.order)-i)
			it.order[i], it.order[j] = it.order[j], it.order[i]
		}
	}
}

func (in *Interp) next(ins *ssa.Next, x Value) Value {
	if ins.IsString {
		it := x.(*StrIter)
		if it.i >= it.s.Len() {
			return Tuple{in.ts.fls, in.int(0), in.ts.BV(32, 0)}
		}
		i := it.i
		r, n := in.decodeRune(it.s, i)
		it.i += n
		return Tuple{in.ts.tru, in.int(i), r}
	}
	it := x.(*MapIter)
	for it.i < len(it.order) {
		e := it.order[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Tuple{in.ts.tru, e.k, copyVal(e.v)}
	}
	tt := ins.Type().(*types.Tuple)
	zk, zv := Value(nil), Value(nil)
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = in.zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = in.zero(tt.At(2).Type())
	}
	return Tuple{in.ts.fls, zk, zv}
}

func (in *Interp) decodeRune(s Str, i int) (*Term, int) {
	b := in.strByte(s, i)
	if in.fork(in.ts.Bin(OpULT, b, in.ts.BV(8, 0x80))) {
		return in.ts.ZExt(b, 32), 1
	}
	var buf []byte
	for j := i; j < s.Len() && j < i+4; j++ {
		t := in.strByte(s, j)
		buf = append(buf, byte(in.conc(t)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	return in.ts.BV(32, uint64(uint32(r))), n
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			if x.t == rtErrType {
				ok = it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
			} else {
				ok = types.Implements(x.t, it)
			}
			v = x
		} else if types.Identical(x.t, ins.AssertedType) {
			ok = true
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !ins.CommaOk {
			ts := "nil"
			if x.t != nil {
				ts = x.t.String()
			}
			panic(goPanic{in.runtimeError(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, ins.AssertedType))})
		}
		v = in.zero(ins.AssertedType)
	}
	if ins.CommaOk {
		return Tuple{v, in.ts.Bool(ok)}
	}
	return v
}
