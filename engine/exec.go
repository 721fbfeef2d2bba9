package main

// The symbolic interpreter of go/ssa.

import (
	"sync/atomic"
	"sort"
	"os"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
	okFree
	okNone
)

type operand struct {
	kind opKind
	idx  int
	val  Value
	g    *ssa.Global
}

type CInstr struct {
	ins ssa.Instruction
	ops []operand
	dst int
}

type FuncInfo struct {
	fn            *ssa.Function
	blocks        [][]CInstr
	nregs         int
	intr          Intrinsic
	redir         *ssa.Function
	steps0, steps int64
}

type deferRec struct {
	fn   *Closure
	args []Value
	intr *ssa.CallCommon
	bi   *ssa.Builtin
}

type Frame struct {
	fi        *FuncInfo
	regs      []Value
	bind      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	defers    []deferRec
	panicking bool
	recovered bool
	panicVal  Value
	panicPos  string
	isDefer   bool // called as a deferred function of the frame below
	isInit    bool // lazily run package initialiser; caller re-executes its instruction
	isGo      bool
	discard   bool
}

type Input struct {
	name string
	t    *Term
}

type State struct {
	heap          Heap
	token         int64
	frames        []*Frame // of the running goroutine
	runq          []thread // goroutines that can run, next first
	blocked       []thread
	pc            []*Term
	facts         map[*Term]bool
	conc          map[*Term]uint64
	sub           map[*Term]*Term // attacker variables determined by the path
	subVer        int64
	dead          bool
	globals       map[*ssa.Global]ObjID
	inited        map[*ssa.Package]bool
	inputs        []Input
	names         map[string]int
	honest        map[*App]bool
	macs          []*App
	muls          []*App
	model         map[string]uint64
	steps0, steps int64
	forks         int
	noPanic       bool
	tag           []string
	pins          []uint64
}

// thread is a goroutine that is not running.
type thread struct {
	frames []*Frame
	next   bool  // made ready last by the running goroutine: runs next
	on     []ObjID // what it waits for
	recv   bool    // it waits to receive
	at     string
}

// blockReq: the running goroutine waits for an object and then executes its
// instruction again.
type blockReq struct {
	on   []ObjID
	recv bool
}

func copyFrames(fs []*Frame) []*Frame {
	r := make([]*Frame, len(fs))
	for i, f := range fs {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferRec(nil), f.defers...)
		r[i] = &g
	}
	return r
}

func copyThreads(ts []thread) []thread {
	var r []thread
	for _, t := range ts {
		t.frames = copyFrames(t.frames)
		r = append(r, t)
	}
	return r
}

// ready puts a goroutine where the runtime with one processor would: it runs
// next, and the one that would have run next goes to the end of the queue.
func (s *State) ready(t thread) {
	q := s.runq
	if len(q) > 0 && q[0].next {
		o := q[0]
		o.next = false
		q = append(q[1:len(q):len(q)], o)
	}
	t.next = true
	s.runq = append([]thread{t}, q...)
}

// wake makes the goroutines that wait for an object ready, or only those that
// wait to send.
func (s *State) wake(on ObjID, senders bool) {
	var rest, woken []thread
	for _, t := range s.blocked {
		if t.waits(on) && !(senders && t.recv) {
			t.on, t.recv = nil, false
			woken = append(woken, t)
		} else {
			rest = append(rest, t)
		}
	}
	s.blocked = rest
	for _, t := range woken {
		s.ready(t)
	}
}

func (t *thread) waits(on ObjID) bool {
	for _, o := range t.on {
		if o == on {
			return true
		}
	}
	return false
}

// canSend tells whether a value can be sent now.
func (s *State) canSend(ch ObjID) bool {
	o := s.obj(ch)
	if int64(len(o.slots)-chanHead) < int64(o.slots[1].(*Term).k) {
		return true
	}
	for _, t := range s.blocked {
		if t.recv && t.waits(ch) {
			return true
		}
	}
	return false
}

// A channel's object: whether it is closed, its capacity, what is in it.
const chanHead = 2

// yield lets the others run first.
func (s *State) yield() {
	if len(s.runq) == 0 {
		return
	}
	s.runq = append(s.runq[:len(s.runq):len(s.runq)], thread{frames: s.frames})
	s.schedule()
}

// schedule runs the next goroutine, if there is one.
func (s *State) schedule() bool {
	if len(s.runq) == 0 {
		return false
	}
	s.frames = s.runq[0].frames
	s.runq = s.runq[1:]
	return true
}

// block makes the running goroutine wait.
func (w *Worker) block(b blockReq) {
	s := w.cur
	if b.recv {
		for _, on := range b.on {
			s.wake(on, true)
		}
	}
	s.blocked = append(s.blocked[:len(s.blocked):len(s.blocked)], thread{frames: s.frames, on: b.on, recv: b.recv, at: w.where()})
	s.frames = nil
	if !s.schedule() {
		w.deadlock()
	}
}

// deadlock: nothing can run any more.
func (w *Worker) deadlock() {
	s := w.cur
	s.noPanic = true
	w.res.Paths++
	at := "?"
	for _, t := range s.blocked {
		if !t.frames[0].isGo {
			at = t.at
			s.frames = t.frames // for reports
		}
	}
	switch w.S.Check(s.pc) {
	case Sat:
		w.violation("panic", "blocked forever at "+at, s, at, nil)
	case Unknown:
		w.res.unknown("deadlock reachability undecided: " + at)
	}
	s.frames = nil
}

type splitReq struct{ alts []*Term }
type initReq struct{ pkg *ssa.Package }
type goPanic struct {
	v   Value
	msg string
}
type pathEnd struct {
	kind string // "assume", "unsupported", "budget"
	msg  string
}

type typesType = types.Type

type Worker struct {
	size     int64  // number of terms, for the memory watch
	full     int32  // asked to stop by the memory watch
	ar       *Arith // integer arithmetic (arith jobs only)
	crossQ   [][]*Term
	eqMemo   map[[2]*App]*Term
	randOf   map[*Term]int
	nDraws   int
	P        *Program
	T        *Terms
	S        *Solver
	job      *Job
	funcs    map[*ssa.Function]*FuncInfo
	stack    []*State
	tok      int64
	tids     typeutil.Map
	tidc     map[types.Type]int
	ntid     int
	meths    map[methKey]*ssa.Function
	impl     map[[2]int]bool
	res      *JobResult
	pins     []uint64
	cur      *State
	deadline time.Time
	curIntr  string
	subVer   int64
	subMemo  map[*Term]*Term
	subApp   map[*App][]*Term
}

type methKey struct {
	t int
	m *types.Func
}

func (w *Worker) newToken() int64 { w.tok++; return w.tok }

func (w *Worker) fork(s *State) *State {
	n := &State{}
	*n = *s
	n.token = w.newToken()
	s.token = w.newToken()
	n.heap.chunks = append([]*chunk(nil), s.heap.chunks...)
	n.frames = copyFrames(s.frames)
	n.runq = copyThreads(s.runq)
	n.blocked = copyThreads(s.blocked)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	s.pc = n.pc
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.conc = make(map[*Term]uint64, len(s.conc))
	for k, v := range s.conc {
		n.conc[k] = v
	}
	n.globals = make(map[*ssa.Global]ObjID, len(s.globals))
	for k, v := range s.globals {
		n.globals[k] = v
	}
	n.inited = make(map[*ssa.Package]bool, len(s.inited))
	for k, v := range s.inited {
		n.inited[k] = v
	}
	n.names = make(map[string]int, len(s.names))
	for k, v := range s.names {
		n.names[k] = v
	}
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.macs = s.macs[:len(s.macs):len(s.macs)]
	n.muls = s.muls[:len(s.muls):len(s.muls)]
	n.tag = s.tag[:len(s.tag):len(s.tag)]
	n.pins = s.pins[:len(s.pins):len(s.pins)]
	n.forks++
	return n
}

// assume adds a condition to the path.
func (s *State) learn(w *Worker, c *Term) {
	T := w.T
	if c.isConst() {
		return
	}
	if c.op == OpAnd {
		for _, x := range c.a {
			s.learn(w, x)
		}
	}
	s.facts[c] = true
	s.facts[T.Not(c)] = false
	if c.op == OpEq && c.a[0].isConst() {
		s.conc[c.a[1]] = c.a[0].k
	}
	if c.op == OpEq && c.taint {
		old := w.cur
		w.cur = s
		w.solve(s, c)
		w.cur = old
	}
	if c.op == OpNot && c.a[0].op == OpOr {
		for _, x := range c.a[0].a {
			s.learn(w, T.Not(x))
		}
	}
}

func (s *State) addPC(w *Worker, c *Term) {
	if c.isConst() {
		if c.k == 0 {
			s.dead = true
		}
		return
	}
	ver := s.subVer
	s.pc = append(s.pc, c)
	s.learn(w, c)
	if s.subVer == ver {
		return
	}
	// new rewrite rules: rewrite the path condition and the known facts
	old := w.cur
	w.cur = s
	defer func() { w.cur = old }()
	for round := 0; round < 4; round++ {
		ver = s.subVer
		var pc []*Term
		vars := make([]*Term, 0, len(s.sub))
		for v := range s.sub {
			vars = append(vars, v)
		}
		sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
		isDef := map[*Term]bool{}
		for _, v := range vars {
			isDef[w.T.Eq(v, s.sub[v])] = true
		}
		for _, x := range s.pc {
			if isDef[x] {
				continue
			}
			y := w.subst(x)
			if y.isConst() {
				if y.k == 0 {
					s.dead = true
					return
				}
				continue
			}
			pc = append(pc, y)
			if y != x {
				s.learn(w, y)
			}
		}
		if s.subVer != ver {
			s.pc = pc
			for _, v := range vars {
				s.pc = append(s.pc, w.T.Eq(v, s.sub[v]))
			}
			continue
		}
		s.pc = pc
		for _, v := range vars {
			if e := w.T.Eq(v, s.sub[v]); !e.isConst() {
				s.pc = append(s.pc, e)
			}
		}
		break
	}
	w.collisions(s)
	if s.dead {
		return
	}
	var fs []*Term
	for f := range s.facts {
		if f.taint {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		y := w.subst(f)
		if y != f {
			if y.isConst() {
				if (y.k != 0) != s.facts[f] {
					s.dead = true
					return
				}
			} else {
				s.facts[y] = s.facts[f]
			}
			delete(s.facts, f)
		}
	}
}

// under decides whether the path admits c; the state it returns carries the
// path condition under c, for reading a model.
func (w *Worker) under(s *State, c *Term) (Res, *State) {
	if !c.taint {
		return w.S.Check(s.pc, c), s
	}
	n := *s
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.facts = make(map[*Term]bool, len(s.facts)+4)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.conc = make(map[*Term]uint64, len(s.conc)+4)
	for k, v := range s.conc {
		n.conc[k] = v
	}
	n.addPC(w, c)
	if n.dead {
		return Unsat, s
	}
	return w.S.Check(n.pc), &n
}

// known looks a condition up among the facts of the path.
func (s *State) known(T *Terms, c *Term) (bool, bool) {
	if c.isConst() {
		return c.k != 0, true
	}
	if v, ok := s.facts[c]; ok {
		return v, true
	}
	switch c.op {
	case OpAnd:
		all := true
		for _, x := range c.a {
			v, ok := s.known(T, x)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	case OpOr:
		all := true
		for _, x := range c.a {
			v, ok := s.known(T, x)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	case OpNot:
		v, ok := s.known(T, c.a[0])
		return !v, ok
	case OpEq:
		if c.a[0].isConst() {
			if v, ok := s.conc[c.a[1]]; ok {
				return v == c.a[0].k, true
			}
		}
	}
	return false, false
}

// decide resolves a condition on the current path, forking if both outcomes
// are feasible (by unwinding to the instruction, which is re-executed).
func (w *Worker) decide(c *Term) bool {
	s := w.cur
	c = w.subst(c)
	if v, ok := s.known(w.T, c); ok {
		return v
	}
	rt := Unsat
	var alts []*Term
	for _, d := range w.disjuncts(c) {
		switch r, _ := w.under(s, d); r {
		case Unsat:
			continue
		case Unknown:
			if rt == Unsat {
				rt = Unknown
			}
		default:
			rt = Sat
		}
		alts = append(alts, d)
	}
	if rt == Unsat {
		s.learn(w, w.T.Not(c))
		return false
	}
	rf, _ := w.under(s, w.T.Not(c))
	if rf == Unsat {
		if !c.taint {
			s.learn(w, c)
			return true
		}
		// also for one alternative, so that rewrite rules reach the path condition
		panic(splitReq{alts})
	}
	if rt == Unknown || rf == Unknown {
		w.res.unknown(fmt.Sprintf("branch feasibility undecided at %s", w.where()))
		if os.Getenv("GOSYM_UNK") != "" {
			fmt.Printf("UNDECIDED %s\n  cond %s\n", w.where(), c.str(7))
			for _, x := range s.pc {
				fmt.Printf("  pc %s\n", x.str(7))
			}
		}
	}
	panic(splitReq{append(alts, w.T.Not(c))})
}

// disjuncts splits a condition on attacker data into the ways it can hold.
func (w *Worker) disjuncts(c *Term) []*Term {
	if !c.taint {
		return []*Term{c}
	}
	or, rest := c, []*Term(nil)
	if c.op == OpAnd {
		or = nil
		for _, x := range c.a {
			if x.op == OpOr && or == nil {
				or = x
			} else {
				rest = append(rest, x)
			}
		}
	}
	if or == nil || or.op != OpOr || len(or.a) > 12 {
		return []*Term{c}
	}
	for _, x := range or.a {
		if x.op != OpAnd && x.op != OpEq {
			return []*Term{c}
		}
	}
	var out []*Term
	for _, x := range or.a {
		out = append(out, w.T.And(append([]*Term{x}, rest...)...))
	}
	return out
}

// concretize returns a concrete value of t on this path, forking over values.
func (w *Worker) concretize(t *Term, what string, limit int) uint64 {
	t = w.subst(t)
	if t.isConst() {
		return t.k
	}
	s := w.cur
	if v, ok := s.conc[t]; ok {
		return v
	}
	n := 0
	for f, v := range s.facts {
		if !v && f.op == OpEq && f.a[0].isConst() && f.a[1] == t {
			n++
		}
	}
	if n >= limit {
		panic(pathEnd{"budget", "more than " + fmt.Sprint(limit) + " values of " + what + " at " + w.where()})
	}
	r := w.S.Check(s.pc)
	if r == Unsat {
		panic(pathEnd{"infeasible", ""})
	}
	if r == Unknown {
		panic(pathEnd{"unknown", "value of " + what + " undecided at " + w.where()})
	}
	if t.op != OpVar {
		// make sure the solver knows the term
		w.S.emit(t)
		w.S.Check(s.pc)
	}
	m, err := w.S.Values([]*Term{t})
	if err != nil {
		panic(pathEnd{"unknown", "no model: " + err.Error()})
	}
	v := m[t]
	e := w.T.Eq(t, w.T.Const(t.w, v))
	if w.decide(e) {
		s.conc[t] = v
		return v
	}
	panic(pathEnd{"unknown", "concretize " + what})
}

func (w *Worker) top() *Frame { return w.cur.frames[len(w.cur.frames)-1] }

func (w *Worker) where() string {
	if w.cur == nil {
		return "?"
	}
	for i := len(w.cur.frames) - 1; i >= 0; i-- {
		f := w.cur.frames[i]
		var pos token.Pos
		if f.block != nil && f.pc < len(f.block.Instrs) {
			pos = f.block.Instrs[f.pc].Pos()
			for j := f.pc; pos == token.NoPos && j >= 0; j-- {
				pos = f.block.Instrs[j].Pos()
			}
		}
		p := w.P.prog.Fset.Position(pos)
		if pos != token.NoPos {
			return fmt.Sprintf("%s (%s:%d)", f.fi.fn.String(), shortFile(p.Filename), p.Line)
		}
	}
	return w.top().fi.fn.String()
}

func (w *Worker) backtrace() []string {
	var out []string
	for i := len(w.cur.frames) - 1; i >= 0; i-- {
		f := w.cur.frames[i]
		var pos token.Pos
		if f.block != nil && f.pc < len(f.block.Instrs) {
			pos = f.block.Instrs[f.pc].Pos()
		}
		p := w.P.prog.Fset.Position(pos)
		out = append(out, fmt.Sprintf("%s %s:%d", f.fi.fn.String(), shortFile(p.Filename), p.Line))
	}
	return out
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			return f[j+1:]
		}
	}
	return f
}

// ---------- function compilation ----------

func (w *Worker) fn(f *ssa.Function) *FuncInfo {
	if fi := w.funcs[f]; fi != nil {
		return fi
	}
	fi := &FuncInfo{fn: f}
	w.funcs[f] = fi
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if w.ar != nil {
		if in := w.arithIntrinsic(name); in != nil {
			fi.intr = in
			return fi
		}
	}
	if w.job.h.Log {
		if strings.HasPrefix(strings.TrimLeft(name, "(*"), repoMod+"/logger.") && f.Blocks != nil {
			w.compile(fi, f)
			return fi
		}
		if r, ok := logRedirects[name]; ok {
			if fi.redir = w.P.lookupFunc(r); fi.redir == nil {
				panic("redirect target missing: " + r)
			}
			return fi
		}
	}
	if in, ok := intrinsics[name]; ok && !(w.ar != nil && strings.Contains(name, "/ecc/edwards25519.")) {
		fi.intr = in
		return fi
	}
	if r, ok := redirects[name]; ok {
		fi.redir = w.P.lookupFunc(r)
		if fi.redir == nil {
			panic("redirect target missing: " + r)
		}
		return fi
	}
	if in := prefixIntrinsic(name); in != nil {
		fi.intr = in
		return fi
	}
	if f.Blocks == nil {
		return fi
	}
	w.compile(fi, f)
	return fi
}

func (w *Worker) compile(fi *FuncInfo, f *ssa.Function) {
	idx := map[ssa.Value]int{}
	n := 0
	reg := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, p := range f.Params {
		reg(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				reg(v)
			}
		}
	}
	free := map[ssa.Value]int{}
	for i, v := range f.FreeVars {
		free[v] = i
	}
	fi.nregs = n
	fi.blocks = make([][]CInstr, len(f.Blocks))
	for bi, b := range f.Blocks {
		cs := make([]CInstr, len(b.Instrs))
		for i, in := range b.Instrs {
			c := CInstr{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = idx[v]
			}
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil {
					c.ops = append(c.ops, operand{kind: okNone})
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Const:
					c.ops = append(c.ops, operand{kind: okConst, val: w.constVal(v)})
				case *ssa.Function:
					c.ops = append(c.ops, operand{kind: okConst, val: &Closure{fn: v}})
				case *ssa.Builtin:
					c.ops = append(c.ops, operand{kind: okConst, val: &Closure{bi: v}})
				case *ssa.Global:
					c.ops = append(c.ops, operand{kind: okGlobal, g: v})
				case *ssa.FreeVar:
					c.ops = append(c.ops, operand{kind: okFree, idx: free[v]})
				default:
					c.ops = append(c.ops, operand{kind: okReg, idx: idx[v]})
				}
			}
			cs[i] = c
		}
		fi.blocks[bi] = cs
	}
}

// framePos is the position of the instruction a frame executes.
func (w *Worker) framePos(f *Frame) token.Position {
	var pos token.Pos
	if f.block != nil && f.pc < len(f.block.Instrs) {
		pos = f.block.Instrs[f.pc].Pos()
		for j := f.pc; pos == token.NoPos && j >= 0; j-- {
			pos = f.block.Instrs[j].Pos()
		}
	}
	return w.P.prog.Fset.Position(pos)
}

func (w *Worker) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		if _, isIf := t.(*types.Interface); isIf {
			return Iface{}
		}
		panic(fmt.Sprintf("const %v", c))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return w.T.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0 || b.Kind() == types.UnsafePointer:
		if v, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return w.T.Const(intWidth(b), v)
		}
		v, _ := constant.Int64Val(constant.ToInt(c.Value))
		return w.T.Const(intWidth(b), uint64(v))
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	case b.Info()&types.IsFloat != 0:
		v, _ := constant.Float64Val(c.Value)
		return v
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	}
	panic(fmt.Sprintf("const %v : %v", c, c.Type()))
}

func (w *Worker) get(f *Frame, o *operand) Value {
	switch o.kind {
	case okReg:
		return f.regs[o.idx]
	case okConst:
		return o.val
	case okFree:
		return f.bind[o.idx]
	case okGlobal:
		return w.global(o.g)
	}
	return nil
}

func (w *Worker) global(g *ssa.Global) Value {
	s := w.cur
	if !s.inited[g.Pkg] && !isInitFlag(g) {
		if !w.inInit(g.Pkg) {
			panic(initReq{g.Pkg})
		}
	}
	id, ok := s.globals[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		id = s.alloc(w.appendZero(nil, et), et)
		s.globals[g] = id
	}
	return Ptr{obj: id}
}

func isInitFlag(g *ssa.Global) bool { return g.Name() == "init$guard" }

func (w *Worker) inInit(p *ssa.Package) bool {
	for _, f := range w.cur.frames {
		if f.isInit && f.fi.fn.Pkg == p {
			return true
		}
	}
	return false
}

// ---------- main loop ----------

func (w *Worker) run(s *State) bool {
	w.cur = s
	s.steps0 = s.steps
	for len(s.frames) > 0 {
		if !w.stepN(s) {
			return false
		}
	}
	return true
}

// stepN executes instructions until a fork, path end or the stack is empty.
func (w *Worker) stepN(s *State) (cont bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case splitReq:
				w.res.Forks++
				for i := len(x.alts) - 1; i >= 1; i-- {
					n := w.fork(s)
					n.addPC(w, x.alts[i])
					w.stack = append(w.stack, n)
				}
				s.addPC(w, x.alts[0])
				cont = true
				if s.dead {
					w.res.Assumed++
					s.frames = nil
					s.noPanic = true
					cont = false
				}
			case initReq:
				w.pushInit(x.pkg)
				cont = true
			case blockReq:
				w.block(x)
				cont = true
			case goPanic:
				w.startPanic(x.v, x.msg)
				cont = true
			case pathEnd:
				w.endPath(x)
				s.frames = nil
				cont = false
			default:
				if w.job.debug {
					panic(r)
				}
				w.endPath(pathEnd{"unsupported", fmt.Sprintf("internal: %v at %s %s", r, w.where(), stackOf())})
				s.frames = nil
				cont = false
			}
		}
	}()
	for len(s.frames) > 0 {
		f := s.frames[len(s.frames)-1]
		if f.panicking && !w.unwind(f) {
			continue
		}
		cs := f.fi.blocks[f.block.Index]
		s.steps++
		f.fi.steps++
		if s.steps&0x3fff == 0 {
			atomic.StoreInt64(&w.size, int64(w.T.n))
			if atomic.LoadInt32(&w.full) != 0 {
				w.deadline = time.Time{}.Add(1)
				panic(pathEnd{"budget", "memory budget at " + w.where()})
			}
			if time.Now().After(w.deadline) {
				panic(pathEnd{"budget", "time budget at " + w.where()})
			}
			if s.steps > w.job.maxSteps {
				panic(pathEnd{"budget", fmt.Sprintf("step budget (%d) at %s", w.job.maxSteps, w.where())})
			}
		}
		w.exec(s, f, &cs[f.pc])
	}
	return true
}

func (w *Worker) pushInit(p *ssa.Package) {
	s := w.cur
	in := p.Func("init")
	if in == nil || in.Blocks == nil {
		s.inited[p] = true
		return
	}
	w.pushFrame(in, nil, nil)
	w.top().isInit = true
}

func (w *Worker) pushFrame(fn *ssa.Function, args []Value, bind []Value) {
	s := w.cur
	fi := w.fn(fn)
	if fi.blocks == nil {
		panic(pathEnd{"unsupported", "no body: " + fn.String() + " called from " + w.where()})
	}
	if len(s.frames) > 1500 {
		panic(pathEnd{"budget", "call depth at " + w.where()})
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), bind: bind, block: fn.Blocks[0]}
	copy(fr.regs, args)
	s.frames = append(s.frames, fr)
	if strings.HasPrefix(pkgPath(fn), repoMod) {
		w.res.cover(fn)
	}
}

func (w *Worker) ret(s *State, f *Frame, v Value) {
	s.frames = s.frames[:len(s.frames)-1]
	if f.isInit {
		s.inited[f.fi.fn.Pkg] = true
		return // caller re-executes
	}
	if len(s.frames) == 0 {
		if f.isGo && !s.schedule() {
			w.deadlock()
		}
		return
	}
	c := s.frames[len(s.frames)-1]
	if f.isDefer {
		return // caller (RunDefers or unwinding) continues by itself
	}
	ci := &c.fi.blocks[c.block.Index][c.pc]
	if ci.dst >= 0 && !f.discard {
		c.regs[ci.dst] = v
	}
	c.pc++
}

func (w *Worker) startPanic(v Value, msg string) {
	f := w.top()
	f.panicking = true
	f.recovered = false
	f.panicVal = v
	f.panicPos = msg + " at " + w.where()
}

// unwind advances a panicking frame; returns true if the frame resumed.
func (w *Worker) unwind(f *Frame) bool {
	s := w.cur
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		w.callDeferred(f, d)
		return false
	}
	if f.recovered {
		f.panicking = false
		f.recovered = false
		if f.fi.fn.Recover != nil {
			f.prev = f.block
			f.block = f.fi.fn.Recover
			f.pc = 0
			return true
		}
		res := f.fi.fn.Signature.Results()
		var v Value
		if res.Len() == 1 {
			v = w.zero(res.At(0).Type())
		} else if res.Len() > 1 {
			t := Tuple{}
			for i := 0; i < res.Len(); i++ {
				t = append(t, w.zero(res.At(i).Type()))
			}
			v = t
		}
		w.ret(s, f, v)
		return false
	}
	// propagate
	s.frames = s.frames[:len(s.frames)-1]
	if len(s.frames) == 0 {
		w.uncaught(f)
		return false
	}
	c := s.frames[len(s.frames)-1]
	c.panicking = true
	c.recovered = false
	c.panicVal = f.panicVal
	c.panicPos = f.panicPos
	return false
}

func (w *Worker) callDeferred(f *Frame, d deferRec) {
	if d.bi != nil {
		w.builtin(d.bi, d.args, nil)
		return
	}
	if d.fn == nil {
		panic(goPanic{w.rtErr("nil func"), "nil func"})
	}
	fi := w.fn(d.fn.fn)
	if fi.intr != nil {
		fi.intr(w, d.args, d.fn.fn)
		return
	}
	fn := d.fn.fn
	if fi.redir != nil {
		fn = fi.redir
	}
	w.pushFrame(fn, d.args, d.fn.bind)
	w.top().isDefer = true
}

func (w *Worker) rtErr(msg string) Value {
	return Iface{t: types.Typ[types.String], v: "runtime error: " + msg}
}

func (w *Worker) throw(msg string) {
	panic(goPanic{w.rtErr(msg), msg})
}

// enter calls a closure value; the result is written on return.
func (w *Worker) enter(f *Frame, c *CInstr, cl *Closure, args []Value) {
	if cl == nil {
		w.throw("invalid memory address or nil pointer dereference (nil func)")
	}
	if cl.bi != nil {
		v := w.builtin(cl.bi, args, c)
		if c.dst >= 0 {
			f.regs[c.dst] = v
		}
		f.pc++
		return
	}
	fi := w.fn(cl.fn)
	if fi.intr != nil {
		v := fi.intr(w, args, cl.fn)
		if _, ok := v.(enterReq); ok {
			r := v.(enterReq)
			w.enter(f, c, r.cl, r.args)
			return
		}
		if c.dst >= 0 {
			f.regs[c.dst] = v
		}
		f.pc++
		return
	}
	fn := cl.fn
	if fi.redir != nil {
		fn = fi.redir
	}
	// package initialisers of other packages run lazily
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		f.pc++
		return
	}
	w.pushFrame(fn, args, cl.bind)
}

// enterReq lets an intrinsic delegate to an interpreted function.
type enterReq struct {
	cl   *Closure
	args []Value
}

func (w *Worker) call(s *State, f *Frame, c *CInstr, cc *ssa.CallCommon) {
	cl, args := w.resolve(f, c, cc)
	w.enter(f, c, cl, args)
}

func (w *Worker) resolve(f *Frame, c *CInstr, cc *ssa.CallCommon) (*Closure, []Value) {
	if cc.IsInvoke() {
		x := w.get(f, &c.ops[0])
		r, ok := x.(Iface)
		if !ok {
			panic(fmt.Sprintf("invoke on %T", x))
		}
		if r.t == nil {
			w.throw("invalid memory address or nil pointer dereference (nil interface)")
		}
		m := w.method(r.t, cc.Method)
		args := make([]Value, 0, len(c.ops))
		args = append(args, r.v)
		for i := 1; i < len(c.ops); i++ {
			args = append(args, w.get(f, &c.ops[i]))
		}
		return &Closure{fn: m}, args
	}
	args := make([]Value, 0, len(c.ops))
	for i := 1; i < len(c.ops); i++ {
		args = append(args, w.get(f, &c.ops[i]))
	}
	v := w.get(f, &c.ops[0])
	cl, ok := v.(*Closure)
	if !ok {
		panic(fmt.Sprintf("call of %T", v))
	}
	return cl, args
}

func (w *Worker) typeID(t types.Type) int {
	if id, ok := w.tidc[t]; ok {
		return id
	}
	var id int
	typesMu.Lock()
	if v := w.tids.At(t); v != nil {
		id = v.(int)
	} else {
		w.ntid++
		id = w.ntid
		w.tids.Set(t, id)
	}
	typesMu.Unlock()
	w.tidc[t] = id
	return id
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{w.typeID(t), m}
	if f := w.meths[k]; f != nil {
		return f
	}
	typesMu.Lock()
	f := w.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	typesMu.Unlock()
	if f == nil {
		panic(fmt.Sprintf("no method %v on %v", m, t))
	}
	w.meths[k] = f
	return f
}

func (w *Worker) implements(t types.Type, it *types.Interface, itt types.Type) bool {
	k := [2]int{w.typeID(t), w.typeID(itt)}
	if v, ok := w.impl[k]; ok {
		return v
	}
	typesMu.Lock()
	v := types.Implements(t, it)
	typesMu.Unlock()
	w.impl[k] = v
	return v
}

// ptr resolves a pointer operand, raising a nil dereference panic.
func (w *Worker) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		if p.obj == 0 {
			w.throw("invalid memory address or nil pointer dereference")
		}
		return p
	case *SymElem:
		i := w.concretize(p.idx, "index", 300)
		return Ptr{obj: p.obj, off: p.off + int32(i)*p.esz}
	}
	panic(fmt.Sprintf("ptr: %T", v))
}

// SymElem is the address of an element at a symbolic index.
type SymElem struct {
	obj ObjID
	off int32
	n   int
	esz int32
	idx *Term
}

func (w *Worker) exec(s *State, f *Frame, c *CInstr) {
	T := w.T
	switch in := c.ins.(type) {
	case *ssa.BinOp:
		f.regs[c.dst] = w.binop(in.Op, in.X.Type(), w.get(f, &c.ops[0]), w.get(f, &c.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		x := w.get(f, &c.ops[0])
		switch in.Op {
		case token.MUL:
			if se, ok := x.(*SymElem); ok && se.esz == 1 {
				if v := w.symRead(se); v != nil {
					f.regs[c.dst] = v
					break
				}
			}
			p := w.ptr(x)
			f.regs[c.dst] = s.load(p, in.Type())
		case token.SUB:
			switch t := x.(type) {
			case *Term:
				if t.op == OpPoly {
					f.regs[c.dst] = w.arithNeg(t, in.Type())
					break
				}
				f.regs[c.dst] = T.Neg(t)
			case float64:
				f.regs[c.dst] = -t
			}
		case token.XOR:
			if t := x.(*Term); t.op == OpPoly {
				f.regs[c.dst] = w.arithNot(t, in.Type())
				break
			}
			f.regs[c.dst] = T.BNot(x.(*Term))
		case token.NOT:
			f.regs[c.dst] = T.Not(x.(*Term))
		case token.ARROW:
			v, ok := w.recv(x.(ChanRef), in)
			if in.CommaOk {
				f.regs[c.dst] = Tuple{v, T.Bool(ok)}
			} else {
				f.regs[c.dst] = v
			}
		default:
			panic("unop " + in.Op.String())
		}
	case *ssa.Call:
		w.call(s, f, c, &in.Call)
		return
	case *ssa.If:
		cond := w.get(f, &c.ops[0]).(*Term)
		b := w.decide(cond)
		i := 1
		if b {
			i = 0
		}
		w.jump(f, f.block.Succs[i])
		return
	case *ssa.Jump:
		w.jump(f, f.block.Succs[0])
		return
	case *ssa.Phi:
		panic("phi executed")
	case *ssa.Return:
		var v Value
		switch len(c.ops) {
		case 0:
		case 1:
			v = w.get(f, &c.ops[0])
		default:
			t := make(Tuple, len(c.ops))
			for i := range c.ops {
				t[i] = w.get(f, &c.ops[i])
			}
			v = t
		}
		w.ret(s, f, v)
		return
	case *ssa.Alloc:
		et := in.Type().(*types.Pointer).Elem()
		f.regs[c.dst] = Ptr{obj: s.alloc(w.appendZero(make([]Value, 0, slotsOf(et)), et), et)}
	case *ssa.Store:
		x := w.get(f, &c.ops[0])
		v := w.get(f, &c.ops[1])
		if se, ok := x.(*SymElem); ok && se.esz == 1 {
			if tv, ok := v.(*Term); ok && w.symWrite(se, tv) {
				break
			}
		}
		s.store(w.ptr(x), in.Val.Type(), v)
	case *ssa.FieldAddr:
		p := w.ptr(w.get(f, &c.ops[0]))
		st := in.X.Type().Underlying().(*types.Pointer).Elem()
		f.regs[c.dst] = Ptr{obj: p.obj, off: p.off + int32(layout(st).offs[in.Field])}
	case *ssa.Field:
		a := w.get(f, &c.ops[0]).(Agg)
		l := layout(in.X.Type())
		f.regs[c.dst] = sub(a, l.offs[in.Field], in.Type())
	case *ssa.IndexAddr:
		x := w.get(f, &c.ops[0])
		idx := w.get(f, &c.ops[1]).(*Term)
		f.regs[c.dst] = w.indexAddr(x, in.X.Type(), idx, in.Index.Type())
	case *ssa.Index:
		x := w.get(f, &c.ops[0])
		idx := w.get(f, &c.ops[1]).(*Term)
		f.regs[c.dst] = w.index(x, in.X.Type(), idx, in.Index.Type(), in.Type())
	case *ssa.Extract:
		f.regs[c.dst] = w.get(f, &c.ops[0]).(Tuple)[in.Index]
	case *ssa.MakeInterface:
		f.regs[c.dst] = Iface{t: in.X.Type(), v: w.get(f, &c.ops[0])}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		f.regs[c.dst] = w.get(f, &c.ops[0])
	case *ssa.Convert:
		f.regs[c.dst] = w.convert(w.get(f, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.regs[c.dst] = w.convert(w.get(f, &c.ops[0]), in.X.Type(), in.Type())
	case *ssa.SliceToArrayPointer:
		sl := w.get(f, &c.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(sl.len) < n {
			w.throw("cannot convert slice to array pointer: length too short")
		}
		f.regs[c.dst] = Ptr{obj: sl.obj, off: sl.off}
	case *ssa.Slice:
		f.regs[c.dst] = w.slice(f, c, in)
	case *ssa.MakeSlice:
		n := w.intArg(w.get(f, &c.ops[0]), in.Len.Type(), "make length")
		m := w.intArg(w.get(f, &c.ops[1]), in.Cap.Type(), "make cap")
		if n < 0 || n > 1<<40 {
			w.throw("makeslice: len out of range")
		}
		if m < n {
			w.throw("makeslice: cap out of range")
		}
		if m > 1<<22 {
			panic(pathEnd{"budget", fmt.Sprintf("allocation of %d elements at %s", m, w.where())})
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		es := slotsOf(et)
		z := w.appendZero(nil, et)
		sl := make([]Value, 0, es*int(m))
		for i := 0; i < int(m); i++ {
			sl = append(sl, z...)
		}
		f.regs[c.dst] = Slice{obj: s.alloc(sl, et), len: int32(n), cap: int32(m), esz: int32(es)}
	case *ssa.MakeMap:
		f.regs[c.dst] = MapRef{s.alloc(nil, in.Type())}
	case *ssa.MakeChan:
		n := w.intArg(w.get(f, &c.ops[0]), types.Typ[types.Int], "channel capacity")
		f.regs[c.dst] = ChanRef{s.alloc([]Value{T.False, T.Const(64, uint64(n))}, in.Type())}
	case *ssa.MakeClosure:
		b := make([]Value, len(c.ops)-1)
		for i := range b {
			b[i] = w.get(f, &c.ops[i+1])
		}
		f.regs[c.dst] = &Closure{fn: in.Fn.(*ssa.Function), bind: b}
	case *ssa.Lookup:
		f.regs[c.dst] = w.lookup(w.get(f, &c.ops[0]), w.get(f, &c.ops[1]), in)
	case *ssa.MapUpdate:
		w.mapUpdate(w.get(f, &c.ops[0]).(MapRef), w.get(f, &c.ops[1]), w.get(f, &c.ops[2]), in.Map.Type())
	case *ssa.Range:
		f.regs[c.dst] = w.rangeIter(w.get(f, &c.ops[0]), in.X.Type())
	case *ssa.Next:
		it := w.get(f, &c.ops[0]).(Ptr)
		f.regs[c.dst] = w.next(it, in)
	case *ssa.TypeAssert:
		f.regs[c.dst] = w.typeAssert(w.get(f, &c.ops[0]).(Iface), in)
	case *ssa.Defer:
		d := deferRec{}
		cl, args := w.resolveDefer(f, c, &in.Call)
		d.fn, d.args = cl, args
		if cl != nil && cl.bi != nil {
			d.bi = cl.bi
		}
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			w.callDeferred(f, d)
			return // pc not advanced
		}
	case *ssa.Panic:
		v := w.get(f, &c.ops[0]).(Iface)
		panic(goPanic{v, "panic: " + w.show(v)})
	case *ssa.Go:
		cl, args := w.resolve(f, c, &in.Call)
		n := len(s.frames)
		w.enter(f, c, cl, args)
		if len(s.frames) > n {
			g := s.frames[n]
			s.frames = s.frames[:n:n]
			g.isGo = true
			s.ready(thread{frames: []*Frame{g}})
			f.pc++
		}
		return
	case *ssa.Send:
		ch := w.get(f, &c.ops[0]).(ChanRef)
		if ch.obj == 0 {
			panic(blockReq{})
		}
		o := s.wobj(ch.obj)
		if o.slots[0] == Value(T.True) {
			panic(goPanic{w.rtErr("send on closed channel"), "send on closed channel"})
		}
		if !s.canSend(ch.obj) {
			panic(blockReq{on: []ObjID{ch.obj}})
		}
		o.slots = append(o.slots, w.get(f, &c.ops[1]))
		s.wake(ch.obj, false)
	case *ssa.Select:
		w.sel(f, c, in)
	case *ssa.DebugRef:
	default:
		panic(pathEnd{"unsupported", fmt.Sprintf("%T at %s", c.ins, w.where())})
	}
	f.pc++
}

func (w *Worker) resolveDefer(f *Frame, c *CInstr, cc *ssa.CallCommon) (*Closure, []Value) {
	return w.resolve(f, c, cc)
}

func (w *Worker) jump(f *Frame, b *ssa.BasicBlock) {
	prev := f.block
	cs := f.fi.blocks[b.Index]
	n := 0
	for n < len(cs) {
		if _, ok := cs[n].ins.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n > 0 {
		e := -1
		for i, p := range b.Preds {
			if p == prev {
				e = i
				break
			}
		}
		if n == 1 {
			f.regs[cs[0].dst] = w.get(f, &cs[0].ops[e])
		} else {
			vs := make([]Value, n)
			for i := 0; i < n; i++ {
				vs[i] = w.get(f, &cs[i].ops[e])
			}
			for i := 0; i < n; i++ {
				f.regs[cs[i].dst] = vs[i]
			}
		}
	}
	f.prev = prev
	f.block = b
	f.pc = n
}

func sub(a Agg, off int, t types.Type) Value {
	if isAgg(t) {
		n := slotsOf(t)
		return Agg(a[off : off+n : off+n])
	}
	return a[off]
}

func (w *Worker) symRead(se *SymElem) Value {
	sl := w.cur.loadN(Ptr{se.obj, se.off}, se.n)
	var r *Term
	for i := len(sl) - 1; i >= 0; i-- {
		t, ok := sl[i].(*Term)
		if !ok {
			return nil
		}
		if r == nil {
			r = t
		} else {
			r = w.T.Ite(w.T.Eq(se.idx, w.T.Const(se.idx.w, uint64(i))), t, r)
		}
	}
	return r
}

func (w *Worker) symWrite(se *SymElem, v *Term) bool {
	o := w.cur.wobj(se.obj)
	for i := 0; i < se.n; i++ {
		if _, ok := o.slots[int(se.off)+i].(*Term); !ok {
			return false
		}
	}
	for i := 0; i < se.n; i++ {
		j := int(se.off) + i
		o.slots[j] = w.T.Ite(w.T.Eq(se.idx, w.T.Const(se.idx.w, uint64(i))), v, o.slots[j].(*Term))
	}
	return true
}

// checkIdx raises index-out-of-range if idx is not in [0,n); returns the index
// as a constant or -1 if it stays symbolic.
func (w *Worker) checkIdx(idx *Term, it types.Type, n int) (int, *Term) {
	if idx.isConst() {
		var v int64
		if isSigned(it) {
			v = idx.sval()
		} else {
			v = int64(idx.k)
			if idx.k>>63 != 0 {
				v = -1
			}
		}
		if v < 0 || v >= int64(n) {
			w.throw(fmt.Sprintf("index out of range [%d] with length %d", v, n))
		}
		return int(v), nil
	}
	x := idx
	if isSigned(it) {
		x = w.T.SExt(x, 64)
	} else {
		x = w.T.ZExt(x, 64)
	}
	if n <= 0 || !w.decide(w.T.Ult(x, w.T.Const(64, uint64(n)))) {
		w.throw(fmt.Sprintf("index out of range with length %d", n))
	}
	if v, ok := w.cur.conc[idx]; ok {
		return int(v), nil
	}
	if n == 1 {
		return 0, nil
	}
	return -1, x
}

func (w *Worker) indexAddr(x Value, xt types.Type, idx *Term, it types.Type) Value {
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		sl := x.(Slice)
		i, st := w.checkIdx(idx, it, int(sl.len))
		if st != nil {
			return &SymElem{obj: sl.obj, off: sl.off, n: int(sl.len), esz: sl.esz, idx: st}
		}
		return Ptr{obj: sl.obj, off: sl.off + int32(i)*sl.esz}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		p := w.ptr(x)
		es := int32(slotsOf(arr.Elem()))
		i, st := w.checkIdx(idx, it, int(arr.Len()))
		if st != nil {
			return &SymElem{obj: p.obj, off: p.off, n: int(arr.Len()), esz: es, idx: st}
		}
		return Ptr{obj: p.obj, off: p.off + int32(i)*es}
	}
	panic(fmt.Sprintf("indexaddr %v", xt))
}

func (w *Worker) index(x Value, xt types.Type, idx *Term, it types.Type, rt types.Type) Value {
	if b, ok := xt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		i, st := w.checkIdx(idx, it, strLen(x))
		if st != nil {
			if s, ok := x.(string); ok {
				// table lookup in a constant string
				r := w.T.bytes[s[len(s)-1]]
				for j := len(s) - 2; j >= 0; j-- {
					r = w.T.Ite(w.T.Eq(st, w.T.Const(64, uint64(j))), w.T.bytes[s[j]], r)
				}
				return r
			}
			i = int(w.concretize(st, "string index", 300))
		}
		switch s := x.(type) {
		case string:
			return w.T.bytes[s[i]]
		case *SymStr:
			return s.b[i]
		}
	}
	arr := xt.Underlying().(*types.Array)
	es := slotsOf(arr.Elem())
	i, st := w.checkIdx(idx, it, int(arr.Len()))
	if st != nil {
		i = int(w.concretize(st, "array index", 300))
	}
	return sub(x.(Agg), i*es, rt)
}

func (w *Worker) intArg(v Value, t types.Type, what string) int64 {
	x := v.(*Term)
	k := w.concretize(x, what, 300)
	c := w.T.Const(x.w, k)
	if isSigned(t) {
		return c.sval()
	}
	if c.k>>63 != 0 {
		return -1
	}
	return int64(c.k)
}

func (w *Worker) slice(f *Frame, c *CInstr, in *ssa.Slice) Value {
	x := w.get(f, &c.ops[0])
	var lo, hi, max int64 = 0, -1, -1
	if in.Low != nil {
		lo = w.intArg(w.get(f, &c.ops[1]), in.Low.Type(), "slice low")
	}
	if in.High != nil {
		hi = w.intArg(w.get(f, &c.ops[2]), in.High.Type(), "slice high")
		if hi < 0 {
			w.throw(fmt.Sprintf("slice bounds out of range [:%d]", hi))
		}
	}
	if in.Max != nil {
		max = w.intArg(w.get(f, &c.ops[3]), in.Max.Type(), "slice max")
		if max < 0 {
			w.throw("slice bounds out of range")
		}
	}
	switch u := in.X.Type().Underlying().(type) {
	case *types.Basic:
		n := int64(strLen(x))
		if hi < 0 {
			hi = n
		}
		if lo < 0 || hi > n || lo > hi {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		switch s := x.(type) {
		case string:
			return s[lo:hi]
		case *SymStr:
			return w.mkStr(s.b[lo:hi])
		}
	case *types.Slice:
		sl := x.(Slice)
		if max < 0 {
			max = int64(sl.cap)
		}
		if hi < 0 {
			hi = int64(sl.len)
		}
		if lo < 0 || lo > hi || hi > max || max > int64(sl.cap) {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, max, sl.cap))
		}
		if sl.obj == 0 {
			return sl
		}
		return Slice{obj: sl.obj, off: sl.off + int32(lo)*sl.esz, len: int32(hi - lo), cap: int32(max - lo), esz: sl.esz}
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		p := w.ptr(x)
		n := arr.Len()
		if max < 0 {
			max = n
		}
		if hi < 0 {
			hi = n
		}
		if lo < 0 || lo > hi || hi > max || max > n {
			w.throw(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with array length %d", lo, hi, max, n))
		}
		es := int32(slotsOf(arr.Elem()))
		return Slice{obj: p.obj, off: p.off + int32(lo)*es, len: int32(hi - lo), cap: int32(max - lo), esz: es}
	}
	panic(fmt.Sprintf("slice of %v", in.X.Type()))
}

// ---------- operators ----------

func (w *Worker) binop(op token.Token, xt types.Type, x, y Value, yt types.Type) Value {
	T := w.T
	if w.ar != nil {
		if a, ok := x.(*Term); ok {
			if b, ok := y.(*Term); ok && (a.op == OpPoly || b.op == OpPoly) {
				return w.arithBin(op, xt, a, b, yt)
			}
		}
	}
	switch op {
	case token.EQL:
		return w.eq(x, y, xt, yt)
	case token.NEQ:
		return T.Not(w.eq(x, y, xt, yt))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		sg := isSigned(xt)
		switch op {
		case token.ADD:
			return T.Add(a, b)
		case token.SUB:
			return T.Sub(a, b)
		case token.MUL:
			return T.Mul(a, b)
		case token.QUO, token.REM:
			if b.isConst() && b.k == 0 || !b.isConst() && w.decide(T.Eq(b, T.Const(b.w, 0))) {
				w.throw("integer divide by zero")
			}
			if b.isConst() && b.k > 2 && b.k <= 1<<32 && b.k&(b.k-1) != 0 && !a.isConst() && T.umax(a) < 1<<48 && (!sg || T.umax(a) <= mask(a.w)>>1 && b.sval() > 0) {
				q, r := w.divConst(a, b.k)
				if op == token.QUO {
					return q
				}
				return r
			}
			switch {
			case op == token.QUO && sg:
				return T.SDiv(a, b)
			case op == token.QUO:
				return T.UDiv(a, b)
			case sg:
				return T.SRem(a, b)
			}
			return T.URem(a, b)
		case token.AND:
			if a.w == 0 {
				return T.And(a, b)
			}
			return T.BAnd(a, b)
		case token.OR:
			if a.w == 0 {
				return T.Or(a, b)
			}
			return T.BOr(a, b)
		case token.XOR:
			return T.Xor(a, b)
		case token.AND_NOT:
			return T.BAnd(a, T.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) && !b.isConst() {
				if w.decide(T.Slt(b, T.Const(b.w, 0))) {
					w.throw("negative shift amount")
				}
			}
			if b.isConst() && isSigned(yt) && b.sval() < 0 {
				w.throw("negative shift amount")
			}
			// widen or narrow the shift count to the width of a
			var n *Term
			if b.w <= a.w {
				n = T.ZExt(b, a.w)
			} else {
				if b.isConst() {
					k := b.k
					if k > uint64(a.w) {
						k = uint64(a.w)
					}
					n = T.Const(a.w, k)
				} else {
					big := T.Ule(T.Const(b.w, uint64(a.w)), b)
					n = T.Ite(big, T.Const(a.w, uint64(a.w)), T.Extract(b, int(a.w)-1, 0))
				}
			}
			switch {
			case op == token.SHL:
				return T.Shl(a, n)
			case sg:
				return T.AShr(a, n)
			}
			return T.LShr(a, n)
		case token.LSS:
			if sg {
				return T.Slt(a, b)
			}
			return T.Ult(a, b)
		case token.LEQ:
			if sg {
				return T.Sle(a, b)
			}
			return T.Ule(a, b)
		case token.GTR:
			if sg {
				return T.Slt(b, a)
			}
			return T.Ult(b, a)
		case token.GEQ:
			if sg {
				return T.Sle(b, a)
			}
			return T.Ule(b, a)
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return T.Bool(a < b)
		case token.LEQ:
			return T.Bool(a <= b)
		case token.GTR:
			return T.Bool(a > b)
		case token.GEQ:
			return T.Bool(a >= b)
		}
	case string, *SymStr:
		if op == token.ADD {
			if p, ok := x.(string); ok {
				if q, ok := y.(string); ok {
					return p + q
				}
			}
			return w.mkStr(append(append([]*Term{}, w.strBytes(x)...), w.strBytes(y)...))
		}
		lt, eq := w.strCmp(w.strBytes(x), w.strBytes(y))
		switch op {
		case token.LSS:
			return lt
		case token.LEQ:
			return T.Or(lt, eq)
		case token.GTR:
			return T.Not(T.Or(lt, eq))
		case token.GEQ:
			return T.Not(lt)
		}
	}
	panic(fmt.Sprintf("binop %v on %T %v", op, x, xt))
}

// divConst introduces quotient and remainder of x, below 2^48, by c, below
// 2^32, as new variables defined by x = q*c + r.
func (w *Worker) divConst(x *Term, c uint64) (*Term, *Term) {
	T := w.T
	mx := T.umax(x)
	if mx < c {
		return T.Const(x.w, 0), x
	}
	nb := bits.Len64(mx)
	q := T.Var(fmt.Sprintf("div!%d!%d", x.id, c), uint8(bits.Len64(mx/c)), false)
	r := T.Var(fmt.Sprintf("rem!%d!%d", x.id, c), uint8(bits.Len64(c-1)), false)
	wd := uint8(nb + 1)
	fit := func(t *Term) *Term {
		if t.w > wd {
			return T.Extract(t, int(wd)-1, 0)
		}
		return T.ZExt(t, wd)
	}
	T.bound[q], T.bound[r] = mx/c, c-1
	w.define(T.And(
		T.Eq(fit(x), T.Add(T.Mul(fit(q), T.Const(wd, c)), fit(r))),
		T.Ule(q, T.Const(q.w, mx/c)), T.Ule(r, T.Const(r.w, c-1))))
	return T.ZExt(q, x.w), T.ZExt(r, x.w)
}

// define adds a definition of fresh variables, or a fact of the
// idealisation, to the path.
func (w *Worker) define(c *Term) {
	if _, ok := w.cur.known(w.T, c); !ok {
		w.cur.addPC(w, c)
	}
}

// strCmp returns (a<b, a==b) lexicographically.
func (w *Worker) strCmp(a, b []*Term) (*Term, *Term) {
	T := w.T
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	lt := T.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		lt = T.Ite(T.Ult(a[i], b[i]), T.True, T.Ite(T.Eq(a[i], b[i]), lt, T.False))
	}
	if len(a) != len(b) {
		return lt, T.False
	}
	e := w.eqVec(a, b)
	if e == T.False && vecLess(b, a) {
		// equal bytes are excluded: exactly one of a<b and b<a holds
		l, _ := w.strCmp(b, a)
		return T.Not(l), e
	}
	return lt, e
}

func (w *Worker) eq(x, y Value, xt, yt types.Type) *Term {
	T := w.T
	switch a := x.(type) {
	case *Term:
		if b, ok := y.(*Term); ok {
			return T.Eq(a, b)
		}
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			if _, isSym := y.(*SymElem); isSym {
				return T.Bool(a == w.ptr(y))
			}
			break
		}
		return T.Bool(a == b)
	case *SymElem:
		if b, ok := y.(Ptr); ok {
			if b.obj == 0 {
				return T.False
			}
			return T.Bool(b == w.ptr(a))
		}
	case string, *SymStr:
		if p, ok := x.(string); ok {
			if q, ok := y.(string); ok {
				return T.Bool(p == q)
			}
		}
		return w.eqVec(w.strBytes(x), w.strBytes(y))
	case Slice:
		b := y.(Slice)
		return T.Bool(a.obj == 0 && b.obj == 0) // only comparison with nil
	case MapRef:
		return T.Bool(a == y.(MapRef))
	case ChanRef:
		return T.Bool(a == y.(ChanRef))
	case *Closure:
		return T.Bool(a == nil && y.(*Closure) == nil)
	case float64:
		return T.Bool(a == y.(float64))
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			if _, isI := yt.Underlying().(*types.Interface); !isI {
				b = Iface{yt, y}
			} else {
				break
			}
		}
		if a.t == nil || b.t == nil {
			return T.Bool(a.t == nil && b.t == nil)
		}
		if w.typeID(a.t) != w.typeID(b.t) {
			return T.False
		}
		switch a.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			w.throw("comparing uncomparable type " + a.t.String())
		}
		return w.eq(a.v, b.v, a.t, b.t)
	case Agg:
		if bi, ok := y.(Iface); ok {
			if bi.t == nil || w.typeID(bi.t) != w.typeID(xt) {
				return T.False
			}
			y = bi.v
		}
		b := y.(Agg)
		return w.eqAgg(a, b, xt)
	}
	if b, ok := y.(Iface); ok {
		if b.t == nil || w.typeID(b.t) != w.typeID(xt) {
			return T.False
		}
		return w.eq(x, b.v, xt, xt)
	}
	panic(fmt.Sprintf("eq %T %T (%v)", x, y, xt))
}

func (w *Worker) eqAgg(a, b Agg, t types.Type) *Term {
	T := w.T
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l := layout(t)
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if slotsOf(ft) == 0 || u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, w.eq(sub(a, l.offs[i], ft), sub(b, l.offs[i], ft), ft, ft))
		}
		return T.And(cs...)
	case *types.Array:
		es := slotsOf(u.Elem())
		if es == 1 {
			if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && intWidth(bt) == 8 {
				x := make([]*Term, len(a))
				y := make([]*Term, len(b))
				for i := range a {
					x[i] = a[i].(*Term)
					y[i] = b[i].(*Term)
				}
				return w.eqVec(x, y)
			}
		}
		var cs []*Term
		for i := 0; i < int(u.Len()); i++ {
			cs = append(cs, w.eq(sub(a, i*es, u.Elem()), sub(b, i*es, u.Elem()), u.Elem(), u.Elem()))
		}
		return T.And(cs...)
	}
	panic("eqAgg")
}

func (w *Worker) convert(x Value, from, to types.Type) Value {
	T := w.T
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.TypeParam); ok {
		panic("typeparam " + tp.String())
	}
	switch t := tu.(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsInteger != 0:
			switch v := x.(type) {
			case *Term:
				if v.w == 0 {
					panic("bool to int")
				}
				if v.op == OpPoly {
					return w.arithConv(v, from, t)
				}
				if isSigned(from) {
					return T.SExt(v, intWidth(t))
				}
				return T.ZExt(v, intWidth(t))
			case float64:
				if t.Info()&types.IsUnsigned != 0 {
					return T.Const(intWidth(t), uint64(v))
				}
				return T.Const(intWidth(t), uint64(int64(v)))
			case Ptr:
				return T.Const(64, uint64(v.obj)<<32|uint64(uint32(v.off)))
			}
		case t.Info()&types.IsString != 0:
			switch v := x.(type) {
			case string, *SymStr:
				return v
			case *Term:
				if !v.isConst() && !isSigned(from) {
					z := T.ZExt(v, 64)
					if w.decide(T.Ult(z, T.Const(64, 0x80))) {
						return w.mkStr([]*Term{T.Extract(z, 7, 0)})
					}
					if w.decide(T.Ult(z, T.Const(64, 0x800))) {
						hi := T.BOr(T.Const(8, 0xC0), T.Extract(T.LShr(z, T.Const(64, 6)), 7, 0))
						lo := T.BOr(T.Const(8, 0x80), T.BAnd(T.Const(8, 0x3f), T.Extract(z, 7, 0)))
						return w.mkStr([]*Term{hi, lo})
					}
				}
				r := w.concretize(v, "rune", 300)
				return string(rune(T.Const(v.w, r).sval()))
			case Slice:
				et := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if intWidth(et) == 8 {
					return w.mkStr(w.cur.bytesOf(v))
				}
				var rs []rune
				for _, b := range w.cur.bytesOf(v) {
					rs = append(rs, rune(w.concretize(b, "rune", 300)))
				}
				return string(rs)
			}
		case t.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				k := T.Const(v.w, w.concretize(v, "float conversion", 16))
				if isSigned(from) {
					return float64(k.sval())
				}
				return float64(k.k)
			}
		case t.Kind() == types.UnsafePointer:
			return x
		}
	case *types.Slice:
		switch v := x.(type) {
		case string, *SymStr:
			et := t.Elem().Underlying().(*types.Basic)
			if intWidth(et) == 8 {
				return w.cur.newBytes(w.strBytes(v))
			}
			s, ok := v.(string)
			if !ok {
				panic(pathEnd{"unsupported", "[]rune of symbolic string at " + w.where()})
			}
			var vs []Value
			for _, r := range s {
				vs = append(vs, T.Const(32, uint64(r)))
			}
			return w.cur.newSlice(vs, 1)
		case Slice:
			return v
		}
	case *types.Pointer:
		return x
	case *types.Array:
		// slice to array
		sl := x.(Slice)
		if int64(sl.len) < t.Len() {
			w.throw("cannot convert slice to array: length too short")
		}
		return Agg(append([]Value(nil), w.cur.loadN(Ptr{sl.obj, sl.off}, int(t.Len())*int(sl.esz))...))
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("convert %v to %v at %s", from, to, w.where())})
}

func (w *Worker) typeAssert(x Iface, in *ssa.TypeAssert) Value {
	ok := false
	at := in.AssertedType
	var v Value
	if x.t != nil {
		if it, isI := at.Underlying().(*types.Interface); isI {
			ok = w.implements(x.t, it, at)
			v = x
		} else {
			ok = w.typeID(x.t) == w.typeID(at)
			v = x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = w.zero(at)
		}
		return Tuple{v, w.T.Bool(ok)}
	}
	if !ok {
		w.throw(fmt.Sprintf("interface conversion: interface is %v, not %v", x.t, at))
	}
	return v
}

// ---------- maps, ranges, channels ----------

func (w *Worker) mapFind(m MapRef, k Value, kt types.Type) int {
	if m.obj == 0 {
		return -1
	}
	o := w.cur.obj(m.obj)
	for i := range o.m {
		e := w.eq(o.m[i].k, k, kt, kt)
		if w.decide(e) {
			return i
		}
	}
	return -1
}

func (w *Worker) lookup(x, k Value, in *ssa.Lookup) Value {
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return w.index(x, in.X.Type(), k.(*Term), in.Index.Type(), in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	i := w.mapFind(x.(MapRef), k, mt.Key())
	var v Value
	if i < 0 {
		v = w.zero(mt.Elem())
	} else {
		v = w.cur.obj(x.(MapRef).obj).m[i].v
	}
	if in.CommaOk {
		return Tuple{v, w.T.Bool(i >= 0)}
	}
	return v
}

func (w *Worker) mapUpdate(m MapRef, k, v Value, mt types.Type) {
	if m.obj == 0 {
		panic(goPanic{w.rtErr("assignment to entry in nil map"), "assignment to entry in nil map"})
	}
	i := w.mapFind(m, k, mt.Underlying().(*types.Map).Key())
	o := w.cur.wobj(m.obj)
	if i >= 0 {
		o.m[i].v = v
	} else {
		o.m = append(o.m, mapEntry{k, v})
	}
}

// rangeIter allocates an iterator object: slot0 = position, slot1 = subject;
// for maps the entries are snapshotted.
func (w *Worker) rangeIter(x Value, t types.Type) Value {
	s := w.cur
	switch v := x.(type) {
	case MapRef:
		id := s.alloc([]Value{0, x}, nil)
		if v.obj != 0 {
			s.wobj(id).m = append([]mapEntry(nil), s.obj(v.obj).m...)
		}
		return Ptr{obj: id}
	default:
		return Ptr{obj: s.alloc([]Value{0, x}, nil)}
	}
}

func (w *Worker) next(it Ptr, in *ssa.Next) Value {
	s := w.cur
	o := s.obj(it.obj)
	pos := o.slots[0].(int)
	tt := in.Type().(*types.Tuple)
	if in.IsString {
		switch str := o.slots[1].(type) {
		case string:
			if pos >= len(str) {
				return Tuple{w.T.False, w.T.Const(64, 0), w.T.Const(32, 0)}
			}
			for i, r := range str[pos:] {
				_ = i
				n := 0
				for j := range str[pos:] {
					if j > 0 {
						n = j
						break
					}
				}
				if n == 0 {
					n = len(str) - pos
				}
				s.wobj(it.obj).slots[0] = pos + n
				return Tuple{w.T.True, w.T.Const(64, uint64(pos)), w.T.Const(32, uint64(r))}
			}
		case *SymStr:
			if pos >= len(str.b) {
				return Tuple{w.T.False, w.T.Const(64, 0), w.T.Const(32, 0)}
			}
			b := str.b[pos]
			if !w.decide(w.T.Ult(b, w.T.Const(8, 0x80))) {
				panic(pathEnd{"unsupported", "range over symbolic non-ASCII string at " + w.where()})
			}
			s.wobj(it.obj).slots[0] = pos + 1
			return Tuple{w.T.True, w.T.Const(64, uint64(pos)), w.T.ZExt(b, 32)}
		}
	}
	m := o.slots[1].(MapRef)
	for pos < len(o.m) {
		e := o.m[pos]
		pos++
		// skip entries deleted meanwhile (identity of key value)
		live := false
		for _, c := range s.obj(m.obj).m {
			if sameVal(c.k, e.k) {
				e.v = c.v
				live = true
				break
			}
		}
		if !live {
			continue
		}
		s.wobj(it.obj).slots[0] = pos
		return Tuple{w.T.True, e.k, e.v}
	}
	z := func(i int) Value {
		if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zero(tt.At(i).Type())
	}
	return Tuple{w.T.False, z(1), z(2)}
}

func (w *Worker) recv(ch ChanRef, in *ssa.UnOp) (Value, bool) {
	if ch.obj == 0 {
		panic(blockReq{})
	}
	et := in.X.Type().Underlying().(*types.Chan).Elem()
	return w.recvT(ch, et)
}

func (w *Worker) recvT(ch ChanRef, et types.Type) (Value, bool) {
	o := w.cur.obj(ch.obj)
	if len(o.slots) > chanHead {
		o = w.cur.wobj(ch.obj)
		v := o.slots[chanHead]
		o.slots = append(o.slots[:chanHead:chanHead], o.slots[chanHead+1:]...)
		w.cur.wake(ch.obj, false)
		return v, true
	}
	if o.slots[0] == Value(w.T.True) {
		return w.zero(et), false
	}
	panic(blockReq{[]ObjID{ch.obj}, true})
}

func (w *Worker) sel(f *Frame, c *CInstr, in *ssa.Select) {
	req := blockReq{}
	for i, st := range in.States {
		ch := w.get(f, &c.ops[2*i]).(ChanRef)
		if ch.obj == 0 {
			continue
		}
		req.on = append(req.on, ch.obj)
		if st.Dir == types.SendOnly {
			o := w.cur.wobj(ch.obj)
			if o.slots[0] == Value(w.T.True) {
				panic(goPanic{w.rtErr("send on closed channel"), "send on closed channel"})
			}
			if w.cur.canSend(ch.obj) {
				o.slots = append(o.slots, w.get(f, &c.ops[2*i+1]))
				w.cur.wake(ch.obj, false)
				f.regs[c.dst] = w.selTuple(in, i, false, nil)
				return
			}
			continue
		}
		req.recv = true
		o := w.cur.obj(ch.obj)
		if len(o.slots) > chanHead || o.slots[0] == Value(w.T.True) {
			v, ok := w.recvT(ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
			f.regs[c.dst] = w.selTuple(in, i, ok, v)
			return
		}
	}
	if !in.Blocking {
		f.regs[c.dst] = w.selTuple(in, -1, false, nil)
		return
	}
	panic(req)
}

func (w *Worker) selTuple(in *ssa.Select, idx int, ok bool, v Value) Tuple {
	t := Tuple{w.T.Const(64, uint64(int64(idx))), w.T.Bool(ok)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == idx {
				t = append(t, v)
			} else {
				t = append(t, w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

// ---------- builtins ----------

func (w *Worker) builtin(b *ssa.Builtin, args []Value, c *CInstr) Value {
	T := w.T
	s := w.cur
	switch b.Name() {
	case "len", "cap":
		var n int
		switch x := args[0].(type) {
		case Slice:
			n = int(x.len)
			if b.Name() == "cap" {
				n = int(x.cap)
			}
		case string, *SymStr:
			n = strLen(x)
		case MapRef:
			if x.obj != 0 {
				n = len(s.obj(x.obj).m)
			}
		case ChanRef:
			if x.obj != 0 {
				n = len(s.obj(x.obj).slots) - chanHead
				if b.Name() == "cap" {
					n = int(s.obj(x.obj).slots[1].(*Term).k)
				}
			}
		case Agg:
			at := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Array)
			n = int(at.Len())
		case Ptr:
			at := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			n = int(at.Len())
		default:
			panic(fmt.Sprintf("len of %T", x))
		}
		return T.Const(64, uint64(n))
	case "append":
		x := args[0].(Slice)
		if len(args) == 1 {
			return x
		}
		var add []Value
		n := 0
		switch y := args[1].(type) {
		case Slice:
			n = int(y.len)
			if y.obj != 0 {
				add = append(add, s.loadN(Ptr{y.obj, y.off}, n*int(y.esz))...)
			}
			if x.esz == 0 {
				x.esz = y.esz
			}
		case string, *SymStr:
			for _, t := range w.strBytes(y) {
				add = append(add, t)
			}
			n = len(add)
		}
		if n == 0 {
			return x
		}
		es := int(x.esz)
		if x.obj != 0 && int(x.len)+n <= int(x.cap) {
			o := s.wobj(x.obj)
			copy(o.slots[int(x.off)+int(x.len)*es:], add)
			x.len += int32(n)
			return x
		}
		nl := int(x.len) + n
		nc := growCap(int(x.cap), nl, es)
		buf := make([]Value, 0, nc*es)
		if x.obj != 0 {
			buf = append(buf, s.loadN(Ptr{x.obj, x.off}, int(x.len)*es)...)
		}
		buf = append(buf, add...)
		et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
		if es > 0 && len(buf) < nc*es {
			z := w.appendZero(nil, et)
			for len(buf) < nc*es {
				buf = append(buf, z...)
			}
		}
		return Slice{obj: s.alloc(buf, et), len: int32(nl), cap: int32(nc), esz: int32(es)}
	case "copy":
		x := args[0].(Slice)
		var src []Value
		n := 0
		switch y := args[1].(type) {
		case Slice:
			n = int(y.len)
			if int(x.len) < n {
				n = int(x.len)
			}
			if n > 0 {
				src = append(src, s.loadN(Ptr{y.obj, y.off}, n*int(y.esz))...)
			}
		case string, *SymStr:
			bs := w.strBytes(y)
			n = len(bs)
			if int(x.len) < n {
				n = int(x.len)
			}
			for _, t := range bs[:n] {
				src = append(src, t)
			}
		}
		if n > 0 {
			copy(s.wobj(x.obj).slots[x.off:], src)
		}
		return T.Const(64, uint64(n))
	case "clear":
		switch x := args[0].(type) {
		case MapRef:
			if x.obj != 0 {
				s.wobj(x.obj).m = nil
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			z := w.appendZero(nil, et)
			if x.len > 0 {
				o := s.wobj(x.obj)
				for i := 0; i < int(x.len); i++ {
					copy(o.slots[int(x.off)+i*len(z):], z)
				}
			}
		}
		return nil
	case "delete":
		m := args[0].(MapRef)
		kt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key()
		i := w.mapFind(m, args[1], kt)
		if i >= 0 {
			o := s.wobj(m.obj)
			o.m = append(o.m[:i:i], o.m[i+1:]...)
		}
		return nil
	case "min", "max":
		r := args[0]
		pt := b.Type().(*types.Signature).Params().At(0).Type()
		for _, a := range args[1:] {
			c := w.binop(token.LSS, pt, a, r, pt).(*Term)
			if b.Name() == "max" {
				c = w.binop(token.LSS, pt, r, a, pt).(*Term)
			}
			if rt, ok := r.(*Term); ok {
				r = T.Ite(c, a.(*Term), rt)
			} else if w.decide(c) {
				r = a
			}
		}
		return r
	case "panic":
		v := args[0].(Iface)
		panic(goPanic{v, "panic: " + w.show(v)})
	case "recover":
		f := w.top()
		n := len(s.frames)
		if f.isDefer && n >= 2 {
			c := s.frames[n-2]
			if c.panicking && !c.recovered {
				c.recovered = true
				return c.panicVal
			}
		}
		return Iface{}
	case "close":
		ch := args[0].(ChanRef)
		s.wobj(ch.obj).slots[0] = T.True
		s.wake(ch.obj, false)
		return nil
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			w.throw("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := w.intArg(args[1], types.Typ[types.Int], "unsafe.String len")
		if n == 0 {
			return ""
		}
		return w.mkStr(s.bytesOf(Slice{obj: w.ptr(args[0]).obj, off: w.ptr(args[0]).off, len: int32(n), esz: 1}))
	case "StringData":
		b := w.strBytes(args[0])
		if len(b) == 0 {
			return Ptr{}
		}
		sl := s.newBytes(b)
		return Ptr{obj: sl.obj}
	case "SliceData":
		sl := args[0].(Slice)
		return Ptr{obj: sl.obj, off: sl.off}
	case "Slice": // unsafe.Slice
		n := w.intArg(args[1], types.Typ[types.Int], "unsafe.Slice len")
		p := args[0].(Ptr)
		et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Pointer).Elem()
		return Slice{obj: p.obj, off: p.off, len: int32(n), cap: int32(n), esz: int32(slotsOf(et))}
	}
	panic(pathEnd{"unsupported", "builtin " + b.Name() + " at " + w.where()})
}

// growCap mirrors the growth policy of the Go runtime for byte-sized elements
// (rounded up), so that spare capacity exists where the real code has it.
func growCap(old, need, es int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	if es == 1 {
		for _, c := range []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024} {
			if nc <= c {
				return c
			}
		}
	}
	return nc
}

func (w *Worker) show(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if p, ok := x.v.(Ptr); ok && p.obj != 0 {
			o := w.cur.obj(p.obj)
			if len(o.slots) > 0 {
				if s, ok := o.slots[0].(string); ok {
					return x.t.String() + ":" + s
				}
			}
			return x.t.String()
		}
		return w.show(x.v)
	case string:
		return x
	case *Term:
		return x.String()
	case *SymStr:
		return "<symbolic string>"
	}
	return fmt.Sprintf("%T", v)
}

var _ = big.NewInt

func sameVal(a, b Value) bool {
	x, ok := a.(Agg)
	if !ok {
		if _, ok := b.(Agg); ok {
			return false
		}
		if i, ok := a.(Iface); ok {
			j, ok := b.(Iface)
			return ok && i.t == j.t && sameVal(i.v, j.v)
		}
		return a == b
	}
	y, ok := b.(Agg)
	if !ok || len(x) != len(y) {
		return false
	}
	for i := range x {
		if !sameVal(x[i], y[i]) {
			return false
		}
	}
	return true
}
