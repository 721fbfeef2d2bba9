package main

// SMT-LIB back end: one incremental solver process per job.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	T        *Terms
	cmd      *exec.Cmd
	in       *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	axioms   []*Term
	axAt     []int // stack depth at which the axiom is asserted, -1 if not
	apps     []*App
	declared map[string]bool
	dead     bool
	Queries  int
	NSat     int
	NUnsat   int
	NUnk     int
	Time     time.Duration
	timeout  int
	name     string
	dump     io.Writer
	errs     []string
	emitted  map[*Term]bool
	emitApp  map[*App]bool
	axFor    func(s *Solver, a *App) []*Term
}

func NewSolver(T *Terms, name string, timeoutMs int) (*Solver, error) {
	s := &Solver{T: T, declared: map[string]bool{}, timeout: timeoutMs, name: name, emitted: map[*Term]bool{}, emitApp: map[*App]bool{}}
	var args []string
	switch name {
	case "cvc5":
		args = []string{"--incremental", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit-per=%d", timeoutMs)}
	default:
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(name, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if f := os.Getenv("GOSYM_DUMP"); f != "" {
		w, _ := os.OpenFile(f, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
		s.dump = w
	}
	s.send("(set-option :global-declarations true)\n")
	if name == "cvc5" {
		s.send("(set-logic ALL)\n")
	} else {
		s.send("(set-option :timeout %d)\n", timeoutMs)
		s.send("(set-option :memory_max_size 6000)\n")
	}
	return s, nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(f string, args ...interface{}) {
	if len(args) == 0 {
		s.in.WriteString(f)
	} else {
		fmt.Fprintf(s.in, f, args...)
	}
	if s.dump != nil {
		fmt.Fprintf(s.dump, f, args...)
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.k)
	}
	return "t" + strconv.Itoa(t.id)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || s.emitted[t] {
		return
	}
	// iterative enough: depth is bounded by term depth; use explicit recursion
	for _, a := range t.a {
		s.emit(a)
	}
	if t.op == OpAppB {
		s.emitA(t.app)
	}
	s.emitted[t] = true
	switch t.op {
	case OpVar:
		s.send("(declare-const t%d %s)\n", t.id, sortName(t.w))
		return
	case OpAppB:
		hi := 8*(t.app.n-int(t.k)) - 1
		s.send("(define-fun t%d () (_ BitVec 8) ((_ extract %d %d) a%d))\n", t.id, hi, hi-7, t.app.id)
		return
	}
	var sb strings.Builder
	switch t.op {
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d)", t.k>>8, t.k&255)
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", t.w-t.a[0].w)
	default:
		sb.WriteString("(" + opNames[t.op])
	}
	for _, a := range t.a {
		sb.WriteByte(' ')
		sb.WriteString(s.ref(a))
	}
	sb.WriteByte(')')
	s.send("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), sb.String())
}

func (s *Solver) vec(v []*Term) string {
	if len(v) == 1 {
		return s.ref(v[0])
	}
	var sb strings.Builder
	sb.WriteString("(concat")
	for _, b := range v {
		sb.WriteByte(' ')
		sb.WriteString(s.ref(b))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (s *Solver) emitA(a *App) {
	if s.emitApp[a] {
		return
	}
	s.emitApp[a] = true
	var args []string
	var sorts []string
	for _, v := range a.args {
		if len(v) == 0 {
			continue
		}
		for _, t := range v {
			s.emit(t)
		}
		args = append(args, s.vec(v))
		sorts = append(sorts, fmt.Sprintf("(_ BitVec %d)", 8*len(v)))
	}
	sig := a.sig()
	if !s.declared[sig] {
		s.declared[sig] = true
		s.send("(declare-fun |%s| (%s) (_ BitVec %d))\n", sig, strings.Join(sorts, " "), 8*a.n)
	}
	if len(args) == 0 {
		s.send("(define-fun a%d () (_ BitVec %d) |%s|)\n", a.id, 8*a.n, sig)
	} else {
		s.send("(define-fun a%d () (_ BitVec %d) (|%s| %s))\n", a.id, 8*a.n, sig, strings.Join(args, " "))
	}
	if s.axFor != nil {
		for _, ax := range s.axFor(s, a) {
			if !ax.isConst() {
				s.axioms = append(s.axioms, ax)
				s.axAt = append(s.axAt, -1)
			}
		}
	}
	s.apps = append(s.apps, a)
}

func (s *Solver) popTo(n int) {
	if len(s.stack) > n {
		s.send("(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
		for i, d := range s.axAt {
			if d > n {
				s.axAt[i] = -1
			}
		}
	}
}

func (s *Solver) assertAxioms() {
	for i := 0; i < len(s.axioms); i++ {
		if s.axAt[i] < 0 {
			s.emit(s.axioms[i])
			s.send("(assert %s)\n", s.ref(s.axioms[i]))
			s.axAt[i] = len(s.stack)
		}
	}
}

func (s *Solver) push(t *Term) {
	s.emit(t)
	s.send("(push 1)\n")
	s.stack = append(s.stack, t)
	s.send("(assert %s)\n", s.ref(t))
	s.assertAxioms()
}

// Check decides pc ∧ extra.
func (s *Solver) Check(pc []*Term, extra ...*Term) Res {
	if s.dead {
		return Unknown
	}
	n := 0
	all := pc
	if len(extra) > 0 {
		all = append(append([]*Term{}, pc...), extra...)
	}
	for n < len(s.stack) && n < len(all) && s.stack[n] == all[n] {
		n++
	}
	s.popTo(n)
	for _, t := range all[n:] {
		s.push(t)
	}
	s.assertAxioms()
	s.Queries++
	t0 := time.Now()
	s.send("(check-sat)\n")
	s.in.Flush()
	r := s.readRes()
	s.Time += time.Since(t0)
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return r
}

// ground decides a self-contained goal next to the current assertions' scope.
func (s *Solver) ground(goal string) Res {
	if s.dead {
		return Unknown
	}
	s.Queries++
	t0 := time.Now()
	// declarations are global: give them names of their own
	r0 := strconv.Itoa(s.Queries)
	goal = strings.NewReplacer("val", "val"+r0, "quo", "quo"+r0, "res", "res"+r0).Replace(goal)
	s.send("(push 1)\n%s(check-sat)\n", goal)
	s.in.Flush()
	r := s.readRes()
	s.send("(pop 1)\n")
	s.Time += time.Since(t0)
	switch r {
	case Sat:
		s.NSat++
	case Unsat:
		s.NUnsat++
	default:
		s.NUnk++
	}
	return r
}

func (s *Solver) readRes() Res {
	type rl struct {
		l   string
		err error
	}
	for {
		ch := make(chan rl, 1)
		go func() {
			l, err := s.out.ReadString('\n')
			ch <- rl{l, err}
		}()
		var x rl
		select {
		case x = <-ch:
		case <-time.After(time.Duration(s.timeout*3+20000) * time.Millisecond):
			s.dead = true
			s.errs = append(s.errs, "solver hung")
			s.Close()
			return Unknown
		}
		if x.err != nil {
			s.dead = true
			s.errs = append(s.errs, "solver died: "+x.err.Error())
			return Unknown
		}
		l := strings.TrimSpace(x.l)
		switch l {
		case "sat":
			return Sat
		case "unsat":
			return Unsat
		case "unknown", "timeout":
			return Unknown
		case "":
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.errs = append(s.errs, l)
			if len(s.errs) > 3 {
				s.dead = true
			}
			return Unknown
		}
	}
}

// Values reads terms from the current model (after a Sat Check).
func (s *Solver) Values(ts []*Term) (map[*Term]uint64, error) {
	m := map[*Term]uint64{}
	var ask []*Term
	for _, t := range ts {
		if t.isConst() {
			m[t] = t.k
		} else if s.emitted[t] {
			ask = append(ask, t)
		} else if t.op == OpVar {
			m[t] = 0
		} else {
			s.emit(t)
			ask = append(ask, t)
		}
	}
	const chunk = 200
	for len(ask) > 0 {
		n := len(ask)
		if n > chunk {
			n = chunk
		}
		s.send("(get-value (")
		for _, t := range ask[:n] {
			s.send(" " + s.ref(t))
		}
		s.send("))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.dead = true
			return nil, err
		}
		if strings.Contains(txt, "(error") {
			return nil, fmt.Errorf("get-value: %s", txt)
		}
		for _, p := range parsePairs(txt) {
			id, err := strconv.Atoi(strings.TrimPrefix(p[0], "t"))
			if err != nil {
				continue
			}
			for _, t := range ask[:n] {
				if t.id == id {
					m[t] = parseVal(p[1])
				}
			}
		}
		ask = ask[n:]
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		if b == '(' {
			depth++
			started = true
		}
		if started {
			sb.WriteByte(b)
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

func parsePairs(txt string) [][2]string {
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	var out [][2]string
	for i := 0; i < len(f); i++ {
		if strings.HasPrefix(f[i], "t") && f[i] != "true" {
			if i+1 < len(f) {
				if f[i+1] == "_" && i+3 < len(f) { // (_ bvN w)
					out = append(out, [2]string{f[i], f[i+2]})
				} else {
					out = append(out, [2]string{f[i], f[i+1]})
				}
			}
		}
	}
	return out
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		n, _ := strconv.ParseUint(v[2:], 16, 64)
		return n
	case strings.HasPrefix(v, "#b"):
		n, _ := strconv.ParseUint(v[2:], 2, 64)
		return n
	case strings.HasPrefix(v, "bv"):
		n, _ := strconv.ParseUint(v[2:], 10, 64)
		return n
	}
	return 0
}
