package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// globalDeadline bounds the whole run.
var globalDeadline time.Time

type Job struct {
	h        *Harness
	pins     map[string]int
	label    string
	maxSteps int64
	secs     int
	debug    bool
	tier     string
	P        *Program
	wits     int
	solver   string
}

type Violation struct {
	Harness   string              `json:"harness"`
	Prop      string              `json:"property"`
	Msg       string              `json:"msg"`
	Where     string              `json:"where"`
	Trace     []string            `json:"trace,omitempty"`
	Inputs    map[string]uint64   `json:"inputs"`
	Pins      map[string]int      `json:"pins,omitempty"`
	Kind      string              `json:"kind"` // assert, panic
	Alts      []map[string]uint64 `json:"-"`
	Taint     map[string]bool     `json:"-"`
	Confirmed bool                `json:"confirmed"`
	Note      string              `json:"note,omitempty"`
}

type Witness struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Log     []string          `json:"log"`
}

type JobResult struct {
	Job                         *Job
	Paths                       int
	Assumed                     int // paths cut by an assumption
	Forks                       int
	Steps                       int64
	Incomplete                  map[string]int // reasons
	Unknowns                    map[string]int
	Viol                        []*Violation
	nViol, nNarrow              map[string]int
	narrowTime                  time.Duration
	Reached                     map[string]int
	Asserts                     map[string]int // assertion label -> times discharged
	Cov                         map[*ssa.Function]bool
	Queries, NSat, NUnsat, NUnk int
	SolverTime                  time.Duration
	Wall                        time.Duration
	Terms                       int
	Apps                        int
	Wits                        []*Witness
	SolverErrs                  []string
	Cross                       int
	CrossBad                    []string
	Fresh                       int
}

func (r *JobResult) unknown(m string) { r.Unknowns[m]++ }
func (r *JobResult) cover(f *ssa.Function) {
	r.Cov[f] = true
}

func newWorker(P *Program, job *Job) (*Worker, error) {
	w := &Worker{P: P, T: NewTerms(), job: job, funcs: map[*ssa.Function]*FuncInfo{},
		tidc: map[typesType]int{}, meths: map[methKey]*ssa.Function{}, eqMemo: map[[2]*App]*Term{}, randOf: map[*Term]int{}, impl: map[[2]int]bool{}}
	w.tids = typeutil.Map{}
	if job.h.Arith != "" {
		w.ar = NewArith()
	}
	sn := job.solver
	if sn == "" {
		sn = "z3-new"
	}
	to := 10000
	if job.tier == "thorough" {
		to = 60000
	}
	s, err := NewSolver(w.T, sn, to)
	if err != nil {
		return nil, err
	}
	s.axFor = w.axiomsFor
	w.S = s
	w.res = &JobResult{Job: job, Incomplete: map[string]int{}, Unknowns: map[string]int{}, nViol: map[string]int{}, nNarrow: map[string]int{},
		Reached: map[string]int{}, Asserts: map[string]int{}, Cov: map[*ssa.Function]bool{}}
	return w, nil
}

func RunJob(P *Program, job *Job) *JobResult {
	t0 := time.Now()
	w, err := newWorker(P, job)
	if err != nil {
		return &JobResult{Job: job, Incomplete: map[string]int{"solver: " + err.Error(): 1}}
	}
	defer w.S.Close()
	memEnter(w)
	defer memLeave(w)
	w.deadline = t0.Add(time.Duration(job.secs) * time.Second)
	if !globalDeadline.IsZero() && w.deadline.After(globalDeadline) {
		w.deadline = globalDeadline
	}
	s := &State{token: w.newToken(), facts: map[*Term]bool{}, conc: map[*Term]uint64{}, globals: map[*ssa.Global]ObjID{},
		inited: map[*ssa.Package]bool{}, names: map[string]int{}}
	w.cur = s
	w.pushFrame(job.h.fn, nil, nil)
	w.stack = append(w.stack, s)
	for len(w.stack) > 0 {
		n := len(w.stack) - 1
		s := w.stack[n]
		w.stack = w.stack[:n]
		if time.Now().After(w.deadline) {
			w.res.Incomplete["time budget: paths left unexplored"] += 1 + n
			break
		}
		if s.dead {
			w.res.Assumed++
			continue
		}
		w.cur = s
		ok := w.run(s)
		w.res.Steps += s.steps - s.steps0
		if ok && len(s.frames) == 0 && !s.noPanic {
			w.complete(s)
		}
	}
	r := w.res
	if w.job.tier == "thorough" {
		w.crossCheck()
	}
	r.Queries, r.NSat, r.NUnsat, r.NUnk = w.S.Queries, w.S.NSat, w.S.NUnsat, w.S.NUnk
	r.SolverTime = w.S.Time
	r.SolverErrs = w.S.errs
	r.Terms, r.Apps = w.T.n, w.T.nApp
	r.Wall = time.Since(t0)
	if os.Getenv("GOSYM_PROF") != "" {
		type kv struct {
			f *FuncInfo
			n int64
		}
		var xs []kv
		for _, fi := range w.funcs {
			xs = append(xs, kv{fi, fi.steps})
		}
		sort.Slice(xs, func(i, j int) bool { return xs[i].n > xs[j].n })
		for i := 0; i < 15 && i < len(xs); i++ {
			fmt.Fprintf(os.Stderr, "  %9d %s\n", xs[i].n, xs[i].f.fn)
		}
	}
	return r
}

// complete records a path that ran to its end.
func (w *Worker) complete(s *State) {
	w.res.Paths++
	if len(w.res.Wits) < w.job.wits {
		if len(s.pc) == 0 {
			m := map[string]uint64{}
			for _, in := range s.inputs {
				if in.t.isConst() {
					m[in.name] = in.t.k
				}
			}
			w.res.Wits = append(w.res.Wits, &Witness{Harness: w.job.h.Name, Inputs: m, Log: append([]string(nil), s.tag...)})
		} else if w.S.Check(s.pc) == Sat {
			if m := w.inputs(s); m != nil {
				w.res.Wits = append(w.res.Wits, &Witness{Harness: w.job.h.Name, Inputs: m, Log: append([]string(nil), s.tag...)})
			}
		}
	}
}

func (w *Worker) endPath(e pathEnd) {
	switch e.kind {
	case "assume", "infeasible":
		w.res.Assumed++
	case "stop":
		w.res.Paths++
	default:
		w.res.Incomplete[e.kind+": "+e.msg]++
	}
}

// inputs reads all input variables from the current model.
func (w *Worker) inputs(s *State) map[string]uint64 {
	var ts []*Term
	for _, in := range s.inputs {
		if in.t.op == OpConcat {
			for _, x := range in.t.a {
				if w.S.emitted[x] {
					ts = append(ts, x)
				}
			}
		} else if in.t.isConst() || w.S.emitted[in.t] {
			ts = append(ts, in.t)
		}
	}
	m, err := w.S.Values(ts)
	if err != nil {
		return nil
	}
	out := map[string]uint64{}
	for _, in := range s.inputs {
		if in.t.op == OpConcat {
			v := uint64(0)
			for _, x := range in.t.a {
				v = v<<8 | m[x]
			}
			out[in.name] = v
		} else if v, ok := m[in.t]; ok {
			out[in.name] = v
		}
	}
	return out
}

func (w *Worker) violation(kind, msg string, s *State, where string, trace []string) {
	key := kind + msg
	w.res.nViol[key]++
	if w.res.nViol[key] > 60 {
		return
	}
	in := w.inputs(s)
	alts := w.narrow(s, key)
	if w.res.nViol[key] > 3 {
		if len(alts) == 0 || w.res.nNarrow[key] > 6 {
			return
		}
		w.res.nNarrow[key]++
	}
	if os.Getenv("GOSYM_VPC") != "" {
		fmt.Printf("VIOL %s pc:\n", msg)
		for _, x := range s.pc {
			if x.op == OpEq && x.a[0].isConst() && x.a[1].op == OpVar {
				continue
			}
			fmt.Printf("  %s\n", x.str(8))
		}
	}
	tn := map[string]bool{}
	for _, x := range s.inputs {
		if x.t.taint {
			tn[x.name] = true
		}
	}
	w.res.Viol = append(w.res.Viol, &Violation{Taint: tn, Harness: w.job.h.Name, Msg: msg, Where: where, Trace: trace, Inputs: in, Alts: alts, Pins: w.job.pins, Kind: kind})
}

// narrow looks for simpler counterexamples: the same violation with nothing
// or only one of the attacker's values altered.  They are the ones likely to
// be confirmed by the real primitives.
func (w *Worker) narrow(s *State, key string) (out []map[string]uint64) {
	if w.res.narrowTime > 25*time.Second || w.res.nNarrow[key] > 6 {
		return nil
	}
	t0 := time.Now()
	defer func() { w.res.narrowTime += time.Since(t0) }()
	var vars []*Term
	groups := map[string][]*Term{}
	var order []string
	for _, in := range s.inputs {
		xs := []*Term{in.t}
		if in.t.op == OpConcat {
			xs = in.t.a
		}
		g := in.name
		if i := strings.Index(g, "["); i >= 0 {
			g = g[:i]
		}
		for _, x := range xs {
			if x.op != OpVar || !x.taint {
				continue
			}
			vars = append(vars, x)
			if groups[g] == nil {
				order = append(order, g)
			}
			groups[g] = append(groups[g], x)
		}
	}
	if len(vars) == 0 {
		return nil
	}
	try := func(v *Term) bool {
		var cs []*Term
		for _, x := range vars {
			z := w.T.Eq(x, w.T.Const(x.w, 0))
			if x == v {
				z = w.T.Not(z)
			}
			cs = append(cs, z)
		}
		r, ns := w.under(s, w.T.And(cs...))
		if r != Sat {
			return false
		}
		m := w.inputs(ns)
		for _, in := range s.inputs {
			xs := []*Term{in.t}
			if in.t.op == OpConcat {
				xs = in.t.a
			}
			all := len(xs) > 0
			for _, x := range xs {
				all = all && x.op == OpVar && x.taint && x != v
			}
			if all {
				m[in.name] = 0
			}
		}
		out = append(out, m)
		return true
	}
	try(nil)
	for _, g := range order {
		xs := groups[g]
		n := len(xs)
		done := map[int]bool{}
		for _, i := range []int{n - 1, 0, n / 2, n - 2, 1, n / 4} {
			if i < 0 || i >= n || done[i] || len(out) >= 12 || time.Since(t0) > 5*time.Second {
				continue
			}
			done[i] = true
			try(xs[i])
		}
	}
	return out
}

// uncaught reports a panic that reached the harness entry.
func (w *Worker) uncaught(f *Frame) {
	s := w.cur
	s.noPanic = true
	w.res.Paths++
	switch w.S.Check(s.pc) {
	case Sat:
		w.violation("panic", "uncaught panic: "+f.panicPos, s, f.panicPos, nil)
	case Unknown:
		w.res.unknown("panic reachability undecided: " + f.panicPos)
	}
}

// assert discharges an assertion on the current path.
func (w *Worker) assert(c *Term, msg string) {
	s := w.cur
	c = w.subst(c)
	if v, ok := s.known(w.T, c); ok && v {
		w.res.Asserts[msg]++
		w.res.Fresh++
		return
	}
	r, ns := w.under(s, w.T.Not(c))
	switch r {
	case Unsat:
		w.res.Asserts[msg]++
		s.learn(w, c)
		if w.job.tier == "thorough" && len(w.crossQ) < 40 {
			w.crossQ = append(w.crossQ, append(append([]*Term{}, s.pc...), w.T.Not(c)))
		}
		return
	case Sat:
		w.violation("assert", msg, ns, w.where(), w.backtrace())
	case Unknown:
		w.res.unknown("assertion undecided: " + msg)
	}
	if r, _ := w.under(s, c); r == Unsat {
		w.cur.noPanic = true
		panic(pathEnd{"stop", ""})
	}
	s.addPC(w, c)
	if s.dead {
		w.cur.noPanic = true
		panic(pathEnd{"stop", ""})
	}
}

// crossCheck re-discharges a sample of the unsat assertion queries with cvc5.
func (w *Worker) crossCheck() {
	if len(w.crossQ) == 0 {
		return
	}
	s2, err := NewSolver(w.T, "cvc5", 20000)
	if err != nil {
		return
	}
	defer s2.Close()
	s2.axFor = w.axiomsFor
	for _, q := range w.crossQ {
		switch s2.Check(q) {
		case Unsat:
			w.res.Cross++
		case Sat:
			w.res.CrossBad = append(w.res.CrossBad, "cvc5 disagrees (sat) on an assertion query of "+w.job.h.Name)
		}
	}
}

// ---------- scheduling ----------

func (P *Program) Jobs(prop, tier, only string) []*Job {
	var jobs []*Job
	for _, h := range P.harnesses {
		match := prop == ""
		for _, p := range h.Props {
			if p == prop {
				match = true
			}
		}
		if !match || (h.Tier != "both" && h.Tier != tier && only == "") {
			continue
		}
		if only != "" && h.Name != only {
			continue
		}
		pinsets := []map[string]int{{}}
		for _, d := range h.Shards {
			var nx []map[string]int
			n := d.n
			if tier == "quick" && d.quick > 0 {
				n = d.quick
			}
			for _, p := range pinsets {
				for i := 0; i < n; i++ {
					q := map[string]int{d.name: i}
					for k, v := range p {
						q[k] = v
					}
					nx = append(nx, q)
				}
			}
			pinsets = nx
		}
		for _, p := range pinsets {
			j := &Job{h: h, pins: p, P: P, tier: tier, maxSteps: h.Steps, secs: h.Secs, wits: 1}
			if j.maxSteps == 0 {
				j.maxSteps = 400e6
			}
			if j.secs == 0 {
				j.secs = 120
				if tier == "thorough" {
					j.secs = 800
				}
			}
			if len(pinsets) == 1 {
				j.wits = 2
			}
			var ks []string
			for k, v := range p {
				ks = append(ks, fmt.Sprintf("%s=%d", k, v))
			}
			sort.Strings(ks)
			j.label = h.Name
			if len(ks) > 0 {
				j.label += "[" + strings.Join(ks, ",") + "]"
			}
			jobs = append(jobs, j)
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return jobs[i].h.Cost > jobs[j].h.Cost })
	return jobs
}

func RunJobs(P *Program, jobs []*Job, par int, verbose bool) []*JobResult {
	out := make([]*JobResult, len(jobs))
	ch := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i := 0; i < par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				r := RunJob(P, jobs[k])
				out[k] = r
				if verbose {
					mu.Lock()
					printJob(r)
					mu.Unlock()
				}
			}
		}()
	}
	for k := range jobs {
		ch <- k
	}
	close(ch)
	wg.Wait()
	return out
}

func printJob(r *JobResult) {
	fmt.Printf("  %-50s paths=%d cut=%d forks=%d steps=%d q=%d(%d/%d/%d) solver=%.1fs wall=%.1fs terms=%d apps=%d\n", r.Job.label, r.Paths, r.Assumed, r.Forks, r.Steps,
		r.Queries, r.NSat, r.NUnsat, r.NUnk, r.SolverTime.Seconds(), r.Wall.Seconds(), r.Terms, r.Apps)
	for _, m := range []map[string]int{r.Incomplete, r.Unknowns} {
		for k, v := range m {
			fmt.Printf("      ! %s (x%d)\n", k, v)
		}
	}
	for _, e := range r.SolverErrs {
		fmt.Printf("      solver error: %s\n", e)
	}
	for _, v := range r.Viol {
		fmt.Printf("      VIOL %s: %s at %s\n", v.Kind, v.Msg, v.Where)
	}
}
