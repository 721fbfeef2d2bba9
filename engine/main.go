package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check|run|replay|list ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("gosym", flag.ExitOnError)
	root := fs.String("root", "/verif", "verification directory")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	only := fs.String("h", "", "one harness")
	par := fs.Int("j", runtime.NumCPU(), "parallel jobs")
	pin := fs.String("pin", "", "name=value,... pins replacing the shards")
	secs := fs.Int("secs", 0, "time budget per job")
	solver := fs.String("solver", "", "solver")
	file := fs.String("file", "", "replay file")
	fs.Parse(os.Args[2:])
	hdir := filepath.Join(*root, "harness")
	switch os.Args[1] {
	case "replay":
		os.Exit(replayCmd(hdir, *file))
	case "list":
		P, err := Load(hdir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, h := range P.harnesses {
			fmt.Printf("%-40s %v %s %v\n", h.Name, h.Props, h.Tier, h.Shards)
		}
		return
	}
	t0 := time.Now()
	P, err := Load(hdir)
	if err != nil {
		fmt.Println("ERROR cannot load the code:", err)
		os.Exit(2)
	}
	load := time.Since(t0)
	jobs := P.Jobs(*prop, *tier, *only)
	if *pin != "" {
		pins := map[string]int{}
		for _, kv := range strings.Split(*pin, ",") {
			x := strings.SplitN(kv, "=", 2)
			pins[x[0]], _ = strconv.Atoi(x[1])
		}
		var sel []*Job
		for _, j := range jobs {
			ok := true
			for k, v := range pins {
				if w, has := j.pins[k]; has && w != v {
					ok = false
				}
			}
			if ok {
				sel = append(sel, j)
			}
		}
		jobs = sel
	}
	for _, j := range jobs {
		if *secs > 0 {
			j.secs = *secs
		}
		j.solver = *solver
	}
	if len(jobs) == 0 {
		fmt.Println("ERROR no harness for", *prop)
		os.Exit(2)
	}
	budget := 560 * time.Second
	if *tier == "thorough" {
		budget = 780 * time.Second
	}
	globalDeadline = t0.Add(budget)
	res := RunJobs(P, jobs, *par, true)
	fmt.Printf("load %.1fs, encode+solve %.1fs\n", load.Seconds(), time.Since(t0).Seconds()-load.Seconds())
	os.Exit(report(P, *root, hdir, *prop, *tier, res, t0, os.Args[1] == "check"))
}

type Finding struct{ prop, harness, label, text string }

// known findings: "property=<id> harness=<name> label=<text> | description"
func readFindings(root string) []Finding {
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		f := Finding{}
		if i := strings.Index(l, " | "); i >= 0 {
			f.text = l[i+3:]
			l = l[:i]
		}
		if i := strings.Index(l, "label="); i >= 0 {
			f.label = strings.TrimSpace(l[i+6:])
			l = l[:i]
		}
		for _, kv := range strings.Fields(l) {
			if strings.HasPrefix(kv, "property=") {
				f.prop = kv[9:]
			}
			if strings.HasPrefix(kv, "harness=") {
				f.harness = kv[8:]
			}
		}
		out = append(out, f)
	}
	return out
}

func (v *Violation) label() string { return v.Msg }

func report(P *Program, root, hdir, prop, tier string, res []*JobResult, t0 time.Time, write bool) int {
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	var names []string
	for _, h := range P.harnesses {
		names = append(names, h.Name)
	}
	rp := NewReplayer(hdir, names)
	defer rp.Close()
	if rp.err != nil {
		fmt.Println("ERROR", rp.err)
		return 2
	}

	// ---- violations: confirm natively ----
	type cand struct {
		v     *Violation
		items []RunItem
		full  int // items from here on use the solver's random draws unchanged
	}
	var cands []*cand
	seen := map[string]int{}
	for _, r := range res {
		for _, v := range r.Viol {
			k := v.Harness + "|" + v.Msg
			if seen[k] >= 4 && (len(v.Alts) == 0 || seen[k] >= 16) {
				continue
			}
			seen[k]++
			c := &cand{v: v}
			from := v.Inputs
			drop := func(pred func(string) bool) map[string]uint64 {
				m := map[string]uint64{}
				for k, x := range from {
					if !pred(k) {
						m[k] = x
					}
				}
				for k, x := range v.Pins {
					m[k] = uint64(x)
				}
				return m
			}
			isRand := func(n string) bool { return strings.HasPrefix(n, "rand") }
			isVec := func(n string) bool { return strings.Contains(n, "[") && !v.Taint[n] }
			for i := 1; i <= 12; i++ {
				c.items = append(c.items, RunItem{v.Harness, drop(isRand), uint64(seed*1000 + i)})
			}
			for i := 1; i <= 12; i++ {
				c.items = append(c.items, RunItem{v.Harness, drop(isVec), uint64(seed*2000 + i)})
			}
			for i := 1; i <= 4; i++ {
				c.items = append(c.items, RunItem{v.Harness, drop(func(n string) bool { return isRand(n) && v.Inputs[n] == 0 }), uint64(seed*3000 + i)})
			}
			for i, alt := range v.Alts {
				if os.Getenv("GOSYM_ALTS") != "" { fmt.Println("ALT", nonzero(alt, v.Taint), v.Msg) }
				from = alt
				c.items = append(c.items, RunItem{v.Harness, drop(isRand), uint64(seed*4000 + i)}, RunItem{v.Harness, drop(isVec), uint64(seed*5000 + i)})
			}
			c.full = len(c.items)
			if !degenerate(v.Inputs) {
				c.items = append(c.items, RunItem{v.Harness, v.Inputs, uint64(seed)})
			}
			cands = append(cands, c)
		}
	}
	findings := readFindings(root)
	violations := 0
	unconfirmed := map[string]int{}
	knownSeen := map[string]bool{}
	var vio []map[string]interface{}
	printed := map[string]bool{}
	done := map[string]bool{}
	doRep := func(h, msg, native string, it RunItem) {
		for _, f := range findings {
			if (prop == "" || f.prop == prop) && f.harness == h && (f.label == msg || strings.HasPrefix(native, f.label)) {
				if !knownSeen[f.text] {
					knownSeen[f.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", f.prop, f.text)
				}
				return
			}
		}
		violations++
		if printed[h+msg] {
			return
		}
		printed[h+msg] = true
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, len(printed)))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "assertion": msg, "native": native, "run": []RunItem{it}}, "", " ")
		os.WriteFile(p, b, 0644)
		vio = append(vio, map[string]interface{}{"harness": h, "assertion": msg, "native_failure": native, "replay": p})
		fmt.Printf("  %s: %s\n    native: %s\n", h, msg, native)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
	}
	for _, c := range cands {
		k := c.v.Harness + "|" + c.v.Msg
		if done[k] {
			continue
		}
		for n, part := range [][]RunItem{c.items[:1], c.items[1:c.full], c.items[c.full:]} {
			outs := rp.Run(part)
			for i, o := range outs {
				if n == 2 && !contains(o.Failures, c.v.Msg) {
					continue
				}
				if len(o.Failures) > 0 && !c.v.Confirmed {
					c.v.Confirmed = true
					done[k] = true
					doRep(c.v.Harness, c.v.Msg, strings.Join(o.Failures, "; "), part[i])
				}
				if o.Err != "" {
					c.v.Note = o.Err
				}
			}
			if c.v.Confirmed {
				break
			}
		}
		if !c.v.Confirmed {
			unconfirmed[k]++
			fmt.Printf("  unconfirmed: %s: %s at %s %s\n", c.v.Harness, c.v.Msg, c.v.Where, c.v.Note)
			if os.Getenv("GOSYM_TRACE") != "" {
				for _, l := range c.v.Trace {
					fmt.Println("      ", l)
				}
			}
		}
	}
	for k := range done {
		delete(unconfirmed, k)
	}
	// What depends on a bit of an uninterpreted result needs luck: more draws.
	luck := time.Now().Add(40 * time.Second)
	tried := map[string]bool{}
	for _, c := range cands {
		k := c.v.Harness + "|" + c.v.Msg
		if done[k] || tried[k] || len(tried) >= 3 {
			continue
		}
		tried[k] = true
		in := c.items[0].Inputs
		for i := 0; i < 40 && !done[k] && time.Now().Before(luck); i++ {
			var part []RunItem
			for j := 0; j < 50; j++ {
				part = append(part, RunItem{c.v.Harness, in, uint64(seed*1000003 + i*50 + j)})
			}
			for j, o := range rp.Run(part) {
				if contains(o.Failures, c.v.Msg) {
					done[k] = true
					delete(unconfirmed, k)
					doRep(c.v.Harness, c.v.Msg, strings.Join(o.Failures, "; "), part[j])
					break
				}
			}
		}
	}

	// ---- witnesses: agreement of encoding and implementation ----
	var wits []*Witness
	var items []RunItem
	for _, r := range res {
		for _, x := range r.Wits {
			if len(wits) < 60 && violations == 0 {
				wits = append(wits, x)
				in := x.Inputs
				if degenerate(in) {
					// the solver does not know that random draws differ
					in = map[string]uint64{}
					for k, v := range x.Inputs {
						if !strings.HasPrefix(k, "rand") {
							in[k] = v
						}
					}
				}
				items = append(items, RunItem{x.Harness, in, uint64(seed)})
			}
		}
	}
	validated, disagree := 0, 0
	var samples []interface{}
	for i, o := range rp.Run(items) {
		x := wits[i]
		switch {
		case len(o.Failures) > 0:
			if !done[x.Harness+"|"+o.Failures[0]] {
				doRep(x.Harness, "native run of an explored path: "+o.Failures[0], strings.Join(o.Failures, "; "), items[i])
			}
		case o.Err != "":
			disagree++
		case o.Control == "" && strings.Join(o.Log, ",") == strings.Join(x.Log, ","):
			validated++
		default:
			disagree++
			fmt.Printf("  witness of %s: encoding %v, implementation %v %s\n", x.Harness, x.Log, o.Log, o.Control)
			if os.Getenv("GOSYM_TRACE") != "" { fmt.Println("   ", nonzero(x.Inputs, map[string]bool{})) }
		}
		if len(samples) < 6 {
			m := map[string]uint64{}
			n := 0
			var ks []string
			for k := range x.Inputs {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				if n < 12 {
					m[k] = x.Inputs[k]
				}
				n++
			}
			samples = append(samples, map[string]interface{}{"harness": x.Harness, "path": x.Log, "inputs": m, "inputs_total": n, "native_failures": o.Failures})
		}
	}

	// ---- evidence ----
	var paths, cut, steps, q, qs, qu, qk, asserts, fresh, cross int
	var st float64
	inc := map[string]int{}
	cov := map[string]bool{}
	al := map[string]int{}
	bounds := []string{}
	reached := map[string]map[string]int{}
	hs := map[string]bool{}
	var serr, crossBad []string
	for _, r := range res {
		paths += r.Paths
		cut += r.Assumed
		steps += int(r.Steps)
		q += r.Queries
		qs += r.NSat
		qu += r.NUnsat
		qk += r.NUnk
		fresh += r.Fresh
		cross += r.Cross
		st += r.SolverTime.Seconds()
		for k, v := range r.Incomplete {
			inc[r.Job.h.Name+": "+k] += v
		}
		for k, v := range r.Unknowns {
			inc[r.Job.h.Name+": "+k] += v
		}
		for f := range r.Cov {
			if strings.HasPrefix(pkgPath(f), repoMod) {
				cov[strings.TrimPrefix(f.String(), repoMod+"/")] = true
			}
		}
		for k, v := range r.Asserts {
			al[k] += v
			asserts += v
		}
		h := r.Job.h
		if !hs[h.Name] {
			hs[h.Name] = true
			reached[h.Name] = map[string]int{}
			bounds = append(bounds, h.Name+": "+h.Bound)
		}
		for k, v := range r.Reached {
			reached[h.Name][k] += v
		}
		serr = append(serr, r.SolverErrs...)
		crossBad = append(crossBad, r.CrossBad...)
	}
	var vac []string
	for _, r := range res {
		for _, l := range r.Job.h.Reach {
			if reached[r.Job.h.Name][l] == 0 {
				vac = append(vac, r.Job.h.Name+" never reaches "+l)
			}
		}
	}
	vac = uniq(vac)
	for _, v := range vac {
		fmt.Println("  VACUOUS:", v)
	}
	for k := range unconfirmed {
		inc["counterexample not reproduced natively (idealisation): "+k]++
	}
	var incl []string
	for k, v := range inc {
		incl = append(incl, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(incl)
	var fl []string
	for f := range cov {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	fmt.Printf("paths=%d steps=%d queries=%d (sat %d unsat %d unknown %d) solver=%.1fs assertions=%d functions=%d witnesses=%d/%d incomplete=%d unconfirmed=%d\n",
		paths, steps, q, qs, qu, qk, st, asserts, len(fl), validated, len(wits), len(incl), len(unconfirmed))
	if write && prop != "" {
		ev := map[string]interface{}{
			"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
			"wall_s": time.Since(t0).Seconds(), "violations": violations,
			"coverage": map[string]interface{}{
				"states": paths, "transitions": steps, "traces_validated_against_impl": validated,
				"samples": samples, "exhaustive": len(incl) == 0,
				"paths_cut_by_assumption": cut,
				"functions_encoded":       fl, "functions_encoded_count": len(fl),
				"queries": q, "queries_sat": qs, "queries_unsat": qu, "queries_unknown": qk, "solver_seconds": st,
				"assertion_instances_discharged": asserts, "assertion_instances_by_rewriting": fresh,
				"assertions": al, "bounds": bounds, "reached": reached, "vacuous": vac,
				"outside_the_claim": incl, "solver_errors": serr, "trace_disagreements": disagree,
				"second_solver_agreements": cross, "second_solver_disagreements": crossBad,
				"violations": vio,
			},
			"assumptions": assumptions,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0644)
	}
	if violations > 0 {
		return 1
	}
	if asserts == 0 {
		fmt.Println("ERROR nothing was decided")
		return 2
	}
	return 0
}

var assumptions = []string{
	"HMAC, SHA-2, X25519, AES and the signature group are uninterpreted functions with the equational facts listed in DESIGN.md; collisions are assumed away, and an attacker-made MAC or signature is accepted only if an honest party computed it",
	"logging, locks and protobuf registration have no effect; the protobuf and JSON libraries are models, compared with the originals by replaying explored paths natively",
	"goroutines are scheduled as with one processor: a started one runs when the running one waits, yields or ends",
	"Go compiler, go/ssa and the SMT solver (z3 5.3.2) are trusted; a violation is reported only when it reproduces on the native build",
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// degenerate tells whether two random draws of a model coincide or repeat one
// byte, which the idealisation excludes.
func degenerate(in map[string]uint64) bool {
	draws := map[string]*[32]byte{}
	for k, v := range in {
		i := strings.Index(k, "[")
		if !strings.HasPrefix(k, "rand") || i < 0 {
			continue
		}
		n, err := strconv.Atoi(strings.TrimSuffix(k[i+1:], "]"))
		if err != nil || n >= 32 {
			continue
		}
		d := draws[k[:i]]
		if d == nil {
			d = &[32]byte{}
			draws[k[:i]] = d
		}
		d[n] = byte(v)
	}
	seen := map[[32]byte]bool{}
	for _, d := range draws {
		set := map[byte]bool{}
		for _, b := range d {
			set[b] = true
		}
		if seen[*d] || len(set) < 8 {
			return true
		}
		seen[*d] = true
	}
	return false
}

func uniq(x []string) []string {
	sort.Strings(x)
	var out []string
	for i, s := range x {
		if i == 0 || s != x[i-1] {
			out = append(out, s)
		}
	}
	return out
}

func replayCmd(hdir, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var x struct {
		Property string    `json:"property"`
		Run      []RunItem `json:"run"`
	}
	if err := json.Unmarshal(b, &x); err != nil {
		fmt.Println(err)
		return 2
	}
	var names []string
	for _, r := range x.Run {
		names = append(names, r.Harness)
	}
	rp := NewReplayer(hdir, uniq(names))
	defer rp.Close()
	bad := 0
	for _, o := range rp.Run(x.Run) {
		fmt.Printf("failures=%q log=%v %s %s\n", o.Failures, o.Log, o.Control, o.Err)
		if len(o.Failures) > 0 {
			bad = 1
		}
	}
	return bad
}

func nonzero(m map[string]uint64, t map[string]bool) string {
	s := ""
	for k, v := range m {
		if v != 0 && (t[k] || !strings.HasPrefix(k, "rand")) {
			s += fmt.Sprintf(" %s=%d", k, v)
		}
	}
	return s
}
