package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/prospik/libsignal-protocol-go"
const harnessMod = "vh"

var typesMu sync.Mutex

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	harnesses []*Harness
	lookMu    sync.Mutex
	look      map[string]*ssa.Function
	repoFuncs int
}

// Harness is an entry point: a function of the harness package whose doc
// comment carries //gosym: directives.
type Harness struct {
	Name   string
	Props  []string
	Tier   string
	Shards []shardDim
	Reach  []string
	Steps  int64
	Secs   int
	Bound  string
	fn     *ssa.Function
	Cost   int
	Arith  string // integer arithmetic: limb, field or group
	Log    bool   // the logger package itself is encoded
}

type shardDim struct {
	name  string
	n     int
	quick int // number of values explored in the quick tier (0: all)
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func Load(dir string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./h", "./model", "./sym")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, look: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for _, p := range ps {
		if p.PkgPath != harnessMod+"/h" {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Tier: "both"}
				found := false
				for _, c := range fd.Doc.List {
					if !strings.HasPrefix(c.Text, "//gosym:") {
						continue
					}
					found = true
					rest := strings.TrimPrefix(c.Text, "//gosym:")
					if strings.HasPrefix(rest, "bound ") {
						h.Bound = strings.TrimPrefix(rest, "bound ")
						continue
					}
					for _, kv := range strings.Fields(rest) {
						i := strings.Index(kv, "=")
						if i < 0 {
							return nil, fmt.Errorf("%s: bad directive %q", h.Name, kv)
						}
						k, v := kv[:i], kv[i+1:]
						switch k {
						case "prop":
							h.Props = strings.Split(v, ",")
						case "tier":
							h.Tier = v
						case "reach":
							h.Reach = strings.Split(v, ",")
						case "shard":
							for _, s := range strings.Split(v, ",") {
								x := strings.Split(s, ":")
								n, _ := strconv.Atoi(x[1])
								d := shardDim{name: x[0], n: n}
								if len(x) > 2 {
									d.quick, _ = strconv.Atoi(x[2])
								}
								h.Shards = append(h.Shards, d)
							}
						case "steps":
							h.Steps, _ = strconv.ParseInt(v, 10, 64)
						case "secs":
							h.Secs, _ = strconv.Atoi(v)
						case "arith":
							h.Arith = v
						case "log":
							h.Log = v == "real"
						case "cost":
							h.Cost, _ = strconv.Atoi(v)
						default:
							return nil, fmt.Errorf("%s: bad directive %q", h.Name, kv)
						}
					}
				}
				if !found {
					continue
				}
				h.fn = P.pkgs[harnessMod+"/h"].Func(h.Name)
				P.harnesses = append(P.harnesses, h)
			}
		}
	}
	sort.Slice(P.harnesses, func(i, j int) bool { return P.harnesses[i].Name < P.harnesses[j].Name })
	return P, nil
}

// lookupFunc resolves "pkg/path.Func" or "(*pkg/path.T).M" / "(pkg/path.T).M".
func (P *Program) lookupFunc(name string) *ssa.Function {
	P.lookMu.Lock()
	defer P.lookMu.Unlock()
	if f, ok := P.look[name]; ok {
		return f
	}
	var f *ssa.Function
	if !strings.HasPrefix(name, "(") {
		i := strings.LastIndex(name, ".")
		if p := P.pkgs[name[:i]]; p != nil {
			f = p.Func(name[i+1:])
		}
	}
	P.look[name] = f
	return f
}

// namedType resolves a named type of a loaded package.
func (P *Program) namedType(pkg, name string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func stackOf() string {
	s := string(debug.Stack())
	// keep the engine frames only
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/verif/engine") || strings.Contains(l, "/engine/") && strings.Contains(l, ".go:") {
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " +"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
		}
	}
	if len(out) > 8 {
		out = out[2:8]
	}
	return strings.Join(out, " < ")
}
