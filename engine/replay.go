package main

// Native replay: the harness functions, compiled with the ordinary Go
// compiler against /repo's working tree and the real primitives.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type RunItem struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Seed    uint64            `json:"seed"`
}

type RunOut struct {
	Failures []string `json:"failures"`
	Log      []string `json:"log"`
	Control  string   `json:"control"`
	Err      string   `json:"err,omitempty"`
}

const replayMain = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"vh/h"
	"vh/sym"
)

var reg = map[string]func(){
%s}

type item struct {
	Harness string            ` + "`json:\"harness\"`" + `
	Inputs  map[string]uint64 ` + "`json:\"inputs\"`" + `
	Seed    uint64            ` + "`json:\"seed\"`" + `
}
type out struct {
	Failures []string ` + "`json:\"failures\"`" + `
	Log      []string ` + "`json:\"log\"`" + `
	Control  string   ` + "`json:\"control\"`" + `
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var items []item
	if err := json.Unmarshal(b, &items); err != nil {
		panic(err)
	}
	res, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(res)
	for _, it := range items {
		f := reg[it.Harness]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown harness", it.Harness)
			os.Exit(3)
		}
		sym.Setup(it.Inputs, it.Seed)
		fl, lg, c := sym.Run(f)
		enc.Encode(out{fl, lg, c})
		if len(fl) > 0 && strings.HasPrefix(fl[0], "timeout:") {
			break // what hangs may hold locks
		}
	}
	res.Close()
}
`

type Replayer struct {
	dir, bin string
	err      error
}

// NewReplayer builds the native replay program.
func NewReplayer(hdir string, names []string) *Replayer {
	r := &Replayer{}
	r.dir, r.err = os.MkdirTemp("", "gosym-replay")
	if r.err != nil {
		return r
	}
	var sb strings.Builder
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", n, n)
	}
	src := filepath.Join(r.dir, "main.go")
	if r.err = os.WriteFile(src, []byte(fmt.Sprintf(replayMain, sb.String())), 0644); r.err != nil {
		return r
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": map[string]string{filepath.Join(hdir, "cmd/replay/main.go"): src}})
	ovf := filepath.Join(r.dir, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	r.bin = filepath.Join(r.dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", ovf, "-o", r.bin, "./cmd/replay")
	cmd.Dir = hdir
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	if out, err := cmd.CombinedOutput(); err != nil {
		r.err = fmt.Errorf("native build: %v: %s", err, out)
	}
	return r
}

func (r *Replayer) Close() {
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *Replayer) batch(items []RunItem, secs int) ([]RunOut, string) {
	b, _ := json.Marshal(items)
	in := filepath.Join(r.dir, "in.json")
	outf := filepath.Join(r.dir, "out.json")
	os.WriteFile(in, b, 0644)
	os.Remove(outf)
	cmd := exec.Command("timeout", fmt.Sprint(secs), r.bin, in, outf)
	cmd.Dir = r.dir
	var eb strings.Builder
	cmd.Stderr = &eb
	err := cmd.Run()
	var res []RunOut
	if f, e := os.Open(outf); e == nil {
		dec := json.NewDecoder(f)
		for {
			var o RunOut
			if dec.Decode(&o) != nil {
				break
			}
			res = append(res, o)
		}
		f.Close()
	}
	msg := ""
	if err != nil {
		t := eb.String()
		if len(t) > 600 {
			t = t[:600]
		}
		msg = fmt.Sprintf("%v: %s", err, t)
	}
	return res, msg
}

// Run replays items; an item that crashes the process is reported as a failure.
func (r *Replayer) Run(items []RunItem) []RunOut {
	var out []RunOut
	if r.err != nil {
		for range items {
			out = append(out, RunOut{Err: r.err.Error()})
		}
		return out
	}
	deadline := time.Now().Add(200 * time.Second)
	for len(out) < len(items) {
		if time.Now().After(deadline) {
			for len(out) < len(items) {
				out = append(out, RunOut{Err: "replay time budget"})
			}
			break
		}
		res, msg := r.batch(items[len(out):], 100)
		out = append(out, res...)
		if n := len(res); n > 0 && len(res[n-1].Failures) > 0 && strings.HasPrefix(res[n-1].Failures[0], "timeout:") {
			for len(out) < len(items) {
				out = append(out, RunOut{Err: "not run: an earlier one did not finish"})
			}
			break
		}
		if len(out) < len(items) {
			o := RunOut{}
			switch {
			case strings.Contains(msg, "exit status 124"):
				o.Failures = []string{"timeout: process did not finish"}
			case strings.Contains(msg, "exit status 3") || msg == "":
				o.Err = "replay: " + msg
			default:
				o.Failures = []string{"process crash: " + msg}
			}
			out = append(out, o)
		}
	}
	return out
}
