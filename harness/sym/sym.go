// Package sym is the interface between harnesses and the encoder.  Under the
// encoder these functions create symbolic values and discharge assertions;
// natively (replay) they read concrete inputs and record failures.
package sym

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"time"
)

// Control is the panic value that ends a native run early.
type Control struct{ Reason string }

var (
	inputs   map[string]uint64
	names    map[string]int
	seed     uint64
	Failures []string
	Log      []string
)

// Setup prepares a native run.
func Setup(in map[string]uint64, sd uint64) {
	inputs = in
	names = map[string]int{}
	seed = sd
	Failures = nil
	Log = nil
	rand.Reader = reader{}
	runtime.GOMAXPROCS(1) // goroutines as the encoder schedules them
}

type reader struct{}

func (reader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	copy(b, Bytes("rand", len(b)))
	return len(b), nil
}

var _ io.Reader = reader{}

func fresh(n string) string {
	k := names[n]
	names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

// value returns the recorded value of an input, or a pseudo-random default.
func value(name string) uint64 {
	if v, ok := inputs[name]; ok {
		return v
	}
	h := seed*0x9E3779B97F4A7C15 + 14695981039346656037
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	h ^= h >> 31
	h *= 0x9E3779B97F4A7C15
	h ^= h >> 29
	h *= 0xBF58476D1CE4E5B9
	h ^= h >> 32
	return h
}

// attacker deltas default to zero.
func avalue(name string) uint64 {
	if v, ok := inputs[name]; ok {
		return v
	}
	return 0
}

func Byte(name string) byte             { return byte(value(fresh(name))) }
func Uint16(name string) uint16         { return uint16(value(fresh(name))) }
func Uint32(name string) uint32         { return uint32(value(fresh(name))) }
func Uint64(name string) uint64         { return value(fresh(name)) }
func AttackerUint32(name string) uint32 { return uint32(avalue(fresh(name))) }
func AttackerByte(name string) byte     { return byte(avalue(fresh(name))) }
func Bool(name string) bool             { return value(fresh(name))&1 == 1 }

func Bytes(name string, n int) []byte {
	nm := fresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(value(fmt.Sprintf("%s[%d]", nm, i)))
	}
	return b
}

func AttackerBytes(name string, n int) []byte {
	nm := fresh(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(avalue(fmt.Sprintf("%s[%d]", nm, i)))
	}
	return b
}

// Choose is a value in 0..n-1, enumerated by the encoder.
func Choose(name string, n int) int {
	nm := fresh(name)
	v, ok := inputs[nm]
	if !ok {
		return int(value(nm) % uint64(n))
	}
	if int(v) >= n {
		panic(Control{"choice out of range"})
	}
	return int(v)
}

func Assume(c bool) {
	if !c {
		panic(Control{"assumption not met"})
	}
}

func Assert(c bool, label string) {
	if !c {
		Failures = append(Failures, label)
	}
}

func Reach(label string) { Log = append(Log, label) }

// Honest marks the end of the honest phase: from here on, message
// authentication codes not computed so far are assumed not to be guessed.
func Honest() {}

// Symbolic tells whether the encoder is running.
func Symbolic() bool { return false }

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func EqBytes(a, b []byte) bool   { return bytes.Equal(a, b) }
func SameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

// Shown is everything in x, as text.
func Shown(x interface{}) string { return fmt.Sprint(x) }

// Hidden asserts that no part of the secrets can be read from the text.
func Hidden(text, label string, secrets ...[]byte) {
	low := strings.ToLower(text)
	for _, s := range secrets {
		for i := 0; i+6 <= len(s); i++ {
			p := s[i : i+6]
			seen := map[byte]bool{}
			for _, b := range p {
				seen[b] = true
			}
			if len(seen) < 4 {
				continue
			}
			found := strings.Contains(text, string(p))
			for _, sep := range []string{"", " ", ":", `\x`, ", 0x", ","} {
				h := make([]string, len(p))
				for k, b := range p {
					h[k] = fmt.Sprintf("%02x", b)
				}
				found = found || strings.Contains(low, strings.Join(h, sep))
			}
			for _, sep := range []string{" ", ", ", ","} {
				d := make([]string, len(p))
				for k, b := range p {
					d[k] = fmt.Sprint(b)
				}
				found = found || strings.Contains(text, strings.Join(d, sep))
			}
			if i+18 <= len(s) {
				for k := 0; k < 3; k++ {
					e := base64.RawStdEncoding.EncodeToString(s[i+k : i+k+15])
					u := base64.RawURLEncoding.EncodeToString(s[i+k : i+k+15])
					found = found || strings.Contains(text, e) || strings.Contains(text, u)
				}
			}
			if found {
				Failures = append(Failures, label)
				return
			}
		}
	}
}

func Dump(l string, v interface{}) { fmt.Fprintf(os.Stderr, "DUMP %s %v\n", l, v) }

// Run executes a harness natively.
func Run(f func()) (failures, log []string, control string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if c, ok := r.(Control); ok {
					control = c.Reason
					return
				}
				Failures = append(Failures, fmt.Sprintf("panic: %v @ %s", r, origin()))
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		Failures = append(Failures, "timeout: harness did not finish within 30 s")
	}
	return Failures, Log, control
}

func origin() string {
	pcs := make([]uintptr, 40)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "runtime.") {
			i := strings.LastIndex(f.File, "/")
			return fmt.Sprintf("%s (%s:%d)", f.Function, f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// Try runs f and tells whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if c, ok := r.(Control); ok {
				panic(c)
			}
			panicked = true
		}
	}()
	f()
	return false
}
