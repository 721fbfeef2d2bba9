package main

// Intrinsics: functions the encoder does not interpret but models directly.

import (
	"encoding/base64"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(w *Worker, args []Value, fn *ssa.Function) Value

// redirects replace a function by model code written in Go (interpreted).
var redirects = map[string]string{
	"crypto/hmac.New":               "vh/model.HmacNew",
	"crypto/sha256.New":             "vh/model.Sha256New",
	"crypto/sha512.New":             "vh/model.Sha512New",
	"crypto/sha256.Sum256":          "vh/model.Sum256",
	"crypto/sha512.Sum512":          "vh/model.Sum512",
	"crypto/aes.NewCipher":          "vh/model.AesNewCipher",
	"crypto/cipher.NewCBCEncrypter": "vh/model.NewCBCEncrypter",
	"crypto/cipher.NewCBCDecrypter": "vh/model.NewCBCDecrypter",
	"encoding/binary.Read":          "vh/model.BinaryRead",
	"crypto/rand.Read":              "vh/model.RandRead",
	"fmt.Errorf":                    "vh/model.Errorf",
	"(*sync.Once).Do":               "vh/model.OnceDo",
	"(*sync.Pool).Get":              "vh/model.PoolGet",
	"(*sync.Pool).Put":              "vh/model.PoolPut",
	repoMod + "/logger.Debug":       "vh/model.LogDebug",
	repoMod + "/logger.Info":        "vh/model.LogInfo",
	repoMod + "/logger.Warning":     "vh/model.LogWarning",
	repoMod + "/logger.Error":       "vh/model.LogError",
}

// logRedirects apply to harnesses that encode the logger package itself.
var logRedirects = map[string]string{
	"log.Println":        "vh/model.Println",
	"log.Print":          "vh/model.Print",
	"log.Printf":         "vh/model.Printf",
	"strings.Index":      "vh/model.Index",
	"log.SetOutput":      "vh/model.SetOutput",
	"strings.Contains":   "vh/model.Contains",
	"strings.Split":      "vh/model.Split",
	"fmt.Sprintln":       "vh/model.Sprintln",
	"(time.Time).Format": "vh/model.TimeFormat",
}

var intrinsics map[string]Intrinsic

func nop(w *Worker, args []Value, fn *ssa.Function) Value { return w.zeroRes(fn) }

func (w *Worker) zeroRes(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(res.At(0).Type())
	}
	t := Tuple{}
	for i := 0; i < res.Len(); i++ {
		t = append(t, w.zero(res.At(i).Type()))
	}
	return t
}

// prefixIntrinsic models whole packages.
func prefixIntrinsic(name string) Intrinsic {
	n := strings.TrimLeft(name, "(*")
	switch {
	case strings.HasPrefix(n, repoMod+"/logger.") && n != repoMod+"/logger.Setup" && n != repoMod+"/logger.init":
		return nop
	case strings.HasPrefix(n, "log."), strings.HasPrefix(n, "log.Logger)"):
		return nop
	case strings.HasPrefix(n, "github.com/golang/protobuf/proto.Register"):
		return nop
	case n == "runtime.Gosched":
		return func(w *Worker, a []Value, fn *ssa.Function) Value {
			w.cur.yield()
			return nil
		}
	case n == "runtime.Caller":
		return func(w *Worker, a []Value, fn *ssa.Function) Value {
			i := len(w.cur.frames) - 1 - constInt(a[0])
			if i < 0 || i >= len(w.cur.frames) {
				return w.zeroRes(fn)
			}
			p := w.framePos(w.cur.frames[i])
			return Tuple{w.T.Const(64, 1), p.Filename, w.T.Const(64, uint64(p.Line)), w.T.Bool(true)}
		}
	case strings.HasPrefix(n, "runtime."):
		return nop
	}
	return nil
}

func (w *Worker) argBytes(v Value) []*Term { return w.substVec(w.cur.bytesOf(v.(Slice))) }

func (w *Worker) loadBytesS(v Value, n int) []*Term { return w.substVec(w.loadBytes(v, n)) }

// loadBytes reads n bytes at a pointer.
func (w *Worker) loadBytes(v Value, n int) []*Term {
	p := w.ptr(v)
	out := make([]*Term, n)
	sl := w.cur.loadN(p, n)
	for i := range out {
		out[i] = sl[i].(*Term)
	}
	return out
}

func (w *Worker) storeBytes(v Value, b []*Term) {
	p := w.ptr(v)
	o := w.cur.wobj(p.obj)
	for i, t := range b {
		o.slots[int(p.off)+i] = t
	}
}

func (w *Worker) strArg(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(pathEnd{"unsupported", "symbolic string argument at " + w.where()})
	}
	return s
}

func (w *Worker) mkErr(msg string) Value {
	t := w.P.namedType("errors", "errorString")
	id := w.cur.alloc([]Value{msg}, t)
	return Iface{t: w.errPtrType(t), v: Ptr{obj: id}}
}

var errPtr types.Type

func (w *Worker) errPtrType(t types.Type) types.Type {
	typesMu.Lock()
	defer typesMu.Unlock()
	if errPtr == nil {
		errPtr = types.NewPointer(t)
	}
	return errPtr
}

// freshName makes an input name unique along a path.
func (w *Worker) freshName(n string) string {
	s := w.cur
	k := s.names[n]
	s.names[n] = k + 1
	if k == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, k)
}

func (w *Worker) input(name string, width uint8, taint bool) *Term {
	var t *Term
	if taint && width > 8 {
		var bs []*Term
		for i := 0; i < int(width)/8; i++ {
			bs = append(bs, w.T.Var(fmt.Sprintf("%s!%d", name, i), 8, true))
		}
		t = w.T.Concat(bs...)
	} else {
		t = w.T.Var(name, width, taint)
	}
	w.cur.inputs = append(w.cur.inputs, Input{name, t})
	return t
}

func (w *Worker) inputBytes(name string, n int, taint bool) []*Term {
	b := make([]*Term, n)
	if w.ar != nil {
		for i := range b {
			b[i] = w.polyTerm(w.ar.input(fmt.Sprintf("%s[%d]", name, i), big.NewInt(0), big.NewInt(255)), 8)
		}
		return b
	}
	for i := range b {
		b[i] = w.input(fmt.Sprintf("%s[%d]", name, i), 8, taint)
	}
	return b
}

func constInt(v Value) int {
	t := v.(*Term)
	if !t.isConst() {
		panic(pathEnd{"unsupported", "symbolic size argument"})
	}
	return int(t.sval())
}

// choose forks over 0..n-1 without solver queries.
func (w *Worker) choose(name string, n int) Value {
	s := w.cur
	if p, ok := w.job.pins[name]; ok && s.names[name] == 0 {
		nm := w.freshName(name)
		s.inputs = append(s.inputs, Input{nm, w.T.Const(32, uint64(p))})
		if p >= n {
			panic(pathEnd{"assume", ""})
		}
		return w.T.Const(64, uint64(p))
	}
	nm := name
	if k := s.names[name]; k > 0 {
		nm = fmt.Sprintf("%s#%d", name, k)
	}
	v := w.T.Var("choose!"+nm, 32, false)
	if k, ok := s.conc[v]; ok {
		s.names[name]++
		s.inputs = append(s.inputs, Input{nm, w.T.Const(32, k)})
		return w.T.Const(64, k)
	}
	if n <= 0 {
		panic(pathEnd{"assume", ""})
	}
	var alts []*Term
	for i := 0; i < n; i++ {
		alts = append(alts, w.T.Eq(v, w.T.Const(32, uint64(i))))
	}
	if n == 1 {
		s.addPC(w, alts[0])
		return w.choose(name, n)
	}
	panic(splitReq{alts})
}

func init() {
	I := map[string]Intrinsic{}
	intrinsics = I

	// ----- harness API -----
	S := func(n string, f Intrinsic) { I["vh/sym."+n] = f }
	mkInt := func(width uint8, taint bool) Intrinsic {
		return func(w *Worker, a []Value, _ *ssa.Function) Value {
			return w.input(w.freshName(w.strArg(a[0])), width, taint)
		}
	}
	S("Byte", mkInt(8, false))
	S("Uint16", mkInt(16, false))
	S("Uint32", mkInt(32, false))
	S("Uint64", mkInt(64, false))
	S("AttackerUint32", mkInt(32, true))
	S("AttackerByte", mkInt(8, true))
	S("Bool", func(w *Worker, a []Value, _ *ssa.Function) Value {
		v := w.input(w.freshName(w.strArg(a[0])), 8, false)
		return w.T.Eq(w.T.BAnd(v, w.T.Const(8, 1)), w.T.Const(8, 1))
	})
	S("Bytes", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.cur.newBytes(w.inputBytes(w.freshName(w.strArg(a[0])), constInt(a[1]), false))
	})
	S("AttackerBytes", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.cur.newBytes(w.inputBytes(w.freshName(w.strArg(a[0])), constInt(a[1]), true))
	})
	S("Choose", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.choose(w.strArg(a[0]), constInt(a[1]))
	})
	S("Assume", func(w *Worker, a []Value, _ *ssa.Function) Value {
		c := w.subst(a[0].(*Term))
		s := w.cur
		if v, ok := s.known(w.T, c); ok {
			if !v {
				panic(pathEnd{"assume", ""})
			}
			return nil
		}
		if r, _ := w.under(s, c); r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		s.addPC(w, c)
		if s.dead {
			panic(pathEnd{"assume", ""})
		}
		return nil
	})
	S("Assert", func(w *Worker, a []Value, _ *ssa.Function) Value {
		w.assert(a[0].(*Term), w.strArg(a[1]))
		return nil
	})
	S("Reach", func(w *Worker, a []Value, _ *ssa.Function) Value {
		l := w.strArg(a[0])
		s := w.cur
		if w.res.Reached[l] == 0 {
			if len(s.pc) == 0 || w.S.Check(s.pc) == Sat {
				w.res.Reached[l]++
			}
		} else {
			w.res.Reached[l]++
		}
		s.tag = append(s.tag, l)
		return nil
	})
	S("Honest", func(w *Worker, a []Value, _ *ssa.Function) Value {
		s := w.cur
		h := map[*App]bool{}
		for _, m := range s.macs {
			h[m] = true
		}
		s.honest = h
		return nil
	})
	S("Symbolic", func(w *Worker, a []Value, _ *ssa.Function) Value { return w.T.True })
	S("And", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.T.And(w.boolSlice(a[0])...)
	})
	S("Or", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.T.Or(w.boolSlice(a[0])...)
	})
	S("Implies", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.T.Or(w.T.Not(a[0].(*Term)), a[1].(*Term))
	})
	S("EqBytes", func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.eqVec(w.argBytes(a[0]), w.argBytes(a[1]))
	})
	S("SameBytes", func(w *Worker, a []Value, _ *ssa.Function) Value {
		x, y := w.argBytes(a[0]), w.argBytes(a[1])
		if len(x) != len(y) {
			return w.T.False
		}
		cs := make([]*Term, len(x))
		for i := range x {
			cs[i] = w.T.Eq(x[i], y[i])
		}
		return w.T.And(cs...)
	})
	S("Dump", func(w *Worker, a []Value, _ *ssa.Function) Value {
		fmt.Printf("DUMP %s %s\n", w.strArg(a[0]), w.showVal(a[1].(Iface)))
		return nil
	})

	// ----- std -----
	I["bytes.Equal"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.eqVec(w.argBytes(a[0]), w.argBytes(a[1]))
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	cmp := func(w *Worker, x, y []*Term) Value {
		lt, eq := w.strCmp(x, y)
		return w.T.Ite(eq, w.T.Const(64, 0), w.T.Ite(lt, w.T.Const(64, ^uint64(0)), w.T.Const(64, 1)))
	}
	I["bytes.Compare"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return cmp(w, w.argBytes(a[0]), w.argBytes(a[1]))
	}
	I["internal/bytealg.Compare"] = I["bytes.Compare"]
	I["strings.Compare"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return cmp(w, w.strBytes(a[0]), w.strBytes(a[1]))
	}
	I["crypto/hmac.Equal"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.eqVec(w.argBytes(a[0]), w.argBytes(a[1]))
	}
	I["crypto/subtle.ConstantTimeCompare"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.T.Ite(w.eqVec(w.argBytes(a[0]), w.argBytes(a[1])), w.T.Const(64, 1), w.T.Const(64, 0))
	}
	idxByte := func(w *Worker, b []*Term, c *Term) Value {
		for i, t := range b {
			if w.decide(w.T.Eq(t, c)) {
				return w.T.Const(64, uint64(i))
			}
		}
		return w.T.Const(64, ^uint64(0))
	}
	I["internal/bytealg.IndexByte"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return idxByte(w, w.argBytes(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.IndexByteString"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return idxByte(w, w.strBytes(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.MakeNoZero"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		n := constInt(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = w.T.bytes[0]
		}
		return w.cur.newBytes(b)
	}
	count := func(w *Worker, b []*Term, c *Term) Value {
		r := w.T.Const(64, 0)
		for _, t := range b {
			r = w.T.Add(r, w.T.Ite(w.T.Eq(t, c), w.T.Const(64, 1), w.T.Const(64, 0)))
		}
		return r
	}
	I["internal/bytealg.Count"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return count(w, w.argBytes(a[0]), a[1].(*Term))
	}
	I["internal/bytealg.CountString"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return count(w, w.strBytes(a[0]), a[1].(*Term))
	}
	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		p := w.ptr(a[0])
		sl := w.cur.loadN(p, 2)[1].(Slice)
		return w.mkStr(w.cur.bytesOf(sl))
	}
	I["strings.Repeat"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return strings.Repeat(w.strArg(a[0]), constInt(a[1]))
	}
	I["strconv.Itoa"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		return w.mkStr(w.fmtInt(a[0].(*Term), true, 1, '0'))
	}
	I["strconv.FormatInt"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		if constInt(a[1]) != 10 {
			panic(pathEnd{"unsupported", "FormatInt base"})
		}
		return w.mkStr(w.fmtInt(a[0].(*Term), true, 1, '0'))
	}
	I["strconv.FormatUint"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		if constInt(a[1]) != 10 {
			panic(pathEnd{"unsupported", "FormatUint base"})
		}
		return w.mkStr(w.fmtInt(a[0].(*Term), false, 1, '0'))
	}
	sprintf := func(w *Worker, f Value, args Value) Value {
		var as []Iface
		sl := args.(Slice)
		for i := 0; i < int(sl.len); i++ {
			as = append(as, w.cur.obj(sl.obj).slots[int(sl.off)+i].(Iface))
		}
		return w.sprintf(w.strArg(f), as)
	}
	I["fmt.Sprintf"] = func(w *Worker, a []Value, _ *ssa.Function) Value { return sprintf(w, a[0], a[1]) }
	I["fmt.Sprint"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		sl := a[0].(Slice)
		var out []*Term
		isStr := func(v Value) bool {
			switch v.(type) {
			case string, *SymStr:
				return true
			}
			return false
		}
		for i := 0; i < int(sl.len); i++ {
			x := w.cur.obj(sl.obj).slots[int(sl.off)+i].(Iface)
			if i > 0 && !isStr(x.v) && !isStr(w.cur.obj(sl.obj).slots[int(sl.off)+i-1].(Iface).v) {
				out = append(out, w.T.bytes[' '])
			}
			out = append(out, w.fmtArg('v', "", x)...)
		}
		return w.mkStr(out)
	}
	for _, n := range []string{"Println", "Printf", "Print", "Fprintf", "Fprintln", "Fprint"} {
		I["fmt."+n] = nop
	}
	I["reflect.TypeOf"] = func(w *Worker, a []Value, fn *ssa.Function) Value {
		x := a[0].(Iface)
		if x.t == nil {
			return Iface{}
		}
		t := w.P.namedType("vh/model", "RType")
		return Iface{t: t, v: types.TypeString(x.t, func(p *types.Package) string { return p.Name() })}
	}

	// atomics
	for _, k := range []struct {
		n string
		w uint8
	}{{"Int32", 32}, {"Uint32", 32}, {"Int64", 64}, {"Uint64", 64}} {
		k := k
		I["sync/atomic.Load"+k.n] = func(w *Worker, a []Value, _ *ssa.Function) Value { return w.cur.loadN(w.ptr(a[0]), 1)[0] }
		I["sync/atomic.Store"+k.n] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			p := w.ptr(a[0])
			w.cur.wobj(p.obj).slots[p.off] = a[1]
			return nil
		}
		I["sync/atomic.Add"+k.n] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			p := w.ptr(a[0])
			o := w.cur.wobj(p.obj)
			o.slots[p.off] = w.T.Add(o.slots[p.off].(*Term), a[1].(*Term))
			return o.slots[p.off]
		}
		I["sync/atomic.CompareAndSwap"+k.n] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			p := w.ptr(a[0])
			if w.decide(w.T.Eq(w.cur.loadN(p, 1)[0].(*Term), a[1].(*Term))) {
				w.cur.wobj(p.obj).slots[p.off] = a[2]
				return w.T.True
			}
			return w.T.False
		}
	}

	// locks: the first slot is the number of holders (a writer counts -1)
	sext := func(k uint64, w int) int64 { return int64(k<<(64-w)) >> (64 - w) }
	lock := func(name string, f func(w *Worker, p Ptr, n int64) (int64, Value)) {
		I[name] = func(w *Worker, a []Value, _ *ssa.Function) Value {
			p := w.ptr(a[0])
			if p.obj == 0 {
				w.throw("invalid memory address or nil pointer dereference (nil lock)")
			}
			t := w.cur.loadN(p, 1)[0].(*Term)
			n, v := f(w, p, sext(t.k, int(t.w)))
			if m := uint64(n) & (1<<(t.w-1)<<1 - 1); m != t.k {
				w.cur.wobj(p.obj).slots[p.off] = w.T.Const(t.w, m)
				w.cur.wake(p.obj, false)
			}
			return v
		}
	}
	wait := func(p Ptr) { panic(blockReq{on: []ObjID{p.obj}}) }
	fatal := func(w *Worker, msg string) { panic(goPanic{w.rtErr(msg), msg}) }
	for _, m := range []string{"Mutex", "RWMutex"} {
		m := m
		lock("(*sync."+m+").Lock", func(w *Worker, p Ptr, n int64) (int64, Value) {
			if n != 0 {
				wait(p)
			}
			return -1, nil
		})
		lock("(*sync."+m+").TryLock", func(w *Worker, p Ptr, n int64) (int64, Value) {
			if n != 0 {
				return n, w.T.False
			}
			return -1, w.T.True
		})
		lock("(*sync."+m+").Unlock", func(w *Worker, p Ptr, n int64) (int64, Value) {
			if n != -1 {
				fatal(w, "sync: unlock of unlocked mutex")
			}
			return 0, nil
		})
	}
	lock("(*sync.RWMutex).RLock", func(w *Worker, p Ptr, n int64) (int64, Value) {
		if n < 0 {
			wait(p)
		}
		return n + 1, nil
	})
	lock("(*sync.RWMutex).TryRLock", func(w *Worker, p Ptr, n int64) (int64, Value) {
		if n < 0 {
			return n, w.T.False
		}
		return n + 1, w.T.True
	})
	lock("(*sync.RWMutex).RUnlock", func(w *Worker, p Ptr, n int64) (int64, Value) {
		if n <= 0 {
			fatal(w, "sync: RUnlock of unlocked RWMutex")
		}
		return n - 1, nil
	})
	lock("(*sync.WaitGroup).Wait", func(w *Worker, p Ptr, n int64) (int64, Value) {
		if n > 0 {
			wait(p)
		}
		return n, nil
	})
	add := func(w *Worker, n int64) (int64, Value) {
		if n < 0 {
			fatal(w, "sync: negative WaitGroup counter")
		}
		return n, nil
	}
	lock("(*sync.WaitGroup).Done", func(w *Worker, p Ptr, n int64) (int64, Value) { return add(w, n-1) })
	I["(*sync.WaitGroup).Add"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		p := w.ptr(a[0])
		t := w.cur.loadN(p, 1)[0].(*Term)
		n, _ := add(w, sext(t.k, int(t.w))+w.intArg(a[1], types.Typ[types.Int], "WaitGroup.Add"))
		w.cur.wobj(p.obj).slots[p.off] = w.T.Const(t.w, uint64(n))
		w.cur.wake(p.obj, false)
		return nil
	}

	// randomness: every byte is an unconstrained input
	rnd := func(w *Worker, b Slice) {
		n := int(b.len)
		if n == 0 {
			return
		}
		v := w.inputBytes(w.freshName("rand"), n, false)
		if w.randOf[v[0]] == 0 {
			w.nDraws++
			for _, t := range v {
				w.randOf[t] = w.nDraws
			}
		}
		o := w.cur.wobj(b.obj)
		for i, t := range v {
			o.slots[int(b.off)+i] = t
		}
	}
	rdRead := func(w *Worker, a []Value, fn *ssa.Function) Value {
		b := a[len(a)-1].(Slice)
		rnd(w, b)
		return Tuple{w.T.Const(64, uint64(b.len)), Iface{}}
	}
	I["(crypto/internal/rand.reader).Read"] = rdRead
	I["(*crypto/internal/rand.reader).Read"] = rdRead
	I["(*crypto/rand.reader).Read"] = rdRead

	I["time.Now"] = func(w *Worker, a []Value, fn *ssa.Function) Value {
		r := w.appendZero(nil, fn.Signature.Results().At(0).Type())
		v := w.T.Var("time!"+w.freshName("time"), 64, false)
		// between year 1970 and about 2100
		w.cur.addPC(w, w.T.Ult(v, w.T.Const(64, 4102444800)))
		r[1] = w.T.Add(v, w.T.Const(64, 62135596800))
		return Agg(r)
	}

	// base64 of symbolic bytes is an injective application
	I["(*encoding/base64.Encoding).EncodeToString"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		b := w.argBytes(a[1])
		if s, ok := w.mkStr(b).(string); ok {
			return base64.StdEncoding.EncodeToString([]byte(s))
		}
		return w.mkStr(w.T.App("b64", (len(b)+2)/3*4, b).bytes)
	}
	I["(*encoding/base64.Encoding).DecodeString"] = func(w *Worker, a []Value, _ *ssa.Function) Value {
		if s, ok := a[1].(string); ok {
			r, err := base64.StdEncoding.DecodeString(s)
			e := Value(Iface{})
			if err != nil {
				e = w.mkErr(err.Error())
			}
			return Tuple{w.cur.newBytes(w.strBytes(string(r))), e}
		}
		if ap := isApp(w.strBytes(a[1])); ap != nil && ap.fn == "b64" {
			return Tuple{w.cur.newBytes(ap.args[0]), Iface{}}
		}
		panic(pathEnd{"unsupported", "base64 decoding of symbolic text at " + w.where()})
	}
	initCrypto(I)
	initArith(I)
	initField(I)
	initProto(I)
	initJSON(I)
}

func (w *Worker) boolSlice(v Value) []*Term {
	sl := v.(Slice)
	var out []*Term
	for i := 0; i < int(sl.len); i++ {
		out = append(out, w.cur.obj(sl.obj).slots[int(sl.off)+i].(*Term))
	}
	return out
}

func (w *Worker) showVal(i Iface) string {
	switch x := i.v.(type) {
	case Slice:
		var sb strings.Builder
		for k := 0; k < int(x.len); k++ {
			if t, ok := w.cur.obj(x.obj).slots[int(x.off)+k].(*Term); ok {
				sb.WriteString(t.String() + " ")
			} else {
				sb.WriteString(fmt.Sprintf("%T ", w.cur.obj(x.obj).slots[int(x.off)+k]))
			}
		}
		return sb.String()
	case *Term:
		return x.String()
	}
	return fmt.Sprintf("%v", i.v)
}

// fmtInt renders an integer in decimal with a minimum width.
func (w *Worker) fmtInt(t *Term, signed bool, width int, pad byte) []*Term {
	T := w.T
	if t.isConst() {
		var s string
		if signed {
			s = strconv.FormatInt(t.sval(), 10)
		} else {
			s = strconv.FormatUint(t.k, 10)
		}
		for len(s) < width {
			s = string(pad) + s
		}
		return w.strBytes(s)
	}
	x := T.ZExt(t, 64)
	if signed && T.umax(t) > mask(t.w)>>1 {
		x = T.SExt(t, 64)
		if w.decide(T.Slt(x, T.Const(64, 0))) {
			d := w.fmtInt(T.Neg(x), false, width-1, pad)
			return append([]*Term{T.bytes['-']}, d...)
		}
	}
	// number of digits
	lim := uint64(10)
	n := 1
	mx := T.umax(x)
	for n < 20 {
		if n >= width || pad != '0' {
			if mx < lim || w.decide(T.Ult(x, T.Const(64, lim))) {
				break
			}
		} else if mx < lim {
			break
		}
		n++
		if lim > 1<<63/5 {
			n = 20
			break
		}
		lim *= 10
	}
	m := n
	if m < width && pad == '0' {
		m = width
	}
	out := make([]*Term, m)
	for i := m - 1; i >= 0; i-- {
		var d *Term
		if T.umax(x) < 1<<48 {
			x, d = w.divConst(x, 10)
		} else {
			x, d = T.UDiv(x, T.Const(64, 10)), T.URem(x, T.Const(64, 10))
		}
		out[i] = T.Add(T.ZExt(T.Extract(d, 3, 0), 8), T.bytes['0'])
	}
	return out
}

func (w *Worker) sprintf(f string, args []Iface) Value {
	var out []*Term
	lit := func(s string) { out = append(out, w.strBytes(s)...) }
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("0123456789.+-# ", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		if f[j] == '%' {
			lit("%")
			i = j
			continue
		}
		if ai >= len(args) {
			lit("%!" + f[j:j+1] + "(MISSING)")
		} else {
			out = append(out, w.fmtArg(f[j], f[i+1:j], args[ai])...)
			ai++
		}
		i = j
	}
	return w.mkStr(out)
}

func (w *Worker) fmtArg(verb byte, flags string, a Iface) []*Term {
	switch x := a.v.(type) {
	case *Term:
		if x.w == 0 {
			if w.decide(x) {
				return w.strBytes("true")
			}
			return w.strBytes("false")
		}
		if verb == 'd' || verb == 'v' {
			pad := byte(' ')
			width := 1
			fl := flags
			if strings.HasPrefix(fl, "0") {
				pad = '0'
				fl = fl[1:]
			}
			if fl != "" {
				n, err := strconv.Atoi(fl)
				if err != nil {
					break
				}
				width = n
			}
			return w.fmtInt(x, isSigned(a.t), width, pad)
		}
		if x.isConst() {
			return w.strBytes(fmt.Sprintf("%"+flags+string(verb), x.k))
		}
	case string:
		return w.strBytes(fmt.Sprintf("%"+flags+string(verb), x))
	case *SymStr:
		if (verb == 's' || verb == 'v') && flags == "" {
			return x.b
		}
	case nil:
		if a.t == nil {
			return w.strBytes("<nil>")
		}
	}
	if b := w.shown(a, 1, map[ObjID]bool{}); verb == 'x' || verb == 'X' || verb == 's' {
		switch x := a.v.(type) {
		case Slice, *SymStr:
			if s, ok := x.(Slice); !ok || s.len == 0 || len(b) == int(s.len) {
				if verb == 's' {
					return b
				}
				var out []*Term
				for _, t := range b {
					for _, d := range []*Term{w.T.Extract(t, 7, 4), w.T.Extract(t, 3, 0)} {
						d = w.T.ZExt(d, 8)
						ten := byte('a' - 10)
						if verb == 'X' {
							ten = 'A' - 10
						}
						out = append(out, w.T.Add(d, w.T.Ite(w.T.Ult(d, w.T.Const(8, 10)), w.T.bytes['0'], w.T.bytes[ten])))
					}
				}
				return out
			}
		}
	}
	// rendering of structured values is opaque, but injective
	return append(append(w.strBytes("<"+fmt.Sprintf("%T", a.v)), w.shown(a, 1, map[ObjID]bool{})...), w.T.bytes['>'])
}
